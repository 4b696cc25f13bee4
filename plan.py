# What each check runs. scenarios: (name, configs); config 0 = fault-free, 1 = fault-injecting.
COMPONENTS={"real":["all of orocos_bfl/src compiled from /repo (filters, smoothers, pdfs, models, samples, matrix wrappers over Boost uBLAS and Eigen, rng wrapper incl. boost distributions)"],
 "stub":["32-bit word generator under the rng wrapper (boost::mt19937 -> simulator word stream)","operator new / malloc (pass-through with fault injection and accounting)","thread scheduling (real threads, one runnable at a time, simulator decides)","plant, sensors and delivery link (simulated)"]}
ASSUMPTIONS=["user-supplied models are well-formed (consistent dimensions, positive-definite noise)","IEEE double arithmetic; reference computed in long double with stated tolerances","library built with assertions on, GiNaC on for C22 only; the boost and eigen backends are run, newmat is not available here"]
PLAN={}
def plan(id,files,scen,rule,quick=60000,thorough=3000000,bq=30,bt=780,**k):
    PLAN[id]=dict(files=files,scenarios=scen,rule=rule,cases=dict(quick=quick,thorough=thorough),budget=dict(quick=bq,thorough=bt),chunk=dict(quick=max(1,min(quick//8,250)),thorough=max(1,min(thorough//40,2500))),**k)
plan("C01",["sc_kalman.cpp"],[("C01",(0,1))],"Each case: random linear-Gaussian plant (1-6 states, 1-3 sensors of 1-4 values, optional inputs/sensor parameters, 1-2 system models), filter kind, 1-30 ticks of simulated time, swarm-selected link faults (loss, duplication, delay/reordering, outliers), crash/restart from a stored belief (new filter or Reset), interleaved queries, model parameters changed one at a time or all together, a second filter on the same model objects; posterior compared with the reference after every delivery.")
plan("C02",["sc_kalman.cpp"],[("C02",(0,1))],"As C01 with nonlinear models (state-dependent noise), EKF and IEKF with 1-4 iterations and innovation checks; one-step reference recursion in long double after every delivery.")
plan("C04",["sc_particle.cpp"],[("C04",(0,1))],"Each case: bootstrap or user-proposal particle filter over ColumnVector, double or unsigned states (1-120 particles, zero and tiny weights, duplicates), 1-2 system models, 1-3 sensors, static or dynamic resampling, proposals with general or exactly unit density or equal to the system density, 1-80 ticks through the faulty link; models retuned, proposals exchanged, another filter on the same models, crash/restart by a new filter or Reset; every proposal draw is recorded with its arguments and every particle/weight compared with the reference after every delivery.")
plan("C05",["sc_particle.cpp"],[("C05",(0,1))],"As C04 with the resampling schedule and descent checked at every delivery, plus runs that resample one weighted set with many fresh filters and bound copy counts (Chernoff, log-evidence 34).")
plan("C03",["sc_histogram.cpp"],[("C03",(0,1))],"Each case: 1-60 states, 1-2 transition tables with or without inputs (with zero entries), 1-3 sensors (discrete tables or continuous likelihoods, with or without sensor parameters), 1-150 ticks through the faulty link, crash/restart (new filter or Reset), impossible measurements, tables edited in place; probabilities compared with the discrete Bayes recursion (one-step and folded over the history) after every delivery.")
plan("C08",["sc_mixpf.cpp"],[("C08",(0,1))],"Each case: mixture bootstrap or user-proposal mixture particle filter, 1-4 components of 1-18 particles each, resampling and maintenance configuration, faulty link, crash/restart or Reset, retuned models, exchanged proposals; per-component particles, weights and maintenance calls compared with the reference after every delivery.")
plan("C09",["sc_edit.cpp"],[("C09",(0,1))],"Each case: a pool of 1-4 densities of one kind (discrete, mixture of Gaussian/uniform, mixture of discrete, sample-based, Gaussian, linear conditional Gaussian, conditional discrete, uniform) and 1-30 edits (single or all weights incl. 0, 1, 1e-12, add/delete components, sample replacement and resizing, in-place component edits, dimension changes, density at the exact bounds, copies, assignments; faults: all-zero weights, extreme random words); every object of the pool is compared with a plain model after every edit, including its sampler.")
plan("C06",["sc_sample.cpp"],[("C06",(0,1))],"Each case: one random density (discrete, conditional discrete, sample-based, mixture, uniform, Gaussian incl. degenerate, conditional Gaussian, model simulation), 1-12 draws or list draws (0-300 samples, DEFAULT/RIPLEY/CHOLESKY) fed from a word stream in which extreme 32-bit words (0, 2^32-1, ...) are injected; every value must lie in the support, counts exact, density unchanged, no out-of-bounds access (address sanitizer).")
plan("C07",["sc_sample.cpp"],[("C07",(0,1))],"Each case: one random density and 200-12000 draws one by one or in lists with every supported method; frequencies, whitened means/variances/correlations, successive-draw independence judged with exact Chernoff bounds at log-evidence 34; config 1 interleaves foreign sampling activity.")
plan("C10",["sc_impossible.cpp"],[("C10",(0,1))],"Each case: a particle, mixture-particle or histogram filter (random models, resampling schedule, inputs, sensor parameters) and a twin on the same random words; impossible measurements are injected at random points (separate or combined with a prediction, in bursts, duplicated, reordered); the report, the belief right after, and the belief after every later delivery are compared with the twin that never received them; plus edit histories with all-zero weights.")
JOBS=["jobs_kalman.cpp","jobs_particle.cpp","jobs_density.cpp"]
plan("C11",["sc_threads.cpp"]+JOBS,[("C11",(0,1))],"Each case: 2-4 independent callers (Kalman, particle, mixture-particle, histogram, EKF-particle filters, both smoothers, all densities), each a history of 1-6 operations on its own objects and random words, run once alone and once together under the seeded scheduler (preemption at basic blocks of library code, 1-420 context switches), or one inside the model callbacks of the other; results compared bit for bit.",cov=True)
plan("C12",["sc_memory.cpp"]+JOBS,[("C12",(0,1))],"Each case: one object of any kind (filters, smoothers, densities), a history of 1-6 operations; one allocation (any of those the chosen operation makes, counted in a fault-free pass) fails once or until handled; the exception, the leak accounting, a bystander object, destruction under exhausted memory and the behaviour after a new belief (against a fresh object) are judged.")
plan("C13",["sc_lifetime.cpp"]+JOBS,[("C13",(0,1))],"Each case: one object of any kind and a lifetime history of 0-8 operations (updates, resets to priors of other sizes, the caller overwriting or destroying its prior or components, re-creating its models, handing an object its own belief), then clones/copies/assignments that continue independently, a reset compared with a new object, and destruction in any order; caller objects fingerprinted around every call, results compared with the undisturbed history, leak accounting, address sanitizer.")
plan("C14",["sc_smooth.cpp"],[("C14",(0,1))],"Each case: 1-5 states, 1-2 system models, 1-2 sensors, inputs or not, linear (3 of 4) or nonlinear; a forward pass of the library's filter over 1-14 ticks through the faulty link stores the filtered posteriors; the backward pass (possibly crashing and resuming from the stored smoothed belief, with another smoother running alongside, or repeated after a reset) is compared at every step with one reference backward step and, for linear histories, with the marginal of the joint Gaussian over all states given everything delivered; filtered posteriors must stay bit-identical.")
plan("C15",["sc_smooth.cpp"],[("C15",(0,1))],"Each case: 1-8 filtered particle sets (1-60 particles, equal or different counts, zero/tiny weights, duplicates; from a forward bootstrap pass or synthetic) over ColumnVector, double or unsigned states, 1-2 system models with or without inputs and with zero-probability regions; weights of every backward step compared with the recursion; crash/resume and a second smoother alongside.")
plan("C16",["sc_ekpf.cpp"],[("C16",(0,1))],"Each case: 1-160 particles, 1-3 states, 1-2 (non)linear system models and 1-2 sensors, inputs/sensor parameters, static or dynamic resampling, 1-14 combined updates through the faulty link, outliers up to impossible ones, crash/restart or reset; the transition density handed in records which old particle each new particle is weighted against; weights compared with likelihood times transition over the reference EKF proposal density (own covariance per particle carried along and through resampling), draws whitened with the reference proposal and judged with Chernoff bounds at log-evidence 34; plus runs that resample many fresh filters and bound copy counts per list position and weight class.",bq=50)
plan("C17",["sc_repro.cpp"]+JOBS,[("C17",(0,1))],"Each case: a history of 1-7 operations on one object of any kind (filters, smoothers, densities, with a clone/copy/assignment or a reset on the way), executed twice with the same inputs and words in two different environments: contents of fresh heap and stack memory, heap layout, clocks/process id/environment variables/foreign random sources, earlier activity in the process, other live objects stepped in between; every result, the number of words consumed and the final state compared bit for bit; operations without randomness must consume no word.",raw=True)
plan("C21",["sc_sqrt.cpp"],[("C21",(0,1))],"Each case: random plant (1-5 states, linear or nonlinear, optional inputs), 1-3 implicit sensors of 1-4 values each with or without parameters (also the identity kind with its own square root), 1-4 iterations, swarm-selected link faults, outliers, crash/restart from a stored belief by a new filter, Reset, PriorSet or SRCovarianceSet, models retuned in between, queries; mean and covariance compared with the reference recursion in long double after every delivery, and square root times transpose with the covariance.")
plan("C20",["sc_models.cpp"],[("C20",(0,1))],"Each case: a pool of 1-4 conditional densities (linear, nonlinear with state-dependent noise, discrete tables, user-defined) and 1-5 system/measurement models over them, several models possibly sharing one density; 1-200 operations: density, prediction, covariance, Jacobian and simulation queries with new, repeated or partly repeated arguments, direct use of the density, copies with their own life, parameters retuned in place or through a model, a model rebound to another density (with or without inputs), destroyed and recreated, a filter working with a model in between; faults: extreme random words, arguments aliasing the density's own storage, failing user densities; every answer compared with the closed form for the arguments of that very call, simulated values with a fresh density on the same random words.",quick=150000)
plan("C22",["sc_ginac.cpp"],[("C22",(0,1))],"Each case: random functions written down symbolically (linear, product, trigonometric, exponential, square-root and constant terms over 1-5 states and 0-3 inputs, symbols in any order, entries without any dependence) and the same functions by hand; noise additive or on 1-3 of the inputs. Either a pool of densities and models through 1-25 queries, retunings, clones, copies, assignments, re-creations and destructions of the originals; or 6 create/use/destroy cycles with leak accounting; or an EKF/IEKF on symbolic models over 1-12 ticks through the faulty link with crash/restart, outliers, retuned and re-created models; every answer and every posterior compared with the functions by hand.",ginac=True)
plan("C18",["sc_matrix.cpp"],[("C18",(0,1))],"Each case: 1-4 matrices, symmetric matrices, column and row vectors of sizes 1-6 (general, rank one, zero rows, permuted diagonal, badly scaled) and 1-40 operations of 25 kinds (or a swarm-selected subset) with operands and destination drawn independently, so that they coincide; in half of the faulty cases one of the first four allocations of a value-returning operation fails, everything is compared, and the operation is repeated; every result compared with its definition in long double, every other object bit for bit after every operation.",quick=150000)
plan("C19",["sc_density.cpp"],[("C19",(0,1))],"Each case: a pool of 1-4 Gaussians (1-8 dimensions), uniforms (1-8) or linear conditional Gaussians (1-5 dimensions, 1-3 arguments) with coordinates in units of 2^-26..2^26, correlation matrices of condition up to 1e4, and 1-25 setters, queries, clones, assignments and re-creations; arguments at 0 to 40 standard deviations, at the bounds and one ulp beyond; in half of the faulty cases one of the first six allocations of an operation fails and the operation is repeated; every density of the pool compared with its definition after every operation.",quick=100000)
