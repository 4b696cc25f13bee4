#!/usr/bin/env python3
"""Writes properties.jsonl (the single place the property texts are edited)."""
import json
B="orocos_bfl/src/"
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=[B+f for f in files],mechanism=[dict(name=n,where=B+w) for n,w in mech],observe_at=observe,hook_needed=None))
    if state: d["anchors"]["state"]=[dict(name=n,meaning=m,where=B+w) for n,m,w in state]
    assert len(title)<=80,(id,len(title)); P.append(d)

p("C01","Linear Kalman filters hold the exact posterior of the delivered history",
 "For linear-Gaussian models, after any sequence of predictions and measurement updates the extended and iterated extended Kalman filters hold exactly the mean and covariance of the Bayesian posterior given the prior and the updates delivered so far, in delivery order. This holds for any number of sensors with equal or different measurement sizes, with or without inputs and sensor parameters, combined or separate updates, and any lost, duplicated, delayed or reordered delivery; every update uses the model parameters in force at that moment, also when the caller has changed them since the last update or another filter uses the same model objects. Queries made in between (posterior, innovation statistic, pre-allocation, sampling) never change it, and the innovation statistic returned is that of the current posterior.",
 ["histories","fault_sequences","configurations"],
 "every sequence of updates and queries, every fault sequence of the message delivery in front of the filter, every model size",
 "The tests run one or two fixed models for a fixed number of identical predict/update rounds and compare with stored numbers; they never mix sensors of different sizes, drop, repeat or reorder deliveries, or query in between.",
 ["filter/kalmanfilter.cpp","filter/extendedkalmanfilter.cpp","filter/iteratedextendedkalmanfilter.cpp","filter/filter.cpp","pdf/linearanalyticconditionalgaussian.cpp","pdf/gaussian.cpp"],
 [("prediction and correction arithmetic","filter/kalmanfilter.cpp"),("work-space per measurement size","filter/extendedkalmanfilter.cpp")],
 ["KalmanFilter::PostGet()->ExpectedValueGet/CovarianceGet","ExtendedKalmanFilter::NisGet"],
 [("posterior Gaussian","belief of the filter","filter/kalmanfilter.h"),("measurement work-space map","scratch matrices keyed by measurement size","filter/kalmanfilter.h")])

p("C02","Nonlinear Kalman filters follow the linearised recursion over any history",
 "With nonlinear models the extended Kalman filter predicts through the model function at the current mean, and corrects with the model, its Jacobian and its noise covariance all evaluated at the current mean; the iterated filter re-linearises at each successive estimate for the configured number of iterations, stopping earlier only when the innovation check says so. After any history of deliveries, with whatever model parameters are in force at each of them, the posterior equals that recursion and its covariance is symmetric and positive semi-definite.",
 ["histories","fault_sequences","configurations"],
 "every sequence of delivered predictions and measurements, iteration counts, innovation thresholds, input/sensor-parameter use",
 "The tests use one nonlinear robot model with a fixed measurement sequence and loose tolerances, one iteration count, and no lost or reordered measurements.",
 ["filter/extendedkalmanfilter.cpp","filter/iteratedextendedkalmanfilter.cpp","filter/innovationCheck.cpp","filter/kalmanfilter.cpp"],
 [("linearisation point","filter/extendedkalmanfilter.cpp"),("iteration and early stop","filter/iteratedextendedkalmanfilter.cpp")],
 ["PostGet()->ExpectedValueGet/CovarianceGet"])

p("C03","Histogram filter holds the exact discrete posterior of the history",
 "After any sequence of predictions and measurement updates, in any delivery order and with any losses or repetitions, the histogram filter's probabilities are exactly the discrete Bayes posterior of the updates it accepted, each with the model tables in force at that moment. They are always non-negative and sum to one, and queries in between do not change them.",
 ["histories","fault_sequences","configurations"],
 "every history of discrete predictions (with or without inputs) and measurements, every number of states",
 "One test runs a fixed 20-state model for a fixed number of rounds and looks at one probability.",
 ["filter/histogramfilter.cpp","pdf/discretepdf.cpp","pdf/discreteconditionalpdf.cpp","model/discretesystemmodel.cpp"],
 [("prediction sum and reweighting","filter/histogramfilter.cpp"),("normalisation","pdf/discretepdf.cpp")],
 ["HistogramFilter::PostGet()->ProbabilitiesGet"])

p("C04","Particle filters move every particle and reweight by its likelihood",
 "In every prediction each particle is replaced by a fresh draw from the proposal conditioned on that particle (and input) and keeps its weight; in every measurement update each particle keeps its value and its weight is multiplied by the likelihood of the measurement at that particle (and, in a combined prediction-and-measurement update of a filter with a proposal other than the system model, by the ratio of system density to proposal density at the drawn value), then all weights are normalised. Every update uses the models and the proposal in force at that moment. The number of particles never changes and the reported mean and covariance are those of the weighted particles.",
 ["histories","inputs","configurations"],
 "every random stream, every history of updates with lost, repeated or reordered measurements, every particle count, state type, input and sensor-parameter configuration",
 "Tests only compare a final mean with a loose tolerance on one fixed random stream; a particle skipped, moved from the wrong parent or weighted with stale values is invisible.",
 ["filter/particlefilter.cpp","filter/bootstrapfilter.cpp","pdf/mcpdf.h","pdf/mcpdf.cpp","model/systemmodel.cpp","model/measurementmodel.cpp"],
 [("proposal step","filter/particlefilter.cpp"),("weight update","filter/particlefilter.cpp"),("weight normalisation","pdf/mcpdf.h")],
 ["PostGet()->ListOfSamplesGet","ExpectedValueGet","CovarianceGet"])

p("C05","Resampling happens exactly when due, conserves particles and is unbiased",
 "With a fixed period the particle filter resamples each time that many predictions have been made, right before the next one, and with a threshold exactly when the effective sample size after a measurement is below it. Resampling yields the same number of particles, all with equal weight, each a copy of a particle that had positive weight, and the expected number of copies of a particle is its weight times the particle count. No other operation resamples.",
 ["histories","inputs","configurations"],
 "every random stream, every weight vector, every period/threshold and particle count, every history of updates",
 "Tests never look at individual particles after a resampling, nor at when it occurs; bias or a wrong schedule is within their tolerance.",
 ["filter/particlefilter.cpp","pdf/mcpdf.h"],
 [("periodic and dynamic resampling","filter/particlefilter.cpp"),("ordered multinomial draw","pdf/mcpdf.h")],
 ["PostGet()->ListOfSamplesGet after each update"])

p("C06","Sampling never leaves the support, whatever the random source yields",
 "For every value the random source can legally produce, including its extremes, and for every supported sampling method, drawing one or many samples from a discrete, conditional discrete, sample-based, mixture or uniform density returns exactly the requested number of values, each in the support of the density (an existing state, an existing sample with positive weight, a point of a component, a point inside the bounds). It never reads or writes outside the density's own storage.",
 ["inputs","configurations","fault_sequences"],
 "every random word sequence including all-zero and all-one words, every weight vector including zero weights and single elements",
 "The tests draw from one well-behaved random stream, where the extreme values have probability below 1e-9.",
 ["pdf/discretepdf.cpp","pdf/discreteconditionalpdf.cpp","pdf/mcpdf.h","pdf/mixture.h","pdf/uniform.cpp","wrappers/rng/rng.cpp"],
 [("inverse-CDF search","pdf/discretepdf.cpp"),("ordered uniform sampling","pdf/mcpdf.h"),("component choice","pdf/mixture.h")],
 ["SampleFrom (one sample and list, DEFAULT and RIPLEY)"])

p("C07","Samples follow the density they are drawn from",
 "Samples drawn from any library density (Gaussian and conditional Gaussian in every dimension and method, rank-deficient covariances included, linear-Gaussian models with inputs, discrete, conditional discrete, sample-based, mixture, uniform), one by one or as a list, follow that density: frequencies, means and covariances agree with it. Sampling a density never changes it, and successive samples are independent.",
 ["inputs","configurations"],
 "every random stream (judged statistically at a fixed false-alarm level), every density parameter and sampling method",
 "Tests draw a handful of samples and check sizes or nothing at all; a transposed factor or a dropped component changes no asserted value.",
 ["pdf/gaussian.cpp","pdf/conditionalgaussian.cpp","pdf/conditionalgaussian_additivenoise.cpp","pdf/discretepdf.cpp","pdf/discreteconditionalpdf.cpp","pdf/mcpdf.h","pdf/mixture.h","pdf/uniform.cpp","wrappers/rng/rng.cpp"],
 [("Cholesky-based Gaussian draw","pdf/gaussian.cpp"),("inverse-CDF draws","pdf/discretepdf.cpp")],
 ["SampleFrom of every density, SystemModel::Simulate, MeasurementModel::Simulate"])

p("C08","Mixture particle filters update every component and its weight by evidence",
 "After any history of updates, each component of a mixture particle filter has evolved as a particle filter of its own (each particle moved from itself, reweighted by its likelihood, resampled when due), and the component weights are the previous weights times each component's average particle likelihood for the measurement, normalised, with the models and the proposal in force at each update. Component count and particle counts are preserved. The maintenance callback never runs when its period is not due, and runs in an update whose prediction makes it due.",
 ["histories","inputs","configurations"],
 "every random stream and history of updates, every number of components, particles and resampling configuration",
 "Tests compare an overall mean with a loose tolerance for one configuration; component weights and per-component particles are never examined.",
 ["filter/mixtureParticleFilter.cpp","filter/mixtureBootstrapFilter.cpp","pdf/mixture.h","pdf/mcpdf.h"],
 [("per-component proposal and weighting","filter/mixtureParticleFilter.cpp"),("component weight update","filter/mixtureParticleFilter.cpp")],
 ["MixtureParticleFilter::PostGet() weights and components"])

p("C09","Probability containers stay normalised and consistent over any edit history",
 "Through any sequence of edits (set one or all probabilities, add or delete components, replace samples, copy or clone) discrete densities, mixtures and sample-based densities keep non-negative weights that sum to one and match a plain model of the edits: setting one probability gives it exactly that value and rescales the others proportionally; the most probable element, expected value, density values and cumulative sums returned always agree with the current weights. Gaussian, conditional Gaussian, conditional discrete and uniform densities likewise always answer with their current parameters, whatever was set or asked before.",
 ["histories","configurations"],
 "every edit sequence, including extreme probabilities 0 and 1, single elements, and copies taken at any point",
 "Tests perform a few edits in one order; cached cumulative sums and rescaling errors only show after particular sequences.",
 ["pdf/discretepdf.cpp","pdf/mixture.h","pdf/mixture.cpp","pdf/mcpdf.h","pdf/mcpdf.cpp"],
 [("renormalisation on edit","pdf/discretepdf.cpp"),("cumulative sums kept in step","pdf/mixture.h")],
 ["ProbabilitiesGet, WeightsGet, ListOfSamplesGet, CumulativePDFGet, MostProbable...Get, ExpectedValueGet"])

p("C10","An impossible measurement is reported and does not destroy the belief",
 "When a measurement has zero likelihood under every particle or state, or an edit supplies weights that sum to zero, the operation reports failure and the belief stays the valid, normalised belief it was just before that measurement (a prediction delivered in the same call is kept). Later possible measurements are then processed as if the impossible one had never been delivered.",
 ["fault_sequences","histories"],
 "every placement of impossible measurements in every history, for particle, mixture-particle and histogram filters and their densities",
 "No test ever delivers a measurement with zero likelihood.",
 ["filter/particlefilter.cpp","filter/histogramfilter.cpp","filter/mixtureParticleFilter.cpp","pdf/mcpdf.h","pdf/discretepdf.cpp","pdf/mixture.h"],
 [("zero-sum detection","pdf/mcpdf.h"),("failure propagation","filter/histogramfilter.cpp")],
 ["return value of Update/…Set","belief after a rejected update and after the following updates"])

p("C11","Independent objects never influence each other, whatever the interleaving",
 "Filters, smoothers, densities and models that share no object (only the random source, each caller having its own stream) give, under every interleaving of their callers' threads and every re-entrant use from inside user-defined model callbacks, exactly the results each gives when run alone.",
 ["schedules","histories"],
 "every preemption point inside library code, every set of concurrently used independent objects, re-entrant calls from model callbacks",
 "All tests are single-threaded and use one filter at a time.",
 ["pdf/mcpdf.h","pdf/discretepdf.cpp","pdf/mixture.h","filter/particlefilter.cpp","filter/kalmanfilter.cpp","filter/mixtureParticleFilter.cpp","smoother/particlesmoother.cpp"],
 [("per-object work-space instead of shared state","pdf/mcpdf.h")],
 ["results of each task compared with its solo run"])

p("C12","A failed allocation is reported, contained and recoverable",
 "When memory runs out at any allocation inside any library call, the caller receives the out-of-memory exception; nothing crashes, no memory is leaked once the objects involved are destroyed, and objects not involved in the call are unaffected. The object operated on can still be destroyed or given a new belief, after which it works exactly as a fresh one. (With the Eigen backend this excludes failures inside Eigen's own matrix storage, which is not exception-safe.)",
 ["fault_sequences","crash_points","histories"],
 "every allocation site reached by constructors, clones, edits, sampling, updates and smoothing, at every point of a history",
 "No test injects an allocation failure.",
 ["pdf/mcpdf.h","pdf/mixture.h","pdf/discretepdf.cpp","pdf/discreteconditionalpdf.cpp","filter/kalmanfilter.cpp","filter/particlefilter.cpp","filter/histogramfilter.cpp","filter/mixtureParticleFilter.cpp"],
 [("ownership of work-space by containers","pdf/mcpdf.h")],
 ["exception type, live allocation count, behaviour after recovery"])

p("C13","Filters own their belief; the caller's objects are never changed or freed",
 "Constructing, updating, resetting, querying or destroying a filter, smoother or density never modifies or frees the prior, models, inputs, measurements or component densities the caller supplied, and later changes to them by the caller do not change a belief already taken. Resetting to a new prior makes the filter behave exactly like a new filter on that prior; clones and copies are fully independent; destroying everything in any order leaves no memory behind and touches no freed memory.",
 ["histories","schedules"],
 "every order of construction, update, reset, clone and destruction",
 "Tests leak freely, never compare the prior before and after, and never reset a filter.",
 ["filter/filter.cpp","filter/kalmanfilter.cpp","filter/histogramfilter.cpp","filter/particlefilter.cpp","filter/mixtureParticleFilter.cpp","smoother/backwardfilter.cpp","pdf/filterproposaldensity.cpp","pdf/mixture.h","pdf/discretepdf.cpp","pdf/discreteconditionalpdf.cpp"],
 [("posterior as a private copy","filter/kalmanfilter.cpp"),("reset","filter/filter.cpp")],
 ["caller-held objects before/after","live allocation count at the end"])

p("C14","Rauch-Tung-Striebel smoothing yields the exact smoothed marginals",
 "Running the smoother backwards over the stored filtered posteriors of any linear-Gaussian history, including one with missing, repeated or delayed measurements or with a system whose parameters change from step to step, yields at every step exactly the mean and covariance of that state given all delivered measurements. With a nonlinear model each backward step is the same recursion with model, Jacobian and noise evaluated at the filtered estimate of that step. The filtered posteriors handed in are not modified.",
 ["histories","fault_sequences","configurations"],
 "every history length, model size, input use and measurement loss pattern",
 "One test compares a final smoothed state of one model with stored numbers.",
 ["smoother/rauchtungstriebel.cpp","smoother/backwardfilter.cpp"],
 [("backward gain recursion","smoother/rauchtungstriebel.cpp")],
 ["RauchTungStriebel::PostGet after each backward step"])

p("C15","Particle smoothing reweights filtered particles by the backward recursion",
 "Each backward step of the particle smoother returns the filtered particles with weights w_i * sum_j( v_j * p(y_j|x_i) / sum_k w_k p(y_j|x_k) ), normalised, where y_j, v_j are the previously smoothed particles (one that no filtered particle can reach contributes nothing). This holds for every history, weight vector and particle count, equal or not, and leaves the filtered particles handed in unchanged.",
 ["histories","inputs","configurations"],
 "every history, particle count combination, weights including zeros",
 "One test checks a smoothed mean very loosely for uniform-looking weights.",
 ["smoother/particlesmoother.cpp"],
 [("backward weight recursion","smoother/particlesmoother.cpp")],
 ["ParticleSmoother::PostGet()->ListOfSamplesGet"])

p("C16","The EKF-proposal particle filter weights by target over proposal",
 "In every update of the particle filter with an extended-Kalman proposal each particle is moved by a draw from its own EKF posterior (conditioned on its own previous value, its own covariance, the input and the measurement), and its weight is multiplied by likelihood times transition density divided by that same proposal density at the drawn value, then normalised. A particle's covariance starts as the prior's, becomes that of its EKF posterior, and follows the particle through resampling, which happens when due and leaves equal weights. An update under which no particle has any likelihood is reported and leaves the weights as they were.",
 ["histories","inputs","configurations"],
 "every random stream and history of updates",
 "One test checks a final mean loosely.",
 ["filter/EKparticlefilter.cpp","pdf/EKF_proposaldensity.cpp","pdf/filterproposaldensity.cpp"],
 [("per-particle EKF proposal","filter/EKparticlefilter.cpp")],
 ["PostGet()->ListOfSamplesGet after each update"])

p("C17","A run is a pure function of its inputs and the random words it consumed",
 "Given the same priors, models, history of calls and the same sequence of random words, every filter, smoother and density produces bit-identical results, independently of earlier activity in the process, of memory contents and addresses, of other live objects, and of time or environment. Updates that need no randomness consume none.",
 ["histories","schedules","configurations"],
 "every history executed twice under different memory contents, prior activity and unrelated live objects",
 "Tests run each computation once in one memory state.",
 ["wrappers/rng/rng.cpp","pdf/mcpdf.h","pdf/gaussian.cpp","filter/particlefilter.cpp","filter/kalmanfilter.cpp","smoother/particlesmoother.cpp"],
 [("single random source","wrappers/rng/rng.cpp")],
 ["all observable results, compared bit for bit"])

p("C20","Models answer each call for its own arguments and their current density",
 "A system or measurement model asked for a probability, a prediction, a covariance, a Jacobian or a simulated value answers with its current conditional density evaluated at exactly the arguments of that call, using the density's parameters in force at that moment. Earlier calls, other models or filters sharing the same density, direct use of the density in between, copies of it, and models rebound to another density (with or without inputs) never change an answer; the model always reports the size and input use of the density it currently has, and an exception thrown by a user-defined density reaches the caller.",
 ["histories","configurations","inputs"],
 "every sequence of queries, parameter changes, rebindings and copies over any set of models sharing densities, every argument, every random word sequence",
 "Tests ask each model once or twice right after building it; a value kept from an earlier call, another sharer or an earlier density is never observable there.",
 ["model/systemmodel.cpp","model/measurementmodel.cpp","model/analyticsystemmodel_gaussianuncertainty.cpp","model/analyticmeasurementmodel_gaussianuncertainty.cpp","model/linearanalyticsystemmodel_gaussianuncertainty.cpp","model/linearanalyticmeasurementmodel_gaussianuncertainty.cpp","model/discretesystemmodel.cpp","pdf/conditionalpdf.h","pdf/conditionalgaussian.cpp","pdf/conditionalgaussian_additivenoise.cpp","pdf/linearanalyticconditionalgaussian.cpp","pdf/discreteconditionalpdf.cpp"],
 [("arguments handed to the density","model/systemmodel.cpp"),("arguments handed to the density","model/measurementmodel.cpp"),("density from stored arguments","pdf/conditionalgaussian.cpp")],
 ["ProbabilityGet","Simulate","PredictionGet","CovarianceGet","df_dxGet","SystemWithoutInputs","StateSizeGet","MeasurementSizeGet"],
 [("conditional arguments","last arguments set on the density","pdf/conditionalpdf.h")])

p("C21","Square-root filter: iterated EKF belief, with a matching square root",
 "The square-root iterated extended Kalman filter, fed with implicit measurement models, holds after any history of deliveries the same mean and covariance as the textbook iterated recursion: the prediction through the system model at the current mean; the virtual measurement, its Jacobian and its noise taken from the model at each successive estimate for the configured number of iterations, for any number of states and any size of measurement, correlated or not. The square root it reports, times its own transpose, is at every moment the covariance it reports: after construction, every update, a reset, and setting the estimate by hand.",
 ["histories","fault_sequences","configurations"],
 "every sequence of predictions, measurements, restarts and resets, every number of states, sensors, measurement sizes and iterations, every model parameter history",
 "No test runs this filter at all; with one state, scalar measurements or diagonal covariances a transposed or stale square root is invisible.",
 ["filter/SRiteratedextendedkalmanfilter.cpp","filter/kalmanfilter.cpp","wrappers/matrix/matrix_wrapper.cpp","model/linearanalyticmeasurementmodel_gaussianuncertainty_implicit.h"],
 [("square root carried along with the belief","filter/SRiteratedextendedkalmanfilter.cpp"),("square-root measurement update","filter/SRiteratedextendedkalmanfilter.cpp")],
 ["PostGet()->ExpectedValueGet/CovarianceGet","SRCovarianceGet"],
 [("square root of the covariance","own copy next to the posterior","filter/SRiteratedextendedkalmanfilter.h")])

p("C22","Symbolic models behave as the same functions written by hand",
 "A density or model built from GiNaC expressions (noise added to the function, or noise on some of the inputs) answers every query - expected value, covariance, Jacobian with respect to the state, density value, simulated values, dimension, stored arguments, symbols and function - as the same function written by hand would for the arguments of that call and the noise mean and covariance set last; with noise on the inputs, expected value, Jacobian and covariance all belong to one linearisation at the inputs shifted by the noise mean. Clones and copies are complete (arguments included) and independent; a model has its own copy of the density it was given, releases it, and outlives the caller's. A Kalman filter running on such models holds the textbook belief after any history of deliveries, restarts and retunings.",
 ["histories","fault_sequences","configurations","inputs"],
 "every function in a broad family of expressions, every choice of symbols, noise kind and noise parameters, every sequence of queries, edits, copies, destructions and deliveries",
 "The only test constructs one model and asserts nothing about it (and is built only on request).",
 ["pdf/nonlinearanalyticconditionalgaussian_ginac.cpp","pdf/nonlinearanalyticconditionalgaussian_ginac.h","model/nonlinearanalyticsystemmodel_gaussianuncertainty_ginac.cpp","model/nonlinearanalyticmeasurementmodel_gaussianuncertainty_ginac.cpp","pdf/analyticconditionalgaussian_additivenoise.cpp"],
 [("symbolic differentiation and substitution","pdf/nonlinearanalyticconditionalgaussian_ginac.cpp"),("ownership of the density","model/nonlinearanalyticsystemmodel_gaussianuncertainty_ginac.cpp"),("ownership of the density","model/nonlinearanalyticmeasurementmodel_gaussianuncertainty_ginac.cpp")],
 ["ExpectedValueGet","CovarianceGet","dfGet","ProbabilityGet","SampleFrom/Simulate","PredictionGet/df_dxGet","FunctionGet/StateGet/InputGet/ConditionalGet","PostGet() of a filter using the model"],
 [("conditional arguments and noise","last set on the density","pdf/analyticconditionalgaussian_additivenoise.cpp"),("density of a model","own copy","model/nonlinearanalyticsystemmodel_gaussianuncertainty_ginac.h")])

p("C18","Matrix and vector objects follow matrix algebra over any history on any backend",
 "Whatever sequence of operations a program performs on matrices, symmetric matrices and vectors of the wrapper - products, sums, scalar and compound operations, transposes, inverses, determinants, sub-matrices, row and column copies, concatenation, resizing with the contents kept, comparison, conversion to symmetric (lower triangle), Cholesky and singular value decomposition, pseudo-inverse, element writes, copies - every result equals its mathematical definition, with the target among the operands or not, on every backend; every object that is not the target keeps its exact value, also when an allocation fails in the middle of an operation, and the failure reaches the caller.",
 ["histories","fault_sequences","configurations","inputs"],
 "every sequence of operations and choice of operands (aliased or not), every size up to 6, every well-conditioned argument, every allocation that fails in a value-returning operation, both backends",
 "Tests use a few fixed 1- to 4-dimensional matrices on one backend.",
 ["wrappers/matrix/matrix_wrapper.cpp","wrappers/matrix/matrix_BOOST.cpp","wrappers/matrix/matrix_EIGEN.cpp","wrappers/matrix/vector_BOOST.cpp","wrappers/matrix/vector_EIGEN.cpp"],
 [("backend adapters","wrappers/matrix/matrix_BOOST.cpp"),("backend adapters","wrappers/matrix/matrix_EIGEN.cpp"),("decompositions","wrappers/matrix/matrix_wrapper.cpp")],
 ["return values","elements and sizes of every live object after every operation"],
 [("elements","last value assigned","wrappers/matrix/matrix_BOOST.h")])

p("C19","Closed-form densities equal their definition at any scale, after any history",
 "Gaussian, uniform and linear conditional Gaussian densities give the density value, mean, covariance, centre, width, Jacobian, matrices and arguments of their mathematical definition for the parameters and arguments set last: to relative accuracy in any dimension, with coordinates in units from a millionth to a million of each other, with strongly correlated covariances, at the mean, far out in the tails (where the value fades to zero, never to NaN or infinity) and exactly at or just beyond a bound. That holds after any sequence of setting parameters in any order, asking, cloning and assigning, and when an allocation fails inside a query or a setter: the failure reaches the caller, the caller's argument is untouched, and asking or setting again gives the right answer.",
 ["histories","fault_sequences","inputs"],
 "every parameter and argument over twelve orders of magnitude, dimensions 1 to 8, every order of setters, queries, clones and assignments, every allocation that fails within one of them",
 "Tests use a few fixed arguments of one well-scaled density and no failure.",
 ["pdf/gaussian.cpp","pdf/uniform.cpp","pdf/linearanalyticconditionalgaussian.cpp","pdf/conditionalgaussian.cpp","pdf/analyticconditionalgaussian_additivenoise.cpp"],
 [("closed form with cached inverse and normalisation","pdf/gaussian.cpp"),("bounds and height","pdf/uniform.cpp"),("linear function plus noise","pdf/linearanalyticconditionalgaussian.cpp")],
 ["ProbabilityGet","ExpectedValueGet/CovarianceGet","CenterGet/WidthGet","dfGet/MatrixGet/ConditionalArgumentGet/AdditiveNoise*Get"],
 [("inverse and normalisation","cached in the density","pdf/gaussian.h")])

open("properties.jsonl","w").write("".join(json.dumps(d)+"\n" for d in P))
