#!/usr/bin/env python3
"""Writes MANIFEST.json from plan.py and properties.jsonl."""
import json
from plan import PLAN
T={
"C01":"deterministic simulation of plant, sensors and faulty delivery around the real Kalman filters; reference posterior after every delivery",
"C21":"deterministic simulation of plant, implicit sensors and faulty delivery around the real square-root filter; reference recursion and square-root identity after every delivery",
"C22":"seeded histories of symbolic models (retuned, copied, re-created, destroyed) and of filters running on them through the faulty link; the same functions by hand as oracle, leak accounting",
"C18":"seeded histories of matrix and vector operations with aliased operands and failed allocations; long-double reference per operation, every bystander compared bit for bit",
"C19":"seeded histories of setters, queries, clones and failed allocations on densities at every scale; log-domain definition in long double as oracle",
"C02":"deterministic simulation of plant, sensors and faulty delivery around the real EKF/IEKF; reference recursion after every delivery",
"C03":"deterministic simulation with delivery faults and crash/restart; discrete Bayes reference after every delivery",
"C04":"deterministic simulation with recorded proposal draws and delivery faults; reference particle recursion",
"C05":"deterministic simulation; resampling schedule and descent checked per delivery, copy counts by Chernoff bound over seeds",
"C06":"deterministic simulation of the random source with injected extreme words; support oracle under address sanitizer",
"C07":"deterministic simulation of the random source; seeded statistical oracle with exact Chernoff bounds",
"C08":"deterministic simulation with delivery faults; per-component reference recursion",
"C09":"seeded edit histories with injected degenerate edits against a plain executable model",
"C10":"fault injection of impossible measurements; twin filter that never received them",
"C11":"seeded thread scheduler (preemption at basic blocks of library code) and re-entrant callbacks; solo run as oracle",
"C12":"allocation-failure injection at every reachable allocation; leak accounting and fresh-object oracle",
"C13":"seeded lifetime histories with caller-side faults; fingerprints, leak accounting, address sanitizer, undisturbed-history oracle",
"C14":"deterministic simulation of lossy histories with crash/resume; joint-Gaussian and one-step references",
"C15":"deterministic simulation with crash/resume and a second smoother; backward-recursion reference",
"C16":"deterministic simulation with delivery faults; per-particle EKF reference, statistical oracle for the draws",
"C20":"seeded histories of model queries, retuning, rebinding and sharing with injected faults; closed form per call and fresh-density oracle",
"C17":"double execution under simulated memory, heap, clock and environment variation; bitwise comparison",
}
N="Seeded exploration of schedules and faults over the real library code on both matrix backends, not exhaustive; every failure is replayable and minimised."
NA={}
props=[json.loads(l)["id"] for l in open("properties.jsonl")]
m=dict(version=1,setup_cmd="python3 check.py --setup",
 checks=[dict(property=p,quick_cmd=f"python3 check.py {p} quick",thorough_cmd=f"python3 check.py {p} thorough",evidence_file=f"evidence/{p}.json",technique=T[p],level="exploration",level_note=N) for p in props if p in PLAN],
 not_applicable=[dict(property=p,reason=NA[p]) for p in props if p not in PLAN])
json.dump(m,open("MANIFEST.json","w"),indent=1); open("MANIFEST.json","a").write("\n")
