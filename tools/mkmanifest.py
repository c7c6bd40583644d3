#!/usr/bin/env python3
# writes /verif/MANIFEST.json
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
base = ("Seeded search over simulated executions of the real library code, not exhaustive: no violation "
        "among the explored runs. Trusted: the simulator (self-tested in each check against deliberately "
        "faulty operations that it must detect) and, where answers are compared, the same call made alone "
        "in a pristine process of the same build. ")
sc = "Interleavings are sequentially consistent; switches happen at memory accesses and edges of the library's compiled code. "
T = {
 "C01": ("deterministic simulation: seeded thread schedules with preemption at every memory access, compared with each call alone in a pristine process", sc),
 "C02": ("deterministic simulation: seeded thread schedules with preemption at every memory access, compared with each query alone in a pristine process", sc),
 "C03": ("deterministic simulation: seeded schedules of threads copying, changing and querying objects, refinement against each object's own history replayed alone", sc),
 "C04": ("deterministic simulation: threads suspended for ever at seeded points inside calls and callbacks; progress of the others within a step bound", sc + "Progress bound: a few times the steps of the call alone. "),
 "C05": ("deterministic simulation: participants re-enter the library from their callbacks at seeded points; compared with un-nested calls", "Nesting explored to depth 3. "),
 "C06": ("deterministic simulation with fault injection: participants fail at seeded callbacks; state, propagation and all later answers checked", "Failures injected only where the library calls back. "),
 "C07": ("deterministic simulation with fault injection: seeded allocation failures inside calls; answers, objects and later answers checked", "Allocations made through the global allocator of the process. "),
 "C08": ("deterministic simulation with fault injection: long repetition of completed and abandoned calls on a simulated heap; live bytes must not keep growing", "Growth is looked for over up to tens of thousands of repetitions. "),
 "C09": ("deterministic simulation with fault injection: nodes merging boxes over a lossy, duplicating, reordering network with crashes and retries; exact min/max reference model", "The network and the nodes are the simulator's; the boxes and every merge are the library's. "),
 "C10": ("deterministic simulation with fault injection: disturbed clock, entropy, environment, stdio, files and heap placement behind interposed system interfaces; compared with the undisturbed answer", "Interposition is at the libc functions std uses. "),
 "C11": ("deterministic simulation with fault injection: participants change at seeded callbacks; answer must be one of those for single instants", "Participants change only between callbacks. "),
 "C12": ("deterministic simulation with fault injection: support points jitter, jump, go stale or go missing during GJK queries; bounded termination after the last disturbance", "Spheres of ordinary size, disturbances from 1e-10 to 1e3. "),
 "C13": ("deterministic simulation with fault injection: seeded long histories with failures, compared with each call as the first of a pristine process", "Histories up to 70,000 calls. "),
}
NA = "Pure function of its arguments: no thread, clock, I/O, allocation, callback or history takes part in it, so there is no schedule or fault for a simulator to choose; deciding it means choosing inputs and comparing with mathematics, which is another technique (property-based testing or proof)."
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in T:
        t, n = T[i]
        checks.append({"property": i, "quick_cmd": "bash sim/check.sh " + i, "thorough_cmd": "VERIF_TIER=thorough bash sim/check.sh " + i,
                       "evidence_file": "evidence/%s.json" % i, "technique": t, "level": "exploration", "level_note": base + n.strip()})
    else:
        na.append({"property": i, "reason": NA})
m = {"version": 1, "setup_cmd": "bash sim/check_build.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: threads, memory accesses, heap and environment are controlled from outside by compiler instrumentation and interposition (see DESIGN.md)."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
