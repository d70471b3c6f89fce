#!/usr/bin/env python3
"""Writes MANIFEST.json (run by hand when checks change)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEQ = "explicit-state model checking of the real library: breadth-first search over operation histories with snapshots, states identified by canonical memory, every answer compared with a model"
SWP = "; plus exhaustive bounded families of long histories (every size/order/pattern in a range)"
SCH = "stateless model checking of the real library: all schedules of bounded thread programs under a controlled scheduler with virtual time"
T = {
    "C01": SEQ + SWP, "C02": SWP[7:] + ", growth and probe counts observed on the real table", "C03": SEQ + SWP, "C04": SEQ + SWP, "C05": SEQ + SWP, "C06": SEQ + SWP,
    "C07": SEQ + SWP, "C08": SEQ + SWP, "C09": SEQ + SWP, "C10": SEQ + SWP, "C11": SEQ + SWP, "C12": SEQ + SWP + ", with a recording node pool",
    "C13": SEQ + SWP + ", with tagged objects whose releases are recorded", "C14": SEQ + SWP + ", under an address-checking allocator with poisoned fresh and freed memory",
    "C15": SEQ + SWP, "C16": SEQ + SWP, "C17": SEQ + SWP + ", every read() outcome enumerated", "C18": SCH + "; linearizability against a FIFO and vector-clock race detection",
    "C19": SCH + "; spurious wake-ups and lost-wake-up detection", "C20": SCH + "; every clock phase, spurious wake-ups and passage of time enumerated",
    "C21": "fault enumeration during explicit-state search: in every reachable state every allocation of every operation is made to fail",
    "C22": SEQ + " of two instances interleaved inside callbacks; " + SCH + " of two containers on two threads",
    "C23": "exhaustive enumeration of all inputs in a bounded space on the real functions", "C24": SEQ + SWP + "; async queue under the controlled scheduler",
    "C25": SCH + "; all pairs and triples of const operations on one shared container, vector-clock race detection",
    "C26": "explicit enumeration of all lassos (filling, then a repeated operation cycle up to a length) on the real library with byte accounting of its allocations",
    "C27": "exhaustive enumeration of operation words after fillings of a family of sizes on the real library, every memory access of the library counted",
    "C29": "fault enumeration during stateless model checking: in every schedule of bounded thread programs under a controlled scheduler every call of a synchronisation primitive is made to fail",
    "C28": SEQ + SWP + ", on a library compiled with assertions; " + SCH,
}
N = "Exhaustive within the bounds given in DESIGN.md and reported in the evidence; nothing is sampled. The library's own objects, built from /repo at check time, are what is executed. Trusts gcc's code generation, the engine and its 128-bit state hash."
NS = "Exhaustive over schedules of all programs up to the stated size (preemption bounds where the evidence says so); sequential consistency is assumed for race-free code and races are themselves reported. Trusts the scheduler's model of pthread primitives and clocks."
checks = []
for i in range(1, 30):
    p = "C%02d" % i
    checks.append({"property": p, "quick_cmd": "python3 check.py %s quick" % p, "thorough_cmd": "python3 check.py %s thorough" % p, "technique": T[p],
                   "level": {"C21": "fault_enumeration", "C29": "fault_enumeration", "C23": "exploration"}.get(p, "model_checking"),
                   "level_note": NS if p in ("C18", "C19", "C20", "C25", "C29") else N + (" The two-thread part assumes sequential consistency and reports races." if p in ("C22", "C24") else "")})
json.dump({"version": 1, "setup_cmd": "python3 check.py setup", "checks": checks, "not_applicable": [],
           "notes": "No hooks in /repo: the checks intercept libc calls at link time. known_findings.txt lists repaired defects. Engines are built into a temporary directory on every run."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
