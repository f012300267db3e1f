#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
I = "bounded-exhaustive execution of the real code against a reference model"
S = "stateless model checking of the real threads under a controlled scheduler (dynamic partial-order reduction)"
F = "exhaustive fault injection at every system call of the real code"
X, MC, FE = "exploration", "model_checking", "fault_enumeration"
SEQ = "All members of the bounded space named in the evidence are executed on the real code and judged by an independent reference; nothing is sampled. Values outside the alphabets and longer inputs are not covered."
SCH = "All schedules (up to equivalence of independent steps) of each bounded scenario are executed on the real code. Sequentially consistent memory and interchangeable pool workers are assumed; larger scenarios are not covered. Scenarios whose schedules are too many are run under all schedules with a bounded number of preemptions or deviations, as the evidence counts them."
FLT = "Every call to the operating system in the bounded runs is made to fail, or every place of damage is tried, one at a time and lastingly, on the real code; combinations of several independent faults are not covered."
rows = [
 ("C01", X, I, SEQ), ("C02", X, I, SEQ), ("C03", X, I, SEQ), ("C04", X, I, SEQ), ("C05", X, I, SEQ),
 ("C06", MC, S, SCH), ("C07", MC, S, SCH), ("C08", MC, S, SCH), ("C09", MC, S, SCH),
 ("C10", FE, F + ", together with schedules of the parallel writer's threads", FLT),
 ("C11", MC, S, SCH), ("C12", FE, "exhaustive enumeration of cuts and damaged bytes, read by the real code", FLT),
 ("C13", X, I, SEQ), ("C14", X, I, SEQ), ("C15", X, I, SEQ), ("C16", X, I, SEQ), ("C17", X, I, SEQ),
 ("C18", MC, S, SCH), ("C19", MC, S, SCH), ("C20", FE, F, FLT), ("C21", X, I, SEQ), ("C22", X, I, SEQ),
 ("C23", FE, F + " and of cuts and damaged bytes", FLT),
 ("C24", X, I, SEQ), ("C25", X, I, SEQ), ("C26", X, I, SEQ), ("C27", X, I, SEQ),
 ("C28", X, "bounded-exhaustive execution of the real code, its threads under a controlled scheduler, with a counting allocator as monitor", "All shapes of data, ways of processing, and orders and relative speeds of the threads in the bounded space named in the evidence are executed on the real code, for a short and a long input each; small parallel readings under all schedules. Lengths beyond the longer input, and a thread that never gets its turn, are not covered."),
 ("C29", FE, "bounded-exhaustive execution of call sequences on the real code with a fault at every write, and of the parallel writer's threads under a controlled scheduler", "All sequences of calls up to the stated length are executed on the real code, undisturbed and with every single failing, torn or refused write; the parallel writer's under all schedules. Longer sequences and several independent faults are not covered."),
 ("C30", X, I, SEQ),
 ("C31", X, "bounded-exhaustive execution of the real code against a reference model, its threads under a controlled scheduler that notices hangs", SEQ),
 ("C32", FE, "bounded-exhaustive execution of the real code with a fault at every system call, its threads under a controlled scheduler that counts those left", FLT),
 ("C33", X, I, SEQ),
 ("C34", MC, "exploration of the real threads' interleavings under a controlled scheduler: every single point of preemption, all schedules of small scenarios, a hang being noticed", "For each pair of operations every point at which one gives way to the other (up to the stated number of steps) is executed on the real code, and small scenarios under all schedules. More preemptions of larger operations, and memory orders weaker than sequential consistency, are not covered."),
 ("C35", X, I, SEQ), ("C36", X, I, SEQ),
]
out = {"version": 1, "setup_cmd": "./build.sh",
  "hooks": {"guard": "osm_io_mc", "enable": "RUSTFLAGS=\"--cfg osm_io_mc\" (build.sh); the crate then resolves std to the controlled standard library in mc/command-executor and mc/vstd", "source_commits": ["3f99833"]},
  "checks": [{"property": i, "quick_cmd": "./check.sh " + i, "thorough_cmd": "VERIF_TIER=thorough ./check.sh " + i, "technique": t, "level": l, "level_note": n} for i, l, t, n in rows],
  "not_applicable": [],
  "notes": "See DESIGN.md. Findings, all repaired, are in known-findings.txt."}
ids = [json.loads(l)["id"] for l in open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "../properties.jsonl"))]
assert sorted(ids) == sorted(r[0] for r in rows)
json.dump(out, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "../MANIFEST.json"), "w"), indent=1)
