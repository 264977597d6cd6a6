#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the table below."""
import json, os
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
T = {
 "C01": "online monitor: edit histories replayed against a set model", "C02": "online monitor: edit histories replayed against an arc-set model",
 "C15": "fault-injecting readers + reference parser as monitor", "C16": "fault injection at every byte (sinks, file-size limit) + read-back monitor",
 "C39": "online monitor of interleaved edits and queries, concurrent readers judged answer by answer, ThreadSanitizer",
 "C38": "ASan, std UB checks and Miri on hostile safe-code workloads"}
NOTE = "Runs the real code on exhaustive small and randomised hostile inputs; an independent oracle judges each execution. Says nothing about inputs not executed."
N = {"C16": "Every byte position of the file of each generated value is tried as the point of failure; the values themselves are sampled.",
     "C38": "Detects undefined behaviour on executions that occur; Miri on small inputs with its aliasing model off (bitvec violates it), ASan and std UB checks on larger ones.",
     "C39": "Thread schedules are those the machine produced (2-6 threads, barriers, random yields); ThreadSanitizer sees races on them only.",
     "C14": "Files are really written and read back in a scratch directory; values sampled, sizes cross buffer and block boundaries."}
ps = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": [], "not_applicable": []}
for p in ps:
    i = p["id"]
    m["checks"].append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
        "technique": T.get(i, "runtime monitor: real executions judged by an independent reference oracle"),
        "level": "fault_enumeration" if i == "C16" else "exploration", "level_note": N.get(i, NOTE)})
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
