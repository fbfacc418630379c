#!/usr/bin/env python3
"""writes MANIFEST.json"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "deterministic simulation with fault injection: seeded search over histories, read splits, I/O and allocation faults, damage and thread schedules, checked against a reference model"
NOTE = {
 "C01": "Samples documents, read splits, read/open errors and truncation/damage; the expected outcome comes from the plan (is the delivered byte stream complete, well-formed, error free). Trusts the simulated disk and libxml2.",
 "C02": "Every delivered node is compared field by field with what the plan's document says (independent renderer and reference model); snapshots are compared again after every later operation. Samples sizes, encodings, splits, histories.",
 "C03": "Two to four programs on parked real threads switched by the seeded scheduler at basic-block granularity, or nested in callbacks; each task's transcript must equal its solo run. Cannot see races below basic-block granularity.",
 "C04": "Sort result, exactly-once delivery and order are compared with a reference graph built from the plan, over arrival orders, splits into files, failures and repetitions.",
 "C05": "Simulated server; every failing load (missing, unreadable, truncated, damaged, unresolved, cyclic, refused or out-of-memory-free) is compared with a full snapshot of nodes, references, values and custom types taken before it; earlier and later loads are checked too.",
 "C06": "The simulated server refuses nodes as the plan says; the recorded offers must form complete rounds, never repeat an accepted node, stay bounded, and every node whose refusal is temporary must end up present once with attributes, value and references.",
 "C07": "Every block, file handle and parser context is tracked by the simulator and must be released exactly once at the end of any history.",
 "C08": "Allocation faults are placed after a probe run that counts each operation's allocations, single and in runs; result, later operations and leaks are checked.",
 "C09": "Bit flips, lost, duplicated, torn blocks and hostile structure under sanitizers, with a step budget proportional to the input.",
 "C10": "Histories of failed and repeated imports; the delivered nodes must be explained by some set of completely read nodes of the failed attempts.",
 "C11": "Namespace callback sequence and every index in ids and names compared with the model, over orders of files and host answers.",
 "C12": "Custom types are compared with a reference model after the load that adds them, and with their recorded descriptor after every later load; values are copied and released after the loader is gone.",
 "C13": "The recorded handler calls must be the expected sequence, or a prefix of it after a failure, under truncation, read errors and splits.",
 "C14": "Server contents after a load are compared with the reference model's contents, over arrival orders, splits and temporary refusals.",
}
NA = {
 "C15": "pure function of its input: the conversion of one literal depends on no schedule, clock, fault or history, so there is nothing for a simulator to decide.",
 "C16": "pure function of its input: the layout computed for a structure depends on no schedule, clock, fault or history.",
}
PENDING = {}
for p in os.environ.get("PENDING", "").split():
    NA[p] = "not claimed yet: the server part of the simulator is under construction."
checks = []
for p in sorted(NOTE):
    if p in NA: continue
    checks.append({"property": p, "quick_cmd": "python3 check.py %s --tier quick" % p, "thorough_cmd": "python3 check.py %s --tier thorough" % p,
                   "evidence_file": "evidence/%s.json" % p, "technique": TECH, "level": "exploration", "level_note": NOTE[p]})
json.dump({"version": 1, "setup_cmd": "python3 build.py", "checks": checks,
           "not_applicable": [{"property": p, "reason": NA[p]} for p in sorted(NA)],
           "notes": "No hooks in /repo: the seams are symbol redefinition (objcopy) for allocation, files and stdout, -fsanitize-coverage=trace-pc for the step clock and preemption points, fopencookie for the disk, xmlMemSetup for libxml2, and the library's own host interfaces."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
