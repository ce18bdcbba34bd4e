#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the tables below."""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from imtlint import driver
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
NA = {
    "C09": "rejection depends on the run-time shape, length and order of the arrays; the abstraction carries no symbolic shapes, so a missing or "
           "weakened comparison cannot be told from an intended conversion without false alarms. What is left of a partly applied bad input "
           "is decided by C10, unknown option values by C13",
    "C17": "writer and reader meet through file formats of external libraries (mat, video, image, IM7); agreement is a fact about bytes "
           "written at run time. Path, overwrite and prompt behaviour of the same functions is decided by C14, unsafe reading by C16",
    "C18": "one stamp per field and sortedness are facts about run-time list lengths and time values; lists are summarised by one element "
           "in the abstraction, so neither can be decided. Units of the stamps are covered by C05, partial additions by C10",
    "N01": "equality of interpolated and stored values is a fact about run-time floats computed inside scipy; no sound static argument in reach bounds it",
    "N02": "orthonormality and reconstruction error are linear-algebra facts about run-time matrices computed by external solvers",
    "N03": "completeness of the detection depends on run-time field values, tolerances and root finding",
    "N04": "frame invariance is a numerical identity between two executions on different data; not decidable from the source by dataflow",
    "N05": "relates two executions with different process counts through pickling and a pool; the numeric results are run-time quantities",
}
checks, na = [], []
for p in props:
    pid = p["id"]
    if pid in driver.CHECKS:
        c = driver.CHECKS[pid]
        checks.append({"property": pid, "quick_cmd": "python3 check.py %s" % pid,
                       "thorough_cmd": "python3 check.py %s --tier thorough" % pid,
                       "evidence_file": "evidence/%s.json" % pid,
                       "technique": c["technique"], "level": "other", "level_note": c["note"]})
    else:
        na.append({"property": pid, "reason": NA.get(pid) or "no static check built yet"})
man = {"version": 1, "setup_cmd": "python3 -m compileall -q imtlint >/dev/null || true", "checks": checks,
       "not_applicable": na,
       "notes": "All checks parse /repo's current sources with the Python ast module; nothing of /repo is imported or run."}
json.dump(man, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
