#!/usr/bin/env python3
"""Decide one property of /repo by static analysis.   usage: check.py ID [--tier quick|thorough] [--root DIR]"""
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True


def main(argv):
    pid = argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    root = "/repo"
    i = 2
    while i < len(argv):
        if argv[i] == "--tier":
            tier = argv[i + 1]
        elif argv[i] == "--root":
            root = argv[i + 1]
        i += 2
    if tier not in ("quick", "thorough"):
        tier = "quick"
    from imtlint import driver
    t0 = time.time()
    res = driver.decide(pid, root, tier)
    known = json.load(open(os.path.join(HERE, "known_findings.json")))
    kset = {k["key"]: k for k in known["findings"] if k["property"] == pid}
    new, old = [], []
    seen = set()
    for f in res["findings"]:
        if f["key"] in seen:
            continue
        seen.add(f["key"])
        (old if f["key"] in kset else new).append(f)
    for f in old:
        print("KNOWN-FINDING: property=%s %s" % (pid, kset[f["key"]]["what"]))
    cov = dict(res["coverage"])
    cov["findings_suppressed_as_known"] = len(old)
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other",
          "coverage": cov, "assumptions": res.get("assumptions", []), "wall_s": round(time.time() - t0, 2),
          "violations": len(new)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1, sort_keys=True, default=str)
    if new:
        os.makedirs(os.path.join(HERE, "reports"), exist_ok=True)
        rp = os.path.join(HERE, "reports", pid + ".json")
        with open(rp, "w") as fh:
            json.dump(new, fh, indent=1, sort_keys=True, default=str)
        for f in new[:40]:
            print("%s:%s: [%s/%s] %s" % (f["file"], f["line"], pid, f["rule"], f["msg"]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    print("OK property=%s %s" % (pid, json.dumps({k: v for k, v in cov.items() if isinstance(v, int)})))
    return 0


if __name__ == "__main__":
    sys.exit(main(sys.argv))
