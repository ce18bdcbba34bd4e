#!/usr/bin/env python3
"""Rewrites the "fixed" list of known_findings.json from the fix: commits of /repo (property of each given below)."""
import json
import os
import subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = {}
for pid, hs in {
    "C03": "c22977a 00434fb e001dcd ee9130f c3f9af7 97d5dd5 2b75e2a 52a8d6e",
    "C04": "8e2eb9e 3733ed3 7627f5e",
    "C01": "52e9975 452921d 940031f 967e8de 1e2c20c 055cff1 3a4c94d 139135c",
    "C02": "d595434 43cde36 6be9226 4062391",
    "C12": "7edb543 ef66ef3 12cf284 227b05b 84482ed 09e5326 afdc560 43fb4b9 0a431e0 6d305b4 5be24d5 1bc61ca 357b2c9 e61ea0f "
           "25ee3ac 2f6e3b9 d69191b",
    "C16": "2226159", "C15": "bfc3947 f30eebb", "C19": "7ab9b97 dc1cd24 61455bc", "C14": "bb6ec37",
    "C05": "a8261fe ed1e0a4 c5a0095 965eda9 35bd955 adac410 c2de97a 1ae0114 464bef3 7cb79e0 abc16c5 da0ebb2 2974969 534372b "
           "4072424",
    "C18": "be42659", "C07": "c334041 88e6903",
    "C10": "b3fb5b8 6f401eb e62ed5d c4f6f65 0d9b26a b99d8e8 5f07847",
    "C11": "64d9813 ee10e2c",
}.items():
    for h in hs.split():
        P[h] = pid
EXTRA = os.path.join(HERE, "tools", "fixed_extra.json")
if os.path.exists(EXTRA):
    P.update(json.load(open(EXTRA)))
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "d83cc3b.."], capture_output=True,
                     text=True).stdout.splitlines()
out = []
for l in log:
    h, s = l.split(" ", 1)
    if not s.startswith("fix:"):
        continue
    if h not in P:
        print("no property for", l)
        continue
    out.append("fixed: property=%s %s %s" % (P[h], h, s[4:].strip()))
f = os.path.join(HERE, "known_findings.json")
k = json.load(open(f))
k["fixed"] = out
json.dump(k, open(f, "w"), indent=1)
print(len(out), "fixed")
