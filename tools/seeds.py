#!/usr/bin/env python3
"""Builds /verif/seeded/<id>/ from tools/seeds_src.py; verifies each one in a scratch copy of /repo.
usage: seeds.py [ID ...]  (default: the ones not built yet)   --check: run the property's check on the changed copy too"""
import json
import os
import shutil
import subprocess
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
import seeds_src
W = "/tmp/seedwt"
DEMO = """#!/bin/bash
. /opt/vp/env.sh
export PYTHONPATH="$PWD"
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
"""
HEAD = """import sys, warnings
warnings.simplefilter('ignore')
import numpy as np
import matplotlib
matplotlib.use('Agg')
import IMTreatment
from IMTreatment import *
from IMTreatment.utils import make_unit
"""


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def main():
    ids = [a for a in sys.argv[1:] if not a.startswith("--")]
    chk = "--check" in sys.argv
    for s in seeds_src.SEEDS:
        d = os.path.join(HERE, "seeded", s["id"])
        if ids and s["id"] not in ids:
            continue
        if not ids and os.path.exists(d + "/meta.json") and not chk:
            continue
        shutil.rmtree(W, ignore_errors=True)
        sh("git clone -q /repo %s" % W)
        for f, a, b in s["edits"]:
            p = os.path.join(W, "IMTreatment", f)
            t = open(p, encoding="utf-8").read()
            if t.count(a) != 1:
                print(s["id"], "BAD EDIT", f, t.count(a), repr(a[:60]))
                break
            open(p, "w", encoding="utf-8").write(t.replace(a, b))
        else:
            os.makedirs(d, exist_ok=True)
            open(d + "/patch.diff", "w").write(subprocess.run("git -C %s diff" % W, shell=True, stdout=subprocess.PIPE,
                                                              text=True).stdout)
            open(d + "/demo.sh", "w").write(DEMO)
            os.chmod(d + "/demo.sh", 0o755)
            open(d + "/demo.py", "w").write(HEAD + s["demo"].lstrip("\n"))
            json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
                      open(d + "/meta.json", "w"), indent=1)
            r0 = sh("bash %s/demo.sh" % d, cwd="/repo")
            r1 = sh("bash %s/demo.sh" % d, cwd=W)
            sh("sed 's#/repo#%s#g' /opt/vp/test.sh | sed 's#^. /opt/vp/env.sh#. /opt/vp/env.sh; export PYTHONPATH=%s#'"
               " > /tmp/seedtest.sh" % (W, W))
            t = sh("bash /tmp/seedtest.sh /tmp/seedout.json")
            ok = set(json.load(open("/tmp/seedout.json"))["passed"])
            miss = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) - ok
            msg = "demo clean=%d patched=%d missing tests=%d" % (r0.returncode, r1.returncode, len(miss))
            good = r0.returncode == 0 and r1.returncode != 0 and not miss
            print(s["id"], s["prop"], "OK" if good else "BAD", msg)
            if not good:
                print("   clean:", r0.stdout[-500:], "\n   patched:", r1.stdout[-300:], list(miss)[:3])
            else:
                print("     ", r1.stdout.strip().splitlines()[-1:])
            if chk:
                c = sh("python3 check.py %s --root %s" % (s["prop"], W), cwd=HERE)
                print("   check:", c.returncode, c.stdout.strip().splitlines()[-3:])
    shutil.rmtree(W, ignore_errors=True)


main()
