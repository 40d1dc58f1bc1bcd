#!/usr/bin/env python3
"""Development tool (no check uses it): turns planted-bug definitions into /verif/seeded/<id>/.

plant.py BUGS.py [id…]   BUGS.py defines BUGS = {id: dict(prop, edits=[(file, old, new)…], needs, breaks, demo)}
Each bug is built in a scratch copy of /repo; it is kept only if the stable tests still pass there
and the demonstration passes without and fails with the change.
"""
import json
import os
import re
import runpy
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONPYCACHEPREFIX="/nonexistent", LANG="C.UTF-8", PYTHONHASHSEED="0")
DEMO_SH = """#!/bin/bash
# exit 0: the property holds; nonzero: it is broken
export PYTHONPATH="$PWD/src" PYTHONDONTWRITEBYTECODE=1 LANG=C.UTF-8
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
"""
HEAD = """import io, os, shutil, subprocess, sys, tempfile
scratch = tempfile.mkdtemp()
os.environ["HOME"] = scratch
"""


def tests(wt):
    p = subprocess.run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--no-cov", "--timeout=300", "-rA"], cwd=wt,
                       env=dict(ENV, PYTHONPATH=wt + "/src"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return set(re.findall(r"^PASSED (\S+)", p.stdout, re.M)), p.stdout


def demo(d, wt):
    p = subprocess.run(["bash", os.path.join(d, "demo.sh")], cwd=wt, env=ENV, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, timeout=300)
    return p.returncode, p.stdout[-1500:]


def main():
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    want = sys.argv[2:] or list(bugs)
    base = "/tmp/seed/base"
    shutil.rmtree(base, ignore_errors=True)
    shutil.copytree("/repo", base, symlinks=True)
    good, _ = tests(base)
    for bid in want:
        b = bugs[bid]
        wt = "/tmp/seed/wt-" + bid
        shutil.rmtree(wt, ignore_errors=True)
        shutil.copytree("/repo", wt, symlinks=True)
        for f, old, new in b["edits"]:
            p = os.path.join(wt, f)
            s = open(p).read()
            assert s.count(old) == 1, (bid, f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "diff"], cwd=wt, stdout=subprocess.PIPE, text=True).stdout
        d = os.path.join(VERIF, "seeded", bid)
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, "demo.sh"), "w").write(DEMO_SH)
        open(os.path.join(d, "demo.py"), "w").write(
            HEAD + "try:\n" + "".join("    " + x + "\n" if x else "\n" for x in b["demo"].strip("\n").split("\n"))
            + "finally:\n    shutil.rmtree(scratch, ignore_errors=True)\n")
        ok = demo(d, base)
        broken = demo(d, wt)
        passed, out = tests(wt)
        lost = good - passed
        print(bid, "demo %d/%d" % (ok[0], broken[0]), "lost tests", sorted(lost))
        if ok[0] != 0 or broken[0] == 0 or lost:
            print("   REJECTED", ok[1] if ok[0] else "", broken[1][-300:])
            shutil.rmtree(d)
            continue
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
                  open(os.path.join(d, "meta.json"), "w"), indent=1)
        shutil.rmtree(wt)
    shutil.rmtree(base)


main()
