#!/usr/bin/env python3
"""Development tool (no check uses it): runs checks against planted bugs in scratch copies.

trybugs.py [-p PROP] [-j N] [id…]   runs each bug's own property's quick command (or PROP's) on a copy of /repo
with the patch applied and says which ones are caught.
"""
import argparse
import concurrent.futures as cf
import json
import os
import re
import shutil
import subprocess
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def run(bid, prop, tier):
    d = os.path.join(os.environ.get("SEEDS", VERIF + "/seeded"), bid)
    p = prop or json.load(open(os.path.join(d, "meta.json")))["property"]
    wt = "/tmp/seed/try-%s-%s" % (bid, p)
    shutil.rmtree(wt, ignore_errors=True)
    shutil.copytree("/repo", wt, symlinks=True)
    vt = wt + "-verif"
    shutil.rmtree(vt, ignore_errors=True)
    shutil.copytree(VERIF, vt, symlinks=True, ignore=shutil.ignore_patterns(".git", "seeded", "evidence", "replay"))
    os.makedirs(vt + "/evidence")
    a = subprocess.run(["git", "apply", os.path.join(d, "patch.diff")], cwd=wt)
    t = time.time()
    if a.returncode:
        return bid, p, "PATCH DOES NOT APPLY", 0
    r = subprocess.run(["python3", "harness/check.py", p], cwd=vt,
                       env=dict(os.environ, VERIF_REPO=wt, VERIF_TIER=tier, VERIF_SEED=os.environ.get("VERIF_SEED", "1")),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    v = re.findall(r"^VIOLATION.*", r.stdout, re.M)
    shutil.rmtree(wt)
    shutil.rmtree(vt)
    res = "caught" if r.returncode == 1 and v else "MISSED" if r.returncode == 0 else "rc=%d %s" % (r.returncode, r.stdout[-800:])
    return bid, p, res + ("  " + "; ".join(re.findall(r"clause[=: ]*\S+", r.stdout)[:3]) if v else ""), time.time() - t


ap = argparse.ArgumentParser()
ap.add_argument("-p")
ap.add_argument("-t", default="quick")
ap.add_argument("-j", type=int, default=3)
ap.add_argument("ids", nargs="*")
o = ap.parse_args()
ids = o.ids or sorted(os.listdir(os.path.join(os.environ.get("SEEDS", VERIF + "/seeded"))))
with cf.ThreadPoolExecutor(o.j) as ex:
    for bid, p, res, t in ex.map(lambda i: run(i, o.p, o.t), ids):
        print("%-32s %s %5.0fs %s" % (bid, p, t, res), flush=True)
