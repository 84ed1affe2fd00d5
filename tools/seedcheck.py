#!/usr/bin/env python3
"""Run each planted bug's check against a scratch copy with the bug applied. seedcheck.py [ids...]"""
import json, os, re, shutil, subprocess, sys, time
S = "/verif/seeded"
ids = sys.argv[1:] or sorted(os.listdir(S))
for i in ids:
    p = json.load(open("%s/%s/meta.json" % (S, i)))["property"]
    d = "/tmp/sc." + i
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    subprocess.run("git -C /repo archive HEAD | tar x -C %s && cd %s && git init -q && git apply %s/%s/patch.diff" % (d, d, S, i), shell=True, check=True)
    t = time.time()
    r = subprocess.run(["python3", "/verif/bin/check.py", p], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=dict(os.environ, KLS_REPO=d))
    v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
    print("%-22s %s %s rc=%d %.0fs %s" % (i, p, "CAUGHT" if r.returncode == 1 and v else "MISSED", r.returncode, time.time() - t, "" if v else r.stdout[-300:]), flush=True)
    shutil.rmtree(d)
