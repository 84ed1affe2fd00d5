#!/usr/bin/env python3
"""Bulk mutation without demos: mut.py FILE.py [ids]  FILE defines M = [(id, prop(s), file, old, new[, nth])].
Each mutant: applied in the scratch copy /tmp/scr2, stable tests run; survivors of the tests get the property's check."""
import json, os, shutil, subprocess, sys, time
import importlib.util
SCR = os.environ.get("MUT_SCR", "/tmp/scr2")
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
g = {}
exec(open(sys.argv[1]).read(), g)
ids = sys.argv[2:]
if not os.path.isdir(SCR):
    os.makedirs(SCR); sh("git -C /repo archive HEAD | tar x -C %s; cd %s && git init -q && git add -A && git commit -qm x" % (SCR, SCR))
for f in ("build.sh", "test.sh"):
    t = open("/opt/vp/" + f).read().replace("/repo", SCR).replace("bash /opt/vp/build.sh", "bash %s.build.sh" % SCR).replace("ninja -C", "ninja -j8 -C")
    open(SCR + "." + f, "w").write(t)
base = json.load(open("/opt/vp/BASELINE.json"))
stable = base.get("stable") or base.get("passed") or base
if isinstance(stable, dict): stable = stable.get("passed")
for m in g["M"]:
    mid, props, f, old, new = m[:5]
    if ids and mid not in ids: continue
    sh("cd %s && git checkout -q -- ." % SCR)
    p = SCR + "/" + f; t = open(p).read()
    n = t.count(old)
    if n == 0 or (n > 1 and len(m) < 6): print("%-24s old text occurs %d" % (mid, n), flush=True); continue
    if len(m) > 5:
        parts = t.split(old); k = m[5]
        t = old.join(parts[:k + 1]) + new + old.join(parts[k + 1:])
    else: t = t.replace(old, new)
    open(p, "w").write(t)
    caught = False; txt = ""
    for pr in props.split():
        t0 = time.time()
        r = sh("python3 /verif/bin/check.py %s" % pr, env=dict(os.environ, KLS_REPO=SCR, KLS_FAST="1"))
        v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
        if v: caught = True; print("%-24s %s CAUGHT rc=%d %.0fs" % (mid, pr, r.returncode, time.time() - t0), flush=True); break
        txt += " %s rc=%d %s" % (pr, r.returncode, r.stdout[-120 if r.returncode == 0 else -600:].replace("\n", " | "))
    if caught: continue
    O = SCR + ".out.json"
    os.path.exists(O) and os.remove(O)
    r = sh("bash %s.test.sh %s" % (SCR, O))
    try: res = json.load(open(O))
    except Exception: print("%-24s %s build fails %s" % (mid, props, r.stdout[-300:].replace("\n", " | ")), flush=True); continue
    miss = [x for x in stable if x not in set(res["passed"])]
    print("%-24s %s %s | %s" % (mid, props, ("missed but killed by tests (%d) %s" % (len(miss), miss[0][:80])) if miss else "*** MISSED", txt), flush=True)
sh("cd %s && git checkout -q -- ." % SCR)
