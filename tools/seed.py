#!/usr/bin/env python3
"""Plant a bug: seed.py DIR  (DIR has edit.py-style 'edits', demo.cpp, meta.json).
Reads /tmp/seeds/<id>/spec.py: prop, needs, breaks, edits=[(file, old, new)], srcs=[...], demo (C++ text), flags.
Confirms in a scratch copy (/tmp/scr) that it builds, passes the stable tests, and that the demo separates; then saves /verif/seeded/<id>."""
import json, os, shutil, subprocess, sys
SCR = "/tmp/scr"
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def prepare():
    if not os.path.isdir(SCR):
        os.makedirs(SCR); sh("git -C /repo archive HEAD | tar x -C %s; cd %s && git init -q && git add -A && git commit -qm x" % (SCR, SCR))
    for f in ("build.sh", "test.sh"):
        t = open("/opt/vp/" + f).read().replace("/repo", SCR).replace("bash /opt/vp/build.sh", "bash %s.build.sh" % SCR).replace("ninja -C", "ninja -j8 -C")
        open(SCR + "." + f, "w").write(t)
    sh("cd %s && git checkout -q -- . && git rm -rq --cached . ; git -C /repo archive HEAD | tar x -C %s; git add -A; git commit -qm sync" % (SCR, SCR))
def main():
    prepare()
    for sid in sys.argv[1:]:
        spec = {}
        exec(open("/tmp/seeds/%s.py" % sid).read(), spec)
        out = "/verif/seeded/" + sid
        sh("cd %s && git checkout -q -- ." % SCR)
        tmp = "/tmp/seeds/%s.d" % sid
        shutil.rmtree(tmp, ignore_errors=True); os.makedirs(tmp)
        open(tmp + "/demo.cpp", "w").write(spec["demo"])
        srcs = " ".join("src/%s.cpp" % s for s in spec.get("srcs", []))
        open(tmp + "/demo.sh", "w").write('#!/bin/bash\n# exit 0 when the behaviour is right, non-zero when it is broken\nd=$(cd "$(dirname "$0")" && pwd)\nt=$(mktemp -d)\ntrap \'rm -rf "$t"\' EXIT\n'
            'g++ -std=c++17 -O1 -g %s -w -Iinclude "$d/demo.cpp" %s -o "$t/demo" -pthread %s || exit 3\ntimeout 120 "$t/demo"\n' % (spec.get("flags", "-DRAPIDJSON_HAS_STDSTRING=1"), srcs, spec.get("libs", "")))
        for f, t in spec.get("files", {}).items():
            os.makedirs(os.path.dirname(tmp + "/" + f), exist_ok=True); open(tmp + "/" + f, "w").write(t)
        r = sh("bash %s/demo.sh" % tmp, cwd=SCR)
        if r.returncode: print(sid, "demo fails on the clean tree", r.returncode, r.stdout[-1500:]); continue
        ok = True
        for f, old, new in spec["edits"]:
            p = SCR + "/" + f; t = open(p).read()
            if t.count(old) != 1: print(sid, f, "old text occurs", t.count(old)); ok = False; break
            open(p, "w").write(t.replace(old, new))
        if not ok: continue
        r = sh("bash %s/demo.sh" % tmp, cwd=SCR)
        if r.returncode == 0: print(sid, "demo passes with the change"); continue
        if r.returncode == 3: print(sid, "demo does not compile with the change", r.stdout[-1500:]); continue
        drc = r.returncode
        r = sh("bash %s.test.sh /tmp/scr.out.json" % SCR)
        res = json.load(open("/tmp/scr.out.json")); base = json.load(open("/opt/vp/BASELINE.json"))
        stable = base.get("stable") or base.get("passed") or base
        if isinstance(stable, dict): stable = stable.get("passed")
        miss = [t for t in stable if t not in set(res["passed"])]
        if miss: print(sid, "breaks tests:", miss[:5], r.stdout[-500:] if not res["passed"] else ""); continue
        d = sh("git -C %s diff" % SCR).stdout
        shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
        shutil.rmtree(out); shutil.copytree(tmp, out)
        open(out + "/patch.diff", "w").write(d)
        json.dump({"property": spec["prop"], "needs": spec["needs"], "what_it_breaks": spec["breaks"]}, open(out + "/meta.json", "w"), indent=1)
        print(sid, "OK demo rc", drc)
    sh("cd %s && git checkout -q -- ." % SCR)
main()
