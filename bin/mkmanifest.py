#!/usr/bin/env python3
"""Regenerate properties.jsonl and MANIFEST.json from props.py and config.py."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import props, config
TECH = "bounded symbolic execution of the repository's LLVM IR, decided by Z3 (SMT), counterexamples replayed natively"
BASE = ("Trusts clang 18's IR, the klsym executor and Z3; completed symbolic paths are replayed against a g++ build on every run to validate the encoding. "
        "Says nothing outside the bounds given in DESIGN.md and in the evidence file.")
with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
    for p in props.PROPS:
        a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
        if p["observe"]: a["observe_at"] = p["observe"]
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["qtext"]},
                            "why_tests_cant": p["why"], "anchors": a}) + "\n")
checks, na = [], []
for p in props.PROPS:
    if p["na"]:
        na.append({"property": p["id"], "reason": p["na"]}); continue
    assert p["id"] in config.PROPS, p["id"]
    checks.append({"property": p["id"], "quick_cmd": "python3 bin/check.py " + p["id"], "thorough_cmd": "python3 bin/check.py %s --tier thorough" % p["id"],
                   "technique": config.PROPS[p["id"]].get("technique", TECH), "level": "model_checking",
                   "level_note": "Bounded: " + p["note"] + ". " + BASE, "evidence_file": "evidence/%s.json" % p["id"]})
m = {"version": 1, "setup_cmd": "make -s -j8 -C engine OUT=/verif/build", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(VERIF, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "n/a")
