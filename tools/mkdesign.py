#!/usr/bin/env python3
"""Refreshes the property table and the planted-bug list of DESIGN.md from config.py, props.py, seeded/ and the last quick evidence."""
import glob, json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/bin")
from config import PROPS
import props
rows = []
for p in props.PROPS:
    if p["na"]: continue
    hs = PROPS[p["id"]]["harnesses"]
    bounds = "; ".join("**%s** (%s) %s" % (h["name"], ", ".join("%s=%s" % kv for kv in h["quick"].items() if kv[0] not in ("B_MODE", "B_TYPES", "B_CLASS", "B_ROOT", "B_DUMP")), h.get("bounds", "")) for h in hs).replace(" ()", "")
    t = ""
    try:
        e = json.load(open(V + "/evidence/%s.json" % p["id"]))
        if e["tier"] == "quick":
            c = e["coverage"]
            t = "%d s, %d paths, %d queries" % (e["wall_s"], c["states"], c["queries"])
    except OSError: pass
    rows.append("| %s | %s | %s | %s | %s |" % (p["id"], ", ".join(sorted({m[0] for m in p["mech"]})).replace("|", "\\|"), p["note"].replace("|", "\\|"), bounds.replace("|", "\\|"), t))
seeds = ["| planted bug | property | what it breaks | needs |", "|---|---|---|---|"]
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(f))
    seeds.append("| %s | %s | %s | %s |" % (f.split("/")[-2], m["property"], m["what_it_breaks"].replace("|", "\\|").replace("\n", " "), m["needs"].replace("|", "\\|").replace("\n", " ")))
s = open(V + "/DESIGN.md").read()
head = "| id | what is executed | scope and oracle | quick harnesses and bounds | last quick run |\n|---|---|---|---|---|\n"
s = re.sub(r"(<!-- table -->\n).*?(<!-- /table -->)", lambda m: m[1] + head + "\n".join(rows) + "\n" + m[2], s, flags=re.S)
s = re.sub(r"(<!-- seeds -->\n).*?(<!-- /seeds -->)", lambda m: m[1] + "\n".join(seeds) + "\n" + m[2], s, flags=re.S)
open(V + "/DESIGN.md", "w").write(s)
