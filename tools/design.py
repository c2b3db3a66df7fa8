#!/usr/bin/env python3
"""fills the generated tables of DESIGN.md from tools/design.md, tools/props.py, known_findings.txt and seeded/"""
import ast, json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(R, "tools"))
from props import P
from methods import M
t = open(os.path.join(R, "tools", "design.md")).read()
rows, na = [], []
for p in P:
    if p["na"]:
        na.append("* **%s** %s: %s" % (p["id"], p["title"], p["na"]))
    elif not os.path.exists(os.path.join(R, "checks", p["id"].lower() + ".py")):
        na.append("* **%s** %s: check not built (yet)" % (p["id"], p["title"]))
    else:
        rows.append("| **%s** %s | %s |" % (p["id"], p["title"], " | ".join(M[p["id"]])))
k = [l.strip() for l in open(os.path.join(R, "known_findings.txt")) if l.strip()]
fixed = "\n".join("* " + l[7:] for l in k if l.startswith("fixed:"))
find = "\n".join("* " + l[9:] for l in k if l.startswith("finding:"))
sd = []
for d in sorted(os.listdir(os.path.join(R, "seeded"))):
    m = json.load(open(os.path.join(R, "seeded", d, "meta.json")))
    sd.append("* `%s` (%s, %s): %s Needs: %s" % (d, m["property"], "caught" if not os.path.exists(os.path.join(R, "seeded", d, "missed")) else "MISSED", m["what_it_breaks"], m["needs"]))
for a, b in (("TABLE", "\n".join(rows)), ("NA", "\n".join(na)), ("FIXED", fixed), ("FINDINGS", find), ("SEEDED", "\n".join(sd))):
    t = t.replace("@@%s@@" % a, b)
open(os.path.join(R, "DESIGN.md"), "w").write(t)
