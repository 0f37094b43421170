#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design_head.md, the checks' own rules, the planted bugs and tools/design_tail.md (development aid)."""
import importlib, json, os, sys, glob
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, os.path.join(V, "tools")]
from props import PROPS
o = [open(V + "/tools/design_head.md").read().rstrip(), "", "## The properties, and how each is decided", "",
     "For every property: what is generated and the oracle (the rule its evidence reports), the bounds, the number of generated cases (quick / thorough), and why tests cannot settle it.",
     "No property of the list is out of reach of the technique: `not_applicable` is empty.", ""]
bugs = {}
for m in sorted(glob.glob(V + "/seeded/*/meta.json")):
    d = json.load(open(m)); d["id"] = m.split("/")[-2]; bugs.setdefault(d["property"], []).append(d)
for p in sorted(PROPS, key=lambda p: p["id"]):
    m = importlib.import_module("checks." + p["id"].lower())
    o += ["### %s %s" % (p["id"], p["title"]), "", p["statement"], "",
          "* Deciding method: %s." % p["tech"].rstrip("."), "* Generated and judged: " + m.RULE]
    if getattr(m, "ASSUMPTIONS", None): o.append("* Bounds and assumptions: " + "; ".join(m.ASSUMPTIONS) + ".")
    o.append("* Cases: " + ", ".join("%s %d / %d" % (q.name, q.quick, q.thorough) for q in m.PROPS) + ".")
    o.append("* Why tests cannot: " + p["why"])
    o.append("* Anchored in: " + "; ".join("%s (%s)" % (w, n) for n, w in p["mech"]) + ".")
    if p["id"] in bugs: o.append("* Planted bugs: " + ", ".join(b["id"] for b in bugs[p["id"]]) + ".")
    o.append("")
o += ["## Planted bugs", "", "All are caught by the quick check of their property (seed 1) unless said otherwise.", "", "| bug | property | needs | breaks |", "|---|---|---|---|"]
for b in sorted((b for l in bugs.values() for b in l), key=lambda b: b["id"]):
    o.append("| %s | %s | %s | %s |" % (b["id"], b["property"], b["needs"].replace("|", "\\|"), b["what_it_breaks"].replace("|", "\\|")))
o += ["", open(V + "/tools/design_tail.md").read().rstrip(), ""]
open(V + "/DESIGN.md", "w").write("\n".join(o))
