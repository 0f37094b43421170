#!/usr/bin/env python3
"""Writes known_findings.txt: one 'fixed:' line per fix commit in /repo, then the recorded findings of tools/findings.txt (development aid)."""
import os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# subject keyword -> property, default C01
M = [("footnote pass walks", "C01"), ("later conversions", "C02"), ("previous one ended", "C02"), ("rewrite CommonMark", "C03"), ("outside tables", "C03"), ("blank lines inside <pre>", "C03"), ("long first header cell", "C03"),
     ("critic", "C05"), ("highlight output", "C06"), ("insert", "C06"), ("exhaust cmark node types", "C02")]
extra = os.path.join(V, "tools", "fixmap.txt")
if os.path.exists(extra):
    for l in open(extra):
        if l.strip(): k, p = l.rstrip("\n").split("|"); M.insert(0, (k, p))
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%H %s"], capture_output=True, text=True).stdout
with open(V + "/known_findings.txt", "w") as f:
    f.write("# fixed: defects repaired in /repo (these lines suppress nothing).  finding: defects recorded, with the exact input that fails.\n")
    for l in log.splitlines():
        h, s = l.split(" ", 1)
        if not s.startswith("fix: "): continue
        p = next((p for k, p in M if k in s), "C01")
        f.write("fixed: property=%s %s %s\n" % (p, h[:12], s[5:]))
    fp = V + "/tools/findings.txt"
    if os.path.exists(fp): f.write(open(fp).read())
