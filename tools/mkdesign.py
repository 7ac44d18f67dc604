#!/usr/bin/env python3
"""Rewrite the table of repaired defects in DESIGN.md from known_findings.txt."""
import os, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for l in open(R + "/known_findings.txt"):
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", l)
    if m:
        rows.append(m.groups())
rows.sort(key=lambda r: r[0])
p = R + "/DESIGN.md"
s = open(p).read()
tab = "| property | commit | what failed |\n|---|---|---|\n" + "".join("| %s | %s | %s |\n" % r for r in rows)
s = re.sub(r"\| property \| commit \| what failed \|\n\|---\|---\|---\|\n(?:\|.*\n)*", lambda m: tab, s)
s = re.sub(r"\d+ genuine defects were found", "%d genuine defects were found" % len(rows), s)
open(p, "w").write(s)
