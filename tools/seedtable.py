#!/usr/bin/env python3
"""Rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
A, Z = "<!-- planted bugs -->\n", "<!-- end of planted bugs -->\n"
rows = ["| bug | property, caught by | what it breaks | needs |\n", "|---|---|---|---|\n"]
missed = set(sys.argv[1:])
for d in sorted(glob.glob(root + "/seeded/*/meta.json")):
    m = json.load(open(d))
    n = d.split("/")[-2]
    c = lambda t: t.replace("|", "\\|").replace("\n", " ")
    rows.append("| %s | %s%s | %s | %s |\n" % (n, m["property"], " (missed)" if n in missed else "", c(m["what_it_breaks"]), c(m["needs"])))
t = open(root + "/DESIGN.md").read()
if "SEEDTABLE" in t:
    t = t.replace("SEEDTABLE\n", A + Z)
i, j = t.index(A), t.index(Z)
open(root + "/DESIGN.md", "w").write(t[:i] + A + "".join(rows) + t[j:])
