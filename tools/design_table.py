#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json and the results file given."""
import json, os, re, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = {}
for path in sys.argv[1:]:
    for line in open(path):
        f = line.split()
        res[f[0]] = (f[2].split("=")[1], f[3])
rows = ["| bug | property | needs | breaks | caught by |", "|---|---|---|---|---|"]
for s in sorted(os.listdir(os.path.join(here, "seeded")), key=lambda s: int(re.match(r"s(\d+)", s).group(1))):
    m = json.load(open(os.path.join(here, "seeded", s, "meta.json")))
    rc, t = res.get(s, ("?", "?"))
    got = "%s quick (%s)" % (m["property"], t) if rc == "1" else "MISSED" if rc == "0" else "not run"
    rows.append("| %s | %s | %s | %s | %s |" % (s, m["property"], m["needs"].replace("|", "/"), m["what_it_breaks"].replace("|", "/"), got))
p = os.path.join(here, "DESIGN.md")
d = open(p).read()
a, b = d.index("<!-- bugs -->"), d.index("<!-- /bugs -->")
open(p, "w").write(d[:a] + "<!-- bugs -->\n" + "\n".join(rows) + "\n" + d[b:])
