#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json and tools/seeds.txt (what the checks said)."""
import glob
import json
import os
import re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C = dict(l.rstrip("\n").split("\t") for l in open(V + "/tools/seeds.txt"))
t = "| change | breaks | manifests only with | reported by |\n|---|---|---|---|\n"
for d in sorted(glob.glob(V + "/seeded/*/")):
    m = json.load(open(d + "meta.json"))
    c = C.get(os.path.basename(d[:-1]), "(not run)")
    t += "| %s | %s: %s | %s | %s |\n" % (os.path.basename(d[:-1]), m["property"], m["what_it_breaks"], m["needs"], c)
s = open(V + "/DESIGN.md").read()
s = re.sub(r"<!-- seeds -->.*?<!-- /seeds -->", lambda _: "<!-- seeds -->\n" + t + "<!-- /seeds -->", s, flags=re.S)
open(V + "/DESIGN.md", "w").write(s)
