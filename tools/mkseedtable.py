#!/usr/bin/env python3
"""Development aid: rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(HERE, "DESIGN.md")
t = open(p).read()
mark = "| Planted bug | Caught by |"
if mark in t: t = t[:t.index(mark)]
t = t.rstrip("\n") + "\n\n" + mark + " What it breaks | Needs |\n|---|---|---|---|\n"
for i in sorted(os.listdir(os.path.join(HERE, "seeded"))):
    m = json.load(open(os.path.join(HERE, "seeded", i, "meta.json")))
    f = lambda s: " ".join(str(s).split()).replace("|", "/")
    t += "| %s | %s | %s | %s |\n" % (i, m["property"], f(m["what_it_breaks"]), f(m["needs"]))
open(p, "w").write(t)
