#!/usr/bin/env python3
"""Rewrites the table at the end of DESIGN.md: planted bugs and the checks that catch them."""
import glob, json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = open(os.path.join(ROOT, "DESIGN.md")).read()
head = "| planted bug |"
s = s[:s.index(head)] if head in s else s
s += head + " property, caught by | breaks |\n|---|---|---|\n"
for d in sorted(glob.glob(os.path.join(ROOT, "seeded", "*"))):
    m = json.load(open(d + "/meta.json"))
    s += "| %s | %s | %s |\n" % (os.path.basename(d), m["property"], m["what_it_breaks"].replace("|", "/"))
open(os.path.join(ROOT, "DESIGN.md"), "w").write(s)
