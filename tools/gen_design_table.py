#!/usr/bin/env python3
"""prints the table of planted bugs for DESIGN.md"""
import glob, json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for d in sorted(glob.glob(os.path.join(HERE, "seeded", "*"))):
    m = json.load(open(d + "/meta.json"))
    print("| %s | %s | %s | %s |" % (os.path.basename(d), m["property"], m["what_it_breaks"], m["needs"]))
