#!/usr/bin/env python3
"""replaces the table of planted bugs in DESIGN.md by the current one"""
import os, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
table = subprocess.run([sys.executable, HERE + "/tools/gen_design_table.py"], capture_output=True, text=True).stdout
p = HERE + "/DESIGN.md"
s = open(p).read()
a = s.index("| id | property |")
b = s.index("\n\n", a)
head = "| id | property | what it breaks | needs |\n|---|---|---|---|\n"
open(p, "w").write(s[:a] + head + table.rstrip() + s[b:])
