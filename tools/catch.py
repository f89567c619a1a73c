#!/usr/bin/env python3
"""Prints the table of planted bugs for DESIGN.md (reads seeded/, runs nothing)."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(f))
    print("| %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), m["property"], " ".join(m["what_it_breaks"].split())))
