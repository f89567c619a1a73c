#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json (runs nothing)."""
import os, re, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = subprocess.run(["python3", V + "/tools/catch.py"], capture_output=True, text=True).stdout
s = open(V + "/DESIGN.md").read()
head = "| plant | property (its check reports it) | what it breaks |\n|---|---|---|\n"
i = s.index(head) + len(head)
j = i
while s[j] == "|":
    j = s.index("\n", j) + 1
open(V + "/DESIGN.md", "w").write(s[:i] + rows + s[j:])
