#!/usr/bin/env python3
"""Prints DESIGN.md's table of seeded bugs (ids, property, what it needs)."""
import json, glob, os
print("| bug | breaks, caught by | needs |\n|---|---|---|")
for d in sorted(glob.glob(os.path.dirname(os.path.abspath(__file__)) + "/../seeded/*/meta.json")):
    m = json.load(open(d))
    print("| %s | %s | %s |" % (os.path.basename(os.path.dirname(d)), m["property"], m["needs"]))
