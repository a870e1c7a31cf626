#!/usr/bin/env python3
"""Prints the table of planted changes for DESIGN.md."""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(d))
    print("| %s | %s | %s |" % (os.path.basename(os.path.dirname(d)), m["needs"], m["property"]))
