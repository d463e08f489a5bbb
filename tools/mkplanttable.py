#!/usr/bin/env python3
"""Prints the table of planted bugs (DESIGN.md, section 5) from seeded/*/meta.json."""
import glob, json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for d in sorted(glob.glob(ROOT + "/seeded/*/meta.json")):
    m = json.load(open(d))
    print(f"| {os.path.basename(os.path.dirname(d))} | {m['property']} | {m['needs']} |")
