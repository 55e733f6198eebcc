#!/usr/bin/env python3
"""Prints the table of planted bugs for DESIGN.md."""
import json, glob, os
for f in sorted(glob.glob(os.path.dirname(os.path.abspath(__file__)) + '/../seeded/*/meta.json')):
    m = json.load(open(f)); i = os.path.basename(os.path.dirname(f))
    print(f"| {i} | {m['needs']} | {m['property']} |")
