#!/usr/bin/env python3
# Prints the table of planted bugs for DESIGN.md.
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for s in sorted(os.listdir(here + '/seeded')):
    m = json.load(open(f'{here}/seeded/{s}/meta.json'))
    print(f"| `{s}` | {m['property']} | {m['needs']} | {m['what_it_breaks']} |")
