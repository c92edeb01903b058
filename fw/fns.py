#!/usr/bin/env python3
"""fns.py REGEX : list analysed bodies by file"""
import sys, os, re
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from facts import Facts
F = Facts()
rx = re.compile(sys.argv[1])
cur = None
for b, d in sorted(F.index.items(), key=lambda x: (x[1]["file"], x[1]["line"])):
    if rx.search(d["file"]) and "{closure" not in b and "{impl" not in b.split("::")[-1]:
        if d["file"] != cur:
            cur = d["file"]; print("#", cur)
        print("  ", d["line"], b)
