#!/usr/bin/env python3
"""uncov.py FILEREGEX [-a]: hand-written bodies no specification table names (with -a: nor reaches by inlining)"""
import sys, re, os
sys.path.insert(0, "/verif/fw"); sys.path.insert(0, "/verif")
from facts import Facts
import table as TB
F = Facts()
named = set()
for fn in sorted(os.listdir("/verif/specs")):
    if fn.endswith(".tbl"):
        for n, o, t in TB.parse_spec("/verif/specs/" + fn):
            try:
                named.add(n if n in F.index else F.one(n))
            except Exception as e:
                print("??", fn, n)
rx = re.compile(sys.argv[1])
for b, d in sorted(F.index.items(), key=lambda x: (x[1]["file"], x[1]["line"])):
    if not rx.search(d["file"]) or d["kind"] != "fn" or "{closure" in b or b in named:
        continue
    if re.search(r"::_(::|$)|_::<impl|::tests?::|as core::fmt::Debug|clone::Clone>|assert_fields|cmp::|hash::Hash", b):
        continue
    if d.get("exp") and "Default" not in b and "Display" not in b and "From<" not in b and "-x" not in sys.argv:
        continue
    print(f"{d['file']}:{d['line']} {b}")
