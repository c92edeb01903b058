#!/usr/bin/env python3
"""mklist.py FILEREGEX [EXCLUDE-REGEX]: list entries for gen.py, one per hand-written body of the matching files"""
import sys, re, shlex
sys.path.insert(0, "/verif/fw")
from facts import Facts
F = Facts()
rx = re.compile(sys.argv[1]); ex = re.compile(sys.argv[2]) if len(sys.argv) > 2 and sys.argv[2] else None
for b, d in sorted(F.index.items(), key=lambda x: (x[1]["file"], x[1]["line"])):
    if not rx.search(d["file"]) or d["kind"] not in ("fn",) or "{closure" in b or (d.get("exp") and not (len(sys.argv) > 3)):
        continue
    if re.search(r"::_(::|$)|_::|::tests?::|as core::fmt::Debug", b) or (ex and ex.search(b)):
        continue
    print(shlex.quote(b))
