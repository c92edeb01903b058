#!/usr/bin/env python3
"""dr.py LIST OUT: draft the tables of a list in parallel, each with a time and memory limit; prints sizes"""
import sys, subprocess, concurrent.futures as cf
ls = [l.strip() for l in open(sys.argv[1]) if l.strip() and not l.startswith("#")]
def one(l):
    try:
        r = subprocess.run(["bash", "-c", "ulimit -v 8000000; timeout 60 python3 /verif/fw/gen.py"], input=l + "\n", capture_output=True, text=True)
        return r.stdout if r.returncode == 0 and not r.stderr.strip() else "# FAIL " + l
    except Exception as e:
        return "# FAIL " + l
with cf.ThreadPoolExecutor(6) as ex:
    res = list(ex.map(one, ls))
with open(sys.argv[2], "w") as f:
    for l, t in zip(ls, res):
        if t.startswith("# FAIL") or "# BUDGET" in t or t.startswith("## ??"):
            print("BAD     ", l[:150])
            continue
        rows = [x for x in t.split("\n") if x and x[0] not in "$#"]
        f.write(t)
        n = len(rows); c = len(t)
        print(f"{'BIG ' if n > 14 or c > 3500 else '    '}{n:3} {c:6}", l[:150])
