#!/usr/bin/env python3
"""mut.py PIDS FILE OLD NEW : apply a one-off textual edit in /repo, run checks, undo (development aid)"""
import subprocess, sys
pids, f, old, new = sys.argv[1:5]
p = "/repo/" + f
s = open(p).read()
old = old.encode().decode("unicode_escape"); new = new.encode().decode("unicode_escape")
if s.count(old) < 1:
    print("NO MATCH"); sys.exit(2)
if s.count(old) > 1 and len(sys.argv) < 6:
    print("AMBIGUOUS", s.count(old)); sys.exit(2)
open(p, "w").write(s.replace(old, new, 1))
try:
    r = subprocess.run(["python3", "/verif/fw/extract.py"], capture_output=True, text=True)
    if r.returncode:
        print("EXTRACT FAILED", r.stdout[-300:], r.stderr[-800:])
    else:
        for pid in pids.split(","):
            r = subprocess.run(["python3", "/verif/check.py", pid], capture_output=True, text=True)
            print(pid, r.returncode, "\n".join(l[:400] for l in (r.stdout + r.stderr).splitlines()[-4:]))
finally:
    subprocess.run(["git", "-C", "/repo", "checkout", "--", f])
