#!/bin/bash
# g2.sh PID : draft spec from LIST, report summary
cd /verif; python3 fw/gen.py < ${2:-/verif/tools/lists/l.$1} > specs/$1.tbl
grep -n "BUDGET\|^## ??" specs/$1.tbl | cut -c1-200
python3 - $1 <<'P'
import sys,re
cur=None;n=0;c=0
for l in open(f"/verif/specs/{sys.argv[1]}.tbl"):
    if l.startswith("## "):
        if cur: print(n,c,cur)
        cur=l[3:].strip()[:110];n=c=0
    elif l.strip() and not l.startswith("$"): n+=1
    c+=len(l)
print(n,c,cur)
P
python3 check.py $1 | tail -3 | cut -c1-400
