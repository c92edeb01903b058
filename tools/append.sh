#!/bin/bash
# append.sh PID LISTFILE: draft tables for the list and append them to specs/PID.tbl
cd /verif; python3 fw/gen.py < $2 > /tmp/app.$1.tbl
grep -n "BUDGET\|^## ??" /tmp/app.$1.tbl | cut -c1-160
grep -B1 "^# BUDGET" /tmp/app.$1.tbl > /tmp/app.bad
[ -s specs/$1.tbl ] && echo >> specs/$1.tbl
cat /tmp/app.$1.tbl >> specs/$1.tbl; cat $2 >> tools/lists/l.$1
python3 - /tmp/app.$1.tbl <<'Q'
import sys
cur=None;n=c=0
def pr():
    if cur and (n>12 or c>2500): print(n,c,cur)
for l in open(sys.argv[1]):
    if l.startswith("## "):
        pr(); cur=l[3:].strip()[:110]; n=c=0
    elif l.strip() and not l.startswith("$"): n+=1
    c+=len(l)
pr()
Q
python3 check.py $1 | tail -3 | cut -c1-300
