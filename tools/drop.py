#!/usr/bin/env python3
"""drop.py PID SUBSTR..: remove tables (and list entries) whose name contains SUBSTR"""
import sys,re
pid,subs=sys.argv[1],sys.argv[2:]
p=f"/verif/specs/{pid}.tbl"; s=open(p).read()
bl=re.split(r"(?m)^(?=## )",s); keep=[]
for b in bl:
    h=b.split("\n",1)[0]
    if h.startswith("## ") and any(x in h for x in subs): print("dropped",h[:120]); continue
    keep.append(b)
open(p,"w").write("".join(keep).rstrip("\n")+"\n")
p=f"/verif/tools/lists/l.{pid}"; ls=open(p).read().split("\n")
open(p,"w").write("\n".join(l for l in ls if not any(x in l for x in subs)))
