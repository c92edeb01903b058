#!/usr/bin/env python3
"""redo.py PID [REGEX]: redraft, in place, the tables of a spec that do not hold (or match REGEX), after a change of the analysis"""
import subprocess, sys, re, shlex
pid = sys.argv[1]
p = f"/verif/specs/{pid}.tbl"
out = subprocess.run(["python3", "/verif/check.py", pid], capture_output=True, text=True).stdout
bad = {m for m in re.findall(r"^  (?:table|panic)/(.*?): ", out, re.M)}
opts = {}
try:
    for l in open(f"/verif/tools/lists/l.{pid}"):
        w = shlex.split(l)
        if w:
            opts[" ".join(x for x in w if x[0] != "-")] = [x for x in w if x[0] == "-"]
except FileNotFoundError:
    pass
secs = re.split(r"(?m)^(?=## )", open(p).read())
res = []
for s in secs:
    m = re.match(r"## (.*)\n", s)
    if m:
        ws = shlex.split(m.group(1))
        name = " ".join(w for w in ws if not re.match(r"^-[otbiaueRE]", w))
        hit = re.search(sys.argv[2], name) if len(sys.argv) > 2 else any(name == b or b in name or name in b for b in bad)
        if hit:
            o = opts.get(name)
            if o is None:
                o = [w for w in ws[1:] if re.match(r"^-[otbui]", w)]
            g = subprocess.run(["python3", "/verif/fw/gen.py"], input=" ".join(shlex.quote(x) for x in [name] + o) + "\n", capture_output=True, text=True).stdout
            if "=>" not in g:
                print("FAILED", name, g[:200])
            else:
                s = g.rstrip("\n") + "\n\n"
                print("redone", name, s.count("\n"))
    res.append(s)
open(p, "w").write("".join(res))
