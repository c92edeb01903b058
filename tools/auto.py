#!/usr/bin/env python3
"""auto.py LIST OUT: choose options for every function of a list: where the table with inlined callees is large or does
not converge, the callees of the workspace are made opaque (they have tables of their own)"""
import sys, re, subprocess, shlex, concurrent.futures as cf
sys.path.insert(0, "/verif/fw")
from facts import Facts
F = Facts()
ls = [l.strip() for l in open(sys.argv[1]) if l.strip() and not l.startswith("#")]


def draft(l):
    r = subprocess.run(["bash", "-c", "ulimit -v 8000000; timeout 60 python3 /verif/fw/gen.py"], input=l + "\n", capture_output=True, text=True)
    t = r.stdout if r.returncode == 0 and not r.stderr.strip() else None
    if t is None or "# BUDGET" in t or t.startswith("## ??"):
        return None
    return len(t)


def callees(b, seen=None):
    seen = seen if seen is not None else set()
    if b in seen or b not in F.index:
        return set()
    seen.add(b)
    out = set()
    for bl in F.body(b)["blocks"]:
        t = bl["t"]
        if t[0] == "call" and isinstance(t[1], list) and isinstance(t[1][1], dict):
            out.add(t[1][1].get("res") or t[1][1].get("fn") or "")
    for k in F.index:
        if k.startswith(b + "::{closure"):
            out |= callees(k, seen)
    return out


def opts(name):
    b = name if name in F.index else F.one(name)
    o = set()
    for c in callees(b):
        if c.startswith("tailcall") or c.startswith("<tailcall"):
            c2 = re.sub(r"<[^<>]*>", "", c) if not c.startswith("<") else c
            s = c2.split("::")
            if c.startswith("<"):
                m = re.match(r"<([\w:]+)(?:<.*>)? as ([\w:]+)(?:<.*>)?>::(\w+)$", c)
                if m:
                    o.add(f"{m.group(1).split('::')[-1]}.* as .*{m.group(2).split('::')[-1]}.*>::{m.group(3)}$")
                continue
            s = [x for x in s if x]
            o.add("::".join(s[-2:]) + "$" if len(s) > 1 and re.match(r"^\w+$", s[-2]) else s[-1] + "$")
    return sorted(o)


def one(l):
    n = draft(l)
    if n is not None and n < 5000:
        return l, n, ""
    name = shlex.split(l)[0]
    try:
        o = opts(name)
    except Exception as e:
        return l, n, "?" + repr(e)[:80]
    l2 = l + "".join(" " + shlex.quote("-o" + x) for x in o)
    n2 = draft(l2)
    if n2 is not None and (n is None or n2 < n * 0.8):
        return l2, n2, "opaque"
    return l, n, ""


with cf.ThreadPoolExecutor(7) as ex:
    res = list(ex.map(one, ls))
with open(sys.argv[2], "w") as f:
    for l, n, w in res:
        if n is None:
            print("BAD       ", l[:200])
            continue
        if n > 9000:
            print("BIG", n, l[:180])
        f.write(l + "\n")
print(len(ls), "in", sum(n is not None for _, n, _ in res), "out")
