#!/usr/bin/env python3
"""tab.py [-oOPAQUE] [-tTRACK] [-bBUDGET] FN... : print the decision table of functions"""
import sys, time, threading
import os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(100000)
threading.stack_size(512 * 1024 * 1024)
from facts import Facts
from absint import *
from table import *


def main():
    F = Facts()
    args = sys.argv[1:]
    kw = {}
    raw = "-r" in args
    for a in list(args):
        if a == "-r":
            args.remove(a)
        elif a.startswith("-o"):
            kw.setdefault("opaque", []).append(a[2:]); args.remove(a)
        elif a.startswith("-t"):
            kw["track"] = a[2:]; args.remove(a)
        elif a.startswith("-b"):
            kw["budget"] = int(a[2:]); args.remove(a)
    for n in args:
        ks = [n] if n in F.index else F.find(n)
        if len(ks) != 1:
            print("??", n, ks)
        for b in ks:
            t = time.time()
            I = Interp(F, **kw)
            body = F.body(b)
            st, av, muts = mut_args(F, body)
            try:
                if 'async' in F.index[b] or 'Pin<' in body['locals'][0][0] or body['locals'][0][0].startswith('{async '):
                    outs = []
                    for o in I.analyse(b, av, None, None, st):
                        for s, r in I.poll(o.st, o.ret, ("root",)):
                            outs.append(Outcome(s, r))
                else:
                    outs = I.analyse(b, av, None, None, st)
            except Budget:
                print("==", b, "BUDGET"); continue
            for o in outs:
                o.ret = I.deep(o.st, o.ret)
                for n_, c, v in muts:
                    if c in o.st.mem:
                        o.st.mem[c] = I.deep(o.st, o.st.mem[c])
            rows = outcome_rows(outs, None, muts, bool(kw.get("track")))
            print(f"== {b}  steps {I.steps} {time.time()-t:.2f}s")
            ls = [fmt(r) for r in rows]
            print("\n".join(ls) if raw else autoalias(ls))
            for p in I.panics[:8]:
                print("  PANIC", p[0], p[1], p[3])


th = threading.Thread(target=main); th.start(); th.join()
