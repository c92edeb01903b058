#!/usr/bin/env python3
"""gen.py < list : draft specification blocks (one line per function: NAME [-o RE] [-t RE] [-b N])"""
import sys, os, threading, shlex
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(100000)
threading.stack_size(512 * 1024 * 1024)
from facts import Facts
from absint import *
from table import *


MSG = re.compile(r"(_::msg|fmt::format|__private::must_use|Arguments::new|_::format_err|Trait::new|Adhoc::new)\(")


def relax(l):
    """what a message says is not part of any property"""
    while True:
        m = MSG.search(l)
        if not m:
            return l
        j, d, q = m.end() - 1, 0, None
        while j < len(l):
            ch = l[j]
            if q:
                if ch == "\\":
                    j += 1
                elif ch == q:
                    q = None
            elif ch in "'\"":
                q = ch
            elif ch in "([{":
                d += 1
            elif ch in ")]}":
                d -= 1
                if d == 0:
                    break
            j += 1
        l = l[:m.start()] + "_" + l[j + 1:]


def span(l, i):
    """end of the bracketed text starting at l[i]"""
    j, d, q = i, 0, None
    while j < len(l):
        ch = l[j]
        if q:
            if ch == "\\":
                j += 1
            elif ch == q:
                q = None
        elif ch in "'\"":
            q = ch
        elif ch in "([{<":
            d += 1
        elif ch in ")]}" or (ch == ">" and l[j - 1] not in "-="):
            d -= 1
            if d == 0:
                return j + 1
        j += 1
    return j


FAILS = re.compile(r"(?<!\w)(Err|\w*[fF]ail\w*|Cause::new|Errata::new|caused_by|description|trace)\(")


def relax_cat(l):
    """formatted text inside errors"""
    out, pos = "", 0
    while True:
        m = FAILS.search(l, pos)
        if not m:
            return out + l[pos:]
        e = span(l, m.end() - 1)
        t = l[m.end() - 1:e]
        while True:
            n = re.search(r"(?<!\w)cat<", t)
            if not n:
                break
            t = t[:n.start()] + "_" + t[span(t, n.end() - 1):]
        out += l[pos:m.end() - 1] + t
        pos = e


def relax_row(l, keep=False):
    i = l.index("=>")
    return l if keep else l[:i] + relax_cat(relax(l[i:]))


def main():
    F = Facts()
    for line in sys.stdin:
        line = line.strip()
        if not line or line.startswith("#"):
            continue
        ws = shlex.split(line)
        keep = "-R" in ws
        noeff = "-E" in ws
        ws = [w for w in ws if w not in ("-R", "-E")]
        opts = [w for w in ws if re.match(r"^-[otbiaue]", w)]
        name = " ".join(w for w in ws if w not in opts)
        if "-e" not in opts and not noeff:
            opts.append("-e")
        try:
            b = name if name in F.index else F.one(name)
        except Exception as e:
            print("## ??", name, e)
            continue
        body = F.body(b)
        if not any(o.startswith("-a") for o in opts) and body["argc"]:
            ns = [l[1] if len(l) > 1 and l[1] else f"arg{i}" for i, l in enumerate(body["locals"][1:1 + body["argc"]])]
            opts = ["-a" + ",".join(ns)] + opts
        rows, I = run_table(F, b, opts)
        print("## " + (shlex.quote(name) if "'" in name else name) + "".join(f" {shlex.quote(o)}" for o in opts))
        if rows is None:
            print("# BUDGET")
            continue
        print(autoalias([relax_row(fmt(r), keep) for r in rows] + ["! " + p for p in sorted(panic_set(I))]))
        print()


if __name__ == "__main__":
    th = threading.Thread(target=main); th.start(); th.join()
