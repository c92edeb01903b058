"""P17, beyond the tables: what Builder::iter does with fragments and with fields of the same output name."""
import re

AN = "tailcall::core::jit::builder::Builder"


def places(x):
    """every place [local, proj...] of a MIR fragment"""
    if isinstance(x, list):
        if len(x) > 1 and isinstance(x[0], int) and all(p == "*" or isinstance(p, list) for p in x[1:]):
            yield x
        for y in x:
            yield from places(y)
    elif isinstance(x, dict):
        for y in x.values():
            yield from places(y)


def callee(t):
    f = t[1]
    return (f[1].get("res") or f[1].get("fn") or "") if isinstance(f, list) and isinstance(f[1], dict) else ""


def dropped(B):
    """lines of the membership tests whose hit goes on to the next element without calling anything"""
    bl = B["blocks"]
    for blk in bl:
        t = blk["t"]
        if t[0] != "call" or not re.search(r"HashSet.*::contains$", callee(t)):
            continue
        sw = bl[t[4]]["t"]
        if sw[0] != "switch":
            continue
        todo, seen, used = [sw[3]], set(), False
        while todo and not used:
            i = todo.pop()
            if i in seen or not isinstance(i, int):
                continue
            seen.add(i)
            u = bl[i]["t"]
            if u[0] == "goto":
                todo.append(u[1])
            elif u[0] == "drop":
                todo.append(u[2])
            elif u[0] == "switch":
                todo += [x[1] for x in u[2]] + [u[3]]
            elif u[0] == "call" and not re.search(r"Iterator(>|)::next$|::next$", callee(u)):
                used = True
        if not used:
            yield t[-1]


def check(ctx):
    F = ctx.F
    bodies = [k for k in F.index if k.startswith(AN)]
    it = [k for k in bodies if re.search(r"Builder.*::iter$", k)]
    if not it:
        ctx.fail("anchor/Builder::iter", "Builder::iter not found")
        return
    read = set()
    for b in bodies:
        B = F.body(b)
        ctx.functions.add(b)
        loc = B["locals"]
        for bl in B["blocks"]:
            for p in places(bl.get("s")):
                ty = loc[p[0]][0] if isinstance(loc[p[0]], list) else loc[p[0]]
                last = p[-1]
                if isinstance(last, list) and last[0] == "f" and last[1] == "directives":
                    for n in ("FragmentSpread", "InlineFragment"):
                        if n in str(ty):
                            read.add(n)
    for n in ("FragmentSpread", "InlineFragment"):
        ctx.ob(f"fragment-directives/{n}", n in read,
               f"the directives of a {n} are never read, so @skip and @include on it have no effect", ctx.loc(it[0]))
    lines = list(dropped(F.body(it[0])))
    ctx.ob("merge-selections/Builder::iter", not lines,
           "a field with an output name that was already seen is dropped with its selections instead of being merged", ctx.loc(it[0]))
