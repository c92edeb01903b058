"""Hash-consed abstract values of the analysis."""
_tab = {}


class T:
    __slots__ = ("op", "a", "uid", "depth", "roots", "haselem", "_s", "hasref", "hasclos")

    def __repr__(self):
        return show(self)


class FName(str):
    """a field's name that knows the type it is a field of"""
    __slots__ = ("adt",)
    __hash__ = str.__hash__

    def __eq__(self, o):
        return str.__eq__(self, o) and (not isinstance(o, FName) or o.adt == self.adt)

    def __ne__(self, o):
        return not self == o


FNAMES = {}
ADTS = {}


def fname(name, adt):
    r = FNAMES.get((name, adt))
    if r is None:
        r = FName(name)
        r.adt = adt
        FNAMES[(name, adt)] = r
    return r


MAXDEPTH = 60


def mk(op, *a):
    if op == "gel" and a[0].op == "gel":
        # an element of a filtered collection that is filtered again
        a = (a[0].a[0], a[0].a[1] | a[1])
    key = (op,) + a
    t = _tab.get(key)
    if t is not None:
        return t
    depth = 1
    roots = frozenset()
    haselem = op in ("elem", "cur")
    hasref = op == "ref"
    hasclos = op == "clos"
    flat = a
    for x in a:
        if isinstance(x, tuple) and x and any(isinstance(y, T) for y in x):
            flat = [z for y in a for z in (y if isinstance(y, (tuple, frozenset)) else (y,))]
            break
    for x in flat:
        if isinstance(x, T):
            if x.depth >= depth:
                depth = x.depth + 1
            if x.roots:
                roots = roots | x.roots if roots else x.roots
            haselem = haselem or x.haselem
            hasref = hasref or x.hasref
            hasclos = hasclos or x.hasclos
    if depth > MAXDEPTH and op not in ("any", "agg", "clos", "lam", "lamrow") and not hasref:
        return mk("any", *sorted(roots, key=lambda r: r.uid))
    t = T()
    t.op, t.a, t.depth, t.haselem, t._s, t.hasref = op, a, depth, haselem, None, hasref
    t.hasclos = hasclos
    t.uid = len(_tab)
    if op in ("in", "const", "static"):
        roots = frozenset([t])
    t.roots = roots
    _tab[key] = t
    return t


def k(v):
    if isinstance(v, bool):
        return mk("k", "b", v)
    if isinstance(v, int):
        return mk("k", "i", v)
    if isinstance(v, str):
        return mk("k", "s", v)
    if v is None:
        return mk("k", "u", None)
    raise ValueError(v)


UNIT = mk("agg", "()", "", ())
TRUE = k(True)
FALSE = k(False)


def agg(adt, variant, names, *vals):
    return mk("agg", adt, variant, tuple(names), *vals)


def tup(*vals):
    return agg("()", "", [str(i) for i in range(len(vals))], *vals)


def arr(*vals):
    return agg("[]", "", [str(i) for i in range(len(vals))], *vals)


OPT = "core::option::Option"
RES = "core::result::Result"


def some(x):
    return agg(OPT, "Some", ("0",), x)


NONE = agg(OPT, "None", ())


def ok(x):
    return agg(RES, "Ok", ("0",), x)


def err(x):
    return agg(RES, "Err", ("0",), x)


def inp(n):
    return mk("in", n)



import re as _re
_shorts = {}


def short(p):
    """last two segments of a plain path"""
    r = _shorts.get(p)
    if r is None:
        r = p
        m = _re.match(r"^<(.+) as (.+)>::(\w+)$", p)
        if m:
            r = f"<{short(m.group(1))} as {short(m.group(2))}>::{m.group(3)}"
        elif "<impl" in p:
            r = "::".join(_re.sub(r"<impl .*>", "_", p).split("::")[-2:])
        elif "<" in p:
            r = _re.sub(r"[\w:]+::(\w+)", r"\1", p)
        elif p.count("::") > 1:
            r = "::".join(p.split("::")[-2:])
        _shorts[p] = r
    return r


def fshow_(f):
    if f[0] == "v":
        return " is " + f[1]
    if f[0] == "k":
        return " == " + show(f[1])
    if f[0] == "nv":
        return " is not " + "/".join(sorted(f[1]))
    return " != " + "/".join(sorted(show(x) for x in f[1]))


TWO = [{("k", "true"), ("k", "false")}, {("v", "Some"), ("v", "None")}, {("v", "Ok"), ("v", "Err")}]


def either(f, g):
    """the fact about a term when it has one of two that exclude each other; () if it says nothing, None if it is no single fact"""
    if [f[0], g[0]] == ["k", "k"] and {f[1], g[1]} == {k(True), k(False)} or {f, g} in TWO:
        return ()
    for f, g in ((f, g), (g, f)):
        if f[0] in "vk" and g[0] == "n" + f[0] and f[1] in g[1]:
            r = g[1] - {f[1]}
            return (g[0], r) if r else ()
    return None


def complement(els):
    """`x if {G, c}` and `x if {G, not c}` are `x if {G}`"""
    els = list(els)
    again = True
    while again:
        again = False
        by = {}
        for i, x in enumerate(els):
            if x.op == "gel":
                by.setdefault(x.a[0], []).append(i)
        for v, ix in by.items():
            for n, i in enumerate(ix):
                for j in ix[n + 1:]:
                    g, h = els[i].a[1], els[j].a[1]
                    dg, dh = g - h, h - g
                    if len(dg) == len(dh) == 1:
                        (t, f), (u, e) = *dg, *dh
                        r = either(f, e) if t is u else None
                        if r is not None:
                            g = (g & h) | ({(t, r)} if r else frozenset())
                            els[i] = mk("gel", v, g) if g else v
                            del els[j]
                            again = True
                            break
                if again:
                    break
            if again:
                break
    return els


def show(t, d=0):
    if not isinstance(t, T):
        if isinstance(t, (tuple, list)):
            return "(" + ", ".join(map(show, t)) + ")"
        return str(t)
    if t._s is not None:
        return t._s
    s = _show(t)
    t._s = s
    return s


COMM = ("Eq", "Add", "Mul", "BitAnd", "BitOr", "BitXor")


def _show(t):
    o, a = t.op, t.a
    if o == "k":
        if a[0] == "c" and (not a[1].isprintable() or a[1] in "(){}<>[]|;&,"):
            return repr(a[1])
        if a[0] == "s" and len(a[1]) > 600:
            return repr("".join(c for c in a[1][:60] if c.isalnum() or c == " ").strip() + "…")
        return repr(a[1]) if a[0] == "s" else ("true" if a[1] is True else "false" if a[1] is False else str(a[1]))
    if o == "in":
        return a[0]
    if o == "fld":
        return f"{show(a[0])}.{a[1]}"
    if o == "pay":
        return f"{show(a[0])}@{a[1]}.{a[2]}" if a[2] != "0" else f"{show(a[0])}@{a[1]}"
    if o == "cur":
        return f"cur<{show(a[0])}>" if not a[1] or isinstance(a[1], tuple) else f"cur{a[1] + 1}<{show(a[0])}>"
    if o == "elem":
        return f"{show(a[0])}[*]"
    if o == "agg":
        adt, v, names = a[0], a[1], a[2]
        vals = a[3:]
        if adt == "()":
            return "(" + ", ".join(map(show, vals)) + ")"
        if adt == "[]":
            return "[" + ", ".join(map(show, vals)) + "]"
        n = v or adt.split("::")[-1]
        if not vals:
            return n
        if names and names[0].isdigit():
            return n + "(" + ", ".join(map(show, vals)) + ")"
        return n + "{" + ", ".join(sorted(f"{x}: {show(y)}" for x, y in zip(names, vals))) + "}"
    if o == "call":
        args = [show(x) for x in a[1:]]
        if a[0] in ("min", "max"):
            args.sort()
        return f"{short(a[0])}(" + ", ".join(args) + ")"
    if o == "bin":
        x, y = show(a[1]), show(a[2])
        if a[0] in COMM and a[2].op != "k" and y < x:
            x, y = y, x
        return f"({x} {a[0]} {y})"
    if o == "not":
        return f"!{show(a[0])}"
    if o == "clos":
        n = _re.sub(r"(::\{(closure|async[^}]*|coroutine[^}]*)#\d+\})+$", "", a[0])
        n = n.split("::")[-1]
        return "|" + n + "|(" + ", ".join(show(x) for x in a[1:]) + ")"
    if o == "lam":
        ps = ",".join(a[0] + str(i + 1) for i in range(a[1])) if a[2] == "closure" else "async"
        return f"|{ps}|" + "{" + "; ".join(show(x) for x in a[3:]) + "}"
    if o == "lamrow":
        fs = " and ".join(sorted(show(x) + fshow_(f) for x, f in a[0]))
        s = f"if {fs} then {show(a[1])}" if fs else show(a[1])
        if a[2]:
            s += " set " + ", ".join(show(x) for x in a[2])
        if a[3]:
            s += " do " + ", ".join(show(x) for x in a[3])
        return s
    if o == "fn":
        return "fn:" + short(a[0])
    if o in ("const", "static"):
        return "const:" + short(a[0])
    if o == "gel":
        return f"{show(a[0])} if {{" + " and ".join(sorted(show(x) + fshow_(f) for x, f in a[1])) + "}"
    if o == "coll":
        base = show(a[0])
        if base == "'zero'":
            return "{}"
        vals = list(a[1:])
        # `k: [v]` followed by `k: what was there + v` is the usual grouping: keep the general form
        slots = {}
        for x in vals:
            y = x.a[0] if x.op == "gel" else x
            if y.op == "kv" and y.a[1].op == "coll" and y.a[1].a[0].op == "slot" and y.a[1].a[0].a[0] is y.a[0]:
                slots[y.a[0]] = {show(z.a[0] if z.op == "gel" else z) for z in y.a[1].a[1:]}
        if slots:
            def covered(x):
                y = x.a[0] if x.op == "gel" else x
                if y.op != "kv" or y.a[0] not in slots:
                    return False
                v = y.a[1]
                if v.op == "agg" and v.a[0] == "[]":
                    inner = v.a[3:]
                elif v.op == "coll" and v.a[0].op == "k":
                    inner = v.a[1:]
                else:
                    return False
                return {show(z.a[0] if z.op == "gel" else z) for z in inner} <= slots[y.a[0]]
            vals = [x for x in vals if not covered(x)]
        els = sorted(show(x) for x in complement(vals))
        return ("" if base == "''" else base + "+") + "{" + ", ".join(els) + "}"
    if o == "kv":
        return f"{show(a[0])}: {show(a[1])}"
    if o == "any":
        return "any<" + ", ".join(sorted(show(x) for x in a)) + ">"
    if o == "await":
        return f"{show(a[0])}.await"
    if o == "upd":
        # order of updates of different fields does not matter
        ups, b = [], t
        while b.op == "upd":
            ups.append(f"{b.a[1]}: {show(b.a[2])}")
            b = b.a[0]
        whole = spelled(t, b)
        if whole:
            return whole
        return show(b) + "+{" + ", ".join(sorted(ups)) + "}"
    return f"{o}<" + ", ".join(show(x) for x in a) + ">"


def spelled(t, b):
    """a small structure some of whose fields were set, field by field"""
    new = {}
    while t.op == "upd":
        new[t.a[1]] = t.a[2]
        t = t.a[0]
    n = next((n for n in new if isinstance(n, FName)), None)
    ad = ADTS.get(n.adt) if n is not None else None
    if not ad:
        return None
    v = n.split("@")[0] if "@" in n else ""
    fs = [f[0] for f in next((fs for vn, fs in ad["variants"] if vn == v or not v), ())]
    pre = v + "@" if v else ""
    if not fs or len(fs) > 8 or set(new) - {pre + f for f in fs} or (ad["kind"] == "enum") != bool(v):
        return None
    old = lambda f: b.a[3 + b.a[2].index(f)] if b.op == "agg" and f in b.a[2] else mk("pay", b, v, f) if v else mk("fld", b, f)
    vals = [new.get(pre + f) or old(f) for f in fs]
    return show(agg(n.adt, v, fs, *vals))


def subterms(t, seen=None):
    if seen is None:
        seen = set()
    st = [t]
    while st:
        x = st.pop()
        if not isinstance(x, T) or x in seen:
            if isinstance(x, (tuple, frozenset)):
                st.extend(x)
            continue
        seen.add(x)
        st.extend(x.a)
    return seen


def contains(t, u):
    return u in subterms(t)


def cat(*parts):
    out = []
    for p in parts:
        if p.op == "coll" and len(p.a) == 1 and p.a[0] is k(""):
            continue
        if p is k(""):
            continue
        for q in (p.a if p.op == "cat" else (p,)):
            if q.op == "k" and isinstance(q.a[1], str) and out and out[-1].op == "k" and isinstance(out[-1].a[1], str):
                out[-1] = k(out[-1].a[1] + q.a[1])
            else:
                out.append(q)
    if not out:
        return k("")
    if len(out) == 1:
        return out[0]
    return mk("cat", *out)
