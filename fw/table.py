"""Decision tables: the complete set of (path condition -> result) of a function against a specification.

A table row reads   `fact & fact & ... => result [!! event ; event]`.  Both sides are compared as partial
functions of the inputs: two rows whose path conditions do not contradict each other must give the same
result, whatever the order in which the conditions are evaluated.
"""
import functools
import re
from terms import *
from terms import fshow_
from absint import State


def parse_fact(c):
    m = re.match(r"^(.*) (is not|is|==|!=) ([^ ]*|'.*')$", c)
    if not m:
        raise ValueError(f"bad fact: {c}")
    t, op, v = m.groups()
    if op == "is":
        return t, ("v", v)
    if op == "==":
        return t, ("k", v)
    return t, ("nv" if op == "is not" else "nk", frozenset(v.split("/")))


def fact_str(f):
    if f[0] == "v":
        return ("v", f[1])
    if f[0] == "k":
        return ("k", show(f[1]))
    if f[0] == "nv":
        return ("nv", frozenset(f[1]))
    return ("nk", frozenset(show(x) for x in f[1]))


def compat(a, b):
    if a[0] > b[0]:
        a, b = b, a
    x = (a[0], b[0])
    if x == ("v", "v") or x == ("k", "k"):
        return a[1] == b[1]
    if x == ("nv", "v"):
        return b[1] not in a[1]
    if x == ("k", "nk"):
        return a[1] not in b[1]
    return True


def emptied(t):
    """a result with the collections built from elements of a source left empty"""
    while True:
        u = re.sub(r"\{[^{}]*\[\*\][^{}]*\}|\{[^{}]*\u0001[^{}]*\}", "\u0001", t)
        if u == t:
            return t.replace("\u0001", "{}")
        t = u


def outside(t):
    """the text of a term without the collections in it: a condition on a whole collection is not one on an element"""
    while True:
        u = re.sub(r"\{[^{}]*\}", "", t)
        if u == t:
            return t
        t = u


class Row:
    def __init__(self, facts, ret, events, src):
        self.facts, self.ret, self.events, self.src = facts, ret, events, src
        drawn = [t[t.index("(") + 1:-1] + "[*]" for t, f in facts.items() if t.startswith("more") and f == ("k", "true")]
        # an element drawn outside a loop (`more(s)`) is a definite one, not "some element"
        self.ef = {t: f for t, f in facts.items() if "[*]" in t and "[*]" in outside(t) and not any(d in t for d in drawn)}
        self.elem = bool(self.ef)


def implied(f, g):
    """fact f about a term gives fact g about it"""
    if f == g:
        return True
    if f[0] in "vk" and g[0] == "n" + f[0]:
        return f[1] not in g[1]
    return f[0] == g[0] and f[0] in ("nv", "nk") and f[1] >= g[1]


def negate(f):
    return [(x, y) for x, y in ((("nv" if f[0] == "v" else "nk"), frozenset([f[1]])),)] if f[0] in "vk" else \
        [(f[0][1], v) for v in sorted(f[1])]


def covers(facts, rows, depth=8):
    """the element conditions `facts` lie within the union of those of `rows`"""
    rows = [r for r in rows if all(compat(f, facts[t]) for t, f in r.items() if t in facts)]
    for r in rows:
        if all(t in facts and implied(facts[t], f) for t, f in r.items()):
            return True
    if not rows or not depth:
        return False
    t, f = next((t, f) for t, f in rows[0].items() if not (t in facts and implied(facts[t], f)))
    if f == ("k", "true") or f == ("k", "false"):
        alts = [f, ("k", "false" if f[1] == "true" else "true")]
    else:
        alts = [f] + negate(f)
    return all(covers({**facts, t: g}, rows, depth - 1) for g in alts if t not in facts or compat(facts[t], g))


class Glob:
    """text with `_` standing for anything"""

    def __init__(self, r):
        self.parts = re.split(r"(?<![\w'])_(?![\w':])", r)

    def match(self, s):
        ps = self.parts
        if len(ps) == 1:
            return s == ps[0]
        if not s.startswith(ps[0]):
            return False
        i = len(ps[0])
        for p in ps[1:-1]:
            j = s.find(p, i)
            if j < 0:
                return False
            i = j + len(p)
        return len(s) - i >= len(ps[-1]) and s.endswith(ps[-1])


@functools.lru_cache(4096)
def ret_rx(r):
    return Glob(r)


def parse_table(text):
    al, rows = {}, []
    lines = []
    for l in text.split("\n"):
        l = l.strip()
        if not l or l.startswith("#"):
            continue
        if lines and lines[-1].endswith("\\"):
            lines[-1] = lines[-1][:-1].rstrip() + " " + l
        else:
            lines.append(l)
    for l in lines:
        m = re.match(r"^\$(\w+)\s*=\s*(.*)$", l)
        if m and "=>" not in l:
            al[m.group(1)] = expand(m.group(2), al)
            continue
        l = expand(l, al)
        if l.startswith("! "):
            continue
        i = l.index("=>")
        conds, ret = l[:i].strip(), l[i + 2:].strip()
        ev = ()
        if " !! " in ret:
            ret, e = ret.split(" !! ", 1)
            ev = tuple(x.strip() for x in e.split(" ; ") if x.strip())
        facts = dict(parse_fact(c.strip()) for c in conds.split(" & ") if c.strip())
        rows.append(Row(facts, ret.strip(), ev, l))
    return rows


def expand(s, al):
    return re.sub(r"\$(\w+)", lambda m: al.get(m.group(1), m.group(0)), s)


def outcome_rows(outs, st0=None, muts=(), want_events=False):
    rows = []
    for o in outs:
        facts = {}
        for t, f in o.st.facts.items():
            facts[show(t)] = fact_str(f)
        ret = show(o.ret) if o.kind == "ret" and o.ret is not None else o.kind
        for name, cell, init in muts:
            v = o.st.mem.get(cell)
            if v is not None and v is not init:
                ret += f" | {name} := {show(v)}"
        ev = ()
        if want_events:
            ev = tuple(sorted({f"{short(e.path)}({', '.join(map(show, e.args if e.path == 'store' else root_args(e.args)))})" for e in o.st.events}))
        rows.append(Row(facts, ret, ev, None))
    # rows that only differ in irrelevant order
    uniq = {}
    for r in rows:
        uniq[(frozenset(r.facts.items()), r.ret, r.events)] = r
    return list(uniq.values())


def root_args(args):
    """what happened to the receiver before does not name it differently"""
    if not args:
        return args
    t = args[0]
    while True:
        if t.op == "mut":
            t = t.a[1]
        elif t.op in ("loop", "upd"):
            t = t.a[0]
        elif t.op == "coll" and t.a[0].op != "k":
            t = t.a[0]
        else:
            break
    return (t,) + tuple(args[1:])


def fmt(r):
    fs = " & ".join(f"{t} {'is' if f[0] == 'v' else '==' if f[0] == 'k' else 'is not' if f[0] == 'nv' else '!='} "
                    f"{f[1] if isinstance(f[1], str) else '/'.join(sorted(f[1]))}" for t, f in r.facts.items())
    s = f"{fs} => {r.ret}"
    if r.events:
        s += " !! " + " ; ".join(r.events)
    return s.strip()


def consistent(a, b):
    for t, f in a.facts.items():
        g = b.facts.get(t)
        if g is not None and not compat(f, g):
            return False
    return True


EMPTYTEXT = re.compile(r"(?<![\w'])''(?!['\w])")


def rewriting(facts):
    """what the conditions say a term is, as rewriting of text"""
    rs = []
    for t, f in facts.items():
        if f[0] == "v":
            rs.append((re.compile(r"(?<![\w@.'])" + re.escape(f"{f[1]}({t}@{f[1]})")), t))
            if f[1] == "None":
                rs.append((whole(t), "None"))
        elif f[0] == "k":
            if t.startswith("len(") and f[1] == "0":
                rs.append((whole(t[4:-1]), "{}"))
                rs.append((EMPTYTEXT, "{}"))
            else:
                rs.append((whole(t), f[1]))
    return sorted(rs, key=lambda r: -len(r[0].pattern))


def whole(t):
    return re.compile(r"(?<![\w@.'])" + re.escape(t) + r"(?![\w@.\[(+'])")


def rewrite(s, rs):
    for rx, v in rs:
        s = rx.sub(lambda m: v, s)
    return s


def same(act, spec):
    if same_(act.ret, act.events, spec.ret, spec.events):
        return True
    if len(act.events) != len(spec.events) or len(act.ret) + len(spec.ret) > 20000:
        return False
    # what both conditions together say about the parts of the result
    rs = rewriting({**spec.facts, **act.facts})
    return same_(rewrite(act.ret, rs), [rewrite(e, rs) for e in act.events], rewrite(spec.ret, rs), [rewrite(e, rs) for e in spec.events])


def same_(act_ret, act_events, spec_ret, spec_events):
    if not ret_rx(spec_ret).match(act_ret):
        return False
    if len(act_events) != len(spec_events):
        return False
    used = list(act_events)
    for e in spec_events:
        rx = ret_rx(e)
        for u in used:
            if rx.match(u):
                used.remove(u)
                break
        else:
            return False
    return True


def compare(actual, spec):
    """list of mismatches"""
    bad = []
    for a in actual:
        hit = False
        for r in spec:
            if not consistent(a, r):
                continue
            s = same(a, r)
            if a.elem == r.elem or s:
                if s:
                    hit = hit or a.elem == r.elem
                elif any(r2 is not r and r2.elem == r.elem and consistent(r, r2) and consistent(a, r2) and same(a, r2) for r2 in spec):
                    pass        # the specification leaves the choice open here
                else:
                    bad.append(f"under [{' & '.join(sorted(set(t for t in a.facts)))}] the code gives `{a.ret}`"
                               f"{' events ' + str(list(a.events)) if a.events or r.events else ''}, the rule says "
                               f"`{r.ret}`{' events ' + str(list(r.events)) if a.events or r.events else ''} (row: {r.src})")
                    break
        else:
            if not hit or a.elem and not covers(a.ef, [r.ef for r in spec if r.elem and consistent(a, r) and same(a, r)]):
                bad.append(f"no rule allows the path: {fmt(a)}")
    for r in spec:
        m = [a for a in actual if consistent(a, r) and same(a, r) and a.elem == r.elem]
        if not m and any(r2 is not r and consistent(r, r2) and r2.ret != r.ret and emptied(r2.ret) == emptied(r.ret) and
                         [emptied(e) for e in r2.events] == [emptied(e) for e in r.events] for r2 in spec if "[*]" in r2.ret):
            continue        # what another rule says, for an empty source
        if not m or r.elem and not covers(r.ef, [a.ef for a in m]):
            bad.append(f"no path of the code does what the rule demands: {r.src}")
    return bad


def mut_args(F, b, names=None):
    """symbolic arguments; `&mut` parameters become references to observable cells.
    `names` gives the parameters the names a specification uses, by position"""
    st = State()
    args, muts = [], []
    for i in range(b["argc"]):
        l = b["locals"][1 + i]
        n = names[i] if names and i < len(names) else l[1] if len(l) > 1 and l[1] else f"arg{i}"
        v = inp(n)
        if l[0].startswith("&mut") or re.match(r"^&'\w+ mut", l[0]):
            cell = ("arg", n)
            st.mem[cell] = v
            args.append(mk("ref", cell, (), 1))
            muts.append((n, cell, v))
        else:
            args.append(v)
    return st, args, muts


def panic_set(I):
    """the ways the analysed code can panic (arithmetic overflow apart, which release builds do not check)"""
    out = {}
    for p in I.panics:
        kd = p[0]
        if kd.startswith("assert:"):
            if "ound" not in kd:
                continue
            kd = "index"
        out.setdefault(f"{kd} {show(p[1]) if p[1] is not None else ''}".strip(), p[3])
    return out


def allowed_panics(text):
    al, out = {}, []
    for l in text.split("\n"):
        l = l.strip()
        m = re.match(r"^\$(\w+)\s*=\s*(.*)$", l)
        if m and "=>" not in l:
            al[m.group(1)] = expand(m.group(2), al)
        elif l.startswith("! "):
            out.append(ret_rx(expand(l[2:].strip(), al)))
    return out


def new_panics(I, text):
    rxs = allowed_panics(text)
    return [f"a path may panic: {p} at {loc}" for p, loc in panic_set(I).items() if not any(rx.match(p) for rx in rxs)]


def autoalias(lines):
    """shorten a printed table by naming repeated long subterms"""
    al = []
    text = "\n".join(lines)
    while True:
        cands = {}
        for m in re.finditer(r"(?:<[\w:]+ as [\w:<>]+>::)?[\w:<>@.$\[\]\*]+\(", text):
            i = m.start()
            d, j = 0, m.end() - 1
            while j < len(text):
                if text[j] in "([{":
                    d += 1
                elif text[j] in ")]}":
                    d -= 1
                    if d == 0:
                        break
                elif text[j] == "\n":
                    break
                j += 1
            s = text[i:j + 1]
            # extend over projections
            k2 = j + 1
            mm = re.match(r"(@\w+|\.\w+|\[\*\])+", text[k2:])
            if mm:
                s += mm.group(0)
            if len(s) >= 24 and "\n" not in s:
                cands[s] = cands.get(s, 0) + 1
        cands = {s: text.count(s) for s in cands}
        best = [(c * (len(s) - 3), s) for s, c in cands.items() if c >= 2]
        if not best or len(al) > (12 if len(text) < 6000 else 70):
            break
        best = min((x for x in best if x[0] > 60), key=lambda x: len(x[1]), default=None)
        if best is None:
            break
        n = "ABCDEFGHIJKLMNOP"[len(al) % 16] + (str(len(al) // 16) if len(al) >= 16 else "")
        al.append(f"${n} = {best[1]}")
        text = text.replace(best[1], f"${n}")
    return "\n".join(al + [text])


def run_table(F, bid, opts=(), assume=None, models=None):
    """rows of a function; options -oRE (opaque callee), -tRE (record calls), -bN (budget)"""
    from absint import Interp, Budget, Outcome, Ev
    kw = {}
    names = None
    for o in opts:
        if o.startswith("-a"):
            names = o[2:].split(",")
        elif o.startswith("-o"):
            kw.setdefault("opaque", []).append(o[2:])
        elif o.startswith("-t"):
            kw["track"] = o[2:]
        elif o.startswith("-b"):
            kw["budget"] = int(o[2:])
        elif o == "-e":
            kw["effects"] = True
        elif o.startswith("-i"):
            kw["inline"] = o[2:]
        elif o.startswith("-u"):
            kw["unroll"] = int(o[2:])
    body = F.body(bid)
    I = Interp(F, models=models, **kw)
    st, args, muts = mut_args(F, body, names)
    try:
        outs = I.analyse(bid, args, assume, None, st)
        if "async" in F.index[bid] or "Pin<" in body["locals"][0][0] or body["locals"][0][0].startswith("{async "):
            res = []
            for o in outs:
                for s, r in I.poll(o.st, o.ret, ("root",)):
                    res.append(Outcome(s, r))
            outs = res
    except Budget:
        return None, I
    for o in outs:
        o.ret = I.deep(o.st, o.ret)
        for n, c, v in muts:
            if c in o.st.mem:
                o.st.mem[c] = I.deep(o.st, o.st.mem[c])
    try:
        for o in outs:
            fs = dict(o.st.facts)
            o.ret = I.lam(o.st, o.ret)
            for n, c, v in muts:
                if c in o.st.mem:
                    o.st.mem[c] = I.lam(o.st, o.st.mem[c])
            o.st.events = tuple(Ev(e.kind, e.path, tuple(I.lam(o.st, I.deep(o.st, x)) for x in e.args), e.facts, e.loc, e.fn) for e in o.st.events)
            if any(t.hasclos for t in o.st.facts):
                o.st.facts = {I.lam(o.st, t): f for t, f in fs.items()}
                o.st._fs = None
    except Budget:
        return None, I
    if re.match(r"^bool$", body["locals"][0][0]) or body["locals"][0][0].endswith("Output = bool> + 'a>>"):
        o2 = []
        for o in outs:
            for s, v in I.split_bool(o.st, o.ret):
                o2.append(Outcome(s, k(v)))
        outs = o2
    I.outs = outs
    return outcome_rows(outs, None, muts, "track" in kw or "effects" in kw), I


def parse_spec(path):
    """[(name, opts, text)]"""
    import shlex
    out = []
    cur = None
    for l in open(path):
        if l.startswith("## "):
            ws = shlex.split(l[3:])
            opts = [w for w in ws if re.match(r"^-[otbiaue]", w)]
            cur = (" ".join(w for w in ws if w not in opts), opts, [])
            out.append(cur)
        elif cur is not None:
            cur[2].append(l.rstrip("\n"))
    return [(n, o, "\n".join(t)) for n, o, t in out]
