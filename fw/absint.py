"""Abstract interpretation of MIR over a domain of provenance terms with trace partitioning.

Every path through a body (and through the workspace functions and closures it calls) is covered;
loops run to a fixpoint (values that keep changing are widened to `any`).  Values are terms saying
where a value comes from; branches on enum variants, booleans and constants partition the state.
"""
import re, sys
from terms import *
from elems import elem_terms, free_elems
from facts import strip_generics, type_args

sys.setrecursionlimit(100000)


class Budget(Exception):
    pass


GUARD = re.compile(r"Mutex\w*Guard<|RwLock(Write)?Guard<|cell::RefMut<|::RefMut<")
STEPOPS = ("call", "pay", "fld", "in", "any", "bin", "await", "loop", "elem", "cur")


class Restart(Exception):
    """a loop variable was found to change: analyse the frame again with it abstracted from the start"""
    def __init__(self, fid):
        self.fid = fid


def subst_terms(t, m, memo):
    """replace terms by terms everywhere inside t"""
    if isinstance(t, tuple):
        return tuple(subst_terms(x, m, memo) for x in t)
    if isinstance(t, frozenset):
        return frozenset(subst_terms(x, m, memo) for x in t)
    if not isinstance(t, T):
        return t
    r = m.get(t)
    if r is not None:
        return r
    r = memo.get(t)
    if r is None:
        r = mk(t.op, *[subst_terms(x, m, memo) if isinstance(x, (T, tuple, frozenset)) else x for x in t.a])
        if t.op == "cat":
            r = cat(*r.a)
        memo[t] = r
    return r


class State:
    __slots__ = ("mem", "facts", "events", "_fs", "open")

    def __init__(self, mem=None, facts=None, events=()):
        self.mem = mem if mem is not None else {}
        self.facts = facts if facts is not None else {}
        self.events = events
        self._fs = None
        self.open = ()          # the loops being executed: (call site, their element terms)

    def copy(self):
        s = State(dict(self.mem), dict(self.facts), self.events)
        s._fs = self._fs
        s.open = self.open
        return s

    def leave(self, site):
        """the loop at `site` and those inside it are over: forget what was known of their elements"""
        keep = None
        for i, (x, _, kept) in enumerate(self.open):
            if x == site:
                self.open = self.open[:i]
                keep = kept
                break
        allowed = set()
        for _, es, _ in self.open:
            allowed |= es
        # a fact about a whole collection established before the loop stays
        self.drop_elem(lambda t: not elem_terms(t) <= allowed and not (t in keep if keep is not None else free_elems(t) <= allowed))
        return self

    def enter(self, site, elems):
        """a fresh iteration of the loop at `site`"""
        self.leave(site)
        self.open = self.open + ((site, frozenset(elems), frozenset(t for t in self.facts if t.haselem)),)
        return self

    def fsnap(self):
        if self._fs is None:
            self._fs = frozenset(self.facts.items())
        return self._fs

    def set_fact(self, t, f):
        self.facts[t] = f
        self._fs = None

    def drop_elem(self, pred=None):
        ks = [t for t in self.facts if t.haselem and (pred is None or pred(t))]
        if ks:
            for t in ks:
                del self.facts[t]
            self._fs = None

    def key(self, live=None):
        return (frozenset(self.mem.items()), self.fsnap(), self.events)


class Ev:
    """one recorded call"""
    __slots__ = ("path", "args", "facts", "loc", "kind", "_h", "fn")

    def __init__(self, kind, path, args, facts, loc, fn):
        self.kind, self.path, self.args, self.facts, self.loc, self.fn = kind, path, args, facts, loc, fn
        self._h = hash((kind, path, args, facts))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o or (self._h == o._h and self.kind == o.kind and self.path == o.path
                             and self.args == o.args and self.facts == o.facts)

    def __repr__(self):
        return f"{self.kind}:{self.path}({', '.join(map(show, self.args))}) @{self.loc}"


class Outcome:
    def __init__(self, st, ret, kind="ret", loc=None):
        self.st, self.ret, self.kind, self.loc = st, ret, kind, loc

    @property
    def facts(self):
        return self.st.facts

    def __repr__(self):
        fs = ", ".join(f"{show(t)}{fshow(f)}" for t, f in self.st.facts.items())
        return f"[{fs}] -> {self.kind} {show(self.ret) if self.ret is not None else ''}"


def fshow(f):
    if f[0] == "v":
        return " is " + f[1]
    if f[0] == "k":
        return " == " + show(f[1])
    if f[0] == "nv":
        return " is not " + "/".join(sorted(f[1]))
    return " != " + "/".join(sorted(show(x) for x in f[1]))


_canon = {}


def canon(p):
    r = _canon.get(p)
    if r is None:
        r = strip_generics(p)
        _canon[p] = r
    return r


INTS = {x + n for x in "iu" for n in ("8", "16", "32", "64", "128", "size")} | {"char"}


class Interp:
    # decided by their own tables; elsewhere only what they are asked matters
    OPAQUE = (r"core::scalar::Scalar::is_predefined$", r"JsonSchema::from_scalar_type$")

    def __init__(self, F, opaque=(), track=None, effects=False, inline=None, maxdepth=12, budget=400000, models=None,
                 assume_pure=True, hooks=None, unroll=2):
        import models as M
        self.F = F
        self.opaque = [re.compile(x) for x in (*opaque, *self.OPAQUE)]
        self.track = re.compile(track) if track else None
        self.inline = re.compile(inline) if inline else None
        self.maxdepth = maxdepth
        self.unroll = unroll
        self.havoc = {}
        self.budget = budget
        self.steps = 0
        self.models = dict(M.MODELS)
        self.remodels = list(M.REMODELS)
        if models:
            for kx, v in models.items():
                if kx.startswith("re:"):
                    self.remodels.insert(0, (re.compile(kx[3:]), v))
                else:
                    self.models[kx] = v
        self.panics = []
        self.later = 0
        self.effects = effects
        self.lamdepth = 0
        self._lammemo = {}
        self.stack = []
        self.enums = {}
        self.callees = {}
        self.analysed = set()
        self.unknown = set()
        self._opq = {}
        self._mod = {}
        self._kc = {}
        self.hooks = hooks or {}

    # ------------------------------------------------------------------ values
    def field(self, st, b, name):
        if b.op == "agg":
            names = b.a[2]
            if name in names:
                return b.a[3 + names.index(name)]
            return mk("fld", b, name)
        if b.op == "clos":
            i = int(name)
            return b.a[1 + i] if 1 + i < len(b.a) else mk("fld", b, name)
        if b.op == "upd":
            if b.a[1] == name:
                return b.a[2]
            return self.field(st, b.a[0], name)
        if b.op == "pay*":  # downcast marker
            return self.payload(st, b.a[0], b.a[1], name)
        if b.op == "any":
            return b
        if b.op == "gel":
            return self.field(st, b.a[0], name)
        return mk("fld", b, name)

    def payload(self, st, b, variant, name):
        if b.op == "agg":
            if b.a[1] != variant:
                return None
            return self.field(st, b, name)
        if b.op == "upd" and b.a[1] == variant + "@" + name:
            return b.a[2]
        if b.op == "upd":
            return self.payload(st, b.a[0], variant, name)
        if b.op in ("any", "entry"):
            return b
        if b.op == "gel":
            return self.payload(st, b.a[0], variant, name)
        return mk("pay", b, variant, name)

    def read_cell(self, st, cell):
        v = st.mem.get(cell)
        if v is None:
            return mk("uninit", cell)
        return v

    def load_ref(self, st, r, fuel=20):
        """value a ref term points to"""
        while r.op == "ref" and fuel:
            fuel -= 1
            v = self.read_cell(st, r.a[0])
            v = self.walk(st, v, r.a[1])
            if v is None:
                return mk("any")
            return v if v.op != "ref" else v
        return r

    def deref(self, st, v):
        """deref all the way down to a value"""
        fuel = 20
        while v.op == "ref" and fuel:
            fuel -= 1
            nv = self.read_cell(st, v.a[0])
            nv = self.walk(st, nv, v.a[1])
            if nv is None:
                return mk("any")
            v = nv
        return v

    def innermost(self, st, t):
        """the mutable reference at the end of a chain of references"""
        for _ in range(20):
            nx = self.walk(st, self.read_cell(st, t.a[0]), t.a[1])
            if nx is not None and nx.op == "ref" and nx.a[2] == 1:
                t = nx
            else:
                break
        return t

    def deep(self, st, t, fuel=None):
        """replace refs inside a term by what they point to"""
        if fuel is None:
            fuel = [400]
        if not isinstance(t, T) or not t.hasref:
            return t
        fuel[0] -= 1
        if fuel[0] < 0:
            return mk("any", *sorted(t.roots, key=lambda r: r.uid))
        if t.op == "ref":
            v = self.deref(st, t)
            if v.op == "ref":
                return mk("any")
            return self.deep(st, v, fuel)
        a = tuple(self.deep(st, x, fuel) if isinstance(x, T) else
                  (tuple(self.deep(st, y, fuel) if isinstance(y, T) else y for y in x) if isinstance(x, tuple) else x)
                  for x in t.a)
        return mk(t.op, *a)

    def walk(self, st, v, proj):
        """apply a projection (list of tuples) to a value"""
        i = 0
        while i < len(proj):
            p = proj[i]
            if v is None:
                return None
            if p == "*":
                if v.op == "ref":
                    v = self.walk(st, self.read_cell(st, v.a[0]), v.a[1])
                elif v.op == "boxed":
                    v = v.a[0]
            else:
                if v.op == "ref":
                    v = self.deref(st, v)
                if p[0] == "f":
                    v = self.field(st, v, p[1])
                elif p[0] == "v":
                    if i + 1 < len(proj) and proj[i + 1][0] == "f":
                        v = self.payload(st, v, p[1], proj[i + 1][1])
                        i += 1
                    else:
                        v = mk("pay*", v, p[1])
                elif p[0] == "slot":
                    cur = [e for e in v.a[1:] if e.op == "kv" and e.a[0] is p[1]] if v.op == "coll" else []
                    v = cur[0].a[1] if len(cur) == 1 else p[2] if len(p) > 2 else mk("slot", p[1])
                elif p[0] == "i":
                    v = self.index(st, v, p[1] if isinstance(p[1], T) else None)
                elif p[0] == "c":
                    v = self.const_index(st, v, p[1], p[2])
                elif p[0] == "s":
                    if v.op == "agg" and v.a[0] == "[]":
                        vals = v.a[3:]
                        vals = vals[p[1]:len(vals) - p[2]] if p[3] else vals[p[1]:p[2]]
                        v = arr(*vals)
                    else:
                        v = mk("slice", v, p[1], p[2], p[3])
                else:
                    pass
            i += 1
        return v

    def index(self, st, v, i):
        if i is not None and i.op == "k" and v.op == "agg" and v.a[0] == "[]":
            if i.a[1] < len(v.a) - 3:
                return v.a[3 + i.a[1]]
        if v.op == "agg" and v.a[0] == "[]" and len(v.a) == 4:
            return v.a[3]
        return mk("idx", v, i if i is not None else mk("any"))

    def const_index(self, st, v, off, fromend):
        if v.op == "agg" and v.a[0] == "[]":
            vals = v.a[3:]
            j = len(vals) - off if fromend else off
            if 0 <= j < len(vals):
                return vals[j]
        return mk("idx", v, k(-off if fromend else off))

    def place_val(self, st, fid, pl):
        cell = (fid, pl[0])
        v = self.read_cell(st, cell)
        return self.walk(st, v, self.proj(st, fid, pl[1:]))

    def proj(self, st, fid, pr):
        if not pr:
            return ()
        out = []
        for p in pr:
            if p == "*":
                out.append("*")
            elif p[0] == "i":
                out.append(("i", self.deref(st, self.read_cell(st, (fid, p[1])))))
            elif len(p) > 2 and p[0] == "f":
                out.append(("f", fname(p[1], p[2])))
            else:
                out.append(tuple(p))
        return tuple(out)

    def place_ref(self, st, fid, pl, mut):
        """(cell, proj) a place denotes, or a value when it lives behind an opaque pointer"""
        cell = (fid, pl[0])
        v = self.read_cell(st, cell)
        path = ()
        for p in self.proj(st, fid, pl[1:]):
            if p == "*":
                cur = self.walk(st, v, path)
                if cur is None:
                    return None
                if cur.op == "ref":
                    cell, path = cur.a[0], cur.a[1]
                    v = self.read_cell(st, cell)
                # opaque pointers: the pointee lives where the pointer lives
                continue
            cur = self.walk(st, v, path)
            if cur is not None and cur.op == "ref":
                cell, path = cur.a[0], cur.a[1]
                v = self.read_cell(st, cell)
            path = path + (p,)
        return mk("ref", cell, path, mut)

    def write(self, st, cell, path, val):
        if not path:
            st.mem[cell] = val
            return
        base = self.read_cell(st, cell)
        st.mem[cell] = self.update(st, base, list(path), val)

    def update(self, st, base, path, val):
        if not path:
            return val
        p = path[0]
        if p == "*":
            if base.op == "ref":
                self.write(st, base.a[0], base.a[1] + tuple(path[1:]), val)
                return base
            return self.update(st, base, path[1:], val)
        if base.op == "ref":
            self.write(st, base.a[0], base.a[1] + tuple(path), val)
            return base
        if p[0] == "v":
            if len(path) > 1 and path[1][0] == "f":
                if base.op == "agg":
                    return self.update(st, base, path[1:], val)
                sub = self.payload(st, base, p[1], path[1][1])
                if sub is None:
                    return base
                nv = self.update(st, sub, path[2:], val)
                n = path[1][1]
                return self.mkupd(base, fname(p[1] + "@" + n, n.adt) if isinstance(n, FName) else p[1] + "@" + n, nv)
            return self.update(st, base, path[1:], val)
        if p[0] == "f":
            sub = self.field(st, base, p[1])
            nv = self.update(st, sub, path[1:], val)
            if base.op == "agg" and p[1] in base.a[2]:
                vals = list(base.a[3:])
                vals[base.a[2].index(p[1])] = nv
                return mk("agg", base.a[0], base.a[1], base.a[2], *vals)
            if base.op == "clos":
                vals = list(base.a[1:])
                i = int(p[1])
                if i < len(vals):
                    vals[i] = nv
                    return mk("clos", base.a[0], *vals)
            if base.op == "uninit":
                return mk("agg", "?", "", (p[1],), nv)
            if base.op == "agg" and base.a[0] == "?":
                return mk("agg", "?", "", base.a[2] + (p[1],), *(base.a[3:] + (nv,)))
            return self.mkupd(base, p[1], nv)
        if p[0] == "slot":
            sub = p[2] if len(p) > 2 else mk("slot", p[1])
            found = len(p) > 2 and p[1] is p[2]        # an element looked for
            if base.op == "coll" and (found or len(path) > 1):
                cur = [e for e in base.a[1:] if e.op == "kv" and e.a[0] is p[1]]
                if len(cur) == 1:
                    sub = cur[0].a[1]
                    if found:
                        base = mk("coll", *[e for e in base.a if e is not cur[0]])
            nv = self.update(st, sub, path[1:], val)
            if not found or base.op != "coll" or base.a[0].op != "k":     # else an element of the collection, changed
                nv = mk("kv", p[1], nv)
            return mk("coll", base, nv) if base.op != "coll" else self.coll_add(base, nv)
        if p[0] in ("i", "c"):
            sub = self.index(st, base, p[1]) if p[0] == "i" else self.const_index(st, base, p[1], p[2])
            nv = self.update(st, sub, path[1:], val)
            if base.op == "agg" and base.a[0] == "[]":
                i = p[1].a[1] if p[0] == "i" and isinstance(p[1], T) and p[1].op == "k" else p[1] if p[0] == "c" and not p[2] else None
                if isinstance(i, int) and 0 <= i < len(base.a) - 3:
                    vals = list(base.a[3:])
                    vals[i] = nv
                    return arr(*vals)
            return mk("coll", base, nv) if base.op != "coll" else self.coll_add(base, nv)
        return mk("mut", "?", base, val)

    def mkupd(self, base, name, nv):
        # flatten repeated update of the same field
        chain = []
        b = base
        while b.op == "upd" and b.a[1] != name:
            chain.append(b)
            b = b.a[0]
        if b.op == "upd":
            b = b.a[0]
        for c in reversed(chain):
            b = mk("upd", b, c.a[1], c.a[2])
        return mk("upd", b, name, nv)

    def coll_add(self, c, *elems):
        base, els = c.a[0], set(c.a[1:])
        els.update(elems)
        return mk("coll", base, *sorted(els, key=lambda t: t.uid))

    # ------------------------------------------------------------------ constants
    def const(self, st, c, subst):
        if "fn" in c:
            cc = dict(c)
            if subst:
                cc = self.subst_callee(cc, subst)
            key = (cc.get("res") or cc["fn"], tuple(cc.get("ga", ())), cc.get("self"))
            t = mk("fn", key[0], key[1], key[2] or "")
            self.callees[t] = cc
            return t
        if "closure" in c:
            return mk("clos", c["closure"])
        if "p" in c:
            return mk("promoted?", c["p"])
        if "v" in c:
            v = c["v"]
            ty = c.get("ty", "")
            if v is None:
                return UNIT
            if ty in ("f64", "f32"):
                return mk("k", "f", v)
            if ty == "char":
                return mk("k", "c", v)
            if isinstance(v, str) and re.match(r"^[iu]\d|^[iu]size", ty):
                v = int(v)
            return k(v)
        if "variant" in c:
            return agg(strip_generics(re.sub(r"<.*", "", c["ty"])), c["variant"], ())
        if "u" in c:
            return self.named_const(c["u"], c.get("ty", ""))
        ty = c.get("ty", "")
        # zero sized values
        if ty == "()":
            return UNIT
        return mk("const", ty)

    def named_const(self, path, ty):
        r = self._kc.get(path)
        if r is not None:
            return r
        if path.startswith("tracing_core::metadata::Level::"):
            v = path.rsplit("::", 1)[-1].capitalize()
            r = self._kc[path] = agg("tracing_core::metadata::Level", "", ["0"], agg("tracing_core::metadata::LevelInner", v, []))
            return r
        r = mk("const", path)
        self._kc[path] = r
        if path in self.F.index and self.F.index[path]["kind"] == "const" and not re.search(r"__CALLSITE|tracing", path):
            try:
                outs = self.run_body(path, [], State(), {}, ("const", path))
                if len(outs) == 1:
                    v = self.deep(outs[0].st, outs[0].ret)
                    r = v
                    self._kc[path] = r
            except (Budget, RecursionError, KeyError):
                pass
        return r

    def subst_ty(self, t, subst):
        if t in subst:
            return subst[t]
        return re.sub(r"\b(" + "|".join(map(re.escape, subst)) + r")\b(?!::)", lambda m: subst[m.group(1)], t) if subst else t

    def subst_callee(self, cc, subst):
        cc = dict(cc)
        if "ga" in cc:
            cc["ga"] = [self.subst_ty(x, subst) for x in cc["ga"]]
        if "ro" in cc:
            cc["ro"] = [self.subst_ty(x, subst) for x in cc["ro"]]
        if "self" in cc:
            s0 = cc["self"]
            cc["self"] = self.subst_ty(s0, subst)
            if "trait" in cc and "res" not in cc and cc["self"] != s0:
                r = self.resolve_impl(cc["trait"], cc["self"], cc["fn"].rsplit("::", 1)[-1])
                if r:
                    cc["res"] = r
                    cc["ws"] = 1
        return cc

    def resolve_impl(self, trait, selfty, name):
        def norm(s):
            return re.sub(r"&?'\w+\s*,?\s*|<'_>|'\w+ ?", "", s)
        ns = norm(selfty)
        for im in self.F.impl_by.get(trait, ()):
            if norm(im["self"]) == ns and name in im["items"]:
                return im["items"][name]
        return None

    def operand(self, st, fid, o, body, subst):
        if o[0] == "k":
            c = o[1]
            if "p" in c and "fn" not in c:
                return self.promoted(st, fid, body, c["p"], subst)
            return self.const(st, c, subst)
        v = self.place_val(st, fid, o[1])
        return v

    def promoted(self, st, fid, body, i, subst):
        key = ("prom", body["id"], i)
        r = self._kc.get(key)
        if r is None:
            pb = body["promoted"][i]
            pb = dict(pb, id=body["id"] + f"::promoted{i}", promoted=[])
            try:
                outs = self.exec(pb, [], State(), subst, ("p", body["id"], i))
                r = self.deep(outs[0].st, outs[0].ret) if len(outs) == 1 else mk("const", f"{body['id']}#p{i}")
            except Exception:
                r = mk("const", f"{body['id']}#p{i}")
            self._kc[key] = r
        return r

    # ------------------------------------------------------------------ boolean algebra
    def negate(self, t):
        if t.op == "not":
            return t.a[0]
        if t.op == "k":
            return k(not t.a[1])
        return mk("not", t)

    CMP = {"Eq", "Ne", "Lt", "Le", "Gt", "Ge"}

    def binop(self, st, op, a, b):
        a, b = self.deref(st, a), self.deref(st, b)
        if op.endswith("WithOverflow"):
            return tup(self.binop(st, op[:-12], a, b), FALSE)
        if op.endswith("Unchecked"):
            op = op[:-9]
        if a.op == "k" and b.op == "k":
            x, y = a.a[1], b.a[1]
            if op == "Eq":
                return k(x == y)
            if op == "Ne":
                return k(x != y)
            if a.a[0] == "f" or b.a[0] == "f":
                return mk("bin", op, a, b)
            try:
                if op == "Lt":
                    return k(x < y)
                if op == "Le":
                    return k(x <= y)
                if op == "Gt":
                    return k(x > y)
                if op == "Ge":
                    return k(x >= y)
                if op == "Add":
                    return k(x + y)
                if op == "Sub":
                    return k(x - y)
                if op == "Mul":
                    return k(x * y)
                if op == "BitOr":
                    return k(x | y)
                if op == "BitAnd":
                    return k(x & y)
                if op == "BitXor":
                    return k(x ^ y)
                if op == "Shl":
                    return k(x << y)
                if op == "Shr":
                    return k(x >> y)
                if op == "Rem" and y:
                    return k(x % y)
                if op == "Div" and y:
                    return k(x // y)
            except TypeError:
                pass
        if op == "Ne":
            return self.negate(self.binop(st, "Eq", a, b))
        if op == "Eq":
            if a is b and a.op != "any":
                return TRUE
            if a.op == "agg" and b.op == "agg" and a.a[1] != b.a[1] and a.a[0] == b.a[0]:
                return FALSE
            for x, y in ((a, b), (b, a)):
                if x is TRUE:
                    return y
                if x is FALSE:
                    return self.negate(y)
            if a.op == "k" or (b.op != "k" and b.uid < a.uid):
                a, b = b, a
        if op == "Gt":
            op, a, b = "Lt", b, a
        if op == "Ge":  # a >= b  ==  !(a < b)
            return self.negate(mk("bin", "Lt", a, b))
        if op == "Le":  # a <= b == !(b < a)
            return self.negate(mk("bin", "Lt", b, a))
        if op in ("BitAnd", "BitOr"):
            for x, y in ((a, b), (b, a)):
                if x is TRUE:
                    return y if op == "BitAnd" else TRUE
                if x is FALSE:
                    return FALSE if op == "BitAnd" else y
            if a is b:
                return a
        if op in ("Add", "Mul", "BitAnd", "BitOr", "BitXor") and (a.op == "k" or (b.op != "k" and b.uid < a.uid)):
            a, b = b, a
        return mk("bin", op, a, b)

    def known(self, st, t):
        """constant a scalar term is known to equal under the facts, or None"""
        if t.op == "k":
            return t
        f = st.facts.get(t)
        if f is not None and f[0] == "k":
            return f[1]
        if t.op == "not":
            r = self.known(st, t.a[0])
            return None if r is None else k(not r.a[1])
        if t.op == "bin" and t.a[0] == "Eq":
            a, b = t.a[1], t.a[2]
            if b.op == "k":
                f = st.facts.get(a)
                if f is not None:
                    if f[0] == "k":
                        return k(f[1] is b)
                    if f[0] == "nk" and b in f[1]:
                        return FALSE
            if b.op == "agg" and len(b.a) == 3 and b.a[1]:
                va = self.variant_of(st, a)
                if va is not None:
                    return k(va == b.a[1])
        if t.op == "bin" and t.a[0] in ("BitAnd", "BitOr"):
            x, y = self.known(st, t.a[1]), self.known(st, t.a[2])
            if t.a[0] == "BitAnd":
                if x is FALSE or y is FALSE:
                    return FALSE
                if x is TRUE and y is TRUE:
                    return TRUE
            else:
                if x is TRUE or y is TRUE:
                    return TRUE
                if x is FALSE and y is FALSE:
                    return FALSE
        return None

    def assume(self, st, t, val):
        """add the fact t == val (bool) in place; False when contradictory"""
        kn = self.known(st, t)
        if kn is not None:
            return kn.a[1] == val
        if t.op == "not":
            return self.assume(st, t.a[0], not val)
        if t.op == "bin" and t.a[0] == "Eq" and t.a[2].op == "k":
            a, b = t.a[1], t.a[2]
            if val:
                st.set_fact(a, ("k", b))
                return True
            f = st.facts.get(a)
            ex = f[1] if f is not None and f[0] == "nk" else frozenset()
            st.set_fact(a, ("nk", ex | {b}))
            return True
        if t.op == "bin" and t.a[0] == "BitAnd" and val:
            return self.assume(st, t.a[1], True) and self.assume(st, t.a[2], True)
        if t.op == "bin" and t.a[0] == "BitOr" and not val:
            return self.assume(st, t.a[1], False) and self.assume(st, t.a[2], False)
        st.set_fact(t, ("k", k(val)))
        return True

    def split_bool(self, st, t):
        """[(state, True/False)]"""
        t = self.deref(st, t)
        kn = self.known(st, t)
        if kn is not None:
            return [(st, bool(kn.a[1]))]
        out = []
        for v in (True, False):
            s = st.copy()
            if self.assume(s, t, v):
                out.append((s, v))
        return out

    # ------------------------------------------------------------------ variants
    def variant_of(self, st, t):
        if t.op == "agg":
            return t.a[1]
        if t.op == "gel":
            return self.variant_of(st, t.a[0])
        b = t
        while b.op == "upd":
            b = b.a[0]
        f = st.facts.get(b)
        if f is not None and f[0] == "v":
            return f[1]
        return None

    def split_variant(self, st, t, allv):
        """fork on the variant of a value: [(state, variant)]"""
        t = self.deref(st, t)
        v = self.variant_of(st, t)
        if v is not None:
            return [(st, v)]
        b = t
        while b.op == "upd":
            b = b.a[0]
        f = st.facts.get(b)
        ex = f[1] if f is not None and f[0] == "nv" else frozenset()
        out = []
        for v in allv:
            if v in ex:
                continue
            s = st.copy()
            s.set_fact(b, ("v", v))
            out.append((s, v))
        return out

    def opt(self, st, t):
        """fork an Option value: [(state, payload or None)]"""
        t = self.deref(st, t)
        out = []
        for s, v in self.split_variant(st, t, ("Some", "None")):
            out.append((s, self.payload(s, t, "Some", "0") if v == "Some" else None))
        return out

    def res(self, st, t):
        """fork a Result value: [(state, 'Ok'/'Err', payload)]"""
        t = self.deref(st, t)
        return [(s, v, self.payload(s, t, v, "0")) for s, v in self.split_variant(st, t, ("Ok", "Err"))]

    # ------------------------------------------------------------------ execution
    def analyse(self, bid, args=None, assume=None, subst=None, st=None):
        """run a function on symbolic arguments; returns outcomes"""
        self.panics = []
        b = self.F.body(bid)
        if args is None:
            args = []
            for i in range(b["argc"]):
                l = b["locals"][1 + i]
                args.append(inp(l[1] if len(l) > 1 else f"arg{i}"))
        st = st or State()
        for t, f in (assume or {}).items():
            st.set_fact(t, f)
        outs = self.run_body(bid, args, st, subst or {}, ("root",))
        return outs

    def run_async(self, bid, args=None, assume=None, subst=None):
        """run an async fn to completion"""
        outs = self.analyse(bid, args, assume, subst)
        pan = self.panics
        res = []
        for o in outs:
            for s, r in self.poll(o.st, o.ret, ("root",)):
                r = self.deep(s, r)
                res.append(Outcome(s, r))
        return res

    def run_body(self, bid, args, st, subst, ctx):
        b = self.F.body(bid)
        self.analysed.add(bid)
        fr = (bid, ctx)
        if len(self.stack) > 60:
            raise Budget("stack")
        self.stack.append(bid)
        try:
            return self.exec(b, args, st, subst, ctx)
        finally:
            self.stack.pop()

    def exec(self, b, args, st, subst, ctx):
        fid = (b["id"], ctx)
        while True:
            np, sub, cur = len(self.panics), getattr(self, "_subst_top", {}), getattr(self, "cur", None)
            depth = len(self.stack)
            try:
                return self.exec_frame(b, args, st, subst, ctx, fid)
            except Restart as r:
                if r.fid != fid:
                    raise
                del self.panics[np:]
                del self.stack[depth:]
                self._subst_top, self.cur = sub, cur

    def loop_body(self, b, head):
        """the blocks on a cycle through `head`"""
        c = b.setdefault("_lbody", {})
        r = c.get(head)
        if r is None:
            succ = [self.succs(x["t"]) for x in b["blocks"]]
            pred = {}
            for i, ss in enumerate(succ):
                for j in ss:
                    pred.setdefault(j, []).append(i)
            fwd, todo = set(), [head]
            while todo:
                for m in succ[todo.pop()]:
                    if m not in fwd:
                        fwd.add(m)
                        todo.append(m)
            # blocks that reach head without leaving through another entry
            back, todo = {head}, [i for i in pred.get(head, ()) if i in fwd]
            while todo:
                i = todo.pop()
                if i not in back:
                    back.add(i)
                    todo += [j for j in pred.get(i, ()) if j in fwd]
            r = c[head] = back & (fwd | {head})
        return r

    def guarded_step(self, s, before, pv, v):
        """a variable set in an iteration because of what the element at hand is"""
        def jumps(p, v):
            if p.op == "agg" == v.op and p.a[:3] == v.a[:3]:
                return any(jumps(x, y) for x, y in zip(p.a[3:], v.a[3:]) if x is not y)
            return v.op == "agg" and v.a[0] != "[]" and p.op in ("agg", "k", *STEPOPS)
        if not jumps(pv, v):
            return False
        return any(t.haselem and free_elems(t) and before.get(t) != f for t, f in s.facts.items())

    def loop_flags(self, s, fid, b, bb):
        """the valuation of the boolean locals alive at a loop head"""
        live = self.live_at(b)[bb]
        return tuple((l, s.mem[(fid, l)] is TRUE) for l in sorted(live)
                     if len(b["locals"][l]) > 1 and b["locals"][l][0] == "bool" and s.mem.get((fid, l)) in (TRUE, FALSE))

    def abstract_loop_vars(self, s, fid, b, bb, backedge, steps):
        flags = self.loop_flags(s, fid, b, bb)
        hst = ("hst", fid, bb)
        prior = tuple((t.a[0], t.a[1]) for t in s.mem[hst].a) if backedge and hst in s.mem else flags
        if flags or hst in s.mem:
            s.mem[hst] = mk("flags", *[mk("flag", l, v) for l, v in flags])
        for n, local in enumerate(sorted(self.havoc[(b["id"], bb)], key=repr)):
            cell = (fid, local) if isinstance(local, int) else local
            v = s.mem.get(cell)
            if v is None:
                continue
            if backedge:
                c = s.mem.get(("cur", fid, bb, local))
                if c is None or v is c:
                    continue
                v = self.deep(s, v)
                if v is not c or prior != flags:
                    steps.setdefault(c, {})[(self.loop_step(s, c, v), prior, flags)] = 1
            else:
                c = mk("cur", self.deep(s, v), n)
                steps.setdefault(("init", c), set()).add(flags)
                s.mem[("cur", fid, bb, local)] = c
            s.mem[cell] = c
            s.drop_elem(lambda t: c in subterms(t))

    def loop_step(self, s, c, v):
        if v.op == "cat":
            v = mk("cat", *[x.a[0] if x.op == "gel" else x.a[1].a[0] if x.op == "coll" and len(x.a) == 2 and x.a[0] is k("") and x.a[1].op == "gel" else x for x in v.a])
        if v.op == "agg" and len(v.a) > 3 and v.a[0] != "[]" and all(x.op == "fld" and x.a[0] is c and x.a[1] == n for x, n in zip(v.a[3:], v.a[2])):
            v = c       # every field is what it was: nothing changed
        while v.op == "upd" and v.a[2].op == "fld" and v.a[2].a == (c, v.a[1]):
            v = v.a[0]
        g = tuple((t, f) for t, f in s.facts.items() if free_elems(t) or c in subterms(t))
        return mk("gel", v, frozenset(g)) if g else v

    def join_term(self, ps, init):
        """pieces with a separator between them, in whichever way the first or the last piece is told apart"""
        if len(ps) != 2:
            return None
        (q, qf), (p, pf) = sorted(ps, key=lambda x: len(x[0]))
        if len(p) != len(q) + 1:
            return None
        only_p, only_q = pf - qf, qf - pf
        if len(only_p) != 1 or len(only_q) != 1:
            return None
        (t, f), (t2, f2) = next(iter(only_p)), next(iter(only_q))
        if t is not t2:
            return None
        known = lambda f: f in (("k", TRUE), ("k", FALSE))
        first = last = None
        if t.op == "call" and t.a[0] == "len" and t.a[1:2] == (self.HOLE,):
            if init is k("") or init.op == "coll" and len(init.a) == 1:
                first = f2 == ("k", k(0))
        elif t.op == "idxof":
            first = f2 == ("k", k(0))
        elif t.op == "bin" and known(f) and any(x.op == "idxof" for x in subterms(t)):
            op, a, b = t.a[0], t.a[1], t.a[2]
            pos = f == ("k", TRUE)
            one_less = lambda x: x.op == "bin" and x.a[0] == "Sub" and x.a[1].op == "call" and x.a[1].a[0] == "len" and x.a[2] is k(1)
            inc = lambda x: x.op == "bin" and x.a[0] == "Add" and x.a[1].op == "idxof" and x.a[2] is k(1)
            ln = lambda x: x.op == "call" and x.a[0] == "len"
            if op == "Lt" and a is k(0) and b.op == "idxof":
                first = pos
            elif op == "Eq" and {a.op, b.op} == {"idxof", "k"} and k(0) in (a, b):
                first = not pos
            elif op == "Lt" and (a.op == "idxof" and one_less(b) or inc(a) and ln(b)):
                last = pos
            elif op == "Eq" and (a.op == "idxof" and one_less(b) or b.op == "idxof" and one_less(a) or inc(a) and ln(b) or ln(a) and inc(b)):
                last = not pos
        if first and p[1:] == q:
            sep = p[0]
        elif last and p[:-1] == q:
            sep = p[-1]
        else:
            return None
        x = q[0] if len(q) == 1 else mk("cat", *q)
        g = pf & qf
        if sep.op == "in" and len(str(sep.a[0])) == 1:
            sep = k(sep.a[0])
        return mk("call", "join", mk("coll", k(""), mk("gel", x, g) if g else x), sep)

    def loop_term(self, init, els):
        """the value of a loop variable from its start and its steps (over HOLE)"""
        ps = []
        for x in els:
            v, fs = (x.a[0], x.a[1]) if x.op == "gel" else (x, frozenset())
            if v.op != "cat" or v.a[0] is not self.HOLE or any(self.HOLE in subterms(y) for y in v.a[1:]):
                ps = None
                break
            ps.append((list(v.a[1:]), fs))
        if ps:
            # text put together piece by piece
            r = self.join_term(ps, init)
            if r is None and not any(self.HOLE in subterms(t) or t.op == "in" and t.a[0] == "state" for _, fs in ps for t, _f in fs):
                r = mk("coll", k(""), *[mk("gel", one, fs) if fs else one for v, fs in ps for one in [v[0] if len(v) == 1 else mk("cat", *v)]])
            if r is not None:
                return cat(init, r)
        return mk("loop", init, els[0] if len(els) == 1 else self.coll_add(mk("coll", k("")), *els))

    def loop_states(self, c, ss, inits):
        """the steps of a loop variable; where a boolean local that is kept from one iteration to the next changes, each
        step names the state it starts in and the one it leads to (0 is the state the loop starts in)"""
        vals = {}
        for f in [*inits, *[x for _, p, q in ss for x in (p, q)]]:
            for l, v in f:
                vals.setdefault(l, set()).add(v)
        vary = sorted(l for l, v in vals.items() if len(v) > 1)
        if not vary or len(inits) != 1:
            return dict.fromkeys(st for st, _, _ in ss if (st.a[0] if st.op == "gel" else st) is not c)
        proj = lambda f: tuple(dict(f).get(l) for l in vary)
        first = proj(next(iter(inits)))
        diff = lambda p: tuple(x != y for x, y in zip(p, first))
        nos = {p: i for i, p in enumerate(sorted({first, *[proj(x) for _, p, q in ss for x in (p, q)]}, key=diff))}
        out = {}
        for st, p, q in ss:
            v, fs = (st.a[0], st.a[1]) if st.op == "gel" else (st, frozenset())
            a, z = nos[proj(p)], nos[proj(q)]
            if a != z:
                v = mk("call", "goto", v, k(z))
            elif v is c:
                continue
            out[mk("gel", v, fs | {(mk("in", "state"), ("k", k(a)))})] = 1
        return out

    def close_loops(self, outs, steps):
        """name what a loop computed by its start and its steps"""
        inits = {c[1]: f for c, f in steps.items() if isinstance(c, tuple)}
        steps = {c: self.loop_states(c, ss, inits.get(c, ())) for c, ss in steps.items() if not isinstance(c, tuple)}
        def close(c, active):
            m = {c2: self.HOLE for c2 in active}
            for c2 in steps:
                if c2 not in active and c2 is not c and any(c2 in subterms(x) for x in (c.a[0], *steps[c])):
                    m[c2] = close(c2, active | {c})
            init = subst_terms(c.a[0], m, {})
            m[c] = self.HOLE
            memo = {}
            return self.loop_term(init, [subst_terms(x, m, memo) for x in steps[c]])
        full = {c: close(c, frozenset()) for c in sorted(steps, key=lambda t: t.uid)}
        memo = {}
        sub = lambda t: subst_terms(t, full, memo)
        for o in outs:
            st = o.st.copy()
            st.mem = {c: sub(v) for c, v in st.mem.items()}
            fs = {}
            for t, f in st.facts.items():
                fs[sub(t)] = sub(f)
            st.facts, st._fs = fs, None
            st.events = tuple(Ev(e.kind, e.path, sub(e.args), sub(e.facts), e.loc, e.fn) for e in st.events)
            o.st, o.ret = st, sub(o.ret) if o.ret is not None else None
        self.panics = [(p[0], sub(p[1]) if p[1] is not None else None) + tuple(p[2:]) for p in self.panics]

    def exec_frame(self, b, args, st, subst, ctx, fid):
        st = st.copy()
        for i, a in enumerate(args):
            st.mem[(fid, 1 + i)] = a
        outs, seen_out = [], set()
        work = [(0, st, (), -1)]
        steps = {}
        seen = set()
        joins = {}
        blocks = b["blocks"]
        heads = self.loop_heads(b)
        exits = self.exits(b) if heads else {}
        pending = {}
        released = False
        while work or pending:
            if not work:
                # the innermost loop left is finished: go on from the states it ends in
                hd = max((b["_nest"][x[0]], x[0]) for x in pending)[1]
                for x in [x for x in pending if x[0] == hd]:
                    work += [(x[2], s, v, x[1], True) for s, v in reversed(pending.pop(x))]
                work.reverse()
            bb, s, visits, pb, *released = work.pop()
            nbb = bb
            while True:
                bb = nbb
                if (pb, bb) in exits and not released:
                    self.gc(s, fid, b, bb)
                    grp = pending.setdefault((exits[pb, bb], pb, bb, s.fsnap(),
                                              tuple((x[0], x[1]) for x in visits if x[0] != exits[pb, bb])), [])
                    for gi, (o2, v2) in enumerate(grp):
                        je = self.join_events(o2.events, s.events)
                        jm = self.join_mem(o2.mem, s.mem) if je is not None else None
                        if jm is not None:
                            o2 = o2.copy()
                            o2.mem = jm
                            o2.events = je
                            grp[gi] = (o2, v2)
                            break
                    else:
                        grp.append((s, visits))
                    break
                released = False
                self.steps += 1
                if self.steps > self.budget:
                    raise Budget(b["id"])
                if bb in heads:
                    self.gc(s, fid, b, bb)
                    if (b["id"], bb) in self.havoc:
                        self.abstract_loop_vars(s, fid, b, bb, pb in self.loop_body(b, bb), steps)
                    n = 0
                    prev = None
                    for (hb, c, pm, pf) in visits:
                        if hb == bb:
                            n, prev, pfacts = c, pm, pf
                    if n >= 1 and prev is not None and pb in self.loop_body(b, bb):
                        for c, v in list(s.mem.items()):
                            pv = prev.get(c)
                            if c[0] == fid and pv is not None and pv is not v and (v.op == "ref" or pv.op == "ref") \
                                    and re.match(r"&(?!('\S+ )?mut )", b["locals"][c[1]][0]):
                                # a shared reference stands for the value it refers to
                                v = self.deep(s, v)
                                pv = self.deep(State(prev), pv)
                            if pv is None or pv is v or c[0] == "cur":
                                continue
                            name = c[1] if c[0] == fid else c
                            if (c[0] == fid and v.op in STEPOPS and pv.op in STEPOPS or v.op == "cat" or c[0] == fid and self.guarded_step(s, pfacts, pv, v)) \
                                    and name not in self.havoc.get((b["id"], bb), ()) and self.template(pv, v) is None:
                                self.havoc.setdefault((b["id"], bb), set()).add(name)
                                raise Restart(fid)
                    self._guards = s.facts if pb in self.loop_body(b, bb) else None
                    if n == 1 and prev is not None:
                        for c, v in list(s.mem.items()):
                            pv = prev.get(c)
                            if pv is not None and pv is not v and c[0] not in ("el", "hst"):
                                t = self.template(pv, v)
                                if t is not None:
                                    s.mem[c] = t
                    if n >= self.unroll and prev is not None:
                        # widen what keeps changing
                        for c, v in list(s.mem.items()):
                            pv = prev.get(c)
                            # (the element at hand belongs to one iteration only)
                            if pv is not None and pv is not v and c[0] not in ("el", "hst"):
                                s.mem[c] = self.widen(pv, v)
                    self._guards = None
                    if n > 12:
                        break
                    key = (bb, s.key())
                    if key in seen:
                        break
                    seen.add(key)
                    # states that differ only in how much a collection has grown are joined
                    grp = joins.setdefault((bb, s.fsnap(), s.events), [])
                    stop = False
                    for gi, om in enumerate(grp):
                        jm = self.join_mem(om, s.mem)
                        if jm is not None:
                            if all(jm.get(c) is v for c, v in om.items()) and len(jm) == len(om):
                                stop = True
                            else:
                                grp[gi] = jm
                                s.mem = dict(jm)
                            break
                    else:
                        grp.append(dict(s.mem))
                    if stop:
                        break
                    visits = tuple(x for x in visits if x[0] != bb) + ((bb, n + 1, dict(s.mem), dict(s.facts)),)
                pb = bb
                blk = blocks[bb]
                feasible = True
                for stm in blk["s"]:
                    if not self.stmt(s, fid, stm, b, subst):
                        feasible = False
                        break
                if not feasible:
                    break
                t = blk["t"]
                o = t[0]
                if o == "goto":
                    nbb = t[1]
                    continue
                if o == "ret":
                    r = s.mem.get((fid, 0), UNIT)
                    r = self.escape(s, r, fid)
                    for c, v in list(s.mem.items()):
                        if c[0] != fid and v.hasref:
                            s.mem[c] = self.escape(s, v, fid)
                    for c in [c for c in s.mem if c[0] == fid or (c[0] == "cur" and c[1] == fid)]:
                        del s.mem[c]
                    kx = (s.key(), r)
                    if kx not in seen_out:
                        seen_out.add(kx)
                        for o2 in outs if heads else ():
                            if o2.st.events == s.events and o2.st.fsnap() == s.fsnap():
                                jr = self.join_val(o2.ret, r)
                                jm = self.join_mem(o2.st.mem, s.mem) if jr is not None else None
                                if jm is not None:
                                    o2.ret = jr
                                    o2.st = o2.st.copy()
                                    o2.st.mem = jm
                                    break
                        else:
                            outs.append(Outcome(s, r))
                    break
                if o == "switch":
                    d = self.operand(s, fid, t[1], b, subst)
                    pl = t[1][1] if t[1][0] != "k" else None
                    ty = b["locals"][pl[0]][0] if pl and len(pl) == 1 else ""
                    nxt = self.switch(s, d, t[2], t[3], ty in INTS)
                    if not nxt:
                        break
                    for (s2, bb2) in nxt[1:]:
                        work.append((bb2, s2, visits, bb))
                    s, nbb = nxt[0]
                    continue
                if o == "drop":
                    h = self.hooks.get("drop")
                    if h:
                        h(self, s, fid, t, b)
                    if self.effects and len(t[1]) == 1 and GUARD.search(b["locals"][t[1][0]][0]):
                        self.release(s, s.mem.get((fid, t[1][0])), b["id"])
                    nbb = t[2]
                    continue
                if o == "assert":
                    c = self.operand(s, fid, t[1], b, subst)
                    want = bool(t[2])
                    c = self.deref(s, c)
                    kn = self.known(s, c)
                    if kn is not None and kn.a[1] != want:
                        self.panic(s, "assert:" + t[3], c, b, t[5])
                        break
                    if kn is None:
                        if "overflow" not in t[3]:
                            s2 = s.copy()
                            if self.assume(s2, c, not want):
                                self.panic(s2, "assert:" + t[3], c, b, t[5])
                        self.assume(s, c, want)
                    nbb = t[4]
                    continue
                if o == "yield":
                    nbb = t[1]
                    continue
                if o == "call":
                    f = self.operand(s, fid, t[1], b, subst)
                    av = [self.operand(s, fid, x, b, subst) for x in t[2]]
                    if any(x is None for x in av) or f is None:
                        break
                    loc = f"{b.get('file', '?')}:{t[5]}"
                    self.cur = (b, bb)
                    res = self.call(s, f, av, (ctx if len(str(ctx)) < 4000 else (), b["id"], bb), loc, b)
                    if t[4] is None:
                        for s2, r in res:
                            self.panic(s2, "diverge", f, b, t[5])
                        break
                    nx = []
                    for s2, r in res:
                        if r is None:
                            continue
                        s2 = s2.copy()
                        ref = self.place_ref(s2, fid, t[3], 1)
                        if ref is None:
                            continue
                        if self.effects:
                            r = self.effect(s2, r, b, t)
                        self.write(s2, ref.a[0], ref.a[1], r)
                        nx.append(s2)
                    if not nx:
                        break
                    nbb = t[4]
                    for s2 in nx[1:]:
                        work.append((nbb, s2, visits, bb))
                    s = nx[0]
                    continue
                break
        if steps:
            self.close_loops(outs, steps)
        return outs

    NOEFFECT = re.compile(r"tracing|(^|::)log::|core::fmt|drop|<rec>|Formatter|::hint::|clone|Hash>?::hash")
    EFFECT = re.compile(r"::(\w*(send|insert|push|set|store|remove|clear|invalidate|replace|swap|spawn|write|fetch_\w+|put|delete|abort|exit|update|extend|append))(_\w+)?$", re.I)

    def release(self, s, v, fn):
        """a lock guard ends: what was stored through it is what the lock protects from now on"""
        if v is None:
            return
        v = self.deep(s, v)
        base = v
        while base.op in ("mut", "loop", "upd", "coll", "bin", "call"):
            if base.op == "coll" and base.a[0].op == "k":
                break
            if base.op in ("bin", "call"):
                break
            base = base.a[1] if base.op == "mut" else base.a[0]
        if v is base and v.op in ("pay", "await", "in", "fld"):
            return
        ev = Ev("call", "store", (v,), frozenset(), "", fn)
        if ev not in s.events:
            s.events = s.events + (ev,)

    def effect(self, s, r, b, t):
        """record a call made for its effect: its result is not read; returns the value to go on with"""
        val = r
        if r.op == "agg" and r.a[1] == "Ready" and len(r.a) > 3 and r.a[3].op == "await":
            if len(t[3]) != 1 or b["locals"][t[3][0]][0] != "core::task::poll::Poll<()>":
                return r
            c = r.a[3].a[0]
            unit = True
            val = mk("agg", *r.a[:3], UNIT)
        else:
            c = r
            if len(t[3]) != 1:
                return r
            unit = b["locals"][t[3][0]][0] == "()"
            if not unit and t[3][0] in self.live_at(b)[t[4]]:
                return r
            if unit:
                val = UNIT
        if self.track is not None and c.op == "call" and self.track.search(c.a[0]):
            return val
        if c.op != "call" or self.NOEFFECT.search(c.a[0]) or not (unit or self.EFFECT.search(c.a[0])):
            return r
        args = c.a[1:]
        if any(free_elems(x) for x in args):
            g = frozenset((self.deep(s, x), f) for x, f in s.facts.items() if free_elems(x))
            if g:
                args = args + (mk("gel", mk("in", "when"), g),)
        ev = Ev("call", c.a[0], tuple(args), frozenset(), "", b["id"])
        if ev not in s.events:
            s.events = s.events + (ev,)
        return val

    def upd_fields(self, a, b):
        """two records that started as the same one: (base, {field: (value in a, value in b)}) or None"""
        if a.op != "upd" and b.op != "upd":
            return None
        pa, pb = {}, {}
        for t, p in ((a, pa), (b, pb)):
            while t.op == "upd":
                p.setdefault(t.a[1], t.a[2])
                t = t.a[0]
            p[None] = t
        base = pa.pop(None)
        if base is not pb.pop(None) or base.op in ("agg", "k"):
            return None
        old = lambda n: mk("pay", base, *n.split("@")) if "@" in n else self.field(State(), base, n)
        return base, {n: (pa.get(n) or old(n), pb.get(n) or old(n)) for n in sorted({*pa, *pb})}

    def merge_upd(self, a, b, f):
        u = self.upd_fields(a, b)
        if u is None:
            return None
        r = u[0]
        for n, (x, y) in u[1].items():
            v = x if x is y else f(x, y)
            if v is None:
                return None
            r = mk("upd", r, n, v)
        return r

    def join_val(self, a, b):
        """least upper bound of two values that differ only in collection contents, else None"""
        if a is b:
            return a
        if a is self.ZERO or b is self.ZERO:
            # no iteration at all: the collection is empty, whatever is done to its elements
            return b if a is self.ZERO else a
        if a.op == "coll" and b.op == "coll":
            if a.a[0] is b.a[0]:
                return self.coll_add(a, *b.a[1:])
            if b.a[0] is a:
                return b
            if a.a[0] is b:
                return a
            return None
        if a.op == "coll" and a.a[0] is b:
            return a
        if b.op == "coll" and b.a[0] is a:
            return b
        if a.op == b.op == "agg" and a.a[:3] == b.a[:3] and len(a.a) == len(b.a):
            vs = [self.join_val(x, y) for x, y in zip(a.a[3:], b.a[3:])]
            if any(v is None for v in vs):
                return None
            return mk("agg", *a.a[:3], *vs)
        if a.op == "loop" and a.a[0] is b:
            return a
        if b.op == "loop" and b.a[0] is a:
            return b
        if a.op == b.op == "loop" and a.a[0] is b.a[0]:
            return self.join_steps(a, b.a[1].a[1:] if self.is_steps(b.a[1]) else b.a[1:])
        return self.merge_upd(a, b, self.join_val)

    @staticmethod
    def join_events(a, b):
        """what a loop did in some iterations: effects on single elements, of which there may be none"""
        if a == b:
            return a
        n = 0
        while n < min(len(a), len(b)) and a[n] == b[n]:
            n += 1
        if not all(any(free_elems(x) for x in e.args) for e in a[n:] + b[n:]):
            return None
        for x, y in ((a, b), (b, a)):
            it = iter(y)
            if all(e in it for e in x):
                return y
        return a[:n] + tuple(sorted({*a[n:], *b[n:]}, key=repr))

    def join_mem(self, m1, m2):
        if m1.keys() != m2.keys():
            return None
        out = None
        for c, v in m1.items():
            w = m2[c]
            if v is not w:
                j = self.join_val(v, w)
                if j is None:
                    return None
                if j is not v:
                    if out is None:
                        out = dict(m1)
                    out[c] = j
        return out if out is not None else dict(m1)

    HOLE = mk("hole")
    ZERO = mk("coll", k("zero"))

    def template(self, a, b):
        """an accumulator: b = f(a) -> loop(init, f(hole))"""
        if a is b or a.op in ("coll", "ref", "any", "elem", "clos", "fn", "seq") or b.op not in ("call", "bin", "mut"):
            return None
        if a.op == "k" and b.op != "bin":
            return None
        if a not in subterms(b):
            return None
        memo = {a: self.HOLE}

        def rep(t):
            if isinstance(t, tuple):
                return tuple(rep(x) for x in t)
            if not isinstance(t, T):
                return t
            r = memo.get(t)
            if r is None:
                r = mk(t.op, *[rep(x) for x in t.a])
                memo[t] = r
            return r
        f = rep(b)
        if a.op == "loop":
            els = a.a[1].a[1:] if self.is_steps(a.a[1]) else a.a[1:]
            if not any((x.a[0] if x.op == "gel" else x) is f for x in els):
                return None
            if f in els:
                return a
        g = frozenset((rep(t), x) for t, x in self._guards.items() if (free_elems(t) or a in subterms(t))
                      and not any(y.op in ("loop", "mut") and y is not a for y in subterms(t))) if self._guards else None
        step = mk("gel", f, g) if g else f
        if a.op == "loop":
            return self.join_steps(a, (step,))
        return mk("loop", a, step)

    _guards = None              # what holds where the step of a loop ends

    @staticmethod
    def is_steps(v):
        return v.op == "coll" and v.a[0] is k("")

    def join_steps(self, a, more):
        els = a.a[1].a[1:] if self.is_steps(a.a[1]) else a.a[1:]
        n = {}
        for x in (*els, *more):
            v, g = (x.a[0], x.a[1]) if x.op == "gel" else (x, None)
            n.setdefault(v, {})[g] = x
        # under too many conditions to tell, or under none
        els = [y for v, gs in n.items() for y in ([v] if None in gs or len(gs) > 6 else gs.values())]
        c = self.coll_add(mk("coll", k("")), *els)
        return mk("loop", a.a[0], c.a[1] if len(c.a) == 2 else c)

    def widen(self, a, b):
        if a is b:
            return a
        t = self.template(a, b)
        if t is not None:
            return t
        if b.op in ("coll", "loop") and b.a[0] is a:
            return b
        if a.op == "loop" and a.a[0] is b:
            return a
        if a.op == "loop" and b.op == "loop" and a.a[0] is b.a[0]:
            r = self.join_steps(a, b.a[1].a[1:] if self.is_steps(b.a[1]) else b.a[1:])
            if not self.is_steps(r.a[1]) or len(r.a[1].a) < 6:
                return r
        if a is self.ZERO or b is self.ZERO:
            return b if a is self.ZERO else a
        if a.op == "upd" or b.op == "upd":
            u = self.merge_upd(a, b, self.widen)
            if u is not None:
                return u
        if a.op == "coll" and b.op == "coll" and a.a[0] is b.a[0]:
            return b if len(b.a) < 14 else mk("any", *sorted(a.roots | b.roots, key=lambda r: r.uid))
        if a.op == "agg" and b.op == "agg" and a.a[:3] == b.a[:3]:
            return mk("agg", a.a[0], a.a[1], a.a[2], *[self.widen(x, y) for x, y in zip(a.a[3:], b.a[3:])])
        if a.op in ("elem", "k") and b.op in ("elem", "k") and not b.depth > 6:
            return b
        if b.op == "ref" or a.op == "ref":
            return b
        if a.op == "mut" == b.op and a.a[0] == b.a[0] and a.a[1] is b.a[1] and len(a.a) == len(b.a):
            return min(a, b, key=repr)      # one of them stands for both: the same one in any order of the paths
        if a.op == "agg" and b.op == "agg" and len(a.a) <= 4 and len(b.a) <= 4 and b.depth < 8:
            return b
        if b.depth <= a.depth and b.depth < 10 and b.op != "bin":
            return b
        if self._guards is not None and b.depth < 24 and not any(y.op in ("any", "loop") for y in subterms(b)):
            # set anew in some iteration
            g = frozenset((t, f) for t, f in self._guards.items() if free_elems(t) and t.depth < 12 and not any(y.op in ("loop", "mut") for y in subterms(t)))
            step = mk("gel", b, g) if g else b
            if a.op != "loop":
                if not any(y.op in ("any", "loop") for y in subterms(a)):
                    return mk("loop", a, step)
            elif self.HOLE not in subterms(a.a[1]):
                r = self.join_steps(a, (step,))
                if not self.is_steps(r.a[1]) or len(r.a[1].a) < 6:
                    return r
        return mk("any", *sorted(a.roots | b.roots, key=lambda r: r.uid))

    def loop_heads(self, b):
        h = b.get("_heads")
        if h is None:
            h = set()
            color = {}
            succ = [self.succs(x["t"]) for x in b["blocks"]]
            stack = [(0, iter(succ[0]))]
            color[0] = 1
            while stack:
                n, it = stack[-1]
                for m in it:
                    if m not in color:
                        color[m] = 1
                        stack.append((m, iter(succ[m])))
                        break
                    elif color[m] == 1:
                        h.add(m)
                        b.setdefault("_back", {}).setdefault(m, []).append(n)
                else:
                    color[n] = 2
                    stack.pop()
            b["_heads"] = h
        return h

    def exits(self, b):
        """{(block, block): outermost loop head left by that edge}"""
        r = b.get("_exits")
        if r is None:
            r = b["_exits"] = {}
            heads = self.loop_heads(b)
            succ = [self.succs(x["t"]) for x in b["blocks"]]
            pred = {}
            for i, ss in enumerate(succ):
                for j in ss:
                    pred.setdefault(j, []).append(i)
            nat = {}
            for h in heads:
                body, todo = {h}, list(b["_back"][h])
                while todo:
                    i = todo.pop()
                    if i not in body:
                        body.add(i)
                        todo += pred.get(i, ())
                nat[h] = body
            for h in sorted(heads, key=lambda h: len(nat[h])):
                for u in nat[h]:
                    for v in succ[u]:
                        if v not in nat[h]:
                            r[u, v] = h
            b["_nest"] = {h: sum(h in nat[g] for g in heads) for h in heads}
        return r

    def in_cycle(self):
        """is the call being executed part of a loop of its body (closures count as loops)"""
        b, bb = self.cur
        if "closure" in b["id"].rsplit("::", 1)[-1] and "async" not in self.F.index.get(b["id"], ""):
            return True
        c = b.get("_cyc")
        if c is None:
            c = b["_cyc"] = {}
        r = c.get(bb)
        if r is None:
            seen, todo = set(), list(self.succs(b["blocks"][bb]["t"]))
            while todo:
                n = todo.pop()
                if n not in seen:
                    seen.add(n)
                    todo += self.succs(b["blocks"][n]["t"])
            r = c[bb] = bb in seen
        return r

    @staticmethod
    def succs(t):
        o = t[0]
        if o == "goto":
            return [t[1]]
        if o == "switch":
            return [x[1] for x in t[2]] + [t[3]]
        if o == "drop":
            return [t[2]]
        if o == "call":
            return [t[4]] if t[4] is not None else []
        if o == "assert":
            return [t[4]]
        if o == "yield":
            return [t[1]]
        return []

    def result_used(self):
        """whether what the call at hand returns is looked at"""
        b, bb = self.cur
        t = b["blocks"][bb]["t"]
        return t[0] != "call" or t[4] is None or t[3][0] == 0 or len(t[3]) > 1 or t[3][0] in self.live_at(b)[t[4]]

    # ---- liveness of locals at loop heads
    def live_at(self, b):
        r = b.get("_live")
        if r is not None:
            return r

        def op_uses(o, acc):
            if o and o[0] != "k":
                pl_uses(o[1], acc)

        def pl_uses(pl, acc):
            acc.add(pl[0])
            for p in pl[1:]:
                if p != "*" and p[0] == "i":
                    acc.add(p[1])

        def rv_uses(r, acc):
            o = r[0]
            if o in ("use", "repeat"):
                op_uses(r[1], acc)
            elif o == "ref":
                pl_uses(r[2], acc)
            elif o == "agg":
                for x in r[4]:
                    op_uses(x, acc)
            elif o in ("cast", "un"):
                op_uses(r[2], acc)
            elif o == "bin":
                op_uses(r[2], acc)
                op_uses(r[3], acc)
            elif o == "discr":
                pl_uses(r[1], acc)
            elif o != "tls":
                return False
            return True
        blocks = b["blocks"]
        n = len(blocks)
        gen, kill = [], []
        for blk in blocks:
            g, kl = set(), set()

            def use(u):
                g.update(u - kl)
            for s in blk["s"]:
                if s[0] == "=":
                    u = set()
                    if not rv_uses(s[2], u):
                        u |= set(range(len(b["locals"])))
                    if len(s[1]) > 1:
                        pl_uses(s[1], u)
                    use(u)
                    if len(s[1]) == 1:
                        kl.add(s[1][0])
                elif s[0] == "setd":
                    pass
            t = blk["t"]
            u = set()
            if t[0] == "switch" or t[0] == "assert":
                op_uses(t[1], u)
            elif t[0] == "ret":
                u.add(0)
            elif t[0] == "call":
                op_uses(t[1], u)
                for x in t[2]:
                    op_uses(x, u)
                if len(t[3]) > 1:
                    pl_uses(t[3], u)
                else:
                    use(u)
                    u = set()
                    kl.add(t[3][0])
            elif t[0] == "drop":
                if len(t[1]) == 1 and GUARD.search(b["locals"][t[1][0]][0]):
                    u.add(t[1][0])
            elif t[0] == "yield":
                for x in t[2:]:
                    if isinstance(x, list) and x and isinstance(x[0], int):
                        pl_uses(x, u)
            use(u)
            gen.append(g)
            kill.append(kl)
        live = [set() for _ in range(n)]
        preds = [[] for _ in range(n)]
        for i, blk in enumerate(blocks):
            for j in self.succs(blk["t"]):
                preds[j].append(i)
        work = list(range(n))
        while work:
            i = work.pop()
            out = set()
            for j in self.succs(blocks[i]["t"]):
                out |= live[j]
            nl = gen[i] | (out - kill[i])
            if nl != live[i]:
                live[i] = nl
                work += preds[i]
        b["_live"] = live
        return live

    def gc(self, s, fid, b, bb):
        live = self.live_at(b)[bb]
        dead = {c for c in s.mem if c[0] == fid and c[1] not in live}
        if not dead:
            return
        keep = set()
        stack = [v for c, v in s.mem.items() if c not in dead and v.hasref]
        seen = set()
        while stack:
            x = stack.pop()
            if isinstance(x, (tuple, frozenset)):
                stack.extend(x)
                continue
            if not isinstance(x, T) or not x.hasref or x in seen:
                continue
            seen.add(x)
            if x.op == "ref":
                c = x.a[0]
                if c in dead and c not in keep:
                    keep.add(c)
                    stack.append(s.mem[c])
                stack.append(x.a[1])
            else:
                stack.extend(x.a)
        for c in dead - keep:
            del s.mem[c]

    def escape(self, st, t, fid, fuel=None):
        """replace refs into a dying frame by the values"""
        if not t.hasref:
            return t
        if fuel is None:
            fuel = [500]
        fuel[0] -= 1
        if fuel[0] < 0:
            return mk("any", *sorted(t.roots, key=lambda r: r.uid))
        if t.op == "ref":
            if t.a[0][0] == fid:
                v = self.walk(st, self.read_cell(st, t.a[0]), t.a[1])
                if v is None or v is t:
                    return mk("any")
                return self.escape(st, v, fid, fuel)
            return t
        a = tuple(self.escape(st, x, fid, fuel) if isinstance(x, T) else
                  (tuple(self.escape(st, y, fid, fuel) if isinstance(y, T) else y for y in x) if isinstance(x, tuple) else x)
                  for x in t.a)
        return mk(t.op, *a)

    def panic(self, st, kind, term, b, line):
        self.panics.append((kind, self.deep(st, term) if term is not None else None, dict(st.facts),
                            f"{b.get('file', '?')}:{line}", b["id"], st.events))

    def stmt(self, s, fid, stm, b, subst):
        o = stm[0]
        if o == "=":
            v = self.rvalue(s, fid, stm[2], b, subst)
            if v is None:
                return False
            pl = stm[1]
            if len(pl) == 1:
                s.mem[(fid, pl[0])] = v
            else:
                ref = self.place_ref(s, fid, pl, 1)
                if ref is None:
                    return False
                self.write(s, ref.a[0], ref.a[1], v)
            return True
        if o == "dead":
            # only forget when nothing points to it
            return True
        if o == "setd":
            return True
        return True

    def rvalue(self, s, fid, r, b, subst):
        o = r[0]
        if o == "use":
            return self.operand(s, fid, r[1], b, subst)
        if o == "ref":
            return self.place_ref(s, fid, r[2], r[1])
        if o == "agg":
            vals = [self.operand(s, fid, x, b, subst) for x in r[4]]
            if any(v is None for v in vals):
                return None
            if r[1] == "tuple":
                return tup(*vals)
            if r[1] == "array":
                return arr(*vals)
            if r[1] == "closure":
                return mk("clos", r[2], *vals)
            if r[1] == "adt":
                names = tuple(r[3][1:])
                if len(vals) != len(names):
                    names = names[:len(vals)]
                return mk("agg", r[2], r[3][0], names, *vals)
            return vals[0] if vals else UNIT
        if o == "cast":
            v = self.operand(s, fid, r[2], b, subst)
            if v is None:
                return None
            if r[1] in ("IntToInt", "FloatToInt", "IntToFloat", "FloatToFloat", "Transmute"):
                dv = self.deref(s, v)
                if r[1] == "IntToInt" and (dv.op in ("discr",)):
                    return dv
                if r[1] == "IntToInt" and dv.op == "k" and isinstance(dv.a[1], int):
                    return dv
                return mk("cast", r[3], dv)
            if r[1] == "PointerCoercion" and v.op == "fn":
                return v
            return v
        if o == "bin":
            x = self.operand(s, fid, r[2], b, subst)
            y = self.operand(s, fid, r[3], b, subst)
            if x is None or y is None:
                return None
            return self.binop(s, r[1], x, y)
        if o == "un":
            x = self.operand(s, fid, r[2], b, subst)
            if x is None:
                return None
            x = self.deref(s, x)
            if r[1] == "Not":
                if x.op == "k" and not isinstance(x.a[1], bool):
                    return mk("un", "Not", x)
                return self.negate(x)
            if r[1] == "PtrMetadata":
                return self.length(s, x)
            if r[1] == "Neg" and x.op == "k" and x.a[0] == "i":
                return k(-x.a[1])
            return mk("un", r[1], x)
        if o == "discr":
            v = self.place_val(s, fid, r[1])
            if v is None:
                return None
            v = self.deref(s, v)
            m = r[2]
            key = r[3]
            self.enums[key] = m
            return mk("discr", v, key)
        if o == "repeat":
            return mk("repeat", self.operand(s, fid, r[1], b, subst), r[2])
        if o == "tls":
            return mk("static", r[1])
        return mk("any")

    def length(self, st, x):
        if x.op == "agg" and x.a[0] == "[]":
            return k(len(x.a) - 3)
        if x.op == "coll" and len(x.a) == 1 and x.a[0].op == "k":
            return k(0)
        return mk("call", "len", x)

    def switch(self, s, d, targets, otherwise, isint=False):
        d = self.deref(s, d)
        if d.op == "discr":
            v, key = d.a
            m = self.enums.get(key, {})
            inv = {n: int(x) for x, n in m.items()}
            if v.op == "entry":
                out = []
                for s2, p in self.opt(s, v.a[2]):
                    n = "Occupied" if p is not None else "Vacant"
                    out.append((s2, next((bb for val, bb in targets if val == inv.get(n)), otherwise)))
                return out
            var = self.variant_of(s, v)
            if var is not None and var in inv:
                for val, bb in targets:
                    if val == inv[var]:
                        return [(s, bb)]
                return [(s, otherwise)]
            b = v
            while b.op == "upd":
                b = b.a[0]
            f = s.facts.get(b)
            ex = f[1] if f is not None and f[0] == "nv" else frozenset()
            out = []
            covered = set()
            for val, bb in targets:
                n = m.get(str(val))
                if n is None:
                    continue
                covered.add(n)
                if n in ex:
                    continue
                s2 = s.copy()
                s2.set_fact(b, ("v", n))
                out.append((s2, bb))
            rest = [n for n in m.values() if n not in covered and n not in ex]
            if rest or not m:
                s2 = s.copy()
                if len(rest) == 1:
                    s2.set_fact(b, ("v", rest[0]))
                elif rest:
                    s2.set_fact(b, ("nv", frozenset(covered) | ex))
                out.append((s2, otherwise))
            return out
        kn = self.known(s, d)
        if kn is not None:
            val = kn.a[1]
            if isinstance(val, str) and kn.a[0] == "c":
                val = ord(val)
            for x, bb in targets:
                if x == (int(val) if isinstance(val, (bool, int)) else val):
                    return [(s, bb)]
            return [(s, otherwise)]
        # boolean: two way
        if len(targets) == 1 and targets[0][0] == 0 and not isint and self.is_bool(d):
            out = []
            for s2, v in self.split_bool(s, d):
                out.append((s2, otherwise if v else targets[0][1]))
            return out
        out = []
        f = s.facts.get(d)
        ex = f[1] if f is not None and f[0] == "nk" else frozenset()
        ks = []
        for x, bb in targets:
            kv = k(x)
            ks.append(kv)
            if kv in ex:
                continue
            s2 = s.copy()
            s2.set_fact(d, ("k", kv))
            out.append((s2, bb))
        s2 = s.copy()
        s2.set_fact(d, ("nk", ex | frozenset(ks)))
        out.append((s2, otherwise))
        return out

    def is_bool(self, d):
        if d.op in ("not",):
            return True
        if d.op == "bin":
            return d.a[0] in ("Eq", "Lt", "BitAnd", "BitOr") and d.a[0] not in ()
        if d.op in ("call", "fld", "pay", "in", "any", "elem", "idx", "const", "mut", "upd", "await"):
            return True
        return False

    # ------------------------------------------------------------------ calls
    def call_value(self, st, f, args, ctx, loc="?"):
        """call a closure / fn item value with an argument list -> [(state, value)]"""
        clos = f
        fv = self.deref(st, f)
        if fv.op == "clos":
            bid = fv.a[0]
            if bid in self.F.index:
                d = self.F.index[bid]
                if d["kind"] == "coroutine":
                    return self.poll(st, fv, ctx)
                if self.stack.count(bid) >= 1:
                    return [(st, mk("call", "<rec>" + bid, *[self.deep(st, x) for x in args]))]
                b = self.F.body(bid)
                if b["argc"] == 1 + len(args):
                    outs = self.run_body(bid, [f] + list(args), st, getattr(self, "_subst_top", {}), (ctx, bid))
                    return [(o.st, o.ret) for o in outs]
            return [(st, mk("call", "<closure>" + bid, *[self.deep(st, x) for x in args]))]
        if fv.op == "fn":
            return self.call(st, fv, list(args), ctx, loc, None)
        if fv.op == "modelfn":
            return fv.a[0](self, st, args, ctx)
        np = len(self.panics)
        vals = [self.lam(st, self.deep(st, x)) for x in args]
        del self.panics[np:]
        return [(st, mk("call", "<dyn>", self.deep(st, fv), *vals))]

    def poll(self, st, fut, ctx):
        """drive a future value to completion -> [(state, output)]"""
        fv = self.deref(st, fut)
        if fv.op == "clos" and fv.a[0] in self.F.index:
            bid = fv.a[0]
            if self.stack.count(bid) >= 1:
                return [(st, mk("call", "<rec>" + bid, *[self.deep(st, x) for x in fv.a[1:]]))]
            outs = self.run_body(bid, [fv, mk("const", "Context")], st, getattr(self, "_subst_top", {}), (ctx, bid))
            return [(o.st, o.ret) for o in outs]
        if fv.op == "ready":
            return [(st, fv.a[0])]
        if fv.op == "pollfn":
            out = []
            for s, r in self.call_value(st, fv.a[0], [mk("const", "Context")], (ctx, "pf")):
                rv = self.deref(s, r)
                if rv.op == "agg" and rv.a[1] == "Ready":
                    out.append((s, rv.a[3]))
                elif rv.op != "agg":
                    for s2, v in self.split_variant(s, rv, ("Ready",)):
                        out.append((s2, self.payload(s2, rv, "Ready", "0")))
            return out
        if fv.op == "joinall":
            return self.models["futures::join_all*"](self, st, fv, ctx)
        return [(st, mk("await", self.deep(st, fv)))]

    def is_opaque(self, path):
        r = self._opq.get(path)
        if r is None:
            r = any(x.search(path) for x in self.opaque)
            self._opq[path] = r
        return r

    def find_model(self, cn):
        if cn in self._mod:
            return self._mod[cn]
        m = self.models.get(cn)
        if m is None:
            for rx, fn in self.remodels:
                if rx.search(cn):
                    m = fn
                    break
        self._mod[cn] = m
        return m

    def call(self, st, f, args, ctx, loc, body):
        fv = self.deref(st, f)
        if fv.op != "fn":
            return self.call_value(st, f, args, ctx, loc)
        cc = self.callees[fv]
        path = cc.get("res") or cc["fn"]
        cn = canon(path)
        base = canon(cc["fn"])
        if "{impl#" in cn:
            pass
        tr = self.track
        name = cn
        if tr is not None and (tr.search(cn) or (cn != base and tr.search(base))):
            ev = Ev("call", cn if tr.search(cn) else base, tuple(self.deep(st, a) for a in args), st.fsnap(), loc,
                    body["id"] if body else "?")
            if ev not in st.events:
                st = st.copy()
                st.events = st.events + (ev,)
        # std models first (by trait method, then by resolved path)
        if not self.is_opaque(cn):
            m = self.find_model(cn)
            if base == "core::clone::Clone::clone" and args and (path not in self.F.index or self.F.index[path].get("exp")):
                t = args[0]              # derived Clone: a copy of the value
                if t.op == "ref":
                    v = self.walk(st, self.read_cell(st, t.a[0]), t.a[1])
                    t = v if v is not None else t
                return [(st, t)]
            if m is None and base != cn:
                # a workspace impl wins over the model of the trait method
                if not (path in self.F.index) or self.F.index[path]["kind"] == "coroutine":
                    m = self.find_model(base)
            if m is not None:
                r = m(self, st, args, ctx, cc, loc)
                if r is not None:
                    return r
            # closures / fn pointers through the Fn traits
            if path in self.F.index and cc.get("ws") and self.F.index[path]["kind"] == "fn" \
                    and not ("trait" in cc and "res" not in cc) and len(self.stack) < self.maxdepth + 1 \
                    and self.stack.count(path) == 0 and (self.inline is None or self.inline.search(cn)):
                d = self.F.index[path]
                b = self.F.body(path)
                if b["argc"] == len(args):
                    subst = {}
                    gens = self.generics(path, d)
                    if len(gens) == len(cc.get("ga", [])):
                        subst = {g: a for g, a in zip(gens, cc["ga"]) if g != a}
                    old = getattr(self, "_subst_top", {})
                    self._subst_top = subst
                    try:
                        outs = self.run_body(path, args, st, subst, ctx)
                    finally:
                        self._subst_top = old
                    return [(o.st, o.ret) for o in outs]
            # workspace ADT constructors used as functions
            c = self.ctor(path, args)
            if c is not None:
                return [(st, c)]
            # dynamic dispatch on a value of known type
            if "trait" in cc and "res" not in cc and args:
                a0 = self.deref(st, args[0])
                if a0.op == "agg":
                    nm = cc["fn"].rsplit("::", 1)[-1]
                    hit = None
                    for im in self.F.impl_by.get(cc["trait"], ()):
                        if strip_generics(re.sub(r"<.*", "", im["self"])) == a0.a[0] and nm in im["items"]:
                            hit = im["items"][nm]
                            break
                    if hit and hit in self.F.index and self.stack.count(hit) == 0:
                        outs = self.run_body(hit, args, st, {}, ctx)
                        return [(o.st, o.ret) for o in outs]
        nm = cn if "trait" not in cc or "res" in cc else self.trait_name(cc)
        return self.opaque_call(st, nm + self.ro_name(base, cc), args, ctx, cc)

    # functions whose type arguments only say what a closure or a later step gives
    RO_SKIP = re.compile(r"^(core::(option|result|ops|iter)::(?!.*::(collect|sum|product)$)|tailcall_valid::|nom::|hyper::|tower::|anyhow::Context|"
                         r"serde::(de::Error|de::\w*Access|__private|ser)|schemars::_private|futures|tokio::|moka::|clap_builder::builder|core::pin|core::future|"
                         r"core::mem::(?!size)|convert_case|std::thread::local|alloc::|std::(collections|sync)|tonic::client|core::cmp|core::slice|core::str::pattern)")

    def ro_name(self, base, cc):
        """the type a call is made for, where no argument tells it"""
        ro = cc.get("ro")
        if not ro or self.RO_SKIP.search(base):
            return ""
        ro = [x for x in ro if not re.search(r"^[<&]|\{(closure|async)|impl ", x)]
        if not ro:
            return ""
        if re.search(r"(Default::default|From::(try_)?from)$", base) and "res" in cc:
            return ""
        return "<" + ", ".join(re.sub(r"\b(?:\w+::)+(\w+)", r"\1", re.sub(r"'\w+ ?,? ?", "", x)).replace("<>", "") for x in ro) + ">"

    def trait_name(self, cc):
        return canon(cc["fn"])

    def generics(self, path, d):
        # parent generics are not listed by "gen"? they are: generics_of counts parents
        return d.get("gen", [])

    def ctor(self, path, args):
        p = path
        m = self.F.adts.get(p)
        if m and m["kind"] == "struct" and len(m["variants"][0][1]) == len(args):
            return agg(p, "", [f[0] for f in m["variants"][0][1]], *args)
        if "::" in p:
            base, v = p.rsplit("::", 1)
            base = strip_generics(base)
            m = self.F.adts.get(base)
            if m and m["kind"] == "enum":
                for vn, fs in m["variants"]:
                    if vn == v and len(fs) == len(args):
                        return agg(base, v, [f[0] for f in fs], *args)
            if base in (OPT, RES) and v in ("Some", "Ok", "Err") and len(args) == 1:
                return agg(base, v, ("0",), *args)
        return None

    def lam(self, st, v, fuel=6):
        """what a closure (or a future) that escapes the analysis does, as a term"""
        if not isinstance(v, T) or not (v.op == "clos" or v.hasclos):
            return v
        if v.op == "clos":
            if v.a[0] not in self.F.index or fuel <= 0 or self.stack.count(v.a[0]) or len(self.stack) > self.maxdepth + 4:
                return v
            kd = self.F.index[v.a[0]]["kind"]
            st = st.copy()
            st.events = ()
            d = "%" * (1 + self.lamdepth)
            self.lamdepth += 1
            self.later += 1
            try:
                if kd == "coroutine":
                    n, outs = 0, self.poll(st, v, ("lam", v.a[0]))
                elif kd == "closure":
                    n = self.F.body(v.a[0])["argc"] - 1
                    cell = ("lam", v.a[0], self.lamdepth)
                    st.mem[cell] = v
                    ps = [mk("in", d + str(i + 1)) for i in range(n)]
                    for i in range(n):
                        if re.match(r"&(?:'\S+ )?mut ", self.F.body(v.a[0])["locals"][2 + i][0]):
                            # what it does to what it is lent is part of what it does
                            c = ("lamarg", v.a[0], self.lamdepth, i)
                            st.mem[c] = ps[i]
                            ps[i] = mk("ref", c, (), 1)
                    outs = self.call_value(st, mk("ref", cell, (), 1), ps, ("lam", v.a[0]))
                else:
                    return v
                rows = []
                for s2, r in outs:
                    fs = frozenset((self.deep(s2, t), f) for t, f in s2.facts.items() if st.facts.get(t) != f)
                    ch = [x for c, x in s2.mem.items() if c in st.mem and st.mem[c] is not x and not x.hasref]
                    evs = tuple(mk("call", e.path, *[self.lam(s2, self.deep(s2, x), fuel - 1) for x in e.args]) for e in s2.events)
                    rows.append((fs, self.lam(s2, self.deep(s2, r), fuel - 1), tuple(sorted(ch, key=show)), evs))
            finally:
                self.lamdepth -= 1
                self.later -= 1
            flat = []
            for fs, r, ch, evs in sorted(rows, key=lambda w: (show(w[1]), len(w[0]), sorted(show(t) + fshow(f) for t, f in w[0]))):
                flat.append(mk("lamrow", fs, r, ch, evs))
            return mk("lam", d, n, kd, *flat)
        memo = self._lammemo.setdefault((st.fsnap(), fuel), {})
        r = memo.get(v)
        if r is None:
            def go(x):
                if isinstance(x, T):
                    return self.lam(st, x, fuel)
                if isinstance(x, tuple):
                    return tuple(go(y) for y in x)
                if isinstance(x, frozenset):
                    return frozenset(go(y) for y in x)
                return x
            r = memo[v] = mk(v.op, *[go(x) for x in v.a])
        return r

    # settings of these builders do not depend on the order they are made in
    SETTINGS = re.compile(r"^(moka::future::builder::CacheBuilder|reqwest::async_impl::client::ClientBuilder)::(?!build|new|builder|default_headers|user_agent)(\w+)$")

    def settings(self, name, vals):
        """a call that sets one thing of a builder, in the order of the names of the settings"""
        m = self.SETTINGS.match(strip_generics(name))
        x = vals[0] if vals else None
        if m and x.op == "call" and len(x.a) > 1:
            n = self.SETTINGS.match(strip_generics(x.a[0]))
            if n and n.group(1) == m.group(1) and n.group(2) > m.group(2):
                return mk("call", x.a[0], self.settings(name, [x.a[1], *vals[1:]]), *x.a[2:])
        return mk("call", name, *vals)

    def opaque_call(self, st, name, args, ctx, cc=None):
        """an unmodelled call: a term over its arguments; what it may write through &mut changes"""
        np = len(self.panics)
        vals = [self.lam(st, self.deep(st, a)) for a in args]
        del self.panics[np:]
        s = st
        # closures handed to it may run
        for a in args:
            av = self.deref(s, a)
            if av.op == "clos" and av.a[0] in self.F.index and self.F.index[av.a[0]]["kind"] == "closure":
                b = self.F.body(av.a[0])
                n = b["argc"] - 1
                if self.stack.count(av.a[0]) == 0 and len(self.stack) < self.maxdepth + 4:
                    cargs = [mk("cbarg", name, i, *[v for v in vals if v.op != "clos"][:3]) for i in range(n)]
                    evs = list(s.events)
                    news = None
                    for s2, r in self.call_value(s, a, cargs, (ctx, "cb")):
                        for e in s2.events:
                            if e not in evs:
                                evs.append(e)
                        news = s2
                    if evs != list(s.events):
                        s = s.copy()
                        s.events = tuple(evs)
        muts = [a for a in args if a.op == "ref" and a.a[2] == 1]
        if len(muts) == 1 and cc and any(re.match(r"(&mut )?impl .*\bFn(Mut)?\(", g) for g in cc.get("ga", ()) or () if isinstance(g, str)):
            # a function handed on to be called: what it does is its caller's
            if vals[args.index(muts[0])].op == "in":
                muts = []
        if len(args) == 1 and muts and re.search(r"[a-z]_mut$", name):
            # an accessor: what is written through it changes that part of the receiver
            a0 = args[0]
            return [(s, mk("ref", a0.a[0], a0.a[1] + (("f", name.rsplit("::", 1)[-1][:-4] + "()"),), 1))]
        rv = self.settings(name, vals)
        if self.later and re.search(r"(Mutex|RwLock)::(lock|read|write)$", name):
            rv = mk("call", name, *vals, mk("later"))
        if muts:
            s = s.copy()
            for i, a in enumerate(args):
                if a.op == "ref" and a.a[2] == 1:
                    old = vals[i]
                    a = self.innermost(s, a)
                    self.write(s, a.a[0], a.a[1], mk("mut", name, old, *[v for j, v in enumerate(vals) if j != i]))
        return [(s, rv)]
