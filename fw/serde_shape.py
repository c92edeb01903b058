"""The document shape that derived Serialize / Deserialize impls give a type, read from their MIR.

For every type: which key holds which field, which type is read there, what stands in when the key is
absent, when a field is left out, and how unknown keys and enum variants are treated."""
import re, collections

PLUMB = re.compile(r"Try::branch|from_residual|convert::From::from|size_hint|PhantomData|Option::<T>::is_some"
                   r"|duplicate_field|unknown_field|unknown_variant|missing_field|IgnoredAny|from_output|ControlFlow"
                   r"|as_ref|deref|clone|Formatter|private_try")


def short(t):
    t = re.sub(r"[\w]+(?:::[\w]+)*::(?=\w)", "", t or "")
    t = re.sub(r"'\w+ ?", "", t)
    return re.sub(r"_::|\(dyn .*?\)", "", t)


class Body:
    def __init__(self, d):
        self.d = d
        self.bl = d["blocks"]
        self.asg = collections.defaultdict(list)
        for i, b in enumerate(self.bl):
            if b.get("cl"):
                continue
            for s in b["s"]:
                if s[0] == "=":
                    self.asg[s[1][0]].append((s[1][1:], s[2]))
            t = b["t"]
            if t[0] == "call" and t[3]:
                self.asg[t[3][0]].append((t[3][1:], ("CALL", t[1], t[2], i)))

    def live(self):
        return [(i, b) for i, b in enumerate(self.bl) if not b.get("cl")]

    def calls(self):
        for i, b in self.live():
            if b["t"][0] == "call":
                c = b["t"][1][1] if b["t"][1][0] == "k" else {}
                yield i, c, b["t"][2], b["t"][4]

    def path(self, proj):
        out = ""
        for p in proj:
            if isinstance(p, list) and p[0] == "f":
                out += "." + p[1]
            elif isinstance(p, list) and p[0] == "v":
                out += "@" + p[1]
        return out

    def origins(self, place, seen=(), stop=None):
        """where a place's value comes from: argument paths, constants, calls, stop-locals"""
        l, proj = place[0], place[1:]
        suf = self.path(proj)
        if stop and l in stop:
            return {f"slot{stop[l]}"}
        if l <= self.d["argc"] and l > 0 and not self.asg.get(l):
            return {("self" if l == 1 else f"arg{l}") + suf}
        if l in seen:
            return set()
        out = set()
        for lp, rv in self.asg.get(l, []):
            out |= {o + suf if o.startswith(("self", "arg", "default ")) and "." in suf else o for o in self.rv(rv, seen + (l,), stop)}
        return out

    def op(self, o, seen=(), stop=None):
        if o[0] in ("c", "m"):
            return self.origins(o[1], seen, stop)
        k = o[1]
        if "fn" in k:
            return {"fn " + short(k["fn"])}
        v = k.get("v")
        return {"const " + repr(v)} if v is not None else {"const " + short(k.get("ty", ""))}

    def rv(self, rv, seen=(), stop=None):
        if rv[0] == "CALL":
            c = rv[1][1] if rv[1][0] == "k" else {}
            fn = c.get("fn", "?")
            if fn.endswith(("Try::branch", "Deref::deref", "AsRef::as_ref", "Clone::clone")) and rv[2]:
                return self.op(rv[2][0], seen, stop)
            nm = fn.rsplit("::", 1)[-1]
            if nm == "missing_field":
                return {"required"}
            if nm == "default" and c.get("trait", "").endswith("Default"):
                return {"default " + short(c.get("self", ""))}
            return {short(c.get("res") or fn) + "()"}
        if rv[0] == "use":
            return self.op(rv[1], seen, stop)
        if rv[0] in ("ref", "addr"):
            return self.origins(rv[2], seen, stop)
        if rv[0] == "cast":
            return self.op(rv[2], seen, stop)
        if rv[0] == "agg":
            s = set()
            for o in rv[4] if len(rv) > 4 else rv[-1]:
                s |= {x for x in self.op(o, seen, stop) if not x.startswith("const")}
            return s or {"const " + short(str(rv[2]))}
        return set()

    def succ(self, i):
        t = self.bl[i]["t"]
        if t[0] == "goto":
            return [t[1]]
        if t[0] == "switch":
            return [x[1] for x in t[2]] + [t[3]]
        if t[0] == "call":
            return [t[4]] if t[4] is not None else []
        if t[0] == "drop":
            return [t[2]]
        if t[0] == "assert":
            return [t[4]]
        return []

    def first(self, start, pred, limit=400):
        """breadth-first: the first block satisfying pred"""
        q, seen = [start], set()
        while q and len(seen) < limit:
            i = q.pop(0)
            if i in seen or self.bl[i].get("cl"):
                continue
            seen.add(i)
            r = pred(i)
            if r is not None:
                return r
            q += self.succ(i)
        return None


def cname(c):
    return c.get("fn", "?").rsplit("::", 1)[-1]


def cstr(b, args):
    r = []
    for a in args:
        if a[0] == "k" and isinstance(a[1].get("v"), str) and a[1].get("ty", "").endswith("str"):
            r.append(a[1]["v"])
    return r


def ser_lines(F, k):
    """lines describing one Serialize impl"""
    b = Body(F.body(k))
    out, skip, skips, var = [], {}, set(), {}
    for i, bb in b.live():
        for st in bb["s"]:
            if st[0] == "=" and st[2][0] == "discr" and bb["t"][0] == "switch" and b.origins(st[2][1]) == {"self"}:
                tg = {str(v): j for v, j in bb["t"][2]}
                for v, nm in st[2][2].items():
                    var[tg.get(v, bb["t"][3])] = nm
    owner = {}
    for j, nm in var.items():
        b.first(j, lambda q: owner.setdefault(q, set()).add(nm))
    # predicates: bool calls on a field, switched on
    for i, c, args, tgt in b.calls():
        if not args or "fn" not in c or cname(c) in ("branch",):
            continue
        t = b.bl[tgt]["t"] if tgt is not None else [""]
        if t[0] == "switch" and t[1][0] in ("c", "m") and t[1][1] == b.bl[i]["t"][3]:
            for o in b.op(args[0]):
                if o.startswith("self"):
                    skip[o[5:]] = short(c.get("res") or c["fn"]) + short(",".join(c.get("ga", [])) if c["fn"].startswith("core") else "")
                    skips.add(c["fn"])
    for i, c, args, tgt in b.calls():
        n = cname(c)
        if n in ("serialize_field", "serialize_entry", "serialize_newtype_variant", "serialize_unit_variant",
                 "serialize_newtype_struct", "serialize_struct_variant", "serialize_tuple_variant") or \
                (n == "serialize" and "ser::Serialize" in (c.get("trait") or c.get("fn", ""))):
            keys = cstr(b, args)
            src = sorted({o for a in args for o in b.op(a) if o.startswith("self")} - {"self"})
            cond = sorted({skip[s[5:]] for s in src if s.startswith("self.") and s[5:] in skip})
            extra = ""
            if n == "serialize" and not c.get("self", "").startswith(("&", "T")):
                extra = " as " + short(c.get("self", ""))
            if n == "serialize_unit_variant":
                keys = keys[-1:]
            elif n == "serialize_newtype_variant":
                keys = keys[-1:]
            if var and not any("@" in x for x in src):
                src = ["self@" + "|".join(sorted(owner.get(i, ["?"])))] + src
            out.append(f"writes {'/'.join(keys) or '(inline)'} <- {','.join(src) or n}{extra}"
                       + (f" unless {'/'.join(cond)}" if cond else ""))
        elif c.get("fn", "").startswith("tailcall") and n != "serialize" and c["fn"] not in skips:
            out.append(f"writes through {short(c['fn'])}")
    return out


def variants_of(F, k):
    return None


def keymap(F, prefix):
    """key -> generated field name, from __FieldVisitor::visit_str; plus what happens to other keys"""
    ks = [x for x in F.index if x.startswith(prefix[0]) and x.endswith("::visit_str")
          and "__FieldVisitor" in x and F.index[x]["kind"] == "fn"]
    res, other = {}, "ignored"
    for x in ks:
        b = Body(F.body(x))
        for i, c, args, tgt in b.calls():
            if cname(c) in ("unknown_field", "unknown_variant"):
                other = "rejected"
            if cname(c) != "eq":
                continue
            s = cstr(b, args)
            if not s:
                continue
            # the switch on the result: non-zero edge
            t = b.bl[tgt]["t"] if tgt is not None else None
            if not t or t[0] != "switch":
                continue

            def fld(j):
                for st in b.bl[j]["s"]:
                    if st[0] == "=" and st[2][0] == "agg" and "__Field" in str(st[2][2]):
                        return st[2][3][0]
                return None
            f = b.first(t[3], fld)
            if f:
                res[s[0]] = f
        if other != "rejected":
            for i, bb in b.live():
                for st in bb["s"]:
                    if st[0] == "=" and st[2][0] == "agg" and "__Field" in str(st[2][2]) and st[2][3][0] == "__other":
                        other = "collected"
    return res, other


def de_lines(F, k, kids):
    """lines describing one Deserialize impl; k is the `deserialize` body, kids the bodies nested in it"""
    out = []
    pre = k + "::"
    keys, other = keymap(F, ("<" + pre,))
    inv = collections.defaultdict(list)
    for s, f in keys.items():
        inv[f].append(s)
    vm = [x for x in kids if x.endswith("::visit_map") and "__Visitor" in x]
    ve = [x for x in kids if x.endswith("::visit_enum") and "__Visitor" in x]
    for x in vm:
        b = Body(F.body(x))
        slot = {}
        vtype = {}
        disp = None
        for i, bb in b.live():
            for st in bb["s"]:
                if st[0] == "=" and st[2][0] == "discr" and "__Field" in str(st[2][3]) and "Option" not in str(st[2][3]) \
                        and "ControlFlow" not in str(st[2][3]) and bb["t"][0] == "switch":
                    disp = (i, st[2][2])
        tg, names, t = {}, {}, None
        if disp:
            t = b.bl[disp[0]]["t"]
            tg = {str(v): j for v, j in t[2]}
            names = disp[1]
        elif len(inv) == 1:
            # one field and no other key accepted: the generated enum has one variant and no switch
            t, names = ["", "", [], 0], {"0": next(iter(inv))}
        if names:
            for v, nm in names.items():
                j = tg.get(v, t[3])
                if nm in ("__ignore", "__other"):
                    continue

                def slotof(q):
                    tt = b.bl[q]["t"]
                    if tt[0] == "call" and cname(tt[1][1]) == "is_some":
                        for st in b.bl[q]["s"]:
                            if st[0] == "=" and st[2][0] == "ref" and len(st[2][2]) == 1:
                                return st[2][2][0]
                        return -1
                    return None

                def valty(q):
                    tt = b.bl[q]["t"]
                    if tt[0] == "call" and cname(tt[1][1]) == "next_value":
                        return tt[1][1]["ga"][-1]
                    return None
                l = b.first(j, slotof)
                if l is not None and l >= 0:
                    slot[l] = nm
                vtype[nm] = b.first(j, valty) or "?"
        for i, bb in b.live():
            for st in bb["s"]:
                if st[0] == "=" and st[2][0] == "agg" and st[2][1] == "adt" and len(st[2][3]) > 1:
                    nm = st[2][2]
                    if nm.startswith(("core::", "std::", "alloc::", "serde::")) or "__" in nm.rsplit("::", 1)[-1]:
                        continue
                    for f, o in zip(st[2][3][1:], st[2][4]):
                        os_ = b.op(o, stop=slot)
                        sl = sorted(x[4:] for x in os_ if x.startswith("slot"))
                        els = sorted(x for x in os_ if not x.startswith("slot"))
                        ks = sorted(q for s in sl for q in inv.get(s, [s]))
                        vt = "/".join(short(with_fn(F, vtype.get(s, "?"))) for s in sl)
                        out.append(f"reads {f} <- {'|'.join(ks) or '-'} : {vt} else {'/'.join(els) or '-'}")
                    out.append(f"unknown keys {other}")
    for x in ve:
        b = Body(F.body(x))
        for i, bb in b.live():
            for st in bb["s"]:
                if st[0] == "=" and st[2][0] == "discr" and "__Field" in str(st[2][3]) and "ControlFlow" not in str(st[2][3]) \
                        and "(" not in str(st[2][3])[:1] and bb["t"][0] == "switch":
                    tg = {str(v): j for v, j in bb["t"][2]}
                    for v, nm in st[2][2].items():
                        def access(q):
                            tt = b.bl[q]["t"]
                            if tt[0] == "call" and cname(tt[1][1]) in ("unit_variant", "newtype_variant", "struct_variant", "tuple_variant"):
                                return cname(tt[1][1]) + ("<" + short(tt[1][1]["ga"][-1]) + ">" if cname(tt[1][1]) == "newtype_variant" else "")
                            return None

                        def made(q):
                            for s2 in b.bl[q]["s"]:
                                if s2[0] == "=" and s2[2][0] == "agg" and s2[2][1] == "adt" and not s2[2][2].startswith(("core::", "serde::", "alloc::")) \
                                        and "__" not in s2[2][2].rsplit("::", 1)[-1]:
                                    return s2[2][3][0]
                            tt = b.bl[q]["t"]
                            if tt[0] == "call":
                                for a in tt[2]:
                                    if a[0] == "k" and "fn" in a[1]:
                                        return a[1]["fn"].rsplit("::", 1)[-1]
                            return None
                        j = tg.get(v, bb["t"][3])
                        out.append(f"reads variant {b.first(j, made)} <- {'|'.join(sorted(inv.get(nm, [nm])))} : {b.first(j, access)}")
                    out.append(f"unknown variants {other}")
    if not vm and not ve:
        b = Body(F.body(k))
        for i, c, args, tgt in b.calls():
            if "fn" not in c or PLUMB.search(c["fn"]):
                continue
            n = cname(c)
            ty = short(c.get("self") or (c.get("ga") or [""])[-1])
            if n == "deserialize" or c["fn"].startswith("tailcall") or n.startswith("deserialize_"):
                out.append(f"reads through {n} {ty}")
    return out


def with_fn(F, t):
    """what a generated __DeserializeWith wrapper calls"""
    if "__DeserializeWith" not in t:
        return t
    n = re.sub(r"<.*", "", t.rsplit("::", 1)[-1])
    head = t
    for x in F.index:
        if "__DeserializeWith" in x and x.endswith("::deserialize") and F.index[x]["kind"] == "fn":
            q = re.sub(r"^<| as serde.*", "", x)
            if re.sub(r"<'de>$", "", q) == re.sub(r"<'\w+>$", "", head) or q == head:
                r = [short(c["fn"]) for i, c, a, g in Body(F.body(x)).calls() if "fn" in c and not PLUMB.search(c["fn"])]
                return "with " + "+".join(r)
    return t


def shapes(F, files=None):
    """type -> lines"""
    res = {}
    rx = re.compile(files) if files else None
    pre = collections.defaultdict(list)
    for x, d in F.index.items():
        if d["kind"] == "fn" and "::deserialize::" in x:
            m = re.search(r"[\w:]*::_::<impl serde::de::Deserialize<'de> for .*?>::deserialize(?=::)", x)
            if m:
                pre[m.group(0)].append(x)
    for x, d in sorted(F.index.items()):
        if d["kind"] != "fn" or (rx and not rx.search(d["file"])) or not d.get("exp"):
            continue
        m = re.search(r"impl serde::ser::Serialize for (.*)>::serialize$", x)
        if m and "::serialize::" not in x:
            res.setdefault(m.group(1), []).extend(ser_lines(F, x))
        m = re.search(r"impl serde::de::Deserialize<'de> for (.*)>::deserialize$", x)
        if m and "__Field" not in x:
            res.setdefault(m.group(1), []).extend(de_lines(F, x, pre.get(x, [])))
    return res
