"""P48, beyond the tables: what config_document prints of the configuration. Every field of the configuration that holds a
part of the SDL has to be read by the printing code; a place that builds a field or argument has to read all its parts."""

MOD = "tailcall::core::config::into_document::"
CFG = "tailcall::core::config::config::"


def reads(x, out):
    """(struct, field) of every place of a MIR fragment"""
    if isinstance(x, list):
        if len(x) == 3 and x[0] == "f" and isinstance(x[1], str) and isinstance(x[2], str) and x[2].startswith(CFG):
            out.add((x[2][len(CFG):], x[1]))
        for y in x:
            reads(y, out)
    elif isinstance(x, dict):
        for y in x.values():
            reads(y, out)
    return out


def places(x):
    """every place [local, proj...] of a MIR fragment"""
    if isinstance(x, list):
        if len(x) > 1 and isinstance(x[0], int) and not isinstance(x[0], bool) and all(p == "*" or isinstance(p, list) for p in x[1:]):
            yield x
        for y in x:
            yield from places(y)
    elif isinstance(x, dict):
        for y in x.values():
            yield from places(y)


def aggs(x, out):
    if isinstance(x, list):
        if len(x) > 2 and x[0] == "agg" and isinstance(x[2], str):
            out.add(x[2])
        for y in x:
            aggs(y, out)
    elif isinstance(x, dict):
        for y in x.values():
            aggs(y, out)
    return out


def calls(B):
    for bl in B["blocks"]:
        t = bl["t"]
        if t[0] == "call" and isinstance(t[1], list) and isinstance(t[1][1], dict):
            yield t[1][1].get("res") or t[1][1].get("fn") or ""


def check(ctx):
    F = ctx.F
    root = MOD + "config_document"
    if root not in F.index:
        ctx.fail("anchor/config_document", "config_document not found")
        return
    mine = [k for k in F.index if k.startswith(MOD)]

    def reach(b):
        """the body and everything of the module that it reaches: closures, calls, functions passed as values"""
        todo, out = [b], set()
        while todo:
            b = todo.pop()
            if b in out or b not in F.index:
                continue
            out.add(b)
            todo += [k for k in mine if k.startswith(b + "::{closure")]
            text = str(F.body(b)["blocks"])
            todo += [k for k in mine if ("'" + k + "'") in text]
        return out

    seen = reach(root)
    ctx.functions |= seen
    per = {b: reads(F.body(b)["blocks"], set()) for b in seen}
    allr = set().union(*per.values())
    for s in ("Config", "RootSchema", "Type", "Field", "Arg", "Union", "Enum", "Variant"):
        adt = F.adts.get(CFG + s)
        if not adt:
            ctx.fail(f"anchor/{s}", f"the configuration struct {s} not found")
            continue
        for f in adt["variants"][0][1]:
            ctx.ob(f"printed/{s}.{f[0]}", (s, f[0]) in allr,
                   f"{s}.{f[0]} is never read when the configuration is printed, so it is lost", ctx.loc(root))
    # the places that build a field or an argument
    n = 0
    for b in sorted(seen):
        tree = reach(b)
        ag = aggs(F.body(b)["blocks"], set())
        r = set().union(*(per[k] for k in tree))
        kind = next((k for k in ("FieldDefinition", "InputValueDefinition") if any(a.endswith("::" + k) for a in ag)), None)
        if not kind:
            continue
        n += 1
        if kind == "FieldDefinition":
            owner = "output"
            need = [("Field", x) for x in ("type_of", "doc", "args")]
        elif ("Arg", "type_of") in r:
            owner, need = "argument", [("Arg", x) for x in ("type_of", "doc", "default_value", "modify")]
        else:
            owner, need = "input", [("Field", x) for x in ("type_of", "doc", "default_value")]
        for s, f in need:
            ctx.ob(f"printed-at/{owner}/{s}.{f}", (s, f) in r,
                   f"an {owner} {'field' if owner != 'argument' else 'definition'} is printed without its {f}", ctx.loc(b))
        if owner != "argument":
            ctx.ob(f"printed-at/{owner}/directives", any(c == MOD + "field_directives" for k in tree for c in calls(F.body(k))),
                   f"an {owner} field is printed without its directives", ctx.loc(b))
    ctx.ob("printed-at/places", n >= 2, f"only {n} places that build field or argument definitions found (at least 2 on the analysed tree)", ctx.loc(root))
    # the text of an argument
    pf = "tailcall::core::document::print_field"
    if pf not in F.index:
        ctx.fail("anchor/print_field", "document::print_field not found")
        return
    got = set()
    for k in F.index:
        if k == pf or k.startswith(pf + "::{closure"):
            B = F.body(k)
            for p in places(B["blocks"]):
                if p[0] < len(B["locals"]) and "InputValueDefinition" in str(B["locals"][p[0]][0]):
                    got |= {e[1] for e in p[1:] if isinstance(e, list) and e[0] == "f"}
    for f in ("name", "ty", "default_value", "directives", "description"):
        ctx.ob(f"printed-argument/{f}", f in got, f"the {f} of an argument is not printed", ctx.loc(pf))
