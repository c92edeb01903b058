"""Document shapes (fw/serde_shape.py) against a committed list of keys, and against each other."""
import os, re, sys
import serde_shape as S

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def parse(path):
    res, cur = {}, None
    for l in open(path):
        l = l.rstrip("\n")
        if l.startswith("## "):
            cur = res.setdefault(l[3:], set())
        elif l.strip():
            cur.add(l)
    return res


def rules(lines):
    """keys written are read back into the same field; a field that may be left out has a stand-in"""
    bad = []
    rd = {}
    for l in lines:
        m = re.match(r"reads (\S+) <- (\S+) : .* else (.*)$", l)
        if m:
            for k in m.group(2).split("|"):
                rd[k] = (m.group(1), m.group(3), l)
    if not rd:
        return bad
    for l in lines:
        m = re.match(r"writes (\S+) <- self\.(\S+?)(?: unless (.*))?$", l)
        if not m or m.group(1) == "(inline)":
            continue
        key, f, skip = m.groups()
        if key not in rd:
            if "unknown keys rejected" in lines:
                bad.append((key, f"the key {key} is written but rejected when read back"))
        elif rd[key][0] != f:
            bad.append((key, f"the key {key} is written from {f} but read into {rd[key][0]}"))
        elif skip and rd[key][1] == "required" and "Option<" not in rd[key][2]:
            bad.append((key, f"the key {key} may be left out but is required when read back"))
    return bad


def check(ctx, rx, name):
    spec = parse(os.path.join(VERIF, "specs", name))
    got = {t: set(ls) for t, ls in S.shapes(ctx.F).items() if re.search(rx, t)}
    n = 0
    for t, ls in sorted(spec.items()):
        g = got.get(t)
        if g is None:
            ctx.fail(f"shape/{t}", "the type no longer has the derived document shape")
            continue
        n += len(ls)
        for l in sorted(ls - g):
            near = [x for x in sorted(g - ls) if x.split(" ")[:2] == l.split(" ")[:2]]
            ctx.fail(f"shape/{t}/{l}", f"expected `{l}`" + (f", found `{near[0]}`" if near else ""), t)
        for l in sorted(g - ls):
            ctx.fail(f"shape/{t}/+{l}", f"unexpected `{l}`", t)
        for l in ls & g:
            ctx.ob(f"shape/{t}/{l}", True)
    for t, g in sorted(got.items()):
        if t not in spec:
            ctx.notes.append(f"new type {t} only checked for agreement of reading and writing")
        for k, m in rules(g):
            if "left out" in m and "cli::generator" in t:
                continue        # the generator's own configuration is only ever read
            ctx.fail(f"agree/{t}/{k}", m, t)
        ctx.ob(f"agree/{t}", True)
    for x, d in ctx.F.index.items():
        if "_::<impl serde::" in x and re.search(rx, x.split("_::<impl")[0].lstrip("<")) and d["kind"] == "fn":
            ctx.functions.add(x)
    ctx.floor("key facts", n, max(1, int(0.95 * sum(map(len, spec.values())))))


if __name__ == "__main__":
    from facts import Facts
    F = Facts()
    for t, ls in sorted(S.shapes(F).items()):
        if re.search(sys.argv[1], t):
            print("##", t)
            for l in sorted(set(ls)):
                print(l)
            print()
