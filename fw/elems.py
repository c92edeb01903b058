from terms import T, subterms

_ELEMS = {}


def elem_terms(t):
    """the loop elements a term speaks about"""
    r = _ELEMS.get(t)
    if r is None:
        r = _ELEMS[t] = frozenset(x for x in subterms(t) if isinstance(x, T) and x.op == "elem") if t.haselem else frozenset()
    return r


_FREE = {}
PICKS = {"last", "nth", "min", "max", "min_by", "max_by", "min_by_key", "max_by_key"}    # one element of all


def free_elems(t):
    """the elements a term speaks about, without those its collections range over"""
    r = _FREE.get(t)
    if r is not None:
        return r
    r = frozenset()
    if t.haselem:
        def kids(a):
            s = frozenset()
            for x in a:
                if isinstance(x, T):
                    s |= free_elems(x)
                elif isinstance(x, (tuple, frozenset)):
                    s |= kids(x)
            return s
        r = kids(t.a)
        if t.op in ("elem", "cur"):
            r |= {t}
        elif (t.op == "coll" and t.a[0].op == "k" or t.op == "call" and t.a[0] in PICKS) and r:
            inner = frozenset(y for x in r for y in elem_terms(x) if y is not x)
            r = frozenset(x for x in r if x in inner)
    _FREE[t] = r
    return r
