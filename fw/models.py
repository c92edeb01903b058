"""Transfer functions for the library calls the analysed code is made of."""
import re
from terms import *
from elems import elem_terms, free_elems
STEPOPS = ("call", "pay", "fld", "in", "any", "bin", "await", "loop", "elem", "cur")

MODELS = {}
REMODELS = []

GUARD = re.compile(r"Mutex\w*Guard<|RwLock(Write)?Guard<|cell::RefMut<|::RefMut<")


def model(*names):
    def deco(f):
        for n in names:
            if n.startswith("re:"):
                REMODELS.append((re.compile(n[3:]), f))
            else:
                MODELS[n] = f
        return f
    return deco


O = "core::option::Option::"
R = "core::result::Result::"
IT = "core::iter::traits::iterator::Iterator::"


def d(I, st, x):
    return I.deref(st, x)


# ---------------------------------------------------------------------- identity like
@model("core::clone::Clone::clone", "alloc::borrow::ToOwned::to_owned")
def f(I, st, a, ctx, cc, loc):
    # a copy of the value: later writes to the original do not change it (shared handles stay shared)
    t = a[0]
    if t.op == "ref" and not cc.get("self", "").startswith(("alloc::sync::Arc<", "alloc::rc::Rc<", "&")):
        v = I.walk(st, I.read_cell(st, t.a[0]), t.a[1])
        if v is not None:
            t = v
    return [(st, t)]


@model("core::ops::deref::Deref::deref", "core::ops::deref::DerefMut::deref_mut",
       "core::convert::AsRef::as_ref", "core::convert::AsMut::as_mut", "core::borrow::Borrow::borrow",
       "core::borrow::BorrowMut::borrow_mut",
       O + "as_ref", O + "as_deref",
       O + "cloned", O + "copied", R + "as_ref", R + "as_deref", R + "cloned", R + "copied",
       "alloc::boxed::Box::new", "alloc::boxed::Box::pin", "alloc::sync::Arc::new", "alloc::rc::Rc::new",
       "alloc::string::String::as_str", "alloc::string::String::as_bytes", "alloc::vec::Vec::as_slice",
       "alloc::vec::Vec::as_mut_slice", "alloc::string::String::into_boxed_str", "alloc::slice::<impl [T]>::into_vec",
       "core::str::<impl str>::as_bytes", "alloc::slice::<impl [T]>::to_vec",
       "core::pin::Pin::new", "core::pin::Pin::new_unchecked", "core::pin::Pin::as_mut", "core::pin::Pin::get_mut",
       "core::future::into_future::IntoFuture::into_future", "alloc::borrow::Cow::into_owned", "alloc::borrow::Cow::to_mut",
       "core::hint::must_use", "anyhow::__private::must_use", "core::hint::black_box", "alloc::vec::Vec::into_boxed_slice",
       "alloc::str::<impl str>::into_string", "alloc::str::<impl str>::to_owned", "core::convert::identity",
       "alloc::boxed::Box::into_pin", "alloc::boxed::Box::from", "futures_util::future::future::FutureExt::boxed",
       "core::iter::traits::iterator::Iterator::by_ref", "core::ops::deref::Deref::deref", "alloc::boxed::box_new",
       "alloc::boxed::Box::write", "alloc::boxed::Box::assume_init", "alloc::slice::<impl [T]>::into_vec",
       "core::mem::manually_drop::ManuallyDrop::new", "alloc::boxed::Box::leak", "alloc::boxed::Box::into_inner",
       "core::mem::maybe_uninit::MaybeUninit::assume_init", "alloc::sync::Arc::unwrap_or_clone",
       "async_graphql_value::Name::new", "async_graphql_value::Name::as_str",
       "alloc::string::String::into_bytes", "thiserror::display::AsDisplay::as_display",
       "thiserror::aserror::AsDynError::as_dyn_error")
def ident(I, st, a, ctx, cc, loc):
    if not a:
        return None
    return [(st, a[0])]


@model(O + "as_mut", O + "as_deref_mut", R + "as_mut")
def f(I, st, a, ctx, cc, loc):
    """an exclusive reference to what is inside: later writes reach it"""
    if a[0].op != "ref":
        return [(st, a[0])]
    r = target_of(I, st, a[0])
    v = I.deref(st, r)
    out = []
    if cc["fn"].startswith(O):
        for s, p in I.opt(st, v):
            out.append((s, NONE if p is None else some(mk("ref", r.a[0], r.a[1] + (("v", "Some"), ("f", "0")), 1))))
    else:
        for s, v2, p in I.res(st, v):
            x = mk("ref", r.a[0], r.a[1] + (("v", v2), ("f", "0")), 1)
            out.append((s, ok(x) if v2 == "Ok" else err(x)))
    return out


STRS = ("&str", "str", "alloc::string::String", "&alloc::string::String", "&&str", "alloc::borrow::Cow<'_, str>",
        "alloc::borrow::Cow<str>", "alloc::sync::Arc<str>", "alloc::boxed::Box<str>", "char", "&&&str", "&char",
        "&&alloc::string::String", "alloc::borrow::Cow<'_, str>", "async_graphql_value::Name", "&async_graphql_value::Name",
        "&&async_graphql_value::Name")


@model("alloc::string::ToString::to_string")
def to_string(I, st, a, ctx, cc, loc):
    s = re.sub(r"'\w+ ?", "", cc.get("self", ""))
    if s in STRS or s.startswith("alloc::borrow::Cow<"):
        return [(st, I.deep(st, a[0]))]
    # user types print through their Display impl
    return I.opaque_call(st, "to_string", a, ctx)


WRAP = ("alloc::boxed::Box<", "alloc::sync::Arc<", "alloc::rc::Rc<", "alloc::borrow::Cow<", "alloc::vec::Vec<",
        "alloc::string::String")


@model("core::convert::From::from", "core::convert::Into::into",
       "re:^<.* as core::convert::From>::from$", "re:^<.* as core::convert::Into>::into$",
       "re:^<.* as core::convert::From<.*>>::from$", "re:^<.* as core::convert::Into<.*>>::into$")
def conv(I, st, a, ctx, cc, loc):
    ga = cc.get("ga", [])
    fn = cc["fn"]
    if len(ga) < 2:
        # resolved form, types only from self
        dst, src = cc.get("self", ""), ""
    elif fn.endswith("Into::into"):
        src, dst = ga[0], ga[1]
    else:
        dst, src = ga[0], ga[1]
    dn = re.sub(r"'\w+ ?", "", dst)
    sn = re.sub(r"'\w+ ?", "", src)
    if dn == sn:
        return [(st, a[0])]
    if dn.startswith("core::option::Option<") and not sn.startswith(("core::option::Option<", "&core::option")):
        return [(st, some(a[0]))]
    if dn.startswith(WRAP) or dn in STRS:
        return [(st, a[0])]
    if dn.startswith("tailcall_valid::valid::Valid<") and sn.startswith(("core::result::Result<", "tailcall_valid::valid::Fusion<")):
        return [(st, a[0])]
    # find a workspace From impl
    for im in I.F.impl_by.get("core::convert::From", ()):
        pass
    if fn.endswith("Into::into"):
        hit = None
        for kx in I.F.by_norm:
            pass
        hit = find_from(I, dn, sn)
        if hit:
            outs = I.run_body(hit, a, st, {}, ctx) if I.stack.count(hit) == 0 and not I.is_opaque(hit) else None
            if outs is not None:
                return [(o.st, o.ret) for o in outs]
    elif cc.get("res") in I.F.index:
        return None
    if re.match(r"^[iuf](8|16|32|64|128|size)$", dn) and re.match(r"^[iuf](8|16|32|64|128|size)$", sn):
        return [(st, a[0])]
    return I.opaque_call(st, f"into<{re.sub(r'<.*', '', dn)}>", a, ctx)


def find_from(I, dst, src):
    tab = getattr(I.F, "_from", None)
    if tab is None:
        tab = {}
        for kx, dd in I.F.index.items():
            r = dd.get("implref")
            if r and dd.get("name") == "from" and dd.get("impltrait") == "core::convert::From":
                m = re.match(r"<(.*) as core::convert::From<(.*)>>$", re.sub(r"'\w+ ?", "", r))
                if m:
                    tab[(m.group(1), m.group(2))] = kx
        I.F._from = tab
    return tab.get((dst, src))


# ---------------------------------------------------------------------- Option / Result
@model(O + "is_some")
def f(I, st, a, ctx, cc, loc):
    return [(s, k(p is not None)) for s, p in I.opt(st, a[0])]


@model(O + "is_none")
def f(I, st, a, ctx, cc, loc):
    return [(s, k(p is None)) for s, p in I.opt(st, a[0])]


@model(R + "is_ok")
def f(I, st, a, ctx, cc, loc):
    return [(s, k(v == "Ok")) for s, v, p in I.res(st, a[0])]


@model(R + "is_err")
def f(I, st, a, ctx, cc, loc):
    return [(s, k(v == "Err")) for s, v, p in I.res(st, a[0])]


@model(O + "is_some_and", O + "is_none_or")
def f(I, st, a, ctx, cc, loc):
    none = k(cc["fn"].endswith("is_none_or"))
    out = []
    for s, p in I.opt(st, a[0]):
        out += [(s, none)] if p is None else I.call_value(s, a[1], [p], (ctx, "c"), loc)
    return out


@model(R + "is_ok_and", R + "is_err_and")
def f(I, st, a, ctx, cc, loc):
    want = "Ok" if cc["fn"].endswith("is_ok_and") else "Err"
    out = []
    for s, v, p in I.res(st, a[0]):
        out += I.call_value(s, a[1], [p], (ctx, "c"), loc) if v == want else [(s, FALSE)]
    return out


@model(O + "map")
def f(I, st, a, ctx, cc, loc):
    out = []
    for s, p in I.opt(st, a[0]):
        if p is None:
            out.append((s, NONE))
        else:
            out += [(s2, some(r)) for s2, r in I.call_value(s, a[1], [p], (ctx, "c"), loc)]
    return out


@model(O + "inspect")
def f(I, st, a, ctx, cc, loc):
    return [(st, a[0])]


@model(O + "and_then")
def f(I, st, a, ctx, cc, loc):
    out = []
    for s, p in I.opt(st, a[0]):
        out += [(s, NONE)] if p is None else I.call_value(s, a[1], [p], (ctx, "c"), loc)
    return out


@model(O + "filter")
def f(I, st, a, ctx, cc, loc):
    out = []
    for s, p in I.opt(st, a[0]):
        if p is None:
            out.append((s, NONE))
        else:
            for s2, r in I.call_value(s, a[1], [p], (ctx, "c"), loc):
                for s3, b in I.split_bool(s2, r):
                    out.append((s3, some(p) if b else NONE))
    return out


@model(O + "or")
def f(I, st, a, ctx, cc, loc):
    return [(s, some(p) if p is not None else a[1]) for s, p in I.opt(st, a[0])]


@model(O + "and")
def f(I, st, a, ctx, cc, loc):
    return [(s, a[1] if p is not None else NONE) for s, p in I.opt(st, a[0])]


@model(O + "xor")
def f(I, st, a, ctx, cc, loc):
    out = []
    for s, p in I.opt(st, a[0]):
        for s2, q in I.opt(s, a[1]):
            out.append((s2, some(p) if p is not None and q is None else some(q) if q is not None and p is None else NONE))
    return out


@model(O + "or_else")
def f(I, st, a, ctx, cc, loc):
    out = []
    for s, p in I.opt(st, a[0]):
        out += [(s, some(p))] if p is not None else I.call_value(s, a[1], [], (ctx, "c"), loc)
    return out


@model(O + "unwrap_or")
def f(I, st, a, ctx, cc, loc):
    return [(s, p if p is not None else a[1]) for s, p in I.opt(st, a[0])]


@model(O + "unwrap_or_else")
def f(I, st, a, ctx, cc, loc):
    out = []
    for s, p in I.opt(st, a[0]):
        out += [(s, p)] if p is not None else I.call_value(s, a[1], [], (ctx, "c"), loc)
    return out


def default_of(I, ty):
    ty = re.sub(r"'\w+ ?", "", ty)
    if ty == "bool":
        return FALSE
    if re.match(r"^[iu](8|16|32|64|128|size)$", ty):
        return k(0)
    if ty in ("alloc::string::String", "&str"):
        return k("")
    if ty.startswith("core::option::Option<"):
        return NONE
    if re.match(r"^(alloc::vec::Vec|std::collections|alloc::collections|indexmap|http::header::map::HeaderMap|hashbrown|alloc::vec)", ty):
        return mk("coll", k(""))
    if ty == "()":
        return UNIT
    return None


def defaults(I, st, ty, ctx, loc):
    """the default of a type: what its implementation here returns, else a symbol"""
    dv = default_of(I, ty)
    if dv is None:
        f = f"<{ty} as core::default::Default>::default"
        if f in I.F.index and I.stack.count(f) == 0:
            np = len(I.panics)
            rs = [(o.st, o.ret) for o in I.run_body(f, [], st, {}, (ctx, "df"))]
            if rs:
                return rs
            del I.panics[np:]
        dv = mk("call", "default", k(ty))
    return [(st, dv)]


@model(O + "unwrap_or_default")
def f(I, st, a, ctx, cc, loc):
    return [r for s, p in I.opt(st, a[0]) for r in ([(s, p)] if p is not None else defaults(I, s, cc["ga"][0], ctx, loc))]


@model(R + "unwrap_or_default")
def f(I, st, a, ctx, cc, loc):
    return [r for s, v, p in I.res(st, a[0]) for r in ([(s, p)] if v == "Ok" else defaults(I, s, cc["ga"][0], ctx, loc))]


@model("core::default::Default::default", "re:^<.* as core::default::Default>::default$")
def f(I, st, a, ctx, cc, loc):
    if cc.get("res") in I.F.index:
        return None
    dv = default_of(I, cc.get("self", "")) if cc.get("self") else None
    return [(st, dv if dv is not None else mk("call", "default", k(cc.get("self", ""))))]


@model(O + "map_or")
def f(I, st, a, ctx, cc, loc):
    out = []
    for s, p in I.opt(st, a[0]):
        out += [(s, a[1])] if p is None else I.call_value(s, a[2], [p], (ctx, "c"), loc)
    return out


@model(O + "map_or_else")
def f(I, st, a, ctx, cc, loc):
    out = []
    for s, p in I.opt(st, a[0]):
        out += I.call_value(s, a[1], [], (ctx, "d"), loc) if p is None else I.call_value(s, a[2], [p], (ctx, "c"), loc)
    return out


@model(O + "ok_or")
def f(I, st, a, ctx, cc, loc):
    return [(s, ok(p) if p is not None else err(a[1])) for s, p in I.opt(st, a[0])]


@model(O + "ok_or_else")
def f(I, st, a, ctx, cc, loc):
    out = []
    for s, p in I.opt(st, a[0]):
        out += [(s, ok(p))] if p is not None else [(s2, err(r)) for s2, r in I.call_value(s, a[1], [], (ctx, "c"), loc)]
    return out


@model(O + "zip")
def f(I, st, a, ctx, cc, loc):
    out = []
    for s, p in I.opt(st, a[0]):
        if p is None:
            out.append((s, NONE))
        else:
            for s2, q in I.opt(s, a[1]):
                out.append((s2, some(tup(p, q)) if q is not None else NONE))
    return out


@model(O + "flatten")
def f(I, st, a, ctx, cc, loc):
    return [(s, p if p is not None else NONE) for s, p in I.opt(st, a[0])]


@model(O + "transpose")
def f(I, st, a, ctx, cc, loc):
    out = []
    for s, p in I.opt(st, a[0]):
        if p is None:
            out.append((s, ok(NONE)))
        else:
            for s2, v, q in I.res(s, p):
                out.append((s2, ok(some(q)) if v == "Ok" else err(q)))
    return out


@model(R + "transpose")
def f(I, st, a, ctx, cc, loc):
    out = []
    for s, v, p in I.res(st, a[0]):
        if v == "Err":
            out.append((s, some(err(p))))
        else:
            for s2, q in I.opt(s, p):
                out.append((s2, some(ok(q)) if q is not None else NONE))
    return out


@model(O + "take")
def f(I, st, a, ctx, cc, loc):
    v = d(I, st, a[0])
    s = st.copy()
    if a[0].op == "ref":
        I.write(s, a[0].a[0], a[0].a[1], NONE)
    return [(s, v)]


@model(O + "replace", "core::mem::replace")
def f(I, st, a, ctx, cc, loc):
    v = d(I, st, a[0])
    s = st.copy()
    nv = some(a[1]) if cc["fn"].endswith("Option::<T>::replace") else a[1]
    if a[0].op == "ref":
        I.write(s, a[0].a[0], a[0].a[1], nv)
    return [(s, v)]


@model(O + "insert")
def f(I, st, a, ctx, cc, loc):
    s = st.copy()
    if a[0].op == "ref":
        I.write(s, a[0].a[0], a[0].a[1], some(a[1]))
    return [(s, a[1])]


@model(O + "get_or_insert_with", O + "get_or_insert")
def f(I, st, a, ctx, cc, loc):
    out = []
    for s, p in I.opt(st, a[0]):
        if p is not None:
            out.append((s, p))
        else:
            rs = [(s, a[1])] if not cc["fn"].endswith("with") else I.call_value(s, a[1], [], (ctx, "c"), loc)
            for s2, r in rs:
                s2 = s2.copy()
                if a[0].op == "ref":
                    I.write(s2, a[0].a[0], a[0].a[1], some(r))
                out.append((s2, r))
    return out


@model("core::mem::take")
def f(I, st, a, ctx, cc, loc):
    v = d(I, st, a[0])
    out = []
    for s, dv in defaults(I, st, cc["ga"][0], ctx, loc):
        s = s.copy()
        if a[0].op == "ref":
            I.write(s, a[0].a[0], a[0].a[1], dv)
        out.append((s, v))
    return out


@model("core::mem::swap")
def f(I, st, a, ctx, cc, loc):
    x, y = d(I, st, a[0]), d(I, st, a[1])
    s = st.copy()
    if a[0].op == "ref":
        I.write(s, a[0].a[0], a[0].a[1], y)
    if a[1].op == "ref":
        I.write(s, a[1].a[0], a[1].a[1], x)
    return [(s, UNIT)]


@model("core::mem::drop", "core::mem::forget")
def f(I, st, a, ctx, cc, loc):
    if I.effects and any(GUARD.search(x) for x in cc.get("ga", [])):
        st = st.copy()
        I.release(st, a[0], "")
    return [(st, UNIT)]


@model(R + "map")
def f(I, st, a, ctx, cc, loc):
    out = []
    for s, v, p in I.res(st, a[0]):
        out += [(s2, ok(r)) for s2, r in I.call_value(s, a[1], [p], (ctx, "c"), loc)] if v == "Ok" else [(s, err(p))]
    return out


@model(R + "map_err")
def f(I, st, a, ctx, cc, loc):
    out = []
    for s, v, p in I.res(st, a[0]):
        out += [(s2, err(r)) for s2, r in I.call_value(s, a[1], [p], (ctx, "c"), loc)] if v == "Err" else [(s, ok(p))]
    return out


@model(R + "and_then")
def f(I, st, a, ctx, cc, loc):
    out = []
    for s, v, p in I.res(st, a[0]):
        out += I.call_value(s, a[1], [p], (ctx, "c"), loc) if v == "Ok" else [(s, err(p))]
    return out


@model(R + "and")
def f(I, st, a, ctx, cc, loc):
    return [(s, a[1] if v == "Ok" else err(p)) for s, v, p in I.res(st, a[0])]


@model(R + "or")
def f(I, st, a, ctx, cc, loc):
    return [(s, ok(p) if v == "Ok" else a[1]) for s, v, p in I.res(st, a[0])]


@model(R + "or_else")
def f(I, st, a, ctx, cc, loc):
    out = []
    for s, v, p in I.res(st, a[0]):
        out += I.call_value(s, a[1], [p], (ctx, "c"), loc) if v == "Err" else [(s, ok(p))]
    return out


@model(R + "ok")
def f(I, st, a, ctx, cc, loc):
    if not I.result_used():
        return [(st, d(I, st, a[0]))]     # the result is thrown away
    return [(s, some(p) if v == "Ok" else NONE) for s, v, p in I.res(st, a[0])]


@model(R + "err")
def f(I, st, a, ctx, cc, loc):
    return [(s, some(p) if v == "Err" else NONE) for s, v, p in I.res(st, a[0])]


@model(R + "unwrap_or")
def f(I, st, a, ctx, cc, loc):
    return [(s, p if v == "Ok" else a[1]) for s, v, p in I.res(st, a[0])]


@model(R + "unwrap_or_else")
def f(I, st, a, ctx, cc, loc):
    out = []
    for s, v, p in I.res(st, a[0]):
        out += [(s, p)] if v == "Ok" else I.call_value(s, a[1], [p], (ctx, "c"), loc)
    return out


@model(R + "map_or")
def f(I, st, a, ctx, cc, loc):
    out = []
    for s, v, p in I.res(st, a[0]):
        out += [(s, a[1])] if v == "Err" else I.call_value(s, a[2], [p], (ctx, "c"), loc)
    return out


@model(R + "map_or_else")
def f(I, st, a, ctx, cc, loc):
    out = []
    for s, v, p in I.res(st, a[0]):
        out += I.call_value(s, a[1], [p], (ctx, "d"), loc) if v == "Err" else I.call_value(s, a[2], [p], (ctx, "c"), loc)
    return out


@model(O + "unwrap", O + "expect")
def f(I, st, a, ctx, cc, loc):
    out = []
    for s, p in I.opt(st, a[0]):
        if p is None:
            I.panics.append(("unwrap", I.deep(s, a[0]), dict(s.facts), loc, I.stack[-1] if I.stack else "?", s.events))
        else:
            out.append((s, p))
    return out


@model(R + "unwrap", R + "expect", R + "unwrap_err", R + "expect_err")
def f(I, st, a, ctx, cc, loc):
    out = []
    want = "Err" if "_err" in cc["fn"] else "Ok"
    for s, v, p in I.res(st, a[0]):
        if v != want:
            I.panics.append(("unwrap", I.deep(s, a[0]), dict(s.facts), loc, I.stack[-1] if I.stack else "?", s.events))
        else:
            out.append((s, p))
    return out


CF = "core::ops::control_flow::ControlFlow"


@model("core::ops::try_trait::Try::branch", "re:as core::ops::try_trait::Try>::branch$")
def f(I, st, a, ctx, cc, loc):
    t = cc.get("self", "")
    if t.startswith("core::option::Option"):
        return [(s, agg(CF, "Continue", ("0",), p) if p is not None else agg(CF, "Break", ("0",), NONE))
                for s, p in I.opt(st, a[0])]
    if t.startswith("core::result::Result"):
        return [(s, agg(CF, "Continue", ("0",), p) if v == "Ok" else agg(CF, "Break", ("0",), err(p)))
                for s, v, p in I.res(st, a[0])]
    return None


@model("core::ops::try_trait::FromResidual::from_residual", "re:as core::ops::try_trait::FromResidual(<.*>)?>::from_residual$")
def f(I, st, a, ctx, cc, loc):
    v = d(I, st, a[0])
    t = cc.get("self", "")
    if v.op == "agg" and v.a[1] == "Err":
        # `?` converts the error with From
        e = v.a[3]
        ga = cc.get("ga", [])
        return [(st, err(e))]
    if v.op == "agg" and v.a[1] == "None":
        return [(st, NONE)]
    return [(st, v)]


@model("core::ops::try_trait::Try::from_output", "re:as core::ops::try_trait::Try>::from_output$")
def f(I, st, a, ctx, cc, loc):
    t = cc.get("self", "")
    return [(st, some(a[0]) if t.startswith("core::option") else ok(a[0]))]


# ---------------------------------------------------------------------- comparison
@model("core::cmp::PartialEq::eq", "re:^<.* as core::cmp::PartialEq(<.*>)?>::eq$",
       "core::cmp::impls::<impl core::cmp::PartialEq<&B> for &A>::eq", "re:impl core::cmp::PartialEq<.*>::eq$")
def f(I, st, a, ctx, cc, loc):
    if cc.get("res") in I.F.index and not I.F.index[cc["res"]].get("exp"):
        return None
    return eqs(I, st, a[0], a[1])


@model("core::cmp::PartialEq::ne", "re:^<.* as core::cmp::PartialEq(<.*>)?>::ne$", "re:impl core::cmp::PartialEq<.*>::ne$")
def f(I, st, a, ctx, cc, loc):
    if cc.get("res") in I.F.index and not I.F.index[cc["res"]].get("exp"):
        return None
    # `ne` defaults to !eq; a hand written eq is inlined
    slf = cc.get("self", "")
    for im in I.F.impl_by.get("core::cmp::PartialEq", ()):
        if im["self"] == slf.lstrip("&") and "eq" in im["items"]:
            kx = im["items"]["eq"]
            if kx in I.F.index and not I.F.index[kx].get("exp") and I.stack.count(kx) == 0:
                return [(o.st, I.negate(I.deref(o.st, o.ret))) for o in I.run_body(kx, a, st, {}, ctx)]
    return [(s, I.negate(v)) for s, v in eqs(I, st, a[0], a[1])]


def eq(I, st, x, y):
    x, y = I.deep(st, x), I.deep(st, y)
    # variant comparison of an enum with a unit variant
    for p, q in ((x, y), (y, x)):
        if q.op == "agg" and q.a[1] and len(q.a) == 3:
            v = I.variant_of(st, p)
            if v is not None:
                return k(v == q.a[1])
            if q.a[0] in (OPT,):
                return mk("bin", "Eq", p, q)
    return I.binop(st, "Eq", x, y)


def value_of(I, st, x, var):
    """fork on whether an enum value is of one variant: [(state, bool)]"""
    v = I.variant_of(st, x)
    if v is not None:
        return [(st, v == var)]
    b = x
    while b.op == "upd":
        b = b.a[0]
    f = st.facts.get(b)
    ex = f[1] if f is not None and f[0] == "nv" else frozenset()
    if var in ex:
        return [(st, False)]
    s1, s2 = st.copy(), st.copy()
    s1.set_fact(b, ("v", var))
    s2.set_fact(b, ("nv", ex | {var}))
    return [(s1, True), (s2, False)]


JSON_VARIANTS = {"null": "Null", "bool": "Bool", "boolean": "Bool", "number": "Number", "str": "String", "string": "String", "array": "Array", "object": "Object",
                 "i64": "Number", "u64": "Number", "f64": "Number"}


@model(r"re:^serde_json(_borrow)?::value::Value(::<.*>|<.*>)?::(is|as)_(null|bool|boolean|number|str|string|array|object|i64|u64|f64)$")
def f(I, st, a, ctx, cc, loc):
    how, what = re.search(r"::(is|as)_(\w+)$", cc["fn"]).groups()
    var = "Str" if cc["fn"].startswith("serde_json_borrow") and what in ("str", "string") else JSON_VARIANTS[what]
    if how == "is" and what in ("i64", "u64", "f64"):
        return None
    x = d(I, st, a[0])
    out = []
    for s, yes in value_of(I, st, x, var):
        if how == "is":
            out.append((s, TRUE if yes else FALSE))
        elif not yes:
            out.append((s, NONE))
        elif what == "null":
            out.append((s, some(agg("()", "", ()))))
        elif what in ("i64", "u64", "f64"):
            out += I.opaque_call(s, f"serde_json::number::Number::as_{what}", [I.payload(s, x, var, "0")], ctx)
        else:
            out.append((s, some(I.payload(s, x, var, "0"))))
    return out


def unit_eq(I, st, p, q):
    """comparison with a unit variant is a test of the variant"""
    v = I.variant_of(st, p)
    if v is not None:
        return [(st, k(v == q.a[1]))]
    b = p
    while b.op == "upd":
        b = b.a[0]
    f = st.facts.get(b)
    ex = f[1] if f is not None and f[0] == "nv" else frozenset()
    if q.a[1] in ex:
        return [(st, FALSE)]
    adt = I.F.adts.get(q.a[0])
    left = [x[0] for x in adt["variants"] if x[0] not in ex] if adt else None
    if left == [q.a[1]]:
        return [(st, TRUE)]
    s1, s2 = st.copy(), st.copy()
    s1.set_fact(b, ("v", q.a[1]))
    oth = [x for x in left or () if x != q.a[1]]
    s2.set_fact(b, ("v", oth[0]) if len(oth) == 1 else ("nv", ex | {q.a[1]}))
    return [(s1, TRUE), (s2, FALSE)]


def eqs(I, st, x, y):
    """comparison with a known Some/Ok/Err looks at the variant first"""
    x, y = I.deep(st, x), I.deep(st, y)
    for p, q in ((x, y), (y, x)):
        if q.op == "agg" and q.a[0] in (OPT, RES) and len(q.a) <= 4:
            out = []
            for s, v in I.split_variant(st, p, ("Some", "None") if q.a[0] == OPT else ("Ok", "Err")):
                if v != q.a[1]:
                    out.append((s, FALSE))
                elif len(q.a) == 3:
                    out.append((s, TRUE))
                else:
                    out += eqs(I, s, I.payload(s, p, v, "0"), q.a[3])
            return out
        if q.op == "agg" and q.a[1] and len(q.a) == 3 and p.op != "agg":
            return unit_eq(I, st, p, q)
    return [(st, eq(I, st, x, y))]


@model("core::cmp::PartialOrd::lt", "core::cmp::PartialOrd::le", "core::cmp::PartialOrd::gt", "core::cmp::PartialOrd::ge",
       "re:impl core::cmp::PartialOrd.*>::(lt|le|gt|ge)$", "re:as core::cmp::PartialOrd(<.*>)?>::(lt|le|gt|ge)$")
def f(I, st, a, ctx, cc, loc):
    if "tracing" in cc.get("self", "") or "tracing" in "".join(cc.get("ga", [])) or "log::Level" in "".join(cc.get("ga", [])):
        return [(st, FALSE)]
    op = {"lt": "Lt", "le": "Le", "gt": "Gt", "ge": "Ge"}[cc["fn"][-2:]]
    return [(st, I.binop(st, op, I.deep(st, a[0]), I.deep(st, a[1])))]


@model("core::ops::bit::Not::not", "re:as core::ops::bit::Not>::not$")
def f(I, st, a, ctx, cc, loc):
    if cc.get("res") in I.F.index:
        return None
    return [(st, I.negate(d(I, st, a[0])))]


@model("core::cmp::Ord::min", "core::cmp::min", "re:as core::cmp::Ord>::min$", "re:impl core::cmp::Ord for .*>::min$")
def f(I, st, a, ctx, cc, loc):
    x, y = sorted((I.deep(st, a[0]), I.deep(st, a[1])), key=lambda t: t.uid)
    return [(st, mk("call", "min", x, y))]


@model("core::cmp::Ord::max", "core::cmp::max", "re:as core::cmp::Ord>::max$", "re:impl core::cmp::Ord for .*>::max$")
def f(I, st, a, ctx, cc, loc):
    x, y = sorted((I.deep(st, a[0]), I.deep(st, a[1])), key=lambda t: t.uid)
    return [(st, mk("call", "max", x, y))]


@model("core::cell::Cell::replace", "core::cell::Cell::take")
def f(I, st, a, ctx, cc, loc):
    old = mk("call", "get", I.deep(st, a[0]))
    new = a[1] if len(a) > 1 else mk("call", "default()")
    out = []
    for s, r in I.opaque_call(st, "core::cell::Cell::set", [a[0], new], ctx):
        from absint import Ev
        ev = Ev("call", r.a[0], tuple(r.a[1:]), frozenset(), "", I.stack[-1] if I.stack else "?")
        out.append((s.copy(), old))
        if ev not in s.events:
            out[-1][0].events = s.events + (ev,)
    return out


@model("indexmap::map::IndexMap::<K, V, S>::first", "re:^indexmap::map::IndexMap(::<.*>|<.*>)?::first$")
def f(I, st, a, ctx, cc, loc):
    return next_el(I, st, [mk("seq", I.deep(st, a[0]))], ctx, {"fn": "next"}, loc)


@model("re:^core::str::iter::Chars(::<.*>|<.*>)?::as_str$")
def f(I, st, a, ctx, cc, loc):
    return collect(I, st, [d(I, st, a[0])], ctx, {"fn": IT + "collect", "ga": ["", "alloc::string::String"]}, loc)


@model("core::slice::<impl [T]>::last", "core::slice::<impl [T]>::first")
def f(I, st, a, ctx, cc, loc):
    v = I.deep(st, a[0])
    nm = cc["fn"].rsplit("::", 1)[-1]
    if v.op == "agg" and v.a[0] == "[]":
        return [(st, some(v.a[-1 if nm == "last" else 3]) if len(v.a) > 3 else NONE)]
    return [(s, NONE if empty else some(mk("call", nm, v))) for s, empty in I.split_bool(st, I.binop(st, "Eq", I.length(st, v), k(0)))]


# ---------------------------------------------------------------------- strings / collections: queries
@model("re:::(is_empty)$")
def f(I, st, a, ctx, cc, loc):
    if cc.get("res", cc["fn"]) in I.F.index:
        return None
    v = I.deep(st, a[0])
    if v.op == "k" and isinstance(v.a[1], str):
        return [(st, k(v.a[1] == ""))]
    if v.op == "cat" and any(p.op == "k" and p.a[1] for p in v.a):
        return [(st, k(False))]
    return [(st, I.binop(st, "Eq", I.length(st, v), k(0)))]


@model("re:^(alloc|core|std|indexmap|hashbrown|http|serde_json|dashmap|bytes)::.*::len$")
def f(I, st, a, ctx, cc, loc):
    v = I.deep(st, a[0])
    if v.op == "k" and isinstance(v.a[1], str):
        return [(st, k(len(v.a[1].encode())))]
    return [(st, I.length(st, v))]


# ---------------------------------------------------------------------- collections: construction
@model("re:^(alloc|std|indexmap|hashbrown|http|serde_json|bytes|dashmap)::.*(Vec|VecDeque|HashMap|HashSet|BTreeMap|BTreeSet|IndexMap|IndexSet|HeaderMap|String|BinaryHeap|LinkedList|Map)(<.*>)?::(new|with_capacity|with_hasher|with_capacity_and_hasher)$")
def f(I, st, a, ctx, cc, loc):
    if "String" in cc["fn"]:
        return [(st, k(""))]
    return [(st, mk("coll", k("")))]


def guards(I, st, x):
    """facts about the current loop element(s)"""
    fs = tuple(sorted(((t, f) for t, f in st.facts.items() if free_elems(t)), key=lambda p: p[0].uid))
    return fs


def gel(I, st, x):
    g = guards(I, st, x)
    if not g:
        return x
    return mk("gel", x, frozenset(g))


def add(I, st, target, *elems):
    s = st.copy()
    if target.op == "ref":
        base = I.deref(s, target)
        els = [gel(I, s, I.deep(s, e)) for e in elems]
        if base.op == "coll":
            # a later insertion under the key supersedes its removal
            keys = {strip_gel(e).a[0] for e in els if strip_gel(e).op == "kv"}
            if keys and any(strip_gel(e).op == "rem" and strip_gel(e).a[0] in keys for e in base.a[1:]):
                base = mk("coll", base.a[0], *[e for e in base.a[1:] if not (strip_gel(e).op == "rem" and strip_gel(e).a[0] in keys)])
            nv = I.coll_add(base, *els)
        else:
            nv = I.coll_add(mk("coll", I.deep(s, base)), *els)
        # write through to the innermost location
        t = target
        for _ in range(20):
            nx = I.walk(s, I.read_cell(s, t.a[0]), t.a[1])
            if nx is not None and nx.op == "ref":
                t = nx
            else:
                break
        I.write(s, t.a[0], t.a[1], nv)
    return s


def write_through(I, s, t, nv):
    for _ in range(20):
        nx = I.walk(s, I.read_cell(s, t.a[0]), t.a[1])
        if nx is not None and nx.op == "ref":
            t = nx
        else:
            break
    I.write(s, t.a[0], t.a[1], nv)


def append(I, st, target, part):
    """ordered concatenation of text"""
    s = st.copy()
    if target.op == "ref":
        base = I.deep(s, target)
        write_through(I, s, target, cat(base, gel(I, s, I.deep(s, part))))
    return s


TEXT = r"<(&'?\w* ?)?alloc::string::String as core::ops::arith::"


@model("re:^" + TEXT + r"AddAssign<&.*str>>::add_assign$")
def f(I, st, a, ctx, cc, loc):
    return [(append(I, st, a[0], a[1]), UNIT)]


@model("re:^" + TEXT + r"Add<&.*str>>::add$")
def f(I, st, a, ctx, cc, loc):
    return [(st, cat(I.deep(st, a[0]), I.deep(st, a[1])))]


# ---------------------------------------------------------------------- text formatting
@model("re:^core::fmt::rt::Argument(::<.*>|<.*>)?::new_\\w+$", "re:^core::fmt::rt::Argument(::<.*>|<.*>)?::from_usize$")
def f(I, st, a, ctx, cc, loc):
    n = cc["fn"].rsplit("::", 1)[-1]
    x = a[0]
    ty = re.sub(r"'\\w+ ?", "", (cc.get("ga") or [""])[-1])
    while ty.startswith("&"):
        ty = ty[1:].lstrip()
    x = I.deep(st, x)
    if n == "new_display":
        if not (ty in STRS or ty.startswith("alloc::borrow::Cow<") or x.op == "cat" or (x.op == "k" and isinstance(x.a[1], str))):
            x = mk("call", "to_string", x)
    else:
        x = mk("call", n.replace("new_", "fmt_"), x)
    return [(st, mk("call", "fmtarg", x))]


@model("re:^core::fmt::Arguments(::<.*>|<.*>)?::(new|new_const|from_str|from_str_nonconst|new_v1|new_v1_formatted)$")
def f(I, st, a, ctx, cc, loc):
    if cc["fn"].endswith(("from_str", "from_str_nonconst")):
        return [(st, cat(I.deep(st, a[0])))]
    t, args = I.deep(st, a[0]), I.deep(st, a[1])
    if t.op != "k" or args.op != "agg":
        return None
    parts, args = [], list(args.a[3:])
    by = [ord(c) for c in t.a[1]]
    pos = i = 0

    def u(n):
        nonlocal pos
        v = sum(by[pos + q] << (8 * q) for q in range(n))
        pos += n
        return v
    while pos < len(by):
        n = u(1)
        if n == 0:
            break
        if n <= 0x80:
            if n == 0x80:
                n = u(2)
            parts.append(k(bytes(by[pos:pos + n]).decode("utf8", "replace")))
            pos += n
            continue
        opt = []
        if n & 1:
            opt.append(f"flags={u(4)}")
        if n & 2:
            opt.append(f"width={u(2)}{'$' if n & 16 else ''}")
        if n & 4:
            opt.append(f"precision={u(2)}{'$' if n & 32 else ''}")
        if n & 8:
            i = u(2)
        x = args[i] if i < len(args) else mk("any")
        if x.op == "call" and x.a[0] == "fmtarg":
            x = x.a[1]
        parts.append(mk("call", "fmt:" + ",".join(opt), x) if opt and n != 0xC0 else x)
        i += 1
    return [(st, cat(*parts))]


@model("alloc::fmt::format", "alloc::fmt::format::format_inner")
def f(I, st, a, ctx, cc, loc):
    return [(st, a[0])]


@model("re:^core::fmt::Formatter(::<.*>|<.*>)?::(write_fmt|write_str|write_char)$", "re:^core::fmt::Write::(write_fmt|write_str|write_char)$",
       "re:as core::fmt::Write>::(write_fmt|write_str|write_char)$")
def f(I, st, a, ctx, cc, loc):
    if cc.get("res") in I.F.index:
        return None
    return [(append(I, st, a[0], a[1]), ok(UNIT))]


COLL = r"(Vec|VecDeque|HashSet|BTreeSet|IndexSet|BinaryHeap|String|HashMap|BTreeMap|IndexMap|HeaderMap|Map|DashMap|HeaderMap|LinkedList)"


@model("re:^(alloc|std|indexmap|hashbrown|http|bytes)::.*" + COLL + r"(<.*>)?::(push|push_back|push_front|push_str|insert|append|try_insert|try_append|shift_insert|insert_full)$",
       "re:^serde_json::map::Map(<.*>)?::insert$", "re:^serde_yaml_ng::mapping::Mapping::insert$",
       "re:^(headers|http)::.*HeaderMapExt.*::typed_insert$")
def f(I, st, a, ctx, cc, loc):
    if cc.get("res", cc["fn"]) in I.F.index:
        return None
    vals = a[1:]
    name = cc["fn"]
    if name.endswith("push_str") or re.search(r"String::push$", name):
        c = d(I, st, vals[0])
        if c.op == "k" and c.a[0] == "c":
            vals = [k(c.a[1])]
        return [(append(I, st, a[0], vals[0]), UNIT)]
    elif re.search(r"(Map|DashMap|Mapping)(<.*>)?(::<.*>)?::(insert|append|try_insert|try_append|shift_insert|insert_full)$", name) and len(vals) == 2:
        el = mk("kv", I.deep(st, vals[0]), I.deep(st, vals[1]))
    elif name.endswith("Vec::<T, A>::push") and (cc.get("ga") or [""])[0] == "u8":
        c = d(I, st, vals[0])
        if c.op == "k" and isinstance(c.a[1], int) and c.a[1] < 128:
            return [(append(I, st, a[0], k(chr(c.a[1]))), UNIT)]
        el = vals[0]
    elif name.endswith("Vec::<T, A>::insert") and len(vals) == 2:
        el = vals[1]
    elif name.endswith(("Vec::<T, A>::append", "VecDeque::<T, A>::append", "BTreeMap::<K, V, A>::append", "BTreeSet::<T, A>::append")):
        src = d(I, st, vals[0])
        el = mk("spread", I.deep(st, src))
    else:
        el = vals[0]
    s = add(I, st, a[0], el)
    if name.endswith(("::push", "push_back", "push_front", "push_str")):
        return [(s, UNIT)]
    base = I.deep(st, a[0])
    return [(s, mk("call", "prev", base, I.deep(st, vals[0])))]


@model("core::iter::traits::collect::Extend::extend", "re:as core::iter::traits::collect::Extend(<.*>)?>::extend$",
       "re:::extend_from_slice$", "re:impl core::iter::traits::collect::Extend<.*>::extend$",
       "core::iter::traits::collect::Extend::extend_one")
def f(I, st, a, ctx, cc, loc):
    if cc.get("res") in I.F.index:
        return None
    if cc["fn"].endswith("Vec::<T, A>::extend_from_slice") and (cc.get("ga") or [""])[0] == "u8":
        return [(append(I, st, a[0], a[1]), UNIT)]
    sq = to_seq(I, st, a[1])
    if cc.get("self", "") == "alloc::vec::Vec<u8>" and len(sq.a) == 1:
        return [(append(I, st, a[0], sq.a[0]), UNIT)]
    s, els = gather(I, st, sq, ctx, loc)
    return [(add(I, s, a[0], *entries(cc.get("self", ""), els)), UNIT)]


# ---------------------------------------------------------------------- iterators
def to_seq(I, st, v):
    v = d(I, st, v)
    if v.op == "seq":
        return v
    if v.op == "agg" and v.a[0] == "core::option::Option":
        return mk("seq", arr(*v.a[3:]))
    return mk("seq", v)


SEQ_SRC = r"(into_iter|iter|iter_mut|drain|into_values|values|values_mut|keys|into_keys|chars|bytes|lines|split|split_whitespace|char_indices|chunks|windows|par_iter|rsplit|splitn|rsplitn|split_terminator|iter_all|get_all)"


@model("core::iter::traits::collect::IntoIterator::into_iter", "re:as core::iter::traits::collect::IntoIterator>::into_iter$",
       "re:impl core::iter::traits::collect::IntoIterator for .*>::into_iter$",
       "re:^(core|alloc|std|indexmap|hashbrown|http|serde_json|dashmap)::.*::(iter|iter_mut|drain|into_iter|chars)$")
def f(I, st, a, ctx, cc, loc):
    if cc.get("res", cc["fn"]) in I.F.index:
        return None
    v = d(I, st, a[0])
    if v.op == "seq":
        return [(st, v)]
    if v.op == "agg" and v.a[0].endswith("ops::range::Range"):
        return [(st, mk("seq", mk("call", "range", *[I.deep(st, x) for x in v.a[3:]])))]
    # an Option iterates over its payload
    t = re.sub(r"^&(mut )?|'\w+ ?", "", cc.get("self", ""))
    if t.startswith("core::option::Option<") or "core::option::Option" in cc["fn"]:
        return [(s, mk("seq", arr(p) if p is not None else arr())) for s, p in I.opt(st, v)]
    return [(st, mut_seq(I, st, cc, a[0], v, "iter_mut"))]


def mut_seq(I, st, cc, a0, v, which, *ops):
    """iteration; over exclusive references, what happens to an element happens to the collection"""
    src = I.deep(st, v)
    self_ty = cc.get("self", "") or ""
    nm = cc["fn"].rsplit("::", 1)[-1]
    if a0.op == "ref" and (nm in ("iter_mut", "values_mut") or nm == "into_iter" and re.match(r"^&('\S+ )?mut ", self_ty)) and src.op not in ("seq", "k", "any"):
        t = target_of(I, st, a0)
        if t.op == "ref" and not (t.a[0] and t.a[0][0] == "el" and t.a[1] == ()):
            which = "kv" if which == "values_mut" or re.search(r"(Hash|BTree|Index|Dash)Map|::Map", re.sub(r"<.*", "", self_ty + " " + cc["fn"])) else "1"
            return mk("seq", src, ("mutof", t, src, which), *ops)
    return mk("seq", src, *ops)


ZERO = mk("coll", k("zero"))


def flush_mut(I, st, sq, end=False):
    """the element an iteration over exclusive references was at goes back into the collection"""
    if sq.op != "seq":
        return st
    for op in sq.a[1:]:
        if op[0] != "mutof":
            continue
        t, src, which = op[1:]
        cell = ("el", t)
        cur = I.deep(st, I.walk(st, I.read_cell(st, t.a[0]), t.a[1]))
        v = st.mem.get(cell)
        if v is not None:
            st = st.copy()
            v = I.deep(st, v)
            del st.mem[cell]
            x = gel(I, st, mk("kv", I.field(st, v, "0"), I.field(st, v, "1")) if which == "kv" else v)
            base = cur if cur.op == "coll" and cur.a[0] is k("it") else mk("coll", k("it"))
            cur = I.coll_add(base, x)
            I.write(st, t.a[0], t.a[1], cur)
        if end:
            if cur is src:
                st = st.copy()
                I.write(st, t.a[0], t.a[1], ZERO)
            elif cur.op == "coll" and cur.a[0] is k("it"):
                es = {strip_gel(e) for e in cur.a[1:]}
                e0 = mk("elem", src)
                st = st.copy()
                if src.op == "agg" and len(src.a) == 4 and len(cur.a) == 2 and cur.a[1].op not in ("gel", "kv"):
                    I.write(st, t.a[0], t.a[1], arr(cur.a[1]))
                    continue
                # `src` again when no element was changed
                I.write(st, t.a[0], t.a[1], src if es <= {e0, mk("kv", mk("fld", e0, "0"), mk("fld", e0, "1"))} else mk("coll", k(""), *cur.a[1:]))
    return st


@model("re:^(alloc|std|indexmap|hashbrown|http|serde_json)::.*::(keys|into_keys|values|into_values|values_mut)$")
def f(I, st, a, ctx, cc, loc):
    v = I.deep(st, a[0])
    which = "0" if "keys" in cc["fn"].rsplit("::", 1)[-1] else "1"
    if cc["fn"].endswith("values_mut"):
        return [(st, mut_seq(I, st, cc, a[0], v, "values_mut", ("fld", which)))]
    return [(st, mk("seq", v, ("fld", which)))]


@model("core::iter::sources::once::once")
def f(I, st, a, ctx, cc, loc):
    return [(st, mk("seq", arr(a[0])))]


@model("core::iter::sources::empty::empty")
def f(I, st, a, ctx, cc, loc):
    return [(st, mk("seq", arr()))]


def pipe(name):
    def g(I, st, a, ctx, cc, loc):
        if cc.get("res") in I.F.index:
            return None
        s = to_seq(I, st, a[0])
        return [(st, mk("seq", *s.a, (name,) + tuple(a[1:])))]
    return g


for _n in ("map", "filter", "filter_map", "flat_map", "take_while", "skip_while", "inspect", "map_while", "then"):
    MODELS[IT + _n] = pipe(_n)
    REMODELS.append((re.compile(r"as core::iter::traits::iterator::Iterator>::" + _n + "$"), pipe(_n)))


@model(IT + "cloned", IT + "copied", IT + "rev", IT + "peekable", IT + "fuse", "itertools::Itertools::sorted",
       "itertools::Itertools::dedup", "itertools::Itertools::unique", IT + "step_by", "itertools::Itertools::sorted_by",
       "itertools::Itertools::sorted_by_key", "core::iter::traits::double_ended::DoubleEndedIterator::rev",
       "re:as core::iter::traits::iterator::Iterator>::(cloned|copied|rev|peekable|fuse)$", IT + "cycle")
def f(I, st, a, ctx, cc, loc):
    s = to_seq(I, st, a[0])
    return [(st, mk("seq", *s.a, ("order", cc["fn"].rsplit("::", 1)[-1])) if not cc["fn"].endswith(("cloned", "copied", "fuse", "peekable")) else s)]


@model(IT + "skip", IT + "take")
def f(I, st, a, ctx, cc, loc):
    s = to_seq(I, st, a[0])
    return [(st, mk("seq", *s.a, (cc["fn"].rsplit("::", 1)[-1] + "#", I.deep(st, a[1]))))]


@model(IT + "enumerate")
def f(I, st, a, ctx, cc, loc):
    s = to_seq(I, st, a[0])
    return [(st, mk("seq", *s.a, ("enumerate",)))]


@model(IT + "zip", IT + "chain", "core::iter::adapters::zip::zip", "re:as core::iter::traits::iterator::Iterator>::(zip|chain)$")
def f(I, st, a, ctx, cc, loc):
    s = to_seq(I, st, a[0])
    o = to_seq(I, st, a[1])
    op = cc["fn"].rsplit("::", 1)[-1]
    return [(st, mk("seq", *s.a, (op, o)))]


@model(IT + "flatten")
def f(I, st, a, ctx, cc, loc):
    s = to_seq(I, st, a[0])
    return [(st, mk("seq", *s.a, ("flatten",)))]


def source_elems(I, st, src, ctx, loc):
    """the possible elements of a source value"""
    src = d(I, st, src)
    if src.op == "agg" and src.a[0] == "[]":
        return [(st, x) for x in src.a[3:]]
    if src.op == "repeat":
        return [(st, src.a[0])]
    if src.op == "call" and src.a[0] == "sorted" and src.a[1].op in ("coll", "agg"):
        return source_elems(I, st, src.a[1], ctx, loc)
    if src.op == "coll":
        out = []
        if not (src.a[0].op == "k"):
            out += source_elems(I, st, src.a[0], ctx, loc)
        for e in src.a[1:]:
            if e.op == "spread":
                out += source_elems(I, st, e.a[0], ctx, loc)
                continue
            s, v = st, e
            if e.op == "gel":
                s = st.copy()
                v = e.a[0]
                okk = True
                for t, fct in sorted(e.a[1], key=lambda p: p[0].uid):
                    cur = s.facts.get(t)
                    s.set_fact(t, fct)
            if v.op == "kv":
                v = tup(v.a[0], v.a[1])
            out.append((s, v))
        return out
    if src.op == "any":
        return [(st, src)]
    if src.op == "k" and src.a[1] == "":
        return []
    return [(st, mk("elem", src))]


def open_loop(I, st, sq, ctx):
    """a copy of the state at the start of an iteration over `sq`, and the site naming that loop"""
    s = st.copy()
    src = I.deep(st, sq.a[0] if sq.op == "seq" else sq)
    es = set()
    for op in [src] + [I.deep(st, o[1]) for o in (sq.a[1:] if sq.op == "seq" else ()) if o[0] in ("chain", "zip") and isinstance(o[1], T)]:
        if op.op == "seq":
            op = op.a[0]
        es.add(mk("elem", op))
        if op.op in ("coll", "agg"):
            es |= elem_terms(op)
    s.enter(ctx, es)
    return s


def items(I, st, sq, ctx, loc):
    """[(state, element or None when the element was filtered out)]"""
    if sq.op != "seq":
        sq = mk("seq", sq)
    src = sq.a[0]
    cur = [(st, x) for st, x in source_elems(I, st, src, ctx, loc)]
    for op in sq.a[1:]:
        n = op[0]
        nxt = []
        for s, x in cur:
            if x is None:
                nxt.append((s, None))
                continue
            if n == "fld":
                if x.op == "agg" and x.a[0] == "()" and len(x.a) == 5 and x.a[3 + int(op[1])].op == "ref":
                    nxt.append((s, x.a[3 + int(op[1])]))
                else:
                    nxt.append((s, I.field(s, d(I, s, x), op[1])))
            elif n == "mutof":
                s = s.copy()
                cell = ("el", op[1])
                x = I.deep(s, x)
                s.mem[cell] = x
                if op[3] == "kv":
                    nxt.append((s, tup(I.field(s, x, "0"), mk("ref", cell, (("f", "1"),), 1))))
                else:
                    nxt.append((s, mk("ref", cell, (), 1)))
            elif n in ("map", "then"):
                nxt += I.call_value(s, op[1], [x], (ctx, "it"), loc)
            elif n == "inspect":
                nxt += [(s2, x) for s2, _ in I.call_value(s, op[1], [x], (ctx, "it"), loc)]
            elif n in ("filter", "take_while", "skip_while"):
                for s2, r in I.call_value(s, op[1], [x], (ctx, "it"), loc):
                    for s3, b in I.split_bool(s2, r):
                        if n == "skip_while":
                            nxt.append((s3, x))
                        else:
                            nxt.append((s3, x if b else None))
            elif n in ("filter_map", "map_while"):
                for s2, r in I.call_value(s, op[1], [x], (ctx, "it"), loc):
                    nxt += [(s3, p) for s3, p in I.opt(s2, r)]
            elif n == "taken":
                nxt.append((s, mk("part", "after", k(op[1]), I.deep(s, x))))
            elif n in ("flat_map", "flatten"):
                rs = I.call_value(s, op[1], [x], (ctx, "it"), loc) if n == "flat_map" else [(s, x)]
                for s2, r in rs:
                    rv = d(I, s2, r)
                    if rv.op == "agg" and rv.a[0] in (OPT, RES):
                        nxt.append((s2, rv.a[3] if rv.a[1] in ("Some", "Ok") else None))
                    elif rv.op in ("pay", "fld", "call", "elem", "in") and n == "flatten" and I.variant_of(s2, rv) is None and False:
                        pass
                    else:
                        got = items(I, s2, to_seq(I, s2, rv), (ctx, "fm"), loc)
                        nxt += got if got else [(s2, None)]
            elif n == "enumerate":
                nxt.append((s, tup(mk("idxof", x), x)))
            elif n == "zip":
                for s2, y in items(I, s, op[1], (ctx, "zip"), loc):
                    nxt.append((s2, tup(x, y) if y is not None else None))
            elif n in ("take#", "skip#", "order"):
                # a part of the sequence only
                nxt.append((s, mk("part", n.rstrip("#"), op[-1] if isinstance(op[-1], T) else k(op[-1]), I.deep(s, x))))
            else:
                nxt.append((s, x))
        if n == "chain":
            nxt += items(I, st, op[1], (ctx, "chain"), loc)
        cur = nxt
    return cur


def merge_events(states, st):
    ev = list(st.events)
    for s in states:
        for e in s.events:
            if e not in ev:
                ev.append(e)
    if len(ev) != len(st.events):
        st = st.copy()
        st.events = tuple(ev)
    return st


def next_(I, st, sq, ctx, loc):
    """outcomes of one `next`: (state, element) and (state, None)"""
    st1 = flush_mut(I, st, sq, True)
    st = open_loop(I, flush_mut(I, st, sq), sq, ctx)
    out = []
    for s, x in items(I, st, sq, ctx, loc):
        if x is None:
            if s.events != st.events or s.mem != st.mem:
                out.append((s.copy().leave(ctx), None))
        else:
            out.append((s, x))
    out.append((st1.copy().leave(ctx), None))
    return out


@model(IT + "next", "re:as core::iter::traits::iterator::Iterator>::next$", "core::iter::traits::double_ended::DoubleEndedIterator::next_back",
       "re:as core::iter::traits::double_ended::DoubleEndedIterator>::next_back$", "re:^<.* as tailcall_.*Iterator>::next$")
def next_el(I, st, a, ctx, cc, loc):
    if cc.get("res") in I.F.index:
        return None
    sq = to_seq(I, st, a[0])
    cyc = I.in_cycle()
    n = 1
    if not cyc and sq.op == "seq" and len(sq.a) > 1 and isinstance(sq.a[-1], tuple) and sq.a[-1][0] == "taken":
        n += sq.a[-1][1]
        sq = mk("seq", *sq.a[:-1])
    rs = next_(I, st, sq, ctx, loc)
    if not cyc and len({x is None for _, x in rs}) == 2:
        # outside a loop: whether there is a (further) element is a condition on the source
        src = I.deep(st, sq.a[0])
        t = mk("call", "more" if n == 1 else f"more#{n}", src)
        if not t.haselem:
            out = []
            cur = st.facts.get(t)
            ln = st.facts.get(mk("call", "len", src)) if n == 1 and all(op[0] in ("fld", "map", "enumerate") for op in sq.a[1:]) else None
            if ln is not None and cur is None:
                # the source's length is known
                if ln[0] == "k" and isinstance(ln[1].a[1], int):
                    cur = ("k", FALSE if ln[1].a[1] == 0 else TRUE)
                elif ln[0] == "nk" and k(0) in ln[1]:
                    cur = ("k", TRUE)
            for s, x in rs:
                f = ("k", TRUE if x is not None else FALSE)
                if cur is not None and cur != f:
                    continue
                s = s.copy()
                s.set_fact(t, f)
                if a[0].op == "ref":
                    write_through(I, s, a[0], mk("seq", *sq.a, ("taken", n)))
                out.append((s, x if x is None or n == 1 else mk("part", "nth", k(n), I.deep(s, x))))
            rs = out
    return [(s, some(x) if x is not None else NONE) for s, x in rs]


def gather(I, st, sq, ctx, loc, unwrap=None):
    """all possible elements, each guarded by the facts on the elements it came from"""
    st0 = open_loop(I, st, sq, ctx)
    els, states = [], []
    for s, x in items(I, st0, sq, ctx, loc):
        states.append(s)
        if x is not None:
            els.append(gel(I, s, I.deep(s, x)))
    st0 = merge_events(states, st0.copy().leave(ctx))
    # effects on memory of the closures
    for s in states:
        for c, v in s.mem.items():
            o = st0.mem.get(c)
            if o is not None and o is not v:
                st0 = st0.copy()
                if o.op == "coll" and v.op == "coll" and o.a[0] is v.a[0]:
                    st0.mem[c] = I.coll_add(o, *v.a[1:])
                else:
                    st0.mem[c] = v
    return st0, els


def strip_gel(x):
    return x.a[0] if x.op == "gel" else x


def regel(x, v):
    return mk("gel", v, x.a[1]) if x.op == "gel" else v


def collected_by(I, dst):
    """the workspace's own FromIterator for a type"""
    tab = getattr(I.F, "_fromiter", None)
    if tab is None:
        tab = {}
        for kx, dd in I.F.index.items():
            if dd.get("name") == "from_iter" and dd.get("impltrait") == "core::iter::traits::collect::FromIterator":
                m = re.match(r"<([\w:]+) as core::iter", re.sub(r"'\w+ ?", "", dd.get("implref") or ""))
                if m:
                    tab[m.group(1)] = kx
        I.F._fromiter = tab
    return tab.get(dst)


def entries(dst, els):
    """pairs put into a map are entries"""
    if not re.match(r"&?(mut )?[\w:]*((Map|Headers)<|Map$|HeaderMap)", re.sub(r"'\w+ ?", "", dst)):
        return els
    return [regel(e, mk("kv", strip_gel(e).a[3], strip_gel(e).a[4])) if strip_gel(e).op == "agg" and strip_gel(e).a[0] == "()" and len(strip_gel(e).a) == 5 else e for e in els]


@model(IT + "collect", "core::iter::traits::collect::FromIterator::from_iter", "re:as core::iter::traits::collect::FromIterator(<.*>)?>::from_iter$",
       "itertools::Itertools::collect_vec", "re:as core::iter::traits::iterator::Iterator>::collect$")
def collect(I, st, a, ctx, cc, loc):
    if cc.get("res") in I.F.index:
        return None
    ga = cc.get("ga", [])
    if cc["fn"].endswith("from_iter"):
        dst = ga[0] if ga else cc.get("self", "")
    else:
        dst = ga[1] if len(ga) > 1 else ""
    hit = collected_by(I, dst)
    if hit and not I.is_opaque(hit) and I.stack.count(hit) == 0:
        return [(o.st, o.ret) for o in I.run_body(hit, [a[0]], st, {}, ctx)]
    sq = to_seq(I, st, a[0])
    if dst.startswith(("core::result::Result<", "core::option::Option<")):
        st0 = open_loop(I, st, sq, ctx)
        goods, out, states = [], [], []
        for s, x in items(I, st0, sq, ctx, loc):
            states.append(s)
            if x is None:
                continue
            if dst.startswith("core::result"):
                for s2, v, p in I.res(s, x):
                    if v == "Ok":
                        goods.append(gel(I, s2, I.deep(s2, p)))
                    else:
                        out.append((s2, err(p)))
            else:
                for s2, p in I.opt(s, x):
                    if p is not None:
                        goods.append(gel(I, s2, I.deep(s2, p)))
                    else:
                        out.append((s2, NONE))
        st0 = merge_events(states, st0.copy().leave(ctx))
        c = I.coll_add(mk("coll", k("")), *entries(re.sub(r"^[\w:]+<", "", dst), goods))
        out.append((st0, ok(c) if dst.startswith("core::result") else some(c)))
        return out
    s, els = gather(I, st, sq, ctx, loc)
    # a fixed number of elements, each turned into one
    src = I.deep(st, sq.a[0])
    if src.op == "agg" and src.a[0] == "[]" and "Vec<" in dst and all(x[0] == "map" for x in sq.a[1:]) \
            and len(els) == len(src.a) - 3 and all(x.op != "gel" for x in els):
        return [(s, arr(*els))]
    # collecting a source without any change is the source
    if len(sq.a) == 1:
        src = I.deep(st, sq.a[0])
        if src.op == "coll" and src.a[0].op == "k":
            src = I.coll_add(mk("coll", k("")), *entries(dst, src.a[1:]))
        if src.op == "coll" or "Vec<" in dst:
            return [(st, src)]
    return [(s, I.coll_add(mk("coll", k("")), *entries(dst, els)))]


def definite(st0, s, x):
    """an element whose presence does not depend on anything"""
    return x is not None and not free_elems(x) and x.op not in ("any", "elem") and s.facts == st0.facts and s.mem == st0.mem


@model(IT + "any", IT + "all", "re:as core::iter::traits::iterator::Iterator>::(any|all)$")
def f(I, st, a, ctx, cc, loc):
    isany = cc["fn"].endswith("any")
    sq = to_seq(I, st, a[0])
    st0 = open_loop(I, st, sq, ctx)
    out, states = [], []
    its = items(I, st0, sq, ctx, loc)
    fixed = [x for s, x in its if definite(st0, s, x)]
    for x in fixed:
        # elements that are certainly there are asked one after the other
        nxt = []
        for s2, r in [z for s0 in (states or [st0]) for z in I.call_value(s0, a[1], [x], (ctx, "any"), loc)]:
            for s3, b in I.split_bool(s2, r):
                if b == isany:
                    out.append((s3, k(isany)))
                else:
                    nxt.append(s3)
        states = nxt
        if not states:
            return out
    if fixed and len(fixed) == len(its):
        return out + [(s.copy().leave(ctx), k(not isany)) for s in states]
    for s, x in its:
        if x is not None and definite(st0, s, x):
            continue
        states.append(s)
        if x is None:
            continue
        for s2, r in I.call_value(s, a[1], [x], (ctx, "any"), loc):
            for s3, b in I.split_bool(s2, r):
                states.append(s3)
                if b == isany:
                    out.append((s3, k(isany)))
                elif s3.mem != st0.mem:
                    s4 = s3.copy().leave(ctx)
                    out.append((s4, k(not isany)))
    out.append((merge_events(states, st0.copy().leave(ctx)), k(not isany)))
    return out


@model(IT + "find", IT + "position", IT + "find_map", "re:as core::iter::traits::iterator::Iterator>::(find|position|find_map)$")
def f(I, st, a, ctx, cc, loc):
    which = cc["fn"].rsplit("::", 1)[-1]
    sq = to_seq(I, st, a[0])
    st0 = open_loop(I, st, sq, ctx)
    out, states = [], []
    for s, x in items(I, st0, sq, ctx, loc):
        states.append(s)
        if x is None:
            continue
        for s2, r in I.call_value(s, a[1], [x], (ctx, "find"), loc):
            if which == "find_map":
                for s3, p in I.opt(s2, r):
                    if p is not None:
                        out.append((s3, some(p)))
                    else:
                        states.append(s3)
                continue
            for s3, b in I.split_bool(s2, r):
                if b:
                    r1 = x
                    if x.op == "ref" and x.a[2] == 1 and x.a[0][0] == "el" and not x.a[1]:
                        # the exclusive reference is to that element of the collection
                        xv, t = I.deep(s3, x), x.a[0][1]
                        r1 = mk("ref", t.a[0], t.a[1] + (("slot", xv, xv),), 1)
                    out.append((s3, some(r1 if which == "find" else mk("idxof", x))))
                else:
                    states.append(s3)
    out.append((merge_events(states, st0.copy().leave(ctx)), NONE))
    return out


@model(IT + "last", IT + "nth", IT + "min_by_key", IT + "max_by_key", IT + "min", IT + "max", IT + "min_by", IT + "max_by")
def f(I, st, a, ctx, cc, loc):
    sq = to_seq(I, st, a[0])
    st0 = open_loop(I, st, sq, ctx)
    nm = cc["fn"].rsplit("::", 1)[-1]
    out = []
    for s, x in items(I, st0, sq, ctx, loc):
        if x is not None:
            v = mk("call", nm, I.deep(s, x), *([I.deep(s, a[1])] if nm == "nth" else [order_term(I, s, a[1], nm, ctx, loc)] if len(a) > 1 else []))
            out.append((s, some(v)))
    out.append((st0, NONE))
    return out


@model(IT + "reduce")
def f(I, st, a, ctx, cc, loc):
    sq = to_seq(I, st, a[0])
    s, els = gather(I, st, sq, ctx, loc)
    c = I.coll_add(mk("coll", k("")), *els)
    out = [(s, NONE)]
    for s2, r in I.call_value(s, a[1], [I.HOLE, mk("elem", c)], (ctx, "red"), loc):
        out.append((s2, some(mk("loop", mk("elem", c), I.deep(s2, r)))))
    return out


@model("core::clone::Clone::clone_from")
def f(I, st, a, ctx, cc, loc):
    if a[0].op != "ref" or a[0].a[2] != 1:
        return None
    st = st.copy()
    I.write(st, a[0].a[0], a[0].a[1], I.deep(st, a[1]))
    return [(st, UNIT)]


@model(IT + "for_each", "re:as core::iter::traits::iterator::Iterator>::for_each$")
def f(I, st, a, ctx, cc, loc):
    sq = to_seq(I, st, a[0])
    return fixpoint(I, st, sq, lambda s, x, acc: [(s2, UNIT, False) for s2, _ in I.call_value(s, a[1], [x], (ctx, "fe"), loc)], UNIT, ctx, loc)


def fixpoint(I, st, sq, step, init, ctx, loc, rounds=3):
    """step(s, x, acc) -> [(state, acc', stop)]"""
    cur = {}
    st0 = open_loop(I, st, sq, ctx)
    es = st0.open[-1][1]
    cur[(st0.key(), init)] = (st0, init)
    done, frontier = dict(cur), list(cur.values())
    stops = []
    for r in range(rounds):
        nf = []
        for s, acc in frontier:
            for s2, x in items(I, s, sq, ctx, loc):
                res = [(s2, acc, False)] if x is None else step(s2, x, acc)
                for s3, acc2, stop in res:
                    s3 = flush_mut(I, s3, sq)
                    if stop:
                        stops.append((s3, acc2))
                        continue
                    acc2 = I.deep(s3, acc2)
                    if (acc2.op == "cat" or acc2.op in STEPOPS and acc.op in STEPOPS) and acc2 is not acc \
                            and I.template(acc, acc2) is None and init.op != "cur":
                        return fold_cur(I, st, sq, step, init, ctx, loc)
                    gs = dict(s3.facts)
                    s3 = s3.copy().enter(ctx, es)
                    I._guards = gs
                    if r > 0:
                        for c, v in list(s3.mem.items()):
                            pv = s.mem.get(c)
                            if pv is not None and pv is not v:
                                s3.mem[c] = I.widen(pv, v)
                        acc2 = I.widen(acc, acc2)
                    else:
                        acc2 = I.template(acc, acc2) or acc2
                        for c, v in list(s3.mem.items()):
                            pv = s.mem.get(c)
                            if pv is not None and pv is not v:
                                s3.mem[c] = I.template(pv, v) or v
                    I._guards = None
                    kx = (s3.key(), acc2)
                    if kx not in done:
                        done[kx] = (s3, acc2)
                        nf.append((s3, acc2))
        frontier = nf
        if not nf:
            break
    fin = []
    for s, acc in done.values():
        s = flush_mut(I, s, sq, True).copy().leave(ctx)
        for i, (s1, acc1) in enumerate(fin):
            je = I.join_events(s1.events, s.events) if s1.fsnap() == s.fsnap() else None
            if je is not None:
                ja = I.join_val(acc1, acc)
                jm = I.join_mem(s1.mem, s.mem) if ja is not None else None
                if jm is not None:
                    s1 = s1.copy()
                    s1.mem = jm
                    s1.events = je
                    fin[i] = (s1, ja)
                    break
        else:
            fin.append((s, acc))
    return fin + stops


def fold_cur(I, st, sq, step, init, ctx, loc):
    """fold whose accumulator is not a simple collection: its value is loop<init, steps>"""
    from absint import subst_terms
    if init.op == "ref":
        init = I.deep(st, init)     # an accumulator that walks down from a shared reference: the value it stands for
    c = mk("cur", init, ("fold", len(I.stack)))
    st0 = open_loop(I, st, sq, ctx)
    steps, stops = {}, []
    mems = {}
    for s2, x in items(I, st0, sq, ctx, loc):
        if x is None:
            continue
        for s3, acc2, stop in step(s2, x, c):
            if stop:
                stops.append((s3, acc2))
            else:
                steps[I.loop_step(s3, c, I.deep(s3, acc2))] = 1
                I._guards = s3.facts
                for cell, v in s3.mem.items():
                    pv = st0.mem.get(cell)
                    if pv is not None and pv is not v:
                        w = I.widen(pv, v)
                        mems[cell] = w if cell not in mems else I.join_val(mems[cell], w) or w
                I._guards = None
    full = I.loop_term(init, [subst_terms(x, {c: I.HOLE}, {}) for x in steps if (x.a[0] if x.op == "gel" else x) is not c])
    s = st0.copy().leave(ctx)
    s.mem.update(mems)
    sub = lambda t: subst_terms(t, {c: full}, {})
    out = [(s, full)]
    for s3, v in stops:
        s3 = s3.copy()
        fs = {sub(t): sub(f) for t, f in s3.facts.items()}
        s3.facts, s3._fs = fs, None
        s3.mem = {cell: sub(t) for cell, t in s3.mem.items()}
        out.append((s3, sub(v)))
    return out


@model(IT + "fold", "re:as core::iter::traits::iterator::Iterator>::fold$")
def f(I, st, a, ctx, cc, loc):
    sq = to_seq(I, st, a[0])
    return fixpoint(I, st, sq, lambda s, x, acc: [(s2, r, False) for s2, r in I.call_value(s, a[2], [acc, x], (ctx, "fold"), loc)], a[1], ctx, loc)


@model(IT + "try_fold", IT + "try_for_each")
def f(I, st, a, ctx, cc, loc):
    sq = to_seq(I, st, a[0])
    isf = cc["fn"].endswith("try_fold")

    def step(s, x, acc):
        out = []
        args = [acc, x] if isf else [x]
        for s2, r in I.call_value(s, a[2] if isf else a[1], args, (ctx, "tf"), loc):
            rv = d(I, s2, r)
            if rv.op == "agg" and rv.a[0] == OPT or (rv.op != "agg" and "core::option" in "".join(cc.get("ga", [])[-1:])):
                for s3, p in I.opt(s2, rv):
                    out.append((s3, p, False) if p is not None else (s3, NONE, True))
            else:
                for s3, v, p in I.res(s2, rv):
                    out.append((s3, p, False) if v == "Ok" else (s3, err(p), True))
        return out
    init = a[1] if isf else UNIT
    wrap_opt = "core::option" in "".join(cc.get("ga", [])[-1:])
    res = []
    st0 = st.copy()
    fp = fixpoint(I, st, sq, step, init, ctx, loc)
    for s, acc in fp:
        if acc.op == "agg" and acc.a[0] in (OPT, RES) and acc.a[1] in ("None", "Err") and acc is not init:
            res.append((s, acc))
        else:
            res.append((s, some(acc) if wrap_opt else ok(acc)))
    return res


@model(IT + "count", IT + "sum", IT + "product", "itertools::Itertools::join", "alloc::slice::<impl [T]>::join", "alloc::slice::<impl [T]>::concat",
       IT + "unzip", IT + "partition", IT + "size_hint")
def f(I, st, a, ctx, cc, loc):
    nm = cc["fn"].rsplit("::", 1)[-1]
    sq = to_seq(I, st, a[0])
    s, els = gather(I, st, sq, ctx, loc)
    rest = [I.deep(s, x) for x in a[1:]]
    if nm == "unzip":
        l = [regel(e, strip_gel(e).a[3]) for e in els if strip_gel(e).op == "agg" and len(strip_gel(e).a) == 5]
        r = [regel(e, strip_gel(e).a[4]) for e in els if strip_gel(e).op == "agg" and len(strip_gel(e).a) == 5]
        return [(s, tup(I.coll_add(mk("coll", k("")), *l), I.coll_add(mk("coll", k("")), *r)))]
    if nm == "partition":
        c = I.coll_add(mk("coll", k("")), *els)
        t, fl = [], []
        for e in els:
            for s2, r in I.call_value(s, a[1], [strip_gel(e)], (ctx, "part"), loc):
                for s3, b in I.split_bool(s2, r):
                    (t if b else fl).append(gel(I, s3, strip_gel(e)))
        return [(s, tup(I.coll_add(mk("coll", k("")), *t), I.coll_add(mk("coll", k("")), *fl)))]
    c = I.coll_add(mk("coll", k("")), *els)
    src = I.deep(st, sq.a[0])
    if nm in ("join", "concat") and src.op == "call" and src.a[0] == "sorted":
        c = mk("call", "sorted", c, *src.a[2:])
    if nm == "join" and rest and rest[0] is k("") and src.op != "call":
        return [(s, c)]
    if nm == "join" and len(rest) == 1 and len(sq.a) == 1 and src.op == "agg" and src.a[0] == "[]":
        parts = [y for x in src.a[3:] for y in (rest[0], x)][1:]
        return [(s, cat(*parts) if parts else k(""))]
    return [(s, mk("call", nm, c, *rest))]


# ---------------------------------------------------------------------- calls through Fn traits, futures
@model("core::ops::function::Fn::call", "core::ops::function::FnMut::call_mut", "core::ops::function::FnOnce::call_once")
def f(I, st, a, ctx, cc, loc):
    t = d(I, st, a[1])
    args = list(t.a[3:]) if t.op == "agg" else [mk("fld", t, "0")]
    return I.call_value(st, a[0], args, (ctx, "fn"), loc)


@model("core::future::future::Future::poll", "re:as core::future::future::Future>::poll$")
def f(I, st, a, ctx, cc, loc):
    if cc.get("res") in I.F.index and I.F.index[cc["res"]]["kind"] != "coroutine":
        return None
    fv = d(I, st, a[0])
    if fv.op == "maybe":
        return [(st, agg("core::task::poll::Poll", "Ready", ("0",), UNIT))]
    return [(s, agg("core::task::poll::Poll", "Ready", ("0",), r)) for s, r in I.poll(st, a[0], (ctx, "poll"))]


@model("core::task::poll::Poll::is_ready", "core::task::poll::Poll::is_pending")
def f(I, st, a, ctx, cc, loc):
    v = d(I, st, a[0])
    if v.op == "agg":
        return [(st, k((v.a[1] == "Ready") == cc["fn"].endswith("is_ready")))]
    return None


@model("futures_util::future::join_all::join_all", "futures_util::future::try_join_all::try_join_all")
def f(I, st, a, ctx, cc, loc):
    sq = to_seq(I, st, a[0])
    return [(st, mk("joinall", sq, k("try" in cc["fn"])))]


@model("futures::join_all*")
def f(I, st, fv, ctx):
    sq = fv.a[0]
    st0 = open_loop(I, st, sq, ctx)
    els, states = [], []
    for s, x in items(I, st0, sq, ctx, "?"):
        if x is None:
            continue
        for s2, r in I.poll(s, x, (ctx, "ja")):
            states.append(s2)
            els.append(gel(I, s2, I.deep(s2, r)))
    st1 = merge_events(states, st0.copy().leave(ctx))
    return [(st1, I.coll_add(mk("coll", k("")), *els))]


@model("core::future::ready::ready")
def f(I, st, a, ctx, cc, loc):
    return [(st, mk("ready", a[0]))]


@model("core::future::get_context", "core::future::ResumeTy")
def f(I, st, a, ctx, cc, loc):
    return [(st, mk("const", "Context"))]


# tracing / logging never matters
@model("re:^(tracing|tracing_core|tracing_attributes|log)::", "re:^<tracing")
def f(I, st, a, ctx, cc, loc):
    if cc["fn"].endswith("Instrument::instrument") or "Instrument::" in cc["fn"] and a:
        return [(st, a[0])]
    if cc["fn"].endswith("::from_str"):
        return MODELS_FROM_STR(I, st, a, ctx, cc, loc)
    if re.search(r"::(Event(::<.*>)?::metadata|Metadata(::<.*>)?::(level|target)|LevelFilter::from_level|from)$", cc["fn"]):
        return None
    if "is_enabled" in cc["fn"] or "enabled" in cc["fn"]:
        return [(st, FALSE)]
    if cc["fn"].endswith(("::is_never", "::is_always", "is_disabled")):
        return [(st, FALSE)]
    return [(st, mk("const", "tracing"))]


@model("core::intrinsics::discriminant_value", "core::mem::discriminant")
def f(I, st, a, ctx, cc, loc):
    v = d(I, st, a[0])
    return [(st, mk("discr", v, cc["ga"][0]))]


# ---------------------------------------------------------------------- entry API
@model("re:::(entry)$")
def f(I, st, a, ctx, cc, loc):
    if cc.get("res", cc["fn"]) in I.F.index or len(a) != 2:
        return None
    key = I.deep(st, a[1])
    return [(st, mk("entry", a[0], key, mk("call", "get", lookup_base(I.deep(st, a[0])), key)))]


def target_of(I, st, r):
    for _ in range(20):
        nx = I.walk(st, I.read_cell(st, r.a[0]), r.a[1])
        if nx is not None and nx.op == "ref":
            r = nx
        else:
            break
    return r


def slot_ref(I, st, r, key, cur=None):
    r = target_of(I, st, r)
    return mk("ref", r.a[0], r.a[1] + ((("slot", key, cur) if cur is not None else ("slot", key)),), 1)


def lookup_base(v):
    """a collection extended inside a loop is looked up under the name it had before the loop"""
    if v.op == "coll" and len(v.a) > 1 and any(e.haselem or e.op == "gel" for e in v.a[1:]):
        return v.a[0] if v.a[0].op != "k" else mk("coll", v.a[0])
    return v


@model("re:Entry(<.*>)?::(or_insert|or_insert_with|or_default|or_insert_with_key)$")
def f(I, st, a, ctx, cc, loc):
    e = d(I, st, a[0])
    if e.op != "entry":
        return None
    nm = cc["fn"].rsplit("::", 1)[-1]
    out = []
    if nm == "or_insert":
        rs = [(st, a[1])]
    elif nm == "or_insert_with":
        rs = I.call_value(st, a[1], [], (ctx, "e"), loc)
    else:
        rs = [(st, mk("coll", k("")))]
    if nm in ("or_insert", "or_insert_with") and e.a[0].op == "ref" and not I.result_used():
        # the value is added only where the key is new
        r = target_of(I, st, e.a[0])
        kept, fresh = [], []
        for s, p in I.opt(st, e.a[2]):
            (kept if p is not None else fresh).append(s)
        out = [(s, mk("ref", r.a[0], r.a[1] + (("slot", e.a[1]),), 1)) for s in kept]
        rs = [x for s in fresh for x in ([(s, a[1])] if nm == "or_insert" else I.call_value(s, a[1], [], (ctx, "e"), loc))]
    for s, v in rs:
        s2 = add(I, s, e.a[0], mk("kv", e.a[1], I.deep(s, v))) if e.a[0].op == "ref" else s
        if e.a[0].op == "ref":
            r = target_of(I, s2, e.a[0])
            out.append((s2, mk("ref", r.a[0], r.a[1] + (("slot", e.a[1]),), 1)))
        else:
            out.append((s2, mk("slot", e.a[1])))
    return out


@model("re:OccupiedEntry(::<.*>|<.*>)?::(get|get_mut|into_mut|insert|remove|key|shift_remove|swap_remove)$",
       "re:VacantEntry(::<.*>|<.*>)?::(insert|key|into_key|insert_entry)$")
def f(I, st, a, ctx, cc, loc):
    e = d(I, st, a[0])
    if e.op != "entry":
        return None
    n = cc["fn"].rsplit("::", 1)[-1]
    cur = mk("pay", e.a[2], "Some", "0")
    if n in ("key", "into_key"):
        return [(st, e.a[1])]
    if "OccupiedEntry" in cc["fn"]:
        if n == "get":
            if e.a[0].op == "ref":
                return [(st, slot_ref(I, st, e.a[0], e.a[1], cur))]
            return [(st, cur)]
        if e.a[0].op != "ref":
            return None
        if n in ("get_mut", "into_mut"):
            return [(st, slot_ref(I, st, e.a[0], e.a[1], cur))]
        if n == "insert":
            return [(add(I, st, e.a[0], mk("kv", e.a[1], I.deep(st, a[1]))), cur)]
        return [(add(I, st, e.a[0], mk("rem", e.a[1])), cur)]
    if e.a[0].op != "ref":
        return None
    s = add(I, st, e.a[0], mk("kv", e.a[1], I.deep(st, a[1])))
    return [(s, slot_ref(I, s, e.a[0], e.a[1]))]


@model("re:^<?(alloc|std|indexmap|hashbrown|serde_json|serde_yaml_ng|dashmap)::.*(HashMap|BTreeMap|IndexMap|Map|Mapping|DashMap|HashSet|BTreeSet|IndexSet)(<.*>)?(::<.*>)?::(remove|shift_remove|swap_remove|remove_entry)$")
def f(I, st, a, ctx, cc, loc):
    if cc.get("res", cc["fn"]) in I.F.index or len(a) != 2 or a[0].op != "ref":
        return None
    key = I.deep(st, a[1])
    base = I.deep(st, a[0])
    s = add(I, st, a[0], mk("rem", key))
    if base.op == "coll" and base.a[0].op == "k":
        return [(s, NONE), (s, some(mk("slot", key)))] if "Set" not in cc["fn"] else [(s, TRUE), (s, FALSE)]
    if "Set" in cc["fn"]:
        return [(s, mk("call", "contains", lookup_base(base), key))]
    return [(s, mk("call", "get", lookup_base(base), key))]


# string parsing keeps the target type in the name
@model("core::str::<impl str>::parse")
def f(I, st, a, ctx, cc, loc):
    t = cc["ga"][-1] if cc.get("ga") else "?"
    return I.opaque_call(st, f"parse<{t}>", a, ctx)


@model("core::convert::TryFrom::try_from", "core::convert::TryInto::try_into", "re:as core::convert::TryFrom<.*>>::try_from$",
       "re:impl core::convert::TryFrom<.*> for .*>::try_from$", "re:as core::convert::TryInto<.*>>::try_into$")
def f(I, st, a, ctx, cc, loc):
    if cc.get("res") in I.F.index:
        return None
    ga = cc.get("ga", [])
    if "TryInto" in cc["fn"]:
        src, dst = (ga + ["?", "?"])[:2]
        tab = getattr(I.F, "_tryfrom", None)
        if tab is None:
            tab = {}
            for kx, dd in I.F.index.items():
                r = dd.get("implref")
                if r and dd.get("name") == "try_from":
                    m = re.match(r"<(.*) as core::convert::TryFrom<(.*)>>$", re.sub(r"'\w+ ?", "", r))
                    if m:
                        tab[(m.group(1), m.group(2))] = kx
            I.F._tryfrom = tab
        hit = tab.get((re.sub(r"'\w+ ?", "", dst), re.sub(r"'\w+ ?", "", src)))
        if hit and I.stack.count(hit) == 0 and not I.is_opaque(hit):
            return [(o.st, o.ret) for o in I.run_body(hit, a, st, {}, ctx)]
    else:
        dst, src = (ga + ["?", "?"])[:2]
    return I.opaque_call(st, f"try_from<{dst}>", a, ctx)


@model("core::str::traits::FromStr::from_str")
def MODELS_FROM_STR(I, st, a, ctx, cc, loc):
    return I.opaque_call(st, f"parse<{cc.get('self')}>", a, ctx)


@model("re:::(get|get_mut|get_key_value)$")
def f(I, st, a, ctx, cc, loc):
    if cc.get("res", cc["fn"]) in I.F.index:
        return None
    if not re.match(r"^<?(alloc|std|core|indexmap|hashbrown|http|serde_json|serde_yaml_ng|dashmap)::", cc["fn"]):
        return None
    base = d(I, st, a[0])
    if base.op == "coll" and base.a[0].op == "k":
        # a collection being built here: either outcome is possible
        if cc["fn"].endswith("get_mut") and a[0].op == "ref":
            r = a[0]
            for _ in range(20):
                nx = I.walk(st, I.read_cell(st, r.a[0]), r.a[1])
                if nx is not None and nx.op == "ref":
                    r = nx
                else:
                    break
            return [(st, NONE), (st, some(mk("ref", r.a[0], r.a[1] + (("slot", I.deep(st, a[1])),), 1)))]
        return [(st, NONE), (st, some(mk("slot", I.deep(st, a[1]))))]
    t = mk("call", "get", lookup_base(I.deep(st, a[0])), *[I.deep(st, x) for x in a[1:]])
    if cc["fn"].endswith("get_mut") and a[0].op == "ref" and len(a) == 2:
        out = []
        for s, p in I.opt(st, t):
            out.append((s, NONE if p is None else some(slot_ref(I, s, a[0], I.deep(s, a[1]), p))))
        return out
    return [(st, t)]


@model("re:box_assume_init_into_vec_unsafe$")
def f(I, st, a, ctx, cc, loc):
    v = I.deep(st, a[0])
    for _ in range(6):
        if v.op == "upd":
            v = v.a[2]
        elif v.op == "agg" and v.a[0] != "[]" and len(v.a) == 4:
            v = v.a[3]
    return [(st, v)]


@model("re:::(contains_key|contains)$")
def f(I, st, a, ctx, cc, loc):
    if cc.get("res", cc["fn"]) in I.F.index:
        return None
    v = I.deep(st, a[0])
    x = I.deep(st, a[1])
    if cc["fn"].endswith("contains_key"):
        if v.op == "coll" and v.a[0].op == "k":
            return [(st, TRUE), (st, FALSE)] if len(v.a) > 1 else [(st, FALSE)]
        return [(s, k(p is not None)) for s, p in I.opt(st, mk("call", "get", lookup_base(v), x))]
    if v.op == "agg" and v.a[0] == "[]":
        # membership in a constant list
        if x.op == "k" and all(e.op == "k" for e in v.a[3:]):
            return [(st, k(x in v.a[3:]))]
        if all(e.op == "agg" and e.a[1] for e in v.a[3:]):
            vx = I.variant_of(st, x)
            if vx is not None:
                return [(st, k(any(e.a[1] == vx for e in v.a[3:])))]
    return [(st, mk("call", "contains", lookup_base(v), x))]


@model("core::ops::index::Index::index", "core::ops::index::IndexMut::index_mut", "re:as core::ops::index::Index(Mut)?<.*>>::index(_mut)?$",
       "re:impl core::ops::index::Index(Mut)?<.*>::index(_mut)?$")
def f(I, st, a, ctx, cc, loc):
    if cc.get("res") in I.F.index:
        return None
    v, i = d(I, st, a[0]), I.deep(st, a[1])
    I.panics.append(("index", mk("idx", I.deep(st, v), i), dict(st.facts), loc, I.stack[-1] if I.stack else "?", st.events))
    if cc["fn"].endswith("index_mut") and a[0].op == "ref":
        return [(st, mk("ref", a[0].a[0], a[0].a[1] + (("i", i),), 1))]
    return [(st, I.index(st, v, i))]


@model("core::bool::<impl bool>::then", "core::bool::<impl bool>::then_some")
def f(I, st, a, ctx, cc, loc):
    out = []
    for s, b in I.split_bool(st, a[0]):
        if not b:
            out.append((s, NONE))
        elif cc["fn"].endswith("then_some"):
            out.append((s, some(a[1])))
        else:
            out += [(s2, some(r)) for s2, r in I.call_value(s, a[1], [], (ctx, "c"), loc)]
    return out


# futures::join! expands to a poll_fn over maybe_done futures
@model("re:poll_fn::poll_fn$")
def f(I, st, a, ctx, cc, loc):
    return [(st, mk("pollfn", a[0]))]


@model("re:maybe_done::maybe_done$")
def f(I, st, a, ctx, cc, loc):
    return [(st, mk("maybe", a[0]))]


@model("re:maybe_done::MaybeDone.*>::poll$", "re:^<futures_util::future::maybe_done::MaybeDone.* as .*Future>::poll$")
def f(I, st, a, ctx, cc, loc):
    return [(st, agg("core::task::poll::Poll", "Ready", ("0",), UNIT))]


@model("re:MaybeDone(::<.*>)?::take_output$")
def f(I, st, a, ctx, cc, loc):
    v = d(I, st, a[0])
    if v.op != "maybe":
        return None
    return [(s, some(r)) for s, r in I.poll(st, v.a[0], (ctx, "take"))]


@model("core::hash::Hash::hash", "re:as core::hash::Hash>::hash$", "re:impl core::hash::Hash for .*>::hash$",
       "re:^core::hash::Hasher::write(_\\w+)?$", "re:as core::hash::Hasher>::write(_\\w+)?$")
def f(I, st, a, ctx, cc, loc):
    """what a hash covers is a set of contributions; their order is not part of the meaning"""
    if cc.get("res", cc["fn"]) in I.F.index or len(a) != 2:
        return None
    name = cc["fn"].rsplit("::", 1)[-1]
    x, s = (a[0], a[1]) if name == "hash" else (a[1], a[0])
    if s.op != "ref":
        return None
    return [(add(I, st, s, I.deep(st, x)), UNIT)]


@model("tailcall::core::data_loader::storage::CacheStorage::get")
def f(I, st, a, ctx, cc, loc):
    """a lookup: it may reorder an LRU list, which no result depends on"""
    if cc.get("res", cc["fn"]) in I.F.index:
        return None
    return [(st, mk("call", "CacheStorage::get", I.deep(st, a[0]), I.deep(st, a[1])))]


@model("tokio::task::spawn::spawn", "tokio::task::local::spawn_local", "tokio::runtime::runtime::Runtime::spawn",
       "tokio::runtime::handle::Handle::spawn", "async_std::task::spawn_local")
def f(I, st, a, ctx, cc, loc):
    """the task runs at some time after this point: what it calls is recorded, its result is awaitable"""
    fut = a[-1]
    evs = list(st.events)
    I.later += 1      # what a lock protects may have changed by then
    try:
        for s2, r in I.poll(st.copy(), fut, (ctx, "spawn")):
            for e in s2.events:
                if e not in evs:
                    evs.append(e)
    finally:
        I.later -= 1
    s = st
    if len(evs) != len(st.events):
        s = st.copy()
        s.events = tuple(evs)
    return [(s, mk("call", "spawn", I.deep(s, fut)))]


# ---------------------------------------------------------------------- tailcall_valid: Valid / Fusion are results whose errors accumulate
VV = "tailcall_valid::valid::Valid::"
VR = "tailcall_valid::valid::Validator::"


def vm(name):
    return (VR + name, f"re:^<tailcall_valid::valid::(Valid|Fusion)(<.*>)? as tailcall_valid::valid::Validator(<.*>)?>::{name}$")


def causes(*es):
    """the accumulated causes of several errors"""
    flat = []
    for e in es:
        for x in (e.a[1:] if e.op == "call" and e.a[0] == "causes" else (e,)):
            if x not in flat:
                flat.append(x)
    return mk("call", "causes", *flat)


@model(VV + "succeed")
def f(I, st, a, ctx, cc, loc):
    return [(st, ok(a[0]))]


@model(VV + "none")
def f(I, st, a, ctx, cc, loc):
    return [(st, ok(NONE))]


@model(VV + "fail", VV + "fail_with", VV + "from_vec_cause")
def f(I, st, a, ctx, cc, loc):
    nm = cc["fn"].rsplit("::", 1)[-1]
    vals = [I.deep(st, x) for x in a]
    if nm == "from_vec_cause":
        return [(st, err(causes(mk("call", "each", *vals))))]
    return [(st, err(causes(*vals)))]


@model("tailcall_valid::error::ValidationError::new")
def f(I, st, a, ctx, cc, loc):
    return [(st, causes(I.deep(st, a[0])))]


@model("tailcall_valid::error::ValidationError::empty")
def f(I, st, a, ctx, cc, loc):
    return [(st, mk("call", "causes"))]


@model("tailcall_valid::error::ValidationError::combine")
def f(I, st, a, ctx, cc, loc):
    return [(st, causes(I.deep(st, a[0]), I.deep(st, a[1])))]


@model("tailcall_valid::error::ValidationError::trace", "tailcall_valid::cause::Cause::trace")
def f(I, st, a, ctx, cc, loc):
    return [(st, a[0])]


@model(VV + "from_validation_err")
def f(I, st, a, ctx, cc, loc):
    return [(st, err(I.deep(st, a[0])))]


@model(VV + "from_option")
def f(I, st, a, ctx, cc, loc):
    return [(s, ok(p) if p is not None else err(causes(I.deep(s, a[1])))) for s, p in I.opt(st, a[0])]


@model("re:^<tailcall_valid::valid::Valid(<.*>)? as core::convert::From(<.*>)?>::from$", *vm("to_result"), *vm("trace"))
def f(I, st, a, ctx, cc, loc):
    return [(st, a[0])]


@model(*vm("is_succeed"), *vm("is_fail"))
def f(I, st, a, ctx, cc, loc):
    good = "is_succeed" in cc["fn"].rsplit("::", 1)[-1]
    return [(s, k((v == "Ok") == good)) for s, v, p in I.res(st, d(I, st, a[0]))]


@model(*vm("map"))
def f(I, st, a, ctx, cc, loc):
    out = []
    for s, v, p in I.res(st, a[0]):
        out += [(s2, ok(r)) for s2, r in I.call_value(s, a[1], [p], (ctx, "c"), loc)] if v == "Ok" else [(s, err(p))]
    return out


@model(*vm("foreach"))
def f(I, st, a, ctx, cc, loc):
    out = []
    for s, v, p in I.res(st, a[0]):
        out += [(s2, ok(p)) for s2, _ in I.call_value(s, a[1], [p], (ctx, "c"), loc)] if v == "Ok" else [(s, err(p))]
    return out


@model(*vm("and_then"))
def f(I, st, a, ctx, cc, loc):
    out = []
    for s, v, p in I.res(st, a[0]):
        out += I.call_value(s, a[1], [p], (ctx, "c"), loc) if v == "Ok" else [(s, err(p))]
    return out


@model(*vm("fold"))
def f(I, st, a, ctx, cc, loc):
    out = []
    for s, v, p in I.res(st, a[0]):
        if v == "Ok":
            out += I.call_value(s, a[1], [p], (ctx, "c"), loc)
        else:
            for s2, r in I.call_value(s, a[2], [], (ctx, "d"), loc):
                rv = d(I, s2, r)
                out.append((s2, err(also(I, s2, p, rv))))
    return out


def also(I, s, e, other):
    """the causes of `e` and those of `other`, whatever `other` turns out to be"""
    ov = d(I, s, other)
    v = I.variant_of(s, ov)
    if v == "Ok":
        return e
    if v == "Err":
        return causes(e, I.deep(s, I.payload(s, ov, "Err", "0")))
    return causes(e, mk("call", "causes_of", I.deep(s, ov)))


@model(*vm("unit"))
def f(I, st, a, ctx, cc, loc):
    return [(s, ok(UNIT) if v == "Ok" else err(p)) for s, v, p in I.res(st, a[0])]


@model(*vm("some"))
def f(I, st, a, ctx, cc, loc):
    return [(s, ok(some(p)) if v == "Ok" else err(p)) for s, v, p in I.res(st, a[0])]


@model(*vm("map_to"))
def f(I, st, a, ctx, cc, loc):
    return [(s, ok(a[1]) if v == "Ok" else err(p)) for s, v, p in I.res(st, a[0])]


@model(*vm("when"))
def f(I, st, a, ctx, cc, loc):
    out = []
    for s, r in I.call_value(st, a[1], [], (ctx, "c"), loc):
        for s2, b in I.split_bool(s, r):
            if not b:
                out.append((s2, ok(UNIT)))
            else:
                out += [(s3, ok(UNIT) if v == "Ok" else err(p)) for s3, v, p in I.res(s2, a[0])]
    return out


@model(*vm("zip"), *vm("fuse"), *vm("and"), "tailcall_valid::valid::Fusion::fuse")
def f(I, st, a, ctx, cc, loc):
    nm = cc["fn"].rsplit("::", 1)[-1]
    more = "Fusion::" in canon_(cc["fn"])
    out = []
    for s, v, p in I.res(st, a[0]):
        if v == "Err":
            out.append((s, err(also(I, s, p, a[1]))))
            continue
        for s2, v2, q in I.res(s, a[1]):
            if v2 == "Err":
                out.append((s2, err(q)))
            elif nm == "and":
                out.append((s2, ok(q)))
            elif more:
                pv = d(I, s2, p)
                vals = list(pv.a[3:]) if pv.op == "agg" and pv.a[0] == "()" else [pv]
                out.append((s2, ok(tup(*vals, q))))
            else:
                out.append((s2, ok(tup(p, q))))
    return out


def canon_(p):
    return re.sub(r"<[^<>]*>", "", p).replace("::::", "::")


@model(VV + "from_iter")
def f(I, st, a, ctx, cc, loc):
    sq = to_seq(I, st, a[0])
    st0 = open_loop(I, st, sq, ctx)
    goods, out, states = [], [], []
    for s, x in items(I, st0, sq, ctx, loc):
        states.append(s)
        if x is None:
            continue
        for s1, r in I.call_value(s, a[1], [x], (ctx, "vi"), loc):
            for s2, v, p in I.res(s1, r):
                states.append(s2)
                if v == "Ok":
                    goods.append(gel(I, s2, I.deep(s2, p)))
                else:
                    out.append((s2, err(I.deep(s2, p))))
    st1 = merge_events(states, st0.copy().leave(ctx))
    new = {}
    for s in states:
        for c, v in s.mem.items():
            o = st1.mem.get(c)
            if o is not None and o is not v and st0.mem.get(c) is not v:
                new.setdefault(c, {}).setdefault(v, s)
    for c, vs in new.items():
        o = st1.mem[c]
        st1 = st1.copy()
        if len(vs) == 1:
            st1.mem[c] = next(iter(vs))
        elif all(v.op == "coll" and v.a[0] is o for v in vs) or o.op == "coll" and all(v.op == "coll" and v.a[0] is o.a[0] for v in vs):
            for v in vs:
                st1.mem[c] = I.coll_add(st1.mem[c] if st1.mem[c].op == "coll" else mk("coll", o), *v.a[1:])
        else:
            # one of these steps in each iteration
            step = lambda v, s: gel(I, s, replace_term(v, o, I.HOLE))
            (v1, s1), *more = vs.items()
            st1.mem[c] = I.join_steps(mk("loop", o, step(v1, s1)), tuple(step(v, s) for v, s in more))
    uniq, seen = [], set()
    for s, r in out:
        kx = (s.key(), r)
        if kx not in seen:
            seen.add(kx)
            uniq.append((s, r))
    return [(st1, ok(I.coll_add(mk("coll", k("")), *goods)))] + uniq


# ---------------------------------------------------------------------- sorting in place: the collection and what it is ordered by
def replace_term(t, frm, to):
    if t is frm:
        return to
    if not isinstance(t, T):
        return tuple(replace_term(x, frm, to) for x in t) if isinstance(t, tuple) else t
    return mk(t.op, *[replace_term(x, frm, to) if isinstance(x, (T, tuple)) else x for x in t.a])


LHS, RHS, ANY = mk("in", "#1"), mk("in", "#2"), mk("in", "#")


def order_term(I, st, f, nm, ctx, loc):
    if f is None:
        return ANY
    if "key" in nm:
        rs = {I.deep(s, r) for s, r in I.call_value(st, f, [ANY], (ctx, "so"), loc)}
        return rs.pop() if len(rs) == 1 else mk("any", *sorted(rs, key=lambda r: r.uid))
    rs = {I.deep(s, r) for s, r in I.call_value(st, f, [LHS, RHS], (ctx, "so"), loc)}
    if len(rs) == 1:
        r = rs.pop()
        if r.op == "call" and str(r.a[0]).rsplit("::", 1)[-1] in ("cmp", "partial_cmp") and len(r.a) == 3:
            x, y = r.a[1], r.a[2]
            if replace_term(x, LHS, ANY) is replace_term(y, RHS, ANY):
                return replace_term(x, LHS, ANY)
            if replace_term(x, RHS, ANY) is replace_term(y, LHS, ANY):
                return mk("call", "desc", replace_term(x, RHS, ANY))
        return r
    return mk("any", *sorted(rs, key=lambda r: r.uid))


@model("re:^alloc::slice::<impl \\[T\\]>::sort(_by|_by_key|_by_cached_key|_unstable|_unstable_by|_unstable_by_key)?$",
       "re:^core::slice::<impl \\[T\\]>::sort(_by|_by_key|_by_cached_key|_unstable|_unstable_by|_unstable_by_key)?$")
def f(I, st, a, ctx, cc, loc):
    nm = cc["fn"].rsplit("::", 1)[-1]
    if a[0].op != "ref":
        return None
    s = st.copy()
    key = order_term(I, st, a[1] if len(a) > 1 else None, nm, ctx, loc)
    write_through(I, s, a[0], mk("call", "sorted", I.deep(s, a[0]), key))
    return [(s, UNIT)]


@model("re:^std::path::Path::new$")
def f(I, st, a, ctx, cc, loc):
    return [(st, d(I, st, a[0]))]


@model(r"re:^(std::process::Command|tokio::process::Command|tokio::runtime::builder::Builder)::(args?|envs?|env_clear|env_remove|current_dir|stdin|stdout|stderr|kill_on_drop|worker_threads|max_blocking_threads|enable_\w+|thread_\w+)$")
def f(I, st, a, ctx, cc, loc):
    """a builder that is changed through an exclusive reference: the reference now names the changed builder"""
    if a[0].op != "ref":
        return None
    nm, v = canon_(cc["fn"]), d(I, st, a[0])
    xs = [I.deep(st, x) for x in a[1:]]
    if nm.endswith("::args") and xs[0].op == "agg" and xs[0].a[0] == "[]":
        nm = nm[:-1]
        for x in xs[0].a[3:]:
            v = mk("call", nm, v, x)
    else:
        v = mk("call", nm, v, *xs)
    s = st.copy()
    I.write(s, a[0].a[0], a[0].a[1], v)
    return [(s, a[0])]
