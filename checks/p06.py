"""P06, beyond the tables: every Set-Cookie value of an upstream response is forwarded as it is."""
import re


def check(ctx):
    F = ctx.F
    b = [k for k in F.index if k.endswith("request_context::RequestContext::set_cookie_headers")]
    if len(b) != 1:
        ctx.fail("anchor/set_cookie_headers", "RequestContext::set_cookie_headers not found")
        return
    todo, seen, calls = [b[0]], set(), set()
    while todo:
        k = todo.pop()
        if k in seen:
            continue
        seen.add(k)
        ctx.functions.add(k)
        for bl in F.body(k)["blocks"]:
            t = bl["t"]
            if t[0] == "call" and isinstance(t[1], list) and isinstance(t[1][1], dict):
                f = t[1][1]
                calls.add(f.get("res") or f.get("fn"))
        todo += [x for x in F.index if x.startswith(k + "::{closure")]
    every = any(re.search(r"HeaderMap.*::(get_all|iter|into_iter|drain)$|get_all$", c or "") for c in calls)
    ctx.ob("cookies/every-value/RequestContext::set_cookie_headers", every,
           "only the first Set-Cookie value of an upstream response is read, and values of different responses are joined into one",
           ctx.loc(b[0]))
