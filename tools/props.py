#!/usr/bin/env python3
"""props.py: the single source of properties.jsonl, MANIFEST.json and the property part of DESIGN.md"""
import json, os, re, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []


def prop(id, title, statement, over, text, why, files, mech, how, tech="", limits="", state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  how=how, tech=tech, limits=limits, state=state or []))


def na(id, title, statement, over, text, why, files, mech, reason):
    NA.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                   reason=reason))


TABLE = ("Abstract interpretation of the compiled MIR: the complete decision table (path condition -> result, effects) of "
         "every anchored function is computed for symbolic inputs and compared with a specification table")


def main():
    src = open(os.path.join(V, "tools", "props_data.py")).read()
    exec(compile(src, "props_data.py", "exec"), globals())
    P.sort(key=lambda p: p["id"])
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in sorted(P + NA, key=lambda p: p["id"]):
            assert re.match(r"^[A-Z][0-9]{2,3}$", p["id"]) and len(p["title"]) <= 80, p["id"]
            assert len(re.findall(r"[.!?](?:\s|$)", p["statement"])) <= 3, ("statement", p["id"])
            for x in p["files"]:
                assert os.path.exists("/repo/" + x), (p["id"], x)
            d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
                 "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                 "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}}
            if p.get("state"):
                d["anchors"]["state"] = [{"name": n, "meaning": w} for n, w in p["state"]]
            f.write(json.dumps(d) + "\n")
    checks = []
    for p in P:
        checks.append({"property": p["id"], "quick_cmd": f"python3 /verif/check.py {p['id']} quick",
                       "thorough_cmd": f"python3 /verif/check.py {p['id']} thorough",
                       "technique": p["tech"] or TABLE, "level": "other",
                       "level_note": ("Static analysis over all paths of the analysed bodies (sound up to the stated "
                                      "assumptions: models of library functions, stubs of the six git-only dependencies). "
                                      + p["limits"]).strip()})
    fixes = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], capture_output=True, text=True).stdout.splitlines()
    m = {"version": 1, "setup_cmd": "python3 /verif/fw/extract.py", "checks": checks,
         "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in NA]}
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    head = open(os.path.join(V, "tools", "design_head.md")).read()
    tail = open(os.path.join(V, "tools", "design_tail.md")).read()
    out = [head, "\n## Properties\n"]
    for p in sorted(P + NA, key=lambda p: p["id"]):
        out.append(f"### {p['id']} {p['title']}\n\n{p['statement']}\n")
        if "reason" in p:
            out.append(f"Not applicable: {p['reason']}\n")
        else:
            nt = 0
            sp = os.path.join(V, "specs", p["id"] + ".tbl")
            fn = []
            if os.path.exists(sp):
                fn = [l[3:].split(" -")[0].strip() for l in open(sp) if l.startswith("## ")]
            out.append(f"Decided by: {p['how']}\n")
            if fn:
                out.append("Decision tables: " + ", ".join(f"`{x}`" for x in fn) + ".\n")
            if p["limits"]:
                out.append(f"Not covered: {p['limits']}\n")
    out.append(tail)
    open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out))
    print(len(P), "claimed", len(NA), "not applicable")


main()
