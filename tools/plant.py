#!/usr/bin/env python3
"""plant.py FILE [ID..]: FILE defines BUGS = [dict(id, prop, file, old, new, demo, needs, breaks[, deps])].
Writes /verif/seeded/<id>/ and confirms each bug in /repo (applied, built, tested, demonstrated, checked, undone)."""
import json, os, subprocess, sys, re

ns = {}
exec(open(sys.argv[1]).read(), ns)
want = set(sys.argv[2:])
DEMO = r'''#!/bin/bash
# builds demo.rs against the library built from /repo and runs it
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d)
. /opt/vp/env.sh
mkdir -p "$W/demo/src" "$W/ws"
cp "$D/demo.rs" "$W/demo/src/main.rs"
cp "$D/Cargo.demo.toml" "$W/demo/Cargo.toml"
cp /opt/vp/ws/Cargo.lock "$W/demo/Cargo.lock"
cp -rL /opt/vp/ws/Cargo.toml /opt/vp/ws/Cargo.lock /opt/vp/ws/src /opt/vp/ws/generated /opt/vp/ws/examples /opt/vp/ws/tailcall-* /opt/vp/ws/tests /opt/vp/ws/README.md "$W/ws/" 2>/dev/null
for x in /opt/vp/ws/*; do [ -e "$W/ws/$(basename "$x")" ] || ln -s "$x" "$W/ws/"; done
# private modules of the library are made visible to the demonstration
find "$W/ws/src" -name '*.rs' -exec sed -i -E 's/^mod ([a-z_0-9]+);/pub mod \1;/' {} +
cd "$W/demo" && cargo build --offline -q 2> build.log || { tail -30 build.log; exit 3; }
timeout 60 "$CARGO_TARGET_DIR/debug/demo"
'''
TOML = '''[package]
name = "demo"
version = "0.0.0"
edition = "2021"

[dependencies]
%s

[workspace]
'''
sh = lambda c, **k: subprocess.run(c, shell=True, capture_output=True, text=True, **k)
for b in ns["BUGS"]:
    if want and b["id"] not in want:
        continue
    d = f"/verif/seeded/{b['id']}"
    os.makedirs(d, exist_ok=True)
    assert sh("git -C /repo status --porcelain").stdout == "", "repo dirty"
    edits = b.get("edits") or [(b["file"], b["old"], b["new"])]
    for f, old, new in edits:
        p = "/repo/" + f
        s = open(p).read()
        assert s.count(old) == 1, (b["id"], f, s.count(old))
        open(p, "w").write(s.replace(old, new))
    try:
        sh("rustfmt --version")
        open(f"{d}/patch.diff", "w").write(sh("git -C /repo diff").stdout)
        open(f"{d}/demo.rs", "w").write(b["demo"])
        deps = b.get("deps", {})
        open(f"{d}/Cargo.demo.toml", "w").write(TOML % "\n".join([ 'tailcall = { path = "../ws" }'] + [f"{k} = {v}" for k, v in deps.items()]))
        open(f"{d}/demo.sh", "w").write(DEMO)
        os.chmod(f"{d}/demo.sh", 0o755)
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(f"{d}/meta.json", "w"), indent=1)
        r = sh("bash /opt/vp/build.sh")
        built = r.returncode == 0
        tests = None
        if built:
            sh("bash /opt/vp/test.sh /tmp/plant.json")
            base = set(json.load(open("/opt/vp/BASELINE.json")).get("tests", json.load(open("/opt/vp/BASELINE.json"))) if False else [])
            res = json.load(open("/tmp/plant.json"))
            tests = (len(res["passed"]), len(res["failed"]))
        else:
            print(r.stdout[-1500:], r.stderr[-1500:])
        dm = sh(f"cd /repo && bash {d}/demo.sh")
        ck = sh(f"cd /verif && python3 fw/extract.py >/dev/null; python3 check.py {b['prop']} quick")
        caught = f"VIOLATION property={b['prop']}" in ck.stdout and ck.returncode == 1
    finally:
        sh("git -C /repo checkout -- .")
    clean = sh(f"bash /opt/vp/build.sh; cd /repo && bash {d}/demo.sh") if not b.get("skipclean") else None
    print(b["id"], "built", built, "tests", tests, "demo-bug", dm.returncode, (dm.stdout + dm.stderr)[-160:].replace("\n", " | "),
          "demo-clean", clean.returncode if clean else "-", (clean.stdout + clean.stderr)[-200:].replace("\n", " | ") if clean and clean.returncode else "", "CAUGHT" if caught else "MISSED", ck.stdout[:160].replace("\n", " ") if not caught else "")
    sys.stdout.flush()
sh("cd /verif && python3 fw/extract.py")
