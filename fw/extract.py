#!/usr/bin/env python3
"""Type-check /repo's workspace with the fact-dumping rustc driver and leave MIR facts in build/facts.

Facts are reused only when the content hash of every source file of the workspace (and of this
machinery) equals the one they were made from.
"""
import hashlib, os, re, shutil, subprocess, sys, time, fcntl

FW = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(FW)
REPO = os.environ.get("TC_REPO", "/repo")
BUILD = os.environ.get("TC_BUILD", os.path.join(VERIF, "build"))
WS = os.path.join(BUILD, "ws")
TARGET = os.path.join(BUILD, "target")
FACTS = os.path.join(BUILD, "facts")
DRIVER_TARGET = os.path.join(BUILD, "driver")
DROP = ["tailcall-aws-lambda", "tailcall-cloudflare", "tailcall-wasm"]
STUBS = {
    '"https://github.com/laststylebender14/rust-genai.git"': ["genai"],
    '"https://github.com/twistedfall/htpasswd-verify"': ["htpasswd-verify"],
    '"https://github.com/PostHog/posthog-rs.git"': ["posthog-rs"],
    "crates-io": ["machineid-rs", "sysinfo", "whoami", "async-graphql-extension-apollo-tracing"],
}


def sources():
    """Every file of the workspace that the type-checked crates are made from."""
    out = []
    for top in sorted(os.listdir(REPO)):
        if top in DROP or top in ("target", ".git", "node_modules", "npm", "assets", "benches"):
            continue
        p = os.path.join(REPO, top)
        if os.path.isfile(p):
            if top.endswith((".toml", ".lock", ".rs")):
                out.append(p)
            continue
        for d, ds, fs in os.walk(p):
            ds[:] = sorted(x for x in ds if x not in ("target", "node_modules", "snapshots", ".git"))
            for f in sorted(fs):
                if "/tests/" in d + "/" and not f.endswith((".rs", ".toml")):
                    continue
                out.append(os.path.join(d, f))
    return out


def tree_hash():
    h = hashlib.sha256()
    extra = [os.path.join(FW, "rustc.sh"), os.path.join(FW, "extract.py"),
             os.path.join(VERIF, "driver/src/main.rs")]
    for p in sources() + extra:
        h.update(os.path.relpath(p, "/").encode() + b"\0")
        try:
            with open(p, "rb") as f:
                h.update(hashlib.sha256(f.read()).digest())
        except OSError:
            pass
    return h.hexdigest()


def make_ws():
    if os.path.isdir(WS):
        shutil.rmtree(WS)
    os.makedirs(WS)
    for e in os.listdir(REPO):
        if e in DROP or e in ("target", ".git", "Cargo.toml", "Cargo.lock", "rust-toolchain.toml"):
            continue
        os.symlink(os.path.join(REPO, e), os.path.join(WS, e))
    t = open(os.path.join(REPO, "Cargo.toml")).read()
    for m in DROP:
        t = re.sub(rf'(?m)^\s*"{m}",\n', "", t)
    t = re.sub(r"(?ms)^\[profile\.release\.package\.tailcall-cloudflare\].*?(?=^\[)", "", t)
    for src, names in STUBS.items():
        t += f"\n[patch.{src}]\n"
        for n in names:
            t += f'{n} = {{ path = "{FW}/stubs/{n}" }}\n'
    open(os.path.join(WS, "Cargo.toml"), "w").write(t)
    shutil.copy(os.path.join(REPO, "Cargo.lock"), os.path.join(WS, "Cargo.lock"))


def build_driver():
    env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=DRIVER_TARGET)
    env.pop("RUSTC", None)
    r = subprocess.run(["cargo", "+nightly", "build", "--release", "--offline", "-q"],
                       cwd=os.path.join(VERIF, "driver"), env=env, capture_output=True, text=True)
    if r.returncode != 0:
        sys.stderr.write(r.stderr[-4000:])
        raise SystemExit(3)


def extract(force=False, log=sys.stderr):
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        t0 = time.time()
        h = tree_hash()
        stamp = os.path.join(FACTS, "stamp")
        if not force and os.path.exists(stamp) and open(stamp).read() == h:
            return {"reused": True, "hash": h, "wall": time.time() - t0}
        build_driver()
        make_ws()
        if os.path.isdir(FACTS):
            shutil.rmtree(FACTS)
        os.makedirs(FACTS)
        # cargo must not believe its timestamps: make every workspace crate dirty
        fp = os.path.join(TARGET, "debug", ".fingerprint")
        if os.path.isdir(fp):
            for d in os.listdir(fp):
                if d.startswith("tailcall") and not d.startswith(("tailcall-valid", "tailcall-chunk")):
                    shutil.rmtree(os.path.join(fp, d))
        env = dict(os.environ, CARGO_TARGET_DIR=TARGET, CARGO_NET_OFFLINE="true",
                   RUSTC=os.path.join(FW, "rustc.sh"), RUSTUP_TOOLCHAIN="1.82",
                   FACTS_OUT=FACTS, FACTS_DRIVER=os.path.join(DRIVER_TARGET, "release/factdump"),
                   CARGO_INCREMENTAL="0", CARGO_TERM_COLOR="never")
        env.setdefault("FACTS_FLAGS", "-Awarnings")
        for k in ("RUSTFLAGS", "RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER"):
            env.pop(k, None)
        r = subprocess.run(["cargo", "check", "--offline", "-p", "tailcall", "-p", "tailcall-typedefs",
                            "-p", "tailcall-upstream-grpc", "-p", "tailcall-prettier"], cwd=WS, env=env, capture_output=True, text=True)
        if r.returncode != 0:
            log.write(r.stdout[-2000:] + r.stderr[-6000:])
            raise SystemExit(3)
        need = ["tailcall", "tailcall.bin", "tailcall_macros", "tailcall_http_cache", "tailcall_version",
                "tailcall_prettier", "tailcall_hasher", "tailcall_typedefs_common"]
        for n in need:
            if not os.path.exists(os.path.join(FACTS, n + ".bodies.jsonl")):
                log.write(f"facts of crate {n} were not produced\n")
                raise SystemExit(3)
        open(stamp, "w").write(h)
        return {"reused": False, "hash": h, "wall": time.time() - t0}


if __name__ == "__main__":
    print(extract(force="--force" in sys.argv))
