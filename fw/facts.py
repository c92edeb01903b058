"""Loading of the MIR facts made by the rustc driver."""
import json, os, re, collections
import extract as X
import terms


def strip_generics(p):
    """`a::B::<T>::c` -> `a::B::c`; keeps `<X as Y>::m` and strips generics inside."""
    out, i, n = [], 0, len(p)
    while i < n:
        if p.startswith("::<", i) and not p.startswith("::<impl ", i):
            d, j = 0, i + 2
            while j < n:
                if p[j] == "<":
                    d += 1
                elif p[j] == ">" and p[j - 1] != "-":
                    d -= 1
                    if d == 0:
                        break
                j += 1
            i = j + 1
            continue
        out.append(p[i])
        i += 1
    return "".join(out)


def type_args(t):
    """split top-level generic args of a type string"""
    i = t.find("<")
    if i < 0:
        return []
    d, cur, out = 0, "", []
    for ch in t[i + 1:-1]:
        if ch in "<([":
            d += 1
        elif ch in ">)]":
            d -= 1
        if ch == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


class Facts:
    CRATES = ["tailcall", "tailcall.bin", "tailcall_macros", "tailcall_http_cache", "tailcall_version",
              "tailcall_prettier", "tailcall_hasher", "tailcall_typedefs_common", "tailcall_fixtures",
              "tailcall_tracker", "tailcall_upstream_grpc.bin", "tailcall_typedefs.bin"]

    def __init__(self):
        self.info = X.extract()
        self.index = {}
        self.by_norm = collections.defaultdict(list)
        self.by_name = collections.defaultdict(list)
        self.children = collections.defaultdict(list)
        self.adts = {}
        self.impls = []
        self._f = {}
        self._b = {}
        for c in self.CRATES:
            ip = os.path.join(X.FACTS, c + ".index.jsonl")
            if not os.path.exists(ip):
                continue
            for l in open(ip):
                d = json.loads(l)
                d["crate"] = c
                k = d["id"]
                if k in self.index:
                    if k.endswith("::_"):
                        continue
                    n = 2
                    while f"{k}#{n}" in self.index:
                        n += 1
                    k = f"{k}#{n}"
                    d["id"] = k
                self.index[k] = d
                nk = strip_generics(k)
                self.by_norm[nk].append(k)
                if d.get("name"):
                    self.by_name[d["name"]].append(k)
                if d.get("parent"):
                    self.children[d["parent"]].append(k)
            m = json.load(open(os.path.join(X.FACTS, c + ".meta.json")))
            self.adts.update(m["adts"])
            terms.ADTS.update(m["adts"])
            self.impls += m["impls"]
        self.impl_by = collections.defaultdict(list)
        for im in self.impls:
            self.impl_by[im["trait"]].append(im)

    def body(self, k):
        b = self._b.get(k)
        if b is None:
            d = self.index[k]
            c = d["crate"]
            if c not in self._f:
                self._f[c] = open(os.path.join(X.FACTS, c + ".bodies.jsonl"), "rb")
            f = self._f[c]
            f.seek(d["off"])
            b = json.loads(f.read(d["len"]).replace(X.WS.encode(), b"/repo"))
            b["id"] = k
            self._b[k] = b
        return b

    def find(self, suffix, kind="fn"):
        """bodies whose generics-stripped path equals or ends with ::suffix"""
        r = []
        for nk, ks in self.by_norm.items():
            if nk == suffix or nk.endswith("::" + suffix) or (suffix.startswith("<") and nk == suffix):
                r += [k for k in ks if kind is None or self.index[k]["kind"] == kind]
        return r

    def impl_keys(self):
        r = getattr(self, "_ik", None)
        if r is None:
            r = collections.defaultdict(list)
            for kx, d in self.index.items():
                ref = d.get("implref")
                if not ref or d["kind"] != "fn" or not d.get("name"):
                    continue
                ref = re.sub(r"&?'\w+(, | )?", "", ref).replace("<>", "")
                m = re.match(r"^<(.*) as (.*)>$", ref)
                if not m:
                    continue
                for n in (1, 2):
                    for full in (0, 1):
                        f = lambda t: re.sub(r"[\w]+(::\w+)+", lambda q: "::".join(q.group(0).split("::")[-n:]), t)
                        t1, t2 = f(m.group(1)), re.sub(r"[\w]+(::\w+)+", lambda q: q.group(0).split("::")[-1], m.group(2))
                        if not full:
                            t1, t2 = re.sub(r"<.*", "", t1), re.sub(r"<.*", "", t2)
                        key = f"{t1} as {t2}::{d['name']}"
                        if kx not in r[key]:
                            r[key].append(kx)
            self._ik = r
        return r

    def one(self, suffix, kind="fn"):
        if " as " in suffix and not suffix.startswith("<"):
            r = self.impl_keys().get(suffix, [])
            if len(r) != 1:
                raise MissingAnchor(f"{suffix}: {len(r)} matches {r[:6]}")
            return r[0]
        r = self.find(suffix, kind)
        if len(r) != 1:
            raise MissingAnchor(f"{suffix}: {len(r)} matches {r[:4]}")
        return r[0]


class MissingAnchor(Exception):
    pass
