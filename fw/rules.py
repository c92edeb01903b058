"""Obligations, verdicts and evidence shared by the per-property checks."""
import json, os, re, time
from facts import Facts, MissingAnchor, strip_generics
from absint import Interp, Budget, State, Outcome, canon, fshow
from terms import *
import table as TB

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Ctx:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.F = Facts()
        self.obs = []          # (key, ok, msg)
        self.viol = []
        self.functions = set()
        self.notes = []
        self.steps = 0
        self.known = {}
        self.nrows = self.ntables = 0
        p = os.path.join(VERIF, "known_findings.txt")
        if os.path.exists(p):
            for l in open(p):
                m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l.strip())
                if m and m.group(1) == pid:
                    self.known[m.group(2)] = m.group(3)

    # -------------------------------------------------- running the analysis
    def interp(self, **kw):
        return Interp(self.F, **kw)

    def find(self, name):
        return self.F.one(name)

    def run(self, name, assume=None, args=None, subst=None, is_async=False, st=None, **kw):
        """outcomes of a function; a body found by suffix or exact id"""
        bid = name if name in self.F.index else self.F.one(name)
        I = Interp(self.F, **kw)
        if is_async:
            outs = I.run_async(bid, args, assume, subst)
        else:
            outs = I.analyse(bid, args, assume, subst, st)
            for o in outs:
                o.ret = I.deep(o.st, o.ret)
        self.steps += I.steps
        self.functions |= I.analysed
        self.last = I
        return outs

    def table(self, name, text, opts=(), key=None, assume=None, models=None):
        """the complete decision table of a function equals the specification `text`"""
        bid = name if name in self.F.index else self.F.one(name)
        key = key or name
        spec = TB.parse_table(text)
        where = self.loc(bid)
        rows, I = TB.run_table(self.F, bid, opts, assume, models)
        self.steps += I.steps
        self.functions |= I.analysed
        self.last = I
        if rows is None:
            self.fail(f"table/{key}", f"the analysis of {bid} does not converge", where)
            return []
        bad = TB.compare(rows, spec)
        pan = TB.new_panics(I, text)
        self.ob(f"panic/{key}", not pan, "; ".join(pan[:3]), where)
        self.nrows += len(spec)
        self.ntables += 1
        self.ob(f"table/{key}", not bad, "; ".join(bad[:3]), where)
        return rows

    def tables(self, name=None):
        """all tables of a specification file"""
        p = os.path.join(VERIF, "specs", (name or self.pid) + ".tbl")
        for n, opts, text in TB.parse_spec(p):
            try:
                self.table(n, text, opts)
            except MissingAnchor as e:
                self.fail(f"anchor/{n}", f"anchor not found: {e}")

    def loc(self, name):
        bid = name if name in self.F.index else self.F.one(name)
        d = self.F.index[bid]
        return f"{d['file']}:{d['line']} {bid}"

    # -------------------------------------------------- obligations
    def ob(self, key, cond, msg="", where=""):
        self.obs.append((key, bool(cond)))
        if not cond:
            self.viol.append((key, msg, where))
        return bool(cond)

    def fail(self, key, msg, where=""):
        return self.ob(key, False, msg, where)

    def floor(self, what, n, least):
        self.notes.append(f"{what}: {n} (floor {least})")
        self.ob(f"floor:{what}", n >= least, f"only {n} {what} analysed, at least {least} expected")

    # -------------------------------------------------- verdict
    def finish(self, t0):
        ev = os.path.join(VERIF, "evidence")
        os.makedirs(ev, exist_ok=True)
        new, known = [], []
        seen = set()
        for key, msg, where in self.viol:
            if key in seen:
                continue
            seen.add(key)
            (known if key in self.known else new).append((key, msg, where))
        for key, msg, where in known:
            print(f"KNOWN-FINDING: property={self.pid} {key} {self.known[key]}")
        rp = os.path.join(ev, f"{self.pid}.violation.txt")
        if new:
            with open(rp, "w") as f:
                for key, msg, where in new:
                    f.write(f"rule instance: {key}\n  what: {msg}\n  where: {where}\n")
                    print(f"  {key}: {msg[:600]}  [{where}]")
            print(f"VIOLATION property={self.pid} replay={rp}")
        elif os.path.exists(rp):
            os.remove(rp)
        okc = sum(1 for _, c in self.obs if c)
        meta = MANIFEST_TECH.get(self.pid, "")
        rec = {
            "property": self.pid, "tier": self.tier if self.tier in ("quick", "thorough") else "quick",
            "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other",
            "coverage": {
                "explanation": f"Static analysis of the MIR of /repo's current tree (source hash {self.F.info['hash'][:16]}): "
                               f"{len(self.obs)} obligations over {len(self.functions)} analysed function bodies, "
                               f"{okc} discharged, {len(new)} violated, {len(known)} listed as known findings. "
                               f"All paths of each body are covered by the abstract interpretation "
                               f"({self.steps} abstract steps; {self.ntables} decision tables with {self.nrows} rows compared); "
                               + "; ".join(self.notes),
                "obligations": len(self.obs), "discharged": okc, "functions_analysed": len(self.functions),
                "abstract_steps": self.steps, "bodies_in_facts": len(self.F.index),
                "rules": sorted({k.split("/")[0] for k, _ in self.obs})[:200],
                "functions": sorted(self.functions)[:400],
            },
            "wall_s": round(time.time() - t0, 3),
            "violations": len(new),
            "assumptions": [
                "library functions behave as their transfer functions say (fw/models.py); unmodelled external calls are opaque functions of their arguments",
                "the six git-only dependencies are replaced by type stubs (fw/stubs); their bodies are not analysed",
            ],
        }
        with open(os.path.join(ev, f"{self.pid}.json"), "w") as f:
            json.dump(rec, f, indent=1)
        print(f"{self.pid}: {okc}/{len(self.obs)} obligations hold, {len(self.functions)} bodies, {self.steps} steps, "
              f"{rec['wall_s']}s")
        return 1 if new else 0


MANIFEST_TECH = {}


# ------------------------------------------------------------------ helpers over outcomes
def fact(o, t):
    return o.st.facts.get(t)


def is_var(o, t, v):
    f = o.st.facts.get(t)
    return f is not None and f[0] == "v" and f[1] == v


def facts_str(o):
    return ", ".join(f"{show(t)}{fshow(f)}" for t, f in o.st.facts.items())


def fld(base, *names):
    t = base
    for n in names:
        t = mk("fld", t, n)
    return t


def calls_in(t, rx):
    rx = re.compile(rx)
    return [x for x in subterms(t) if x.op == "call" and rx.search(x.a[0])]


def ungel(t):
    return t.a[0] if t.op == "gel" else t
