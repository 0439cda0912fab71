"""python3 lib/check.py ID [--tier quick|thorough] [-v]: decides one property and writes evidence/ID.json."""
import importlib.util, json, os, sys, time
sys.setrecursionlimit(20000)
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import engine, extract, anchors, spec  # noqa: E402
from terms import *  # noqa: E402

CORE, CLI, WEB = "subweight_core-lib", "subweight-bin", "subweight_web-bin"


class Ctx:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.dir = extract.facts(release=os.environ.get("SWC_RELEASE") == "1")
        self.progs = {}
        self.obs = []
        self.analysed = {}
        self.undecided = []
        self.cache = {}

    def prog(self, b):
        if b not in self.progs:
            self.progs[b] = engine.Prog("%s/%s.json" % (self.dir, b))
        return self.progs[b]

    def fns(self, b, name, pick=None):
        """functions whose normalised path is `name` or ends with '::name'"""
        p = self.prog(b)
        fs = [f for f in p.fns.values() if f.npath == name or f.path == name or f.npath.endswith("::" + name)]
        return [f for f in fs if pick is None or pick(f)]

    def fn(self, b, name, pick=None):
        fs = self.fns(b, name, pick)
        return fs[0] if fs else None

    def outs(self, f, opaque=(), inline=(), effectful=(), budget=None, order=False, join=False, **kw):
        key = (f.key, frozenset(opaque), frozenset(inline), frozenset(effectful), id(f), order, join)
        if key in self.cache:
            return self.cache[key]
        prog = [p for p in self.progs.values() if p.fns.get(f.key) is f][0]
        e = engine.Eng(prog, opaque=(anchors.ANCHORS | set(opaque)) - {f.npath} - set(inline), effectful=set(effectful), **kw)
        if budget:
            e.budget = budget
        if self.tier == "thorough":
            e.budget *= 10
        e.track_order, e.join_seqs = order, join
        try:
            r = e.summary(f)
        except engine.GiveUp as x:
            self.undecided.append("%s: analysis gave up: %s" % (f.npath, x))
            r = None
        except RecursionError:
            self.undecided.append("%s: analysis gave up: recursion" % f.npath)
            r = None
        if e.lost:
            self.undecided.append("%s: a write through a reference is not followed: %s" % (f.npath, ", ".join(sorted(repr(t)[:80] for t in e.lost))[:300]))
        self.cache[key] = r
        if r is not None:
            self.analysed[f.path] = {"rows": len(r), "file": f.file, "line": f.line, "steps": e.steps}
        return r

    def site(self, f):
        return "%s:%s %s" % (f.file, f.line, f.path)

    def table(self, b, name, clause, sp, pick=None, proj=None, extra=frozenset(), opaque=(), inline=(), effectful=(), all_=False,
              rows=None):
        """Compares every row of the function's table with the specification."""
        fs = self.fns(b, name, pick)
        if not fs:
            self.undecided.append("%s: function not found" % name)
            return
        for n in list(opaque) + list(effectful):
            if n.startswith("subweight") and not self.fns(b, n):
                return self.lost("%s: function not found" % n)
        extra = frozenset(extra) | set(opaque) | set(effectful) | {name}
        for f in fs if all_ else fs[:1]:
            outs = self.outs(f, opaque, inline, effectful)
            if outs is None:
                continue
            sel = [o for o in outs if rows is None or rows(o)]
            self.obs += spec.check_table(sel, f, clause, sp, extra=extra, proj=proj)

    def trace(self, b, name, clause, sp, names, pick=None, extra=frozenset(), opaque=(), inline=(), rows=None):
        """Compares the sequence of effects and the value of every row with the specification; names of local
        functions among `names` stay uninterpreted effects."""
        fs = self.fns(b, name, pick)
        if not fs:
            return self.lost("%s: function not found" % name)
        eff = [n for n in names if "::" in n and n.startswith("subweight")]
        for n in eff:
            if not self.fns(b, n) and not self.fns(CORE, n):
                return self.lost("%s: function not found" % n)
        outs = self.outs(fs[0], opaque, inline, eff)
        if outs is not None:
            self.obs += spec.trace_table([o for o in outs if rows is None or rows(o)], fs[0], clause, sp, set(names), extra)

    def rec_table(self, b, name, clause, mkspec, pick=None, self_="self", extra=frozenset(), proj=None, inline=(), opaque=()):
        """Table of a structurally recursive function.  `mkspec(rec)` gives the specification; rec(sub) is the recursive
        result on a child.  When the recursion runs through a helper g(child, A), the helper's own table at (self, A) has
        to meet the same specification (induction on the term)."""
        fs = self.fns(b, name, pick)
        if not fs:
            return self.lost("%s: function not found" % name)
        f = fs[0]
        prog = self.prog(b)
        outs = self.outs(f, opaque, inline)
        if outs is None:
            return
        S0 = P_(self_)

        def helpers(outs):
            found = set()
            for o in outs:
                for root in list(o.st.facts) + ([o.val] if o.val is not None else []):
                    for t in subterms(root):
                        if t.op == "call" and len(t.a) > 1 and isinstance(t.a[1], Term) and t.a[1].op == "fld" and t.a[1].a[0] is S0:
                            if t.a[0] != f.npath and any(g.npath == t.a[0] for g in prog.fns.values()):
                                found.add((t.a[0], t.a[2:]))
            return found
        hs = helpers(outs)
        rest = tuple(P_(engine.Eng(prog).argname(f, i + 1)) for i in range(1, f.nargs))
        if len(hs) > 1:
            return self.lost("%s: recursion through several helpers" % name)
        if hs:
            g, tail = next(iter(hs))
            rec = lambda sub: T("call", g, sub, *tail)
            gf = [x for x in prog.fns.values() if x.npath == g][0]
            e = engine.Eng(prog, opaque=(anchors.ANCHORS | set(opaque)) - {f.npath, g})
            try:
                gouts = e.summary(gf, args=[S0] + list(tail))
            except (engine.GiveUp, RecursionError) as x:
                return self.lost("%s: analysis gave up: %s" % (g, x))
            if helpers(gouts) - hs:
                return self.lost("%s: recursion through several helpers" % g)
            self.analysed[gf.path] = {"rows": len(gouts), "file": gf.file, "line": gf.line, "steps": e.steps}
            self.obs += spec.check_table(gouts, gf, clause, mkspec(rec), extra=extra | {g}, proj=proj)
        else:
            g = f.npath
            rec = lambda sub: T("call", f.npath, sub, *rest)
        self.obs += spec.check_table(outs, f, clause, mkspec(rec), extra=extra | {g}, proj=proj)

    def ob(self, clause, verdict, f, detail=""):
        self.obs.append(spec.Clause(clause, verdict, f, None, detail))

    def lost(self, what):
        self.undecided.append(what)


def P_(n):
    return T("param", n)


REG = {}


def prop(pid, technique="", level="proof", note=""):
    def deco(fn):
        REG[pid] = (fn, level, technique, note)
        return fn
    return deco


ALSO = {}


def also(pid):
    """further clauses of a property, decided in another module"""
    def deco(fn):
        ALSO.setdefault(pid, []).append(fn)
        return fn
    return deco


def load():
    d = os.path.join(ROOT, "checks")
    for n in sorted(os.listdir(d)):
        if n.endswith(".py"):
            s = importlib.util.spec_from_file_location("checks_" + n[:-3], os.path.join(d, n))
            m = importlib.util.module_from_spec(s)
            sys.modules[m.__name__] = m
            s.loader.exec_module(m)


def known():
    p = os.path.join(ROOT, "known-findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p)).get("known", [])


def run(pid, tier, verbose=False, ctx=None):
    t0 = time.time()
    fn, level, technique, note = REG[pid]
    c = ctx or Ctx(pid, tier)
    c.pid = pid
    c.obs, c.undecided, c.analysed = [], [], {}
    c.prog(CORE)
    try:
        for g in [fn] + ALSO.get(pid, []):
            g(c)
    except Exception as e:
        # the code left the shape this check understands: no verdict on the rest
        import traceback
        tb = traceback.extract_tb(e.__traceback__)[-1]
        c.lost("the specification does not apply: %s: %s (%s:%s)" % (type(e).__name__, e, os.path.basename(tb.filename), tb.lineno))
    ok = [o for o in c.obs if o.verdict is True]
    bad = [o for o in c.obs if o.verdict is False]
    und = [o for o in c.obs if o.verdict is None]
    listed, fresh = [], []
    kn = [k for k in known() if k["property"] == pid]
    for o in bad:
        site = o.fn.path if hasattr(o.fn, "path") else str(o.fn)
        m = [k for k in kn if k["clause"] == o.name and k["function"] == site and k.get("needle", "") in o.detail]
        (listed if m else fresh).append(o)
    for k in [k for k in kn if any(k["clause"] == o.name and k.get("needle", "") in o.detail for o in listed)]:
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    per = {}
    for o in c.obs:
        d = per.setdefault(o.name, {"obligations": 0, "discharged": 0, "refuted": 0, "undecided": 0, "functions": []})
        d["obligations"] += 1
        d["discharged" if o.verdict is True else "refuted" if o.verdict is False else "undecided"] += 1
        s = o.fn.path if hasattr(o.fn, "path") else str(o.fn)
        if s not in d["functions"]:
            d["functions"].append(s)
    cov = {
        "obligations": len(c.obs), "discharged": len(ok), "refuted": len(bad), "undecided": len(und) + len(c.undecided),
        "clauses": per, "functions_analysed": c.analysed, "not_decided": (c.undecided + [o.name + ": " + o.detail for o in und])[:40],
        "checker_cmd": "python3 lib/check.py %s" % pid,
        "trusted_base": ["rustc's type-checked MIR and its extraction (driver/mirdump.rs)",
                         "the value-flow engine and its models of std, syn and regex functions (lib/engine.py, lib/models.py)",
                         "the specification of this property (checks/)"],
        "explanation": technique + (". " + note if note else ""),
        "samples": [o.name for o in ok[:3]],
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    rel = 0
    if tier == "thorough" and os.environ.get("SWC_RELEASE") != "1":
        # the same obligations on the code as it is shipped: without debug assertions and overflow checks
        import subprocess
        pr = subprocess.run([sys.executable, os.path.abspath(__file__), pid, "--tier", "thorough"], capture_output=True, text=True,
                            env=dict(os.environ, SWC_RELEASE="1"))
        rel = pr.returncode
        print("".join("release build: " * (not ln.startswith("VIOLATION")) + ln + "\n" for ln in pr.stdout.splitlines() if not ln.startswith("KNOWN-FINDING")), end="")
        try:
            rc_ = json.load(open(os.path.join(ROOT, "evidence", pid + ".json")))["coverage"]
            cov["release_build"] = {k: rc_[k] for k in ("obligations", "discharged", "refuted", "undecided")}
        except (OSError, ValueError, KeyError):
            c.lost("the release build was not analysed: %s" % pr.stderr[-300:])
    with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as f:
        json.dump({"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": level,
                   "coverage": cov, "wall_s": round(time.time() - t0, 3)}, f, indent=1, default=str)
    def p(o):
        return "[%s] %s\n   %s" % (o.name, c.site(o.fn) if hasattr(o.fn, "path") else o.fn, o.detail)
    for s in c.undecided:
        print("UNDECIDED property=%s %s" % (pid, s))
    for o in und[: None if verbose else 5]:
        print("UNDECIDED property=%s %s" % (pid, p(o) if verbose else o.name + " | " + o.detail.split("differing at:")[-1][:400]))
    if fresh:
        rp = os.path.join(ROOT, ".build", "replay")
        os.makedirs(rp, exist_ok=True)
        rf = os.path.join(rp, pid + ".txt")
        with open(rf, "w") as f:
            f.write("\n".join(p(o) for o in fresh) + "\n")
        for o in fresh[: None if verbose else 3]:
            print(p(o))
        print("VIOLATION property=%s replay=%s" % (pid, rf))
        return 1
    print("%s: %d obligations, %d discharged, %d undecided, %d known findings (%.1fs)" % (
        pid, len(c.obs), len(ok), len(und) + len(c.undecided), len(listed), time.time() - t0))
    return 1 if rel == 1 else 0


def main():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("ids", nargs="+")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    sys.modules["check"] = sys.modules["__main__"]
    load()
    ids = sorted(REG) if a.ids == ["all"] else a.ids
    rc = 0
    ctx = None
    for i in ids:
        ctx = ctx or Ctx(i, a.tier)
        rc |= run(i, a.tier, a.v, ctx)
    return rc


if __name__ == "__main__":
    if os.environ.get("PYTHONHASHSEED") is None:
        os.execve(sys.executable, [sys.executable] + sys.argv, dict(os.environ, PYTHONHASHSEED="0"))
    import threading
    threading.stack_size(512 * 1024 * 1024)
    res = []
    t = threading.Thread(target=lambda: res.append(main()))
    t.start()
    t.join()
    sys.exit(res[0] if res else 2)
