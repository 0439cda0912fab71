"""C20: results do not depend on the iteration order of hash tables, on time or on chance."""
from check import *
from spec import *
import calls
from engine import Eng, norm_path

HASH = {"HashMap", "HashSet"}
CHANCE = ("std::time::SystemTime::now", "std::time::Instant::now", "std::thread::spawn", "rand::", "fastrand::", "getrandom::", "std::process::id",
          "std::thread::current", "std::hash::RandomState::new", "std::collections::hash_map::RandomState")
# consumers whose result does not depend on the order of what they consume
INSENSITIVE = {"any", "all", "len", "toset", "tomap", "sorted", "sum", "max", "min", "union", "disc"}


def hash_ty(prog, i):
    t = prog.types[i]
    while t["k"] == "ref":
        t = prog.types[t["e"]]
    return t.get("adt", "").rsplit("::", 1)[-1] in HASH and t["adt"].startswith("std::")


def iterates(prog, f):
    for r in calls.refs(f.blocks):
        c, _, m = norm_path(r["path"]).rpartition("::")
        if m in Eng.HASH_ITER and c in ("std::collections::HashMap", "std::collections::HashSet"):
            return True
        if norm_path(r["path"]) == "std::iter::IntoIterator::into_iter" and r["args"] and hash_ty(prog, r["args"][0]):
            return True
    return False


def graph(prog):
    fs = calls.project(prog)
    by = {f.key: f for f in fs}
    g = {}
    for f in fs:
        out = set()
        for r in calls.refs(f.blocks):
            if r.get("key") in by:
                out.add(r["key"])
        for h in fs:
            if "{closure" in h.npath and h.npath.startswith(f.npath + "::"):
                out.add(h.key)
        g[f.key] = out
    return by, g


def reach(g, by, k, stop):
    seen, todo = set(), [k]
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        todo += [y for y in g.get(x, ()) if by[y].npath not in stop]
    return seen


def paths(t, base):
    """the projections of `base` that are read in t"""
    res = set()

    def go(x, path):
        if not isinstance(x, Term):
            for y in _terms(x):
                go(y, ())
            return
        if x is base:
            res.add(path)
            return
        if x.op in ("fld", "idx"):
            go(x.a[0], (x.a[1:],) + path if x.op == "fld" else ())
            return
        for y in x.a:
            for z in _terms(y):
                go(z, ())
    go(t, ())
    return res


def ties(t):
    """a sorting that cannot tell all elements of an unordered list apart: it reads nothing of what makes them distinct"""
    lam = t.a[2]
    if lam.op != "lam":
        return False
    un = {x for x in subterms(t.a[0]) if x.op == "unord"}
    for u in un:
        m = next((x for x in subterms(u) if x.op == "collect" and x.a[0] == "Map"), None)
        if m is None or len(m.a[2]) != 1:
            return False
        (_, kv), = m.a[2]
        if not (isinstance(kv, Term) and kv.op == "tup" and len(kv.a) == 2):
            return False
        k, v = kv.a
        if v.op != "elem" or not any(x.op == "call" and x.a[0] == "map_values" for x in subterms(u)):
            return False
        key = paths(k, v)
        read = {p for i in range(2) for p in paths(lam, T("bv", "x", i))}
        if not key or any(a[:len(b)] == b or b[:len(a)] == a for a in key for b in read):
            return False
    return bool(un)


def escapes(t, seen, maybe=None):
    """the first subterm through which the order of a hash table reaches the result"""
    if not isinstance(t, Term) or t in seen:
        return None
    seen.add(t)
    if t.op in INSENSITIVE:
        return None
    if t.op == "collect" and t.a[0] in ("Set", "Map"):
        return None
    if t.op == "call" and isinstance(t.a[0], str) and t.a[0].rsplit("::", 1)[-1] in ("count", "sum", "product"):
        return None
    if t.op == "unord":
        return t
    if t.op == "sorted_by" and maybe is not None:
        u = escapes(t.a[0], set())
        if u is not None:
            if ties(t):
                return u
            maybe.append(t)
        return None
    if t.op == "fold":
        kinds = {k for _, k, *_ in t.a[3]}
        if kinds <= {"ins", "and", "or", "add"}:
            return None
    for x in t.a:
        for y in _terms(x):
            r = escapes(y, seen, maybe)
            if r is not None:
                return r
    return None


def _terms(x):
    if isinstance(x, Term):
        yield x
    elif isinstance(x, (tuple, frozenset, list)):
        for y in x:
            yield from _terms(y)


@prop("C20", "order taint: hash-table iteration as source, order-insensitive and sorting consumers as sanitisers, over the value-flow tables")
def c20(ctx):
    name = "no result depends on the iteration order of a hash table"
    for b in (CORE, CLI):
        prog = ctx.prog(b)
        by, g = graph(prog)
        own = {f.key for f in by.values() if (f.crate == "subweight_core") == (b == CORE) and "::test" not in f.npath}
        it = {k for k in by if k in own and iterates(prog, by[k])}
        roots = [k for k in own if by[k].npath in anchors.ANCHORS or b != CORE and "{closure" not in by[k].npath]
        covered = set()
        for k in roots:
            covered |= reach(g, by, k, anchors.ANCHORS)
        roots += [k for k in it - covered]
        for k in sorted(roots):
            f = by[k]
            r = reach(g, by, k, anchors.ANCHORS)
            if not r & it:
                ctx.ob(name, True, f)
                ctx.analysed.setdefault(f.path, {"file": f.file, "line": f.line, "reaches": len(r)})
                continue
            outs = ctx.outs(f, order=True)
            for o in outs or ():
                bad = None
                outv = [v for k, v in o.st.store.items() if k[0] == "A" and isinstance(v, Term)]
                maybe = []
                for t in ([o.val] if o.val is not None else []) + list(o.st.eff) + outv:
                    bad = bad or escapes(t, set(), maybe)
                if bad is None and maybe:
                    ctx.ob(name, None, f, "sorted by a part of what was listed: %s" % show(maybe[0])[:300])
                    continue
                ctx.ob(name, bad is None, f, "" if bad is None else "the order of %s reaches %s" % (show(bad)[:200], show(o.val)[:300]))
        for k in sorted(own):
            f = by[k]
            hit = sorted({norm_path(r["path"]) for r in calls.refs(f.blocks) if norm_path(r["path"]).startswith(CHANCE)})
            ctx.ob("no result depends on time, chance or scheduling", None if hit else True, f, ", ".join(hit))
