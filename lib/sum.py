"""python3 lib/sum.py BIN PATHSUBSTR...: prints decision tables (debug aid)."""
import sys, time
import extract, engine, anchors
from terms import *


def share(outs):
    """names the repeated large subterms"""
    cnt = {}
    def walk(t):
        if isinstance(t, Term):
            cnt[t] = cnt.get(t, 0) + 1
            if cnt[t] > 1:
                return
            for y in t.a:
                walk(y)
        elif isinstance(t, (tuple, frozenset)):
            for y in t:
                walk(y)
    for o in outs:
        for k, v in o.st.facts.items():
            walk(k); walk(v)
        walk(o.st.eff)
        for k, v in o.st.store.items():
            if k[0] == "A":
                walk(v)
        if o.val is not None:
            walk(o.val)
    names = {}
    for t, n in cnt.items():
        if n > 1 and len(show(t)) > 30:
            names[t] = None
    return names


def dump(outs):
    names = share(outs)
    import terms
    old = terms.show
    order = sorted(names, key=lambda t: len(old(t)))
    m = {}
    for i, t in enumerate(order):
        b = T(t.op, *[subst(y, m) if isinstance(y, (Term, tuple, frozenset)) else y for y in t.a])
        m[t] = T("param", "@%d" % i)
        print("  @%d = %s" % (i, show(b)))
    ren = lambda t: subst(t, m)
    for o in outs:
        o.st.facts = {ren(k): ren(v) for k, v in o.st.facts.items()}
        o.st.eff = ren(o.st.eff)
        o.st.store = {k: (ren(v) if k[0] == "A" else v) for k, v in o.st.store.items()}
        if o.val is not None:
            o.val = ren(o.val)
    _dump(outs)


def _dump(outs):
    for o in outs:
        print("  IF   ", "  &&  ".join(("%s %s %s" % (show(k), "==" if v[0] == "=" else "notin", show(v[1]))) for k, v in o.st.facts.items()) or "true")
        if o.st.eff:
            for e in o.st.eff:
                print("   EFF ", show(e))
        for k, v in o.st.store.items():
            if k[0] == "A":
                print("   OUT ", k, show(v))
        print("   ==> ", o.kind, show(o.val) if o.val is not None else "")


if __name__ == "__main__":
    p = engine.Prog("%s/%s.json" % (extract.facts(), sys.argv[1]))
    for sub in sys.argv[2:]:
        for f in p.fns.values():
            if sub == f.npath or sub == f.path or (sub.startswith("~") and sub[1:] in f.npath):
                e = engine.Eng(p, opaque=anchors.ANCHORS - {f.npath})
                t = time.time()
                print("#", f.path, f.args)
                try:
                    outs = e.summary(f)
                except engine.GiveUp as x:
                    print("  GIVEUP", x)
                    continue
                dump(outs)
                print("  (%d rows, %d steps, %.2fs)" % (len(outs), e.steps, time.time() - t), dict(list(e.unmodelled.items())[:12]))
