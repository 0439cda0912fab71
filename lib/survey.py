"""python3 lib/survey.py BIN FN...: per function: rows, time, suspicious ops (debug aid)."""
import sys, time
import extract, engine, anchors
from terms import *
BAD = ("unk", "lv", "noiter", "lam?", "uninit", "after", "fold", "loopeff", "flatcollect", "strloop")
if __name__ == "__main__":
    p = engine.Prog("%s/%s.json" % (extract.facts(), sys.argv[1]))
    for sub in sys.argv[2:]:
        for f in p.fns.values():
            if sub == f.npath or sub == f.path or (sub.startswith("~") and sub[1:] in f.npath):
                e = engine.Eng(p, opaque=anchors.ANCHORS - {f.npath})
                t = time.time()
                try:
                    outs = e.summary(f)
                except engine.GiveUp as x:
                    print("%-60s GIVEUP %s" % (f.npath[-60:], x))
                    continue
                except RecursionError as x:
                    print("%-60s RECURSION" % (f.npath[-60:]))
                    continue
                bad = {}
                for o in outs:
                    for x in list(o.st.facts) + [o.val or UNIT] + list(o.st.eff) + [v for k, v in o.st.store.items() if k[0] == "A"]:
                        for t2 in subterms(x):
                            if t2.op in BAD:
                                bad[t2.op] = bad.get(t2.op, 0) + 1
                kinds = {}
                for o in outs:
                    kinds[o.kind] = kinds.get(o.kind, 0) + 1
                un = {k.split("::")[-2] + "::" + k.split("::")[-1]: v for k, v in e.unmodelled.items() if k not in anchors.ANCHORS and not k.startswith("syn::")}
                print("%-50s %4d rows %5d steps %.1fs %s %s %s" % (f.npath[-50:], len(outs), e.steps, time.time() - t, kinds, bad, un))
