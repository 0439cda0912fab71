"""python3 lib/names.py BIN FN: uninterpreted names in a function's table (debug aid)."""
import sys
sys.setrecursionlimit(20000)
import extract, engine, anchors
from terms import *
p = engine.Prog("%s/%s.json" % (extract.facts(), sys.argv[1]))
for f in p.fns.values():
    if f.npath == sys.argv[2] or f.npath.endswith("::" + sys.argv[2]):
        e = engine.Eng(p, opaque=anchors.ANCHORS - {f.npath})
        ns = {}
        seen = set()
        for o in e.summary(f):
            for x in list(o.st.facts) + [o.val or UNIT] + list(o.st.eff) + [v for k, v in o.st.store.items() if k[0] == "A"]:
                for t in subterms(x, seen):
                    if t.op in ("call", "mutcall", "eff"):
                        ns[(t.op, t.a[0])] = ns.get((t.op, t.a[0]), 0) + 1
                    elif t.op not in ("adt", "fld", "disc", "param", "int", "str"):
                        ns[t.op] = ns.get(t.op, 0) + 1
        print(f.path, ns)
