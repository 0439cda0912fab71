"""Gated value-flow analysis over type-checked MIR.

Abstract interpretation in the Herbrand (term) domain with trace partitioning on branch facts. Every
function is summarised, without running it and without a solver, as a decision table
    facts on the inputs  ->  (returned term | panic, ordered external effects)
Loops and iterator chains are summarised by one generalised iteration; recursion and declared anchors stay
uninterpreted calls. What is not understood becomes an explicitly uninterpreted term.
"""
import json, os, re, types
from terms import *
import terms


class GiveUp(Exception):
    pass


# ---------------------------------------------------------------- program

def norm_path(p):
    """std::vec::Vec::<T, A>::push -> std::vec::Vec::push ; <impl [T]> segments keep their type."""
    out, i, n = [], 0, len(p)
    while i < n:
        if p.startswith("::<", i) and not p.startswith("::<impl", i):
            d, j = 0, i + 2
            while j < n:
                if p[j] == "<":
                    d += 1
                elif p[j] == ">" and p[j - 1] != "-":
                    d -= 1
                    if d == 0:
                        break
                j += 1
            i = j + 1
            continue
        out.append(p[i])
        i += 1
    s = "".join(out)
    for a in ("core::", "alloc::"):
        if s.startswith(a):
            s = "std::" + s[len(a):]
    s = re.sub(r"<impl ([^<>]*)>", r"\1", s)
    return s


class Fn:
    __slots__ = ("key", "path", "npath", "crate", "args", "locals", "spread", "blocks", "nargs", "names", "file", "line", "shim",
                 "loops", "rpo", "live", "addr", "iscoro")


class Prog:
    def __init__(self, path):
        with open(path) as f:
            j = json.load(f)
        self.name = os.path.basename(path)
        self.types = j["types"]
        self.adts = j["adts"]
        terms.ADTS.update(j["adts"])
        self.roots = j["roots"]
        self.fns = {}
        self.bypath = {}
        for k, d in j["fns"].items():
            f = Fn()
            f.key, f.path, f.crate, f.args = k, d["path"], d["crate"], d["args"]
            f.locals, f.spread, f.blocks, f.nargs = d["locals"], d["spread"], d["blocks"], d["nargs"]
            f.names, f.file, f.line, f.shim = d["names"], d["file"], d["line"], d.get("shim")
            f.npath = norm_path(d["path"])
            f.loops = None
            self.fns[k] = f
            self.bypath.setdefault(f.npath, []).append(f)

    def ty(self, i):
        return self.types[i]

    def find(self, npath, pick=None):
        fs = [f for f in self.bypath.get(npath, []) if pick is None or pick(f)]
        return fs

    def one(self, npath, pick=None):
        fs = self.find(npath, pick)
        if not fs:
            raise KeyError("anchor not found: " + npath)
        return fs[0]

    def variant(self, adt, name):
        for i, v in enumerate(self.adts[adt]["vs"]):
            if v[0] == name:
                return i
        raise KeyError("%s::%s" % (adt, name))

    def fieldix(self, adt, name, variant=0):
        return self.adts[adt]["vs"][variant][2].index(name)


def succs(t):
    k = t[0]
    if k == "goto":
        return [t[1]]
    if k == "switch":
        return [b for _, b in t[2]] + [t[3]]
    if k == "drop":
        return [t[2]]
    if k == "call":
        return [t[4]] if t[4] >= 0 else []
    if k == "assert":
        return [t[4]]
    return []


def analyse_cfg(f):
    n = len(f.blocks)
    order, seen = [], set()
    st = [(0, iter(succs(f.blocks[0][1])))]
    seen.add(0)
    while st:
        b, it = st[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                st.append((s, iter(succs(f.blocks[s][1]))))
                break
        else:
            order.append(b)
            st.pop()
    order.reverse()
    rpo = {b: i for i, b in enumerate(order)}
    preds = {b: [] for b in order}
    for b in order:
        for s in succs(f.blocks[b][1]):
            preds[s].append(b)
    # dominators
    dom = {order[0]: {order[0]}}
    allb = set(order)
    for b in order[1:]:
        dom[b] = allb
    ch = True
    while ch:
        ch = False
        for b in order[1:]:
            ps = [dom[p] for p in preds[b]]
            nd = set.intersection(*ps) if ps else set()
            nd = nd | {b}
            if nd != dom[b]:
                dom[b] = nd
                ch = True
    loops = {}
    for b in order:
        for s in succs(f.blocks[b][1]):
            if s in dom[b]:
                body = loops.setdefault(s, {s})
                work = [b]
                while work:
                    x = work.pop()
                    if x not in body:
                        body.add(x)
                        work.extend(preds[x])
    f.loops, f.rpo = loops, rpo
    # liveness (locals) and address-taken locals
    use, dfn = {}, {}
    addr = set()

    def pl_use(p, u, d, is_def=False):
        l, ps = p
        for e in ps:
            if isinstance(e, list) and e[0] == "i" and e[1] not in d:
                u.add(e[1])
        if is_def and not ps:
            d.add(l)
        else:
            if l not in d:
                u.add(l)

    def op_use(o, u, d):
        if o[0] in ("c", "m"):
            pl_use(o[1], u, d)

    def rv_use(r, u, d):
        k = r[0]
        if k in ("ref",):
            pl_use(r[2], u, d)
            if r[1] == "m":
                addr.add(r[2][0])
        elif k == "addr":
            pl_use(r[-1], u, d)
            addr.add(r[-1][0])
        elif k in ("discr", "len"):
            pl_use(r[1], u, d)
        else:
            for x in r[1:]:
                if isinstance(x, list) and x and x[0] in ("c", "m") and len(x) == 2 and isinstance(x[1], list):
                    op_use(x, u, d)
                elif isinstance(x, list):
                    for y in x:
                        if isinstance(y, list) and y and y[0] in ("c", "m") and len(y) == 2 and isinstance(y[1], list):
                            op_use(y, u, d)
    for b in order:
        u, d = set(), set()
        ss, t = f.blocks[b]
        for s in ss:
            if s[0] == "=":
                rv_use(s[2], u, d)
                pl_use(s[1], u, d, True)
            elif s[0] == "sd":
                pl_use(s[1], u, d)
            elif s[0] == "dead":
                d.add(s[1])
        if t[0] == "switch":
            op_use(t[1], u, d)
        elif t[0] == "assert":
            op_use(t[1], u, d)
        elif t[0] == "drop":
            pl_use(t[1], u, d)
        elif t[0] == "call":
            if t[1][0] == "op":
                op_use(t[1][1], u, d)
            for o in t[2]:
                op_use(o, u, d)
            pl_use(t[3], u, d, True)
        elif t[0] == "return":
            u.add(0)
        use[b], dfn[b] = u, d
    live = {b: set() for b in order}
    ch = True
    while ch:
        ch = False
        for b in reversed(order):
            o = set()
            for s in succs(f.blocks[b][1]):
                o |= live[s]
            i = use[b] | (o - dfn[b])
            if i != live[b]:
                live[b] = i
                ch = True
    f.live, f.addr = live, addr


# ---------------------------------------------------------------- states

class St:
    __slots__ = ("store", "facts", "eff", "loops", "trace")

    def __init__(self, store=None, facts=None, eff=(), loops=()):
        self.store = {} if store is None else store
        self.facts = {} if facts is None else facts
        self.eff = eff
        self.loops = loops

    def fork(self):
        return St(dict(self.store), dict(self.facts), self.eff, self.loops)


def atom(t):
    """bool term -> (key, const, positive) value test."""
    pos = True
    while t.op == "not":
        pos = not pos
        t = t.a[0]
    if t.op == "eq":
        a, b = t.a
        if is_const(b):
            return a, b, pos
        if is_const(a):
            return b, a, pos
    if t.op == "isv":
        return T("disc", t.a[0]), I(t.a[1]), pos
    if t.op == "isempty":
        return T("len", t.a[0]), I(0), pos
    return t, TRUE, pos


NUM = set()  # terms that are formatted as numbers
ERR = set()  # boxed errors that are formatted
NV = {}  # disc subject -> number of variants
TOTAL = {}  # collect terms that emit exactly one value per source element
SETLIKE = {}  # terms known to be sets (by type)
ATTRS.extend((NV, TOTAL, SETLIKE))


class Facts:
    """A finite conjunction of value tests (f: key -> ('=',c) | ('!',{c..})) with a small decidable theory."""


def fact_test(f, key, c):
    """Does the fact set decide key == c?  True / False / None."""
    if c is FALSE and key.op not in CONST:
        r = fact_test(f, key, TRUE)
        return None if r is None else not r
    if key.op in CONST:
        return key is c
    if key.op == "adt" and c.op != "adt":
        return None
    v = f.get(key)
    if v is not None:
        if v[0] == "=":
            return v[1] is c
        if c in v[1]:
            return False
        if c.op == "bool":
            return len(v[1]) > 0
    if key.op == "disc":
        x = key.a[0]
        if x.op == "adt":
            return x.a[1] == c.a[0]
        n = NV.get(x)
        if v is not None and n and len(v[1]) == n - 1 and c not in v[1]:
            return True
        for k, w in f.items():
            # a comparison of the variants of two values
            if k.op == "eq" and (k.a[0] is key or k.a[1] is key) and k.a[0].op == k.a[1].op == "disc":
                o = f.get(k.a[1] if k.a[0] is key else k.a[0])
                if o is not None and o[0] == "=":
                    if w[1] is TRUE:
                        return o[1] is c
                    if o[1] is c:
                        return False
    if c.op == "int" and key.op == "len":
        lo, hi = bounds(f, key)
        if lo is not None and c.a[0] < lo or hi is not None and c.a[0] > hi:
            return False
        if lo is not None and lo == hi:
            return True
    elif c.op == "int":
        for k, w in f.items():
            if k.op == "lt" and w[0] == "=":
                a, b = k.a
                if a is key and b.op == "int":
                    if w[1] is TRUE and c.a[0] >= b.a[0]:
                        return False
                    if w[1] is FALSE and c.a[0] < b.a[0]:
                        return False
                elif b is key and a.op == "int":
                    if w[1] is TRUE and c.a[0] <= a.a[0]:
                        return False
                    if w[1] is FALSE and c.a[0] > a.a[0]:
                        return False
    if key.op == "len" and c.op == "int" and c.a[0] == 0:
        for k, w in f.items():
            if k.op == "any" and k.a[0] is key.a[0] and w[0] == "=" and w[1] is TRUE:
                return False
    if key.op == "lt":
        return fact_lt(f, key.a[0], key.a[1])
    if key.op == "ovf" and c is TRUE:
        # neutral operands never overflow
        o, a, b = key.a[:3]
        if o == "Sub" and str(key.a[3])[:1] == "u":
            r = fact_lt(f, a, b)
            if r is not None:
                return r
        for y, ks in ((b, {"Add": (0,), "Sub": (0,), "Mul": (0, 1)}), (a, {"Add": (0,), "Mul": (0, 1)})):
            for n in ks.get(o, ()):
                if y is I(n) or f.get(y) == ("=", I(n)):
                    return False
    if key.op == "eq" and c is TRUE:
        a, b = key.a
        if a is b:
            return True
        if fact_flag(f, T("lt", a, b)) or fact_flag(f, T("lt", b, a)):
            return False
        va, vb = f.get(a), f.get(b)
        if va and va[0] == "=":
            r = fact_test(f, b, va[1])
            if r is not None:
                return r
        if vb and vb[0] == "=":
            r = fact_test(f, a, vb[1])
            if r is not None:
                return r
    if key.op == "any" and c is TRUE:
        if fact_test(f, T("len", key.a[0]), I(0)) is True if key.a[0].op not in ("len",) else False:
            return False
        if key.a[1] == frozenset([frozenset()]):
            r = fact_test(f, T("len", key.a[0]), I(0))
            if r is not None:
                return not r
        v = None
        # any(S,C) false implies any(S,D) false for D subset of C
        for k, w in f.items():
            if k.op == "any" and k.a[0] is key.a[0] and w[0] == "=":
                if w[1] is FALSE and dnf_implies(key.a[1], k.a[1]):
                    return False
                if w[1] is TRUE and dnf_implies(k.a[1], key.a[1]):
                    return True
        # no element meets one of several conditions that cover this one
        none = [k.a[1] for k, w in f.items() if k.op == "any" and k.a[0] is key.a[0] and w[0] == "=" and w[1] is FALSE]
        if len(none) > 1 and len(none) < 6 and dnf_implies(key.a[1], frozenset().union(*none)):
            return False
        # a known element that meets the condition
        e = T("elem", key.a[0], "x")
        for w in witnesses(f, key.a[0]):
            for conj in key.a[1]:
                if len(conj) <= 6 and all(item_test(f, subst(k, {e: w}), v) is True for k, v in conj):
                    return True
        allc = key.a[1]
        for k, w in f.items():
            if k.op == "any" and k.a[0] is key.a[0] and w[0] == "=":
                allc = allc | k.a[1]
        base = outer_facts(f, key.a[0], allc)
        if base:
            if dnf_implies(key.a[1], frozenset(), base):
                return False
            if key.a[1] != frozenset([frozenset()]) and dnf_implies(_VALID, key.a[1], base):
                r = fact_test(f, T("len", key.a[0]), I(0))
                return None if r is None else not r
            for k, w in f.items():
                if k.op == "any" and k.a[0] is key.a[0] and w[0] == "=":
                    if w[1] is FALSE and dnf_implies(key.a[1], k.a[1], base):
                        return False
                    if w[1] is TRUE and dnf_implies(k.a[1], key.a[1], base):
                        return True
    if key.op == "call" and c is TRUE and key.a[0] in ("str_ends_with", "str_starts_with") and key.a[2].op == "str":
        end = key.a[0] == "str_ends_with"
        w = key.a[2].a[0]
        has = lambda s, t: s.endswith(t) if end else s.startswith(t)
        if w == "":
            return True
        v = f.get(key.a[1])
        if v and v[0] == "=" and v[1].op == "str":
            return has(v[1].a[0], w)
        for k, v in f.items():
            if k.op == "call" and k.a[0] == key.a[0] and k.a[1] is key.a[1] and k.a[2].op == "str" and v[0] == "=":
                u = k.a[2].a[0]
                if v[1] is TRUE:
                    if has(u, w):
                        return True
                    if not has(w, u):
                        return False
                elif has(w, u):
                    return False
    if c.op == "str" and key.op not in CONST:
        for k, v in f.items():
            if k.op == "call" and k.a[0] in ("str_ends_with", "str_starts_with") and k.a[1] is key and k.a[2].op == "str" and v[0] == "=":
                h = c.a[0].endswith(k.a[2].a[0]) if k.a[0] == "str_ends_with" else c.a[0].startswith(k.a[2].a[0])
                if h != (v[1] is TRUE):
                    return False
    if key.op == "flt" or key.op == "fle":
        a, b = key.a
        if key.op == "flt":
            if fact_flag(f, T("flt", b, a)) or fact_flag(f, T("fle", b, a)) or f.get(T("fle", a, b), (0, 0))[1] is FALSE:
                return False
        else:
            if fact_flag(f, T("flt", a, b)):
                return True
            if fact_flag(f, T("flt", b, a)):
                return False
    return None


def witnesses(f, src):
    """found(src, ..) terms whose existence the facts imply"""
    out = []
    for k, w in f.items():
        if k.op == "any" and k.a[0] is src and w[0] == "=" and w[1] is TRUE:
            out.append(T("found", src, k.a[1]))
    return out


def item_test(f, k, w):
    if w[0] == "=":
        return fact_test(f, k, w[1])
    rs = [fact_test(f, k, c) for c in w[1]]
    return False if True in rs else True if all(r is False for r in rs) else None


_DI = {}
_VALID = frozenset([frozenset()])


def outer_facts(f, src, conds):
    """The facts usable inside the quantifier of any(src, conds): those about terms the condition mentions, not about its
    generic element."""
    e = T("elem", src, "x")
    keys = set()
    for conj in conds:
        for k, w in conj:
            keys |= set(subterms(k))
    out = {}
    for k, w in f.items():
        if k in keys and k.op != "any" and e not in subterms(k):
            out[k] = w
    return out


def dnf_implies(c, d, base=None):
    """Does the DNF c imply the DNF d (both over the same generic element)?"""
    if c <= d or frozenset() in d:
        return True
    k = (c, d) if not base else None
    if k is not None and k in _DI:
        return _DI[k]
    if k is not None:
        _DI[k] = False
    budget = [200]
    r = all(_conj_implies(dict(base or {}), conj, d, budget) for conj in c)
    if k is not None:
        _DI[k] = r
    return r


def _conj_implies(f, conj, d, budget):
    for k, w in conj:
        for c, pos in ([(w[1], True)] if w[0] == "=" else [(c, False) for c in w[1]]):
            if not assume(f, k, c, pos):
                return True
    return _covered(f, d, budget)


def _covered(f, d, budget):
    budget[0] -= 1
    if budget[0] < 0:
        return False
    und = None
    for conj in d:
        allt = True
        for k, w in conj:
            r = True
            for c, pos in ([(w[1], True)] if w[0] == "=" else [(c, False) for c in w[1]]):
                t = fact_test(f, k, c)
                if t is None:
                    r = None
                    if und is None:
                        und = (k, c)
                elif t != pos:
                    r = False
                    break
            if r is False:
                allt = False
                break
            if r is None:
                allt = None
        if allt is True:
            return True
    if und is None:
        return False
    for pos in (True, False):
        g = dict(f)
        if assume(g, und[0], und[1], pos) and not _covered(g, d, budget):
            return False
    return True


def fact_flag(f, t):
    v = f.get(t)
    return v is not None and v[0] == "=" and v[1] is TRUE


def mklen(v):
    while v in TOTAL or v.op == "collect" and v.a[2] is T("ident") or v.op in ("rev", "sorted", "sorted_by"):
        v = v.a[1] if v.op == "collect" else v.a[0]
    if v.op == "arr":
        return I(len(v.a))
    if v.op == "str":
        return I(len(v.a[0].encode()))
    if v.op == "bytes":
        return I(len(v.a[0]))
    return T("len", v)


def bounds(f, t, far=True):
    """Integer bounds [lo, hi] of t implied by the facts (None = unbounded)."""
    lo = hi = None
    if t.op == "int":
        return t.a[0], t.a[0]
    if t.op == "len":
        lo = 0
    if t.op == "pos" and t.a[0].op in ("elem", "found", "idx"):
        lo = 0
        h = bounds(f, mklen(t.a[0].a[0]))[1]
        hi = None if h is None else h - 1
    v = f.get(t)
    if v and v[0] == "=" and v[1].op == "int":
        return v[1].a[0], v[1].a[0]
    for k, w in f.items():
        if k.op == "lt" and w[0] == "=":
            a, b = k.a
            if a is t and b.op == "int":
                if w[1] is TRUE:
                    hi = b.a[0] - 1 if hi is None else min(hi, b.a[0] - 1)
                else:
                    lo = b.a[0] if lo is None else max(lo, b.a[0])
            elif b is t and a.op == "int":
                if w[1] is TRUE:
                    lo = a.a[0] + 1 if lo is None else max(lo, a.a[0] + 1)
                else:
                    hi = a.a[0] if hi is None else min(hi, a.a[0])
            elif far and (a is t or b is t) and a is not b:
                # what is known of the other side
                l2, h2 = bounds(f, b if a is t else a, False)
                if (a is t) == (w[1] is TRUE):
                    # t < b, or not a < t
                    h = None if h2 is None else h2 - 1 if a is t else h2
                    hi = h if hi is None else hi if h is None else min(hi, h)
                else:
                    # a < t, or not t < b
                    l = None if l2 is None else l2 + 1 if b is t else l2
                    lo = l if lo is None else lo if l is None else max(lo, l)
    if v and v[0] == "!":
        while lo is not None and I(lo) in v[1]:
            lo += 1
        while hi is not None and I(hi) in v[1]:
            hi -= 1
    return lo, hi


def fact_lt(f, a, b):
    if a is b:
        return False
    if a.op == "pos" and a.a[0].op in ("elem", "found", "idx") and b is mklen(a.a[0].a[0]):
        return True
    la, ha = bounds(f, a)
    lb, hb = bounds(f, b)
    if ha is not None and lb is not None and ha < lb:
        return True
    if la is not None and hb is not None and la >= hb:
        return False
    v = f.get(T("lt", a, b))
    if v:
        return v[1] is TRUE
    w = f.get(T("lt", b, a))
    e1 = f.get(T("eq", a, b)) or f.get(T("eq", b, a))
    if fact_flag(f, T("lt", b, a)):
        return False
    if e1 and e1[0] == "=" and e1[1] is TRUE:
        return False
    if w and w[1] is FALSE and e1 and (e1[0] == "!" or e1[1] is FALSE):
        return True
    return None


def assume(f, key, c, pos):
    """Adds key == c (or !=) to f in place; returns False when contradictory."""
    r = fact_test(f, key, c)
    if r is not None:
        return r == pos
    if c.op == "bool" and not pos:
        c, pos = (FALSE if c is TRUE else TRUE), True
    if pos:
        f[key] = ("=", c)
    else:
        v = f.get(key)
        s = (v[1] if v else frozenset()) | {c}
        if key.op == "disc":
            n = NV.get(key.a[0])
            if n and len(s) == n - 1:
                rest = [i for i in range(n) if I(i) not in s]
                f[key] = ("=", I(rest[0]))
                return True
        f[key] = ("!", s)
    return True


def decide(f, t):
    if t.op == "bool":
        return t.a[0]
    if t.op == "and":
        x, y = decide(f, t.a[0]), decide(f, t.a[1])
        if x is False or y is False:
            return False
        return True if x and y else None
    if t.op == "or":
        x, y = decide(f, t.a[0]), decide(f, t.a[1])
        if x or y:
            return True
        return False if x is False and y is False else None
    k, c, pos = atom(t)
    if k.op in ("and", "or"):
        r = decide(f, k)
    elif k.op in CONST and c.op in CONST:
        r = k is c
    else:
        r = fact_test(f, k, c)
    if r is None:
        return None
    return r == pos


def split(st, t):
    """[(state, bool)]"""
    r = decide(st.facts, t)
    if r is not None:
        return [(st, r)]
    while t.op == "not" and t.a[0].op in ("and", "or", "not"):
        return [(s, not b) for s, b in split(st, t.a[0])]
    if t.op == "and":
        out = []
        for s, b in split(st, t.a[0]):
            out += split(s, t.a[1]) if b else [(s, False)]
        return out
    if t.op == "or":
        out = []
        for s, b in split(st, t.a[0]):
            out += [(s, True)] if b else split(s, t.a[1])
        return out
    k, c, pos = atom(t)
    out = []
    for want in (True, False):
        s = st.fork()
        if assume(s.facts, k, c, pos == want):
            out.append((s, want))
    return out


def mkeq(a, b):
    if a is b:
        return TRUE
    if is_const(a) and is_const(b):
        return B(a is b)
    if is_const(a):
        a, b = b, a
    if not is_const(b) and repr(b) < repr(a):
        a, b = b, a
    if b.op == "bool":
        return a if b is TRUE else mknot(a)
    for x, y in ((a, b), (b, a)):
        if x.op == "len" and y.op == "int" and y.a[0] == 0 and x.a[0].op == "collect" and not isinstance(x.a[0].a[2], Term):
            src = x.a[0].a[1]
            cs = frozenset(d for d, v in x.a[0].a[2])
            if not cs:
                return TRUE
            cs = frozenset(frozenset(f.items()) for f in merge_facts([dict(d) for d in cs]))
            if cs == frozenset([frozenset()]):
                return mkeq(mklen(src), b if x is a else a)
            return mknot(T("any", src, cs))
    if a.op == "len" and b.op == "int" and a.a[0].op == "tail":
        # the rest of x has max(len x - 1, 0) elements
        n = mklen(a.a[0].a[0])
        return mklt(n, I(2), True) if b.a[0] == 0 else mkeq(n, I(b.a[0] + 1)) if b.a[0] > 0 else FALSE
    if a.op == "len" and b.op == "int" and a.a[0].op == "zip":
        z = zip_len(a.a[0])
        if z is not None:
            n, o = z
            return FALSE if n < b.a[0] else mkeq(o, b) if n > b.a[0] else mknot(mklt(o, b, True))
    return T("eq", a, b)


def zip_len(z):
    """A zip of a sequence of a fixed length with another: (that length, the
    length of the other)."""
    x, y = mklen(z.a[0]), mklen(z.a[1])
    if y.op == "int":
        x, y = y, x
    return (x.a[0], y) if x.op == "int" and y.op != "int" else None


def mknot(a):
    if a.op == "bool":
        return B(not a.a[0])
    if a.op == "not":
        return a.a[0]
    return T("not", a)


def mkbin(o, a, b):
    if a.op == "bool":
        return (b if a.a[0] else FALSE) if o == "and" else (TRUE if a.a[0] else b)
    if b.op == "bool":
        return (a if b.a[0] else FALSE) if o == "and" else (TRUE if b.a[0] else a)
    return a if a is b else T(o, a, b)


def mklt(a, b, unsigned=False):
    if a.op == "int" and b.op == "int":
        return B(a.a[0] < b.a[0])
    if a is b:
        return FALSE
    if b.op == "int":
        if (unsigned or a.op == "len") and b.a[0] <= 0:
            return FALSE
        if (unsigned or a.op == "len") and b.a[0] == 1:
            return mkeq(a, I(0))
        if a.op == "len" and a.a[0].op == "tail":
            return mklt(mklen(a.a[0].a[0]), I(b.a[0] + 1), True)
        if a.op == "len" and a.a[0].op == "zip":
            z = zip_len(a.a[0])
            if z is not None:
                return TRUE if z[0] < b.a[0] else mklt(z[1], b, True)
    for x, y, o in ((a, b, ("and", "or")), (b, a, ("or", "and"))):
        if x.op in ("max", "min"):
            f = (lambda p: mklt(p, b, unsigned)) if x is a else (lambda p: mklt(a, p, unsigned))
            r = f(x.a[0])
            for q in x.a[1:]:
                r = mkbin(o[0 if x.op == "max" else 1], r, f(q))
            return r
    if a.op == "int":
        return mknot(mklt(b, I(a.a[0] + 1), unsigned))
    return T("lt", a, b)


RENORM.update({"eq": mkeq, "not": mknot, "lt": mklt, "and": lambda a, b: mkbin("and", a, b), "or": lambda a, b: mkbin("or", a, b),
               "len": mklen})

# ---------------------------------------------------------------- outcomes

STEPS = {}  # loop variable -> (values before the loop, rows of one iteration)


class Out:
    __slots__ = ("kind", "st", "val")

    def __init__(self, kind, st, val=None):
        self.kind, self.st, self.val = kind, st, val


def comp_merge(f, g):
    """Merges two fact dicts that differ in one complementary test, or where one subsumes the other."""
    if len(f) > len(g):
        f, g = g, f
    if len(g) - len(f) > 1:
        return dict(f) if all(g.get(k) == v for k, v in f.items()) else None
    diff = [k for k, v in g.items() if f.get(k) != v]
    miss = [k for k in f if k not in g]
    if not diff and not miss:
        return dict(f)
    if not miss and all(k not in f for k in diff):
        return dict(f)  # f more general
    if len(diff) == 1 and not miss and len(f) == len(g):
        k = diff[0]
        v, w = f[k], g[k]
        r = None
        if v[0] == "=" and w[0] == "=":
            if v[1].op == "bool":
                r = ()
            elif k.op == "disc":
                n = NV.get(k.a[0])
                if n == 2:
                    r = ()
                elif n:
                    ex = frozenset(I(i) for i in range(n)) - {v[1], w[1]}
                    r = ("!", ex) if ex else ()
        elif v[0] == "!" and w[0] == "!":
            i = v[1] & w[1]
            r = ("!", i) if i else ()
        else:
            if v[0] == "=":
                v, w = w, v
            if w[1] in v[1]:
                s = v[1] - {w[1]}
                r = ("!", s) if s else ()
        if r is not None:
            h = dict(f)
            if r == ():
                del h[k]
            else:
                h[k] = r
            return h
    return None


def merge_facts(fs):
    fs = list(fs)
    ch = True
    while ch and len(fs) > 1:
        ch = False
        for i in range(len(fs)):
            for j in range(i + 1, len(fs)):
                m = comp_merge(fs[i], fs[j])
                if m is not None:
                    fs[i] = m
                    del fs[j]
                    ch = True
                    break
            if ch:
                break
    return fs


def uncovered(f, alts, budget=None):
    """Facts under which none of the alternatives is true although the facts f are, or None."""
    budget = budget or [3000]
    budget[0] -= 1
    live, best = [], None
    for a in alts:
        todo = []
        for k, w in a:
            for c in ((w[1],) if w[0] == "=" else w[1]):
                r = fact_test(f, k, c)
                if r is None:
                    todo.append((k, c))
                elif r != (w[0] == "="):
                    todo = None
                    break
            if todo is None:
                break
        if todo == []:
            return None
        if todo is not None:
            live.append(a)
            if best is None or len(todo) < len(best):
                best = todo
    if not live or budget[0] < 0:
        return f
    k, c = best[0]
    for pos in (True, False):
        g = dict(f)
        if assume(g, k, c, pos):
            r = uncovered(g, live, budget)
            if r is not None:
                return r
    return None


class Frame:
    __slots__ = ("fn", "id", "eng")


TRANSPARENT = {
    "std::boxed::Box", "std::ptr::Unique", "std::ptr::NonNull", "std::mem::MaybeUninit", "std::mem::ManuallyDrop",
    "std::pin::Pin", "std::mem::MaybeDangling", "std::mem::maybe_dangling::MaybeDangling", "core::ptr::Unique",
}


def is_transparent(name):
    return name in TRANSPARENT or name.rsplit("::", 1)[-1] in ("Box", "Unique", "NonNull", "MaybeUninit", "ManuallyDrop", "MaybeDangling", "Pin") and (
        name.startswith("std::") or name.startswith("core::") or name.startswith("alloc::"))


MODELS = {}


def model(*names):
    def deco(f):
        for n in names:
            MODELS[n] = f
        return f
    return deco


class Ctx:
    __slots__ = ("eng", "fr", "path", "npath", "targs", "rty", "fnref", "line", "argtys")


class Eng:
    MAXST = 6000

    def __init__(self, prog, opaque=(), effectful=(), keep=None, maxdepth=60, budget=400000):
        self.p = prog
        self.opaque = set(opaque)        # normalised def paths kept as uninterpreted pure calls
        self.effectful = set(effectful)  # kept uninterpreted and recorded in the effect trace
        self.nfid = 0
        self.stack = []
        self.heap = 0
        self.steps = 0
        self.budget = budget
        self.maxdepth = maxdepth
        self.unmodelled = {}
        self.analysed = set()
        self.nodes = 0
        self.lvinfo = {}
        self.join_seqs = False       # join states that differ only in written sequences (HTML templates)
        self.lost = set()
        self.track_order = False     # mark the iteration order of hash tables in the terms

    # ------- types
    def kind(self, ty):
        return self.p.types[ty]

    def deref_ty(self, ty):
        t = self.p.types[ty]
        if t["k"] in ("ref", "ptr"):
            return t["e"]
        if t["k"] == "adt" and t.get("args"):
            return t["args"][0]
        return ty

    def adt_of(self, ty):
        """name of the ADT behind references/boxes (for discriminants)."""
        for _ in range(8):
            t = self.p.types[ty]
            if t["k"] == "adt" and not is_transparent(t["adt"]):
                return t["adt"]
            if t["k"] in ("ref", "ptr"):
                ty = t["e"]
            elif t["k"] == "adt" and t["args"]:
                ty = t["args"][0]
            else:
                return None
        return None

    # ------- constants
    def const(self, c):
        ty = c["t"]
        return self.cval(c["v"], ty)

    def cval(self, v, ty):
        k = v[0]
        if k == "int":
            return I(int(v[1]))
        if k == "bool":
            return B(v[1])
        if k == "char":
            return T("char", v[1])
        if k == "float":
            return T("float", repr(float(v[1])))
        if k == "str":
            return S(v[1])
        if k == "bytes":
            return T("bytes", tuple(v[1]))
        if k == "arr":
            e = self.p.types[ty].get("e", ty) if ty is not None else None
            return T("arr", *[self.cval(x, e) for x in v[1]])
        if k == "tup":
            es = self.p.types[ty].get("es", []) if ty is not None else []
            return tup(*[self.cval(x, es[i] if i < len(es) else None) for i, x in enumerate(v[1])])
        if k == "adt":
            return T("adt", v[1], v[2], *[self.cval(x, None) for x in v[3]])
        if k == "ref":
            t = self.p.types[ty] if ty is not None else {}
            e = t.get("e") if t.get("k") in ("ref", "ptr") else None
            if e is not None and self.p.types[e]["k"] == "slice":
                pass
            return self.cval(v[1], e)
        if k == "fn":
            r = self.p.types[ty]["fn"]
            return T("fn", r.get("rpath") or r["path"], r.get("key", ""), r["path"])
        if k == "fnp":
            f = self.p.fns.get(v[1])
            return T("fn", f.path if f else v[1], v[1], f.path if f else v[1])
        if k == "clo":
            return T("clo", self.p.types[ty]["key"] if ty is not None else "?")
        if k == "static":
            return T("static", v[1])
        if k == "zst":
            if ty is not None and self.p.types[ty]["k"] == "tuple":
                return UNIT
            if ty is not None and self.p.types[ty]["k"] == "adt":
                return T("adt", self.p.types[ty]["adt"], 0)
            return T("zst", self.p.types[ty]["s"] if ty is not None else "?")
        if k == "opaque":
            return T("const", v[1], self.p.types[ty]["s"] if ty is not None else "?")
        return T("unk", "const", str(v)[:60])

    # ------- places
    def explode(self, v, n, adt, vi):
        if v is not None and v.op == "adt" and (v.a[1] == vi or adt is None):
            return list(v.a[2:]), lambda fs: T("adt", v.a[0], v.a[1], *fs)
        if v is not None and v.op == "tup":
            return list(v.a), lambda fs: tup(*fs)
        if v is not None and v.op in ("clo", "coro"):
            fs = list(v.a[1:])
            return fs, lambda fs2, o=v.op, k=v.a[0]: T(o, k, *fs2)
        base = v if v is not None else T("uninit")
        if adt:
            return [T("fld", base, vi, i) if base.op != "uninit" else base for i in range(n)], lambda fs: T("adt", adt, vi, *fs)
        return [T("fld", base, 0, i) if base.op != "uninit" else base for i in range(n)], lambda fs: tup(*fs)

    def upd(self, base, path, val):
        if not path:
            return val
        p = path[0]
        if p[0] == "f":
            _, vi, ix, adt, n = p
            if base is not None and base.op in ("clo", "coro"):
                fs, mk = self.explode(base, n, adt, vi)
                while len(fs) <= ix:
                    fs.append(T("uninit"))
            else:
                fs, mk = self.explode(base, n, adt, vi)
                while len(fs) <= ix:
                    fs.append(T("uninit"))
            fs[ix] = self.upd(fs[ix], path[1:], val)
            return mk(fs)
        if p[0] == "i":
            b = base if base is not None else T("uninit")
            if b.op == "arr" and p[1].op == "int" and p[1].a[0] < len(b.a):
                l = list(b.a)
                l[p[1].a[0]] = self.upd(l[p[1].a[0]], path[1:], val)
                return T("arr", *l)
            return T("setidx", b, p[1], self.upd(T("idx", b, p[1]), path[1:], val))
        return T("unk", "upd", repr(p))

    def load(self, st, loc, path):
        v = st.store.get(loc)
        if v is None:
            v = loc[1] if loc[0] == "M" else T("uninit")
        for p in path:
            if p[0] == "f":
                v = self.getf(st, v, p[1], p[2])
            elif p[0] == "i":
                v = self.index(st, v, p[1])
            else:
                v = T("unk", "load")
        return v

    def getf(self, st, v, vi, ix):
        o = v.op
        if o == "adt":
            if v.a[1] == vi and 2 + ix < len(v.a):
                return v.a[2 + ix]
            return T("unk", "variant", repr(v)[:80], vi, ix)
        if o == "tup":
            return v.a[ix] if ix < len(v.a) else T("unk", "tupfield")
        if o in ("clo", "coro"):
            return v.a[1 + ix] if 1 + ix < len(v.a) else T("uninit")
        if o == "uninit":
            return v
        return T("fld", v, vi, ix)

    def index(self, st, v, i):
        if i.op not in ("int",):
            f = st.facts.get(i)
            if f and f[0] == "=" and f[1].op == "int":
                i = f[1]
        if v.op == "arr" and i.op == "int":
            n = i.a[0]
            if n < len(v.a):
                return v.a[n]
        if v.op == "cat" and i.op == "int":
            n = i.a[0]
            for p in v.a:
                if p.op != "one":
                    break
                if n == 0:
                    return p.a[0]
                n -= 1
        if i.op == "elem" and i.a[0].op == "range" and i.a[0].a[0] is I(0):
            e = i.a[0].a[1]
            if e is T("len", v):
                return T("elem", v, i.a[1])
        return T("idx", v, i)

    def place(self, fr, st, pl):
        """-> (loc, path, type, value or None). value set when the place is a pure projection of a non-location."""
        l, ps = pl
        loc, path, ty = ("L", fr.id, l), [], fr.fn.locals[l]
        vi = None
        for p in ps:
            t = self.p.types[ty]
            if p == "*":
                if t["k"] == "ref" and not t["mut"]:
                    cur = self.load(st, loc, path)
                    if cur.op == "mref" and cur.a[0][0] == "H":
                        loc, path = cur.a[0], list(cur.a[1])
                    ty = t["e"]
                elif t["k"] in ("ref", "ptr"):
                    cur = self.load(st, loc, path)
                    if cur.op == "mref":
                        loc, path = cur.a[0], list(cur.a[1])
                    else:
                        loc, path = ("M", cur), []
                    ty = t["e"]
                else:  # Box
                    cur = self.load(st, loc, path)
                    if cur.op == "mref":
                        loc, path = cur.a[0], list(cur.a[1])
                    ty = t["args"][0] if t.get("args") else ty
            elif p[0] == "v":
                vi = p[1]
            elif p[0] == "f":
                nm = t.get("adt") if t["k"] == "adt" else None
                if nm and is_transparent(nm):
                    pass
                elif nm and self.p.adts.get(nm, {}).get("kind") == "union":
                    pass
                else:
                    if nm:
                        v = vi or 0
                        path.append(("f", v, p[1], nm, len(self.p.adts[nm]["vs"][v][2])))
                    elif t["k"] == "tuple":
                        path.append(("f", 0, p[1], None, len(t["es"])))
                    elif t["k"] == "coroutine" and vi is not None and vi >= 3:
                        path.append(("f", 0, 1000 * vi + p[1], None, 1000 * vi + p[1] + 1))
                    else:
                        path.append(("f", 0, p[1], None, p[1] + 1))
                vi = None
                ty = p[2]
            elif p[0] == "i":
                path.append(("i", self.load(st, ("L", fr.id, p[1]), [])))
                ty = t.get("e", ty)
            elif p[0] == "ci":
                if p[3]:
                    path.append(("i", T("fromend", I(p[1]))))
                else:
                    path.append(("i", I(p[1])))
                ty = t.get("e", ty)
            elif p[0] == "ss":
                path.append(("s",))
            elif p[0] == "oc":
                pass
        return loc, path, ty

    def read(self, fr, st, pl):
        l, ps = pl
        if not ps:
            v = st.store.get(("L", fr.id, l))
            return v if v is not None else T("uninit")
        loc, path, ty = self.place(fr, st, pl)
        return self.load(st, loc, path)

    def write(self, fr, st, pl, val):
        l, ps = pl
        if not ps:
            st.store[("L", fr.id, l)] = val
            return
        loc, path, ty = self.place(fr, st, pl)
        self.store(st, loc, path, val)

    def store(self, st, loc, path, val):
        if loc[0] == "M":
            r = loc[1]
            while r.op in ("fld", "lv", "after") and isinstance(r.a[0], Term):
                r = r.a[0]
            if r.op in ("elem", "idx", "first", "last", "unk", "fold", "adt", "collect"):
                self.lost.add(loc[1])
        if not path:
            st.store[loc] = val
            return
        base = st.store.get(loc)
        if base is None and loc[0] == "M":
            base = loc[1]
        st.store[loc] = self.upd(base, path, val)

    def place_ty(self, fr, pl):
        l, ps = pl
        ty = fr.fn.locals[l]
        for p in ps:
            t = self.p.types[ty]
            if p == "*":
                ty = self.deref_ty(ty)
            elif p[0] == "f":
                ty = p[2]
            elif p[0] in ("i", "ci"):
                ty = t.get("e", ty)
        return ty

    def via_shared(self, fr, pl):
        """does the place lie behind a shared reference (which is represented by the value it refers to)?"""
        l, ps = pl
        ty = fr.fn.locals[l]
        for p in ps:
            t = self.p.types[ty]
            if p == "*":
                if t["k"] == "ref" and not t["mut"]:
                    return True
                ty = self.deref_ty(ty)
            elif p[0] == "f":
                ty = p[2]
            elif p[0] in ("i", "ci"):
                ty = t.get("e", ty)
        return False

    def op_ty(self, fr, o):
        if o[0] in ("c", "m"):
            return self.place_ty(fr, o[1])
        if o[0] == "k":
            return o[1]["t"]
        return None

    def operand(self, fr, st, o):
        if o[0] == "k":
            return self.const(o[1])
        if o[0] == "rc":
            return TRUE
        return self.read(fr, st, o[1])

    # ------- rvalues
    def disc(self, st, v, adt):
        """the discriminant term of v"""
        if v.op == "adt":
            return I(self.discval(v.a[0], v.a[1]))
        if adt and adt in self.p.adts and self.p.adts[adt]["kind"] == "enum":
            NV[v] = len(self.p.adts[adt]["vs"])
            f = st.facts.get(T("disc", v))
            if f and f[0] == "=":
                return I(self.discval(adt, f[1].a[0]))
            return T("discr", v, adt)
        if v.op == "coro":
            return I(0)
        return T("discr", v, adt or "?")

    def discval(self, adt, vi):
        n = int(self.p.adts[adt]["vs"][vi][1])
        return n

    def rvalue(self, fr, st, r, pl):
        k = r[0]
        if k == "use":
            if r[1][0] == "c":
                # a Box is only ever copied to dereference it: keep the alias
                ty = self.place_ty(fr, r[1][1])
                if ty is not None and self.p.types[ty].get("adt") in ("std::boxed::Box", "alloc::boxed::Box") \
                        and not self.via_shared(fr, r[1][1]):
                    loc, path, _ = self.place(fr, st, r[1][1])
                    return T("mref", loc, tuple(path))
            return self.operand(fr, st, r[1])
        if k == "ref":
            if r[1] == "m":
                loc, path, ty = self.place(fr, st, r[2])
                if loc[0] == "M" and loc not in st.store:
                    st.store[loc] = loc[1]
                return T("mref", loc, tuple(path))
            return self.read(fr, st, r[2])
        if k == "addr":
            loc, path, ty = self.place(fr, st, r[-1])
            if loc[0] == "M" and loc not in st.store:
                st.store[loc] = loc[1]
            return T("mref", loc, tuple(path))
        if k == "agg":
            kind = r[1]
            ops = [self.operand(fr, st, o) for o in r[2]]
            if kind == "arr":
                return T("arr", *ops)
            if kind == "tup":
                return tup(*ops)
            if kind == "adt":
                if is_transparent(r[3]) and len(ops) >= 1:
                    return ops[0]
                return T("adt", r[3], r[4], *ops)
            if kind in ("clo", "coro"):
                return T(kind, self.p.types[r[3]]["key"], *ops)
            if kind == "rawptr":
                return ops[0]
            return T("unk", "agg", kind)
        if k in ("bin", "cbin"):
            a, b = self.operand(fr, st, r[2]), self.operand(fr, st, r[3])
            ty = self.op_ty(fr, r[2])
            tk = self.p.types[ty] if ty is not None else {"k": "?"}
            return self.binop(st, k, r[1], a, b, tk)
        if k == "un":
            a = self.operand(fr, st, r[2])
            ty = self.op_ty(fr, r[2])
            if r[1] == "Not":
                if ty is not None and self.p.types[ty]["k"] == "bool":
                    return mknot(a)
                return T("bitnot", a)
            if r[1] == "Neg":
                if a.op == "int":
                    return I(-a.a[0])
                if a.op == "float":
                    return T("float", repr(-float(a.a[0])))
                return T("neg", a)
            if r[1] == "PtrMetadata":
                return self.len_(st, a)
            return T("un", r[1], a)
        if k == "cast":
            a = self.operand(fr, st, r[2])
            return self.cast(st, r[1], a, self.op_ty(fr, r[2]), r[3])
        if k == "discr":
            ty = self.place_ty(fr, r[1])
            v = self.read(fr, st, r[1])
            return self.disc(st, v, self.adt_of(ty))
        if k == "len":
            return self.len_(st, self.read(fr, st, r[1]))
        if k == "rep":
            v = self.operand(fr, st, r[1])
            return T("rep", v, str(r[2]))
        return T("unk", "rvalue", k)

    def len_(self, st, v):
        t = mklen(v)
        f = st.facts.get(t)
        if f and f[0] == "=":
            return f[1]
        return t

    def const_of(self, st, t):
        if is_const(t):
            return t
        f = st.facts.get(t)
        if f and f[0] == "=" and t.op not in ("lt", "eq", "any", "disc"):
            return f[1]
        return t

    def binop(self, st, k, op, a, b, tk):
        fl = tk["k"] == "float"
        uns = tk["k"] == "uint"
        if op in ("Eq", "Ne"):
            r = self.mkeq_disc(st, a, b)
            return r if op == "Eq" else mknot(r)
        if op in ("Lt", "Le", "Gt", "Ge"):
            if fl:
                if a.op == "float" and b.op == "float":
                    x, y = float(a.a[0]), float(b.a[0])
                    return B({"Lt": x < y, "Le": x <= y, "Gt": x > y, "Ge": x >= y}[op])
                if op == "Lt":
                    return T("flt", a, b)
                if op == "Le":
                    return T("fle", a, b)
                if op == "Gt":
                    return T("flt", b, a)
                return T("fle", b, a)
            if op == "Lt":
                return mklt(a, b, uns)
            if op == "Gt":
                return mklt(b, a, uns)
            if op == "Le":
                return mknot(mklt(b, a, uns))
            return mknot(mklt(a, b, uns))
        if tk["k"] == "bool":
            if op == "BitAnd":
                if a is TRUE:
                    return b
                if b is TRUE:
                    return a
                if a is FALSE or b is FALSE:
                    return FALSE
                return T("and", a, b)
            if op == "BitOr":
                if a is FALSE:
                    return b
                if b is FALSE:
                    return a
                if a is TRUE or b is TRUE:
                    return TRUE
                return T("or", a, b)
            if op == "BitXor":
                return mknot(mkeq(a, b))
        o = op.replace("Unchecked", "")
        res = None
        if fl:
            res = self.fop(o, a, b)
        else:
            res = self.iop(o, a, b, tk)
        if k == "cbin":
            # checked arithmetic: (result, overflowed)
            if a.op == "int" and b.op == "int" and res.op == "int":
                return tup(res, FALSE)
            return tup(res, T("ovf", o, a, b, tk.get("s", "?")))
        return res

    def mkeq_disc(self, st, a, b):
        """equality; comparisons of discriminants become variant tests."""
        if a.op == "int" and b.op == "discr":
            a, b = b, a
        if a.op == "discr" and b.op == "int":
            adt = a.a[1]
            info = self.p.adts.get(adt)
            if info:
                for i, v in enumerate(info["vs"]):
                    if (int(v[1]) - b.a[0]) % (1 << 64) == 0 or (int(v[1]) - b.a[0]) % 256 == 0 and len(info["vs"]) < 256:
                        return T("isv", a.a[0], i)
                return FALSE
        if a.op == "discr" and b.op == "discr":
            return mkeq(T("disc", a.a[0]), T("disc", b.a[0]))
        return mkeq(a, b)

    def iop(self, o, a, b, tk):
        if a.op == "int" and b.op == "int":
            x, y = a.a[0], b.a[0]
            try:
                r = {"Add": lambda: x + y, "Sub": lambda: x - y, "Mul": lambda: x * y, "Div": lambda: int(x / y) if abs(x) < 2**52 else x // y,
                     "Rem": lambda: x % y, "BitAnd": lambda: x & y, "BitOr": lambda: x | y, "BitXor": lambda: x ^ y,
                     "Shl": lambda: x << y, "Shr": lambda: x >> y}[o]()
                return I(r)
            except (KeyError, ZeroDivisionError):
                pass
        if o in ("Add", "Mul", "BitAnd", "BitOr", "BitXor"):
            if b.op == "int" or (a.op != "int" and repr(b) < repr(a)):
                a, b = b, a
            if o == "Add" and a is I(0):
                return b
            if o == "Mul" and a is I(1):
                return b
        return T("op", o, a, b)

    def fop(self, o, a, b):
        if o in ("Add", "Mul"):
            if b.op == "float" and a.op != "float" or (a.op != "float" and repr(b) < repr(a)):
                a, b = b, a
        if a.op == "float" and b.op == "float":
            x, y = float(a.a[0]), float(b.a[0])
            try:
                return T("float", repr({"Add": x + y, "Sub": x - y, "Mul": x * y}[o]) if o != "Div" else repr(x / y))
            except (KeyError, ZeroDivisionError):
                pass
        return T("fop", o, a, b)

    def cast(self, st, kind, a, fty, tty):
        tt = self.p.types[tty]
        ft = self.p.types[fty] if fty is not None else {"k": "?"}
        if kind == "IntToInt":
            if a.op == "int" and tt["k"] in ("int", "uint"):
                w = tt["w"]
                n = a.a[0] % (1 << w)
                if tt["k"] == "int" and n >= 1 << (w - 1):
                    n -= 1 << w
                return I(n)
            if a.op == "bool":
                return I(1 if a.a[0] else 0)
            if a.op == "discr":
                return a
            if ft["k"] == "bool":
                return T("b2i", a)
            if ft["k"] == "uint" and tt["k"] == "uint" and ft["w"] <= tt["w"]:
                return a
            if ft["k"] == "uint" and tt["k"] == "int" and ft["w"] < tt["w"]:
                return a
            if ft["k"] == "int" and tt["k"] == "int" and ft["w"] <= tt["w"]:
                return a
            return T("cast", tt["s"], a)
        if kind in ("IntToFloat",):
            if a.op == "int":
                return T("float", repr(float(a.a[0])))
            return T("cast", tt["s"], a)
        if kind in ("FloatToInt", "FloatToFloat"):
            return T("cast", tt["s"], a)
        if kind == "Transmute" and ft["k"] == "adt" and tt["k"] in ("int", "uint"):
            return T("discr", a, ft["adt"]) if self.p.adts.get(ft["adt"], {}).get("kind") == "enum" else T("cast", tt["s"], a)
        return a

    # ------- execution
    def call_fn(self, f, args, st):
        """Executes a body abstractly. -> [Out]"""
        if f.loops is None:
            analyse_cfg(f)
        self.analysed.add(f.path)
        fr = Frame()
        self.nfid += 1
        fr.fn, fr.id, fr.eng = f, self.nfid, self
        if f.spread is not None and f.spread is not False and f.spread >= 0 and f.spread != 0:
            # rust-call ABI: the last tuple argument is spread
            sp = f.spread
            head = args[:sp - 1]
            rest = args[sp - 1:]
            args = list(head) + [tup(*rest)] if not (len(rest) == 1 and rest[0].op == "tup" and False) else args
        for i, v in enumerate(args):
            st.store[("L", fr.id, i + 1)] = v
        self.stack.append(f.key)
        try:
            outs = self.go(fr, 0, [st], None)
        finally:
            self.stack.pop()
        res = []
        for o in outs:
            if o.kind == "ret":
                o.val = o.st.store.get(("L", fr.id, 0), T("uninit"))
                if o.val.op == "uninit":
                    o.val = UNIT if self.p.types[f.locals[0]]["k"] == "tuple" else o.val
            o.st.store = {k: v for k, v in o.st.store.items() if not (k[0] == "L" and k[1] == fr.id)}
            res.append(o)
        return self.merge_outs(res)

    def merge_outs(self, outs):
        groups = {}
        for o in outs:
            k = (o.kind, o.val, frozenset(o.st.store.items()), o.st.eff, o.st.loops)
            groups.setdefault(k, []).append(o)
        res = []
        for k, os_ in groups.items():
            if len(os_) == 1:
                res.append(os_[0])
                continue
            for f in merge_facts([o.st.facts for o in os_]):
                s = St(dict(os_[0].st.store), f, k[3], k[4])
                res.append(Out(k[0], s, k[1]))
        return res

    def merge_states(self, fr, bb, sts):
        if len(sts) == 1:
            return sts
        live = fr.fn.live.get(bb, set())
        addr = fr.fn.addr
        groups = {}
        for s in sts:
            for k in [k for k in s.store if k[0] == "L" and k[1] == fr.id and k[2] not in live and k[2] not in addr]:
                del s.store[k]
            groups.setdefault((frozenset(s.store.items()), s.eff, s.loops), []).append(s)
        res = []
        for k, ss in groups.items():
            if len(ss) == 1:
                res += ss
            else:
                for f in merge_facts([s.facts for s in ss]):
                    res.append(St(dict(ss[0].store), f, ss[0].eff, ss[0].loops))
        if self.join_seqs and len(res) > 1:
            res = self.join(fr, res)
        return res

    def join(self, fr, sts):
        """Joins states that differ only in written sequences and in strings: the differing rest becomes alt{(facts, value)}."""
        groups = []
        for s in sts:
            for g in groups:
                if self.joinable(fr, g[0], s):
                    g.append(s)
                    break
            else:
                groups.append([s])
        res = []
        for g in groups:
            if all(s.store == g[0].store for s in g):
                # nothing to join yet; joining would lose which facts lead here
                res += g
                continue
            common = {k: v for k, v in g[0].facts.items() if all(s.facts.get(k) == v for s in g)}
            extra = [frozenset((k, v) for k, v in s.facts.items() if k not in common) for s in g]
            for k in g[0].facts:
                # the variants none of the states allows
                n = NV.get(k.a[0]) if k.op == "disc" and k not in common and all(k in s.facts for s in g) else None
                if n:
                    no = frozenset.intersection(*[frozenset(I(i) for i in range(n) if fact_test(s.facts, k, I(i)) is False) for s in g])
                    if no:
                        common[k] = ("!", no)
            store = {}
            for k, v in g[0].store.items():
                vs = [s.store[k] for s in g]
                if all(x is v for x in vs):
                    store[k] = v
                elif self.seq(v):
                    ps = [self.seq(x) for x in vs]
                    if None in ps:
                        store[k] = T("alt", frozenset(zip(extra, vs)))
                        continue
                    n = 0
                    while all(len(p) > n for p in ps) and all(p[n] is ps[0][n] for p in ps):
                        n += 1
                    store[k] = cat(T("arr"), list(ps[0][:n]) + [T("one", T("alt", frozenset((e, tuple(p[n:])) for e, p in zip(extra, ps))))])
                else:
                    store[k] = T("alt", frozenset(zip(extra, vs)))
            res.append(St(store, common, g[0].eff, g[0].loops))
        return res

    def seq(self, v):
        if v.op == "arr":
            return tuple(T("one", x) for x in v.a) or (T("one", T("txt", S(""))),)
        if v.op == "cat":
            return v.a
        if v.op in ("fold", "lv"):
            return (T("many", v),)
        return None

    def joinable(self, fr, a, b):
        if a.eff != b.eff or a.loops != b.loops or a.store.keys() != b.store.keys():
            return False
        for k, v in a.store.items():
            w = b.store[k]
            if v is w or self.seq(v) and self.seq(w):
                continue
            if k[0] == "L" and k[1] == fr.id and len(k) == 3:
                t = self.p.types[fr.fn.locals[k[2]]]
                while t["k"] == "ref":
                    t = self.p.types[t["e"]]
                if t["k"] in ("str", "int", "uint", "float") or t["k"] == "adt" and t["adt"].endswith("::String"):
                    continue
            return False
        return True

    def go(self, fr, bb, sts, loop):
        """loop = (header, body) when analysing one iteration of a loop."""
        fn = fr.fn
        pend = {bb: list(sts)}
        outs = []
        first = True
        while pend:
            bb = min(pend, key=lambda b: fn.rpo.get(b, 1 << 30))
            ss = pend.pop(bb)
            if loop and not first:
                if bb == loop[0]:
                    outs += [Out("back", s) for s in ss]
                    continue
                if bb not in loop[1]:
                    outs += [Out("exit", s, bb) for s in ss]
                    continue
            ss = self.merge_states(fr, bb, ss)
            if len(ss) > self.MAXST:
                raise GiveUp("too many states in %s" % fn.path)
            if bb in fn.loops and not (loop and bb == loop[0]):
                for s in ss:
                    for o in self.do_loop(fr, bb, s):
                        if o.kind == "exit":
                            pend.setdefault(o.val, []).append(o.st)
                        else:
                            outs.append(o)
                first = False
                continue
            first = False
            for s in ss:
                for o in self.block(fr, bb, s):
                    if o.kind == "jump":
                        pend.setdefault(o.val, []).append(o.st)
                    else:
                        outs.append(o)
        return outs

    def block(self, fr, bb, st):
        self.steps += 1
        if self.steps > self.budget:
            raise GiveUp("step budget exceeded in %s" % fr.fn.path)
        stmts, t = fr.fn.blocks[bb]
        for s in stmts:
            k = s[0]
            if k == "=":
                if not s[1][1] and s[2][0] == "use" and s[2][1][0] == "m" and not s[2][1][1][1]:
                    v = st.store.get(("L", fr.id, s[2][1][1][0]), T("uninit"))
                else:
                    v = self.rvalue(fr, st, s[2], s[1])
                self.write(fr, st, s[1], v)
            elif k == "sd":
                ty = self.place_ty(fr, s[1])
                adt = self.adt_of(ty)
                v = self.read(fr, st, s[1])
                if v.op == "coro":
                    continue
                if adt and adt in self.p.adts:
                    n = len(self.p.adts[adt]["vs"][s[2]][2])
                    fs = [self.getf(st, v, s[2], i) if v.op != "uninit" else v for i in range(n)]
                    self.write(fr, st, s[1], T("adt", adt, s[2], *fs))
            elif k == "dead":
                st.store.pop(("L", fr.id, s[1]), None)
        k = t[0]
        if k == "goto":
            return [Out("jump", st, t[1])]
        if k == "return":
            return [Out("ret", st)]
        if k in ("unreachable",):
            return []
        if k in ("resume", "abort"):
            return []
        if k == "switch":
            return self.switch(fr, st, t)
        if k == "drop":
            return self.do_drop(fr, st, t)
        if k == "assert":
            v = self.operand(fr, st, t[1])
            if t[3] == "other":
                return [Out("jump", st, t[4])]
            c = v if t[2] else mknot(v)
            outs = []
            for s, b in split(st, c):
                if b:
                    outs.append(Out("jump", s, t[4]))
                else:
                    outs.append(Out("panic", s, T("why", "assert:" + t[3], fr.fn.npath)))
            return outs
        if k == "call":
            return self.do_call(fr, st, t)
        raise GiveUp("terminator " + k)

    def switch(self, fr, st, t):
        v = self.operand(fr, st, t[1])
        ty = self.op_ty(fr, t[1])
        tk = self.p.types[ty]
        v = self.const_of(st, v)
        if v.op in ("int", "bool", "char"):
            x = v.a[0] if v.op != "bool" else (1 if v.a[0] else 0)
            w = tk.get("w", 128)
            for val, b in t[2]:
                if (int(val) - x) % (1 << w) == 0:
                    return [Out("jump", st, b)]
            return [Out("jump", st, t[3])]
        outs = []
        if tk["k"] == "bool":
            targets = {int(a): b for a, b in t[2]}
            for s, b in split(st, v):
                outs.append(Out("jump", s, targets.get(1 if b else 0, t[3])))
            return outs
        if v.op == "discr":
            x, adt = v.a
            info = self.p.adts.get(adt)
            if info and info["kind"] == "enum":
                key = T("disc", x)
                used = set()
                for val, b in t[2]:
                    vi = None
                    for i, vv in enumerate(info["vs"]):
                        if (int(vv[1]) - int(val)) % (1 << min(tk.get("w", 64), 64)) == 0 or (int(vv[1]) - int(val)) % 256 == 0 and len(info["vs"]) < 100:
                            vi = i
                    if vi is None:
                        continue
                    used.add(vi)
                    s = st.fork()
                    if assume(s.facts, key, I(vi), True):
                        outs.append(Out("jump", s, b))
                s = st.fork()
                feas = True
                for vi in used:
                    if not assume(s.facts, key, I(vi), False):
                        feas = False
                        break
                if feas and len(used) < len(info["vs"]):
                    f = s.facts.get(key)
                    outs.append(Out("jump", s, t[3]))
                return outs
        mk = (lambda z: T("char", int(z))) if tk["k"] == "char" else (lambda z: I(int(z)))
        s0 = st.fork()
        feas = True
        for val, b in t[2]:
            c = mk(val)
            s = st.fork()
            if assume(s.facts, v, c, True):
                outs.append(Out("jump", s, b))
            if feas and not assume(s0.facts, v, c, False):
                feas = False
        if feas:
            outs.append(Out("jump", s0, t[3]))
        return outs

    GUARDS = ("dashmap::mapref", "MutexGuard", "RwLock")

    def do_drop(self, fr, st, t):
        ty = self.p.types[t[3]]["s"]
        if any(g in ty for g in self.GUARDS):
            v = self.read(fr, st, t[1])
            if v.op != "uninit":
                st.eff = st.eff + (T("eff", "drop", v),)
        if not t[1][1]:
            st.store.pop(("L", fr.id, t[1][0]), None)
        return [Out("jump", st, t[2])]

    # ------- calls
    def do_call(self, fr, st, t):
        fun, ops, dest, target, line = t[1], t[2], t[3], t[4], t[5]
        args = [self.operand(fr, st, o) for o in ops]
        cx = Ctx()
        cx.eng, cx.fr, cx.line = self, fr, line
        cx.rty = self.place_ty(fr, dest)
        cx.argtys = [self.op_ty(fr, o) for o in ops]
        if fun[0] == "fn":
            outs = self.invoke(cx, fun[1], args, st)
        else:
            f = self.operand(fr, st, fun[1])
            outs = self.call_value(st, f, args, cx)
        res = []
        for o in outs:
            if o.kind == "ret":
                if target < 0:
                    continue
                self.write(fr, o.st, dest, o.val)
                o.kind, o.val = "jump", target
                res.append(o)
            else:
                res.append(o)
        return res

    def is_ws(self, r):
        return r.get("rcrate", r.get("crate")) in ("subweight_core", "subweight_web", "subweight")

    def invoke(self, cx, r, args, st):
        path = r["path"]
        rpath = r.get("rpath") or path
        np, nr = norm_path(path), norm_path(rpath)
        cx.path, cx.npath, cx.targs, cx.fnref = rpath, np, r["args"], r
        if nr in self.effectful or np in self.effectful:
            return self.effect(cx, nr if nr in self.effectful else np, args, st)
        if nr in self.opaque or np in self.opaque:
            return self.opaque_call(cx, nr if nr in self.opaque else np, args, st)
        if np in ("std::ops::FnOnce::call_once", "std::ops::FnMut::call_mut", "std::ops::Fn::call") and len(args) == 2:
            rest = args[1]
            if rest.op == "tup":
                return self.call_value(st, args[0], list(rest.a), cx)
        ws = self.is_ws(r)
        key = r.get("key")
        m = None
        if not ws:
            m = MODELS.get(nr) or MODELS.get(np)
        elif np in ("std::clone::Clone::clone", "std::cmp::PartialEq::eq", "std::cmp::PartialEq::ne", "std::convert::Into::into",
                    "std::string::ToString::to_string", "std::cmp::Ord::max", "std::cmp::Ord::min"):
            m = MODELS.get(np)
        if m is not None:
            used = self.borrowed_iters(np, args, st)
            outs = m(cx, st, *args)
            if outs is not None:
                outs = self.wrap(outs, st)
                for o in outs if used else ():
                    if o.kind == "ret" and np == "std::iter::Iterator::by_ref":
                        o.val = used[0][1]
                    for a, v in used:
                        if self.load(o.st, a.a[0], a.a[1]) is v:
                            self.store(o.st, a.a[0], a.a[1], T("unk", "used iterator", v))
                if self.track_order and self.hash_iter(cx, np):
                    for o in outs:
                        if o.kind == "ret" and o.val is not None:
                            o.val = self.unordered(o.st, o.val)
                return outs
        f = self.p.fns.get(key)
        if f is not None and key not in self.stack and len(self.stack) < self.maxdepth:
            return self.call_fn(f, args, st)
        if f is None and r.get("rkind") == "virtual":
            return self.opaque_call(cx, np, args, st)
        return self.opaque_call(cx, nr if ws else np, args, st)

    def borrowed_iters(self, np, args, st):
        """iterators which this call advances through a reference: nothing is known about what is left of them"""
        res = []
        if np.startswith("std::iter::Iterator::") and np.rsplit("::", 1)[1] not in ("next", "next_back", "size_hint"):
            c = args[:1]
        elif np.rsplit("::", 1)[1] in ("extend", "from_iter", "zip", "chain") and len(args) > 1:
            c = args[1:]
        else:
            return res
        for a in c:
            n = 0
            while a.op == "mref" and n < 5:
                v = self.load(st, a.a[0], a.a[1])
                if v.op != "mref":
                    res.append((a, v))
                a, n = v, n + 1
        return res

    HASH_ITER = {"iter", "into_iter", "keys", "values", "iter_mut", "values_mut", "into_keys", "into_values", "drain", "union", "intersection",
                 "difference", "symmetric_difference", "extract_if"}

    def hash_iter(self, cx, np):
        c, _, m = np.rpartition("::")
        if m not in self.HASH_ITER:
            return False
        if c in ("std::collections::HashMap", "std::collections::HashSet"):
            return True
        if np == "std::iter::IntoIterator::into_iter" and cx.argtys and cx.argtys[0] is not None:
            t = self.p.types[cx.argtys[0]]
            while t["k"] == "ref":
                t = self.p.types[t["e"]]
            return t.get("adt", "").rsplit("::", 1)[-1] in ("HashMap", "HashSet") and "std::" in t.get("adt", "")
        return False

    def unordered(self, st, v):
        if v.op == "mref":
            v = self.load(st, v.a[0], v.a[1])
        s = self.stream(v)
        return T("stream", T("unord", s.a[0]), *s.a[1:])

    def wrap(self, outs, st):
        if isinstance(outs, Term):
            return [Out("ret", st, outs)]
        res = []
        for o in outs:
            if isinstance(o, Out):
                res.append(o)
            elif len(o) == 2:
                res.append(Out("ret", o[0], o[1]))
            else:
                res.append(Out(o[0], o[1], o[2]))
        return res

    def devalue(self, st, v, d=0):
        """mref -> pointed value, closures -> extensional tables: canonical argument of an uninterpreted call."""
        if v.op == "mref":
            return self.devalue(st, self.load(st, v.a[0], v.a[1]), d + 1) if d < 5 else v
        if v.op == "clo":
            return self.lam(st, v)
        if v.op in ("tup", "adt", "arr", "cat", "one", "many") and any(isinstance(x, Term) for x in v.a):
            na = tuple(self.devalue(st, x, d + 1) if isinstance(x, Term) else x for x in v.a)
            if any(x is not y for x, y in zip(na, v.a)):
                return T(v.op, *na)
        if v.op == "stream":
            return self.stream_coll(st, v)
        return v

    def lam(self, st, v):
        """extensional table of a closure on symbolic arguments."""
        f = self.p.fns.get(v.a[0])
        if f is None or v.a[0] in self.stack or len(self.stack) > 30:
            return T("lam?", f.npath if f else "?", *[self.devalue(st, x) for x in v.a[1:]])
        n = f.nargs - 1
        s = St(dict(st.store), {}, (), st.loops)
        d = len(self.stack)
        args = [T("bv", d, i) for i in range(n)]
        # the number of user arguments is the arity of the spread tuple
        try:
            outs = self.call_value(s, v, args, None)
        except GiveUp:
            return T("lam?", f.npath)
        rows = frozenset((frozenset(o.st.facts.items()), o.kind, self.devalue(o.st, o.val) if o.kind == "ret" else UNIT, o.st.eff) for o in outs)
        # depth-independent bound variables
        return subst(T("lam", rows), {a: T("bv", "x", i) for i, a in enumerate(args)})

    def opaque_call(self, cx, name, args, st, extra=()):
        dv = [self.devalue(st, a) for a in args]
        t = T("call", name, *(tuple(extra) + tuple(dv)))
        self.unmodelled[name] = self.unmodelled.get(name, 0) + 1
        if cx is not None and cx.rty is not None and self.p.types[cx.rty].get("adt", "").endswith("Set"):
            SETLIKE[t] = True
        for i, a in enumerate(args):
            if a.op == "mref" and self.arg_mut(cx, i):
                self.store(st, a.a[0], a.a[1], T("after", t, i))
        if cx is not None and cx.rty is not None and self.p.types[cx.rty]["k"] == "never":
            return [Out("panic", st, T("why", "diverge", name))]
        if cx is not None and self.is_mutref(cx.rty):
            # returns a reference into one of its &mut arguments (builder style)
            for a in args:
                if a.op == "mref":
                    return [Out("ret", st, a)]
        return [Out("ret", st, t)]

    def is_mutref(self, ty):
        if ty is None:
            return False
        t = self.p.types[ty]
        return t["k"] == "ref" and t["mut"]

    def arg_mut(self, cx, i):
        if cx is None or i >= len(cx.argtys) or cx.argtys[i] is None:
            return True
        t = self.p.types[cx.argtys[i]]
        return not (t["k"] == "ref" and not t["mut"])

    def effect(self, cx, name, args, st, res=None):
        dv = [self.devalue(st, a) for a in args]
        e0 = T("eff", name, *dv)
        k = sum(1 for e in st.eff if e.op == "eff" and e.a[:len(e0.a)] == e0.a)
        e = T("eff", name, *dv, I(k)) if k else e0
        st.eff = st.eff + (e,)
        for i, a in enumerate(args):
            if a.op == "mref" and self.arg_mut(cx, i):
                self.store(st, a.a[0], a.a[1], T("after", e, i))
        if res is not None:
            return [Out("ret", st, res(e))]
        return [Out("ret", st, e)]

    def call_value(self, st, f, args, cx):
        """calls a function value with the (already unpacked) argument list."""
        while f.op == "mref":
            loc = f
            f2 = self.load(st, f.a[0], f.a[1])
            if f2.op == "clo":
                fn = self.p.fns.get(f2.a[0])
                if fn is None:
                    break
                by_mut = self.p.types[fn.locals[1]]["k"] == "ref" and self.p.types[fn.locals[1]]["mut"]
                return self.call_clo(st, fn, loc if by_mut else f2, args, cx)
            f = f2
        if f.op == "clo":
            fn = self.p.fns.get(f.a[0])
            if fn is None:
                return [Out("ret", st, T("call", "closure:" + f.a[0], *args))]
            t1 = self.p.types[fn.locals[1]]
            self_ = f
            if t1["k"] == "ref" and t1["mut"]:
                self.heap += 1
                loc = ("H", self.heap)
                st.store[loc] = f
                self_ = T("mref", loc, ())
            return self.call_clo(st, fn, self_, args, cx)
        if f.op == "fn":
            r = {"path": f.a[2], "rpath": f.a[0], "key": f.a[1], "args": []}
            fn = self.p.fns.get(f.a[1])
            r["rcrate"] = fn.crate if fn else ""
            # constructor functions
            c = self.ctor(f.a[0], args)
            if c is not None:
                return [Out("ret", st, c)]
            c2 = Ctx()
            c2.eng, c2.fr, c2.line = self, cx.fr if cx else None, 0
            c2.rty = None
            c2.argtys = [None] * len(args)
            for ty in self.p.types:
                if ty["k"] == "fndef" and ty["fn"].get("key") == f.a[1] and f.a[1]:
                    r = ty["fn"]
                    break
            return self.invoke(c2, r, args, st)
        if f.op == "lam" and all(isinstance(r[2], Term) and not r[3] and not any(t.op == "lam" for t in subterms(r[2])) for r in f.a[0]):
            m = {T("bv", "x", i): self.devalue(st, a) for i, a in enumerate(args)}
            res = []
            for facts, kind, val, _ in sorted(f.a[0], key=repr):
                s = st.fork()
                good = True
                for k, w in sorted(facts, key=repr):
                    k = subst(k, m)
                    if k.op == "disc" and k.a[0].op == "adt":
                        n = I(k.a[0].a[1])
                        good = (w[1] is n) if w[0] == "=" else n not in w[1]
                    elif w[0] == "=":
                        good = assume(s.facts, k, w[1], True)
                    else:
                        good = all(assume(s.facts, k, c, False) for c in w[1])
                    if not good:
                        break
                if good:
                    res.append(Out(kind, s, subst(val, m) if kind == "ret" else T("why", "panic", "closure")))
            return res
        return [Out("ret", st, T("callv", f, *args))]

    def ctor(self, path, args):
        p = norm_path(path)
        if "::" not in p:
            return None
        en, v = p.rsplit("::", 1)
        info = self.p.adts.get(en)
        if info:
            for i, x in enumerate(info["vs"]):
                if x[0] == v and len(x[2]) == len(args):
                    return T("adt", en, i, *args)
        info = self.p.adts.get(p)
        if info and info["kind"] == "struct" and len(info["vs"][0][2]) == len(args):
            return T("adt", p, 0, *args)
        return None

    def call_clo(self, st, fn, self_, args, cx):
        if fn.key in self.stack or len(self.stack) >= self.maxdepth:
            return self.opaque_call(cx, fn.npath, [self_] + list(args), st)
        # closure bodies take the arguments untupled (self, a, b, ...)
        a = [self_] + list(args)
        if fn.loops is None:
            analyse_cfg(fn)
        self.analysed.add(fn.path)
        fr = Frame()
        self.nfid += 1
        fr.fn, fr.id, fr.eng = fn, self.nfid, self
        for i, v in enumerate(a[:fn.nargs]):
            st.store[("L", fr.id, i + 1)] = v
        self.stack.append(fn.key)
        try:
            outs = self.go(fr, 0, [st], None)
        finally:
            self.stack.pop()
        for o in outs:
            if o.kind == "ret":
                o.val = o.st.store.get(("L", fr.id, 0), UNIT)
            o.st.store = {k: v for k, v in o.st.store.items() if not (k[0] == "L" and k[1] == fr.id)}
        return self.merge_outs(outs)

    # ------- streams (iterators)
    def stream(self, v):
        if v.op == "stream":
            return v
        if v.op == "collect" and v.a[2] is T("ident"):
            v = v.a[1]
        if v.op == "adt" and v.a[0].endswith("ops::Range"):
            return T("stream", T("range", v.a[2], v.a[3]))
        if v.op == "adt" and v.a[0] in (OPT,):
            return T("stream", T("arr", *v.a[2:]))
        return T("stream", v)

    def elem(self, st, src):
        k = sum(1 for s in st.loops if s is src)
        return T("elem", src, k)

    def run_stages(self, st, stream, x):
        """pushes element x through the adapter stages: [Out(kind ret|skip|panic, st, val)]"""
        cur = [Out("ret", st, x)]
        lossy = False
        for stg in stream.a[1:]:
            nxt = []
            kind, fn = stg.op, (stg.a[0] if stg.a else None)
            if kind in ("filter", "filter_map", "flatten"):
                lossy = True
            for o in cur:
                if o.kind != "ret":
                    nxt.append(o)
                    continue
                if kind == "map":
                    nxt += self.call_value(o.st, fn, [o.val], None)
                elif kind == "filter":
                    for r in self.call_value(o.st, fn, [o.val], None):
                        if r.kind != "ret":
                            nxt.append(r)
                            continue
                        for s, b in split(r.st, r.val):
                            nxt.append(Out("ret" if b else "skip", s, o.val))
                elif kind == "filter_map":
                    for r in self.call_value(o.st, fn, [o.val], None):
                        if r.kind != "ret":
                            nxt.append(r)
                            continue
                        for s, vi in self.opt_split(r.st, r.val):
                            nxt.append(Out("ret", s, self.getf(s, r.val, 1, 0)) if vi == 1 else Out("skip", s))
                elif kind == "flatten":
                    ok = 0 if fn is S("result") else 1
                    for s, vi in self.opt_split(o.st, o.val):
                        nxt.append(Out("ret", s, self.getf(s, o.val, ok, 0)) if vi == ok else Out("skip", s))
                elif kind == "seq":
                    if o.val.op == "stream" and len(o.val.a) > 1:
                        nxt += models.collect_vec(types.SimpleNamespace(eng=self), o.st, o.val)
                    else:
                        nxt.append(Out("ret", o.st, o.val.a[0] if o.val.op == "stream" else o.val))
                elif kind == "zipped":
                    b = stream.a[0]
                    nxt.append(Out("ret", o.st, tup(models.element_of(fn, b, o.val), models.element_of(stg.a[1], b, o.val))))
                elif kind == "enumerate":
                    nxt.append(Out("ret", o.st, tup(T("pos", o.val if lossy else x), o.val)))
                elif kind == "inspect":
                    for r in self.call_value(o.st, fn, [o.val], None):
                        nxt.append(Out(r.kind, r.st, o.val if r.kind == "ret" else r.val))
                else:
                    nxt.append(Out("ret", o.st, T("unk", "stage", kind)))
            cur = nxt
        return cur

    def opt_split(self, st, v, n=2):
        """splits on the variant of an Option/Result-like value: [(state, variant)]"""
        if v.op == "adt":
            return [(st, v.a[1])]
        NV[v] = n
        key = T("disc", v)
        out = []
        for i in range(n):
            s = st.fork()
            if assume(s.facts, key, I(i), True):
                out.append((s, i))
        return out

    def delta(self, base, s):
        return frozenset((k, v) for k, v in s.facts.items() if base.facts.get(k) != v)

    def rows(self, st, stream, fn=None):
        """One generalised element through the stream (and then through fn): list of (delta, kind, val, state)."""
        src = stream.a[0]
        s0 = st.fork()
        x = self.elem(st, src)
        s0.loops = st.loops + (src,)
        outs = self.run_stages(s0, stream, x)
        if fn is not None:
            nxt = []
            for o in outs:
                if o.kind == "ret":
                    nxt += self.call_value(o.st, fn, [o.val], None)
                else:
                    nxt.append(o)
            outs = nxt
        res = []
        groups = {}
        for o in outs:
            v = self.devalue(o.st, o.val) if o.kind == "ret" else None
            groups.setdefault((o.kind, v, o.st.eff), []).append(o)
        for (kind, v, eff), os_ in groups.items():
            for f in merge_facts([o.st.facts for o in os_]):
                s = St(dict(os_[0].st.store), f, eff, st.loops)
                res.append((self.delta(st, s), kind, v, s))
        return x, res

    def changed_store(self, st, s):
        return [k for k, v in s.store.items() if k in st.store and st.store[k] is not v]

    def unroll_list(self, st, stream):
        """concrete element list when the source is a literal array (small)."""
        src = stream.a[0]
        if src.op == "arr" and len(src.a) <= 24:
            return list(src.a)
        return None

    def materialise(self, st, stream):
        """evaluates a stream over a literal array: [(state, [values])] or panics (Out)."""
        items = self.unroll_list(st, stream)
        if items is None:
            return None
        cur = [(st, [])]
        bad = []
        for n, x in enumerate(items):
            nxt = []
            for s, vs in cur:
                for o in self.run_stages(s, stream, x):
                    if o.kind == "ret":
                        nxt.append((o.st, vs + [subst(o.val, {T("pos", x): I(n)})]))
                    elif o.kind == "skip":
                        nxt.append((o.st, vs))
                    else:
                        bad.append(o)
            cur = nxt
            if len(cur) > 64:
                return None
        return cur, bad

    def tbl_any(self, src, conds):
        conds = frozenset(conds)
        if not conds:
            return FALSE
        if len(conds) == 1 and len(next(iter(conds))) == 1:
            # some element equals y: membership
            (k, w), = next(iter(conds))
            e = T("elem", src, "x")
            if k.op == "eq" and w == ("=", TRUE):
                for a, b in (k.a, k.a[::-1]):
                    if a.op == "disc" and b.op == "disc":
                        a, b = a.a[0], b.a[0]
                    if a is e and e not in subterms(b):
                        return T("call", "set_contains", src, b)
        return T("any", src, conds)

    def add_any(self, st, src, conds, val):
        """assume any(src, conds) == val; returns feasibility."""
        t = self.tbl_any(src, conds)
        if t.op == "bool":
            return t.a[0] == val
        if conds and frozenset() in conds:
            # unconditional: equivalent to non-emptiness
            return assume(st.facts, T("len", src), I(0), not val)
        return assume(st.facts, t, TRUE, val)

    def found(self, src, conds):
        if frozenset() in conds and len(conds) == 1:
            return T("idx", src, I(0))
        return T("found", src, frozenset(conds))

    def with_found(self, st, src, x, conds, delta):
        """state in which the first element satisfying conds exists and meets `delta`."""
        s = st.fork()
        if not self.add_any(s, src, conds, True):
            return None, None
        fnd = self.found(src, conds)
        m = {x: fnd}
        for k, v in delta:
            k2 = subst(k, m)
            if k.op == "disc" and k.a[0] in NV:
                NV[k2.a[0]] = NV[k.a[0]]
            if v[0] == "=":
                if not assume(s.facts, k2, v[1], True):
                    return None, None
            else:
                for c in v[1]:
                    if not assume(s.facts, k2, c, False):
                        return None, None
        return s, m

    def conds_of(self, rows, pred):
        fs = [dict(d) for d, kind, v, s in rows if pred(kind, v)]
        return frozenset(frozenset(f.items()) for f in merge_facts(fs)) if fs else frozenset()

    def table(self, rows):
        """canonical emission table {(facts, value)} of the emitting rows."""
        g = {}
        for d, kind, v, s in rows:
            if kind == "ret":
                g.setdefault(v, []).append(dict(d))
        out = set()
        for v, fs in g.items():
            for f in merge_facts(fs):
                out.add((frozenset(f.items()), v))
        return frozenset(out)

    def stream_coll(self, st, stream):
        """the sequence term denoted by a stream"""
        src = stream.a[0]
        if len(stream.a) == 1:
            return src
        m = self.materialise(st.fork(), stream)
        if m is not None and len(m[0]) == 1 and not m[1]:
            return T("arr", *m[0][0][1])
        x, rows = self.rows(st, stream)
        return self.mkcollect("Vec", src, x, rows)

    ORDERED = ("Vec", "slice", "String")

    def mkcollect(self, kind, src, x, rows):
        tb = self.table(rows)
        total = kind == "Vec" and all(k != "skip" for d, k, v, s in rows)
        if kind == "Vec" and tb == frozenset([(frozenset(), x)]):
            return src if src.op not in ("set", "map") else T("collect", kind, src, T("ident"))
        # normalise the element name (depth-independent)
        x0 = T("elem", src, "x")
        if kind in ("Vec", "Set") and src.op == "collect" and src.a[0] == "Vec" and len(src.a[2]) >= 1 and not isinstance(src.a[2], Term):
            # fuse collect(collect(S)): one emission per element
            out = set()
            okf = True
            inner_x = T("elem", src.a[1], "x")
            for d, v in src.a[2]:
                for d2, v2 in tb:
                    f = dict(d)
                    for k, w in d2:
                        k2 = subst(k, {x: v})
                        if k.op == "disc" and k.a[0] in NV:
                            NV[k2.a[0]] = NV[k.a[0]]
                        if w[0] == "=":
                            if not assume(f, k2, w[1], True):
                                f = None
                                break
                        else:
                            for c in w[1]:
                                if not assume(f, k2, c, False):
                                    f = None
                                    break
                            if f is None:
                                break
                    if f is not None:
                        out.add((frozenset(f.items()), subst(v2, {x: v})))
            g = {}
            for d, v in out:
                g.setdefault(v, []).append(dict(d))
            fin = frozenset((frozenset(f.items()), v) for v, fs in g.items() for f in merge_facts(fs))
            if kind == "Vec" and fin == frozenset([(frozenset(), inner_x)]):
                return src.a[1]
            r = T("collect", kind, src.a[1], fin)
            if total and src in TOTAL:
                TOTAL[r] = True
            return r
        tb2 = self.rename_elem(tb, x, x0)
        r = T("collect", kind, src, tb2)
        if total:
            TOTAL[r] = True
        return r

    def rename_elem(self, tb, x, x0):
        r = subst(tb, {x: x0})
        for t in subterms(tb):
            if t in NV:
                t2 = subst(t, {x: x0})
                NV[t2] = NV[t]
        return r

    # ------- loops
    def do_loop(self, fr, h, st):
        fn = fr.fn
        body = fn.loops[h]
        live = fn.live.get(h, set())
        for k in [k for k in st.store if k[0] == "L" and k[1] == fr.id and k[2] not in live and k[2] not in fn.addr]:
            del st.store[k]
        entry = st
        mod = {}
        keys = list(st.store)
        loopid = len(st.loops)
        marker = T("loop", fn.npath, h)
        evs = None
        if any(v.op == "stream" and v.a[0].op == "arr" and len(v.a[0].a) <= 24 for v in st.store.values()) or \
                any(v.op == "arr" and 0 < len(v.a) <= 24 for k, v in st.store.items() if k[0] == "L" and k[1] == fr.id):
            r = self.peel_loop(fr, h, st, body)
            if r is not None:
                return r
        # a literal array driven loop is unrolled: the stream is consumed concretely
        for it in range(12):
            s0 = entry.fork()
            for loc in mod:
                s0.store[loc] = mod[loc]
            s0.loops = entry.loops + (marker,)
            base_eff = s0.eff
            evs = self.go(fr, h, [s0.fork()], (h, body))
            changed = False
            for o in evs:
                if o.kind != "back":
                    continue
                for loc, v in o.st.store.items():
                    if loc not in s0.store:
                        if loc[0] == "L" and loc[1] == fr.id and loc[2] not in live:
                            continue
                        if loc[0] == "L" and loc[1] == fr.id:
                            s_init = T("uninit")
                            mod[loc] = T("lv", fn.npath, h, str(loc[0]) + str(loc[2]))
                            entry.store[loc] = s_init
                            changed = True
                        continue
                    if s0.store[loc] is not v and loc not in mod:
                        mod[loc] = T("lv", fn.npath, h, "%s%s" % (loc[0], loc[2] if loc[0] == "L" else len(mod)))
                        changed = True
            if not changed:
                break
        else:
            raise GiveUp("loop generalisation in %s" % fn.path)
        return self.close_loop(fr, h, entry, mod, evs, marker)

    def peel_loop(self, fr, h, st, body):
        """concrete unrolling of a loop over a literal sequence; None when it does not terminate quickly"""
        cur = [st.fork()]
        res = []
        steps0 = self.steps
        for it in range(26):
            for s in cur:
                s.loops = st.loops + (T("peel"),)
            evs = self.go(fr, h, cur, (h, body))
            cur = []
            for o in evs:
                if o.kind == "back":
                    cur.append(o.st)
                    # an abstract (non literal) iteration was involved
                    if any(k.op == "exh" and k not in st.facts for k in o.st.facts):
                        self.steps = steps0
                        return None
                else:
                    o.st.loops = st.loops
                    res.append(o)
            cur = self.merge_states(fr, h, cur) if cur else []
            if not cur:
                return res
            if len(cur) > 40 or it == 3 and not any(x.op == "stream" and x.a[0].op == "arr" for s in cur for x in s.store.values()):
                break
        self.steps = steps0
        return None

    def close_loop(self, fr, h, entry, mod, evs, marker):
        backs, exits, others = [], [], []
        srcs = set()
        for o in evs:
            for k in list(o.st.facts):
                if k.op == "exh" and k.a[1] is marker:
                    srcs.add(k.a[0])
            if o.kind == "back":
                backs.append(o)
            elif o.kind == "exit":
                exits.append(o)
            else:
                others.append(o)
        src = next(iter(srcs)) if len(srcs) == 1 else None
        exh = T("exh", src, marker) if src is not None else None
        n0 = len(entry.eff)
        x = T("elem", src, sum(1 for s in entry.loops if s is src)) if src is not None else None

        def dl(s):
            return frozenset((k, v) for k, v in s.facts.items() if entry.facts.get(k) != v and k is not exh)

        def clean(s):
            s.loops = entry.loops
            if exh is not None:
                s.facts.pop(exh, None)
            return s
        # summaries of the modified locations
        m = {}
        x0 = T("elem", src, "x") if src is not None else None
        lvs = set(mod.values())
        for loc, lv in mod.items():
            init = entry.store.get(loc, T("uninit"))
            m[lv] = self.summarise(entry, src, x, x0, init, lv, loc, backs, dl, lvs)
        if src is not None and any(t.op == "fold" for t in m.values()):
            # the whole transition of the loop, for the checks that follow its first steps
            one = ({lv: entry.store.get(loc, T("uninit")) for loc, lv in mod.items()},
                   [(self.rename_elem(dl(o.st), x, x0), {lv: self.rename_elem((o.st.store.get(loc, lv),), x, x0)[0] for loc, lv in mod.items()})
                    for o in backs])
            for lv in lvs:
                STEPS[lv] = one
        loopeff = []
        if any(len(o.st.eff) > n0 for o in backs):
            rows = frozenset((self.strip_lv(dl(o.st), lvs), o.st.eff[n0:]) for o in backs)
            loopeff = [T("loopeff", src if src is not None else marker, self.rename_elem(rows, x, x0) if x is not None else rows)]
        res = []
        early = []
        for o in exits + others:
            e = o.st.facts.get(exh) if exh is not None else None
            if exh is not None and e and e[1] is TRUE:
                s = clean(o.st)
                res.append((o, s, False))
            elif exh is not None and e and e[1] is FALSE:
                early.append(o)
                res.append((o, clean(o.st), True))
            else:
                res.append((o, clean(o.st), None))
        out = []
        conds = frozenset()
        if early:
            fs = [dict(dl(o.st)) for o in early]
            conds = frozenset(frozenset(f.items()) for f in merge_facts(fs))
            if x is not None:
                conds = self.rename_elem(conds, x, x0)
        for o, s, is_early in res:
            d = dl(s)
            eff_it = s.eff[n0:]
            fm = dict(m)
            if is_early is True:
                fm = {lv: T("partial", t) for lv, t in m.items()}
                fnd = T("idx", src, I(0)) if conds == frozenset([frozenset()]) else T("found", src, conds)
                fm[x] = fnd
            memo = {}
            store = {}
            for loc, v in s.store.items():
                store[loc] = subst(v, fm, memo)
            for loc, lv in mod.items():
                if loc not in store and loc[0] != "L":
                    store[loc] = fm[lv]
            facts = dict(entry.facts)
            feas = True
            if is_early is not None and (conds or is_early):
                tmp = St({}, facts)
                if conds == frozenset([frozenset()]):
                    feas = assume(facts, T("len", src), I(0), not is_early)
                else:
                    feas = assume(facts, T("any", src, conds), TRUE, is_early)
            for k, v in d:
                if not feas:
                    break
                k2 = subst(k, fm, memo)
                if k.op == "disc" and k.a[0] in NV:
                    NV[k2.a[0]] = NV[k.a[0]]
                for c, pos in ([(v[1], True)] if v[0] == "=" else [(c, False) for c in v[1]]):
                    if not assume(facts, k2, c, pos):
                        feas = False
                        break
            if not feas:
                continue
            eff = entry.eff + tuple(loopeff) + tuple(subst(e, fm, memo) for e in eff_it)
            s2 = St(store, facts, eff, entry.loops)
            val = o.val
            if isinstance(val, Term):
                val = subst(val, fm, memo)
            out.append(Out(o.kind, s2, val))
        return out

    def strip_lv(self, d, lvs):
        return d

    def summarise(self, entry, src, x, x0, init, lv, loc, backs, dl, lvs):
        rows = []
        kind = None
        for o in backs:
            v = o.st.store.get(loc, lv)
            d = dl(o.st)
            if v is lv:
                rows.append((d, "same", ()))
                continue
            if v.op == "cat" and v.a and v.a[0] is T("many", lv) and not any(contains(p, lv) for p in v.a[1:]):
                rows.append((d, "cat", v.a[1:]))
            elif v.op == "fmt" and v.a and v.a[0] in (T("sv", lv),) and not any(contains(p, lv) for p in v.a[1:]):
                rows.append((d, "fmt", v.a[1:]))
            elif v.op == "ins" and v.a[0] is lv:
                rows.append((d, "ins", (v.a[1:],)))
            else:
                rows.append((d, "other", (v,)))
        rows = [r2 for r in rows for r2 in self.unalt(r)]
        kinds = {r[1] for r in rows} - {"same"}
        if src is None or not rows:
            if not kinds:
                return init
            return T("fold", init, src if src is not None else T("noiter"), lv, frozenset((r[0], r[1], r[2]) for r in rows))
        if not kinds:
            return init
        if len(kinds) == 1 and "other" not in kinds:
            kind = kinds.pop()
            clean_rows = [(d, k, p) for d, k, p in rows]
            if not any(contains(t, l) for d, k, p in rows for t in (d, p) for l in lvs):
                if kind == "cat":
                    simple = all(len(p) <= 1 and all(q.op == "one" for q in p) for d, k, p in rows)
                    if simple:
                        rs = [(d, "ret" if p else "skip", p[0].a[0] if p else None, None) for d, k, p in rows]
                        coll = self.mkcollect("Vec", src, x, rs)
                    else:
                        g = {}
                        for d, k, p in rows:
                            if p:
                                g.setdefault(p, []).append(dict(d))
                        tb = frozenset((frozenset(f.items()), p) for p, fs in g.items() for f in merge_facts(fs))
                        coll = T("flatcollect", src, self.rename_elem(tb, x, x0))
                    return cat(init if init.op in ("arr", "cat") else T("cat", T("many", init)), [T("many", coll)])
                if kind == "fmt":
                    g = {}
                    for d, k, p in rows:
                        if p:
                            g.setdefault(p, []).append(dict(d))
                    tb = frozenset((frozenset(f.items()), p) for p, fs in g.items() for f in merge_facts(fs))
                    return fmt([T("sv", init), T("strloop", src, self.rename_elem(tb, x, x0))])
                if kind == "ins":
                    g = {}
                    for d, k, p in rows:
                        if p:
                            g.setdefault(p[0], []).append(dict(d))
                    tb = frozenset((frozenset(f.items()), tup(*p)) for p, fs in g.items() for f in merge_facts(fs))
                    base = T("collect", "Map" if any(len(p) > 1 for p in g) else "Set", src, self.rename_elem(tb, x, x0))
                    if init.op in ("emptymap",):
                        return base
                    return T("extend", init, base)
        tb = frozenset((r[0], r[1], r[2]) for r in rows)
        return T("fold", init, src, lv, self.rename_elem(tb, x, x0))

    def unalt(self, row):
        """A row that pushes joined pieces, as one row per alternative."""
        d, k, p = row
        if k != "cat":
            return [row]
        for i, q in enumerate(p):
            if q.op == "one" and q.a[0].op == "alt" and all(isinstance(ps, tuple) for _, ps in q.a[0].a[0]):
                break
        else:
            return [row]
        if i + 1 < len(p) and len(p) > 3 or len(q.a[0].a[0]) > 4:
            return [row]
        res = []
        for e, ps in q.a[0].a[0]:
            f = dict(d)
            if all(assume(f, t, c, pos) for t, v in e for c, pos in ([(v[1], True)] if v[0] == "=" else [(c, False) for c in v[1]])):
                p2 = tuple(x for x in tuple(p[:i]) + ps + tuple(p[i + 1:]) if not (x.op == "one" and x.a[0].op == "txt" and x.a[0].a[0] is S("")))
                res += self.unalt((frozenset(f.items()), "cat" if p2 else "same", p2))
        return res

    def in_loop(self, st, loc):
        return bool(st.loops)

    # ------- entry
    def summary(self, fn, args=None, st=None):
        """Decision table of a root function: [Out]."""
        st = st or St()
        if args is None:
            args = []
            for i in range(fn.nargs):
                ty = self.p.types[fn.locals[i + 1]]
                p = T("param", self.argname(fn, i + 1))
                if ty["k"] == "ref" and ty["mut"]:
                    loc = ("A", i)
                    st.store[loc] = p
                    p = T("mref", loc, ())
                args.append(p)
        return self.call_fn(fn, args, st)

    def argname(self, fn, i):
        """a parameter by its position: renaming it changes nothing"""
        names = [next((nm for nm, pl in fn.names if pl[0] == j and not pl[1]), "arg%d" % j) for j in range(1, fn.nargs + 1)]
        known = PARAMS.get(fn.npath)
        if known and len(known) == len(names):
            tys = [self.p.types[t]["s"] for t in fn.locals[1:fn.nargs + 1]]
            if sorted(x for x, _ in known) != sorted(names) or tys == [t for _, t in known]:
                return known[i - 1][0]
        return names[i - 1]


PARAMS = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "params.json")))

import models  # noqa: E402  (registers MODELS)
