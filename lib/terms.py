"""Herbrand terms: the abstract values of the value-flow analysis (hash-consed, immutable)."""


class Term:
    __slots__ = ("op", "a", "h")

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.h

    def __reduce__(self):
        return (T, (self.op,) + self.a)


_TAB = {}


def T(op, *a):
    k = (op, a)
    t = _TAB.get(k)
    if t is None:
        t = Term()
        t.op = op
        t.a = a
        t.h = hash(k)
        _TAB[k] = t
    return t


def I(n):
    return T("int", int(n))


def B(b):
    return T("bool", bool(b))


def S(s):
    return T("str", s)


TRUE, FALSE = B(True), B(False)
UNIT = T("tup")
OPT, RES = "std::option::Option", "std::result::Result"
NONE = T("adt", OPT, 0)


def some(x):
    return T("adt", OPT, 1, x)


def ok(x):
    return T("adt", RES, 0, x)


def err(x):
    return T("adt", RES, 1, x)


def tup(*x):
    return T("tup", *x)


CONST = ("int", "bool", "str", "float", "char", "bytes")


def is_const(t):
    return t.op in CONST


def lit(t):
    return t.a[0]


def fmt(pieces):
    """Canonical string concatenation: pieces are str Terms or ('disp'|'dbg'|..., x, spec)."""
    out = []
    for p in pieces:
        if p.op == "sv":
            x = p.a[0]
            sub = list(x.a) if x.op == "fmt" else [x] if x.op == "str" else [p]
        elif p.op == "disp" and (len(p.a) == 1):
            x = p.a[0]
            if x.op == "fmt":
                sub = list(x.a)
            elif x.op == "str":
                sub = [x]
            elif x.op == "char":
                sub = [S(chr(x.a[0]))]
            elif x.op == "int":
                sub = [S(str(x.a[0]))]
            else:
                sub = [p]
        else:
            sub = [p]
        for q in sub:
            if q.op == "str":
                if q.a[0] == "":
                    continue
                if out and out[-1].op == "str":
                    out[-1] = S(out[-1].a[0] + q.a[0])
                    continue
            out.append(q)
    if not out:
        return S("")
    if len(out) == 1 and out[0].op == "str":
        return out[0]
    if len(out) == 1 and out[0].op == "sv":
        return out[0].a[0]
    return T("fmt", *out)


def cat(base, parts):
    """Canonical sequence concatenation; parts: ('one',x) | ('many',coll)."""
    ps = []
    if base.op == "cat":
        ps = list(base.a)
    elif base.op == "arr":
        ps = [T("one", x) for x in base.a]
    else:
        ps = [T("many", base)]
    for p in parts:
        if p.op == "many":
            c = p.a[0]
            if c.op == "arr":
                ps.extend(T("one", x) for x in c.a)
                continue
            if c.op == "cat":
                ps.extend(c.a)
                continue
        ps.append(p)
    if all(p.op == "one" for p in ps):
        return T("arr", *[p.a[0] for p in ps])
    if len(ps) == 1:
        return ps[0].a[0]
    return T("cat", *ps)


RENORM = {}  # op -> smart constructor applied when a substitution rebuilds a term (filled by the engine)
ATTRS = []  # side tables (dicts keyed by Term) whose entries survive substitution


def subst(t, m, memo=None):
    """Replaces the terms in m (a dict) inside t."""
    if memo is None:
        memo = {}
    return _sub(t, m, memo)


def _sub(t, m, memo):
    if isinstance(t, Term):
        r = m.get(t)
        if r is not None:
            return r
        r = memo.get(t)
        if r is not None:
            return r
        na = tuple(_sub(x, m, memo) if isinstance(x, (Term, tuple, frozenset)) else x for x in t.a)
        if all(x is y for x, y in zip(na, t.a)):
            r = t
        elif t.op == "fmt":
            r = fmt(na)
        elif t.op == "cat":
            r = cat(T("arr"), na)
        elif t.op == "fld" and na[0].op == "adt" and na[0].a[1] == na[1] and 2 + na[2] < len(na[0].a):
            r = na[0].a[2 + na[2]]
        elif t.op == "fld" and na[0].op == "tup" and na[2] < len(na[0].a):
            r = na[0].a[na[2]]
        elif t.op == "disc" and na[0].op == "adt":
            r = I(na[0].a[1])
        elif t.op in RENORM:
            r = RENORM[t.op](*na)
        else:
            r = T(t.op, *na)
        if r is not t:
            for d in ATTRS:
                if t in d and r not in d:
                    d[r] = d[t]
        memo[t] = r
        return r
    if isinstance(t, tuple):
        n = tuple(_sub(x, m, memo) if isinstance(x, (Term, tuple, frozenset)) else x for x in t)
        return t if all(x is y for x, y in zip(n, t)) else n
    if isinstance(t, frozenset):
        n = frozenset(_sub(x, m, memo) if isinstance(x, (Term, tuple, frozenset)) else x for x in t)
        return t if n == t else n
    return t


def subterms(t, seen=None):
    if seen is None:
        seen = set()
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, Term):
            if x in seen:
                continue
            seen.add(x)
            yield x
            st.extend(y for y in x.a if isinstance(y, (Term, tuple, frozenset)))
        else:
            st.extend(y for y in x if isinstance(y, (Term, tuple, frozenset)))


def contains(t, sub):
    return any(x is sub for x in subterms(t))


ADTS = {}  # filled by the program loader: name -> info


def _short(n):
    return n.rsplit("::", 1)[-1]


def show(t, d=0):
    if isinstance(t, frozenset):
        return "{" + " | ".join(sorted(show(x, d + 1) for x in t)) + "}"
    if isinstance(t, tuple):
        return "(" + ", ".join(show(x, d + 1) for x in t) + ")"
    if not isinstance(t, Term):
        return str(t)
    if d > 30:
        return "…"
    o, a = t.op, t.a
    if o == "int":
        return str(a[0])
    if o == "bool":
        return str(a[0]).lower()
    if o == "str":
        return repr(a[0])
    if o in ("float", "char"):
        return str(a[0])
    if o == "adt":
        info = ADTS.get(a[0])
        nm = _short(a[0])
        fs = a[2:]
        if info:
            v = info["vs"][a[1]]
            nm = v[0] if info["kind"] == "enum" else nm
            if fs and not v[2][0].isdigit():
                return "%s{%s}" % (nm, ", ".join("%s: %s" % (n, show(x, d + 1)) for n, x in zip(v[2], fs)))
        return nm + ("(%s)" % ", ".join(show(x, d + 1) for x in fs) if fs else "")
    if o == "tup":
        return "(" + ", ".join(show(x, d + 1) for x in a) + ")"
    if o == "arr":
        return "[" + ", ".join(show(x, d + 1) for x in a) + "]"
    if o == "fld":
        return "%s.%d.%d" % (show(a[0], d + 1), a[1], a[2])
    if o == "call":
        return "%s(%s)" % ("::".join(a[0].split("::")[-2:]), ", ".join(show(x, d + 1) for x in a[1:]))
    if o == "param":
        return "$" + str(a[0])
    return "%s(%s)" % (o, ", ".join(show(x, d + 1) for x in a))
