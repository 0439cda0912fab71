"""The specification layer.

A property is stated as Python *decision procedures* over the same Herbrand terms the analysis computes.  For every
row (path condition F, outcome) of a function's value-flow table, the specification is executed under F: each
question it asks about the inputs is answered by F, and where F leaves it open both answers are followed (a finite
tree).  `same` then compares the expected with the computed outcome under the refined facts:

    True   the two denote the same value on every input meeting the facts      -> obligation discharged
    False  they differ in the interpreted vocabulary                           -> violation (function, row, clause)
    None   the code uses something the analysis does not interpret             -> undecided (reported, no alarm)
"""
import re
import engine, models  # noqa: F401
from engine import (NV, TOTAL, SETLIKE, assume, decide, fact_test, merge_facts, mkeq, mknot, mklt, mkbin, mklen, atom, split, St,
                    norm_path)
from terms import *

ANY = T("ANY")


def anyp(name):
    """A wildcard with a name (ANY value is accepted)."""
    return T("ANY", name)


class Infeasible(Exception):
    pass


class Fail(Exception):
    def __init__(self, val):
        self.val = val


class TooMany(Exception):
    pass


_ADTN = {}


def adt(name):
    """Resolves a short type name to the full path used in the tables."""
    r = _ADTN.get(name)
    if r is None:
        if name in ADTS:
            r = name
        else:
            c = [k for k in ADTS if k == name or k.endswith("::" + name)]
            if len(c) > 1:
                c2 = [k for k in c if k.startswith("subweight")] or c
                c = [min(c2, key=len)]
            if not c:
                raise KeyError("type not found: " + name)
            r = c[0]
        _ADTN[name] = r
    return r


def vix(name, variant):
    for i, v in enumerate(ADTS[adt(name)]["vs"]):
        if v[0] == variant:
            return i
    raise KeyError("%s::%s" % (name, variant))


def mk(name, variant=None, /, *fs, **kw):
    """Builds an ADT value: mk('Term','Mul',a,b) or mk('TermChange', old=.., new=..) (missing fields are ANY)."""
    n = adt(name)
    info = ADTS[n]
    i = vix(name, variant) if info["kind"] == "enum" else 0
    if info["kind"] != "enum" and variant is not None:
        fs = (variant,) + fs
    names = info["vs"][i][2]
    if kw:
        for k in kw:
            if k not in names:
                raise KeyError("field %s.%s" % (n, k))
        fs = tuple(kw.get(k, ANY) for k in names)
    return T("adt", n, i, *fs)


def P(n):
    return T("param", n)


def fld(x, v, i):
    if x.op == "adt" and x.a[1] == v:
        return x.a[2 + i]
    if x.op == "tup":
        return x.a[i]
    return T("fld", x, v, i)


def get(x, name, field, variant=None):
    """x.field where x has type `name` (variant for enums)."""
    n = adt(name)
    info = ADTS[n]
    v = vix(name, variant) if variant is not None else 0
    i = field if isinstance(field, int) else info["vs"][v][2].index(field)
    return fld(x, v, i)


def path(x, *steps):
    """path(x, ('Type','field'), ...)"""
    for s in steps:
        x = get(x, *s)
    return x


def call(name, *a):
    return T("call", name, *a)


def disc(x, n=None):
    if x.op == "adt":
        return I(x.a[1])
    if n and x not in NV:
        NV[x] = n
    return T("disc", x)


def consistent(f):
    """Do later facts contradict an earlier answer about the elements of a sequence?"""
    for k, w in f.items():
        if k.op == "any" and w[0] == "=":
            g = {a: b for a, b in f.items() if a is not k}
            r = fact_test(g, k, TRUE)
            if r is not None and r != (w[1] is TRUE):
                return False
    return True


class X:
    """Execution of a specification under a set of facts, forking at open questions."""
    MAXF = 400

    def __init__(self, facts, choices):
        self.f = facts
        self.choices = choices
        self.opts = []
        self.i = 0

    def choose(self, options):
        """options: list of (label, facts) feasible; returns label"""
        options = [o for o in options if consistent(o[1])]
        if not options:
            raise Infeasible()
        if len(options) == 1:
            self.f = options[0][1]
            return options[0][0]
        if self.i < len(self.choices):
            k = self.choices[self.i]
        else:
            k = 0
            self.choices = self.choices + [0]
        self.opts.append(len(options))
        self.i += 1
        self.f = options[k][1]
        return options[k][0]

    def is_(self, t):
        """Is the boolean term t true?"""
        r = decide(self.f, t)
        if r is not None:
            return r
        return self.choose([(b, s.facts) for s, b in split(St({}, self.f), t)])

    def variant(self, x, name):
        """Index of x's variant (type `name`)."""
        n = adt(name)
        vs = ADTS[n]["vs"]
        if x.op == "adt":
            return vs[x.a[1]][0]
        d = disc(x, len(vs))
        if x not in NV:
            NV[x] = len(vs)
        opts = []
        for i in range(len(vs)):
            f = dict(self.f)
            if assume(f, d, I(i), True):
                opts.append((i, f))
        return vs[self.choose(opts)][0]

    def isv(self, x, name, variant):
        v = vix(name, variant)
        if x.op == "adt":
            return x.a[1] == v
        n = len(ADTS[adt(name)]["vs"])
        if x not in NV:
            NV[x] = n
        d = T("disc", x)
        r = fact_test(self.f, d, I(v))
        if r is not None:
            return r
        opts = []
        for want in (True, False):
            f = dict(self.f)
            if assume(f, d, I(v), want):
                opts.append((want, f))
        return self.choose(opts)

    def opt(self, x):
        """x : Option -> payload or None"""
        if x.op == "adt":
            return x.a[2] if x.a[1] == 1 else None
        NV.setdefault(x, 2)
        opts = []
        for i in (0, 1):
            f = dict(self.f)
            if assume(f, T("disc", x), I(i), True):
                opts.append((i, f))
        return T("fld", x, 1, 0) if self.choose(opts) == 1 else None

    def res(self, x):
        """x : Result -> ('ok', v) or ('err', e)"""
        if x.op == "adt":
            return ("ok", x.a[2]) if x.a[1] == 0 else ("err", x.a[2])
        NV.setdefault(x, 2)
        opts = []
        for i in (0, 1):
            f = dict(self.f)
            if assume(f, T("disc", x), I(i), True):
                opts.append((i, f))
        return ("ok", T("fld", x, 0, 0)) if self.choose(opts) == 0 else ("err", T("fld", x, 1, 0))

    def eq(self, a, b):
        return self.is_(mkeq(a, b))

    def lt(self, a, b, unsigned=True):
        return self.is_(mklt(a, b, unsigned))

    def len0(self, x):
        return self.is_(mkeq(mklen(x), I(0)))

    # ---- sequences
    def sub(self, src, fn):
        """Tabulates fn over a generic element of src: [(delta facts, kind, value)]."""
        e = T("elem", src, "x")
        rows = []
        for f, kind, v in explore(lambda x: fn(x, e), self.f):
            d = {k: w for k, w in f.items() if self.f.get(k) != w}
            rows.append((d, kind, v))
        return e, rows

    def dnf(self, rows):
        return frozenset(frozenset(f.items()) for f in merge_facts([dict(d) for d in rows]))

    def anyt(self, src, conds):
        if not conds:
            return FALSE
        if frozenset() in conds:
            return mknot(mkeq(mklen(src), I(0)))
        return T("any", src, conds)

    def exists(self, src, pred):
        """boolean term: some element satisfies pred(x, e) -> bool"""
        e, rows = self.sub(src, pred)
        return self.anyt(src, self.dnf([d for d, k, v in rows if v is True]))

    def first(self, src, pred):
        """(True, first element satisfying pred) or (False, None); forks."""
        e, rows = self.sub(src, pred)
        conds = self.dnf([d for d, k, v in rows if v is True])
        if not self.is_(self.anyt(src, conds)):
            return None
        fnd = self.found(src, conds)
        if fnd.op == "found" and pred(self, fnd) is not True:
            raise Infeasible()
        return fnd

    def found(self, src, conds):
        """the first element meeting conds (one exists)"""
        if conds == frozenset([frozenset()]):
            return T("idx", src, I(0))
        for k in list(self.f):
            for t in subterms(k):
                if t.op == "found" and t.a[0] is src and t.a[1] != conds:
                    b = engine.outer_facts(self.f, src, conds | t.a[1])
                    if engine.dnf_implies(conds, t.a[1], b) and engine.dnf_implies(t.a[1], conds, b):
                        return t
        return T("found", src, conds)

    def foreach(self, src, fn, kind="Vec"):
        """collect over src: fn(x, e) returns a value, SKIP, or raises Fail (the first failure is the result)."""
        e, rows = self.sub(src, fn)
        bad = self.dnf([d for d, k, v in rows if k == "fail"])
        if bad and self.is_(self.anyt(src, bad)):
            fnd = self.found(src, bad)
            fn(self, fnd)  # raises Fail
            raise Infeasible()
        return ENG.mkcollect(kind, src, e, [(frozenset(d.items()), "skip" if v is SKIP else "ret", v, None)
                                            for d, k, v in rows if k != "fail"])


def flat(x, src, fn):
    """concatenation over src of the sequences fn(x, e) (or SKIP); a Fail is the result of the first failing element"""
    t = x.foreach(src, fn)
    if t.op == "arr":
        return t
    rows = t.a[2]
    if isinstance(rows, Term):
        rows = frozenset([(frozenset(), T("elem", src, "x"))])
    return T("flatcollect", t.a[1], frozenset((d, (T("many", v),)) for d, v in rows))


SKIP = T("SKIP")
ENG = object.__new__(engine.Eng)


def explore(fn, facts, limit=3000):
    """All (facts, kind, value) outcomes of the specification fn under facts."""
    stack = [[]]
    n = 0
    while stack:
        pre = stack.pop()
        x = X(dict(facts), list(pre))
        n += 1
        if n > limit:
            raise TooMany()
        try:
            v = fn(x)
            r = (x.f, "ret", v)
        except Fail as e:
            r = (x.f, "fail", e.val)
        except Infeasible:
            r = None
        for i in range(len(pre), len(x.opts)):
            for k in range(1, x.opts[i]):
                stack.append(x.choices[:i] + [k])
        if r is not None:
            yield r


# ---------------------------------------------------------------- comparison

# a part of a list, decided by position or by the elements before
PARTIAL = {"take", "skip", "step_by", "take_while", "skip_while", "map_while"}
OPAQUE = {"unk", "noiter", "lam?", "uninit", "partial", "strloop", "loopeff", "lv", "unkcall"}
INTERPRETED_CALLS = {"map_get", "str_trim", "str_trim_start", "str_trim_end", "str_trim_matches", "str_trim_start_matches", "str_trim_end_matches", "from_utf8_lossy", "env_var", "base10_digits", "trailing_punct", "rx_is_match", "Regex::new",
                     "str_ends_with", "str_starts_with", "str_replace", "rx_captures", "cap_name", "match_str", "regex", "exit_success", "exit_code",
                     "join", "iter_last", "iter_max", "iter_min", "from_utf8", "path_file_name", "path_file_stem", "path_extension", "path_parent", "path_strip_prefix", "path_is_relative", "path_is_absolute", "path_has_root", "rx_replace", "rx_replace_all", "std::io::Read::read_to_end", "std::io::Read::read_to_string",
                     "str_contains", "str_eq_ignore_ascii_case", "str_strip_prefix", "str_strip_suffix", "str_find", "str_rfind",
                     "str_to_lowercase", "str_to_uppercase", "str_to_ascii_lowercase", "str_to_ascii_uppercase"} | \
    {"parse<%s%s>" % (a, b) for a in "iu" for b in ("8", "16", "32", "64", "128", "size")}


def known_call(n):
    import anchors
    return n in anchors.ANCHORS or n in INTERPRETED_CALLS or n.startswith("syn::") or n.startswith("<syn::") or bool(WRAP.match(n))


WRAP = re.compile(r"std::num::[iu](\d+|size)::wrapping_")
_CLEAN = {}


def clean(t, extra=frozenset()):
    """Only interpreted vocabulary?"""
    if isinstance(t, Term):
        k = (t, extra)
        r = _CLEAN.get(k)
        if r is None:
            r = True
            for s in subterms(t):
                if s.op in OPAQUE and s not in extra:
                    r = False
                    break
                if s.op in ("call", "mutcall", "eff") and not known_call(s.a[0]) and s.a[0] not in extra:
                    r = False
                    break
            _CLEAN[k] = r
        return r
    return all(clean(x, extra) for x in t if isinstance(x, (Term, tuple, frozenset)))


def cleanfacts(f, extra=frozenset()):
    extra = frozenset(extra)
    return all(clean(k, extra) for k in f)


def simp(t, facts):
    """What is known of a set, a map or a list whose elements are written out."""
    if not isinstance(t, Term):
        return t
    m = {}
    for s in subterms(t):
        if s in m:
            continue
        r = None
        if s.op == "call" and s.a[0] in ("set_inserted", "set_contains", "map_get") and len(s.a) >= 3:
            c, hit, k = s.a[1], None, s.a[2]
            while c.op == "ins":
                q = engine.decide(facts, engine.mkeq(c.a[1], k))
                if q is None:
                    break
                if q:
                    hit = c
                    break
                c = c.a[0]
            if hit is not None or c.op == "emptymap":
                if s.a[0] == "map_get":
                    r = NONE if hit is None else some(hit.a[2]) if len(hit.a) > 2 else None
                else:
                    r = B((hit is not None) == (s.a[0] == "set_contains"))
        elif s.op == "last" and s.a[0].op == "cat":
            q = s.a[0].a[-1]
            if q.op == "one":
                r = q.a[0]
            elif fact_test(facts, mklen(q.a[0]), I(0)) is False:
                r = T("last", q.a[0])
        elif s.op == "last" and s.a[0].op == "arr" and s.a[0].a:
            r = s.a[0].a[-1]
        if r is not None and r is not s:
            m[s] = r
    if not m:
        return t
    r = subst(t, m)
    return simp(r, facts) if r is not t else t


def agreeing(facts, x, y):
    """No contradiction between the facts once equal terms are put for each other (and two elements of a set differ)"""
    m = {}
    for _ in range(6):
        cur = {subst(k, m): v for k, v in facts.items()} if m else facts
        new = next(((k.a[0], k.a[1]) for k, v in sorted(cur.items(), key=repr) if k.op == "eq" and v == ("=", TRUE)), None)
        if new is None:
            break
        a, b = sorted(new, key=lambda t: (is_const(t), -len(repr(t))))
        if contains(b, a):
            return False
        m = {k: subst(v, {a: b}) for k, v in m.items()}
        m[a] = b
    else:
        return False
    out = {}
    for k, v in facts.items():
        k2 = subst(k, m)
        if k2.op == "eq" and v == ("=", TRUE) and k2.a[0] is k2.a[1]:
            continue
        if k2.op == "lt" and {x, y} <= set(subterms(k2)):
            return False
        for c, pos in [(v[1], True)] if v[0] == "=" else [(c, False) for c in v[1]]:
            if is_const(k2):
                if (k2 is c) != pos:
                    return False
            elif not assume(out, k2, c, pos):
                return False
    # what is known of the two elements has to tell them apart, or leave that open
    px = {t for k in facts for t in subterms(k) if t.op == "fld" and t.a[0] is y}
    return not px or any(subst(t, m) is not subst(subst(t, {y: x}), m) for t in px)


def gens(t):
    """the generators of a set: collects over one source, single elements"""
    while t.op in ("toset", "rev", "dedup", "sorted", "sorted_by"):
        t = t.a[0]
    if t.op == "cat":
        out = []
        for p in t.a:
            g = [p] if p.op == "one" else gens(p.a[0]) if p.op == "many" else None
            if g is None:
                return None
            out += g
        return out
    if t.op == "arr":
        return [T("one", x) for x in t.a]
    if t.op == "union":
        a, b = gens(t.a[0]), gens(t.a[1])
        return None if a is None or b is None else a + b
    if t.op == "collect" and t.a[0] in ("Vec", "Set"):
        return [T("collect", "Vec", *t.a[1:])]
    if t.op in ("param", "fld", "call", "idx"):
        return [t]
    return None


class Cmp:
    def __init__(self, facts, extra=frozenset()):
        extra = frozenset(extra)
        self.f = facts
        self.extra = extra
        self.memo = {}
        self.why = None
        self.uf = {}
        for k, v in facts.items():
            if k.op == "eq" and v == ("=", TRUE):
                self.union(k.a[0], k.a[1])

    def root(self, t):
        while t in self.uf:
            t = self.uf[t]
        return t

    def union(self, a, b):
        a, b = self.root(a), self.root(b)
        if a is not b:
            self.uf[a] = b

    def norm(self, t):
        v = self.f.get(t)
        if v is not None and v[0] == "=":
            return v[1]
        if t.op in ("eq", "lt", "any", "not", "and", "or"):
            r = decide(self.f, t)
            if r is not None:
                return B(r)
        if t.op == "max" or t.op == "min":
            xs = [x for x in t.a]
            for i in range(len(xs)):
                for j in range(len(xs)):
                    if i != j and xs[i] is not None and xs[j] is not None:
                        r = fact_test(self.f, T("lt", xs[i], xs[j]), TRUE)
                        if r is not None:
                            xs[i if (t.op == "max") == r else j] = None
            ys = [x for x in xs if x is not None]
            if len(ys) == 1:
                return ys[0]
            if len(ys) < len(xs):
                return T(t.op, *ys)
        return t

    def same(self, e, a):
        if e is a or e.op == "ANY":
            return True
        k = (e, a)
        if k in self.memo:
            return self.memo[k]
        self.memo[k] = None
        r = self._same(e, a)
        self.memo[k] = r
        if r is not True and self.why is None:
            self.why = (e, a, r)
        return r

    def all(self, es, as_):
        r = True
        for e, a in zip(es, as_):
            s = self.same(e, a) if isinstance(e, Term) and isinstance(a, Term) else (True if e == a else None)
            if s is False:
                return False
            if s is None:
                r = None
        return r

    def ndiff(self, e, a):
        """verdict for structurally different terms"""
        return False if clean(e, self.extra) and clean(a, self.extra) else None

    def _same(self, e, a):
        if e.op == "OneOf":
            rs = [self.same(x, a) for x in e.a]
            return True if True in rs else (None if None in rs else False)
        if e.op == "Pred":
            return PREDS[e.a[0]](self, a)
        if a.op == "partial" and e.op != "partial":
            # a loop left early: what it would have gathered, without the elements after the one it stopped at
            b = a.a[0]
            if self.same(e, b) is True:
                return False if clean(b, self.extra) else None
            src = lambda t: t.a[1] if t.op in ("collect", "fold") else t.a[0] if t.op == "flatcollect" else None
            if e.op in ("collect", "flatcollect") and src(b) is not None and self.same(src(e), src(b)) is True and clean(b, self.extra | {"lv", "fold"}):
                return False  # whatever the loop has counted when it stops, the elements after it are missing
            return None
        e, a = self.norm(e), self.norm(a)
        if e is a:
            return True
        if e.op == "toset" and a.op != "toset" or a.op == "toset" and e.op != "toset":
            return self.sets(e, a)
        if e.op == "ANY":
            return True
        if self.uf and self.root(e) is self.root(a):
            return True
        # equal by facts?
        if e.op not in CONST and a.op not in CONST and e.op != "adt" and a.op != "adt":
            r = decide(self.f, mkeq(e, a))
            if r is True:
                return True
        if is_const(e) and is_const(a):
            return False
        # eta
        if e.op == "adt" and a.op != "adt":
            return self.eta(e, a)
        if a.op == "adt" and e.op != "adt":
            return self.eta(a, e, True)
        if e.op == "tup" and a.op != "tup" and a.op not in OPAQUE:
            return self.all(e.a, [fld(a, 0, i) for i in range(len(e.a))])
        if a.op == "tup" and e.op != "tup":
            return self.all([fld(e, 0, i) for i in range(len(a.a))], a.a)
        if e.op == "adt":
            if e.a[0] != a.a[0]:
                return self.ndiff(e, a)
            if e.a[1] != a.a[1]:
                return False
            return self.all(e.a[2:], a.a[2:])
        if e.op == a.op:
            if e.op in ("tup", "arr"):
                if len(e.a) != len(a.a):
                    return False
                return self.all(e.a, a.a)
            if e.op in ("call", "disp", "dbg", "sv", "fld", "disc", "op", "sat", "elem", "idx", "map_get", "not", "len", "pos",
                        "ins", "union", "toset", "max", "min", "cast", "lt", "eq", "one", "many", "rev", "dedup", "range",
                        "ovf", "and", "or", "iter_max_by", "param", "emptymap", "tomap", "isv"):
                if e.op == "param":
                    return False
                if e.op == "fld" and e.a[1:] != a.a[1:]:
                    return self.ndiff(e, a)
                if e.op == "call" and (e.a[0] != a.a[0] or len(e.a) != len(a.a)):
                    return self.ndiff(e, a)
                if e.op in ("op", "sat") and e.a[0] != a.a[0]:
                    return self.ndiff(e, a)
                if e.op in ("op", "sat", "max", "min", "eq", "union", "and", "or") and e.op not in ("lt",):
                    xs, ys = e.a, a.a
                    if e.op in ("op", "sat"):
                        if e.a[0] not in ("Add", "Mul", "BitAnd", "BitOr", "BitXor"):
                            r = self.all(xs[1:], ys[1:])
                            return True if r else self.ndiff(e, a)
                        xs, ys = xs[1:], ys[1:]
                    if len(xs) != len(ys):
                        return self.ndiff(e, a)
                    if self.perm(list(xs), list(ys)):
                        return True
                    return self.ndiff(e, a)
                if len(e.a) != len(a.a):
                    return self.ndiff(e, a)
                r = self.all(e.a, a.a)
                return True if r else self.ndiff(e, a) if r is False else None
            if e.op == "fmt":
                if len(e.a) == len(a.a):
                    r = self.all(e.a, a.a)
                    if r:
                        return True
                return self.ndiff(e, a)
            if e.op == "cat":
                if len(e.a) == len(a.a):
                    r = self.all(e.a, a.a)
                    if r:
                        return True
                return self.ndiff(e, a)
            if e.op == "any":
                if self.same(e.a[0], a.a[0]):
                    c, d = self.rebase(e.a[1], e.a[0], a.a[0]), a.a[1]
                    if engine.dnf_implies(c, d, self.f) and engine.dnf_implies(d, c, self.f):
                        return True
                return self.ndiff(e, a)
            if e.op == "found":
                if self.same(e.a[0], a.a[0]):
                    c, d = self.rebase(e.a[1], e.a[0], a.a[0]), a.a[1]
                    if engine.dnf_implies(c, d, self.f) and engine.dnf_implies(d, c, self.f):
                        return True
                return self.ndiff(e, a)
            if e.op == "flatcollect":
                if not self.same(e.a[0], a.a[0]):
                    return None
                f = lambda t: T("collect", "Vec", t.a[0], frozenset((d, cat(T("arr"), p)) for d, p in t.a[1]))
                return self.tables(f(e), f(a))
            if e.op == "collect":
                if e.a[0] != a.a[0]:
                    return self.ndiff(e, a) if {e.a[0], a.a[0]} <= {"Vec", "Set", "Map", "String"} else None
                s = self.same(e.a[1], a.a[1])
                if s:
                    return self.tables(e, a)
                if s is False and {e.a[1].op, a.a[1].op} & {"toset", "union"} and self.tables(e, a) is not None:
                    return False  # the same mapping of a set that lacks a source
                return None
            if e.op in ("fold", "sorted_by"):
                return self.generic(e, a)
        if a.op == "fold" and (e.op == "flatcollect" or e.op == "collect" and e.a[0] == "Vec") and self.same(e.a[-2], a.a[1]):
            return self.firststeps(e, a)
        return self.ndiff(e, a)

    def sets(self, e, a):
        """sets given by generators: equal piece by piece, or one side lacks a whole source"""
        ge, ga = gens(e), gens(a)
        if ge is None or ga is None:
            return None
        le, la = list(ge), list(ga)
        for x in ge:
            for y in la:
                if self.same(x, y) is True:
                    le.remove(x)
                    la.remove(y)
                    break
        if not le and not la:
            return True
        if le and la:
            return None
        rest, full = (le, ga) if le else (la, ge)
        roots = lambda t: {x for x in subterms(t) if x.op == "param"}
        for x in rest:
            if not clean(x, self.extra) or not roots(x):
                return None
            if all(roots(x) <= roots(y) for y in full if y.op != "one"):
                return None
        return False

    def perm(self, xs, ys):
        if not xs:
            return True
        for j, y in enumerate(ys):
            if self.same(xs[0], y):
                if self.perm(xs[1:], ys[:j] + ys[j + 1:]):
                    return True
        return False

    def eta(self, c, o, swap=False):
        """constructor c against opaque o"""
        n = len(ADTS.get(c.a[0], {"vs": ()})["vs"])
        if o.op in CONST:
            return False
        if n != 1:
            r = fact_test(self.f, T("disc", o), I(c.a[1]))
            if r is None or r is False:
                # o could be another variant
                return self.ndiff(c, o)
        fs = [fld(o, c.a[1], i) for i in range(len(c.a) - 2)]
        return self.all(fs, c.a[2:]) if swap else self.all(c.a[2:], fs)

    def rebase(self, tb, s1, s2):
        if s1 is s2:
            return tb
        return subst(tb, {T("elem", s1, "x"): T("elem", s2, "x")})

    def firststeps(self, e, a):
        """A loop that carries a state against a gathering of all elements. The loop is followed for one element, for two
        elements and, where the list is the caller's own, for the same element twice: any difference found there is one for
        a real list."""
        src, lv = a.a[1], a.a[2]
        if lv not in engine.STEPS or a.a[0] is not T("arr"):
            return None
        init, rows = engine.STEPS[lv]
        if len(rows) > 30:
            return None
        x, y = T("elem", src, "x"), T("elem", src, "first")
        t1 = self.rebase(e.a[-1], e.a[-2], src)
        if isinstance(t1, Term):
            t1 = frozenset([(frozenset(), x)])
        T1 = [(d, (T("one", v),) if e.op == "collect" else v) for d, v in sorted(t1, key=repr)]
        base = src
        while base.op == "fld":
            base = base.a[0]
        memo1 = {}

        def first(t):
            r = subst(t, {x: y}, memo1)
            for s in subterms(t):
                if s in engine.NV:
                    engine.NV[subst(s, {x: y}, memo1)] = engine.NV[s]
            return r
        rows1 = [(first(d), first(tuple(nv.items()))) for d, nv in rows]
        rows1 = [(d, dict(nv)) for d, nv in rows1]
        T1f = [(first(d), first(v)) for d, v in T1]

        def step(facts, state, rows):
            memo = {}
            for d, nv in rows:
                for k, w in d:
                    k2 = simp(subst(k, state, memo), facts)
                    for s in subterms(k):
                        if s in engine.NV:
                            engine.NV[subst(s, state, memo)] = engine.NV[s]
                    r = test_item(facts, k2, w)
                    if r is False:
                        break
                    if r is None:
                        return None, (k2, w)
                else:
                    return {l: simp(subst(v, state, memo), facts) for l, v in nv.items()}, None
            return None, None

        def expected(facts, T1):
            for d, v in T1:
                for k, w in d:
                    r = test_item(facts, k, w)
                    if r is False:
                        break
                    if r is None:
                        return None, (k, w)
                else:
                    return v, None
            return (), None

        def run(plan):
            budget = [400]

            def rec(facts, state, n, want):
                budget[0] -= 1
                if budget[0] < 0:
                    return None
                p, u = expected(facts, plan[n][1])
                if u is None:
                    st, u = step(facts, state, plan[n][0])
                    if u is None:
                        if st is None or any(contains(st[lv], l) for l in init):
                            return None
                        want = cat(want, p)
                        r = Cmp(facts, self.extra).same(want, st[lv])
                        if r is False:
                            if all(clean(t, self.extra) for t in [want, st[lv]] + list(facts)) and nonempty(facts, want, st[lv]) and agreeing(facts, x, y):
                                self.why = (want, st[lv], r)
                                return False
                            return None
                        return rec(facts, st, n + 1, want) if n + 1 < len(plan) else None
                k, w = u
                c = w[1] if w[0] == "=" else next((c for c in sorted(w[1], key=repr) if fact_test(facts, k, c) is None), None)
                if c is None:
                    return None
                for pos in (True, False):
                    f2 = dict(facts)
                    if assume(f2, k, c, pos) and rec(f2, state, n, want) is False:
                        return False
                return None
            return rec(dict(self.f), init, 0, T("arr"))

        def nonempty(facts, a, b):
            # parts that may be empty lists make two texts of parts equal
            parts = [q.a[0] for t in (a, b) for q in (t.a if t.op == "cat" else (T("many", t),)) if q.op == "many"]
            return all(p.op == "arr" or fact_test(facts, mklen(p), I(0)) is False or not any(k.op == "len" for k in facts) for p in parts)

        if base.op == "param" and run([(rows, T1), (rows, T1)]) is False:
            return False
        return run([(rows1, T1f), (rows, T1)])

    def generic(self, e, a):
        if e.op == "fold":
            if self.same(e.a[0], a.a[0]) and self.same(e.a[1], a.a[1]):
                m = {e.a[2]: a.a[2]}
                b1 = subst(self.rebase(e.a[3], e.a[1], a.a[1]), m)
                if b1 == a.a[3]:
                    return True
            return None
        if e.op == "sorted_by" and self.same(e.a[0], a.a[0]) and e.a[1:] == a.a[1:]:
            return True
        return None

    def tables(self, e, a):
        src = a.a[1]
        t1, t2 = self.rebase(e.a[2], e.a[1], src), a.a[2]
        x = T("elem", src, "x")
        if isinstance(t1, Term):
            t1 = frozenset([(frozenset(), x)])
        if isinstance(t2, Term):
            t2 = frozenset([(frozenset(), x)])
        if t1 == t2:
            return True
        infeas = [c for k, w in self.f.items() if k.op == "any" and w == ("=", FALSE) and self.same(k.a[0], src)
                  for c in self.rebase(k.a[1], k.a[0], src)]
        T1, T2 = sorted(t1, key=repr), sorted(t2, key=repr)
        budget = [4000]

        def pick(facts, rows):
            """(decided value | SKIP, None) or (None, undecided test)"""
            for d, v in rows:
                dec = True
                for k, w in d:
                    r = test_item(facts, k, w)
                    if r is False:
                        dec = False
                        break
                    if r is None:
                        dec = None
                        und = (k, w)
                        break
                if dec is None:
                    return None, und
                if dec:
                    return v, None
            return SKIP, None

        def rec(facts):
            budget[0] -= 1
            if budget[0] < 0:
                return None
            _, und = pick(facts, [(c, TRUE) for c in infeas])
            if und is None and _ is TRUE:
                return True
            v1, u1 = pick(facts, T1)
            v2, u2 = pick(facts, T2) if u1 is None else (None, None)
            u = u1 or u2
            if u is None:
                if v1 is SKIP and v2 is SKIP:
                    return True
                if v1 is SKIP or v2 is SKIP:
                    r = False if cleanfacts(facts, self.extra) else None
                    if self.why is None:
                        self.why = (v1, v2, r)
                else:
                    c2 = Cmp(facts, self.extra)
                    r = c2.same(v1, v2)
                    if not r and self.why is None:
                        self.why = c2.why
                    if r is False and not cleanfacts(facts, self.extra):
                        r = None
                if r is True or und is None:
                    return r
                u = und
            k, w = u
            out = True
            c = w[1] if w[0] == "=" else sorted(w[1], key=repr)[0]
            if w[0] == "!":
                # choose a constant of the set that is still open
                for c in sorted(w[1], key=repr):
                    if fact_test(facts, k, c) is None:
                        break
            for pos in (True, False):
                f2 = dict(facts)
                if assume(f2, k, c, pos):
                    r = rec(f2)
                    if r is False:
                        return False
                    if r is None:
                        out = None
            return out

        return rec(dict(self.f))


PREDS = {}


def pred(fn):
    """An expectation given as a predicate: fn(cmp, actual) -> True/False/None"""
    k = "p%d" % len(PREDS)
    PREDS[k] = fn
    return T("Pred", k)


def oneof(*xs):
    return T("OneOf", *xs)


def test_item(f, k, w):
    """is the fact item (k,w) implied (True) / contradicted (False) / open (None)?"""
    if w[0] == "=":
        return fact_test(f, k, w[1])
    r = True
    for c in w[1]:
        s = fact_test(f, k, c)
        if s is True:
            return False
        if s is None:
            r = None
    return r


# ---------------------------------------------------------------- obligations

class Clause:
    def __init__(self, name, verdict, fn, row, detail=""):
        self.name, self.verdict, self.fn, self.row, self.detail = name, verdict, fn, row, detail


def check_table(outs, fn, clause, spec, extra=frozenset(), proj=None, panics="violation"):
    extra = frozenset(extra)
    """Runs `spec(x) -> expected Term` (or raises Fail(err)) against every row; returns obligations."""
    obs = []
    for i, o in enumerate(outs):
        f0 = o.st.facts
        okf = cleanfacts(f0, extra)
        n = 0
        try:
            for f, kind, exp in explore(spec, f0):
                n += 1
                why = None
                if exp is SKIP:
                    continue
                if o.kind == "panic":
                    if exp is PANIC:
                        v = True
                    else:
                        v = False if okf else None
                    act = o.val if o.val is not None else UNIT
                else:
                    if exp is PANIC:
                        v, act = False, o.val
                    else:
                        act = proj(o) if proj else o.val
                        cmp = Cmp(f, extra)
                        v = cmp.same(exp, act)
                        why = cmp.why
                if v is False and not (okf and cleanfacts(f, extra)):
                    v = None
                obs.append(Clause(clause, v, fn, i, "" if v else "when %s\n   expected %s\n   but      %s %s" % (
                    showfacts(f), short(exp), o.kind, short(act)) + (
                    "" if v or not why else "\n   differing at: %s\n           from: %s" % (short(why[0], 500), short(why[1], 500)))))
        except TooMany:
            obs.append(Clause(clause, None, fn, i, "specification too large"))
    return obs


class Mismatch(Exception):
    def __init__(self, verdict, msg):
        self.verdict, self.msg = verdict, msg


class Trace:
    """The effects of one row, consumed in order by a specification."""

    def __init__(self, x, effs, extra):
        self.x, self.effs, self.extra, self.i = x, effs, extra, 0

    def same(self, e, a):
        return Cmp(self.x.f, self.extra).same(e, a)

    def do(self, name, *args):
        """the next effect has to be `name` with these arguments; gives its result"""
        if self.i >= len(self.effs):
            raise Mismatch(False, "missing: %s(%s)" % (name, ", ".join(short(a, 200) for a in args)))
        e = self.effs[self.i]
        if e.op != "eff":
            raise Mismatch(None, "effects inside a loop: %s" % short(e, 300))
        if e.a[0] != name:
            raise Mismatch(False, "expected %s, found %s" % (name, short(e, 300)))
        self.i += 1
        for k, a in enumerate(args):
            r = self.same(a, e.a[1 + k])
            if r is not True:
                raise Mismatch(r, "argument %d of %s: expected %s, found %s" % (k + 1, name, short(a, 300), short(e.a[1 + k], 300)))
        NV.setdefault(e, 2)
        return e

    def skip(self, name):
        """passes over an effect that does not matter here"""
        if self.i < len(self.effs) and self.effs[self.i].op == "eff" and self.effs[self.i].a[0] == name:
            self.i += 1
            return True
        return False

    def more(self):
        return self.i < len(self.effs)

    def done(self):
        if self.i < len(self.effs):
            e = self.effs[self.i]
            raise Mismatch(False if e.op == "eff" else None, "unexpected: %s" % short(e, 300))


def trace_table(outs, fn, clause, sp, names, extra=frozenset()):
    """sp(x, t) consumes the effects called `names` and returns the expected value (or raises Fail)."""
    extra = frozenset(extra)
    obs = []
    for i, o in enumerate(outs):
        okf = cleanfacts(o.st.facts, extra | set(names))

        def rel(e):
            return e.op != "eff" and any(isinstance(t, Term) and t.op == "eff" and t.a[0] in names for t in subterms(e)) \
                or e.op == "eff" and e.a[0] in names
        effs = [e for e in o.st.eff if rel(e)]
        bad = []

        def one(x):
            t = Trace(x, effs, extra | set(names))
            try:
                try:
                    v = sp(x, t)
                except Fail as e:
                    v = e.val
                if v is SKIP:
                    return SKIP
                t.done()
                return v
            except Mismatch as m:
                return T("MISMATCH", repr(m.verdict), m.msg)
        n = 0
        for f, kind, exp in explore(one, o.st.facts):
            if exp is SKIP:
                continue
            if exp.op == "MISMATCH":
                v, why = {"False": False, "None": None}[exp.a[0]], exp.a[1]
            elif o.kind == "panic":
                v, why = (True if exp is PANIC else False), "panics: %s" % show(o.val)
            else:
                c = Cmp(f, extra | set(names))
                v = c.same(exp, o.val)
                why = "returns %s instead of %s" % (short(o.val, 400), short(exp, 400))
            if v is False and not (okf and cleanfacts(f, extra | set(names))):
                v = None
            obs.append(Clause(clause, v, fn, i, "" if v else "when %s\n   %s" % (showfacts(f), why)))
    return obs


PANIC = T("PANIC")


def short(t, n=900):
    s = show(t)
    return s if len(s) <= n else s[:n] + "…"


def showfacts(f):
    out = []
    for k, v in sorted(f.items(), key=lambda kv: len(show(kv[0]))):
        if v[0] == "=":
            out.append("%s = %s" % (short(k, 300), show(v[1])))
        else:
            out.append("%s not in %s" % (short(k, 300), show(frozenset(v[1]))))
    return " && ".join(out) or "always"


# ---------------------------------------------------------------- helpers for functional arguments

def lam_rows(l):
    """rows of a tabulated closure: [(facts, kind, value)] or None"""
    if l.op != "lam" or not l.a or not isinstance(l.a[0], frozenset):
        return None
    out = []
    for r in l.a[0]:
        out.append((dict(r[0]), r[1], r[2]))
    return out


def lam_check(cmp, l, fn):
    """Does the tabulated closure l compute fn(x)?  True/False/None"""
    rows = lam_rows(l)
    if rows is None:
        return None
    res = True
    for f, kind, v in rows:
        g = dict(cmp.f)
        g.update(f)
        ok_ = cleanfacts(f, cmp.extra)
        for f2, k2, exp in explore(fn, g):
            if kind != "ret":
                r = False
            else:
                c2 = Cmp(f2, cmp.extra)
                r = c2.same(exp, v)
                if not r and cmp.why is None:
                    cmp.why = (exp, v, r)
            if r is False and not (ok_ and cleanfacts(f2, cmp.extra)):
                r = None
            if r is False:
                return False
            if r is None:
                res = None
    return res


def FL(x):
    return T("float", repr(float(x)))


def bv(n, i):
    return T("bv", n, i)


def settled(o):
    """Filtering keeps the order: it may come before or after sorting and reversing. The row with the filter innermost."""
    FILTER, SORT = "subweight_core::filter_changes", "subweight_core::sort_changes"
    for _ in range(6):
        m = {}
        for root in list(o.st.facts) + list(o.st.eff) + ([o.val] if isinstance(o.val, Term) else []):
            for t in subterms(root):
                if t.op == "call" and t.a[0] == FILTER and len(t.a) == 3:
                    x = t.a[1]
                    if x.op == "rev":
                        m[t] = T("rev", call(FILTER, x.a[0], t.a[2]))
                    elif x.op == "after" and x.a[0].op == "call" and x.a[0].a[0] == SORT and x.a[1:] == (0,):
                        m[t] = T("after", call(SORT, call(FILTER, x.a[0].a[1], t.a[2])), 0)
        if not m:
            break
        st = o.st.fork()
        st.facts = {subst(k, m): subst((w,), m)[0] for k, w in o.st.facts.items()}
        st.eff = subst((o.st.eff,), m)[0]
        o = engine.Out(o.kind, st, subst(o.val, m) if isinstance(o.val, Term) else o.val)
    return o
