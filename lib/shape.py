"""String shapes: abstract strings made of known text and named unknown parts, and what string terms make of them.

A shape is a tuple of pieces: text (str) or an unknown part (Part). `Eval` evaluates a term whose leaf is bound to a
shape; `None` is "not known", `DEP` is "depends on the unknown parts"."""
from xml.sax.saxutils import unescape
from terms import *

DEP = "depends"


class Part:
    def __init__(self, name, chars, length=None, of=None, least=0, without=(), nohead=(), notail=()):
        """chars: predicate, which characters can occur in the part; least: its least length; texts that cannot occur in it,
        and that it cannot start or end with"""
        self.without, self.nohead, self.notail = without, nohead, notail
        self.name, self.chars, self.length, self.of, self.least = name, chars, length, of, length if length is not None else least

    def __repr__(self):
        return "<%s>" % self.name


def norm(ps):
    out = []
    for p in ps:
        if isinstance(p, str) and out and isinstance(out[-1], str):
            out[-1] += p
        elif p != "":
            out.append(p)
    return tuple(out)


def possible(p, lit):
    return all(p.chars(c) for c in lit) and not any(w in lit for w in p.without)


def occurs(ps, lit):
    """True / False / DEP: does the text occur in the shape"""
    if any(isinstance(p, str) and lit in p for p in ps):
        return True
    ext = "".join(p if isinstance(p, str) else "\0" for p in ps)
    # an occurrence uses at least one unknown part: every alignment has to fit
    def fits(i, k):
        """can lit[k:] be matched starting at piece i (its beginning)"""
        if k == len(lit):
            return True
        if i == len(ps):
            return False
        p = ps[i]
        if isinstance(p, str):
            r = lit[k:]
            return p.startswith(r) or r.startswith(p) and fits(i + 1, k + len(p))
        return any(possible(p, lit[k:j]) and (j == len(lit) or j >= k and fits(i + 1, j)) for j in range(k, len(lit) + 1))
    for i, p in enumerate(ps):
        if isinstance(p, str):
            for a in range(1, min(len(p), len(lit)) + 1):
                if p.endswith(lit[:a]) and a < len(lit) and fits(i + 1, a):
                    return DEP
        else:
            for j in range(1, len(lit) + 1):
                if possible(p, lit[:j]) and (j == len(lit) or fits(i + 1, j)):
                    return DEP
    return False


def tainted(ps, what):
    return (Part("%s of %s" % (what, list(ps)), lambda c: True),)


def replace(ps, lit, rep):
    if not lit:
        return None
    out, dep = [], False
    for p in ps:
        out.append(p.replace(lit, rep) if isinstance(p, str) else p)
    # what is left must not depend on the unknown parts
    rest = norm([x for p in ps for x in ([s for i, t in enumerate(p.split(lit)) for s in (["\1"] if i else []) + [t]] if isinstance(p, str) else [p])])
    if occurs(rest, lit) is DEP:
        return tainted(ps, "replace %r" % lit)
    return norm(out)


def starts(ps, lit, head=True):
    ps = list(ps)
    while lit:
        if not ps:
            return False
        p = ps.pop(0)
        if isinstance(p, str):
            n = min(len(p), len(lit))
            if p[:n] != lit[:n]:
                return False
            lit = lit[n:]
        else:
            no = p.nohead if head else [w[::-1] for w in p.notail]
            return DEP if p.chars(lit[0]) and not any(lit.startswith(w) for w in no) else False
    return True


def split(ps, sep):
    """pieces between separators (a predicate on characters); an Open list where an unknown part may contain one"""
    out, cur = Open(), []
    for p in ps:
        if isinstance(p, str):
            for c in p:
                if sep(c):
                    out.append(norm(cur))
                    cur = []
                else:
                    cur.append(c)
        else:
            if any(sep(c) and p.chars(c) for c in " \t\n:,;/^{}~'\"=|"):
                out.append(norm(cur + [Part("start of %s" % p.name, p.chars)]))
                return out
            cur.append(p)
    out.append(norm(cur))
    return list(out)


class Open(list):
    """the first elements of a list"""


class AtLeast(int):
    pass


class Eval:
    def __init__(self, leaf, shape):
        self.leaf, self.shape = leaf, shape

    def __call__(self, t):
        if t is self.leaf:
            return self.shape
        f = getattr(self, "t_" + t.op, None)
        if f:
            return f(t)
        return None

    def t_str(self, t):
        return norm((t.a[0],))

    def t_sv(self, t):
        return self(t.a[0])
    t_disp = t_sv

    def t_int(self, t):
        return t.a[0]
    t_char = t_int

    def t_not(self, t):
        v = self(t.a[0])
        return not v if isinstance(v, bool) else v if v is DEP else None

    def t_fmt(self, t):
        out = []
        for x in t.a:
            v = norm((x,)) if isinstance(x, str) else self(x)
            if not isinstance(v, tuple):
                return None
            out += v
        return norm(out)

    def t_len(self, t):
        v = self(t.a[0])
        if isinstance(v, tuple) and v[:1] != ("?",):
            n = sum(len(p.encode()) if isinstance(p, str) else p.least for p in v)
            return n if all(isinstance(p, str) or p.length is not None for p in v) else AtLeast(n)
        return AtLeast(len(v)) if isinstance(v, Open) else len(v) if isinstance(v, list) else None

    def t_idx(self, t):
        v, i = self(t.a[0]), self(t.a[1])
        return v[i] if isinstance(v, list) and isinstance(i, int) and -len(v) <= i < len(v) else None

    def t_disc(self, t):
        v = self(t.a[0])
        return (0 if v[1] is None else 1) if isinstance(v, tuple) and v[:1] == ("?",) else None

    def t_fld(self, t):
        v = self(t.a[0])
        if isinstance(v, tuple) and v[:1] == ("?",):
            return v[1]
        return v[t.a[2]] if isinstance(v, list) and len(v) > t.a[2] else None

    def t_lt(self, t):
        a, b = self(t.a[0]), self(t.a[1])
        if isinstance(a, AtLeast) and isinstance(b, int):
            return False if a >= b else DEP
        if isinstance(b, AtLeast) and isinstance(a, int):
            return True if a < b else DEP
        return a < b if isinstance(a, int) and isinstance(b, int) else None

    def t_eq(self, t):
        a, b = self(t.a[0]), self(t.a[1])
        if a is None or b is None or isinstance(a, AtLeast) or isinstance(b, AtLeast):
            return None
        if isinstance(a, tuple) and isinstance(b, tuple):
            if all(isinstance(p, str) for p in a + b):
                return a == b
            return True if a == b else None
        return a == b

    def t_any(self, t):
        """does some character of a text fulfil one of the alternatives"""
        src = t.a[0]
        if src.op != "call" or src.a[0] not in ("str_chars", "str_bytes") or not isinstance(t.a[1], frozenset):
            return None
        v = self(src.a[1])
        if not isinstance(v, tuple) or v[:1] == ("?",):
            return None
        return self.anychar(v, T("elem", src, "x"), t.a[1])

    def anychar(self, v, el, alts):
        def holds(c):
            ev = Eval(el, ord(c))
            unk = False
            for alt in alts:
                hit = True
                for k, w in alt:
                    x = ev(k)
                    if w[0] == "=" and isinstance(x, bool):
                        r = (x == (w[1] is TRUE)) if w[1] is TRUE or w[1] is FALSE else None
                    elif isinstance(x, int) and not isinstance(x, bool) and all(hasattr(q, "op") and q.op in ("int", "char") for q in ([w[1]] if w[0] == "=" else w[1])):
                        r = (x in [q.a[0] for q in ([w[1]] if w[0] == "=" else w[1])]) == (w[0] == "=")
                    else:
                        r = None
                    if r is False:
                        hit = False
                        break
                    if r is None:
                        hit = None
                if hit:
                    return True
                unk = unk or hit is None
            return None if unk else False
        res = False
        for p in v:
            for c in set(p) if isinstance(p, str) else [c for c in SAMPLE if p.chars(c)]:
                h = holds(c)
                if h is None:
                    return None
                if h:
                    if isinstance(p, str):
                        return True
                    res = DEP
        return res

    def joined(self, t):
        """the first characters of a text"""
        x = t.a[1]
        if len(t.a) > 2 and t.a[2] is S("") and x.op == "take" and x.a[0].op == "call" and x.a[0].a[0] == "str_chars":
            v, k = self(x.a[0].a[1]), self(x.a[1])
            if isinstance(v, tuple) and isinstance(k, int) and v[:1] != ("?",):
                return self.first(v, k)
        return None

    def first(self, v, k):
        if not v:
            return v
        if isinstance(v[0], str) and len(v[0]) >= k:
            return norm((v[0][:k],))
        if isinstance(v[0], Part) and v[0].length is not None and v[0].length >= k:
            return (v[0],) if v[0].length == k else (prefix(v[0], k),)
        # a prefix that ends within, or after, a part of unknown length
        return (Part("%s[..%d]" % (list(v), k), lambda c: True),)

    def t_call(self, t):
        n, a = t.a[0], t.a[1:]
        if n == "join":
            return self.joined(t)
        if n == "decode_html_entities":
            v = self(a[0])
            return norm((unescape("".join(v)),)) if isinstance(v, tuple) and v[:1] != ("?",) and all(isinstance(p, str) for p in v) else None
        if "char::is_" in n and len(a) == 1:
            f, c = CHARS.get(n.rsplit("::", 1)[-1]), self(a[0])
            return f(chr(c)) if f and isinstance(c, int) and not isinstance(c, bool) else None
        if n.endswith("str::is_ascii"):
            n = "str_is_ascii"
        if not n.startswith("str_") and n not in ("index_range", "iter_last", "to_string", "from_utf8_lossy"):
            return None
        v = self(a[0])
        lit = None
        if len(a) > 1:
            if a[1].op == "str":
                lit = a[1].a[0]
            elif a[1].op == "char":
                lit = chr(a[1].a[0])
            else:
                w = self(a[1])
                if isinstance(w, tuple) and all(isinstance(p, str) for p in w):
                    lit = "".join(w)
        if isinstance(v, list):
            return v[-1] if n == "iter_last" and v and not isinstance(v, Open) else None
        if not isinstance(v, tuple):
            return None
        if n == "str_replace" and lit is not None and a[2].op == "str":
            return replace(v, lit, a[2].a[0])
        if n == "str_contains" and lit is not None:
            return occurs(v, lit)
        if n == "str_contains" and len(a) > 1:
            cs = a[1].a[1] if a[1].op == "call" and a[1].a[0] == "index_range" and str(a[1].a[2].a[0]).endswith("RangeFull") else a[1]
            if cs.op == "arr" and all(c.op in ("int", "char") for c in cs.a):
                rs = [occurs(v, chr(c.a[0])) for c in cs.a]
                return True if True in rs else DEP if DEP in rs else False
        if n == "str_contains" and len(a) > 1 and a[1].op == "lam":
            bvs = {q for q in subterms(a[1]) if q.op == "bv"}
            rows = [r for r in a[1].a[0]] if isinstance(a[1].a[0], frozenset) else None
            if len(bvs) != 1 or rows is None:
                return None
            alts = set()
            for fs, kind, val, eff in rows:
                if kind != "ret" or eff:
                    return None
                if val is FALSE:
                    continue
                alts.add(frozenset(fs) if val is TRUE else frozenset(fs) | {(val, ("=", TRUE))})
            return self.anychar(v, next(iter(bvs)), alts)
        if n == "str_is_ascii":
            if any(isinstance(p, str) and not p.isascii() for p in v):
                return False
            return DEP if any(isinstance(p, Part) and any(p.chars(c) for c in SAMPLE if ord(c) > 127) for p in v) else True
        if n in KNOWN and not all(isinstance(p, str) for p in v):
            f = KNOWN[n]
            if any(isinstance(p, Part) and any(p.chars(c) and f(c) != c for c in SAMPLE) for p in v):
                return tainted(v, n[4:])
            return norm(f(p) if isinstance(p, str) else p for p in v)
        if n == "str_rsplit" and lit is not None and len(lit) == 1:
            r = split(flip(v), lambda c: c == lit)
            return type(r)(norm(flip(x)) for x in r)
        if n == "str_starts_with" and lit is not None:
            return starts(v, lit)
        if n == "str_strip_prefix" and lit is not None:
            if starts(v, lit) is True and isinstance(v[0], str) and len(v[0]) >= len(lit):
                return norm((v[0][len(lit):],) + v[1:])
            return tainted(v, "strip %r" % lit) if starts(v, lit) is DEP else None
        if n in ("str_trim_end_matches", "str_ends_with", "str_strip_suffix") and lit:
            e = ends(v, lit)
            if n == "str_ends_with":
                return e
            if n == "str_trim_end_matches":
                while v and isinstance(v[-1], str) and v[-1].endswith(lit):
                    v = norm(v[:-1] + (v[-1][:-len(lit)],))
                return v if ends(v, lit) is False else tainted(v, "trim %r" % lit)
            if e is True and isinstance(v[-1], str) and len(v[-1]) >= len(lit):
                return norm(v[:-1] + (v[-1][:-len(lit)],))
            return None
        if all(isinstance(p, str) for p in v):
            x = "".join(v)
            if n in KNOWN:
                return norm((KNOWN[n](x),))
            if n == "str_eq_ignore_ascii_case":
                w = self(a[1])
                return KNOWN["str_to_ascii_lowercase"](x) == KNOWN["str_to_ascii_lowercase"]("".join(w)) \
                    if isinstance(w, tuple) and all(isinstance(p, str) for p in w) else None
            if n in ("str_split", "str_rsplit") and lit:
                return [norm((y,)) for y in (x.split(lit) if n == "str_split" else x.split(lit)[::-1])]
            if n in ("str_split_once", "str_rsplit_once") and lit:
                y = x.split(lit, 1) if n == "str_split_once" else x.rsplit(lit, 1)
                return ("?", [norm((y[0],)), norm((y[1],))] if len(y) == 2 else None)
            if n == "str_trim_matches" and lit is not None and len(lit) == 1:
                return norm((x.strip(lit),))
        if n == "str_trim_start_matches" and lit:
            while v and isinstance(v[0], str) and v[0].startswith(lit):
                v = norm((v[0][len(lit):],) + v[1:])
            return v if starts(v, lit) is False else tainted(v, "trim %r" % lit)
        if n in ("str_trim", "str_trim_start", "str_trim_end"):
            v = list(v)
            if v and isinstance(v[0], str) and n != "str_trim_end":
                v[0] = v[0].lstrip()
            if v and isinstance(v[-1], str) and n != "str_trim_start":
                v[-1] = v[-1].rstrip()
            return norm(v)
        if n == "str_split_whitespace":
            r = split(v, str.isspace)
            return type(r)(x for x in r if x)
        if n == "str_split" and lit is not None and len(lit) == 1:
            return split(v, lambda c: c == lit)
        if n in ("str_split_once", "str_rsplit_once") and lit:
            r = split(v, lambda c: c == lit)
            if isinstance(r, Open):
                return None
            if len(r) < 2:
                return ("?", None)
            k = 1 if n == "str_split_once" else len(r) - 1
            glue = lambda xs: norm([p for i, x in enumerate(xs) for p in ((lit,) if i else ()) + x])
            return ("?", [glue(r[:k]), glue(r[k:])])
        if n == "index_range" and a[1].op == "adt" and str(a[1].a[0]).endswith("RangeTo"):
            k = self(a[1].a[2])
            if isinstance(k, int) and v:
                return self.first(v, k)
        return None


def ascii_case(low):
    return lambda x: "".join((c.lower() if low else c.upper()) if ord(c) < 128 else c for c in x)


KNOWN = {"str_to_lowercase": str.lower, "str_to_uppercase": str.upper, "str_to_ascii_lowercase": ascii_case(True), "str_to_ascii_uppercase": ascii_case(False),
         "to_string": lambda x: x, "str_as_str": lambda x: x}


def flip(ps):
    return tuple(p[::-1] if isinstance(p, str) else p for p in reversed(ps))


def ends(ps, lit):
    return starts(flip(ps), lit[::-1], False)


SAMPLE = [chr(c) for c in range(32, 127)] + list("\t\u00e4\u00c4\u00df\u4e2d\U0001f600")
CHARS = {"is_ascii": lambda c: ord(c) < 128, "is_whitespace": str.isspace, "is_uppercase": str.isupper, "is_lowercase": str.islower, "is_alphabetic": str.isalpha,
         "is_alphanumeric": str.isalnum, "is_numeric": str.isnumeric, "is_control": lambda c: ord(c) < 32 or 127 <= ord(c) < 160}
for _n, _f in (("digit", str.isdigit), ("alphabetic", str.isalpha), ("alphanumeric", str.isalnum), ("uppercase", str.isupper), ("lowercase", str.islower),
               ("hexdigit", lambda c: c in "0123456789abcdefABCDEF"), ("whitespace", lambda c: c in " \t\n\x0c\r"),
               ("punctuation", lambda c: c.isprintable() and not c.isalnum() and c != " "), ("graphic", lambda c: 32 < ord(c) < 127), ("control", lambda c: ord(c) < 32 or ord(c) == 127)):
    CHARS["is_ascii_" + _n] = lambda c, f=_f: ord(c) < 128 and f(c)
_P = {}


def prefix(p, k):
    return _P.setdefault((p, k), Part("%s[..%d]" % (p.name, k), p.chars, k, p))
