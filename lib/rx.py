"""Constant regular expressions: mandatory groups, engine errors, and equality of what two patterns extract."""
import re
try:
    from re import _parser as sp, _constants as sc
except ImportError:  # pragma: no cover
    import sre_parse as sp, sre_constants as sc


def parse(p):
    try:
        return sp.parse(p)
    except (re.error, RecursionError, OverflowError):
        return None


SIMPLE = {"LITERAL", "NOT_LITERAL", "ANY", "IN", "BRANCH", "SUBPATTERN", "MAX_REPEAT", "MIN_REPEAT", "AT"}


def walk(t):
    for op, av in t:
        yield op, av
        n = str(op)
        if n == "SUBPATTERN":
            yield from walk(av[3])
        elif n in ("MAX_REPEAT", "MIN_REPEAT"):
            yield from walk(av[2])
        elif n == "BRANCH":
            for b in av[1]:
                yield from walk(b)
        elif n not in SIMPLE:
            return


def easy(p):
    """no look-around, back reference or atomic group: matching cannot fail with an error"""
    t = parse(p)
    return t is not None and all(str(op) in SIMPLE for op, _ in walk(t))


def mandatory(p):
    """names and numbers of the groups that take part in every match"""
    t = parse(p)
    if t is None:
        return set()
    out = set()

    def go(t):
        for op, av in t:
            n = str(op)
            if n == "SUBPATTERN":
                if av[0] is not None:
                    out.add(av[0])
                go(av[3])
            elif n in ("MAX_REPEAT", "MIN_REPEAT") and av[0] >= 1:
                go(av[2])
    go(t)
    names = {v: k for k, v in t.state.groupdict.items()}
    return out | {names[g] for g in out if g in names}


def names(p):
    t = parse(p)
    return {} if t is None else {v: k for k, v in t.state.groupdict.items()}


CATS = {"CATEGORY_DIGIT": r"\d", "CATEGORY_NOT_DIGIT": r"\D", "CATEGORY_SPACE": r"\s", "CATEGORY_NOT_SPACE": r"\S",
        "CATEGORY_WORD": r"\w", "CATEGORY_NOT_WORD": r"\W"}


def in_set(items, c):
    neg = False
    r = False
    for op, av in items:
        n = str(op)
        if n == "NEGATE":
            neg = True
        elif n == "LITERAL":
            r |= ord(c) == av
        elif n == "RANGE":
            r |= av[0] <= ord(c) <= av[1]
        elif n == "CATEGORY":
            r |= re.match(CATS[str(av)], c) is not None
        else:
            raise ValueError(n)
    return r != neg


class Nfa:
    def __init__(self, p, alphabet, marks):
        self.t = parse(p)
        self.al = alphabet
        self.marks = marks
        self.names = names(p)
        self.n = 0
        self.eps, self.tr = {}, {}
        s, e = self.new(), self.new()
        t = list(self.t)
        at = [k for k, (op, av) in enumerate(t) if str(op) == "AT"]
        front = 0 in at and str(t[0][1]) in ("AT_BEGINNING", "AT_BEGINNING_STRING")
        back = len(t) - 1 in at and len(t) > 1 and str(t[-1][1]) in ("AT_END", "AT_END_STRING")
        if len(at) != front + back:
            raise ValueError("anchor")
        for c in alphabet:  # unanchored search
            if not front:
                self.tr.setdefault((s, c), set()).add(s)
            if not back:
                self.tr.setdefault((e, c), set()).add(e)
        a, b = self.seq(t[front:len(t) - back])
        self.e(s, a)
        self.e(b, e)
        self.start, self.end = s, e

    def new(self):
        self.n += 1
        if self.n > 4000:
            raise ValueError("large")
        return self.n

    def e(self, a, b):
        self.eps.setdefault(a, set()).add(b)

    def seq(self, t):
        a = cur = self.new()
        for op, av in t:
            x, y = self.item(str(op), av)
            self.e(cur, x)
            cur = y
        return a, cur

    def chars(self, f):
        a, b = self.new(), self.new()
        for c in self.al:
            if f(c):
                self.tr.setdefault((a, c), set()).add(b)
        return a, b

    def item(self, n, av):
        if n == "LITERAL":
            return self.chars(lambda c: ord(c) == av)
        if n == "NOT_LITERAL":
            return self.chars(lambda c: ord(c) != av)
        if n == "ANY":
            return self.chars(lambda c: c != "\n")
        if n == "IN":
            return self.chars(lambda c: in_set(av, c))
        if n == "BRANCH":
            a, b = self.new(), self.new()
            for t in av[1]:
                x, y = self.seq(t)
                self.e(a, x)
                self.e(y, b)
            return a, b
        if n == "SUBPATTERN":
            g, add, rem, t = av
            if add or rem:
                raise ValueError("flags")
            x, y = self.seq(t)
            if g is None or not self.marks:
                return x, y
            nm = self.names.get(g)
            if nm is None:
                return x, y
            a, b = self.new(), self.new()
            self.tr.setdefault((a, "<" + nm), set()).add(x)
            self.tr.setdefault((y, ">" + nm), set()).add(b)
            return a, b
        if n in ("MAX_REPEAT", "MIN_REPEAT"):
            lo, hi, t = av
            a = cur = self.new()
            for _ in range(lo):
                x, y = self.seq(t)
                self.e(cur, x)
                cur = y
            if hi == sc.MAXREPEAT:
                x, y = self.seq(t)
                b = self.new()
                self.e(cur, x)
                self.e(y, x)
                self.e(cur, b)
                self.e(y, b)
                return a, b
            b = self.new()
            self.e(cur, b)
            for _ in range(hi - lo):
                x, y = self.seq(t)
                self.e(cur, x)
                self.e(y, b)
                cur = y
            return a, b
        raise ValueError(n)

    def close(self, ss):
        st, seen = list(ss), set(ss)
        while st:
            for y in self.eps.get(st.pop(), ()):
                if y not in seen:
                    seen.add(y)
                    st.append(y)
        return frozenset(seen)

    def step(self, ss, c):
        return self.close({y for s in ss for y in self.tr.get((s, c), ())})


def difference(p, q, marks):
    """a shortest word accepted by one pattern only, or None"""
    lits = set()
    for t in (parse(p), parse(q)):
        for op, av in walk(t):
            n = str(op)
            if n in ("LITERAL", "NOT_LITERAL"):
                lits.add(chr(av))
            elif n == "IN":
                for o2, a2 in av:
                    if str(o2) == "LITERAL":
                        lits.add(chr(a2))
                    elif str(o2) == "RANGE":
                        for k in (a2[0], a2[1], a2[0] - 1, a2[1] + 1):
                            lits.add(chr(max(k, 1)))
    al = sorted(lits | set("q7_ ~\n"))
    a, b = Nfa(p, al, marks), Nfa(q, al, marks)
    syms = list(al)
    if marks:
        syms += ["<" + n for n in set(a.names.values()) | set(b.names.values())]
        syms += [">" + n for n in set(a.names.values()) | set(b.names.values())]
    s = (a.close({a.start}), b.close({b.start}))
    seen, todo = {s}, [(s, ())]
    for (x, y), w in todo:
        if (a.end in x) != (b.end in y):
            return w
        for c in syms:
            t = (a.step(x, c), b.step(y, c))
            if t not in seen and (t[0] or t[1]):
                seen.add(t)
                todo.append((t, w + (c,)))
                if len(seen) > 20000:
                    raise ValueError("large")
    return None


def relation(p, q):
    """'same': every search extracts the same named texts; 'differ': some text is treated differently; None: unknown"""
    if p == q:
        return "same"
    try:
        if not easy(p) or not easy(q):
            return None
        if difference(p, q, False) is not None:
            return "differ"
        w = difference(p, q, True)
        if w is None:
            return "same"
        s = "".join(c for c in w if len(c) == 1)
        for s in (s, "".join(str(i % 10) if c.isdigit() else c for i, c in enumerate(s)),
                  "".join(chr(97 + i % 26) if c.isalpha() else c for i, c in enumerate(s))):
            m, n = re.search(p, s), re.search(q, s)
            if m and n and m.groupdict() != n.groupdict():
                return "differ"
        return None
    except (ValueError, KeyError, re.error, RecursionError):
        return None


# the patterns the properties mention
CANON = [r"[\w\s]*`(?P<component>\w+)`[\w\s]*`\[(?P<min>[\d_]+),\s*(?P<max>[\d_]+)\]`.*"]
_MEMO = {}


def canon(p):
    """the canonical pattern extracting the same texts; None when that is unclear"""
    if p not in _MEMO:
        r = p
        for c in CANON:
            k = relation(p, c)
            if k == "same":
                r = c
                break
            if k is None:
                r = None
        _MEMO[p] = r
    return _MEMO[p]
