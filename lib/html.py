"""HTML pages as symbolic token streams.

A template's table has one row whose value is html(sequence of txt/num/esc/raw pieces, alternatives and loops).
`Page` runs an HTML lexer over that sequence: constant text moves the lexer, every inserted value is judged in the
state it is inserted in, alternatives and loop bodies are entered from the same state and have to leave it as they
found it.  On the way the elements are recorded (tag, attributes, content), for checks of the structure."""
from terms import *
import engine

VOID = {"meta", "link", "input", "br", "img", "hr"}


class Lex:
    """a small HTML tokenizer state"""
    def __init__(self, s="text", tag="", attr="", empty=True):
        self.s, self.tag, self.attr, self.empty = s, tag, attr, empty

    def key(self):
        s = self.s
        return (s, self.tag if s != "text" else "", self.attr if s in ("dq", "sq", "unq", "aftereq") else "")

    def copy(self):
        return Lex(self.s, self.tag, self.attr, self.empty)


class Node:
    """an opened or closed element, a text, an inserted value, alternatives or a loop"""
    def __init__(self, kind, **k):
        self.kind = kind
        self.__dict__.update(k)

    def __repr__(self):
        return "%s%s" % (self.kind, {k: v for k, v in self.__dict__.items() if k != "kind"})


class Page:
    def __init__(self, outs_of, numeric=lambda t: None):
        """outs_of(npath) -> [(params, value)] rows of a project function, or None"""
        self.outs_of = outs_of
        self.found = []      # (verdict, description)
        self.depth = 0

    # ------------------------------------------------ constant text
    def feed(self, lx, text, out):
        buf = ""
        i, n = 0, len(text)

        def flush():
            nonlocal buf
            if buf:
                self.emit(lx, out, Node("str", s=buf))
            buf = ""
        while i < n:
            c = text[i]
            s = lx.s
            if s == "text":
                if text.startswith("<!--", i):
                    flush()
                    lx.s = "comment"
                    i += 4
                    continue
                if c == "<" and i + 1 < n and (text[i + 1].isalpha() or text[i + 1] in "/!"):
                    flush()
                    lx.s, lx.tag = "name", ""
                    self.open = None
                    i += 1
                    continue
                buf += c
            elif s == "comment":
                if text.startswith("-->", i):
                    lx.s = "text"
                    i += 3
                    continue
            elif s == "raw":
                if text.lower().startswith("</" + lx.tag, i):
                    lx.s, lx.tag = "name", ""
                    i += 1
                    continue
            elif s == "name":
                if c in " \t\n\r":
                    lx.s = "tag"
                    out.append(Node("open", tag=lx.tag.lower(), attrs={}))
                elif c == ">":
                    out.append(Node("open", tag=lx.tag.lower(), attrs={}))
                    self.gt(lx)
                else:
                    lx.tag += c
            elif s == "tag":
                if c == ">":
                    self.boolean(out, lx)
                    self.gt(lx)
                elif c == "=":
                    lx.s, lx.empty = "aftereq", True
                    self.setattr(out, lx, [])
                elif c in " \t\n\r/":
                    if not self.only_space_then_eq(text, i):
                        self.boolean(out, lx)
                else:
                    lx.attr += c.lower()
            elif s == "aftereq":
                if c == '"':
                    lx.s = "dq"
                elif c == "'":
                    lx.s = "sq"
                elif c in " \t\n\r":
                    pass
                elif c == ">":
                    self.gt(lx)
                else:
                    lx.s = "unq"
                    continue
            elif s == "unq":
                if c in " \t\n\r":
                    flush()
                    lx.s, lx.attr = "tag", ""
                elif c == ">":
                    flush()
                    self.gt(lx)
                else:
                    buf += c
                    lx.empty = False
            elif s in ("dq", "sq"):
                if c == ('"' if s == "dq" else "'"):
                    flush()
                    lx.s, lx.attr = "tag", ""
                else:
                    buf += c
                    lx.empty = False
            i += 1
        flush()

    @staticmethod
    def only_space_then_eq(text, i):
        return text[i:].lstrip()[:1] == "="

    def gt(self, lx):
        t = lx.tag.lower()
        lx.attr = ""
        if t in ("script", "style", "title", "textarea"):
            lx.s, lx.tag = ("raw", t) if t in ("script", "style") else ("text", t)
        else:
            lx.s = "text"

    def last_open(self, out):
        for x in reversed(out):
            if x.kind == "open":
                return x
        return None

    def setattr(self, out, lx, v):
        o = self.last_open(out)
        if o is not None:
            o.attrs[lx.attr] = v

    def boolean(self, out, lx):
        """an attribute without a value ends here"""
        if lx.attr:
            self.setattr(out, lx, [])
        lx.attr = ""

    def emit(self, lx, out, node):
        if lx.s in ("dq", "sq", "unq", "aftereq"):
            o = self.last_open(out)
            if o is not None and lx.attr in o.attrs:
                o.attrs[lx.attr].append(node)
        elif lx.s == "tag":
            o = self.last_open(out)
            if o is not None:
                o.attrs.setdefault("", []).append(node)
        else:
            out.append(node)

    # ------------------------------------------------ inserted values
    def sink(self, verdict, lx, t, why):
        self.found.append((verdict, "%s inserted %s: %s" % (show(t)[:200], {"text": "as text", "dq": "in an attribute", "sq": "in an attribute", "unq": "in an unquoted attribute",
                          "aftereq": "in an unquoted attribute", "tag": "inside a tag", "raw": "in a script or style", "comment": "in a comment"}.get(lx.s, lx.s), why)))

    def escaped(self, lx, t, out):
        if lx.s in ("text", "dq", "sq", "comment"):
            self.sink(True, lx, t, "escaped")
        else:
            self.sink(False, lx, t, "escaping does not help here")
        if lx.s == "aftereq":
            lx.s = "unq"
        lx.empty = False

    def encoded(self, lx, kind, t):
        good = {"text": ("text",), "safe": ("text", "dq", "sq"), "double_quoted_attribute": ("text", "dq"), "single_quoted_attribute": ("text", "sq"),
                "quoted_attribute": ("text", "dq", "sq"), "unquoted_attribute": ("text", "dq", "sq", "unq", "aftereq")}.get(kind)
        if good is None:
            self.sink(None, lx, t, "encoded as " + kind)
        else:
            self.sink(lx.s in good, lx, t, "encoded as " + kind)

    def raw(self, lx, t, out):
        """an unescaped string"""
        o = t.op
        if o == "str":
            return self.feed(lx, t.a[0], out)
        if o == "alt":
            return self.alts(lx, [(f, v) for f, v in t.a[0]], out, lambda l, v, ou: self.raw(l, v, ou) if isinstance(v, Term) else self.seq(l, v, ou))
        if o == "fmt":
            for p in t.a:
                if p.op == "str":
                    self.feed(lx, p.a[0], out)
                elif p.op == "sv":
                    self.raw(lx, p.a[0], out)
                else:
                    self.shown(lx, p.a[0], out, (p.op,) + p.a[1:])
            return
        if o == "call" and t.a[0] == "html_encode":
            self.encoded(lx, t.a[1].a[0], t.a[2])
            return self.emit(lx, out, Node("val", v=t, esc=True))
        if o == "call" and isinstance(t.a[0], str) and self.depth < 8:
            rows = self.outs_of(t.a[0])
            if rows is not None:
                vs = []
                for params, v in rows:
                    vs.append((frozenset(), subst(v, dict(zip(params, t.a[1:])))))
                self.depth += 1
                try:
                    if len(vs) == 1:
                        return self.raw(lx, vs[0][1], out)
                    return self.alts(lx, vs, out, self.raw)
                finally:
                    self.depth -= 1
        c = fold(t)
        if c is not None:
            return self.feed(lx, c, out)
        self.emit(lx, out, Node("val", v=t, esc=False))
        self.sink(False if data(t) else None, lx, t, "not escaped")

    def shown(self, lx, t, out, how=("disp",)):
        """the Display or Debug text of a value that is not a string"""
        self.emit(lx, out, Node("val", v=t, esc=False, how=how))
        n = number(t)
        if not n and t in engine.ERR and data(t):
            return self.sink(False, lx, t, "the text of an error, not escaped")
        self.sink(True if n else None, lx, t, "a number" if n else "text of an unknown type")

    def alts(self, lx, branches, out, f):
        ends, nodes = [], []
        for facts, v in sorted(branches, key=lambda b: repr(b)):
            l, ou = lx.copy(), []
            if lx.s != "text":
                # inside a tag the attribute belongs to the element opened before
                o = self.last_open(out)
                if o is not None:
                    ou = [Node("open", tag=o.tag, attrs={lx.attr: []} if lx.s in ("dq", "sq", "unq", "aftereq") else {})]
            f(l, v, ou)
            if l.s == "tag" and lx.s == "tag":
                self.boolean(ou, l)
            ends.append(l)
            nodes.append((facts, ou))
        if len({e.key() for e in ends}) != 1:
            # an empty alternative may leave an unquoted position untouched
            self.found.append((None, "alternatives end in different places: %s" % sorted({str(e.key()) for e in ends})))
        nd = Node("alt", bs=nodes)
        self.emit(lx, out, nd)
        if ends:
            lx.s, lx.tag, lx.attr, lx.empty = ends[0].s, ends[0].tag, ends[0].attr, all(e.empty for e in ends)

    def seq(self, lx, pieces, out):
        for p in pieces:
            if p.op == "one":
                self.piece(lx, p.a[0], out)
            elif p.op == "many":
                self.many(lx, p.a[0], out)
            else:
                self.found.append((None, "unknown piece " + show(p)[:200]))

    def piece(self, lx, x, out):
        if x.op == "txt":
            self.feed(lx, x.a[0].a[0] if x.a[0].op == "str" else "\x00", out)
        elif x.op == "num":
            self.emit(lx, out, Node("val", v=x.a[0], esc=True, num=True))
            self.sink(True, lx, x.a[0], "a number")
            if lx.s == "aftereq":
                lx.s = "unq"
        elif x.op == "esc":
            self.emit(lx, out, Node("val", v=x.a[0], esc=True))
            self.escaped(lx, x.a[0], out)
        elif x.op == "raw":
            self.raw(lx, x.a[0], out)
        elif x.op == "alt":
            self.alts(lx, list(x.a[0]), out, self.seq)
        else:
            self.found.append((None, "unknown piece " + show(x)[:200]))

    def many(self, lx, v, out):
        if v.op in ("flatcollect", "collect"):
            src, rows = (v.a[0], v.a[1]) if v.op == "flatcollect" else (v.a[1], v.a[2])
            if isinstance(rows, frozenset):
                for conds, ps in sorted(rows, key=repr):
                    l, ou = lx.copy(), []
                    if v.op == "flatcollect":
                        self.seq(l, ps, ou)
                    else:
                        self.piece(l, ps, ou)
                    if l.key() != lx.key():
                        self.found.append((None, "a loop body ends in another place than it starts"))
                    out.append(Node("loop", src=src, conds=conds, body=ou))
                return
        if v.op in ("arr", "cat"):
            return self.seq(lx, v.a if v.op == "cat" else tuple(T("one", x) for x in v.a), out)
        self.found.append((None, "content built in an unknown way: " + show(v)[:200]))


def fold(t):
    """the text of a string operation on constants"""
    if t.op == "str":
        return t.a[0]
    if t.op == "call" and isinstance(t.a[0], str):
        a = [fold(x) if isinstance(x, Term) else None for x in t.a[1:]]
        if None in a:
            return None
        return {"str_trim": lambda s: s.strip(), "str_to_lowercase": str.lower, "str_to_uppercase": str.upper,
                "str_replace": str.replace}.get(t.a[0], lambda *x: None)(*a)
    return None


CUTTING = {"str_trim", "str_replace", "str_to_lowercase", "str_to_uppercase", "join", "decode_html_entities", "map_get", "from_utf8_lossy", "from_utf8",
           "index_range", "unwrap_or"}


def data(t):
    """is the value certainly text that came from outside, unchanged but for cutting and joining?"""
    o = t.op
    if o in ("param", "eff", "bv"):
        return True
    if o in ("fld", "found", "idx"):
        b = t.a[0]
        return data(b) or b.op == "call" and isinstance(b.a[0], str) and b.a[0].startswith("subweight")
    if o == "elem":
        return data(t.a[0])
    if o in ("collect", "flatcollect"):
        src, rows = (t.a[1], t.a[2]) if o == "collect" else (t.a[0], t.a[1])
        if not isinstance(rows, frozenset):
            return data(src)
        return any(data(v) for _, vs in rows for v in (vs if isinstance(vs, tuple) else (vs,)) if isinstance(v, Term))
    if o in ("one", "many", "sv", "disp", "dbg"):
        return data(t.a[0])
    if o in ("fmt", "arr", "cat", "adt", "tup"):
        return any(data(x) for x in t.a if isinstance(x, Term))
    if o == "alt":
        return any(data(v) for _, v in t.a[0] if isinstance(v, Term))
    if o == "call" and isinstance(t.a[0], str) and t.a[0].endswith("Query::from_query"):
        return True    # (the decoded query of a request)
    if o == "call" and t.a[0] in CUTTING:
        return any(data(x) for x in t.a[1:] if isinstance(x, Term))
    return False


def mark_numbers(t, memo=None):
    """numof(x) for the values formatted as numbers, so that the type survives substitution"""
    memo = {} if memo is None else memo

    def go(x):
        if isinstance(x, Term):
            if x not in memo:
                if x.op in ("disp", "dbg") and x.a[0] in engine.NUM:
                    memo[x] = T(x.op, T("numof", x.a[0]), *x.a[1:])
                else:
                    memo[x] = T(x.op, *[go(y) for y in x.a])
            return memo[x]
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if isinstance(x, frozenset):
            return frozenset(go(y) for y in x)
        return x
    return go(t)


def number(t):
    if t in engine.NUM:
        return True
    if t.op in ("int", "float", "numof", "cast", "op", "fop", "fabs", "iabs", "len", "min", "max", "neg", "satadd", "satsub", "absdiff"):
        return True
    if t.op == "alt":
        return all(isinstance(v, Term) and number(v) for _, v in t.a[0])
    if t.op == "call" and t.a[0] in ("len", "buffer_len"):
        return True
    return False


def flat(nodes):
    """all nodes, entering alternatives and loops"""
    for n in nodes:
        yield n
        if n.kind == "alt":
            for _, b in n.bs:
                yield from flat(b)
        elif n.kind == "loop":
            yield from flat(n.body)
        elif n.kind == "open":
            for v in n.attrs.values():
                yield from flat(v)


def terms_of(nodes):
    for n in flat(nodes):
        if n.kind == "val":
            yield n.v


# ---------------------------------------------------------------- structure

def add_facts(f, items):
    """f and items together, or None when they contradict each other"""
    g = dict(f)
    for k, w in items:
        if w[0] == "=":
            if not engine.assume(g, k, w[1], True):
                return None
        else:
            for c in w[1]:
                if not engine.assume(g, k, c, False):
                    return None
    return g


def forks(nodes, facts, tags):
    """[(facts, nodes)]: alternatives that contain one of the tags are resolved, others stay"""
    acc = [(dict(facts), [])]
    for n in nodes:
        if n.kind == "alt" and any(x.kind == "open" and x.tag in tags for _, b in n.bs for x in flat(b)):
            new = []
            for f, ns in acc:
                for bf, b in n.bs:
                    g = add_facts(f, bf)
                    if g is not None:
                        new += [(f2, ns + ns2) for f2, ns2 in forks(b, g, tags)]
            acc = new
        else:
            for _, ns in acc:
                ns.append(n)
    return acc


def leafs(nodes, facts, limit=400):
    """[(facts, items)] without alternatives; items: ('s', text), ('v', term, node), ('o', tag, attrs), ('c', tag), ('loop', node)"""
    acc = [(dict(facts), ())]

    def value(acc, v, mk):
        new = []
        for f, its in acc:
            for g, w in cases(v, f):
                new.append((g, its + (mk(w),)))
        return new
    for n in nodes:
        if n.kind == "str":
            acc = [(f, its + (("s", n.s),)) for f, its in acc]
        elif n.kind == "val":
            acc = value(acc, n.v, lambda w, n=n: ("s", w.a[0]) if w.op == "str" else ("v", w, n))
        elif n.kind == "open":
            acc = [(f, its + (("c", n.tag[1:]) if n.tag.startswith("/") else ("o", n.tag, n.attrs),)) for f, its in acc]
        elif n.kind == "loop":
            acc = [(f, its + (("loop", n),)) for f, its in acc]
        elif n.kind == "alt":
            new = []
            for f, its in acc:
                for bf, b in n.bs:
                    g = add_facts(f, bf)
                    if g is not None:
                        new += [(f2, its + i2) for f2, i2 in leafs(b, g, limit)]
            acc = new
        if len(acc) > limit:
            raise engine.GiveUp("too many alternatives in the page")
    return acc


def cases(v, f):
    """[(facts, value)] of a value with alternatives"""
    if v.op == "fmt" and len(v.a) == 1 and v.a[0].op == "sv":
        return cases(v.a[0].a[0], f)
    alt = v if v.op == "alt" else next((t for t in subterms(v) if t.op == "alt" and all(isinstance(w, Term) for _, w in t.a[0])), None) \
        if v.op in ("neg", "op", "fop", "cast", "fmt", "call", "fabs") else None
    if alt is None or not all(isinstance(w, Term) for _, w in alt.a[0]):
        return [(dict(f), v)]
    out = []
    for bf, w in alt.a[0]:
        g = add_facts(f, bf)
        if g is not None:
            out += cases(subst(v, {alt: w}), g)
    return out


def elements(nodes):
    """every element with the nodes up to its end tag (void elements: none), alternatives and loops entered: (open, content, conditions)"""
    def go(ns, outer):
        for i, n in enumerate(ns):
            if n.kind == "open" and not n.tag.startswith("/"):
                yield n, [] if n.tag in VOID else content(ns, i), outer
            elif n.kind == "alt":
                for bf, b in n.bs:
                    yield from go(b, outer + [bf])
            elif n.kind == "loop":
                yield from go(n.body, outer + [n])
    return go(nodes, [])


def content(ns, i):
    t, d, out = ns[i].tag, 1, []
    for n in ns[i + 1:]:
        if n.kind == "open" and n.tag == t:
            d += 1
        elif n.kind == "open" and n.tag == "/" + t:
            d -= 1
            if not d:
                break
        out.append(n)
    return out


def text(items):
    """the visible text of leaf items: strings and (value, node) pairs, white space collapsed"""
    out, buf = [], ""
    for it in items:
        if it[0] == "s":
            buf += it[1]
        elif it[0] == "v":
            out += [" ".join(buf.split())] if buf.strip() else []
            buf = ""
            out.append(it)
        elif it[0] == "loop":
            out += [" ".join(buf.split())] if buf.strip() else []
            buf = ""
            out.append(it)
    return out + ([" ".join(buf.split())] if buf.strip() else [])
