"""What the comparison page shows."""
from check import *
from spec import *
import html as H
import engine

W = "subweight_web::"
FMT = "subweight_core::Dimension::fmt_value"
MAX = I((1 << 127) - 1)
MIN = I(-(1 << 127))
EXTRA = frozenset({FMT, "html_encode", "u128::abs_diff", "std::num::u128::abs_diff"})


def compare_page(ctx):
    """(function, nodes) of the comparison page, everything but the formatting of values inlined"""
    prog = ctx.prog(WEB)
    if not ctx.fns(WEB, FMT):
        return ctx.lost("%s not found" % FMT)
    for f in prog.fns.values():
        if not f.npath.endswith("::render_once") or "templates::Compare" not in f.npath:
            continue
        for o in ctx.outs(f, opaque={FMT}, join=True) or ():
            if o.kind != "ret":
                continue
            v = o.val
            if v.op == "adt" and v.a[1] == 0 and len(v.a) > 2:
                v = v.a[2]
            if v.op != "call" or v.a[0] != "html":
                ctx.lost("the comparison page is built in an unknown way")
                continue
            pg = H.Page(lambda np: None)
            lx, nodes = H.Lex(), []
            pg.many(lx, v.a[1], nodes)
            return f, nodes
    ctx.lost("no comparison page found")


def strip(w):
    """the value behind escaping and plain formatting"""
    while True:
        if w.op == "call" and w.a[0] == "html_encode":
            w = w.a[2]
        elif w.op == "fmt" and len(w.a) == 1 and (w.a[0].op == "sv" or w.a[0].op == "disp" and len(w.a[0].a) == 1):
            w = w.a[0].a[0]
        else:
            return w


def same(cmp, exp, act):
    """exp: strings, terms or (how, term); act: H.text items"""
    res = True
    if exp and exp[0] is OR:
        rs = [same(cmp, e, act) for e in exp[1:]]
        return True if True in rs else None if None in rs else False
    if any(not isinstance(a, str) and a[0] == "v" and a[2] is not None and odd(a[2]) for a in act):
        return None
    if len(exp) != len(act):
        return False if all(isinstance(a, str) or a[0] == "v" and clean(a[1], EXTRA) for a in act) else None
    for e, a in zip(exp, act):
        if isinstance(e, str) or isinstance(a, str):
            r = e == a if isinstance(e, str) and isinstance(a, str) else \
                (None if not isinstance(a, str) and (a[0] != "v" or not clean(a[1], EXTRA)) else False)
        elif a[0] != "v":
            r = None
        else:
            how, t = e if isinstance(e, tuple) else (None, e)
            if callable(t):
                r = t(cmp, strip(a[1]))
            else:
                r = cmp.same(t, strip(a[1]))
            if r is True and how is not None and shown(a[2]) != how:
                r = False
            if r is False and not clean(a[1], EXTRA):
                r = None
        if r is False:
            return False
        if r is None:
            res = None
    return res


OR = "one of"


def odd(n):
    """shown with a sign, a width or another flag"""
    for s in getattr(n, "how", ())[1:]:
        for t in subterms(s):
            if t.op == "s_flags" and int(t.a[0].a[0]) & ~0x10000000 != 0x60000020 or t.op == "s_width":
                return True
    return False


def shown(n):
    """(Display or Debug, precision) a value is shown with"""
    h = getattr(n, "how", ("disp",))
    pr = None
    for s in h[1:]:
        for t in subterms(s):
            if t.op == "s_prec":
                pr = int(t.a[0].a[0])
            elif t.op == "s_flags" and pr is None and int(t.a[0].a[0]) & 0x10000000:
                pr = 0
    # for numbers with a precision there is no difference
    return "dbg" if pr is not None else h[0], pr


def okfacts(f):
    """clean, apart from overflow guards"""
    return cleanfacts({k: w for k, w in f.items() if not (k.op == "alt" and w[0] == "!")}, EXTRA)


def check(ctx, f, clause, nodes, facts, sp, view=None):
    """every way the nodes can look like under the facts against sp(x) -> list of strings and terms"""
    try:
        ls = H.leafs(nodes, facts)
    except engine.GiveUp as e:
        return ctx.lost("%s: %s" % (clause, e))
    for lf, items in ls:
        act = (view or H.text)(items)
        for xf, kind, exp in explore(sp, lf):
            if exp is None:
                continue
            cmp = Cmp(xf, EXTRA)
            r = same(cmp, exp, act) if isinstance(act, list) else act
            if r is False and not (okfacts(lf) and okfacts(xf)):
                r = None
            ctx.ob(clause, r, f, "" if r else "when %s\n   expected %s\n   shown    %s" % (
                showfacts(xf), [e if isinstance(e, str) else short(e[1] if isinstance(e, tuple) and isinstance(e[1], Term) else e, 200) if isinstance(e, Term) or isinstance(e, tuple) and isinstance(e[1], Term) else "…" for e in exp],
                [a if isinstance(a, str) else short(a[1], 200) if a[0] == "v" else "(loop)" for a in act]))


def value(nodes):
    return nodes


@prop("C38", "symbolic page: the element tree of the comparison template over all alternatives and loops, cell by cell against a specification")
def c38(ctx):
    r = compare_page(ctx)
    if not r:
        return
    f, nodes = r
    S_ = P(engine.Eng(ctx.prog(WEB)).argname(f, 1))
    me = lambda n: get(S_, "templates::Compare", n)
    diff, args, org, repos, cached = [me(n) for n in ("diff", "args", "organization", "repos", "was_cached")]
    A = lambda n: get(args, "CompareArgs", n)
    vs = H.forks(nodes, {}, {"table", "input", "select"})
    for F, ns in vs:
        els = list(H.elements(ns))
        inputs(ctx, f, F, els, A, repos, cached)
        lists(ctx, f, F, els, diff)
        table(ctx, f, F, els, diff, A, org)


def attr_id(o):
    v = o.attrs.get("id") or []
    return v[0].s if len(v) == 1 and v[0].kind == "str" else None


def inputs(ctx, f, F, els, A, repos, cached):
    """the form repeats the parameters of the request"""
    name = "the form repeats the parameters of the request"
    by = {}
    for o, c, outer in els:
        if attr_id(o):
            by.setdefault(attr_id(o), []).append((o, c, outer))

    def one(i):
        r = by.get(i, [])
        if len(r) != 1 or r[0][2]:
            ctx.ob(name, False if not r else None, f, "%d elements with the id %s" % (len(r), i))
            return None
        return r[0]

    def val(i, sp):
        e = one(i)
        if e:
            check(ctx, f, name, e[0].attrs.get("value", []), F, sp)
    val("input_old", lambda x: [A("old")])
    val("input_new", lambda x: [A("new")])
    val("input_path_pattern", lambda x: [A("path_pattern")])
    val("input_threshold", lambda x: [A("threshold")])
    for i in ("pallet", "extrinsic"):
        val("input_" + i, lambda x, i=i: [x.opt(A(i)) or ".*"])
    for i, sp in (("checkbox_ignore_errors", lambda x: x.is_(A("ignore_errors"))),
                  ("checkbox_git_pull", lambda x: (lambda v: True if v is None else x.is_(v))(x.opt(A("git_pull"))))):
        e = one(i)
        if e:
            flag(ctx, f, name + " (check boxes)", e[0], "checked", F, sp)
    e = one("select_repo")
    if e:
        ls = [n for n in e[1] if n.kind == "loop"]
        if len(ls) == 1 and ls[0].src is repos and ls[0].conds in (frozenset(), None):
            it = T("elem", repos, "x")
            for o, c, _ in H.elements(ls[0].body):
                if o.tag == "option":
                    check(ctx, f, name, o.attrs.get("value", []), F, lambda x: [it])
                    check(ctx, f, name, c, F, lambda x: [it])
                    flag(ctx, f, name + " (selections)", o, "selected", F, lambda x: x.eq(A("repo"), it))
        else:
            ctx.ob(name, None, f, "the list of repositories has an unknown shape")
    for i, fld_, en in (("select_unit", "unit", "Dimension"), ("select_method", "method", "CompareMethod")):
        e = one(i)
        if not e:
            continue
        opts = [(o, c) for o, c, outer in H.elements(e[1]) if o.tag == "option"]
        names = reflected(ctx, en)
        if names is None:
            ctx.ob(name, None, f, "names of %s not found" % en)
            continue
        got = []
        for o, c in opts:
            v = o.attrs.get("value", [])
            t = v[0].v if len(v) == 1 and v[0].kind == "val" else T("str", v[0].s) if len(v) == 1 and v[0].kind == "str" else None
            if t is None or t.op != "str":
                got = None
                break
            k = names.get(t.a[0])
            if k is None:
                ctx.ob(name, False, f, "option %s does not exist" % t.a[0])
                continue
            got.append(k)
            check(ctx, f, name, c, F, lambda x: [t.a[0]])
            flag(ctx, f, name + " (selections)", o, "selected", F, lambda x: x.isv(A(fld_), en, k))
        ctx.ob(name, None if got is None else sorted(got) == sorted(v[0] for v in ADTS[adt(en)]["vs"]), f, "options of %s: %s" % (i, got))
    check(ctx, f, "the page says whether the comparison was cached", cells_after(els, "Cache"), F, lambda x: ["Yes" if x.is_(cached) else "No"])


def reflected(ctx, en):
    """text the parser of the enum accepts -> variant"""
    import re
    fs = [g for g in ctx.prog(WEB).fns.values() if re.search(r"%s as std::str::FromStr>::from_str$" % en, g.npath)]
    fs = fs or [g for g in ctx.prog(CORE).fns.values() if re.search(r"%s as std::str::FromStr>::from_str$" % en, g.npath)]
    if not fs:
        return None
    out = {}
    for o in ctx.outs(fs[0]) or ():
        if o.kind == "ret" and o.val.op == "adt" and o.val.a[1] == 0 and o.val.a[2].op == "adt":
            for k, w in o.st.facts.items():
                if w[0] == "=" and k.op == "eq" and w[1] is engine.TRUE:
                    for t in k.a:
                        if t.op == "str":
                            out[t.a[0]] = ADTS[adt(en)]["vs"][o.val.a[2].a[1]][0]
                elif w[0] == "=" and w[1].op == "str":
                    out[w[1].a[0]] = ADTS[adt(en)]["vs"][o.val.a[2].a[1]][0]
    return out or None


def flag(ctx, f, clause, o, attr, F, sp):
    """a boolean attribute is there exactly when sp(x) is true"""
    rows = [(dict(F), attr in o.attrs)]
    for n in o.attrs.get("", []):
        if n.kind != "alt":
            return ctx.ob(clause, None, f, "%s in a tag" % n.kind)
        rows = [(g, on or any(attr in m.attrs for m in b if m.kind == "open")) for fa, on in rows for bf, b in n.bs
                for g in [H.add_facts(fa, bf)] if g is not None]
    for fa, on in rows:
        for xf, kind, want in explore(sp, fa):
            r = want == on
            if not r and not (cleanfacts(fa, EXTRA) and cleanfacts(xf, EXTRA)):
                r = None
            ctx.ob(clause, r, f, "" if r else "when %s: %s %s" % (showfacts(xf), attr, "set" if on else "not set"))


def cells_after(els, label):
    """content of the cell right of a cell with this label"""
    for o, c, outer in els:
        if o.tag == "tr":
            tds = [cc for oo, cc, _ in H.elements(c) if oo.tag == "td"]
            if len(tds) == 2 and any(n.kind == "str" and n.s.strip().startswith(label) for n in tds[0]):
                return tds[1]
    return []


def named(v, u):
    """the text of the unit"""
    return True if v is u or v.op == "fmt" and len(v.a) == 1 and v.a[0].a[0] is u else None if u in set(subterms(v)) else False


def excluded(f, src):
    """do the facts say that no element of the sequence is like this one?"""
    return any(k.op == "any" and k.a[0] is src and w == ("=", engine.FALSE) and any(all(test_item(f, a, b) is True for a, b in c) for c in k.a[1])
               for k, w in f.items())


def lists(ctx, f, F, els, diff):
    """failed comparisons and warnings are listed"""
    name = "failed comparisons and warnings are listed"
    e = T("elem", diff, "x")
    ch = get(e, "ExtrinsicDiff", "change")
    kinds = {n: i for i, (n, *_ ) in enumerate(ADTS[adt("TermDiff")]["vs"])}
    want = {"Warning": fld(ch, kinds["Warning"], 1), "Failed": fld(ch, kinds["Failed"], 0), "Changed": None}
    loops, seen = [], set()
    for o, c, outer in els:
        for n in outer:
            if isinstance(n, H.Node) and id(n) not in seen and not any(m.kind == "open" and m.tag == "tr" for m in n.body):
                seen.add(id(n))
                loops.append(n)
    for kind, txt in want.items():
        g = H.add_facts(F, [(disc(ch, 3), ("=", I(kinds[kind])))])
        if g is None or excluded(g, diff):
            continue
        got = []
        for n in loops:
            r = rows_over(n, diff)
            if r is None:
                continue
            for conds, sub in r:
                h = H.add_facts(g, conds)
                if h is None:
                    continue
                for lf, items in H.leafs(n.body, h):
                    for a in H.text(items):
                        got.append((lf, subst(strip(a[1]), sub) if not isinstance(a, str) else a))
        if txt is None:
            r = not got
        else:
            r = len(got) == 1 and not isinstance(got[0][1], str) and Cmp(got[0][0], EXTRA).same(txt, got[0][1])
        if r is False and not all(isinstance(t, str) or clean(t, EXTRA) for _, t in got):
            r = None
        ctx.ob(name, r, f, "" if r else "%s: %s" % (kind, [short(t, 200) if isinstance(t, Term) else t for _, t in got]))
    # the number in front of each list
    for label, kind in (("errors generated", "Failed"), ("warnings generated", "Warning")):
        for o, c, outer in els:
            if o.tag != "button":
                continue
            for lf, items in H.leafs(c, F):
                tx = H.text(items)
                if len(tx) == 2 and tx[1] == label and not isinstance(tx[0], str):
                    cond = frozenset({frozenset({(disc(ch, 3), ("=", I(kinds[kind])))})})
                    v = tx[0][1]
                    r = None
                    if v.op == "len" and v.a[0].op == "collect" and v.a[0].a[1] is diff and isinstance(v.a[0].a[2], frozenset):
                        r = frozenset(d for d, _ in v.a[0].a[2]) == cond
                        if v.a[0].a[0] != "Vec":
                            r = False if r and v.a[0].a[0] in ("Set", "Map") else None
                    elif v.op == "len" and v.a[0] is diff:
                        r = False
                    ctx.ob("the number of errors and warnings", r, f, "" if r else "%s: %s" % (label, short(v, 300)))


def rows_over(n, diff):
    """[(conditions, substitution)] when the loop runs over the differences, directly or collected"""
    if n.src is diff:
        return [(n.conds, {})]
    if n.src.op == "collect" and n.src.a[0] == "Vec" and n.src.a[1] is diff and isinstance(n.src.a[2], frozenset):
        return [(frozenset(d) | frozenset(n.conds), {T("elem", n.src, "x"): v}) for d, v in n.src.a[2] if isinstance(v, Term)]
    return None


COLS = ["File", "Extrinsic", "Old [", "New [", "Rel. Change", "Abs. Change", "Old Equation", "New Equation", "Used Variables"]


def table(ctx, f, F, els, diff, A, org):
    name = "every compared component has one row"
    tabs = [(o, c) for o, c, outer in els if o.tag == "table" and attr_id(o) != "config_table"]
    if len(tabs) != 1:
        return ctx.ob(name, False if not tabs else None, f, "%d tables" % len(tabs))
    inner = list(H.elements(tabs[0][1]))
    heads = []
    for o, c, _ in inner:
        if o.tag == "th":
            t = [H.text(i) for _, i in H.leafs(c, F)]
            heads.append(t[0][0] if t and t[0] and isinstance(t[0][0], str) else "?")
            if heads[-1] in ("Old [", "New ["):
                check(ctx, f, "the columns name the unit", c, F, lambda x: [heads[-1], (None, lambda cmp, v: named(v, A("unit"))), "]"])
    e = T("elem", diff, "x")
    ch = get(e, "ExtrinsicDiff", "change")
    kinds = {n: i for i, (n, *_) in enumerate(ADTS[adt("TermDiff")]["vs"])}
    trs = [(o, c, outer[-1]) for o, c, outer in inner if o.tag == "tr" and outer and isinstance(outer[-1], H.Node)]
    for kind in ("Changed", "Warning", "Failed"):
        g = H.add_facts(F, [(disc(ch, 3), ("=", I(kinds[kind])))])
        if g is None or excluded(g, diff):
            continue
        rows = []
        for o, c, loop in trs:
            if len([1 for o2, c2, out2 in inner if out2 and out2[-1] is loop and o2.tag == "tr"]) != 1:
                ctx.ob(name, None, f, "several rows per component")
                continue
            rs = rows_over(loop, diff)
            if rs is None:
                ctx.ob(name, None, f, "a loop over %s" % short(loop.src, 200))
                continue
            for conds, sub in rs:
                h = H.add_facts(g, [(substf(k, sub), w) for k, w in conds])
                if h is not None:
                    rows.append((h, sub, c))
        if kind == "Failed":
            ctx.ob("failed comparisons have no row", not rows, f, "")
            continue
        exact = [h for h, _, _ in rows if h == g]
        if len(rows) == 1:
            ctx.ob(name, True if exact else (False if cleanfacts(rows[0][0], EXTRA) else None), f,
                   "" if exact else "only when %s" % showfacts(rows[0][0]))
        else:
            ctx.ob(name, False if not rows else None, f, "%d rows of a %s component" % (len(rows), kind))
        for h, sub, c in rows:
            complete(ctx, f, name, h, c, fld(ch, kinds[kind], 0))
            for rf, row in H.forks(c, h, {"td", "/td"}):
                tds = [(o2, c2) for o2, c2, _ in H.elements(row) if o2.tag == "td"]
                if len(tds) != len(heads):
                    ctx.ob(name, False, f, "%d cells for %d columns" % (len(tds), len(heads)))
                    continue
                term = fld(ch, kinds[kind], 0)
                for head, (o2, c2) in zip(heads, tds):
                    cell(ctx, f, head, o2, c2, rf, e, term, A, org, sub)


def complete(ctx, f, name, h, nodes, t):
    """the alternatives within a row leave no component out"""
    tc = lambda n: get(t, "TermChange", n)
    rc = {n: i for i, (n, *_) in enumerate(ADTS[adt("RelativeChange")]["vs"])}
    def alts(ns, g):
        for n in ns:
            if n.kind == "alt":
                yield g, [bf for bf, _ in n.bs]
                for bf, b in n.bs:
                    g2 = H.add_facts(g, bf)
                    if g2 is not None:
                        yield from alts(b, g2)
            elif n.kind == "val" and n.v.op == "alt" and all(isinstance(b, frozenset) for b, _ in n.v.a[0]):
                yield g, [b for b, _ in n.v.a[0]]
            elif n.kind == "open":
                for v in n.attrs.values():
                    yield from alts(v, g)

    for kind, o, w in (("Unchanged", 1, 1), ("Added", 0, 1), ("Removed", 1, 0), ("Changed", 1, 1)):
        g = H.add_facts(h, [(disc(tc("change"), len(rc)), ("=", I(rc[kind]))), (disc(tc("old_v"), 2), ("=", I(o))), (disc(tc("new_v"), 2), ("=", I(w)))])
        for g, bs in alts(nodes, g) if g is not None else ():
            u = engine.uncovered(g, bs)
            ctx.ob(name, u is None or (False if cleanfacts(u, EXTRA) else None), f, "" if u is None else "no row when %s" % showfacts(u))


def substf(t, sub):
    return subst(t, sub) if sub else t


def cell(ctx, f, head, o, c, rf, e, t, A, org, sub):
    tc = lambda n: get(t, "TermChange", n)
    file, nm, unit = get(e, "ExtrinsicDiff", "file"), get(e, "ExtrinsicDiff", "name"), A("unit")
    name = "column %s" % head.rstrip(" [")
    ck = lambda nodes, sp, view=None, what="": check(ctx, f, name + what, nodes, rf, sp, view)
    order = o.attrs.get("data-order", [])
    old, new = tc("old_v"), tc("new_v")
    if head == "File":
        ck(c, lambda x: [file])
    elif head == "Extrinsic":
        ck(c, lambda x: [nm], view=lambda its: H.text(its)[:1])
    elif head in ("Old [", "New ["):
        v = old if head == "Old [" else new

        def sp(x):
            p = x.opt(v)
            return ["-"] if p is None else [T("call", FMT, unit, p)]
        ck(c, sp)

        def so(x):
            p = x.opt(v)
            return [I(0)] if p is None else [p]
        ck(order, so, view=nums, what=": sort key")
    elif head in ("Rel. Change", "Abs. Change"):
        rel = head[0] == "R"
        p = tc("percent")

        def both(x):
            a, b = x.opt(old), x.opt(new)
            return (None, None) if a is None or b is None else (a, b)

        def sp(x):
            k = x.variant(tc("change"), "RelativeChange")
            if k != "Changed":
                return [k]
            if rel:
                if x.is_(T("flt", p, FL(0))):
                    return [OR, ["-", (("dbg", 2), T("fabs", p)), "%"], ["-", (("dbg", 2), T("neg", p)), "%"], [(("dbg", 2), p), "%"]]
                if x.is_(T("flt", FL(0), p)):
                    return [OR, ["+", (("dbg", 2), T("fabs", p)), "%"], ["+", (("dbg", 2), p), "%"]]
                return [p]
            a, b = both(x)
            if a is None:
                return None
            d = lambda cmp, v: absdiff(cmp, v, unit, a, b)
            if x.lt(b, a):
                return ["-", (None, d)]
            if x.lt(a, b):
                return ["+", (None, d)]
            return [OR, [(None, lambda cmp, v: True)], ["0"]]
        ck(c, sp)

        def colour(its):
            st = [i[2].get("style", []) for i in its if i[0] == "o" and i[1] == "p"]
            return [n.s for s in st for n in s if n.kind == "str"]

        def sc(x):
            k = x.variant(tc("change"), "RelativeChange")
            if k != "Changed":
                return None
            if rel:
                if x.is_(T("flt", p, FL(0))):
                    return ["color:green"]
                return ["color:red"] if x.is_(T("flt", FL(0), p)) else None
            a, b = both(x)
            if a is None:
                return None
            return ["color:green"] if x.lt(b, a) else ["color:red"] if x.lt(a, b) else None
        ck(c, sc, view=colour, what=": increases are red, decreases green")

        def so(x):
            k = x.variant(tc("change"), "RelativeChange")
            if k != "Changed":
                return [{"Unchanged": I(0), "Added": MAX, "Removed": MIN}[k]]
            if rel:
                return [(None, lambda cmp, v: sortpct(cmp, v, p))]
            a, b = both(x)
            if a is None:
                return None
            neg = x.lt(b, a)
            return [(None, lambda cmp, v: sortabs(cmp, v, a, b, neg))]
        ck(order, so, view=nums, what=": sort key")
    elif head in ("Old Equation", "New Equation"):
        v, rev = (tc("old"), A("old")) if head[0] == "O" else (tc("new"), A("new"))

        def sp(x):
            q = x.opt(v)
            return ["-"] if q is None else [q]

        def view(its):
            return [i for i in H.text(its) if i != "CODE"]
        ck(c, sp, view=view)

        def href(its):
            hs = [i[2].get("href", []) for i in its if i[0] == "o" and i[1] == "a"]
            return H.text([("s", n.s) if n.kind == "str" else ("v", n.v, n) for h in hs for n in h])

        def sl(x):
            if x.opt(v) is None:
                return None
            return ["https://github.com/", org, "/", A("repo"), "/tree/", rev, "/", file, "#:~:text=fn", nm]
        ck(c, sl, view=href, what=": link to the code")
    elif head == "Used Variables":
        ck(c, lambda x: [tc("scope")])
    else:
        ctx.ob("columns", None, f, "unknown column %s" % head)


def nums(its):
    return [("v", I(int(a)), None) if isinstance(a, str) and a.lstrip("-").isdigit() else a for a in H.text(its)]


def absdiff(cmp, v, unit, a, b):
    if v.op == "call" and v.a[0] == FMT:
        r = cmp.same(unit, v.a[1])
        if r is not True:
            return r
        d = v.a[2]
        if is_diff(d, a, b, cmp.f):
            return True
        if d.op == "op" or d.op == "call" or d.op in ("cast", "neg", "iabs"):
            # another way to compute the difference; it has to involve both values
            st = set(subterms(d))
            return None if a in st and b in st else False
        return False
    return None


CAP = (1 << 32) - 1


def sortpct(cmp, v, p):
    def milli(t):
        return t.op == "cast" and t.a[0] in ("i64", "i128", "isize") and t.a[1] is T("fop", "Mul", FL(1000), p)
    if any(t.op == "cast" and t.a[0] in ("i8", "i16", "u8", "u16", "u32", "u64", "u128", "usize") and p in set(subterms(t)) for t in subterms(v)):
        return False  # decreases, or changes the output shows apart, sort alike
    if v is I(CAP):
        # the cap itself, where the value is known to reach it
        ms = [t for k in cmp.f for t in subterms(k) if milli(t)]
        return True if any(engine.fact_lt(cmp.f, m, I(CAP)) is False for m in ms) else None if ms else False
    st = set(subterms(v))
    if p not in st:
        return False
    if any(t.op in ("fabs", "neg", "iabs") for t in st):
        return False
    if v.op == "min":
        return v.a[0] is I(CAP) and milli(v.a[1])
    if milli(v):
        return True if engine.fact_lt(cmp.f, I(CAP), v) is False else None
    if v.op == "max" and v.a[0].op == "int" and int(v.a[0].a[0]) >= 0:
        return False  # all decreases sort alike
    if v.op == "cast" and (v.a[1] is p or v.a[1].op == "fop" and v.a[1].a[0] == "Mul" and v.a[1].a[1] in [FL(1), FL(10)]):
        return False  # shown digits do not count
    return None


def is_diff(d, a, b, f):
    """the absolute difference of two unsigned numbers"""
    if d.op == "op" and d.a[0] == "Sub" and {d.a[1], d.a[2]} == {a, b}:
        return engine.fact_lt(f, d.a[1], d.a[2]) is False
    return d.op == "call" and str(d.a[0]).endswith("::abs_diff") and {d.a[1], d.a[2]} == {a, b}


def sortabs(cmp, v, a, b, neg):
    w = v
    ng = False
    if w.op == "neg":
        w, ng = w.a[0], True
    elif w.op == "int" and int(w.a[0]) < 0:
        w, ng = I(-int(w.a[0])), True
    if ng != neg:
        return False if w.op in ("int", "cast") else None
    small = [k.a[0] for k, x in cmp.f.items() if k.op == "lt" and is_diff(k.a[0], a, b, cmp.f) and k.a[1] is I(1 << 127) and x == ("=", engine.TRUE)]
    large = [k.a[0] for k, x in cmp.f.items() if k.op == "lt" and is_diff(k.a[0], a, b, cmp.f) and k.a[1] is I(1 << 127) and x == ("=", engine.FALSE)]
    if w.op == "int":
        return bool(large) and w is MAX if large or not small else False
    if w.op == "cast" and is_diff(w.a[1], a, b, cmp.f):
        return True if small else None if large else False
    return None
