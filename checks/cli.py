"""The command line: what is compared, what is printed, what its option values mean."""
import re
from check import *
from spec import *
import html as H
import engine

C = "subweight_core::"
PF = C + "parse::pallet::"
FMT = C + "Dimension::fmt_value"
SORT = C + "sort_changes"
EXTRA = frozenset({FMT, "clap::Parser::parse", SORT, "rx_replace_all", "html_encode"})
MARKDOWN = "||  |-|||           "


def table_of(ctx):
    """(main, its rows)"""
    prog = ctx.prog(CLI)
    f = prog.fns and next((f for f in prog.fns.values() if f.npath == "subweight::main"), None)
    if not f:
        return ctx.lost("the entry point of the command line was not found")
    outs = ctx.outs(f, join=True)
    return outs and (f, [settled(o) for o in outs])


def cmd_of(outs):
    for o in outs:
        for k in o.st.facts:
            for t in subterms(k):
                if t.op == "call" and str(t.a[0]).endswith("Parser::parse") and len(t.a) == 1:
                    return t


def sorted_of(d):
    """the differences after sorting, printed the other way round"""
    return T("rev", T("after", call(SORT, d), 0))


class Plan:
    """what one command line must do"""
    def __init__(self, kind, **k):
        self.kind = kind
        self.__dict__.update(k)


def plan(cmd):
    def sp(x):
        sub = get(cmd, "MainCmd", "subcommand")
        if x.variant(sub, "SubCommand") == "Parse":
            p = fld(fld(sub, vix("SubCommand", "Parse"), 0), 0, 0)
            r = x.res(call(PF + "parse_files", get(p, "ParseFilesCmd", "files")))
            return Plan("err" if r[0] == "err" else "parsed")
        c = fld(sub, vix("SubCommand", "Compare"), 0)
        k = x.variant(c, "CompareCmd")
        p = fld(c, vix("CompareCmd", k), 0)
        name = "Compare%sCmd" % k
        g = lambda n: get(p, name, n)
        params, filt = g("params"), g("filter")
        if k == "Files":
            def read(n):
                if x.is_(get(params, "CompareParams", "ignore_errors")):
                    return call(PF + "try_parse_files", g(n))
                r = x.res(call(PF + "parse_files", g(n)))
                if r[0] == "err":
                    raise Fail(None)
                return r[1]
            old = read("old")
            d = call(C + "compare_files", old, read("new"), params, filt)
        else:
            d = call(C + "compare_commits", g("repo"), g("old"), g("new"), params, filt, g("path_pattern"), I((1 << 64) - 1))
        r = x.res(d)
        if r[0] == "err":
            raise Fail(None)
        fmt_ = g("format")
        shown = x.variant(get(fmt_, "FormatParams", "format"), "OutputFormat")
        if shown in ("BriefHuman", "JSON"):
            raise Fail(None)
        return Plan("shown", diff=call(C + "filter_changes", r[1], filt), format=shown, fp=fmt_, unit=get(params, "CompareParams", "unit"))
    return sp


def prints(o):
    return [e for e in o.st.eff if e.op == "eff" and e.a[0] == "print"]


def expand(v, f, limit=6000):
    """[(facts, items)]: the text v can be; items: strings, ('v', how, term), ('loop', term)"""
    if not isinstance(v, Term):
        return [(f, [("?", v)])]
    if v.op == "str":
        return [(f, [v.a[0]])]
    if v.op == "txt":
        return expand(v.a[0], f, limit)
    if v.op == "alt":
        out = []
        for bf, w in v.a[0]:
            g = H.add_facts(f, bf)
            if g is not None:
                out += expand(w, g, limit) if isinstance(w, Term) else expand_all(w, g, limit)
        return out
    if v.op == "fmt":
        return expand_all(v.a, f, limit)
    if v.op == "sv":
        return expand(v.a[0], f, limit)
    if v.op in ("disp", "dbg"):
        w = v.a[0]
        if v.op == "disp" and len(v.a) == 1 and w.op in ("str", "fmt", "alt", "sv"):
            return expand(w, f, limit)
        if w.op == "alt":
            return [x for bf, y in w.a[0] for g in [H.add_facts(f, bf)] if g is not None for x in expand(T(v.op, y, *v.a[1:]), g, limit)]
        return [(g, [("v", v if y is w else T(v.op, y, *v.a[1:]), y)]) for g, y in H.cases(w, f)]
    if v.op == "strloop":
        return [(f, [("loop", v)])]
    return [(g, [("v", T("disp", y), y)]) for g, y in H.cases(v, f)]


def expand_all(vs, f, limit):
    acc = [(f, [])]
    for v in vs:
        acc = [(g, its + i2) for f1, its in acc for g, i2 in expand(v, f1, limit)]
        if len(acc) > limit:
            raise engine.GiveUp("too many alternatives in the output")
    return acc


def joined(items):
    out = []
    for i in items:
        if isinstance(i, str) and out and isinstance(out[-1], str):
            out[-1] += i
        elif i != "":
            out.append(i)
    return out


def seq(v):
    """[pieces] of a sequence value: ('one', x) or ('many', x)"""
    if v.op == "arr":
        return [("one", x) for x in v.a]
    if v.op == "cat":
        return [(p.op, p.a[0]) for p in v.a]
    return [("many", v)]


def seqs(v, f):
    """[(facts, pieces)] with alternatives of pieces resolved"""
    if v.op == "alt":
        return [r for bf, w in v.a[0] for g in [H.add_facts(f, bf)] if g is not None for r in seqs(w, g)]
    acc = [(f, [])]
    for op, x in seq(v):
        if x.op == "alt" and op == "one":
            new = []
            for g, ps in acc:
                for bf, w in x.a[0]:
                    h = H.add_facts(g, bf)
                    if h is None:
                        continue
                    if isinstance(w, tuple):
                        new += [(h2, ps + q) for h2, q in seqs(T("cat", *w), h)]
                    else:
                        new.append((h, ps + [("one", w)]))
            acc = new
        elif op == "many" and x.op in ("arr", "cat", "alt"):
            acc = [(h, ps + q) for g, ps in acc for h, q in seqs(x, g)]
        else:
            acc = [(g, ps + [(op, x)]) for g, ps in acc]
    return [(g, [p for p in ps if not (p[1].op == "txt" and p[1].a[0] is S(""))]) for g, ps in acc]


class Out_:
    """a printed table: head: [cells], rows: [(source or None, [(conditions, row cells maker)])]"""
    def __init__(self):
        self.head, self.rows, self.presets, self.odd = None, [], [], None


def console_tables(v, f):
    """[(facts, Out_)] for a table drawn by the console library"""
    res = []
    for g, ps in seqs(v, f):
        t = Out_()
        for op, x in ps:
            if op == "one" and x.op == "tabpreset":
                t.presets.append(x.a[0])
            elif op == "one" and x.op == "tabhead":
                t.head = x.a[0]
            elif op == "one" and x.op == "tabrow":
                t.rows.append((None, [(frozenset(), x.a[0])]))
            elif op == "many" and x.op == "collect" and x.a[0] == "Vec" and isinstance(x.a[2], frozenset) and all(isinstance(w, Term) and w.op == "tabrow" for _, w in x.a[2]):
                t.rows.append((x.a[1], [(d, w.a[0]) for d, w in x.a[2]]))
            elif op == "many" and x.op == "flatcollect" and isinstance(x.a[1], frozenset) and \
                    all(len(w) == 1 and w[0].op == "one" and w[0].a[0].op == "tabrow" for _, w in x.a[1]):
                t.rows.append((x.a[0], [(d, w[0].a[0].a[0]) for d, w in x.a[1]]))
            else:
                t.odd = "a table with %s" % short(x, 120)
        res.append((g, t))
    return res


def row_cells(v, f):
    """[(facts, [cell items])] of a table row"""
    out = []
    for g, ps in seqs(v, f):
        if any(op != "one" for op, _ in ps):
            out.append((g, None))
            continue
        acc = [(g, [])]
        for _, x in ps:
            acc = [(h2, cs + [joined(i)]) for h, cs in acc for h2, i in expand(x, h)]
        out += acc
    return out


def csv_lines(items):
    """the items of comma separated text as lines of cells"""
    lines, row, cell = [], [], []
    for it in items:
        if isinstance(it, str):
            for tok in re.split("([,\n])", it):
                if tok == ",":
                    row.append(joined(cell))
                    cell = []
                elif tok == "\n":
                    row.append(joined(cell))
                    lines.append(row)
                    row, cell = [], []
                elif tok:
                    cell.append(tok)
        elif it[0] == "loop":
            if row or cell:
                # rows in the middle of a line: wrong when the line so far is written out
                return False if all(isinstance(x, str) for c in row + [cell] for x in c) else None
            lines.append(it[1])
        else:
            cell.append(it)
    if row or cell:
        return False if isinstance(items[-1], str) else None
    return lines


def partition(f, rows, skip, limit=20000):
    """[(facts, indexes of the rows that apply)] for a finite splitting of f on the conditions of the rows"""
    out, stack = [], [f]
    while stack:
        g = stack.pop()
        limit -= 1
        if limit < 0:
            raise engine.GiveUp("too many conditions on rows")
        hit, open_ = [], None
        for i, (d, _) in enumerate(rows):
            h = H.add_facts(g, d)
            if h is None:
                continue
            if h == g:
                hit.append(i)
            else:
                open_ = open_ or next(((k, c) for k, w in sorted(d, key=lambda kw: str(kw[0])) for c in ([w[1]] if w[0] == "=" else list(w[1])) if fact_test(g, k, c) is None), None)
                if open_ is None:
                    hit.append(i)
        if open_ is None:
            if not skip(g):
                out.append((g, hit))
            continue
        for pos in (True, False):
            h = dict(g)
            if assume(h, open_[0], open_[1], pos):
                stack.append(h)
    return out


ANSI = re.compile("\x1b\\[([0-9;]*)m")


def colours(items):
    codes, plain = [], []
    for it in items:
        if isinstance(it, str):
            codes += ANSI.findall(it)
            it = ANSI.sub("", it)
        plain.append(it)
    return codes, joined(plain)


def how(d):
    """(plus sign, precision) a number is shown with"""
    plus = prec = None
    for s in d.a[1:]:
        for t in subterms(s):
            if t.op == "s_prec":
                prec = int(t.a[0].a[0]) if isinstance(t.a[0], Term) else int(t.a[0])
            elif t.op == "s_flags":
                fl = int(t.a[0].a[0]) if isinstance(t.a[0], Term) else int(t.a[0])
                plus = bool(fl & 0x00200000)
    return plus, prec


def same_cell(cmp, exp, act):
    """exp: one string or ('disp'|'dbg', term) or predicate"""
    if callable(exp):
        return exp(cmp, act)
    if len(act) > 1:
        return False if all(isinstance(a, str) or a[0] == "v" and clean(a[2], EXTRA) for a in act) else None
    if isinstance(exp, str):
        if not act:
            return exp == ""
        if isinstance(act[0], str):
            return act[0] == exp
        return False if act[0][0] == "v" and clean(act[0][2], EXTRA) else None
    if not act or isinstance(act[0], str):
        return False
    if act[0][0] != "v":
        return None
    kind, t = exp
    r = cmp.same(t, act[0][2])
    if r is True and act[0][1].op != kind and not (isinstance(t, Term) and t in engine.NUM):
        return False
    return r


def regex_bad(fp):
    p = get(fp, "FormatParams", "strip_path_prefix")

    def bad(f):
        return fact_test(f, disc(p, 2), I(1)) is True and any(
            k.op == "disc" and k.a[0].op == "call" and k.a[0].a[0] == "Regex::new" and w == ("=", I(1)) for k, w in f.items())
    return bad


def row_spec(e, kind, pl, terms, csv):
    ch = get(e, "ExtrinsicDiff", "change")
    kinds = {v[0]: i for i, v in enumerate(ADTS[adt("TermDiff")]["vs"])}
    fp = pl.fp
    o = lambda n: get(fp, "FormatParams", n)

    def sp(x):
        file = get(e, "ExtrinsicDiff", "file")
        p = x.opt(o("strip_path_prefix"))
        if p is not None:
            r = x.res(call("Regex::new", p))
            if r[0] == "err":
                raise Infeasible()
            file = call("rx_replace_all", r[1], file, S(""))
        cells = [("disp", file), ("disp", get(e, "ExtrinsicDiff", "name"))]
        if csv and separates(x, file):
            def quoted(cmp, act):
                odd = [a for a in act if not isinstance(a, str) and a[0] != "v"]
                if len(act) != 3 or act[0] != '"' or act[2] != '"' or isinstance(act[1], str) or odd:
                    return None if odd else False
                v = act[1][2]
                if v.op == "call" and v.a[0] == "str_replace" and v.a[2:] == (S('"'), S('""')):
                    rs = [Cmp(g, EXTRA).same(file, y) for g, y in H.cases(v.a[1], cmp.f)]
                    return False if False in rs else None if None in rs else True
                return False if clean(v, EXTRA) else None
            cells[0] = quoted
        if kind == "Failed":
            return cells + ["-", "-", "ERROR"], None, None
        t = fld(ch, kinds[kind], 0)
        tc = lambda n: get(t, "TermChange", n)
        for n in ("old_v", "new_v"):
            v = x.opt(tc(n))
            cells.append("" if v is None else ("disp", call(FMT, pl.unit, v)))
        k, colour = x.variant(tc("change"), "RelativeChange"), None
        if k == "Changed":
            pc = tc("percent")

            def cell(cmp, act):
                if len(act) != 1 or isinstance(act[0], str) or act[0][0] != "v":
                    return False if all(isinstance(a, str) for a in act) else None
                r = cmp.same(pc, act[0][2])
                return r if r is not True else how(act[0][1]) == (True, 2)
            cells.append(cell)
            if x.is_(T("flt", pc, FL(0))):
                colour = "32"
            elif x.is_(T("flt", FL(0), pc)):
                colour = "31"
        else:
            cells.append(k)
            colour = {"Added": "31", "Removed": "32"}.get(k)
        if x.is_(o("no_color")):
            colour = ""
        extra = []
        if terms:
            for n in ("old", "new"):
                v = x.opt(tc(n))
                extra.append("-" if v is None else ("disp", v))

            def scope(cmp, act):
                if len(act) != 1 or isinstance(act[0], str):
                    return False if act and all(isinstance(a, str) for a in act) else None
                return True if contains(act[0][2], tc("scope")) and (not csv or act[0][2].op == "call" and act[0][2].a[0] == "str_replace") else \
                    (False if clean(act[0][2], EXTRA) else None)
            extra.append(scope)
        return cells, colour, extra
    return sp


SEPARATORS = T("arr", *[T("char", ord(c)) for c in ',"\n\r'])


def separates(x, text):
    """a text that would not stay in one cell"""
    for k, w in x.f.items():
        if k.op == "call" and k.a[0] == "str_contains" and k.a[2] is SEPARATORS and w[0] == "=" and all(Cmp(g, EXTRA).same(text, v) for g, v in H.cases(k.a[1], x.f)):
            return w[1] is TRUE
    return x.is_(call("str_contains", text, SEPARATORS))


def check_rows(ctx, f, F, pl, head, groups, csv, terms, src_ok):
    kinds = {v[0]: i for i, v in enumerate(ADTS[adt("TermDiff")]["vs"])}
    bad = regex_bad(pl.fp)
    for kind in kinds:
        rows = []
        for src, rs in groups:
            e = T("elem", src, "x")
            d = disc(get(e, "ExtrinsicDiff", "change"), len(kinds))
            rows += [(frozenset(c), (e, src, v)) for c, v in rs if H.add_facts(F, list(c) + [(d, ("=", I(kinds[kind])))]) is not None]
        if not rows:
            ctx.ob("every %s comparison has a row" % kind, False if groups else None, f, "no row when\n   %s" % showfacts(F))
            continue
        e, src = rows[0][1][:2]
        if any(r[1][1] is not src for r in rows):
            ctx.ob("rows come from one list", None, f, "")
            continue
        ch = get(e, "ExtrinsicDiff", "change")
        g = H.add_facts(F, [(disc(ch, len(kinds)), ("=", I(kinds[kind])))])
        if g is None:
            continue
        for h, hit in partition(g, rows, bad):
            ctx.ob("every comparison has exactly one row", True if len(hit) == 1 else (False if cleanfacts(h, EXTRA) else None), f,
                   "" if len(hit) == 1 else "%d rows of a %s comparison when\n   %s" % (len(hit), kind, showfacts(h)))
        for d, (e, src, v) in rows:
            h = H.add_facts(g, d)
            if h is None or bad(h):
                continue
            for rf, cells in (csv_row(v, h) if csv else row_cells(v, h)):
                if not cells:
                    ctx.ob("every row has one cell per column", cells, f, "" if cells is None else "the row of a %s comparison is not one line" % kind)
                    continue
                short_ok = not csv and kind == "Failed"
                okn = len(cells) == head or short_ok and len(cells) <= head
                ctx.ob("every row has one cell per column", okn, f, "" if okn else "%d cells for %d columns in the row of a %s comparison" % (len(cells), head, kind))
                if not okn:
                    continue
                for xf, k2, r in explore(row_spec(e, kind, pl, terms, csv), rf):
                    if k2 != "ret":
                        continue
                    exp, colour, extra = r
                    cmp = Cmp(xf, EXTRA)
                    names = ["file", "extrinsic", "old value", "new value", "change", "old term", "new term", "scope"]
                    exps = exp + (extra or [])
                    for i, c in enumerate(cells):
                        codes, plain = colours(c) if i == 4 and kind != "Failed" else ([], c)
                        if i >= len(exps):
                            ok = None if kind != "Failed" else True
                            if ok is None:
                                ctx.ob("no unknown cell", None, f, "")
                            continue
                        r1 = same_cell(cmp, exps[i], plain)
                        if r1 is False and not cleanfacts(xf, EXTRA):
                            r1 = None
                        ctx.ob("the cell of the %s" % names[i], r1, f, "" if r1 else "shows %s when\n   %s" % (
                            [a if isinstance(a, str) else short(a[1], 200) for a in plain], showfacts(xf)))
                        if i == 4 and kind != "Failed" and colour is not None:
                            want = [colour, "0"] if colour else []
                            okc = codes == want
                            ctx.ob("the colour of the change", True if okc else (False if cleanfacts(xf, EXTRA) else None), f,
                                   "" if okc else "colour codes %s instead of %s when\n   %s" % (codes, want, showfacts(xf)))


def csv_row(pieces, f):
    out = []
    for g, items in expand_all(pieces, f, 6000):
        ls = csv_lines(items)
        whole = ls and all(isinstance(l, list) for l in ls)
        out.append((g, ls[0] if whole and len(ls) == 1 else False if ls is False or whole else None))
    return out


def shown(ctx, f, o, xf, pl, cond, seen):
    """the rows printed for one format"""
    ps = prints(o)
    want = sorted_of(pl.diff)
    if decide(xf, mkeq(mklen(want.a[0]), I(0))) is True or decide(xf, mkeq(mklen(pl.diff), I(0))) is True:
        return
    if len(ps) != 1:
        return ctx.ob("the result is printed once", False if cond else None, f, "%d texts printed when\n   %s" % (len(ps), showfacts(xf)))
    # the same output of another command is checked already
    m = {want: P("differences"), pl.fp: P("format"), pl.unit: P("unit")}
    key = (pl.format, subst(ps[0], m), frozenset((subst(k, m), w) for k, w in xf.items() if contains(k, pl.fp) or contains(k, want)))
    if key in seen:
        return
    seen.add(key)
    terms_ = get(pl.fp, "FormatParams", "print_terms")
    cols = ["File", "Extrinsic", "Old", "New", "Change"]
    csv = pl.format == "CSV"
    for g, items in expand(ps[0].a[1], xf):
        items = joined(items)
        tabs = []
        if csv:
            if not (isinstance(items[-1], str) and items[-1].endswith("\n")):
                ctx.ob("the printed text ends its last line", False if all(isinstance(i, str) for i in items[-1:]) else None, f, "")
                continue
            ls = csv_lines(items)
            if not isinstance(ls, list):
                ctx.ob("the CSV text consists of lines", ls, f, "" if ls is None else "the header and the first row share a line")
                continue
            if ls and ls[-1] == [[]]:
                ls = ls[:-1]
            t = Out_()
            heads = [l for l in ls if isinstance(l, list)]
            t.head = [c[0] if len(c) == 1 and isinstance(c[0], str) else "?" for c in heads[0]] if len(heads) == 1 and ls[0] is heads[0] else None
            t.rows = [(l.a[0], list(l.a[1])) for l in ls if not isinstance(l, list)]
            if not all(isinstance(r, frozenset) for r in [l.a[1] for l in ls if not isinstance(l, list)]):
                t.odd = "an unknown loop"
            tabs = [(g, t)]
        else:
            if len(items) == 2 and items[1] == "\n" and not isinstance(items[0], str) and items[0][0] == "v" and items[0][1].op == "disp":
                tabs = console_tables(items[0][2], g)
            else:
                ctx.ob("a drawn table is printed", False if all(isinstance(i, str) for i in items) else None, f, "")
                continue
        for h, t in tabs:
            if t.odd:
                ctx.ob("the structure of the output is known", None, f, t.odd)
                continue
            if not csv:
                hd = seqs(t.head, h) if t.head is not None else []
                head = [x.a[0] if op == "one" and x.op == "str" else "?" for op, x in hd[0][1]] if len(hd) == 1 else None
                md = [p.a[0] for p in t.presets if p.op == "str"]
                okp = (md == [MARKDOWN]) == (pl.format == "Markdown")
                ctx.ob("the markdown style is used for markdown", okp if len(md) == len(t.presets) else None, f, "")
            else:
                head = t.head
            if head is None or "?" in head:
                none = not csv and t.head is None
                ctx.ob("the header is known", False if none else None, f, "the table has no header" if none else "")
                continue
            tm = fact_test(h, terms_, TRUE)
            for b in ((True, False) if tm is None else (tm,)):
                k = dict(h)
                if not assume(k, terms_, B(b), True):
                    continue
                okh = [a.startswith(c) for a, c in zip(head, cols)] == [True] * 5 and len(head) == (8 if b else 5)
                ctx.ob("the header names the columns", okh, f, "" if okh else "%s" % head)
                if not okh:
                    continue
                okr = True
                for src, _ in t.rows:
                    r = Cmp(k, EXTRA).same(want, src) if src is not None else None
                    ctx.ob("the printed rows are the filtered differences, in descending order", r, f, "" if r else short(src, 300))
                    okr = okr and r
                if okr:
                    check_rows(ctx, f, k, pl, len(head), [r for r in t.rows if r[0] is not None], csv, b, okr)


def walk(ctx, f, outs, cmd, fn):
    for o in outs:
        if o.kind == "panic":
            fs = o.st.facts
            okp = any(k.op == "disc" and k.a[0].op == "call" and k.a[0].a[0] == "Regex::new" and w == ("=", I(1)) for k, w in fs.items()) or \
                any(k.op == "any" and "Regex::new" in str(k) and w == ("=", TRUE) for k, w in fs.items())
            fn(o, fs, None, "panic", okp)
            continue
        for xf, kind, pl in explore(plan(cmd), o.st.facts):
            fn(o, xf, pl, kind, True)


@prop("C34", "decision table of the command line from argument parsing to printing, against the prescribed sequence of reading, comparing, filtering, sorting")
def c34(ctx):
    r = table_of(ctx)
    if not r:
        return
    f, outs = r
    cmd = cmd_of(outs)
    if cmd is None:
        return ctx.lost("the arguments are not read with the argument parser")

    def one(o, xf, pl, kind, okp):
        if kind == "panic":
            return ctx.ob("only an invalid path prefix aborts", True if okp else (False if cleanfacts(xf, EXTRA) else None), f, "" if okp else showfacts(xf))
        v = o.val
        err = v.a[1] == 1 if v is not None and v.op == "adt" else None
        okf = cleanfacts(xf, EXTRA)
        if kind == "fail" or pl.kind == "err":
            tables = [p for p in prints(o) if any(t.op in ("tabhead", "strloop") for t in subterms(p))]
            ok = err is True and not tables
            ctx.ob("a failed command ends with an error and prints no result", True if ok else (False if err is not None and okf else None), f, "" if ok else showfacts(xf))
            return
        ctx.ob("a successful command ends without error", True if err is False else (False if err and okf else None), f, "" if err is False else showfacts(xf))
        if pl.kind != "shown":
            return
        want = sorted_of(pl.diff)
        empty = decide(xf, mkeq(mklen(want.a[0]), I(0)))
        if empty is True:
            if fact_test(xf, get(cmd, "MainCmd", "verbose"), TRUE) is not True:
                said = [p for p in prints(o) if not (p.a[1].op == "str" and not p.a[1].a[0].strip())]
                ctx.ob("an empty result is said", True if said else (False if okf else None), f, "" if said else "nothing is printed when\n   %s" % showfacts(xf))
            return
        srcs = set()
        for p in prints(o):
            for t in subterms(p):
                if t.op == "strloop" or t.op == "flatcollect":
                    srcs.add(t.a[0])
                elif t.op == "collect":
                    srcs.add(t.a[1])
        if not srcs:
            return ctx.ob("the result is printed", False if okf else None, f, showfacts(xf))
        for s in srcs:
            c = Cmp(xf, EXTRA)
            r = c.same(want, s)
            ctx.ob("exactly the filtered and sorted differences of what was asked for are printed", r if r is not False or okf else None, f,
                   "" if r else "expected %s\n   printed  %s" % (short(want, 400), short(s, 400)))
    walk(ctx, f, outs, cmd, one)


@prop("C35", "symbolic output: header, rows and cells of every output format over all kinds of results, against a specification")
def c35(ctx):
    r = table_of(ctx)
    if not r:
        return
    f, outs = r
    cmd = cmd_of(outs)
    if cmd is None:
        return ctx.lost("the arguments are not read with the argument parser")
    seen = set()

    def one(o, xf, pl, kind, okp):
        if kind == "ret" and pl.kind == "shown":
            shown(ctx, f, o, xf, pl, cleanfacts(xf, EXTRA), seen)
    walk(ctx, f, outs, cmd, one)


# ---------------------------------------------------------------- names of option values
def kebab(n):
    """GuessWorst -> guess-worst, CSV -> csv"""
    return re.sub("(?<=[a-z0-9])(?=[A-Z])", "-", n).lower()


def strs(v):
    """the strings in a list of names"""
    ps = seq(v)
    return [x.a[0] for op, x in ps] if all(op == "one" and x.op == "str" for op, x in ps) else None


def accepted(ctx, f, variant_of):
    """{name: variant index} a parser of one name accepts; None when it is not just a table"""
    outs = ctx.outs(f)
    arg = T("param", f.args[-1] if f.args else "s")
    res, odd = {}, False
    for o in outs or ():
        v = o.val
        if o.kind != "ret" or v is None or v.op != "adt":
            odd = True
            continue
        names = [w[1].a[0] for k, w in o.st.facts.items() if w[0] == "=" and isinstance(w[1], Term) and w[1].op == "str"]
        eqs = [t.a[0] for k, w in o.st.facts.items() if k.op == "eq" and w == ("=", TRUE) for t in k.a if t.op == "str"]
        rest = [k for k, w in o.st.facts.items() if not (w[0] == "=" and isinstance(w[1], Term) and w[1].op == "str" or k.op == "eq" or w[0] == "!")]
        names += eqs
        if v.a[1] == 0:
            x = variant_of(v.a[2])
            if not names and not rest and f.npath.find("visit_str") + f.npath.find("from_str") > -2:
                ctx.ob("an unknown name is rejected", False, f, "read as %s" % short(v.a[2], 80))
                continue
            loose = [k for k, w in o.st.facts.items() if w == ("=", TRUE) and k.op == "call" and k.a[0] == "str_eq_ignore_ascii_case" and arg in k.a[1:]
                     and len(rest) == 1]
            bent = [k for k, w in o.st.facts.items() if w[0] == "=" and isinstance(w[1], Term) and w[1].op == "str" and k.op == "call" and len(k.a) == 2
                    and k.a[1] is arg and re.match("str_(trim|to_|lower|upper)", k.a[0])]
            if x is not None and (loose and not names or bent and len(names) == 1 and not rest):
                ctx.ob("a name outside the table is rejected", False, f, "every text with %s is read as %s" % (short((loose + bent)[0], 120), short(v.a[2], 80)))
                continue
            if x is None or len(names) != 1 or rest:
                odd = True
            else:
                res[names[0]] = x
    return res, odd or not outs


@prop("C33", "name tables of every option type (command line, query parameter, parser, listing) extracted from the derived and written code and compared")
def c33(ctx):
    ctx.prog(CLI)
    for prog, name in ((CORE, "CompareMethod"), (CORE, "Dimension"), (CORE, "RelativeChange"), (CLI, "OutputFormat")):
        full = adt(name)
        vs = [v[0] for v in ADTS[full]["vs"]]
        want = {kebab(v): i for i, v in enumerate(vs)}
        seen, tables = {}, 0
        fns = [f for f in ctx.prog(prog).fns.values()]

        def table(f, what, tb, odd):
            for n, i in sorted(tb.items()):
                old = seen.setdefault(n, i)
                exp = want.get(n, old)
                if n not in want and not (name == "Dimension" and n == "weight"):
                    ctx.ob("a name outside the table is rejected", False, f, "%s: \"%s\" is read as %s" % (what, n, vs[i]))
                    continue
                ctx.ob("a name has one meaning", i == exp, f, "" if i == exp else "%s: \"%s\" is read as %s, elsewhere as %s" % (what, n, vs[i], vs[exp]))
            for n, i in sorted(want.items()):
                if n not in tb:
                    ctx.ob("every value can be named", None if odd else False, f, "%s: \"%s\" is not accepted for %s" % (what, n, vs[i]))
            if name == "Dimension" and not what.startswith("option"):
                ctx.ob("the former name of the time unit still works", True if tb.get("weight") == want["time"] else (None if odd else False), f, what)
            if odd:
                ctx.ob("the accepted names are a table", None, f, what)

        def vix_(t):
            return t.a[1] if t.op == "adt" and t.a[0] == full else None

        for f in fns:
            if f.npath == "<%s as std::str::FromStr>::from_str" % full:
                tables += 1
                table(f, "parsing %s" % name, *accepted(ctx, f, vix_))
            # (the output format is never a query parameter)
            elif name != "OutputFormat" and f.npath.endswith("::visit_str") and re.search(r"Deserialize<'de> for %s>" % re.escape(full), f.npath) and "__FieldVisitor" in f.npath:
                tables += 1

                def field(t):
                    m = t.op == "adt" and re.fullmatch("__field([0-9]+)", ADTS.get(t.a[0], {"vs": []})["vs"][t.a[1]][0] if t.a[0] in ADTS else "")
                    return int(m.group(1)) if m else None
                table(f, "query parameter %s" % name, *accepted(ctx, f, field))
            elif f.npath == "<%s as clap::ValueEnum>::to_possible_value" % full:
                tables += 1
                tb, odd = {}, False
                for o in ctx.outs(f) or ():
                    v = o.val
                    i = [j for j in range(len(vs)) if H.add_facts(o.st.facts, [(disc(P("self"), len(vs)), ("=", I(j)))]) is not None]
                    if o.kind != "ret" or v is None or v.op != "adt" or v.a[1] != 1 or len(i) != 1:
                        odd = True
                        continue
                    news = [t for t in subterms(v) if t.op == "call" and t.a[0].endswith("PossibleValue::new")]
                    al = [t for t in subterms(v) if t.op == "call" and t.a[0].endswith("PossibleValue::alias")]
                    for t in news:
                        tb[t.a[1].a[0]] = i[0]
                    for t in al:
                        tb[t.a[2].a[0]] = i[0]
                table(f, "option %s" % name, tb, odd)
            elif f.npath == "<%s as clap::ValueEnum>::value_variants" % full:
                for o in ctx.outs(f) or ():
                    l = [vix_(x) for op, x in seq(o.val)]
                    ctx.ob("every value can be chosen", sorted(l, key=str) == sorted(range(len(vs)), key=str), f, str(l))
            elif f.npath in ("%s::variants" % full, "%s::reflect" % full):
                for o in ctx.outs(f) or ():
                    ps = seq(o.val)
                    if f.npath.endswith("variants"):
                        l = strs(o.val)
                        ok = None if l is None else sorted(l) == sorted(want)
                        ctx.ob("the listed names are the accepted names", ok, f, str(l))
                        continue
                    if not all(op == "one" and x.op == "tup" and len(x.a) == 2 and vix_(x.a[0]) is not None and x.a[1].op == "str" for op, x in ps):
                        ctx.ob("the listing of names and values is a table", None, f, short(o.val, 300))
                        continue
                    l = {x.a[1].a[0]: vix_(x.a[0]) for op, x in ps}
                    ctx.ob("every value is listed with its name", l == want and len(ps) == len(want), f, "" if l == want else str({k: vs[v] for k, v in l.items()}))
        if tables < (2 if name == "OutputFormat" else 3):
            ctx.lost("%s: only %d of the tables of accepted names found" % (name, tables))


# ---------------------------------------------------------------- values with their unit
UNITS = {"Time": [("s", 10**12), ("ms", 10**9), ("us", 10**6), ("ns", 10**3), ("ps", 1)],
         "Proof": [("GiB", 2**30), ("MiB", 2**20), ("KiB", 2**10), ("B", 1)],
         None: [("T", 10**12), ("G", 10**9), ("M", 10**6), ("K", 10**3), ("", 1)]}


def scaled(ctx, f, v, unit_of):
    def sp(x):
        us = UNITS[unit_of(x)]
        for s, d in us:
            if d == 1 or not x.lt(v, I(d)):
                return s, d
    for o in ctx.outs(f) or ():
        for xf, kind, (s, d) in explore(sp, o.st.facts):
            name = "shown in the largest fitting unit"
            okf = cleanfacts(xf)
            if o.kind != "ret":
                ctx.ob(name, False if okf else None, f, "aborts when\n   %s" % showfacts(xf))
                continue
            for g, items in expand(o.val, xf):
                items = joined(items)
                sfx = "".join(i for i in items if isinstance(i, str)).replace("\u00b5", "u")
                vals = [i for i in items if not isinstance(i, str)]
                if len(vals) != 1 or isinstance(items[0], str) or vals[0][0] != "v":
                    ctx.ob(name, False if not vals and okf else None, f, short(o.val, 200))
                    continue
                exp = v if d == 1 else T("fop", "Div", T("cast", "f64", v), FL(d))
                c = Cmp(g)
                r = c.same(exp, vals[0][2])
                if r is True and d == 1 and sfx == s:
                    pass
                elif r is True:
                    r = sfx == s and (d == 1 or how(vals[0][1])[1] == 2)
                if r is False and not okf:
                    r = None
                ctx.ob(name, r, f, "" if r else "shown as %s%s instead of %s%s when\n   %s" % (short(vals[0][1], 200), sfx, short(exp, 100), s, showfacts(g)))


@prop("C37", "decision tables of the value formatters: scale, divisor and unit of every branch against the table of units")
def c37(ctx):
    fs = ctx.fns(CORE, FMT)
    gs = ctx.fns(CORE, C + "Dimension::fmt_scalar")
    if not fs or not gs:
        return ctx.lost("the formatting of values was not found")
    for f in fs:
        scaled(ctx, f, P("v"), lambda x: x.variant(P("self"), "Dimension"))
    for f in gs:
        scaled(ctx, f, P("w"), lambda x: None)
