"""Comparison: terms, extrinsics, files."""
import math, struct
from fractions import Fraction
from check import *
from spec import *

C = "subweight_core::"


def ev(t, scope):
    return call(C + "term::Term::eval", t, scope)


@prop("C12", "value-flow table of the term comparison against a decision procedure")
def c12(ctx):
    old, new, scope, method = P("old"), P("new"), P("scope"), P("method")

    def sp(x):
        o, n = x.opt(old), x.opt(new)
        ov = nv = None
        if o is not None:
            k, ov = x.res(ev(o, scope))
            if k == "err":
                return err(ANY)
        if n is not None:
            k, nv = x.res(ev(n, scope))
            if k == "err":
                return err(ANY)
        if o is None and n is None:
            ch = "Unchanged"
        elif o is None:
            ch = "Added"
        elif n is None:
            ch = "Removed"
        else:
            ch = "Unchanged" if x.eq(o, n) else "Changed"
        pc = call(C + "percent", ov if ov is not None else I(0), nv if nv is not None else I(0))
        return ok(mk("TermChange", old=old, new=new, old_v=some(ov) if ov is not None else NONE,
                     new_v=some(nv) if nv is not None else NONE, scope=scope, method=method, percent=pc,
                     change=mk("RelativeChange", ch)))
    ctx.table(CORE, "compare_terms", "classification, both values and the percentage come from their own side", sp)

    def same(x):
        a, b = P("self"), P("other")
        k, l = x.variant(a, "Term"), x.variant(b, "Term")
        if k != l:
            return FALSE
        part = lambda i: x.eq(get(a, "Term", i, k), get(b, "Term", i, k))
        if k == "Var":
            name = lambda v: call("str_replace", get(get(v, "Term", 0, "Var"), "VarValue", 0), S("_"), S(""))
            return B(x.eq(name(a), name(b)))
        return B(part(0) and (k not in ("Add", "Mul") or part(1)))
    ctx.table(CORE, "<" + C + "term::Term<T> as std::cmp::PartialEq>::eq", "expressions are the same when all their parts are, up to underscores in names", same)

    def pct(x):
        o, n = P("old"), P("new")
        if x.eq(o, n):
            return pred(lambda cmp, a: ratio(a, o, n, 0, cmp))
        return pred(lambda cmp, a: ratio(a, o, n, 1, cmp))
    ctx.table(CORE, "percent", "the percentage is 100 * (new / old) - 100, and zero for equal values", pct)


class Poly(dict):
    """Polynomials over the two values (rounding ignored): {(deg old, deg new): rational coefficient}"""


def pmul(a, b):
    r = {}
    for (i, j), u in a.items():
        for (k, l), v in b.items():
            r[(i + k, j + l)] = r.get((i + k, j + l), 0) + u * v
    return {k: v for k, v in r.items() if v}


def padd(a, b, s=1):
    r = dict(a)
    for k, v in b.items():
        r[k] = r.get(k, 0) + s * v
    return {k: v for k, v in r.items() if v}


def rat(t, o, n):
    """the real-valued rational function of (old, new) that t computes, as (numerator, denominator)"""
    one = {(0, 0): Fraction(1)}
    if t.op == "float" or t.op == "int":
        v = Fraction(t.a[0])
        return ({(0, 0): v} if v else {}), one
    if t.op == "cast" and t.a[-1] in (o, n) and t.a[0] == "f64":
        return {(1, 0) if t.a[-1] is o else (0, 1): Fraction(1)}, one
    if t.op == "fop" and len(t.a) == 3:
        x, y = rat(t.a[1], o, n), rat(t.a[2], o, n)
        if x is None or y is None:
            return None
        k = t.a[0]
        if k == "Mul":
            return pmul(x[0], y[0]), pmul(x[1], y[1])
        if k == "Div":
            return pmul(x[0], y[1]), pmul(x[1], y[0])
        if k in ("Add", "Sub"):
            return padd(pmul(x[0], y[1]), pmul(y[0], x[1]), 1 if k == "Add" else -1), pmul(x[1], y[1])
    if t.op == "fneg":
        x = rat(t.a[0], o, n)
        return x and (padd({}, x[0], -1), x[1])
    return None


SAMPLES = [(0, 0), (7, 7), (0, 5), (5, 0), (1, 2), (2, 1), (3, 1000), (1000, 3), (1 << 53, 1 << 55), (10, 1 << 65), (1 << 70, 10),
           (1 << 70, 1 << 71), (3, (1 << 66) + 9), ((1 << 33) + 1, 77), (1 << 127, 1 << 120)]
SIGNED = {"i8": 8, "i16": 16, "i32": 32, "i64": 64, "isize": 64, "i128": 128}
WIDTH = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "usize": 64, "u128": 128}


def number(t, env):
    """the value of an arithmetic term at one pair of values (None: not arithmetic, or out of range)"""
    if t in env:
        return env[t]
    go = lambda x: number(x, env)
    if t.op == "int":
        return t.a[0]
    if t.op == "float":
        return float(t.a[0])
    if t.op == "cast":
        v = go(t.a[-1])
        if v is None:
            return None
        if t.a[0] == "f64":
            return float(v)
        if t.a[0] == "f32":
            try:
                return struct.unpack("f", struct.pack("f", float(v)))[0]
            except OverflowError:
                return float("inf")
        if isinstance(v, float) and v - v == 0 and t.a[0] in SIGNED:
            b = SIGNED[t.a[0]] - 1
            return min(max(math.trunc(v), -(1 << b)), (1 << b) - 1)
        if t.a[0] in WIDTH and isinstance(v, int):
            return v & ((1 << WIDTH[t.a[0]]) - 1)
        return None
    if t.op == "fneg":
        v = go(t.a[0])
        return None if v is None else -v
    if t.op == "sat" and len(t.a) == 3:
        x, y = go(t.a[1]), go(t.a[2])
        if x is None or y is None or t.a[0] not in ("Add", "Sub"):
            return None
        return min(max(x + y if t.a[0] == "Add" else x - y, 0), (1 << 128) - 1)
    if t.op == "call" and "f64::" in t.a[0]:
        xs = [go(x) for x in t.a[1:]]
        if None in xs:
            return None
        k = t.a[0].rsplit("::", 1)[1]
        if k in ("min", "max") and len(xs) == 2:
            return (min if k == "min" else max)(xs) if xs[0] == xs[0] else xs[1]
        if len(xs) == 1 and xs[0] - xs[0] == 0 and k in ("round", "floor", "ceil", "trunc"):
            return float({"round": lambda v: math.copysign(math.floor(abs(v) + 0.5), v), "floor": math.floor, "ceil": math.ceil,
                          "trunc": math.trunc}[k](xs[0]))
        return None
    if t.op in ("disc", "isv") and t.a[0].op == "call" and t.a[0].a[0] == "f64::partial_cmp":
        xs = [go(x) for x in t.a[0].a[1:]]
        return None if None in xs else int(all(x == x for x in xs)) if t.op == "disc" else int(all(x == x for x in xs) == (t.a[1] == 1))
    if t.op in ("fop", "op") and len(t.a) == 3:
        return arith(t.a[0], go(t.a[1]), go(t.a[2]), t.op == "fop")
    if t.op in ("max", "min"):
        vs = [go(x) for x in t.a if isinstance(x, Term)]
        return None if None in vs else (max if t.op == "max" else min)(vs)
    if t.op in ("fabs",):
        v = go(t.a[0])
        return None if v is None else abs(v)
    if t.op in ("eq", "lt", "le") and len(t.a) == 2:
        x, y = go(t.a[0]), go(t.a[1])
        if x is None or y is None:
            return None
        return int({"eq": x == y, "lt": x < y, "le": x <= y}[t.op])
    return None


def arith(k, x, y, fl):
    if x is None or y is None:
        return None
    if k == "Add":
        return x + y
    if k == "Sub":
        return x - y if fl or x >= y else None
    if k == "Mul":
        return x * y
    if k == "Div":
        if not fl:
            return x // y if y else None
        if y == 0:
            return float("nan") if x == 0 or x != x else math.copysign(float("inf"), x)
        return x / y
    return None


def sampled(t, cmp, o, n):
    """False when the term computes something else for some pair of values at which this row applies"""
    for ov, nv in SAMPLES:
        env = {o: ov, n: nv}
        ok = True
        for k, w in cmp.f.items():
            v = number(k, env)
            if v is None or not all(isinstance(c, Term) and c.op in ("int", "bool") for c in ([w[1]] if w[0] == "=" else w[1])):
                ok = False
                break
            cs = [int(c.a[0]) for c in ([w[1]] if w[0] == "=" else w[1])]
            if (v in cs) != (w[0] == "="):
                ok = False
                break
        if not ok:
            continue
        v = number(t, env)
        if v is None:
            continue
        want = 0.0 if ov == nv else 100.0 * arith("Div", float(nv), float(ov), True) - 100.0
        if v != v or (v != want and not abs(v - want) <= 1e-9 * max(1.0, min(abs(want), 1e300))):
            return False
    return None


def ratio(t, o, n, differ, cmp=None):
    r = rat(t, o, n)
    if r is None:
        return False if t in (o, n) else sampled(t, cmp, o, n) if cmp is not None else None
    if not differ:
        # old == new: any expression that is zero there without dividing by the value
        z = {}
        for (i, j), v in r[0].items():
            z[i + j] = z.get(i + j, 0) + v
        d = {}
        for (i, j), v in r[1].items():
            d[i + j] = d.get(i + j, 0) + v
        return not any(z.values()) and bool(d.get(0)) and not any(v for k, v in d.items() if k)
    num = {(0, 1): Fraction(100), (1, 0): Fraction(-100)}
    den = {(1, 0): Fraction(1)}
    return pmul(r[0], den) == pmul(num, r[1])


# ---------------------------------------------------------------- whole-file comparison

def simplified(x, es, unit):
    def one(x, e):
        k, t = x.res(call(C + "term::Term::simplify", get(e, "GenericExtrinsic", "term"), unit))
        if k == "err":
            raise Fail(ANY)
        return mk("GenericExtrinsic", name=get(e, "GenericExtrinsic", "name"), pallet=get(e, "GenericExtrinsic", "pallet"),
                  term=t, comp_ranges=get(e, "GenericExtrinsic", "comp_ranges"))
    return x.foreach(es, one)


def gx(e, f):
    return get(e, "GenericExtrinsic", f)


def rx(x, pat, s):
    """does the optional filter accept s?  (compilation of the pattern is checked before)"""
    p = x.opt(pat)
    if p is None:
        return TRUE
    k, r = x.res(call("Regex::new", p))
    if k == "err":
        raise Fail(err(ANY))
    if s is None:
        return TRUE
    k, m = x.res(call("rx_is_match", r, s))
    return m if k == "ok" else FALSE


def files_spec(change):
    """change(x, verdict of compare_extrinsics, new, old) -> expected TermDiff"""
    def sp(x):
        olds, news, params, filt = P("olds"), P("news"), P("params"), P("filter")
        fe, fp = get(filt, "FilterParams", "extrinsic"), get(filt, "FilterParams", "pallet")
        unit = get(params, "CompareParams", "unit")
        try:
            rx(x, fe, None)
            rx(x, fp, None)
        except Fail as e:
            return e.val
        so, sn = simplified(x, olds, unit), simplified(x, news, unit)
        nm = lambda es: x.foreach(es, lambda x, e: tup(gx(e, "pallet"), gx(e, "name")))
        names = T("toset", cat(T("arr"), [T("many", nm(so)), T("many", nm(sn))]))

        def one(x, e):
            pal, ext = fld(e, 0, 0), fld(e, 0, 1)
            if not x.is_(rx(x, fp, pal)) or not x.is_(rx(x, fe, ext)):
                return SKIP
            find = lambda es: x.first(es, lambda x, n: x.eq(gx(n, "name"), ext) and x.eq(gx(n, "pallet"), pal))
            n, o = find(sn), find(so)
            if n is None and o is None:
                return ANY  # not possible: the pair comes from one of the two sides
            w = lambda v: NONE if v is None else some(v)
            k, ch = x.res(call(C + "compare_extrinsics", w(o), w(n), params))
            return mk("ExtrinsicDiff", name=ext, file=pal, change=change(x, k, ch, n, o))
        return ok(x.foreach(names, one))
    return sp


RXC = frozenset(["Regex::new", "rx_is_match"])


@prop("C13", "value-flow table of the file comparison against a decision procedure")
def c13(ctx):
    def change(x, k, v, n, o):
        if k == "err":
            return mk("TermDiff", "Failed", v)
        return oneof(mk("TermDiff", "Changed", v), mk("TermDiff", "Warning", v, ANY))
    ctx.table(CORE, "compare_files", "every pair of both sides is compared once, with its own partner, unless filtered",
              files_spec(change), extra=RXC, rows=lambda o: o.kind != "panic")


@prop("C19", "value-flow tables of the sanity check and its use against decision procedures")
def c19(ctx):
    S = C + "sanity_check_term"

    def change(x, k, v, n, o):
        if k == "err":
            return ANY
        e = n if n is not None else o
        r, m = x.res(call(S, gx(e, "term")))
        if r == "err":
            return mk("TermDiff", "Warning", v, ANY)
        return mk("TermDiff", "Changed", v)
    ctx.table(CORE, "compare_files", "a comparison becomes a warning exactly when the sanity check of the newest side fails",
              files_spec(change), extra=RXC, rows=lambda o: o.kind != "panic")

    def sp(x):
        f = lambda v: call(C + "term::Term::find_largest_factor", P("term"), S_(v))
        big = []
        for v in ("READ", "WRITE"):
            o = x.opt(f(v))
            big.append(o is not None and x.lt(I(1000), o))
        return err(ANY) if any(big) else ok(UNIT)
    ctx.table(CORE, "sanity_check_term", "the sanity check fails exactly above 1000 reads or writes", sp)
    factor(ctx)


S_ = S


def factor(ctx):
    """The number of reads is the largest constant multiplied with READ anywhere in the term."""
    V, F = C + "term::Term::visit", C + "term::Term::find_largest_factor"
    f, v = ctx.fn(CORE, F), ctx.fn(CORE, V)
    if f is None:
        return ctx.lost("find_largest_factor: function not found")
    if v is None:
        return ctx.lost("traversal of the term not found")
    me, fn, var = P("self"), P("f"), P("var")
    outs = ctx.outs(v)
    cl = "the traversal visits the node and both operands of every sum and product"
    for i, o in enumerate(outs or []):
        if o.kind != "ret" or o.val.op != "adt":
            ctx.ob(cl, None, v, "row %d: %s" % (i, short(o.val) if o.val is not None else o.kind))
            continue
        if o.val.a[1] != 0:
            continue
        d = o.st.facts.get(disc(me, 5))
        m = {t: fn for k in [o.val] for t in subterms(k) if t.op == "after"}
        g = gens(subst(o.val.a[2], m))
        if g is None or d is None or d[0] != "=":
            ctx.ob(cl, None, v, short(o.val))
            continue
        want = {T("one", fld(T("callv", fn, me), 0, 0))}
        if d[1].a[0] in (3, 4):
            want |= {fld(call(V, fld(me, d[1].a[0], j), fn), 0, 0) for j in (0, 1)}
        ctx.ob(cl, set(g) == want, v, "when %s: %s" % (showfacts(o.st.facts), short(o.val)))
    outs = ctx.outs(f, opaque=[V])
    cl = "the largest factor is the maximum over all products of the variable with a constant"

    def one(x):
        t = bv("x", 0)
        if x.variant(t, "Term") != "Mul":
            return ok(NONE)
        l, r = get(t, "Term", 0, "Mul"), get(t, "Term", 1, "Mul")
        for a, b in ((l, r), (r, l)):
            if x.isv(a, "Term", "Scalar") and x.isv(b, "Term", "Var") and x.eq(var, get(get(b, "Term", 0, "Var"), "VarValue", 0)):
                return ok(some(get(a, "Term", 0, "Scalar")))
        return ok(NONE)
    for i, o in enumerate(outs or []):
        if o.kind == "panic":
            continue  # the traversal never fails: its function never does (checked below)
        cs = {t for k in list(o.st.facts) + [o.val] for t in subterms(k) if t.op == "call" and t.a[0] == V}
        if len(cs) != 1:
            ctx.ob(cl, None, f, short(o.val))
            continue
        c = next(iter(cs))
        cmp = Cmp({})
        r = lam_check(cmp, c.a[2], one) if c.a[1] is me and c.a[2].op == "lam" else None
        ctx.ob(cl, r, f, "per node: %s" % (short(T("x", *cmp.why[:2])) if cmp.why else ""))
        src = fld(c, 0, 0)
        e = T("elem", src, "x")
        hit = frozenset([frozenset({(T("disc", e), ("=", I(1)))})])
        has = o.st.facts.get(T("any", src, hit))
        if has is None:
            ctx.ob(cl, None, f, showfacts(o.st.facts))
        elif has[1] is FALSE:
            ctx.ob(cl, o.val is NONE, f, short(o.val))
        else:
            lst = ENG.mkcollect("Vec", src, e, [(frozenset({(T("disc", e), ("=", I(1)))}), "ret", fld(e, 1, 0), None)])
            want = some(call("iter_max", lst))
            good = Cmp({}, {V, F}).same(want, o.val) is True
            if not good and not (o.val.op == "adt" and o.val.a[1] == 0):
                good = None if not any(t.op == "call" and (t.a[0] == "iter_min" or t.a[0] == "iter_last" and t.a[1].op == "collect") for t in subterms(o.val)) else False
                w = fld(o.val, 1, 0) if good is None else None
                while w is not None and w.op == "fld":
                    w = w.a[0]
                if w is not None and (w.op == "found" and w.a[0] is src or w.op == "call" and w.a[0] in ("iter_sum", "iter_product", "iter_count", "iter_last", "iter_min")):
                    good = False  # one element, or another aggregate of them
            V0 = {c: P("V")}
            ctx.ob(cl, good, f, "%s instead of %s" % (short(subst(o.val, V0), 300), short(subst(want, V0), 300)))



# ---------------------------------------------------------------- component instantiation and corners

METHODS = {  # method -> ((exact, which end) of the low corner, of the high corner)
    "Base": ((False, "min"), (False, "min")),
    "GuessWorst": ((False, "min"), (False, "max")),
    "ExactWorst": ((True, "min"), (True, "max")),
    "ExactAsymptotic": ((True, "max"), (True, "max")),
    "Asymptotic": ((False, "max"), (False, "max")),
}


def inst(x, comp, ra, rb, strat):
    exact, end = strat
    name = call("str_replace", comp, S("_"), S(""))  # ranges are known by names without underscores
    rng = lambda r: x.opt(call("map_get", r, name)) if r is not None else None
    a, b = rng(ra), rng(rb)
    mn = lambda r: get(r, "ComponentRange", "min")
    mx = lambda r: get(r, "ComponentRange", "max")
    pick = mn if end == "min" else mx
    if a is None and b is None:
        if exact:
            raise Fail(err(ANY))
        return I(0) if end == "min" else I(100)
    if a is None or b is None:
        return pick(a if b is None else b)
    if x.eq(mn(a), mn(b)) and x.eq(mx(a), mx(b)):
        return pick(a)
    if exact:
        raise Fail(err(ANY))
    if end == "min":
        return mn(b) if x.lt(mn(b), mn(a)) else mn(a)
    return mx(b) if x.lt(mx(a), mx(b)) else mx(a)


def is_bit(k, i, e):
    """is the term k the test of bit pos(e) of i?"""
    p = T("pos", e)
    sh = T("op", "Shl", I(1), p)
    if k.op != "op":
        return False
    if k.a[0] == "BitAnd":
        s = set(k.a[1:])
        return s == {i, sh} or s == {T("op", "Shr", i, p), I(1)}
    return k.a[0] == "Rem" and k.a[1:] == (T("op", "Shr", i, p), I(2))


def corners(cmp, payload, F, scope, low, high, mode):
    """payload: the produced scopes; mode 'shape' (every combination, every component) or 'values' (the two ends)."""
    p = payload
    while p.op in ("toset", "rev", "dedup", "sorted"):
        p = p.a[0]
    if p.op != "collect" or p.a[1].op != "range" or isinstance(p.a[2], Term):
        return None
    rg = p.a[1]
    shape = True
    n = T("op", "Shl", I(1), mklen(F))
    empty = fact_test(cmp.f, mklen(F), I(0)) is True
    if empty:
        n = I(1)
    if rg.a[0] is not I(0) or cmp.same(n, rg.a[1]) is not True:
        shape = False if clean(rg) else None
    i = T("elem", rg, "x")
    vals = True
    seen = []
    for d, v in p.a[2]:
        f = v
        while f.op == "tup" and len(f.a) == 1 or f.op == "adt" and len(f.a) == 3:
            f = f.a[-1]
        if f.op != "fold":
            return None
        for k, w in d:
            if not (k.op == "len" and w == ("!", frozenset([I(0)]))):
                shape = False if clean(k, frozenset(subterms(k))) else None
        init, src, lv, rows = f.a
        if cmp.same(scope, init) is not True and cmp.same(fld(scope, 0, 0), init) is not True:
            shape = None if shape is None else False
        if cmp.same(F, src) is not True:
            shape = False if clean(src) and shape is not None else None
            continue
        if empty:
            seen.append({})
            continue
        e = T("elem", src, "x")
        polar = {}
        for r in rows:
            rd, kind, pl = r[0], r[1], r[2]
            bits = [(k, w) for k, w in rd if is_bit(k, i, e)]
            rest = [(k, w) for k, w in rd if not is_bit(k, i, e)]
            tgt = pl[0] if pl else None
            key = val = None
            for t in subterms(pl):
                if t.op == "ins":
                    key, val = t.a[1], t.a[2]
            if key is None or kind == "same":
                if shape is True:
                    shape = False if all(clean(k, frozenset([lv])) for k, w in rd) else None
                continue
            if cmp.same(e, key) is not True:
                shape = False if clean(key) else None
            if val.op == "adt" and len(val.a) == 3:
                if val.a[1] != vix("Term", "Scalar"):
                    vals = False
                val = val.a[2]
            if len(bits) > 1:
                return None
            pol = None
            if bits:
                w = bits[0][1]
                one = w == ("=", I(1)) or w == ("!", frozenset([I(0)]))
                zero = w == ("=", I(0)) or w == ("!", frozenset([I(1)]))
                if not (one or zero):
                    return None
                pol = one
            polar.setdefault(pol, []).append((rest, val))
        seen.append(polar)
        if set(polar) == {None}:
            # the same value at both ends
            pairs = [(polar[None], polar[None])]
        elif set(polar) == {True, False}:
            pairs = [(polar[False], polar[True])]
        else:
            return None
        if mode == "values":
            for a, b in pairs:
                r = ends(cmp, F, e, a, b, low, high)
                if r is not True:
                    r2 = ends(cmp, F, e, b, a, low, high)
                    r = r2 if r2 is not False else r
                if r is False:
                    vals = False
                elif r is None and vals:
                    vals = None
        elif set(polar) == {None}:
            shape = None if shape is True else shape
    if not seen:
        return None
    return shape if mode == "shape" else vals


def ends(cmp, F, e, lo, hi, low, high):
    out = True
    for rows, exp in ((lo, low), (hi, high)):
        for rest, v in rows:
            if v.op == "cast":
                v = v.a[-1]
            if v.op == "idx" and v.a[1] is T("pos", e):
                act = v.a[0]
                r = cmp.same(exp, act)
            else:
                tb = T("collect", "Vec", F, frozenset([(frozenset(rest), v)]))
                r = cmp.same(exp, tb)
            if r is False:
                return False
            if r is None:
                out = None
    return out


def scoped_spec(mode):
    a, b, method, scope = P("a"), P("b"), P("method"), P("scope")

    def sp(x):
        oa, ob = x.opt(a), x.opt(b)
        if oa is None and ob is None:
            return PANIC
        fv = lambda e: call(C + "term::Term::free_vars", gx(e, "term"), scope)
        if oa is not None and ob is not None:
            F = T("union", fv(oa), fv(ob))
        else:
            F = fv(oa if oa is not None else ob)
        SETLIKE[F] = True
        if not x.lt(mklen(F), I(17)):
            return err(ANY)
        ra = x.opt(gx(oa, "comp_ranges")) if oa is not None else None
        rb = x.opt(gx(ob, "comp_ranges")) if ob is not None else None
        if mode == "shape":
            # whether an instantiation fails is another property's business
            return oneof(err(ANY), ok(pred(lambda cmp, p: corners(cmp, p, F, scope, None, None, "shape"))))
        m = x.variant(method, "CompareMethod")
        lo, hi = METHODS[m]
        try:
            low = x.foreach(F, lambda x, e: inst(x, e, ra, rb, lo))
            high = x.foreach(F, lambda x, e: inst(x, e, ra, rb, hi))
        except Fail as f:
            return f.val
        return ok(pred(lambda cmp, p: corners(cmp, p, F, scope, low, high, "values")))
    return sp


@prop("C14", "value-flow table of the component instantiation against the method table")
def c14(ctx):
    ctx.table(CORE, "extend_scoped_components", "component values per method and range", scoped_spec("values"))


@prop("C15", "value-flow table of the scope enumeration: loop bounds, bit tests and domination of the shift by the limit")
def c15(ctx):
    ctx.table(CORE, "extend_scoped_components", "every combination of component ends, within the limit of 16", scoped_spec("shape"))


# ---------------------------------------------------------------- worst case over the corners

def rank_spec(x, a, b):
    """documented order of two changes: kind, then percentage at a precision of a thousandth"""
    ka, kb = disc(get(a, "TermChange", "change"), 4), disc(get(b, "TermChange", "change"), 4)
    if x.lt(ka, kb):
        return mk("Ordering", "Less")
    if x.lt(kb, ka):
        return mk("Ordering", "Greater")
    th = lambda c: T("cast", "i128", T("fop", "Mul", FL(1000.0), get(c, "TermChange", "percent")))
    pa, pb = th(a), th(b)
    if x.lt(pa, pb, False):
        return mk("Ordering", "Less")
    if x.lt(pb, pa, False):
        return mk("Ordering", "Greater")
    return mk("Ordering", "Equal")


# kind and percentage of two changes, far enough apart for any reading of the precision
RANKED = [(k, p) for k, ps in (("Unchanged", (0.0,)), ("Changed", (-50.0, -3.5, 2.25, 3.5, 400.0))) for p in ps]


def applies(facts, env):
    for k, w in facts.items():
        n = number(k, env)
        cs = [w[1]] if w[0] == "=" else w[1]
        if n is None or any(c.op not in ("int", "bool") for c in cs) or (n in [int(c.a[0]) for c in cs]) != (w[0] == "="):
            return False
    return True


def rank_sampled(l, key=False):
    """False when the tabulated comparator (or key) l orders some pair of changes otherwise"""
    rows = lam_rows(l)
    if rows is None or any(kind != "ret" for _, kind, _ in rows):
        return None
    f = lambda i, n: get(bv("x", i), "TermChange", n)
    env1 = lambda i, c: {disc(f(i, "change"), 4): vix("RelativeChange", c[0]), f(i, "percent"): c[1]}

    def order(ca, cb):
        if key:
            ks = []
            for c in (ca, cb):
                env = env1(0, c)
                ks.append(next((num(v, env) for facts, _, v in rows if applies(facts, env)), None))
            return None if None in ks else (ks[0] > ks[1]) - (ks[0] < ks[1])
        env = {**env1(0, ca), **env1(1, cb)}
        for facts, _, v in rows:
            if not applies(facts, env):
                continue
            if v.op == "adt" and v.a[0] == "Ordering":
                return v.a[1] - 1
            if v.op == "fld" and v.a[0].op == "call" and v.a[0].a[0] == "f64::partial_cmp":
                v = v.a[0]
            if v.op == "call" and v.a[0] in ("f64::total_cmp", "f64::partial_cmp"):
                x, y = number(v.a[1], env), number(v.a[2], env)
                if x is not None and y is not None:
                    return (x > y) - (x < y)
        return None

    def num(v, env):
        if v.op == "tup":
            xs = [num(x, env) for x in v.a]
            return None if None in xs else tuple(xs)
        return number(v, env)

    for ca in RANKED:
        for cb in RANKED:
            ra, rb = (vix("RelativeChange", ca[0]), ca[1]), (vix("RelativeChange", cb[0]), cb[1])
            if ra != rb and order(ca, cb) not in (None, -1 if ra < rb else 1):
                return False
    return None


def scopecall(x, name):
    return [t for t in {t for k in x.f for t in subterms(k)} if t.op == "call" and t.a[0] == name]


def subst0(t):
    """strips the substitution of READ/WRITE by zero"""
    while t.op == "after" and t.a[1] == 0 and t.a[0].op == "call" and t.a[0].a[0] == C + "term::Term::substitute" \
            and t.a[0].a[2] in (S("READ"), S("WRITE")) and t.a[0].a[3] is mk("Term", "Scalar", I(0)):
        t = t.a[0].a[1]
    return t


def subst_vars(t):
    r = set()
    while t.op == "after":
        r.add(t.a[0].a[2])
        t = t.a[0].a[1]
    return frozenset(r)


def worst_spec(mode):
    old, new, params = P("old"), P("new"), P("params")

    def sp(x):
        o, n = x.opt(old), x.opt(new)
        if o is None and n is None:
            return ANY
        unit = x.variant(get(params, "CompareParams", "unit"), "Dimension")
        r, w = (25000000, 100000000) if unit == "Time" else (0, 0)
        sc = mk("Scope", T("ins", T("ins", T("emptymap"), S("READ"), mk("Term", "Scalar", I(r))), S("WRITE"), mk("Term", "Scalar", I(w))))

        def side(e, sub):
            if e is None:
                return NONE
            t = gx(e, "term")
            if not sub:
                return some(e)
            for v in ("READ", "WRITE"):
                t = T("after", call(C + "term::Term::substitute", t, S(v), mk("Term", "Scalar", I(0))), 0)
            return some(mk("GenericExtrinsic", name=gx(e, "name"), pallet=gx(e, "pallet"), term=t, comp_ranges=gx(e, "comp_ranges")))
        method = get(params, "CompareParams", "method")
        calls = scopecall(x, C + "extend_scoped_components")
        if len(calls) != 1:
            return pred(lambda cmp, a: None)
        E = calls[0]
        cmp = Cmp(x.f)
        sides = [side(e, unit == "Proof") for e in (o, n)]
        if mode == "scope":
            rs = [cmp.same(sc, E.a[4])]
            # the substitution is redundant as far as values go (the scope binds both to zero), but the comparison of the
            # expressions themselves needs it on both sides or on neither
            done = []
            for e, s, a in ((o, sides[0], E.a[1]), (n, sides[1], E.a[2])):
                r = cmp.same(s, a)
                if r is not True and unit == "Proof" and e is not None:
                    t = gx(a.a[2], "term") if a.op == "adt" and a.a[1] == 1 else None
                    whole = cmp.same(some(e), a) is True
                    if whole or t is not None and subst0(t) is gx(e, "term"):
                        done.append(frozenset() if whole else subst_vars(t))
                        r = True
                elif r is True and unit == "Proof" and e is not None:
                    done.append(frozenset((S("READ"), S("WRITE"))))
                rs.append(r)
            if o is not None and n is not None and len(done) == 2 and done[0] != done[1]:
                rs.append(False)
            rs.append(cmp.same(method, E.a[3]))
            v = False if False in rs else None if None in rs else True
            return pred(lambda cmp, a: v)
        k, scopes = x.res(E)
        if k == "err":
            return err(ANY)
        term = lambda a: NONE if a.op == "adt" and a.a[1] == 0 else some(gx(a.a[2] if a.op == "adt" else fld(a, 1, 0), "term"))

        def one(x, s):
            k, v = x.res(call(C + "compare_terms", term(E.a[1]), term(E.a[2]), method, s))
            if k == "err":
                raise Fail(err(ANY))
            return v
        try:
            res = x.foreach(scopes, one)
        except Fail as f:
            return f.val
        both = o is not None and n is not None

        def verdict(cmp, a):
            if a.op == "adt" and a.a[0] == RES:
                if a.a[1] == 1:
                    return False
                a = a.a[2]
            if a.op == "idx" and a.a[1] is I(0):
                r = cmp.same(res, a.a[0])
                if r is not True:
                    return r
                if not both:
                    return True
                # one result only matters when all are additions or removals
                out = T("any", a.a[0], frozenset([frozenset([(disc(get(T("elem", a.a[0], "x"), "TermChange", "change"), 4),
                        ("!", frozenset([I(vix("RelativeChange", "Added")), I(vix("RelativeChange", "Removed"))])))])]))
                return True if fact_test(cmp.f, out, TRUE) is False else False
            if a.op == "call" and a.a[0] == "iter_max_by":
                r = cmp.same(res, a.a[1])
                if r is not True:
                    return r
                r = lam_check(cmp, a.a[2], lambda x: rank_spec(x, bv("x", 0), bv("x", 1)))
                return rank_sampled(a.a[2]) if r is None else r
            if a.op == "call" and a.a[0] == "iter_max_by_key":
                r = cmp.same(res, a.a[1])
                return rank_sampled(a.a[2], True) if r is True else r
            if a.op == "call" and a.a[0] == "iter_min_by":
                r = cmp.same(res, a.a[1])
                return False if r is True and lam_check(cmp, a.a[2], lambda x: rank_spec(x, bv("x", 0), bv("x", 1))) else None
            if a.op == "idx" or (a.op == "call" and a.a[0] == C + "compare_terms"):
                return False if clean(a) and both else None
            return None
        return pred(verdict)
    return sp


@prop("C16", "value-flow table of the extrinsic comparison: domain, comparator and selection of the reported result")
def c16(ctx):
    ctx.table(CORE, "compare_extrinsics", "the reported change is the greatest over all corners", worst_spec("worst"),
              rows=lambda o: o.kind != "panic")


@also("C03")
def c03(ctx):
    ctx.table(CORE, "compare_extrinsics", "storage accesses cost time only: the comparison binds their proof cost to zero", worst_spec("scope"),
              rows=lambda o: o.kind != "panic")


def order_spec(x):
    a, b = bv("x", 0), bv("x", 1)
    ch = []
    for e in (a, b):
        d = get(e, "ExtrinsicDiff", "change")
        v = x.variant(d, "TermDiff")
        ch.append(None if v == "Failed" else get(d, "TermDiff", 0, v))
    if ch[0] is None:
        return mk("Ordering", "Equal" if ch[1] is None else "Less")
    if ch[1] is None:
        return mk("Ordering", "Greater")
    return rank_spec(x, ch[0], ch[1])


@prop("C17", "value-flow table of the sorting: comparator decided over all pairs of changes")
def c17(ctx):
    def sp(x):
        def verdict(cmp, a):
            if a.op == "param":
                return False
            if a.op == "sorted_by" and a.a[0] is P("diff") and a.a[1] is S_("sort_by"):
                return lam_check(cmp, a.a[2], order_spec)
            if a.op == "sorted_by" and a.a[0] is P("diff") and a.a[1] is S_("sort_unstable_by"):
                # entries that compare equal lose their order, and there always are such entries
                return False if lam_check(cmp, a.a[2], order_spec) is not None else None
            return None
        return pred(verdict)
    ctx.table(CORE, "sort_changes", "failures first, then by kind of change, then by percentage", sp,
              proj=lambda o: o.st.store.get(("A", 0), P("diff")))


@prop("C18", "value-flow table of the filter against the documented rule")
def c18(ctx):
    par = P("params")

    def keep(x, e):
        d = get(e, "ExtrinsicDiff", "change")
        v = x.variant(d, "TermDiff")
        if v == "Failed":
            return e
        c = get(d, "TermDiff", 0, v)
        kind = get(c, "TermChange", "change")
        inc = x.opt(get(par, "FilterParams", "change"))
        if inc is not None and not x.is_(call("set_contains", inc, kind)):
            return SKIP
        k = x.variant(kind, "RelativeChange")
        th = get(par, "FilterParams", "threshold")
        if k == "Changed" and x.is_(T("flt", T("fabs", get(c, "TermChange", "percent")), th)):
            return SKIP
        if k == "Unchanged" and x.is_(T("fle", FL(0.000001), th)):
            return SKIP
        return e
    ctx.table(CORE, "filter_changes", "exactly the documented changes are kept", lambda x: x.foreach(P("diff"), keep),
              extra=frozenset(["set_contains"]))
