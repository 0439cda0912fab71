"""Terms: evaluation, structural operations, display."""
from check import *
from spec import *
import engine

C = "subweight_core::"
TM = C + "term::Term::"


def simple(f):
    return "u128" in f.path or "<T>" in f.path


def chrom(f):
    return "Weight" in f.path


def tf(t, variant, i=0):
    return get(t, "Term", i, variant)


def sat(op, a, b):
    return T("sat", op, a, b)


def name(v):
    """the string of a variable: VarValue is a transparent wrapper in the tables"""
    return get(v, "VarValue", 0)


def lookup(ctx, nm):
    return call("map_get", get(ctx, "Scope", "vars"), nm)


@prop("C09", "value-flow table of the evaluators against a structurally recursive decision procedure")
def c09(ctx):
    me, sc = P("self"), P("ctx")

    def mkspec(rec):
        def sp(x):
            v = x.variant(me, "Term")
            if v in ("Value", "Scalar"):
                return ok(tf(me, v))
            if v == "Var":
                b = x.opt(lookup(sc, name(tf(me, "Var"))))
                if b is None:
                    return err(ANY)
                return call(TM + "eval", b, sc)
            r = []
            for i in (0, 1):
                k, w = x.res(rec(tf(me, v, i)))
                if k == "err":
                    return err(ANY)
                r.append(w)
            return ok(oneof(sat(v, *r), sat(v, *reversed(r))))
        return sp
    ctx.rec_table(CORE, "term::Term::eval", "a term has the value of its parts, saturating; an unbound variable is an error", mkspec, pick=simple)

    def mkc(rec):
        def scaled(x, s, t):
            k, w = x.res(rec(t))
            if k == "err":
                return err(ANY)
            return ok(mk("Weight", **{f: oneof(sat("Mul", s, get(w, "Weight", f)), sat("Mul", get(w, "Weight", f), s))
                                      for f in ("time", "proof")}))

        def sp(x):
            v = x.variant(me, "Term")
            if v == "Value":
                return ok(tf(me, v))
            if v == "Scalar":
                return ANY
            if v == "Var":
                b = x.opt(lookup(sc, name(tf(me, "Var"))))
                if b is None:
                    return err(ANY)
                return call(TM + "eval", b, sc)
            if v == "Add":
                r = []
                for i in (0, 1):
                    k, w = x.res(rec(tf(me, v, i)))
                    if k == "err":
                        return err(ANY)
                    r.append(w)
                return ok(mk("Weight", **{f: oneof(sat("Add", get(r[0], "Weight", f), get(r[1], "Weight", f)),
                                                   sat("Add", get(r[1], "Weight", f), get(r[0], "Weight", f)))
                                          for f in ("time", "proof")}))
            a, b = tf(me, "Mul", 0), tf(me, "Mul", 1)
            va, vb = x.variant(a, "Term"), x.variant(b, "Term")
            if va == "Scalar":
                return scaled(x, tf(a, "Scalar"), b)
            if vb == "Scalar":
                return scaled(x, tf(b, "Scalar"), a)
            for p, vp, q in ((a, va, b), (b, vb, a)):
                if vp == "Var":
                    d = x.opt(lookup(sc, name(tf(p, "Var"))))
                    if d is None:
                        return err(ANY)
                    if x.variant(d, "Term") != "Scalar":
                        return err(ANY)
                    return scaled(x, tf(d, "Scalar"), q)
            return ANY
        return sp
    ctx.rec_table(CORE, "term::Term::eval", "a two-dimensional term is evaluated dimension by dimension", norows(mkc), pick=chrom)


def norows(mkspec):
    """a product of two weights or a bare scalar has no weight: those rows panic by design"""
    def mk_(rec):
        sp = mkspec(rec)

        def sp2(x):
            r = sp(x)
            return SKIP if r is ANY else r
        return sp2
    return mk_


def lift_table(ctx):
    me, unit = P("self"), P("unit")

    def lift(rec):
        def sp(x):
            v = x.variant(me, "Term")
            if v in ("Value", "Scalar"):
                d = x.variant(unit, "Dimension")
                n = tf(me, v)
                return mk("Term", "Value", mk("Weight", time=n if d == "Time" else I(0), proof=n if d == "Proof" else I(0)))
            if v == "Var":
                return mk("Term", v, tf(me, v))
            return mk("Term", v, rec(tf(me, v, 0)), rec(tf(me, v, 1)))
        return sp
    ctx.rec_table(CORE, "term::Term::into_chromatic", "lifting puts every number into its own dimension only", lift)


also("C03")(lift_table)


@prop("C10", "value-flow tables of the structural operations; induction on the term, multiset of summands for splicing")
def c10(ctx):
    me = P("self")
    # projection onto one dimension
    unit = P("unit")

    def proj(rec):
        def sp(x):
            v = x.variant(me, "Term")
            if v == "Value":
                d = x.variant(unit, "Dimension")
                return ok(mk("Term", "Value", get(tf(me, v), "Weight", "time" if d == "Time" else "proof")))
            if v in ("Scalar", "Var"):
                return ok(mk("Term", v, tf(me, v)))
            r = []
            for i in (0, 1):
                k, w = x.res(rec(tf(me, v, i)))
                if k == "err":
                    return err(ANY)
                r.append(w)
            return ok(mk("Term", v, *r))
        return sp
    ctx.rec_table(CORE, "term::Term::simplify", "projection keeps the shape and takes one dimension of every value", proj)

    lift_table(ctx)

    var, term = P("var"), P("term")

    def sub_(rec):
        def sp(x):
            v = x.variant(me, "Term")
            if v == "Var":
                return term if x.eq(name(tf(me, v)), var) else me
            if v in ("Value", "Scalar"):
                return me
            return mk("Term", v, *[T("after", rec(tf(me, v, i)), 0) for i in (0, 1)])
        return sp
    ctx.rec_table(CORE, "term::Term::substitute", "substitution replaces exactly the occurrences of the variable", sub_,
                  proj=lambda o: o.st.store.get(("A", 0), me))

    sc = P("scope")
    for fn, want in (("free_vars", False), ("bound_vars", True)):
        def vars_(rec, want=want):
            def sp(x):
                v = x.variant(me, "Term")
                if v == "Var":
                    nm = name(tf(me, v))
                    b = x.opt(lookup(sc, nm)) is not None
                    return pred(lambda cmp, a: isset(cmp, a, [T("one", nm)] if b == want else []))
                if v in ("Value", "Scalar"):
                    return pred(lambda cmp, a: isset(cmp, a, []))
                return pred(lambda cmp, a: isset(cmp, a, [rec(tf(me, v, 0)), rec(tf(me, v, 1))]))
            return sp
        ctx.rec_table(CORE, "term::Term::" + fn, "the %s variables are those of the parts" % fn[:-5], vars_)

    splice(ctx)


def isset(cmp, a, want):
    g = setgens(a)
    if g is None:
        return None
    return all(any(cmp.same(w, y) is True for y in g) for w in want) and all(any(cmp.same(w, y) is True for w in want) for y in g)


def setgens(t):
    if t.op == "emptymap" or (t.op == "arr" and not t.a):
        return []
    if t.op == "ins" and len(t.a) == 2:
        b = setgens(t.a[0])
        return None if b is None else b + [T("one", t.a[1])]
    if t.op == "union":
        a, b = setgens(t.a[0]), setgens(t.a[1])
        return None if a is None or b is None else a + b
    if t.op == "call":
        return [t]
    return gens(t)


def splice(ctx):
    """The multiset of summands per dimension is that of both operands."""
    me, ot = P("self"), P("other")
    f = ctx.fn(CORE, "term::Term::splice_add")
    if f is None:
        return ctx.lost("splice_add: function not found")
    outs = ctx.outs(f)
    if outs is None:
        return

    def parts(v):
        """summands of a number"""
        if v.op in ("op", "sat") and v.a[0] == "Add":
            return [q for x in v.a[1:3] for q in parts(x)]
        return [v]

    def summands(t, facts, acc):
        if t.op == "adt" and t.a[1] == vix("Term", "Add"):
            return summands(t.a[2], facts, acc) and summands(t.a[3], facts, acc)
        if t.op == "adt" and t.a[1] == vix("Term", "Value"):
            w = t.a[2]
            for d in (0, 1):
                for v in parts(fld(w, 0, d)):
                    k = facts.get(v)
                    if k is not None and k[0] == "=":
                        v = k[1]
                    if v is not I(0):
                        acc.append((d, v))
            return True
        if t.op == "call" and t.a[0] == f.npath and len(t.a) == 3:
            return summands(t.a[1], facts, acc) and summands(t.a[2], facts, acc)
        d = facts.get(T("disc", t))
        if d is not None and d[0] == "=" and d[1] is I(vix("Term", "Add")):
            return all(summands(tf(t, "Add", i), facts, acc) for i in (0, 1))
        if d is not None and d[0] == "=" and d[1] is I(vix("Term", "Value")):
            return summands(mk("Term", "Value", tf(t, "Value")), facts, acc)
        if t.op in ("param", "fld"):
            acc.append(("whole", t))
            return True
        return False
    for i, o in enumerate(outs):
        if o.kind != "ret":
            ctx.ob("splicing produces the sum", False, f, "row %d panics when %s" % (i, showfacts(o.st.facts)))
            continue
        want, have = [], []
        summands(me, o.st.facts, want)
        summands(ot, o.st.facts, want)
        if not summands(o.val, o.st.facts, have) or not cleanfacts(o.st.facts, {f.npath}):
            ctx.ob("splicing produces the sum", None, f, short(o.val))
            continue
        s = sorted(map(repr, want)) == sorted(map(repr, have))
        ctx.ob("splicing produces the sum", s, f, "when %s: summands %s, result %s" % (showfacts(o.st.facts), want, short(o.val)))


@prop("C11", "value-flow table of the formula renderer: omitted parts are provably neutral, sums bracketed inside products")
def c11(ctx):
    # the renderer: the method that turns a term and the bracket context into an optional string
    prog = ctx.prog(CORE)

    def isfmt(f):
        if f.nargs != 2 or "{closure" in f.path or not f.npath.startswith(TM):
            return False
        t = [prog.types[f.locals[i]] for i in (0, 1, 2)]
        return t[2]["k"] == "bool" and t[0].get("adt", "").endswith("Option")
    fs = [f for f in prog.fns.values() if isfmt(f)]
    disp = [f for f in prog.fns.values() if f.path.endswith("as std::fmt::Display>::fmt") and "Term<" in f.path]
    if not fs:
        return ctx.lost("term renderer not found")
    f = fs[0]
    outs = ctx.outs(f, opaque=[C + "Dimension::fmt_scalar"])
    if outs is None:
        return
    me, br = P("self"), P(engine.Eng(prog).argname(f, 2))
    rec = lambda t, b: call(f.npath, t, b)

    def const(x, t, n):
        v = x.variant(t, "Term")
        return v in ("Value", "Scalar") and x.eq(tf(t, v), I(n))

    def sp(x):
        v = x.variant(me, "Term")
        if v == "Value" or v == "Scalar":
            return some(call(C + "Dimension::fmt_scalar", tf(me, v)))
        if v == "Var":
            return some(name(tf(me, v)))
        l, r = tf(me, v, 0), tf(me, v, 1)
        neutral = 1 if v == "Mul" else 0
        if v == "Add" and const(x, l, 0) and const(x, r, 0):
            return NONE
        nl, nr = const(x, l, neutral), const(x, r, neutral)
        if nl:
            return rec(r, br)
        if nr:
            return rec(l, br)
        if v == "Mul" and (const(x, l, 0) or const(x, r, 0)):
            return NONE
        c = FALSE if v == "Mul" else TRUE
        a, b = x.opt(rec(l, c)), x.opt(rec(r, c))
        if v == "Mul":
            if a is None or b is None:
                return NONE
            return some(fmt(a, " * ", b))
        if a is None and b is None:
            return NONE
        if a is None or b is None:
            return some(a or b)
        if x.is_(br):
            return some(fmt(a, " + ", b))
        return some(fmt("(", a, " + ", b, ")"))
    ctx.obs += check_table(outs, f, "only neutral parts are omitted, and a sum inside a product is bracketed", sp,
                           extra={f.npath, C + "Dimension::fmt_scalar"})
    for d in disp[:1]:
        outs = ctx.outs(d, opaque=[f.npath])
        if outs is None:
            continue
        bad = [o for o in outs if o.kind == "panic"]
        ctx.ob("displaying a formula starts outside any product", all_disp(outs, f.npath, me) if not bad else None, d,
               "\n".join(show(T("x", *o.st.eff))[:300] for o in outs))


def fmt(*ps):
    from terms import fmt as f
    return f(tuple(S(p) if isinstance(p, str) else T("sv", p) for p in ps))


def all_disp(outs, g, me):
    """every row writes the rendering in sum context, or "0" when there is none"""
    r = None
    for o in outs:
        ts = [t for e in list(o.st.eff) + [o.val] + list(o.st.store.values()) if isinstance(e, Term) for t in subterms(e)]
        cs = {t for t in ts + [t for k in o.st.facts for t in subterms(k)] if t.op == "call" and t.a[0] == g}
        if not cs or any(c.a[1] is not me for c in cs):
            return None
        if any(c.a[2] is FALSE for c in cs):
            return False
        if any(c.a[2] is not TRUE for c in cs):
            return None
        r = True
    return r
