"""Parsing of weight files."""
from check import *
from spec import *

C = "subweight_core::"
PA = C + "parse::pallet::"
PE, PS, PM, PSM = PA + "parse_expression", PA + "parse_scalar_expression", PA + "parse_method_call", PA + "parse_scalar_method_call"
LIFT = C + "term::Term::into_chromatic"
SPLICE = C + "term::Term::splice_add"
TIME, PROOF = 0, 1


def sx(x, ty, field, variant=None):
    return get(x, "syn::" + ty, field, variant)


def ex(x, v):
    return get(x, "syn::Expr", 0, v)


def pathstr(p, sep):
    segs = sx(p, "Path", "segments")
    e = T("elem", segs, "x")
    return call("join", ENG.mkcollect("Vec", segs, e, [(frozenset(), "ret", sx(e, "PathSegment", "ident"), None)]), S(sep))


def ends(s, *suf):
    return [call("str_ends_with", s, S(w)) for w in suf]


def dim(d):
    return mk("Dimension", ("Time", "Proof")[d])


def lift(t, d):
    return call(LIFT, t, dim(d))


def need(x, r):
    k, v = x.res(r)
    if k == "err":
        raise Fail(err(ANY))
    return v


def one_arg(x, args):
    if not x.eq(mklen(args), I(1)):
        raise Fail(err(ANY))
    return T("idx", args, I(0))


def var(s):
    return mk("Term", "Var", mk("VarValue", s) if not engine.is_transparent(adt("VarValue")) else s)


def literal(x, lit):
    """an integer literal's value or an error"""
    if x.variant(lit, "syn::Lit") != "Int":
        raise Fail(err(ANY))
    return need(x, call("parse<u128>", call("base10_digits", get(lit, "syn::Lit", 0, "Int"))))


def fname(x, c):
    f = sx(c, "ExprCall", "func")
    if not x.isv(f, "syn::Expr", "Path"):
        raise Fail(err(ANY))
    return pathstr(sx(ex(f, "Path"), "ExprPath", "path"), "::")


def is_call(o, p="expr"):
    d = o.st.facts.get(T("disc", P(p)))
    return d is not None and d[0] == "=" and d[1] is I(vix("syn::Expr", "Call"))


def has(o, t, v):
    w = o.st.facts.get(t)
    return w is not None and w[0] == "=" and w[1] is v


def chrom_call(x):
    """Weight::from_..(..) and Weight::zero()"""
    c = ex(P("expr"), "Call")
    n, args = fname(x, c), sx(c, "ExprCall", "args")
    if x.is_(ends(n, "::from_ref_time")[0]):
        return ok(lift(need(x, call(PS, one_arg(x, args))), TIME))
    if x.is_(ends(n, "::from_proof_size")[0]):
        return ok(lift(need(x, call(PS, one_arg(x, args))), PROOF))
    if x.is_(ends(n, "::from_parts")[0]):
        if not x.eq(mklen(args), I(2)):
            return err(ANY)
        t = need(x, call(PS, T("idx", args, I(0))))
        p = need(x, call(PS, T("idx", args, I(1))))
        return ok(call(SPLICE, lift(t, TIME), lift(p, PROOF)))
    if x.is_(ends(n, "::zero")[0]):
        return err(ANY) if not x.len0(args) else ok(mk("Term", "Value", mk("Weight", time=I(0), proof=I(0))))
    return err(ANY)


def strict(fn):
    def sp(x):
        try:
            return fn(x)
        except Fail as e:
            return e.val
    return sp


def method(x, me):
    return sx(me, "ExprMethodCall", "method")


RW = {"reads": "READ", "writes": "WRITE"}


@prop("C01", "value-flow tables of the two expression translators against the grammar, one obligation per syntactic construct")
def c01(ctx):
    e = P("expr")

    def chrom(x):
        v = x.variant(e, "syn::Expr")
        if v == "Paren":
            return call(PE, sx(ex(e, v), "ExprParen", "expr"))
        if v == "Cast":
            return call(PE, sx(ex(e, v), "ExprCast", "expr"))
        if v == "MethodCall":
            return call(PM, ex(e, v))
        if v == "Path":
            return ok(var(pathstr(sx(ex(e, v), "ExprPath", "path"), "::")))
        if v == "Call":
            return SKIP
        return err(ANY)
    ctx.table(CORE, PE, "weight expressions: parentheses, casts, variables, method calls; anything else is an error", strict(chrom))

    if ctx.fn(CORE, HM) is not None:
        ctx.table(CORE, HM, "a body is one expression, all of it the formula; a body with further statements is an error", strict(lambda x: method_row(x, "fn")))

    def scalar(x):
        v = x.variant(e, "syn::Expr")
        if v == "Paren":
            return call(PS, sx(ex(e, v), "ExprParen", "expr"))
        if v == "Cast":
            return call(PS, sx(ex(e, v), "ExprCast", "expr"))
        if v == "MethodCall":
            return call(PSM, ex(e, v))
        if v == "Path":
            return ok(var(pathstr(sx(ex(e, v), "ExprPath", "path"), "::")))
        if v == "Lit":
            return ok(mk("Term", "Scalar", literal(x, sx(ex(e, v), "ExprLit", "lit"))))
        if v == "Call":
            c = ex(e, v)
            n, args = fname(x, c), sx(c, "ExprCall", "args")
            if x.is_(ends(n, "::from_ref_time")[0]):
                return call(PS, one_arg(x, args))
            if x.is_(ends(n, "::zero")[0]):
                return err(ANY) if not x.len0(args) else ok(oneof(mk("Term", "Value", I(0)), mk("Term", "Scalar", I(0))))
            return err(ANY)
        return err(ANY)
    ctx.table(CORE, PS, "scalar expressions: literals, parentheses, casts, variables, method calls; anything else is an error", strict(scalar))

    me = P("call")
    recv, args = sx(me, "ExprMethodCall", "receiver"), sx(me, "ExprMethodCall", "args")
    for fn, g, extra in ((PM, PE, ()), (PSM, PS, ("ref_time",))):
        def meth(x, g=g, extra=extra):
            m = method(x, me)
            for k in RW:
                if x.eq(m, S(k)):
                    return SKIP
            for k, v in (("saturating_add", "Add"), ("saturating_mul", "Mul")):
                if x.eq(m, S(k)):
                    a = need(x, call(g, recv))
                    b = need(x, call(g, one_arg(x, args)))
                    return ok(mk("Term", v, a, b))
            if x.eq(m, S("into")):
                return call(g, recv)
            if "ref_time" in extra and x.eq(m, S("ref_time")):
                return err(ANY) if not x.len0(args) else call(g, recv)
            return err(ANY)
        ctx.table(CORE, fn, "method calls: sums, products and conversions; anything else is an error", strict(meth))


@prop("C02", "value-flow tables of the method translators restricted to storage accesses")
def c02(ctx):
    me = P("call")
    recv, args = sx(me, "ExprMethodCall", "receiver"), sx(me, "ExprMethodCall", "args")
    for fn, lifted in ((PM, True), (PSM, False)):
        def sp(x, lifted=lifted):
            m = method(x, me)
            which = [k for k in RW if x.eq(m, S(k))]
            if not which:
                return SKIP
            if not x.isv(recv, "syn::Expr", "Call"):
                return err(ANY)
            c = ex(recv, "Call")
            n = fname(x, c)
            if not x.eq(n, S("T::DbWeight::get")) and not any([x.is_(t) for t in ends(n, "RocksDbWeight::get", "ParityDbWeight::get")]):
                return err(ANY)
            if not x.len0(sx(c, "ExprCall", "args")):
                return err(ANY)
            a = one_arg(x, args)
            if lifted and x.isv(a, "syn::Expr", "Lit"):
                n = mk("Term", "Scalar", literal(x, sx(ex(a, "Lit"), "ExprLit", "lit")))
            else:
                n = need(x, call(PS, a))
                if lifted:
                    n = lift(n, TIME)
            return ok(mk("Term", "Mul", n, var(S(RW[which[0]]))))
        ctx.table(CORE, fn, "reads/writes on an argument-less database accessor multiply the read/write cost", strict(sp))


@prop("C03", "value-flow tables: every constant is lifted into the dimension it was written for")
def c03(ctx):
    ctx.table(CORE, PE, "from_ref_time, from_proof_size and from_parts give each number its own dimension",
              strict(lambda x: chrom_call(x)), rows=is_call)


def undim_var(o):
    return any(k.op == "disc" and k.a[0] is P("self") and v == ("=", I(vix("Term", "Var"))) for k, v in o.st.facts.items())


@also("C03")
def c03_var(ctx):
    f = ctx.fn(CORE, LIFT)
    if f is None:
        return ctx.lost("into_chromatic not found")
    outs = ctx.outs(f)
    v0 = T("fld", P("self"), vix("Term", "Var"), 0)
    for o in [o for o in outs or () if undim_var(o)]:
        d = o.st.facts.get(T("disc", P("unit")))
        same = o.kind == "ret" and o.val is mk("Term", "Var", v0)
        ctx.ob("a variable written for one dimension does not contribute to the other", False if same else None, f,
               "the variable keeps no dimension: Var(x) becomes Var(x) whatever the unit is")


# ---------------------------------------------------------------- C04, C05: pallet files

ITEM = P("item")


def item(v):
    return get(ITEM, "syn::Item", 0, v)


def selected_impl(x):
    """the functions of the impl block carrying the weights"""
    if not x.isv(ITEM, "syn::Item", "Impl"):
        raise Fail(err(ANY))
    imp = item("Impl")
    ty = sx(imp, "ItemImpl", "self_ty")
    v = x.variant(ty, "syn::Type")
    if v == "Tuple":
        if not x.len0(sx(get(ty, "syn::Type", 0, v), "TypeTuple", "elems")):
            raise Fail(err(ANY))
    elif v == "Path":
        p = sx(get(ty, "syn::Type", 0, v), "TypePath", "path")
        segs = sx(p, "Path", "segments")
        if x.opt(sx(p, "Path", "leading_colon")) is not None or not x.eq(mklen(segs), I(1)):
            raise Fail(err(ANY))
        n = sx(T("idx", segs, I(0)), "PathSegment", "ident")
        if not any([x.eq(n, S("WeightInfo")), x.eq(n, S("SubstrateWeight"))]):
            raise Fail(err(ANY))
    else:
        raise Fail(err(ANY))
    return sx(imp, "ItemImpl", "items")


def weight_fn(x, m):
    """(name, weight) of one function of the block"""
    sig = sx(m, "ImplItemFn", "sig")
    out = sx(sig, "Signature", "output")
    if not x.isv(out, "syn::ReturnType", "Type"):
        raise Fail(err(ANY))
    ty = get(out, "syn::ReturnType", 1, "Type")
    if not x.isv(ty, "syn::Type", "Path"):
        raise Fail(err(ANY))
    segs = sx(sx(get(ty, "syn::Type", 0, "Path"), "TypePath", "path"), "Path", "segments")
    if x.len0(segs):
        raise Infeasible()  # syn yields no empty path
    if not x.is_(call("str_ends_with", sx(T("last", segs), "PathSegment", "ident"), S("Weight"))):
        raise Fail(err(ANY))
    stmts = sx(sx(m, "ImplItemFn", "block"), "Block", "stmts")
    if not x.eq(mklen(stmts), I(1)):
        raise Fail(err(ANY))
    st = T("idx", stmts, I(0))
    if not x.isv(st, "syn::Stmt", "Expr"):
        raise Fail(err(ANY))
    e = get(st, "syn::Stmt", 0, "Expr")
    k, w = x.res(call(PE, e))
    if k == "err":
        w = lift(need(x, call(PS, e)), TIME)
    return sx(sig, "Signature", "ident"), w


RX = S(r"[\w\s]*`(?P<component>\w+)`[\w\s]*`\[(?P<min>[\d_]+),\s*(?P<max>[\d_]+)\]`.*")


def ranges(x, m):
    """the annotated component ranges of one function"""
    def one(x, a):
        meta = sx(a, "Attribute", "meta")
        if not x.isv(meta, "syn::Meta", "NameValue"):
            return SKIP
        nv = get(meta, "syn::Meta", 0, "NameValue")
        if not x.eq(pathstr(sx(nv, "MetaNameValue", "path"), ""), S("doc")):
            return SKIP
        c = call("rx_captures", call("regex", RX), T("fmt", T("disp", sx(nv, "MetaNameValue", "value"))))
        caps = x.opt(c)
        if caps is None:
            return SKIP
        g = {n: call("cap_name", caps, S(n)) for n in ("component", "min", "max")}
        text = lambda n: call("str_replace", call("match_str", g[n]), S("_"), S(""))
        lo = need(x, call("parse<u32>", text("min")))
        hi = need(x, call("parse<u32>", text("max")))
        if x.lt(hi, lo):
            raise Fail(err(ANY))
        return tup(text("component"), mk("ComponentRange", min=lo, max=hi))
    attrs = sx(m, "ImplItemFn", "attrs")
    r = x.foreach(attrs, one, "Map")
    return NONE if x.len0(r) else some(r)


def c04_item(x, full):
    fns = selected_impl(x)

    def one(x, i):
        if not x.isv(i, "syn::ImplItem", "Fn"):
            return SKIP
        m = get(i, "syn::ImplItem", 0, "Fn")
        n, w = weight_fn(x, m)
        r = ranges(x, m)
        return mk("GenericExtrinsic", name=n, pallet=P("pallet"), term=w, comp_ranges=r)
    ws = x.foreach(fns, one)
    return err(ANY) if x.len0(ws) else ok(ws)


def method_row(x, want):
    n, w = weight_fn(x, P("m"))
    r = ranges(x, P("m"))
    return ok(tup(n, w, ANY)) if want == "fn" else ok(tup(ANY, ANY, r))


HM = PA + "handle_method"


@prop("C04", "value-flow tables of file, block and function level extraction")
def c04(ctx):
    c = P("content")
    HI = PA + "handle_item"
    if ctx.fn(CORE, HM) is not None:
        ctx.table(CORE, HM, "a weight function yields its name and expression, anything else is an error",
                  strict(lambda x: method_row(x, "fn")))

    def per_item(x):
        fns = selected_impl(x)

        def one(x, i):
            if not x.isv(i, "syn::ImplItem", "Fn"):
                return SKIP
            t = need(x, call(HM, get(i, "syn::ImplItem", 0, "Fn")))
            f = lambda k: T("fld", t, 0, k)
            return mk("GenericExtrinsic", name=f(0), pallet=P("pallet"), term=f(1), comp_ranges=f(2))
        ws = x.foreach(fns, one)
        return err(ANY) if x.len0(ws) else ok(ws)
    ctx.table(CORE, HI, "a weight block yields one extrinsic per function or nothing at all", strict(per_item),
              opaque=[HM], extra=[HM])

    def per_file(x):
        ast = need(x, call("syn::parse_file", c))
        its = sx(ast, "File", "items")
        i = x.first(its, lambda x, e: x.res(call(HI, P("pallet"), e))[0] == "ok")
        if i is None:
            return err(ANY)
        return ok(need(x, call(HI, P("pallet"), i)))
    ctx.table(CORE, PA + "parse_content", "the first weight block of the file is used; a file without one is an error", strict(per_file))


@prop("C05", "value-flow table of the annotation reader")
def c05(ctx):
    if ctx.fn(CORE, HM) is not None:
        ctx.table(CORE, HM, "component ranges come from the documentation comments, inclusive, validated", strict(lambda x: method_row(x, "ranges")))


# ---------------------------------------------------------------- C06: storage and overhead files

def constants(mod):
    """the declarations read_content / handle_item of the two file kinds with a single constant"""
    HI = C + "parse::%s::handle_item" % mod

    def outer(fn):
        def sp(x):
            v = x.variant(ITEM, "syn::Item")
            if v == "Mod":
                m = item(v)
                if not x.eq(sx(m, "ItemMod", "ident"), S("constants")):
                    raise Fail(err(ANY))
                c = x.opt(sx(m, "ItemMod", "content"))
                if c is None:
                    raise Fail(err(ANY))
                its = T("fld", c, 0, 1)
                i = x.first(its, lambda x, e: x.res(call(HI, e))[0] == "ok")
                if i is None:
                    raise Fail(err(ANY))
                return ok(need(x, call(HI, i)))
            if v == "Macro":
                mac = sx(item(v), "ItemMacro", "mac")
                segs = sx(sx(mac, "Macro", "path"), "Path", "segments")
                if x.len0(segs):
                    return SKIP  # syn yields no empty path
                if not x.eq(sx(T("last", segs), "PathSegment", "ident"), S("parameter_types")):
                    raise Fail(err(ANY))
                return fn(x, need(x, call("syn::parse2", sx(mac, "Macro", "tokens"))))
            raise Fail(err(ANY))
        return strict(sp)
    return HI, outer


def typename(x, t):
    if not x.isv(t, "syn::Type", "Path"):
        raise Fail(err(ANY))
    return pathstr(sx(get(t, "syn::Type", 0, "Path"), "TypePath", "path"), "")


def member_is(x, f, name):
    m = sx(f, "FieldValue", "member")
    return x.isv(m, "syn::Member", "Named") and x.eq(get(m, "syn::Member", 0, "Named"), S(name))


SPE = C + "parse::storage::parse_expression"


@prop("C06", "value-flow tables of the two single-constant file readers and of the cost expressions")
def c06(ctx):
    HI, outer = constants("storage")

    def storage(x, d):
        n = sx(d, "ItemConst", "ident")
        db = [v for k, v in (("RocksDbWeight", "Rocks"), ("ParityDbWeight", "Parity")) if x.eq(n, S(k))]
        if not db or not x.eq(typename(x, sx(d, "ItemConst", "ty")), S("RuntimeDbWeight")):
            raise Fail(err(ANY))
        e = sx(d, "ItemConst", "expr")
        if not x.isv(e, "syn::Expr", "Struct"):
            raise Fail(err(ANY))
        s = ex(e, "Struct")
        if not x.eq(pathstr(sx(s, "ExprStruct", "path"), ""), S("RuntimeDbWeight")):
            raise Fail(err(ANY))
        fs = sx(s, "ExprStruct", "fields")
        if not x.eq(mklen(fs), I(2)):
            raise Fail(err(ANY))
        w = []
        for k in ("read", "write"):
            f = x.first(fs, lambda x, e: member_is(x, e, k))
            if f is None:
                raise Fail(err(ANY))
            w.append(sx(f, "FieldValue", "expr"))
        r, w = [need(x, call(SPE, e)) for e in w]
        return ok(mk("storage::Weights", db=mk("Db", db[0]), weights=mk("RWs", read=r, write=w)))
    ctx.table(CORE, HI, "storage costs: the constant's name, type and both fields decide what is read", outer(storage), opaque=[SPE, HI])

    e = P("expr")

    def cost(x):
        v = x.variant(e, "syn::Expr")
        if v == "Binary":
            b = ex(e, v)
            l = need(x, call(SPE, sx(b, "ExprBinary", "left")))
            r = need(x, call(SPE, sx(b, "ExprBinary", "right")))
            op = x.variant(sx(b, "ExprBinary", "op"), "syn::BinOp")
            if op not in ("Mul", "Add"):
                return err(ANY)
            return ok(mk("Term", op, l, r))
        if v == "Lit":
            return ok(mk("Term", "Scalar", literal(x, sx(ex(e, v), "ExprLit", "lit"))))
        if v == "Path":
            return ok(var(pathstr(sx(ex(e, v), "ExprPath", "path"), "::")))
        return err(ANY)
    ctx.table(CORE, SPE, "cost expressions: sums, products, literals and constants", strict(cost))

    HI, outer = constants("overhead")

    def overhead(x, d):
        if not x.eq(typename(x, sx(d, "ItemConst", "ty")), S("Weight")):
            raise Fail(err(ANY))
        e = sx(d, "ItemConst", "expr")
        if x.isv(e, "syn::Expr", "Binary"):
            b = ex(e, "Binary")
            l = need(x, call(PS, sx(b, "ExprBinary", "left")))
            r = need(x, call(PS, sx(b, "ExprBinary", "right")))
            op = x.variant(sx(b, "ExprBinary", "op"), "syn::BinOp")
            if op not in ("Mul", "Add"):
                raise Fail(err(ANY))
            w = lift(mk("Term", op, l, r), TIME)
        else:
            w = need(x, call(PE, e))
        n = sx(d, "ItemConst", "ident")
        for k, v in (("BlockExecutionWeight", "BlockExecution"), ("ExtrinsicBaseWeight", "ExtrinsicBase")):
            if x.eq(n, S(k)):
                return ok(mk("overhead::Weight", v, w))
        raise Fail(err(ANY))
    ctx.table(CORE, HI, "overhead weights: the constant's name and type decide what is read", outer(overhead), opaque=[HI])

    for mod in ("storage", "overhead"):
        HI = C + "parse::%s::handle_item" % mod

        def per_file(x, HI=HI):
            its = sx(need(x, call("syn::parse_file", P("content"))), "File", "items")
            i = x.first(its, lambda x, e: x.res(call(HI, e))[0] == "ok")
            if i is None:
                return err(ANY)
            return ok(need(x, call(HI, i)))
        ctx.table(CORE, C + "parse::%s::parse_content" % mod, "the first such declaration of the file is used; a file without one is an error",
                  strict(per_file), opaque=[HI], extra=[HI])


# ---------------------------------------------------------------- C07: several files

PF, PFR = PA + "parse_file", PA + "parse_file_in_repo"
READ = C + "parse::read_file"


@prop("C07", "value-flow tables of the per-file and per-list readers")
def c07(ctx):
    fs = P("paths")
    for strict_fn, lax_fn, rd in ((PA + "parse_files", PA + "try_parse_files", lambda p: call(PF, p)),
                                  (PA + "parse_files_in_repo", PA + "try_parse_files_in_repo", lambda p: call(PFR, P("repo"), p))):
        ctx.table(CORE, strict_fn, "strict reading: all extrinsics of all files in order, or the first error",
                  strict(lambda x, rd=rd: ok(flat(x, fs, lambda x, p: need(x, rd(p))))), extra=[PF, PFR])

        def lax(x, p, rd):
            k, v = x.res(rd(p))
            return v if k == "ok" else SKIP
        ctx.table(CORE, lax_fn, "tolerant reading: exactly the unreadable files are left out",
                  lambda x, rd=rd: flat(x, fs, lambda x, p: lax(x, p, rd)), extra=[PF, PFR])
    f = P("file")

    def one(x, name):
        c = need(x, call(READ, f))
        return ok(need(x, call(PA + "parse_content", name(x), c)))

    def file_name(x):
        n = x.opt(call("path_file_name", f))
        if n is None:
            raise Infeasible()  # a file that could be read has a name
        return n

    def repo_name(x):
        k, v = x.res(call("path_strip_prefix", f, P("repo")))
        return v if k == "ok" else f
    ctx.table(CORE, PF, "a file's pallet is named by its file name", strict(lambda x: one(x, file_name)), extra=[READ])
    ctx.table(CORE, PFR, "a file's pallet is named by its path inside the repository", strict(lambda x: one(x, repo_name)), extra=[READ])
    for mod in ("storage", "overhead"):
        ctx.table(CORE, C + "parse::%s::parse_file" % mod, "the content that was read is what is parsed",
                  strict(lambda x, mod=mod: call(C + "parse::%s::parse_content" % mod, need(x, call(READ, f)))), extra=[READ])

    def guess(x):
        for n, v, args in ((PFR, "Pallet", (P("repo"), f)), (C + "parse::storage::parse_file", "Storage", (f,)),
                           (C + "parse::overhead::parse_file", "Overhead", (f,))):
            k, r = x.res(call(n, *args))
            if k == "ok":
                return some(mk("ParsedFile", v, r))
        return NONE
    ctx.table(CORE, C + "parse::try_parse_file", "the kinds of file are tried in order", guess,
              extra=[PFR, C + "parse::storage::parse_file", C + "parse::overhead::parse_file"])


# ---------------------------------------------------------------- C08

def impossible(f):
    """facts that no parsed file gives rise to"""
    for k, v in f.items():
        zero = v[0] == "=" and v[1].op == "int" and v[1].a[0] == 0
        if k.op == "len" and zero and k.a[0].op == "fld" and k.a[0].a[0].op == "fld" and is_segments(k.a[0]):
            return "a path has at least one segment"
        if k.op == "disc" and zero and k.a[0].op == "call" and k.a[0].a[0] == "path_file_name":
            return "a file that could be read has a name"
    return None


def is_segments(t):
    """t is .segments of some syn::Path (Punctuated keeps its pairs in field 0 and the last element in field 1)"""
    p = P("$p")
    s = sx(p, "Path", "segments")
    x, y = s, t
    while x.op == "fld" and y.op == "fld":
        if x.a[1:] != y.a[1:]:
            return False
        x, y = x.a[0], y.a[0]
        if x is p:
            return True
    return False


@prop("C08", "absence of reachable panics: every row of every parser's table, over the call graph from the entry points")
def c08(ctx):
    todo = [PA + n for n in ("parse_content", "parse_file", "parse_file_in_repo", "parse_files", "parse_files_in_repo", "try_parse_files",
                             "try_parse_files_in_repo")]
    todo += [C + "parse::%s::%s" % (m, n) for m in ("storage", "overhead") for n in ("parse_content", "parse_file")]
    todo += [C + "parse::try_parse_file"]
    by = {}
    for g in ctx.prog(CORE).fns.values():
        by.setdefault(g.npath, g)
    seen = set()
    while todo:
        n = todo.pop()
        if n in seen:
            continue
        seen.add(n)
        f = by.get(n)
        if f is None:
            ctx.lost("%s: function not found" % n)
            continue
        outs = ctx.outs(f)
        bad = False
        for i, o in enumerate(outs or ()):
            for root in list(o.st.facts) + list(o.st.facts.values()) + ([o.val] if o.val is not None else []) + list(o.st.eff):
                for t in subs_all(root):
                    if t.op in ("call", "after") and t.a and isinstance(t.a[0], str) and t.a[0] in by and t.a[0] not in seen:
                        todo.append(t.a[0])
            if o.kind == "panic" and impossible(o.st.facts) is None:
                bad = True
                clean = spec_clean(o.st.facts) or runaway_loop(o.st.facts)
                ctx.ob("no file content makes the parser panic", False if clean else None, f,
                       "when %s\n   panics: %s" % (showfacts(o.st.facts), show(o.val)))
        for o in outs or ():
            t = None if o.kind != "ret" else runaway(o)
            if t is not None:
                bad = True
                ctx.ob("no file content makes the parser panic", False if spec_clean(o.st.facts) else None, f,
                       "when %s\n   an unbounded input overflows the accumulator of %s" % (showfacts(o.st.facts), show(t)))
        if outs is not None and not bad:
            ctx.ob("no file content makes the parser panic", True, f)


def runaway(o):
    """a fold over the text that multiplies its accumulator at each step, with a panic when that overflows"""
    for t in subs_all(o.val):
        if t.op == "call" and t.a[0] == "iter_fold" and len(t.a) == 4 and t.a[3].op == "lam":
            c = t.a[1]
            if c.op != "call" or c.a[0] not in ("str_bytes", "str_chars"):
                continue
            for r in t.a[3].a[0]:
                if r[1] == "panic" and any(k.op == "ovf" and k.a[0] == "Mul" and T("bv", "x", 0) in k.a[1:3] and any(
                        y.op == "int" and y.a[0] > 1 for y in k.a[1:3]) and w == ("=", TRUE) for k, w in r[0]):
                    return t
    return None


def runaway_loop(facts):
    """the same written as a loop: the only thing asked of the accumulator is that its next multiplication overflows"""
    for k, w in facts.items():
        if k.op != "ovf" or k.a[0] != "Mul" or w != ("=", TRUE):
            continue
        n = [y for y in k.a[1:3] if y.op == "partial" and y.a[0].op == "fold"]
        if len(n) != 1 or not any(y.op == "int" and y.a[0] > 1 for y in k.a[1:3]):
            continue
        fo = n[0].a[0]
        if fo.a[0].op != "int" or fo.a[1].op != "call" or fo.a[1].a[0] not in ("str_bytes", "str_chars"):
            continue
        rest = {q: v for q, v in facts.items() if q is not k and not (q.op == "any" and q.a[0] is fo.a[1])}
        if not any(t is n[0] or t is fo for q in rest for t in subterms(q)) and spec_clean(rest):
            return True
    return False


def subs_all(t):
    if isinstance(t, Term):
        return subterms(t)
    if isinstance(t, (tuple, frozenset)):
        return [y for x in t for y in subs_all(x)]
    return []


def spec_clean(f):
    import spec
    return spec.cleanfacts(f, frozenset(anchors_names()) | {"open", "path_file_name", "path_strip_prefix"})


def anchors_names():
    import anchors
    return anchors.ANCHORS
