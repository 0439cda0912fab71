"""The pages of the web interface."""
from check import *
from spec import *
import calls
import html as H
import engine

W = "subweight_web::"
TPL = W + "html::templates::"


def helpers(ctx):
    """project functions that build strings: they stay calls in the page and are judged where they are inserted"""
    prog = ctx.prog(WEB)
    out = set()
    for f in calls.project(prog):
        if "{closure" in f.npath or "sailfish" in f.npath or f.npath.endswith("::render"):
            continue
        t = prog.types[f.locals[0]]
        if f.crate == "subweight_web" and (t.get("adt", "").endswith("::String") or t["k"] in ("int", "uint")):
            out.add(f.npath)
    return out | {"subweight_core::Dimension::fmt_value"}


def outs_of(ctx, opq):
    prog = ctx.prog(WEB)
    memo = {}

    def g(np):
        if np in memo:
            return memo[np]
        memo[np] = None
        fs = [f for f in prog.fns.values() if f.npath == np]
        if len(fs) == 1:
            o = ctx.outs(fs[0], opaque=opq, join=True)
            if o is not None:
                ps = [P(engine.Eng(prog).argname(fs[0], i + 1)) for i in range(fs[0].nargs)]
                memo[np] = [(ps, H.mark_numbers(x.val)) for x in o if x.kind == "ret"]
        return memo[np]
    return g


def pages(ctx):
    """(function, lexed page, nodes) of every template"""
    prog = ctx.prog(WEB)
    opq = helpers(ctx)
    for f in calls.project(prog):
        if not f.npath.endswith("::render_once") or f.crate != "subweight_web":
            continue
        outs = ctx.outs(f, opaque=opq, join=True)
        if outs is None:
            continue
        for o in outs:
            if o.kind != "ret":
                continue
            v = o.val
            if v.op == "adt" and v.a[1] == 0 and len(v.a) > 2:
                v = v.a[2]
            if v.op != "call" or v.a[0] != "html":
                yield f, None, show(v)[:300]
                continue
            pg = H.Page(outs_of(ctx, opq))
            lx, nodes = H.Lex(), []
            b = v.a[1]
            pg.many(lx, b, nodes)
            if lx.s != "text":
                pg.found.append((None, "the page ends inside a tag"))
            yield f, pg, nodes


@prop("C30", "HTML-context analysis: a lexer over the symbolic page of every template, with escaping functions as sanitisers")
def c30(ctx):
    name = "text from requests, repositories and weight files is escaped where it is inserted"
    n = 0
    for f, pg, nodes in pages(ctx):
        n += 1
        if pg is None:
            ctx.ob(name, None, f, nodes)
            continue
        for v, d in pg.found:
            ctx.ob(name, v, f, d)
    if not n:
        ctx.lost("no templates found")
    bodies(ctx, name)


def bodies(ctx, name):
    """the bodies of HTML responses outside of the templates"""
    prog = ctx.prog(WEB)
    opq = {f.npath for f in calls.project(prog) if f.npath.endswith("::render") and f.npath.startswith(TPL)}
    opq |= {f.npath for f in calls.project(prog) if f.npath.endswith("do_compare_cached")}
    for f in handlers(ctx):
        for o in ctx.outs(f, opaque=opq) or ():
            if o.kind != "ret" or o.val is None:
                continue
            for t in subterms(o.val):
                if t.op != "call" or not isinstance(t.a[0], str) or not t.a[0].endswith("HttpResponseBuilder::body"):
                    continue
                ty = [x.a[2].a[0] for x in subterms(t.a[1]) if x.op == "call" and str(x.a[0]).endswith("content_type") and x.a[2].op == "str"]
                if not ty or not ty[0].startswith("text/html"):
                    ctx.ob(name, None if not ty else True, f, "content type %s" % ty)
                    continue
                b = t.a[2]
                if b.op == "call" and b.a[0] in opq:
                    ctx.ob(name, True, f, "a template")
                    continue
                pg = H.Page(lambda np: None)
                pg.raw(H.Lex(), b, [])
                for v, d in pg.found or [(True, "constant")]:
                    ctx.ob(name, v, f, d)


def handlers(ctx):
    """the request handlers: coroutine bodies below a registered service"""
    prog = ctx.prog(WEB)
    return sorted((f for f in calls.project(prog) if "HttpServiceFactory>::register::" in f.npath and f.npath.endswith("::{closure#0}")
                   and f.npath.count("{closure") == 1), key=lambda f: f.npath)
