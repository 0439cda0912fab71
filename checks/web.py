"""The request handlers of the web service."""
from check import *
from spec import *
import calls
import shape
from xml.sax.saxutils import unescape
import re

W = "subweight_web::"
CC = "subweight_core::compare_commits"
FILT, SORT = "subweight_core::filter_changes", "subweight_core::sort_changes"
LOOKUP = {"dashmap_get", "dashmap_get_mut"}
REG = ("dashmap_",)


# uninterpreted operations the specifications below speak about
VOCAB = {"lock_lock", "dashmap_get", "dashmap_get_mut", "dashmap_iter", "cache_get", "cache_set", "path_exists", "path_is_dir", "path_join",
         "dashmap::DashMap::new", "decode_html_entities", "str_trim", "actix_web::web::Query::from_query", "actix_web::HttpRequest::query_string",
         "clap::Parser::parse", "dashmap::mapref::multiple::RefMulti::key", "dashmap::mapref::multiple::RefMulti::value", "exit_success", "spawn"}


def handler_fns(ctx):
    prog = ctx.prog(WEB)
    return sorted((f for f in calls.project(prog) if "HttpServiceFactory>::register::" in f.npath and f.npath.endswith("::{closure#0}")
                   and f.npath.count("{closure") == 1), key=lambda f: f.npath)


def renders(ctx):
    return {f.npath for f in ctx.prog(WEB).fns.values() if f.npath.endswith("::render_once")}


def rows_of(ctx, f):
    """the table of a handler, everything but the comparison itself and the templates inlined"""
    return ctx.outs(f, opaque=renders(ctx), effectful={CC}) or ()


def routes(ctx):
    """{route: (registering type, handler body, method guards)}"""
    out = {}
    prog = ctx.prog(WEB)
    for f in calls.project(prog):
        if not f.npath.endswith("HttpServiceFactory>::register"):
            continue
        ty = f.npath[1:].split(" as ")[0]
        for o in ctx.outs(f) or ():
            for t in _all(o):
                if t.op == "call" and str(t.a[0]).endswith("Resource::to") and t.a[2].op == "fn":
                    h = [g for g in handler_fns(ctx) if g.npath == norm(t.a[2].a[0]) + "::{closure#0}"]
                    rs, gs = [], []
                    for s in subterms(t.a[1]):
                        if s.op == "call" and str(s.a[0]).endswith("Resource::new") and s.a[1].op == "str":
                            rs.append(s.a[1].a[0])
                        if s.op == "call" and "::guard::" in str(s.a[0]):
                            gs.append(s.a[0].rsplit("::", 1)[-1])
                    for r in rs:
                        out[r] = (ty, h[0] if h else None, gs)
    return out


def norm(p):
    return engine.norm_path(p)


def _all(o):
    seen = set()
    for root in list(o.st.facts) + list(o.st.eff) + ([o.val] if o.val is not None else []) + [v for k, v in o.st.store.items() if isinstance(v, Term)]:
        for t in subterms(root):
            if t not in seen:
                seen.add(t)
                yield t


def at(ctx, route):
    """the handler of a route"""
    r = routes(ctx).get(route)
    if r is None or r[1] is None:
        ctx.lost("no handler found for %s" % route)
        return None
    return r[1]


# ---------------------------------------------------------------- walking the effects of a row

def root(t):
    """the effect (or other term) a place belongs to, through fields"""
    while t.op == "fld":
        t = t.a[0]
    return t


def is_lookup(e):
    return e.op == "eff" and e.a[0] in LOOKUP


def is_reg(e):
    return e.op == "eff" and isinstance(e.a[0], str) and e.a[0].startswith("dashmap_")


def is_lock(e):
    return e.op == "eff" and isinstance(e.a[0], str) and e.a[0].startswith("lock_")


def walk(o, visit, edge):
    """visit(effect, held) for every effect of a row; edge(held guard kind, acquired kind)"""
    def go(effs, held, facts):
        held = list(held)
        for e in effs:
            if e.op == "loopeff":
                inner = [T("elem", e.a[0], "x")] if is_reg(e.a[0]) else []
                for f, body in _loops(e):
                    go(body, held + [(g, "registry", e.a[0]) for g in inner], facts)
                continue
            if e.op != "eff":
                visit(e, held)
                continue
            if is_reg(e):
                for h in held:
                    edge(h, "registry", e)
                if is_lookup(e) and fact_test(facts, T("disc", e), I(1)) is not False:
                    held.append((T("fld", e, 1, 0), "registry", e))
                elif e.a[0] not in LOOKUP:
                    visit(e, held)
            elif is_lock(e):
                for h in held:
                    edge(h, "lock " + show(e.a[1])[:80], e)
                held.append((T("fld", e, 0, 0), "lock " + show(e.a[1])[:80], e))
            elif e.a[0] == "drop":
                held = [h for h in held if h[0] is not e.a[1]]
            else:
                visit(e, held)
    go(o.st.eff, [], o.st.facts)


def _loops(e):
    rows = e.a[1]
    for r in rows if isinstance(rows, (tuple, frozenset)) else ():
        if isinstance(r, tuple) and len(r) >= 2:
            yield r[0], [x for x in r[1] if isinstance(x, Term)]


def fact_test(f, k, v):
    return engine.fact_test(f, k, v)


def where(e):
    """the directory a command or comparison works in"""
    if e.a[0] == CC:
        return e.a[1]
    if e.a[0] == "spawn" and e.a[1].op == "cmd":
        d = e.a[1].a[2]
        return d.a[2] if d.op == "adt" and d.a[1] == 1 else None
    return None


def works(e):
    return e.op == "eff" and e.a[0] in (CC, "spawn", "glob", "open", "read_to_string", "std::fs::write")


@prop("C27", "lockset and lock-order analysis over the effect traces of every request handler", level="proof")
def c27(ctx):
    ex = "a comparison holds the exclusive permit of its repository"
    sh = "a command of a handler holds the permit of its repository"
    dl = "no handler waits for a permit or lock in an order that can deadlock"
    n = 0
    order = {}
    for f in handler_fns(ctx):
        for o in rows_of(ctx, f):
            def visit(e, held):
                nonlocal n
                if not works(e):
                    return
                p = where(e)
                keys = None
                if p is not None and is_lookup(root(p)):
                    keys = root(p).a[2]
                same = [h for h in held if h[1] == "registry" and (keys is None or len(h[2].a) > 2 and h[2].a[2] is keys)]
                if e.a[0] == CC:
                    n += 1
                    v = any(h[2].a[0] == "dashmap_get_mut" for h in same)
                    if not v and keys is None:
                        v = None
                    ctx.ob(ex, v, f, "" if v else "%s\n   held: %s" % (short(e, 300), ", ".join(short(h[2], 120) for h in held) or "nothing"))
                else:
                    v = bool(same) or (None if keys is None else False)
                    ctx.ob(sh, v, f, "" if v else "%s\n   held: %s" % (short(e, 300), ", ".join(short(h[2], 120) for h in held) or "nothing"))

            def edge(h, kind, e):
                order.setdefault((h[1], kind), (f, h[2], e))
            walk(o, visit, edge)
            ctx.ob(dl, True, f)
    # a cycle in the acquisition order; the registry is a striped lock that is not reentrant
    for (a, b), (f, h, e) in sorted(order.items(), key=lambda kv: kv[0]):
        cyc = a == b or reaches(order, b, a)
        ctx.ob(dl, not cyc, f, "" if not cyc else "waits for %s while it holds %s" % (short(e, 200), short(h, 200)))
    if not n:
        ctx.lost("no handler runs a comparison")


def reaches(order, a, b):
    seen, todo = set(), [a]
    while todo:
        x = todo.pop()
        if x == b:
            return True
        if x in seen:
            continue
        seen.add(x)
        todo += [d for (s, d) in order if s == x]
    return False


# ---------------------------------------------------------------- registered repositories

Q = "actix_web::web::Query::from_query"


def from_request(t):
    """does the term derive from the request?"""
    return any(s.op == "call" and s.a[0] == Q or s.op == "param" for s in subterms(t))


def request_field(k, name):
    """is k the field `name` of the parsed query?"""
    if k.op == "fld" and k.a[0].op == "fld" and k.a[0].a[0].op == "call" and k.a[0].a[0].a[0] == Q:
        for ty in ("CompareArgs", "BranchArgs"):
            names = ADTS[adt(ty)]["vs"][0][2]
            if name in names and k.a[2] == names.index(name):
                return True
    return False


def asked(facts, name):
    """does the request ask for `name`, as far as the row knows? "either" when the row is taken with and without"""
    d = b = None
    for t, v in facts.items():
        for s in subterms(t):
            if request_field(s, name):
                if t is T("disc", s):
                    d = fact_test(facts, t, I(1))
                elif t is T("fld", s, 1, 0):
                    b = fact_test(facts, t, TRUE)
                elif not (t.op == "fld" and t.a[0] is s or t.op == "disc" and t.a[0] is s):
                    return None
    if d is False or b is False:
        return False
    return True if d is True and b is True else "either"


def entry(t, field):
    """the key under which t is the field of a registered repository"""
    if t.op == "fld" and is_lookup(root(t)) and t.a[0].op == "fld" and t.a[0].a[0] is root(t):
        if t.a[2] == ADTS[adt("subweight_web::Repo")]["vs"][0][2].index(field):
            return root(t).a[2]
    return None


@prop("C28", "provenance of every directory a handler works in, and the table of the server start")
def c28(ctx):
    name = "a handler only works in the directory registered for the requested name"
    for f in handler_fns(ctx):
        for o in rows_of(ctx, f):
            for e in o.st.eff:
                if works(e):
                    p = where(e)
                    k = entry(p, "path") if p is not None else None
                    if k is not None:
                        v = request_field(k, "repo") or (False if k.op == "fld" and request_root(k) or changed_name(k) else None)
                    else:
                        v = None if p is not None and not from_request(p) else False
                    if v is not False and k is not None and fact_test(o.st.facts, T("disc", root(p)), I(1)) is not True:
                        v = None
                    ctx.ob(name, v, f, "" if v else short(e, 300))
                if is_reg(e) and e.a[0] not in LOOKUP and e.a[0] not in ("dashmap_iter", "dashmap_len", "dashmap_is_empty", "dashmap_contains_key"):
                    ctx.ob("handlers never register repositories", False, f, short(e, 300))
    start(ctx)


def respelled(k):
    """the text k is another spelling of"""
    ch = 0
    while k.op == "call" and len(k.a) >= 2 and hasattr(k.a[1], "op") and re.match(r"str_(to_\w+case|to_ascii_\w+case|trim\w*|replace|replacen|strip_\w+)$", k.a[0]):
        k, ch = k.a[1], ch + 1
    return k if ch else None


def changed_name(k):
    """whether the key is another spelling of the requested name"""
    k = respelled(k)
    return k is not None and bool(request_field(k, "repo"))


def request_root(k):
    while k.op == "fld":
        k = k.a[0]
    return k.op == "call" and k.a[0] == Q


def main_fn(ctx):
    prog = ctx.prog(WEB)
    fs = [f for f in calls.project(prog) if f.npath == W + "main::{closure#0}"]
    return fs[0] if fs else None


def start(ctx):
    f = main_fn(ctx)
    if f is None:
        return ctx.lost("the server's main function was not found")
    org = [g.npath for g in calls.project(ctx.prog(WEB)) if g.npath.endswith("get_origin_org")]
    outs = ctx.outs(f, opaque=org)
    if outs is None:
        return
    par = parse_term(outs)
    if par is None or not org:
        return ctx.lost("the options of the server were not found")
    opt = lambda n: get(par, "subweight_web::MainCmd", n)
    repos, sdir = opt("repos"), opt("static_path")

    def origin(x, e):
        k, v = x.res(call(org[0], call("path_join", opt("root_path"), e)))
        return k == "ok"

    def bad(x, e):
        if not origin(x, e):
            return True
        return not x.is_(T("eff", "path_exists", call("path_join", opt("root_path"), e)))

    def sp(x):
        if not x.is_(mkeq(T("discr", P("arg1"), ANY_D(outs)), I(0))):
            return SKIP
        if x.len0(repos):
            return T("fail")
        if x.is_(x.exists(repos, bad)):
            return T("fail")
        if not x.is_(T("eff", "path_is_dir", sdir)):
            return T("fail")
        return T("go")

    later = frozenset(s.a[0] for o in outs for t in _all(o) for s in [t] if s.op in ("call", "mutcall", "eff") and isinstance(s.a[0], str)
                      and s.a[0].startswith(("actix_web::", "actix_files::", "actix_server::", "openssl::", "std::future::", "std::default::", "env_var", "<")))

    def proj(v):
        # refused, or on the way to listening
        if v.op == "adt" and len(v.a) > 2 and v.a[2].op == "adt" and v.a[2].a[0].endswith("Result") and v.a[2].a[1] == 1 \
                and not any(s.op == "call" and "HttpServer::" in str(s.a[0]) for s in subterms(v)):
            return T("fail")
        return T("go")
    for o in outs:
        if o.kind == "panic":
            continue
        go = proj(o.val) if o.val is not None else None
        ctx.obs += check_table([o], f, "the server starts only with existing, known repositories and assets", sp, proj=lambda v, g=go: g,
                               extra=VOCAB | set(org) | later)
    # what is registered
    reg = "each name is registered with its own directory below the root"
    n = 0
    for o in outs:
        for e in flat_effects(o.st.eff):
            if not is_reg(e) or e.a[0] in LOOKUP or e.a[0] == "dashmap_iter":
                continue
            if e.a[0] != "dashmap_insert":
                ctx.ob(reg, False if e.a[0] == "dashmap_remove" and len(e.a) > 2 and e.a[2].op in ("elem", "found") and e.a[2].a[0] is repos else None, f, short(e, 300))
                continue
            n += 1
            k, r = e.a[2], e.a[3]
            if k.op in ("elem", "found") and k.a[0].op in PARTIAL and k.a[0].a[0] is repos:
                continue
            if k.op not in ("elem", "found") or k.a[0] is not repos or r.op != "adt":
                w = respelled(k)
                ctx.ob(reg, False if w is not None and w.op in ("elem", "found") and w.a[0] is repos else None, f, short(e, 300))
                continue
            exp = mk("subweight_web::Repo", name=k, path=call("path_join", opt("root_path"), k),
                     organization=T("fld", call(org[0], call("path_join", opt("root_path"), k)), 0, 0))
            v = Cmp(o.st.facts, VOCAB | set(org)).same(exp, r)
            ctx.ob(reg, v, f, "" if v else short(e, 400))
    every = "every given repository is registered before the server listens"
    m = 0
    for o in outs:
        if o.kind == "panic" or not any(s.op == "call" and "HttpServer::" in str(s.a[0]) and "bind" in str(s.a[0]) for s in _all(o)):
            continue
        m += 1
        v, why = (None, "") if any(is_reg(e) for e in flat_effects(o.st.eff)) else (False, "none is registered")
        for e in o.st.eff:
            if e.op != "loopeff":
                continue
            rows = list(_loops(e))
            ins = [any(x.op == "eff" and x.a[0] == "dashmap_insert" and x.a[2] is T("elem", e.a[0], "x") for x in body) for _, body in rows]
            if e.a[0] is repos and ins and all(ins):
                v = True
                break
            if e.a[0] is repos and any(ins):
                skip = [fs for (fs, body), i in zip(rows, ins) if not i and not any(is_reg(x) for x in body)]
                if skip:
                    v, why = False if all(spec.clean(t, frozenset(VOCAB | set(org))) for fs in skip for t, _ in fs) else None, "one is left out when %s" % ", ".join(short(t, 150) for t, _ in skip[0])
            if e.a[0].op in PARTIAL and e.a[0].a[0] is repos and all(ins):
                v, why = False, "only %s" % short(e.a[0], 200)
        ctx.ob(every, v, f, why)
    if not n or not m:
        ctx.lost("no repository is registered")


def flat_effects(effs):
    for e in effs:
        if e.op == "loopeff":
            for _, body in _loops(e):
                yield from flat_effects(body)
        elif e.op == "eff":
            yield e


def ANY_D(outs):
    for o in outs:
        for k in o.st.facts:
            if k.op == "discr" and k.a[0] is P("arg1"):
                return k.a[1]
    return ANY


def parse_term(outs):
    for o in outs:
        for t in _all(o):
            if t.op == "call" and str(t.a[0]).endswith("Parser::parse") and len(t.a) == 1:
                return t
    return None


# ---------------------------------------------------------------- the cache

def leaves(t):
    """maximal request terms: field chains on the parsed query"""
    out = set()

    def go(x):
        if isinstance(x, Term):
            if x.op == "fld" and request_root(x):
                out.add(x)
                return
            if x.op == "call" and x.a[0] == Q:
                out.add(x)
                return
            for y in x.a:
                go(y)
        elif isinstance(x, (tuple, frozenset)):
            for y in x:
                go(y)
    go(t)
    return out


def hide(t, parts):
    if not isinstance(t, Term):
        return tuple(hide(y, parts) for y in t) if isinstance(t, tuple) else frozenset(hide(y, parts) for y in t) if isinstance(t, frozenset) else t
    if t in parts:
        return T("key")
    return T(t.op, *[hide(y, parts) if isinstance(y, (Term, tuple, frozenset)) else y for y in t.a])


LOSSY = {"str_to_lowercase", "str_to_uppercase", "str_to_ascii_lowercase", "str_to_ascii_uppercase", "len", "str_len"}


def key_parts(key):
    """what can be told from a key: the values it is made of"""
    if key.op == "adt":
        return {key}.union(*[key_parts(x) if x.op in ("adt", "tup") else {x} for x in key.a[2:]])
    if key.op == "tup":
        return {key}.union(*[key_parts(x) if x.op in ("adt", "tup") else {x} for x in key.a])
    if key.op == "fmt":
        return {key}.union(*[key_parts(x.a[0]) | {x} for x in key.a if x.op in ("sv", "dbg", "disp")])
    return {key}


def run_together(key, repo):
    """texts of the request in a key that are not told apart: a separator between them may be part of either"""
    if key.op != "fmt":
        return []
    free = [x for x in key.a if x.op == "sv" and leaves(x) - {repo}]
    return free if len(free) > 1 else []


def kept(key):
    """the request's parts that a key tells without loss"""
    if key.op == "call" and key.a[0] in LOSSY or key.op == "len":
        return set()
    return leaves(key) if not any(x.op == "call" and x.a[0] in LOSSY for x in subterms(key)) else set().union(
        *[kept(y) for x in key.a for y in (x if isinstance(x, (tuple, frozenset)) else (x,)) if isinstance(y, Term)])


def determined(key, t, repo=None):
    """is t a function of the cache key?"""
    free = run_together(key, repo)
    if free and leaves(t) & leaves(T("k", *free)):
        return False, "%s run together" % ", ".join(show(x)[-60:] for x in free)
    rest = leaves(hide(t, key_parts(key)))
    if not rest:
        return True, ""
    inkey = leaves(key)
    gone = [r for r in rest if not any(r is k or k in set(subterms(r)) for k in inkey)]
    gone = gone or [r for r in rest if r in inkey and r not in kept(key)]
    return (False if gone else None), ", ".join(sorted(show(r)[-60:] for r in gone or rest))


def cache_rows(ctx, f):
    for o in rows_of(ctx, f):
        if any(e.op == "eff" and str(e.a[0]).startswith("cache_") for e in o.st.eff):
            yield o


@prop("C29", "value-flow of cache keys and cached results over the effect traces of the handlers, and the table of key equality")
def c29(ctx):
    n = 0
    for f in handler_fns(ctx):
        for o in cache_rows(ctx, f):
            gets = [e for e in o.st.eff if e.op == "eff" and e.a[0] == "cache_get"]
            sets = [e for e in o.st.eff if e.op == "eff" and e.a[0] == "cache_set"]
            runs = [e for e in o.st.eff if e.op == "eff" and e.a[0] == CC]
            oth = [e for e in o.st.eff if e.op == "eff" and str(e.a[0]).startswith("cache_") and e not in gets and e not in sets]
            n += 1
            for e in oth:
                ctx.ob("the cache is only read and filled", None, f, short(e, 300))
            for g in gets:
                hit = fact_test(o.st.facts, T("disc", g), I(1))
                if hit is True:
                    ctx.ob("a cached result is used without running anything", not runs and not sets, f, "" if not runs and not sets else short((runs + sets)[0], 300))
            for r in runs:
                for g in gets:
                    v, d = determined(g.a[2], T("k", *r.a[2:]), entry(r.a[1], "path"))
                    ctx.ob("the key covers everything the result depends on", v, f, "" if v else "not part of the key: %s\n   key: %s" % (d, short(g.a[2], 400)))
                    k = entry(r.a[1], "path")
                    v = None if k is None else determined(g.a[2], k)[0]
                    ctx.ob("the key covers the repository", v, f, "" if v else short(r.a[1], 200))
                    ctx.ob("a comparison is only run on a miss", fact_test(o.st.facts, T("disc", g), I(0)) is True, f)
                good = fact_test(o.st.facts, T("disc", r), I(0))
                if good is False:
                    ctx.ob("a failure is not cached", not sets, f, "" if not sets else short(sets[0], 300))
            for s in sets:
                ok_ = [g for g in gets if g.a[2] is s.a[2]]
                v = bool(ok_) or (False if gets else None)
                ctx.ob("a result is stored under the key it is looked up with", v, f, "" if v else short(s, 300))
                if s.a[3].op == "adt" and s.a[3].a[0].endswith("Return"):
                    exp = mk(s.a[3].a[0], was_cached=FALSE)
                    v = Cmp(o.st.facts, frozenset()).same(exp, s.a[3])
                    ctx.ob("a fresh result is not marked as cached", v, f, "" if v else short(s.a[3], 300))
                v, d = determined(s.a[2], s.a[3], entry(runs[0].a[1], "path") if runs else None)
                ctx.ob("the key covers everything the result depends on", v, f, "" if v else "not part of the key: %s" % d)
                v = any(T("fld", r, 0, 0) in set(subterms(s.a[3])) for r in runs)
                ctx.ob("the stored result is the one of the comparison", v or None, f, "" if v else short(s.a[3], 300))
            # what is shown
            for g in gets:
                if fact_test(o.st.facts, T("disc", g), I(1)) is True and o.kind == "ret":
                    for t in subterms(o.val):
                        if t.op == "adt" and t.a[0].endswith("templates::Compare"):
                            w = get(t, t.a[0], "was_cached")
                            d = get(t, t.a[0], "diff")
                            ctx.ob("a cached result is marked as cached", True if w is TRUE else (False if w is FALSE else None), f, show(w)[:100])
                            v = g in set(subterms(d))
                            ctx.ob("a cached result is the one that is shown", v or None, f, "" if v else short(d, 300))
    if not n:
        return ctx.lost("no cache is used")
    prog = ctx.prog(WEB)
    k = [f for f in prog.fns.values() if f.npath.endswith("CompareArgs as std::cmp::PartialEq>::eq")]
    if k:
        names = ADTS[adt("CompareArgs")]["vs"][0][2]

        def sp(x):
            a, b = P("self"), P("other")
            for n in names:
                p, q = get(a, "CompareArgs", n), get(b, "CompareArgs", n)
                if n in ("extrinsic", "pallet", "git_pull"):
                    p, q = x.opt(p), x.opt(q)
                    if (p is None) != (q is None):
                        return FALSE
                    if p is None:
                        continue
                if n in ("unit", "method"):
                    p, q = disc(p), disc(q)
                if not x.eq(p, q):
                    return FALSE
            return TRUE
        outs = ctx.outs(k[0])
        if outs is not None:
            ctx.obs += check_table(outs, k[0], "two requests share a result only if all their parameters are equal", sp)
    else:
        ctx.lost("no equality of requests")
    life = "a result is reused for ten minutes at most"
    m = 0
    for f in calls.project(prog):
        if not any("cached::" in (r.get("rpath") or r["path"]) and "::with_" in r["path"] for r in calls.refs(f.blocks)):
            continue
        for o in ctx.outs(f) or ():
            for t in subterms(o.val) if o.val is not None else ():
                if t.op == "call" and str(t.a[0]).startswith("cached::") and "::with_" in t.a[0]:
                    m += 1
                    nm = t.a[0].split("::")[1]
                    if nm != "TimedCache" and nm != "TimedSizedCache":
                        ctx.ob(life, False, f, show(t)[:200])
                        continue
                    i = 1 if nm == "TimedCache" else 2
                    v = t.a[i].op == "int" and t.a[i].a[0] <= 600 if len(t.a) > i else None
                    if v and any(x is TRUE for x in t.a[i + 1:]):
                        v = False
                    ctx.ob(life, v, f, "" if v else show(t)[:200])
    if not m:
        ctx.lost("the cache's lifespan was not found")


# ---------------------------------------------------------------- answers

def answer(v):
    """(status, body) of a handler's result, ('error', e) for an error answer"""
    if v.op == "adt" and v.a[0].endswith("Poll") and v.a[1] == 0:
        v = v.a[2]
    if v.op == "adt" and v.a[0].endswith("Result"):
        if v.a[1] == 1:
            return "error", v.a[2]
        v = v.a[2]
        if v.op == "adt":
            return "Ok", v
    b = None
    while v.op in ("call", "after"):
        if v.op == "after":
            v = v.a[0]
            continue
        n = str(v.a[0])
        if n.endswith("HttpResponseBuilder::body") or n.endswith("HttpResponseBuilder::json"):
            b = v.a[2]
        if "HttpResponseBuilder::" in n or n.endswith("::finish"):
            v = v.a[1]
            continue
        if "HttpResponse::" in n:
            return n.rsplit("::", 1)[-1], b
        break
    return None, b


def page(b):
    """the template value behind a body"""
    if b is not None and b.op == "fld" and b.a[0].op == "call" and str(b.a[0].a[0]).endswith("::render_once"):
        return b.a[0].a[1]
    return None


def failures(o):
    """the failed steps of a row: (what, error term or None)"""
    for k, w in o.st.facts.items():
        if k.op != "disc" or w[0] != "=":
            continue
        t, d = k.a[0], w[1]
        if t.op == "call" and t.a[0] == Q and d is I(1):
            yield "the query", T("fld", t, 1, 0)
        if t.op == "eff" and t.a[0] == CC and d is I(1):
            yield "the comparison", T("fld", t, 1, 0)
        if t.op == "eff" and t.a[0] == "spawn" and d is I(1):
            yield "the command", T("fld", t, 1, 0)
        if is_lookup(t) and d is I(0):
            yield "the lookup", None
    for k, w in o.st.facts.items():
        if k.op == "call" and k.a[0] == "exit_success" and w[0] == "=" and w[1] is FALSE:
            yield "the command", None


def template(ctx, f, clause, o, b, name):
    p = page(b)
    if p is None or p.op != "adt":
        ctx.ob(clause, None, f, short(b, 200) if b is not None else "no body")
        return None
    v = p.a[0].endswith("templates::" + name)
    ctx.ob(clause, v, f, "" if v else "shows %s when %s" % (short(p, 300), showfacts(o.st.facts)))
    return p if v else None


@prop("C31", "value-flow tables of the request handlers: status and body per failing or successful step")
def c31(ctx):
    rt = routes(ctx)
    st = "a failed request answers 500 and an answered one 200"
    ms = "the answer to a failed request shows its error"
    pg = "a successful request answers with its own result"
    for r, (ty, f, gs) in sorted(rt.items()):
        if f is None:
            ctx.lost("handler of %s not found" % r)
            continue
        for o in rows_of(ctx, f):
            if o.kind != "ret":
                continue
            fs = list(failures(o))
            s, b = answer(o.val)
            if r in ("/compare", "/branches"):
                want = ("InternalServerError", "error") if fs else ("Ok",)
            elif r in ("/version",):
                continue
            else:
                want = ("Ok",)
            v = None if s is None else s in want
            ctx.ob(st, v, f, "" if v else "answers %s although %s\n   when %s" % (s, fs[0][0] + " failed" if fs else "nothing failed", showfacts(o.st.facts)))
            if not v:
                continue
            if r == "/compare" and fs:
                p = template(ctx, f, ms, o, b, "Error")
                if p is not None and fs[-1][1] is not None:
                    m = get(p, p.a[0], "msg")
                    v = any(x in set(subterms(m)) for _, x in fs if x is not None)
                    ctx.ob(ms, v, f, "" if v else short(m, 300))
            elif r == "/compare":
                p = template(ctx, f, pg, o, b, "Compare")
                if p is not None:
                    shown(ctx, f, pg, o, p)
            elif r == "/branches" and fs:
                if fs[-1][1] is not None:
                    v = any(x in set(subterms(b)) for _, x in fs if x is not None)
                    ctx.ob(ms, v, f, "" if v else short(b, 300))
            elif r in ("/", "/compare-commit"):
                p = template(ctx, f, pg, o, b, "Root")
                if p is not None:
                    ctx.ob(pg, keys(get(p, p.a[0], "repos"), "key"), f, short(p, 300))
            elif r == "/compare-mr":
                p = template(ctx, f, pg, o, b, "MRs")
                if p is not None:
                    ctx.ob(pg, keys(get(p, p.a[0], "repos"), "value"), f, short(p, 300))
    for r in ("/compare", "/branches", "/version"):
        if r not in rt:
            ctx.lost("no handler found for %s" % r)
    version(ctx, rt)
    branches(ctx, rt)


def keys(t, what):
    """is t the list of all registered names / repositories?"""
    if t.op == "collect" and t.a[1].op == "eff" and t.a[1].a[0] == "dashmap_iter":
        rows = t.a[2]
        if isinstance(rows, frozenset) and len(rows) == 1:
            (c, v), = rows
            if not c and v.op == "call" and v.a[0].endswith("RefMulti::" + what):
                return True
            if not c and what == "value" and v.op == "elem":
                return True
            return False if c else None
        return False if isinstance(rows, frozenset) and all(c for c, _ in rows) else None
    if t.op == "collect" and t.a[1].op in PARTIAL and any(x.op == "eff" and x.a[0] == "dashmap_iter" for x in subterms(t.a[1])):
        return False
    return False if t.op in ("arr",) else None


def shown(ctx, f, clause, o, p):
    """the page of a successful comparison"""
    a = get(p, p.a[0], "organization")
    k = entry(a, "organization")
    v = None if k is None else request_field(k, "repo")
    ctx.ob(clause, v, f, "" if v else "organization: %s" % short(a, 200))
    v = keys(get(p, p.a[0], "repos"), "key")
    ctx.ob(clause, v, f, "" if v else short(get(p, p.a[0], "repos"), 200))
    args = get(p, p.a[0], "args")
    if args.op == "adt":
        for n in ADTS[adt("CompareArgs")]["vs"][0][2]:
            x = get(args, "CompareArgs", n)
            ls = leaves(x)
            v = len(ls) == 1 and request_field(next(iter(ls)), n) if ls else None
            ctx.ob(clause, v, f, "" if v else "%s: %s" % (n, short(x, 200)))
    elif request_root(args):
        ctx.ob(clause, True, f)
    runs = [e for e in o.st.eff if e.op == "eff" and e.a[0] in (CC, "cache_get")]
    d = get(p, p.a[0], "diff")
    v = any(T("fld", e, 0 if e.a[0] == CC else 1, 0) in set(subterms(d)) for e in runs)
    ctx.ob(clause, v or None, f, "" if v else short(d, 300))


def version(ctx, rt):
    if "/version" not in rt or rt["/version"][1] is None:
        return
    f = rt["/version"][1]
    cl = "the version check passes exactly for the version of the running program"
    outs = rows_of(ctx, f)
    cur = None
    for o in outs:
        if o.kind == "ret" and not any(k.op == "disc" and w[1] is I(1) for k, w in o.st.facts.items()):
            s, b = answer(o.val)
            ctx.ob(cl, (s == "Ok") if s else None, f, str(s))
            cur = b
    g = [x for x in ctx.prog(WEB).fns.values() if x.npath.endswith("VERSION as std::ops::Deref>::deref")]
    if cur is None or cur.op != "str":
        return ctx.lost("the version shown is not known: %s" % (short(cur, 200) if cur is not None else "no row"))
    arg = None
    for o in outs:
        for k in o.st.facts:
            if k.op == "disc":
                arg = T("fld", k.a[0], 1, 0)
    if arg is None:
        return ctx.lost("the version asked for is not known")
    # the answers for texts that are, or only resemble, the version
    v = cur.a[0]
    good = {v, v.replace("+", " ")}
    near = {"", " "}
    for v in sorted(good):
        near |= {"v" + v, v + ".0", v[:-1], v[1:], v.split("+")[0], v.split(" ")[0], v.split(".")[0], v + " ", " " + v, v + "\n", "\t" + v, v + "+", v + " dirty", v.replace("+", "-"),
                 v.replace("+", ""), v.replace(" ", ""), v.upper(), v.title(), v.replace(".", ","), v + v, v.replace("+", "  "), v.replace(" ", "  "), '"%s"' % v, v + "/", v[::-1]}
    for text in sorted(good) + sorted(near - good):
        hit, unk = set(), False
        for o in outs:
            if o.kind != "ret" or fact_test(o.st.facts, T("disc", arg.a[0]), I(1)) is False:
                continue
            ev = shape.Eval(arg, shape.norm((text,)))
            r = at_shape([(k, w) for k, w in o.st.facts.items() if arg in set(subterms(k))], ev)
            if r is True:
                hit.add(answer(o.val)[0])
            elif r is not False:
                unk = True
        want = "Ok" if text in good else "InternalServerError"
        r = None if unk or len(hit) != 1 or None in hit else hit == {want}
        ctx.ob(cl, r, f, "" if r else "asked for %r, the answer is %s" % (text, sorted(map(str, hit)) or "not known"))


def branches(ctx, rt):
    if "/branches" not in rt or rt["/branches"][1] is None:
        return
    f = rt["/branches"][1]
    cl = "branches are fetched exactly when asked for and come from the remote"
    for o in rows_of(ctx, f):
        sp_ = [e for e in o.st.eff if e.op == "eff" and e.a[0] == "spawn" and e.a[1].op == "cmd"]
        cmds = [[x.a[0] if x.op == "str" else "?" for x in e.a[1].a[1].a] if e.a[1].a[1].op == "arr" else ["?"] for e in sp_]
        fetch = [e for e, c in zip(sp_, cmds) if c and c[0] in ("fetch", "pull", "remote")]
        looked = [k for k in o.st.facts if k.op == "disc" and is_lookup(k.a[0]) and o.st.facts[k] == ("=", I(1))]
        if not looked:
            ctx.ob(cl, not sp_, f, "" if not sp_ else short(sp_[0], 300))
            continue
        want = None
        for k, w in o.st.facts.items():
            if k.op == "fld" and request_root(k) and k.op == "fld" and w[0] == "=" and w[1] in (TRUE, FALSE):
                want = w[1] is TRUE
        for k, w in o.st.facts.items():
            if k.op == "disc" and request_field(k.a[0], "fetch") and w == ("=", I(0)):
                want = False
        v = None
        if want is True:
            v = bool(fetch)
        elif want is False:
            v = not fetch
        else:
            v = None if fetch else True
        ctx.ob(cl, v, f, "" if v else "%s when %s" % (cmds, showfacts(o.st.facts)))


# ---------------------------------------------------------------- the revisions to choose from

# what the listing of a remote consists of: <40 hex digits> TAB <full name>; a peeled tag ends in ^{}
HASH = shape.Part("commit", lambda c: c in "0123456789abcdef", 40)
NAME = shape.Part("name", lambda c: c > " " and c not in "^{}~:?*[\\\x7f", least=1, without=("..", "//", "@{", "/.", "./", ".lock/"), nohead=("/", "."),
                  notail=("/", ".", ".lock"))
LINES = (("branch", (HASH, "\trefs/heads/", NAME), True), ("tag", (HASH, "\trefs/tags/", NAME), True),
         ("peeled tag", (HASH, "\trefs/tags/", NAME, "^{}"), False))


def at_shape(facts, ev):
    """(verdict, open facts): can the facts hold for a line of this shape"""
    dep, unk = 0, False
    for k, w in facts:
        v = ev(k)
        if v is None:
            unk = True
            continue
        if v is shape.DEP:
            dep += 1
            continue
        c = {TRUE: True, FALSE: False}.get(w[1]) if w[0] == "=" and w[1] in (TRUE, FALSE) else None
        if c is None:
            cs = [w[1]] if w[0] == "=" else list(w[1])
            if isinstance(v, tuple) and v[:1] != ("?",) and all(c.op == "str" for c in cs) and any(not isinstance(p, str) for p in v):
                lo = sum(len(p) if isinstance(p, str) else p.least for p in v)
                if all(lo > len(c.a[0]) for c in cs):
                    if w[0] == "=":
                        return False
                    continue
                dep += 1
                continue
            if isinstance(v, tuple) and v[:1] != ("?",) and all(isinstance(p, str) for p in v) and all(c.op == "str" for c in cs):
                if any(c.a[0] == "".join(v) for c in cs) != (w[0] == "="):
                    return False
                continue
            if isinstance(v, bool) or not all(c.op == "int" for c in cs):
                unk = True
                continue
            if isinstance(v, shape.AtLeast) and any(c.a[0] >= v for c in cs):
                dep += 1
                continue
            hit = v in [c.a[0] for c in cs]
            if hit != (w[0] == "="):
                return False
        elif v is not c:
            return False
    if unk:
        return None
    return shape.DEP if dep else True


def uncovered(alts, ev):
    """is there a condition on the unknown parts that every alternative demands"""
    open_ = [{(k, w) for k, w in fs if ev(k) is shape.DEP and w[0] == "=" and w[1] in (TRUE, FALSE)} for fs in alts]
    return bool(open_ and set.intersection(*open_))


def source_of(a):
    """the declaration of a type, attributes included"""
    ls = open(os.path.join(extract.REPO, a["file"])).read().splitlines()
    i = a["line"] - 1
    while i > 0 and ls[i - 1].strip().startswith("#["):
        i -= 1
    j = a["line"] - 1
    while j < len(ls) and "}" not in ls[j]:
        j += 1
    return "\n".join(ls[i:j + 1])


FETCH = ["--" + x for x in (
    "all append atomic depth deepen shallow-since shallow-exclude unshallow update-shallow negotiation-tip negotiate-only dry-run porcelain "
    "write-fetch-head no-write-fetch-head force keep multiple auto-maintenance no-auto-maintenance auto-gc no-auto-gc write-commit-graph "
    "no-write-commit-graph prefetch prune prune-tags no-tags refetch refmap tags recurse-submodules jobs no-recurse-submodules set-upstream "
    "submodule-prefix update-head-ok upload-pack quiet verbose progress server-option show-forced-updates no-show-forced-updates ipv4 ipv6 "
    "stdin filter no-filter no-all").split()]


@prop("C40", "value-flow table of the listing, evaluated over string shapes of everything the remote can list")
def c40(ctx):
    f = at(ctx, "/branches")
    if f is None:
        return
    n = 0
    for o in rows_of(ctx, f):
        cmds = [[x.a[0] if x.op == "str" else "?" for x in e.a[1].a[1].a] for e in o.st.eff
                if e.op == "eff" and e.a[0] == "spawn" and e.a[1].op == "cmd" and e.a[1].a[1].op == "arr"]
        for t in _all(o):
            if t.op == "any":
                for alt in t.a[1]:
                    if o.kind == "panic" and o.st.facts.get(t) == ("=", TRUE):
                        ln = T("elem", t.a[0], "x")
                        for nm, sh, _ in LINES:
                            r = at_shape(alt, shape.Eval(ln, sh))
                            ctx.ob("no line of the listing is refused", False if r is True else True, f, "" if r is not True else "a %s" % nm)
        if o.kind != "ret":
            continue
        v = o.val
        while v.op == "adt" and v.a[0].endswith(("Ready", "Poll")) and len(v.a) > 2:
            v = v.a[2]
        if v.op == "call" and len(v.a) == 2:
            v = v.a[1]
        if v.op != "adt" or v.a[0] != RES or v.a[1] != 0:
            continue
        n += 1
        ls = [c for c in cmds if c and c[0] == "ls-remote"]
        cl = "the remote is asked for its branches and tags"
        if len(ls) != 1:
            ctx.ob(cl, False if cmds and all("?" not in c for c in cmds) else None, f, "%s" % cmds)
        else:
            flags = {{"-h": "--heads", "--branches": "--heads", "-b": "--heads", "-t": "--tags"}.get(x, x) for x in ls[0][1:]} - {"-q", "--quiet", "origin", "--"}
            ctx.ob(cl, flags == {"--tags", "--heads"} if "?" not in ls[0] else None, f, "%s" % ls[0])
        ft = [c for c in cmds if c and c[0] in ("fetch", "remote", "pull")]
        cl = "the remote is asked anew when that is requested"
        for c in ft:
            if c[0] == "fetch" and "?" not in c:
                bad = [x for x in c[1:] if x.startswith("--") and not any(k.startswith(x.split("=")[0]) for k in FETCH)]
                ctx.ob(cl, not bad, f, "" if not bad else "git fetch has no option %s" % bad[0])
        v_ = asked(o.st.facts, "fetch")
        ctx.ob(cl, None if v_ is None or any("?" in c for c in cmds) and not ft else v_ == bool(ft), f,
               "" if v_ == bool(ft) else "the remote is%s asked anew; requested: %s" % ("" if ft else " not", {True: "yes", False: "no"}.get(v_, v_)))
        cols = [t for t in subterms(v) if t.op == "collect" and t.a[1].op == "call" and t.a[1].a[0] == "str_lines"]
        for t in subterms(v):
            if t.op in PARTIAL and t.a[0].op == "call" and t.a[0].a[0] == "str_lines":
                ctx.ob("the whole listing is offered", False, f, short(t, 300))
        cl = "every branch and tag is offered under its name with the start of its commit"
        st = [t for t in subterms(v) if t.op == "adt" and len(t.a) == 3 and ADTS.get(t.a[0], {}).get("crate") == "subweight_web"]
        if len(st) == 1:
            names, src = ADTS[st[0].a[0]]["vs"][0][2], source_of(ADTS[st[0].a[0]])
            m = re.findall(r'\brename\s*=\s*"([^"]*)"', src)
            names = m if len(m) == 1 else names
            ctx.ob("the list has the name the page reads", None if "serde(" in src and not m else names == ["branch"], f, "%s" % names)
        if len(cols) != 1 or len(st) != 1:
            ctx.ob(cl, None, f, "the listing is built differently: %s" % short(v, 300))
            continue
        col = cols[0]
        if col.a[0] != "Vec":
            ctx.ob("each is offered once per line of the listing", False if col.a[0] in ("Map", "Set") else None, f,
                   "a %s of the lines loses one of two with the same name" % col.a[0])
        if st[0].a[2] is not col:
            outer = st[0].a[2]
            bad = outer.op in PARTIAL | {"rev"} or outer.op in ("sorted", "dedup")
            ctx.ob(cl, False if outer.op in PARTIAL and outer.a[0] is col else None, f, "listed %s" % short(outer, 300))
            continue
        ln = T("elem", col.a[1], "x")
        for nm, sh, listed in LINES:
            ev = shape.Eval(ln, sh)
            hits = []
            unk = False
            for fs, val in col.a[2]:
                r = at_shape(fs, ev)
                if r is None:
                    unk = True
                elif r is not False:
                    hits.append((r, val))
            if not listed:
                ctx.ob("what is no revision of its own is not offered", None if unk else not hits, f, "" if not hits else "a %s is listed" % nm)
                continue
            if unk:
                ctx.ob(cl, None, f, "not known which lines are listed")
                continue
            if len(hits) > 1 and all(r is shape.DEP for r, _ in hits) and uncovered([fs for fs, val in col.a[2] if at_shape(fs, ev) is shape.DEP], ev):
                ctx.ob(cl, False, f, "some %s is not listed" % nm)
                continue
            if not hits or all(r is shape.DEP for r, _ in hits) and len(hits) == 1:
                ctx.ob(cl, False, f, "%s %s is not listed" % ("a" if not hits else "some", nm))
                continue
            for r, val in hits:
                if val.op != "tup" or len(val.a) != 2:
                    ctx.ob(cl, None, f, "listed as %s" % short(val, 300))
                    continue
                a, b = ev(val.a[0]), ev(val.a[1])
                ok = a == (NAME,) and b == (shape.prefix(HASH, 12),)
                sure = isinstance(a, tuple) and isinstance(b, tuple) and a[:1] != ("?",) and b[:1] != ("?",)
                longer = a == (NAME,) and sure and len(b) == 1 and (b[0] is HASH or getattr(b[0], "of", None) is HASH and b[0].length >= 7)
                ctx.ob(cl, True if ok or longer else False if sure else None, f, "" if ok or longer else "a %s is listed as %s" % (nm, (a, b)))
    if not n:
        ctx.lost("the listing was not found")


# ---------------------------------------------------------------- what is compared

@prop("C32", "effect trace of the comparison handler: every argument as a function of the request")
def c32(ctx):
    f = at(ctx, "/compare")
    if f is None:
        return
    outs = rows_of(ctx, f)
    q = None
    for o in outs:
        for t in _all(o):
            if t.op == "call" and t.a[0] == Q:
                q = t
    if q is None:
        return ctx.lost("the query was not found")
    a = T("fld", T("fld", q, 0, 0), 0, 0)
    F = lambda n: get(a, "CompareArgs", n)
    if not any(request_field(x, "repo") and x.a[0].a[0] is q for o in outs for x in _all(o) if x.op == "fld"):
        return ctx.lost("the parameters of the request were not found")
    a = [x.a[0] for o in outs for x in _all(o) if x.op == "fld" and request_field(x, "repo")][0]
    dec = lambda n: call("str_trim", call("decode_html_entities", F(n)))
    extra = VOCAB

    def sp(x, t):
        if not t.more():
            return SKIP
        p = x.opt(F("git_pull"))
        params = mk("CompareParams", method=F("method"), unit=F("unit"), ignore_errors=F("ignore_errors"),
                    git_pull=TRUE if p is None else p, git_force=TRUE, offline=FALSE)
        filt = mk("FilterParams", threshold=T("cast", "f64", F("threshold")), change=NONE, extrinsic=F("extrinsic"), pallet=F("pallet"))
        r = t.do(CC, ANY, dec("old"), dec("new"), params, filt, dec("path_pattern"), I(6000))
        k, v = x.res(r)
        return T("failed") if k == "err" else T("after", call(SORT, call(FILT, v, filt)), 0)

    def result(o):
        if o.kind != "ret":
            return T("failed")
        for t in subterms(o.val):
            if t.op == "adt" and t.a[0].endswith("templates::Compare"):
                return get(t, t.a[0], "diff")
        return T("failed")
    import copy
    sel = []
    for o in outs:
        if o.kind != "ret":
            continue
        c = copy.copy(settled(o))
        c.val = result(c)
        sel.append(c)
    ctx.obs += trace_table(sel, f, "the comparison is run on the parameters of the request, then filtered and sorted", sp, {CC}, extra | renders(ctx))
    for o in outs:
        n = len([e for e in o.st.eff if e.op == "eff" and e.a[0] == CC])
        ctx.ob("one comparison per request", n <= 1, f, "%d" % n)


    # what the revisions and the pattern become, for texts that tell the ways to change them apart
    for n, i in (("old", 2), ("new", 3), ("path_pattern", 6)):
        cl = "the %s of a request is compared as given" % n.replace("_", " ")
        for text in TEXTS:
            ev = shape.Eval(F(n), shape.norm((text,)))
            want = unescape(text).strip()
            for o in outs:
                es = [e for e in o.st.eff if e.op == "eff" and e.a[0] == CC]
                if len(es) != 1 or at_shape([(k, w) for k, w in o.st.facts.items() if F(n) in set(subterms(k)) and not any(q.op == "eff" and F(n) in set(subterms(q)) for q in subterms(k))], ev) not in (True, shape.DEP):
                    continue
                v = ev(es[0].a[i])
                if isinstance(v, tuple) and v[:1] != ("?",) and all(isinstance(p, str) for p in v):
                    ctx.ob(cl, "".join(v) == want, f, "" if "".join(v) == want else "%r is compared as %r" % (text, "".join(v)))


TEXTS = ("main", " main\n", "v1.2..v3", "Feature/Some-Name_1.0", "a/b/c", "refs/heads/x", "origin/x", "x#1", "a&amp;b", "a&lt;b", "x.lock.rs", "**/weights/*.rs,-x,y z", "./a//b/", "a+b",
         "%41", "'q'", "HEAD~1", "HEAD^", "@", "", "12", "\u00e4\u00df", "0123456789abcdef0123456789abcdef01234567")


# ---------------------------------------------------------------- what is served, and how

SERVED = ("/", "/compare", "/compare-commit", "/branches", "/compare-mr", "/version", "/version/badge")


@prop("C36", "value-flow table of the server start: the services of the application and the way the endpoint is bound")
def c36(ctx):
    f = main_fn(ctx)
    if f is None:
        return ctx.lost("the server's main function was not found")
    outs = ctx.outs(f, opaque=[g.npath for g in calls.project(ctx.prog(WEB)) if g.npath.endswith("get_origin_org")])
    if outs is None:
        return
    par = parse_term(outs)
    rt = routes(ctx)
    if par is None:
        return ctx.lost("the options of the server were not found")
    opt = lambda n: get(par, "subweight_web::MainCmd", n)
    cl = "the documented endpoints are served"
    apps = set()
    for o in outs:
        for t in _all(o):
            if t.op == "call" and str(t.a[0]).endswith("HttpServer::new"):
                apps.add(t)
    if not apps:
        return ctx.lost("no application is served")
    for app in apps:
        types, files = set(), []
        for t in subterms(app):
            if t.op == "call" and str(t.a[0]).endswith("App::service"):
                if t.a[2].op == "adt":
                    types.add(t.a[2].a[0])
                files += [s for s in subterms(t.a[2]) if s.op == "call" and str(s.a[0]).endswith("Files::new")]
        unknown = not types
        for r in SERVED:
            ty = rt.get(r, (None, None, []))[0]
            v = ty in types if ty else False
            ctx.ob(cl, None if unknown else v, f, "" if v else "%s: %s" % (r, ty or "no handler"))
            if v:
                gs = rt[r][2]
                ctx.ob(cl, gs == ["Get"] or None, rt[r][1] or f, str(gs))
        v = any(x.a[1].op == "str" and x.a[1].a[0] == "/static" and x.a[2] is opt("static_path") for x in files)
        w = [x for x in files if x.a[1].op == "str" and not (x.a[1].a[0] == "/static" and x.a[2] is opt("static_path"))]
        ctx.ob("only the assets are served as files", v and not w or (False if w and w[0].a[2] is not opt("static_path") else None), f,
               "" if v and not w else "; ".join(show(x)[:150] for x in files))
    tls = "with a certificate only the encrypted endpoint is bound, with the given key and certificate"
    addr = "the configured endpoint is bound"
    for o in outs:
        binds = [t for t in _all(o) if t.op == "call" and "HttpServer::" in str(t.a[0]) and t.a[0].rsplit("::", 1)[-1].split("<")[0].startswith(("bind", "listen"))]
        if not binds:
            continue
        cert = fact_test(o.st.facts, T("disc", opt("cert")), I(1))
        for b in binds:
            how = b.a[0].rsplit("::", 1)[-1].split("<")[0]
            enc = how.startswith(("bind_openssl", "bind_rustls", "listen_openssl", "listen_rustls"))
            v = None if cert is None and not enc else (enc if cert is True else not enc)
            if cert is None and not enc:
                v = False
            ctx.ob(tls, v, f, "" if v else "%s when %s" % (how, "a certificate is given" if cert else "it is not looked at" if cert is None else "no certificate is given"))
            if enc:
                st = set(subterms(b))
                names = {t.a[0].rsplit("::", 1)[-1]: t for t in st if t.op == "call" and "SslContextBuilder::" in str(t.a[0])}
                for n, field in (("set_private_key_file", "key"), ("set_certificate_chain_file", "cert")):
                    t = names.get(n)
                    want = T("fld", opt(field), 1, 0)
                    other = T("fld", opt("cert" if field == "key" else "key"), 1, 0)
                    kind = n.rsplit("_", 1)[0].replace("_chain", "")
                    alone = names and not any(x.startswith(kind) or x in ("set_options_from", "build_from") for x in names)
                    v = (False if alone else None) if t is None else want is t.a[2] or (False if t.a[2] is other else None)
                    ctx.ob(tls, v, f, "" if v else "%s: %s" % (n, show(t)[-150:] if t is not None else "not set"))
            a = b.a[2] if len(b.a) > 2 else None
            e = T("fmt", T("sv", opt("endpoint")), S(":"), T("disp", opt("port")))
            v = None if a is None else Cmp(o.st.facts, VOCAB).same(e, a)
            ctx.ob(addr, v, f, "" if v else show(a)[:200])


# ---------------------------------------------------------------- whose repository it is
ORIGIN = r"^https://github\.com/(?P<g>[^/]+)/"


def named_group(p, k):
    """the pattern with its k-th group named g and all others plain"""
    out, n, i, incls = "", 0, 0, False
    while i < len(p):
        c = p[i]
        if c == "\\":
            out += p[i:i + 2]
            i += 2
            continue
        if c == "[":
            incls = True
        elif c == "]":
            incls = False
        if c == "(" and not incls:
            m = re.match(r"\(\?P?<\w+>", p[i:])
            if m or p[i + 1:i + 2] != "?":
                n += 1
                out += "(?P<g>" if n == k else "(?:"
                i += len(m.group(0)) if m else 1
                continue
        out += c
        i += 1
    return out if n >= k else None


@prop("C42", "value-flow table of the origin's reader, its pattern compared with the specified one by automata")
def c42(ctx):
    import rx
    ctx.prog(WEB)
    fs = ctx.fns(WEB, "git::get_origin_org")
    if not fs:
        return ctx.lost("the reader of the origin was not found")
    f = fs[0]
    me = P(engine.Eng(ctx.prog(WEB)).argname(f, 1))
    name = "the organisation is the first path segment of an origin at GitHub"
    for o in ctx.outs(f) or ():
        if o.kind == "panic" and any(k.op == "disc" and k.a[0].op in ("cap_name", "call") and "cap" in str(k.a[0])[:12] for k in o.st.facts):
            continue    # (a mandatory group: decided with C39)
        if o.kind == "panic" and any(t.op == "disc" and t.a[0].op == "call" and t.a[0].a[0].endswith("from_utf8") and w == ("=", I(1)) for t, w in o.st.facts.items()):
            ctx.ob("an origin that cannot be read is an error", False, f, "bytes that are not text: %s" % short(o.val, 100))
            continue
        sps = [e for e in o.st.eff if e.op == "eff" and e.a[0] == "spawn"]
        c = sps[0].a[1] if len(sps) == 1 else None
        args = [x.a[0] if x.op == "str" else "?" for x in c.a[1].a] if c is not None and c.op == "cmd" and c.a[1].op == "arr" else None
        okc = args in (["remote", "get-url", "origin"], ["config", "--get", "remote.origin.url"], ["config", "remote.origin.url"], ["ls-remote", "--get-url", "origin"])
        dirs = c is not None and any(t is me for t in subterms(c.a[2]))
        cl = "the origin is asked of the repository itself"
        ctx.ob(cl, True if okc and dirs else False if args is not None and "?" not in args and (args[0] in ("remote", "config", "ls-remote", "branch", "rev-parse") or not dirs) else None, f,
               "" if okc and dirs else short(c, 200) if c is not None else "%d commands" % len(sps))
        if not (okc and dirs):
            continue
        sp = sps[0]
        ran = fact_test(o.st.facts, T("disc", sp), I(0))
        suc = [w for k, w in o.st.facts.items() if sp in set(subterms(k)) and str(k).startswith(("exit_success(", "exit_code("))]
        failed = ran is False or any(w == ("=", FALSE) for w in suc)
        okv = o.kind == "ret" and o.val.op == "adt" and o.val.a[0] == RES and o.val.a[1] == 0
        if failed:
            ctx.ob("an origin that cannot be read is an error", not okv if o.kind == "ret" else False, f, "" if not okv else short(o.val, 200))
            continue
        if ran is True and not suc and okv:
            ctx.ob("an origin that cannot be read is an error", False, f, "the exit status is not looked at")
            continue
        caps = {t for k in o.st.facts for t in subterms(k) if t.op == "rx_captures"} | {t for t in subterms(o.val) if t.op == "rx_captures"}
        if len(caps) != 1:
            caps = {t for k in o.st.facts for t in subterms(k) if t.op == "call" and t.a[0] == "rx_captures"} | {t for t in subterms(o.val) if t.op == "call" and t.a[0] == "rx_captures"}
        if len(caps) != 1:
            ctx.ob(name, None, f, "read in an unknown way: %s" % short(o.val, 200))
            continue
        cap, = caps
        ca = cap.a[1:] if cap.op == "call" else cap.a
        pats = [t.a[0] for t in subterms(ca[0]) if t.op == "str"]
        text = any(t is sp for t in subterms(ca[1]))
        if len(pats) != 1 or not text:
            ctx.ob(name, None, f, "read in an unknown way: %s" % short(cap, 200))
            continue
        if not okv:
            continue
        ms = [t for t in subterms(o.val) if t.op == "call" and t.a[0] == "cap_name" or t.op == "cap_name"]
        whole = o.val.a[2]
        while whole.op == "fmt" and len(whole.a) == 1 and whole.a[0].op == "sv":
            whole = whole.a[0].a[0]
        if not any(t is sp for t in subterms(o.val)) and whole.op == "str":
            ctx.ob(name, False, f, "the organisation is always %s" % short(whole, 60))
            continue
        if len(ms) != 1 or whole.op not in ("match_str", "call") or whole.op == "call" and whole.a[0] != "match_str" or cap not in set(subterms(ms[0])):
            ctx.ob(name, None, f, "the organisation is %s" % short(whole, 200))
            continue
        k = ms[0].a[-1]
        k = k.a[0] if k.op in ("int", "str") else None
        if isinstance(k, int):
            q = named_group(pats[0], k) if k else "(?P<g>%s)" % pats[0]
        else:
            q = pats[0].replace("(?P<%s>" % k, "(?P<g>").replace("(?<%s>" % k, "(?P<g>") if k else None
        r = "differ" if k == 0 and rx.easy(pats[0]) else rx.relation(q, ORIGIN) if q else None
        ctx.ob(name, True if r == "same" else False if r == "differ" else None, f, "" if r == "same" else "pattern %s, group %s" % (pats[0], k))
