"""Comparing, reporting and answering requests never crashes."""
from check import *
from spec import *
import calls
import engine

C = "subweight_core::"
T_ = C + "term::Term::"
EXT, CT, CE = C + "extend_scoped_components", C + "compare_terms", C + "compare_extrinsics"
LOW, HIGH = I(-2**127), I(2**127)
NAME = "no input makes a comparison, its output or a request crash"
# operations whose guarantees are decided on their own; facts about their results need a contract to be excluded
GUARANTEED = (EXT, CT, T_ + "free_vars", T_ + "bound_vars", T_ + "visit", T_ + "simplify", "lock_lock")
KINDS = {(True, True): {0, 3}, (False, True): {1}, (True, False): {2}}


def contract_simplify(ctx):
    """a term can always be reduced to one dimension (structural induction: operands are reduced first)"""
    f = ctx.fn(CORE, T_ + "simplify")
    outs = f and ctx.outs(f)
    good = bool(outs) and all(o.kind == "ret" and (o.val.op == "adt" and o.val.a[1] == 0 or failing_operand(o)) for o in outs)
    return "simplify" if good else None


def failing_operand(o):
    """the error of an operand is passed on"""
    return any(k.op == "disc" and w == ("=", I(1)) and k.a[0].op == "call" and str(k.a[0].a[0]).startswith(T_) for k, w in o.st.facts.items())


def contract_templates(ctx):
    """rendering a page never fails: all its pieces are written to memory"""
    out = set()
    for f in ctx.prog(WEB).fns.values():
        if f.npath.endswith("::render_once") and f.crate == "subweight_web":
            outs = ctx.outs(f, opaque={C + "Dimension::fmt_value"}, join=True)
            if outs and all(o.val.op == "adt" and o.val.a[1] == 0 for o in outs if o.kind == "ret"):
                out.add(f.npath)
    return out


class Contracts:
    def __init__(self, ctx, pages=()):
        self.simplify = contract_simplify(ctx)
        self.pages = pages

    def impossible(self, f):
        """a set of facts that no execution meets"""
        return any(self.single(k, w) for k, w in f.items()) or self.joint(f)

    def single(self, k, w):
        one = w == ("=", I(1))
        if k.op == "disc" and one and k.a[0].op in ("call", "eff"):
            n = str(k.a[0].a[0])
            if n == T_ + "simplify" and self.simplify:
                return True
            if n in self.pages:
                return True
            if n == "lock_lock":
                return True  # only poisoned by a crash while it is held, which this check excludes
            if n == T_ + "visit" and never_fails(k.a[0].a[2]):
                return True
            if n.endswith("BadgeBuilder::build"):
                return True  # label and colour are constants
        if k.op == "any" and w == ("=", TRUE):
            return bool(k.a[1]) and all(self.impossible(dict(c)) for c in k.a[1])
        if k.op == "alt" and w == ("=", LOW):
            return all(v is not LOW and (v.op == "int" or v.op == "cast" and (T("lt", v.a[1], HIGH), ("=", TRUE)) in c) for c, v in k.a[0])
        if k.op == "len":
            t = k.a[0]
            zero, nonzero = w == ("=", I(0)), w[0] == "!" and I(0) in w[1] or w[0] == "=" and w[1] is not I(0)
            if zero and t.op == "fld" and t.a[0].op == "call" and t.a[0].a[0] == EXT:
                return True  # C15: at least one corner
            if nonzero and t.op == "call" and t.a[0] == T_ + "free_vars" and corner(t.a[2]) is not None:
                e = corner(t.a[2])
                return any(same_term(t.a[1], s) for s in e.a[1:3])  # C15: every corner binds every free component
        if k.op == "disc" and w[0] in ("=", "!"):
            kinds = kinds_of(k)
            if kinds is not None:
                left = {n for n in kinds if (I(n) is w[1] if w[0] == "=" else I(n) not in w[1])}
                return not left
        if k.op == "disc" and w == ("=", I(0)) and k.a[0].op in ("call", "lookup", "get", "mapget"):
            # every element of the bound variables is bound
            t = k.a[0]
            es = [s for s in subterms(t) if s.op in ("elem", "found") and s.a[0].op == "call" and s.a[0].a[0] == T_ + "bound_vars"]
            return bool(es)
        return False

    def joint(self, f):
        """a change of kind Changed has both values (C12)"""
        for k, w in f.items():
            if k.op == "disc" and w == ("=", I(3)) and k.a[0].op == "fld" and k.a[0].a[2] == 6:
                b = k.a[0].a[0]
                for i in (1, 3):
                    if f.get(T("disc", fld(b, 0, i))) == ("=", I(0)):
                        return True
        # both sides of a comparison absent: every compared pair comes from one of them (C13)
        for k, w in f.items():
            for t in subterms(k):
                if t.op == "call" and t.a[0] == CE and t.a[1] is NONE and t.a[2] is NONE:
                    return True
        return False


def never_fails(l):
    """a function that returns no error makes the visit of a term succeed (C19)"""
    while l.op == "after":
        l = l.a[0].a[2] if l.a[0].op == "call" and l.a[0].a[0] == T_ + "visit" else NONE
    return l.op == "lam" and bool(lam_rows(l)) and all(kind == "ret" and v.op == "adt" and v.a[1] == 0 for _, kind, v in lam_rows(l))


def corner(s):
    """the call of the corner enumeration that s is an element of"""
    while s.op in ("elem", "found", "idx", "fld"):
        s = s.a[0]
    return s if s.op == "call" and s.a[0] == EXT else None


def same_term(t, side):
    """t is the term of the given (optional) extrinsic"""
    if side.op == "adt" and side.a[1] == 1:
        e = side.a[2]
        return t is get(e, "GenericExtrinsic", "term")
    return t is get(fld(side, 1, 0), "GenericExtrinsic", "term")


def kinds_of(k):
    """which kinds the change of a comparison of two terms can have (C12)"""
    t = k.a[0]
    if t.op != "fld" or t.a[2] != 6:
        return None
    b = t.a[0]
    if b.op == "elem" and b.a[0].op == "collect":
        kinds = [kinds_of(T("disc", T("fld", v, *t.a[1:]))) for _, v in b.a[0].a[2]]
        return None if not kinds or None in kinds else set().union(*kinds)
    if b.op == "fld" and b.a[1:] == (0, 0):
        b = b.a[0]
    if b.op == "call" and b.a[0] == CT:
        p = [None if a.op != "adt" else a.a[1] == 1 for a in b.a[1:3]]
        return KINDS.get(tuple(p))
    return None


def panics(ctx, cs, f, outs, extra=frozenset(), skip=lambda o: False):
    bad = False
    for o in outs or ():
        if o.kind != "panic" or cs.impossible(o.st.facts) or skip(o):
            continue
        bad = True
        murky = any(t.op in ("call", "eff") and t.a[0] in GUARANTEED and not (t.a[0] == T_ + "free_vars" and t.a[2].op == "param") for k in o.st.facts if not (k.op == "disc" and k.a[0].op in ("call", "eff"))
                    for t in subterms(k))
        plain = cleanfacts(o.st.facts, extra) and not murky and not any(t.op == "zip" for k in o.st.facts for t in subterms(k))
        ctx.ob(NAME, False if plain else None, f, "when %s\n   crashes: %s" % (showfacts(o.st.facts), show(o.val)))
    if outs and not bad:
        ctx.ob(NAME, True, f)


CORE_FNS = ["compare_commits", "compare_files", "compare_extrinsics", "extend_scoped_components", "compare_terms", "percent", "filter_changes",
            "sort_changes", "sanity_check_term", "git_checkout", "git_pull", "git_reset", "Dimension::fmt_value", "Dimension::fmt_scalar",
            "term::Term::eval", "term::Term::simplify", "term::Term::free_vars", "term::Term::bound_vars", "term::Term::substitute",
            "term::Term::find_largest_factor", "term::Term::visit", "term::Term::fmt_equation"]


@prop("C39", "absence of reachable panics: every row of the tables from the entry points to the output, modulo contracts decided on the callees' tables")
def c39(ctx):
    import sys as _s
    web, cli, page = (_s.modules["checks_" + n] for n in ("web", "cli", "page"))
    pages = contract_templates(ctx)
    cs = Contracts(ctx, pages)
    none = lambda o, ps: all(o.st.facts.get(T("disc", P(p))) == ("=", I(0)) for p in ps)
    for n in CORE_FNS:
        f = ctx.fn(CORE, C + n)
        if f is None:
            ctx.lost("%s: function not found" % n)
            continue
        skip = lambda o: False
        if n == "compare_extrinsics":
            skip = lambda o: none(o, ("old", "new"))
        if n == "extend_scoped_components":
            skip = lambda o: none(o, ("a", "b"))
        panics(ctx, cs, f, ctx.outs(f), extra=frozenset({"Regex::new", "rx_is_match"}) | set(GUARANTEED) | {CE}, skip=skip)
    for f in web.handler_fns(ctx):
        panics(ctx, cs, f, web.rows_of(ctx, f), extra=web.VOCAB, skip=git_lines)
    for f in ctx.prog(WEB).fns.values():
        if f.npath.endswith("::render_once") and f.crate == "subweight_web":
            panics(ctx, cs, f, ctx.outs(f, opaque={C + "Dimension::fmt_value"}, join=True), extra=page.EXTRA)
    r = cli.table_of(ctx)
    if r:
        panics(ctx, cs, r[0], r[1], extra=cli.EXTRA, skip=bad_prefix)
    for crate in (CORE, CLI, WEB):
        prog = ctx.prog(crate)
        for f in calls.project(prog):
            hits = [r for r in calls.refs(f.blocks) if match_error(prog, r)]
            ctx.ob("a pattern given by the user that fails while matching is no crash", not hits, f, "matching is required to succeed: %s" % hits[:1] if hits else "")


def match_error(prog, r):
    """unwrap or expect on the result of a match (bool or an error such as too much backtracking)"""
    if r["path"] not in ("std::result::Result::<T, E>::unwrap", "std::result::Result::<T, E>::expect") or len(r["args"]) < 2:
        return False
    a, e = (prog.types[i]["s"] for i in r["args"][:2])
    return a == "bool" and e.startswith("fancy_regex::")


def bad_prefix(o):
    """an invalid prefix to strip is an argument error (C34)"""
    def invalid(k, w):
        return k.op == "disc" and k.a[0].op == "call" and k.a[0].a[0] == "Regex::new" and w == ("=", I(1))
    return any(invalid(k, w) or k.op == "any" and w == ("=", TRUE) and bool(k.a[1]) and all(any(invalid(*f) for f in c) for c in k.a[1])
               for k, w in o.st.facts.items())


def git_lines(o):
    """git lists a hash and a name per line"""
    def words(k):
        return any(s.op == "call" and "split_whitespace" in str(s.a[0]) for s in subterms(k))
    return any(k.op == "any" and w == ("=", TRUE) and "str_lines" in show(k.a[0]) for k, w in o.st.facts.items())
