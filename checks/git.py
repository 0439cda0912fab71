"""Repository access: revisions, network, commands, file lists."""
from check import *
from spec import *
import calls, shape
import re

C = "subweight_core::"
CO, PULL, RESET, LIST = C + "git_checkout", C + "git_pull", C + "git_reset", C + "list_files"
PAR, TRY, CMPF = C + "parse::pallet::parse_files_in_repo", C + "parse::pallet::try_parse_files_in_repo", C + "compare_files"
CC = C + "compare_commits"
NAMES = [CO, LIST, PAR, TRY, CMPF]


def need(x, r):
    k, v = x.res(r)
    if k == "err":
        raise Fail(err(ANY))
    return v


def par(f):
    return get(P("params"), "CompareParams", f)


PATTERN = ["str_contains", "str_split", "str_starts_with", "glob::Pattern::new", "glob::Pattern::matches", "glob::Pattern::escape"]


def dots(x):
    """the pattern names the parent directory, or a part of it is expanded to it (`glob` does so for a part with a leading dot)"""
    if x.is_(call("str_contains", P("path_pattern"), S(".."))):
        return True

    def up(y, e):
        if not y.is_(call("str_starts_with", e, S("."))):
            return False
        k, v = y.res(call("glob::Pattern::new", e))
        return k == "ok" and y.is_(call("glob::Pattern::matches", v, S("..")))
    return x.is_(x.exists(call("str_split", P("path_pattern"), T("arr", T("char", 44), T("char", 47))), up))


@prop("C21", "effect trace of the commit comparison under the pattern test")
def c21(ctx):
    def sp(x, t):
        if not dots(x):
            return SKIP
        return err(ANY)
    ctx.trace(CORE, CC, "a pattern with .. is an error before anything is touched", sp,
              NAMES + ["spawn", "glob", "open", "read_to_string"], extra=PATTERN)


NAMES_OF_REVISIONS = ("main", "origin/main", "feature/a-b_c", "v1.2.3", "refs/heads/x", "HEAD~2", "A/Origin", "0a1b2c3", "origin/origin/x",
                      "heads/main", "x.lock", "release-v1", "d\u00e4", "tags/v1", "remotes/origin/x", "@", "UPPER/lower")


def as_named(ctx, fn, cl):
    """every command gets the revision exactly as it was given, or its namesake of the origin"""
    f = ctx.fn(CORE, fn)
    for o in f and ctx.outs(f, effectful=[RESET, PULL]) or ():
        r = P("refname")
        for text in NAMES_OF_REVISIONS:
            ev = shape.Eval(r, shape.norm((text,)))
            if not admits(o, r, ev):
                continue
            for e in all_effs(o.st.eff):
                args = (parts(e) or (0, []))[1] if e.a[0] == "spawn" else [e.a[2]] if e.a[0] in (PULL, RESET) and len(e.a) > 2 else []
                for a in args:
                    if r not in subterms(a) or a is r:
                        continue
                    v = ev(a)
                    if isinstance(v, tuple) and v[:1] != ("?",) and all(isinstance(p, str) for p in v):
                        s = "".join(v)
                        good = s == text or s == "origin/" + text
                        ctx.ob(cl, good, f, "" if good else "%r becomes %r in %s" % (text, s, short(e, 200)))


def admits(o, r, ev):
    """can this row be taken for the text?  (unknown counts as no)"""
    for k, w in o.st.facts.items():
        if r not in subterms(k) or any(t.op == "eff" for t in subterms(k)):
            continue
        v = ev(k)
        if v is not True and v is not False or w not in (("=", TRUE), ("=", FALSE)):
            return False
        if v is not (w[1] is TRUE):
            return False
    return True


@prop("C22", "effect trace of the commit comparison: order, arguments and results of checkouts, listings, readings")
def c22(ctx):
    repo = P("repo")

    def sp(x, t):
        if dots(x):
            return SKIP
        sides = []
        lax = None
        for rev in ("old", "new"):
            need(x, t.do(CO, repo, P(rev), ANY, ANY))
            files = need(x, t.do(LIST, repo, P("path_pattern"), P("max_files")))
            lax = x.is_(par("ignore_errors"))
            sides.append(t.do(TRY, repo, files) if lax else need(x, t.do(PAR, repo, files)))
        return t.do(CMPF, sides[0], sides[1], P("params"), P("filter"))
    ctx.trace(CORE, CC, "old files are those of the old revision, new files those of the new one", sp, NAMES, extra=PATTERN)
    ctx.trace(CORE, CO, "a revision that cannot be checked out is an error",
              lambda x, t: checkout(x, t, True), [RESET, PULL, "spawn"])
    as_named(ctx, CO, "the revision checked out is the one given")
    as_named(ctx, RESET, "the revision checked out is the one given")


def is_opt(x, ref):
    return x.is_(call("str_starts_with", ref, S("-")))


def cmd(path, *args):
    return T("cmd", S("git"), T("arr", *[S(a) if isinstance(a, str) else a for a in args]), some(path))


def run(x, t, path, *args):
    """spawns git; true when it succeeds (whether the end of the revisions is marked is decided by C24)"""
    c = cmd(path, *args)
    o = t.do("spawn", T("OneOf", c, cmd(path, *args[:-1])) if args[-1] == "--" else c)
    k, v = x.res(o)
    return k == "ok" and x.is_(T("call", "exit_success", get_status(v)))


def get_status(v):
    return T("fld", v, 0, 0)


def checkout(x, t, plain):
    p, r = P("path"), P("refname")
    if is_opt(x, r):
        return SKIP if plain else err(ANY)
    if x.is_(P("force")):
        return t.do(RESET, p, r, P("should_pull"))
    if x.is_(P("should_pull")):
        need(x, t.do(PULL, p, r))
    return ok(UNIT) if run(x, t, p, "checkout", r, "--") else err(ANY)


def reset(x, t, plain):
    p, r = P("path"), P("refname")
    if is_opt(x, r):
        return SKIP if plain else err(ANY)
    if x.is_(P("pull")):
        need(x, t.do(PULL, p, r))
    if run(x, t, p, "reset", "--hard", T("fmt", S("origin/"), T("sv", r))):
        return ok(UNIT)
    return ok(UNIT) if run(x, t, p, "reset", "--hard", r) else err(ANY)


def pull(x, t, plain):
    p, r = P("path"), P("refname")
    if is_opt(x, r):
        return SKIP if plain else err(ANY)
    if x.is_(call("str_contains", r, S(":"))):
        return SKIP
    return ok(UNIT) if run(x, t, p, "fetch", "origin", r) else err(ANY)


# ---------------------------------------------------------------- every command of the three programs

def commands(ctx):
    """(function, row, spawn effect) over every function of the three crates that creates a command"""
    for b in (CORE, CLI, WEB):
        prog = ctx.prog(b)
        done = set()
        for f in calls.calling(prog, lambda p: p in ("std::process::Command::new", "tokio::process::Command::new")):
            if f.crate == "subweight_core" and b != CORE or "::testing::" in f.npath or f.path in done:
                continue
            done.add(f.path)
            outs = ctx.outs(f)
            for o in outs or ():
                for e in all_effs(o.st.eff):
                    if e.a[0] == "spawn":
                        yield f, o, e


def all_effs(eff):
    for root in eff:
        for t in subterms(root):
            if t.op == "eff":
                yield t


def parts(e):
    """(program, [arguments], directory) of a spawn effect or None"""
    c = e.a[1]
    if c.op != "cmd" or c.a[1].op not in ("arr",):
        return None
    return c.a[0], list(c.a[1].a), c.a[2]


def arguments(e):
    """(program, [arguments and many(..) for runs of them], directory) of a spawn effect or None"""
    c = e.a[1]
    if c.op != "cmd" or c.a[1].op not in ("arr", "cat"):
        return None
    return c.a[0], [x.a[0] if x.op == "one" else x for x in c.a[1].a], c.a[2]


PIECES = re.compile(r"str_(r?splitn?|split_\w+|lines|chars|trim\w*|replacen?)$")


def pieces(a):
    """the input that a is, or consists of pieces of"""
    n = 0
    while True:
        if a.op == "many":
            a = a.a[0]
        elif a.op == "call" and len(a.a) > 1 and hasattr(a.a[1], "op") and PIECES.match(a.a[0]):
            a, n = a.a[1], n + 1
        else:
            return a if n else None


def safe_arg(o, a):
    """can the argument start with a dash? True: no; None: unknown; False: it is unconstrained input"""
    src = pieces(a)
    if src is not None:
        # the test of the whole says nothing about what comes behind a space
        whole = call("str_starts_with", src, S("-"))
        for k in o.st.facts:
            if k.op == "call" and k.a[0] in ("str_contains", "str_starts_with", "str_ends_with") and k.a[1] is src and k.a[2].op in ("str", "char"):
                c = k.a[2].a[0] if isinstance(k.a[2].a[0], str) else chr(k.a[2].a[0])
                if not re.search(r"[\s-]", c) and not any(t.op in ("str", "char") and t is not S("") and t.a[0] in (c, ord(c[0])) for t in subterms(a)):
                    continue
            if k is not whole and src in subterms(k) and k.op != "disc" and not any(t.op == "eff" for t in subterms(k)):
                return None
        return False if src.op == "param" else None
    if a.op == "str":
        return not a.a[0].startswith("-") or True
    if a.op == "fmt" and a.a[0].op == "str" and a.a[0].a[0]:
        return not a.a[0].a[0].startswith("-")
    base = a.a[0].a[0] if a.op == "fmt" and len(a.a) and a.a[0].op in ("sv", "disp") else a
    while base.op == "call" and base.a[0] in ("str_to_lowercase", "str_to_uppercase", "str_to_ascii_lowercase", "str_to_ascii_uppercase"):
        base = base.a[1]
    v = o.st.facts.get(call("str_starts_with", base, S("-")))
    if v == ("=", FALSE):
        return True
    if v is not None:
        return False
    for k, w in o.st.facts.items():
        if base in subterms(k) and k.op != "disc" and not any(t.op == "eff" for t in subterms(k)):
            return None  # some other test of the argument
    return False if clean(base) and base.op == "param" else None


@prop("C25", "effect trace of the git helpers, and an argument analysis of every spawned command")
def c25(ctx):
    for fn, sp, nm in ((CO, checkout, [RESET, PULL, "spawn"]), (PULL, pull, ["spawn"]), (RESET, reset, [PULL, "spawn"])):
        ctx.trace(CORE, fn, "a revision that looks like an option is an error and reaches no command",
                  lambda x, t: err(ANY) if is_opt(x, P("refname")) else SKIP, nm)
    seen = {}
    for f, o, e in commands(ctx):
        p = arguments(e)
        if p is None:
            seen.setdefault((f, None), None)
            ctx.ob("no argument of a command can be mistaken for an option", None, f, show(e)[:300])
            continue
        for a in p[1]:
            r = safe_arg(o, a)
            ctx.ob("no argument of a command can be mistaken for an option", r, f,
                   "" if r else "argument %s of %s when %s" % (show(a), show(e)[:200], showfacts(o.st.facts)))


NETWORK = {"fetch", "pull", "push", "clone", "ls-remote", "submodule", "remote"}


@prop("C23", "effect trace of the commit comparison and the git helpers, and a classification of every spawned command")
def c23(ctx):
    def cc(x, t):
        while t.more():
            if t.skip(LIST):
                continue
            t.do(CO, ANY, ANY, B(x.is_(par("git_pull")) and not x.is_(par("offline"))), ANY)
        return ANY
    ctx.trace(CORE, CC, "fetching is requested exactly with pulling switched on and not offline", cc, [CO, LIST], extra=PATTERN)
    ctx.trace(CORE, CO, "a checkout fetches exactly when told to", lambda x, t: no_pull(checkout, x, t), [RESET, PULL, "spawn"])
    ctx.trace(CORE, RESET, "a reset fetches exactly when told to", lambda x, t: no_pull(reset, x, t), [PULL, "spawn"])
    ctx.trace(CORE, PULL, "a fetch asks the origin for the revision", lambda x, t: pull(x, t, True), ["spawn"])
    as_named(ctx, PULL, "a fetch asks the origin for the revision")
    for f, o, e in commands(ctx):
        p = parts(e)
        if p is None or not p[1] or p[1][0].op != "str":
            ctx.ob("only the fetching helper talks to a remote", None, f, show(e)[:300])
            continue
        net = p[1][0].a[0] in NETWORK and not [a for a in p[1][1:2] if a is S("get-url")]
        if f.crate == "subweight_core":
            ctx.ob("only the fetching helper talks to a remote", not net or f.npath == PULL, f, show(e)[:300])


def no_pull(fn, x, t):
    return fn(x, t, True)


WRITES = {"std::fs::" + n for n in ("write", "remove_file", "remove_dir", "remove_dir_all", "rename", "copy", "create_dir", "create_dir_all",
                                    "hard_link", "set_permissions", "soft_link")} | {
    "std::fs::File::" + n for n in ("create", "create_new", "set_len", "set_permissions")} | {
    "std::os::unix::fs::symlink", "std::io::Write::write_fmt@file"}
OPENW = {"write", "append", "create", "create_new", "truncate"}
CHANGING = {"checkout", "reset", "fetch"}
READING = {"remote", "ls-remote", "rev-parse", "show", "log", "branch", "status", "describe"}


@prop("C24", "effect trace of the git helpers, classification of every spawned command and of every file access")
def c24(ctx):
    def cc(x, t):
        while t.more():
            if t.skip(LIST):
                continue
            t.do(CO, P("repo"), ANY, ANY, par("git_force"))
        return ANY
    ctx.trace(CORE, CC, "a checkout is forced exactly when asked for", cc, [CO, LIST], extra=PATTERN)
    ctx.trace(CORE, CO, "local changes are discarded only when forced", lambda x, t: checkout(x, t, True), [RESET, PULL, "spawn"])
    ctx.trace(CORE, RESET, "a forced checkout prefers the origin's branch over the local one", lambda x, t: reset(x, t, True), [PULL, "spawn"])
    as_named(ctx, RESET, "a forced checkout prefers the origin's branch over the local one")
    for f, o, e in commands(ctx):
        p = parts(e)
        if p is None:
            ctx.ob("only git is run, inside the repository, with a known command", None, f, show(e)[:300])
            continue
        prog, args, d = p
        if prog.op != "str" or args and args[0].op != "str":
            r = None
        else:
            r = prog.a[0] == "git" and bool(args)
            if r and args[0].a[0] not in CHANGING | READING:
                r = False if args[0].a[0] in ("clean", "rm", "commit", "push", "merge", "rebase", "stash", "pull", "gc", "update-ref") else None
            if r and args[0].a[0] == "reset" and f.npath != RESET:
                r = False
            if r and args[0].a[0] == "checkout" and any(a.op == "str" and a.a[0] in ("-f", "--force", "-B") for a in args):
                r = False
            if r and d.op == "adt":
                r = d.a[1] == 1 if prog.a[0] == "git" else None
            elif r:
                r = None
        ctx.ob("only git is run, inside the repository, with a known command", r, f, show(e)[:300])
        if prog is S("git") and args and args[0].op == "str":
            r = only_revision(o, args)
            ctx.ob("a revision is neither a path to restore nor a reference to overwrite", r, f, "" if r else show(e)[:300])
    for b in (CORE, CLI, WEB):
        prog = ctx.prog(b)
        for f in calls.project(prog):
            if f.crate == "subweight_core" and b != CORE or "::testing::" in f.npath:
                continue
            w = sorted({r["path"] for r in calls.refs(f.blocks)} & WRITES)
            opens = any(r["path"] == "std::fs::OpenOptions::open" for r in calls.refs(f.blocks))
            if w:
                ctx.ob("no file is written", False, f, "calls %s" % ", ".join(w))
            if opens:
                for o in ctx.outs(f) or ():
                    for e in all_effs(o.st.eff):
                        if e.a[0] == "open":
                            ctx.ob("no file is written", open_ok(e.a[2]) if len(e.a) > 2 else None, f, show(e)[:300])


def only_revision(o, args):
    """can an operand of the command only be a revision?"""
    free = [a for a in args[1:] if a.op != "str"]
    if args[0].a[0] == "checkout" and free:
        if args[-1] is S("--"):
            return True
        return False if all(clean(a) for a in args) else None
    if args[0].a[0] == "fetch" and free:
        rs = []
        for a in free:
            base = a.a[0].a[0] if a.op == "fmt" and len(a.a) == 1 and a.a[0].op in ("sv", "disp") else a
            if o.st.facts.get(call("str_contains", base, S(":"))) == ("=", FALSE):
                rs.append(True)
            else:
                rs.append(False if base.op == "param" and not any(base in subterms(k) and k.op == "call" and k.a[0] != "str_starts_with" for k in o.st.facts) else None)
        return False if False in rs else None if None in rs else True
    return True


def open_ok(t):
    if t.op != "fopts":
        return None
    for o in t.a:
        if o.op != "opt":
            return None
        if o.a[0].a[0] in OPENW and o.a[1] is not FALSE:
            return False if o.a[1] is TRUE else None
    return True


# ---------------------------------------------------------------- C26

@prop("C26", "value-flow table of the file listing")
def c26(ctx):
    f = ctx.fn(CORE, LIST)
    if f is None:
        return ctx.lost("list_files not found")
    name = "the files matching any of the patterns, without mod.rs, sorted and once each"
    pats = call("str_split", P("regex"), S(","))

    def listed(pat):
        g = T("eff", "glob", T("fmt", T("sv", call("glob::Pattern::escape", T("fmt", T("disp", P("base_path"))))), S("/"), T("sv", pat)))
        ent = T("fld", g, 0, 0)
        e = T("elem", ent, "x")
        v = T("fld", e, 0, 0)
        fn = call("path_file_name", v)
        return g, ent, e, T("collect", "Vec", ent, frozenset([
            (frozenset([(T("disc", fn), ("=", I(0)))]), v),
            (frozenset([(T("disc", fn), ("=", I(1))), (T("fld", fn, 1, 0), ("!", frozenset([S("mod.rs")])))]), v)]))
    g, ent, e, coll = listed(T("elem", pats, "x"))
    for o in ctx.outs(f) or ():
        if o.kind != "ret":
            ctx.ob(name, None, f, "panics")
            continue
        v = o.val
        if v.op != "adt":
            ctx.ob(name, None, f, show(v)[:300])
            continue
        if v.a[1] == 1:
            continue
        r, why = listing(v.a[2], pats, g, ent, e, coll)
        ctx.ob(name, r, f, why + ": " + show(v)[:600])
        r, why = limits(v.a[2], pats, g, ent, e, coll, o.st.facts)
        ctx.ob("more files than allowed are an error", r, f, why + ": " + show(v)[:600])

    def sp(x):
        return ANY
    ctx.trace(CORE, CC, "the limit and the pattern given are the ones applied",
              lambda x, t: [t.do(LIST, P("repo"), P("path_pattern"), P("max_files")) for _ in iter(t.more, False)] and ANY or ANY, [LIST])


def peel(v):
    """the sequence below sorting and deduplication, whether it is sorted, whether it is free of duplicates"""
    s = d = False
    while True:
        if v.op == "dedup":
            # removes all duplicates only of a sorted sequence
            if v.a[0].op == "sorted":
                d = True
            v = v.a[0]
        elif v.op == "sorted":
            s = True
            v = v.a[0]
        elif v.op == "toset":
            s = d = True
            v = v.a[0]
        elif v.op == "rev":
            s = False
            v = v.a[0]
        else:
            return v, s, d


TEXTOPS = {"str_trim", "str_trim_start", "str_trim_end", "str_trim_matches", "str_trim_start_matches", "str_trim_end_matches", "str_to_lowercase",
           "str_to_uppercase", "str_to_ascii_lowercase", "str_to_ascii_uppercase", "str_replace", "str_replacen"}


def listing(v, pats, g, ent, e, coll):
    v, s, d = peel(v)
    if v.op == "dedup_by":
        v2, s2, _ = peel(v.a[0])
        one = listing(T("dedup", T("sorted", v2)), pats, g, ent, e, coll)
        return (False if one[0] is True and clean(v.a[1], frozenset(["lam", "bv", "path_file_name"])) else None), "files that differ are dropped as equal"
    voc = frozenset(["path_ends_with", "glob"] + PATTERN)
    if v.op == "fold":
        init, src, lv, rows = v.a
        if src.op in PARTIAL and src.a[0] is pats:
            return False, "only a part of the patterns is used"
        if init is not T("arr") or src is not pats:
            return None, "accumulated differently"
        todo = []
        for conds, kind, ps in rows:
            if kind == "same":
                ps = ()
            elif kind != "cat":
                return None, "accumulated differently"
            todo.append((conds, ps))
    elif v.op == "flatcollect" and v.a[0] is pats:
        lv = None
        todo = list(v.a[1])
    else:
        return None, "accumulated differently"
    out = None
    for conds, ps in sorted(todo, key=repr):
        r = one_pattern(conds, ps, pats, g, ent, e, coll, voc)
        if r[0] is False:
            return r
        if r[0] is None:
            out = r
    if out is not None:
        return out
    if lv is None and len(todo) > 1:
        return None, "accumulated differently"
    if not s:
        return False, "not sorted"
    if not d:
        return False, "duplicates are kept"
    return True, ""


def one_pattern(conds, ps, pats, g, ent, e, coll, voc):
    for k, w in conds:
        if k.op == "any" and k.a[0] is ent and w == ("=", FALSE):
            for c in k.a[1]:
                more = [q for q, _ in c if q is not T("disc", e)]
                if (T("disc", e), ("=", I(1))) in c and more and all(T("fld", e, 1, 0) in subterms(q) for q in more):
                    return False, "a folder that cannot be read is not always an error but when %s" % ", ".join(short(q, 150) for q in more)
    if not ps:
        known = {T("disc", g)}
        own = [(k, w) for k, w in conds if not (k.op == "any" and k.a[0] is ent) and k not in known]
        x = T("elem", pats, "x")
        if own and all(clean(k, voc | frozenset(["pos"])) and (x in subterms(k) or k.op in ("pos", "lt", "eq") and T("pos", x) in subterms(k)) and
                       not any(t.op in ("eff", "lv") for t in subterms(k)) for k, w in own) and (T("disc", g), ("=", I(1))) not in conds:
            return False, "a pattern is left out when %s" % ", ".join("%s %s" % (short(k, 100), w) for k, w in own)
        return None, "a pattern may be left out"
    if len(ps) != 1 or ps[0].op != "many":
        return None, "accumulated differently"
    # the limit concerns the files listed so far, not those of this pattern
    facts = {k: w for k, w in dict(conds).items() if not any(t.op == "lv" for t in subterms(k))}
    c = Cmp(facts, voc).same(coll, ps[0].a[0])
    if c is None:
        for t in subterms(ps[0].a[0]):
            if t.op in PARTIAL and t.a[0].op != "arr":
                return False, "only a part of the files is listed: %s" % short(t, 200)
            if t.op == "eff" and t.a[0] == "glob" and t.a[1].op == "fmt":
                if any(P("base_path") in subterms(a) and not any(b.op == "call" and b.a[0] == "glob::Pattern::escape" for b in subterms(a))
                       for a in t.a[1].a):
                    return False, "the folder is not taken literally but as part of the pattern"
                w = g.a[1]
                if len(t.a[1].a) == 3 and t.a[1].a[:2] == w.a[:2] and t.a[1].a[2].op == "sv":
                    x = t.a[1].a[2].a[0]
                    ops = []
                    while x.op == "call" and x.a[0] in TEXTOPS and len(x.a) > 1:
                        ops.append(x.a[0])
                        x = x.a[1]
                    if ops and x is w.a[2].a[0]:
                        return False, "another pattern is expanded than the given one: %s" % short(t.a[1].a[2], 200)
    if not c:
        return c, "the files of a pattern are not the matching ones without mod.rs"
    return True, ""


def limits(v, pats, g, ent, e, coll, facts):
    v, s, d = peel(v)
    if v.op == "flatcollect" and v.a[0] is pats and len(v.a[1]) == 1:
        # no condition of a round depends on the rounds before it
        conds, ps = next(iter(v.a[1]))
        mine = [(k, w) for k, w in conds if P("max_files") in subterms(k)]
        # (that no round ends the listing says the same again)
        whole = [(k, w) for k, w in facts.items() if P("max_files") in subterms(k) and not (k.op == "any" and k.a[0] is pats)]
        if not whole and not mine:
            return False, "no limit applies"
        if not whole and all(k.op in ("lt", "eq") and clean(k, frozenset(["glob", "path_ends_with", "path_file_name", "str_split"] + PATTERN)) for k, w in mine):
            return False, "the limit is applied to the files of each pattern, not to all of them"
        return None, "the limit is applied differently"
    if v.op != "fold":
        return None, "accumulated differently"
    init, src, lv, rows = v.a
    rows = [r for r in rows if r[1] == "cat"]
    if len(rows) != 1:
        return None, "accumulated differently"
    conds, kind, ps = next(iter(rows))
    want = {(T("disc", g), ("=", I(0))), (T("any", ent, frozenset([frozenset([(T("disc", e), ("=", I(1)))])])), ("=", FALSE))}
    n = T("len", T("cat", T("many", lv), T("many", coll)))
    lim = (mklt(P("max_files"), n, True), ("=", FALSE))
    voc = frozenset(["path_ends_with", "glob"] + PATTERN)
    conds = set(conds)
    for t in {t for k, _ in conds for t in subterms(k) if t.op == "collect" and t is not coll}:
        if Cmp(dict(conds), voc).same(coll, t):
            conds = {(subst(k, {t: coll}), w) for k, w in conds}
    rest = conds - want
    if want <= set(conds) and rest == {lim}:
        return True, ""
    if want <= set(conds) and not rest:
        return False, "no limit applies"
    if want <= set(conds) and len(rest) == 1:
        k, w = next(iter(rest))
        if k.op in ("lt", "eq") and P("max_files") in subterms(k) and n in subterms(k) and clean(k, frozenset([lv, "glob", "path_ends_with", "str_split"])):
            return False, "the limit is applied as %s %s" % (show(k)[:200], show(w[1]))
    return None, "the limit is applied differently"
