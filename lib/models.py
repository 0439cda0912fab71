"""Transfer functions of the external functions the code under analysis calls (std, syn, regex, glob, ...).

Everything not listed here stays an uninterpreted function of its arguments.
"""
from terms import *
from engine import (model, MODELS, Out, St, GiveUp, NV, mkeq, mknot, mklt, split, decide, assume, merge_facts, norm_path,
                    fact_test, SETLIKE)
import rx
import engine


# ---------------------------------------------------------------- helpers
def val(cx, st, a):
    """value behind any chain of references"""
    for _ in range(6):
        if a.op != "mref":
            return a
        a = cx.eng.load(st, a.a[0], a.a[1])
    return a


def put(cx, st, a, v):
    if a.op == "mref":
        cx.eng.store(st, a.a[0], a.a[1], v)
        return True
    return False


def call(name, *args):
    return T("call", name, *args)


def opt2(st, cond, x):
    """[(st, Some(x)) if cond, (st, None) otherwise]"""
    return [(s, some(x) if b else NONE) for s, b in split(st, cond)]


def tys(cx, i):
    return cx.eng.p.types[i] if i is not None and isinstance(i, int) else {"k": "?", "s": "?"}


def peel(cx, i):
    t = tys(cx, i)
    while t["k"] in ("ref", "ptr"):
        i = t["e"]
        t = tys(cx, i)
    return t


STRTY = ("std::string::String", "std::borrow::Cow", "std::path::Path", "std::path::PathBuf", "std::ffi::OsStr", "std::ffi::OsString")


def is_strty(t):
    return t["k"] == "str" or t["k"] == "adt" and (t["adt"] in STRTY or t["adt"] in ("alloc::string::String", "alloc::borrow::Cow")
                                                    or t["adt"].endswith("::Ident"))


def targ(cx, i):
    a = cx.targs
    n = 0
    for x in a or ():
        if isinstance(x, int) or (isinstance(x, list) and x and x[0] == "t"):
            v = x if isinstance(x, int) else x[1]
            if n == i:
                return v
            n += 1
    return None


def opaque(cx, st, name, *args):
    return cx.eng.opaque_call(cx, name, list(args), st)


# ---------------------------------------------------------------- identities
IDENT = """
std::boxed::Box::new std::boxed::Box::pin std::pin::Pin::new std::pin::Pin::new_unchecked std::hint::must_use std::hint::black_box
std::convert::identity
std::string::String::as_str std::string::String::as_mut_str std::string::String::into_boxed_str std::str::str::to_owned
std::string::String::as_bytes std::str::str::as_bytes std::string::String::into_bytes
std::vec::Vec::as_slice std::vec::Vec::into_boxed_slice std::slice::[T]::to_vec std::slice::[T]::into_vec
std::borrow::ToOwned::to_owned std::borrow::Borrow::borrow std::borrow::Cow::into_owned std::borrow::Cow::to_mut
std::path::Path::new std::path::Path::to_path_buf std::path::PathBuf::as_path std::path::PathBuf::into_os_string std::path::Path::as_os_str
std::path::PathBuf::into_boxed_path std::path::PathBuf::from
std::iter::IntoIterator::into_iter std::iter::Iterator::cloned std::iter::Iterator::copied std::iter::Iterator::by_ref std::iter::Iterator::peekable
std::iter::Iterator::fuse
std::slice::[T]::iter std::slice::[T]::iter_mut std::collections::HashSet::iter std::collections::BTreeSet::iter
syn::punctuated::Punctuated::iter
std::option::Option::iter
std::future::IntoFuture::into_future
actix_web::web::Query::into_inner
syn::__private::quote::ToTokens::into_token_stream syn::__private::quote::ToTokens::to_token_stream
quote::to_tokens::ToTokens::into_token_stream quote::to_tokens::ToTokens::to_token_stream
std::sync::Arc::new std::rc::Rc::new
""".split()


def _ident(cx, st, a, *r):
    if a.op == "adt" and a.a[0].endswith("ops::Range"):
        return T("stream", T("range", a.a[2], a.a[3]))
    return a


for n in IDENT:
    MODELS[n] = _ident


@model("std::iter::IntoIterator::into_iter", "std::slice::[T]::iter_mut", "std::option::Option::iter_mut")
def _elems_mut(cx, st, a, *r):
    """what is done to the elements of a collection through references to them is not followed: afterwards it is unknown"""
    if a.op == "mref":
        t = cx.eng.p.types[cx.argtys[0]] if cx.argtys and cx.argtys[0] is not None else {}
        e = cx.eng.p.types[t["e"]] if t.get("k") == "ref" and t.get("mut") else {}
        n = e.get("adt", "").rsplit("::", 1)[-1]
        if cx.npath.endswith("iter_mut") or e.get("k") in ("slice", "array") or n in (
                "Vec", "VecDeque", "HashMap", "HashSet", "BTreeMap", "BTreeSet", "Option", "Result", "Punctuated"):
            v = val(cx, st, a)
            put(cx, st, a, T("unk", "elements changed", v))
            return v
    return _ident(cx, st, a, *r)


def _deref_ident(cx, st, a, *r):
    return val(cx, st, a) if not cx.eng.is_mutref(cx.rty) else a


for n in ("std::convert::AsRef::as_ref", "std::convert::AsMut::as_mut", "std::ops::Deref::deref", "std::ops::DerefMut::deref_mut"):
    MODELS[n] = _deref_ident

for n in ("Ref::value", "RefMut::value", "RefMut::value_mut"):
    MODELS["dashmap::mapref::one::" + n] = _deref_ident


@model("std::ops::Drop::drop", "std::mem::drop", "std::mem::forget")
def _drop(cx, st, *a):
    if a and cx.npath == "std::mem::drop":
        v = val(cx, st, a[0])
        ty = cx.eng.p.types[cx.argtys[0]]["s"] if cx.argtys and cx.argtys[0] is not None else ""
        if any(g in ty for g in cx.eng.GUARDS):
            st.eff = st.eff + (T("eff", "drop", v),)
    return UNIT


@model("std::clone::Clone::clone")
def _clone(cx, st, a):
    return val(cx, st, a)


@model("std::clone::Clone::clone_from")
def _clone_from(cx, st, a, b):
    put(cx, st, a, val(cx, st, b))
    return UNIT


@model("std::mem::replace")
def _replace(cx, st, a, b):
    v = val(cx, st, a)
    put(cx, st, a, b)
    return v


def default_of(cx, ty):
    t = tys(cx, ty)
    k = t["k"]
    if k in ("int", "uint"):
        return I(0)
    if k == "bool":
        return FALSE
    if k == "float":
        return T("float", "0.0")
    if k == "str":
        return S("")
    if k == "ref":
        return default_of(cx, t["e"])
    if k == "tuple":
        vs = [default_of(cx, e) for e in t["es"]]
        return None if any(v is None for v in vs) else tup(*vs)
    if k == "adt":
        n = t["adt"]
        if n == OPT:
            return NONE
        if n.endswith("::String") or n.endswith("::PathBuf"):
            return S("")
        if n.endswith("::Vec"):
            return T("arr")
        if n.rsplit("::", 1)[-1] in ("HashMap", "BTreeMap", "HashSet", "BTreeSet"):
            return T("emptymap")
    return None


@model("std::mem::take")
def _take(cx, st, a):
    v = val(cx, st, a)
    d = default_of(cx, targ(cx, 0))
    if d is None:
        return None
    put(cx, st, a, d)
    return v


@model("std::option::Option::take")
def _otake(cx, st, a):
    v = val(cx, st, a)
    put(cx, st, a, NONE)
    return v


@model("std::mem::swap")
def _swap(cx, st, a, b):
    x, y = val(cx, st, a), val(cx, st, b)
    put(cx, st, a, y)
    put(cx, st, b, x)
    return UNIT


@model("std::default::Default::default")
def _default(cx, st):
    ty = targ(cx, 0)
    d = default_of(cx, ty if ty is not None else cx.rty)
    return d


@model("std::boxed::Box::new_uninit")
def _newuninit(cx, st):
    cx.eng.heap += 1
    loc = ("H", cx.eng.heap)
    st.store[loc] = T("uninit")
    return T("mref", loc, ())


@model("std::boxed::box_assume_init_into_vec_unsafe", "std::boxed::Box::assume_init")
def _assume_init(cx, st, a):
    return val(cx, st, a)


# ---------------------------------------------------------------- conversions
@model("std::convert::Into::into", "std::convert::From::from")
def _into(cx, st, a):
    p = cx.eng.p
    if cx.fnref["path"].endswith("Into::into") or cx.npath.endswith("Into::into"):
        src, dst = targ(cx, 0), targ(cx, 1)
    else:
        dst, src = targ(cx, 0), targ(cx, 1)
    if dst is None or src is None:
        src = cx.argtys[0]
        dst = cx.rty
    ts, td = tys(cx, src), tys(cx, dst)
    if ts["s"] == td["s"]:
        return a
    # workspace conversion
    for f in p.fns.values():
        if f.npath.endswith("::from") and f.nargs == 1 and f.crate.startswith("subweight"):
            if p.types[f.locals[1]]["s"] == ts["s"] and p.types[f.locals[0]]["s"] == td["s"]:
                if f.key in cx.eng.stack:
                    return None
                return cx.eng.call_fn(f, [a], st)
    if td["k"] == "adt":
        n = td["adt"]
        sh = n.rsplit("::", 1)[-1]
        if is_strty(td) and (is_strty(peel(cx, src)) or ts["k"] == "char"):
            return val(cx, st, a) if ts["k"] != "char" else fmt([T("disp", a)])
        if sh == "Box" or sh in ("Arc", "Rc"):
            return a
        if sh == "Option":
            return some(a)
        if sh in ("Vec",):
            return val(cx, st, a)
        if sh in ("BTreeSet", "HashSet", "BTreeMap", "HashMap"):
            v = val(cx, st, a)
            if v.op == "arr":
                m = T("emptymap")
                for x in v.a:
                    m = ins(m, x) if sh.endswith("Set") else ins(m, x.a[0], x.a[1])
                return m
    if td["k"] in ("int", "uint", "float") and ts["k"] in ("int", "uint", "bool", "char"):
        return cx.eng.cast(st, "IntToInt" if td["k"] != "float" else "IntToFloat", a, src, dst)
    return call("into<%s>" % td["s"], cx.eng.devalue(st, a))


@model("std::string::ToString::to_string")
def _to_string(cx, st, a):
    v = val(cx, st, a)
    t = peel(cx, targ(cx, 0) if targ(cx, 0) is not None else cx.argtys[0])
    if is_strty(t):
        return v
    v = cx.eng.devalue(st, v)
    if t["k"] in ("int", "uint", "float", "bool"):
        engine.NUM.add(v)
    if "dyn std::error::Error" in t["s"]:
        engine.ERR.add(v)
    return fmt([T("disp", v)])


# ---------------------------------------------------------------- formatting
@model("std::fmt::rt::Argument::new_display")
def _new_display(cx, st, a):
    v = cx.eng.devalue(st, val(cx, st, a))
    t = peel(cx, targ(cx, 0) if targ(cx, 0) is not None else cx.argtys[0])
    if is_strty(t):
        return T("fmtarg", T("sv", v))
    if t["k"] in ("int", "uint", "float", "bool"):
        engine.NUM.add(v)
    if "dyn std::error::Error" in t["s"]:
        engine.ERR.add(v)
    return T("fmtarg", T("disp", v))


@model("std::fmt::rt::Argument::new_debug", "std::fmt::rt::Argument::new_lower_hex", "std::fmt::rt::Argument::new_lower_exp",
       "std::fmt::rt::Argument::new_upper_hex")
def _new_debug(cx, st, a):
    v = cx.eng.devalue(st, val(cx, st, a))
    k = cx.npath.rsplit("new_", 1)[-1]
    if peel(cx, targ(cx, 0) if targ(cx, 0) is not None else cx.argtys[0])["k"] in ("int", "uint", "float", "bool"):
        engine.NUM.add(v)
    return T("fmtarg", T("dbg" if k == "debug" else k, v))


@model("std::fmt::rt::Argument::from_usize")
def _fmt_usize(cx, st, a):
    return T("fmtarg", T("usize", val(cx, st, a)))


@model("std::fmt::Arguments::from_str", "std::fmt::Arguments::from_str_nonconst")
def _args_str(cx, st, a):
    return T("fmtargs", val(cx, st, a))


@model("std::fmt::Arguments::new")
def _args_new(cx, st, tpl, args=None):
    tpl = val(cx, st, tpl)
    args = val(cx, st, args) if args is not None else T("arr")
    if tpl.op != "bytes" or args.op != "arr":
        return T("fmtargs", T("unk", "template"))
    bs = tpl.a[0]
    i, n, pieces, nxt = 0, len(bs), [], 0
    av = [x.a[0] if x.op == "fmtarg" else T("unk", "fmtarg") for x in args.a]
    while i < n:
        b = bs[i]
        if b == 0:
            break
        if b < 128:
            pieces.append(S(bytes(bs[i + 1:i + 1 + b]).decode("utf8", "replace")))
            i += 1 + b
        elif b == 128:
            ln = bs[i + 1] | bs[i + 2] << 8
            pieces.append(S(bytes(bs[i + 3:i + 3 + ln]).decode("utf8", "replace")))
            i += 3 + ln
        elif b >= 0xC0:
            i += 1
            spec = []
            if b & 1:
                spec.append(("flags", int.from_bytes(bytes(bs[i:i + 4]), "little")))
                i += 4
            if b & 2:
                spec.append(("width", int.from_bytes(bytes(bs[i:i + 2]), "little"), bool(b & 16)))
                i += 2
            if b & 4:
                spec.append(("prec", int.from_bytes(bytes(bs[i:i + 2]), "little"), bool(b & 32)))
                i += 2
            if b & 8:
                nxt = int.from_bytes(bytes(bs[i:i + 2]), "little")
                i += 2
            x = av[nxt] if nxt < len(av) else T("unk", "fmtarg")
            nxt += 1
            if spec:
                if x.op in ("sv", "disp"):
                    x = T("disp", x.a[0], T("spec", *[T("s_" + s[0], *[I(int(v)) for v in s[1:]]) for s in spec]))
                else:
                    x = T(x.op, *(x.a + (T("spec", *[T("s_" + s[0], *[I(int(v)) for v in s[1:]]) for s in spec]),)))
            pieces.append(x)
        else:
            return T("fmtargs", T("unk", "template"))
    return T("fmtargs", fmt(pieces))


def fmtval(cx, st, a):
    a = val(cx, st, a)
    return a.a[0] if a.op == "fmtargs" else T("unk", "fmtargs", a)


@model("std::fmt::format", "std::fmt::format::format_inner")
def _format(cx, st, a):
    return fmtval(cx, st, a)


@model("std::fmt::Formatter::write_fmt", "std::fmt::Write::write_fmt", "std::io::Write::write_fmt")
def _write_fmt(cx, st, f, a):
    cur = val(cx, st, f)
    if f.op != "mref":
        return None
    put(cx, st, f, fmt([T("sv", cur), T("sv", fmtval(cx, st, a))]))
    return ok(UNIT)


@model("std::fmt::Formatter::write_str", "std::fmt::Write::write_str")
def _write_str(cx, st, f, a):
    cur = val(cx, st, f)
    if f.op != "mref":
        return None
    put(cx, st, f, fmt([T("sv", cur), T("sv", val(cx, st, a))]))
    return ok(UNIT)


@model("std::io::_print", "std::io::_eprint")
def _print(cx, st, a):
    st.eff = st.eff + (T("eff", cx.npath.rsplit("_", 1)[-1], fmtval(cx, st, a)),)
    return UNIT


# ---------------------------------------------------------------- panics
def _panic(cx, st, *a):
    return [("panic", st, T("why", cx.npath.rsplit("::", 1)[-1], cx.fr.fn.npath if cx.fr else "?"))]


for n in ("std::panicking::panic", "std::panicking::panic_fmt", "std::rt::panic_fmt", "std::panicking::panic_display",
          "std::panicking::unreachable_display", "std::panicking::assert_failed", "std::panicking::unreachable_default_msg",
          "std::option::unwrap_failed", "std::option::expect_failed", "std::result::unwrap_failed", "std::panicking::panic_explicit",
          "std::panicking::panic_str_2015", "std::panicking::panic_nounwind"):
    MODELS[n] = _panic


# ---------------------------------------------------------------- logging is not observable behaviour
@model("log::max_level")
def _maxlevel(cx, st):
    return T("loglevel")


@model("log::__private_api::log", "log::__private_api::enabled")
def _log(cx, st, *a):
    return UNIT


@model("log::__private_api::loc")
def _loc(cx, st, *a):
    return UNIT


@model("std::cmp::PartialOrd::le", "std::cmp::PartialOrd::lt", "std::cmp::PartialOrd::ge", "std::cmp::PartialOrd::gt")
def _ple(cx, st, a, b):
    x, y = val(cx, st, a), val(cx, st, b)
    if y.op == "loglevel" or x.op == "loglevel":
        return FALSE
    t = peel(cx, cx.argtys[0]) if cx.argtys and cx.argtys[0] is not None else {"k": "?"}
    nm = cx.npath.rsplit("::", 1)[-1]
    if t.get("adt", "").startswith("log::"):
        return FALSE
    if t["k"] in ("int", "uint", "float", "char"):
        return cx.eng.binop(st, "bin", {"le": "Le", "lt": "Lt", "ge": "Ge", "gt": "Gt"}[nm], x, y, t)
    return None


# ---------------------------------------------------------------- comparison
@model("std::cmp::PartialEq::eq", "std::cmp::PartialEq::ne")
def _eq(cx, st, a, b):
    neg = cx.npath.endswith("::ne")
    x, y = cx.eng.devalue(st, val(cx, st, a)), cx.eng.devalue(st, val(cx, st, b))

    def r(t):
        return mknot(t) if neg else t
    if x is y:
        t = peel(cx, cx.argtys[0]) if cx.argtys and cx.argtys[0] is not None else {"k": "?"}
        if t["k"] != "float":
            return r(TRUE)
    t = peel(cx, cx.argtys[0]) if cx.argtys and cx.argtys[0] is not None else {"k": "?"}
    if t["k"] in ("param", "?", "other") and cx.targs:
        t = peel(cx, targ(cx, 0))
    if is_strty(t) or t["k"] in ("str", "int", "uint", "bool", "char"):
        return r(mkeq(x, y))
    if t["k"] == "float":
        return r(T("feq", *sorted((x, y), key=repr)))
    if t["k"] == "adt":
        n = t["adt"]
        info = cx.eng.p.adts.get(n)
        if n.endswith("term::Term"):
            if x.op == "adt" and y.op == "adt" and x.a[1] != y.a[1]:
                return r(FALSE)
            return r(mkeq(x, y))
        if n == "std::cmp::Ordering" or info and info["kind"] == "enum" and all(not v[2] for v in info["vs"]) and not n.startswith("subweight"):
            dx = I(x.a[1]) if x.op == "adt" else T("disc", x)
            dy = I(y.a[1]) if y.op == "adt" else T("disc", y)
            for q, d in ((x, dx), (y, dy)):
                if d.op == "disc":
                    NV[q] = len(info["vs"]) if info else 3
            return r(mkeq(dx, dy))
        if n == OPT:
            return r_opt(cx, st, x, y, neg, t)
        if n.startswith("subweight"):
            return None if not neg else _ne_ws(cx, st, a, b)
        if n.endswith("::Vec"):
            return r(mkeq(x, y))
    if t["k"] in ("slice", "array"):
        return r(mkeq(x, y))
    return r(mkeq(x, y)) if cx.eng.p.fns.get(cx.fnref.get("key")) is None else None


def _ne_ws(cx, st, a, b):
    p = cx.eng.p
    t = peel(cx, cx.argtys[0])
    for f in p.fns.values():
        if f.npath.endswith("PartialEq>::eq") and f.nargs == 2 and p.types[f.locals[1]].get("k") == "ref" and p.types[p.types[f.locals[1]]["e"]]["s"] == t["s"]:
            outs = cx.eng.call_fn(f, [val(cx, st, a), val(cx, st, b)], st)
            for o in outs:
                if o.kind == "ret":
                    o.val = mknot(o.val)
            return outs
    return None


def r_opt(cx, st, x, y, neg, t):
    """Option equality, by cases"""
    out = []
    et = t["args"][0]
    for s, vx in cx.eng.opt_split(st, x):
        for s2, vy in cx.eng.opt_split(s, y):
            if vx != vy:
                out.append((s2, B(neg)))
            elif vx == 0:
                out.append((s2, B(not neg)))
            else:
                c2 = engine.Ctx()
                c2.eng, c2.fr, c2.line, c2.rty, c2.argtys = cx.eng, cx.fr, 0, cx.rty, [et, et]
                c2.path = c2.npath = "std::cmp::PartialEq::ne" if neg else "std::cmp::PartialEq::eq"
                c2.targs, c2.fnref = [et, et], {"key": None, "path": c2.npath}
                px, py = cx.eng.getf(s2, x, 1, 0), cx.eng.getf(s2, y, 1, 0)
                r = _eq(c2, s2, px, py)
                if r is None:
                    r = T("eq", px, py)
                    r = mknot(r) if neg else r
                if isinstance(r, Term):
                    out.append((s2, r))
                else:
                    out += [(o.st, o.val) for o in r if o.kind == "ret"]
    return out


ORDERING = "std::cmp::Ordering"
LESS, EQUAL, GREATER = T("adt", ORDERING, 0), T("adt", ORDERING, 1), T("adt", ORDERING, 2)


def ordsplit(cx, st, lt, gt):
    out = []
    for s, b in split(st, lt):
        if b:
            out.append((s, LESS))
        else:
            for s2, b2 in split(s, gt):
                out.append((s2, GREATER if b2 else EQUAL))
    return out


@model("std::cmp::Ord::cmp")
def _cmp(cx, st, a, b):
    x, y = val(cx, st, a), val(cx, st, b)
    t = peel(cx, cx.argtys[0]) if cx.argtys and cx.argtys[0] is not None else {"k": "?"}
    if t["k"] in ("int", "uint", "char"):
        x, y = discord(cx, x), discord(cx, y)
        if x is y:
            return EQUAL
        return ordsplit(cx, st, mklt(x, y, t["k"] == "uint"), mklt(y, x, t["k"] == "uint"))
    if is_strty(t):
        return call("str_cmp", x, y)
    return None


def discord(cx, x):
    """discriminants of field-less enums in declaration order compare like variant indices"""
    if x.op == "discr":
        info = cx.eng.p.adts.get(x.a[1])
        if info and all(int(v[1]) == i for i, v in enumerate(info["vs"])):
            return T("disc", x.a[0])
    return x


@model("std::cmp::PartialOrd::partial_cmp")
def _pcmp(cx, st, a, b):
    x, y = val(cx, st, a), val(cx, st, b)
    t = peel(cx, cx.argtys[0]) if cx.argtys and cx.argtys[0] is not None else {"k": "?"}
    if t["k"] in ("int", "uint"):
        return [(s, some(v)) for s, v in ordsplit(cx, st, mklt(discord(cx, x), discord(cx, y)), mklt(discord(cx, y), discord(cx, x)))]
    if t["k"] == "float":
        return call("f64::partial_cmp", x, y)
    return None


@model("std::f64::f64::total_cmp")
def _tcmp(cx, st, a, b):
    return call("f64::total_cmp", val(cx, st, a), val(cx, st, b))


@model("std::intrinsics::three_way_compare")
def _twc(cx, st, a, b):
    t = peel(cx, cx.argtys[0]) if cx.argtys[0] is not None else {"k": "int"}
    x, y = discord(cx, a), discord(cx, b)
    if x is y:
        return EQUAL
    return ordsplit(cx, st, mklt(x, y, t["k"] == "uint"), mklt(y, x, t["k"] == "uint"))


def minmax(cx, st, a, b, mx):
    x, y = val(cx, st, a), val(cx, st, b)
    if x is y:
        return x
    t = peel(cx, cx.argtys[0]) if cx.argtys and cx.argtys[0] is not None else {"k": "?"}
    if t["k"] in ("int", "uint"):
        if x.op == "int" and y.op == "int":
            return I((max if mx else min)(x.a[0], y.a[0]))
        xs = []
        nm = "max" if mx else "min"
        for q in (x, y):
            xs += list(q.a) if q.op == nm else [q]
        if mx and t["k"] == "uint":
            xs = [q for q in xs if q is not I(0)]
        if len(set(xs)) == 1:
            return xs[0]
        return T(nm, *sorted(set(xs), key=repr))
    return None


@model("std::cmp::Ord::max", "std::cmp::max", "std::intrinsics::integer_max")
def _max(cx, st, a, b):
    return minmax(cx, st, a, b, True)


@model("std::cmp::Ord::min", "std::cmp::min", "std::intrinsics::integer_min")
def _min(cx, st, a, b):
    return minmax(cx, st, a, b, False)


# ---------------------------------------------------------------- numbers
@model("std::f64::f64::abs", "std::intrinsics::fabsf64", "std::intrinsics::fabs")
def _fabs(cx, st, a):
    return T("fabs", a)


for _o, _n in (("Add", "add"), ("Mul", "mul"), ("Sub", "sub")):
    for _ty in ("u128", "u64", "u32", "usize", "i128", "i64", "i32", "u16", "u8"):
        def _sat(cx, st, a, b, o=_o, ty=_ty):
            x = cx.eng.iop(o, a, b, {"k": "uint"})
            if a.op == "int" and b.op == "int" and 0 <= x.a[0] < 1 << 64:
                return x
            if x.op == "op":
                return T("sat", *x.a)
            return x
        MODELS["std::num::%s::saturating_%s" % (_ty, _n)] = _sat

        def _chk(cx, st, a, b, o=_o, ty=_ty):
            x = cx.eng.iop(o, a, b, {"k": "uint"})
            ov = T("ovf", o, *(x.a[1:] if x.op == "op" else (a, b)), ty)
            if x.op != "op":
                ov = FALSE
            return [(s, NONE if b2 else some(x)) for s, b2 in split(st, ov)]
        MODELS["std::num::%s::checked_%s" % (_ty, _n)] = _chk


@model("std::num::i128::unsigned_abs", "std::num::i128::abs", "std::num::isize::abs")
def _uabs(cx, st, a):
    return T("iabs", a)


# ---------------------------------------------------------------- strings
def strfn(name, canon=None, n=None):
    def f(cx, st, *a):
        return call(canon or name.rsplit("::", 1)[-1], *[val(cx, st, x) for x in a])
    MODELS[name] = f


for n in ("trim", "trim_start", "trim_end", "to_lowercase", "to_uppercase", "to_ascii_lowercase", "to_ascii_uppercase",
          "trim_matches", "trim_start_matches", "trim_end_matches", "repeat", "eq_ignore_ascii_case", "split_once", "rsplit_once",
          "is_char_boundary", "get"):
    strfn("std::str::str::" + n, "str_" + n)


def trimmed(n):
    """trimming constants, and trimming what is trimmed already (before or after decoding, which keeps the inner text)"""
    cut = {"str_trim": str.strip, "str_trim_start": str.lstrip, "str_trim_end": str.rstrip}
    sub = {"str_trim": set(cut), "str_trim_start": {"str_trim_start"}, "str_trim_end": {"str_trim_end"}}[n]

    def f(cx, st, a):
        x = val(cx, st, a)
        while x.op == "call" and x.a[0] in sub:
            x = x.a[1]
        if x.op == "call" and x.a[0] == "decode_html_entities" and hasattr(x.a[1], "op"):
            y = x.a[1]
            while y.op == "call" and y.a[0] in sub:
                y = y.a[1]
            x = call("decode_html_entities", y)
        if x.op == "str" and x.a[0].isascii():
            return S(cut[n](x.a[0]))
        if n != "str_trim" and x.op == "call" and x.a[0] == {"str_trim_start": "str_trim_end", "str_trim_end": "str_trim_start"}[n]:
            return call("str_trim", x.a[1])
        return call(n, x)
    return f


for _n in ("trim", "trim_start", "trim_end"):
    MODELS["std::str::str::" + _n] = trimmed("str_" + _n)


def charstr(x):
    if x.op == "char":
        try:
            return S(chr(x.a[0]))
        except (TypeError, ValueError):
            return S(str(x.a[0]))
    return x


@model("std::str::str::replace", "std::str::str::replacen")
def _replace_s(cx, st, a, b, c, *r):
    x, y, z = charstr(val(cx, st, a)), charstr(val(cx, st, b)), val(cx, st, c)
    if x.op == "str" and y.op == "str" and z.op == "str" and not r:
        return S(x.a[0].replace(y.a[0], z.a[0]))
    return call("str_replace", x, y, z, *r)


@model("std::str::str::strip_prefix", "std::str::str::strip_suffix", "std::str::str::find", "std::str::str::rfind")
def _strip_s(cx, st, a, b):
    nm = cx.npath.rsplit("::", 1)[-1]
    t = spred(cx, st, {"strip_prefix": "starts_with", "strip_suffix": "ends_with"}.get(nm, "contains"), a, b)
    y = val(cx, st, b)
    return opt2(st, t, call("str_" + nm, val(cx, st, a), cx.eng.lam(st, y) if y.op == "clo" else charstr(y)))


@model("std::str::str::contains", "std::str::str::ends_with", "std::str::str::starts_with")
def _spred(cx, st, a, b):
    return spred(cx, st, cx.npath.rsplit("::", 1)[-1], a, b)


def spred(cx, st, nm, a, b):
    x, y = val(cx, st, a), charstr(val(cx, st, b))
    if x.op == "str" and y.op == "str":
        return B({"contains": y.a[0] in x.a[0], "ends_with": x.a[0].endswith(y.a[0]), "starts_with": x.a[0].startswith(y.a[0])}[nm])
    if y.op == "str":
        # facts about the same string decide suffix questions
        f = st.facts.get(x)
        if f and f[0] == "=" and f[1].op == "str":
            s = f[1].a[0]
            return B({"contains": y.a[0] in s, "ends_with": s.endswith(y.a[0]), "starts_with": s.startswith(y.a[0])}[nm])
        if x.op == "fmt":
            if nm == "ends_with" and x.a[-1].op == "str" and len(x.a[-1].a[0]) >= len(y.a[0]):
                return B(x.a[-1].a[0].endswith(y.a[0]))
            if nm == "starts_with" and x.a[0].op == "str" and len(x.a[0].a[0]) >= len(y.a[0]):
                return B(x.a[0].a[0].startswith(y.a[0]))
        if y.a[0] == "":
            return TRUE
    if y.op == "clo":
        y = cx.eng.lam(st, y)
    return call("str_" + nm, x, y)


@model("std::str::str::is_empty", "std::string::String::is_empty")
def _sempty(cx, st, a):
    x = val(cx, st, a)
    return mkeq(x, S(""))


@model("std::str::str::len", "std::string::String::len")
def _slen(cx, st, a):
    return cx.eng.len_(st, val(cx, st, a))


@model("std::str::str::split", "std::str::str::lines", "std::str::str::split_whitespace", "std::str::str::chars", "std::str::str::rsplit",
       "std::str::str::splitn", "std::str::str::bytes", "std::str::str::char_indices")
def _split(cx, st, *a):
    xs = [charstr(val(cx, st, x)) for x in a]
    xs = [cx.eng.lam(st, x) if x.op == "clo" else x for x in xs]
    nm = cx.npath.rsplit("::", 1)[-1]
    if nm == "split" and xs[0].op == "str" and xs[1].op == "str":
        return T("stream", T("arr", *[S(s) for s in xs[0].a[0].split(xs[1].a[0])]))
    return T("stream", call("str_" + nm, *xs))


@model("std::str::str::parse")
def _parse(cx, st, a):
    x = val(cx, st, a)
    t = tys(cx, targ(cx, 0))
    return call("parse<%s>" % t["s"], x)


@model("std::string::String::new", "std::string::String::with_capacity")
def _snew(cx, st, *a):
    return S("")


@model("std::string::String::push_str", "std::string::String::push")
def _push_str(cx, st, s, x):
    cur, x = val(cx, st, s), val(cx, st, x)
    if s.op != "mref":
        return None
    put(cx, st, s, fmt([T("sv", cur), T("sv", charstr(x)) if x.op != "char" else charstr(x)]))
    return UNIT


@model("std::ops::Add::add")
def _sadd(cx, st, a, b):
    t = peel(cx, cx.argtys[0]) if cx.argtys and cx.argtys[0] is not None else {"k": "?"}
    if is_strty(t):
        return fmt([T("sv", val(cx, st, a)), T("sv", val(cx, st, b))])
    if t["k"] in ("int", "uint", "float"):
        return None
    return None


@model("std::ops::AddAssign::add_assign")
def _saddas(cx, st, a, b):
    t = peel(cx, cx.argtys[0]) if cx.argtys and cx.argtys[0] is not None else {"k": "?"}
    if is_strty(t) and a.op == "mref":
        put(cx, st, a, fmt([T("sv", val(cx, st, a)), T("sv", val(cx, st, b))]))
        return UNIT
    return None


@model("std::string::String::from_utf8")
def _utf8(cx, st, a):
    return call("from_utf8", val(cx, st, a))


@model("std::string::String::from_utf8_lossy")
def _utf8l(cx, st, a):
    return call("from_utf8_lossy", val(cx, st, a))


@model("std::slice::[T]::join", "std::slice::[T]::concat", "std::str::join")
def _join(cx, st, a, sep=None):
    x = val(cx, st, a)
    sep = val(cx, st, sep) if sep is not None else S("")
    if x.op == "arr" and sep.op == "str":
        ps = []
        for i, p in enumerate(x.a):
            if i:
                ps.append(sep)
            ps.append(T("sv", p))
        return fmt(ps)
    return call("join", x, sep)


# ---------------------------------------------------------------- paths
for n in ("display", "file_name", "file_stem", "extension", "parent", "strip_prefix", "components", "is_absolute", "is_relative",
          "to_str", "has_root"):
    strfn("std::path::Path::" + n, "path_" + n)


@model("std::path::Path::display", "std::path::Path::to_string_lossy", "std::ffi::OsStr::to_string_lossy", "std::ffi::OsString::into_string")
def _pdisp(cx, st, a):
    return val(cx, st, a)


@model("std::path::Path::join")
def _pjoin(cx, st, a, b):
    return call("path_join", val(cx, st, a), val(cx, st, b))


@model("std::path::Path::ends_with", "std::path::Path::starts_with")
def _pends(cx, st, a, b):
    n, x, y = cx.npath.rsplit("::", 1)[-1], val(cx, st, a), val(cx, st, b)
    if n == "ends_with" and y.op == "str" and y.a[0] and "/" not in y.a[0] and y.a[0].strip("."):
        # a suffix of whole components: a single name is the file name
        z = call("path_file_name", x)
        NV[z] = 2
        return [(s3, B(b3)) for s2, b2 in split(st, mkeq(T("disc", z), I(1)))
                for s3, b3 in (split(s2, mkeq(T("fld", z, 1, 0), y)) if b2 else [(s2, False)])]
    return call("path_" + n, x, y)


@model("std::path::Path::exists", "std::path::Path::is_dir", "std::path::Path::is_file", "std::path::Path::canonicalize")
def _pex(cx, st, a):
    return cx.eng.effect(cx, "path_" + cx.npath.rsplit("::", 1)[-1], [val(cx, st, a)], st)


# ---------------------------------------------------------------- maps and sets
def ins(m, *kv):
    """insertion; constant string keys are kept sorted, same constant key overwrites"""
    k = kv[0]
    if m.op == "ins" and is_const(k) and is_const(m.a[1]):
        k0 = m.a[1]
        if k0 is k:
            return T("ins", m.a[0], *kv)
        if repr(k) < repr(k0):
            return T("ins", ins(m.a[0], *kv), *m.a[1:])
    elif m.op == "ins" and m.a[1] is k:
        return T("ins", m.a[0], *kv)
    elif m.op == "ins" and len(kv) == 1 and len(m.a) == 2 and repr(k) < repr(m.a[1]):
        return T("ins", ins(m.a[0], *kv), *m.a[1:])
    return T("ins", m, *kv)


MAPS = ("std::collections::HashMap", "std::collections::BTreeMap", "std::collections::HashSet", "std::collections::BTreeSet")


def mdef(meth, f):
    for m in MAPS:
        MODELS[m + "::" + meth] = f


mdef("new", lambda cx, st: T("emptymap"))
mdef("with_capacity", lambda cx, st, n: T("emptymap"))
mdef("iter", lambda cx, st, a: T("stream", val(cx, st, a)))
mdef("into_iter", lambda cx, st, a: T("stream", val(cx, st, a)))
mdef("keys", lambda cx, st, a: T("stream", call("map_keys", val(cx, st, a))))
mdef("values", lambda cx, st, a: T("stream", call("map_values", val(cx, st, a))))
mdef("into_keys", MODELS["std::collections::HashMap::keys"])
mdef("into_values", MODELS["std::collections::HashMap::values"])


def _minsert(cx, st, m, *kv):
    v = val(cx, st, m)
    put(cx, st, m, ins(v, *kv))
    if len(kv) == 1:
        return call("set_inserted", v, *kv)
    return call("map_get", v, kv[0])


mdef("insert", _minsert)


def mget(cx, st, m, k):
    while m.op == "ins" and len(m.a) == 3:
        if m.a[1] is k:
            return some(m.a[2])
        if is_const(m.a[1]) and is_const(k):
            m = m.a[0]
            continue
        e = decide(st.facts, mkeq(m.a[1], k))
        if e is True:
            return some(m.a[2])
        if e is False:
            m = m.a[0]
            continue
        break
    if m.op == "emptymap":
        return NONE
    r = call("map_get", m, k)
    NV[r] = 2
    return r


mdef("get", lambda cx, st, m, k: mget(cx, st, val(cx, st, m), val(cx, st, k)))


def _mcontains(cx, st, m, k):
    v, k = val(cx, st, m), val(cx, st, k)
    if cx.npath.endswith("contains_key"):
        r = mget(cx, st, v, k)
        if r.op == "adt":
            return B(r.a[1] == 1)
        return T("isv", r, 1)
    x = v
    while x.op == "ins":
        if x.a[1] is k:
            return TRUE
        x = x.a[0] if is_const(k) and is_const(x.a[1]) else T("x")
    if x.op == "emptymap":
        return FALSE
    return call("set_contains", v, k)


mdef("contains_key", _mcontains)
mdef("contains", _mcontains)


def mempty(cx, st, a):
    v = val(cx, st, a)
    if v.op == "ins":
        return FALSE
    if v.op == "emptymap":
        return TRUE
    if v.op == "union":
        return T("and", mempty(cx, st, v.a[0]), mempty(cx, st, v.a[1])) if False else mkeq(cx.eng.len_(st, v), I(0))
    return mkeq(cx.eng.len_(st, v), I(0))


mdef("is_empty", mempty)


def mlen(cx, st, a):
    v = val(cx, st, a)
    if v.op == "emptymap":
        return I(0)
    return cx.eng.len_(st, v)


mdef("len", mlen)


def mkunion(a, b):
    xs = []
    for q in (a, b):
        if q.op == "emptymap":
            continue
        xs += list(q.a) if q.op == "union" else [q]
    xs = sorted(set(xs), key=repr)
    if not xs:
        return T("emptymap")
    return xs[0] if len(xs) == 1 else T("union", *xs)


mdef("union", lambda cx, st, a, b: T("stream", mkunion(val(cx, st, a), val(cx, st, b))))


def _mextend(cx, st, m, other):
    v = val(cx, st, m)
    src = cx.eng.stream_coll(st, cx.eng.stream(val(cx, st, other)))
    t = peel(cx, cx.argtys[0]) if cx.argtys[0] is not None else {"k": "?"}
    if v.op == "emptymap":
        r = src
    else:
        r = mkunion(v, src) if t.get("adt", "").endswith("Set") else T("extend", v, src)
    put(cx, st, m, r)
    return UNIT


# ---------------------------------------------------------------- vectors and slices
@model("std::vec::Vec::new", "std::vec::Vec::with_capacity")
def _vnew(cx, st, *a):
    return T("arr")


@model("std::vec::from_elem")
def _from_elem(cx, st, x, n):
    if n.op == "int" and n.a[0] <= 16:
        return T("arr", *[x] * n.a[0])
    return T("rep", x, n)


@model("std::vec::Vec::push")
def _push(cx, st, v, x):
    cur = val(cx, st, v)
    put(cx, st, v, cat(cur, [T("one", x)]))
    return UNIT


@model("std::vec::Vec::append")
def _append(cx, st, v, w):
    cur, o = val(cx, st, v), val(cx, st, w)
    put(cx, st, v, cat(cur, [T("many", o)]))
    put(cx, st, w, T("arr"))
    return UNIT


@model("std::vec::Vec::insert")
def _vinsert(cx, st, v, i, x):
    cur = val(cx, st, v)
    if i.op == "int" and i.a[0] == 0:
        put(cx, st, v, cat(T("arr", x), [T("many", cur)]))
        return UNIT
    return None


@model("std::vec::Vec::extend_from_slice")
def _efs(cx, st, v, w):
    put(cx, st, v, cat(val(cx, st, v), [T("many", val(cx, st, w))]))
    return UNIT


@model("std::iter::Extend::extend")
def _extend(cx, st, v, it):
    t = peel(cx, cx.argtys[0]) if cx.argtys and cx.argtys[0] is not None else {"k": "?"}
    if t.get("adt", "").rsplit("::", 1)[-1] in ("HashMap", "BTreeMap", "HashSet", "BTreeSet"):
        return _mextend(cx, st, v, it)
    src = val(cx, st, it)
    stream = cx.eng.stream(src)
    if t.get("adt", "").endswith("String"):
        put(cx, st, v, fmt([T("sv", val(cx, st, v)), T("sv", call("join", cx.eng.stream_coll(st, stream), S("")))]))
        return UNIT
    outs = collect_vec(cx, st, stream)
    res = []
    for o in outs:
        if o.kind == "ret":
            put(cx, o.st, v, cat(val(cx, o.st, v), [T("many", o.val)]))
            o.val = UNIT
        res.append(o)
    return res


@model("std::vec::Vec::len", "std::slice::[T]::len", "syn::punctuated::Punctuated::len", "std::iter::ExactSizeIterator::len")
def _vlen(cx, st, a):
    x = val(cx, st, a)
    if x.op == "stream":
        x = cx.eng.stream_coll(st, x)
    return cx.eng.len_(st, x)


@model("std::vec::Vec::is_empty", "std::slice::[T]::is_empty", "syn::punctuated::Punctuated::is_empty")
def _vempty(cx, st, a):
    return isempty(cx, st, val(cx, st, a))


def isempty(cx, st, x):
    if x.op == "arr":
        return B(len(x.a) == 0)
    if x.op == "cat" and any(p.op == "one" for p in x.a):
        return FALSE
    return mkeq(cx.eng.len_(st, x), I(0))


@model("syn::punctuated::Punctuated::empty_or_trailing")
def _eot(cx, st, a):
    # true for no element at all, and for a list that ends in a separator
    x = val(cx, st, a)
    return T("or", mkeq(cx.eng.len_(st, x), I(0)), call("trailing_punct", x))


def first_of(cx, st, x):
    if x.op == "arr":
        return some(x.a[0]) if x.a else NONE
    if x.op == "cat" and x.a[0].op == "one":
        return some(x.a[0].a[0])
    return opt2(st, mknot(isempty(cx, st, x)), cx.eng.index(st, x, I(0)))


@model("std::slice::[T]::first", "syn::punctuated::Punctuated::first")
def _first(cx, st, a):
    return first_of(cx, st, val(cx, st, a))


@model("std::slice::[T]::last", "syn::punctuated::Punctuated::last")
def _last(cx, st, a):
    x = val(cx, st, a)
    if x.op == "arr":
        return some(x.a[-1]) if x.a else NONE
    n = cx.eng.len_(st, x)
    if n.op == "int" and n.a[0] > 0:
        return some(cx.eng.index(st, x, I(n.a[0] - 1)))
    return opt2(st, mknot(isempty(cx, st, x)), T("last", x))


@model("std::slice::[T]::get", "syn::punctuated::Punctuated::get")
def _get(cx, st, a, i):
    x = val(cx, st, a)
    if i.op == "adt":
        return None
    return opt2(st, mklt(i, cx.eng.len_(st, x), True), cx.eng.index(st, x, i))


@model("std::slice::[T]::split_first")
def _sf(cx, st, a):
    x = val(cx, st, a)
    return opt2(st, mknot(isempty(cx, st, x)), tup(cx.eng.index(st, x, I(0)), T("tail", x)))


@model("std::ops::Index::index", "std::ops::IndexMut::index_mut")
def _index(cx, st, a, i):
    x = val(cx, st, a)
    t = peel(cx, cx.argtys[0]) if cx.argtys and cx.argtys[0] is not None else {"k": "?"}
    if i.op == "adt" or is_strty(t):
        return call("index_range", x, i)
    sh = t.get("adt", "").rsplit("::", 1)[-1]
    if sh in ("HashMap", "BTreeMap"):
        r = mget(cx, st, x, val(cx, st, i))
        out = []
        for s, vi in cx.eng.opt_split(st, r):
            out.append((s, cx.eng.getf(s, r, 1, 0)) if vi == 1 else ("panic", s, T("why", "index", cx.fr.fn.npath)))
        return out
    if cx.npath.endswith("index_mut") and a.op == "mref":
        return T("mref", a.a[0], a.a[1] + (("i", i),))
    v = cx.eng.index(st, x, i)
    if in_bounds(cx, st, x, i):
        return v
    out = []
    for s, b in split(st, mklt(i, cx.eng.len_(st, x), True)):
        out.append((s, v) if b else ("panic", s, T("why", "index", cx.fr.fn.npath)))
    return out


def in_bounds(cx, st, x, i):
    if i.op == "pos":
        e = i.a[0]
        if e.op == "elem":
            src = e.a[0]
            y = x
            while True:
                if y is src:
                    return True
                if y.op == "collect" and y.a[0] == "Vec" and not isinstance(y.a[2], Term) and all(not d for d, v in y.a[2]):
                    y = y.a[1]
                    continue
                return False
    return False


@model("std::slice::[T]::contains")
def _scontains(cx, st, a, b):
    x, y = val(cx, st, a), cx.eng.devalue(st, val(cx, st, b))
    if x.op == "arr" and all(is_const(q) for q in x.a):
        r = FALSE
        for q in x.a:
            e = mkeq(y, q)
            r = e if r is FALSE else T("or", r, e)
        return r
    return call("set_contains", x, y)


@model("std::slice::[T]::sort", "std::slice::[T]::sort_unstable")
def _sort(cx, st, v):
    put(cx, st, v, T("sorted", val(cx, st, v)))
    return UNIT


@model("std::slice::[T]::sort_by", "std::slice::[T]::sort_by_key", "std::slice::[T]::sort_unstable_by", "std::slice::[T]::sort_by_cached_key",
       "std::slice::[T]::sort_unstable_by_key")
def _sort_by(cx, st, v, f):
    nm = cx.npath.rsplit("::", 1)[-1].replace("_cached", "")
    put(cx, st, v, T("sorted_by", val(cx, st, v), S(nm), cx.eng.lam(st, f)))
    return UNIT


@model("std::slice::[T]::reverse")
def _reverse(cx, st, v):
    x = val(cx, st, v)
    put(cx, st, v, T("arr", *reversed(x.a)) if x.op == "arr" else x.a[0] if x.op == "rev" else T("rev", x))
    return UNIT


@model("std::vec::Vec::dedup")
def _dedup(cx, st, v):
    put(cx, st, v, T("dedup", val(cx, st, v)))
    return UNIT


@model("std::vec::Vec::dedup_by", "std::vec::Vec::dedup_by_key")
def _dedup_by(cx, st, v, f):
    l = cx.eng.lam(st, f)
    x = val(cx, st, v)
    if cx.npath.endswith("dedup_by") and l.op == "lam" and isinstance(l.a[0], frozenset) and len(l.a[0]) == 1:
        r = next(iter(l.a[0]))
        if not r[0] and r[1] == "ret" and r[2] is mkeq(T("bv", "x", 0), T("bv", "x", 1)):
            put(cx, st, v, T("dedup", x))
            return UNIT
    put(cx, st, v, T("dedup_by", x, l))
    return UNIT


@model("std::vec::Vec::retain")
def _retain(cx, st, v, f):
    x = val(cx, st, v)
    outs = collect_vec(cx, st, T("stream", x, T("filter", f)))
    for o in outs:
        if o.kind == "ret":
            put(cx, o.st, v, o.val)
            o.val = UNIT
    return outs


@model("std::vec::Vec::truncate", "std::vec::Vec::drain", "std::vec::Vec::clear", "std::vec::Vec::remove", "std::vec::Vec::pop", "std::vec::Vec::swap_remove")
def _vmut(cx, st, v, *a):
    nm = cx.npath.rsplit("::", 1)[-1]
    x = val(cx, st, v)
    if nm == "clear":
        put(cx, st, v, T("arr"))
        return UNIT
    if nm == "drain" and len(a) == 1 and str(a[0]).find("RangeFull") >= 0:
        put(cx, st, v, T("arr"))
        return T("stream", x)
    if nm == "truncate":
        put(cx, st, v, T("take", x, *a))
        return UNIT
    return None


# ---------------------------------------------------------------- iterators
def stage(name):
    def f(cx, st, s, fn=None):
        s = cx.eng.stream(val(cx, st, s) if s.op == "mref" else s)
        return T("stream", *(s.a + (T(name, fn) if fn is not None else T(name),)))
    return f


MODELS["std::iter::Iterator::map"] = stage("map")
MODELS["std::iter::Iterator::filter"] = stage("filter")
MODELS["std::iter::Iterator::filter_map"] = stage("filter_map")
MODELS["std::iter::Iterator::enumerate"] = stage("enumerate")
MODELS["std::iter::Iterator::inspect"] = stage("inspect")


def flat_kind(ty):
    ty = ty.lstrip("&")
    if "option::Option<" == ty.replace("std::", "").replace("core::", "")[:len("option::Option<")]:
        return "option"
    if "result::Result<" == ty.replace("std::", "").replace("core::", "")[:len("result::Result<")]:
        return "result"
    return None


@model("std::iter::Iterator::flatten")
def _flatten(cx, st, s):
    s = cx.eng.stream(s)
    k = flat_kind(cx.fnref.get("item", ""))
    if k is not None:
        return T("stream", *(s.a + (T("flatten", S(k)),)))
    return flat_eager(cx, st, s)


def flat_eager(cx, st, s):
    """the concatenation of the sequences a stream yields, as a new source"""
    lv = T("lv", "flat")

    def pieces(v):
        r = cat(T("cat", T("many", lv)), [T("many", v)])
        return r.a[1:] if r.op == "cat" else ()
    outs = collect_vec(cx, st, T("stream", *(s.a + (T("seq"),))))
    for o in outs:
        if o.kind != "ret":
            continue
        v = o.val
        if v.op == "arr":
            o.val = T("stream", cat(T("arr"), [T("many", e) for e in v.a]))
            continue
        if v.op == "collect" and v.a[0] == "Vec" and not isinstance(v.a[2], Term):
            src, tb = v.a[1], v.a[2]
        else:
            src, tb = v, frozenset([(frozenset(), T("elem", v, "x"))])
        g = {}
        for d, e in tb:
            p = pieces(e)
            if p:
                g.setdefault(p, []).append(dict(d))
        rows = frozenset((frozenset(f.items()), p) for p, fs in g.items() for f in merge_facts(fs))
        if not rows:
            o.val = T("stream", T("arr"))
        elif all(len(p) == 1 and p[0].op == "one" for d, p in rows):
            o.val = T("stream", T("collect", "Vec", src, frozenset((d, p[0].a[0]) for d, p in rows)))
        else:
            o.val = T("stream", T("flatcollect", src, rows))
    return outs


def plain(cx, st, s):
    """source-only stream"""
    s = cx.eng.stream(val(cx, st, s) if s.op == "mref" else s)
    return cx.eng.stream_coll(st, s)


@model("std::iter::Iterator::chain")
def _chain(cx, st, a, b):
    x, y = plain(cx, st, a), plain(cx, st, b)
    return T("stream", cat(T("arr"), [T("many", x), T("many", y)]))


@model("std::iter::once")
def _once(cx, st, a):
    return T("stream", T("arr", a))


@model("std::iter::empty")
def _iempty(cx, st):
    return T("stream", T("arr"))


@model("std::iter::Iterator::zip")
def _zip(cx, st, a, b):
    x, y = plain(cx, st, a), plain(cx, st, b)
    if x.op == "arr" and y.op == "arr":
        return T("stream", T("arr", *[tup(p, q) for p, q in zip(x.a, y.a)]))
    for p, q in ((x, y), (y, x)):
        # a sequence spelled out, along one that is known to be as long
        n = engine.bounds(st.facts, engine.mklen(q)) if p.op == "arr" else (None, None)
        if n[0] is not None and n[0] >= len(p.a):
            ps = [(u, cx.eng.index(st, q, I(i))) for i, u in enumerate(p.a)]
            return T("stream", T("arr", *[tup(u, v) if p is x else tup(v, u) for u, v in ps]))
    b = per_element(x)
    if b is per_element(y):
        return T("stream", b, T("zipped", x, y))
    return T("stream", T("zip", x, y))


def per_element(v):
    """the sequence that v has one element for each element of"""
    while v in engine.TOTAL or v.op == "collect" and v.a[2] is T("ident"):
        v = v.a[1]
    return v


def element_of(v, b, e):
    """the element of v that stems from the element e of b"""
    while v.op == "collect" and v.a[2] is T("ident"):
        v = v.a[1]
    if v is b:
        return e
    if v.op == "collect" and v.a[0] == "Vec" and v.a[1] is b and not isinstance(v.a[2], Term) and len(v.a[2]) == 1:
        (d, x), = v.a[2]
        if not d:
            return subst(x, {T("elem", b, "x"): e})
    return T("idx", v, T("pos", e))


@model("std::iter::Iterator::rev")
def _rev(cx, st, a):
    x = plain(cx, st, a)
    if x.op == "arr":
        return T("stream", T("arr", *reversed(x.a)))
    return T("stream", T("rev", x))


@model("std::iter::Iterator::take", "std::iter::Iterator::skip", "std::iter::Iterator::step_by")
def _takeskip(cx, st, a, n):
    x = plain(cx, st, a)
    nm = cx.npath.rsplit("::", 1)[-1]
    if x.op == "arr" and n.op == "int" and nm != "step_by":
        return T("stream", T("arr", *(x.a[:n.a[0]] if nm == "take" else x.a[n.a[0]:])))
    return T("stream", T(nm, x, n))


@model("std::iter::Iterator::take_while", "std::iter::Iterator::skip_while", "std::iter::Iterator::map_while")
def _while(cx, st, a, f):
    return T("stream", T(cx.npath.rsplit("::", 1)[-1], plain(cx, st, a), cx.eng.lam(st, f) if f.op == "clo" else cx.eng.devalue(st, f)))


@model("std::iter::Iterator::flat_map")
def _flat_map(cx, st, a, f):
    s = cx.eng.stream(a)
    k = flat_kind(tys(cx, targ(cx, 1)).get("s", ""))
    if k is not None:
        return T("stream", *(s.a + (T("map", f), T("flatten", S(k)))))
    return flat_eager(cx, st, T("stream", *(s.a + (T("map", f),))))


def collect_vec(cx, st, stream, kind="Vec"):
    eng = cx.eng
    if len(stream.a) == 1:
        src = stream.a[0]
        if kind == "Vec":
            if src.op in ("union", "ins", "emptymap"):
                return [Out("ret", st, T("collect", "Vec", src, T("ident")))]
            return [Out("ret", st, src)]
    m = eng.materialise(st.fork(), stream)
    if m is not None:
        outs = list(m[1])
        for s, vs in m[0]:
            if kind == "Vec":
                outs.append(Out("ret", s, T("arr", *vs)))
            else:
                b = T("emptymap")
                for v in vs:
                    if kind == "Map":
                        b = ins(b, eng.getf(s, v, 0, 0), eng.getf(s, v, 0, 1))
                    else:
                        b = ins(b, v)
                outs.append(Out("ret", s, b))
        return outs
    x, rows = eng.rows(st, stream)
    return rows_out(cx, st, stream.a[0], x, rows, lambda s, good: eng.mkcollect(kind, stream.a[0], x, good))


def rows_out(cx, st, src, x, rows, build):
    """splits off the panicking elements, then builds the result of a whole traversal"""
    eng = cx.eng
    outs = []
    bad = [r for r in rows if r[1] == "panic"]
    good = [r for r in rows if r[1] != "panic"]
    changed = any(eng.changed_store(st, r[3]) for r in rows)
    effs = frozenset((r[0], r[3].eff[len(st.eff):]) for r in rows if len(r[3].eff) > len(st.eff))
    x0 = T("elem", src, "x")
    s = st.fork()
    if bad:
        conds = frozenset(frozenset(f.items()) for f in merge_facts([dict(r[0]) for r in bad]))
        conds = eng.rename_elem(conds, x, x0)
        p = st.fork()
        if eng.add_any(p, src, conds, True):
            outs.append(Out("panic", p, bad[0][2] if bad[0][2] is not None else T("why", "elem")))
        if not eng.add_any(s, src, conds, False):
            return outs
    if effs:
        s.eff = s.eff + (T("loopeff", src, eng.rename_elem(effs, x, x0)),)
    if changed:
        outs.append(Out("ret", s, T("unk", "stateful closure", src)))
        return outs
    outs.append(Out("ret", s, build(s, good)))
    return outs


@model("std::iter::Iterator::collect", "std::iter::FromIterator::from_iter")
def _collect(cx, st, a):
    eng = cx.eng
    s = eng.stream(val(cx, st, a) if a.op == "mref" else a)
    t = tys(cx, cx.rty) if cx.rty is not None else {"k": "?", "s": "?"}
    n = t.get("adt", "").rsplit("::", 1)[-1]
    if n in ("Vec", "Box"):
        return collect_vec(cx, st, s)
    if n in ("HashSet", "BTreeSet"):
        if len(s.a) == 1 and s.a[0].op in ("union", "ins", "emptymap"):
            return s.a[0]
        src = s.a[0]
        if len(s.a) == 1 and t["s"] and eng_set_src(cx, st, src):
            return src
        if len(s.a) == 1 and src.op != "arr":
            return T("toset", src)
        return collect_vec(cx, st, s, "Set")
    if n in ("HashMap", "BTreeMap"):
        if len(s.a) == 1 and s.a[0].op != "arr":
            return T("tomap", s.a[0])
        return collect_vec(cx, st, s, "Map")
    if n == "String":
        outs = collect_vec(cx, st, s)
        for o in outs:
            if o.kind == "ret":
                o.val = call("join", o.val, S(""))
        return outs
    if n in ("Result", "Option"):
        inner = tys(cx, t["args"][0])
        inn = inner.get("adt", "").rsplit("::", 1)[-1]
        goodv, badv = (0, 1) if n == "Result" else (1, 0)
        mkgood = ok if n == "Result" else some
        m = eng.materialise(st.fork(), s)
        src = s.a[0]
        if m is not None and inn == "Vec" and not m[1] and all(s2.eff == st.eff and not eng.changed_store(st, s2) for s2, vs in m[0]):
            # element by element, up to the first that fails
            outs = []
            for s2, vs in m[0]:
                cur = [(s2, [])]
                for v in vs:
                    nxt = []
                    for s3, g in cur:
                        NV.setdefault(v, 2)
                        for s4, vi in eng.opt_split(s3, v):
                            if vi == badv:
                                outs.append(Out("ret", s4, err(eng.getf(s4, v, vi, 0)) if n == "Result" else NONE))
                            else:
                                nxt.append((s4, g + [eng.getf(s4, v, vi, 0)]))
                    cur = nxt
                for s3, g in cur:
                    outs.append(Out("ret", s3, mkgood(T("arr", *g))))
            if len(outs) <= 64:
                return outs
        if len(s.a) == 1:
            x = eng.elem(st, src)
            NV[x] = 2
            f0, f1 = {}, {}
            rows = []
            for s2, vi in eng.opt_split(st, x):
                rows.append((eng.delta(st, s2), "ret", (vi, eng.getf(s2, x, vi, 0) if (n == "Result" or vi == 1) else UNIT), s2))
        else:
            x, rows0 = eng.rows(st, s)
            rows = []
            for d, k, v, s2 in rows0:
                if k != "ret":
                    rows.append((d, k, v, s2))
                    continue
                for s3, vi in eng.opt_split(s2, v):
                    rows.append((eng.delta(st, s3), "ret", (vi, eng.getf(s3, v, vi, 0) if (n == "Result" or vi == 1) else UNIT), s3))
        x0 = T("elem", src, "x")
        bads = [r for r in rows if r[1] == "ret" and r[2][0] == badv]
        goods = [(r[0], r[1], r[2][1], r[3]) if r[1] == "ret" else r for r in rows if not (r[1] == "ret" and r[2][0] == badv)]
        outs = []
        conds = frozenset(frozenset(f.items()) for f in merge_facts([dict(r[0]) for r in bads])) if bads else frozenset()
        conds = eng.rename_elem(conds, x, x0)
        g = st.fork()
        if conds:
            b = st.fork()
            if eng.add_any(b, src, conds, True):
                fnd = eng.found(src, conds)
                vals = {r[2][1] for r in bads}
                if n == "Result":
                    ev = subst(next(iter(vals)), {x: fnd}) if len(vals) == 1 else T("errof", src, frozenset(
                        (eng.rename_elem(r[0], x, x0), subst(r[2][1], {x: x0})) for r in bads))
                    outs.append(Out("ret", b, err(ev)))
                else:
                    outs.append(Out("ret", b, NONE))
            if not eng.add_any(g, src, conds, False):
                return outs
        # the good rows, relative to "no element fails"
        gg = []
        for d, k, v, s3 in goods:
            f = dict(d)
            gg.append((frozenset(strip_good(f, x, badv, conds, x0).items()), k, v, s3))
        kind = {"Vec": "Vec", "HashSet": "Set", "BTreeSet": "Set", "HashMap": "Map", "BTreeMap": "Map"}.get(inn, "Vec")
        for o in rows_out(cx, g, src, x, gg, lambda s4, good: eng.mkcollect(kind, src, x, good)):
            if o.kind == "ret":
                o.val = mkgood(o.val)
            outs.append(o)
        return outs
    return None


def strip_good(f, x, badv, conds, x0):
    """drops the facts that 'no element fails' already implies (the negation of a single-test failure condition)"""
    if len(conds) != 1:
        return f
    c = dict(next(iter(conds)))
    if len(c) != 1:
        return f
    k0, v0 = next(iter(c.items()))
    out = {}
    for k, v in f.items():
        if subst(k, {x: x0}) is k0:
            continue
        out[k] = v
    return out


def eng_set_src(cx, st, src):
    return src.op == "collect" and src.a[0] == "Set" or src in SETLIKE or src.op in ("union", "ins", "emptymap")


def is_loop(m):
    return m.op in ("loop", "peel")


@model("std::iter::Iterator::next")
def _next(cx, st, a):
    eng = cx.eng
    v = val(cx, st, a)
    if v.op == "adt" and v.a[0].endswith("ops::Range"):
        v = T("stream", T("range", v.a[2], v.a[3]))
        put(cx, st, a, v)
    s = eng.stream(v)
    src = s.a[0]
    if v.op in ("lv", "after", "unk", "partial"):
        return None
    marker = None
    for m in reversed(st.loops):
        if is_loop(m):
            marker = m
            break
    if src.op == "arr" and (marker is None or marker.op == "peel"):
        if not src.a:
            return NONE
        rest = T("stream", T("arr", *src.a[1:]), *s.a[1:])
        outs = []
        for o in eng.run_stages(st, s, src.a[0]):
            put(cx, o.st, a, rest)
            if o.kind == "ret":
                outs.append(("ret", o.st, some(o.val)))
            elif o.kind == "skip":
                for o2 in eng.wrap(_next(cx, o.st, a), o.st):
                    outs.append(o2)
            else:
                outs.append(o)
        return outs
    if marker is None or marker.op == "peel":
        # a single `next()` on a fresh iterator: the first element
        if len(s.a) == 1:
            outs = first_of(cx, st, src)
            outs = eng.wrap(outs, st)
            for o in outs:
                put(cx, o.st, a, T("stream", T("tail", src)))
            return outs
        x, rows = eng.rows(st, s)
        emit = eng.conds_of(rows, lambda k, v: k == "ret")
        outs = []
        n = st.fork()
        x0 = T("elem", src, "x")
        emit0 = eng.rename_elem(emit, x, x0)
        for d, k, v2, rs in rows:
            if k != "ret":
                continue
            s2, m = eng.with_found(st, src, x, emit0, d)
            if s2 is not None:
                put(cx, s2, a, T("stream", T("tail", src), *s.a[1:]))
                outs.append((s2, some(subst(v2, m))))
        if eng.add_any(n, src, emit0, False):
            outs.append((n, NONE))
        return outs
    exh = T("exh", src, marker)
    if any(k.op == "exh" and k.a[1] is marker for k in st.facts):
        return None
    outs = []
    done = st.fork()
    done.facts[exh] = ("=", TRUE)
    outs.append(("ret", done, NONE))
    go = st.fork()
    go.facts[exh] = ("=", FALSE)
    x = eng.elem(go, src)
    go.loops = go.loops + (src,)
    for o in eng.run_stages(go, s, x):
        if o.kind == "ret":
            outs.append(("ret", o.st, some(o.val)))
        elif o.kind == "skip":
            outs.append(("back", o.st, None))
        else:
            outs.append((o.kind, o.st, o.val))
    return outs


def single_next(cx, st, a):
    return _next(cx, st, a)


@model("std::iter::Iterator::find", "std::iter::Iterator::find_map", "std::iter::Iterator::position")
def _find(cx, st, a, f):
    eng = cx.eng
    s = eng.stream(val(cx, st, a))
    nm = cx.npath.rsplit("::", 1)[-1]
    if nm == "find":
        s2 = T("stream", *(s.a + (T("filter", f),)))
    elif nm == "find_map":
        s2 = T("stream", *(s.a + (T("filter_map", f),)))
    else:
        return None
    m = eng.materialise(st.fork(), s2)
    if m is not None:
        outs = list(m[1])
        # lazily: only elements up to the first hit matter (pure predicates)
        for q, vs in m[0]:
            outs.append(Out("ret", q, some(vs[0]) if vs else NONE))
        return outs
    src = s2.a[0]
    x, rows = eng.rows(st, s2)
    x0 = T("elem", src, "x")
    outs = []
    emit0 = eng.rename_elem(eng.conds_of(rows, lambda k, v: k == "ret"), x, x0)
    bad = eng.rename_elem(eng.conds_of(rows, lambda k, v: k == "panic"), x, x0)
    base = st
    if bad:
        p = st.fork()
        if eng.add_any(p, src, bad, True):
            outs.append(("panic", p, T("why", "elem")))
        base = st.fork()
        if not eng.add_any(base, src, bad, False):
            return outs
    n = base.fork()
    for d, k, v2, rs in rows:
        if k != "ret":
            continue
        s3, mm = eng.with_found(base, src, x, emit0, d)
        if s3 is not None:
            outs.append((s3, some(subst(v2, mm))))
    if eng.add_any(n, src, emit0, False):
        outs.append((n, NONE))
    return outs


@model("std::iter::Iterator::any", "std::iter::Iterator::all")
def _any(cx, st, a, f):
    eng = cx.eng
    s = eng.stream(val(cx, st, a))
    want = cx.npath.endswith("::any")
    src = s.a[0]
    items = eng.unroll_list(st, s)
    if items is not None and len(items) <= 8:
        cur = [(st, None)]
        outs = []
        for x in items:
            nxt = []
            for q, _ in cur:
                for o in eng.run_stages(q, s, x):
                    if o.kind == "skip":
                        nxt.append((o.st, None))
                    elif o.kind != "ret":
                        outs.append(o)
                    else:
                        for r in eng.call_value(o.st, f, [o.val], None):
                            if r.kind != "ret":
                                outs.append(r)
                                continue
                            for q2, b in split(r.st, r.val):
                                if b == want:
                                    outs.append(Out("ret", q2, B(want)))
                                else:
                                    nxt.append((q2, None))
            cur = nxt
        for q, _ in cur:
            outs.append(Out("ret", q, B(not want)))
        return outs
    s2 = T("stream", *(s.a + (T("map", f),)))
    x, rows = eng.rows(st, s2)
    x0 = T("elem", src, "x")
    hits = []
    bad = []
    for d, k, v, rs in rows:
        if k == "panic":
            bad.append(d)
        elif k == "ret":
            for q, b in split(rs, v):
                if b == want:
                    hits.append(eng.delta(st, q))
    outs = []
    base = st
    if bad:
        bc = eng.rename_elem(frozenset(frozenset(f2.items()) for f2 in merge_facts([dict(d) for d in bad])), x, x0)
        p = st.fork()
        if eng.add_any(p, src, bc, True):
            outs.append(("panic", p, T("why", "elem")))
        base = st.fork()
        if not eng.add_any(base, src, bc, False):
            return outs
    conds = frozenset(frozenset(f2.items()) for f2 in merge_facts([dict(d) for d in hits])) if hits else frozenset()
    conds = eng.rename_elem(conds, x, x0)
    t = eng.tbl_any(src, conds)
    if t.op == "bool":
        outs.append((base, B(not want)))
        return outs
    for flag in (True, False):
        q = base.fork()
        if eng.add_any(q, src, conds, flag):
            outs.append((q, B(flag == want)))
    return outs


@model("std::iter::Iterator::for_each")
def _for_each(cx, st, a, f):
    eng = cx.eng
    s = eng.stream(val(cx, st, a))
    m = eng.materialise(st.fork(), T("stream", *(s.a + (T("map", f),))))
    if m is not None and len(m[0]) >= 1:
        return list(m[1]) + [Out("ret", q, UNIT) for q, vs in m[0]]
    x, rows = eng.rows(st, T("stream", *(s.a + (T("map", f),))))
    if any(eng.changed_store(st, r[3]) for r in rows):
        # a loop in closure clothing: generalise the captured accumulators that grow by one append
        return foreach_acc(cx, st, s.a[0], x, rows)
    return rows_out(cx, st, s.a[0], x, rows, lambda s2, good: UNIT)


def foreach_acc(cx, st, src, x, rows):
    eng = cx.eng
    locs = set()
    for r in rows:
        locs.update(eng.changed_store(st, r[3]))
    s = st.fork()
    x0 = T("elem", src, "x")
    if any(r[1] == "panic" for r in rows) or any(len(r[3].eff) > len(st.eff) for r in rows):
        return None
    for loc in locs:
        init = st.store[loc]
        rs = []
        for d, k, v, q in rows:
            nv = q.store.get(loc, init)
            if nv is init:
                rs.append((d, "skip", None, None))
                continue
            pa = list(init.a) if init.op == "cat" else [T("one", y) for y in init.a] if init.op == "arr" else [T("many", init)]
            pb = list(nv.a) if nv.op == "cat" else [T("one", y) for y in nv.a] if nv.op == "arr" else None
            if pb is None or pb[:len(pa)] != pa or len(pb) != len(pa) + 1 or pb[-1].op != "one":
                s.store[loc] = T("unk", "accumulator", src)
                rs = None
                break
            rs.append((d, "ret", pb[-1].a[0], None))
        if rs is not None:
            s.store[loc] = cat(init, [T("many", eng.mkcollect("Vec", src, x, rs))])
    return [Out("ret", s, UNIT)]


@model("std::iter::Iterator::max", "std::iter::Iterator::min", "std::iter::Iterator::max_by", "std::iter::Iterator::min_by",
       "std::iter::Iterator::max_by_key", "std::iter::Iterator::min_by_key", "std::iter::Iterator::reduce",
       "std::iter::Iterator::last", "std::iter::Iterator::count", "std::iter::Iterator::sum", "std::iter::Iterator::product",
       "std::iter::Iterator::fold", "std::iter::Iterator::try_fold", "std::iter::Iterator::nth")
def _reduce(cx, st, a, *r):
    eng = cx.eng
    s = eng.stream(val(cx, st, a))
    nm = cx.npath.rsplit("::", 1)[-1]
    outs = collect_vec(cx, st, s)
    res = []
    fs = None
    for o in outs:
        if o.kind != "ret":
            res.append(o)
            continue
        c = o.val
        if nm == "count":
            o.val = eng.len_(o.st, c)
            res.append(o)
            continue
        if nm == "nth":
            res += [Out("ret", q, v) for q, v in opt2(o.st, mklt(r[0], eng.len_(o.st, c), True), eng.index(o.st, c, r[0]))]
            continue
        if nm == "fold" and c.op == "arr" and len(c.a) <= 12:
            cur = [Out("ret", o.st, r[0])]
            for x in c.a:
                nxt = []
                for p in cur:
                    nxt += eng.call_value(p.st, r[1], [p.val, x], None) if p.kind == "ret" else [p]
                cur = nxt
            res += cur
            continue
        if fs is None:
            fs = [eng.lam(st, f) if f.op == "clo" else eng.devalue(st, f) for f in r]
        if nm in ("max", "min", "max_by", "min_by", "max_by_key", "min_by_key", "reduce", "last"):
            e = isempty(cx, o.st, c)
            for q, b in split(o.st, e):
                res.append(Out("ret", q, NONE if b else some(call("iter_" + nm, c, *fs))))
        else:
            o.val = call("iter_" + nm, c, *fs)
            res.append(o)
    return res


# ---------------------------------------------------------------- ranges
@model("std::ops::RangeInclusive::new")
def _ri(cx, st, a, b):
    return T("stream", T("range", a, T("op", "Add", b, I(1)) if b.op != "int" else I(b.a[0] + 1)))


# ---------------------------------------------------------------- processes and files
@model("std::process::Command::new")
def _cmdnew(cx, st, a):
    return T("cmd", val(cx, st, a), T("arr"), NONE)


def _cmdupd(cx, st, c, f):
    v = val(cx, st, c)
    if v.op != "cmd":
        put(cx, st, c, T("unk", "cmd"))
        return c
    put(cx, st, c, f(v))
    return c


@model("std::process::Command::arg")
def _cmdarg(cx, st, c, x):
    x = val(cx, st, x)
    return _cmdupd(cx, st, c, lambda v: T("cmd", v.a[0], cat(v.a[1], [T("one", x)]), *v.a[2:]))


@model("std::process::Command::args")
def _cmdargs(cx, st, c, x):
    x = plain(cx, st, val(cx, st, x))
    return _cmdupd(cx, st, c, lambda v: T("cmd", v.a[0], cat(v.a[1], [T("many", x)]), *v.a[2:]))


@model("std::process::Command::current_dir")
def _cmdcwd(cx, st, c, x):
    x = val(cx, st, x)
    return _cmdupd(cx, st, c, lambda v: T("cmd", v.a[0], v.a[1], some(x), *v.a[3:]))


@model("std::process::Command::env", "std::process::Command::env_clear", "std::process::Command::env_remove", "std::process::Command::envs",
       "std::process::Command::stdin", "std::process::Command::stdout", "std::process::Command::stderr")
def _cmdenv(cx, st, c, *x):
    x = [cx.eng.devalue(st, y) for y in x]
    nm = cx.npath.rsplit("::", 1)[-1]
    if nm in ("stdin", "stdout", "stderr"):
        return c
    return _cmdupd(cx, st, c, lambda v: T("cmd", *(v.a + (T(nm, *x),))))


@model("std::process::Command::output", "std::process::Command::status", "std::process::Command::spawn")
def _cmdrun(cx, st, c):
    return cx.eng.effect(cx, "spawn", [val(cx, st, c), S(cx.npath.rsplit("::", 1)[-1])], st)


@model("std::process::ExitStatus::success")
def _succ(cx, st, a):
    return call("exit_success", val(cx, st, a))


@model("std::process::ExitStatus::code")
def _exit_code(cx, st, a):
    """success is exactly the code 0"""
    v = val(cx, st, a)
    c = call("exit_code", v)
    outs = []
    for s, good in split(st, call("exit_success", v)):
        if not good and not assume(s.facts, T("fld", c, 1, 0), I(0), False):
            continue
        outs.append(Out("ret", s, some(I(0)) if good else c))
    return outs


@model("std::fs::File::options", "std::fs::OpenOptions::new")
def _fopts(cx, st):
    return T("fopts")


@model("std::fs::OpenOptions::read", "std::fs::OpenOptions::write", "std::fs::OpenOptions::append", "std::fs::OpenOptions::truncate",
       "std::fs::OpenOptions::create", "std::fs::OpenOptions::create_new")
def _fopt(cx, st, o, b):
    v = val(cx, st, o)
    b = val(cx, st, b)
    nm = cx.npath.rsplit("::", 1)[-1]
    if v.op != "fopts":
        return None
    ps = sorted([p for p in v.a if p.a[0] is not S(nm)] + ([T("opt", S(nm), b)] if b is not FALSE else []), key=repr)
    put(cx, st, o, T("fopts", *ps))
    return o


@model("std::fs::OpenOptions::open")
def _fopen(cx, st, o, p):
    return cx.eng.effect(cx, "open", [val(cx, st, p), val(cx, st, o)], st)


@model("std::fs::File::open")
def _fopen2(cx, st, p):
    return cx.eng.effect(cx, "open", [val(cx, st, p), T("fopts", T("opt", S("read"), TRUE))], st)


@model("std::io::Read::read_to_string")
def _rts(cx, st, f, buf):
    fv = val(cx, st, f)
    outs = cx.eng.effect(cx, "read_to_string", [fv], st)
    for o in outs:
        e = o.val
        NV[e] = 2
        put(cx, o.st, buf, fmt([T("sv", val(cx, o.st, buf)), T("sv", T("contents", e))]))
    return outs


@model("std::fs::read_to_string")
def _frts(cx, st, p):
    # open + read; failure of either is the failure of the whole
    eng = cx.eng
    outs = []
    for o in eng.effect(cx, "open", [val(cx, st, p), T("fopts", T("opt", S("read"), TRUE))], st):
        e = o.val
        for s, vi in eng.opt_split(o.st, e):
            if vi == 1:
                outs.append((s, err(eng.getf(s, e, 1, 0))))
                continue
            for o2 in eng.effect(cx, "read_to_string", [eng.getf(s, e, 0, 0)], s):
                for s2, v2 in eng.opt_split(o2.st, o2.val):
                    outs.append((s2, ok(T("contents", o2.val)) if v2 == 0 else err(eng.getf(s2, o2.val, 1, 0))))
    return outs


FSMUT = """std::fs::write std::fs::remove_file std::fs::remove_dir_all std::fs::remove_dir std::fs::create_dir std::fs::create_dir_all
std::fs::rename std::fs::copy std::fs::File::create std::fs::hard_link std::fs::set_permissions std::io::Write::write_all std::io::Write::write
std::env::set_current_dir std::env::set_var std::env::remove_var std::process::exit std::fs::read std::fs::read_dir std::fs::metadata""".split()


def _fsmut(cx, st, *a):
    return cx.eng.effect(cx, cx.npath, list(a), st)


for n in FSMUT:
    MODELS[n] = _fsmut


@model("glob::glob", "glob::glob_with")
def _glob(cx, st, p, *r):
    return cx.eng.effect(cx, "glob", [val(cx, st, p)] + list(r), st)


# ---------------------------------------------------------------- regexes, lazies
@model("lazy_static::lazy::Lazy::get", "std::sync::OnceLock::get_or_init", "once_cell::sync::Lazy::force", "std::sync::LazyLock::force")
def _lazy(cx, st, a, f=None):
    if f is None:
        return None
    return cx.eng.call_value(st, f, [], cx)


@model("fancy_regex::Regex::new", "regex::Regex::new")
def _rxnew(cx, st, a):
    x = val(cx, st, a)
    if x.op == "str":
        c = rx.canon(x.a[0])
        if c is None:
            return ok(T("unk", "regex", x))
        if rx.parse(c) is not None:
            return ok(call("regex", S(c)))
        return ok(call("regex", x))
    r = call("Regex::new", x)
    NV[r] = 2
    return r


for n in ("is_match", "captures", "replace_all", "replace", "find"):
    def _rx(cx, st, r, *a, nm=n):
        r, a = val(cx, st, r), [val(cx, st, x) for x in a]
        t = call("rx_" + nm, r, *a)
        known = r.op == "call" and r.a[0] == "regex" and rx.easy(r.a[1].a[0])
        fancy = cx.npath.startswith("fancy_regex") and nm in ("is_match", "captures", "find")
        if fancy and not known:
            NV[t] = 2
            return t
        if nm in ("captures", "find"):
            NV[t] = 2
        return ok(t) if fancy else t
    MODELS["fancy_regex::Regex::" + n] = _rx
    MODELS["regex::Regex::" + n] = _rx


def _capg(cx, st, c, n):
    c, n = val(cx, st, c), val(cx, st, n)
    pat = None
    if c.op == "fld" and c.a[0].op == "call" and c.a[0].a[0] == "rx_captures":
        r = c.a[0].a[1]
        if r.op == "call" and r.a[0] == "regex":
            pat = r.a[1].a[0]
    k = n.a[0] if n.op in ("str", "int") else None
    if pat is not None:
        if n.op == "int":
            k = rx.names(pat).get(k, k)
            n = S(k) if isinstance(k, str) else n
        t = call("cap_name", c, n)
        if k in rx.mandatory(pat):
            return some(t)
    else:
        t = call("cap_name", c, n)
    NV[t] = 2
    return t


for n in ("get", "name"):
    MODELS["fancy_regex::Captures::" + n] = _capg
    MODELS["regex::Captures::" + n] = _capg


@model("fancy_regex::Match::as_str", "regex::Match::as_str")
def _mstr(cx, st, a):
    return call("match_str", val(cx, st, a))


# ---------------------------------------------------------------- syn
for n in ("syn::parse_file", "syn::parse_str", "syn::parse2"):
    def _synp(cx, st, a, nm=n):
        t = cx.eng.p.types[cx.rty]["s"] if cx.rty is not None else "?"
        r = call(nm, cx.eng.devalue(st, val(cx, st, a)))
        NV[r] = 2
        return r
    MODELS[n] = _synp


@model("syn::LitInt::base10_digits", "syn::lit::LitInt::base10_digits")
def _digits(cx, st, a):
    return call("base10_digits", val(cx, st, a))


@model("syn::LitInt::base10_parse", "syn::lit::LitInt::base10_parse")
def _b10p(cx, st, a):
    t = tys(cx, targ(cx, 0))
    r = call("parse<%s>" % t["s"], call("base10_digits", val(cx, st, a)))
    NV[r] = 2
    return r


# ---------------------------------------------------------------- locks, shared maps, caches
for n in ("get", "get_mut", "insert", "iter", "iter_mut", "remove", "contains_key", "entry", "len", "is_empty", "clear", "try_get", "try_get_mut"):
    def _dm(cx, st, *a, nm=n):
        return cx.eng.effect(cx, "dashmap_" + nm, [val(cx, st, x) for x in a], st)
    MODELS["dashmap::DashMap::" + n] = _dm


@model("std::sync::Mutex::lock", "std::sync::RwLock::read", "std::sync::RwLock::write", "std::sync::Mutex::try_lock")
def _lock(cx, st, a):
    return cx.eng.effect(cx, "lock_" + cx.npath.rsplit("::", 1)[-1], [val(cx, st, a)], st)


@model("cached::Cached::cache_get")
def _cget(cx, st, c, k):
    return cx.eng.effect(cx, "cache_get", [T("cache"), val(cx, st, k)], st)


@model("cached::Cached::cache_set", "cached::Cached::cache_remove", "cached::Cached::cache_clear")
def _cset(cx, st, c, *kv):
    return cx.eng.effect(cx, cx.npath.rsplit("::", 1)[-1], [T("cache")] + [val(cx, st, x) for x in kv], st)


@model("cached::Return::new")
def _cret(cx, st, a):
    n = "cached::Return"
    info = ADTS.get(n)
    if info is None or sorted(info["vs"][0][2]) != ["value", "was_cached"]:
        return None
    v = val(cx, st, a)
    return T("adt", n, 0, *[v if k == "value" else FALSE for k in info["vs"][0][2]])


@model("html_escape::decode_html_entities")
def _dhe(cx, st, a):
    return call("decode_html_entities", val(cx, st, a))


@model("std::env::var")
def _envvar(cx, st, a):
    r = call("env_var", val(cx, st, a))
    NV[r] = 2
    return r


# ---------------------------------------------------------------- HTML
# A sailfish buffer is the sequence of the pieces written to it: txt(constant), num(x), esc(x) (escaped string), raw(x, type).
def _buf_push(cx, st, b, piece):
    put(cx, st, b, cat(val(cx, st, b), [T("one", piece)]))


def _piece(cx, st, a, escaped):
    v = val(cx, st, a)
    t = peel(cx, cx.argtys[0]) if cx.argtys and cx.argtys[0] is not None else {"k": "?", "s": "?"}
    if t["k"] in ("int", "uint", "float", "bool"):
        return T("num", v)
    if escaped:
        return T("esc", v)
    if v.op == "str":
        return T("txt", v)
    return T("raw", v)


MODELS["sailfish::runtime::Buffer::new"] = lambda cx, st, *a: T("arr")
MODELS["sailfish::runtime::Buffer::with_capacity"] = lambda cx, st, *a: T("arr")
MODELS["sailfish::runtime::Buffer::len"] = lambda cx, st, a: call("buffer_len", val(cx, st, a))
MODELS["sailfish::runtime::Buffer::is_empty"] = lambda cx, st, a: mkeq(call("buffer_len", val(cx, st, a)), I(0))
MODELS["sailfish::runtime::Buffer::into_string"] = lambda cx, st, a: call("html", val(cx, st, a))
MODELS["sailfish::runtime::Buffer::as_str"] = lambda cx, st, a: call("html", val(cx, st, a))
MODELS["sailfish::runtime::SizeHint::new"] = lambda cx, st, *a: UNIT
MODELS["sailfish::runtime::SizeHint::get"] = lambda cx, st, *a: T("param", "size_hint")
MODELS["sailfish::runtime::SizeHint::update"] = lambda cx, st, *a: UNIT


@model("sailfish::runtime::Buffer::push_str", "sailfish::runtime::Buffer::push")
def _bpush(cx, st, b, s):
    v = val(cx, st, s)
    _buf_push(cx, st, b, T("txt", v) if is_const(v) else T("raw", v))
    return UNIT


@model("sailfish::runtime::Render::render", "sailfish::runtime::Render::render_escaped")
def _render(cx, st, a, b):
    _buf_push(cx, st, b, _piece(cx, st, a, cx.npath.endswith("escaped")))
    return ok(UNIT)


for n in ("text", "safe", "double_quoted_attribute", "single_quoted_attribute", "quoted_attribute", "unquoted_attribute"):
    def _enc(cx, st, a, nm=n):
        return call("html_encode", S(nm), val(cx, st, a))
    MODELS["html_escape::encode_" + n] = _enc


# ---------------------------------------------------------------- tables on the console
@model("comfy_table::Table::new")
def _table(cx, st):
    return T("arr")


def _tpush(tag):
    def f(cx, st, t, x):
        put(cx, st, t, cat(val(cx, st, t), [T("one", T(tag, cx.eng.devalue(st, x)))]))
        return t
    return f


MODELS["comfy_table::Table::set_header"] = _tpush("tabhead")
MODELS["comfy_table::Table::add_row"] = _tpush("tabrow")
MODELS["comfy_table::Table::load_preset"] = _tpush("tabpreset")
# how wide the cells are drawn
MODELS["comfy_table::Table::set_constraints"] = lambda cx, st, t, x: t
MODELS["comfy_table::Table::set_content_arrangement"] = lambda cx, st, t, x: t
