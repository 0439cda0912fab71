"""The requests the page scripts start: abstract interpretation of their syntax trees (js/flow.js)."""
import glob, json, os, re, subprocess
from types import SimpleNamespace
from urllib.parse import unquote_plus
from check import *
from spec import *
import html as H
import engine, extract
import sys


def source_of(a):
    return sys.modules["checks_web"].source_of(a)


def kebab(n):
    return sys.modules["checks_cli"].kebab(n)


UNSAFE = set("&#+% \"<>?=;")


def site(file, line, path):
    return SimpleNamespace(file=os.path.relpath(file, extract.REPO) if os.path.isabs(file) else file, line=line, path=path, npath=path)


def scripts(ctx):
    d = os.path.join(extract.REPO, "web", "static")
    fs = sorted(f for f in glob.glob(os.path.join(d, "*.js")) if not f.endswith(".min.js"))
    p = subprocess.run(["node", os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "js", "flow.js")] + fs,
                       capture_output=True, text=True, timeout=120)
    if p.returncode:
        ctx.lost("the page scripts could not be analysed: %s" % p.stderr.strip().splitlines()[-1:])
        return None
    return json.loads(p.stdout)


def params(ctx, type_):
    """{query parameter: mandatory}"""
    full = adt(type_)
    src = source_of(ADTS[full]) if full in ADTS else ""
    res, attrs = {}, ""
    for ln in src.splitlines():
        ln = ln.strip()
        if ln.startswith("#["):
            attrs += ln
            continue
        m = re.match(r"(?:pub(?:\([^)]*\))?\s+)?(\w+)\s*:\s*(.+?),?$", ln)
        if m:
            if "rename" in attrs or "alias" in attrs or "flatten" in attrs or "with" in attrs:
                return None
            res[m.group(1)] = not (m.group(2).startswith(("Option<", "std::option::Option<")) or "default" in attrs)
            attrs = ""
    return res or None


def request(ps):
    """(path, [(name, [parts])], open) of an address; None when its parts cannot be told apart"""
    toks = []  # (kind, text): text of the address or a value in it
    opened = False
    for p in ps:
        if "lit" in p:
            toks += [("c", c) for c in p["lit"]]
        elif "usp" in p:
            opened |= bool(p.get("open"))
            if "url" in p:
                return None
            for i, (k, v, *_) in enumerate(p["usp"]):
                toks += [("c", "&")] if i else []
                toks += [("c", c) for c in k] + [("c", "=")]
                toks += [("v", dict(x, enc=True, twice=bool(x.get("enc")))) for x in v]
        else:
            toks.append(("v", p))
    s, path, cur, out, inval = toks, "", None, [], False
    i = 0
    while i < len(s) and s[i] != ("c", "?"):
        if s[i][0] == "v":
            return None
        path += s[i][1]
        i += 1
    for k, t in s[i + 1:]:
        if k == "c" and t == "#":
            break
        if k == "c" and t == "&":
            cur, inval = None, False
        elif not inval:
            if k == "v":
                return None
            if cur is None:
                cur = [""]
                out.append((cur, []))
            if t == "=":
                inval = True
            else:
                cur[0] += t
        else:
            v = out[-1][1]
            if k == "c":
                if v and "lit" in v[-1]:
                    v[-1]["lit"] += t
                else:
                    v.append({"lit": t})
            else:
                v.append(t if "lit" not in t else dict(t))
    return path, [(n[0], v) for n, v in out], opened


def words(sym):
    return set(re.findall(r"[a-z]+", re.sub(r"([a-z])([A-Z])", r"\1 \2", sym).lower()))


OLD = {"first", "base", "baseline", "old", "before", "from"}
NEW = {"second", "head", "new", "after"}


def accepted_const(name, v):
    ty = {"ignore_errors": "bool", "git_pull": "bool", "fetch": "bool", "unit": "Dimension", "method": "CompareMethod"}.get(name)
    if ty == "bool":
        return v in ("true", "false")
    if ty:
        return v in {kebab(x[0]) for x in ADTS[adt(ty)]["vs"]} | ({"weight"} if ty == "Dimension" else set())
    if name == "path_pattern" and any(".." in x.split("/") or x.startswith("/") for x in v.split(",")):
        return False
    if name == "threshold":
        return re.fullmatch(r"\+?\d+", v) is not None and int(v) < 1 << 32
    return v != ""


def check_request(ctx, f, name, ps, args):
    r = request(ps)
    if r is None:
        return None
    path, qs, opened = r
    c = "a request has the parameters the service needs"
    names = [n for n, _ in qs]
    for n in sorted(set(names)):
        ctx.ob(c, n in args, f, "" if n in args else "unknown parameter \"%s\"" % n)
        if names.count(n) > 1:
            ctx.ob(c, False, f, "parameter \"%s\" is sent %d times" % (n, names.count(n)))
    for n, must in args.items():
        if must:
            ctx.ob(c, True if n in names else None if opened else False, f, "" if n in names else "mandatory parameter \"%s\" is missing" % n)
    for n, v in qs:
        if all("lit" in p for p in v):
            s = unquote_plus("".join(p["lit"] for p in v))
            ok = accepted_const(n, s)
            ctx.ob("the service accepts every fixed value", ok, f, "" if ok else "%s=%s" % (n, s))
            continue
        for p in v:
            if "lit" in p:
                if p["lit"]:
                    ctx.ob("a value is sent as it is", None, f, "%s has the fixed part \"%s\"" % (n, p["lit"]))
                continue
            one = p.get("oneof")
            if p.get("twice"):
                ctx.ob("a value is sent as it is", False, f, "%s=%s is encoded twice" % (n, p["sym"]))
            if n in ("ignore_errors", "git_pull", "fetch", "unit", "method", "threshold"):
                if one and None not in one:
                    bad = [x for x in one if not accepted_const(n, x)]
                    ctx.ob("the service accepts every fixed value", not bad, f, "" if not bad else "%s=%s" % (n, bad[0]))
                continue
            if n == "path_pattern":
                for x in one or ():
                    if x is not None:
                        x = unquote_plus(x) if p.get("enc") else x
                        ok = accepted_const(n, x)
                        ctx.ob("the service accepts every fixed value", ok, f, "" if ok else "%s=%s" % (n, x[:200]))
            ok = p.get("enc") or (one and all(x is not None and not set(x) & UNSAFE for x in one))
            ctx.ob("no character of a name or revision changes the request", bool(ok) or (None if p["sym"].startswith("?") else False), f,
                   "" if ok else "%s=%s is put into the address without encoding it" % (n, p["sym"]))
        if n in ("old", "new", "repo"):
            w = set()
            for p in v:
                w |= words(p.get("sym", ""))
            if n == "repo":
                good, bad = "repo" in w or "repository" in w, bool(w & (OLD | NEW) - {"from"})
            else:
                good, bad = (w & OLD, w & NEW) if n == "old" else (w & NEW, w & OLD)
            good, bad = bool(good), bool(bad)
            ctx.ob("repository and revisions come from their own controls", True if good and not bad else False if bad and not good else None, f,
                   "" if good and not bad else "%s=%s" % (n, " ".join(p.get("sym", p.get("lit", "")) for p in v)))
    return path


def template(name):
    d = os.path.join(extract.REPO, "web", "templates")
    s = open(os.path.join(d, name)).read()
    for inc in re.findall(r'include!\("\./([\w.]+)"\)', s):
        if os.path.exists(os.path.join(d, inc)):
            s += open(os.path.join(d, inc)).read()
    return s


def nodes_of(ctx, name):
    for f in ctx.prog(WEB).fns.values():
        if not f.npath.endswith("::render_once") or "templates::%s" % name not in f.npath:
            continue
        for o in ctx.outs(f, join=True) or ():
            if o.kind != "ret":
                continue
            v = o.val
            if v.op == "adt" and v.a[1] == 0 and len(v.a) > 2:
                v = v.a[2]
            if v.op != "call" or v.a[0] != "html":
                return None
            pg = H.Page(lambda np: None)
            lx, nodes = H.Lex(), []
            pg.many(lx, v.a[1], nodes)
            return f, nodes


def flatten(t, strip):
    if t.op == "str":
        return [t.a[0]]
    if t.op == "fmt":
        return [y for p in t.a for y in (flatten(strip(p.a[0]), strip) if p.op == "sv" or p.op == "disp" and len(p.a) == 1
                                         else [p.a[0]] if p.op == "str" else [p] if isinstance(p, Term) else [p])]
    return [t]


def options(ctx, page, sel, want):
    """every option of the selection has the value want(element)"""
    c = "the page offers every repository under its registered name"
    r = nodes_of(ctx, page)
    if r is None:
        return ctx.lost("the page %s is built in an unknown way" % page)
    f, nodes = r
    page_ = sys.modules["checks_page"]
    attr_id, strip = page_.attr_id, page_.strip
    n = 0
    for o, ch, outer in H.elements(nodes):
        if o.tag != "select" or attr_id(o) != sel:
            continue
        loops = [x for x in ch if x.kind == "loop"]
        if len(loops) != 1 or loops[0].conds not in (frozenset(), None):
            return ctx.ob(c, None, f, "the list has an unknown shape")
        src = loops[0].src
        whole = src.op in ("fld", "param") or src.op == "call" and False
        if not whole:
            ctx.ob(c, False if any(t.op in PARTIAL for t in subterms(src)) or any(t.op == "call" and re.search(r"::(take|skip|step_by|filter|take_while|skip_while)$", str(t.a[0])) for t in subterms(src)) else None,
                   f, "the list runs over %s" % short(src, 120))
        for oo, cc, _ in H.elements(loops[0].body):
            if oo.tag != "option":
                continue
            n += 1
            items = [x for x in oo.attrs.get("value", [])]
            got = []
            for x in items:
                got += [x.s] if x.kind == "str" else flatten(strip(x.v), strip) if x.kind == "val" else [None]
            exp = want(T("elem", src, "x"))
            k = len(got) == len(exp) and all(g is not None for g in got)
            ok = k and all((g == e) if isinstance(g, str) or isinstance(e, str) else g is e for g, e in zip(got, exp))
            if not ok and not (None not in got and all(isinstance(g, str) or clean(g, frozenset({"html_encode"})) for g in got)):
                known = [g for g in got if isinstance(g, Term)]
                ok = False if any(t.op == "call" and "case" in str(t.a[0]) for g in known for t in subterms(g)) else None
            ctx.ob(c, ok, f, "" if ok else "value of an option: %s" % " ".join(g if isinstance(g, str) else short(g, 100) if g is not None else "?" for g in got))
    if not n:
        ctx.ob(c, None, f, "no selection %s with options" % sel)


@prop("C41", "abstract interpretation of the page scripts' syntax trees: every request they start against the parameters of the service")
def c41(ctx):
    ctx.prog(CORE)
    ctx.prog(WEB)
    js = scripts(ctx)
    cmp_args, br_args = params(ctx, "CompareArgs"), params(ctx, "BranchArgs")
    if js is None or not cmp_args or not br_args:
        return ctx.lost("parameters of the service not found")
    paths = set()
    for file, r in sorted(js.items()):
        ctx.analysed[os.path.relpath(file, extract.REPO)] = {"rows": len(r["sinks"]), "file": os.path.relpath(file, extract.REPO), "line": 1, "steps": len(r["ids"])}
    for file, r in sorted(js.items()):
        for s in {json.dumps(s, sort_keys=True) for s in r["sinks"]}:
            s = json.loads(s)
            f = site(s["file"], s["line"], os.path.basename(file))
            ps = s["parts"]
            lead = ps[0].get("lit", "") if ps else ""
            if any("url" in p for p in ps):
                controls(ctx, f, file, ps, cmp_args)
                continue
            what = next((k for k in ("/compare", "/branches") if re.match(re.escape(k) + r"(\?|$)", lead)), None)
            if what is None:
                if lead.startswith("http") and "://" in lead:
                    continue
                ctx.ob("a request goes to the service", None if not lead.startswith("/") else
                       lead.split("?")[0].split("#")[0] in known_paths(), f, "address %s" % lead[:80])
                continue
            paths.add((os.path.basename(file), what))
            if check_request(ctx, f, what, ps, cmp_args if what == "/compare" else br_args) is None:
                ctx.ob("a request has the parameters the service needs", None, f, "address of an unknown form")
    # the pages that start comparisons do so
    for page in ("root.js", "merge_requests.js"):
        for p in ("/compare", "/branches"):
            ctx.ob("the page can start a comparison", True if (page, p) in paths else None, site("web/static/" + page, 1, page), "" if (page, p) in paths else "no request to %s found" % p)
    # elements the scripts use exist
    for sc, tpl in (("root.js", "root.stpl"), ("merge_requests.js", "merge_requests.stpl"), ("table.js", "compare.stpl")):
        fl = next((f for f in js if os.path.basename(f) == sc), None)
        if fl is None or not os.path.exists(os.path.join(extract.REPO, "web", "templates", tpl)):
            continue
        have = set(re.findall(r"\bid\s*=\s*[\"']([^\"'<]+)[\"']", template(tpl)))
        for i in sorted({(x["id"]) for x in r_ids(js[fl])}):
            ln = min(x["line"] for x in js[fl]["ids"] if x["id"] == i)
            ctx.ob("the elements a script uses exist on its page", i in have, site("web/static/" + sc, ln, sc), "" if i in have else "no element #%s in %s" % (i, tpl))
    # every control has an effect
    tb = next((r for f, r in js.items() if os.path.basename(f) == "table.js"), None)
    if tb and os.path.exists(os.path.join(extract.REPO, "web", "templates", "compare.stpl")):
        us = [p for s in tb["sinks"] for p in s["parts"] if "url" in p]
        sets = {e[0] for p in us for e in p["usp"]}
        for i in sorted(set(re.findall(r"\bid\s*=\s*[\"'](?:select|input|checkbox)_(\w+)[\"']", template("compare.stpl")))):
            ok = i in sets
            ctx.ob("a control of the comparison page changes its own parameter", True if ok else None if any(not p["usp"] for p in us) or not us else False,
                   site("web/static/table.js", 1, "table.js"), "" if ok else "the control of %s changes nothing" % i)
        # a check box that is cleared changes its parameter as well as one that is set
        off = {e[0] for s in tb["off"] for p in s["parts"] if "url" in p for e in p["usp"]}
        for i in sorted(set(re.findall(r"\bid\s*=\s*[\"']checkbox_(\w+)[\"']", template("compare.stpl"))) & sets):
            ctx.ob("a control of the comparison page changes its own parameter", i in off, site("web/static/table.js", 1, "table.js"),
                   "" if i in off else "clearing the check box of %s changes nothing" % i)
    answers(ctx, js)
    # examples on the error page
    for m in re.finditer(r"href=(['\"])(/compare\?[^'\"]*)\1", template("error.stpl")):
        ln = template("error.stpl")[:m.start()].count("\n") + 1
        check_request(ctx, site("web/templates/error.stpl", ln, "error.stpl"), "/compare", [{"lit": m.group(2)}], cmp_args)
    # what the selections offer
    options(ctx, "Root", "repoSelect", lambda x: [x])
    options(ctx, "MRs", "select_repo", lambda x: [get(x, "Repo", "organization"), ":", get(x, "Repo", "name")])
    # what one page stores in its address the page reads again
    mr = next((r for f, r in js.items() if os.path.basename(f) == "merge_requests.js"), None)
    if mr:
        for s in mr["sinks"]:
            for p in s["parts"]:
                if "url" in p:
                    for k, v, *_ in p["usp"]:
                        ctx.ob("a selection is read again under the name it was stored with", k in mr["reads"], site(s["file"], s["line"], "merge_requests.js"), "" if k in mr["reads"] else k)


def answers(ctx, js):
    """the revisions on offer are those of the answer, and a handler acts on its own row"""
    c = "the front page offers every revision the service lists"
    js = {os.path.basename(f): r for f, r in js.items()}
    ans = [a for a in ADTS if a.endswith("branches::Branches") or "::branches::{" in a and a.endswith("::Branches")]
    if "root.js" in js:
        at = lambda x: site("web/static/root.js", x, "root.js")
        flds = {v if isinstance(v, str) else v[0] for a in ans for _, *rest in ADTS[a]["vs"] for v in rest[1]} if ans else None
        for n in sorted(set(js["root.js"]["fields"]) - {"length"}):
            ok = None if flds is None else n in flds
            ctx.ob(c, ok, at(1), "" if ok else "the answer has no field \"%s\"" % n)
        seen = set()
        for o in js["root.js"]["lists"]:
            v = o["value"]
            m = re.fullmatch(r"(.+)\[index\((\d+),(.+)\.length(.*)\)\]\[(\d+)\]", v)
            m2 = re.fullmatch(r"(?:elem\((.+)\)|arg0@(.+)\.(?:forEach|map))\[(\d+)\]", v)
            ok, why = None, "an option is %s" % v[:200]
            if m and m.group(1) == m.group(3):
                ok = m.group(2) == "0" and m.group(4) == "" and m.group(5) == "0"
            elif m2:
                ok = m2.group(3) == "0"
            seen.add(o["select"])
            ctx.ob(c, ok, at(o["line"]), "" if ok else why)
        for i in ("firstSelect", "secondSelect"):
            if not any("#" + i in x for x in seen):
                ctx.ob(c, None, at(1), "no options of #%s found" % i)
    for n, r in sorted(js.items()):
        for x in r["shared"]:
            ctx.ob("a handler acts on the row it belongs to", False, site("web/static/" + n, x["line"], n), "the variable %s is shared by all rounds of the loop" % x["name"])
        ctx.ob("a handler acts on the row it belongs to", True, site("web/static/" + n, 1, n), "")


def r_ids(r):
    return r["ids"]


def known_paths():
    return {"/", "/compare", "/branches", "/compare-mr", "/compare-commit", "/repos", "/version", "/version/badge"}


def controls(ctx, f, file, ps, args):
    """a page that changes a parameter of its own address"""
    if os.path.basename(file) != "table.js":
        return
    c = "a control of the comparison page changes its own parameter"
    if len(ps) != 1:
        return ctx.ob(c, None, f, "address of an unknown form")
    for k, v, *how in ps[0]["usp"]:
        if how:
            ctx.ob(c, False, f, "%s is sent a second time" % k)
            continue
        ctx.ob(c, k in args, f, "" if k in args else "unknown parameter \"%s\"" % k)
        m = re.fullmatch(r'\$\("#(select|input|checkbox)_(\w+)"\)\.(val\(\)|value|is\(":checked"\)|prop\("checked"\)|checked)', v[0].get("sym", "")) if len(v) == 1 else None
        if not m:
            cased = len(v) == 1 and re.search(r"\)(\.\w+\(\))*\.to(Lower|Upper)Case\(\)$", v[0].get("sym", "")) and k in ("old", "new", "repo", "path_pattern", "pallet", "extrinsic")
            ctx.ob(c, False if cased else None, f, "%s is set to %s" % (k, v))
            continue
        ok = m.group(2) == k
        if v[0].get("enc"):
            ctx.ob(c, False, f, "%s is encoded twice" % k)
        how = (m.group(1) == "checkbox") == (m.group(3) not in ("val()", "value"))
        ctx.ob(c, ok and how, f, "" if ok and how else "%s is set from %s" % (k, v[0]["sym"]))
    if ps[0].get("open") and not ps[0]["usp"]:
        ctx.ob(c, None, f, "no parameter found")


@also("C38")
def first_order(ctx):
    """the table starts with the largest relative increase and shows every row at once"""
    c = "the table starts with the largest relative increase, all rows at once"
    js = scripts(ctx)
    tb = next((r for f, r in (js or {}).items() if os.path.basename(f) == "table.js"), None)
    if tb is None or not os.path.exists(os.path.join(extract.REPO, "web", "templates", "compare.stpl")):
        return ctx.ob(c, None, site("web/static/table.js", 1, "table.js"), "script not found")
    heads = [" ".join(re.sub(r"<%.*?%>", "", x).split()) for x in re.findall(r"<th\b[^>]*>(.*?)</th>", template("compare.stpl"), re.S)]
    if not tb["tables"]:
        return ctx.ob(c, None, site("web/static/table.js", 1, "table.js"), "the set up of the table was not found")
    for t in tb["tables"]:
        at = site("web/static/table.js", t["line"], "table.js")
        o = t["order"]
        if not o or not o[0] or None in o[0] or not str(o[0][0]).isdigit() or int(o[0][0]) >= len(heads):
            ctx.ob(c, None if o is None or o and None in (o[0] or [None]) else False, at, "order %s" % o)
        else:
            ok = heads[int(o[0][0])] == "Rel. Change" and o[0][1] == "desc"
            ctx.ob(c, ok, at, "" if ok else "sorted by %s %s" % (heads[int(o[0][0])], o[0][1]))
        if t["paging"] is None:
            ctx.ob(c, None, at, "paging is not set")
        else:
            ctx.ob(c, t["paging"] == "false", at, "" if t["paging"] == "false" else "rows are spread over pages")
