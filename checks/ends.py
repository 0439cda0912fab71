"""C48: every loop and every recursion works towards its end."""
from check import *
from spec import *
import calls
import engine
import itertools

NEXT = {"next", "next_back", "next_if", "pop", "pop_front", "pop_back"}
ENDLESS = ("Repeat<", "RepeatWith<", "Repeat ", "Cycle<", "RangeFrom<", "Successors<", "FromFn<", "Incoming<", "::Iter<'_, Receiver")
CUTS = ("Take<", "Zip<", "TakeWhile<", "MapWhile<", "Scan<")
SHARED = ("Mutex", "RwLock", "RefCell", "Cell<", "Atomic", "Receiver", "Lazy", "Once", "ReadDir", "File", "Condvar")
PEEKS = {"try_lock", "is_locked", "load", "is_poisoned", "deref", "try_read", "try_write"}
WHOLE = {"collect", "count", "last", "sum", "product", "fold", "for_each", "max", "min", "max_by", "min_by", "max_by_key", "min_by_key",
         "extend", "unzip", "partition", "nth"}
CMP = {"Lt": 1, "Le": 1, "Gt": -1, "Ge": -1, "Ne": 0, "Eq": 0}


def last(call):
    d = call[1][1] if call[0] == "call" and call[1][0] == "fn" else None
    return (d["path"].split("::")[-1], d) if isinstance(d, dict) else (None, None)


def sccs(nodes, succ):
    """strongly connected components with a cycle"""
    idx, low, st, on, res = {}, {}, [], set(), []

    def go(v):
        work = [(v, iter(succ(v)))]
        idx[v] = low[v] = len(idx)
        st.append(v)
        on.add(v)
        while work:
            u, it = work[-1]
            for w in it:
                if w not in nodes:
                    continue
                if w not in idx:
                    idx[w] = low[w] = len(idx)
                    st.append(w)
                    on.add(w)
                    work.append((w, iter(succ(w))))
                    break
                elif w in on:
                    low[u] = min(low[u], idx[w])
            else:
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[u])
                if low[u] == idx[u]:
                    c = set()
                    while True:
                        w = st.pop()
                        on.discard(w)
                        c.add(w)
                        if w == u:
                            break
                    if len(c) > 1 or u in succ(u):
                        res.append(c)
    for v in nodes:
        if v not in idx:
            go(v)
    return res


class Loops:
    """The loops of one function body.  Ranking argument: a component of the control-flow graph is left eventually when every
    cycle takes an element of a finite iterator made outside of it, or moves a counter towards the bound it is tested
    against; the components that remain without those steps are judged in the same way."""

    def __init__(self, prog, f):
        self.p, self.f = prog, f
        n = len(f.blocks)
        self.succ = {b: [s for s in engine.succs(f.blocks[b][1])] for b in range(n)}
        for b in range(n):
            t = f.blocks[b][1]
            if t[0] == "assert" and t[1][0] == "k" and (t[1][1].get("v") or [None, None])[1] is not t[2]:
                self.succ[b] = []
        seen, todo = {0}, [0]
        while todo:
            for s in self.succ[todo.pop()]:
                if s not in seen:
                    seen.add(s)
                    todo.append(s)
        self.live = seen
        self.defs = {}
        for b in seen:
            for st in f.blocks[b][0]:
                if st[0] == "=" and not st[1][1]:
                    self.defs.setdefault(st[1][0], []).append((b, st[2]))
            t = f.blocks[b][1]
            if t[0] == "call" and not t[3][1]:
                self.defs.setdefault(t[3][0], []).append((b, t))

    def all(self):
        return sccs(self.live, lambda b: self.succ[b])

    # -- definitions
    def root(self, op, depth=0):
        """the local an operand is a (possibly re-borrowed) reference to, or a copy of"""
        if op[0] not in ("c", "m") or depth > 12:
            return None
        l, ps = op[1]
        ds = self.defs.get(l, [])
        if len(ds) == 1 and not [p for p in ps if p != "*"]:
            d = ds[0][1]
            if d[0] == "ref":
                return self.root(["c", d[2]], depth + 1)
            if d[0] == "use" and d[1][0] in ("c", "m") and not [p for p in d[1][1][1] if p != "*"]:
                r = self.root(d[1], depth + 1)
                return r if r is not None else d[1][1][0]
            if d[0] == "call" and last(d)[0] in ("deref", "deref_mut", "as_mut", "borrow_mut", "by_ref", "as_slice", "as_str") and d[2]:
                return self.root(d[2][0], depth + 1)
        return (l, str([p for p in ps if p != "*"])) if isinstance(l, int) else None

    def changed(self, loc, S):
        """the places of S where the whole local is replaced"""
        l = loc[0] if isinstance(loc, tuple) else loc
        return [b for b, d in self.defs.get(l, []) if b in S]

    # -- progress
    def endless(self, ty):
        s = self.p.ty(ty)
        s = str(s)
        return any(e in s for e in ENDLESS) and not any(c in s for c in CUTS)

    def leaves(self, b, S):
        """the missing element leaves the component: some test of the call's result has a target outside"""
        t = self.f.blocks[b][1]
        dest, seen, todo = {t[3][0]}, set(), [t[4]]
        while todo:
            x = todo.pop()
            if x in seen or x not in S:
                continue
            seen.add(x)
            for st in self.f.blocks[x][0]:
                if st[0] == "=":
                    if any(l in dest for l in reads_rv(st[2])):
                        dest.add(st[1][0])
            u = self.f.blocks[x][1]
            if u[0] == "call" and any(l in dest for a in u[2] for l in reads_op(a)):
                dest.add(u[3][0])
            if u[0] == "switch" and any(l in dest for l in reads_op(u[1])):
                if any(s not in S for s in self.succ[x]):
                    return True
                continue
            todo.extend(self.succ[x])
        return False

    def steps(self, S):
        """blocks of S that make progress, with the reason"""
        out = {}
        for b in S:
            t = self.f.blocks[b][1]
            n, d = last(t)
            if n in NEXT and t[2]:
                it = self.root(t[2][0])
                if it is not None and not self.changed(it, S) and not (d["args"] and self.endless(d["args"][0])) and self.leaves(b, S):
                    if not n.startswith("pop") or not self.refilled(it, S, b):
                        out[b] = "takes an element of %s" % self.name(it)
        out.update(self.counters(S))
        for l, ds in self.defs.items():
            ins = [(b, d) for b, d in ds if b in S]
            if ins and len(ds) > len(ins) and not self.lent(l, S) and all(self.descends(l, d) for b, d in ins):
                out.update({b: "goes to a part of %s" % self.name(l) for b, _ in ins})
        return out

    def lent(self, l, S):
        return any(st[0] == "=" and st[2][0] in ("ref", "addr") and st[2][1] in ("m", True) and st[2][2][0] == l for b in S for st in self.f.blocks[b][0])

    def descends(self, l, d, strict=False, depth=0):
        """the definition is a strict part of l: a field of what it refers to, or what is left of a string without a prefix"""
        if depth > 14:
            return False
        if d[0] in ("ref", "use"):
            op = ["c", d[2]] if d[0] == "ref" else d[1]
            if d[0] == "ref" and d[1] == "m" or op[0] not in ("c", "m"):
                return False
            return self.descends_place(l, op[1], strict, depth)
        if d[0] == "cast" and d[2][0] in ("c", "m"):
            return self.descends_place(l, d[2][1], strict, depth)
        if d[0] == "call" and d[2]:
            n = last(d)[0]
            if n in ("deref", "as_ref", "as_str", "borrow", "as_deref", "branch", "trim", "trim_start", "trim_end"):
                return d[2][0][0] in ("c", "m") and self.descends_place(l, d[2][0][1], strict, depth)
            if n in ("strip_prefix", "strip_suffix", "split_once", "rsplit_once") and len(d[2]) == 2:
                v = d[2][1][1].get("v") if d[2][1][0] == "k" else None
                if v and (v[0] == "char" or v[0] == "str" and v[1]):
                    return d[2][0][0] in ("c", "m") and self.descends_place(l, d[2][0][1], True, depth)
            if n in ("split_first", "split_last"):
                return d[2][0][0] in ("c", "m") and self.descends_place(l, d[2][0][1], True, depth)
        return False

    def descends_place(self, l, pl, strict, depth):
        x, ps = pl
        # the payload of an option or of a control flow is not a part yet: what it was taken from decides
        if x == l:
            return strict or any(isinstance(e, list) and e[0] == "f" for e in ps)
        ds = self.defs.get(x, [])
        return len(ds) == 1 and self.descends(l, ds[0][1], strict, depth + 1)

    def refilled(self, it, S, but):
        """something in S other than the step itself may add elements"""
        for b in S:
            t = self.f.blocks[b][1]
            if b != but and t[0] == "call" and t[2] and self.root(t[2][0]) == it and last(t)[0] not in {"len", "is_empty", "last", "first", "clone", "iter"} | NEXT:
                return True
        return False

    def name(self, loc):
        l = loc[0] if isinstance(loc, tuple) else loc
        for n, p in self.f.names:
            if p[0] == l and not p[1]:
                return "`%s`" % n
        return "an iterator"

    def const(self, op):
        if op[0] == "k":
            v = op[1].get("v")
            if v and v[0] == "int":
                return int(v[1])
        return None

    def copy_of(self, op, depth=0):
        """the variable an operand is a copy of"""
        if op[0] not in ("c", "m") or [p for p in op[1][1] if p != "*"] or depth > 8:
            return None
        l = op[1][0]
        ds = self.defs.get(l, [])
        if len(ds) == 1 and ds[0][1][0] == "use":
            r = self.copy_of(ds[0][1][1], depth + 1)
            return l if r is None else r
        return l

    def delta(self, l, b, d):
        """+1 / -1 when the definition moves l up / down by a constant"""
        if d[0] == "use" and d[1][0] in ("c", "m"):
            src, ps = d[1][1]
            ds = self.defs.get(src, [])
            if len(ds) == 1:
                e = ds[0][1]
                if e[0] == "cbin" and ps and ps[0][:2] == ["f", 0]:
                    d = e
                elif not ps:
                    return self.delta(l, b, e)
        if d[0] in ("cbin", "bin") and d[1].rstrip("_").replace("WithOverflow", "") in ("Add", "Sub", "AddUnchecked", "SubUnchecked"):
            k = self.const(d[3])
            if self.copy_of(d[2]) == l and k is not None and k > 0:
                return 1 if d[1].startswith("Add") else -1
            k = self.const(d[2])
            if d[1].startswith("Add") and self.copy_of(d[3]) == l and k is not None and k > 0:
                return 1
        if d[0] == "call" and last(d)[0] in ("saturating_add", "saturating_sub") and len(d[2]) == 2:
            k = self.const(d[2][1])
            if self.copy_of(d[2][0]) == l and k is not None and k > 0:
                return 1 if last(d)[0] == "saturating_add" else -1
        return 0

    def invariant(self, op, S):
        if op[0] == "k":
            return True
        if op[0] not in ("c", "m"):
            return False
        l = op[1][0]
        ds = [d for b, d in self.defs.get(l, []) if b in S]
        if not ds:
            return not self.mutated(l, S)
        if len(ds) == 1:
            d = ds[0]
            if d[0] == "use":
                return self.invariant(d[1], S)
            if d[0] == "ref":
                return self.invariant(["c", d[2]], S)
            if d[0] == "len":
                return self.invariant(["c", d[1]], S)
            if d[0] == "un":
                return self.invariant(d[2], S)
            if d[0] == "cast":
                return self.invariant(d[2], S)
            if d[0] in ("bin", "cbin"):
                return self.invariant(d[2], S) and self.invariant(d[3], S)
            if d[0] == "call" and last(d)[0] in ("len", "count", "deref", "as_str", "as_bytes", "as_slice") and d[2]:
                return self.invariant(d[2][0], S)
        return False

    def mutated(self, l, S):
        for b in S:
            for st in self.f.blocks[b][0]:
                if st[0] == "=" and st[1][0] == l:
                    return True
                if st[0] == "=" and st[2][0] == "ref" and st[2][1] == "m" and st[2][2][0] == l:
                    return True
        return False

    def counters(self, S):
        out = {}
        for l, ds in self.defs.items():
            ins = [(b, d) for b, d in ds if b in S]
            if not ins:
                continue
            dirs = [self.delta(l, b, d) for b, d in ins]
            if 0 in dirs or len(set(dirs)) != 1:
                continue
            if any(st[0] == "=" and st[2][0] == "ref" and st[2][1] == "m" and st[2][2][0] == l for b in S for st in self.f.blocks[b][0]):
                continue
            tests = set()
            for b in S:
                u = self.f.blocks[b][1]
                if u[0] != "switch" or u[1][0] not in ("c", "m"):
                    continue
                c = self.copy_of(u[1])
                cd = [d for x, d in self.defs.get(c, []) if x in S]
                if len(cd) != 1 or cd[0][0] != "bin" or cd[0][1] not in CMP:
                    continue
                op, x, y = cd[0][1:4]
                way = CMP[op]
                if self.copy_of(y) == l:
                    x, y, way = y, x, -way
                if self.copy_of(x) != l or not self.invariant(y, S):
                    continue
                # the target taken while the comparison does not hold / holds
                no = [t for v, t in u[2] if v == "0"]
                no = no[0] if no else None
                yes = u[3]
                if way == dirs[0] and no is not None and no not in S:
                    tests.add(b)
                elif way == -dirs[0] and yes not in S:
                    tests.add(b)
                elif way == 0 and (op == "Ne" and no is not None and no not in S or op == "Eq" and yes not in S) \
                        and (dirs[0] < 0 and self.const(y) == 0):
                    tests.add(b)
            steps = {b for b, _ in ins}
            if tests and not any(c & steps for c in sccs(S - tests, lambda b: self.succ[b])):
                out.update({b: "moves %s towards its bound" % self.name(l) for b in steps})
        return out

    # -- repetition without progress
    def stuck(self, S, limit=400):
        """a cycle after which everything its decisions depend on is as before"""
        for h in sorted(S):
            paths, todo = 0, [(h, (h,))]
            while todo and paths < limit:
                b, path = todo.pop()
                for s in self.succ[b]:
                    if s == h:
                        paths += 1
                        if not self.carried(path):
                            return path
                    elif s in S and s > h and s not in path:
                        todo.append((s, path + (s,)))
        return None

    def unchanging(self, path):
        """references a set is left unchanged through on the path: what was to be inserted is in it, what was to be removed is not"""
        out = set()
        for i, b in enumerate(path):
            t = self.f.blocks[b][1]
            n, d = last(t)
            if n not in ("insert", "remove") or not any(x in d["path"] for x in ("::BTreeSet::", "::HashSet::", "collections::btree_set::", "collections::hash_set::")):
                continue
            val = {t[3][0]: True}
            for k, c in enumerate(path[i + 1:], i + 1):
                for st in self.f.blocks[c][0]:
                    if st[0] == "=" and not st[1][1]:
                        q = st[2]
                        neg = q[0] == "un" and q[1] == "Not"
                        x = q[2] if neg else q[1] if q[0] == "use" else None
                        if x is not None and x[0] in ("c", "m") and not x[1][1] and x[1][0] in val:
                            val[st[1][0]] = val[x[1][0]] != neg
                        else:
                            val.pop(st[1][0], None)
                u = self.f.blocks[c][1]
                if u[0] == "switch" and u[1][0] in ("c", "m") and not u[1][1][1] and u[1][1][0] in val:
                    nxt = path[k + 1] if k + 1 < len(path) else path[0]
                    zero = [y for v, y in u[2] if v == "0"]
                    if zero and (nxt == zero[0]) == val[u[1][1][0]] and (nxt == zero[0] or nxt == u[3] or nxt in [y for v, y in u[2]]):
                        out.add(t[2][0][1][0])
                    break
        return out

    def carried(self, path):
        """what an iteration along the path reads from the iteration before"""
        defd, exposed, wrote = set(), set(), set()
        quiet = self.unchanging(path)

        def rd(ls):
            exposed.update(l for l in ls if l not in defd)

        def wr(place):
            l, ps = place
            if ps:
                rd([l] if "*" not in ps else [l])
                for e in ps:
                    if isinstance(e, list) and e[0] == "i":
                        rd([e[1]])
                wrote.add(l)
            else:
                defd.add(l)
                wrote.add(l)
        refs = {}
        for b in path:
            sts, t = self.f.blocks[b]
            for st in sts:
                if st[0] == "=":
                    rd(reads_rv(st[2]))
                    if st[2][0] in ("ref", "addr") and st[2][1] in ("m", True) and not (st[1][0] in quiet and not st[1][1]):
                        wrote.add(st[2][2][0])
                        r = self.root(["c", st[2][2]])
                        if r:
                            wrote.add(r[0])
                    wr(st[1])
                elif st[0] == "sd":
                    wr([st[1][0], [1]])
            if t[0] == "call":
                for a in t[2]:
                    rd(reads_op(a))
                    r = self.root(a)
                    if a[0] in ("c", "m") and a[1][0] in quiet:
                        continue
                    if a[0] in ("c", "m") and last(t)[0] not in PEEKS and any(n in str(self.p.ty(self.f.locals[a[1][0]])) for n in SHARED):
                        wrote.add(a[1][0])
                        exposed.add(a[1][0])
                    if a[0] == "m" and r is not None and "&mut" in str(self.p.ty(self.f.locals[a[1][0]])):
                        wrote.add(r[0])
                if t[1][0] == "op":
                    rd(reads_op(t[1][1]))
                wr(t[3])
            elif t[0] == "switch":
                rd(reads_op(t[1]))
            elif t[0] == "assert":
                rd(reads_op(t[1]))
        return exposed & wrote


def reads_op(o):
    if o[0] not in ("c", "m"):
        return []
    return [o[1][0]] + [e[1] for e in o[1][1] if isinstance(e, list) and e[0] == "i"]


def reads_rv(r):
    k = r[0]
    if k in ("ref", "addr"):
        return reads_op(["c", r[2]])
    if k in ("discr", "len"):
        return reads_op(["c", r[1]])
    out = []
    for x in r[1:]:
        if isinstance(x, list) and x:
            if x[0] in ("c", "m", "k"):
                out += reads_op(x)
            elif isinstance(x[0], list):
                for y in x:
                    if y and y[0] in ("c", "m"):
                        out += reads_op(y)
    return out


def check_loops(ctx, b, skip=()):
    p = ctx.prog(b)
    n = 0
    for f in sorted(p.fns.values(), key=lambda f: f.key):
        if not f.crate.startswith("subweight") or f.npath in skip:
            continue
        lp = Loops(p, f)
        for blk in lp.live:
            name, d = last(f.blocks[blk][1])
            if name in WHOLE and d["path"].startswith("std::iter::") and d["args"] and lp.endless(d["args"][0]):
                ctx.ob("everything is taken from finite collections only", False, f, "line %s: %s of an endless iterator" % (f.blocks[blk][1][5], name))
        todo = [(S, 0) for S in lp.all()]
        seen_head = 0
        while todo:
            S, depth = todo.pop()
            line = min([f.blocks[x][1][5] for x in S if f.blocks[x][1][0] == "call"] or [f.line])
            steps = lp.steps(S)
            if steps:
                rest = sccs(S - set(steps), lambda x: lp.succ[x])
                if not rest:
                    ctx.ob("every loop works towards its end", True, f, "line %s: %s" % (line, "; ".join(sorted(set(steps.values())))))
                todo += [(R, depth + 1) for R in rest]
                if rest:
                    seen_head += 1
                continue
            path = lp.stuck(S)
            if path is not None:
                ctx.ob("every loop works towards its end", False, f,
                       "line %s: an iteration through the blocks %s leaves everything it depends on as it was and is repeated forever" % (line, list(path)))
            else:
                ctx.ob("every loop works towards its end", None, f, "line %s: no step towards an end was recognised" % line)
        n += 1
        ctx.analysed[f.path] = {"rows": len(f.blocks), "file": f.file, "line": f.line, "steps": len(lp.live)}


# ---------------------------------------------------------------- recursion
def part(t, names):
    """(parameter, strict) when t is a part of a parameter"""
    strict = False
    while True:
        if t.op == "param":
            return (str(t.a[0]), strict) if str(t.a[0]) in names else None
        if t.op == "fld":
            strict, t = True, t.a[0]
        elif t.op in ("elem", "found", "idx"):
            strict, t = True, t.a[0]
        else:
            return None


def edges(ctx, p, comp):
    """calls between the functions of a component: caller, callee, arguments, row"""
    names = {f.npath for f in comp}
    out = []
    for f in comp:
        outs = ctx.outs(f, opaque=names)
        if outs is None:
            return None
        seen = set()
        for o in outs:
            for root in list(o.st.facts) + [o.val or UNIT] + list(o.st.eff) + list(o.st.store.values()):
                for t in subterms(root):
                    if t.op in ("call", "eff") and str(t.a[0]) in names and (t, id(o)) not in seen:
                        seen.add((t, id(o)))
                        out.append((f, str(t.a[0]), tuple(t.a[1:]), o))
    return out


def check_recursion(ctx, b):
    p = ctx.prog(b)
    ours = {k: f for k, f in p.fns.items() if f.crate.startswith("subweight")}
    g = {}
    for k, f in ours.items():
        g[k] = set()
        for bl in f.blocks:
            t = bl[1]
            if t[0] == "call" and t[1][0] == "fn" and t[1][1].get("key") in ours:
                g[k].add(t[1][1]["key"])
            for st in bl[0]:
                if st[0] == "=" and st[2][0] == "agg" and st[2][1] == "clo":
                    for k2, f2 in ours.items():
                        if f2.npath.startswith(f.npath + "::{closure"):
                            g[k].add(k2)
    comps = sccs(set(g), lambda k: g[k])
    done = set()
    for c in sorted(comps, key=lambda c: min(ours[k].npath for k in c)):
        comp = [ours[k] for k in c if "{closure" not in ours[k].npath]
        ident = tuple(sorted({f.npath for f in comp}))
        one = {}
        for f in comp:
            one.setdefault(f.npath, f)
        if ident in done:
            continue
        done.add(ident)
        judge(ctx, p, list(one.values()))


def params(ctx, p, f):
    e = engine.Eng(p)
    return [e.argname(f, i + 1) for i in range(f.nargs)]


def judge(ctx, p, comp):
    clause = "every recursion works on a part of what its caller was given"
    es = edges(ctx, p, comp)
    if es is None:
        return
    by = {f.npath: f for f in comp}
    pn = {f.npath: [str(x) for x in params(ctx, p, f)] for f in comp}
    if not es:
        return ctx.ob(clause, None, comp[0], "no recursive call was recognised in the value flow of %s" % ", ".join(sorted(by)))
    # an unchanged repetition: the arguments are what they were, so every fact of the row holds again
    for f, h, args, o in es:
        if h != f.npath:
            continue
        mine = [T("param", n) for n in pn[h]]
        here = [unref(a) for a in args]
        if len(here) != len(mine):
            continue
        if all(a is m for a, m in zip(here, mine)) and clean_row(o, set(by)):
            return ctx.ob(clause, False, f, "calls itself with the arguments it was called with when %s" % show_facts(o))
        if returns_to(mine, here, o, set(by)):
            return ctx.ob(clause, False, f, "calls itself with %s, which leads back to where it started, when %s" % (", ".join(str(a) for a in here)[:200], show_facts(o)))
    rel = []
    for f, h, args, o in es:
        r = {}
        for i, a in enumerate(args):
            q = part(unref(a), set(pn[f.npath]))
            if q is not None:
                r[i] = q
        rel.append((f.npath, h, r, args))
    names = sorted(by)
    for choice in itertools.product(*[range(len(pn[n])) for n in names]):
        m = dict(zip(names, choice))
        equal, good = set(), True
        for a, h, r, _ in rel:
            q = r.get(m[h])
            if q is None or q[0] != pn[a][m[a]]:
                good = bounded(ctx, p, a, h, _) and good
                if not good:
                    break
            elif not q[1]:
                equal.add((a, h))
        if good and not sccs(set(names), lambda n: [h for a, h in equal if a == n]):
            for n in names:
                ctx.ob(clause, True, by[n], "parameter `%s`" % pn[n][m[n]])
            return
    w = [(a, h, args) for a, h, r, args in rel if not any(s for _, s in r.values())]
    ctx.ob(clause, None, comp[0], "no parameter was found that every call takes a part of; %s" % "; ".join(
        "%s calls %s(%s)" % (a, h, ", ".join(str(x) for x in args)) for a, h, args in w[:3])[:400])


def returns_to(mine, args, o, extra):
    """repeating the call a few times gives the first arguments again, and one input meets the row's facts every time"""
    extra = set(extra) | set(ORDER)
    if not clean_row(o, extra) or not all(spec.clean(a, frozenset(extra)) for a in args):
        return False
    cur, facts, before = list(mine), {}, []
    for k in range(4):
        before.append(cur)
        m = dict(zip(mine, cur))
        for key, w in o.st.facts.items():
            nk, w = ordered(project(subst(key, m)), w)
            if nk.op == "disc" and nk.a[0].op == "adt":
                if (w[0] == "=") != (I(nk.a[0].a[1]) is w[1] if w[0] == "=" else I(nk.a[0].a[1]) in w[1]):
                    return False
                continue
            if w[0] == "=":
                if not engine.assume(facts, nk, w[1], True):
                    return False
            elif not all(engine.assume(facts, nk, x, False) for x in w[1]):
                return False
        cur = [unref(project(subst(a, m))) for a in args]
        if any(all(c is x for c, x in zip(cur, b)) for b in before):
            # an order is not symmetric
            less = {k.a: w for k, w in facts.items() if k.op == "lt" and w == ("=", TRUE)}
            return not any((b, a) in less for a, b in less)
    return False


ORDER = {"std::cmp::PartialOrd::" + n: k for n, k in (("lt", (0, 1, False)), ("gt", (1, 0, False)), ("ge", (0, 1, True)), ("le", (1, 0, True)))}


def ordered(t, w):
    """comparisons of values of the derived order, in terms of less-than"""
    if t.op == "call" and t.a[0] in ORDER and w[0] == "=" and w[1] in (TRUE, FALSE):
        i, j, no = ORDER[t.a[0]]
        return T("lt", t.a[1 + i], t.a[1 + j]), ("=", B((w[1] is TRUE) != no))
    return t, w


def project(t):
    """fields of constructed values"""
    if not isinstance(t, Term) or not t.a:
        return t
    a = [project(x) if hasattr(x, "op") else x for x in t.a]
    if t.op == "fld" and a[0].op == "adt" and a[0].a[1] == a[1] and 2 + a[2] < len(a[0].a):
        return a[0].a[2 + a[2]]
    if t.op in ("ref", "box"):
        return a[0]
    return T(t.op, *a)


def unref(t):
    while t.op in ("ref", "deref", "box"):
        t = t.a[0]
    return t


def show_facts(o):
    return ", ".join("%s %s %s" % (k, w[0], w[1]) for k, w in list(o.st.facts.items())[:6])[:300]


def clean_row(o, extra):
    return all(spec.clean(k, frozenset(extra)) for k in o.st.facts)


def bounded(ctx, p, a, h, args):
    """evaluation follows a variable to what the scope binds it to: bindings are closed terms (decided below)"""
    if a == h and a.endswith("Term::eval") and len(args) >= 1:
        t = unref(args[0])
        while t.op == "fld":
            t = t.a[0]
        return t.op == "call" and t.a[0] == "map_get" and t.a[1] is not None
    return False


def binders(p):
    """functions that put a given value into a scope: (function, index of the value)"""
    out = []
    for f in p.fns.values():
        if f.crate.startswith("subweight") and "scope::Scope" in f.npath and "{closure" not in f.npath:
            for bl in f.blocks:
                n, d = last(bl[1])
                if n == "insert" and len(bl[1][2]) == 3:
                    out.append((f, bl[1][2][2]))
    return out


def closed(p, lp, op, depth=0):
    """the operand is a term without variables, in every call: True or None"""
    if depth > 6:
        return None
    f = lp.f
    if op[0] == "k" or op[1][1]:
        return None
    l = op[1][0]
    ds = lp.defs.get(l, [])
    if not ds and 1 <= l <= f.nargs:
        res, some = True, False
        for g in p.fns.values():
            if not g.crate.startswith("subweight"):
                continue
            for bl in g.blocks:
                n, d = last(bl[1])
                if d and d.get("rpath", d["path"]).split("::")[-1] == f.npath.split("::")[-1] and d.get("key") in p.fns and p.fns[d["key"]].npath == f.npath:
                    some = True
                    res = res and closed(p, Loops(p, g), bl[1][2][l - 1], depth + 1)
        return res if some else True
    if not ds:
        return None
    for b, d in ds:
        if d[0] == "agg" and d[1] == "adt" and str(d[3]).endswith("::Term") and d[4] in (0, 1):
            continue
        if d[0] == "use" and closed(p, lp, d[1], depth + 1):
            continue
        if d[0] == "call" and last(d)[0] in ("clone", "into", "from") and d[2] and closed(p, lp, ["c", [(lp.root(d[2][0]) or (-1,))[0], []]], depth + 1):
            continue
        return None
    return True


def check_scopes(ctx, b):
    p = ctx.prog(b)
    for f, v in binders(p):
        lp = Loops(p, f)
        ctx.ob("scopes bind variables to numbers, so that evaluation follows a variable once", closed(p, lp, v), f, "the bound value is not known to be a number")


@prop("C48", technique="Ranking analysis of every loop (strongly connected components of the control-flow graph, with iterators taken from and counters moved as measures) and structural descent of every recursion (arguments as parts of parameters in the value flow)")
def c48(ctx):
    for b in (CORE, CLI, WEB):
        check_loops(ctx, b)
        check_recursion(ctx, b)
        check_scopes(ctx, b)
