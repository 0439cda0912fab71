"""Call sites in the MIR of the project's own functions."""


def project(prog):
    return [f for f in prog.fns.values() if f.crate.startswith("subweight") and not f.shim]


def refs(o):
    """callee references anywhere in a MIR fragment (called or passed as a value)"""
    if isinstance(o, dict):
        if "path" in o and "rpath" in o:
            yield o
        for v in o.values():
            yield from refs(v)
    elif isinstance(o, list):
        for v in o:
            yield from refs(v)


def sites(prog):
    """(function, callee path) for every callee the project's functions refer to"""
    for f in project(prog):
        seen = set()
        for r in refs(f.blocks):
            for p in {r["path"], r.get("rpath") or r["path"]}:
                if p not in seen:
                    seen.add(p)
                    yield f, p


def calling(prog, pred):
    """the project's functions with a direct reference to a callee for which pred(path) holds"""
    out = []
    for f, p in sites(prog):
        if pred(p) and f not in out:
            out.append(f)
    return out
