"""Writes properties.jsonl and MANIFEST.json (python3 tools/props.py)."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []
NA = []


def P(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    PROPS.append({"id": id, "title": title, "statement": " ".join(statement.split()),
                  "quantifier": {"over": over, "text": " ".join(text.split())},
                  "why_tests_cant": " ".join(why.split()),
                  "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                              "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                              "observe_at": list(observe), "hook_needed": hook}})


def na(id, reason):
    NA.append({"property": id, "reason": " ".join(reason.split())})


CORE = "core/src/lib.rs"
TERM = "core/src/term.rs"
PAL = "core/src/parse/pallet.rs"

exec(open(os.path.join(ROOT, "tools", "props_text.py")).read())

NOTE = ("Abstract interpretation of the type-checked MIR: every path of the named functions is tabulated as (path condition, "
        "value) over uninterpreted inputs and every row is compared with the specification. Decides all inputs of those functions; "
        "assumes the MIR extraction, the engine's models of std, syn, regex, serde, clap, actix and other library functions and that the specification says what the "
        "property says. A construct the engine cannot interpret is reported as undecided and raises no alarm.")


def main():
    sys.path.insert(0, os.path.join(ROOT, "lib"))
    import check
    sys.modules["check"] = check
    check.load()
    ids = [p["id"] for p in PROPS]
    assert len(set(ids)) == len(ids)
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in sorted(PROPS, key=lambda p: p["id"]):
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    m = {"version": 1, "setup_cmd": "python3 lib/extract.py", "checks": [], "not_applicable": NA,
         "notes": "All checks are static: lib/extract.py compiles /repo with a rustc_private driver that dumps the type-checked MIR of the "
                  "three crates; lib/check.py decides the property on that dump. No code of /repo is run."}
    for p in sorted(PROPS, key=lambda p: p["id"]):
        i = p["id"]
        if i not in check.REG:
            assert any(n["property"] == i for n in NA), i + " has no check and no reason"
            continue
        fn, level, tech, note = check.REG[i]
        m["checks"].append({"property": i, "quick_cmd": "python3 lib/check.py " + i,
                            "thorough_cmd": "python3 lib/check.py --tier thorough " + i,
                            "technique": tech, "level": level, "level_note": note or NOTE})
    json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
    print(len(PROPS), "properties,", len(m["checks"]), "checks,", len(NA), "not applicable")


if __name__ == "__main__":
    main()
