"""Development aid: plants bugs described in a Python file (list BUGS of dicts) in a scratch copy, confirms them and stores
those confirmed under seeded/.   python3 tools/bug.py FILE [id...]

Each: dict(id, prop, needs, breaks, edits=[(file, old, new)], rust="body of main" | sh="script")"""
import json, os, shutil, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = os.environ.get("BUG_W", "/tmp/bugw")
BASE = json.load(open("/opt/vp/BASELINE.json"))

DEMO = r'''#!/bin/bash
# Builds a small program against the crate in the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=1.80.0 CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_TERM_COLOR=never
export CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_TARGET_DIR=$repo/target/demo
d=$(mktemp -d)
mkdir -p "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
cp "$repo/Cargo.lock" "$d/"
cat > "$d/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
subweight-core = { path = "$repo/core" }
[workspace]
EOF
cd "$d" && cargo run -q --offline > "$d/log" 2>&1
rc=$?
tail -n 5 "$d/log"
exit $rc
'''

HEAD = r'''#![allow(unused)]
use subweight_core::{*, parse::{*, pallet::*, storage, overhead}, scope::*, term::*};
use std::collections::*;

/// A weight file of one pallet with the given `(name, arguments, body)` functions.
fn file(fns: &[(&str, &str, &str)]) -> String {
    let mut s = String::from("pub struct WeightInfo<T>(PhantomData<T>);\nimpl<T: frame_system::Config> my::WeightInfo for WeightInfo<T> {\n");
    for (n, a, b) in fns {
        let docs: String = a.split(',').filter(|x| x.contains('[')).map(|x| {
            let (v, r) = x.split_once('[').unwrap();
            format!("/// The range of component `{}` is `[{}`.\n", v.trim(), r.trim().replace(';', ","))
        }).collect();
        let args: String = a.split(',').filter(|x| !x.trim().is_empty()).map(|x| format!("{}: u32, ", x.split('[').next().unwrap().trim())).collect();
        s += &format!("{docs}fn {n}({args}) -> Weight {{\n{b}\n}}\n");
    }
    s + "}\n"
}
fn parse(pallet: &str, fns: &[(&str, &str, &str)]) -> Vec<ChromaticExtrinsic> {
    parse_content(pallet.into(), file(fns)).unwrap()
}
fn params(method: CompareMethod, unit: Dimension) -> CompareParams {
    CompareParams { method, unit, git_pull: false, ignore_errors: false, offline: true, git_force: false }
}
fn filter() -> FilterParams { FilterParams { threshold: 0.0, change: None, extrinsic: None, pallet: None } }

fn main() {
'''


def sh(cmd, env=None, cwd=None, timeout=900):
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=e, cwd=cwd, timeout=timeout)
    return p.returncode, p.stdout


def prepare():
    if not os.path.exists(W + "/repo"):
        os.makedirs(W, exist_ok=True)
        sh("cp -a /repo %s/repo" % W)
    sh("git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD && git clean -fdq", cwd=W + "/repo")
    for n in ("build.sh", "test.sh"):
        s = open("/opt/vp/" + n).read().replace("/repo", W + "/repo").replace("/opt/vp/results.py", "/opt/vp/results.py")
        open(W + "/" + n, "w").write(s)


def demo_files(b, d):
    os.makedirs(d, exist_ok=True)
    if "rust" in b:
        open(d + "/demo.sh", "w").write(DEMO)
        open(d + "/main.rs", "w").write(HEAD + b["rust"] + "\n}\n")
    else:
        open(d + "/demo.sh", "w").write(b["sh"])
        for n, t in b.get("files", {}).items():
            open(d + "/" + n, "w").write(t)
    os.chmod(d + "/demo.sh", 0o755)


def one(b, check_only=False):
    R = W + "/repo"
    sh("git checkout -q -- . && git clean -fdq", cwd=R)
    dd = W + "/demo-" + b["id"]
    demo_files(b, dd)
    if not b.get("trusted"):
        rc, out = sh("bash %s/build.sh" % W)
        rc, out = sh("timeout 300 bash %s/demo.sh" % dd, cwd=R)
        if rc != 0:
            return "DEMO FAILS ON BASE\n" + out[-1500:]
    for f, old, new in b["edits"]:
        p = R + "/" + f
        s = open(p).read()
        if s.count(old) != 1:
            return "EDIT not unique (%d): %s" % (s.count(old), old[:80])
        open(p, "w").write(s.replace(old, new))
    rc, out = sh("bash %s/build.sh" % W)
    if rc != 0:
        return "DOES NOT BUILD\n" + out[-1800:]
    rc, out = sh("bash %s/test.sh %s/out.json" % (W, W))
    res = json.load(open(W + "/out.json"))
    stable = BASE["stable"]
    got = set(res.get("passed", []))
    miss = [t for t in stable if t not in got] if isinstance(stable, list) else []
    if miss:
        return "TESTS CATCH IT: %s" % miss[:4]
    rc, out = sh("timeout 300 bash %s/demo.sh" % dd, cwd=R)
    if rc == 0:
        return "DEMO DOES NOT FAIL"
    d = ROOT + "/seeded/" + b["id"]
    os.makedirs(d, exist_ok=True)
    demo_files(b, d)
    rc, diff = sh("git diff", cwd=R)
    open(d + "/patch.diff", "w").write(diff)
    json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    rc, out = sh("python3 lib/check.py %s 2>&1 | cut -c1-500 | tail -4" % b["prop"], cwd=ROOT, env={"SWC_REPO": R, "SWC_BUILD": W + "/facts"})
    return ("CAUGHT " if "VIOLATION property=" + b["prop"] in out else "MISSED ") + out[-900 if "VIOLATION" not in out else -100:]


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    prepare()
    for b in ns["BUGS"]:
        if len(sys.argv) > 2 and b["id"] not in sys.argv[2:]:
            continue
        print("==", b["id"], one(b), flush=True)
    sh("git checkout -q -- .", cwd=W + "/repo")


main()
