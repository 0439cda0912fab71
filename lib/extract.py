"""Builds the MIR facts of /repo's current tree (content-addressed; never from a stale build)."""
import fcntl, glob, hashlib, json, os, shutil, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SWC_REPO", "/repo")
BUILD = os.environ.get("SWC_BUILD", os.path.join(VERIF, ".build"))
RUSTUP = os.environ.get("RUSTUP_HOME", "/root/.rustup")
NIGHTLY = os.path.join(RUSTUP, "toolchains/nightly-x86_64-unknown-linux-gnu")
CARGO_TC = "1.80.0"
CRATES = ("subweight_core-lib", "subweight-bin", "subweight_web-bin")


class ExtractError(Exception):
    pass


def src_files(repo=REPO):
    out = []
    for base, dirs, files in os.walk(repo):
        rel = os.path.relpath(base, repo)
        if rel == ".":
            dirs[:] = [d for d in dirs if d not in (".git", "target", "test_data", "node_modules")]
        dirs.sort()
        for f in sorted(files):
            p = os.path.join(base, f)
            if os.path.islink(p) or not os.path.isfile(p):
                continue
            out.append(p)
    return out


def tree_hash(repo=REPO):
    h = hashlib.sha256()
    for p in src_files(repo):
        h.update(os.path.relpath(p, repo).encode() + b"\0")
        with open(p, "rb") as f:
            h.update(hashlib.sha256(f.read()).digest())
    for d in (os.path.join(VERIF, "driver", "mirdump.rs"), os.path.abspath(__file__)):
        with open(d, "rb") as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()[:24]


def env():
    e = dict(os.environ)
    e.pop("RUSTFLAGS", None)
    e.update(
        RUSTC=os.path.join(NIGHTLY, "bin/rustc"), RUSTUP_TOOLCHAIN=CARGO_TC, CARGO_NET_OFFLINE="true",
        CARGO_TARGET_DIR=os.path.join(BUILD, "target"), LD_LIBRARY_PATH=os.path.join(NIGHTLY, "lib"),
        CARGO_INCREMENTAL="0", CARGO_TERM_COLOR="never",
        MIRDUMP_RUSTC=os.path.join(NIGHTLY, "bin/rustc"),
    )
    return e


def build_driver():
    src = os.path.join(VERIF, "driver", "mirdump.rs")
    with open(src, "rb") as f:
        h = hashlib.sha256(f.read()).hexdigest()[:16]
    exe = os.path.join(BUILD, "mirdump-" + h)
    if not os.path.exists(exe):
        os.makedirs(BUILD, exist_ok=True)
        tmp = exe + ".tmp%d" % os.getpid()
        r = subprocess.run([os.path.join(NIGHTLY, "bin/rustc"), "--edition", "2021", "-O", "-o", tmp, src],
                           capture_output=True, text=True, env=env())
        if r.returncode != 0:
            raise ExtractError("driver build failed:\n" + r.stderr[-4000:])
        os.rename(tmp, exe)
    return exe


def facts(repo=REPO, quiet=True, release=False):
    """Returns the directory with the dumped facts of the current tree (release: without debug assertions and overflow checks)."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        exe = build_driver()
        h = tree_hash(repo) + ("-release" if release else "")
        dest = os.path.join(BUILD, "facts", h)
        if os.path.exists(os.path.join(dest, "ok")):
            os.utime(dest)
            return dest
        # keep at most a few old fact sets
        old = sorted(glob.glob(os.path.join(BUILD, "facts", "*")), key=os.path.getmtime)
        for d in old[:-12]:
            shutil.rmtree(d, ignore_errors=True)
        tmp = dest + ".tmp"
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        e = env()
        e["RUSTC_WORKSPACE_WRAPPER"] = exe
        e["MIRDUMP_OUT"] = tmp
        if release:
            e.update(CARGO_PROFILE_DEV_DEBUG_ASSERTIONS="false", CARGO_PROFILE_DEV_OVERFLOW_CHECKS="false",
                     CARGO_TARGET_DIR=os.path.join(BUILD, "target-release"))
        # Force the workspace crates through the driver: mtimes are not trusted.
        for d in glob.glob(os.path.join(e["CARGO_TARGET_DIR"], "debug", ".fingerprint", "subweight*")):
            shutil.rmtree(d, ignore_errors=True)
        # build products remember where they were built (OUT_DIR of the template compiler): never reuse moved ones
        stamp = os.path.join(e["CARGO_TARGET_DIR"], "built-at")
        if not os.path.exists(stamp) or open(stamp).read() != e["CARGO_TARGET_DIR"]:
            shutil.rmtree(e["CARGO_TARGET_DIR"], ignore_errors=True)
            os.makedirs(e["CARGO_TARGET_DIR"])
            open(stamp, "w").write(e["CARGO_TARGET_DIR"])
        # the template compiler keeps its output by modification time as well
        for d in glob.glob(os.path.join(e["CARGO_TARGET_DIR"], "debug", "build", "sailfish*", "out", "templates", "*")):
            os.unlink(d)
        r = subprocess.run(["cargo", "check", "--workspace", "--offline", "--lib", "--bins", "--locked"], cwd=repo, env=e,
                           capture_output=True, text=True)
        if r.returncode != 0:
            r2 = subprocess.run(["cargo", "check", "--workspace", "--offline", "--lib", "--bins"], cwd=repo, env=e,
                                capture_output=True, text=True)
            if r2.returncode != 0:
                raise ExtractError("cargo check failed:\n" + r2.stderr[-6000:])
        for c in CRATES:
            if not os.path.exists(os.path.join(tmp, c + ".json")):
                raise ExtractError("no facts for crate %s" % c)
        open(os.path.join(tmp, "ok"), "w").close()
        shutil.rmtree(dest, ignore_errors=True)
        os.rename(tmp, dest)
        return dest


if __name__ == "__main__":
    print(facts())
