#!/usr/bin/env python3
"""plant.py make [ID...]   write seeded/<id>/ from tools/plants/*.py and confirm each in a scratch copy:
                         applies, builds, passes the stable tests, demo 0 without and nonzero with it.
   plant.py run [ID...]    run the quick check of each planted bug's property against /repo with it
Not used by any check."""
import concurrent.futures as cf, glob, importlib.util, json, os, shutil, subprocess, sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCR = "/tmp/plant"

DEMO_SH = """#!/bin/bash
# Builds demo.rs against the crate in the current directory, in a scratch folder.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d) || exit 99
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here/demo.rs" "$d/src/main.rs"
cat > "$d/Cargo.toml" <<END
[package]
name = "demo"
version = "0.1.0"
edition = "2024"
[dependencies]
ur20 = { path = "$repo" }
[workspace]
END
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$d/Cargo.lock"
cd "$d" || exit 99
CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$d/target" cargo run --offline --quiet
"""

PRELUDE = open(os.path.join(ROOT, "tools/plants/prelude.rs")).read()


def load():
    out = {}
    for f in sorted(glob.glob(os.path.join(ROOT, "tools/plants/*.py"))):
        s = importlib.util.spec_from_file_location("p", f)
        m = importlib.util.module_from_spec(s)
        s.loader.exec_module(m)
        for p in m.PLANTS:
            assert p["id"] not in out, p["id"]
            out[p["id"]] = p
    return out


def sh(cmd, cwd=None, env=None, timeout=600):
    p = subprocess.run(cmd, shell=True, cwd=cwd, text=True, timeout=timeout, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return p.returncode, p.stdout


ENV = {"HOME": "/root", "PATH": "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:" + os.environ["PATH"],
       "RUSTUP_TOOLCHAIN": "stable-x86_64-unknown-linux-gnu", "CARGO_NET_OFFLINE": "true",
       "CARGO_TERM_COLOR": "never", "RUSTC_WRAPPER": "", "CARGO_PROFILE_DEV_DEBUG": "line-tables-only"}


def make(p, slot):
    d = f"{SCR}/{slot}"
    if not os.path.exists(d):
        os.makedirs(SCR, exist_ok=True)
        sh(f"cp -a /repo {d}")
    sh("git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD", cwd=d)
    for f, old, new in p["edits"]:
        path = f"{d}/src/{f}"
        s = open(path).read()
        if s.count(old) != 1:
            return p["id"], f"edit matches {s.count(old)} times in {f}: {old[:60]!r}"
        open(path, "w").write(s.replace(old, new))
    _, diff = sh("git diff", cwd=d)
    sd = f"{ROOT}/seeded/{p['id']}"
    os.makedirs(sd, exist_ok=True)
    open(f"{sd}/patch.diff", "w").write(diff)
    open(f"{sd}/demo.sh", "w").write(DEMO_SH)
    os.chmod(f"{sd}/demo.sh", 0o755)
    open(f"{sd}/demo.rs", "w").write(PRELUDE + "\n" + p["demo"].strip() + "\n")
    json.dump({"property": p["property"], "needs": p["needs"], "what_it_breaks": p["breaks"]},
              open(f"{sd}/meta.json", "w"), indent=1)

    def fail(why):
        shutil.rmtree(sd)
        sh("git checkout -q -- .", cwd=d)
        return p["id"], why
    base = set(json.load(open("/opt/vp/BASELINE.json")).get("tests", [])) if False else None
    rc, out = sh("cargo test --workspace --no-fail-fast --offline -- --test-threads 4", cwd=d, env=ENV)
    if rc:
        bad = [x for x in out.splitlines() if "FAILED" in x or x.startswith("error")]
        return fail("tests: " + " | ".join(bad[:8]) or out[-300:])
    rc1, out1 = sh(f"bash {sd}/demo.sh", cwd=d, env=ENV)
    sh("git checkout -q -- .", cwd=d)
    rc0, out0 = sh(f"bash {sd}/demo.sh", cwd=d, env=ENV)
    if rc0 != 0:
        return fail("demo fails unchanged: " + out0[-600:])
    if rc1 == 0:
        return fail("demo passes with the change")
    if "could not compile" in out1:
        return fail("demo does not compile: " + out1[-600:])
    return p["id"], "kept"


def main():
    ps = load()
    what, ids = sys.argv[1], sys.argv[2:] or list(ps)
    if what == "make":
        slots = list(range(4))
        import queue
        q = queue.Queue()
        [q.put(s) for s in slots]

        def one(i):
            s = q.get()
            try:
                return make(ps[i], s)
            except Exception as e:
                return i, repr(e)
            finally:
                q.put(s)
        with cf.ThreadPoolExecutor(4) as ex:
            for i, why in ex.map(one, ids):
                print(f"{i}: {why}", flush=True)
    elif what == "run":
        for i in ids:
            sd = f"{ROOT}/seeded/{i}"
            if not os.path.exists(sd):
                print(i, "not kept")
                continue
            prop = json.load(open(f"{sd}/meta.json"))["property"]
            props = [prop] + ps[i].get("also", [])
            rc, out = sh(f"git apply {sd}/patch.diff", cwd="/repo")
            assert rc == 0, out
            try:
                for c in props:
                    rc, out = sh(f"{ROOT}/check.py {c} quick", cwd=ROOT, timeout=1000)
                    line = [x for x in out.splitlines() if "VIOLATION" in x or "aspect" in x][:1]
                    print(i, c, "exit", rc, line[0][:150] if line else "", flush=True)
            finally:
                sh("git checkout -q -- .", cwd="/repo")


main()
