#!/usr/bin/env python3
"""Mutation analysis of the machinery (not a check).

mutate.py list OUT.json             single-token mutants of /repo's non-test code
mutate.py tests IN.json OUT.json    keeps those that build and pass the stable tests
mutate.py smoke IN.json OUT.json    runs a small sample of every driver against each

Works in scratch copies under /tmp/mut."""
import concurrent.futures as cf
import json, os, re, shutil, subprocess, sys, threading

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/mut"


def body(path):
    ls = open(path).read().split("\n")
    for i, x in enumerate(ls):
        if x.startswith("#[cfg(test)]") or x.startswith("mod tests"):
            return ls, i
    return ls, len(ls)


def mutants_of(x):
    """variants of one line"""
    code = x.split("//")[0]
    if not code.strip() or code.strip().startswith(("#", "use ", "///", "pub use", "pub mod", "mod ")):
        return
    def rep(pat, to, tag):
        for m in re.finditer(pat, code):
            y = code[:m.start()] + m.expand(to) + code[m.end():]
            if y != code:
                yield y, tag
    yield from rep(r" == ", " != ", "eq")
    yield from rep(r" != ", " == ", "ne")
    yield from rep(r" < ", " <= ", "lt")
    yield from rep(r" <= ", " < ", "le")
    yield from rep(r" > ", " >= ", "gt")
    yield from rep(r" >= ", " > ", "ge")
    yield from rep(r" < ", " > ", "ltgt")
    yield from rep(r" > ", " < ", "gtlt")
    yield from rep(r" && ", " || ", "and")
    yield from rep(r" \|\| ", " && ", "or")
    yield from rep(r" \+ ", " - ", "plus")
    yield from rep(r" - ", " + ", "minus")
    yield from rep(r" \* ", " / ", "mul")
    yield from rep(r" / ", " * ", "div")
    yield from rep(r" << ", " >> ", "shl")
    yield from rep(r" >> ", " << ", "shr")
    yield from rep(r" \| ", " & ", "bor")
    yield from rep(r" & ", " | ", "band")
    yield from rep(r"\btrue\b", "false", "true")
    yield from rep(r"\bfalse\b", "true", "false")
    yield from rep(r"(?<![\w.])!(?=[\w(])(?!\w+!\()", "", "not")
    yield from rep(r"\.is_empty\(\)", ".len() == 1", "empty")
    yield from rep(r"\.is_some\(\)", ".is_none()", "some")
    yield from rep(r"\.is_none\(\)", ".is_some()", "none")
    for m in re.finditer(r"(?<![\w.])(0x[0-9A-Fa-f_]+|\d+)(?![\w.]*\w|\.\d)", code):
        n = int(m.group(1).replace("_", ""), 0)
        for k in {n + 1, max(0, n - 1)} - {n}:
            yield code[:m.start()] + str(k) + code[m.end():], f"num{n}>{k}"
    for m in re.finditer(r"(?<![\w.])(\d+\.\d+)(?!\w)", code):
        yield code[:m.start()] + str(float(m.group(1)) + 1) + code[m.end():], "float"
    st = code.strip()
    if st.endswith(";") and not st.startswith(("let ", "return", "pub ", "const ", "use ", "static ")) and st.count("(") == st.count(")") and st.count("{") == st.count("}"):
        yield re.match(r"\s*", code).group(0) + ";", "del"
    if st in ("continue;", "break;"):
        yield code.replace(st, ";"), "del"
    # a variant replaced by another of the file is left to the line swaps


def all_mutants():
    out = []
    for dp, _, fs in os.walk("/repo/src"):
        for f in sorted(fs):
            p = os.path.join(dp, f)
            ls, n = body(p)
            rel = os.path.relpath(p, "/repo")
            for i in range(n):
                for y, tag in mutants_of(ls[i]):
                    out.append(dict(file=rel, line=i, new=y, tag=tag))
            # neighbouring match arms exchange their results
            for i in range(n - 1):
                a = re.match(r"(\s*)(\S.*) => (\S.*),$", ls[i])
                b = re.match(r"(\s*)(\S.*) => (\S.*),$", ls[i + 1])
                if a and b and a.group(3) != b.group(3):
                    out.append(dict(file=rel, line=i, new=f"{a.group(1)}{a.group(2)} => {b.group(3)},",
                                    new2=f"{b.group(1)}{b.group(2)} => {a.group(3)},", tag="swap"))
                    out.append(dict(file=rel, line=i, new=f"{a.group(1)}{a.group(2)} => {b.group(3)},", tag="arm"))
    for k, m in enumerate(out):
        m["id"] = k
    return out


def apply(m, repo):
    p = os.path.join(repo, m["file"])
    ls = open(os.path.join("/repo", m["file"])).read().split("\n")
    ls[m["line"]] = m["new"]
    if "new2" in m:
        ls[m["line"] + 1] = m["new2"]
    open(p, "w").write("\n".join(ls))


def undo(m, repo):
    shutil.copy2(os.path.join("/repo", m["file"]), os.path.join(repo, m["file"]))
    os.utime(os.path.join(repo, m["file"]))


class Pool:
    def __init__(self, n, make):
        self.free = [make(i) for i in range(n)]
        self.cv = threading.Condition()

    def get(self):
        with self.cv:
            while not self.free:
                self.cv.wait()
            return self.free.pop()

    def put(self, x):
        with self.cv:
            self.free.append(x)
            self.cv.notify()


def repo_copy(i):
    d = f"{W}/r{i}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    subprocess.run(f"cd /repo && tar cf - --exclude=target --exclude=.git . | tar xf - -C {d}", shell=True, check=True)
    return d


def tests(ms, n):
    stable = set(json.load(open("/opt/vp/BASELINE.json")).get("stable", []) or [])
    pool = Pool(n, repo_copy)

    def one(m):
        d = pool.get()
        try:
            apply(m, d)
            try:
                p = subprocess.run("ulimit -v 8000000; cargo test --offline --lib --quiet 2>&1 | tail -5", shell=True, cwd=d, text=True,
                                   stdout=subprocess.PIPE, timeout=120, executable="/bin/bash")
                ok = "test result: ok" in p.stdout
            except subprocess.TimeoutExpired:
                ok = False
            return m if ok else None
        finally:
            undo(m, d)
            pool.put(d)
    with cf.ThreadPoolExecutor(n) as ex:
        return [m for m in ex.map(one, ms) if m]


SMOKE = [
 ("TraceLink", "link", "sessions=25 cycles=60 coms=2 others=2"),
 ("TraceLink", "link", "sessions=50 start=1 rejects=30"),
 ("TraceHost", "host", "sessions=10 steps=300"),
 ("TraceProduct", "product", "coms=60 mods=6 sessions=10 events=50"),
 ("TraceTwin", "twin", "sessions=15 events=50"),
 ("TraceCoupler", "mixed", "sessions=50 events=25 bad_image=15 bad_value=15 bad_addr=10 writes=40 feedback=50 burst=20"),
 ("TraceCoupler", "build", "n=150"),
 ("TraceCoupler", "chaos", "sessions=100"),
 ("TraceTables", "params", "n=40"),
 ("TraceTables", "scan", "full=1"),
 ("TraceTables", "bits", ""),
 ("TraceTables", "analog", "types=ui step=16"), ("TraceTables", "analog", "types=ui2 step=16"),
 ("TraceTables", "analog", "types=i8 step=16"), ("TraceTables", "analog", "types=rtd step=16"),
 ("TraceTables", "analog", "types=tc step=16"), ("TraceTables", "analog", "types=ao step=16"),
 ("TraceTables", "drive", "n=150"),
 ("TraceTables", "rows", "n=60 bad=30"),
 ("TraceTables", "telegrams", "n=150"),
 ("TraceTables", "ident", "n=8"),
 ("TraceTables", "ids", "full=0"),
 ("TraceTables", "addresses", "n=60"),
 ("TraceTables", "abuse", "n=60"),
 ("TraceTables", "defaults", "n=30 bad=25"),
 ("TraceTables", "images", "n=150 bad=50"),
 ("TraceTables", "hertz", "n=100"),
 ("TraceTables", "keep", "step=64"),
 ("TraceTables", "counts", ""),
 ("TraceStation", "station", "sessions=60 cycles=20"),
 ("TraceSame", "same", "sessions=60 events=50"),
]


def harness_copy(i):
    d = repo_copy(f"s{i}")
    h = f"{W}/h{i}"
    shutil.rmtree(h, ignore_errors=True)
    shutil.copytree(os.path.join(ROOT, "harness"), h)
    t = open(h + "/Cargo.toml").read()
    assert "/repo" in t
    open(h + "/Cargo.toml", "w").write(t.replace("/repo", d))
    return d, h


def smoke(ms, n):
    sys.path.insert(0, ROOT)
    import check
    src = {}
    def aspects(mod):
        s = open(f"{ROOT}/spec/{mod}.tla").read()
        if mod == "TraceStation":
            s += open(f"{ROOT}/spec/TraceCoupler.tla").read()
        al = set(re.findall(r'"([a-z]+(?:\.[a-z]+)*)"', s)) | {"crash"}
        al |= {a + b for a in ("iv.", "ov.", "dec.", "row.", "com.", "mod.") for b in
               ("com", "analog", "digital", "count", "alone", "inputs", "outputs", "image")}
        return al
    pool = Pool(n, harness_copy)

    def run(h, k, cmd, args):
        out = f"{h}/t{k}.nd"
        try:
            p = subprocess.run(["bash", "-c", "ulimit -v 12000000; exec \"$@\"", "x", f"{h}/target/debug/ur20h", cmd, "seed=1", f"out={out}"] + args.split(),
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=100)
            return out, p.returncode
        except subprocess.TimeoutExpired:
            return out, -1

    def one(m):
        d, h = pool.get()
        try:
            apply(m, d)
            p = subprocess.run(["cargo", "build", "--offline", "--locked", "--quiet"], cwd=h, text=True,
                               env=dict(os.environ, CARGO_TARGET_DIR=h + "/target"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if p.returncode:
                return dict(m, by="nobuild")
            jobs = SMOKE
            f = m["file"]
            if "1com" not in f and "fbc" not in f:
                jobs = SMOKE[3:] + SMOKE[:3]
            for k, (mod, cmd, args) in enumerate(jobs):
                nd, rc = run(h, k, cmd, args)
                if rc:
                    return dict(m, by=f"{cmd} died {rc}")
                cfg = f"{h}/t{k}.cfg"
                open(cfg, "w").write(f"SPECIFICATION {'SSpec' if mod == 'TraceStation' else 'Spec'}\n" "CONSTANT Checks = {%s}\nINVARIANT Conforms\nPOSTCONDITION Consumed\nALIAS Shown\nCHECK_DEADLOCK FALSE\n"
                                     % ",".join(f'"{c}"' for c in sorted(aspects(mod))))
                rc, out = check.tlc(mod, cfg, 1, f"{h}/meta", {"TRACE": nd}, 300)
                shutil.rmtree(f"{h}/meta", ignore_errors=True)
                if rc not in (0, 12):
                    print("ERROR", m["id"], mod, cmd, rc, out[-300:], flush=True)
                if rc:
                    bad = re.findall(r"/\\ bad = (\{[^}]*\})", out)
                    return dict(m, by=f"{cmd} {rc} {bad[-1] if bad else ''}")
            return dict(m, by=None)
        finally:
            undo(m, d)
            pool.put((d, h))
    res = []
    with cf.ThreadPoolExecutor(n) as ex:
        for k, r in enumerate(ex.map(one, ms)):
            res.append(r)
            if not r["by"]:
                print("SURVIVES", r["id"], r["file"], r["line"] + 1, r["tag"], r["new"].strip()[:120], flush=True)
    return res


if __name__ == "__main__":
    os.makedirs(W, exist_ok=True)
    n = int(os.environ.get("N", "6"))
    if sys.argv[1] == "list":
        ms = all_mutants()
        json.dump(ms, open(sys.argv[2], "w"))
        print(len(ms))
    else:
        ms = json.load(open(sys.argv[2]))
        r = (tests if sys.argv[1] == "tests" else smoke)(ms, n)
        json.dump(r, open(sys.argv[3], "w"))
        print(len(ms), "->", len(r), sum(1 for x in r if not x.get("by")))
