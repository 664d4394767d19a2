#!/usr/bin/env python3
"""check.py <property> [quick|thorough]     decide one property
   check.py replay <file>                  look at a recorded violation again
   check.py build                          build the harness only

Exit 0: the property held on everything explored, 1: violated, 2: no answer."""
import concurrent.futures as cf
import fcntl, json, os, re, shutil, subprocess, sys, time

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
import jobs as J  # noqa: E402

BUILD = os.path.join(ROOT, "build")
BIN = os.path.join(BUILD, "target", "debug", "ur20h")
SPEC = os.path.join(ROOT, "spec")
TLA = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CORES = os.cpu_count() or 4


class NoAnswer(Exception):
    pass


def build():
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(BUILD, "target"), CARGO_NET_OFFLINE="true")
        p = subprocess.run(["cargo", "build", "--offline", "--locked", "--quiet"],
                           cwd=os.path.join(ROOT, "harness"), env=env, text=True,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode:
            raise NoAnswer("the harness does not build:\n" + p.stdout[-4000:])


def record(cmd, args, seed, out, limit):
    """Runs a driver.  Returns (argv, None) or (argv, how it died)."""
    argv = [BIN, cmd, f"seed={seed}", f"out={out}"] + [f"{k}={v}" for k, v in args.items()]
    sh = "ulimit -v 12000000; exec \"$@\""
    try:
        p = subprocess.run(["bash", "-c", sh, "x"] + argv, text=True, timeout=limit,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    except subprocess.TimeoutExpired:
        return argv, f"no end within {limit} s"
    if p.returncode == 2:
        raise NoAnswer(f"{' '.join(argv)}: {p.stdout[-500:]}")
    if p.returncode:
        return argv, f"ended with {p.returncode}: {p.stdout[-500:]}"
    return argv, None


def tlc(module, cfg, workers, meta, env, limit, heap="3g", more=()):
    os.makedirs(meta, exist_ok=True)
    argv = ["java", f"-Djava.io.tmpdir={meta}", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", f"-Xmx{heap}", "-Xss64m",
            "-cp", TLA, "tlc2.TLC", "-config", cfg, "-workers", str(workers), "-metadir", meta,
            "-noGenerateSpecTE", *more, f"{module}.tla"]
    try:
        p = subprocess.run(argv, cwd=SPEC, env=dict(os.environ, **env), text=True, timeout=limit,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    except subprocess.TimeoutExpired:
        raise NoAnswer(f"TLC on {module} did not end within {limit} s")
    return p.returncode, p.stdout


def counts(text):
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", text)
    if not m:
        return 0, 0
    return tuple(int(x.replace(",", "")) for x in m[-1])


def work_dir(name):
    d = os.path.join(BUILD, "work", name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    return d


STATE = re.compile(r"^/\\ l = (\d+)\n/\\ bad = (\{[^}]*\})", re.M)


def behaviours(gen, seed, d, limit):
    """Behaviours of the specification, one JSON array per line."""
    module, cfg, num, depth = gen
    # num = 0: those of all states or steps TLC finds, not simulated ones
    rc, out = tlc(module, os.path.join(SPEC, cfg + ".cfg"), 1, os.path.join(d, "gen"), {}, limit,
                  more=["-simulate", f"num={num}", "-depth", str(depth), "-seed", str(seed)] if num else ["-seed", str(seed)])
    got = [json.loads(x[len('<<"BEH", '):-2]) for x in out.splitlines() if x.startswith('<<"BEH", ')]
    m = re.search(r"number of states generated: (\d+)|(\d+) states generated", out.replace(",", "") if not num else out)
    if rc or not got or not m:
        raise NoAnswer(f"{module} generates nothing (TLC exit {rc}):\n{out[-3000:]}")
    path = os.path.join(d, "behaviours.ndjson")
    with open(path, "w") as f:
        f.write("\n".join(got) + "\n")
    return path, len(got), int(m.group(1) or m.group(2))


def trace_job(prop, tag, job, seed, limit):
    """One driver run and the verdict of the trace specification."""
    d = work_dir(f"{prop}-{tag}")
    nd = os.path.join(d, "trace.ndjson")
    args, made = dict(job.args), (0, 0)
    if job.gen:
        args["in"], *made = behaviours(job.gen, seed, d, limit)
    argv, died = record(job.cmd, args, seed, nd, min(limit, 300))
    res = dict(kind="trace", module=job.module, argv=argv, seed=seed, generated=0, distinct=0,
               sessions=0, events=0, violation=None, sample=None, note=None, gen=job.gen,
               behaviours=made[0], behaviour_states=made[1])
    if died:
        res["violation"] = dict(aspects=["crash"], line=0, event=died, session=[])
        return res
    with open(nd) as f:
        lines = f.read().splitlines()
    if not lines:
        raise NoAnswer(f"{' '.join(argv)} recorded nothing")
    res["events"] = len(lines)
    res["sessions"] = sum(1 for x in lines if x.startswith('{"e":"new"')) or 1
    res["sample"] = lines[min(len(lines) - 1, 3)][:600]
    cfg = os.path.join(d, "t.cfg")
    checks = sorted(set(job.checks) | {"crash", "driver"})
    with open(cfg, "w") as f:
        f.write(f"SPECIFICATION {'SSpec' if job.module == 'TraceStation' else 'Spec'}\n" "CONSTANT Checks = {%s}\nINVARIANT Conforms\nPOSTCONDITION Consumed\n"
                "ALIAS Shown\nCHECK_DEADLOCK FALSE\n" % ",".join(f'"{c}"' for c in checks))
    rc, out = tlc(job.module, cfg, 1, os.path.join(d, "meta"), {"TRACE": nd}, limit)
    res["generated"], res["distinct"] = counts(out)

    def session(line):
        a = line
        while a > 1 and not lines[a - 1].startswith('{"e":"new"'):
            a -= 1
            if line - a > 400:
                break
        if not lines[a - 1].startswith('{"e":"new"'):
            a = line
        return a

    if rc == 0:
        if res["distinct"] != len(lines) + 1:
            raise NoAnswer(f"{job.module}: {res['distinct']} states for {len(lines)} events")
    elif rc == 12 or rc in (75, 76) or (rc == 255 and "TLC was evaluating" in out):
        seen = STATE.findall(out)
        if rc == 12:
            line = int(seen[-1][0])
            bad = re.findall(r'"([^"]+)"', seen[-1][1])
            hit = sorted(set(bad) & set(checks))
        else:
            # the specification cannot make sense of the event
            line = min(len(lines), (int(seen[-1][0]) if seen else 0) + 1)
            hit = ["shape"]
            if not seen:
                raise NoAnswer(f"{job.module}: {out[-3000:]}")
        start = session(line)
        if hit == ["driver"] or hit == ["shape"]:
            before = [b for n, b in seen if start <= int(n) < line and b != "{}"]
            if before or hit == ["driver"]:
                if not before:
                    raise NoAnswer(f"{' '.join(argv)}: line {line}: the driver left its own model")
                # lost track after a deviation that is another property's subject
                res["note"] = f"stopped at event {line} after {before[0]}"
                shutil.rmtree(d, ignore_errors=True)
                return res
        hit = [h for h in hit if h != "driver"]
        res["violation"] = dict(aspects=hit, line=line, event=lines[line - 1][:20000],
                                session=[x[:20000] for x in lines[start - 1:line]])
    else:
        raise NoAnswer(f"{job.module} (TLC exit {rc}):\n{out[-3000:]}")
    shutil.rmtree(d, ignore_errors=True)
    return res


def mc_job(prop, tag, job, limit):
    d = work_dir(f"{prop}-{tag}")
    rc, out = tlc(job.module, os.path.join(SPEC, job.cfg + ".cfg"), job.workers, os.path.join(d, "meta"), {},
                  limit, heap="8g")
    g, n = counts(out)
    if rc != 0:
        raise NoAnswer(f"the design model {job.cfg} fails (TLC exit {rc}):\n{out[-4000:]}")
    shutil.rmtree(d, ignore_errors=True)
    return dict(kind="mc", module=job.module, cfg=job.cfg, generated=g, distinct=n, violation=None)


def weight(job):
    return job.workers if job.kind == "mc" else 1


def run(prop, tier, seed):
    t0 = time.time()
    build()
    limit = 700 if tier != "thorough" else 6 * 3600
    todo = []
    for a, job in enumerate(J.jobs(prop, tier)):
        if job.kind == "mc":
            todo.append((f"{a}", job, None))
        else:
            for k in range(job.n):
                todo.append((f"{a}.{k}", job, seed * 1000003 + a * 10007 + k * 101 + 1))
    results, errors = [], []
    with cf.ThreadPoolExecutor(CORES) as ex:
        fs = []
        for tag, job, s in todo:
            if job.kind == "mc":
                fs.append(ex.submit(mc_job, prop, tag, job, limit))
            else:
                fs.append(ex.submit(trace_job, prop, tag, job, s, limit))
        for f in fs:
            try:
                results.append(f.result())
            except NoAnswer as e:
                errors.append(str(e))
    bad = [r for r in results if r["violation"]]
    evidence(prop, tier, seed, results, bad, time.time() - t0)
    for k, r in enumerate(bad):
        print(f"VIOLATION property={prop} replay={replay_file(prop, k, r)}")
        v = r["violation"]
        print(f"  {' '.join(v['aspects'])} at event {v['line']} of: {' '.join(r['argv'])}")
    for e in errors:
        print("ERROR:", e)
    done = sum(r["events"] for r in results if r["kind"] == "trace")
    print(f"{prop} {tier}: {len(results)} explorations, {sum(r['distinct'] for r in results)} states, "
          f"{done} recorded events, {len(bad)} violations, {time.time() - t0:.1f} s")
    return 1 if bad else 2 if errors else 0


def replay_file(prop, k, r):
    d = os.path.join(ROOT, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{prop}-{k}.json")
    with open(path, "w") as f:
        json.dump(dict(property=prop, module=r["module"], argv=r["argv"], seed=r["seed"], gen=r["gen"], **r["violation"]), f, indent=1)
    return path


def evidence(prop, tier, seed, results, bad, wall):
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    tr = [r for r in results if r["kind"] == "trace"]
    mc = [r for r in results if r["kind"] == "mc"]
    cov = dict(
        states=sum(r["distinct"] for r in results),
        transitions=sum(r["generated"] for r in results),
        traces_validated_against_impl=sum(r["sessions"] for r in tr),
        recorded_events=sum(r["events"] for r in tr),
        design_model_states=sum(r["distinct"] for r in mc),
        spec_behaviours_replayed=sum(r["behaviours"] for r in tr),
        spec_behaviour_steps=sum(r["behaviour_states"] for r in tr),
        design_models=[dict(module=r["module"], cfg=r["cfg"], states=r["distinct"]) for r in mc],
        drivers=[dict(spec=r["module"], run=" ".join(os.path.basename(x) if i == 0 else x
                                                     for i, x in enumerate(r["argv"]) if not x.startswith("out=")),
                      events=r["events"], sessions=r["sessions"], note=r["note"]) for r in tr],
        aspects=sorted({c for j in J.jobs(prop, tier) if j.kind == "trace" for c in j.checks}),
        samples=[r["sample"] for r in tr if r["sample"]][:3],
    )
    with open(os.path.join(ROOT, "evidence", f"{prop}.json"), "w") as f:
        json.dump(dict(property=prop, tier=tier, seed=seed, level="model_checking", coverage=cov,
                       assumptions=ASSUME, wall_s=round(wall, 2), violations=len(bad)), f, indent=1)


ASSUME = [
    "TLC evaluates the specification correctly; the harness records calls and results faithfully",
    "inputs outside the sampled or enumerated ones behave like those (random drivers are seeded with VERIF_SEED)",
    "at most 64 supported modules, single-threaded use of a coupler",
]


def replay(path):
    with open(path) as f:
        v = json.load(f)
    build()
    cmd = v["argv"][1]
    args = dict(x.split("=", 1) for x in v["argv"][2:] if not x.startswith(("out=", "seed=", "in=")))
    job = J.T(v["module"], cmd, " ".join(v["aspects"]), **args)
    job.gen = v.get("gen")
    r = trace_job(v["property"], "replay", job, v["seed"], 600)
    if r["violation"]:
        print(f"still fails: {r['violation']['aspects']} at event {r['violation']['line']}")
        print(r["violation"]["event"])
        return 1
    print("does not fail any more")
    return 0


def main():
    try:
        if sys.argv[1] == "build":
            build()
            return 0
        if sys.argv[1] == "replay":
            return replay(sys.argv[2])
        tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
        return run(sys.argv[1], tier, int(os.environ.get("VERIF_SEED", "1")))
    except NoAnswer as e:
        print("ERROR:", e)
        return 2


if __name__ == "__main__":
    sys.exit(main())
