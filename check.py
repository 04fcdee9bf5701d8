#!/usr/bin/env python3
"""Runs the check of one property: check.py <ID> quick|thorough [--seed N] [--only CASE --shard S --stage K]

Builds the harness against /repo's working tree in a scratch directory, runs it in shards,
collects what the monitors observed, and reports.
Exit 0: held; 1: VIOLATION; anything else: the check itself could not give an answer."""
import collections, glob, json, os, re, resource, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "tools"))
from stages import STAGES, RULES, LEVELS  # noqa: E402

REPO = os.environ.get("VERIF_REPO", "/repo")
CORES = os.cpu_count() or 8
HARD = 120      # seconds a single case may take before it counts as a hang


def fail(msg):
    print("ERROR: " + msg, flush=True)
    sys.exit(2)


def run(cmd, **kw):
    kw.setdefault("timeout", 600)
    try:
        return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)
    except subprocess.TimeoutExpired:
        return subprocess.CompletedProcess(cmd, 124, "time limit reached")


def build(stage, work, seed, tier, pool, executor):
    """Starts compiling the stage's translation units against REPO; returns a function that links and returns the binary."""
    cxx = stage.get("cxx", "g++")
    flags = ["-std=c++20"] + stage["flags"] + ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(HERE, "h")]
    out = os.path.join(work, stage["name"])
    os.makedirs(out, exist_ok=True)
    units = []   # (source, extra flags, object)
    for g in stage.get("groups", []):
        units.append(("h/groups.cpp", ["-DGROUP=%d" % g], "g%d.o" % g))
    if "groups" in stage:
        units.append(("h/ops.cpp", [], "ops.o"))
        units.append(("h/main.cpp", [], "main.o"))
        reg = os.path.join(out, "reg.cpp")
        with open(reg, "w") as f:
            for g in stage["groups"]:
                f.write("void register_group_%d();\n" % g)
            f.write("void register_groups() {\n" + "".join("register_group_%d();\n" % g for g in stage["groups"]) + "}\n")
        units.append((reg, [], "reg.o"))
    for s in stage.get("sources", []):
        if isinstance(s, str):
            s = (s, [], "")
        units.append((s[0], s[1], re.sub(r"\W", "_", s[0] + s[2]) + ".o"))
    if "generate" in stage:
        for path in stage["generate"](out, seed, tier):
            units.append((path, [], os.path.basename(path) + ".o"))
    objects = []
    for src, extra, obj in units:
        src = src if os.path.isabs(src) else os.path.join(HERE, src)
        key = tuple([cxx] + flags + extra + ["-c", src])
        if key not in pool:     # shared between the stages of a check
            path = os.path.join(out, obj)
            pool[key] = (path, executor.submit(run, list(key) + ["-o", path]))
        objects.append((key, pool[key]))
    binary = os.path.join(out, "run")

    def finish():
        for key, (path, job) in objects:
            r = job.result()
            if r.returncode:
                print(r.stdout[-6000:])
                fail("harness does not compile: " + " ".join(key))
        r = run([cxx] + flags + [path for _, (path, _) in objects] + ["-o", binary] + stage.get("libs", []))
        if r.returncode:
            print(r.stdout[-6000:])
            fail("harness does not link")
        return binary
    return finish


def limits(stage):
    def f():
        os.setsid()
        if not any("sanitize" in x for x in stage["flags"]) and "wrap" not in stage:
            resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    return f


def read_cur(path):
    try:
        with open(path, "rb") as f:
            return f.read().split(b"\0")[0].decode("utf-8", "replace")
    except OSError:
        return ""


def launch(stage, prop, binary, work, seed, tier, shard, only=None, limit=None):
    base = os.path.join(work, "%s.%s.%d%s" % (stage["name"], prop, shard, "" if only is None else ".only"))
    n = stage["cases"][0 if tier == "quick" else 1]
    if isinstance(n, dict):
        n = n[prop]
    cmd = stage.get("wrap", []) + [binary, "--prop", prop, "--seed", str(seed), "--cases", str(n), "--shard", str(shard), "--shards", str(stage.get("shards", CORES)),
           "--out", base + ".json", "--cur", base + ".cur", "--tier", tier, "--deadline", str(stage["seconds"][0 if tier == "quick" else 1])]
    if stage.get("quiet"):
        cmd += ["--quiet", "1"]
    if only is not None:
        cmd += ["--only", str(only)]
    env = dict(os.environ)
    env.update({
        "ASAN_OPTIONS": "abort_on_error=0:exitcode=77:detect_leaks=1:hard_rss_limit_mb=6000:detect_stack_use_after_return=1:strict_string_checks=1:detect_invalid_pointer_pairs=0",
        "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=78",
        "TSAN_OPTIONS": "exitcode=66:halt_on_error=0:second_deadlock_stack=1",
        "LSAN_OPTIONS": "exitcode=79",
        "VERIF_SCRATCH": work,
        "LOCPATH": os.path.join(work, "locale"),
    })
    env.update(stage.get("env", {}))
    with open(base + ".log", "wb") as log:
        p = subprocess.Popen(cmd, stdout=log, stderr=log, env=env, preexec_fn=limits(stage), cwd=work)
        try:
            rc = p.wait(timeout=limit)
        except subprocess.TimeoutExpired:
            rc = "hang"
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
    with open(base + ".log", errors="replace") as f:
        log = f.read()
    res = None
    if os.path.exists(base + ".json"):
        try:
            with open(base + ".json", errors="replace") as f:
                res = json.load(f)
        except ValueError:
            res = None
    return rc, res, log, read_cur(base + ".cur"), cmd


def main():
    args = sys.argv[1:]
    if len(args) < 1:
        fail("usage: check.py ID [quick|thorough]")
    prop = args.pop(0)
    tier = args.pop(0) if args and not args[0].startswith("--") else os.environ.get("VERIF_TIER", "quick")
    opt = dict(zip(args[::2], args[1::2]))
    seed = int(opt.get("--seed", os.environ.get("VERIF_SEED", "1")))
    if prop not in STAGES:
        fail("no such property: " + prop)
    t0 = time.time()
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    work = tempfile.mkdtemp(prefix="verif-%s-" % prop, dir=os.environ.get("VERIF_TMP"))
    try:
        code = check(prop, tier, seed, opt, work, t0)
    finally:
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(work, ignore_errors=True)
        else:
            print("kept " + work)
    sys.exit(code)


def known_findings():
    known = {}
    for line in open(os.path.join(HERE, "known-findings.txt")):
        m = re.match(r"known: property=(\w+) id=(\w+) (.*)", line)
        if m:
            known[(m.group(1), m.group(2))] = m.group(3).strip()
    return known


def check(prop, tier, seed, opt, work, t0):
    known = known_findings()
    totals = {"evaluations": 0, "distinct": 0}
    counts = collections.Counter()
    samples, viols, errors, seen_known, stage_notes = [], [], [], set(), []
    chosen = [(k, stage) for k, stage in enumerate(STAGES[prop])
              if int(opt.get("--stage", k)) == k and not (tier == "quick" and stage.get("thorough_only"))]
    os.makedirs(os.path.join(work, "locale"), exist_ok=True)
    try:    # where there are no locale sources, everything runs in the default locale
        run(["localedef", "-i", "tr_TR", "-f", "UTF-8", os.path.join(work, "locale", "tr_TR.UTF-8")])
    except OSError:
        pass
    pool, executor, tb = {}, ThreadPoolExecutor(CORES), time.time()
    pending = [build(stage, work, seed, tier, pool, executor) for _, stage in chosen]
    binaries = [f() for f in pending]
    executor.shutdown()
    built = time.time() - tb
    for (k, stage), binary in zip(chosen, binaries):
        if viols:
            break
        for sub in stage.get("props", [prop]):
            if viols:
                break
            tr = time.time()
            shards = range(stage.get("shards", CORES)) if "--shard" not in opt else [int(opt["--shard"])]
            only = int(opt["--only"]) if "--only" in opt else None
            limit = stage["seconds"][0 if tier == "quick" else 1] + HARD
            with ThreadPoolExecutor(stage.get("parallel", CORES)) as ex:
                results = list(ex.map(lambda s: (s,) + launch(stage, sub, binary, work, seed, tier, s, only, limit), shards))
            for s, rc, res, log, cur, cmd in results:
                where = "stage %d (%s), shard %d, seed %d" % (k, stage["name"], s, seed)
                if rc == 3:
                    errors.append("harness error in %s: %s" % (where, log[-500:]))
                    continue
                if rc == "hang" and stage.get("quiet"):
                    counts["runs cut off by the time limit"] += 1
                    continue
                if rc == "hang":
                    if any(v["key"] == "hang" for v in viols):
                        continue
                    m = re.match(r"case (\d+)", cur)
                    n = int(m.group(1)) if m else None
                    rc2 = launch(stage, sub, binary, work, seed, tier, s, n, HARD if n is not None else limit)[0]
                    if rc2 == "hang":
                        viols.append(dict(key="hang", detail="operation does not end\n" + cur, where=where, cmd=cmd))
                    else:
                        errors.append("time limit reached in " + where)
                    continue
                if rc != 0 or res is None:
                    m = re.search(r"(?:SUMMARY|runtime error|terminate called|Assertion|ERROR: )[^\n]*", log)
                    viols.append(dict(key="abnormal end (%s) %s" % (rc, m.group(0)[:200] if m else ""), detail="the process ended abnormally (%s) during:\n%s\n---- log\n%s" % (rc, cur, log[:8000]), where=where, cmd=cmd))
                    if res is None:
                        continue
                totals["evaluations"] += res["evaluations"]
                totals["distinct"] += res["distinct"]
                for name, n in res["counts"].items():
                    counts[name] = max(counts[name], n) if name.startswith("deepest ") else counts[name] + n
                if len(samples) < 12:
                    samples += res["samples"][:2]
                for v in res["violations"]:
                    viols.append(dict(key=v["key"], detail=v["detail"], where=where + ", case %d" % v["case"], cmd=cmd + ["--only", str(v["case"])]))
                for n, what in res.get("known", {}).items():
                    if (prop, n) in known:
                        seen_known.add((n, what))
                    else:
                        viols.append(dict(key="unlisted " + n, detail=what, where=where, cmd=cmd))
            stage_notes.append("%s/%s: build %.1f s, run %.1f s" % (stage["name"], sub, built, time.time() - tr))
            built = 0.0
        # conditions on what must have been observed, else the run proves nothing
        for name in stage.get("expect", []):
            if not counts.get(name) and not viols:
                errors.append("the workload never produced: " + name)
    types = {c[5:]: n for c, n in counts.items() if c.startswith("type ")}
    measured = {c: n for c, n in sorted(counts.items()) if not c.startswith("type ") and c != "violations_observed"}
    coverage = dict(evaluations=totals["evaluations"], distinct_nontrivial=totals["distinct"], rule=RULES[prop], samples=samples[:12], observed=measured)
    if types:
        coverage["types_exercised"] = len(types)
        coverage["least_exercised_type"] = min(types.items(), key=lambda x: x[1])
    coverage["stages"] = stage_notes
    ev = dict(property=prop, tier=tier, seed=seed, level=LEVELS[prop][0], coverage=coverage,
              assumptions=LEVELS[prop][1], wall_s=round(time.time() - t0, 1), violations=len(viols))
    if not opt:
        with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
    for n, what in sorted(seen_known):
        print("KNOWN-FINDING: property=%s %s: %s" % (prop, n, what))
    if viols:
        groups = {}
        for v in viols:
            groups.setdefault(v["key"].split("|", 1)[-1], []).append(v)
        for i, (key, vs) in enumerate(sorted(groups.items(), key=lambda kv: -len(kv[1]))[:5]):
            path = os.path.join(HERE, "evidence", "replay-%s-%d.txt" % (prop, i))
            v = vs[0]
            with open(path, "w") as f:
                f.write("property %s\n%s\n%s\n\n%s\n\nharness command: %s\nreplay: VERIF_SEED=%d python3 /verif/check.py %s %s\n" % (prop, v["where"], v["key"], v["detail"], " ".join(v["cmd"]), seed, prop, tier))
            print("%s: %d times, e.g. %s" % (key[:160], len(vs), v["key"][:160]))
            print("  " + v["detail"][:700].replace("\n", "\n  "))
            print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
        return 1
    if errors:
        for e in errors[:5]:
            print("ERROR: " + e)
        return 2
    print("%s %s: held on %d evaluations (%d distinct and non-trivial), %.0f s" % (prop, tier, totals["evaluations"], totals["distinct"], time.time() - t0))
    return 0


if __name__ == "__main__":
    main()
