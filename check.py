#!/usr/bin/env python3
"""Decides one property by seeded search in the simulator.

  check.py Cxx                 search (tier and seed from VERIF_TIER, VERIF_SEED)
  check.py replay FILE         rebuilds from /repo and replays a plan
  check.py determinism [n]     runs n seeds of every property several ways and compares event logs

Exit 0: held on everything explored.  Exit 1 with a VIOLATION line: broken.
Exit 2: the machinery itself failed (no statement about the property).
"""
import glob, json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "tools"))
import simbuild

WORKERS = int(os.environ.get("SIM_WORKERS", "8"))

# runs of the quick tier (about 40 s of eight workers)
QUICK = dict(C01=2400, C02=4600, C03=7000, C04=8000, C05=17000, C06=8000, C07=16000, C08=26000, C09=3600,
             C10=60000, C11=4200, C12=13000, C13=12000, C14=10000, C15=14000, C16=8000,
             C17=40000)
QUICK_SECONDS = 300          # wall-clock cap per worker, not reached on an idle machine
THOROUGH_SECONDS = float(os.environ.get("SIM_THOROUGH_SECONDS", "780"))

RULE = {
    "C01": "seeded plans of 2-6 tasks, each with its own processors, under a random/PCT/burst scheduler that may switch at every memory access; non-trivial: at least two tasks really interleaved and a result was non-empty",
    "C02": "one plan executed in 4-8 environments that differ in heap placement, fill of fresh and freed memory, stack garbage, clock and random values, and as a second use in one process; non-trivial: a non-empty result was compared",
    "C03": "histories in which chosen allocations (single, bursts, by size) fail inside chosen operations, followed by retries and further use; non-trivial: an allocation of the library really failed",
    "C04": "histories with allocation, reader and sink faults, executed two or three rounds in one process on a checking heap; non-trivial: memory was allocated and a fault fired",
    "C05": "streams delivered through a reader that fails or ends at every kind of position, compared with the same content in other delivery forms; non-trivial: a reader fault fired or a delivery form was compared on a non-empty result",
    "C06": "sinks that record, stall and throw at a chosen callback, compared with the object form of the same call; non-trivial: a sink received a result",
    "C07": "histories of adds and repeated process calls with faults in between, each call compared with a fresh processor given the same content; non-trivial: a repeated call with a non-empty result",
    "C08": "contours of a certified or lattice scene sent through channels by several producer tasks in schedule-dependent order, partition and start vertex; non-trivial: at least two deliveries and a non-empty region",
    "C09": "inputs write-protected during the call, then scrubbed and freed; outputs re-examined after every later operation; non-trivial: a result was held while the library went on working",
    "C10": "path texts torn, corrupted and concatenated at arbitrary bytes, parsed by several tasks, some under allocation failures; non-trivial: a text with at least one complete element",
    "C11": "plans with a task stalled inside a callback and with faults; each operation must end within a step bound; non-trivial: another task finished while one was stalled, or a fault fired",
    "C12": "certified general-position scenes and lattice scenes fed to sessions with interleaved adds, reader failures and repeated calls; every result compared with a winding-number model at sample points; non-trivial: a region with both inside and outside points",
    "C13": "develop build with a simulated viewer whose transfers succeed, are refused, cut, time out or cannot start; non-trivial: at least one transfer was attempted",
    "C14": "processors handed over between tasks at arbitrary points of their history, compared with single-task runs; non-trivial: a hand-over between operations of one processor",
    "C15": "library operations started inside reader and sink callbacks (mostly up to three levels, at times eight), compared with the same operations run flat; non-trivial: a nested operation ran",
    "C16": "chains of operations in which results are fed into further processors of the same or another task, as path objects, through readers or straight from the sink; every stage compared with the winding-number model; non-trivial: a non-empty result was used as input",
    "C17": "path objects drawn element by element by several tasks, some elements failing for lack of memory, then replayed with all sets of callbacks, with callbacks that throw, stall or replay the same or another object, moved into new objects and drawn on; every callback compared with a model of what was drawn; non-trivial: an element was replayed",
}
REAL = ["river::processor, clipper sweep, scan line, segments, path, make_path, rmath: compiled unmodified from /repo (clang, memory accesses instrumented)",
        "libstdc++, Boost.Pool and Boost.Spirit as installed"]
STUB = ["thread scheduling (one task runs at a time, chosen by the seeded scheduler)", "malloc/operator new family (simulated heap)",
        "clocks, rand, getenv, mutexes, once-guards of the library (seams; unused by the present code)",
        "callers: readers, sinks and input objects are the simulator's workload"]


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def error(msg):
    log("check.py: " + msg)
    sys.exit(2)


def build(out, dev):
    try:
        exe, un = simbuild.build(out, False)
        env = dict(os.environ)
        if dev:
            env["SIM_NORMAL"] = exe
            exe, un = simbuild.build(os.path.join(out, "dev"), True)
        return exe, un, env
    except simbuild.BuildError as e:
        error("build failed\n%s" % e)


def scratch():
    d = os.path.join(HERE, ".build")
    os.makedirs(d, exist_ok=True)
    return tempfile.mkdtemp(dir=d)


def replay(exe, env, path):
    r = subprocess.run([exe, "replay", path], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env)
    m = re.match(r"(PASS|FAIL) class=(\S*) hash=(\S+) ?(.*)", r.stdout.strip())
    if not m or r.returncode not in (0, 1):
        return None
    return m.groups()


def known(prop):
    """entries 'finding: property=Cxx replay=FILE what fails' of KNOWN_FINDINGS"""
    res = []
    for l in open(os.path.join(HERE, "KNOWN_FINDINGS")):
        m = re.match(r"finding: property=(\S+) replay=(\S+) (.*)", l.strip())
        if m and m.group(1) == prop:
            res.append(m.groups()[1:])
    return res


def save(prop, seed, v):
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s.plan" % (prop, seed))
    with open(path, "w") as f:
        f.write("# %s: %s\n# %s\n# found with seed %s; minimised from %s to %s operations in %s evaluations\n# replay: python3 /verif/check.py replay %s\n" % (
            prop, v["class"], v["message"].replace("\n", " "), seed, v["ops_before"], v["ops"], v["evaluations"], path))
        f.write(v["plan"])
    return path


def search(prop):
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    out = scratch()
    try:
        run(prop, tier, seed, out, t0)
    finally:
        shutil.rmtree(out, ignore_errors=True)


def run(prop, tier, seed, out, t0):
    dev = prop == "C13"
    exe, unseamed, env = build(out, dev)
    tb = time.time()
    found = []          # (index, message, path)
    # plans kept from earlier failures
    corpus = sorted(glob.glob(os.path.join(HERE, "corpus", prop, "*.plan")))
    for c in corpus:
        r = replay(exe, env, c)
        if r is None:
            error("corpus plan %s did not run" % c)
        if r[0] == "FAIL":
            if replay(exe, env, c) != r:
                error("corpus plan %s is not reproducible" % c)
            found.append((-1, r[1], r[3], c))
    res = []
    if not found:
        count = QUICK[prop] if tier == "quick" else 10 ** 9
        secs = QUICK_SECONDS if tier == "quick" else THOROUGH_SECONDS
        ps = []
        for w in range(WORKERS):
            o = os.path.join(out, "w%d.json" % w)
            ps.append((subprocess.Popen([exe, "search", prop, str(seed), str(w), str(count), str(WORKERS), tier, str(secs), o],
                                        env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True), o))
        first_bad = None
        alive = set(range(WORKERS))
        while alive:
            time.sleep(0.05)
            for w in list(alive):
                rc = ps[w][0].poll()
                if rc is None:
                    continue
                alive.discard(w)
                if rc == 1 and first_bad is None:
                    first_bad = time.time()
            if first_bad and time.time() - first_bad > 5:
                for w in alive:
                    ps[w][0].kill()
                for w in list(alive):
                    ps[w][0].wait()
                break
        for w, (p, o) in enumerate(ps):
            err = p.stderr.read()
            if p.returncode not in (0, 1):
                if first_bad is not None and p.returncode in (-9, 3):
                    continue
                error("worker %d ended with %s: %s" % (w, p.returncode, err[-2000:]))
            d = json.load(open(o))
            res.append(d)
    new = []
    for d in res:
        v = d.get("violation")
        if not v:
            continue
        path = save(prop, v["seed"], v)
        ok = True
        for _ in range(2):       # fresh processes
            r = replay(exe, env, path)
            if r is None or r[0] != "FAIL" or r[1] != v["class"] or r[2] != v["hash"]:
                ok = False
        if ok:
            found.append((v["seed"], v["class"], v["message"], path))
        else:
            new.append(path)
    if new and not found:
        error("violation does not replay in a fresh process: %s" % ", ".join(new))
    for k in known(prop):
        r = replay(exe, env, os.path.join(HERE, k[0]))
        if r and r[0] == "FAIL":
            print("KNOWN-FINDING: property=%s %s (replay %s)" % (prop, k[1], k[0]), flush=True)
    evidence(prop, tier, seed, res, corpus, found, unseamed, tb - t0, time.time() - tb, time.time() - t0)
    if found:
        found.sort()
        s, cls, msg, path = found[0]
        print("%s: %s" % (cls, msg))
        print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
        sys.exit(1)
    print("%s held: %d runs, %d executions" % (prop, sum(d["runs"] for d in res), sum(d["execs"] for d in res)))


def evidence(prop, tier, seed, res, corpus, found, unseamed, t_build, t_run, wall):
    sig = set()
    for d in res:
        sig.update(d["distinct"])
    tot = lambda k: sum(d[k] for d in res)
    counts = {}
    for d in res:
        for k, n in d["counts"].items():
            counts[k] = max(counts.get(k, 0), n) if "(max)" in k else counts.get(k, 0) + n
    samples = [d["sample"] for d in res if d["sample"]][:2]
    if found:
        samples = ["violation: %s: %s (replay %s)" % f[1:] for f in found] + samples[:1]
    runs = tot("runs")
    cov = {
        "evaluations": runs,
        "distinct_nontrivial": len(sig),
        "rule": RULE[prop] + "; distinct: by hash of all results and of the sequence of context switches",
        "samples": samples or ["no run completed"],
        "simulated_executions": tot("execs"),
        "nontrivial_runs": tot("nontrivial"),
        "seeds": "%d..%d" % (seed * 1000000, seed * 1000000 + max(runs - 1, 0)),
        "runs_per_hour": int(runs / t_run * 3600) if t_run > 0 else 0,
        "simulated_time_steps": tot("steps"),
        "simulated_time_unit": "memory accesses of the library (the simulator's clock; the library itself reads no clock)",
        "context_switches": tot("switches"),
        "allocations_served": tot("allocs"),
        "library_clock_reads": tot("clock_reads"), "library_random_reads": tot("rand_reads"), "library_lock_operations": tot("locks"),
        "writes_to_static_storage": tot("global_writes"),
        "fault_and_event_counts": counts,
        "saved_plans_replayed": len(corpus),
        "event_log_chain": [d["chain"] for d in res],
        "components_real": REAL + (["debug_util (viewer client) and Qt serialisation"] if prop == "C13" else []),
        "components_stubbed": STUB + (["libcurl and the viewer behind it"] if prop == "C13" else []),
        "unseamed_symbols": unseamed,
        "build_s": round(t_build, 2), "search_s": round(t_run, 2), "workers": WORKERS,
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov, "wall_s": round(wall, 2), "violations": len(found),
          "assumptions": ["seeded sampling, not enumeration: a clean batch is evidence, not proof",
                          "scheduling points are the library's own memory accesses (compiled by clang at -O1, sequentially consistent); weaker memory orders are covered only through the race detector of C01",
                          "geometry is drawn from generated families: scenes certified to be in general position, and straight-edged scenes on a lattice with shared vertices and overlapping edges; curves that touch or overlap one another are not generated (see KNOWN_FINDINGS)"]}
    d = os.path.join(HERE, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")


def do_replay(path):
    m = re.search(r"^prop (\S+)", open(path).read(), re.M)
    if not m:
        error("not a plan: " + path)
    out = scratch()
    try:
        exe, _, env = build(out, m.group(1) == "C13")
        r = replay(exe, env, path)
        if r is None:
            error("plan did not run")
        print("%s %s %s" % (r[0], r[1], r[3]))
        if r[0] == "FAIL":
            print("VIOLATION property=%s replay=%s" % (m.group(1), os.path.abspath(path)))
            sys.exit(1)
    finally:
        shutil.rmtree(out, ignore_errors=True)


def determinism(n, only):
    out = scratch()
    try:
        exe, _, env = build(out, False)
        devexe, _, denv = build(os.path.join(out, "d"), True)
        bad = 0
        for prop in sorted(only or QUICK):
            e, v = (devexe, denv) if prop == "C13" else (exe, env)
            ref, same = None, True
            for jobs in (1, 4, 16):
                per = (n + jobs - 1) // jobs
                ps = [subprocess.Popen([e, "hash", prop, "7", str(i * per), str(min(n, (i + 1) * per)), "quick"], stdout=subprocess.PIPE, text=True,
                                       env=dict(v, JUNK="x" * (37 * (jobs + i)))) for i in range(jobs)]
                txt = "".join(p.communicate()[0] for p in ps)
                if ref is None:
                    ref = txt
                elif txt != ref:
                    bad += 1
                    same = False
                    print("%s: event logs differ with %d processes" % (prop, jobs))
                    a, b = ref.splitlines(), txt.splitlines()
                    for x, y in zip(a, b):
                        if x != y:
                            print("  ", x, "/", y)
                            break
            print("%s: %d seeds, 3 process counts, %s" % (prop, len(ref.splitlines()), "same event logs" if same else "DIFFERENCES"), flush=True)
        sys.exit(2 if bad else 0)
    finally:
        shutil.rmtree(out, ignore_errors=True)


if __name__ == "__main__":
    if len(sys.argv) > 2 and sys.argv[1] == "replay":
        do_replay(sys.argv[2])
    elif len(sys.argv) > 1 and sys.argv[1] == "determinism":
        determinism(int(sys.argv[2]) if len(sys.argv) > 2 else 200, sys.argv[3:])
    elif len(sys.argv) > 1 and sys.argv[1] in QUICK:
        search(sys.argv[1])
    else:
        error("unknown property or command")
