#!/usr/bin/env python3
"""Decides one property by seeded simulation with fault injection.

usage: check.py C01 [--tier quick|thorough]      search
       check.py C01 --replay FILE                replay one plan
       check.py --build                          build the simulator only
Environment: VERIF_SEED (default 1), VERIF_TIER (default quick), SIM_REPO (default /repo, for experiments).
"""
import concurrent.futures as cf, hashlib, json, os, re, shutil, struct, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SIM_REPO", "/repo")
BUILD = os.environ.get("SIM_BUILD", os.path.join(HERE, ".build"))
OUT = os.environ.get("SIM_OUT", os.path.join(HERE, "out"))
NCPU = min(16, os.cpu_count() or 1)
FLAGS = ["-std=gnu++17", "-O1", "-fsanitize=address", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS", "-w",
         "-include", os.path.join(HERE, "sim/pre.hpp"), "-I" + os.path.join(HERE, "sim"), "-I" + os.path.join(REPO, "include")]
TYPES = {6: [1, 2, 4, 5], 7: [1, 2, 4, 5], 8: [1, 2, 4, 5], 2: [0, 1, 2, 3], 15: [0], 17: [0, 1, 3, 4], 21: []}
TYPE_NAMES = ["Cache<Key,Value,Hash,Equal> (instrumented types)", "TimedCache<.., duration<double,milli>, ..> (instrumented types)",
              "TimedCache<.., seconds, ..> (instrumented types)", "Cache<int,int>", "TimedCache<int,int>", "TimedCache<.., milliseconds, ..> (instrumented types)"]
RUNS = {"quick": 360000, "thorough": 12000000}
SHARDS = {"quick": 96, "thorough": 2400}
BUDGET = {"quick": 300, "thorough": 5400}   # seconds of wall clock after which no further shard is started
ERR = 2


def log(*a):
    print(*a, flush=True)


# Every memory access of the library calls a hook at which threads may switch.
FINE = ["-DFINE", "--param", "asan-instrumentation-with-call-threshold=0"]


def tree_hash():
    h = hashlib.sha256(repr(FLAGS + FINE).encode())
    for root in (os.path.join(REPO, "include"), os.path.join(HERE, "sim")):
        for d, dirs, files in os.walk(root):
            dirs.sort()
            for f in sorted(files):
                p = os.path.join(d, f)
                h.update(os.path.relpath(p, root).encode())
                with open(p, "rb") as fh:
                    h.update(fh.read())
    return h.hexdigest()[:20]


def build(types, fine=False):
    key = tree_hash()
    d = os.path.join(BUILD, key)
    exe = os.path.join(d, ("fine-" if fine else "sim-") + "".join(map(str, types)))
    if os.path.exists(exe):
        return exe
    if os.path.isdir(BUILD):
        for old in os.listdir(BUILD):
            if old != key:
                shutil.rmtree(os.path.join(BUILD, old), ignore_errors=True)
    os.makedirs(d, exist_ok=True)
    jobs = [("exec_%d" % t, []) for t in types] + [("wrap", []), ("core", []), ("gen", [])] + ([("cost", [])] if not types else [])
    mask = sum(1 << t for t in types)
    jobs.append(("types", ["-DTYPES=%d" % mask] + (["-DCOST"] if not types else [])))

    def comp(j):
        name, extra = j
        obj = os.path.join(d, ("fine-" if fine else "") + name + ("-%d" % mask if extra else "") + ".o")
        if fine:
            extra = extra + (FINE[:1] if name == "core" else [] if name in ("gen", "types") else FINE)
        if not os.path.exists(obj):
            tmp = obj + ".tmp%d" % os.getpid()
            r = subprocess.run(["g++"] + FLAGS + extra + ["-c", os.path.join(HERE, "sim", name + ".cpp"), "-o", tmp], capture_output=True, text=True)
            if r.returncode:
                return obj, r.stderr
            os.rename(tmp, obj)
        return obj, ""
    with cf.ThreadPoolExecutor(max(2, NCPU)) as ex:
        res = list(ex.map(comp, jobs))
    bad = [e for _, e in res if e]
    if bad:
        log("BUILD FAILED\n" + bad[0][:4000])
        sys.exit(ERR)
    tmp = exe + ".tmp%d" % os.getpid()
    r = subprocess.run(["g++", "-fsanitize=address", "-pthread", "-o", tmp] + (["-Wl,--wrap=memmove,--wrap=memcpy,--wrap=memset"] if fine else []) + [o for o, _ in res], capture_output=True, text=True)
    if r.returncode:
        log("LINK FAILED\n" + r.stderr[:4000])
        sys.exit(ERR)
    os.rename(tmp, exe)
    return exe


def sim(exe, args, timeout=600):
    try:
        r = subprocess.run([exe] + args, capture_output=True, text=True, errors="replace", timeout=timeout)
    except subprocess.TimeoutExpired:
        return None, "timeout"
    return r.returncode, r.stdout


def parse(text):
    fails, stats, h, flags = [], None, None, set()
    for l in text.splitlines():
        if l.startswith("FAIL "):
            fails.append(json.loads(l[5:]))
        elif l.startswith("STATS "):
            stats = json.loads(l[6:])
        elif l.startswith("HASH "):
            h = l[5:]
        elif l in ("SAME", "DIFFERENT", "LOST"):
            flags.add(l)
    return fails, stats, h, flags


def merge(a, b):
    for k, v in b.items():
        if isinstance(v, dict):
            merge(a.setdefault(k, {}), v)
        elif isinstance(v, list):
            o = a.setdefault(k, [0] * len(v))
            for i, x in enumerate(v):
                o[i] += x
        else:
            a[k] = a.get(k, 0) + v


def known_findings(pid):
    res = []
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) class=(\S+) plan=(\S+) (.*)", l.strip())
            if m and m.group(1) == pid:
                res.append({"cls": m.group(2), "plan": os.path.join(HERE, m.group(3)), "what": m.group(4)})
    return res


def body(plan_text):
    return "\n".join(re.sub(r"(seed|prop)=\d+ ?", "", l) for l in plan_text.splitlines() if l and not l.startswith("#"))


def main():
    args = sys.argv[1:]
    if args and args[0] == "--build":
        exe = build([0, 1, 2, 3, 4, 5])
        log("built", exe, build(TYPES[17], True), build(TYPES[21], True))
        return 0
    pid = args[0]
    prop = int(pid[1:])
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in args:
        tier = args[args.index("--tier") + 1]
    vseed = int(os.environ.get("VERIF_SEED", "1"))
    t_start = time.time()
    types = TYPES.get(prop, [0, 1, 2, 3, 4])
    if "--replay" in args:
        f = args[args.index("--replay") + 1]
        exe = build(TYPES[prop], True) if prop in (17, 21) else build([0, 1, 2, 3, 4, 5])
        rc, out = sim(exe, ["replay", f])
        sys.stdout.write(out)
        fails, _, _, _ = parse(out)
        return 1 if any(pid in x["tags"].split(",") for x in fails) else 0
    log("property=%s tier=%s VERIF_SEED=%d" % (pid, tier, vseed))
    exe = build(types, prop in (17, 21))
    t_built = time.time()
    os.makedirs(OUT, exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    total = int(os.environ.get("SIM_RUNS", RUNS[tier] // (2 if prop == 17 else 30 if prop == 21 else 1)))
    shards = max(1, min(SHARDS[tier], total // 100))
    per = total // shards
    seed0 = (vseed % 1000000) * 1000000000
    tmp = os.path.join(OUT, "tmp-%s-%d" % (pid, os.getpid()))
    os.makedirs(tmp, exist_ok=True)
    tot, shapes, inters, fails, skipped, broken = {}, set(), set(), [], 0, []
    stop = [False]

    def shard(i):
        if stop[0] or time.time() - t_built > BUDGET[tier]:
            return i, None, None
        dump = os.path.join(tmp, "d%d" % i)
        rc, out = sim(exe, ["run", "--prop=%d" % prop, "--seed0=%d" % (seed0 + i * per), "--count=%d" % per, "--thorough=%d" % (tier == "thorough"), "--dump=" + dump])
        return i, rc, (out, dump)
    done = 0
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for i, rc, res in ex.map(shard, range(shards)):
            if rc is None and res is None:
                skipped += 1
                continue
            if rc != 0:
                broken.append("shard %d: exit %s" % (i, rc))
                continue
            out, dump = res
            f, s, _, _ = parse(out)
            merge(tot, s)
            for x in f:
                fails.append(x)
            if len(fails) >= 60:
                stop[0] = True
            with open(dump, "rb") as fh:
                a, b = struct.unpack("QQ", fh.read(16))
                data = fh.read(8 * (a + b))
            v = struct.unpack("%dQ" % (a + b), data)
            shapes.update(v[:a])
            inters.update(v[a:])
            os.remove(dump)
            done += 1
    t_run = time.time()
    shutil.rmtree(tmp, ignore_errors=True)
    fails.sort(key=lambda x: x["seed"])
    known = known_findings(pid)
    for k in known:
        rc, out = sim(exe, ["replay", k["plan"]])
        fl, _, _, _ = parse(out or "")
        if any(x["cls"] == k["cls"] for x in fl):
            log("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    violation, foreign, lost = None, [], []
    per_cls = {}
    t_min = time.time()
    for x in fails:
        cls = x["cls"]
        if per_cls.get(cls, 0) >= 4 or len(foreign) + len(lost) >= 14 or time.time() - t_min > 240:
            continue
        per_cls[cls] = per_cls.get(cls, 0) + 1
        path = os.path.join(OUT, "%s-%d.plan" % (pid, x["seed"]))
        rc, out = sim(exe, ["minimise", cls, path, "--prop=%d" % prop, "--seed=%d" % x["seed"], "--thorough=%d" % (tier == "thorough")])
        mf, _, h, flags = parse(out or "")
        mine = [m for m in mf if m["cls"] == cls]
        if rc != 0 or "LOST" in flags or not mine or ("SAME" not in flags and not cls.startswith(("crash", "interference:crash"))):
            lost.append((x, out))
            continue
        if pid not in mine[0]["tags"].split(","):
            foreign.append(x)
            os.remove(path)
            continue
        text = open(path).read()
        if any(k["cls"] == cls and body(open(k["plan"]).read()) == body(text) for k in known):
            continue
        # a fresh process must fail in the same way, twice
        again = [parse(sim(exe, ["replay", path])[1] or "") for _ in range(2)]
        if not all(any(y["cls"] == cls for y in g[0]) and (g[2] == h or cls.find("crash") >= 0) for g in again):
            lost.append((x, out))
            continue
        with open(path, "w") as fh:
            fh.write("# property %s, class %s\n# %s\n# seed %d, minimised; replay: python3 check.py %s --replay %s\n%s" % (pid, cls, mine[0]["msg"], x["seed"], pid, path, text))
        violation = (path, cls, mine[0], x["seed"])
        break
    wall = time.time() - t_start
    run_s = max(1e-6, t_run - t_built)
    samples = []
    for sd in (seed0, seed0 + 1):
        rc, out = sim(exe, ["gen", "--prop=%d" % prop, "--seed=%d" % sd, "--thorough=%d" % (tier == "thorough")])
        samples.append({"seed": sd, "plan": (out or "").splitlines()})
    runs = tot.get("runs", 0)
    ev = {
        "property": pid, "tier": tier, "seed": vseed, "level": "exploration", "wall_s": round(wall, 2), "violations": 1 if violation else 0,
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": len(shapes),
            "rule": "A case is one simulated run of a plan generated from one integer seed (configuration, operations, injected failures, clock moves, thread switches). "
                    "Two runs are distinct if their trajectories of abstract states differ (after every operation: per cache capacity, size, recency order of the keys, which entries are past their time to live, whether statistics and callbacks are attached; for wrapped functions the keys held%s). "
                    "Every run executes at least one operation of the library, so trivial runs are only the duplicates." % ("; for this property the kinds of operations and the sizes of the caches after them" if prop == 21 else ""),
            "samples": samples,
            "runs_per_hour": int(runs / run_s * 3600), "seeds_per_hour": int(runs / run_s * 3600),
            "first_seed": seed0, "seeds_planned": shards * per, "shards_skipped_for_time": skipped,
            "operations": tot.get("ops", 0), "operations_failed_by_injection": tot.get("aborted_ops", 0),
            "operations_by_kind_and_failed": tot.get("ops_by", {}),
            "simulated_seconds": round(tot.get("sim_s", 0), 3),
            "faults_injected": {**{k: v for k, v in tot.get("fired", {}).items()}, "time_passing_inside_operations": tot.get("stalls", 0), "clock_advances_between_operations": tot.get("advances", 0), "wall_clock_jumps": tot.get("wall_jumps", 0), "reentrant_calls_from_user_code": tot.get("reentrant", 0), "thread_switches_inside_or_between_operations": tot.get("switches", 0), "accesses_to_static_storage_met_by_threads": tot.get("shared", 0)},
            "runs_with_a_failure": tot.get("faulty_runs", 0), "runs_with_a_stall": tot.get("stalled_runs", 0),
            "distinct_state_trajectories": len(shapes), "distinct_interleavings": len(inters),
            "runs_by_number_of_threads": tot.get("threads", []), "runs_by_cache_type": tot.get("by_type", {}),
            "real_code": ["all of /repo/include/lru, compiled unchanged with AddressSanitizer", "libstdc++ containers, real threads (one runnable at a time)"] + [TYPE_NAMES[t] for t in types or [0, 1, 3, 4]],
            "stubbed": ["steady_clock, system_clock, clock_gettime, time, gettimeofday (simulated clock)", "operator new/delete (failing allocator over malloc)", "key, value, hash, equality, callback, iterator and function types (instrumented user code)", "choice of the running thread (seeded scheduler)"],
            "failures_attributed_to_other_properties": len(foreign),
        },
        "assumptions": ["sampling: a clean batch is evidence, not proof"] + (["threads switch at every access of the library to memory, in program order (no weaker memory model)"] if prop == 17 else []) + ["at most one injected failure per operation"] + (["the bounds on steps in sim/cost.cpp separate constant from linear cost at 4000 to 8000 entries"] if prop == 21 else ["the reference model in sim/exec.hpp and sim/wrap.cpp states the property correctly"]),
    }
    evp = os.path.join(HERE, "evidence", pid + ".json")
    if "SIM_OUT" in os.environ:
        evp = os.path.join(OUT, pid + ".json")
    with open(evp, "w") as fh:
        json.dump(ev, fh, indent=1)
    log("runs=%d distinct_trajectories=%d interleavings=%d ops=%d failed_ops=%d build=%.1fs run=%.1fs" % (runs, len(shapes), len(inters), tot.get("ops", 0), tot.get("aborted_ops", 0), t_built - t_start, run_s))
    if violation:
        path, cls, f, sd = violation
        log("seed=%d class=%s operation=%d: %s" % (sd, cls, f["op"], f["msg"]))
        log(open(path).read().rstrip())
        log("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if foreign:
        log("%d failing runs break other properties, not %s: %s" % (len(foreign), pid, sorted({f["cls"] for f in foreign})))
    if broken:
        log("ERROR " + "; ".join(broken[:5]))
        return ERR
    if lost:
        log("ERROR a failure did not reproduce: %s\n%s" % (lost[0][0], (lost[0][1] or "")[:1500]))
        return ERR
    if done == 0:
        log("ERROR nothing ran")
        return ERR
    log("OK property=%s" % pid)
    return 0


if __name__ == "__main__":
    sys.exit(main())
