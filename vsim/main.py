"""Command line: check a property, replay a violation, self-test determinism."""
import copy
import gc
import hashlib
import json
import os
import pickle
import random
import select
import signal
import subprocess
import sys
import time

from . import seams

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = sys.executable

#            quick runs, thorough runs
RUNS = {
    "C01": (9000, 150000), "C02": (5000, 80000), "C03": (5979, 100000), "C04": (8740, 150000), "C05": (9000, 120000),
    "C06": (4370, 80000), "C07": (9200, 160000), "C08": (5290, 90000), "C09": (6899, 120000), "C10": (9200, 160000),
    "C11": (6209, 110000), "C12": (5060, 90000), "C13": (3679, 60000),
    "C14": (5200, 90000), "C15": (4600, 80000), "C16": (5000, 60000), "C17": (9000, 150000), "C18": (4800, 80000), "C19": (5000, 80000),
    "C20": (6000, 100000),
}
WALL = {"quick": 240.0, "thorough": 2400.0}

KNOWN = os.path.join(HERE, "known_findings.json")


def now():
    return seams.real_monotonic()


def run_seed(prop, base, k):
    return int(hashlib.sha256(("%s/%d/%d" % (prop, base, k)).encode()).hexdigest()[:12], 16)


def prepare():
    seams.install()
    from . import sched
    sched._mk_linalg()
    signal.signal(signal.SIGINT, signal.default_int_handler)     # a shell may have it ignored in the background
    gc.collect()
    gc.freeze()          # what exists now is not looked at again by the collections of the simulated processes


# ------------------------------------------------------------------------------------------------ workers
def _quiet():
    d = os.open(os.devnull, os.O_WRONLY)
    os.dup2(d, 1)
    os.dup2(d, 2)


def worker(prop, base, w, W, n, wfd):
    """Executes runs w, w+W, ... and sends one pickled result per run."""
    from . import gen, sim
    _quiet()
    out = os.fdopen(wfd, "wb")
    for k in range(w, n, W):
        scen = gen.generate(prop, run_seed(prop, base, k))
        res = None
        for attempt in range(2):
            st, o = sim.fork_call(sim.run_any, copy.deepcopy(scen), timeout=sim.limit(scen))
            if st == "ok" and not o["err"]:
                res = o
                break
            err = o["err"] if st == "ok" else str(o)
        if res is None:
            res = {"err": err, "seed": scen["seed"], "viol": None}
        res["k"] = k
        pickle.dump(res, out, protocol=5)
        out.flush()
    out.close()


def pool(prop, base, n, W, wall, on_result):
    """Run n scenarios on W workers; on_result returns True to stop."""
    pids, fds, bufs = [], {}, {}
    for w in range(W):
        r, wr = os.pipe()
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            try:
                os.setpgid(0, 0)
                os.close(r)
                for f in fds:
                    os.close(f)
                worker(prop, base, w, W, n, wr)
            except BaseException:
                import traceback
                traceback.print_exc()
                os._exit(3)
            os._exit(0)
        os.close(wr)
        pids.append(pid)
        fds[r] = w
        bufs[r] = b""
    t0 = now()
    stop = False
    timed_out = False
    try:
        while fds and not stop:
            left = wall - (now() - t0)
            if left <= 0:
                timed_out = True
                break
            rd, _, _ = select.select(list(fds), [], [], min(left, 5))
            for r in rd:
                d = os.read(r, 1 << 20)
                if not d:
                    os.close(r)
                    del fds[r]
                    continue
                bufs[r] += d
                while True:
                    import io
                    b = io.BytesIO(bufs[r])
                    try:
                        o = pickle.load(b)
                    except (EOFError, pickle.UnpicklingError):
                        break
                    bufs[r] = bufs[r][b.tell():]
                    if on_result(o):
                        stop = True
    finally:
        for p in pids:
            try:
                os.killpg(p, signal.SIGKILL)
            except (ProcessLookupError, PermissionError):
                pass
        for p in pids:
            try:
                os.kill(p, signal.SIGKILL)
            except ProcessLookupError:
                pass
            os.waitpid(p, 0)
        for r in fds:
            os.close(r)
    return timed_out


# ------------------------------------------------------------------------------------------------ what counts as non-trivial
RULES = {
    "C01": "a run is non-trivial if at least one evaluation was preempted inside the package and another caller ran before it continued",
    "C02": "a run is non-trivial if a solve or helper was preempted inside the package by another caller, or entered the package again from its callback",
    "C03": "a run is non-trivial if at least 20 steps were executed under the per-step argument invariant",
    "C04": "a run is non-trivial if the caller really overwrote at least one of its objects and something was evaluated",
    "C05": "a run is non-trivial if at least two calls returned results that were retained to the end",
    "C06": "a run is non-trivial if at least one call was aborted by an injected fault, rejected input or escalated warning",
    "C07": "a run is non-trivial if at least one injected kernel, allocation or callback failure fired inside a call",
    "C08": "a run is non-trivial if at least three calls were made in the same process, or the environment was changed",
    "C09": "a run is non-trivial if at least one call completed or was aborted inside the package between the two snapshots",
    "C10": "a run is non-trivial if at least one batch of two or more points was compared with its points queried alone",
    "C11": "a run is non-trivial if a cached mode was used at least once",
    "C12": "a run is non-trivial if at least one replica answered and was compared with the baseline",
    "C13": "a run is non-trivial if a caller was stalled inside a call, a call was aborted, a call was nested, or calls interleaved",
    "C14": "a run is non-trivial if at least one call was interrupted inside the package and other calls ran to completion on its thread",
    "C15": "a run is non-trivial if the process forked at least once and its child made calls",
    "C16": "a run is non-trivial if objects were followed through at least one call until after they were dropped, or memory was measured over hundreds of calls",
    "C17": "a run is non-trivial if at least one exception of a user-supplied function, or an interrupt, was raised inside a call",
    "C18": "a run is non-trivial if at least one warning was delivered to a caller or raised",
    "C19": "a run is non-trivial if at least one call completed or was aborted while all attempts to reach outside the process were watched",
    "C20": "a run is non-trivial if at least one user-supplied function was called and the call was recorded",
}


def nontrivial(prop, o):
    if prop == "C01":
        return o["switches"] >= 2
    if prop == "C02":
        return o["switches"] >= 2 or o["nested"] > 0
    if prop == "C03":
        return o["steps"] >= 20
    if prop == "C04":
        return o["muts"] > 0
    if prop == "C05":
        return o["okops"] >= 2
    if prop == "C06":
        return bool(o["fired"]) or o["badops"] > 0
    if prop == "C07":
        return bool(o["fired"])
    if prop == "C08":
        return o["nops"] >= 3 or bool(o["env"])
    if prop == "C11":
        return o["caches"] > 0
    if prop == "C12":
        return o["okops"] > 0
    if prop == "C13":
        return o["stalls"] > 0 or bool(o["fired"]) or o["nested"] > 0 or o["switches"] > 1
    if prop == "C14":
        return o["intr"] > 0
    if prop == "C15":
        return o["forks"] > 0
    if prop == "C16":
        return o.get("watched", 0) > 0 or o["rounds"] > 0
    if prop == "C17":
        return bool(o["fired"])
    if prop == "C18":
        return o.get("warned", 0) > 0
    if prop == "C20":
        return o.get("cbseen", 0) > 0
    return o["nops"] > 0


# ------------------------------------------------------------------------------------------------ known findings
def known():
    try:
        with open(KNOWN) as f:
            return json.load(f)
    except OSError:
        return {"known": [], "fixed": []}


def report_known(prop):
    """Re-execute each listed finding; print its line if it is still there."""
    from . import sim
    for f in known()["known"]:
        if f["property"] != prop:
            continue
        if f["id"] == "interpolate-draws-global-rng":
            st, o = sim.fork_call(_rng_demo)
            if st == "ok" and o:
                print("KNOWN-FINDING: property=%s %s" % (prop, f["what"]))


def _rng_demo():
    _quiet()
    import numpy as np
    import PythonicDISORT
    from PythonicDISORT import subroutines
    np.random.seed(7)
    out = PythonicDISORT.pydisort(np.array([1.0]), np.array([0.5]), 8, np.array([[0.5 ** l for l in range(8)]]), 0.6, 1.0, 0.0)
    a = np.random.get_state()[1].tobytes(), np.random.get_state()[2]
    subroutines.interpolate(out[4])
    return (np.random.get_state()[1].tobytes(), np.random.get_state()[2]) != a


# ------------------------------------------------------------------------------------------------ fresh interpreters
def refdump(prop, base, n, path):
    """Reference answers of n scenarios, for comparison across interpreters with different hash seeds."""
    from . import gen, sim
    out = []
    for k in range(n):
        scen = gen.generate(prop, run_seed("X" + prop, base, k))
        scen["seed"] = k
        st, o = sim.fork_call(sim.compute_refs, scen, False)
        out.append((scen, o if st == "ok" else None))
    with open(path, "wb") as f:
        pickle.dump(out, f)


def cross_interpreters(base, n, W):
    """C08: the same calls in fresh interpreters with other hash seeds, heaps, optimisation levels and surroundings."""
    from . import sim
    d = os.path.join(HERE, "out")
    os.makedirs(d, exist_ok=True)
    seeds = [("0", [], {}), (str(1 + base % 4000000000 % 4294967295), ["-O"], {"MALLOC_PERTURB_": "165"}),
             ("random", ["-OO"], {"TZ": "Asia/Kolkata", "LC_ALL": "C", "HOME": "/nonexistent", "COLUMNS": "20"}),
             ("0", ["-X", "dev"], {"MALLOC_PERTURB_": "90", "OPENBLAS_NUM_THREADS": "3", "OMP_NUM_THREADS": "2"})]
    procs = []
    for i, (h, flags, more) in enumerate(seeds):
        p = os.path.join(d, "refdump.%d.%d" % (seams.real_getpid(), i))
        e = dict(os.environ, PYTHONHASHSEED=h, **more)
        procs.append((p, subprocess.Popen([PY] + flags + ["-m", "vsim", "refdump", "C08", str(base), str(n), p], cwd=HERE, env=e,
                                          stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)))
    res = []
    for p, pr in procs:
        pr.wait(timeout=600)
        with open(p, "rb") as f:
            res.append(pickle.load(f))
        os.unlink(p)
    compared = 0
    for j in range(1, len(seeds)):
        for (scen, a), (_, b) in zip(res[0], res[j]):
            if a is None or b is None:
                continue
            for key, op in sim.all_ops(scen):
                if a.get(key) is None or b.get(key) is None:
                    continue
                compared += 1
                x, y = a[key], b[key]
                if x["outcome"] != y["outcome"] or x["exc"] != y["exc"]:
                    return compared, (scen, key, "%s: %s in one interpreter, %s in another" % (sim.describe(op), sim.said(x), sim.said(y)))
                if x["outcome"] == "ok":
                    dd = sim.same_value(x["val"], y["val"], 1e-9, 1e-300)
                    if dd:
                        return compared, (scen, key, "%s gives other values in another interpreter: %s" % (sim.describe(op), dd))
    return compared, None


# ------------------------------------------------------------------------------------------------ check
def save_replay(prop, obj):
    d = os.path.join(HERE, "out")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "replay-%s-%s.json" % (prop, hashlib.sha256(json.dumps(obj, sort_keys=True, default=str).encode()).hexdigest()[:10]))
    with open(p, "w") as f:
        json.dump(obj, f, indent=1, default=_js)
    return p


def _js(o):
    import numpy as np
    if isinstance(o, np.generic):
        return o.item()
    if isinstance(o, (set, tuple)):
        return list(o)
    return str(o)


def summarise(scen):
    from . import sim
    f = lambda l: [sim.describe(o) + (" !" + ",".join("%s@%s" % (x["kind"], x.get("at", "?")) for x in o["faults"]) if o.get("faults") else "")
                   for o in l]
    return {"seed": scen["seed"], "problems": [{k: c[k] for k in ("NQuad", "tau", "I0", "NT", "ag")} for c in scen["cfgs"]],
            "setup": f(scen.get("setup", [])), "callers": [f(t) for t in scen["tasks"]], "after": f(scen.get("post", [])),
            "schedule": {k: v for k, v in scen["sched"].items() if k in ("kind", "p", "len", "n", "d", "first")},
            "environment": scen.get("env", {})}


def check(prop):
    tier = os.environ.get("VERIF_TIER", "quick")
    base = int(os.environ.get("VERIF_SEED", "1"))
    W = int(os.environ.get("VSIM_WORKERS", str(max(1, min(8, os.cpu_count() or 1)))))
    n = RUNS[prop][0 if tier == "quick" else 1]
    n = int(os.environ.get("VSIM_RUNS", n))
    print("seed %d property %s tier %s runs %d workers %d" % (base, prop, tier, n, W))
    sys.stdout.flush()
    t0 = now()
    prepare()
    from . import envstate, gen, shrink, sim
    st = {"runs": 0, "steps": 0, "switches": 0, "fired": {}, "digests": set(), "nontrivial": set(), "kinds": {}, "fns": set(),
          "seen": set(), "pre": set(), "sites": set(), "heap": 0, "blocked": 0, "stalls": 0, "nested": 0, "ok": 0, "exc": 0,
          "clock": 0.0, "errors": [], "envs": {}, "instr": 0, "bad": 0, "muts": 0, "intr": 0, "forks": 0, "mid": 0, "rounds": 0, "watched": 0, "warned": 0}
    viol = []

    def on_result(o):
        if o.get("err"):
            st["errors"].append((o["seed"], o["err"]))
            return len(st["errors"]) > 25 and not viol
        st["runs"] += 1
        if o["viol"]:
            viol.append(o)
            return True
        st["steps"] += o["steps"]
        st["switches"] += o["switches"]
        st["digests"].add(o["digest"])
        if nontrivial(prop, o):
            st["nontrivial"].add(o["digest"] + str(o["nops"]) + str(o["okops"]))
        st["kinds"][o["kind"]] = st["kinds"].get(o["kind"], 0) + 1
        for f in o["fired"]:
            key = f[0] + (":" + str(f[1]) if f[0] in ("abort", "callback", "escalated") else (":linear algebra" if f[3] == 2 else ":numerical"))
            st["fired"][key] = st["fired"].get(key, 0) + 1
            st["sites"].add(tuple(f))
        for k, v in o["env"].items():
            key = "%s=%s" % (k, v) if k in ("heap", "warn", "err") else k
            st["envs"][key] = st["envs"].get(key, 0) + 1
        st["fns"].update(o["fns"])
        st["seen"] |= o["seen"]
        st["pre"] |= o["preempted"]
        for a, b in (("heap", "heap"), ("blocked", "blocked"), ("stalls", "stalls"), ("nested", "nested"), ("ok", "okops"),
                     ("exc", "excops"), ("clock", "clock"), ("bad", "badops"), ("muts", "muts"), ("intr", "intr"), ("forks", "forks"),
                     ("mid", "mid"), ("rounds", "rounds"), ("watched", "watched"), ("warned", "warned")):
            st[a] += o.get(b, 0)
        st["instr"] += o["gran"] == "instr"
        return False

    extra = {}
    found = None
    if prop == "C09" and envstate.IMPORT_DIFF:
        found = ({"prop": "C09", "import": True}, "importing the package changed: " + "; ".join(envstate.IMPORT_DIFF))
    if prop == "C08" and not found:
        m, x = cross_interpreters(base, 24 if tier == "quick" else 400, W)
        extra["calls compared across fresh interpreters (hash seed, -O, -OO, -X dev, heap contents, locale, BLAS threads)"] = m
        if x:
            found = ({"prop": "C08", "cross": True, "base": base, "n": 24 if tier == "quick" else 400}, x[2])
    timed_out = False
    if not found:
        timed_out = pool(prop, base, n, W, WALL.get(tier, 420.0), on_result)
    wall = now() - t0
    rc = 0
    if found:
        path = save_replay(prop, dict(found[0], what=found[1]))
        print("violation: %s" % found[1])
        print("VIOLATION property=%s replay=%s" % (prop, path))
        rc = 1
    elif viol:
        o = min(viol, key=lambda o: o["k"])
        scen = o["scen"]
        print("violation in run %d (seed %d): %s: %s" % (o["k"], o["seed"], o["viol"][0], o["viol"][1]))
        sys.stdout.flush()
        r = confirm(scen, o, shrink, sim)
        if r is None:
            print("harness error: the violation of run %d (seed %d) could not be reproduced" % (o["k"], o["seed"]))
            rc = 2
        else:
            scen, o2, tries = r
            path = save_replay(prop, {"prop": prop, "violation": list(o2["viol"]), "digest": o2["digest"], "found_by": {
                "VERIF_SEED": base, "run": o["k"], "seed": o["seed"]}, "minimisation_runs": tries, "scenario": scen})
            print("minimised: %s: %s" % tuple(o2["viol"]))
            print(json.dumps(summarise(scen), default=_js))
            print("VIOLATION property=%s replay=%s" % (prop, path))
            rc = 1
    elif len(st["errors"]) > max(3, 0.01 * st["runs"]):
        print("harness error in %d runs, e.g. seed %d:\n%s" % (len(st["errors"]), st["errors"][0][0], st["errors"][0][1]))
        rc = 2
    elif st["runs"] < 50:
        print("harness error: only %d runs completed" % st["runs"])
        rc = 2
    if rc == 0:
        report_known(prop)
    samples = []
    for k in range(3):
        samples.append(summarise(gen.generate(prop, run_seed(prop, base, k))))
    nlines = sum(len({l for _, _, l in c.co_lines() if l}) for c in seams.CODES if c.co_name != "<module>")
    ev = {
        "property": prop, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": base, "level": "exploration",
        "coverage": {
            "evaluations": st["runs"], "distinct_nontrivial": len(st["nontrivial"]),
            "rule": "each evaluation is one simulated run: a scenario (problems, callers, operations, faults, environment, "
                    "schedule) drawn from a seed derived from VERIF_SEED, executed in its own process and judged against isolated "
                    "reference executions; distinct = different hash of the executed event sequence (caller, package line, order); "
                    + RULES[prop],
            "samples": samples,
            "runs_per_hour": int(st["runs"] / max(wall, 1e-3) * 3600), "seeds_per_hour": int(st["runs"] / max(wall, 1e-3) * 3600),
            "simulated_steps": st["steps"],
            "simulated_time": "logical: %d scheduling steps; simulated clock advanced %.3f s (the package has no timers)" % (st["steps"], st["clock"]),
            "context_switches_inside_calls": st["switches"],
            "distinct_event_sequences": len(st["digests"]),
            "distinct_lines_at_which_a_call_was_preempted": len(st["pre"]),
            "package_lines_executed_under_simulation": len(st["seen"]), "package_lines": nlines,
            "runs_by_scheduling_strategy": st["kinds"], "runs_with_bytecode_granularity": st["instr"],
            "faults_fired": st["fired"], "distinct_fault_sites": len(st["sites"]), "uninitialised_arrays_poisoned": st["heap"],
            "calls_stalled_inside": st["stalls"], "nested_calls": st["nested"], "calls_interrupted_by_calls_on_their_thread": st["intr"],
            "forks": st["forks"], "callers_inside_a_call_at_a_fork": st["mid"], "rounds_with_memory_measured": st["rounds"],
            "objects_followed_until_dropped": st["watched"], "warnings_delivered": st["warned"],
            "lock_waits": st["blocked"],
            "invalid_inputs_tried": st["bad"], "caller_objects_overwritten": st["muts"], "environments": st["envs"],
            "calls_returned": st["ok"], "calls_raised": st["exc"], "entry_points": sorted(st["fns"]),
            "inconclusive_runs": len(st["errors"]), "stopped_by_time_limit": timed_out,
            "real_components": "all PythonicDISORT code of the working tree, numpy, scipy, autograd, CPython threads and memory",
            "simulated_components": "thread scheduling (one thread runs at a time, the seed decides every switch), threading locks, clocks and "
                                    "sleep, contents of numpy.empty arrays, global random generators, injected interrupts / allocation / kernel / "
                                    "callback failures, user-supplied reflectance functions and all callers",
        },
        "assumptions": [
            "preemption at Python line granularity (a share of the runs: bytecode) inside the package; numpy/scipy calls are atomic",
            "reference answers come from the same tree, each operation alone in a fresh copy of the process",
            "values are equal when they agree to 1e-9 of the largest value (1e-8 point by point, 1e-6 between replicas)",
        ],
        "wall_s": round(now() - t0, 2), "violations": 1 if rc == 1 else 0,
    }
    ev["coverage"].update(extra)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=_js)
    print("%d runs, %d non-trivial distinct, %d steps, faults %s, %.1f s" % (
        st["runs"], len(st["nontrivial"]), st["steps"], json.dumps(st["fired"]), now() - t0))
    return rc


def confirm(scen, o, shrink, sim):
    """Reproduce, minimise, and reproduce the minimised scenario in a fresh interpreter."""
    cls = o["viol"][0]
    scen = json.loads(json.dumps(scen, default=_js))
    sh = shrink.Shrinker(scen, cls)
    first = None
    for _ in range(3):
        first = sh.fails(scen)
        if first:
            break
    if not first:
        return None
    sh.last = first
    dn = os.open(os.devnull, os.O_WRONLY)
    keep = os.dup(2)
    os.dup2(dn, 2)
    try:
        best = sh.run()
    finally:
        os.dup2(keep, 2)
        os.close(dn)
        os.close(keep)
    for cand in (best, scen):
        p = save_replay(scen["prop"], {"prop": scen["prop"], "violation": [cls, ""], "scenario": cand})
        r = subprocess.run([PY, "-m", "vsim", "replay", p], cwd=HERE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=420)
        os.unlink(p)
        if r.returncode == 1:
            got = sh.fails(cand)
            if got:
                return cand, got, sh.tries
    return None


def replay(path):
    with open(path) as f:
        obj = json.load(f)
    prop = obj["prop"]
    prepare()
    from . import envstate, sim
    if obj.get("import"):
        print("importing changes: %s" % "; ".join(envstate.IMPORT_DIFF))
        if envstate.IMPORT_DIFF:
            print("VIOLATION property=%s replay=%s" % (prop, path))
            return 1
        return 0
    if obj.get("cross"):
        _, x = cross_interpreters(obj["base"], obj["n"], 8)
        if x:
            print(x[2])
            print("VIOLATION property=%s replay=%s" % (prop, path))
            return 1
        return 0
    st, o = sim.fork_call(sim.run_any, obj["scenario"], timeout=sim.limit(obj["scenario"]))
    if st != "ok" or o["err"]:
        print("harness error: %s" % (o if st != "ok" else o["err"]))
        return 2
    print("seed %s digest %s steps %d switches %d" % (o["seed"], o["digest"], o["steps"], o["switches"]))
    if o["viol"]:
        print("%s: %s" % tuple(o["viol"]))
        if obj.get("digest"):
            print("event sequence %s the recorded one" % ("equals" if o["digest"] == obj["digest"] else "differs from"))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    print("no violation")
    return 0


def digests(props, base, n, W):
    """For the determinism self-test: one line per run."""
    prepare()
    rows = []
    for p in props:
        def on(o, p=p):
            rows.append((p, o["k"], o.get("digest"), o.get("steps"), o.get("switches"), o.get("okops"), o.get("excops"),
                         json.dumps(o.get("fired")), str(o["viol"]), bool(o.get("err"))))
        pool(p, base, n, W, 600, on)
    for r in sorted(rows):
        print(*r)
    return 0


def main(argv):
    if argv[0] == "check":
        return check(argv[1])
    if argv[0] == "replay":
        return replay(argv[1])
    if argv[0] == "refdump":
        prepare()
        refdump(argv[1], int(argv[2]), int(argv[3]), argv[4])
        return 0
    if argv[0] == "digests":
        return digests(argv[1].split(","), int(argv[2]), int(argv[3]), int(argv[4]))
    print("usage: check <property> | replay <file> | digests <props> <seed> <n> <workers>")
    return 2
