"""Seeded generation of scenarios (callers, operations, faults, schedule, environment), one generator per property."""
import copy
import random

from . import ops, problem
from .problem import gen_cfg, gen_taus, gen_values, uni, variant, well_conditioned

CB_EXC = ["ValueError", "TypeError", "ZeroDivisionError", "FloatingPointError", "RuntimeError", "IndexError", "KeyError",
          "AttributeError", "StopIteration", "OSError", "TimeoutError", "AssertionError", "NotImplementedError",
          "OverflowError", "RecursionError", "UserWarning", "Exception", "MemoryError", "LinAlgError", "KeyboardInterrupt",
          "LookupError", "EOFError", "BufferError", "ImportError", "ArithmeticError", "UnboundLocalError"]
KN_EXC = [None, None, None, "MemoryError", "FloatingPointError", "FloatingPointError", "ValueError", "ArithmeticError",
          "ZeroDivisionError", "OverflowError", "LinAlgError", "RuntimeError", "TypeError"]
AB_EXC = ["KeyboardInterrupt", "KeyboardInterrupt", "MemoryError", "MemoryError", "TimeoutError", "RecursionError"]


# ------------------------------------------------------------------------------------------------ pieces
def sched(rng, n, serial=0.06):
    if n == 1 or rng.random() < serial:
        return {"kind": "serial", "first": rng.randrange(n)}
    k = rng.choices(["rw", "burst", "lockstep", "hot", "pct"], [30, 20, 12, 22, 22])[0]
    f = rng.randrange(n)
    if k == "rw":
        return {"kind": k, "p": rng.choice([0.02, 0.08, 0.25, 0.6]), "first": f}
    if k == "burst":
        return {"kind": k, "first": f}
    if k == "lockstep":
        return {"kind": k, "len": rng.choice([1, 1, 2, 3, 5, 9]), "first": f}
    if k == "hot":
        return {"kind": k, "p": rng.choice([0.3, 0.6, 0.95]), "n": rng.choice([1, 2, 3, 6]), "first": f}
    return {"kind": k, "d": rng.choice([1, 1, 2, 3, 4, 6]), "first": f}


def lock_faults(scen, rng, p):
    """Callers that are paused, or die, while they hold a lock of the library (if it has any)."""
    n = len(scen["tasks"])
    for t in scen["tasks"]:
        for o in t:
            if o["op"] in ("mut", "gc") or rng.random() > p * (2 if o["op"] == "derive" else 1):
                continue
            act = "stall" if scen["prop"] == "C13" and n > 1 and rng.random() < 0.5 else "abort"
            o["faults"] = o.get("faults", []) + [{"kind": "inlock", "act": act, "exc": rng.choice(AB_EXC),
                                                  "skip": rng.choice([0, 0, 0, 1, 2, 5, 20])}]


def repeats(scen, rng):
    """Callers that make the same call many times, and single layers given without the layer axis."""
    p = {"C08": 0.16, "C01": 0.03, "C05": 0.04, "C06": 0.03}.get(scen["prop"], 0)
    for _, o in walk(scen):
        if o["op"] in ("ev", "hp") and p and rng.random() < p and not o.get("faults") and not o.get("nr"):
            o["times"] = rng.choice([2, 3, 5, 8, 13, 13, 21, 34, 70]) if scen["prop"] == "C08" else rng.choice([2, 3, 5, 9])
            if o["op"] == "ev" and rng.random() < 0.5:
                o["vary"] = True
        if o["op"] == "solve" and scen["prop"] not in ("C04", "C10", "C12") and len(scen["cfgs"][o["cfg"]]["tau"]) == 1 \
                and not o.get("bad") and not o.get("leg0") and rng.random() < 0.25:
            o["scalar"] = True


def again(scen, rng):
    """Now and then a helper is called a second time with the very same arguments, and both results are kept."""
    if scen["prop"] not in ("C01", "C02", "C05", "C06", "C08", "C04", "C14"):
        return
    for t in scen["tasks"]:
        for i in range(len(t) - 1, -1, -1):
            o = t[i]
            if o["op"] == "hp" and not o.get("nr") and rng.random() < (0.5 if o.get("shcb") else 0.15):
                d = copy.deepcopy(o)
                for k in ("faults", "intr", "stall", "times"):
                    d.pop(k, None)
                (t if rng.random() < 0.6 else rng.choice(scen["tasks"])).append(d)


def paused(scen, rng):
    """One caller is paused in the middle of a call while another makes many calls of the same kind."""
    cand = [(t, o) for t in scen["tasks"] for o in t if o["op"] in ("ev", "solve", "hp") and not o.get("faults") and not o.get("nested")
            and not o.get("shq") and not o.get("nr") and not o.get("bad")]
    if not cand:
        return
    l, o = rng.choice(cand)
    o["stall"] = rng.random()
    many = []
    cfgs = scen["cfgs"]
    if o["op"] == "solve":
        base = len(cfgs)
        cfgs.extend(same_shape(rng, cfgs[o["cfg"]]) for _ in range(2))
    for j in range(rng.choice([2, 3, 5, 9]) if o["op"] == "solve" else rng.choice([4, 8, 15, 30, 60])):
        if o["op"] == "ev":
            i = int(o["slot"][1:]) if o["slot"][1:].isdigit() else 0
            d = sibling(rng, cfgs[i], o)
        elif o["op"] == "hp":
            d = ops.kin_helper(rng, o)
        else:
            d = {"op": "solve", "cfg": base + j % 2, "probe": []}
        for k in ("stall", "times", "vary", "tick"):
            d.pop(k, None)
        d["nr"] = 1
        many.append(d)
    others = [t for t in scen["tasks"] if t is not l]
    if others and rng.random() < 0.7:
        rng.choice(others).extend(many)
    else:
        scen["tasks"].append(many)


def keep_only(scen, rng):
    """Callers that keep only the functions they use (and none of the arguments)."""
    if scen["prop"] not in ("C01", "C02", "C04", "C06", "C08"):
        return
    for _, s in walk(scen):
        if s["op"] != "solve" or not s.get("slot") or s.get("shared") or s.get("reuse") or rng.random() > 0.25:
            continue
        if scen["prop"] == "C04" and rng.random() < 0.6:    # instead of modifying its objects, this caller gives them up
            for t in scen["tasks"]:
                t[:] = [o for o in t if o["op"] != "mut" or o.get("slot") != s["slot"]] or [{"op": "gc"}]
        mine = [o for _, o in walk(scen) if o.get("slot") == s["slot"] and o is not s]
        if any(o["op"] not in ("ev", "mut") or o["op"] == "mut" and o["what"] in ("args", "callbacks") for o in mine):
            continue
        used = sorted({o["fn"].replace("g:", "") for o in mine if o["op"] == "ev"})
        if used and rng.random() < 0.5:     # one of them
            f = rng.choice(used)
            for t in scen["tasks"]:
                t[:] = [o for o in t if o.get("slot") != s["slot"] or o["op"] != "ev" or o["fn"].replace("g:", "") == f]
            if not all(scen["tasks"]):
                for t in scen["tasks"]:
                    if not t:
                        t.append({"op": "gc"})
            used = sorted({o["fn"].replace("g:", "") for _, o in walk(scen) if o["op"] == "ev" and o.get("slot") == s["slot"]})
        s["only"] = used
        if rng.random() < (0.6 if scen["prop"] == "C04" else 0.3):     # what was given up may be used for something else
            t = rng.choice(scen["tasks"])
            i = rng.randrange(len(scen["cfgs"]))
            if rng.random() < 0.7 and "ref_cfgs" not in scen:
                i = len(scen["cfgs"])
                scen["cfgs"].append(same_shape(rng, scen["cfgs"][s["cfg"]]))
            t.insert(rng.randint(0, len(t)) if rng.random() < 0.5 else 0, solve(rng, scen["cfgs"], i, None, 1))


def finish(scen, rng, instr=0.0):
    again(scen, rng)
    keep_only(scen, rng)
    for _, o in walk(scen):         # time passes between calls, sometimes a lot, sometimes backwards
        if rng.random() < (0.1 if scen["prop"] == "C08" else 0.015):
            o["tick"] = rng.choice([0.5, 11.0, 61.0, 601.0, 3601.0, 1e5, -30.0, -4000.0])
    repeats(scen, rng)
    if scen["prop"] in ("C13", "C06", "C11", "C09"):
        lock_faults(scen, rng, {"C13": 0.3, "C06": 0.1}.get(scen["prop"], 0.05))
    faults = any(o.get("faults") or o.get("stall") is not None or o.get("intr") for _, o in walk(scen))
    scen["sched"] = scen.get("sched") or sched(rng, len(scen["tasks"]))
    if rng.random() < (0.3 if scen["prop"] == "C09" else 0.12):
        scen["sched"]["main"] = rng.randrange(len(scen["tasks"]))
    scen["gran"] = "instr" if rng.random() < instr else "line"
    scen["trace"] = bool(faults or scen["sched"]["kind"] in ("hot", "pct") or scen["prop"] == "C13")
    scen.setdefault("env", {})
    scen.setdefault("setup", [])
    scen.setdefault("post", [])
    return scen


def mirror(rng, tasks):
    """Every caller makes the same calls (as far as they stand on their own), so that equal calls overlap."""
    for t in range(1, len(tasks)):
        tasks[t] = [copy.deepcopy(o) for o in tasks[0]]
        for o in tasks[t]:
            if o["op"] in ("solve", "mkcache") and o.get("slot"):
                o["slot"] = "%s.%d" % (o["slot"], t)
            if o.get("faults") and rng.random() < 0.7:
                o.pop("faults")
            o.pop("stall", None)


def walk(scen):
    def w(o):
        yield None, o
        for x in (o.get("nested") or {}).get("ops", ()):
            yield from w(x)
        for h in o.get("intr", ()):
            for x in h["ops"]:
                yield from w(x)
        if o["op"] == "fork":
            for x in o["ops"]:
                yield from w(x)
    for o in scen.get("setup", ()):
        yield from w(o)
    for t in scen["tasks"]:
        for o in t:
            yield from w(o)
    for o in scen.get("post", ()):
        yield from w(o)


def angle(rng):
    k = rng.random()
    return uni(rng, 0, 6.28) if k < 0.9 else rng.choice([0.0, 3.141592653589793, 6.283185307179586]) if k < 0.95 else uni(rng, -6.28, 12.56)


def mu_pts(rng, n):
    out = []
    for _ in range(n):
        k = rng.random()
        out.append(uni(rng, -1, 1) if k < 0.9 else rng.choice([1.0, -1.0, 0.0]))
    return out


def query(rng, cfg, slot, fn=None, nt=None, nphi=None, nmu=None, flags=True, forms=True, unsorted=True, fns=None):
    fn = fn or rng.choice(fns or problem.fns_of(cfg))
    nt = nt or rng.choices([1, 2, 3, 4, 6, 9, 17, 40, 130], [250, 220, 200, 150, 100, 80, 14, 8, 4])[0]
    q = {"op": "ev", "slot": slot, "fn": fn, "tau": gen_taus(rng, cfg, nt, unsorted)}
    if fn in ("u", "iu"):
        q["phi"] = [angle(rng) for _ in range(nphi or rng.choices([1, 2, 3, 4, 5, 8, 20, 70], [38, 20, 18, 14, 5, 3, 1.2, 0.6])[0])]
    if fn in ("iu", "iu0"):
        q["mu"] = mu_pts(rng, nmu or rng.choices([1, 2, 3, 5, 9, 33], [24, 24, 24, 22, 4, 2])[0])
    if flags:
        if rng.random() < 0.25:
            q["anti"] = True
        if fn in ("u", "iu") and rng.random() < 0.2 and not cfg["ag"]:
            q["ferr"] = True
        if fn != "iu0" and rng.random() < 0.12:
            q["rtau"] = True
        if rng.random() < 0.3:
            q["kw"] = True
    if forms:
        if nt == 1 and len(q.get("phi", [0])) == 1 and len(q.get("mu", [0])) == 1 and rng.random() < 0.6:
            q["form"] = rng.choice(["scalar", "npscalar"])
        else:
            q["form"] = rng.choices(["array", "list", "strided", "readonly"], [70, 10, 10, 10])[0]
    return q


def sibling(rng, cfg, q):
    """A query like q: same function and shapes, other values; or the same with other flags; or the very same."""
    r = copy.deepcopy(q)
    k = rng.random()
    if k < 0.55:
        r["tau"] = gen_taus(rng, cfg, len(q["tau"]))
        if "phi" in q:
            r["phi"] = [angle(rng) for _ in q["phi"]]
        if "mu" in q:
            r["mu"] = mu_pts(rng, len(q["mu"]))
        if rng.random() < 0.3:
            r["anti"] = not q.get("anti", False)
    elif k < 0.7:
        r["anti"] = not q.get("anti", False)
    elif k < 0.8 and "phi" in q:
        r["phi"] = [angle(rng) for _ in q["phi"]]
    elif k < 0.87:
        r["tau"] = gen_taus(rng, cfg, len(q["tau"]))
    elif k < 0.93:      # almost the same points
        for x in ("tau", "phi", "mu"):
            if r.get(x) and rng.random() < 0.7:
                i = rng.randrange(len(r[x]))
                v = problem.nudge(rng, r[x][i])
                if x == "tau" and v > cfg["tau"][-1] or x == "mu" and abs(v) > 1:
                    continue
                r[x][i] = v
    return r


def out_of_range(rng, cfg, q):
    """The same call with a point that does not exist."""
    r = copy.deepcopy(q)
    k = rng.choice(["tau", "tau", "mu"])
    if k == "mu" and r.get("mu"):
        r["mu"][rng.randrange(len(r["mu"]))] = rng.choice([1.5, -1.2])
    else:
        r["tau"][rng.randrange(len(r["tau"]))] = cfg["tau"][-1] + 1.0
    return r


def need(q):
    return {"au": "act", "ad": "act", "iu": "iu", "iu0": "iu0"}.get(q["fn"].replace("g:", ""))


def rederive(rng, cfg, slot):
    """Construct derived functions once more."""
    w = rng.choice([["act"], ["iu0"], ["iu"], ["act", "iu", "iu0"]] if not cfg["only_flux"] else [["act"], ["iu0"], ["act", "iu0"]])
    return {"op": "derive", "slot": slot, "which": w, "re": 1}


def with_derive(scen):
    """Give every solve exactly the derived functions its evaluations use."""
    want = {}
    for _, o in walk(scen):
        if o["op"] == "ev" and need(o):
            want.setdefault(o["slot"], set()).add(need(o))
    have = {}
    for _, o in walk(scen):
        if o["op"] == "derive" and not o.get("re"):
            have.setdefault(o["slot"], set()).update(o["which"])
    for _, o in walk(scen):
        if o["op"] == "solve" and o.get("slot"):
            d = (want.get(o["slot"], set()) - have.get(o["slot"], set())) | {need(q) for q in o.get("probe", ()) if need(q)}
            o["derive"] = sorted(d)
        elif o["op"] == "solve":
            o["derive"] = sorted({need(q) for q in o.get("probe", ()) if need(q)})
    return scen


def probes(rng, cfg, n=2, fns=None):
    out = []
    base = fns or [f for f in problem.fns_of(cfg) if f not in ("iu", "iu0")]
    pick = ["u"] if "u" in base and rng.random() < 0.75 else []
    while len(pick) < n:
        pick.append(rng.choice(base))
    for f in pick:
        q = query(rng, cfg, None, f, nt=rng.choice([2, 3, 4]), nphi=2, flags=False, forms=False)
        if rng.random() < 0.15:
            q["anti"] = True
        q.pop("op")
        q.pop("slot")
        out.append(q)
    return out


def solve(rng, cfgs, i, slot=None, nprobe=2, **kw):
    o = {"op": "solve", "cfg": i}
    if slot:
        o["slot"] = slot
    if nprobe:
        o["probe"] = probes(rng, cfgs[i], nprobe)
    if rng.random() < 0.3:
        o["form"] = rng.choice(["list", "fortran", "strided", "readonly"])
    if rng.random() < 0.4 and cfgs[i]["bdrf"]:
        o["cb"] = rng.choice(["plain", "yield", "buffer", "memo", "memo_ro"])
    o.update(kw)
    return o


def small(rng, **w):
    """A configuration sized for runs with many scheduling points (rarely: one of a size met in applications)."""
    if "NQuad" not in w and "NL" not in w and rng.random() < 0.03:
        if rng.random() < 0.6:
            w.update(NL=rng.choice([6, 8, 10, 11, 16, 24]), NF=rng.choice([1, 2, 3]))
        else:
            w.update(NQuad=rng.choice([10, 12, 16, 20, 32]), NF=rng.choice([1, 2, 3, 5]))
    w.setdefault("NQuad", rng.choices([2, 4, 6, 8], [10, 50, 22, 18])[0])
    w.setdefault("NL", rng.choices([1, 2, 3, 4], [25, 40, 25, 10])[0])
    return gen_cfg(rng, **w)


def same_shape(rng, c):
    """Same structure, other values."""
    for _ in range(50):
        d = gen_values(rng, copy.deepcopy(c))
        if well_conditioned(d):
            return d
    return copy.deepcopy(c)


def fault(rng, kinds=("abort", "kernel", "callback")):
    k = rng.choice(kinds)
    if k == "abort":
        return {"kind": "abort", "u": rng.random(), "v": rng.random(), "exc": rng.choice(AB_EXC),
                "pick": rng.choice(["site", "site", "step"])}
    if k == "kernel":
        return {"kind": "kernel", "u": rng.random(), "v": rng.random(),
                "linalg": (lambda x: "import" if x < 0.05 else x < 0.4)(rng.random()),
                "repeat": rng.choice([1, 1, 1, 2, 3, 1000]), "exc": rng.choice(KN_EXC)}
    return {"kind": "callback", "u": rng.random(), "exc": rng.choice(CB_EXC), "repeat": rng.choice([1, 1, 2, 1000])}


def env(rng, level=0.3):
    e = {}
    if rng.random() < level:
        e["heap"] = rng.choice(["nan", "huge", "neg", "tiny", "rand", "rand"])
    return e


def crowd(rng, cfgs, slots, n=None):
    """Many calls whose results nobody judges: they only make a long history (for caches, pools and counters)."""
    out = []
    k = rng.choice(["ev", "ev", "ev", "solve", "hp", "mix"])
    n = n or rng.choice([20, 40, 70, 140])
    if k == "ev" and not slots:
        k = "hp"
    s, i = rng.choice(slots) if slots else (None, 0)
    h = ops.gen_helper(rng)
    q = query(rng, cfgs[i], s, forms=False) if slots else None
    cs = [problem.small_twin(rng, cfgs[0]) for _ in range(rng.choice([1, 3, 12]))] if k in ("solve", "mix") else []
    base = len(cfgs)
    cfgs.extend(cs)
    for j in range(n):
        w = k if k != "mix" else rng.choice(["ev", "hp", "solve"] if slots else ["hp", "solve"])
        if w == "ev":
            o = sibling(rng, cfgs[i], q)
        elif w == "hp":
            o = ops.kin_helper(rng, h) if rng.random() < 0.6 else ops.gen_helper(rng)
        else:
            if j >= 40:
                continue
            o = {"op": "solve", "cfg": base + j % len(cs)}
        o["nr"] = 1
        if rng.random() < 0.5:
            o["drop"] = True
        out.append(o)
    return out


# ------------------------------------------------------------------------------------------------ C01
def g_C01(rng):
    cfgs = [small(rng, ag=rng.random() < 0.08)]
    nslots = 1
    if rng.random() < 0.25:
        cfgs.append(same_shape(rng, cfgs[0]) if rng.random() < 0.7 else small(rng))
        nslots = 2
    setup = [{"op": "solve", "cfg": i, "slot": "S%d" % i} for i in range(nslots)]
    if cfgs[0]["bdrf"] and rng.random() < 0.3:
        setup[0]["cb"] = "memo"
    nt = rng.choices([2, 3, 4], [60, 28, 12])[0]
    base = query(rng, cfgs[0], "S0")
    tasks = []
    mode = rng.random()
    for t in range(nt):
        l = []
        for k in range(rng.choice([1, 1, 2, 3])):
            i = rng.randrange(nslots)
            if mode < 0.6:
                q = sibling(rng, cfgs[i] if cfgs[i]["tau"][-1] <= cfgs[0]["tau"][-1] else cfgs[0], base) if i == 0 or \
                    base["fn"] in problem.fns_of(cfgs[i]) else query(rng, cfgs[i], "S%d" % i)
                if i != 0 and max(q["tau"]) > cfgs[i]["tau"][-1]:
                    q["tau"] = gen_taus(rng, cfgs[i], len(q["tau"]))
                q["slot"] = "S%d" % i
            else:
                q = query(rng, cfgs[i], "S%d" % i)
            if rng.random() < 0.12 and q.get("form") in ("array", "readonly"):
                q["shq"] = "q"
                q["tau"], q["form"] = base["tau"], base.get("form", "array")
                if "phi" in q:
                    q["phi"] = base.get("phi", q["phi"])
                if "mu" in q:
                    q["mu"] = base.get("mu", q["mu"])
                if q["fn"] != base["fn"] or q["slot"] != base["slot"]:
                    q.pop("shq")
                    q["tau"] = gen_taus(rng, cfgs[i], len(q["tau"]))
            l.append(q)
            if rng.random() < 0.05:
                l.insert(len(l) - 1, rederive(rng, cfgs[i], q["slot"]))
        tasks.append(l)
    scen = {"prop": "C01", "cfgs": cfgs, "setup": setup, "tasks": tasks}
    if rng.random() < 0.3:
        scen["setup"].append(sibling(rng, cfgs[0], base))
    if rng.random() < 0.02:
        scen["setup"] += crowd(rng, cfgs, [("S0", 0)])
    elif rng.random() < 0.09:
        paused(scen, rng)
    with_derive(scen)
    scen["env"] = env(rng, 0.15)
    return finish(scen, rng, 0.12)


# ------------------------------------------------------------------------------------------------ C02
def g_C02(rng):
    kind = rng.choices(["solves", "nested", "helpers", "like"], [52, 27, 16, 5])[0]
    if kind == "like":              # the same helper in several callers, with equally shaped arguments
        h = ops.gen_helper(rng)
        scen = {"prop": "C02", "cfgs": [], "env": env(rng, 0.1),
                "tasks": [[ops.like_helper(rng, h) if rng.random() < 0.85 else ops.gen_helper(rng) for _ in range(rng.choice([1, 2, 3]))]
                          for _ in range(rng.choice([2, 2, 3]))]}
        return finish(scen, rng, 0.2)
    c = small(rng, ag=rng.random() < 0.06, bdrf=rng.randint(1, 3) if kind == "nested" else None,
              fnp=1.0 if kind == "nested" else None)
    cfgs = [c]
    for _ in range(rng.choice([1, 1, 2])):
        k = rng.random()
        cfgs.append(same_shape(rng, c) if k < 0.45 else variant(rng, c) if k < 0.85 else small(rng))
    if kind == "nested":
        o = solve(rng, cfgs, 0, cb="nested")
        inner = []
        for _ in range(rng.choice([1, 1, 2])):
            k = rng.random()
            if k < 0.7:
                inner.append(solve(rng, cfgs, rng.choice([0, 1, len(cfgs) - 1]), nprobe=1, cb="plain"))
            else:
                inner.append(ops.gen_helper(rng))
        o["nested"] = {"ops": inner, "max": 1, "m": rng.randrange(3)}
        if rng.random() < 0.3:      # the nested solves use the very same argument objects and reflectance functions
            o.pop("form", None)
            o["shared"] = "N"
            for p in inner:
                if p["op"] == "solve" and p["cfg"] == 0:
                    p.pop("form", None)
                    p["shared"] = "N"
        tasks = [[o]]
        if "shared" not in o and rng.random() < 0.2:      # nested calls while reflectances are being cached
            tasks = [[{"op": "mkcache", "cfg": 0, "slot": "K", "cb": "nested", "nested": o["nested"],
                       "mode": rng.choice(["mu0", "nodes"]) if c["I0"] else "nodes"},
                      solve(rng, cfgs, 0, cache="K", cb="plain")]]
        if rng.random() < 0.4:
            tasks.append([solve(rng, cfgs, rng.randrange(len(cfgs)))])
        if rng.random() < 0.3:
            tasks[0].append(solve(rng, cfgs, 1))
    else:
        n = rng.choices([2, 3, 4], [65, 25, 10])[0]
        tasks = []
        for t in range(n):
            l = []
            for _ in range(rng.choice([1, 1, 2]) if kind == "solves" else rng.choice([1, 2, 3])):
                if kind == "helpers" and rng.random() < 0.6:
                    l.append(ops.gen_helper(rng))
                else:
                    o = solve(rng, cfgs, rng.randrange(len(cfgs)))
                    if rng.random() < 0.3:
                        o["shared"] = "A"
                        o.pop("form", None)
                        o["cb"] = rng.choice(["plain", "yield", "buffer"])
                    l.append(o)
            tasks.append(l)
        if kind == "helpers" and rng.random() < 0.6:      # the same helper in several callers
            h = ops.gen_helper(rng)
            for l in tasks:
                x = rng.random()
                if x < 0.6:
                    l.append(ops.kin_helper(rng, h))
                    continue
                for _ in range(20):
                    h2 = ops.gen_helper(rng)
                    if h2["name"] == h["name"]:
                        l.append(h2)
                        break
    if kind != "nested" and rng.random() < 0.12:
        mirror(rng, tasks)
    scen = {"prop": "C02", "cfgs": cfgs, "tasks": tasks}
    if rng.random() < 0.06:
        paused(scen, rng)
    fix_shared(scen)
    with_derive(scen)
    scen["env"] = env(rng, 0.15)
    return finish(scen, rng, 0.04)


def fix_shared(scen):
    """Solves that share argument objects must describe them alike."""
    seen = {}
    for _, o in walk(scen):
        if o["op"] == "solve" and o.get("shared"):
            k = (o["shared"], o["cfg"])
            seen.setdefault(k, o.get("cb"))
            o["cb"] = seen[k]


# ------------------------------------------------------------------------------------------------ C03
def g_C03(rng):
    cfgs = [small(rng, ag=rng.random() < 0.08), ]
    if rng.random() < 0.4:
        cfgs.append(variant(rng, cfgs[0]))
    if cfgs[0]["bdrf"]:
        cb = lambda: rng.choice(["memo", "memo_ro", "watched", "plain", "buffer"])
    else:
        cb = lambda: "plain"
    form = lambda: rng.choices(["array", "list", "fortran", "strided", "readonly"], [40, 15, 10, 15, 20])[0]
    tasks = []
    setup = []
    n = rng.choices([1, 2], [70, 30])[0]
    if rng.random() < 0.6:
        setup.append(solve(rng, cfgs, 0, "S0", 0, form=form(), cb=cb()))
    for t in range(n):
        l = []
        for _ in range(rng.choice([1, 2, 2, 3])):
            k = rng.random()
            if k < 0.55:
                i = rng.randrange(len(cfgs))
                o = solve(rng, cfgs, i, None, rng.choice([0, 1, 2]), form=form(), cb=cb() if cfgs[i]["bdrf"] else "plain")
                if rng.random() < 0.2:
                    o["leg0"] = rng.choice([0.5, 0.9, 1.1])
                if rng.random() < 0.12:
                    o["bad"] = rng.choice(ops.BAD)
                if rng.random() < 0.25:
                    o["shared"] = "A"
                    o.pop("leg0", None)
                if rng.random() < 0.25:
                    o["faults"] = [fault(rng)]
                if o.get("shared"):
                    o["form"] = "array"
                if rng.random() < 0.1:
                    o["one"] = True
                    o.pop("shared", None)
                l.append(o)
            elif k < 0.8 and setup:
                q = query(rng, cfgs[0], "S0")
                q["form"] = form() if q.get("form") not in ("scalar", "npscalar") else q["form"]
                if rng.random() < 0.06:
                    q = out_of_range(rng, cfgs[0], q)
                if rng.random() < 0.2:
                    q["faults"] = [fault(rng, ("abort", "kernel"))]
                l.append(q)
            else:
                h = ops.gen_helper(rng)
                if rng.random() < 0.15:
                    h["faults"] = [fault(rng, ("abort", "kernel"))]
                l.append(h)
        tasks.append(l)
    c = cfgs[0]
    if c["bdrf"] and rng.random() < 0.3:
        m = {"op": "mkcache", "cfg": 0, "slot": "K", "mode": rng.choice(["mu0", "nodes"]) if c["I0"] else "nodes",
             "cb": rng.choice(["memo", "memo_ro", "watched"])}
        tasks[0].insert(0, m)
        tasks[0].insert(1, {"op": "solve", "cfg": 0, "cache": "K", "form": form(), "probe": probes(rng, c, 1)})
    scen = {"prop": "C03", "cfgs": cfgs, "setup": setup, "tasks": tasks}
    fix_shared(scen)
    with_derive(scen)
    scen["env"] = env(rng, 0.1)
    return finish(scen, rng)


# ------------------------------------------------------------------------------------------------ C04
HOW = ["nan", "zero", "reverse", "one", "scale"]


def g_C04(rng):
    conc = rng.random() < 0.4
    c = small(rng, ag=rng.random() < 0.06) if conc else gen_cfg(rng, ag=rng.random() < 0.06,
                                                                 NQuad=rng.choice([2, 4, 4, 6, 8]), NL=rng.choice([1, 1, 2, 3, 3, 5]))
    cfgs = [c]
    form = rng.choices(["array", "list", "fortran", "strided"], [60, 20, 10, 10])[0]
    s0 = solve(rng, cfgs, 0, "S0", rng.choice([0, 0, 1]), form=form, cb=rng.choice(["plain", "memo", "buffer"]))
    if rng.random() < 0.2 and len(c["tau"]) == 1:
        s0["scalar"] = True
    if rng.random() < 0.1:
        s0["one"] = True
    fns = problem.fns_of(c)
    cands = [{"op": "mut", "what": "args", "slot": "S0", "how": rng.choice(HOW)} for _ in range(3)]
    cands += [{"op": "mut", "what": "mu", "slot": "S0", "how": rng.choice(HOW)},
              {"op": "mut", "what": "results", "how": rng.choice(HOW)},
              {"op": "mut", "what": "results", "how": rng.choice(HOW)},
              {"op": "mut", "what": "callbacks", "slot": "S0", "how": rng.choice(HOW)}]
    keys = ["tau_arr", "omega_arr", "Leg_coeffs_all", "f_arr", "s_poly_coeffs", "b_pos", "b_neg", "BDRF_Fourier_modes"]
    for m in cands:
        if m["what"] == "args" and rng.random() < 0.6:
            m["key"] = rng.choice(keys)
    if not conc:
        cands.append({"op": "mut", "what": "queries", "how": rng.choice(HOW)})
    setup = [s0]
    caching = bool(c["bdrf"]) and rng.random() < 0.35
    if caching:
        mode = rng.choice(["mu0", "nodes"]) if c["I0"] else "nodes"
        setup.append({"op": "mkcache", "cfg": 0, "slot": "K", "mode": mode, "cb": rng.choice(["plain", "memo", "buffer"])})
        cands += [{"op": "mut", "what": "args", "slot": "K", "how": rng.choice(HOW)}] * 2
        if mode == "mu0":
            cands.append({"op": "mut", "what": "callbacks", "slot": "K", "how": rng.choice(HOW)})
    ev = []
    late = rng.random() < 0.3 and not conc

    def evs(n):
        out = []
        for _ in range(n):
            if caching and rng.random() < 0.4:
                k = rng.random()
                if k < 0.5:
                    out.append({"op": "solve", "cfg": 0, "cache": "K", "probe": probes(rng, c, 1), "form": "array"})
                else:
                    out.append({"op": "cc", "cfg": 0, "slot": "K", "m": rng.randrange(len(c["bdrf"])),
                                "at": "mu0" if c["I0"] and setup[-1].get("mode") == "mu0" and rng.random() < 0.4 else "nodes"})
            else:
                q = query(rng, c, "S0", fns=fns)
                if rng.random() < 0.3:
                    q["rtau"] = q["fn"] != "iu0"
                out.append(q)
        return out
    pre = evs(rng.choice([0, 0, 1, 2]))
    if conc:
        tasks = [[], []]
        tasks[0] = evs(rng.choice([1, 2, 2]))
        for _ in range(rng.choice([1, 2, 3])):
            tasks[1] += [copy.deepcopy(rng.choice(cands))]
            tasks[1] += evs(rng.choice([0, 1]))
        if rng.random() < 0.3:
            tasks.append(evs(1))
    else:
        l = []
        for _ in range(rng.choice([1, 2, 2, 3])):
            l += [copy.deepcopy(m) for m in rng.sample(cands, rng.choice([1, 1, 2, 3]))]
            if rng.random() < 0.02:
                l += crowd(rng, cfgs, [("S0", 0)], 40)
            l += evs(rng.choice([1, 1, 2]))
        if rng.random() < 0.35:      # evaluate the same points before and after
            q = evs(1)
            pre += copy.deepcopy(q)
            l += copy.deepcopy(q)
        tasks = [l]
    if conc:
        setup += pre
    else:
        tasks[0][:0] = pre
    scen = {"prop": "C04", "cfgs": cfgs, "setup": setup, "tasks": tasks,
            "post": evs(rng.choice([0, 1]))}
    if late:
        # functions derived after the modification must describe the solution as well
        ds = sorted({need(o) for _, o in walk(scen) if o["op"] == "ev" and need(o)})
        if ds:
            first = next((i for i, o in enumerate(tasks[0]) if o["op"] == "ev" and need(o)), 0)
            k = next((i for i, o in enumerate(tasks[0]) if o["op"] == "mut"), 0)
            tasks[0].insert(min(first, k + 1), {"op": "derive", "slot": "S0", "which": ds})
    with_derive(scen)
    scen["env"] = env(rng, 0.1)
    return finish(scen, rng, 0.04 if conc else 0)


# ------------------------------------------------------------------------------------------------ C05
def ask_again(rng, c, slot):
    """Ask at a special depth, overwrite what was returned, ask again."""
    if rng.random() < 0.3:
        q = query(rng, c, slot, nt=rng.choice([2, 3]))
    else:
        q = query(rng, c, slot, nt=1, nphi=1, nmu=1)
        q["tau"] = [rng.choice([0.0, c["tau"][-1], c["tau"][-1], rng.choice(c["tau"]), q["tau"][0]])]
    l = [q]
    for _ in range(rng.choice([1, 1, 2])):
        l.append({"op": "mut", "what": "results", "how": rng.choice(HOW), "fn": q["fn"]})
        r = copy.deepcopy(q)
        if rng.random() < 0.3:
            r["form"] = rng.choice(["array", "list", "scalar", "npscalar"])
        l.append(r)
    return l


def series(rng, c, slot):
    """Many answers of one function, all of one shape: none may be a place another is later written to."""
    q = query(rng, c, slot)
    l = [q]
    for _ in range(rng.choice([3, 4, 5, 6, 9])):
        r = copy.deepcopy(q)
        if rng.random() < 0.6:
            r["tau"] = [rng.choice([t, round(rng.uniform(0.0, c["tau"][-1]), 6)]) for t in q["tau"]]
        l.append(r)
        if rng.random() < 0.15:
            l.append({"op": "mut", "what": "results", "how": rng.choice(HOW), "fn": q["fn"]})
    return l


def g_C05(rng):
    bare = rng.random() < 0.2       # neither beam nor internal source
    c = small(rng, ag=rng.random() < 0.08, **({"beam": False, "iso": False, "NT": False} if bare else {}))
    cfgs = [c] + ([same_shape(rng, c)] if rng.random() < 0.5 else [])
    setup = [solve(rng, cfgs, i, "S%d" % i, 0) for i in range(len(cfgs))]
    base = query(rng, c, "S0")
    n = rng.choices([1, 2, 3], [55, 35, 10])[0]
    tasks = []
    for t in range(n):
        l = []
        for _ in range(rng.choice([2, 3, 5]) if n == 1 else rng.choice([1, 2, 3])):
            k = rng.random()
            if k < 0.45:
                l.append(sibling(rng, c, base))
            elif k < 0.7:
                i = rng.randrange(len(cfgs))
                l.append(query(rng, cfgs[i], "S%d" % i))
            elif k < 0.8:
                l.append(ops.gen_helper(rng))
            elif k < 0.9:
                l.append(solve(rng, cfgs, rng.randrange(len(cfgs)), None, 1))
            else:
                l.append({"op": "mut", "what": "results", "how": rng.choice(HOW), "fn": rng.choice(problem.fns_of(c))})
            if rng.random() < 0.1 and l[-1]["op"] in ("ev", "hp"):
                l[-1]["faults"] = [fault(rng, ("abort", "kernel"))]
        if rng.random() < 0.03:
            l += crowd(rng, cfgs, [("S0", 0)])
        if rng.random() < (0.6 if bare else 0.3):
            at = rng.randint(0, len(l))
            l[at:at] = ask_again(rng, c, "S0")
        if rng.random() < 0.12:
            l += series(rng, c, "S0")
        tasks.append(l)
    if c["bdrf"] and rng.random() < 0.35:
        mode = rng.choice(["mu0", "nodes"]) if c["I0"] else "nodes"
        setup.append({"op": "mkcache", "cfg": 0, "slot": "K", "mode": mode, "cb": "plain"})
        for _ in range(rng.choice([2, 3])):
            rng.choice(tasks).append({"op": "cc", "cfg": 0, "slot": "K", "m": rng.randrange(len(c["bdrf"])),
                                      "at": rng.choice(["mu0", "nodes"]) if mode == "mu0" else "nodes"})
        if rng.random() < 0.5:
            rng.choice(tasks).append({"op": "solve", "cfg": 0, "cache": "K", "probe": probes(rng, c, 1)})
    scen = {"prop": "C05", "cfgs": cfgs, "setup": setup, "tasks": tasks}
    with_derive(scen)
    scen["env"] = env(rng, 0.1)
    return finish(scen, rng, 0.03)


# ------------------------------------------------------------------------------------------------ C06
def g_C06(rng):
    c = small(rng, ag=rng.random() < 0.06)
    k = rng.random()
    cfgs = [c, same_shape(rng, c) if k < 0.5 else problem.twin(rng, c) if k < 0.65 else variant(rng, c)]
    setup = []
    if rng.random() < 0.75:
        setup.append(solve(rng, cfgs, 0, "S0", 0))
    caching = bool(c["bdrf"]) and rng.random() < 0.25

    def some(i=None):
        k = rng.random()
        if caching and k < 0.3:
            return {"op": "solve", "cfg": 0, "cache": "K", "probe": probes(rng, c, 1)}
        if k < 0.45 and setup:
            return query(rng, c, "S0")
        if k < 0.52 and setup:
            return rederive(rng, c, "S0")
        if k < 0.9:
            i = rng.randrange(2) if i is None else i
            return solve(rng, cfgs, i, None, rng.choice([1, 2]))
        return ops.gen_helper(rng)

    def doomed(o):
        o = copy.deepcopy(o)
        o.pop("shared", None)
        k = rng.random()
        if o["op"] == "solve" and k < 0.12 and not o.get("cache"):
            o["bad"] = rng.choice(ops.BAD)
        elif o["op"] == "ev" and k < 0.12:
            o = out_of_range(rng, c, o)
        elif k < 0.22 and serial:
            o["escal"] = rng.choice(["numpy", "warn"])
        elif k < 0.26:
            o["escal"] = "numpy"
        else:
            kinds = ["abort", "abort", "kernel"] + (["callback", "callback"] if o["op"] == "solve" else [])
            o["faults"] = [fault(rng, kinds)]
            if rng.random() < 0.15:
                o["faults"].append(fault(rng, kinds))
        return o
    serial = rng.random() < 0.55
    n = 1 if serial else rng.choice([2, 2, 3])
    tasks = []
    for t in range(n):
        l = []
        for _ in range(rng.choice([1, 2]) if n > 1 else rng.choice([1, 2, 3])):
            o = some()
            k = rng.random()
            if k < 0.75:
                l.append(doomed(o))
                if rng.random() < 0.2:
                    l.append(doomed(o))
                if rng.random() < 0.75:
                    l.append(o)              # retry
                else:
                    l.append(some())
                if rng.random() < 0.35:      # a different call of the same kind right after
                    l.append(sibling(rng, c, o) if o["op"] == "ev" else some())
            else:
                l.append(o)
        tasks.append(l)
    if caching:
        mk = {"op": "mkcache", "cfg": 0, "slot": "K", "mode": rng.choice(["mu0", "nodes"]) if c["I0"] else "nodes",
              "cb": "plain"}
        if serial and rng.random() < 0.5:
            tasks[0].insert(0, mk)
            d = copy.deepcopy(mk)
            d["faults"] = [fault(rng, ("abort", "callback"))]
            tasks[0].insert(0, d)
        else:
            setup.append(mk)
    if rng.random() < 0.025:       # aborted again and again
        o = some()
        l = [doomed(o) for _ in range(rng.choice([10, 20, 40]))]
        for x in l:
            x.pop("bad", None)
        tasks[0] += l + [o, some()]
    post = []
    if rng.random() < 0.5:
        post.append(solve(rng, cfgs, rng.randrange(2), None, 2))
    if setup and rng.random() < 0.5:
        post.append(query(rng, c, "S0"))
    scen = {"prop": "C06", "cfgs": cfgs, "setup": setup, "tasks": tasks, "post": post}
    with_derive(scen)
    if any(o["op"] == "ev" and o.get("faults") is None for _, o in walk(scen)) and setup and setup[0]["op"] == "solve" \
            and rng.random() < 0.15:
        setup[0]["derive"] = sorted(set(setup[0]["derive"]) | {"act"})
    scen["env"] = env(rng, 0.15)
    return finish(scen, rng, 0.03)


# ------------------------------------------------------------------------------------------------ C07
def g_C07(rng):
    c = gen_cfg(rng, ag=rng.random() < 0.06, NQuad=rng.choices([2, 4, 6, 8], [10, 45, 25, 20])[0],
                NL=rng.choices([1, 2, 3, 4, 10, 11], [20, 35, 25, 15, 2, 4])[0])
    cfgs = [c]
    if rng.random() < 0.35:
        cfgs.append(same_shape(rng, c))
    l, setup = [], []
    what = rng.choices(["solve", "ev", "hp", "cache"], [58, 24, 8, 10])[0]
    if what == "cache" and not c["bdrf"]:
        c["bdrf"] = [problem.gen_bdrf_mode(rng, 0.2) for _ in range(rng.randint(1, 3))]

    def flts(kinds):
        f = [fault(rng, kinds)]
        while rng.random() < 0.2 and len(f) < 3:
            f.append(fault(rng, kinds))
        return f
    if rng.random() < 0.3:      # an earlier solve whose leftovers might be substituted
        l.append(solve(rng, cfgs, len(cfgs) - 1, None, 1))
    if what == "solve":
        kinds = ["kernel", "kernel"] + (["callback"] * 2 if any(isinstance(m, dict) for m in c["bdrf"]) else [])
        o = solve(rng, cfgs, 0, "S0", rng.choice([2, 3, 4]), faults=flts(kinds))
        l.append(o)
        if rng.random() < 0.25:
            l.append(copy.deepcopy(o))
    elif what == "ev":
        setup.append(solve(rng, cfgs, 0, "S0", 0))
        for _ in range(rng.choice([1, 2, 3])):
            q = query(rng, c, "S0")
            if rng.random() < 0.4:
                l.append(sibling(rng, c, q))
            q["faults"] = flts(["kernel"])
            l.append(q)
    elif what == "hp":
        for _ in range(rng.choice([1, 2])):
            h = ops.gen_helper(rng)
            h["faults"] = flts(["kernel", "callback"] if h["name"] == "generate_emissivity_from_BDRF" else ["kernel"])
            l.append(h)
    else:
        mode = rng.choice(["mu0", "nodes"]) if c["I0"] else "nodes"
        mk = {"op": "mkcache", "cfg": 0, "slot": "K", "mode": mode, "cb": "plain"}
        if rng.random() < 0.6:
            mk["faults"] = flts(["callback", "kernel"])
        l.append(mk)
        o = {"op": "solve", "cfg": 0, "cache": "K", "probe": probes(rng, c, 2)}
        # what a cache obtained from a faulty construction serves is judged as part of that construction
        o["follows"] = "K"
        if rng.random() < 0.5:
            o["faults"] = flts(["callback", "kernel"])
        l.append(o)
        if rng.random() < 0.4:
            l.append({"op": "cc", "cfg": 0, "slot": "K", "m": rng.randrange(len(c["bdrf"])), "at": "nodes", "follows": "K"})
        if rng.random() < 0.4:
            l.append({"op": "em", "cfg": 0, "slot": "K", "follows": "K", "faults": flts(["kernel"])})
    tasks = [l]
    if rng.random() < 0.15:
        tasks.append([solve(rng, cfgs, len(cfgs) - 1, None, 1)])
    scen = {"prop": "C07", "cfgs": cfgs, "setup": setup, "tasks": tasks}
    with_derive(scen)
    scen["env"] = env(rng, 0.15)
    return finish(scen, rng)


# ------------------------------------------------------------------------------------------------ C08
def g_C08(rng):
    """Long histories in one process, unusual environments, reuse of objects and identities."""
    c = gen_cfg(rng, ag=rng.random() < 0.06, NQuad=rng.choices([2, 4, 6, 8, 12, 16], [8, 42, 22, 20, 4, 4])[0],
                NL=rng.choices([1, 2, 3, 4, 7, 10, 12, 20], [22, 35, 22, 12, 5, 2, 2, 1])[0])
    cfgs = [c]
    for _ in range(rng.choice([1, 2, 3])):
        k = rng.random()
        b = rng.choice(cfgs)
        cfgs.append(same_shape(rng, b) if k < 0.35 else variant(rng, b) if k < 0.9 else small(rng))
    l = []
    slots = []
    reuse = rng.random() < 0.4
    caching = bool(c["bdrf"]) and rng.random() < 0.2
    for k in range(rng.choice([3, 4, 5, 7, 9])):
        x = rng.random()
        if x < 0.5 or not slots:
            i = rng.randrange(len(cfgs))
            s = "S%d" % k
            o = solve(rng, cfgs, i, s, rng.choice([0, 1, 1, 2]))
            if rng.random() < 0.06:
                o["leg0"] = rng.choice([0.5, 0.9, 1.1])
            if reuse and rng.random() < 0.7 and "form" not in o and "leg0" not in o:
                o["reuse"] = "R"
                o["cb"] = "plain"
            if rng.random() < 0.3:
                o["drop"] = True
                if not o.get("probe"):
                    o["probe"] = probes(rng, cfgs[i], 1)
            else:
                slots.append((s, i))
            l.append(o)
        elif x < 0.85:
            s, i = rng.choice(slots)
            prev = [q for q in l if q["op"] == "ev" and q["slot"] == s]
            q = sibling(rng, cfgs[i], rng.choice(prev)) if prev and rng.random() < 0.55 else query(rng, cfgs[i], s)
            if rng.random() < 0.3 and q.get("form") in (None, "array"):
                q["reuseq"] = "Q"
            if rng.random() < 0.1:
                q["drop_result"] = True
            if cfgs[i]["ag"] and rng.random() < 0.4 and q["fn"] in ("Fp", "Fm", "u0"):
                q = {"op": "ev", "slot": s, "fn": "g:" + q["fn"], "tau": q["tau"], "form": "array"}
            l.append(q)
        elif x < 0.94:
            l.append(ops.gen_helper(rng))
            if rng.random() < 0.35:
                l.append(ops.kin_helper(rng, l[-1]))
            elif rng.random() < 0.4:
                for _ in range(30):
                    h = ops.gen_helper(rng)
                    if h["name"] == l[-1]["name"]:
                        l.append(h)
                        break
        else:
            l.append({"op": "gc"})
        if rng.random() < 0.012:
            l += crowd(rng, cfgs, slots)
    if caching:
        mk = {"op": "mkcache", "cfg": 0, "slot": "K", "mode": rng.choice(["mu0", "nodes"]) if c["I0"] else "nodes", "cb": "plain"}
        l.insert(0, mk)
        l.append({"op": "solve", "cfg": 0, "cache": "K", "probe": probes(rng, c, 1)})
    # who created a solution and who evaluates it must not matter
    if rng.random() < 0.35 and not any(o.get("fn", "").startswith("g:") for o in l):
        cut = rng.randrange(1, len(l)) if len(l) > 1 else 1
        setup, tasks = l[:cut], [l[cut:]] if l[cut:] else [[{"op": "gc"}]]
    else:
        setup, tasks = [], [l]
    e = env(rng, 0.5)
    if rng.random() < 0.2:
        e["warn"] = rng.choice(["error", "always", "default", "once"])
    if rng.random() < 0.2:
        e["err"] = rng.choice(["raise", "warn", "raise"])
    if rng.random() < 0.2:
        e["print"] = rng.choice([1, 2, 3])
    if rng.random() < 0.3:
        e["rng_draws"] = rng.randint(1, 9)
    if rng.random() < 0.3:
        e["dirty_heap"] = True
    if rng.random() < 0.1:
        e["nogc"] = True
    if rng.random() < 0.25:
        e["clock"] = rng.choice([3601.0, 1e5, 4e7, 4e8, -1e5])
    scen = {"prop": "C08", "cfgs": cfgs, "setup": setup, "tasks": tasks, "env": e, "sched": {"kind": "serial", "first": 0}}
    with_derive(scen)
    return finish(scen, rng)


# ------------------------------------------------------------------------------------------------ C09
def g_C09(rng):
    interp = rng.random() < 0.3
    nt = rng.random() < 0.3
    c = small(rng, x=0.15, NT=True if nt else None, only_flux=False if nt else None)
    if rng.random() < 0.012:         # very many modes: a warning is issued
        c = gen_cfg(rng, NQuad=66, NL=1, NT=False, bdrf=0, x=0, only_flux=False)
        c["NLeg"] = c["NFourier"] = None
        interp = False
    cfgs = [c, variant(rng, c) if not interp and c["NQuad"] < 60 else same_shape(rng, c)]
    fns = [f for f in problem.fns_of(c) if interp or f not in ("iu", "iu0")]
    setup = []
    if rng.random() < 0.6:
        setup.append(solve(rng, cfgs, 0, "S0", 0))
    n = 1 if rng.random() < 0.45 else rng.choice([2, 2, 3])
    tasks = []
    for t in range(n):
        l = []
        for _ in range(rng.choice([1, 2, 3])):
            k = rng.random()
            i = rng.randrange(2)
            if k < 0.5:
                fn = [f for f in problem.fns_of(cfgs[i]) if f in ("Fp", "Fm", "u0", "u", "au", "ad")]
                o = solve(rng, cfgs, i, None, 0)
                o["probe"] = probes(rng, cfgs[i], 1, fn)
                if rng.random() < 0.15:
                    o["bad"] = rng.choice(ops.BAD)
                if rng.random() < 0.15:
                    o["leg0"] = 0.5
                kinds = ["abort", "abort", "kernel"] + (["callback"] if c["bdrf"] else [])
            elif k < 0.8 and setup:
                o = query(rng, c, "S0", fns=fns)
                if rng.random() < 0.1:
                    o = out_of_range(rng, c, o)
                kinds = ["abort", "abort", "kernel"]
            elif k < 0.92:
                o = ops.gen_helper(rng)
                kinds = ["abort", "kernel"]
            elif c["bdrf"]:
                o = {"op": "mkcache", "cfg": 0, "slot": "K%d%d" % (t, len(l)), "mode": rng.choice(["mu0", "nodes"]) if c["I0"]
                     else "nodes", "cb": "plain"}
                kinds = ["abort", "kernel", "callback"]
            else:
                continue
            if rng.random() < 0.45:
                o["faults"] = [fault(rng, kinds)]
            if rng.random() < 0.08:
                o["escal"] = "numpy"
            l.append(o)
        tasks.append(l or [ops.gen_helper(rng)])
    if rng.random() < 0.5:
        mirror(rng, tasks)
    scen = {"prop": "C09", "cfgs": cfgs, "setup": setup, "tasks": tasks}
    if n > 1 and rng.random() < 0.3:        # one call, made by everybody at the same time: settings saved and
        k = rng.random()                    # restored around a few lines are then restored in the wrong order
        if k < 0.55 and setup:
            o = query(rng, c, "S0", fns=fns)
        elif k < 0.8:
            o = ops.gen_helper(rng)
        else:
            o = solve(rng, cfgs, 0, None, 0)
            o["probe"] = probes(rng, c, 1, [f for f in fns if f in ("Fp", "Fm", "u0", "u", "au", "ad")])
        scen["tasks"] = tasks = [[copy.deepcopy(o) for _ in range(rng.choice([1, 1, 2]))] for _ in range(n)]
        scen["sched"] = ({"kind": "lockstep", "len": rng.choice([1, 1, 2]), "first": rng.randrange(n)} if rng.random() < 0.6
                         else {"kind": "rw", "p": rng.choice([0.25, 0.6]), "first": rng.randrange(n)})
    for _, o in walk(scen):
        for q in [o] + o.get("probe", []):
            if q.get("op", "ev") == "ev" and q.get("fn") in ("u", "iu") and not c["ag"] and rng.random() < 0.3:
                q["ferr"] = True
    with_derive(scen)
    used = any(d in ("iu", "iu0") for _, o in walk(scen) for d in o.get("derive", ()))
    scen["interp"] = ("serial" if n == 1 else True) if used else False
    e = env(rng, 0.1)
    if rng.random() < 0.3:
        e["warn"] = rng.choice(["default", "always", "once", "error"])
    if rng.random() < 0.25:
        e["err"] = rng.choice(["warn", "raise", "ignore"])
    if rng.random() < 0.5:
        e["print"] = rng.choice([1, 3, 5])
    scen["env"] = e
    return finish(scen, rng, 0.03)


# ------------------------------------------------------------------------------------------------ C10
def g_C10(rng):
    c = gen_cfg(rng, ag=rng.random() < 0.05, NQuad=rng.choices([2, 4, 6, 8], [18, 40, 22, 20])[0],
                NL=rng.choices([1, 2, 3, 4, 6], [18, 32, 28, 14, 8])[0], only_flux=rng.random() < 0.04)
    cfgs = [c]
    fn = rng.choice(problem.fns_of(c))
    q = {"fn": fn}
    if rng.random() < 0.4:
        q["anti"] = True
    if fn in ("u", "iu") and rng.random() < 0.3 and not c["ag"]:
        q["ferr"] = True
    if fn != "iu0" and rng.random() < 0.1:
        q["rtau"] = True
    big = rng.random() < 0.06
    nt = rng.choice([60, 130, 260, 300, 520, 700, 1030, 2100]) if big else rng.choice([2, 3, 4, 6, 8, 8, 11, 17, 34])
    taus = gen_taus(rng, c, nt)
    if rng.random() < 0.5:
        taus += [taus[0], taus[-1]]
    if rng.random() < 0.3:
        taus = sorted(taus)
    elif rng.random() < 0.3:
        taus = sorted(taus, reverse=True)
    phis = [angle(rng) for _ in range(rng.choice([1, 2, 3, 1, 2, 3, 4, 6]) if not big else 1)] if fn in ("u", "iu") else [None]
    if phis[0] is not None and rng.random() < 0.07 and not big:
        phis = [angle(rng) for _ in range(rng.choice([17, 33, 40, 65, 129, 260]))]
        taus = taus[:rng.choice([1, 2])]
    mus = mu_pts(rng, rng.choice([1, 2, 3, 4, 1, 2, 3, 4, 6, 8])) if fn in ("iu", "iu0") else [None]
    if mus[0] is not None and rng.random() < 0.08:
        mus = mu_pts(rng, rng.choice([17, 33, 40, 65, 129]))
        taus = taus[:rng.choice([1, 2])]
        phis = phis[:2]
    uniq = set()

    def part():
        """A batch: a product of subsets, in some order, with repeats."""
        k = rng.random()
        t = list(taus)
        if k < 0.5:
            t = rng.sample(taus, rng.randint(1, len(taus)))
        elif k < 0.65:
            rng.shuffle(t)
        if rng.random() < 0.2:
            t = t + [rng.choice(t)]
        p = rng.sample(phis, rng.randint(1, len(phis)) if rng.random() < 0.6 else len(phis))
        m = rng.sample(mus, rng.randint(1, len(mus)) if rng.random() < 0.6 else len(mus))
        for x in (p, m):
            if len(x) > 1 and rng.random() < 0.15:
                x.append(rng.choice(x))
        return t, p, m

    def ev(t, p, m):
        o = dict(q, op="ev", slot="S0", tau=t)
        if p[0] is not None:
            o["phi"] = p
        if m[0] is not None:
            o["mu"] = m
        if fn in ("iu", "iu0"):
            pts = [[a, b, d] for d in m for a in t for b in p]
        else:
            pts = [[a, b, d] for a in t for b in p for d in m]
        if len(t) > 40 and rng.random() < 0.8:
            # a large batch: compare a sample of its points (at least those at the ends and around powers of two)
            want = {0, len(t) - 1} | {i for k2 in range(4, 13) for i in (2 ** k2 - 1, 2 ** k2) if i < len(t) and rng.random() < 0.6} | \
                {i for i in (99, 100, 499, 500, 999, 1000) if i < len(t) and rng.random() < 0.5} | \
                set(rng.sample(range(len(t)), min(len(t), 20)))
            chk = sorted(want)
            p, m = p[:2], m[:3]
            if p[0] is not None:
                o["phi"] = p
            if m[0] is not None:
                o["mu"] = m
            tt = [t[i] for i in chk]
            pts = [[a, b, d] for d in m for a in tt for b in p] if fn in ("iu", "iu0") else [[a, b, d] for a in tt for b in p for d in m]
        else:
            chk = None
        if len(pts) > 500:
            o["tau"] = t = t[:40]
            pts = [[a, b, d] for d in m for a in t for b in p] if fn in ("iu", "iu0") else [[a, b, d] for a in t for b in p for d in m]
        for x in pts:
            uniq.add(tuple(x))
        o["c10"] = {"pts": pts, "nt": len(t), "nphi": len(p), "nmu": len(m)}
        if chk is not None:
            o["c10"]["chk"] = chk
        o["form"] = rng.choices(["array", "list", "strided", "readonly", "scalar"], [60, 12, 12, 8, 8])[0]
        if o["form"] == "scalar" and len(pts) > 1:
            o["form"] = "array"
        if q.get("ferr") or rng.random() < 0.3:
            o["kw"] = True
        return o
    tasks = []
    n = rng.choice([1, 2, 2, 3])
    for t in range(n):
        tasks.append([ev(*part()) for _ in range(rng.choice([1, 2, 3]) if not big else 1)])
    if n > 1 and rng.random() < 0.4:      # a worker is lost in the middle of its share; its share is re-assigned
        v = rng.choice(tasks)
        o = rng.choice(v)
        again = copy.deepcopy(o)
        o["faults"] = [fault(rng, ("abort", "kernel"))]
        rng.choice([x for x in tasks if x is not v]).append(again)
    if rng.random() < 0.15:               # executed twice
        rng.choice(tasks).append(copy.deepcopy(rng.choice(tasks)[0]))
        for x in tasks[-1]:
            x.pop("faults", None) if rng.random() < 0.5 else None
    scen = {"prop": "C10", "cfgs": cfgs, "setup": [{"op": "solve", "cfg": 0, "slot": "S0"}], "tasks": tasks,
            "c10": {"points": sorted([list(x) for x in uniq], key=repr), "q": q}}
    with_derive(scen)
    scen["env"] = env(rng, 0.1)
    return finish(scen, rng, 0.02)


# ------------------------------------------------------------------------------------------------ C11
def g_C11(rng):
    c = small(rng, NQuad=rng.choices([2, 4, 6, 8], [18, 45, 22, 15])[0], bdrf=rng.randint(1, 3), fnp=0.8)
    cfgs = [c]
    for _ in range(rng.choice([0, 1, 2])):      # other problems, same surface and number of streams
        for _ in range(30):
            d = variant(rng, c) if rng.random() < 0.5 else same_shape(rng, c)
            if d["NQuad"] != c["NQuad"]:
                continue
            d["bdrf"] = copy.deepcopy(c["bdrf"])
            if well_conditioned(d):
                cfgs.append(d)
                break
    modes = ["mu0", "nodes"] if c["I0"] else ["nodes"]
    mk = {"op": "mkcache", "cfg": 0, "slot": "K", "mode": rng.choice(modes), "cb": rng.choice(["plain", "memo", "memo_ro", "buffer", "yield"])}
    # problems that may use a cache built for one beam angle
    ok = [i for i, d in enumerate(cfgs) if mk["mode"] == "nodes" or not d["I0"] or d["mu0"] == c["mu0"]]
    if mk["mode"] == "mu0":
        for i, d in enumerate(cfgs):
            if d["I0"] and rng.random() < 0.8:
                e = copy.deepcopy(d)
                e["mu0"] = c["mu0"]
                if well_conditioned(e):
                    cfgs[i] = e
        ok = [i for i, d in enumerate(cfgs) if not d["I0"] or d["mu0"] == c["mu0"]]

    def use():
        k = rng.random()
        i = rng.choice(ok)
        if k < 0.5:
            o = {"op": "solve", "cfg": i, "cache": "K", "probe": probes(rng, cfgs[i], rng.choice([1, 2])),
                 "form": rng.choice(["array", "array", "list", "readonly"])}
            if rng.random() < 0.12:
                o["faults"] = [fault(rng, ("abort", "kernel") if mk["mode"] == "mu0" else ("abort", "kernel", "callback"))]
        elif k < 0.7:
            o = {"op": "cc", "cfg": 0, "slot": "K", "m": rng.randrange(len(c["bdrf"])),
                 "at": rng.choice(["mu0", "nodes"]) if c["I0"] else "nodes"}
            if c["NQuad"] == 2 and mk["mode"] == "nodes":
                o["at"] = "nodes"
        elif k < 0.8:
            o = {"op": "em", "cfg": 0, "slot": "K"}
        elif k < 0.9:
            o = {"op": "mut", "what": "results", "how": rng.choice(HOW)}
        elif k < 0.95:
            o = {"op": "mut", "what": "args", "slot": "K", "how": rng.choice(HOW)}
        else:
            o = {"op": "mut", "what": "callbacks", "slot": "K", "how": rng.choice(HOW)} if mk["mode"] == "mu0" else \
                solve(rng, cfgs, i, None, 1, cb="plain")
        return o
    n = rng.choices([1, 2, 3], [55, 35, 10])[0]
    tasks = [[use() for _ in range(rng.choice([2, 3, 4]) if n == 1 else rng.choice([1, 2]))] for _ in range(n)]
    setup = []
    if n == 1 and rng.random() < 0.35:
        if rng.random() < 0.6:
            bad = copy.deepcopy(mk)
            bad["faults"] = [fault(rng, ("callback", "abort", "kernel"))]
            tasks[0][:0] = [bad, copy.deepcopy(mk)]
        else:
            tasks[0].insert(0, mk)
    else:
        setup.append(mk)
    if rng.random() < 0.25:      # a second cache, other surface
        d = copy.deepcopy(c)
        d["bdrf"] = [problem.gen_bdrf_mode(rng, 0.2) for _ in c["bdrf"]]
        cfgs.append(d)
        j = len(cfgs) - 1
        setup.insert(0 if rng.random() < 0.5 else len(setup), {"op": "mkcache", "cfg": j, "slot": "K2", "mode": mk["mode"], "cb": "plain"})
        tasks[-1].append({"op": "solve", "cfg": j, "cache": "K2", "probe": probes(rng, d, 1)})
        tasks[0].append({"op": "solve", "cfg": ok[0], "cache": "K", "probe": probes(rng, cfgs[ok[0]], 1)})
    if rng.random() < 0.12:      # earlier caches of other surfaces, no longer in use: their identities may be reused
        for _ in range(rng.choice([1, 2, 3])):
            d = copy.deepcopy(c)
            d["bdrf"] = [problem.gen_bdrf_mode(rng, 0.2) for _ in c["bdrf"]]
            cfgs.append(d)
            setup.insert(0, {"op": "mkcache", "cfg": len(cfgs) - 1, "slot": "KD", "mode": mk["mode"], "cb": "plain", "drop": True})
    scen = {"prop": "C11", "cfgs": cfgs, "setup": setup, "tasks": tasks}
    with_derive(scen)
    scen["env"] = env(rng, 0.1)
    return finish(scen, rng, 0.03)


# ------------------------------------------------------------------------------------------------ C12
def knobs(rng, c):
    """The same problem with other performance settings; returns (configuration, solve options, functions available)."""
    d = copy.deepcopy(c)
    o = {}
    for k in rng.sample(["ag", "banded", "flux", "constfn", "cache", "form", "scalar", "one", "defaults", "flux", "bform"], rng.choice([1, 1, 2, 3])):
        if k == "ag":
            d["ag"] = True
        elif k == "banded":
            d["banded"] = rng.choice([3, 4, 5, 6, 100, 10])
        elif k == "flux":
            d["only_flux"] = True
        elif k == "constfn":
            d["bdrf"] = [{"const": m} if not isinstance(m, dict) else m for m in c["bdrf"]]
        elif k == "cache" and c["bdrf"]:
            o["_cache"] = rng.choice(["mu0", "nodes"]) if c["I0"] else "nodes"
        elif k == "form":
            o["form"] = rng.choice(["list", "fortran", "strided", "readonly", "bigendian"])
        elif k == "scalar":
            o["scalar"] = True
        elif k == "one":
            o["one"] = True
        elif k == "defaults":
            d["defaults"] = not c["defaults"]
        elif k == "bform":
            N, NF = c["NQuad"] // 2, c["NFourier"] or c["NQuad"]
            for b in ("b_pos", "b_neg"):
                v = c[b] if isinstance(c[b], list) else [c[b]] * N
                if not c[b] or isinstance(v[0], list):
                    continue
                d[b] = v if rng.random() < 0.3 and N > 1 else [[x] + [0.0] * (NF - 1) for x in v]
    if d["only_flux"]:      # one mode only
        for b in ("b_pos", "b_neg"):
            if isinstance(d[b], list) and isinstance(d[b][0], list):
                d[b] = [r[0] for r in d[b]] if len(d[b]) > 1 else d[b][0][0]
    if o.get("_cache"):
        d["bdrf"] = copy.deepcopy(c["bdrf"])
    return d, o


def g_C12(rng):
    base = gen_cfg(rng, ag=False, only_flux=False, x=0, NQuad=rng.choices([2, 4, 6, 8, 12, 16, 24], [14, 40, 22, 20, 4, 1.5, 0.5])[0],
                   NL=rng.choices([1, 2, 3, 4, 5, 7, 9, 10, 11, 12, 20, 33], [22, 20, 20, 14, 12, 6, 2, 2, 2, 2, 1, 0.6])[0])
    base["banded"] = rng.choice([10, 10, 3, 100])
    ref, cfgs, setup, tasks = [], [], [], []
    n = rng.choice([1, 2, 2, 3])
    common = probes(rng, base, 3, ["Fp", "Fm", "u0", "au", "ad"])
    upr = probes(rng, base, 1, ["u"])
    work = []
    for t in range(n):
        d, o = knobs(rng, base)
        i = len(cfgs)
        cfgs.append(d)
        ref.append(base)
        pr = copy.deepcopy(common)
        if not d["only_flux"]:
            pr += copy.deepcopy(upr)
        if d["ag"] and rng.random() < 0.5:
            for q in pr:
                q.pop("ferr", None)
        s = {"op": "solve", "cfg": i, "probe": pr}
        ca = o.pop("_cache", None)
        s.update(o)
        l = [s]
        if ca:
            l.insert(0, {"op": "mkcache", "cfg": i, "slot": "K%d" % t, "mode": ca, "cb": "plain"})
            s["cache"] = "K%d" % t
        if rng.random() < 0.4:      # this worker dies in the middle; the next worker takes over
            s["faults"] = [fault(rng)]
            if rng.random() < 0.5:
                l.append({k: v for k, v in copy.deepcopy(s).items() if k != "faults"})
        if rng.random() < 0.3:
            l.append({k: v for k, v in copy.deepcopy(s).items() if k != "faults"})
        tasks.append(l)
    if rng.random() < 0.5:
        tasks = [sum(tasks, [])]
    scen = {"prop": "C12", "cfgs": cfgs, "ref_cfgs": ref, "setup": setup, "tasks": tasks, "rtol": 1e-6}
    with_derive(scen)
    scen["env"] = env(rng, 0.15)
    return finish(scen, rng)


# ------------------------------------------------------------------------------------------------ C13
def g_C13(rng):
    c = small(rng, ag=rng.random() < 0.05)
    nest = rng.random() < 0.25
    if nest and not any(isinstance(m, dict) for m in c["bdrf"]):
        c["bdrf"] = [problem.gen_bdrf_mode(rng, 0.0) for _ in range(rng.randint(1, 2))]
    cfgs = [c, same_shape(rng, c)]
    setup = [solve(rng, cfgs, 0, "S0", 0)]
    caching = bool(c["bdrf"]) and rng.random() < 0.3
    if caching:
        setup.append({"op": "mkcache", "cfg": 0, "slot": "K", "mode": "nodes" if rng.random() < 0.5 or not c["I0"] else "mu0", "cb": "plain"})

    def some():
        k = rng.random()
        if caching and k < 0.25:
            return {"op": "solve", "cfg": 0, "cache": "K", "probe": probes(rng, c, 1)}
        if k < 0.36:
            return query(rng, c, "S0")
        if k < 0.45:
            return rederive(rng, c, "S0")
        if k < 0.88:
            return solve(rng, cfgs, rng.randrange(2), None, 1)
        return ops.gen_helper(rng)
    n = rng.choice([1, 2, 2, 3]) if not nest else rng.choice([1, 2])
    tasks = []
    for t in range(n):
        l = []
        for _ in range(rng.choice([1, 2, 3])):
            o = some()
            k = rng.random()
            if k < 0.35 and n > 1:
                o["stall"] = rng.random()
            elif k < 0.65:
                kinds = ["abort", "abort", "kernel"] + (["callback"] if c["bdrf"] and o["op"] == "solve" else [])
                o["faults"] = [fault(rng, kinds)]
                if rng.random() < 0.6:
                    again = {k2: v for k2, v in copy.deepcopy(o).items() if k2 != "faults"}
                    l.append(o)
                    o = again
            l.append(o)
        tasks.append(l)
    if nest:
        o = solve(rng, cfgs, 0, cb="nested")
        o["nested"] = {"ops": [solve(rng, cfgs, rng.randrange(2), nprobe=1, cb="plain") if rng.random() < 0.6 else query(rng, c, "S0")
                               for _ in range(rng.choice([1, 2]))], "max": 1, "m": rng.randrange(3)}
        tasks[0].insert(rng.randrange(len(tasks[0]) + 1), o)
    if rng.random() < 0.05:      # batch after batch of aborted calls, measuring one call in between
        k = rng.random()
        o = solve(rng, cfgs, 0, None, 0) if k < 0.5 else query(rng, c, "S0") if k < 0.8 else ops.gen_helper(rng)
        o.pop("stall", None)
        l = [copy.deepcopy(o)]
        for b in range(4):
            for _ in range(rng.choice([30, 40]) if o["op"] == "solve" else 50):
                d = copy.deepcopy(o)
                d["faults"] = [fault(rng, ("abort", "abort", "kernel", "callback"))]
                l.append(d)
            l.append(dict(copy.deepcopy(o), meter=b + 1))
        tasks = [l]
    elif rng.random() < 0.12:      # many aborted calls in a row
        o = solve(rng, cfgs, 0, None, 0)
        l = []
        for _ in range(12):
            d = copy.deepcopy(o)
            d["faults"] = [fault(rng, ("abort", "abort", "kernel"))]
            l.append(d)
        tasks[0] = l + [copy.deepcopy(o)]
    herd = 0
    if not nest and rng.random() < 0.06:      # many callers of the same kind, all paused for ever but one
        herd = rng.choice([3, 5, 5, 9, 9, 17])
        o = solve(rng, cfgs, 0, None, 1) if rng.random() < 0.5 else query(rng, c, "S0") if rng.random() < 0.8 else ops.gen_helper(rng)
        u = rng.random()
        act = rng.random() < 0.6
        tasks = []
        for t in range(herd):
            d = copy.deepcopy(o)
            if t:
                if act:
                    d["faults"] = [{"kind": "inlock", "act": "stall", "exc": "KeyboardInterrupt", "skip": 0}]
                else:
                    d["stall"] = u
            tasks.append([d])
        if rng.random() < 0.5:
            tasks[0].append(copy.deepcopy(o))
    scen = {"prop": "C13", "cfgs": cfgs, "setup": setup, "tasks": tasks}
    if herd and rng.random() < 0.7:      # the others get there first
        scen["sched"] = {"kind": "serial", "first": 1}
    with_derive(scen)
    scen["env"] = {}
    return finish(scen, rng, 0.04)


# ------------------------------------------------------------------------------------------------ C14
def pieces(rng, cfgs, slots, base):
    """One arbitrary call, with a preference for calls that resemble `base` (same function, shapes or helper)."""
    r = rng.random()
    s, i = rng.choice(slots) if slots else (None, 0)
    if base is not None and r < 0.45:
        if base["op"] == "ev":
            q = sibling(rng, cfgs[dict(slots)[base["slot"]]], base)
            q.pop("intr", None)
            if len(slots) > 1 and rng.random() < 0.3 and q["fn"] in problem.fns_of(cfgs[i]):
                q["slot"] = s
                q["tau"] = gen_taus(rng, cfgs[i], len(q["tau"]))
                if cfgs[i]["ag"]:
                    q.pop("ferr", None)
            return q
        if base["op"] == "hp":
            h = ops.kin_helper(rng, base) if rng.random() < 0.5 else copy.deepcopy(base)
            h.pop("intr", None)
            return h
        if base["op"] == "solve":
            j = base["cfg"] if rng.random() < 0.3 else rng.randrange(len(cfgs))
            return solve(rng, cfgs, j, None, rng.choice([1, 2]))
    if r < 0.7 and slots:
        q = query(rng, cfgs[i], s)
        return out_of_range(rng, cfgs[i], q) if rng.random() < 0.07 else q
    if r < 0.84:
        return solve(rng, cfgs, rng.randrange(len(cfgs)), None, 1)
    if r < 0.95 or not slots:
        return ops.gen_helper(rng)
    return rederive(rng, cfgs[i], s)


def g_C14(rng):
    cfgs = [small(rng, ag=rng.random() < 0.06)]
    if rng.random() < 0.6:
        cfgs.append(same_shape(rng, cfgs[0]) if rng.random() < 0.8 else small(rng))
    slots = [("S%d" % i, i) for i in range(len(cfgs))]
    setup = [{"op": "solve", "cfg": i, "slot": s} for s, i in slots]
    for o in setup:
        if cfgs[o["cfg"]]["bdrf"] and rng.random() < 0.3:
            o["cb"] = rng.choice(["memo", "yield"])
    tasks = []
    for t in range(rng.choices([1, 2], [85, 15])[0]):
        l = []
        for _ in range(rng.choice([1, 1, 2])):
            r = rng.random()
            if r < 0.45:
                s, i = rng.choice(slots)
                o = query(rng, cfgs[i], s)
            elif r < 0.8:
                o = solve(rng, cfgs, rng.randrange(len(cfgs)), None, rng.choice([1, 2]))
            elif r < 0.93:
                o = ops.gen_helper(rng)
            else:
                s, i = rng.choice(slots)
                o = rederive(rng, cfgs[i], s)
            hs = []
            for _ in range(rng.choice([1, 1, 1, 2, 3])):
                h = {"u": rng.random(), "v": rng.random(), "pick": rng.choice(["site", "site", "step"]),
                     "ops": [pieces(rng, cfgs, slots, o) for _ in range(rng.choice([1, 1, 2]))]}
                if rng.random() < 0.05:
                    h["ops"].insert(0, {"op": "gc"})
                hs.append(h)
            o["intr"] = hs
            l.append(o)
            if rng.random() < 0.2:
                l.append(pieces(rng, cfgs, slots, o))
        tasks.append(l)
    scen = {"prop": "C14", "cfgs": cfgs, "setup": setup, "tasks": tasks}
    if rng.random() < 0.3:
        scen["post"] = [pieces(rng, cfgs, slots, tasks[0][0])]
        scen["post"] = [o for o in scen["post"] if o["op"] != "derive"]
    with_derive(scen)
    scen["env"] = env(rng, 0.15)
    return finish(scen, rng, 0.2)


# ------------------------------------------------------------------------------------------------ C15
def g_C15(rng):
    cfgs = [small(rng, ag=rng.random() < 0.06)]
    if rng.random() < 0.5:
        cfgs.append(same_shape(rng, cfgs[0]) if rng.random() < 0.7 else small(rng))
    slots = [("S%d" % i, i) for i in range(len(cfgs))]
    setup = [{"op": "solve", "cfg": i, "slot": s} for s, i in slots]
    for o in setup:
        if cfgs[o["cfg"]]["bdrf"] and rng.random() < 0.3:
            o["cb"] = rng.choice(["memo", "yield"])
    cold = rng.random() < 0.25           # nothing was evaluated before
    n = rng.choices([2, 3, 4], [60, 28, 12])[0]
    tasks, firsts = [], []
    for t in range(n - 1):
        l = []
        for _ in range(rng.choice([1, 1, 2])):
            r = rng.random()
            if r < 0.5:
                s, i = rng.choice(slots)
                l.append(query(rng, cfgs[i], s))
            elif r < 0.85:
                l.append(solve(rng, cfgs, rng.randrange(len(cfgs)), None, 1))
            else:
                l.append(ops.gen_helper(rng))
            if rng.random() < 0.08:
                l[-1]["faults"] = [fault(rng)]
        firsts.append(l[0])
        tasks.append(l)
    l = []
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        if rng.random() < 0.25:
            l.append(pieces(rng, cfgs, slots, rng.choice(firsts)))
            if rng.random() < 0.4 and l[-1]["op"] != "derive":
                l[-1]["intr"] = [{"u": rng.random(), "v": rng.random(), "pick": "step",
                                  "ops": [{"op": "fork", "ops": [pieces(rng, cfgs, slots, rng.choice(firsts)) for _ in range(rng.choice([1, 2]))]}]}]
        ch = [pieces(rng, cfgs, slots, rng.choice(firsts)) for _ in range(rng.choice([1, 2, 2, 3, 4]))]
        l.append({"op": "fork", "ops": ch})
    if rng.random() < 0.5:
        l.append(pieces(rng, cfgs, slots, rng.choice(firsts)))
    tasks.insert(rng.randrange(n), l)
    scen = {"prop": "C15", "cfgs": cfgs, "setup": setup, "tasks": tasks}
    if not cold and rng.random() < 0.4:
        setup.append(query(rng, cfgs[0], "S0"))
    with_derive(scen)
    for _, o in walk(scen):
        if o["op"] == "fork":
            for x in o["ops"]:
                x.pop("shq", None)
    return finish(scen, rng, 0.1)


# ------------------------------------------------------------------------------------------------ C16
def g_C16(rng):
    if rng.random() < 0.08:
        return growth(rng)
    cfgs = [small(rng, ag=rng.random() < 0.08)]
    if rng.random() < 0.4:
        cfgs.append(same_shape(rng, cfgs[0]) if rng.random() < 0.6 else small(rng))
    slots = [("S%d" % i, i) for i in range(len(cfgs))]
    setup = [solve(rng, cfgs, i, s, 0) for s, i in slots] if rng.random() < 0.8 else []
    if not setup:
        slots = []
    tasks = []
    for t in range(rng.choices([1, 2, 3], [60, 30, 10])[0]):
        l = []
        for _ in range(rng.choice([1, 2, 3, 4])):
            r = rng.random()
            if r < 0.1 and cfgs[0]["bdrf"]:
                k = "K%d.%d" % (t, len(l))
                l.append({"op": "mkcache", "cfg": 0, "slot": k, "mode": rng.choice(["mu0", "nodes"]) if cfgs[0]["I0"] else "nodes",
                          "cb": rng.choice(["plain", "yield"])})
                l.append({"op": "solve", "cfg": 0, "cache": k, "probe": probes(rng, cfgs[0], 1)})
            else:
                l.append(pieces(rng, cfgs, slots, l[-1] if l and l[-1]["op"] in ("ev", "hp", "solve") and not l[-1].get("cache") else None))
            o = l[-1]
            if rng.random() < 0.3 and o["op"] not in ("derive",):
                o["faults"] = [fault(rng)]
            elif o["op"] == "solve" and rng.random() < 0.1 and not o.get("cache"):
                o["bad"] = rng.choice(ops.BAD)
            elif o["op"] == "ev" and rng.random() < 0.12:
                l[-1] = o = out_of_range(rng, cfgs[dict(slots)[o["slot"]]], o)
            if rng.random() < 0.2:
                o["drop"] = True
        tasks.append(l)
    scen = {"prop": "C16", "cfgs": cfgs, "setup": setup, "tasks": tasks}
    with_derive(scen)
    scen["env"] = {"nogc": True} if rng.random() < 0.2 else {}
    return finish(scen, rng)


def growth(rng):
    c = gen_cfg(rng, NQuad=rng.choice([2, 4, 4, 6]), NL=rng.choice([1, 1, 2, 3, 4]), ag=False)
    if len(c["tau"]) > 2:
        c["banded"] = rng.choice([3, 3, 10])
    cfgs = [c]
    k = rng.choice(["solve", "solve", "ev", "ev", "hp", "cache", "bad", "mix"])
    g = {"warm": 240, "win": 40, "n": 8, "fresh": rng.random() < 0.8, "ops": []}
    if rng.random() < 0.15:
        g["thread"] = True
    setup = []
    if k in ("ev", "mix"):
        setup = [{"op": "solve", "cfg": 0, "slot": "S0", "cb": "plain"}]
        g["ops"] += [query(rng, c, "S0") for _ in range(rng.choice([1, 2, 3]))]
        if rng.random() < 0.3:
            g["ops"] += [out_of_range(rng, c, q) for q in g["ops"][:2]]
    if k in ("solve", "mix"):
        g["ops"].append({"op": "solve", "cfg": 0, "cb": rng.choice(["plain", "memo"]), "probe": probes(rng, c, 1)})
        if rng.random() < 0.4:
            g["ops"][-1]["slot"] = "X"
    if k in ("hp", "mix"):
        g["ops"] += [ops.gen_helper(rng) for _ in range(rng.choice([1, 2, 4]))]
    if k == "cache":
        if not c["bdrf"]:
            c["bdrf"] = [problem.gen_bdrf_mode(rng, 0.2) for _ in range(rng.randint(1, 3))]
        g["ops"].append({"op": "mkcache", "cfg": 0, "slot": "K", "mode": rng.choice(["mu0", "nodes"]) if c["I0"] else "nodes"})
    if k == "bad":
        g["ops"] += [{"op": "solve", "cfg": 0, "bad": b} for b in rng.sample(ops.BAD, rng.choice([1, 3]))]
    scen = {"prop": "C16", "cfgs": cfgs, "setup": setup, "tasks": [[]], "grow": g, "sched": {"kind": "serial", "first": 0}}
    want = sorted({need(o) for o in g["ops"] if o["op"] == "ev" and need(o)})
    for o in setup:
        o["derive"] = want
    for o in g["ops"]:
        if o["op"] == "solve" and not o.get("bad"):
            o["derive"] = sorted({need(q) for q in o.get("probe", ()) if need(q)} | set(rng.choice([(), ("act",), ("iu0",)])))
    scen["env"] = {}
    return finish(scen, rng)


# ------------------------------------------------------------------------------------------------ C17
def g_C17(rng):
    c = gen_cfg(rng, ag=rng.random() < 0.06, NQuad=rng.choices([2, 4, 6, 8], [10, 45, 25, 20])[0],
                NL=rng.choices([1, 2, 3, 4, 10, 11], [20, 35, 25, 15, 2, 4])[0])
    cb_exc = [e for e in CB_EXC if e != "StopIteration"] + ["SystemExit", "KeyboardInterrupt", "custom", "custom", "custombase"]
    what = rng.choices(["callback", "interrupt", "helper", "cache"], [50, 25, 12, 13])[0]
    if what in ("callback", "cache") and not any(isinstance(m, dict) for m in c["bdrf"]):
        c["bdrf"] = [problem.gen_bdrf_mode(rng, 0.0) for _ in range(rng.randint(1, 3))]
    cfgs = [c]
    if rng.random() < 0.3:
        cfgs.append(same_shape(rng, c))

    def cbf():
        return {"kind": "callback", "u": rng.random(), "exc": rng.choice(cb_exc), "repeat": rng.choice([1, 1, 1, 2, 1000])}

    def itf():
        return {"kind": "abort", "u": rng.random(), "v": rng.random(), "exc": rng.choice(["KeyboardInterrupt", "KeyboardInterrupt", "SystemExit"]),
                "pick": rng.choice(["site", "site", "step"])}
    l, setup = [], []
    if rng.random() < 0.3:
        l.append(solve(rng, cfgs, len(cfgs) - 1, None, 1))
    if what == "callback":
        o = solve(rng, cfgs, 0, "S0", rng.choice([0, 1]), faults=[cbf()])
        l.append(o)
        while rng.random() < 0.3 and len(l) < 5:
            l.append(dict(copy.deepcopy(o), faults=[cbf()]))
    elif what == "interrupt":
        setup.append(solve(rng, cfgs, 0, "S0", 0))
        for _ in range(rng.choice([1, 2])):
            q = pieces(rng, cfgs, [("S0", 0)], None)
            if q["op"] != "derive":
                q["faults"] = [itf()]
            l.append(q)
    elif what == "helper":
        h = ops.gen_helper(rng)
        while h["name"] != "generate_emissivity_from_BDRF" or not isinstance(h["a"]["mode"], dict):
            h = ops.gen_helper(rng)
        h["faults"] = [cbf() if rng.random() < 0.8 else itf()]
        l.append(h)
    else:
        mk = {"op": "mkcache", "cfg": 0, "slot": "K", "mode": rng.choice(["mu0", "nodes"]) if c["I0"] else "nodes", "cb": "plain"}
        if rng.random() < 0.7:
            mk["faults"] = [cbf()]
        l.append(mk)
        if rng.random() < 0.4:
            l.append(copy.deepcopy(mk))
        l.append({"op": "solve", "cfg": 0, "cache": "K", "faults": [cbf()]})
        if rng.random() < 0.5:
            l.append({"op": "em", "cfg": 0, "slot": "K", "faults": [cbf()]})
    tasks = [l]
    if rng.random() < 0.15:
        tasks.append([solve(rng, cfgs, len(cfgs) - 1, None, 1)])
    scen = {"prop": "C17", "cfgs": cfgs, "setup": setup, "tasks": tasks}
    with_derive(scen)
    scen["env"] = env(rng, 0.15)
    return finish(scen, rng)


# ------------------------------------------------------------------------------------------------ C18
def worrying(rng, c):
    """Inputs that are accepted with a warning."""
    c = copy.deepcopy(c)
    k = rng.choice(["x", "x", "omega", "leg", "coeffs", "leg0", "none"])
    if k in ("x", "omega", "leg") and c["NQuad"] > 2:
        c["x"] = True if k == "x" else k
        d = gen_values(rng, c)
        if well_conditioned(d):
            return d
    if k == "coeffs":
        c["s"] = [row[:1] + [1e-9] * 10 + [1e-7 * rng.random()] for row in (c["s"] or [[0.3]] * len(c["tau"]))]
    return c


def g_C18(rng):
    c = small(rng, x=0, y=0, ag=rng.random() < 0.06)
    if rng.random() < 0.015:
        c = gen_cfg(rng, NQuad=66, NL=1, NT=False, bdrf=0, x=0, only_flux=False)
        c["NLeg"] = c["NFourier"] = None
    cfgs = [c]
    for _ in range(rng.choice([1, 2])):
        cfgs.append(worrying(rng, c if rng.random() < 0.6 else small(rng, x=0, y=0)))
    n = len(cfgs)
    slots = [("S%d" % i, i) for i in range(n) if rng.random() < 0.5 and cfgs[i]["NQuad"] < 60]
    setup = [solve(rng, cfgs, i, s, 0) for s, i in slots]
    for o in setup:
        if rng.random() < 0.2:
            o["leg0"] = rng.choice([0.5, 0.9, 1.1])
    tasks, prev = [], []
    for t in range(rng.choices([1, 2, 3], [40, 40, 20])[0]):
        l = []
        for _ in range(rng.choice([1, 2, 2, 3, 4])):
            r = rng.random()
            if r < 0.2 and prev:         # the same call once more
                o = copy.deepcopy(rng.choice(prev))
                for k in ("faults", "intr", "escal", "slot"):
                    if k != "slot" or o["op"] != "ev":
                        o.pop(k, None)
                if o["op"] == "mkcache":
                    o["slot"] = "K%d%d" % (t, len(l))
            elif r < 0.62:
                i = rng.randrange(n)
                o = solve(rng, cfgs, i, None, rng.choice([0, 0, 1]))
                if rng.random() < 0.3:
                    o["leg0"] = rng.choice([0.5, 0.9, 1.1])
                    if o.get("form") == "readonly":
                        o.pop("form")
                if rng.random() < 0.08:
                    o["bad"] = rng.choice(ops.BAD)
            elif r < 0.78:
                o = {"op": "mkcache", "cfg": rng.randrange(n), "slot": "K%d%d" % (t, len(l)), "mode": rng.choice(["mu0", "nodes", "nodes"]),
                     "cb": "plain"}
                if not cfgs[o["cfg"]]["bdrf"]:
                    continue
                if not cfgs[o["cfg"]]["I0"]:
                    o["mode"] = "nodes"
            else:
                o = pieces(rng, cfgs, slots, prev[-1] if prev else None)
            if o["op"] != "derive":
                if rng.random() < 0.12:
                    o["faults"] = [fault(rng, ["abort", "kernel"] + (["callback"] if o["op"] == "solve" and cfgs[o["cfg"]]["bdrf"] else []))]
                elif rng.random() < 0.1 and o["op"] != "mkcache":
                    o["intr"] = [{"u": rng.random(), "v": rng.random(), "pick": rng.choice(["site", "step"]),
                                  "ops": [pieces(rng, cfgs, slots, o)]}]
                prev.append(o)
            l.append(o)
        tasks.append(l or [solve(rng, cfgs, n - 1, None, 0)])
    if len(tasks) > 1 and rng.random() < 0.4:
        mirror(rng, tasks)
    scen = {"prop": "C18", "cfgs": cfgs, "setup": setup, "tasks": tasks, "warned": rng.choices(["always", "error"], [80, 20])[0]}
    with_derive(scen)
    scen["env"] = env(rng, 0.1)
    return finish(scen, rng, 0.1)


# ------------------------------------------------------------------------------------------------ C19
def g_C19(rng):
    g = rng.choices([g_C01, g_C02, g_C03, g_C06, g_C07, g_C08, g_C09, g_C11, g_C12, g_C14, g_C17, g_C18],
                    [2, 1.5, 1, 4, 3, 1.5, 4, 2, 3, 1, 2, 2])[0]
    scen = g(rng)
    scen.pop("warned", None)
    scen["env"].pop("warn", None)        # Python itself prints warnings
    scen["env"].pop("err", None)
    scen["broken"] = rng.random() < 0.5
    scen["style"] = g.__name__[2:]
    return scen


# ------------------------------------------------------------------------------------------------ C20
def g_C20(rng):
    for _ in range(12):
        g = rng.choices([g_C02, g_C04, g_C06, g_C07, g_C08, g_C11, g_C14, g_C16, g_C17], [4, 1, 3, 1, 2, 2, 2, 1, 2])[0]
        scen = g(rng)
        if "grow" not in scen and any(isinstance(m, dict) for c in scen["cfgs"] for m in c["bdrf"]):
            break
    else:
        scen = None
    if scen is None or "grow" in scen:
        return g_C20(rng)
    scen.pop("warned", None)
    scen["env"].pop("warn", None)
    scen["env"].pop("err", None)
    scen["track"] = True
    scen["style"] = g.__name__[2:]
    scen["late"] = rng.random() < 0.3
    scratch = rng.random() < 0.35
    from .sim import all_ops
    for _, o in all_ops(scen):
        o.pop("escal", None)
        if scratch and o["op"] in ("solve", "mkcache", "hp") and o.get("cb", "plain") in ("plain", "yield", "watched") and rng.random() < 0.7:
            o["cb"] = rng.choice(["scribble", "keeper"])
            scen["scratch"] = True
    return scen


GENS = {k[2:]: v for k, v in list(globals().items()) if k.startswith("g_C")}


def generate(prop, seed):
    rng = random.Random("%s/%d" % (prop, seed))
    s = GENS[prop](rng)
    s["seed"] = seed
    s["prop"] = prop
    return s
