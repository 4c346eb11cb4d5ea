"""Minimisation of a failing scenario: fewer callers, operations, faults, points and context switches."""
import copy

from . import seams, sim


class Shrinker:
    def __init__(self, scen, cls, budget=45.0):
        self.best = scen
        self.cls = cls
        self.end = seams.real_monotonic() + budget
        self.tries = 0
        self.last = None

    def out_of_time(self):
        return seams.real_monotonic() > self.end

    def fails(self, scen):
        self.tries += 1
        st, o = sim.fork_call(sim.run_any, copy.deepcopy(scen), timeout=60 if "grow" not in scen else 200)
        if st != "ok" or o["err"] or not o["viol"] or o["viol"][0] != self.cls:
            return None
        return o

    def attempt(self, scen):
        if self.out_of_time():
            return False
        o = self.fails(scen)
        if o:
            self.best, self.last = scen, o
            return True
        return False

    # ---------------------------------------------------------------- structure
    def drop_task(self, i):
        s = copy.deepcopy(self.best)
        del s["tasks"][i]
        sc = s["sched"]
        if sc.get("first") is not None:
            sc["first"] = 0 if sc["first"] == i else sc["first"] - (sc["first"] > i)
        if sc.get("main") is not None:
            k = sc["main"] % (len(s["tasks"]) + 1)
            if k == i:
                sc.pop("main")
            else:
                sc["main"] = k - (k > i)
        if sc["kind"] == "explicit":
            m = lambda t: t - (t > i)
            sc["plan"] = [[m(a), b, m(c)] for a, b, c in sc["plan"] if a != i and c != i]
        sc.pop("prio", None)
        if sc["kind"] == "pct":
            sc["prio"] = list(range(len(s["tasks"])))
        return s

    def structural(self):
        changed = True
        while changed and not self.out_of_time():
            changed = False
            i = len(self.best["tasks"]) - 1
            while i >= 0:
                if len(self.best["tasks"]) > 1 and self.attempt(self.drop_task(i)):
                    changed = True
                i -= 1
            for part in ("post", "setup"):
                i = len(self.best.get(part, ())) - 1
                while i >= 0:
                    s = copy.deepcopy(self.best)
                    del s[part][i]
                    changed |= self.attempt(s)
                    i -= 1
            for t in range(len(self.best["tasks"])):
                i = len(self.best["tasks"][t]) - 1
                while i >= 0:
                    if len(self.best["tasks"][t]) > 1 or len(self.best["tasks"]) > 1:
                        s = copy.deepcopy(self.best)
                        del s["tasks"][t][i]
                        changed |= self.attempt(s)
                    i -= 1

    def ops(self, s):
        for l in [s.get("setup", []), s.get("post", [])] + s["tasks"]:
            for o in l:
                yield from self.inner(o)

    def inner(self, o):
        yield o
        for h in o.get("intr", ()):
            for x in h["ops"]:
                yield from self.inner(x)
        if o["op"] == "fork":
            for x in o["ops"]:
                yield from self.inner(x)

    def lists(self, s):
        """Lists of calls below the top level."""
        for o in list(self.ops(s)):
            if o.get("intr"):
                yield o["intr"]
            for h in o.get("intr", ()):
                yield h["ops"]
            if o["op"] == "fork":
                yield o["ops"]
        if "grow" in s:
            yield s["grow"]["ops"]

    def sublists(self):
        n = len(list(self.lists(self.best)))
        for i in range(n):
            ls = list(self.lists(self.best))
            if i >= len(ls):
                break
            for j in range(len(ls[i]) - 1, -1, -1):
                s = copy.deepcopy(self.best)
                l = list(self.lists(s))[i]
                if len(l) > 1 and j < len(l):
                    del l[j]
                    self.attempt(s)

    def details(self):
        n = len(list(self.ops(self.best)))
        for i in range(n):
            if i >= len(list(self.ops(self.best))):
                break
            get = lambda s: list(self.ops(s))[i]
            for key in ("intr", "faults", "stall", "nested", "shared", "reuse", "reuseq", "shq", "cache", "leg0", "bad", "drop", "only", "escal",
                        "scalar", "one", "times", "vary", "kw", "rtau", "ferr", "anti", "cb", "form"):
                if key in get(self.best):
                    if key == "faults" and len(get(self.best)["faults"]) > 1:
                        for j in range(len(get(self.best)["faults"]) - 1, -1, -1):
                            s = copy.deepcopy(self.best)
                            del get(s)["faults"][j]
                            self.attempt(s)
                    s = copy.deepcopy(self.best)
                    del get(s)[key]
                    self.attempt(s)
            if "c10" not in get(self.best):
                while get(self.best).get("probe"):
                    for j in range(len(get(self.best)["probe"])):
                        s = copy.deepcopy(self.best)
                        del get(s)["probe"][j]
                        if self.attempt(s):
                            break
                    else:
                        break
                for k in ("tau", "phi", "mu"):
                    while isinstance(get(self.best).get(k), list) and len(get(self.best)[k]) > 1:
                        s = copy.deepcopy(self.best)
                        get(s)[k] = get(s)[k][:len(get(s)[k]) // 2]
                        if not self.attempt(s):
                            break
        for k in list(self.best.get("env", {})):
            s = copy.deepcopy(self.best)
            del s["env"][k]
            self.attempt(s)

    # ---------------------------------------------------------------- schedule
    def explicit(self):
        o = self.last or self.fails(self.best)
        if not o:
            return
        s = copy.deepcopy(self.best)
        main = s["sched"].get("main")
        s["sched"] = {"kind": "explicit", "first": o["first"], "plan": [list(x) for x in o["sched"]]}
        if main is not None:
            s["sched"]["main"] = main
        self.attempt(s)

    def plan(self):
        if self.best["sched"]["kind"] != "explicit":
            return
        p = self.best["sched"]["plan"]
        n = max(1, len(p) // 2)
        while n >= 1 and not self.out_of_time():
            i, any_ = 0, False
            while i < len(self.best["sched"]["plan"]) and not self.out_of_time():
                s = copy.deepcopy(self.best)
                del s["sched"]["plan"][i:i + n]
                if self.attempt(s):
                    any_ = True
                else:
                    i += n
            if n == 1 and not any_:
                break
            n = max(1, n // 2) if n > 1 else (1 if any_ else 0)

    def run(self):
        self.structural()
        if self.best["sched"]["kind"] != "serial":
            s = copy.deepcopy(self.best)
            s["sched"] = {"kind": "serial", "first": 0}
            self.attempt(s)
        if self.best["sched"]["kind"] not in ("serial", "explicit") or len(self.best["tasks"]) > 1:
            self.explicit()
            self.plan()
        self.structural()
        self.sublists()
        self.details()
        self.plan()
        return self.best
