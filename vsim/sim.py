"""One simulated run: reference answers, the run itself, and the judgement."""
import collections
import contextvars
import copy
import gc
import json
import os
import pickle
import random
import signal
import struct
import sys
import traceback
import types
import warnings
import weakref
import _thread

import numpy as np

from . import envstate, ops, problem, seams
from .sched import Counter, Sched, SimKill, Task

HARNESS = "HARNESS"


# ------------------------------------------------------------------------------------------------ forked calls
def fork_call(fn, *args, timeout=120):
    """Run fn(*args) in a forked copy of this process and return its (pickled) result."""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            signal.alarm(int(timeout))
            try:
                out = ("ok", fn(*args))
            except BaseException:
                out = ("err", traceback.format_exc())
            data = pickle.dumps(out, protocol=5)
            with os.fdopen(w, "wb") as f:
                f.write(data)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    _, st = os.waitpid(pid, 0)
    if not data:
        return ("dead", "child ended with status %d" % st)
    return pickle.loads(data)


# ------------------------------------------------------------------------------------------------ values
def snap_value(v):
    if isinstance(v, np.ndarray):
        return v.copy()
    if isinstance(v, tuple):
        return tuple(snap_value(x) for x in v)
    if isinstance(v, list):
        return [snap_value(x) for x in v]
    if isinstance(v, np.generic):
        return v
    if v is None or isinstance(v, (int, float, complex, str, bool)):
        return v
    if hasattr(v, "_value"):
        return snap_value(v._value)
    return repr(type(v))


def same_value(a, b, rtol=1e-9, atol=0.0, bcast=False):
    """None if equal, else a short description."""
    if isinstance(a, (tuple, list)) or isinstance(b, (tuple, list)):
        if not (isinstance(a, (tuple, list)) and isinstance(b, (tuple, list))) or len(a) != len(b):
            return "structure differs"
        for i, (x, y) in enumerate(zip(a, b)):
            d = same_value(x, y, rtol, atol, bcast)
            if d:
                return "[%d] %s" % (i, d)
        return None
    if isinstance(a, str) or isinstance(b, str) or a is None or b is None:
        return None if a == b else "%r != %r" % (a, b)
    x, y = np.asarray(a), np.asarray(b)
    if x.dtype.kind not in "fciub" or y.dtype.kind not in "fciub":
        return None if str(x) == str(y) else "kind differs"
    if x.shape != y.shape:
        if not bcast:
            return "shape %s != %s" % (x.shape, y.shape)
        try:
            x, y = np.broadcast_arrays(x, y)
        except ValueError:
            return "shape %s != %s" % (x.shape, y.shape)
    if x.size == 0:
        return None
    with np.errstate(all="ignore"):
        fx, fy = np.isfinite(x), np.isfinite(y)
        if not np.array_equal(fx, fy):
            return "finite-ness differs (%d of %d finite, expected %d)" % (fx.sum(), fx.size, fy.sum())
        if not fx.any():
            return None
        xs, ys = x[fx], y[fy]
        scale = np.max(np.abs(ys))
        err = np.max(np.abs(xs - ys))
        if err <= rtol * scale + atol or err == 0:
            return None
        return "differs by %.3g (scale %.3g)" % (err, scale)


# ------------------------------------------------------------------------------------------------ context
class Ctx:
    def __init__(self, scen):
        self.scen = scen
        self.cfgs = scen["cfgs"]
        self.slots = {}
        self.owned = ops.Owned()
        self.shared_args = {}
        self.shared_q = {}
        self.results = []
        self.nested_depth = {}      # task id -> depth of calls made from inside callbacks
        self.env_problem = None
        self.track_env = scen["prop"] == "C09"
        self.fork_problem = None
        self.forks = self.fork_mid = 0
        self.watch = [] if scen["prop"] == "C16" else None      # (name, weak reference) of everything handed over
        self.track = bool(scen.get("track"))    # C20: every call of a user-supplied function is recorded
        self.running = {}           # thread -> records of the calls running on it, innermost last
        self.cb_problem = None
        self.cb_seen = 0

    def note(self, name, obj):
        """Remember (weakly) an object that went into or came out of the library."""
        if self.watch is None:
            return
        if isinstance(obj, np.ndarray):
            self.watch.append((name, weakref.ref(obj)))
            if isinstance(obj.base, np.ndarray):
                self.watch.append((name + " (memory)", weakref.ref(obj.base)))
        elif callable(obj):
            self.watch.append((name, weakref.ref(obj)))

    def release(self):
        """The callers drop everything they hold."""
        self.slots.clear()
        self.shared_args.clear()
        self.shared_q.clear()
        self.owned.items.clear()
        for r in self.results:
            r["live"] = None

    # ---- what user-supplied functions see
    def called(self, who, mu, neg_mup):
        l = self.running.get(_thread.get_ident())
        self.cb_seen += 1
        if not l:
            self.trouble("a user-supplied function was called when none of the calls it was given to was running (on this thread)")
            return
        rec = l[-1]
        rec["calls"].append(repr((who, [(np.shape(a), np.asarray(a, dtype=float).tobytes().hex()) for a in (mu, neg_mup)])))
        e = callback_env()
        if e != rec["env"] and not rec["op"].get("escal"):
            self.trouble("a user-supplied function called by %s saw a different environment than its caller: %s" % (
                describe(rec["op"]), ", ".join(k for k in e if e[k] != rec["env"].get(k))))

    def trouble(self, what):
        if self.cb_problem is None:
            self.cb_problem = what

    def keep(self, arrays):
        """A user-supplied function keeps the arrays it was given; they are overwritten when the call has ended."""
        l = self.running.get(_thread.get_ident())
        if l:
            l[-1]["kept"].extend(arrays)

    # ---- one operation
    def execute(self, me, op, key):
        if op.get("needs") and op["needs"] not in self.slots:
            return None
        slot = op.get("slot")
        if op["op"] in ("ev", "cc", "em", "derive") and slot not in self.slots:
            return None
        if op.get("cache") and op["cache"] not in self.slots:
            return None
        rec = {"key": key, "op": op, "outcome": None, "val": None, "live": None, "exc": None, "fired": [],
               "steps": 0, "touched": False, "nswitch": 0}
        sch = seams.ACTIVE
        if op.get("tick"):
            seams.Clock.jump += op["tick"]
        e0 = thread_env() if self.track_env else None
        if me is not None:
            me.op = describe(op)
            me.opsteps = me.opkern = me.opcb = 0
            me.faults = tuple(dict(f) for f in op.get("faults", ()))
            me.fired = []
            me.raised = []
            me.intr = sorted((dict(h) for h in op.get("intr", ()) if "at" in h), key=lambda h: h["at"])
            me.runner = self.run_interrupt
            if op.get("stall") is not None:
                me.stall_at = me.steps + op["stall"]
            n0 = getattr(sch, "nswitch", 0)
            me.quiet = False
        ident = _thread.get_ident()
        tok = object()
        ops.InFlight.tokens.add(tok)
        lender = ops.InFlight.now.get(ident)
        ops.InFlight.now[ident] = tok, op["op"] == "mkcache"
        outer = seams.World.inside.get(ident), seams.Warned.now.get(ident)
        seams.World.inside[ident] = describe(op)
        if self.track:
            rec["calls"], rec["kept"] = [], []
            token = CALLER.set(key)
            rec["env"] = callback_env()
            self.running.setdefault(ident, []).append(rec)
        seams.Warned.now[ident] = rec["warned"] = []
        try:
            if op.get("escal"):
                rec["live"] = self.perform_escalated(me, op, rec)
            else:
                rec["live"] = self.perform(me, op)
            rec["outcome"] = "ok"
        except SimKill:
            raise
        except BaseException as e:
            rec["outcome"] = "exc"
            rec["exc"] = type(e).__mro__[1].__name__ if type(e).__name__ in (
                "SimInterrupt", "SimMemoryError", "_L") else type(e).__name__
            rec["msg"] = str(e)[:120]
            rec["same"] = me is not None and any(e is x for x in me.raised)
            e.__traceback__ = None
            e = None
        finally:
            ops.InFlight.tokens.discard(tok)
            ops.InFlight.now[ident] = lender or (None, True)
            if self.track:
                self.running[ident].pop()
                CALLER.reset(token)
                for a in rec.pop("kept"):
                    a[...] = 0.4321
            for d, o in zip((seams.World.inside, seams.Warned.now), outer):
                if o is None:
                    d.pop(ident, None)
                else:
                    d[ident] = o
            if me is not None:
                me.quiet = True
                me.faults = me.intr = ()
                me.raised = []
                me.stall_at = None
                rec["fired"] = me.fired + ([("escalated", op["escal"])] if op.get("escal") and rec["outcome"] == "exc" else [])
                rec["steps"] = me.opsteps
                rec["nswitch"] = getattr(sch, "nswitch", 0) - n0
        if rec["outcome"] == "ok":
            rec["val"] = snap_value(rec["live"])
            if self.watch is not None:
                for a in ops.flat_arrays(rec["live"]):
                    self.note("result of %s" % describe(op), a)
        if e0 is not None:
            e1 = thread_env()
            if e1 != e0 and self.env_problem is None:
                self.env_problem = "%s changed by %s" % (", ".join(k for k in e0 if e0[k] != e1[k]), describe(op))
        if op.get("drop"):
            rec["live"] = None
            if slot:
                self.slots.pop(slot, None)
        self.results.append(rec)
        if me is not None and sch is not None:
            me.quiet = False
            sch.point(me, 9, 0)
            me.quiet = True
        return rec

    def perform_escalated(self, me, op, rec):
        """The call is made while numerical conditions (this thread) or warnings (the process) are errors."""
        if op["escal"] == "numpy":
            old = np.seterr(all="raise")
            try:
                return self.perform(me, op)
            finally:
                np.seterr(**old)
        f = list(warnings.filters)
        warnings.simplefilter("error")
        try:
            return self.perform(me, op)
        finally:
            warnings.filters[:] = f
            warnings._filters_mutated() if hasattr(warnings, "_filters_mutated") else None

    def perform(self, me, op):
        k = op["op"]
        if k == "solve":
            def phase_end():
                if me is not None:
                    me.faults = ()
                    if me.trace is not None:
                        me.trace.append(("end",))
            return ops.do_solve(self, op, self.cfgs, self.slots, phase_end)
        if k == "ev":
            n = op.get("times", 1)
            for i in range(n - 1):          # the caller asks again and again; only the last answer is judged
                q = op
                if op.get("vary") and op.get("tau"):
                    q = dict(op, tau=[t * (i + 1) / n for t in op["tau"]])
                    q.pop("shq", None)
                    q.pop("reuseq", None)
                ops.do_query(self, self.slots[op["slot"]]["fns"], q, self.shared_q)
            self.again()
            return ops.do_query(self, self.slots[op["slot"]]["fns"], op, self.shared_q)
        if k == "hp":
            for i in range(op.get("times", 1) - 1):
                ops.do_helper(self, op)
            self.again()
            return ops.do_helper(self, op)
        if k == "mkcache":
            return ops.do_mkcache(self, op, self.cfgs, self.slots)
        if k == "cc":
            return ops.do_callcache(op, self.cfgs, self.slots)
        if k == "em":
            s = ops.subs()
            return s.generate_emissivity_from_BDRF(self.cfgs[op["cfg"]]["NQuad"] // 2, self.slots[op["slot"]]["modes"][0])
        if k == "mut":
            q = me.quiet if me is not None else None
            if me is not None:
                me.quiet = True
            n = ops.do_mut(self, op, self.slots)
            if me is not None:
                me.quiet = q
            return n
        if k == "derive":
            sl = self.slots[op["slot"]]
            ops.derive(sl["fns"], op["which"])
            return None
        if k == "gc":
            gc.collect()
            return None
        if k == "fork":
            return self.do_fork(me, op)
        raise KeyError(k)

    def again(self):
        """The same call is about to be repeated; only its last execution counts."""
        seams.Warned.again()
        l = self.running.get(_thread.get_ident())
        if l:
            del l[-1]["calls"][:]

    def run_nested(self, me, nested):
        """A call made from inside a user callback."""
        depth = self.nested_depth.get(me.id, 0)
        if depth >= nested.get("max", 1):
            return
        self.nested_depth[me.id] = depth + 1
        saved = self.save(me)
        try:
            for i, op in enumerate(nested["ops"]):
                self.execute(me, op, nested["key"] + "n%d" % i)
        finally:
            self.nested_depth[me.id] = depth
            self.restore(me, saved)

    @staticmethod
    def save(me):
        return (me.op, me.opsteps, me.opkern, me.opcb, me.faults, me.fired, me.stall_at, me.intr, me.raised, me.line)

    @staticmethod
    def restore(me, saved):
        me.op, me.opsteps, me.opkern, me.opcb, me.faults, me.fired, me.stall_at, me.intr, me.raised, me.line = saved
        me.quiet = False

    def run_interrupt(self, me, h):
        """Calls made on the thread of a running call, at an arbitrary point of it."""
        saved = self.save(me)
        try:
            for i, op in enumerate(h["ops"]):
                self.execute(me, op, h["key"] + ".%d" % i)
        finally:
            self.restore(me, saved)

    def do_fork(self, me, op):
        """The process forks: only the calling thread goes on in the child, wherever the others are."""
        r, w = os.pipe()
        self.forks += 1
        self.fork_mid += sum(1 for t in seams.ACTIVE.tasks if t is not me and t.opsteps and not t.quiet and t.state != "done")
        for f in reversed(seams.Proc.before):
            f()
        me.quiet = True         # the interpreter's own fork handlers are not part of the schedule
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                signal.alarm(60)
                sch = seams.ACTIVE
                self.results, self.fork_problem, self.forks = [], None, 0
                mid = [t.op for t in sch.tasks if t is not me and t.op and t.state != "done"]
                sch.tasks, sch.kind, sch.base_threads = [me], "serial", 10 ** 6
                seams.Proc.pid += 1
                try:
                    for f in list(seams.Proc.child):
                        f()
                    for i, o in enumerate(op["ops"]):
                        self.execute(me, o, op["key"] + "f%d" % i)
                except SimKill:
                    pass
                pr = sch.problem
                if pr:
                    pr = (pr[0], "in a forked child: %s (other callers at the fork: %s)" % (pr[1], "; ".join(mid) or "none"))
                data = pickle.dumps(([dict(x, live=None) for x in self.results], pr or self.fork_problem), protocol=5)
                with os.fdopen(w, "wb") as f:
                    f.write(data)
            finally:
                os._exit(0)
        os.close(w)
        with os.fdopen(r, "rb") as f:
            data = f.read()
        _, st = os.waitpid(pid, 0)
        me.quiet = False
        for f in list(seams.Proc.parent):
            f()
        if not data:
            if self.fork_problem is None:
                self.fork_problem = ("child-lost", "a forked child never finished its calls (status %d): %s" % (
                    st, "; ".join(describe(o) for o in op["ops"])))
            return None
        recs, pr = pickle.loads(data)
        self.results += recs
        if pr and self.fork_problem is None:
            self.fork_problem = pr
        return None


CALLER = contextvars.ContextVar("caller", default=None)


def callback_env():
    """What code that runs on the caller's behalf can see of its surroundings."""
    e = thread_env()
    e["context variables"] = CALLER.get()
    e["warning filters"] = tuple(id(f) for f in warnings.filters)
    e["signal mask"] = tuple(sorted(signal.pthread_sigmask(signal.SIG_BLOCK, ())))
    e["garbage collector"] = gc.isenabled()
    e["recursion limit"] = sys.getrecursionlimit()
    e["working directory"] = os.getcwd()
    e["thread switch interval"] = sys.getswitchinterval()
    return e


def thread_env():
    import decimal
    return {"numpy error handling": tuple(sorted(np.geterr().items())),
            "numpy error callback": id(np.geterrcall()),
            "numpy print options": repr(sorted((k, repr(v)) for k, v in np.get_printoptions().items())),
            "numpy buffer size": np.getbufsize(),
            "decimal context": repr(decimal.getcontext())}


def describe(op):
    k = op["op"]
    if k == "ev":
        return "%s(%d tau%s%s%s)" % (op["fn"], len(op.get("tau") or ()), ", anti" if op.get("anti") else "",
                                     ", ferr" if op.get("ferr") else "", ", rtau" if op.get("rtau") else "")
    if k == "solve":
        return "pydisort(cfg%s%s)" % (op["cfg"], ", invalid: " + op["bad"] if op.get("bad") else "")
    if k == "hp":
        return op["name"]
    if k == "mut":
        return "caller changes its %s" % op["what"]
    return k


# ------------------------------------------------------------------------------------------------ references
def norm_creator(op, scen):
    """The solve that defines what the operation's solution must be: plain arrays, plain callbacks, no cache."""
    o = {k: v for k, v in op.items() if k in ("op", "cfg", "leg0", "derive", "probe", "bad")}
    o["slot"] = "R"
    if o.get("probe"):
        o["probe"] = [dict(q, form="array") if len(q.get("tau") or ()) != 1 else dict(q, form="scalar") for q in o["probe"]]
    return o


def ref_cfgs(scen):
    return scen.get("ref_cfgs") or scen["cfgs"]


WARN = {"mode": None}      # C18: the filter under which warnings are collected, in references as well


def plain_env(heap="zero"):
    warnings.resetwarnings()
    warnings.simplefilter(WARN["mode"] or "ignore")
    if WARN["mode"]:
        warnings.simplefilter("ignore", RuntimeWarning)
        warnings.showwarning = seams.Warned.show
    np.seterr(all="ignore")
    seams.Heap.mode = heap
    seams.Heap.rng = random.Random(99)
    np.random.seed(12345)
    random.seed(12345)


def ref_one(scen, op, trace):
    """Execute one operation alone (this process is a fresh fork)."""
    c = Ctx(dict(scen, cfgs=ref_cfgs(scen), prop="ref"))
    return ref_exec(c, op, trace)


def ref_exec(c, op, trace):
    cnt = None
    if trace:
        cnt = Counter()
        cnt.t.trace = []
        seams.ACTIVE = cnt
        seams.enable("line", True)
    rec = c.execute(cnt.t if cnt else None, op, "ref")
    seams.ACTIVE = None
    if rec is None:
        return None
    out = {"outcome": rec["outcome"], "exc": rec["exc"], "val": rec["val"], "msg": rec.get("msg"), "warned": rec["warned"]}
    if "calls" in rec:
        out["calls"] = rec["calls"]
    if cnt:
        tr = cnt.t.trace
        for i, x in enumerate(tr):
            if x[0] == "end":
                tr = tr[:i]
                break
        out["steps"] = cnt.t.opsteps
        out["trace"] = tr
    return out


def ref_group(scen, creator, evs, trace, etrace):
    """Create a solution in isolation, then answer every query in its own fork."""
    plain_env()
    c = Ctx(dict(scen, cfgs=ref_cfgs(scen), prop="ref"))
    first = ref_exec(c, creator, trace)
    outs = []
    for q in evs:
        if first is None or first["outcome"] != "ok":
            outs.append(None)
        elif len(outs) == len(evs) - 1:
            outs.append(ref_exec(c, q, etrace[len(outs)]))     # nothing happens in this process afterwards
        else:
            st, o = fork_call(ref_exec, c, q, etrace[len(outs)])
            if st != "ok":
                raise RuntimeError("reference: " + str(o))
            outs.append(o)
    return first, outs


def all_ops(scen):
    """Every operation with its key, in a fixed order (nested ones included)."""
    out = []

    def walk(key, op):
        out.append((key, op))
        n = op.get("nested")
        if n:
            n["key"] = key
            for i, o in enumerate(n["ops"]):
                walk(key + "n%d" % i, o)
        for j, h in enumerate(op.get("intr", ())):
            h["key"] = key + "i%d" % j
            for i, o in enumerate(h["ops"]):
                walk(h["key"] + ".%d" % i, o)
        if op["op"] == "fork":
            op["key"] = key
            for i, o in enumerate(op["ops"]):
                walk(key + "f%d" % i, o)
    for i, o in enumerate(scen.get("setup", ())):
        walk("s%d" % i, o)
    for t, l in enumerate(scen["tasks"]):
        for i, o in enumerate(l):
            walk("t%d.%d" % (t, i), o)
    for i, o in enumerate(scen.get("post", ())):
        walk("p%d" % i, o)
    return out


def placed_by_trace(op):
    """Whether something is to happen at a point of this operation that its isolated execution determines."""
    return (any("at" not in f for f in op.get("faults", ())) or any("at" not in h for h in op.get("intr", ()))
            or isinstance(op.get("stall"), float))


def compute_refs(scen, trace):
    """{key: reference outcome} computed in isolated processes."""
    ol = all_ops(scen)
    if scen["prop"] in ("C05", "C09", "C10", "C16", "C17", "C19") and scen["sched"]["kind"] not in ("hot", "pct"):
        # judged without reference values: isolated executions are only needed to place faults
        need = set() if scen.get("resolved") else {k for k, o in ol if placed_by_trace(o)}
        every, ol = ol, [(k, o) for k, o in ol if k in need]
    else:
        every = ol
    creators = {}
    for key, op in every:
        if op["op"] == "solve" and op.get("slot"):
            creators[op["slot"]] = op
    refs = {}
    groups = {}
    order = []
    every_trace = trace and (scen["sched"]["kind"] in ("hot", "pct") or scen["prop"] == "C13")

    def traced(op):
        return every_trace or trace and placed_by_trace(op)
    for key, op in ol:
        if op.get("nr"):            # not judged: only there for the history it makes
            continue
        if op["op"] == "solve":
            g = json.dumps(norm_creator(op, scen), sort_keys=True)
            if g not in groups:
                groups[g] = (norm_creator(op, scen), [], [], set())
                order.append(g)
            groups[g][2].append((key, None))
            if traced(op):
                groups[g][3].add(None)
        elif op["op"] == "ev" or op["op"] == "derive" and op.get("re"):
            cr = creators.get(op["slot"])
            if cr is None:
                continue
            n = norm_creator(cr, scen)
            n["derive"] = sorted(set(n.get("derive", ())) | {d for o2 in (x[1] for x in every) if o2["op"] == "derive"
                                                            and o2["slot"] == op["slot"] and not o2.get("re") for d in o2["which"]})
            g = json.dumps(n, sort_keys=True)
            if g not in groups:
                groups[g] = (n, [], [], set())
                order.append(g)
            q = {k: v for k, v in op.items() if k not in ("faults", "stall", "shq", "form", "drop", "needs", "reuseq", "escal", "meter",
                                                            "times", "vary", "intr", "tick")}
            q["slot"] = "R"
            q["form"] = "scalar" if len(op.get("tau") or ()) == 1 and op.get("form") in ("scalar", "npscalar") else "array"
            qs = json.dumps(q, sort_keys=True)
            lst = groups[g][1]
            for i, (s, _) in enumerate(lst):
                if s == qs:
                    break
            else:
                i = len(lst)
                lst.append((qs, q))
            groups[g][2].append((key, i))
            if traced(op):
                groups[g][3].add(i)
    for g in order:
        cr, evs, keys, tr = groups[g]
        st, o = fork_call(ref_group, scen, cr, [q for _, q in evs], None in tr, [i in tr for i in range(len(evs))])
        if st != "ok":
            raise RuntimeError("reference: " + str(o))
        first, outs = o
        for key, i in keys:
            refs[key] = first if i is None else outs[i]
    for key, op in ol:
        if op.get("nr"):
            continue
        if op["op"] == "hp":
            q = {k: v for k, v in op.items() if k not in ("faults", "stall", "form", "cb", "drop", "escal", "meter", "times", "intr", "tick", "shcb")}
            st, o = fork_call(_ref_alone, scen, q, traced(op))
            if st != "ok":
                raise RuntimeError("reference: " + str(o))
            refs[key] = o
        elif op["op"] == "cc":
            cfg = scen["cfgs"][op["cfg"]]
            refs[key] = {"outcome": "ok", "exc": None, "val": ops.cache_expect(op, cfg)}
        elif op["op"] == "em":
            cfg = scen["cfgs"][op["cfg"]]
            q = {"op": "hp", "name": "generate_emissivity_from_BDRF", "a": {"N": cfg["NQuad"] // 2, "mode": cfg["bdrf"][0]}}
            st, o = fork_call(_ref_alone, scen, q, traced(op))
            if st != "ok":
                raise RuntimeError("reference: " + str(o))
            refs[key] = o
        elif op["op"] == "mkcache":
            st, o = fork_call(_ref_alone, scen, dict({k: v for k, v in op.items() if k not in ("faults", "intr", "tick")}, cb="plain"), traced(op))
            if st != "ok":
                raise RuntimeError("reference: " + str(o))
            refs[key] = o
    return refs


def _ref_alone(scen, op, trace):
    plain_env()
    return ref_one(scen, op, trace)


# ------------------------------------------------------------------------------------------------ fault placement
def resolve(scen, refs, rng):
    """Turn fault intentions into exact positions, using what the isolated execution of each operation did."""
    for key, op in all_ops(scen):
        r = refs.get(key)
        tr = (r or {}).get("trace")
        fl = []
        for f in op.get("faults", ()):
            if "at" in f or f["kind"] == "inlock":
                fl.append(f)
                continue
            if not tr:
                continue
            if f["kind"] == "abort":
                lines = [x for x in tr if x[0] >= 0]
                if not lines:
                    continue
                if f.get("pick") == "site":
                    sites = {}
                    for i, x in enumerate(lines):
                        sites.setdefault(x, []).append(i + 1)
                    s = sites[sorted(sites)[int(f["u"] * len(sites)) % len(sites)]]
                    at = s[int(f["v"] * len(s)) % len(s)]
                else:
                    at = 1 + int(f["u"] * len(lines))
                fl.append({"kind": "abort", "at": at, "exc": f["exc"]})
            elif f["kind"] == "kernel":
                ks = [x for x in tr if x[0] in (-1, -2)]
                imp = [i + 1 for i, x in enumerate(ks) if x[2] == "__import__"] if f.get("linalg") == "import" else []
                if imp:
                    cand = imp
                elif f.get("linalg") and any(x[0] == -2 for x in ks):
                    cand = [i + 1 for i, x in enumerate(ks) if x[0] == -2]
                elif ks:
                    sites = {}
                    for i, x in enumerate(ks):
                        sites.setdefault(x, []).append(i + 1)
                    cand = sites[sorted(sites)[int(f["u"] * len(sites)) % len(sites)]]
                else:
                    continue
                at = cand[int(f["v"] * len(cand)) % len(cand)]
                fl.append({"kind": "kernel", "at": at, "repeat": f.get("repeat", 1), "exc": f.get("exc")})
            elif f["kind"] == "callback":
                n = sum(1 for x in tr if x[0] == -9)
                if n:
                    fl.append({"kind": "callback", "at": 1 + int(f["u"] * n) % n, "exc": f["exc"], "repeat": f.get("repeat", 1)})
        if "faults" in op:
            op["faults"] = fl
        for h in op.get("intr", ()):
            if "at" not in h:
                lines = [x for x in (tr or ()) if x[0] >= 0]
                if not lines:
                    continue
                if h["pick"] == "site":
                    sites = {}
                    for i, x in enumerate(lines):
                        sites.setdefault(x, []).append(i + 1)
                    s = sites[sorted(sites)[int(h["u"] * len(sites)) % len(sites)]]
                    h["at"] = s[int(h["v"] * len(s)) % len(s)]
                else:
                    h["at"] = 1 + int(h["u"] * len(lines))
                if scen.get("gran") == "instr":
                    h["ins"] = int(h["v"] * 97) % 12
        if isinstance(op.get("stall"), float):
            n = (r or {}).get("steps") or 50
            op["stall"] = 1 + int(op["stall"] * n)
    s = scen["sched"]
    tot = sum((refs.get(k) or {}).get("steps") or 30 for k, o in all_ops(scen) if k[0] == "t")
    if s["kind"] == "pct" and "change" not in s:
        s["change"] = sorted(rng.randint(1, max(2, tot)) for _ in range(s["d"]))
        s["prio"] = rng.sample(range(len(scen["tasks"])), len(scen["tasks"]))
    if s["kind"] == "hot" and "hot" not in s:
        lines = sorted({x for k, o in all_ops(scen) if k[0] == "t" for x in (refs.get(k) or {}).get("trace") or () if x[0] >= 0})
        s["hot"] = [list(x) for x in rng.sample(lines, min(len(lines), s["n"]))]
    scen["resolved"] = True


# ------------------------------------------------------------------------------------------------ environment
def apply_env(env, seed, first=True):
    """Process environment of the run (warning filters are process-wide; numpy settings per thread)."""
    if first:
        warnings.resetwarnings()
        if env.get("warn", "quiet") == "quiet":
            # silent, but distinguishable from what a library would install, so that a leaked filter shows
            if not WARN["mode"]:
                warnings.filterwarnings("ignore", module=".*")
            else:
                warnings.simplefilter(WARN["mode"])
                warnings.simplefilter("ignore", RuntimeWarning)
        else:
            warnings.simplefilter(env["warn"])
        np.random.seed(seed & 0xFFFFFFFF)
        random.seed(seed)
        seams.Heap.mode = env.get("heap", "zero")
        seams.Heap.rng = random.Random(seed ^ 0x5EED)
        seams.Heap.fired = 0
        if env.get("rng_draws"):
            np.random.random(env["rng_draws"])
        if env.get("dirty_heap"):
            junk = [np.full(n, np.nan) for n in (8, 16, 64, 128, 256, 1024, 2048) for _ in range(6)]
            del junk
        if env.get("nogc"):
            gc.disable()
        seams.Clock.jump = env.get("clock", 0.0)
    if env.get("err", "quiet") == "quiet":
        np.seterr(divide="ignore", over="ignore", invalid="ignore", under="warn")
    else:
        np.seterr(all=env["err"])
    if env.get("print"):
        np.set_printoptions(precision=env["print"], suppress=True, threshold=5)


# ------------------------------------------------------------------------------------------------ run
def run(scen):
    """Execute one scenario in this (forked, disposable) process.  Returns a plain dict."""
    rng = random.Random(scen["seed"])
    prop = scen["prop"]
    trace = bool(scen.get("trace", True))
    if prop == "C18":
        WARN["mode"] = scen["warned"]
    refs = compute_refs(scen, trace)
    if not scen.get("resolved"):
        resolve(scen, refs, rng)
    env = scen.get("env", {})
    if env.get("dirty_history"):
        pass
    plain_env()
    apply_env(env, scen["seed"])
    if prop == "C19":
        seams.watch_world(scen["broken"])
    ctx = Ctx(scen)
    gran = scen.get("gran", "line")
    kern = any(f["kind"] == "kernel" for _, o in all_ops(scen) for f in o.get("faults", ()))
    if prop == "C09":
        # values that a library would hardly write itself, so that a leaked setting shows
        for i, v in enumerate(("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS", "NUMEXPR_NUM_THREADS")):
            if (scen["seed"] >> i) & 1:
                os.environ[v] = "3"
            else:
                os.environ.pop(v, None)
    state0 = envstate.snapshot() if prop == "C09" else None
    th0 = _thread._count()
    for i, op in enumerate(scen.get("setup", ())):
        ctx.execute(None, op, "s%d" % i)
    # the scheduler has its own stream, so that a scenario whose points are already resolved runs identically
    sch = Sched(random.Random(scen["seed"] ^ 0x5C4ED), scen["sched"], step_cap=scen.get("cap", 400_000 if gran == "line" else 2_500_000))
    if prop == "C03":
        def inv(me):
            c = ctx.owned.changed()
            if c:
                return "%s changed while %s was running (seen at step %d of task %d)" % (c, me.op, me.steps, me.id)
        sch.step_inv = inv

    def body(oplist, tid):
        def b(me):
            apply_env(env, 0, False)
            for i, op in enumerate(oplist):
                ctx.execute(me, op, "t%d.%d" % (tid, i))
        return b
    for t, l in enumerate(scen["tasks"]):
        sch.add(body(l, t))
    finished = True
    if scen["tasks"]:
        seams.enable(gran, kern)
        finished = sch.run()
        seams.disable()
    out = {"seed": scen["seed"], "digest": "%016x" % sch.h, "steps": sch.total, "switches": sch.nswitch,
           "viol": None, "fired": [], "blocked": sch.blocked_waits, "heap": seams.Heap.fired,
           "nops": 0, "sched": sch.switches, "first": getattr(sch, "first", 0), "kind": scen["sched"]["kind"], "gran": gran, "clock": sch.clock, "stalls": len(sch.stalled_now), "seen": sch.seen, "preempted": sch.preempted, "err": None}
    for t in sch.tasks:
        if t.exc is not None:
            out["err"] = "".join(traceback.format_exception(t.exc))[-2000:]
            return out
    if sch.problem:
        if sch.problem[0] == "hang" and prop != "C13":
            out["err"] = "hang: " + sch.problem[1]
            return out
        out["viol"] = (sch.problem[0], sch.problem[1])
        return out
    if prop == "C09":
        _thread_settle(th0)
        state1 = envstate.snapshot()
    for i, op in enumerate(scen.get("post", ())):
        ctx.execute(None, op, "p%d" % i)
    out["nops"] = len(ctx.results)
    out["fired"] = [list(f) for r in ctx.results for f in r["fired"]]
    out["env"] = dict(env)
    out["intr"], out["forks"], out["rounds"] = sch.interrupts, ctx.forks, 0
    out["mid"] = ctx.fork_mid
    out["watched"] = len(ctx.watch or ())
    out["warned"] = sum(len(r["warned"]) + (r["exc"] == "UserWarning") for r in ctx.results)
    out["cbseen"] = ctx.cb_seen
    out["nested"] = sum(1 for r in ctx.results if "n" in r["key"])
    out["badops"] = sum(1 for r in ctx.results if r["op"].get("bad"))
    out["muts"] = sum(r["val"] for r in ctx.results if r["op"]["op"] == "mut" and isinstance(r["val"], int))
    out["caches"] = sum(1 for r in ctx.results if r["op"].get("cache") or r["op"]["op"] in ("cc", "em"))
    out["okops"] = sum(1 for r in ctx.results if r["outcome"] == "ok")
    out["excops"] = sum(1 for r in ctx.results if r["outcome"] == "exc")
    out["fns"] = sorted({r["op"].get("fn") or r["op"].get("name") or r["op"]["op"] for r in ctx.results})
    if prop == "C20" and scen.get("late"):
        # nobody holds anything any more; what the library does now, it does for nobody
        ctx.slots.clear()
        gc.collect()
    out["viol"] = judge(scen, ctx, refs, sch, (state0, state1, th0) if prop == "C09" else None)
    return out


def _thread_settle(th0):
    for _ in range(400):
        if _thread._count() <= th0:
            return
        seams.real_sleep(0.005)


# ------------------------------------------------------------------------------------------------ judgement
def lenient_env(env):
    return env.get("warn") == "error" or env.get("err") == "raise"


def floors(scen):
    """Absolute tolerance for the values of each solution: 1e-12 of the size of the problem's sources."""
    out = {}
    for _, op in all_ops(scen):
        i = op.get("cfg")
        if i is not None and op["op"] == "solve":
            f = 1e-12 * problem.magnitude(scen["cfgs"][i])
            if op.get("slot"):
                out[op["slot"]] = max(f, out.get(op["slot"], 0.0))
            out[("cfg", i)] = f
    return out


def judge_op(r, ref, env, faulted_ok, rtol, bcast=False, floor=None):
    """Compare one recorded operation with its reference.  Returns a description of the disagreement, or None."""
    op = r["op"]
    if ref is None:
        return None
    if r["outcome"] == "exc":
        if faulted_ok and r["fired"]:
            return None
        if ref["outcome"] == "exc" and ref["exc"] == r["exc"]:
            return None
        if lenient_env(env):
            return None
        if ref["outcome"] == "exc":
            return "%s raised %s instead of %s" % (describe(op), r["exc"], ref["exc"])
        return "%s raised %s (%s)" % (describe(op), r["exc"], r.get("msg"))
    if ref["outcome"] == "exc":
        if ref["exc"] in ("RuntimeError",) and ref.get("msg", "").startswith("reference run"):
            return None
        return "%s returned although alone it raises %s" % (describe(op), ref["exc"])
    atol = 1e-300
    if floor and op["op"] == "solve":
        atol = floor.get(("cfg", op["cfg"]), atol)
    elif floor and op["op"] == "ev":
        atol = floor.get(op.get("slot"), atol)
    d = same_value(r["val"], ref["val"], rtol, atol, bcast)
    if d:
        return "%s: %s" % (describe(op), d)
    return None


def judge(scen, ctx, refs, sch, c09):
    prop = scen["prop"]
    if ctx.fork_problem:
        return ctx.fork_problem
    if prop == "C16":
        return judge_released(ctx)
    if prop == "C19":
        for call, what in seams.World.seen:
            return ("outside-world", "%s %s" % (call, what))
        return None
    if prop == "C20":
        d = judge_callbacks(ctx, refs)
        if d or not scen.get("scratch"):
            return d
        for r in ctx.results:
            if r["op"]["op"] not in ("mut", "gc"):
                d = judge_op(r, refs.get(r["key"]), scen.get("env", {}), True, scen.get("rtol", 1e-9),
                             bcast=r["op"]["op"] in ("em", "cc"), floor=floors(scen))
                if d:
                    return ("scratch", d + " after a user-supplied function had overwritten arrays it was given [operation %s]" % r["key"])
        return None
    if prop == "C18":
        for r in ctx.results:
            ref = refs.get(r["key"])
            if ref is None or r["fired"] or r["op"]["op"] in ("mut", "gc", "cc") or r["op"].get("reuse"):
                continue
            if (r["outcome"], r["exc"]) != (ref["outcome"], ref["exc"]):
                return ("warning", "%s %s instead of %s [operation %s]" % (
                    describe(r["op"]), said(r), said(ref), r["key"]))
            if r["warned"] != ref["warned"]:
                return ("warning", "%s issued %s, alone %s [operation %s]" % (
                    describe(r["op"]), short(r["warned"]), short(ref["warned"]), r["key"]))
        return None
    env = scen.get("env", {})
    rtol = scen.get("rtol", 1e-9)
    floor = floors(scen)
    if prop == "C03":
        if sch.inv_hit:
            return ("argument-modified", sch.inv_hit)
        c = ctx.owned.changed()
        if c:
            return ("argument-modified", "%s changed" % c)
        for r in ctx.results:
            d = judge_op(r, refs.get(r["key"]), env, True, rtol, floor=floor)
            if d and any(x in str(r["op"].get("form")) + str(r["op"].get("cb")) for x in ("readonly", "_ro")):
                return ("read-only-argument", d)
        return None
    if prop == "C05":
        keep = [r for r in ctx.results if r["outcome"] == "ok" and not r["touched"] and r["live"] is not None]
        for r in keep:
            d = same_value(snap_value(r["live"]), r["val"], 0.0)
            if d:
                return ("result-changed", "result of %s changed after it was returned: %s" % (describe(r["op"]), d))
        arrs = []
        for r in ctx.results:
            if r["outcome"] != "ok" or r["live"] is None:
                continue
            for a in ops.flat_arrays(r["live"]):
                if a.size and a.ndim and a.dtype.kind in "fciu":
                    arrs.append((r, a))
        spans = []
        for r, a in arrs:
            lo, hi = np.lib.array_utils.byte_bounds(a)
            spans.append((lo, hi))
        for i in range(len(arrs)):
            for j in range(i + 1, len(arrs)):
                if arrs[i][1] is arrs[j][1] and arrs[i][0] is arrs[j][0]:
                    return ("result-shared", "%s returned the same array twice" % describe(arrs[i][0]["op"]))
                if spans[i][0] < spans[j][1] and spans[j][0] < spans[i][1]:
                    a, b = arrs[i][1], arrs[j][1]
                    if np.shares_memory(a, b, max_work=10000):
                        # decisive test: the holder of one overwrites it
                        w = a if a.flags.writeable else (b if b.flags.writeable else None)
                        if w is None:
                            continue
                        other = b if w is a else a
                        before = other.copy()
                        w += 1.5 if w.dtype.kind in "fc" else 1
                        if not np.array_equal(before, other, equal_nan=w.dtype.kind in "fc"):
                            return ("result-shared", "overwriting a result of %s changed a result of %s" % (
                                describe(arrs[i][0]["op"]), describe(arrs[j][0]["op"])))
        return None
    if prop == "C09":
        s0, s1, th0 = c09
        if ctx.env_problem:
            return ("process-state", ctx.env_problem)
        ign = set()
        if scen.get("interp"):
            ign.add("numpy global random generator")
        d = envstate.diff(s0, s1, ign)
        if d:
            return ("process-state", "changed after all calls returned: " + "; ".join(d))
        if _thread._count() > th0:
            return ("process-state", "%d extra live threads after all calls returned" % (_thread._count() - th0))
        if scen.get("interp") == "serial" and not rng_explained(s0, s1, scen):
            return ("process-state", "numpy's global random generator was changed in an unknown way")
        return None
    if prop == "C13":
        m = [r for r in ctx.results if r["op"].get("meter") and r["outcome"] == "ok"]
        if len(m) >= 4:
            g = [b["steps"] - a["steps"] for a, b in zip(m, m[1:])]
            if min(g) >= 20:
                return ("slower-and-slower", "%s takes %s steps after equally many more aborted calls each time" % (
                    describe(m[0]["op"]), ", ".join(str(r["steps"]) for r in m)))
        for r in ctx.results:
            ref = refs.get(r["key"])
            if ref and ref.get("steps") is not None and r["key"][0] == "t":
                lim = 2 * ref["steps"] + 300
                if scen.get("gran", "line") != "line":
                    lim = 2 * ref["steps"] + 300
                if r["steps"] > lim and not (ref["outcome"] == "exc"):
                    return ("too-many-steps", "%s took %d steps, alone %d" % (describe(r["op"]), r["steps"], ref["steps"]))
        return None
    if prop == "C07":
        tainted = {}
        for r in ctx.results:
            op = r["op"]
            src = r["fired"] or tainted.get(op.get("cache")) or (op["op"] not in ("solve", "mkcache") and tainted.get(op.get("slot")))
            if op.get("slot") and op["op"] in ("solve", "mkcache") and r["outcome"] == "ok":
                tainted[op["slot"]] = src     # an object whose construction met a failure must still be right
            if not src or op["op"] in ("mut", "gc"):
                continue
            d = judge_op(r, refs.get(r["key"]), env, bool(r["fired"]), scen.get("rtol", 1e-8), bcast=op["op"] in ("em", "cc"), floor=floor)
            if d:
                return ("wrong-after-failure", "%s [after injected %s]" % (d, list(src[0])))
        return None
    if prop == "C10":
        return judge_c10(scen, ctx)
    if prop == "C17":
        for r in ctx.results:
            own = [f for f in r["fired"] if f[0] == "callback" or f[0] == "abort" and f[1] in INTERRUPTS]
            if not own:
                continue
            if r["outcome"] == "ok":
                return ("swallowed", "%s returned although %s was raised %s" % (describe(r["op"]), own[0][1], where(own[0])))
            if not r.get("same"):
                return ("replaced", "%s raised %s (%s) instead of the %s that was raised %s" % (
                    describe(r["op"]), r["exc"], r.get("msg"), own[0][1], where(own[0])))
        return None
    # C01 C02 C04 C06 C08 C11 C12 C14 C15
    for r in ctx.results:
        fa = prop in ("C06", "C11", "C12", "C15")
        if prop == "C06" and r["fired"]:
            continue
        if r["op"]["op"] in ("mut", "gc"):
            continue
        d = judge_op(r, refs.get(r["key"]), env, fa, rtol, bcast=r["op"]["op"] in ("em", "cc"), floor=floor)
        if d:
            return ("wrong-result", d + " [operation %s]" % r["key"])
    return None


def judge_callbacks(ctx, refs):
    """The user-supplied functions were called as in the calls executed alone."""
    if ctx.cb_problem:
        return ("callback-context", ctx.cb_problem)
    for r in ctx.results:
        ref, op = refs.get(r["key"]), r["op"]
        if op["op"] in ("mut", "gc", "derive", "fork", "cc"):
            continue
        if op["op"] == "ev":
            if r["calls"]:
                return ("callback-count", "%s called a user-supplied function (operation %s)" % (describe(op), r["key"]))
            continue
        if ref is None or op.get("reuse"):
            continue
        a, b = collections.Counter(r["calls"]), collections.Counter(ref["calls"])
        more, less = a - b, b - a
        # a call that did not get to its end, and one that was given cached functions, needs fewer calls
        if r["fired"] or op.get("cache") or op["op"] == "em" or (r["outcome"], r["exc"]) != (ref["outcome"], ref["exc"]):
            less = None
        if more or less:
            return ("callback-count", "%s made %d calls of user-supplied functions, alone %d; %d of them alone not so, %d missing (operation %s)" % (
                describe(op), sum(a.values()), sum(b.values()), sum(more.values()), sum(less.values()) if less else 0, r["key"]))
    return None


def said(r):
    return "returned" if r["outcome"] == "ok" else "raised %s" % r["exc"]


def short(w):
    return "[%s]" % "; ".join("%s: %s" % (a, b[:70]) for a, b in w)


INTERRUPTS = ("KeyboardInterrupt", "SystemExit")


def where(f):
    return "by the user-supplied reflectance function" if f[0] == "callback" else "in %s, line %d" % (f[2], f[3])


def judge_released(ctx):
    """Nothing that went into or came out of the calls is still referenced once the callers have dropped it."""
    watch, ctx.watch = ctx.watch, None
    ctx.release()
    for r in ctx.results:
        r["val"] = None
    gc.collect()
    gc.collect()
    alive = [n for n, w in watch if w() is not None]
    if alive:
        return ("retained", "%d of %d objects are kept alive by the library after every caller dropped them: %s" % (
            len(alive), len(watch), "; ".join(sorted(set(alive))[:4])))
    return None


def rng_explained(s0, s1, scen):
    """The known finding: constructing interpolators draws permutations from numpy's global generator."""
    a, b = s0["numpy global random generator"], s1["numpy global random generator"]
    if a == b:
        return True
    rs = np.random.RandomState()
    rs.set_state((a[0], np.frombuffer(a[1], dtype=np.uint32), a[2], a[3], a[4]))
    N = scen["cfgs"][0]["NQuad"] // 2
    for _ in range(40):
        rs.permutation(N)
        st = rs.get_state()
        if (st[0], st[1].tobytes(), st[2], st[3], st[4]) == b:
            return True
    return False


# ------------------------------------------------------------------------------------------------ C10
def judge_c10(scen, ctx):
    """Every point of every call must have the value it has alone; references are computed point by point."""
    pts = scen["c10"]["points"]
    q0 = scen["c10"]["q"]
    alone = scen["_alone"]
    floor = max(list(floors(scen).values()) or [0.0])
    for r in ctx.results:
        if r["op"]["op"] != "ev" or "c10" not in r["op"]:
            continue
        idx = r["op"]["c10"]
        if r["outcome"] == "exc":
            if r["fired"]:
                continue
            bad = [a for a in (alone[k] for k in _pts(idx)) if a is not None and a["outcome"] == "exc"]
            if bad or any(alone[k] is None for k in _pts(idx)):
                continue
            return ("batch-raises", "%s raised %s (%s) although every point alone succeeds" % (
                describe(r["op"]), r["exc"], r.get("msg")))
        d = c10_compare(r, idx, alone, q0, floor)
        if d:
            return ("batch-differs", "%s: %s" % (describe(r["op"]), d))
    return None


def _pts(idx):
    return [json.dumps(p) for p in idx["pts"]]


def c10_compare(r, idx, alone, q0, floor=0.0):
    v = r["val"]
    fn = q0["fn"]
    nt, nphi, nmu = idx["nt"], idx["nphi"], idx["nmu"]
    ferr, rtau = bool(r["op"].get("ferr")), bool(r["op"].get("rtau"))
    extra = ()
    main = v
    if fn == "Fm":
        if not isinstance(v, tuple) or len(v) < 2:
            return "unexpected structure"
        main, extra = v[:2], v[2:]
    elif ferr or rtau:
        if not isinstance(v, tuple):
            return "unexpected structure"
        main, extra = v[0], v[1:]
    parts = main if fn == "Fm" else (main,)
    chk = idx.get("chk")             # large batches: only some optical depths are compared
    if chk is not None:
        nt = len(chk)
        sh = np.shape(np.asarray(parts[0]))
        if idx["nt"] not in sh:
            return "no axis of length %d in %s" % (idx["nt"], sh)
        parts = tuple(np.take(x, chk, axis=list(np.shape(x)).index(idx["nt"])) if np.ndim(x) else x for x in map(np.asarray, parts))
        if nt == 1:
            parts = tuple(np.squeeze(x) for x in parts)
    refs = [alone[k] for k in _pts(idx)]
    if any(x is None or x["outcome"] != "ok" for x in refs):
        return None
    vals = [x["val"] for x in refs]
    if fn == "Fm":
        comp = [[x[0] for x in vals], [x[1] for x in vals]]
    elif ferr or rtau:
        comp = [[x[0] for x in vals]]
    else:
        comp = [vals]
    lead = np.shape(np.asarray(comp[0][0]))          # () or (NQuad,)
    # order of pts: tau-major, phi inner; mu first for interpolated functions
    for ci, (got, want) in enumerate(zip(parts, comp)):
        got = np.asarray(got)
        if fn in ("iu", "iu0"):
            full = (nmu, nt, nphi)
            w = np.array(want, float).reshape(full)
        elif fn in ("u",):
            w = np.array(want, float).reshape((nt, nphi) + lead)
            w = np.moveaxis(w, -1, 0) if lead else w
        elif fn == "u0":
            w = np.array(want, float).reshape((nt,) + lead)
            w = np.moveaxis(w, -1, 0) if lead else w
        else:
            w = np.array(want, float).reshape((nt,))
        w = np.squeeze(w)
        if fn == "Fm" and ci == 1 and got.ndim == 0 and w.ndim and np.all(w == 0) and got == 0:
            continue                                  # no beam: the direct flux is a plain zero
        d = same_value(got, w, 1e-8, floor)
        if d:
            return d
    if ferr and chk is None:
        e = float(np.max([x[1] for x in vals]))
        g = float(extra[0])
        if not (abs(g - e) <= 1e-6 * max(abs(e), abs(g)) + 1e-12) and not (np.isnan(e) and np.isnan(g)):
            return "convergence indicator %.6g, maximum over the points alone %.6g" % (g, e)
    if rtau:
        d = same_value(extra[-1], vals[0][-1], 0.0)
        if d:
            return "layer boundaries: " + d
    return None


def c10_alone(scen):
    """Each point queried alone, in a fresh process."""
    plain_env()
    c = Ctx(dict(scen, prop="ref"))
    cr = norm_creator(scen["setup"][0], scen)
    rec = c.execute(None, cr, "ref")
    out = {}
    q0 = scen["c10"]["q"]
    for p in scen["c10"]["points"]:
        if rec["outcome"] != "ok":
            out[json.dumps(p)] = None
            continue
        q = dict(q0, op="ev", slot="R", form="scalar")
        q["tau"] = [p[0]]
        if p[1] is not None:
            q["phi"] = [p[1]]
        if p[2] is not None:
            q["mu"] = [p[2]]
        r = c.execute(None, q, "ref")
        out[json.dumps(p)] = {"outcome": r["outcome"], "exc": r["exc"], "val": r["val"]}
    return out


def run_c10(scen):
    st, o = fork_call(c10_alone, scen)
    if st != "ok":
        raise RuntimeError("reference: " + str(o))
    scen["_alone"] = o
    try:
        return run(scen)
    finally:
        scen.pop("_alone", None)


# ------------------------------------------------------------------------------------------------ long lives
def vary_round(cfg, i):
    """The same problem with values that have not been used before."""
    c = copy.deepcopy(cfg)
    c["omega"] = [w * (1 - 1e-6 * (i + 1)) for w in c["omega"]]
    c["tau"] = [t * (1 + 1e-6 * (i + 1)) for t in c["tau"]]
    return c


def vary_value(v, i):
    """The same argument, a little different in every round, so that anything filed under its value is filed anew."""
    if isinstance(v, list):
        return [vary_value(x, i) for x in v]
    if isinstance(v, float):
        return v * (1 - 1e-7 * (i % 9973 + 1))
    return v


def growing(marks, g):
    """At least one item per round was added in the latest windows, without a pause.

    The allocator's own noise is a few dozen blocks that come and go."""
    d = [b - a for a, b in zip(marks, marks[1:])][-g["n"]:]
    h = d[len(d) // 2:]
    return (sum(d) >= 0.75 * g["win"] * len(d) and sum(h) >= 0.75 * g["win"] * len(h) and sum(x <= 0 for x in d) <= 1)


def library_holds(slots):
    """Number of entries of all containers reachable from the package's modules and from living solutions."""
    root = [m for n, m in list(sys.modules.items()) if n == seams.PKG or n.startswith(seams.PKG + ".")]
    todo = [m.__dict__ for m in root] + [slots]
    seen, n = set(), 0
    names = {m.__name__ for m in root}
    while todo:
        x = todo.pop()
        if id(x) in seen:
            continue
        seen.add(id(x))
        if isinstance(x, types.ModuleType) or isinstance(x, type) and x.__module__ not in names:
            continue
        if isinstance(x, types.FunctionType) and x.__module__ not in names:
            continue
        if isinstance(x, (dict, list, tuple, set, frozenset, collections.deque)):
            n += len(x)
        elif not gc.is_tracked(x) and not isinstance(x, np.ndarray):
            continue
        if isinstance(x, np.ndarray) and x.dtype != object:
            n += x.size
            continue
        # (functions lead to their module's globals, which are already among the roots)
        todo.extend(y for y in gc.get_referents(x) if not isinstance(y, (int, float, complex, str, bytes, types.CodeType)))
    return n


def run_growth(scen):
    """One process lives through many calls; the memory it holds must stop growing."""
    plain_env()
    g = scen["grow"]
    seams.ACTIVE = None
    np.random.seed(scen["seed"] & 0xFFFFFFFF)
    marks, held = [], []
    fns = {"ok": 0, "exc": 0}
    keep = Ctx(dict(scen, prop="grow"))
    for i, o in enumerate(scen.get("setup", ())):
        keep.execute(None, o, "s%d" % i)
    keep.results.clear()
    keep.owned.items.clear()

    def one(i):
        for op in g["ops"]:
            cfgs = [vary_round(c, i) for c in scen["cfgs"]] if g["fresh"] else scen["cfgs"]
            c = Ctx(dict(scen, cfgs=cfgs, prop="grow"))
            c.slots = keep.slots if op["op"] == "ev" else {}
            q = dict(op)
            if op["op"] == "ev":
                q["tau"] = [t * (1 - 1e-6 * (i % 9973 + 1)) for t in op["tau"]]
            elif op["op"] == "hp" and g["fresh"]:
                q["a"] = {k: vary_value(v, i) for k, v in op["a"].items()}
            r = c.execute(None, q, "g")
            if r is not None:
                fns["ok" if r["outcome"] == "ok" else "exc"] += 1
            if op["op"] == "mkcache" and r["outcome"] == "ok":
                for m in c.slots[op["slot"]]["modes"]:
                    if callable(m):
                        n = problem.nodes(cfgs[op["cfg"]]["NQuad"] // 2)
                        m(n, n)
    total = g["warm"] + g["win"] * g["n"]
    last, i, v = total, 0, None
    while i < last:
        if g.get("thread"):
            done = seams.real_lock()
            done.acquire()

            def body():
                try:
                    one(i)
                finally:
                    done.release()
            _thread.start_new_thread(body, ())
            done.acquire()
        else:
            one(i)
        i += 1
        if i >= g["warm"] and (i - g["warm"]) % g["win"] == 0:
            if g.get("thread"):
                for _ in range(200):
                    if _thread._count() == 0:
                        break
                    seams.real_sleep(0.001)
            gc.collect()
            gc.collect()
            marks.append(sys.getallocatedblocks())
            held.append(library_holds(keep.slots))
            if i == total and (growing(marks, g) or growing(held, g)):
                last = total * 4          # a large but bounded store stops growing in the end
    total = last
    for m, what in ((held, "entries in objects the library holds on to"), (marks, "blocks of memory")):
        if last > g["warm"] + g["win"] * g["n"] and growing(m, g):
            v = ("grows", "memory keeps growing with every call: %s more %s after each %d rounds of %s" % (
                ", ".join(str(y - x) for x, y in zip(m[-9:], m[-8:])), what, g["win"], ", ".join(describe(o) for o in g["ops"])))
            break
    d = [y - x for x, y in zip(marks, marks[1:])]
    return {"seed": scen["seed"], "digest": "%016x" % (scen["seed"] & 0xFFFFFFFFFFFF), "steps": total, "switches": 0, "viol": v,
            "fired": [], "blocked": 0, "heap": 0, "nops": total * len(g["ops"]), "sched": [], "first": 0, "kind": "serial",
            "gran": "line", "clock": 0.0, "stalls": 0, "seen": set(), "preempted": set(), "err": None, "env": {}, "nested": 0,
            "badops": sum(1 for o in g["ops"] if o.get("bad")) * total, "muts": 0, "caches": 0, "okops": fns["ok"],
            "excops": fns["exc"], "fns": sorted({o.get("fn") or o.get("name") or o["op"] for o in g["ops"]}),
            "intr": 0, "forks": 0, "rounds": total, "growth": d, "held": [y - x for x, y in zip(held, held[1:])]}


def limit(scen):
    return 400 if "grow" in scen else 120


def run_any(scen):
    r = run_growth(scen) if "grow" in scen else run_c10(scen) if scen["prop"] == "C10" else run(scen)
    r["scen"] = scen if r["viol"] else None
    if not r["viol"]:
        r["sched"] = None
    return r
