"""The scheduler: real threads, exactly one of which runs at any time; every switch, stall and fault is decided here."""
import _thread
import sys

from . import seams

STEP_CAP = 400_000


class SimKill(BaseException):
    """Unwinds a task when the run is being torn down."""


class SimInterrupt(KeyboardInterrupt):
    pass


class SimMemoryError(MemoryError):
    pass


class SimLinAlg:      # replaced by a subclass of numpy.linalg.LinAlgError
    pass


def _mk_linalg():
    import numpy as np
    global SimLinAlg

    class _L(np.linalg.LinAlgError):
        pass
    SimLinAlg = _L


EXC = {
    "KeyboardInterrupt": SimInterrupt, "MemoryError": SimMemoryError,
    "ValueError": ValueError, "TypeError": TypeError, "ZeroDivisionError": ZeroDivisionError,
    "FloatingPointError": FloatingPointError, "RuntimeError": RuntimeError, "IndexError": IndexError,
    "KeyError": KeyError, "AttributeError": AttributeError, "StopIteration": StopIteration, "OSError": OSError,
    "TimeoutError": TimeoutError, "ArithmeticError": ArithmeticError, "AssertionError": AssertionError,
    "NotImplementedError": NotImplementedError, "OverflowError": OverflowError, "RecursionError": RecursionError,
    "SystemExit": SystemExit, "UserWarning": UserWarning, "Exception": Exception,
    "UnboundLocalError": UnboundLocalError, "LookupError": LookupError, "EOFError": EOFError,
    "BufferError": BufferError, "ImportError": ImportError,
}


class Custom(Exception):
    """An exception of the caller's own, unknown to the library."""


class CustomBase(BaseException):
    pass


EXC["custom"], EXC["custombase"] = Custom, CustomBase


def make_exc(name):
    if name == "LinAlgError":
        return SimLinAlg("injected fault")
    return EXC[name]("injected fault")


def inject(me, name):
    e = make_exc(name)
    me.raised.append(e)
    return e


class Task:
    __slots__ = ("id", "body", "lock", "state", "waiting", "timeout", "timed_out", "steps", "opsteps", "opkern", "opcb",
                 "quiet", "faults", "fired", "held", "prio", "stall_at", "forced", "op", "exc", "trace", "kill", "ends", "line",
                 "intr", "runner", "raised")

    def __init__(self, id, body):
        self.id, self.body = id, body
        self.lock = _thread.allocate_lock()
        self.lock.acquire()
        self.state = "ready"
        self.waiting = self.timeout = None
        self.timed_out = False
        self.steps = self.opsteps = self.opkern = self.opcb = 0
        self.quiet = True
        self.faults, self.fired = (), []
        self.held = 0              # simulated locks held now
        self.prio = 0
        self.stall_at = None
        self.op = None
        self.exc = None
        self.trace = None
        self.kill = False
        self.ends = 0
        self.line = 0
        self.intr = ()             # calls that will interrupt the running call on its own thread
        self.runner = None
        self.raised = []           # the exception objects that were injected into the running call


class Sched:
    def __init__(self, rng, spec, step_cap=STEP_CAP):
        self.rng, self.spec = rng, spec
        self.kind = spec["kind"]
        self.tasks = []
        self.by_ident = {}
        self.clock = 0.0
        self.total = 0
        self.h = 1469598103
        self.switches = []          # [task, its step, target]: the complete schedule
        self.nswitch = 0
        self.current = None
        self.done = _thread.allocate_lock()
        self.done.acquire()
        self.problem = None         # deadlock / no progress
        self.step_inv = None
        self.inv_hit = None
        self.step_cap = step_cap
        self.killing = False
        self.seen = set()           # package lines executed inside the simulation
        self.preempted = set()      # package lines at which a running call was preempted
        self.stalled_now = []
        self.blocked_waits = 0
        self.interrupts = 0
        self.codeidx = {c: i for i, c in enumerate(seams.CODES)}
        self.p = spec.get("p", 0.1)
        self.left = 0
        self.hot = set(tuple(x) for x in spec.get("hot", ()))
        self.change = set(spec.get("change", ()))
        self.plan = {}
        for t, s, n in spec.get("plan", ()):
            self.plan[(t, s)] = n

    # ------------------------------------------------------------------ identity
    def me(self):
        return self.by_ident.get(_thread.get_ident())

    # ------------------------------------------------------------------ events from instrumented code
    def on_line(self, me, code, line):
        me.opsteps += 1
        x = (self.codeidx[code] << 16) | line
        self.seen.add(x)
        if me.trace is not None:
            me.trace.append((self.codeidx[code], line))
        if me.faults:
            for f in me.faults:
                if f["kind"] == "inlock":
                    # the caller dies, or is paused, while it holds a lock of the library
                    if me.held and not f.get("done"):
                        f["left"] = f.get("left", f["skip"]) - 1
                        if f["left"] < 0:
                            if f["act"] == "stall":
                                f["done"] = True
                                me.stall_at = me.steps
                            elif line not in seams.NO_ABORT.get(code.co_filename, ()):
                                f["done"] = True
                                me.fired.append(("abort", f["exc"], code.co_name, line))
                                raise inject(me, f["exc"])
                    continue
                if f["kind"] == "abort" and not f.get("done") and me.opsteps >= f["at"] \
                        and line not in seams.NO_ABORT.get(code.co_filename, ()):
                    f["done"] = True
                    me.fired.append(("abort", f["exc"], code.co_name, line))
                    raise inject(me, f["exc"])
        me.line = x
        if me.intr and "ins" not in me.intr[0] and me.opsteps >= me.intr[0]["at"]:
            self.interrupt(me)
        self.point(me, 1, x)

    def on_instr(self, me, off):
        if me.intr and "ins" in me.intr[0] and me.opsteps >= me.intr[0]["at"]:
            me.intr[0]["ins"] -= 1
            if me.intr[0]["ins"] < 0:
                self.interrupt(me)
        self.point(me, 2, off)

    def interrupt(self, me):
        """Another call of the library runs to completion on this thread (signal handler, finaliser, profiler hook)."""
        h = me.intr.pop(0)
        self.interrupts += 1
        self.h = ((self.h ^ (7 << 40) ^ me.opsteps) * 1099511628211) & 0xFFFFFFFFFFFFFFFF
        me.runner(me, h)

    def on_kernel(self, me, code, kind, callable_):
        me.opkern += 1
        name = getattr(callable_, "__name__", "?")
        if me.trace is not None:
            me.trace.append((-kind, self.codeidx[code], name))
        if me.faults:
            for f in me.faults:
                if f["kind"] != "kernel":
                    continue
                n = f.get("count", 0)
                if (n == 0 and me.opkern >= f["at"]) or (0 < n < f.get("repeat", 1) and (f["name"] == name)):
                    if n == 0:
                        f["name"] = name
                    f["count"] = n + 1
                    me.fired.append(("kernel", name, code.co_name, kind))
                    e = f.get("exc")
                    if name == "__import__":
                        raise inject(me, "ImportError" if e in (None, "FloatingPointError", "ArithmeticError") else e)
                    raise inject(me, e if e else "LinAlgError" if kind == 2 else "MemoryError")

    def on_callback(self, me):
        """Called at the start of every user-supplied callback invocation."""
        me.opcb += 1
        if me.trace is not None:
            me.trace.append((-9,))
        for f in me.faults:
            if f["kind"] == "callback":
                n = f.get("count", 0)
                if (n == 0 and me.opcb >= f["at"]) or 0 < n < f.get("repeat", 1):
                    f["count"] = n + 1
                    me.fired.append(("callback", f["exc"]))
                    raise inject(me, f["exc"])

    # ------------------------------------------------------------------ scheduling points
    def point(self, me, kind, x):
        if me.quiet:
            return
        if me.kill:
            raise SimKill()
        me.steps += 1
        self.total += 1
        self.h = ((self.h ^ (me.id << 48) ^ (kind << 40) ^ x) * 1099511628211) & 0xFFFFFFFFFFFFFFFF
        if self.step_inv is not None and self.inv_hit is None:
            r = self.step_inv(me)
            if r:
                self.inv_hit = r
        if self.total > self.step_cap:
            if self.problem is None:
                self.problem = ("no-progress", "step limit of %d exceeded in %s" % (self.step_cap, me.op))
            self.kill_all()
            raise SimKill()
        if me.stall_at is not None and me.steps >= me.stall_at:
            me.stall_at = None
            me.state = "stalled"
            self.stalled_now.append(me.id)
            self.switch_from(me)
            return
        if len(self.tasks) == 1:
            return
        k = self.kind
        nxt = None
        if k == "explicit":
            t = self.plan.get((me.id, me.steps))
            if t is not None:
                nxt = self.tasks[t]
                if not self.is_ready(nxt):
                    nxt = None
        elif k == "rw":
            if self.rng.random() < self.p:
                nxt = self.pick(me)
        elif k == "burst":
            self.left -= 1
            if self.left <= 0:
                self.left = int(self.rng.expovariate(1.0 / self.rng.choice((2, 10, 60, 400)))) + 1
                nxt = self.pick(me, True)
        elif k == "lockstep":
            self.left -= 1
            if self.left <= 0:
                self.left = self.spec.get("len", 1)
                nxt = self.rr(me)
        elif k == "hot":
            if (x >> 16, x & 0xFFFF) in self.hot and kind == 1:
                if self.rng.random() < self.p:
                    nxt = self.pick(me)
            elif self.rng.random() < 0.003:
                nxt = self.pick(me)
        elif k == "pct":
            if self.total in self.change:
                me.prio = -self.total
                nxt = self.best(me)
        elif k == "serial":
            if kind == 9 and self.rng.random() < 0.5:
                nxt = self.pick(me)
        if nxt is not None and nxt is not me:
            self.switch(me, nxt)
            if me.kill:
                raise SimKill()

    def is_ready(self, t):
        return t.state == "ready" or (t.state == "blocked" and not t.waiting.locked())

    def pick(self, me, incl=False):
        c = [t for t in self.tasks if (incl or t is not me) and self.is_ready(t)]
        return self.rng.choice(c) if c else None

    def rr(self, me):
        n = len(self.tasks)
        for i in range(1, n):
            t = self.tasks[(me.id + i) % n]
            if self.is_ready(t):
                return t
        return None

    def best(self, me):
        c = [t for t in self.tasks if self.is_ready(t)]
        return max(c, key=lambda t: (t.prio, -t.id)) if c else None

    def switch(self, me, nxt):
        self.switches.append((me.id, me.steps, nxt.id))
        self.preempted.add(me.line)
        self.nswitch += 1
        nxt.state = "ready"
        self.current = nxt
        nxt.lock.release()
        me.lock.acquire()

    def next_after(self, me):
        """Choose the successor of a task that cannot continue (blocked, stalled, finished)."""
        c = [t for t in self.tasks if t is not me and self.is_ready(t)]
        if not c:
            return None
        if self.kind == "explicit":
            t = self.plan.get((me.id, "e%d" % me.ends))
            if t is not None and self.tasks[t] in c:
                return self.tasks[t]
            return c[0]
        if self.kind == "pct":
            return self.best(me)
        return self.rng.choice(c)

    def switch_from(self, me):
        """me is blocked or stalled: run others until it can continue."""
        me.ends += 1
        nxt = self.next_after(me)
        if nxt is None:
            nxt = self.resolve_stuck(me)
        if nxt is me:
            me.state = "ready"
            return
        self.switches.append((me.id, "e%d" % me.ends, nxt.id))
        self.nswitch += 1
        nxt.state = "ready"
        self.current = nxt
        nxt.lock.release()
        me.lock.acquire()
        me.state = "ready" if me.state != "done" else me.state
        if me.kill:
            raise SimKill()

    def resolve_stuck(self, me):
        """Nothing is ready.  Fire a lock timeout, resume a stalled task, or report a deadlock."""
        b = [t for t in self.tasks if t.state == "blocked"]
        st = [t for t in self.tasks if t.state == "stalled"]
        tm = [t for t in b if t.timeout is not None]
        if tm:
            t = min(tm, key=lambda t: (t.timeout, t.id))
            self.clock = max(self.clock, t.timeout)
            t.timed_out = True
            t.state = "ready"
            return t
        if b:
            # another (not simulated) thread may hold the lock: give it real time
            for _ in range(3000):
                if _thread._count() <= len([t for t in self.tasks if t.state != "done"]) + self.base_threads:
                    break
                seams.real_sleep(0.001)
                for t in b:
                    if not t.waiting.locked():
                        t.state = "ready"
                        return t
            if self.problem is None:
                what = "; ".join("task %d waits in %s" % (t.id, t.op) for t in b)
                if st:
                    what += "; paused inside a call: " + ", ".join("task %d in %s" % (t.id, t.op) for t in st)
                self.problem = ("waits-for-paused" if st else "deadlock", what)
            self.kill_all()
            t = b[0]
            t.state = "ready"
            return t
        if st:
            self.resumed = getattr(self, "resumed", 0) + 1
            t = st[0]
            t.state = "ready"
            return t
        return None

    def kill_all(self):
        self.killing = True
        for t in self.tasks:
            if t.state != "done":
                t.kill = True

    def block(self, me, lock, timeout):
        """Called by a simulated lock.  Returns False when the wait timed out."""
        if self.killing or me.kill:
            raise SimKill()
        self.blocked_waits += 1
        me.state, me.waiting = "blocked", lock
        me.timeout = None if timeout is None or timeout < 0 else self.clock + timeout
        me.timed_out = False
        self.switch_from(me)
        me.waiting = None
        if me.timed_out:
            me.timed_out = False
            return False
        return True

    # ------------------------------------------------------------------ life cycle
    def add(self, body):
        t = Task(len(self.tasks), body)
        self.tasks.append(t)
        return t

    def _thread_main(self, t):
        t.lock.acquire()
        self.by_ident[_thread.get_ident()] = t
        try:
            if not t.kill:
                t.body(t)
        except SimKill:
            pass
        except BaseException as e:    # harness failure
            t.exc = e
        t.quiet = True
        t.state = "done"
        t.ends += 1
        del self.by_ident[_thread.get_ident()]
        nxt = self.next_after(t)
        if nxt is None:
            nxt = self.resolve_stuck(t)
        if nxt is None:
            self.done.release()
        else:
            self.switches.append((t.id, "e%d" % t.ends, nxt.id))
            nxt.state = "ready"
            self.current = nxt
            nxt.lock.release()

    def run(self, wall=60.0):
        seams.ACTIVE = self
        self.base_threads = _thread._count()
        main = self.spec.get("main")          # one caller may be the main thread of the process
        main = self.tasks[main % len(self.tasks)] if main is not None else None
        for t in self.tasks:
            if t is not main:
                _thread.start_new_thread(self._thread_main, (t,))
        if self.kind == "pct":
            pr = self.spec.get("prio") or list(range(len(self.tasks)))
            for t, p in zip(self.tasks, pr):
                t.prio = p + 1
        first = self.tasks[self.spec.get("first", 0) % len(self.tasks)]
        if self.kind == "pct":
            first = self.best(None)
        self.current = first
        self.first = first.id
        first.lock.release()
        if main is not None:
            self.base_threads -= 1
            self._thread_main(main)
            self.base_threads += 1
        ok = self.done.acquire(True, wall)
        seams.ACTIVE = None
        if not ok and self.problem is None:
            fr = sys._current_frames()
            self.problem = ("hang", "no progress in real time for %.0f s (current task %s in %s)" % (
                wall, self.current.id, self.current.op))
            del fr
        if ok:
            for _ in range(2000):
                if _thread._count() <= self.base_threads:
                    break
                seams.real_sleep(0.0005)
        return ok


class Counter:
    """Stand-in for the scheduler used in reference runs: counts events of the (only) thread, never switches."""

    def __init__(self):
        self.clock = 0.0
        self.t = Task(0, None)
        self.t.quiet = False
        self.by_ident = {_thread.get_ident(): self.t}
        self.codeidx = {c: i for i, c in enumerate(seams.CODES)}
        self.tasks = [self.t]
        self.total = 0

    def me(self):
        return self.by_ident.get(_thread.get_ident())

    on_kernel = Sched.on_kernel
    on_callback = Sched.on_callback

    def on_line(self, me, code, line):
        me.opsteps += 1
        if me.trace is not None:
            me.trace.append((self.codeidx[code], line))
        if me.opsteps > STEP_CAP:
            raise RuntimeError("reference run does not finish")

    def point(self, me, kind, x):
        pass

    def block(self, me, lock, timeout):
        return False
