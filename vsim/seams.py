"""Seams: everything nondeterministic that the package under test can meet goes through here.

* package import      -> compiled from the current source of the working tree (never from a .pyc), and every code
                         object is recorded so that it can be instrumented
* execution           -> sys.monitoring LINE / INSTRUCTION / CALL events on exactly those code objects call into the
                         scheduler (preemption points, abort points, kernel-failure points)
* locks, sleep, clock -> simulated versions (installed before the package is imported)
* heap contents       -> numpy.empty / numpy.empty_like filled with seeded garbage
* random generators   -> numpy's and Python's global generators are seeded per run
"""
import ast
import importlib.abc
import importlib.machinery
import io
import os
import random
import sys
import threading
import time
import types
import _thread

PKG = "PythonicDISORT"
PKG_ROOT = os.path.realpath(os.environ.get("VSIM_PKG_ROOT", "/repo/src"))

CODES = []          # every code object of the package
NO_ABORT = {}       # filename -> set of lines where an asynchronous abort would be unfair (cleanup code)
ACTIVE = None       # the scheduler of the run in progress, if any

real_lock = _thread.allocate_lock
real_sleep = time.sleep
real_time = time.time
real_getpid = os.getpid
real_monotonic = time.monotonic
real_perf = time.perf_counter


# --------------------------------------------------------------------------------------------- import seam
def _walk_code(code):
    CODES.append(code)
    for c in code.co_consts:
        if isinstance(c, types.CodeType):
            _walk_code(c)


def _cleanup_lines(source):
    """Lines of cleanup / handler code and of with/try headers.  An asynchronous exception landing exactly there
    defeats even correct Python code (between acquiring a resource and the protected region, or inside the
    finally block itself), so asynchronous aborts are postponed past them."""
    bad = set()
    try:
        tree = ast.parse(source)
    except SyntaxError:
        return bad

    def span(n):
        return range(n.lineno, (n.end_lineno or n.lineno) + 1)

    for n in ast.walk(tree):
        if isinstance(n, ast.Try) or n.__class__.__name__ == "TryStar":
            bad.add(n.lineno)
            for s in n.finalbody:
                bad.update(span(s))
            for h in n.handlers:
                bad.update(span(h))
        elif isinstance(n, (ast.With, ast.AsyncWith)):
            bad.update(range(n.lineno, max(n.lineno + 1, n.body[0].lineno)))
        elif isinstance(n, (ast.FunctionDef,)) and n.name in ("__exit__", "__del__", "__enter__"):
            bad.update(span(n))
    return bad


class _Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        data = self.get_data(path)
        code = compile(data, path, "exec", dont_inherit=True)
        _walk_code(code)
        NO_ABORT[path] = _cleanup_lines(data)
        return code


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path=None, target=None):
        if fullname != PKG and not fullname.startswith(PKG + "."):
            return None
        parts = fullname.split(".")
        base = os.path.join(PKG_ROOT, *parts)
        if os.path.isfile(os.path.join(base, "__init__.py")):
            f = os.path.join(base, "__init__.py")
            return importlib.util.spec_from_file_location(
                fullname, f, loader=_Loader(fullname, f), submodule_search_locations=[base])
        if os.path.isfile(base + ".py"):
            f = base + ".py"
            return importlib.util.spec_from_file_location(fullname, f, loader=_Loader(fullname, f))
        return None


# --------------------------------------------------------------------------------------------- lock / clock seams
class SimLock:
    """threading.Lock whose contention is resolved by the scheduler when used from a simulated task."""

    def __init__(self):
        self._l = real_lock()
        self._holder = None

    def acquire(self, blocking=True, timeout=-1):
        s = ACTIVE
        me = s.me() if s is not None else None
        if me is None:
            return self._l.acquire(blocking, timeout)
        while True:
            if self._l.acquire(False):
                self._holder = me
                me.held += 1
                return True
            if not blocking:
                return False
            if not s.block(me, self._l, timeout):
                return False

    def release(self):
        h, self._holder = self._holder, None
        if h is not None:
            h.held -= 1
        self._l.release()
        s = ACTIVE
        if s is not None:
            me = s.me()
            if me is not None:
                s.point(me, 3, 0)

    def locked(self):
        return self._l.locked()

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self._l = real_lock()


class SimRLock:
    def __init__(self):
        self._b = SimLock()
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        i = _thread.get_ident()
        if self._owner == i:
            self._count += 1
            return True
        if self._b.acquire(blocking, timeout):
            self._owner, self._count = i, 1
            return True
        return False

    def release(self):
        if self._owner != _thread.get_ident():
            raise RuntimeError("cannot release un-acquired lock")
        self._count -= 1
        if not self._count:
            self._owner = None
            self._b.release()

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    def _is_owned(self):
        return self._owner == _thread.get_ident()

    def _release_save(self):
        st = (self._count, self._owner)
        self._count, self._owner = 0, None
        self._b.release()
        return st

    def _acquire_restore(self, st):
        self._b.acquire()
        self._count, self._owner = st

    def _at_fork_reinit(self):
        self._b._at_fork_reinit()
        self._owner, self._count = None, 0


def _count_semaphores():
    """A permit of a semaphore counts as a held lock (for faults that strike while a lock is held)."""
    def wrap(cls):
        acquire, release = cls.acquire, cls.release

        def acq(self, blocking=True, timeout=None):
            ok = acquire(self, blocking, timeout)
            s = ACTIVE
            me = s.me() if s is not None else None
            if ok and me is not None:
                me.held += 1
                self.__dict__.setdefault("_sim_holders", []).append(me)
            return ok

        def rel(self, n=1):
            h = self.__dict__.get("_sim_holders")
            for _ in range(min(n, len(h or ()))):
                h.pop().held -= 1
            return release(self, n)
        cls.acquire = cls.__enter__ = acq
        cls.release = rel
    wrap(threading.Semaphore)
    b = threading.BoundedSemaphore
    release = b.release

    def brel(self, n=1):
        h = self.__dict__.get("_sim_holders")
        for _ in range(min(n, len(h or ()))):
            h.pop().held -= 1
        return release(self, n)
    b.release = brel


def _sleep(secs):
    s = ACTIVE
    me = s.me() if s is not None else None
    if me is None:
        return real_sleep(secs)
    s.clock += secs
    s.point(me, 4, 0)


class Proc:
    """Identity of the simulated process, and its fork handlers (run only by simulated forks)."""
    pid = 41000
    before, parent, child = [], [], []


def _getpid():
    return Proc.pid


def _register_at_fork(*, before=None, after_in_parent=None, after_in_child=None):
    for l, f in ((Proc.before, before), (Proc.parent, after_in_parent), (Proc.child, after_in_child)):
        if f is not None:
            if not callable(f):
                raise TypeError("fork handlers must be callable")
            l.append(f)


class Clock:
    jump = 0.0          # how far the simulated clocks are ahead of where they started


def _mk_clock(base, scale=None):
    """A clock that moves only when the simulation moves it."""
    def clock():
        s = ACTIVE
        Clock.jump += 1e-5      # reading a clock takes time, so that polling loops end
        t = base + Clock.jump + (s.clock if s is not None else 0.0)
        return t if scale is None else int(t * scale)
    return clock


# --------------------------------------------------------------------------------------------- heap seam
class Heap:
    mode = None      # None: untouched
    rng = None
    fired = 0


def _package_caller(f):
    """Is the first frame outside this module and autograd one of the package's?"""
    while f is not None:
        n = f.f_globals.get("__name__", "")
        if n.startswith(PKG):
            return True
        if not n.startswith("autograd"):
            return False
        f = f.f_back
    return False


def _poison(a, np):
    m = Heap.mode
    if a.dtype.kind == "f" or a.dtype.kind == "c":
        if m == "nan":
            a.fill(np.nan)
        elif m == "huge":
            a.fill(1.7e300)
        elif m == "neg":
            a.fill(-3.7)
        elif m == "tiny":
            a.fill(5e-324)
        elif m == "zero":
            a.fill(0)
        else:
            r = np.random.RandomState(Heap.rng.getrandbits(32))
            a[...] = r.standard_normal(a.shape) * 10.0 ** r.randint(-3, 6)
    elif a.dtype.kind in "iu":
        a.fill(Heap.rng.getrandbits(6))
    elif a.dtype.kind == "b":
        a.fill(bool(Heap.rng.getrandbits(1)))
    Heap.fired += 1


def _install_heap(np):
    real_empty, real_empty_like = np.empty, np.empty_like

    def empty(*a, **k):
        r = real_empty(*a, **k)
        if Heap.mode is not None and _package_caller(sys._getframe(1)):
            _poison(r, np)
        return r

    def empty_like(*a, **k):
        r = real_empty_like(*a, **k)
        if Heap.mode is not None and _package_caller(sys._getframe(1)):
            _poison(r, np)
        return r

    empty.__doc__, empty_like.__doc__ = real_empty.__doc__, real_empty_like.__doc__
    np.empty, np.empty_like = empty, empty_like


# --------------------------------------------------------------------------------------------- instrumentation
TOOL = 3
mon = sys.monitoring
EV = mon.events
MISSING = mon.MISSING


def _on_line(code, line):
    s = ACTIVE
    if s is None:
        return
    me = s.by_ident.get(_thread.get_ident())
    if me is None or me.quiet:
        return
    s.on_line(me, code, line)


def _on_instr(code, off):
    s = ACTIVE
    if s is None:
        return
    me = s.by_ident.get(_thread.get_ident())
    if me is None or me.quiet:
        return
    s.on_instr(me, off)


_kind_cache = {}


def _kernel_kind(callable_):
    """0: not a numerical kernel, 1: numerical library call, 2: linear algebra routine (may raise LinAlgError)."""
    m = getattr(callable_, "__module__", None)
    if m is None:
        return 1 if type(callable_).__name__ == "ufunc" else 0
    if not isinstance(m, str):
        return 0
    if m.startswith(("numpy", "scipy", "autograd")):
        n = getattr(callable_, "__name__", "")
        if n in ("errstate", "seterr", "geterr", "catch_warnings", "seterrcall", "setbufsize", "set_state"):
            return 0
        return 2 if "linalg" in m else 1
    return 0


def _on_call(code, off, callable_, arg0):
    s = ACTIVE
    if s is None:
        return
    me = s.by_ident.get(_thread.get_ident())
    if me is None or me.quiet:
        return
    k = _kernel_kind(callable_)
    if k:
        s.on_kernel(me, code, k, callable_)


def _import_seam():
    """An import statement executed inside a call of the package is a call that can fail, like those of numpy."""
    import builtins
    real = builtins.__import__

    def __import__(name, globals=None, locals=None, fromlist=(), level=0):
        s = ACTIVE
        if s is not None:
            me = s.by_ident.get(_thread.get_ident())
            if me is not None and not me.quiet:
                code = sys._getframe(1).f_code
                if code in s.codeidx:
                    s.on_kernel(me, code, 1, __import__)
        return real(name, globals, locals, fromlist, level)
    __import__.__doc__ = real.__doc__
    builtins.__import__ = __import__


_installed = False


def install():
    """Install all seams and import the package from the current tree.  Called once, in the pristine parent."""
    global _installed
    if _installed:
        return
    _installed = True
    sys.dont_write_bytecode = True
    import numpy as np
    import scipy
    import scipy.constants, scipy.fft, scipy.integrate, scipy.interpolate, scipy.linalg, scipy.sparse, scipy.special
    _install_heap(np)
    try:
        import autograd
        import autograd.numpy
    except ImportError:
        pass
    import copy, decimal, functools, locale, logging, signal, concurrent.futures  # noqa: F401 (pre-import)
    import queue, weakref, collections, warnings, math, itertools, operator, contextlib  # noqa: F401
    threading.Lock = SimLock
    threading.RLock = SimRLock
    threading._allocate_lock = SimLock
    _count_semaphores()
    time.sleep = _sleep
    time.time, time.time_ns = _mk_clock(1.7e9), _mk_clock(1.7e9, 1e9)
    time.monotonic, time.monotonic_ns = _mk_clock(1e6), _mk_clock(1e6, 1e9)
    time.perf_counter, time.perf_counter_ns = _mk_clock(1e6), _mk_clock(1e6, 1e9)
    time.process_time, time.process_time_ns = _mk_clock(10.0), _mk_clock(10.0, 1e9)
    time.thread_time, time.thread_time_ns = _mk_clock(1.0), _mk_clock(1.0, 1e9)
    os.getpid = _getpid
    os.register_at_fork = _register_at_fork
    sys.meta_path.insert(0, _Finder())
    import importlib
    _import_seam()
    mon.use_tool_id(TOOL, "vsim")
    mon.register_callback(TOOL, EV.LINE, _on_line)
    mon.register_callback(TOOL, EV.INSTRUCTION, _on_instr)
    mon.register_callback(TOOL, EV.CALL, _on_call)
    from . import envstate
    before = envstate.snapshot()
    importlib.import_module(PKG)
    envstate.IMPORT_DIFF = envstate.diff(before, envstate.snapshot())
    # import every submodule so that lazily imported ones are instrumented as well
    import pkgutil
    for m in pkgutil.walk_packages(sys.modules[PKG].__path__, PKG + "."):
        importlib.import_module(m.name)


class World:
    """Everything outside the process: files, connections, other processes and threads, the terminal.

    The interpreter's audit events are the seam.  Attempts made inside a library call are recorded, and refused when
    the simulated world is out of order (disk full, no descriptors, no threads)."""
    inside = {}            # thread -> description of the library call it is in
    seen = []              # (call, what)
    refused = 0
    broken = False


_OUT = ("socket.", "subprocess.", "shutil.", "tempfile.", "pty.", "sqlite3.", "urllib.", "http.", "ftplib.", "smtplib.",
        "telnetlib.", "poplib.", "imaplib.", "syslog.", "webbrowser.", "fcntl.", "winreg.", "msvcrt.", "_thread.start", "os.fork",
        "os.posix_spawn", "os.exec", "os.spawn", "os.system", "os.kill", "os.mkdir", "os.remove", "os.rename", "os.rmdir",
        "os.link", "os.symlink", "os.truncate", "os.chmod", "os.chown", "os.utime", "os.putenv", "os.unsetenv", "os.chdir",
        "os.fchdir", "os.setxattr", "os.lockf", "os.startfile", "signal.pthread_kill")


def _outside(event, args):
    """What an audit event does outside the process, or None."""
    if event == "open":
        path, mode, flags = (tuple(args) + (None, None, None))[:3]
        if isinstance(path, int):
            return None
        name = os.fsdecode(path) if isinstance(path, (str, bytes)) else repr(path)
        if isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND):
            return "writes file %s" % name
        if name.endswith((".py", ".pyc", ".so", ".zip", ".pth", ".egg-link")) or name.startswith(
                (sys.prefix, sys.base_prefix + "/lib", "/usr", "/proc", "/sys", "/dev", "/etc", "/lib")):
            return None            # imports, tables of the platform
        return "reads file %s" % name
    if event.startswith(_OUT):
        return event
    return None


def _audit(event, args):
    if not World.inside:
        return
    call = World.inside.get(_thread.get_ident())
    if call is None:
        return
    w = _outside(event, args)
    if w is None:
        return
    World.seen.append((call, w))
    if World.broken:
        World.refused += 1
        if event.startswith("_thread"):
            raise RuntimeError("can't start new thread")
        raise OSError(28, "No space left on device (simulated)")


class _Terminal(io.TextIOBase):
    def __init__(self, name):
        self.what = name

    def writable(self):
        return True

    def write(self, s):
        call = World.inside.get(_thread.get_ident())
        if call is not None and s:
            World.seen.append((call, "prints to " + self.what))
            if World.broken:
                World.refused += 1
                raise OSError(5, "Input/output error (simulated)")
        return len(s)


def watch_world(broken):
    """Only in the disposable process of a run: audit hooks cannot be removed."""
    World.broken = broken
    sys.addaudithook(_audit)
    sys.stdout, sys.stderr = _Terminal("the standard output"), _Terminal("the standard error")


class Warned:
    """Warnings as the caller receives them."""
    now = {}               # thread -> list of the warnings delivered to the running call

    @staticmethod
    def again():
        """The same call is about to be repeated; only its last execution counts."""
        l = Warned.now.get(_thread.get_ident())
        if l is not None:
            del l[:]

    @staticmethod
    def show(message, category, filename, lineno, file=None, line=None):
        l = Warned.now.get(_thread.get_ident())
        if l is not None and not issubclass(category, RuntimeWarning):
            l.append((category.__name__, str(message)))


def enable(granularity="line", kernels=False):
    ev = EV.LINE
    if granularity == "instr":
        ev |= EV.INSTRUCTION
    if kernels:
        ev |= EV.CALL
    for c in CODES:
        mon.set_local_events(TOOL, c, ev)


def disable():
    for c in CODES:
        mon.set_local_events(TOOL, c, 0)
