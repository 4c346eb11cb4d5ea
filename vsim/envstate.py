"""Snapshot and comparison of process-wide state."""
import decimal
import faulthandler
import gc
import locale
import logging
import atexit
import os
import random
import resource
import signal
import sys
import threading
import time
import warnings

IMPORT_DIFF = []
MODULES = ("numpy", "numpy.linalg", "numpy.random", "numpy.polynomial.legendre", "scipy", "scipy.linalg", "scipy.special",
           "scipy.interpolate", "scipy.integrate", "scipy.fft", "autograd.numpy", "autograd.numpy.linalg", "autograd",
           "warnings", "math", "copy", "builtins")


def _filters():
    out = []
    for f in warnings.filters:
        out.append(tuple(getattr(x, "pattern", x) if not isinstance(x, type) else x.__name__ for x in f))
    return tuple(out)


def _np_random():
    import numpy as np
    st = np.random.get_state()
    return (st[0], st[1].tobytes(), st[2], st[3], st[4])


def _fds():
    try:
        return tuple(sorted(int(x) for x in os.listdir("/proc/self/fd")))
    except OSError:
        return ()


def snapshot():
    import numpy as np
    s = {}
    s["numpy error handling"] = tuple(sorted(np.geterr().items()))
    s["numpy error callback"] = id(np.geterrcall())
    s["numpy print options"] = repr(sorted((k, repr(v)) for k, v in np.get_printoptions().items()))
    s["numpy buffer size"] = np.getbufsize()
    s["numpy global random generator"] = _np_random()
    s["python global random generator"] = random.getstate()
    s["warning filters"] = _filters()
    s["warning display hook"] = (id(warnings.showwarning), id(warnings.formatwarning))
    s["environment variables"] = tuple(sorted(os.environ.items()))
    s["working directory"] = os.getcwd()
    u = os.umask(0)
    os.umask(u)
    s["umask"] = u
    s["exit handlers"] = atexit._ncallbacks()
    s["garbage collector callbacks"] = len(gc.callbacks)
    s["limits"] = tuple(resource.getrlimit(x) for x in (resource.RLIMIT_STACK, resource.RLIMIT_AS, resource.RLIMIT_NOFILE,
                                                        resource.RLIMIT_CPU, resource.RLIMIT_DATA))
    s["signal mask"] = tuple(sorted(signal.pthread_sigmask(signal.SIG_BLOCK, ())))
    s["timers"] = signal.getitimer(signal.ITIMER_REAL)[1]
    s["processor affinity"] = tuple(sorted(os.sched_getaffinity(0)))
    s["int digits limit"] = sys.get_int_max_str_digits()
    s["thread stack size"] = threading.stack_size()
    s["recursion limit"] = sys.getrecursionlimit()
    s["switch interval"] = sys.getswitchinterval()
    s["import path"] = tuple(sys.path)
    s["hooks"] = (id(sys.excepthook), id(sys.stdout), id(sys.stderr), id(sys.stdin), id(threading.excepthook),
                  sys.gettrace() is None, sys.getprofile() is None, id(sys.displayhook))
    s["garbage collector"] = (gc.isenabled(), gc.get_threshold(), gc.get_debug())
    s["frozen objects"] = gc.get_freeze_count()
    s["fault handler"] = faulthandler.is_enabled()
    s["importers"] = (len(sys.meta_path), len(sys.path_hooks))
    s["priority"] = os.getpriority(os.PRIO_PROCESS, 0)
    s["scheduling policy"] = os.sched_getscheduler(0)
    s["time zone"] = time.tzname
    s["unraisable hook"] = id(sys.unraisablehook)
    s["tracing of new threads"] = (threading.gettrace(), threading.getprofile())
    s["decimal context"] = repr(decimal.getcontext())
    s["locale"] = locale.setlocale(locale.LC_ALL)
    s["signal handlers"] = tuple(repr(signal.getsignal(x)) for x in
                                 (signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGUSR1, signal.SIGFPE))
    s["logging"] = (logging.root.level, len(logging.root.handlers), logging.root.manager.disable)
    sp = sys.modules.get("scipy.special")
    if sp is not None:
        s["scipy.special error handling"] = tuple(sorted(sp.geterr().items()))
    s["open files"] = _fds()
    mods = {}
    for m in MODULES:
        mod = sys.modules.get(m)
        if mod is not None:
            mods[m] = {k: id(v) for k, v in list(vars(mod).items())
                       if not k.startswith("__") and k not in ("filters", "_filters_version", "onceregistry",
                                                               "_onceregistry", "defaultaction", "_defaultaction",
                                                               "showwarning", "formatwarning")}
    s["numerical module attributes"] = mods
    return s


def diff(a, b, ignore=()):
    out = []
    for k in a:
        if k in ignore or k not in b:
            continue
        if k == "numerical module attributes":
            for m in a[k]:
                x, y = a[k][m], b[k].get(m, {})
                # attributes may appear (lazy submodules); existing ones must stay what they are
                ch = sorted(n for n in x if n in y and y[n] != x[n]) + sorted(n for n in x if n not in y)
                if ch:
                    out.append("%s: %s.%s" % (k, m, ch[0]))
        elif k == "frozen objects":
            # objects frozen before the run may be freed during it
            if b[k] > a[k] or a[k] and not b[k]:
                out.append(k)
        elif a[k] != b[k]:
            out.append(k)
    return out
