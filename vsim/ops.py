"""Operations of the simulated callers: everything a caller can do with the package's public API."""
import _thread
import copy
import warnings

import numpy as np

from . import problem, seams
from .sched import SimKill


def pkg():
    import PythonicDISORT
    return PythonicDISORT


def subs():
    import PythonicDISORT.subroutines as s
    return s


# ------------------------------------------------------------------------------------------------ owned objects
class Owned:
    """Objects that belong to the caller, with the contents the caller gave them."""

    def __init__(self):
        self.items = []

    def add(self, name, obj):
        if isinstance(obj, (np.ndarray, list)):
            for n, o, s, b in self.items:
                if o is obj:
                    return obj
            self.items.append([name, obj, self.snap(obj), None])
        return obj

    @staticmethod
    def snap(obj):
        if isinstance(obj, np.ndarray):
            base = obj
            while isinstance(base.base, np.ndarray):
                base = base.base
            return (base, base.tobytes(), obj.shape, obj.dtype, obj.flags.writeable)
        return copy.deepcopy(obj) if not any(callable(x) for x in obj) else list(obj)

    def changed(self):
        for name, obj, s, _ in self.items:
            if isinstance(obj, np.ndarray):
                if s[0].tobytes() != s[1] or obj.shape != s[2] or obj.dtype != s[3] or obj.flags.writeable != s[4]:
                    return name
            elif len(obj) != len(s) or not all(x is y or x == y for x, y in zip(obj, s)):
                return name
        return None

    def resnap(self):
        for it in self.items:
            it[2] = self.snap(it[1])


# ------------------------------------------------------------------------------------------------ callbacks
class InFlight:
    """The calls of the library that are running, and the innermost of each thread."""
    tokens = set()
    now = {}


class Callback:
    """A user-supplied reflectance function, behaving in one of the ways user code legitimately behaves."""

    def __init__(self, p, mode, ctx=None, name="", nested=None):
        self.p, self.mode, self.ctx, self.name, self.nested = dict(p), mode, ctx, name, nested
        self.memo, self.lent, self.free = {}, {}, []
        self.ncalls = 0

    def __call__(self, mu, neg_mup):
        s = seams.ACTIVE
        me = s.me() if s is not None else None
        self.ncalls += 1
        if self.ctx is not None and self.ctx.track:
            self.ctx.called(self.p, mu, neg_mup)
        if me is not None:
            s.on_callback(me)
            if self.mode in ("yield", "nested", "buffer"):
                s.point(me, 5, 0)
            if self.mode == "nested" and self.nested is not None and self.ctx is not None:
                self.ctx.run_nested(me, self.nested)
        v = problem.bdrf_formula(self.p, mu, neg_mup)
        if self.mode in ("scribble", "keeper"):
            # user code may use the arrays it was given as scratch space, at once or later
            own = [a for a in (mu, neg_mup) if isinstance(a, np.ndarray) and a.flags.writeable]
            if self.mode == "scribble":
                for a in own:
                    a[...] = 0.4321
            elif self.ctx is not None:
                self.ctx.keep(own)
        if self.mode == "memo" or self.mode == "memo_ro":
            key = (np.asarray(mu).tobytes(), np.asarray(neg_mup).tobytes())
            if key not in self.memo:
                if self.mode == "memo_ro":
                    v.setflags(write=False)
                self.memo[key] = v
                if self.ctx is not None:
                    self.ctx.owned.add("array returned by reflectance function %s" % self.name, v)
            return self.memo[key]
        if self.mode == "buffer":
            # an array per call of the library, used again for the next (when caching: for the next evaluation)
            tok, strict = InFlight.now.get(_thread.get_ident(), (None, True))
            old = [t for t in self.lent if (strict and t is tok) or t not in InFlight.tokens]
            b = None
            for t in old:
                free = self.lent.pop(t)
                for x in free:
                    x[:] = np.nan
                self.free += free
            if self.free:
                b = self.free.pop()
            else:
                b = np.full((40, 40), np.nan)
            self.lent.setdefault(tok, []).append(b)
            out = b[:v.shape[0], :v.shape[1]]
            out[...] = v
            return out
        if self.mode == "watched" and self.ctx is not None:
            self.ctx.owned.add("array returned by reflectance function %s" % self.name, v)
        if me is not None and self.mode in ("yield", "nested"):
            s.point(me, 5, 1)
        return v


def make_modes(ctx, cfg, mode, name="", nested=None):
    out = []
    own = [i for i, m in enumerate(cfg["bdrf"]) if isinstance(m, dict) and "const" not in m]
    at = own[nested.get("m", 0) % len(own)] if nested and own else -1      # the mode that makes the nested calls
    for i, m in enumerate(cfg["bdrf"]):
        if isinstance(m, dict):
            if "const" in m:
                out.append(ConstCallback(m["const"], ctx))
            else:
                out.append(Callback(m, mode, ctx, "%s[%d]" % (name, i), nested if i == at else None))
        else:
            out.append(m)
    return out


class ConstCallback:
    """A constant reflectance written as a function."""

    def __init__(self, v, ctx=None):
        self.v, self.ctx = v, ctx

    def __call__(self, mu, neg_mup):
        s = seams.ACTIVE
        me = s.me() if s is not None else None
        if self.ctx is not None and self.ctx.track:
            self.ctx.called(self.v, mu, neg_mup)
        if me is not None:
            s.on_callback(me)
        return np.full((len(mu), len(neg_mup)), self.v)


# ------------------------------------------------------------------------------------------------ queries
def query_arg(ctx, v, form, name):
    if v is None:
        return None
    if form == "scalar" and len(v) == 1:
        return float(v[0])
    if form == "npscalar" and len(v) == 1:
        return np.float64(v[0])
    if form in ("scalar", "npscalar"):
        form = "array"
    a = problem.shape_arg(v, form)
    if ctx is not None:
        ctx.owned.add(name, a)
        ctx.note(name, a)
    return a


def call_fn(fns, q, tau, phi, mu):
    fn = q["fn"]
    anti, ferr, rtau = bool(q.get("anti")), bool(q.get("ferr")), bool(q.get("rtau"))
    grad = fn.startswith("g:")
    if grad:
        fn = fn[2:]
    f = fns[fn]
    if grad:
        import autograd
        t = np.array(tau, float)
        if fn == "Fp":
            return autograd.elementwise_grad(lambda x: f(x))(t)
        if fn == "Fm":
            return autograd.elementwise_grad(lambda x: f(x)[0])(t)
        if fn == "u0":
            return autograd.jacobian(lambda x: f(x))(t)
        if fn == "u":
            return autograd.jacobian(lambda x: f(x, phi))(t)
        return autograd.elementwise_grad(lambda x: f(x))(t)
    if fn == "u":
        if q.get("kw"):
            return f(tau, phi, is_antiderivative_wrt_tau=anti, return_Fourier_error=ferr, return_tau_arr=rtau)
        if rtau:
            return f(tau, phi, anti, ferr, rtau)
        if ferr:
            return f(tau, phi, anti, ferr)
        return f(tau, phi, anti) if anti else f(tau, phi)
    if fn == "iu":
        if q.get("kw"):
            return f(mu, tau, phi, is_antiderivative_wrt_tau=anti, return_Fourier_error=ferr, return_tau_arr=rtau)
        return f(mu, tau, phi, anti, ferr, rtau) if (ferr or rtau) else (f(mu, tau, phi, anti) if anti else f(mu, tau, phi))
    if fn == "iu0":
        return f(mu, tau, anti) if anti else f(mu, tau)
    if q.get("kw"):
        return f(tau, is_antiderivative_wrt_tau=anti, return_tau_arr=rtau)
    if rtau:
        return f(tau, anti, rtau)
    return f(tau, anti) if anti else f(tau)


def do_query(ctx, fns, q, shared=None):
    form = q.get("form", "array")
    if q.get("shq") and shared is not None:
        tau = shared.setdefault(("tau", q["shq"]), query_arg(ctx, q.get("tau"), form, "query tau"))
        phi = shared.setdefault(("phi", q["shq"]), query_arg(ctx, q.get("phi"), form, "query phi"))
        mu = shared.setdefault(("mu", q["shq"]), query_arg(ctx, q.get("mu"), form, "query mu"))
    elif q.get("reuseq") and shared is not None:
        a = []
        for n in ("tau", "phi", "mu"):
            v = query_arg(None, q.get(n), form, "query " + n)
            k = (n, "r", q["reuseq"])
            if v is not None and not np.isscalar(v):
                v = refill(shared.get(k), v)
                shared[k] = v
                ctx.owned.add("query " + n, v)
            a.append(v)
        ctx.owned.resnap()
        tau, phi, mu = a
    else:
        tau = query_arg(ctx, q.get("tau"), form, "query tau")
        phi = query_arg(ctx, q.get("phi"), form, "query phi")
        mu = query_arg(ctx, q.get("mu"), form, "query mu")
    return call_fn(fns, q, tau, phi, mu)


# ------------------------------------------------------------------------------------------------ solves
def derive(fns, which):
    s = subs()
    for d in which:
        if d == "act":
            fns["au"], fns["ad"] = s.generate_diff_act_flux_funcs(fns["u0"])
        elif d == "iu" and "u" in fns:
            fns["iu"] = s.interpolate(fns["u"])
        elif d == "iu0":
            fns["iu0"] = s.interpolate(fns["u0"])


def solve_kwargs(ctx, op, cfg):
    """Arguments for a solve, either fresh or the ones shared by every solve of this problem."""
    form = op.get("form", "array")
    sh = op.get("shared")
    re_ = op.get("reuse")
    if re_ and ctx is not None:
        # the caller refills its own argument objects in place and solves again
        old = ctx.shared_args.get(("reuse", re_))
        if old is not None:
            new = problem.build_args(cfg, make_modes(ctx, cfg, op.get("cb", "plain"), "cfg%s" % op["cfg"]), form)
            kw = {}
            for k, v in new.items():
                kw[k] = refill(old.get(k), v)
            ctx.shared_args[("reuse", re_)] = kw
            ctx.owned.resnap()
            return kw
    if sh and ctx is not None and (sh, op["cfg"]) in ctx.shared_args:
        return ctx.shared_args[(sh, op["cfg"])]
    name = "cfg%s" % op["cfg"]
    modes = make_modes(ctx, cfg, op.get("cb", "plain"), name, op.get("nested"))
    kw = problem.build_args(cfg, modes, form)
    if op.get("leg0"):
        a = kw["Leg_coeffs_all"]
        v = op["leg0"]
        if isinstance(a, list):
            for r in a:
                r[0] = v
        else:
            w = a.flags.writeable
            a.setflags(write=True)
            a[:, 0] = v
            a.setflags(write=w)
    if op.get("scalar") and len(cfg["tau"]) == 1:
        kw["tau_arr"], kw["omega_arr"] = float(cfg["tau"][0]), float(cfg["omega"][0])
        kw["Leg_coeffs_all"] = problem.shape_arg(cfg["leg"][0], form)
        if cfg["f"]:
            kw["f_arr"] = float(cfg["f"][0])
        if cfg["s"]:
            kw["s_poly_coeffs"] = problem.shape_arg(cfg["s"][0], form)
    if op.get("one"):       # one-element arrays instead of scalars
        for b in ("b_pos", "b_neg"):
            if b in kw and np.isscalar(kw[b]) and kw[b]:
                kw[b] = problem.shape_arg([kw[b]], form)
    if ctx is not None:
        for k, v in kw.items():
            if ctx.watch is not None:
                for x in v if isinstance(v, list) else [v]:
                    if isinstance(x, np.ndarray) or callable(x):
                        ctx.note("argument %s" % k, x)
            if not op.get("drop") and "only" not in op:          # a caller that drops everything keeps no argument alive either
                ctx.owned.add("argument %s" % k, v)
        if sh:
            ctx.shared_args[(sh, op["cfg"])] = kw
        if re_:
            ctx.shared_args[("reuse", re_)] = kw
    return kw


def refill(old, new):
    """Put the contents of `new` into the object `old` if the shapes allow it; returns the object to pass."""
    if isinstance(old, np.ndarray) and isinstance(new, np.ndarray) and old.shape == new.shape:
        w = old.flags.writeable
        old.setflags(write=True)
        old[...] = new
        old.setflags(write=w)
        return old
    if isinstance(old, list) and isinstance(new, list):
        old[:] = new
        return old
    return new


def do_solve(ctx, op, cfgs, slots, phase_end=None):
    cfg = cfgs[op["cfg"]]
    kw = solve_kwargs(ctx, op, cfg)
    if op.get("cache") and cfg["bdrf"]:
        kw = dict(kw)
        kw["BDRF_Fourier_modes"] = slots[op["cache"]]["modes"]
    if op.get("bad"):
        kw = corrupt(dict(kw), op["bad"], cfg)
    out = pkg().pydisort(**kw)
    fns = {"Fp": out[1], "Fm": out[2], "u0": out[3]}
    if len(out) > 4:
        fns["u"] = out[4]
    derive(fns, op.get("derive", ()))
    if phase_end is not None:
        phase_end()
    if ctx is not None and ctx.watch is not None:
        for k, f in fns.items():
            ctx.note("function %s of a solution" % k, f)
    sl = {"cfg": op["cfg"], "fns": fns, "mu": out[0], "kw": kw}
    val = [out[0]]
    for q in op.get("probe", ()):
        val.append(do_query(ctx, fns, q))
    if "only" in op:        # this caller keeps nothing but the functions it is going to use
        for k in list(fns):
            if k not in op["only"]:
                del fns[k]
        del sl["kw"], kw, out
    if op.get("slot"):
        slots[op["slot"]] = sl
    return tuple(val)


BAD = ("tau_neg", "tau_order", "omega1", "NQuad_odd", "NLeg_big", "legrows", "omega_len", "f_len", "leg_big", "NFourier0",
       "NFourier_big", "I0_neg", "mu0_bad", "phi0_bad", "f_big", "banded", "bshape", "s_rows", "mu0_node", "leg_type",
       "NLeg0", "NQuad0", "NLeg_gt_NQuad", "bneg_shape", "bmat_shape")


def corrupt(kw, how, cfg):
    """One documented-invalid change of the arguments."""
    c = {k: (copy.deepcopy(v) if isinstance(v, (list, np.ndarray)) and k != "BDRF_Fourier_modes" else v) for k, v in kw.items()}
    a = lambda k: np.array(c[k], float)
    NL = len(cfg["tau"])
    if how == "tau_neg":
        x = np.atleast_1d(a("tau_arr")); x[0] = -0.1; c["tau_arr"] = x
    elif how == "tau_order":
        x = np.atleast_1d(a("tau_arr")); x[-1] = x[0] / 2 if NL > 1 else -1; c["tau_arr"] = x
    elif how == "omega1":
        x = np.atleast_1d(a("omega_arr")); x[-1] = 1.0; c["omega_arr"] = x
    elif how == "NQuad_odd":
        c["NQuad"] = c["NQuad"] + 1; c["NLeg"] = 1; c["NFourier"] = 1
    elif how == "NLeg_big":
        c["NLeg"] = 999
    elif how == "legrows":
        x = np.atleast_2d(a("Leg_coeffs_all")); c["Leg_coeffs_all"] = np.vstack([x, x])
    elif how == "omega_len":
        x = np.atleast_1d(a("omega_arr")); c["omega_arr"] = np.append(x, 0.5)
    elif how == "f_len":
        c["f_arr"] = np.full(NL + 1, 0.2)
    elif how == "leg_big":
        x = np.atleast_2d(a("Leg_coeffs_all")); x[0, 1] = 1.5; c["Leg_coeffs_all"] = x
    elif how == "NFourier0":
        c["NFourier"] = 0; c["only_flux"] = False
    elif how == "NFourier_big":
        c["NFourier"] = 999; c["only_flux"] = False
    elif how == "I0_neg":
        c["I0"] = -1.0
    elif how == "mu0_bad":
        c["mu0"] = -0.3; c["I0"] = 1.0
    elif how == "phi0_bad":
        c["phi0"] = 99.0; c["I0"] = 1.0
    elif how == "f_big":
        c["f_arr"] = np.full(NL, 1.5)
    elif how == "banded":
        c["use_banded_solver_NLayers"] = 2
    elif how == "bshape":
        c["b_pos"] = np.full(cfg["NQuad"] // 2 + 3, 0.3)
    elif how == "s_rows":
        c["s_poly_coeffs"] = np.full((NL + 1, 2), 0.3)
    elif how == "mu0_node":
        c["mu0"] = float(problem.nodes(cfg["NQuad"] // 2)[0]); c["NT_cor"] = True
    elif how == "NLeg0":
        c["NLeg"] = 0
    elif how == "NQuad0":
        c["NQuad"] = 0; c["NLeg"] = 1; c["NFourier"] = 1
    elif how == "NLeg_gt_NQuad":
        x = np.atleast_2d(a("Leg_coeffs_all"))
        c["Leg_coeffs_all"] = np.hstack([x, np.full((x.shape[0], cfg["NQuad"] + 2), 0.01)]); c["NLeg"] = cfg["NQuad"] + 1
        c["NFourier"] = 1
    elif how == "bneg_shape":
        c["b_neg"] = np.full(cfg["NQuad"] // 2 + 3, 0.3)
    elif how == "bmat_shape":
        c["b_pos"] = np.full((cfg["NQuad"] // 2 + 1, 2), 0.3)
    elif how == "leg_type":
        c["Leg_coeffs_all"] = "no array"
    return c


# ------------------------------------------------------------------------------------------------ helpers
def do_helper(ctx, op):
    s = subs()
    n, a = op["name"], op["a"]
    form = op.get("form", "array")
    if form == "list" and n not in ("calculate_nu", "generate_s_poly_coeffs", "Planck", "atleast_2d_append"):
        form = "array"
    A = lambda k: query_arg(ctx, a[k], form, "%s argument %s" % (n, k))
    if n == "prepend":
        x = A("x")
        return s.prepend(x, len(x), a["v"])
    if n == "transform_interval":
        return s.transform_interval(A("x"), a["c"], a["d"], a["a"], a["b"])
    if n == "transform_weights":
        return s.transform_weights(A("x"), a["c"], a["d"], a["a"], a["b"])
    if n == "calculate_nu":
        return s.calculate_nu(A("mu"), A("phi"), A("mup"), A("phip"))
    if n == "Gauss_Legendre_quad":
        return s.Gauss_Legendre_quad(a["N"], a["c"], a["d"]) if "c" in a else s.Gauss_Legendre_quad(a["N"])
    if n == "Clenshaw_Curtis_quad":
        return s.Clenshaw_Curtis_quad(a["N"], a["c"], a["d"]) if "c" in a else s.Clenshaw_Curtis_quad(a["N"])
    if n == "generate_FD_mat":
        g, m = s.generate_FD_mat(a["N"], a["a"], a["b"])
        return g, m.data, m.indices, m.indptr
    if n == "atleast_2d_append":
        return np.array(s.atleast_2d_append(A("x")))      # documented to return a view: keep a copy only
    if n == "Planck":
        return s.Planck(A("T"), a["w"])
    if n == "blackbody_contrib_to_BCs":
        return s.blackbody_contrib_to_BCs(A("T"), a["lo"], a["hi"], **a.get("kw", {}))
    if n == "linear_spline_coefficients":
        return s.linear_spline_coefficients(A("x"), A("y"), **a.get("kw", {}))
    if n == "generate_s_poly_coeffs":
        return s.generate_s_poly_coeffs(A("tau"), A("T"), a["lo"], a["hi"], **a.get("kw", {}))
    if n == "generate_emissivity_from_BDRF":
        m = a["mode"]
        if isinstance(m, dict):
            if ctx is not None and op.get("shcb"):      # the caller passes the same function object again
                k = ("callback", op.get("cb", "plain")) + tuple(sorted(m.items()))
                if k not in ctx.shared_args:
                    ctx.shared_args[k] = Callback(m, op.get("cb", "plain"), ctx, "emissivity")
                m = ctx.shared_args[k]
            else:
                m = Callback(m, op.get("cb", "plain"), ctx, "emissivity")
            if ctx is not None:
                ctx.note("reflectance function", m)
        return s.generate_emissivity_from_BDRF(a["N"], m)
    if n == "affine_transform_poly_coeffs":
        return s.affine_transform_poly_coeffs(A("x"), A("a"), A("b"))
    if n == "to_diag_ordered_form":
        return s.to_diag_ordered_form(A("x"), a["p"], a["q"])
    raise KeyError(n)


def gen_helper(rng):
    u = lambda a, b, n: [problem.uni(rng, a, b) for _ in range(n)]
    n = rng.choice(["prepend", "transform_interval", "transform_weights", "calculate_nu", "Gauss_Legendre_quad",
                    "Gauss_Legendre_quad", "Clenshaw_Curtis_quad", "Clenshaw_Curtis_quad", "generate_FD_mat", "atleast_2d_append", "Planck",
                    "blackbody_contrib_to_BCs", "linear_spline_coefficients", "generate_s_poly_coeffs",
                    "generate_emissivity_from_BDRF", "affine_transform_poly_coeffs", "to_diag_ordered_form"])
    k = rng.choice([2, 3, 3, 4, 4, 6, 6, 9, 20])
    wide = rng.random() < 0.3       # unusual but legal values
    if n == "prepend":
        a = {"x": u(0, 5, k), "v": problem.uni(rng, 0, 3)}
        if wide:
            a = {"x": u(-5, 5, rng.choice([1, k, 40])), "v": problem.uni(rng, -3, 0)}
    elif n in ("transform_interval", "transform_weights"):
        a = {"x": u(-1, 1, k), "c": problem.uni(rng, 0, 1), "d": problem.uni(rng, 2, 3), "a": -1, "b": 1}
        if wide:
            a.update(c=problem.uni(rng, -4, -1), a=problem.uni(rng, -3, -1), b=problem.uni(rng, 1, 7))
    elif n == "calculate_nu":
        a = {"mu": u(-0.9, 0.9, k), "phi": u(0, 6, rng.choice([1, 3])), "mup": u(-0.9, 0.9, rng.choice([1, 2])), "phip": u(0, 6, 1)}
        if wide:
            a["mu"][0], a["mup"][0] = rng.choice([1.0, -1.0, 0.0]), rng.choice([1.0, -1.0, 0.5])
            a["phi"] = u(-7, 14, rng.choice([1, 5, 12]))
            if len(a["phi"]) > 3:
                a["phip"] = u(-7, 7, rng.choice([1, 4]))
    elif n == "Gauss_Legendre_quad":
        a = {"N": rng.choice([2, 3, 4, 8]) if not wide else rng.choice([1, 5, 16, 33, 64])}
        if rng.random() < 0.5:
            a.update(c=problem.uni(rng, -1, 0), d=problem.uni(rng, 1, 4))
    elif n == "Clenshaw_Curtis_quad":
        a = {"N": rng.choice([3, 5, 7, 7, 13, 4]) if not wide else rng.choice([9, 17, 33, 65])}
        if rng.random() < 0.6:
            a.update(c=problem.uni(rng, -1, 0), d=problem.uni(rng, 1, 4))
    elif n == "generate_FD_mat":
        a = {"N": rng.choice([5, 6, 8]), "a": problem.uni(rng, 0, 0.5), "b": problem.uni(rng, 1, 3)}
        if wide:
            a["N"] = rng.choice([7, 20, 50])
    elif n == "atleast_2d_append":
        a = {"x": u(0, 1, k)}
    elif n == "Planck":
        a = {"T": u(200, 320, k), "w": problem.uni(rng, 100, 900)}
        if rng.random() < 0.3:
            a["T"][0] = 0.0
        if wide:
            a["T"][rng.randrange(k)] = rng.choice([0.0, 2.7, 6000.0, 40.0])
            a["w"] = rng.choice([0.5, 20.0, 3000.0, 50000.0])
    elif n == "blackbody_contrib_to_BCs":
        a = {"T": u(200, 320, rng.choice([1, 2])), "lo": 600.0, "hi": problem.uni(rng, 610, 680)}
        if wide:
            a["lo"] = problem.uni(rng, 500, 600)
            a["kw"] = rng.choice([{"epsrel": 0.1, "quadrature": "trapezoid"}, {"epsabs": 1e-6}, {"limit": 40}])
    elif n == "linear_spline_coefficients":
        a = {"x": sorted(set(u(0, 5, k))), "y": u(0, 5, k)}
        if wide:
            a = {"x": sorted(set(u(-5, 5, k))), "y": u(-5, 5, k)}
            r = rng.random()
            if r < 0.15:            # rejected: not sorted, or too few points
                a["x"][0], a["x"][-1] = a["x"][-1], a["x"][0]
            elif r < 0.25:
                a["y"] = a["y"][:-1]
            elif r < 0.35:
                a["kw"] = {"check_inputs": False}
    elif n == "generate_s_poly_coeffs":
        a = {"tau": sorted(u(0.1, 5, k)), "T": u(200, 320, k + 1), "lo": 600.0, "hi": problem.uni(rng, 610, 680)}
        if wide:
            a["T"][rng.randrange(k + 1)] = rng.choice([0.0, 2.7, 900.0])
            a["kw"] = rng.choice([{}, {"epsrel": 0.1, "quadrature": "trapezoid"}, {"epsabs": 1e-6}])
            if rng.random() < 0.15:
                a["T"].pop()        # rejected
    elif n == "generate_emissivity_from_BDRF":
        a = {"N": rng.choice([1, 2, 4]) if not wide else rng.choice([8, 16]), "mode": problem.gen_bdrf_mode(rng, 0.3)}
    elif n == "affine_transform_poly_coeffs":
        m = rng.choice([1, 2, 4])
        a = {"x": [u(0, 1, m) for _ in range(k)], "a": u(0.5, 1, k), "b": u(-1, 1, k)}
        if wide:
            i = rng.randrange(k)
            a["a"][i] = rng.choice([0.0, 1.0, -2.0, 1e3])
            a["b"][i] = rng.choice([0.0, 5.0, -1e3])
            a["x"][i] = u(-1, 0, m)
    else:
        m = rng.choice([6, 8])
        a = {"x": [u(0, 1, m) for _ in range(m)], "p": rng.choice([1, 2, 3]), "q": rng.choice([1, 2, 3])}
    h = {"shcb": True} if n == "generate_emissivity_from_BDRF" and rng.random() < 0.5 else {}
    return {**h, "op": "hp", "name": n, "a": a, "form": rng.choice(["array", "array", "strided", "readonly", "list"]),
            "cb": rng.choice(["plain", "yield", "memo_ro", "memo"])}


def near_helper(rng, h):
    """The same helper call with one of its numbers changed very slightly."""
    h = copy.deepcopy(h)
    a = h["a"]
    keys = [k for k, v in a.items() if (isinstance(v, float) and v) or (isinstance(v, list) and v)]
    if h["name"] == "generate_emissivity_from_BDRF":
        m = a["mode"]
        a["mode"] = dict(m, a=problem.nudge(rng, m["a"])) if isinstance(m, dict) else problem.nudge(rng, m)
    elif keys:
        k = rng.choice(sorted(keys))
        v = a[k]
        if isinstance(v, float):
            a[k] = problem.nudge(rng, v)
        else:
            i = rng.randrange(len(v))
            if isinstance(v[i], list):
                j = rng.randrange(len(v[i]))
                v[i][j] = problem.nudge(rng, v[i][j])
            else:
                v[i] = problem.nudge(rng, v[i])
    return h


def like_helper(rng, h):
    """The same helper with arguments of the same shapes and the same integers, but clearly other numbers."""
    h = copy.deepcopy(h)
    f = problem.uni(rng, 0.5, 0.95)

    def scale(v):
        if isinstance(v, float):
            return problem.r6(v * f)
        if isinstance(v, list):
            return [scale(x) for x in v]
        if isinstance(v, dict):
            return dict(v, a=scale(v["a"])) if "a" in v else v
        return v
    h["a"] = {k: scale(v) for k, v in h["a"].items()}
    return h


def kin_helper(rng, h):
    return near_helper(rng, h) if rng.random() < 0.5 else like_helper(rng, h)


# ------------------------------------------------------------------------------------------------ caches
def do_mkcache(ctx, op, cfgs, slots):
    cfg = cfgs[op["cfg"]]
    modes = make_modes(ctx, cfg, op.get("cb", "plain"), "cfg%s" % op["cfg"], op.get("nested"))
    if ctx is not None and not op.get("drop"):
        ctx.owned.add("list of reflectance modes", modes)
    with_mu0 = op["mode"] == "mu0"
    s = subs()
    cached = s.cache_BDRF_Fourier_modes(cfg["NQuad"] // 2, modes, cfg["mu0"]) if with_mu0 else \
        s.cache_BDRF_Fourier_modes(cfg["NQuad"] // 2, modes)
    if ctx is not None and ctx.watch is not None:
        for x in list(modes) + list(cached):
            if callable(x):
                ctx.note("reflectance mode", x)
    slots[op["slot"]] = {"modes": cached, "orig": modes, "cfg": op["cfg"], "mu0": with_mu0}
    return len(cached)


def do_callcache(op, cfgs, slots):
    sl = slots[op["slot"]]
    cfg = cfgs[sl["cfg"]]
    n = problem.nodes(cfg["NQuad"] // 2)
    if op["at"] == "nodes":
        return sl["modes"][op["m"]](n, n)
    return sl["modes"][op["m"]](n, np.array([cfg["mu0"]]))


def cache_expect(op, cfg):
    """Oracle for a direct call of a cached mode: the reflectance formula itself."""
    m = cfg["bdrf"][op["m"]]
    n = problem.nodes(cfg["NQuad"] // 2)
    mup = n if op["at"] == "nodes" else np.array([cfg["mu0"]])
    if isinstance(m, dict):
        return problem.bdrf_formula(m, n, mup)
    return m


# ------------------------------------------------------------------------------------------------ mutations
def scribble(a, how, rng):
    if isinstance(a, np.ndarray):
        if a.size == 0 or a.dtype.kind not in "fciu" or a.ndim == 0:
            return False
        w = a.flags.writeable
        if not w:
            try:
                a.setflags(write=True)
            except ValueError:
                return False
        if how == "nan" and a.dtype.kind in "fc":
            a[...] = np.nan
        elif how == "zero":
            a[...] = 0
        elif how == "reverse":
            a[...] = a[::-1].copy()
            a *= 1.7
        elif how == "one":
            a[(0,) * a.ndim] = a[(0,) * a.ndim] * 0.37 + 0.011
        else:
            a *= 0.61
            a += 0.013
        a.setflags(write=w)
        return True
    if isinstance(a, list):
        if how == "zero":
            for i, x in enumerate(a):
                if isinstance(x, list):
                    scribble(x, how, rng)
                elif not callable(x):
                    a[i] = 0.0
                else:
                    a[i] = 0.9
        elif how == "nan":
            a.clear()
        else:
            for i, x in enumerate(a):
                if isinstance(x, list):
                    scribble(x, how, rng)
                elif callable(x):
                    a[i] = 0.77
                else:
                    a[i] = x * 0.61 + 0.013
        return True
    return False


def flat_arrays(v):
    if isinstance(v, np.ndarray):
        return [v]
    if isinstance(v, (tuple, list)):
        return [x for e in v for x in flat_arrays(e)]
    return []


def do_mut(ctx, op, slots):
    """The caller changes something that belongs to it."""
    how = op["how"]
    w = op["what"]
    done = 0
    if w == "args":
        sl = slots.get(op["slot"])
        if sl is None:
            return 0
        src = sl["kw"] if "kw" in sl else {"m": sl["orig"]}
        for k, v in src.items():
            if op.get("key") in (None, k):
                done += bool(scribble(v, how, None))
    elif w == "mu":
        sl = slots.get(op["slot"])
        if sl is not None and "mu" in sl:
            done += bool(scribble(sl["mu"], how, None))
    elif w == "results":
        for r in list(ctx.results):
            if r["outcome"] == "ok" and op.get("fn") in (None, r["op"].get("fn")):
                for a in flat_arrays(r["live"]):
                    done += bool(scribble(a, how, None))
                r["touched"] = True
    elif w == "callbacks":
        sl = slots.get(op["slot"])
        if sl is not None:
            for m in (sl["kw"].get("BDRF_Fourier_modes", ()) if "kw" in sl else sl["orig"]):
                if isinstance(m, Callback):
                    for k in ("a", "b", "c"):
                        m.p[k] = m.p[k] * 0.3 + 0.05
                    for b in m.memo.values():
                        done += bool(scribble(b, how, None))
    elif w == "queries":
        for it in ctx.owned.items:
            if it[0].startswith("query") and isinstance(it[1], np.ndarray):
                done += bool(scribble(it[1], how, None))
    ctx.owned.resnap()
    return done
