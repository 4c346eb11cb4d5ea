"""Problem specifications (plain JSON), their seeded generation, and their conversion into solver arguments."""
import functools
import math

import numpy as np


@functools.lru_cache(None)
def nodes(N):
    x, w = np.polynomial.legendre.leggauss(N)
    return (x + 1) / 2


def r6(x):
    return float("%.6g" % x)


def uni(rng, a, b):
    return r6(rng.uniform(a, b))


def _leg_row(rng, n, NQuad):
    k = rng.random()
    if k < 0.75:
        g = uni(rng, 0.05, 0.85)
        return [r6(g ** l) for l in range(n)]
    if k < 0.87:
        row = [1.0] + [0.0] * (n - 1)
        if n > 2:
            row[2] = 0.1
        return row
    if k < 0.94:
        return [1.0] + [0.0] * (n - 1)
    g, h, b = uni(rng, 0.5, 0.85), uni(rng, 0.1, 0.5), uni(rng, 0.6, 0.95)
    return [r6(b * g ** l + (1 - b) * (-h) ** l) for l in range(n)]


def gen_mu0(rng, N):
    for _ in range(200):
        m = uni(rng, 0.12, 1.0) if rng.random() > 0.05 else 1.0
        if np.min(np.abs(nodes(N) - m)) > 0.012:
            return m
    return 0.9137


def gen_bdrf_mode(rng, scalar_p=0.4):
    if rng.random() < scalar_p:
        return uni(rng, 0.02, 0.3)
    return {"a": uni(rng, 0.02, 0.2), "b": uni(rng, -0.5, 1.0), "c": uni(rng, -0.05, 0.1), "d": uni(rng, 0.02, 0.08)}


def gen_source(rng, NL, n):
    return [[r6(rng.uniform(0.1, 1.0) * 0.6 ** k) for k in range(n)] for _ in range(NL)]


def gen_bc(rng, N, modes=0):
    """Boundary radiances per direction (and per Fourier mode); now and then some are zero."""
    z = rng.choice([0.0, -0.0]) if rng.random() < 0.2 else None
    one = lambda lo: z if z is not None and rng.random() < 0.4 else uni(rng, lo, 1)
    if not modes:
        v = [one(0.05) for _ in range(N)]
        return v if any(v) else [uni(rng, 0.05, 1)] + v[1:]
    v = [[one(0.05) if m == 0 else r6(0.4 ** m * one(-0.8)) for m in range(modes)] for _ in range(N)]
    v[0][0] = v[0][0] or 0.5
    return v


def gen_values(rng, c):
    """(Re)draw every value of a configuration, keeping its structure (shapes, switches)."""
    NQ, NL, NLA = c["NQuad"], len(c["tau"]), len(c["leg"][0])
    N = NQ // 2
    top = 0.0
    tau = []
    hi = 1.6 if NL <= 5 else 0.6
    for _ in range(NL):
        top += rng.uniform(0.05, hi)
        tau.append(r6(top))
    c["tau"] = tau
    c["omega"] = [0.0 if rng.random() < 0.06 else uni(rng, 0.05, 0.97) for _ in range(NL)]
    c["leg"] = [_leg_row(rng, NLA, NQ) for _ in range(NL)]
    if c.get("x"):      # unusual but valid: nearly conservative scattering, strongly peaked phase functions
        l = rng.randrange(NL)
        if c["x"] != "leg":
            c["omega"][l] = 1 - rng.choice([1e-7, 5e-7, 2e-6])
        if c["x"] != "omega":
            g = rng.choice([0.96, 0.975])
            c["leg"][l] = [r6(g ** k) for k in range(NLA)]
    if c["f"]:
        c["f"] = []
        for l in range(NL):
            k = rng.random()
            if NLA > NQ and k < 0.5 and c["leg"][l][NQ] > 0:
                c["f"].append(r6(min(0.6, c["leg"][l][NQ])))
            elif k < 0.6:
                c["f"].append(0.0)
            else:
                c["f"].append(uni(rng, 0.01, 0.4))
        if max(f * w for f, w in zip(c["f"], c["omega"])) == 0:
            c["f"][0], c["omega"][0] = 0.2, 0.7
    if c["I0"]:
        c["I0"] = uni(rng, 0.5, 4)
        c["mu0"] = gen_mu0(rng, N)
        c["phi0"] = uni(rng, 0, 6)
    for b in ("b_pos", "b_neg"):
        if isinstance(c[b], list):
            c[b] = gen_bc(rng, N, len(c[b][0]) if isinstance(c[b][0], list) else 0)
        elif c[b]:
            c[b] = uni(rng, 0.05, 1)
    if c["s"]:
        c["s"] = gen_source(rng, NL, len(c["s"][0]))
    c["bdrf"] = [gen_bdrf_mode(rng, 1.0 if not isinstance(m, dict) else 0.0) for m in c["bdrf"]]
    y = c.get("y")
    if y in ("thick", "thin"):       # optically very thick or very thin layers
        l = rng.randrange(NL)
        d = rng.choice([12.0, 33.0, 80.0]) if y == "thick" else rng.choice([1e-3, 1e-5])
        old = tau[l] - (tau[l - 1] if l else 0.0)
        c["tau"] = [t + (d - old if i >= l else 0.0) for i, t in enumerate(tau)]
    elif y == "units":               # radiances in other units
        k = rng.choice([1e-6, 1e-3, 1e3, 1e6])
        c["I0"] = c["I0"] * k
        for b in ("b_pos", "b_neg"):
            c[b] = [[x * k for x in r] if isinstance(r, list) else r * k for r in c[b]] if isinstance(c[b], list) else c[b] * k
        if c["s"]:
            c["s"] = [[x * k for x in r] for r in c["s"]]
    elif y == "dim":                 # reflectances close to zero, in part exactly zero
        for i, m in enumerate(c["bdrf"]):
            if isinstance(m, dict):
                c["bdrf"][i] = {"a": uni(rng, 0.001, 0.008), "b": uni(rng, -1, 1), "c": uni(rng, -0.004, 0.004), "d": 0.0, "e": 0.0}
            else:
                c["bdrf"][i] = rng.choice([0.0, 1e-4, 0.004])
    return c


def gen_cfg(rng, **want):
    """A random well-conditioned problem.  `want` pins entries: NQuad, NL, beam, iso, NT, bdrf, delta, only_flux, ag."""
    g = lambda k, d: want[k] if want.get(k) is not None else d
    NQ = g("NQuad", rng.choices([2, 4, 6, 8, 10, 12, 16, 24, 32], [8, 35, 22, 24, 3, 5, 4, 0.6, 0.4])[0])
    N = NQ // 2
    NL = g("NL", rng.choices([1, 2, 3, 4, 5, 7, 9, 10, 11, 12, 20, 33], [20, 27, 25, 12, 8, 5, 1.5, 1.5, 1.5, 2, 0.8, 0.4])[0])
    NT = g("NT", rng.random() < 0.4)
    delta = g("delta", NT or rng.random() < 0.3)
    beam = g("beam", NT or rng.random() < 0.85)
    iso = g("iso", rng.random() < 0.45)
    NLA = NQ + (rng.randint(1, 6) if NT else rng.choice([0, 0, 1, 4]))
    NLeg = None
    if rng.random() < 0.25 and NQ > 2:
        NLeg = rng.randint(max(1, NQ // 2), NQ)
    NF = None
    lim = NLeg or NQ
    if NLeg or rng.random() < 0.4:       # (the default number of modes is NQuad, whatever NLeg is)
        NF = rng.randint(1, lim)
    if want.get("NF"):                   # at most this many modes
        NF = min(lim, want["NF"], NF or lim)
    only_flux = g("only_flux", rng.random() < 0.08)
    nb = g("bdrf", 0 if rng.random() < 0.45 else rng.randint(1, 3))
    c = {
        "NQuad": NQ, "tau": [0] * NL, "omega": [], "leg": [[0] * NLA], "mu0": 0.6, "I0": 1 if beam else 0, "phi0": 0.0,
        "NLeg": NLeg, "NFourier": NF,
        "b_pos": rng.choice([0, 0, 1, [1] * N if N > 1 else 1]),
        "b_neg": rng.choice([0, 0, 1, [1] * N if N > 1 else 1]),
        "only_flux": only_flux, "f": [1] if delta else 0, "NT": bool(NT),
        "bdrf": [{} if rng.random() < g("fnp", 0.6) else 0.1 for _ in range(nb)],
        "s": [[1] * rng.choices([1, 2, 3, 4, 5, 7, 11], [25, 35, 22, 13, 4, 1.5, 0.5])[0]] if iso else 0,
        "banded": 10 if rng.random() < 0.6 else rng.choice([3, 4, 6, 100]),
        "ag": g("ag", False), "defaults": rng.random() < 0.5,
    }
    if rng.random() < g("x", 0.05):
        c["x"] = rng.choice(["omega", "leg", "both"])
    if rng.random() < g("y", 0.06):
        c["y"] = rng.choice(["thick", "thick", "thin", "units", "dim", "dim"] if nb else ["thick", "thick", "thin", "units"])
    for b in ("b_pos", "b_neg"):
        if isinstance(c[b], list) and not only_flux and rng.random() < g("bmat", 0.0 if NF is None and NLeg else 0.35):
            c[b] = [[1] * (NF or NQ)] * N
        elif c[b] == 1 and N == 1 and not only_flux and rng.random() < g("bmat", 0.1):
            c[b] = [[1] * (NF or NQ)]
    if not beam and not iso and not c["b_pos"] and not c["b_neg"]:
        c["b_neg"] = 1
    for _ in range(40):
        gen_values(rng, c)
        if well_conditioned(c):
            return c
    c.pop("x", None)
    c["s"] = c["s"] and [row[:4] for row in c["s"]]
    for _ in range(40):
        gen_values(rng, c)
        if well_conditioned(c):
            break
    return c


def spectrum(c):
    """Smallest eigenvalue k**2 of the discretised equation: [(mode 0, other modes) of each layer]; numpy only."""
    NQ, L = c["NQuad"], c["NLeg"] or c["NQuad"]
    x, w = np.polynomial.legendre.leggauss(NQ // 2)
    mu, w = (x + 1) / 2, w / 2
    P = []
    for m in range(min(c["NFourier"] or NQ, L) if not c["only_flux"] else 1):
        p0, p1 = np.zeros(len(mu)), np.ones(len(mu))
        for k in range(1, m + 1):
            p1 = p1 * np.sqrt((2 * k - 1) / (2 * k) * (1 - mu ** 2))
        rows = [p1]
        for l in range(m + 1, L):
            p0, p1 = p1, ((2 * l - 1) * mu * p1 - np.sqrt((l - 1) ** 2 - m * m) * p0) / np.sqrt(l * l - m * m)
            rows.append(p1)
        P.append(np.array(rows))
    out = []
    for om, leg, f in zip(c["omega"], c["leg"], c["f"] or [0.0] * len(c["tau"])):
        o, g = om * (1 - f) / (1 - om * f), (np.array(leg[:L]) - f) / (1 - f)
        lo = [1e9, 1e9]
        for m, p in enumerate(P):
            l = np.arange(m, m + len(p))
            q = (o / 2 * (2 * l + 1) * g[m:m + len(p)])[:, None]
            a = ((p * q).T @ p * w - np.eye(len(mu))) / mu[:, None]
            b = (p * q).T @ (p * ((-1.0) ** (l - m))[:, None]) * w / mu[:, None]
            k2 = np.linalg.eigvals((a - b) @ (a + b))
            lo[m > 0] = min(lo[m > 0], float(np.min(k2.real)) if np.max(np.abs(k2.imag)) < 1e-9 else -1.0)
        out.append(lo)
    return out


def noisy(c):
    """Does rounding alone change the answer visibly?  (Then two correct executions need not agree.)"""
    if not (c.get("x") or c["s"] and len(c["s"][0]) > 5):
        return False
    for i, (k0, k) in enumerate(spectrum(c)):
        if k0 < 2e-8 or k < 1e-3:        # the discretisation has no physical solution, or nearly so
            return True
        if c["s"]:
            amp, fac = 0.0, 1.0
            for n, s in enumerate(c["s"][i]):
                fac *= max(n, 1)
                amp += abs(s) * fac * k0 ** (-n / 2)
            if amp > 1e5 * max(abs(c["s"][i][0]), 0.05):
                return True
    return False


def well_conditioned(c):
    if noisy(c):
        return False
    if not c["NT"] or not c["I0"] or not c["f"]:
        return True
    om, t, f = np.array(c["omega"]), np.array(c["tau"]), np.array(c["f"])
    s1 = np.sum(om * t)
    if s1 == 0:
        return True
    wf = (s1 / np.sum(t)) * (np.sum(f * om * t) / s1)
    m = nodes(c["NQuad"] // 2)
    return np.min(np.abs(1 / m - (1 - wf) / c["mu0"])) > 0.02


def fix_bc(rng, c):
    """Make the boundary conditions fit the numbers of directions and modes."""
    N = c["NQuad"] // 2
    for b in ("b_pos", "b_neg"):
        if isinstance(c[b], list):
            m = isinstance(c[b][0], list)
            if c["only_flux"] or N == 1 and not m:
                c[b] = uni(rng, 0.05, 1)
            else:
                c[b] = gen_bc(rng, N, (c["NFourier"] or c["NQuad"]) if m else 0)


def nudge(rng, x):
    """A number that is almost, but not quite, x."""
    return float(x * (1 + rng.choice([1e-3, 1e-4, 1e-5, 1e-6]) * rng.choice([1, -1])))


def near(rng, c):
    """The same problem with one number changed very slightly."""
    import copy
    d = copy.deepcopy(c)
    keys = [k for k in ("tau", "omega", "f", "mu0", "I0", "phi0", "b_pos", "b_neg", "s", "bdrf", "leg") if c[k] and (
        c["I0"] or k not in ("mu0", "phi0"))]
    k = rng.choice(keys)
    v = d[k]
    if not isinstance(v, list):
        d[k] = nudge(rng, v)
        if k == "mu0" and d[k] > 1 or k == "phi0" and d[k] >= 6.28:
            return copy.deepcopy(c)
        return d
    i = rng.randrange(len(v))
    if isinstance(v[i], dict):
        q = rng.choice("abd")
        v[i] = dict(v[i], **{q: nudge(rng, v[i][q])})
    elif isinstance(v[i], list):
        j = rng.randrange(1 if k == "leg" and len(v[i]) > 1 else 0, len(v[i]))
        v[i][j] = nudge(rng, v[i][j])
    else:
        v[i] = nudge(rng, v[i])
        if k == "tau" and any(b <= a for a, b in zip([0] + v, v)) or k == "omega" and v[i] >= 1:
            return copy.deepcopy(c)
    return d


def twin(rng, c):
    """Another problem for which some product or sum of the dimensions is the same."""
    NQ, NL = c["NQuad"], len(c["tau"])
    k = rng.random()
    o = [(a, b) for a in (2, 4, 6, 8, 12, 16) for b in (1, 2, 3, 4, 5, 6, 8, 12) if a * b == NQ * NL and a != NQ]
    if k < 0.7 and o:
        a, b = rng.choice(o)
    else:
        a, b = rng.choice([(NQ, rng.choice([1, 2, 3, 4, 5])), (rng.choice([2, 4, 6, 8]), NL)])
    return gen_cfg(rng, NQuad=a, NL=b, beam=bool(c["I0"]) or None, iso=bool(c["s"]), NT=c["NT"], delta=bool(c["f"]),
                   bdrf=len(c["bdrf"]), only_flux=c["only_flux"], ag=c["ag"])


def small_twin(rng, c):
    """A cheap problem which has something in common with c."""
    return gen_cfg(rng, NQuad=min(c["NQuad"], rng.choice([2, 4, 4, 6])), NL=min(len(c["tau"]), rng.choice([1, 2, 3])), ag=False)


def variant(rng, c):
    """A problem that agrees with `c` in everything except one or a few entries."""
    import copy
    d = copy.deepcopy(c)
    k = rng.random()
    if k < 0.45:
        for _ in range(50):
            d = copy.deepcopy(c)
            e = gen_values(rng, copy.deepcopy(c))
            keys = [x for x in ("tau", "omega", "leg", "f", "mu0", "I0", "phi0", "b_pos", "b_neg", "s", "bdrf")
                    if e[x] != c[x]]
            for x in rng.sample(keys, min(len(keys), rng.choice([1, 1, 1, 2, 3]))):
                d[x] = e[x]
            if well_conditioned(d) and d != c:
                return d
        return d
    if k < 0.75:
        for _ in range(50):
            gen_values(rng, d)
            if well_conditioned(d):
                break
        return d
    # structural neighbours
    for _ in range(20):
        d = copy.deepcopy(c)
        w = rng.choice(["I0", "s", "bdrf", "NF", "NT", "f", "b", "banded", "layers", "one", "twin", "near", "near"])
        if w == "I0" and c["I0"] and (c["s"] or c["b_pos"] or c["b_neg"]):
            d["I0"] = 0
        elif w == "s":
            d["s"] = 0 if c["s"] and (c["I0"] or c["b_pos"] or c["b_neg"]) else gen_source(rng, len(c["tau"]), rng.randint(1, 4))
        elif w == "bdrf":
            d["bdrf"] = [] if c["bdrf"] and rng.random() < 0.5 else [gen_bdrf_mode(rng) for _ in range(rng.randint(1, 3))]
        elif w == "NF":
            d["NFourier"] = rng.randint(1, c["NLeg"] or c["NQuad"])
            fix_bc(rng, d)
        elif w == "NT":
            d["NT"] = not c["NT"]
        elif w == "f" and c["f"]:
            d["f"] = 0
        elif w == "b":
            d["b_neg"] = uni(rng, 0.05, 1)
        elif w == "banded":
            d["banded"] = rng.choice([3, 4, 6, 100])
        elif w == "layers" and len(c["tau"]) > 1:
            k2 = rng.randint(1, len(c["tau"]) - 1)
            for x in ("tau", "omega", "leg"):
                d[x] = c[x][:k2]
            if c["f"]:
                d["f"] = c["f"][:k2]
            if c["s"]:
                d["s"] = c["s"][:k2]
            if d["f"] and max(f * o for f, o in zip(d["f"], d["omega"])) == 0:
                continue
        elif w == "near":
            d = near(rng, c)
        elif w == "twin":
            d = twin(rng, c)
        elif w == "one":
            l = rng.randrange(len(c["tau"]))
            d["omega"][l] = uni(rng, 0.05, 0.97)
        if d != c and well_conditioned(d):
            return d
    return d


# --------------------------------------------------------------------------------------- reflectance callbacks
def bdrf_formula(p, mu, mup):
    mu, mup = np.asarray(mu, float), np.asarray(mup, float)
    return (p["a"] * (1 + p["b"] * mu[:, None] * mup[None, :]) + p["c"] * mu[:, None] ** 2
            + p["d"] * mup[None, :] + p.get("e", 0.02))


# --------------------------------------------------------------------------------------- arguments
FORMS = ("array", "list", "fortran", "strided", "readonly")


def shape_arg(v, form):
    """Represent a (nested) list argument in the given form; the contents are equal for every form."""
    if form == "list":
        import copy
        return copy.deepcopy(v)
    a = np.array(v, float)
    if form == "fortran":
        return np.asfortranarray(a)
    if form == "strided":
        b = np.full(tuple(2 * s for s in a.shape), 7.25)
        sl = tuple(slice(0, None, 2) for _ in a.shape)
        b[sl] = a
        return b[sl]
    if form == "readonly":
        a.setflags(write=False)
        return a
    if form == "bigendian":
        return a.astype(">f8")
    return a


def build_args(c, modes, form="array"):
    """kwargs for pydisort; every list / array in it is owned by the caller (fresh objects)."""
    k = {"tau_arr": shape_arg(c["tau"], form), "omega_arr": shape_arg(c["omega"], form), "NQuad": c["NQuad"],
         "Leg_coeffs_all": shape_arg(c["leg"], form), "mu0": c["mu0"], "I0": c["I0"], "phi0": c["phi0"]}
    dflt = c.get("defaults")
    if c["NLeg"] is not None or not dflt:
        k["NLeg"] = c["NLeg"]
    if c["NFourier"] is not None or not dflt:
        k["NFourier"] = c["NFourier"]
    for b in ("b_pos", "b_neg"):
        if c[b] or not dflt:
            k[b] = shape_arg(c[b], form) if isinstance(c[b], list) else c[b]
    if c["only_flux"] or not dflt:
        k["only_flux"] = c["only_flux"]
    if c["f"] or not dflt:
        k["f_arr"] = shape_arg(c["f"], form) if c["f"] else 0
    if c["NT"] or not dflt:
        k["NT_cor"] = c["NT"]
    if c["bdrf"] or not dflt:
        k["BDRF_Fourier_modes"] = modes
    if c["s"]:
        k["s_poly_coeffs"] = shape_arg(c["s"], form)
    if c["banded"] != 10 or not dflt:
        k["use_banded_solver_NLayers"] = c["banded"]
    if c["ag"] or not dflt:
        k["autograd_compatible"] = c["ag"]
    return k


def fns_of(c):
    out = ["Fp", "Fm", "u0", "au", "ad", "iu0"]
    if not c["only_flux"]:
        out += ["u", "iu"]
    return out


def gen_taus(rng, c, n, unsorted=True):
    t = c["tau"]
    out = []
    for _ in range(n):
        k = rng.random()
        if k < 0.18:
            out.append(rng.choice(t))
        elif k < 0.24:
            out.append(0.0)
        elif k < 0.30 and len(t) > 1:
            out.append(min(t[-1], r6(rng.choice(t) * (1 + 1e-5))))
        elif k < 0.36 and out:
            out.append(rng.choice(out))
        else:
            out.append(min(t[-1], uni(rng, 0, t[-1])))
    if not unsorted:
        out.sort()
    return out


def magnitude(cfg):
    """Size of the sources: what values that are zero up to rounding have to be compared with."""
    m = abs(cfg["I0"] or 0)
    for b in ("b_pos", "b_neg"):
        if np.size(cfg[b]):
            m = max(m, float(np.max(np.abs(np.asarray(cfg[b], float)))))
    if cfg["s"]:
        t = max(1.0, float(cfg["tau"][-1]))
        m = max(m, max(sum(abs(x) * t ** k for k, x in enumerate(r)) for r in cfg["s"]))
    return m
