"""Fitting: goodness of fit, the fixed-point method, the scipy optimisers."""
import contextlib
import io
import warnings

import numpy as np

import gen
import ref
from core import Info, Sub, Violation, require
from gen import A, fl, logfl, seeds
from ref import EPS, LD, close


def st():
    from hypothesis import strategies
    return strategies


# ------------------------------------------------------------------ problems
def problem_spec(cubic=True, mol=True, norm=None, max_basis=6, with_s=True, max_n=60, densities=None,
                 int_dens=True, zeros=False, emax=4.0, large=True, own=False, units=False):
    s = st()
    kinds = ["atomic"] + (["mol1", "mol"] if mol else [])
    cnt = s.tuples(s.integers(1 if with_s else 0, max_basis), s.integers(0, max_basis // 2)).map(
        lambda t: list(t) if sum(t) else [1, 0])
    if max_basis >= 6 and large:
        many = s.tuples(s.integers(1 if with_s else 0, 24), s.integers(0, 12)).map(lambda t: list(t) if sum(t) else [1, 0])
        cnt = s.one_of(*[cnt] * 7, many)
    return s.fixed_dictionaries({
        "grid": gen.duck_grid_spec(max_n, own == "minus") if own else s.one_of(
            *([gen.radial_grid_spec(max_n, 10.0, large)] * 2 + ([gen.cubic_grid_spec(6, large)] if cubic else []))),
        "displaced": s.sampled_from([False, False, True]),
        "spherical": s.booleans(),
        "model": s.sampled_from(kinds),
        "basis": (s.one_of(*[s.lists(cnt, min_size=2, max_size=4)] * 9, s.lists(
            s.sampled_from([[1, 0], [1, 0], [2, 0], [1, 1]]), min_size=5, max_size=16)) if large and max_basis >= 6 else
            s.lists(cnt, min_size=2, max_size=4)), "coords": seeds(),
        "norm": s.booleans() if norm is None else s.just(norm),
        "dens": s.fixed_dictionaries({
            "kind": s.sampled_from(densities or ["gauss", "slater", "rand", "powers"]),
            "a": gen.arr(1, 4, 0.05, 3.0, log=True), "w": gen.arr(1, 4, 0.05, 20.0, log=True),
            "seed": seeds(), "zeros": s.booleans() if zeros else s.just(False),
            "scale": s.one_of(s.just(1.0), logfl(1e-3, 1e3)),
            "dtype": s.sampled_from([""] * 7 + ["int64", "longdouble", "readonly", "strided"])}),
        "c": gen.arr(1, 12, 1e-2, 30.0, log=True), "e": gen.arr(1, 12, 0.05, emax, log=True),
        "N": s.one_of(*[s.none()] * 4, *[fl(0.3, 3.0)] * 2, fl(0.999, 1.001), logfl(1e-10, 1e10) if units else fl(0.3, 3.0))
        if int_dens else s.none(),
        # the unit of length: the same problem, far larger or smaller
        "unit": s.sampled_from([1.0] * 6 + [0.01, 0.1, 10.0, 100.0]) if units else s.just(1.0),
        # ... and of the density
        "amp": s.sampled_from([1.0] * 8 + [1e-12, 1e-5, 1e5, 1e9]) if units else s.just(1.0),
    })


def in_unit(p):
    """The problem of a specification in its unit of length."""
    u, amp = p.get("unit", 1.0), p.get("amp", 1.0)
    if amp != 1.0:
        p = dict(p, dens=dict(p["dens"], scale=p["dens"]["scale"] * amp), amp=1.0)
        p["c"] = [float(x) * amp for x in A(p["c"])]
    if u == 1.0 or p["grid"]["g"] == "clenshaw":
        return dict(p, unit=1.0)
    p = dict(p, grid=dict(p["grid"], unit=u), dens=dict(p["dens"]))
    for k in ("lo", "hi", "h", "scale"):
        if k in p["grid"]:
            p["grid"][k] *= u
    p["dens"]["a"] = [float(x) / u ** (1 if p["dens"]["kind"] == "slater" else 2) for x in A(p["dens"]["a"])]
    p["e"] = [float(x) / u ** 2 for x in A(p["e"])]
    return p


class Problem:
    """Everything of a fitting problem, with reference quadrature."""

    def __init__(self, p):
        from bfit import AtomicGaussianDensity, MolecularGaussianDensity
        p = in_unit(p)
        self.spec = p
        self.grid = gen.G(p["grid"])
        pts = self.grid.points
        self.pts = pts
        n = len(pts)
        radial = pts.ndim == 1
        self.spherical = bool(p["spherical"] and radial)
        r2o = ref.radii2(pts)
        r = np.sqrt(r2o).astype(float)
        rng = np.random.default_rng(p["dens"]["seed"])
        d = p["dens"]
        a, w = A(d["a"]), A(d["w"])
        f = np.zeros(n)
        for i in range(len(a)):
            wi = w[i % len(w)]
            if d["kind"] == "gauss":
                f += wi * np.exp(-a[i] * r ** 2)
            elif d["kind"] == "slater":
                f += wi * np.exp(-a[i] * r)
            elif d["kind"] == "powers":
                f += wi / (1 + a[i] * r ** 2) ** 3
        if d["kind"] == "rand":
            f = rng.uniform(0.05, 1.0, n)
        f = f * d["scale"]
        if d["zeros"]:
            f[rng.random(n) < 0.3] = 0.0
        kind = d.get("dtype")
        if kind == "int64":
            f = np.maximum(np.round(1000 * f / max(f.max(), 1e-300)), 0 if d["zeros"] else 1).astype(np.int64)
        elif kind == "longdouble":
            f = f.astype(np.longdouble)
        elif kind == "readonly":
            f.setflags(write=False)
        elif kind == "strided":
            both = np.zeros((n, 3))
            both[:, 1] = f
            f = both[:, 1]
        self.f = f
        kind = p["model"] if not (radial and p["model"] == "mol") else "atomic"
        dim = 1 if radial else pts.shape[1]
        if kind == "atomic":
            basis = np.array([p["basis"][0]], int)
            coords = np.zeros((1, dim))
            center = None
            if p.get("displaced"):
                center = p["unit"] * np.random.default_rng(p["coords"]).uniform(-1, 1, dim)
                coords = center[None, :].copy()
            self.model = AtomicGaussianDensity(pts, center, num_s=int(basis[0, 0]), num_p=int(basis[0, 1]),
                                               normalize=p["norm"])
        else:
            basis = np.array(p["basis"][:1] if kind == "mol1" else p["basis"], int)
            coords = p["unit"] * np.random.default_rng(p["coords"]).uniform(-1, 1, (len(basis), dim))
            if radial and not p.get("displaced"):
                coords[:] = 0.0
            self.model = MolecularGaussianDensity(pts, coords, basis, normalize=p["norm"])
        self.kind = kind
        self.basis, self.coords, self.norm = basis, coords, p["norm"]
        self.m = int(basis.sum())
        self.kinds, self.r2s = [], []
        for b, x in zip(basis, coords):
            q = ref.radii2(pts, x)
            self.kinds += ref.kinds_of(int(b[0]), int(b[1]))
            self.r2s += [q] * int(b.sum())
        self.pref = np.array([1.5 if k == "s" else 2.5 for k in self.kinds])
        w = ref.quad_weights(p["grid"], self.grid)
        if self.spherical:
            w = w * 4 * ref.PI * r2o
        self.w = w
        self.c0 = gen.fit_len(p["c"], self.m)
        self.e0 = gen.fit_len(p["e"], self.m)
        self.intf = (w * f).sum()
        self.absf = (np.abs(w) * f).sum()     # the same, unless a rule of the user has negative weights
        self.N = None if p["N"] is None else float(p["N"] * self.intf)
        self.Nval = self.intf if self.N is None else LD(self.N)

    def value(self, c, e):
        return ref.model(self.r2s, self.kinds, self.norm, c, e)

    def integral(self, y):
        return (self.w * y).sum()

    def goodness(self, c, e, mask):
        """The five measures with bounds of their rounding errors, and whether the model is >= 0."""
        g, tol, _, _ = self.value(c, e)
        f = self.f.astype(LD)
        d = np.abs(f - g)
        n = len(f)
        E = (n + 50) * EPS
        kl, _ = ref.kl_terms(f, np.maximum(g, 0), mask)
        ok = (g > mask + tol) | (g < mask - tol) | (mask == 0)
        klerr = np.where(g > 0, f * tol / np.where(g > 0, g, 1), 0) + 40 * EPS * (np.abs(kl) + f)
        # the quotient with a model which underflows may overflow
        klerr = np.where((g > 0) & (f > LD(1e290) * g), LD("inf"), klerr)
        bad = ~ok
        w, aw = self.w, np.abs(self.w)
        out = [
            ((w * g).sum(), (aw * (np.abs(g) * E + tol)).sum()),
            ((w * d).sum(), (aw * (d * E + tol + EPS * (f + np.abs(g)))).sum()),
            (d.max(), (tol + EPS * 4 * (f + np.abs(g))).max()),
            ((w * d * d).sum(), (aw * (d * d * E + 2 * d * (tol + EPS * (f + np.abs(g)))
                                      + (tol + EPS * (f + np.abs(g))) ** 2)).sum()),
            ((w * kl).sum(), (np.where(aw > 0, aw, LD(1e-300)) * (np.abs(kl) * E + klerr)).sum() + (aw * np.where(bad, np.abs(f) * 100, 0)).sum()),
        ]
        # near zero the sign of a model with negative coefficients is a matter of rounding
        sign = bool(np.all(g >= 0) and (np.all(np.asarray(c) >= 0) or np.all(g > tol)))
        return out, sign, g

    def check_performance(self, perf, c, e, mask, ctx=""):
        want, positive, _ = self.goodness(c, e, mask)
        perf = np.asarray(perf)
        require(perf.shape == (5,), lambda: f"performance of shape {perf.shape} {ctx}")
        names = ["integral", "L1", "L infinity", "least squares", "Kullback-Leibler"]
        for i in range(5):
            if i == 4 and not positive:
                continue
            close(f"{names[i]} {ctx}", perf[i], want[i][0], float(want[i][1]) * 4 + 1e-280)
        return positive


# ------------------------------------------------------------------ C13: goodness of fit
def goodness_case():
    s = st()
    return s.fixed_dictionaries({
        "p": problem_spec(with_s=False, zeros=True, emax=50.0, units=True),
        "cls": s.sampled_from(["fpi", "scipy"]), "mask": s.sampled_from([0.0, 1e-18, 1e-12, 1e-6]),
        "neg": s.sampled_from([False, False, False, True]),
        "others": s.integers(0, 2), "default_mask": s.booleans(),
        "measure": s.sampled_from(["ls", "ls", "kl", "tsallis"]), "alpha": s.sampled_from([0.5, 1.5, 2.0]),
        "weights": s.one_of(s.none(), gen.arr(1, 60, 0.1, 5.0)), "method": s.sampled_from(["slsqp", "trust-constr"]),
        "cast": gen.casts(),
    })


def check_goodness(case):
    from bfit import KLDivergenceFPI, ScipyFit, SquaredDifference
    pr = Problem(case["p"])
    mask = case["mask"]
    if not abs(pr.intf) > 1e-6 * pr.absf:
        return Info(False, "no density")
    f = pr.f.copy()
    kw = {} if case["default_mask"] else {"mask_value": mask}
    if case["cls"] == "fpi":
        fit = KLDivergenceFPI(pr.grid, f, pr.model, integral_dens=pr.N, spherical=pr.spherical, **kw)
        mask = 0.0 if case["default_mask"] else mask
    else:
        # the report does not depend on what is optimised and how
        weights = None if case.get("weights") is None else gen.fit_len(case["weights"], len(f))
        fit = ScipyFit(pr.grid, f, pr.model, measure=make_measure({"measure": "ls", **case}), integral_dens=pr.N,
                       method=case.get("method", "slsqp"), weights=weights, spherical=pr.spherical, **kw)
        mask = 1e-18 if case["default_mask"] else mask
    c, e = pr.c0.copy(), pr.e0.copy()
    if case["neg"]:
        c[::2] *= -0.5
    ca, ea = gen.cast(case.get("cast"), c, e)
    c, e = np.array(ca, float), np.array(ea, float)
    for k in range(case["others"]):
        fit.goodness_of_fit(c * (k + 2), e + 0.1 * k)
    close("integral of the density", fit.integral_dens, pr.Nval,
          1e-12 * float(pr.absf) * (1 if pr.N is None or pr.absf > 1.5 * pr.intf else 0) + 1e-15 * abs(float(pr.Nval)) + 1e-300)
    require(fit.spherical == pr.spherical, "spherical flag")
    got = fit.goodness_of_fit(ca, ea)
    require(len(got) == 5, "number of measures")
    positive = pr.check_performance(np.array([float(x) for x in got]), c, e, mask, f"({case['cls']})")
    again = fit.goodness_of_fit(ca, ea)
    close("goodness of fit again", np.array(again), np.array(got).astype(LD), 0)
    close("density after", f, pr.f, 0)
    return Info(pr.m > 1, pr.kind, pr.spec["grid"]["g"], "spherical" if pr.spherical else "",
                "negative" if not positive else "", "zeros" if np.any(f == 0) else "")


# ------------------------------------------------------------------ C14: one or several FPI steps
def fpi_reference(pr, c, e, mask, oc, oe, steps):
    """The documented iteration in long double: the iterates after every step, and until which of
    them the iteration is regular, i.e. no underflow and no function collapsing onto one point."""
    c, e = c.astype(LD), e.astype(LD)
    f = pr.f.astype(LD)
    lm = pr.intf / pr.Nval
    out = []
    r2min = [float(q[q > 0].min()) if np.any(q > 0) else 0.0 for q in pr.r2s]
    for _ in range(steps):
        g, _, dg, _ = pr.value(c, e)
        if not (np.all(np.isfinite(g)) and float(g.min()) > 1e-280):
            return out, False
        if mask and np.any(np.abs(g - mask) <= 1e-7 * mask):
            return out, False
        masked = g <= mask
        ratio = np.where(masked, LD(1), f / np.where(masked, LD(1), g))
        a1, a2 = np.zeros(pr.m, LD), np.zeros(pr.m, LD)
        for i in range(pr.m):
            t = pr.w * ratio * dg[:, i]
            a1[i] = t.sum()
            a2[i] = (t * pr.r2s[i]).sum()
            if not (1e-150 < float(a1[i]) < 1e150 and float(a2[i]) > 1e-3 * r2min[i] * float(a1[i])):
                return out, False
        if oc:
            c = c * a1 / lm
        if oe:
            e = pr.pref * a1 / a2
        out.append((c, e))
    g = pr.value(c, e)[0]
    return out, bool(np.all(np.isfinite(g)) and float(g.min()) > 1e-280)


def step_case():
    s = st()
    return s.fixed_dictionaries({
        "p": problem_spec(zeros=True, units=True), "k": s.integers(1, 5), "opt": s.sampled_from(["both", "coeffs", "expons"]),
        "pre": s.booleans(), "mask": s.sampled_from([0.0, 0.0, 1e-12, 1e-6, 1e-3]), "zero": s.sampled_from([0.0, 0.0, 0.0, 0.4]),
        "layout": s.sampled_from(["plain", "plain", "strided", "readonly"]), "cast": gen.casts(),
    })


def opts(o):
    return {"opt_coeffs": o in ("both", "coeffs"), "opt_expons": o in ("both", "expons")}


def no_stop(**kw):
    return dict(c_threshold=0.0, e_threshold=0.0, d_threshold=0.0, **kw)


def check_step(case):
    from bfit import KLDivergenceFPI
    pr = Problem(case["p"])
    o = opts(case["opt"])
    if pr.spec["grid"]["g"] == "clenshaw" and float(pr.pts[-1]) > 12:
        # diffuse points to 25: keep the model above the underflow
        pr.e0 = np.minimum(pr.e0, 0.9)
    if not pr.intf > 0:
        return Info(False, "no density")
    if case.get("zero"):       # functions which start with a zero coefficient keep it
        off = np.random.default_rng(pr.spec["coords"]).random(pr.m) < case["zero"]
        off[np.random.default_rng(pr.spec["coords"]).integers(0, pr.m)] = False
        pr.c0[off] = 0.0
    ca, ea = gen.cast(case.get("cast"), pr.c0, pr.e0)
    pr.c0, pr.e0 = np.array(ca, float), np.array(ea, float)
    if not np.any(pr.c0):
        return Info(False, "no model")
    f = pr.f.copy()
    if case.get("layout") == "strided":
        f = np.repeat(f, 2)[::2]
    elif case.get("layout") == "readonly":
        f.setflags(write=False)
    mask = case.get("mask", 0.0)
    kw = {"mask_value": mask} if mask else {}
    fit = KLDivergenceFPI(pr.grid, f, pr.model, integral_dens=pr.N, spherical=pr.spherical, **kw)
    close("Lagrange multiplier", fit.lagrange_multiplier, pr.intf / pr.Nval, 1e-11 * float(pr.intf / pr.Nval))
    if case["pre"]:
        fit.run(pr.c0 * 1.3 + 0.1, pr.e0 * 0.9, maxiter=1, **opts("both"))
    res = fit.run(ca, ea, maxiter=case["k"], **no_stop(), **o)
    close("initial coefficients after", ca, pr.c0, 0)
    close("initial exponents after", ea, pr.e0, 0)
    k = len(res["fun"])
    require(1 <= k <= case["k"], lambda: f"{k} iterations of at most {case['k']}")
    c, e = np.asarray(res["coeffs"]), np.asarray(res["exps"])
    if not o["opt_coeffs"]:
        close("frozen coefficients", c, pr.c0, 0)
    if not o["opt_expons"]:
        close("frozen exponents", e, pr.e0, 0)
    want, regular = fpi_reference(pr, pr.c0, pr.e0, mask, steps=k, oc=o["opt_coeffs"], oe=o["opt_expons"])
    if not regular:
        return Info(False, "degenerate")
    want_c, want_e = want[-1]
    if regular:
        close("coefficients", c, want_c, 1e-8 * np.abs(want_c) + 1e-10 * float(np.abs(want_c).max()),
              f"after {k} steps of {case['opt']}, {pr.kind}")
        close("exponents", e, want_e, 1e-7 * np.abs(want_e), f"after {k} steps of {case['opt']}, {pr.kind}")
        if o["opt_coeffs"] and not mask:
            close("sum of the coefficients", c.sum(), pr.Nval, 1e-9 * float(pr.Nval))
    require(bool(np.all(c >= 0)) and bool(np.all(e > 0)), lambda: f"signs of {c} {e}")
    return Info(regular and pr.m > 1, case["opt"], pr.kind, pr.spec["grid"]["g"], "N given" if pr.N else "",
                "spherical" if pr.spherical else "", "" if regular else "underflow")


def late_case():
    s = st()
    return s.fixed_dictionaries({
        "p": problem_spec(zeros=True, max_n=40, large=False, units=True), "opt": s.sampled_from(["both", "coeffs", "expons"]),
        "j": s.one_of(s.integers(1, 60), s.integers(40, 250)), "more": s.integers(1, 3),
        "delta": s.one_of(s.just(0.0), logfl(1e-11, 1e-6)), "lone": s.sampled_from([False, False, True]),
    })


def check_late(case):
    """Every step of a long run is the documented one, and knows nothing of the steps before."""
    from bfit import KLDivergenceFPI
    p = case["p"]
    if case.get("lone"):
        p = dict(p, model="atomic", basis=[[1, 0]] + list(p["basis"][1:]))
    pr = Problem(p)
    if pr.spec["grid"]["g"] == "clenshaw":
        pr.e0 = np.minimum(pr.e0, 0.9)
    if not pr.intf > 0:
        return Info(False, "no density")
    o = opts(case["opt"])
    fit = KLDivergenceFPI(pr.grid, pr.f.copy(), pr.model, integral_dens=pr.N, spherical=pr.spherical)
    j, m = case["j"], case["more"]
    with np.errstate(all="ignore"):
        first = fit.run(pr.c0.copy(), pr.e0.copy(), maxiter=j, **no_stop(), **o)
        c, e = np.asarray(first["coeffs"]), np.asarray(first["exps"])
        whole = fit.run(pr.c0.copy(), pr.e0.copy(), maxiter=j + m, **no_stop(), **o)
    if len(whole["fun"]) != j + m or not (np.all(np.isfinite(c)) and np.all(np.isfinite(e)) and np.all(c >= 0) and np.all(e > 0)):
        return Info(False, "ends early")
    want, regular = fpi_reference(pr, c.copy(), e.copy(), 0.0, steps=m, oc=o["opt_coeffs"], oe=o["opt_expons"])
    if not regular:
        return Info(False, "degenerate")
    wc, we = want[-1]
    close("coefficients", np.asarray(whole["coeffs"]), wc, 1e-8 * np.abs(wc) + 1e-10 * float(np.abs(wc).max()),
          f"in step {j + m} of {case['opt']}, {pr.kind}")
    close("exponents", np.asarray(whole["exps"]), we, 1e-7 * np.abs(we), f"in step {j + m} of {case['opt']}, {pr.kind}")
    d = case.get("delta", 0.0)
    if d:
        # the update of the coefficients forgets their common factor, also when they are almost converged
        near = [np.asarray(fit.run(x, e.copy(), maxiter=1, **no_stop(), **opts("coeffs"))["coeffs"])
                for x in (c.copy(), c * (1.0 + d), c * (1.0 - d))]
        for x in near[1:]:
            close(f"step from coefficients times 1 +- {d}", x, near[0].astype(LD), 1e-12 * np.abs(near[0]) + 1e-290)
    return Info(pr.m > 1, "near" if d else "", case["opt"], pr.kind, "late" if j > 40 else "early")


# ------------------------------------------------------------------ C15: monotone descent
def mono_case():
    s = st()
    return s.fixed_dictionaries({
        "p": problem_spec(norm=True, units=True), "unnorm": s.booleans(), "k": s.integers(2, 40),
        "opt": s.sampled_from(["both", "coeffs", "expons"]), "feasible": s.booleans(),
    })


def check_mono(case):
    from bfit import KLDivergenceFPI
    p = dict(case["p"])
    if case["opt"] == "coeffs" and case["unnorm"]:
        p["norm"] = False
    pr = Problem(p)
    if pr.spec["grid"]["g"] == "clenshaw":
        pr.e0 = np.minimum(pr.e0, 0.9)
    if not pr.intf > 0:
        return Info(False, "no density")
    c0 = pr.c0.copy()
    if case["feasible"]:
        c0 = c0 * float(pr.Nval) / c0.sum()
    fit = KLDivergenceFPI(pr.grid, pr.f.copy(), pr.model, integral_dens=pr.N, spherical=pr.spherical)
    res = fit.run(c0, pr.e0.copy(), maxiter=case["k"], **no_stop(), **opts(case["opt"]))
    fun = [LD(x) for x in res["fun"]]
    start, pos, g0 = pr.goodness(c0, pr.e0, 0.0)
    final, _, g1 = pr.goodness(np.asarray(res["coeffs"]), np.asarray(res["exps"]), 0.0)
    o = opts(case["opt"])
    if not fpi_reference(pr, c0, pr.e0, 0.0, steps=len(fun), oc=o["opt_coeffs"], oe=o["opt_expons"])[1]:
        return Info(False, "degenerate")
    if case["feasible"] or case["opt"] == "expons":
        fun = [start[4][0]] + fun
    f = pr.f.astype(LD)
    # magnitude of the terms whose rounding the objective carries
    mag = float((pr.w * f * (1 + np.abs(np.log(np.where(f > 0, f, 1) / g0)) + np.abs(np.log(np.where(f > 0, f, 1) / g1)))).sum())
    for i in range(1, len(fun)):
        require(fun[i] <= fun[i - 1] + 1e-12 * mag + 1e-290,
                lambda: f"Kullback-Leibler rises from {fun[i - 1]} to {fun[i]} in iteration {i} of "
                        f"{case['opt']}, {pr.kind}")
    drop = float(fun[0] - fun[-1])
    return Info(pr.m > 1 and drop > 1e-9 * mag, case["opt"], pr.kind, pr.spec["grid"]["g"],
                "N given" if pr.N else "", "feasible" if case["feasible"] else "")


# ------------------------------------------------------------------ C16: equivariance
def equi_case():
    s = st()
    return s.fixed_dictionaries({
        "p": problem_spec(norm=True, max_n=40), "k": s.integers(1, 12), "opt": s.sampled_from(["both", "coeffs", "expons"]),
        "s": logfl(1e-4, 1e4), "t": s.one_of(logfl(0.05, 20.0), logfl(1e-4, 1e3)), "perm": seeds(),
        "what": s.sampled_from(["density", "length", "permute", "all"]),
    })


def check_equi(case):
    from bfit import AtomicGaussianDensity, CubicGrid, KLDivergenceFPI, MolecularGaussianDensity
    from bfit import ClenshawRadialGrid, UniformRadialGrid
    p = case["p"]
    if p["grid"]["g"] == "clenshaw":
        p = dict(p, e=[min(x, 0.9) for x in A(p["e"])])
    pr = Problem(p)
    if not pr.intf > 0:
        return Info(False, "no density")
    what = case["what"]
    s = case["s"] if what in ("density", "all") else 1.0
    t = case["t"] if what in ("length", "all") else 1.0
    if p["grid"]["g"] == "clenshaw":
        t = 1.0                      # this grid has a fixed size
    o = opts(case["opt"])
    fit = KLDivergenceFPI(pr.grid, pr.f.copy(), pr.model, integral_dens=pr.N, spherical=pr.spherical)
    res = fit.run(pr.c0.copy(), pr.e0.copy(), maxiter=case["k"], **no_stop(), **o)
    if t == 1.0:
        grid2 = pr.grid
    elif p["grid"]["g"] == "uniform":
        sp = p["grid"]
        grid2 = UniformRadialGrid(sp["n"], sp["lo"] * t, sp["hi"] * t, dtype=np.dtype(sp["dtype"]).type)
    else:
        origin, axes, shape = gen.cubic_parts(p["grid"])
        grid2 = CubicGrid(origin * t, axes * t, shape)
    rng = np.random.default_rng(case["perm"])
    # a permutation of the functions of one type on one centre, and of the centres
    idx, order = [], rng.permutation(len(pr.basis)) if what in ("permute", "all") else np.arange(len(pr.basis))
    starts = np.concatenate(([0], np.cumsum(pr.basis.sum(axis=1))))
    for i in order:
        ns, np_ = pr.basis[i]
        a, b = np.arange(ns), ns + np.arange(np_)
        if what in ("permute", "all"):
            a, b = rng.permutation(a), rng.permutation(b)
        idx += [int(starts[i] + x) for x in np.concatenate((a, b))]
    idx = np.array(idx, int)
    if pr.kind == "atomic":
        mod2 = AtomicGaussianDensity(grid2.points, pr.coords[0] * t, num_s=int(pr.basis[0, 0]), num_p=int(pr.basis[0, 1]), normalize=True)
    else:
        mod2 = MolecularGaussianDensity(grid2.points, pr.coords[order] * t, pr.basis[order], normalize=True)
    fit0 = KLDivergenceFPI(grid2, s * pr.f, mod2, spherical=pr.spherical)
    cscale = float(fit0.integral_dens / pr.intf)
    fit2 = KLDivergenceFPI(grid2, s * pr.f, mod2, spherical=pr.spherical,
                           integral_dens=None if pr.N is None else pr.N * cscale)
    res2 = fit2.run((pr.c0 * cscale)[idx], (pr.e0 / t ** 2)[idx], maxiter=case["k"], **no_stop(), **o)
    if not fpi_reference(pr, pr.c0, pr.e0, 0.0, steps=case["k"], oc=o["opt_coeffs"], oe=o["opt_expons"])[1]:
        return Info(False, "degenerate")
    ctx = f"({what}, {case['opt']}, {pr.kind}, density x {s}, length x {t})"
    if len(res2["fun"]) != len(res["fun"]):
        # only at a step which changes nothing any more
        return Info(False, "converged exactly")
    c, e = np.asarray(res["coeffs"])[idx], np.asarray(res["exps"])[idx]
    k = case["k"]
    close("coefficients", np.asarray(res2["coeffs"]), (c * cscale).astype(LD),
          1e-7 * np.abs(c * cscale) + 1e-8 * cscale * np.abs(c).max(), ctx)
    close("exponents", np.asarray(res2["exps"]), (e / t ** 2).astype(LD), 1e-6 * e / t ** 2, ctx)
    return Info(pr.m > 1, what, case["opt"], pr.kind, pr.spec["grid"]["g"], f"k{k // 4}")


# ------------------------------------------------------------------ C17: report of the FPI run
def report_case():
    s = st()
    return s.fixed_dictionaries({
        "p": problem_spec(max_n=40, units=True), "opt": s.sampled_from(["both", "coeffs", "expons"]),
        "maxiter": s.integers(1, 40), "ct": logfl(1e-8, 1e1), "et": logfl(1e-8, 1e1), "dt": logfl(1e-10, 1e-1),
        "disp": s.booleans(), "mask": s.sampled_from([0.0, 0.0, 1e-12]), "probe": fl(0, 1),
    })


def quiet():
    return contextlib.redirect_stdout(io.StringIO())


def check_report(case):
    from bfit import KLDivergenceFPI
    pr = Problem(case["p"])
    if not pr.intf > 0:
        return Info(False, "no density")
    o = opts(case["opt"])
    th = dict(c_threshold=case["ct"], e_threshold=case["et"], d_threshold=case["dt"])
    f = pr.f.copy()
    fit = KLDivergenceFPI(pr.grid, f, pr.model, mask_value=case["mask"], integral_dens=pr.N,
                          spherical=pr.spherical)
    c0, e0 = pr.c0.copy(), pr.e0.copy()
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        res = fit.run(c0, e0, maxiter=case["maxiter"], disp=case["disp"], **th, **o)
    require(bool(out.getvalue()) == case["disp"], "display does not follow the argument disp")
    for k in ("coeffs", "exps", "fun", "success", "performance", "time"):
        require(k in res, lambda: f"result without {k}")
    n = len(res["fun"])
    require(1 <= n <= case["maxiter"], lambda: f"{n} iterations, at most {case['maxiter']}")
    perf = np.asarray(res["performance"])
    require(perf.shape == (n, 5), lambda: f"performance {perf.shape} of {n} iterations")
    c, e = np.asarray(res["coeffs"]), np.asarray(res["exps"])
    if not (np.all(np.isfinite(c)) and np.all(np.isfinite(e))):
        require(not bool(res["success"]), lambda: f"success with parameters that are not finite: {c} {e}")
        return Info(False, "not finite")
    fun = np.asarray(res["fun"]).astype(LD)
    require(np.array_equal(fun, perf[:, 4].astype(LD), equal_nan=True), lambda: f"objective history {fun}, measures {perf[:, 4]}")
    if not np.all(np.isfinite(perf.astype(LD))):
        return Info(False, "measures not finite")
    pr.check_performance(perf[-1].astype(float), c, e, case["mask"], "of the last iteration")
    close("initial coefficients after", c0, pr.c0, 0)
    close("initial exponents after", e0, pr.e0, 0)
    close("density after", f, pr.f, 0)

    def again(k, thr=None, disp=False):
        with quiet():
            return fit.run(c0, e0, maxiter=k, disp=disp, **(thr or no_stop()), **o)
    # the display has no effect, and the method has no memory
    res2 = again(case["maxiter"], th, disp=not case["disp"])
    close("coefficients of a second run", np.asarray(res2["coeffs"]), c.astype(LD), 0)
    close("exponents of a second run", np.asarray(res2["exps"]), e.astype(LD), 0)
    close("objective of a second run", np.asarray(res2["fun"]), np.asarray(res["fun"]).astype(LD), 0)
    require(bool(res2["success"]) == bool(res["success"]), "success of a second run")
    # an earlier iteration is what the shorter run returns
    k = max(1, int(round(case["probe"] * n)))
    resk = again(k)
    if len(resk["fun"]) == k:
        close("history of a shorter run", np.asarray(resk["fun"]), np.asarray(res["fun"])[:k].astype(LD), 0)
        pr.check_performance(perf[k - 1].astype(float), np.asarray(resk["coeffs"]), np.asarray(resk["exps"]),
                             case["mask"], f"of iteration {k}")

    def stops(k):
        """The documented stopping rule after k iterations: (definitely stop, definitely go on)."""
        b = again(k)
        a = (c0, e0) if k == 1 else (lambda r: (r["coeffs"], r["exps"]))(again(k - 1))
        dc, de = np.max(np.abs(b["coeffs"] - a[0])), np.max(np.abs(b["exps"] - a[1]))
        dd = np.inf if k == 1 else abs(LD(res["fun"][k - 1]) - LD(res["fun"][k - 2]))
        par = dc <= th["c_threshold"] and de <= th["e_threshold"]
        return par or dd <= th["d_threshold"], dd, par
    st_, dd, par = stops(n)
    if n < case["maxiter"]:
        require(st_, lambda: f"stopped after {n} of {case['maxiter']} iterations, but no threshold is met")
        require(bool(res["success"]), "not successful although stopped by a threshold")
    elif dd > th["d_threshold"] and not par:
        require(not bool(res["success"]), lambda: f"successful although not converged in {n} iterations")
    elif dd <= th["d_threshold"]:
        require(bool(res["success"]), "not successful although the objective converged")
    if n > 1:
        prev = stops(n - 1)
        require(not prev[0], lambda: f"went on after iteration {n - 1} met the thresholds")
    return Info(n > 1, case["opt"], "stopped early" if n < case["maxiter"] else "maxiter",
                "success" if res["success"] else "no success", pr.kind, "disp" if case["disp"] else "")


def reject_case():
    s = st()
    return s.fixed_dictionaries({
        "p": problem_spec(max_n=20), "which": s.integers(0, 8), "d": s.integers(1, 3),
    })


def check_reject(case):
    from bfit import KLDivergenceFPI
    pr = Problem(case["p"])
    if not pr.intf > 0:
        return Info(False)
    fit = KLDivergenceFPI(pr.grid, pr.f, pr.model, spherical=pr.spherical)
    c, e, m, d = pr.c0, pr.e0, pr.m, case["d"]
    k = case["which"]
    if k == 0:
        bad, exc = (lambda: fit.run(list(c), e)), TypeError
    elif k == 1:
        bad, exc = (lambda: fit.run(c, tuple(e))), TypeError
    elif k == 2:
        bad, exc = (lambda: fit.run(np.append(c, np.ones(d)), e)), ValueError
    elif k == 3:
        bad, exc = (lambda: fit.run(c, np.append(e, np.ones(d)))), ValueError
    elif k == 4:
        bad, exc = (lambda: fit.run(c[:, None], e)), ValueError
    elif k == 5:
        bad, exc = (lambda: fit.run(c, e, opt_coeffs=False, opt_expons=False)), ValueError
    elif k == 6:
        neg = np.array(pr.f, float)
        neg[-d % len(neg)] = -1e-3
        bad, exc = (lambda: KLDivergenceFPI(pr.grid, neg, pr.model)), ValueError
    elif k == 7:
        bad, exc = (lambda: KLDivergenceFPI(pr.grid, pr.f * 0, pr.model, integral_dens=1.0)), RuntimeError
    else:
        if pr.pts.ndim == 1:
            return Info(False)
        bad, exc = (lambda: KLDivergenceFPI(pr.grid, pr.f, pr.model, spherical=True)), ValueError
    try:
        bad()
    except exc:
        pass
    else:
        raise Violation(f"invalid input {k} accepted")
    ok = fit.run(c, e, maxiter=1)
    require(len(ok["fun"]) == 1, "run after a rejected call")
    return Info(True, f"reject{k}")


# ------------------------------------------------------------------ C18: fixed points
def fixed_case():
    s = st()
    return s.fixed_dictionaries({
        "ns_np": s.tuples(s.integers(1, 4), s.integers(0, 3)).map(list),
        "elo": s.one_of(logfl(1e-2, 1e2), logfl(1e-6, 1e8)), "ratio": logfl(1.0, 100.0), "span": gen.arr(1, 8, 0.0, 1.0),
        "c": gen.arr(1, 8, 1e-2, 50.0, log=True), "mode": s.sampled_from(["fixed", "single"]),
        "c1": logfl(1e-2, 1e2), "e1": fl(0.3, 1.8), "p_type": s.booleans(), "opt": s.sampled_from(["both", "coeffs", "expons"]),
        "cubic": s.booleans(), "seed": seeds(), "dtype": s.sampled_from(["float64", "longdouble"]),
    })


def check_fixed(case):
    from bfit import AtomicGaussianDensity, CubicGrid, KLDivergenceFPI, UniformRadialGrid
    ns, np_ = case["ns_np"]
    single = case["mode"] == "single"
    if single:
        ns, np_ = (0, 1) if case["p_type"] else (1, 0)
    m = ns + np_
    cubic = case["cubic"]
    ratio = min(case["ratio"], 1.5) if cubic else case["ratio"]
    e = case["elo"] * ratio ** gen.fit_len(case["span"], m)
    c = gen.fit_len(case["c"], m)
    if cubic:
        h, top = 0.5 / np.sqrt(e.max()), 6.5 / np.sqrt(e.min())
        n = int(2 * top / h) + 3
        axes = h * np.eye(3)
        sh = np.random.default_rng(case["seed"]).uniform(-0.5, 0.5, 3) * h
        grid = CubicGrid(-0.5 * (n - 1) * axes.sum(axis=0) + sh, axes, (n, n, n))
    else:
        h, top = 0.33 / np.sqrt(e.max()), 9.0 / np.sqrt(e.min())
        grid = UniformRadialGrid(int(top / h) + 2, 0.0, float(top), dtype=np.dtype(case["dtype"]).type)
    mod = AtomicGaussianDensity(grid.points, num_s=ns, num_p=np_, normalize=True)
    f = mod.evaluate(c, e)
    fit = KLDivergenceFPI(grid, np.asarray(f), mod, spherical=not cubic)
    o = opts(case["opt"])
    if single:
        # one function reaches the true parameters in one step, from any start
        c0, e0 = np.array([case["c1"]]), e * case["e1"]
        res = fit.run(c0, e0, maxiter=1, **opts("both"))
    else:
        res = fit.run(c.copy(), e.copy(), maxiter=3, **no_stop(), **o)
    close("coefficients", np.asarray(res["coeffs"]), c.astype(LD), 1e-6 * c + 1e-8 * c.max(), f"({case['mode']})")
    close("exponents", np.asarray(res["exps"]), e.astype(LD), 1e-6 * e, f"({case['mode']})")
    require(abs(float(res["fun"][-1])) <= 1e-7 * c.sum(), lambda: f"objective {res['fun'][-1]} at the true parameters")
    return Info(True, case["mode"], "cubic" if cubic else "radial", case["opt"])


# ------------------------------------------------------------------ C19: objective of ScipyFit
def objective_case():
    s = st()
    return s.fixed_dictionaries({
        "p": problem_spec(with_s=False, zeros=True, max_n=40, emax=20.0, units=True),
        "measure": s.sampled_from(["ls", "kl", "tsallis"]), "alpha": s.sampled_from([1.001, 1.5, 0.7, 2.0]),
        "weights": s.one_of(s.none(), gen.arr(1, 60, 0.0, 5.0), gen.arr(1, 60, 1e-6, 1e6, log=True),
                              gen.arr(1, 60, 0.1, 5.0, signed=True)), "fixed": s.sampled_from(["none", "coeffs", "expons"]),
        "method": s.sampled_from(["slsqp", "SLSQP", "trust-constr", "Trust-Constr"]), "neg": s.sampled_from([False, False, True]),
        "evals": s.integers(1, 3), "vary": s.sampled_from(["ce", "ce", "c", "e", ""]), "cross": s.booleans(), "cast": gen.casts(),
    })


def make_measure(case):
    from bfit import KLDivergence, SquaredDifference, TsallisDivergence
    if case["measure"] == "ls":
        return SquaredDifference()
    if case["measure"] == "kl":
        return KLDivergence(mask_value=0.0)
    if case["measure"] == "tsallis":
        return TsallisDivergence(alpha=case["alpha"], mask_value=0.0)
    return own_measure(case["measure"])


def own_measure(name):
    """A user's own measure: a child of the abstract base class."""
    from bfit.measure import Measure

    class Own(Measure):
        def evaluate(self, density, model, deriv=False):
            v, dv = own_terms(name, density, model)
            return (v, dv) if deriv else v
    return Own()


def own_terms(name, f, g):
    d = g - f
    if name == "quartic":
        return d ** 4, 4 * d ** 3
    if name == "chi2":
        return d ** 2 / (f + 0.01), 2 * d / (f + 0.01)
    return np.sqrt(1 + d ** 2) - 1, d / np.sqrt(1 + d ** 2)      # "huber"


def measure_reference(case, f, g, gtol):
    """Value, derivative, bounds of their errors for a model with an error of gtol."""
    f = f.astype(LD)
    if case["measure"] in ("quartic", "chi2", "huber"):
        v, dv = own_terms(case["measure"], f, g)
        e0 = gtol + 4 * EPS * (np.abs(f) + np.abs(g))
        d = np.abs(g - f) + e0
        if case["measure"] == "quartic":
            return v, dv, 4 * d ** 3 * e0 + 20 * EPS * d ** 4, 12 * d ** 2 * e0 + 20 * EPS * np.abs(dv)
        if case["measure"] == "chi2":
            q = f + 0.01
            return v, dv, (2 * d * e0 + 20 * EPS * d ** 2) / q, (2 * e0 + 20 * EPS * d) / q
        return v, dv, e0 + 20 * EPS * (1 + d), e0 + 20 * EPS
    if case["measure"] == "ls":
        d = f - g
        e0 = gtol + 2 * EPS * (np.abs(f) + np.abs(g))
        return d * d, -2 * d, 4 * EPS * d * d + 2 * np.abs(d) * e0 + e0 ** 2, 2 * e0
    rel = np.where(g > 0, gtol / np.where(g > 0, g, 1), LD(0))
    if case["measure"] == "kl":
        v, dv = ref.kl_terms(f, g, 0.0)
        return v, dv, 40 * EPS * (np.abs(v) + f) + f * rel, np.abs(dv) * (rel + 10 * EPS)
    al = case["alpha"]
    v, dv, pw, safe = ref.tsallis_terms(f, g, al, 0.0)
    cond = 4 + np.abs((al - 1) * np.log(safe)) + al
    return (v, dv, 20 * EPS * f * (pw * cond + 1) / abs(al - 1) + f * pw * rel * 2,
            np.abs(dv) * ((rel + 20 * EPS) * al * (cond + np.abs(np.log(safe)))))


def check_objective(case):
    from bfit import ScipyFit
    pr = Problem(case["p"])
    f = pr.f.copy()
    meas = make_measure(case)
    W = None if case["weights"] is None else gen.fit_len(case["weights"], len(f))
    fit = ScipyFit(pr.grid, f, pr.model, measure=meas, method=case["method"], weights=W,
                   integral_dens=pr.N, spherical=pr.spherical)
    Wr = np.ones(len(f)) if W is None else W
    nt = False
    for k in range(case["evals"]):
        # the evaluations of one fitting object share some of the parameters
        vary = case.get("vary", "ce")
        c = pr.c0 * (1 + 0.37 * k * ("c" in vary))
        e = pr.e0 * (1 + 0.11 * k * ("e" in vary))
        if case["neg"] and case["measure"] == "ls":
            c[::2] *= -1
        ca, ea = gen.cast(case.get("cast"), c, e)
        c, e = np.array(ca, float), np.array(ea, float)
        # ... and need not fix the same
        fixed = case["fixed"]
        if case.get("cross") and k:
            names = ["none", "coeffs", "expons"]
            fixed = names[(names.index(fixed) + k) % 3]
        g, gtol, dg, dtol = pr.value(c, e)
        if case["measure"] != "ls" and not (g.min() > 1e-250):
            zero = g <= 1e-250
            if np.any(zero & (g > 0)) or np.any(zero & (pr.f > 0)):
                return Info(False, "underflow")
        if fixed == "coeffs":
            x, args, cols = ea, ("fixed_coeffs", ca), slice(pr.m, 2 * pr.m)
        elif fixed == "expons":
            x, args, cols = ca, ("fixed_expons", ea), slice(0, pr.m)
        else:
            x, args, cols = np.concatenate((ca, ea)), (), slice(0, 2 * pr.m)
        obj, grad = fit.func(x, *args)
        cons = fit.const_norm(x, *args)
        mv, mdv = fit.evaluate_model(x, *args)
        v, dv, vt, dvt = measure_reference(case, pr.f, g, gtol)
        n = len(f)
        E = (n + 50) * EPS
        w, aw = pr.w * Wr, np.abs(pr.w * Wr)
        if not float(((aw + 1) * (1 + np.abs(dv) + np.abs(v))).sum() * (1 + np.abs(dg).max()) * n) < 1e290:
            return Info(False, "overflow")
        close("objective", obj, (w * v).sum(), float((aw * (np.abs(v) * E + vt)).sum()) * 2 + 1e-280,
              f"({case['measure']}, fixed {fixed})")
        want = (w[:, None] * dv[:, None] * dg[:, cols]).sum(axis=0)
        tol = (aw[:, None] * (np.abs(dv[:, None] * dg[:, cols]) * E + np.abs(dv)[:, None] * dtol[:, cols]
                             + dvt[:, None] * (np.abs(dg[:, cols]) + dtol[:, cols]))).sum(axis=0)
        close("gradient", grad, want, tol.astype(float) * 4 + 1e-280, f"({case['measure']}, fixed {fixed})")
        close("deviation from the constraint", cons, pr.Nval - (pr.w * g).sum(),
              float((np.abs(pr.w) * (np.abs(g) * E + gtol)).sum()) * 2 + 1e-13 * float(abs(pr.Nval) + pr.absf) + 1e-280)
        close("model of the objective", mv, g, gtol * 2)
        close("derivative of the model", mdv, dg[:, cols], dtol[:, cols] * 2)
        nt = nt or bool(np.any(want != 0))
    close("density after", f, pr.f, 0)
    return Info(nt and pr.m > 1, case["measure"], "fixed " + case["fixed"], pr.kind,
                "weights" if W is not None else "", "spherical" if pr.spherical else "")


# ------------------------------------------------------------------ C20: run of ScipyFit
def run_case(method):
    def make():
        s = st()
        return s.fixed_dictionaries({
            "p": problem_spec(max_n=40, max_basis=3, emax=3.0, densities=["gauss", "slater", "powers"], units=True),
            "measure": s.sampled_from(["ls", "kl", "tsallis", "default"]), "alpha": s.sampled_from([1.1, 1.5, 2.0]),
            "opt": s.sampled_from(["both", "coeffs", "expons"]), "cons": s.booleans(),
            "maxiter": s.sampled_from([1, 3, 20, 60] if method == "trust-constr" else [1, 5, 50, 300]),
            "tol": s.sampled_from([1e-14, 1e-10, 1e-7]), "method": s.just(method), "disp": s.booleans(),
            "low": s.booleans(), "spelled": s.sampled_from(["lower", "lower", "upper", "title", "swapcase"]),
        })
    return make


def check_run(case):
    from bfit import KLDivergence, ScipyFit
    p = case["p"]
    if p["grid"]["g"] == "clenshaw":
        p = dict(p, e=[min(x, 0.8) for x in A(p["e"])])
    pr = Problem(p)
    if not pr.intf > 0:
        return Info(False, "no density")
    f = pr.f.copy()
    o = opts(case["opt"])
    kw = {} if case["measure"] == "default" else {"measure": make_measure(case)}
    if case["measure"] == "kl":
        kw = {"measure": KLDivergence(mask_value=1e-18)}
    name = getattr(case["method"], case.get("spelled", "lower"))()
    fit = ScipyFit(pr.grid, f, pr.model, method=name, integral_dens=pr.N, spherical=pr.spherical, **kw)
    require(fit.method == case["method"], lambda: f"method {name} is taken to be {fit.method}")
    c0, e0 = pr.c0.copy(), pr.e0.copy()
    if case["low"]:
        # a negative coefficient is valid as long as it is kept fixed
        c0[0] = -0.3 * c0[-1] if case["opt"] == "expons" and case["measure"] == "ls" and pr.m > 1 else 0.0
    func, grads, seen = fit.func, [], []

    def spy(*a, **k):
        seen.append(np.array(a[0], dtype=float))
        ret = func(*a, **k)
        grads.append(np.array(ret[1], dtype=float))
        return ret
    fit.func = spy
    kc = c0.copy()
    out = io.StringIO()
    with warnings.catch_warnings(record=True) as rec, contextlib.redirect_stdout(out):
        warnings.simplefilter("always")
        try:
            res = fit.run(c0, e0, maxiter=case["maxiter"], tol=case["tol"], with_constraint=case["cons"],
                          disp=case["disp"], **o)
        except ValueError as ex:
            # the linear algebra of scipy after an overflow of the objective function
            if "infs or NaNs" in str(ex) and any(not np.all(np.abs(x) < 1e100) for x in grads):
                return Info(False, "overflow")
            raise
    x0 = np.concatenate(([c0] if o["opt_coeffs"] else []) + ([e0] if o["opt_expons"] else []))
    require(not seen or any(x.shape == x0.shape and bool(np.all(np.abs(x - x0) <= 1e-9 * (1 + np.abs(x0)))) for x in seen),
            lambda: f"the initial guess {x0} is not among the evaluations")
    require(bool(out.getvalue()) == case["disp"], "display does not follow the argument disp")
    failed = [w for w in rec if "Failed Optimization" in str(w.message)]
    require(bool(failed) == (not res["success"]), "warning does not agree with the success")
    for k in ("coeffs", "exps", "fun", "success", "message", "jacobian", "performance", "time"):
        require(k in res, lambda: f"result without {k}")
    close("initial coefficients after", c0, kc, 0)
    close("initial exponents after", e0, pr.e0, 0)
    close("density after", f, pr.f, 0)
    c, e = np.asarray(res["coeffs"]), np.asarray(res["exps"])
    require(c.shape == (pr.m,) and e.shape == (pr.m,), lambda: f"shapes {c.shape} {e.shape}")
    if not o["opt_coeffs"]:
        close("frozen coefficients", c, kc, 0)
    if not o["opt_expons"]:
        close("frozen exponents", e, pr.e0, 0)
    if not (np.all(np.isfinite(c)) and np.all(np.isfinite(e))):
        require(not res["success"], "success with parameters that are not finite")
        return Info(False, "not finite")
    lo = 1e-12 * (1 - 1e-9)
    require((not o["opt_coeffs"] or bool(np.all(c >= lo))) and (not o["opt_expons"] or bool(np.all(e >= lo))),
            lambda: f"parameters below the bounds: {c} {e}")
    pr.check_performance(np.asarray(res["performance"]).astype(float), c, e, 1e-18, "of the returned parameters")
    # objective and gradient belong to the returned parameters
    if o["opt_coeffs"] and o["opt_expons"]:
        x, args = np.concatenate((c, e)), ()
    elif o["opt_coeffs"]:
        x, args = c, ("fixed_expons", e)
    else:
        x, args = e, ("fixed_coeffs", c)
    fit.func = func
    obj, grad = fit.func(x, *args)
    obj, grad = float(obj), np.asarray(grad).astype(float)
    if np.isfinite(obj) and np.all(np.isfinite(grad)):
        close("objective of the returned parameters", float(res["fun"]), LD(obj), 1e-10 * (abs(obj) + float(pr.intf)) + 1e-280)
        jac = res["jacobian"]
        require(isinstance(jac, np.ndarray) and jac.shape == x.shape, lambda: f"jacobian {type(jac)} of {x.shape}")
        if case["method"] == "trust-constr":
            close("jacobian of the returned parameters", jac, grad.astype(LD),
                  1e-7 * (np.abs(grad).max() + 1e-12), case["method"])
        else:
            # slsqp of scipy returns its last gradient, which may be that of the iterate before
            known = [grad] + [x for x in grads if x.shape == jac.shape]
            require(len(grads) == 0 or any(np.allclose(x, jac, rtol=1e-9, atol=1e-14 * np.abs(x).max()) for x in known),
                    lambda: f"jacobian {jac} is not a gradient of the objective, last {known[-1]}")
    norm_err = abs(float(pr.Nval) - float(pr.integral(pr.value(c, e)[0])))
    if res["success"] and case["cons"] and case["method"] == "slsqp":
        require(norm_err <= 1e-6 * (1 + float(pr.Nval)),
                lambda: f"successful, but the integral is off by {norm_err} of {float(pr.Nval)}")
    # reproducible, without memory, whatever is displayed
    with warnings.catch_warnings(), quiet():
        warnings.simplefilter("ignore")
        res2 = fit.run(c0, e0, maxiter=case["maxiter"], tol=case["tol"], with_constraint=case["cons"],
                       disp=not case["disp"], **o)
    close("coefficients of a second run", np.asarray(res2["coeffs"]), c.astype(LD), 0)
    close("exponents of a second run", np.asarray(res2["exps"]), e.astype(LD), 0)
    return Info(case["maxiter"] > 1 and pr.m > 1, case["method"], case["measure"], case["opt"],
                "constraint" if case["cons"] else "", "success" if res["success"] else "no success", pr.kind)


def lone_case():
    s = st()
    return s.fixed_dictionaries({
        "p": problem_spec(max_n=60, max_basis=1, emax=1.0, densities=["gauss", "slater", "powers"], mol=False, int_dens=False),
        "N": logfl(0.03, 30.0), "start": logfl(0.2, 5.0), "method": s.sampled_from(["trust-constr", "trust-constr", "slsqp"]),
        "measure": s.sampled_from(["ls", "ls", "kl"]), "e1": logfl(0.2, 1.0),
        "decades": s.tuples(s.integers(-6, 3), s.integers(-7, 7)).map(list),
    })


def check_lone(case):
    """The constraint alone determines the coefficient of a single function."""
    from bfit import KLDivergence, ScipyFit
    p = dict(case["p"], N=None, basis=[[1, 0]] + list(case["p"]["basis"][1:]))
    p["dens"] = dict(p["dens"], scale=1.0)
    pr = Problem(p)
    e = np.full(pr.m, case["e1"])
    if pr.m != 1 or not pr.intf > 0:
        return Info(False, "no density")
    f = pr.f / float(pr.intf)
    a = float((pr.w * pr.value(np.ones(1), e)[0]).sum())
    if not 1e-2 < a < 1e2 or pr.value(np.ones(1), e)[0].min() < 1e-200:
        return Info(False, "no weight")
    number, start = case["N"], case["start"]
    if case["method"] == "slsqp" and case["measure"] == "ls":      # of any magnitude, from a start of any other
        number, start = number * 10.0 ** case["decades"][0], start * 10.0 ** case["decades"][1]
    f = f * number / case["N"]
    want = number / a
    kw = {"measure": KLDivergence(mask_value=0.0)} if case["measure"] == "kl" else {"measure": make_measure(case)}
    fit = ScipyFit(pr.grid, f, pr.model, method=case["method"], integral_dens=number, spherical=pr.spherical, **kw)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        res = fit.run(np.array([want * start]), e, opt_expons=False, maxiter=300, tol=1e-10)
    if not res["success"]:
        return Info(False, "no success")
    close(f"the only coefficient, by {case['method']} and its constraint", np.asarray(res["coeffs"], float), np.array([want], LD), 1e-3 * want)
    return Info(True, case["method"], case["measure"], pr.spec["grid"]["g"])


# ------------------------------------------------------------------ C21: optimal coefficients
def optimal_case():
    s = st()
    return s.fixed_dictionaries({
        "p": problem_spec(max_n=60, max_basis=4, emax=2.0, densities=["gauss", "slater", "powers"], norm=True, mol=False),
        "measure": s.sampled_from(["ls", "kl", "tsallis"]), "alpha": s.sampled_from([1.1, 1.5, 2.0]),
        "cons": s.booleans(), "e1": logfl(0.1, 0.3), "step": fl(3.0, 6.0),
        "cs": gen.arr(1, 8, 0.1, 10.0, log=True), "number": s.one_of(s.just(1.0), s.just(1.0), logfl(1e-2, 1e5)),
        "start": s.one_of(s.just(1.0), s.just(1.0), logfl(1e-6, 1e2)),
    })


def solver_stops(case, pr, f, B, w, a, c0, cons, obj, tol):
    """Does scipy itself, given the documented problem, stop at no better a value?"""
    from scipy.optimize import minimize
    kind = pr.grid.points.dtype if pr.grid.points.dtype.kind == "f" else np.dtype(float)

    def target(x):
        g = B @ x
        v, dv, _, _ = measure_reference(case, f, g.astype(LD), g * 1e-15)
        wv = pr.w.astype(kind)
        return (wv * v.astype(kind)).sum(), ((wv * dv.astype(kind))[:, None] * B).sum(axis=0).astype(float)
    rule = [{"type": "eq", "fun": lambda x: float(pr.Nval) - float(a @ x)}] if cons else []
    for k in (0.0, 1e-9, -1e-9, 1e-6):
        with warnings.catch_warnings(), np.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            res = minimize(target, c0 * (1 + k), jac=True, method="slsqp", bounds=[(1e-12, np.inf)] * pr.m, constraints=rule,
                           options={"ftol": 1e-14, "maxiter": 300})
        if res["success"] and float(res["fun"]) >= obj - 0.25 * tol:
            return True
    return False


def check_optimal(case):
    from bfit import KLDivergence, ScipyFit
    from scipy.optimize import nnls
    p = dict(case["p"], N=None)
    p["dens"] = dict(p["dens"], scale=1.0)
    pr = Problem(p)
    cons = case["cons"] or case["measure"] != "ls"
    # separated exponents: a well-conditioned convex problem for the coefficients
    e = np.zeros(pr.m)
    ns = int(pr.basis[0, 0])
    e[:ns] = case["e1"] * case["step"] ** np.arange(ns)
    e[ns:] = case["e1"] * case["step"] ** np.arange(pr.m - ns)
    if not pr.intf > 0:
        return Info(False, "no density")
    # (SLSQP itself gives up early on badly scaled problems which are not quadratic)
    number = case.get("number", 1.0) if case["measure"] == "ls" else 1.0
    f = pr.f / float(pr.intf) * number          # one electron, or more
    pr.f, pr.intf, pr.Nval = f, LD(number), (pr.w * f).sum()
    B = pr.value(np.ones(pr.m), e)[2][:, :pr.m].astype(float)
    w = pr.w.astype(float)
    a = (w[:, None] * B).sum(axis=0)
    if a.min() < 1e-3 or not np.all(np.isfinite(B)):
        return Info(False, "no weight")
    kw = {"measure": KLDivergence(mask_value=0.0)} if case["measure"] == "kl" else {"measure": make_measure(case)}
    fit = ScipyFit(pr.grid, f, pr.model, spherical=pr.spherical, **kw)
    c0 = gen.fit_len(case["cs"], pr.m)
    c0 = c0 / c0.sum() * number * (case.get("start", 1.0) if case["measure"] == "ls" else 1.0)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        res = fit.run(c0, e, opt_coeffs=True, opt_expons=False, with_constraint=cons, maxiter=300, tol=1e-14)
    if not res["success"]:
        return Info(False, "no success")
    c = np.asarray(res["coeffs"], float)
    g = B @ c
    if g.min() <= 1e-250:
        return Info(False, "underflow")
    v, dv, _, _ = measure_reference(case, f, g.astype(LD), g * 1e-15)
    obj, grad = float((w * v).sum()), ((w * dv.astype(float))[:, None] * B).sum(axis=0)
    if cons:
        close("integral of the fitted model", float(a @ c), LD(pr.Nval), 1e-6 * max(1.0, number))
        # Frank-Wolfe certificate over {c >= 0, a c = N}: an upper bound of objective - minimum
        gap = float(grad @ c - (float(a @ c) * grad / a).min())
    else:
        sq = np.sqrt(w)
        best = nnls(sq[:, None] * B, sq * f, maxiter=500)[1] ** 2
        gap = obj - best
    scale = abs(obj) + float((w * np.abs(v)).sum()) + (number if case["measure"] != "ls" else float((w * f * f).sum()))
    if cons and gap > 2e-3 * scale:
        # the certificate may be loose: how much is gained on the way to the vertices of the simplex
        best = obj
        for i in range(pr.m):
            for t in np.concatenate((10.0 ** np.arange(-6, 0, 0.25), [1.0])):
                x = (1 - t) * c
                x[i] += t * float(a @ c) / a[i]
                gx = B @ x
                if gx.min() > 1e-280:
                    best = min(best, float((w * measure_reference(case, f, gx.astype(LD), gx * 1e-15)[0]).sum()))
        gap = min(gap, obj - best)
    if gap > 2e-3 * scale and solver_stops(case, pr, f, B, w, a, c0, cons, obj, 2e-3 * scale):
        return Info(False, "the solver stops early")
    require(gap <= 2e-3 * scale, lambda: f"not optimal: objective {obj}, gap {gap} of {scale} "
                                         f"({case['measure']}, constraint {cons})")
    return Info(pr.m > 1, case["measure"], "constraint" if cons else "free", pr.spec["grid"]["g"], "large" if number > 100 else "small" if number < 0.3 else "",
                f"gap<{10.0 ** np.ceil(np.log10(max(gap, 1e-16) / scale)):.0e}")


def rate_case():
    s = st()
    return s.fixed_dictionaries({
        "p": problem_spec(max_n=60, max_basis=5, emax=3.0, densities=["gauss", "slater", "powers"], norm=True),
        "k": s.integers(5, 150), "e1": logfl(0.1, 0.3), "step": fl(1.5, 6.0), "skewed": s.booleans(),
        "cs": gen.arr(1, 12, 1e-3, 10.0, log=True),
    })


def check_rate(case):
    """The fixed-point method for coefficients converges to the optimum with a known rate.

    For any coefficients c* with the same sum, objective after k steps - objective(c*) <= D(c* || c0) / k, where D is
    the Kullback-Leibler divergence of the coefficients (Cover 1984; Csiszar and Tusnady 1984).
    """
    from bfit import KLDivergenceFPI
    pr = Problem(dict(case["p"], N=None))
    if not pr.intf > 0:
        return Info(False, "no density")
    e = np.zeros(pr.m)
    at = 0
    for ns, np_ in pr.basis:
        for cnt in (int(ns), int(np_)):
            e[at:at + cnt] = case["e1"] * case["step"] ** np.arange(cnt)
            at += cnt
    B = pr.value(np.ones(pr.m), e)[2][:, :pr.m].astype(float)
    w, f, N = pr.w.astype(float), pr.f, float(pr.Nval)
    if not np.all(np.isfinite(B)) or np.any(np.sum(w[:, None] * B, axis=0) <= 0):
        return Info(False, "no weight")
    c0 = gen.fit_len(case["cs"], pr.m) if case["skewed"] else np.ones(pr.m)
    c0 = c0 / c0.sum() * N
    fit = KLDivergenceFPI(pr.grid, f, pr.model, spherical=pr.spherical)
    res = fit.run(c0, e, opt_expons=False, maxiter=case["k"], **no_stop())
    k = len(res["fun"])
    c = np.asarray(res["coeffs"]).astype(float)
    on = (f > 0) & (w > 0)

    def obj(x):
        g = B @ x
        if np.any(g[on] <= 1e-280):
            return np.inf
        return float((w[on] * f[on] * np.log(f[on] / g[on])).sum())

    # a better point from a long run of the reference iteration
    best = c0.copy()
    for _ in range(1500):
        g = B @ best
        if np.any(g[on] <= 1e-280):
            return Info(False, "underflow")
        best = best * (B[on] * (w[on] * f[on] / g[on])[:, None]).sum(axis=0) / N * N / float(pr.intf)
        best = best * (N / best.sum())
    mine, other = obj(c), obj(best)
    pos = best > 0
    bound = float((best[pos] * np.log(best[pos] / c0[pos])).sum()) * float(pr.intf) / N / k
    mag = float((w * f).sum()) * 30
    require(mine - other <= bound + 1e-10 * mag,
            lambda: f"objective {mine} after {k} iterations, {other} is possible, the bound of the difference is {bound}")
    # the objective at the optimum of a long run agrees
    return Info(pr.m > 1 and mine < obj(c0) - 1e-8 * mag, pr.kind, pr.spec["grid"]["g"], f"k{k // 30 * 30}")


PROPS = {
    "C13": {"subs": lambda: [
        Sub("goodness", goodness_case, check_goodness, 4000, "non-trivial: more than one basis function")]},
    "C14": {"subs": lambda: [
        Sub("steps", step_case, check_step, 3000, "non-trivial: more than one basis function, no underflow"),
        Sub("late_steps", late_case, check_late, 400, "non-trivial: more than one basis function, no underflow")]},
    "C15": {"subs": lambda: [
        Sub("descent", mono_case, check_mono, 2500,
            "non-trivial: more than one basis function and the objective really decreases")]},
    "C16": {"subs": lambda: [
        Sub("equivariance", equi_case, check_equi, 2000, "non-trivial: more than one basis function")]},
    "C17": {"subs": lambda: [
        Sub("report", report_case, check_report, 1500, "non-trivial: more than one iteration"),
        Sub("reject", reject_case, check_reject, 800, "non-trivial: an invalid input was tried")]},
    "C18": {"subs": lambda: [
        Sub("fixed_point", fixed_case, check_fixed, 600, "every case is non-trivial")]},
    "C19": {"subs": lambda: [
        Sub("objective", objective_case, check_objective, 3000,
            "non-trivial: more than one function and a gradient that is not zero")]},
    "C20": {"subs": lambda: [
        Sub("slsqp", run_case("slsqp"), check_run, 1400, "non-trivial: several iterations and functions"),
        Sub("trust_constr", run_case("trust-constr"), check_run, 160,
            "non-trivial: several iterations and functions", thorough=10),
        Sub("lone", lone_case, check_lone, 300, "every case with success is non-trivial")]},
    "C21": {"subs": lambda: [
        Sub("optimal", optimal_case, check_optimal, 900, "non-trivial: more than one basis function"),
        Sub("rate", rate_case, check_rate, 900, "non-trivial: more than one basis function and a real improvement")]},
}
