"""Across parts: invalid arguments, shared state between objects, end-to-end fits of atoms."""
import contextlib
import copy
import io
import os
import sys
import threading
import warnings

import numpy as np

import gen
import p_fit
import ref
from core import Info, Sub, Violation, require
from gen import A, fl, logfl, seeds
from ref import LD, close


def st():
    from hypothesis import strategies
    return strategies


# ------------------------------------------------------------------ C30: invalid arguments
def invalid_case():
    s = st()
    return s.fixed_dictionaries({
        "what": s.sampled_from(["model", "molecule", "evaluate", "mol_evaluate", "change", "uniform", "clenshaw", "integrate",
                                "measure", "tsallis", "scipy", "greedy", "slater_points"]),
        "k": s.integers(0, 20), "n": s.integers(2, 30), "d": s.integers(1, 4), "dim": s.sampled_from([0, 2, 3]),
        "ns": s.integers(1, 4), "np": s.integers(0, 4), "x": logfl(1e-9, 1e3), "seed": seeds(),
        "junk": s.sampled_from([None, "a", 1.5, [1, 2], "list", "tuple"]), "i": s.integers(0, 29),
        "norm": s.booleans(), "radial": s.booleans(),
    })


def invalid_calls(case):
    """List of (name, invalid call, expected exceptions, similar valid call)."""
    import bfit
    from bfit import (AtomicGaussianDensity, ClenshawRadialGrid, CubicGrid, KLDivergence, MolecularGaussianDensity, ScipyFit,
                      SquaredDifference, TsallisDivergence, UniformRadialGrid)
    n, d, ns, np_, x, i = case["n"], case["d"], case["ns"], case["np"], case["x"], case["i"]
    rng = np.random.default_rng(case["seed"])
    pts = rng.uniform(0.1, 3, n) if case["dim"] == 0 else rng.uniform(-2, 2, (n, case["dim"]))
    cols = max(1, case["dim"])
    TE, VE = TypeError, ValueError
    w = case["what"]
    m = ns + np_
    c, e = rng.uniform(0.1, 2, m), rng.uniform(0.1, 2, m)
    model = AtomicGaussianDensity(pts, num_s=ns, num_p=np_, normalize=case["norm"])
    if w == "model":
        mk = AtomicGaussianDensity
        ok = lambda: mk(pts, rng.uniform(-1, 1, cols), ns, np_)
        return [
            ("points which are a list", lambda: mk(pts.tolist()), TE, ok),
            ("points which are a tuple", lambda: mk(tuple(pts.ravel())), TE, ok),
            ("negative num_s", lambda: mk(pts, num_s=-d, num_p=np_ + 1), TE, ok),
            ("negative num_p", lambda: mk(pts, num_s=ns, num_p=-d), TE, ok),
            ("num_s a float", lambda: mk(pts, num_s=float(ns)), TE, ok),
            ("num_p a float", lambda: mk(pts, num_s=ns, num_p=float(np_)), TE, ok),
            ("num_s a string", lambda: mk(pts, num_s=str(ns)), TE, ok),
            ("no functions", lambda: mk(pts, num_s=0, num_p=0), VE, ok),
            ("center a list", lambda: mk(pts, [0.0] * cols), VE, ok),
            ("center with two axes", lambda: mk(pts, np.zeros((1, cols))), VE, ok),
            ("center of the wrong length", lambda: mk(pts, np.zeros(cols + d)), VE, ok),
            ("center with one element per point", lambda: mk(pts[:cols + d], np.zeros(cols + d)), VE, ok),
            ("center with one element", lambda: mk(pts, np.zeros(1)) if cols > 1 else mk(pts, 0.0), VE, ok),
            ("center without elements", lambda: mk(pts, np.zeros(0)), VE, ok),
        ]
    if w == "molecule":
        if case["dim"] == 0:
            return []
        mk = MolecularGaussianDensity
        xyz = rng.uniform(-1, 1, (d, cols))
        basis = np.tile([ns, np_], (d, 1))
        ok = lambda: mk(pts, xyz, basis)
        return [
            ("coordinates a list", lambda: mk(pts, xyz.tolist(), basis), VE, ok),
            ("coordinates with one axis", lambda: mk(pts, xyz[0], basis), VE, ok),
            ("basis with one axis", lambda: mk(pts, xyz, basis[0]), VE, ok),
            ("basis with three columns", lambda: mk(pts, xyz, np.ones((d, 3), int)), VE, ok),
            ("basis with one column", lambda: mk(pts, xyz, np.ones((d, 1), int)), VE, ok),
            ("more atoms than bases", lambda: mk(pts, np.vstack((xyz, xyz)), basis), VE, ok),
            ("more bases than atoms", lambda: mk(pts, xyz, np.vstack((basis, basis))), VE, ok),
            ("coordinates of another dimension", lambda: mk(pts, np.zeros((d, cols + 1)), basis), VE, ok),
        ]
    if w in ("evaluate", "mol_evaluate"):
        obj = model
        if w == "mol_evaluate":
            obj = MolecularGaussianDensity(pts, np.zeros((1, cols)), np.array([[ns, np_]]), normalize=case["norm"])
        ok = lambda: obj.evaluate(c, e)
        more = np.append(c, np.ones(d))
        return [
            ("too many coefficients", lambda: obj.evaluate(more, e), VE, ok),
            ("too many exponents", lambda: obj.evaluate(c, more), VE, ok),
            ("too many parameters", lambda: obj.evaluate(more, more, deriv=True), VE, ok),
            ("too few parameters", lambda: obj.evaluate(c[:-1], e[:-1]), VE, ok),
            ("one exponent for all functions", lambda: obj.evaluate(c, e[:1] if m > 1 else e[:0]), VE, ok),
            ("one coefficient for all functions", lambda: obj.evaluate(c[:1] if m > 1 else c[:0], e), VE, ok),
            ("coefficients with two axes", lambda: obj.evaluate(c[:, None], e), VE, ok),
            ("exponents with two axes", lambda: obj.evaluate(c, e[None, :]), VE, ok),
        ]
    if w == "change":
        ok = lambda: model.change_numb_s_and_numb_p(ns, np_)
        return [
            ("num_s a float", lambda: model.change_numb_s_and_numb_p(float(ns), np_), TE, ok),
            ("num_p a float", lambda: model.change_numb_s_and_numb_p(ns, float(np_)), TE, ok),
            ("num_p None", lambda: model.change_numb_s_and_numb_p(ns, None), TE, ok),
        ]
    if w == "uniform":
        mk = UniformRadialGrid
        ok = lambda: mk(n, x, x + d)
        return [
            ("no points", lambda: mk(0), TE, ok), ("negative size", lambda: mk(-n), TE, ok),
            ("size a float", lambda: mk(float(n)), TE, ok), ("size a string", lambda: mk(str(n)), TE, ok),
            ("min_radii a string", lambda: mk(n, str(x), x + d), TE, ok),
            ("max_radii a string", lambda: mk(n, x, str(x + d)), TE, ok),
            ("min_radii None", lambda: mk(n, None, x), TE, ok),
            ("min_radii an array", lambda: mk(n, np.array([x]), x + d), TE, ok),
            ("max_radii an array", lambda: mk(n, x, np.array([x + d])), TE, ok),
            ("empty interval", lambda: mk(n, x, x), VE, ok), ("reversed interval", lambda: mk(n, x + d, x), VE, ok),
        ]
    if w == "clenshaw":
        mk = ClenshawRadialGrid
        ok = lambda: mk(d, n, ns, [x], include_origin=case["norm"])
        return [
            ("atomic number zero", lambda: mk(0, n, n), TE, ok), ("negative atomic number", lambda: mk(-d, n, n), TE, ok),
            ("atomic number a float", lambda: mk(float(d), n, n), TE, ok),
            ("negative core", lambda: mk(d, -n, n), TE, ok), ("core a float", lambda: mk(d, float(n), n), TE, ok),
            ("negative diffuse", lambda: mk(d, n, -n), TE, ok), ("diffuse a float", lambda: mk(d, n, float(n)), TE, ok),
            ("include_origin an integer", lambda: mk(d, n, n, include_origin=1), TE, ok),
            ("include_origin None", lambda: mk(d, n, n, include_origin=None), TE, ok),
            ("extra points a number", lambda: mk(d, n, n, extra_pts=x), TE, ok),
            ("extra points a string", lambda: mk(d, n, n, extra_pts="1.0"), TE, ok),
        ]
    if w == "integrate":
        if case["radial"]:
            grid = UniformRadialGrid(n, 0.0, x)
        else:
            grid = CubicGrid(np.zeros(3), x * np.eye(3), (n, d, 2))
        k = len(grid)
        ok = lambda: grid.integrate(np.ones(k))
        return [
            ("too many values", lambda: grid.integrate(np.ones(k + d)), VE, ok),
            ("too few values", lambda: grid.integrate(np.ones(k - 1)), VE, ok),
            ("one value", lambda: grid.integrate(np.ones(1)), VE if k > 1 else (), ok),
            ("two axes", lambda: grid.integrate(np.ones((k, 1))), VE, ok),
            ("one row", lambda: grid.integrate(np.ones((1, k))), VE, ok),
        ]
    if w == "measure":
        meas = [SquaredDifference(), KLDivergence(), TsallisDivergence()][case["k"] % 3]
        f, g = rng.uniform(0.1, 1, n), rng.uniform(0.1, 1, n)
        ok = lambda: meas.evaluate(f, g, deriv=True)
        return [
            ("model a list", lambda: meas.evaluate(f, g.tolist()), VE, ok),
            ("density a tuple", lambda: meas.evaluate(tuple(f), g), VE, ok),
            ("density with two axes", lambda: meas.evaluate(f[:, None], g[:, None]), VE, ok),
            ("longer model", lambda: meas.evaluate(f, np.append(g, np.ones(d))), VE, ok),
            ("shorter model", lambda: meas.evaluate(f, g[:-1]), VE, ok),
            ("model of one value", lambda: meas.evaluate(f, g[:1]), VE, ok),
            ("deriv an integer", lambda: meas.evaluate(f, g, deriv=1), TE, ok),
            ("deriv a string", lambda: meas.evaluate(f, g, deriv="yes"), TE, ok),
            ("deriv None", lambda: meas.evaluate(f, g, deriv=None), TE, ok),
        ]
    if w == "tsallis":
        ok = lambda: TsallisDivergence(alpha=1.0 + x)
        return [
            ("negative alpha", lambda: TsallisDivergence(alpha=-x), VE, ok),
            ("alpha one", lambda: TsallisDivergence(alpha=1.0), VE, ok),
            ("alpha one, integer", lambda: TsallisDivergence(alpha=1), VE, ok),
            ("alpha next to one", lambda: TsallisDivergence(alpha=1.0 + 1e-12), VE, ok),
            ("alpha next below one", lambda: TsallisDivergence(alpha=1.0 - 1e-12), VE, ok),
        ]
    if w in ("scipy", "greedy"):
        if case["radial"]:
            grid = UniformRadialGrid(n + 3, 0.0, 3.0)
            other = UniformRadialGrid(n + 3, 0.0, 3.0 + x)
        else:
            grid = CubicGrid(-np.ones(3), 0.5 * np.eye(3), (3, 4, 2))
            other = CubicGrid(-np.ones(3) + x, 0.5 * np.eye(3), (3, 4, 2))
        f = np.exp(-ref.radii2(grid.points).astype(float))
        mod = AtomicGaussianDensity(grid.points, num_s=ns, num_p=np_, normalize=case["norm"])
        far = AtomicGaussianDensity(other.points, num_s=ns, num_p=np_)
        neg = f.copy()
        neg[i % len(f)] = -x
        ok = lambda: ScipyFit(grid, f, mod, spherical=case["radial"])
        whole = None if case["d"] % 2 else x     # with the integral given, the density need not be integrated

        class NoPoints:
            integrate = staticmethod(grid.integrate)

        class NoIntegrate:
            points = grid.points

        class NotCallable:
            points = grid.points
            integrate = 1.0

        from bfit.fit import KLDivergenceFPI
        if w == "scipy":
            out = [
                ("points of the model are others", lambda: ScipyFit(grid, f, far), VE, ok),
                ("density too long", lambda: ScipyFit(grid, np.append(f, np.ones(d)), mod, integral_dens=whole), VE, ok),
                ("density too short", lambda: ScipyFit(grid, f[:-1], mod, integral_dens=whole), VE, ok),
                ("unknown method", lambda: ScipyFit(grid, f, mod, method="newton" * d), VE, ok),
                ("piece of a method", lambda: ScipyFit(grid, f, mod, method=piece("slsqp", i)), VE, ok),
                ("piece of another method", lambda: ScipyFit(grid, f, mod, method=piece("trust-constr", i)), VE, ok),
                ("measure a class", lambda: ScipyFit(grid, f, mod, measure=KLDivergence), TE, ok),
                ("measure a string", lambda: ScipyFit(grid, f, mod, measure="kl"), TE, ok),
                ("measure None", lambda: ScipyFit(grid, f, mod, measure=None), TE, ok),
                ("negative density", lambda: ScipyFit(grid, neg, mod), VE, ok),
                ("nothing to optimise", lambda: ok().run(c, e, opt_coeffs=False, opt_expons=False), VE, ok),
                ("grid without integration", lambda: ScipyFit(NoIntegrate(), f, mod), AttributeError, ok),
                ("grid with an integration which is no method", lambda: ScipyFit(NotCallable(), f, mod), AttributeError, ok),
                ("grid without points", lambda: KLDivergenceFPI(NoPoints(), f, mod), AttributeError, ok),
            ]
            if not case["radial"]:
                out.append(("spherical with a cubic grid", lambda: ScipyFit(grid, f, mod, spherical=True), VE, ok))
            return out
        from bfit import GreedyKLFPI
        kl = GreedyKLFPI(grid, f, spherical=case["radial"])
        ok = lambda: kl.run(2.0, max_numb_funcs=1)
        from bfit.greedy import GreedyStrategy
        class Greedy(GreedyStrategy):
            def get_best_one_function_solution(self):
                return None
            def get_optimization_routine(self, params, *args, local=False):
                return params
        return [
            ("no fitting object", lambda: Greedy(mod), TE, ok),
            ("fitting object None", lambda: Greedy(None), TE, ok),
            ("unknown choice", lambda: GreedyKLFPI(grid, f, choice="pick-" + "x" * d), VE, ok),
            ("piece of a choice", lambda: GreedyKLFPI(grid, f, choice=piece("pick-one", i)), VE, ok),
            ("piece of another choice", lambda: GreedyKLFPI(grid, f, choice=piece("pick-two-lose-one", i)), VE, ok),
            ("factor zero", lambda: kl.run(0.0), VE, ok), ("negative factor", lambda: kl.run(-x), VE, ok),
            ("factor an integer", lambda: kl.run(d), TE, ok), ("factor a string", lambda: kl.run("2.0"), TE, ok),
            ("negative density", lambda: GreedyKLFPI(grid, neg), VE, ok),
        ]
    # slater_points
    from bfit import SlaterAtoms
    ex, num = rng.uniform(0.5, 3, (d, 1)), np.ones((d, 1), int)
    r = rng.uniform(0, 3, n)
    ok = lambda: SlaterAtoms.radial_slater_orbital(ex, num, r)
    return [
        ("points with two axes", lambda: SlaterAtoms.radial_slater_orbital(ex, num, r[:, None]), VE, ok),
        ("element a number", lambda: SlaterAtoms(d), TE, ok), ("element None", lambda: SlaterAtoms(None), TE, ok),
        ("element with digits", lambda: SlaterAtoms(f"h{d}"), TE, ok),
        ("both ions", lambda: SlaterAtoms("c", anion=True, cation=True), VE, ok),
        ("unknown mode", lambda: SlaterAtoms("c").atomic_density(r, "all" * d), VE, ok),
        ("piece of mode total", lambda: SlaterAtoms("c").atomic_density(r, piece("total", i)), VE, ok),
        ("piece of mode core", lambda: SlaterAtoms("c").atomic_density(r, piece("core", i)), VE, ok),
        ("piece of mode valence", lambda: SlaterAtoms("c").atomic_density(r, piece("valence", i)), VE, ok),
    ]


def piece(name, i):
    """A part of a name (without its first or its last letters), or the name with something more."""
    parts = [name[:-1], name[1:], "", name[:3], name[-2:], name + " ", " " + name, name + name, name[1:-1], name[0], name + ",", name + "s"]
    return parts[i % len(parts)]


def check_invalid(case):
    calls = invalid_calls(case)
    if not calls:
        return Info(False)
    name, bad, exc, ok = calls[case["k"] % len(calls)]
    if exc == ():
        return Info(False)
    before = repr(ok())[:0]
    try:
        got = bad()
    except exc:
        pass
    else:
        raise Violation(f"{case['what']}: {name} accepted, gives {got!r}"[:500])
    ok()
    return Info(True, case["what"], f"{case['what']}: {name}{before}")


# ------------------------------------------------------------------ C31: shared state
def settings():
    """Of the whole process."""
    return np.geterr(), np.get_printoptions(), os.getcwd()


def with_warnings(fn):
    """Numpy warns, as it does by default (and the warnings are not shown)."""
    def wrapped(case):
        with np.errstate(divide="warn", over="warn", invalid="warn", under="ignore"), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return fn(case)
    return wrapped


def op_spec():
    s = st()
    par = {"c": gen.arr(1, 8, 0.05, 5.0, log=True), "e": gen.arr(1, 8, 0.05, 4.0, log=True)}
    def d(op, **kw):
        return s.fixed_dictionaries(dict({"op": s.just(op)}, **kw))
    return s.one_of(
        d("integrate", y=gen.arr(1, 60, -5.0, 5.0)),
        d("eval", deriv=s.booleans(), which=s.sampled_from(["A", "M"]), **par),
        d("eval", deriv=s.booleans(), which=s.sampled_from(["A", "M"]), **par),
        d("measure", which=s.integers(0, 2), g=gen.arr(1, 60, 1e-6, 5.0, zeros=True), deriv=s.booleans(), minus=s.sampled_from([False, False, True])),
        d("goodness", which=s.integers(0, 4), **par),
        d("goodness", which=s.integers(0, 4), **par),
        d("fpi", which=s.sampled_from([0, 4]), k=s.integers(1, 4), opt=s.sampled_from(["both", "coeffs", "expons"]),
          disp=s.booleans(), **par),
        d("fpi", which=s.sampled_from([0, 4]), k=s.integers(1, 4), opt=s.sampled_from(["both", "coeffs", "expons"]),
          disp=s.booleans(), **par),
        d("func", which=s.sampled_from([1, 2, 3]), opt=s.sampled_from(["both", "coeffs", "expons"]), **par),
        d("norm", which=s.sampled_from([1, 2, 3]), opt=s.sampled_from(["both", "coeffs", "expons"]), **par),
        d("slsqp", which=s.sampled_from([1, 2, 3]), k=s.integers(1, 3), opt=s.sampled_from(["both", "coeffs", "expons"]),
          cons=s.booleans(), disp=s.booleans(), **par),
        d("greedy", which=s.sampled_from([0, 0, 1]), factor=fl(1.5, 5.0), top=s.integers(1, 2)),
        d("one", which=s.sampled_from([0, 1])),
        d("choices", which=s.integers(0, 2), factor=fl(1.5, 5.0), n=s.integers(1, 4), **par),
        d("redundant", eps=logfl(1e-3, 1.0), **par),
        d("resize", n=s.tuples(s.integers(0, 3), s.integers(0, 3)).map(lambda t: list(t) if sum(t) else [1, 0])),
        d("resize", n=s.tuples(s.integers(0, 3), s.integers(0, 3)).map(lambda t: list(t) if sum(t) else [1, 0])),
        d("reject", which=s.integers(0, 4)),
        d("prefactor", which=s.sampled_from(["A", "M"])),
        d("copy"),
        d("build", which=s.integers(0, 2), amp=s.sampled_from([0, 3, 7, -7]), kind=s.sampled_from(["scipy", "scipy", "fpi", "greedy"])),
        d("random", which=s.sampled_from([0, 0, 1]), top=s.sampled_from([2, 10, 30])),
    )


def world_case():
    s = st()
    return s.fixed_dictionaries({
        "grid": s.one_of(gen.radial_grid_spec(30, 8.0), gen.radial_grid_spec(30, 8.0), gen.cubic_grid_spec(4)),
        "spherical": s.booleans(), "norm": s.booleans(), "ns_np": s.tuples(s.integers(1, 3), s.integers(0, 2)).map(list),
        "mol": s.lists(s.tuples(s.integers(0, 2), s.integers(0, 2)).map(lambda t: list(t) if sum(t) else [1, 0]),
                       min_size=1, max_size=2),
        "seed": seeds(), "dens": fl(0.3, 2.0), "amp": s.sampled_from([0, 0, 0, 3, 7, -7]), "ops": s.lists(op_spec(), min_size=3, max_size=12), "spoil": s.booleans(), "reuse": s.booleans(),
        "again": s.lists(s.sampled_from([0, 0, 1, 2]), max_size=12),
    })


class World:
    """Objects which share a grid, a density, models and measures."""

    def __init__(self, case, sizes, reuse=False):
        self.pool = {} if reuse else None
        from bfit import (AtomicGaussianDensity, GreedyKLFPI, GreedyLeastSquares, KLDivergence, KLDivergenceFPI,
                          MolecularGaussianDensity, ScipyFit, SquaredDifference, TsallisDivergence)
        self.grid = gen.G(case["grid"])
        pts = self.grid.points
        radial = pts.ndim == 1
        sph = bool(case["spherical"] and radial)
        r = np.sqrt(ref.radii2(pts)).astype(float)
        self.f = (np.exp(-case["dens"] * r) + 1e-6) * 10.0 ** case.get("amp", 0)
        rng = np.random.default_rng(case["seed"])
        dim = 1 if radial else 3
        n = len(case["mol"])
        self.xyz = np.zeros((n, dim)) if radial else rng.uniform(-1, 1, (n, dim))
        self.basis = np.array(case["mol"], int)
        self.A = AtomicGaussianDensity(pts, num_s=sizes[0], num_p=sizes[1], normalize=case["norm"])
        self.M = MolecularGaussianDensity(pts, self.xyz, self.basis, normalize=case["norm"])
        self.measures = [SquaredDifference(), KLDivergence(), TsallisDivergence(alpha=1.5)]
        self.fits = [
            KLDivergenceFPI(self.grid, self.f, self.A, spherical=sph),
            ScipyFit(self.grid, self.f, self.A, spherical=sph),
            ScipyFit(self.grid, self.f, self.A, measure=self.measures[0], spherical=sph),
            ScipyFit(self.grid, self.f, self.M, measure=self.measures[2], spherical=sph),
            KLDivergenceFPI(self.grid, self.f, self.M, spherical=sph, integral_dens=3.0),
        ]
        self.greedy = [GreedyKLFPI(self.grid, self.f, l_maxiter=3, g_maxiter=5, spherical=sph),
                       GreedyLeastSquares(self.grid, self.f, l_maxiter=2, g_maxiter=3, spherical=sph)]
        self.inputs = [self.f, self.xyz, self.basis]

    def buf(self, name, arr):
        """A caller may keep one array and overwrite it for every call."""
        if self.pool is None:
            return arr
        old = self.pool.get((name, arr.size))
        if old is None or not old.flags.writeable:
            self.pool[name, arr.size] = arr
            return arr
        old[...] = arr
        return old


def flat(x):
    """Everything of a result as a list of arrays and plain values, without times."""
    if isinstance(x, dict):
        return [y for k in sorted(x) if k != "time" for y in [k] + flat(x[k])]
    if isinstance(x, (list, tuple)):
        return [y for v in x for y in flat(v)]
    return [x]


def arrays(x):
    if isinstance(x, dict):
        return [y for v in x.values() for y in arrays(v)]
    if isinstance(x, (list, tuple)):
        return [y for v in x for y in arrays(v)]
    return [x] if isinstance(x, np.ndarray) and x.ndim else []


def same(x, y):
    x, y = flat(x), flat(y)
    if len(x) != len(y):
        return False
    for u, v in zip(x, y):
        if isinstance(u, np.ndarray) or isinstance(u, (float, np.floating)):
            u, v = np.asarray(u), np.asarray(v)
            if u.shape != v.shape or u.dtype != v.dtype or not np.array_equal(u, v, equal_nan=u.dtype.kind in "fc"):
                return False
        elif u != v:
            return False
    return True


def alike(x, y, rtol):
    """The same up to rounding (the result of vectorised code may depend on the memory it gets)."""
    x, y = flat(x), flat(y)
    if len(x) != len(y):
        return False
    for u, v in zip(x, y):
        if isinstance(u, (np.ndarray, float, np.floating)) and isinstance(v, (np.ndarray, float, np.floating)):
            u, v = np.asarray(u), np.asarray(v)
            if u.shape != v.shape or u.dtype != v.dtype:
                return False
            if u.dtype.kind == "f":
                fin = np.isfinite(u)
                if not np.array_equal(fin, np.isfinite(v)) or np.any(
                        np.abs(u[fin] - v[fin]) > rtol * np.abs(v[fin]).max(initial=0.0)):
                    return False
            elif not np.array_equal(u, v):
                return False
        elif u != v:
            return False
    return True


def apply_op(world, op):
    """Run one operation; returns its result and the arrays which it was given."""
    np.random.seed(7)
    text = io.StringIO()
    with warnings.catch_warnings(), contextlib.redirect_stdout(text):
        warnings.simplefilter("ignore")
        return run_op(world, op)


def run_op(world, op):
    from bfit import greedy as gr
    k = op["op"]
    n = len(world.f)

    def par(m):
        return world.buf("c", gen.fit_len(op["c"], m)), world.buf("e", gen.fit_len(op["e"], m))

    if k == "integrate":
        y = world.buf("y", gen.fit_len(op["y"], n))
        return world.grid.integrate(y), [y]
    if k == "eval":
        mod = getattr(world, op["which"])
        c, e = par(int(mod.nbasis))
        return mod.evaluate(c, e, deriv=op["deriv"]), [c, e]
    if k == "prefactor":
        return getattr(world, op["which"]).prefactor, []
    if k == "measure":
        g = world.buf("y", gen.fit_len(op["g"], n))
        meas = world.measures[op["which"]]
        h = -g if op.get("minus") and op["which"] < 2 else g
        return [meas.evaluate(world.f, h, deriv=op["deriv"])] + [getattr(meas, k, None) for k in (
            "mask_value", "negative_val", "alpha")], [g]
    if k == "build":
        # another object which shares the grid, the model and a measure
        from bfit import GreedyKLFPI, KLDivergenceFPI, ScipyFit
        dens = 10.0 ** op["amp"] * world.f[::-1].copy()
        if op["kind"] == "scipy":
            x = ScipyFit(world.grid, dens, world.A, measure=world.measures[op["which"]])
        elif op["kind"] == "fpi":
            x = KLDivergenceFPI(world.grid, dens, world.A)
        else:
            x = GreedyKLFPI(world.grid, dens)
        return [x.integral_dens], []
    if k == "random":
        # random guesses do not reset the generator of the process
        seen = []
        for seed in (1, 2):
            np.random.seed(seed)
            world.greedy[op["which"]].run(2.0, d_threshold=1e200, max_numb_funcs=op["top"])
            seen.append(np.random.random())
        require(seen[0] != seen[1], "a greedy run resets the random generator of numpy")
        return None, []
    if k == "goodness":
        fit = world.fits[op["which"]]
        c, e = par(int(fit.model.nbasis))
        return fit.goodness_of_fit(c, e), [c, e]
    if k == "fpi":
        fit = world.fits[op["which"]]
        c, e = par(int(fit.model.nbasis))
        o = p_fit.opts(op["opt"])
        return fit.run(c, e, maxiter=op["k"], disp=op["disp"], **o), [c, e]
    if k in ("func", "norm", "slsqp"):
        fit = world.fits[op["which"]]
        c, e = par(int(fit.model.nbasis))
        if k == "slsqp":
            o = p_fit.opts(op["opt"])
            return fit.run(c, e, maxiter=op["k"], with_constraint=op["cons"], disp=op["disp"], **o), [c, e]
        fn = fit.func if k == "func" else fit.const_norm
        if op["opt"] == "both":
            x = world.buf("x", np.concatenate((c, e)))
            return fn(x), [x]
        if op["opt"] == "coeffs":
            return fn(c, "fixed_expons", e), [c, e]
        return fn(e, "fixed_coeffs", c), [c, e]
    if k == "greedy":
        return world.greedy[op["which"]].run(op["factor"], max_numb_funcs=op["top"]), []
    if k == "one":
        g = world.greedy[op["which"]]
        return g.get_best_one_function_solution(), []
    if k == "choices":
        m = max(op["n"], 2) if op["which"] == 2 else op["n"]
        c, e = world.buf("c", gen.fit_len(op["c"], m)), world.buf("e", np.sort(gen.fit_len(op["e"], m)))
        fn = [gr.get_next_choices, gr.get_two_next_choices, gr.pick_two_lose_one][op["which"]]
        return fn(op["factor"], c, e), [c, e]
    if k == "redundant":
        c, e = par(6)
        return gr.remove_redundancies(c, e, op["eps"]), [c, e]
    if k == "resize":
        world.A.change_numb_s_and_numb_p(*op["n"])
        return None, []
    # reject
    def refused(fn):
        try:
            fn()
        except (TypeError, ValueError) as ex:
            return type(ex).__name__
        return "accepted"
    bad = [lambda: world.grid.integrate(np.ones(n + 1)),
           lambda: world.A.evaluate(np.ones(world.A.nbasis + 1), np.ones(world.A.nbasis + 1)),
           lambda: world.A.change_numb_s_and_numb_p(1.5, 1),
           lambda: world.fits[0].run(np.ones(world.A.nbasis + 1), np.ones(world.A.nbasis)),
           lambda: world.greedy[0].run(-1.0)]
    return refused(bad[op["which"]]), []


@with_warnings
def check_world(case):
    sizes = list(case["ns_np"])
    world = World(case, sizes, case.get("reuse", False))
    keep = [x.copy() for x in world.inputs]
    points = np.array(world.grid.points)
    used = set()
    at_first = settings()
    ops = []
    for i, op in enumerate(case["ops"]):
        ops.append(op)
        for k in range(case["again"][i] if i < len(case.get("again", [])) else 0):
            ops.append(other_values(op, k))
    for i, op in enumerate(ops):
        name = op["op"] + (str(op["which"]) if "which" in op else "")
        if op["op"] == "copy":
            # a deep copy behaves as the object, whatever happens to the object
            old, world = world, copy.deepcopy(world)
            old.A.change_numb_s_and_numb_p(sizes[0] + 1, sizes[1])
            for a in arrays([old.grid.points, old.f, old.xyz] + [x.prefactor for x in (old.A, old.M)]):
                if a.flags.writeable:
                    a[...] = -55
            used.add("copy")
            continue
        if op["op"] == "one" and any(o["op"] in ("greedy", "random") and o["which"] == op["which"] for o in ops[:i]):
            continue      # the solution for one function is documented for a model of one function
        fresh = World(case, sizes)
        want, _ = apply_op(fresh, op)
        got, given = apply_op(world, op)
        if op["op"] == "resize":
            sizes = list(op["n"])
        require(same(got, want) or alike(got, want, 1e-6 if op["op"] in ("slsqp", "greedy") else 1e-10), lambda: f"operation {i} ({name}) after {[o['op'] for o in ops[:i]]} gives "
                                         f"{got!r}, on fresh objects {want!r}"[:1500])
        _, before = apply_op_inputs(case, sizes, op)
        for a, b in zip(given, before):
            require(np.array_equal(a, b), lambda: f"operation {i} ({name}) changes its argument {b} to {a}")
        for a, b in zip(world.inputs, keep):
            require(np.array_equal(a, b), lambda: f"operation {i} ({name}) changes the density, coordinates or basis")
        require(np.array_equal(world.grid.points, points), lambda: f"operation {i} ({name}) changes the grid points")
        require([world.A.num_s, world.A.num_p] == sizes, lambda: f"operation {i} ({name}) changes the basis of a model")
        require(settings() == at_first, lambda: f"operation {i} ({name}) changes settings of the process: {at_first} {settings()}")
        used.add(op["op"])
        if case["spoil"]:
            # what a caller does to a result is no matter of the objects
            for a in arrays(got):
                if a.flags.writeable and not any(np.shares_memory(a, g) for g in given) and a.dtype.kind == "f":
                    a[...] = -77.0
    return Info(len(used) > 2, *sorted(used), "spoil" if case["spoil"] else "", "arrays reused" if case.get("reuse") else "",
                "repeated" if len(ops) > len(case["ops"]) else "", case["grid"]["g"])


def threads_case():
    s = st()
    return s.fixed_dictionaries({"worlds": s.lists(world_case(), min_size=2, max_size=4), "rounds": s.integers(1, 4)})


@with_warnings
def check_threads(case):
    """Fits of separate objects which run at the same time do not disturb each other."""
    worlds, plans, expected = [], [], []
    for w in case["worlds"]:
        # numpy's random numbers and standard output belong to the whole process
        plan = [dict(o, disp=False) for o in w["ops"] if o["op"] not in ("greedy", "random", "copy")]
        fresh = World(w, list(w["ns_np"]))
        expected.append([run_op(fresh, o)[0] for o in plan for _ in range(case["rounds"])])
        plans.append(plan)
        worlds.append(World(w, list(w["ns_np"])))
    got = [[] for _ in worlds]
    errors = []
    start = threading.Barrier(len(worlds))

    def work(i):
        try:
            with np.errstate(all="ignore"):
                start.wait(60)
                for o in plans[i]:
                    for _ in range(case["rounds"]):
                        got[i].append(run_op(worlds[i], o)[0])
        except Exception as ex:  # pylint: disable=broad-except
            errors.append((i, ex))

    interval = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    try:
        pool = [threading.Thread(target=work, args=(i,)) for i in range(len(worlds))]
        for t in pool:
            t.start()
        for t in pool:
            t.join()
    finally:
        sys.setswitchinterval(interval)
    if errors:
        raise errors[0][1]
    for i, (a, b) in enumerate(zip(got, expected)):
        names = [o["op"] for o in plans[i] for _ in range(case["rounds"])]
        for j, (u, v) in enumerate(zip(a, b)):
            require(same(u, v) or alike(u, v, 1e-6 if names[j] == "slsqp" else 1e-10),
                    lambda: f"operation {j} ({names[j]}) of thread {i} gives {u!r}, alone {v!r}"[:1500])
    n = sum(len(p) for p in plans)
    return Info(n > 4, f"{len(worlds)} threads", *sorted({o["op"] for p in plans for o in p}))


def other_values(op, k):
    """The same operation with other values (of the same sizes) in one of its arrays, or in all."""
    names = [x for x in ("c", "e", "y", "g") if x in op]
    out = dict(op)
    for name in names if k else names[-1:]:
        x = gen.A(op[name])
        out[name] = [float(v) for v in x[::-1] * (1.25 if k else 0.75)]
    return out


def apply_op_inputs(case, sizes, op):
    """The arguments of an operation, built again."""
    n = len(gen.G(case["grid"]).points)
    k = op["op"]
    if k == "integrate":
        return None, [gen.fit_len(op["y"], n)]
    if k == "measure":
        return None, [gen.fit_len(op["g"], n)]
    if k == "redundant":
        return None, [gen.fit_len(op["c"], 6), gen.fit_len(op["e"], 6)]
    if k == "choices":
        m = max(op["n"], 2) if op["which"] == 2 else op["n"]
        return None, [gen.fit_len(op["c"], m), np.sort(gen.fit_len(op["e"], m))]
    if k in ("eval", "goodness", "fpi", "func", "norm", "slsqp"):
        mol = op["which"] in ("M", 3, 4)
        m = int(np.sum(case["mol"])) if mol else sum(sizes)
        c, e = gen.fit_len(op["c"], m), gen.fit_len(op["e"], m)
        if k in ("func", "norm") and op["opt"] == "both":
            return None, [np.concatenate((c, e))]
        return None, [c, e]
    return None, []


ATTRS = ["configuration", "energy", "kinetic_energy", "potential_energy", "orbitals", "orbitals_occupation", "orbitals_basis",
         "basis_numbers", "orbitals_exp", "orbitals_coeff", "orbitals_energy", "orbitals_cusp"]


def data_case():
    s = st()
    def d(op, **kw):
        return s.fixed_dictionaries(dict({"op": s.just(op)}, **kw))
    who = s.integers(0, 5)
    return s.fixed_dictionaries({
        "atoms": s.lists(s.integers(0, 10 ** 4), min_size=1, max_size=3), "upper": s.booleans(),
        "r": gen.arr(2, 20, 1e-8, 20.0, log=True, zeros=True),
        "ops": s.lists(s.one_of(
            d("new", who=who), d("new", who=who), d("attr", who=who, name=s.sampled_from(ATTRS), spoil=s.booleans()),
            d("attr", who=who, name=s.sampled_from(ATTRS), spoil=s.booleans()),
            d("density", who=who, mode=s.sampled_from(["total", "core", "valence"])),
            d("phi", who=who, deriv=s.booleans()), d("kinetic", who=who), d("slope", who=who), d("ugbs", who=who),
            d("load", who=who), d("file", who=who), d("refused", who=who)), min_size=2, max_size=12)})


PRISTINE = {}


def data_op(op, sym, kind, obj, r):
    from bfit import SlaterAtoms
    from bfit._slater import load_slater_wfn
    from bfit.parse_ugbs import get_ugbs_exponents
    k, ions = op["op"], {"anion": kind == "anion", "cation": kind == "cation"}
    if k == "attr":
        return getattr(obj, op["name"])
    if k == "density":
        return obj.atomic_density(r, op["mode"])
    if k == "phi":
        return obj.phi_matrix(r, deriv=op["deriv"])
    if k == "kinetic":
        return obj.positive_definite_kinetic_energy(r)
    if k == "slope":
        return obj.derivative_density(r)
    if k == "ugbs":
        return get_ugbs_exponents(sym)
    if k in ("load", "file"):
        return load_slater_wfn(sym, **ions)
    try:
        SlaterAtoms(sym, anion=True, cation=True)
    except ValueError:
        return "refused"
    return "accepted"


def spoil(x, log):
    """Change everything of a result which can be changed in place; the log tells how to mend it."""
    if isinstance(x, np.ndarray):
        if x.flags.writeable and x.dtype.kind in "fi":
            log.append((x, x.copy()))
            x[...] = -7
    elif isinstance(x, dict):
        for v in x.values():
            spoil(v, log)
        log.append((x, dict(x)))
        x["S"] = None
    elif isinstance(x, list):
        log.append((x, list(x)))
        x.append(-7.0)


def mend(log):
    for x, old in reversed(log):
        if isinstance(x, np.ndarray):
            x[...] = old
        elif isinstance(x, dict):
            x.clear()
            x.update(old)
        else:
            x[:] = old


@with_warnings
def check_data(case):
    """Data of atoms are those of the files, whatever was done to what an earlier call returned."""
    import p_slater
    from bfit import SlaterAtoms
    from bfit._slater import load_slater_wfn
    have = [tuple(x) for x in p_slater.shipped() if tuple(x) != p_slater.KNOWN_BAD]
    atoms = [have[i % len(have)] for i in case["atoms"]]
    r = gen.A(case["r"])
    keep = r.copy()
    log, made, used = [], [], set()
    spell = str.upper if case["upper"] else str
    before = settings()
    try:
        for sym, kind in atoms:
            ions = {"anion": kind == "anion", "cation": kind == "cation"}
            if (sym, kind) not in PRISTINE:
                PRISTINE[sym, kind] = copy.deepcopy(load_slater_wfn(sym, **ions))
            made.append([sym, kind, SlaterAtoms(spell(sym), **ions)])
        first = {}
        for i, op in enumerate(case["ops"]):
            spot = made[op["who"] % len(made)]
            sym, kind, obj = spot
            name = f"operation {i} ({op['op']} {op.get('name', '')} of {sym} {kind}) after {[o['op'] for o in case['ops'][:i]]}"
            used.add(op["op"])
            if op["op"] == "new":
                made.append([sym, kind, SlaterAtoms(spell(sym), anion=kind == "anion", cation=kind == "cation")])
                continue
            got = data_op(op, spell(sym), kind, obj, r)
            if op["op"] == "attr":
                want = PRISTINE[sym, kind][op["name"]]
            elif op["op"] in ("load", "file"):
                want = PRISTINE[sym, kind]
            else:
                key = repr((sym, kind, {k: v for k, v in op.items() if k != "who"}))
                want = first.setdefault(key, copy.deepcopy(got))
            require(alike(got, want, 1e-12), lambda: f"{name}: {got!r} instead of {want!r}"[:1500])
            if op["op"] == "attr":
                if not op["spoil"]:
                    continue
                # whose arrays are changed is not asked any more, all other objects are
                spot[2] = SlaterAtoms(spell(sym), anion=kind == "anion", cation=kind == "cation")
            spoil(got, log)
            require(np.array_equal(r, keep), lambda: f"{name} changes the points")
        require(settings() == before, lambda: f"the settings of the process are changed: {before} {settings()}")
    finally:
        mend(log)
    return Info(len(used) > 2, *sorted(used))


# ------------------------------------------------------------------ C32: fits of atoms, end to end
def atom_case():
    s = st()
    return s.fixed_dictionaries({
        "atom": s.integers(0, 10 ** 6), "kind": s.sampled_from(["neutral", "neutral", "neutral", "anion", "cation"]),
        "light": s.booleans(), "upper": s.booleans(),
        "core": s.integers(20, 150), "diff": s.integers(20, 100), "extra": s.booleans(), "origin": s.booleans(),
        "dtype": s.sampled_from(["longdouble", "float64"]), "every": s.integers(1, 6), "first": s.integers(0, 5),
        "np": s.integers(0, 3), "k": s.integers(3, 30), "exact": s.booleans(), "c": gen.arr(1, 20, 0.05, 5.0, log=True),
        "opt": s.sampled_from(["both", "both", "coeffs"]), "mode": s.sampled_from(["total", "total", "total", "core", "valence"]),
        "refine": s.sampled_from([True, False, False]), "mol": s.booleans(),
    })


def check_atom(case):
    """The documented way: Slater density, Clenshaw grid, UGBS exponents, fixed-point fit, refinement."""
    import p_slater
    from bfit import (AtomicGaussianDensity, ClenshawRadialGrid, KLDivergenceFPI, MolecularGaussianDensity, ScipyFit,
                      SlaterAtoms)
    from bfit.parse_ugbs import get_ugbs_exponents
    kind = case["kind"]
    have = [x for x, k in p_slater.shipped() if k == kind and (x, k) != p_slater.KNOWN_BAD]
    have.sort(key=p_slater.Z.get)
    if case["light"]:
        have = have[:18]
    sym = have[case["atom"] % len(have)]
    z = p_slater.Z[sym]
    ne = z + {"neutral": 0, "anion": 1, "cation": -1}[kind]
    arg = sym.upper() if case["upper"] else sym
    extra = [30.0, 40.0] if case["extra"] else None
    grid = ClenshawRadialGrid(z, case["core"], case["diff"], extra, include_origin=case["origin"],
                              dtype=np.dtype(case["dtype"]).type)
    pts = grid.points
    obj = SlaterAtoms(arg, anion=kind == "anion", cation=kind == "cation")
    f = np.asarray(obj.atomic_density(pts, case["mode"])).astype(float)
    if not np.all(f >= 0):
        f = np.maximum(f, 0.0)          # cancellation in the core density
    ug = get_ugbs_exponents(arg)
    es = sorted(ug["S"])[: max(6, len(ug["S"]) - 4)]
    es = sorted(set(es[:3] + es[case["first"]::case["every"]]))
    ep = sorted(ug["P"] or ug["S"])[1:1 + case["np"]]
    if len(es) < 2:
        return Info(False, "no exponents")
    e0 = np.array(es + ep)
    m = len(e0)
    ctx = f"({sym} {kind} {case['mode']}, {m} functions, {len(pts)} points, {case['opt']})"
    if case["mol"]:
        model = MolecularGaussianDensity(pts, np.zeros((1, 1)), np.array([[len(es), len(ep)]]), normalize=True)
    else:
        model = AtomicGaussianDensity(pts, num_s=len(es), num_p=len(ep), normalize=True)
    w = ref.trapz_weights(pts) * 4 * ref.PI * pts.astype(LD) ** 2
    fq = f.astype(LD)
    intf = (w * fq).sum()
    if case["mode"] == "total":
        # the quadrature of a coarse grid is off by its spacing only
        require(abs(intf - ne) <= 0.5 * ne, lambda: f"the density integrates to {intf} {ctx}")
    if not intf > 1e-6:
        return Info(False, "no core")
    N = float(ne) if case["exact"] else None
    Nval = float(intf) if N is None else N
    c0 = gen.fit_len(case["c"], m)
    c0 = c0 / c0.sum() * Nval
    fit = KLDivergenceFPI(grid, f, model, integral_dens=N, spherical=True)
    k1, k2 = c0.copy(), e0.copy()
    res = fit.run(c0, e0, opt_expons=case["opt"] == "both", maxiter=case["k"], **p_fit.no_stop())
    close("starting parameters", np.concatenate((c0, e0)), np.concatenate((k1, k2)), 0)
    c, e = np.asarray(res["coeffs"]).astype(float), np.asarray(res["exps"]).astype(float)
    if not np.all(np.isfinite(c)) or not np.all(np.isfinite(e)):
        return Info(False, "degenerate")
    r2 = pts.astype(LD) ** 2
    kinds = ref.kinds_of(len(es), len(ep))

    def kl(c_, e_):
        g = ref.model([r2] * m, kinds, True, c_, e_)[0]
        v, _ = ref.kl_terms(fq, g, 0.0)
        mag = (w * (np.abs(v) + fq)).sum()
        return (w * v).sum(), float(mag), g

    start, mag, g0 = kl(c0, e0)
    last, mag1, g = kl(c, e)
    if min(g0.min(), g.min()) < 1e-290:
        return Info(False, "underflow")
    close(f"number of electrons of the model {ctx}", c.sum(), LD(Nval), 1e-9 * Nval)
    fun = [start] + [LD(x) for x in res["fun"]]
    for i in range(1, len(fun)):
        require(fun[i] <= fun[i - 1] + 1e-11 * mag, lambda: f"the divergence rises from {fun[i - 1]} to {fun[i]} in "
                                                            f"iteration {i} {ctx}")
    perf = np.asarray(res["performance"])[-1]
    want = [(w * g).sum(), (w * np.abs(fq - g)).sum(), np.abs(fq - g).max(), (w * (fq - g) ** 2).sum(), last]
    scale = [Nval, Nval, float(np.max(fq + g)), float((w * (fq + g) ** 2).sum()), mag1]
    for i, name in enumerate(("integral", "L1", "L infinity", "least squares", "Kullback-Leibler")):
        close(f"{name} {ctx}", perf[i], want[i], 1e-10 * scale[i])
    # Gibbs' inequality on the grid: it bounds the divergence by the missing electrons
    require(last >= intf - want[0] - 1e-10 * mag1, lambda: f"divergence {last} below {intf - want[0]} {ctx}")
    # Pinsker's inequality on the grid ties the divergence to the L1 distance
    a, b = intf, want[0]
    tv = (w * np.abs(fq / a - g / b)).sum()
    norm_kl = (last - a * np.log(a / b)) / a
    require(norm_kl >= tv ** 2 / 2 - 1e-10, lambda: f"divergence {norm_kl} below Pinsker's bound {tv ** 2 / 2} {ctx}")
    drop = float(fun[0] - fun[-1])
    if case["refine"]:
        sc = ScipyFit(grid, f, model, integral_dens=N, spherical=True)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            r = sc.run(c, e, opt_expons=False, maxiter=30)
        c2 = np.asarray(r["coeffs"]).astype(float)
        close("fixed exponents", np.asarray(r["exps"]), e.astype(LD), 0)
        v = ref.kl_terms(fq, ref.model([r2] * m, kinds, True, c2, e)[0], 1e-12)[0]
        near = float((w * np.where(g < 1e-6, fq, 0)).sum())
        close(f"objective after the refinement {ctx}", r["fun"], (w * v).sum(), 1e-9 * mag1 + 40 * near)
        if r["success"]:
            gi = (w * ref.model([r2] * m, kinds, True, c2, e)[0]).sum()
            close(f"constraint after the refinement {ctx}", gi, LD(Nval), 1e-5 * Nval)
    return Info(drop > 1e-6 * mag, kind, case["mode"], "light" if z <= 18 else "heavy", f"m{m // 5 * 5}", case["opt"],
                "refined" if case["refine"] else "", "p-type" if ep else "")


PROPS = {
    "C30": {"subs": lambda: [
        Sub("invalid", invalid_case, check_invalid, 6000, "non-trivial: an invalid call was tried")]},
    "C31": {"subs": lambda: [
        Sub("histories", world_case, check_world, 4000, "non-trivial: more than two kinds of operations"),
        Sub("threads", threads_case, check_threads, 600, "non-trivial: more than four operations in all threads"),
        Sub("atoms", data_case, check_data, 600, "non-trivial: more than two kinds of operations")]},
    "C32": {"data": True, "subs": lambda: [
        Sub("atoms", atom_case, check_atom, 500, "non-trivial: the fit improves the model")]},
}
