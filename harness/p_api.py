"""Calling conventions: arguments by position, by name, or left at their documented default."""
import contextlib
import io
import warnings

import numpy as np

import gen
import p_fit
from core import Info, Sub, Violation
from gen import fl, logfl, seeds


def st():
    from hypothesis import strategies
    return strategies


# A call is (function of all its arguments, required values, optional arguments in the order of the documentation).
# An optional argument is (name, documented default, other value).  The function returns plain numbers and arrays.

def observe_fit(fit, c, e):
    out = [fit.integral_dens, fit.density, fit.spherical, fit.goodness_of_fit(c, e), fit.integrate(fit.density)]
    x = np.concatenate((c, e))
    if hasattr(fit, "func"):
        for a in ((x,), (x[:len(c)], "fixed_expons", e), (x[len(c):], "fixed_coeffs", c)):
            out += [fit.func(*a), fit.const_norm(*a), fit.evaluate_model(*a)]
        out.append(fit.method)
    else:
        out += [fit.lagrange_multiplier, small(fit.run(c, e, True, True, 2, 0.0, 0.0, 0.0))]
    return out


def small(res):
    return {k: v for k, v in res.items() if k != "time"}


def calls(case):
    from bfit import (AtomicGaussianDensity, ClenshawRadialGrid, CubicGrid, GreedyKLFPI, GreedyLeastSquares, KLDivergence,
                      KLDivergenceFPI, MolecularGaussianDensity, ScipyFit, SlaterAtoms, SquaredDifference, TsallisDivergence,
                      UniformRadialGrid)
    from bfit.greedy import (GreedyStrategy, get_next_choices, get_two_next_choices, pick_two_lose_one, remove_redundancies)
    rng = np.random.default_rng(case["seed"])
    n, w, x = case["n"], case["what"], case["x"]
    if w == "uniform":
        return UniformRadialGrid, (n,), [("min_radii", 0.0, x), ("max_radii", 100.0, 20 + x), ("dtype", np.longdouble, np.float64)], \
            lambda g: [g.points, len(g), g.integrate(np.ones(n))]
    if w == "clenshaw":
        return ClenshawRadialGrid, (case["z"], n, n + 1), \
            [("extra_pts", None, [50 + x, 60.0]), ("include_origin", True, False), ("dtype", np.longdouble, np.float64)], \
            lambda g: [g.points, len(g), g.atomic_number, g.integrate(np.ones(len(g)))]
    if w == "from_molecule":
        num, xyz = np.arange(1.0, 4.0), rng.uniform(-1, 1, (3, 3))
        # a coarse grid unless the spacing is left out; then a small box
        return CubicGrid.from_molecule, (num, xyz), [("spacing", 0.2, 0.9 + x / 50), ("extension", 5.0, 1 + x / 10), ("rotate", True, False)], \
            lambda g: [g.axes, g.points[::97], len(g)]
    f = 10.0 ** rng.uniform(-16, 1, 40) * rng.choice([1, 1, 1, 0], 40)
    g = 10.0 ** rng.uniform(-16, 1, 40) * rng.choice([1, 1, 1, 1, 1, -1], 40)
    f[:3], g[:3] = 1.0, [1.0, 5e-13, 2e-12]
    if w == "kl":
        return KLDivergence, (), [("mask_value", 1e-12, 1e-6), ("negative_val", 100000.0, 7.0)], \
            lambda m: [m.mask_value, m.negative_val, m.evaluate(np.abs(f), g), m.evaluate(np.abs(f), np.abs(g), True)]
    if w == "tsallis":
        return TsallisDivergence, (), [("alpha", 1.001, 1.5), ("mask_value", 1e-12, 1e-6)], \
            lambda m: [m.alpha, m.mask_value, m.evaluate(f, np.abs(g)), m.evaluate(f, np.abs(g), True)]
    if w == "measure":
        m = [SquaredDifference(), KLDivergence(), TsallisDivergence()][n % 3]
        return m.evaluate, (f, np.abs(g)), [("deriv", False, True)], lambda v: v
    ns, np_ = case["ns"], case["np"]
    pts = rng.uniform(-2, 2, (n, 3))
    c, e = rng.uniform(0.1, 2, ns + np_), rng.uniform(0.1, 2, ns + np_)

    def see_model(mod):
        k = mod.nbasis
        cc, ee = np.resize(c, k), np.resize(e, k)
        return [mod.points, mod.radii, mod.nbasis, mod.prefactor, mod.evaluate(cc, ee), mod.evaluate(cc, ee, True)]
    if w == "atomic":
        return AtomicGaussianDensity, (pts,), \
            [("center", None, rng.uniform(-1, 1, 3)), ("num_s", 1, ns + 1), ("num_p", 0, np_ + 1), ("normalize", False, True)], see_model
    xyz, basis = rng.uniform(-1, 1, (2, 3)), np.array([[ns, np_], [1, 1]])
    if w == "molecular":
        return MolecularGaussianDensity, (pts, xyz, basis), [("normalize", False, True)], see_model
    if w == "evaluate":
        mod = AtomicGaussianDensity(pts, None, ns, np_) if n % 2 else MolecularGaussianDensity(pts, xyz[:1], basis[:1])
        return mod.evaluate, (c, e), [("deriv", False, True)], lambda v: v
    r = np.concatenate(([0.0], rng.uniform(0.0, 4, n)))
    if w == "atoms":
        el = ["c", "h", "cs", "c", "xe"][n % 5]
        flag = case["ion"] or None
        return SlaterAtoms, (el,), [("anion", False, flag == "anion"), ("cation", False, flag == "cation")], \
            lambda a: [a.energy, a.configuration, a.atomic_density(r), a.orbitals, a.orbitals_occupation]
    if w == "slater":
        a = SlaterAtoms(["c", "p", "ne", "ag", "c"][case["z"] % 5])
        if n % 2:
            return a.phi_matrix, (r,), [("deriv", False, True)], lambda v: v
        return a.atomic_density, (r,), [("mode", "total", ["core", "valence"][case["z"] % 2])], lambda v: v
    if w == "choices":
        fn = [get_next_choices, get_two_next_choices, pick_two_lose_one][n % 3]
        return fn, (1.5 + x, c, np.sort(e)), [("coeff_val", 100.0, 3.0)], lambda v: v
    if w == "redundant":
        e2 = np.repeat(e, 2) + np.tile([0.0, [5e-4, 2e-3][n % 2]], len(e))
        return remove_redundancies, (np.repeat(c, 2), e2), [("eps", 1e-3, 1e-2)], lambda v: v
    # fits
    grid = UniformRadialGrid(8 + n, 0.0, 6.0)
    p = grid.points
    dens = 2.0 * np.exp(-1.3 * p) + np.exp(-0.4 * p * p)
    mod = AtomicGaussianDensity(p, None, ns, np_, normalize=True)
    wide = e * np.where(rng.random(len(e)) < 0.5, 1.0, 6.0)
    if w == "fpi":
        return KLDivergenceFPI, (grid, dens, mod), [("mask_value", 0.0, 1e-3), ("integral_dens", None, 2 + x), ("spherical", False, True)], \
            lambda o: observe_fit(o, c, wide)
    if w == "scipy":
        return ScipyFit, (grid, dens, mod), \
            [("measure", KLDivergence(), SquaredDifference()), ("method", "SLSQP", "trust-constr"), ("weights", None, rng.uniform(0.5, 2, 8 + n)),
             ("integral_dens", None, 2 + x), ("spherical", False, True), ("mask_value", 1e-18, 1e-3)], \
            lambda o: observe_fit(o, c, wide)
    flags = [("opt_coeffs", True, False), ("opt_expons", True, False)]
    if case["ion"] == "anion":
        flags = [("opt_coeffs", True, True), ("opt_expons", True, False)]
    elif case["ion"] == "cation":
        flags = [("opt_coeffs", True, False), ("opt_expons", True, True)]
    if w == "fpi_run":
        fit = KLDivergenceFPI(grid, dens, mod, spherical=bool(n % 2))
        ct, et, dt = rng.choice([0.0, 1e-3, 1e5], 3)
        return fit.run, (c, e), flags + [("maxiter", 500, [7, 400][case["z"] % 2]), ("c_threshold", 1e-6, ct), ("e_threshold", 1e-6, et),
                                         ("d_threshold", 1e-6, dt), ("disp", False, True)], small
    if w == "scipy_run":
        fit = ScipyFit(grid, dens, mod, SquaredDifference(), spherical=bool(n % 2), method=["slsqp", "slsqp", "trust-constr"][case["z"] % 3])
        return fit.run, (c, e), flags + [("maxiter", 1000, 3), ("tol", 1e-14, 1e-2), ("disp", False, True), ("with_constraint", True, False)], small
    if w == "greedy_ls":
        return GreedyLeastSquares, (grid, dens), \
            [("choice", "pick-one", "pick-two"), ("local_tol", 1e-5, 1e-2), ("global_tol", 1e-8, 1e-1), ("method", "SLSQP", "SLSQP"),
             ("normalize", False, True), ("integral_dens", None, 2 + x), ("with_constraint", False, True), ("l_maxiter", 1000, 2),
             ("g_maxiter", 2500, 3), ("spherical", False, True)], \
            lambda o: [o.local_tol, o.global_tol, o.l_maxiter, o.g_maxiter, o.with_constraint, o.integral_dens, small(o.run(2.0, 1e-8, 2))]
    if w == "greedy_kl":
        names = "g_eps_coeff g_eps_exp g_eps_obj l_eps_coeff l_eps_exp l_eps_obj".split()
        vals = [1e-4, 1e-5, 1e-10, 1e-2, 1e-3, 1e-8]
        return GreedyKLFPI, (grid, dens), \
            [("choice", "pick-one", "pick-two")] + [(k, v, 30 * v) for k, v in zip(names, vals)] + \
            [("l_maxiter", 1000, 20), ("g_maxiter", 2500, 30), ("mask_value", 1e-12, 1e-3), ("integral_dens", None, 2 + x), ("spherical", False, True)], \
            lambda o: [o.l_threshold_coeff, o.l_threshold_exp, o.l_threshold_obj, o.g_threshold_coeff, o.g_threshold_exp, o.g_threshold_obj,
                       o.l_maxiter, o.g_maxiter, o.integral_dens, small(o.run(2.0, 1e-8, 2))]
    # greedy_run: a search of the user which improves by a fixed amount with every function
    gain = [1e-7, 3e-9][n % 2]

    class Scripted(GreedyStrategy):
        def get_best_one_function_solution(self):
            return np.array([1.0, 1.0])

        def get_optimization_routine(self, params, *args, local=False):
            m = len(params) // 2
            return np.concatenate((np.full(m, 1.0), 1.0 + np.arange(m)))

        def eval_obj_function(self, params):
            return 1.0 - gain * (len(params) // 2)
    model = AtomicGaussianDensity(p, None, 1, 0)
    fitting = ScipyFit(grid, dens, model, measure=SquaredDifference())
    if w == "strategy":
        return Scripted, (fitting,), [("choice_function", "pick-one", "pick-two")], lambda o: small(o.run(2.0, 1e-12, 6))
    if w == "routine":
        gr = GreedyKLFPI(grid, dens, spherical=bool(n % 2)) if case["z"] % 2 else GreedyLeastSquares(grid, dens, spherical=bool(n % 2), l_maxiter=2)
        gr.model.change_numb_s_and_numb_p(ns, np_)
        return gr.get_optimization_routine, (np.concatenate((c, e)),), [("local", False, True)], lambda v: v
    obj = Scripted(fitting, ["pick-one", "pick-two"][case["z"] % 2])
    return obj.run, (1.5 + x,), [("d_threshold", 1e-8, gain / 2), ("max_numb_funcs", 30, 4), ("add_extra_choices", None, None), ("disp", False, True)], small


WHATS = ["uniform", "clenshaw", "from_molecule", "kl", "tsallis", "measure", "atomic", "molecular", "evaluate", "atoms", "slater", "choices",
         "redundant"]
FITS = ["fpi", "scipy", "fpi_run", "scipy_run", "greedy_ls", "greedy_kl", "greedy_run", "strategy", "routine"]


def api_case(whats):
    def case():
        s = st()
        return s.fixed_dictionaries({
            "what": s.sampled_from(whats), "seed": seeds(), "n": s.integers(2, 12), "z": s.integers(1, 30), "x": fl(0.1, 5.0),
            "ns": s.integers(1, 3), "np": s.integers(0, 2), "ion": s.sampled_from([None, None, "anion", "cation"]),
            # of every optional argument: its default or not; left out, by name or by position
            "other": s.lists(s.booleans(), min_size=12, max_size=12),
            "how": s.lists(s.sampled_from(["omit", "omit", "name"]), min_size=12, max_size=12), "positional": s.one_of(s.just(0), s.just(0), s.integers(0, 5), s.integers(0, 12), s.integers(8, 12)),
            "order": seeds(),
        })
    return case


def differ(a, b, path=""):
    """The first difference between two results, or None."""
    if isinstance(a, dict) and isinstance(b, dict):
        if set(a) != set(b):
            return f"{path}: {sorted(a)} and {sorted(b)}"
        return next((d for d in (differ(a[k], b[k], f"{path}[{k!r}]") for k in sorted(a)) if d), None)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return f"{path}: {len(a)} and {len(b)} entries"
        return next((d for d in (differ(x, y, f"{path}[{i}]") for i, (x, y) in enumerate(zip(a, b))) if d), None)
    if isinstance(a, (str, bool, type(None))) or isinstance(b, (str, bool, type(None))):
        return None if a == b else f"{path}: {a!r} and {b!r}"
    x, y = np.asarray(a), np.asarray(b)
    if x.dtype == object or y.dtype == object:
        return differ(list(x), list(y), path) if x.ndim and y.ndim else (None if a == b else f"{path}: {a!r} and {b!r}")
    if x.shape != y.shape or x.dtype != y.dtype or not np.array_equal(x, y, equal_nan=x.dtype.kind in "fc"):
        return f"{path}: {x.ravel()[:4]} {x.dtype} {x.shape} and {y.ravel()[:4]} {y.dtype} {y.shape}"
    return None


def check_api(case):
    out, given = [], None
    for way in ("explicit", "short"):
        fn, req, opts, see = calls(case)          # anew: nothing is shared between the two
        args, kw = list(req), {}
        vals = {}
        for i, (name, default, other) in enumerate(opts):
            vals[name] = other if case["other"][i] else default
        if case["what"] == "atoms" and vals["anion"] and vals["cation"]:
            vals["cation"] = False
        if case["what"] == "from_molecule" and not case["other"][0]:
            vals["extension"] = opts[1][2] / 2 + 0.2       # few points
        if case["what"] in ("fpi_run", "scipy_run") and not (vals["opt_coeffs"] or vals["opt_expons"]):
            vals["opt_coeffs"] = True
        if way == "explicit":
            kw = vals
        else:
            left = []
            for i, (name, default, other) in enumerate(opts):
                if i < case["positional"]:
                    args.append(vals[name])
                elif case["how"][i] == "omit" and vals[name] is default or vals[name] is None and default is None:
                    left.append(name)
                else:
                    kw[name] = vals[name]
            keys = sorted(kw)
            kw = {keys[i]: kw[keys[i]] for i in np.random.default_rng(case["order"]).permutation(len(keys))}
            given = (len(args) - len(req), sorted(kw), left)
        with warnings.catch_warnings(), np.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            np.random.seed(7)
            with contextlib.redirect_stdout(io.StringIO()) as text:
                try:
                    res = see(fn(*args, **kw))
                except Exception as err:      # a refusal is an outcome like any other, if it is the same
                    res = f"{type(err).__name__}: {err}"
            out.append(res if isinstance(res, str) else {"result": res, "printed lines": text.getvalue().count("\n")})
    d = differ(out[0], out[1])
    if d:
        raise Violation(f"{case['what']}: all arguments by name, or {given[0]} by position, {given[1]} by name and "
                        f"{given[2]} left out: {d}"[:600])
    failed = isinstance(out[0], str)
    return Info(bool(given[2] or given[0]) and not failed, case["what"], f"failed {out[0]}"[:60] if failed else "",
                "positional" if given[0] else "", "omitted" if given[2] else "")


PROPS = {
    "C36": {"subs": lambda: [
        Sub("calls", api_case(WHATS), check_api, 2600, "non-trivial: some argument left out or given by position, and a result"),
        Sub("fits", api_case(FITS), check_api, 900, "non-trivial: some argument left out or given by position, and a result")]},
}
