"""Greedy algorithms: candidate generation, redundancies, one-function solutions, runs."""
import contextlib
import io
import warnings

import numpy as np

import gen
import ref
from core import Info, Sub, Violation, require
from gen import A, fl, logfl, seeds
from ref import EPS, LD, close


def st():
    from hypothesis import strategies
    return strategies


# ------------------------------------------------------------------ C22: candidates
def insert_one(factor, c, e, val, i):
    """Documented guess i of the n+1 guesses."""
    n = len(e)
    if i == 0:
        new = e[0] / factor
    elif i < n:
        new = (e[i - 1] + e[i]) / 2
    else:
        new = e[n - 1] * factor
    return c[:i] + [val] + c[i:], e[:i] + [new] + e[i:]


def one_more(factor, c, e, val):
    return [insert_one(factor, c, e, val, i) for i in range(len(e) + 1)]


def two_more(factor, c, e, val):
    out = []
    for i in range(len(e) + 1):
        c1, e1 = insert_one(factor, c, e, val, i)
        for j in range(i, len(e) + 2):
            out.append(insert_one(factor, c1, e1, val, j))
    return out


def lose_one(factor, c, e, val):
    out = []
    for c2, e2 in two_more(factor, c, e, val):
        for j in range(len(e2)):
            out.append((c2[:j] + c2[j + 1:], e2[:j] + e2[j + 1:]))
    return out


def same_choices(name, got, want, exact_count):
    """Every choice is one of those wanted, and every wanted choice is there."""
    want = np.array([list(c) + list(e) for c, e in want])
    require(len(got) > 0, f"{name}: no choices")
    for g in got:
        require(isinstance(g, np.ndarray) and g.shape == want.shape[1:],
                lambda: f"{name}: a choice of shape {np.shape(g)}, expected {want.shape[1:]}")
    got = np.array(got)
    rel = 1e-12 * (np.abs(got)[:, None, :] + np.abs(want)[None, :, :]) + 1e-300
    eq = np.all(np.abs(got[:, None, :] - want[None, :, :]) <= rel, axis=2)
    require(bool(np.all(eq.any(axis=1))), lambda: f"{name}: choice {got[np.argmin(eq.any(axis=1))]} is not expected")
    require(bool(np.all(eq.any(axis=0))), lambda: f"{name}: choice {want[np.argmin(eq.any(axis=0))]} is missing")
    if exact_count:
        require(len(got) == len(want), lambda: f"{name}: {len(got)} choices, expected {len(want)}")


def choices_case():
    s = st()
    return s.fixed_dictionaries({
        "n": s.integers(1, 8), "which": s.sampled_from(["one", "two", "lose"]),
        "c": gen.arr(1, 8, 1e-3, 100.0, log=True, zeros=True), "e": gen.arr(1, 8, 1e-3, 1e4, log=True),
        "factor": s.one_of(fl(1.01, 100.0), fl(0.05, 0.99)), "val": s.one_of(s.none(), fl(0.0, 500.0)),
        "sorted": s.booleans(), "cast": s.sampled_from(["", "", "int", "int c", "int e", "readonly", "strided", "longdouble"]),
    })


def check_choices(case):
    from bfit.greedy import get_next_choices, get_two_next_choices, pick_two_lose_one
    n = case["n"] if case["which"] != "lose" else min(case["n"], 5)
    c, e = gen.fit_len(case["c"], n), gen.fit_len(case["e"], n)
    if case["sorted"]:
        e = np.sort(e)
    c, e = gen.cast(case.get("cast"), c, e)
    fn, want = {"one": (get_next_choices, one_more), "two": (get_two_next_choices, two_more),
                "lose": (pick_two_lose_one, lose_one)}[case["which"]]
    kc, ke = c.copy(), e.copy()
    val = 100.0 if case["val"] is None else case["val"]
    args = () if case["val"] is None else (case["val"],)
    got = fn(case["factor"], c, e, *args)
    close("coefficients after", c, kc, 0)
    close("exponents after", e, ke, 0)
    kc, ke = kc.astype(float), ke.astype(float)
    same_choices(fn.__name__, got, want(case["factor"], list(kc), list(ke), val), case["which"] != "lose")
    # the choices do not share memory with each other or with the parameters
    got[0][:] = -1.0
    close("coefficients after", c, kc, 0)
    close("exponents after", e, ke, 0)
    again = fn(case["factor"], c, e, *args)
    same_choices(fn.__name__ + " again", again, want(case["factor"], list(kc), list(ke), val), case["which"] != "lose")
    return Info(n > 1, case["which"], f"n{n}")


def redundant_case():
    s = st()
    return s.fixed_dictionaries({
        "eps": s.sampled_from([1e-3, 1e-3, 1e-2, 0.5]), "default": s.booleans(),
        # exponents on a lattice of eps/2 about a few well separated centres
        "at": s.lists(s.tuples(s.integers(0, 3), s.integers(-3, 3), fl(0.05, 0.45)).map(list), max_size=10),
        "lattice": s.sampled_from([0.5, 0.9, 1.3]), "base": s.sampled_from([1.0, 1.0, 5e-3, 50.0, 400.0, 1e4, 1e6]),
        "c": gen.arr(1, 10, 1e-2, 100.0, log=True, zeros=True),
        "cast": s.sampled_from(["", "", "", "int c", "readonly", "strided", "longdouble"]),
    })


def check_redundant(case):
    from bfit.greedy import remove_redundancies
    eps = 1e-3 if case["default"] else case["eps"]
    e = np.array([case.get("base", 1.0) * (4.0 if k > 1 else 1.0) + 50 * eps * k + eps * case["lattice"] * j + eps * 1e-3 * x for k, j, x in case["at"]])
    if len(e):
        gap = np.abs(e[:, None] - e[None, :])
        if np.any(np.abs(gap - eps) < 1e-6 * eps + 4 * EPS * e.max()):
            return Info(False, "on the threshold")
    c = gen.fit_len(case["c"], len(e))
    c, e = gen.cast(case.get("cast"), c, e)
    kc, ke = c.copy(), e.copy()
    nc, ne = remove_redundancies(c, e) if case["default"] else remove_redundancies(c, e, eps)
    close("coefficients after", c, kc, 0)
    close("exponents after", e, ke, 0)
    require(nc.shape == ne.shape and nc.ndim == 1, lambda: f"shapes {nc.shape}, {ne.shape}")
    require(len(ne) <= len(e), "more parameters than before")
    close("sum of the coefficients", nc.sum() if len(nc) else 0.0, LD(kc.sum()), 1e-12 * (kc.sum() + 1e-300))
    require(all(x in ke for x in ne), "an exponent which was not there before")
    for i in range(len(ne)):
        for j in range(i):
            require(abs(ne[i] - ne[j]) >= eps, lambda: f"exponents {ne[j]!r} and {ne[i]!r} are closer than {eps}")
    for x in ke:
        require(np.abs(ne - x).min() < eps, lambda: f"exponent {x!r} vanished without a close one")
    # parameters which are not close to any other are kept as they are, in their order
    alone = [i for i in range(len(ke)) if np.sum(np.abs(ke - ke[i]) < eps) == 1]
    pos = [int(np.where(ne == ke[i])[0][0]) for i in alone]
    require(pos == sorted(pos), "order of the parameters")
    for i, k in zip(alone, pos):
        require(nc[k] == kc[i], lambda: f"coefficient of the separate exponent {ke[i]!r} is {nc[k]!r}, not {kc[i]!r}")
    c2, e2 = remove_redundancies(nc, ne) if case["default"] else remove_redundancies(nc, ne, eps)
    close("coefficients of a second pass", c2, nc.astype(LD), 0)
    close("exponents of a second pass", e2, ne.astype(LD), 0)
    return Info(len(ne) < len(e), f"merged{len(e) - len(ne)}", "" if len(alone) == len(e) else "close")


# ------------------------------------------------------------------ densities for the greedy fits
def density_spec(wide=False):
    s = st()
    return s.fixed_dictionaries({
        "kind": s.sampled_from(["gauss", "slater", "powers"]),
        "a": gen.arr(1, 4, 0.2, 8.0, log=True), "w": gen.arr(1, 4, 0.2, 10.0, log=True),
        "scale": s.one_of(s.just(1.0), logfl(1e-2, 1e2)), "zeros": s.just(0.0),
    })


def density(d, r):
    a, w = A(d["a"]), A(d["w"])
    f = np.zeros(len(r))
    for i in range(len(a)):
        wi = w[i % len(w)]
        if d["kind"] == "gauss":
            f += wi * np.exp(-a[i] * r ** 2)
        elif d["kind"] == "slater":
            f += wi * np.exp(-a[i] * r)
        else:
            f += wi / (1 + a[i] * r ** 2) ** 3
    return f * d["scale"]


def greedy_grid():
    s = st()
    return s.one_of(
        s.fixed_dictionaries({"g": s.just("uniform"), "n": s.integers(25, 90), "lo": s.sampled_from([0.0, 0.0, 0.05]),
                              "hi": fl(2.0, 6.0), "dtype": s.sampled_from(["float64", "longdouble"])}),
        s.fixed_dictionaries({"g": s.just("cubic"), "shape": s.tuples(*[s.integers(5, 8)] * 3).map(list),
                              "seed": seeds(), "h": fl(0.4, 0.7), "skew": s.sampled_from([0.0, 0.3]),
                              "diag": s.booleans(), "dtype": s.just("float64")}))


# ------------------------------------------------------------------ C23: one-function solutions
def one_case():
    s = st()
    return s.fixed_dictionaries({
        "cls": s.sampled_from(["kl", "ls", "ls"]), "grid": greedy_grid(), "spherical": s.booleans(),
        "dens": density_spec(), "exact": s.booleans(), "cut": s.sampled_from([0.0, 0.0, 0.5, 0.8]), "cutseed": seeds(),
        "norm": s.booleans(), "N": s.one_of(s.none(), fl(0.3, 3.0)), "a": logfl(0.1, 4.0), "c": logfl(0.01, 100.0),
        "shell": s.one_of(s.just(0.0), s.just(0.0), fl(0.5, 1.0)),
        "counts": s.sampled_from(["", "", "", "uint8", "int64"]),
        "unit": s.one_of(s.just(1.0), s.just(1.0), logfl(1e-6, 1e6)),
    })


def check_one(case):
    from bfit import GreedyKLFPI, GreedyLeastSquares
    # the closed form of the divergence holds in any unit of length
    unit = case.get("unit", 1.0) if case["cls"] == "kl" else 1.0
    spec = dict(case["grid"])
    for k in ("lo", "hi", "h"):
        if k in spec:
            spec[k] = spec[k] * unit
    if spec["g"] == "cubic":
        spec["unit"] = unit
    case = dict(case, grid=spec)
    grid = gen.G(spec)
    pts = grid.points
    spherical = bool(case["spherical"] and pts.ndim == 1)
    r2 = ref.radii2(pts)
    r = np.sqrt(r2).astype(float) / unit
    exact = case["exact"] and case["cls"] == "ls"
    f = case["c"] * np.exp(-case["a"] * r ** 2) if exact else density(case["dens"], r)
    if case["shell"] and not exact:
        f = f * (1 - case["shell"] + case["shell"] * r ** 2)
    if case["cut"]:
        f[np.random.default_rng(case["cutseed"]).random(len(f)) < case["cut"]] = 0.0
    if case.get("counts") and not exact and f.max() > 0:      # a histogram
        f = np.round(f / f.max() * (250 if case["counts"] == "uint8" else 10 ** 4)).astype(case["counts"])
    w = ref.quad_weights(case["grid"], grid)
    if spherical:
        w = w * 4 * ref.PI * r2
    fl_ = f.astype(LD)
    if np.sum(f > 0) < 5 or not (w * fl_).sum() > 0 or len(np.unique(np.round(r[f > 0], 6))) < 3:
        return Info(False, "no density")
    N = None if case["N"] is None else float(case["N"] * (w * fl_).sum())
    keep = f.copy()
    ctx = f"({case['cls']}, {case['grid']['g']}, spherical {spherical})"
    missing = 0
    if case["cls"] == "kl":
        obj = GreedyKLFPI(grid, f, integral_dens=N, spherical=spherical)
        m2 = (w * fl_ * r2).sum()
        if not m2 > 0:
            return Info(False, "no density")
        p = obj.get_best_one_function_solution()
        close("coefficient " + ctx, p[0], (w * fl_).sum() if N is None else LD(N), 1e-11 * float((w * fl_).sum() if N is None else N))
        want = LD(1.5) * (w * fl_).sum() / m2
        close("exponent " + ctx, p[1], want, 1e-10 * float(want))
        require(len(p) == 2, "number of parameters")
    else:
        obj = GreedyLeastSquares(grid, f, normalize=case["norm"], integral_dens=N, spherical=spherical)
        p = np.asarray(obj.get_best_one_function_solution()).astype(float)
        require(p.shape == (2,), lambda: f"shape {p.shape}")
        on = f > 0
        sols = []
        for k in range(3):
            wt = fl_[on] ** k
            wt = wt / wt.sum()
            x, y = r2[on], np.log(fl_[on])
            mx, my = (wt * x).sum(), (wt * y).sum()
            var = (wt * (x - mx) ** 2).sum()
            cond = float(((wt * x * x).sum()) / var) if var > 0 else np.inf
            slope = (wt * (x - mx) * (y - my)).sum() / var if var > 0 else LD(0)
            c, a = np.exp(my - slope * mx), -slope
            if case["norm"]:
                c = c / (a / ref.PI) ** LD(1.5)
            sols.append((c, a, cond))
        if any(not abs(a) > 1e-6 or k > 1e5 for c, a, k in sols):
            return Info(False, "ill-conditioned")
        # a growing Gaussian cannot be normalised
        valid = [x for x in sols if np.isfinite(x[0])]
        if not valid:
            return Info(False, "no solution")
        missing = len(sols) - len(valid)
        sols = valid
        if exact:
            want = case["c"] / ((case["a"] / np.pi) ** 1.5 if case["norm"] else 1.0)
            close("exponent of an exact Gaussian " + ctx, p[1], LD(case["a"]), 1e-6 * case["a"])
            close("coefficient of an exact Gaussian " + ctx, p[0], LD(want), 1e-5 * want)
        near = [abs(p[1] - a) <= 1e-6 * abs(a) and abs(p[0] - c) <= 1e-5 * abs(c) for c, a, _ in sols]
        require(any(near), lambda: f"{p} is none of the weighted solutions {[(float(c), float(a)) for c, a, _ in sols]} {ctx}")
        objs = []
        for c, a, _ in sols:
            pref = (a / ref.PI) ** LD(1.5) if case["norm"] else LD(1)
            objs.append((w * (fl_ - c * pref * np.exp(-a * r2)) ** 2).sum())
        mine = min(o for o, ok in zip(objs, near) if ok)
        require(mine <= min(objs) * (1 + LD(1e-6)) + LD(1e-12) * (w * fl_ ** 2).sum(),
                lambda: f"the objective {mine} of the solution is not the least of {objs} {ctx}")
    close("density after", f, keep, 0)
    return Info(True, case["cls"], case["grid"]["g"], "exact" if exact else "", "zeros" if case["cut"] else "",
                "spherical" if spherical else "", "normalised" if case["norm"] and case["cls"] == "ls" else "",
                "growing" if missing else "", "shell" if case["shell"] else "", "unit" if unit != 1.0 else "")


# ------------------------------------------------------------------ C24: greedy runs
def greedy_case(cls):
    def make():
        s = st()
        return s.fixed_dictionaries({
            "cls": s.just(cls), "grid": greedy_grid(), "spherical": s.booleans(), "dens": density_spec(),
            "choice": s.sampled_from(["pick-one", "pick-one", "pick-one", "pick-two", "pick-two-lose-one"]),
            "max": s.integers(1, 5), "factor": fl(1.5, 12.0), "N": s.one_of(s.none(), s.none(), fl(0.5, 2.0)),
            "dthr": s.sampled_from([1e-8, 1e-8, 1e-3, 1e-14]), "seed": st().integers(0, 1000),
            "lmax": s.sampled_from([3, 10, 25]), "gmax": s.sampled_from([20, 60]), "norm": s.booleans(),
            "mask": logfl(1e-14, 1e-1), "cons": s.booleans(), "disp": s.booleans(), "rerun": s.booleans(), "before": s.booleans(),
            "eps": s.sampled_from([None, [1e-1, 1e-2, 1e-6, 1e-2, 1e-3, 1e-8], [1e-2, 1e-2, 1e-5, 1e-4, 1e-6, 1e-12],
                                   [1.0, 1e-4, 1e-4, 1e-3, 1e-2, 1e-7]]),
        })
    return make


def splits(m):
    return [(k, m - k) for k in range(m, -1, -1)]


def check_greedy(case):
    from bfit import GreedyKLFPI, GreedyLeastSquares
    grid = gen.G(case["grid"])
    pts = grid.points
    # A point at the origin with a weight lets functions collapse onto it (exponent to infinity):
    # the divergence on such a grid has no minimum.
    spherical = bool(pts.ndim == 1 and (case["spherical"] or float(pts[0]) == 0.0))
    r2 = ref.radii2(pts)
    f = density(case["dens"], np.sqrt(r2).astype(float))
    fq = f.astype(LD)
    w = ref.quad_weights(case["grid"], grid)
    if spherical:
        w = w * 4 * ref.PI * r2
    kl = case["cls"] == "kl"
    N = None if case["N"] is None else float(case["N"] * (w * fq).sum())
    Nval = float((w * fq).sum()) if N is None else N
    big = case["choice"] == "pick-two-lose-one"
    top = min(case["max"], 3 if big else 5)
    if kl:
        eps = case["eps"] or [1e-2, 1e-3, 1e-8, 1e-4, 1e-5, 1e-10]
        more_kw = {} if case["eps"] is None else dict(zip(("l_eps_coeff", "l_eps_exp", "l_eps_obj", "g_eps_coeff", "g_eps_exp",
                                                           "g_eps_obj"), eps))
        make = lambda: GreedyKLFPI(grid, f, choice=case["choice"], l_maxiter=case["lmax"], g_maxiter=case["gmax"],
                                   integral_dens=N, spherical=spherical, **more_kw)
        norm = True
    else:
        eps = (case["eps"] or [0, 0, 1e-5, 0, 0, 1e-8])[2::3]
        more_kw = {} if case["eps"] is None else dict(local_tol=eps[0], global_tol=eps[1])
        make = lambda: GreedyLeastSquares(grid, f, choice=case["choice"], l_maxiter=min(case["lmax"], 10), g_maxiter=case["gmax"],
                                          normalize=case["norm"], integral_dens=N, with_constraint=case["cons"],
                                          spherical=spherical, **more_kw)
        norm = case["norm"]
    fit = make()
    inc = 2 if case["choice"] == "pick-two" else 1
    require(fit.numb_func_increase == inc, "numb_func_increase")
    keep = f.copy()

    def terms(params, ns, np_):
        m = len(params) // 2
        g, tol, _, _ = ref.model([r2] * m, ref.kinds_of(ns, np_), norm, params[:m], params[m:])
        return g, tol

    def objective(params, ns, np_):
        g, tol = terms(params, ns, np_)
        if kl:
            v, _ = ref.kl_terms(fq, g, 1e-12)
            near = (np.abs(g - 1e-12) <= tol + 1e-20)
            err = (w * (np.abs(v) * 1e-12 + 1e-13 * fq + np.where(near, fq * 100, 0))).sum()
        else:
            v = (fq - g) ** 2
            err = (w * (v * 1e-12 + 1e-13 * (fq + np.abs(g)) * (np.abs(fq - g) + 1e-13 * fq))).sum()
        return (w * v).sum(), float(err) * 10 + 1e-290

    trace = []
    routine = fit.get_optimization_routine

    def spy(params, *args, **kw):
        out = routine(params, *args, **kw)
        local = kw.get("local", args[0] if args else False)
        trace.append((bool(local), np.array(params, dtype=float), np.array(out, dtype=float),
                      int(fit.model.num_s), int(fit.model.num_p)))
        return out

    def run(obj, disp, top_=top):
        np.random.seed(case["seed"])
        text = io.StringIO()
        with warnings.catch_warnings(), contextlib.redirect_stdout(text):
            warnings.simplefilter("ignore")
            res = obj.run(case["factor"], d_threshold=case["dthr"], max_numb_funcs=top_, disp=disp)
        require(bool(text.getvalue()) == disp, "display does not follow the argument disp")
        return res

    if case["before"]:
        run(fit, False, 2)
    fit.get_optimization_routine = spy
    res = run(fit, case["disp"])
    ctx = f"({case['cls']}, {case['choice']}, {case['grid']['g']})"
    close("density after", f, keep, 0)
    c, e = np.asarray(res["coeffs"]).astype(float), np.asarray(res["exps"]).astype(float)
    ns, np_ = int(res["num_s"]), int(res["num_p"])
    m = ns + np_
    require(c.shape == (m,) and e.shape == (m,), lambda: f"{c.shape} coefficients, {e.shape} exponents, {ns} s, {np_} p {ctx}")
    require(1 <= m <= max(1, top), lambda: f"{m} functions, at most {top} {ctx}")
    require(ns >= 1, "no s-type function")
    require((int(fit.model.num_s), int(fit.model.num_p)) == (ns, np_),
            lambda: f"the model has {fit.model.num_s} s, {fit.model.num_p} p, the result {ns}, {np_} {ctx}")
    require(bool(np.all(np.isfinite(c)) and np.all(np.isfinite(e))), lambda: f"not finite: {c} {e} {ctx}")
    require(bool(np.all(c >= 0) and np.all(e > 0)), lambda: f"negative: {c} {e} {ctx}")
    for part in (e[:ns], e[ns:]):
        for i in range(len(part)):
            for j in range(i):
                require(abs(part[i] - part[j]) >= 1e-3 * (1 - 1e-9), lambda: f"redundant exponents {e}, {ns} s-type {ctx}")
    # the history
    hist = [np.asarray(x).astype(float) for x in res["parameters_iteration"]]
    perf = np.asarray(res["performance"]).astype(float)
    require(perf.shape == (len(hist), 5), lambda: f"performance {perf.shape} of {len(hist)} iterations {ctx}")
    require([len(h) // 2 for h in hist] == [1 + inc * k for k in range(len(hist))],
            lambda: f"sizes {[len(h) for h in hist]} of the iterations {ctx}")
    close("last iteration", hist[-1], np.concatenate((c, e)).astype(LD), 0)
    scale = float((w * fq).sum()) if kl else float((w * fq * fq).sum())
    for k, h in enumerate(hist):
        ok = []
        for sp in ([(ns, np_)] if k == len(hist) - 1 else splits(len(h) // 2)):
            v, err = objective(h, *sp)
            g, tol = terms(h, *sp)
            gi = (w * g).sum()
            ok.append(abs(LD(perf[k, 4 if kl else 3]) - v) <= err + 1e-10 * abs(v) + 1e-14 * scale
                      and abs(LD(perf[k, 0]) - gi) <= 1e-10 * abs(gi)
                      and abs(LD(perf[k, 2]) - np.abs(fq - g).max()) <= 1e-12 * (fq + g).max()
                      and abs(LD(perf[k, 1]) - (w * np.abs(fq - g)).sum()) <= 1e-11 * (w * (fq + g)).sum())
        require(any(ok), lambda: f"performance {perf[k]} is not that of the parameters {h} of iteration {k} {ctx}")
    obj = perf[:, 4 if kl else 3]
    v, err = objective(hist[-1], ns, np_)
    close("objective function " + ctx, float(res["fun"]), v, err + 1e-10 * abs(float(v)) + 1e-14 * scale)
    for k in range(1, len(obj)):
        require(obj[k] <= obj[k - 1] + 1e-12 * scale, lambda: f"the objective rises: {obj} {ctx}")
    first = np.asarray(make().get_best_one_function_solution()).astype(float)
    if kl:
        # the mask of the caller is that of the divergence
        mask = float(case.get("mask", 1e-12))
        other = GreedyKLFPI(grid, f, mask_value=mask, spherical=spherical)
        g = terms(hist[-1], ns, np_)[0]
        v, _ = ref.kl_terms(fq, g.astype(float).astype(LD), mask)
        got = other.measure.evaluate(f, g.astype(float))
        close("divergence with the mask " + ctx, got, v, np.abs(v) * 1e-10 + 1e-11 * fq + 1e-290)
    close("first iteration " + ctx, hist[0], first.astype(LD), 1e-12 * np.abs(first))
    if kl:
        # where the model is masked (below 1e-12) the update takes the model for the density
        g = terms(hist[-1], ns, np_)[0]
        cut = float((w * np.where(g <= 1e-6, fq + g, 0)).sum()) * Nval / float((w * fq).sum())
        close("sum of the coefficients " + ctx, c.sum(), LD(Nval), 1e-7 * Nval + 2 * cut)
    refused = check_search(case, res, trace, hist, obj, objective, scale, inc, top, ctx)
    check_routine(case, grid, f, N, spherical, norm, r2, eps, trace, objective, scale, ctx)
    # reproducible, and without memory
    if case["rerun"]:
        res2 = run(fit if not case["before"] else make(), not case["disp"])
        for k in ("coeffs", "exps"):
            close(f"{k} of a second run {ctx}", np.asarray(res2[k]), np.asarray(res[k]).astype(LD), 0)
        require((res2["num_s"], res2["num_p"], bool(res2["success"]), res2["exit_information"])
                == (res["num_s"], res["num_p"], bool(res["success"]), res["exit_information"]), f"second run differs {ctx}")
        close(f"performance of a second run {ctx}", np.asarray(res2["performance"]), np.asarray(res["performance"]).astype(LD), 0)
    return Info(len(hist) > 1, case["cls"], case["choice"], case["grid"]["g"], "p-type" if np_ else "s only", f"m{m}",
                "redundant" if "Did Not" in res["exit_information"] else "", "spherical" if spherical else "",
                "a rejected step" if refused else "", "rejected, then accepted" if refused and "Did Not" not in res["exit_information"] else "",
                "constraint" if case["cons"] and not kl else "", "rerun" if case["rerun"] else "")


def check_search(case, res, trace, hist, obj, objective, scale, inc, top, ctx, signed=False):
    """The recorded search is the documented one, and the result says truly how it ended."""
    ns, np_ = int(res["num_s"]), int(res["num_p"])
    m = ns + np_
    # it ends for a reason
    more = m + inc <= top
    red = "Did Not Find" in res["exit_information"]
    if more:
        last = np.inf if len(obj) < 2 else abs(obj[-1] - obj[-2])
        require(last < case["dthr"] + 1e-12 * scale or red,
                lambda: f"ended with {m} of {top} functions without a reason: {res['exit_information']} {ctx}")
        if red:
            require(not res["success"], "success without finding a better function")
    info = res["exit_information"]
    require(isinstance(info, str) and len(info) > 0, "exit information")
    diff = np.inf if len(obj) < 2 else abs(obj[-1] - obj[-2])
    if not red and abs(diff - case["dthr"]) > 1e-12 * scale:
        if diff < case["dthr"]:
            require(bool(res["success"]), lambda: f"not successful although converged with {m} of {top} functions {ctx}")
            require("epsilon" in info, lambda: f"converged with {m} of {top} functions, but {info} {ctx}")
        else:
            require("Max number" in info and info.split()[-1] == str(m), lambda: f"ended with {m} of {top} functions, but {info} {ctx}")
    for k in range(1, len(obj) - 1):
        require(abs(obj[k] - obj[k - 1]) >= case["dthr"] - 1e-12 * scale,
                lambda: f"goes on after the objective {obj[k - 1]}, {obj[k]} in iteration {k} {ctx}")
    # the search: in every step all documented guesses are tried and the best one is refined; the
    # result is kept unless it is redundant or worse, and after a rejected step the factor is doubled
    block, step, rejected, cur, calls = [], 0, 0, (1, 0), []
    fn = {"pick-one": one_more, "pick-two": two_more, "pick-two-lose-one": lose_one}[case["choice"]]
    for local, inp, out, s_, p_ in trace:
        if local:
            block.append((inp, out, s_, p_))
            continue
        if not block:
            break
        vals = []
        for i_, o_, a_, b_ in block:
            vals.append(objective(o_, a_, b_)[0] if np.all(np.isfinite(o_)) and (signed or np.all(o_ >= 0)) else LD("inf"))
        best = min(vals)
        chosen = [k for k, b in enumerate(block) if len(b[1]) == len(inp) and np.array_equal(b[1], inp) and (b[2], b[3]) == (s_, p_)]
        require(len(chosen) > 0, f"the refined guess is none of the optimised guesses {ctx}")
        mine = min(vals[k] for k in chosen)
        require(mine <= best + LD(1e-9) * (abs(best) + LD(1e-3) * LD(scale)) or not np.isfinite(best),
                lambda: f"the refined guess has the objective {mine}, another one {best} {ctx}")
        a, b = cur
        h = list(hist[step])
        cs, cp, es, ep = h[:a], h[a:a + b], h[a + b:a + b + a], h[2 * a + b:]
        factor = case["factor"] * 2.0 ** rejected
        which = f"in step {step + 1}, {rejected} rejected before {ctx}"
        same_choices("guesses of s-type " + which, [x[0] for x in block if (x[2], x[3]) == (a + inc, b)],
                     [(c_[:a + inc] + cp, e_[:a + inc] + ep) for c_, e_ in fn(factor, cs, es, 100.0)], False)
        pg = [x[0] for x in block if (x[2], x[3]) == (a, b + inc)]
        require(all((x[2], x[3]) in ((a + inc, b), (a, b + inc)) for x in block), lambda: f"sizes of the guesses {which}")
        if b:
            same_choices("guesses of p-type " + which, pg,
                         [(cs + c_, es + e_) for c_, e_ in fn(factor, cp, ep, 100.0)], False)
        else:
            require(len(pg) == 3, lambda: f"{len(pg)} guesses of p-type, expected 3 {which}")
            news = [np.concatenate((x[a:a + inc], x[2 * a + inc:])) for x in pg]
            for (lo, hi), i in zip(((0, 1), (1, 10), (10, 100)), sorted(range(3), key=lambda i: news[i][0])):
                require(bool(np.all((news[i] >= lo) & (news[i] <= hi))), lambda: f"guess {pg[i]} of p-type is not in {lo} to {hi} {which}")
                require(list(pg[i][:a]) == cs and list(pg[i][a + inc:2 * a + inc]) == es,
                        lambda: f"p-type guess changes the s-type parameters {which}")
        calls.append(factor)
        if step + 1 < len(hist) and np.array_equal(out, hist[step + 1]):
            gap = gaps_of(out, s_, p_)
            require(gap >= 1e-3 * (1 - 1e-9), lambda: f"redundant exponents {out} are kept {which}")
            step, rejected, cur = step + 1, 0, (s_, p_)
        else:
            rejected += 1
            if np.all(np.isfinite(out)) and gaps_of(out, s_, p_) > 1e-3 * (1 + 1e-6):
                v, err = objective(out, s_, p_)
                require(v + err >= LD(obj[step]) - LD(1e-10) * abs(LD(obj[step])) - LD(1e-13) * scale,
                        lambda: f"a better, not redundant result {out} ({v} after {obj[step]}) was dropped {which}")
            require(rejected <= 5, lambda: f"{rejected} rejected steps in a row {ctx}")
        block = []
    if trace:
        require(step == len(hist) - 1, lambda: f"{len(hist) - 1} steps reported, {step} found {ctx}")
        require(cur == (ns, np_), lambda: f"result has {(ns, np_)} functions, the last step kept {cur} {ctx}")
        if more and red:
            require(rejected == 5, lambda: f"gives up after {rejected} rejected steps in a row {ctx}")
    return len(calls) - step


def gaps_of(params, s_, p_):
    """The least distance of two exponents of functions of the same type."""
    parts = (params[s_ + p_:2 * s_ + p_], params[2 * s_ + p_:])
    return min((abs(x - y) for part in parts for i, x in enumerate(part) for y in part[:i]), default=1.0)


def check_routine(case, grid, f, N, spherical, norm, r2, eps, trace, objective, scale, ctx):
    """Every guess is optimised the documented way: with the local thresholds and number of iterations,
    the best one with the global ones."""
    from bfit import AtomicGaussianDensity, KLDivergenceFPI, ScipyFit, SquaredDifference
    kl = case["cls"] == "kl"
    rng = np.random.default_rng(case["seed"])
    hit = 0
    for local in (True, False):
        calls = [t for t in trace if t[0] is local]
        for k in sorted(rng.permutation(len(calls))[:6]):
            _, inp, out, s_, p_ = calls[k]
            m = len(inp) // 2
            model = AtomicGaussianDensity(grid.points, num_s=s_, num_p=p_, normalize=norm)
            kind = "local" if local else "global"
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                if kl:
                    e = eps[:3] if local else eps[3:]
                    fit = KLDivergenceFPI(grid, f, model, 1e-12, N, spherical)
                    res = fit.run(inp[:m].copy(), inp[m:].copy(), maxiter=case["lmax"] if local else case["gmax"],
                                  c_threshold=e[0], e_threshold=e[1], d_threshold=e[2])
                    want = np.concatenate((res["coeffs"], res["exps"])).astype(float)
                    require(bool(np.allclose(out, want, rtol=1e-8, atol=1e-10 * np.abs(want).max(), equal_nan=True)),
                            lambda: f"{kind} optimisation of {inp} gives {out}, expected {want} {ctx}")
                else:
                    from scipy.optimize import nnls
                    g1 = np.array([ref.model([r2] * m, ref.kinds_of(s_, p_), norm, np.eye(m)[i], inp[m:])[0] for i in range(m)])
                    c0 = nnls(g1.astype(float).T, f, maxiter=10000)[0]
                    fit = ScipyFit(grid, f, model, measure=SquaredDifference(), integral_dens=N, spherical=spherical)

                    def least(jitter):
                        x = inp * (1 + [1e-13, 1e-15][jitter % 2] * jitter * np.random.default_rng(jitter).standard_normal(2 * m))
                        res = fit.run(c0 * (x[m:] / inp[m:]), x[m:], tol=eps[0 if local else 1], with_constraint=case["cons"],
                                      maxiter=min(case["lmax"], 10) if local else case["gmax"])
                        return objective(np.concatenate((res["coeffs"], res["exps"])).astype(float), s_, p_)[0]
                    a = objective(out, s_, p_)[0]
                    # The path of the optimiser may magnify rounding: then the results scatter, and decide nothing.
                    if local or not case["cons"]:
                        got = []
                        for jitter in range(12):
                            b = least(jitter)
                            if not b < LD("inf") or a <= LD(1.1) * b + LD(1e-6) * LD(scale):
                                break
                            got.append(b)
                        else:
                            require(max(got) > 3 * min(got) + LD(1e-6) * LD(scale),
                                    lambda: f"{kind} optimisation of {inp} ends at {a}, expected {b} {ctx}")
                        hit += 1
    return hit


def nnls_case():
    s = st()
    return s.fixed_dictionaries({
        "n": s.integers(1, 12), "pts": s.integers(15, 100), "hi": fl(1.5, 8.0), "e": gen.arr(1, 12, 1e-2, 1e3, log=True),
        "kinds": s.lists(s.booleans(), max_size=12), "norm": s.booleans(), "dens": density_spec(), "noise": s.sampled_from([0.0, 0.0, 1e-3, 0.3]),
        "seed": seeds(), "amp": fl(-10.0, 9.0)})


def check_nnls(case):
    """The coefficients are the non-negative least-squares solution (Karush-Kuhn-Tucker conditions)."""
    from bfit import GreedyLeastSquares
    r = np.linspace(0.0, case["hi"], case["pts"])
    e = gen.fit_len(case["e"], case["n"])
    p_kind = [bool(case["kinds"][i]) if i < len(case["kinds"]) else False for i in range(case["n"])]
    a = np.array([(r ** 2 if p else 1.0) * np.exp(-x * r ** 2) * ((x / np.pi) ** 1.5 * (x / 1.5 if p else 1.0) if case["norm"] else 1.0)
                  for x, p in zip(e, p_kind)]).T
    b = density(case["dens"], r)
    rng = np.random.default_rng(case["seed"])
    b = b * (1 + case["noise"] * rng.uniform(-1, 1, len(b)))
    if np.sqrt((a ** 2).sum(axis=0)).min() < 1e-12 * np.abs(a).max():
        return Info(False, "a function off the grid")
    ka, kb = a.copy(), b.copy()
    x = np.asarray(GreedyLeastSquares.optimize_using_nnls(b, a))
    close("density after", b, kb, 0)
    close("matrix after", a, ka, 0)
    # densities of other magnitudes (scipy's solver has a tolerance of its own which is absolute)
    amp = 10.0 ** case.get("amp", 0.0)
    small = case["n"] > 1 and amp * float(np.abs(a.T @ b).min()) < 1e-6
    if not small and amp != 1.0:
        y = np.asarray(GreedyLeastSquares.optimize_using_nnls(b * amp, a))
        if case["n"] == 1:
            al, bl = a[:, 0].astype(LD), (b * amp).astype(LD)
            close("coefficient", y, np.array([(al * bl).sum() / (al * al).sum()]), 1e-12 * np.abs(y))
        else:
            want = (b.astype(LD) ** 2).sum()
            got, other = ((b.astype(LD) - a.astype(LD) @ (y.astype(LD) / LD(amp))) ** 2).sum(), ((b.astype(LD) - a.astype(LD) @ x.astype(LD)) ** 2).sum()
            require(bool(np.all(y >= 0)) and abs(got - other) <= 1e-7 * want,
                    lambda: f"the density times {amp} has a sum of squares of {got} (times {amp} squared), not {other}: {y}, {x}")
    require(x.shape == (case["n"],), lambda: f"shape {x.shape}")
    require(bool(np.all(np.isfinite(x)) and np.all(x >= 0)), lambda: f"coefficients {x}")
    nrm = np.sqrt((a ** 2).sum(axis=0)) + 1e-300
    res = b - a @ x
    grad = (a.T @ res) / nrm
    scale = np.sqrt((b ** 2).sum()) + float(np.max(nrm * x)) * 1e-2 + 1e-300
    require(bool(np.all(grad <= 1e-7 * scale)), lambda: f"a larger coefficient lowers the squares: {grad} of {scale}, {x}")
    require(abs(float((grad * nrm * x).sum())) <= 1e-6 * scale ** 2, lambda: f"smaller coefficients lower the squares: {grad}, {x}")
    return Info(case["n"] > 1, f"n{min(case['n'], 6)}", "p-type" if any(p_kind) else "", "zeros" if np.any(x == 0) else "")


def extra_case():
    s = st()
    return s.fixed_dictionaries({
        "a": logfl(0.2, 1.0), "ratio": fl(3.0, 10.0), "c": s.tuples(fl(0.5, 5.0), fl(0.5, 5.0)).map(list),
        "n": s.integers(40, 80), "cls": s.sampled_from(["kl", "ls"])})


def check_extra(case):
    """Documented: add_extra_choices returns a list of further guesses, which are tried too."""
    from bfit import GreedyKLFPI, GreedyLeastSquares, UniformRadialGrid
    grid = UniformRadialGrid(case["n"], 0.0, float(4.0 / np.sqrt(case["a"])), dtype=np.float64)
    a = np.array([case["a"], case["a"] * case["ratio"]])
    f = case["c"][0] * np.exp(-a[0] * grid.points ** 2) + case["c"][1] * np.exp(-a[1] * grid.points ** 2)
    cls = GreedyKLFPI if case["cls"] == "kl" else GreedyLeastSquares
    fit = cls(grid, f, l_maxiter=5, g_maxiter=10)
    guess = np.concatenate((np.array(case["c"]), a))
    tried = []
    routine = fit.get_optimization_routine

    def spy(params, *args, **kw):
        tried.append(np.array(params, dtype=float))
        return routine(params, *args, **kw)
    fit.get_optimization_routine = spy
    asked = []

    def extra(params):
        asked.append(np.array(params, dtype=float))
        return [guess.copy()]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        fit.run(2.0, max_numb_funcs=2, add_extra_choices=extra)
    require(len(asked) >= 1 and asked[0].shape == (2,), lambda: f"add_extra_choices called with {asked}")
    if not any(t.shape == guess.shape and np.allclose(t, guess, rtol=1e-12) for t in tried):
        raise Violation("the guesses returned by add_extra_choices are never tried", key="extra-choices-not-tried")
    return Info(True, case["cls"])


def greedy_reject_case():
    s = st()
    return s.fixed_dictionaries({"cls": s.sampled_from(["kl", "ls"]), "which": s.integers(0, 4), "x": fl(0.0, 50.0),
                                 "i": s.integers(-5, 50), "name": s.text("pickonetw-", max_size=12)})


def check_greedy_reject(case):
    from bfit import GreedyKLFPI, GreedyLeastSquares, UniformRadialGrid
    grid = UniformRadialGrid(30, 0.0, 4.0)
    f = np.exp(-np.asarray(grid.points, float))
    cls = GreedyKLFPI if case["cls"] == "kl" else GreedyLeastSquares
    fit = cls(grid, f)
    k = case["which"]
    if k == 0:
        bad, exc = (lambda: fit.run(case["i"], max_numb_funcs=1)), TypeError
    elif k == 1:
        bad, exc = (lambda: fit.run(-case["x"], max_numb_funcs=1)), ValueError
    elif k == 2:
        if case["name"] in ("pick-one", "pick-two", "pick-two-lose-one"):
            return Info(False)
        bad, exc = (lambda: cls(grid, f, choice=case["name"])), ValueError
    elif k == 3:
        neg = f.copy()
        neg[case["i"] % 30] = -1e-6 - case["x"]
        bad, exc = (lambda: cls(grid, neg)), ValueError
    else:
        bad, exc = (lambda: fit.run(str(case["x"]), max_numb_funcs=1)), TypeError
    try:
        bad()
    except exc:
        pass
    else:
        raise Violation(f"invalid input {k} accepted: {case}")
    return Info(True, f"reject{k}")


# ------------------------------------------------------------------ C24: searches of the user
def scripted_case():
    s = st()
    return s.fixed_dictionaries({
        "n": s.integers(10, 20), "hi": fl(2.0, 4.0), "spherical": s.booleans(), "norm": s.booleans(),
        "dens": density_spec(), "choice": s.sampled_from(["pick-one", "pick-one", "pick-two", "pick-two-lose-one"]),
        "max": s.integers(1, 7), "factor": fl(1.5, 12.0), "dthr": s.sampled_from([1e-12, 1e-8, 1e-3, 1e-1]), "seed": seeds(),
        "odds": s.tuples(*[s.sampled_from([0, 1, 1, 2, 4, 8])] * 6).map(list), "e0": logfl(0.05, 2.0), "c0": fl(0.0, 2.0),
        "rerun": s.booleans(), "default": s.booleans(), "amp": s.one_of(s.just(0.0), fl(-8.0, 6.0)),
    })


OUTCOMES = ("improve", "worse", "redundant", "near", "nan", "same")


def check_scripted(case):
    """A search with the user's own optimisation, which now and then gives worse, redundant or impossible results."""
    from bfit import AtomicGaussianDensity, ScipyFit, SquaredDifference, UniformRadialGrid
    from bfit.greedy import GreedyStrategy
    grid = UniformRadialGrid(case["n"], 0.0, case["hi"], dtype=np.float64)
    pts = grid.points
    r2 = ref.radii2(pts)
    # densities of any magnitude, and thresholds in proportion
    amp = 10.0 ** case.get("amp", 0.0)
    case = dict(case, dthr=case["dthr"] * amp ** 2)
    f = density(case["dens"], pts) * amp
    fq = f.astype(LD)
    spherical = case["spherical"]
    w = ref.quad_weights({"g": "uniform"}, grid)
    if spherical:
        w = w * 4 * ref.PI * r2
    norm = case["norm"]
    odds = np.array([case["odds"][0] + 1] + case["odds"][1:], dtype=float)
    odds /= odds.sum()
    scale = float((w * fq * fq).sum())
    if not scale > 0:
        return Info(False, "no density")
    trace = []

    def basis(e, s_, p_):
        m = len(e)
        return np.array([ref.model([r2] * m, ref.kinds_of(s_, p_), norm, np.eye(m)[i], e)[0] for i in range(m)]).astype(float).T

    def linear(e, s_, p_):
        q = np.sqrt(w).astype(float)
        return np.linalg.lstsq(basis(e, s_, p_) * q[:, None], f * q, rcond=1e-10)[0]

    class Search(GreedyStrategy):
        def get_best_one_function_solution(self):
            e = np.array([case["e0"]])
            return np.concatenate((linear(e, 1, 0) * case["c0"], e))

        def get_optimization_routine(self, params, *args, local=False):
            s_, p_ = int(self.model.num_s), int(self.model.num_p)
            inp = np.array(params, dtype=float)
            m = len(inp) // 2
            rng = np.random.default_rng([case["seed"], int(local), *np.frombuffer(inp.tobytes(), np.uint32).tolist()])
            e = inp[m:] * np.exp(0.2 * rng.standard_normal(m)) if rng.random() < 0.5 else inp[m:].copy()
            what = OUTCOMES[rng.choice(len(OUTCOMES), p=odds)]
            groups = [g for g in (range(s_), range(s_, m)) if len(g) > 1]
            if what in ("redundant", "near") and groups:
                g = list(groups[rng.integers(0, len(groups))])
                i, j = rng.permutation(g)[:2]
                e[j] = e[i] + rng.choice([-1, 1]) * (rng.uniform(0, 0.99e-3) if what == "redundant" else rng.uniform(1.01e-3, 1e-2))
                e = np.abs(e)
            c = linear(e, s_, p_)
            if what == "worse":
                c = c * rng.uniform(1.2, 4.0)
            elif what == "nan" and (not local or p_ > self.num_p):
                c[rng.integers(0, m)] = rng.choice([np.nan, 1e200])
            elif what == "same":
                c, e = inp[:m].copy(), inp[m:].copy()
            out = np.concatenate((c, e))
            trace.append((bool(local), inp, out.copy(), s_, p_))
            return out

    def objective(params, ns, np_):
        m = len(params) // 2
        g, tol, _, _ = ref.model([r2] * m, ref.kinds_of(ns, np_), norm, params[:m], params[m:])
        v = (fq - g) ** 2
        if np.any(v > LD(1e290)):          # overflow, maybe at a point without weight
            return LD("inf"), np.inf
        return (w * v).sum(), float((w * (v * 1e-12 + 2 * np.abs(fq - g) * tol + tol * tol)).sum()) * 10 + 1e-290

    def make():
        model = AtomicGaussianDensity(pts, num_s=1, num_p=0, normalize=norm)
        fitting = ScipyFit(grid, f, model, measure=SquaredDifference(), spherical=spherical)
        if case["default"] and case["choice"] == "pick-one":
            return Search(fitting)
        return Search(fitting, case["choice"])
    fit = make()
    inc = 2 if case["choice"] == "pick-two" else 1
    top = min(case["max"], 4) if case["choice"] == "pick-two-lose-one" else case["max"]

    def run(obj):
        np.random.seed(case["seed"] % 2 ** 31)
        with warnings.catch_warnings(), np.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            return obj.run(case["factor"], d_threshold=case["dthr"], max_numb_funcs=top)
    res = run(fit)
    ctx = f"(scripted, {case['choice']})"
    calls = list(trace)
    c, e = np.asarray(res["coeffs"]), np.asarray(res["exps"])
    ns, np_ = int(res["num_s"]), int(res["num_p"])
    m = ns + np_
    require(c.shape == (m,) and e.shape == (m,), lambda: f"{c.shape} coefficients, {e.shape} exponents, {ns} s, {np_} p {ctx}")
    require(1 <= m <= top, lambda: f"{m} functions, at most {top} {ctx}")
    require((int(fit.model.num_s), int(fit.model.num_p)) == (ns, np_), lambda: f"model {fit.model.num_s}, {fit.model.num_p}, result {ns}, {np_} {ctx}")
    hist = [np.asarray(x).astype(float) for x in res["parameters_iteration"]]
    perf = np.asarray(res["performance"]).astype(float)
    require(perf.shape == (len(hist), 5), lambda: f"performance {perf.shape} of {len(hist)} iterations {ctx}")
    require([len(h) // 2 for h in hist] == [1 + inc * k for k in range(len(hist))], lambda: f"sizes {[len(h) for h in hist]} {ctx}")
    close("last iteration", np.concatenate((c, e)), hist[-1].astype(LD), 0)
    close("first iteration", hist[0], np.asarray(make().get_best_one_function_solution()).astype(LD), 0)
    sizes = [(1, 0)]
    for h in hist[1:]:
        hit = [t for t in calls if not t[0] and np.array_equal(t[2], h)]
        require(len(hit) > 0, f"a step which the optimisation never returned {ctx}")
        sizes.append((hit[0][3], hit[0][4]))
    obj = []
    for k, (h, sp) in enumerate(zip(hist, sizes)):
        v, err = objective(h, *sp)
        obj.append(float(v))
        close(f"least squares of iteration {k} {ctx}", perf[k, 3], v, err)
    close(f"objective function {ctx}", float(res["fun"]), *objective(hist[-1], ns, np_))
    for k in range(1, len(obj)):
        require(obj[k] <= obj[k - 1] + 1e-11 * (scale + obj[k - 1]), lambda: f"the objective rises: {obj} {ctx}")
    big = scale + max(obj)
    refused = check_search(case, res, calls, hist, obj, objective, big, inc, top, ctx, signed=True)
    if case["rerun"]:
        res2 = run(fit)
        for k in ("coeffs", "exps", "fun", "performance"):
            close(f"{k} of a second run {ctx}", np.asarray(res2[k]), np.asarray(res[k]).astype(LD), 0)
    return Info(len(hist) > 1 and refused > 0, case["choice"], f"m{m}", "p-type" if np_ else "s only",
                "gave up" if "Did Not" in res["exit_information"] else "", f"refused{min(refused, 6)}",
                "converged" if "epsilon" in res["exit_information"] else "")


PROPS = {
    "C22": {"subs": lambda: [
        Sub("choices", choices_case, check_choices, 3000, "non-trivial: more than one function"),
        Sub("redundancies", redundant_case, check_redundant, 4000, "non-trivial: some exponents are merged")]},
    "C23": {"subs": lambda: [
        Sub("one_function", one_case, check_one, 3000, "non-trivial: the solution is well-conditioned")]},
    "C24": {"subs": lambda: [
        Sub("kl", greedy_case("kl"), check_greedy, 400, "non-trivial: functions were added"),
        Sub("least_squares", greedy_case("ls"), check_greedy, 240, "non-trivial: functions were added"),
        Sub("scripted", scripted_case, check_scripted, 1500, "non-trivial: functions were added and steps refused"),
        Sub("nnls", nnls_case, check_nnls, 3000, "non-trivial: more than one function"),
        Sub("extra_choices", extra_case, check_extra, 16, "every case is non-trivial", thorough=2),
        Sub("reject", greedy_reject_case, check_greedy_reject, 400, "non-trivial: an invalid input was tried")]},
}
