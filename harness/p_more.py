"""Tables of progress, grids and measures of the user, equivalent formulations of one problem."""
import contextlib
import io
import re
import warnings

import numpy as np

import gen
import p_fit
import ref
from core import Info, Sub, Violation, require
from gen import A, fl, logfl, seeds
from p_fit import Problem, no_stop, opts, problem_spec
from ref import LD, close


def st():
    from hypothesis import strategies
    return strategies


# ------------------------------------------------------------------ C33: tables of progress
NUM = r"[-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|nan|inf)"


def rows(text):
    """The heading and the rows of numbers of the table with bars."""
    head, out = None, []
    for line in text.splitlines():
        if not line.strip().startswith("|"):
            continue
        cells = [x.strip() for x in line.strip().strip("|").split("|")]
        if all(re.fullmatch(NUM, x) for x in cells):
            out.append(cells)
        elif head is None and not any(re.fullmatch(NUM, x) for x in cells):
            head = cells
    return head, out


FIVE = ("integr", "l1", "infinity", "squares", "kullback")


def columns(head, words):
    """The positions of the columns whose headings contain these words."""
    low = [re.sub(r"[\s_-]+", " ", x.lower()) for x in head or []]
    pos = []
    for w in words:
        hit = [i for i, x in enumerate(low) if w in x]
        require(len(hit) == 1, lambda: f"no heading for {w!r} in {head}")
        pos.append(hit[0])
    return pos


def shown(name, text, value, tol=0.0, ctx=""):
    """Is this the number, rounded to the digits which are shown?"""
    value = float(value)
    got = float(text)
    if not np.isfinite(value) or not np.isfinite(got):
        require(got == value or (np.isnan(got) and np.isnan(value)), lambda: f"{name}: {text} shown, {value} is right {ctx}")
        return
    mant = text.lower().split("e")
    digits = len(mant[0].split(".")[1]) if "." in mant[0] else 0
    unit = 10.0 ** (-digits + (int(mant[1]) if len(mant) > 1 else 0))
    require(abs(got - value) <= 0.5001 * unit * (1 + 1e-9) + tol + 1e-12 * abs(value),
            lambda: f"{name}: {text} shown, {value!r} is right {ctx}")


def final_lines(text):
    """What is said after the table: flag, coefficients and exponents."""
    out = {}
    hit = re.findall(r"^Successful\?:\s*(\w+)\s*$", text, re.M)
    require(len(hit) == 1, lambda: f"{len(hit)} lines on the success")
    out["success"] = hit[0]
    for name, end in (("Coefficients", "Exponents"), ("Exponents", "$")):
        hit = re.findall(rf"^{name}\s*(\[[^\]]*\])", text, re.M | re.S)
        require(len(hit) == 1, lambda: f"{name} shown {len(hit)} times")
        out[name] = np.array([float(x) for x in re.findall(NUM, hit[0])])
        require("..." not in hit[0], "abbreviated")
    return out


def check_final(text, res, ctx):
    fin = final_lines(text)
    require(fin["success"] == str(bool(res["success"])), lambda: f"success {fin['success']} shown, {res['success']} returned {ctx}")
    for name, key in (("Coefficients", "coeffs"), ("Exponents", "exps")):
        want = np.asarray(res[key]).astype(float)
        require(fin[name].shape == want.shape, lambda: f"{name} {fin[name]} shown, {want} returned {ctx}")
        if np.all(np.isfinite(want)):
            close(f"{name} shown {ctx}", fin[name], want.astype(LD), 1e-8 + 1e-7 * np.abs(want))


def five(pr, c, e, mask):
    """The five measures with bounds of their errors, nan where the sign of the model is not sure."""
    want, positive, _ = pr.goodness(np.asarray(c), np.asarray(e), mask)
    return [(float(v), 4 * float(t)) if i < 4 or positive else None for i, (v, t) in enumerate(want)]


def check_five(pr, cells, pos, c, e, mask, ctx):
    for name, i, want in zip(("integral", "L1", "L infinity", "least squares", "Kullback-Leibler"), pos, five(pr, c, e, mask)):
        if want is not None and np.isfinite(want[0]):
            shown(name, cells[i], want[0], want[1], ctx)


def table_case(kind):
    def make():
        s = st()
        return s.fixed_dictionaries({
            "kind": s.just(kind),
            "p": problem_spec(max_n=30, max_basis=4, emax=3.0, densities=["gauss", "slater", "powers"], large=False),
            "opt": s.sampled_from(["both", "coeffs", "expons"]), "maxiter": s.integers(1, 6 if kind == "fpi" else 5),
            "cons": s.booleans(), "measure": s.sampled_from(["ls", "kl", "tsallis"]), "alpha": s.sampled_from([1.1, 1.5]),
            "stop": s.booleans(), "choice": s.sampled_from(["pick-one", "pick-one", "pick-two"]), "top": s.integers(1, 4),
            "factor": fl(1.5, 6.0), "seed": s.integers(0, 1000), "cls": s.sampled_from(["kl", "ls"]),
            "dthr": s.sampled_from([1e-8, 1e-3, 1e-1]),
        })
    return make


def table_problem(case):
    p = dict(case["p"])
    if p["grid"]["g"] == "clenshaw":
        p["e"] = [min(x, 0.8) for x in A(p["e"])]
    return Problem(p)


def talk(fn):
    text = io.StringIO()
    with warnings.catch_warnings(), contextlib.redirect_stdout(text):
        warnings.simplefilter("ignore")
        return fn(), text.getvalue()


def check_table_fpi(case):
    from bfit import KLDivergenceFPI
    pr = table_problem(case)
    if not pr.intf > 0:
        return Info(False, "no density")
    o = opts(case["opt"])
    fit = KLDivergenceFPI(pr.grid, pr.f, pr.model, integral_dens=pr.N, spherical=pr.spherical)
    th = {} if case["stop"] else no_stop()

    def run(k, disp):
        return talk(lambda: fit.run(pr.c0.copy(), pr.e0.copy(), maxiter=k, disp=disp, **th, **o))
    res, text = run(case["maxiter"], True)
    ctx = f"(fpi, {case['opt']}, {pr.kind})"
    head, table = rows(text)
    n = len(res["fun"])
    if not fpi_ok(pr, o, n):
        return Info(False, "degenerate")
    require(len(table) == n, lambda: f"{len(table)} rows of {n} iterations {ctx}")
    pos = columns(head, FIVE)
    it, dc, de, df = columns(head, ("iteration", "coeff", "exp", "objective"))
    old = (pr.c0, pr.e0)
    last = None
    for k in range(1, n + 1):
        cells = table[k - 1]
        sub = res if k == n else run(k, False)[0]
        c, e = np.asarray(sub["coeffs"]), np.asarray(sub["exps"])
        where = f"iteration {k} {ctx}"
        require(cells[it] == str(k), lambda: f"{cells[it]} shown in {where}")
        check_five(pr, cells, pos, c, e, 0.0, where)
        for name, i, x, y in (("change of coefficients", dc, c, old[0]), ("change of exponents", de, e, old[1])):
            shown(name, cells[i], np.max(np.abs(x - y)), 1e-10 * float(np.max(np.abs(x))), where)
        want = five(pr, c, e, 0.0)[4]
        if k == 1:
            shown("change of the objective", cells[df], np.inf, 0.0, where)
        elif want is not None and last is not None:
            shown("change of the objective", cells[df], abs(want[0] - last[0]), want[1] + last[1], where)
        old, last = (c, e), want
    check_final(text, res, ctx)
    return Info(n > 1, "fpi", case["opt"], pr.kind, f"rows{n}")


def fpi_ok(pr, o, n):
    return p_fit.fpi_reference(pr, pr.c0, pr.e0, 0.0, steps=n, oc=o["opt_coeffs"], oe=o["opt_expons"])[1]


def check_table_scipy(case):
    import bfit.fit
    from bfit import KLDivergence, ScipyFit
    pr = table_problem(case)
    if not pr.intf > 0:
        return Info(False, "no density")
    o = opts(case["opt"])
    if case["opt"] == "expons" and case["measure"] == "ls" and case["seed"] % 2 and pr.m > 1:
        pr.c0 = pr.c0.copy()
        pr.c0[0] = -0.3 * pr.c0[-1]       # valid as long as it is kept fixed
    meas = KLDivergence(mask_value=1e-18) if case["measure"] == "kl" else p_fit.make_measure(case)
    method = case["kind"]

    def run(k, disp):
        """A run, and the parameters which scipy hands to the display (or else: all which were evaluated)."""
        fit = ScipyFit(pr.grid, pr.f, pr.model, measure=meas, method=method, integral_dens=pr.N, spherical=pr.spherical)
        seen, func, inner = [], fit.func, getattr(bfit.fit, "minimize", None)
        evals = []

        def spy(x, *a, **kw):
            evals.append(np.array(x, dtype=float))
            return func(x, *a, **kw)

        def mini(*a, callback=None, **kw):
            if callback is None:
                return inner(*a, **kw)
            if method == "slsqp":
                call = lambda xk: (seen.append(np.array(xk, dtype=float)), callback(xk))[1]
            else:
                call = lambda xk, state: (seen.append(np.array(xk, dtype=float)), callback(xk, state))[1]
            return inner(*a, callback=call, **kw)
        fit.func = spy
        try:
            if inner is not None:
                bfit.fit.minimize = mini
            out = talk(lambda: fit.run(pr.c0.copy(), pr.e0.copy(), maxiter=k, disp=disp, with_constraint=case["cons"], **o))
        finally:
            if inner is not None:
                bfit.fit.minimize = inner
        return out + (seen, evals)
    try:
        res, text, seen, evals = run(case["maxiter"], True)
    except ValueError as ex:
        if "infs or NaNs" in str(ex):
            return Info(False, "overflow")
        raise
    ctx = f"({method}, {case['opt']}, {case['measure']}, {pr.kind})"
    if not (np.all(np.isfinite(res["coeffs"])) and np.all(np.isfinite(res["exps"]))):
        return Info(False, "not finite")
    plain, silent = run(case["maxiter"], False)[:2]
    require(silent == "", lambda: f"{silent!r} shown although not asked {ctx}")
    close(f"coefficients without the display {ctx}", np.asarray(plain["coeffs"]), np.asarray(res["coeffs"]).astype(LD), 0)
    close(f"exponents without the display {ctx}", np.asarray(plain["exps"]), np.asarray(res["exps"]).astype(LD), 0)
    if method == "slsqp":
        head, table = rows(text)
        pos = columns(head, FIVE)
    else:
        # the table with bars is that of scipy, ours are lines of named numbers
        table, pos = [], [0, 1, 2, 3, 4]
        for line in text.splitlines():
            hit = re.findall(r"([A-Za-z][A-Za-z0-9 \-]*?)\s*:\s*(" + NUM + r")(?=\s*(?:,|$))", line)
            low = [h[0].lower() for h in hit]
            if any(b in a for a in low for b in FIVE):
                require(len(hit) == 5 and all(b in a for a, b in zip(low, FIVE)), lambda: f"names {low} {ctx}")
                table.append([h[1] for h in hit])
    nt = False
    require(not seen or len(seen) == len(table), lambda: f"{len(table)} rows of {len(seen)} iterations {ctx}")
    for k in range(1, len(table) + 1):
        found = None
        for x in [seen[k - 1]] if seen else evals:
            if o["opt_coeffs"] and o["opt_expons"]:
                c, e = x[:pr.m], x[pr.m:]
            else:
                c, e = (x, pr.e0) if o["opt_coeffs"] else (pr.c0, x)
            try:
                check_five(pr, table[k - 1], pos, c, e, 1e-18, f"row {k} of {len(table)} {ctx}")
                found = None
                break
            except Violation as ex:
                found = ex
        if found is not None:
            raise found
        nt = True
    require(len(table) >= 1 or method == "slsqp", lambda: f"no rows {ctx}")
    check_final(text, res, ctx)
    return Info(nt and pr.m > 1, method, case["opt"], case["measure"], pr.kind, f"rows{len(table)}", "success" if res["success"] else "")


def check_table_greedy(case):
    from bfit import GreedyKLFPI, GreedyLeastSquares
    p = dict(case["p"], model="atomic", displaced=False, N=None)
    p["basis"] = [[1, 0], [1, 0]]
    if p["grid"]["g"] == "clenshaw":
        p["grid"] = {"g": "uniform", "n": 30, "lo": 0.1, "hi": 5.0, "dtype": "float64"}
    pr = Problem(p)
    if not pr.intf > 0 or np.sum(pr.f > 0) < 5 or float(pr.r2s[0].min()) == 0.0 and not pr.spherical:
        return Info(False, "no density")
    cls = GreedyKLFPI if case["cls"] == "kl" else GreedyLeastSquares
    kw = dict(l_maxiter=5, g_maxiter=10, choice=case["choice"], spherical=pr.spherical)
    if case["cls"] == "ls":
        kw["normalize"] = pr.norm
    fit = cls(pr.grid, pr.f, **kw)
    np.random.seed(case["seed"])
    res, text = talk(lambda: fit.run(case["factor"], max_numb_funcs=case["top"], d_threshold=case["dthr"], disp=True))
    norm = True if case["cls"] == "kl" else pr.norm
    ctx = f"(greedy {case['cls']}, {case['choice']})"
    head, table = rows(text)
    pos = columns(head, FIVE)
    nf, a, b, df = columns(head, ("functions", "s type", "p type", "objective"))
    hist = [np.asarray(h).astype(float) for h in res["parameters_iteration"]]
    require(len(table) >= len(hist), lambda: f"{len(table)} rows of {len(hist)} functions {ctx}")
    r2 = ref.radii2(pr.pts)
    at = 0
    inc = 2 if case["choice"] == "pick-two" else 1
    objs = []
    for k, cells in enumerate(table):
        ns, np_ = int(cells[a]), int(cells[b])
        require(int(cells[nf]) == ns + np_, lambda: f"{cells} functions {ctx}")
        if k and ns + np_ == len(hist[at]) // 2 + inc:
            at += 1
        require(at < len(hist) and ns + np_ == len(hist[at]) // 2, lambda: f"row {k} is of {ns + np_} functions {ctx}")
        h, m = hist[at], ns + np_
        q = QuickProblem(pr, [r2] * m, ref.kinds_of(ns, np_), norm)
        check_five(q, cells, pos, h[:m], h[m:], 1e-12 if case["cls"] == "kl" else 1e-18, f"row {k} {ctx}")
        want = five(q, h[:m], h[m:], 1e-12)[4 if case["cls"] == "kl" else 3]
        if at == len(objs):
            objs.append(want)
        if k and None not in objs:
            if at == 0:
                require(not np.isfinite(float(cells[df])), lambda: f"change {cells[df]} of the first function {ctx}")
            else:
                shown("change of the objective", cells[df], abs(objs[at][0] - objs[at - 1][0]), objs[at][1] + objs[at - 1][1], f"row {k} {ctx}")
    require(at == len(hist) - 1, lambda: f"{at + 1} of {len(hist)} iterations shown {ctx}")
    check_final(text, res, ctx)
    for name, want in (("s-type", res["num_s"]), ("p-type", res["num_p"])):
        hit = re.findall(rf"^Number of {name}:\s*(\d+)", text, re.M)
        require(hit == [str(want)], lambda: f"number of {name} {hit} shown, {want} returned {ctx}")
    require(res["exit_information"] in text, lambda: f"exit information not shown {ctx}")
    hit = re.findall(rf"^Objective Function:\s*({NUM})", text, re.M)
    require(len(hit) == 1 and abs(float(hit[0]) - float(res["fun"])) <= 1e-9 * abs(float(res["fun"])),
            lambda: f"objective {hit} shown, {res['fun']} returned {ctx}")
    return Info(len(hist) > 1, "greedy " + case["cls"], case["choice"], f"rows{len(table)}", "p-type" if res["num_p"] else "",
                "rejected" if len(table) > len(hist) else "")


class QuickProblem(Problem):
    """The problem with another basis."""

    def __init__(self, pr, r2s, kinds, norm):
        self.r2s, self.kinds, self.norm, self.f, self.w, self.m = r2s, kinds, norm, pr.f, pr.w, len(kinds)


def check_table(case):
    return {"fpi": check_table_fpi, "slsqp": check_table_scipy, "trust-constr": check_table_scipy,
            "greedy": check_table_greedy}[case["kind"]](case)


# ------------------------------------------------------------------ C34: grids and measures of the user
def own_case(kind):
    def make():
        s = st()
        own = lambda **kw: problem_spec(**{**{"own": True, "max_n": 40, "large": False, "units": True}, **kw})
        if kind == "goodness":
            return s.fixed_dictionaries({"p": own(with_s=False, zeros=True, emax=20.0, own="minus"), "cls": s.sampled_from(["fpi", "scipy"]),
                                         "mask": s.sampled_from([0.0, 1e-12]), "neg": s.sampled_from([False, False, True]),
                                         "others": s.integers(0, 1), "default_mask": s.booleans(),
                                         "measure": s.sampled_from(["ls", "quartic", "chi2"]), "alpha": s.just(1.5)})
        if kind == "steps":
            return s.fixed_dictionaries({"p": own(zeros=True), "k": s.integers(1, 5),
                                         "opt": s.sampled_from(["both", "coeffs", "expons"]), "pre": s.booleans(),
                                         "mask": s.sampled_from([0.0, 0.0, 1e-3])})
        if kind == "objective":
            return s.fixed_dictionaries({
                "p": s.one_of(own(with_s=False, zeros=True, emax=20.0), own(with_s=False, zeros=True, emax=20.0, own="minus"),
                              problem_spec(with_s=False, max_n=40, emax=20.0, large=False)),
                "measure": s.sampled_from(["quartic", "chi2", "huber", "ls", "kl", "tsallis"]), "alpha": s.sampled_from([1.5, 0.7]),
                "weights": s.one_of(s.none(), gen.arr(1, 60, 0.0, 5.0), gen.arr(1, 60, 1e-6, 1e6, log=True)), "fixed": s.sampled_from(["none", "coeffs", "expons"]),
                "method": s.sampled_from(["slsqp", "trust-constr"]), "neg": s.just(False), "evals": s.integers(1, 2),
                "vary": s.sampled_from(["ce", "c", "e", ""]), "cross": s.booleans()})
        return s.fixed_dictionaries({
            "p": s.one_of(own(units=False, emax=3.0, max_basis=3, densities=["gauss", "slater", "powers"]),
                          problem_spec(max_n=40, max_basis=3, emax=3.0, densities=["gauss", "slater"], large=False)),
            "measure": s.sampled_from(["quartic", "chi2", "huber", "ls"]), "alpha": s.just(1.5),
            "opt": s.sampled_from(["both", "coeffs", "expons"]), "cons": s.booleans(), "maxiter": s.sampled_from([1, 5, 40]),
            "tol": s.sampled_from([1e-14, 1e-8]), "method": s.just("slsqp"), "disp": s.booleans(), "low": s.booleans()})
    return make


def own_greedy_case():
    s = st()
    return s.fixed_dictionaries({
        "grid": gen.duck_grid_spec(40), "cls": s.sampled_from(["kl", "ls"]), "dens": fl(0.3, 2.0), "top": s.integers(1, 3),
        "factor": fl(1.5, 5.0), "seed": s.integers(0, 1000), "spherical": s.booleans(), "norm": s.booleans()})


def check_own_greedy(case):
    """A greedy search on the user's own quadrature is that on the library's grid with the same rule."""
    from bfit import GreedyKLFPI, GreedyLeastSquares
    pts, w = gen.own_parts(case["grid"])
    n = len(pts)
    if n < 8:
        return Info(False, "few points")
    spherical = bool(case["spherical"] and pts.ndim == 1)
    r2 = ref.radii2(pts)
    f = np.exp(-case["dens"] * np.sqrt(r2).astype(float))
    fq = f.astype(LD)
    cls = GreedyKLFPI if case["cls"] == "kl" else GreedyLeastSquares
    kw = dict(l_maxiter=4, g_maxiter=8, spherical=spherical)
    norm = True
    if case["cls"] == "ls":
        norm = kw["normalize"] = case["norm"]
    fit = cls(gen.OwnGrid(pts, w), f, **kw)
    wq = w.astype(LD) * (4 * ref.PI * r2 if spherical else 1)
    np.random.seed(case["seed"])
    res, _ = talk(lambda: fit.run(case["factor"], max_numb_funcs=case["top"]))
    ns, np_ = res["num_s"], res["num_p"]
    m = ns + np_
    c, e = np.asarray(res["coeffs"]).astype(float), np.asarray(res["exps"]).astype(float)
    if not np.all(np.isfinite(c)) or not np.all(np.isfinite(e)):
        return Info(False, "not finite")
    g = ref.model([r2] * m, ref.kinds_of(ns, np_), norm, c, e)[0]
    if case["cls"] == "kl":
        v = ref.kl_terms(fq, g, 1e-12)[0]
        if float(g.min()) < 1e-9:
            return Info(False, "masked")
    else:
        v = (fq - g) ** 2
    close(f"objective function ({case['cls']})", res["fun"], (wq * v).sum(), 1e-10 * float((wq * (np.abs(v) + fq)).sum()))
    perf = np.asarray(res["performance"])[-1]
    close("integral", perf[0], (wq * g).sum(), 1e-10 * float((wq * np.abs(g)).sum()))
    one = fit.__class__(gen.OwnGrid(pts, w), f, **kw).get_best_one_function_solution()
    if case["cls"] == "kl":
        close("first coefficient", one[0], (wq * fq).sum(), 1e-11 * float((wq * fq).sum()))
        want = LD(1.5) * (wq * fq).sum() / (wq * fq * r2).sum()
        close("first exponent", one[1], want, 1e-10 * float(want))
    return Info(m > 1, case["cls"], f"dim{case['grid']['dim']}", "spherical" if spherical else "")


# ------------------------------------------------------------------ C35: equivalent formulations
def same_case():
    s = st()
    return s.fixed_dictionaries({
        "p": s.one_of(problem_spec(max_n=40, zeros=True, units=True),
                      problem_spec(own=True, max_n=40, zeros=True, large=False, units=True)),
        "how": s.sampled_from(["one centre", "two centres", "two centres", "centres", "twin", "zero", "points", "merged", "dtype", "integral", "order",
                               "grid"]),
        "k": s.integers(1, 6), "opt": s.sampled_from(["both", "coeffs", "expons"]), "seed": seeds(), "part": fl(0.1, 0.9),
        "measure": s.sampled_from(["ls", "kl", "tsallis"]), "alpha": s.sampled_from([1.5, 0.7]),
    })


def check_same(case):
    """A second formulation of the same problem: the same model, objective, gradient, report and iteration."""
    from bfit import AtomicGaussianDensity, KLDivergenceFPI, MolecularGaussianDensity, ScipyFit
    p = dict(case["p"])
    how = case["how"]
    if p["grid"]["g"] == "clenshaw":
        p["e"] = [min(x, 0.9) for x in A(p["e"])]
    if how == "one centre":
        p["model"] = "atomic"
    pr = Problem(p)
    if not pr.intf > 0:
        return Info(False, "no density")
    rng = np.random.default_rng(case["seed"])
    o = opts(case["opt"])
    grid2, f2, N2, sph2 = pr.grid, pr.f.copy(), pr.N, pr.spherical
    c2, e2 = pr.c0.copy(), pr.e0.copy()
    back = np.arange(pr.m)             # where in the second problem the functions of the first are
    share = np.ones(pr.m)              # c of the first = share * c[back] of the second
    basis, coords = pr.basis, pr.coords
    atomic = pr.kind == "atomic"
    mk = lambda g, b, x: MolecularGaussianDensity(g.points, x, b, normalize=pr.norm)
    if how == "one centre":
        mod2 = mk(grid2, basis, coords)
    elif how in ("two centres", "centres"):
        # one of the centres in two parts at the same place, or just another order of the centres
        parts, k = [], 0
        for (ns, np_), x in zip(basis, coords):
            parts.append((x, list(range(k, k + ns)), list(range(k + ns, k + ns + np_))))
            k += ns + np_
        if how == "two centres":
            x, fs, fp = parts.pop(int(rng.integers(0, len(parts))))
            s1, p1 = int(rng.integers(0, len(fs) + 1)), int(rng.integers(0, len(fp) + 1))
            if s1 + p1 in (0, len(fs) + len(fp)):
                return Info(False, "one part")
            for new in ((x, fs[:s1], fp[:p1]), (x, fs[s1:], fp[p1:])):
                parts.insert(int(rng.integers(0, len(parts) + 1)), new)
        else:
            parts = [parts[i] for i in rng.permutation(len(parts))]
        perm = [i for _, fs, fp in parts for i in fs + fp]
        back = np.argsort(perm)
        c2, e2 = c2[perm], e2[perm]
        mod2 = mk(grid2, np.array([[len(fs), len(fp)] for _, fs, fp in parts]), np.array([x for x, _, _ in parts]))
    elif how in ("twin", "zero"):
        # one more s-type function on some centre: the twin of another one, or without weight
        own = np.repeat(np.arange(len(basis)), basis.sum(axis=1))
        isS = np.array([k == "s" for k in pr.kinds])
        cand = np.flatnonzero(isS)
        if len(cand) == 0:
            return Info(False, "no s-type")
        j = int(cand[rng.integers(0, len(cand))])
        at = j + 1
        e_new = e2[j] if how == "twin" else 0.1 + 2 * rng.random()
        c_new = c2[j] * (1 - case["part"]) if how == "twin" else 0.0
        if how == "twin":
            c2[j] *= case["part"]
            share[j] = 1.0 / case["part"]
        c2, e2 = np.insert(c2, at, c_new), np.insert(e2, at, e_new)
        back = np.where(np.arange(pr.m) < at, np.arange(pr.m), np.arange(pr.m) + 1)
        b2 = basis.copy()
        b2[own[j], 0] += 1
        mod2 = (AtomicGaussianDensity(pr.pts, coords[0], num_s=int(b2[0, 0]), num_p=int(b2[0, 1]), normalize=pr.norm)
                if atomic else mk(grid2, b2, coords))
    else:
        mod2 = None
    w1 = pr.w / (4 * ref.PI * pr.r2s[0] * 0 + 1)
    if how in ("points", "order", "merged", "grid"):
        # the user's own quadrature with the same rule: more points without density or weight, another order, points
        # taken twice with half the weight, and the weights of the sphere within the rule
        pts, w = np.asarray(pr.pts), np.asarray(w1).astype(np.longdouble)
        sel = np.arange(len(pts))
        if how == "grid":
            sph2 = False
        elif pr.spherical:
            sph2 = False
        if how == "points":
            extra = rng.integers(0, len(pts), 5)
            sel = np.concatenate((sel, extra))
            w = np.concatenate((w, np.zeros(5, w.dtype)))
        elif how == "merged":
            extra = rng.integers(0, len(pts), 1)
            sel = np.concatenate((sel, extra))
            w = np.concatenate((w, w[extra] * case["part"]))
            w[extra] = w[extra] * (1 - case["part"])
        elif how == "order":
            perm = rng.permutation(len(pts))
            sel, w = sel[perm], w[perm]
        grid2 = gen.OwnGrid(pts[sel], w)
        f2 = pr.f[sel].copy()
        mod2 = (AtomicGaussianDensity(grid2.points, coords[0], num_s=int(basis[0, 0]), num_p=int(basis[0, 1]), normalize=pr.norm)
                if atomic else mk(grid2, basis, coords))
    elif mod2 is None:
        mod2 = pr.model
        if how == "dtype":
            f2 = f2.astype(np.longdouble)
            c2, e2 = c2.astype(np.longdouble), e2.astype(np.longdouble)
        elif how == "integral":
            N2 = float(pr.Nval)
    ctx = f"({how}, {pr.kind}, {pr.spec['grid']['g']})"
    # the model
    g1 = np.asarray(pr.model.evaluate(pr.c0, pr.e0))
    g2 = np.asarray(mod2.evaluate(c2, e2))
    _, gtol, _, dtol = pr.value(pr.c0, pr.e0)
    if how not in ("points", "order", "merged"):
        close(f"model {ctx}", g2, g1.astype(LD), 4 * gtol)
    # objective, gradient, constraint and report
    meas = p_fit.make_measure(case)
    a = ScipyFit(pr.grid, pr.f, pr.model, measure=meas, integral_dens=pr.N, spherical=pr.spherical)
    b = ScipyFit(grid2, f2, mod2, measure=meas, integral_dens=N2, spherical=sph2)
    x1, x2 = np.concatenate((pr.c0, pr.e0)), np.concatenate((c2, e2))
    nt = False
    if float(pr.value(pr.c0, pr.e0)[0].min()) > 1e-200 and not np.any((pr.f > 0) & (pr.f < 1e-200)):
        o1, d1 = a.func(x1)
        o2, d2 = b.func(x2)
        g, gt, dg, dgt = pr.value(pr.c0, pr.e0)
        v, dv, vt, dvt = p_fit.measure_reference(case, pr.f, g, gt)
        E = (len(pr.f) + 60) * ref.EPS
        w = pr.w
        big = float((w * (np.abs(v) + np.abs(dv)) * (1 + np.abs(dg).max())).sum())
        if big < 1e200:
            close(f"objective {ctx}", o2, LD(o1), float((w * (np.abs(v) * E + vt)).sum()) * 4 + 1e-270)
            gtol2 = (w[:, None] * (np.abs(dv[:, None] * dg) * E + np.abs(dv)[:, None] * dgt + dvt[:, None] * (np.abs(dg) + dgt))).sum(axis=0)
            m2 = len(c2)
            # the gradient in a coefficient does not depend on its share, that in an exponent does
            got = np.concatenate((d2[:m2][back], d2[m2:][back] * share))
            close(f"gradient {ctx}", got, np.asarray(d1).astype(LD), gtol2.astype(float) * 8 + 1e-270)
            close(f"constraint {ctx}", b.const_norm(x2), LD(a.const_norm(x1)),
                  float((w * (np.abs(g) * E + gt)).sum()) * 4 + 1e-12 * float(pr.Nval))
            tol = [4 * t for _, t in pr.goodness(pr.c0, pr.e0, 1e-18)[0]]
            r1, r2 = a.goodness_of_fit(pr.c0, pr.e0), b.goodness_of_fit(c2, e2)
            for i in range(5):
                close(f"report {i} {ctx}", float(r2[i]), LD(float(r1[i])), float(tol[i]) * 2 + 1e-270)
            nt = True
    # the iteration
    if not p_fit.fpi_reference(pr, pr.c0, pr.e0, 0.0, steps=case["k"], oc=o["opt_coeffs"], oe=o["opt_expons"])[1]:
        return Info(nt and pr.m > 1, how, pr.kind, pr.spec["grid"]["g"], "no iteration")
    fa = KLDivergenceFPI(pr.grid, pr.f, pr.model, integral_dens=pr.N, spherical=pr.spherical)
    fb = KLDivergenceFPI(grid2, f2, mod2, integral_dens=N2, spherical=sph2)
    ra = fa.run(pr.c0.copy(), pr.e0.copy(), maxiter=case["k"], **no_stop(), **o)
    if how == "zero" and o["opt_expons"]:
        # the exponent of the function without weight is defined as long as the function does not underflow
        r2, now = pr.r2s[j], float(e_new)
        felt = (pr.w * pr.f > 0) & (r2 > 0)
        for i in range(1, case["k"] + 1):
            if not np.any(felt & (now * r2 < 600)):
                return Info(nt and pr.m > 1, how, pr.kind, pr.spec["grid"]["g"], "underflow")
            if i < case["k"]:
                now = float(fb.run(c2.copy(), e2.copy(), maxiter=i, **no_stop(), **o)["exps"][at])
    with np.errstate(all="ignore"):
        rb = fb.run(c2.copy(), e2.copy(), maxiter=case["k"], **no_stop(), **o)
    if len(ra["fun"]) != len(rb["fun"]):
        return Info(nt and pr.m > 1, how, pr.kind, pr.spec["grid"]["g"], "converged exactly")
    ca, ea = np.asarray(ra["coeffs"]).astype(LD), np.asarray(ra["exps"]).astype(LD)
    cb, eb = np.asarray(rb["coeffs"])[back] * share, np.asarray(rb["exps"])[back]
    close(f"coefficients after {case['k']} steps {ctx}", cb, ca, 1e-7 * np.abs(ca) + 1e-9 * float(np.abs(ca).max()))
    close(f"exponents after {case['k']} steps {ctx}", eb, ea, 1e-6 * np.abs(ea))
    return Info(pr.m > 1, how, pr.kind, pr.spec["grid"]["g"], case["opt"], "spherical" if pr.spherical else "")


PROPS = {
    "C33": {"subs": lambda: [
        Sub("fpi", table_case("fpi"), check_table, 1200, "non-trivial: more than one row"),
        Sub("slsqp", table_case("slsqp"), check_table, 500, "non-trivial: rows were compared, more than one function"),
        Sub("trust_constr", table_case("trust-constr"), check_table, 120, "non-trivial: rows were compared, more than one function",
            thorough=10),
        Sub("greedy", table_case("greedy"), check_table, 200, "non-trivial: functions were added")]},
    "C34": {"subs": lambda: [
        Sub("goodness", own_case("goodness"), p_fit.check_goodness, 1200, "non-trivial: more than one basis function"),
        Sub("steps", own_case("steps"), p_fit.check_step, 1200, "non-trivial: more than one basis function, no underflow"),
        Sub("objective", own_case("objective"), p_fit.check_objective, 1200, "non-trivial: more than one function, a gradient that is not zero"),
        Sub("run", own_case("run"), p_fit.check_run, 400, "non-trivial: several iterations and functions"),
        Sub("greedy", own_greedy_case, check_own_greedy, 240, "non-trivial: functions were added")]},
    "C35": {"subs": lambda: [
        Sub("equivalent", same_case, check_same, 3000, "non-trivial: more than one basis function")]},
}
