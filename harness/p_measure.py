"""Deviation measures: squared difference, Kullback-Leibler, Tsallis."""
import numpy as np

import gen
import ref
from core import Info, Sub, Violation, require
from gen import A, fl, logfl, seeds
from ref import EPS, LD, close


def st():
    from hypothesis import strategies
    return strategies


def vec_case(extra, signed_model=True):
    """A density and a model, related in one of several ways, with zeros and tiny values."""
    s = st()
    d = {
        "n": gen.ladder([s.integers(1, 8), s.integers(1, 200)], 10**6),
        "f": gen.arr(1, 200, 1e-14, 1e6, log=True, zeros=True),
        "rel": s.sampled_from(["free", "free", "equal", "near", "some_equal"]),
        "g": gen.arr(1, 200, 1e-14, 1e6, log=True, zeros=True),
        "seed": seeds(),
        "neg": s.sampled_from([0, 0, 0, 1, 2, 3]) if signed_model else s.just(0),
        "tiny": s.booleans(), "far": s.sampled_from([False, False, False, True]),
        "dtype": s.sampled_from(["float64", "float64", "longdouble"]),
        "layout": s.sampled_from(["C", "strided", "readonly"]),
        "int": s.sampled_from([False, False, False, True, "int8", "uint8", "int16"]), "edge": s.integers(0, 2),
        "repeat": s.integers(0, 2),
    }
    d.update(extra)
    return s.fixed_dictionaries(d)


def vectors(case, mask=None):
    n = case["n"]
    f = gen.fit_len(case["f"], n)
    g = gen.fit_len(case["g"], n)[::-1].copy()
    rng = np.random.default_rng(case["seed"])
    if case["rel"] == "equal":
        g = f.copy()
    elif case["rel"] == "near":
        g = f * (1 + 1e-6 * rng.uniform(-1, 1, n))
    elif case["rel"] == "some_equal":
        m = rng.random(n) < 0.5
        g[m] = f[m]
    if case["tiny"]:
        m = rng.random(n) < 0.3
        g[m] = 10.0 ** rng.uniform(-25, -12, int(m.sum()))
        m = rng.random(n) < 0.3
        f[m] = 10.0 ** rng.uniform(-25, -12, int(m.sum()))
    if case.get("far"):                   # the tails: the ratio of density and model underflows
        m = rng.random(n) < 0.3
        f[m] = 10.0 ** rng.uniform(-323, -250, int(m.sum()))
        m = rng.random(n) < 0.3
        g[m] = 10.0 ** rng.uniform(-5, 60, int(m.sum()))
    for _ in range(case["neg"]):
        i = rng.integers(0, n)
        # any negative value counts, however small
        g[i] = -10.0 ** rng.uniform(-40, -10) if case.get("far") or case["tiny"] else -abs(g[i]) - 10.0 ** rng.uniform(-14, 2)
    if mask is not None and mask > 0:     # exactly the mask value and its neighbours
        m = rng.random(n) < {0: 0.0, 1: 0.3, 2: 0.1}[case.get("edge", 0)]
        g[m] = rng.choice([mask, mask, np.nextafter(mask, 1), np.nextafter(mask, 0)], int(m.sum()))
    if case["int"]:
        f, g = np.round(f), np.round(g)
        if isinstance(case["int"], str):   # sums and differences may overflow
            top = np.iinfo(case["int"])
            return np.clip(f, 0, top.max).astype(case["int"]), np.clip(g, top.min + (top.min < 0), top.max).astype(case["int"])
        if np.all(np.abs(f) < 1e9) and np.all(np.abs(g) < 1e9):
            return f.astype(np.int64), g.astype(float)
    f, g = f.astype(case["dtype"]), g.astype(case["dtype"])
    if case["layout"] == "strided":
        ff, gg = np.zeros(2 * n, f.dtype), np.zeros(3 * n, g.dtype)
        ff[::2], gg[::3] = f, g
        f, g = ff[::2], gg[::3]
    elif case["layout"] == "readonly":
        f.setflags(write=False)
        g.setflags(write=False)
    return f, g


def twice(meas, f, g, case):
    """Value without, value and derivative with deriv; earlier calls must not matter."""
    for _ in range(case["repeat"]):
        meas.evaluate(g.copy() + 1, f.astype(float) + 0.5, deriv=True)
    k1 = meas.evaluate(f, g)
    k2, dk = meas.evaluate(f, g, deriv=True)
    k3 = meas.evaluate(f, g, deriv=False)
    return k1, k2, k3, dk


def check_square(case):
    from bfit import SquaredDifference
    f, g = vectors(case)
    keep = f.copy(), g.copy()
    meas = SquaredDifference()
    k1, k2, k3, dk = twice(meas, f, g, case)
    d = f.astype(LD) - g.astype(LD)
    mag = np.abs(f.astype(LD)) + np.abs(g.astype(LD))
    err = EPS * np.abs(d) * 2 + EPS * mag * (0 if f.dtype == g.dtype else 1)
    for name, k in (("value", k1), ("value with derivative", k2), ("value again", k3)):
        close(name, k, d * d, 8 * EPS * d * d + 2 * np.abs(d) * err + err ** 2 + 1e-300)
        require(bool(np.all(np.asarray(k) >= 0)), "negative squared difference")
    close("derivative", dk, -2 * d, 4 * err + 1e-300)
    close("swapped arguments", meas.evaluate(g.astype(float), f.astype(float)), d * d,
          8 * EPS * d * d + 2 * np.abs(d) * (err + 2 * EPS * mag) + (2 * EPS * mag) ** 2 * 2 + 1e-300)
    close("density unchanged", f, keep[0], 0)
    close("model unchanged", g, keep[1], 0)
    return Info(bool(np.any(d != 0)) and len(f) > 1, case["rel"], case["dtype"],
                "negative model" if case["neg"] else "")


def kl_extra():
    s = st()
    return {"mask": s.one_of(s.sampled_from([0.0, 1e-18, 1e-12, 1e-8]), logfl(1e-20, 1e-2)),
            "negval": s.sampled_from([100000.0, 1.0, 3e7, float("inf")]),
            "default": s.booleans()}


def check_kl(case):
    from bfit import KLDivergence
    if case["default"]:
        meas, mask, negval = KLDivergence(), 1e-12, 100000.0
    else:
        mask, negval = case["mask"], case["negval"]
        meas = KLDivergence(mask_value=mask, negative_val=negval)
    require(meas.mask_value == mask and meas.negative_val == negval, "mask or negative value")
    f, g = vectors(case, mask)
    keep = f.copy(), g.copy()
    k1, k2, k3, dk = twice(meas, f, g, case)
    if np.any(g < 0):
        for k in (k1, k2, k3, dk):
            require(k.shape == g.shape and bool(np.all(np.asarray(k) == negval)),
                    lambda: f"negative model: {k} instead of {negval}")
    else:
        val, der = ref.kl_terms(f, g, mask)
        tol = 30 * EPS * (np.abs(val) + f.astype(LD)) + 1e-290
        if case.get("far"):  # ratios near the smallest numbers
            tol = tol + np.where(f < 1e-200, 1e-190, 0)
        ctx = f"(mask {mask})"
        close("value", k1, val, tol, ctx)
        close("value with derivative", k2, val, tol, ctx)
        close("value again", k3, val, tol, ctx)
        close("derivative", dk, der, 10 * EPS * np.abs(der) + 1e-322, ctx)
    close("density unchanged", f, keep[0], 0)
    close("model unchanged", g, keep[1], 0)
    return Info(len(f) > 1 and bool(np.any(f != g)), case["rel"],
                "negative" if np.any(g < 0) else "masked" if np.any(g <= mask) else "regular",
                "zero density" if np.any(f == 0) else "", case["dtype"])


def check_kl_gibbs(case):
    """Sum of w (f log(f/g) - f + g) >= 0, zero only when f = g: for every positive quadrature."""
    from bfit import KLDivergence
    f, g = vectors(dict(case, neg=0, int=False, far=False))
    f, g = f.astype(float), np.maximum(g.astype(float), 1e-20)
    w = gen.fit_len(case["w"], len(f))
    k = np.asarray(KLDivergence(mask_value=0.0).evaluate(f, g)).astype(LD)
    gap = k - f + g
    bad = gap < -40 * EPS * (np.abs(k) + f + g)
    require(not np.any(bad), lambda: f"pointwise inequality broken at {np.argmax(bad)}")
    kl, nf, ng = (w * k).sum(), (w * f).sum(), (w * g).sum()
    if nf > 0 and ng > 0:        # normalise both: non-negative divergence
        kk = np.asarray(KLDivergence(mask_value=0.0).evaluate(f / float(nf), g / float(ng)))
        tot = (w * kk).sum()
        require(tot >= -1e-11 * (1 + abs(float(tot))), lambda: f"divergence of normalized densities is {tot}")
    return Info(len(f) > 1 and bool(np.any(f != g)), case["rel"])


def tsallis_extra():
    s = st()
    return {"alpha": s.one_of(s.sampled_from([1.001, 0.5, 2.0, 1.5, 0.999, 3.0, 1.2]),
                              fl(0.05, 0.98), fl(1.02, 3.5)),
            "mask": s.one_of(s.sampled_from([0.0, 1e-18, 1e-12, 1e-8]), logfl(1e-20, 1e-2)),
            "default": s.sampled_from([False, False, False, True])}


def check_tsallis(case):
    from bfit import KLDivergence, TsallisDivergence
    if case["default"]:
        meas, alpha, mask = TsallisDivergence(), 1.001, 1e-12
    else:
        alpha, mask = case["alpha"], case["mask"]
        meas = TsallisDivergence(alpha=alpha, mask_value=mask)
    require(meas.alpha == alpha and meas.mask_value == mask, "alpha or mask value")
    case = dict(case, far=bool(case.get("far") and alpha > 1))
    f, g = vectors(case, mask)
    keep = f.copy(), g.copy()
    k1, k2, k3, dk = twice(meas, f, g, case)
    val, der, pw, safe = ref.tsallis_terms(f, g, alpha, mask)
    fl_ = f.astype(LD)
    cond = 1 + np.abs((alpha - 1) * np.log(safe)) + abs(alpha) * 2
    tol = 20 * EPS * fl_ * (pw * cond + 1) / abs(alpha - 1) + 1e-290
    if case.get("far"):      # ratios near the smallest numbers
        tol = tol + np.where(fl_ < 1e-200, 1e-70, 0)
    ctx = f"(alpha {alpha}, mask {mask})"
    close("value", k1, val, tol, ctx)
    close("value with derivative", k2, val, tol, ctx)
    close("value again", k3, val, tol, ctx)
    close("derivative", dk, der, 20 * EPS * np.abs(der) * (cond + np.abs(np.log(safe))) + 1e-290
          + (np.where(fl_ < 1e-200, 1e-5, 0) if case.get("far") else 0), ctx)
    close("density unchanged", f, keep[0], 0)
    close("model unchanged", g, keep[1], 0)
    # order: alpha > 1 bounds Kullback-Leibler from above, alpha < 1 from below (unmasked points)
    kl = np.asarray(KLDivergence(mask_value=mask).evaluate(f, np.abs(g))).astype(LD)
    ok = (g > mask) & (f > 1e-200)
    gap = (np.asarray(k1).astype(LD) - kl) * (1 if alpha > 1 else -1)
    bad = ok & (gap < -(tol + 40 * EPS * (np.abs(kl) + fl_)))
    require(not np.any(bad), lambda: f"order with Kullback-Leibler broken at {np.argmax(bad)} {ctx}")
    return Info(len(f) > 1 and bool(np.any(f != g)), case["rel"], "alpha>1" if alpha > 1 else "alpha<1",
                "masked" if np.any(g <= mask) else "regular", "zero density" if np.any(f == 0) else "",
                "negative" if np.any(g < 0) else "")


def undefined_case():
    s = st()
    return vec_case({"alpha": s.sampled_from([1.001, 0.5, 2.0, 1.5]), "mask": s.sampled_from([0.0, 1e-18, 1e-12]),
                     "at": seeds(), "frac": s.sampled_from([0.05, 0.5, 1.0])}, signed_model=False)


def check_undefined(kind):
    """A model which is not a number is not a perfect one, and the other points do not notice it."""
    def check(case):
        from bfit import KLDivergence, TsallisDivergence
        f, g = vectors(dict(case, int=False, layout="C", far=False), case["mask"])
        meas = KLDivergence(mask_value=case["mask"]) if kind == "kl" else \
            TsallisDivergence(alpha=case["alpha"], mask_value=case["mask"])
        want, dwant = meas.evaluate(f, g, deriv=True)
        rng = np.random.default_rng(case["at"])
        bad = rng.random(len(f)) < case["frac"]
        bad[rng.integers(0, len(f))] = True
        h = np.where(bad, np.array(np.nan, g.dtype), g)
        got, dgot = meas.evaluate(f, h, deriv=True)
        hide = bad & (f > 0) & ~np.isnan(np.asarray(got))
        require(not np.any(hide), lambda: f"the divergence from an undefined model is {np.asarray(got)[hide][0]}")
        require(bool(np.all(np.isnan(np.asarray(dgot)[bad & (f > 0)]))), "derivative at an undefined model")
        close("other points", np.asarray(got)[~bad], np.asarray(want)[~bad].astype(LD), 0)
        close("derivative at other points", np.asarray(dgot)[~bad], np.asarray(dwant)[~bad].astype(LD), 0)
        return Info(bool(np.any(bad & (f > 0)) and np.any(~bad)), case["rel"])
    return check


def limit_case():
    return vec_case({"delta": logfl(1e-7, 1e-3), "below": st().booleans()}, signed_model=False)


def check_limit(case):
    """Tsallis tends to Kullback-Leibler: the difference is (alpha-1)/2 f log^2(f/g) to first order."""
    from bfit import KLDivergence, TsallisDivergence
    f, g = vectors(dict(case, int=False, tiny=False, far=False))
    f, g = f.astype(float), np.maximum(g.astype(float), 1e-14)
    d = -case["delta"] if case["below"] else case["delta"]
    kl, dkl = KLDivergence(mask_value=0.0).evaluate(f, g, deriv=True)
    ts, dts = TsallisDivergence(alpha=1.0 + d, mask_value=0.0).evaluate(f, g, deriv=True)
    pos = f > 0
    lg = np.log(np.where(pos, f, 1) / g)
    x = np.abs(d * lg)
    bound = f * lg ** 2 * abs(d) * np.exp(x)
    tol = bound + 1e-15 * 50 * f * (1 + x * np.exp(x)) / abs(d) + 1e-290
    close("Tsallis near alpha = 1", ts, np.where(pos, kl, 0).astype(LD), np.where(pos, tol, 1e-290))
    bound = np.abs(dkl) * np.abs(lg) * abs(d) * np.exp(x) * 2 + 1e-13 * np.abs(dkl)
    close("Tsallis derivative near alpha = 1", dts, np.where(pos, dkl, 0).astype(LD),
          np.where(pos, bound, 1e-290) + 1e-290)
    return Info(len(f) > 1 and bool(np.any(f != g)), "below" if case["below"] else "above")


PROPS = {
    "C06": {"subs": lambda: [
        Sub("squared_difference", lambda: vec_case({}), check_square, 8000,
            "non-trivial: at least two points and density different from model")]},
    "C07": {"subs": lambda: [
        Sub("kullback_leibler", lambda: vec_case(kl_extra()), check_kl, 9000,
            "non-trivial: at least two points and density different from model"),
        Sub("gibbs", lambda: vec_case({"w": gen.arr(1, 200, 1e-3, 1e3, log=True)}, False), check_kl_gibbs,
            3000, "non-trivial: at least two points and density different from model"),
        Sub("undefined", undefined_case, check_undefined("kl"), 1500, "non-trivial: some points with and some without a model")]},
    "C08": {"subs": lambda: [
        Sub("tsallis", lambda: vec_case(tsallis_extra()), check_tsallis, 9000,
            "non-trivial: at least two points and density different from model"),
        Sub("undefined", undefined_case, check_undefined("tsallis"), 1500, "non-trivial: some points with and some without a model"),
        Sub("limit", limit_case, check_limit, 3000,
            "non-trivial: at least two points and density different from model")]},
}
