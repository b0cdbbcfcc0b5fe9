"""Gaussian density models: values, derivatives, molecules, integrals, changing the basis."""
import numpy as np

import gen
import ref
from core import Info, Sub, Violation, require
from gen import A, P, fl, logfl, seeds
from ref import LD, close


def st():
    from hypothesis import strategies
    return strategies


def params_spec(n_lo=1, n_hi=12, emax=1e9, emin=1e-8, cmax=1e3):
    s = st()
    return s.fixed_dictionaries({
        "c": gen.arr(1, 40, 1e-6, cmax, log=True, signed=True, zeros=True),
        "e": gen.arr(1, 40, emin, emax, log=True),
    })


def counts(big=20):
    s = st()
    return s.one_of(
        s.tuples(s.integers(0, 3), s.integers(0, 3)),
        s.tuples(s.integers(0, 6), s.integers(0, 6)),
        s.tuples(s.integers(0, big), s.integers(0, big)),
    ).map(lambda t: list(t) if sum(t) else [1, 0])


def zooms():
    """Other units of length."""
    s = st()
    return s.one_of(s.just(1.0), s.just(1.0), logfl(1e-6, 1e6))


def zoom(case, pts, *places):
    z = case.get("zoom", 1.0)
    if z == 1.0 or pts.dtype.kind != "f" or case.get("whole"):
        return (pts,) + places
    return (pts * pts.dtype.type(z),) + tuple(None if x is None else x * z for x in places)


def matched(case, r2, e):
    """Exponents which make functions of the size of the distances."""
    mid = float(np.median(r2)) if len(r2) else 0.0
    return np.clip(e ** 0.3 / mid, 1e-14, 1e14) if case.get("match") and mid > 1e-13 else e


# ------------------------------------------------------------------ C01 / C02: one centre
def atomic_case():
    s = st()
    return s.fixed_dictionaries({
        "points": gen.points_spec(),
        "center": s.one_of(s.none(), s.lists(s.one_of(fl(-5, 5), s.just(0.0)), min_size=4, max_size=4)),
        "ns_np": s.one_of(counts(), counts(), counts(), s.just([1, 0])), "omit": s.booleans(), "whole": s.sampled_from([False, False, True]),
        "norm": s.booleans(), "zoom": zooms(), "match": s.booleans(),
        "evals": s.lists(params_spec(), min_size=1, max_size=3), "cast": gen.casts(),
        "reuse": s.booleans(),
        "order": s.lists(s.booleans(), min_size=3, max_size=3),
    })


def build_atomic(case):
    from bfit import AtomicGaussianDensity
    pts = P(case["points"])
    d = pts.shape[1] if pts.ndim > 1 else 1
    center = None if case["center"] is None else np.array(case["center"][:d], float)
    if center is not None and case.get("whole"):
        center = np.rint(center).astype(int)
        if pts.dtype == np.uint8:
            center = np.abs(center).astype(np.uint8)
    pts, center = zoom(case, pts, center)
    ns, np_ = case["ns_np"]
    kw = {"center": center, "num_s": ns, "num_p": np_, "normalize": case["norm"]}
    if case.get("omit"):              # arguments which have their default value need not be given
        kw = {k: v for k, v in kw.items() if not (v is None if k == "center" else v == {"num_s": 1}.get(k, 0))}
    mod = AtomicGaussianDensity(pts, **kw)
    return mod, pts, center, ns, np_


def check_atomic(case, part):
    mod, pts, center, ns, np_ = build_atomic(case)
    m = ns + np_
    kinds = ref.kinds_of(ns, np_)
    r2 = ref.radii2(pts, center)
    keep = pts.copy()
    if part == "value":
        require(mod.nbasis == m and mod.num_s == ns and mod.num_p == np_ and mod.natoms == 1,
                lambda: f"sizes: {mod.nbasis} {mod.num_s} {mod.num_p} {mod.natoms}")
        close("prefactor", mod.prefactor, np.array([1.5] * ns + [2.5] * np_), 0)
        close("radii", mod.radii, np.sqrt(r2), 8 * ref.EPS * np.sqrt(r2) + 1e-150)
        close("points", mod.points, keep, 0)
    cbuf, ebuf = np.zeros(m), np.zeros(m)
    nt = False
    for k, ev in enumerate(case["evals"]):
        c, e = gen.fit_len(ev["c"], m), matched(case, r2, gen.fit_len(ev["e"], m))
        if case.get("cast"):
            ca, ea = gen.cast(case["cast"], c, e)
            c, e = np.array(ca, float), np.array(ea, float)
        elif case["reuse"]:           # the same array objects with new contents
            cbuf[:], ebuf[:] = c, e
            ca, ea = cbuf, ebuf
        else:
            ca, ea = c.copy(), e.copy()
        val, tol, der, dtol = ref.model([r2] * m, kinds, case["norm"], c, e)
        ctx = f"(evaluation {k}, ns={ns}, np={np_}, normalize={case['norm']})"
        if part == "value":
            if case["order"][k % 3]:
                mod.evaluate(ca, ea, deriv=True)
            close("value", mod.evaluate(ca, ea), val, tol, ctx)
        else:
            if case["order"][k % 3]:
                mod.evaluate(ca, ea)
            g, dg = mod.evaluate(ca, ea, deriv=True)
            close("value with deriv=True", g, val, tol, ctx)
            close("derivative", dg, der, dtol, ctx)
        close("coefficients after the call", ca, c, 0)
        close("exponents after the call", ea, e, 0)
        nt = nt or bool(np.any(np.abs(val) > 1e-100) and np.any(c != 0))
    close("points after the calls", pts, keep, 0)
    return Info(nt and len(r2) > 1, f"dim{case['points']['dim']}", "norm" if case["norm"] else "unnorm",
                "s" if np_ == 0 else "p" if ns == 0 else "sp", "center" if center is not None else "",
                f"n>={10 ** len(str(m)) // 10}")


# ------------------------------------------------------------------ C03: molecules
def mol_case():
    s = st()
    return s.fixed_dictionaries({
        "points": gen.points_spec(max_n=25, big=120, dims=(0, 1, 2, 3, 4)),
        "coords": gen.arr(1, 24, 0.0, 6.0, signed=True, zeros=True),
        "basis": s.one_of(*[s.lists(counts(4), min_size=1, max_size=6)] * 7, s.lists(counts(2), min_size=7, max_size=25)),
        "norm": s.booleans(), "zoom": zooms(), "match": s.booleans(),
        "evals": s.lists(params_spec(emax=1e8, emin=1e-6), min_size=1, max_size=2), "cast": gen.casts(),
        "same": s.booleans(), "omit": s.booleans(), "whole": s.sampled_from([False, False, True]),
        "perm": seeds(),
    })


def build_mol(case):
    from bfit import MolecularGaussianDensity
    pts = P(case["points"])
    d = pts.shape[1] if pts.ndim > 1 else 1
    basis = np.array(case["basis"], dtype=int)
    coords = gen.fit_len(case["coords"], len(basis) * d).reshape(len(basis), d)
    if case.get("whole"):
        coords = np.rint(coords).astype(int)
        if pts.dtype == np.uint8:
            coords = np.clip(np.abs(coords), 0, 255).astype(np.uint8)
    if case["same"] and len(basis) > 1:
        coords[-1] = coords[0]          # two functions groups on the same centre
    pts, coords = zoom(case, pts, coords)
    kw = {} if case.get("omit") and not case["norm"] else {"normalize": case["norm"]}
    return MolecularGaussianDensity(pts, coords, basis, **kw), pts, coords, basis


def mol_reference(case, pts, coords, basis, c, e):
    kinds, r2s = [], []
    for b, x in zip(basis, coords):
        r2 = ref.radii2(pts, x)
        kinds += ref.kinds_of(int(b[0]), int(b[1]))
        r2s += [r2] * int(b[0] + b[1])
    return ref.model(r2s, kinds, case["norm"], c, e)


def check_mol(case, part):
    from bfit import AtomicGaussianDensity, MolecularGaussianDensity
    mol, pts, coords, basis = build_mol(case)
    m = int(basis.sum())
    if part == "layout":
        require(int(mol.nbasis) == m and mol.natoms == len(basis), "nbasis or natoms")
        owner = [i for i, b in enumerate(basis) for _ in range(int(b.sum()))]
        for i in range(m):
            got = mol.assign_basis_to_center(i)
            require(int(got) == owner[i], lambda: f"basis {i} assigned to {got}, not {owner[i]}, {basis.tolist()}")
        for i in (m, m + 3, -1, -m, -m - 1):
            try:
                got = mol.assign_basis_to_center(i)
            except ValueError:
                continue
            raise Violation(f"basis index {i} of {m} accepted: {got}")
        pf = []
        for b in basis:
            pf += [1.5] * int(b[0]) + [2.5] * int(b[1])
        close("prefactor", mol.prefactor, np.array(pf), 0)
        want = np.array([np.sqrt(ref.radii2(pts, x)) for x in coords])
        close("radii", mol.radii, want, 8 * ref.EPS * want + 1e-150)
        close("points", mol.points, pts, 0)
    for ev in case["evals"]:
        c, e = gen.fit_len(ev["c"], m), matched(case, ref.radii2(pts, coords[0]), gen.fit_len(ev["e"], m))
        ca, ea = gen.cast(case.get("cast"), c, e)
        c, e = np.array(ca, float), np.array(ea, float)
        val, tol, der, dtol = mol_reference(case, pts, coords, basis, c, e)
        ctx = f"(basis={basis.tolist()}, normalize={case['norm']})"
        if part == "layout":
            close("value", mol.evaluate(ca, ea), val, tol * 2, ctx)
            # superposition of separate atomic models
            tot, k = np.zeros(len(pts)), 0
            for b, x in zip(basis, coords):
                n = int(b.sum())
                at = AtomicGaussianDensity(pts, x, int(b[0]), int(b[1]), case["norm"])
                tot = tot + at.evaluate(ca[k:k + n], ea[k:k + n])
                k += n
            close("sum of atomic models", tot, val, tol * 2, ctx)
        else:
            g, dg = mol.evaluate(ca, ea, deriv=True)
            close("molecular value with deriv=True", g, val, tol * 2, ctx)
            close("molecular derivative", dg, der, dtol * 2, ctx)
        close("coefficients after the call", ca, c, 0)
        close("exponents after the call", ea, e, 0)
    if part == "layout":
        # the order of the centres does not matter
        rng = np.random.default_rng(case["perm"])
        p = rng.permutation(len(basis))
        idx, starts = [], np.concatenate(([0], np.cumsum(basis.sum(axis=1))))
        for i in p:
            idx += list(range(int(starts[i]), int(starts[i + 1])))
        mol2 = MolecularGaussianDensity(pts, coords[p], basis[p], normalize=case["norm"])
        close("value after reordering the centres", mol2.evaluate(c[idx], e[idx]), val, tol * 2)
    return Info(len(basis) > 1 and np.any(np.abs(val) > 1e-100), f"atoms{len(basis)}",
                f"dim{case['points']['dim']}", "mixed" if basis[:, 1].any() and basis[:, 0].any() else "")


def motion_case():
    s = st()
    return s.fixed_dictionaries({
        "points": gen.points_spec(max_n=15, big=40, dims=(2, 3)),
        "coords": gen.arr(1, 24, 0.0, 6.0, signed=True, zeros=True),
        "basis": s.lists(counts(3), min_size=1, max_size=4),
        "norm": s.booleans(),
        "par": params_spec(emax=1e2, emin=1e-2),
        "same": s.just(False), "seed": seeds(), "reflect": s.booleans(),
    })


def check_motion(case):
    from bfit import MolecularGaussianDensity
    case = dict(case, points=dict(case["points"], dtype="float64", layout="C"))
    mol, pts, coords, basis = build_mol(case)
    m, d = int(basis.sum()), pts.shape[1]
    c, e = gen.fit_len(case["par"]["c"], m), gen.fit_len(case["par"]["e"], m)
    rng = np.random.default_rng(case["seed"])
    q, _ = np.linalg.qr(rng.normal(size=(d, d)))
    if (np.linalg.det(q) < 0) != case["reflect"]:
        q[:, 0] = -q[:, 0]
    t = rng.uniform(-3, 3, d)
    mol2 = MolecularGaussianDensity(pts @ q.T + t, coords @ q.T + t, basis, normalize=case["norm"])
    a, da = mol.evaluate(c, e, deriv=True)
    b, db = mol2.evaluate(c, e, deriv=True)
    # moving changes coordinates by rounding: errors of r of about 1e-14
    size = 1 + np.abs(pts).max() + np.abs(coords).max()
    _, tol, _, dtol = mol_reference(case, pts, coords, basis, c, e)
    dr = 1e-14 * size
    slope = np.zeros(len(pts))
    k = 0
    for bb, x in zip(basis, coords):
        r = np.sqrt(ref.radii2(pts, x)).astype(float)
        for j in range(int(bb.sum())):
            kind = "s" if j < bb[0] else "p"
            v, _, _, _ = ref.basis(r.astype(LD) ** 2, e[k], kind, case["norm"])
            pf = (e[k] / np.pi) ** 1.5 * (1 + e[k]) if case["norm"] else 1.0
            slope += abs(c[k]) * (2 * e[k] * r * v.astype(float) + 2 * pf * r + pf * dr)
            k += 1
    close("value after a rigid motion", b, a.astype(LD), tol * 20 + slope * dr * 4)
    return Info(len(basis) > 1, f"dim{d}", f"atoms{len(basis)}")


# ------------------------------------------------------------------ C04: integrals
def integral_case():
    s = st()
    return s.fixed_dictionaries({
        "kind": s.sampled_from(["radial", "cubic"]),
        "ns_np": counts(6),
        "norm": s.booleans(),
        "c": gen.arr(1, 12, 1e-3, 1e3, log=True, zeros=True),
        "elo": logfl(1e-3, 1e3), "span": gen.arr(1, 12, 0.0, 1.0),
        "ratio": logfl(1.0, 1e3),
        "seed": seeds(), "atoms": s.lists(counts(3), min_size=1, max_size=3),
        "zero_lo": s.booleans(), "dtype": s.sampled_from(["float64", "longdouble"]),
    })


def exact_integral(kinds, norm, c, e):
    tot = LD(0)
    mag = LD(0)
    for k, ci, ei in zip(kinds, c, e):
        if norm:
            x = LD(ci)
        elif k == "s":
            x = LD(ci) * (ref.PI / LD(ei)) ** LD(1.5)
        else:
            x = LD(ci) * LD(1.5) * ref.PI ** LD(1.5) / LD(ei) ** LD(2.5)
        tot += x
        mag += abs(x)
    return tot, mag


def check_integral(case):
    from bfit import (AtomicGaussianDensity, CubicGrid, KLDivergenceFPI, MolecularGaussianDensity,
                      UniformRadialGrid)
    if case["kind"] == "radial":
        ns, np_ = case["ns_np"]
        m = ns + np_
        e = case["elo"] * case["ratio"] ** gen.fit_len(case["span"], m)
        c = gen.fit_len(case["c"], m)
        h = 0.35 / np.sqrt(e.max())
        top = 8.5 / np.sqrt(e.min())
        grid = UniformRadialGrid(int(top / h) + 2, 0.0, float(top), dtype=np.dtype(case["dtype"]).type)
        mod = AtomicGaussianDensity(grid.points, num_s=ns, num_p=np_, normalize=case["norm"])
        val = mod.evaluate(c, e)
        fit = KLDivergenceFPI(grid, np.exp(-e.min() * grid.points ** 2), mod, spherical=True)
        got = fit.integrate(val)
        kinds = ref.kinds_of(ns, np_)
        got2 = fit.goodness_of_fit(c, e)[0]
    else:
        basis = np.array(case["atoms"], int)
        m = int(basis.sum())
        e = case["elo"] * min(case["ratio"], 1.6) ** gen.fit_len(case["span"], m)
        c = gen.fit_len(case["c"], m)
        rng = np.random.default_rng(case["seed"])
        h, top = 0.5 / np.sqrt(e.max()), 6.0 / np.sqrt(e.min())
        coords = rng.uniform(-0.5, 0.5, (len(basis), 3)) / np.sqrt(e.max())
        q, _ = np.linalg.qr(rng.normal(size=(3, 3)))
        n = int(2 * top / h) + 3
        axes = h * q
        grid = CubicGrid(-0.5 * (n - 1) * axes.sum(axis=0), axes, (n, n, n))
        mod = MolecularGaussianDensity(grid.points, coords, basis, normalize=case["norm"])
        got = grid.integrate(mod.evaluate(c, e))
        got2 = got
        kinds = []
        for b in basis:
            kinds += ref.kinds_of(int(b[0]), int(b[1]))
    want, mag = exact_integral(kinds, case["norm"], c, e)
    tol = float(mag) * 1e-9 + 1e-280
    close("integral of the model", got, want, tol, f"({case['kind']}, normalize={case['norm']})")
    close("integral reported with the goodness of fit", got2, want, tol)
    return Info(bool(np.any(c != 0)), case["kind"], "norm" if case["norm"] else "unnorm")


# ------------------------------------------------------------------ C05: changing the basis
def history_case():
    s = st()
    op = s.one_of(
        s.fixed_dictionaries({"op": s.just("set"), "n": counts(8)}),
        s.fixed_dictionaries({"op": s.just("eval"), "par": params_spec(emax=1e4, emin=1e-4),
                              "deriv": s.booleans()}),
        s.fixed_dictionaries({"op": s.just("bad"), "which": s.integers(0, 3)}),
    )
    return s.fixed_dictionaries({
        "points": gen.points_spec(max_n=12, big=40, dims=(0, 3)),
        "center": s.one_of(s.none(), s.lists(fl(-3, 3), min_size=4, max_size=4)),
        "ns_np": counts(5), "norm": s.booleans(),
        "ops": s.lists(op, min_size=1, max_size=12),
    })


def check_history(case):
    from bfit import AtomicGaussianDensity
    mod, pts, center, ns, np_ = build_atomic(case)
    r2 = ref.radii2(pts, center)
    changes = evals = 0
    for op in case["ops"] + [{"op": "eval", "par": {"c": [1.0, -2.0, 0.5], "e": [0.7, 1.3]}, "deriv": True}]:
        if op["op"] == "set":
            changes += op["n"] != [ns, np_]
            ns, np_ = op["n"]
            mod.change_numb_s_and_numb_p(ns, np_)
        elif op["op"] == "bad":
            bad = [(1.0, 2), (1, 2.0), ("1", 1), (None, 2)][op["which"]]
            try:
                mod.change_numb_s_and_numb_p(*bad)
            except TypeError:
                pass
            else:
                raise Violation(f"change to {bad} accepted")
        m = ns + np_
        require(mod.nbasis == m and mod.num_s == ns and mod.num_p == np_,
                lambda: f"sizes {mod.num_s},{mod.num_p},{mod.nbasis} after {op}, expected {ns},{np_}")
        close("prefactor", mod.prefactor, np.array([1.5] * ns + [2.5] * np_), 0)
        if op["op"] == "eval":
            evals += 1
            c, e = gen.fit_len(op["par"]["c"], m), gen.fit_len(op["par"]["e"], m)
            fresh = AtomicGaussianDensity(pts, center, num_s=ns, num_p=np_, normalize=case["norm"])
            val, tol, der, dtol = ref.model([r2] * m, ref.kinds_of(ns, np_), case["norm"], c, e)
            if op["deriv"]:
                g, dg = mod.evaluate(c, e, deriv=True)
                close("derivative after changes", dg, der, dtol)
                close("derivative of a fresh model", fresh.evaluate(c, e, deriv=True)[1], der, dtol)
            else:
                g = mod.evaluate(c, e)
            close("value after changes", g, val, tol, f"(ns={ns}, np={np_})")
            for bad in (m + 1, m - 1):
                if bad == 1 and False:
                    continue
                try:
                    mod.evaluate(np.ones(bad), np.ones(bad))
                except ValueError:
                    continue
                raise Violation(f"{bad} parameters accepted by a model of {m} functions")
    return Info(changes >= 1 and evals >= 2, f"changes{min(changes, 5)}")


PROPS = {
    "C01": {"subs": lambda: [
        Sub("atomic_value", atomic_case, lambda c: check_atomic(c, "value"), 5000,
            "non-trivial: more than one point and a model value that is not zero")]},
    "C02": {"subs": lambda: [
        Sub("atomic_derivative", atomic_case, lambda c: check_atomic(c, "deriv"), 3500,
            "non-trivial: more than one point and a model value that is not zero"),
        Sub("molecular_derivative", mol_case, lambda c: check_mol(c, "deriv"), 2000,
            "non-trivial: more than one centre and a model value that is not zero")]},
    "C03": {"subs": lambda: [
        Sub("superposition", mol_case, lambda c: check_mol(c, "layout"), 2500,
            "non-trivial: more than one centre and a model value that is not zero"),
        Sub("rigid_motion", motion_case, check_motion, 1500, "non-trivial: more than one centre")]},
    "C04": {"subs": lambda: [
        Sub("integral", integral_case, check_integral, 900, "non-trivial: some coefficient not zero")]},
    "C05": {"subs": lambda: [
        Sub("history", history_case, check_history, 3000,
            "histories of changes, evaluations and rejected calls; non-trivial: a change of size and "
            "at least two evaluations")]},
}
