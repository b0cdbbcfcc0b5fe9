"""Radial and cubic grids: points, quadrature, molecular boxes."""
import numpy as np

import gen
import ref
from core import Info, Sub, Violation, require
from gen import A, fl, logfl, seeds
from ref import EPS, LD, close


def st():
    from hypothesis import strategies
    return strategies


# ------------------------------------------------------------------ C09: points of radial grids
def uniform_case():
    s = st()
    return s.fixed_dictionaries({
        "n": gen.ladder([s.integers(1, 10), s.integers(1, 3000)], 10**6),
        "lo": s.one_of(s.just(0.0), s.just(0), fl(0.0, 10.0), s.integers(0, 5), logfl(1e-8, 1.0)),
        "len": s.one_of(logfl(1e-3, 1e3), s.integers(1, 200)),
        "dtype": s.sampled_from(["longdouble", "float64", "float32", None]),
        "defaults": s.sampled_from([False, False, False, True]),
    })


def check_uniform(case):
    from bfit import UniformRadialGrid
    n, lo = case["n"], case["lo"]
    hi = lo + case["len"]
    if case["defaults"]:
        lo, hi = 0.0, 100.0
        grid = UniformRadialGrid(n)
        want_dtype = np.longdouble
    elif case["dtype"] is None:
        grid = UniformRadialGrid(n, min_radii=lo, max_radii=hi)
        want_dtype = np.longdouble
    else:
        want_dtype = np.dtype(case["dtype"]).type
        grid = UniformRadialGrid(num_pts=n, min_radii=lo, max_radii=hi, dtype=want_dtype)
    p = grid.points
    require(p.ndim == 1 and len(p) == n and len(grid) == n, lambda: f"{p.shape} points of {n}")
    require(p.dtype == want_dtype, lambda: f"dtype {p.dtype}")
    if n == 1:
        want = np.array([LD(lo)])
    else:
        want = LD(lo) + (LD(hi) - LD(lo)) * np.arange(n).astype(LD) / LD(n - 1)
    eps = max(float(np.finfo(p.dtype).eps), EPS)
    close("uniform points", p, want, 8 * eps * hi)
    require(bool(np.all(np.diff(p) >= 0)), "points not ascending")
    return Info(n > 2, str(case["dtype"]), "lo>0" if lo > 0 else "")


def clenshaw_case():
    s = st()
    return s.fixed_dictionaries({
        "z": s.integers(1, 120), "core": gen.ladder([s.integers(0, 10), s.integers(0, 1000)], 10**6),
        "diff": gen.ladder([s.integers(0, 10), s.integers(0, 1000)], 10**6),
        "extra": s.one_of(s.none(), s.lists(s.one_of(fl(0.0, 100.0), fl(50.0, 200.0)), max_size=8)),
        "origin": s.booleans(), "tuple": s.booleans(),
        "dtype": s.sampled_from(["longdouble", "float64", None]),
    })


def clenshaw_points(z, core, diff, extra, origin):
    p0 = 0 if origin else 1
    a = (1 - np.cos(ref.PI / 2 * np.arange(p0, p0 + core).astype(LD) / LD(max(core, 1)))) / (2 * LD(z))
    b = 25 * (1 - np.cos(ref.PI / 2 * np.arange(1, diff + 1).astype(LD) / LD(max(diff, 1))))
    return np.sort(np.concatenate((a, b, np.array(extra or [], dtype=LD))))


def check_clenshaw(case):
    from bfit import ClenshawRadialGrid
    extra = case["extra"]
    arg = tuple(extra) if extra is not None and case["tuple"] else extra
    kw = {} if case["dtype"] is None else {"dtype": np.dtype(case["dtype"]).type}
    if not case["origin"]:
        kw["include_origin"] = False
    if arg is not None:
        kw["extra_pts"] = arg
    grid = ClenshawRadialGrid(case["z"], case["core"], case["diff"], **kw)
    want = clenshaw_points(case["z"], case["core"], case["diff"], extra, case["origin"])
    p = grid.points
    require(grid.atomic_number == case["z"], "atomic number")
    require(p.ndim == 1 and len(p) == len(want) == len(grid),
            lambda: f"{p.shape} points, expected {len(want)}")
    asked = np.longdouble if case["dtype"] is None else np.dtype(case["dtype"]).type
    require(p.dtype == asked, lambda: f"points of type {p.dtype}, not {asked}")
    require(bool(np.all(np.diff(p) >= 0)), "points not sorted")
    require(bool(np.all(p >= 0)), "negative radius")
    close("Clenshaw points", p, want, 1e-14 * 25 + 4 * EPS * np.abs(want))
    small = want < 1.0 / case["z"] if case["core"] else want < 0
    close("core points", p[small], want[small], 4e-16 / case["z"] * 4 + 4 * EPS * want[small] + (
        1e-14 if case["diff"] and extra else 1e-14 * 25 if case["diff"] > 100 else 1e-15 * 25))
    has0 = (case["core"] > 0 and case["origin"]) or any(x == 0 for x in (extra or []))
    require((len(p) > 0 and p[0] == 0) == has0, "origin")
    return Info(len(want) > 2, "origin" if case["origin"] else "no origin",
                "extra" if extra else "", "no core" if case["core"] == 0 else "",
                "no diffuse" if case["diff"] == 0 else "")


# ------------------------------------------------------------------ C10: radial integration
def trapz_case():
    s = st()
    return s.fixed_dictionaries({
        "grid": s.one_of(gen.radial_grid_spec(200), s.fixed_dictionaries({
            "g": s.just("free"), "pts": gen.arr(1, 300, 0.0, 60.0, zeros=True),
            "unit": s.one_of(s.just(1.0), s.just(1.0), logfl(1e-9, 1e9))}), s.fixed_dictionaries({
                "g": s.just("uniform"), "n": gen.ladder([s.integers(1, 30)], 10**6), "lo": s.just(0.0),
                "hi": fl(1.0, 30.0), "dtype": s.sampled_from(["longdouble", "float64"])})),
        "y": gen.arr(1, 300, -1e3, 1e3, zeros=True), "z": gen.arr(1, 300, 1e-12, 1e6, log=True, signed=True),
        "a": fl(-10, 10), "b": fl(-10, 10), "ydtype": s.sampled_from(["float64", "float64", "longdouble", "longdouble", "int8", "uint8", "int64"]),
        "kind": s.sampled_from(["free", "linear", "const", "exp"]),
        "strided": s.booleans(), "bad": fl(0, 1),
    })


def build_radial(spec):
    from bfit import ClenshawRadialGrid
    if spec["g"] == "free":
        # any set of radii can be given as the extra points of a grid
        pts = [float(x) * spec.get("unit", 1.0) for x in A(spec["pts"])]
        return ClenshawRadialGrid(1, 0, 0, pts)
    return gen.G(spec)


def check_trapz(case):
    from bfit import AtomicGaussianDensity, KLDivergenceFPI
    grid = build_radial(case["grid"])
    x = np.asarray(grid.points).astype(LD)
    n = len(x)
    if case["kind"] == "linear":
        y = (case["a"] * grid.points + case["b"])
    elif case["kind"] == "const":
        y = np.full(n, case["b"])
    elif case["kind"] == "exp":
        y = np.exp(-abs(case["a"]) * grid.points)
    else:
        y = gen.fit_len(case["y"], n)
    ydtype = case["ydtype"] if case["kind"] != "linear" or "int" not in case["ydtype"] else "float64"
    if "int" in ydtype:
        top = np.iinfo(ydtype)
        y = np.clip(np.round(y), max(top.min, -10**6), min(top.max, 10**6))
    y = y.astype(ydtype)
    if case["strided"]:
        big = np.zeros(2 * n, y.dtype)
        big[::2] = y
        y = big[::2]
    z = gen.fit_len(case["z"], n)
    keep = y.copy()

    def tol(v):
        v = np.abs(np.asarray(v).astype(LD))
        mag = float(ref.trapz(v, x)) + float(np.max(np.abs(x)) * (v.max() if n else 0)) * n * 1e-18
        return EPS * (n + 20) * mag + 1e-290
    got = grid.integrate(y)
    close("trapezoidal integral", got, ref.trapz(y, x), tol(y), f"({n} points)")
    close("integrand unchanged", y, keep, 0)
    close("integral again", grid.integrate(y), ref.trapz(y, x), tol(y))
    close("other integrand", grid.integrate(z), ref.trapz(z, x), tol(z))
    if n > 1:
        bad = np.array(y * 1.0, copy=True)
        bad[int(case["bad"] * n) % n] = np.nan
        require(bool(np.isnan(grid.integrate(bad))), "an undefined value of the integrand is left out of the integral")
    mix = case["a"] * y + case["b"] * z
    close("linearity", grid.integrate(mix), case["a"] * LD(got) + case["b"] * ref.trapz(z, x),
          tol(np.abs(case["a"] * y) + np.abs(case["b"] * z)) * 4)
    if case["kind"] == "linear" and n > 0:
        lo, hi = x[0], x[-1]
        want = LD(case["a"]) * (hi ** 2 - lo ** 2) / 2 + LD(case["b"]) * (hi - lo)
        close("integral of a linear function", got, want, 4 * tol(np.abs(case["a"] * x) + abs(case["b"])))
    # spherical integration of a fitting object adds 4 pi r^2
    for sph in (True, False):
        mod = AtomicGaussianDensity(grid.points, num_s=1)
        fit = KLDivergenceFPI(grid, np.ones(n), mod, spherical=sph, integral_dens=1.0) if n > 1 and x[-1] > x[0] else None
        if fit is not None:
            w = 4 * ref.PI * x ** 2 if sph else np.ones(n)
            close("integral of a fitting object", fit.integrate(y), ref.trapz(y * w, x), 2 * tol(y * w),
                  f"(spherical={sph})")
    for bad in (np.ones(n + 1), np.ones((n, 1)), np.ones(n - 1) if n > 1 else np.ones(2)):
        try:
            v = grid.integrate(bad)
        except ValueError:
            continue
        raise Violation(f"integrand of shape {bad.shape} accepted by a grid of {n} points: {v}")
    return Info(n > 2 and bool(np.any(y != 0)), case["grid"]["g"], case["kind"])


# ------------------------------------------------------------------ C11: cubic grids
def cubic_case():
    s = st()
    # many points along one or two of the axes
    long_shape = s.tuples(s.one_of(s.integers(10, 40), s.sampled_from([127, 128, 129, 255, 256, 257, 300, 33000])),
                          s.one_of(s.integers(1, 3), s.integers(1, 3), s.sampled_from([20, 130])), s.integers(1, 3),
                          s.permutations([0, 1, 2])).map(
                              lambda v: [min(v[i], 3) if i and v[0] > 300 else v[i] for i in v[3]])
    return s.fixed_dictionaries({
        "shape": s.integers(0, 19).flatmap(lambda k: long_shape if k == 19 else s.tuples(
            *[s.integers(1, 9)] * 3).map(list)), "seed": seeds(),
        "axes": s.sampled_from(["diag", "aniso", "rot", "skew", "left"]),
        "h": s.one_of(logfl(1e-3, 1e2), logfl(1e-8, 1e5)), "near": s.booleans(), "off": fl(-100, 100), "y": gen.arr(1, 800, -1e3, 1e3, zeros=True),
        "shape_type": s.sampled_from(["tuple", "list", "array"]),
        "a": fl(-5, 5), "layout": s.sampled_from(["C", "F"]),
        "narrow": s.booleans(), "whole": s.sampled_from(["", "", "", "origin", "axes", "both"]),
    })


def check_cubic(case):
    from bfit import CubicGrid
    rng = np.random.default_rng(case["seed"])
    h = case["h"]
    k = case["axes"]
    if k == "diag":
        axes = h * np.eye(3)
    elif k == "aniso":
        axes = np.diag(h * rng.uniform(0.3, 3, 3))
    else:
        axes, _ = np.linalg.qr(rng.normal(size=(3, 3)))
        if k == "skew":
            axes = axes + 0.4 * rng.uniform(-1, 1, (3, 3))
        if (np.linalg.det(axes) < 0) != (k == "left"):
            axes[0] = -axes[0]
        axes = h * axes
    axes = np.array(axes, order=case["layout"])
    origin = case["off"] * rng.uniform(-1, 1, 3) * (h if case.get("near") else 1)
    # whole numbers in arrays of integers
    if case.get("whole") in ("axes", "both"):
        axes = np.rint(axes / h * 3).astype(int)
        if abs(np.linalg.det(axes)) < 0.5:
            axes = 2 * np.eye(3, dtype=int)
    if case.get("whole") in ("origin", "both"):
        origin = np.rint(origin).astype(int)
    if case.get("narrow") and case.get("whole"):
        axes, origin = [np.clip(v * 5, -128, 127).astype(np.int8) if v.dtype == int else v for v in (axes, origin)]
    shape = tuple(case["shape"])
    keep = axes.copy(), origin.copy()
    sh = {"tuple": shape, "list": list(shape), "array": np.array(shape)}[case["shape_type"]]
    grid = CubicGrid(origin, axes, sh)
    n = shape[0] * shape[1] * shape[2]
    ijk = np.indices(shape).reshape(3, -1).T                 # the last index runs fastest
    want = origin.astype(LD) + ijk[:, :1] * axes[0].astype(LD) + ijk[:, 1:2] * axes[1].astype(LD) + \
        ijk[:, 2:] * axes[2].astype(LD)
    mag = float(np.abs(1.0 * origin).max() + np.abs(1.0 * axes).sum() * max(shape))
    require(len(grid) == n, lambda: f"length {len(grid)} of {n}")
    close("cubic points", grid.points, want, 20 * EPS * mag)
    close("axes", grid.axes, keep[0], 0)
    vol = abs(LD(np.linalg.det(axes)))
    y = gen.fit_len(case["y"], n)
    z = np.cos(np.arange(n) * 1.7)
    for arr_ in (y, z, np.ones(n), case["a"] * y + z):
        w = (arr_.astype(LD) * vol).sum()
        close("cubic integral", grid.integrate(arr_), w, (n + 60) * EPS * float((np.abs(arr_) * vol).sum()) + 1e-290,
              f"(shape {shape}, axes {k})")
    bad = np.array(y, copy=True)
    bad[case["seed"] % n] = np.nan
    require(bool(np.isnan(grid.integrate(bad))), "an undefined value of the integrand is left out of the integral")
    close("axes after", axes, keep[0], 0)
    close("origin after", origin, keep[1], 0)
    for bad in (np.ones(n + 1), np.ones((n, 1)), np.ones(shape)):
        try:
            v = grid.integrate(bad)
        except ValueError:
            continue
        raise Violation(f"integrand of shape {bad.shape} accepted: {v}")
    return Info(n > 1 and len(set(shape)) > 1, k, "n1" if 1 in shape else "", "long" if max(shape) > 9 else "")


# ------------------------------------------------------------------ C12: molecular boxes
def box_case():
    s = st()
    return s.fixed_dictionaries({
        "n": s.integers(1, 8), "seed": seeds(), "size": s.sampled_from([0.0, 0.5, 2.0, 5.0]),
        "flat": s.sampled_from([0, 0, 0, 1, 2]), "z": s.one_of(gen.arr(1, 8, 1.0, 90.0), gen.arr(1, 8, 0.0, 3.0, zeros=True)),
        "edge": s.one_of(s.none(), s.none(), logfl(1e-7, 0.1)), "above": s.booleans(),
        "spacing": fl(0.35, 2.0), "ext": s.one_of(fl(0.1, 4.0), s.just(5.0)), "rotate": s.booleans(),
        "heavy": s.booleans(), "shift": fl(-50, 50), "intz": s.booleans(), "sym": s.booleans(),
        "unit": s.sampled_from([1.0, 1.0, 1.0, 1e-6, 1e4]), "defaults": s.booleans(), "narrow": s.booleans(), "whole": s.sampled_from(["", "", "", "x", "z", "xz"]),
    })


def check_box(case):
    from bfit import CubicGrid
    rng = np.random.default_rng(case["seed"])
    n = case["n"]
    x = rng.normal(size=(n, 3)) * case["size"]
    if case["sym"]:
        x = np.concatenate((x, -x))
        n *= 2
    if case["flat"]:                       # planar or linear molecules
        x[:, :case["flat"]] = 0.0
        q, _ = np.linalg.qr(rng.normal(size=(3, 3)))
        x = x @ q
    x = x + case["shift"] * rng.uniform(-1, 1, 3)
    z = gen.fit_len(case["z"], n)
    if case["sym"]:
        z[n // 2:] = z[:n // 2]
    if case["heavy"]:
        z[0] = 92.0
    if case["intz"]:
        z = np.round(z)
    whole = case.get("whole", "")
    if "x" in whole:                       # arrays of integers
        x = np.rint(x).astype(int)
    if "z" in whole:
        z = np.round(z).astype(int)
    if case.get("narrow"):                 # sums and products may overflow
        x, z = [np.clip(v * 2 - 2 * v.min(), 0, 127).astype(np.uint8) if v.dtype == int else v for v in (x, z)]
    if z[0] < 1.0:                         # (pseudo) charges may be small or zero, not all of them
        z[0] = 1.0
    sp, ext, rot = case["spacing"], case["ext"], case["rotate"]
    if case["edge"] and not rot and not case["defaults"]:
        # the box is a little longer (or shorter) than a whole number of cells
        length = float(np.ptp(x[:, case["seed"] % 3])) + 2 * ext
        k = max(1.0, np.ceil(length / sp)) + (case["edge"] if case["above"] else -case["edge"])
        ext += 0.5 * (k * sp - length)
        ext = max(ext, 0.05)
    unit = 1.0                             # lengths in another unit
    if not case["defaults"] and x.dtype == float:
        unit = case.get("unit", 1.0)
        x, sp, ext = x * unit, sp * unit, ext * unit
    if case.get("narrow"):
        sp = max(sp, float(np.ptp(x, axis=0).max()) / 25)
    kx, kz = x.copy(), z.copy()
    if case["defaults"]:
        ext, rot = 5.0, True
        sp = max(sp, 0.8)
        grid = CubicGrid.from_molecule(z, x, sp)
    else:
        grid = CubicGrid.from_molecule(z, x, spacing=sp, extension=ext, rotate=rot)
    close("charges after", z, kz, 0)
    close("coordinates after", x, kx, 0)
    x, z = x.astype(float), z.astype(float)
    axes = np.asarray(grid.axes, float)
    tolx = 1e-9 * (unit + np.abs(x).max())
    close("axes orthogonal, of the length of the spacing", axes @ axes.T, np.eye(3) * sp ** 2, 1e-11 * sp ** 2)
    if not rot:
        close("axes without rotation", axes, np.eye(3) * sp, 1e-12 * sp)
    u = axes / sp
    p = grid.points
    # the grid is a full box: from the first point along the three axes
    rel = (p - p[0]) @ u.T / sp
    idx = np.rint(rel).astype(int)
    close("points on the lattice", rel, idx, 1e-7 * (1 + np.abs(idx)) + tolx / sp * 10)
    shape = idx.max(axis=0) + 1
    require(idx.min() == 0 and len(p) == np.prod(shape) and
            len(np.unique(np.ravel_multi_index(tuple(idx.T), tuple(shape)))) == len(p),
            lambda: f"{len(p)} points do not fill a box of {shape}")
    loc = (x - p[0]) @ u.T                     # nuclei along the axes, from the origin of the grid
    low = loc.min(axis=0)
    high = shape * sp - loc.max(axis=0)        # every point stands for one cell of the spacing
    require(bool(np.all(low >= ext - tolx)) and bool(np.all(high >= ext - tolx)),
            lambda: f"margins {low} {high} of the nuclei in the box, extension {ext}, spacing {sp}")
    extent = loc.max(axis=0) - loc.min(axis=0)
    require(bool(np.all(shape * sp <= extent + 2 * ext + sp * (1 + 1e-6) + 2 * tolx)),
            lambda: f"box {shape * sp} much larger than the molecule {extent} and twice {ext}")
    close("volume", grid.integrate(np.ones(len(p))), np.prod(shape * sp), 1e-9 * np.prod(shape * sp))
    if rot:
        com = (z[:, None] * x).sum(axis=0) / z.sum()
        y = x - com
        it = (z[:, None, None] * ((y ** 2).sum(axis=1)[:, None, None] * np.eye(3) - y[:, :, None] * y[:, None, :])).sum(axis=0)
        d = u @ it @ u.T
        off = d - np.diag(np.diag(d))
        require(np.abs(off).max() <= 1e-9 * (np.abs(it).max() + 1e-12 * unit ** 2) + 1e-7 * tolx * unit,
                lambda: f"the axes are not the principal axes of the charges: {off}")
    return Info(n > 1 and case["size"] > 0, "rotate" if rot else "fixed", f"flat{case['flat']}",
                "symmetric" if case["sym"] else "")


PROPS = {
    "C09": {"subs": lambda: [
        Sub("uniform", uniform_case, check_uniform, 4000, "non-trivial: more than two points"),
        Sub("clenshaw", clenshaw_case, check_clenshaw, 5000, "non-trivial: more than two points")]},
    "C10": {"subs": lambda: [
        Sub("trapezoid", trapz_case, check_trapz, 5000,
            "non-trivial: more than two points and an integrand that is not zero")]},
    "C11": {"subs": lambda: [
        Sub("cubic", cubic_case, check_cubic, 4000, "non-trivial: more than one point, shape not a cube")]},
    "C12": {"subs": lambda: [
        Sub("box", box_case, check_box, 3000, "non-trivial: more than one nucleus at different places")]},
}
