"""Strategies (producing JSON-able specs) and builders (turning specs into arrays)."""
import math

import numpy as np


def _st():
    from hypothesis import strategies as st
    return st


def fl(lo, hi):
    return _st().floats(lo, hi, allow_nan=False, allow_infinity=False, allow_subnormal=False)


def logfl(lo, hi):
    """Log-uniform-ish positive float."""
    st = _st()
    a, b = math.log10(lo), math.log10(hi)
    return fl(a, b).map(lambda x: float(min(hi, max(lo, 10.0 ** x))))


def seeds():
    return _st().integers(0, 2**32 - 1)


def arr(n_lo, n_hi, lo, hi, log=False, explicit=6, zeros=False, signed=False, n=None):
    """Spec of an array: an explicit list when short, else a seeded description."""
    st = _st()
    el = logfl(lo, hi) if log else fl(lo, hi)
    if signed:
        el = st.builds(lambda s, x: s * x, st.sampled_from([1.0, -1.0]), el)
    if zeros:
        el = st.one_of(el, el, el, st.just(0.0))
    if n is not None:
        n_lo = n_hi = n
    opts = []
    if n_lo <= explicit:
        opts.append(st.lists(el, min_size=n_lo, max_size=min(n_hi, explicit)))
    sd = {"seed": seeds(), "n": st.integers(n_lo, n_hi), "lo": st.just(lo), "hi": st.just(hi),
          "log": st.just(log), "signed": st.just(signed),
          "rep": st.sampled_from([0.0, 0.0, 0.3]),
          "zero": st.sampled_from([0.0, 0.2]) if zeros else st.just(0.0)}
    opts.append(st.fixed_dictionaries(sd))
    if n_hi > explicit and n_lo <= explicit:
        opts.append(opts[-1])
    return st.one_of(*opts)


def A(spec, dtype=float):
    """Build the array of a spec."""
    if not isinstance(spec, dict):
        return np.array(spec, dtype=dtype)
    rng = np.random.default_rng(spec["seed"])
    n = spec["n"]
    lo, hi = spec["lo"], spec["hi"]
    if spec.get("log"):
        x = 10.0 ** rng.uniform(math.log10(lo), math.log10(hi), n)
    else:
        x = rng.uniform(lo, hi, n)
    if spec.get("signed"):
        x = x * rng.choice([-1.0, 1.0], n)
    if spec.get("rep") and n > 1:
        m = rng.random(n) < spec["rep"]
        x[m] = x[rng.integers(0, n, int(m.sum()))]
    if spec.get("zero"):
        x[rng.random(n) < spec["zero"]] = 0.0
    return x.astype(dtype)


def fit_len(spec, n):
    """Array of a spec resized to exactly n entries (cyclically, deterministic)."""
    x = A(spec)
    if len(x) == 0:
        return np.ones(n)
    if n <= len(x):
        return x[:n].copy()
    # repeated, but not periodically
    return np.concatenate((x, np.random.default_rng(n).choice(x, n - len(x))))


# ---------------------------------------------------------------- point sets
LADDER = [129, 257, 513, 1025, 2049, 4097, 8193, 16385, 33000, 66000]


def ladder(usual, top):
    """Sizes: the usual ones, and now and then one just above a power of two, up to top."""
    st = _st()
    big = [n for n in LADDER if n <= top]
    if not big:
        return st.one_of(*usual)
    return st.integers(0, 39).flatmap(lambda k: st.sampled_from(big) if k == 39 else st.one_of(*usual))


def points_spec(max_n=60, big=400, dims=(0, 1, 2, 3, 4), radial=False, rmax=20.0, top=8193):
    """dim 0 stands for a one-dimensional array of points."""
    st = _st()
    return st.fixed_dictionaries({
        "dim": st.just(0) if radial else st.sampled_from(list(dims)),
        "n": ladder([st.integers(1, 8), st.integers(1, max_n), st.sampled_from([big, big, big, 10 * big])], top),
        "seed": seeds(),
        "kind": st.sampled_from(["lin", "rand", "near0", "log", "dup"]),
        "scale": logfl(1e-2, rmax),
        "neg": st.just(False) if radial else st.booleans(),
        "dtype": st.sampled_from(["float64", "float64", "float64", "longdouble", "longdouble", "int64", "uint8"]),
        "layout": st.sampled_from(["C", "C", "F", "strided", "readonly"]),
    })


def casts():
    return _st().sampled_from(["", "", "", "", "int c", "int e", "int", "readonly", "strided", "longdouble", "unsigned", "single c"])


def cast(kind, c, e):
    """Coefficients and exponents as other arrays of nearly (integers) or exactly (others) the same numbers."""
    c, e = c.copy(), e.copy()
    if kind in ("int c", "int"):
        c = np.clip(np.round(c), -10**6, 10**6).astype(np.int64)
    if kind in ("int e", "int"):
        e = np.clip(np.round(e), 1, 10**9).astype(np.int64)
    if kind == "single c":
        c = c.astype(np.float32)
    if kind == "unsigned":
        e = np.clip(np.round(e), 1, 250).astype(np.uint8)
    if kind == "longdouble":
        c, e = c.astype(np.longdouble), e.astype(np.longdouble)
    if kind == "strided":
        both = np.empty((len(c), 2))
        both[:, 0], both[:, 1] = c, e
        c, e = both[:, 0], both[:, 1]
    if kind == "readonly":
        c.setflags(write=False)
        e.setflags(write=False)
    return c, e


def P(spec, center=None):
    """Build points (N,) or (N, D)."""
    rng = np.random.default_rng(spec["seed"])
    n, d, s = spec["n"], max(1, spec["dim"]), spec["scale"]
    shape = (n, d)
    k = spec["kind"]
    if k == "lin":
        x = np.linspace(0.0, s, n)[:, None] * np.linspace(1.0, 0.5, d)[None, :]
    elif k == "rand":
        x = rng.uniform(0.0, s, shape)
    elif k == "near0":
        x = rng.uniform(0.0, s, shape) * 10.0 ** rng.uniform(-8, 0, shape)
        x[rng.integers(0, n)] = 0.0
    elif k == "log":
        x = s * 10.0 ** rng.uniform(-3, 0, shape)
    else:
        x = np.round(rng.uniform(0.0, 4.0, shape)) * s / 4.0
    if spec.get("neg"):
        x = x * rng.choice([-1.0, 1.0], shape)
    if spec.get("dtype") == "int64":
        x = np.round(x)
    if spec.get("dtype") == "uint8":
        x = np.clip(np.round(np.abs(x)), 0, 255)
    x = x.astype(spec.get("dtype", "float64"))
    if spec["dim"] == 0:
        x = x[:, 0]
    lay = spec.get("layout", "C")
    if lay == "F":
        x = np.asfortranarray(x)
    elif lay == "strided":
        y = np.zeros((2 * n,) + x.shape[1:], dtype=x.dtype)
        y[::2] = x
        x = y[::2]
    elif lay == "readonly":
        x = x.copy()
        x.setflags(write=False)
    return x


# ---------------------------------------------------------------- grids
def radial_grid_spec(max_n=80, rmax=15.0, large=True):
    st = _st()

    def sizes(lo, hi, *big):
        """Mostly small ones, some far larger."""
        return st.one_of(*[st.integers(lo, hi)] * 9, st.sampled_from(big)) if large else st.integers(lo, hi)
    return st.one_of(
        st.fixed_dictionaries({
            "g": st.just("uniform"), "n": sizes(5, max_n, 257, 700, 1025), "lo": st.sampled_from([0.0, 0.0, 0.1]),
            "hi": fl(1.0, rmax), "dtype": st.sampled_from(["longdouble", "float64"])}),
        st.fixed_dictionaries({
            "g": st.just("clenshaw"), "z": st.integers(1, 60), "core": sizes(1, max_n // 2, 100, 260),
            "diff": sizes(5, max_n // 2, 100, 301), "origin": st.booleans(),
            "extra": st.lists(fl(26.0, 60.0), max_size=3),
            "dtype": st.sampled_from(["longdouble", "float64"])}))


def cubic_grid_spec(max_n=6, large=True):
    st = _st()
    shape = st.tuples(*[st.integers(2, max_n)] * 3).map(list)
    if large:
        shape = st.one_of(*[shape] * 9, st.sampled_from([[11, 13, 8], [10, 12, 17]]))
    return st.fixed_dictionaries({
        "g": st.just("cubic"), "shape": shape,
        "seed": seeds(), "h": fl(0.2, 1.0), "skew": st.sampled_from([0.0, 0.3]),
        "diag": st.booleans(), "dtype": st.just("float64")})


def duck_grid_spec(max_n=60, minus=False):
    """A user's own quadrature: any points in any dimension and order, any weights (negative ones only on request)."""
    st = _st()
    return st.fixed_dictionaries({
        "g": st.just("own"), "n": st.integers(2, max_n), "dim": st.sampled_from([0, 0, 1, 2, 3, 3, 4]), "seed": seeds(),
        "scale": fl(0.5, 4.0), "sign": st.booleans(), "zero": st.sampled_from([0.0, 0.0, 0.2]), "equal": st.booleans(),
        "dtype": st.sampled_from(["float64", "float64", "longdouble"]), "decoy": st.booleans(),
        "minus": st.sampled_from([0.0, 0.0, 0.1, 0.3, 1.0]) if minus else st.just(0.0)})


class OwnGrid:
    """The documented interface of a grid, and nothing else: points and integrate."""

    def __init__(self, points, weights, decoy=False):
        self.points = points
        self._w = weights
        if decoy:
            # whatever else an object of the user has, with a meaning of its own
            self.weights, self.axes, self.origin = np.ones(3), np.eye(2), None
            self.shape, self.spacing, self.size, self.spherical = (7, 7, 7), -1.0, 0, "no"

    def integrate(self, arr):
        if np.shape(arr) != self._w.shape:
            raise AssertionError(f"integrand of shape {np.shape(arr)} for {len(self._w)} points")
        return np.sum(self._w * arr)


def own_parts(spec):
    rng = np.random.default_rng(spec["seed"])
    n, d = spec["n"], spec["dim"]
    pts = rng.uniform(0.0, spec["scale"], (n, max(1, d)))
    if spec["sign"]:
        pts = pts * rng.choice([-1.0, 1.0], pts.shape)
    w = np.full(n, 0.3) if spec["equal"] else rng.uniform(0.01, 1.0, n)
    off = rng.random(n) < spec["zero"]
    off[0] = False
    w[off] = 0.0
    # rules of high order, or with the points in descending order, have negative weights
    w[rng.random(n) < spec.get("minus", 0.0)] *= -1.0
    pts = pts.astype(spec["dtype"])
    return (pts[:, 0] if d == 0 else pts), w


def G(spec):
    """Build the grid of the library."""
    if spec["g"] == "own":
        return OwnGrid(*own_parts(spec), decoy=spec.get("decoy", False))
    from bfit import ClenshawRadialGrid, CubicGrid, UniformRadialGrid
    if spec["g"] == "uniform":
        return UniformRadialGrid(spec["n"], spec["lo"], spec["hi"], dtype=np.dtype(spec["dtype"]).type)
    if spec["g"] == "clenshaw":
        return ClenshawRadialGrid(spec["z"], spec["core"], spec["diff"], list(spec["extra"]),
                                  include_origin=spec["origin"],
                                  dtype=np.dtype(spec["dtype"]).type)
    origin, axes, shape = cubic_parts(spec)
    return CubicGrid(origin, axes, shape)


def cubic_parts(spec):
    rng = np.random.default_rng(spec["seed"])
    if spec["diag"]:
        q = np.eye(3)
    else:
        q, _ = np.linalg.qr(rng.normal(size=(3, 3)))
    axes = spec["h"] * (q + spec["skew"] * rng.uniform(-1, 1, (3, 3)))
    shape = tuple(spec["shape"])
    mid = 0.5 * (np.array(shape) - 1.0) @ axes
    origin = -mid + spec.get("unit", 1.0) * rng.uniform(-0.5, 0.5, 3)
    return origin, axes, shape
