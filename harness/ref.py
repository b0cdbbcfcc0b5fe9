"""Reference formulas in long double, written from the definitions, with bounds on rounding."""
import numpy as np

LD = np.longdouble
EPS = float(np.finfo(float).eps)
TINY = 1e-280
PI = LD("3.14159265358979323846264338327950288")


def radii2(points, center=None):
    """Squared distances, in long double."""
    p = np.asarray(points).astype(LD)
    if p.ndim == 1:
        p = p[:, None]
    c = np.zeros(p.shape[1], LD) if center is None else np.asarray(center).astype(LD)
    out = np.zeros(len(p), LD)
    for d in range(p.shape[1]):
        out += (p[:, d] - c[d]) ** 2
    return out


def basis(r2, a, kind, norm):
    """One basis function: value, d/d exponent, and a bound of the relative error of its terms."""
    a = LD(a)
    e = np.exp(-a * r2)
    if kind == "s":
        pref = (a / PI) ** LD(1.5) if norm else LD(1)
        b = pref * e
        mag = b * (r2 + (LD(1.5) / a if norm else LD(0)))
        d = b * ((LD(1.5) / a if norm else LD(0)) - r2)
    else:
        pref = a ** LD(2.5) / PI ** LD(1.5) / LD(1.5) if norm else LD(1)
        b = pref * r2 * e
        mag = b * (r2 + (LD(2.5) / a if norm else LD(0)))
        d = b * ((LD(2.5) / a if norm else LD(0)) - r2)
    return b, d, mag, 1 + a * r2


def model(r2s, kinds, norm, coeffs, expons):
    """Sum of basis functions.  r2s: one array of squared distances per function.

    Returns value, bound of its rounding error, derivative (N, 2M), bound of its rounding error.
    """
    n, m = len(r2s[0]), len(kinds)
    val, tol = np.zeros(n, LD), np.zeros(n, LD)
    der, dtol = np.zeros((n, 2 * m), LD), np.zeros((n, 2 * m), LD)
    for i in range(m):
        b, d, mag, cond = basis(r2s[i], expons[i], kinds[i], norm)
        c = LD(coeffs[i])
        val += c * b
        tol += abs(c) * b * (cond * 8 + 20 + m)
        der[:, i] = b
        dtol[:, i] = b * (cond * 8 + 20)
        der[:, m + i] = c * d
        dtol[:, m + i] = abs(c) * mag * (cond * 8 + 30)
    return val, tol * EPS + TINY, der, dtol * EPS + TINY


def kinds_of(ns, np_):
    return ["s"] * ns + ["p"] * np_


def trapz(y, x):
    y, x = np.asarray(y).astype(LD), np.asarray(x).astype(LD)
    tot = LD(0)
    terms = (x[1:] - x[:-1]) * (y[1:] + y[:-1]) / 2
    return terms.sum() if len(terms) else tot


def quad_weights(grid_spec, grid):
    """Quadrature weights of a grid built by gen.G, from the definition of the rules."""
    if grid_spec["g"] == "cubic":
        import gen
        _, axes, shape = gen.cubic_parts(grid_spec)
        v = abs(np.linalg.det(axes.astype(float)))
        return np.full(int(np.prod(shape)), LD(v))
    if grid_spec["g"] == "own":
        import gen
        return gen.own_parts(grid_spec)[1].astype(LD)
    return trapz_weights(grid.points)


def trapz_weights(points):
    x = np.asarray(points).astype(LD)
    w = np.zeros(len(x), LD)
    if len(x) > 1:
        h = x[1:] - x[:-1]
        w[:-1] += h / 2
        w[1:] += h / 2
    return w


def kl_terms(f, g, mask):
    """Kullback-Leibler integrand and d/dg by the documented definition (g >= 0)."""
    f, g = np.asarray(f).astype(LD), np.asarray(g).astype(LD)
    masked = g <= mask
    gs = np.where(masked, LD(1), g)
    ratio = np.where(masked, LD(1), f / gs)
    safe = np.where(ratio > 0, ratio, LD(1))
    val = np.where(f > 0, f * np.log(safe), LD(0))
    return val, -ratio


def tsallis_terms(f, g, alpha, mask):
    f, g = np.asarray(f).astype(LD), np.asarray(g).astype(LD)
    al = LD(alpha)
    masked = g <= mask
    gs = np.where(masked, LD(1), g)
    ratio = np.where(masked, LD(0), f / gs)
    pos = ratio > 0
    safe = np.where(pos, ratio, LD(1))
    pw = np.where(pos, safe ** (al - 1), LD(0))
    val = f * (pw - 1) / (al - 1)
    der = -np.where(pos, safe ** al, LD(0))
    return val, der, pw, safe


def close(name, got, want, tol, ctx=""):
    """Compare arrays with an elementwise absolute tolerance; raise Violation on a difference."""
    from core import Violation
    got = np.asarray(got)
    want = np.asarray(want)
    if got.shape != want.shape:
        raise Violation(f"{name}: shape {got.shape}, expected {want.shape} {ctx}")
    g = got.astype(LD)
    bad = ~((np.abs(g - want) <= tol) | (g == want))
    if np.any(bad):
        i = np.argwhere(np.atleast_1d(bad))[0]
        gi, wi = np.atleast_1d(g)[tuple(i)], np.atleast_1d(want)[tuple(i)]
        ti = np.broadcast_to(np.atleast_1d(np.asarray(tol)), np.atleast_1d(g).shape)[tuple(i)]
        raise Violation(f"{name}: got {float(gi)!r}, expected {float(wi)!r} (+-{float(ti):.2e}) at "
                        f"{[int(x) for x in i]}, {int(np.sum(bad))} differences {ctx}")
