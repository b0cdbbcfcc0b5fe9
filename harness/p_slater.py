"""Slater files and densities, UGBS exponents, published results."""
import glob
import json
import math
import os
import re

import numpy as np

import gen
import ref
from core import Info, Sub, Violation, require
from gen import A, fl, logfl, seeds
from ref import EPS, LD, close


def st():
    from hypothesis import strategies
    return strategies


SYMBOLS = ("h he li be b c n o f ne na mg al si p s cl ar k ca sc ti v cr mn fe co ni cu zn ga ge as se br kr "
           "rb sr y zr nb mo tc ru rh pd ag cd in sn sb te i xe cs ba la ce pr nd pm sm eu gd tb dy ho er tm yb "
           "lu hf ta w re os ir pt au hg tl pb bi po at rn fr ra ac th pa u np pu am cm bk cf es fm md no lr").split()
Z = {s: i + 1 for i, s in enumerate(SYMBOLS)}
EXT = {"neutral": "slater", "anion": "an", "cation": "cat"}
SHELL = {"K": {"1S": 2}, "L": {"2S": 2, "2P": 6}, "M": {"3S": 2, "3P": 6, "3D": 10},
         "N": {"4S": 2, "4P": 6, "4D": 10, "4F": 14}}
XE = "K(2)L(8)M(18)4S(2)4P(6)5S(2)4D(10)5P(6)"
RN = XE + "4F(14)6S(2)5D(10)6P(6)"
ANGULAR = {"S": 0, "P": 1, "D": 2, "F": 3}
KNOWN_BAD = ("ag", "anion")          # listed in known_findings.txt
EXCLUDED = [("cs", "cation")]        # refused by the library (its tests demand this)


def data_dir():
    return os.path.join(os.environ.get("VERIF_PKG_ROOT", "/repo"), "bfit", "data")


def shipped():
    out = []
    for kind, ext in EXT.items():
        for path in sorted(glob.glob(os.path.join(data_dir(), kind, "*." + ext))):
            sym = os.path.basename(path)[:-len(ext) - 1]
            if sym in Z and (sym, kind) not in EXCLUDED:
                out.append([sym, kind])
    return out


def occupations(config):
    """Electrons of the subshells of a configuration such as K(2)L(8)3S(2)3P(4)."""
    config = config.replace(",", "").replace("[XE]", XE).replace("[RN]", RN)
    occ = {}
    pos = 0
    for m in re.finditer(r"(\d[SPDF]|[KLMN])\((\d+)\)", config):
        assert m.start() == pos, config
        pos = m.end()
        if m.group(1) in SHELL:
            assert sum(SHELL[m.group(1)].values()) == int(m.group(2)), config
            occ.update(SHELL[m.group(1)])
        else:
            assert m.group(1) not in occ
            occ[m.group(1)] = int(m.group(2))
    assert pos == len(config), config
    return occ


def parse(path):
    """Independent reader of a Slater file."""
    lines = [x.rstrip() for x in open(path, encoding="utf8")]
    out = {"occ": occupations(lines[0].split()[1]), "orbitals": [], "energies": [], "cusps": [], "basis": {},
           "exps": {}, "coeffs": {}}
    section = None
    for line in lines[1:]:
        w = line.split()
        if re.match(r"\s*E\s*=", line):
            out["E"] = float(line.split("=")[1])
        elif re.match(r"\s*T\s*=", line):
            v = re.findall(r"=\s*(-?\d+\.\d+)", line)
            out["T"], out["V"], out["VT"] = [float(x) for x in v]
        elif w and re.fullmatch("[SPDF]", w[0]) and len(w) > 1 and re.fullmatch(r"\d[SPDF]", w[1]):
            section, names = w[0], w[1:]
            out["orbitals"] += names
            out["basis"].setdefault(section, [])
            out["exps"].setdefault(section, [])
            for x in names:
                out["coeffs"][x] = []
        elif w and w[0].startswith("BASIS/ORB"):
            out["energies"] += [float(x) for x in w[1:]]
        elif w and w[0] == "CUSP":
            out["cusps"] += [float(x) for x in w[1:]]
        elif section and w and re.fullmatch(r"\d" + section, w[0]):
            out["basis"][section].append(w[0])
            out["exps"][section].append(float(w[1]))
            assert len(w) == 2 + len(names), (path, line)
            for x, c in zip(names, w[2:]):
                out["coeffs"][x].append(float(c))
    out["energy_lines"] = [len(out["orbitals"]), len(out["energies"]), len(out["cusps"])]
    return out


_CACHE = {}


def reference(sym, kind):
    if (sym, kind) not in _CACHE:
        _CACHE[(sym, kind)] = parse(os.path.join(data_dir(), kind, sym + "." + EXT[kind]))
    return _CACHE[(sym, kind)]


def atom(sym, kind):
    from bfit import SlaterAtoms
    return SlaterAtoms(sym, anion=kind == "anion", cation=kind == "cation")


def compare(obj, p, ctx):
    require(obj.energy == p["E"] and obj.kinetic_energy == p["T"] and obj.potential_energy == p["V"],
            lambda: f"energies {obj.energy} {obj.kinetic_energy} {obj.potential_energy} of {ctx}")
    require(list(obj.orbitals) == p["orbitals"], lambda: f"orbitals {obj.orbitals} of {ctx}")
    n = len(p["orbitals"])
    want = np.array([p["occ"][o] for o in p["orbitals"]])
    got = np.asarray(obj.orbitals_occupation)
    require(got.shape == (n, 1) and np.array_equal(got[:, 0], want), lambda: f"occupations {got.ravel()} of {ctx}, {want}")
    got = np.asarray(obj.orbitals_energy)
    require(got.shape == (n, 1), lambda: f"orbital energies {got.shape} of {ctx}")
    close(f"orbital energies of {ctx}", got[:, 0], np.array(p["energies"], LD), 1e-13 * np.abs(p["energies"]))
    got = np.asarray(obj.orbitals_cusp)
    require(got.shape == (len(p["cusps"]), 1), lambda: f"cusps {got.shape} of {ctx}")
    close(f"cusps of {ctx}", got[:, 0], np.array(p["cusps"], LD), 1e-13)
    used = {k for k, v in p["basis"].items() if v}
    require({k for k, v in obj.orbitals_basis.items() if len(v)} == used, lambda: f"basis of {ctx}")
    require(set(obj.orbitals_exp) == used and set(obj.basis_numbers) == used, lambda: f"subshells of {ctx}")
    require(set(obj.orbitals_coeff) == set(p["orbitals"]), lambda: f"coefficients of {sorted(obj.orbitals_coeff)} of {ctx}")
    for k in used:
        require(list(obj.orbitals_basis[k]) == p["basis"][k], lambda: f"basis {k} of {ctx}")
        num = np.asarray(obj.basis_numbers[k])
        require(num.shape == (len(p["basis"][k]), 1) and list(num[:, 0]) == [int(x[0]) for x in p["basis"][k]],
                lambda: f"basis numbers {k} of {ctx}")
        ex = np.asarray(obj.orbitals_exp[k])
        require(ex.shape == num.shape and list(ex[:, 0]) == p["exps"][k], lambda: f"exponents {k} of {ctx}")
    for o in p["orbitals"]:
        c = np.asarray(obj.orbitals_coeff[o])
        require(c.shape == (len(p["coeffs"][o]), 1) and list(c[:, 0]) == p["coeffs"][o],
                lambda: f"coefficients of {o} of {ctx}")


# ------------------------------------------------------------------ C25: every shipped file, generated files
def check_file(case):
    sym, kind = case
    name = sym if kind == "neutral" else f"{sym} {kind}"
    if (sym, kind) == KNOWN_BAD:
        try:
            obj = atom(sym, kind)
        except Exception as ex:  # pylint: disable=broad-except
            raise Violation(f"SlaterAtoms('ag', anion=True) fails: {ex!r}", key="ag-anion") from None
        compare(obj, reference(sym, kind), name)
        return Info(True, kind)
    p = reference(sym, kind)
    obj = atom(sym, kind)
    compare(obj, p, name)
    for other in (sym.upper(), sym.capitalize()):
        compare(atom(other, kind), p, other)
    # a second object shares nothing with the first one
    obj.orbitals_energy[:] = 0.0
    obj.orbitals_occupation[:] = 0
    for k in obj.orbitals_coeff:
        obj.orbitals_coeff[k][:] = 1.0
    for k in obj.orbitals_exp:
        obj.orbitals_exp[k][:] = 1.0
    compare(atom(sym, kind), p, name + " after changing another object")
    require(abs(sum(p["occ"].values()) - Z[sym]) == {"neutral": 0, "anion": 1, "cation": 1}[kind], "file")
    return Info(True, kind, "heavy" if Z[sym] > 54 else "light")


CAPACITY = {"S": 2, "P": 6, "D": 10, "F": 14}


def file_case():
    s = st()
    return s.fixed_dictionaries({
        "shells": s.integers(0, 4), "orb": s.tuples(s.integers(1, 7), s.integers(0, 6), s.integers(0, 5), s.integers(0, 4)).map(list),
        "seed": seeds(), "nbasis": s.lists(s.integers(1, 14), min_size=4, max_size=4),
        "blank": s.integers(0, 3), "blank2": s.integers(0, 2), "full": s.booleans(), "tail": s.integers(0, 2),
        "neg": s.booleans(), "comma": s.booleans(), "cusp": s.booleans(),
    })


_COUNT = [0]


def check_generated(case):
    """A file in the format of the light atoms, for an element with a name of its own."""
    rng = np.random.default_rng(case["seed"])
    ns, np_, nd, nf = case["orb"]
    subs = {"S": [f"{i}S" for i in range(1, ns + 1)], "P": [f"{i}P" for i in range(2, np_ + 2)],
            "D": [f"{i}D" for i in range(3, nd + 3)], "F": [f"{i}F" for i in range(4, nf + 4)]}
    have = [o for k in "SPDF" for o in subs[k]]
    occ = {}
    parts = []
    for k in "KLMN"[:case["shells"]]:
        if all(o in have for o in SHELL[k]):
            occ.update(SHELL[k])
            parts.append(f"{k}({sum(SHELL[k].values())})")
        else:
            break
    rest = sorted((o for o in have if o not in occ), key=lambda o: (int(o[0]) + ANGULAR[o[1]], o[0]))
    for o in rest:
        occ[o] = CAPACITY[o[1]] if case["full"] else int(rng.integers(1, CAPACITY[o[1]] + 1))
        parts.append(f"{o}({occ[o]})")
    e = lambda hi: float(np.round(rng.uniform(0.001, hi), 9))
    E, V = -e(9000), -e(18000)
    T = e(9000)
    rows = [f"      TESTIUM    {''.join(parts)}{',' if case['comma'] else ''} 3P"] + [""] * case["blank"]
    rows += [f"   E ={E:16.9f}", f"   T ={T:16.9f}     V ={V:16.9f}     V/T ={V / T:16.9f}"]
    rows += [""] * case["blank2"] + ["  ORBITAL ENERGIES AND EXPANSION COEFFICIENTS"]
    want = {"occ": occ, "orbitals": have, "energies": [], "cusps": [], "basis": {}, "exps": {}, "coeffs": {}, "E": float(f"{E:.9f}"),
            "T": float(f"{T:.9f}"), "V": float(f"{V:.9f}")}
    for k, nb in zip("SPDF", case["nbasis"]):
        if not subs[k]:
            continue
        num = lambda lo, hi, d: float(f"{rng.uniform(lo, hi):.{d}f}")
        rows.append(f"        {k}       " + "".join(f"{o:>15s}" for o in subs[k]))
        en = [num(-1500, 1.0 if case["neg"] else -0.01, 7) for _ in subs[k]]
        cu = [num(0.99, 1.01, 7) for _ in subs[k]]
        rows.append("  BASIS/ORB.ENERGY" + "".join(f"{x:15.7f}" for x in en))
        rows.append("              CUSP" + "".join(f"{x:15.7f}" for x in cu))
        want["energies"] += en
        want["cusps"] += cu
        want["basis"][k], want["exps"][k] = [], []
        for o in subs[k]:
            want["coeffs"][o] = []
        for _ in range(nb):
            name = f"{rng.integers(ANGULAR[k] + 1, 10)}{k}"
            ex = num(0.05, 200, 6)
            co = [num(-3, 3, 7) for _ in subs[k]]
            rows.append(f"  {name}  {ex:15.6f}" + "".join(f"{x:15.7f}" for x in co))
            want["basis"][k].append(name)
            want["exps"][k].append(ex)
            for o, c in zip(subs[k], co):
                want["coeffs"][o].append(c)
    rows += [""] * case["tail"]
    _COUNT[0] += 1
    sym = "zz" + "".join(chr(97 + int(d)) for d in f"{os.getpid()}{_COUNT[0]:06d}")
    path = os.path.join(data_dir(), "neutral", sym + ".slater")
    try:
        with open(path, "w", encoding="utf8") as f:
            f.write("\n".join(rows) + "\n")
        obj = atom(sym, "neutral")
    finally:
        if os.path.exists(path):
            os.unlink(path)
    compare(obj, want, "a generated file")
    # and its densities follow the formulas
    r = np.sort(rng.uniform(0.05, 4.0, 5))
    check_density_formulas(obj, want, r, "a generated file")
    return Info(len(have) > 2, f"subshells{sum(1 for k in subs if subs[k])}", "shells" if occ and parts[0][0] == "K" else "")


def refuse_case():
    s = st()
    return s.fixed_dictionaries({"kind": s.sampled_from(["anion", "cation", "both", "type", "alpha", "missing"]),
                                 "sym": s.sampled_from(SYMBOLS), "text": s.text("ab1 .-/", max_size=6),
                                 "case": s.sampled_from(["lower", "upper", "capitalize"])})


def check_refuse(case):
    """An ion without a file is refused, never replaced by another atom."""
    from bfit import SlaterAtoms
    sym = getattr(case["sym"], case["case"])()
    k = case["kind"]
    if k in ("anion", "cation"):
        have = os.path.exists(os.path.join(data_dir(), k, case["sym"] + "." + EXT[k]))
        if (case["sym"], k) in EXCLUDED + [KNOWN_BAD]:
            return Info(False)
        if have:
            compare(atom(sym, k), reference(case["sym"], k), f"{sym} {k}")
            return Info(True, k)
        bad, exc = (lambda: atom(sym, k)), ValueError
    elif k == "both":
        bad, exc = (lambda: SlaterAtoms(sym, anion=True, cation=True)), ValueError
    elif k == "type":
        bad, exc = (lambda: SlaterAtoms(Z[case["sym"]])), TypeError
    elif k == "alpha":
        if case["text"].isalpha():
            return Info(False)
        bad, exc = (lambda: SlaterAtoms(case["text"])), TypeError
    else:
        bad, exc = (lambda: SlaterAtoms("zzy" + case["sym"])), Exception
    try:
        bad()
    except exc:
        pass
    else:
        raise Violation(f"{k} of {sym} / {case['text']!r} accepted")
    return Info(True, k)


# ------------------------------------------------------------------ reference orbitals
def sto(n, zeta, r):
    """Normalised radial Slater function and its derivative, in long double."""
    n, zeta = int(n), LD(zeta)
    norm = (2 * zeta) ** n * np.sqrt(2 * zeta / LD(math.factorial(2 * n)))
    e = np.exp(-zeta * r)
    val = norm * r ** (n - 1) * e
    der = norm * e * (((n - 1) * r ** (n - 2) if n > 1 else 0) - zeta * r ** (n - 1))
    mag = norm * e * (((n - 1) * r ** (n - 2) if n > 1 else 0) + zeta * r ** (n - 1))
    return val, der, mag


def orbitals_reference(p, r):
    """Radial orbitals, derivatives, bounds of rounding; columns in the order of p['orbitals']."""
    r = r.astype(LD)
    k = len(p["orbitals"])
    v, d = np.zeros((len(r), k), LD), np.zeros((len(r), k), LD)
    vt, dt = np.zeros((len(r), k), LD), np.zeros((len(r), k), LD)
    for j, o in enumerate(p["orbitals"]):
        for name, zeta, c in zip(p["basis"][o[1]], p["exps"][o[1]], p["coeffs"][o]):
            a, b, m = sto(name[0], zeta, r)
            cond = 30 + 4 * LD(zeta) * r
            v[:, j] += LD(c) * a
            d[:, j] += LD(c) * b
            vt[:, j] += abs(c) * np.abs(a) * cond
            dt[:, j] += abs(c) * m * cond
    return v, d, vt * EPS + 1e-200, dt * EPS + 1e-200


def check_density_formulas(obj, p, r, ctx):
    v, d, vt, dt = orbitals_reference(p, r)
    occ = np.array([p["occ"][o] for o in p["orbitals"]], LD)
    en = np.array(p["energies"], LD)
    pi4 = 4 * ref.PI
    zero = np.abs(r) < 1e-10
    keep = r.copy()
    close(f"orbitals of {ctx}", obj.phi_matrix(r), v, vt)
    dz = np.where(zero[:, None], LD(0), d)
    close(f"derivatives of the orbitals of {ctx}", obj.phi_matrix(r, deriv=True), dz, dt)
    dens = (v ** 2 * occ).sum(axis=1) / pi4
    dtol = ((2 * np.abs(v) * vt + vt ** 2) * occ).sum(axis=1) / pi4 + 20 * EPS * dens + 1e-250
    got = obj.atomic_density(r)
    close(f"density of {ctx}", got, dens, dtol)
    close(f"total density of {ctx}", obj.atomic_density(r, mode="total"), dens, dtol)
    wv = np.exp(-(en - en.max()) ** 2)
    val, core = obj.atomic_density(r, mode="valence"), obj.atomic_density(r, "core")
    # orbitals which hardly count are off by hardly anything
    off, gap = 2 * np.abs(v) * vt + vt ** 2, (en - en.max()) ** 2
    vtol = ((off + v ** 2 * EPS * (20 + 4 * gap)) * occ * wv).sum(axis=1) / pi4 * 2 + 1e-250
    ctol = (off * occ * (1 - wv) + v ** 2 * occ * EPS * 20).sum(axis=1) / pi4 * 2 + 1e-250
    close(f"valence density of {ctx}", val, (v ** 2 * occ * wv).sum(axis=1) / pi4, vtol)
    close(f"core density of {ctx}", core, (v ** 2 * occ * (1 - wv)).sum(axis=1) / pi4, ctol)
    close(f"core and valence density of {ctx}", np.asarray(val) + np.asarray(core), dens, dtol * 4)
    require(bool(np.all(np.asarray(got) >= 0) and np.all(np.asarray(val) >= 0) and np.all(np.asarray(core) >= -1e-300)),
            lambda: f"negative density of {ctx}")
    der = (2 * v * dz * occ).sum(axis=1) / pi4
    rtol = (2 * (np.abs(v) * dt + vt * np.abs(dz) + vt * dt) * occ).sum(axis=1) / pi4 + 40 * EPS * (2 * np.abs(v * dz) * occ).sum(axis=1)
    rtol = rtol + 1e-250
    close(f"derivative of the density of {ctx}", obj.derivative_density(r), der, rtol)
    ll = np.array([ANGULAR[o[1]] * (ANGULAR[o[1]] + 1) for o in p["orbitals"]], LD)
    safe = np.where(zero, LD(1), r.astype(LD))[:, None]
    tau = np.where(zero, LD(0), ((dz ** 2 + ll * v ** 2 / safe ** 2) * occ).sum(axis=1) / 2 / pi4)
    ttol = (((2 * np.abs(dz) * dt + dt ** 2) + ll * (2 * np.abs(v) * vt + vt ** 2) / safe ** 2) * occ).sum(axis=1) / 2 / pi4
    ttol = ttol + 60 * EPS * tau + 1e-250
    t = obj.positive_definite_kinetic_energy(r)
    close(f"kinetic energy density of {ctx}", t, tau, ttol)
    require(bool(np.all(np.asarray(t) >= 0)), lambda: f"negative kinetic energy density of {ctx}")
    # von Weizsaecker bound: tau >= |grad rho|^2 / (8 rho)
    ok = np.asarray(got) > 1e-250
    g2, q = np.asarray(obj.derivative_density(r)).astype(LD)[ok], np.asarray(got).astype(LD)[ok]
    bound = g2 ** 2 / (8 * q)
    slack = 2 * ttol[ok] + bound * 1e-10 + np.abs(g2) * rtol[ok] / (2 * q) + bound * dtol[ok] / q * 2
    low = np.asarray(t).astype(LD)[ok] < bound - slack
    require(not np.any(low), lambda: f"kinetic energy density of {ctx} below the von Weizsaecker bound")
    close("points after", r, keep, 0)


# ------------------------------------------------------------------ C26: densities of the shipped atoms
def density_case():
    s = st()
    return s.fixed_dictionaries({
        "atom": s.integers(0, 10 ** 6),
        "r": s.one_of(gen.arr(1, 40, 1e-5, 30.0, log=True), gen.arr(1, 20, 1.2e-10, 1e-4, log=True), gen.arr(1, 40, 0.0, 10.0), gen.arr(1, 6, 0.0, 60.0, zeros=True)),
        "sort": s.booleans(), "strided": s.booleans(), "int": s.sampled_from([False, False, False, True]),
    })


def check_density(case):
    names = shipped()
    sym, kind = names[case["atom"] % len(names)]
    if (sym, kind) == KNOWN_BAD:
        return Info(False, "known bad file")
    r = A(case["r"])
    r[(r > 0) & (r < 1.1e-10)] = 0.0
    if len(r) == 0:
        return Info(False)
    if case["sort"]:
        r = np.sort(r)
    if case.get("int"):
        r = np.rint(r).astype(np.int64)
    if case["strided"]:
        x = np.zeros(2 * len(r), r.dtype)
        x[::2] = r
        r = x[::2]
    check_density_formulas(atom(sym, kind), reference(sym, kind), r, f"{sym} {kind}")
    return Info(len(r) > 1, kind, "heavy" if Z[sym] > 54 else "light", "origin" if np.any(r == 0) else "")


def sto_case():
    s = st()
    return s.fixed_dictionaries({
        "m": s.integers(1, 12), "z": gen.arr(1, 12, 0.02, 300.0, log=True), "n": s.lists(s.integers(1, 9), min_size=1, max_size=12),
        "r": s.one_of(gen.arr(1, 30, 1e-5, 40.0, log=True), gen.arr(1, 20, 1.2e-10, 1e-4, log=True), gen.arr(1, 8, 0.0, 40.0, zeros=True)), "ints": s.booleans(),
    })


def check_sto(case):
    from bfit import SlaterAtoms
    m = case["m"]
    z = gen.fit_len(case["z"], m)
    n = np.resize(np.array(case["n"]), m)
    r = A(case["r"])
    r[(r > 0) & (r < 1.1e-10)] = 0.0
    if len(r) == 0:
        return Info(False)
    num = n[:, None] if case["ints"] else n[:, None].astype(float)
    keep = z.copy(), r.copy()
    got = SlaterAtoms.radial_slater_orbital(z[:, None], num, r)
    dgot = SlaterAtoms.derivative_radial_slater_type_orbital(z[:, None], num, r)
    q = r.astype(LD)
    want, dwant = np.zeros((len(r), m), LD), np.zeros((len(r), m), LD)
    mag = np.zeros((len(r), m), LD)
    for i in range(m):
        want[:, i], dwant[:, i], mag[:, i] = sto(n[i], z[i], q)
    dwant[r == 0] = 0
    cond = 30 + 4 * z[None, :] * q[:, None]
    close("Slater functions", got, want, EPS * cond * np.abs(want) + 1e-290)
    close("derivatives of Slater functions", dgot, dwant, EPS * cond * mag + 1e-290)
    close("exponents after", z, keep[0], 0)
    close("points after", r, keep[1], 0)
    for bad in (lambda: SlaterAtoms.radial_slater_orbital(z[:, None], num, r[:, None]),):
        try:
            bad()
        except ValueError:
            pass
        else:
            raise Violation("two-dimensional points accepted")
    return Info(m > 1 and len(r) > 1, "origin" if np.any(r == 0) else "")


# ------------------------------------------------------------------ C27: physics of all shipped atoms
def overlap(n1, z1, n2, z2):
    n1, n2, z1, z2 = int(n1), int(n2), LD(z1), LD(z2)
    nn = lambda n, z: (2 * z) ** n * np.sqrt(2 * z / LD(math.factorial(2 * n)))
    return nn(n1, z1) * nn(n2, z2) * LD(math.factorial(n1 + n2)) / (z1 + z2) ** (n1 + n2 + 1)


def one_electron(obj, orb, z):
    """Expectation value of -1/2 nabla^2 - Z/r of an orbital, and its cusp in units of -Z/(l + 1)."""
    ell = "SPDF".index(orb[1])
    zeta = np.asarray(obj.orbitals_exp[orb[1]], dtype=LD).ravel()
    n = [int(k) for k in np.asarray(obj.basis_numbers[orb[1]]).ravel()]
    c = np.asarray(obj.orbitals_coeff[orb], dtype=LD).ravel()
    nn = np.array([(2 * q) ** k * np.sqrt(2 * q / LD(math.factorial(2 * k))) for k, q in zip(n, zeta)])
    moment = lambda k, q: LD(math.factorial(k)) / q ** (k + 1)  # integral of r^k exp(-q r)
    tot = LD(0.0)
    for i, (a, p) in enumerate(zip(n, zeta)):
        for j, (b, q) in enumerate(zip(n, zeta)):
            tk = (LD(a * b + ell * (ell + 1)) * moment(a + b - 2, p + q)
                  - (a * q + b * p) * moment(a + b - 1, p + q) + p * q * moment(a + b, p + q)) / 2
            tot += c[i] * c[j] * nn[i] * nn[j] * (tk - z * moment(a + b - 1, p + q))
    lead = sum(c[i] * nn[i] for i in range(len(n)) if n[i] == ell + 1)
    rest = sum(c[i] * nn[i] * (LD(1) if n[i] == ell + 2 else -zeta[i]) for i in range(len(n))
               if n[i] in (ell + 1, ell + 2))
    return tot, -rest / lead * (ell + 1) / z


def physics_cases(tier):
    return [[s, k, i] for s, k in shipped() for i in range(1 if tier == "quick" else 4)]


def check_physics(case):
    sym, kind, i = case
    if (sym, kind) == KNOWN_BAD:
        return Info(False, "known bad file")
    obj = atom(sym, kind)
    ctx = sym if kind == "neutral" else f"{sym} {kind}"
    ne = Z[sym] + {"neutral": 0, "anion": 1, "cation": -1}[kind]
    occ = np.asarray(obj.orbitals_occupation).ravel()
    require(int(occ.sum()) == ne, lambda: f"{occ.sum()} electrons in the orbitals of {ctx}")
    caps = [CAPACITY[o[1]] for o in obj.orbitals]
    require(all(0 < a <= b for a, b in zip(occ, caps)), lambda: f"occupations {occ} of {ctx}")
    e, t, v = obj.energy, obj.kinetic_energy, obj.potential_energy
    require(t > 0 > v and e < 0, "signs of the energies")
    require(abs(e - t - v) <= 2e-6 * abs(e), lambda: f"E = {e}, T + V = {t + v} of {ctx}")
    require(abs(v / t + 2) <= 1e-6, lambda: f"V/T = {v / t} of {ctx}")
    # trapezoidal rule in log r: exponentially accurate for these functions
    n = 1600 + 137 * i
    x = np.linspace(-17.0 - 0.1 * i, 5.4, n)
    r = np.exp(x)
    w = np.full(n, x[1] - x[0]) * r ** 3 * 4 * np.pi
    dens = obj.atomic_density(r)
    tot = float((w * dens).sum())
    require(abs(tot - ne) <= 2e-5 * ne, lambda: f"the density of {ctx} integrates to {tot}, not {ne}")
    tau = float((w * obj.positive_definite_kinetic_energy(r)).sum())
    require(abs(tau - t) <= 2e-5 * t, lambda: f"the kinetic energy density of {ctx} integrates to {tau}, not {t}")
    cv = [float((w * obj.atomic_density(r, m)).sum()) for m in ("core", "valence")]
    require(cv[0] >= -1e-9 and cv[1] > 0.9 and abs(sum(cv) - ne) <= 2e-5 * ne, lambda: f"core and valence of {ctx}: {cv}")
    homo = int(np.argmax(np.asarray(obj.orbitals_energy).ravel()))
    require(cv[1] >= occ[homo] * (1 - 1e-4), lambda: f"valence of {ctx} has {cv[1]} electrons, the HOMO {occ[homo]}")
    # integral of the derivative
    dd = obj.derivative_density(r)
    a, b = 300 + 11 * i, 1300
    h = x[1] - x[0]
    seg = dd[a:b + 1] * r[a:b + 1]
    m = (b - a) // 2 * 2
    simpson = h / 3 * (seg[0] + seg[m] + 4 * seg[1:m:2].sum() + 2 * seg[2:m:2].sum())
    diff = dens[a + m] - dens[a]
    require(abs(simpson - diff) <= 1e-5 * dens[a], lambda: f"derivative of the density of {ctx}: {simpson} and {diff}")
    # orthonormal orbitals
    phi = obj.phi_matrix(r)
    s = (w / (4 * np.pi))[:, None] * phi
    s = s.T @ phi
    for j, o in enumerate(obj.orbitals):
        for k, q in enumerate(obj.orbitals):
            if o[1] == q[1]:
                require(abs(s[j, k] - (j == k)) <= 1e-4, lambda: f"overlap of {o} and {q} of {ctx} is {s[j, k]}")
    # one-electron energies: E is half the sum of n (orbital energy + one-electron energy) at Hartree-Fock level
    e_hf, eps = LD(0.0), np.asarray(obj.orbitals_energy, dtype=LD).ravel()
    cusps = np.asarray(obj.orbitals_cusp, dtype=LD).ravel()
    require(len(eps) == len(obj.orbitals) == len(occ), lambda: f"{len(eps)} orbital energies of {ctx}")
    for j, o in enumerate(obj.orbitals):
        h, cusp = one_electron(obj, o, Z[sym])
        e_hf += (eps[j] + h) * LD(int(occ[j])) / 2
        if len(cusps):
            require(abs(float(cusps[j] - cusp)) <= 3e-4, lambda: f"cusp of {o} of {ctx}: {cusps[j]}, not {cusp}")
    require(abs(e_hf - LD(e)) <= 4e-7 * abs(e), lambda: f"orbital energies of {ctx} make {e_hf}, not E = {e}")
    # cusp of the density at the nucleus
    if len(np.asarray(obj.orbitals_cusp)):
        q = np.array([1e-7])
        slope = float(obj.derivative_density(q)[0] / obj.atomic_density(q)[0])
        require(abs(slope / (-2.0 * Z[sym]) - 1) <= 1e-2, lambda: f"cusp of {ctx}: {slope}, expected {-2 * Z[sym]}")
    return Info(True, kind, "heavy" if Z[sym] > 54 else "light")


# ------------------------------------------------------------------ C28: UGBS
def ugbs_reference():
    out, lines = {}, open(os.path.join(data_dir(), "ygbs"), encoding="utf8").read().split("\n")
    for i, line in enumerate(lines):
        m = re.fullmatch(r"([A-Za-z]{1,2})\s+([SPDF])\s*", line)
        if m:
            out.setdefault(m.group(1).lower(), {k: [] for k in "SPDF"})[m.group(2)].append(float(lines[i + 1].split()[0]))
    return out


def ugbs_cases(tier):
    names = sorted(set(ugbs_reference()) | set(SYMBOLS))
    return [[n, c] for n in names for c in ("lower", "upper", "capitalize")] + [["zz", "lower"]]


def check_ugbs(case):
    from bfit.parse_ugbs import get_ugbs_exponents
    want = ugbs_reference().get(case[0], {k: [] for k in "SPDF"})
    sym = getattr(case[0], case[1])()
    got = get_ugbs_exponents(sym)
    require(set(got) == set("SPDF"), lambda: f"keys {set(got)}")
    for k in "SPDF":
        require(list(got[k]) == want[k], lambda: f"{k} exponents of {sym}: {len(got[k])}, expected {len(want[k])}")
        require(all(x > 0 for x in got[k]), "negative exponent")
        # the basis is universal: the same geometric sequence for all elements, each takes a stretch of it
        steps = [(math.log(x) + 3.912) / 0.672 for x in got[k]]
        require(all(abs(x - round(x)) <= 1e-9 for x in steps) and
                all(abs(x - y - 1) <= 1e-9 for x, y in zip(steps, steps[1:])),
                lambda: f"{k} exponents of {sym} are not a stretch of the universal sequence")
    got["S"].append(-1.0)
    require(list(get_ugbs_exponents(sym)["S"]) == want["S"], "the result is shared between calls")
    return Info(bool(want["S"]), "known" if want["S"] else "unknown")


# ------------------------------------------------------------------ C29: published models
def published_cases(tier):
    return [[m, s] for m in ("kl_fpi", "kl_slsqp") for s in SYMBOLS[:54]]


def check_published(case):
    from bfit import AtomicGaussianDensity, ClenshawRadialGrid, KLDivergenceFPI
    method, sym = case
    with np.load(os.path.join(data_dir(), method + "_results.npz")) as f:
        ns, np_ = int(f[f"{sym}_num_s"]), int(f[f"{sym}_num_p"])
        c, e = np.array(f[f"{sym}_coeffs"]), np.array(f[f"{sym}_exps"])
    with open(os.path.join(data_dir(), method + "_results.json"), encoding="utf8") as f:
        j = json.load(f)[sym]
    require((j["num_s"], j["num_p"]) == (ns, np_), lambda: f"sizes of {sym} in the json and npz files")
    close(f"coefficients of {sym} in json and npz", np.array(j["coeffs"], float), c.astype(LD), 1e-12 * np.abs(c))
    close(f"exponents of {sym} in json and npz", np.array(j["exps"], float), e.astype(LD), 1e-12 * np.abs(e))
    require(len(c) == len(e) == ns + np_ and bool(np.all(c >= 0) and np.all(e > 0)), lambda: f"parameters of {sym}")
    require(abs(c.sum() - Z[sym]) <= 1e-3, lambda: f"coefficients of {sym} sum to {c.sum()}")
    grid = ClenshawRadialGrid(Z[sym], num_core_pts=1500, num_diffuse_pts=600, extra_pts=[50, 75, 100])
    model = AtomicGaussianDensity(grid.points, num_s=ns, num_p=np_, normalize=True)
    dens = atom(sym, "neutral").atomic_density(grid.points)
    fit = KLDivergenceFPI(grid, dens, model, integral_dens=float(Z[sym]), spherical=True, mask_value=1e-18)
    perf = [float(x) for x in fit.goodness_of_fit(c, e)]
    require(abs(perf[0] - Z[sym]) <= 5e-3, lambda: f"the model of {sym} integrates to {perf[0]}")
    require(perf[1] <= 0.25, lambda: f"L1 distance {perf[1]} of the model of {sym}")
    require(-1e-3 <= perf[4] <= 2e-3, lambda: f"Kullback-Leibler {perf[4]} of the model of {sym}")
    # the fixed-point models are (nearly) fixed points: steps hardly reduce the divergence
    res = fit.run(c, e, maxiter=2, c_threshold=0.0, e_threshold=0.0, d_threshold=0.0)
    drop = perf[4] - float(res["fun"][-1])
    require(-2e-4 <= drop <= 1e-4, lambda: f"steps from the model of {sym} change the divergence by {drop}")
    return Info(True, method, f"p{np_ > 0}")


PROPS = {
    "C25": {"data": True, "subs": lambda: [
        Sub("shipped", None, check_file, 0, "every shipped file is enumerated, compared with an independent reader",
            cases=lambda tier: shipped()),
        Sub("generated", file_case, check_generated, 800, "non-trivial: more than two subshells"),
        Sub("refuse", refuse_case, check_refuse, 800, "non-trivial: an invalid or ionic request was tried")]},
    "C26": {"data": True, "subs": lambda: [
        Sub("slater_functions", sto_case, check_sto, 3000, "non-trivial: more than one function and point"),
        Sub("densities", density_case, check_density, 1600, "non-trivial: more than one point")]},
    "C27": {"data": True, "subs": lambda: [
        Sub("physics", None, check_physics, 0, "every shipped atom and ion is enumerated", cases=physics_cases)]},
    "C28": {"data": True, "subs": lambda: [
        Sub("ugbs", None, check_ugbs, 0, "non-trivial: an element with exponents; all elements are enumerated",
            cases=ugbs_cases)]},
    "C29": {"data": True, "subs": lambda: [
        Sub("published", None, check_published, 0, "every published model (H to Xe, two methods) is enumerated",
            cases=published_cases)]},
}
