"""C15: full product of boundary values of all PSF settings on fresh and configured objects: rejected ones raise ValueError and change nothing, accepted ones are stored."""
import copy
import itertools
import math
import os
import numpy as np
import vlib
from vlib import call, quiet
from zernpy import ZernPol, ZernPSF

chk = vlib.Check("C15", "exploration")
NAS = [-1.0, -1e-9, 0, 0.0, 1e-3, 0.35, 1, 1.3, 1.7, 1.7000001, 2, 5.0]
WLS = [-0.5, -1e-12, 0, 0.0, 1e-6, 0.532, 1, 633.0]
PXS = [-1.0, 0, 0.0, 1e-3, 0.5, 1.0, 1.000001, 2.0, 50.0]  # fractions of the Nyquist pixel size
COEFFS = {"0.0": 0.0, "-0.3": -0.3, "int": 2, "numpy scalar": np.float64(0.25), "large": 500.0, "[]": [], "()": (), "[a]": [0.2345678912345], "(a,)": (-1/7,), "array[a]": np.array([np.pi*100]), "[a, b]": [0.2, -0.1],
          "(a, b)": (0.2, -0.1), "array[a, b]": np.array([0.2, -0.1]), "[0, 0]": [0.0, 0.0], "[int, int]": [1, -2], "[large, b]": [0.1, 400.0], "[a, b, c]": [0.2, -0.1, 0.3], "array 3": np.array([0.2, -0.1, 0.3]), "[a,b,c,d]": [0.1]*4, "small": -1e-12/3, "15": [0.1234567890123/(i + 1) for i in range(15)], "array 15": np.array([(-1)**i*np.pi/(i + 1) for i in range(15)])}
OBJ = {"single": [(1, 3)], "list of one": [(1, 3)], "Airy": [(0, 0)], "two": [(1, 3), (0, 2)], "three": [(1, 3), (0, 0), (-2, 2)], "fifteen": [(m, n) for n in range(5) for m in range(-n, n + 1, 2)]}
STATES = ("fresh", "physical", "calculation", "all and kernel")


def make(obj, state):
    pols = [ZernPol(m=m, n=n) for m, n in OBJ[obj]]
    with quiet():
        p = ZernPSF(pols[0] if obj in ("single", "Airy") else pols)
        if state in ("physical", "all and kernel"):
            p.set_physical_props(0.81, 0.47, 0.07 if len(pols) == 1 else [0.07, 0.05, 0.01, 0.02/7, -0.03/7][:len(pols)] + [0.001/3]*(len(pols) - 5), 0.13)
        if state in ("calculation", "all and kernel"):
            p.set_calculation_props(3, 22, 38)
        if state == "all and kernel":
            p.calculate_psf_kernel(True, accelerated=False)
    return p


def public(p):
    """All public attributes (values), and the polynomials by their orders."""
    out = {}
    for a in dir(p):
        if not a.startswith("_"):
            v = getattr(p, a)
            if not callable(v):
                out[a] = v.get_mn_orders() if isinstance(v, ZernPol) else tuple(z.get_mn_orders() for z in v) if a == "polynomials" else copy.deepcopy(v)
    return out


def eq(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and np.array_equal(a, b)
    return type(a) is type(b) and a == b


def unchanged(before, p):
    now = public(p)
    return [f"{k}: {vlib.short(before.get(k), 60)} -> {vlib.short(now.get(k), 60)}" for k in sorted(set(before) | set(now)) if not eq(before.get(k), now.get(k))]


def physical(c, item):
    obj, state, NA = item; n_pol = len(OBJ[obj]); p = make(obj, state); before = public(p)
    for wl, (cn, co), f in itertools.product(WLS, COEFFS.items(), PXS):
        ny = 0.25*abs(wl)/abs(NA) if NA != 0 and wl != 0 else 1.0
        px = f*ny; seq = hasattr(co, "__len__")
        good = 0 < NA <= 1.7 and wl > 0 and 0 < f <= 1.0 and (len(co) == n_pol if seq else n_pol == 1)
        key = f"{obj}, {state}: set_physical_props({NA}, {wl}, {cn}, {f} x Nyquist)"; c.case(); res = call(p.set_physical_props, NA, wl, co, px)
        if not good:
            c.nontriv(hash(key)); d = unchanged(before, p)
            if res[0] == "ok" or not isinstance(res[1], ValueError):
                c.violation(key, f"expected ValueError, got {res[1]!r}", {"object": obj, "state": state, "arguments": [NA, wl, cn, px]}); p = make(obj, state); continue
            if d:
                c.violation(key, f"rejected, but changed {'; '.join(d)}", {"object": obj, "state": state, "arguments": [NA, wl, cn, px]}); p = make(obj, state)
            continue
        if res[0] != "ok":
            c.violation(key, f"accepted values raised {res[1]!r}", {"object": obj, "state": state, "arguments": [NA, wl, cn, px]}); continue
        want = {"NA": NA, "wavelength": wl, "pixel_size": px, "k": 2*math.pi/wl, "pixel_size_nyquist": ny}
        bad = [f"{k} = {getattr(p, k)!r} instead of {v!r}" for k, v in want.items() if not math.isclose(getattr(p, k), v, rel_tol=1e-12)]
        if n_pol == 1:
            a = float(co[0]) if seq else float(co)
            bad += [f"{k} = {getattr(p, k)!r} instead of {v!r}" for k, v in (("expansion_coeff", a), ("alpha", a/wl)) if not math.isclose(getattr(p, k), v, rel_tol=1e-12)]
        else:
            a = np.asarray(co, float)
            bad += [f"{k} = {getattr(p, k)!r} instead of {v!r}" for k, v in (("coefficients", a), ("amplitudes", a/wl)) if np.shape(getattr(p, k)) != v.shape or not np.allclose(getattr(p, k), v, rtol=1e-12, atol=0)]
        if p.kernel_size < 3 or p.kernel_size % 2 == 0:
            bad.append(f"estimated kernel size {p.kernel_size}")
        now = public(p)
        for k in ("n_int_r_points", "n_int_phi_points", "kernel", "zernpol", "polynomials", "airy"):
            if not eq(before[k], now[k]):
                bad.append(f"{k} changed")
        if bad:
            c.violation(key, "; ".join(bad), {"object": obj, "state": state, "arguments": [NA, wl, cn, px]})
        p = make(obj, state)


def calculation(c, item):
    obj, state = item; p = make(obj, state); before = public(p)
    for size, nr, nphi in itertools.product((-5, -1, 0, 1, 2, 3, 4, 5, 10, 21, 26, 101), (-20, 0, 1, 19, 20, 21, 320, 501), (-36, 0, 1, 35, 36, 37, 299, 300, 401)):
        good = size >= 3 and nr >= 20 and nphi >= 36; key = f"{obj}, {state}: set_calculation_props({size}, {nr}, {nphi})"; c.case(); res = call(p.set_calculation_props, size, nr, nphi)
        if not good:
            c.nontriv(hash(key)); d = unchanged(before, p)
            if res[0] == "ok" or not isinstance(res[1], ValueError):
                c.violation(key, f"expected ValueError, got {res[1]!r}", {"object": obj, "state": state, "arguments": [size, nr, nphi]}); p = make(obj, state)
            elif d:
                c.violation(key, f"rejected, but changed {'; '.join(d)}", {"object": obj, "state": state, "arguments": [size, nr, nphi]}); p = make(obj, state)
            continue
        if res[0] != "ok":
            c.violation(key, f"accepted values raised {res[1]!r}", {"object": obj, "state": state, "arguments": [size, nr, nphi]}); continue
        got = (p.kernel_size, p.n_int_r_points, p.n_int_phi_points); want = (size + 1 - size % 2, nr, nphi + nphi % 2)
        other = [k for k in unchanged(before, p) if k.split(":")[0] not in ("kernel_size", "n_int_r_points", "n_int_phi_points")]
        if got != want or other:
            c.violation(key, f"stored {got} instead of {want}; {other}", {"object": obj, "state": state, "arguments": [size, nr, nphi]})
        p = make(obj, state)


def dense(c, item):
    """Each value of one setting in a long range."""
    obj, state, which, start, stop = item; p = make(obj, state)
    for v in range(start, stop):
        size, nr, nphi = (v, 23, 40) if which == "size" else (5, v, 40) if which == "r" else (5, 23, v); good = size >= 3 and nr >= 20 and nphi >= 36
        key = f"{obj}, {state}: set_calculation_props({size}, {nr}, {nphi})"; c.case(); old = (p.kernel_size, p.n_int_r_points, p.n_int_phi_points); res = call(p.set_calculation_props, size, nr, nphi); got = (p.kernel_size, p.n_int_r_points, p.n_int_phi_points)
        if good:
            c.nontriv(hash(key))
            if res[0] != "ok" or got != (size + 1 - size % 2, nr, nphi + nphi % 2):
                c.violation(key, f"stored {got}, {res[1]!r}", {"object": obj, "state": state, "arguments": [size, nr, nphi]})
        elif res[0] == "ok" or not isinstance(res[1], ValueError) or got != old:
            c.violation(key, f"expected ValueError, got {res[1]!r}, {got}", {"object": obj, "state": state, "arguments": [size, nr, nphi]})


def crop_and_read(c, item):
    """Other rejected calls."""
    obj, state = item; p = make(obj, state); before = public(p)
    for part in (-1.0, -1e-9, 0, 0.0, 0.5, 0.5000001, 1, 7.0):
        key = f"{obj}, {state}: crop_kernel({part})"; c.case(); c.nontriv(hash(key)); res = call(p.crop_kernel, part); d = unchanged(before, p)
        if res[0] == "ok" or not isinstance(res[1], ValueError) or d:
            c.violation(key, f"expected ValueError and no changes, got {res[1]!r}, {d}"); p = make(obj, state)


def constructor(c, item):
    kind, x = item; Z = lambda m, n: ZernPol(m=m, n=n)
    if kind == "invalid":
        mk = {"None": lambda: None, "int": lambda: 3, "float": lambda: 0.5, "str": lambda: "ab", "one letter": lambda: "a", "empty str": lambda: "", "[]": lambda: [], "()": lambda: (), "{}": lambda: {},
              "[None]": lambda: [None], "[int]": lambda: [1], "(str,)": lambda: ("a",), "[pol, int]": lambda: [Z(1, 1), 1], "(int, pol)": lambda: (1, Z(1, 1)), "[pol, None, pol]": lambda: [Z(1, 1), None, Z(0, 2)],
              "[[pol]]": lambda: [[Z(1, 1)]], "[pol, [pol]]": lambda: [Z(1, 1), [Z(0, 2)]], "class": lambda: ZernPol, "[class]": lambda: [ZernPol], "orders": lambda: (1, 1), "array": lambda: np.ones(3), "empty array": lambda: np.ones(0),
              "psf": lambda: ZernPSF(Z(1, 1)), "generator": lambda: (z for z in (Z(1, 1), Z(0, 2))), "object": object}[x]
        res = call(ZernPSF, mk()); c.case(); c.nontriv(f"ZernPSF({x})")
        if res[0] == "ok" or not isinstance(res[1], ValueError):
            c.violation(f"ZernPSF({x})", f"expected ValueError, got {res[1]!r}")
        return
    i, n = x  # selections of polynomials by OSA indices: accepted exactly if there are no repetitions
    for rest in itertools.product(range(n), repeat=2 if n < 12 else 1):
        sel = (i,) + rest
        for f in (list, tuple):
            st, v = call(ZernPSF, f(ZernPol(osa=j) if q % 2 else ZernPol(m=ZernPol(osa=j).get_mn_orders()[0], n=ZernPol(osa=j).get_mn_orders()[1]) for q, j in enumerate(sel))); c.case(); good = len(set(sel)) == len(sel)
            key = f"ZernPSF of OSA {sel} as {f.__name__}"
            if not good:
                c.nontriv(key)
                if st == "ok" or not isinstance(v, ValueError):
                    c.violation(key, f"expected ValueError, got {v!r}")
            elif st != "ok" or [z.get_indices()[1] for z in v.polynomials] != list(sel) or v.airy != (0 in sel):
                c.violation(key, f"{v!r}: polynomials {st == 'ok' and [z.get_indices()[1] for z in v.polynomials]}, airy {st == 'ok' and v.airy}")


def main():
    chk.rule = "one evaluation = one call with one combination of values; non-trivial = rejected combinations (distinct)"
    objs = list(OBJ)
    if not vlib.QUICK:
        NAS.extend([0.0001, 0.95, 1.49, 1.6999, 1.71, 100.0]); WLS.extend([-1e-300, 0.25, 10600.0]); PXS.extend([-1e-9, 1e-6, 0.98, 0.999999, 1.01])
    chk.run(physical, [(o, s, NA) for o in objs for s in STATES for NA in NAS], chunk=1)
    chk.run(calculation, [(o, s) for o in objs for s in STATES], chunk=1); chk.run(crop_and_read, [(o, s) for o in objs for s in STATES], chunk=4)
    chk.run(dense, [(o, st, w, a, b) for o, st in (("single", "fresh"), ("Airy", "all and kernel"), ("three", "physical")) for w in ("size", "r", "phi") for a, b in ((-3, 700), (700, 1300), (2040, 2060), (9990, 10010), (99998, 100004))], chunk=2)
    chk.run(constructor, [("invalid", x) for x in ("None", "int", "float", "str", "one letter", "empty str", "[]", "()", "{}", "[None]", "[int]", "(str,)", "[pol, int]", "(int, pol)", "[pol, None, pol]", "[[pol]]",
                                                    "[pol, [pol]]", "class", "[class]", "orders", "array", "empty array", "psf", "generator", "object")] + [("selections", (i, 8)) for i in range(8)] + [("selections", (i, 45)) for i in range(45)], chunk=4)
    chk.sample({"call": "set_physical_props(1.7, 0.532, [0.2, -0.1], 1.0 x Nyquist)", "objects": objs, "states": STATES})
    chk.assumptions = ["NaN, infinite and non-numeric values are left open"]
    chk.finish()


if __name__ == "__main__":
    vlib.main("C15", main)
