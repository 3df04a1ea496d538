"""C04: derivatives over radius and angle, against the exact derivatives (rational arithmetic)."""
import math
import numpy as np
import vlib, zref
from zeval import RADII, ANGLES, OUTSIDE, calls, deriv_ref, tol_angle, layouts, LENGTHS, long_forms
from vlib import call, quiet
from zernpy import ZernPol
from c03 import cmp

chk = vlib.Check("C04", "exploration")
CALLS_LIMIT = 8_000 if vlib.QUICK else 60_000


def dcalls(m, n, seeds=38):
    """Upper estimate of recursive calls for the derivative of the order (m, n)."""
    return calls(m, n, seeds)


def one(c, mn):
    m, n = mn; am = abs(m); z = ZernPol(m=m, n=n); zs = f"ZernPol(m={m},n={n})"; cheap = dcalls(m, n) <= 60
    refs = [deriv_ref(am, n, r) for r in RADII]
    cmp(c, f"{zs}.radial_dr(vector)", call(z.radial_dr, np.array(RADII)), refs, (len(RADII),))
    tri = lambda t: (zref.triangular_dtheta(m, t), max(1, am)*tol_angle(m, t))
    th_all = ANGLES + OUTSIDE
    cmp(c, f"{zs}.triangular_dtheta(vector)", call(z.triangular_dtheta, np.array(th_all)), [tri(t) for t in th_all], (len(th_all),))
    for t in th_all:
        cmp(c, f"{zs}.triangular_dtheta({t!r})", call(z.triangular_dtheta, t), [tri(t)], scalar=True)
    if n <= 38:
        cmp(c, f"{zs}.radial_dr(vector, exact)", call(z.radial_dr, np.array(RADII), use_exact_eq=True), refs, (len(RADII),))
    else:
        for a, shp in ((np.array(RADII), (len(RADII),)), (np.full((2, 3), 0.5), (2, 3)), (0.5, None)):
            with quiet() as w:
                v = z.radial_dr(a, use_exact_eq=True)
            c.case()
            if len(w) == 0 or np.any(np.asarray(v) != 0.0) or (shp is not None and v.shape != shp):
                c.violation(f"{zs}.radial_dr(exact, n > 38)", f"expected zeros and a warning, got {vlib.short(v)}, {len(w)} warnings")
    if cheap:
        for ex in ((False, True) if n <= 38 else (False,)):
            for i, r in enumerate(RADII):
                cmp(c, f"{zs}.radial_dr({r!r},{ex})", call(z.radial_dr, r, ex), [refs[i]], scalar=True)
            for v in (0, 1):
                cmp(c, f"{zs}.radial_dr(int {v},{ex})", call(z.radial_dr, v, ex), [deriv_ref(am, n, v)], scalar=True)
            cmp(c, f"{zs}.radial_dr(list,{ex})", call(z.radial_dr, list(RADII), ex), refs, (len(RADII),))
            cmp(c, f"{zs}.radial_dr(tuple,{ex})", call(z.radial_dr, tuple(RADII), ex), refs, (len(RADII),))
            for nm, ra in layouts(RADII):
                cmp(c, f"{zs}.radial_dr({nm},{ex})", call(z.radial_dr, ra, ex), [deriv_ref(am, n, r) for r in ra.ravel()], ra.shape)
        sub = ANGLES[:24]
        cmp(c, f"{zs}.triangular_dtheta(list)", call(z.triangular_dtheta, list(sub)), [tri(t) for t in sub], (24,))
        for nm, ta in layouts(sub):
            cmp(c, f"{zs}.triangular_dtheta({nm})", call(z.triangular_dtheta, ta), [tri(t) for t in ta.ravel()], ta.shape)
    c.nontriv(f"{mn}")
    if (m, n) in ((0, 4), (-7, 21), (0, 42)):
        c.sample({"polynomial": zs, "r": 0.7, "exact dR/dr": deriv_ref(am, n, 0.7)[0], "computed": float(z.radial_dr(0.7))})


def dense(c, mn):
    """Many radii and angles in one call."""
    m, n = mn; z = ZernPol(m=m, n=n); k = 4001 if n <= 12 else 1001; r = np.linspace(0.0, 1.0, k); th = np.mod(np.arange(k)*2.39996322972865332, 2*np.pi); zs = f"ZernPol(m={m},n={n})"; w = (k - 1)//40; mat = lambda x: np.ascontiguousarray(x[:40*w].reshape(40, w))
    v, a = zref.series_np(abs(m), n, r, True); t = 64*zref.EPS*a + 1e-300; tl = th.astype(np.longdouble); ang = -m*np.sin(m*tl) if m >= 0 else -m*np.cos(m*tl); ta = max(1, abs(m))*8*zref.EPS*(abs(m*th) + 1.0)
    runs = [(f"radial_dr exact={ex}", call(z.radial_dr, r, ex), v, t, (k,)) for ex in (False, True)[:1 + (n <= 38)]] + [("radial_dr matrix", call(z.radial_dr, mat(r)), mat(v), mat(t), (40, w)), ("triangular_dtheta", call(z.triangular_dtheta, th), ang, ta, (k,)), ("triangular_dtheta matrix", call(z.triangular_dtheta, mat(th)), mat(ang), mat(ta), (40, w))]
    for nm, res, want, tol, shape in runs:
        c.case(k)
        if res[0] != "ok" or np.shape(res[1]) != shape:
            c.violation(f"{zs} {nm} dense", f"{vlib.short(res[1])}"); continue
        d = np.abs(res[1] - want)
        if not np.all(d <= tol):
            i = np.unravel_index(np.argmax(d - tol), shape); c.violation(f"{zs} {nm} dense", f"differs by {float(d[i]):.3g} at the element {i} of {shape}", {"polynomial": zs, "element": list(map(int, i))})
    for i in range(0, k, 8 if n <= 6 else 40):
        for nm, got, want, tol in (("radial_dr", call(z.radial_dr, float(r[i])), v[i], t[i]), ("triangular_dtheta", call(z.triangular_dtheta, float(th[i])), ang[i], ta[i])):
            c.case()
            if got[0] != "ok" or not abs(got[1] - want) <= tol:
                c.violation(f"{zs}.{nm} of single numbers", f"got {got[1]!r} for r={r[i]!r}, theta={th[i]!r}, exact {float(want)!r}"); return


def containers(c, mn):
    """All lengths of lists, tuples, nested lists and arrays up to 130, and some of larger ones."""
    m, n = mn; z = ZernPol(m=m, n=n); zs = f"ZernPol(m={m},n={n})"
    for k in LENGTHS:
        r = np.sqrt(np.mod(np.arange(k)*0.61803398874989485 + 0.1, 1.0)); th = np.mod(np.arange(k)*2.39996322972865332, 2*np.pi)
        v, a = zref.series_np(abs(m), n, r, True); t = 64*zref.EPS*a + 1e-300; tl = th.astype(np.longdouble); ang = -m*np.sin(m*tl) if m >= 0 else -m*np.cos(m*tl); ta = max(1, abs(m))*8*zref.EPS*(abs(m*th) + 1.0)
        for fn, rr, tt, shape in long_forms(r, th):
            for nm, res, want, tol in [("triangular_dtheta", call(z.triangular_dtheta, tt), ang, ta)] + [(f"radial_dr exact={ex}", call(z.radial_dr, rr, ex), v, t) for ex in (False, True)]:
                c.case(k)
                if res[0] != "ok" or np.shape(res[1]) != shape or not isinstance(res[1], np.ndarray):
                    c.violation(f"{zs} {nm} {fn} of {k}", f"{vlib.short(res[1])}, expected an array of {shape}"); continue
                if not np.all(np.abs(np.ravel(res[1]) - want) <= tol):
                    c.violation(f"{zs} {nm} {fn} of {k}", f"differs by {float(np.max(np.abs(np.ravel(res[1]) - want))):.3g}", {"polynomial": zs, "length": k, "container": fn})


def long(c, mn):
    """Vectors and matrices of 60 000 and more values."""
    m, n = mn; z = ZernPol(m=m, n=n); zs = f"ZernPol(m={m},n={n})"
    for shape in ((65537,), (251, 263), (1, 66013), (40009, 2)):
        k = int(np.prod(shape)); r = np.sqrt(np.mod(np.arange(k)*0.61803398874989485, 1.0)); th = np.mod(np.arange(k)*2.39996322972865332, 2*np.pi)
        v, a = zref.series_np(abs(m), n, r, True); t = 64*zref.EPS*a + 1e-300; tl = th.astype(np.longdouble); ang = -m*np.sin(m*tl) if m >= 0 else -m*np.cos(m*tl); ta = max(1, abs(m))*8*zref.EPS*(abs(m*th) + 1.0)
        for nm, res, want, tol in [(f"radial_dr exact={ex}", call(z.radial_dr, r.reshape(shape), ex), v, t) for ex in (False, True)[:1 + (n <= 38)]] + [("triangular_dtheta", call(z.triangular_dtheta, th.reshape(shape)), ang, ta)]:
            c.case(k)
            if res[0] != "ok" or np.shape(res[1]) != shape:
                c.violation(f"{zs} {nm} long {shape}", f"{vlib.short(res[1])}"); continue
            d = np.abs(np.ravel(res[1]) - want)
            if not np.all(d <= tol):
                i = int(np.argmax(d - tol)); c.violation(f"{zs} {nm} long {shape}", f"differs by {float(d[i]):.3g} at the element {i} of {k}", {"polynomial": zs, "element": i})


def tail(b):
    """Long array: only its last value is outside of the unit circle."""
    return np.append(np.linspace(0.0, 1.0, 2999), b)


def domain(c, mn):
    m, n = mn; z = ZernPol(m=m, n=n); zs = f"ZernPol(m={m},n={n})"
    for ex in (False, True):
        for b in (-1e-12, -0.5, -1, 1 + 1e-12, 1.5, 2, 1e9, float("inf"), float("-inf")):
            for arg in (b, [0.5, b], (b, 0.5), np.array([0.1, b, 0.2]), np.array([[0.1, 0.2], [0.3, b]]), np.array(b), np.array([b]), [b], tail(b), tail(b)[::-1], np.asfortranarray(tail(b).reshape(20, 150)), np.full((2, 1, 3), b)):
                res = call(z.radial_dr, arg, ex); c.case()
                if res[0] == "ok" or not isinstance(res[1], ValueError):
                    c.violation(f"{zs}.radial_dr({arg!r},{ex})", f"expected ValueError, got {vlib.short(res[1])}")
    for th in OUTSIDE:
        for arg in (th, [0.1, th], np.array([1.0, th])):
            with quiet() as w:
                z.triangular_dtheta(arg)
            c.case()
            if len(w) == 0:
                c.violation(f"{zs}.triangular_dtheta({arg!r})", "no warning about angles outside of [0, 2pi]")


def main():
    items = [mn for mn in zref.all_orders() if dcalls(*mn) <= CALLS_LIMIT]
    items.sort(key=lambda x: -dcalls(*x))
    chk.rule = ("one evaluation = one value of dR/dr or of the angular derivative compared with exact rational arithmetic; non-trivial: distinct polynomials, "
                "each on all radii, angles, containers, layouts and flags")
    chk.run(one, items, chunk=2)
    chk.run(dense, [mn for mn in zref.all_orders(38)[::-1] if mn[1] <= 16 or (mn[1] + mn[0])//2 % 3 == 0 or not vlib.QUICK], chunk=4)
    chk.run(containers, [(0, 0), (-1, 1), (2, 2), (0, 4), (-3, 7), (6, 10), (0, 14)], chunk=1)
    chk.run(long, [(0, 0), (1, 1), (-2, 2), (0, 4), (-3, 7), (8, 8), (0, 12), (-4, 14), (5, 21), (0, 24), (-31, 33), (44, 46)] + ([] if vlib.QUICK else [mn for mn in zref.all_orders(40) if (mn[1] + mn[0])//2 % 4 == 0]), chunk=1)
    chk.run(domain, zref.all_orders(14) + [(3, 41), (0, 44)])
    chk.extra["polynomials"] = len(items); chk.extra["max_radial_order"] = max(n for _, n in items)
    chk.assumptions = ["allowed error: 32 units of the last place of the sum of absolute terms (and never more than 0.005*n**2 above order 38)",
                       f"polynomials with at most {CALLS_LIMIT} recursive calls: {len(items)} of 1540 - the cost doubles with each order above 40"]
    chk.finish()


if __name__ == "__main__":
    vlib.main("C04", main)
