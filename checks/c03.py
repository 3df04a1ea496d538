"""C03: values of all 1540 polynomials on an exhaustive alphabet of radii, angles, containers and flags, against exact rational arithmetic."""
import numpy as np
import warnings
import vlib, zref
from zeval import RADII, ANGLES, OUTSIDE, calls, radial_ref, tol_angle, layouts, as_reals, LENGTHS, long_forms
from vlib import call, quiet
from zernpy import ZernPol

chk = vlib.Check("C03", "exploration")
CALLS_LIMIT = 40_000 if vlib.QUICK else 10**12


def cmp(c, key, got, refs, shape=None, scalar=False):
    """Compare all values, the shape and the kind of a result."""
    if got[0] != "ok":
        c.case(); c.violation(key, f"{key} raised {got[1]!r}", {"call": key}); return False
    v = got[1]
    if scalar:
        if not isinstance(v, (float, int, np.floating, np.integer)) and not (isinstance(v, np.ndarray) and v.ndim == 0):
            c.violation(key, f"{key}: expected a scalar, got {v!r}", {"call": key}); return False
    elif not isinstance(v, np.ndarray) or v.shape != shape:
        c.violation(key, f"{key}: expected an array with shape {shape}, got {type(v).__name__} {getattr(v, 'shape', None)}", {"call": key}); return False
    vals = as_reals(v); c.case(len(vals))
    if len(vals) != len(refs):
        c.violation(key, f"{key}: {len(vals)} values instead of {len(refs)}"); return False
    for i, (a, (b, t)) in enumerate(zip(vals, refs)):
        if not abs(a - b) <= t:
            c.violation(key, f"{key}: value #{i} = {a!r}, exact {b!r}, allowed error {t:.3g}", {"call": key, "element": i, "got": a, "exact": b}); return False
    return True


def zref_val(m, n, r, th):
    v, t = radial_ref(abs(m), n, r); nf = zref.normf(m, n); a = zref.triangular(m, th)
    return nf*v*a, nf*(t*abs(a) + (abs(v) + t)*tol_angle(m, th)) + 4*zref.EPS*abs(nf*v*a)


def one(c, mn):
    m, n = mn; am = abs(m); z = ZernPol(m=m, n=n); zs = f"ZernPol(m={m},n={n})"
    cheap = calls(m, n) <= 300  # all containers and flags for these, only vectors for the slow high orders
    # 1. the full product of radii and angles in a single call, and normalisation factor
    mesh = [(r, th) for r in RADII for th in ANGLES]
    rr = np.array([x[0] for x in mesh]); tt = np.array([x[1] for x in mesh])
    cmp(c, f"{zs}.polynomial_value(mesh)", call(z.polynomial_value, rr, tt), [zref_val(m, n, r, th) for r, th in mesh], rr.shape)
    cmp(c, f"{zs}.normf()", call(z.normf), [(zref.normf(m, n), 4*zref.EPS*zref.normf(m, n))], scalar=True)
    refs = [radial_ref(am, n, r) for r in RADII]
    if m >= 0 or cheap:
        cmp(c, f"{zs}.radial(vector)", call(z.radial, np.array(RADII)), refs, (len(RADII),))
    tri = lambda th: (zref.triangular(m, th), tol_angle(m, th))
    th_all = ANGLES + OUTSIDE
    cmp(c, f"{zs}.triangular(vector)", call(z.triangular, np.array(th_all)), [tri(t) for t in th_all], (len(th_all),))
    for t in th_all:
        cmp(c, f"{zs}.triangular({t!r})", call(z.triangular, t), [tri(t)], scalar=True)
    # 2. exact equation
    if n <= 40:
        cmp(c, f"{zs}.radial(vector, exact)", call(z.radial, np.array(RADII), use_exact_eq=True), refs, (len(RADII),))
        cmp(c, f"{zs}.polynomial_value(mesh, exact)", call(z.polynomial_value, rr, tt, use_exact_eq=True), [zref_val(m, n, r, th) for r, th in mesh], rr.shape)
    else:  # documented limit of the exact equation: zeros with a warning
        for nm, f, a, shp in (("radial", z.radial, (np.array(RADII),), (len(RADII),)), ("polynomial_value", z.polynomial_value, (rr, tt), rr.shape),
                              ("radial", z.radial, (0.5,), None), ("polynomial_value", z.polynomial_value, (0.5, 0.5), None)):
            with quiet() as w:
                v = f(*a, use_exact_eq=True)
            c.case()
            if len(w) == 0 or np.any(np.asarray(v) != 0.0) or (shp is not None and v.shape != shp):
                c.violation(f"{zs}.{nm}(exact, n > 40)", f"expected zeros and a warning, got {vlib.short(v)}, {len(w)} warnings")
    # 3. scalars, containers, memory layouts, broadcasting of a scalar angle / radius
    if cheap:
        for ex in ((False, True) if n <= 40 else (False,)):
            for i, r in enumerate(RADII):
                cmp(c, f"{zs}.radial({r!r},{ex})", call(z.radial, r, ex), [refs[i]], scalar=True)
                th = ANGLES[(5*i + 1) % len(ANGLES)]
                cmp(c, f"{zs}.polynomial_value({r!r},{th!r},{ex})", call(z.polynomial_value, r, th, ex), [zref_val(m, n, r, th)], scalar=True)
        for v in (0, 1):  # integers are accepted
            cmp(c, f"{zs}.radial(int {v})", call(z.radial, v), [radial_ref(am, n, v)], scalar=True)
            cmp(c, f"{zs}.polynomial_value(int {v}, int 1)", call(z.polynomial_value, v, 1), [zref_val(m, n, v, 1)], scalar=True)
        cmp(c, f"{zs}.radial(list)", call(z.radial, list(RADII)), refs, (len(RADII),))
        cmp(c, f"{zs}.radial(tuple)", call(z.radial, tuple(RADII)), refs, (len(RADII),))
        sub = ANGLES[:len(RADII)]
        both = [zref_val(m, n, r, t) for r, t in zip(RADII, sub)]
        cmp(c, f"{zs}.polynomial_value(list, tuple)", call(z.polynomial_value, list(RADII), tuple(sub)), both, (len(RADII),))
        cmp(c, f"{zs}.triangular(list)", call(z.triangular, list(sub)), [tri(t) for t in sub], (len(sub),))
        cmp(c, f"{zs}.polynomial_value(vector, scalar)", call(z.polynomial_value, np.array(RADII), 1.0), [zref_val(m, n, r, 1.0) for r in RADII], (len(RADII),))
        cmp(c, f"{zs}.polynomial_value(scalar, vector)", call(z.polynomial_value, 0.7, np.array(sub)), [zref_val(m, n, 0.7, t) for t in sub], (len(sub),))
        for (nm, ra), (_, ta) in zip(layouts(RADII), layouts(sub)):
            for ex in ((False, True) if n <= 40 else (False,)):
                cmp(c, f"{zs}.radial({nm},{ex})", call(z.radial, ra, ex), [radial_ref(am, n, r) for r in ra.ravel()], ra.shape)
                cmp(c, f"{zs}.polynomial_value({nm},{ex})", call(z.polynomial_value, ra, ta, ex), [zref_val(m, n, r, t) for r, t in zip(ra.ravel(), ta.ravel())],
                    ra.shape)
            cmp(c, f"{zs}.triangular({nm})", call(z.triangular, ta), [tri(t) for t in ta.ravel()], ta.shape)
        for th in OUTSIDE:
            cmp(c, f"{zs}.polynomial_value(0.7, outside {th!r})", call(z.polynomial_value, 0.7, th), [zref_val(m, n, 0.7, th)], scalar=True)
    c.nontriv(f"{mn}")
    if (m, n) in ((0, 4), (-7, 21), (10, 50)):
        c.sample({"polynomial": zs, "points": len(mesh), "example": {"r": 0.7, "theta": 1.0, "exact": zref_val(m, n, 0.7, 1.0)[0],
                  "computed": float(z.polynomial_value(0.7, 1.0))}})


def dense(c, mn):
    """Many radii and angles in one call: values at all positions of long vectors and large matrices."""
    m, n = mn; z = ZernPol(m=m, n=n); k = 4001 if n <= 12 else 1001; r = np.linspace(0.0, 1.0, k); th = np.mod(np.arange(k)*2.39996322972865332, 2*np.pi); zs = f"ZernPol(m={m},n={n})"
    v, a = zref.series_np(abs(m), n, r); ang = zref.triangular_np(m, th.astype(np.longdouble)); ta = 8*zref.EPS*(abs(m*th) + 1.0); t = 64*zref.EPS*a + 1e-300; nf = zref.normf(m, n); tv = nf*(t*abs(ang) + (abs(v) + t)*ta) + 8*zref.EPS*nf*abs(v*ang)
    w = (k - 1)//40; mat = lambda x: np.ascontiguousarray(x[:40*w].reshape(40, w))
    runs = [("radial", call(z.radial, r, ex), v, t, (k,)) for ex in (False, True)[:1 + (n <= 40)]] + [("triangular", call(z.triangular, th), ang, ta, (k,)), ("polynomial_value matrix", call(z.polynomial_value, mat(r), mat(th)), mat(nf*v*ang), mat(tv), (40, w))]
    runs += [(f"polynomial_value exact={ex}", call(z.polynomial_value, r, th, ex), nf*v*ang, tv, (k,)) for ex in (False, True)[:1 + (n <= 40)]]
    for nm, res, want, tol, shape in runs:
        c.case(k)
        if res[0] != "ok" or np.shape(res[1]) != shape:
            c.violation(f"{zs} {nm} dense", f"{vlib.short(res[1])}"); continue
        d = np.abs(res[1] - want)
        if not np.all(d <= tol):
            i = np.unravel_index(np.argmax(d - tol), shape); c.violation(f"{zs} {nm} dense", f"differs by {float(d[i]):.3g} at the element {i} of {shape}", {"polynomial": zs, "element": list(map(int, i))})
    # one by one
    for i in range(0, k, 8 if n <= 6 else 40):
        got = call(z.polynomial_value, float(r[i]), float(th[i])); c.case()
        if got[0] != "ok" or not abs(got[1] - nf*v[i]*ang[i]) <= tv[i]:
            c.violation(f"{zs}.polynomial_value({r[i]!r},{th[i]!r})", f"got {got[1]!r}, exact {float(nf*v[i]*ang[i])!r}"); break


def containers(c, mn):
    """All lengths of lists, tuples, nested lists and arrays up to 130, and some of larger ones."""
    m, n = mn; z = ZernPol(m=m, n=n); zs = f"ZernPol(m={m},n={n})"; nf = zref.normf(m, n)
    for k in LENGTHS:
        r = np.sqrt(np.mod(np.arange(k)*0.61803398874989485 + 0.1, 1.0)); th = np.mod(np.arange(k)*2.39996322972865332, 2*np.pi)
        v, a = zref.series_np(abs(m), n, r); ang = zref.triangular_np(m, th.astype(np.longdouble)); ta = 8*zref.EPS*(abs(m*th) + 1.0); t = 64*zref.EPS*a + 1e-300; tv = nf*(t*abs(ang) + (abs(v) + t)*ta) + 8*zref.EPS*nf*abs(v*ang)
        for fn, rr, tt, shape in long_forms(r, th):
            runs = [("triangular", call(z.triangular, tt), ang, ta)] + [(f"{nm} exact={ex}", call(f, *args, ex), w, tl) for ex in (False, True)
                    for nm, f, args, w, tl in (("radial", z.radial, (rr,), v, t), ("polynomial_value", z.polynomial_value, (rr, tt), nf*v*ang, tv))]
            for nm, res, want, tol in runs:
                c.case(k)
                if res[0] != "ok" or np.shape(res[1]) != shape or not isinstance(res[1], np.ndarray):
                    c.violation(f"{zs} {nm} {fn} of {k}", f"{vlib.short(res[1])}, expected an array of {shape}"); continue
                if not np.all(np.abs(np.ravel(res[1]) - want) <= tol):
                    c.violation(f"{zs} {nm} {fn} of {k}", f"differs by {float(np.max(np.abs(np.ravel(res[1]) - want))):.3g}", {"polynomial": zs, "length": k, "container": fn})


def long(c, mn):
    """Vectors and matrices of 60 000 and more values (any splitting of long arrays must be seamless): every value compared."""
    m, n = mn; z = ZernPol(m=m, n=n); zs = f"ZernPol(m={m},n={n})"; nf = zref.normf(m, n)
    for shape in ((65537,), (251, 263), (1, 66013), (40009, 2)):
        k = int(np.prod(shape)); r = np.sqrt(np.mod(np.arange(k)*0.61803398874989485, 1.0)); th = np.mod(np.arange(k)*2.39996322972865332, 2*np.pi)
        v, a = zref.series_np(abs(m), n, r); ang = zref.triangular_np(m, th.astype(np.longdouble)); ta = 8*zref.EPS*(abs(m*th) + 1.0); t = 64*zref.EPS*a + 1e-300; tv = nf*(t*abs(ang) + (abs(v) + t)*ta) + 8*zref.EPS*nf*abs(v*ang)
        rr, tt = r.reshape(shape), th.reshape(shape)
        runs = [("triangular", call(z.triangular, tt), ang, ta)] + [(f"{nm} exact={ex}", call(f, *args, ex), w, tl) for ex in (False, True)[:1 + (n <= 40)]
                for nm, f, args, w, tl in (("radial", z.radial, (rr,), v, t), ("polynomial_value", z.polynomial_value, (rr, tt), nf*v*ang, tv))]
        for nm, res, want, tol in runs:
            c.case(k)
            if res[0] != "ok" or np.shape(res[1]) != shape:
                c.violation(f"{zs} {nm} long {shape}", f"{vlib.short(res[1])}"); continue
            d = np.abs(np.ravel(res[1]) - want)
            if not np.all(d <= tol):
                i = int(np.argmax(d - tol)); c.violation(f"{zs} {nm} long {shape}", f"differs by {float(d[i]):.3g} at the element {i} of {k}", {"polynomial": zs, "element": i})


def tail(b):
    """Long array: only its last value is outside of the unit circle."""
    return np.append(np.linspace(0.0, 1.0, 2999), b)


def domain(c, mn):
    """Radii outside [0, 1] are rejected, angles outside [0, 2pi] accepted with a warning, unequal shapes rejected."""
    m, n = mn; z = ZernPol(m=m, n=n); zs = f"ZernPol(m={m},n={n})"
    bad = [-1e-12, -0.5, -1, 1 + 1e-12, 1.5, 2, 1e9, -1e9, float("inf"), float("-inf")]
    for ex in (False, True):
        for b in bad:
            for arg in (b, [0.5, b], (b, 0.5), np.array([0.1, b, 0.2]), np.array([[0.1, 0.2], [0.3, b]]), np.array(b), np.array([b]), [b], tail(b), tail(b)[::-1], np.asfortranarray(tail(b).reshape(20, 150)), np.full((2, 1, 3), b)):
                for nm, res in (("radial", call(z.radial, arg, ex)), ("polynomial_value", call(z.polynomial_value, arg, 0.0, ex))):
                    c.case()
                    if res[0] == "ok" or not isinstance(res[1], ValueError):
                        c.violation(f"{zs}.{nm}({arg!r},{ex})", f"expected ValueError, got {vlib.short(res[1])}")
        for s1, s2 in (((3,), (2,)), ((1,), (3,)), ((2, 2), (4,)), ((2, 3), (3, 2)), ((4,), (1,))):
            res = call(z.polynomial_value, np.full(s1, 0.5), np.full(s2, 0.5), ex); c.case()
            if res[0] == "ok" or not isinstance(res[1], ValueError):
                c.violation(f"{zs}.polynomial_value(shapes {s1},{s2})", f"expected ValueError, got {vlib.short(res[1])}")
    for th in OUTSIDE:
        for arg in (th, [0.1, th], np.array([1.0, th])):
            for nm, f in (("triangular", lambda: z.triangular(arg)), ("polynomial_value", lambda: z.polynomial_value(np.full(np.shape(arg), 0.5) if np.ndim(arg) else 0.5, arg))):
                with quiet() as w:
                    f()
                c.case()
                if not any(issubclass(x.category, Warning) for x in w):
                    c.violation(f"{zs}.{nm}({arg!r})", "no warning about angles outside of [0, 2pi]")
    for th in (0.0, 2*np.pi, np.array([0.0, 2*np.pi]), 3.0):
        with quiet() as w:
            z.triangular(th)
        c.case()
        if len(w):
            c.violation(f"{zs}.triangular({th!r})", f"warning for an angle inside of [0, 2pi]: {w[0].message}")
    for bads in ("abc", "x1"):
        for nm, res in (("radial", call(z.radial, bads)), ("triangular", call(z.triangular, bads))):
            c.case()
            if res[0] == "ok" or not isinstance(res[1], ValueError):
                c.violation(f"{zs}.{nm}({bads!r})", f"expected ValueError, got {vlib.short(res[1])}")


def main():
    items = [mn for mn in zref.all_orders() if calls(*mn) <= CALLS_LIMIT]
    if vlib.QUICK:  # for the slow orders above 50 one sign of m per |m| (both signs in the thorough tier)
        items = [(m, n) for m, n in items if n <= 50 or m == 0 or (m > 0) == ((n + abs(m))//2 % 2 == 0)]
    items.sort(key=lambda x: -calls(*x))
    chk.rule = ("one evaluation = one value of R, the angular function, the normalisation or the polynomial compared with exact rational arithmetic; "
                f"{len(RADII)} radii x {len(ANGLES)} angles for each polynomial, and all accepted containers / layouts / flags; non-trivial: distinct polynomials")
    chk.run(one, items, chunk=1 if not vlib.QUICK else 2)
    chk.run(dense, [mn for mn in zref.all_orders(40)[::-1] if mn[1] <= 16 or (mn[1] + mn[0])//2 % 3 == 0 or not vlib.QUICK], chunk=4)
    chk.run(containers, [(0, 0), (-1, 1), (2, 2), (0, 4), (-3, 7), (6, 10), (0, 14)], chunk=1)
    chk.run(long, [(0, 0), (1, 1), (-2, 2), (0, 4), (-3, 7), (8, 8), (0, 12), (-4, 14), (5, 21), (0, 24), (-31, 33), (44, 46)] + ([] if vlib.QUICK else [mn for mn in zref.all_orders(40) if (mn[1] + mn[0])//2 % 4 == 0]), chunk=1)
    chk.run(domain, zref.all_orders(14) + [(3, 41), (0, 44)])
    chk.extra["polynomials"] = len(items)
    chk.assumptions = ["allowed error: 32 units of the last place of the sum of absolute terms of the power series (and never more than 0.12 above order 40)",
                       f"polynomials: {len(items)} of 1540 (in the quick tier, those with at most {CALLS_LIMIT} recursive calls)"]
    chk.exhaustive = True
    chk.finish()


if __name__ == "__main__":
    vlib.main("C03", main)
