"""C11: fitting of phases given in polar coordinates (point by point or on a mesh), on all small sizes."""
import itertools
import math
import numpy as np
import vlib, zref
from vlib import call
import zernpy
from zernpy import ZernPol

chk = vlib.Check("C11", "exploration")
SETS = [[(0, 0)], [(1, 1)], [(0, 2)], [(-1, 1), (0, 0)], [(0, 0), (-1, 1), (1, 1)], [(0, 2), (1, 1), (-2, 2)], [(2, 2), (-1, 3), (0, 0), (3, 3)], [(0, 4), (0, 2), (0, 6)],
        [(m, n) for n in range(4) for m in range(-n, n + 1, 2)], [(-4, 4), (2, 4), (-3, 5), (1, 7), (0, 0)], [(6, 12), (-2, 16), (1, 1)],
        [(m, n) for n in range(5) for m in range(-n, n + 1, 2)], [(m, n) for n in range(6, -1, -1) for m in range(n, -n - 1, -2)]]


def zmat(orders, r, th):
    return np.column_stack([zref.zern_np(m, n, r, th) for m, n in orders])


def pts(n):
    """n points of the disk without symmetry: radii and angles."""
    k = np.arange(n); return np.sqrt((k + 0.5)/n)*0.98 + 0.02*(k % 2), np.mod(2.399963*k + 0.3, 2*np.pi)


def good(A):
    s = np.linalg.svd(A, compute_uv=False)
    return A.shape[0] >= A.shape[1] and s[-1] > 1e-3*max(s[0], 1e-30)


def check(c, key, res, want, digits, info, tol=1e-8):
    c.case()
    if res[0] != "ok":
        c.violation(key, f"{key}: raised {res[1]!r}", info); return False
    v = res[1]
    if not isinstance(v, np.ndarray) or v.shape != want.shape or not np.all(np.abs(v - want) <= tol*(1 + np.abs(want)) + 0.5001*10.0**-digits) or not np.array_equal(v, np.round(v, digits)):
        c.violation(key, f"{key}: fitted {vlib.short(v)} (rounded to {digits} digits), expected {want.tolist()}", info); return False
    return True


def combos(k):
    for j in range(k):
        co = np.zeros(k); co[j] = (-1)**j*(1.5 + j); yield co
    yield np.array([(-1.0)**i*(0.3 + 0.21*i) for i in range(k)])


def F(*a, **k):
    return call(zernpy.fit_polynomials_vectors, *a, **k)


def mesh(c, item):
    nr, nt, cover = item
    if cover == "full":
        r = np.linspace(0.0, 1.0, nr) if nr > 1 else np.array([0.8]); th = np.linspace(0.0, 2*np.pi, nt) if nt > 1 else np.array([1.0])
    else:
        r = 0.15 + 0.8*np.sqrt((np.arange(nr) + 0.3)/nr); th = np.mod(1.0 + 2.1*np.arange(nt), 2*np.pi)
    R = np.repeat(r, nt); T = np.tile(th, nr)
    if nr*nt == nr == nt:
        return
    for orders in SETS:
        A = zmat(orders, R, T)
        if not good(A):
            continue
        pols = tuple(ZernPol(m=m, n=n) for m, n in orders)
        for q, co in enumerate(combos(len(orders))):
            ph = A @ co; digits = (4, 10, 3)[q % 3]; key = f"mesh {nr}x{nt} {cover} {orders} {co.tolist()}"; args = (ph.copy(), r.copy(), th.copy())
            info = {"radii": r.tolist(), "thetas": th.tolist(), "orders": orders, "coefficients": co.tolist()}
            if not check(c, key, F(pols, *args, digits), co, digits, info):
                return
            c.nontriv(key)
            if not all(np.array_equal(a, b) for a, b in zip(args, (ph, r, th))):
                c.violation(key, f"{key}: arguments are changed", info); return
            check(c, key + " pointwise", F(pols, ph, R, T, digits), co, digits, info)
        # arbitrary phases: impulse at each point
        if len(orders) in (1, 3, 4):
            P = np.linalg.pinv(A)
            for k in range(nr*nt):
                ph = np.zeros(nr*nt); ph[k] = 1.0
                if not check(c, f"mesh impulse {k} {nr}x{nt} {cover} {orders}", F(pols, ph, r, th, 12), P[:, k], 12, {"radii": r.tolist(), "thetas": th.tolist(), "orders": orders, "point": k}, 1e-6):
                    return


def points(c, n):
    r, th = pts(n)
    for orders in SETS:
        A = zmat(orders, r, th)
        if not good(A):
            continue
        P = np.linalg.pinv(A); pols = tuple(ZernPol(m=m, n=nn) for m, nn in orders); info = {"points": n, "orders": orders}
        for q, co in enumerate(combos(len(orders))):
            digits = (4, 10, 0)[q % 3]; key = f"points {n} {orders} {co.tolist()}"
            check(c, key, F(pols, A @ co, r, th, digits), co, digits, info); c.nontriv(key)
        for k in range(n):
            ph = np.zeros(n); ph[k] = 1.0
            check(c, f"impulse {k} of {n} {orders}", F(pols, ph, r, th, 12), P[:, k], 12, info, 1e-6)
        ph = np.cos(1.7*np.arange(n)) + 0.2*np.arange(n); base = P @ ph
        perms = [np.arange(n)[::-1], np.roll(np.arange(n), 1), np.argsort(np.cos(5.0*np.arange(n)))] if n > 4 else [np.array(p) for p in itertools.permutations(range(n))]
        for p in perms:  # order of the points
            check(c, f"points {n} {orders} permutation {p.tolist()}", F(pols, ph[p], r[p], th[p], 10), base, 10, info, 1e-6)
        k = len(orders); ar = list(range(k))  # order of the polynomials: all of them for up to 4, else all rotations, the reversal and all transpositions of neighbours
        for p in itertools.permutations(ar) if k <= 4 else [ar[::-1]] + [ar[i:] + ar[:i] for i in range(1, k)] + [ar[:i] + [i + 1, i] + ar[i + 2:] for i in range(k - 1)]:
            check(c, f"points {n} {orders} polynomials {p}", F(tuple(pols[i] for i in p), ph, r, th, 10), base[list(p)], 10, info, 1e-6)
        # other equal representations of the vectors
        for nm, a in (("strided", (np.repeat(ph, 2)[::2], np.repeat(r, 3)[::3], np.repeat(th, 2)[::2])), ("angles + 2pi", (ph, r, th + 2*np.pi)), ("negative angles", (ph, r, th - 2*np.pi)),
                      ("list of polynomials", None)):
            check(c, f"points {n} {orders} {nm}", F(list(pols), ph, r, th, 10) if a is None else F(pols, *a, 10), base, 10, info, 1e-6)
        for dt in ("float16", "float32", "longdouble", ">f8", "int8", "int64", "uint16", ">i2", "bool"):  # types of phases and of coordinates
            x = (np.abs(ph)*3 if dt[0] == "u" else ph*7 if "i" in dt else ph > 1.0 if dt == "bool" else ph).astype(dt); ro = [x, r.copy(), th.copy()]
            for v in ro:
                v.setflags(write=False)
            check(c, f"points {n} {orders} phases of type {dt}", F(pols, *ro, 10), P @ x.astype(float), 10, info, 1e-6)
        for dt in ("longdouble", ">f8"):
            check(c, f"points {n} {orders} coordinates of type {dt}", F(pols, ph, r.astype(dt), th.astype(dt), 10), base, 10, info, 1e-6)


def large(c, item):
    """Many points or a large mesh."""
    kind, nr, nt = item; r, th = pts(nr) if kind == "points" else (np.linspace(0.0, 1.0, nr), np.linspace(0.0, 2*np.pi, nt)); R, T = (r, th) if kind == "points" else (np.repeat(r, nt), np.tile(th, nr))
    for orders in SETS:
        A = zmat(orders, R, T); pols = tuple(ZernPol(m=m, n=n) for m, n in orders); co = list(combos(len(orders)))[-1]; key = f"{item} {orders}"; info = {"item": list(item), "orders": orders}
        if not good(A):
            continue
        check(c, key, F(pols, A @ co, r, th, 10), co, 10, info); c.nontriv(key); x = np.cos(np.arange(len(R))*0.37) + R**3 + (np.arange(len(R)) % 7 == 0)
        check(c, f"{key} any phases", F(pols, x, r, th, 10), np.linalg.lstsq(A, x, rcond=None)[0], 10, info, 1e-6)


def scales(c, item):
    """Phases of any magnitude: the coefficients scale with the phases."""
    kind, nr, nt = item; orders = [(0, 0), (-1, 1), (0, 2)]; pols = tuple(ZernPol(m=m, n=n) for m, n in orders)
    if kind == "mesh":
        r = 0.15 + 0.8*np.sqrt((np.arange(nr) + 0.3)/nr); th = np.mod(1.0 + 2.1*np.arange(nt), 2*np.pi); R = np.repeat(r, nt); T = np.tile(th, nr)
    else:
        r, th = pts(nr); R, T = r, th
    ph = np.cos(3.0*np.arange(R.size)) + 0.5; want = np.linalg.pinv(zmat(orders, R, T)) @ ph
    for p in range(-140, 141, 4 if vlib.QUICK else 1):
        s = 2.0**(p*3); digits = int(min(300, max(0, 13 - np.floor(0.9*p)))); key = f"phases multiplied by 2**{3*p} {item}"; res = F(pols, ph*s, r, th, digits); c.case()
        if res[0] != "ok" or not np.all(np.abs(res[1]/s - want) <= 1e-7*(1.0 + np.abs(want).max()) + 10.0**-digits/s):
            c.violation(key, f"{key}: fitted {vlib.short(res[1])}, expected {vlib.short(want*s)}", {"factor": s}); return
        c.nontriv(key)


def errors(c, _):
    z = (ZernPol(m=1, n=1), ZernPol(m=0, n=0)); v = lambda *s: np.linspace(0.1, 0.9, int(np.prod(s))).reshape(s)
    for a in range(1, 7):
        for b in range(1, 5):
            for d in range(1, 5):
                if a == b*d or a == b == d:
                    continue
                res = F(z, v(a), v(b), v(d)); c.case()
                if res[0] == "ok" or not isinstance(res[1], ValueError):
                    c.violation(f"lengths {a},{b},{d}", f"phases {a}, radii {b}, thetas {d}: expected ValueError, got {vlib.short(res[1])}")
    for k in range(3):
        for shp in ((2, 3), (1, 6), (6, 1), (2, 3, 1)):
            args = [v(6), v(6), v(6)]; args[k] = v(*shp); res = F(z, *args); c.case()
            if res[0] == "ok" or not isinstance(res[1], (TypeError, AttributeError, ValueError)):
                c.violation(f"not a vector {k} {shp}", f"argument {k} with shape {shp}: expected an exception, got {vlib.short(res[1])}")
    for bad in (-0.1, 1.1, 1.0 + 1e-6, -1e-6, 5.0):
        for pos in range(4):
            for mesh_ in (False, True):
                r = v(4); r[pos] = bad; res = F(z, v(8) if mesh_ else v(4), r, v(2) if mesh_ else v(4)); c.case()
                if res[0] == "ok" or not isinstance(res[1], ValueError):
                    c.violation(f"radius {bad} at {pos} mesh={mesh_}", f"expected ValueError, got {vlib.short(res[1])}")
    p = lambda m, n: ZernPol(m=m, n=n)
    for pols, exc in (((), ValueError), ((p(1, 1), p(1, 1)), ValueError), ((p(1, 1), p(0, 0), ZernPol(osa=2)), ValueError), ((p(0, 0), 5), AttributeError), (("z",), AttributeError)):
        res = F(pols, v(5), v(5), v(5)); c.case()
        if res[0] == "ok" or not isinstance(res[1], exc):
            c.violation(f"polynomials {len(pols)} {exc.__name__}", f"expected {exc.__name__}, got {vlib.short(res[1])}")


def main():
    chk.rule = "one evaluation = one fit compared with exact least squares (reference matrix in rational arithmetic); non-trivial: distinct (sizes, polynomials, coefficients)"
    top = 9 if vlib.QUICK else 14
    chk.run(mesh, [(a, b, k) for a in range(1, top) for b in range(1, top) for k in ("full", "inner")] + [(30, 3, "full"), (3, 30, "inner"), (20, 20, "full"), (25, 25, "inner")], chunk=1)
    chk.run(points, list(range(1, 14 if vlib.QUICK else 26)) + [40, 64, 65], chunk=1); errors(chk, 0)
    chk.run(scales, [("mesh", a, b) for a, b in ((3, 4), (4, 4), (5, 3))] + [("points", n, n) for n in (5, 9, 30)], chunk=1)
    chk.run(large, [("mesh", a, b) for a, b in ((60, 71), (101, 480), (200, 9), (9, 200), (128, 128), (50, 49), (33, 100))] + [("points", n, n) for n in (100, 101, 255, 256, 257, 1000, 1024, 4097)], chunk=1)
    chk.sample({"mesh": "3 radii x 3 angles (9 phases)", "orders": SETS[4], "coefficients": "basis + combination + impulses"})
    chk.assumptions = [f"meshes up to {top - 1} x {top - 1}, up to 13 (25 thorough) points and some larger; polynomials independent on the points (singular values within 1e-3)"]
    chk.finish()


if __name__ == "__main__":
    vlib.main("C11", main)
