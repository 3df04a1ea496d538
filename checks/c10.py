"""C10: fitting of phase images on all small shapes: exact recovery, least squares by the impulse basis, the aperture, independence of the rest."""
import math
import numpy as np
import vlib, zref
from vlib import call
import zernpy
from zernpy import ZernPol

chk = vlib.Check("C10", "exploration")
SETS = [[(0, 0)], [(1, 1)], [(-1, 1), (0, 0)], [(0, 0), (-1, 1), (1, 1)], [(0, 2), (1, 1), (-2, 2)], [(2, 2), (-1, 3), (0, 0), (3, 3), (1, 1)],
        [(m, n) for n in range(4) for m in range(-n, n + 1, 2)], [(0, 4), (0, 2), (0, 6)], [(-4, 4), (2, 4), (-3, 5), (1, 7), (0, 0)],
        [(m, n) for n in range(5) for m in range(-n, n + 1, 2)][::-1]]
RADII = [1.0, 0.9, 0.75, 0.5]


def aperture(rows, cols, crop, strict):
    """Documented circle: (inside, ambiguous) masks, normalised radii and angles of all pixels."""
    cr = (rows - 1)/2; cc = (cols - 1)/2; mn, mx = min(rows, cols), max(rows, cols); rad = ((mx if mx - mn < 2 else mn) - 1)/2
    i, j = np.mgrid[0:rows, 0:cols]; r = np.hypot(i - cr, j - cc)/rad; th = np.arctan2(cr - i, j - cc)
    eps = 0.055 if not strict and ((rows % 2 == 0 and cols % 2 == 0) or abs(rows - cols) == 1) else 0.001
    inside = r - crop < eps; amb = np.abs(r - crop - eps) < 1.5e-4
    return inside, amb, r, th


def zvals(mn, r, th):
    m, n = mn
    return zref.zern_np(m, n, np.minimum(1.0, r), th)


def slope(mn):
    """Bound of the change of a polynomial for the radius rounded to 4 digits (at most twice)."""
    m, n = mn
    return 1.1e-4*zref.normf(m, n)*max(abs(zref.radial_dr(abs(m), n, k/40)[0]) for k in range(41))


def design(inside, r, th, orders):
    x = r[inside]; x = x/max(1.0, x.max()); A = np.column_stack([zvals(mn, x, th[inside]) for mn in orders])
    return A, x


def check_fit(c, key, res, want, tol, info, digits):
    c.case()
    if res[0] != "ok":
        c.violation(key, f"{key}: raised {res[1]!r}", info); return None
    out = res[1]
    if not isinstance(out, tuple) or len(out) != 2 or not isinstance(out[0], np.ndarray) or out[0].shape != want.shape:
        c.violation(key, f"{key}: expected ({want.shape} array, cropped image or None), got {vlib.short(out)}", info); return None
    if not np.all(np.abs(out[0] - want) <= tol + 0.5001*10.0**-digits):
        c.violation(key, f"{key}: fitted {out[0].tolist()}, expected {want.tolist()} (tolerance {np.max(tol):.2e})", info); return None
    if not np.array_equal(out[0], np.round(out[0], digits)):
        c.violation(key, f"{key}: coefficients {out[0].tolist()} are not rounded to {digits} digits", info)
    return out


def shape(c, item):
    rows, cols, crop, strict = item; inside, amb, r, th = aperture(rows, cols, crop, strict); tag = f"{rows}x{cols} crop={crop} strict={strict}"
    # the aperture itself, by fitting piston to an image of ones
    z0 = (ZernPol(m=0, n=0),); ones = np.ones((rows, cols)); res = call(zernpy.fit_polynomials, ones, z0, crop, True, strict, 6, True)
    out = check_fit(c, f"piston {tag}", res, np.array([1.0]), 1e-9, {"shape": item}, 6)
    if out is None:
        return
    mask = out[1]
    if not isinstance(mask, np.ndarray) or mask.shape != (rows, cols) or np.any((mask != 1) & (mask != 0)) or np.any((mask == 1)[~amb] != inside[~amb]):
        c.violation(f"aperture {tag}", f"aperture {tag}:\n{vlib.short(mask, 900)}\nexpected\n{vlib.short(inside.astype(int), 900)}", {"shape": item}); return
    inside = mask == 1; bg = np.arange(rows*cols, dtype=float).reshape(rows, cols)*0.37 - 3.0; nfit = int(inside.sum()); n = 0
    for k, orders in enumerate(SETS):
        if len(orders) > nfit or rows*cols > 100000 and k not in (2, 5):
            continue
        A, x = design(inside, r, th, orders); s = np.linalg.svd(A, compute_uv=False)
        if not s[-1] > 0.02*s[0] or s[0] == 0.0:
            continue  # the polynomials are (nearly) dependent on these pixels
        pols = tuple(ZernPol(m=m, n=nn) for m, nn in orders); sl = np.array([slope(o) for o in orders]); pinv = np.linalg.pinv(A); n += 1
        deg = math.sqrt(nfit)/s[-1]
        for j in range(len(orders) + 1) if rows*cols <= 700 else (0, len(orders)):  # each polynomial alone, then a combination
            co = np.zeros(len(orders)); co[j if j < len(orders) else 0] = 2.5 if j < len(orders) else 0.0
            if j == len(orders):
                co = np.array([(-1.0)**i*(0.3 + 0.2*i) for i in range(len(orders))])
            img = bg.copy(); img[inside] = A @ co; keep = img.copy(); key = f"recover {co.tolist()} {orders} {tag}"; tol = 1.5*deg*float(np.abs(co) @ sl) + 1e-9
            info = {"shape": [rows, cols], "crop_radius": crop, "strict": strict, "orders": orders, "coefficients": co.tolist()}
            digits = (4, 12, 2)[j % 3]
            out = check_fit(c, key, call(zernpy.fit_polynomials, img, pols, crop, bool(j % 2), strict, digits, j % 2 == 0), co, tol, info, digits); c.nontriv(key)
            if out is None:
                return
            if not np.array_equal(img, keep):
                c.violation(key, f"{key}: the image of the caller was changed", info); return
            if j % 2 == 0:
                want = np.where(inside, keep, 0.0)
                if not isinstance(out[1], np.ndarray) or not np.array_equal(out[1], want):
                    c.violation(key, f"{key}: cropped image\n{vlib.short(out[1], 600)}\ninstead of\n{vlib.short(want, 600)}", info); return
                if np.shares_memory(out[1], img):
                    c.violation(key, f"{key}: cropped image shares memory with the image", info); return
            elif out[1] is not None:
                c.violation(key, f"{key}: cropped image returned without request", info); return
        # any image, with values that the polynomials cannot represent
        i, jj = np.mgrid[0:rows, 0:cols]; gen = np.cos(7.0*i/rows + 1.0) + 2.0*(jj/cols)**2 - 1.5*(i/rows)*(jj/cols) + np.where((i + 2*jj) % 5 == 0, 0.75, 0.0); img = np.where(inside, gen, -7.25e3)
        check_fit(c, f"any image {orders} {tag}", call(zernpy.fit_polynomials, img, pols, crop, True, strict, 10), pinv @ gen[inside], 4.0*deg*float(np.max(sl))*(1 + np.abs(pinv @ gen[inside]).sum() + np.abs(gen).max()) + 1e-9,
                  {"shape": [rows, cols], "orders": orders, "crop_radius": crop, "strict": strict}, 10)
        if rows*cols > 700:
            continue
        # any image: least squares (impulse at each pixel); outside pixels (any value, also nan / inf) have no influence
        if k in (3, 4, 6) or not vlib.QUICK:
            base = None; tol = 3.0*deg*float(np.max(sl))*(1 + np.abs(pinv).sum()) + 1e-9; pos = {p: q for q, p in enumerate(zip(*np.nonzero(inside)))}
            for i in range(rows):
                for jj in range(cols):
                    img = np.zeros((rows, cols)); img[~inside] = np.nan; img[i, jj] = 1.0 if inside[i, jj] else math.inf; key = f"impulse ({i},{jj}) {orders} {tag}"
                    want = pinv[:, pos[(i, jj)]] if inside[i, jj] else np.zeros(len(orders))
                    ok = check_fit(c, key, call(zernpy.fit_polynomials, img, pols, crop, True, strict, 10, True), want, tol if inside[i, jj] else 1e-9,
                                   {"shape": [rows, cols], "pixel": [i, jj], "orders": orders, "crop_radius": crop, "strict": strict}, 10)
                    if ok is None:
                        return
                    if not np.array_equal(ok[1], np.where(inside, img, 0.0)):
                        c.violation(key, f"{key}: cropped image isn't the content of the aperture with zero background"); return
            # linearity over two images at once: pairs of impulses (additivity)
            i1, i2 = np.argwhere(inside)[0], np.argwhere(inside)[-1]
            a = np.zeros((rows, cols)); a[tuple(i1)] = 1.0; b = np.zeros((rows, cols)); b[tuple(i2)] = -2.0
            f = [call(zernpy.fit_polynomials, q, pols, crop, True, strict, 12) for q in (a, b, a + b)]; c.case()
            if any(q[0] != "ok" for q in f) or not np.allclose(f[0][1][0] + f[1][1][0], f[2][1][0], rtol=0, atol=1e-9):
                c.violation(f"additive {orders} {tag}", "the fit isn't linear in the image")
    # equal pixels in other types / memory layouts
    bg = bg if rows*cols < 100000 else bg % 2999.0
    for nm, q in (("int16", (bg*10).astype("int16")), ("uint8", np.abs(bg*5).astype("uint8")), ("float32", bg.astype("float32")), ("float16", bg.astype("float16")), ("longdouble", bg.astype("longdouble")), ("bool", bg > bg.mean()), ("big endian", bg.astype(">f8")), ("int64", (bg*1e4).astype("int64")), ("uint32", np.abs(bg*1e6).astype("int64").astype("uint32")), ("int32", (bg*1e6).astype("int64").astype("int32")), ("uint16", np.abs(bg*1e3).astype("int64").astype("uint16")), ("uint64", np.abs(bg*1e9).astype("int64").astype("uint64")), ("int8", (bg % 100).astype("int64").astype("int8")), ("Fortran", np.asfortranarray(bg)),
                  ("view", np.repeat(bg, 2, axis=1)[:, ::2]), ("read-only", bg.copy())):
        if nm == "read-only":
            q.setflags(write=False)
        pols = tuple(ZernPol(m=m, n=n2) for m, n2 in SETS[3])
        f1 = call(zernpy.fit_polynomials, q, pols, crop, True, strict, 10, True); f2 = call(zernpy.fit_polynomials, np.array(q, dtype=float), pols, crop, True, strict, 10, True); c.case()
        if f1[0] != "ok" or f2[0] != "ok" or not np.allclose(f1[1][0], f2[1][0], rtol=1e-4, atol=1e-3 if nm == "float32" else 1e-6) or not np.array_equal(f1[1][1], f2[1][1]):
            c.violation(f"{nm} {tag}", f"{nm} image {tag}: {vlib.short(f1[1])} differs from the same image as float64: {vlib.short(f2[1])}")
    c.extra["fits"] = c.extra.get("fits", 0) + n


def scales(c, item):
    """Phases of any magnitude: the coefficients scale with the image."""
    rows, cols, crop, strict = item; orders = [(-1, 1), (0, 2), (2, 2)]; pols = tuple(ZernPol(m=m, n=n) for m, n in orders); i, j = np.mgrid[0:rows, 0:cols]; img = np.cos(7.0*i/rows + 1.0) + 2.0*(j/cols)**2 - 1.5*(i/rows)*(j/cols)
    first = call(zernpy.fit_polynomials, img, pols, crop, True, strict, 13, True)
    if first[0] != "ok":
        c.case(); c.violation(f"scales {item}", f"raised {first[1]!r}"); return
    want = first[1][0]
    for p in range(-140, 141, 4 if vlib.QUICK else 1):
        s = 2.0**(p*3); c.case(); digits = int(min(300, max(0, 13 - math.floor(0.9*p)))); key = f"phases multiplied by 2**{3*p} {rows}x{cols} crop={crop} strict={strict}"; res = call(zernpy.fit_polynomials, img*s, pols, crop, True, strict, digits, True)
        if res[0] != "ok" or not np.all(np.abs(res[1][0]/s - want) <= 1e-9*np.abs(want).max() + 10.0**-digits/s):
            c.violation(key, f"{key}: fitted {vlib.short(res[1])}, without the factor {vlib.short(want)}", {"shape": [rows, cols], "factor": s}); return
        if not np.array_equal(res[1][1], first[1][1]*s):
            c.violation(key, f"{key}: the cropped image isn't the content of the aperture"); return
        c.nontriv(key)


def permutations(c, item):
    """The coefficients follow the order of the polynomials; any number of warnings doesn't matter."""
    import itertools
    rows, cols = item; img = np.cos(np.arange(rows*cols)*0.7).reshape(rows, cols); orders = [(0, 0), (1, 1), (-2, 2), (0, 2)]
    base = call(zernpy.fit_polynomials, img, tuple(ZernPol(m=m, n=n) for m, n in orders), 1.0, True, False, 10)
    for perm in itertools.permutations(range(4)):
        f = call(zernpy.fit_polynomials, img, tuple(ZernPol(m=orders[p][0], n=orders[p][1]) for p in perm), 1.0, perm[0] == 0, False, 10); c.case()
        if f[0] != "ok" or base[0] != "ok" or not np.allclose(f[1][0], base[1][0][list(perm)], rtol=0, atol=1e-8):
            c.violation(f"permutation {perm} {item}", f"fit with the order {perm}: {vlib.short(f[1])}, base: {vlib.short(base[1])}")


def symmetry(c, item):
    """Turned and mirrored images (all 8 symmetries): the coefficients are turned / mirrored exactly, whatever the rounding of radii inside is."""
    rows, cols, crop, strict = item; inside, amb, r, th = aperture(rows, cols, crop, strict); i, j = np.mgrid[0:rows, 0:cols]
    img = np.cos(5.0*i/rows + 0.3) + 1.7*(j/cols)**2 - 1.1*(i/rows)*(j/cols)**2 + np.where((2*i + 3*j) % 7 < 2, 0.9, 0.0) + np.sqrt(i + 2.3*j)
    for orders in (SETS[3], SETS[6], SETS[9], [(-5, 5), (5, 5), (0, 4), (-2, 4), (2, 4), (1, 1), (-1, 1)], [(-9, 9), (9, 9), (-8, 8), (8, 8), (0, 0)], [(-1, 7), (1, 7), (-4, 6), (4, 6)]):
        A, _ = design(inside, r, th, orders)
        if len(A) < len(orders):
            continue
        s = np.linalg.svd(A, compute_uv=False)
        if not s[-1] > 0.02*s[0]:
            continue
        pols = tuple(ZernPol(m=m, n=n) for m, n in orders); pos = {o: q for q, o in enumerate(orders)}; fits = {}
        for name, f in (("same", lambda a: a), ("left-right", np.fliplr), ("up-down", np.flipud), ("180", lambda a: np.rot90(a, 2)), ("transposed", lambda a: a.T), ("90", np.rot90),
                        ("270", lambda a: np.rot90(a, 3)), ("antitransposed", lambda a: np.rot90(a.T, 2))):
            res = call(zernpy.fit_polynomials, f(img), pols, crop, True, strict, 11); c.case()
            if res[0] != "ok":
                c.violation(f"symmetry {name} {item}", f"raised {res[1]!r}"); return
            fits[name] = res[1][0]
        a = fits["same"]

        def turned(angle, mirror):
            """f(theta) -> f(theta - angle) or f(angle - theta)"""
            w = np.zeros(len(orders))
            for (m, n), q in pos.items():
                k = abs(m); ca, sa = [(1, 0), (0, 1), (-1, 0), (0, -1)][(k*angle) % 4]
                co = a[pos[(k, n)]]; si = a[pos[(-k, n)]] if k else 0.0
                # co*cos(k(t - x)) + si*sin(k(t - x)) = (co*ca - si*sa) cos kt + (co*sa + si*ca) sin kt; mirrored: the sine changes its sign
                w[q] = (co*ca - si*sa if not mirror else co*ca + si*sa) if m >= 0 else (co*sa + si*ca if not mirror else co*sa - si*ca)
            return w

        for name, angle, mirror in (("90", 1, False), ("180", 2, False), ("270", 3, False), ("up-down", 0, True), ("transposed", 3, True), ("left-right", 2, True), ("antitransposed", 1, True)):
            want = turned(angle, mirror)
            if not np.all(np.abs(fits[name] - want) <= 1e-9*(1.0 + np.abs(a).max()*s[0]/s[-1])):
                c.violation(f"symmetry {name} {orders} {item}", f"coefficients of the image ({name}) {fits[name].tolist()}, expected {want.tolist()}", {"shape": item, "orders": orders, "symmetry": name})
        c.nontriv(f"symmetry {item} {orders}")


def errors(c, _):
    z = ZernPol(m=1, n=1); z2 = ZernPol(osa=2); img = np.ones((5, 5)); bad = [
        ((img, (z,), 0.4999), ValueError), ((img, (z,), 0.49), ValueError), ((img, (z,), 1.0001), ValueError), ((img, (z,), 1.01), ValueError), ((img, (z,), 0.0), ValueError),
        ((img, (z,), -1.0), ValueError), ((img, (z,), 2), ValueError), ((img, (z,), float("nan")), ValueError), (([[1.0]*5]*5, (z,)), ValueError), ((None, (z,)), ValueError),
        ((np.ones(5), (z,)), ValueError), ((np.ones((5, 5, 3)), (z,)), ValueError), ((np.ones((2, 5)), (z,)), ValueError), ((np.ones((5, 2)), (z,)), ValueError), ((np.ones((1, 1)), (z,)), ValueError),
        ((img, ()), ValueError), ((img, (z, z)), ValueError), ((img, (z, z2)), ValueError), ((img, (ZernPol(m=0, n=0), z, ZernPol(noll=2))), ValueError), ((img, (1, 2)), AttributeError), ((img, (z, "z")), AttributeError)]
    for args, exc in bad:
        for sup in (True, False):
            a = args if len(args) > 2 else args + (1.0,)
            res = call(zernpy.fit_polynomials, *a, sup); c.case()
            if res[0] == "ok" or not isinstance(res[1], exc):
                c.violation(f"invalid {vlib.short(args, 80)}", f"expected {exc.__name__} for {vlib.short(args)}, got {vlib.short(res[1])}")
    for r in (1, 1.0, 0.5, np.float64(0.75), "1.0"):  # accepted radii
        res = call(zernpy.fit_polynomials, img, (z,), r)
        c.case()
        if r != "1.0" and res[0] != "ok":
            c.violation(f"radius {r!r}", f"crop radius {r!r} is not accepted: {res[1]!r}")


def main():
    chk.rule = "one evaluation = one fit compared with exact least squares; non-trivial: distinct (shape, crop radius, border rule, polynomials, coefficients)"
    top = 9 if vlib.QUICK else 14; radii = RADII if vlib.QUICK else RADII + [0.95, 0.98, 0.8, 0.6, 0.55]
    items = [(a, b, r, s) for a in range(3, top) for b in range(3, top) for r in radii for s in (False, True)]
    items += [(a, b, r, s) for a, b in ((15, 15), (16, 16), (15, 16), (16, 15), (12, 20), (21, 9)) for r in (1.0, 0.8) for s in (False, True)]
    items = [(a, b, r, s) for a, b in ((64, 64), (33, 80), (101, 40), (50, 51), (51, 50), (127, 128)) for r in (1.0, 0.7) for s in (False, True)] + items
    chk.run(shape, [(401, 402, 1.0, False), (520, 500, 0.7, True)], chunk=1)
    chk.run(symmetry, [(a, b, r, s) for a in range(3, top + 4) for b in range(3, top + 4) for r in radii for s in (False, True)] + [(a, b, r, False) for a, b in ((21, 21), (24, 24), (30, 31), (40, 40)) for r in (1.0, 0.83)])
    chk.run(shape, items, chunk=2); chk.run(scales, [(a, b, r, s) for a, b in ((5, 5), (6, 8), (9, 7), (12, 12)) for r in (1.0, 0.8) for s in (False, True)], chunk=1); chk.run(permutations, [(5, 5), (6, 6), (5, 6), (7, 4)]); errors(chk, 0)
    chk.sample({"shape": [5, 6], "crop_radius": 1.0, "strict": False, "orders": SETS[4], "basis": "each polynomial, a combination, an impulse at each pixel"})
    chk.assumptions = [f"shapes 3..{top - 1} (and some larger), crop radii {radii}; radii of pixels may be rounded to 4 digits (tolerance from the conditioning)"]
    chk.finish()


if __name__ == "__main__":
    vlib.main("C10", main)
