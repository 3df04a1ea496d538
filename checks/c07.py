"""C07: sums and surfaces of polynomials: equal to the sum of single polynomials for all coefficient vectors, containers and shapes up to a bound."""
import itertools
import numpy as np
import vlib, zref
from vlib import call
from zeval import LENGTHS, long_forms
from zernpy import ZernPol

chk = vlib.Check("C07", "exploration")
POLS = [(0, 0), (-1, 1), (2, 2), (0, 4), (-3, 5), (7, 9), (2, 12), (-1, 13), (4, 16)]
ALPHA = [0.0, 1.0, -0.5, 2.5e-7, 3]
TOL = 1e-9


def val(mn, r, th):
    m, n = mn
    nf = zref.normf(m, n)
    return nf*zref.radial(abs(m), n, float(r))[0]*zref.triangular(m, float(th))


def ref_line(coeffs, pols, r, th):
    r, th = np.broadcast_arrays(np.asarray(r, float), np.asarray(th, float))
    return np.array([sum(float(a)*val(p, x, y) for a, p in zip(coeffs, pols)) for x, y in zip(r.ravel(), th.ravel())]).reshape(r.shape)


def ref_surf(coeffs, pols, r, th):
    return np.array([[sum(float(a)*val(p, x, y) for a, p in zip(coeffs, pols)) for y in th] for x in r]).reshape(len(r), len(th))


def check(c, key, res, want, info, tol=TOL):
    c.case()
    if res[0] != "ok":
        c.violation(key, f"{key} raised {res[1]!r}", info); return
    got = np.asarray(res[1])
    if got.shape != want.shape or not np.all(np.abs(got - want) <= tol*(1 + np.abs(want))):
        c.violation(key, f"{key}: got {vlib.short(got, 300)}, expected {vlib.short(want, 300)}", info)


RS = np.array([0.0, 0.3, 0.55, 0.8, 1.0]); THS = np.array([0.0, 0.4, 1.7, 3.3, 5.9, 2*np.pi])


def conts(v, full):
    yield "list", list(v)
    if full:
        yield "tuple", tuple(v)
        yield "ndarray", np.array(v, dtype=float)


def sums(c, item):
    """All coefficient vectors over ALPHA for one selection of polynomials."""
    idx = item; pols = [POLS[i] for i in idx]; zs = [ZernPol(m=m, n=n) for m, n in pols]
    for coeffs in itertools.product(ALPHA, repeat=len(idx)):
        for cn, cc in conts(coeffs, sum(idx) % 3 == 0):
            k0 = f"{cn} {coeffs} {pols}"; info = {"coefficients": coeffs, "orders": pols}
            S = ZernPol.sum_zernikes
            check(c, f"sum scalar {k0}", call(S, cc, zs, 0.55, 1.7), ref_line(coeffs, pols, 0.55, 1.7), info)
            check(c, f"sum line {k0}", call(S, cc, tuple(zs), RS, THS[:5]), ref_line(coeffs, pols, RS, THS[:5]), info)
            check(c, f"sum 2D {k0}", call(S, cc, zs, RS[:4].reshape(2, 2), THS[:4].reshape(2, 2)),
                  ref_line(coeffs, pols, RS[:4].reshape(2, 2), THS[:4].reshape(2, 2)), info)
            check(c, f"sum vector-scalar {k0}", call(S, cc, zs, RS, 0.4), ref_line(coeffs, pols, RS, 0.4), info)
            check(c, f"sum scalar-vector {k0}", call(S, cc, zs, 0.8, THS), ref_line(coeffs, pols, 0.8, THS), info)
            for nr, nt in ((2, 3), (3, 3), (3, 2)):
                check(c, f"surface {nr}x{nt} {k0}", call(S, cc, zs, RS[1:1 + nr], THS[1:1 + nt], get_surface=True),
                      ref_surf(coeffs, pols, RS[1:1 + nr], THS[1:1 + nt]), info)
        c.nontriv(f"{idx}{coeffs}")


def repeated(c, idx):
    """The same polynomial at several positions (same object, or equal ones)."""
    pols = [POLS[i] for i in idx]
    for same in (True, False):
        one = {p: ZernPol(m=p[0], n=p[1]) for p in pols}; zs = [one[p] if same else ZernPol(m=p[0], n=p[1]) for p in pols]
        for coeffs in itertools.product((0.0, 1.0, -0.5), repeat=len(idx)):
            k0 = f"{coeffs} {pols} same object: {same}"; info = {"coefficients": coeffs, "orders": pols, "same objects": same}; S = ZernPol.sum_zernikes
            check(c, f"repeated, scalar {k0}", call(S, list(coeffs), zs, 0.55, 1.7), ref_line(coeffs, pols, 0.55, 1.7), info)
            check(c, f"repeated, line {k0}", call(S, list(coeffs), zs, RS, THS[:5]), ref_line(coeffs, pols, RS, THS[:5]), info)
            for nr, nt in ((2, 3), (2, 2), (3, 2)):
                check(c, f"repeated, surface {nr}x{nt} {k0}", call(S, list(coeffs), zs, RS[1:1 + nr], THS[1:1 + nt], get_surface=True),
                      ref_surf(coeffs, pols, RS[1:1 + nr], THS[1:1 + nt]), info)
        c.nontriv(f"repeated{idx}{same}")


def longer(c, item):
    """Longer vectors of coefficients: all polynomials up to an order, each coefficient in turn being the only one that isn't zero, and all together."""
    top, rev = item; pols = [(m, n) for n in range(top + 1) for m in range(-n, n + 1, 2)]; pols = pols[::-1] if rev else pols; zs = tuple(ZernPol(m=m, n=n) for m, n in pols); k = len(pols)
    for j in range(k + 1):
        coeffs = [0.0]*k
        if j < k:
            coeffs[j] = -0.75
        else:
            coeffs = [(-1)**i*(0.1 + 0.03*i) for i in range(k)]
        key = f"{k} polynomials{' reversed' if rev else ''}, " + (f"only {j}" if j < k else "all"); info = {"coefficients": coeffs, "orders": pols}
        check(c, f"sum scalar {key}", call(ZernPol.sum_zernikes, coeffs, zs, 0.55, 1.7), ref_line(coeffs, pols, 0.55, 1.7), info)
        check(c, f"sum line {key}", call(ZernPol.sum_zernikes, coeffs, zs, RS, THS[:5]), ref_line(coeffs, pols, RS, THS[:5]), info)
        for nr, nt in ((2, 3), (3, 3), (3, 2)):
            check(c, f"surface {nr}x{nt} {key}", call(ZernPol.sum_zernikes, coeffs, zs, RS[1:1 + nr], THS[1:1 + nt], get_surface=True),
                  ref_surf(coeffs, pols, RS[1:1 + nr], THS[1:1 + nt]), info)
    c.nontriv(f"longer{item}")


def many(c, item):
    """Sums of up to 210 polynomials (all of them together, and the last ones)."""
    top, rev = item; pols = [(m, n) for n in range(top + 1) for m in range(-n, n + 1, 2)]; pols = pols[::-1] if rev else pols; zs = [ZernPol(m=m, n=n) for m, n in pols]; k = len(pols)
    r = np.array([0.05, 0.4, 0.7, 0.95, 1.0]); th = np.array([0.2, 1.7, 3.3, 4.9, 6.1]); line = [zref.zern_np(m, n, r, th) for m, n in pols]; R, T = np.meshgrid(r, th, indexing="ij"); surf = [zref.zern_np(m, n, R, T) for m, n in pols]
    for name, co in [("all", [(-1)**i*(0.1 + 0.003*i) for i in range(k)]), ("sparse", [0.5 if i % 7 == 3 else 0.0 for i in range(k)])] + [(f"only {j}", [0.0]*j + [1.25] + [0.0]*(k - j - 1)) for j in sorted({0, k//2, k - 2, k - 1, 49, 50, 63, 64} - {-1}) if j < k]:
        key = f"{k} polynomials{' reversed' if rev else ''}, {name}"; info = {"polynomials": k, "coefficients": name}
        check(c, f"sum line {key}", call(ZernPol.sum_zernikes, co, zs, r, th), sum(a*v for a, v in zip(co, line)), info, 1e-8)
        check(c, f"surface {key}", call(ZernPol.sum_zernikes, co, zs, r, th, True), sum(a*v for a, v in zip(co, surf)), info, 1e-8)
        check(c, f"sum scalar {key}", call(ZernPol.sum_zernikes, co, zs, 0.4, 1.7), np.asarray(sum(a*v[1] for a, v in zip(co, line))), info, 1e-8)
    c.nontriv(f"many{item}")


def containers(c, idx):
    """Sums over coordinates given in every accepted container (and surfaces for vectors of other types and layouts), with coefficients in every accepted container."""
    pols = [POLS[i] for i in idx]; zs = [ZernPol(m=m, n=n) for m, n in pols]; base = [0.75, -1.5, 2.0][:len(idx)]; S = ZernPol.sum_zernikes
    r = np.array([0.125, 0.5, 0.875, 1.0]); t = np.array([0.25, 2.0, 7.5, -1.25]); big = np.zeros((4, 3)); big[:, 1] = r; bigt = np.zeros(8); bigt[::2] = t
    forms = [("list", r.tolist(), t.tolist()), ("tuple", tuple(r), tuple(t)), ("float32", r.astype("f4"), t.astype("f4")), ("mixed float", r.astype("f4"), t), ("int array", np.array([0, 1, 1]), np.array([1, 5, 2])),
             ("int list", [0, 1, 1], [1, 5, 2]), ("column", r[:, None], t[:, None]), ("row", r[None, :], t[None, :]), ("reversed", r[::-1], t[::-1]), ("strided", big[:, 1], bigt[::2]), ("Fortran", np.asfortranarray(r.reshape(2, 2)), t.reshape(2, 2)),
             ("3D", r.reshape(2, 1, 2), t.reshape(2, 1, 2)), ("one", r[:1], t[:1]), ("one in a list", [0.5], [2.0]), ("nested lists", r.reshape(2, 2).tolist(), t.reshape(2, 2).tolist()), ("numpy float", np.float64(0.5), np.float64(2.0)),
             ("numpy float32", np.float32(0.5), np.float32(2.0)), ("int", 1, 2), ("zero", 0, 0), ("0-d", np.array(0.5), np.array(2.0)), ("list, scalar", r.tolist(), 2.0), ("scalar, list", 0.5, t.tolist()), ("list, array", r.tolist(), t),
             ("tuple, list", tuple(r), t.tolist()), ("matrix, scalar", r.reshape(2, 2), -1.0), ("scalar, matrix", 1, t.reshape(2, 2)), ("angles far away", r, t + 40*np.pi)]
    coeffs = [("list", base), ("tuple", tuple(base)), ("ndarray", np.array(base)), ("float32 array", np.array(base, "f4")), ("numpy scalars", [np.float64(b) for b in base]), ("ints", [2, -3, 1][:len(idx)]), ("int array", np.array([2, -3, 1][:len(idx)]))]
    for (fn, a, b), (cn, cc) in itertools.product(forms, coeffs):
        key = f"{cn} of coefficients, coordinates {fn}, {pols}"; info = {"orders": pols, "r": np.asarray(a).tolist(), "theta": np.asarray(b).tolist(), "coefficients": np.asarray(cc).tolist()}
        want = ref_line(cc, pols, a, b); res = call(S, cc, tuple(zs) if cn == "tuple" else zs, a, b); tol = 1e-3 if "float32" in fn or fn == "mixed float" else TOL  # computed with the precision of the coordinates
        check(c, key, res, want, info, tol)
        if res[0] == "ok" and fn in ("numpy float", "int", "zero") and not isinstance(res[1], (float, int)):
            c.violation(key, f"{key}: the sum for scalars is {type(res[1]).__name__}", info)
        if isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.ndim == 1 and b.ndim == 1:
            for rows in range(1, len(a) + 1):
                check(c, f"surface, {key}, {rows} radii", call(S, cc, zs, a[:rows], b, True), ref_surf(cc, pols, a[:rows], b), info, tol)
        c.nontriv(f"containers{idx}{fn}{cn}")


def shapes(c, item):
    """All sizes of polar vectors of a surface, including a single radius or angle."""
    nr, nt = item
    for idx in ((0,), (1,), (2, 0), (4, 1, 0), (7, 3, 6)):
        pols = [POLS[i] for i in idx]; zs = [ZernPol(m=m, n=n) for m, n in pols]; coeffs = [0.7, -1.2, 0.4][:len(idx)]
        r = np.linspace(0.0, 1.0, nr) if nr > 1 else np.array([0.6]); th = np.linspace(0.0, 2*np.pi, nt) if nt > 1 else np.array([2.0])
        want = ref_surf(coeffs, pols, r, th); info = {"shape": item, "orders": pols}
        check(c, f"surface {item} {pols}", call(ZernPol.sum_zernikes, coeffs, zs, r, th, True), want, info)
        check(c, f"surface {item} {pols} (strided)", call(ZernPol.sum_zernikes, coeffs, zs, np.repeat(r, 2)[::2], th[::-1], True), want[:, ::-1], info)
        if nr == nt:
            check(c, f"line {item} {pols}", call(ZernPol.sum_zernikes, coeffs, zs, r, th), ref_line(coeffs, pols, r, th), info)
        elif nr > 1 and nt > 1:
            res = call(ZernPol.sum_zernikes, coeffs, zs, r, th); c.case()
            if res[0] == "ok" or not isinstance(res[1], ValueError):
                c.violation(f"line {item} {pols}", f"unequal shapes not rejected: {vlib.short(res[1])}")
    c.nontriv(f"shape{item}")


def large(c, item):
    """Large surfaces and lines."""
    nr, nt, idx = item; pols = [POLS[i] for i in idx]; zs = [ZernPol(m=m, n=n) for m, n in pols]; coeffs = [0.7, -1.2, 0.4, 2.0][:len(idx)]; key = f"large {nr}x{nt} {pols}"; info = {"shape": [nr, nt], "orders": pols}
    f = lambda r, t: sum(a*zref.zern_np(m, n, r, t) for a, (m, n) in zip(coeffs, pols)); r = np.linspace(0.0, 1.0, nr); th = np.linspace(0.0, 2*np.pi, nt); R, T = np.meshgrid(r, th, indexing="ij")
    check(c, f"{key} surface", call(ZernPol.sum_zernikes, coeffs, zs, r, th, True), f(R, T), info, 1e-8)
    check(c, f"{key} matrix", call(ZernPol.sum_zernikes, coeffs, zs, R, T), f(R, T), info, 1e-8)
    check(c, f"{key} line", call(ZernPol.sum_zernikes, coeffs, zs, R.ravel(), T.ravel()), f(R, T).ravel(), info, 1e-8)
    check(c, f"{key} radii", call(ZernPol.sum_zernikes, coeffs, zs, r, 1.25), f(r, np.full(nr, 1.25)), info, 1e-8)
    check(c, f"{key} angles", call(ZernPol.sum_zernikes, coeffs, zs, 0.75, th), f(np.full(nt, 0.75), th), info, 1e-8); c.nontriv(key)


def lengths(c, idx):
    """All lengths of lists, tuples, nested lists and arrays of coordinates up to 130, and some of larger ones; surfaces with that many radii or angles."""
    pols = [POLS[i] for i in idx]; zs = [ZernPol(m=m, n=n) for m, n in pols]; coeffs = [0.7, -1.2, 0.4][:len(idx)]; S = ZernPol.sum_zernikes
    f = lambda r, t: sum(a*zref.zern_np(m, n, r, t) for a, (m, n) in zip(coeffs, pols))
    for k in LENGTHS:
        r = np.sqrt(np.mod(np.arange(k)*0.61803398874989485 + 0.1, 1.0)); th = np.mod(np.arange(k)*2.39996322972865332, 2*np.pi)
        for fn, rr, tt, shape in long_forms(r, th):
            key = f"{fn} of {k} {pols}"; info = {"length": k, "orders": pols, "container": fn}
            check(c, key, call(S, coeffs, zs, rr, tt), f(r, th).reshape(shape), info); check(c, f"{key}, one angle", call(S, coeffs, zs, rr, 1.25), f(r, np.full(k, 1.25)).reshape(shape), info)
            check(c, f"{key}, one radius", call(S, coeffs, zs, 0.75, tt), f(np.full(k, 0.75), th).reshape(shape), info)
        for a, b in ((r, th[:3]), (r[:2], th)):
            R, T = np.meshgrid(a, b, indexing="ij"); check(c, f"surface {len(a)}x{len(b)} {pols}", call(S, coeffs, zs, a, b, True), f(R, T), {"orders": pols})
    c.nontriv(f"lengths{idx}")


def scales(c, item):
    """Coefficients of any magnitude: sums and surfaces scale with the coefficients (relative accuracy)."""
    idx, p = item; pols = [POLS[i] for i in idx]; zs = [ZernPol(m=m, n=n) for m, n in pols]; s = 10.0**p
    for base in ((0.75, -1.5, 2.0)[:len(idx)], (1/3, 0.0, -1/7)[:len(idx)]):
        co = [b*s for b in base]; info = {"coefficients": co, "orders": pols}
        for nm, res, want in (("scalar", call(ZernPol.sum_zernikes, co, zs, 0.55, 1.7), ref_line(base, pols, 0.55, 1.7)), ("line", call(ZernPol.sum_zernikes, co, zs, RS, THS[:5]), ref_line(base, pols, RS, THS[:5])),
                              ("surface 2x3", call(ZernPol.sum_zernikes, co, zs, RS[1:3], THS[1:4], get_surface=True), ref_surf(base, pols, RS[1:3], THS[1:4])),
                              ("surface 3x3", call(ZernPol.sum_zernikes, np.array(co), zs, RS[1:4], THS[1:4], get_surface=True), ref_surf(base, pols, RS[1:4], THS[1:4]))):
            c.case(); key = f"scale 1e{p} {nm} {pols} {base}"
            if res[0] != "ok":
                c.violation(key, f"{key}: raised {res[1]!r}", info); continue
            got = np.asarray(res[1], dtype=float)/s
            if got.shape != want.shape or not np.all(np.abs(got - want) <= 1e-9*(1.0 + np.abs(want))):
                c.violation(key, f"{key}: got {vlib.short(got*s, 300)}, expected {vlib.short(want*s, 300)}", info)
        c.nontriv(f"scale{p}{pols}{base}")


def generated(c, item):
    r_step, th_step, eq, n = item; zs = [ZernPol(m=1, n=3), ZernPol(m=0, n=2), ZernPol(m=-2, n=2)]; pols = [(1, 3), (0, 2), (-2, 2)]; coeffs = [0.5, 0.0, -1.0]
    res = call(ZernPol.gen_zernikes_surface, coeffs, zs, r_step, th_step, eq, n); c.case(); key = f"gen_zernikes_surface{item}"
    if res[0] != "ok":
        c.violation(key, f"raised {res[1]!r}"); return
    s = res[1]; pv = ZernPol.gen_equal_polar_mesh(n) if eq else ZernPol.gen_polar_coordinates(r_step, th_step)
    if not (np.array_equal(s.R, pv.R) and np.array_equal(s.Theta, pv.Theta) and s[1] is s.R and s[2] is s.Theta and s[0] is s.ZernSurf):
        c.violation(key, "coordinates of the surface differ from the generated polar coordinates"); return
    check(c, key, ("ok", s.ZernSurf), ref_surf(coeffs, pols, s.R, s.Theta), {"item": item}); c.nontriv(key)


def errors(c, _):
    z = ZernPol(m=1, n=1); r = np.array([0.1, 0.5]); th = np.array([1.0, 2.0])
    for surf in (False, True):
        for cc, zz, exc in (([1.0], [z, z], ValueError), ([1.0, 2.0], [z], ValueError), ([], [], ValueError), ((), (), ValueError), ([1.0], [], ValueError),
                            ([1.0], ["z"], ValueError), ([1.0, 0.0], [z, (1, 1)], ValueError), ([0.0, 1.0], [5, z], ValueError), ([0.0], [None], ValueError),
                            ([1.0, 2.0, 0.0], [z, z, 0.0], ValueError), (1.0, z, TypeError), (1.0, [z], TypeError), ([1.0], z, TypeError), (None, [z], TypeError)):
            for f, args in ((ZernPol.sum_zernikes, (r, th, surf)), (ZernPol.gen_zernikes_surface, (0.5, 1.0))):
                res = call(f, cc, zz, *args); c.case(); key = f"{f.__name__}({cc},{vlib.short(zz, 60)},surface={surf})"
                if res[0] == "ok" or not isinstance(res[1], exc):
                    c.violation(key.replace(hex(id(z)), ""), f"expected {exc.__name__}, got {vlib.short(res[1])}")


def main():
    chk.rule = ("one evaluation = one sum / surface compared with the sum of exact single polynomials; non-trivial: distinct (selection of polynomials, "
                "coefficient vector) and surface sizes")
    k = len(POLS); sel = [(i,) for i in range(k)] + list(itertools.permutations(range(k), 2)) + list(itertools.combinations(range(k), 3))
    if not vlib.QUICK:
        sel += list(itertools.combinations(range(k), 4))
    chk.run(sums, sel, chunk=2)
    top = 9 if vlib.QUICK else 16
    chk.run(shapes, [(a, b) for a in range(1, top) for b in range(1, top)] + [(40, 3), (3, 40), (33, 33)], chunk=2)
    chk.run(generated, [(rs, ts, False, 4) for rs in (0.5, 0.3, 0.25, 0.1) for ts in (np.pi, 1.0, 0.7, np.pi/6)] + [(0.1, 0.1, True, n) for n in (0, 3, 4, 5, 9, 17)])
    rep = [q for r in (2, 3) for q in itertools.product((0, 1, 4, 6), repeat=r) if len(set(q)) < r] + [(7, 7), (8, 3, 8), (5, 5, 5)]
    chk.run(repeated, rep, chunk=2); chk.run(longer, [(t, v) for t in ((4, 7) if vlib.QUICK else (4, 7, 10)) for v in (False, True)], chunk=1)
    chk.run(containers, [(i,) for i in range(k)] + [(1, 3), (3, 1), (2, 0, 4), (8, 5, 6)], chunk=1)
    chk.run(many, [(t, v) for t in (10, 14, 19) for v in (False, True)], chunk=1)
    chk.run(lengths, [(0,), (2,), (3, 1), (2, 0, 4)], chunk=1)
    chk.run(large, [(a, b, s) for a, b in ((101, 481), (481, 101), (64, 64), (200, 256), (7, 1000), (1000, 7), (128, 129), (1, 513), (513, 1)) for s in ((3,), (2, 0, 4), (8, 5, 6, 1))], chunk=1)
    chk.run(scales, [(s, p) for s in ((0,), (1, 2), (4, 0), (3, 7, 8)) for p in range(-290, 291, 2 if vlib.QUICK else 1)] + [(s, p) for s in ((1, 2), (3, 7, 8)) for p in range(-25, 26)], chunk=20)
    errors(chk, 0)
    chk.sample({"coefficients": [0.0, 3, -0.5], "orders": [POLS[0], POLS[5], POLS[8]], "forms": "scalar, line, 2D, vector-scalar, scalar-vector, surfaces 2x3 3x3 3x2"})
    chk.assumptions = [f"coefficients from {ALPHA}, up to {3 if vlib.QUICK else 4} of {k} polynomials, surfaces up to {top - 1}x{top - 1}"]
    chk.finish()


if __name__ == "__main__":
    vlib.main("C07", main)
