"""C13: all ways of calculating one PSF agree: paths, flags, containers, orders of polynomials, zero amplitudes, symmetries; real workers."""
import itertools
import multiprocessing
import numpy as np
import vlib, zpsf
from vlib import call, quiet
from zernpy import ZernPol, ZernPSF

chk = vlib.Check("C13", "exploration")
S0 = (0.9517316402, 0.5528137941, 0.1179137268); TOL = 1e-8


def P(*mn):
    return [ZernPol(m=m, n=n) for m, n in mn]


def psf_of(pols, coeffs, s=S0, size=3, nr=20, nphi=36):
    p = ZernPSF(pols); p.set_physical_props(s[0], s[1], coeffs, s[2]); p.set_calculation_props(size, nr, nphi); return p


def same(c, key, res, base, info=None, tol=TOL):
    c.case(); c.nontriv(key)
    if res[0] != "ok":
        c.violation(key, f"{key}: raised {res[1]!r}", info); return
    a = np.asarray(res[1])
    if a.shape != base.shape or not np.all(np.abs(a - base) <= tol):
        c.violation(key, f"{key}: {vlib.short(a, 200)} differs from {vlib.short(base, 200)}, largest difference "
                    f"{np.max(np.abs(a - base)) if a.shape == base.shape else 'shape'}", info)


def flags(c, item):
    """All combinations of flags for one PSF; the stored kernel is the returned one."""
    orders, coeffs, size, (nr, nphi) = item; single = len(orders) == 1; args = (P(*orders)[0], coeffs[0]) if single else (tuple(P(*orders)), coeffs)
    bases = [zpsf.kernel(orders, coeffs, *S0, size, zpsf.rule(nr, nphi))]
    if orders == [(0, 0)]:  # either the exact Airy pattern or the integral by the rule
        bases.append(zpsf.airy(zpsf.geometry(size, *S0)[0]).reshape(size, size))
    for sup, norm, verb, acc in itertools.product((True, False), (True, False), (False, True), (None, True, False)):
        if size > 15 and not (sup and acc is not None):
            continue
        key = f"flags suppress={sup} normalized={norm} verbose={verb} accelerated={acc} {orders} {coeffs} size={size} points={nr}x{nphi}"

        def run():
            p = psf_of(*args, S0, size, nr, nphi); k = p.calculate_psf_kernel(sup, norm, verb, acc)
            assert np.array_equal(p.kernel, k) and p.kernel_size == size, "the stored kernel isn't the returned one"
            return k
        res = call(run); want = [b/b.max() if norm else b for b in bases]
        if len(want) > 1 and res[0] == "ok" and np.shape(res[1]) == want[0].shape:
            want.sort(key=lambda b: np.max(np.abs(res[1] - b)))
        same(c, key, res, want[0], {"flags": [sup, norm, verb, acc], "orders": orders, "coefficients": coeffs})


def representations(c, item):
    orders, coeffs, acc = item; tag = f"{orders} {coeffs} accelerated={acc}"
    K = lambda pols, co, **kw: call(lambda: psf_of(pols, co, **kw).calculate_psf_kernel(True, False, False, acc))
    base = zpsf.kernel(orders, coeffs, *S0, 3, zpsf.rule(20, 36))
    if len(orders) == 1:
        z = P(*orders)[0]; a = coeffs[0]
        for nm, (pp, co) in {"single, scalar": (z, a), "list of 1, scalar": ([z], a), "tuple of 1, scalar": ((z,), a), "list of 1, list": ([z], [a]), "tuple of 1, tuple": ((z,), (a,)),
                             "single, list": (z, [a]), "single, array": (z, np.array([a])), "single, numpy scalar": (z, np.float64(a)), "list of 1, array": ([z], np.array([a]))}.items():
            same(c, f"{nm} {tag}", K(pp, co), base, {"orders": orders, "as": nm})
        for other in ((2, 6), (-1, 1), (0, 0), (5, 5)):  # with polynomials of zero amplitude
            if other != orders[0]:
                for pos in (0, 1):
                    pp = P(orders[0], other) if pos == 0 else P(other, orders[0]); co = [a, 0.0] if pos == 0 else [0.0, a]
                    same(c, f"plus zero amplitude of {other} at {1 - pos} {tag}", K(pp, co), base, {"orders": orders, "zero": other})
        if orders[0] != (0, 0):
            same(c, f"plus piston {tag}", K(P(orders[0], (0, 0)), [a, 0.7]), base, {"orders": orders})
        if a > 0.4:
            same(c, f"integer coefficient {tag}", K(z, 1), zpsf.kernel(orders, [1.0], *S0, 3, zpsf.rule(20, 36)))
    else:
        zs = P(*orders)
        for nm, f, g in (("list/list", list, list), ("tuple/tuple", tuple, tuple), ("list/array", list, np.array), ("tuple/list", tuple, list), ("list/tuple", list, tuple)):
            same(c, f"{nm} {tag}", K(f(zs), g(coeffs)), base, {"orders": orders})
        for pos in range(len(orders) + 1):  # a polynomial of zero amplitude at any position
            for other in ((2, 6), (0, 0)):
                same(c, f"zero amplitude of {other} inserted at {pos} {tag}", K(zs[:pos] + P(other) + zs[pos:], coeffs[:pos] + [0.0] + coeffs[pos:]), base, {"orders": orders, "zero": other})
        for perm in itertools.permutations(range(len(orders))):
            same(c, f"permutation {perm} {tag}", K([zs[i] for i in perm], [coeffs[i] for i in perm]), base, {"orders": orders, "permutation": perm})
    for size in (3, 4):  # even sizes are rounded up
        want = zpsf.kernel(orders, coeffs, *S0, size + 1 - size % 2, zpsf.rule(20, 36))
        co = coeffs[0] if len(orders) == 1 else coeffs; pp = P(*orders)[0] if len(orders) == 1 else P(*orders)
        same(c, f"size {size} {tag}", K(pp, co, size=size), want)


def rot(mn):
    """Aberration rotated by 90 degrees: (orders, sign)."""
    m, n = mn; am = abs(m); k = am % 4
    if m >= 0:  # cos(m(phi - pi/2))
        return ((m, n), 1.0) if k == 0 else ((-m, n), 1.0) if k == 1 else ((m, n), -1.0) if k == 2 else ((-m, n), -1.0)
    return ((m, n), 1.0) if k == 0 else ((am, n), -1.0) if k == 1 else ((m, n), -1.0) if k == 2 else ((am, n), 1.0)


def symmetries(c, item):
    orders, coeffs, acc = item; nr, nphi, size = 20, 40, 5; tag = f"{orders} {coeffs} accelerated={acc}"

    def K(o, co, s=S0):
        st, v = call(lambda: psf_of(P(*o)[0] if len(o) == 1 else P(*o), co[0] if len(o) == 1 else list(co), s, size, nr, nphi).calculate_psf_kernel(True, False, False, acc))
        return st, v
    st, base = K(orders, coeffs)
    if st != "ok":
        c.case(); c.violation(f"symmetry {tag}", f"raised {base!r}"); return
    for f in (2.0, 1000.0, 1e-3, 1.37):
        same(c, f"lengths x {f} {tag}", K(orders, [f*a for a in coeffs], (S0[0], f*S0[1], f*S0[2])), base, {"orders": orders})
    same(c, f"NA and pixel {tag}", K(orders, coeffs, (S0[0]*0.5, S0[1], S0[2]*2)), base, {"orders": orders})
    same(c, f"negative amplitude {tag}", K(orders, [-a for a in coeffs]), base[::-1, ::-1], {"orders": orders})
    same(c, f"mirrored rows {tag}", K(orders, [a if m >= 0 else -a for a, (m, n) in zip(coeffs, orders)]), base[::-1, :], {"orders": orders})
    same(c, f"mirrored columns {tag}", K(orders, [a*((-1)**m if m >= 0 else -(-1)**m) for a, (m, n) in zip(coeffs, orders)]), base[:, ::-1], {"orders": orders})
    r = [rot(o) for o in orders]
    same(c, f"rotated by 90 degrees {tag}", K([o for o, _ in r], [a*s for a, (_, s) in zip(coeffs, r)]), np.rot90(base, -1), {"orders": orders})
    if all(m == 0 for m, n in orders):
        same(c, f"axial symmetry {tag}", ("ok", base.T), base, {"orders": orders})


def pixels(c, item):
    """Single pixels and whole kernels without workers."""
    orders, coeffs, size, (nr, nphi), *st = item; st = st[0] if st else S0; tag = f"{st} {orders} {coeffs} size={size} points={nr}x{nphi}"; single = len(orders) == 1
    args = (P(*orders)[0], coeffs[0]) if single else (P(*orders), coeffs); rs, ths = zpsf.geometry(size, *st)
    base = zpsf.kernel(orders, coeffs, *st, size, zpsf.rule(nr, nphi))
    with quiet():
        p = psf_of(*args, st, size, nr, nphi)
    got = [call(p.get_psf_point_r_parallel, float(r), float(t)) for r, t in zip(rs, ths)]
    bad = next((g for g in got if g[0] != "ok"), None)
    same(c, f"pixels {tag}", bad or ("ok", np.array([g[1] for g in got]).reshape(size, size)), base)
    for norm in (True, False):
        same(c, f"kernel without workers normalized={norm} {tag}", call(p.get_kernel_parallel, norm), base/base.max() if norm else base)


def workers(c, item):
    """Whole kernels by real worker processes (in an own non-daemonic process, so that workers can be started)."""
    orders, coeffs, (nr, nphi) = item; tag = f"{orders} {coeffs} points={nr}x{nphi}"; single = len(orders) == 1
    args = (P(*orders)[0], coeffs[0]) if single else (P(*orders), coeffs); base = zpsf.kernel(orders, coeffs, *S0, 3, zpsf.rule(nr, nphi))

    def run():
        p = psf_of(*args, S0, 3, nr, nphi); p.initialize_parallel_workers()
        try:
            a = p.get_kernel_parallel(False).copy(); b = p.get_kernel_parallel(True).copy(); s = p.get_psf_point_r_parallel(0.7, 0.4)
        finally:
            p.deinitialize_workers()
        return a, b, s, p.get_kernel_parallel(False).copy()
    st, res = call(run)
    if st != "ok":
        c.case(); c.violation(f"workers {tag}", f"raised {res!r}"); return
    a, b, s, after = res
    same(c, f"workers {tag}", ("ok", a), base); same(c, f"workers normalized {tag}", ("ok", b), base/base.max())
    same(c, f"workers pixel {tag}", ("ok", s), zpsf.points(orders, [x/S0[1] for x in coeffs], [0.7], [0.4], zpsf.rule(nr, nphi))[0])
    same(c, f"after deinitialization {tag}", ("ok", after), base)


def sizes(c, item):
    """The estimated kernel size (not set explicitly): odd, at least 3 and the same for equivalent PSFs (permuted, negative, scaled, mirrored and rotated)."""
    orders, coeffs, s = item; tag = f"{orders} {coeffs} {s}"

    def S(o, co, st=s):
        p = ZernPSF(P(*o)[0] if len(o) == 1 else P(*o)); p.set_physical_props(st[0], st[1], co[0] if len(o) == 1 else list(co), st[2]); return p.kernel_size
    with quiet():
        st, base = call(S, orders, coeffs); n = len(orders); c.case(); c.nontriv(f"size {tag}")
        if st != "ok" or base % 2 != 1 or base < 3:
            c.violation(f"estimated size {tag}", f"estimated kernel size {base!r}", {"orders": orders}); return
        r = [rot(o) for o in orders]; same_as = [("negative", orders, [-a for a in coeffs], s), ("mirrored", orders, [a if m >= 0 else -a for a, (m, k) in zip(coeffs, orders)], s), ("rotated", [o for o, _ in r], [a*x for a, (_, x) in zip(coeffs, r)], s)]
        same_as += [(f"lengths x {f}", orders, [f*a for a in coeffs], (s[0], f*s[1], f*s[2])) for f in (2.0, 1024.0, 2.0**-20)]
        if n <= 4:
            same_as += [(f"permutation {q}", [orders[i] for i in q], [coeffs[i] for i in q], s) for q in itertools.permutations(range(n))]
        else:  # all rotations of the order, all exchanges of two neighbours, reversed
            same_as += [(f"order shifted by {k}", orders[k:] + orders[:k], coeffs[k:] + coeffs[:k], s) for k in range(n)] + [("reversed", orders[::-1], coeffs[::-1], s)]
            for i in range(n - 1):
                q = list(range(n)); q[i], q[i + 1] = q[i + 1], q[i]; same_as.append((f"{i} exchanged with {i + 1}", [orders[j] for j in q], [coeffs[j] for j in q], s))
        for nm, o, co, st2 in same_as:
            res = call(S, o, co, st2); c.case()
            if res != ("ok", base):
                c.violation(f"estimated size, {nm} {tag}", f"{nm}: the estimated kernel size is {res[1]!r} instead of {base}", {"orders": o, "coefficients": co, "settings": st2}); return


def wide(c, item):
    """Larger kernels with more points: all chosen combinations of flags give the same kernel; pixels of it are compared with the reference."""
    orders, coeffs, size, (nr, nphi), acc, combos = item; single = len(orders) == 1; args = (P(*orders)[0], coeffs[0]) if single else (P(*orders), coeffs)
    rs, ths = zpsf.geometry(size, *S0); h = size//2; some = [h*size + h, 0, size - 1, h*size + h + 1, (h - 2)*size + h + 1, h*size, size*size - 2, (h//2)*size + h + 3]
    want = zpsf.points(orders, [x/S0[1] for x in coeffs], rs[some], ths[some], zpsf.rule(nr, nphi)); base = None
    for sup, norm, verb in combos:
        key = f"larger kernel suppress={sup} normalized={norm} verbose={verb} accelerated={acc} {orders} {coeffs} size={size} points={nr}x{nphi}"
        st, k = call(lambda: psf_of(*args, S0, size, nr, nphi).calculate_psf_kernel(sup, norm, verb, acc))
        if st != "ok" or np.shape(k) != (size, size):
            same(c, key, (st, k), np.zeros((size, size))); continue
        k = np.asarray(k); top = k.max()
        if norm:
            if base is not None:
                same(c, key, ("ok", k), base/base.max())
            continue
        same(c, key, ("ok", k.ravel()[some]), want)
        if base is None:
            base = k
        else:
            same(c, key + " (all pixels)", ("ok", k), base)


def digits(items):
    """Amplitudes with many digits instead of the short ones."""
    return [(o, [x*1.0123456789 - 0.00031415926*(k % 3) if x else x for k, x in enumerate(co)], *rest) for o, co, *rest in items]


def main():
    chk.rule = "one evaluation = one kernel (or pixel) compared with the reference of the same PSF; non-trivial: distinct (way of calculation, PSF)"
    todo = [([(1, 3)], [0.3], (20, 36)), ([(1, 1)], [1.3], (20, 36)), ([(0, 2)], [-0.4], (33, 37)), ([(-2, 2)], [0.2], (20, 40)), ([(0, 0)], [0.2], (24, 36)), ([(1, 1), (0, 4)], [0.1, 0.2], (20, 36)), ([(-1, 3)], [0.25], (401, 38)), ([(2, 4)], [0.17], (20, 500))]
    if not vlib.QUICK:
        todo += [([(m, n)], [0.25], (20, 36)) for n in range(1, 6) for m in range(-n, n + 1, 2)] + [([(3, 7)], [0.3], (64, 120))]
    for it in digits(todo):
        workers(chk, it)
    with quiet():
        for o, co in (([(1, 3)], 0.1), ([(1, 3), (0, 2)], [0.1, 0.1])):
            psf_of(P(*o)[0] if len(o) == 1 else P(*o), co).calculate_psf_kernel(True, accelerated=True)
    fl = [([(1, 3)], [0.3]), ([(0, 0)], [0.4]), ([(-2, 4)], [-0.2]), ([(0, 2), (-1, 3)], [0.2, -0.3]), ([(0, 0), (2, 2), (3, 3)], [0.9, 0.1, -0.2]), ([(1, 1)], [1.3]),
          ([(-1, 1), (0, 2)], [1.2, 0.2]), ([(1, 3), (1, 1)], [0.2, 0.8])]
    many = [([(m, n) for n in range(4) for m in range(-n, n + 1, 2)], [0.03*(-1)**i/(1 + i % 3) for i in range(10)]), ([(m, n) for n in range(2, 6) for m in range(-n, n + 1, 2)], [0.02/(1 + i % 5) for i in range(18)])]
    chk.run(flags, digits([(o, co, size, pts) for o, co in fl for size in ((3, 11, 17, 19, 27) if len(o) < 3 else (3, 11)) for pts in ((20, 36),)] + [(o, co, 3, pts) for o, co in fl[:4] + many for pts in ((320, 300), (401, 38), (21, 500), (1001, 36))] + [(o, co, 3, (20, 60)) for o, co in (([(21, 23)], [0.1]), ([(-30, 32)], [0.2]), ([(47, 47)], [-0.2]), ([(-40, 42), (33, 33), (1, 3)], [0.1, 0.2, -0.3]), ([(11, 13), (0, 2)], [0.1, 0.2]))]), chunk=1)
    top = 7 if vlib.QUICK else 11; allp = [(m, n) for n in range(top) for m in range(-n, n + 1, 2)]; reps = []; syms = []
    multi = [([(1, 3), (0, 2)], [0.3, -0.2]), ([(-1, 1), (2, 2), (0, 4)], [0.2, 0.1, -0.15]), ([(-3, 5), (4, 4), (1, 1)], [0.05, 0.2, 0.3])]
    for acc in (True, False):
        for mn in allp:
            reps += [([mn], [a], acc) for a in ((0.5,) if vlib.QUICK else (0.5, -0.15))] if mn != (0, 0) or acc else []
            syms += [([mn], [0.3], acc)] if mn != (0, 0) else []
        reps += [(o, co, acc) for o, co in multi]; syms += [(o, co, acc) for o, co in multi]
    chk.run(representations, digits(reps), chunk=2); chk.run(symmetries, digits(syms), chunk=2)
    chk.run(pixels, digits([([mn], [0.35], 3, (20, 36)) for mn in allp] + [(o, co, 3, (20, 36)) for o, co in multi + many] + [([(1, 3)], [0.2], 3, pts) for pts in ((401, 38), (21, 500), (1001, 36))] + [(many[0][0], many[0][1], 3, (400, 38))] + [([(1, 3)], [0.2], 7, (21, 41)), ([(1, 1)], [1.3], 9, (20, 36)), ([(-1, 1), (0, 2)], [1.2, 0.2], 9, (20, 36)), ([(1, 3)], [0.3], 35, (20, 36)),
                    ([(-2, 4)], [-0.4], 27, (20, 37)), ([(0, 2), (-1, 3)], [0.2, -0.3], 27, (20, 36)), ([(0, 0)], [0.3], 27, (20, 36)), ([(21, 23)], [0.1], 3, (20, 60)), ([(1, 3)], [0.3], 3, (20, 2001)), ([(0, 2), (1, 3)], [0.3, 0.1], 3, (20, 1203))]), chunk=1)
    estimated = [([mn], [a*wl], (NA, wl, f*0.25*wl/NA)) for mn in [(m, n) for n in range(13) for m in range(-n, n + 1, 2)] + [(0, 30), (31, 33), (-54, 54)] for a in (0.0, 0.1, 0.2499, 0.2500001, 0.4, 0.5000001, 0.8, 2.3, 9.1, 14.0)
                 for NA, wl, f in ((0.1, 0.55, 0.9), (0.95, 0.4, 0.31), (1.3, 0.6, 0.5), (1.7, 532.0, 0.07))]
    pool = [(m, n) for n in range(7) for m in range(-n, n + 1, 2)]
    for k in (2, 3, 4, 6, 10, 15, 20, 28):
        for b in (0.05, 0.3, 0.6, 1.2, 5.0):
            for where in {0, k//2, k - 1}:  # the largest amplitude at different places
                estimated.append((pool[28 - k:], [(b if i == where else b*0.3/(1 + i))*(-1)**i*0.55 for i in range(k)], (0.95, 0.55, 0.12)))
    chk.run(sizes, estimated, chunk=8)
    most = [(s, n, v) for s, n, v in itertools.product((True, False), (False, True), (False, True))]; few = [(True, False, False), (False, False, False), (False, False, True), (True, False, True), (False, True, False)]
    big = [([(1, 3)], [0.3], 27, (111, 36), False, few), ([(1, 3), (-2, 2)], [0.2, 0.1], 27, (101, 36), False, few[:3]), ([(1, 3)], [0.3], 31, (20, 36), True, most), ([(1, 3), (-2, 2)], [0.2, 0.1], 31, (24, 38), True, most),
           ([(1, 3)], [0.3], 89, (326, 36), True, few[:4]), ([(-2, 4), (1, 1)], [0.3, 0.2], 89, (20, 326), True, few[:4]), ([(1, 3)], [0.3], 131, (20, 36), True, few), ([(1, 1), (0, 4)], [0.3, 0.2], 55, (60, 60), True, few), ([(0, 2)], [0.3], 41, (20, 36), False, few)]
    chk.run(wide, digits(big), chunk=1)
    chk.run(flags, digits([(o, co, size, (20, 36)) for o, co, size in (([(0, 2)], [5.3], 3), ([(0, 4), (2, 2)], [4.1, 0.7], 3), ([(1, 1)], [7.7], 5), ([(-3, 5)], [6.0], 5))]), chunk=1)
    chk.run(pixels, digits([(o, [a*st[1] for a in co], 3 + 2*(k % 2), (20 + k, 36 + k), st) for k, st in enumerate([(1.6537, 0.6328, 0.0917), (1.4113, 0.405, 0.0713), (0.2531, 1.0641, 0.8317), (1.3517, 532.7, 87.3), (0.0517, 0.4937, 1.9)]) for o, co in [([(1, 3)], [0.3]), ([(0, 0)], [0.3]), ([(-1, 1), (0, 4)], [0.3, -0.2])]]), chunk=1)
    chk.run(pixels, digits([([(0, 2)], [5.3], 3, (20, 36)), ([(0, 4)], [7.9], 3, (24, 36)), ([(0, 4), (2, 2)], [4.1, 0.7], 3, (20, 36)), ([(1, 1)], [7.7], 5, (20, 36))]), chunk=1)
    chk.sample({"orders": [(1, 3)], "ways": "plain, accelerated, pixel by pixel, workers, sequence of 1, with zero amplitudes, rotated, mirrored, rescaled lengths"})
    chk.assumptions = ["polynomials up to the order 6 (10 thorough) for representations and symmetries; kernels 3..27", "real worker processes for some PSFs (schedules: C20-C22)"]
    chk.finish()


if __name__ == "__main__":
    vlib.main("C13", main)
