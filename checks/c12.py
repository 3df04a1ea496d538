"""C12: PSF kernels for all polynomials / numbers of integration points / settings of an enumerated space against the diffraction integral."""
import itertools
import numpy as np
import vlib, zref, zpsf
from vlib import call, quiet
from zernpy import ZernPol, ZernPSF

chk = vlib.Check("C12", "exploration")


def make(orders, coeffs, NA, wl, px, size, nr, nphi, seq=None):
    zs = [ZernPol(m=m, n=n) for m, n in orders]; single = len(zs) == 1 and not seq
    psf = ZernPSF(zs[0] if single else (seq or tuple)(zs)); psf.set_physical_props(NA, wl, coeffs[0] if single else list(coeffs), px)
    psf.set_calculation_props(size, nr, nphi)
    return psf


def accelerable(orders):
    return all(n <= 10 or abs(m) in (n, n - 2) for m, n in orders)


def one(c, item):
    orders, coeffs, (NA, wl, px), size, nr, nphi, paths = item; key0 = f"{orders} {coeffs} NA={NA} wl={wl} pixel={px} size={size} points={nr}x{nphi}"
    info = {"orders": orders, "coefficients": coeffs, "NA": NA, "wavelength": wl, "pixel": px, "kernel_size": size, "n_r": nr, "n_phi": nphi}
    rs, ths = zpsf.geometry(size + 1 - size % 2, NA, wl, px); osize = size + 1 - size % 2
    want = zpsf.kernel(orders, coeffs, NA, wl, px, osize, zpsf.rule(nr, nphi)); airy = zpsf.airy(rs).reshape(osize, osize)
    only_airy = all(n == 0 or co == 0.0 for (m, n), co in zip(orders, coeffs))
    conv = zpsf.kernel(orders, coeffs, NA, wl, px, osize, zpsf.converged()) if nr >= 200 and nphi >= 200 else None
    normalized_too = (nr + nphi + size) % 3 == 0 or want.argmax() != osize*osize//2 or want.max() < 0.01
    for path in paths:
        if path == "accelerated" and not accelerable(orders):
            continue
        key = f"{path} {key0}"; c.case(); c.nontriv(key)

        def run():
            psf = make(orders, coeffs, NA, wl, px, size, nr, nphi)
            return psf.calculate_psf_kernel(suppress_warnings=True, normalized=False, accelerated=path == "accelerated").copy(), \
                psf.calculate_psf_kernel(suppress_warnings=True, normalized=True, accelerated=path == "accelerated") if normalized_too else None
        st, res = call(run)
        if st != "ok":
            c.violation(key, f"{key}: raised {res!r}", info); continue
        k, kn = res
        if not isinstance(k, np.ndarray) or k.shape != (osize, osize) or k.dtype.kind != "f" or not np.all(k >= 0.0):
            c.violation(key, f"{key}: expected a non-negative {osize}x{osize} kernel, got {vlib.short(k)}", info); continue
        tol = 1e-8
        if only_airy:
            exact = np.abs(k - airy) <= 1e-8; ok = exact | (np.abs(k - want) <= tol); ref = airy
        else:
            ok = np.abs(k - want) <= tol; ref = want
        if not np.all(ok):
            i, j = np.argwhere(~ok)[0]
            c.violation(key, f"{key}: value of the pixel ({i}, {j}) is {k[i, j]!r} instead of {ref[i, j]!r}; largest difference {np.max(np.abs(k - ref)):.2e}", info); continue
        if conv is not None and not np.all(np.abs(k - conv) <= 2e-3):
            c.violation(key, f"{key}: differs from the diffraction integral by {np.max(np.abs(k - conv)):.2e}", info); continue
        if only_airy and not abs(k[osize//2, osize//2] - 1.0) <= 1e-9 + 1.0/(2*nr)**2:
            c.violation(key, f"{key}: the value at the origin is {k[osize//2, osize//2]!r}", info); continue
        if kn is not None and not (np.max(kn) == 1.0 and np.allclose(kn, k/np.max(k), rtol=1e-12, atol=1e-300)):
            c.violation(key, f"{key}: the normalized kernel isn't the kernel scaled to the maximum of 1", info)


def main():
    chk.rule = ("one evaluation = one kernel calculated, all pixels compared with the documented quadrature of the diffraction integral (1e-8) and, for many points, with the "
                "converged integral; non-trivial: distinct (path, polynomials, amplitudes, settings, kernel size, numbers of points)")
    with quiet():  # compile once before the fork
        for o, co in (([(1, 3)], [0.1]), ([(1, 3), (0, 2)], [0.1, 0.1])):
            make(o, co, 0.5, 0.5, 0.1, 3, 20, 36).calculate_psf_kernel(True, accelerated=True)
    P, A = "plain", "accelerated"; both = (P, A); items = []; S = [(0.95, 0.55, 0.12), (1.2, 0.4, 0.05)]; D = [(0.8717316402, 0.6328137941, 0.1179137268), (1.1333174921, 0.4880519737, 0.0456789123)]; e = 0.00123456789; q = vlib.QUICK
    few0 = [(-1, 1), (0, 2), (2, 2), (1, 3), (-3, 3), (0, 4), (-5, 7)]; singles = [(m, n) for n in range(11) for m in range(-n, n + 1, 2)]
    for mn in singles:  # all polynomials
        for a in ((0.5 + e, -0.2 - e) if q else (0.5 + e, -0.2 - e, 0.05, -1.1)):
            for s, pts in (((D[0], (20, 36)), (D[1], (33, 48))) if q else itertools.product(S, ((20, 36), (33, 48), (64, 100)))):
                items.append(([mn], [a], s, 5, *pts, both))
    for mn in [(1, 11), (11, 11), (-11, 11), (-9, 11), (9, 11), (10, 12), (-12, 12), (0, 12), (3, 13), (0, 16), (-6, 14), (13, 15), (-14, 16), (17, 17)]:
        items.append(([mn], [0.3], S[0], 3, 24, 60, both))
    for o, co in (([(0, 2)], [5.3]), ([(0, 4)], [7.9]), ([(1, 1)], [7.7]), ([(0, 2)], [40.1]), ([(0, 4), (2, 2)], [4.1, 0.7]), ([(1, 1), (0, 2)], [17.7, 3.1]), ([(-2, 6)], [3.3]), ([(3, 3), (0, 6)], [4.1, -3.3])):  # very dim kernels
        items.extend((o, co, D[i], size, 20 + i, 36 + i, both) for i in (0, 1) for size in (3, 5))
    for n in range(11, 55):  # high orders on both paths
        for m in {n, -n, n - 2, 2 - n} if n < 30 or n % 6 == 0 else {(-1)**n*n, n - 2}:
            items.append(([(m, n)], [0.21321778/(1 + n % 3)], D[n % 2], 3, 20 + n % 5, 60, both if n < 17 else (A,)))
        items.append(([(n, n), (2 - n, n), (1, 3)], [0.1171, -0.0713, 0.2319], D[n % 2], 3, 20, 60, (A,)))
    for pts in ((20, 700), (21, 1001), (22, 2002), (20, 5000), (700, 36), (1001, 37), (2003, 38), (5000, 40)):  # many points
        for o, co in (([(1, 3)], [0.2871]), ([(0, 2), (-1, 3)], [0.3071, -0.2113]), ([(0, 0)], [0.3])):
            items.append((o, co, D[0], 3, *pts, both if max(pts) < 3000 else (A,)))
    for k in range(24):  # settings with many digits
        f = (k*0.6180339887498949) % 1.0; s = (0.3 + 1.3*f, 0.35 + 0.5*((k*0.7548776662) % 1.0), 0.0); s = (s[0], s[1], s[1]/s[0]*0.25*(0.2 + 0.79*((k*0.5698402910) % 1.0)))
        for o, co in (([few0[k % 7]], [0.1 + f/2]), ([few0[k % 7], few0[(k + 3) % 7]], [f/3, -f/5]), ([few0[(k + j) % 7] for j in range(5)], [f/(3 + j)*(-1)**j for j in range(5)])):
            items.append((o, co, s, 5, 20 + k, 36 + k, both))
    for nr in range(20, 330 if q else 700):  # all numbers of points
        items.append(([(1, 3)], [0.35 + e], S[0], 3, nr, 36 if nr % 2 else 37, both))
        items.append(([(0, 2), (-1, 3)], [0.2 + e, -0.3 - e], D[1], 3, nr, 36, (A,) if nr % 7 else both))
    for nphi in range(36, 312 if q else 520):
        items.append(([(-2, 2)], [0.4 - e], S[0], 3, 20, nphi, both))
        items.append(([(2, 4), (1, 1)], [0.2 - e, 0.3 + e], D[1], 3, 21, nphi, (A,) if nphi % 7 else both))
    few = [(-1, 1), (0, 2), (2, 2), (1, 3), (-3, 3), (0, 4), (0, 0)]
    for k in (2, 3):
        for sel in itertools.permutations(few, k) if k == 2 else itertools.combinations(few, k):
            for co in ([0.3, -0.2, 0.15], [0.0, 0.5, -0.1], [0.4, 0.0, -0.2]) + (() if q else ([-0.7, 0.0, 0.0], [0.0, 0.0, 0.0], [0.0, 0.0, 0.3])):
                items.append((list(sel), co[:k], S[0], 3 if k == 2 else 5, 20, 36, both))
    items.append(([(m, n) for n in range(5) for m in range(-n, n + 1, 2)], [0.02*(-1)**i for i in range(15)], S[0], 3, 24, 40, both))
    items.append(([(9, 11), (12, 12), (0, 2)], [0.02, 0.1, -0.1], S[0], 3, 24, 60, both))
    for size in range(3, 14 if q else 24):
        items.append(([(-1, 3)], [0.3], S[0], size, 20, 36, both)); items.append(([(0, 0)], [0.3], S[0], size, 20, 36, both))
    for o, co in (([(1, 1)], [1.3]), ([(-1, 1)], [-1.1]), ([(1, 1), (1, 3)], [0.9, 0.2]), ([(0, 2), (-1, 1)], [0.3, 1.2]), ([(4, 4)], [0.9])):  # largest values away from the centre
        for size in (7, 10, 13):
            items.append((o, co, S[0], size, 20, 36, both))
    for o, co in (([(1, 3)], [0.3]), ([(-2, 2)], [0.5]), ([(0, 0)], [0.3]), ([(0, 2), (1, 1)], [0.3, 0.4])):  # pixels far from the centre
        for size in ((35,) if q else (35, 61)):
            items.append((o, co, S[0], size, 20, 36, both))
    for size in (61, 111) if q else (61, 111, 201):
        items.append(([(0, 0)], [0.3], S[0], size, 20, 36, both)); items.append(([(0, 0)], [1.0], (1.2, 0.4, 0.08), size, 20, 36, (P,)))
    items.append(([(1, 3)], [0.3], S[0], 61, 20, 36, (A,)))
    for NA in (0.05, 0.5, 1.0, 1.7):
        for wl in (0.4, 0.55, 1.0, 532.0):
            for f in (1e-7, 1e-5, 1e-3, 0.01, 0.05, 0.5, 0.999999, 1.0):
                s = (NA, wl, f*0.5*0.5*wl/NA); items.append(([(1, 3)], [0.4*wl], s, 5, 20, 36, both)); items.append(([(0, 0)], [0.1*wl], s, 5, 20, 36, both))
                items.append(([(2, 2), (0, 4)], [0.1*wl, -0.25*wl], s, 3, 20, 36, both))
    for o, co in (([(0, 0)], [0.5]), ([(1, 3)], [0.5]), ([(0, 4)], [-0.3]), ([(2, 2), (-3, 3)], [0.3, 0.2]), ([(1, 1)], [1.0]), ([(0, 0), (0, 2)], [3.0, 0.2]), ([(5, 5)], [0.3]), ([(-7, 9)], [0.1])):
        for pts in ((320, 300), (250, 320), (500, 250)):
            items.append((o, co, S[0], 3 if q else 5, *pts, both))
    items.sort(key=lambda t: -t[3]**2*t[4]*t[5]); groups = [items[i::200] for i in range(200)]
    chk.run(batch, groups, chunk=1)
    chk.sample({"orders": [(1, 3)], "coefficient": 0.35, "settings": S[0], "kernel_size": 3, "n_r": 21, "n_phi": 36})
    chk.assumptions = ["documented rules: trapezoidal over the radius, Simpson over the angle (an odd number of angular points is rounded up)",
                       "Airy pattern may be calculated exactly or by the same rules", "kernel sizes up to 111 (quick)"]
    chk.finish()


def batch(c, items):
    for it in items:
        one(c, it)


if __name__ == "__main__":
    vlib.main("C12", main)
