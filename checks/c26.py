"""C26: warnings. Every documented condition gives a warning each time it holds and none of its kind otherwise; suppressing silences a calculation and changes nothing: all settings around
the thresholds and all short histories of settings and calculations on the real code."""
import copy
import itertools
import os
import shutil
import warnings
import numpy as np
import vlib
from vlib import quiet
import zernpy
from zernpy import ZernPol, ZernPSF, generate_polynomials, fit_polynomials

chk = vlib.Check("C26", "exploration")
PI2 = 2.0*np.pi


def told(f, *a, **k):
    """(result or exception, number of warnings given to the user)."""
    with quiet() as w:
        try:
            r = f(*a, **k)
        except Exception as e:
            r = e
    return r, sum(issubclass(x.category, UserWarning) for x in w)


def judge(c, key, got, expected, info):
    r, n = got; c.case()
    if isinstance(r, Exception):
        c.violation(key, f"{key}: raised {r!r}", info)
    elif bool(n) != expected:
        c.violation(key, f"{key}: {'no warning' if expected else f'{n} warnings'} - expected {'a warning' if expected else 'none'}", info)
    c.nontriv(key)


# ---------------------------------------------------------------- values of polynomials
ANGLES = [0.0, 1.0, np.pi, 6.0, np.nextafter(PI2, 0), PI2, np.nextafter(PI2, 9), PI2 + 1e-6, 7.0, 100.0, -1e-12, -0.5, -6.5, -PI2, -0.0]


def angles(c, item):
    """Angles outside of [0, 2pi], as numbers and at each position of a vector."""
    m, n = item; z = ZernPol(m=m, n=n); ok = lambda a: 0.0 <= a <= PI2
    funcs = [("value", lambda a: z.polynomial_value(0.5 if np.ndim(a) == 0 else np.full(np.shape(a), 0.5), a)), ("angular part", z.triangular), ("angular derivative", z.triangular_dtheta), ("value at one radius", lambda a: z.polynomial_value(0.25, a)),
             ("sum", lambda a: ZernPol.sum_zernikes([0.5, 0.0], [z, z], 0.25, a))]
    for nm, f in funcs:
        for a in ANGLES:
            info = {"orders": item, "angle": float(a)}; judge(c, f"{nm} {item} at the angle {a!r}", told(f, a), not ok(a), info); judge(c, f"{nm} {item} at the angle {a!r} again", told(f, np.float64(a)), not ok(a), info)
            for size in (1, 2, 4):
                for pos in range(size):
                    v = [0.5 + 0.25*i for i in range(size)]; v[pos] = a
                    for cn, conv in (("array", np.array), ("list", list), ("tuple", tuple)):
                        if nm == "value" and cn != "array":
                            continue
                        judge(c, f"{nm} {item} at the angles {cn} {v}", told(f, conv(v)), not ok(a), {"orders": item, "angles": v})
    for a, b in itertools.product(ANGLES, repeat=2):
        judge(c, f"angular part {item} at the angles {a!r}, {b!r}", told(z.triangular, np.array([1.0, a, 2.0, b])), not (ok(a) and ok(b)), {"orders": item, "angles": [float(a), float(b)]})


def limits(c, n):
    """The exact equation above its limits: zeros with a warning, never without; below: no warning and the same values as the recursive equation."""
    for m in sorted({-n, n, n % 2, -(n % 2), min(n, 4 + n % 2)}):
        z = ZernPol(m=m, n=n); r = np.array([0.0, 0.3, 1.0])
        for nm, f, top in (("radial part", lambda x: z.radial(x, use_exact_eq=True), 40), ("value", lambda x: z.polynomial_value(x, 0.6, use_exact_eq=True), 40), ("radial derivative", lambda x: z.radial_dr(x, use_exact_eq=True), 38)):
            for repeat in (1, 2, 3):
                for x in (0.3, 1.0, r, r.tolist(), 1):
                    key = f"{nm} of {(m, n)} by the exact equation, {vlib.short(x, 40)}, call {repeat}"; got = told(f, x); judge(c, key, got, n > top, {"orders": [m, n]})
                    if n > top and not isinstance(got[0], Exception) and (np.shape(got[0]) != np.shape(x) or np.any(np.asarray(got[0]) != 0.0)):
                        c.violation(key, f"{key}: {got[0]} instead of zeros", {"orders": [m, n]})
        if n <= 40:
            for nm, f in (("radial part", z.radial), ("value", lambda x: z.polynomial_value(x, 0.6)), ("radial derivative", z.radial_dr), ("normalization", lambda x: z.normf())):
                if n <= 26 or nm != "radial derivative":
                    judge(c, f"{nm} of {(m, n)}", told(f, r), False, {"orders": [m, n]})


def pyramid(c, n):
    judge(c, f"generate_polynomials({n})", told(generate_polynomials, n), n > 30, {"order": n})


# ---------------------------------------------------------------- fitting
def images(c, item):
    """Images with an ambiguous centre or circle."""
    rows, cols, crop, strict = item; img = np.add.outer(np.arange(rows, dtype=float), 0.25*np.arange(cols)); pols = (ZernPol(m=0, n=0), ZernPol(m=-1, n=1)); info = {"shape": [rows, cols], "crop": crop, "strict": strict}; out = []
    for sup in (False, True, False):
        got = told(fit_polynomials, img, pols, crop, sup, strict, 9, True); out.append(got[0]); judge(c, f"fit of {rows}x{cols} crop={crop} strict={strict} suppress={sup}", got, not sup and (rows != cols or rows % 2 == 0 or cols % 2 == 0), info)
    if not any(isinstance(o, Exception) for o in out) and not all(np.array_equal(o[0], out[0][0]) and np.array_equal(o[1], out[0][1]) for o in out):
        c.violation(f"fit of {item}", "suppressing of warnings changes the fit", info)


# ---------------------------------------------------------------- PSF
def coefficients(c, item):
    """Coefficients around 10 wavelengths: single, at each position of a sequence."""
    wl, kind = item; base = [9.0, 9.999, 10.0*(1 - 1e-9), 10.0*(1 + 1e-9), 10.001, 12.5, 0.0, 1e-9, 3.0, 50.0]
    for x, sg in itertools.product(base, (1.0, -1.0)):
        co = sg*x*wl; px = 0.1*wl
        if kind == "single":
            p = ZernPSF(ZernPol(m=0, n=2)); judge(c, f"coefficient {sg*x} wavelengths of {wl}", told(p.set_physical_props, 0.5, wl, co, px), x > 10.0, {"coefficient": co, "wavelength": wl}); judge(c, f"coefficient {sg*x} wavelengths of {wl} again", told(p.set_physical_props, 0.5, wl, co, px), x > 10.0, {"coefficient": co, "wavelength": wl})
            judge(c, f"coefficient 0.1 after {sg*x} wavelengths of {wl}", told(p.set_physical_props, 0.5, wl, 0.1*wl, px), False, {"coefficient": co, "wavelength": wl})
        elif kind == "list of one":
            p = ZernPSF([ZernPol(m=0, n=2)]); judge(c, f"list of one coefficient {sg*x} wavelengths of {wl}", told(p.set_physical_props, 0.5, wl, [co], px), x > 10.0, {"coefficient": co, "wavelength": wl})
        else:
            for size in (2, 3, 5):
                for pos in range(size):
                    for rest in (0.1, -0.2, 9.5):
                        cc = [rest*wl]*size; cc[pos] = co; p = ZernPSF([ZernPol(osa=i + 3) for i in range(size)])
                        for cn, conv in (("list", list), ("array", np.array)):
                            judge(c, f"{cn} of coefficients {[v/wl for v in cc]} wavelengths of {wl}", told(p.set_physical_props, 0.5, wl, conv(cc), px), x > 10.0, {"coefficients": cc, "wavelength": wl})


def sizes(c, item):
    """Kernel sizes around the estimated one; numbers of points."""
    o, co, NA, px = item; pols = [ZernPol(m=m, n=n) for m, n in o]; mk = lambda: ZernPSF(pols if len(o) > 1 else pols[0])
    for d in range(-6, 7):
        p = mk(); told(p.set_physical_props, NA, 0.6, co, px); est = p.kernel_size; size = est + d
        if size < 3:
            continue
        info = {"orders": o, "coefficients": co, "NA": NA, "pixel": px, "size": size}; got = told(p.set_calculation_props, size, 40, 50); judge(c, f"size {size} (estimated {est}) {info}", got, size + (size + 1) % 2 < est, info)
    for nr, nphi in itertools.product((20, 499, 500, 501, 800), (36, 399, 400, 401, 402, 600)):
        p = mk(); told(p.set_physical_props, NA, 0.6, co, px); judge(c, f"{nr} and {nphi} points {item}", told(p.set_calculation_props, p.kernel_size, nr, nphi), nr > 500 and nphi > 400 if nphi != 399 else False, {"points": [nr, nphi]})
    p = mk(); judge(c, f"calculation properties before physical ones {item}", told(p.set_calculation_props, 51, 20, 36), True, {}); judge(c, f"calculation properties before physical ones {item} again", told(p.set_calculation_props, 51, 20, 36), True, {})
    judge(c, f"physical properties afterwards {item}", told(p.set_physical_props, NA, 0.6, co, px), False, {})


def borders(c, item):
    """Kernels of all sizes: a warning if more than 5% of the maximum is on the border; suppressed in the same calculation otherwise unchanged."""
    o, co, NA, px, acc = item; pols = [ZernPol(m=m, n=n) for m, n in o]; p = ZernPSF(pols if len(o) > 1 else pols[0]); info = {"orders": o, "coefficients": co, "NA": NA, "pixel": px, "accelerated": acc}; seen = set()
    for size in range(3, 16 if acc else 8, 2):
        told(p.set_physical_props, NA, 0.6, co, px); told(p.set_calculation_props, size, 20, 36)
        for normalized in (True, False):
            ks = []
            for sup in (True, False, True, False) if acc else (True, False):
                got = told(p.calculate_psf_kernel, sup, normalized, False, acc); k = np.array(p.kernel); ks.append(k); b = max(k[0].max(), k[-1].max(), k[:, 0].max(), k[:, -1].max())/k.max()
                if abs(b - 0.05) > 1e-9:
                    judge(c, f"kernel of {o} {co} NA={NA} pixel={px} size={size} accelerated={acc} normalized={normalized} suppress={sup}", got, b > 0.05 and not sup, {**info, "size": size, "border": b}); seen.add(b > 0.05); sides = [k[0].max(), k[-1].max(), k[:, 0].max(), k[:, -1].max()]; bright = tuple(i for i in range(4) if sides[i]/k.max() > 0.05); c.nontriv(("bright sides", bright))
                    if (b*k.max() > 0.05) != (b > 0.05):
                        c.extra["dim kernels"] = c.extra.get("dim kernels", 0) + 1
            if not all(np.array_equal(k, ks[0]) for k in ks):
                c.violation(f"kernel of {o} size {size}", "suppressing of warnings changes the kernel", info)
    c.nontriv(("both", len(seen)))


OPS = ("phys", "high", "bad phys", "calc", "small", "large", "bad calc", "kernel", "silent", "crop")


def histories(c, item):
    """All sequences of settings and calculations (as a tree, each object copied before the next call): each call warns because of its own settings only, whatever has been warned or rejected before."""
    prefix, depth = item

    def rec(p, phys, est, fresh, h):
        for op in ([prefix[len(h)]] if len(h) < len(prefix) else OPS):
            q = copy.deepcopy(p); key = f"history {' / '.join(h + (op,))}"; ph, es, fr = phys, est, fresh
            if op in ("phys", "high"):
                got = told(q.set_physical_props, 0.9, 0.6, 0.05 if op == "phys" else 6.1, 0.08); want = op == "high"; ph = fr = True; es = q.kernel_size
            elif op == "bad phys":
                got = told(q.set_physical_props, 0.9, 0.6, 0.05, 0.7); want = None
            elif op in ("calc", "small", "large"):
                size = {"calc": 11, "small": 3, "large": 21}[op]; got = told(q.set_calculation_props, size, 20, 36); want = (size < es if fr else None) if ph else True; fr = False
            elif op == "bad calc":
                got = told(q.set_calculation_props, 11, 19, 36); want = None
            elif op in ("kernel", "silent"):
                if not 3 <= q.kernel_size <= 21:
                    continue  # long calculation
                got = told(q.calculate_psf_kernel, op == "silent", True, False, True); a = np.asarray(q.kernel); b = max(a[0].max(), a[-1].max(), a[:, 0].max(), a[:, -1].max())/a.max()
                want = op == "kernel" and (not ph or b > 0.05); want = None if abs(b - 0.05) < 1e-9 else want
            else:
                got = told(q.crop_kernel, 0.3); want = False; fr = False
            if op.startswith("bad"):
                c.case(); c.nontriv(key)
                if not isinstance(got[0], ValueError):
                    c.violation(key, f"{key}: not rejected: {got[0]!r}", {"history": h + (op,)}); continue
            elif want is not None:
                judge(c, key, got, want, {"history": h + (op,)})
            if len(h) + 1 < depth and len(c.violations) < 10:
                rec(q, ph, es, fr, h + (op,))
    rec(ZernPSF(ZernPol(m=0, n=2)), False, 0, False, ())


def unset(c, _):
    """Calculation without physical properties."""
    for acc in (True, False):
        p = ZernPSF(ZernPol(m=0, n=0)); told(p.set_calculation_props, 31, 20, 36)
        for sup in (True, False, True, False):
            judge(c, f"kernel without physical properties accelerated={acc} suppress={sup}", told(p.calculate_psf_kernel, sup, True, False, acc), not sup, {})


def saving(c, item):
    """Saving: a warning if the existing file is kept or nothing has been calculated."""
    exists, overwrite = item; root = os.path.join(vlib.SCRATCH, "tmp", f"w{os.getpid()}"); shutil.rmtree(root, ignore_errors=True); os.makedirs(root); p = ZernPSF(ZernPol(m=1, n=3)); info = {"exists": exists, "overwrite": overwrite}
    told(p.set_physical_props, 0.9, 0.6, 0.05, 0.12); told(p.set_calculation_props, 5, 20, 36); told(p.calculate_psf_kernel, True)
    if exists:
        told(p.save_json, root, True)
    for i in range(3):
        kept = (exists or i > 0) and not overwrite; before = {f: open(os.path.join(root, f)).read() for f in os.listdir(root)}; judge(c, f"saving {i + 1}, file exists {exists}, overwrite {overwrite}", told(p.save_json, root, overwrite), kept, info)
        if kept and before != {f: open(os.path.join(root, f)).read() for f in os.listdir(root)}:
            c.violation(f"saving {item}", "the file has been changed without overwriting", info)
    shutil.rmtree(root, ignore_errors=True)


def main():
    chk.rule = "one evaluation = one call with its warnings compared with the condition; non-trivial: distinct calls"
    q = vlib.QUICK; top = 3 if q else 4
    with quiet():
        zernpy.force_get_psf_compilation()
    orders = [(0, 0), (-1, 1), (2, 2), (0, 4), (-3, 5), (13, 13), (2, 14)] if q else [(m, n) for n in range(13) for m in range(-n, n + 1, 2)] + [(13, 13), (2, 14), (-3, 21)]
    psfs = [([(0, 0)], 0.1), ([(1, 3)], 0.05), ([(1, 1)], -0.3), ([(0, 2)], 0.4), ([(-2, 2), (0, 2)], [0.1, -0.2]), ([(1, 1), (-3, 3), (0, 4)], [0.5, 0.1, 0.02])]
    chk.run(histories, [(pre, top + 2) for pre in itertools.product(OPS, repeat=2)], chunk=1)
    chk.run(borders, [([mn], sg*a*0.6, NA, px, True) for mn in ((-1, 1), (1, 1), (-1, 3), (1, 3)) for sg in (1, -1) for a in ((0.15, 0.4, 0.9) if q else (0.1, 0.15, 0.25, 0.4, 0.6, 0.9)) for NA, px in ((0.9, 0.15), (0.4, 0.2))] + [([mn], sg*a*0.6, 0.9, px, False) for mn in ((-1, 1), (1, 1)) for sg in (1, -1) for a, px in ((0.2, 0.16), (0.35, 0.2))], chunk=1)
    chk.run(borders, [(o, co, NA, px, acc) for o, co in (([(0, 2)], 0.5), ([(1, 3)], 0.45), ([(2, 2)], -0.6), ([(0, 4), (1, 1)], [0.5, 0.1]), ([(2, 2), (0, 2), (-3, 3)], [0.3, 0.3, 0.1])) for NA, px in ((0.9, 0.15), (0.5, 0.1)) for acc in (False, True)], chunk=1)
    chk.run(borders, [(o, co, NA, px, acc) for o, co in psfs for NA, px in ((0.9, 0.15), (0.4, 0.3), (0.2, 0.7), (1.4, 0.03)) for acc in (True, False) if acc or NA in (0.9, 0.2)], chunk=1)
    chk.run(unset, [0])
    chk.run(angles, orders, chunk=1); chk.run(limits, list(range(0, 55)), chunk=3); chk.run(pyramid, list(range(0, 55)), chunk=3)
    chk.run(images, [(a, b, r, s) for a in range(3, 14 if q else 24) for b in range(3, 14 if q else 24) for r in (1.0, 0.8, 0.5) for s in (False, True) if min(a, b)*r >= 4] + [(3, 3, 1.0, s) for s in (False, True)], chunk=8)
    chk.run(coefficients, [(wl, k) for wl in (0.55, 1.0, 633.0, 1e-6) for k in ("single", "list of one", "several")], chunk=1)
    chk.run(sizes, [(o, co, NA, px) for o, co in psfs for NA, px in ((0.9, 0.15), (0.4, 0.1), (1.4, 0.03))], chunk=1)
    chk.run(saving, [(e, w) for e in (False, True) for w in (False, True)], chunk=1)
    chk.sample({"history": ["high", "bad phys", "small", "kernel"], "judged": "warnings of each call"}); chk.sample({"angles": [0.5, 6.2831854, 1.0], "position": "each"})
    chk.assumptions = ["category UserWarning; texts of messages aren't judged", "size below the estimated one judged right after setting of physical properties", f"histories of {top + 2} calls"]
    chk.finish()


if __name__ == "__main__":
    vlib.main("C26", main)
