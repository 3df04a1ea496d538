"""C25: PSF objects in several threads. Two real threads working with different PSF objects (which may share polynomials, amplitudes, folders and images) under the controlled scheduler of vthreads:
all interleavings with 1 preemption (all ordered pairs of operations), selected ones with 2; each thread gets exactly the kernels, properties, images and files it gets alone."""
import itertools
import os
import sys
import warnings
import numpy as np
import vlib
import zernpy
from vthreads import interleave1, interleave2, points_of, same, solo, verdict
from zernpy import ZernPol, ZernPSF

chk = vlib.Check("C25", "model_checking"); chk.crash_counts = False  # tracing several threads isn't fully reliable in CPython 3.12


def snapshot(p):
    co = p.expansion_coeff if p.zernpol is not None else tuple(float(x) for x in p.coefficients) if p.coefficients is not None else None
    pols = (p.zernpol,) if p.zernpol is not None else tuple(p.polynomials)
    return (np.array(p.kernel), float(p.NA), float(p.wavelength), float(p.pixel_size), co, int(p.kernel_size), int(p.n_int_r_points), int(p.n_int_phi_points), pols, bool(p.airy), float(p.k))


def operations():
    """Name: operation on objects of its own with shared polynomials, coefficients, images and folders."""
    coma, defocus, piston, high = ZernPol(m=1, n=3), ZernPol(m=0, n=2), ZernPol(m=0, n=0), ZernPol(m=-3, n=9); pair = [coma, defocus]; amps = [0.05, -0.08]; img = np.arange(49.0).reshape(7, 7) % 11; ints = (np.arange(63).reshape(9, 7)*5 % 23).astype("uint8")
    tmp = os.path.join(vlib.SCRATCH, "tmp", f"t{os.getpid()}"); os.makedirs(tmp, exist_ok=True)

    def ready(pol, phys, calc):
        p = ZernPSF(pol); p.set_physical_props(*phys); p.set_calculation_props(*calc); return p
    A, B, C, D = (0.95, 0.55, 0.2, 0.14), (0.6, 0.62, -0.1, 0.2), (0.8, 0.5, amps, 0.15), (0.7, 0.6, [-0.02, 0.11], 0.19)

    def kernel(pol, phys, calc, **kw):
        def op():
            p = ready(pol, phys, calc); k = np.array(p.calculate_psf_kernel(suppress_warnings=True, **kw)); return k, snapshot(p)
        return op

    def stored(pol, phys, calc, name, what):
        path = {}

        def first():
            p = ready(pol, phys, calc); p.calculate_psf_kernel(suppress_warnings=True, accelerated=True); p.save_json(os.path.join(tmp, name), True); path[0] = p.json_file_path; return p
        os.makedirs(os.path.join(tmp, name), exist_ok=True); first()

        def op():
            if what == "read":
                p = ZernPSF(ZernPol(m=2, n=2)); p.read_json(path[0]); return snapshot(p)
            p = ready(pol, phys, calc); p.calculate_psf_kernel(suppress_warnings=True, accelerated=True)
            if what == "save":
                p.save_json(os.path.join(tmp, "common"), True); q = ZernPSF(ZernPol(m=2, n=2)); q.read_json(p.json_file_path); return snapshot(p), snapshot(q), p.json_file_path
            if what == "convolve":
                return p.convolute_img(img), p.convolute_img(img, scale2original=False), snapshot(p)
            if what == "convolve integers":
                return p.convolute_img(ints), p.convolute_img(ints, scale2original=False), snapshot(p)
            p.crop_kernel(0.2); return snapshot(p)
        return op
    os.makedirs(os.path.join(tmp, "common"), exist_ok=True)

    def rejected():
        p = ready(coma, A, (3, 20, 36)); out = []
        for f, a in ((p.set_physical_props, (1.8, 0.5, 0.1, 0.1)), (p.set_calculation_props, (3, 10, 36)), (p.crop_kernel, (0.6,))):
            try:
                f(*a); out.append("accepted")
            except ValueError:
                out.append("ValueError")
        return tuple(out), snapshot(p)

    def new():
        p = ZernPSF(pair); return tuple(z.get_mn_orders() for z in p.polynomials), p.kernel_size, p.NA, p.wavelength, np.array(p.kernel)
    return {"set coma": lambda: snapshot(ready(coma, A, (5, 21, 38))), "set several": lambda: snapshot(ready(pair, C, (7, 22, 40))), "set other coma": lambda: snapshot(ready(coma, B, (3, 25, 36))), "new several": new, "rejected": rejected,
            "plain coma": kernel(coma, A, (3, 20, 36), accelerated=False), "plain defocus": kernel(defocus, B, (3, 21, 37), accelerated=False), "plain several": kernel(pair, C, (3, 20, 36), accelerated=False), "plain several not normalized": kernel(pair, D, (3, 20, 36), accelerated=False, normalized=False),
            "Airy": kernel(piston, B, (5, 20, 36), accelerated=False), "compiled coma": kernel(coma, B, (5, 20, 36), accelerated=True), "compiled defocus": kernel(defocus, A, (3, 22, 40), accelerated=True, normalized=False), "compiled several": kernel(pair, D, (3, 22, 38), accelerated=True), "compiled high": kernel(high, A, (3, 20, 36)),
            "save coma": stored(coma, A, (3, 20, 36), "a", "save"), "save several": stored(pair, C, (3, 20, 36), "b", "save"), "read coma": stored(coma, B, (3, 21, 36), "c", "read"), "read several": stored(pair, D, (5, 20, 36), "d", "read"),
            "convolve coma": stored(coma, A, (5, 20, 36), "e", "convolve"), "convolve defocus": stored(defocus, B, (7, 20, 36), "f", "convolve"), "convolve integers": stored(pair, C, (5, 21, 36), "i", "convolve integers"), "crop coma": stored(coma, A, (9, 20, 36), "g", "crop"), "crop several": stored(pair, C, (11, 20, 36), "h", "crop"),
            "force compilation": lambda: tuple(snapshot(p)[1:] for p in zernpy.force_get_psf_compilation() or ())}


HEAVY = ("plain coma", "plain defocus", "plain several", "plain several not normalized")
REPR = ("set several", "plain defocus", "compiled several", "save several", "read coma", "crop coma", "convolve integers")
FEW = ("set several", "plain defocus", "compiled several")  # partners of the expensive operations in the quick tier
EXPENSIVE = HEAVY + ("force compilation",)
STATE = []


def setup():
    if not STATE:
        warnings.simplefilter("ignore"); ops = operations(); base = {}
        for n, f in ops.items():
            f(); base[n] = solo(f)
        STATE.append((ops, base))
    return STATE[0]


def single(c, item):
    n1, n2, which = item; ops, base = setup(); (w1, p1), (w2, _) = base[n1], base[n2]; ks = points_of(p1, which)
    for k in ks:
        outs = interleave1(ops[n1], ops[n2], k); c.states += 2; c.transitions += k; c.nontriv(hash((n1, n2, k)))
        if outs[1] is None:
            outs = (outs[0], w2)  # the point hasn't been reached in this execution
        if verdict(c, (n1, n2), (w1, w2), outs, f"'{n1}' preempted at the point {k} by '{n2}'"):
            break
    c.extra["schedules with 1 preemption"] = c.extra.get("schedules with 1 preemption", 0) + len(ks)


def double(c, item):
    n1, n2, which, part, parts = item; ops, base = setup(); (w1, p1), (w2, p2) = base[n1], base[n2]; ks, ls = points_of(p1, which), points_of(p2, which); n = 0
    for k, l in list(itertools.product(ks, ls))[part::parts]:
        outs = interleave2(ops[n1], ops[n2], k, l); c.states += 3; c.transitions += k + l; n += 1; c.nontriv(hash((n1, n2, k, l)))
        if outs[1] is None:
            outs = (outs[0], w2)
        if verdict(c, (n1, n2), (w1, w2), outs, f"'{n1}' preempted at {k} by '{n2}' preempted at {l}"):
            break
    c.extra["schedules with 2 preemptions"] = c.extra.get("schedules with 2 preemptions", 0) + n


def main():
    real_out = sys.stdout; sys.stdout = open(os.devnull, "w"); chk.rule = "one evaluation = one interleaving of two threads, both results compared with the results alone"; q = vlib.QUICK
    ops, base = setup(); names = list(ops)
    for n in names:
        again = solo(ops[n])[0]
        if base[n][0][0] != "ok" or not same(base[n][0], again):
            chk.violation(f"repeated '{n}'", f"{vlib.short(again)} after {vlib.short(base[n][0])}")
    chk.extra["scheduling points"] = {n: len(base[n][1]) for n in names}; chk.extra["distinct points"] = {n: len(points_of(base[n][1], "first")) for n in names}
    chk.run(single, [(a, b, "first" if q else "first, second and last") for a in names for b in (FEW if q and a in EXPENSIVE else REPR if q else names)], chunk=1)
    light = [n for n in names if n not in HEAVY]
    chk.run(double, [(a, b, "first", i, 8) for a, b in ([("set coma", "set several"), ("set several", "set other coma"), ("rejected", "set several"), ("set coma", "set other coma")] if q else itertools.product(light, light)) for i in range(8)], chunk=1)
    sys.stdout = real_out; chk.sample({"threads": ["plain coma", "compiled several"], "preemption": "thread 1 at its point 57 (after an access to possibly shared data)"})
    chk.assumptions = ["different PSF objects in the threads; kernels up to 11x11 with few integration points; preemptions at the first, second and last time each instruction of the package is reached (quick: the first); code of libraries and compiled code isn't interrupted"]
    chk.finish()


if __name__ == "__main__":
    vlib.main("C25", main)
