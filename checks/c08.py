"""C08: generated polar coordinates cover the whole unit disk exactly, for every step / number of points on a fine grid of arguments."""
import math
import numpy as np
import vlib
from vlib import call
from zernpy import ZernPol

chk = vlib.Check("C08", "exploration")


def axis(c, key, v, end, step):
    c.case()
    if not isinstance(v, np.ndarray) or v.ndim != 1 or len(v) < 2:
        c.violation(key, f"{key}: not a vector: {vlib.short(v)}"); return
    if v[0] != 0.0 or not np.all((v >= 0.0) & (v <= end)):
        c.violation(key, f"{key}: values outside of [0, {end}]: first {v[0]!r}, min {v.min()!r}, max {v.max()!r}"); return
    if abs(v[-1] - end) > 1e-12:
        c.violation(key, f"{key}: the last value {v[-1]!r} instead of {end!r}"); return
    d = np.diff(v)
    if np.any(d < 0.0):
        c.violation(key, f"{key}: not ascending"); return
    if not np.all(np.abs(v[:-1] - step*np.arange(len(v) - 1)) <= 1e-12*(1 + len(v))) or d[-1] > step*(1 + 1e-9):
        c.violation(key, f"{key}: not equidistant with the step {step!r}"); return
    if np.count_nonzero(d <= 1e-12) > 1 or (len(d) > 1 and np.any(d[:-1] <= 1e-12)):
        c.violation(key, f"{key}: repeated values")


def steps(c, item):
    rs, ts = item; key = f"gen_polar_coordinates({rs!r},{ts!r})"; res = call(ZernPol.gen_polar_coordinates, rs, ts)
    if res[0] != "ok":
        c.case(); c.violation(key, f"raised {res[1]!r}"); return
    p = res[1]
    if p[0] is not p.R or p[1] is not p.Theta or len(p) != 2:
        c.violation(key, "not a named tuple (R, Theta)"); return
    axis(c, key + ".R", p.R, 1.0, rs); axis(c, key + ".Theta", p.Theta, 2*math.pi, ts); c.nontriv(key)
    if len(p.R) < 60 and len(p.Theta) < 60:  # the coordinates are accepted by the evaluation, without warnings
        z = ZernPol(m=1, n=1)
        with vlib.quiet() as w:
            s = ZernPol.sum_zernikes([1.0], [z], p.R, p.Theta, get_surface=True)
        c.case()
        if len(w) or s.shape != (len(p.R), len(p.Theta)):
            c.violation(key, f"{key}: evaluation on the coordinates: {len(w)} warnings, shape {s.shape}")


def equal(c, n):
    key = f"gen_equal_polar_mesh({n})"; res = call(ZernPol.gen_equal_polar_mesh, n); k = max(n, 4)
    if res[0] != "ok":
        c.case(); c.violation(key, f"raised {res[1]!r}"); return
    p = res[1]
    if len(p.R) != k or len(p.Theta) != k:
        c.violation(key, f"{len(p.R)} radii, {len(p.Theta)} angles instead of {k}"); return
    axis(c, key + ".R", p.R, 1.0, 1.0/(k - 1)); axis(c, key + ".Theta", p.Theta, 2*math.pi, 2*math.pi/(k - 1)); c.nontriv(key)


def invalid(c, _):
    for bad in (0.0, 0, -0.0, -0.01, -1, float("nan"), float("-inf"), float("inf"), 1e3):
        for args in ((bad, 0.1), (0.1, bad), (bad, bad)):
            res = call(ZernPol.gen_polar_coordinates, *args); c.case()
            if res[0] == "ok" or not isinstance(res[1], ValueError):
                c.violation(f"gen_polar_coordinates{args}", f"expected ValueError, got {vlib.short(res[1])}")
    for args in ((0.5000001, 0.1), (0.51, 0.1), (1.0, 0.1), (0.1, 3.2), (0.1, math.pi + 1e-9), (0.1, 7.0)):
        res = call(ZernPol.gen_polar_coordinates, *args); c.case()
        if res[0] == "ok" or not isinstance(res[1], ValueError):
            c.violation(f"gen_polar_coordinates{args}", f"expected ValueError, got {vlib.short(res[1])}")


def main():
    m = 1 if vlib.QUICK else 4
    rsteps = sorted({k/(1000*m) for k in range(1, 500*m + 1)} | {1/k for k in range(2, 600*m)} | {0.5, 1/3, 0.1 + 1e-17, 0.49999999, 1e-4, 1e-5, 3.7e-5, 1/7919, 1/65536, 2.3e-6} | {k*1e-5 for k in range(2, 200, 1 if m > 1 else 3)} | {k*7e-5 + 3e-7 for k in range(1, 60)})
    tsteps = sorted({math.pi*k/(720*m) for k in range(1, 720*m + 1)} | {k/(200*m) for k in range(1, 628*m + 1) if k/(200*m) <= math.pi} | {2*math.pi/k for k in range(2, 500*m)} |
                    {round(math.pi/240, 7), round(math.pi/180, 7), math.pi, 3, 1e-4, 1e-5, 2*math.pi/7919, 2*math.pi/65536, 7.7e-6} | {k*1e-4 for k in range(1, 120)} | {k*7e-4 + 3e-6 for k in range(1, 60)})
    n = max(len(rsteps), len(tsteps)); items = [(rsteps[i % len(rsteps)], tsteps[(7*i) % len(tsteps)]) for i in range(len(rsteps)*1)]
    items += [(rsteps[(11*i) % len(rsteps)], tsteps[i]) for i in range(len(tsteps))]
    chk.rule = "one evaluation = one generated vector checked; non-trivial: distinct arguments"
    chk.run(steps, items); chk.run(equal, [*range(-5, 700*m), *range(700*m, 3000, 13), *range(997, 1030), *(2**k + d for k in range(11, 18) for d in (-1, 0, 1)), 3001, 5000, 7919, 10007, 100000]); invalid(chk, 0)
    p = ZernPol.gen_polar_coordinates(); axis(chk, "default.R", p.R, 1.0, 0.01); axis(chk, "default.Theta", p.Theta, 2*math.pi, round(math.pi/240, 7))
    chk.sample({"r_step": 0.3, "R": [float(x) for x in ZernPol.gen_polar_coordinates(0.3, 1.0).R]})
    chk.assumptions = [f"{len(rsteps)} radial steps, {len(tsteps)} angular steps; the end point may be repeated within rounding"]
    chk.finish()


if __name__ == "__main__":
    vlib.main("C08", main)
