"""C24: evaluation from several threads. Two real threads of the real code under a controlled scheduler: every line and every access to shared data (stores of attributes, items, globals, calls)
of the package is a possible preemption. All interleavings with 1 (all pairs of operations) and 2 preemptions; each thread must get exactly the result it gets alone."""
import itertools
import os
import sys
import warnings
import numpy as np
import vlib
import zernpy
from vthreads import interleave1, interleave2, points_of, same, solo, verdict
from zernpy import ZernPol

chk = vlib.Check("C24", "model_checking"); chk.crash_counts = False  # tracing several threads isn't fully reliable in CPython 3.12


def operations():
    """Name: (operation on shared objects). Arguments differ between operations of the same kind."""
    a, b, c, d = ZernPol(m=-2, n=4), ZernPol(m=1, n=7), ZernPol(osa=12), ZernPol(m=3, n=11); big = ZernPol(m=40, n=42); r1, r2 = np.array([0.0, 0.3, 0.8, 1.0]), np.array([0.1, 0.55, 0.9]); t1, t2 = np.array([0.1, 2.0, 4.0, 6.0]), np.array([0.5, 3.0, 5.5])
    pols, pols2 = (ZernPol(m=0, n=0), ZernPol(m=1, n=1), ZernPol(m=0, n=2)), (ZernPol(m=-1, n=1), ZernPol(m=2, n=2)); img = np.array([[0.0, .1, .2, .3, .4], [.2, .5, .7, .4, .1], [.3, .1, .9, .5, .3], [.2, .4, .6, .1, .7], [.5, .2, .1, .3, .6]])
    img2 = 1.0 - 2.0*img.T; rv = np.array([0.0, .2, .4, .6, .8, 1.0, .3, .7]); tv = np.array([0.0, 1.0, 2.0, 3.0, 4.0, 5.0, 6.0, .5]); ph, ph2 = np.cos(3*rv), np.sin(2*tv) - rv
    return {"value a 1": lambda: a.polynomial_value(r1, t1), "value a 2": lambda: a.polynomial_value(r2, t2), "value a number": lambda: a.polynomial_value(0.4, 1.0), "value b": lambda: b.polynomial_value(r1, t1), "value a lists": lambda: a.polynomial_value(r2.tolist(), tuple(t2)), "radial b list": lambda: b.radial([0.0, 0.25, 0.5, 0.75, 1.0]), "dtheta a list": lambda: a.triangular_dtheta([0.25, 4.0]), "value a exact": lambda: a.polynomial_value(r2, t2, True),
            "value d": lambda: d.polynomial_value(r2, t2), "radial a 1": lambda: a.radial(r1), "radial a 2": lambda: a.radial(r2), "radial d number": lambda: d.radial(0.7), "radial big": lambda: big.radial(r2), "radial a exact": lambda: a.radial(r1, True),
            "derivative a 1": lambda: a.radial_dr(r1), "derivative b 2": lambda: b.radial_dr(r2), "derivative a exact": lambda: a.radial_dr(0.3, True), "triangular a 1": lambda: a.triangular(t1), "triangular a 2": lambda: a.triangular(t2), "triangular b": lambda: b.triangular(1.0),
            "dtheta a 1": lambda: a.triangular_dtheta(t1), "dtheta a 2": lambda: a.triangular_dtheta(t2), "norm a": lambda: a.normf(), "norm c": lambda: c.normf(), "names": lambda: (a.get_polynomial_name(), c.get_polynomial_name(True), str(b), a.get_indices(), a.get_mn_orders()),
            "new by m, n": lambda: ZernPol(m=-3, n=5), "new by noll": lambda: ZernPol(noll_index=9), "new by fringe": lambda: ZernPol(fringe_index=13), "comparison": lambda: (a > b, a == c, a == ZernPol(m=-2, n=4)), "invalid": lambda: ZernPol(m=2, n=3), "outside": lambda: a.radial(1.5),
            "indices": lambda: (ZernPol.get_osa_index(2, 4), ZernPol.get_noll_index(-2, 4), ZernPol.get_fringe_index(2, 4), ZernPol.index2orders(noll_index=14), ZernPol.osa2noll(17)),
            "sum 1": lambda: ZernPol.sum_zernikes([0.5, -1.0, 2.0], pols, r1, t1), "sum 2": lambda: ZernPol.sum_zernikes([1.5, 0.3], pols2, r2, t2), "sum lists": lambda: ZernPol.sum_zernikes((1.5, 0.3), list(pols2), [0.2, 0.6], (1.0, 5.0)), "surface 1": lambda: ZernPol.sum_zernikes([0.5, -1.0, 2.0], pols, r1, t2, get_surface=True),
            "surface 2": lambda: ZernPol.sum_zernikes([-0.5, 0.7], pols2, r2, t1, get_surface=True), "coordinates": lambda: tuple(ZernPol.gen_polar_coordinates(0.25, 1.0)), "mesh": lambda: tuple(ZernPol.gen_equal_polar_mesh(12)),
            "generated surface 1": lambda: tuple(ZernPol.gen_zernikes_surface([1.0, 2.0], pols2, 0.25, 1.0)), "generated surface 2": lambda: tuple(ZernPol.gen_zernikes_surface([1.0, 2.0, -1.0], pols, equal_n_coordinates=True, n_points=11)),
            "generate": lambda: zernpy.generate_polynomials(2), "image 1": lambda: zernpy.generate_phases_image(pols, (0.5, 0.2, 0.1), 7, 7), "image 2": lambda: zernpy.generate_phases_image(pols2, (-0.5, 0.4), 6, 9),
            "fit image 1": lambda: zernpy.fit_polynomials(img, pols, 1.0, True, True, True)[:2], "fit image 2": lambda: zernpy.fit_polynomials(img2, pols2, 0.9, True, False, False)[:1], "fit vectors 1": lambda: zernpy.fit_polynomials_vectors(pols, ph, rv, tv), "fit vectors 2": lambda: zernpy.fit_polynomials_vectors(pols2, ph2, rv, tv)}


REPR = ("value a 1", "value a 2", "value a lists", "sum lists", "radial big", "derivative b 2", "triangular a 2", "names", "new by noll", "invalid", "outside", "sum 2", "surface 1", "generated surface 2", "image 2", "fit image 2", "fit vectors 1", "coordinates")


def prepare():
    warnings.simplefilter("ignore"); ops = operations(); base = {}
    sys.stdout = open(os.devnull, "w") if not isinstance(sys.stdout, _Null) else sys.stdout
    for n, f in ops.items():
        solo(f); base[n] = solo(f)
    return ops, base


class _Null:
    pass


STATE = []


def setup():
    if not STATE:
        STATE.append(prepare())
    return STATE[0]


def single(c, item):
    n1, n2, which = item; ops, base = setup(); (w1, p1), (w2, _) = base[n1], base[n2]; ks = points_of(p1, which); cnt = len(p1)
    for k in ks:
        outs = interleave1(ops[n1], ops[n2], k); c.states += 2; c.transitions += cnt; c.nontriv(hash((n1, n2, k)))
        if outs[1] is None:
            outs = (outs[0], w2)  # the point hasn't been reached in this execution
        if verdict(c, (n1, n2), (w1, w2), outs, f"'{n1}' preempted at the point {k} by '{n2}'"):
            break
    c.extra["schedules with 1 preemption"] = c.extra.get("schedules with 1 preemption", 0) + len(ks)


def double(c, item):
    n1, n2, which, part, parts = item; ops, base = setup(); (w1, p1), (w2, p2) = base[n1], base[n2]; ks, ls = points_of(p1, which), points_of(p2, which); k1, k2 = len(p1), len(p2); n = 0
    for k, l in list(itertools.product(ks, ls))[part::parts]:
        outs = interleave2(ops[n1], ops[n2], k, l); c.states += 3; c.transitions += k1 + k2; n += 1; c.nontriv(hash((n1, n2, k, l)))
        if outs[1] is None:
            outs = (outs[0], w2)
        if verdict(c, (n1, n2), (w1, w2), outs, f"'{n1}' preempted at {k} by '{n2}' preempted at {l}"):
            break
    c.extra["schedules with 2 preemptions"] = c.extra.get("schedules with 2 preemptions", 0) + n


def main():
    chk.rule = "one evaluation = one interleaving of two threads, both results compared with the results alone"; q = vlib.QUICK; real_out = sys.stdout
    ops, base = setup(); names = list(ops); again = {n: solo(f)[0] for n, f in ops.items()}
    for n in names:
        if not same(base[n][0], again[n]):
            chk.violation(f"repeated '{n}'", f"{vlib.short(again[n])} after {vlib.short(base[n][0])}")
    second = names if not q else [n for n in names if n in REPR]
    chk.run(single, [(a, b, "first, second and last" if q else "all") for a in names for b in second], chunk=4)
    small = [n for n in names if len(points_of(base[n][1], "first")) <= (32 if q else 200)]
    chk.run(double, [(a, b, "first" if q else "first, second and last", i, 4) for a in (small if not q else [n for n in small if n in REPR or n.startswith(("radial", "value", "norm", "dtheta"))]) for b in small for i in range(4)], chunk=8)
    sys.stdout = real_out; chk.extra["operations"] = len(names); chk.extra["scheduling points"] = {n: len(base[n][1]) for n in names}
    chk.sample({"threads": ["surface 1", "value a 2"], "preemption": "thread 1 at its point 57 (after an access to possibly shared data)"})
    chk.assumptions = ["a preemption is possible at lines, calls and after loads / stores of attributes, globals, items in the code of the package; code of libraries isn't interrupted"] + (["1 preemption: at the first, second and last time each instruction is reached, 2 preemptions: at the first time (thorough: all, resp. first, second and last)"] if q else [])
    chk.finish()


if __name__ == "__main__":
    vlib.main("C24", main)
