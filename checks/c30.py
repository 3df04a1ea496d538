"""C30: copies. Objects copied, deeply copied or pickled after every history of operations up to a depth behave exactly as the original would; the original and the copy don't influence each other."""
import copy
import itertools
import json
import os
import pickle
import numpy as np
import vlib
from vlib import call, quiet
import zernpy
from zernpy import ZernPol, ZernPSF

chk = vlib.Check("C30", "exploration")
WAYS = {"copy": copy.copy, "deep copy": copy.deepcopy, **{f"pickle {k}": (lambda p, k=k: pickle.loads(pickle.dumps(p, k))) for k in range(pickle.HIGHEST_PROTOCOL + 1)}, "copied list": lambda p: copy.deepcopy([p, p])[1], "pickled with others": lambda p: pickle.loads(pickle.dumps((1, {"psf": p})))[1]["psf"],
        "twice": lambda p: copy.copy(pickle.loads(pickle.dumps(p)))}
FEW = ("copy", "deep copy", "pickle 4")
KINDS = {"single": ([(1, 3)], 0.1, -0.07), "Airy": ([(0, 0)], 0.2, 0.1), "several": ([(0, 2), (-1, 3)], [0.1, -0.05], [0.02, 0.13])}
PROPS = ("NA", "wavelength", "pixel_size", "pixel_size_nyquist", "k", "kernel_size", "n_int_r_points", "n_int_phi_points", "airy", "kernel")
IMG = np.arange(42.0).reshape(6, 7) % 11.0


def flat(x):
    return ("array", x.shape, str(x.dtype), x.tobytes()) if isinstance(x, np.ndarray) else (type(x).__name__,) + tuple(flat(y) for y in x) if isinstance(x, (list, tuple)) else ("pol", x.get_mn_orders()) if isinstance(x, ZernPol) else (type(x).__name__, repr(x))


def state(p):
    return tuple(flat(getattr(p, a)) for a in PROPS) + ((flat(p.expansion_coeff), flat(p.alpha), flat(p.zernpol)) if p.zernpol is not None else (flat(p.coefficients), flat(p.amplitudes), flat(p.polynomials)))


def new(kind):
    z = [ZernPol(m=m, n=n) for m, n in KINDS[kind][0]]; return ZernPSF(z[0] if len(z) == 1 else tuple(z))


def apply(kind, p, op, root):
    """Outcome of an operation: a comparable result, number of warnings included."""
    co, co2 = KINDS[kind][1:]
    f = {"props 1": lambda: p.set_physical_props(0.93, 0.55, co, 0.13), "props 2": lambda: p.set_physical_props(0.71, 0.62, co2, 0.17), "rejected": lambda: p.set_physical_props(2.0, 0.5, co, 0.1), "calculation 1": lambda: p.set_calculation_props(5, 21, 38), "calculation 2": lambda: p.set_calculation_props(3, 20, 36),
         "plain": lambda: p.calculate_psf_kernel(False, True, False, False).copy(), "not normalized": lambda: p.calculate_psf_kernel(True, False, False, False).copy(), "accelerated": lambda: p.calculate_psf_kernel(True, True, False, True).copy(), "crop": lambda: p.crop_kernel(0.45), "convolve": lambda: p.convolute_img(IMG), "read": lambda: p.read_json(os.path.join(root, "given.json")),
         "save": lambda: (p.save_json(root, True), json.load(open(p.json_file_path)))[1]}[op]
    with quiet() as w:
        try:
            if op in ("plain", "not normalized", "accelerated", "save", "convolve") and p.kernel_size > 5:  # otherwise slow
                p.set_calculation_props(3, 20, 36)
            r = ("ok", flat(f()))
        except Exception as e:
            r = ("exc", type(e).__name__)
        return r + (len(w),)


def histories(c, item):
    kind, hist, after, ways = item; root = os.path.join(vlib.SCRATCH, "tmp", f"c{os.getpid()}"); os.makedirs(root, exist_ok=True)
    with quiet():
        if not os.path.exists(os.path.join(root, "given.json")):
            g = new("single"); g.set_physical_props(0.7, 0.45, 0.03, 0.12); g.set_calculation_props(3, 20, 36); g.calculate_psf_kernel(True, True, False, False); g.save_json(root, True); os.rename(g.json_file_path, os.path.join(root, "given.json"))

    def before():
        p = new(kind)
        for op in hist:
            apply(kind, p, op, root)
        return p
    twins = {}
    for op in after:
        p = before(); r = apply(kind, p, op, root); twins[op] = (r, state(p))
    for way in ways:
        p = before(); s0 = state(p); key0 = f"{kind} {hist}, {way}"; rep = {"object": kind, "history": hist, "way": way}; res = call(WAYS[way], p); c.case(); c.nontriv((item[:2], way))
        if res[0] != "ok" or not isinstance(res[1], ZernPSF) or res[1] is p:
            c.violation(key0, f"copying: {res[1]!r}", rep); continue
        if state(res[1]) != s0 or state(p) != s0:
            c.violation(key0, f"the copy differs: {[a for a, x, y in zip(PROPS + ('coefficients', 'amplitudes', 'polynomials'), state(res[1]), s0) if x != y]}", rep); continue
        for op in after:
            for who in ("copy", "original"):
                p = before(); q = WAYS[way](p); one, two = (q, p) if who == "copy" else (p, q); key = f"{key0}, then {op} of the {who}"; c.case(); r = apply(kind, one, op, root)
                if (r, state(one)) != twins[op]:
                    c.violation(key, f"result {vlib.short(r)} / state differ from those without copying {vlib.short(twins[op][0])}", rep)
                elif state(two) != s0:
                    c.violation(key, f"the other object is changed: {[a for a, x, y in zip(PROPS + ('coefficients', 'amplitudes', 'polynomials'), state(two), s0) if x != y]}", rep)
                elif (apply(kind, two, op, root), state(two)) != twins[op] and op != "save":
                    c.violation(key, "the other object behaves differently afterwards", rep)
        if way != "copy":  # own arrays
            p = before(); q = WAYS[way](p); q.kernel[:] = -1.0
            if q.zernpol is None and q.coefficients is not None and len(q.coefficients):
                q.coefficients[:] = 9.0; q.amplitudes[:] = 9.0
            if state(p) != s0:
                c.violation(key0 + ", arrays", "arrays are shared", rep)
        q = WAYS[way](before())  # the original doesn't exist any more
        if after and (apply(kind, q, after[0], root), state(q)) != twins[after[0]]:
            c.violation(key0 + ", original deleted", "the copy behaves differently", rep)


def polynomials(c, item):
    n = item; r = np.array([0.0, 0.21, 0.5, 0.83, 1.0]); t = np.array([0.0, 0.7, 2.9, 4.4, 6.2])
    for m in range(-n, n + 1, 2):
        z = ZernPol(m=m, n=n); others = [ZernPol(m=0, n=0), ZernPol(m=1, n=1), ZernPol(m=0, n=12)]

        def all_of(z):
            with quiet():
                return flat([z.get_mn_orders(), z.get_indices(), z.get_fringe_index(m, n), z.get_polynomial_name(), z.get_polynomial_name(True), str(z), z.normf(), z.radial(r), z.radial_dr(r), z.triangular(t), z.triangular_dtheta(t), z.polynomial_value(r, t), z.polynomial_value(0.4, 1.1),
                             [z == o for o in others], [z > o for o in others], [z < o for o in others], ZernPol.sum_zernikes([0.3, -0.4], [z, others[2]] if (m, n) != (0, 12) else [z, others[1]], r, t)])
        want = all_of(z)
        for way, f in WAYS.items():
            key = f"polynomial {(m, n)}, {way}"; res = call(f, z); c.case(); c.nontriv(key)
            if res[0] != "ok" or not isinstance(res[1], ZernPol):
                c.violation(key, f"copying: {res[1]!r}"); continue
            q = res[1]
            if all_of(q) != want or all_of(z) != want or not (q == z) or not (z == q) or q != z or z < q or z > q:
                c.violation(key, "the copy behaves differently", {"orders": [m, n], "way": way}); continue
            with quiet():
                both = call(ZernPSF, [z, q])
                if both[0] == "ok":
                    c.violation(key, "a polynomial and its copy are accepted together by a PSF as different ones"); continue
                fit = call(zernpy.fit_polynomials, np.cos(np.arange(81.0)).reshape(9, 9), (q,), 1.0, True); fit0 = call(zernpy.fit_polynomials, np.cos(np.arange(81.0)).reshape(9, 9), (z,), 1.0, True)
            if fit[0] != "ok" or fit0[0] != "ok" or flat(fit[1][0]) != flat(fit0[1][0]):
                c.violation(key, "fit by the copy differs")


def main():
    chk.rule = "one evaluation = one copy used, compared with the same history without copying; non-trivial: distinct (history, way of copying)"; q = vlib.QUICK
    with quiet():
        for kind in KINDS:
            p = new(kind); p.set_physical_props(0.93, 0.55, KINDS[kind][1], 0.13); p.set_calculation_props(3, 20, 36); p.calculate_psf_kernel(True, accelerated=True)
    first = ["props 1", "props 2", "rejected", "calculation 1", "read"]; use = ["plain", "not normalized", "accelerated", "crop", "save", "props 2", "calculation 2", "read"]; after = ["plain", "accelerated", "crop", "convolve", "props 2", "calculation 2", "save", "read", "props 1"]; items = []
    for kind in KINDS:
        hs = [()] + [(a,) for a in first] + [(a, b) for a in first for b in first + use] + [(a, b, d) for a in ("props 1",) for b in (("calculation 1", "read") if q else ("calculation 1", "calculation 2", "read", "not normalized")) for d in use] + [("props 1", "calculation 1", "plain", "crop"), ("props 1", "calculation 1", "not normalized", "crop", "save"), ("props 2", "calculation 1", "accelerated", "crop")]
        if not q:
            hs += [(a, b, d, e) for a in ("props 1", "calculation 1") for b in ("calculation 1", "read", "props 2", "plain") for d in use for e in use]
        for h in hs:
            set_ = any(x.startswith("props") or x == "read" for x in h) or kind != "several"
            ok = [a for a in after if set_ or a in ("props 2", "calculation 2", "props 1", "read")]
            if not set_ and any(x in ("plain", "not normalized", "accelerated", "save") for x in h):
                continue
            items.append((kind, h, ok if len(h) < 2 or not q else ok[len(h[1]) % 4::4] + ok[:1], list(WAYS) if len(h) < 2 else FEW))
    chk.run(polynomials, list(range(0, 13 if q else 25)), chunk=1); chk.run(histories, items, chunk=2)
    chk.sample({"object": "several", "history": ["props 1", "calculation 1", "plain"], "way": "pickle 4", "then": "crop of the copy"}); chk.extra["ways of copying"] = list(WAYS)
    chk.assumptions = ["objects without initialized workers (processes can't be copied)", "a shallow copy may share arrays that the package doesn't change in place"]
    chk.finish()


if __name__ == "__main__":
    vlib.main("C30", main)
