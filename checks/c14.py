"""C14: state machine of ZernPSF objects. All sequences of operations up to a depth on one and on two objects in use at the same time, every transition
of the specification model replayed on the real objects and all public properties of all objects compared after each of them."""
import copy
import math
import os
import numpy as np
import vlib, zpsf
from vlib import call, quiet
from zernpy import ZernPol, ZernPSF, force_get_psf_compilation

chk = vlib.Check("C14", "model_checking")
# alphabet of accepted settings: (NA, wavelength, single coefficient, coefficients of several polynomials, pixel size)
PHYS = {"P1": (0.5, 0.6, -0.03, (0.05, -0.08), 0.29), "P2": (0.95, 0.55, 0.2123456789012, (-0.04, 1/9), 0.14), "P3": (0.7, 700.0, 20.0, (30.0, 90.0), 240.0)}
CALC = {"C1": (3, 20, 36), "C2": (5, 22, 40), "C3": (4, 24, 37), "C4": (97, 21, 38)}
BAD = {"B1": (0.5, 0.45, "coeff", 0.3), "B2": (0.9, 0.45, "count", 0.1), "B3": (1.8, 0.45, "coeff", 0.01), "B4": (0.9, -1.0, "coeff", 0.01)}
BADC = {"X1": (3, 20, 35), "X2": (7, 19, 50), "X3": (2, 30, 50)}
FILES = {}; EST = {}; DEFAULTS = {}; REF = {}; COLLECT = []
CONFIGS = {"two objects": [((1, 3),), ((1, 3), (0, 2))], "single": [((-2, 2),)], "Airy": [((0, 0),)], "several": [((2, 2), (0, 4))],
           "two singles": [((1, 3),), ((0, 2),)], "two sequences": [((1, 3), (0, 2)), ((1, 1), (-2, 2))],
           "six": [((1, 3), (0, 2), (-2, 2), (2, 4), (1, 1), (-3, 3))], "list of one": [((-1, 3),)]}
DEF_OPS = ["P1", "P2", "B1", "B2", "C1", "C2", "X1", "K", "KU", "KP", "CROP", "SAVE", "READ1", "READ2", "READBAD", "MUT", "MUTK"]


class Spec:
    """Specification of one object: its latest accepted settings and its kernel."""

    def __init__(self, orders):
        self.orders = orders; d = DEFAULTS; self.NA = d["NA"]; self.wl = d["wavelength"]; self.px = d["pixel_size"]
        self.coeffs = (d["expansion_coeff"],) if len(orders) == 1 else None
        self.size = d["kernel_size"]; self.nr = d["n_int_r_points"]; self.nphi = d["n_int_phi_points"]; self.phys = False; self.kernel = np.ones((1, 1))

    def key(self):
        return (self.orders, self.NA, self.wl, self.px, self.coeffs, self.size, self.nr, self.nphi, self.phys, self.kernel.shape, round(float(self.kernel.sum()), 9))


def ref_kernel(s, normalized=True):
    k = (s.orders, s.NA, s.wl, s.px, s.coeffs, s.size, s.nr, s.nphi)
    if k not in REF:
        REF[k] = zpsf.kernel(s.orders, s.coeffs, s.NA, s.wl, s.px, s.size, zpsf.rule(s.nr, s.nphi))
    r = REF[k]
    return r/r.max() if normalized else r


def airy_kernel(s, normalized=True):
    r = zpsf.airy(zpsf.geometry(s.size, s.NA, s.wl, s.px)[0]).reshape(s.size, s.size)
    return r/r.max() if normalized else r


def spec_crop(k, part):
    n = k.shape[0]; a = 0
    while n - 2*a > 3 and max(k[a, :].max(), k[n - 1 - a, :].max(), k[:, a].max(), k[:, n - 1 - a].max()) < part*k.max():
        a += 1
    return k[a:n - a, a:n - a].copy()


def observe(p):
    """All public properties of an object."""
    pols = [p.zernpol] if p.zernpol is not None else list(p.polynomials)
    co = (p.expansion_coeff,) if p.zernpol is not None else tuple(p.coefficients) if p.coefficients is not None else None
    al = (p.alpha,) if p.zernpol is not None else tuple(p.amplitudes) if p.amplitudes is not None else None
    return {"orders": tuple(z.get_mn_orders() for z in pols), "NA": p.NA, "wavelength": p.wavelength, "pixel_size": p.pixel_size, "coefficients": co, "amplitudes": al,
            "k": p.k, "pixel_size_nyquist": p.pixel_size_nyquist, "kernel_size": p.kernel_size, "n_int_r_points": p.n_int_r_points,
            "n_int_phi_points": p.n_int_phi_points, "airy": p.airy}


def expect(s):
    return {"orders": s.orders, "NA": s.NA, "wavelength": s.wl, "pixel_size": s.px, "coefficients": s.coeffs, "amplitudes": s.coeffs and tuple(c/s.wl for c in s.coeffs),
            "k": 2*math.pi/s.wl, "pixel_size_nyquist": 0.25*s.wl/s.NA, "kernel_size": s.size, "n_int_r_points": s.nr, "n_int_phi_points": s.nphi, "airy": (0, 0) in s.orders}


def differ(obs, exp):
    out = []
    for k, e in exp.items():
        o = obs[k]
        if isinstance(e, float) or (isinstance(e, tuple) and k in ("coefficients", "amplitudes")):
            ok = o is not None and np.shape(o) == np.shape(e) and np.allclose(o, e, rtol=1e-12, atol=0)
        else:
            ok = o == e
        if not ok:
            out.append(f"{k} is {o!r} instead of {e!r}")
    return out


def many(cs, n):
    """The coefficients for n polynomials."""
    return tuple(cs[i % 2]/(1 + i//2) for i in range(n))


def new(orders):
    pols = [ZernPol(m=m, n=n) for m, n in orders]
    with quiet():
        return ZernPSF(pols[0] if len(pols) == 1 and orders != ((-1, 3),) else pols), pols


class World:
    def __init__(self, config):
        self.psf = []; self.spec = []; self.args = []
        for o in CONFIGS[config]:
            p, pols = new(o); self.psf.append(p); self.spec.append(Spec(o)); self.args.append([pols, []])

    def enabled(self, i, op):
        s = self.spec[i]
        if op in ("K", "KU", "KP", "KD"):
            return (s.phys or len(s.orders) == 1) and s.nr <= 40 and s.size <= (5 if op == "KP" else 25) and s.size >= 3
        return True

    def apply(self, i, op):
        """Do the operation on the real object and on its specification; returns None or a description of the difference."""
        p, s = self.psf[i], self.spec[i]; single = len(s.orders) == 1; want_error = False; norm = True
        if op in PHYS:
            NA, wl, c1, cs, px = PHYS[op]; cs = many(cs, len(s.orders)); co = (c1 if op != "P2" else [c1]) if single else list(cs); self.args[i][1] = co
            res = call(p.set_physical_props, NA, wl, co, px); s.NA, s.wl, s.px = NA, wl, px; s.coeffs = (c1,) if single else cs
            s.phys = True; s.size = EST[(s.orders, op)]
        elif op in BAD:
            NA, wl, kind, px = BAD[op]; co = 0.123 if single else [0.11, -0.12]*(len(s.orders)//2)
            if kind == "count":
                co = [0.1, 0.2] if single else [0.1]*(len(s.orders) + 1)
            res = call(p.set_physical_props, NA, wl, co, px); want_error = True
        elif op in CALC:
            res = call(p.set_calculation_props, *CALC[op]); s.size, s.nr, s.nphi = CALC[op]; s.size += 1 - s.size % 2; s.nphi += s.nphi % 2
        elif op in BADC:
            res = call(p.set_calculation_props, *BADC[op]); want_error = True
        elif op in ("K", "KU", "KP", "KD"):
            norm = op != "KU"; res = call(p.calculate_psf_kernel, True, norm, False, {"K": True, "KU": True, "KP": False, "KD": None}[op])
            if res[0] == "ok":
                if res[1] is not p.kernel and not np.array_equal(res[1], p.kernel):
                    return "the returned kernel isn't the stored one"
                ok = [w for w in ([ref_kernel(s, norm)] + ([airy_kernel(s, norm)] if s.orders == ((0, 0),) else [])) if w.shape == np.shape(res[1]) and np.all(np.abs(res[1] - w) <= 1e-9)]
                if not ok:
                    return f"calculated kernel {vlib.short(res[1], 150)} isn't the one of the latest accepted settings {vlib.short(ref_kernel(s, norm), 150)}"
                s.kernel = np.array(res[1])
        elif op == "CROP":
            res = call(p.crop_kernel, 0.3)
            if s.kernel.shape[0] > 3:
                k = spec_crop(s.kernel, 0.3)
                if k.shape != s.kernel.shape:
                    s.kernel = k; s.size = k.shape[0]
        elif op == "CROPBAD":
            res = call(p.crop_kernel, 0.5); want_error = True
        elif op == "SAVE":
            folder = os.path.join(vlib.SCRATCH, "tmp", f"p{os.getpid()}"); os.makedirs(folder, exist_ok=True); res = call(p.save_json, folder, True)
            if s.kernel.shape[0] > 1 and s.coeffs is not None:  # a not calculated PSF may be saved or not
                if res[0] == "ok" and not os.path.isfile(p.json_file_path):
                    return "no file saved"
            else:
                res = ("ok", None)
        elif op in ("READ1", "READ2"):
            path, f = FILES[op]; res = call(p.read_json, path); s.orders, s.NA, s.wl, s.coeffs, s.px, s.size, s.nr, s.nphi, s.kernel = f; s.phys = True; s.kernel = s.kernel.copy()
        elif op == "READBAD":
            res = call(p.read_json, FILES[op])
        elif op == "MUT":  # the caller changes what has been passed before
            pols, co = self.args[i]; res = ("ok", None); other = ZernPol(m=5, n=5)
            for j in range(len(pols)):
                pols[j] = other
            if isinstance(co, list):
                for j in range(len(co)):
                    co[j] = 77.0
        elif op == "MUTK":  # the caller changes the kernel of this object
            p.kernel[0, 0] = 0.71; s.kernel[0, 0] = 0.71; p.kernel *= 0.9; s.kernel *= 0.9; res = ("ok", None)
        elif op == "FORCE":
            res = call(force_get_psf_compilation)
        else:
            raise KeyError(op)
        if want_error:
            if res[0] == "ok" or not isinstance(res[1], ValueError):
                return f"expected ValueError, got {res[1]!r}"
        elif res[0] != "ok":
            return f"raised {res[1]!r}"
        return self.compare()

    def compare(self):
        for j, (p, s) in enumerate(zip(self.psf, self.spec)):
            d = differ(observe(p), expect(s))
            if p.kernel.shape != s.kernel.shape or not np.all(np.abs(p.kernel - s.kernel) <= 1e-9):
                d.append(f"kernel is {vlib.short(p.kernel, 150)} instead of {vlib.short(s.kernel, 150)}")
            if d:
                return f"object {j}: " + "; ".join(d)
        return None

    def final(self):
        """The next calculated kernel of each object (with small calculation settings), and a new object has the initial properties."""
        w = copy.deepcopy(self)
        for i, s in enumerate(w.spec):
            e = w.apply(i, "C1")
            if e is None and w.enabled(i, "K"):
                e = w.apply(i, "K")
            if e:
                return f"next calculation of object {i}: {e}"
        p, _ = new(((1, 3),)); d = differ(observe(p), expect(Spec(((1, 3),))))
        if d or p.kernel.shape != (1, 1) or p.kernel[0, 0] != 1.0:
            return "properties of a new object: " + "; ".join(d)


def explore(c, item):
    """All sequences with the given prefix."""
    config, prefix, depth, ops = item; w = World(config); n = len(w.psf)
    for i, op in prefix:
        if not w.enabled(i, op):
            return
        e = w.apply(i, op); c.transitions += 1
        if e:
            c.violation(f"{config}: {prefix}", e, {"objects": CONFIGS[config], "history": prefix}); return
    seen = set()

    def rec(w, hist):
        e = w.final(); c.traces += 1; c.case(); seen.add(repr([s.key() for s in w.spec]))
        if e:
            c.violation(f"{config}: {hist}", e, {"objects": CONFIGS[config], "history": hist}); return
        if len(hist) == depth:
            return
        for i in range(n):
            for op in ops:
                if not w.enabled(i, op) or len(c.violations) > 10:
                    continue
                v = copy.deepcopy(w); e = v.apply(i, op); c.transitions += 1; h = hist + ((i, op),)
                if e:
                    c.violation(f"{config}: {h}", e, {"objects": CONFIGS[config], "history": h}); continue
                rec(v, h)
    rec(w, prefix); c.extra["distinct model states"] = c.extra.get("distinct model states", set()) | {hash(x) for x in seen}


def prepare():
    """Tables of the model: class defaults, estimated kernel sizes of fresh objects, files."""
    p, _ = new(((1, 3),)); DEFAULTS.update({a: getattr(p, a) for a in ("NA", "wavelength", "pixel_size", "expansion_coeff", "kernel_size", "n_int_r_points", "n_int_phi_points")})
    allo = {o for c in CONFIGS.values() for o in c} | {((0, 2),), ((-1, 1), (2, 2))}
    for o in sorted(allo):
        for nm, (NA, wl, c1, cs, px) in PHYS.items():
            q, _ = new(o)
            with quiet():
                q.set_physical_props(NA, wl, c1 if len(o) == 1 else many(cs, len(o)), px)
            EST[(o, nm)] = q.kernel_size
            if not isinstance(q.kernel_size, (int, np.integer)) or q.kernel_size < 3 or q.kernel_size % 2 == 0:
                chk.violation(f"estimated size {o} {nm}", f"estimated kernel size {q.kernel_size!r} isn't an odd integer >= 3")
    tmp = os.path.join(vlib.SCRATCH, "tmp")
    for nm, o, co, st, ca in (("READ1", ((0, 2),), (-0.19,), (0.65, 0.5, 0.16), (7, 21, 38)), ("READ2", ((-1, 1), (2, 2)), (0.12, 0.07), (0.85, 0.62, 0.18), (5, 25, 44))):
        q, _ = new(o); os.makedirs(os.path.join(tmp, nm), exist_ok=True)
        with quiet():
            q.set_physical_props(st[0], st[1], co[0] if len(o) == 1 else co, st[2]); q.set_calculation_props(*ca); q.calculate_psf_kernel(True, True, False, True)
            q.save_json(os.path.join(tmp, nm), True)
        FILES[nm] = (q.json_file_path, (o, st[0], st[1], co, st[2], *ca, q.kernel.copy()))
    bad = os.path.join(tmp, "bad.json"); text = open(FILES["READ1"][0]).read().replace('"NA"', '"Something"')
    with open(bad, "w") as f:
        f.write(text)
    FILES["READBAD"] = bad


def main():
    chk.rule = "one trace = one sequence of operations on the real objects; after each operation all public properties of all objects equal those of the specification model, after each sequence the next kernels do"
    prepare(); q = vlib.QUICK; full = DEF_OPS + ["P3", "B3", "B4", "C3", "C4", "X2", "X3", "KD", "CROPBAD"]
    plan = [("two objects", 2, full + ["FORCE"]), ("two objects", 3, DEF_OPS), ("single", 3, full), ("several", 3, full), ("Airy", 3, DEF_OPS),
            ("two singles", 2, DEF_OPS), ("two sequences", 2, DEF_OPS), ("six", 3, ["P1", "P2", "B2", "C1", "C4", "K", "KP", "READ1", "MUT"]), ("list of one", 3, ["P1", "P2", "B2", "C1", "C4", "K", "READ2", "MUT"]),
            ("single", 4, ["P1", "B1", "B2", "C2", "X1", "K", "CROP", "READ2", "READBAD"]), ("several", 4, ["P1", "B1", "B2", "C2", "X1", "K", "CROP", "READ1", "MUT"])]
    if not q:
        plan += [("two objects", 4, ["P1", "B1", "B2", "C2", "X1", "K", "CROP", "READ1", "READ2", "MUT"]), ("single", 5, ["P1", "P2", "B1", "C2", "X1", "K", "CROP", "READ2", "KP"]),
                 ("several", 5, ["P1", "P2", "B2", "C2", "X1", "K", "CROP", "READ1", "MUT"]), ("Airy", 4, DEF_OPS), ("two singles", 3, full), ("two sequences", 3, full), ("single", 4, full), ("several", 4, full)]
    items = []
    for config, depth, ops in plan:
        n = len(CONFIGS[config]); e0 = World(config).compare()
        if e0:
            chk.violation(f"{config}: new object", e0)
        first = [(i, op) for i in range(n) for op in ops]
        items += [(config, (a,), depth, ops) for a in first] if depth < 4 else [(config, (a, b), depth, ops) for a in first for b in first]
    chk.run(explore, items, chunk=1)
    chk.states = len(chk.extra.get("distinct model states", ())); chk.extra["distinct model states"] = chk.states
    chk.sample({"history": [(0, "P1"), (0, "K"), (1, "P2"), (0, "B1")], "meaning": "(object, operation): accepted / rejected settings, calculation, crop, file, changed arguments of the caller"})
    chk.extra["alphabet"] = ", ".join(full + ["FORCE"]); chk.extra["depths"] = str([(a, b, len(o)) for a, b, o in plan])
    chk.assumptions = ["settings from the alphabet; kernels up to 25x25 with few integration points", "the kernel size estimated for new physical properties is the one a fresh object gets"]
    chk.finish()


if __name__ == "__main__":
    vlib.main("C14", main)
