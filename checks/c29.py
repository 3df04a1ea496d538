"""C29: interrupted operations. An exception arrives at the lines of the package executed by an operation on PSF objects or polynomials (each executed line, its first, second and last
execution); afterwards repeating the operation, other operations, other and new objects give exactly the results as without the interruption."""
import json
import os
import signal
import sys
import warnings
import numpy as np
import vlib
from vlib import quiet
import zernpy
from zernpy import ZernPol, ZernPSF

chk = vlib.Check("C29", "fault_enumeration")
PACKAGE = os.path.dirname(zernpy.__file__)


class Stop(Exception):
    """Raised by a handler of a signal."""


EXC = {"KeyboardInterrupt": KeyboardInterrupt, "exception of a signal handler": Stop, "MemoryError": MemoryError}
INSIDE = {}


def inside(code):
    if code not in INSIDE:
        INSIDE[code] = code.co_filename.startswith(PACKAGE)
    return INSIDE[code]


def traced(f, at=None, exc=None):
    """Run f, an exception arrives at the line number 'at' (counted over the whole run). Returns (outcome, executed lines)."""
    lines = []

    def local(frame, event, arg):
        if event == "line":
            lines.append((frame.f_code.co_filename, frame.f_lineno))
            if len(lines) - 1 == at:
                raise exc()
        return local

    def tracer(frame, event, arg):
        return local if inside(frame.f_code) else None
    with quiet():
        before = outside()
        sys.settrace(tracer)
        try:
            r = ("ok", f())
        except BaseException as e:
            r = ("exc", type(e))
        finally:
            sys.settrace(None)
        LEFT[:] = [n for n, a, b in zip(OUTSIDE, before, outside()) if a != b]
        np.seterr(**before[1]); os.chdir(before[4]); sys.setrecursionlimit(before[5])
    return r, lines


def chosen(lines, few):
    """The first, second and last executions of each line."""
    seen = {}
    for k, l in enumerate(lines):
        seen.setdefault(l, []).append(k)
    return sorted({k for v in seen.values() for k in (v[:1] + v[-1:] if few else v[:2] + v[len(v)//2:len(v)//2 + 1] + v[-1:])})


def flat(x):
    """Comparable representation of a result."""
    if isinstance(x, np.ndarray):
        return ("array", x.shape, str(x.dtype), x.tobytes())
    if isinstance(x, (list, tuple)):
        return (type(x).__name__,) + tuple(flat(y) for y in x)
    if isinstance(x, ZernPol):
        return ("pol", x.get_mn_orders())
    if isinstance(x, ZernPSF):
        return ("psf", state(x))
    return (type(x).__name__, repr(x))


PROPS = ("NA", "wavelength", "pixel_size", "k", "kernel_size", "n_int_r_points", "n_int_phi_points", "airy", "kernel")


def state(p):
    return tuple(flat(getattr(p, a)) for a in PROPS) + ((flat(p.expansion_coeff), flat(p.alpha)) if p.zernpol is not None else (flat(p.coefficients), flat(p.amplitudes)))


def P(*mn):
    return [ZernPol(m=m, n=n) for m, n in mn]


KINDS = {"single": ([(1, 3)], 0.1, -0.07), "Airy": ([(0, 0)], 0.2, 0.1), "several": ([(0, 2), (-1, 3)], [0.1, -0.05], [0.02, 0.13]), "high order": ([(9, 11)], 0.1, 0.05)}
BEFORE = ("new", "set", "calculated", "not normalized")
OPS = ("props", "calculation", "plain", "plain with warnings", "accelerated", "without workers", "crop", "convolve", "save", "read")


def build(kind, before):
    """(object, coefficients)."""
    orders, co, co2 = KINDS[kind]; z = P(*orders); p = ZernPSF(z[0] if len(z) == 1 else tuple(z))
    if before != "new":
        p.set_physical_props(0.93, 0.55, co, 0.13)
    if before in ("calculated", "not normalized"):
        p.set_calculation_props(5, 21, 38); p.calculate_psf_kernel(True, before == "calculated", False, False)
    elif before == "set":
        p.set_calculation_props(3, 20, 36)
    return p


def operation(kind, name, p, folder, img):
    co2 = KINDS[kind][2]
    if name == "props":
        return p.set_physical_props(0.81, 0.5, co2, 0.11)
    if name == "calculation":
        return p.set_calculation_props(3, 24, 40)
    if name in ("plain", "plain with warnings", "accelerated"):
        return p.calculate_psf_kernel(name != "plain with warnings", name != "plain with warnings", False, name == "accelerated").copy()
    if name == "without workers":
        return p.get_kernel_parallel().copy()
    if name == "crop":
        return p.crop_kernel(0.4)
    if name == "convolve":
        return p.convolute_img(img)
    if name == "save":
        p.save_json(folder, True)
        with open(p.json_file_path) as f:
            return json.load(f)
    return p.read_json(os.path.join(folder, "given.json"))


OUTSIDE = ("filters of warnings", "numpy settings of errors", "stdout", "stderr", "current folder", "recursion limit", "numpy settings of printing", "signal handlers"); LEFT = []


def outside():
    """State that an operation must not leave changed."""
    return (list(warnings.filters), np.geterr(), sys.stdout, sys.stderr, os.getcwd(), sys.getrecursionlimit(), str(np.get_printoptions()), (signal.getsignal(signal.SIGINT), signal.getsignal(signal.SIGALRM)))


def psf(c, item):
    kind, before, name, excname, few = item; folder = os.path.join(vlib.SCRATCH, "tmp", f"i{os.getpid()}"); os.makedirs(folder, exist_ok=True); img = np.arange(30.0).reshape(5, 6); imgc = img.copy()
    with quiet():
        g = ZernPSF(ZernPol(m=2, n=4)); g.set_physical_props(0.7, 0.45, 0.03, 0.12); g.set_calculation_props(3, 20, 36); g.calculate_psf_kernel(True, True, False, False)
        for f in os.listdir(folder):
            os.unlink(os.path.join(folder, f))
        g.save_json(folder, True); os.rename(g.json_file_path, os.path.join(folder, "given.json"))
        other = build("several", "calculated"); keep = state(other); fresh = state(ZernPSF(ZernPol(m=1, n=3)))
        orders, co, co2 = KINDS[kind]; q = build(kind, "new"); q.set_physical_props(0.66, 0.61, co2, 0.17); q.set_calculation_props(3, 22, 37); redo = q.calculate_psf_kernel(True, True, False, False).copy()
    with quiet():
        p = build(kind, before); kernel0 = p.kernel.copy(); state0 = state(p); kept = [i for i in range(len(state0)) if (PROPS + ("", ""))[i] not in ("kernel", "kernel_size")]; out0, lines = traced(lambda: operation(kind, name, p, folder, img)); state1 = state(p); kernel1 = p.kernel.copy()
        if out0[0] == "ok":
            out1 = flat(operation(kind, name, p, folder, img)); state2 = state(p)
    if out0[0] != "ok":
        c.case(); c.violation(f"{item}", f"raised {out0[1]}"); return
    want = flat(out0[1]); c.extra["lines executed"] = c.extra.get("lines executed", 0) + len(lines)
    for k in chosen(lines, few):
        for then in ("repeated", "other settings") if name != "read" and (k % 3 == 0 or len(lines) < 60) else ("repeated",):
            with quiet():
                p = build(kind, before)
                if name == "save" and k % 2:
                    p.save_json(folder, True)
            out, _ = traced(lambda: operation(kind, name, p, folder, img), k, EXC[excname]); c.case(); c.nontriv((item, k)); where = f"{os.path.basename(lines[k][0])}:{lines[k][1]}"
            key = f"{kind} {before}, {name}: {excname} at the executed line {k} ({where}), then {then}"; rep = {"object": kind, "before": before, "operation": name, "exception": excname, "line": k, "where": where}; bad = None
            kern = np.asarray(p.kernel)
            if LEFT:
                bad = f"left changed: {LEFT}"
            elif name not in ("props", "calculation", "read") and any(state(p)[i] != state0[i] for i in kept):
                bad = f"settings of the object are changed: {[(PROPS + ('coefficients', 'amplitudes'))[i] for i in kept if state(p)[i] != state0[i]]}"
            elif not np.array_equal(img, imgc):
                bad = "the image of the caller is changed"; img[:] = imgc
            elif name not in ("crop", "read") and not any(kern.shape == w.shape and np.allclose(kern/max(kern.max(), 1e-300), w/max(w.max(), 1e-300), rtol=0, atol=1e-9) for w in (kernel0, kernel1)):
                bad = f"the kernel afterwards is neither the previous nor the complete new one: {vlib.short(kern)}"
            elif name == "save" and any(f.endswith(".json") and f != "given.json" and not complete(os.path.join(folder, f)) for f in os.listdir(folder)):
                bad = "an incomplete file"
            if bad is None:
                with quiet():
                    try:
                        if then == "repeated":
                            r = flat(operation(kind, name, p, folder, img)); s = state(p)
                            if r != want and r != out1:
                                bad = f"result of the repeated operation is {vlib.short(r)} instead of {vlib.short(want)}"
                            elif name == "crop" and s[PROPS.index("kernel")] != state1[PROPS.index("kernel")] or name != "crop" and s != state1 and s != state2:
                                bad = f"the object differs in {[a for a, x, y in zip(PROPS + ('coefficients', 'amplitudes'), s, state1) if x != y]} after repeating the operation"
                        else:
                            p.set_physical_props(0.66, 0.61, co2, 0.17); p.set_calculation_props(3, 22, 37); r = p.calculate_psf_kernel(True, True, False, False)
                            if not np.array_equal(r, redo):
                                bad = f"later calculation gives {vlib.short(r)} instead of {vlib.short(redo)}"
                    except Exception as e:
                        bad = f"raised {e!r}"
                    if bad is None and state(other) != keep:
                        bad = "another object is changed"; other = build("several", "calculated")
                    if bad is None and state(ZernPSF(ZernPol(m=1, n=3))) != fresh:
                        bad = "new objects are changed"
            if bad:
                c.violation(key, bad, rep)
                if len(c.violations) >= 4:
                    return


def complete(path):
    try:
        with open(path) as f:
            return set(json.load(f)) >= {"PSF Kernel", "NA", "Wavelength"}
    except ValueError:
        return False


def functions():
    """Operations without PSF objects: (name, function of shared arguments)."""
    a, b = ZernPol(m=-2, n=4), ZernPol(m=1, n=7); big = ZernPol(m=20, n=24); r, t = np.array([0.0, 0.3, 0.8, 1.0]), np.array([0.1, 2.0, 4.0, 6.1]); pols = (ZernPol(m=0, n=0), ZernPol(m=1, n=1), ZernPol(m=0, n=2)); co = [0.5, -1.0, 2.0]
    img = np.cos(np.arange(49.0)).reshape(7, 7); ph = np.cos(3*np.linspace(0, 1, 8)); rv, tv = np.linspace(0, 1, 8), np.linspace(0, 6, 8); shared = (r, t, img, ph, rv, tv, co)
    return shared, {"value": lambda: a.polynomial_value(r, t), "value of a number": lambda: a.polynomial_value(0.3, 1.0), "value of high order": lambda: big.polynomial_value(r, t), "radial": lambda: b.radial(r), "radial exact": lambda: b.radial(r, True),
                    "derivative": lambda: b.radial_dr(r), "derivative exact": lambda: a.radial_dr(r, True), "triangular": lambda: a.triangular(t), "dtheta": lambda: b.triangular_dtheta(t), "normf": lambda: a.normf(), "names": lambda: (str(a), a.get_polynomial_name()),
                    "sum": lambda: ZernPol.sum_zernikes(co, pols, r, t), "surface": lambda: ZernPol.sum_zernikes(co, pols, r, t, get_surface=True), "coordinates": lambda: tuple(ZernPol.gen_polar_coordinates(0.25, 1.0)), "mesh": lambda: tuple(ZernPol.gen_equal_polar_mesh(6)),
                    "generated surface": lambda: tuple(ZernPol.gen_zernikes_surface(co, list(pols), 0.25, 1.0)), "generate": lambda: zernpy.generate_polynomials(3), "phases image": lambda: zernpy.generate_phases_image(pols, (0.5, 0.2, 0.1), 7, 7),
                    "fit image": lambda: zernpy.fit_polynomials(img, pols, 1.0, True, True, return_cropped_image=True)[:2], "fit of vectors": lambda: zernpy.fit_polynomials_vectors(pols, ph, rv, tv), "new": lambda: (ZernPol(m=-3, n=5), ZernPol(noll_index=9), ZernPol(fringe_index=13)),
                    "indices": lambda: (ZernPol.get_osa_index(2, 4), ZernPol.get_noll_index(-2, 4), ZernPol.get_fringe_index(2, 4), ZernPol.index2orders(noll_index=14))}


def evaluations(c, item):
    name, excname, few = item; shared, fs = functions(); before = [flat(x) for x in shared]; f = fs[name]
    with quiet():
        every = {n: flat(g()) for n, g in fs.items()}
    out0, lines = traced(f)
    if out0[0] != "ok":
        c.case(); c.violation(f"{name}", f"raised {out0[1]}"); return
    for k in chosen(lines, few):
        traced(f, k, EXC[excname]); c.case(); c.nontriv((item, k)); where = f"{os.path.basename(lines[k][0])}:{lines[k][1]}"; key = f"{name}: {excname} at the executed line {k} ({where})"; rep = {"operation": name, "line": k, "where": where}; bad = None
        if LEFT:
            bad = f"left changed: {LEFT}"
        elif [flat(x) for x in shared] != before:
            bad = "arguments of the caller are changed"
        else:
            with quiet():
                try:
                    for n in [name] + (list(fs) if k % 5 == 0 else []):
                        if flat(fs[n]()) != every[n]:
                            bad = f"later '{n}' gives a different result"; break
                except Exception as e:
                    bad = f"later call raised {e!r}"
        if bad:
            c.violation(key, bad, rep)
            if len(c.violations) >= 4:
                return


def main():
    chk.rule = "one evaluation = one operation interrupted at one executed line, everything afterwards compared with the uninterrupted one; non-trivial: distinct (operation, object, line)"
    q = vlib.QUICK
    with quiet():
        for kind in KINDS:
            p = build(kind, "set"); p.calculate_psf_kernel(True, accelerated=True)
    excs = list(EXC); items = []
    for kind in KINDS:
        for before in BEFORE:
            for k, name in enumerate(OPS):
                if kind == "high order" and name not in ("plain", "accelerated", "props") or before == "not normalized" and name not in ("crop", "convolve", "save") or before == "new" and name not in ("props", "calculation", "read"):
                    continue
                for e in excs[:1] if q else excs:
                    items.append((kind, before, name, e, q))
    if q:
        items += [("single", "calculated", n, e, True) for n in OPS for e in excs[1:]]
    items.sort(key=lambda t: t[2] not in ("plain", "plain with warnings", "without workers"))
    chk.run(psf, items, chunk=1); chk.run(evaluations, [(n, e, False) for n in functions()[1] for e in (excs[:1] if q else excs)], chunk=1)
    chk.sample({"operation": "plain", "object": "several", "before": "calculated", "exception": "KeyboardInterrupt", "line": 117}); chk.extra["operations"] = list(OPS) + list(functions()[1])
    chk.assumptions = ["one exception per operation, arriving at a line of the package (not inside of libraries or compiled functions)", "first and last (thorough: four) executions of each line"]
    chk.finish()


if __name__ == "__main__":
    vlib.main("C29", main)
