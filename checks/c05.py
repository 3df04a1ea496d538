"""C05: evaluation is a pure function: results never depend on earlier calls, arguments are never changed, results never share memory.

Part A: all ordered pairs of evaluations (A, B) of polynomials whose coefficients are found recursively, each pair in its own forked process.
Part B: all sequences of operations up to a depth on shared polynomials / arrays / earlier results, with the caller overwriting both."""
import itertools
import os
import pickle
import numpy as np
import vlib, zref
from vlib import call, quiet
from zeval import radial_ref, deriv_ref
import zernpy
from zernpy import ZernPol

chk = vlib.Check("C05", "model_checking")
R = np.array([0.0, 0.25, 0.5, 0.7, 0.9, 1.0]); TH = np.array([0.0, 0.5, 1.5, 3.0, 4.5, 6.0])

# ------------------------------------------------------------------ part A
if vlib.QUICK:
    POLS = [(m, n) for n in (13, 14, 15, 16, 17) for m in range(n % 2, n + 1, 2)] + [(-3, 15), (2, 40), (5, 41), (0, 42)]
else:
    POLS = [(m, n) for n in range(11, 23) for m in range(n % 2, n + 1, 2)] + [(-3, 15), (-4, 18), (2, 38), (3, 39), (2, 40), (5, 41), (0, 42), (7, 43)]
A_OPS = [(k, mn) for mn in POLS for k in ("radial", "radial_dr")]


def do_a(op):
    k, (m, n) = op
    return np.asarray(getattr(ZernPol(m=m, n=n), k)(R.copy())).tobytes()


def forked(f):
    """Result of f() computed in a forked process (the parent keeps its pristine module state)."""
    rfd, wfd = os.pipe(); pid = os.fork()
    if pid == 0:
        try:
            with quiet():
                out = ("ok", f())
        except BaseException as e:
            out = ("exc", f"{type(e).__name__}: {e}")
        os.close(rfd)
        with os.fdopen(wfd, "wb") as w:
            w.write(pickle.dumps(out))
        os._exit(0)
    os.close(wfd)
    with os.fdopen(rfd, "rb") as r:
        data = r.read()
    os.waitpid(pid, 0)
    return pickle.loads(data) if data else ("exc", "process died")


def pairs(c, a):
    """All histories (a, b), and the repetition (a, b, a)."""
    fresh_a = FRESH[a]
    for b in A_OPS:
        res = forked(lambda: (do_a(a), do_a(b), do_a(a))); c.transitions += 3; c.states += 1; c.traces += 1
        if res[0] != "ok":
            c.violation(f"history {a},{b}", f"raised {res[1]}"); continue
        x, y, x2 = res[1]
        for nm, got, want in ((f"1st result of {a}", x, fresh_a), (f"{b} after {a}", y, FRESH[b]), (f"{a} again after {a}, {b}", x2, fresh_a)):
            k, (m, n) = a if nm.find("after") < 0 else b
            u, v = np.frombuffer(got), np.frombuffer(want)
            if u.shape != v.shape or any(not abs(x1 - x2) <= 2*TOLS[(k, m, n)][i] for i, (x1, x2) in enumerate(zip(u, v))):
                c.violation(f"history {a},{b}", f"{nm} differs from a fresh evaluation: {np.frombuffer(got)} instead of {np.frombuffer(want)}",
                            {"history": [a, b, a]})


FRESH = {}
TOLS = {(k, m, n): [(radial_ref if k == "radial" else deriv_ref)(abs(m), n, r)[1] for r in R] for k, (m, n) in A_OPS}

# ------------------------------------------------------------------ part B
NAMES = ("P00", "P11", "P31", "P42", "P14", "P39")
ORD = {"P00": (0, 0), "P11": (1, 1), "P31": (1, 3), "P42": (-2, 4), "P14": (2, 14), "P39": (1, 41)}


class World:
    """Shared objects of one history: polynomials, arrays owned by the caller, all results returned so far."""

    def __init__(self):
        self.z = {k: ZernPol(m=v[0], n=v[1]) for k, v in ORD.items()}
        self.r = R.copy(); self.th = TH.copy(); self.coeffs = [0.0, 1.5, -0.25]; self.pols = [self.z["P00"], self.z["P11"], self.z["P42"]]
        self.img = np.arange(49, dtype=float).reshape(7, 7)/49.0; self.version = 0; self.results = []  # (label, object, frozen copy)
        self.scribbled = set()


def arrays_of(x):
    if isinstance(x, np.ndarray):
        return [x]
    if isinstance(x, (tuple, list)):
        return [a for y in x for a in arrays_of(y)]
    return []


EVAL = {}
for _p in NAMES:
    EVAL[f"{_p}.radial(r)"] = lambda w, p=_p: w.z[p].radial(w.r)
    EVAL[f"{_p}.value(r,th)"] = lambda w, p=_p: w.z[p].polynomial_value(w.r, w.th)
for _p in ("P11", "P31", "P14"):
    EVAL[f"{_p}.radial_dr(r)"] = lambda w, p=_p: w.z[p].radial_dr(w.r)
for _p in ("P00", "P11", "P42"):
    EVAL[f"{_p}.triangular(th)"] = lambda w, p=_p: w.z[p].triangular(w.th)
    EVAL[f"{_p}.triangular_dtheta(th)"] = lambda w, p=_p: w.z[p].triangular_dtheta(w.th)
EVAL["P11.radial(r,exact)"] = lambda w: w.z["P11"].radial(w.r, use_exact_eq=True)
EVAL["P11.radial_dr(r,exact)"] = lambda w: w.z["P11"].radial_dr(w.r, use_exact_eq=True)
EVAL["sum(line)"] = lambda w: ZernPol.sum_zernikes(w.coeffs, w.pols, w.r, w.th)
EVAL["sum(surface)"] = lambda w: ZernPol.sum_zernikes(w.coeffs, w.pols, w.r, w.th, get_surface=True)
EVAL["surface()"] = lambda w: ZernPol.gen_zernikes_surface(w.coeffs, w.pols, 0.25, 1.0)
EVAL["polar"] = lambda w: ZernPol.gen_polar_coordinates(0.25, 1.0)
EVAL["mesh"] = lambda w: ZernPol.gen_equal_polar_mesh(5)
EVAL["image"] = lambda w: zernpy.generate_phases_image(tuple(w.pols), tuple(w.coeffs), 5, 4)
EVAL["fit(image)"] = lambda w: zernpy.fit_polynomials(w.img, tuple(w.pols), return_cropped_image=True)
EVAL["fit(vectors)"] = lambda w: zernpy.fit_polynomials_vectors(tuple(w.pols), w.th*0.1, w.r, w.th)
EVAL["pyramid"] = lambda w: [p.get_indices() for p in zernpy.generate_polynomials(3)]


def new_input(w):
    """The caller overwrites own arrays in place with other values."""
    w.version = 1 - w.version
    w.r[:] = R if w.version == 0 else R[::-1]*0.5; w.th[:] = TH if w.version == 0 else TH[::-1] + 0.125
    w.coeffs[1] = 1.5 if w.version == 0 else -2.0; w.img[:] = w.img[::-1]


def scribble(w):
    """The caller overwrites the last returned arrays in place."""
    if w.results:
        lab, obj, _ = w.results[-1]
        for a in arrays_of(obj):
            if a.flags.writeable:
                a[...] = 77.0
        w.scribbled.add(len(w.results) - 1)


CALLER = {"caller overwrites inputs": new_input, "caller overwrites last result": scribble}


def snapshot(obj):
    """Frozen copy of a result."""
    return [a.copy() for a in arrays_of(obj)] if arrays_of(obj) else repr(obj)


def same(a, b, label, exact=False):
    """Equal results up to rounding (`exact`: nobody touched the memory)."""
    if isinstance(a, str) or isinstance(b, str) or len(a) != len(b):
        return a == b
    atol = 0.0 if exact else (0.12 if label.startswith("P39") else 1e-9)
    return all(x.shape == y.shape and x.dtype == y.dtype and np.allclose(x, y, rtol=0.0 if exact else 1e-9, atol=atol, equal_nan=True) for x, y in zip(a, b))


EXPECT = {}  # (label, version of inputs) -> outcome in a fresh world


def expected(label, version):
    k = (label, version)
    if k not in EXPECT:
        w = World()
        if version:
            new_input(w)
        with quiet():
            EXPECT[k] = snapshot(EVAL[label](w))
    return EXPECT[k]


def history(c, prefix):
    """All histories of DEPTH operations starting with the given prefix (everything is checked after each operation)."""
    ops = list(EVAL) + list(CALLER)
    for rest in itertools.product(ops, repeat=DEPTH - len(prefix)):
        run_history(c, tuple(prefix) + rest)


def run_history(c, ops):
    w = World(); c.traces += 1
    for i, label in enumerate(ops):
        c.transitions += 1
        if label in CALLER:
            CALLER[label](w)
        else:
            before = (w.r.tobytes(), w.th.tobytes(), tuple(w.coeffs), w.img.tobytes(), tuple(p.get_indices() for p in w.z.values()), len(w.pols))
            st, res = call(EVAL[label], w)
            if st != "ok":
                c.violation(f"{label}", f"{label} raised {res!r} in the history {ops[:i + 1]}", {"history": ops[:i + 1]}); return
            after = (w.r.tobytes(), w.th.tobytes(), tuple(w.coeffs), w.img.tobytes(), tuple(p.get_indices() for p in w.z.values()), len(w.pols))
            if before != after:
                c.violation(f"{label} changes arguments", f"{label} changed arguments of the caller in {ops[:i + 1]}", {"history": ops[:i + 1]}); return
            snap = snapshot(res)
            if not same(snap, expected(label, w.version), label):
                c.violation(f"{label} history", f"result of {label} depends on the history {ops[:i + 1]}", {"history": ops[:i + 1]}); return
            for a in arrays_of(res):
                for own in (w.r, w.th, w.img):
                    if np.shares_memory(a, own):
                        c.violation(f"{label} aliases input", f"the result of {label} shares memory with an argument", {"history": ops[:i + 1]}); return
                for lab, obj, _ in w.results:
                    if any(np.shares_memory(a, b) for b in arrays_of(obj)):
                        c.violation(f"{label} aliases {lab}", f"the result of {label} shares memory with the result of {lab}", {"history": ops[:i + 1]}); return
            w.results.append((label, res, snap))
        # results returned before stay as they were
        for j, (lab, obj, snap) in enumerate(w.results):
            if j not in w.scribbled and not same(snapshot(obj), snap, lab, exact=True):
                c.violation(f"{lab} changed by {label}", f"result of {lab} changed afterwards by {label}, history {ops[:i + 1]}", {"history": ops[:i + 1]}); return
    c.nontriv(f"{ops}")


# ------------------------------------------------------------------ part C: every representation of the arguments
def reps(v):
    """Equal and other values in several representations; (name, function making a new one)."""
    v = np.asarray(v, float)
    yield "array", lambda: v.copy()
    yield "read-only", lambda: (lambda a: (a.setflags(write=False), a)[1])(v.copy())
    yield "strided", lambda: np.repeat(v, 2)[::2]
    yield "reversed twice", lambda: v[::-1].copy()[::-1]
    yield "2D", lambda: v.reshape(2, -1).copy()
    yield "2D Fortran", lambda: np.asfortranarray(v.reshape(2, -1))
    yield "1 value", lambda: v[2:3].copy()
    yield "scalar", lambda: float(v[2])
    yield "numpy scalar", lambda: np.float64(v[2])
    yield "list", lambda: v.tolist()
    yield "tuple", lambda: tuple(v.tolist())
    yield "integers", lambda: np.array([0, 1, 1, 0, 1, 0])
    yield "list of integers", lambda: [0, 1, 1, 0, 1, 0]
    yield "float32", lambda: v.astype(np.float32)
    yield "0D", lambda: np.array(v[3])
    yield "empty", lambda: np.array([])


ANGLES = {"in range": TH, "wrapped": TH - 3.0, "above": TH + 1.0, "below": -TH, "wide": TH*4 - 9.0, "far": TH + 50.0}
RADII = {"in range": R, "above 1": R + 0.5, "negative": -R, "slightly above 1": R*(1 + 1e-12)}
METHODS_C = {"radial": "r", "radial_dr": "r", "radial exact": "r", "radial_dr exact": "r", "triangular": "t", "triangular_dtheta": "t", "polynomial_value": "rt", "normalization": "",
             "sum_zernikes": "rt", "sum_zernikes surface": "rt"}


def state(x):
    """Value, type and layout of an argument."""
    if isinstance(x, np.ndarray):
        return ("array", x.tobytes(), str(x.dtype), x.shape, x.strides, x.flags.writeable)
    return (type(x).__name__, repr(x))


def call_c(meth, z, zs, co, r, th):
    if meth.startswith("sum"):
        return ZernPol.sum_zernikes(co, zs, r, th, get_surface="surface" in meth)
    if meth == "normalization":
        return z.normf()
    a = {"r": (r,), "t": (th,), "rt": (r, th)}[METHODS_C[meth]]
    return getattr(z, meth.split()[0])(*a, **({"use_exact_eq": True} if "exact" in meth else {}))


def representations(c, item):
    """All methods with all representations of radii x angles, in and out of the usual ranges: arguments are as before (also if the call raises), nothing is shared,
    the same call gives the same result again, and it still does after its result is overwritten."""
    meth, (m, n) = item; use = METHODS_C[meth]
    rs = [(f"{k} {nm}", f) for k, v in RADII.items() for nm, f in reps(v)] if "r" in use else [("none", lambda: None)]
    ths = [(f"{k} {nm}", f) for k, v in ANGLES.items() for nm, f in reps(v)] if "t" in use else [("none", lambda: None)]
    for rn, rf in rs:
        for tn, tf in ths:
            if use == "rt" and rn.split()[-1] != tn.split()[-1] and not rn.startswith("in range") and not tn.startswith(("in range", "wrapped")):
                continue
            z = ZernPol(m=m, n=n); zs = [z, ZernPol(m=0, n=2)]; co = [1.5, -0.5]; r, th = rf(), tf(); before = (state(r), state(th), repr(co), [id(q) for q in zs], z.get_indices())
            key = f"{meth} ({m}, {n}) radii {rn}, angles {tn}"; c.transitions += 1; c.states += 1
            res = call(call_c, meth, z, zs, co, r, th)
            if (state(r), state(th), repr(co), [id(q) for q in zs], z.get_indices()) != before:
                c.violation(f"{key} changes arguments", f"{key}: an argument of the caller is changed", {"case": key}); continue
            if res[0] != "ok":
                continue
            snap = snapshot(res[1])
            if any(np.shares_memory(a, b) for a in arrays_of(res[1]) for b in arrays_of((r, th))):
                c.violation(f"{key} aliases", f"{key}: the result shares memory with an argument", {"case": key}); continue
            for a in arrays_of(res[1]):
                if a.flags.writeable:
                    a[...] = 55.0
            res2 = call(call_c, meth, z, zs, co, rf(), tf()); c.transitions += 1
            if res2[0] != "ok" or not same(snapshot(res2[1]), snap, "P39" if n > 30 else ""):
                c.violation(f"{key} again", f"{key}: the second call gives {vlib.short(res2[1])} instead of {vlib.short(snap)}", {"case": key})


# ------------------------------------------------------------------ part D: pairs of similar calls and failing calls in between
def similar():
    """{name: call}: calls that differ from another one in a single argument, and rejected calls."""
    ops = {}; r2 = {"r": R, "r reversed": R[::-1].copy(), "r last": np.array([0.0, 0.25, 0.5, 0.7, 0.9, 0.95]), "r 2D": R.reshape(2, 3), "scalar": 0.5, "other scalar": 0.7}; t2 = {"th": TH, "th last": np.append(TH[:-1], 5.5), "th 2D": TH.reshape(2, 3)}
    for mn in ((0, 2), (2, 2), (-2, 2), (2, 4), (-1, 3), (3, 13), (-3, 13), (1, 13)):
        for nm, r in r2.items():
            ops[f"radial {mn} {nm}"] = lambda mn=mn, r=r: ZernPol(m=mn[0], n=mn[1]).radial(r)
            if nm in ("r", "scalar"):
                ops[f"radial exact {mn} {nm}"] = lambda mn=mn, r=r: ZernPol(m=mn[0], n=mn[1]).radial(r, True)
                ops[f"radial_dr {mn} {nm}"] = lambda mn=mn, r=r: ZernPol(m=mn[0], n=mn[1]).radial_dr(r)
        for nm, t in t2.items():
            ops[f"triangular {mn} {nm}"] = lambda mn=mn, t=t: ZernPol(m=mn[0], n=mn[1]).triangular(t)
        ops[f"normf {mn}"] = lambda mn=mn: ZernPol(m=mn[0], n=mn[1]).normf(); ops[f"triangular_dtheta {mn}"] = lambda mn=mn: ZernPol(m=mn[0], n=mn[1]).triangular_dtheta(TH)
        ops[f"value {mn}"] = lambda mn=mn: ZernPol(m=mn[0], n=mn[1]).polynomial_value(R, TH)
    P = lambda *o: [ZernPol(osa=k) for k in o]
    for nm, co, pols in (("a", [0.5, -1.0], (4, 7)), ("b", [0.5, -1.0], (7, 4)), ("c", [0.5, 1.0], (4, 7)), ("d", [0.5, -1.0], (4, 8)), ("e", [0.5, -1.0, 0.25], (4, 7, 0)), ("f", [0.5, -1.0], (4, 4))):
        for surf in (False, True):
            ops[f"sum {nm} {surf}"] = lambda co=co, pols=pols, surf=surf: ZernPol.sum_zernikes(co, P(*pols), R, TH, surf)
        ops[f"sum {nm} shorter"] = lambda co=co, pols=pols: ZernPol.sum_zernikes(co, P(*pols), R[:4], TH[1:5])
        for a, b in ((0.25, 1.0), (0.25, 0.5), (0.5, 1.0)):
            if nm in "abd":
                ops[f"surface {nm} {a} {b}"] = lambda co=co, pols=pols, a=a, b=b: ZernPol.gen_zernikes_surface(co, P(*pols), a, b)
        for w, h in ((5, 4), (4, 5), (5, 5)):
            ops[f"image {nm} {w} {h}"] = lambda co=co, pols=pols, w=w, h=h: zernpy.generate_phases_image(tuple(P(*pols)), tuple(co), w, h)
    img = np.sin(np.arange(81.0)).reshape(9, 9)
    for nm, pols in (("a", (4, 7)), ("b", (7, 4)), ("d", (4, 8)), ("e", (4, 7, 0))):
        for im, x in (("sin", img), ("other", img[::-1].copy()), ("wide", img[:7].copy())):
            ops[f"fit {nm} {im}"] = lambda x=x, pols=pols: zernpy.fit_polynomials(x, tuple(P(*pols)))
            if im == "sin":
                ops[f"fit {nm} radius 0.8"] = lambda x=x, pols=pols: zernpy.fit_polynomials(x, tuple(P(*pols)), crop_radius=0.8, return_cropped_image=True)
                ops[f"fit {nm} strict"] = lambda x=x, pols=pols: zernpy.fit_polynomials(x, tuple(P(*pols)), strict_circle_border=True, return_cropped_image=True)
        for nr, r in (("r", R), ("r reversed", r2["r reversed"])):
            ops[f"vectors {nm} {nr}"] = lambda r=r, pols=pols: zernpy.fit_polynomials_vectors(tuple(P(*pols)), np.cos(TH*3), r, TH)
            ops[f"vectors mesh {nm} {nr}"] = lambda r=r, pols=pols: zernpy.fit_polynomials_vectors(tuple(P(*pols)), np.cos(np.arange(18.0)), r, TH[1:4])
    for a, b in ((0.25, 1.0), (0.25, 0.5), (0.5, 1.0)):
        ops[f"polar {a} {b}"] = lambda a=a, b=b: ZernPol.gen_polar_coordinates(a, b)
    for k in (4, 5, 6):
        ops[f"mesh {k}"] = lambda k=k: ZernPol.gen_equal_polar_mesh(k)
    for k in (0, 1, 2, 3):
        ops[f"pyramid {k}"] = lambda k=k: [p.get_indices() for p in zernpy.generate_polynomials(k)]
    bad = {"radius > 1": lambda: ZernPol(osa=7).radial(R + 1), "shapes": lambda: ZernPol(osa=7).polynomial_value(R, TH[:3]), "derivative < 0": lambda: ZernPol(osa=7).radial_dr(-R), "text": lambda: ZernPol(osa=7).triangular("x"), "orders": lambda: ZernPol(m=5, n=2),
           "sum of different lengths": lambda: ZernPol.sum_zernikes([0.5], P(4, 7), R, TH), "sum with radius": lambda: ZernPol.sum_zernikes([0.5, 1.0], P(4, 7), R + 1, TH, True), "empty sum": lambda: ZernPol.sum_zernikes([], [], R, TH), "steps": lambda: ZernPol.gen_polar_coordinates(0.9, 1.0),
           "fit without polynomials": lambda: zernpy.fit_polynomials(img, ()), "fit of repeated": lambda: zernpy.fit_polynomials(img, tuple(P(4, 4))), "fit 1D": lambda: zernpy.fit_polynomials(img[0], tuple(P(4, 7))), "fit radius": lambda: zernpy.fit_polynomials(img, tuple(P(4, 7)), crop_radius=-1.0),
           "vectors lengths": lambda: zernpy.fit_polynomials_vectors(tuple(P(4, 7)), TH[:5], R, TH), "vectors radius": lambda: zernpy.fit_polynomials_vectors(tuple(P(4, 7)), TH, R + 1, TH), "pyramid -1": lambda: zernpy.generate_polynomials(-1),
           "image of different lengths": lambda: zernpy.generate_phases_image(tuple(P(4, 7)), (1.0,), 5, 4)}
    for k, f in bad.items():
        ops["rejected: " + k] = f
    return ops


def outcome(f):
    st, v = call(f)
    return (st, snapshot(v) if st == "ok" else type(v).__name__)


def alike(a, b):
    return a[0] == b[0] and (same(a[1], b[1], "") if a[0] == "ok" else a[1] == b[1])


def similar_pairs(c, name):
    """(name, b, name) for all other calls b, compared with fresh processes."""
    ops = similar(); c.traces += len(ops)
    for b in ops:
        c.transitions += 3; c.states += 1; got = [outcome(ops[name]), outcome(ops[b]), outcome(ops[name])]; want = [ONCE[name], ONCE[b], ONCE[name]]
        for g, w, k in zip(got, want, (name, b, name)):
            if not alike(g, w):
                c.violation(f"{name} / {b}", f"{k} in the history ({name}, {b}, {name}) gives {vlib.short(g, 300)}, in a fresh process {vlib.short(w, 300)}", {"history": [name, b, name]}); return


ONCE = {}


# ------------------------------------------------------------------ part E: histories of one object, all radial orders
X, Y, T, U = 0.8314159265358979, 0.7320508075688772, 2.718281828459045, 5.123105625617661; XA, TA = np.array([Y, X, 0.9871234567890123]), np.array([U, T, 0.1234567890123])
ONE = {"radial x": lambda z: z.radial(X), "radial y": lambda z: z.radial(Y), "radial array": lambda z: z.radial(XA), "radial exact x": lambda z: z.radial(X, True), "dr x": lambda z: z.radial_dr(X), "dr y": lambda z: z.radial_dr(Y), "dr array": lambda z: z.radial_dr(XA),
       "dr exact y": lambda z: z.radial_dr(Y, True), "value xt": lambda z: z.polynomial_value(X, T), "value yu": lambda z: z.polynomial_value(Y, U), "value array": lambda z: z.polynomial_value(XA, TA), "value exact": lambda z: z.polynomial_value(X, T, True),
       "angle t": lambda z: z.triangular(T), "angle u": lambda z: z.triangular(U), "dtheta t": lambda z: z.triangular_dtheta(T), "dtheta array": lambda z: z.triangular_dtheta(TA), "norm": lambda z: z.normf(),
       "rejected radius": lambda z: z.radial(1.5), "rejected derivative": lambda z: z.radial_dr(-0.1), "rejected value": lambda z: z.polynomial_value(XA, TA[:2]),
       "text": str, "indices": lambda z: z.get_indices(), "name": lambda z: z.get_polynomial_name(), "sum": lambda z: ZernPol.sum_zernikes([0.3, -1.7], [z, z], X, T), "compare": lambda z: (z == ZernPol(m=1, n=1), z > ZernPol(m=2, n=2))}


def one_object(c, mn):
    """(a, b, a) for all pairs of calls on one object against fresh objects."""
    m, n = mn; exact_op = {"text", "indices", "name", "compare"}; tol = 1e-9 if abs(m) >= n - 4 or n < 16 else 0.12
    do = lambda k, z: (lambda st, v: (st, v if st == "ok" and k in exact_op else np.array(v, copy=True) if st == "ok" else type(v).__name__))(*call(ONE[k], z))
    fresh = {k: do(k, ZernPol(m=m, n=n)) for k in ONE}; shared = ZernPol(m=m, n=n)
    for a in ONE:
        for b in ONE:
            z = ZernPol(m=m, n=n); c.transitions += 5; c.states += 1
            for k, obj in ((a, z), (b, z), (a, z), (b, shared), (a, shared)):
                got, w = do(k, obj), fresh[k]
                if got[0] != w[0] or (got[1] != w[1] if got[0] != "ok" or k in exact_op else got[1].shape != w[1].shape or not np.allclose(got[1], w[1], rtol=1e-9, atol=tol)):
                    c.violation(f"one object {mn}: {a}, {b}", f"'{k}' on an object of {mn} after calls ({a}, {b}, {a}) gives {vlib.short(got)}, on a fresh object {vlib.short(w)}", {"orders": mn, "history": [a, b, a]}); return
    c.traces += len(ONE)**2


DEPTH = 3 if vlib.QUICK else 4


def main():
    for op in A_OPS:
        res = forked(lambda: do_a(op))
        if res[0] != "ok":
            chk.violation(f"fresh {op}", f"raised {res[1]}"); continue
        FRESH[op] = res[1]; v = np.frombuffer(res[1]); k, (m, n) = op; chk.transitions += 1
        for i, r in enumerate(R):
            ref, tol = (radial_ref if k == "radial" else deriv_ref)(abs(m), n, r)
            if not abs(v[i] - ref) <= tol:
                chk.violation(f"fresh {op}", f"value at {r}: {v[i]}, exact {ref}")
    ok_ops = [op for op in A_OPS if op in FRESH]
    if len(ok_ops) == len(A_OPS):
        chk.run(pairs, A_OPS, chunk=2)
    n_pairs = chk.traces
    for label in EVAL:
        for version in (0, 1):
            try:
                expected(label, version)
            except Exception as e:
                chk.violation(f"{label}", f"raised {e!r}")
    if not chk.violations:
        chk.run(history, [(a,) for a in list(EVAL) + list(CALLER)], chunk=1)
    items = [(k, mn) for k in METHODS_C for mn in ((0, 0), (0, 2), (1, 1), (-3, 5), (2, 4), (-1, 15), (4, 12), (0, 40))]
    chk.run(representations, items, chunk=2); chk.extra["(method, polynomial) pairs with all representations of arguments"] = len(items)
    ops = similar()
    for nm in ops:
        ONCE[nm] = forked(lambda: outcome(ops[nm]))[1]
    for nm in ops:
        if isinstance(ONCE[nm], str) or nm.startswith("rejected") == (ONCE[nm][0] == "ok"):
            chk.violation(f"fresh {nm}", f"{vlib.short(ONCE[nm])}")
    chk.run(similar_pairs, list(ops), chunk=2); chk.extra["similar and rejected calls, all ordered pairs"] = len(ops)
    every = [(m, n) for n in range(55) for m in range(n % 2, n + 1, 2) if m >= n - 4 or m < 2 and n < (16 if vlib.QUICK else 36)]; every = [(m if k % 2 else -m, n) for k, (m, n) in enumerate(every)]
    chk.run(one_object, every, chunk=1); chk.extra["polynomials with all (a, b, a) histories of one object"] = len(every)
    chk.states += len(chk.nontrivial)
    chk.extra["pair histories (fresh processes)"] = n_pairs; chk.extra["operation sequences"] = len(chk.nontrivial); chk.extra["depth"] = DEPTH
    chk.rule = "states: distinct histories; transitions: executed operations of the real code; every history is replayed on the implementation itself"
    chk.sample({"pair": [A_OPS[0], A_OPS[9], A_OPS[0]]}); chk.sample({"history": ["P11.radial(r)", "caller overwrites last result", "P11.radial(r)"]})
    chk.assumptions = ["equal arguments must give equal results up to the rounding error of the evaluated power series", f"sequences of at most {DEPTH} operations from "
                       f"{len(EVAL) + len(CALLER)}, ordered pairs from {len(A_OPS)} recursive evaluations"]
    chk.finish()


if __name__ == "__main__":
    vlib.main("C05", main)
