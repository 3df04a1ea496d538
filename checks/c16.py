"""C16: saving and reading of PSFs: exact restoring for all kinds of objects, settings, paths and readers; overwriting; incomplete and foreign files."""
import itertools
import json
import os
import shutil
from pathlib import Path
import numpy as np
import vlib
from vlib import call, quiet
import zernpy
from zernpy import ZernPol, ZernPSF

chk = vlib.Check("C16", "exploration")
PROPS = ("NA", "wavelength", "pixel_size", "k", "pixel_size_nyquist", "kernel_size", "n_int_r_points", "n_int_phi_points", "airy")
OBJ = [([(1, 3)], 0.1), ([(1, 3)], -0.2345678901234567), ([(0, 2)], 1), ([(-4, 6)], 1e-7), ([(0, 0)], 0.3), ([(3, 11)], np.float64(0.1)), ([(-1, 1)], 0.0), ([(1, 3)], [0.2]),
       ([(0, 2), (1, 3)], [0.1, -1/3]), ([(0, 0), (2, 2), (-3, 5)], (0.5, 1e-9, -0.1)), ([(4, 4), (-1, 3)], np.array([0.2, 0.1])), ([(1, 1), (0, 4)], [1, 0]),
       ([(m, n) for n in range(4) for m in range(-n, n + 1, 2)], [0.01*(i + 1)/7 for i in range(10)])]
SETS = [(0.95, 0.55, 0.14, (3, 20, 36)), (0.3, 633.0, 500.0/3, (5, 21, 41)), (1, 2, 0.3, (4, 20, 37))]
LONG = [([(1, 3), (0, 2), (-2, 4), (5, 5), (0, 8), (-1, 1), (3, 7), (2, 2), (0, 0), (-6, 6), (4, 6)], [0.1/7*(i + 1)*(-1)**i for i in range(11)]), ([(m, n) for n in range(5, -1, -1) for m in range(n, -n - 1, -2)], [np.pi/1e3*(i + 1) for i in range(21)])]
HOW = ("plain", "accelerated", "unnormalized", "cropped", "reset size", "physical only", "many points", "larger size", "large kernel")


def objects(o, co, s, how):
    """A calculated object."""
    pols = [ZernPol(m=m, n=n) for m, n in o]
    with quiet():
        p = ZernPSF(pols[0] if len(o) == 1 and not hasattr(co, "__len__") else pols); p.set_physical_props(s[0], s[1], co, s[2])
        if how != "physical only":
            p.set_calculation_props(*((65,) + s[3][1:] if how == "large kernel" else s[3]))
            p.calculate_psf_kernel(True, how != "unnormalized", False, how in ("accelerated", "large kernel") and max(n for m, n in o) <= 10)
        if how == "cropped":
            p.crop_kernel(0.4)
        if how == "many points":
            p.set_calculation_props(3, 1234, 902)
        if how == "larger size":
            p.set_calculation_props(101, 20, 36)
        if how == "reset size":  # settings changed after the calculation
            p.set_calculation_props(9, 25, 44)
    return p


def state(p):
    out = {a: getattr(p, a) for a in PROPS}; out["orders"] = [z.get_mn_orders() for z in ([p.zernpol] if p.zernpol is not None else p.polynomials)]
    if p.zernpol is not None:
        out["coefficient"] = p.expansion_coeff; out["alpha"] = p.alpha
    else:
        out["coefficients"] = None if p.coefficients is None else list(p.coefficients); out["amplitudes"] = None if p.amplitudes is None else list(p.amplitudes)
    return out


def same(a, b, approx=False):
    """Differences of two states; approx: settings with single precision were given, derived properties are compared with this precision."""
    def equal(k):
        if approx and k in ("k", "alpha", "pixel_size_nyquist", "amplitudes") and a[k] is not None and b.get(k) is not None:
            x, y = np.asarray(a[k], dtype=float), np.asarray(b[k], dtype=float)
            return x.shape == y.shape and np.allclose(x, y, rtol=1e-6, atol=0.0)
        return a[k] == b.get(k)
    return [f"{k}: {b.get(k)!r} instead of {a.get(k)!r}" for k in a if not equal(k)]


def single(co, s):
    return any(isinstance(x, np.float32) for x in s[:3]) or any(isinstance(x, np.float32) for x in (co if hasattr(co, "__len__") else [co]))


def reader(kind):
    z = lambda m, n: ZernPol(m=m, n=n)
    with quiet():
        if kind == "other":
            return ZernPSF(z(-2, 2))
        if kind == "Airy":
            return ZernPSF(z(0, 0))
        if kind == "several":
            return ZernPSF((z(0, 2), z(-1, 3), z(2, 4)))
        if kind == "configured":
            p = ZernPSF(z(2, 2)); p.set_physical_props(0.8, 0.45, 0.04, 0.12); p.set_calculation_props(3, 23, 40); p.calculate_psf_kernel(True, accelerated=False); return p
        if kind == "configured several":
            p = ZernPSF([z(2, 2), z(0, 4)]); p.set_physical_props(0.8, 0.45, [0.04, 0.1], 0.12); p.set_calculation_props(3, 23, 40); return p


READERS = ("same object", "other", "Airy", "several", "configured", "configured several")
PATHS = ("str", "Path", "spaces", "relative", "None", "missing", "link", "dots", "slash", "json")


def folder(kind, root):
    os.makedirs(root, exist_ok=True)
    if kind == "spaces":
        os.makedirs(os.path.join(root, "a b é"), exist_ok=True); return os.path.join(root, "a b é"), os.path.join(root, "a b é")
    if kind == "relative":
        os.makedirs(os.path.join(root, "rel"), exist_ok=True); return "rel", os.path.join(root, "rel")
    if kind in ("link", "dots", "slash", "json"):  # symbolic link to the folder; ".." inside; "/" at the end; folder named as a file
        d = os.path.join(root, "real.json" if kind == "json" else "real"); os.makedirs(os.path.join(d, "inner"), exist_ok=True)
        if kind == "link" and not os.path.islink(os.path.join(root, "link")):
            os.symlink(d, os.path.join(root, "link"))
        return {"link": os.path.join(root, "link"), "dots": os.path.join(d, "inner", ".."), "slash": d + "/", "json": d}[kind], d
    if kind == "None":
        return None, os.path.join(os.path.dirname(zernpy.__file__), "saved_psfs")
    if kind == "missing":
        return os.path.join(root, "not there"), os.path.join(root, "saved_psfs")
    d = os.path.join(root, "d"); os.makedirs(d, exist_ok=True)
    return (Path(d), d) if kind == "Path" else (d, d)


def roundtrip(c, item):
    (o, co), s, how, pkind = item; key0 = f"{o} {vlib.short(co, 60)} {s} {how} path={pkind}"; root = os.path.join(vlib.SCRATCH, "tmp", f"r{os.getpid()}"); shutil.rmtree(root, ignore_errors=True); os.makedirs(root); os.chdir(root)
    arg, real = folder(pkind, root); own = None
    if pkind == "None":  # the common folder of the package: own package folder content is restored below
        own = set(os.listdir(real)) if os.path.isdir(real) else set()
    for rk in READERS:
        p = objects(o, co, s, how); before = state(p); kernel = p.kernel.copy(); key = f"{key0} reader={rk}"; c.case(); c.nontriv(hash(key))
        res = call(p.save_json, arg, True); path = p.json_file_path
        if res[0] != "ok":
            c.violation(key, f"saving raised {res[1]!r}", {"object": o, "path": pkind}); continue
        if not os.path.isfile(path) or os.path.realpath(os.path.dirname(path)) != os.path.realpath(real) or not os.path.isabs(path):
            c.violation(key, f"saved to {path!r}, expected a file in {real!r}"); continue
        left = [f for f in os.listdir(real) if not os.path.samefile(os.path.join(real, f), path) and f not in (own or ()) and f != "inner"]
        if left and pkind != "None":
            c.violation(key, f"other files left: {left}")
        d = same(before, state(p))
        if d or not np.array_equal(kernel, p.kernel):
            c.violation(key, f"saving changed the object: {d}")
        if rk == "same object":
            with quiet():
                if len(o) == 1:
                    p.set_physical_props(0.55, 0.6, 0.033, 0.2)
                else:
                    p.set_physical_props(0.55, 0.6, [0.033]*len(o), 0.2)
                p.set_calculation_props(3, 29, 40)
            q = p; args = ()
        else:
            q = reader(rk); args = (Path(path),) if pkind == "Path" else (path,)
        res = call(q.read_json, *args)
        if res[0] != "ok":
            c.violation(key, f"reading raised {res[1]!r}", {"object": o}); continue
        d = same(before, state(q), single(co, s))
        if d or q.kernel.shape != kernel.shape or not np.array_equal(q.kernel, kernel):
            c.violation(key, f"not restored: {'; '.join(d)}; kernel equal: {q.kernel.shape == kernel.shape and np.array_equal(q.kernel, kernel)}", {"object": o, "reader": rk}); continue
        content = open(path).read(); root2 = os.path.join(root, "again"); os.makedirs(root2, exist_ok=True); res = call(q.save_json, root2, True)
        if res[0] != "ok" or json.load(open(q.json_file_path)) != json.loads(content):
            c.violation(key, f"the restored object is saved differently: {res[1]!r}")
        if how in ("accelerated", "unnormalized", "cropped") and s[3][0] <= 5 and rk in ("same object", "Airy", "configured several"):  # calculations afterwards agree
            acc = max(n for m, n in o) <= 10
            with quiet():
                a = objects(o, co, s, how); ka = a.calculate_psf_kernel(True, True, False, acc); kb = q.calculate_psf_kernel(True, True, False, acc)
            if ka.shape != kb.shape or not np.allclose(ka, kb, rtol=0, atol=1e-12):
                c.violation(key, f"kernel calculated by the restored object differs: {vlib.short(kb)} instead of {vlib.short(ka)}")
    if own is not None:
        for f in set(os.listdir(real)) - own:
            try:
                os.unlink(os.path.join(real, f))
            except OSError:
                pass
    os.chdir(os.path.join(vlib.SCRATCH, "cwd")); shutil.rmtree(root, ignore_errors=True)


def together(c, item):
    """Several PSFs saved into one folder without overwriting: each of them is read from its own file."""
    name, objs = item; root = os.path.join(vlib.SCRATCH, "tmp", f"t{os.getpid()}"); shutil.rmtree(root, ignore_errors=True); os.makedirs(root); saved = []
    for o, co in objs:
        p = objects(o, co, SETS[0], "physical only"); res = call(p.save_json, root); c.case(); key = f"together {name}: {vlib.short(o, 60)} {vlib.short(co, 60)}"; c.nontriv(hash(key))
        if res[0] != "ok":
            c.violation(key, f"saving raised {res[1]!r}"); continue
        saved.append((key, p, state(p), p.json_file_path))
    for key, p, want, path in saved:
        q = reader("Airy"); res = call(q.read_json, path)
        if res[0] != "ok" or same(want, state(q)):
            c.violation(key, f"not restored from the file {os.path.basename(path)[:80]}: {res[1]!r} {same(want, state(q))}", {"object": str(want)}); break
    if len(os.listdir(root)) != len(saved):
        c.violation(f"together {name}", f"{len(os.listdir(root))} files for {len(saved)} PSFs")
    shutil.rmtree(root, ignore_errors=True)


def values(c, item):
    """Kernels with arbitrary values and sizes (entered through a file) go through saving and reading exactly."""
    n, kind = item; root = os.path.join(vlib.SCRATCH, "tmp", f"v{os.getpid()}"); shutil.rmtree(root, ignore_errors=True); os.makedirs(root); p = objects([(1, 3)], 0.1, SETS[0], "plain"); call(p.save_json, root, True)
    data = json.load(open(p.json_file_path)); i = np.arange(n*n).reshape(n, n); x = np.sin(i + 1.0)**2
    k = {"thirds": x/3.0, "tiny": x*10.0**(-5*(i % 60)), "subnormal": x*1e-310, "negative": x - 0.5, "large": x*1e300, "ints": np.float64(i), "zeros": np.zeros((n, n)), "mixed": np.where(i % 3 == 0, 0.0, x*10.0**(i % 17 - 8.0)), "neighbours of 1": 1.0 + (i - n)*2.0**-52}[kind]
    data["PSF Kernel"] = k.tolist(); data["Kernel Size"] = n; path = os.path.join(root, "x.json")
    with open(path, "w") as f:
        json.dump(data, f)
    for rk in ("other", "configured several"):
        key = f"kernel {n}x{n} of {kind} values reader={rk}"; c.case(); c.nontriv(hash(key)); q = reader(rk); res = call(q.read_json, path)
        if res[0] != "ok" or q.kernel.shape != k.shape or not np.array_equal(q.kernel, k) or q.kernel_size != n:
            c.violation(key, f"not read exactly: {res[1]!r}, {vlib.short(q.kernel)}", {"size": n, "values": kind}); continue
        folder2 = os.path.join(root, "again"); os.makedirs(folder2, exist_ok=True); res = call(q.save_json, folder2, True); r = reader("Airy"); res2 = call(r.read_json, q.json_file_path)
        if res[0] != "ok" or res2[0] != "ok" or not np.array_equal(r.kernel, k) or r.kernel_size != n or same(state(q), state(r)):
            c.violation(key, f"not restored after saving again: {res[1]!r}, {res2[1]!r}, {same(state(q), state(r))}", {"size": n, "values": kind})
    shutil.rmtree(root, ignore_errors=True)


def overwriting(c, item):
    (o, co), existing, overwrite, pkind = item; key = f"{o} existing={existing} overwrite={overwrite} path={pkind}"; root = os.path.join(vlib.SCRATCH, "tmp", f"o{os.getpid()}"); shutil.rmtree(root, ignore_errors=True); os.makedirs(root); os.chdir(root)
    arg, real = folder(pkind, root); p = objects(o, co, SETS[0], "plain"); call(p.save_json, arg, True); path = p.json_file_path; full = open(path).read(); c.case(); c.nontriv(hash(key))
    old = {"none": None, "same": full, "other settings": full.replace('"NA": 0.95', '"NA": 0.25'), "garbage": "{ garbage", "empty": "", "longer": full + " "*100000}[existing]
    if old is None:
        os.unlink(path)
    else:
        with open(path, "w") as f:
            f.write(old)
    sib = os.path.join(real, "other_file.json")
    with open(sib, "w") as f:
        f.write("precious")
    q = objects(o, co, SETS[0], "plain"); args = (arg,) + ((overwrite,) if overwrite is not None else ()); res = call(q.save_json, *args); now = open(path).read() if os.path.exists(path) else None
    want = full if (overwrite or old is None) else old
    if res[0] != "ok":
        c.violation(key, f"raised {res[1]!r}")
    elif now is None or (now != want and not (want == full and json.loads(now) == json.loads(full))):
        c.violation(key, f"file content {vlib.short(now, 80)} instead of {vlib.short(want, 80)}")
    elif q.json_file_path != path:
        c.violation(key, f"path {q.json_file_path} instead of {path}")
    if sorted(f for f in os.listdir(real) if f != "inner") != sorted([os.path.basename(path), "other_file.json"]) or open(sib).read() != "precious":
        c.violation(key, f"other files touched: {os.listdir(real)}")
    os.chdir(os.path.join(vlib.SCRATCH, "cwd")); shutil.rmtree(root, ignore_errors=True)


def reading(c, item):
    """Files that must not be taken over."""
    what, (o, co), rk = item; root = os.path.join(vlib.SCRATCH, "tmp", f"f{os.getpid()}"); shutil.rmtree(root, ignore_errors=True); os.makedirs(root); p = objects(o, co, SETS[0], "plain"); call(p.save_json, root, True)
    text = open(p.json_file_path).read(); data = json.loads(text); good = state(p); path = os.path.join(root, "x.json"); q = reader(rk); before = state(q); kernel = q.kernel.copy()

    def check(key, valid):
        nonlocal q
        c.case(); c.nontriv(hash((key, str(o), rk))); res = call(q.read_json, path); d = same(before, state(q)); ch = d or q.kernel.shape != kernel.shape or not np.array_equal(q.kernel, kernel); key = f"{key} {o} reader={rk}"
        if valid:
            if res[0] != "ok" or same(good, state(q)):
                c.violation(key, f"complete file isn't restored: {res[1]!r} {same(good, state(q))}")
            q = reader(rk)
        elif ch:
            c.violation(key, f"object changed by reading it ({res[1]!r}): {'; '.join(d) or 'kernel'}", {"file": key}); q = reader(rk)
    if what == "subsets":
        keys = list(data)
        for r in range(len(keys) + 1):
            for sub in itertools.combinations(keys, r):
                with open(path, "w") as f:
                    json.dump({k: data[k] for k in sub}, f)
                check(f"keys {sub}", r == len(keys))
        for perm in (keys[::-1], sorted(keys), keys[3:] + keys[:3]):
            with open(path, "w") as f:
                json.dump({k: data[k] for k in perm}, f)
            check(f"order of keys {perm}", True)
        with open(path, "w") as f:
            json.dump({**data, "Comment": "text", "Another": [1, 2]}, f)
        check("additional keys", True)
    elif what == "prefixes":
        for i in range(len(text)):
            with open(path, "w") as f:
                f.write(text[:i])
            check(f"first {i} characters", False)
    else:
        foreign = {"list": "[1, 2]", "number": "5", "string": '"text"', "null": "null", "true": "true", "empty dict": "{}", "nested": json.dumps({"PSF": data}), "text": "not a json", "binary": "\x00\x01", "list of it": json.dumps([data])}
        bad = {"NA": [0, -1, 1.8, 50, None, "text"], "Wavelength": [0, -1, None, "text"], "Pixel Size": [0, -1, 1e9, None, "text"], "Expansion Coefficient": [None, "text", [1, 2]], "Amplitudes": [[], [1.0], [1.0]*9, None, 0.5],
               "Polynomial": [-1, 1540, 0.5, None, "text"], "Polynomials": [[], [1, 1], [-1, 2], None, [1, "a"]]}
        for k, vals in bad.items():
            if k in data:
                for v in vals:
                    foreign[f"{k}={v!r}"] = json.dumps({**data, k: v})
        for nm, t in foreign.items():
            with open(path, "w") as f:
                f.write(t)
            check(f"foreign {nm}", False)
        os.unlink(path); check("missing file", False); os.mkdir(path); check("folder", False)
    shutil.rmtree(root, ignore_errors=True)


def main():
    chk.rule = "one evaluation = one saved / read file; non-trivial: distinct combinations of object, settings, path, reader, existing content, kept keys"
    q = vlib.QUICK
    with quiet():
        for o, co in (OBJ[0], OBJ[8]):
            objects(o, co, SETS[0], "accelerated")
    hows = HOW
    chk.run(roundtrip, [(o, s, h, "str") for o in OBJ for s in (SETS[:2] if q else SETS) for h in hows] + [(o, SETS[0], h, pk) for o in OBJ for pk in PATHS[1:] if pk != "None" for h in (("plain",) if q else HOW)], chunk=1)
    pyr = lambda top, k=1: [(m, n) for n in range(top + 1) for m in range(-n, n + 1, 2)][::k]
    many = [(pyr(5), [0.1*(-1)**i/(i + 1) for i in range(21)]), (pyr(6), [0.0123456789*(i + 1) for i in range(28)]), (pyr(9), [1e-3/(i + 3) for i in range(55)]), (pyr(12), [0.001]*91), (pyr(20, 3), [1/3e3]*77), (pyr(54, 31), [0.01 + i/1e5 for i in range(50)])]
    chk.run(roundtrip, [(o, SETS[0], h, pk) for o in many[:2] for h in ("accelerated", "physical only") for pk in ("str", "spaces")] + [(o, SETS[1], "physical only", pk) for o in many for pk in PATHS if pk != "None"], chunk=1)
    chk.run(roundtrip, [(o, s, h, "str") for o in LONG for s in SETS for h in HOW if h != "plain" or s is SETS[0]], chunk=1)
    typed = [(np.float32(0.95), np.float32(0.55), np.float32(0.14), (np.int64(3), np.int32(20), np.int16(36))), (np.float64(0.95), np.float64(0.55), np.float64(1/7), (np.int16(5), np.int64(21), np.int64(40))), (np.int64(1), np.int32(2), np.float64(1/3), (np.int64(4), 20, np.int64(38))), (1, np.float32(633.3), 100, (3, 20, 36))]
    chk.run(roundtrip, [((o, co), s, h, "str") for o, co in (([(1, 3)], np.float32(0.1)), ([(0, 2)], np.int64(1)), ([(0, 2)], np.array([0.1], "float32")), ([(0, 2), (1, 3)], np.array([0.1, 2.0], "float32")), ([(0, 2), (1, 3)], np.array([1, -2])), ([(0, 2), (1, 3)], (np.float32(0.1), np.int64(1))), ([(0, 2), (1, 3)], (1, 2))) for s in typed for h in ("plain", "reset size", "physical only")], chunk=1)
    groups = {"orders": [([(m, n)], 0.1) for n in range(12) for m in range(-n, n + 1, 2)], "coefficients": [([(1, 3)], x) for e in range(1, 13) for x in (0.1 + 10.0**-e, 0.1 - 10.0**-e, 10.0**-e, -10.0**-e, 10.0**(e - 11)*1.5)],
              "pairs": [([a, b], [0.1, 0.2]) for a in pyr(3) for b in pyr(3) if a != b], "coefficients of several": [([(0, 2), (1, 3)], co) for e in range(1, 8) for co in ([0.1 + 10.0**-e, 0.2], [0.1, 0.2 + 10.0**-e], [-10.0**-e, 0.3], [0.3, 10.0**-e])],
              "exchanged": [([(0, 2), (1, 3), (2, 2)], list(x)) for x in itertools.permutations((0.1, -0.2, 0.3))], "many": [(pyr(6)[:k], [0.01*(i + 1) for i in range(k)]) for k in range(2, 29)],
              "coefficients of many": [(pyr(6), [0.01*(i + 1) + (10.0**-e if i == j else 0.0) for i in range(28)]) for j in range(0, 28, 3) for e in (2, 4, 6, 7)], "omitted": [(pyr(6)[:j] + pyr(6)[j + 1:], [0.01]*27) for j in range(28)]}
    chk.run(together, list(groups.items()), chunk=1)
    chk.run(values, [(n, k) for n in (1, 3, 5, 33, 61, 65, 101, 121) for k in ("thirds", "tiny", "subnormal", "negative", "large", "ints", "zeros", "mixed", "neighbours of 1")], chunk=2)
    for o in OBJ[:1] + OBJ[8:9]:  # the common folder of the package: one after another
        roundtrip(chk, (o, SETS[0], "plain", "None"))
    chk.run(overwriting, [(o, e, w, pk) for o in OBJ for e in ("none", "same", "other settings", "garbage", "empty", "longer") for w in (True, False, None) for pk in (("str", "missing", "link") if q else [x for x in PATHS if x != "None"])], chunk=8)
    rd = ("configured", "several") if q else READERS[1:]
    chk.run(reading, [(w, o, rk) for w in ("subsets", "prefixes", "foreign") for o in (OBJ[0], OBJ[8]) for rk in rd] + [("foreign", o, rk) for o in OBJ for rk in rd], chunk=1)
    chk.sample({"save": str(OBJ[8]), "settings": SETS[1], "path": "Path / str / None / missing folder", "read by": READERS}); chk.sample({"file": "every subset of the keys, every prefix of the text"})
    chk.assumptions = ["values that JSON represents (Python and float64 numbers)", "coefficients of PSFs saved together differ in their first 7 digits after the point (names of files for several polynomials have 8)"]
    chk.finish()


if __name__ == "__main__":
    vlib.main("C16", main)
