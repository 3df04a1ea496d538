"""C27: the optional numba library. All histories of ZernPSF objects and all flags explored again in a process in which numba isn't installed; all versions of numba."""
import sys
if __name__ == "__main__":
    sys.modules["numba"] = None  # not installed: every import of it raises ModuleNotFoundError, also in the forked processes
import itertools
import json
import os
import numpy as np
import vlib, zpsf
import c13, c14
from vlib import call, quiet
from zernpy import ZernPol, ZernPSF, force_get_psf_compilation
import zernpy

chk = vlib.Check("C27", "exploration")
_enabled = c14.World.enabled


def enabled(self, i, op):
    """Only small kernels: everything is calculated without compiled functions."""
    return _enabled(self, i, op) and (not op.startswith("K") or self.spec[i].size <= 7)


def flags(c, item):
    """All flags: the same kernel as by the documented rule; a warning exactly if acceleration is asked for and not suppressed."""
    orders, coeffs, size = item; single = len(orders) == 1; args = (c13.P(*orders)[0], coeffs[0]) if single else (c13.P(*orders), coeffs); bases = [zpsf.kernel(orders, coeffs, *c13.S0, size, zpsf.rule(20, 36))]
    if orders == [(0, 0)]:
        bases.append(zpsf.airy(zpsf.geometry(size, *c13.S0)[0]).reshape(size, size))
    with quiet():
        p = c13.psf_of(*args, c13.S0, size, 20, 36)
    for acc, sup, norm, verb in itertools.product((None, True, False, True), (False, True), (True, False), (False, True)):
        key = f"without numba: accelerated={acc} suppress={sup} normalized={norm} verbose={verb} {orders} {coeffs} size={size}"
        with quiet() as w:
            try:
                res = "ok", p.calculate_psf_kernel(sup, norm, verb, acc)
            except Exception as e:
                res = "exc", e
        want = [b/b.max() if norm else b for b in bases]
        if res[0] == "ok" and np.shape(res[1]) == (size, size):
            want.sort(key=lambda b: np.max(np.abs(res[1] - b)))
        c13.same(c, key, res, want[0], {"orders": orders, "flags": [acc, sup, norm, verb]}); k = want[0]; border = max(k[0].max(), k[-1].max(), k[:, 0].max(), k[:, -1].max())/k.max()
        n = sum(issubclass(x.category, UserWarning) for x in w); expected = not sup and (acc is True or border > 0.05)
        if res[0] == "ok" and (sup or abs(border - 0.05) > 1e-9) and bool(n) != expected:
            c.violation(key + " warning", f"{key}: {n} warnings, {'one' if expected else 'none'} expected", {"orders": orders, "flags": [acc, sup, norm, verb]})


def precompilation(c, n):
    """Precompilation without numba: None and a warning, each time, without any effect on objects."""
    p = ZernPSF(ZernPol(m=1, n=3)); before = c14.observe(p); q = ZernPSF(ZernPol(m=0, n=2)); q.set_physical_props(0.9, 0.6, 0.1, 0.12); bq = c14.observe(q)
    for i in range(n):
        for verbose in (False, True):
            with quiet() as w:
                r = force_get_psf_compilation(verbose)
            c.case(); c.nontriv((n, i, verbose))
            if r is not None or not any(issubclass(x.category, UserWarning) for x in w):
                c.violation(f"precompilation without numba {n} {i} {verbose}", f"returned {r!r} with {len(w)} warnings")
            if c14.observe(p) != before or c14.observe(q) != bq or c14.observe(ZernPSF(ZernPol(m=1, n=3))) != before:
                c.violation(f"precompilation without numba {n} {i} {verbose} effect", "properties of objects changed")


VERSIONS = '''
import json, sys, warnings, importlib, importlib.metadata, io, contextlib
cases = json.loads(sys.argv[1]); import numba; real = importlib.metadata.version; out = []
for text, meta in cases:
    for k in [k for k in sys.modules if k.split(".")[0] == "zernpy"]: del sys.modules[k]
    numba.__version__ = text
    def version(name):
        if name != "numba": return real(name)
        if not meta: raise importlib.metadata.PackageNotFoundError(name)
        return text
    importlib.metadata.version = version
    try:
        import zernpy
        with warnings.catch_warnings(record=True) as w, contextlib.redirect_stdout(io.StringIO()):
            warnings.simplefilter("always"); r = zernpy.force_get_psf_compilation(); r2 = zernpy.force_get_psf_compilation(True)
        psf = lambda t: isinstance(t, tuple) and len(t) == 2 and all(isinstance(x, zernpy.ZernPSF) for x in t)
        out.append([text, meta, "ok", sum("numba" in str(x.message).lower() for x in w), psf(r) and psf(r2), sorted(zernpy.ZernPSF.kernel.shape), zernpy.ZernPSF(zernpy.ZernPol(m=0, n=0)).kernel_size])
    except BaseException as e:
        out.append([text, meta, repr(e), 0, False, [1, 1], 1])
    with open(sys.argv[2], "w") as f: json.dump(out, f)
'''


def versions(c, cases):
    """Versions of numba: the recommendation is shown for the ones below 0.57.1 only; a version that isn't made of numbers doesn't matter."""
    path = os.path.join(vlib.SCRATCH, "tmp", f"versions{os.getpid()}.py"); res = path + ".json"
    with open(path, "w") as f:
        f.write(VERSIONS)
    if os.path.exists(res):
        os.unlink(res)
    os.environ["NUMBA_DISABLE_JIT"] = "1"
    try:
        vlib.script([path, json.dumps(cases), res], 400)
    finally:
        del os.environ["NUMBA_DISABLE_JIT"]
    got = json.load(open(res)) if os.path.exists(res) else []
    for i, (text, meta) in enumerate(cases):
        c.case(); c.nontriv((text, meta)); key = f"numba {text}" + ("" if meta else " without metadata")
        if i >= len(got):
            c.violation(key, f"{key}: the interpreter ended or did not answer"); return
        _, _, st, told, tup, shape, size = got[i]; v = text.split("."); plain = all(x.isdigit() for x in v)
        if st != "ok":
            c.violation(key, f"{key}: {st}"); continue
        if plain and bool(told) != (tuple(map(int, v)) < (0, 57, 1)):
            c.violation(key, f"{key}: {told} warnings about the version"); continue
        if not tup or shape != [1, 1] or size != 1:
            c.violation(key, f"{key}: returned {tup}, class properties {shape} {size}")


def main():
    chk.rule = "one evaluation = one kernel / transition / precompilation in an interpreter without numba, or one version of numba"
    c14.World.enabled = enabled; c14.chk = chk; c14.prepare(); q = vlib.QUICK
    assert sys.modules["numba"] is None
    plan = [("two objects", 2, c14.DEF_OPS + ["KD", "FORCE"]), ("single", 3, ["P2", "B1", "C1", "C2", "K", "KP", "KD", "FORCE", "READ1", "CROP"]), ("several", 3, ["P2", "C1", "C2", "K", "KD", "FORCE", "READ2", "SAVE", "MUTK"]), ("Airy", 2, c14.DEF_OPS + ["KD", "FORCE"])]
    if not q:
        plan += [("single", 4, plan[1][2]), ("several", 4, plan[2][2]), ("two singles", 3, c14.DEF_OPS + ["FORCE"])]
    items = []
    for config, depth, ops in plan:
        first = [(i, op) for i in range(len(c14.CONFIGS[config])) for op in ops]; items += [(config, (a,), depth, ops) for a in first]
    chk.run(c14.explore, items, chunk=1)
    chk.run(flags, c13.digits([(o, co, size) for o, co in (([(1, 3)], [0.3]), ([(0, 0)], [0.4]), ([(-9, 9)], [0.2]), ([(2, 12)], [-0.3]), ([(0, 2), (-1, 3)], [0.2, -0.3]), ([(0, 0), (2, 2), (3, 3)], [0.9, 0.1, -0.2])) for size in ((3, 7, 19) if len(o) < 3 else (3, 9))]), chunk=1)
    for o, co in (([(1, 3)], [0.31]), ([(0, 2), (-1, 3)], [0.2, 0.1])):
        c13.workers(chk, (o, co, (20, 36)))
    chk.run(precompilation, [1, 2, 3])
    texts = ["%d.%d.%d" % v for v in itertools.product((0,), (12, 40, 49, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 70, 100) if q else range(10, 80), (0, 1, 2, 3, 4))] + ["1.0.0", "1.56.0", "2.57.0"] + ["0.62.0rc1", "0.63.0b1", "0.61.0dev0+12.gabc", "0.57.0rc1"]
    cases = [(t, True) for t in texts] + [(t, False) for t in ("0.62.1", "0.56.4")]
    chk.run(versions, [cases[i::8] for i in range(8)], chunk=1)
    chk.states = len(chk.extra.pop("distinct model states", ())); chk.sample({"numba": "not installed", "history": [(0, "P2"), (0, "FORCE"), (0, "K"), (0, "READ2")]}); chk.sample({"numba": "0.56.4", "expected": "recommendation of the version"})
    chk.assumptions = ["absence of numba by sys.modules['numba'] = None", "kernels up to 19x19 (7x7 in histories)"]
    chk.finish()


if __name__ == "__main__":
    vlib.main("C27", main)
