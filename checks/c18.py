"""C18: crop_kernel on all patterns of bright values on the borders of kernels (entered through the public file interface) and on calculated kernels."""
import itertools
import json
import os
import numpy as np
import vlib
from vlib import call, quiet
from zernpy import ZernPol, ZernPSF

chk = vlib.Check("C18", "exploration")
TEMPLATE = {}


def load(kernel):
    """PSF object with the kernel, read from a file."""
    path = os.path.join(vlib.SCRATCH, "tmp", f"k{os.getpid()}.json")
    with open(path, "w") as f:
        json.dump({**TEMPLATE, "PSF Kernel": kernel.tolist(), "Kernel Size": kernel.shape[0]}, f)
    p = ZernPSF(ZernPol(m=1, n=3)); p.read_json(path)
    return p


def rings(k):
    """Largest value on each concentric border."""
    n = k.shape[0]
    return [max(k[a, a:n - a].max(), k[n - 1 - a, a:n - a].max(), k[a:n - a, a].max(), k[a:n - a, n - 1 - a].max()) for a in range(n//2 + 1)]


def whole(k):
    """Largest value in the rows and columns on each border (as a row reaches over the already removed borders, which are dim, both are the same)."""
    n = k.shape[0]
    return [max(k[a, :].max(), k[n - 1 - a, :].max(), k[:, a].max(), k[:, n - 1 - a].max()) for a in range(n//2 + 1)]


def expected(k, part):
    """Allowed numbers of removed borders."""
    n = k.shape[0]
    if n <= 3:
        return {0}
    a = 0; r = rings(k); t = part*k.max()
    while a < n//2 and r[a] < t:
        a += 1
    return {a} if n - 2*a >= 3 else {a, n//2 - 1}


def check(c, p, kernel, part, key, give_part=True):
    c.case(); size = None if p.kernel_size == kernel.shape[0] else p.kernel_size; res = call(p.crop_kernel, part) if give_part else call(p.crop_kernel); n = kernel.shape[0]
    if res[0] != "ok":
        c.violation(key, f"raised {res[1]!r}", {"kernel": kernel.tolist(), "part": part}); return
    allowed = expected(kernel, part); a = (n - p.kernel.shape[0])//2
    if max(allowed) > 0:
        c.nontriv(hash(key))
    if a not in allowed or p.kernel.shape != (n - 2*a, n - 2*a) or p.kernel_size != (n - 2*a if a or size is None else size) or not np.array_equal(p.kernel, kernel[a:n - a, a:n - a]):
        c.violation(key, f"kernel {n}x{n}, largest values on borders {[float('%.6g' % x) for x in rings(kernel)]}, part {part} of {kernel.max():.6g}: {p.kernel.shape} with kernel_size = {p.kernel_size} instead of {n - 2*max(allowed)}; "
                    f"values kept: {np.array_equal(p.kernel, kernel[a:n - a, a:n - a]) if 0 <= a <= n//2 else False}", {"kernel": kernel.tolist(), "part": part}); return
    if p.n_int_r_points != TEMPLATE["# of integration points R"] or p.NA != TEMPLATE["NA"] or p.expansion_coeff != TEMPLATE["Expansion Coefficient"]:
        c.violation(key, "other properties changed")
    k2 = p.kernel.copy(); call(p.crop_kernel, part)
    if (p.kernel.shape != k2.shape or not np.array_equal(p.kernel, k2)) and n - 2*max(allowed) >= 3:
        c.violation(key + " again", f"the second cropping changes the kernel to {p.kernel.shape}", {"kernel": kernel.tolist(), "part": part})


def base(n, scale, dim=1e-7):
    k = np.full((n, n), dim); c = n//2; k[c - 1:c + 2, c - 1:c + 2] = 0.75; k[c, c] = 1.0
    return k*scale


def one_pixel(c, item):
    """A single pixel with the value around the threshold at each position; and pairs of pixels."""
    n, part, scale, two = item; cells = [(i, j) for i in range(n) for j in range(n) if max(abs(i - n//2), abs(j - n//2)) > 1]
    sel = [(x,) for x in cells] if not two else list(itertools.combinations(cells, 2))
    for cs in sel:
        for f in (0.999, 1.0, 1.001) if not two else (1.001,):
            k = base(n, scale); t = part*k.max()
            for q, (i, j) in enumerate(cs):
                k[i, j] = t*f if f != 1.0 else t
            check(c, load(k), k, part, f"{n}x{n} part={part} scale={scale} pixels {cs} = {f} x threshold")


def sides(c, item):
    """All subsets of bright corners and sides of two borders."""
    n, part, outer = item; cc = n//2
    def marks(a):
        z = n - 1 - a
        return [(a, a), (a, z), (z, a), (z, z), (a, cc), (z, cc), (cc, a), (cc, z)]
    for inner in range(256):
        k = base(n, 1.0)
        for a, mask in ((0, outer), (1, inner)):
            for b, (i, j) in enumerate(marks(a)):
                if mask >> b & 1:
                    k[i, j] = part*1.5
        check(c, load(k), k, part, f"{n}x{n} part={part} bright marks outer={outer:08b} inner={inner:08b}")


def levels(c, item):
    """All profiles of levels over the borders."""
    n, part, top = item; lv = (0.0, 0.5*part, part, 0.4999, 1.0)
    for prof in itertools.product(lv, repeat=n//2 - 1):
        for s in ((1.0, 0.37) if n < 11 else (1.0,)):
            k = np.zeros((n, n)); c0 = n//2
            for i in range(n):
                for j in range(n):
                    d = max(abs(i - c0), abs(j - c0)); k[i, j] = 1.0 if d == 0 else top if d == 1 else prof[c0 - d]
            k *= s
            if any(abs(x - part*k.max()) < 1e-12 and s != 1.0 for x in rings(k)):
                continue  # equality with rounding
            check(c, load(k), k, part, f"{n}x{n} part={part} profile {prof} scale={s} top={top}")


def computed(c, item):
    (m, n), co, s, size, acc = item
    for part in (0.001, 0.01, 0.05, 0.2, 0.45, None):
        with quiet():
            p = ZernPSF(ZernPol(m=m, n=n)); p.set_physical_props(s[0], s[1], co, s[2]); p.set_calculation_props(size, 20, 40); kernel = p.calculate_psf_kernel(True, part != 0.2, False, acc).copy()
        t = (part or 0.01)*kernel.max()
        if any(abs(x - t) < 1e-9 for x in rings(kernel)):
            continue
        TEMPLATE["# of integration points R"], TEMPLATE["NA"], TEMPLATE["Expansion Coefficient"] = 20, s[0], co
        check(c, p, kernel, part or 0.01, f"computed {(m, n)} {co} {s} {size} part={part}", part is not None)


def other_size(c, item):
    """The size of a next kernel has been set before the present one is cropped."""
    n, size, part, how = item
    for border in range(n//2 + 1):  # first bright border
        k = base(n, 1.0) if n > 3 else np.full((3, 3), 1e-7); k[n//2, n//2] = 1.0; k[border, n//2] = max(0.9, k[border, n//2]); p = load(k)
        with quiet():
            if how == "size":
                p.set_calculation_props(size, TEMPLATE["# of integration points R"], 40)
            else:
                p.set_physical_props(0.9, 0.5, TEMPLATE["Expansion Coefficient"], {3: 0.13, 4: 0.12, 5: 0.1, 7: 0.08, 9: 0.06, 15: 0.05, 40: 0.03}[size]); TEMPLATE["NA"] = 0.9
        check(c, p, k, part, f"{n}x{n} loaded, then {how} for {size}, part={part} border={border}")


def large(c, item):
    """Large kernels: the first bright border at each place, a bright value on each of its sides and corners."""
    n, part, scale = item; cc = n//2
    for a in range(n//2):
        z = n - 1 - a
        for i, j in ((a, cc), (z, cc), (cc, a), (cc, z), (a, a), (z, z), (a, z), (z, a), (a, min(a + 1, z)), (max(z - 1, a), z))[:10 if n < 60 else 4]:
            k = base(n, scale); k[i, j] = part*k.max()*1.1; check(c, load(k), k, part, f"{n}x{n} part={part} scale={scale}: bright value at {(i, j)}")


def invalid(c, item):
    n, part = item
    for loaded in (True, False):
        k = base(n, 1.0) if n >= 3 else np.ones((1, 1)); p = load(k) if loaded else ZernPSF(ZernPol(m=1, n=3))
        if not loaded:
            k = p.kernel.copy()
        size = p.kernel_size; res = call(p.crop_kernel, part); c.case(); c.nontriv(hash((n, part, loaded)))
        if res[0] == "ok" or not isinstance(res[1], ValueError) or not np.array_equal(p.kernel, k) or p.kernel_size != size:
            c.violation(f"crop_kernel({part}) of {n}x{n} loaded={loaded}", f"expected ValueError and no changes, got {res[1]!r}, {p.kernel.shape}")


def main():
    chk.rule = "one evaluation = one cropped kernel compared with the definition; non-trivial: something has to be removed, or the call has to be rejected"
    with quiet():
        p = ZernPSF(ZernPol(m=1, n=3)); p.set_physical_props(0.9, 0.5, 0.1, 0.12); p.set_calculation_props(3, 20, 36); p.calculate_psf_kernel(True, accelerated=False); p.save_json(os.path.join(vlib.SCRATCH, "tmp"), True)
    TEMPLATE.update(json.load(open(p.json_file_path))); q = vlib.QUICK
    parts = (0.01, 0.25, 0.5 - 1e-9) if q else (1e-6, 0.01, 0.1, 0.25, 0.4, 0.5 - 1e-9)
    chk.run(one_pixel, [(n, pa, s, False) for n in ((5, 7, 9, 11, 15) if q else (5, 7, 9, 11, 13, 15, 21)) for pa in parts for s in (1.0, 0.37, 4.0)] + [(n, 0.25, 1.0, True) for n in ((5, 7, 9) if q else (5, 7, 9, 11))], chunk=1)
    chk.run(sides, [(n, 0.25, o) for n in ((7, 9) if q else (7, 9, 11)) for o in range(256)], chunk=4)
    chk.run(levels, [(n, pa, t) for n in ((3, 5, 7, 9, 11) if q else (3, 5, 7, 9, 11, 13)) for pa in (0.0625, 0.25) for t in (0.75, 1.0)], chunk=1)
    chk.run(other_size, [(n, s, pa, h) for n in ((3, 5, 9, 13) if q else (3, 5, 7, 9, 11, 13, 21)) for s in (3, 4, 5, 7, 9, 15, 40) for pa in (0.01, 0.25) for h in ("size", "properties")], chunk=4)
    chk.run(large, [(n, pa, sc) for n in (31, 45, 63, 65, 101, 131, 175) for pa in (0.01, 0.3) for sc in (1.0, 1e-5)], chunk=1)
    chk.run(invalid, [(n, pa) for n in (1, 3, 5, 9) for pa in (-1.0, -1e-12, 0, 0.0, 0.5, 0.5 + 1e-12, 1, 1.0, 100.0)], chunk=4)
    with quiet():
        x = ZernPSF(ZernPol(m=1, n=3)); x.set_physical_props(0.9, 0.5, 0.1, 0.12); x.set_calculation_props(3, 20, 36); x.calculate_psf_kernel(True, accelerated=True)
    chk.run(computed, [((m, n), co, s, size, True) for n in range(1, 5 if q else 8) for m in range(-n, n + 1, 2) for co in (0.05, -0.2) for s in ((0.95, 0.55, 0.14), (0.6, 0.5, 0.05)) for size in (3, 5, 15, 25)], chunk=1)
    chk.sample({"kernel": "7x7, one bright corner on the second border", "part": 0.25}); chk.extra["parts"] = str(parts)
    chk.assumptions = ["square kernels of odd size; a kernel whose 3x3 centre is dim on its border may be cropped to 3x3 or 1x1"]
    chk.finish()


if __name__ == "__main__":
    vlib.main("C18", main)
