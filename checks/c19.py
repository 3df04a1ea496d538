"""C19: convolution with a PSF decided on an impulse basis (the operator is linear before rescaling), on pairs of impulses, constants and all small images, for all data types and kinds of kernels."""
import itertools
import json
import os
import numpy as np
import vlib
from vlib import call, quiet
from zernpy import ZernPol, ZernPSF

chk = vlib.Check("C19", "exploration")
TEMPLATE = {}
DTYPES = ("float64", "float32", "uint8", "uint16", "int16", "int32")
MORE = ("float16", "int8", "uint32", "int64", ">u2", ">f8", ">i4")


def reflect(i, n):
    i %= 2*n
    return i if i < n else 2*n - 1 - i


def reference(img, k):
    """out[i, j] = sum_uv k[u, v] img[i - (u - c), j - (v - c)] / sum(k) with reflected borders."""
    h, w = img.shape; c0, c1 = k.shape[0]//2, k.shape[1]//2; out = np.zeros((h, w)); x = img.astype(float)
    for u in range(k.shape[0]):
        ii = [reflect(i - (u - c0), h) for i in range(h)]
        for v in range(k.shape[1]):
            jj = [reflect(j - (v - c1), w) for j in range(w)]; out += k[u, v]*x[np.ix_(ii, jj)]
    return out/k.sum()


def kernels():
    """Asymmetric, symmetric, impulse-like kernels of several sizes, normalized or not; and calculated ones."""
    out = {}
    for n in (3, 5, 7):
        i, j = np.mgrid[0:n, 0:n]
        out[f"ramp {n}"] = 1.0 + 0.37*i + 0.11*j*j; out[f"bump {n}"] = 1.0/(1.0 + (i - n//2)**2 + (j - n//2)**2); out[f"small {n}"] = (1.0 + 0.5*j)*1e-5
        for a, b in ((0, 0), (0, n - 1), (n - 1, n//2), (n//2, n//2)):
            d = np.zeros((n, n)); d[a, b] = 1.0; out[f"impulse {n} {(a, b)}"] = d
    out["one"] = np.ones((1, 1))
    return out


def load(k):
    path = os.path.join(vlib.SCRATCH, "tmp", f"k{os.getpid()}.json")
    with open(path, "w") as f:
        json.dump({**TEMPLATE, "PSF Kernel": k.tolist(), "Kernel Size": k.shape[0]}, f)
    p = ZernPSF(ZernPol(m=1, n=3)); p.read_json(path)
    return p


def psf_of(kname):
    if not kname.startswith("computed"):
        return load(kernels()[kname])
    _, m, n, norm = kname.split()
    with quiet():
        p = ZernPSF(ZernPol(m=int(m), n=int(n))); p.set_physical_props(0.9, 0.55, 0.15, 0.13); p.set_calculation_props(5, 20, 36); p.calculate_psf_kernel(True, norm == "1", False, False)
    return p


def images(h, w):
    """Impulse basis, pairs of impulses, constants and gradients."""
    cells = [(i, j) for i in range(h) for j in range(w)]
    for cell in cells:
        x = np.zeros((h, w)); x[cell] = 100; yield f"impulse {cell}", x
    for a, b in itertools.combinations(cells, 2) if h*w <= 12 else ((cells[0], cells[-1]), (cells[0], cells[1]), (cells[w], cells[-2])) if h > 1 and w > 1 else ():
        x = np.zeros((h, w)); x[a] = 100; x[b] = 37; yield f"impulses {a} {b}", x
    for v in (0, 1, 7, 200):
        yield f"constant {v}", np.full((h, w), float(v))
    yield "gradient", np.arange(h*w).reshape(h, w)*3.0 + 1.0
    yield "zero", np.zeros((h, w))


def convolution(c, item):
    kname, (h, w), dtypes = item; p = psf_of(kname); k = p.kernel.copy()
    for name, x in images(h, w):
        for dt in dtypes:
            for layout in (("C",) if dt != "float64" or h*w > 12 else ("C", "F", "strided", "read-only")):
                if not np.can_cast(np.min_scalar_type(int(x.max())), dt) and np.dtype(dt).kind != "f":
                    continue
                img = x.astype(dt)
                if layout == "F":
                    img = np.asfortranarray(img)
                elif layout == "strided":
                    big = np.full((2*h, 2*w), 55, dtype=dt); big[::2, ::2] = img; img = big[::2, ::2]
                elif layout == "read-only":
                    img.setflags(write=False)
                ref = reference(img, k); before = img.copy()
                for scale in (True, False, None):
                    key = f"kernel {kname}, {h}x{w} {dt} {layout} {name} scale={scale}"; c.case()
                    if name != "zero":
                        c.nontriv(hash(key))
                    res = call(p.convolute_img, img) if scale is None else call(p.convolute_img, img, scale); rep = {"kernel": kname, "image": x.tolist(), "dtype": dt, "scale": scale}
                    if res[0] != "ok":
                        c.violation(key, f"raised {res[1]!r}", rep); continue
                    out = res[1]; want = ref
                    if scale is not False and ref.max() > 1e-12:
                        want = ref*(float(img.max())/ref.max())
                    tol = 0.5 + 1e-6 if img.dtype.kind in "ui" else 2e-3*max(1.0, abs(want).max()) if dt == "float16" else 1e-10*max(1.0, abs(want).max()) if img.dtype.itemsize == 8 else 1e-5*max(1.0, abs(want).max())
                    if not isinstance(out, np.ndarray) or out.shape != img.shape or out.dtype != img.dtype:
                        c.violation(key, f"shape {np.shape(out)}, type {getattr(out, 'dtype', type(out))}", rep); continue
                    if not np.all(np.abs(out.astype(float) - want) <= tol):
                        c.violation(key, f"{vlib.short(out.tolist(), 200)} instead of {vlib.short(np.round(want, 4).tolist(), 200)}", rep)
                    if not np.array_equal(img, before) or np.shares_memory(out, img) or not np.array_equal(p.kernel, k) or np.shares_memory(out, p.kernel):
                        c.violation(key, "the image or the kernel has been changed or is shared", rep); p = psf_of(kname)
                    if name.startswith("constant") and not np.allclose(out.astype(float), x, atol=1e-4 if dt == "float32" else 1e-9):
                        c.violation(key, f"a constant image isn't preserved: {vlib.short(out.tolist())}", rep)


def signed(c, item):
    """All small images over an alphabet with negative and fractional values (floating point and signed types), without rescaling, and linearity."""
    kname, (h, w), alpha = item; p = psf_of(kname); k = p.kernel.copy()
    for vals in itertools.product(alpha, repeat=h*w):
        x = np.array(vals, float).reshape(h, w); ref = reference(x, k)
        for dt in ("float64", "int16", "int8", "float32", "int32"):
            img = np.round(x).astype(dt) if dt[0] == "i" else x.astype(dt)
            r = ref if dt[0] == "f" else reference(img, k); res = call(p.convolute_img, img, False); c.case(); key = f"kernel {kname} image {x.tolist()} {dt}"; c.nontriv(hash(key))
            if res[0] != "ok" or res[1].dtype != img.dtype or not np.all(np.abs(res[1].astype(float) - r) <= ({"float64": 1e-9, "float32": 1e-5}.get(dt, 0.5 + 1e-6))):
                c.violation(key, f"{vlib.short(res[1])} instead of {vlib.short(r)}", {"kernel": kname, "image": x.tolist()})
        if x.max() > 0 and ref.max() > 1e-6:
            res = call(p.convolute_img, x); c.case()
            if res[0] != "ok" or not np.allclose(res[1], ref*x.max()/ref.max(), rtol=0, atol=1e-8*max(1.0, abs(ref*x.max()/ref.max()).max())):
                c.violation(f"kernel {kname} image {x.tolist()} rescaled", f"{vlib.short(res[1])} instead of {vlib.short(ref*x.max()/ref.max())}")


def large(c, item):
    """Large images, all pixels."""
    kname, (h, w) = item; p = psf_of(kname); k = p.kernel.copy(); i, j = np.mgrid[0:h, 0:w]
    for name, x in (("pattern", np.round(50*(1.2 + np.sin(i*0.37 + j*0.11))*(1 + ((i*j) % 3 == 1))) + (i + 3*j) % 11), ("disk", np.where((i - h/2)**2 + (j - w/3)**2 < (min(h, w)/3)**2, 200.0, 0.0)), ("last pixel", np.where((i == h - 1) & (j == w - 1), 250.0, 1.0)), ("constant", np.full((h, w), 9.0))):
        ref = reference(x, k)
        for dt in ("float64", "float32", "uint16", "uint8"):
            img = x.astype(dt)
            for scale in (True, False):
                key = f"kernel {kname}, large {h}x{w} {dt} {name} scale={scale}"; c.case(); c.nontriv(key); res = call(p.convolute_img, img, scale); want = ref*(x.max()/ref.max()) if scale else ref; tol = {"float64": 1e-8, "float32": 1e-2}.get(dt, 0.5 + 1e-6)
                if res[0] != "ok" or res[1].shape != (h, w) or res[1].dtype != img.dtype or not np.all(np.abs(res[1].astype(float) - want) <= tol) or not np.array_equal(img, x.astype(dt)) or not np.array_equal(p.kernel, k):
                    c.violation(key, f"{vlib.short(res[1])} instead of {vlib.short(want)}", {"kernel": kname, "shape": [h, w], "dtype": dt, "scale": scale, "image": name})


def intensities(c, item):
    """Dim and bright images: the whole ranges of integer types, very small and large real numbers."""
    kname, (h, w) = item; p = psf_of(kname); k = p.kernel.copy(); i, j = np.mgrid[0:h, 0:w]; pat = {"pattern": 1.0 + np.sin(i*0.37 + j*1.11)*(1 + ((i*j) % 3 == 1))/2.0, "pixel": 1.0*((i == 2) & (j == w - 2)), "half": 1.0*(j > w//2), "one dark": 1.0*((i != 0) | (j != 0))}
    for dt, tops in {"uint8": (1, 2, 17, 254, 255), "uint16": (1, 255, 256, 257, 1000, 32768, 65534, 65535), "int16": (128, 256, 32767), "int8": (127,), "int32": (256, 65536, 10**6 + 1, 2**31 - 1), "uint32": (2**32 - 1,), "int64": (300, 2**40 + 1), "float32": (1e-20, 1e-3, 256.5, 1e6, 1e20), "float64": (1e-200, 1e-12, 1e-3, 1.0, 257.25, 1e9, 1e200)}.items():
        for top, (name, x) in itertools.product(tops, pat.items()):
            if x.max() == 0.0:
                continue
            x = x/x.max()*top; img = np.round(x).astype(dt) if np.dtype(dt).kind in "iu" else x.astype(dt); ref = reference(img, k)
            for scale in (True, False, None):
                key = f"kernel {kname}, {h}x{w} {dt} {name} with maximum {top} scale={scale}"; c.case(); c.nontriv(key); res = call(p.convolute_img, img) if scale is None else call(p.convolute_img, img, scale)
                if scale is not False and ref.max() < 1e-9*top:
                    continue
                want = ref if scale is False else ref*(float(img.max())/ref.max()); tol = 0.5 + 1e-6*max(1.0, top*1e-6) if img.dtype.kind in "iu" else top*(1e-5 if dt == "float32" else 1e-10)
                if res[0] != "ok" or res[1].shape != (h, w) or res[1].dtype != img.dtype or not np.all(np.abs(res[1].astype(float) - want) <= tol):
                    c.violation(key, f"{vlib.short(res[1])} instead of {vlib.short(want)}", {"kernel": kname, "shape": [h, w], "dtype": dt, "scale": scale, "image": name, "maximum": top})


def main():
    chk.rule = "one evaluation = one convolved image compared with the direct sum; non-trivial: image with non-zero pixels"
    with quiet():
        p = ZernPSF(ZernPol(m=1, n=3)); p.set_physical_props(0.9, 0.5, 0.1, 0.12); p.set_calculation_props(3, 20, 36); p.calculate_psf_kernel(True, accelerated=False); p.save_json(os.path.join(vlib.SCRATCH, "tmp"), True)
    TEMPLATE.update(json.load(open(p.json_file_path))); q = vlib.QUICK
    shapes = [(1, 1), (1, 4), (3, 1), (2, 2), (3, 3), (2, 5), (4, 3), (6, 6), (9, 4)] if q else [(h, w) for h in range(1, 8) for w in range(1, 8)] + [(12, 5), (5, 12), (13, 13)]
    ks = list(kernels()) + [f"computed {m} {n} {norm}" for m, n in ((1, 3), (0, 2), (-3, 3)) for norm in (0, 1)]
    chk.run(convolution, [(k, s, DTYPES) for k in ks for s in shapes], chunk=2)
    chk.run(convolution, [(k, s, MORE) for k in ("ramp 3", "small 5", "impulse 3 (0, 2)", "bump 7", "computed 1 3 1", "computed 0 2 0") for s in ((1, 4), (3, 3), (4, 3), (9, 4))], chunk=1)
    chk.run(large, [(k, s) for k in ("ramp 3", "computed 1 3 1") for s in ((640, 641), (1025, 517))], chunk=1)
    chk.run(large, [(k, s) for k in ("ramp 3", "ramp 7", "small 5", "impulse 5 (0, 4)", "computed 1 3 1", "computed -3 3 0") for s in ((64, 64), (101, 37), (37, 101), (256, 255), (5, 300))], chunk=1)
    chk.run(intensities, [(k, s) for k in ks for s in ((4, 6), (1, 7), (9, 5), (3, 3)) if s[0] > 2 or "computed" in k], chunk=1)
    al = (-2.0, 0.0, 1.5); small = [(1, 2), (2, 1), (2, 2), (1, 3), (2, 3)] + ([(3, 3)] if not q else [])
    chk.run(signed, [(k, s, al) for k in ("ramp 3", "ramp 5", "impulse 3 (0, 2)", "bump 3", "computed 1 3 1") for s in small], chunk=1)
    chk.sample({"image": "impulse at (0, 2) of 4x3", "kernel": "ramp 5", "types": DTYPES, "rescaled": "both"})
    chk.assumptions = ["kernels with positive sum", "rescaling is checked for images with a positive maximum"]
    chk.finish()


if __name__ == "__main__":
    vlib.main("C19", main)
