"""C09: phase images: every pixel of all small images against the exact sum; random phases under every answer of the random source."""
import itertools
import math
import random
import numpy as np
import vlib, zref
from vlib import call
import zernpy
from zernpy import ZernPol

chk = vlib.Check("C09", "exploration")
POLS = [(0, 0), (-1, 1), (1, 1), (0, 2), (2, 2), (-3, 3), (1, 3), (-2, 4), (5, 5), (-1, 7), (12, 12), (-2, 16)]
AMPL = [1.0, -0.75, 0.0, 2e-6, 40]


def val(mn, r, th):
    m, n = mn
    return zref.normf(m, n)*zref.radial(abs(m), n, r)[0]*zref.triangular(m, th)


def pixels(w, h):
    """Polar coordinates of all pixels: (row, column, r, theta), r None for outside; 'edge' for rounding-ambiguous border."""
    rc, cc = h//2, w//2; rad = 1 + min(w, h)//2
    for i in range(h):
        for j in range(w):
            d2 = (i - rc)**2 + (j - cc)**2
            yield i, j, (math.sqrt(d2)/rad if d2 <= rad*rad else None), math.atan2(rc - i, j - cc)


def check_image(c, key, img, pols, ampl, w, h, info):
    c.case()
    if not isinstance(img, np.ndarray) or img.shape != (h, w):
        c.violation(key, f"{key}: expected an image with {h} rows and {w} columns, got {getattr(img, 'shape', type(img))}", info); return
    for i, j, r, th in pixels(w, h):
        got = img[i, j]
        if r is None:
            want = 0.0; tol = 0.0
        else:
            t = [float(a)*val(p, r, th) for a, p in zip(ampl, pols) if a != 0]; want = sum(t); tol = 1e-9*(1 + sum(abs(float(a))*zref.normf(*p) for a, p in zip(ampl, pols)))
        if not abs(got - want) <= tol:
            c.violation(key, f"{key}: pixel ({i}, {j}) is {got!r} instead of {want!r}", info); return
    c.nontriv(key)


def images(c, item):
    """All images of one size."""
    w, h, sel, coeffs = item; pols = [POLS[i] for i in sel]; zs = tuple(ZernPol(m=m, n=n) for m, n in pols)
    for nm, cc, zz in (("tuple", tuple(coeffs), zs), ("list", list(coeffs), list(zs)), ("ndarray", np.array(coeffs, dtype=float), zs)):
        if nm != "tuple" and (w + h) % 5:
            continue
        key = f"image {w}x{h} {nm} {coeffs} {pols}"; before = list(cc)
        st, img = call(zernpy.generate_phases_image, zz, cc, w, h)
        if st != "ok":
            c.case(); c.violation(key, f"{key}: raised {img!r}"); continue
        check_image(c, key, img, pols, coeffs, w, h, {"width": w, "height": h, "orders": pols, "amplitudes": coeffs})
        if list(cc) != before:
            c.violation(key, f"{key}: the amplitudes of the caller are changed")


def large(c, item):
    """Large images."""
    w, h, sel = item; pols = [POLS[i] for i in sel]; co = [0.5, -0.25, 1.5][:len(sel)]; key = f"large image {w}x{h} {pols}"; info = {"width": w, "height": h, "orders": pols}; c.case()
    st, img = call(zernpy.generate_phases_image, tuple(ZernPol(m=m, n=n) for m, n in pols), tuple(co), w, h)
    if st != "ok" or not isinstance(img, np.ndarray) or img.shape != (h, w):
        c.violation(key, f"{key}: {vlib.short(img)}", info); return
    i, j = np.mgrid[0:h, 0:w]; di, dj = h//2 - i, j - w//2; rad = 1 + min(w, h)//2; d2 = di**2 + dj**2; inside = d2 <= rad*rad
    r = np.where(inside, np.sqrt(d2)/rad, 0.0); th = np.arctan2(di, dj); want = np.where(inside, sum(a*zref.zern_np(m, n, r, th) for a, (m, n) in zip(co, pols)), 0.0); d = np.abs(img - want)
    if not np.all(d <= 1e-8) or np.any(img[~inside] != 0.0):
        q = np.unravel_index(np.nanargmax(d), d.shape); c.violation(key, f"{key}: pixel {tuple(map(int, q))} is {img[q]!r} instead of {want[q]!r}", info)
    c.nontriv(key)


def scales(c, item):
    """Amplitudes of any magnitude."""
    w, h, sel, p = item; pols = [POLS[i] for i in sel]; base = [0.5, -0.25, 1/3][:len(sel)]; s = 10.0**p; key = f"scale 1e{p} image {w}x{h} {pols}"
    st, img = call(zernpy.generate_phases_image, tuple(ZernPol(m=m, n=n) for m, n in pols), tuple(b*s for b in base), w, h)
    if st != "ok":
        c.case(); c.violation(key, f"{key}: raised {img!r}"); return
    check_image(c, key, np.asarray(img)/s, pols, base, w, h, {"width": w, "height": h, "orders": pols, "scale": p})


# ---------------------------------------------------------------- random phases
class Source:
    """Enumerable random source: `plan` gives the alternative taken at each draw, later draws take the alternative 0."""

    def __init__(self, plan, rich):
        self.plan = plan; self.widths = []; self.rich = rich

    def pick(self, alts):
        k = len(self.widths); self.widths.append(len(alts))
        return alts[self.plan[k] if k < len(self.plan) else 0]

    def choice(self, seq):
        seq = list(seq); alts = []
        for x in seq:
            if x not in alts:
                alts.append(x)
        if len(alts) > 4:
            alts = [alts[0], alts[-1], alts[len(alts)//2], alts[1]]
        return self.pick(alts)

    def uniform(self, a, b):
        if a < 0.0 < b:  # symmetric range: extremes, tiny, just below and at the threshold of a noticeable amplitude
            alts = [0.0, b, a, 0.0799, -0.08, 0.00004] if self.rich else [0.0, b, -0.0799, -0.3]
        else:
            alts = [a, b, 0.5*(a + b)]
        return self.pick(alts)

    def random(self):
        return self.pick([0.0, 1 - 2.0**-53, 0.5])

    def randint(self, a, b):
        return self.choice(list(range(a, b + 1)))

    def randrange(self, a, b=None, step=1):
        return self.choice(list(range(a, b, step)) if b is not None else list(range(a)))

    def getrandbits(self, k):
        return self.pick([0, 2**k - 1])

    def choices(self, population, weights=None, *, cum_weights=None, k=1):
        pop = list(population)
        if weights is not None:
            pop = [p for p, wt in zip(pop, weights) if wt > 0]
        return [self.choice(pop) for _ in range(k)]


def one_random(c, order, w, h, digits, plan, rich):
    """Run once with the given answers; returns numbers of alternatives of all draws."""
    src = Source(plan, rich); saved = {}
    for nm in ("choice", "uniform", "random", "randint", "randrange", "getrandbits", "choices"):
        saved[nm] = getattr(random, nm); setattr(random, nm, getattr(src, nm))
    np.random.seed(1)
    try:
        st, res = call(zernpy.generate_random_phases, order, w, h, digits)
    finally:
        for nm, f in saved.items():
            setattr(random, nm, f)
    key = f"random phases order={order} {w}x{h} digits={digits} answers={plan}"; c.transitions += len(src.widths)
    info = {"max_order": order, "img_width": w, "img_height": h, "round_digits": digits, "answers": plan}
    if st != "ok":
        c.case(); c.violation(key, f"{key}: raised {res!r}", info); return src.widths
    img, ampl, pols = res
    if not isinstance(pols, tuple) or not isinstance(ampl, np.ndarray) or ampl.shape != (len(pols),):
        c.case(); c.violation(key, f"{key}: not (image, 1D array, tuple)", info); return src.widths
    orders = [p.get_mn_orders() for p in pols]
    if orders != zref.all_orders(order):
        c.violation(key, f"{key}: polynomials {orders} instead of the pyramid of the order {order}", info); return src.widths
    if not np.all(np.abs(ampl) <= 1.5 + 0.5*10.0**-digits) or not np.max(np.abs(ampl)) >= 0.08 - 1e-12:
        c.violation(key, f"{key}: amplitudes {ampl.tolist()} out of [-1.5, 1.5] or none noticeable", info); return src.widths
    check_image(c, key, img, orders, ampl.tolist(), w, h, info)
    return src.widths


def explore(c, item):
    """Depth-first search over all answers; at most `bound` answers differ from the first alternative."""
    order, w, h, digits, bound, rich, prefix = item; stack = [list(prefix)]
    if prefix and sum(1 for x in prefix if x) > bound:
        return
    first = True
    while stack:
        plan = stack.pop(); widths = one_random(c, order, w, h, digits, plan, rich); c.states += 1
        dev = sum(1 for x in plan if x)
        if dev < bound and not (first and prefix == ["root"]):
            for k in range(len(plan), len(widths)):
                for alt in range(1, widths[k]):
                    stack.append(plan + [0]*(k - len(plan)) + [alt])
        first = False


def errors(c, _):
    z = ZernPol(m=1, n=1)
    for zz, aa in (((), ()), ((z,), (1.0, 2.0)), ((z, z), (1.0,)), ((z,), ()), ((), (1.0,)), ((z, 5), (1.0, 2.0))):
        res = call(zernpy.generate_phases_image, zz, aa, 5, 5); c.case()
        if res[0] == "ok" or not isinstance(res[1], ValueError):
            c.violation(f"generate_phases_image({len(zz)} polynomials, {aa})", f"expected ValueError, got {vlib.short(res[1])}")


def main():
    chk.rule = ("one evaluation = one image with all pixels checked; non-trivial: distinct (size, polynomials, amplitudes), resp. distinct sequence of answers "
                "of the random source")
    top = 12 if vlib.QUICK else 16; items = []
    sels = [((i,), (1.0,)) for i in range(len(POLS))] + [((3, 1), (0.5, -2.0)), ((6, 0, 5), (0.0, 1.0, -0.5)), ((11, 4), (-1.0, 3))]
    for w in range(1, top):
        for h in range(1, top):
            for k, (sel, co) in enumerate(sels):
                items.append((w, h, sel, co))
    for sel in itertools.combinations(range(0, len(POLS), 2 if vlib.QUICK else 1), 2):  # all pairs of amplitudes
        for co in itertools.product(AMPL, repeat=2):
            items.append((6, 7, sel, co))
    items += [(w, h, (6, 3), (0.5, -0.25)) for w, h in ((31, 5), (5, 31), (40, 41), (33, 33), (64, 63))]
    chk.run(images, items, chunk=16)
    chk.run(scales, [(w, h, s, p) for w, h, s in ((5, 6, (6,)), (7, 4, (3, 1, 7)), (8, 8, (0, 5))) for p in (range(-290, 291, 5) if vlib.QUICK else range(-290, 291))] + [(6, 5, (3, 1), p) for p in range(-25, 26)], chunk=10)
    chk.run(large, [(513, 513, (6,)), (513, 513, (3, 1, 7)), (640, 480, (0, 5)), (481, 1025, (6,))], chunk=1)
    chk.run(large, [(w, h, s) for w, h in ((101, 100), (100, 101), (128, 128), (129, 129), (257, 31), (31, 257), (200, 300), (512, 64), (255, 256)) for s in ((6,), (3, 1, 7), (0, 5))], chunk=1)
    rnd = []
    rnd += [(0, 3, 4, 4, 9, True), (1, 4, 3, 4, 9, True), (2, 3, 3, 4, 5, False), (3, 3, 4, 4, 4, False), (4, 4, 3, 2, 2, True), (5, 3, 3, 4, 2, False), (9, 3, 3, 4, 1, True),
            (1, 3, 3, 1, 9, False), (2, 4, 3, 2, 4, True)]
    if not vlib.QUICK:
        rnd += [(2, 4, 3, 4, 9, True), (3, 3, 4, 4, 5, False), (4, 4, 4, 4, 4, False), (6, 3, 3, 4, 3, False), (8, 3, 3, 4, 2, True)]
    work = []
    for order, w, h, digits, bound, rich in rnd:  # split by the first deviation
        probe = vlib.Check("C09", "exploration"); widths = one_random(probe, order, w, h, digits, [], rich)
        work.append((order, w, h, digits, 0, rich, ()))
        for k in range(len(widths)):
            for alt in range(1, widths[k]):
                work.append((order, w, h, digits, bound, rich, tuple([0]*k + [alt])))
    chk.run(explore, work, chunk=1)
    errors(chk, 0)
    chk.sample({"image": "6x7", "orders": [POLS[2], POLS[4]], "amplitudes": [-0.75, 2e-6]}); chk.sample({"random": {"max_order": 1, "answers": [1, 4, 1, 2]}})
    chk.assumptions = [f"image sizes 1..{top - 1} (and some larger), {len(POLS)} polynomials",
                       "random source: the functions of the module random; alternatives of uniform(): 0, both ends, around 0.08; other sources run with a fixed seed"]
    chk.finish()


if __name__ == "__main__":
    vlib.main("C09", main)
