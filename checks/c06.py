"""C06: the generated pyramid of polynomials: complete, ordered, comparable, and an orthonormal basis on the unit disk."""
import itertools
import numpy as np
import vlib, zref
from vlib import call, quiet
import zernpy
from zernpy import ZernPol

chk = vlib.Check("C06", "exploration")
OSA = zref.osa_table(); NOLL = zref.noll_table(); FRINGE = zref.fringe_table(); PYR = zref.all_orders(54)
# conventional names (up to the 4th order: Wikipedia; 5th: telescope-optics.net; 6th and 7th: the same scheme continued)
NAMES = {(0, 0): "Piston",
         (-1, 1): "Vertical tilt", (1, 1): "Horizontal tilt",
         (-2, 2): "Oblique astigmatism", (0, 2): "Defocus", (2, 2): "Vertical astigmatism",
         (-3, 3): "Vertical trefoil", (-1, 3): "Vertical coma", (1, 3): "Horizontal coma", (3, 3): "Oblique trefoil",
         (-4, 4): "Oblique quadrafoil", (-2, 4): "Oblique secondary astigmatism", (0, 4): "Primary spherical", (2, 4): "Vertical secondary astigmatism", (4, 4): "Vertical quadrafoil",
         (-5, 5): "Vertical pentafoil", (-3, 5): "Vertical secondary trefoil", (-1, 5): "Vertical secondary coma", (1, 5): "Horizontal secondary coma", (3, 5): "Oblique secondary trefoil", (5, 5): "Oblique pentafoil",
         (-6, 6): "Oblique sexfoil", (-4, 6): "Oblique secondary quadrafoil", (-2, 6): "Oblique thirdly astigmatism", (0, 6): "Secondary spherical", (2, 6): "Vertical thirdly astigmatism", (4, 6): "Vertical secondary quadrafoil", (6, 6): "Vertical sexfoil",
         (-7, 7): "Vertical septfoil", (-5, 7): "Vertical secondary pentafoil", (-3, 7): "Vertical thirdly trefoil", (-1, 7): "Vertical thirdly coma", (1, 7): "Horizontal thirdly coma", (3, 7): "Oblique thirdly trefoil", (5, 7): "Oblique secondary pentafoil", (7, 7): "Oblique septfoil"}
SHORT = {(0, 0): "Piston",
         (-1, 1): "Vert. tilt", (1, 1): "Hor. tilt",
         (-2, 2): "Obliq. astigm.", (0, 2): "Defocus", (2, 2): "Vert. astigm.",
         (-3, 3): "Vert. 3foil", (-1, 3): "Vert. coma", (1, 3): "Hor. coma", (3, 3): "Obliq. 3foil",
         (-4, 4): "Obliq. 4foil", (-2, 4): "Obliq. 2d ast.", (0, 4): "Spherical", (2, 4): "Vert. 2d ast.", (4, 4): "Vert. 4foil",
         (-5, 5): "Vert. 5foil", (-3, 5): "Vert. 2d 3foil", (-1, 5): "Vert. 2d coma", (1, 5): "Hor. 2d coma", (3, 5): "Obliq. 2d 3foil", (5, 5): "Obliq. 5foil",
         (-6, 6): "Obliq. 6foil", (-4, 6): "Obliq.2d 4foil", (-2, 6): "Obliq. 3d ast.", (0, 6): "2d spherical", (2, 6): "Vert. 3d ast.", (4, 6): "Vert. 2d 4foil", (6, 6): "Vert. 6foil",
         (-7, 7): "Vert. 7foil", (-5, 7): "Vert. 2d 5foil", (-3, 7): "Vert. 3d 3foil", (-1, 7): "Vert. 3d coma", (1, 7): "Hor. 3d coma", (3, 7): "Obliq.3d 3foil", (5, 7): "Obliq.2d 5foil", (7, 7): "Obliq. 7foil"}


def pyramid(c, k):
    want = zref.all_orders(k)
    for arg in (k, float(k)) if k <= 6 else (k,):
        st, pols = call(zernpy.generate_polynomials, arg); c.case()
        key = f"generate_polynomials({arg!r})"
        if st != "ok" or not isinstance(pols, tuple):
            c.violation(key, f"expected a tuple, got {pols!r}"); return
        if any(not isinstance(p, ZernPol) for p in pols) or [p.get_mn_orders() for p in pols] != want:
            c.violation(key, f"orders {[getattr(p, 'get_mn_orders', lambda: p)() for p in pols][:8]}..., expected {want[:8]}... ({len(want)})"); return
        for j, p in enumerate(pols):
            c.case()
            if p.get_indices() != (want[j], j, NOLL[want[j]], FRINGE[want[j]]):
                c.violation(key, f"element {j} has indices {p.get_indices()}"); return
        if len({id(p) for p in pols}) != len(pols):
            c.violation(key, "the same instance several times")
    with quiet() as w:
        zernpy.generate_polynomials(k)
    c.case()
    if (len(w) > 0) != (k > 30):
        c.violation(f"generate_polynomials({k}) warning", f"{len(w)} warnings for the order {k} (expected above 30 only)")
    c.nontriv(f"pyr{k}")


def order(c, mn):
    """Comparison with all the others."""
    a = ZernPol(m=mn[0], n=mn[1]); ia = OSA[mn]
    for o in zref.all_orders(MAXCMP):
        b = ZernPol(osa=OSA[o]); ib = OSA[o]; c.case(5)
        got = (bool(a > b), bool(a < b), bool(a == b), bool(a != b), bool(b == a)); want = (ia > ib, ia < ib, ia == ib, ia != ib, ia == ib)
        if got != want:
            c.violation(f"compare {mn} {o}", f"(>, <, ==, !=, ==) is {got}, expected {want}")
        c.nontriv(f"cmp{mn}{o}")


def neighbours(c, j):
    """Comparisons over the whole supported range: with the closest polynomials, the mirrored one and the ones with close numbers in the other schemes."""
    mn = PYR[j]; a = ZernPol(osa=j); other = {i for d in (0, 1, 2, 3, 54, 55, 56) for i in (j - d, j + d)} | {OSA[(-mn[0], mn[1])], 0, len(PYR) - 1, len(PYR)//2}
    for i in sorted(i for i in other if 0 <= i < len(PYR)):
        b = ZernPol(m=PYR[i][0], n=PYR[i][1]); c.case(5); got = (bool(a > b), bool(a < b), bool(a == b), bool(a != b), bool(b == a)); want = (j > i, j < i, i == j, i != j, i == j)
        if got != want:
            c.violation(f"compare {mn} {PYR[i]}", f"(>, <, ==, !=, ==) is {got}, expected {want}")
    c.nontriv(f"neighbours{j}")


def sorting(c, _):
    pols = [ZernPol(m=m, n=n) for m, n in zref.all_orders(2)]
    for size in (2, 3, 4):
        for perm in itertools.permutations(pols, size):
            s = sorted(perm); c.case(); got = [p.get_indices()[1] for p in s]
            if got != sorted(p.get_indices()[1] for p in perm) or max(perm).get_indices()[1] != got[-1] or min(perm).get_indices()[1] != got[0]:
                c.violation(f"sorted {[p.get_mn_orders() for p in perm]}", f"sorted to {got}")


def naming(c, _):
    full = {}; short = {}
    for mn in zref.all_orders(7):
        z = ZernPol(m=mn[0], n=mn[1]); f, s = z.get_polynomial_name(), z.get_polynomial_name(short=True); c.case(2)
        if mn in NAMES and f != NAMES[mn]:
            c.violation(f"name {mn}", f"{f!r}, conventional: {NAMES[mn]!r}")
        if mn in SHORT and s != SHORT[mn]:
            c.violation(f"short name {mn}", f"{s!r}, conventional: {SHORT[mn]!r}")
        for d, v, nm in ((full, f, "name"), (short, s, "short name")):
            if not isinstance(v, str) or not v:
                c.violation(f"{nm} {mn}", f"{nm} is {v!r}")
            if v in d:
                c.violation(f"{nm} {mn}", f"{nm} {v!r} is the same as of {d[v]}")
            d[v] = mn
        if f and f not in str(z):
            c.violation(f"str {mn}", f"{str(z)!r} without the name {f!r}")
    for mn in zref.all_orders(54, 8):
        z = ZernPol(m=mn[0], n=mn[1]); c.case()
        if not isinstance(z.get_polynomial_name(), str) or z.get_polynomial_name() in full and z.get_polynomial_name():
            c.violation(f"name {mn}", f"name {z.get_polynomial_name()!r}")


def gram(c, spec):
    """Inner products of all pairs up to the order by a quadrature exact for all occurring products (Gauss-Legendre x uniform angles)."""
    top, exact = spec; x, w = np.polynomial.legendre.leggauss(top + 3); r = 0.5*(x + 1); w = 0.5*w*r
    n_th = 2*top + 4; th = 2*np.pi*np.arange(n_th)/n_th
    T, Rr = np.meshgrid(th, r); rv, tv = Rr.ravel(), T.ravel(); W = np.repeat(w, n_th)/n_th*2  # normalised by pi
    pols = zernpy.generate_polynomials(top); V = np.array([p.polynomial_value(rv, tv, use_exact_eq=exact) for p in pols])
    G = (V*W) @ V.T; D = np.abs(G - np.eye(len(pols))); c.case(D.size)
    tol = 1e-9 if top <= 14 else (1e-6 if top <= 20 else 1e-3)
    i, j = np.unravel_index(np.argmax(D), D.shape); c.extra[f"max_gram_deviation_order_{top}"] = float(D.max())
    for a, b in zip(*np.where(~(D <= tol))):
        c.violation(f"<{pols[a].get_mn_orders()}, {pols[b].get_mn_orders()}> exact={exact}", f"inner product {G[a, b]}"); break
    c.n_nontrivial += 0
    c.nontriv(f"gram{spec}")


def invalid(c, _):
    for bad in (-1, -5, -54, -1.0):
        st, v = call(zernpy.generate_polynomials, bad); c.case()
        if st == "ok" or not isinstance(v, ValueError):
            c.violation(f"generate_polynomials({bad})", f"expected ValueError, got {vlib.short(v)}")
    for bad in (55, 60):
        st, v = call(zernpy.generate_polynomials, bad); c.case()
        if st == "ok" or not isinstance(v, ValueError):
            c.violation(f"generate_polynomials({bad})", f"expected ValueError, got {vlib.short(v)}")


MAXCMP = 12 if vlib.QUICK else 20


def main():
    chk.rule = ("one evaluation = one element of a generated pyramid, one comparison of a pair, one inner product of a pair, or one name; "
                "non-trivial: distinct pyramids, ordered pairs and Gram matrices")
    chk.run(pyramid, list(range(0, 55)), chunk=2)
    chk.run(order, zref.all_orders(MAXCMP))
    chk.run(neighbours, list(range(len(PYR))), chunk=20)
    sorting(chk, 0); naming(chk, 0); invalid(chk, 0)
    chk.run(gram, [(k, e) for k in ((6, 12, 14, 20, 24) if vlib.QUICK else (6, 12, 14, 20, 24, 28, 30)) for e in (False, True)], chunk=1)
    chk.sample({"pyramid": 54, "elements": 1540}); chk.sample({"inner products": "all pairs of orders <= 24"})
    chk.assumptions = [f"pyramids 0..54, comparisons of all ordered pairs up to the order {MAXCMP}, inner products up to the order 24 (quick) / 30"]
    chk.finish()


if __name__ == "__main__":
    vlib.main("C06", main)
