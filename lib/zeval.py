"""Shared alphabets and oracles of the checks of evaluation methods (C03, C04)."""
import math
from functools import lru_cache
import numpy as np
import zref

RADII = [0.0, 2.0**-60, 2.0**-30, 1e-3, 1/64, 0.1, 0.25, 0.3, 0.4, 0.5, 0.55, 0.625, 0.7, 0.75, 0.8125, 0.875, 0.9, 0.9375, 0.97, 0.99, 1 - 2**-10,
         1 - 2.0**-53, 1.0]
ANGLES = [k*math.pi/12 for k in range(25)] + [0.1, 1.0, 2.0, 3.0, 4.0, 5.0, 6.0, 1e-9, 2*math.pi]
ANGLES[24] = 2*math.pi
OUTSIDE = [-0.5, -2*math.pi, -1e-3, 2*math.pi + 0.25, 7.0, 4*math.pi + 1.0, 100.0]
TINY = 1e-300


@lru_cache(None)
def calls(m, n, seeds=40):
    """Number of recursive calls a plain 3-term recursion makes for the order (m, n) above the highest tabulated order."""
    m = abs(m)
    if n <= seeds or m >= n - 2:
        return 1
    return 1 + calls(abs(m - 1), n - 1, seeds) + calls(m + 1, n - 1, seeds) + calls(m, n - 2, seeds)


def tol_value(n, s):
    """Allowed error of R(r), s = sum of absolute terms c_k*r**k: the conditioning of the polynomial in its power basis."""
    t = 32*zref.EPS*s + TINY
    return t if n <= 40 else min(t, 0.12)


def tol_deriv(n, s):
    t = 32*zref.EPS*s + TINY
    return t if n <= 38 else min(t, 0.005*n*n)


def tol_angle(m, th):
    return 8*zref.EPS*(abs(m*th) + 1.0)


def radial_ref(am, n, r):
    v, s = zref.radial(am, n, float(r)); return v, tol_value(n, s)


def deriv_ref(am, n, r):
    v, s = zref.radial_dr(am, n, float(r)); return v, tol_deriv(n, s)


def layouts(vals):
    """The same values in all accepted containers and memory layouts: (name, container, expected shape, index order)."""
    a = np.array(vals, dtype=float); k = len(a); even = a[:k - k % 4]
    yield "1D", a.copy()
    yield "1D strided", np.repeat(a, 3)[::3]
    yield "1D reversed view", a[::-1]
    yield "2D", even.reshape(2, -1).copy()
    yield "2D Fortran", np.asfortranarray(even.reshape(2, -1))
    yield "2D column", a.reshape(-1, 1).copy()
    yield "2D row", a.reshape(1, -1).copy()
    yield "3D", even.reshape(2, 2, -1).copy()
    yield "1 element", a[3:4].copy()
    ro = a.copy(); ro.setflags(write=False)
    yield "read-only", ro


LENGTHS = list(range(1, 131)) + [254, 255, 256, 257, 511, 512, 513, 999, 1000, 1001, 1025, 2049]


def long_forms(r, t):
    """Radii and angles as lists, tuples, nested lists and arrays: (name, r, t, shape)."""
    k = len(r); yield "list", r.tolist(), t.tolist(), (k,)
    yield "tuple", tuple(r), tuple(t), (k,)
    yield "list of Python and numpy numbers", list(r), list(t), (k,)
    yield "array", r, t, (k,)
    for w in (2, 3):
        if k % w == 0:
            yield f"lists of {w}", r.reshape(-1, w).tolist(), t.reshape(-1, w).tolist(), (k//w, w)
            yield f"{w} lists", r.reshape(w, -1).tolist(), t.reshape(w, -1).tolist(), (w, k//w)


def as_reals(x):
    return [float(v) for v in np.asarray(x).ravel()]
