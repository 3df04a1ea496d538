"""Reference model of the Zernike polynomials, written from their textbook definitions (exact integers / rationals),
independently of the implementation under test."""
from fractions import Fraction
from functools import lru_cache
import math
import numpy as np

MAX_N = 54
EPS = 2.0**-52


def all_orders(max_n=MAX_N, min_n=0):
    """(m, n) of all polynomials, in the OSA / ANSI order."""
    return [(m, n) for n in range(min_n, max_n + 1) for m in range(-n, n + 1, 2)]


# ---------------------------------------------------------------- indices
@lru_cache(None)
def osa_table(max_n=110):
    """OSA / ANSI: enumeration by rows (radial order), from m = -n to m = n, starting from 0."""
    return {mn: j for j, mn in enumerate(all_orders(max_n))}


@lru_cache(None)
def noll_table(max_n=60):
    """Noll (1976): by radial order, then by |m|; even j for m >= 0 (cosine), odd j for m < 0 (sine), starting from 1."""
    table = {}; j = 1
    for n in range(max_n + 1):
        for am in range(n % 2, n + 1, 2):
            if am == 0:
                table[(0, n)] = j; j += 1
            else:
                first = am if j % 2 == 0 else -am
                table[(first, n)] = j; table[(-first, n)] = j + 1; j += 2
    return table


@lru_cache(None)
def fringe_table(max_k=60):
    """Fringe / University of Arizona: by (n + |m|)/2, then by decreasing |m|, cosine (m > 0) before sine (m < 0), from 1."""
    table = {}; j = 1
    for k in range(max_k + 1):
        for am in range(k, -1, -1):
            n = 2*k - am
            if am == 0:
                table[(0, n)] = j; j += 1
            else:
                table[(am, n)] = j; table[(-am, n)] = j + 1; j += 2
    return table


# ---------------------------------------------------------------- radial polynomials
@lru_cache(None)
def radial_coeffs(am, n):
    """{power: integer coefficient} of the radial polynomial R_n^|m|."""
    c = {}
    for k in range((n - am)//2 + 1):
        num = (-1)**k*math.factorial(n - k)
        den = math.factorial(k)*math.factorial((n + am)//2 - k)*math.factorial((n - am)//2 - k)
        assert num % den == 0
        c[n - 2*k] = num//den
    return c


def _eval_int(c, r):
    """Exact value of sum(c[p]*r**p), correctly rounded to a float, and the sum of absolute terms."""
    fr = Fraction(r); a, b = fr.numerator, fr.denominator
    top = max(c) if c else 0
    num = 0; absn = 0
    for p, v in c.items():
        t = v*a**p*b**(top - p); num += t; absn += abs(t)
    d = b**top
    return float(Fraction(num, d)), float(Fraction(absn, d))


@lru_cache(None)
def radial(am, n, r):
    """(value, sum of absolute terms) at the double r."""
    return _eval_int(radial_coeffs(am, n), r)


@lru_cache(None)
def radial_dr(am, n, r):
    c = {p - 1: p*v for p, v in radial_coeffs(am, n).items() if p > 0}
    return _eval_int(c, r) if c else (0.0, 0.0)


@lru_cache(None)
def coeff_arrays(am, n):
    c = radial_coeffs(am, n); p = np.array(sorted(c)); return p, np.array([float(c[i]) for i in p])


def radial_np(am, n, r):
    """Double-precision evaluation (used only for small n, where it is accurate)."""
    r = np.asarray(r, dtype=float); p, v = coeff_arrays(am, n); s = np.zeros(r.shape)
    for pi, vi in zip(p, v):
        s = s + vi*r**int(pi)
    return s


def series_np(am, n, r, derivative=False):
    """(value, sum of absolute terms) of the radial polynomial or its derivative for an array, in extended precision."""
    r = np.asarray(r, dtype=np.longdouble); s = np.zeros(r.shape, dtype=np.longdouble); a = s.copy()
    for p, v in radial_coeffs(am, n).items():
        q, w = (p - 1, p*v) if derivative else (p, v)
        if q >= 0:
            t = np.longdouble(w)*r**q; s = s + t; a = a + abs(t)
    return s, a


def zern_np(m, n, r, theta):
    """Normalized polynomial for arrays of equal shapes."""
    return (normf(m, n)*series_np(abs(m), n, r)[0]*(np.cos if m >= 0 else np.sin)(abs(m)*np.asarray(theta, dtype=np.longdouble))).astype(float)


def normf(m, n):
    return math.sqrt(n + 1) if m == 0 else math.sqrt(2*(n + 1))


def triangular(m, theta):
    return math.cos(m*theta) if m >= 0 else math.sin(-m*theta)


def triangular_dtheta(m, theta):
    return -m*math.sin(m*theta) if m >= 0 else -m*math.cos(-m*theta)


def triangular_np(m, theta):
    theta = np.asarray(theta, dtype=float)
    return np.cos(m*theta) if m >= 0 else np.sin(-m*theta)


def zern_np(m, n, r, theta):
    """Normalised polynomial in double precision (small n)."""
    return normf(m, n)*radial_np(abs(m), n, r)*triangular_np(m, theta)
