"""Reference of the diffraction integral, independent of the package: |1/pi * int int exp(i(sum a_j Z_j - r p cos(phi - theta))) p dp dphi|^2."""
import math
from functools import lru_cache
import numpy as np
import zref


def zsum(orders, alphas, p, phi):
    """sum a_j Z_j on the mesh p x phi."""
    s = np.zeros((len(p), len(phi)))
    for (m, n), a in zip(orders, alphas):
        if a != 0.0:
            s = s + a*zref.normf(m, n)*np.outer(zref.radial_np(abs(m), n, p), zref.triangular_np(m, phi))
    return s


@lru_cache(64)
def rule(n_r, n_phi):
    """Nodes and weights of the documented rules: trapezoidal over n_r intervals of the radius, Simpson over n_phi intervals of the angle."""
    n_phi += n_phi % 2
    p = np.arange(n_r + 1)/n_r; w = np.full(n_r + 1, 1.0/n_r); w[0] *= 0.5; w[-1] *= 0.5
    phi = 2*math.pi*np.arange(n_phi + 1)/n_phi; v = np.where(np.arange(n_phi + 1) % 2 == 0, 2.0, 4.0); v[0] = v[-1] = 1.0; v *= 2*math.pi/n_phi/3.0
    return p, w, phi, v


@lru_cache(8)
def converged(n_gauss=96, n_phi=320):
    x, w = np.polynomial.legendre.leggauss(n_gauss); phi = 2*math.pi*np.arange(n_phi)/n_phi
    return 0.5*(x + 1), 0.5*w, phi, np.full(n_phi, 2*math.pi/n_phi)


def points(orders, alphas, rs, thetas, nodes):
    p, w, phi, v = nodes; z = zsum(orders, alphas, p, phi); e = (np.exp(1j*z)*(p*w)[:, None])*v[None, :]; out = []
    for r, th in zip(rs, thetas):
        if r == 0.0:
            u = e.sum()
        else:
            u = (e*np.exp(-1j*r*np.outer(p, np.cos(phi - th)))).sum()
        out.append(abs(u)**2/math.pi**2)
    return np.array(out)


def geometry(size, NA, wavelength, pixel):
    """r = k*NA*distance and theta of all pixels (row-major)."""
    c = size//2; i, j = np.mgrid[0:size, 0:size]
    return (2*math.pi/wavelength*NA*pixel*np.hypot(i - c, j - c)).ravel(), (np.arctan2(i - c, j - c) + math.pi).ravel()


def kernel(orders, coeffs, NA, wavelength, pixel, size, nodes):
    rs, ths = geometry(size, NA, wavelength, pixel)
    return points(orders, [c/wavelength for c in coeffs], rs, ths, nodes).reshape(size, size)


def airy(rs):
    from scipy.special import j1
    return np.array([1.0 if r == 0 else 4*(j1(r)/r)**2 for r in rs])
