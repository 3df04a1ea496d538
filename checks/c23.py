"""C23: plots. Draws with the non-interactive backend over the full product of options, inspects the drawn artists (meshes, surfaces, images, titles, colour bars) and compares them
with the reference values; sequences of plots on one figure."""
import itertools
import os
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt  # noqa: E402
import numpy as np  # noqa: E402
import vlib, zpsf, zref  # noqa: E402
from vlib import call, quiet  # noqa: E402
from zernpy import ZernPol, ZernPSF  # noqa: E402
import zernpy.zernikepol as zk  # noqa: E402

chk = vlib.Check("C23", "exploration")
MAPS = ("coolwarm", "jet", "viridis")
SELECTIONS = {"tilt": ([(-1, 1)], [1.0]), "coma": ([(1, 3)], [-0.7]), "astigmatism": ([(-2, 2)], [0.4]), "sum": ([(1, 1), (-2, 2), (0, 4), (3, 5)], [0.3, -0.5, 0.2, 0.7]), "piston": ([(0, 0)], [2.0]),
              "zero": ([(0, 2)], [0.0]), "high": ([(-5, 11), (4, 12)], [0.2, 0.3])}


def P(*mn):
    return [ZernPol(m=m, n=n) for m, n in mn]


def ref(orders, coeffs, r, theta):
    """Sum of the polynomials at points (arrays of the same shape)."""
    s = np.zeros(np.shape(r))
    for (m, n), a in zip(orders, coeffs):
        s = s + a*zref.normf(m, n)*zref.radial_np(abs(m), n, np.asarray(r))*zref.triangular_np(m, np.asarray(theta))
    return s


def split_axes(fig):
    """(axes with data, colour bars)"""
    bars = [a for a in fig.axes if a.get_label() == "<colorbar>"]
    return [a for a in fig.axes if a not in bars], bars


def surface_2d(ax):
    """(r, theta, values, mappable) of the drawn polar mesh."""
    from matplotlib.collections import QuadMesh
    ms = [c for c in ax.collections if isinstance(c, QuadMesh)]
    if len(ms) != 1 or ax.name != "polar":
        raise AssertionError(f"{len(ms)} meshes on the {ax.name} axes")
    v = np.ma.getdata(ms[0].get_array()); xy = np.asarray(ms[0].get_coordinates()); v = v.reshape(xy.shape[0] - 1, xy.shape[1] - 1) if v.ndim == 1 or v.shape != xy.shape[:2] else v
    return xy[..., 1], xy[..., 0], v, ms[0]


def nodes_of(edges):
    """Coordinates of points from the edges of cells placed at the middles between them."""
    x = np.empty(len(edges) - 1); x[0] = (edges[0] + edges[1])/2
    for k in range(1, len(x)):
        x[k] = 2*edges[k] - x[k - 1]
    return x if np.all(np.diff(x) > 0) else (edges[:-1] + edges[1:])/2


def points_3d(ax):
    from mpl_toolkits.mplot3d.art3d import Poly3DCollection
    ps = [c for c in ax.collections if isinstance(c, Poly3DCollection)]
    if len(ps) != 1 or ax.name != "3d":
        raise AssertionError(f"{len(ps)} surfaces on the {ax.name} axes")
    f = ps[0]._faces; bad = getattr(ps[0], "_invalid_vertices", None)
    if isinstance(f, np.ndarray) and isinstance(bad, np.ndarray) and bad.shape == f.shape[:2]:
        return np.asarray(np.ma.getdata(f))[~bad], ps[0]
    f = np.asarray(np.ma.getdata(f)) if not isinstance(f, (list, tuple)) else np.concatenate([np.asarray(x) for x in f])
    return f.reshape(-1, 3), ps[0]


def inspect(fig, orders, coeffs, proj, cmap, bar, own=None, title=None, values=None):
    """Problem of the drawn figure or None. own = (r, theta) passed by the caller (else default coordinates), values = passed surface."""
    axes, bars = split_axes(fig)
    if len(axes) != 1:
        return f"{len(axes)} plots on the figure"
    ax = axes[0]; f = (lambda r, t: ref(orders, coeffs, r, t))
    if proj == "2d":
        R, T, v, im = surface_2d(ax)
        if v.shape == R.shape:  # coordinates of points
            r, t = R, T
        else:
            r, t = np.meshgrid(nodes_of(R[:, 0]), nodes_of(T[0, :]), indexing="ij")
            if own is not None:
                ro, to = own
                if v.shape != (len(ro), len(to)):
                    return f"mesh of {v.shape} values instead of {(len(ro), len(to))}"
                e = 1e-9
                inside = lambda X, at: np.all(np.minimum(X[:-1, :-1], X[1:, 1:]) <= at + e) and np.all(np.maximum(X[:-1, :-1], X[1:, 1:]) >= at - e)
                if not (inside(R, ro[:, None]) and inside(T, to[None, :])):
                    return "cells of the mesh are not at the passed coordinates"
                r, t = np.broadcast_to(ro[:, None], v.shape), np.broadcast_to(to[None, :], v.shape)
        if own is None and (abs(r.min()) > 1e-6 or abs(r.max() - 1.0) > 1e-3 or t.min() > 1e-6 or t.max() < 2*np.pi - 0.1 or r.shape[0] < 10 or r.shape[1] < 30):
            return f"default coordinates do not cover the unit circle: {r.shape} r {r.min()}..{r.max()} theta {t.min()}..{t.max()}"
        want = f(r, t) if values is None else values; got = v
        if np.ptp(want) > 1e-9 and not np.allclose(im.get_clim(), (want.min(), want.max()), rtol=1e-6, atol=1e-9):
            return f"range of colours {im.get_clim()} instead of {(want.min(), want.max())}"
        if title is not None and ax.get_title() != title:
            return f"title {ax.get_title()!r} instead of {title!r}"
    else:
        pts, im = points_3d(ax); x, y, got = pts.T; r, t = np.hypot(x, y), np.mod(np.arctan2(y, x), 2*np.pi)
        if own is not None:
            ro, to = own; r = ro[np.argmin(np.abs(r[:, None] - ro[None, :]), axis=1)]  # nearest of the passed
            if np.max(np.abs(np.hypot(x, y) - r)) > 1e-9 or np.max(np.abs(x - r*np.cos(t))) > 1e-9 or abs(np.hypot(x, y).max() - ro.max()) > 1e-9:
                return "the surface is not at the passed coordinates"
            z = x + 1j*y; grid = (ro[:, None]*np.exp(1j*to[None, :])).ravel()
            if np.abs(z[:, None] - grid[None, :]).min(axis=1).max() > 1e-9 or np.abs(z[:, None] - grid[None, :]).min(axis=0).max() > 1e-9:
                return "the surface is not at all passed coordinates"
            if values is not None:  # find indices
                i = np.argmin(np.abs(r[:, None] - ro[None, :]), axis=1); d = np.abs(np.exp(1j*np.arctan2(y, x))[:, None] - np.exp(1j*to)[None, :]); j = np.argmin(d, axis=1); d2 = np.where(r > 1e-9, d[np.arange(len(j)), j], 0)
                if d2.max() > 1e-9:
                    return "the surface is not at the passed angles"
                cand = np.stack([values[i, j]] + [values[i, k] for k in np.where(np.isclose(np.cos(to), np.cos(to[0])) & np.isclose(np.sin(to), np.sin(to[0])))[0]])
                same = np.min(np.abs(cand - got[None, :]), axis=0); same = np.where(r > 1e-9, same, 0.0)
                if same.max() > 1e-9*(1 + np.abs(values).max()):
                    return f"surface differs by {same.max()}"
                f = None
        elif abs(r.max() - 1.0) > 1e-3 or abs(x.min() + 1) > 0.02 or abs(x.max() - 1) > 0.02 or abs(y.min() + 1) > 0.02 or abs(y.max() - 1) > 0.02 or len(pts) < 500:
            return f"default coordinates do not cover the unit circle: {len(pts)} points, r..{r.max()}, x {x.min()}..{x.max()}, y {y.min()}..{y.max()}"
        want = f(r, t) if f is not None else got; shown = im.get_array(); e = 1e-9 + 1e-6*np.ptp(got)
        if np.ptp(got) > 1e-9 and shown is not None and np.ptp(shown) > 1e-9:  # the colours represent heights
            if np.min(shown) < got.min() - e or np.max(shown) > got.max() + e:
                return f"colours of the surface represent {np.min(shown)}..{np.max(shown)} instead of {got.min()}..{got.max()}"
            if not (np.allclose(im.get_clim(), (np.min(shown), np.max(shown)), rtol=0, atol=e) or np.allclose(im.get_clim(), (got.min(), got.max()), rtol=0, atol=e)):
                return f"range of colours {im.get_clim()} of the surface with heights {got.min()}..{got.max()}"
    scale = 1e-9*(1 + np.abs(want).max()); diff = np.max(np.abs(got - want)) if np.shape(got) == np.shape(want) else np.inf
    if not diff <= scale:
        return f"drawn values differ by {diff}"
    if im.get_cmap().name != cmap:
        return f"colour map {im.get_cmap().name} instead of {cmap}"
    if (im.colorbar is not None) != bool(bar) or len(bars) != int(bool(bar)):
        return f"{len(bars)} colour bars, requested {bar}"
    return None


def own_coordinates(kind):
    if kind == "uneven":
        return np.array([0.0, 0.1, 0.35, 0.5, 0.8, 1.0]), np.array([0.0, 0.3, 1.0, 1.9, 2.5, 3.6, 4.4, 5.9])
    if kind == "sector":
        return np.linspace(0.3, 0.9, 7), np.linspace(0.5, 2.1, 9)
    if kind == "descending angles":
        return np.linspace(0.0, 1.0, 8), np.linspace(2*np.pi, 0.0, 8)
    if kind == "descending":
        return np.linspace(0.9, 0.1, 6), np.linspace(4.0, 0.5, 9)
    if kind == "more radii":
        return np.linspace(0.0, 1.0, 14), np.linspace(0.2, 5.9, 9)
    return np.linspace(0.0, 1.0, 8), np.linspace(0.0, 2*np.pi, 8)  # equal numbers


def report(c, key, what, info=None):
    c.case(); c.nontriv(key)
    if what:
        c.violation(key, what, info)


def profiles(c, item):
    name, proj, own = item; orders, coeffs = SELECTIONS[name]; mn = orders[-1]; pol = ZernPol(m=mn[0], n=mn[1])
    for cmap, show in itertools.product(MAPS[:2] if own is None else MAPS[2:], (True, False)):
        plt.close("all"); before = pol.get_mn_orders(), pol.get_polynomial_name(), str(pol); kw = {}
        if own is not None:
            r, t = own_coordinates(own); pv = zk.polar_vectors(r.copy(), t.copy()); kw = {"use_defaults": False, "polar_coordinates": pv}
        other = plt.figure(); other.add_subplot().plot([1, 2, 3])  # must stay as it is
        st, e = call(ZernPol.plot_profile, pol, cmap, show, projection=proj, **kw); key = f"plot_profile {mn} {proj} colour map {cmap} title {show} coordinates {own}"; figs = [plt.figure(i) for i in plt.get_fignums() if i != other.number]
        if st != "ok":
            report(c, key, f"raised {e!r}"); continue
        if len(figs) != 1:
            report(c, key, f"{len(figs)} new figures"); continue
        what = None if len(other.axes) == 1 and len(other.axes[0].lines) == 1 else "another figure has been changed"
        try:
            what = what or inspect(figs[0], [mn], [1.0], proj.lower(), cmap, False, own and (r, t), (pol.get_polynomial_name() if show else "") if proj.lower() == "2d" else None)
        except AssertionError as a:
            what = str(a)
        if own is not None and not (np.array_equal(pv.R, r) and np.array_equal(pv.Theta, t)):
            what = "the passed coordinates have been changed"
        if (pol.get_mn_orders(), pol.get_polynomial_name(), str(pol)) != before:
            what = "the polynomial has been changed"
        report(c, key, what, {"orders": mn, "projection": proj, "coordinates": own})
    plt.close("all")


def draw(fig, name, proj, cmap, bar, own, seq=list):
    """One plot_sum_zernikes_on_fig; returns the problem or None."""
    orders, coeffs = SELECTIONS[name]; pols = seq(P(*orders)); co = seq(coeffs) if seq is not np.array else np.array(coeffs); values = None; coords = None
    if own is None:
        st, f = call(ZernPol.plot_sum_zernikes_on_fig, fig, co, pols, show_range=bar, color_map=cmap, projection=proj)
    else:
        coords = own_coordinates(own); R, T = np.meshgrid(*coords, indexing="ij"); values = ref(orders, coeffs, R, T); surf = zk.zernikes_surface(values.copy(), coords[0].copy(), coords[1].copy())
        st, f = call(ZernPol.plot_sum_zernikes_on_fig, fig, use_defaults=False, zernikes_sum_surface=surf, show_range=bar, color_map=cmap, projection=proj)
        if not (np.array_equal(surf.ZernSurf, values) and np.array_equal(surf.R, coords[0]) and np.array_equal(surf.Theta, coords[1])):
            return "the passed surface has been changed"
    if st != "ok":
        return f"raised {f!r}"
    if f is not fig:
        return "another figure has been returned"
    if list(co) != list(coeffs) or [p.get_mn_orders() for p in pols] != list(orders):
        return "the passed coefficients or polynomials have been changed"
    try:
        return inspect(fig, orders, coeffs, proj.lower(), cmap, bar, coords, None, values)
    except AssertionError as a:
        return str(a)


def sums(c, item):
    name, proj, own = item
    for cmap, bar, seq in itertools.product(MAPS, (True, False), (list, tuple) if own is None else (list,)):
        fig = plt.figure(figsize=(4, 4)); report(c, f"plot_sum_zernikes_on_fig {name} {proj} colour map {cmap} range {bar} coordinates {own} {seq.__name__}", draw(fig, name, proj, cmap, bar, own, seq), {"selection": SELECTIONS[name]}); plt.close(fig)


def sequences(c, item):
    """Plots one after another on the same figure: each one replaces the previous one."""
    for rest in itertools.product(ALPHABET, repeat=2):
        fig = plt.figure(figsize=(4, 4)); fig.add_subplot(211).plot([1, 2]); other = plt.figure(); other.add_subplot().plot([1, 2]); hist = (item,) + rest
        for k, (name, proj, bar, own) in enumerate(hist):
            what = draw(fig, name, proj, MAPS[k], bar, own); c.states += 1
            if what or len(other.axes) != 1:
                report(c, f"sequence of plots {hist[:k + 1]}", what or "another figure has been changed"); break
        else:
            report(c, f"sequence of plots {hist}", None)
        c.traces += 1; plt.close("all")


ALPHABET = [("coma", "2d", True, None), ("sum", "3d", True, "equal"), ("sum", "2d", False, "uneven"), ("tilt", "3D", False, "sector")]


def errors(c, item):
    fig = plt.figure(); z = P((1, 3)); r, t = own_coordinates("equal"); cases = {
        "plot_sum: nothing passed": lambda: ZernPol.plot_sum_zernikes_on_fig(fig), "plot_sum: empty lists": lambda: ZernPol.plot_sum_zernikes_on_fig(fig, [], []),
        "plot_sum: empty tuples 3d": lambda: ZernPol.plot_sum_zernikes_on_fig(fig, (), (), projection="3d"), "plot_sum: no surface": lambda: ZernPol.plot_sum_zernikes_on_fig(fig, [1.0], z, use_defaults=False),
        "plot_sum: surface of 2 values": lambda: ZernPol.plot_sum_zernikes_on_fig(fig, [1.0], z, use_defaults=False, zernikes_sum_surface=(r, t)), "plot_sum: more coefficients": lambda: ZernPol.plot_sum_zernikes_on_fig(fig, [1.0, 2.0], z),
        "plot_sum: more polynomials": lambda: ZernPol.plot_sum_zernikes_on_fig(fig, [1.0], P((1, 3), (0, 2))), "plot_sum: no polynomials": lambda: ZernPol.plot_sum_zernikes_on_fig(fig, [1.0], []),
        "plot_sum: no coefficients": lambda: ZernPol.plot_sum_zernikes_on_fig(fig, [], z),
        "plot_profile: no coordinates": lambda: ZernPol.plot_profile(z[0], use_defaults=False), "plot_profile: no coordinates 3d": lambda: ZernPol.plot_profile(z[0], use_defaults=False, projection="3d"),
        "plot_profile: 1 coordinate": lambda: ZernPol.plot_profile(z[0], use_defaults=False, polar_coordinates=(r,)), "plot_profile: 3 coordinates": lambda: ZernPol.plot_profile(z[0], use_defaults=False, polar_coordinates=(r, t, r))}
    for nm, f in cases.items():
        st, e = call(f); report(c, nm, None if st == "exc" and isinstance(e, ValueError) else f"expected ValueError, got {st}: {e!r}")
    plt.close("all")


def image_of(fig):
    axes, bars = split_axes(fig); ims = [im for a in axes for im in a.get_images()]
    return (ims[-1] if ims else None), bars


def displayed(im, data, cmap="viridis"):
    """Problem of a drawn image: values, orientation and extent."""
    if im is None:
        return "no image has been drawn"
    a = np.ma.getdata(im.get_array()); a = a if im.origin == "upper" else a[::-1]; y0, y1 = im.axes.get_ylim()
    if (y0 < y1) == (im.origin == "upper"):
        a = a[::-1]  # the axis has been inverted
    if a.shape != data.shape or not np.array_equal(a, data):
        return f"drawn {vlib.short(a, 200)} instead of {vlib.short(data, 200)}"
    if im.get_cmap().name != cmap:
        return f"colour map {im.get_cmap().name}"
    if np.ptp(data) > 0 and not np.allclose(im.get_clim(), (data.min(), data.max())):
        return f"range of colours {im.get_clim()}"


def kernels(c, item):
    """Histories of a PSF object and plots of the kernel."""
    kind, history = item; orders = {"single": [(1, 3)], "unsymmetric": [(-1, 3)], "airy": [(0, 0)], "composed": [(1, 1), (-2, 2)]}[kind]; plt.close("all"); path = os.path.join(vlib.SCRATCH, "tmp", f"plot{os.getpid()}"); os.makedirs(path, exist_ok=True)
    with quiet():
        p = ZernPSF(P(*orders) if kind == "composed" else P(*orders)[0]); p.set_physical_props(0.95, 0.55, [0.2, 0.3] if kind == "composed" else 0.3, 0.12); p.set_calculation_props(7, 20, 36)
    labels = set()
    for k, op in enumerate(history):
        if op == "calculate":
            call(p.calculate_psf_kernel, True, True)
        elif op == "not normalized":
            call(p.calculate_psf_kernel, True, False)
        elif op == "other properties":
            with quiet():
                p.set_physical_props(0.8, 0.6, [0.4, -0.1] if kind == "composed" else 0.1, 0.13)
        elif op == "size 9":
            with quiet():
                p.set_calculation_props(9, 20, 36)
        elif op == "size 45":
            with quiet():
                p.set_calculation_props(45, 20, 36)
        elif op == "crop":
            call(p.crop_kernel, 0.5)
        elif op == "save and read":
            with quiet():
                p.save_json(path, overwrite=True)
                q = ZernPSF(P(*orders) if kind == "composed" else P(*orders)[0]); q.read_json(p.json_file_path); p = q
        before = np.array(p.kernel, copy=True); known = set(plt.get_fignums()); ident = f"#{k}"; st, e = call(p.plot_kernel, ident); key = f"plot_kernel {kind} {history[:k + 1]}"
        if st != "ok":
            report(c, key, f"raised {e!r}"); break
        new = [plt.figure(i) for i in plt.get_fignums() if i not in known]
        if len(new) != 1:
            report(c, key, f"{len(new)} new figures for the new ID {ident}"); break
        im, bars = image_of(new[0]); what = displayed(im, before) if before.ndim == 2 else None
        if what is None and len(bars) != 1:
            what = f"{len(bars)} colour bars"
        label = new[0].get_label()
        if what is None and (ident not in label or not all(str(o) in label for o in orders) and kind != "airy" or label in labels):
            what = f"title of the figure {label!r}"
        labels.add(label)
        if what is None and not np.array_equal(p.kernel, before):
            what = "the kernel has been changed"
        report(c, key, what, {"history": history[:k + 1]}); c.states += 1
    call(p.calculate_psf_kernel, True, True); st, e = call(p.plot_kernel, "#0")  # the same ID again: the last image is the current kernel
    figs = [plt.figure(i) for i in plt.get_fignums()]; found = [f for f in figs if "#0" in f.get_label()]; res = [displayed(image_of(f)[0], p.kernel) for f in found]
    report(c, f"plot_kernel {kind} again with the same ID after {history}", f"raised {e!r}" if st != "ok" else None if any(x is None for x in res) else str(res)); c.traces += 1; plt.close("all")


def disks(c, item):
    """visualize_convolution: sample image and its convolution with the current kernel."""
    kind, radius, top = item; orders = {"single": [(1, 3)], "unsymmetric": [(-1, 3)], "airy": [(0, 0)], "composed": [(1, 1), (-2, 2)]}[kind]; plt.close("all")
    with quiet():
        p = ZernPSF(P(*orders) if kind == "composed" else P(*orders)[0]); p.set_physical_props(0.95, 0.55, [0.2, 0.3] if kind == "composed" else 0.3, 0.12); p.set_calculation_props(7, 20, 36); p.calculate_psf_kernel(True)
    k = p.kernel.copy(); key = f"visualize_convolution {kind} radius={radius} max={top}"; st, e = call(lambda: p.visualize_convolution(radius=radius, max_intensity=top) if (radius, top) != (4.0, 255) else p.visualize_convolution())
    if st != "ok":
        report(c, key, f"raised {e!r}"); return
    figs = [plt.figure(i) for i in plt.get_fignums()]
    if len(figs) != 2:
        report(c, key, f"{len(figs)} figures"); return
    ims = [image_of(f)[0] for f in figs]; what = None; arrays = [None if im is None else np.ma.getdata(im.get_array()) for im in ims]
    if any(a is None for a in arrays):
        what = "no image"
    else:
        d = arrays[0]; n = d.shape[0]; i, j = np.mgrid[0:n, 0:d.shape[1]]; rad = np.hypot(i - n//2, j - d.shape[1]//2); r = max(radius, 1.0); v = d.ravel()[np.argsort(rad.ravel(), kind="stable")].astype(float)
        if d.ndim != 2 or n != d.shape[1] or n % 2 == 0 or n < 2*r + 1 or d.max() != top or d[n//2, n//2] != top or d.min() != 0:
            what = f"sample image of the shape {d.shape}, values {d.min()}..{d.max()}"
        elif not (np.array_equal(d, d.T) and np.array_equal(d, d[::-1])):
            what = "the sample isn't a centered disk"
        elif np.any(np.diff(v) > 0.5) or np.any(d[rad >= 1.25*r] != 0) or np.any(d[rad <= 0.5*r] < 0.8*top):
            what = "the sample isn't an even disk of the given radius"
        else:
            st, conv = call(p.convolute_img, d); what = displayed(ims[1], conv) if st == "ok" else f"convolute_img raised {conv!r}"
            if what is None:
                what = displayed(ims[0], d)
            for f, word in zip(figs, ("disk", "conv")):
                if what is None and word not in f.get_label().lower():
                    what = f"title {f.get_label()!r}"
    if what is None and not np.array_equal(p.kernel, k):
        what = "the kernel has been changed"
    report(c, key, what, {"kind": kind, "radius": radius, "max": top})
    st, e = call(p.visualize_convolution, radius + 3.0, 1000)  # again: the last images are the new ones
    if st == "ok" and what is None and len(arrays) == 2:
        figs2 = [plt.figure(i) for i in plt.get_fignums()]; i2 = [image_of(f)[0] for f in figs2][-2:]; d2 = np.ma.getdata(i2[0].get_array())
        report(c, key + " again", None if d2.max() == 1000 and displayed(i2[1], p.convolute_img(d2)) is None else "the second call doesn't show the new images")
    plt.close("all")


def main():
    chk.rule = "one evaluation = one plot with all artists inspected; non-trivial: distinct (function, options, data)"
    q = vlib.QUICK; names = list(SELECTIONS); owns = (None, "uneven", "sector", "equal", "descending angles", "descending", "more radii")
    chk.run(errors, ["errors"])
    few = ("coma", "sum") if q else names
    chk.run(profiles, [(nm, pr, o) for nm in (names if not q else ("tilt", "coma", "astigmatism", "piston")) for pr in ("2d", "2D", "3d", "3D") for o in owns if not (o and pr in ("2D", "3D") and q) and not (q and o is None and pr == "3D")], chunk=1)
    chk.run(sums, [(nm, pr, o) for nm in names for pr in ("2d", "3d") for o in owns if not (q and pr == "3d" and o is None and nm not in few)] + [("coma", "2D", None), ("tilt", "3D", "equal")], chunk=1)
    chk.run(sequences, ALPHABET, chunk=1)
    ops = ("calculate", "not normalized", "other properties", "size 9", "crop", "save and read")
    chk.run(kernels, [(k, ("calculate",) + h) for k in ("single", "unsymmetric", "airy", "composed") for h in itertools.product(ops, repeat=2 if q else 3)] + [(k, h) for k in ("unsymmetric", "composed") for h in (("size 45", "calculate", "save and read"), ("calculate", "size 45", "calculate", "crop"))], chunk=2)
    chk.run(disks, [(k, r, t) for k in ("single", "unsymmetric", "airy", "composed") for r in ((4.0, 1.0, 2.5, 8.0) if q else (4.0, 0.5, 1.0, 1.5, 2.0, 2.5, 3.0, 5.0, 7.3, 10.0)) for t in ((255, 100, 4095) if q else (255, 1, 10, 100, 256, 4095, 65535))] + [(k, r, 255) for k in ("single", "composed") for r in (16.0, 25.5, 33.0, 50.0, 64.0, 70.0, 101.0)], chunk=2)
    chk.sample({"plot": "plot_sum_zernikes_on_fig", "selection": SELECTIONS["sum"], "options": "3d, jet, colour bar"}); chk.assumptions = ["artists are inspected, not pixels; non-interactive backend", "interpolated default meshes are evaluated at their own points"]
    chk.finish()


if __name__ == "__main__":
    vlib.main("C23", main)
