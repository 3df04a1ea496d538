"""C01: indices and orders. Exhaustive enumeration of all 1540 polynomials, all indexing schemes and all aliases of the constructor."""
import vlib, zref
from vlib import call
from zernpy import ZernPol

chk = vlib.Check("C01", "exploration")
OSA = zref.osa_table(); NOLL = zref.noll_table(); FRINGE = zref.fringe_table()
R_OSA = {v: k for k, v in OSA.items()}; R_NOLL = {v: k for k, v in NOLL.items()}; R_FRINGE = {v: k for k, v in FRINGE.items()}
N_KEYS = ("n", "radial_order"); M_KEYS = ("m", "l", "azimuthal_order", "angular_frequency")
I_KEYS = {"osa": ("osa_index", "osa", "ansi_index", "ansi"), "noll": ("noll_index", "noll"), "fringe": ("fringe_index", "fringe")}


def is_int(*xs):
    return all(isinstance(x, int) and not isinstance(x, bool) for x in xs)


def expect(c, key, got, want):
    c.case()
    ok = got[0] == "ok" and got[1] == want
    if ok:
        flat = []
        for x in (want if isinstance(want, tuple) else (want,)):
            flat += list(x) if isinstance(x, tuple) else [x]
        gflat = []
        for x in (got[1] if isinstance(got[1], tuple) else (got[1],)):
            gflat += list(x) if isinstance(x, tuple) else [x]
        ok = is_int(*gflat)
    if not ok:
        c.violation(key, f"{key}: got {got!r}, expected {want!r} (as int)", {"call": key, "expected": want})


POINTS = ((0.83, 0.7), (0.41, 4.0))


def view(z):
    """Everything observable about a polynomial at some points."""
    return (z.get_mn_orders(), z.get_indices(), z.get_polynomial_name(), z.get_polynomial_name(short=True), str(z), z.normf(),
            [(z.triangular(t), z.triangular_dtheta(t)) + ((z.polynomial_value(r, t), z.radial(r), z.radial_dr(r)) if z.get_mn_orders()[1] <= 14 else ()) for r, t in POINTS])


def same(c, key, z, ref):
    """The polynomial constructed in another way is the same one."""
    if ref is None:
        return
    c.case(); st, v = call(view, z) if z is not None else ("exc", "not constructed")
    if REFS.get("of") is not ref:
        REFS["of"] = ref; REFS["view"] = call(view, ref)
    want = REFS["view"]
    if (st, v) != want:
        c.violation("view:" + key, f"{key} isn't the same polynomial as the one constructed from its orders: {vlib.short((st, v), 400)} instead of {vlib.short(want, 400)}")


REFS = {}


def same_number(c, k):
    """The same number as the index of different schemes, one conversion after another, in all orders."""
    import itertools
    tables = {"osa": R_OSA, "noll": R_NOLL, "fringe": R_FRINGE}; calls = [(f"index2orders({s}_index={k})", lambda s=s: ZernPol.index2orders(**{s + "_index": k}), tables[s].get(k)) for s in tables]
    calls += [(f"ZernPol({s}={k})", lambda s=s: ZernPol(**{s: k}).get_mn_orders(), tables[s].get(k)) for s in tables]
    calls += [(f"osa2noll({k})", lambda: ZernPol.osa2noll(k), NOLL.get(R_OSA.get(k))), (f"noll2osa({k})", lambda: ZernPol.noll2osa(k), OSA.get(R_NOLL.get(k))), (f"osa2fringe({k})", lambda: ZernPol.osa2fringe(k), FRINGE.get(R_OSA.get(k))),
              (f"fringe2osa({k})", lambda: ZernPol.fringe2osa(k), OSA.get(R_FRINGE.get(k)))]
    calls = [x for x in calls if x[2] is not None and not (isinstance(x[2], tuple) and x[2][1] > 54)]
    for a, b in itertools.permutations(calls, 2):
        for nm, f, want in (a, b):
            expect(c, f"{nm} (after {a[0]})" if nm != a[0] else nm, call(f), want)


def one(c, mn):
    m, n = mn; o, no, f = OSA[mn], NOLL[mn], FRINGE[mn]; want = (mn, o, no, f)
    ref = None
    for kn in N_KEYS:
        for km in M_KEYS:
            st, z = call(ZernPol, **{kn: n, km: m})
            if st != "ok":
                c.violation(f"ZernPol({kn}={n},{km}={m})", f"raised {z!r}"); continue
            expect(c, f"ZernPol({kn}={n},{km}={m}).get_indices()", call(z.get_indices), want)
            expect(c, f"ZernPol({kn}={n},{km}={m}).get_mn_orders()", call(z.get_mn_orders), mn)
            ref = ref or z; st, z2 = call(ZernPol, **{km: m, kn: n})  # the other order of keywords
            for y, nm in ((z, f"ZernPol({kn}={n},{km}={m})"), (z2 if st == "ok" else None, f"ZernPol({km}={m},{kn}={n})")):
                same(c, nm, y, ref)
    for scheme, val in (("osa", o), ("noll", no), ("fringe", f)):
        for key in I_KEYS[scheme]:
            st, z = call(ZernPol, **{key: val})
            if st != "ok":
                c.violation(f"ZernPol({key}={val})", f"raised {z!r}"); continue
            expect(c, f"ZernPol({key}={val}).get_indices()", call(z.get_indices), want)
            expect(c, f"ZernPol({key}={val}).get_mn_orders()", call(z.get_mn_orders), mn)
            same(c, f"ZernPol({key}={val})", z, ref)
            c.case()
            if ref is not None and not (z == ref and ref == z and not z != ref and not z > ref and not z < ref):
                c.violation(f"eq:{key}={val}", f"ZernPol({key}={val}) doesn't compare as equal to ZernPol(m={m}, n={n})")
    expect(c, f"get_osa_index({m},{n})", call(ZernPol.get_osa_index, m, n), o)
    expect(c, f"get_noll_index({m},{n})", call(ZernPol.get_noll_index, m, n), no)
    expect(c, f"get_fringe_index({m},{n})", call(ZernPol.get_fringe_index, m, n), f)
    expect(c, f"get_osa_index(m={m},n={n})", call(ZernPol.get_osa_index, m=m, n=n), o)
    expect(c, f"index2orders(osa_index={o})", call(ZernPol.index2orders, osa_index=o), mn)
    expect(c, f"index2orders(noll_index={no})", call(ZernPol.index2orders, noll_index=no), mn)
    expect(c, f"index2orders(fringe_index={f})", call(ZernPol.index2orders, fringe_index=f), mn)
    expect(c, f"osa2noll({o})", call(ZernPol.osa2noll, o), no)
    expect(c, f"noll2osa({no})", call(ZernPol.noll2osa, no), o)
    expect(c, f"osa2fringe({o})", call(ZernPol.osa2fringe, o), f)
    expect(c, f"fringe2osa({f})", call(ZernPol.fringe2osa, f), o)
    # the returned index is accepted by the next conversion (chains of conversions in all directions)
    st, a = call(lambda: ZernPol.osa2noll(ZernPol.fringe2osa(ZernPol.osa2fringe(ZernPol.noll2osa(ZernPol.osa2noll(o))))))
    expect(c, f"chain osa->noll->osa->fringe->osa->noll ({o})", (st, a), no)
    st, a = call(lambda: ZernPol(fringe=ZernPol(noll=ZernPol(osa=ZernPol(n=n, m=m).get_indices()[1]).get_indices()[2]).get_indices()[3]))
    if st == "ok":
        expect(c, f"chain of constructors ({m},{n})", call(a.get_indices), want)
    else:
        c.violation(f"chain of constructors ({m},{n})", f"raised {a!r}")
    c.nontriv(f"{mn}")
    if n % 9 == 4 and m == 0:
        c.sample({"orders (m, n)": mn, "OSA": o, "Noll": no, "Fringe": f, "constructed by": "all 8 order aliases, 8 index aliases"})


def fringe_high(c, f):
    """Fringe indices up to the square 55**2: polynomials with n > 54 in between are converted correctly or rejected."""
    mn = R_FRINGE[f]
    for name, want in (("index2orders", mn), ("fringe2osa", OSA.get(mn))):
        st, a = call(ZernPol.index2orders, fringe_index=f) if name == "index2orders" else call(ZernPol.fringe2osa, f)
        c.case()
        if not (st == "ok" and a == want) and not (st == "exc" and isinstance(a, ValueError) and mn[1] > 54):
            c.violation(f"{name}(fringe {f})", f"got {a!r}, expected {want}")
    if mn[1] > 54:
        c.case(); st, z = call(ZernPol, fringe_index=f)
        if st == "ok" or not isinstance(z, ValueError):
            c.violation(f"ZernPol(fringe_index={f})", f"order {mn[1]} > 54 not rejected: {z!r}")


def names(c, _):
    """str() of each polynomial identifies it."""
    seen = {}
    for mn in zref.all_orders():
        st, z = call(ZernPol, m=mn[0], n=mn[1])
        if st != "ok":
            continue
        st, s = call(str, z); c.case()
        if st != "ok" or not isinstance(s, str):
            c.violation(f"str({mn})", f"str() failed {s!r}"); continue
        for v in (mn[0], mn[1], OSA[mn], NOLL[mn], FRINGE[mn]):
            if str(v) not in s:
                c.violation(f"str({mn})", f"{s!r} doesn't contain {v}"); break
        if s in seen:
            c.violation(f"str({mn})", f"the same string as for {seen[s]}: {s!r}")
        seen[s] = mn


def main():
    chk.rule = ("one case = one call of a constructor / conversion compared with tables enumerated from the definitions of the schemes; "
                "non-trivial cases: distinct polynomials (m, n), each one exercised by all aliases and conversions")
    chk.run(one, zref.all_orders())
    chk.run(same_number, list(range(0, 1540))[::-1] if not vlib.QUICK else list(range(300, -1, -1)) + list(range(300, 1540, 7)))
    chk.run(fringe_high, range(1, 55*55 + 1 if vlib.QUICK else 110*110//4))
    names(chk, 0)
    chk.extra["polynomials"] = len(zref.all_orders())
    chk.assumptions = ["radial orders 0..54 (the supported range); Fringe indices 1..3025 (quick)"]
    chk.finish()


if __name__ == "__main__":
    vlib.main("C01", main)
