"""C02: construction and index conversion accept exactly the valid arguments; everything else raises ValueError."""
import itertools
import math
import vlib, zref
from vlib import call
from zernpy import ZernPol

chk = vlib.Check("C02", "exploration")
OSA = zref.osa_table(); NOLL = zref.noll_table(); FRINGE = zref.fringe_table()
R_OSA = {v: k for k, v in OSA.items()}; R_NOLL = {v: k for k, v in NOLL.items()}; R_FRINGE = {v: k for k, v in FRINGE.items()}
N_KEYS = ("n", "radial_order"); M_KEYS = ("m", "l", "azimuthal_order", "angular_frequency")
I_KEYS = ("osa_index", "osa", "ansi_index", "ansi", "noll_index", "noll", "fringe_index", "fringe")
BAD = [1.0, 2.5, "1", "", None, [1], (2,), 1j, math.nan, math.inf, {}, b"1"]


def rejected(c, key, res):
    c.case()
    if res[0] == "ok" or not isinstance(res[1], ValueError):
        c.violation(key, f"{key}: expected ValueError, got {res[1]!r}", {"call": key}); return False
    return True


def orders(c, n):
    for m in range(-66, 67):
        valid = 0 <= n <= 54 and abs(m) <= n and (n - abs(m)) % 2 == 0
        for kn, km in (("n", "m"), ("radial_order", "l"), ("radial_order", "azimuthal_order"), ("n", "angular_frequency")):
            key = f"ZernPol({kn}={n},{km}={m})"; res = call(ZernPol, **{km: m, kn: n})
            if valid:
                c.case()
                if res[0] != "ok" or res[1].get_mn_orders() != (m, n):
                    c.violation(key, f"valid orders not accepted: {res[1]!r}", {"call": key})
            else:
                rejected(c, key, res)
        c.nontriv(f"{valid}{n},{m}")


def indices(c, group):
    for i in group:
        for keys, table, lo in ((I_KEYS[:4], R_OSA, 0), (I_KEYS[4:6], R_NOLL, 1), (I_KEYS[6:], R_FRINGE, 1)):
            mn = table.get(i)
            for k in keys:
                key = f"ZernPol({k}={i})"; res = call(ZernPol, **{k: i})
                if mn is not None and mn[1] <= 54:
                    c.case()
                    if res[0] != "ok" or res[1].get_mn_orders() != mn:
                        c.violation(key, f"valid index: expected orders {mn}, got {res[1]!r}", {"call": key})
                else:
                    rejected(c, key, res)
        for name, table, conv in (("osa2noll", R_OSA, NOLL), ("noll2osa", R_NOLL, OSA), ("osa2fringe", R_OSA, FRINGE), ("fringe2osa", R_FRINGE, OSA)):
            res = call(getattr(ZernPol, name), i); c.case(); mn = table.get(i); key = f"{name}({i})"
            if res[0] == "ok":
                if mn is None or conv.get(mn) != res[1]:
                    c.violation(key, f"got {res[1]!r}, expected {conv.get(mn) if mn else 'ValueError'}", {"call": key})
            elif not isinstance(res[1], ValueError) or (mn is not None and mn[1] <= 54):
                c.violation(key, f"raised {res[1]!r}", {"call": key})
        for name, table in (("osa_index", R_OSA), ("noll_index", R_NOLL), ("fringe_index", R_FRINGE)):
            res = call(ZernPol.index2orders, **{name: i}); c.case(); mn = table.get(i); key = f"index2orders({name}={i})"
            if res[0] == "ok":
                if mn is None or tuple(res[1]) != mn:
                    c.violation(key, f"got {res[1]!r}, expected {mn or 'ValueError'}", {"call": key})
            elif not isinstance(res[1], ValueError) or (mn is not None and mn[1] <= 54):
                c.violation(key, f"raised {res[1]!r}", {"call": key})
        c.nontriv(f"i{i}")


def key_sets(c, item):
    """All sets of 0..4 keyword names: valid exactly for one radial + one azimuthal name, or one index name. All values may define the same polynomial."""
    agree, sizes = item; names = N_KEYS + M_KEYS + I_KEYS + ("bogus", "N", "OSA")
    vals = {k: 4 for k in names}; vals.update({k: 2 for k in M_KEYS})
    if agree:
        vals.update({k: t[(2, 4)] for ks, t in ((I_KEYS[:4], OSA), (I_KEYS[4:6], NOLL), (I_KEYS[6:], FRINGE)) for k in ks})
    for size in sizes:
        for ks in itertools.combinations(names, size):
            for perm in (ks, ks[::-1]) if size > 1 else (ks,):
                kw = {k: vals[k] for k in perm}; key = f"ZernPol({kw})"; res = call(ZernPol, **kw)
                n_n = sum(k in N_KEYS for k in ks); n_m = sum(k in M_KEYS for k in ks)
                if (size == 2 and n_n == 1 and n_m == 1) or (size == 1 and ks[0] in I_KEYS):
                    c.case()
                    if res[0] != "ok":
                        c.violation(key, f"valid keywords rejected: {res[1]!r}", {"call": key})
                else:
                    rejected(c, key, res)
                c.nontriv(str(perm))


def types(c, _):
    for b in BAD:
        for kn in N_KEYS:
            for km in M_KEYS:
                for nv, mv in ((b, 1), (b, 0), (3, b), (0, b), (2, b), (b, b)):
                    rejected(c, f"ZernPol({kn}={nv!r},{km}={mv!r})", call(ZernPol, **{kn: nv, km: mv}))
        for k in I_KEYS:
            rejected(c, f"ZernPol({k}={b!r})", call(ZernPol, **{k: b}))
        for f in ("osa2noll", "noll2osa", "osa2fringe", "fringe2osa"):
            rejected(c, f"{f}({b!r})", call(getattr(ZernPol, f), b))
        c.nontriv("t" + repr(b))
    for other in BAD + [0, 5]:
        z = ZernPol(m=1, n=3)
        rejected(c, f"ZernPol == {other!r}", call(lambda: z == other))
        rejected(c, f"ZernPol > {other!r}", call(lambda: z > other))


def reinit(c, mn):
    """A constructed polynomial cannot be re-initialised: any later initialisation raises ValueError and changes nothing."""
    m, n = mn; z = ZernPol(m=m, n=n); before = z.get_indices()
    for kw in ({"n": 4, "m": 2}, {"radial_order": n, "l": m}, {"osa": 7}, {"noll": 9}, {"fringe": 11}, {}, {"n": 3}, {"n": 3, "m": 0}, {"n": 2.0, "m": 0},
               {"osa": -1}, {"noll": 0}):
        key = f"ZernPol(m={m},n={n}).__init__({kw})"; res = call(z.__init__, **kw); c.case()
        if kw != {"n": 3}:  # (unrecognised keywords may be ignored, as long as nothing changes)
            rejected(c, key, res)
        if z.get_indices() != before:
            c.violation(key, f"indices changed from {before} to {z.get_indices()}")


def main():
    chk.rule = ("one case = one call with one combination of arguments; valid iff 0 <= n <= 54, |m| <= n, n - |m| even (or the index of such a "
                "polynomial, as int); non-trivial: distinct argument combinations")
    chk.run(orders, list(range(-4, 66)) + [10**6, -10**6])
    top = 1700 if vlib.QUICK else 3100
    idx = list(range(-12, top)) + [3025, 3026, 10**5, 10**6, -10**6, 2**70]
    chk.run(indices, [idx[i::64] for i in range(64)], chunk=1)
    chk.run(key_sets, [(a, (k,)) for a in (False, True) for k in ((0, 1, 2, 3, 4) if vlib.QUICK else (0, 1, 2, 3, 4, 5, 6))], chunk=1); types(chk, 0)
    chk.run(reinit, zref.all_orders(12))
    chk.sample({"rejected": "ZernPol(n=3, m=5)"}); chk.sample({"accepted": "ZernPol(radial_order=54, l=-54)"}); chk.sample({"rejected": "ZernPol(osa=1540)"})
    chk.assumptions = [f"orders -4..65 x -66..66, indices -12..{top - 1} and selected huge ones, {len(BAD)} wrongly typed values; bool and numpy integers "
                       "are not claimed either way"]
    chk.finish()


if __name__ == "__main__":
    vlib.main("C02", main)
