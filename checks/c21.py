"""C21: lifecycle of workers. All sequences of creating, computing, updating, closing, re-creating and dropping two managers (and two PSF objects) up to a depth, executed on
the real code under the controlled scheduler for several scheduling policies, and with deviations from them for representative histories."""
import itertools
import json
import os
import numpy as np
import vlib, vsched, zpsf

chk = vlib.Check("C21", "model_checking")
MOD = None


def square(x):
    return x*x + 1


def negative(x):
    return -x


FUNC = {"A": (square, 2), "B": (negative, 3)}
KINDS = ("new", "compute", "same", "long", "close", "scratch", "drop")
CORE = ("new", "compute", "long", "close")


def mod(reload=True):
    global MOD
    if MOD is None or reload:
        vsched.CPUS[0] = 4; MOD = vsched.load()
    return MOD


def ops(kinds):
    return [(k, x) for x in "AB" for k in kinds]


def valid(history):
    """Operations make sense: used managers exist."""
    exists = set()
    for k, x in history:
        if k == "new":
            exists.add(x)
        elif x not in exists:
            return False
        elif k == "drop":
            exists.discard(x)
    return True


def scenario(history):
    """Execute the history; returns the list of differences between the observed and the specified results."""
    def run():
        obj, model, results, given = {}, {}, [], {}; bad = []
        for i, (k, x) in enumerate(history):
            f, w = FUNC[x]; base = 10*(i + 1)
            if k == "new":
                given[x] = [base + j for j in range(w + 1)]; obj[x] = MOD.DispenserManager(f, given[x], w); model[x] = list(given[x])
            elif k in ("same", "long"):
                given[x] = [base + 7*j for j in range(w + (1 if k == "same" else 4))]
                try:
                    obj[x].update_params(given[x])
                except Exception as e:
                    if model[x] is not None:
                        bad.append(f"operation {i} {k, x} raised {e!r}")
                if model[x] is not None:
                    model[x] = list(given[x])
            elif k == "compute":
                try:
                    r = obj[x].compute()
                except Exception as e:
                    r = e
                if model[x] is None:
                    if r is not None and not isinstance(r, RuntimeError):
                        bad.append(f"operation {i}: result {r!r} of the closed manager {x}")
                else:
                    want = [f(p) for p in model[x]]
                    if not isinstance(r, (list, tuple)) or list(r) != want:
                        bad.append(f"operation {i}: {x} computed {r!r} instead of {want}")
                    else:
                        results.append([i, x, r, want])
            elif k == "close":
                try:
                    obj[x].close()
                except Exception as e:
                    bad.append(f"operation {i}: close raised {e!r}")
                model[x] = None
            elif k == "scratch":  # the caller changes own data: the last results and the passed list
                for rec in results:
                    if rec[1] == x and isinstance(rec[2], list):
                        rec[2][:] = ["changed"]*len(rec[2]); rec[3] = list(rec[2])
                given[x][:] = [-1000]*len(given[x])
            elif k == "drop":
                del obj[x], model[x]
        for i, x, r, want in results:  # results belong to the caller, later operations don't change them
            if list(r) != want:
                bad.append(f"the result of operation {i} became {r!r}")
        for m in obj.values():
            m.close()
        return bad
    return run


def judge(c, history, policy, dev, out, s):
    c.case(); c.traces += 1; c.states += s.steps; c.transitions += s.steps
    what = f"{out[0]}: {vlib.short(out[1], 400)}" if out != ("ok", []) else f"left running: {s.left()}" if s.left() else None
    if what:
        c.violation(f"{history} policy={policy} deviations={dev}", what, {"history": history, "policy": policy, "deviations": dev, "last steps": [str(t) for t in s.trace[-20:]]})


def histories(c, item):
    prefix, kinds, depth, policies = item
    for rest in itertools.product(ops(kinds), repeat=depth - len(prefix)):
        h = tuple(prefix) + rest
        if not valid(h) or h[-1][0] in ("same", "long", "scratch") or len(c.violations) >= 5:  # the last operation should be observable
            continue
        for policy in policies:
            mod(); out, s = vsched.execute(scenario(h), policy, max_steps=40000); judge(c, h, policy, (), out, s)
        c.nontriv(str(h)); c.extra["histories"] = c.extra.get("histories", 0) + 1


CHOSEN = [(("new", "A"), ("compute", "A"), ("close", "A"), ("compute", "A")), (("new", "A"), ("close", "A"), ("new", "A"), ("compute", "A")), (("new", "A"), ("new", "A"), ("compute", "A")),
          (("new", "A"), ("new", "B"), ("compute", "B"), ("compute", "A")), (("new", "A"), ("new", "B"), ("close", "A"), ("compute", "B")), (("new", "A"), ("new", "B"), ("compute", "A"), ("close", "B"), ("compute", "A")),
          (("new", "A"), ("compute", "A"), ("long", "A"), ("compute", "A"), ("compute", "A")), (("new", "A"), ("drop", "A"), ("new", "A"), ("compute", "A")), (("new", "A"), ("close", "A"), ("close", "A"))]


def schedules(c, item):
    i, policy, bound, part, parts = item; h = CHOSEN[i]; mod()

    def j(out, s, dev):
        judge(c, h, policy, dev, out, s); c.extra["schedules"] = c.extra.get("schedules", 0) + 1; mod()
        return len(c.violations) >= 3
    c.exhaustive &= vsched.explore(scenario(h), j, policy, bound, (part, parts), max_steps=40000)[2]


# --- PSF objects
PSF_OPS = [(k, x) for x in "PQ" for k in ("init", "release", "point", "props")] + [("kernel", "P"), ("airy", "P"), ("drop", "P")]
SETTINGS = {"P": [(0.95, 0.55, 0.3, 0.12), (0.7, 0.5, 0.2, 0.15)], "Q": [(0.8, 0.6, -0.2, 0.1), (1.1, 0.65, 0.1, 0.11)]}
ORDERS = {"P": (1, 3), "Q": (-2, 2)}; POINT = (0.9, 0.4)


SAVED = {"read Airy": ([(0, 0)], [0.25], 0.9, 0.5, 0.13), "read single": ([(-3, 3)], [-0.15], 0.85, 0.52, 0.11), "read several": ([(0, 2), (1, 3), (0, 0)], [0.1, -0.2, 0.3], 0.75, 0.58, 0.14)}
FILES = {}
READ_OPS = [(k, "P") for k in ("init", "release", "point", "props", "read Airy", "read single", "read several")]


def files():
    """Saved PSFs for the histories."""
    from zernpy import ZernPol, ZernPSF
    for nm, (o, co, NA, wl, px) in SAVED.items():
        p = ZernPSF([ZernPol(m=m, n=n) for m, n in o]); folder = os.path.join(vlib.SCRATCH, "tmp", nm.replace(" ", "")); os.makedirs(folder, exist_ok=True)
        with vlib.quiet():
            p.set_physical_props(NA, wl, co, px); p.set_calculation_props(3, 20, 36); p.calculate_psf_kernel(True, accelerated=False); p.save_json(folder, True)
        FILES[nm] = p.json_file_path


def _cached(kind, x, s, memo={}):
    key = (kind, x, s)
    if key not in memo:
        nodes = zpsf.rule(20, 36)
        if s in SAVED:
            o, co, NA, wl, px = SAVED[s]
        else:
            NA, wl, a, px = SETTINGS[x][s]; o, co = [ORDERS[x]], [a]
        memo[key] = zpsf.kernel(o, co, NA, wl, px, 3, nodes) if kind == "kernel" else zpsf.points(o, [a/wl for a in co], [POINT[0]], [POINT[1]], nodes)[0]
    return memo[key]


def psf_scenario(history):
    def run():
        from zernpy import ZernPol, ZernPSF
        obj, st, bad = {}, {}, []

        def props(x):
            NA, wl, a, px = SETTINGS[x][st[x]]; obj[x].set_physical_props(NA, wl, a, px); obj[x].set_calculation_props(3, 20, 36)
        for x in "PQ":
            m, n = ORDERS[x]; obj[x] = ZernPSF(ZernPol(m=m, n=n)); st[x] = 0; props(x)
        for i, (k, x) in enumerate(history):
            try:
                if k == "init":
                    obj[x].initialize_parallel_workers()
                elif k == "release":
                    obj[x].deinitialize_workers()
                elif k == "props":
                    if st[x] in SAVED:
                        o, co, NA, wl, px = SAVED[st[x]]; obj[x].set_physical_props(NA, wl, co if len(o) > 1 else co[0], px); obj[x].set_calculation_props(3, 20, 36)
                    else:
                        st[x] = 1 - st[x]; props(x)
                elif k in SAVED:
                    obj[x].read_json(FILES[k]); st[x] = k
                elif k == "point":
                    r = obj[x].get_psf_point_r_parallel(*POINT); w = _cached("point", x, st[x])
                    if not abs(r - w) <= 1e-9:
                        bad.append(f"operation {i}: point of {x} is {r} instead of {w}")
                elif k == "kernel":
                    r = obj[x].get_kernel_parallel(False); w = _cached("kernel", x, st[x])
                    if np.shape(r) != (3, 3) or not np.all(np.abs(r - w) <= 1e-9):
                        bad.append(f"operation {i}: kernel of {x} is {r} instead of {w}")
                elif k == "airy":  # a new object of Piston: no workers are needed
                    z = ZernPSF(ZernPol(m=0, n=0)); z.set_physical_props(0.95, 0.55, 0.1, 0.12); z.initialize_parallel_workers(); z.deinitialize_workers()
                elif k == "drop":
                    m, n = ORDERS[x]; obj[x] = ZernPSF(ZernPol(m=m, n=n)); st[x] = 0; props(x)
            except Exception as e:
                bad.append(f"operation {i} {k, x} raised {e!r}")
        for p in obj.values():
            p.deinitialize_workers()
        return bad
    return run


def psf_histories(c, item):
    import gc
    prefix, depth, policy = item
    for rest in itertools.product(READ_OPS if len(prefix) == 1 else PSF_OPS, repeat=depth - len(prefix)):
        h = tuple(prefix) + rest
        if len(prefix) == 1 and (h[-1][0] != "point" or not any(k in SAVED for k, _ in h)):
            continue
        if h[-1][0] in ("props", "airy") or not any(k == "init" for k, _ in h) or len(c.violations) >= 5:
            continue
        mod(); out, s = vsched.execute(psf_scenario(h), policy, max_steps=400000); judge(c, h, policy, (), out, s); c.nontriv("PSF" + str(h)); c.extra["histories of PSF objects"] = c.extra.get("histories of PSF objects", 0) + 1
    gc.collect()


REAL = r'''
import sys, json, time, multiprocessing
sys.path[:0] = [%r, %r, %r]
import zernpy.utils.intmproc as im
import c21
if __name__ == "__main__":
    c21.MOD = im; out = []
    for h in json.loads(sys.argv[1]):
        out.append(c21.scenario([tuple(o) for o in h])())
    for _ in range(100):
        if not multiprocessing.active_children(): break
        time.sleep(0.05)
    print(json.dumps([out, len(multiprocessing.active_children())]), flush=True)
'''


def real(c, item):
    """Histories with real processes."""
    path = os.path.join(vlib.SCRATCH, "tmp", f"real{os.getpid()}.py")
    with open(path, "w") as f:
        f.write(REAL % (os.path.join(vlib.SCRATCH, "src"), os.path.join(vlib.VERIF, "lib"), os.path.join(vlib.VERIF, "checks")))
    r = vlib.script([path, json.dumps(item)])
    if r is None:
        c.violation("real processes", f"did not finish within 240 s: {item}"); return
    try:
        out, left = json.loads(r[0].strip().splitlines()[-1])
    except (ValueError, IndexError):
        c.violation("real processes", f"failed: {r[1][-600:]}", {"histories": item}); return
    for h, bad in zip(item, out):
        c.case(); c.traces += 1; c.extra["histories with real processes"] = c.extra.get("histories with real processes", 0) + 1
        if bad:
            c.violation(f"real processes {h}", str(bad), {"history": h})
    if left:
        c.violation("real processes left", f"{left} processes left running after {item}")


def main():
    chk.rule = "one evaluation = one history executed under one schedule; states / transitions = scheduling steps executed"
    q = vlib.QUICK; pol = vsched.POLICIES
    chk.run(histories, [((("new", "A"), o), KINDS, 4, pol[:2] + pol[4:] if q else pol) for o in ops(KINDS)], chunk=1)
    chk.run(histories, [((("new", "A"), o, o2), CORE, 5 if q else 6, ("current",) if q else pol) for o in ops(CORE) for o2 in ops(CORE)], chunk=1)
    if not q:
        chk.run(histories, [((("new", "A"), o, o2), KINDS, 5, ("current", "lazy")) for o in ops(KINDS) for o2 in ops(KINDS)], chunk=1)
    chk.run(schedules, [(i, p, 1, k, 4) for i in range(len(CHOSEN)) for p in ((pol[0], pol[2], pol[4]) if q else pol) for k in range(4)] + ([] if q else [(i, p, 2, k, 64) for i in (1, 2, 8) for p in ("current", "lazy") for k in range(64)]), chunk=1)
    chk.run(psf_histories, [((o, o2), 3 if q else 4, p) for o in PSF_OPS for o2 in PSF_OPS for p in (("current",) if q else ("current", "lazy"))], chunk=2)
    files(); chk.run(psf_histories, [((o,), d, p) for o in READ_OPS for d in ((4, 5) if q else (4, 5, 6)) for p in (("current",) if q else ("current", "lazy"))], chunk=1)
    if (os.cpu_count() or 1) >= 4:
        chk.run(real, [CHOSEN[:5], CHOSEN[5:]], jobs=2, chunk=1)
    chk.sample({"history": [list(o) for o in CHOSEN[5]], "policy": "lazy"}); chk.extra["operations"] = list(KINDS) + ["PSF: init, release, point, kernel, props, drop"]
    chk.assumptions = ["modelled primitives of multiprocessing (lib/vsched.py); two managers or two PSF objects", "after closing, compute() returns None or raises RuntimeError"]
    chk.finish()


if __name__ == "__main__":
    vlib.main("C21", main)
