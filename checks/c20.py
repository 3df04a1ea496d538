"""C20: the parallel computation equals the sequential map for every schedule. The real manager and workers run on modelled multiprocessing primitives under a controlled
scheduler; all schedules with a bounded number of deviations from several default policies are executed. The model is compared with real processes."""
import os
import numpy as np
import vlib, vsched
from vlib import call

chk = vlib.Check("C20", "model_checking")


def square(x):
    return x*x + 1


def ident(x):
    return x


def complex_of(x):
    return np.exp(1j*x[0])*x[1]


def slow(x):  # takes a different number of steps
    for _ in range(int(x) % 3 if x < 100 else int(x) - 100):
        MOD.time.sleep(0.001)
    return ("r", x)


MOD = None


def mod(cpus=4):
    global MOD
    if MOD is None or vsched.CPUS[0] != cpus:
        vsched.CPUS[0] = cpus; MOD = vsched.load()
    return MOD


class Weird:
    """Values that could be mixed up with messages of the protocol."""
    values = [None, 0, "", "Started", [], False, (), "Started"]


def scenario(f, lists, workers, verbose=False):
    """Create a manager, compute for all lists of parameters, close."""
    def run():
        m = MOD.DispenserManager(f, list(lists[0]), workers, verbose); out = [list(m.compute())]
        for pl in lists[1:]:
            if pl is not None:
                m.update_params(list(pl))
            out.append(list(m.compute()))
        m.close()
        return out
    return run


def equal(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return np.array_equal(a, b)
    return type(a) is type(b) and (len(a) == len(b) and all(equal(x, y) for x, y in zip(a, b)) if isinstance(a, (list, tuple)) else a == b)


def wanted(f, lists):
    out = []; last = None
    for pl in lists:
        last = pl if pl is not None else last; out.append([f(x) for x in last])
    return out


CASES = {  # name: (function, lists of parameters, workers)
    "2 workers, 2 parameters": (square, [[3, 1]], 2), "2 workers, 3 parameters": (square, [[3, 1, 2]], 2), "2 workers, 5 parameters": (square, [[3, 1, 2, 9, 5]], 2),
    "3 workers, 4 parameters": (square, [[3, 1, 2, 7]], 3), "4 workers, 6 parameters": (square, [[5, 3, 1, 2, 7, 4]], 4),
    "2 workers, twice the same": (square, [[3, 1, 2], None], 2), "2 workers, other parameters": (square, [[3, 1], [9, 8, 7], [4, 5]], 2), "3 workers, other parameters": (square, [[3, 1, 2, 0], [9, 8, 7]], 3),
    "2 workers, different durations": (slow, [[2, 1, 0, 5]], 2), "3 workers, different durations": (slow, [[2, 0, 1, 0, 5]], 3), "2 workers, arrays": (complex_of, [[(0.5, np.ones(2)), (1.5, np.arange(3)), (0.1, np.zeros(1))]], 2),
    "2 workers, values of messages": (ident, [Weird.values, Weird.values[::-1]], 2), "2 workers, equal parameters": (square, [[1, 1, 1, 1]], 2),
    "2 workers, verbose": (square, [[3, 1, 2, 7, 9], [4, 6]], 2), "3 workers, verbose": (ident, [[None, 1, 2, 7, 9, 0, 11]], 3)}
MANY = {"4 workers, 1300 parameters": (square, [list(range(1300, 0, -1)), [5]*41], 4), "2 workers, 1101 parameters, verbose": (square, [[(7*k) % 1103 for k in range(1101)], [1, 2, 3]], 2), "4 workers, 60 parameters": (square, [list(range(60, 0, -1)), [5]*41], 4), "2 workers, 101 parameters, verbose": (square, [[(7*k) % 101 for k in range(101)], [1, 2, 3], list(range(30))], 2),
    "3 workers, 50 parameters of different durations, verbose": (slow, [[(k*k) % 7 for k in range(50)]], 3), **{f"{w} workers, {n} parameters, verbose": (square, [[(3*k) % 11 for k in range(n)]], w) for n in (10, 20, 26, 30, 40) for w in (2, 3)}, **{f"{w} workers, {n} parameters, {k} is slow ({d - 100}), verbose": (slow, [[d if i == k else 0 for i in range(n)]], w) for n in (10, 20, 26, 30, 40) for w in (2, 3) for k in (0, 1, 5) for d in (110, 160, 250)}, "9 workers, 30 parameters": (ident, [list(range(30)), [0]*9, [None]*20], 9)}


def judge_of(c, name, want, policy):
    def judge(out, s, dev):
        c.case(); c.traces += 1; c.states += s.steps; c.transitions += s.steps; ok = out[0] == "ok" and equal(out[1], want); left = s.left()
        if not ok or left:
            what = f"processes left running: {left}" if ok else f"{out[0]}: {vlib.short(out[1], 300)} instead of {vlib.short(want, 150)}"
            c.violation(f"{name} policy={policy} deviations={dev}", what, {"case": name, "policy": policy, "deviations": dev, "last steps": [str(t) for t in s.trace[-25:]]})
        return len(c.violations) >= 3
    return judge


def schedules(c, item):
    name, policy, bound, part, parts = item; f, lists, w = {**CASES, **MANY}[name]; mod(max(4, w))
    runs, steps, full = vsched.explore(scenario(f, lists, w, "verbose" in name), judge_of(c, name, wanted(f, lists), policy), policy, bound, (part, parts), max_steps=400000 if any(len(q or ()) > 200 for q in lists) else 6000); c.nontrivial.add(hash(item))
    c.extra["schedules"] = c.extra.get("schedules", 0) + runs; c.exhaustive &= full


def configurations(c, item):
    """All numbers of CPUs, workers and parameters: which workers are started, which errors are raised before."""
    cpus, n_workers = item; mod(cpus)
    default = max((cpus or 1)//2, 1); expected = n_workers if n_workers is not None and 2 <= n_workers <= (cpus or 1) else default
    for n in range(0, expected + 3):
        params = list(range(10, 10 + n))
        for policy in ("current", "low"):
            box = {}

            def run():
                m = MOD.DispenserManager(square, params, n_workers)
                box["alive"] = sum(p.alive() for p in vsched.S.procs[1:]); r = m.compute(); box["max"] = m.get_max_workers(); m.close(); return r
            out, s = vsched.execute(run, policy, max_steps=60000); key = f"cpus={cpus} n_workers={n_workers} parameters={n} policy={policy}"; c.case(); c.states += s.steps; c.transitions += s.steps; c.nontriv(key); bad = None
            if n < expected:
                err = TypeError if n == 0 else ValueError
                if out[0] != "exc" or not isinstance(out[1], err) or len(s.procs) > 1:
                    bad = f"expected {err.__name__} before starting of workers, got {out}, started {len(s.procs) - 1}"
            elif out[0] != "ok" or out[1] != [square(x) for x in params]:
                bad = f"{out}"
            elif box["alive"] != expected or len(s.procs) - 1 != expected or s.left():
                bad = f"{box['alive']} workers instead of {expected}, left {s.left()}"
            elif box["max"] != (cpus or 1):
                bad = f"get_max_workers() = {box['max']}"
            if bad:
                c.violation(key, bad, {"cpus": cpus, "n_workers": n_workers, "parameters": n})


def arguments(c, item):
    """Invalid arguments are rejected before any worker has been started; rejected parameters keep the previous ones."""
    kind = item; mod(4)
    if kind == "callable":
        for bad in (None, 5, "f", [square], {}):
            out, s = vsched.execute(lambda: MOD.DispenserManager(bad, [1, 2, 3], 2)); c.case(); c.nontriv(f"callable {bad!r}")
            if out[0] != "exc" or not isinstance(out[1], TypeError) or len(s.procs) > 1:
                c.violation(f"compute function {bad!r}", f"expected TypeError before starting, got {out[0]}: {out[1]!r}, started {len(s.procs) - 1}")
        return
    for bad, err in (([], TypeError), ([1], ValueError), ((), TypeError), ([1, 2], ValueError)):
        box = {}

        def run():
            m = MOD.DispenserManager(square, [4, 5, 6, 7], 3)
            try:
                m.update_params(bad); box["e"] = None
            except Exception as e:
                box["e"] = e
            r = list(m.compute()); m.update_params([1, 2, 3]); r2 = list(m.compute()); m.close(); return r, r2
        out, s = vsched.execute(run); c.case(); c.nontriv(f"update {bad}")
        if not isinstance(box.get("e"), err) or out != ("ok", ([17, 26, 37, 50], [2, 5, 10])) or s.left():
            c.violation(f"update_params({bad})", f"raised {box.get('e')!r}, afterwards {out}, left {s.left()}")


REAL = r'''
import sys, json
sys.path[:0] = [%r, %r]
from zernpy.utils.intmproc import DispenserManager
def square(x): return x*x + 1
if __name__ == "__main__":
    out = []
    for w, lists in json.loads(sys.argv[1]):
        m = DispenserManager(square, lists[0], w); r = [list(m.compute())]
        for pl in lists[1:]:
            m.update_params(pl); r.append(list(m.compute()))
        m.close(); out.append(r)
    import multiprocessing, time
    for _ in range(100):
        if not multiprocessing.active_children(): break
        time.sleep(0.05)
    print(json.dumps([out, len(multiprocessing.active_children())]))
'''


def real(c, item):
    """The same scenarios with real processes: conformance of the model with the implementation of multiprocessing."""
    import json
    cases = item; path = os.path.join(vlib.SCRATCH, "tmp", f"real{os.getpid()}.py")
    with open(path, "w") as f:
        f.write(REAL % (os.path.join(vlib.SCRATCH, "src"), os.path.join(vlib.VERIF, "lib")))
    r = vlib.script([path, json.dumps(cases)])
    if r is None:
        c.violation("real processes", f"did not finish within 240 s: {cases}"); return
    try:
        out, left = json.loads(r[0].strip().splitlines()[-1])
    except (ValueError, IndexError):
        c.violation("real processes", f"failed: {r[1][-600:]}", {"cases": cases}); return
    for (w, lists), got in zip(cases, out):
        c.case(); c.traces += 1; c.extra["runs with real processes"] = c.extra.get("runs with real processes", 0) + 1
        if got != [[square(x) for x in pl] for pl in lists]:
            c.violation(f"real processes {w} {lists}", f"results {got}")
    if left:
        c.violation("real processes left", f"{left} processes left running")


def main():
    chk.rule = "one evaluation = one execution of the real code under one schedule; states / transitions = scheduling steps executed"
    q = vlib.QUICK; items = []
    deep = ["2 workers, 2 parameters", "2 workers, 3 parameters"]
    for name in CASES:
        for policy in vsched.POLICIES:
            items += [(name, policy, 1, i, 2) for i in range(2)]
    items += [(name, policy, 0, 0, 1) for name in MANY for policy in vsched.POLICIES]
    for name in deep if q else list(CASES)[:9]:
        for policy in (("current", "high", "lazy") if q and name == deep[0] else ("current",) if q else vsched.POLICIES):
            items += [(name, policy, 2, i, 16) for i in range(16)]
    if not q:
        items += [(deep[0], p, 3, i, 64) for p in ("current", "high", "lazy") for i in range(64)]
    chk.run(real, [[(w, [list(range(n)), list(range(5, 5 + n + 2))]) for n in (w, w + 1, 3*w)] for w in (2, 3, 4)], chunk=1) if (os.cpu_count() or 1) >= 4 else None
    chk.run(schedules, items, chunk=1)
    chk.run(configurations, [(cp, w) for cp in ([None, 1, 2, 3, 4, 5, 8, 9] if q else [None] + list(range(1, 17)) + [64]) for w in [None, -1, 0, 1] + list(range(2, min(cp or 1, 8) + 3)) + [1000]], chunk=2)
    chk.run(arguments, ["callable", "update"])
    chk.sample({"case": "2 workers, 3 parameters", "policy": "lazy (queues flushed as late as possible)", "deviations": "((17, 1), (60, 2))"})
    chk.extra["policies"] = ", ".join(vsched.POLICIES); chk.extra["cases"] = list(CASES)
    chk.assumptions = ["modelled primitives of multiprocessing (operations are atomic, processes see own copies of memory except module globals)", f"at most {2 if q else 3} deviations for the smallest cases, 1 for the others"]
    chk.finish()


if __name__ == "__main__":
    vlib.main("C20", main)
