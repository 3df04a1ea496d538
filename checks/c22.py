"""C22: failing workers. All fault points - an exception of each kind for each parameter (and pairs), the death of each worker at each scheduling step of initialization, computation, idle time
and closing - on the real code under the controlled scheduler: the computation ends with an error (or has the complete right result), never hangs and leaves no process running."""
import itertools
import json
import os
import vlib, vsched, zpsf

chk = vlib.Check("C22", "fault_enumeration")
MOD = None


def mod():
    global MOD
    vsched.CPUS[0] = 4; MOD = vsched.load()


class Custom(Exception):
    def __init__(self, a, b):  # cannot be unpickled
        super().__init__(a); self.b = (lambda: b)


class Lines(Exception):
    def __repr__(self):
        return f"Lines\n  {self.args}\n"
    __str__ = __repr__


class NoRepr(Exception):
    def __repr__(self):
        raise TypeError("no representation")
    __str__ = __repr__


def raise_custom():
    raise Custom(1, 2)


KINDS = {"ValueError": ValueError, "ZeroDivisionError": ZeroDivisionError, "Exception": Exception, "own class": lambda m: Custom(m, 2), "without representation": NoRepr, "SystemExit": SystemExit, "KeyboardInterrupt": KeyboardInterrupt,
         "StopIteration": StopIteration, "GeneratorExit": GeneratorExit, "RuntimeError": RuntimeError, "Empty": lambda m: __import__("queue").Empty(m), "TimeoutError": TimeoutError, "OSError": OSError, "long message": lambda m: ValueError(m + 3000*" and \u00e9\n"), "several lines": Lines, "empty message": lambda m: ValueError(), "own subclass": lambda m: type("Own", (ArithmeticError,), {})(m, {"a": 1})}


class Failing:
    """x -> x*x + 1 except for the failing parameters."""

    def __init__(self, kind, failing, endless=()):
        self.kind = kind; self.failing = set(failing); self.endless = set(endless)

    def __call__(self, x):
        if x in self.endless:
            vsched.S.point(COMPUTING, enabled=lambda: False)  # a computation without end
        if x in self.failing:
            raise KINDS[self.kind](f"failed for {x}")
        return x*x + 1


COMPUTING = "computing"


def fine(x):
    return x*x + 1


def attempt(f, *a):
    try:
        return ("ok", f(*a))
    except Exception as e:
        return ("exc", e)


def raising_scenario(kind, w, lists, failing, endless=()):
    """Create, compute for all lists; afterwards a new manager is used. Returns the outcomes."""
    def run():
        m = MOD.DispenserManager(Failing(kind, failing, endless), list(lists[0]), w); outs = []
        for i, pl in enumerate(lists):
            if i:
                attempt(m.update_params, list(pl))
            o = attempt(m.compute); outs.append((o[0], list(o[1]) if isinstance(o[1], list) else o[1]))
        m2 = MOD.DispenserManager(fine, [5, 6, 7], 2); outs.append(("ok", list(m2.compute()))); m2.close(); attempt(m.close)
        return outs
    return run


def judge_raising(lists, failing, out):
    if out[0] != "ok":
        return f"{out[0]}: {out[1]!r}"
    outs = out[1]; failed = False
    for pl, o in zip(lists, outs):
        if failed:  # the manager has been closed because of the failure (or is usable): never a wrong result
            if o[0] == "ok" and o[1] is not None and (set(pl) & set(failing) or o[1] != [fine(x) for x in pl]):
                return f"after the failure {pl} gave {o}"
        elif set(pl) & set(failing):
            failed = True
            if o[0] != "exc":
                return f"computation of {pl} with failing {failing} returned {o[1]}"
        elif o != ("ok", [fine(x) for x in pl]):
            return f"computation of {pl} gave {o}"
    return None if outs[-1] == ("ok", [26, 37, 50]) else f"new manager: {outs[-1]}"


def report(c, key, what, out, s, info):
    c.case(); c.traces += 1; c.states += s.steps; c.transitions += s.steps; c.nontriv(key)
    left = [p.name for p in s.leftover if p.op != COMPUTING]
    if what is None and left:
        what = f"left running: {left}"
    if what:
        c.violation(key, what, {**info, "last steps": [str(t) for t in s.trace[-25:]]})
    return len(c.violations) >= 4


def raising(c, item):
    kind, w, lists, failing, policy, bound = item; mod()

    def j(out, s, dev):
        c.extra["schedules with exceptions"] = c.extra.get("schedules with exceptions", 0) + 1; mod()
        return report(c, f"{kind} workers={w} parameters={lists} failing={failing} policy={policy} deviations={dev}", judge_raising(lists, failing, out), out, s, {"kind": kind, "workers": w, "lists": lists, "failing": failing, "policy": policy, "deviations": dev})
    c.exhaustive &= vsched.explore(raising_scenario(kind, w, lists, failing), j, policy, bound, max_steps=30000)[2]


def endless(c, item):
    """A computation never ends on one worker while another one fails (raises or dies): reported nevertheless."""
    kind, w, n, failing, forever, policy, bound = item; mod(); params = list(range(n))

    def j(out, s, dev):
        c.extra["schedules with endless computations"] = c.extra.get("schedules with endless computations", 0) + 1; mod()
        return report(c, f"{kind} workers={w} parameters={n} failing={failing} endless={forever} policy={policy} deviations={dev}", judge_raising([params], [failing], out), out, s, {"kind": kind, "workers": w, "parameters": n, "failing": failing, "endless": forever, "policy": policy, "deviations": dev})
    c.exhaustive &= vsched.explore(raising_scenario(kind, w, [params], [failing], [forever]), j, policy, bound, max_steps=30000)[2]


def death_scenario(w, lists, idle):
    """A worker dies somewhere: every phase ends either with an error or with the complete result."""
    def run():
        outs = []; m = None
        try:
            m = MOD.DispenserManager(fine, list(lists[0]), w)
        except Exception as e:
            outs.append(("exc", e))
        if m is not None:
            for i, pl in enumerate(lists):
                if i:
                    for _ in range(idle):
                        MOD.time.sleep(0.01)
                    attempt(m.update_params, list(pl))
                o = attempt(m.compute); outs.append((o[0], list(o[1]) if isinstance(o[1], list) else o[1]))
                if o[0] == "ok" and o[1] is not None and outs[-1][1] != [fine(x) for x in pl]:
                    return f"computation of {pl} returned {outs[-1][1]}"
                if o[0] == "ok" and o[1] is None and not any(q[0] == "exc" for q in outs[:-1]):
                    return f"computation of {pl} returned None without an error before"
            m.close()
        vsched.S.kill_plan = {}  # the new manager is not affected
        m2 = MOD.DispenserManager(fine, [5, 6, 7], 2); r = list(m2.compute()); m2.close()
        return None if r == [26, 37, 50] else f"new manager computed {r}"
    return run


DEATHS = {"2 workers, 2 parameters": (2, [[3, 1]], 0), "2 workers, 5 parameters": (2, [[3, 1, 4, 8, 6]], 0), "2 workers, idle between two": (2, [[3, 1], [5, 7, 9]], 3), "3 workers, 4 parameters": (3, [[3, 1, 4, 8]], 0), "4 workers, twice": (4, [[3, 1, 4, 8], [1, 2, 3, 4, 5]], 1)}


def length(name, policy):
    """Number of steps of the fault-free execution without the later new manager."""
    w, lists, idle = DEATHS[name]; mod(); box = {}

    def run():
        r = death_scenario(w, lists, idle)()
        return r
    out, s = vsched.execute(run, policy, max_steps=30000)
    return s.steps


def deaths(c, item):
    """Death of one worker at each step (optionally with deviations of the schedule), or of two workers."""
    name, policy, victim, part, parts, bound = item; w, lists, idle = DEATHS[name]; n = length(name, policy)
    for step in range(1 + part, n + 2, parts):
        def j(out, s, dev):
            c.extra["schedules with a death"] = c.extra.get("schedules with a death", 0) + 1; mod()
            what = None if out == ("ok", None) else f"{out[0]}: {vlib.short(out[1], 300)}"
            return report(c, f"{name}: worker {victim} dies at the step {step} policy={policy} deviations={dev}", what, out, s, {"case": name, "victim": victim, "step": step, "policy": policy, "deviations": dev})
        if len(c.violations) < 4:
            vsched.explore(death_scenario(w, lists, idle), j, policy, bound, kill=(victim, step), max_steps=30000)


def double_deaths(c, item):
    name, policy, a, b, part, parts, stride = item; w, lists, idle = DEATHS[name]; n = length(name, policy); pairs = [(s, t) for s in range(1, n + 1, stride) for t in range(s, n + 1, stride)]
    for s1, s2 in pairs[part::parts]:
        mod(); out, s = vsched.execute(death_scenario(w, lists, idle), policy, kill=((a, s1), (b, s2)), max_steps=30000); c.extra["schedules with two deaths"] = c.extra.get("schedules with two deaths", 0) + 1
        if report(c, f"{name}: worker {a} dies at the step {s1}, worker {b} at {s2} policy={policy}", None if out == ("ok", None) else f"{out[0]}: {vlib.short(out[1], 300)}", out, s, {"case": name, "deaths": [(a, s1), (b, s2)], "policy": policy}):
            return


def psf_scenario():
    from zernpy import ZernPol, ZernPSF
    p = ZernPSF(ZernPol(m=1, n=3)); p.set_physical_props(0.95, 0.55, 0.3, 0.12); p.set_calculation_props(3, 20, 36); want = zpsf.points([(1, 3)], [0.3/0.55], [0.9], [0.4], zpsf.rule(20, 36))[0]; ok = lambda o: abs(o[1] - want) <= 1e-9
    i = attempt(p.initialize_parallel_workers); o = attempt(p.get_psf_point_r_parallel, 0.9, 0.4)
    if o[0] == "ok" and not ok(o):
        return f"point {o[1]} instead of {want}"
    vsched.S.kill_plan = {}; p.deinitialize_workers(); p.initialize_parallel_workers(); o = attempt(p.get_psf_point_r_parallel, 0.9, 0.4); p.deinitialize_workers()
    return None if o[0] == "ok" and ok(o) else f"after initializing of new workers: {o} instead of {want}"


def psf_deaths(c, item):
    """A worker of a PSF object dies: error or right value; the object works with new workers."""
    victim, policy, part, parts = item; mod(); out, s = vsched.execute(psf_scenario, policy, max_steps=100000)
    for step in range(1 + part, s.steps + 1, parts):
        mod(); out, s2 = vsched.execute(psf_scenario, policy, kill=(victim, step), max_steps=100000); c.extra["schedules with a death (PSF)"] = c.extra.get("schedules with a death (PSF)", 0) + 1
        if report(c, f"PSF: worker {victim} dies at the step {step} policy={policy}", None if out == ("ok", None) else f"{out[0]}: {vlib.short(out[1], 300)}", out, s2, {"victim": victim, "step": step, "policy": policy}):
            return


REAL = r'''
import sys, json, os, signal, time, multiprocessing
sys.path[:0] = [%r, %r, %r]
from zernpy.utils.intmproc import DispenserManager
import c22
class Dying:
    def __init__(self, how, failing): self.how = how; self.failing = failing
    def __call__(self, x):
        if x in self.failing:
            if self.how == "exit": os._exit(3)
            if self.how == "kill": os.kill(os.getpid(), signal.SIGKILL)
            raise c22.KINDS[self.how](str(x))
        return x*x + 1
if __name__ == "__main__":
    out = []
    for how, w, params, failing in json.loads(sys.argv[1]):
        m = DispenserManager(Dying(how, failing), params, w); t = time.time()
        try:
            r = m.compute(); out.append("returned " + repr(r))
        except Exception as e:
            out.append("exception")
        m2 = DispenserManager(c22.fine, [5, 6, 7], 2)
        if m2.compute() != [26, 37, 50]: out[-1] += ", the new manager is wrong"
        m2.close()
    for _ in range(100):
        if not multiprocessing.active_children(): break
        time.sleep(0.05)
    print(json.dumps([out, len(multiprocessing.active_children())]), flush=True)
'''


def real(c, item):
    path = os.path.join(vlib.SCRATCH, "tmp", f"real{os.getpid()}.py")
    with open(path, "w") as f:
        f.write(REAL % (os.path.join(vlib.SCRATCH, "src"), os.path.join(vlib.VERIF, "lib"), os.path.join(vlib.VERIF, "checks")))
    r = vlib.script([path, json.dumps(item)])
    if r is None:
        c.violation(f"real processes {item}", f"did not finish within 240 s"); return
    try:
        out, left = json.loads(r[0].strip().splitlines()[-1])
    except (ValueError, IndexError):
        c.violation(f"real processes {item}", f"failed: {r[1][-600:]}", {"cases": item}); return
    for case, got in zip(item, out):
        c.case(); c.traces += 1; c.extra["runs with real processes"] = c.extra.get("runs with real processes", 0) + 1
        if got != "exception":
            c.violation(f"real processes {case}", got, {"case": case})
    if left:
        c.violation("real processes left", f"{left} processes left running after {item}")


def main():
    chk.rule = "one evaluation = one execution with injected fault(s) under one schedule; non-trivial: distinct (fault, schedule)"
    q = vlib.QUICK; pol = vsched.POLICIES; items = []; sizes = [(2, 2), (2, 3), (2, 4), (3, 4)] if q else [(2, 2), (2, 3), (2, 4), (2, 5), (3, 3), (3, 4), (3, 5), (4, 4), (4, 6)]
    for kind in KINDS:
        for w, n in sizes:
            params = list(range(n)); subsets = [f for k in (1, 2, n) for f in itertools.combinations(params, k)]
            items += [(kind, w, [params], f, p, 0) for f in sorted(set(subsets)) for p in pol]
        items += [(kind, 2, [[7, 8], [0, 1, 2], [9, 7]], (f,), p, 0) for f in (0, 1, 2, 8) for p in pol]
    for kind in ("ValueError", "SystemExit") if q else ("ValueError", "SystemExit", "KeyboardInterrupt", "without representation"):
        for w, n in ((2, 2), (2, 3)) if q else sizes[:5]:
            items += [(kind, w, [list(range(n))], (f,), p, 1) for f in range(n) for p in (pol[:1] + pol[4:] if q else pol)]
    if (os.cpu_count() or 1) >= 4:
        kinds = ["kill", "exit", "ValueError", "SystemExit", "without representation", "own class"]
        chk.run(real, [[(k, 2, [1, 2, 3, 4], f) for k in ks for f in ([1], [4], [2, 3])] for ks in (kinds[:3], kinds[3:])], jobs=2, chunk=1)
    chk.run(raising, items, chunk=4)
    pairs = lambda w, n: [(f, e) for f in range(n) for e in range(n) if f < e or f != e and max(e, f) < w]
    chk.run(endless, [(k, w, n, f, e, p, 0) for k in ("ValueError", "SystemExit", "KeyboardInterrupt") for w, n in sizes for f, e in pairs(w, n) for p in pol]
            + [("ValueError", 2, n, f, e, p, 1) for n in ((2,) if q else (2, 3, 4)) for f, e in pairs(2, n) for p in (pol[:1] if q else pol)], chunk=2)
    dead = []
    for name in DEATHS:
        for p in pol:
            for v in range(1, DEATHS[name][0] + 1):
                dead += [(name, p, v, i, 4, 0) for i in range(4)]
    if not q:
        dead += [(name, p, v, i, 64, 1) for name in list(DEATHS)[:3] for p in pol for v in (1, 2) for i in range(64)]
    chk.run(deaths, dead, chunk=2)
    chk.run(double_deaths, [(name, p, a, b, i, 16, stride) for name, stride in ((("2 workers, 2 parameters", 11), ("3 workers, 4 parameters", 29)) if q else (("2 workers, 2 parameters", 2), ("2 workers, 5 parameters", 4), ("3 workers, 4 parameters", 5)))
                            for p in (("current", "lazy") if q else pol) for a, b in itertools.permutations(range(1, DEATHS[name][0] + 1), 2) for i in range(16)], chunk=2)
    chk.run(psf_deaths, [(v, p, i, 64 if q else 16) for v in ((1, 4) if q else (1, 2, 3, 4)) for p in (("current",) if q else pol[:2] + pol[4:]) for i in ((0, 21, 42) if q else range(16))], chunk=1)
    chk.sample({"fault": "worker 2 killed at the scheduling step 37", "case": "2 workers, 5 parameters", "policy": "lazy"}); chk.sample({"fault": "ValueError for the parameters (1, 3)", "case": "3 workers, 4 parameters"})
    chk.extra["kinds of exceptions"] = ", ".join(KINDS); chk.assumptions = ["modelled primitives of multiprocessing: a killed process loses not flushed data, keeps the lock of a queue it is receiving from, and a killed waiter of an Event blocks Event.set",
                       "functions return pickleable results"]
    chk.finish()


if __name__ == "__main__":
    vlib.main("C22", main)
