"""C28: interrupted parallel computations. An exception (KeyboardInterrupt, or one raised by a signal handler) arrives in the process of the manager at every scheduling point of creating,
computing, updating and closing (in that process only, or in all processes as by Ctrl-C in a terminal); the real code runs under the controlled scheduler. Later results are never wrong,
nothing waits for ever and no worker is left."""
import itertools
import vlib, vsched

chk = vlib.Check("C28", "model_checking")
MOD = None


class Stop(Exception):
    """Raised by a handler of a signal."""


EXC = {"KeyboardInterrupt": KeyboardInterrupt, "exception of a signal handler": Stop, "SystemExit": SystemExit}


def square(x):
    return x*x + 1


def mod():
    global MOD
    vsched.CPUS[0] = 4; MOD = vsched.load(); return MOD


def attempt(f, *a):
    try:
        r = f(*a); return ("ok", list(r) if isinstance(r, (list, tuple)) else r)
    except vsched.Killed:
        raise
    except BaseException as e:
        return ("exc", type(e).__name__)


FOLLOW = {"compute": ("compute",), "compute twice": ("compute", "compute"), "update and compute": ("update", "compute"), "update, compute twice": ("update", "compute", "compute"), "close and compute": ("close", "compute"), "nothing": ()}


def scenario(w, n, phase, follow):
    """Returns [(operation, outcome, accepted lists)]."""
    def run():
        out = []; first = list(range(3, 3 + n)); other = [100 + 3*j for j in range(n + 1)]; third = [200 + 7*j for j in range(n)]; want = lambda *ls: [[square(x) for x in q] for q in ls]
        def watched(f, *a):
            vsched.S.watch = True
            try:
                return attempt(f, *a)
            finally:
                if vsched.S is not None:
                    vsched.S.watch = False
        if phase == "new":
            box = []
            o = watched(lambda: box.append(MOD.DispenserManager(square, first, w))); out.append(("new", o, None)); m = box[0] if box else None; current = [first]
        else:
            m = MOD.DispenserManager(square, first, w); current = [first]
            if phase in ("compute again", "close after"):
                o = attempt(m.compute); out.append(("compute", o, want(first)))
            if phase in ("compute", "compute again"):
                o = watched(m.compute); out.append(("interrupted compute", o, want(first)))
            elif phase == "update":
                o = watched(m.update_params, other); out.append(("interrupted update", o, None)); current = [first, other]
            else:
                o = watched(m.close); out.append(("interrupted close", o, None))
        if m is not None:
            for op in FOLLOW[follow]:
                if op == "compute":
                    out.append((op, attempt(m.compute), want(*current)))
                elif op == "update":
                    o = attempt(m.update_params, third); out.append((op, o, None)); current = [third] if o[0] == "ok" else current + [third]
                else:
                    out.append((op, attempt(m.close), None))
            out.append(("close", attempt(m.close), None)); m = None
        m2 = MOD.DispenserManager(square, [5, 6, 7], 2); out.append(("new manager", attempt(m2.compute), want([5, 6, 7]))); out.append(("close", attempt(m2.close), None))
        return out
    return run


def problem(out, s, phase, exc):
    if out[0] != "ok":
        return f"{out[0]}: {vlib.short(out[1], 300)}"
    closed = False
    for i, (op, o, want) in enumerate(out[1]):
        closed = closed and op != "new manager" or "close" in op
        interrupted = s.hit and (op.startswith("interrupted") or i == 0 and phase == "new")
        if interrupted and o[0] == "ok" and want is not None and o[1] not in want:
            return f"{op} returned {o[1]!r} in spite of the exception"
        if o[0] == "exc" and not (interrupted and o[1] in (exc, "RuntimeError") or (s.hit or closed) and op in ("compute", "update") and o[1] == "RuntimeError"):
            return f"{op} raised {o[1]}"
        if o[0] == "ok" and want is not None and o[1] not in want and not (o[1] is None and (s.hit or closed) and op == "compute"):
            return f"{op} returned {o[1]!r} instead of {' or '.join(map(str, want))}"
    if out[1][-2][1] != ("ok", [26, 37, 50]):
        return f"new manager: {out[1][-2][1]}"
    return f"left running: {s.left()}" if s.left() else None


def points(c, item):
    w, n, phase, follow, exc, everyone, policy, bound, parts, part = item; k = 0
    while True:
        k += 1; hits = [0]
        if k % parts != part:
            mod(); out, s = vsched.execute(scenario(w, n, phase, follow), policy, (), None, 40000, (k, EXC[exc], everyone))
            if not s.hit:
                break
            continue

        def j(out, s, dev):
            hits[0] += s.hit; c.case(); c.traces += 1; c.states += s.steps; c.transitions += s.steps; what = problem(out, s, phase, EXC[exc].__name__); mod()
            if what:
                c.violation(f"{exc} at the point {k} of '{phase}', then {follow}; workers={w} parameters={n} all processes={everyone} policy={policy} deviations={dev}", what,
                            {"point": k, "phase": phase, "then": follow, "workers": w, "parameters": n, "exception": exc, "everyone": everyone, "policy": policy, "deviations": dev, "last steps": [str(t) for t in s.trace[-25:]]})
            return len(c.violations) >= 4
        mod(); c.exhaustive &= vsched.explore(scenario(w, n, phase, follow), j, policy, bound, max_steps=40000, interrupt=(k, EXC[exc], everyone))[2]
        c.extra["points of interruption"] = c.extra.get("points of interruption", 0) + 1; c.nontriv(f"{item}{k}")
        if not hits[0] or len(c.violations) >= 4:
            break


def main():
    q = vlib.QUICK; chk.rule = "one evaluation = one execution with an exception arriving at one scheduling point of the manager, all later results judged; non-trivial: distinct points"
    phases = ("new", "compute", "compute again", "update", "close", "close after"); pol = vsched.POLICIES; items = []
    for w, n in ((2, 2), (2, 5), (3, 4)) if q else ((2, 2), (2, 3), (2, 5), (2, 8), (3, 4), (3, 6), (4, 9)):
        for phase, (follow, exc), everyone, p in itertools.product(phases, itertools.product(FOLLOW, EXC), (False, True), pol):
            if q and (exc == "SystemExit" and (follow != "compute" or everyone) or exc == "exception of a signal handler" and (everyone or follow not in ("compute", "update and compute")) or phase == "new" and follow not in ("compute", "nothing")):
                continue
            items.append((w, n, phase, follow, exc, everyone, p, 0, 1, 0))
    chk.run(points, items, chunk=2)
    deep = [(2, 2, ph, f, "KeyboardInterrupt", ev, p, 1, 8, i) for ph in ("compute", "new", "close") for f in (("update and compute",) if q else FOLLOW) for ev in (False, True) for p in (("current", "lazy") if q else pol) for i in range(8)]
    chk.run(points, deep, chunk=1)
    chk.sample({"exception": "KeyboardInterrupt", "point": 41, "phase": "compute", "then": "update and compute", "policy": "lazy"})
    chk.assumptions = ["one exception per execution, arriving at an operation with a shared object or a delay; the exception reaches workers when they are scheduled next (when all processes are interrupted)", "modelled primitives of multiprocessing (the same as for C20 - C22, where they are compared with real processes)"]
    chk.finish()


if __name__ == "__main__":
    vlib.main("C28", main)
