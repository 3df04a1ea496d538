"""Controlled scheduler for real threads of the real code: every line and every access to possibly shared data of the package is a possible preemption."""
import dis
import os
import sys
import threading
import numpy as np
import vlib
from zernpy import ZernPol

PKG = os.path.join(vlib.SCRATCH, "src", "zernpy")
SHARED = {"STORE_ATTR", "STORE_GLOBAL", "STORE_SUBSCR", "STORE_SLICE", "STORE_DEREF", "DELETE_ATTR", "DELETE_GLOBAL", "DELETE_SUBSCR", "STORE_NAME", "LOAD_ATTR", "LOAD_GLOBAL", "LOAD_DEREF"}
_codes = {}


def interesting(code):
    """Offsets of instructions after which a preemption is tried: accesses to data that could be shared by threads."""
    if code not in _codes:
        off = set(); prev = None
        for ins in dis.get_instructions(code):
            if prev is not None and (prev.opname in SHARED and not (prev.opname in ("LOAD_GLOBAL", "LOAD_ATTR") and str(prev.argval) in STATIC)):
                off.add(ins.offset)
            prev = ins
        _codes[code] = off
    return _codes[code]


STATIC = {"np", "math", "isinstance", "len", "range", "int", "float", "round", "abs", "str", "type", "list", "tuple", "ndarray", "ValueError", "TypeError", "sqrt", "zeros", "cos", "sin", "pi", "power", "asarray", "shape", "warnings", "warn",
          "append", "max", "min", "ZernPol", "hasattr", "namedtuple", "enumerate", "sum", "print"}


class Runner:
    """Runs an operation with a hook called at each scheduling point."""

    def __init__(self, op, hook, last=None):
        self.op = op; self.hook = hook; self.count = 0; self.out = None; self.active = True; self.where = []; self.last = last  # tracing isn't needed after the last point

    def tracer(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(PKG):
            return None
        frame.f_trace_opcodes = True; off = interesting(frame.f_code)

        def local(f, ev, a):
            if ev == "line" or ev == "opcode" and f.f_lasti in off or ev == "return":
                self.point((f.f_code, f.f_lasti))
            return local
        self.point((frame.f_code, -1))
        return local

    def point(self, place):
        if self.active:
            self.count += 1; self.where.append(place); self.hook(self.count)
            if self.count == self.last:
                self.active = False; sys.settrace(None)

    def run(self):
        sys.settrace(self.tracer)
        try:
            try:
                r = ("ok", self.op())
            finally:
                sys.settrace(None); self.active = False
        except Exception as e:
            r = ("exc", type(e).__name__, str(e))
        self.out = r


class Turn:
    """A thread that can be waited for; a thread blocked by a lock of the code under test does not stop the others."""
    patience = [1.0]

    def __init__(self, target):
        self.t = threading.Thread(target=target, daemon=True); self.arrived = threading.Event(); self.go = threading.Event()

    def start_and_wait(self):
        self.t.start(); self.wait()

    def wait(self):
        """Until it has arrived at its preemption or has finished; a blocked one is left behind."""
        if not self.arrived.wait(self.patience[0]):
            self.patience[0] = 0.02


def same(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, np.ndarray):
        return a.shape == b.shape and a.dtype == b.dtype and np.array_equal(a, b, equal_nan=a.dtype.kind == "f")
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, ZernPol):
        return a.get_mn_orders() == b.get_mn_orders() and a.get_indices() == b.get_indices() and str(a) == str(b)
    return a == b or a != a and b != b


def solo(op):
    r = Runner(op, lambda k: None); t = threading.Thread(target=r.run); t.start(); t.join(); return r.out, r.where


def interleave1(op1, op2, k):
    """Thread 1 is preempted at its point k; thread 2 runs completely; thread 1 continues."""
    r2 = Runner(op2, lambda c: None); t2 = Turn(None)

    def body2():
        run_plain(r2); t2.arrived.set()
    t2.t = threading.Thread(target=body2, daemon=True)
    r1 = Runner(op1, lambda c: t2.start_and_wait() if c == k else None, k); t1 = threading.Thread(target=r1.run, daemon=True); t1.start(); t1.join(60)
    if not t2.t.ident:
        return r1.out, None
    t2.t.join(60)
    return r1.out, r2.out


def run_plain(r):
    try:
        r.out = ("ok", r.op())
    except Exception as e:
        r.out = ("exc", type(e).__name__, str(e))


def interleave2(op1, op2, k, l):
    """Thread 1 stops at its point k, thread 2 runs up to its point l, thread 1 finishes, thread 2 finishes."""
    t2 = Turn(None); resume = threading.Event()

    def at2(c):
        if c == l:
            t2.arrived.set(); resume.wait(5.0)
    r2 = Runner(op2, at2)

    def body2():
        r2.run(); t2.arrived.set()
    t2.t = threading.Thread(target=body2, daemon=True)
    r1 = Runner(op1, lambda c: t2.start_and_wait() if c == k else None); t1 = threading.Thread(target=r1.run, daemon=True); t1.start()
    t1.join(0.5 if Turn.patience[0] == 1.0 else 0.02); resume.set(); t1.join(60)
    if t2.t.ident:
        t2.t.join(60)
    return r1.out, r2.out


def points_of(where, which):
    """Scheduling points of an execution: all, or those at the first / second / last time each instruction is reached."""
    if which == "all":
        return list(range(1, len(where) + 1))
    times = {}
    for k, p in enumerate(where, 1):
        times.setdefault(p, []).append(k)
    return sorted({k for t in times.values() for k in (t[:2] + t[-1:] if which == "first, second and last" else t[:1])})


def verdict(c, names, wants, outs, what):
    c.case(); c.traces += 1
    for n, w, o in zip(names, wants, outs):
        if o is None or not same(w, o):
            c.violation(what, f"'{n}' gives {vlib.short(o, 200)} instead of {vlib.short(w, 200)}", {"threads": names, "schedule": what}); return True
    return False
