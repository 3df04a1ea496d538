"""Controlled scheduler for code based on multiprocessing: models of Process, Event, Queue, Lock etc. and of time, with the real code of the package running
on top of them. "Processes" are threads, of which exactly one runs at a time; before each operation on a shared object the scheduler chooses who runs next.

An execution is determined by: the scenario, the default policy, the map of deviations {choice number: alternative} and the fault plan (which process is killed
at which step). `explore` runs all executions with at most a given number of deviations.

Modelled: arbitrary delays of processes, of feeder threads of queues (put data becomes visible later) and of timers (a timeout can fire as soon as nothing
else can run - virtual time - and, as a deviation, at any moment), Event.wait returning the flag after a notification, Event.set blocked by a killed waiter,
a queue lock held by a process killed while receiving, flush of queues at the exit of a process, copies of the memory at the start of a process, pickling."""
import copy
import importlib
import io
import itertools
import os
import pickle
import queue as _queue
import sys
import threading
import types

TIMEOUT = object()


class Killed(BaseException):
    """Raised inside of a killed process."""


class Hang(Exception):
    pass


S = None  # current scheduler
BUSY = []  # executions which ended in a busy loop
POLICIES = ("current", "high", "low", "round robin", "lazy")


class Proc:
    def __init__(self, pid, name):
        self.pid = pid; self.name = name; self.lock = threading.Lock(); self.lock.acquire(); self.enabled = None; self.wake = None; self.result = None
        self.state = "ready"; self.buffers = {}; self.killed = False; self.waiting_get = None; self.exitcode = None; self.op = ""; self.timed_out = False; self.thread = None; self.exc = None; self.interrupted = False

    def alive(self):
        return self.state not in ("dead",)


def _plan(kill):
    """(process, step) or several of them -> {step: processes}"""
    out = {}
    for v, step in (() if not kill else (kill,) if isinstance(kill[0], int) else kill):
        out.setdefault(step, []).append(v)
    return out


class Scheduler:
    def __init__(self, policy="current", deviations=(), kill=None, max_steps=6000, interrupt=None):
        self.watch = False; self.watched = 0; self.interrupt = interrupt; self.hit = False  # (number of the point of the process 0 while `watch`, exception, all processes?)
        self.policy = policy; self.dev = dict(deviations); self.kill_plan = _plan(kill); self.procs = []; self.cur = None; self.now = 0.0; self.steps = 0; self.max_steps = max_steps
        self.choices = []; self.verdict = None; self.done = threading.Event(); self.aborting = False; self.repeated = 0; self.last = None; self.trace = []; self.parent_done = None; self.pickle_errors = 0; self.max_alive = 0

    # --- called by the harness
    def run(self, scenario):
        """Run the scenario as the process 0; returns ('ok'|'exc'|'hang', value)."""
        global S
        S = self; p = self.new_proc("main"); box = {}

        def body():
            try:
                box["r"] = ("ok", scenario())
            except Killed:
                box["r"] = ("hang", self.verdict)
            except BaseException as e:
                box["r"] = ("exc", e)
            self.parent_done = self.steps; self.finish_proc(p)
        self.spawn(p, body); self.cur = p; p.lock.release()
        import time
        seen, cpu, wall = -1, 0.0, 0.0
        while not self.done.wait(2.0):
            if self.steps != seen:
                seen, cpu, wall = self.steps, time.process_time(), time.time()
            elif time.process_time() - cpu > (20.0 if not BUSY else 4.0) or time.time() - wall > 240.0:
                BUSY.append(1); self.verdict = "busy loop without communication"; box.setdefault("r", ("hang", self.verdict)); S = None; self.leftover = []; return box["r"]
        self.aborting = True  # release what is left
        for q in self.procs:
            if q.thread is not None and q.thread.is_alive():
                q.killed = True
                try:
                    q.lock.release()
                except RuntimeError:
                    pass
                q.thread.join(5.0)
        S = None
        if self.verdict is not None and box.get("r", ("hang",))[0] in ("hang",):
            return ("hang", self.verdict)
        return box.get("r", ("hang", self.verdict))

    def left(self):
        """Processes that are still running after the scenario and a fair execution of everything else."""
        return [p.name for p in self.leftover]

    # --- processes
    def new_proc(self, name):
        p = Proc(len(self.procs), name); self.procs.append(p); return p

    def spawn(self, p, body):
        def start():
            p.lock.acquire()
            if p.killed:
                p.state = "dead"; return
            body()
        p.thread = threading.Thread(target=start, daemon=True); p.thread.start()

    def finish_proc(self, p):
        """The body of a process ended: it exits after flushing its queues."""
        if self.aborting or p.killed:
            p.state = "dead"; return
        p.state = "exiting" if p.pid else "dead"; self.switch(p, ending=True)

    # --- scheduling
    def point(self, op, enabled=None, timeout=None):  # long waiting times are shortened: delays of everything else are arbitrary anyway
        """Before an operation of the current process. True: do it; TIMEOUT: its waiting time is over."""
        p = self.cur
        if threading.current_thread() is not p.thread:  # e.g. a finalizer of the harness
            return True
        if p.killed or self.aborting:
            raise Killed()
        if self.watch and p.pid == 0 and self.interrupt is not None:
            self.watched += 1
            if self.watched == self.interrupt[0]:
                self.hit = True; self.watch = False
                for q in self.procs[1:] if self.interrupt[2] else ():
                    q.interrupted = q.state == "ready"
                raise self.interrupt[1](op)
        p.op = op; p.enabled = enabled; p.wake = None if timeout is None else self.now + min(max(0.0, timeout), 0.01); p.timed_out = False
        self.switch(p)
        if p.killed or self.aborting:
            raise Killed()
        p.enabled = None; p.wake = None
        if p.interrupted:
            p.interrupted = False; raise self.interrupt[1](op)
        return TIMEOUT if p.timed_out else True

    def actors(self):
        run, timed = [], []
        for p in self.procs:
            for q, b in p.buffers.items():
                if b and p.state != "dead":
                    run.append(("flush", p.pid, q))
            if p.state == "exiting":
                if not any(b for q, b in p.buffers.items() if not q.no_join):
                    run.append(("exit", p.pid, None))
            elif p.state == "ready":
                if p.interrupted or p.enabled is None and p.wake is None or p.enabled is not None and p.enabled():
                    run.append(("run", p.pid, None))
                elif p.wake is not None:
                    timed.append(("time", p.pid, None))
        c = self.cur.pid; n = len(self.procs); lazy = self.policy in ("low", "lazy")
        kind = {"flush": 3 if lazy else 0, "exit": 3 if lazy else 0, "run": 1}
        order = {"current": lambda i: (i - c) % n, "high": lambda i: -i, "low": lambda i: i, "round robin": lambda i: (i - c - 1) % n, "lazy": lambda i: (i - c - 1) % n}[self.policy]
        run.sort(key=lambda a: (kind[a[0]], order(a[1]), a[2].id if a[2] is not None else 0)); timed.sort(key=lambda a: (self.procs[a[1]].wake, order(a[1])))
        return run + timed

    def choose(self):
        self.steps += 1
        for v in self.kill_plan.get(self.steps, ()):
            if v < len(self.procs) and self.procs[v].state in ("ready", "exiting"):
                self.do_kill(self.procs[v])
        acts = self.actors()
        if self.steps > self.max_steps:
            self.verdict = f"no end after {self.max_steps} steps: " + "; ".join(f"{p.name}: {p.op}" for p in self.procs if p.alive()); return None
        if not acts:
            return None
        if self.repeated > 40 and len(acts) > 1 and acts[0][:2] == self.last:  # fairness
            acts = acts[1:] + acts[:1]
        i = 0
        if len(acts) > 1:
            k = len(self.choices); i = self.dev.get(k, 0)
            if i >= len(acts):
                i = 0
            self.choices.append(len(acts))
        a = acts[i]; self.repeated = self.repeated + 1 if a[:2] == self.last else 0; self.last = a[:2]
        if len(self.trace) < 4000:
            self.trace.append(a[:2] + (self.procs[a[1]].op if a[0] in ("run", "time") else "",))
        return a

    def switch(self, p, ending=False):
        """Choose who continues; executed by the thread of the process p."""
        while True:
            alive = sum(1 for q in self.procs[1:] if q.state != "dead" and q.thread is not None); self.max_alive = max(self.max_alive, alive)
            a = self.choose()
            if a is None:
                others = [q for q in self.procs if q.state != "dead"]; self.leftover = [q for q in others if q.pid]
                if self.verdict is None and self.procs[0].state != "dead":
                    self.verdict = "deadlock: " + "; ".join(f"{q.name}: {q.op}" for q in others)
                self.aborting = True; self.done.set()
                if ending:
                    return
                raise Killed()
            kind, pid, q = a; t = self.procs[pid]
            if kind == "flush":
                q.flush(t); continue
            if kind == "exit":
                t.state = "dead"; t.exitcode = 0 if t.exc is None else 1; t.buffers = {}; continue
            if kind == "time":
                self.now = max(self.now, t.wake); t.timed_out = True
            self.cur = t
            if t is p and not ending:
                return
            t.lock.release()
            if ending:
                return
            p.lock.acquire(); return

    def do_kill(self, t):
        """Kill a process: not flushed data is lost, locks held by it remain held."""
        if t.waiting_get is not None and not t.waiting_get.pipe:
            t.waiting_get.dead_lock = True
        t.killed = True; t.state = "dead"; t.exitcode = -9; t.buffers = {}
        for e in EVENTS:
            if t.pid in e.waiters:
                e.dead_waiter = True


EVENTS = []
sys.unraisablehook = lambda u: None  # finalizers of killed processes


class Shared:
    """Objects living outside of the memory of processes."""

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce__(self):
        raise RuntimeError("shared objects should only be passed through inheritance")


class Event(Shared):
    def __init__(self, ctx=None):
        self.flag = False; self.waiters = {}; self.dead_waiter = False; EVENTS.append(self)

    def is_set(self):
        if S is not None:
            S.point("Event.is_set")
        return self.flag

    def set(self):
        if S is not None:
            S.point("Event.set")
        self.flag = True
        for w in self.waiters:
            self.waiters[w] = True
        if self.dead_waiter and S is not None:
            S.point("Event.set (waits for a killed process)", enabled=lambda: False)

    def clear(self):
        if S is not None:
            S.point("Event.clear")
        self.flag = False

    def wait(self, timeout=None):
        S.point("Event.wait")
        if self.flag:
            return True
        me = S.cur.pid; self.waiters[me] = False
        r = S.point("Event.wait", enabled=lambda: self.waiters[me], timeout=timeout); self.waiters.pop(me, None)
        return self.flag


class Queue(Shared):
    _ids = itertools.count()

    def __init__(self, maxsize=0, ctx=None):
        self.id = next(Queue._ids); self.pipe = []; self.dead_lock = False; self.maxsize = maxsize; self.no_join = False; self.count = 0

    def put(self, obj, block=True, timeout=None):
        if S is None:
            return
        full = lambda: self.maxsize > 0 and self.count >= self.maxsize
        if not block:
            S.point("Queue.put")
            if full():
                raise _queue.Full
        elif S.point("Queue.put", enabled=(lambda: not full()) if self.maxsize > 0 else None, timeout=timeout if self.maxsize > 0 else None) is TIMEOUT:
            raise _queue.Full
        self.count += 1; S.cur.buffers.setdefault(self, []).append(obj)

    def put_nowait(self, obj):
        self.put(obj, False)

    def flush(self, proc):
        obj = proc.buffers[self].pop(0)
        try:
            self.pipe.append(pickle.dumps(obj))
        except Exception:  # as the feeder thread does: report and forget
            S.pickle_errors += 1; self.count -= 1

    def _take(self):
        self.count -= 1
        return pickle.loads(self.pipe.pop(0))

    def get(self, block=True, timeout=None):
        ok = lambda: self.pipe and not self.dead_lock
        if not block:
            S.point("Queue.get_nowait")
            if not ok():
                raise _queue.Empty
            return self._take()
        S.cur.waiting_get = self; me = S.cur
        r = S.point("Queue.get", enabled=ok, timeout=timeout); me.waiting_get = None
        if r is TIMEOUT and not ok():
            raise _queue.Empty
        return self._take()

    def get_nowait(self):
        return self.get(False)

    def empty(self):
        if S is not None:
            S.point("Queue.empty")
        return not self.pipe

    def full(self):
        S.point("Queue.full")
        return self.maxsize > 0 and self.count >= self.maxsize

    def qsize(self):
        S.point("Queue.qsize")
        return self.count

    def close(self):
        pass

    def join_thread(self):
        if S is not None:
            me = S.cur; S.point("Queue.join_thread", enabled=lambda: not me.buffers.get(self))

    def cancel_join_thread(self):
        self.no_join = True


class SimpleQueue(Queue):
    def __init__(self, ctx=None):
        super().__init__()

    def put(self, obj):
        S.point("SimpleQueue.put"); self.pipe.append(pickle.dumps(obj)); self.count += 1

    def get(self):
        return super().get()


class JoinableQueue(Queue):
    unfinished = 0

    def put(self, obj, block=True, timeout=None):
        super().put(obj, block, timeout); self.unfinished += 1

    def task_done(self):
        S.point("JoinableQueue.task_done"); self.unfinished -= 1

    def join(self):
        S.point("JoinableQueue.join", enabled=lambda: self.unfinished <= 0)


class Lock(Shared):
    def __init__(self, ctx=None, value=1):
        self.value = value

    def acquire(self, block=True, timeout=None):
        if not block:
            S.point("Lock.acquire")
            if self.value <= 0:
                return False
        elif S.point("Lock.acquire", enabled=lambda: self.value > 0, timeout=timeout) is TIMEOUT and self.value <= 0:
            return False
        self.value -= 1
        return True

    def release(self):
        if S is not None:
            S.point("Lock.release")
        self.value += 1

    def __enter__(self):
        self.acquire(); return self

    def __exit__(self, *a):
        self.release()


class RLock(Lock):
    owner = None; depth = 0

    def acquire(self, block=True, timeout=None):
        if self.owner == S.cur.pid:
            self.depth += 1; return True
        r = super().acquire(block, timeout)
        if r:
            self.owner = S.cur.pid; self.depth = 1
        return r

    def release(self):
        self.depth -= 1
        if self.depth == 0:
            self.owner = None; super().release()


def Semaphore(value=1, ctx=None):
    return Lock(value=value)


class Value(Shared):
    def __init__(self, typecode, *args, lock=True):
        self._v = args[0] if args else 0; self._lock = RLock()

    @property
    def value(self):
        S.point("Value.get")
        return self._v

    @value.setter
    def value(self, v):
        S.point("Value.set"); self._v = v

    def get_lock(self):
        return self._lock


class Connection(Shared):
    def __init__(self):
        self.inbox = []; self.peer = None; self.closed = False

    def send(self, obj):
        S.point("Connection.send")
        if self.closed:
            raise OSError("handle is closed")
        self.peer.inbox.append(pickle.dumps(obj))

    def recv(self):
        S.point("Connection.recv", enabled=lambda: bool(self.inbox))
        return pickle.loads(self.inbox.pop(0))

    def poll(self, timeout=0.0):
        if timeout == 0.0:
            S.point("Connection.poll")
        else:
            S.point("Connection.poll", enabled=lambda: bool(self.inbox), timeout=timeout)
        return bool(self.inbox)

    def close(self):
        self.closed = True


def Pipe(duplex=True):
    a, b = Connection(), Connection(); a.peer = b; b.peer = a
    return a, b


class Process:
    _handle = None; _counter = itertools.count(1)

    def __init__(self, group=None, target=None, name=None, args=(), kwargs={}, *, daemon=None):
        self._target, self._args, self._kwargs = target, tuple(args), dict(kwargs); self.name = name or f"{type(self).__name__}"; self.daemon = bool(daemon); self._handle = None

    def run(self):
        if self._target is not None:
            self._target(*self._args, **self._kwargs)

    def start(self):
        assert self._handle is None, "cannot start a process twice"
        S.point("Process.start"); p = S.new_proc(f"{self.name}-{len(S.procs)}"); self._handle = p; child = copy.deepcopy(_Bag(self)).obj  # own copy of the memory
        child._handle = p

        def body():
            try:
                child.run()
            except Killed:
                pass
            except SystemExit:
                pass
            except BaseException as e:
                p.exc = e
            S.finish_proc(p) if S is not None else None
        S.spawn(p, body)

    def is_alive(self):
        if self._handle is None:
            return False
        if S is not None:
            S.point("Process.is_alive")
        return self._handle.alive()

    def join(self, timeout=None):
        if S is not None and self._handle is not None:
            S.point("Process.join", enabled=lambda: not self._handle.alive(), timeout=timeout)

    def terminate(self):
        if S is not None and self._handle is not None:
            S.point("Process.terminate")
            if self._handle.alive():
                S.do_kill(self._handle)

    kill = terminate

    def close(self):
        pass

    @property
    def pid(self):
        return None if self._handle is None else 1000 + self._handle.pid

    ident = pid

    @property
    def exitcode(self):
        return None if self._handle is None or self._handle.alive() else self._handle.exitcode


class _Bag:
    def __init__(self, obj):
        self.obj = obj

    def __deepcopy__(self, memo):
        src = self.obj; new = object.__new__(type(src)); memo[id(src)] = new
        for k, v in src.__dict__.items():
            if k == "_handle":
                continue
            try:
                new.__dict__[k] = copy.deepcopy(v, memo)
            except Exception:
                new.__dict__[k] = v
        return _Bag(new)


CPUS = [4]


def cpu_count():
    return CPUS[0]


def _fake_multiprocessing(real):
    m = types.ModuleType("multiprocessing"); m.__path__ = list(real.__path__)
    for k, v in (("Process", Process), ("Event", Event), ("Queue", Queue), ("SimpleQueue", SimpleQueue), ("JoinableQueue", JoinableQueue), ("Lock", Lock), ("RLock", RLock), ("Semaphore", Semaphore),
                 ("BoundedSemaphore", Semaphore), ("Value", Value), ("Pipe", Pipe), ("TimeoutError", real.TimeoutError), ("ProcessError", real.ProcessError)):
        setattr(m, k, v)
    m.cpu_count = lambda: cpu_count() or 1; m.get_context = lambda method=None: m; m.get_start_method = lambda allow_none=False: "fork"; m.set_start_method = lambda *a, **k: None
    m.freeze_support = lambda: None; m.active_children = lambda: []; m.current_process = lambda: types.SimpleNamespace(name="p", pid=os.getpid(), daemon=False); m.parent_process = lambda: types.SimpleNamespace(is_alive=lambda: True)
    m.context = types.SimpleNamespace(Process=Process); m.process = types.SimpleNamespace(BaseProcess=Process); m.synchronize = types.SimpleNamespace(Event=Event, Lock=Lock); m.queues = types.SimpleNamespace(Queue=Queue, Empty=_queue.Empty, Full=_queue.Full)
    return m


def _fake_time(real):
    m = types.ModuleType("time")
    for k in dir(real):
        setattr(m, k, getattr(real, k))

    def sleep(t):
        if S is None:
            return
        S.point("sleep", enabled=lambda: False, timeout=min(t, 0.0003))  # delays are arbitrary: long sleeps only lengthen executions

    def clock():
        return S.now if S is not None else 0.0
    m.sleep = sleep; m.perf_counter = m.monotonic = m.time = clock; m.perf_counter_ns = m.monotonic_ns = m.time_ns = lambda: int(clock()*1e9)
    return m


def load():
    """(Re-)execute the package's module with the modelled primitives; returns it."""
    import multiprocessing as rmp
    import multiprocessing.queues, multiprocessing.synchronize, multiprocessing.context, multiprocessing.process  # noqa: F401, E401
    import time as rtime
    import zernpy.utils  # noqa: F401
    fakes = {"multiprocessing": _fake_multiprocessing(rmp), "time": _fake_time(rtime)}
    for sub in ("context", "process", "synchronize", "queues"):
        fakes[f"multiprocessing.{sub}"] = getattr(fakes["multiprocessing"], sub)
    saved = {k: sys.modules.get(k) for k in fakes}; sys.modules.update(fakes); cc = os.cpu_count, getattr(os, "process_cpu_count", None), os.sched_getaffinity; os.cpu_count = cpu_count; os.sched_getaffinity = lambda pid=0: set(range(cpu_count() or 1))
    try:
        if "zernpy.utils.intmproc" in sys.modules:
            mod = importlib.reload(sys.modules["zernpy.utils.intmproc"])
        else:
            mod = importlib.import_module("zernpy.utils.intmproc")
    finally:
        sys.modules.update({k: v for k, v in saved.items() if v is not None})
    os.sched_getaffinity = cc[2]
    for name, other in list(sys.modules.items()):  # the rest of the package uses the re-executed classes
        if other is not None and other is not mod and (name == "zernpy" or name.startswith("zernpy.")):
            for k, v in list(vars(other).items()):
                if getattr(v, "__module__", None) == mod.__name__ and hasattr(mod, getattr(v, "__name__", "")):
                    setattr(other, k, getattr(mod, v.__name__))
    return mod


def execute(scenario, policy="current", deviations=(), kill=None, max_steps=6000, interrupt=None):
    """One execution; returns (outcome, scheduler)."""
    import contextlib
    import warnings
    EVENTS.clear(); s = Scheduler(policy, deviations, kill, max_steps, interrupt); s.leftover = []
    with warnings.catch_warnings(record=True), contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter("always")
        out = s.run(scenario)
    return out, s


def explore(scenario, judge, policy, bound, first=None, kill=None, limit=None, max_steps=6000, interrupt=None):
    """All executions with at most `bound` deviations from the policy (only those whose first deviation is at a choice number = first[0] modulo first[1], so that
    the search can be divided; `first` = (part, parts)). `judge(outcome, scheduler, deviations)` returns True for stopping. Returns the number of executions and of steps."""
    stack = [()]; runs = steps = 0
    while stack:
        dev = stack.pop()
        out, s = execute(scenario, policy, dev, kill, max_steps, interrupt); runs += 1; steps += s.steps
        if not (first and not dev and first[0] != 0):
            if judge(out, s, dev):
                return runs, steps, False
        if len(dev) < bound:
            start = dev[-1][0] + 1 if dev else 0
            for k in range(start, len(s.choices)):
                if not dev and first and k % first[1] != first[0]:
                    continue
                for alt in range(1, s.choices[k]):
                    stack.append(dev + ((k, alt),))
        if limit is not None and runs >= limit:
            return runs, steps, False
    return runs, steps, True
