"""Common machinery of all checks: bookkeeping of explored cases, violations with replay files, known findings, evidence files,
and a deterministic fan-out of an enumerated case space over forked worker processes."""
import io
import json
import os
import signal
import sys
import time
import traceback
import multiprocessing as _mp
import multiprocessing.connection as _mp_connection
import pickle as _pickle
import contextlib
import hashlib

VERIF = os.environ.get("VERIF_DIR", os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
SCRATCH = os.environ.get("VERIF_SCRATCH", "/tmp")
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
QUICK = TIER != "thorough"
DEADLINE = float(os.environ.get("VERIF_DEADLINE", "700" if QUICK else "36000"))
N_CPU = int(os.environ.get("VERIF_JOBS", min(8, os.cpu_count() or 1)))
ENOUGH = int(os.environ.get("VERIF_ENOUGH", "60"))  # violations after which the exploration is stopped
T0 = time.time()


class Check:
    """Collects what has been explored and which violations were found."""

    def __init__(self, prop, level):
        self.prop = prop; self.level = level
        self.evaluations = 0; self.states = 0; self.transitions = 0; self.traces = 0
        self.nontrivial = set(); self.n_nontrivial = 0
        self.samples = []; self.violations = []; self.viol_keys = set(); self.known_hit = []
        self.extra = {}
        self.rule = ""; self.assumptions = []; self.exhaustive = True
        self.known = load_known(prop)
        self.max_violations = 20; self.crash_counts = True  # whether a crash of the interpreter counts as a violation

    # --- bookkeeping
    def case(self, n=1):
        self.evaluations += n

    def nontriv(self, key):
        """Register a distinct non-trivial case (hashed)."""
        self.nontrivial.add(key if isinstance(key, (int, str)) else repr(key))

    def sample(self, s, limit=6):
        if len(self.samples) < limit:
            self.samples.append(s)

    def violation(self, key, what, replay=None):
        """Record a violation; `key` identifies the failing input / call site / history."""
        key = str(key)
        if key in self.viol_keys:
            return
        self.viol_keys.add(key)
        for k in self.known:
            if k["key"] == key:
                self.known_hit.append((key, k.get("what", what))); return
        self.violations.append({"key": key, "what": str(what)[:2000], "replay": replay})

    # --- merging of the results of forked workers
    def dump(self):
        return {k: getattr(self, k) for k in ("evaluations", "states", "transitions", "traces", "nontrivial", "samples",
                                              "violations", "viol_keys", "known_hit", "extra", "exhaustive")}

    def merge(self, d):
        self.evaluations += d["evaluations"]; self.states += d["states"]; self.transitions += d["transitions"]; self.traces += d["traces"]
        self.nontrivial |= d["nontrivial"]; self.exhaustive &= d["exhaustive"]
        for s in d["samples"]:
            self.sample(s)
        for v in d["violations"]:
            if v["key"] not in self.viol_keys:
                self.viol_keys.add(v["key"]); self.violations.append(v)
        for k in d["known_hit"]:
            if k not in self.known_hit:
                self.known_hit.append(k)
        for k, v in d["extra"].items():
            if isinstance(v, (int, float)) and not isinstance(v, bool) and isinstance(self.extra.get(k, 0), (int, float)):
                self.extra[k] = max(self.extra.get(k, 0), v) if k.startswith("max_") else self.extra.get(k, 0) + v
            elif isinstance(v, (set, frozenset)):
                self.extra[k] = set(self.extra.get(k, set())) | set(v)
            else:
                self.extra[k] = v

    # --- fan-out: `func(check, item)` for all items, on forked processes, deterministic assignment
    def run(self, func, items, jobs=None, chunk=None):
        items = list(items); jobs = jobs or N_CPU
        if len(items) == 0 or len(self.violations) >= ENOUGH:
            return
        if jobs <= 1 or len(items) == 1:
            for it in items:
                self._one(func, it)
            return
        chunk = chunk or max(1, len(items) // (jobs * 8))
        groups = [items[i:i + chunk] for i in range(0, len(items), chunk)]
        ctx = _mp.get_context("fork"); nxt = ctx.Value("q", 0); workers = []; conns = {}
        for _ in range(min(jobs, len(groups))):
            get, put = ctx.Pipe(duplex=False); w = ctx.Process(target=_worker, args=(self.prop, self.level, func.__module__, func.__name__, groups, nxt, put, list(conns) + [get]), daemon=True)
            w.start(); put.close(); workers.append(w); conns[get] = w
        try:
            while conns and len(self.violations) < ENOUGH:
                ready = _mp_connection.wait(list(conns), timeout=2.0)
                for get in ready:
                    try:
                        self.merge(get.recv())
                    except (EOFError, OSError, _pickle.UnpicklingError):  # the process has ended
                        w = conns.pop(get); get.close(); w.join()
                if self._dead_worker(func, workers):
                    break
                if not ready and time.time() - T0 > DEADLINE or time.time() - T0 > DEADLINE + 30.0:  # out of time: what has been explored so far counts
                    self.exhaustive = False; self.extra["stopped"] = f"time limit in {func.__name__}"; self._endless_case(func, workers); break
            if len(self.violations) >= ENOUGH:
                self.exhaustive = False
        finally:
            for w in workers:
                w.kill()
            for w in workers:
                w.join()
            for get in conns:
                get.close()
        self.violations.sort(key=lambda v: v["key"])
        if "VERIF_TIMES" in os.environ:
            print(f"   finished {func.__name__}: {time.time() - T0:.1f} s", flush=True)

    def _dead_worker(self, func, workers):
        """A process of the exploration that has crashed: some call of the package crashed the interpreter (memory errors in compiled code, ...)."""
        for w in workers:
            if w.exitcode is not None and w.exitcode != 0:
                self.exhaustive = False; what = f"{func.__name__} ended with the exit code {w.exitcode} while exploring {_current(w.pid)[1]}"
                if self.crash_counts and -w.exitcode in (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGFPE, signal.SIGILL):
                    self.violation(f"crash in {func.__name__}", f"the process evaluating {what}: a call of the package crashed it")
                elif w.exitcode == 70:
                    self.violation(f"failure in {func.__name__}", f"the process evaluating {what}: exception outside of a case")
                self.extra["stopped"] = what; return True
        return False

    def _endless_case(self, func, workers):
        """One case that has been running for very long when the time is over: some call of the package doesn't return."""
        for w in workers:
            since, item = _current(w.pid)
            if since is not None and time.time() - since > 300.0:
                self.violation(f"endless {func.__name__}: {item}", f"a call of the package didn't return within {time.time() - since:.0f} s in {func.__name__} for {item}"); break

    def _one(self, func, it):
        if len(self.violations) >= min(self.max_violations, ENOUGH):
            self.exhaustive = False; return
        try:
            func(self, it)
        except Exception as e:  # a case that cannot be evaluated: unexpected exception of the code under test
            self.violation(f"exception:{func.__name__}:{short(it)}", f"unexpected {type(e).__name__}: {e}\n" + traceback.format_exc()[-1200:],
                           {"function": func.__name__, "item": short(it, 500)})

    # --- result
    def finish(self):
        wall = round(time.time() - T0, 2); ev = {"property": self.prop, "tier": TIER, "seed": SEED, "level": self.level}
        n_nt = len(self.nontrivial) + self.n_nontrivial
        if self.level == "model_checking":
            cov = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
                   "samples": self.samples}
            if self.evaluations:
                cov["evaluations"] = self.evaluations
        else:
            cov = {"evaluations": self.evaluations, "distinct_nontrivial": n_nt, "rule": self.rule, "samples": self.samples}
            if self.states:
                cov["states"] = self.states; cov["transitions"] = self.transitions
            if self.traces:
                cov["traces_validated_against_impl"] = self.traces
        if self.rule and "rule" not in cov:
            cov["rule"] = self.rule
        cov["exhaustive"] = bool(self.exhaustive)
        for k, v in self.extra.items():
            cov[k] = sorted(v, key=str) if isinstance(v, (set, frozenset)) else v
        ev["coverage"] = json.loads(json.dumps(cov, default=str)); ev["assumptions"] = self.assumptions
        ev["wall_s"] = wall; ev["violations"] = len(self.violations)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", f"{self.prop}.json"), "w") as f:
            json.dump(ev, f, indent=1)
        for key, what in self.known_hit:
            print(f"KNOWN-FINDING: property={self.prop} {key}: {what}")
        print(f"{self.prop} [{TIER}]: evaluations={self.evaluations} states={self.states} transitions={self.transitions} "
              + f"traces={self.traces} nontrivial={n_nt} violations={len(self.violations)} wall={wall}s")
        for k, v in self.extra.items():
            print(f"   {k}: {str(v)[:300]}")
        if self.violations:
            rdir = os.path.join(VERIF, "evidence", "replays"); os.makedirs(rdir, exist_ok=True)
            for i, v in enumerate(self.violations[:5]):
                name = f"{self.prop}-{hashlib.sha1(v['key'].encode()).hexdigest()[:10]}.json"; path = os.path.join(rdir, name)
                with open(path, "w") as f:
                    json.dump({"property": self.prop, **v}, f, indent=1, default=str)
                print(f"--- {v['key']}\n    {v['what'][:600]}")
                print(f"VIOLATION property={self.prop} replay={path}")
            sys.stdout.flush(); os._exit(1)
        sys.stdout.flush(); os._exit(0)


def _worker(prop, level, mod, fname, groups, nxt, put, others):
    """Process of the exploration: takes the next groups of cases until there are no more."""
    for conn in others:  # ends of the connections of other processes
        conn.close()
    func = getattr(sys.modules[mod], fname); code = 0
    try:
        with open(_current_path(os.getpid()), "w") as f:
            while True:
                with nxt.get_lock():
                    i = nxt.value; nxt.value = i + 1
                if i >= len(groups):
                    break
                c = Check(prop, level)
                for it in groups[i]:
                    f.seek(0); f.truncate(); f.write(f"{time.time()} {short(it)}"); f.flush(); c._one(func, it)
                f.seek(0); f.truncate(); put.send(c.dump())
        put.close()
    except BaseException:
        traceback.print_exc(); code = 70
    finally:
        try:
            sys.stdout.flush(); sys.stderr.flush()
        finally:
            os._exit(code)


def _current_path(pid):
    return os.path.join(SCRATCH, "tmp", f"current_{pid}")


def _current(pid):
    """What a process of the exploration is working on: (since, case)."""
    try:
        with open(_current_path(pid)) as f:
            t, _, item = f.read().partition(" ")
        return (float(t), item) if t else (None, "nothing")
    except (OSError, ValueError):
        return None, "nothing"


def short(x, n=160):
    s = repr(x)
    return s if len(s) <= n else s[:n] + "..."


def load_known(prop):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        data = json.load(f)
    return [k for k in data.get("known", []) if k.get("property") == prop]


@contextlib.contextmanager
def quiet():
    """Silence what the package prints and the warnings it issues."""
    import warnings
    with warnings.catch_warnings(record=True) as w, contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter("always")
        yield w


def call(f, *a, **k):
    """(outcome, value): ('ok', result) or ('exc', type name). Output and warnings silenced."""
    with quiet():
        try:
            return "ok", f(*a, **k)
        except Exception as e:
            return "exc", e


def script(args, timeout=240):
    """Run a script in an own process group; everything it left running is killed. Returns (stdout, stderr) or None if it did not end in time."""
    import signal
    import subprocess
    import tempfile
    with tempfile.TemporaryFile("w+") as out, tempfile.TemporaryFile("w+") as err:
        p = subprocess.Popen([sys.executable] + list(args), stdin=subprocess.DEVNULL, stdout=out, stderr=err, start_new_session=True)
        try:
            p.wait(timeout); ended = True
        except subprocess.TimeoutExpired:
            ended = False
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.wait(); out.seek(0); err.seek(0)
        return (out.read(), err.read()) if ended else None


def main(prop, body):
    """Run a check body, mapping harness-level errors of importing / using the package to a violation."""
    try:
        body()
    except SystemExit:
        raise
    except BaseException as e:
        tb = traceback.format_exc(); rdir = os.path.join(VERIF, "evidence", "replays"); os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, f"{prop}-error.json")
        with open(path, "w") as f:
            json.dump({"property": prop, "key": "unexpected exception", "what": tb}, f, indent=1)
        print(tb); print(f"unexpected {type(e).__name__} while driving the package")
        if tb.count(SCRATCH + "/src/zernpy") > 0 and not isinstance(e, KeyboardInterrupt):
            print(f"VIOLATION property={prop} replay={path}"); sys.stdout.flush(); os._exit(1)
        sys.stdout.flush(); os._exit(3)
