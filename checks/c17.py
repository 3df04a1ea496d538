"""C17: every file operation of a save as a crash point, as a fault point and (for writes) with torn-write patterns; pairs of faults; asynchronous exceptions
at every executed line; data that cannot be serialized. File operations are intercepted below Python (LD_PRELOAD), so any way of writing the file is covered."""
import ctypes
import errno
import itertools
import json
import os
import pickle
import shutil
import signal
import subprocess
import sys
import numpy as np
import vlib
from vlib import call, quiet

SO = os.path.join(vlib.SCRATCH, "faultfs.so")
if os.environ.get("LD_PRELOAD", "") != SO:  # compile the injector and restart with it
    subprocess.run(["gcc", "-shared", "-fPIC", "-O1", "-o", SO, os.path.join(vlib.VERIF, "lib", "faultfs.c"), "-ldl"], check=True)
    os.execve(sys.executable, [sys.executable] + sys.argv, {**os.environ, "LD_PRELOAD": SO})
LIB = ctypes.CDLL(SO); LIB.zv_name.restype = ctypes.c_char_p; LIB.zv_size.restype = ctypes.c_long
from zernpy import ZernPol, ZernPSF  # noqa: E402
import zernpy  # noqa: E402

chk = vlib.Check("C17", "fault_enumeration")
KILL_BEFORE, KILL_AFTER, TORN, FAIL, SHORT = 1, 2, 3, 4, 5
MODES = {1: "stopped before", 2: "stopped after", 3: "stopped after the first bytes of", 4: "error of", 5: "short write of"}
PKG = os.path.dirname(zernpy.__file__)


def psf(kind, variant):
    """The same PSF file name for both variants, but different content."""
    z = lambda m, n: ZernPol(m=m, n=n)
    with quiet():
        p = ZernPSF([z(1, 3), z(0, 2)] if kind == "several" else z(1, 3)); co = [0.1, -0.2] if kind == "several" else 0.1
        if variant == "new":
            p.set_physical_props(0.95, 0.55, co, 0.14); p.set_calculation_props(31 if kind == "large" else 3, 20, 36)
        else:
            p.set_physical_props(0.6, 0.5, co, 0.17); p.set_calculation_props(5, 21, 38)
        if kind == "large":
            p.kernel = np.arange(1, p.kernel_size**2 + 1).reshape(p.kernel_size, p.kernel_size)/977.0
        else:
            p.calculate_psf_kernel(True, accelerated=False)
    return p


def public(p):
    return (p.NA, p.wavelength, p.pixel_size, p.expansion_coeff if p.zernpol is not None else list(p.coefficients), p.kernel_size, p.n_int_r_points, p.n_int_phi_points, p.kernel.tolist())


class Scenario:
    """A save in a folder with given previous content; `attempt` runs it in a forked process with faults."""

    def __init__(self, kind, existing, overwrite, where):
        self.kind, self.existing, self.overwrite, self.where = kind, existing, overwrite, where; self.root = os.path.join(vlib.SCRATCH, "tmp", f"s{os.getpid()}")
        self.obj = psf(kind, "new"); self.oldobj = psf(kind, "old"); self.name = f"{kind}, existing={existing}, overwrite={overwrite}, {where}"
        self.old = None; self.reset(); self.folder = os.path.join(self.root, "d") if where == "folder" else os.path.join(self.root, "saved_psfs"); self.arg = self.folder if where == "folder" else os.path.join(self.root, "missing")
        with quiet():
            q = psf(kind, "new"); q.save_json(self.arg, True); self.path = q.json_file_path
        self.new = self.read()
        if existing == "old":
            with quiet():
                self.oldobj.save_json(self.arg, True)
            assert self.oldobj.json_file_path == self.path, "the old and the new PSF have different file names"
            self.old = self.read()
        elif existing == "garbage":
            self.old = b"not a json"
        self.want = self.new if overwrite or self.old is None else self.old; self.before = public(self.obj)

    def read(self):
        if not os.path.exists(self.path):
            return None
        with open(self.path, "rb") as f:
            return f.read()

    def reset(self):
        os.chdir(os.path.join(vlib.SCRATCH, "cwd")); shutil.rmtree(self.root, ignore_errors=True); os.makedirs(self.root); os.chdir(self.root)
        if self.where == "folder":
            os.mkdir("d")
        if self.old is not None:
            os.makedirs(os.path.dirname(self.path), exist_ok=True)
            with open(self.path, "wb") as f:
                f.write(self.old)

    def attempt(self, f1=(-1, 0, 0), f2=(-1, 0, 0), line=None, exc=None, spoil=None):
        """Outcome of one save in a forked process: ('killed',) or (outcome, error, operations, lines, object unchanged, second save...)."""
        self.reset(); rfd, wfd = os.pipe(); pid = os.fork()
        if pid == 0:
            try:
                out = self._child(f1, f2, line, exc, spoil)
            except BaseException as e:
                out = ("harness error", repr(e))
            LIB.zv_disarm()
            with os.fdopen(wfd, "wb") as w:
                w.write(pickle.dumps(out))
            os._exit(0)
        os.close(wfd)
        with os.fdopen(rfd, "rb") as r:
            data = r.read()
        _, st = os.waitpid(pid, 0)
        return pickle.loads(data) if data else ("killed", os.WIFSIGNALED(st) and os.WTERMSIG(st))

    def _child(self, f1, f2, line, exc, spoil):
        p = self.obj; err = None; n_lines = 0
        if spoil:
            setattr(p, *spoil)
        before = public(p)

        def tracer(frame, event, arg):
            nonlocal n_lines
            if not frame.f_code.co_filename.startswith(PKG):
                return None
            if event == "line":
                n_lines += 1
                if line is not None and n_lines == line + 1:
                    raise exc
            return tracer
        with quiet():
            LIB.zv_arm(self.root.encode(), *f1, *f2)
            try:
                if line is not None or f1[0] == -2:
                    sys.settrace(tracer)
                p.save_json(self.arg, self.overwrite)
            except BaseException as e:
                err = repr(e)
            finally:
                sys.settrace(None)
        LIB.zv_disarm(); n = LIB.zv_count(); ops = [(LIB.zv_name(i).decode(), LIB.zv_size(i)) for i in range(n)]; unchanged = public(p) == before
        first = self.read(); second = None
        if err is not None and not spoil:  # repeating of the failed save
            try:
                with quiet():
                    p.save_json(self.arg, self.overwrite)
                second = ("ok", self.read())
            except BaseException as e:
                second = ("exc", repr(e))
        return ("done", err, ops, n_lines, unchanged, first, second)

    def loads(self, content):
        """Reading of the file into a new object gives exactly what has been saved."""
        with open(self.path + ".check", "wb") as f:
            f.write(content)
        q = ZernPSF(ZernPol(m=2, n=2)); res = call(q.read_json, self.path)
        os.unlink(self.path + ".check")
        return res[0] == "ok" and public(q) == public(self.obj if content == self.new else self.oldobj)

    def judge(self, c, what, out, fault):
        """Conditions on the file after an interrupted or failed save."""
        key = f"{self.name}: {what}"; c.case(); c.nontriv(hash(key)); rep = {"scenario": self.name, "fault": fault}
        if out[0] == "harness error":
            raise RuntimeError(out[1])
        if out[0] == "killed":
            now = self.read()
            if now not in (self.old, self.new):
                c.violation(key, f"the file contains {vlib.short(now, 80)} ({len(now) if now is not None else 'no file'} bytes), neither the previous nor the complete new content", rep); return
            if now is not None and now != b"not a json" and not self.loads(now):
                c.violation(key, "the file cannot be read back exactly", rep); return
            st, v = call(psf_again, self)  # a new process repeats the save
            if st != "ok" or self.read() != self.want:
                c.violation(key, f"the save cannot be repeated: {v!r}", rep)
            return
        _, err, ops, n_lines, unchanged, first, second = out
        if first not in (self.old, self.new):
            c.violation(key, f"the file contains {vlib.short(first, 80)} ({len(first) if first is not None else 'no file'} bytes), neither the previous nor the complete new content; error {err}", rep)
        elif err is None and first != self.want:
            c.violation(key, "the save returned without an error, but the file isn't saved", rep)
        elif second is not None and (second[0] != "ok" or second[1] != self.want):
            c.violation(key, f"the save cannot be repeated successfully: {vlib.short(second, 100)}", rep)
        elif not unchanged:
            c.violation(key, "a failed save changed properties of the object", rep)


def psf_again(s):
    q = psf_cached(s); q.save_json(s.arg, s.overwrite)


def psf_cached(s):
    return s.obj


def faults_of(ops, kind):
    """All single faults of a history of operations."""
    out = []
    for k, (nm, size) in enumerate(ops):
        out += [(k, KILL_BEFORE, 0), (k, KILL_AFTER, 0)]
        out += [(k, FAIL, e) for e in ((errno.ENOSPC, errno.EIO, errno.EACCES) if not vlib.QUICK or nm != "write" else (errno.ENOSPC, errno.EIO))]
        if nm == "write":
            cuts = range(size + 1) if size < 1500 or not vlib.QUICK else sorted(set(range(0, size + 1, 61)) | {1, 2, size - 2, size - 1, size, 4096, 8191, 8192} & set(range(size + 1)))
            out += [(k, TORN, b) for b in cuts]; out += [(k, SHORT, b) for b in sorted({1, 2, size//2, size - 1} - {0})]
    return out


def text(f, ops):
    nm = ops[f[0]][0] if f[0] < len(ops) else "next operation"
    return f"{MODES[f[1]]} operation {f[0]} ({nm})" + (f", {f[2]} bytes" if f[1] in (TORN, SHORT) else f", {errno.errorcode.get(f[2], '')}" if f[1] == FAIL else "")


def single(c, item):
    sc, part, parts = item; s = Scenario(*sc); out = s.attempt()
    if out[0] != "done" or out[1] is not None or out[5] != s.want:
        c.violation(f"{s.name}: no faults", f"save failed: {vlib.short(out, 300)}", {"scenario": s.name}); return
    ops = out[2]; c.extra["max_operations of one save"] = max(c.extra.get("max_operations of one save", 0), len(ops))
    if s.want == s.new and part == 0:
        s.reset(); call(psf_again, s)
        if not s.loads(s.new):
            c.violation(f"{s.name}: no faults", "reading after the save doesn't give the saved properties", {"scenario": s.name})
    for f in faults_of(ops, s.kind)[part::parts]:
        o = s.attempt(f); s.judge(c, text(f, ops), o, f); c.extra["fault points"] = c.extra.get("fault points", 0) + 1
        if len(c.violations) > 20:
            return


def pairs(c, item):
    """A fault, followed by a second fault in the operations after it (also in the clean-up after the first one)."""
    sc, k1, parts = item; s = Scenario(*sc); ops = s.attempt()[2]; firsts = [f for f in faults_of(ops, s.kind) if f[1] == FAIL or (f[1] == SHORT and f[2] != 2)]
    for f1 in firsts[k1::parts]:
        o1 = s.attempt(f1); ops1 = o1[2]
        for k in range(f1[0] + 1, len(ops1)):
            for m, arg in ((KILL_BEFORE, 0), (KILL_AFTER, 0), (FAIL, errno.EIO), (FAIL, errno.ENOSPC)) + (((TORN, 1), (TORN, max(1, ops1[k][1] - 1))) if ops1[k][0] == "write" else ()):
                f2 = (k, m, arg); o = s.attempt(f1, f2); s.judge(c, text(f1, ops) + " and " + text(f2, ops1), o, [f1, f2]); c.extra["pairs of faults"] = c.extra.get("pairs of faults", 0) + 1


def lines(c, item):
    """Asynchronous exceptions (interruption by the user, lack of memory) at every executed line of the package."""
    sc, exc, part, parts = item; s = Scenario(*sc); n = s.attempt((-2, 0, 0))[3]; c.extra["max_lines of one save"] = max(c.extra.get("max_lines of one save", 0), n)
    for i in range(part, n, parts):
        o = s.attempt(line=i, exc={"KeyboardInterrupt": KeyboardInterrupt(), "MemoryError": MemoryError()}[exc]); s.judge(c, f"{exc} at the executed line {i}", o, [exc, i]); c.extra["interrupted lines"] = c.extra.get("interrupted lines", 0) + 1


def start(s, obj, pause):
    """A process that saves the object and stops before a file operation (if reached); returns it with the pipe of its outcome, and whether it is stopped."""
    rfd, wfd = os.pipe(); pid = os.fork()
    if pid == 0:
        err = None
        try:
            with quiet():
                LIB.zv_arm(s.root.encode(), *pause, -1, 0, 0)
                try:
                    obj.save_json(s.arg, s.overwrite)
                except BaseException as e:
                    err = repr(e)
        finally:
            LIB.zv_disarm(); os.write(wfd, pickle.dumps((err, LIB.zv_count()))); os._exit(0)
    os.close(wfd); _, st = os.waitpid(pid, os.WUNTRACED)
    return pid, rfd, os.WIFSTOPPED(st)


def finish(p):
    pid, rfd, stopped = p
    if stopped:
        os.kill(pid, signal.SIGCONT); os.waitpid(pid, 0)
    with os.fdopen(rfd, "rb") as r:
        return pickle.loads(r.read())


def simultaneous(c, item):
    """Two processes save to the same file: all interleavings of their file operations with up to 2 preemptions."""
    sc, part, parts = item; s = Scenario(*sc); n1 = len(s.attempt()[2]); s.reset(); n2 = finish(start(s, s.oldobj, (-1, 0, 0)))[1]; valid = {s.new, s.old}
    with quiet():
        s.reset(); s.oldobj.save_json(s.arg, True); valid.add(s.read())
    for k, l in list(itertools.product(range(n1), range(n2 + 1)))[part::parts]:  # l = n2: the second one isn't interrupted
        s.reset(); a = start(s, s.obj, (k, 6, 0)); b = start(s, s.oldobj, (l, 6, 0)); outs = [finish(a), finish(b)]; now = s.read(); c.case(); c.transitions += n1 + n2; c.extra["interleavings of two saves"] = c.extra.get("interleavings of two saves", 0) + 1
        key = f"{s.name}: two processes, preempted at the operations {k} and {l}"; c.nontriv(hash(key))
        if outs[0][0] or outs[1][0]:
            c.violation(key, f"one of the simultaneous saves failed: {outs}", {"scenario": s.name, "preempted at": [k, l]})
        elif now not in valid or now is None:
            c.violation(key, f"the file contains {vlib.short(now, 80)} ({len(now) if now is not None else 'no file'} bytes), not the complete content of one of the saves", {"scenario": s.name, "preempted at": [k, l]})


def unserializable(c, item):
    sc, spoil = item; s = Scenario(*sc); o = s.attempt(spoil=spoil); c.case(); key = f"{s.name}: {spoil[0]} = {spoil[1]!r}"; c.nontriv(hash(key))
    if o[0] != "done":
        c.violation(key, f"{o}"); return
    if o[1] is not None and o[5] != s.old:
        c.violation(key, f"the failed save ({o[1]}) left {vlib.short(o[5], 80)} instead of the previous content", {"scenario": s.name})
    elif o[1] is None and o[5] is not None and o[5] != s.old:
        try:
            json.loads(o[5])
        except ValueError:
            c.violation(key, f"an invalid file is left: {vlib.short(o[5], 80)}", {"scenario": s.name})


def main():
    chk.rule = "one evaluation = one save with the enumerated fault(s); afterwards the content of the file, reading it and repeating the save are checked"
    scs = [(k, e, o, w) for k in ("single", "several", "large") for e in ("none", "old", "garbage") for o in (True, False) for w in ("folder", "missing folder") if not (e == "garbage" and (k != "single")) and not (k == "large" and (w != "folder" or not o))]
    chk.run(single, [(s, i, 4) for s in scs for i in range(4)], chunk=1)
    two = [s for s in scs if s[2] and (s[0] == "single" or not vlib.QUICK)]; chk.run(pairs, [(s, i, 4) for s in two for i in range(4)], chunk=1)
    chk.run(lines, [(s, e, i, 3) for s in scs if s[0] != "large" and s[1] != "garbage" for e in (("KeyboardInterrupt",) if vlib.QUICK else ("KeyboardInterrupt", "MemoryError")) for i in range(3)], chunk=1)
    chk.run(simultaneous, [(s, i, 2) for s in scs if s[1] != "garbage" and s[0] != "large" for i in range(2)], chunk=1)
    spoils = [("NA", object()), ("NA", {1, 2}), ("kernel_size", 3j), ("n_int_r_points", b"20"), ("wavelength", np.float32(0.5)), ("kernel_size", np.int64(3)), ("n_int_phi_points", np.arange(3)), ("pixel_size", ZernPol), ("kernel", np.array([[object(), 1.0]]))]
    chk.run(unserializable, [((k, e, True, "folder"), sp) for k in ("single", "several") for e in ("none", "old") for sp in spoils], chunk=2)
    chk.sample({"fault": "stopped after the first 17 bytes of operation 1 (write)", "previous content": "another complete PSF"})
    chk.assumptions = ["a rename of a file is atomic; data handed to the operating system survives the end of the process (no power loss)"]
    chk.finish()


if __name__ == "__main__":
    vlib.main("C17", main)
