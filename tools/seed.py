#!/opt/venv/bin/python
"""Build /verif/seeded/<id>/ from a specification and confirm it in a scratch copy of /repo.

usage: seed.py SPEC.py [...]   (each specification defines ID, PROPERTY, NEEDS, BREAKS, EDITS, DEMO)
EDITS is a list of (file, old text, new text); old text occurs exactly once in the file.
Confirmed in the copy: changed lines belong to the original repository, the stable tests pass, the
demonstration exits 0 without and non-zero with the change. No check reads /verif/seeded.
"""
import json, os, runpy, shutil, subprocess, sys, tempfile

BASE = "06142d0"
REPO = "/repo"
PY = "/opt/venv/bin/python"
DEMO_SH = """#!/bin/bash
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONPATH="$PWD/src" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
export NPY_DISABLE_CPU_FEATURES="X86_V4 AVX512_ICL AVX512_SPR"
out="$(mktemp)"
setsid timeout -k 5 %d /opt/venv/bin/python -W ignore "$here/demo.py" >"$out" 2>&1 &
pid=$!; wait $pid; rc=$?
kill -KILL -- -$pid 2>/dev/null  # workers left
cat "$out"; rm -f "$out"
exit $rc
"""


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def tests(copy):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg",
               NPY_DISABLE_CPU_FEATURES="X86_V4 AVX512_ICL AVX512_SPR", PYTHONPATH=copy + "/src")
    r = run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--randomly-seed=1",
             "--randomly-dont-reorganize", "--timeout=180", "--continue-on-collection-errors"], cwd=copy, env=env)
    return r.returncode, r.stdout[-1500:]


def main(spec):
    s = runpy.run_path(spec)
    ident = s["ID"]
    tmp = tempfile.mkdtemp(prefix="seed.", dir="/tmp")
    copy = tmp + "/repo"
    try:
        subprocess.run(["cp", "-a", REPO, copy], check=True)
        run(["git", "checkout", "-q", "--", "."], cwd=copy)
        for f, old, new in s["EDITS"]:
            p = os.path.join(copy, f)
            t = open(p, newline="").read()
            if t.count(old) != 1:
                return f"{ident}: {t.count(old)} occurrences in {f} of {old!r}"
            open(p, "w", newline="").write(t.replace(old, new))
        diff = run(["git", "diff"], cwd=copy).stdout
        # changed lines are original ones
        orig = added = 0
        for f in sorted({e[0] for e in s["EDITS"]}):
            bl = run(["git", "blame", "-s", "--abbrev=7", "HEAD", "--", f], cwd=copy).stdout.splitlines()
            d = run(["git", "diff", "-U0", "--", f], cwd=copy).stdout.splitlines()
            n = 0
            for l in d:
                if l.startswith("@@"):
                    n = int(l.split()[1].lstrip("-").split(",")[0])
                elif l.startswith("-") and not l.startswith("---"):
                    h = bl[n - 1].lstrip("^")[:7]
                    if h == BASE:
                        orig += 1
                    else:
                        added += 1
                    n += 1
        if not orig or added:
            return f"{ident}: {orig} original lines and {added} lines of own commits changed"
        dd = tmp + "/demo"
        os.mkdir(dd)
        open(dd + "/demo.py", "w").write(s["DEMO"].lstrip())
        open(dd + "/demo.sh", "w").write(DEMO_SH % s.get("TIMEOUT", 120))
        os.chmod(dd + "/demo.sh", 0o755)
        a = run(["bash", dd + "/demo.sh"], cwd=REPO)
        b = run(["bash", dd + "/demo.sh"], cwd=copy)
        if a.returncode != 0:
            return f"{ident}: demo fails on the unchanged tree\n{a.stdout[-1500:]}"
        if b.returncode == 0:
            return f"{ident}: demo passes with the change\n{b.stdout[-1500:]}"
        rc, out = tests(copy)
        if rc:
            return f"{ident}: tests fail\n{out}"
        dst = f"{os.environ.get("SEED_OUT", "/verif/seeded")}/{ident}"
        shutil.rmtree(dst, ignore_errors=True)
        os.makedirs(dst)
        open(dst + "/patch.diff", "w", newline="").write(diff)
        shutil.copy(dd + "/demo.py", dst)
        shutil.copy(dd + "/demo.sh", dst)
        json.dump({"property": s["PROPERTY"], "needs": s["NEEDS"], "what_it_breaks": s["BREAKS"]},
                  open(dst + "/meta.json", "w"), indent=1)
        return f"{ident}: kept ({b.stdout.strip().splitlines()[-1][:150] if b.stdout.strip() else b.returncode})"
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(4) as ex:
        for r in ex.map(main, sys.argv[1:]):
            print(r, flush=True)
