#!/opt/venv/bin/python
"""Run the property's check (quick tier) on copies of /repo with each planted bug; prints the matrix.

usage: detect.py [-j N] [ID ...]      (all of /verif/seeded when no ID is given)
"""
import json, os, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(ident, checks=None):
    d = f"{HERE}/seeded/{ident}"
    prop = json.load(open(d + "/meta.json"))["property"]
    tmp = tempfile.mkdtemp(prefix="detect.", dir="/tmp")
    try:
        copy = tmp + "/repo"
        subprocess.run(["cp", "-a", "/repo", copy], check=True)
        subprocess.run(["git", "checkout", "-q", "--", "."], cwd=copy, check=True)
        subprocess.run(["git", "apply", d + "/patch.diff"], cwd=copy, check=True)
        res = []
        for c in checks or [prop]:
            t = time.time()
            env = dict(os.environ, VERIF_REPO=copy, VERIF_TIER="quick", VERIF_SEED=os.environ.get("VERIF_SEED", "1"),
                       VERIF_EVIDENCE=tmp + "/evidence")
            os.makedirs(tmp + "/evidence", exist_ok=True)
            r = subprocess.run(["timeout", "900", HERE + "/bin/check", c], env=env, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True)
            v = [l for l in r.stdout.splitlines() if l.startswith(f"VIOLATION property={c} ")]
            res.append((c, r.returncode, len(v), time.time() - t, r.stdout[-300:] if r.returncode not in (0, 1) else ""))
        return ident, res
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    a = sys.argv[1:]
    j = 1
    if a[:1] == ["-j"]:
        j = int(a[1])
        a = a[2:]
    with ThreadPoolExecutor(j) as ex:
        for ident, res in ex.map(one, a or sorted(os.listdir(HERE + "/seeded"))):
            for c, rc, n, t, o in res:
                print(f"{'caught' if rc == 1 and n else 'MISSED'} {ident} {c} rc={rc} violations={n} {t:.0f}s {o}", flush=True)
