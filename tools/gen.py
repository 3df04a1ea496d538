#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (a property is claimed if its check exists)."""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ZP = "src/zernpy/zernikepol.py"; PSF = "src/zernpy/zernpsf.py"; RADIAL = "src/zernpy/calculations/calc_zernike_pol.py"
CPSF = "src/zernpy/calculations/calc_psfs.py"; NPSF = "src/zernpy/calculations/calc_psfs_numba.py"
INT = "src/zernpy/utils/intmproc.py"; FIT = "src/zernpy/calculations/fit_zernike_pols.py"; PLOT = "src/zernpy/plotting/plot_zerns.py"; IO = "src/zernpy/props/properties.py"
P = []


def prop(id, title, statement, over, text, why, files, mech, level, technique, note, state=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], **({"state": [dict(name=a, meaning=b, where=c) for a, b, c in state]} if state else {})),
                  _level=level, _technique=technique, _note=note))


exec(open(os.path.join(V, "tools", "props.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
checks = [p for p in P if os.path.exists(os.path.join(V, "checks", p["id"].lower() + ".py"))]
man = {"version": 1, "setup_cmd": "bin/setup",
       "checks": [{"property": p["id"], "quick_cmd": f"bin/check {p['id']} quick", "thorough_cmd": f"bin/check {p['id']} thorough",
                   "technique": p["_technique"], "level": p["_level"], "level_note": p["_note"]} for p in checks],
       "not_applicable": [{"property": p["id"], "reason": "planned, the check is not built yet"} for p in P if p not in checks],
       "notes": "Every check copies /repo/src/zernpy to a scratch folder and runs against that copy; no hooks in /repo are needed."}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1); f.write("\n")
print(len(P), "properties,", len(checks), "claimed")
