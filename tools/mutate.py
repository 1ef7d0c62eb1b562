#!/usr/bin/env python3
"""mutate.py Cxx [n...]: run check Cxx on copies of /repo with the hand-written faults of tools/mutants/cxx.py.

Each entry is (file under core/ipyflow or frontend/, old text, new text[, occurrence]).  Prints the faults the check misses."""
import importlib.util
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

SRC = os.environ.get("MUT_SRC", "/repo")
here = os.path.dirname(os.path.abspath(__file__))
prop = sys.argv[1]
sel = [int(x) for x in sys.argv[2:]]
spec = importlib.util.spec_from_file_location("m", os.path.join(here, "mutants", prop.lower() + ".py"))
mod = importlib.util.module_from_spec(spec)
spec.loader.exec_module(mod)


def one(i):
    f, old, new, *occ = mod.MUTANTS[i]
    d = tempfile.mkdtemp(prefix="vpm_", dir="/tmp")
    try:
        shutil.copytree(SRC + "/core/ipyflow", d + "/core/ipyflow", ignore=shutil.ignore_patterns("__pycache__", "resources"))
        shutil.copytree(SRC + "/frontend/labextension/src", d + "/frontend/labextension/src")
        for extra in getattr(mod, "EXTRA", []):
            os.makedirs(os.path.dirname(f"{d}/{extra}"), exist_ok=True)
            shutil.copy(f"{SRC}/{extra}", f"{d}/{extra}")
        p = f"{d}/{f}" if f.startswith("frontend/") or f.startswith("core/") else f"{d}/core/ipyflow/{f}"
        s = open(p).read()
        parts = s.split(old)
        k = occ[0] if occ else 0
        if len(parts) < 2 + k:
            return i, "NO-MATCH", ""
        s = old.join(parts[:k + 1]) + new + old.join(parts[k + 1:])
        open(p, "w").write(s)
        if p.endswith(".py"):
            compile(s, p, "exec")
        r = subprocess.run(["/usr/bin/python3", "/verif/run.py", prop], cwd="/verif", capture_output=True, text=True, timeout=600,
                           env={**os.environ, "VP_REPO": d, "VP_NOEV": "1"})
        lines = [x for x in r.stdout.splitlines() if x.startswith("  [") or "BROKEN" in x]
        return i, {0: "MISSED", 1: "caught"}.get(r.returncode, f"rc={r.returncode}"), (lines or [r.stderr[-200:]])[0]
    except SyntaxError as e:
        return i, "SYNTAX", str(e)
    finally:
        shutil.rmtree(d, ignore_errors=True)


with ThreadPoolExecutor(8) as ex:
    res = list(ex.map(one, sel or range(len(mod.MUTANTS))))
n = 0
for i, v, l in res:
    n += v == "caught"
    if v != "caught" or sel or os.environ.get("ALL"):
        print(i, v, mod.MUTANTS[i][0], repr(mod.MUTANTS[i][2])[:70], l[:170])
print(f"{prop}: {n}/{len(res)} caught")
