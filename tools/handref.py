#!/usr/bin/env python3
"""handref.py [names...]: run checks on scratch copies with the hand-written behaviour-preserving edits of tools/handref/*.py; all must be silent.

Each module has REFS = [(name, file under core/ipyflow, [(old, new[, occurrence])...])].  --checks C01,C02 restricts the checks."""
import glob, importlib.util, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
SRC = os.environ.get("VP_SRC", "/repo")
here = os.path.dirname(os.path.abspath(__file__))
args = sys.argv[1:]
only = None
if args[:1] == ["--checks"]:
    only, args = args[1].split(","), args[2:]
refs = {}
for f in sorted(glob.glob(here + "/handref/*.py")):
    spec = importlib.util.spec_from_file_location("m", f)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    for n, file, eds in m.REFS:
        refs[os.path.basename(f)[:-3] + "/" + n] = (file, eds)
names = [n for n in refs if not args or any(n.startswith(a) for a in args)]
checks = only or sorted(os.path.basename(f)[:-3].upper() for f in glob.glob(here + "/../checks/c[0-9]*.py"))
dirs = {}
for n in names:
    file, eds = refs[n]
    d = tempfile.mkdtemp(prefix="vph_", dir="/tmp")
    shutil.copytree(SRC + "/core/ipyflow", d + "/core/ipyflow", ignore=shutil.ignore_patterns("__pycache__", "resources"))
    shutil.copytree(SRC + "/frontend/labextension/src", d + "/frontend/labextension/src")
    for e in ("core/setup.py",):
        if os.path.exists(f"{SRC}/{e}"):
            shutil.copy(f"{SRC}/{e}", f"{d}/{e}")
    p = f"{d}/core/ipyflow/{file}"
    s = open(p).read()
    bad = False
    for old, new, *occ in eds:
        parts = s.split(old)
        k = occ[0] if occ else 0
        if len(parts) != 2 and not occ:
            print(n, f"EDIT MATCHES {len(parts) - 1}x:", old[:60])
            bad = True
            break
        s = old.join(parts[:k + 1]) + new + old.join(parts[k + 1:])
    try:
        compile(s, p, "exec")
    except SyntaxError as e:
        print(n, "SYNTAX", e)
        bad = True
    if bad:
        shutil.rmtree(d)
        continue
    open(p, "w").write(s)
    dirs[n] = d


def one(job):
    n, c = job
    r = subprocess.run(["/usr/bin/python3", here + "/../run.py", c], cwd=here + "/..", capture_output=True, text=True, env={**os.environ, "VP_REPO": dirs[n], "VP_NOEV": "1"})
    return n, c, r.returncode, [x for x in r.stdout.splitlines() if x.startswith("  [")] + r.stderr.splitlines()[-2:]


try:
    slow = ["C24", "C09", "C22"]
    jobs = sorted(((n, c) for n in dirs for c in checks), key=lambda j: slow.index(j[1]) if j[1] in slow else 9)
    k = 0
    with ThreadPoolExecutor(int(os.environ.get("J", "8"))) as ex:
        for n, c, rc, lines in ex.map(one, jobs):
            if rc:
                k += 1
                print(f"### {n} {c} rc={rc}\n   " + "\n   ".join(x[:330] for x in lines[:4]), flush=True)
    print(f"{len(dirs)} edits x {len(checks)} checks: {k} alarms")
finally:
    for d in dirs.values():
        shutil.rmtree(d, ignore_errors=True)
