#!/usr/bin/env python3
"""mkseed.py ID...: write /verif/seeded/ID from tools/seedspec/ID.py and confirm it in scratch copies of /repo.

A spec defines PROPERTY, EDITS = [(file, old, new)], NEEDS, BREAKS, DEMO (a pytest module using `run_cell`).
Confirms: applies to HEAD, demo passes clean and fails patched, the stable tests pass patched (unless --fast)."""
import glob, json, os, shutil, subprocess, sys, tempfile, textwrap
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, "/opt/vp")
from results import junit

HEAD = '''import os, sys
CORE = os.path.join(os.getcwd(), "core")
sys.path.insert(0, CORE)
sys.dont_write_bytecode = True
sys.setrecursionlimit(2000)
if __name__ == "__main__":
    import tempfile
    scratch = tempfile.mkdtemp(prefix="demo_")
    os.environ["IPYTHONDIR"] = os.path.join(scratch, "ipython")
    os.environ.setdefault("MPLBACKEND", "agg")
    from ipyflow.shell import IPyflowInteractiveShell
    import ipyflow
    assert ipyflow.__file__.startswith(CORE), ipyflow.__file__
    IPyflowInteractiveShell.instance()
    import pytest, shutil
    rc = pytest.main(["-q", "-p", "no:cacheprovider", "--no-header", "--tb=short", "-W", "ignore", "--rootdir", scratch, os.path.abspath(__file__)])
    shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(int(rc))

'''
IMPORTS = '''from test.utils import make_flow_fixture
_flow_fixture, run_cell = make_flow_fixture()
from ipyflow import cells, flow, shell
from ipyflow.data_model.cell import Cell


def ns(name):
    return shell().user_ns[name]


def run(content, cell_id, **kw):
    return run_cell(content, cell_id=cell_id, **kw)


'''
SH = '''#!/bin/bash
# run with cwd /repo
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONPATH="$PWD/core"
exec /opt/venv/bin/python "$here/demo.py"
'''


def sh(cmd, cwd, env=None, timeout=900):
    r = subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, timeout=timeout, env=env)
    return r.returncode, (r.stdout + r.stderr)


def one(sid, fast):
    spec = {}
    exec(open(f"/verif/tools/seedspec/{sid}.py").read(), spec)
    out = f"/verif/seeded/{sid}"
    os.makedirs(out, exist_ok=True)
    d = tempfile.mkdtemp(prefix="seed_", dir="/tmp") + "/repo"
    try:
        subprocess.run(["cp", "-a", os.environ.get("VP_SRC", "/repo"), d], check=True)
        sh("git checkout -q -- . ; git clean -fdq", d)
        demo = spec.get("RAW") or HEAD + IMPORTS + textwrap.dedent(spec["DEMO"]).lstrip()
        open(out + "/demo.py", "w").write(demo)
        open(out + "/demo.sh", "w").write(spec.get("SH", SH))
        os.chmod(out + "/demo.sh", 0o755)
        rc0, o0 = sh(f"bash {out}/demo.sh", d, timeout=300)
        for f, old, new in spec["EDITS"]:
            p = f"{d}/{f}"
            s = open(p).read()
            if s.count(old) != 1:
                return sid, f"EDIT matches {s.count(old)} times in {f}"
            open(p, "w").write(s.replace(old, new))
        rc, diff = sh("git diff", d)
        open(out + "/patch.diff", "w").write(diff)
        json.dump({"property": spec["PROPERTY"], "needs": spec["NEEDS"], "what_it_breaks": spec["BREAKS"]}, open(out + "/meta.json", "w"), indent=1)
        notes = []
        base = {f: set(subprocess.run(["git", "show", f"6437578:{f}"], cwd="/repo", capture_output=True, text=True).stdout.splitlines()) for f, *_ in spec["EDITS"]}
        allb = set().union(*base.values())
        if not any(l[1:] in allb and l[1:].strip() for l in diff.splitlines() if l.startswith("-") and not l.startswith("---")):
            notes.append("NOTE: no removed line is an original one")
        rc1, o1 = sh(f"bash {out}/demo.sh", d, timeout=300)
        bad = notes
        if rc0:
            bad.append("demo fails on the clean tree:\n" + o0[-1500:])
        if not rc1:
            bad.append("demo passes with the patch")
        if os.environ.get("SHOW"):
            bad.append("patched output: " + o1[-1200:])
        if not bad and not fast:
            w = tempfile.mkdtemp(prefix="seedw_", dir="/tmp")
            env = {**os.environ, "PYTHONPATH": d + "/core", "PYCCOLO_DEV_MODE": "1", "SHOULD_SKIP_KNOWN_FAILING": "1", "MPLBACKEND": "agg",
                   "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0", "IPYTHONDIR": w + "/ipython", "HYPOTHESIS_STORAGE_DIRECTORY": w + "/hyp",
                   "MYPY_CACHE_DIR": w + "/mypy",
                   "PYTEST_ADDOPTS": "-q -p no:cacheprovider --timeout=120 --hypothesis-profile=ci --hypothesis-seed=0 --continue-on-collection-errors "
                                     f"-o junit_family=xunit2 --junitxml={w}/junit.xml"}
            os.makedirs(w + "/ipython")
            sh("timeout 840 /opt/venv/bin/python ../scripts/test_runner.py", d + "/core", env)
            passed, failed = set(), set()
            try:
                for n, ok in junit(w + "/junit.xml"):
                    (passed if ok else failed).add(n)
            except Exception as e:
                bad.append(f"junit: {e}")
            stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
            miss = sorted(stable - (passed - failed))
            if miss:
                bad.append(f"stable tests failing: {len(miss)} {miss[:5]}")
            shutil.rmtree(w, ignore_errors=True)
        env = {**os.environ, "VP_REPO": d, "VP_NOEV": "1"}
        r = subprocess.run(["/usr/bin/python3", "/verif/run.py", spec["PROPERTY"]], cwd="/verif", capture_output=True, text=True, env=env)
        lines = [x for x in r.stdout.splitlines() if x.startswith("  [")]
        chk = {0: "check MISSES", 1: "check catches"}.get(r.returncode, f"check rc={r.returncode}") + " " + (lines or [""])[0][:160]
        return sid, ("OK " if not bad else "BAD " + "\n".join(bad) + "\n ") + chk
    finally:
        shutil.rmtree(os.path.dirname(d), ignore_errors=True)


fast = "--fast" in sys.argv
ids = [a for a in sys.argv[1:] if not a.startswith("--")]
with ThreadPoolExecutor(4) as ex:
    for sid, msg in ex.map(lambda s: one(s, fast), ids):
        print(sid, msg, flush=True)
