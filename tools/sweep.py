#!/usr/bin/env python3
"""sweep.py [--only Cxx,..] [--file SUBSTR] OUT: generic mutants of every function the checks analyse; prints those no check notices.

Mutants: drop a statement, negate a condition, and<->or, drop an operand, change a comparison, drop not, swap True/False, drop a keyword."""
import ast
import copy
import glob
import json
import os
import shutil
import subprocess
import sys
import tempfile
import threading
from concurrent.futures import ThreadPoolExecutor

args = sys.argv[1:]
only = filt = fnf = None
while args and args[0].startswith("--"):
    if args[0] == "--only":
        only = set(args[1].split(","))
    elif args[0] == "--file":
        filt = args[1]
    elif args[0] == "--fn":
        fnf = args[1]
    args = args[2:]
out = args[0]
SRC = os.environ.get("SWEEP_SRC", "/repo")
by = {}
for f in sorted(glob.glob("/verif/evidence/C*.json")):
    c = os.path.basename(f)[:-5]
    for fn in json.load(open(f))["coverage"]["functions_analysed"]:
        by.setdefault(fn, []).append(c)
FLIP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.In: ast.NotIn, ast.NotIn: ast.In,
        ast.Is: ast.IsNot, ast.IsNot: ast.Is}


def own(fn):
    st = [fn]
    while st:
        n = st.pop()
        yield n
        for c in ast.iter_child_nodes(n):
            if isinstance(c, ast.arguments) or n is fn and c in getattr(fn, "decorator_list", []) or c is getattr(fn, "returns", None):
                continue
            st.append(c)


def mutants(fn):
    """(description, apply(node tree copy path))"""
    for n in own(fn):
        for f in ("body", "orelse", "finalbody"):
            b = getattr(n, f, None)
            if isinstance(b, list):
                for i, s in enumerate(b):
                    if isinstance(s, (ast.Expr, ast.Assign, ast.AugAssign, ast.Continue, ast.Break, ast.Return, ast.Raise, ast.Delete, ast.Assert)) and not (
                            isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)) and "logger" not in ast.unparse(s)[:12]:
                        yield s, f"drop `{ast.unparse(s)[:70]}`", ("drop", n, f, i)
        if isinstance(n, (ast.If, ast.While, ast.IfExp)) and not isinstance(n.test, ast.UnaryOp):
            yield n.test, f"negate `{ast.unparse(n.test)[:70]}`", ("neg", n, "test", None)
        if isinstance(n, ast.comprehension):
            for i, c in enumerate(n.ifs):
                yield c, f"drop filter `{ast.unparse(c)[:70]}`", ("pop", n, "ifs", i)
        if isinstance(n, ast.BoolOp):
            yield n, f"swap and/or in `{ast.unparse(n)[:70]}`", ("bool", n, None, None)
            for i, c in enumerate(n.values):
                yield c, f"drop operand `{ast.unparse(c)[:50]}` of `{ast.unparse(n)[:50]}`", ("operand", n, "values", i)
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            yield n, f"flip `{ast.unparse(n)[:70]}`", ("cmp", n, None, None)
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            yield n, f"drop not `{ast.unparse(n)[:70]}`", ("not", n, None, None)
        if isinstance(n, ast.Constant) and isinstance(n.value, bool):
            yield n, f"flip {n.value} at col {n.col_offset}", ("const", n, None, None)
        if isinstance(n, ast.Constant) and type(n.value) is int:
            yield n, f"{n.value} + 1 at col {n.col_offset}", ("int", n, None, None)
        if isinstance(n, ast.Call):
            for i, k in enumerate(n.keywords):
                yield k, f"drop keyword `{ast.unparse(k)[:50]}` of `{ast.unparse(n.func)[:40]}`", ("pop", n, "keywords", i)


def apply(op):
    k, n, f, i = op
    if k == "drop":
        b = getattr(n, f)
        b[i] = ast.copy_location(ast.Pass(), b[i])
    elif k == "neg":
        n.test = ast.copy_location(ast.UnaryOp(ast.Not(), n.test), n.test)
    elif k == "pop":
        getattr(n, f).pop(i)
    elif k == "bool":
        n.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
    elif k == "operand":
        n.values.pop(i)
        if len(n.values) == 1:
            n.op = ast.And()
            n.values.append(copy.deepcopy(n.values[0]))
    elif k == "cmp":
        n.ops = [FLIP[type(n.ops[0])]()]
    elif k == "not":
        n.op = ast.Not()
        n.operand = ast.copy_location(ast.UnaryOp(ast.Not(), n.operand), n)
    elif k == "const":
        n.value = not n.value
    elif k == "int":
        n.value = n.value + 1


jobs = []
for p in sorted(glob.glob(SRC + "/core/ipyflow/**/*.py", recursive=True)):
    rel = os.path.relpath(p, SRC + "/core")
    mod = rel[:-3].replace("/", ".").replace(".__init__", "")
    if filt and filt not in rel:
        continue
    src = open(p).read()
    tree = ast.parse(src)

    def visit(node, prefix):
        for c in ast.iter_child_nodes(node):
            if isinstance(c, ast.ClassDef):
                visit(c, prefix + c.name + ".")
            elif isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef)):
                q = f"{mod}:{prefix}{c.name}"
                cs = [x for x in by.get(q, []) if not only or x in only]
                if cs and (not fnf or fnf in q):
                    for at, desc, op in mutants(c):
                        jobs.append((p, q, cs, at.lineno if hasattr(at, "lineno") else 0, desc, op))
            elif isinstance(c, (ast.If, ast.Try, ast.With)):
                visit(c, prefix)
    visit(tree, "")
    for j in [x for x in jobs if x[0] == p and len(x) == 6]:
        k = jobs.index(j)
        jobs[k] = j + (tree, src)

print(len(jobs), "mutants", flush=True)
lock = threading.Lock()
texts = []
for j in jobs:
    p, q, cs, ln, desc, op, tree, src = j
    # mutate, unparse, parse back again
    memo = {}
    t2 = copy.deepcopy(tree, memo)
    n2 = memo[id(op[1])]
    apply((op[0], n2, op[2], op[3]))
    try:
        texts.append(ast.unparse(ast.fix_missing_locations(t2)))
    except Exception as e:
        texts.append(None)
local = threading.local()
res = [None] * len(jobs)


def run(i):
    p, q, cs, ln, desc, *_ = jobs[i]
    if texts[i] is None:
        return
    d = tempfile.mkdtemp(prefix="vpm_", dir="/tmp")
    try:
        shutil.copytree(SRC + "/core/ipyflow", d + "/core/ipyflow", ignore=shutil.ignore_patterns("__pycache__", "resources"))
        shutil.copytree(SRC + "/frontend/labextension/src", d + "/frontend/labextension/src")
        dst = d + p[len(SRC):]
        open(dst, "w").write(texts[i])
        for c in cs:
            r = subprocess.run(["/usr/bin/python3", "/verif/run.py", c], cwd="/verif", capture_output=True, text=True, timeout=900,
                               env={**os.environ, "VP_REPO": d, "VP_NOEV": "1"})
            if r.returncode == 1:
                res[i] = c
                return
            if r.returncode != 0:
                with lock, open(out, "a") as f:
                    f.write(f"CRASH rc={r.returncode} {c} {q}:{ln} {desc} {r.stderr[-150:]!r}\n")
        with lock, open(out, "a") as f:
            f.write(f"{','.join(cs)} {q.split('ipyflow.')[-1]}:{ln} {desc}\n")
    except subprocess.TimeoutExpired:
        with lock, open(out, "a") as f:
            f.write(f"TIMEOUT {cs} {q}:{ln} {desc}\n")
    finally:
        shutil.rmtree(d, ignore_errors=True)


open(out, "w").close()
with ThreadPoolExecutor(int(os.environ.get("J", "8"))) as ex:
    list(ex.map(run, range(len(jobs))))
print("done", sum(r is not None for r in res), "/", len(jobs), "noticed")
