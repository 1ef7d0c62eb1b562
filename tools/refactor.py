#!/usr/bin/env python3
"""Behaviour-preserving rewrites of core/ipyflow, used to confirm that the checks stay quiet.

usage: refactor.py TRANSFORM DEST [seed]   -- copies /repo's sources to DEST with the transform applied everywhere
"""
import ast
import builtins
import copy
import os
import random
import shutil
import sys

SRC = os.environ.get("VP_SRC", "/repo")


def funcs(tree):
    return [n for n in ast.walk(tree) if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef))]


def own(node):
    st = list(ast.iter_child_nodes(node))
    while st:
        n = st.pop()
        yield n
        if not isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            st.extend(ast.iter_child_nodes(n))


def bodies(tree):
    for n in ast.walk(tree):
        for f in ("body", "orelse", "finalbody"):
            b = getattr(n, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                yield n, f, b


def infunc_bodies(tree):
    for fn in funcs(tree):
        for n in [fn] + list(own(fn)):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)) and n is not fn:
                continue
            for f in ("body", "orelse", "finalbody"):
                b = getattr(n, f, None)
                if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                    yield fn, n, f, b


def local_names(fn):
    glob = set()
    for n in ast.walk(fn):
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            glob.update(n.names)
    names = set()
    for n in own(fn):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            names.add(n.id)
    params = {a.arg for a in fn.args.args + fn.args.kwonlyargs + fn.args.posonlyargs}
    if fn.args.vararg:
        params.add(fn.args.vararg.arg)
    if fn.args.kwarg:
        params.add(fn.args.kwarg.arg)
    # leave names used by nested scopes/except handlers/comprehension alone
    for n in own(fn):
        if isinstance(n, ast.ExceptHandler) and n.name:
            names.discard(n.name)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                names.discard(a.asname or a.name.split(".")[0])
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            names.discard(n.name)
    return (names - glob) - params


def t_rename(tree, rng):
    for fn in funcs(tree):
        names = local_names(fn)
        # nested functions that rebind the name: skip
        for n in ast.walk(fn):
            if n is not fn and isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
                for a in ast.walk(n.args):
                    if isinstance(a, ast.arg):
                        names.discard(a.arg)
                if not isinstance(n, ast.Lambda):
                    names -= local_names(n)
        if any(isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("locals", "eval", "exec") for n in ast.walk(fn)):
            continue
        for n in ast.walk(fn):
            if isinstance(n, ast.Name) and n.id in names:
                n.id = n.id.rstrip("_") + "_zz"
            elif isinstance(n, ast.Nonlocal):
                pass


def neg(e):
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        return e.operand
    if isinstance(e, ast.Compare) and len(e.ops) == 1:
        m = {ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq}
        for k, v in m.items():
            if isinstance(e.ops[0], k):
                return ast.Compare(e.left, [v()], e.comparators)
    return ast.UnaryOp(ast.Not(), e)


def t_invert(tree, rng):
    """if c: A else: B -> if not c: B else: A"""
    for n in ast.walk(tree):
        if isinstance(n, ast.If) and n.orelse and not (len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If)):
            n.test = neg(n.test)
            n.body, n.orelse = n.orelse, n.body
        elif isinstance(n, ast.IfExp):
            n.test = neg(n.test)
            n.body, n.orelse = n.orelse, n.body


def t_guard(tree, rng):
    """loop body 'if c: continue; rest' -> 'if not c: rest' ; function tail 'if c: return; rest' likewise"""
    for fn, n, f, b in list(infunc_bodies(tree)):
        if isinstance(n, (ast.For, ast.While)) and f == "body":
            for i, s in enumerate(b):
                if isinstance(s, ast.If) and not s.orelse and len(s.body) == 1 and isinstance(s.body[0], ast.Continue) and b[i + 1:]:
                    rest = b[i + 1:]
                    del b[i + 1:]
                    s.test = neg(s.test)
                    s.body = rest
                    break
        elif n is fn and f == "body":
            for i, s in enumerate(b):
                if isinstance(s, ast.If) and not s.orelse and len(s.body) == 1 and isinstance(s.body[0], ast.Return) and s.body[0].value is None and b[i + 1:]:
                    rest = b[i + 1:]
                    if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for y in rest for x in ast.walk(y)):
                        pass
                    del b[i + 1:]
                    s.test = neg(s.test)
                    s.body = rest
                    break


def t_unguard(tree, rng):
    """loop body ending with 'if c: rest' -> 'if not c: continue; rest'"""
    for fn, n, f, b in list(infunc_bodies(tree)):
        if isinstance(n, (ast.For, ast.While)) and f == "body" and isinstance(b[-1], ast.If) and not b[-1].orelse:
            s = b[-1]
            rest = s.body
            s.test = neg(s.test)
            s.body = [ast.Continue()]
            b.extend(rest)


def t_elsereturn(tree, rng):
    """if c: return X; rest -> if c: return X else: rest"""
    for fn, n, f, b in list(infunc_bodies(tree)):
        for i, s in enumerate(b):
            if isinstance(s, ast.If) and not s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise, ast.Continue)) and b[i + 1:]:
                s.orelse = b[i + 1:]
                del b[i + 1:]
                break


def t_tempret(tree, rng):
    k = 0
    for fn, n, f, b in list(infunc_bodies(tree)):
        i = 0
        while i < len(b):
            s = b[i]
            if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, (ast.Name, ast.Constant)):
                k += 1
                nm = f"result_{k}"
                b.insert(i, ast.Assign([ast.Name(nm, ast.Store())], s.value))
                s.value = ast.Name(nm, ast.Load())
                i += 1
            i += 1


def t_tempcond(tree, rng):
    """if <cond>: -> cond_k = <cond>; if cond_k:   (not for elif chains)"""
    k = 0
    for fn, n, f, b in list(infunc_bodies(tree)):
        if isinstance(n, ast.If) and f == "orelse" and len(b) == 1 and isinstance(b[0], ast.If):
            continue
        i = 0
        while i < len(b):
            s = b[i]
            if isinstance(s, ast.If) and not isinstance(s.test, (ast.Name, ast.Constant)) and not any(isinstance(x, ast.NamedExpr) for x in ast.walk(s.test)):
                k += 1
                nm = f"cond_{k}"
                b.insert(i, ast.Assign([ast.Name(nm, ast.Store())], s.test))
                s.test = ast.Name(nm, ast.Load())
                i += 1
            i += 1


def t_temparg(tree, rng):
    """expr-statement calls: hoist first argument / receiver chain to a temp"""
    k = 0
    for fn, n, f, b in list(infunc_bodies(tree)):
        i = 0
        while i < len(b):
            s = b[i]
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call):
                c = s.value
                if isinstance(c.func, ast.Attribute) and isinstance(c.func.value, (ast.Attribute, ast.Subscript, ast.Call)) and not (
                        isinstance(c.func.value, ast.Call) and isinstance(c.func.value.func, ast.Name) and c.func.value.func.id == "super"):
                    k += 1
                    nm = f"recv_{k}"
                    b.insert(i, ast.Assign([ast.Name(nm, ast.Store())], c.func.value))
                    c.func.value = ast.Name(nm, ast.Load())
                    i += 1
            i += 1


def t_splitand(tree, rng):
    for n in ast.walk(tree):
        if isinstance(n, ast.If) and not n.orelse and isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.And):
            first, rest = n.test.values[0], n.test.values[1:]
            inner = ast.If(rest[0] if len(rest) == 1 else ast.BoolOp(ast.And(), rest), n.body, [])
            n.test = first
            n.body = [inner]


def t_demorgan(tree, rng):
    class V(ast.NodeTransformer):
        def visit_BoolOp(self, n):
            self.generic_visit(n)
            if rng.random() < 2 and all(isinstance(v, (ast.Compare, ast.Call, ast.UnaryOp)) for v in n.values) and self.test:
                o = ast.Or() if isinstance(n.op, ast.And) else ast.And()
                return ast.UnaryOp(ast.Not(), ast.BoolOp(o, [neg(v) for v in n.values]))
            return n
        test = False

        def visit_If(self, n):
            self.test = True
            n.test = self.visit(n.test)
            self.test = False
            n.body = [self.visit(x) for x in n.body]
            n.orelse = [self.visit(x) for x in n.orelse]
            return n
    V().visit(tree)


def t_noop(tree, rng):
    for fn in funcs(tree):
        i = 1 if (isinstance(fn.body[0], ast.Expr) and isinstance(fn.body[0].value, ast.Constant) and isinstance(fn.body[0].value.value, str)) else 0
        fn.body.insert(i, ast.parse("_unused_marker = None").body[0])


def t_noop2(tree, rng):
    for fn, n, f, b in list(infunc_bodies(tree)):
        if n is not fn:
            b.insert(0, ast.Pass())


def t_comp2loop(tree, rng):
    """x = {..comp..} / return {..comp..} -> explicit loop"""
    k = 0
    for fn, n, f, b in list(infunc_bodies(tree)):
        i = 0
        while i < len(b):
            s = b[i]
            v = s.value if isinstance(s, (ast.Assign, ast.Return)) else None
            if isinstance(v, (ast.ListComp, ast.SetComp, ast.DictComp)) and not any(g.is_async for g in v.generators) and not (
                    isinstance(s, ast.Assign) and len(s.targets) != 1):
                k += 1
                nm = f"acc_{k}"
                if isinstance(v, ast.ListComp):
                    init = ast.List([], ast.Load())
                    add = ast.parse(f"{nm}.append(X)").body[0]
                    add.value.args = [v.elt]
                elif isinstance(v, ast.SetComp):
                    init = ast.parse("set()").body[0].value
                    add = ast.parse(f"{nm}.add(X)").body[0]
                    add.value.args = [v.elt]
                else:
                    init = ast.Dict([], [])
                    add = ast.Assign([ast.Subscript(ast.Name(nm, ast.Load()), v.key, ast.Store())], v.value)
                body = [add]
                # loop variables renamed to avoid leaking over locals
                ren = {}
                for g in v.generators:
                    for x in ast.walk(g.target):
                        if isinstance(x, ast.Name):
                            ren[x.id] = x.id + f"_l{k}"
                for g in reversed(v.generators):
                    for c in reversed(g.ifs):
                        body = [ast.If(c, body, [])]
                    body = [ast.For(g.target, g.iter, body, [], None)]
                first_iter = v.generators[0].iter
                hold = body[0].iter
                body[0].iter = ast.Constant(None)
                for x in ast.walk(body[0]):
                    if isinstance(x, ast.Name) and x.id in ren:
                        x.id = ren[x.id]
                body[0].iter = hold
                s.value = ast.Name(nm, ast.Load())
                b[i:i] = [ast.Assign([ast.Name(nm, ast.Store())], init), body[0]]
                i += 2
            i += 1


def t_aug(tree, rng):
    """s |= t -> s.update(t) for sets only known by literal context is unsafe; x += 1 -> x = x + 1 for constants"""
    class V(ast.NodeTransformer):
        def visit_AugAssign(self, n):
            if isinstance(n.value, ast.Constant) and isinstance(n.target, (ast.Name, ast.Attribute)):
                load = copy.deepcopy(n.target)
                load.ctx = ast.Load()
                return ast.Assign([n.target], ast.BinOp(load, n.op, n.value))
            return n
    V().visit(tree)


def t_anyloop(tree, rng):
    """if any(gen): body -> found=False; for..: if ..: found=True; break"""
    k = 0
    for fn, n, f, b in list(infunc_bodies(tree)):
        if isinstance(n, ast.If) and f == "orelse" and len(b) == 1:
            continue
        i = 0
        while i < len(b):
            s = b[i]
            t = None
            if isinstance(s, ast.If):
                t = s.test
                negd = False
                if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
                    t = t.operand
                    negd = True
            if isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and t.func.id == "any" and isinstance(t.args[0], ast.GeneratorExp) and len(t.args[0].generators) == 1:
                g = t.args[0].generators[0]
                k += 1
                nm = f"found_{k}"
                body = [ast.If(t.args[0].elt, [ast.parse(f"{nm} = True").body[0], ast.Break()], [])]
                for c in reversed(g.ifs):
                    body = [ast.If(c, body, [])]
                loop = ast.For(g.target, g.iter, body, [], None)
                s.test = ast.UnaryOp(ast.Not(), ast.Name(nm, ast.Load())) if negd else ast.Name(nm, ast.Load())
                b[i:i] = [ast.parse(f"{nm} = False").body[0], loop]
                i += 2
            i += 1


def names_in(nodes, ctx):
    out = []
    for s in nodes:
        for x in ast.walk(s):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ctx) and x.id not in out:
                out.append(x.id)
    return out


def t_extract(tree, rng, pick=None):
    """extract bodies of loops / ifs into helper methods (or module functions)"""
    k = 0
    parents = {}
    for n in ast.walk(tree):
        for c in ast.iter_child_nodes(n):
            parents[c] = n
    mod_helpers = []
    for fn in funcs(tree):
        par = parents.get(fn)
        if not isinstance(par, (ast.ClassDef, ast.Module)):
            continue
        if any(isinstance(x, (ast.Yield, ast.YieldFrom, ast.Nonlocal, ast.Global)) for x in ast.walk(fn)):
            continue
        if any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("super", "locals", "eval", "exec") for x in ast.walk(fn)):
            continue
        if isinstance(fn, ast.AsyncFunctionDef):
            continue
        decs = {ast.unparse(d) for d in fn.decorator_list}
        if decs - {"property", "classmethod", "staticmethod"}:
            continue
        params = [a.arg for a in fn.args.posonlyargs + fn.args.args + fn.args.kwonlyargs]
        if fn.args.vararg: params.append(fn.args.vararg.arg)
        if fn.args.kwarg: params.append(fn.args.kwarg.arg)
        locs = set(params) | {x.id for x in ast.walk(fn) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        cands = []
        for n in own(fn):
            for f in ("body", "orelse"):
                b = getattr(n, f, None)
                if isinstance(n, (ast.For, ast.If, ast.With)) and isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                    if f == "orelse" and len(b) == 1 and isinstance(b[0], ast.If):
                        continue
                    bad = False
                    for s in b:
                        for x in ast.walk(s):
                            if isinstance(x, (ast.Return, ast.Break, ast.Continue, ast.Raise, ast.FunctionDef, ast.Lambda, ast.Delete, ast.Await, ast.NamedExpr, ast.Import, ast.ImportFrom, ast.Try)):
                                bad = True
                    if bad or len(b) == 1 and isinstance(b[0], (ast.Pass, ast.Expr)) and rng.random() < 0.5:
                        continue
                    if any(isinstance(x, ast.Assert) for s in b for x in ast.walk(s)):
                        continue
                    stored = [x for x in names_in(b, ast.Store)]
                    # stored names must be either unconditionally assigned at top-level of block or only used inside
                    used_outside = set()
                    inside = {id(x) for s in b for x in ast.walk(s)}
                    for x in ast.walk(fn):
                        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and id(x) not in inside and x.id in stored:
                            used_outside.add(x.id)
                    loopcarried = set()
                    top = set()
                    for s in b:
                        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                            top.add(s.targets[0].id)
                    outs = sorted(used_outside)
                    if any(o not in top for o in outs):
                        continue
                    comp = {x.id for s in b for c in ast.walk(s) if isinstance(c, ast.comprehension) for x in ast.walk(c.target) if isinstance(x, ast.Name)}
                    loads = [x for x in names_in(b, ast.Load) if x in locs]
                    # names assigned inside and read inside before assignment (loop-carried): pass as param
                    ins = []
                    assigned_first = set()
                    for s in b:
                        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                            for x in ast.walk(s.value):
                                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id in locs and x.id not in assigned_first and x.id not in ins:
                                    ins.append(x.id)
                            assigned_first.add(s.targets[0].id)
                        else:
                            own_targets = {x.id for t in ast.walk(s) if isinstance(t, (ast.For, ast.comprehension)) for x in ast.walk(t.target) if isinstance(x, ast.Name)}
                            for x in ast.walk(s):
                                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id in locs and x.id not in assigned_first and x.id not in ins and x.id not in own_targets:
                                    ins.append(x.id)
                            # names stored in nested ifs and read there: if only nested stored, may be undefined -> skip
                    nested_store = [x for x in stored if x not in top and x not in comp]
                    aug = {s.target.id for st in b for s in ast.walk(st) if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name)}
                    if aug:
                        continue
                    loop_targets = {x.id for s in b for t in ast.walk(s) if isinstance(t, ast.For) for x in ast.walk(t.target) if isinstance(x, ast.Name)}
                    if [x for x in nested_store if x in ins and x not in loop_targets and x not in params]:
                        continue
                    cands.append((n, f, b, ins, outs))
        if not cands:
            continue
        n, f, b, ins, outs = cands[rng.randrange(len(cands))] if pick is None else cands[min(pick, len(cands) - 1)]
        k += 1
        hname = f"_step_{fn.name.strip('_')}_{k}"
        selfname = params[0] if isinstance(par, ast.ClassDef) and "staticmethod" not in decs and params else None
        is_m = selfname in ("self", "cls")
        hp = ([selfname] if is_m else []) + [x for x in ins if not (is_m and x == selfname)]
        body = list(b)
        if outs:
            body.append(ast.Return(ast.Tuple([ast.Name(o, ast.Load()) for o in outs], ast.Load()) if len(outs) > 1 else ast.Name(outs[0], ast.Load())))
        h = ast.FunctionDef(hname, ast.arguments([], [ast.arg(x) for x in hp], None, [], [], None, []), body,
                            [ast.Name("classmethod", ast.Load())] if is_m and selfname == "cls" and "classmethod" in decs else [], None, None, [])
        call_f = ast.Attribute(ast.Name(selfname, ast.Load()), hname, ast.Load()) if is_m else ast.Name(hname, ast.Load())
        call = ast.Call(call_f, [ast.Name(x, ast.Load()) for x in (hp[1:] if is_m else hp)], [])
        if not outs:
            new = ast.Expr(call)
        else:
            new = ast.Assign([ast.Tuple([ast.Name(o, ast.Store()) for o in outs], ast.Store()) if len(outs) > 1 else ast.Name(outs[0], ast.Store())], call)
        setattr(n, f, [new])
        if is_m and isinstance(par, ast.ClassDef):
            par.body.insert(par.body.index(fn), h)
        else:
            mod_helpers.append(h)
    i = 0
    for j, s in enumerate(tree.body):
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            i = j
            break
    if mod_helpers:
        # after imports, before first def; helper may refer to later globals: fine at run time
        tree.body[i:i] = mod_helpers


def t_swap(tree, rng):
    """swap adjacent independent simple assignments of locals with side-effect-free right sides"""
    def pure(e):
        return not any(isinstance(x, (ast.Call, ast.Await, ast.Yield, ast.NamedExpr, ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)) for x in ast.walk(e))
    for fn, n, f, b in list(infunc_bodies(tree)):
        i = 0
        while i + 1 < len(b):
            x, y = b[i], b[i + 1]
            if all(isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and pure(s.value) for s in (x, y)):
                tx, ty = x.targets[0].id, y.targets[0].id
                if tx != ty and tx not in names_in([y], ast.Load) and ty not in names_in([x], ast.Load):
                    b[i], b[i + 1] = y, x
                    i += 1
            i += 1


def t_listiter(tree, rng):
    """for x in E: -> items_k = E; for x in items_k:"""
    k = 0
    for fn, n, f, b in list(infunc_bodies(tree)):
        i = 0
        while i < len(b):
            s = b[i]
            if isinstance(s, ast.For) and not isinstance(s.iter, ast.Name):
                k += 1
                nm = f"items_{k}"
                b.insert(i, ast.Assign([ast.Name(nm, ast.Store())], s.iter))
                s.iter = ast.Name(nm, ast.Load())
                i += 1
            i += 1


def t_inmatch(tree, rng):
    """x in (A, B) -> x == A or x == B  for attribute constants;  x not in (A,B) -> not (...)"""
    class V(ast.NodeTransformer):
        def visit_Compare(self, n):
            self.generic_visit(n)
            if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)) and isinstance(n.comparators[0], ast.Tuple) and isinstance(
                    n.left, (ast.Name, ast.Attribute)) and n.comparators[0].elts and all(isinstance(e, ast.Attribute) for e in n.comparators[0].elts):
                r = ast.BoolOp(ast.Or(), [ast.Compare(copy.deepcopy(n.left), [ast.Eq()], [e]) for e in n.comparators[0].elts])
                if len(r.values) == 1:
                    r = r.values[0]
                return ast.UnaryOp(ast.Not(), r) if isinstance(n.ops[0], ast.NotIn) else r
            return n
    V().visit(tree)


def t_cmpflip(tree, rng):
    """a < b -> b > a (names/attributes/constants only)"""
    m = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}
    for n in ast.walk(tree):
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in m and not any(isinstance(x, ast.Call) for x in ast.walk(n) if isinstance(n.ops[0], (ast.Eq, ast.NotEq))):
            n.left, n.comparators = n.comparators[0], [n.left]
            n.ops = [m[type(n.ops[0])]()]


def t_while(tree, rng):
    """for i in range(A, B[, -1]) -> counter loop (no continue)"""
    for fn, n, f, b in list(infunc_bodies(tree)):
        for k in range(len(b) - 1, -1, -1):
            s = b[k]
            if not (isinstance(s, ast.For) and isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Name) and s.iter.func.id == "range" and isinstance(s.target, ast.Name)):
                continue
            if any(isinstance(x, (ast.Continue,)) for x in ast.walk(s)) or s.target.id == "_":
                continue
            a = s.iter.args
            lo, hi = (ast.Constant(0), a[0]) if len(a) == 1 else a[:2]
            op, st = (ast.Gt(), ast.Sub()) if len(a) == 3 else (ast.Lt(), ast.Add())
            v = s.target.id
            w = ast.While(ast.Compare(ast.Name(v, ast.Load()), [op], [hi]), s.body + [ast.AugAssign(ast.Name(v, ast.Store()), st, ast.Constant(1))], s.orelse)
            b[k:k + 1] = [ast.Assign([ast.Name(v, ast.Store())], lo), w]


def t_idxloop(tree, rng):
    """for v in X -> vs = list(X); for i in range(len(vs)): v = vs[i]"""
    c = 0
    for fn, n, f, b in list(infunc_bodies(tree)):
        for k in range(len(b) - 1, -1, -1):
            s = b[k]
            if isinstance(s, ast.For) and isinstance(s.target, ast.Name) and isinstance(s.iter, (ast.Name, ast.Attribute)) and not any(isinstance(x, (ast.Yield,)) for x in ast.walk(fn)):
                c += 1
                t, i = f"items_{c}", f"i_{c}"
                s.body.insert(0, ast.Assign([s.target], ast.Subscript(ast.Name(t, ast.Load()), ast.Name(i, ast.Load()), ast.Load())))
                b.insert(k, ast.Assign([ast.Name(t, ast.Store())], ast.Call(ast.Name("list", ast.Load()), [s.iter], [])))
                s.target = ast.Name(i, ast.Store())
                s.iter = ast.Call(ast.Name("range", ast.Load()), [ast.Call(ast.Name("len", ast.Load()), [ast.Name(t, ast.Load())], [])], [])


def t_iterloop(tree, rng):
    """for v in X -> it = iter(X); while True: try next"""
    c = 0
    for fn, n, f, b in list(infunc_bodies(tree)):
        for k in range(len(b) - 1, -1, -1):
            s = b[k]
            if isinstance(s, ast.For) and not s.orelse:
                c += 1
                t = f"it_{c}"
                b[k:k + 1] = [ast.Assign([ast.Name(t, ast.Store())], ast.Call(ast.Name("iter", ast.Load()), [s.iter], [])),
                              ast.While(ast.Constant(True), [ast.Try([ast.Assign([s.target], ast.Call(ast.Name("next", ast.Load()), [ast.Name(t, ast.Load())], []))],
                                        [ast.ExceptHandler(ast.Name("StopIteration", ast.Load()), None, [ast.Break()])], [], [])] + s.body, [])]


def t_whiletrue(tree, rng):
    for n in ast.walk(tree):
        if isinstance(n, ast.While) and not n.orelse and not isinstance(n.test, ast.Constant):
            n.body.insert(0, ast.If(neg(n.test), [ast.Break()], []))
            n.test = ast.Constant(True)


def t_ifexp2if(tree, rng):
    """x = a if c else b / return a if c else b -> if c: ... else: ..."""
    for fn, n, f, b in list(infunc_bodies(tree)):
        for k in range(len(b) - 1, -1, -1):
            s = b[k]
            if isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, ast.IfExp):
                e = s.value
                x, y = copy.deepcopy(s), copy.deepcopy(s)
                x.value, y.value = e.body, e.orelse
                b[k] = ast.If(e.test, [x], [y])


def t_if2ifexp(tree, rng):
    """if c: x = a else: x = b -> x = a if c else b"""
    for fn, n, f, b in list(infunc_bodies(tree)):
        for k in range(len(b) - 1, -1, -1):
            s = b[k]
            if isinstance(s, ast.If) and len(s.body) == 1 and len(s.orelse) == 1:
                x, y = s.body[0], s.orelse[0]
                if isinstance(x, ast.Assign) and isinstance(y, ast.Assign) and len(x.targets) == len(y.targets) == 1 and ast.dump(x.targets[0]) == ast.dump(y.targets[0]):
                    b[k] = ast.Assign(x.targets, ast.IfExp(s.test, x.value, y.value))
                elif isinstance(x, ast.Return) and isinstance(y, ast.Return) and x.value is not None and y.value is not None:
                    b[k] = ast.Return(ast.IfExp(s.test, x.value, y.value))


def t_mergeif(tree, rng):
    for n in list(ast.walk(tree)):
        if isinstance(n, ast.If) and not n.orelse:
            while len(n.body) == 1 and isinstance(n.body[0], ast.If) and not n.body[0].orelse:
                i = n.body[0]
                n.test = ast.BoolOp(ast.And(), [n.test, i.test])
                n.body = i.body


def t_inline1(tree, rng):
    """t = E; S(t used once, first evaluated) -> S(E), for locals used exactly once in the next statement"""
    for fn in funcs(tree):
        loc = local_names(fn)
        cnt = {}
        for x in ast.walk(fn):
            if isinstance(x, ast.Name):
                cnt.setdefault(x.id, []).append(x)
        for n in [fn] + list(own(fn)):
            for f in ("body", "orelse", "finalbody"):
                b = getattr(n, f, None)
                if not (isinstance(b, list) and b and isinstance(b[0], ast.stmt)):
                    continue
                k = 0
                while k + 1 < len(b):
                    s, t = b[k], b[k + 1]
                    k += 1
                    if not (isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and s.targets[0].id in loc and len(cnt[s.targets[0].id]) == 2):
                        continue
                    if any(isinstance(x, (ast.Yield, ast.Await, ast.YieldFrom)) for x in ast.walk(s)):
                        continue
                    v = s.targets[0].id
                    hd = t.test if isinstance(t, ast.If) else t.iter if isinstance(t, ast.For) else t if isinstance(t, (ast.Return, ast.Expr, ast.Assign)) else None
                    if hd is None or sum(isinstance(x, ast.Name) and x.id == v for x in ast.walk(hd)) != 1 or any(isinstance(x, (ast.Lambda, ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp, ast.BoolOp, ast.IfExp)) for x in ast.walk(hd)):
                        continue

                    class V(ast.NodeTransformer):
                        def visit_Name(self, x):
                            return s.value if x.id == v else x
                    V().visit(t)
                    del b[k - 1]


def t_walrus(tree, rng):
    """x = E; if x ...: -> if (x := E) ...:"""
    for fn, n, f, b in list(infunc_bodies(tree)):
        if isinstance(n, ast.ClassDef):
            continue
        for k in range(len(b) - 2, -1, -1):
            s, t = b[k], b[k + 1]
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(t, ast.If):
                tgt = t.test
                v = s.targets[0].id
                if isinstance(tgt, ast.Name) and tgt.id == v:
                    t.test = ast.NamedExpr(ast.Name(v, ast.Store()), s.value)
                elif isinstance(tgt, ast.Compare) and isinstance(tgt.left, ast.Name) and tgt.left.id == v:
                    tgt.left = ast.NamedExpr(ast.Name(v, ast.Store()), s.value)
                else:
                    continue
                del b[k]


TRANSFORMS = {k[2:]: v for k, v in list(globals().items()) if k.startswith("t_")}


def main():
    name, dest = sys.argv[1:3]
    seed = int(sys.argv[3]) if len(sys.argv) > 3 else 0
    only = sys.argv[4:] or None
    rng = random.Random(seed)
    if os.path.exists(dest):
        shutil.rmtree(dest)
    shutil.copytree(SRC, dest, symlinks=True, ignore=shutil.ignore_patterns(".git", "node_modules"))
    for dp, dn, fns in os.walk(os.path.join(dest, "core/ipyflow")):
        for f in fns:
            if not f.endswith(".py") or f in ("_version.py",) or "resources" in dp:
                continue
            p = os.path.join(dp, f)
            if only and not any(p.endswith(o) for o in only):
                continue
            src = open(p).read()
            tree = ast.parse(src)
            for nm in name.split("+"):
                TRANSFORMS[nm](tree, rng)
            ast.fix_missing_locations(tree)
            out = ast.unparse(tree)
            ast.parse(out)
            open(p, "w").write(out + "\n")


if __name__ == "__main__":
    main()
