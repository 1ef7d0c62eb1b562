"""Syntactic normal forms, applied to every module before the analysis.

Each rewrite preserves behaviour, so that a loop means the same to the rules however it is spelled:
  while True: if C: break; B          ->  while not C: B
  i = A; while i < B: S; i += 1       ->  for i in range(A, B): S          (also <=, >, >=, !=, steps of -1)
  for i in range(len(X)): v = X[i]; S ->  for v in X: S                    (i otherwise unused)
  it = iter(X); while True: try: v = next(it) except StopIteration: break; S  ->  for v in X: S
  acc = []; for x in X: if C: acc.append(E)   ->  acc = [E for x in X if C]     (also sets and dicts; x not used afterwards)
  if K not in D: D[K] = <new container>       ->  D.setdefault(K, <new container>)
  filter(lambda x: C, X), map(lambda x: E, X), set(E for x in X), list(E for x in X)  ->  comprehensions
"""
import ast


def names(node, ctx=None):
    return {n.id for n in ast.walk(node) if isinstance(n, ast.Name) and (ctx is None or isinstance(n.ctx, ctx))}


def loads(nodes):
    r = []
    for s in nodes:
        r += [n for n in ast.walk(s) if isinstance(n, ast.Name)]
    return r


def own_loop(body, kinds):
    """statements of the given kinds that belong to this loop"""
    out = []
    st = list(body)
    while st:
        s = st.pop()
        if isinstance(s, kinds):
            out.append(s)
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
            continue
        if isinstance(s, (ast.For, ast.While, ast.AsyncFor)):
            st.extend(s.orelse)
            continue
        for c in ast.iter_child_nodes(s):
            if isinstance(c, (ast.stmt, ast.ExceptHandler)) or hasattr(ast, "match_case") and isinstance(c, ast.match_case):
                st.append(c)
    return out


def plus(e, n):
    if isinstance(e, ast.Constant) and isinstance(e.value, int) and not isinstance(e.value, bool):
        return ast.copy_location(ast.Constant(e.value + n), e)
    if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Add, ast.Sub)) and isinstance(e.right, ast.Constant) and isinstance(e.right.value, int):
        k = e.right.value if isinstance(e.op, ast.Add) else -e.right.value
        k += n
        if k == 0:
            return e.left
        return ast.copy_location(ast.BinOp(e.left, ast.Add() if k > 0 else ast.Sub(), ast.copy_location(ast.Constant(abs(k)), e)), e)
    return ast.copy_location(ast.BinOp(e, ast.Add() if n > 0 else ast.Sub(), ast.copy_location(ast.Constant(abs(n)), e)), e)


def step_of(s, var):
    """+1/-1 when s is var += 1 / var -= 1 / var = var + 1"""
    if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and s.target.id == var and isinstance(s.value, ast.Constant) and s.value.value == 1:
        return 1 if isinstance(s.op, ast.Add) else -1 if isinstance(s.op, ast.Sub) else None
    if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and s.targets[0].id == var and isinstance(s.value, ast.BinOp) and isinstance(
            s.value.right, ast.Constant) and s.value.right.value == 1 and isinstance(s.value.left, ast.Name) and s.value.left.id == var:
        return 1 if isinstance(s.value.op, ast.Add) else -1 if isinstance(s.value.op, ast.Sub) else None
    return None


def simple(e):
    while isinstance(e, (ast.Attribute,)):
        e = e.value
    return isinstance(e, ast.Name)


def free_loads(fn):
    """names that fn reads outside every loop or comprehension that binds them"""
    r = set()

    def go(n, bound):
        if isinstance(n, ast.Name):
            if not isinstance(n.ctx, ast.Store) and n.id not in bound:
                r.add(n.id)
            return
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            r.update(n.names)
        b = bound
        if isinstance(n, (ast.For, ast.AsyncFor)):
            b = bound | names(n.target)
        elif isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            b = bound.union(*(names(g.target) for g in n.generators))
        for c in ast.iter_child_nodes(n):
            go(c, bound if isinstance(n, (ast.For, ast.AsyncFor)) and (c is n.iter or c in n.orelse) else b)
    go(fn, frozenset())
    return r


def pure(e):
    return all(isinstance(n, (ast.Name, ast.Attribute, ast.Constant, ast.Subscript, ast.Tuple, ast.expr_context, ast.UnaryOp, ast.unaryop)) for n in ast.walk(e))


def display(e):
    """an expression that only builds a new container"""
    return isinstance(e, (ast.List, ast.Set, ast.Dict, ast.Tuple)) and not any(isinstance(n, (ast.Call, ast.Await, ast.Yield, ast.NamedExpr)) for n in ast.walk(e)) or isinstance(
        e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("set", "list", "dict") and not e.args and not e.keywords


class Normalize(ast.NodeTransformer):
    def __init__(self):
        self.fns = []

    def bound_update(self, node):
        """if A > B: B = A  ->  B = max(B, A)"""
        t = node.test
        if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and not node.orelse and len(node.body) == 1 and isinstance(node.body[0], ast.Assign) and len(node.body[0].targets) == 1):
            return None
        b = node.body[0]
        if not isinstance(b.targets[0], (ast.Name, ast.Attribute)) or not pure(t.left) or not pure(t.comparators[0]):
            return None
        tgt, val = ast.dump(b.targets[0]).replace("Store()", "Load()"), ast.dump(b.value)
        l, r, op = ast.dump(t.left), ast.dump(t.comparators[0]), type(t.ops[0])
        if (l, r) == (tgt, val):
            op = {ast.Lt: ast.Gt, ast.LtE: ast.GtE, ast.Gt: ast.Lt, ast.GtE: ast.LtE}.get(op)
        elif (l, r) != (val, tgt):
            return None
        f = {ast.Gt: "max", ast.GtE: "max", ast.Lt: "min", ast.LtE: "min"}.get(op)
        if f is None:
            return None
        cur = t.left if l == tgt else t.comparators[0]
        b.value = ast.copy_location(ast.Call(ast.copy_location(ast.Name(f, ast.Load()), node), [cur, b.value], []), node)
        return b

    def visit_If(self, node):
        """if K not in D: D[K] = <new container>  ->  D.setdefault(K, <new container>)"""
        m = self.bound_update(node)
        if m is not None:
            return self.generic_visit(m)
        t = node.test
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not) and isinstance(t.operand, ast.Compare) and len(t.operand.ops) == 1 and isinstance(t.operand.ops[0], ast.In):
            t = ast.copy_location(ast.Compare(t.operand.left, [ast.NotIn()], t.operand.comparators), t)
        if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], ast.NotIn) and not node.orelse and len(node.body) == 1):
            return self.generic_visit(node)
        b, k, d = node.body[0], t.left, t.comparators[0]
        if isinstance(d, ast.Call) and isinstance(d.func, ast.Attribute) and d.func.attr == "keys" and not d.args:
            d = d.func.value
        if not (isinstance(b, ast.Assign) and len(b.targets) == 1 and isinstance(b.targets[0], ast.Subscript) and pure(k) and pure(d) and display(b.value) and
                ast.dump(b.targets[0].value) == ast.dump(d) and ast.dump(b.targets[0].slice) == ast.dump(k)):
            return self.generic_visit(node)
        c = ast.copy_location(ast.Call(ast.copy_location(ast.Attribute(d, "setdefault", ast.Load()), node), [k, b.value], []), node)
        return ast.copy_location(ast.Expr(c), node)

    def visit_Call(self, node):
        """filter(lambda x: C, X), map(lambda x: E, X) -> generator; set(<generator>) -> set comprehension"""
        node = self.generic_visit(node)
        f = node.func
        if not isinstance(f, ast.Name) or node.keywords:
            return node
        if f.id in ("filter", "map") and len(node.args) == 2:
            fn, it = node.args
            if f.id == "map" and isinstance(fn, (ast.Name, ast.Attribute)) and simple(fn) and not isinstance(it, ast.Starred):
                v = "_each"
                while v in names(it) | names(fn):
                    v += "_"
                g = ast.comprehension(ast.copy_location(ast.Name(v, ast.Store()), node), it, [], 0)
                return (ast.copy_location(ast.GeneratorExp(ast.copy_location(ast.Call(fn, [ast.copy_location(ast.Name(v, ast.Load()), node)], []), node), [g]), node))
            if isinstance(fn, ast.Lambda) and len(fn.args.args) == 1 and not (fn.args.defaults or fn.args.vararg or fn.args.kwarg or fn.args.kwonlyargs or fn.args.posonlyargs):
                v = fn.args.args[0].arg
                tgt = ast.copy_location(ast.Name(v, ast.Store()), node)
                ld = ast.copy_location(ast.Name(v, ast.Load()), node)
                g = ast.comprehension(tgt, it, [fn.body] if f.id == "filter" else [], 0)
                return ast.copy_location(ast.GeneratorExp(ld if f.id == "filter" else fn.body, [g]), node)
        if f.id in ("set", "list") and len(node.args) == 1 and isinstance(node.args[0], ast.GeneratorExp):
            k = ast.SetComp if f.id == "set" else ast.ListComp
            return ast.copy_location(k(node.args[0].elt, node.args[0].generators), node)
        return node

    def search(self, s):
        """v = next((E for T in X if C), D)  ->  v = D; for T in X: if C: v = E; break      (and the same for return)"""
        v = s.value if isinstance(s, (ast.Assign, ast.AnnAssign, ast.Return)) else None
        if isinstance(s, ast.Assign) and not (len(s.targets) == 1 and isinstance(s.targets[0], ast.Name)) or isinstance(s, ast.AnnAssign) and not isinstance(s.target, ast.Name):
            return [s]
        if not (isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "next" and len(v.args) == 2 and not v.keywords and isinstance(v.args[0], ast.GeneratorExp) and pure(v.args[1])):
            return [s]
        g, d = v.args
        if any(c.is_async for c in g.generators) or len(g.generators) > 1:
            return [s]
        tgt = None if isinstance(s, ast.Return) else (s.targets[0] if isinstance(s, ast.Assign) else s.target)
        bound = names(g.generators[0].target)
        if tgt is not None and tgt.id in names(g) | names(d):
            return [s]
        cp = ast.copy_location
        ren = {b: f"_found_{b}" for b in bound}
        for n in ast.walk(g):
            if isinstance(n, ast.Name) and n.id in ren:
                n.id = ren[n.id]
        if tgt is None:
            inner = [cp(ast.Return(g.elt), s)]
        else:
            inner = [cp(ast.Assign([cp(ast.Name(tgt.id, ast.Store()), s)], g.elt), s), cp(ast.Break(), s)]
            if isinstance(d, ast.Constant) and d.value is None:
                # what was found can be told from what was not
                a = cp(ast.Assert(cp(ast.Compare(cp(ast.Name(tgt.id, ast.Load()), s), [ast.IsNot()], [cp(ast.Constant(None), s)]), s), None), s)
                a.assume = True
                inner.insert(1, a)
        c = g.generators[0]
        for t in reversed(c.ifs):
            inner = [cp(ast.If(t, inner, []), t)]
        loop = cp(ast.For(c.target, c.iter, inner, []), s)
        s.value = d
        return [loop, s] if tgt is None else [s, loop]

    def block(self, body, after_used):
        out = []
        for s in [x for s in body for x in self.search(s)]:
            if isinstance(s, ast.While):
                s = self.while_true(s)
                r = self.counter(out, s) or self.iterator(out, s)
                if r is not None:
                    s = r
            if isinstance(s, ast.For):
                s = self.difference(self.indexed(s))
                s = self.accumulate(out, s) or s
            if self.sort(out, s):
                continue
            out.append(s)
        return out

    def sort(self, out, s):
        """v = list(X); v.sort(A)  ->  v = sorted(X, A)"""
        c = s.value if isinstance(s, ast.Expr) else None
        p = out[-1] if out else None
        if not (isinstance(c, ast.Call) and not c.args and isinstance(c.func, ast.Attribute) and c.func.attr == "sort" and isinstance(c.func.value, ast.Name)):
            return False
        if not (isinstance(p, ast.Assign) and len(p.targets) == 1 and isinstance(p.targets[0], ast.Name) and p.targets[0].id == c.func.value.id):
            return False
        v = p.value
        x = v if isinstance(v, (ast.ListComp, ast.List)) else \
            v.args[0] if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "list" and len(v.args) == 1 and not v.keywords else None
        if x is None or p.targets[0].id in names(ast.Module([ast.Expr(k.value) for k in c.keywords], [])):
            return False
        p.value = ast.copy_location(ast.Call(ast.copy_location(ast.Name("sorted", ast.Load()), s), [x], c.keywords), s)
        return True

    def generic_visit(self, node):
        super().generic_visit(node)
        for f in ("body", "orelse", "finalbody"):
            b = getattr(node, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                setattr(node, f, self.block(b, node))
        return node

    def visit(self, node):
        if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
            self.fns.append(free_loads(node))
            try:
                return self.generic_visit(node)
            finally:
                self.fns.pop()
        m = getattr(self, "visit_" + type(node).__name__, None)
        return m(node) if m is not None else self.generic_visit(node)

    def accumulate(self, out, s):
        """preceding statements `out` end with the initialisation of an empty container that this loop fills"""
        if not self.fns:
            return None
        gens, body = [], [s]
        while True:
            if len(body) > 1 and isinstance(body[0], ast.If) and not body[0].orelse and len(body[0].body) == 1 and isinstance(body[0].body[0], ast.Continue) and gens:
                t = body[0].test
                gens[-1].ifs.append(t.operand if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not) else ast.copy_location(ast.UnaryOp(ast.Not(), t), t))
                body = body[1:]
                continue
            if len(body) != 1:
                return None
            x = body[0]
            if isinstance(x, ast.For) and not x.orelse:
                gens.append(ast.comprehension(x.target, x.iter, [], 0))
                body = x.body
            elif isinstance(x, ast.If) and not x.orelse and gens:
                gens[-1].ifs.append(x.test)
                body = x.body
            else:
                break
        leaf = body[0]
        if isinstance(leaf, ast.Expr) and isinstance(leaf.value, ast.Call) and isinstance(leaf.value.func, ast.Attribute) and isinstance(leaf.value.func.value, ast.Name) and (
                leaf.value.func.attr in ("append", "add") and len(leaf.value.args) == 1 and not leaf.value.keywords and not isinstance(leaf.value.args[0], ast.Starred)):
            acc, kind, parts = leaf.value.func.value.id, {"append": "list", "add": "set"}[leaf.value.func.attr], [leaf.value.args[0]]
        elif isinstance(leaf, ast.Assign) and len(leaf.targets) == 1 and isinstance(leaf.targets[0], ast.Subscript) and isinstance(leaf.targets[0].value, ast.Name):
            acc, kind, parts = leaf.targets[0].value.id, "dict", [leaf.targets[0].slice, leaf.value]
        else:
            return None
        exprs = parts + [g.iter for g in gens] + [c for g in gens for c in g.ifs]
        bound = set().union(*(names(g.target) for g in gens))
        for g in gens:
            if any(not isinstance(n, (ast.Name, ast.Tuple, ast.List, ast.Starred, ast.expr_context)) for n in ast.walk(g.target)):
                return None
        if any(acc in names(e) for e in exprs) or acc in bound or bound & self.fns[-1]:
            return None
        if any(isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await, ast.NamedExpr)) for e in exprs for n in ast.walk(e)):
            return None
        for k in range(len(out) - 1, -1, -1):
            x = out[k]
            tg = x.targets[0] if isinstance(x, ast.Assign) and len(x.targets) == 1 else x.target if isinstance(x, ast.AnnAssign) else None
            if isinstance(tg, ast.Name) and tg.id == acc:
                v = x.value
                empty = isinstance(v, (ast.List, ast.Dict)) and not (v.elts if isinstance(v, ast.List) else v.keys) and type(v).__name__.lower() or (
                    v.func.id if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ("list", "set", "dict") and not v.args and not v.keywords else None)
                if empty != kind:
                    return None
                break
            if acc in names(x):
                return None
        else:
            return None
        comp = {"list": lambda: ast.ListComp(parts[0], gens), "set": lambda: ast.SetComp(parts[0], gens), "dict": lambda: ast.DictComp(parts[0], parts[1], gens)}[kind]()
        del out[k]
        x.value = ast.copy_location(comp, s)
        return ast.copy_location(x, s)

    def difference(self, s):
        """for x in X: if x not in Y: ...  ->  for x in X - Y: ..."""
        if s.orelse or not isinstance(s.target, ast.Name):
            return s
        f = s.body[0]
        if not isinstance(f, ast.If) or f.orelse:
            return s
        skip = len(f.body) == 1 and isinstance(f.body[0], ast.Continue) and len(s.body) > 1
        if not skip and len(s.body) != 1:
            return s
        t, neg = f.test, False
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            t, neg = t.operand, True
        if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.In, ast.NotIn)) and isinstance(t.left, ast.Name) and t.left.id == s.target.id):
            return s
        if (isinstance(t.ops[0], ast.NotIn) != neg) is skip:
            return s
        y, body = t.comparators[0], s.body[1:] if skip else f.body
        x = s.iter
        while isinstance(x, ast.Call) and (isinstance(x.func, ast.Name) and x.func.id in ("list", "tuple", "set", "frozenset") and len(x.args) == 1 or isinstance(x.func, ast.Attribute) and x.func.attr in ("keys", "copy") and not x.args) and not x.keywords:
            x = x.args[0] if x.args else x.func.value
        if not simple(x) or x is s.iter or not simple(y) or names(y) & {n.id for b in body for n in ast.walk(b) if isinstance(n, ast.Name)}:
            return s
        d = ast.copy_location(ast.BinOp(x, ast.Sub(), y), s)
        return ast.copy_location(ast.For(s.target, d, body, []), s)

    def while_true(self, s):
        while isinstance(s.test, ast.Constant) and s.test.value in (True, 1) and not s.orelse and isinstance(s.body[0], ast.If) and len(s.body[0].body) == 1 and isinstance(
                s.body[0].body[0], ast.Break) and len(s.body) + len(s.body[0].orelse) > 1:
            c = s.body[0]
            t = c.test.operand if isinstance(c.test, ast.UnaryOp) and isinstance(c.test.op, ast.Not) else ast.copy_location(ast.UnaryOp(ast.Not(), c.test), c.test)
            s = ast.copy_location(ast.While(t, c.orelse + s.body[1:], []), s)
        return s

    def counter(self, out, s):
        """preceding statements `out` end with the counter's initialisation"""
        t = s.test
        if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and len(s.body) > 1):
            return None
        op, l, r = t.ops[0], t.left, t.comparators[0]
        flip = {ast.Lt: ast.Gt, ast.LtE: ast.GtE, ast.Gt: ast.Lt, ast.GtE: ast.LtE, ast.NotEq: ast.NotEq}
        if type(op) not in flip:
            return None
        for var, bound, o in ((l, r, type(op)), (r, l, flip[type(op)])):
            if not isinstance(var, ast.Name):
                continue
            v = var.id
            st = step_of(s.body[-1], v)
            if st is None or (st > 0) != (o in (ast.Lt, ast.LtE)) and o is not ast.NotEq:
                continue
            body = s.body[:-1]
            if own_loop(body, ast.Continue) or v in {n.id for n in loads(body) if isinstance(n.ctx, ast.Store)} or v in names(bound):
                continue
            if names(bound) & {n.id for n in loads(body) if isinstance(n.ctx, (ast.Store, ast.Del))}:
                continue
            init = None
            for k in range(len(out) - 1, -1, -1):
                x = out[k]
                if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) and x.targets[0].id == v:
                    init = (k, x)
                    break
                if v in names(x) or isinstance(x, (ast.For, ast.While, ast.If, ast.Try, ast.With)):
                    break
            if init is None:
                continue
            k, x = init
            hi = plus(bound, 1) if o is ast.LtE else plus(bound, -1) if o is ast.GtE else bound
            a = x.value
            zero = isinstance(a, ast.Constant) and a.value == 0 and st > 0
            args = [hi] if zero else [a, hi]
            if st < 0:
                args = [a, hi, ast.copy_location(ast.UnaryOp(ast.USub(), ast.copy_location(ast.Constant(1), s)), s)]
            del out[k]
            it = ast.copy_location(ast.Call(ast.copy_location(ast.Name("range", ast.Load()), s), args, []), s)
            return ast.copy_location(ast.For(ast.copy_location(ast.Name(v, ast.Store()), s), it, body, s.orelse), s)
        return None

    def iterator(self, out, s):
        """while True: try: v = next(it) except StopIteration: break"""
        if not (isinstance(s.test, ast.Constant) and s.test.value in (True, 1) and s.body and isinstance(s.body[0], ast.Try) and not s.orelse):
            return None
        tr = s.body[0]
        if tr.finalbody or len(tr.body) != 1 or len(tr.handlers) != 1 or len(tr.handlers[0].body) != 1 or not isinstance(tr.handlers[0].body[0], ast.Break):
            return None
        h, a = tr.handlers[0], tr.body[0]
        if not (isinstance(h.type, ast.Name) and h.type.id == "StopIteration" and isinstance(a, ast.Assign) and len(a.targets) == 1 and isinstance(a.value, ast.Call) and isinstance(
                a.value.func, ast.Name) and a.value.func.id == "next" and len(a.value.args) == 1 and isinstance(a.value.args[0], ast.Name)):
            return None
        v = a.value.args[0].id
        if v in {n.id for n in loads(tr.orelse + s.body[1:])}:
            return None
        for k in range(len(out) - 1, -1, -1):
            x = out[k]
            if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) and x.targets[0].id == v and isinstance(
                    x.value, ast.Call) and isinstance(x.value.func, ast.Name) and x.value.func.id == "iter" and len(x.value.args) == 1:
                del out[k]
                return ast.copy_location(ast.For(a.targets[0], x.value.args[0], tr.orelse + s.body[1:] or [ast.copy_location(ast.Pass(), s)], []), s)
            if v in names(x):
                return None
        return None

    def indexed(self, s):
        """for i in range(len(X)): v = X[i] -> for v in X"""
        c = s.iter
        if not (isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id == "range" and len(c.args) == 1 and isinstance(s.target, ast.Name)):
            return s
        ln = c.args[0]
        if not (isinstance(ln, ast.Call) and isinstance(ln.func, ast.Name) and ln.func.id == "len" and len(ln.args) == 1 and simple(ln.args[0])):
            return s
        X, i = ast.dump(ln.args[0]), s.target.id
        a = s.body[0]
        if not (isinstance(a, ast.Assign) and len(a.targets) == 1 and isinstance(a.value, ast.Subscript) and ast.dump(a.value.value) == X and isinstance(
                a.value.slice, ast.Name) and a.value.slice.id == i and len(s.body) > 1):
            return s
        if i in {n.id for n in loads(s.body[1:] + s.orelse)}:
            return s
        root = ln.args[0]
        while isinstance(root, ast.Attribute):
            root = root.value
        if any(isinstance(n.ctx, (ast.Store, ast.Del)) and n.id == root.id for n in loads(s.body)):
            return s
        return ast.copy_location(ast.For(a.targets[0], ln.args[0], s.body[1:], s.orelse), s)


def normalize(tree):
    # twice: which names escape from a loop is known only once all loops have their normal form
    for _ in range(2):
        tree = Normalize().visit(tree)
        ast.fix_missing_locations(tree)
    return tree
