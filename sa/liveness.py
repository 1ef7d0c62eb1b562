"""Structured backward liveness over a function body: which local names may still be read after a statement."""
import ast


def _uses(n):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and not isinstance(x.ctx, ast.Store)}


def _defs(n):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}


class Liveness:
    def __init__(self, fn):
        self.after = {}
        self.head = {}
        self.locals = set()
        always = set()
        args = fn.args
        params = {a.arg for a in args.posonlyargs + args.args + args.kwonlyargs}
        for a in (args.vararg, args.kwarg):
            if a is not None:
                params.add(a.arg)
        nested = []
        for n in ast.walk(fn):
            if n is not fn and isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
                nested.append(n)
            if isinstance(n, (ast.Global, ast.Nonlocal)):
                always.update(n.names)
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                self.locals.add(n.id)
        for n in nested:
            always |= {x.id for x in ast.walk(n) if isinstance(x, ast.Name)}
        self.locals -= params
        self.locals -= always
        self.extra = frozenset()
        self.block(fn.body, frozenset())

    def block(self, stmts, out):
        for s in reversed(stmts):
            self.after[id(s)] = self.after.get(id(s), frozenset()) | out | self.extra
            out = frozenset(self.stmt(s, out))
        return out | self.extra

    def stmt(self, s, out):
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            return out | _uses(s)
        if isinstance(s, ast.If):
            return self.block(s.body, out) | self.block(s.orelse, out) | _uses(s.test)
        if isinstance(s, (ast.For, ast.AsyncFor, ast.While)):
            after = self.block(s.orelse, out) | out
            head = after | (_uses(s.test) if isinstance(s, ast.While) else set())
            saved = self.loop if hasattr(self, "loop") else None
            for _ in range(3):
                self.loop = (frozenset(head), frozenset(out))
                b = self.block(s.body, frozenset(head))
                nh = head | b
                if isinstance(s, (ast.For, ast.AsyncFor)):
                    nh = head | (b - _defs(s.target)) | _uses(s.target)
                if nh == head:
                    break
                head = nh
            self.loop = saved
            self.head[id(s)] = frozenset(head) | self.extra
            return head | (_uses(s.iter) if not isinstance(s, ast.While) else set())
        if isinstance(s, (ast.Break, ast.Continue)):
            lp = getattr(self, "loop", None)
            if lp is None:
                return out
            return lp[1] if isinstance(s, ast.Break) else lp[0]
        if isinstance(s, (ast.Return, ast.Raise)):
            return frozenset(_uses(s)) | self.extra
        if isinstance(s, (ast.Try, getattr(ast, "TryStar", ast.Try))):
            fin = self.block(s.finalbody, out) if s.finalbody else out
            saved = self.extra
            if s.finalbody:
                self.extra = saved | fin
            hs = frozenset()
            for h in s.handlers:
                hs |= self.block(h.body, fin) | (_uses(h.type) if h.type is not None else set())
            els = self.block(s.orelse, fin)
            self.extra = self.extra | hs
            b = self.block(s.body, els | fin)
            self.extra = saved
            return b | hs | fin
        if isinstance(s, (ast.With, ast.AsyncWith)):
            r = self.block(s.body, out)
            for i in s.items:
                r = r | _uses(i.context_expr) | (_uses(i.optional_vars) if i.optional_vars is not None else set())
            return r
        if isinstance(s, ast.Match):
            r = frozenset(out) | _uses(s.subject)
            for c in s.cases:
                r |= self.block(c.body, out) | _uses(c.pattern) | (_uses(c.guard) if c.guard is not None else set())
            return r
        if isinstance(s, (ast.Assign, ast.AnnAssign)):
            if isinstance(s, ast.AnnAssign) and s.value is None:
                return out
            tg = s.targets if isinstance(s, ast.Assign) else [s.target]
            d = set()
            for t in tg:
                d |= {x.id for x in ast.walk(t) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
            u = _uses(s.value)
            for t in tg:
                u |= _uses(t)
            return (out - d) | u
        if isinstance(s, ast.AugAssign):
            return out | _uses(s.value) | _uses(s.target) | _defs(s.target)
        return out | _uses(s)


_cache = {}


def liveness(fn):
    r = _cache.get(id(fn))
    if r is None:
        r = _cache[id(fn)] = (Liveness(fn), fn)
    return r[0]
