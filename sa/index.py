"""Project index: modules, classes, functions, imports, name/method resolution.

Everything is derived from the current source of /repo on every run.  The only
frozen input is ``vocab.json`` -- the set of function names (with an identifier
bag) that existed when the rules were confirmed by reading.  It decides which
callees are treated as *vocabulary* (opaque calls the rules talk about) and
which are *new helpers* (always inlined), and it lets an anchor follow a rename.
"""
import ast
import json
import os
import sys

REPO = os.environ.get("VP_REPO", "/repo")
PKG = "core/ipyflow"
VOCAB_GLOBALS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "vocab_globals.json")
VOCAB = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "vocab.json")


class AnalysisBroken(Exception):
    """Raised when an anchor cannot be located: an error exit, never a pass."""


class FuncInfo:
    __slots__ = ("name", "qual", "key", "node", "cls", "module", "parent", "decorators", "is_async",
                 "oldkey", "nested")

    def __init__(self, name, qual, node, cls, module, parent):
        self.name = name
        self.qual = qual
        self.key = f"{module.name}:{qual}"
        self.node = node
        self.cls = cls
        self.module = module
        self.parent = parent
        self.decorators = [ast.unparse(d) for d in getattr(node, "decorator_list", [])]
        self.is_async = isinstance(node, ast.AsyncFunctionDef)
        self.oldkey = self.key
        self.nested = {}

    @property
    def params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args]

    @property
    def is_static(self):
        return any(d.split(".")[-1] == "staticmethod" for d in self.decorators)

    @property
    def is_classmethod(self):
        return any(d.split(".")[-1] == "classmethod" for d in self.decorators)

    @property
    def is_property(self):
        return any(d.split(".")[-1] in ("property", "cached_property", "classproperty") for d in self.decorators)

    @property
    def is_ctxmgr(self):
        return any(d.split(".")[-1] in ("contextmanager",) for d in self.decorators)

    def loc(self, node=None):
        n = node if node is not None else self.node
        return f"{self.module.rel}:{getattr(n, 'lineno', self.node.lineno)}"

    def __repr__(self):
        return f"<{self.key}>"


class ClassInfo:
    def __init__(self, name, node, module, outer=None):
        self.name = name
        self.node = node
        self.module = module
        self.methods = {}
        self.attrs = {}
        self.bases = []
        for b in node.bases:
            if isinstance(b, ast.Subscript):
                b = b.value
            if isinstance(b, ast.Name):
                self.bases.append(b.id)
            elif isinstance(b, ast.Attribute):
                self.bases.append(b.attr)
        for st in node.body:
            if isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.attrs[t.id] = st
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                self.attrs[st.target.id] = st

    @property
    def key(self):
        return f"{self.module.name}:{self.name}"


from .normal import normalize  # noqa: E402


class Module:
    def __init__(self, path, rel, name, src):
        self.path = path
        self.rel = rel
        self.name = name
        self.src = src
        self.tree = normalize(ast.parse(src, path))
        self.imports = {}  # local alias -> (dotted module or None, original name or None)
        self.functions = {}
        self.classes = {}
        self.globals = {}
        self._stores = None

    def global_stores(self):
        """how often each module-level name is bound, in the module or by functions that declare it global"""
        if self._stores is None:
            self._stores = {}
            glob = {n for x in ast.walk(self.tree) if isinstance(x, ast.Global) for n in x.names}

            def rec(node, top):
                for c in ast.iter_child_nodes(node):
                    if isinstance(c, ast.Name) and isinstance(c.ctx, (ast.Store, ast.Del)) and (top or c.id in glob):
                        self._stores[c.id] = self._stores.get(c.id, 0) + 1
                    rec(c, top and not isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)))
            rec(self.tree, True)
        return self._stores


SINGLETON_CLASS = {
    "flow": "NotebookFlow", "tracer": "DataflowTracer", "shell": "IPyflowInteractiveShell",
    "kernel": "IPyflowKernel", "cells": "Cell", "statements": "Statement", "symbols": "Symbol",
    "namespaces": "Namespace", "timestamps": "Timestamp",
}

COMMON_METHODS = {
    "add", "get", "update", "pop", "append", "extend", "remove", "discard", "clear", "keys", "values", "items",
    "setdefault", "copy", "insert", "sort", "index", "count", "join", "split", "strip", "startswith", "endswith",
    "format", "replace", "send", "close", "open", "read", "write", "run", "start", "stop", "visit", "generic_visit",
    "set", "reset", "union", "intersection", "difference", "sub", "match", "handle", "flush", "tell", "seek",
}


def _bag(node):
    bag = {}
    for n in ast.walk(node):
        k = None
        if isinstance(n, ast.Attribute):
            k = n.attr
        elif isinstance(n, ast.Name):
            k = n.id
        elif isinstance(n, ast.Constant) and isinstance(n.value, str) and len(n.value) < 40:
            k = "'" + n.value
        elif isinstance(n, ast.arg):
            k = n.arg
        if k is not None:
            bag[k] = bag.get(k, 0) + 1
    return bag


def all_params(node):
    a = node.args
    names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
    for v in (a.vararg, a.kwarg):
        if v is not None:
            names.append(v.arg)
    return names


def _jacc(a, b):
    keys = set(a) | set(b)
    inter = sum(min(a.get(k, 0), b.get(k, 0)) for k in keys)
    tot = sum(max(a.get(k, 0), b.get(k, 0)) for k in keys)
    return inter / tot if tot else 0.0


def constant_display(v):
    """literals, enum-like attributes, names, and displays / sets / tuples / lambdas of them: evaluating it later gives the same value"""
    if isinstance(v, (ast.Constant, ast.Lambda)):
        return True
    if isinstance(v, ast.Name):
        return True
    if isinstance(v, ast.Attribute):
        return constant_display(v.value)
    if isinstance(v, (ast.Tuple, ast.List, ast.Set)):
        return all(constant_display(e) for e in v.elts) and bool(v.elts)
    if isinstance(v, ast.Dict):
        return bool(v.keys) and all(k is not None and constant_display(k) for k in v.keys) and all(constant_display(e) for e in v.values)
    if isinstance(v, ast.UnaryOp):
        return constant_display(v.operand)
    if isinstance(v, ast.BinOp):
        return constant_display(v.left) and constant_display(v.right)
    if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ("frozenset", "set", "tuple", "list") and len(v.args) == 1 and not v.keywords:
        return constant_display(v.args[0])
    return False


class Index:
    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.modules = {}
        self.funcs = {}       # key -> FuncInfo
        self.classes = {}     # name -> ClassInfo (names unique in this project)
        self.by_name = {}     # bare function/method name -> [FuncInfo]
        self.consulted = set()
        root = os.path.join(self.repo, PKG)
        if not os.path.isdir(root):
            raise AnalysisBroken(f"{root} not found")
        for dp, dns, fns in os.walk(root):
            dns[:] = sorted(d for d in dns if d not in ("__pycache__", "resources", "node_modules"))
            for fn in sorted(fns):
                if not fn.endswith(".py") or fn == "_version.py":
                    continue
                path = os.path.join(dp, fn)
                rel = os.path.relpath(path, self.repo)
                name = os.path.relpath(path, os.path.join(self.repo, "core"))[:-3].replace(os.sep, ".")
                if name.endswith(".__init__"):
                    name = name[: -len(".__init__")]
                with open(path, encoding="utf-8") as f:
                    src = f.read()
                try:
                    m = Module(path, rel, name, src)
                except SyntaxError as e:
                    raise AnalysisBroken(f"{rel}: {e}")
                self.modules[name] = m
        for m in self.modules.values():
            self._index_module(m)
        self._load_vocab()

    # ------------------------------------------------------------------ build
    def _index_module(self, m):
        pkg = m.name if m.path.endswith("__init__.py") else m.name.rpartition(".")[0]
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Import):
                for a in n.names:
                    m.imports[a.asname or a.name.split(".")[0]] = (a.name if a.asname else a.name.split(".")[0], None)
            elif isinstance(n, ast.ImportFrom):
                base = n.module or ""
                if n.level:
                    parts = pkg.split(".")
                    parts = parts[: len(parts) - (n.level - 1)]
                    base = ".".join(parts + ([base] if base else []))
                for a in n.names:
                    m.imports[a.asname or a.name] = (base, a.name)

        def rec(body, cls, parent, prefix):
            for st in body:
                if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    q = prefix + st.name
                    fi = FuncInfo(st.name, q, st, cls, m, parent)
                    if any(d.endswith(".setter") for d in fi.decorators):
                        fi.key += "#setter"
                        fi.oldkey = fi.key
                    if any(d.split(".")[-1] == "overload" for d in fi.decorators):
                        continue
                    if fi.key in self.funcs:  # conditional redefinition
                        fi.key += f"#{sum(1 for k in self.funcs if k.startswith(fi.key))}"
                        fi.oldkey = fi.key
                    self.funcs[fi.key] = fi
                    self.by_name.setdefault(st.name, []).append(fi)
                    if parent is not None:
                        parent.nested[st.name] = fi
                    elif cls is not None:
                        if "#setter" not in fi.key:
                            cls.methods[st.name] = fi
                    else:
                        m.functions[st.name] = fi
                    rec(st.body, None if parent is not None or cls is None else None, fi, q + ".")
                elif isinstance(st, ast.ClassDef):
                    ci = ClassInfo(st.name, st, m)
                    m.classes[st.name] = ci
                    self.classes.setdefault(st.name, ci)
                    rec(st.body, ci, None, prefix + st.name + ".")
                elif isinstance(st, (ast.If, ast.Try, ast.With, ast.For, ast.While)):
                    for field in ("body", "orelse", "finalbody"):
                        rec(getattr(st, field, []) or [], cls, parent, prefix)
                    for h in getattr(st, "handlers", []) or []:
                        rec(h.body, cls, parent, prefix)
                elif isinstance(st, ast.Assign) and cls is None and parent is None:
                    for t in st.targets:
                        if isinstance(t, ast.Name):
                            m.globals[t.id] = st
                elif isinstance(st, ast.AnnAssign) and cls is None and parent is None:
                    if isinstance(st.target, ast.Name):
                        m.globals[st.target.id] = st

        rec(m.tree.body, None, None, "")

    def owner_class(self, fi):
        f = fi
        while f.parent is not None:
            f = f.parent
        return f.cls

    # ------------------------------------------------------------------ vocab
    def _load_vocab(self):
        self.vocab = {}
        self.vocab_globals = set()
        if os.path.exists(VOCAB_GLOBALS):
            with open(VOCAB_GLOBALS) as f:
                self.vocab_globals = set(json.load(f))
        self.vocab_params = {}
        self.renames = {}  # new bare name -> old bare name
        if not os.path.exists(VOCAB):
            return
        with open(VOCAB) as f:
            raw = json.load(f)
        self.vocab = {k: v["bag"] for k, v in raw.items()}
        self.vocab_params = {k: v["params"] for k, v in raw.items()}
        missing = [k for k in self.vocab if k not in self.funcs]
        new = [k for k in self.funcs if k not in self.vocab]
        if not missing or not new:
            return
        cands = []
        for mk in missing:
            mm, mq = mk.split(":", 1)
            for nk in new:
                nm, nq = nk.split(":", 1)
                if mq.split(".")[-1] == nq.split(".")[-1]:
                    score = 1.0 + _jacc(self.vocab[mk], _bag(self.funcs[nk].node))
                elif mm == nm and mq.rpartition(".")[0] == nq.rpartition(".")[0]:
                    score = _jacc(self.vocab[mk], _bag(self.funcs[nk].node))
                    if score < 0.55:
                        continue
                else:
                    continue
                cands.append((score, mk, nk))
        used_m, used_n = set(), set()
        for score, mk, nk in sorted(cands, reverse=True):
            if mk in used_m or nk in used_n:
                continue
            used_m.add(mk)
            used_n.add(nk)
            self.funcs[nk].oldkey = mk
            o, n = mk.split(":")[1].split(".")[-1], nk.split(":")[1].split(".")[-1]
            if o != n and not any(v.name == n for k, v in self.funcs.items() if k != nk):
                self.renames[n] = o

    def canon_params(self, fi):
        """current parameter name -> confirmed name (parameters renamed in place keep their role)"""
        cur = all_params(fi.node)
        old = self.vocab_params.get(fi.oldkey)
        if old is None or len(old) != len(cur):
            return {n: n for n in cur}
        if set(old) == set(cur):
            return {n: n for n in cur}
        return dict(zip(cur, old))

    def in_vocab(self, fi):
        return (not self.vocab) or fi.key in self.vocab or fi.oldkey in self.vocab

    def new_constant(self, m, name):
        """the value of a module-level name that did not exist when the rules were confirmed, if it is bound once to a display of names and literals"""
        m, name = self.home_of_global(m, name)
        st = m.globals.get(name)
        if st is None or f"{m.name}:{name}" in self.vocab_globals or st.value is None:
            return None, None
        if m.global_stores().get(name, 0) != 1:
            return None, None
        return (st.value, m) if constant_display(st.value) else (None, None)

    def new_class_constant(self, ci, name):
        for c in self.mro(ci):
            if name in c.attrs:
                st = c.attrs[name]
                if f"{c.module.name}:{c.name}.{name}" in self.vocab_globals or st.value is None or not constant_display(st.value):
                    return None, None
                if name in self.attr_stores():
                    return None, None
                return st.value, c.module
        return None, None

    def attr_stores(self):
        if getattr(self, "_attr_stores", None) is None:
            self._attr_stores = {x.attr for m in self.modules.values() for x in ast.walk(m.tree) if isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store, ast.Del))}
        return self._attr_stores

    def home_of_global(self, m, name):
        for _ in range(4):
            if name in m.globals or name not in m.imports:
                break
            mod, orig = m.imports[name]
            if orig is None or mod not in self.modules:
                break
            m, name = self.modules[mod], orig
        return m, name

    def dump_vocab(self):
        with open(VOCAB_GLOBALS, "w") as f:
            json.dump(sorted([f"{m.name}:{n}" for m in self.modules.values() for n in m.globals] +
                             [f"{c.module.name}:{c.name}.{a}" for m in self.modules.values() for c in m.classes.values() for a in c.attrs]), f)
        with open(VOCAB, "w") as f:
            json.dump({k: {"bag": _bag(fi.node), "params": all_params(fi.node)} for k, fi in sorted(self.funcs.items())},
                      f, sort_keys=True)

    # ------------------------------------------------------------------ lookup
    def fn(self, spec, required=True):
        """``Class.method``, ``module_tail:func`` or bare function name."""
        hits = []
        if ":" in spec:
            mod, q = spec.split(":", 1)
            hits = [f for f in self.funcs.values()
                    if f.oldkey.split(":")[1] == q and (f.oldkey.split(":")[0] == mod or f.oldkey.split(":")[0].endswith("." + mod))]
        else:
            hits = [f for f in self.funcs.values() if f.oldkey.split(":")[1] == spec]
        if len(hits) > 1:
            exact = [h for h in hits if h.key.split(":")[1] == spec.split(":")[-1]]
            hits = exact or hits
        if not hits:
            # inherited method moved to a base class / mixin
            q = spec.split(":")[-1]
            if "." in q:
                c, _, mname = q.rpartition(".")
                ci = self.classes.get(c)
                if ci is not None:
                    r = self.method(ci, mname)
                    if r is not None:
                        hits = [r]
        if not hits:
            if required:
                raise AnalysisBroken(f"anchor function {spec} not found")
            return None
        if len(hits) > 1:
            raise AnalysisBroken(f"anchor function {spec} ambiguous: {[h.key for h in hits]}")
        self.consulted.add(hits[0].module.name)
        return hits[0]

    def cls(self, name, required=True):
        ci = self.classes.get(name)
        if ci is None and required:
            raise AnalysisBroken(f"anchor class {name} not found")
        if ci is not None:
            self.consulted.add(ci.module.name)
        return ci

    def mod(self, name, required=True):
        m = self.modules.get(name)
        if m is None and required:
            raise AnalysisBroken(f"anchor module {name} not found")
        if m is not None:
            self.consulted.add(name)
        return m

    def mro(self, ci):
        out, seen = [], set()

        def rec(c):
            if c is None or c.name in seen:
                return
            seen.add(c.name)
            out.append(c)
            for b in c.bases:
                rec(self.classes.get(b))

        rec(ci)
        return out

    def subclasses(self, name):
        out = []
        for c in self.classes.values():
            if c.name != name and any(x.name == name for x in self.mro(c)):
                out.append(c)
        return out

    def method(self, ci, name, skip_first=False):
        for c in self.mro(ci)[1 if skip_first else 0:]:
            if name in c.methods:
                return c.methods[name]
        return None

    def resolve_global(self, m, name, depth=0):
        """Return FuncInfo / ClassInfo / None for a module-level name in module m."""
        if name in m.functions:
            return m.functions[name]
        if name in m.classes:
            return m.classes[name]
        if depth < 4 and name in m.imports:
            mod, orig = m.imports[name]
            if orig is None:
                return None
            tgt = self.modules.get(mod)
            if tgt is not None:
                return self.resolve_global(tgt, orig, depth + 1)
            return None
        return None

    def class_of_expr(self, expr, ctx, aliases=None):
        """Best-effort class of a receiver expression (ClassInfo or None)."""
        oc = self.owner_class(ctx)
        if isinstance(expr, ast.Name):
            if expr.id in ("self", "cls") and oc is not None:
                return oc
            r = self.resolve_global(ctx.module, expr.id)
            if isinstance(r, ClassInfo):
                return r
        elif isinstance(expr, ast.Call) and isinstance(expr.func, ast.Name):
            n = expr.func.id
            n = ctx.module.imports.get(n, (None, n))[1] or n
            if n in SINGLETON_CLASS:
                return self.classes.get(SINGLETON_CLASS[n])
            if n == "cast" and expr.args:
                return None
        return None

    def resolve_call(self, func, ctx):
        """Resolve the callee of an ast.Call.func within function ctx -> FuncInfo or None."""
        if isinstance(func, ast.Name):
            f = ctx
            while f is not None:
                if func.id in f.nested:
                    return f.nested[func.id]
                f = f.parent
            r = self.resolve_global(ctx.module, func.id)
            return r if isinstance(r, FuncInfo) else None
        if isinstance(func, ast.Attribute):
            v = func.value
            if (isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "super"):
                oc = self.owner_class(ctx)
                return self.method(oc, func.attr, skip_first=True) if oc is not None else None
            ci = self.class_of_expr(v, ctx)
            if ci is not None:
                r = self.method(ci, func.attr)
                if r is not None:
                    return r
                if isinstance(v, ast.Name) and v.id in ("self", "cls"):
                    # mixin calling a method of its concrete class
                    return self.unique_method(func.attr)
                return None
            if isinstance(v, ast.Name) and v.id in ctx.module.imports:
                mod, orig = ctx.module.imports[v.id]
                tgt = self.modules.get(mod if orig is None else f"{mod}.{orig}")
                if tgt is not None:
                    r = self.resolve_global(tgt, func.attr)
                    return r if isinstance(r, FuncInfo) else None
            r = self.unique_method(func.attr)
            if r is None and isinstance(v, ast.Name):
                ci = self.declared_class(v.id, ctx)
                r = self.method(ci, func.attr) if ci is not None else None
            return r
        return None

    def declared_class(self, name, ctx):
        """the class a parameter is declared with"""
        while ctx is not None:
            a = getattr(ctx.node, "args", None)
            for p in (a.posonlyargs + a.args + a.kwonlyargs) if a is not None else ():
                if p.arg == name:
                    t = p.annotation
                    n = t.value if isinstance(t, ast.Constant) else t.id if isinstance(t, ast.Name) else None
                    r = self.resolve_global(ctx.module, n) if isinstance(n, str) and n.isidentifier() else None
                    return r if isinstance(r, ClassInfo) else None
            ctx = ctx.parent
        return None

    def own_attrs(self):
        """names that the methods of exactly one class of the project bind on their object"""
        if self._own_attrs is None:
            cnt = {}
            for f in self.funcs.values():
                for n in ast.walk(f.node):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == "self":
                        oc = self.owner_class(f)
                        cnt.setdefault(n.attr, set()).add(oc.name if oc is not None else "?")
            self._own_attrs = {a for a, s in cnt.items() if len(s) == 1 and "_" in a.strip("_")}
        return self._own_attrs

    _own_attrs = None

    def unique_method(self, name):
        if name in COMMON_METHODS or (name.startswith("__") and name.endswith("__")):
            return None
        hits = [f for f in self.by_name.get(name, []) if self.owner_class(f) is not None and f.parent is None
                and "#setter" not in f.key]
        return hits[0] if len(hits) == 1 else None


if __name__ == "__main__":
    ix = Index(sys.argv[1] if len(sys.argv) > 1 else None)
    ix.dump_vocab()
    print(len(ix.funcs), "functions", len(ix.modules), "modules", len(ix.classes), "classes")
