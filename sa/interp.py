"""Path-sensitive abstract interpreter over the Python AST (ESP style).

Abstract state = (locals -> canonical term, tracked places -> canonical term,
known truth of canonical atoms, trace of rule-relevant events).  Branch
conditions are decomposed into canonical atoms; an *oracle* supplied by the rule
fixes the truth of the atoms the rule quantifies over, all other atoms are
nondeterministic.  Loops are analysed one symbolic iteration at a time; helper
functions that are not part of the confirmed vocabulary are inlined.
"""
import ast
import re
import sys

from sa.liveness import liveness
from .index import AnalysisBroken, ClassInfo, FuncInfo, SINGLETON_CLASS

sys.setrecursionlimit(20000)

# --------------------------------------------------------------------- terms
TRUE, FALSE, NONE = ("const", "bool", True), ("const", "bool", False), ("const", "NoneType", None)


def const(v):
    return ("const", type(v).__name__, v)


def is_const(t):
    return isinstance(t, tuple) and t and t[0] == "const"


def show(t):
    """Canonical python-like text of a term; rules match on this."""
    if not isinstance(t, tuple) or not t:
        return repr(t)
    k = t[0]
    if k in ("var", "g"):
        return t[1]
    if k == "const":
        return repr(t[2])
    if k == ".":
        return f"{show(t[1])}.{t[2]}"
    if k == "[]":
        return f"{show(t[1])}[{show(t[2])}]"
    if k == "call":
        args = [show(a) for a in t[2]] + [f"{n}={show(v)}" if n else f"**{show(v)}" for n, v in t[3]]
        return f"{show(t[1])}({', '.join(args)})"
    if k == "elem":
        return f"elem({show(t[1])})" if len(t) == 2 else f"elem{t[2]}({show(t[1])})"
    if k == "index":
        return f"index({show(t[1])})"
    if k == "prev":
        return f"prev({show(t[1])})"
    if k == "bin":
        return f"({show(t[2])} {t[1]} {show(t[3])})"
    if k == "cmp":
        return f"({show(t[2])} {t[1]} {show(t[3])})"
    if k == "not":
        return f"(not {show(t[1])})"
    if k in ("and", "or"):
        return "(" + f" {k} ".join(show(x) for x in t[1]) + ")"
    if k in ("tuple", "list", "set"):
        o, c = {"tuple": "()", "list": "[]", "set": "{}"}[k]
        return o + ", ".join(show(x) for x in t[1]) + c
    if k == "dict":
        return "{" + ", ".join(f"{show(a) if a is not None else '**'}: {show(b)}" for a, b in t[1]) + "}"
    if k == "new":
        return f"new_{t[1]}"
    if k == "snap":
        return show(t[1])
    if k == "comp":
        return f"{t[1]}comp({show(t[2]) if t[2] is not None else '?'} for {', '.join(show(x) for x in t[3])}" + (
            " if " + " and ".join(show(x) for x in t[4]) if t[4] else "") + ")"
    if k == "neg":
        return f"-{show(t[1])}"
    if k == "*":
        return f"*{show(t[1])}"
    if k == "fstr":
        return "f'" + "".join(str(x[2]) if is_const(x) else "{" + show(x) + "}" for x in t[1]) + "'"
    if k == "slice":
        return ":".join("" if x is None else show(x) for x in t[1:])
    if k == "phi":
        return f"phi_{t[1]}"
    if k == "id":
        return f"{t[1]}@{t[2]}:{t[3]}"
    if k == "ifexp":
        return f"({show(t[2])} if {show(t[1])} else {show(t[3])})"
    return f"{k}(" + ",".join(show(x) if isinstance(x, tuple) else str(x) for x in t[1:]) + ")"


def subterms(t):
    if isinstance(t, tuple):
        if t and isinstance(t[0], str):
            yield t
        for x in t:
            if isinstance(x, tuple):
                yield from subterms(x)


def mentions(t, pred):
    return any(pred(s) for s in subterms(t))


def bool_parts(t):
    """the term and the operands its truth depends on"""
    yield t
    if t[0] == "not":
        yield from bool_parts(t[1])
    elif t[0] in ("and", "or"):
        for x in t[1]:
            yield from bool_parts(x)


def mentions_name(t, name):
    for s in subterms(t):
        if len(s) >= 2 and s[0] in ("var", "g") and s[1] == name:
            return True
        if len(s) == 3 and s[0] == "." and s[2] == name:
            return True
    return False


ITER_WRAPPERS = {"list", "tuple", "sorted", "set", "frozenset", "iter", "reversed"}


def strip_iter(t):
    while isinstance(t, tuple) and t[0] == "call" and t[1][0] == "g" and t[1][1] in ITER_WRAPPERS and len(t[2]) >= 1:
        t = t[2][0]
    if isinstance(t, tuple) and t[0] == "call" and t[1][0] == "." and t[1][2] in ("keys", "copy") and not t[2]:
        t = t[1][1]
    return t


def unwrap_literal(t):
    """list((a, b)) / tuple([a, b]) -> the literal"""
    x = t
    while x[0] == "call" and x[1][0] == "g" and x[1][1] in ("list", "tuple", "iter") and len(x[2]) == 1 and not x[3]:
        x = x[2][0]
    return x if x[0] in ("tuple", "list") else t


# --------------------------------------------------------------------- state
class Event:
    __slots__ = ("kind", "a", "b", "c", "node", "fn", "facts", "loops")

    def __init__(self, kind, a=None, b=None, c=None, node=None, fn=None, facts=None):
        self.kind, self.a, self.b, self.c, self.node, self.fn, self.facts = kind, a, b, c, node, fn, facts
        self.loops = ()

    def key(self):
        return (self.kind, self.a, self.b, self.c)

    def __repr__(self):
        if self.kind == "call":
            return show(("call", self.a, self.b, self.c))
        return f"{self.kind}({', '.join(show(x) if isinstance(x, tuple) else str(x) for x in (self.a, self.b, self.c) if x is not None)})"

    # convenience -----------------------------------------------------------
    @property
    def callee(self):
        return show(self.a) if self.kind == "call" else ""

    def is_call(self, *names):
        """call whose final attribute / function name is one of names"""
        if self.kind != "call":
            return False
        f = self.a
        n = f[2] if f[0] == "." else (f[1] if f[0] in ("g", "var") else None)
        return n in names

    @property
    def recv(self):
        return self.a[1] if self.kind == "call" and self.a[0] == "." else None

    def loc(self):
        return self.fn.loc(self.node) if self.fn is not None else "?"


class State:
    __slots__ = ("frames", "heap", "facts", "trace", "active")

    def __init__(self, frames=None, heap=None, facts=None, trace=(), active=()):
        self.frames = frames if frames is not None else [{}]
        self.heap = heap if heap is not None else {}
        self.facts = facts if facts is not None else {}
        self.trace = trace
        self.active = active

    @property
    def env(self):
        return self.frames[-1]

    def copy(self):
        return State([dict(f) for f in self.frames], dict(self.heap), dict(self.facts), self.trace, self.active)

    def key(self):
        return (tuple(frozenset(f.items()) for f in self.frames), frozenset(self.heap.items()),
                frozenset(self.facts.items()), tuple(e.key() for e in self.trace))


class Out:
    __slots__ = ("normal", "brk", "cont", "ret", "exc")

    def __init__(self):
        self.normal, self.brk, self.cont, self.ret, self.exc = [], [], [], [], []


class PathEnd:
    __slots__ = ("kind", "state", "value", "node")

    def __init__(self, kind, state, value=None, node=None):
        self.kind, self.state, self.value, self.node = kind, state, value, node

    @property
    def trace(self):
        return self.state.trace

    @property
    def facts(self):
        return self.state.facts


class Iteration:
    """One symbolic iteration of a loop/comprehension."""
    __slots__ = ("node", "iter", "entry_len", "kind", "state", "value", "fn", "elem")

    def __init__(self, node, it, entry_len, kind, state, value, fn, elem):
        self.node, self.iter, self.entry_len, self.kind, self.state, self.value, self.fn, self.elem = (
            node, it, entry_len, kind, state, value, fn, elem)

    @property
    def events(self):
        return self.state.trace[self.entry_len:]


def assigned_names(node_or_list):
    out = set()
    nodes = node_or_list if isinstance(node_or_list, list) else [node_or_list]
    for root in nodes:
        for n in ast.walk(root):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)
            elif isinstance(n, ast.ExceptHandler) and n.name:
                out.add(n.name)
    return out


PURE_BUILTINS = {"len", "isinstance", "getattr", "hasattr", "str", "int", "bool", "list", "tuple", "set", "dict",
                 "frozenset", "id", "type", "repr", "iter", "cast", "super", "any", "all", "sorted", "enumerate",
                 "range", "zip", "issubclass", "callable", "max", "min", "defaultdict"}
MUTATORS = {"add", "append", "update", "extend", "insert", "discard", "remove", "pop", "clear", "difference_update",
            "intersection_update", "symmetric_difference_update", "popitem", "setdefault", "appendleft", "popleft"}
NORAISE_CALLS = {"len", "isinstance", "id", "type", "cast", "super", "set", "dict", "bool", "hasattr", "callable",
                 "flow", "tracer", "shell", "cells", "statements", "symbols", "timestamps", "namespaces", "kernel",
                 "list", "tuple", "frozenset", "defaultdict"}


class Interp:
    def __init__(self, index, oracle=None, interest=None, inline=(), implicit_exc=False, cap=160, max_depth=5,
                 noraise=(), opaque=(), inline_if=None, track_collect=True, keep_fact=None, unroll_any=True, onlyraise=None, volatile=(), snap=(), nonempty=None):
        self.ix = index
        # attributes of self that whatever runs at a yield may change
        self.volatile = volatile
        # attributes of self whose reads (and copies made of any container) are tagged with the time they happened at
        self.snap = set(snap)
        self.oracle = oracle or (lambda atom, st: None)
        self.interest = interest or (lambda ev: True)
        self.inline = set(inline)
        self.opaque = set(opaque)
        self.inline_if = inline_if
        # onlyraise: calls to exactly these names may raise, nothing else does
        self.onlyraise = onlyraise
        self.implicit_exc = implicit_exc and onlyraise is None
        self.cap = cap
        self.max_depth = max_depth
        self.noraise = NORAISE_CALLS | set(noraise)
        self.keep_fact = keep_fact
        self.unroll_any = unroll_any
        self.iterations = []
        self.fnstack = []
        self.excsinks = []
        self.yield_cb = []
        self.constdepth = []
        self.nonempty = re.compile(nonempty) if nonempty else None
        self.inlined = set()
        self.nstates = 0
        self.merged = 0
        self.allevents = {}

    # ------------------------------------------------------------ entry point
    def run(self, fi, params=None, closure=None):
        """Analyse a function from its entry; returns list of PathEnd."""
        st = State()
        env = st.env
        if closure:
            env.update(closure)
        a = fi.node.args
        names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        for v in (a.vararg, a.kwarg):
            if v is not None:
                names.append(v.arg)
        canon = self.ix.canon_params(fi)
        for n in names:
            env[n] = ("var", canon.get(n, n))
        oc = self.ix.owner_class(fi)
        if fi.is_classmethod and fi.params and oc is not None and fi.cls is not None:
            env[fi.params[0]] = ("g", oc.name)
        if fi.cls is not None and fi.params and not fi.is_static and not fi.is_classmethod:
            env[fi.params[0]] = ("var", "self")
        if params:
            env.update(params)
        self.fnstack.append(fi)
        try:
            out = self.exec_block(fi.node.body, [st])
        finally:
            self.fnstack.pop()
        ends = [PathEnd("return", s, NONE, fi.node) for s in out.normal]
        ends += [PathEnd("return", s, v, n) for s, v, n in out.ret]
        ends += [PathEnd("raise", s, v, n) for s, v, n in out.exc]
        return ends

    @property
    def fn(self):
        return self.fnstack[-1]

    # ---------------------------------------------------------------- helpers
    EMPTY_READERS = {"len", "list", "set", "tuple", "sorted", "any", "all", "sum", "bool", "frozenset", "dict", "isinstance", "enumerate", "zip",
                     "min", "max", "reversed", "iter", "repr", "str", "print"}
    EMPTY_METHODS = {"keys", "values", "items", "get", "copy", "union", "intersection", "difference", "issubset", "issuperset", "index", "count",
                     "join", "isdisjoint"}

    def touch(self, st, kind, a, b, c):
        """a freshly created container is known to be empty until something may have been put into it"""
        fs = [k for k in st.facts if k[0] == "truth" and k[1][0] == "new"]
        for k in fs:
            n = k[1]

            def has(t):
                return t is not None and mentions(t, lambda x: x == n)
            if kind == "call":
                f = a
                if f[0] == "." and f[1] == n:
                    hit = f[2] not in self.EMPTY_METHODS
                elif f[0] == "g" and f[1] in self.EMPTY_READERS:
                    hit = False
                else:
                    hit = any(has(x) for x in b) or any(has(v) for _, v in c) or has(f) or any(
                        x[0] in ("localfn", "lambda") for x in (f,) + tuple(b))
            elif kind in ("aug", "setitem", "aug_setitem", "delitem"):
                hit = a == n or has(c)
            elif kind in ("assign", "aug_assign", "collect", "yield", "yieldfrom"):
                hit = has(b) or kind != "assign" and has(a)
            else:
                hit = False
            if hit:
                del st.facts[k]

    def emit(self, st, kind, a=None, b=None, c=None, node=None):
        if st.facts:
            self.touch(st, kind, a, b, c)
        ev = Event(kind, a, b, c, node, self.fn, None)
        if self.interest(ev):
            ev.facts = dict(st.facts)
            ev.loops = st.active
            st.trace = st.trace + (ev,)
            self.allevents[(ev.key(), id(node))] = ev

    def dedup(self, states):
        if len(states) <= 1:
            return states
        seen, out = set(), []
        for s in states:
            k = s.key()
            if k not in seen:
                seen.add(k)
                out.append(s)
        self.nstates += len(out)
        if len(out) > self.cap:
            out = self.merge(out, lambda s: (tuple(frozenset(f.items()) for f in s.frames),
                                             frozenset(s.heap.items()), tuple(e.key() for e in s.trace)))
        if len(out) > self.cap:
            out = self.merge(out, lambda s: (frozenset(s.heap.items()), tuple(e.key() for e in s.trace)))
        if len(out) > 4 * self.cap:
            out = self.merge(out, lambda s: (frozenset(s.heap.items()), frozenset(e.key() for e in s.trace)))
        if len(out) > 8 * self.cap:
            # last resort: keep one representative per set of tracked events (ordering and heap joined)
            groups = {}
            for s in out:
                groups.setdefault(frozenset(e.key() for e in s.trace), []).append(s)
            new = []
            for g in groups.values():
                r = self.merge(g, lambda s: 0)[0] if len(g) > 1 else g[0]
                if len(g) > 1:
                    h = dict(r.heap)
                    for o in g:
                        for k in list(h):
                            if o.heap.get(k) != h[k]:
                                h[k] = ("phi", "heap")
                        for k in o.heap:
                            h.setdefault(k, ("phi", "heap"))
                    r.heap = h
                new.append(r)
            out = new
        if len(out) > 16 * self.cap:
            raise AnalysisBroken(f"state explosion in {self.fn.key}: {len(out)} states")
        return out

    def merge(self, states, keyf):
        groups = {}
        for s in states:
            groups.setdefault(keyf(s), []).append(s)
        out = []
        for g in groups.values():
            if len(g) == 1:
                out.append(g[0])
                continue
            self.merged += len(g) - 1
            s = g[0].copy()
            for o in g[1:]:
                s.facts = {k: v for k, v in s.facts.items() if o.facts.get(k, None) == v}
                for f, fo in zip(s.frames, o.frames):
                    for k in list(f):
                        if fo.get(k) != f[k]:
                            f[k] = ("phi", k)
                    for k in fo:
                        if k not in f:
                            f[k] = ("phi", k)
            out.append(s)
        return out

    # ----------------------------------------------------------------- blocks
    def prune(self, states, stmt, head=False):
        """forget locals that cannot be read any more (they would only multiply states)"""
        fn = self.fn.node
        if not isinstance(fn, (ast.FunctionDef, ast.AsyncFunctionDef)):
            return states
        lv = liveness(fn)
        keep = (lv.head if head else lv.after).get(id(stmt))
        if keep is None:
            return states
        for s in states:
            env = s.env
            dead = [n for n in env if n in lv.locals and n not in keep]
            if dead:
                s.frames = s.frames[:-1] + [{k: v for k, v in env.items() if k not in dead}]
        return states

    def exec_block(self, stmts, states):
        out = Out()
        cur = states
        for stmt in stmts:
            if not cur:
                break
            o = self.exec_stmt(stmt, cur)
            out.brk += o.brk
            out.cont += o.cont
            out.ret += o.ret
            out.exc += o.exc
            cur = self.dedup(self.prune(o.normal, stmt))
        out.normal = cur
        for f in ("brk", "cont"):
            setattr(out, f, self.dedup(getattr(out, f)))
        for f in ("ret", "exc"):
            lst = getattr(out, f)
            if len(lst) > 1:
                seen, new = set(), []
                for s, v, n in lst:
                    k = (s.key(), v, id(n))
                    if k not in seen:
                        seen.add(k)
                        new.append((s, v, n))
                if len(new) > self.cap * 2:
                    g = {}
                    for s, v, n in new:
                        kk = (frozenset(s.heap.items()), tuple(e.key() for e in s.trace), v, id(n))
                        if kk in g:
                            g[kk] = (self.merge([g[kk][0], s], lambda s: 0)[0], v, n)
                        else:
                            g[kk] = (s, v, n)
                    new = list(g.values())
                setattr(out, f, new)
        return out

    def exec_stmt(self, stmt, states):
        out = Out()
        sink = []
        self.excsinks.append(sink)
        try:
            m = getattr(self, "s_" + type(stmt).__name__, None)
            if m is None:
                out.normal = states
            else:
                m(stmt, states, out)
        finally:
            self.excsinks.pop()
        out.exc += sink
        return out

    def _copyall(self, states):
        return [s.copy() for s in states]

    def s_Expr(self, stmt, states, out):
        for s in states:
            for s2, _ in self.eval(stmt.value, s.copy()):
                out.normal.append(s2)

    def s_Assign(self, stmt, states, out):
        for s in states:
            for s2, v in self.eval(stmt.value, s.copy()):
                v = self.born(self.fresh(v, stmt.value, s2), v, s2)
                for t in stmt.targets:
                    self.assign(t, v, s2, stmt)
                    if not isinstance(t, ast.Name):
                        s2.facts.pop(("truth", v), None) if v[0] == "new" else None
                out.normal.append(s2)

    def s_AnnAssign(self, stmt, states, out):
        if stmt.value is None:
            out.normal += states
            return
        for s in states:
            for s2, v in self.eval(stmt.value, s.copy()):
                v = self.born(self.fresh(v, stmt.value, s2), v, s2)
                self.assign(stmt.target, v, s2, stmt)
                if not isinstance(stmt.target, ast.Name):
                    s2.facts.pop(("truth", v), None) if v[0] == "new" else None
                out.normal.append(s2)

    def s_AugAssign(self, stmt, states, out):
        op = OPS.get(type(stmt.op), "?")
        for s in states:
            for s2, v in self.eval(stmt.value, s.copy()):
                load = ast.copy_location(_as_load(stmt.target), stmt.target)
                for s3, cur in self.eval(load, s2):
                    s3 = s3.copy()
                    self.emit(s3, "aug", cur, ("const", "str", op), v, node=stmt)
                    nv = cur if cur[0] == "new" else ("bin", op, cur, v)
                    self.assign(stmt.target, nv, s3, stmt, aug=True)
                    out.normal.append(s3)

    def born(self, v, old, st):
        if v != old and isinstance(v, tuple) and v[0] == "new" and v[1] in ("list", "set", "dict"):
            st.facts = {k: x for k, x in st.facts.items() if not mentions(k, lambda t: t == v)}
            st.facts[("truth", v)] = False
        return v

    def fresh(self, v, node, st=None):
        if self.snap and st is not None:
            w = self.fresh(v, node)
            return w + (len(st.trace),) if w != v else v
        if isinstance(v, tuple):
            if v[0] in ("list", "set") and not v[1]:
                return ("new", v[0], getattr(node, "lineno", 0), getattr(node, "col_offset", 0))
            if v[0] == "dict" and not v[1]:
                return ("new", "dict", getattr(node, "lineno", 0), getattr(node, "col_offset", 0))
            if v[0] == "call" and v[1][0] == "g" and (
                    (v[1][1] in ("set", "dict", "list") and not v[2] and not v[3])
                    or v[1][1] in ("defaultdict", "OrderedDict", "Counter")):
                return ("new", v[1][1], getattr(node, "lineno", 0), getattr(node, "col_offset", 0))
        return v

    def assign(self, target, v, st, stmt, aug=False):
        if isinstance(target, ast.Name):
            if target.id in self._globals_of(self.fn):
                place = ("g", target.id)
                st.heap[place] = v
                self.emit(st, "assign", place, v, node=stmt)
            else:
                if target.id in self._nonlocals_of(self.fn):
                    self.emit(st, "assign", ("var", target.id), v, node=stmt)
                st.env[target.id] = v
        elif isinstance(target, ast.Attribute):
            for s2, base in self._single(target.value, st):
                place = (".", base, target.attr)
                if not self._snapped(place):
                    st.heap[place] = v
                self._kill(st, place)
                self.emit(st, "aug_assign" if aug else "assign", place, v, node=stmt)
        elif isinstance(target, ast.Subscript):
            for s2, base in self._single(target.value, st):
                for s3, idx in self._single(target.slice, st):
                    place = ("[]", base, idx)
                    for p in list(st.heap):
                        if p[0] == "[]" and p[1] == base:
                            del st.heap[p]
                    st.heap[place] = v
                    self._kill(st, place)
                    self.emit(st, "aug_setitem" if aug else "setitem", base, idx, v, node=stmt)
        elif isinstance(target, (ast.Tuple, ast.List)):
            for i, t in enumerate(target.elts):
                if isinstance(t, ast.Starred):
                    self.assign(t.value, ("*rest", v, i), st, stmt)
                elif isinstance(v, tuple) and v[0] in ("tuple", "list") and len(v[1]) == len(target.elts):
                    self.assign(t, v[1][i], st, stmt)
                else:
                    self.assign(t, ("[]", v, const(i)), st, stmt)
        elif isinstance(target, ast.Starred):
            self.assign(target.value, v, st, stmt)

    def _kill(self, st, place):
        """facts about the old content of place are no longer facts about reads of it (reads now see the heap)."""
        return

    def _single(self, expr, st):
        """eval of sub-expression on assignment target: take first result (targets do not branch in practice)."""
        r = self.eval(expr, st)
        return [(st, r[0][1])] if r else []

    def _globals_of(self, fi):
        g = getattr(fi.node, "_sa_globals", None)
        if g is None:
            g, nl = set(), set()
            for n in ast.walk(fi.node):
                if isinstance(n, ast.Global):
                    g.update(n.names)
                elif isinstance(n, ast.Nonlocal):
                    nl.update(n.names)
            fi.node._sa_globals, fi.node._sa_nonlocals = g, nl
        return g

    def _nonlocals_of(self, fi):
        self._globals_of(fi)
        return fi.node._sa_nonlocals

    def s_Return(self, stmt, states, out):
        for s in states:
            if stmt.value is None:
                s2 = s.copy()
                self.emit(s2, "return", NONE, node=stmt)
                out.ret.append((s2, NONE, stmt))
            else:
                for s2, v in self.eval(stmt.value, s.copy()):
                    self.emit(s2, "return", v, node=stmt)
                    out.ret.append((s2, v, stmt))

    def s_Raise(self, stmt, states, out):
        for s in states:
            if stmt.exc is None:
                out.exc.append((s.copy(), ("reraise",), stmt))
            else:
                for s2, v in self.eval(stmt.exc, s.copy()):
                    self.emit(s2, "raise", v, node=stmt)
                    out.exc.append((s2, v, stmt))

    def s_Assert(self, stmt, states, out):
        for s in states:
            for s2 in self.branch(stmt.test, s.copy(), True):
                out.normal.append(s2)
            if self.implicit_exc and not getattr(stmt, "assume", False):
                out.exc.append((s.copy(), ("exc?",), stmt))

    def s_Delete(self, stmt, states, out):
        for s in states:
            s = s.copy()
            for t in stmt.targets:
                if isinstance(t, ast.Name):
                    s.env.pop(t.id, None)
                elif isinstance(t, ast.Attribute):
                    for _, b in self._single(t.value, s):
                        place = (".", b, t.attr)
                        s.heap[place] = ("deleted",)
                        self.emit(s, "del", place, node=stmt)
                elif isinstance(t, ast.Subscript):
                    for _, b in self._single(t.value, s):
                        for _, i in self._single(t.slice, s):
                            s.heap.pop(("[]", b, i), None)
                            self.emit(s, "delitem", b, i, node=stmt)
            if self.implicit_exc:
                self.excsinks[-1].append((s.copy(), ("exc?",), stmt))
            out.normal.append(s)

    def s_Pass(self, stmt, states, out):
        out.normal += states

    def s_Break(self, stmt, states, out):
        out.brk += states

    def s_Continue(self, stmt, states, out):
        out.cont += states

    def s_Global(self, stmt, states, out):
        out.normal += states

    s_Nonlocal = s_Global

    def s_Import(self, stmt, states, out):
        out.normal += states

    s_ImportFrom = s_Import

    def s_FunctionDef(self, stmt, states, out):
        for s in states:
            s = s.copy()
            for d in stmt.decorator_list:
                pass
            s.env[stmt.name] = ("localfn", stmt.name, stmt.lineno)
            out.normal.append(s)

    s_AsyncFunctionDef = s_FunctionDef

    def s_ClassDef(self, stmt, states, out):
        for s in states:
            s = s.copy()
            s.env[stmt.name] = ("localcls", stmt.name, stmt.lineno)
            out.normal.append(s)

    def s_If(self, stmt, states, out):
        tst, fst = [], []
        for s in states:
            t, f = self.branch2(stmt.test, s.copy())
            tst += t
            fst += f
        ob = self.exec_block(stmt.body, self.dedup(tst)) if tst else Out()
        oe = self.exec_block(stmt.orelse, self.dedup(fst)) if fst else Out()
        for f in ("normal", "brk", "cont", "ret", "exc"):
            setattr(out, f, getattr(out, f) + getattr(ob, f) + getattr(oe, f))

    def s_Match(self, stmt, states, out):
        for s in states:
            for s2, subj in self.eval(stmt.subject, s.copy()):
                rest = [s2]
                for case in stmt.cases:
                    nxt = []
                    for r in rest:
                        pos, neg = self.match_pat(case.pattern, subj, r)
                        nxt += neg
                        if case.guard is not None:
                            p2 = []
                            for p in pos:
                                t, f = self.branch2(case.guard, p)
                                p2 += t
                                nxt += f
                            pos = p2
                        if pos:
                            o = self.exec_block(case.body, pos)
                            for f in ("normal", "brk", "cont", "ret", "exc"):
                                setattr(out, f, getattr(out, f) + getattr(o, f))
                    rest = nxt
                out.normal += rest

    def match_pat(self, pat, subj, st):
        if isinstance(pat, ast.MatchValue):
            r = self.eval(pat.value, st)
            atom = mk_cmp("==", subj, r[0][1])
            return self.assume2(st, atom)
        if isinstance(pat, ast.MatchSingleton):
            return self.assume2(st, mk_cmp("is", subj, const(pat.value)))
        if isinstance(pat, ast.MatchOr):
            pos, rest = [], [st]
            for p in pat.patterns:
                nr = []
                for r in rest:
                    a, b = self.match_pat(p, subj, r)
                    pos += a
                    nr += b
                rest = nr
            return pos, rest
        if isinstance(pat, ast.MatchAs) and pat.pattern is None:
            s = st.copy()
            if pat.name:
                s.env[pat.name] = subj
            return [s], []
        if isinstance(pat, ast.MatchClass):
            r = self.eval(pat.cls, st)
            return self.assume2(st, ("call", ("g", "isinstance"), (subj, r[0][1]), ()))
        return [st.copy()], [st.copy()]

    # ------------------------------------------------------------------ loops
    def bind_iter(self, target, it, st, stmt):
        """bind loop target to a symbolic element of iter term; returns elem term"""
        base = it
        elem = None
        if isinstance(it, tuple) and it[0] == "call":
            f = it[1]
            if f[0] == "g" and f[1] == "enumerate" and it[2]:
                inner = strip_iter(it[2][0])
                e = self.mk_elem(inner, st)
                if isinstance(target, (ast.Tuple, ast.List)) and len(target.elts) == 2:
                    self.assign(target.elts[0], ("index", e), st, stmt)
                    self.assign(target.elts[1], e, st, stmt)
                    return e
            if f[0] == "g" and f[1] == "zip":
                es = tuple(self.mk_elem(strip_iter(a), st) for a in it[2])
                self.assign(target, ("tuple", es), st, stmt)
                return es[0] if es else ("phi", "zip")
            if f[0] == "g" and f[1] in ("list", "tuple", "sorted", "set", "reversed") and it[2] and it[2][0][0] == "call":
                return self.bind_iter(target, it[2][0], st, stmt)
            if f[0] == "." and f[2] in ("items", "values") and not it[2] and f[1][0] == "comp" and f[1][1] == "dict" and (
                    f[1][2] is not None and f[1][2][0] == "tuple" and len(f[1][2][1]) == 2):
                k, v = f[1][2][1]
                self.assign(target, f[1][2] if f[2] == "items" else v, st, stmt)
                return k
            if f[0] == "." and f[2] == "items" and not it[2]:
                d = f[1]
                k = self.mk_elem(d, st)
                self.assign(target, ("tuple", (k, ("[]", d, k))), st, stmt)
                return k
            if f[0] == "." and f[2] == "values" and not it[2]:
                d = f[1]
                k = self.mk_elem(d, st)
                e = ("[]", d, k)
                self.assign(target, e, st, stmt)
                return e
        base = strip_iter(it)
        elem = self.mk_elem(base, st)
        self.assign(target, elem, st, stmt)
        return elem

    def mk_elem(self, base, st):
        if base[0] == "comp" and base[2] is not None:
            if base[1] == "dict" and base[2][0] == "tuple" and len(base[2][1]) == 2:
                return base[2][1][0]
            return base[2]
        n = sum(1 for x in st.active if x == base)
        st.active = st.active + (base,)
        return ("elem", base) if n == 0 else ("elem", base, n)

    def havoc(self, st, names, node):
        for n in names:
            if n in st.env:
                v = st.env[n]
                if v[0] == "new" or v in (TRUE, FALSE, NONE):
                    continue
                st.env[n] = ("phi", n)

    def s_For(self, stmt, states, out):
        for s in states:
            for s1, it in self.eval(stmt.iter, s.copy()):
                self.emit(s1, "loop", it, node=stmt)
                it = unwrap_literal(it)
                if it[0] in ("tuple", "list") and 0 < len(it[1]) <= 6 and all(x[0] != "*" for x in it[1]):
                    self._unrolled(stmt, it, s1, out)
                    continue
                active0 = s1.active
                s0 = s1
                body_names = assigned_names(stmt.body)
                # entry of iteration: variables assigned in the body are unknown (loop-carried)
                carry = [s0.copy()]
                posts = []
                for rnd in range(2):
                    entry = []
                    for c in carry:
                        c = c.copy()
                        if rnd > 0:
                            pass
                        c.active = active0
                        elem = self.bind_iter(stmt.target, it, c, stmt)
                        n0 = len(c.trace)
                        self.emit(c, "iter", it, node=stmt)
                        entry.append((c, n0, elem))
                    carry = []
                    for c, n0, elem in entry:
                        o = self.exec_block(stmt.body, [c])
                        for kind, lst in (("next", o.normal + o.cont), ("break", o.brk)):
                            for x in lst:
                                if rnd == 0 or True:
                                    self.iterations.append(Iteration(stmt, it, n0, kind, x, None, self.fn, elem))
                        for x, v, n in o.ret:
                            self.iterations.append(Iteration(stmt, it, n0, "return", x, v, self.fn, elem))
                            out.ret.append((x, v, n))
                        for x, v, n in o.exc:
                            self.iterations.append(Iteration(stmt, it, n0, "raise", x, v, self.fn, elem))
                            out.exc.append((x, v, n))
                        nxt = []
                        for x in self.prune(o.normal + [c_.copy() for c_ in o.cont], stmt, True):
                            x = x.copy()
                            x.active = active0
                            nxt.append(x)
                        for x in o.brk:
                            x = x.copy()
                            x.active = active0
                            out.normal.append(x)
                        posts += nxt
                    if rnd == 0:
                        # loop-carried second round: facts about elem terms forgotten, carried locals kept
                        second = []
                        for x in posts:
                            y = self.age(x, active0, s0, body_names)
                            if y.key() != s0.key():
                                second.append(y)
                        # a second iteration only matters when locals / heap carried over changed
                        carry = self.dedup([y for y in second if self._carries(y, s0, body_names, stmt)])
                        if not carry:
                            break
                done = self.dedup(([] if self.runs(it) else [s0.copy()]) + posts)
                for d in done:
                    d.facts = {k: v for k, v in d.facts.items() if not mentions(k, lambda t: t[0] == "elem")}
                done = self.dedup(done)
                if stmt.orelse:
                    o = self.exec_block(stmt.orelse, done)
                    out.normal += o.normal
                    out.brk += o.brk
                    out.cont += o.cont
                    out.ret += o.ret
                    out.exc += o.exc
                else:
                    out.normal += done

    s_AsyncFor = s_For

    def runs(self, it):
        """the rule assumes that there is something to iterate over"""
        return self.nonempty is not None and (self.nonempty.search(show(it)) or self.nonempty.search(show(strip_iter(it)))) is not None

    def age(self, x, active0, s0, body_names):
        """carry a state into the next iteration: what its flags hold about this iteration's elements is about the previous ones"""
        def ren(t):
            if not isinstance(t, tuple):
                return t
            if t and t[0] == "elem" and t[1] not in active0:
                return ("prev", t[1])
            r = tuple(ren(u) for u in t)
            return t if r == t else r
        y = x.copy()
        flags = {n for n in body_names if n in y.env and s0.env.get(n) in (TRUE, FALSE)}
        for n in flags:
            y.env[n] = ren(y.env[n])
        held = {t for n in flags for t in bool_parts(y.env[n])}
        held = {t for t in held if mentions(t, lambda u: u[0] == "prev")}
        facts = {}
        for k, v in y.facts.items():
            if not mentions(k, lambda t: t[0] == "elem"):
                facts[k] = v
            elif held:
                k2 = ren(k)
                if k2 in held or (k2[0] == "truth" and k2[1] in held):
                    facts[k2] = v
        y.facts = facts
        return y

    def _unrolled(self, stmt, it, s1, out):
        """a loop over a literal sequence: one pass per element, in order"""
        cur = [s1]
        for el in it[1]:
            nxt = []
            for c in cur:
                c = c.copy()
                n0 = len(c.trace)
                self.assign(stmt.target, el, c, stmt)
                self.emit(c, "iter", it, node=stmt)
                o = self.exec_block(stmt.body, [c])
                for kind, lst in (("next", o.normal + o.cont), ("break", o.brk)):
                    for x in lst:
                        self.iterations.append(Iteration(stmt, it, n0, kind, x, None, self.fn, el))
                for x, v, n in o.ret:
                    self.iterations.append(Iteration(stmt, it, n0, "return", x, v, self.fn, el))
                    out.ret.append((x, v, n))
                for x, v, n in o.exc:
                    self.iterations.append(Iteration(stmt, it, n0, "raise", x, v, self.fn, el))
                    out.exc.append((x, v, n))
                nxt += o.normal + [c_.copy() for c_ in o.cont]
                out.normal += o.brk
            cur = self.dedup(nxt)
        if stmt.orelse:
            o = self.exec_block(stmt.orelse, cur)
            out.normal += o.normal
            out.brk += o.brk
            out.cont += o.cont
            out.ret += o.ret
            out.exc += o.exc
        else:
            out.normal += cur

    def _carries(self, y, s0, body_names, stmt):
        used = {n.id for n in ast.walk(stmt) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)}
        for n in body_names & used:
            if n in s0.env and y.env.get(n) != s0.env.get(n):
                return True
        return y.heap != s0.heap

    def s_While(self, stmt, states, out):
        cur = self._copyall(states)
        done = []
        for rnd in range(2):
            ts, fs = [], []
            for s in cur:
                t, f = self.branch2(stmt.test, s.copy())
                ts += t
                fs += f
            done += fs
            if not ts:
                break
            ts = self.dedup(ts)
            nxt = []
            for t in ts:
                t = t.copy()
                n0 = len(t.trace)
                self.emit(t, "while", const(stmt.lineno), node=stmt)
                o = self.exec_block(stmt.body, [t])
                for kind, lst in (("next", o.normal + o.cont), ("break", o.brk)):
                    for x in lst:
                        self.iterations.append(Iteration(stmt, None, n0, kind, x, None, self.fn, None))
                for x, v, n in o.ret:
                    self.iterations.append(Iteration(stmt, None, n0, "return", x, v, self.fn, None))
                    out.ret.append((x, v, n))
                out.exc += o.exc
                out.normal += o.brk
                nxt += o.normal + o.cont
            names = assigned_names(stmt.body)
            cur = []
            for x in self.dedup(self.prune([c_.copy() for c_ in nxt], stmt, True)):
                x = x.copy()
                x.facts = {}
                if rnd >= 0:
                    self.havoc(x, names, stmt)
                cur.append(x)
            cur = self.dedup(cur)
        # after the last round: exit states
        for s in cur:
            t, f = self.branch2(stmt.test, s.copy())
            done += f
        done = self.dedup(done)
        if stmt.orelse:
            o = self.exec_block(stmt.orelse, done)
            out.normal += o.normal
            out.ret += o.ret
            out.exc += o.exc
            out.brk += o.brk
            out.cont += o.cont
        else:
            out.normal += done

    # ------------------------------------------------------------- try / with
    def _named_classes(self, h, states):
        """`except v` where v is a local that is bound to known classes"""
        if not isinstance(h.type, ast.Name) or not states:
            return h
        ts = {s.env.get(h.type.id) for s in states}
        t = ts.pop()
        if ts or t is None:
            return h
        cs = t[1] if t[0] == "tuple" else (t,)
        if not cs or any(c[0] != "g" or not isinstance(c[1], str) or not c[1].isidentifier() for c in cs):
            return h
        n = [ast.copy_location(ast.Name(c[1], ast.Load()), h.type) for c in cs]
        ty = n[0] if t[0] != "tuple" else ast.copy_location(ast.Tuple(n, ast.Load()), h.type)
        return ast.copy_location(ast.ExceptHandler(ty, h.name, h.body), h)

    def s_Try(self, stmt, states, out):
        ob = self.exec_block(stmt.body, self._copyall(states))
        inner = Out()
        inner.brk, inner.cont, inner.ret = ob.brk, ob.cont, ob.ret
        if stmt.orelse:
            oe = self.exec_block(stmt.orelse, ob.normal)
            inner.normal += oe.normal
            inner.brk += oe.brk
            inner.cont += oe.cont
            inner.ret += oe.ret
            inner.exc += oe.exc
        else:
            inner.normal += ob.normal
        exc = ob.exc
        if not exc and stmt.handlers and not self.implicit_exc and self.onlyraise is None:
            # rules that do not model implicit exceptions still need the handlers explored
            exc = [(s.copy(), ("exc?",), stmt) for s in states]
        remaining = exc
        for h in stmt.handlers:
            h = self._named_classes(h, states)
            nxt = []
            entry = []
            catch_all = h.type is None or any(
                isinstance(n, ast.Name) and n.id in ("Exception", "BaseException") for n in ast.walk(h.type))
            base_all = h.type is None or any(
                isinstance(n, ast.Name) and n.id == "BaseException" for n in ast.walk(h.type))
            for s, v, n in remaining:
                may, must = self._catches(h, v, catch_all)
                if may:
                    s2 = s.copy()
                    if h.name:
                        s2.env[h.name] = ("exc", ast.unparse(h.type) if h.type is not None else "")
                    self.emit(s2, "except", const(ast.unparse(h.type) if h.type is not None else ""), v, node=h)
                    entry.append(s2)
                if not must:
                    nxt.append((s, v, n))
            if entry:
                oh = self.exec_block(h.body, self.dedup(entry))
                inner.normal += oh.normal
                inner.brk += oh.brk
                inner.cont += oh.cont
                inner.ret += oh.ret
                inner.exc += oh.exc
            remaining = nxt
        inner.exc += remaining
        if stmt.finalbody:
            self._finally(stmt, inner, out)
        else:
            for f in ("normal", "brk", "cont", "ret", "exc"):
                setattr(out, f, getattr(out, f) + getattr(inner, f))

    s_TryStar = s_Try

    def _catches(self, h, v, catch_all):
        if catch_all:
            if v and v[0] == "exc?base":
                return h.type is None or "BaseException" in ast.unparse(h.type), False
            return True, True
        names = {n.id if isinstance(n, ast.Name) else n.attr for n in ast.walk(h.type)
                 if isinstance(n, (ast.Name, ast.Attribute))}
        if v and v[0] == "call" and v[1][0] == "g":
            if v[1][1] in names:
                return True, True
            return False, False
        return True, False

    def _finally(self, stmt, inner, out):
        def fin(pairs, rebuild):
            for item in pairs:
                s = item[0] if isinstance(item, tuple) else item
                o = self.exec_block(stmt.finalbody, [s.copy()])
                for x in o.normal:
                    rebuild(x, item)
                out.brk += o.brk
                out.cont += o.cont
                out.ret += o.ret
                out.exc += o.exc

        fin(self.dedup(inner.normal), lambda x, i: out.normal.append(x))
        fin(self.dedup(inner.brk), lambda x, i: out.brk.append(x))
        fin(self.dedup(inner.cont), lambda x, i: out.cont.append(x))
        fin(inner.ret, lambda x, i: out.ret.append((x, i[1], i[2])))
        fin(inner.exc, lambda x, i: out.exc.append((x, i[1], i[2])))

    def s_With(self, stmt, states, out):
        self._with(stmt, 0, self._copyall(states), out)

    s_AsyncWith = s_With

    def _with(self, stmt, i, states, out):
        if i == len(stmt.items):
            o = self.exec_block(stmt.body, states)
            for f in ("normal", "brk", "cont", "ret", "exc"):
                setattr(out, f, getattr(out, f) + getattr(o, f))
            return
        item = stmt.items[i]
        for s in states:
            fi, bound = self._inlinable_cm(item.context_expr, s)
            if fi is not None:
                self._inline_cm(fi, bound, item, stmt, i, s, out)
                continue
            for s2, cm in self.eval(item.context_expr, s.copy()):
                self.emit(s2, "enter", cm, node=item.context_expr)
                if item.optional_vars is not None:
                    self.assign(item.optional_vars, ("entered", cm), s2, stmt)
                inner = Out()
                self._with(stmt, i + 1, [s2], inner)
                suppress = cm[0] == "call" and show(cm[1]).split(".")[-1] in ("suppress",) and bool(cm[2])

                def ex(x):
                    x = x.copy()
                    self.emit(x, "exit", cm, node=item.context_expr)
                    return x
                out.normal += [ex(x) for x in inner.normal]
                out.brk += [ex(x) for x in inner.brk]
                out.cont += [ex(x) for x in inner.cont]
                out.ret += [(ex(x), v, n) for x, v, n in inner.ret]
                for x, v, n in inner.exc:
                    x = ex(x)
                    if suppress:
                        out.normal.append(x)
                    out.exc.append((x, v, n)) if not suppress else None

    def _inlinable_cm(self, expr, st):
        if not isinstance(expr, ast.Call):
            return None, None
        fi = self.ix.resolve_call(self._canon_func(expr.func), self.fn)
        if fi is None or not fi.is_ctxmgr or not self._should_inline(fi):
            return None, None
        return fi, expr

    def _inline_cm(self, fi, call, item, stmt, i, s, out):
        for s2, fterm, args, kws in self.eval_call_parts(call, s.copy()):
            binding = self.bind_params(fi, fterm, args, kws, s2)
            fn_caller = self.fn

            def on_yield(st, val):
                # run with-body in caller frame
                callee_env = st.frames.pop()
                self.fnstack.append(fn_caller)
                saved_cb = self.yield_cb
                self.yield_cb = []
                try:
                    if item.optional_vars is not None:
                        self.assign(item.optional_vars, val, st, stmt)
                    inner = Out()
                    self._with(stmt, i + 1, [st], inner)
                finally:
                    self.fnstack.pop()
                    self.yield_cb = saved_cb
                res = []
                for x in inner.normal:
                    x = x.copy()
                    x.frames.append(dict(callee_env))
                    res.append((x, NONE))
                for kind, lst in (("brk", inner.brk), ("cont", inner.cont)):
                    for x in lst:
                        x = x.copy()
                        x.frames.append(dict(callee_env))
                        pend.append((kind, x, None, None))
                for x, v, n in inner.ret:
                    x = x.copy()
                    x.frames.append(dict(callee_env))
                    self.excsinks[-1].append((x, ("genexit", "ret", v, id(n)), n))
                for x, v, n in inner.exc:
                    x = x.copy()
                    x.frames.append(dict(callee_env))
                    self.excsinks[-1].append((x, v, n))
                return res

            pend = []
            s2.frames.append(binding)
            self.fnstack.append(fi)
            self.yield_cb.append(on_yield)
            self.inlined.add(fi.key)
            try:
                o = self.exec_block(fi.node.body, [s2])
            finally:
                self.fnstack.pop()
                self.yield_cb.pop()

            def popf(x):
                x = x.copy()
                x.frames.pop()
                return x
            out.normal += [popf(x) for x in o.normal] + [popf(x) for x, v, n in o.ret]
            for x, v, n in o.exc:
                if v[0] == "genexit":
                    out.ret.append((popf(x), v[2], n))
                else:
                    out.exc.append((popf(x), v, n))
            for kind, x, v, n in pend:
                getattr(out, kind).append(popf(x))

    # -------------------------------------------------------------- branching
    def branch(self, test, st, pol):
        t, f = self.branch2(test, st)
        return t if pol else f

    def branch2(self, test, st):
        """-> (states where true, states where false)"""
        if isinstance(test, ast.BoolOp):
            if isinstance(test.op, ast.And):
                cur, fs = [st], []
                for v in test.values:
                    nt = []
                    for s in cur:
                        t, f = self.branch2(v, s)
                        nt += t
                        fs += f
                    cur = nt
                return cur, fs
            cur, ts = [st], []
            for v in test.values:
                nf = []
                for s in cur:
                    t, f = self.branch2(v, s)
                    ts += t
                    nf += f
                cur = nf
            return ts, cur
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            t, f = self.branch2(test.operand, st)
            return f, t
        if isinstance(test, ast.Compare) and len(test.ops) > 1:
            parts = []
            left = test.left
            for op, right in zip(test.ops, test.comparators):
                parts.append(ast.copy_location(ast.Compare(left, [op], [right]), test))
                left = right
            return self.branch2(ast.copy_location(ast.BoolOp(ast.And(), parts), test), st)
        ts, fs = [], []
        for s2, v in self.eval(test, st.copy()):
            t, f = self.assume2(s2, v)
            ts += t
            fs += f
        return ts, fs

    def assume2(self, st, term):
        k = term[0]
        if k == "const":
            return ([st], []) if term[2] else ([], [st])
        if k == "not":
            t, f = self.assume2(st, term[1])
            return f, t
        if k == "and":
            cur, fs = [st], []
            for x in term[1]:
                nt = []
                for s in cur:
                    t, f = self.assume2(s, x)
                    nt += t
                    fs += f
                cur = nt
            return cur, fs
        if k == "or":
            cur, ts = [st], []
            for x in term[1]:
                nf = []
                for s in cur:
                    t, f = self.assume2(s, x)
                    ts += t
                    nf += f
                cur = nf
            return ts, cur
        if k in ("tuple", "list", "set"):
            return ([st], []) if term[1] else ([], [st])
        if k in ("localfn", "localcls", "lambda"):
            return [st], []
        if k == "call" and term[1] == ("g", "bool") and len(term[2]) == 1:
            return self.assume2(st, term[2][0])
        if k == "ifexp":
            t, f = self.assume2(st, term[1])
            ts, fs = [], []
            for s in t:
                a, b = self.assume2(s, term[2])
                ts += a
                fs += b
            for s in f:
                a, b = self.assume2(s, term[3])
                ts += a
                fs += b
            return ts, fs
        atom, pol = canon_atom(term)
        if atom is None:
            return ([st], []) if pol else ([], [st])
        d = self.decide(atom, st)
        if d is not None:
            return ([st], []) if d == pol else ([], [st])
        a, b = st.copy(), st.copy()
        a.facts[atom] = pol
        b.facts[atom] = not pol
        return [a], [b]

    def decide(self, atom, st):
        if atom in st.facts:
            return st.facts[atom]
        r = self.oracle(atom, st)
        if r is not None:
            return r
        if atom[0] == "cmp":
            op, l, r_ = atom[1], atom[2], atom[3]
            if op == "<":
                if l == r_:
                    return False
                o = st.facts.get(("cmp", "<", r_, l))
                if o is True:
                    return False
                if st.facts.get(mk_eq(l, r_)) is True:
                    return False
            elif op in ("==", "is"):
                if l == r_:
                    return True
                if st.facts.get(("cmp", "<", l, r_)) is True or st.facts.get(("cmp", "<", r_, l)) is True:
                    return False
                if op == "is" and NONE in (l, r_):
                    o = r_ if l == NONE else l
                    if st.facts.get(("truth", o)) is True:
                        return False
                    if o[0] in ("new", "tuple", "list", "set", "dict", "bin", "fstr", "comp"):
                        return False
                if op == "==" and is_const(l) and is_const(r_):
                    return l[2] == r_[2]
                # x == c1 known -> x == c2 false
                c, x = (l, r_) if is_const(l) else ((r_, l) if is_const(r_) else (None, None))
                if c is None:
                    def enumlike(t):
                        return t[0] == "." and t[1][0] == "g" and t[1][1][:1].isupper()
                    c, x = (l, r_) if enumlike(l) else ((r_, l) if enumlike(r_) else (None, None))
                if c is not None:
                    for k, v in st.facts.items():
                        if v and k[0] == "cmp" and k[1] == op and x in (k[2], k[3]):
                            o = k[3] if k[2] == x else k[2]
                            if o != c and o[0] == c[0]:
                                return False
        elif atom[0] == "truth":
            if st.facts.get(mk_is(atom[1], NONE)) is True:
                return False
            if atom[1][0] == "comp" and atom[1][1] != "gen" and atom[1][2] is None:
                return False    # no element passes the filters
        return None

    # ------------------------------------------------------------ expressions
    def eval(self, e, st):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            return [(st, ("opaque", type(e).__name__, getattr(e, "lineno", 0), getattr(e, "col_offset", 0)))]
        return m(e, st)

    def eval_list(self, exprs, st):
        """-> list of (state, tuple of terms)"""
        acc = [(st, ())]
        for e in exprs:
            nxt = []
            for s, vs in acc:
                for s2, v in self.eval(e, s):
                    nxt.append((s2, vs + (v,)))
            acc = nxt
        return acc

    def e_Constant(self, e, st):
        if e.value is Ellipsis:
            return [(st, ("const", "ellipsis", "..."))]
        return [(st, const(e.value))]

    def e_Name(self, e, st):
        n = e.id
        for f in (st.env,):
            if n in f:
                v = f[n]
                return [(st, v)]
        # global: resolve import alias to original name
        m = self.fn.module
        if n in m.imports:
            mod, orig = m.imports[n]
            n = orig or mod
        v, home = self.ix.new_constant(m, e.id)
        if v is not None and len(self.constdepth) < 4:
            return [(st, self.constant(v, home))]
        n = self.ix.renames.get(n, n)
        place = ("g", n)
        if place in st.heap:
            return [(st, st.heap[place])]
        return [(st, place)]

    def constant(self, v, home):
        """a constant that was introduced later stands for its value"""
        fi = self.fn
        fake = type(fi)("<const>", "<const>", v, None, home, None)
        self.fnstack.append(fake)
        self.constdepth.append(1)
        try:
            return self.quiet_eval(v, State([{}]))
        finally:
            self.fnstack.pop()
            self.constdepth.pop()

    def e_Attribute(self, e, st):
        out = []
        attr = self.ix.renames.get(e.attr, e.attr)
        for s, b in self.eval(e.value, st):
            place = (".", b, attr)
            if self._snapped(place):
                out.append((s, ("snap", place, len(s.trace))))
                continue
            if place in s.heap:
                out.append((s, s.heap[place]))
                continue
            if b[0] in ("var", "g") and len(self.constdepth) < 4:
                ci = self.ix.owner_class(self.fn) if b == ("var", "self") else self.ix.classes.get(b[1]) if b[0] == "g" else None
                cv, home = self.ix.new_class_constant(ci, e.attr) if ci is not None else (None, None)
                if cv is not None:
                    out.append((s, self.constant(cv, home.module if hasattr(home, "module") else home)))
                    continue
            # new property helper -> inline
            fi = None
            hits = self.ix.by_name.get(e.attr)
            if hits and any(h.is_property and (not self.ix.in_vocab(h) or self._qual(h) in self.inline) for h in hits):
                fi = self.ix.resolve_call(e, self.fn)
            if fi is not None and fi.is_property and self._should_inline(fi):
                out += self.do_inline(fi, place, (), (), s, e)
            else:
                out.append((s, place))
        return out

    COPIES = {"set", "frozenset", "copy", "union", "intersection", "difference", "dict", "list"}

    def _snapped(self, place):
        return place[2] in self.snap and place[1] == ("var", "self")

    def stamp(self, v, f, args, kws, s, node):
        """with snapshots: a copy is an object of its own, with what the original contains right now"""
        if not self.snap or f[0] not in ("g", "."):
            return v
        nm = f[2] if f[0] == "." else f[1]
        if nm not in self.COPIES:
            return v
        if f[0] == "g" and not args and not kws:
            return ("new", nm, getattr(node, "lineno", 0), getattr(node, "col_offset", 0), len(s.trace))
        return ("snap", v, len(s.trace))

    def e_Subscript(self, e, st):
        out = []
        for s, b in self.eval(e.value, st):
            for s2, i in self.eval(e.slice, s):
                place = ("[]", b, i)
                if place in s2.heap:
                    out.append((s2, s2.heap[place]))
                elif b[0] in ("tuple", "list") and is_const(i) and isinstance(i[2], int) and -len(b[1]) <= i[2] < len(b[1]):
                    out.append((s2, b[1][i[2]]))
                else:
                    if self.implicit_exc:
                        self.excsinks[-1].append((s2.copy(), ("exc?",), e))
                    self.emit(s2, "getitem", b, i, node=e)
                    out.append((s2, place))
        return out

    def e_Slice(self, e, st):
        acc = [(st, ())]
        for x in (e.lower, e.upper, e.step):
            nxt = []
            for s, vs in acc:
                if x is None:
                    nxt.append((s, vs + (None,)))
                else:
                    for s2, v in self.eval(x, s):
                        nxt.append((s2, vs + (v,)))
            acc = nxt
        return [(s, ("slice",) + vs) for s, vs in acc]

    def e_Tuple(self, e, st):
        return [(s, ("tuple", vs)) for s, vs in self.eval_list(e.elts, st)]

    def e_List(self, e, st):
        return [(s, ("list", vs)) for s, vs in self.eval_list(e.elts, st)]

    def e_Set(self, e, st):
        return [(s, ("set", vs)) for s, vs in self.eval_list(e.elts, st)]

    def e_Dict(self, e, st):
        acc = [(st, ())]
        for k, v in zip(e.keys, e.values):
            nxt = []
            for s, items in acc:
                ks = [(s, None)] if k is None else self.eval(k, s)
                for s2, kv in ks:
                    for s3, vv in self.eval(v, s2):
                        nxt.append((s3, items + ((kv, vv),)))
            acc = nxt
        return [(s, ("dict", items)) for s, items in acc]

    def e_Starred(self, e, st):
        return [(s, ("*", v)) for s, v in self.eval(e.value, st)]

    def e_BinOp(self, e, st):
        op = OPS.get(type(e.op), "?")
        out = []
        for s, l in self.eval(e.left, st):
            for s2, r in self.eval(e.right, s):
                out.append((s2, ("bin", op, l, r)))
        return out

    def e_UnaryOp(self, e, st):
        if isinstance(e.op, ast.Not):
            return [(s, mk_not(v)) for s, v in self.eval(e.operand, st)]
        if isinstance(e.op, ast.USub):
            return [(s, const(-v[2]) if is_const(v) and isinstance(v[2], (int, float)) else ("neg", v))
                    for s, v in self.eval(e.operand, st)]
        return [(s, ("un", v)) for s, v in self.eval(e.operand, st)]

    def e_BoolOp(self, e, st):
        op = "and" if isinstance(e.op, ast.And) else "or"
        simple = not any(isinstance(n, (ast.Call, ast.NamedExpr, ast.Yield, ast.Await, ast.YieldFrom))
                         for v in e.values[1:] for n in ast.walk(v))
        if simple:
            return [(s, (op, vs)) for s, vs in self.eval_list(e.values, st)]
        # short-circuit with effects
        results, cur = [], [(st, None)]
        for i, v in enumerate(e.values):
            nxt = []
            for s, _ in cur:
                for s2, t in self.eval(v, s):
                    if i == len(e.values) - 1:
                        results.append((s2, t))
                        continue
                    ts, fs = self.assume2(s2, t)
                    stop, go = (fs, ts) if op == "and" else (ts, fs)
                    for x in stop:
                        results.append((x, t if not self._boolish(t) else (FALSE if op == "and" else TRUE)))
                    nxt += [(x, None) for x in go]
            cur = nxt
        return results

    def _boolish(self, t):
        return t[0] in ("cmp", "not", "and", "or") and t[0] != "or" or (t[0] == "call" and t[1] == ("g", "isinstance"))

    def e_Compare(self, e, st):
        if len(e.ops) == 1:
            out = []
            for s, l in self.eval(e.left, st):
                for s2, r in self.eval(e.comparators[0], s):
                    out.append((s2, mk_cmp(CMPS[type(e.ops[0])], l, r)))
            return out
        out = []
        for s, vs in self.eval_list([e.left] + e.comparators, st):
            out.append((s, ("and", tuple(mk_cmp(CMPS[type(op)], vs[i], vs[i + 1]) for i, op in enumerate(e.ops)))))
        return out

    def e_IfExp(self, e, st):
        out = []
        t, f = self.branch2(e.test, st)
        for s in t:
            out += self.eval(e.body, s)
        for s in f:
            out += self.eval(e.orelse, s)
        return out

    def e_NamedExpr(self, e, st):
        out = []
        for s, v in self.eval(e.value, st):
            s.env[e.target.id] = v
            out.append((s, v))
        return out

    def e_Await(self, e, st):
        out = []
        for s, v in self.eval(e.value, st):
            if self.implicit_exc:
                self.excsinks[-1].append((s.copy(), ("exc?base",), e))
            out.append((s, v))
        return out

    def e_Yield(self, e, st):
        out = []
        for s, v in (self.eval(e.value, st) if e.value is not None else [(st, NONE)]):
            if self.yield_cb and self.fn.is_ctxmgr:
                out += self.yield_cb[-1](s, v)
                continue
            self.emit(s, "yield", v, node=e)
            for a in self.volatile:
                base, a = (("g", a.split(".")[0]), a.split(".")[1]) if "." in a else (("var", "self"), a)
                s.heap[(".", base, a)] = (".", base, a + "'")
            if self.implicit_exc or self.onlyraise is not None and "yield" in self.onlyraise:
                self.excsinks[-1].append((s.copy(), ("exc?",), e))
                self.excsinks[-1].append((s.copy(), ("exc?base",), e))
            out.append((s, ("yielded", getattr(e, "lineno", 0))))
        return out

    def e_YieldFrom(self, e, st):
        out = []
        for s, v in self.eval(e.value, st):
            self.emit(s, "yieldfrom", v, node=e)
            if self.implicit_exc:
                self.excsinks[-1].append((s.copy(), ("exc?",), e))
            out.append((s, ("yielded", getattr(e, "lineno", 0))))
        return out

    def e_Lambda(self, e, st):
        # evaluate the body once so that events inside are visible as lambda-guarded
        return [(st, ("lambda", ast.unparse(e), getattr(e, "lineno", 0), getattr(e, "col_offset", 0)))]

    def e_JoinedStr(self, e, st):
        cur = [(st, ())]
        for v in e.values:
            if isinstance(v, ast.FormattedValue):
                cur = [(s2, ps + (t,)) for s, ps in cur for s2, t in self.eval(v.value, s)]
            else:
                cur = [(s, ps + (const(v.value),)) for s, ps in cur]
        return [(s, ("fstr", ps)) for s, ps in cur]

    # -------------------------------------------------------- comprehensions
    def _comp(self, e, st, kind, elts):
        """Generic comprehension: yields events 'collect' guarded by the conditions."""
        res = self._comp_rec(e, e.generators, 0, [st.copy()], kind, elts, (), ())
        # value: after evaluating, state = original state plus (union of) traces
        iters, conds, eltt = res
        return iters, conds, eltt

    def _comp_rec(self, e, gens, gi, states, kind, elts, iters, conds):
        raise NotImplementedError

    def comp(self, e, st, kind, elts):
        saved_env = dict(st.env)
        results = []
        entry_active = st.active

        def rec(gi, s, iters, n0, chain):
            g = gens[gi]
            outs = []
            for s1, it in self.eval(g.iter, s):
                s1 = s1.copy()
                self.emit(s1, "loop", it, node=e)
                elem = self.bind_iter(g.target, it, s1, e)
                m0 = len(s1.trace)
                chain2 = chain + [(it, elem, m0, g)]
                ts, fs = [s1], []
                for c in g.ifs:
                    nt = []
                    for x in ts:
                        t, f = self.branch2(c, x)
                        nt += t
                        fs += f
                    ts = nt
                for x in fs:
                    for (it_, el_, k0, g_) in chain2:
                        self.iterations.append(Iteration(e, it_, k0, "next", x, None, self.fn, el_))
                    outs.append((x, iters + (strip_iter(it),), None))
                for x in ts:
                    if gi + 1 < len(gens):
                        outs += rec(gi + 1, x, iters + (strip_iter(it),), n0, chain2)
                    else:
                        for x2, vs in self.eval_list(elts, x):
                            x2 = x2.copy()
                            self.emit(x2, "collect", ("id", kind, e.lineno, e.col_offset), vs[0] if len(vs) == 1 else ("tuple", vs), node=e)
                            for (it_, el_, k0, g_) in chain2:
                                self.iterations.append(Iteration(e, it_, k0, "collect", x2, None, self.fn, el_))
                            outs.append((x2, iters + (strip_iter(it),), vs[0] if len(vs) == 1 else ("tuple", vs)))
            return outs

        gens = e.generators
        outs = rec(0, st.copy(), (), len(st.trace), [])
        # resulting states: no iteration, or any of the iteration traces
        iters = ()
        elt = None
        for _, its, v in outs:
            if len(its) > len(iters):
                iters = its
            if v is not None and elt is None:
                elt = v
        conds = []
        for g in gens:
            for c in g.ifs:
                conds.append(c)
        # conditions as terms (best effort: single evaluation)
        cterms = ()
        if conds:
            s = st.copy()
            try:
                for g in gens:
                    r = self.quiet_eval(g.iter, s)
                    self.bind_iter(g.target, r, s, e)
                    for c in g.ifs:
                        cterms += (self.quiet_eval(c, s),)
            except AnalysisBroken:
                pass
        term = ("comp", kind, elt, iters, cterms, ("id", e.lineno, e.col_offset))
        final = {}
        base = st.copy()
        cands = [base]
        for x, _, v in outs:
            y = x.copy()
            y.frames[-1] = dict(saved_env)
            for n in list(x.env):
                pass
            y.active = entry_active
            y.facts = dict(st.facts)
            cands.append(y)
        n0 = len(st.trace)
        if all(e.kind == "collect" for c in cands for e in c.trace[n0:]) and all(c.heap == st.heap for c in cands):
            # only element collection happens: one state, all feasible collections recorded
            seen, tr = set(), st.trace
            for c in cands:
                for e in c.trace[n0:]:
                    if e.key() not in seen:
                        seen.add(e.key())
                        tr = tr + (e,)
            base.trace = tr
            base.frames[-1] = dict(saved_env)
            base.active = entry_active
            return [(base, term)]
        for c in cands:
            final[c.key()] = c
        return [(c, term) for c in final.values()]

    def quiet_eval(self, e, st):
        sv_iter, sv_int = self.iterations, self.interest
        sv_any = self.unroll_any
        self.iterations, self.interest, self.unroll_any = [], (lambda ev: False), False
        self.excsinks.append([])
        try:
            r = self.eval(e, st.copy())
        finally:
            self.iterations, self.interest, self.unroll_any = sv_iter, sv_int, sv_any
            self.excsinks.pop()
        return r[0][1] if r else ("phi", "none")

    def e_ListComp(self, e, st):
        return self.comp(e, st, "list", [e.elt])

    def e_SetComp(self, e, st):
        r = self.comp(e, st, "set", [e.elt])
        if self.snap:
            r = [(s, ("snap", v, len(s.trace))) for s, v in r]
        return r

    def e_GeneratorExp(self, e, st):
        return self.comp(e, st, "gen", [e.elt])

    def e_DictComp(self, e, st):
        r = self.comp(e, st, "dict", [e.key, e.value])
        if self.snap:
            r = [(s, ("snap", v, len(s.trace))) for s, v in r]
        return r

    # ------------------------------------------------------------------ calls
    def _qual(self, fi):
        return fi.oldkey.split(":")[1].split("#")[0]

    def _should_inline(self, fi):
        q = self._qual(fi)
        if q in self.opaque or fi.oldkey in self.opaque:
            return False
        if fi in self.fnstack or len(self.fnstack) > self.max_depth:
            return False
        if q in self.inline or fi.oldkey in self.inline:
            return True
        if self.inline_if is not None and self.inline_if(fi):
            return True
        return not self.ix.in_vocab(fi)

    def _canon_func(self, func):
        return func

    def eval_call_parts(self, e, st):
        """-> list of (state, func term, args, kws)"""
        res = []
        if isinstance(e.func, ast.Attribute):
            fts = []
            attr = self.ix.renames.get(e.func.attr, e.func.attr)
            for s, b in self.eval(e.func.value, st):
                place = (".", b, attr)
                fts.append((s, s.heap.get(place, place)))
        else:
            fts = self.eval(e.func, st)
        for s, f in fts:
            for s2, args in self.eval_list(e.args, s):
                acc = [(s2, ())]
                for kw in e.keywords:
                    nxt = []
                    for s3, kws in acc:
                        for s4, v in self.eval(kw.value, s3):
                            # what came in as **kwargs is passed on as it came
                            if kw.arg is None and v[0] == "dict" and isinstance(kw.value, ast.Name) and all(a is not None and is_const(a) and isinstance(a[2], str) for a, _ in v[1]):
                                nxt.append((s4, kws + tuple((a[2], b) for a, b in v[1])))
                                continue
                            nxt.append((s4, kws + ((kw.arg, v),)))
                    acc = nxt
                for s3, kws in acc:
                    res.append((s3, f, args, tuple(sorted(kws, key=lambda x: (x[0] or "", repr(x[1]))))))
        return res

    def e_Call(self, e, st):
        # any()/all() over a generator expression = existential / universal loop
        if (self.unroll_any and isinstance(e.func, ast.Name) and e.func.id in ("any", "all") and len(e.args) == 1
                and isinstance(e.args[0], (ast.GeneratorExp, ast.ListComp, ast.SetComp)) and e.func.id not in st.env):
            return self.e_anyall(e, st)
        out = []
        fi = self.ix.resolve_call(self._canon_func(e.func), self.fn)
        if fi is not None and not self._should_inline(fi):
            fi = None
        for s, f, args, kws in self.eval_call_parts(e, st):
            s = s.copy()
            if f == ("g", "cast") and len(args) == 2:
                out.append((s, args[1]))
                continue
            if f[0] == "." and f[2] == "cast" and len(args) == 2 and show(f[1]) == "typing":
                out.append((s, args[1]))
                continue
            if f in (("g", "list"), ("g", "tuple")) and len(args) == 1 and not kws and args[0][0] in ("tuple", "list") and args[0][1]:
                # a copy of a display
                out.append((s, (f[1], args[0][1])))
                continue
            if f == ("g", "len") and len(args) == 1 and args[0][0] in ("tuple", "list"):
                out.append((s, const(len(args[0][1]))))
                continue
            self.emit(s, "call", f, args, kws, node=e)
            if f[0] == "lambda":
                pass
            if fi is not None:
                out += self.do_inline(fi, f, args, kws, s, e)
                continue
            if f[0] == "localfn":
                lf = None
                fx = self.fn
                while fx is not None and lf is None:
                    lf = fx.nested.get(f[1])
                    fx = fx.parent
                if lf is not None and self._should_inline(lf):
                    out += self.do_inline(lf, f, args, kws, s, e)
                    continue
            nm = f[2] if f[0] == "." else (f[1] if f[0] == "g" else None)
            if f[0] == "." and f[2] in MUTATORS and s.facts:
                # what was known about the contents of the receiver no longer is
                rv = f[1]
                s.facts = {k: v for k, v in s.facts.items() if not mentions(k, lambda t: t == rv)}
            if self.implicit_exc and nm not in self.noraise or self.onlyraise is not None and nm in self.onlyraise:
                self.excsinks[-1].append((s.copy(), ("exc?", nm) if self.onlyraise else ("exc?",), e))
            if f == ("g", "getattr") and len(args) == 3 and not kws and is_const(args[1]) and args[1][2] in self.ix.own_attrs():
                # an attribute that only objects of this project have: x.name, or the default if x is None
                d = self.decide(canon_atom(("cmp", "is", args[0], NONE))[0], s) if args[0] != NONE else True
                if d is not None:
                    out.append((s, args[2] if d else (".", args[0], args[1][2])))
                    continue
            # `getattr(x, 'name')` canonicalised to attribute
            if f == ("g", "getattr") and len(args) == 2 and is_const(args[1]) and isinstance(args[1][2], str):
                out.append((s, (".", args[0], args[1][2])))
                continue
            if f == ("g", "setattr") and len(args) == 3 and is_const(args[1]) and isinstance(args[1][2], str):
                place = (".", args[0], args[1][2])
                s.heap[place] = args[2]
                self.emit(s, "assign", place, args[2], node=e)
            if f == ("g", "setattr") and len(args) == 3 and not is_const(args[1]):
                place = (".", args[0], ("dyn", args[1]))
                s.heap[place] = args[2]
                self.emit(s, "assign", place, args[2], node=e)
            out.append((s, self.stamp(("call", f, args, kws), f, args, kws, s, e)))
        return out

    def e_anyall(self, e, st):
        comp = e.args[0]
        is_any = e.func.id == "any"
        saved_env = dict(st.env)
        active0 = st.active
        results = []

        def leave(x, val):
            y = x.copy()
            y.frames[-1] = dict(saved_env)
            y.active = active0
            return (y, val)

        def rec(gi, s, chain):
            g = comp.generators[gi]
            for s1, it in self.eval(g.iter, s):
                s1 = s1.copy()
                seen_its.append(it)
                elem = self.bind_iter(g.target, it, s1, e)
                chain2 = chain + [(it, elem, len(s1.trace))]
                ts = [s1]
                for c in g.ifs:
                    nt = []
                    for x in ts:
                        t, f = self.branch2(c, x)
                        nt += t
                        neutral.extend(f)
                    ts = nt
                for x in ts:
                    if gi + 1 < len(comp.generators):
                        rec(gi + 1, x, chain2)
                        continue
                    t, f = self.branch2(comp.elt, x)
                    hit, miss = (t, f) if is_any else (f, t)
                    for h in hit:
                        for it_, el_, k0 in chain2:
                            self.iterations.append(Iteration(e, it_, k0, "hit", h, None, self.fn, el_))
                        results.append(leave(h, TRUE if is_any else FALSE))
                    for ms in miss:
                        for it_, el_, k0 in chain2:
                            self.iterations.append(Iteration(e, it_, k0, "next", ms, None, self.fn, el_))
                        neutral.append(ms)

        neutral = []
        seen_its = []
        rec(0, st.copy(), [])
        # no hit: facts of the symbolic element do not survive (they held for every element, not tracked)
        done = {}
        if not (seen_its and all(self.runs(x) for x in seen_its)):
            base = st.copy()
            done[base.key()] = base
        for x in neutral:
            y, _ = leave(x, None)
            y.facts = {k: v for k, v in y.facts.items() if not mentions(k, lambda t: t[0] == "elem") or k in st.facts}
            done[y.key()] = y
        for y in done.values():
            results.append((y, FALSE if is_any else TRUE))
        return results

    def bind_params(self, fi, fterm, args, kws, st):
        binding = {}
        # closures
        if fi.parent is not None and fi.parent in self.fnstack:
            idx = max(i for i, f in enumerate(self.fnstack) if f is fi.parent)
            depth = len(self.fnstack) - 1 - idx
            if depth < len(st.frames):
                binding.update(st.frames[len(st.frames) - 1 - depth])
        a = fi.node.args
        params = [x.arg for x in a.posonlyargs + a.args]
        pos = list(args)
        if fi.cls is not None and not fi.is_static and params:
            if fterm[0] == ".":
                recv = fterm[1]
                if fi.is_classmethod:
                    oc = fi.cls
                    recv = ("g", oc.name) if recv[0] != "g" else recv
                    binding[params[0]] = recv
                elif recv[0] == "call" and recv[1] == ("g", "super"):
                    binding[params[0]] = ("var", "self")
                elif recv[0] == "g" and isinstance(self.ix.classes.get(recv[1]), ClassInfo) and pos:
                    binding[params[0]] = pos.pop(0)
                else:
                    binding[params[0]] = recv
            params = params[1:]
        defaults = list(a.defaults)
        alln = [x.arg for x in a.posonlyargs + a.args]
        dmap = {}
        for n, d in zip(alln[len(alln) - len(defaults):], defaults):
            dmap[n] = d
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                dmap[x.arg] = d
        i = 0
        rest = []
        for v in pos:
            if v[0] == "*" or i >= len(params):
                rest.append(v)
                continue
            binding[params[i]] = v
            i += 1
        if a.vararg is not None:
            binding[a.vararg.arg] = ("tuple", tuple(rest))
        bound = set(params[:i])
        extra = []
        for k, v in kws:
            if k is None:
                extra.append((k, v))
            elif k in params or any(k == x.arg for x in a.kwonlyargs):
                binding[k] = v
                bound.add(k)
            else:
                extra.append((k, v))
        if a.kwarg is not None:
            binding[a.kwarg.arg] = ("dict", tuple((const(k) if k else None, v) for k, v in extra))
        for n in params + [x.arg for x in a.kwonlyargs]:
            if n not in bound:
                if n in dmap and isinstance(dmap[n], ast.Constant):
                    binding[n] = const(dmap[n].value) if dmap[n].value is not Ellipsis else ("const", "ellipsis", "...")
                elif n in dmap:
                    binding[n] = self.quiet_eval(dmap[n], State([{}]))
                else:
                    binding[n] = ("param?", fi.name, n)
        return binding

    def do_inline(self, fi, fterm, args, kws, st, node):
        binding = self.bind_params(fi, fterm, args, kws, st)
        self.inlined.add(fi.key)
        st = st.copy()
        st.frames.append(binding)
        is_gen = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in walk_own(fi.node))
        self.fnstack.append(fi)
        saved_cb, self.yield_cb = self.yield_cb, []
        try:
            o = self.exec_block(fi.node.body, [st])
        finally:
            self.fnstack.pop()
            self.yield_cb = saved_cb
        nl = self._nonlocals_of(fi)

        def popf(x):
            x = x.copy()
            top = x.frames.pop()
            for n in nl:
                if n in top:
                    x.frames[-1][n] = top[n]
            return x
        res = [(popf(x), NONE) for x in o.normal]
        res += [(popf(x), v) for x, v, n in o.ret]
        for x, v, n in o.exc:
            self.excsinks[-1].append((popf(x), v, n))
        if is_gen:
            res = [(x, ("call", fterm, args, kws)) for x, v in res]
        # dedup
        if len(res) > 1:
            d = {}
            for x, v in res:
                d.setdefault((x.key(), v), (x, v))
            res = list(d.values())
            if len(res) > self.cap:
                g = {}
                for x, v in res:
                    g.setdefault(v, []).append(x)
                res = [(y, v) for v, xs in g.items() for y in self.dedup(xs)]
        return res


def walk_own(fnode):
    """walk a function body without descending into nested functions/classes/lambdas"""
    stack = list(fnode.body)
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
            continue
        stack.extend(ast.iter_child_nodes(n))


def _as_load(t):
    t = ast.parse(ast.unparse(t), mode="eval").body
    return t


OPS = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.Mod: "%", ast.FloorDiv: "//", ast.BitOr: "|",
       ast.BitAnd: "&", ast.BitXor: "^", ast.Pow: "**", ast.LShift: "<<", ast.RShift: ">>", ast.MatMult: "@"}
CMPS = {ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Is: "is",
        ast.IsNot: "is not", ast.In: "in", ast.NotIn: "not in"}


def mk_not(t):
    if t[0] == "not":
        return t[1]
    if t == TRUE:
        return FALSE
    if t == FALSE:
        return TRUE
    return ("not", t)


def mk_eq(a, b):
    a, b = sorted((a, b), key=repr)
    return ("cmp", "==", a, b)


def mk_is(a, b):
    a, b = sorted((a, b), key=repr)
    return ("cmp", "is", a, b)


def mk_cmp(op, l, r):
    if op == "==":
        return mk_eq(l, r)
    if op == "!=":
        return ("not", mk_eq(l, r))
    if op == "is":
        return mk_is(l, r)
    if op == "is not":
        return ("not", mk_is(l, r))
    if op == "<":
        return ("cmp", "<", l, r)
    if op == ">":
        return ("cmp", "<", r, l)
    if op == "<=":
        return ("not", ("cmp", "<", r, l))
    if op == ">=":
        return ("not", ("cmp", "<", l, r))
    if op == "in":
        return mk_in(l, r)
    if op == "not in":
        return mk_not(mk_in(l, r))
    return ("cmp", op, l, r)


def mk_in(l, r):
    while r[0] == "call" and r[1][0] == "g" and r[1][1] in ("frozenset", "set", "tuple", "list") and len(r[2]) == 1 and not r[3] and r[2][0][0] in ("tuple", "list", "set", "call"):
        if r[2][0][0] == "call" and not (r[2][0][1][0] == "g" and r[2][0][1][1] in ("frozenset", "set", "tuple", "list")):
            break
        r = r[2][0]
    if r[0] in ("tuple", "list", "set") and r[1] and len(r[1]) <= 6 and all(x[0] != "*" for x in r[1]):
        if len(r[1]) == 1:
            return mk_eq(l, r[1][0])
        return ("or", tuple(mk_eq(l, x) for x in r[1]))
    return ("cmp", "in", l, r)


def canon_atom(term):
    """-> (atom, polarity); atom None means constant truth = polarity"""
    pol = True
    while term[0] == "not":
        pol = not pol
        term = term[1]
    if term[0] == "const":
        return None, bool(term[2]) == pol
    if term[0] == "cmp":
        op, l, r = term[1], term[2], term[3]
        # len(x) == 0 / len(x) > 0 -> truth(x)
        for a, b, o in ((l, r, op), (r, l, {"<": ">"}.get(op, op))):
            if a[0] == "call" and a[1] == ("g", "len") and len(a[2]) == 1 and is_const(b):
                x = a[2][0]
                if o == "==" and b[2] == 0:
                    at, p = canon_atom(x) if x[0] != "cmp" else (("truth", x), True)
                    return at, (p != pol)
                if o == ">" and b[2] == 0:
                    return ("truth", x), pol
                if o == "<" and b[2] == 1:
                    return ("truth", x), not pol
        if op == "is" and (l in (TRUE, FALSE) or r in (TRUE, FALSE)):
            x, c = (l, r) if r in (TRUE, FALSE) else (r, l)
            return ("cmp", "is", *sorted((x, c), key=repr)), pol
        if op in ("==", "is") and is_const(l) and is_const(r):
            return None, ((l[2] == r[2]) == pol)
        if op == "in" and r[0] in ("tuple", "list", "set") and len(r[1]) == 1:
            return canon_atom_pol(mk_eq(l, r[1][0]), pol)
        return ("cmp", op, l, r), pol
    return ("truth", term), pol


def canon_atom_pol(t, pol):
    a, p = canon_atom(t)
    return a, (p == pol)
