"""What a syntax-tree visitor does with each kind of node, in terms of sets it keeps.

A visitor method is run through the path-sensitive interpreter for one kind of node; the resulting trace is then
replayed here. Sets the visitor keeps (names bound, names read, ...) are tracked as objects, so that copies,
aliases, intersections and saved/restored attributes are told apart; their contents are sets of atoms:
  "<attr>0"            what was in the set when the method was entered
  ("visit", attr, p)   what visiting the child at path p put into it
  ("name", text)       one element added explicitly
  ("each", text)       one element per element of an iterable
  ("diff", a, S)       atom a without whatever is in S
  ("and", {C...})      what is in all of the contents C
  ("?", text)          not understood
"""
import ast

from .interp import FALSE, NONE, TRUE, mentions, show, strip_iter


def elements(t):
    while isinstance(t, tuple) and t[0] == "snap":
        t = t[1]
    return strip_iter(t)


def path(t, root="node"):
    """the part of the node a term denotes, e.g. 'body', 'items*', 'generators[0].iter', 'values[1:]*'"""
    if not isinstance(t, tuple):
        return None
    if t == ("var", root):
        return ""
    k = t[0]
    if k == "snap":
        return path(t[1], root)
    if k == ".":
        p = path(t[1], root)
        return None if p is None else (p + "." + t[2] if p else t[2])
    if k == "[]":
        p = path(t[1], root)
        return None if p is None else f"{p}[{show(t[2])}]"
    if k in ("elem", "index"):
        if k == "index":
            return None
        p = path(elements(t[1]), root)
        return None if p is None else p + "*"
    if k == "*rest":
        p = path(t[1], root)
        return None if p is None else f"{p}[{t[2]}:]"
    if k == "call" and t[1][0] == "g" and t[1][1] in ("list", "tuple", "iter", "cast") and t[2]:
        return path(t[2][-1], root)
    if k == "call" and t[1] == ("g", "getattr") and len(t[2]) >= 2 and t[2][1][0] == "const":
        p = path(t[2][0], root)
        return None if p is None else (p + "." + t[2][1][2] if p else t[2][1][2])
    if k == "or" and len(t[1]) == 2 and t[1][1] in (("list", ()), ("tuple", ())):
        return path(t[1][0], root)
    if k == "comp" and t[1] in ("list", "set", "gen") and len(t[3]) == 1:
        p = path(t[2], root)
        q = path(elements(t[3][0]), root)
        if p is not None and q is not None and p.startswith(q + "*"):
            # [x for x in xs if x]
            if all(show(c) in (show(t[2]), f"({show(t[2])} is not None)") for c in t[4]):
                return p
    return None


def diff(content, s):
    s = frozenset(s)
    if not s:
        return content
    out = set()
    for a in content:
        if a in s:
            continue
        if any(x[0] == "diff" and x[1] == a and x[2] <= content for x in s):
            # what is left of it is in there anyway
            continue
        sub = [x for x in s if not (x[0] == "diff" and a in x[2])]
        if not sub:
            out.add(a)
        elif a[0] == "diff":
            out.add(("diff", a[1], a[2] | frozenset(sub)))
        else:
            out.add(("diff", a, frozenset(sub)))
    return frozenset(out)


def union(*cs):
    out = set().union(*cs)
    changed = True
    while changed:
        changed = False
        for a in list(out):
            if a[0] == "diff":
                rest = a[2] - out
                if len(rest) != len(a[2]):
                    out.discard(a)
                    out.add(("diff", a[1], rest) if rest else a[1])
                    changed = True
    return frozenset(out)


def inter(cs):
    cs = list(cs)
    if not cs:
        return frozenset()
    common = frozenset.intersection(*cs)
    rest = [c - common for c in cs]
    if len(cs) > 1 and all(rest):
        return common | {("and", frozenset(rest))}
    return common if len(cs) > 1 else cs[0]


def primed(c):
    def one(a):
        if a[0] == "visit":
            return (a[0], a[1], a[2] + "'", a[3]) if "*" in a[2] else a
        if a[0] == "diff":
            return ("diff", one(a[1]), frozenset(one(x) for x in a[2]))
        if a[0] == "and":
            return ("and", frozenset(frozenset(one(x) for x in y) for y in a[1]))
        return a
    return frozenset(one(a) for a in c)


def unrolled(ev):
    """in a loop over a display, every iteration is there"""
    return all(elements(l.iter if hasattr(l, "iter") else l)[0] in ("tuple", "list") for l in ev.loops)


class Obs:
    """one child visited"""

    def __init__(self, path, how, term, flags, sets, ids, ev, idx):
        self.path, self.how, self.term, self.flags, self.sets, self.ids, self.ev, self.idx = path, how, term, flags, sets, ids, ev, idx

    def __repr__(self):
        return f"{self.how}({self.path})"


class Replay:
    def __init__(self, trace, setattrs, flagattrs, root="node", empty=(), visits=("visit", "generic_visit"), decide=None):
        self.root = root
        self.visits = set(visits)
        self.decide = decide or (lambda t: None)
        self.born = {}
        self.setattrs, self.flagattrs = setattrs, flagattrs
        self.objs = {}
        self.attrs = {a: a + "0" for a in setattrs}
        self.objs.update({a + "0": (frozenset() if a in empty else frozenset([(a + "0",)])) for a in setattrs})
        for f in flagattrs:
            self.attrs[f] = ("entry", f)
        self.named = {}
        self.stack = []
        self.obs = []
        self.added = []
        self.hist = []
        self.trace = trace
        self.lists = {}
        pending = {}
        for i, ev in enumerate(trace):
            for t in self.terms_of(ev):
                pending.setdefault(t[-1], set()).add(t)
        for i, ev in enumerate(trace):
            self.hist.append(dict(self.attrs))
            self.birth(pending.get(i, ()), i)
            self.event(ev, i)
        self.hist.append(dict(self.attrs))
        self.birth(pending.get(len(trace), ()), len(trace))

    def terms_of(self, ev):
        seen = []

        def rec(t):
            if isinstance(t, tuple):
                if len(t) == 3 and t[0] == "snap" and isinstance(t[2], int) and t[1][0] in ("call", "comp"):
                    seen.append(t)
                elif len(t) == 5 and t[0] == "new":
                    seen.append(t)
                for x in t:
                    rec(x)
        for x in (ev.a, ev.b, ev.c):
            rec(x)
        return seen

    def birth(self, terms, i):
        # inner copies first
        for t in sorted(terms, key=lambda t: len(repr(t))):
            if t in self.named:
                continue
            oid = f"o{len(self.objs)}"
            self.named[t] = oid
            self.born[oid] = i
            self.objs[oid] = frozenset() if t[0] == "new" else self.content(t[1])
            self.lists[oid] = []

    # -------------------------------------------------------------- contents
    def oid(self, t):
        """the object a term denotes, if it is one that is tracked"""
        if not isinstance(t, tuple):
            return None
        if t[0] == "snap" and t[1][0] == ".":
            v = self.hist[min(t[2], len(self.hist) - 1)].get(t[1][2])
            return v if v in self.objs else None
        if t[0] in ("snap", "new"):
            return self.named.get(t)
        if t[0] == ".":
            if t[1] == ("var", "self"):
                v = self.attrs.get(t[2])
                return v if v in self.objs else None
        return None

    def content(self, t):
        o = self.oid(t)
        if o is not None:
            return self.objs[o]
        k = t[0]
        if k == "bin":
            a, b = self.content(t[2]), self.content(t[3])
            if t[1] == "|":
                return union(a, b)
            if t[1] == "&":
                return inter([a, b])
            if t[1] == "-":
                return diff(a, b)
        if k == "call":
            return self.call_content(t)
        if k == "snap":
            return self.content(t[1])
        if k in ("set", "list", "tuple"):
            out = [self.content(x[1]) if x[0] == "*" else frozenset([("name", show(x))]) for x in t[1]]
            return union(*out) if out else frozenset()
        if k == "comp":
            return self.comp_content(t)
        if k == "or" and len(t[1]) == 2:
            return union(*[self.content(x) for x in t[1]])
        if t == NONE:
            return frozenset()
        return frozenset([("?", show(t))])

    def listed(self, t):
        """contents of the sets a term lists"""
        if t[0] == "*":
            return self.listed(t[1])
        o = self.oid(t)
        if o is not None and o in self.lists and self.lists[o]:
            out = []
            for x, looped in self.lists[o]:
                out.append(self.content(x))
                if looped:
                    # stands for any number of such sets: another one, made by another element
                    out.append(primed(self.content(x)))
            return out
        if o is not None:
            return []
        if t[0] in ("list", "tuple"):
            return [self.content(x) for x in t[1]]
        return None

    def args_content(self, args):
        out = []
        for a in args:
            if a[0] == "*":
                ls = self.listed(a)
                if ls is None:
                    return None
                out += ls
            else:
                out.append(self.content(a))
        return out

    def call_content(self, t):
        f, args = t[1], t[2]
        if f[0] == "g" and f[1] in ("set", "frozenset", "list", "dict", "sorted", "tuple"):
            return self.content(args[0]) if args else frozenset()
        if f[0] == ".":
            unbound = f[1] in (("g", "set"), ("g", "frozenset"))
            cs = self.args_content(args)
            if cs is None:
                return frozenset([("?", show(t))])
            if not unbound:
                cs = [self.content(f[1])] + cs
            if f[2] == "copy":
                return cs[0] if cs else frozenset()
            if f[2] == "union":
                return union(*cs) if cs else frozenset()
            if f[2] == "intersection":
                return inter(cs)
            if f[2] == "difference" and cs:
                c = cs[0]
                for d in cs[1:]:
                    c = diff(c, d)
                return c
        return frozenset([("?", show(t))])

    def comp_content(self, t):
        elt, its, conds = t[2], t[3], t[4]
        if len(its) == 1:
            base = elements(its[0])
            el = elt
            if self.oid(base) is not None:
                c = self.content(base)
                x = ("elem", its[0])
                if not (el[0] == "elem" or el[0] == "." and el[1][0] == "elem"):
                    return frozenset([("?", show(t))])
                for cond in conds:
                    neg = False
                    while cond[0] == "not":
                        neg, cond = not neg, cond[1]
                    if cond[0] == "cmp" and cond[1] in ("in", "not in"):
                        s = self.content(cond[3])
                        if (cond[1] == "not in") != neg:
                            c = diff(c, s)
                        else:
                            c = inter([c, s])
                    else:
                        c = frozenset(("diff", a, frozenset([("?", show(cond))])) for a in c)
                return c
            return frozenset([("each", show(t), t)])
        return frozenset([("?", show(t))])

    # ---------------------------------------------------------------- events
    def set_content(self, o, c):
        self.objs[o] = c

    def event(self, ev, i):
        k = ev.kind
        if k == "enter" and ev.a[0] == "call" and show(ev.a[1]).endswith(".push_attributes"):
            saved = {}
            for name, v in ev.a[3]:
                saved[name] = self.attrs.get(name)
                self.attrs[name] = self.value(name, v)
            self.stack.append(saved)
        elif k == "enter":
            self.stack.append({})
        elif k == "exit":
            if self.stack:
                self.attrs.update(self.stack.pop())
        elif k == "assign" and ev.a[0] == "." and ev.a[1] == ("var", "self") and ev.a[2] in self.attrs:
            self.attrs[ev.a[2]] = self.value(ev.a[2], ev.b)
        elif k == "aug":
            o = self.oid(ev.a)
            if o is not None:
                op = ev.b[2] if isinstance(ev.b, tuple) else ev.b
                c = self.content(ev.c)
                if op == "|":
                    self.objs[o] = union(self.objs[o], c)
                elif op == "-":
                    self.objs[o] = diff(self.objs[o], c)
                elif op == "&":
                    self.objs[o] = inter([self.objs[o], c])
                elif op == "+":
                    self.lists.setdefault(o, [])
                else:
                    self.objs[o] = frozenset([("?", repr(ev))])
        elif k == "call":
            self.call(ev, i)

    def value(self, name, v):
        if name in self.setattrs:
            o = self.oid(v)
            if o is not None:
                return o
            o = f"o{len(self.objs)}"
            self.objs[o] = self.content(v)
            self.lists[o] = []
            self.born[o] = len(self.hist) - 1
            return o
        if v == TRUE:
            return True
        if v == FALSE:
            return False
        if v[0] == "snap":
            return self.hist[min(v[2], len(self.hist) - 1)].get(v[1][2], v)
        if v[0] == "and":
            xs = [self.value(name, x) for x in v[1]]
            if any(x is False for x in xs):
                return False
            xs = [x for x in xs if x is not True]
            return True if not xs else (xs[0] if len(xs) == 1 else ("and", tuple(xs)))
        if v[0] == "or":
            xs = [self.value(name, x) for x in v[1]]
            if any(x is True for x in xs):
                return True
            xs = [x for x in xs if x is not False]
            return False if not xs else (xs[0] if len(xs) == 1 else ("or", tuple(xs)))
        d = self.decide(v)
        if d is not None:
            return d
        if v[0] == "not":
            x = self.value(name, v[1])
            return (not x) if isinstance(x, bool) else ("not", x)
        return v

    def call(self, ev, i):
        f = ev.a
        if f[0] != ".":
            return
        m, r = f[2], f[1]
        o = self.oid(r)
        if o is not None:
            c = self.objs[o]
            if m == "add" and ev.b:
                self.objs[o] = union(c, frozenset([("name", show(ev.b[0]), ev.b[0])]))
                self.added.append((o, ev.b[0], ev, i))
            elif m == "append" and ev.b:
                self.lists.setdefault(o, []).append((ev.b[0], bool(ev.loops) and not unrolled(ev)))
            elif m == "update":
                for a in ev.b:
                    self.objs[o] = union(self.objs[o], self.content(a))
            elif m == "difference_update":
                for a in ev.b:
                    self.objs[o] = diff(self.objs[o], self.content(a))
            elif m == "intersection_update":
                self.objs[o] = inter([c] + [self.content(a) for a in ev.b])
            elif m == "clear":
                self.objs[o] = frozenset()
                self.lists[o] = []
            elif m in ("discard", "remove") and ev.b:
                self.objs[o] = diff(c, frozenset([("name", show(ev.b[0]), ev.b[0])]))
            return
        sup = r[0] == "call" and r[1] == ("g", "super")
        if (r == ("var", "self") or sup) and len(ev.b) >= 1:
            args = ev.b[0]
            p = path(args, self.root)
            if m in self.visits:
                sets = {a: self.objs[self.attrs[a]] for a in self.setattrs}
                ids = {a: self.attrs[a] for a in self.setattrs}
                flags = {a: self.attrs[a] for a in self.flagattrs}
                ob = Obs(p, ("super." if sup else "") + m, args, flags, sets, ids, ev, i)
                self.obs.append(ob)
                for a in self.setattrs:
                    oid = self.attrs[a]
                    self.objs[oid] = union(self.objs[oid], frozenset([("visit", a, p if p is not None else "?" + show(args), m)]))

    # -------------------------------------------------------------- at the end
    def final(self, a):
        return self.objs[self.attrs[a]]

    def same(self, a):
        return self.attrs[a] == a + "0"


class Visitor:
    """one visitor class: which method handles a kind of node"""

    def __init__(self, ctx, cls):
        self.ctx, self.ix, self.cls = ctx, ctx.ix, cls
        self.mro = []

        def add(name):
            c = self.ix.classes.get(name)
            if isinstance(c, list):
                c = c[0]
            if c is None or c in self.mro:
                return
            self.mro.append(c)
            for b in c.bases:
                add(b)
        add(cls)

    def lookup(self, name, after=None):
        """FuncInfo of a method, aliases followed"""
        cs = self.mro
        if after is not None:
            cs = cs[cs.index(after) + 1:] if after in cs else []
        for c in cs:
            seen = set()
            n = name
            while n not in seen:
                seen.add(n)
                if n in c.methods:
                    return c.methods[n], c
                a = c.attrs.get(n)
                v = getattr(a, "value", a)
                if isinstance(v, ast.Name):
                    n = v.id
                else:
                    break
        return None, None

    def handler(self, kind):
        f, c = self.lookup("visit_" + kind)
        if f is not None:
            return f, c, False
        f, c = self.lookup("generic_visit")
        return f, c, True

    def methods(self):
        out = set()
        for c in self.mro:
            for m in c.methods:
                out.add((c.name, m))
        return out


def isa(kind, cls):
    k, c = getattr(ast, kind, None), getattr(ast, cls, None)
    return k is not None and c is not None and isinstance(k, type) and isinstance(c, type) and issubclass(k, c)


def kind_oracle(kinds, root="node"):
    """decides isinstance/hasattr questions about nodes whose kind is fixed: {path: kind}"""
    def f(atom, st):
        if atom[0] != "truth" or atom[1][0] != "call" or atom[1][1][0] != "g" or len(atom[1][2]) != 2:
            return None
        fn, (x, c) = atom[1][1][1], atom[1][2]
        p = path(x, root)
        if p is None or p not in kinds:
            return None
        k = kinds[p]
        if fn == "isinstance":
            cs = c[1] if c[0] == "tuple" else (c,)
            names = []
            for q in cs:
                if q[0] == "." and show(q[1]) == "ast":
                    names.append(q[2])
                elif q[0] == "g":
                    names.append(q[1])
                elif q[0] == "call" and show(q[1]) in ("type", "getattr"):
                    names.append(show(q[2][1]).strip("'") if show(q[1]) == "getattr" else "NoneType")
                else:
                    return None
            if k in ("list", "None"):
                return k == "list" and any(n in ("Sequence", "list", "List") for n in names) or k == "None" and "NoneType" in names
            return any(isa(k, n) for n in names)
        if fn == "hasattr" and c[0] == "const":
            return c[2] in getattr(ast, k)._fields if hasattr(ast, k) else None
        return None
    return f
