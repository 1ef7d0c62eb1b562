"""Shared vocabulary for the checks."""
import ast
import re

from sa.index import AnalysisBroken, ClassInfo, FuncInfo
from sa.interp import (FALSE, NONE, TRUE, Event, Interp, const, is_const, mentions, mentions_name, show, strip_iter,
                       subterms, walk_own)
from sa.rules import ADDERS, Oracle, T, adds_to, atexts, may_contain, removes_from

FLOW_ORDER = r"(^|\.)flow_order$"
SCHED = r"(^|\.)exec_schedule$"
EXEC_MODE = r"(^|\.)exec_mode$"


def O():
    return Oracle()


def in_order(o=None):
    return (o or Oracle()).enum(FLOW_ORDER, "IN_ORDER")


def any_order(o=None):
    return (o or Oracle()).enum(FLOW_ORDER, "ANY_ORDER")


def sched(o, m):
    return o.enum(SCHED, m)


def text_of(t):
    """the text a formatted string stands for, with {expression} for what is filled in"""
    if t[0] == "fstr":
        return "".join(text_of(x) if is_const(x) or x[0] in ("fstr", "bin") else "{" + T(x) + "}" for x in t[1])
    if is_const(t):
        return str(t[2])
    if t[0] == "bin" and t[1] == "+":
        return "".join(text_of(x) if is_const(x) or x[0] in ("fstr", "bin") else "{" + T(x) + "}" for x in t[2:4])
    if t[0] == "bin" and t[1] == "%" and is_const(t[2]) and isinstance(t[2][2], str):
        args = list(t[3][1]) if t[3][0] == "tuple" else [t[3]]
        return re.sub(r"%[sdr]", lambda m: "{" + T(args.pop(0)) + "}" if args else m.group(0), t[2][2])
    if t[0] == "call" and t[1][0] == "." and t[1][2] == "format" and is_const(t[1][1]):
        args = list(t[2])
        return re.sub(r"\{\}", lambda m: "{" + T(args.pop(0)) + "}" if args else m.group(0), str(t[1][1][2]))
    if t[0] == "call" and t[1] == ("g", "str") and len(t[2]) == 1:
        return "{" + T(t[2][0]) + "}"
    return T(t)


def assigns(ev, regex):
    return ev.kind in ("assign", "aug_assign") and re.search(regex, T(ev.a)) is not None


def sets_item(ev, regex):
    return ev.kind in ("setitem", "aug_setitem") and re.search(regex, T(ev.a)) is not None


def calls(ev, *names):
    return ev.is_call(*names)


def call_on(ev, recv_regex, *names):
    return ev.is_call(*names) and ev.recv is not None and re.search(recv_regex, T(ev.recv)) is not None


def returned_may_contain(it):
    """any return end whose value may contain elements"""
    return [e for e in it.ends if e.kind == "return" and may_contain(e.value, e.trace)]


def filtered_return(ctx, rule, spec, oracle, expect, why, **kw):
    """expect False: nothing may end up in the returned collection; True: some path keeps elements."""
    it = ctx.run(spec, oracle=oracle, interest=lambda e: e.kind in ("collect", "call", "aug", "setitem", "yield"), **kw)
    hits = returned_may_contain(it)
    hits += [e for e in it.ends if any(x.kind == "yield" for x in e.trace)]
    if expect:
        ctx.ob(rule, it.fi.qual, bool(hits), f"{why}: nothing can be returned", it.fi.loc())
    else:
        ctx.ob(rule, it.fi.qual, not hits, f"{why}", it.fi.loc(hits[0].node) if hits else "")
    return it


def effects(ctx, spec, parse, oracle=None, kinds=("return",), **kw):
    """abstract paths as lists of (effect, event); parse maps an event to an effect or None"""
    it = ctx.run(spec, oracle=oracle, interest=lambda e: parse(e) is not None, **kw)
    paths = [(e, [(parse(ev), ev) for ev in e.trace]) for e in it.ends if e.kind in kinds]
    return it, paths


def in_loop(ev, regex):
    return any(re.search(regex, T(b)) for b in ev.loops)


def within(trace, ev, regex):
    """is ev inside a with-block whose manager matches regex (enter/exit events must be tracked)"""
    depth = 0
    for x in trace:
        if x is ev:
            return depth > 0
        if x.kind == "enter" and re.search(regex, T(x.a)):
            depth += 1
        elif x.kind == "exit" and re.search(regex, T(x.a)):
            depth -= 1
    return False


def loops_over(it, regex, kinds=("next", "collect", "break", "return", "hit")):
    """completed symbolic iterations over iterables matching regex"""
    r = re.compile(regex)
    return [i for i in it.iterations if i.iter is not None and i.kind in kinds
            and (r.search(T(strip_iter(i.iter))) or r.search(T(i.iter)) or r.search(T(iter_base(i.iter))))]


def iter_base(t):
    """the container a loop ranges over: list(d.items()) -> d"""
    t = strip_iter(t)
    while t[0] == "call" and t[1][0] == "." and t[1][2] in ("items", "keys", "values") and not t[2]:
        t = strip_iter(t[1][1])
    return t


def every(ctx, rule, construct, items, pred, why, loc=None):
    """each item satisfies pred, and there is at least one item"""
    items = list(items)
    bad = next((i for i in items if not pred(i)), None)
    ctx.ob(rule, construct, bool(items) and bad is None, why if items else f"{why} (nothing found)",
           (loc(bad) if bad is not None and loc else ""))


def isinst(o, term, *types):
    """fix isinstance() tests on terms matching ``term``: true iff one of ``types`` is named"""
    r = re.compile(rf"^isinstance\((?:{term}), (.*)\)$")

    def f(a, s):
        if a[0] != "truth":
            return None
        m = r.match(T(a[1]))
        if not m:
            return None
        names = set(re.findall(r"[A-Za-z_]\w*(?=[,)]|$)", m.group(1)))
        return bool(names & set(types))
    return o.fn(f, f"isinstance {term} {types}")


def bval(t, vals):
    """three-valued truth of a term, given regex -> bool for the terms (or their negations) it is built from"""
    if is_const(t):
        return bool(t[2])
    if t[0] == "not":
        r = bval(t[1], vals)
        return None if r is None else not r
    if t[0] in ("and", "or"):
        rs = [bval(x, vals) for x in t[1]]
        dom = t[0] == "or"
        if dom in rs:
            return dom
        return None if None in rs else not dom
    if t[0] == "ifexp":
        c = bval(t[1], vals)
        if c is not None:
            return bval(t[2] if c else t[3], vals)
        a, b = bval(t[2], vals), bval(t[3], vals)
        return a if a == b else None
    if t[0] == "call" and t[1] == ("g", "bool") and len(t[2]) == 1:
        return bval(t[2][0], vals)
    txs = atexts(t) if t[0] == "cmp" else [T(t)]
    for r, v in vals.items():
        if any(re.search(r, x) for x in txs):
            return v
    return None


def oval(e, o):
    """truth of a returned term under the oracle"""
    def t(v):
        if is_const(v):
            return bool(v[2])
        if v[0] == "not":
            r = t(v[1])
            return None if r is None else not r
        if v[0] in ("and", "or"):
            rs = [t(x) for x in v[1]]
            dom = v[0] == "or"
            return dom if dom in rs else (None if None in rs else not dom)
        return o(v if v[0] == "cmp" else ("truth", v), e.state)
    return t(e.value)


def table(ctx, rule, q, vars, expect, why, base=None, skip=None, **kw):
    """the truth value returned by ``q`` under every combination of the named conditions is ``expect(**combination)``.
    vars: {name: regex} or {name: installer(oracle, bool)}"""
    import itertools
    names = list(vars)
    bad, n, it = None, 0, None
    for vs in itertools.product((True, False), repeat=len(names)):
        d = dict(zip(names, vs))
        if skip and skip(**d):
            continue
        o = base() if base else Oracle()
        for k, v in d.items():
            if callable(vars[k]):
                vars[k](o, v)
            else:
                o.when(vars[k], v)
        want = expect(**d)
        if want is None:
            continue
        it = ctx.run(q, o, lambda e: False, **kw)
        rs = [oval(e, o) for e in it.ends if e.kind == "return"]
        n += 1
        if not rs or any(r is not want for r in rs):
            bad = bad or (d, rs)
    return ctx.ob(rule, f"{it.fi.qual}:table", n > 0 and bad is None, f"{why}: under {bad[0] if bad else ''} gives {bad[1] if bad else ''}", it.fi.loc())

