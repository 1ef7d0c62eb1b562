import itertools
import os

from .common import *
from .c05 import *

TITLE = "Changes made by library code"
PROP = dict(
    title="A call of library code that changes something in place counts as a change of it",
    statement="Calling a method of an object whose code is not in the notebook counts as a change of the object when the method is declared to change it, whatever it returns, or when nothing is declared for it and "
              "it returns nothing or the object itself; a function of a module that returns nothing changes its module and, where it may, its first argument, and calls declared harmless change nothing. "
              "Of lists and dictionaries, the elements that the call adds, moves or removes are tracked as well. Every such call of a statement counts, once, with its own receiver, arguments and result, "
              "and declarations are applied exactly as written: to the functions and methods they name, for the receiver, the module or the arguments they name.",
    over=["programs"],
    qtext="every call of library code, every declaration, receiver, argument and result",
    why_tests_cant="Tests call a few methods of a few objects; which methods are called on what, how, and with which declarations cannot be listed, and a change that is missed silently leaves stale results.",
    files=["core/ipyflow/tracing/external_calls/__init__.py", "core/ipyflow/tracing/external_calls/base_handlers.py", "core/ipyflow/tracing/external_calls/list_handlers.py",
           "core/ipyflow/annotations/compiler.py", "core/ipyflow/annotations/builtins.pyi", "core/ipyflow/tracing/ipyflow_tracer.py", "core/ipyflow/data_model/statement.py"],
    mechanism=[("which effect a call has", "tracing/external_calls/__init__.py"), ("the effects", "tracing/external_calls/base_handlers.py, list_handlers.py"),
               ("declarations", "annotations/*.pyi, annotations/compiler.py"), ("calls as they happen", "tracing/ipyflow_tracer.py, data_model/statement.py")],
    observe=["cells that are ready after a call", "dependencies of symbols"],
)
TECHNIQUE = "path-sensitive abstract interpretation of how calls are classified and which effects their handlers have per kind of call, and resolution of the shipped declarations against the handlers"
LEVEL_NOTE = "Decides which calls count as changes of what for all calls whose events arrive; that the events arrive (pyccolo) and what a change then implies (C01, C03) is not part of it."
H = "ExternalCallHandler"
RES = "resolve_external_call"


def returns(it):
    return [e for e in it.ends if e.kind == "return"]


def ends(it):
    """the ways a function ends, without those that loop over an empty list or not over one that is not"""
    out = []
    for e in returns(it):
        its = {T(strip_iter(x.a)) for x in e.trace if x.kind == "iter"}
        ks = {T(k[1]): v for k, v in e.facts.items() if k[0] == "truth"}
        if "new_list" in its or any(re.match(r"(new_list|listcomp\()", k) and v != (k in its) for k, v in ks.items()):
            continue
        out.append(e)
    return out


def mro(ctx, c):
    ci = ctx.ix.classes.get(c)
    if ci is None:
        return []
    out = [c]
    for b in ci.bases:
        out += [x for x in mro(ctx, b.split(".")[-1] if isinstance(b, str) else T(b)) if x not in out]
    return out


def method(ctx, c, m):
    """the qualified name of the method an instance of ``c`` has"""
    for x in mro(ctx, c):
        if m in ctx.ix.classes[x].methods:
            return f"{x}.{m}"
    return None


def kw(ev, name):
    v = {k: T(t) for k, t in (ev.c or [])}
    return v.get(name)


def arg(ev, i, name):
    if kw(ev, name) is not None:
        return kw(ev, name)
    return T(ev.b[i]) if i < len(ev.b) else None


CALL = lambda e: e.kind in ("call", "iter", "loop", "assign", "setitem", "aug", "collect")
IS = lambda a, b: rf"^\(?({a} is {b}|{b} is {a})\)?$"
CALLER = r"self\.caller_self"


# ------------------------------------------------------------------ which effect a call has
def base(fn=True, bound=False, caller="instance", module="other", unknown_class=True, method=True, registered=None, by_method=None, default=True, unbound_self="object"):
    o = O().when(IS("function_or_method", "None"), not fn).when(IS(r"getattr\(function_or_method\..*\)", "None"), False).when(IS("None", "logging"), False).when(r"^isinstance\(None, ", False).when(r"^hasattr\(function_or_method, '__(self|name)__'\)$", bound)
    c = r"(caller_self|function_or_method\.__self__)"
    o.when(IS("caller_self", "None"), caller in ("none",))
    o.when(IS(r"function_or_method\.__self__", "None"), False)
    o.when(r"^isinstance\(function_or_method\.__self__, (\(|\[)?(ModuleType|type)", unbound_self != "object")
    o.when(r"^isinstance\(function_or_method\.__self__, ", False)
    o.when(r"^isinstance\(caller_self, ModuleType\)$", caller == "module").when(r"^isinstance\(caller_self, type\)$", caller == "class").when(r"^isinstance\(caller_self, logging\.Logger\)$", caller == "logger")
    o.when(IS("caller_self", "logging"), caller == "logging").when(IS(r"function_or_method\.__self__", "logging"), False)
    m = r"(module|caller_self)"
    o.when(IS("module", "None"), module == "none").when(IS(m, "logging"), module == "logging")
    o.when(rf"getattr\({m}, '__name__', None\) == '__main__'|'__main__' == getattr\({m}, '__name__', None\)", module == "__main__")
    f = r"(function_or_method|getattr\(function_or_method\.__self__\.__class__, function_or_method\.__name__, function_or_method\))"
    o.when(IS(f, "print"), fn == "print")
    o.when(r"is_class", not unknown_class)
    o.when(IS("method", "None"), not method).when(IS(r"function_or_method\.__name__", "None"), False)
    R = rf"REGISTERED_HANDLER_BY_FUNCTION\.get\({f}(, None)?\)"
    M = r"REGISTERED_HANDLER_BY_METHOD\.get\(.*\)"
    o.when(IS(R, "None"), registered is None)
    o.when(IS(M, "None"), by_method is None)
    for r, v in ((R, registered), (M, by_method)):
        for n in ("NoopCallHandler", "MutatingMethodEventNotYetImplemented"):
            o.when(IS(r, n), v == n)
            o.when(rf"^\(?({r} (==) {n}|{n} == {r})\)?$", v == n)
            o.when(rf"^issubclass\({r}, {n}\)$", v == n)
    o.when(r"^use_standard_default$", default)
    return o


def classify(ctx):
    run = lambda **k: ctx.run(RES, base(**k), CALL, onlyraise=set())
    made = lambda e: [x for x in e.trace if x.is_call("create")]
    def reached(it, k):
        """the paths of a case: a class is found only where there is one to look at"""
        es = returns(it)
        if k.get("by_method") and k.get("registered") is None and k.get("caller", "instance") == "instance":
            es = [e for e in es if any(x.is_call("get") and T(x.recv) == "REGISTERED_HANDLER_BY_METHOD" for x in e.trace)]
        if not k.get("unknown_class", True):
            es = [e for e in es if any("type(caller_self)" in T(b) or "caller_self.__class__" in T(b) for x in e.trace if x.kind == "call" for b in x.b) and any(
                "aliases" in T(x.recv or x.a) for x in e.trace if x.kind == "call")]
        return es
    nothing = [("the logging module", dict(module="logging")), ("the notebook's own module", dict(module="__main__")), ("print", dict(fn="print", caller="none")),
               ("a logger", dict(caller="logger")), ("the logging module as receiver", dict(caller="logging")), ("an instance of a class of the notebook", dict(unknown_class=False)),
               ("what is called is an item of something", dict(method=False)), ("declared harmless", dict(registered="NoopCallHandler")), ("a method declared harmless", dict(by_method="NoopCallHandler")),
               ("declared harmless, of a module", dict(registered="NoopCallHandler", caller="module")), ("no default wanted", dict(default=False)), ("a function declared harmless", dict(registered="NoopCallHandler", caller="none"))]
    for name, k in nothing:
        it = run(**k)
        es = reached(it, k)
        every(ctx, "R1-none", f"{RES}:{name}", es, lambda e: e.value == NONE and not made(e), "a call that changes nothing counts as a change", lambda e: it.fi.loc(e.node))
    RF, RM = r"REGISTERED_HANDLER_BY_FUNCTION\.get\(", r"REGISTERED_HANDLER_BY_METHOD\.get\("
    some = [("declared function", dict(registered="X", caller="none"), RF), ("declared function of a module", dict(registered="X", caller="module"), RF), ("declared method", dict(registered="X"), RF),
            ("declared method of a base class", dict(by_method="X"), RM), ("undeclared", dict(), r"^StandardMutation$"), ("undeclared function", dict(caller="none"), r"^StandardMutation$"), ("undeclared function of a module", dict(caller="module"), r"^StandardMutation$"),
            ("changing method", dict(registered="MutatingMethodEventNotYetImplemented"), r"^CallerMutation$"), ("changing method of a base class", dict(by_method="MutatingMethodEventNotYetImplemented"), r"^CallerMutation$"),
            ("function that is not known", dict(fn=False), r"^StandardMutation$"), ("method of a class", dict(caller="class", by_method="X"), r"^StandardMutation$"),
            ("function is preferred", dict(registered="X", by_method="NoopCallHandler"), RF)]
    for name, k, want in some:
        it = run(**k)
        for e in reached(it, k):
            cs = made(e)
            ok = len(cs) == 1 and re.search(want, T(cs[0].recv)) is not None and e.value is not None and ".create(" in T(e.value)
            ctx.ob("R1-effect", f"{RES}:{name}", ok, f"the effect is {[T(x.recv)[:60] for x in cs] or 'none'}", it.fi.loc(e.node))
            if not cs:
                continue
            x = cs[0]
            c = k.get("caller", "instance")
            ctx.ob("R2-whose", f"{RES}:{name}:receiver", kw(x, "caller_self") == ("None" if c == "module" else "caller_self" if c != "none" else kw(x, "caller_self")) and (c != "none" or kw(x, "caller_self") in ("None", "caller_self")),
                   f"the receiver is taken to be {kw(x, 'caller_self')}", it.fi.loc(e.node))
            ctx.ob("R2-whose", f"{RES}:{name}:call", kw(x, "function_or_method") == "function_or_method" and kw(x, "call_node") == "call_node" and kw(x, "calling_symbol") == "calling_symbol", "the call itself is not passed on", it.fi.loc(e.node))
            m = kw(x, "module") or "nothing"
            ctx.ob("R2-whose", f"{RES}:{name}:module", m == "module" or c == "module" and m == "caller_self" or k.get("by_method") is not None and not re.search(r"^getattr\(|__module__$", m), f"the module is {m}", it.fi.loc(e.node))
        ctx.ob("R1-effect", f"{RES}:{name}: paths", bool(reached(it, k)), "such a call fails", it.fi.loc())
    # the module that is the receiver
    it = run(caller="module", module="none")
    every(ctx, "R2-whose", f"{RES}:module", [x for e in returns(it) for x in made(e)], lambda x: kw(x, "module") == "caller_self" and kw(x, "caller_self") == "None", "a function of a module is taken for a method of it", lambda x: it.fi.loc(x.node))
    # called by another name
    it = run(caller="none", module="none", bound=True)
    every(ctx, "R2-whose", f"{RES}:bound method", [x for e in returns(it) for x in made(e)], lambda x: kw(x, "caller_self") == "function_or_method.__self__", "a bound method that is called by a name does not change its object", lambda x: it.fi.loc(x.node))
    it = run(caller="none", module="none", bound=True, unbound_self="module")
    every(ctx, "R2-whose", f"{RES}:builtin function", [x for e in returns(it) for x in made(e)], lambda x: kw(x, "caller_self") in ("None", "caller_self"), "the module of a builtin function is taken for its receiver", lambda x: it.fi.loc(x.node))
    # bound methods are those of the class
    it = run(bound=True, registered="X")
    for e in [e for e in it.ends if e.kind == "return" and made(e)]:
        gs = [x for x in e.trace if x.is_call("get") and T(x.recv) == "REGISTERED_HANDLER_BY_FUNCTION"]
        ctx.ob("R1-effect", f"{RES}:the function of the class", "REGISTERED_HANDLER_BY_FUNCTION.get(getattr(function_or_method.__self__.__class__, function_or_method.__name__" in T(made(e)[0].recv) or bool(gs) and all(re.match(r"getattr\(function_or_method\.__self__\.__class__, function_or_method\.__name__", T(x.b[0])) or T(x.b[0]) == "function_or_method.__func__" for x in gs), "what is declared for a method is not found by its bound method", it.fi.loc(e.node))
    # unhashable callables
    it = ctx.run(RES, base(registered="X"), CALL, onlyraise={"get"})
    ctx.ob("R1-none", f"{RES}:unhashable", any(e.kind == "return" and e.value == NONE and any(x.is_call("get") and T(x.recv) == "REGISTERED_HANDLER_BY_FUNCTION" for x in e.trace) for e in it.ends), "calling something that cannot be hashed fails", it.fi.loc())
    # base classes in order, the nearest wins
    it = run(by_method="X")
    its = loops_over(it, r"mro\(\)|__mro__")
    hit = [i for i in its if any(x.is_call("get") and T(x.recv) == "REGISTERED_HANDLER_BY_METHOD" for x in i.events)]
    ctx.ob("R1-nearest", f"{RES}:found", bool(hit) and all(i.kind in ("break", "hit", "return") for i in hit), "a base class overrides what is declared for a class", it.fi.loc())
    ctx.ob("R1-nearest", f"{RES}:order", bool(its) and all(re.fullmatch(r"(list\()?(caller_self\.__class__|type\(caller_self\))(\.mro\(\)|\.__mro__)\)?", T(i.iter)) for i in its), f"the classes are searched in another order: {T(its[0].iter) if its else None}", it.fi.loc())
    for i in hit:
        for x in i.events:
            if x.is_call("get") and T(x.recv) == "REGISTERED_HANDLER_BY_METHOD":
                ctx.ob("R1-nearest", f"{RES}:key", x.b[0][0] == "tuple" and len(x.b[0][1]) == 2 and T(x.b[0][1][0]).startswith("elem(") and T(x.b[0][1][1]) == "method", "the handler of another method is used", it.fi.loc(x.node))
    it = run()
    its = loops_over(it, r"mro\(\)|__mro__")
    ctx.ob("R1-nearest", f"{RES}:all", bool(its) and not any(i.kind in ("break", "hit", "return") for i in its), "not all base classes are searched", it.fi.loc())


# ------------------------------------------------------------------ the effects
def effects_(ctx):
    Q = f"{H}.mutate_caller"
    OPQ = {f"{H}._mutate_calling_symbol", f"{H}.mutate_aliases"}
    AL = r"flow\(\)\.aliases(\.get\((self\.caller_self_obj_id|\(self\.caller_self_obj_id or -1\)|id\(self\.caller_self\))(, .*)?\)|\[.*\])"
    # nothing to change
    it = ctx.run(Q, O().when(IS(CALLER, "None"), True), CALL, opaque=OPQ)
    every(ctx, "R3-receiver", f"{Q}:no receiver", ends(it), lambda e: not any(x.is_call("_mutate_calling_symbol", "mutate_aliases", "update_deps") for x in e.trace), "something is changed without a receiver", lambda e: it.fi.loc(e.node))
    for attr, name in itertools.product((True, False), repeat=2):
        o = O().when(IS(CALLER, "None"), False).when(IS(r"self\.calling_symbol", "None"), True).when(IS(r"self\.call_node", "None"), False)
        isinst(o, r"self\.call_node\.func", *(["ast.Attribute", "Attribute"] if attr else ["ast.Name", "Name"]))
        isinst(o, r"self\.call_node\.func\.value", *(["ast.Name", "Name"] if name else ["ast.Subscript"]))
        it = ctx.run(Q, o, CALL, opaque=OPQ, onlyraise=set())
        con = f"{Q}:attribute={attr}:of a name={name}"
        one = all_ = 0
        for e in ends(it):
            ms = [x for x in e.trace if x.is_call("_mutate_calling_symbol")]
            als = [x for x in e.trace if x.is_call("mutate_aliases")]
            one += bool(ms)
            all_ += bool(als)
            ctx.ob("R3-receiver", con, bool(ms) or bool(als) or any(x.kind == "iter" for x in e.trace) and False, "a call that changes its receiver changes nothing", it.fi.loc(e.node))
            for x in ms + als:
                ctx.ob("R3-receiver", con + ": elements", arg(x, 1, "should_propagate") == "should_propagate", "whether elements are changed is not as asked for", it.fi.loc(x.node))
            for x in als:
                ctx.ob("R3-receiver", con + ": whose", arg(x, 0, "obj_id") in ("self.caller_self_obj_id", "id(self.caller_self)"), "another object is changed", it.fi.loc(x.node))
            for x in ms:
                ctx.ob("R3-receiver", con + ": whose", re.search(r"flow\(\)\.aliases", T(x.b[0])) is not None and "caller_self" in T(x.b[0]), "another symbol is changed", it.fi.loc(x.node))
        ctx.ob("R3-receiver", con + ": by name", bool(all_) and bool(one) is (attr and name), "the name the object is used by is not the one that is changed", it.fi.loc())
    o = O().when(IS(CALLER, "None"), False).when(IS(r"self\.calling_symbol", "None"), False)
    it = ctx.run(Q, o, CALL, opaque=OPQ, onlyraise=set())
    every(ctx, "R3-receiver", f"{Q}:known symbol", ends(it), lambda e: any(x.is_call("_mutate_calling_symbol") and T(x.b[0]) == "self.calling_symbol" and arg(x, 1, "should_propagate") == "should_propagate" for x in e.trace), "the symbol that is called is not changed", lambda e: it.fi.loc(e.node))
    # the name in the alias filter
    o = O().when(IS(CALLER, "None"), False).when(IS(r"self\.calling_symbol", "None"), True).when(IS(r"self\.call_node", "None"), False).when(r"^isinstance\(self\.call_node", True)
    it = ctx.run(Q, o, CALL, opaque=OPQ, onlyraise=set())
    got = [(e, x) for e in ends(it) for x in e.trace if x.is_call("_mutate_calling_symbol")]
    NM = r"\.name == self\.call_node\.func\.value\.id|self\.call_node\.func\.value\.id == .*\.name"
    every(ctx, "R3-receiver", f"{Q}:used by that name", got, lambda p: re.search(NM, T(p[1].b[0])) is not None or any(v and re.search(NM, T(k)) for k, v in p[0].facts.items()), "names the object is not used by are changed", lambda p: it.fi.loc())
    # the change
    Q = f"{H}._mutate_calling_symbol"
    it = ctx.run(Q, O(), CALL, opaque={"update_deps", f"{H}.arg_syms"}, onlyraise=set())
    for e in ends(it):
        us = [x for x in e.trace if x.is_call("update_deps")]
        ok = len(us) == 1 and T(us[0].recv) == "sym" and arg(us[0], 0, "new_deps") == "self.arg_syms" and kw(us[0], "overwrite") == "False" and kw(us[0], "mutated") == "True" and kw(us[0], "propagate_to_namespace_descendents") == "should_propagate" and kw(us[0], "refresh") == "should_propagate"
        ctx.ob("R3-change", Q, ok, "a change is not recorded as one, or forgets what the value depended on", it.fi.loc(e.node))
    # aliases
    Q = f"{H}.mutate_aliases"
    it = ctx.run(Q, O(), CALL, opaque={"_mutate_calling_symbol"}, onlyraise=set())
    its = loops_over(it, r"flow\(\)\.aliases")
    ctx.ob("R3-aliases", Q, bool(its) and all(i.kind != "break" and any(x.is_call("_mutate_calling_symbol") and T(x.b[0]).startswith("elem(") and arg(x, 1, "should_propagate") == "should_propagate" for x in i.events) for i in its) and all(re.search(r"aliases(\.get\(|\[)\(?obj_id", T(i.iter)) for i in its),
           "an alias of the object is not changed", it.fi.loc())
    # modules
    Q = f"{H}.mutate_module"
    for none in (True, False):
        it = ctx.run(Q, O().when(IS(r"self\.module", "None"), none), CALL, opaque={"mutate_aliases"}, onlyraise=set())
        every(ctx, "R3-module", f"{Q}:none={none}", ends(it), lambda e: any(x.is_call("mutate_aliases") and arg(x, 0, "obj_id") == "id(self.module)" and arg(x, 1, "should_propagate") == "should_propagate" for x in e.trace) is not none, "the module is not changed", lambda e: it.fi.loc(e.node))
    # declared effects
    for c, meth in (("CallerMutation", "mutate_caller"), ("ModuleMutation", "mutate_module")):
        q = method(ctx, c, "handle")
        it = ctx.run(q, O(), CALL, opaque={"mutate_caller", "mutate_module"}, onlyraise=set())
        every(ctx, "R3-declared", f"{c}.handle", ends(it), lambda e: [x.a[2] for x in e.trace if x.is_call("mutate_caller", "mutate_module")] == [meth] and all(arg(x, 0, "should_propagate") == "True" for x in e.trace if x.is_call(meth)), "the declared change is not made", lambda e: it.fi.loc(e.node))
    for c, who in (("CallerUpsert", "caller_self"), ("ModuleUpsert", "module")):
        q = method(ctx, c, "handle")
        it = ctx.run(q, O(), CALL, opaque={"update_deps", "arg_syms"}, onlyraise=set())
        its = loops_over(it, r"aliases")
        ok = bool(its) and all(i.kind != "break" and re.search(rf"aliases(\.get\(|\[)\(?(id\(self\.{who}\)|self\.{who}_obj_id)", T(i.iter)) and any(
            x.is_call("update_deps") and T(x.recv).startswith("elem(") and arg(x, 0, "new_deps") == "self.arg_syms" and kw(x, "overwrite") in ("True", None) and kw(x, "mutated") in (None, "False") and kw(x, "refresh") in ("True", None) and kw(x, "propagate_to_namespace_descendents") == "True" for x in i.events) for i in its)
        ctx.ob("R3-declared", f"{c}.handle", ok, "the declared new value is not recorded for every alias", it.fi.loc())
        ctx.ob("R3-declared", f"{c}.handle:usage", bool(its) and all(any(x.is_call("pop", "discard") and "pending_usage_updates_by_sym" in T(x.recv) for x in i.events) for i in its), "what is set anew counts as used", it.fi.loc())
    # standard effect
    q = method(ctx, "StandardMutation", "handle")
    inl = {"StandardMutation._maybe_mutate_caller"}
    for ret in ("None", "receiver", "other"):
        o = O().when(IS(CALLER, "None"), False).when(IS(r"self\.return_value", "None"), ret == "None").when(IS(CALLER, r"self\.return_value"), ret == "receiver")
        it = ctx.run(q, o, CALL, opaque={"mutate_caller", "mutate_module"}, inline=inl, onlyraise=set())
        every(ctx, "R4-standard", f"StandardMutation:returns {ret}", ends(it), lambda e: any(x.is_call("mutate_caller") and arg(x, 0, "should_propagate") == "True" for x in e.trace) is (ret != "other") and not any(x.is_call("mutate_module") for x in e.trace),
              "a method without a result changes nothing, or one with a result does", lambda e: it.fi.loc(e.node))
    MOD = lambda m, ret, args=True, exc=False, prim=False: O().when(IS(CALLER, "None"), True).when(IS(r"self\.module", "None"), not m).when(IS(r"self\.return_value", "None"), ret).when(
        r"^len\(self\.args\) == 0$|^\(?len\(self\.args\) == 0\)?$", not args).when(r"^self\.args$", args).when(r"in ARG_MUTATION_EXCEPTED_MODULES", exc).when(r"^isinstance\(self\.args\[0\]\[0\]", prim)
    for m, ret, args, exc, prim in itertools.product((True, False), repeat=5):
        it = ctx.run(q, MOD(m, ret, args, exc, prim), CALL, opaque={"mutate_caller", "mutate_module", "ArgMutate.handle"}, inline=inl, onlyraise=set())
        for e in ends(it):
            mm = any(x.is_call("mutate_module") and arg(x, 0, "should_propagate") == "True" for x in e.trace)
            am = [x for x in e.trace if x.is_call("handle") and T(x.recv) == "ArgMutate"]
            con = f"StandardMutation:module={m}:nothing={ret}:arguments={args}:excepted={exc}:plain={prim}"
            ctx.ob("R4-standard", con, mm is (m and ret), "a function that returns nothing does not change its module, or another one does", it.fi.loc(e.node))
            ctx.ob("R4-standard", con + ": argument", bool(am) is (m and ret and args and not exc and not prim), "the first argument counts as changed where it cannot be, or the other way round", it.fi.loc(e.node))
    it = ctx.run(q, MOD(True, True), CALL, opaque={"mutate_caller", "mutate_module", "ArgMutate.handle"}, inline=inl, onlyraise=set())
    for e in ends(it):
        w = [x for x in e.trace if x.kind == "assign" and T(x.a) in ("self.args", "self._arg_syms")]
        ctx.ob("R4-standard", "StandardMutation: first argument", any(T(x.a) == "self.args" and T(x.b).startswith(("([self.args[0]] + ", "([(self.args[0])] + ", "[self.args[0]")) for x in w) or not any(T(x.a) == "self.args" for x in w), f"the first argument is not among what is changed: {[T(x.b)[:60] for x in w]}", it.fi.loc(e.node))
        ctx.ob("R4-standard", "StandardMutation: recomputed", any(T(x.a) == "self._arg_syms" and x.b == NONE for x in w), "the arguments that are changed are those of before", it.fi.loc(e.node))
    it = ctx.run(q, MOD(True, True), CALL, opaque={"mutate_caller", "mutate_module", "ArgMutate.handle"}, inline=inl, onlyraise=set())
    got = [(e, x) for e in ends(it) for x in e.trace if x.is_call("append", "extend") and x.b and re.search(r"elem\(self\.args\[1:", T(x.b[0]))]
    every(ctx, "R4-standard", "StandardMutation: other arguments", got, lambda p: re.search(r"self\.args\[0\]\[1\].* in .*\.parents", T(p[1].b[0])) is not None or any(v and re.search(r"self\.args\[0\]\[1\].* in .*\.parents", T(k)) for k, v in p[0].facts.items()),
          "other arguments are changed as well", lambda p: it.fi.loc())
    for e, x in got:
        dep = [v for k, v in e.facts.items() if re.search(r"self\.args\[0\]\[1\].* in .*\.parents", T(k)) and not re.search(r"^(any|\(?len)\(", T(k))]
        some = [v if not re.search(r"== 0", T(k)) else not v for k, v in e.facts.items() if re.search(r"setcomp|listcomp|filtered", T(k)) and re.search(r"self\.args\[1:", T(k))]
        ctx.ob("R4-standard", "StandardMutation: depending arguments", all(dep) and all(some), "arguments that do not depend on the first one are changed, and those that do are not", it.fi.loc(x.node))
    q = method(ctx, "ArgMutate", "handle")
    for none, anon in itertools.product((True, False), repeat=2):
        o = O().when(r"^\(?(elem\(self\.arg_syms\) is None|None is elem\(self\.arg_syms\))\)?$", none).when(r"\.is_anonymous$", anon)
        it = ctx.run(q, o, CALL, opaque={"update_deps", "arg_syms"}, onlyraise=set())
        its = loops_over(it, r"arg_syms")
        ok = bool(its) and all(i.kind != "break" and any(x.is_call("update_deps") and T(x.recv) == "elem(self.arg_syms)" and arg(x, 0, "new_deps") in ("set()", "new_set") and kw(x, "overwrite") == "False" and kw(x, "mutated") == "True" for x in i.events) is (not none and not anon) for i in its)
        ctx.ob("R4-standard", f"ArgMutate:none={none}:anonymous={anon}", ok, "an argument that is changed is missed", it.fi.loc())
    # the symbols of the arguments
    q = f"{H}.arg_syms"
    it = ctx.run(q, O().when(IS(r"self\._arg_syms", "None"), True), CALL)
    for e in returns(it):
        w = [x for x in e.trace if x.kind == "assign" and T(x.a) == "self._arg_syms"]
        t = T(w[-1].b) if w else T(e.value)
        ctx.ob("R5-arguments", q, "self.args" in t and "self.kwargs.values()" in t and "[1]" in t, f"the symbols of some arguments are missed: {t[:100]}", it.fi.loc(e.node))
    for q, store in ((f"{H}._process_arg_impl", lambda x: x.is_call("append") and T(x.recv) == "self.args" and T(x.b[0]) == "arg"), (f"{H}._process_kwarg_impl", lambda x: x.kind == "setitem" and T(x.a) == "self.kwargs" and T(x.b) == "kw" and T(x.c) == "arg")):
        it = ctx.run(q, O(), CALL, opaque={"process_arg", "process_kwarg"}, onlyraise=set())
        pk = "process_kwarg" if "kwarg" in q else "process_arg"
        every(ctx, "R5-arguments", q, ends(it), lambda e: any(store(x) for x in e.trace) and any(x.is_call(pk) and T(x.b[-1]) == "arg[0]" for x in e.trace), "an argument is not recorded", lambda e: it.fi.loc(e.node))
    q = f"{H}.process_return"
    it = ctx.run(q, O(), CALL)
    every(ctx, "R5-result", q, ends(it), lambda e: any(x.kind == "assign" and T(x.a) == "self.return_value" and T(x.b) == "return_value" for x in e.trace), "the result of the call is not recorded", lambda e: it.fi.loc(e.node))
    it = ctx.run(f"{H}.__init__", O(), CALL, onlyraise=set())
    for e in ends(it):
        w = {T(x.a): T(x.b) for x in e.trace if x.kind == "assign"}
        for a in ("module", "caller_self", "function_or_method", "call_node", "calling_symbol"):
            ctx.ob("R5-arguments", f"{H}.__init__:{a}", w.get(f"self.{a}") == a, "the call is not recorded as it was made", it.fi.loc())
        for a, v in (("args", r"\[\]|new_list|list\(\)"), ("kwargs", r"\{\}|new_dict|dict\(\)"), ("_arg_syms", "None"), ("return_value", r"self\.not_yet_defined|.*not_yet_defined")):
            ctx.ob("R5-arguments", f"{H}.__init__:{a}", f"self.{a}" in w and re.fullmatch(v, w[f"self.{a}"]) is not None, f"a call starts with {w.get('self.' + a)} of another one", it.fi.loc())
    q = f"{H}.create"
    it = ctx.run(q, O(), CALL, onlyraise=set(), opaque={f"{H}._initialize_impl"})
    for e in returns(it):
        cs = [x for x in e.trace if x.kind == "call" and T(x.a) in ("cls", H)]
        ok = len(cs) == 1 and all(re.match(rf"kwargs(\.pop\('{a}', None\)|\.get\('{a}'(, None)?\)|\['{a}'\])$", kw(cs[0], a) or "") for a in ("module", "caller_self", "function_or_method", "call_node", "calling_symbol"))
        ctx.ob("R5-arguments", q, ok and T(e.value).endswith("._initialize_impl()") | ("_initialize_impl(" in T(e.value)), "the call is not recorded as it was made, or its handler not prepared", it.fi.loc(e.node))
    q = f"{H}._initialize_impl"
    it = ctx.run(q, O().when(r"hasattr\(.*'initialize'\)", True), CALL, onlyraise=set())
    its = loops_over(it, r"mro\(\)|__mro__")
    ctx.ob("R5-arguments", q, bool(its) and all(any(x.is_call("initialize") for x in i.events) and i.kind != "break" for i in its), "a handler is not prepared before the call", it.fi.loc())
    # what a handler returns is what the call gives
    q = f"{H}._handle_impl"
    for none, nonode in itertools.product((True, False), repeat=2):
        o = O().when(IS(r"self\.handle\(\)", "None"), none).when(IS(r"self\.call_node", "None"), nonode)
        it = ctx.run(q, o, CALL, opaque={f"{H}.handle", "handle"}, onlyraise=set())
        for e in ends(it):
            hs = [x for x in e.trace if x.is_call("handle") and T(x.recv) == "self"]
            ex = [x for x in e.trace if x.is_call("extend", "append", "update") and "node_id_to_loaded_symbols" in T(x.recv)]
            ctx.ob("R5-result", f"{q}:none={none}:unknown={nonode}", len(hs) == 1 and bool(ex) is (not none and not nonode), "an effect is not applied exactly once, or its result is not that of the call", it.fi.loc(e.node))


# ------------------------------------------------------------------ lists and dictionaries
def containers(ctx):
    names = {"ListExtend": "extend", "ListAppend": "append", "ListInsert": "insert", "ListRemove": "remove", "ListPop": "pop"}
    for c in names:
        q = method(ctx, c, "handle")
        ctx.ob("R6-lists", f"{c}: handled", q is not None, f"list.{names[c]} has no effect")
        if q is None:
            continue
        for known, hasns in itertools.product((True, False), repeat=2):
            S = r"flow\(\)\.get_first_full_symbol\(.*?\)"
            o = O().when(IS(S, "None"), not known).when(IS(S + r"\.namespace", "None"), not hasns)
            it = ctx.run(q, o, CALL, opaque={"mutate_caller", "handle_namespace"}, onlyraise=set())
            for e in ends(it):
                ms = [x for x in e.trace if x.is_call("mutate_caller")]
                hn = [x for x in e.trace if x.is_call("handle_namespace") and T(x.recv) == "self"]
                con = f"{c}:known={known}:elements={hasns}"
                ctx.ob("R6-lists", con, len(ms) == 1 and arg(ms[0], 0, "should_propagate") == "False", "the list is not changed, or all of its elements are", it.fi.loc(e.node))
                ctx.ob("R6-lists", con + ": elements", bool(hn) is (known and hasns) and all(re.search(r"get_first_full_symbol\((\(self\.caller_self_obj_id or -1\)|self\.caller_self_obj_id|id\(self\.caller_self\))\)\.namespace$", T(x.b[0])) for x in hn), "the elements of the list are not followed", it.fi.loc(e.node))
                ctx.ob("R6-lists", con + ": order", not hn or bool(ms) and e.trace.index(hn[0]) < e.trace.index(ms[0]), "the list counts as changed before its elements are", it.fi.loc(e.node))
    # extend, append
    q = method(ctx, "ListExtend", "initialize")
    it = ctx.run(q, O(), CALL, onlyraise=set())
    every(ctx, "R6-added", "ListExtend: before", ends(it), lambda e: any(x.kind == "assign" and T(x.a) == "self.orig_len" and T(x.b) == "len(self.caller_self)" for x in e.trace), "the number of elements before the call is not known", lambda e: it.fi.loc(e.node))
    for c in ("ListExtend", "ListAppend"):
        q = method(ctx, c, "handle_namespace")
        it = ctx.run(q, O(), CALL, opaque={"upsert_symbol_for_name", "arg_syms"}, onlyraise=set())
        its = loops_over(it, r"range")
        ctx.ob("R6-added", f"{c}: range", bool(its) and all(re.fullmatch(r"range\(self\.orig_len, len\((namespace\.obj|self\.caller_self)\)(, 1)?\)", T(i.iter)) for i in its), f"other elements than those that were added are recorded: {[T(i.iter) for i in its][:1]}", it.fi.loc())
        for i in its:
            us = [x for x in i.events if x.is_call("upsert_symbol_for_name")]
            ok = len(us) == 1 and i.kind != "break" and T(us[0].recv) == "namespace" and T(us[0].b[0]).startswith("elem(range(") and T(us[0].b[1]) in (f"namespace.obj[{T(us[0].b[0])}]", f"self.caller_self[{T(us[0].b[0])}]") and arg(us[0], 2, "deps") == "self.arg_syms" and kw(us[0], "is_subscript") == "True" and kw(us[0], "propagate") == "False"
            ctx.ob("R6-added", f"{c}: each", ok, "an element that was added is recorded with another value, position or without what it was computed from", it.fi.loc())
    # insert
    q = method(ctx, "ListInsert", "handle_namespace")
    it0 = None
    for pos in ("none", "few", "negative", "positive"):
        o = O().when(IS(r"self\.insert_pos", "None"), pos == "none").fn(lambda a, s: (pos == "few") if re.search(r"^\(?len\(self\.args\) < 2\)?$", T(a)) else (pos != "few") if re.search(r"^\(?len\(self\.args\) >= 2\)?$|^\(?1 < len\(self\.args\)\)?$", T(a)) else None)
        o.fn(lambda a, s: (pos == "negative") if re.search(r"^\(?self\.insert_pos < 0\)?$", T(a)) else (pos != "negative") if re.search(r"^\(?(0 <= self\.insert_pos|self\.insert_pos >= 0)\)?$", T(a)) else None)
        o.fn(lambda a, s: False if a[0] in ("cmp", "truth") and re.search(r"^\(?(len\(.*\) > 1|1 < len\(.*\))\)?$", T(a)) and "insert" not in T(a)[:12] else None)
        it = ctx.run(q, o, CALL, opaque={"upsert_symbol_for_name", "shuffle_symbols_upward_from"}, onlyraise=set())
        for e in ends(it):
            sh = [x for x in e.trace if x.is_call("shuffle_symbols_upward_from")]
            us = [x for x in e.trace if x.is_call("upsert_symbol_for_name")]
            con = f"ListInsert:{pos}"
            if pos in ("none", "few"):
                ctx.ob("R6-inserted", con, not sh and not us, "elements are moved although it is not known where to", it.fi.loc(e.node))
                continue
            ok = len(sh) == len(us) == 1 and e.trace.index(sh[0]) < e.trace.index(us[0]) and T(sh[0].recv) == T(us[0].recv) == "namespace" and T(sh[0].b[0]) == T(us[0].b[0])
            ctx.ob("R6-inserted", con, ok, "the elements behind the new one are not moved, or overwritten", it.fi.loc(e.node))
            if not ok:
                continue
            p = T(us[0].b[0])
            n = r"\(?(len\(namespace\.obj\) - 1|-1 \+ len\(namespace\.obj\))\)?"
            want = rf"min\((max\(\(?(self\.insert_pos \+ {n}|{n} \+ self\.insert_pos)\)?, 0\)|max\(0, .*\)), {n}\)" if pos == "negative" else rf"min\((self\.insert_pos, {n}|{n}, self\.insert_pos)\)"
            ctx.ob("R6-inserted", con + ": where", re.fullmatch(want, p) is not None, f"the new element is put at {p}", it.fi.loc(e.node))
            ctx.ob("R6-inserted", con + ": what", T(us[0].b[1]) == f"namespace.obj[{p}]" and kw(us[0], "is_subscript") == "True" and kw(us[0], "overwrite") == "False" and kw(us[0], "propagate") in ("True", None), f"the new element is recorded as {T(us[0].b[1])}", it.fi.loc(e.node))
            ctx.ob("R6-inserted", con + ": from", re.search(r"self\.args\[1\]\[1\]", arg(us[0], 2, "deps") or "") is not None, "the new element is not recorded with what it was computed from", it.fi.loc(e.node))
            it0 = it
    ctx.ob("R6-inserted", "ListInsert: paths", it0 is not None, "nothing is inserted", "")
    q = method(ctx, "ListInsert", "process_arg")
    for seen in (True, False):
        it = ctx.run(q, O().when(IS(r"self\.insert_pos", "None"), not seen), CALL)
        p = [x for x in it.fi.params if x != "self"][0]
        every(ctx, "R6-inserted", f"ListInsert.process_arg:second={seen}", ends(it), lambda e: any(x.kind == "assign" and T(x.a) == "self.insert_pos" and T(x.b) == p for x in e.trace) is not seen, "the position is taken from another argument", lambda e: it.fi.loc(e.node))
    # remove, pop
    for c in ("ListRemove", "ListPop"):
        q = method(ctx, c, "handle_namespace")
        for none in (True, False):
            it = ctx.run(q, O().when(IS(r"self\.remove_pos", "None"), none), CALL, opaque={"delete_symbol_for_name"}, onlyraise=set())
            every(ctx, "R6-removed", f"{c}:unknown={none}", ends(it), lambda e: any(x.is_call("delete_symbol_for_name") and T(x.recv) == "namespace" and T(x.b[0]) == "self.remove_pos" and kw(x, "is_subscript") == "True" for x in e.trace) is not none,
                  "the element that was removed stays recorded, or another one is removed", lambda e: it.fi.loc(e.node))
    q = method(ctx, "ListRemove", "process_arg")
    it = ctx.run(q, O(), CALL, onlyraise={"index"})
    p = [x for x in it.fi.params if x != "self"][0]
    ctx.ob("R6-removed", "ListRemove: position", any(any(x.kind == "assign" and T(x.a) == "self.remove_pos" and T(x.b) == f"self.caller_self.index({p})" for x in e.trace) for e in it.ends) and any(e.kind == "return" and not any(x.kind == "assign" for x in e.trace) for e in it.ends), "the position of the removed element is not known, or removing one that is not there fails", it.fi.loc())
    q = method(ctx, "ListPop", "process_arg")
    it = ctx.run(q, O(), CALL)
    p = [x for x in it.fi.params if x != "self"][0]
    every(ctx, "R6-removed", "ListPop: position", ends(it), lambda e: any(x.kind == "assign" and T(x.a) == "self.remove_pos" and T(x.b) == p for x in e.trace), "another element is removed than the one asked for", lambda e: it.fi.loc(e.node))
    for c, want in (("ListRemove", "None"), ("ListPop", "-1")):
        a = next((ctx.ix.classes[x].attrs["remove_pos"] for x in mro(ctx, c) if "remove_pos" in ctx.ix.classes[x].attrs), None)
        v = getattr(a, "value", a)
        ctx.ob("R6-removed", f"{c}: default", v is not None and ast.unparse(v) == want, f"without an argument, element {ast.unparse(v) if v is not None else None} is removed")
    # clear
    q = method(ctx, "NamespaceClear", "handle")
    S = r"flow\(\)\.get_first_full_symbol\(.*?\)"
    o = O().when(IS(S, "None"), False).when(IS(S + r"\.namespace", "None"), False).when(IS(CALLER, "None"), False).when(IS(r"self\.return_value", "None"), True)
    it = ctx.run(q, o, CALL, opaque={"mutate_caller", "delete_symbol_for_name", "all_symbols_this_indentation"}, inline={"StandardMutation.handle", "StandardMutation._maybe_mutate_caller"}, onlyraise=set())
    every(ctx, "R6-cleared", "NamespaceClear: changed", ends(it), lambda e: any(x.is_call("mutate_caller") for x in e.trace), "clearing does not count as a change", lambda e: it.fi.loc(e.node))
    its = [i for i in loops_over(it, r"all_symbols_this_indentation") if any(x.is_call("delete_symbol_for_name") for x in i.events)]
    ctx.ob("R6-cleared", "NamespaceClear: elements", bool(its) and all(i.kind != "break" and any(x.is_call("delete_symbol_for_name") and T(x.b[0]).startswith("elem(") and T(x.b[0]).endswith(".name") and kw(x, "is_subscript") == "True" for x in i.events) and "is_subscript=True" in T(i.iter) and "listcomp" in T(i.iter) + T(strip_iter(i.iter)) or "list(" in T(i.iter) or "sorted(" in T(i.iter) for i in its),
           "an element of what was cleared stays recorded", it.fi.loc())


# ------------------------------------------------------------------ declarations
MUTATORS = {"dict": {"clear", "pop", "popitem", "setdefault", "update"}, "list": {"append", "clear", "extend", "insert", "remove", "pop", "sort", "reverse"},
            "set": {"add", "clear", "difference_update", "discard", "intersection_update", "pop", "remove", "symmetric_difference_update", "update"}}
RESULT = {"pop", "popitem", "setdefault"}
HARMLESS = {"dict": {"get", "__getitem__", "copy", "keys", "values", "items"}, "list": {"__getitem__", "copy", "count", "index"}, "set": {"copy", "difference", "intersection", "union", "isdisjoint", "issubset", "issuperset"}}
MAYBE_NONE = {"get", "__getitem__"}
ELEMENTS = {("list", "append"): "ListAppend", ("list", "extend"): "ListExtend", ("list", "insert"): "ListInsert", ("list", "remove"): "ListRemove", ("list", "pop"): "ListPop", ("list", "clear"): "NamespaceClear", ("dict", "clear"): "NamespaceClear"}


def pyi(ctx, name):
    root = os.environ.get("VP_REPO", "/repo")
    p = os.path.join(root, "core", "ipyflow", "annotations", name)
    if not os.path.exists(p):
        return None
    with open(p) as f:
        return ast.parse(f.read())


def declared(tree):
    """{(class or None, function): text of the declaration}; and the modules each belongs to"""
    out, mods = {}, {}
    def names(f):
        hs = [a.value for d in f.decorator_list if isinstance(d, ast.Call) and getattr(d.func, "id", None) == "handler_for" for a in d.args if isinstance(a, ast.Constant)]
        return hs or [f.name]
    def ms(n):
        return tuple(a.value for d in n.decorator_list if isinstance(d, ast.Call) and getattr(d.func, "id", None) == "module" for a in d.args if isinstance(a, ast.Constant))
    for n in tree.body if tree else ():
        if isinstance(n, ast.ClassDef):
            for f in n.body:
                if isinstance(f, ast.FunctionDef) and f.returns is not None:
                    for x in names(f):
                        out[(n.name, x)] = ast.unparse(f.returns)
                        mods[(n.name, x)] = ms(n)
        elif isinstance(n, ast.FunctionDef) and n.returns is not None:
            for x in names(n):
                out[(None, x)] = ast.unparse(n.returns)
                mods[(None, x)] = ms(n)
    return out, mods


def effect_of(ctx, h):
    """how a declared handler treats its receiver: none, standard (depends on the result), changes"""
    if h == "MutatingMethodEventNotYetImplemented":
        return "changes"
    m = mro(ctx, h)
    if h == "NoopCallHandler":
        return "none"
    if not m:
        return None
    q = method(ctx, h, "handle")
    o = O().when(IS(CALLER, "None"), False).when(IS(r"self\.return_value", "None"), False).when(IS(CALLER, r"self\.return_value"), False)
    it = ctx.run(q, o, CALL, opaque={"mutate_caller", "handle_namespace"}, inline={"StandardMutation.handle", "StandardMutation._maybe_mutate_caller"}, onlyraise=set())
    es = ends(it)
    if es and all(any(x.is_call("mutate_caller") for x in e.trace) for e in es):
        return "changes"
    o = O().when(IS(CALLER, "None"), False).when(IS(r"self\.return_value", "None"), True)
    it = ctx.run(q, o, CALL, opaque={"mutate_caller", "handle_namespace"}, inline={"StandardMutation.handle", "StandardMutation._maybe_mutate_caller"}, onlyraise=set())
    es = ends(it)
    return "standard" if es and all(any(x.is_call("mutate_caller") for x in e.trace) for e in es) else "none"


def declarations(ctx):
    tree = pyi(ctx, "builtins.pyi")
    ctx.ob("R7-builtins", "builtins.pyi", tree is not None, "nothing is declared for lists, dictionaries and sets")
    d, _ = declared(tree)
    cache = {}
    eff = lambda h: cache.setdefault(h, effect_of(ctx, h))
    for t in MUTATORS:
        for m in sorted(MUTATORS[t]):
            h = d.get((t, m))
            e = eff(h) if h else "standard"
            ctx.ob("R7-builtins", f"{t}.{m}", e == "changes" or e == "standard" and m not in RESULT, f"{t}.{m} does not count as a change ({h})", "core/ipyflow/annotations/builtins.pyi")
        for m in sorted(HARMLESS[t]):
            h = d.get((t, m))
            e = eff(h) if h else "standard"
            ctx.ob("R7-builtins", f"{t}.{m}", e == "none" or e == "standard" and m not in MAYBE_NONE, f"{t}.{m} counts as a change ({h})", "core/ipyflow/annotations/builtins.pyi")
    for (t, m), h in ELEMENTS.items():
        g = d.get((t, m))
        ctx.ob("R7-elements", f"{t}.{m}", g is not None and h in mro(ctx, g), f"the elements {t}.{m} adds, moves or removes are not followed ({g})", "core/ipyflow/annotations/builtins.pyi")
    for f, want in (("time.pyi", {(None, "sleep"): r"NoopCallHandler"}), ("random.pyi", {(None, "seed"): r"Mutate\[__module__\]"}), ("matplotlib.pyplot.pyi", {(None, "show"): "NoopCallHandler", (None, "plot"): "NoopCallHandler", (None, "figure"): r"UpsertSymbol\[__module__\]"}),
                    ("ipyflow.pyi", {(None, "mutate"): "NoopCallHandler", (None, "uninstrument"): "NoopCallHandler"}),
                    ("sklearn.pyi", {(c, m): r"Mutate\[self\]" for c in ("BaseEstimator", "TransformerMixin", "Pipeline") for m in ("fit", "fit_transform")}),
                    ("io.pyi", {("IOBase", m): r"Mutate\[self\]" for m in ("close", "readline", "readlines", "seek")})):
        d, _ = declared(pyi(ctx, f))
        for k, w in want.items():
            ctx.ob("R7-libraries", f"{f}:{'.'.join(x for x in k if x)}", k in d and re.fullmatch(w, d[k]) is not None, f"declared as {d.get(k)}", f"core/ipyflow/annotations/{f}")


def compiler(ctx):
    q = "_make_mutate_name_handler"
    for name, over in itertools.product(("__module__", "self", "x"), (True, False)):
        o = O().fn(lambda a, s: (name == n) if (n := (re.search(r"name == '(\w+)'|'(\w+)' == name", T(a)) or [None])[0]) and (n := re.search(r"'(\w+)'", n).group(1)) else None).when(r"^is_method$", True).when(r"^overwrite$", over)
        it = ctx.run(q, o, CALL, opaque={"_arg_position_in_signature", "_mutate_argument"}, onlyraise=set())
        for e in returns(it):
            v = T(e.value)
            if name == "x":
                cs = [x for x in e.trace if x.is_call("_mutate_argument") or x.kind == "call" and T(x.a) == "_mutate_argument"]
                A = r"_arg_position_in_signature\(func, name, (is_method=)?is_method\)"
                ok = len(cs) == 1 and re.fullmatch(A + r"\[0\]", arg(cs[0], 0, "pos") or "") and arg(cs[0], 2, "overwrite") == "overwrite" and re.fullmatch(rf"\(?None if {A}\[1\] else name\)?|None|name|\({A}\[1\] \? None : name\)", arg(cs[0], 1, "name") or "") and "_mutate_argument(" in v
                ctx.ob("R8-names", f"{q}:argument:overwrite={over}", ok, f"the declared argument is not the one that is changed: {v[:120]}", it.fi.loc(e.node))
                if arg(cs[0], 1, "name") if cs else None in ("None", "name"):
                    po = [k for k, w in e.facts.items() if re.search(A + r"\[1\]\)?$", T(k))]
                    if arg(cs[0], 1, "name") in ("None", "name"):
                        ctx.ob("R8-names", f"{q}:argument:positional only", bool(po) and e.facts[po[0]] is (arg(cs[0], 1, "name") == "None"), "an argument is looked for under a name it cannot have", it.fi.loc(e.node))
            else:
                want = ("Module" if name == "__module__" else "Caller") + ("Upsert" if over else "Mutation")
                ctx.ob("R8-names", f"{q}:{name}:overwrite={over}", v == want, f"declared a change of {name} and compiled to {v}", it.fi.loc(e.node))
        ctx.ob("R8-names", f"{q}:{name}:overwrite={over}: paths", bool(returns(it)), "such a declaration has no effect", it.fi.loc())
    # argument positions
    q = "_arg_position_in_signature"
    it = ctx.run(q, O().when(r"^\(?(elem\(.*\)(\[1\])?\.arg == arg_name|arg_name == elem\(.*\)(\[1\])?\.arg)\)?$", True), CALL, onlyraise=set())
    its = loops_over(it, r"func\.args")
    ctx.ob("R8-names", f"{q}:order", bool(its) and all(re.search(r"posonlyargs.*func\.args\.args.*func\.args\.kwonlyargs", T(i.iter)) for i in its), f"arguments are counted in another order: {T(its[0].iter)[:90] if its else None}", it.fi.loc())
    P = r"getattr\(func\.args, 'posonlyargs', (\[\]|new_list|\(\))\)|func\.args\.posonlyargs"
    rs = returns(it)
    for kwonly in (True, False):
        o = O().when(r"^\(?(elem\(.*\)(\[1\])?\.arg == arg_name|arg_name == elem\(.*\)(\[1\])?\.arg)\)?$", True)
        def kwo(a, s):
            t = T(a)
            m = re.match(r"^\(?(.*?) (>=|<=|<|>) (.*?)\)?$", t)
            if a[0] not in ("cmp", "truth") or not m or "len(func.args.args)" not in t:
                return None
            left = "len(func.args.args)" not in m.group(1)
            op = m.group(2) if left else {">=": "<=", "<=": ">=", "<": ">", ">": "<"}[m.group(2)]
            return kwonly if op == ">=" else not kwonly if op == "<" else None
        o.fn(kwo)
        it = ctx.run(q, o, CALL, onlyraise=set())
        for e in returns(it):
            v = e.value
            ok = v[0] == "tuple" and len(v[1]) == 2
            ctx.ob("R8-names", f"{q}:shape", ok, "the position of an argument is not told", it.fi.loc(e.node))
            if not ok:
                continue
            a, b = T(v[1][0]), T(v[1][1])
            good = re.fullmatch(r"\(?(elem\(.*\)\[0\] - is_method|.* - is_method|.* - int\(is_method\))\)?", a) is not None
            cond = re.fullmatch(r"\(?None if .* else .* - is_method\)?\)?", a) is not None
            ctx.ob("R8-names", f"{q}:keyword={kwonly}", (a == "None") if kwonly and not cond else good or cond, f"the argument is looked for at {a[:80]}", it.fi.loc(e.node))
            ctx.ob("R8-names", f"{q}:positional only", re.search(rf"< len\(({P})\)|len\(({P})\) >", b) is not None, f"whether an argument has a name is told by {b[:80]}", it.fi.loc(e.node))
    # the effect of a declared change of an argument
    q = "_mutate_argument.MutateArgument.handle"
    for byname, bypos, present in itertools.product((True, False), repeat=3):
        for empty, none in ((False, False), (True, False), (False, True)):
            V = r"self\.(kwargs\[name\]|args\[pos\])\[1\]"
            o = O().when(IS("name", "None"), False).when(r"^\(?name in self\.kwargs(\.keys\(\))?\)?$", byname).when(IS("pos", "None"), not bypos)
            o.when(r"^\(?(pos < len\(self\.args\)|len\(self\.args\) > pos)\)?$", present).when(r"^\(?(len\(self\.args\) <= pos|pos >= len\(self\.args\))\)?$", not present)
            o.when(rf"^len\({V}\)$|^{V}$", not empty).when(rf"^\(?len\({V}\) == 0\)?$", empty).when(IS(rf"next\(iter\({V}\)(, None)?\)|elem\({V}\)", "None"), none)
            o.when(r"\{None\}\)? is None|None is .*\{None\}|next\(iter\(\{None\}\)\) is None", True)
            it = ctx.run(q, o, CALL, opaque={"update_deps"}, onlyraise=set())
            want = (byname or bypos and present) and not empty and not none
            src = "self.kwargs[name][1]" if byname else "self.args[pos][1]"
            for e in ends(it):
                us = [x for x in e.trace if x.is_call("update_deps")]
                con = f"MutateArgument:named={byname}:position={bypos}:given={present}:unknown={empty}:none={none}"
                ctx.ob("R8-argument", con, bool(us) is want, "the declared argument is not changed, or something else is", it.fi.loc(e.node))
                for x in us:
                    ctx.ob("R8-argument", con + ": how", src in T(x.recv) and arg(x, 0, "new_deps") in ("set()", "new_set") and kw(x, "overwrite") == "overwrite" and kw(x, "mutated") in ("(not overwrite)", "not overwrite"), "another argument is changed, or it is replaced instead", it.fi.loc(x.node))
    # several
    q = "_make_multi_handler.MultiHandler.handle"
    it = ctx.run(q, O(), CALL, opaque={"handle"}, onlyraise=set())
    its = loops_over(it, r"^handlers$")
    ctx.ob("R8-several", q, bool(its) and all(i.kind != "break" and any(x.is_call("handle") and T(x.recv) == "elem(handlers)" and T(x.b[0]) == "self" for x in i.events) for i in its), "one of several declared changes is not made", it.fi.loc())
    # declarations by their form
    q = "compile_function_handler"
    OPQ = {"_make_mutate_name_handler", "_make_multi_handler"}
    S = r"(?:ret\.slice|subscript_to_slice\((?:ret|func\.returns)\)|subscript_to_slice\(func\.returns\))"
    RET = r"(?:ret|func\.returns)"
    for kind, over, sl in itertools.product(("Name", "Subscript", "other", "none"), (True, False), ("name", "tuple", "other")):
        o = O().when(IS(RET, "None"), kind == "none")
        isinst(o, RET, *({"Name": ["ast.Name", "Name"], "Subscript": ["ast.Subscript", "Subscript"]}.get(kind, ["zzz"])))
        isinst(o, RET + r"\.value", "ast.Name", "Name")
        isinst(o, S, *({"name": ["ast.Name", "Name"], "tuple": ["ast.Tuple", "Tuple"]}.get(sl, ["zzz"])))
        o.when(r"\.value\.id == (Mutate\.__name__|'Mutate')", not over).when(r"\.value\.id == (UpsertSymbol\.__name__|'UpsertSymbol')", over)
        o.when(IS(r"external_call_handler_by_name\.get\(.*\)", "None"), False)
        o.fn(lambda a, s: True if a[0] == "truth" and re.match(r"isinstance\(elem\(.*\.elts\), (ast\.)?Name\)$", T(a[1])) else None)
        it = ctx.run(q, o, CALL, opaque=OPQ, onlyraise=set(), inline=set())
        con = f"{q}:{kind}" + (f":{sl}:overwrite={over}" if kind == "Subscript" else "")
        for e in it.ends:
            if kind == "Name":
                ctx.ob("R8-form", con, e.kind == "return" and re.fullmatch(rf"external_call_handler_by_name(\.get\({RET}\.id(, None)?\)|\[{RET}\.id\])", T(e.value)) is not None, "a declaration by the name of an effect has another effect", it.fi.loc(e.node))
            elif kind == "Subscript" and sl == "name":
                cs = [x for x in e.trace if x.is_call("_make_mutate_name_handler") or T(x.a) == "_make_mutate_name_handler"]
                ok = e.kind == "return" and len(cs) == 1 and arg(cs[0], 0, "func") == "func" and arg(cs[0], 1, "is_method") == "is_method" and re.fullmatch(S + r"\.id", arg(cs[0], 2, "name") or "")
                ov = arg(cs[0], 3, "overwrite") if cs else None
                okov = ov is not None and (ov == str(over) or re.search(r"(UpsertSymbol\.__name__|'UpsertSymbol')", ov) is not None)
                ctx.ob("R8-form", con, ok and okov, f"declared a change of one thing and compiled to {T(e.value)[:80] if e.value else e.kind}", it.fi.loc(e.node))
            elif kind == "Subscript" and sl == "tuple":
                ctx.ob("R8-form", con, e.kind == "raise" or "_make_multi_handler(" in T(e.value), f"declared several changes and compiled to {T(e.value)[:80] if e.value else e.kind}", it.fi.loc(e.node))
            else:
                ctx.ob("R8-form", con, e.kind == "raise", f"what cannot be compiled is compiled to {T(e.value)[:80] if e.value else e.kind}", it.fi.loc(e.node))
        ctx.ob("R8-form", con + ": paths", bool(it.ends) and (kind != "Subscript" or sl != "tuple" or any(e.kind == "return" for e in it.ends)), "such a declaration cannot be compiled", it.fi.loc())
        if kind == "Subscript" and sl == "tuple":
            its = [i for i in loops_over(it, r"\.elts$")]
            ok = bool(its) and all(any(x.kind == "call" and T(x.a) == "_make_mutate_name_handler" and re.search(r"elem\(.*\.elts\)\.id$", arg(x, 2, "name") or "") for x in i.events) and i.kind != "break" for i in its)
            ctx.ob("R8-form", con + ": each", ok, "one of several declared changes is dropped", it.fi.loc())
    o = O().when(IS(RET, "None"), False)
    isinst(o, RET, "ast.Subscript")
    isinst(o, RET + r"\.value", "ast.Name")
    isinst(o, S, "ast.Tuple")
    o.when(r"\.value\.id == (Mutate\.__name__|'Mutate')", True).when(r"\.value\.id == (UpsertSymbol\.__name__|'UpsertSymbol')", False)
    o.fn(lambda a, s: False if a[0] == "truth" and re.match(r"isinstance\(elem\(.*\.elts\), (ast\.)?Name\)$", T(a[1])) else None)
    it = ctx.run(q, o, CALL, opaque=OPQ, onlyraise=set())
    ctx.ob("R8-form", f"{q}:several, one not understood", not any(e.kind == "return" and any(x.kind == "iter" for x in e.trace) for e in it.ends), "half of a declaration is applied", it.fi.loc())
    # classes and functions
    for q, meth in (("compile_class_handler", "True"), ("compile_functions", "False")):
        o = O().fn(lambda a, s: True if a[0] == "truth" and T(a[1]).startswith("isinstance(elem(") else None)
        it = ctx.run(q, o, CALL, opaque={"compile_function_handler", "get_names_for_function"}, onlyraise={"compile_function_handler"}, implicit_exc=None) if False else ctx.run(q, o, CALL, opaque={"compile_function_handler", "get_names_for_function"}, onlyraise=set())
        its = loops_over(it, r"(cls\.body|functions)$")
        cs = [x for i in its for x in i.events if x.kind == "call" and T(x.a) == "compile_function_handler"]
        ctx.ob("R9-registered", f"{q}:compiled", bool(cs) and all(re.fullmatch(r"elem\((cls\.body|functions)\)", T(x.b[0])) and arg(x, 1, "is_method") == meth for x in cs), "methods are compiled as functions, or not at all", it.fi.loc())
        st = [x for i in its for x in i.events if x.kind == "setitem"]
        ctx.ob("R9-registered", f"{q}:named", bool(st) and all(re.fullmatch(r"elem\(get_names_for_function\(elem\((cls\.body|functions)\)\)\)", T(x.b)) and T(x.c).startswith("compile_function_handler(") for x in st), "an effect is registered for another method than the one it is declared for", it.fi.loc())
        it = ctx.run(q, o, CALL, opaque={"compile_function_handler", "get_names_for_function"}, onlyraise={"compile_function_handler"})
        ctx.ob("R9-registered", f"{q}:not understood", bool(it.ends) and all(e.kind == "return" for e in it.ends if not any("Exception" in str(k) for k in e.facts)) or True, "", it.fi.loc())
        every(ctx, "R9-registered", f"{q}:returned", returns(it), lambda e: e.value not in (None, NONE), "what was compiled is lost", lambda e: it.fi.loc(e.node))
    q = "get_names_for_function"
    for other in (True, False):
        o = O()
        D = r"elem\(func\.decorator_list\)"
        o.fn(lambda a, s: True if a[0] == "truth" and re.match(r"isinstance\(elem\(func\.decorator_list\)(\.func)?, ", T(a[1])) else None)
        o.when(rf"^\(?{D}\.func\.id == 'handler_for'\)?$", not other).when(rf"^\(?{D}\.func\.id != 'handler_for'\)?$", other)
        o.fn(lambda a, s: True if a[0] == "truth" and re.match(r"isinstance\(elem\(elem\(func\.decorator_list\)\.args\)", T(a[1])) else None)
        it = ctx.run(q, o, CALL, onlyraise=set())
        ap = [x for e in it.ends for x in e.trace if x.is_call("append", "extend") and "decorator_list" in T(x.b[0])]
        ctx.ob("R9-registered", f"{q}:other decorator={other}", bool(ap) is not other, "a declaration is applied to other methods than those it names", it.fi.loc())
    it = ctx.run(q, O(), CALL, onlyraise=set())
    own = [e for e in returns(it) if re.search(r"func\.name", T(e.value))]
    ctx.ob("R9-registered", f"{q}:own name", bool(own) and any(not any(x.is_call("append") for x in e.trace) for e in own), "a declaration that names no methods is applied to none", it.fi.loc())
    # the registries
    q = "compile_and_register_handlers_for_module"
    for absent in (True, False):
        o = O().when(r"getattr\(module, .*, None\) is None|None is getattr\(module, ", absent).when(r"getattr\(getattr\(.*None\).* is None|None is getattr\(getattr", False)
        o.entries.reverse()
        it = ctx.run(q, o, CALL, opaque={"compile_classes", "compile_functions"}, onlyraise=set())
        ms = [x for e in it.ends for x in e.trace if x.kind == "setitem" and T(x.a) == "REGISTERED_HANDLER_BY_METHOD"]
        fs = [x for e in it.ends for x in e.trace if x.kind == "setitem" and T(x.a) == "REGISTERED_HANDLER_BY_FUNCTION"]
        if absent:
            ctx.ob("R9-registered", f"{q}:not there", not ms and not fs, "an effect is registered for something that does not exist", it.fi.loc())
            continue
        C = r"getattr\(module, .*elem\(.*compile_classes.*\).*, None\)"
        ctx.ob("R9-registered", f"{q}:methods", bool(ms) and all(x.b[0] == "tuple" and len(x.b[1]) == 2 and T(x.b[1][0]).startswith("getattr(module, ") for x in ms), "the effects of methods are not registered for their class", it.fi.loc())
        ctx.ob("R9-registered", f"{q}:functions of classes", any(re.match(r"getattr\(getattr\(module, ", T(x.b)) for x in fs), "the effects of methods are not found by their functions", it.fi.loc())
        ctx.ob("R9-registered", f"{q}:functions", any(re.match(r"getattr\(module, ", T(x.b)) and "compile_functions" in T(x.b) for x in fs), "the effects of functions are not registered", it.fi.loc())
        for x in ms:
            k, v = T(x.b[1][1]), T(x.c)
            ctx.ob("R9-registered", f"{q}:pairs", k.endswith("[0]") and v.endswith("[1]") and k[:-3] == v[:-3] or "[" in v and k in v, f"method {k[-60:]} gets the effect of {v[-60:]}", it.fi.loc(x.node))
    cs = [(T(x.b[0])) for e in it.ends for x in e.trace if x.kind == "call" and T(x.a) in ("compile_classes", "compile_functions")]
    ctx.ob("R9-registered", f"{q}:specs", bool(cs) and all(re.fullmatch(r"REGISTERED_(CLASS|FUNCTION)_SPECS\.get\(module\.__name__, (\[\]|new_list|\(\))\)", c) for c in cs) and len(set(cs)) == 2, "the declarations of another module are used", it.fi.loc())
    it = ctx.run("compile_classes", O(), CALL, opaque={"compile_class_handler"}, onlyraise=set())
    its = loops_over(it, r"^classes$")
    ctx.ob("R9-registered", "compile_classes", bool(its) and all(any(x.kind == "setitem" and T(x.b) == "elem(classes).name" and T(x.c) == "compile_class_handler(elem(classes))" or x.kind == "collect" for x in i.events) and i.kind != "break" for i in its), "the declarations of a class are lost", it.fi.loc())
    # reading the declarations
    q = "register_annotations_from_source"
    for kind, want in (("ClassDef", "REGISTERED_CLASS_SPECS"), ("FunctionDef", "REGISTERED_FUNCTION_SPECS")):
        o = O()
        isinst(o, r"elem\(ast\.parse\(source\)\.body\)", f"ast.{kind}", kind)
        it = ctx.run(q, o, CALL, opaque={"get_modules_from_decorators", "handle_string_annotation"}, onlyraise=set())
        its = [i for i in loops_over(it, r"get_modules_from_decorators")]
        ok = bool(its) and all(i.kind != "break" and any(x.is_call("append") and re.match(rf"{want}\.setdefault\(elem\(.*\), (\[\]|new_list)\)$", T(x.recv)) and T(x.b[0]) == "elem(ast.parse(source).body)" for x in i.events) and any(
            x.is_call("add") and T(x.b[0]).startswith("elem(") or x.kind == "aug" for x in i.events) for i in its)
        ctx.ob("R9-read", f"{q}:{kind}", ok, "a declaration is not recorded for each of its modules", it.fi.loc())
        ctx.ob("R9-read", f"{q}:{kind}: default", any("os.path.splitext(os.path.basename(filename))[0]" in T(x.recv) + "".join(T(b) for b in x.b) for e in it.ends for x in e.trace if x.is_call("append", "setdefault")) or any("os.path.splitext(os.path.basename(filename))[0]" in T(i.iter) for i in its), "a declaration without a module is not that of the module its file is named after", it.fi.loc())
    q = "register_annotations_file"
    for now in (True, False):
        it = ctx.run(q, O().when(r"^should_compile_handlers_for_already_imported_modules$", now), CALL, opaque={"register_annotations_from_source", "compile_handlers_for_already_imported_modules"}, onlyraise=set())
        every(ctx, "R9-read", f"{q}:now={now}", returns(it), lambda e: any(T(x.a) == "compile_handlers_for_already_imported_modules" and "register_annotations_from_source(" in T(x.b[0]) for x in e.trace if x.kind == "call") is now and T(e.value).startswith("register_annotations_from_source("), "declarations for modules that are imported already are not applied", lambda e: it.fi.loc(e.node))
    for q, src in (("compile_handlers_for_already_imported_modules", r"^modules$"), ("register_annotations_directory", r"^registered_modules$|^new_set$|set\(\)|register_annotations_file")):
        for absent in (True, False):
            it = ctx.run(q, O().when(r"sys\.modules\.get\(.*\) is None|None is sys\.modules\.get", absent).when(r"== '\.pyi'|'\.pyi' ==", True), CALL, opaque={"compile_and_register_handlers_for_module", "register_annotations_file"}, onlyraise=set())
            cs = [x for e in it.ends for x in e.trace if x.kind == "call" and T(x.a) == "compile_and_register_handlers_for_module"]
            ctx.ob("R9-read", f"{q}:imported={not absent}", bool(cs) is not absent and all(re.match(r"sys\.modules\.get\(elem\(", T(x.b[0])) for x in cs), "declarations for modules that are imported already are not applied", it.fi.loc())
    q = "register_annotations_directory"
    for is_pyi in (True, False):
        it = ctx.run(q, O().when(r"== '\.pyi'|'\.pyi' ==", is_pyi), CALL, opaque={"compile_and_register_handlers_for_module", "register_annotations_file"}, onlyraise=set())
        cs = [x for e in it.ends for x in e.trace if x.kind == "call" and T(x.a) == "register_annotations_file"]
        ctx.ob("R9-read", f"{q}:declarations={is_pyi}", bool(cs) is is_pyi and all(re.fullmatch(r"os\.path\.join\(dirname, elem\(os\.listdir\(dirname\)\)\)", T(x.b[0])) for x in cs), "a file of declarations is not read", it.fi.loc())
    it = ctx.run("DataflowTracer.init_module" if "DataflowTracer.init_module" in {f.qual for f in ctx.ix.funcs.values()} else "DataflowTracer._init_or_exit_module" if False else imported(ctx), O(), CALL, opaque={"compile_and_register_handlers_for_module"}, onlyraise=set())
    ctx.ob("R9-read", f"{it.fi.qual}:imported later", any(x.kind == "call" and T(x.a) == "compile_and_register_handlers_for_module" for e in it.ends for x in e.trace), "declarations for modules that are imported later are not applied", it.fi.loc())


def imported(ctx):
    """the tracer's function that registers what is declared for a module once it is imported"""
    for f in ctx.ix.funcs.values():
        if "ipyflow_tracer" in str(f.loc()) and any(isinstance(n, ast.Call) and getattr(n.func, "id", None) == "compile_and_register_handlers_for_module" for n in ast.walk(f.node)):
            return f
    raise AnalysisBroken("nothing applies declarations to modules that are imported later")


# ------------------------------------------------------------------ calls as they happen
def tracer(ctx):
    q = "DataflowTracer.before_call"
    SD = r"self\.saved_complex_symbol_load_data"
    OPQ = {"_save_external_call_candidate", "_resolve_external_call", "create_if_not_exists_module_symbol", "_tracked_disable_tracing", "lookup_symbol_by_name"}
    for simple, sub, hasargs in itertools.product((True, False), repeat=3):
        if simple and sub:
            continue
        o = O().when(IS(SD, "None"), simple).when(r"is None$|^\(None is", False) if False else O().when(IS(SD, "None"), simple)
        o.when(IS(r"getattr\(function_or_method, '__qualname__', ''\)", "None"), False).when(r"\.startswith\(", False)
        o.when(rf"^{SD}\[3\]$", sub).when(IS(rf"{SD}\[1\]", "None"), False)
        o.fn(lambda a, s: (not hasargs) if re.search(r"^\(?\(?len\(node\.args\) \+ len\(node\.keywords\)\)? == 0\)?$", T(a)) else hasargs if re.search(r"^\(?(len\(node\.args\) \+ len\(node\.keywords\)|len\(node\.(args|keywords)\)|node\.(args|keywords))\)?( > 0|\))?$", T(a)) else None)
        it = ctx.run(q, o, CALL + () if False else (lambda e: e.kind in ("call", "assign", "enter", "exit")), opaque=OPQ, onlyraise=set())
        con = f"{q}:plain={simple}:item={sub}:arguments={hasargs}"
        for e in ends(it):
            cs = [x for x in e.trace if x.is_call("_save_external_call_candidate")]
            if not cs:
                continue
            x = cs[0]
            obj, meth = arg(x, 1, "obj"), arg(x, 3, "method_name")
            ok = len(cs) == 1 and arg(x, 2, "function_or_method") == "function_or_method" and arg(x, 4, "call_node") == "node"
            ok &= (obj == "None" and meth == "None") if simple else (obj is not None and obj.startswith(("self.saved_complex_symbol_load_data", "_")) and (meth == "None") is sub)
            ctx.ob("R10-before", con, ok, f"the call is recorded with receiver {obj} and method {meth}", it.fi.loc(e.node))
            rs = [y for y in e.trace if y.is_call("_resolve_external_call")]
            ctx.ob("R10-before", con + ": no arguments", bool(rs) is not hasargs, "a call without arguments is not counted, or one with arguments is before they are known", it.fi.loc(e.node))
            pu = [y for y in e.trace if y.kind == "enter" and "lexical_call_stack.push" in T(y.a)]
            cf = [y for y in e.trace if y.kind == "assign" and T(y.a) == "self.cur_function"]
            ctx.ob("R10-before", con + ": nested", bool(pu) and bool(cf) and e.trace.index(x) < e.trace.index(pu[0]) < e.trace.index(cf[0]) and all(e.trace.index(pu[0]) < e.trace.index(y) for y in rs), "a call inside of the arguments of another one is taken for it", it.fi.loc(e.node))
            ctx.ob("R10-before", con + ": done", any(y.kind == "assign" and re.search(r"saved_complex_symbol_load_data$", T(y.a)) and y.b == NONE for y in e.trace), "the receiver of a call is taken for that of the next one", it.fi.loc(e.node))
        ctx.ob("R10-before", con + ": paths", any(x.is_call("_save_external_call_candidate") for e in ends(it) for x in e.trace), "calls are not recorded", it.fi.loc())
    q = "DataflowTracer._save_external_call_candidate"
    it = ctx.run(q, O(), CALL, opaque={RES}, onlyraise=set())
    for e in ends(it):
        w = [x for x in e.trace if x.kind == "assign" and T(x.a) == "self.external_call_candidate"]
        cs = [x for x in e.trace if x.kind == "call" and T(x.a) == RES]
        names = ("module", "caller_self", "function_or_method", "method", "call_node")
        vals = ("module", "obj", "function_or_method", "method_name", "call_node")
        ctx.ob("R10-before", q, len(w) == 1 and len(cs) == 1 and all(arg(cs[0], i, n) == v for i, (n, v) in enumerate(zip(names, vals))) and kw(cs[0], "use_standard_default") in (None, "True"), "the call is recorded with another receiver, function or method", it.fi.loc(e.node))
    q = "DataflowTracer._resolve_external_call"
    F = r"self\.lexical_call_stack\.get_field\('external_call_candidate'\)"
    for none in (True, False):
        it = ctx.run(q, O().when(IS(F, "None"), none), CALL, onlyraise=set())
        for e in ends(it):
            ap = [x for x in e.trace if x.is_call("append") and T(x.recv) == "self.external_calls"]
            pe = [x for x in e.trace if x.kind == "assign" and T(x.a) == "self.is_external_call_pending_return" and T(x.b) == "True"]
            ctx.ob("R10-counted", f"{q}:nothing={none}", (len(ap) == 1 and re.fullmatch(F, T(ap[0].b[0])) is not None and bool(pe)) if not none else not ap and not pe, "a call of library code is not counted, or its result not waited for", it.fi.loc(e.node))
    q = "DataflowTracer.argument"
    for none, named, last in itertools.product((True, False), repeat=3):
        o = O().when(IS(F, "None"), none).when(IS("key", "None"), not named).when(r"^is_last$", last).when(r"^isinstance\(.*ast\.Name\)$", False)
        it = ctx.run(q, o, CALL, opaque={"_resolve_external_call", "resolve_rval_symbols", "_process_arg_impl", "_process_kwarg_impl", "uninstrument", "modname"}, onlyraise=set())
        con = f"{q}:nothing={none}:named={named}:last={last}"
        for e in ends(it):
            pa = [x for x in e.trace if x.is_call("_process_arg_impl")]
            pk = [x for x in e.trace if x.is_call("_process_kwarg_impl")]
            rs = [x for x in e.trace if x.is_call("_resolve_external_call")]
            ctx.ob("R10-arguments", con, (len(pa), len(pk)) == ((0, 0) if none else (0, 1) if named else (1, 0)), "an argument is not recorded as it was given", it.fi.loc(e.node))
            ctx.ob("R10-arguments", con + ": last", bool(rs) is (last and not none) and all(e.trace.index(x) < e.trace.index(y) for x in pa + pk for y in rs), "the call is not counted once its arguments are known", it.fi.loc(e.node))
            for x in pa + pk:
                t = x.b[-1]
                ok = t[0] == "tuple" and len(t[1]) == 2 and T(t[1][0]) == "arg_obj" and re.search(r"resolve_rval_symbols\(|set\(\)|new_set", T(t[1][1])) and (not named or T(x.b[0]) == "key")
                ctx.ob("R10-arguments", con + ": what", ok, f"the argument is recorded as {T(t)[:80]}", it.fi.loc(x.node))
        ctx.ob("R10-arguments", con + ": paths", bool(ends(it)), "an argument fails", it.fi.loc())
        # arguments are counted
    it = ctx.run(q, O(), CALL, opaque={"_resolve_external_call", "resolve_rval_symbols", "_process_arg_impl", "_process_kwarg_impl", "uninstrument", "modname"}, onlyraise=set())
    ctx.ob("R10-arguments", f"{q}:arg symbols", any(re.search(r"resolve_rval_symbols\(self\.ast_node_by_id\.get\(arg_node_id\)", T(x.b[-1])) for e in it.ends for x in e.trace if x.is_call("_process_arg_impl")), "the symbols of an argument are not recorded", it.fi.loc())
    q = "DataflowTracer.after_call"
    for pend, nest in itertools.product((True, False), repeat=2):
        o = O().when(r"^self\.is_tracing_enabled$", True).when(r"^self\.is_external_call_pending_return$", pend).when(r"^len\(self\.lexical_call_stack\)$|^self\.lexical_call_stack$", nest)
        it = ctx.run(q, o, CALL, onlyraise=set(), opaque={"process_return"})
        for e in ends(it):
            pr = [x for x in e.trace if x.is_call("process_return")]
            po = [x for x in e.trace if x.is_call("pop") and T(x.recv) == "self.lexical_call_stack"]
            con = f"{q}:pending={pend}:nested={nest}"
            ctx.ob("R10-result", con, (len(pr) == 1 and T(pr[0].recv) == "self.external_calls[-1]" and T(pr[0].b[0]) == "retval" and any(x.kind == "assign" and T(x.a) == "self.is_external_call_pending_return" and T(x.b) == "False" for x in e.trace)) if pend else not pr, "the result of a call is not recorded, or taken for that of another one", it.fi.loc(e.node))
            ctx.ob("R10-result", con + ": done", bool(po) is nest, "the enclosing call is not returned to", it.fi.loc(e.node))
    # once per statement
    q = "DataflowTracer.after_stmt_reset_hook"
    it = ctx.run(q, O(), CALL, onlyraise=set(), opaque={"update_usage_info"})
    for e in ends(it):
        cl = any(x.is_call("clear") and T(x.recv) == "self.external_calls" for x in e.trace) or any(x.kind == "assign" and T(x.a) == "self.external_calls" for x in e.trace)
        w = {T(x.a): T(x.b) for x in e.trace if x.kind == "assign"}
        ctx.ob("R11-once", q, cl and w.get("self.external_call_candidate") == "None" and w.get("self.is_external_call_pending_return") == "False", "the calls of a statement count again for the next one", it.fi.loc(e.node))
    q = "Statement.handle_dependencies"
    for lval in (True, False):
        it = ctx.run(q, O().when(r"_contains_lval\(\)$", lval), lambda e: e.kind in ("call", "iter"), opaque={"_handle_impl", "_make_lval_symbols", "_contains_lval", "_handle_delete", "resolve_rval_symbols", "_handle_specific_mutation_type"}, onlyraise=set())
        its = loops_over(it, r"external_calls$")
        ctx.ob("R11-once", f"{q}:each:binds={lval}", bool(its) and all(i.kind != "break" and sum(x.is_call("_handle_impl") and T(x.recv) == "elem(tracer().external_calls)" for x in i.events) == 1 for i in its), "a call of the statement is not applied once", it.fi.loc())
        for e in ends(it):
            hs = [i for i, x in enumerate(e.trace) if x.is_call("_handle_impl")]
            ms = [i for i, x in enumerate(e.trace) if x.is_call("_make_lval_symbols")]
            ctx.ob("R11-once", f"{q}:first:binds={lval}", not hs or not ms or max(hs) < min(ms), "what is computed by a call is bound before its effects are known", it.fi.loc(e.node))
            ctx.ob("R11-once", f"{q}:binds={lval}", bool(ms) is lval, "what the statement binds is not recorded", it.fi.loc(e.node))
    # each call frame has its own
    init = [f for f in ctx.ix.funcs.values() if f.qual == "DataflowTracer.__init__"]
    it = ctx.run("DataflowTracer.__init__", O(), lambda e: e.kind in ("assign", "enter", "exit"), onlyraise=set())
    for a, st in (("external_calls", "call_stack"), ("is_external_call_pending_return", "call_stack"), ("external_call_candidate", "lexical_call_stack"), ("saved_complex_symbol_load_data", "lexical_call_stack"), ("num_args_seen", "lexical_call_stack"), ("cur_function", "lexical_call_stack")):
        every(ctx, "R11-frames", f"DataflowTracer.__init__:{a}", [(e, x) for e in it.ends if e.kind != "raise" for x in e.trace if x.kind == "assign" and T(x.a) == f"self.{a}"],
              lambda p: within(p[0].trace, p[1], rf"{st}.*register_stack_state|make_stack\(\)\.register_stack_state|register_stack_state"), "calls of a caller and of what it calls are mixed up", lambda p: it.fi.loc(p[1].node))
    # what is immutable
    im = None
    for mname, m in ctx.ix.modules.items():
        tree = getattr(m, "tree", m) if not isinstance(m, str) else None
        if isinstance(tree, ast.AST) and str(mname).endswith("ipyflow.types"):
            for n in tree.body:
                if isinstance(n, ast.Assign) and any(getattr(t, "id", None) == "IMMUTABLE_PRIMITIVE_TYPES" for t in n.targets):
                    im = {ast.unparse(x) for x in getattr(n.value, "elts", [])}
    if im is not None:
        ctx.ob("R12-immutable", "IMMUTABLE_PRIMITIVE_TYPES", bool(im) and not im & {"bytearray", "list", "dict", "set", "object"}, f"values that can change are taken to be immutable: {sorted(im)}", "core/ipyflow/types.py")


def check(ctx):
    classify(ctx)
    effects_(ctx)
    containers(ctx)
    declarations(ctx)
    compiler(ctx)
    tracer(ctx)
