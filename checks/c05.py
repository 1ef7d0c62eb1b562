from .common import *

TITLE = "Instrumentation is value-transparent"
PROP = dict(
    title="Tracing handlers never replace, mutate or consume the user's values",
    statement="Whatever a traced program computes, a tracing handler hands back either nothing or exactly the value it was given (tracing "
              "sentinels for call/return events and yes/no answers for function guards aside), and never mutates or consumes that value; "
              "decorators are applied exactly once, to the original function, and their result is returned. The only substitutions are: the "
              "argument of ipyflow's own API functions becomes its symbol, a lambda handed to a library call becomes an equivalent untraced "
              "function sharing the original's globals, defaults and closure, and during an interrupt handlers that swallowed it before stop "
              "catching it.",
    over=["programs", "histories"],
    qtext="every event of every traced program, every value",
    why_tests_cant="Tests run a few programs and compare dependencies, not values; a handler returning the wrong object on a rare path changes "
                   "the user's results silently.",
    files=["core/ipyflow/tracing/ipyflow_tracer.py", "core/ipyflow/tracing/interrupt_tracer.py", "core/ipyflow/tracing/output_recorder.py",
           "core/ipyflow/tracing/uninstrument.py"],
    mechanism=[("event handlers", "tracing/ipyflow_tracer.py"), ("interrupt handling", "tracing/interrupt_tracer.py"),
               ("untraced copies of functions", "tracing/uninstrument.py")],
    observe=["values of traced programs"],
)
TECHNIQUE = "abstract interpretation of every registered event handler: returned terms and effects on the handed-in value"
LEVEL_NOTE = "Decides what the repository's handlers return and do to the values they receive; the instrumentation engine itself is a dependency."

SYS = {"call", "return_", "exception"}
GUARD = {"before_function_body", "before_lambda_body"}
CONSUME = {"list", "tuple", "set", "sorted", "next", "iter", "sum", "min", "max", "any", "all", "dict", "enumerate", "zip", "map", "frozenset", "reversed"}
MUT = {"append", "add", "update", "extend", "insert", "pop", "clear", "remove", "discard", "sort", "reverse", "setdefault", "popitem", "close", "send",
       "throw", "__setattr__", "__setitem__", "__delitem__", "__next__", "fill", "write", "read"}


def handlers(ix):
    for fi in sorted(ix.funcs.values(), key=lambda f: f.key):
        evs = set()
        for d in fi.node.decorator_list:
            t = ast.unparse(d)
            if not (t.startswith("pyc.") or "register_" in t):
                continue
            if "register_handler" in t or "register_raw_handler" in t:
                evs |= {n.attr for n in ast.walk(d) if isinstance(n, ast.Attribute) and n.attr not in ("register_handler", "register_raw_handler")}
            elif isinstance(d, ast.Attribute) and re.match(r"(before|after)_|call$|return_$|exception$|init_|exit_|load_|line$", d.attr):
                evs.add(d.attr)
        if evs:
            yield fi, evs


def touches_value(ev, p):
    """event that mutates or consumes value term p"""
    if ev.kind in ("setitem", "aug_setitem", "delitem") and ev.a == p:
        return "item assignment"
    if ev.kind in ("assign", "aug_assign", "delattr") and isinstance(ev.a, tuple) and ev.a[0] == "." and ev.a[1] == p:
        return "attribute assignment"
    if ev.kind == "aug" and ev.a == p:
        return "in-place operator"
    if ev.kind == "iter" and strip_iter(ev.a) == p:
        return "iteration"
    if ev.kind == "call":
        if ev.recv == p and ev.a[2] in MUT:
            return f"{ev.a[2]}()"
        if ev.a[0] == "g" and ev.b and ev.b[0] == p and ev.a[1] in CONSUME | {"setattr", "delattr"}:
            return f"{ev.a[1]}()"
    return None


# user values as they are held by the dataflow state (arguments of pending calls, objects of symbols and namespaces)
USER = re.compile(r"^elem\(.*\.(args|kwargs|_args|_kwargs)(\.\w+\(\))?\)+(\[[01]\])*$|\.(obj|saved_assign_rhs_obj|return_value|function_self|caller_self)$")
PLAIN = {"list", "tuple", "dict", "set", "frozenset", "str", "bytes"}


def held_value(ev):
    """(what happens, value) if the event mutates or consumes a user value held by the dataflow state"""
    cs = []
    if isinstance(ev.a, tuple) and ev.a:
        cs += [ev.a, strip_iter(ev.a)] + ([ev.a[1]] if ev.a[0] == "." else [])
    if ev.recv:
        cs.append(ev.recv)
    if ev.kind == "call" and ev.b:
        cs.append(ev.b[0])
    for p in cs:
        w = touches_value(ev, p)
        if not w or not USER.search(T(p)):
            continue
        if w == "iteration" or ev.kind == "call" and ev.a[0] == "g" and ev.a[1] in CONSUME:
            if re.search(r"\.(keys|items|values)\(\)$", T(ev.a if w == "iteration" else p)):
                continue
            r = re.compile(rf"^isinstance\({re.escape(T(p))}, (.*)\)$")
            ms = [r.match(T(f[1])) for f, v in (ev.facts or {}).items() if v and f[0] == "truth"]
            if any(m and set(re.findall(r"\w+", m.group(1))) <= PLAIN for m in ms):
                continue
        return w, p
    return None


def check(ctx):
    ix = ctx.ix
    n = 0
    for fi in sorted(ix.funcs.values(), key=lambda f: f.key):
        if not re.search(r"/(tracing|data_model)/", fi.loc()):
            continue
        it = ctx.run(fi, None, lambda e: held_value(e) is not None)
        n += 1
        hit = next((ev for ev in it.allevents.values() if held_value(ev)), None)
        if hit is not None or USER.search(ast.unparse(fi.node)):
            ctx.ob("R2-held-values-untouched", fi.qual, hit is None, f"{held_value(hit)[0] if hit else ''} on a value of the program", hit.loc() if hit else "")
    ctx.ob("R2-held-values-untouched", "functions", n >= 200, "too few functions analysed")
    hs = list(handlers(ix))
    ctx.ob("R1-handlers-found", "handlers", len(hs) >= 24, f"only {len(hs)} handlers found")
    for fi, evs in hs:
        args = [a.arg for a in fi.node.args.args]
        p = ("var", args[1]) if len(args) > 1 else None
        it = ctx.run(fi, None, lambda e: p is not None and touches_value(e, p))
        if p is not None:
            p = next((t for t in (p,)), p)
        bad = None
        for e in it.ends:
            if e.kind != "return":
                continue
            v = e.value
            tx = T(v)
            ok = v == NONE or tx == "None" or (p is not None and tx == args[1] and not evs & (SYS | GUARD))
            if not ok and evs <= SYS:
                ok = re.fullmatch(r"(pyc|pyccolo)\.(SkipAll|Null|Skip)", tx) is not None
            if not ok and evs <= GUARD:
                ok = boolean(v)
            if not ok and fi.qual.endswith(".decorator") and v[0] == "localfn":
                ok = True
            if not ok and fi.name in ("handle_lift_argument", "argument", "handle_exception_handler_type"):
                ok = True    # judged below
            if not ok:
                bad = bad or (e, tx)
        ctx.ob("R1-value-returned-as-is", fi.qual, bad is None, f"returns {bad[1][:60] if bad else ''} in place of the program's value",
               it.fi.loc(bad[0].node) if bad else "")
        if p is not None and not evs & SYS and "exception_handler_type" not in evs:
            hit = next((ev for ev in it.allevents.values() if touches_value(ev, p)), None)
            ctx.ob("R2-value-untouched", fi.qual, hit is None, f"{touches_value(hit, p) if hit else ''} on the program's value", hit.loc() if hit else "")
    # decorators
    q = "DataflowTracer.decorator"
    fi = ctx.F(q)
    inner = [f for f in ix.funcs.values() if f.parent is not None and f.parent is fi] if hasattr(fi, "parent") else []
    it0 = ctx.run(fi, None, lambda e: False)
    names = {e.value[1] for e in it0.ends if e.kind == "return" and e.value[0] == "localfn"}
    nodes = [n for n in ast.walk(fi.node) if isinstance(n, ast.FunctionDef) and n.name in names]
    if len(nodes) == 1:
        f2 = FuncInfo(nodes[0].name, q + "." + nodes[0].name, nodes[0], None, fi.module, fi)
        f2.oldkey = f2.key
        it = ctx.run(f2, None, lambda e: e.kind == "call" and T(e.a) == "deco", closure={})
        arg = nodes[0].args.args[0].arg if nodes[0].args.args else "?"
        every(ctx, "R3-decorator-applied-once", q, [e for e in it.ends if e.kind == "return"],
              lambda e: T(e.value) == f"deco({arg})" and len(e.trace) == 1 and [T(b) for b in e.trace[0].b] == [arg],
              "the decorator is not applied exactly once to the function, or its result is lost", lambda e: it.fi.loc(e.node))
    else:
        ctx.ob("R3-decorator-applied-once", q, False, "no wrapper around the decorator is returned", fi.loc())
    # lifted arguments
    q = "DataflowTracer.handle_lift_argument"
    API = r"self\.cur_function in \("
    for n, o in (("later-argument", O().when(r"^0 < self\.num_args_seen$", True)),
                 ("user-function", O().when(r"^0 < self\.num_args_seen$", False).when(API, False))):
        it = ctx.run(q, o, lambda e: False)
        every(ctx, "R4-only-own-api-lifted", f"{q}:{n}", [e for e in it.ends if e.kind == "return"], lambda e: T(e.value) == "None",
              "an argument of a user function is replaced")
    it = ctx.run(q, O().when(r"^0 < self\.num_args_seen$", False).when(API, True), lambda e: False)
    every(ctx, "R4-lifted-to-symbol", q, [e for e in it.ends if e.kind == "return" and T(e.value) != "None"],
          lambda e: T(e.value).endswith(".Null") or any(w in T(e.value) for w in ("resolve_rval_symbols(", "resolve_loaded_symbols(")) and "update_usage_info(" in T(e.value) or re.match(
              r"(new_list|phi_)\S*\[.*\.update_usage_info\(", T(e.value)) is not None, "an API argument becomes something else")
    ids = [n for n in ast.walk(it.fi.node) if isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(n.ops[0], (ast.Is, ast.Eq)) and
           {"arg_obj"} & {x.id for x in ast.walk(n) if isinstance(x, ast.Name)}]
    ctx.ob("R4-lifted-to-symbol", q + ":same-object", any(isinstance(n.ops[0], ast.Is) for n in ids) or not ids and calls_helper(ctx, it),
           "the symbol is not matched by object identity", it.fi.loc())
    funcs = api_members(ix, it.fi)
    ctx.ob("R4-only-own-api-lifted", q + ":table", bool(funcs) and all(f.startswith("ipyflow.") for f in funcs), f"lifts arguments of {funcs}", it.fi.loc())
    # lambdas handed to libraries
    q = "DataflowTracer.argument"
    CAND, MOD, LAM = r"external_call_candidate.* is None$|None is .*external_call_candidate", r"modname == 'builtins'$|^'builtins' == .*modname", \
        r"'<lambda>' == getattr\(arg_obj, '__name__', None\)|getattr\(arg_obj, '__name__', None\) == '<lambda>'"
    for n, o in (("no external call", O().when(CAND, True)), ("builtin", O().when(CAND, False).when(MOD, True)),
                 ("not a lambda", O().when(CAND, False).when(MOD, False).when(LAM, False))):
        it = ctx.run(q, o, lambda e: False)
        every(ctx, "R5-only-library-lambdas", f"{q}:{n}", [e for e in it.ends if e.kind == "return"], lambda e: T(e.value) == "None",
              "an argument is replaced")
    it = ctx.run(q, None, lambda e: False)
    every(ctx, "R5-only-library-lambdas", q + ":substitute", [e for e in it.ends if e.kind == "return" and T(e.value) != "None"],
          lambda e: re.fullmatch(r"uninstrument\(arg_obj, override_globals=False\)", T(e.value)), "the substitute is not an equivalent of "
          "the lambda using its live globals", lambda e: it.fi.loc(e.node))
    # untraced copies
    q = "_make_uninstrumented_function"
    live = O().when(r"^override_globals$", False)
    deco = r"getattr\(func_node, 'decorator_list', .*\)"
    cons = lambda e: e.is_call("FunctionType", "exec") or e.kind in ("setitem", "assign")
    it = ctx.run(q, O().when(r"^override_globals$", False).when(deco, False), cons)
    ctx.ob("R6-same-globals", q + ":no-overrides", not any(x.kind == "setitem" and "__globals__" in repr(x) or (x.kind == "setitem" and
           "uninstrument(" in T(x.c)) for x in it.allevents.values()), "globals are overridden although live ones are asked for", it.fi.loc())
    plain = lambda x: not any(k[0] == "truth" and k[1][0] == "new" and v for k, v in x.facts.items())
    mk = [x for e in it.ends for x in e.trace if x.is_call("FunctionType") and plain(x)]
    every(ctx, "R6-same-globals", q, mk, lambda x: T(x.b[1]) == "obj.__globals__", "the untraced function uses a copy of the globals", lambda x: x.loc())
    every(ctx, "R6-same-defaults", q, mk, lambda x: len(x.b) > 3 and T(x.b[3]) == "obj.__defaults__" or (x.c and any(
        k == "argdefs" and T(v) == "obj.__defaults__" for k, v in x.c)), "default values are evaluated again", lambda x: x.loc())
    every(ctx, "R6-same-closure", q, mk, lambda x: "obj.__closure__" in repr(x) or closure_from(ix, it), "closed-over variables are copied", lambda x: x.loc())
    every(ctx, "R6-same-defaults", q + ":kw", [e for e in it.ends if e.kind == "return" and T(e.value) != "None"], lambda e: any(
        assigns(x, r"\.__kwdefaults__$") and T(x.b) == "obj.__kwdefaults__" for x in e.trace), "keyword default values are evaluated again")
    every(ctx, "R6-same-globals", q + ":exec", [x for e in it.ends for x in e.trace if x.is_call("exec") and plain(x)],
          lambda x: len(x.b) == 3 and T(x.b[1]) == "obj.__globals__" and T(x.b[2]) != T(x.b[1]), "executing the copy leaks into or misses the globals",
          lambda x: x.loc())
    every(ctx, "R6-name-kept", q, [e for e in it.ends if e.kind == "return" and T(e.value) != "None"], lambda e: any(
        assigns(x, r"\.__name__$") and T(x.b) == "obj.__name__" for x in e.trace) or any("obj.__name__" in repr(x) for x in e.trace if x.is_call("FunctionType")),
        "the untraced function has another name")
    for f in (q, "uninstrument", "_get_uninstrumented_decorator"):
        ctx.never("R7-original-untouched", f, lambda e: (e.kind in ("setitem", "delitem") or adds_to(e, ".") or removes_from(e, ".")) and
                  re.match(r"obj\.__globals__|obj$|obj\.__dict__|obj\.__closure__", T(e.recv if e.kind == "call" and e.recv is not None else e.a)) is not None, None,
                  why="the original function or its globals are modified")
        ctx.never("R7-original-untouched", f, lambda e: e.kind == "assign" and isinstance(e.a, tuple) and e.a[0] == "." and T(e.a[1]) in ("obj", "alias.func_def_stmt", "args"),
                  None, construct=f + ":attrs", why="the original function or its recorded source is modified")
    it = ctx.run("uninstrument", O().when(r"^isinstance\(obj, (types\.)?FunctionType\)$", False), lambda e: False)
    every(ctx, "R7-only-functions", "uninstrument", [e for e in it.ends if e.kind == "return"], lambda e: T(e.value) == "None", "something other than a "
          "plain function is recreated")
    # interrupts
    q = "InterruptTracer.handle_exception_handler_type"
    INT = r"KeyboardInterrupt is sys\.exc_info\(\)\[0\]|sys\.exc_info\(\)\[0\] is KeyboardInterrupt|sys\.exc_info\(\)\[0\] == KeyboardInterrupt"
    it = ctx.run(q, O().when(INT, False), lambda e: False)
    every(ctx, "R8-interrupts-only", q, [e for e in it.ends if e.kind == "return"], lambda e: T(e.value) == "None", "exception handlers change outside interrupts")
    CNT = r"< .*_get_interrupt_count_threshold\("
    it = ctx.run(q, O().when(INT, True).when(CNT, True), lambda e: False)
    every(ctx, "R8-interrupts-only", q + ":first", [e for e in it.ends if e.kind == "return"], lambda e: T(e.value) == "None",
          "a handler that has not swallowed an interrupt before is changed")
    it = ctx.run(q, O().when(INT, True).when(CNT, False), lambda e: removes_from(e, "."))
    every(ctx, "R8-interrupt-not-caught", q, [e for e in it.ends if e.kind == "return" and T(e.value) != "None"], lambda e: all(
        any(x.b and T(x.b[0]) == n for x in e.trace) for n in ("KeyboardInterrupt",)), "the interrupt is still caught")


def boolean(v):
    if v[0] == "bin" and v[1] in ("and", "or"):
        return boolean(v[2]) and boolean(v[3])
    if v[0] in ("and", "or"):
        return all(boolean(x) for x in (v[1] if len(v) == 2 and isinstance(v[1], tuple) and v[1] and isinstance(v[1][0], tuple) else v[1:]))
    t = T(v)
    return t in ("True", "False") or t.startswith(("(not ", "not ")) or re.search(r" (in|is|==|<|and|or|not in) ", t) is not None or t.endswith("is_tracing_enabled")


def calls_helper(ctx, it):
    return len(it.inlined) > 0


def closure_from(ix, it):
    return any(isinstance(n, ast.Attribute) and n.attr == "__closure__" for n in ast.walk(it.fi.node)) and any(
        isinstance(n, ast.Call) and "FunctionType" in ast.unparse(n.func) and (len(n.args) > 4 or any(k.arg == "closure" for k in n.keywords))
        for f in [it.fi] + [ix.funcs[k] for k in it.inlined if k in ix.funcs] for n in ast.walk(f.node))


def api_members(ix, fi):
    """qualified names of the functions whose first argument is lifted"""
    imp = {}
    for n in ast.walk(fi.module.tree):
        if isinstance(n, ast.ImportFrom) and n.module:
            for a in n.names:
                imp[a.asname or a.name] = f"{n.module}.{a.name}"
    for n in ast.walk(fi.module.tree):
        if isinstance(n, (ast.Tuple, ast.Set, ast.List)) and len(n.elts) >= 5 and all(isinstance(e, ast.Name) and e.id in imp and
                                                                                   ".api" in imp[e.id] for e in n.elts):
            return sorted(imp[e.id] for e in n.elts)
    names = [e.id for n in ast.walk(fi.node) if isinstance(n, (ast.Tuple, ast.Set, ast.List)) and len(n.elts) >= 5 for e in n.elts if isinstance(e, ast.Name)]
    return [imp.get(n, n) for n in names]
