from .common import *
from .c26 import arg

TITLE = "Scoped changes"
PROP = dict(
    title="Temporary changes end with their scope, also on errors",
    statement="Whatever is changed only for the duration of an operation is back to its previous value when the operation ends, whether it returns, raises or is "
              "interrupted: the current cell, cell positions, version offsets, the slicing context, tracing, patched functions, the schedule, analysis state and "
              "per-call bookkeeping. While the scope is active exactly the requested value is in effect. What user code itself changes meanwhile is kept: ending a "
              "cell removes only the code transformers the tool added for it.",
    over=["exceptions", "crash points"],
    qtext="every exit (return, exception, interrupt) from every scoped operation, nested to any depth",
    why_tests_cant="Tests leave scopes normally; a missed restore shows only after a failure, in a later unrelated cell.",
    files=["core/ipyflow/shell/interactiveshell.py", "core/ipyflow/utils/ipython_utils.py", "core/ipyflow/tracing/ipyflow_tracer.py", "core/ipyflow/data_model/cell.py",
           "core/ipyflow/data_model/timestamp.py", "core/ipyflow/slicing/context.py", "core/ipyflow/analysis/live_refs.py"],
    mechanism=[("context managers", "shell/interactiveshell.py, data_model/cell.py, data_model/timestamp.py, slicing/context.py"),
               ("code transformers", "utils/ipython_utils.py"), ("per-call cleanup", "tracing/ipyflow_tracer.py, comm_manager.py")],
    observe=["state after a failed or interrupted operation"],
)
TECHNIQUE = ("exception-aware path analysis of every context manager in the package (found by decorator) and every scoped operation: each place written must hold "
             "its entry value at every return and every raise")
LEVEL_NOTE = "Every exit path of each scope is decided, with exceptions at the scope's body and at every call outside the restoring code."

TRIVIAL = {"pop", "get", "append", "clear", "add", "discard", "set", "reset", "getattr", "isinstance", "len", "flow", "shell", "hasattr", "items", "setattr", "instance",
           "cells", "set_cell_positions", "_enable_tracing", "remove", "extend", "keys", "values", "list", "iter", "next", "id", "type", "str",
           "bool", "warning", "exception", "error", "info", "debug", "tracer", "super"}


class Raises:
    """every call may raise, other than trivial accessors and the restoring operations themselves"""

    def __init__(self, *extra):
        self.no = TRIVIAL | set(extra)

    def __contains__(self, n):
        return n not in self.no

    def __bool__(self):
        return True


def linear(t, sign=1, acc=None):
    """sum of signed atoms"""
    acc = {} if acc is None else acc
    if t[0] == "bin" and t[1] in ("+", "-"):
        linear(t[2], sign, acc)
        linear(t[3], sign if t[1] == "+" else -sign, acc)
    else:
        k = T(t)
        acc[k] = acc.get(k, 0) + sign
    return {k: v for k, v in acc.items() if v}


def place(t):
    return re.sub(r"\.__class__\.", ".", re.sub(r"^(type\((\w+)\)|cls)\.", r"\2.", T(t)))


def local_place(t):
    while t[0] in (".", "[]", "item", "sub"):
        t = t[1]
    return t[0] in ("new", "comp", "const")


def final_writes(trace):
    last = {}
    for x in trace:
        if x.kind in ("assign", "aug_assign") and not local_place(x.a):
            last[place(x.a)] = (x.b, x)
    return last


def is_entry(value, plc):
    if re.sub(r"\.__class__\.", ".", T(value)) == plc:
        return True
    m = re.match(r"^(.*)\.\('dyn', \('(?:var|const)', '?(.*?)'?\)\)$", plc)
    if m and T(value) == f"getattr({m.group(1)}, {m.group(2)})":
        return True
    return value[0] == "bin" and linear(value) == {plc: 1}


WRITES = lambda e: e.kind in ("assign", "aug_assign", "aug", "setitem", "delitem", "yield") or e.is_call(
    "setattr", "set", "reset", "set_cell_positions", "_disable_tracing", "_enable_tracing", "extend", "remove", "append", "insert", "enter", "exit")
IDLE = {"self.cell_counter": "None"}     # no cell is executing outside of a cell
OWN = {"ast_transformer_context", "input_transformer_context", "push_attributes", "killed_context", "_tracing_context"}


def is_ctxmgr(f):
    return any("contextmanager" in ast.unparse(d) for d in getattr(f.node, "decorator_list", ()))


def position_of(trace, pred):
    return [i for i, x in enumerate(trace) if pred(x)]


def context_managers(ctx):
    fs = [f for f in ctx.ix.funcs.values() if is_ctxmgr(f)]
    ctx.nonvacuous("R1-context-managers", len(fs), 15)
    for f in fs:
        it = ctx.run(f, None, WRITES, onlyraise=Raises(), volatile={"is_tracing_enabled", "Cell._position_by_cell_id"})
        ys = [e for e in it.ends if any(x.kind == "yield" for x in e.trace)]
        ctx.ob("R1-entered", f.qual, bool([e for e in ys if e.kind == "return"]) and not [
            e for e in it.ends if e.kind == "return" and sum(x.kind == "yield" for x in e.trace) != 1], "the scope is not entered exactly once", f.loc())
        bad = None
        for e in it.ends:
            for plc, (v, ev) in final_writes(e.trace).items():
                if f.name in OWN and ("transformers" in plc or plc.startswith("self.('dyn'") or plc == "self.dead"):
                    continue
                if is_entry(v, plc) or IDLE.get(plc) == T(v):
                    continue
                bad = bad or (e, plc, v)
        ctx.ob("R1-restored", f.qual, bad is None, f"ends ({bad[0].kind}) with {bad[1]} = {T(bad[2])[:60]}" if bad else "", f.loc(bad[0].node) if bad else "")
        # paired operations
        bad = None
        for e in it.ends:
            pos = [x for x in e.trace if x.is_call("set_cell_positions")]
            if pos and not re.search(r"(^|\.)_position_by_cell_id$", T(pos[-1].b[0])):
                bad = bad or (e, "cell positions are not put back")
            sets = [x for x in e.trace if x.is_call("set") and x.recv is not None and x.b]
            resets = [x for x in e.trace if x.is_call("reset") and x.recv is not None]
            for x in sets:
                if not any(T(r.recv) == T(x.recv) and T(r.b[0]) == repr_call(x) for r in resets):
                    bad = bad or (e, f"{T(x.recv)} is not reset")
            off = [i for i, x in enumerate(e.trace) if x.is_call("_disable_tracing") and T(x.recv) == "self"]
            if off and f.name not in OWN and e.value != ("exc?", "_disable_tracing") and T(e.value or NONE) != "exc?(_disable_tracing)":
                on = [i for i, x in enumerate(e.trace) if x.is_call("_enable_tracing") and i > off[-1]]
                still = any(T(k[1] if k[0] == "truth" else k) == "self.is_tracing_enabled'" and v for k, v in e.facts.items())
                if not on and not still:
                    bad = bad or (e, "tracing stays disabled")
        ctx.ob("R1-paired", f.qual, bad is None, f"ends ({bad[0].kind}): {bad[1]}" if bad else "", f.loc(bad[0].node) if bad else "")


def repr_call(x):
    return f"{T(x.a)}({', '.join(T(b) for b in x.b)})"


def in_effect(ctx):
    """what is in effect while the scope is active"""
    def at_yield(rule, q, want, oracle=None, label=""):
        it = ctx.run(q, oracle, WRITES, onlyraise=set(), volatile={"is_tracing_enabled"})
        ok = False
        for e in it.ends:
            ys = position_of(e.trace, lambda x: x.kind == "yield")
            if not ys:
                continue
            pre = e.trace[:ys[0]]
            ok = want(pre)
            if not ok:
                break
        ctx.ob(rule, q + label, ok, "what was asked for is not in effect in the scope", it.fi.loc())
    fin = lambda pre: {k: T(v[0]) for k, v in final_writes(pre).items()}
    at_yield("R2-in-effect", "Cell.override_current_cell", lambda pre: any(k.endswith("_override_current_cell") and v == "self" for k, v in fin(pre).items()))
    at_yield("R2-in-effect", "NotebookFlow.override_child_cell", lambda pre: fin(pre).get("self._override_child_cell") == "cell")
    at_yield("R2-in-effect", "Timestamp.offset", lambda pre: all(any(
        k.endswith(g) and linear(v[0]) in ({k: 1, p: 1},) for k, v in final_writes(pre).items()) for g, p in (("_cell_offset", "cell_offset"), ("_stmt_offset", "stmt_offset"))))
    at_yield("R2-in-effect", "set_slicing_context", lambda pre: any(x.is_call("set") and T(x.recv) == "slicing_ctx_var" and T(x.b[0]) == "dep_ctx" for x in pre))
    at_yield("R2-in-effect", "_IpythonState.save_number_of_currently_executing_cell", lambda pre: fin(pre).get("self.cell_counter") == "shell().execution_count")
    at_yield("R2-in-effect", "DataflowTracer.dataflow_tracing_disabled", lambda pre: any(x.is_call("_disable_tracing") for x in pre), O().when(r"^self\.is_tracing_enabled$", True), ":on")
    at_yield("R2-in-effect", "DataflowTracer.dataflow_tracing_disabled", lambda pre: not any(x.is_call("_disable_tracing") for x in pre),
             O().when(r"^self\.is_tracing_enabled$", False), ":off")
    for mode, n in (("ANY_ORDER", 1), ("IN_ORDER", 0)):
        at_yield("R2-in-effect", "Cell._override_position_index_for_current_flow_semantics",
                 lambda pre: [T(x.b[0]) for x in pre if x.is_call("set_cell_positions")] == ["{}"] * n, O().enum(FLOW_ORDER, mode), ":" + mode)
    PY = ("exec", "eval")
    at_yield("R2-in-effect", "IPyflowInteractiveShell._patch_pyccolo_exec_eval",
             lambda pre: all(any(k.endswith(s + n) and v != k for k, v in fin(pre).items()) for n in PY for s in ("pyccolo.", "BaseTracer.")))
    # delegating managers enter the one they stand for
    for q, inner in (("dynamic_slicing_context", r"set_slicing_context\(SlicingContext\.DYNAMIC\)"), ("static_slicing_context", r"set_slicing_context\(SlicingContext\.STATIC\)"),
                     ("save_number_of_currently_executing_cell", r"_IPY\.save_number_of_currently_executing_cell\(\)"),
                     ("ast_transformer_context", r"_IPY\.ast_transformer_context\(transformers\)"), ("input_transformer_context", r"_IPY\.input_transformer_context\(transformers\)")):
        q = next(f.key for f in ctx.ix.funcs.values() if f.name == q and f.qual == q)
        inside(ctx, q, inner)
    for static, k in ((True, "STATIC"), (False, "DYNAMIC")):
        inside(ctx, "slicing_context", rf"set_slicing_context\((SlicingContext\.{k}|.* if is_static else .*)\)", O().when(r"^is_static$", static), f":{k}")
    inside(ctx, "IPyflowInteractiveShell.inner_tracing_context", r"dataflow_tracing_disabled_patch\(.*'run_line_magic'")
    inside(ctx, "IPyflowInteractiveShell.inner_tracing_context", r"dataflow_tracing_disabled_patch\(.*'run_cell_magic'", label=":cell")
    # patched functions run the original with tracing off
    for q, orig in (("DataflowTracer.make_tracing_disabled_func.new_func", r"orig_func"),):
        f = nested(ctx, "DataflowTracer.make_tracing_disabled_func", "new_func")
        it = ctx.run(f, None, lambda e: e.kind in ("enter", "exit") or e.kind == "call", closure={})
        cs = [(e, x) for e in it.ends for x in e.trace if x.kind == "call" and T(x.a) == orig]
        ctx.ob("R3-runs-original", f.qual, bool(cs) and all(within(e.trace, x, "dataflow_tracing_disabled") for e, x in cs) and all(
            T(e.value).startswith("orig_func(") for e in it.ends if e.kind == "return"), "a magic does not run untraced", f.loc())
    for n, orig in (("_patched_exec", "exec"), ("_patched_eval", "eval"), ("_patched_tracer_exec", "exec"), ("_patched_tracer_eval", "eval")):
        f = nested(ctx, "IPyflowInteractiveShell._patch_pyccolo_exec_eval", n)
        if f is None:
            ctx.notes.append(f"no function {n}")
            continue
        it = ctx.run(f, None, lambda e: e.kind in ("enter", "exit") or e.kind == "call", closure={})
        cs = [(e, x) for e in it.ends for x in e.trace if x.kind == "call" and re.match(r"orig_\w*" + orig, T(x.a))]
        ctx.ob("R3-runs-original", f.qual, bool(cs) and all(within(e.trace, x, "tracing_disabled") for e, x in cs), "nested code does not run untraced", f.loc())


def nested(ctx, outer, name):
    o = ctx.F(outer)
    for n in ast.walk(o.node):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) and n is not o.node and n.name == name:
            f = FuncInfo(name, f"{o.qual}.{name}", n, None, o.module, o)
            f.oldkey = f.key
            return f
    return None


def inside(ctx, q, inner, oracle=None, label=""):
    it = ctx.run(q, oracle, lambda e: e.kind in ("enter", "exit", "yield"), onlyraise=set())
    ys = [(e, x) for e in it.ends for x in e.trace if x.kind == "yield"]
    ctx.ob("R2-in-effect", it.fi.qual + label, bool(ys) and all(within(e.trace, x, inner) for e, x in ys), f"the body does not run inside /{inner}/", it.fi.loc())


def transformers(ctx):
    """what is added to the shell's transformers for a cell is removed after it, and nothing else is"""
    for q, attr in (("_IpythonState.ast_transformer_context", "ast_transformers"), ("_IpythonState.input_transformer_context", "input_transformers_post")):
        L = rf"shell\(\)\.{attr}"
        it = ctx.run(q, None, lambda e: WRITES(e) or e.kind in ("call", "loop", "iter"), onlyraise={"yield"}, inline=())
        for e in it.ends:
            pass
        seqs = []
        for e in it.ends:
            ys = position_of(e.trace, lambda x: x.kind == "yield")
            seqs.append((e, e.trace[:ys[0]] if ys else e.trace, e.trace[ys[0] + 1:] if ys else []))
        adds = lambda x: (x.is_call("extend") and re.search(L, T(x.recv)) and T(x.b[0]) == "transformers") or (
            x.is_call("append") and re.search(L, T(x.recv)) and T(x.b[0]) == "elem(transformers)") or (
            x.kind == "aug" and re.search(L, T(x.a)) and T(x.c) == "transformers") or (
            x.kind in ("assign", "setitem") and re.search(L, T(x.a)) and re.search(L, T(x.b if x.kind == "assign" else x.c)) and "transformers)" in T(x.b if x.kind == "assign" else x.c))
        bad = next((e for e, pre, _ in seqs if not any(adds(x) for x in pre) and not any(x.kind == "loop" and T(strip_iter(x.a)) == "transformers" for x in pre)), None)
        ctx.ob("R4-transformers-added", q, bool(seqs) and bad is None, "the code transformers of a cell are not active while it runs", it.fi.loc())
        kept = lambda x: x.kind == "assign" and re.fullmatch(L, T(x.a)) is not None and x.b[0] not in ("comp", "new")
        bad = next((x for _, _, post in seqs for x in post if kept(x) or x.is_call("clear") and re.search(L, T(x.recv))), None)
        ctx.ob("R4-user-transformers-kept", q, bad is None, "transformers registered by the cell itself are dropped when it ends", bad.loc() if bad else "")

        rem = lambda x: (x.kind == "delitem" and re.search(L, T(x.a)) is not None) or (x.is_call("remove", "pop") and re.search(L, T(x.recv)) is not None)
        own = [i for i in it.iterations if T(strip_iter(i.iter)) == "transformers" and not any(adds(x) for x in i.events)]
        looped = bool(own) and all(i.kind in ("next", "collect", "hit") for i in own) and any(rem(x) for i in own for x in i.events)

        def removal(x):
            if x.kind == "loop" and T(strip_iter(x.a)) == "transformers":
                return looped
            if x.kind == "call" and any(T(b) == "transformers" for b in x.b) and any(re.search(L, T(b)) for b in x.b):
                return removes(ctx, T(x.a).split(".")[-1], [T(b) for b in x.b], L)
            return x.kind in ("assign", "setitem") and re.search(L, T(x.a)) is not None and re.search(r"not .*transformers|transformers", T(x.b if x.kind == "assign" else x.c)) is not None
        bad = next((e for e, _, post in seqs if not any(removal(x) for x in post)), None)
        ctx.ob("R4-transformers-removed", q, bool(seqs) and bad is None and {e.kind for e, _, _ in seqs} >= {"return", "raise"},
               "the code transformers of a cell stay active after it", it.fi.loc(bad.node) if bad else "")


def removes(ctx, name, args, L):
    """a helper taking (container, items) that removes each item, by identity, from the container"""
    fs = [f for f in ctx.ix.funcs.values() if f.name == name]
    if len(fs) != 1:
        return False
    f = fs[0]
    ps = [a.arg for a in f.node.args.args if a.arg not in ("self", "cls")]
    cont = next((p for p, a in zip(ps, args) if re.search(L, a)), None)
    items = next((p for p, a in zip(ps, args) if a == "transformers"), None)
    if not cont or not items:
        return False
    it = ctx.run(f, None, lambda e: e.kind in ("call", "delitem", "assign", "setitem", "loop"), onlyraise=set())
    rem = lambda e: (e.kind == "delitem" or e.is_call("remove", "pop")) and T(e.recv if e.kind == "call" else e.a) == cont
    outer = [i for i in it.iterations if T(strip_iter(i.iter)) == items]
    filt = [e for e in it.allevents.values() if e.kind in ("setitem", "assign") and cont in T(e.a)]
    if filt:
        return all(e.kind == "setitem" for e in filt)
    dels = [e for e in it.allevents.values() if rem(e)]
    whole = all(i.kind in ("next", "collect", "hit") for i in outer)
    return bool(dels) and bool(outer) and whole


def analysis_state(ctx):
    """saved attributes of an analysis are put back, each with the value it had"""
    q = "SaveOffAttributesMixin.push_attributes"
    it = ctx.run(q, None, lambda e: e.kind in ("yield", "setitem", "loop", "collect") or e.is_call("setattr", "getattr"), onlyraise=set())
    its = lambda lo, hi: [i for i in it.iterations if i.kind in ("next", "collect")]
    pre = [i for i in its(0, 1) if any(x.is_call("setattr") and T(x.b[1]).startswith("elem(kwargs") and T(x.b[2]) in ("kwargs[elem(kwargs)]", "elem(kwargs.values())") for x in i.events)]
    ctx.ob("R5-attributes-set", q, bool(pre), "the requested attributes are not set", it.fi.loc())
    ok = True
    n = 0
    for e in it.ends:
        if e.kind != "return":
            continue
        n += 1
        ys = position_of(e.trace, lambda x: x.kind == "yield")
        post = e.trace[ys[0] + 1:] if ys else []
        ok = ok and any(x.kind == "loop" for x in post)
        ok = ok and not any(x.is_call("setattr") and not re.search(r"\[elem\(|^getattr\(", T(x.b[2])) for x in post)
    rest = [x for x in it.allevents.values() if x.is_call("setattr") and not T(x.b[2]).startswith("kwargs[")]
    saved = [x for x in it.allevents.values() if x.is_call("getattr")]
    ctx.ob("R5-attributes-restored", q, bool(n) and ok and bool(rest) and bool(saved) and all(T(x.b[1]) in T(x.b[2]) for x in rest),
           "an analysis keeps state that was set for a part of the code only", it.fi.loc())
    # saving comes before setting
    first = [e for e in it.ends if e.kind == "return"]
    bad = [e for e in first for i, x in enumerate(e.trace) if x.is_call("getattr") and any(y.is_call("setattr") for y in e.trace[:i])]
    ctx.ob("R5-attributes-restored", q + ":saved-first", not bad, "the saved value is the new one", it.fi.loc())
    for cls in ("ComputeLiveSymbolRefs", "ResolveRvalSymbols"):
        q = f"{cls}.killed_context"
        it = ctx.run(q, None, lambda e: e.kind in ("assign", "aug", "yield", "collect", "enter", "exit") or e.is_call("visit", "update", "difference_update"), onlyraise=set(), track_collect=True)
        it2 = ctx.run(q, None, lambda e: e.kind in ("assign", "aug", "yield") or e.is_call("update", "difference_update"), onlyraise={"yield"})
        D = r"^self\.dead$"
        up = lambda x: (x.kind == "aug" and T(x.b) == "'|'" and re.search(r"self\.dead|^dead$", T(x.a)) is not None) or x.is_call("update") and "dead" in T(x.recv)
        down = lambda x: (x.kind == "aug" and T(x.b) == "'-'") or x.is_call("difference_update") and "dead" in T(x.recv)
        bad = None
        for e in it2.ends:
            ys = position_of(e.trace, lambda x: x.kind == "yield")
            if not ys:
                continue
            if not any(up(x) for x in e.trace[:ys[0]]) or not any(down(x) for x in e.trace[ys[0]:]):
                bad = e
        ctx.ob("R6-names-shadowed-in-scope-only", q, bool(it2.ends) and {e.kind for e in it2.ends} >= {"return", "raise"} and bad is None,
               "names bound by a comprehension or a lambda stay bound after it", it2.fi.loc())
        subs = [x for x in it2.allevents.values() if down(x)]
        arg_ = lambda x: x.c if x.kind == "aug" else x.b[0]
        ok = bool(subs)
        it3 = ctx.run(q, None, lambda e: e.is_call("add", "append", "yield"), onlyraise=set())
        for x in subs:
            v = arg_(x)
            t = T(v)
            adds = [y for y in it3.allevents.values() if y.is_call("add", "append") and y.recv == v]
            if adds:
                ok = ok and all(any(a[0] == "cmp" and a[1] == "in" and a[2] == y.b[0] and not val for a, val in y.facts.items()) for y in adds)
                continue
            ok = ok and (re.search(r" not in |not \(?elem\(.*\) in | - ", t) is not None)
        ctx.ob("R6-outer-names-stay", q, ok, "a name that was already bound outside is removed", it2.fi.loc())
        vis = [(e, x) for e in it.ends for x in e.trace if x.is_call("visit")]
        ctx.ob("R6-target-visited", q, bool(vis) and all(within(e.trace, x, r"push_attributes\(.*_in_kill_context=True|kill_context") for e, x in vis),
               "the bound names are not collected as bindings", it.fi.loc())


def scoped(ctx):
    """operations outside context managers: the reset happens on every exit"""
    def exits(rule, q, pred, why, oracle=None, after=None, f=None, **kw):
        f = f or ctx.F(q)
        kw.setdefault("onlyraise", Raises(*kw.pop("noraise", ())))
        it = ctx.run(f, oracle, lambda e: pred(e) or (after is not None and after(e)), **kw)
        ends = [e for e in it.ends if after is None or any(after(x) for x in e.trace)]
        bad = next((e for e in ends if not any(pred(x) for x in e.trace)), None)
        ctx.ob(rule, f.qual, bool([e for e in ends if e.kind == "return"]) and bool([e for e in ends if e.kind == "raise"]) and bad is None,
               f"{why} (on {bad.kind})" if bad else why, f.loc(bad.node) if bad else f.loc())
        return it
    A = lambda r, v: (lambda e: assigns(e, r) and re.fullmatch(v, T(e.b)) is not None)
    exits("R7-request-scoped", "CommManager.handle_compute_exec_schedule", A(r"\.active_cell_id$", "None"), "the active cell outlives the request")
    D = "_debounced_exec_schedule"
    q = next(f.key for f in ctx.ix.funcs.values() if f.name == D)
    S = r"\.exec_schedule$"
    for m in ("DAG_BASED", "LIVENESS_BASED"):
        o = O().enum(r"exec_schedule$", m)
        it = ctx.run(q, o, lambda e: e.kind == "assign" or e.is_call("handle"), onlyraise={"handle", "get_and_set_exception_raised_during_execution"})
        bad = next((e for e in it.ends for k, (v, _) in final_writes(e.trace).items() if k.endswith(".exec_schedule") and not is_entry(v, k)), None)
        ctx.ob("R8-schedule-restored", f"{D}:{m}", bool(it.ends) and bad is None, "the schedule stays changed after the delayed check", it.fi.loc())
        bad = next((e for e in it.ends if not any(assigns(x, r"debounced_exec_schedule_pending$") and T(x.b) == "False" for x in e.trace)), None)
        ctx.ob("R8-pending-cleared", f"{D}:{m}", bool(it.ends) and {e.kind for e in it.ends} >= {"return", "raise"} and bad is None,
               "requests stay blocked after the delayed check", it.fi.loc())
        hs = [(e, i) for e in it.ends for i, x in enumerate(e.trace) if x.is_call("handle")]
        want = "HYBRID_DAG_LIVENESS_BASED" if m == "DAG_BASED" else None
        ok = bool(hs)
        for e, i in hs:
            w = [T(x.b) for x in e.trace[:i] if assigns(x, S)]
            ok = ok and ((w and w[-1].endswith(want)) if want else not w or not w[-1].endswith("HYBRID_DAG_LIVENESS_BASED"))
        ctx.ob("R8-schedule-in-effect", f"{D}:{m}", ok, "the delayed check runs under the wrong schedule", it.fi.loc())
    T_ = "DataflowTracer."
    f = nested(ctx, T_ + "decorator", "tracing_decorator")
    if f is not None:
        it = ctx.run(f, None, lambda e: e.kind in ("setitem", "delitem") or e.is_call("pop", "deco"), onlyraise=Raises(), closure={})
        bad = next((e for e in it.ends if any(x.kind == "setitem" and "deco_metadata" in T(x.a) for x in e.trace) and not any(
            (x.is_call("pop") and "deco_metadata" in T(x.recv) and len(x.b) == 2) or (x.kind == "delitem" and "deco_metadata" in T(x.a)) for x in e.trace)), None)
        ctx.ob("R9-decorator-metadata", f.qual, bad is None and {e.kind for e in it.ends} >= {"return", "raise"}, "decorator bookkeeping outlives the decorator call", f.loc())
        every(ctx, "R9-decorator-called", f.qual, [e for e in it.ends if e.kind == "return"], lambda e: T(e.value) == "deco(func)", "the decorator's result is not returned")
    pop = lambda r: (lambda e: e.is_call("pop") and e.recv is not None and re.search(r, T(e.recv)) is not None)
    exits("R9-literal-stack", T_ + "after_literal", pop(r"lexical_literal_stack$"), "the literal stack keeps an entry of a finished literal",
          O().when(r"^self\.active_literal_scope is None$", False))
    exits("R9-statement-flag", T_ + "after_stmt", A(r"^self\.tracing_disabled_since_last_stmt$", "False"), "a statement is taken for untraced")
    for r, v, why in ((r"^self\.saved_complex_symbol_load_data$", "None", "access data"), (r"^self\.first_obj_id_in_chain$", "None", "the start of the access chain"),
                      (r"^self\.top_level_node_id_for_chain$", "None", "the access chain's node"), (r"^self\.active_scope$", r"self\.cur_frame_original_scope", "the scope")):
        exits("R9-access-chain", T_ + "after_complex_symbol", A(r, v), f"{why} of an attribute access outlives it")
    exits("R10-visit-stack", "ComputeLiveSymbolRefs.visit", pop(r"visit_stack$"), "the analysis keeps a node it has left", after=lambda e: e.is_call("append") and "visit_stack" in T(e.recv))
    clr = lambda n: (lambda e: call_on(e, rf"^self\.{n}$", "clear"))
    q = "NotebookFlow.check_and_link_multiple_cells"
    for n in ("updated_reactive_symbols_last_cell", "updated_deep_reactive_symbols_last_cell"):
        it = ctx.run(q, O().when(r"^clear_updated_reactive_symbols$", True), clr(n), onlyraise={"compute_frontend_checker_result"})
        ctx.ob("R11-reactive-symbols-cleared", f"{q}:{n}", {e.kind for e in it.ends} >= {"return", "raise"} and all(any(clr(n)(x) for x in e.trace) for e in it.ends),
               "symbols of the last cell stay reactive", it.fi.loc())
        it = ctx.run(q, O().when(r"^clear_updated_reactive_symbols$", False), clr(n), onlyraise=set())
        ctx.ob("R11-reactive-symbols-cleared", f"{q}:{n}:off", not it.allevents, "reactive symbols are cleared although not asked for", it.fi.loc())
    q = "IPyflowInteractiveShell.run_cell"
    q = q if ctx.F(q, required=False) else "InteractiveShell.run_cell"
    it = ctx.run(q, None, lambda e: e.kind == "call", onlyraise={"run_cell"})
    for lab, p in (("capture", lambda e: T(e.a).startswith("getattr(self, '_reset_should_capture_output'") or e.is_call("_reset_should_capture_output")),
                   ("tee", lambda e: e.is_call("done_capturing_output"))):
        ctx.ob("R12-capture-ends", f"{it.fi.qual}:{lab}", {e.kind for e in it.ends} >= {"return", "raise"} and all(any(p(x) for x in e.trace) for e in it.ends),
               "output capture outlives the cell", it.fi.loc())
    it = ctx.run("IPyflowInteractiveShell._reset_should_capture_output", None, lambda e: e.kind == "assign")
    every(ctx, "R12-capture-ends", it.fi.qual, it.ends, lambda e: T(e.value) == "self._should_capture_output" and any(
        assigns(x, r"^self\._should_capture_output$") and T(x.b) == "False" for x in e.trace), "a request to capture output outlives the cell")
    # patched event loop: the current task of a loop is put back
    f = nested(ctx, "_patched_patch_task", "step")
    if f is not None:
        it = ctx.run(f, None, lambda e: e.kind in ("setitem", "call", "delitem"), onlyraise=Raises(), closure={})
        ok = bool(it.ends) and {e.kind for e in it.ends} >= {"return", "raise"}
        for e in it.ends:
            ok = ok and any((x.kind == "setitem" and f"{T(x.a)}.get(task._loop" in T(x.c)) or (x.is_call("pop") and T(x.b[0]) == "task._loop" and any(
                y.is_call("get") and y.recv == x.recv for y in e.trace)) for x in e.trace)
        ctx.ob("R13-current-task", f.qual, ok, "a nested event loop step loses the current task", f.loc())


def tracing_scope(ctx):
    """after a cell, tracing is off and the import hooks of the tracers are out of the way (to be put back for the next one)"""
    q = "IPyflowInteractiveShell._tracing_context"
    o = lambda: O().when(r"^self\.syntax_transforms_only$", False)
    on = lambda e: e.is_call("_enable_tracing")
    off = lambda e: e.is_call("_disable_tracing")
    for pend in (True, False):
        it = ctx.run(q, o().when(r"tracer_cleanup_pending$", pend), lambda e: e.kind in ("yield", "loop") or e.is_call("cleanup_tracers", "_disable_tracing", "_enable_tracing"),
                     onlyraise=set(), opaque={"cleanup_tracers", "make_rewriter_and_syntax_augmenters", "_syntax_transform_only_tracing_context", "inner_tracing_context"})
        bad = None
        for e in it.ends:
            if e.kind != "return":
                continue
            ys = position_of(e.trace, lambda x: x.kind == "yield")
            post = e.trace[ys[-1] + 1:] if ys else []
            if pend:
                ok = any(x.is_call("cleanup_tracers") for x in post)
            else:
                ok = any(x.kind == "loop" and (("registered_tracers" in T(x.a)) or T(x.a).startswith("reversed(new_")) for x in post) and not any(x.is_call("cleanup_tracers") for x in post)
            if not ok:
                bad = e
        ctx.ob("R14-tracing-ends", f"{q}:pending={pend}", bool(it.ends) and bad is None, "tracing goes on after the cell", it.fi.loc())
        if not pend:
            its = [i for i in it.iterations if any(off(x) for x in i.events)]
            nodes = {id(i.node) for i in its}
            full = [i for i in it.iterations if id(i.node) in nodes]
            ctx.ob("R14-tracing-ends", f"{q}:each", bool(full) and all(any(off(x) for x in i.events) for i in full) and all(
                i.kind in ("next", "collect") for i in full), "a tracer stays enabled after the cell", it.fi.loc())
    for q2, rec in (("IPyflowInteractiveShell._restore_meta_path", None),):
        it = ctx.run(q2, None, lambda e: e.is_call("insert", "pop"), onlyraise=set())
        ins = [e for e in it.allevents.values() if e.is_call("insert")]
        every(ctx, "R14-import-hooks", q2, ins, lambda e: T(e.recv) == "sys.meta_path" and T(e.b[0]) == "0" and "_saved_meta_path_entries.pop(" in T(e.b[1]), "import hooks are not put back")
    it = ctx.run(q, o().when(r"tracer_cleanup_pending$", False), lambda e: e.is_call("_restore_meta_path", "insert") or e.kind == "yield", onlyraise=set(),
                 opaque={"_restore_meta_path", "cleanup_tracers", "make_rewriter_and_syntax_augmenters", "_syntax_transform_only_tracing_context", "inner_tracing_context"})
    bad = [e for e in it.ends if e.kind == "return" and any(x.kind == "yield" for x in e.trace) and not any(
        x.is_call("_restore_meta_path") for x in e.trace[:position_of(e.trace, lambda x: x.kind == "yield")[0]])]
    ctx.ob("R14-import-hooks", q, bool(it.ends) and not bad, "imports of the cell are not traced", it.fi.loc())


def check(ctx):
    context_managers(ctx)
    in_effect(ctx)
    transformers(ctx)
    analysis_state(ctx)
    scoped(ctx)
    tracing_scope(ctx)
