from .common import *
from .c12 import final_writes, linear

TITLE = "Session start and end"
PROP = dict(
    title="A new session starts empty and unloading gives everything back",
    statement="Starting a session or resetting its counters leaves nothing of an earlier one: no cells, statements, positions, tags, memoized results, counters, aliases "
              "or value versions, and nothing that collects session data is shared between sessions. Loading the extension switches shell and kernel to the tracking "
              "ones and continues the cell numbering; unloading returns to the previous classes once the running cell has ended, unless it is loaded again before. "
              "Removing a tracer stops it at the end of the cell.",
    over=["histories"],
    qtext="every sequence of sessions, resets, loads and unloads, whatever was executed before",
    why_tests_cant="Tests reset between runs but look only at what they set up; leftovers show as phantom cells or wrong versions later.",
    files=["core/ipyflow/flow.py", "core/ipyflow/data_model/cell.py", "core/ipyflow/data_model/statement.py", "core/ipyflow/shell/__init__.py",
           "core/ipyflow/shell/interactiveshell.py", "core/ipyflow/kernel/kernel.py", "core/ipyflow/__init__.py", "core/ipyflow/line_magics.py"],
    mechanism=[("starting and resetting a session", "flow.py, data_model/cell.py, data_model/statement.py"),
               ("loading and unloading", "__init__.py, shell/, kernel/kernel.py"), ("tracers", "line_magics.py, shell/interactiveshell.py")],
    observe=["cells, statements, tags and versions after a restart", "class of the shell and kernel after load and unload"],
)
TECHNIQUE = ("whole-package scan for class- and module-level state that is written, compared with what the reset functions (abstract interpretation) put back; "
             "path rules for load, unload, inject and eject under every combination of conditions")
LEVEL_NOTE = "All class- and module-level state of the package is enumerated; instance state is new by construction and checked to be."

MUTATE = ADDERS | {"discard", "remove", "pop", "clear", "difference_update", "popitem", "popleft"}
# shared on purpose: descriptions of library functions, patched modules, class registries, constants; none holds data of a session
SHARED = {
    ("annotations/compiler", "REGISTERED_CLASS_SPECS"), ("annotations/compiler", "REGISTERED_FUNCTION_SPECS"),
    ("tracing/external_calls/base_handlers", "external_call_handler_by_name"), ("tracing/external_calls/base_handlers", "REGISTERED_HANDLER_BY_FUNCTION"),
    ("tracing/external_calls/base_handlers", "REGISTERED_HANDLER_BY_METHOD"), ("patches", "_patched_modules"), ("patches/__init__", "_patched_modules"),
    ("analysis/symbol_ref", "visit_stack"),
    ("models", "_CodeCellContainer"), ("models", "_NamespaceContainer"), ("models", "_ScopeContainer"), ("models", "_StatementContainer"), ("models", "_SymbolContainer"),
    ("models", "_TimestampContainer"),
}
SCALARS = {("Slice", "_func_counter"), ("IPyflowKernel", "prev_kernel_class"), ("IPyflowKernel", "replacement_class"), ("IPyflowKernel", "client_comm"),
           ("IPyflowInteractiveShell", "prev_shell_class"), ("IPyflowInteractiveShell", "replacement_class"), ("SubscriptIndices", "types")}


def base_name(n):
    return n.id if isinstance(n, ast.Name) else None


def is_container(v):
    if isinstance(v, (ast.Dict, ast.List, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)):
        return True
    return isinstance(v, ast.Call) and (getattr(v.func, "id", getattr(v.func, "attr", ""))) in {
        "dict", "list", "set", "defaultdict", "OrderedDict", "deque", "Counter", "WeakKeyDictionary", "WeakValueDictionary", "WeakSet", "KeyDict"}


def mutations(tree):
    """(target expression, kind) of every statement that writes or mutates an attribute or a name"""
    for n in ast.walk(tree):
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.AnnAssign)):
            ts = n.targets if isinstance(n, ast.Assign) else [n.target]
            for t in ts:
                for x in (t.elts if isinstance(t, ast.Tuple) else [t]):
                    if isinstance(x, ast.Subscript):
                        yield x.value, "item", n
                    elif isinstance(n, ast.AnnAssign) and n.value is None:
                        continue
                    else:
                        yield x, "aug" if isinstance(n, ast.AugAssign) else "assign", n
        elif isinstance(n, ast.Delete):
            for t in n.targets:
                if isinstance(t, ast.Subscript):
                    yield t.value, "item", n
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATE:
            yield n.func.value, "call", n
            # d.setdefault(k, ..).add(x), d[k].add(x)
            v = n.func.value
            while isinstance(v, (ast.Call, ast.Subscript)):
                v = v.value if isinstance(v, ast.Subscript) else v.func.value if isinstance(v.func, ast.Attribute) else None
            if v is not None and v is not n.func.value:
                yield v, "call", n


def shared_state(ctx):
    ix = ctx.ix
    inits = {}
    for ci in ix.classes.values():
        own = set()
        for m in ci.methods.values():
            for t, kind, _ in mutations(m.node):
                if kind == "assign" and isinstance(t, ast.Attribute) and base_name(t.value) == "self":
                    own.add(t.attr)
        inits[ci.name] = own
    written = {}
    local = {}
    for f in ix.funcs.values():
        cls = f.cls.name if getattr(f, "cls", None) is not None and hasattr(f.cls, "name") else f.qual.split(".")[0] if "." in f.qual else None
        for t, kind, n in mutations(f.node):
            if isinstance(t, ast.Attribute):
                written.setdefault(t.attr, []).append((f, t, kind, n, cls))
            elif isinstance(t, ast.Name):
                local.setdefault(t.id, []).append((f, t, kind, n))
    n = 0
    resets = {"Cell", "Statement"}
    found = {}
    for ci in ix.classes.values():
        for a, st in ci.attrs.items():
            if st.value is None or ci.name in resets and False:
                continue
            ws = []
            for f, t, kind, nd, cls in written.get(a, []):
                b = t.value
                bn = base_name(b)
                onclass = bn in ("cls", ci.name, "shell_class", "kernel_class") or isinstance(b, ast.Attribute) and b.attr == "__class__" or (
                    isinstance(b, ast.Call) and base_name(b.func) in ("cells", "statements", "symbols", "type"))
                if kind == "assign":
                    if onclass:
                        ws.append((f, nd))
                elif onclass or (is_container(st.value) and a not in inits[ci.name]):
                    ws.append((f, nd))
            if not ws:
                continue
            n += 1
            found.setdefault(ci.name, set()).add(a)
            if ci.name in resets:
                continue
            ok = (ci.name, a) in SCALARS
            ctx.ob("R1-shared-state", f"{ci.name}.{a}", ok, "state shared by all sessions collects data and is never reset", ws[0][0].loc(ws[0][1]))
    for name, m in sorted(ix.modules.items()):
        short = name.replace("ipyflow.", "", 1).replace(".", "/")
        for st in m.tree.body:
            tg = st.targets[0] if isinstance(st, ast.Assign) else st.target if isinstance(st, ast.AnnAssign) else None
            if not isinstance(tg, ast.Name) or st.value is None or not is_container(st.value):
                continue
            ws = []
            for f, t, kind, nd in local.get(tg.id, []):
                if kind == "assign" or binds(f.node, tg.id):
                    continue
                if f.module is m or imports(f.module.tree, tg.id):
                    ws.append((f, nd))
            n += 1
            if ws:
                ctx.ob("R1-shared-state", f"{short}.{tg.id}", (short, tg.id) in SHARED, "state shared by all sessions collects data and is never reset", ws[0][0].loc(ws[0][1]))
    ctx.nonvacuous("R1-shared-state", n, 10)
    for f in ix.funcs.values():
        for d in getattr(f.node, "decorator_list", ()):
            if re.search(r"\b(lru_cache|cache|cached_property)\b", ast.unparse(d)) and not ast.unparse(d).startswith("self"):
                bad = next((x for x in ast.walk(f.node) if isinstance(x, ast.Call) and base_name(x.func) in ("flow", "shell", "cells", "statements", "tracer", "kernel")), None)
                if "cached_property" in ast.unparse(d):
                    continue
                ctx.ob("R2-cached-functions", f.qual, bad is None and not [a for a in f.node.args.args if a.arg == "self"], "results of one session are reused in another", f.loc())
        if isinstance(f.node, (ast.FunctionDef, ast.AsyncFunctionDef)):
            a = f.node.args
            for arg_, d in list(zip((a.posonlyargs + a.args)[-len(a.defaults):] if a.defaults else [], a.defaults)) + [(x, y) for x, y in zip(a.kwonlyargs, a.kw_defaults) if y is not None]:
                if is_container(d):
                    hit = [1 for t, k, _ in mutations(f.node) if base_name(t) == arg_.arg and k != "assign"]
                    stored = [1 for x in ast.walk(f.node) if isinstance(x, ast.Assign) and isinstance(x.targets[0], ast.Attribute) and base_name(x.value) == arg_.arg]
                    ctx.ob("R2-shared-defaults", f"{f.qual}:{arg_.arg}", not hit and not stored, "a default value is shared by all calls and written", f.loc())
    ctx.ob("R2-shared-defaults", "package", True)
    return found


def binds(fn, name):
    for n in ast.walk(fn):
        if isinstance(n, ast.arg) and n.arg == name:
            return True
        if isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Store):
            return not any(isinstance(g, ast.Global) and name in g.names for g in ast.walk(fn))
    return False


def imports(tree, name):
    return any(isinstance(n, ast.ImportFrom) and any((a.asname or a.name) == name for a in n.names) for n in ast.walk(tree))


def norm(src):
    return src.replace(" ", "")


def reset(ctx, found):
    ix = ctx.ix
    for cn in ("Cell", "Statement"):
        ci = ix.classes[cn]
        q = f"{cn}.clear"
        it = ctx.run(q, None, lambda e: e.kind == "assign" or e.is_call("clear"), onlyraise=set())
        names = sorted(a for a in found.get(cn, ()))
        ctx.nonvacuous(f"R3-reset {cn}", len(names), 2)
        for a in names:
            v = ci.attrs[a].value
            init = norm(ast.unparse(v))
            ok = bool(it.ends)
            for e in it.ends:
                good = False
                for x in e.trace:
                    if x.kind == "assign" and re.search(rf"(^|\.){a}$", T(x.a)):
                        good = same_initial(x.b, v)
                    elif x.is_call("clear") and re.search(rf"(^|\.){a}$", T(x.recv)):
                        good = is_container(v) and (init in ("{}", "[]", "set()", "dict()", "list()") or init.startswith(("defaultdict(", "OrderedDict(")))
                ok = ok and good
            ctx.ob("R3-reset", f"{cn}.{a}", ok, "state of an earlier session survives a reset", it.fi.loc())
    q = "NotebookFlow.__init__"
    CL = lambda who: (lambda e: e.is_call("clear") and T(e.recv) in who)
    CELLS, STMTS = CL(("cells()", "Cell")), CL(("statements()", "Statement"))
    o = O().when(r"is_dev_mode", False)
    it = ctx.run(q, o, lambda e: CELLS(e) or STMTS(e) or (e.kind == "assign" and T(e.a).startswith("self.")) or e.is_call("CommManager"), onlyraise=set())
    rets = [e for e in it.ends if e.kind == "return"]
    for lab, p in (("cells", CELLS), ("statements", STMTS)):
        ctx.ob("R4-start-clears", f"{q}:{lab}", bool(rets) and all(any(p(x) for x in e.trace) for e in rets), f"{lab} of the earlier session are still known", it.fi.loc())
    # everything an instance collects is new: containers are fresh objects, counters start at their constants
    attrs = {}
    for e in rets:
        for plc, (v, ev) in final_writes(e.trace).items():
            if plc.startswith("self.") and plc.count(".") == 1:
                attrs.setdefault(plc[5:], []).append((v, ev))
    ctx.nonvacuous("R5-fresh-instance-state", len(attrs), 30)
    collected = {a for f in ix.funcs.values() for t, k, _ in mutations(f.node) if isinstance(t, ast.Attribute) and k != "assign" for a in [t.attr]}
    for a, vs in sorted(attrs.items()):
        v, ev = vs[0]
        txt = T(v)
        bad = a in collected and re.match(r"(self\.__class__|NotebookFlow|type\(self\)|[A-Z]\w*)\.\w+$|\w+\(\)\.\w+$", txt) is not None
        if len(rets) and len(vs) != len(rets):
            bad = True
        ctx.ob("R5-fresh-instance-state", f"NotebookFlow.{a}", not bad, "starts with data of an earlier session or is not set", ev.loc())
    news = {}
    for a, vs in attrs.items():
        if vs[0][0][0] == "new":
            news.setdefault(vs[0][0], []).append(a)
    shared = [v for v in news.values() if len(v) > 1]
    ctx.ob("R5-fresh-instance-state", "NotebookFlow:distinct", not shared, f"{shared[:1]} are one and the same object", it.fi.loc())
    decl = {a for a in collected if re.search(rf"\bself\.{a}\b", ast.unparse(ix.classes["NotebookFlow"].node))}
    for a in sorted(decl):
        ctx.ob("R5-fresh-instance-state", f"NotebookFlow.{a}:set", a in attrs or a in {m for m in ix.classes["NotebookFlow"].methods}, "collected state is not set up at the start", it.fi.loc())
    # containers and start values
    for a, want in (("updated_symbols", "set"), ("updated_reactive_symbols", "set"), ("updated_deep_reactive_symbols", "set"), ("updated_reactive_symbols_last_cell", "set"),
                    ("updated_deep_reactive_symbols_last_cell", "set"), ("aliases", "dict"), ("namespaces", "dict"), ("blocked_reactive_timestamps_by_symbol", "dict"),
                    ("statement_to_func_sym", "dict"), ("stmt_deferred_static_parents", "dict"), ("_cell_name_to_cell_num_mapping", "dict"), ("tracked_timestamps", "dict")):
        v = attrs.get(a, [(NONE, None)])[0][0]
        ctx.ob("R6-start-values", f"NotebookFlow.{a}", (v[0] == "new" and v[1] == want) or T(v) in ("{}", f"{want}()", "[]"), f"does not start as an empty {want}", it.fi.loc())
    for a, want in (("min_timestamp", "-1"), ("min_cascading_reactive_cell_num", "-1"), ("_min_new_ready_cell_counter", "-1"), ("_min_forced_reactive_cell_counter", "-1"),
                    ("exception_counter", "0"), ("active_cell_id", "None"), ("last_executed_cell_id", "None"), ("_override_child_cell", "None"),
                    ("_prev_cell_metadata_by_id", "None"), ("_prev_order_idx_by_id", "None"), ("_exception_raised_during_execution", "None")):
        v = attrs.get(a, [(("const", "?", "?"), None)])[0][0]
        ctx.ob("R6-start-values", f"NotebookFlow.{a}", T(v) == want, f"does not start as {want} but {T(v)}", it.fi.loc())
    for a, cls in (("global_scope", "Scope"), ("virtual_symbols", "Scope"), ("comm_manager", "CommManager")):
        v = attrs.get(a, [(NONE, None)])[0][0]
        ctx.ob("R6-start-values", f"NotebookFlow.{a}", re.match(rf"(new_)?{cls}\(?", T(v)) is not None, "is not new", it.fi.loc())
    q = "NotebookFlow.reset_cell_counter"
    S = r"elem\(self\.all_symbols\(\)\)"
    it = ctx.run(q, None, lambda e: CELLS(e) or STMTS(e), onlyraise=set())
    for lab, p in (("cells", CELLS), ("statements", STMTS)):
        ctx.ob("R7-counters-reset", f"{q}:{lab}", bool(it.ends) and all(any(p(x) for x in e.trace) for e in it.ends), f"{lab} survive the reset", it.fi.loc())
    for a in ("_timestamp", "_max_inner_timestamp", "required_timestamp"):
        ctx.each_iter("R7-counters-reset", q, r"all_symbols\(\)", lambda e: assigns(e, rf"^{S}\.{a}$") and T(e.b).endswith("uninitialized()"), construct=f"{q}:{a}",
                      why="a value keeps its version", onlyraise=set())
    for a in ("_updated_timestamps", "timestamp_by_used_time", "timestamp_by_liveness_time"):
        ctx.each_iter("R7-counters-reset", q, r"all_symbols\(\)", lambda e: call_on(e, rf"^{S}\.{a}$", "clear") or (
            assigns(e, rf"^{S}\.{a}$") and e.b[0] == "new"), construct=f"{q}:{a}", why="a value keeps its usage records", onlyraise=set())


def same_initial(t, v):
    """does the assigned term equal the initial value from the class body"""
    src = norm(ast.unparse(v))
    if t[0] == "new":
        return src in {"dict": ("{}", "dict()"), "list": ("[]", "list()"), "set": ("set()",)}.get(t[1], (t[1] + "()",))
    if is_const(t):
        return isinstance(v, ast.Constant) and v.value == t[2] and type(v.value) is type(t[2])
    return norm(T(t)) == src


def loading(ctx):
    CLS = lambda e, obj, v: assigns(e, rf"{obj}\.__class__$") and re.search(v, T(e.b)) is not None
    for q, kind, sub, base in (("shell:load_ipython_extension", "shell", r"issubclass\(ipy\.__class__, IPyflowInteractiveShell\)|isinstance\(ipy, IPyflowInteractiveShell\)", "ipy.__class__"),
                               ("ipyflow:load_ipython_extension", "kernel", r"issubclass\(getattr\(ipy, 'kernel', None\)\.__class__, IPyflowKernel\)|isinstance\(getattr\(ipy, 'kernel', None\), IPyflowKernel\)",
                                "getattr(ipy, 'kernel', None).__class__")):
        f = ext(ctx, q)
        nk = r"getattr\(ipy, 'kernel', None\) is None$"
        for already in (True, False):
            o = O().when(sub, already).when(nk, False).when(r"^getattr\(ipy, 'kernel', None\)$", True)
            it = ctx.run(f, o, lambda e: e.kind == "assign" or e.is_call("inject", "send", "load_ipyflow_extension", "load_ipython_extension", "Comm"), onlyraise=set())
            cancel = lambda e: assigns(e, r"\.replacement_class$") and T(e.b) == "None"
            inj = lambda e: e.is_call("inject")
            ok = bool(it.ends) and all(any(cancel(x) for x in e.trace) == already and any(inj(x) for x in e.trace) == (not already) for e in it.ends)
            ctx.ob("R8-load", f"{kind}:loaded={already}", ok, "loading again does not cancel the unload" if already else "loading does not install the tracking class", f.loc())
            if not already:
                every(ctx, "R8-load", f"{kind}:previous", [x for e in it.ends for x in e.trace if inj(x)], lambda x: any(k == f"prev_{kind}_class" and T(v) == base for k, v in x.c or ())
                      or [T(b) for b in x.b][:1] == [base], "the previous class is not remembered", lambda x: x.loc())
            if kind == "kernel":
                snd = lambda e: e.is_call("send") and "'establish'" in T(e.b[0]).replace('"', "'")
                ctx.ob("R8-load", f"kernel:establish:loaded={already}", bool(it.ends) and all(any(snd(x) for x in e.trace) for e in it.ends), "the client is not told", f.loc())
                ctx.ob("R8-load", f"kernel:shell:loaded={already}", bool(it.ends) and all(any(x.is_call("load_ipyflow_extension", "load_ipython_extension") for x in e.trace) for e in it.ends),
                       "the shell is not switched", f.loc())
        if kind == "kernel":
            it = ctx.run(f, O().when(nk, True).when(r"^getattr\(ipy, 'kernel', None\)$", False), lambda e: e.kind == "call", onlyraise=set())
            ctx.ob("R8-load", "kernel:none", bool(it.ends) and all(any(x.is_call("load_ipyflow_extension", "load_ipython_extension") for x in e.trace) and not any(
                x.is_call("inject", "send") for x in e.trace) for e in it.ends), "loading without a kernel fails", f.loc())
    for q, kind in (("shell:unload_ipython_extension", "shell"), ("ipyflow:unload_ipython_extension", "kernel")):
        f = ext(ctx, q)
        it = ctx.run(f, O().when(r"getattr\(ipy, 'kernel', None\) is None$", False).when(r"^getattr\(ipy, 'kernel', None\)$", True).when(r"^is(instance|subclass)\(", True).when(
            r"prev_\w+_class is None$", False).when(r"prev_\w+_class is not None$", True), lambda e: e.kind == "assign" or e.kind == "call", onlyraise=set())
        rep = lambda e: assigns(e, r"\.replacement_class$") and T(e.b) == T(e.a).replace("replacement_class", f"prev_{kind}_class")
        rets = [e for e in it.ends if e.kind == "return"]
        ctx.ob("R9-unload", kind, bool(rets) and all(any(rep(x) for x in e.trace) for e in rets) and not [
            x for e in rets for x in e.trace if assigns(x, r"\.__class__$")], "unloading does not return to the previous class", f.loc())
        if kind == "kernel":
            ctx.ob("R9-unload", "kernel:shell", bool(rets) and all(any(x.is_call("unload_ipyflow_extension", "unload_ipython_extension") for x in e.trace) for e in rets), "the shell is not unloaded", f.loc())
    for cls, kind in (("IPyflowInteractiveShell", "shell"), ("IPyflowKernel", "kernel")):
        rc = rf"{kind}_class\.replacement_class"
        q = f"{cls}._maybe_eject"
        who = r"get_ipython\(\)" if kind == "shell" else r"get_ipython\(\)\.kernel"
        for pend in (True, False):
            it = ctx.run(q, O().when(r"replacement_class is None$", not pend).when(r"replacement_class$", pend), lambda e: e.kind == "assign", onlyraise=set())
            swap = lambda e: assigns(e, rf"^{who}\.__class__$") and T(e.b).endswith(".replacement_class")
            clr = lambda e: assigns(e, r"\.replacement_class$") and T(e.b) == "None"
            if pend:
                ok = bool(it.ends) and all(any(swap(x) for x in e.trace) and any(clr(x) for x in e.trace) for e in it.ends)
            else:
                ok = bool(it.ends) and not it.allevents
            ctx.ob("R10-eject", f"{q}:pending={pend}", ok, "the previous class does not come back exactly when asked for", it.fi.loc())
        q = f"{cls}.inject"
        for first in (True, False):
            o = O().when(r"prev_\w+_class is None$", first).when(r"exec_result is None$", False)
            it = ctx.run(q, o, lambda e: e.kind == "assign" or e.is_call("_initialize", "instance", "register_comm_target"), onlyraise=set())
            rets = [e for e in it.ends if e.kind == "return"]
            ctx.ob("R11-inject", f"{q}:first={first}", bool(rets) and all(any(x.is_call("_initialize") for x in e.trace) == first for e in rets), "set up is skipped or repeated", it.fi.loc())
            ctx.ob("R11-inject", f"{q}:first={first}:class", bool(rets) and all(any(
                assigns(x, r"\.__class__$") and T(x.b) in (f"{kind}_class", cls) for x in e.trace) for e in rets), "the class is not switched", it.fi.loc())
            ctx.ob("R11-inject", f"{q}:first={first}:previous", bool(rets) and all(any(assigns(x, rf"\.prev_{kind}_class$") and T(x.b) == f"prev_{kind}_class" for x in e.trace) for e in rets),
                   "the previous class is not remembered", it.fi.loc())
            if kind == "kernel":
                ctx.ob("R11-inject", f"{q}:first={first}:comm", bool(rets) and all(any(x.is_call("register_comm_target") for x in e.trace) for e in rets), "the client cannot connect", it.fi.loc())
    q = "IPyflowInteractiveShell.inject"
    for running in (True, False):
        it = ctx.run(q, O().when(r"exec_result is None$", not running).when(r"exec_result$", running), lambda e: e.kind in ("assign", "aug_assign"), onlyraise=set())
        ok = bool(it.ends)
        for e in it.ends:
            w = final_writes(e.trace)
            v = next((x[0] for k, x in w.items() if k.endswith("_cell_counter")), None)
            ok = ok and v is not None and linear(v) == ({"get_ipython().execution_count": 1} if running else {"get_ipython().execution_count": 1, "1": -1})
        ctx.ob("R11-inject", f"{q}:counter:running={running}", ok, "cell numbering does not continue", it.fi.loc())
    # ejected only after the cell, on every way through
    for q in ("IPyflowInteractiveShell.run_cell_async", "IPyflowKernel.do_execute"):
        for f in [f for f in ctx.ix.funcs.values() if f.qual == q]:
            it = ctx.run(f, None, lambda e: e.is_call("_maybe_eject", "run_cell_async", "_ipyflow_run_cell", "do_execute", "run_until_complete"), onlyraise=set(),
                         opaque={"_maybe_eject", "_ipyflow_run_cell"})
            rets = [e for e in it.ends if e.kind == "return"]
            ok = bool(rets) and all(e.trace and e.trace[-1].is_call("_maybe_eject") and sum(x.is_call("_maybe_eject") for x in e.trace) == 1 and len(e.trace) > 1 for e in rets)
            ctx.ob("R10-eject", f"{f.qual}", ok, "unloading takes effect at the wrong time or never", f.loc())


def ext(ctx, q):
    pkg, name = q.split(":")
    mod = "ipyflow" if pkg == "ipyflow" else "ipyflow." + pkg
    fs = [f for f in ctx.ix.funcs.values() if f.name == name and f.module.name in (mod, mod + ".__init__", pkg, pkg + ".__init__", "" if pkg == "ipyflow" else pkg, "__init__" if pkg == "ipyflow" else pkg)]
    if len(fs) != 1:
        raise AnalysisBroken(f"{q}: {[(f.key) for f in ctx.ix.funcs.values() if f.name == name]}")
    ctx.functions.add(fs[0].key)
    return fs[0]


def tracers(ctx):
    S = r"\(?shell_ or shell\(\)\)?|shell_|shell\(\)"
    q = "_deregister_tracers"
    q = next(f.key for f in ctx.ix.funcs.values() if f.qual == q)
    PEND = lambda e: assigns(e, r"tracer_cleanup_pending$") and T(e.b) == "True"
    ctx.always("R12-tracer-removed", q, PEND, construct="_deregister_tracers:pending", why="a removed tracer is not stopped", onlyraise=set())
    for n, p in (("instance", lambda e: e.is_call("clear_instance") and T(e.recv) == "elem(tracers)"),
                 ("registered", lambda e: e.is_call("remove", "discard") and T(e.recv).endswith("registered_tracers") and T(e.b[0]) == "elem(tracers)")):
        ctx.each_iter("R12-tracer-removed", q, r"tracers", p, construct=f"_deregister_tracers:{n}", why="a removed tracer stays active", onlyraise=set())
    it = ctx.run(q, None, lambda e: e.is_call("remove"), onlyraise={"remove"})
    its = [i for i in it.iterations if "tracers" in T(strip_iter(i.iter))]
    ctx.ob("R12-tracer-removed", "_deregister_tracers:all", bool(its) and not [i for i in its if i.kind in ("break", "return")], "other tracers stay active", it.fi.loc())
    ctx.ob("R12-tracer-removed", "_deregister_tracers:missing", not [e for e in it.ends if e.kind == "raise" and "ValueError" in T(e.value)], "removing an unregistered tracer fails", it.fi.loc())
    q = "IPyflowInteractiveShell.cleanup_tracers"
    ctx.each_iter("R13-cleanup", q, r"tracer_cleanup_callbacks", lambda e: e.kind == "call" and T(e.a).startswith("elem("), why="a tracer is not stopped", onlyraise=set())
    ctx.always("R13-cleanup", q, lambda e: e.kind == "loop" and T(strip_iter(e.a)) == "self.tracer_cleanup_callbacks", construct=q + ":all", why="tracers are not stopped", onlyraise=set())
    for n, p in (("callbacks", lambda e: call_on(e, r"tracer_cleanup_callbacks$", "clear") or assigns(e, r"tracer_cleanup_callbacks$") and e.b[0] == "new"),
                 ("pending", lambda e: assigns(e, r"tracer_cleanup_pending$") and T(e.b) == "False"), ("imports", lambda e: e.is_call("_restore_meta_path"))):
        ctx.always("R13-cleanup", q, p, construct=f"{q}:{n}", why="the cleanup is incomplete", onlyraise=set(), opaque={"_restore_meta_path"})
    it = ctx.run(q, None, lambda e: e.kind in ("loop",) or e.is_call("clear"), onlyraise=set(), opaque={"_restore_meta_path"})
    bad = [e for e in it.ends if [x.kind for x in e.trace if x.kind == "loop" or x.is_call("clear")][:1] == ["call"]]
    ctx.ob("R13-cleanup", q + ":order", bool(it.ends) and not bad, "the callbacks are dropped before they run", it.fi.loc())


def check(ctx):
    found = shared_state(ctx)
    reset(ctx, found)
    loading(ctx)
    tracers(ctx)
