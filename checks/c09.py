from .common import *
from .c08 import callkw
from .c12 import is_entry, final_writes, inside

TITLE = "Front-end requests"
PROP = dict(
    title="Every front-end request gets one correct, truthful answer",
    statement="Each request from the front end reaches exactly the handler of its type and is answered exactly once: with the result, or with success=false when the "
              "request cannot be served; no request stops the kernel, and unknown ones are ignored. A schedule answer reports the settings, execution state and "
              "analysis in force now, over all tracked cells of the notebook the front end sent. Notebook edits sent by the front end (order, contents, new cells, "
              "ids of cells first seen without one, overrides) are all taken over before the answer is computed, and a cell that does not parse keeps its previous contents.",
    over=["inputs", "histories"],
    qtext="every request in every state of the session, including malformed contents, unknown cells and failing handlers",
    why_tests_cant="Tests send a few well-formed requests; a lost or doubled answer or a stale field needs particular states.",
    files=["core/ipyflow/comm_manager.py", "core/ipyflow/flow.py", "core/ipyflow/data_model/cell.py", "core/ipyflow/data_model/symbol.py", "core/ipyflow/kernel/kernel.py"],
    mechanism=[("dispatch and handlers", "comm_manager.py"), ("cell ids and overrides", "data_model/cell.py, flow.py"),
               ("answers without a request", "data_model/symbol.py, kernel/kernel.py")],
    observe=["messages on the comm channel"],
)
TECHNIQUE = ("path-sensitive analysis of the dispatcher and every handler: answers sent per path, the value of every answer field traced to its source, order of "
             "state updates before the answer, exceptional exits")
LEVEL_NOTE = "All paths of the dispatcher and of the ten handlers are decided; the transport itself is not modelled."

CM = "CommManager."
HANDLERS = ["change_active_cell", "compute_exec_schedule", "notify_content_changed", "reactivity_cleanup", "refresh_symbols", "upsert_symbol", "get_code",
            "get_last_updated_cell_id", "bump_timestamp", "register_dynamic_comm_handler"]
CALLS = lambda e: e.kind in ("call", "assign", "setitem", "aug_assign", "delitem", "aug", "enter", "exit")


def arg(ev, i, name):
    if len(ev.b) > i:
        return ev.b[i]
    return next((v for k, v in ev.c or () if k == name), NONE)


def is_handler_call(e):
    return e.kind == "call" and re.match(r"self\._comm_handlers(\.get\(|\[)", T(e.a)) is not None and not T(e.a).endswith(".get") and not e.is_call("get", "send", "setdefault", "update")


def fieldof(trace, obj, key):
    """last value stored under key in obj (setitem / setdefault), or None"""
    v = None
    for x in trace:
        if x.kind == "setitem" and x.a == obj and x.b == const(key):
            v = x.c
        elif x.is_call("setdefault") and x.recv == obj and x.b and x.b[0] == const(key):
            v = ("setdefault", x.b[1])
    return v


def dictof(t):
    return {k[2]: v for k, v in t[1] if k is not None and is_const(k)} if t is not None and t[0] == "dict" else None


def dispatch(ctx):
    q = CM + "handle"
    hc = is_handler_call
    it = ctx.run(q, None, CALLS, onlyraise=set())
    loc = it.fi.loc()
    n = 0
    for e in it.ends:
        hs = [x for x in e.trace if hc(x)]
        sends = [x for x in e.trace if x.is_call("send")]
        fs = {T(k): v for k, v in e.facts.items()}
        if not hs:
            if e.kind == "return":
                n += 1
            ctx.ob("R1-unknown-ignored", q + ":unknown", e.kind == "return" and not sends, "an unknown request stops the kernel or is answered", it.fi.loc(e.node))
    ctx.nonvacuous("R1-unknown-ignored", n)
    # a request of unknown type calls nothing, one of known type its handler once with the request
    def known(o, v):
        return o.fn(lambda a, s: (not v) if re.search(r"^self\._comm_handlers\.get\(request\['type'\]\)( is None)?$", atexts(a)[0]) and " is " in atexts(a)[0] else
                    (v if atexts(a)[0] in ("request['type'] in self._comm_handlers", "self._comm_handlers.get(request['type'])") else None))
    for case in ("ok", "none", "noresp"):
        for comm in ("given", "default", "none"):
            o = known(O(), True)
            o.fn(lambda a, s: (case == "noresp") if "NO_RESPONSE" in atexts(a)[0] and a[0] == "cmp" else None)
            o.fn(lambda a, s: (case == "none") if a[0] == "cmp" and a[1] == "is" and any(re.match(r"self\._comm_handlers.*\(request\) is None$", t) for t in atexts(a)) else None)
            o.fn(lambda a, s: (comm != "given") if a[0] == "cmp" and "comm is None" in atexts(a) else (comm == "given") if atexts(a)[0] == "comm" else None)
            o.fn(lambda a, s: (comm == "none") if a[0] == "cmp" and "self._comm is None" in atexts(a) else (comm != "none") if atexts(a)[0] == "self._comm" else None)
            it = ctx.run(q, o, CALLS, onlyraise=set())
            lab = f"{q}:{case}:{comm}"
            ends = [e for e in it.ends if not any("exc(" in T(x.b) for x in e.trace if x.kind == "call" and x.is_call("str"))]
            ctx.ob("R2-one-handler", lab, bool(ends) and all(e.kind == "return" and [(T(x.a), [T(b) for b in x.b]) for x in e.trace if hc(x)] in (
                [("self._comm_handlers.get(request['type'])", ["request"])], [("self._comm_handlers[request['type']]", ["request"])]) for e in ends),
                "the request does not reach the handler of its type exactly once", loc)
            want = 0 if case == "noresp" or comm == "none" else 1
            bad = None
            for e in ends:
                sends = [x for x in e.trace if x.is_call("send")]
                if len(sends) != want:
                    bad = bad or (e, f"{len(sends)} answers instead of {want}")
                for x in sends:
                    if T(x.recv) != ("comm" if comm == "given" else "self._comm"):
                        bad = bad or (e, f"answered on {T(x.recv)}")
                    r = x.b[0]
                    if case == "ok" and not re.match(r"self\._comm_handlers.*\(request\)$", T(r)):
                        bad = bad or (e, f"answers {T(r)[:40]} instead of the result")
                    if case == "none" and r[0] not in ("new", "dict"):
                        bad = bad or (e, "no answer for a handler without a result")
                    for key, dflt in (("type", r"request\['type'\]"), ("success", "True")):
                        v = fieldof(e.trace, r, key)
                        d = dictof(r)
                        if v is None and d is not None and key in d:
                            v = d[key]
                        t = T(v) if v is not None and v[0] != "setdefault" else ("SD " + T(v[1]) if v else None)
                        okv = t is not None and (re.fullmatch(rf"SD {dflt}", t) or re.search(rf"\.get\('{key}', {dflt}\)$", t) or (case == "none" and re.fullmatch(dflt, t)))
                        # `if key not in response: response[key] = default`
                        if not okv and t is not None and re.fullmatch(dflt, t) and any(T(k).startswith(f"'{key}' in ") and not val for k, val in e.facts.items()):
                            okv = True
                        if not okv and t is None and any(T(k).startswith(f"'{key}' in ") and val for k, val in e.facts.items()):
                            okv = True
                        if not okv:
                            bad = bad or (e, f"{key} of the answer is {t}")
                    late = e.trace[e.trace.index(x) + 1:]
                    if any(y.kind in ("setitem", "call") and (y.kind == "setitem" and y.a == r) for y in late):
                        bad = bad or (e, "the answer changes after it was sent")
            ctx.ob("R3-one-answer", lab, bool(ends) and bad is None, bad[1] if bad else "no path", it.fi.loc(bad[0].node) if bad else loc)
    # a failing handler is answered with success=false and does not stop the kernel
    for dev in (True, False):
        o = known(O(), True).when(r"is_dev_mode", dev).when(r"comm is None", False).when(r"^comm$", True).fn(lambda a, s: False if a[0] == "cmp" and "NO_RESPONSE" in T(a) else None)
        it = ctx.run(q, o, lambda e: e.kind in ("call", "setitem"), onlyraise=Handler())
        ends = [e for e in it.ends if any("exc" in T(x.b) or "exc" in T(x.recv or NONE) for x in e.trace)]
        ok = bool(ends)
        for e in ends:
            sends = [x for x in e.trace if x.is_call("send")]
            d = dictof(sends[0].b[0]) if len(sends) == 1 else None
            # answer is a dict with success False and the message
            kept = sends and (fieldof(e.trace, sends[0].b[0], "success") or ("",))[0] == "setdefault"
            ok = ok and e.kind == "return" and d is not None and d.get("success") == FALSE and "exc" in T(d.get("error", NONE)) and (kept or \
                fieldof(e.trace, sends[0].b[0], "success") in (None, FALSE) + tuple(x for x in [fieldof(e.trace, sends[0].b[0], "success")] if x is not None and "'success'" in T(x)))
        ctx.ob("R4-failure-answered", f"{q}:dev={dev}", ok, "a failing handler is not answered with success=false", it.fi.loc())
        ctx.ob("R4-failure-contained", f"{q}:dev={dev}", not [e for e in it.ends if e.kind == "raise" and "exc?" in T(e.value or NONE) and "send" not in T(e.value)],
               "a failing handler stops the kernel", it.fi.loc())


class Handler:
    """only the handler itself raises"""

    def __contains__(self, n):
        return n not in ("get", "send", "str", "exception", "error", "setdefault", "info", "debug")

    def __bool__(self):
        return True


def registry(ctx):
    q = CM + "_register_default_handlers"
    it = ctx.run(q, None, lambda e: e.kind == "call" or e.kind == "setitem", onlyraise=set())
    for e in it.ends:
        reg = {}
        for x in e.trace:
            if x.is_call("register_comm_handler"):
                reg.setdefault(T(x.b[0]), []).append(T(x.b[1]))
        for h in HANDLERS:
            ctx.ob("R5-handlers", h, reg.get(repr(h)) == [f"self.handle_{h}"], f"requests of type {h} go to {reg.get(repr(h))}", it.fi.loc())
    it = ctx.run(CM + "__init__", None, CALLS, onlyraise=set())
    for e in it.ends:
        w = final_writes(e.trace)
        at = [i for i, x in enumerate(e.trace) if x.kind == "assign" and T(x.a) == "self._comm_handlers"]
        rg = [i for i, x in enumerate(e.trace) if x.is_call("_register_default_handlers")]
        ctx.ob("R5-handlers", CM + "__init__", len(at) == 1 and rg and rg[0] > at[0] and T(w["self._comm"][0]) == "None" and
               T(w["self.debounced_exec_schedule_pending"][0]) == "False" and T(w["self.flow"][0]) == "flow_instance", "the handlers are not registered at the start", it.fi.loc())
    q = CM + "register_comm_handler"
    for have in (True, False):
        for over in (True, False):
            o = O().when(r"^msg_type in self\._comm_handlers$", have).when(r"^overwrite$", over).when(r"_comm_handlers\.get\(msg_type\) is None", not have)
            it = ctx.run(q, o, CALLS, onlyraise=set())
            if have and not over:
                ok = bool(it.ends) and all(e.kind == "raise" and "ValueError" in T(e.value) and not [x for x in e.trace if x.kind == "setitem"] for e in it.ends)
            else:
                ok = bool(it.ends) and all(e.kind == "return" and [(T(x.b), T(x.c)) for x in e.trace if x.kind == "setitem"] == [("msg_type", "handler")] for e in it.ends)
            ctx.ob("R6-register", f"{q}:have={have}:overwrite={over}", ok, "registering a handler replaces one unasked, or is lost", it.fi.loc())
    f = ctx.F(q)
    a = f.node.args
    d = dict(zip([x.arg for x in a.args][-len(a.defaults):] if a.defaults else [], a.defaults))
    d.update({k.arg: v for k, v in zip(a.kwonlyargs, a.kw_defaults)})
    ctx.ob("R6-register", q + ":default", "overwrite" in d and isinstance(d["overwrite"], ast.Constant) and d["overwrite"].value is False, "handlers are replaced by default", f.loc())
    q = CM + "handle_register_dynamic_comm_handler"
    miss = lambda o, v: o.fn(lambda a, s: v if re.search(r"request\.get\('(msg_type|handler)'.*\) is None", " ".join(atexts(a))) else None)
    it = ctx.run(q, miss(O(), False), CALLS, onlyraise=set())
    regs = [(e, [x for x in e.trace if x.is_call("register_comm_handler")]) for e in it.ends if e.kind == "return"]
    ctx.ob("R6-register", q, bool(regs) and all(len(r) == 1 and re.match(r"request(\.get\('msg_type'|\['msg_type'\])", T(r[0].b[0])) and
           "overwrite" in T(arg(r[0], 2, "overwrite") or NONE) and re.search(r"get\('overwrite', False\)", T(arg(r[0], 2, "overwrite"))) for e, r in regs),
           "a handler sent by the front end is not registered under its type", it.fi.loc())
    for e, r in regs:
        lam = r[0].b[1] if r and len(r[0].b) > 1 else None
        ctx.ob("R6-register", q + ":body", lam is not None and lam[0] in ("lambda", "closure", "func", "fn") or (lam is not None and "lambda" in T(lam)), f"what is registered is {T(lam) if lam else None}", it.fi.loc())
        ex = [x for x in e.trace if x.is_call("exec") or T(x.a) == "exec"]
        pops = [x for x in e.trace if x.is_call("pop") and "globals" in T(x.recv)]
        ctx.ob("R6-register", q + ":exec", len(ex) == 1 and bool(pops) and e.trace.index(ex[0]) < e.trace.index(pops[0]), "the handler's code is not taken over", it.fi.loc())
    it = ctx.run(q, miss(O(), True), CALLS, onlyraise=set())
    ctx.ob("R6-register", q + ":incomplete", bool(it.ends) and all(e.kind == "return" and not [x for x in e.trace if x.is_call("register_comm_handler", "exec")] for e in it.ends),
           "an incomplete handler registration is not ignored", it.fi.loc())


def target(ctx):
    q = CM + "_comm_target"
    it = ctx.run(q, None, CALLS, onlyraise=set())
    for e in it.ends:
        ini = [i for i, x in enumerate(e.trace) if x.is_call("initialize")]
        snd = [i for i, x in enumerate(e.trace) if x.is_call("send") and T(x.recv) == "comm"]
        st = [i for i, x in enumerate(e.trace) if x.kind == "assign" and T(x.a) == "self._comm" and T(x.b) == "comm"]
        ok = e.kind == "return" and len(ini) == 1 and len(snd) == 1 and len(st) == 1 and ini[0] < snd[0]
        ctx.ob("R7-connect", q, ok, "connecting does not initialize the session and then confirm", it.fi.loc())
        if snd:
            d = dictof(e.trace[snd[0]].b[0]) or {}
            ctx.ob("R7-connect", q + ":establish", d.get("type") == const("establish") and d.get("success") == TRUE, "connecting is not confirmed", it.fi.loc())
        if ini:
            x = e.trace[ini[0]]
            ctx.ob("R7-connect", q + ":options", any(k is None and re.search(r"open_msg\.get\('content', .*\)\.get\('data', |open_msg\['content'\]\['data'\]", T(v)) is not None for k, v in x.c or ()),
                   "the options the front end connects with are not used", it.fi.loc())
    f = nested_responder(ctx)
    if f is None:
        ctx.ob("R8-listen", q, False, "no message handler is installed", it.fi.loc())
        return
    for comp in (True, False):
        for pend in (True, False):
            o = O().fn(lambda a, s: comp if any("'compute_exec_schedule'" in t and "==" in t for t in atexts(a)) else None).when(r"debounced_exec_schedule_pending$", pend)
            it = ctx.run(f, o, CALLS, onlyraise=set(), closure={"self": ("var", "self"), "comm": ("var", "comm")})
            hs = [[x for x in e.trace if x.is_call("handle")] for e in it.ends]
            if comp and pend:
                ok = bool(hs) and not any(hs)
            else:
                ok = bool(hs) and all(len(h) == 1 and T(h[0].b[0]) == "msg['content']['data']" and T(arg(h[0], 1, "comm")) == "comm" and e.kind == "return" for h, e in zip(hs, it.ends))
            ctx.ob("R8-listen", f"{f.qual}:schedule={comp}:pending={pend}", ok, "a request is dropped, or one made redundant by a pending update is not", f.loc())


def nested_responder(ctx):
    o = ctx.F(CM + "_comm_target")
    for n in ast.walk(o.node):
        if isinstance(n, ast.FunctionDef) and n is not o.node and (any("on_msg" in ast.unparse(d) for d in n.decorator_list) or f"comm.on_msg({n.name})" in ast.unparse(o.node)):
            f = FuncInfo(n.name, f"{o.qual}.{n.name}", n, None, o.module, o)
            f.oldkey = f.key
            return f
    return None


SETTINGS = {"exec_mode": r"mut_settings\.exec_mode\.value$", "exec_schedule": r"exec_schedule\.value$", "flow_order": r"mut_settings\.flow_order\.value$",
            "highlights": r"mut_settings\.highlights\.value$", "last_executed_cell_id": r"request\.get\('executed_cell_id', self\.flow\.last_executed_cell_id\)$",
            "is_reactively_executing": r"request\.get\('is_reactively_executing', False\)$", "type": r"'compute_exec_schedule'$",
            "executed_cells": r"^(list|sorted)\(.*all_executed_cell_ids\(\)\)$"}
META = r"request\.get\('cell_metadata_by_id', self\.flow\._prev_cell_metadata_by_id\)"


def compute(ctx):
    q = CM + "_handle_compute_exec_schedule_impl"
    N = r"_handle_notify_content_changed_impl"
    it = ctx.run(q, O().when(r"dataflow_enabled$", False), CALLS, onlyraise=set())
    ctx.ob("R9-disabled", q, bool(it.ends) and all(e.kind == "return" and (dictof(e.value) or {}).get("success") == FALSE and "error" in (dictof(e.value) or {}) and not [
        x for x in e.trace if x.is_call(N, "check_and_link_multiple_cells")] for e in it.ends), "a disabled session is not answered with a failure", it.fi.loc())
    base = lambda: O().when(r"dataflow_enabled$", True)
    it = ctx.run(q, base().when(META + " is None", True), CALLS, onlyraise=set())
    ctx.ob("R9-no-notebook", q, bool(it.ends) and all(e.kind == "return" and (dictof(e.value) or {}).get("success") == FALSE and not [
        x for x in e.trace if x.is_call("check_and_link_multiple_cells")] for e in it.ends), "a request without a notebook is not answered with a failure", it.fi.loc())
    have = lambda: base().when(META + " is None", False)
    it = ctx.run(q, have(), CALLS, onlyraise={"_add_parents_for_override_live_refs"})
    rets = [e for e in it.ends if e.kind == "return"]
    ctx.ob("R9-answer", q, bool(rets), "no answer", it.fi.loc())
    for e in rets:
        chk = [x for x in e.trace if x.is_call("check_and_link_multiple_cells")]
        ok = len(chk) == 1 and e.value[0] == "call" and T(e.value).endswith(".to_json()") and "check_and_link_multiple_cells" in T(e.value)
        ctx.ob("R9-answer", q + ":result", ok, "the answer is not the result of checking the notebook once", it.fi.loc(e.node))
        if not ok:
            continue
        for k, r in SETTINGS.items():
            v = fieldof(e.trace, e.value, k)
            ctx.ob("R10-fields", k, v is not None and re.search(r, T(v)) is not None, f"the answer's {k} is {T(v)[:80] if v else None}", it.fi.loc(e.node))
        v = fieldof(e.trace, e.value, "last_execution_was_error")
        ctx.ob("R10-fields", "last_execution_was_error", v is not None and v in (("not", x) for x in [("cmp", "is", y, NONE) for y in subterms(v)] + [("cmp", "is", NONE, y) for y in subterms(v)])
               and "_exception_raised_during_execution" in T(v) or (v is not None and re.search(r"_exception_raised_during_execution is not None$|not .*_exception_raised_during_execution is None", T(v)) is not None)
               or (v is not None and re.fullmatch(r"\(?not \(?(None is )?self\.flow\._exception_raised_during_execution( is None)?\)?\)?", T(v)) is not None),
               f"the answer's last_execution_was_error is {T(v)[:80] if v else None}", it.fi.loc(e.node))
        v = fieldof(e.trace, e.value, "settings")
        ctx.ob("R10-fields", "settings", v is not None and all(s in T(v) for s in ("self.flow.mut_settings.to_json()", "self.flow.settings.to_json()")), f"the answer's settings are {T(v)[:80] if v else None}", it.fi.loc(e.node))
        es = fieldof(e.trace, e.value, "exec_schedule")
        ctx.ob("R10-fields", "exec_schedule:source", es is not None and "mut_settings.exec_schedule" in T(es), "the answer's schedule is not the one in force", it.fi.loc(e.node))
        x = chk[0]
        ctx.ob("R11-check", "last_executed_cell_id", T(arg(x, 2, "last_executed_cell_id")) == "request.get('executed_cell_id', self.flow.last_executed_cell_id)", "the check starts from another cell than the one executed", it.fi.loc(e.node))
    # which cells are checked: all tracked cells of the notebook
    c = [i for i in it.iterations if re.search(META, T(i.iter)) and i.kind in ("next", "collect")]
    col = [i for i in c if any(x.kind == "collect" for x in i.events)] or [i for i in it.iterations if i.kind == "collect" and "from_id_nullable" in T(i.iter)]
    it2 = ctx.run(q, have().when(r"from_id_nullable\(elem\(.*\)\) is None$", False).when(r"elem\(.*\) is None$", False), lambda e: True, onlyraise=set())
    it3 = ctx.run(q, have().when(r"from_id_nullable\(elem\(.*\)\) is None$", True).when(r"elem\(.*\) is None$", True), lambda e: True, onlyraise=set())
    k2 = [ev for ev in it2.allevents.values() if ev.kind == "collect" and re.search(r"from_id_nullable\(elem\(" + META, T(ev.b) + T(ev.c)) or ev.is_call("append") and re.search(r"from_id_nullable\(elem\(" + META, T(ev.b[0]))]
    ctx.ob("R11-check", "cells", bool(k2), "tracked cells of the notebook are not checked", it2.fi.loc())
    extra = {T(f) for ev in it2.allevents.values() if ev.kind == "collect" or ev in k2 for f in ev.facts if "elem(" in T(f) and not re.search(r" is None|has_id\(|^isinstance", T(f))}
    ctx.ob("R11-check", "cells:unconditional", not extra, f"cells are left out when {sorted(extra)[:1]}", it2.fi.loc())
    chk = [x for e in it2.ends for x in e.trace if x.is_call("check_and_link_multiple_cells")]
    ctx.ob("R11-check", "cells:passed", bool(chk) and all(arg(x, 0, "cells_to_check") is not None and T(arg(x, 0, "cells_to_check")) != "None" for x in chk), "the cells of the notebook are not what is checked", it2.fi.loc())
    k3 = [ev for ev in it3.allevents.values() if ev.kind == "collect" and re.search(r"from_id_nullable\(elem\(" + META, T(ev.b) + T(ev.c)) or ev.is_call("append") and re.search(r"from_id_nullable\(elem\(" + META, T(ev.b[0]))]
    per = {}
    for i in it2.iterations:
        per.setdefault(i.kind, []).append(i)
    ctx.ob("R11-check", "cells:all", "break" not in per and "return" not in per, "some cells of the notebook are left out", it2.fi.loc())
    # new-ready reporting: only for liveness based schedules, or as requested
    for sch, exp in (("LIVENESS_BASED", "allow_new_ready"), ("HYBRID_DAG_LIVENESS_BASED", "allow_new_ready"), ("DAG_BASED", False)):
        for allow in (True, False):
            o = sched(have(), sch).when(r"^allow_new_ready$", allow)
            it = ctx.run(q, o, CALLS, onlyraise=set())
            chk = [x for e in it.ends for x in e.trace if x.is_call("check_and_link_multiple_cells")]
            ok = bool(chk)
            for x in chk:
                v = arg(x, 4, "allow_new_ready")
                if v is None or v[0] != "call" or not T(v).startswith("request.get('allow_new_ready', "):
                    ok = False
                    continue
                d = v[2][1]
                ok = ok and val_in(d, allow, sch) is (allow and exp == "allow_new_ready")
            ctx.ob("R11-check", f"allow_new_ready:{sch}:{allow}", ok, "cells are (not) reported as newly ready against the schedule", it.fi.loc())
    # active cell and placeholder id
    for act in (True, False):
        for req in (True, False):
            for ph in (True, False):
                o = have().when(r"request\.get\('active_cell_id'\) is None$", not req).when(r"is_placeholder_id$", ph)
                it = ctx.run(q, o.when(r"^self\.flow\.active_cell_id is None$", act) if act is False else o, CALLS, onlyraise=set(), inline={"NotebookFlow.set_active_cell"})
                sets = lambda e: [x for x in e.trace if x.is_call("set_active_cell")]
                ups = lambda e: [x for x in e.trace if x.is_call("update_id")]
                if act is False:
                    ctx.ob("R12-active-cell", f"given:{req}:{ph}", bool(it.ends) and not any(sets(e) or ups(e) for e in it.ends), "an active cell that is already known is replaced", it.fi.loc())
                elif req:
                    rel = [e for e in it.ends if any(T(k) == "self.flow.active_cell_id is None" and v for k, v in e.facts.items()) or sets(e)]
                    ctx.ob("R12-active-cell", f"requested:{ph}", bool(rel) and all([T(x.b[0]) for x in sets(e)] == ["request.get('active_cell_id')"] for e in rel), "the active cell the front end names is not taken over", it.fi.loc())
                    if ph:
                        ctx.ob("R12-active-cell", "placeholder", any(ups(e) for e in rel) and all(
                            re.search(r"current_cell\(\)$", T(x.recv)) and T(x.b[0]) in ("self.flow.active_cell_id", "request.get('active_cell_id')") for e in rel for x in ups(e)), "a cell without an id does not get the active cell's", it.fi.loc())
                    else:
                        ctx.ob("R12-active-cell", "real-id-kept", not any(ups(e) for e in rel), "a cell with an id is renamed", it.fi.loc())
                else:
                    ctx.ob("R12-active-cell", f"none:{ph}", bool(it.ends) and not any(sets(e) for e in it.ends), "an active cell is made up", it.fi.loc())
    # contents first
    for par in (True, False):
        for req in (True, False):
            o = have().when(r"^notify_content_changed$", par).fn(lambda a, s: req if a[0] == "truth" and T(a[1]).startswith("request.get('notify_content_changed'") else None)
            it = ctx.run(q, o, CALLS, onlyraise=set())
            ok = bool(it.ends)
            for e in it.ends:
                ns = [i for i, x in enumerate(e.trace) if x.is_call(N)]
                ck = [i for i, x in enumerate(e.trace) if x.is_call("check_and_link_multiple_cells")]
                ok = ok and len(ns) == (1 if par and req else 0) and (not ns or (ck and ns[0] < ck[0]))
                if ns:
                    x = e.trace[ns[0]]
                    ok = ok and T(x.b[0]) == "request" and T(arg(x, 1, "is_reactively_executing")) == "request.get('is_reactively_executing', False)"
                    gets = [i for i, y in enumerate(e.trace) if y.is_call("get") and y.b and y.b[0] == const("cell_metadata_by_id")]
            ctx.ob("R13-edits-first", f"{q}:asked={par}:{req}", ok, "the notebook's edits are not taken over exactly once before the check", it.fi.loc())
    it = ctx.run(q, have(), lambda e: e.is_call("get"), onlyraise=set())
    ds = {T(x.b[1]) for e in it.ends for x in e.trace if x.is_call("get") and x.b and x.b[0] == const("notify_content_changed")}
    ctx.ob("R13-edits-first", q + ":default", ds <= {"True"}, "edits are not taken over unless asked for", it.fi.loc())
    # override refs of the current cell are linked before the check
    it = ctx.run(q, have(), CALLS, onlyraise={"_add_parents_for_override_live_refs"})
    for e in [e for e in it.ends if e.kind == "return"]:
        i = [i for i, x in enumerate(e.trace) if x.is_call("_add_parents_for_override_live_refs")]
        j = [i for i, x in enumerate(e.trace) if x.is_call("check_and_link_multiple_cells")]
        ctx.ob("R14-overrides", q, bool(i) and bool(j) and i[0] < j[0], "overridden references are not linked before the check", it.fi.loc())
    # wrapper: active cell cleared on every exit
    q = CM + "handle_compute_exec_schedule"
    it = ctx.run(q, None, CALLS, onlyraise={"_handle_compute_exec_schedule_impl"})
    ctx.ob("R15-active-cleared", q, any(e.kind == "raise" for e in it.ends) and all(
        "self.flow.active_cell_id" in final_writes(e.trace) and final_writes(e.trace)["self.flow.active_cell_id"][0] == NONE for e in it.ends), "the active cell stays set after a request", it.fi.loc())
    rets = [e for e in it.ends if e.kind == "return"]
    ok = bool(rets)
    for e in rets:
        cs = [x for x in e.trace if x.is_call("_handle_compute_exec_schedule_impl")]
        ok = ok and len(cs) == 1 and e.value[0] == "call" and "_handle_compute_exec_schedule_impl" in T(e.value) and [T(arg(cs[0], i, n)) for i, n in enumerate(
            ("request", "notify_content_changed", "allow_new_ready"))] == ["request", "notify_content_changed", "allow_new_ready"]
    ctx.ob("R15-delegates", q, ok, "a schedule request is not computed once with its options", it.fi.loc())
    q = CM + "handle_notify_content_changed"
    it = ctx.run(q, None, CALLS, onlyraise=set())
    ctx.ob("R15-delegates", q, bool(it.ends) and all(e.kind == "return" and T(e.value) in (
        "self._handle_notify_content_changed_impl(request, is_reactively_executing=is_reactively_executing)", "self._handle_notify_content_changed_impl(request, is_reactively_executing)") for e in it.ends),
        "the answer to an edit is lost", it.fi.loc())


def val_in(t, allow, sch):
    """value of 'allow_new_ready and exec_schedule in (...)' under the case"""
    if is_const(t):
        return bool(t[2])
    s = T(t)
    if s == "allow_new_ready":
        return allow
    if t[0] == "and" or t[0] == "or":
        rs = [val_in(x, allow, sch) for x in t[1]]
        if None in rs:
            return None
        return all(rs) if t[0] == "and" else any(rs)
    if t[0] == "not":
        r = val_in(t[1], allow, sch)
        return None if r is None else not r
    if t[0] == "cmp" and t[1] in ("in",):
        return sch in re.findall(r"ExecutionSchedule\.(\w+)", T(t[3]))
    if t[0] == "cmp" and t[1] in ("==", "is"):
        return sch in re.findall(r"ExecutionSchedule\.(\w+)", s)
    if t[0] == "ifexp":
        c = val_in(t[1], allow, sch)
        return None if c is None else val_in(t[2] if c else t[3], allow, sch)
    return None



def notify(ctx):
    q = CM + "_handle_notify_content_changed_impl"
    RC = "_recompute_ast_for_cells"
    INT = lambda e: e.kind in ("assign", "collect", "iter", "loop", "setitem") or e.is_call("set_cell_positions", "set_override_refs", RC, "update_id", "remove", "discard", "pop", "_create_untracked_cells_for_content",
                                                                               "handle_compute_exec_schedule", "has_id", "_handle_compute_exec_schedule_impl")
    base = lambda: O().when(r"^" + META + " is None$", False)
    it = ctx.run(q, O().when(r"^" + META + " is None$", True), INT, onlyraise=set())
    ctx.ob("R16-no-notebook", q, bool(it.ends) and all(e.kind == "return" and (dictof(e.value) or {}).get("success") == FALSE and not [x for x in e.trace if x.kind == "assign" or x.is_call(
        "set_cell_positions", "_create_untracked_cells_for_content")] for e in it.ends), "an edit without a notebook is not answered with a failure", it.fi.loc())
    REC = lambda o, v: o.fn(lambda a, s: v if a[0] == "truth" and T(a[1]).startswith("self." + RC) else None)
    LEN = lambda o, v: o.fn(lambda a, s: v if a[0] == "truth" and "with_placeholder_ids()" in T(a[1]) and "elem" not in T(a[1]) else (
        v if a[0] == "cmp" and "len(cells().with_placeholder_ids())" in T(a) else None))
    # state of the notebook taken over on every path
    it = ctx.run(q, REC(LEN(base(), False), False), INT, onlyraise=set())
    rets = [e for e in it.ends if e.kind == "return"]

    def C(t):
        """what a mapping holds, also when it is filled in a loop"""
        return T(t) + " ".join(T(x.c) for x in it.allevents.values() if x.kind == "setitem" and x.a == t)
    for e in rets:
        w = final_writes(e.trace)
        ctx.ob("R17-taken-over", "_prev_cell_metadata_by_id", "self.flow._prev_cell_metadata_by_id" in w and re.fullmatch(META, T(w["self.flow._prev_cell_metadata_by_id"][0])) is not None,
               "the notebook is not remembered", it.fi.loc(e.node))
        same = any(v and " == " in T(k) and "_prev_order_idx_by_id" in T(k) for k, v in e.facts.items())
        ctx.ob("R17-taken-over", "_prev_order_idx_by_id", same and "self.flow._prev_order_idx_by_id" not in w or "self.flow._prev_order_idx_by_id" in w and "['index']" in C(w["self.flow._prev_order_idx_by_id"][0]), "the order of the notebook is not remembered", it.fi.loc(e.node))
        pos = [(i, x) for i, x in enumerate(e.trace) if x.is_call("set_cell_positions")]
        ctx.ob("R17-taken-over", "positions", len(pos) >= 1 and all("['index']" in C(x.b[0]) for _, x in pos), "the positions of the cells are not taken over", it.fi.loc(e.node))
        new = [(i, x) for i, x in enumerate(e.trace) if x.is_call("_create_untracked_cells_for_content")]
        ctx.ob("R17-taken-over", "new-cells", len(new) == 1 and "['content']" in C(new[0][1].b[0]), "new cells are not tracked", it.fi.loc(e.node))
        ov = [(i, x) for i, x in enumerate(e.trace) if x.is_call("set_override_refs")]
        ctx.ob("R17-taken-over", "overrides", bool(ov) and new and any(i > new[0][0] for i, _ in ov) and all("['override_live_refs']" in C(x.b[0]) and "['override_dead_refs']" in C(x.b[1]) for _, x in ov), "override references of (new) cells are not taken over", it.fi.loc(e.node))
        rec = [(i, x) for i, x in enumerate(e.trace) if x.is_call(RC)]
        sch = [(i, x) for i, x in enumerate(e.trace) if x.is_call("handle_compute_exec_schedule", "_handle_compute_exec_schedule_impl")]
        ctx.ob("R17-before-answer", q, not sch or (len(sch) == 1 and bool(pos) and bool(new) and pos[0][0] < sch[0][0] and new[0][0] < sch[0][0]), "the answer is computed before the edits are taken over", it.fi.loc(e.node))
        ctx.ob("R17-before-answer", q + ":positions", not rec or (bool(pos) and pos[0][0] < rec[0][0]), "cells are checked at their old positions", it.fi.loc(e.node))
    ctx.nonvacuous("R17-taken-over paths", len(rets))
    # which cells count: code cells and cells with overrides
    whole = lambda ev: ev.kind == "collect" and ev.b is not None and ev.b[0] == "tuple" and len(ev.b[1]) == 2 and ev.b[1][1][0] in ("item", "sub", "[]") and re.search(META, T(ev.b[1][1])) is not None and not T(
        ev.b[1][1]).endswith("']")
    filtered = any(whole(ev) for ev in ctx.run(q, REC(LEN(base(), False), False), lambda e: e.kind == "collect", onlyraise=set()).allevents.values())
    for code in (True, False):
        for live in (True, False):
            for dead in (True, False):
                o = REC(LEN(base(), False), False).fn(lambda a, s: code if "'code'" in T(a) and a[0] == "cmp" and "['type']" in T(a) else None)
                G = lambda k, v: o.fn(lambda a, s: v if a[0] == "truth" and T(a[1]).endswith(f".get('{k}')") else None)
                G("override_live_refs", live)
                G("override_dead_refs", dead)
                it2 = ctx.run(q, o, lambda e: e.kind == "collect", onlyraise=set())
                got = {k: any(f"['{k}']" in T(ev.b) + T(ev.c) for ev in it2.allevents.values()) for k in ("index", "content")}
                if filtered:
                    got = dict.fromkeys(got, any(whole(ev) for ev in it2.allevents.values()) and all(got.values()))
                want = code or live or dead
                ctx.ob("R18-which-cells", f"code={code}:live={live}:dead={dead}", got["index"] == want and got["content"] == want, f"cells of the notebook are {'left out' if want else 'wrongly tracked'}", it2.fi.loc())
                gl = any("['override_live_refs']" in T(ev.b) + T(ev.c) for ev in it2.allevents.values())
                gd = any("['override_dead_refs']" in T(ev.b) + T(ev.c) for ev in it2.allevents.values())
                ctx.ob("R18-which-cells", f"overrides:code={code}:live={live}:dead={dead}", gl == live and gd == dead, "override references are dropped or made up", it2.fi.loc())
    # the comprehension key is the cell itself
    it2 = ctx.run(q, base(), lambda e: e.kind == "collect", onlyraise=set())
    for ev in it2.allevents.values():
        t = ev.b if ev.b is not None else NONE
        for k in ("index", "content", "override_live_refs", "override_dead_refs"):
            tt = T(t)
            if tt.startswith("(elem(") and f"['{k}']" in tt and t[0] == "tuple" and len(t[1]) == 2:
                ctx.ob("R18-which-cells", f"key:{k}", any(x == t[1][0] for x in subterms(t[1][1])), "an edit is attributed to another cell", ev.loc())
    # recomputation: unless executing reactively; answered when something changed
    for reac in (True, False):
        for rec in (True, False):
            o = REC(LEN(base(), False), rec).when(r"^is_reactively_executing$", reac)
            it = ctx.run(q, o, INT, onlyraise=set())
            rets = [e for e in it.ends if e.kind == "return"]
            rc = [bool([x for x in e.trace if x.is_call(RC)]) for e in rets]
            ctx.ob("R19-recompute", f"reactive={reac}:changed={rec}:checked", bool(rc) and all(v is (not reac) for v in rc), "edited cells are not checked again, or in the middle of a reactive execution", it.fi.loc())
            ans = [bool([x for x in e.trace if x.is_call("handle_compute_exec_schedule")]) for e in rets]
            if rec and not reac:
                ctx.ob("R19-answered", f"reactive={reac}:changed={rec}", bool(ans) and all(ans), "an edit that changes the analysis is not answered with a new schedule", it.fi.loc())
            struct = lambda v: REC(LEN(base(), False), rec).when(r"^is_reactively_executing$", reac).fn(
                lambda a, s: v if T(a) == "(self.flow._prev_cell_metadata_by_id is None)" else None).fn(
                lambda a, s: (not v) if a[0] == "cmp" and a[1] == "==" and ("len(" in T(a) or "_prev_order_idx_by_id" in T(a)) else None)
            for v in (True, False):
                it = ctx.run(q, struct(v), INT, onlyraise=set())
                rets = [e for e in it.ends if e.kind == "return"]
                ans = [bool([x for x in e.trace if x.is_call("handle_compute_exec_schedule")]) for e in rets]
                want = v or (rec and not reac)
                ctx.ob("R19-answered", f"reactive={reac}:changed={rec}:structure={v}", bool(ans) and all(a is want for a in ans), "an edit is (not) answered with a new schedule", it.fi.loc())
                for e in rets:
                    for x in e.trace:
                        if x.is_call("handle_compute_exec_schedule"):
                            ctx.ob("R19-answered", "options", T(x.b[0]) == "request" and T(arg(x, 1, "notify_content_changed")) == "False" and T(arg(x, 2, "allow_new_ready")) == "False"
                                   and "handle_compute_exec_schedule" in T(e.value), "the schedule for an edit loops, or starts executions", it.fi.loc(e.node))
                    if not want:
                        ctx.ob("R19-answered", "no-result", e.value == NONE, "an edit without effect is answered", it.fi.loc(e.node))
            for x in [x for e in it.ends for x in e.trace if x.is_call(RC)]:
                ctx.ob("R19-recompute", "what", "['content']" in T(x.b[0]) and "_prev_order_idx_by_id" in T(arg(x, 1, "force")) and "['index']" in T(arg(x, 1, "force")), "reordering does not recompute the analysis", x.loc())
    # structure change is detected against the notebook before the edit
    for tag, f in (("metadata", lambda a: a[0] == "cmp" and "len(" in T(a)), ("order", lambda a: a[0] == "cmp" and "_prev_order_idx_by_id" in T(a))):
        o = REC(LEN(base(), False), False).fn(lambda a, s: False if T(a) == "(self.flow._prev_cell_metadata_by_id is None)" else None).fn(
            lambda a, s: (not f(a)) if a[0] == "cmp" and a[1] == "==" and ("len(" in T(a) or "_prev_order_idx_by_id" in T(a)) else None)
        it = ctx.run(q, o, INT, onlyraise=set())
        ans = [bool([x for x in e.trace if x.is_call("handle_compute_exec_schedule")]) for e in it.ends if e.kind == "return"]
        ctx.ob("R19-structure", tag, bool(ans) and all(ans), "added, removed or moved cells are not noticed", it.fi.loc())
    # cells first seen without an id
    for seen in (True, False):
        for same in (True, False):
            o = REC(LEN(base(), True), False).when(r"is_reactively_executing$", True).fn(lambda a, s: seen if "has_id(" in T(a) else None).fn(lambda a, s: same if a[0] == "cmp" and a[1] in ("==", "is") and any(re.search(r"\.current_content$", T(x)) for x in a[2:4]) and any(T(x).endswith("['content']") or T(x).endswith(")]") for x in a[2:4]) else None)
            it = ctx.run(q, o, INT, onlyraise=set())
            ups = [(e, x) for e in it.ends for x in e.trace if x.is_call("update_id")]
            want = not seen and same
            ctx.ob("R20-placeholder", f"known={seen}:same={same}", bool(ups) is want, "a cell gets another cell's id, or none", it.fi.loc())
            if want:
                PH = r"elem\((list\()?cells\(\)\.with_placeholder_ids\(\)\)?\)"
                for e, x in ups:
                    i = e.trace.index(x)
                    ctx.ob("R20-placeholder", "who", re.search(PH, T(x.recv)) is not None and re.search(r"elem\(request", T(x.b[0])) is not None, "the wrong cell gets the id", it.fi.loc())
                    ctx.ob("R20-placeholder", "once", any(y.is_call("remove", "discard", "pop") and "with_placeholder_ids" in T(y.recv) for y in e.trace[i:]) or "del" in [y.kind for y in e.trace[i:]], "a cell gets several ids", it.fi.loc())
                inner = [i for i in it.iterations if any(x.is_call("update_id") for x in i.events) and "with_placeholder_ids" in T(i.iter) and "sorted" not in T(i.iter)]
                search = [i for i in it.iterations if "with_placeholder_ids" in T(i.iter) and i.kind == "break"]
                after = bool(search) and not inner and all(sum(x.is_call("update_id") for x in i.events) <= 1 for i in it.iterations)
                ctx.ob("R20-placeholder", "one-cell-per-id", after or bool(inner) and all(i.kind in ("break", "return") for i in inner), "several cells get the same id", it.fi.loc())
                outer = [i for i in it.iterations if "sorted(" in T(i.iter) and "['index']" in T(i.iter)]
                ctx.ob("R20-placeholder", "in-order", bool(outer), "ids are not given in the order of the notebook", it.fi.loc())
    it = ctx.run("Cell.with_placeholder_ids", None, lambda e: e.kind == "collect", onlyraise=set())
    ctx.ob("R20-placeholder", it.fi.qual, bool(it.ends) and all(T(e.value).startswith("sorted(") and "cell_ctr" in T(e.value) for e in it.ends), "cells without an id are not in order of execution", it.fi.loc())
    for ph in (True, False):
        it = ctx.run("Cell.with_placeholder_ids", O().when(r"_placeholder_id$|is_placeholder_id$", ph), lambda e: e.kind == "collect" or adds_to(e, "."), onlyraise=set())
        ctx.ob("R20-placeholder", f"{it.fi.qual}:{ph}", bool(it.allevents) is ph, "cells with an id are renamed, or those without are not found", it.fi.loc())


def recompute(ctx):
    q = CM + "_recompute_ast_for_cells"
    SETC = lambda e: assigns(e, r"\.current_content$")
    INT = lambda e: e.kind in ("assign", "aug_assign", "aug") or e.is_call("to_ast", "check_and_resolve_symbols")
    K = lambda o: o.when(r"from_id_nullable\(.*\) is None$", False)
    it = ctx.run(q, K(O()).when(r"^force$", True), INT, onlyraise={"to_ast"})
    its = [i for i in it.iterations if any(SETC(x) for x in i.events)]
    ok = bool(its)
    full = [i for i in its if any(x.is_call("check_and_resolve_symbols") for x in i.events) and i.kind == "next"]
    for i in full:
        cs = [x for x in i.events if SETC(x)]
        ok = ok and len(cs) == 1 and "content_by_cell_id[" in T(cs[0].b)
        for a, v in (("last_check_content", r"current_content$|content_by_cell_id\["), ("last_check_result", r"check_and_resolve_symbols\("), ("last_check_cell_ctr", r"\.cell_ctr$")):
            ctx.ob("R21-recheck", a, any(assigns(x, rf"\.{a}$") and re.search(v, T(x.b)) for x in i.events), "the result of checking an edited cell is not kept", it.fi.loc(i.node))
        o_ = {n: k for k, x in enumerate(i.events) for n in ("to_ast", "check_and_resolve_symbols") if x.is_call(n)}
        c0 = i.events.index(cs[0])
        ctx.ob("R21-recheck", "order", c0 < o_.get("to_ast", 10**6) < o_["check_and_resolve_symbols"], "an edited cell is checked with its old contents", it.fi.loc(i.node))
        ck = [x for x in i.events if x.is_call("check_and_resolve_symbols")]
        ctx.ob("R21-recheck", "liveness", ("update_liveness_time_versions", "True") in [(k, T(v)) for k, v in ck[0].c or ()], "references of an edited cell are not recorded", it.fi.loc(i.node))
        rm = [x for x in i.events if x.kind == "aug" and T(x.b) in ("'|'", "'-'")]
        ctx.ob("R21-recheck", "removed-symbols", [T(x.b) for x in rm][-2:] == ["'|'", "'-'"] and "check_and_resolve_symbols" in T(rm[-1].c) and "last_check_result" in T(rm[-2].c) or len(rm) >= 2 and T(rm[-1].b) == "'-'" and "check_and_resolve_symbols" in T(rm[-1].c),
               "symbols an edit removed are not those used before and not any more", it.fi.loc(i.node))
    ctx.ob("R21-recheck", q, ok and bool(full), "edited cells are not checked with their new contents", it.fi.loc())
    # syntax error
    bad = [i for i in its if i.kind == "next" and not any(x.is_call("check_and_resolve_symbols") for x in i.events)]
    ctx.ob("R22-syntax-error", q, bool(bad), "a cell that does not parse stops the request", it.fi.loc())
    # (from the second iteration on, the previous contents are whatever the last iteration left)
    ctx.ob("R22-syntax-error", q + ":previous", any([T(x.b) == T(x.a) for x in i.events if SETC(x)] == [False, True] for i in bad), "a cell that does not parse does not keep its previous contents", it.fi.loc())
    for i in bad:
        cs = [x for x in i.events if SETC(x)]
        ctx.ob("R22-syntax-error", q + ":contents", len(cs) == 2 and cs[0].a == cs[1].a, "a cell that does not parse does not keep its previous contents", it.fi.loc(i.node))
        ctx.ob("R22-syntax-error", q + ":result", not [x for x in i.events if assigns(x, r"last_check_\w+$|static_removed")], "a cell that does not parse loses its check result", it.fi.loc(i.node))
    ctx.ob("R22-syntax-error", q + ":others", not [i for i in its if i.kind in ("break", "return")], "a cell that does not parse keeps the others from being checked", it.fi.loc())
    # when is it needed: any content or counter changed, or forced
    for force in (True, False):
        for cont in (True, False):
            for ctr in (True, False):
                for known in (True, False):
                    o = O().when(r"^force$", force).when(r"from_id_nullable\(.*\) is None$", not known)
                    o.fn(lambda a, s: cont if a[0] == "cmp" and "current_content" in T(a) else None).fn(lambda a, s: ctr if a[0] == "cmp" and "cell_ctr" in T(a) else None)
                    it = ctx.run(q, o, INT, onlyraise=set())
                    did = [bool([x for x in e.trace if x.is_call("check_and_resolve_symbols")]) for e in it.ends if e.kind == "return"]
                    want = known and (force or not cont or not ctr)
                    ctx.ob("R23-when", f"force={force}:same-content={cont}:same-run={ctr}:known={known}", bool(did) and (any(did) if want else not any(did)), "changed cells are not checked, or unchanged ones are", it.fi.loc())
    it = ctx.run(q, K(O()).when(r"^force$", False), INT, onlyraise=set())
    for e in it.ends:
        if e.kind == "return":
            ctx.ob("R23-result", q, (e.value == TRUE) == any(x.is_call("check_and_resolve_symbols") for x in e.trace), "whether the analysis changed is reported wrongly", it.fi.loc(e.node))
    # the first pass looks at all cells until one differs
    o = O().when(r"^force$", False).when(r"from_id_nullable\(.*\) is None$", True)
    it = ctx.run(q, o, INT, onlyraise=set())
    ctx.ob("R23-when", "unknown-cell-skipped", not [i for i in it.iterations if i.kind in ("break", "return")], "a cell that is not tracked yet ends the search for changes", it.fi.loc())


def small(ctx):
    one = lambda q, **kw: ctx.run(CM + q, kw.pop("o", None), CALLS, onlyraise=set(), **kw)
    it = one("handle_change_active_cell")
    ctx.ob("R24-handlers", it.fi.qual, bool(it.ends) and all(e.kind == "return" and e.value == NONE and [T(x.b[0]) for x in e.trace if x.is_call("set_active_cell")] == ["request['active_cell_id']"] for e in it.ends),
           "the active cell is not taken over", it.fi.loc())
    it = ctx.run("NotebookFlow.set_active_cell", None, CALLS, onlyraise=set())
    ctx.ob("R24-handlers", it.fi.qual, bool(it.ends) and all(T(final_writes(e.trace).get("self.active_cell_id", (NONE,))[0]) == "cell_id" for e in it.ends), "the active cell is not taken over", it.fi.loc())
    it = one("handle_reactivity_cleanup")
    for e in it.ends:
        w = {k: T(v[0]) for k, v in final_writes(e.trace).items()}
        ctx.ob("R24-handlers", it.fi.qual + ":counters", w.get("self.flow.min_cascading_reactive_cell_num") == "self.flow.cell_counter()" and w.get("self.flow._min_new_ready_cell_counter") in (
            "(self.flow.cell_counter() + 1)", "(1 + self.flow.cell_counter())"), "a new round of reactive execution sees the changes of the last one", it.fi.loc())
        cl = {T(x.recv) for x in e.trace if x.is_call("clear")} | {k for k, v in w.items() if v in ("new_set", "set()")}
        ctx.ob("R24-handlers", it.fi.qual + ":updates", {"self.flow.updated_reactive_symbols", "self.flow.updated_deep_reactive_symbols"} <= cl, "reactive updates of the last round are kept", it.fi.loc())
    q = CM + "handle_refresh_symbols"
    for found in (True, False):
        it = ctx.run(q, O().when(r"resolve\(.*\) is None$", not found), CALLS, onlyraise=set())
        its = loops_over(it, r"request\.get\('symbols'")
        ok = bool(its) and all(i.kind == "next" and bool([x for x in i.events if x.is_call("refresh") and "resolve(elem(" in T(x.recv)]) is found for i in its)
        ctx.ob("R24-handlers", f"{q}:found={found}", ok, "requested symbols are not refreshed", it.fi.loc())
    q = CM + "handle_upsert_symbol"
    for inns in (True, False):
        for prev in (True, False):
            for same in (True, False):
                o = O().fn(lambda a, s: inns if a[0] == "cmp" and a[1] == "in" and "request['symbol']" in T(a[2]) else None)
                o.fn(lambda a, s: (not prev) if a[0] == "cmp" and a[1] == "is" and any(t.endswith("global_scope.get(request['symbol']) is None") for t in atexts(a)) else None)
                o.fn(lambda a, s: same if a[0] == "cmp" and a[1] == "is" and ".obj" in T(a) else None)
                it = ctx.run(q, o, lambda e: CALLS(e), onlyraise=set())
                ups = [[x for x in e.trace if x.is_call("upsert_symbol_for_name")] for e in it.ends]
                want = inns and not (prev and same)
                ctx.ob("R24-handlers", f"{q}:bound={inns}:tracked={prev}:same={same}", bool(ups) and all(len(u) == int(want) for u in ups) and all(
                    (e.value == NONE) if want else (dictof(e.value) or {}).get("success") == FALSE for e in it.ends), "a symbol is upserted (or not) without telling", it.fi.loc())
                for e, u in zip(it.ends, ups):
                    for x in u:
                        ctx.ob("R24-handlers", q + ":what", T(x.b[0]) == "request['symbol']" and "user_global_ns" in T(x.b[1]) and "global_scope" in T(x.recv), "the wrong symbol or value is upserted", it.fi.loc())
                        ctx.ob("R24-handlers", q + ":version", within(e.trace, x, r"Timestamp\.offset\((stmt_offset=)?-1\)"), "the upserted symbol gets a version of the next statement", it.fi.loc())
    it = ctx.run(q, None, lambda e: e.is_call("add") or e.kind == "collect", onlyraise=set())
    its = loops_over(it, r"request\.get\('deps'")
    ctx.ob("R24-handlers", q + ":deps", bool(its) and any(x for i in its for x in i.events) and not [i for i in its if i.kind in ("break", "return")], "dependencies of the upserted symbol are dropped", it.fi.loc())
    for q, keys in (("handle_get_code", {"symbol": r"request\['symbol'\]$", "code": r"global_scope\.get\(request\['symbol'\]\)\.code\("}),
                    ("handle_get_last_updated_cell_id", {"symbol": r"request\['symbol'\]$", "cell_id": r"at_timestamp\(.*global_scope\.get\(request\['symbol'\]\)\.timestamp\)\.(cell_)?id$"})):
        for found in (True, False):
            it = ctx.run(CM + q, O().when(r"global_scope\.get\(request\['symbol'\]\) is None$", not found), CALLS, onlyraise={"at_timestamp"} if found else set())
            rets = [e for e in it.ends if e.kind == "return"]
            ok = bool(rets)
            for e in rets:
                d = dictof(e.value) or {}
                if found and d.get("success") != FALSE:
                    ok = ok and all(k in d and re.search(r, T(d[k])) for k, r in keys.items()) and set(d) <= set(keys) | {"success"}
                else:
                    ok = ok and d.get("success") == FALSE
            if found:
                ok = ok and any((dictof(e.value) or {}).get("success") != FALSE for e in rets)
            ctx.ob("R24-handlers", f"{q}:found={found}", ok, "the answer about a symbol is wrong", it.fi.loc())
    it = one("handle_bump_timestamp")
    ctx.ob("R24-handlers", it.fi.qual, bool(it.ends) and all(any(x.kind == "setitem" and T(x.a) == "self.flow.tracked_timestamps" and T(x.b) == "request['timestamp']" and T(x.c) == "Timestamp.current()" for x in e.trace) for e in it.ends),
           "the version is not recorded under its name", it.fi.loc())


def cell_side(ctx):
    # new cells
    q = "NotebookFlow._create_untracked_cells_for_content"
    for known in (True, False):
        it = ctx.run(q, O().when(r"from_id_nullable\(.*\) is None$", not known).when(r"has_id\(", known), lambda e: e.is_call("create_and_track"), onlyraise=set())
        its = loops_over(it, r"content_by_cell_id")
        cr = lambda i: [x for x in i.events if x.is_call("create_and_track")]
        ctx.ob("R25-new-cells", f"known={known}", bool(its) and all(i.kind == "next" and len(cr(i)) == int(not known) for i in its), "a cell of the notebook is not tracked, or tracked twice", it.fi.loc())
        for i in its:
            for x in cr(i):
                ctx.ob("R25-new-cells", "what", T(x.b[0]) == "elem(content_by_cell_id)" and "content_by_cell_id[elem(" in T(arg(x, 1, "content")) and T(arg(x, 3, "bump_cell_counter")) == "False",
                       "a cell added by the front end counts as executed, or has other contents", it.fi.loc())
    # override refs
    q = "Cell.set_override_refs"
    for known in (True, False):
        it = ctx.run(q, O().when(r"from_id_nullable\(.*\) is None$", not known).when(r"has_id\(| in .*_current_cell_by_cell_id$", known), lambda e: e.kind == "assign", onlyraise=set())
        for kind in ("live", "dead"):
            its = loops_over(it, rf"override_{kind}_refs_by_cell_id")
            ok = bool(its)
            for i in its:
                xs = [x for x in i.events if assigns(x, rf"\.override_{kind}_refs$")]
                ok = ok and i.kind == "next" and len(xs) == int(known) and all(rf"override_{kind}_refs_by_cell_id[elem(" in T(x.b) and f"elem(override_{kind}_refs_by_cell_id)" in T(x.a) for x in xs)
            ctx.ob("R26-overrides", f"{kind}:known={known}", ok, "override references are set on the wrong cell or dropped", it.fi.loc())
    ctx.ob("R26-overrides", q + ":unknown", not [e for e in ctx.run(q, None, lambda e: False, onlyraise=set()).ends if e.kind == "raise"], "an unknown cell fails the request")
    q = "NotebookFlow._add_parents_for_override_live_refs"
    for found in (True, False):
        it = ctx.run(q, O().when(r"resolve\(.*\) is None$", not found), lambda e: e.is_call("add_data_dep") or e.kind in ("enter", "exit"), onlyraise=set())
        its = loops_over(it, r"override_live_refs")
        ctx.ob("R26-overrides", f"parents:found={found}", bool(its) and all(i.kind == "next" and any(x.is_call("add_data_dep") and (within(i.events, x, "static_slicing_context") or around(it, x, "static_slicing_context")) and T(x.b[0]).startswith(
            "Timestamp(self.cell_counter()") and T(x.b[1]).endswith(".timestamp") for x in i.events) is found for i in its), "overridden references are not linked to the current cell", it.fi.loc())
    # renaming
    q = "Cell.update_id"
    INT = lambda e: e.kind in ("assign", "setitem", "delitem", "collect", "iter") or e.is_call("pop", "update_id", "discard", "add", "remove", "from_id")
    it = ctx.run(q, O().when(r"^update_edges$", True), INT, onlyraise=set())
    for e in [e for e in it.ends if e.kind == "return"]:
        w = {k: T(v[0]) for k, v in final_writes(e.trace).items()}
        ctx.ob("R27-rename", "id", w.get("self.cell_id") == "new_id", "a cell keeps its placeholder id", it.fi.loc())
        ctx.ob("R27-rename", "placeholder", w.get("self._placeholder_id") == "False", "a renamed cell still counts as unnamed", it.fi.loc())
        for reg in ("_position_by_cell_id", "_current_cell_by_cell_id"):
            if any(not v and k[0] == "cmp" and k[1] == "in" and T(k[3]).endswith(reg) for k, v in e.facts.items()):
                continue
            pops = [x for x in e.trace if (x.is_call("pop") and T(x.recv).endswith(reg) and T(x.b[0]) in ("old_id", "self.cell_id")) or x.kind == "delitem" and T(x.a).endswith(reg)]
            ctx.ob("R27-rename", reg + ":old", bool(pops), "the old id stays registered", it.fi.loc())
    for has in (True, False):
        hist = ctx.run(q, O().when(r"^self\.prev_cell is None$", not has).when(r"^self\.prev_cell$", has), INT, onlyraise=set())
        prev = [[x for x in e.trace if x.is_call("update_id")] for e in hist.ends if e.kind == "return"]
        ctx.ob("R27-rename", f"history:{has}", bool(prev) and all(len(p) == int(has) and all(T(x.recv) == "self.prev_cell" and T(x.b[0]) == "new_id" and T(arg(x, 1, "update_edges")) == "False" for x in p) for p in prev),
               "earlier versions keep the old id", it.fi.loc())
    for reg in ("_position_by_cell_id", "_current_cell_by_cell_id"):
        here = ctx.run(q, O().when(r"^update_edges$", True).fn(lambda a, s: False if a[0] == "cmp" and a[1] == "is" and NONE in a[2:4] and any(re.search(rf"{reg}(\.pop\(|\.get\(|\[)", T(x)) for x in a[2:4]) else (
            True if a[0] == "cmp" and a[1] == "in" and T(a[3]).endswith(reg) else None)), INT, onlyraise=set())
        ctx.ob("R27-rename", reg + ":new", bool(here.ends) and all(any(x.kind == "setitem" and T(x.a).endswith(reg) and T(x.b) == "new_id" for x in e.trace) for e in here.ends if e.kind == "return"),
               "the new id is not registered", it.fi.loc())
    for tag, r in (("parents", r"raw_parents"), ("children", r"raw_children")):
        other = "children" if tag == "parents" else "parents"
        its = [i for i in loops_over(it, rf"^self\.{r}(\.keys\(\))?$")]
        ok = bool(its)
        for i in its:
            ws = [x for x in i.events if assigns(x, rf"\.raw_{other}$") and "from_id(elem(self.raw_" in T(x.a)]
            ok = ok and i.kind == "next" and bool(ws) and all("new_id" in T(x.b) for x in ws)
        ctx.ob("R27-rename", f"edges:{tag}", ok, "edges keep the old id at their other end", it.fi.loc())
    cx = loops_over(it, r"iter_slicing_contexts\(\)")
    ctx.ob("R27-rename", "edges:contexts", bool(cx) and all(i.kind == "next" for i in cx), "edges are renamed in one graph only", it.fi.loc())
    cols = [ev for ev in it.allevents.values() if ev.kind == "collect" and ev.b[0] == "tuple"]
    ctx.ob("R27-rename", "edges:value", any("new_id" in T(ev.b) for ev in cols) and all(renamed(ev) for ev in cols), "edges are renamed wrongly", it.fi.loc())
    it = ctx.run(q, O().when(r"^update_edges$", True).fn(lambda a, s: True if a[0] == "cmp" and a[1] == "in" and "elem(self._reactive_cells_by_tag" in T(a) else None), INT, onlyraise=set())
    its = loops_over(it, r"_reactive_cells_by_tag")
    ctx.ob("R27-rename", "tags", bool(its) and all(any(x.is_call("add") and T(x.b[0]) == "new_id" for x in i.events) and any(x.is_call("discard", "remove") for x in i.events) for i in its), "reactive tags keep the old id", it.fi.loc())
    # parents from an earlier session
    q = "NotebookFlow._initialize_cell_parents"
    it = ctx.run(q, O().when(r"^cell_parents is None$", False), lambda e: e.is_call("add_parent_edge") or e.kind in ("enter", "exit"), onlyraise={"from_id"})
    its = loops_over(it, r"^cell_parents")
    ctx.ob("R28-restored-edges", q, bool(its) and all(i.kind == "next" for i in its), "an unknown cell fails connecting", it.fi.loc())
    xs = [(e, x) for e in it.ends for x in e.trace if x.is_call("add_parent_edge")]
    ctx.ob("R28-restored-edges", q + ":edges", bool(xs) and all(re.search(r"from_id(_nullable)?\(elem\(cell_parents\)\)", T(x.recv)) and re.search(r"from_id(_nullable)?\(elem\(cell_parents\[", T(x.b[0])) and within(e.trace, x, "static_slicing_context") for e, x in xs),
           "edges of the saved notebook are not restored", it.fi.loc())
    it2 = ctx.run(q, O().when(r"^cell_parents is None$", False).when(r"from_id_nullable\(.*\) is None$", True), lambda e: e.is_call("add_parent_edge", "from_id_nullable"), onlyraise=set())
    ctx.ob("R28-restored-edges", q + ":unknown", not any(x.is_call("add_parent_edge") and any(y.is_call("from_id_nullable") for y in e.trace) for e in it2.ends for x in e.trace), "an unknown cell fails connecting", it.fi.loc())
    inner = [i for i in it.iterations if "cell_parents[" in T(i.iter)]
    ctx.ob("R28-restored-edges", q + ":each", bool(inner) and not [i for i in inner if i.kind in ("break", "return")], "an unknown parent drops the others", it.fi.loc())


def around(it, x, name):
    """on all paths, x happens within the context"""
    es = [e for e in it.ends if x in e.trace]
    return bool(es) and all(within(e.trace, x, name) for e in es)


def renamed(ev):
    """an edge gets the new id exactly when it had the old one"""
    k = ev.b[1][0] if ev.b[0] == "tuple" else ev.b
    eq = [v for f, v in ev.facts.items() if "self.cell_id" in T(f) and " == " in T(f) and "elem(" in T(f)]
    if T(k) == "new_id":
        return False not in eq
    return re.search(r"new_id if \(?.*self\.cell_id.* == .*else|new_id if \(?.* == .*self\.cell_id.*else", T(k)) is not None or False in eq


def positions(ctx):
    q = "Cell.set_cell_positions"
    INT = lambda e: e.kind in ("assign", "setitem", "delitem", "collect", "iter", "aug") or e.is_call("clear", "setdefault", "update", "pop")
    P = "order_index_by_cell_id"
    for order in ("IN_ORDER", "ANY_ORDER"):
        for iface in ("JUPYTERLAB", "IPYTHON"):
            o = O().enum(FLOW_ORDER, order).enum(r"\.interface$", iface)
            it = ctx.run(q, o, INT, onlyraise=set())
            rets = [e for e in it.ends if e.kind == "return"]
            lab = f"{order}:{iface}"
            fw = lambda e: {k: v[0] for k, v in final_writes(e.trace).items()}
            ctx.ob("R29-positions", lab, bool(rets) and all(re.search(r"_position_by_cell_id$", k) for e in rets for k in fw(e)) is not None and all(
                any(k.endswith("._position_by_cell_id") and T(v) in (P, f"dict({P})", f"{P}.copy()") or k.endswith("._position_by_cell_id") and v[0] in ("dict", "new") for k, v in fw(e).items()) for e in rets),
                "the positions sent are not the ones in force", it.fi.loc())
            inv = [any(k.endswith("._cell_id_by_position") for k in fw(e)) or any((x.kind == "setitem" and T(x.a).endswith("_cell_id_by_position")) or (x.is_call("clear", "update") and T(x.recv).endswith("_cell_id_by_position")) for x in e.trace) for e in rets]
            want = order == "IN_ORDER" and iface != "IPYTHON"
            ctx.ob("R29-positions", lab + ":inverse", bool(inv) and all(v is want for v in inv), "the order of the notebook is not known by position", it.fi.loc())
            muts = [x for e in rets for x in e.trace if (x.kind in ("setitem", "delitem") and T(x.a) == P) or (x.is_call("setdefault", "update", "pop", "clear") and T(x.recv) == P)]
            ctx.ob("R29-positions", lab + ":caller", not muts, "the caller's positions are changed", it.fi.loc())
    o = in_order(O()).enum(r"\.interface$", "JUPYTERLAB")
    it = ctx.run(q, o, INT, onlyraise=set())
    cols = [ev for ev in it.allevents.values() if (ev.kind == "collect" and "elem(" in T(ev.b) + T(ev.c)) or (ev.kind == "setitem" and T(ev.a).endswith("_cell_id_by_position"))]
    ok = bool(cols)
    for ev in cols:
        if ev.kind == "setitem":
            k, v = ev.b, ev.c
        else:
            if ev.b[0] != "tuple":
                continue
            k, v = ev.b[1][:2]
        ok = ok and "[" in T(k) and f"elem(" in T(v) and T(k).endswith("]") and "[" not in T(v)
    ctx.ob("R29-positions", "inverse:entries", ok, "cells are registered under other positions", it.fi.loc())
    gone = ctx.run(q, O().enum(FLOW_ORDER, "IN_ORDER").enum(r"\.interface$", "JUPYTERLAB").fn(lambda a, s: True if a[0] == "cmp" and a[1] == "==" and "float('inf')" in T(a) else None)
                   .fn(lambda a, s: True if a[0] == "call" and T(a).startswith(("math.isinf(", "isinf(")) else None), INT, onlyraise=set())
    bad = [ev for ev in gone.allevents.values() if (ev.kind == "collect" and ev.b[0] == "tuple" and "elem(" in T(ev.b[1][1]) and "[" in T(ev.b[1][0])) or (ev.kind == "setitem" and T(ev.a).endswith("_cell_id_by_position"))]
    ctx.ob("R29-positions", "inverse:removed", not bad, "a removed cell counts as a cell of the notebook", it.fi.loc())
    over = [ev for ev in it.allevents.values() if ev.kind == "setitem" and "elem(" in T(ev.b) and "_position_by_cell_id" in T(ev.b)]
    ctx.ob("R29-positions", "kept", all(any((not v) and " in " in T(f) for f, v in ev.facts.items()) for ev in over), "positions sent are overwritten", it.fi.loc())
    its = loops_over(it, r"_position_by_cell_id$")
    ctx.ob("R29-positions", "removed-cells", bool(its) and any(x.is_call("setdefault") or x.kind == "setitem" for i in its for x in i.events), "cells that are not in the notebook any more keep their position", it.fi.loc())
    q = "Cell.iterate_over_notebook_in_position_order"
    it = ctx.run(q, None, lambda e: e.kind in ("yield", "iter"), onlyraise=set())
    ys = [x for e in it.ends for x in e.trace if x.kind == "yield"]
    its = [i for i in it.iterations if "_cell_id_by_position" in T(i.iter)]
    ctx.ob("R30-in-order", q, bool(ys) and bool(its) and all("sorted(" in T(i.iter) and i.kind == "next" for i in its), "cells are not visited in the order of the notebook", it.fi.loc())
    it = ctx.run(q, O().when(r"\bis None$", True), lambda e: e.kind == "yield", onlyraise=set())
    ctx.ob("R30-in-order", q + ":unknown", not [x for e in it.ends for x in e.trace if x.kind == "yield"], "an unknown cell fails the request", it.fi.loc())


def unasked(ctx):
    """answers without a request: after an update made outside of a cell, and around debugging"""
    q = "_debounced_exec_schedule"
    q = next(f.key for f in ctx.ix.funcs.values() if f.qual == q)
    for dag in (True, False):
        o = sched(O(), "DAG_BASED" if dag else "LIVENESS_BASED")
        it = ctx.run(q, o, CALLS, onlyraise={"handle"})
        hs = [(e, x) for e in it.ends for x in e.trace if x.is_call("handle")]
        ok = bool(hs)
        for e, x in hs:
            d = dictof(x.b[0]) or {}
            ok = ok and {k: T(v) for k, v in d.items()} == {"type": "'compute_exec_schedule'", "executed_cell_id": "executed_cell_id", "is_reactively_executing": "reactive", "allow_new_ready": "reactive"}
            i = e.trace.index(x)
            ok = ok and any(y.is_call("get_and_set_exception_raised_during_execution") and T(y.b[0]) == "None" for y in e.trace[:i])
            pre = [y for y in e.trace[:i] if assigns(y, SCHED)]
            ok = ok and ((T(pre[-1].b) if pre else None) == ("ExecutionSchedule.HYBRID_DAG_LIVENESS_BASED" if dag else None))
        ctx.ob("R31-unasked", f"update:dag={dag}", ok and len(hs) == len(it.ends), "an update made outside of a cell is not announced correctly", it.fi.loc())
        ctx.ob("R31-unasked", f"update:dag={dag}:cleanup", {e.kind for e in it.ends} >= {"return", "raise"} and all(any(assigns(y, r"debounced_exec_schedule_pending$") and T(y.b) == "False" for y in e.trace) and (
            not [y for y in e.trace if assigns(y, SCHED)] or is_entry(final_writes(e.trace)[T([y for y in e.trace if assigns(y, SCHED)][-1].a)][0], T([y for y in e.trace if assigns(y, SCHED)][-1].a))) for e in it.ends),
            "requests are ignored forever after a failed announcement, or the schedule stays changed", it.fi.loc())
    q = "Symbol.debounced_exec_schedule"
    for ran in (True, False):
        it = ctx.run(q, O().fn(lambda a, s: ran if a[0] == "truth" and "_debounced_exec_schedule(" in T(a[1]) else None), CALLS, onlyraise=set())
        ctx.ob("R31-unasked", f"{q}:scheduled={ran}", bool(it.ends) and all(any(assigns(x, r"debounced_exec_schedule_pending$") and T(x.b) == "True" for x in e.trace) is ran for e in it.ends),
               "redundant requests are not skipped while an announcement is pending, or skipped without one", it.fi.loc())
        cs = [x for e in it.ends for x in e.trace if x.is_call("_debounced_exec_schedule") or T(x.a) == "_debounced_exec_schedule"]
        ctx.ob("R31-unasked", f"{q}:which", bool(cs) and all(re.search(r"at_timestamp\(self\.timestamp\)\.(cell_)?id$", T(x.b[0])) and T(arg(x, 1, "reactive")) == "reactive" for x in cs), "another cell is announced as executed", it.fi.loc())
    q = "IPyflowKernel.do_debug_request"
    for cmd in ("attach", "disconnect", "other"):
        o = O().fn(lambda a, s: (f"'{cmd}'" in T(a)) if a[0] == "cmp" and "'command'" in T(a) else None)
        it = ctx.run(q, o, CALLS, onlyraise=set())
        for e in [e for e in it.ends if e.kind == "return"]:
            hs = [i for i, x in enumerate(e.trace) if x.is_call("handle")]
            st = [(i, T(x.b)) for i, x in enumerate(e.trace) if assigns(x, r"dataflow_enabled$")]
            if cmd == "other":
                ok = not hs and not st
            elif cmd == "attach":
                ok = len(hs) == 1 and [v for _, v in st] == ["False"] and hs[0] < st[0][0]
                d = dictof(e.trace[hs[0]].b[0]) if hs else {}
                ok = ok and d.get("type") == const("compute_exec_schedule") and T(d.get("cell_metadata_by_id")) == "{}" and d.get("notify_content_changed") == FALSE
            else:
                ok = len(hs) == 1 and [v for _, v in st] == ["True"] and hs[0] > st[0][0] and (dictof(e.trace[hs[0]].b[0]) or {}).get("type") == const("compute_exec_schedule")
            ctx.ob("R32-debugger", cmd, ok and any(x.is_call("do_debug_request") for x in e.trace) and "do_debug_request" in T(e.value), "a debugger does not switch the analysis off and on again with an announcement", it.fi.loc(e.node))
    q = "NotebookFlow.check_and_link_multiple_cells"
    for reg in (True, False):
        for ini in (True, False):
            for clear in (True, False):
                o = O().when(r"registered_tracers$", reg).when(r"DataflowTracer\.initialized\(\)$", ini).when(r"^clear_updated_reactive_symbols$", clear)
                it = ctx.run(q, o, CALLS, onlyraise={"compute_frontend_checker_result"}, opaque={"compute_frontend_checker_result", "empty"})
                cs = [[x for x in e.trace if x.is_call("compute_frontend_checker_result")] for e in it.ends]
                ok = bool(it.ends) and all(len(c) == int(reg and ini) for c in cs)
                for e, c in zip(it.ends, cs):
                    for x in c:
                        ok = ok and {k: T(arg(x, i, k)) for i, k in enumerate(("cells_to_check", "update_liveness_time_versions", "last_executed_cell_id"))} == {
                            k: k for k in ("cells_to_check", "update_liveness_time_versions", "last_executed_cell_id")} and (e.kind != "return" or "compute_frontend_checker_result" in T(e.value))
                    cl = {T(x.recv) for x in e.trace if x.is_call("clear")}
                    ok = ok and ({"self.updated_reactive_symbols_last_cell", "self.updated_deep_reactive_symbols_last_cell"} <= cl) is clear and (e.kind != "return" or e.value != NONE)
                emp = [x for e in it.ends for x in e.trace if x.is_call("empty")]
                ok = ok and bool(emp) and all(T(arg(x, 0, "allow_new_ready")) == "allow_new_ready" for x in emp)
                ctx.ob("R33-check", f"tracing={reg},{ini}:clear={clear}", ok, "the cells are not checked exactly as asked", it.fi.loc())


def check(ctx):
    dispatch(ctx)
    registry(ctx)
    target(ctx)
    compute(ctx)
    notify(ctx)
    recompute(ctx)
    small(ctx)
    cell_side(ctx)
    positions(ctx)
    unasked(ctx)
