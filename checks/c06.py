from .common import *

TITLE = "Tracking fails open"
PROP = dict(
    title="Tracking never prevents, repeats or alters the execution of a cell",
    statement="Every cell submitted to the session is executed exactly once, with its own (IPython-transformed) text, and the result handed back "
              "is the one of that execution, even if the analysis that surrounds it fails. Silent and empty requests never touch the dataflow state, "
              "and with dataflow disabled a cell runs without tracing, memoization, checks or output capture. Errors inside tracing handlers, the "
              "per-cell check or source transformation never surface as errors of the user's program (except in development mode).",
    over=["programs", "faults", "configurations"],
    qtext="every cell text, every internal failure point, every setting of the dataflow switches",
    why_tests_cant="Tests do not make the analysis fail at every point; a lost result or a doubled execution shows up only then.",
    files=["core/ipyflow/shell/interactiveshell.py", "core/ipyflow/tracing/ipyflow_tracer.py", "core/ipyflow/frontend.py",
           "core/ipyflow/line_magics.py", "core/ipyflow/kernel/kernel.py"],
    mechanism=[("running a cell", "shell/interactiveshell.py"), ("per-cell check", "frontend.py"), ("handler failures", "tracing/ipyflow_tracer.py"),
               ("switching dataflow", "line_magics.py, kernel/kernel.py")],
    observe=["execution results", "user namespace"],
)
TECHNIQUE = "path-sensitive abstract interpretation with explicit exception edges at each internal step"
LEVEL_NOTE = "Exceptions are injected at every named internal call on every path; failures inside IPython itself are outside the claim."

S = "IPyflowInteractiveShell"
RUN = lambda e: e.kind == "call" and re.search(r"(^|\W)super\(.*\)\.run_cell_async$|^InteractiveShell\.run_cell_async$", T(e.a)) is not None
ENABLED = r"\.dataflow_enabled$"
NEW = r"self\.before_run_cell\(.*\)"
TRACING = r"_tracing_context\("


def check(ctx):
    ix = ctx.ix
    q = f"{S}._ipyflow_run_cell"
    OPQ = dict(opaque={"before_run_cell", "after_run_cell", "_tracing_context", "on_exception", "transform_cell", "run_cell_async"})
    INT = lambda e: RUN(e) or e.is_call("before_run_cell", "after_run_cell", "on_exception", "transform_cell") or e.kind in ("enter", "exit") or \
        (e.kind == "setitem" and "kwargs" in T(e.a)) or assigns(e, r"_should_capture_output$")
    INTERNAL = ["transform_cell", "after_run_cell", "current_cell", "upsert_symbol_for_name", "_tracing_context"]
    RAISES = sorted({n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id for n in ast.walk(ctx.F(q).node)
                     if isinstance(n, ast.Call) and isinstance(n.func, (ast.Attribute, ast.Name))} - {"before_run_cell"} | set(INTERNAL))
    RAN = r"^(None is .*run_cell_async\(.*\)|.*run_cell_async\(.*\) is None)$"
    for nm in [None] + [x for x in RAISES if x != "on_exception"]:
        it = ctx.run(q, O().when(RAN, False), INT, onlyraise={nm} if nm else set(), **OPQ)
        lab = f"{q}:failing {nm}" if nm else q
        done = [e for e in it.ends if e.kind == "return"]
        after = [e for e in it.ends if any(RUN(x) for x in e.trace)]
        if nm not in (None, "run_cell_async"):
            bad = next((e for e in it.ends if e.kind == "raise" and any(RUN(x) for x in e.trace)), None)
            ctx.ob("R1-result-survives", lab, bad is None, "a failure after the cell ran loses its result", it.fi.loc(bad.node) if bad else "")
        if nm == "transform_cell":
            bad = next((e for e in it.ends if e.kind == "raise"), None)
            ctx.ob("R1-transform-failure-ignored", lab, bad is None and bool(done), "a failing source transformation prevents the cell from running",
                   it.fi.loc(bad.node) if bad else "")
        ctx.ob("R2-executed-once", lab, (bool(after) or nm == "run_cell_async") and all(sum(RUN(x) for x in e.trace) == 1 for e in after) and
               all(any(RUN(x) for x in e.trace) for e in done), "the cell is executed more than once or not at all", it.fi.loc())
        every(ctx, "R2-its-result-returned", lab, done, lambda e: e.value[0] == "call" and re.search(r"super\(.*\)\.run_cell_async$|^InteractiveShell\.run_cell_async$", T(
            e.value[1])) is not None, "something other than the result of the execution is returned", lambda e: it.fi.loc(e.node)) if nm != "run_cell_async" else None
        if nm is None:
            every(ctx, "R2-outcome-recorded", lab, done, lambda e: [x for x in e.trace if x.is_call("on_exception")] != [] and all(
                T(x.b[0]) == "None" for x in e.trace if x.is_call("on_exception")), "a successful run is recorded as failed")
    it = ctx.run(q, None, INT, onlyraise={"after_run_cell"}, **OPQ)
    every(ctx, "R2-outcome-recorded", q + ":failure", [e for e in it.ends if any(x.kind == "call" for x in e.trace) and not any(
        x.is_call("on_exception") and T(x.b[0]) == "None" for x in e.trace)], lambda e: any(x.is_call("on_exception") for x in e.trace),
        "an internal failure is not recorded")
    # the text that is executed
    NONE_ = rf"^(None is {NEW}|{NEW} is None)$"
    for n, o, text in (("unchanged", O().when(NONE_, True), "raw_cell"), ("replaced", O().when(NONE_, False), None)):
        it = ctx.run(q, o, INT, onlyraise={"transform_cell"}, **OPQ)
        X = r"raw_cell" if text else NEW

        def good(e):
            for x in e.trace:
                if RUN(x):
                    a = T(x.b[0]) if x.b else next((T(v) for k, v in x.c if k == "raw_cell"), "")
                    form = rf"(self\.transform_cell\({X}\)|{X})"
                    if re.fullmatch(form, a):
                        return True
                    sets = [y for y in e.trace if y.kind == "setitem" and "transformed_cell" in T(y.b)] + [
                        y for y in e.trace if False]
                    kw = [T(v) for k, v in x.c if k == "transformed_cell"] + [T(y.c) for y in sets]
                    return re.fullmatch(r".*\.raw_cell", a) is not None and bool(kw) and re.fullmatch(form, kw[-1]) is not None
            return True
        every(ctx, "R3-own-text-executed", f"{q}:{n}", [e for e in it.ends if any(RUN(x) for x in e.trace)], good,
              "the executed text is not the cell's (or its replacement)", lambda e: it.fi.loc(e.node))
    # dataflow disabled
    it = ctx.run(q, O().when(ENABLED, False), INT, onlyraise=set(), **OPQ)
    ctx.ob("R4-disabled-untraced", q, bool(it.ends) and not any(x.kind == "enter" and re.search(TRACING, T(x.a)) for x in it.allevents.values()),
           "the cell is traced although dataflow is off", it.fi.loc())
    ctx.ob("R4-disabled-untraced", q + ":after", not any(x.is_call("after_run_cell") for x in it.allevents.values()),
           "post-run analysis although dataflow is off", it.fi.loc())
    CAP = r"startswith\('%%capture'\)"
    for n, vals in (("dataflow off", {ENABLED: False}), ("%%capture", {CAP: True})):
        o = O()
        for k, v in vals.items():
            o.when(k, v)
        it = ctx.run(q, o, INT, onlyraise=set(), **OPQ)
        every(ctx, "R4-no-capture", f"{q}:{n}", [x for e in it.ends for x in e.trace if assigns(x, r"_should_capture_output$")],
              lambda x: bval(x.b, vals) is False, "output is recorded although it must not be", lambda x: x.loc())
    it = ctx.run(q, O().when(ENABLED, True), INT, onlyraise=set(), **OPQ)
    every(ctx, "R4-enabled-traced", q, [e for e in it.ends if any(RUN(x) for x in e.trace)], lambda e: all(
        within(e.trace, x, TRACING) for x in e.trace if RUN(x)), "the cell is not traced although dataflow is on")
    # silent / empty requests
    q = f"{S}.run_cell_async"
    OP2 = dict(opaque={"_ipyflow_run_cell", "_is_code_empty", "_maybe_eject"})
    TRACK = lambda e: e.is_call("_ipyflow_run_cell", "before_run_cell", "create_and_track")
    EMPTY = r"_is_code_empty\("
    for n, o in (("silent", O().when(r"^silent$", True)), ("empty", O().when(r"^silent$", False).when(EMPTY, True))):
        it = ctx.run(q, o, lambda e: TRACK(e) or RUN(e), **OP2)
        ctx.ob("R5-silent-untracked", f"{q}:{n}", not any(TRACK(x) for x in it.allevents.values()), "a silent or empty request is tracked", it.fi.loc())
        every(ctx, "R5-silent-runs", f"{q}:{n}", [e for e in it.ends if e.kind == "return"], lambda e: sum(RUN(x) for x in e.trace) == 1 and all(
            T(x.b[0]) == "raw_cell" and {k: T(v) for k, v in x.c}.get("silent") == ("silent" if n == "empty" or True else "") for x in e.trace if RUN(x)) and
            T(e.value).find("run_cell_async") >= 0, "the request is not run as is exactly once")
    it = ctx.run(q, O().when(r"^silent$", False).when(EMPTY, False), lambda e: TRACK(e) or RUN(e), **OP2)
    every(ctx, "R5-others-tracked", q, [e for e in it.ends if e.kind == "return"], lambda e: sum(x.is_call("_ipyflow_run_cell") for x in e.trace) == 1 and
          not any(RUN(x) for x in e.trace) and all(T(x.b[0]) == "raw_cell" for x in e.trace) and "_ipyflow_run_cell" in T(e.value), "a cell is not tracked, or run twice")
    for fn in (f"{S}.run_cell_async", f"{S}._ipyflow_run_cell", f"{S}.run_cell"):
        it = ctx.run(fn, None, lambda e: RUN(e) or e.is_call("_ipyflow_run_cell", "run_cell"), **OP2)
        for opt in ("store_history", "shell_futures"):
            every(ctx, "R5-options-forwarded", f"{fn}:{opt}", [x for x in it.allevents.values() if x.kind == "call"], lambda x: any(
                k == opt and T(v) == opt for k, v in x.c) or any(T(b) == opt for b in x.b), f"{opt} is not forwarded", lambda x: x.loc())
    it = ctx.run(f"{S}._is_code_empty", None, lambda e: False)
    ctx.ob("R5-empty-means-empty", f"{S}._is_code_empty", bool(it.ends) and all(emptiness(e.value) for e in it.ends if e.kind == "return"),
           "something other than blank text counts as empty", it.fi.loc())
    # after every request capture is off
    q = f"{S}.run_cell"
    # (the hook is looked up dynamically because the shell class may be swapped during the run)
    it = ctx.run(q, None, lambda e: e.kind == "call", onlyraise={"run_cell"}, opaque={"run_cell"})
    for n, p in (("capture finished", lambda x: x.is_call("done_capturing_output")), ("switch reset", lambda x: "_reset_should_capture_output" in T(x.a))):
        every(ctx, "R6-capture-ends", f"{q}:{n}", it.ends, lambda e: any(p(x) for x in e.trace), "output capture stays on after the request", lambda e: it.fi.loc(e.node))
    it = ctx.run(f"{S}._reset_should_capture_output", None, lambda e: e.kind == "assign")
    every(ctx, "R6-capture-ends", f"{S}._reset_should_capture_output", it.ends, lambda e: any(assigns(x, r"_should_capture_output$") and T(x.b) == "False" for x in e.trace),
          "the switch is not reset")
    # before_run_cell
    q = f"{S}.before_run_cell"
    PRE = lambda e: e.is_call("_get_content_for_memoized_run", "_safety_precheck_cell", "create_and_track")
    OP3 = dict(opaque={"_get_content_for_memoized_run", "_safety_precheck_cell", "get_memoized_content_and_output_level"})
    it = ctx.run(q, O().when(ENABLED, False), PRE, **OP3)
    ctx.ob("R7-disabled-unchecked", q, bool(it.ends) and not any(x.is_call("_get_content_for_memoized_run", "_safety_precheck_cell") for x in it.allevents.values()),
           "memoization or checks although dataflow is off", it.fi.loc())
    every(ctx, "R7-disabled-own-text", q, [e for e in it.ends if e.kind == "return"], lambda e: T(e.value) in ("None", "cell_content"), "the text is replaced although "
          "dataflow is off", lambda e: it.fi.loc(e.node))
    it = ctx.run(q, O().when(ENABLED, True), PRE, onlyraise={"_safety_precheck_cell"}, **OP3)
    bad = next((e for e in it.ends if e.kind == "raise"), None)
    ctx.ob("R7-check-failure-ignored", q, bad is None and bool(it.ends), "a failing check prevents the cell from running", it.fi.loc(bad.node) if bad else "")
    MEMO = r"^(None is self\._get_content_for_memoized_run\(.*\)|self\._get_content_for_memoized_run\(.*\) is None)$"
    OWN = r"cell_content|Cell\.get_memoized_content_and_output_level\(cell_content\)\[0\]"
    for n, o in (("warnings off", O().when(r"warn_out_of_order_usages$", False)), ("in order", O().when(r"(None is .*out_of_order_usage_detected_counter|"
                 r"out_of_order_usage_detected_counter is None)$", True)),
                 ("rerun", O().fn(lambda a, s: a[0] == "cmp" and a[1] == "==" and a[2][0] == "tuple" and a[3][0] == "tuple" or None, "same cell and content"))):
        it = ctx.run(q, o.when(ENABLED, True).when(MEMO, True).when(r" in self\.registered_tracers$", True), PRE, onlyraise=set(), **OP3)
        every(ctx, "R7-own-text", f"{q}:{n}", [e for e in it.ends if e.kind == "return"], lambda e: re.fullmatch(OWN, T(e.value)) is not None,
              "the cell's text is replaced", lambda e: it.fi.loc(e.node))
        every(ctx, "R7-checked", f"{q}:{n}", [e for e in it.ends if e.kind == "return"], lambda e: any(
            x.is_call("_safety_precheck_cell") for x in e.trace), "the check before the run is skipped")
    HDR = r"get_memoized_content_and_output_level\(cell_content\)\[0\]"
    for n, v, text in (("with header", False, HDR), ("no header", True, r"^cell_content$")):
        it = ctx.run(q, O().when(rf"{HDR} is None$|^None is .*{HDR}$", v).when(r"warn_out_of_order_usages$", False).when(ENABLED, True).when(MEMO, True),
                     PRE, onlyraise=set(), **OP3)
        every(ctx, "R7-own-text", f"{q}:{n}", [e for e in it.ends if e.kind == "return"], lambda e: re.search(text, T(e.value)) is not None,
              "the memoization header is executed, or a cell without one replaced", lambda e: it.fi.loc(e.node))
    it = ctx.run(q, O().when(ENABLED, True).when(MEMO, False), PRE, **OP3)
    every(ctx, "R7-memoized", q, [e for e in it.ends if e.kind == "return"], lambda e: T(e.value).startswith("self._get_content_for_memoized_run("),
          "a memoized result is found but not used")
    it = ctx.run(q, None, PRE, **OP3)
    every(ctx, "R7-registered-once", q, [e for e in it.ends if e.kind == "return"], lambda e: sum(x.is_call("create_and_track") for x in e.trace) == 1,
          "a run cell is not registered exactly once")
    # per-cell check used for the frontend
    q = "FrontendCheckerResult._check_one_cell"
    it = ctx.run(q, None, lambda e: e.is_call("check_and_resolve_symbols"), onlyraise={"check_and_resolve_symbols"}, opaque={"check_and_resolve_symbols"})
    bad = next((e for e in it.ends if e.kind == "raise"), None)
    ctx.ob("R8-cell-check-failure-ignored", q, bad is None and any(x.is_call("check_and_resolve_symbols") for x in it.allevents.values()),
           "a cell whose analysis fails (say, a syntax error) fails the whole request", it.fi.loc(bad.node) if bad else "")
    # handlers
    ov = [f for f in ix.funcs.values() if f.name == "should_propagate_handler_exception"]
    for f in ov:
        it = ctx.run(f, None, lambda e: False)
        vals = {r"is_dev_mode$": False}
        every(ctx, "R9-handler-errors-contained", f.qual, [e for e in it.ends if e.kind == "return"], lambda e: T(e.value) == "None" or bval(e.value, vals) is False or any(
            "is_dev_mode" in " ".join(atexts(k)) and v for k, v in getattr(e, "facts", {}).items()), "errors in tracing handlers reach the user's program")
    ctx.nonvacuous("R9-handler-errors-contained", len(ov))
    # switches
    q = "toggle_dataflow"
    for w, val in (("enable", "True"), ("on", "True"), ("disable", "False"), ("off", "False")):
        it = ctx.run(q, word(w), lambda e: e.kind == "assign")
        every(ctx, "R10-switch", f"{q}:{w}", [e for e in it.ends if e.kind == "return"], lambda e: [T(x.b) for x in e.trace if assigns(x, ENABLED)][-1:] == [val],
              f"'{w}' does not switch dataflow")
    it = ctx.run(q, word("zzz"), lambda e: e.kind == "assign")
    ctx.ob("R10-switch", q + ":other", not any(assigns(x, ENABLED) for x in it.allevents.values()), "an invalid argument switches dataflow", it.fi.loc())
    q = "IPyflowKernel.do_debug_request"
    CMD = r"msg(\.get\('command'.*\)|\['command'\])"
    for w, val in (("attach", ["False"]), ("disconnect", ["True"]), ("zzz", [])):
        it = ctx.run(q, word(w, CMD), lambda e: e.kind == "assign")
        every(ctx, "R10-debugger-switch", f"{q}:{w}", [e for e in it.ends if e.kind == "return"], lambda e: [T(x.b) for x in e.trace if assigns(x, ENABLED)] == val,
              "attaching or detaching the debugger does not switch dataflow off or on")
        every(ctx, "R10-debugger-forwarded", f"{q}:{w}", [e for e in it.ends if e.kind == "return"], lambda e: "do_debug_request(msg)" in T(e.value),
              "the debug request itself is not forwarded")


def word(w, term=r"line(\.strip\(\))?"):
    """the string ``term`` equals w"""
    r = re.compile(term)

    def f(a, s):
        if a[0] != "cmp":
            return None
        if a[1] == "==":
            for x, y in ((a[2], a[3]), (a[3], a[2])):
                if r.fullmatch(T(x)) and is_const(y):
                    return y[2] == w
        if a[1] == "in" and r.fullmatch(T(a[2])) and a[3][0] in ("tuple", "list", "set"):
            return any(is_const(y) and y[2] == w for y in a[3][1])
        return None
    return Oracle().fn(f, f"{term} = {w}")


def emptiness(v):
    t = T(v)
    return re.fullmatch(r"(\(not )?(.*transform_cell\(code\)(\.strip\(\))? == ''|'' == .*transform_cell\(code\)(\.strip\(\))?|.*transform_cell\(code\)\.(strip|isspace)\(\))\)?", t) is not None and (
        ".strip()" in t) and not t.startswith("(not self.transform_cell(code) ==")
