"""C16: commands and options change exactly the setting they name."""
import itertools

from .common import *
from .c19 import CALL, IS, arg, ends, kw, returns

TITLE = "Commands and options"
PROP = dict(
    title="Commands and options change exactly the setting they name, to a valid value",
    statement="Every command reaches the action it is documented for, with the rest of the line as its argument (%%capture: its variable, whatever options there are); it changes exactly the setting that it names, to the value given, and unknown commands, invalid values and cells that were not run are reported and change nothing. "
              "What a command returns is printed, or written to the file given after '>' and nowhere else. Switching to reactive execution forgets what was ready before, and the front end is told; tags are added and removed for the given cell both at the cell and where it is looked up by tag. "
              "Every option of a session is taken under its own name from what the caller asks for, else from the user's configuration, else from its default; when a front end connects, from the configuration first, then from the front end, once per kind of front end.",
    over=["programs", "inputs"],
    qtext="every command, argument, option and configuration",
    why_tests_cant="There are dozens of commands, spellings, options and sources of options; tests try a few of them in one configuration.",
    files=["core/ipyflow/line_magics.py", "core/ipyflow/flow.py", "core/ipyflow/config.py", "core/ipyflow/shell/interactiveshell.py"],
    mechanism=[("commands", "line_magics.py"), ("options", "flow.py __init__, initialize"), ("values", "config.py")],
    observe=["settings", "answers of %flow"],
)
TECHNIQUE = "path-sensitive abstract interpretation of the command dispatch and of every command, with the guards on the text of the line decided per documented spelling, and of where each option's value comes from"
LEVEL_NOTE = "Spellings are the documented ones plus unknown and invalid ones; what a changed setting then does is the subject of the other properties."
SETTINGS = r"(flow_|flow\(\)|self)\.mut_settings"


def deciding(**texts):
    """an oracle that decides the guards about the given names as for these texts: only methods of strings and comparisons with constants are looked at"""
    o = O()
    names = "|".join(map(re.escape, texts))

    def f(a, s):
        t = T(a)
        if a[0] == "truth":
            m = re.fullmatch(r"truth\((.*)\)", t)
            t = m.group(1) if m else t
        if not re.search(rf"\b({names})\b", t):
            return None
        try:
            n = ast.parse(t, mode="eval")
        except SyntaxError:
            return None
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and x.id not in texts and x.id not in ("len", "str", "tuple", "set", "bool"):
                return None
            if isinstance(x, ast.Attribute) and x.attr not in ("lower", "upper", "strip", "startswith", "endswith", "replace", "split", "rstrip", "lstrip", "casefold", "removeprefix", "removesuffix"):
                return None
            if isinstance(x, (ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.Await, ast.Yield)):
                return None
        try:
            return bool(eval(compile(n, "guard", "eval"), {"__builtins__": {}, "len": len, "str": str, "tuple": tuple, "set": set, "bool": bool}, dict(texts)))
        except Exception:
            return None

    return o.fn(f)


def settings_set(e):
    """{setting: value} changed on the path"""
    out = {}
    for x in e.trace:
        if x.kind in ("assign", "aug_assign", "aug"):
            m = re.search(r"\.?mut_settings\.(\w+)$", T(x.a))
            if m:
                out[m.group(1)] = T(x.b)
            elif T(x.a).endswith(".trace_messages_enabled"):
                out["trace_messages_enabled"] = T(x.b)
    return out


def warns(e):
    return [x for x in e.trace if x.is_call("warn")]


COMMANDS = {
    ("enable", "disable", "on", "off"): ("toggle_dataflow", "cmd"), ("deps", "show_deps", "show_dependencies", "show-deps"): ("show_deps", "line"), ("code", "get_code", "get-code"): ("get_code", "line"),
    ("waiting", "show_waiting"): ("show_waiting", "line"), ("trace_messages",): ("trace_messages", "line"), ("hls", "nohls", "highlights"): ("set_highlights", "cmd, line"), ("slice", "make_slice", "gather_slice"): ("make_slice", "line"),
    ("tag",): ("tag", "line"), ("show_tags", "show-tags"): ("show_tags", "line"), ("mode", "exec_mode"): ("set_exec_mode", "line"), ("schedule", "exec_schedule"): ("set_exec_schedule", "line"),
    ("direction", "flow_direction", "order", "flow_order", "semantics"): ("set_flow_direction", "line"), ("reactivity",): ("set_reactivity", "line"), ("register", "register_tracer"): ("register_tracer", "line"),
    ("deregister", "deregister_tracer"): ("deregister_tracer", "line"), ("register_annotations", "register-annotations"): ("register_annotations", "line"), ("toggle_reactivity", "toggle-reactivity"): ("toggle_reactivity", ""),
    ("bump_min_forced_reactive_counter", "bump-min-forced-reactive-counter"): ("bump_min_forced_reactive_counter", ""), ("dag", "make_dag", "make_cell_dag"): ("create_dag_metadata", ""),
}
ANSWERS = {"toggle_dataflow", "show_deps", "get_code", "show_waiting", "make_slice"}
DIRECT = {"warn_ooo": {"warn_out_of_order_usages": True}, "nowarn_ooo": {"warn_out_of_order_usages": False}, "lint_ooo": {"lint_out_of_order_usages": True}, "nolint_ooo": {"lint_out_of_order_usages": False}, "syntax_transforms_only": {"syntax_transforms_only": True},
          ("syntax_transforms", "on"): {"syntax_transforms_enabled": True}, ("syntax_transforms", "enabled"): {"syntax_transforms_enabled": True}, ("syntax_transforms", "off"): {"syntax_transforms_enabled": False}, ("syntax_transforms", "disabled"): {"syntax_transforms_enabled": False},
          ("syntax_transforms", "perhaps"): {}}


def truth(t, **texts):
    if t in ("True", "False"):
        return t == "True"
    try:
        return bool(eval(t.replace("(not ", "(not "), {"__builtins__": {}}, texts))
    except Exception:
        return None


def dispatch(ctx):
    Q = "make_line_magic._handle"
    allf = {f for f, _ in COMMANDS.values()}
    OPQ = set(allf)
    for names, (fn, args) in COMMANDS.items():
        for c in names:
            it = ctx.run(Q, deciding(cmd=c, line="x").when(r"in line_magic_names", None), CALL, opaque=OPQ, onlyraise=set())
            es = ends(it)
            ctx.ob("R1-command", f"{Q}:{c}: paths", bool(es), "the command cannot be given", it.fi.loc())
            for e in es:
                cs = [x for x in e.trace if x.is_call(*allf)]
                want = [a for a in args.split(", ") if a]
                ok = len(cs) == 1 and cs[0].is_call(fn) and len(cs[0].b) == len(want) and all(T(b) == a or a == "cmd" and re.fullmatch(r"cmd\.replace\('-', '_'\)", T(b)) for b, a in zip(cs[0].b, want)) and not settings_set(e) and not warns(e)
                ctx.ob("R1-command", f"{Q}:{c}", ok, f"the command does {[T(x.a) for x in cs] or settings_set(e) or 'nothing'}", it.fi.loc(e.node))
                if fn in ANSWERS and len(cs) == 1:
                    ctx.ob("R1-command", f"{Q}:{c}: answer", T(e.value).startswith(fn + "("), "the answer of the command is lost", it.fi.loc(e.node))
                if fn == "create_dag_metadata":
                    ctx.ob("R1-command", f"{Q}:{c}: answer", "create_dag_metadata()" in T(e.value), "the answer of the command is lost", it.fi.loc(e.node))
    for c, want in DIRECT.items():
        c, line = c if isinstance(c, tuple) else (c, "")
        it = ctx.run(Q, deciding(cmd=c, line=line), CALL, opaque=OPQ, onlyraise=set())
        es = ends(it)
        every(ctx, "R1-command", f"{Q}:{c} {line}".strip(), es, lambda e: {k: truth(v, cmd=c, line=line) for k, v in settings_set(e).items()} == want and not any(x.is_call(*allf) for x in e.trace), "the command changes another setting, or to another value", lambda e: it.fi.loc(e.node))
    it = ctx.run(Q, deciding(cmd="clear", line=""), CALL, opaque=OPQ, onlyraise=set())
    every(ctx, "R1-command", f"{Q}:clear", ends(it), lambda e: not settings_set(e) and any(x.kind == "assign" and T(x.a).endswith(".min_timestamp") and re.search(r"cell_counter\(\)$|_cell_counter$", T(x.b)) for x in e.trace), "clearing forgets something else than older results", lambda e: it.fi.loc(e.node))
    for c in ("frobnicate", "enabled", "tags", "cleared", ""):
        it = ctx.run(Q, deciding(cmd=c, line=""), CALL, opaque=OPQ, onlyraise=set())
        every(ctx, "R1-unknown", f"{Q}:{c or 'nothing'}", ends(it), lambda e: len(warns(e)) == 1 and not settings_set(e) and not any(x.is_call(*allf) for x in e.trace) and e.value in (None, NONE) and not any(x.kind == "assign" for x in e.trace), "an unknown command does something, or is not reported", lambda e: it.fi.loc(e.node))
    # where the answer goes
    Q = "make_line_magic._flow_magic"
    it = ctx.run(Q, O(), lambda e: CALL(e) or e.kind in ("enter", "exit"), opaque={"_handle"})
    n = 0
    for e in returns(it):
        hs = [x for x in e.trace if x.is_call("_handle")]
        ctx.ob("R2-answer", Q, len(hs) == 1, "a command is not executed exactly once", it.fi.loc(e.node))
        if len(hs) != 1:
            continue
        H = re.escape(T(("call", hs[0].a, tuple(hs[0].b), ())))
        pr = [x for x in e.trace if x.kind == "call" and T(x.a) in ("print_", "print")]
        wr = [x for x in e.trace if x.is_call("write")]
        op = [x for x in e.trace if x.kind == "call" and T(x.a) == "open"]
        none = next((v for k, v in e.facts.items() if re.search(r"\(?(None is .*_handle\(|.*_handle\(.*\) is None)", T(k))), None)
        if none is None:
            none = next((not v for k, v in e.facts.items() if k[0] == "truth" and "_handle(" in T(k)), None)
        if none:
            ctx.ob("R2-answer", Q + ": none", not pr and not wr and not op, "a command without an answer prints or writes something", it.fi.loc(e.node))
            continue
        n += 1
        ctx.ob("R2-answer", Q + ": once", len(pr) + len(wr) == 1 and all("_handle(" in T(x.b[0]) for x in pr + wr) and len(op) == len(wr), "an answer is lost, or printed and written", it.fi.loc(e.node))
        tofile = any(".split('>', 1)" in T(x.b[0]) or "partition('>')" in T(x.b[0]) for x in op)
        for x in op:
            mode = T(x.b[1]) if len(x.b) > 1 else kw(x, "mode")
            ctx.ob("R2-answer", Q + ": file", tofile and re.search(r"\.strip\(\)$", T(x.b[0])) is not None and (re.search(r"\[1\]", T(x.b[0])) is not None or "[2]" in T(x.b[0])) and mode in ("'w'", "'wt'"), f"the answer is written to {T(x.b[0])[:60]}", it.fi.loc(e.node))
    ctx.ob("R2-answer", Q + ": both", n >= 2 and any(x.is_call("write") for e in it.ends for x in e.trace) and any(T(x.a) in ("print_", "print") for e in it.ends for x in e.trace if x.kind == "call"), "answers are not printed, or not written to files", it.fi.loc())


def choices(ctx, Q, param, table, invalid, extra=None, also=()):
    """the function Q changes exactly the setting of the table for each text, and reports the others"""
    for text, want in table.items():
        it = ctx.run(Q, deciding(**{param: text}), CALL, onlyraise=set())
        es = [e for e in ends(it)]
        ctx.ob("R3-value", f"{Q}:{text!r}: paths", bool(es), "the value cannot be given", it.fi.loc())
        for e in es:
            got = settings_set(e)
            ok = set(got) == set(want) and all(re.fullmatch(v, got[k]) for k, v in want.items()) and not warns(e)
            ctx.ob("R3-value", f"{Q}:{text!r}", ok, f"{text!r} sets {got or 'nothing'}", it.fi.loc(e.node))
            if extra:
                extra(it, e, text)
    for text in invalid:
        it = ctx.run(Q, deciding(**{param: text}), CALL, onlyraise=set())
        every(ctx, "R3-invalid", f"{Q}:{text!r}", ends(it), lambda e: not settings_set(e) and len(warns(e)) == 1, "an invalid value is accepted, or not reported", lambda e: it.fi.loc(e.node))


def values(ctx):
    p = lambda q: [x for x in ctx.run(q, O(), lambda e: False, onlyraise=set()).fi.params][-1]
    choices(ctx, "toggle_dataflow", p("toggle_dataflow"), {"enable": {"dataflow_enabled": "True", "syntax_transforms_only": "False"}, "on": {"dataflow_enabled": "True", "syntax_transforms_only": "False"}, "disable": {"dataflow_enabled": "False"}, "off": {"dataflow_enabled": "False"}}, ("perhaps", ""))
    D = "FlowDirection."
    choices(ctx, "set_flow_direction", p("set_flow_direction"), {"any_order": {"flow_order": D + "ANY_ORDER"}, "any": {"flow_order": D + "ANY_ORDER"}, "ANY_ORDER": {"flow_order": D + "ANY_ORDER"}, "unordered": {"flow_order": D + "ANY_ORDER"}, "both": {"flow_order": D + "ANY_ORDER"},
                                                                 "in_order": {"flow_order": D + "IN_ORDER"}, "In_Order": {"flow_order": D + "IN_ORDER"}, "ordered": {"flow_order": D + "IN_ORDER"}, "linear": {"flow_order": D + "IN_ORDER"}}, ("sideways", "", "an"))
    S = "ExecutionSchedule."
    choices(ctx, "set_exec_schedule", p("set_exec_schedule"), {"liveness_based": {"exec_schedule": S + "LIVENESS_BASED"}, "dag_based": {"exec_schedule": S + "DAG_BASED"}, "hybrid_dag_liveness_based": {"exec_schedule": S + "HYBRID_DAG_LIVENESS_BASED"}}, ("random", ""))
    for on, texts in ((True, ("on", "enable", "enabled")), (False, ("off", "disable", "disabled"))):
        q = "trace_messages"
        pp = p(q)
        for t in texts:
            L = rf"{pp}\.split\(\)"
            o = O().fn(lambda a, s, t=t: _split(a, pp, t))
            it = ctx.run(q, o, CALL, onlyraise=set())
            every(ctx, "R3-value", f"{q}:{t!r}", ends(it), lambda e: settings_set(e) == {"trace_messages_enabled": str(on)} and not warns(e), "tracing messages are not switched as asked", lambda e: it.fi.loc(e.node))
    for t in ("", "on off", "maybe"):
        it = ctx.run("trace_messages", O().fn(lambda a, s, t=t: _split(a, p("trace_messages"), t)), CALL, onlyraise=set())
        every(ctx, "R3-invalid", f"trace_messages:{t!r}", ends(it), lambda e: not settings_set(e) and len(warns(e)) == 1, "an invalid value is accepted, or not reported", lambda e: it.fi.loc(e.node))
    # highlights
    Q = "set_highlights"
    c, r = ctx.run(Q, O(), lambda e: False, onlyraise=set()).fi.params[:2]
    for cmd, rest, want in (("hls", "", "EXECUTED"), ("hls", "on", "EXECUTED"), ("highlights", "enabled", "EXECUTED"), ("hls", "off", "NONE"), ("hls", "disable", "NONE"), ("nohls", "", "NONE"), ("nohls", "on", "NONE"), ("hls", "OFF ", "NONE"), ("highlight", "On", "EXECUTED")):
        it = ctx.run(Q, deciding(**{c: cmd, r: rest}), CALL, onlyraise=set())
        every(ctx, "R3-value", f"{Q}:{cmd} {rest}".strip(), ends(it), lambda e: settings_set(e) == {"highlights": "Highlights." + want} and not warns(e), f"highlights are not {want}", lambda e: it.fi.loc(e.node))
    for known in (True, False):
        o = deciding(**{c: "hls", r: "reactive"}).when(r" in .*(Highlights|member)", known)
        it = ctx.run(Q, o, CALL, onlyraise=set())
        every(ctx, "R3-value" if known else "R3-invalid", f"{Q}:strategy:known={known}", ends(it), lambda e: (bool(warns(e)) is not known) and (re.fullmatch(r"Highlights\(.*\)", settings_set(e).get("highlights", "")) is not None if known else not settings_set(e)), "a strategy is not set as given, or an unknown one is accepted", lambda e: it.fi.loc(e.node))
    # execution mode
    Q = "set_exec_mode"
    pp = p(Q)
    for reactive, comm in itertools.product((True, False), repeat=2):
        o = deciding(**{pp: "reactive" if reactive else "lazy"}).when(r"ExecutionMode\(.*\) (==|is) ExecutionMode\.REACTIVE|ExecutionMode\.REACTIVE (==|is) ExecutionMode\(", reactive).when(r"ExecutionMode\.REACTIVE", reactive).when(IS(r"flow\(\)\.comm_manager\._comm", "None"), not comm).when(r"^flow\(\)\.comm_manager\._comm$", comm)
        con = f"{Q}:reactive={reactive}:connected={comm}"
        KNOWN = r" in .*(ExecutionMode|elem\()"
        o2 = O()
        o2.entries = list(o.entries)
        it = ctx.run(Q, o2.when(KNOWN, False), CALL, onlyraise=set(), opaque={"set_ready"})
        every(ctx, "R3-invalid", con, returns(it), lambda e: len(warns(e)) == 1 and not settings_set(e) and not any(x.is_call("send", "set_ready") for x in e.trace) and not any(x.kind == "assign" for x in e.trace), "an invalid mode is accepted, or not reported", lambda e: it.fi.loc(e.node))
        it = ctx.run(Q, o.when(KNOWN, True), CALL, onlyraise=set(), opaque={"set_ready"})
        good = [e for e in returns(it) if not warns(e)]
        ctx.ob("R3-value", con + ": paths", bool(good), "valid modes are not accepted", it.fi.loc())
        for e in good:
            ctx.ob("R3-value", con, set(settings_set(e)) == {"exec_mode"} and re.fullmatch(r"ExecutionMode\(.*\)", settings_set(e)["exec_mode"]) is not None and pp in settings_set(e)["exec_mode"], "the mode is not the one given", it.fi.loc(e.node))
            ctx.ob("R4-mode", con + ": from now on", any(x.kind == "assign" and T(x.a).endswith("._min_new_ready_cell_counter") and re.fullmatch(r"\(?(flow\(\)\.cell_counter\(\) \+ 1|1 \+ flow\(\)\.cell_counter\(\)|.*_cell_counter \+ 1|.*next_exec_counter\(\))\)?", T(x.b)) for x in e.trace), "what changed before the switch triggers cells after it", it.fi.loc(e.node))
            sent = [x for x in e.trace if x.is_call("send")]
            t = T(sent[0].b[0]) if sent and sent[0].b else ""
            ctx.ob("R4-mode", con + ": told", len(sent) == (1 if comm else 0) and (not comm or "'type': 'set_exec_mode'" in t and re.search(r"'exec_mode': ExecutionMode\(.*\)\.value", t) is not None), "the front end is not told about the mode", it.fi.loc(e.node))
        its = [i for i in loops_over(it, r"current_cells_for_each_id|_current_cell_by_cell_id") if i.kind != "collect"]
        off = bool(its) and all(i.kind != "break" and any(x.is_call("set_ready") and T(x.recv).startswith("elem(") and [T(b) for b in x.b] == ["False"] for x in i.events) for i in its)
        ctx.ob("R4-mode", con + ": forgotten", off if reactive else not its or not off, "cells that were ready before run at once, or what is ready is forgotten otherwise", it.fi.loc())
    Q = "NotebookFlow.toggle_reactivity"
    for mode, want in (("LAZY", "REACTIVE"), ("REACTIVE", "LAZY")):
        it = ctx.run(Q, O().enum(r"(^|\.)exec_mode$", mode), CALL, onlyraise=set())
        every(ctx, "R4-mode", f"{Q}:{mode}", ends(it), lambda e: settings_set(e) == {"exec_mode": "ExecutionMode." + want} and any(x.kind == "assign" and T(x.a) == "self._min_new_ready_cell_counter" and re.search(r"cell_counter\(\) \+ 1|1 \+ self\.cell_counter\(\)|_cell_counter \+ 1", T(x.b)) for x in e.trace),
              "the mode is not switched, or what changed before triggers cells", lambda e: it.fi.loc(e.node))
    # reactivity
    Q = "set_reactivity"
    pp = p(Q)
    SCH = r"(flow\(\)\.mut_settings|settings)\.exec_schedule"
    for text, inc in (("batch", False), ("incremental", True), ("Incremental ", True)):
        for s in ("LIVENESS_BASED", "DAG_BASED", "HYBRID_DAG_LIVENESS_BASED"):
            o = deciding(**{pp: text}).enum(r"(^|\.)exec_schedule$", s).when(r"ReactivityMode\.INCREMENTAL", inc).when(r"ReactivityMode\.BATCH", not inc)
            it = ctx.run(Q, o, CALL, onlyraise=set())
            want = {"reactivity_mode"} | ({"exec_schedule"} if inc and s == "DAG_BASED" else set())
            every(ctx, "R3-value", f"{Q}:{text}:{s}", ends(it), lambda e: set(settings_set(e)) == want and re.search(rf"ReactivityMode\(.*{pp}|ReactivityMode\.{'INCREMENTAL' if inc else 'BATCH'}", settings_set(e)["reactivity_mode"]) is not None and (len(want) == 1 or settings_set(e)["exec_schedule"] == "ExecutionSchedule.HYBRID_DAG_LIVENESS_BASED"),
                  "the reactivity is not the one given, or the schedule does not fit it", lambda e: it.fi.loc(e.node))
    it = ctx.run(Q, deciding(**{pp: "sometimes"}), CALL, onlyraise=set())
    every(ctx, "R3-invalid", f"{Q}:invalid", ends(it), lambda e: not settings_set(e) and len(warns(e)) == 1, "an invalid value is accepted, or not reported", lambda e: it.fi.loc(e.node))


def rejecting(ctx):
    """enumerations that give a default for unknown values do not reject any: what a user types is checked before"""
    soft = {c for c, ci in ctx.ix.classes.items() if "_missing_" in ci.methods}
    soft |= {c for c, ci in ctx.ix.classes.items() if any(str(b).split(".")[-1] in soft for b in ci.bases)}
    for k, f in ctx.ix.funcs.items():
        if not k.startswith("ipyflow.line_magics:"):
            continue
        for n in ast.walk(f.node):
            if isinstance(n, ast.Try) and any(isinstance(h.type, ast.Name) and h.type.id == "ValueError" for h in n.handlers):
                for x in (y for s in n.body for y in ast.walk(s)):
                    if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in soft:
                        ctx.ob("R3-invalid", f"{f.qual}:{x.func.id}", False, f"{x.func.id} gives its default for unknown values, so they are not reported", f.loc(x))


def _split(a, name, text):
    """guards about the words of the line"""
    t = T(a)
    m = re.fullmatch(r"truth\((.*)\)", t)
    t = m.group(1) if a[0] == "truth" and m else t
    if name not in t:
        return None
    try:
        return bool(eval(t, {"__builtins__": {}, "len": len}, {name: text}))
    except Exception:
        return None


def tags_and_slices(ctx):
    Q = "tag"
    for given, rem in itertools.product((True, False), repeat=2):
        A = r"parse_argstring\(tag, line\)"
        o = O().when(IS(A + r"\.cell", "None"), not given).when(A + r"\.remove$", rem)
        it = ctx.run(Q, o, CALL, onlyraise={"parse_argstring"}, opaque={"current_cell", "at_counter", "from_counter"})
        con = f"{Q}:cell={given}:remove={rem}"
        ok_ = [e for e in returns(it) if not warns(e)]
        ctx.ob("R5-tags", con + ": invalid", any(warns(e) for e in returns(it)) and all(not any(x.kind == "assign" for x in e.trace) for e in returns(it) if warns(e)), "invalid arguments change something, or are not reported", it.fi.loc())
        C = r"cells\(\)\.(at_counter|from_counter)\(" + A + r"\.cell\)" if given else r"cells\(\)\.current_cell\(\)"
        for e in ok_:
            w = [x for x in e.trace if x.kind == "assign" and re.fullmatch(C + r"\.tags", T(x.a))]
            v = T(w[0].b) if w else ""
            ctx.ob("R5-tags", con, len(w) == 1 and re.search(r"set\(" + C + r"\.tags\) " + (r"- " if rem else r"\| "), v) is not None and A.replace("\\", "") + ".tag_name" in v.replace("\\", ""), f"the tags of the cell become {v[:90]}", it.fi.loc(e.node))
            rg = [x for x in e.trace if x.is_call("add", "discard", "remove") and re.search(r"_cells_by_tag\[" + A + r"\.tag_name\]", T(x.recv))]
            ctx.ob("R5-tags", con + ": found", len(rg) == 1 and (rg[0].is_call("add") is not rem) and re.fullmatch(C, T(rg[0].b[0])) is not None, "the cell is not found by its tag, or still is", it.fi.loc(e.node))
        ctx.ob("R5-tags", con + ": paths", bool(ok_), "tags cannot be changed", it.fi.loc())
    Q = "make_slice"
    A = r"parse_argstring\(make_slice, line\)"
    OPQ = {"exec_counter", "at_timestamp", "from_tag", "compute_multi_slice_stmts", "make_multi_slice", "make_cell_dict_from_closure", "format_slice", "mark_as_reactive_for_tag", "current_cell"}
    for num, tg, react, stmt in itertools.product((True, False), repeat=4):
        if num and (tg or react) or react and not tg:
            continue
        o = O().when(IS(A + r"\.cell_num", "None"), not num).when(IS(A + r"\.tag", "None"), not tg).when(r"\.startswith\('\$'\)", react).when(A + r"\.stmt$", stmt).when(A + r"\.blacken$", False)
        o.when(IS(r"\(?cells\(\)\.exec_counter\(\) - 1\)?|\(?-1 \+ cells\(\)\.exec_counter\(\)\)?", "None"), False).when(r"^\(?len\(.*\) == 0\)?$", False).when(IS(r".*(at_timestamp|from_tag)\(.*", "None"), False).when(r"from_tag\(", True)
        it = ctx.run(Q, o, lambda e: CALL(e) or e.kind == "except", onlyraise={"parse_argstring", "at_timestamp"}, opaque=OPQ)
        con = f"{Q}:number={num}:tag={tg}:reactive={react}:statements={stmt}"
        seen = 0
        for e in returns(it):
            fs = [x for x in e.trace if x.is_call("format_slice")]
            if warns(e):
                ctx.ob("R6-slice", con + ": none", not fs and e.value in (None, NONE), "what is reported gives a slice", it.fi.loc(e.node))
                continue
            mk = [x for x in e.trace if x.is_call("compute_multi_slice_stmts", "make_multi_slice")]
            src = T(mk[0].b[0]) if mk and mk[0].b else ""
            if not fs:
                continue
            seen += 1
            S = r"\{?\(?cells\(\)\.at_timestamp\((" + (A + r"\.cell_num" if num else r"\(?cells\(\)\.exec_counter\(\) - 1\)?|\(?-1 \+ cells\(\)\.exec_counter\(\)\)?") + r")\)" if not tg else r"cells\(\)\.from_tag\(" + A + (r"\.tag\[1::?\]\)" if react else r"\.tag\)")
            ctx.ob("R6-slice", con, len(mk) == 1 and mk[0].is_call("compute_multi_slice_stmts") is stmt and re.search(S, src) is not None, f"the slice is that of {src[:80]}", it.fi.loc(e.node))
            mr = [x for x in e.trace if x.is_call("mark_as_reactive_for_tag")]
            ctx.ob("R6-slice", con + ": reactive", len(mr) == (1 if react else 0), "a cell does not follow the tag it asks to follow", it.fi.loc(e.node))
            k = kw(fs[0], "include_cell_headers") or ""
            ctx.ob("R6-slice", con + ": headers", re.fullmatch(rf"\(?not {A}\.noheader\)?", k) is not None or any(re.search(A + r"\.noheader", T(f)) for f in e.facts), f"headers are shown when {k}", it.fi.loc(e.node))
            ctx.ob("R6-slice", con + ": result", "format_slice(" in T(e.value) and "make_cell_dict_from_closure" in T(fs[0].b[0]), "the slice is not the answer", it.fi.loc(e.node))
        ctx.ob("R6-slice", con + ": paths", seen > 0, "such a slice cannot be asked for", it.fi.loc())
        if not tg and any(x.is_call("at_timestamp") for e in it.ends for x in e.trace):
            ctx.ob("R6-slice", con + ": not run", any(warns(e) and any(x.kind == "except" and re.search("KeyError|LookupError|Exception", T(x.a)) for x in e.trace) for e in returns(it)), "a cell that was not run makes the command fail", it.fi.loc())
    for q, inner in (("show_deps", "full_namespace_path"), ("get_code", "code")):
        for none in (True, False):
            it = ctx.run(q, O().when(IS(r"_resolve_symbol\(.*\)", "None"), none), CALL, onlyraise=set(), opaque={"_resolve_symbol", "code", "full_namespace_path", "is_user_accessible"})
            every(ctx, "R6-symbol", f"{q}:unknown={none}", ends(it), lambda e: (e.value in (None, NONE)) is none and (none or "_resolve_symbol(symbol_str" in T(e.value)), "an unknown name gives an answer, or a known one none", lambda e: it.fi.loc(e.node))
    Q = "show_deps"
    it = ctx.run(Q, O().when(IS(r"_resolve_symbol\(.*\)", "None"), False), CALL, onlyraise=set(), opaque={"_resolve_symbol", "full_namespace_path", "is_user_accessible"})
    every(ctx, "R6-symbol", f"{Q}:both", ends(it), lambda e: re.search(r"\.format\(|fstr|setcomp", T(e.value)) is not None and 0 <= T(e.value).find(".parents") < T(e.value).find(".children") and len(re.findall(r"is_user_accessible", T(e.value))) >= 2, "dependencies and dependents are mixed up, or internal ones shown", lambda e: it.fi.loc(e.node))
    Q = "show_waiting"
    for text, want in (("", "global"), ("global", "global"), ("all", "all")):
        it = ctx.run(Q, O().fn(lambda a, s, t=text: _split(a, "line_", t)), CALL, onlyraise=set(), opaque={"all_symbols_this_indentation", "is_waiting", "is_anonymous"})
        SRC = r"all_symbols_this_indentation\(\)" if want == "global" else r"\.aliases\.values\(\)"
        its = [i for i in it.iterations if re.search(SRC, T(i.iter))]
        ctx.ob("R6-symbol", f"{Q}:{text!r}", bool(its) and not any(warns(e) for e in returns(it)) and all(re.search(SRC, T(strip_iter(i.iter))) for i in its), "other symbols are looked at than asked for", it.fi.loc())
    for wait, anon in itertools.product((True, False), repeat=2):
        it = ctx.run(Q, O().fn(lambda a, s: _split(a, "line_", "all")).when(r"\.is_waiting$", wait).when(r"\.is_anonymous$", anon), CALL, onlyraise=set(), opaque={"is_waiting", "is_anonymous"})
        adds = [x for i in it.iterations for x in i.events if x.is_call("add") or x.kind == "collect"]
        ctx.ob("R6-symbol", f"{Q}:waiting={wait}:anonymous={anon}", bool(adds) is (wait and not anon), "a symbol that waits is missed, or another one is listed", it.fi.loc())


DEFAULTS = {"mark_waiting_symbol_usages_unsafe": "True", "mark_typecheck_failures_unsafe": "False", "mark_phantom_cell_usages_unsafe": "False", "dataflow_enabled": "True", "trace_messages_enabled": "False", "test_context": "False",
            "static_slicing_enabled": "True", "dynamic_slicing_enabled": "True", "push_reactive_updates": "True", "push_reactive_updates_to_cousins": "True", "warn_out_of_order_usages": "False", "lint_out_of_order_usages": "False",
            "syntax_transforms_only": "False", "max_external_call_depth_for_tracing": r"\d+", "exec_mode": r"ExecutionMode\.LAZY", "exec_schedule": r"ExecutionSchedule\.LIVENESS_BASED", "flow_order": r"FlowDirection\.IN_ORDER", "reactivity_mode": r"ReactivityMode\.BATCH",
            "color_scheme": r"ColorScheme\.NORMAL", "highlights": r"Highlights\.EXECUTED", "interface": r"Interface\.UNKNOWN"}
ENUMS = {"exec_mode": "ExecutionMode", "exec_schedule": "ExecutionSchedule", "flow_order": "FlowDirection", "reactivity_mode": "ReactivityMode", "color_scheme": "ColorScheme", "interface": "Interface", "highlights": "Highlights"}
OPTION = {"flow_order": "flow_direction"}
UNCONFIGURED = {"test_context", "dataflow_enabled", "trace_messages_enabled", "highlights", "interface"}


def options(ctx):
    Q = "NotebookFlow.__init__"
    it = ctx.run(Q, O(), CALL, onlyraise=set())
    fields = {}
    for c in ("DataflowSettings", "MutableDataflowSettings"):
        ci = ctx.ix.classes.get(c)
        if ci is not None:
            fields.update({n.target.id: c for n in ci.node.body if isinstance(n, ast.AnnAssign)})
    es = [e for e in returns(it)]
    for e in es[:2]:
        got = {}
        for x in e.trace:
            if x.is_call("DataflowSettings", "MutableDataflowSettings"):
                got.update({k: T(v) for k, v in (x.c or [])})
        for f in fields:
            v = got.get(f)
            if v is None:
                ctx.ob("R7-option", f"{Q}:{f}", False, "the option has no value", it.fi.loc())
                continue
            opt = OPTION.get(f, f)
            if f in ENUMS and f != "highlights":
                m = re.fullmatch(rf"{ENUMS[f]}\((.*)\)", v)
                ctx.ob("R7-option", f"{Q}:{f}: valid", m is not None, "an invalid value is accepted", it.fi.loc())
                v = m.group(1) if m else v
            m = re.fullmatch(r"kwargs\.(?:pop|get)\('(\w+)', (.*)\)", v)
            ctx.ob("R7-option", f"{Q}:{f}: asked for", m is not None and m.group(1) == opt, f"the option is taken from {v[:70]}", it.fi.loc())
            if not m:
                continue
            g = re.fullmatch(r"getattr\(shell\(\)\.config\.ipyflow, '(\w+)', (.*)\)", m.group(2))
            ctx.ob("R7-option", f"{Q}:{f}: configured", (g is not None and g.group(1) == opt) or g is None and f in UNCONFIGURED, f"without being asked for, the option is {m.group(2)[:70]}", it.fi.loc())
            d = g.group(2) if g else m.group(2)
            if f in DEFAULTS:
                ctx.ob("R7-option", f"{Q}:{f}: default", re.fullmatch(DEFAULTS[f], d) is not None, f"the default is {d[:60]}", it.fi.loc())
    Q = "NotebookFlow.initialize"
    it = ctx.run(Q, O().when(r"mut_settings\.interface ==|== self\.mut_settings\.interface|== \(?self\.mut_settings\.interface", True), CALL, onlyraise=set(), opaque={"init_virtual_symbols", "handle_notify_content_changed", "_initialize_cell_parents"})
    every(ctx, "R8-connect", f"{Q}:again", ends(it), lambda e: not settings_set(e) and not any(x.is_call("handle_notify_content_changed") for x in e.trace), "connecting again changes settings that were changed meanwhile", lambda e: it.fi.loc(e.node))
    FRONT = ["dataflow_enabled", "syntax_transforms_enabled", "syntax_transforms_only", "exec_mode", "exec_schedule", "flow_order", "highlights", "reactivity_mode", "push_reactive_updates", "push_reactive_updates_to_cousins", "pull_reactive_updates", "color_scheme", "max_external_call_depth_for_tracing", "is_dev_mode"]
    for meta in (True, False):
        for none in (True, False):
            o = O().when(r"mut_settings\.interface ==|== self\.mut_settings\.interface|== \(?self\.mut_settings\.interface", False).when(IS("cell_metadata_by_id", "None"), not meta).when(IS(r"getattr\(shell\(\)\.config\.ipyflow, 'pu\w+', .*\)", "None"), none)
            it = ctx.run(Q, o, CALL, onlyraise=set(), opaque={"init_virtual_symbols", "handle_notify_content_changed", "_initialize_cell_parents"})
            es = ends(it)
            con = f"{Q}:cells={meta}:absent={none}"
            ctx.ob("R8-connect", con + ": paths", bool(es), "no front end can connect", it.fi.loc())
            for e in es:
                w = settings_set(e)
                ctx.ob("R8-connect", con + ": kind", re.fullmatch(r"Interface\(interface\)", w.get("interface", "")) is not None, "the kind of the front end is not recorded", it.fi.loc(e.node))
                for f in FRONT:
                    v, opt = w.get(f), OPTION.get(f, f)
                    if none and f.startswith(("push_", "pull_")):
                        ctx.ob("R8-connect", con + f": {f}", v is None, "an option that nobody gives loses its value", it.fi.loc(e.node))
                        continue
                    if v is None:
                        ctx.ob("R8-connect", con + f": {f}", False, "the option is not taken over", it.fi.loc(e.node))
                        continue
                    if f in ENUMS:
                        m = re.fullmatch(rf"{ENUMS[f]}\((.*)\)", v)
                        v = m.group(1) if m else ""
                    m = re.fullmatch(rf"getattr\(shell\(\)\.config\.ipyflow, '{opt}', kwargs\.(get|pop)\('{opt}'(, (.*))?\)\)", v)
                    ctx.ob("R8-connect", con + f": {f}", m is not None, f"the option is {v[:90]}", it.fi.loc(e.node))
                    if m and f in ("max_external_call_depth_for_tracing", "is_dev_mode"):
                        ctx.ob("R8-connect", con + f": {f} kept", m.group(3) == f"self.mut_settings.{f}", "an option that nobody gives loses its value", it.fi.loc(e.node))
                ns = [i for i, x in enumerate(e.trace) if x.is_call("handle_notify_content_changed")]
                ps = [i for i, x in enumerate(e.trace) if x.is_call("_initialize_cell_parents")]
                vs = [i for i, x in enumerate(e.trace) if x.is_call("init_virtual_symbols")]
                st = [i for i, x in enumerate(e.trace) if x.kind == "assign" and "mut_settings" in T(x.a)]
                ctx.ob("R8-connect", con + ": cells", len(ns) == (1 if meta else 0) and len(ps) == 1 and len(vs) == 1 and all(i < ps[0] for i in ns) and max(st) < min(ns + ps), "cells are taken over before the settings, or their dependencies before the cells", it.fi.loc(e.node))
                for i in ns:
                    ctx.ob("R8-connect", con + ": cells", "'cell_metadata_by_id': cell_metadata_by_id" in T(e.trace[i].b[0]), "the cells of the front end are not taken over", it.fi.loc(e.node))
                for i in ps:
                    ctx.ob("R8-connect", con + ": dependencies", [T(b) for b in e.trace[i].b] == ["cell_parents"], "the dependencies of the front end are not taken over", it.fi.loc(e.node))
    Q = "NotebookFlow._initialize_cell_parents"
    it = ctx.run(Q, O().when(IS("cell_parents", "None"), False), lambda e: CALL(e) or e.kind in ("enter", "exit", "except"), onlyraise={"from_id"}, opaque={"add_parent_edge", "from_id"})
    es = [(e, x) for e in it.ends for x in e.trace if x.is_call("add_parent_edge")]
    every(ctx, "R8-connect", Q, es, lambda p: re.fullmatch(r"cells\(\)\.from_id(_nullable)?\(elem\(cell_parents\)\)", T(p[1].recv)) is not None and re.fullmatch(r"cells\(\)\.from_id(_nullable)?\(elem\(.*cell_parents.*\)\)", T(p[1].b[0])) is not None and T(p[1].b[0]) != T(p[1].recv) and within(p[0].trace, p[1], r"static_slicing_context\(\)"), "dependencies known from the notebook file are recorded the wrong way round", lambda p: it.fi.loc(p[1].node))
    froms = max([sum(x.is_call("from_id") for x in e.trace) for e in it.ends] or [0])
    ctx.ob("R8-connect", Q + ": unknown", len([e for e in returns(it) if any(x.kind == "except" and re.search("KeyError|LookupError|Exception", T(x.a)) for x in e.trace)]) >= froms, "an unknown cell makes the front end's connection fail", it.fi.loc())
    # how settings are reported
    Q = "JsonSerializableMixin.to_json"
    for en, pl in itertools.product((True, False), repeat=2):
        it = ctx.run(Q, O().when(r"^isinstance\(.*, \(?(enum\.)?Enum", en).when(r"^isinstance\(.*, (\(bool|bool|float|str|\(str|\(float)", pl), CALL, onlyraise=set())
        its = loops_over(it, r"asdict\(self\)")
        def one(i):
            ss = [x for x in i.events if x.kind == "setitem"]
            if len(ss) != 1 or i.kind == "break":
                return False
            V = r"(elem\(asdict\(self\)\.items\(\)\)\[1\]|asdict\(self\)\[elem\(asdict\(self\)\)\])" + (r"\.value" if en else "")
            return re.fullmatch(V if pl else rf"str\({V}\)", T(ss[0].c)) is not None and re.fullmatch(r"elem\(asdict\(self\)(\.items\(\)\)\[0\]|\))", T(ss[0].b)) is not None
        ctx.ob("R9-reported", f"{Q}:enumeration={en}:plain={pl}", bool(its) and all(one(i) for i in its), "a setting is reported under another name, or with another value", it.fi.loc())
    ci = ctx.ix.classes
    for c, vals in (("ExecutionMode", {"LAZY": "lazy", "REACTIVE": "reactive"}), ("FlowDirection", {"ANY_ORDER": "any_order", "IN_ORDER": "in_order"}), ("ReactivityMode", {"BATCH": "batch", "INCREMENTAL": "incremental"}),
                    ("ExecutionSchedule", {"LIVENESS_BASED": "liveness_based", "DAG_BASED": "dag_based", "HYBRID_DAG_LIVENESS_BASED": "hybrid_dag_liveness_based"}), ("Highlights", {"ALL": "all", "NONE": "none", "EXECUTED": "executed", "REACTIVE": "reactive"})):
        if c not in ci:
            continue
        got = {}
        for n in ci[c].node.body:
            if isinstance(n, ast.Assign) and isinstance(n.value, ast.Constant):
                for t in n.targets:
                    if isinstance(t, ast.Name) and not t.id.startswith("_"):
                        got[t.id] = n.value.value
        ctx.ob("R9-reported", c, all(got.get(k) == v for k, v in vals.items()) and len(set(got.values())) == len(got), f"the values the front end uses are {got}", "core/ipyflow/config.py")


def capture_magic(ctx):
    """the variable of a %%capture cell is the argument that is no option, and tracked only if it exists"""
    q = "IPyflowInteractiveShell._ipyflow_run_cell"
    fi = ctx.F(q)
    for cap in (True, False):
        o = O().when(r"startswith\('%%capture'\)", cap).when(r"dataflow_enabled$", True)
        it = ctx.run(q, o, lambda e: e.is_call("upsert_symbol_for_name"), opaque={"before_run_cell", "after_run_cell", "_tracing_context", "on_exception", "transform_cell"})
        evs = [e for e in it.allevents.values() if e.is_call("upsert_symbol_for_name")]
        if not cap:
            ctx.ob("R13-capture", f"{q}:other cells", not evs, "a cell that captures nothing is taken to fill a variable", fi.loc())
            continue
        ctx.ob("R13-capture", f"{q}:filled", bool(evs), "the variable that is filled is not tracked", fi.loc())
        for e in evs:
            name, val = T(e.b[0]), T(e.b[1]) if len(e.b) > 1 else ""
            facts = {T(a): v for a, v in dict(e.facts).items()}
            opts = "startswith('-')" in name or any("startswith('-')" in t and v is False for t, v in facts.items()) or "parse_argstring" in name or "getopt" in name
            ctx.ob("R13-capture", f"{q}:options", opts, "options are taken for the name of the variable", e.loc())
            there = any(re.search(r" in .*user_ns\)?$", t) and v is True or "user_ns" in t and "None" in t and v is False for t, v in facts.items())
            ctx.ob("R13-capture", f"{q}:there", there, "a variable that does not exist is tracked", e.loc())
            ctx.ob("R13-capture", f"{q}:value", "user_ns" in val and name in val, "the variable is tracked with another value", e.loc())


def check(ctx):
    dispatch(ctx)
    values(ctx)
    rejecting(ctx)
    tags_and_slices(ctx)
    options(ctx)
    capture_magic(ctx)
