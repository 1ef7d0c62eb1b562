"""C25: every run of a cell is a version of it with its own number, text and history; what is asked about a cell is answered from the newest one."""
import itertools

from .common import *
from .c19 import CALL, IS, arg, ends, kw, returns

TITLE = "Cells and their runs"
PROP = dict(
    title="Every run of a cell is a version of it with its own number, text and history",
    statement="Each run gets the next execution number (that of the IPython prompt, where the two differ) and is the current version of its cell from then on; versions keep their own text, tags, number and list of earlier runs, "
              "cells that were only announced get no number and never replace one that ran, and tags and recorded dependents move to the newest version. "
              "Cells are found by id (newest version), by number (exactly that run), by position and by tag, and iterated in the order that is asked for. "
              "The syntax tree of a cell is always that of its current text, and a check of a cell covers the names that text reads, binds and changes (or those the user names instead), in the global scope and as of that cell, together with what earlier checks found out about the same text.",
    over=["programs", "histories"],
    qtext="every history of runs, announcements, id changes and edits of cells",
    why_tests_cant="Tests run a few cells a few times in one order; that numbers, versions and lookups agree must hold after every sequence of runs, edits and re-runs.",
    files=["core/ipyflow/data_model/cell.py", "core/ipyflow/shell/interactiveshell.py", "core/ipyflow/flow.py", "core/ipyflow/models.py"],
    mechanism=[("registration of runs", "data_model/cell.py create_and_track"), ("lookups", "data_model/cell.py"), ("checks of cells", "data_model/cell.py check_and_resolve_symbols"), ("runs", "shell/interactiveshell.py before_run_cell")],
    observe=["Cell registries", "execution numbers", "results of checks"],
)
TECHNIQUE = "path-sensitive abstract interpretation of registration, lookup and checking of cells per case (first run, re-run, announced, renumbered), compared with the registry contents each case requires"
LEVEL_NOTE = "Decides what is registered and returned on every path; re-keying of ids is decided with the edges (C03), positions with flow order (C01, C09), clearing with C11."
NEWC = r"Cell\(cell_id, .*\)"
PREV = r"Cell\.from_id_nullable\(cell_id\)|Cell\._current_cell_by_cell_id\.get\(cell_id(, None)?\)"


def has(ctx, q):
    return any(f.qual == q for f in ctx.ix.funcs.values())


def reg(e, attr):
    """the last value stored in ``attr`` on the path"""
    w = [x for x in e.trace if x.kind in ("assign", "aug_assign", "aug") and T(x.a).endswith(attr)]
    return w


def created(e):
    """the call that makes the new cell"""
    return [x for x in e.trace if x.kind == "call" and T(x.a) in ("Cell", "cls")]


def of_prev(t, what):
    return re.fullmatch(rf"\(?({PREV})\)?\.{what}", t) is not None


def created_and_tracked(ctx):
    Q = "Cell.create_and_track"
    for bump, validate, same, prev in itertools.product((True, False), (True, False), (True, False), ("none", "older", "newer")):
        if not bump and (validate or same or prev == "newer"):
            continue
        o = O().when(r"^bump_cell_counter$", bump).when(r"^validate_ipython_counter$", validate)
        o.when(IS(f"({PREV})", "None"), prev == "none")
        o.fn(lambda a, s, same=same: same if a[0] == "cmp" and a[1] == "==" and re.search(r"cell_counter\(\)", T(a)) and "execution_count" not in T(a) and "_cell_counter + 1" in T(a).replace("1 + Cell._cell_counter", "Cell._cell_counter + 1") or
             a[0] == "cmp" and a[1] == "==" and re.fullmatch(r"\(?(Cell\._cell_counter == (ipy_)?cell_counter\(\)|(ipy_)?cell_counter\(\) == Cell\._cell_counter)\)?", T(a)) else None)
        NUM = r"(\(?Cell\._cell_counter \+ 1\)?|\(?1 \+ Cell\._cell_counter\)?|Cell\._cell_counter|get_ipython\(\)\.execution_count)"
        o.when(rf"^\(?({NUM} == -1|-1 == {NUM})\)?$", False)
        if bump:
            o.when(rf"^\(?(-1 < {NUM}|{NUM} > -1|0 <= {NUM}|{NUM} >= 0)\)?$", True)
        o.when(rf"^\(?({PREV})\.cell_ctr < .*$|^\(?.* > ({PREV})\.cell_ctr\)?$", prev == "older").when(rf"^\(?({PREV})\.cell_ctr >= .*$|^\(?.* <= ({PREV})\.cell_ctr\)?$", prev != "older")
        o.when(IS(rf"({PREV})\.cell_ctr", "None"), False).when(r"is_dev_mode", False)
        it = ctx.run(Q, o, CALL, opaque={"from_id_nullable", "Cell.__init__"}, onlyraise=set())
        con = f"{Q}:numbered={bump}:checked={validate}:agrees={same}:earlier={prev}"
        es = [e for e in ends(it) if e.value is not None]
        if not bump and prev != "none":
            continue
        ctx.ob("R1-number", con + ": paths", bool(es), "such a cell is not created", it.fi.loc())
        fixed = bump and validate and not same
        for e in es:
            cs = created(e)
            ctx.ob("R1-number", con + ": one", len(cs) == 1 and re.fullmatch(NEWC, T(e.value)) is not None, "not exactly one version is created and returned", it.fi.loc(e.node))
            if len(cs) != 1:
                continue
            x = cs[0]
            cw = reg(e, "Cell._cell_counter") + reg(e, "cls._cell_counter")
            n = arg(x, 1, "cell_ctr") or ""
            if not bump:
                ctx.ob("R1-number", con, not cw and n == "-1", "a cell that has not run takes a number", it.fi.loc(x.node))
            elif fixed:
                ctx.ob("R1-number", con, "execution_count" in n and bool(cw) and "execution_count" in T(cw[-1].b) and any(T(w.a).endswith("_IPY.cell_counter") and "execution_count" in T(w.b) for w in e.trace if w.kind == "assign"),
                       "where the numbers differ, that of the prompt is not taken over everywhere", it.fi.loc(x.node))
            else:
                one = [w for w in cw if w.kind != "assign" and T(w.b).strip("'") == "+" and T(w.c) == "1" or w.kind == "assign" and re.fullmatch(r"\(?(\S+_cell_counter \+ 1|1 \+ \S+_cell_counter)\)?", T(w.b))]
                ctx.ob("R1-number", con, len(cw) == len(one) == 1 and re.fullmatch(r"\(?(Cell\._cell_counter \+ 1|1 \+ Cell\._cell_counter)\)?", n) is not None, f"the run does not get the next number but {n}", it.fi.loc(x.node))
            # what the version is
            for i, (a, want) in enumerate((("cell_id", "cell_id"), (None, None), ("content", "content"))):
                if a:
                    ctx.ob("R2-version", con + f": {a}", arg(x, i, a) == want, f"the {a} of the version is {arg(x, i, a)}", it.fi.loc(x.node))
            tg = arg(x, 3, "tags") or ""
            ctx.ob("R2-version", con + ": tags", tg == "tags" if prev == "none" else "set(tags)" in tg and ".tags" in tg and "|" in tg or re.search(r"union", tg) is not None, f"the tags of the version are {tg}", it.fi.loc(x.node))
            pv = kw(x, "prev_cell") if kw(x, "prev_cell") is not None else (T(x.b[4]) if len(x.b) > 4 else None)
            ctx.ob("R2-version", con + ": previous", re.fullmatch(PREV, pv or "") is not None or prev == "none" and pv in (None, "None"), f"the previous version is {pv}", it.fi.loc(x.node))
            for a in ("placeholder_id", "memoized_output_level"):
                ctx.ob("R2-version", con + f": {a}", kw(x, a) == a or any(T(b) == a for b in x.b), f"{a} is not recorded", it.fi.loc(x.node))
            # registries
            byc = [w for w in e.trace if w.kind == "setitem" and T(w.a).endswith("._cell_by_cell_ctr")]
            ctx.ob("R3-registered", con + ": by number", len(byc) == (1 if bump else 0) and all(T(w.b) == n and T(w.c) == T(e.value) for w in byc), "the run is not found by its number, or another one is", it.fi.loc(x.node))
            cur = [w for w in e.trace if w.kind == "setitem" and T(w.a).endswith("._current_cell_by_cell_id")]
            ctx.ob("R3-registered", con + ": by id", len(cur) == (0 if prev == "newer" else 1) and all(T(w.b) == "cell_id" and T(w.c) == T(e.value) for w in cur), "the version is not the current one of its cell, or an older one becomes it", it.fi.loc(x.node))
            its = [i for i in loops_over(it, r"^(tags|tuple\(|.*set\(tags\).*)") if any(w.is_call("add") and "_cells_by_tag" in T(w.recv) for w in i.events)]
            ctx.ob("R3-registered", con + ": by tag", bool(its) and all(i.kind != "break" and any(w.is_call("add") and re.search(r"_cells_by_tag\[elem\(", T(w.recv)) and re.fullmatch(NEWC, T(w.b[0])) for w in i.events) for i in its), "the version is not found by its tags", it.fi.loc(x.node))
            # what moves to the new version
            w = {T(v.a).rsplit(".", 1)[-1]: v for v in e.trace if v.kind == "assign" and T(v.a).startswith(T(e.value) + ".")}
            if prev == "none":
                ctx.ob("R4-moved", con, not set(w) & {"history", "raw_static_children", "raw_dynamic_children"}, "a first version starts with something of another one", it.fi.loc(x.node))
                continue
            h = T(w["history"].b) if "history" in w else ""
            ctx.ob("R4-moved", con + ": history", re.fullmatch(rf"\(?({PREV})\.history \+ {re.escape(T(e.value))}\.history\)?", h) is not None, "the list of runs does not continue that of the previous version", it.fi.loc(x.node))
            for c in ("raw_static_children", "raw_dynamic_children"):
                ctx.ob("R4-moved", con + f": {c}", c in w and of_prev(T(w[c].b), c), "recorded dependents are not those of the previous version", it.fi.loc(x.node))
            its = [i for i in loops_over(it, rf"^({PREV})\.tags$")]
            ctx.ob("R4-moved", con + ": tags", bool(its) and all(i.kind != "break" and any(v.is_call("discard", "remove") and re.search(r"_cells_by_tag\[elem\(", T(v.recv)) and re.fullmatch(PREV, T(v.b[0])) for v in i.events) for i in its), "an old version is still found by its tags", it.fi.loc(x.node))
            its = [i for i in loops_over(it, rf"^({PREV})\.reactive_tags$")]
            ctx.ob("R4-moved", con + ": reactive tags", bool(its) and all(i.kind != "break" and any(v.is_call("discard", "remove") and re.search(r"_reactive_cells_by_tag\[elem\(", T(v.recv)) and T(v.b[0]) in ("cell_id",) + tuple(f"{p}.cell_id" for p in ("Cell.from_id_nullable(cell_id)",)) for v in i.events) for i in its),
                   "a new version is still reactive for a tag of the old one", it.fi.loc(x.node))
            # in that order: the new one is added after the old one is gone
            add = [k for k, v in enumerate(e.trace) if v.is_call("add") and "_cells_by_tag" in T(v.recv)]
            rem = [k for k, v in enumerate(e.trace) if v.is_call("discard", "remove") and re.search(r"\._cells_by_tag", T(v.recv))]
            ctx.ob("R4-moved", con + ": order", not add or not rem or max(rem) < min(add), "tags are taken from the version that was just added", it.fi.loc(x.node))


def versions(ctx):
    Q = "Cell.__init__"
    FIELDS = {"cell_id": "cell_id", "cell_ctr": "cell_ctr", "current_content": "content", "tags": "tags", "prev_cell": "prev_cell", "_placeholder_id": "placeholder_id", "memoized_output_level": "memoized_output_level"}
    EMPTY = {"raw_dynamic_parents": "dict", "raw_dynamic_children": "dict", "raw_static_parents": "dict", "raw_static_children": "dict", "used_symbols": "set", "static_removed_symbols": "set", "static_writes": "set", "dynamic_writes": "set", "_pending_dynamic_writes": "set", "reactive_tags": "set"}
    NONES = ("executed_content", "last_ast_content", "last_check_content", "last_check_result", "error_in_exec", "captured_output", "_cached_ast", "override_live_refs", "override_dead_refs", "_extra_stmt")
    for ran in (True, False):
        o = O().when(r"^\(?(-1 < cell_ctr|cell_ctr > -1|0 <= cell_ctr|cell_ctr >= 0)\)?$", ran).when(r"^\(?(cell_ctr <= -1|cell_ctr < 0|cell_ctr == -1)\)?$", not ran)
        it = ctx.run(Q, o, CALL, onlyraise=set())
        for e in ends(it):
            w = {T(x.a)[5:]: T(x.b) for x in e.trace if x.kind == "assign" and T(x.a).startswith("self.")}
            for a, v in FIELDS.items():
                ctx.ob("R2-version", f"{Q}:{a}", w.get(a) == v, f"{a} of a version is {w.get(a)}", it.fi.loc())
            for a, v in EMPTY.items():
                ctx.ob("R2-version", f"{Q}:{a}", w.get(a) in (f"new_{v}", f"{v}()", "{}" if v == "dict" else "set()"), f"{a} of a new version is {w.get(a)}", it.fi.loc())
            for a in NONES:
                ctx.ob("R2-version", f"{Q}:{a}", w.get(a) == "None", f"{a} of a new version is {w.get(a)}", it.fi.loc())
            ctx.ob("R2-version", f"{Q}:history:ran={ran}", w.get("history") in (("[cell_ctr]",) if ran else ("new_list", "[]")), f"the list of runs of a version starts with {w.get('history')}", it.fi.loc())
            ctx.ob("R2-version", f"{Q}:skipped", w.get("skipped_due_to_memoization_ctr") == "-1" and w.get("_ready") == "False", "a new version starts as skipped or ready", it.fi.loc())
    simple = {"Cell.id": r"self\.cell_id", "Cell.timestamp": r"Timestamp\(self\.cell_ctr, -1\)", "Cell.prev": r"self\.prev_cell", "Cell.exec_counter": r"Cell\._cell_counter", "Cell.next_exec_counter": r"\(?(Cell\._cell_counter \+ 1|1 \+ Cell\._cell_counter|Cell\.exec_counter\(\) \+ 1|1 \+ Cell\.exec_counter\(\))\)?",
              "Cell.at_counter": r"Cell\._cell_by_cell_ctr\[ctr\]", "Cell.from_counter": r"Cell\._cell_by_cell_ctr\[ctr\]|Cell\.at_counter\(ctr\)", "Cell.from_id": r"Cell\._current_cell_by_cell_id\[cell_id\]", "Cell.from_id_nullable": r"Cell\._current_cell_by_cell_id\.get\(cell_id(, None)?\)",
              "Cell.from_tag": r"(set\(|new_set|.*\|)?.*_cells_by_tag\.get\(tag, (set\(\)|new_set)\)\)?", "Cell.from_position": r"Cell\.at_position\(pos\)"}
    for q, want in simple.items():
        if not has(ctx, q):
            continue
        it = ctx.run(q, O(), CALL, onlyraise=set(), opaque={"at_position"})
        every(ctx, "R5-found", q, returns(it), lambda e: re.fullmatch(want, T(e.value)) is not None, "another cell or number is given", lambda e: it.fi.loc(e.node))
    for q, term, pos in (("Cell.is_error", IS(r"self\.error_in_exec", "None"), False), ("Cell.is_memoized", IS(r"self\.memoized_output_level", "None"), False), ("Cell.is_dirty", r"^\(?(self\.current_content == self\.executed_content|self\.executed_content == self\.current_content)\)?$", False),
                         ("Cell.has_id", r"cell_id in Cell\._current_cell_by_cell_id", True), ("Cell.is_current_for_id", r"(self|Cell)\._current_cell_by_cell_id(\.get\(self\.cell_id(, None)?\)|\[self\.cell_id\]) is self|self is (self|Cell)\._current_cell_by_cell_id|from_id(_nullable)?\(self\.cell_id\) is self", True)):
        if not has(ctx, q):
            continue
        table(ctx, "R5-found", q, {"c": term}, lambda c, pos=pos: c is pos, "the answer is the wrong way round or about something else")
    # the cell that is running
    for ov in (True, False):
        it = ctx.run("Cell.current_cell", O().when(r"_override_current_cell$", ov).when(IS(r"(Cell|cls|self)\._override_current_cell", "None"), not ov), CALL, onlyraise=set())
        every(ctx, "R5-found", f"Cell.current_cell:override={ov}", returns(it), lambda e: re.fullmatch(r"\(Cell\._override_current_cell or Cell\.(_cell_by_cell_ctr\[Cell\._cell_counter\]|at_counter\(Cell\.(_cell_counter|exec_counter\(\))\))\)", T(e.value)) is not None or T(e.value) in (("Cell._override_current_cell",) if ov else ("Cell._cell_by_cell_ctr[Cell._cell_counter]", "Cell.at_counter(Cell._cell_counter)", "Cell.at_counter(Cell.exec_counter())")),
              "the current cell is not the one that is set, or not the newest run", lambda e: it.fi.loc(e.node))
    # by position
    it = ctx.run("Cell.at_position", O(), CALL, opaque={"from_id"}, onlyraise=set())
    its = loops_over(it, r"_position_by_cell_id")
    hits = [e for e in returns(it) if e.value is not None and e.value != NONE]
    every(ctx, "R5-found", "Cell.at_position", hits, lambda e: re.search(r"elem\(.*_position_by_cell_id\.items\(\)\)\[0\]|elem\(.*_position_by_cell_id\)", T(e.value)) is not None and any(v and re.search(r"\bpos\b", T(k)) and k[0] == "cmp" for k, v in e.facts.items()),
          "a cell of another position is given", lambda e: it.fi.loc(e.node))
    for q, src, key in (("Cell.iterate_over_notebook_in_counter_order", r"_current_cell_by_cell_id\.values\(\)", "cell_ctr"), ("Cell.iterate_over_notebook_in_position_order", r"_cell_id_by_position", None)):
        it = ctx.run(q, O(), lambda e: CALL(e) or e.kind in ("yield", "yieldfrom"), onlyraise=set(), opaque={"from_id_nullable"})
        ys = [x for e in it.ends if e.kind == "return" for x in e.trace if x.kind in ("yield", "yieldfrom")]
        srt = [x for e in it.ends for x in e.trace if x.is_call("sorted") and re.search(src, T(x.b[0]))]
        ctx.ob("R5-found", q, bool(ys) and bool(srt) and all("reverse" not in dict(x.c or []) for x in srt) and all((key is None or (kw(x, "key") or "").find(key) >= 0 or "lambda" in (kw(x, "key") or "")) for x in srt), "cells are not iterated in that order", it.fi.loc())


def runs(ctx):
    Q = "IPyflowInteractiveShell.before_run_cell"
    F = r"(flow_|flow\(\)|singletons\.flow\(\))"
    for memo, given, active in itertools.product((True, False), (True, False), (True, False)):
        MEM = r"Cell\.get_memoized_content_and_output_level\(cell_content\)"
        o = O().when(IS(MEM + r"\[0\]", "None"), not memo).when(IS("cell_id", "None"), not given).when(IS(rf"{F}\.active_cell_id", "None"), not active).when(r"dataflow_enabled", False).when(r"_saved_debug_message", False)
        o.when(IS(rf"{F}\._saved_debug_message", "None"), True)
        it = ctx.run(Q, o, CALL, onlyraise=set(), opaque={"get_memoized_content_and_output_level", "create_and_track", "test_and_clear_waiter_usage_detected", "next_exec_counter", "test_and_clear_out_of_order_usage_detected_counter"})
        con = f"{Q}:memoized={memo}:id given={given}:active={active}"
        es = ends(it)
        ctx.ob("R6-run", con + ": paths", bool(es), "such a cell does not run", it.fi.loc())
        for e in es:
            cs = [x for x in e.trace if x.is_call("create_and_track")]
            if len(cs) != 1:
                ctx.ob("R6-run", con, False, "a run does not make exactly one version", it.fi.loc(e.node))
                continue
            x = cs[0]
            idx = arg(x, 0, "cell_id") or ""
            ok = idx == "cell_id" or given and re.fullmatch(rf"{F}\.active_cell_id", idx) is not None if given else re.fullmatch(rf"{F}\.active_cell_id", idx) is not None if active else re.search(r"next_exec_counter\(\)|_cell_counter \+ 1", idx) is not None
            ctx.ob("R6-run", con + ": id", ok, f"the run belongs to the cell {idx}", it.fi.loc(x.node))
            if given:
                ctx.ob("R6-run", con + ": active", any(w.kind == "assign" and re.fullmatch(rf"{F}\.active_cell_id", T(w.a)) and T(w.b) == "cell_id" for w in e.trace), "the cell that runs is not the active one", it.fi.loc(x.node))
            ctx.ob("R6-run", con + ": text", arg(x, 1, "content") == "cell_content", "the version is recorded with another text", it.fi.loc(x.node))
            ctx.ob("R6-run", con + ": tags", re.fullmatch(rf"{F}\._tags", arg(x, 2, "tags") or "") is not None, "the version is recorded with other tags", it.fi.loc(x.node))
            ctx.ob("R6-run", con + ": numbers", kw(x, "validate_ipython_counter") == "store_history" and kw(x, "bump_cell_counter") in (None, "True"), "a run gets no number, or it is not compared with that of the prompt", it.fi.loc(x.node))
            ph = kw(x, "placeholder_id") or "False"
            want = False if given else not active
            v = {"True": True, "False": False}.get(ph)
            if v is None:
                m = re.search(rf"{F}\.active_cell_id is None|None is {F}\.active_cell_id|cell_id is None|None is cell_id", ph)
                v = None if m is None else (not given and not active)
            ctx.ob("R6-run", con + ": provisional id", v is want, f"whether the id is provisional is taken from {ph}", it.fi.loc(x.node))
            ctx.ob("R6-run", con + ": output level", re.fullmatch(MEM + r"\[1\]", kw(x, "memoized_output_level") or "") is not None, "the output level of a memoized cell is lost", it.fi.loc(x.node))
            ex = [w for w in e.trace if w.kind == "assign" and T(w.a).endswith(".executed_content") and "create_and_track" in T(w.a)]
            want = MEM + r"\[0\]" if memo else "cell_content"
            ctx.ob("R6-run", con + ": executed text", len(ex) >= 1 and re.fullmatch(want, T(ex[-1].b)) is not None, "the text that runs is not the one that is recorded", it.fi.loc(x.node))
            for a, want in ((r"\.last_executed_content", want), (r"\.last_executed_cell_id", re.escape(idx))):
                ws = [w for w in e.trace if w.kind == "assign" and re.search(F + a + "$", T(w.a))]
                ctx.ob("R6-run", con + f": {a[2:]}", len(ws) == 1 and re.fullmatch(want, T(ws[0].b)) is not None, "what ran last is not recorded", it.fi.loc(x.node))
    # announced cells
    Q = "NotebookFlow._create_untracked_cells_for_content"
    for known in (True, False):
        it = ctx.run(Q, O().when(IS(r"cells\(\)\.from_id_nullable\(elem\(.*?\)(\[0\])?\)", "None"), not known).when(r"has_id", known), CALL, onlyraise=set(), opaque={"create_and_track", "from_id_nullable", "has_id"})
        its = loops_over(it, r"content_by_cell_id")
        ok = bool(its) and all(i.kind != "break" and any(x.is_call("create_and_track") and kw(x, "bump_cell_counter") == "False" and re.search(r"\[0\]$|elem\(content_by_cell_id\)$", arg(x, 0, "cell_id") or "") and re.search(r"\[1\]$|content_by_cell_id\[", arg(x, 1, "content") or "") for x in i.events) is not known
                               and (not known or not any(x.is_call("create_and_track") for x in i.events)) for i in its)
        ctx.ob("R6-announced", f"{Q}:known={known}", ok, "a cell that has not run is not known, or one that is known is announced again", it.fi.loc())


def trees(ctx):
    Q = "Cell.to_ast"
    A, C = r"self\._cached_ast", r"self\.last_ast_content"
    OPQ = {"make_ipython_name", "_rewriter_and_sanitized_content", "override_current_cell"}
    EQ = r"^\(?(self\.last_ast_content == self\.current_content|self\.current_content == self\.last_ast_content)\)?$"
    LEN = r"^\(?(len\(self\.last_ast_content\) == len\(self\.current_content\)|len\(self\.current_content\) == len\(self\.last_ast_content\))\)?$"
    for cached, text in itertools.product((True, False), ("none", "other", "same length", "same")):
        o = O().when(IS("override", "None"), True).when(IS(A, "None"), not cached).when(IS(C, "None"), text == "none").when(EQ, text == "same").when(LEN, text in ("same", "same length"))
        for rw in (True, False):
            o2 = O()
            o2.entries = list(o.entries)
            o2.when(IS(r"self\._rewriter_and_sanitized_content\(.*\)\[0\]", "None"), not rw)
            it = ctx.run(Q, o2, lambda e: CALL(e) or e.kind in ("enter", "exit"), onlyraise=set(), opaque=OPQ)
            con = f"{Q}:cached={cached}:text={text}:rewritten={rw}"
            keep = cached and text == "same"
            es = ends(it)
            ctx.ob("R7-tree", con + ": paths", bool(es), "there is no tree", it.fi.loc())
            for e in es:
                ps = [x for x in e.trace if x.is_call("parse")]
                w = {T(x.a): T(x.b) for x in e.trace if x.kind == "assign"}
                if keep:
                    ctx.ob("R7-tree", con, not ps and T(e.value) == "self._cached_ast", "an unchanged text is parsed again, so that statements lose their identity", it.fi.loc(e.node))
                    continue
                ok = len(ps) == 1 and re.fullmatch(r"self\._rewriter_and_sanitized_content\(.*\)\[1\]", T(ps[0].b[0])) is not None and "parse" in w.get("self._cached_ast", "") and w.get("self.last_ast_content") == "self.current_content" and T(e.value) in ("self._cached_ast", w.get("self._cached_ast"))
                ctx.ob("R7-tree", con, ok, "the tree is not that of the current text", it.fi.loc(e.node))
                vs = [x for x in e.trace if x.is_call("visit")]
                ctx.ob("R7-tree", con + ": registered", len(vs) == (1 if rw else 0) and all(within(e.trace, x, r"override_current_cell") for x in vs), "the nodes of the tree are not registered, or for another cell", it.fi.loc(e.node))
    it = ctx.run(Q, O().when(IS("override", "None"), False), CALL, onlyraise=set(), opaque=OPQ)
    every(ctx, "R7-tree", f"{Q}:given", ends(it), lambda e: T(e.value) in ("override", "self._cached_ast") and any(x.kind == "assign" and T(x.a) == "self._cached_ast" and T(x.b) == "override" for x in e.trace), "a tree that is given is not used", lambda e: it.fi.loc(e.node))


def checks(ctx):
    Q = "Cell._get_live_dead_modified_symbol_refs"
    for live, dead in itertools.product((True, False), repeat=2):
        o = O().when(IS(r"self\.override_live_refs", "None"), not live).when(IS(r"self\.override_dead_refs", "None"), not dead).when(r"^self\.override_live_refs$", live).when(r"^self\.override_dead_refs$", dead)
        it = ctx.run(Q, o, CALL, onlyraise=set(), opaque={"compute_live_dead_symbol_refs", "to_ast", "from_string"})
        con = f"{Q}:reads given={live}:bindings given={dead}"
        es = ends(it)
        ctx.ob("R8-check", con + ": paths", bool(es), "such a cell is not checked", it.fi.loc())
        for e in es:
            cs = [x for x in e.trace if x.is_call("compute_live_dead_symbol_refs")]
            ctx.ob("R8-check", con + ": from", bool(cs) is (not live and not dead), "names that are given are not used instead, or the text is not analysed", it.fi.loc(e.node))
            for x in cs:
                k = kw(x, "include_killed_live") or ""
                ctx.ob("R8-check", con + ": text", T(x.b[0]) == "self.to_ast()" and re.search(r"global_scope$", arg(x, 1, "scope") or "") is not None and re.fullmatch(r"\(?(self\.cell_ctr > 0|0 < self\.cell_ctr|self\.cell_ctr >= 1|1 <= self\.cell_ctr)\)?", k) is not None, "another text is analysed, in another scope", it.fi.loc(x.node))
            v = e.value[1] if e.value[0] == "tuple" else []
            ctx.ob("R8-check", con + ": answer", len(v) == 4, "the answer is incomplete", it.fi.loc(e.node))
            if len(v) != 4:
                continue
            t = [T(x) for x in v]
            if cs:
                ok = all(re.search(rf"compute_live_dead_symbol_refs\(.*\)\[{i}\]$", t[i]) for i in range(3)) and t[3] == "update_liveness_time_versions"
            else:
                ok = ("override_live_refs" in t[0] and "LiveSymbolRef.from_string(elem(" in t[0] if live else t[0] in ("new_set", "set()")) and ("override_dead_refs" in t[1] and "SymbolRef.from_string(elem(" in t[1] if dead else t[1] in ("new_set", "set()")) and t[2] in ("new_set", "set()") and t[3] == "False"
            ctx.ob("R8-check", con + ": names", bool(ok), f"the names are mixed up: {[x[:60] for x in t]}", it.fi.loc(e.node))
    Q = "Cell.check_and_resolve_symbols"
    OPQ = {"_get_live_dead_modified_symbol_refs", "get_live_symbols_and_cells_for_references", "get_symbols_for_references", "get_namespace_symbols", "_typechecks", "add_used_cell_counter", "override_child_cell"}
    R = r"self\._get_live_dead_modified_symbol_refs\(update_liveness_time_versions\)"
    for checked, same, deep in itertools.product((True, False), repeat=3):
        o = O().when(IS(r"self\.last_check_content", "None"), not checked).when(r"^\(?(self\.last_check_content == self\.current_content|self\.current_content == self\.last_check_content)\)?$", checked and same).when(r"\.is_deep$", deep)
        it = ctx.run(Q, o, lambda e: CALL(e) or e.kind in ("enter", "exit", "aug_assign"), onlyraise=set(), opaque=OPQ)
        con = f"{Q}:checked={checked}:same text={same}:deep={deep}"
        es = ends(it)
        ctx.ob("R8-check", con + ": paths", bool(es), "such a cell is not checked", it.fi.loc())
        for e in es:
            ls = [x for x in e.trace if x.is_call("get_live_symbols_and_cells_for_references")]
            ok = len(ls) == 1 and re.fullmatch(R + r"\[0\]", T(ls[0].b[0])) is not None and re.search(r"global_scope$", arg(ls[0], 1, "scope") or "") is not None and arg(ls[0], 2, "cell_ctr") == "self.cell_ctr" and re.fullmatch(R + r"\[3\]", arg(ls[0], 3, "update_liveness_time_versions") or "") is not None
            ctx.ob("R8-check", con + ": reads", ok and within(e.trace, ls[0], r"override_child_cell\(self\)"), "the names the cell reads are not looked up as of that cell", it.fi.loc(e.node))
            gs = [x for x in e.trace if x.is_call("get_symbols_for_references")]
            ctx.ob("R8-check", con + ": bindings", {re.sub(R, "", T(x.b[0])) for x in gs} == {"[1]", "[2]"} and all(re.search(r"global_scope$", T(x.b[1])) for x in gs), "the names the cell binds and changes are not looked up", it.fi.loc(e.node))
            cr = [x for x in e.trace if x.kind == "call" and T(x.a) == "CheckerResult"]
            ctx.ob("R8-check", con + ": answer", len(cr) == 1 and T(e.value).startswith("CheckerResult("), "there is no answer", it.fi.loc(e.node))
            if len(cr) != 1:
                continue
            a = {n: arg(cr[0], i, n) or "" for i, n in enumerate(("live", "unresolved_live_refs", "used_cells", "live_cells", "dead", "modified", "typechecks"))}
            L = r"get_live_symbols_and_cells_for_references\(.*\)"
            ctx.ob("R8-check", con + ": live", re.fullmatch(L + r"\[0\]", a["live"]) is not None and re.fullmatch(L + r"\[1\]", a["live_cells"]) is not None and re.fullmatch(L + r"\[2\]", a["unresolved_live_refs"]) is not None, "what the cell reads is mixed up", it.fi.loc(e.node))
            CN = r"elem\(" + L + r"\[0\]\)\.timestamp\.cell_num"
            added = [i for i in loops_over(it, r"get_live_symbols_and_cells_for_references\(.*\)\[0\]$") if any(x.is_call("add") and T(x.recv) in ("new_set", "set()") for x in i.events)]
            ctx.ob("R8-check", con + ": used cells", re.search(r"setcomp\(" + CN + " for", a["used_cells"]) is not None and " if " not in a["used_cells"]
                   or a["used_cells"] in ("new_set", "set()") and bool(added) and all(i.kind != "break" and [x for x in i.events if x.is_call("add") and T(x.recv) in ("new_set", "set()") and re.fullmatch(CN, T(x.b[0]))] for j in added for i in loops_over(it, r"get_live_symbols_and_cells_for_references\(.*\)\[0\]$") if i.node is j.node), f"the cells that are used are {a['used_cells'][:80]}", it.fi.loc(e.node))
            ctx.ob("R8-check", con + ": type check", a["typechecks"].startswith("self._typechecks("), "the type check is missing", it.fi.loc(e.node))
            sw = not checked or same
            for n, ref in (("dead", r"\[1\]"), ("modified", r"\[2\]")):
                ctx.ob("R8-check", con + f": {n}", re.search(r"get_symbols_for_references\(" + R + ref, a[n]) is not None and ("self.static_writes" in a[n] or any(x.is_call("update") and T(x.b[0]) == "self.static_writes" and re.search(r"get_symbols_for_references\(" + R + ref, T(x.recv)) for x in e.trace)) is sw, f"what the cell binds is {a[n][:100]}", it.fi.loc(e.node))
        its = [i for i in loops_over(it, r"get_live_symbols_and_cells_for_references\(.*\)\[0\]$") if i.kind != "collect"]
        want = "cells_where_deep_live" if deep else "cells_where_shallow_live"
        reg = [i for i in its if any(x.is_call("add") and T(x.b[0]) == "self" for x in i.events)]
        cnt = [i for i in its if any(x.is_call("add_used_cell_counter") for x in i.events)]
        reg, cnt = ([i for i in its if i.node in {j.node for j in k}] for k in (reg, cnt))
        ctx.ob("R8-check", con + ": registered", bool(reg) and all(i.kind != "break" and [T(x.recv).rsplit(".", 1)[-1] for x in i.events if x.is_call("add") and T(x.b[0]) == "self" and re.search(r"^elem\(.*\)\.sym\.", T(x.recv))] == [want] for i in reg), "the cell is not registered with what it reads, or with more than it reads", it.fi.loc())
        ctx.ob("R8-check", con + ": counters", bool(cnt) and all(i.kind != "break" and any(x.is_call("add_used_cell_counter") and T(x.recv) == "self" and re.search(r"^elem\(.*\)\.sym$", T(x.b[0])) and re.search(r"^elem\(.*\)\.timestamp\.cell_num$", T(x.b[1])) for x in i.events) for i in cnt), "which version the cell read is not recorded", it.fi.loc())


def hashed(ctx):
    """cells sit in sets and dictionaries across changes of their id: their hash and equality may only use what never changes"""
    for cls in ("Cell", "Symbol", "Namespace"):
        ci = ctx.ix.classes.get(cls)
        for m in ("__hash__", "__eq__"):
            fi = ci.methods.get(m) if ci else None
            if fi is None:
                continue
            read = {x.attr for x in ast.walk(fi.node) if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == "self"}
            changed = {}
            for k in ctx.ix.funcs.values():
                if k.name == "__init__" and k.qual == f"{cls}.__init__":
                    continue
                for x in ast.walk(k.node):
                    ts = x.targets if isinstance(x, ast.Assign) else [x.target] if isinstance(x, (ast.AugAssign, ast.AnnAssign)) else ()
                    for t in ts:
                        if isinstance(t, ast.Attribute) and t.attr in read and (not isinstance(t.value, ast.Name) or t.value.id not in ("self", "cls") or k.qual.startswith(cls + ".")):
                            changed.setdefault(t.attr, k.qual)
            ctx.ob("R10-hash", f"{cls}.{m}", not changed, f"depends on what changes while it sits in sets: {changed}", fi.loc())


def check(ctx):
    hashed(ctx)
    created_and_tracked(ctx)
    versions(ctx)
    runs(ctx)
    trees(ctx)
    checks(ctx)
