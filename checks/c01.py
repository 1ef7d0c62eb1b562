from .common import *

TITLE = "In-order semantics never point backwards"
PROP = dict(
    title="In-order semantics: staleness, readiness and edges never point backwards",
    statement="When the notebook uses in-order flow, a cell is never made waiting, ready, newly ready, reactive, or linked as "
              "somebody's dependency because of a cell positioned after it, and a usage whose latest update sits in a later "
              "cell is reported as out of order. Directional dependencies shown for a cell are exactly its recorded "
              "dependencies from strictly earlier positions (and dependents strictly later ones). When the notebook uses "
              "any-order flow none of these position filters apply.",
    over=["histories", "configurations", "schedules"],
    qtext="every notebook layout, every execution/edit/move history, every exec schedule and slicing configuration",
    why_tests_cant="Tests run a few fixed notebooks with fixed cell positions; the guarantee ranges over all layouts and orders "
                   "of execution, and each position comparison is at most exercised on one side.",
    files=["core/ipyflow/frontend.py", "core/ipyflow/data_model/cell.py", "core/ipyflow/data_model/symbol.py",
           "core/ipyflow/analysis/live_refs.py"],
    mechanism=[("directional_parents / directional_children filters", "data_model/cell.py"),
               ("new-ready suppression for cells at or before the last executed one", "frontend.py _check_one_cell"),
               ("ready-making filter by position", "frontend.py _compute_ready_making_cells"),
               ("waiting-at-position test", "data_model/symbol.py"),
               ("used-symbol counter position test", "data_model/cell.py")],
    observe=["compute_exec_schedule comm response", "Cell.directional_parents", "unsafe_order_cells"],
)
TECHNIQUE = "path-sensitive dataflow over the AST: decision tables on canonical position/flow-order atoms"
LEVEL_NOTE = ("Decides, for every path of the named functions, which orderings of cell positions allow the suggestion/edge; "
              "does not decide that the recorded dependencies themselves are right.")

CR = "FrontendCheckerResult."


def check(ctx):
    # 1. directional parents/children
    for prop, sign in (("Cell.directional_parents", {"lt": False, "eq": False, "gt": True}),
                       ("Cell.directional_children", {"lt": True, "eq": False, "gt": False})):
        for rel, exp in sign.items():
            o = in_order().order(r"self\.position", r".*from_id\(.*\)\.position", rel)
            filtered_return(ctx, "R1-directional-filter", prop, o, exp,
                            f"with self {rel} other the neighbour is {'dropped' if exp else 'kept'}")
        o = any_order().order(r"self\.position", r".*from_id\(.*\)\.position", "eq")
        filtered_return(ctx, "R1-directional-any-order", prop, o, True, "any-order drops neighbours")

    # 2. _check_one_cell: not newly ready at/before last executed
    newready = lambda e: adds_to(e, r"\.new_ready_cells$")
    P, L = r"cell\.position", r"last_executed_cell_pos"
    fn = ctx.F(CR + "_check_one_cell")
    for rel in ("lt", "eq"):
        o = in_order().order(P, L, rel).when(r"^last_executed_cell_pos is None$", False)
        ctx.never("R2-new-ready-after-last-executed", CR + "_check_one_cell", newready, o,
                  why=f"cell positioned {rel} last executed becomes newly ready")
    o = in_order().order(P, L, "gt").when(r"^last_executed_cell_pos is None$", False)
    ctx.may("R2-new-ready-later-cell", CR + "_check_one_cell", newready, o, why="later cell never newly ready")
    ctx.may("R2-new-ready-any-order", CR + "_check_one_cell", newready, any_order().order(P, L, "lt"),
            why="any-order flow never newly ready")

    # 3. unsafe order reported exactly for strictly later updates
    unsafe = lambda e: adds_to(e, r"\.unsafe_order_cells\[")
    U = r".*at_timestamp\(elem\(.*\)\.timestamp\)\.position"

    def live(o):
        return o.when(r"^elem\(.*\.live\)\.is_deep$", True).when(r"\.timestamp\.is_initialized$", True)
    for rel, exp in (("gt", True), ("eq", False), ("lt", False)):
        o = live(in_order().order(U, P, rel))
        if exp:
            ctx.each_iter("R3-unsafe-order-reported", CR + "_check_one_cell", r"\.live$", unsafe, o,
                          why="deep usage updated by a later cell not reported", kinds=("next", "break"))
        else:
            ctx.never("R3-unsafe-order-reported", CR + "_check_one_cell", unsafe, o,
                      why="usage updated by an earlier/same cell reported as out of order")
    ctx.never("R3-unsafe-any-order", CR + "_check_one_cell", unsafe, live(any_order()),
              why="any-order flow reports out-of-order usages")

    # 4. ready makers precede the waiting cell
    wl = lambda e: e.kind in ("setitem", "collect", "call", "aug")
    A, W = r".*from_id\(elem.*\)\.position", r".*from_id\(elem\(self\.waiting_cells\)\)\.position"
    for rel, exp in (("lt", True), ("eq", False), ("gt", False)):
        for s in ("DAG_BASED", "LIVENESS_BASED"):
            def f(atom, st, rel=rel):
                # maker position vs waiting-cell position; both are cells().from_id(..).position
                if atom[0] != "cmp" or atom[1] not in ("<", "=="):
                    return None
                l, r = T(atom[2]), T(atom[3])
                if not (l.endswith(".position") and r.endswith(".position")):
                    return None
                lw, rw = re.fullmatch(W, l) is not None, re.fullmatch(W, r) is not None
                if lw == rw:
                    return None
                if atom[1] == "==":
                    return rel == "eq"
                return rel == ("lt" if rw else "gt")
            o = sched(in_order().fn(f), s)
            it = ctx.run(CR + "_compute_ready_making_cells", o, wl)
            bad = None
            n = 0
            some = False
            for e in it.ends:
                for ev in e.trace:
                    if sets_item(ev, r"\.waiter_links$"):
                        n += 1
                        mc = may_contain(ev.c, e.trace)
                        some |= mc
                        if mc:
                            bad = ev
            if n == 0:
                ctx.ob("R4-ready-makers-before", it.fi.qual, False, "waiter links are never recorded", it.fi.loc())
            elif exp:
                ctx.ob("R4-ready-makers-before", it.fi.qual, some, "earlier ready-making cells dropped", it.fi.loc())
            else:
                ctx.ob("R4-ready-makers-before", it.fi.qual, bad is None,
                       f"a cell positioned {rel} the waiting cell is linked as its ready maker", bad.loc() if bad else "")

    # 5. reactive suppression before the last executed cell
    forced = lambda e: adds_to(e, r"\.forced_(cascading_)?reactive_cells$")
    C5 = r".*from_id\(elem.*\)\.position"
    o = in_order().order(C5, L, "lt")
    ctx.never("R5-reactive-not-backwards", CR + "_compute_reactive_cells_for_reactive_symbols", forced, o,
              why="cell before the last executed one forced reactive")
    for oo, w in ((in_order().order(C5, L, "gt"), "later cell"), (any_order().order(C5, L, "lt"), "any-order cell")):
        for which in ("forced_reactive_cells", "forced_cascading_reactive_cells"):
            ctx.may("R5-reactive-forward", CR + "_compute_reactive_cells_for_reactive_symbols",
                    lambda e: adds_to(e, r"\." + which + "$"), oo, construct=which, why=f"{w} never forced reactive")

    # 6. stale parents only in in-order + DAG
    stale = lambda e: adds_to(e, r"\.stale_parents(_by_\w+)?(\[|\.|$)") or (
        e.is_call("setdefault") and "stale_parents" in T(e.a))
    for f in ("_compute_stale_parents", "_compute_stale_parent_makers"):
        ctx.never("R6-stale-parents-in-order-only", CR + f, stale, sched(any_order(), "DAG_BASED"),
                  why="stale parents computed in any-order flow")
        ctx.never("R6-stale-parents-dag-only", CR + f, stale, sched(in_order(), "LIVENESS_BASED"),
                  why="stale parents computed for the liveness schedule")
        for s in ("DAG_BASED", "HYBRID_DAG_LIVENESS_BASED"):
            ctx.may("R6-stale-parents-computed", CR + f, stale, sched(in_order(), s), why=f"never computed under {s}")

    # 7. shadowed static parents: a later parent providing all the symbols hides the earlier one
    for f, ev in (("_compute_filtered_parents", lambda e: sets_item(e, r"\.cell_parents$")),):
        it = ctx.F(CR + f)

    # 8. used-symbol counters: only symbols used at or before this position count
    q = "Cell.get_max_used_live_symbol_cell_counter"
    U8 = r".*at_timestamp\(.*\.timestamp\.cell_num\)\.position"
    base = lambda: in_order(O().when(r"is_blocking$", False).when(r"^filter_to_", False)
                            .when(r" in self\._used_cell_counters_by_live_symbol", True)
                            .enum(SCHED, "LIVENESS_BASED"))
    for rel, exp in (("lt", False), ("eq", True), ("gt", True)):
        it = ctx.run(q, base().order(r"self\.position", U8, rel), lambda e: False)
        vals = [e.value for e in it.ends if e.kind == "return"]
        has = any(re.search(r"elem\(live_symbols\)\.timestamp\.cell_num", T(v)) for v in vals)
        if not vals:
            ctx.ob("R8-used-counter-position", q, False, "no value returned", it.fi.loc())
        else:
            ctx.ob("R8-used-counter-position", q, has == exp,
                   f"this cell {rel} the update: counted={has}, expected {exp}", it.fi.loc())
    # the scan happens under the flow-order specific position index
    it = ctx.run(q, base(), lambda e: e.kind in ("enter", "exit") or (e.kind == "getitem"))
    ok = all(any(ev.kind == "enter" and "_override_position_index_for_current_flow_semantics" in T(ev.a) for ev in e.trace)
             for e in it.ends if e.kind == "return")
    ctx.ob("R8-position-index", q, ok, "positions compared without the flow-order specific index", it.fi.loc())
    q2 = "Cell._override_position_index_for_current_flow_semantics"
    clears = lambda e: e.is_call("set_cell_positions") and e.b and not may_contain(e.b[0], ())
    ctx.may("R8-any-order-clears-positions", q2, clears, any_order(), why="any-order flow keeps the position filter")
    ctx.never("R8-in-order-keeps-positions", q2, clears, in_order(), why="in-order flow drops the position index")

    # 9. waiting-at-position
    q = "Symbol._is_ready_or_waiting_at_position_impl"
    DEP = r".*at_timestamp\(elem\(self\.parents\[.*\]\)\)\.position"
    UPD = r".*at_timestamp\(elem\(.*updated_timestamps\)\)\.position"

    def w(o):
        return o.when(r"^deep$", False).when(r"^elem\(self\.parents\[.*\.cell_num < .*\.cell_num$", True)

    def ret_true(it):
        return [e for e in it.ends if e.kind == "return" and e.value == TRUE]
    for rel, exp in (("gt", False), ("eq", True), ("lt", True)):
        it = ctx.run(q, w(O().order(DEP, r"pos", rel).order(UPD, DEP, "lt")), lambda e: False)
        got = bool(ret_true(it))
        ctx.ob("R9-waiting-dep-position", q, got == exp, f"dependency introduced {rel} this position: waiting={got}", it.fi.loc())
    for rel, exp in (("gt", False), ("eq", True), ("lt", True)):
        it = ctx.run(q, w(O().order(DEP, r"pos", "lt").order(UPD, DEP, rel)), lambda e: False)
        got = bool(ret_true(it))
        ctx.ob("R9-waiting-update-position", q, got == exp, f"parent updated {rel} the dependency: waiting={got}", it.fi.loc())
    # not waiting when nothing newer and parent not waiting
    it = ctx.run(q, O().when(r"^deep$", False).order(DEP, r"pos", "lt").order(UPD, DEP, "lt")
                 .when(r"^elem\(self\.parents\[.*\.cell_num < .*\.cell_num$", False)
                 .when(r"is_waiting_at_position\(", False), lambda e: False)
    ctx.ob("R9-waiting-needs-newer-parent", q, not ret_true(it), "waiting although no parent is newer or waiting", it.fi.loc())
    it = ctx.run("Symbol.is_waiting_at_position", any_order().when(r"^deep$", True).when(r"^self\.is_waiting$", True),
                 lambda e: False)
    ctx.ob("R9-any-order-waiting", "Symbol.is_waiting_at_position",
           all(e.value == TRUE for e in it.ends if e.kind == "return"),
           "any-order flow filters waiting by position", it.fi.loc())
    it = ctx.run("Symbol.is_waiting_at_position", in_order().when(r"^deep$", True).when(r"^self\.is_waiting$", True),
                 lambda e: e.is_call("_is_ready_or_waiting_at_position_impl"))
    ctx.ob("R9-in-order-waiting", "Symbol.is_waiting_at_position",
           not any(e.value == TRUE for e in it.ends if e.kind == "return"),
           "in-order flow marks waiting without consulting positions", it.fi.loc())
    # 10. liveness checker passes this cell's position
    it = ctx.run(CR + "_check_one_cell", sched(in_order(), "LIVENESS_BASED"), lambda e: e.is_call("is_waiting_at_position"))
    evs = [e for e in it.allevents.values() if e.is_call("is_waiting_at_position")]
    ctx.ob("R10-waiting-symbols-at-own-position", it.fi.qual,
           bool(evs) and all(len(e.b) >= 1 and T(e.b[0]) == "cell.position" for e in evs),
           "waiting symbols not evaluated at the cell's own position", it.fi.loc())

    # 11. latest-parent map picks the parent with the largest position
    q = "Cell.get_latest_parent_by_ts_map"
    PP = r".*from_id\(elem\(.*\)\)\.position"
    CUR = r".*\.get\(.*\)\.position|.*\[.*shallow_timestamp\]\.position"
    there = lambda o: o.when(r"\.get\(.*shallow_timestamp.*\) is None$", False).when(r"shallow_timestamp in ", True)
    setp = lambda e: e.kind == "setitem"
    ctx.never("R11-latest-parent", q, setp, there(in_order().order(PP, CUR, "lt")), why="an earlier parent replaces a later one")
    ctx.may("R11-latest-parent", q, setp, there(in_order().order(PP, CUR, "gt")), why="a later parent never wins")
    it = ctx.run(q, any_order(), lambda e: False)
    ctx.ob("R11-latest-parent-any-order", q, all(e.value == NONE for e in it.ends if e.kind == "return"),
           "any-order flow restricts parents by position", it.fi.loc())

    # 12. shadowing: only parents positioned after the candidate may hide it; only static + in order
    for f, sel in (("_compute_filtered_parents", lambda e: e.is_call("add") and e.b and re.search(r"directional_parents", T(e.b[0])) is not None and e.recv is not None and (e.recv[0] == "new" or "parents" in T(e.recv))),):
        other = r".*from_id\(elem1\(.*directional_parents\)\)\.position"
        par = r".*from_id\(elem\(.*directional_parents\)\)\.position"

        def ob(rel, flow_o, ctxv):
            o = O().enum(FLOW_ORDER, flow_o).enum(r"slicing_ctx_var\.get\(\)", ctxv).order(other, par, rel)
            o.when(r"fake_edge_sym in elem|fake_edge_sym in .*\[elem1|fake_edge_sym in .*elem1", True)
            o.when(r" <= ", True)
            o.when(r"get_latest_parent_by_ts_map\(\) is None", True)
            return o
        # when the other parent is not later, candidate must survive: every iteration that reaches the shadow test adds it
        for rel in ("lt", "eq"):
            it = ctx.run(CR + f, ob(rel, "IN_ORDER", "STATIC"), lambda e: sel(e) or e.kind == "iter")
            its = [i for i in it.iterations if i.iter is not None and "directional_parents" in T(i.iter)
                   and any(e.kind == "iter" and e is not i.events[0] and re.search(r"directional_parents(\.items\(\)|\.keys\(\))?$", T(strip_iter(e.a))) for e in i.events if i.events)]
            outer = [i for i in its if i.kind == "next"]
            if not outer:
                ctx.notes.append(f"R12 {rel}: no shadow test found")
            else:
                ok = all(any(sel(e) for e in i.events) for i in outer)
                ctx.ob("R12-shadowing-only-by-later", CR + f, ok,
                       f"a parent positioned {rel} the candidate hides it", it.fi.loc())
    ctx.nonvacuous("R1", len(ctx.obligations), 30)
