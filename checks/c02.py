from .common import *

TITLE = "Checker answer is internally consistent"
PROP = dict(
    title="Staleness answers are internally consistent",
    statement="In every answer sent to the frontend: no cell is both waiting and ready (or newly ready); a newly ready cell is "
              "ready, was executed before, and its trigger is not older than the current cutoff; in the dependency-graph "
              "schedules every cell with a ready or waiting dependency is itself waiting. The children map is exactly the "
              "inverse of the parents map, waiter links never point at waiting cells, and the ready-maker map is exactly the "
              "inverse of the waiter links. Type-check failures are reported as waiting, and newly ready cells are reported "
              "only when the caller allowed them.",
    over=["histories", "configurations"],
    qtext="every set of cells, every history of executions, every exec schedule / flow order / slicing configuration",
    why_tests_cant="Tests assert membership for specific notebooks; consistency between the sets must hold for every graph, and "
                   "the transitive (fixpoint) part only shows on chains longer than the tests build.",
    files=["core/ipyflow/frontend.py"],
    mechanism=[("_compute_readiness / _check_one_cell", "frontend.py"), ("_compute_dag_based_waiters fixpoint", "frontend.py"),
               ("_compute_waiter_and_ready_maker_links", "frontend.py"), ("to_json", "frontend.py")],
    observe=["compute_exec_schedule comm response", "FrontendCheckerResult"],
)
TECHNIQUE = "path-sensitive dataflow: decision tables over readiness/waiting atoms, must-pass-through and inverse-map rules"
LEVEL_NOTE = ("Decides set-consistency on all abstract paths of the checker; the truth of individual staleness facts "
              "(timestamps) is not decided.")
CR = "FrontendCheckerResult."
DAG = ("DAG_BASED", "HYBRID_DAG_LIVENESS_BASED")


def check(ctx):
    # ---- _compute_readiness
    q = CR + "_compute_readiness"
    none = lambda e: False

    def rets(o):
        it = ctx.run(q, o, none)
        return it, [e for e in it.ends if e.kind == "return"]
    for s in DAG + ("LIVENESS_BASED",):
        it, rs = rets(sched(O(), s).when(r"cell\.cell_id in self\.waiting_cells$", True))
        ctx.ob("R1-waiting-not-ready", f"{q}/{s}", bool(rs) and all(e.value == ("tuple", (FALSE, FALSE)) for e in rs),
               "a waiting cell can be computed ready", it.fi.loc())
        it, rs = rets(sched(O(), s).when(r"cell\.cell_id in self\.waiting_cells$", False))
        vals = {e.value for e in rs}
        okshape = all(v[0] == "tuple" and len(v[1]) == 2 for v in vals)
        if okshape:
            ctx.ob("R1-new-ready-implies-ready", f"{q}/{s}",
                   not any(v[1][1] == TRUE and v[1][0] != TRUE for v in vals), "newly ready without being ready", it.fi.loc())
            ctx.ob("R1-can-be-ready", f"{q}/{s}", any(v[1][0] == TRUE for v in vals), "never ready", it.fi.loc())
            ctx.ob("R1-can-be-new-ready", f"{q}/{s}", any(v[1][1] == TRUE for v in vals), "never newly ready", it.fi.loc())
        # never executed (cell_ctr <= 0): not newly ready
        it, rs = rets(sched(O(), s).when(r"^0 < cell\.cell_ctr$", False))
        ctx.ob("R1-new-ready-needs-execution", f"{q}/{s}",
               not any(e.value[0] == "tuple" and e.value[1][1] == TRUE for e in rs),
               "a never-executed cell can be newly ready", it.fi.loc())
        # trigger older than the cutoff: not newly ready
        it, rs = rets(sched(O(), s).when(r"cell_ctr < flow\(\)\.min_new_ready_cell_counter\(\)$", True)
                      .when(r"< flow\(\)\.min_new_ready_cell_counter\(\)$", True))
        ctx.ob("R1-new-ready-needs-recent-trigger", f"{q}/{s}",
               not any(e.value[0] == "tuple" and e.value[1][1] == TRUE for e in rs),
               "an update older than the cutoff makes a cell newly ready", it.fi.loc())
    # dag: nothing newer among parents -> not ready
    it, rs = rets(sched(O(), "DAG_BASED").when(r"^max\(.*\) < .*cell_ctr$", False).when(r"fake_edge_sym in", False)
                  .when(r"\.cell_ctr in |visible_timestamp\.cell_num == .*\.cell_ctr$", False))
    ctx.ob("R2-dag-ready-needs-newer-parent", q,
           not any(e.value[0] == "tuple" and e.value[1][0] == TRUE for e in rs),
           "cell is ready although no dependency is newer than it", it.fi.loc())
    it, rs = rets(sched(O(), "LIVENESS_BASED").when(r"^max\(.*\) < cell\.get_max_used_live_symbol_cell_counter\(", False))
    ctx.ob("R2-liveness-ready-needs-newer-symbol", q,
           not any(e.value[0] == "tuple" and e.value[1][0] == TRUE for e in rs),
           "cell is ready although no used symbol is newer than it", it.fi.loc())
    it, rs = rets(sched(O(), "LIVENESS_BASED").when(r"in self\.waiting_cells$", False)
                  .when(r"^max\(.*\) < cell\.get_max_used_live_symbol_cell_counter\(", True))
    ctx.ob("R2-liveness-newer-symbol-is-ready", q, bool(rs) and all(e.value[1][0] == TRUE for e in rs),
           "a newer used symbol does not make the cell ready", it.fi.loc())
    # shadowing in the static graph: only strictly later parents hide
    other = r".*from_id\(elem1\(.*directional_parents\)\)\.position"
    par = r".*from_id\(elem\(.*directional_parents\)\)\.position"
    for rel, exp in (("lt", True), ("eq", True)):
        o = sched(O(), "DAG_BASED").enum(FLOW_ORDER, "IN_ORDER").enum(r"slicing_ctx_var\.get\(\)", "STATIC")
        o.order(other, par, rel).when(r"get_latest_parent_by_ts_map\(\) is None", True)
        o.when(r"^max\(.*\) < .*cell_ctr$", True).when(r"pull_reactive_updates$", True)
        o.when(r"in self\.waiting_cells$", False).when(r"fake_edge_sym in", False)
        it = ctx.run(q, o, lambda e: e.kind == "iter")
        # any path on which a parent iteration happened must end ready
        bad = [e for e in it.ends if e.kind == "return" and e.value[0] == "tuple" and e.value[1][0] != TRUE
               and any("directional_parents" in T(ev.a) for ev in e.trace if ev.kind == "iter")]
        ctx.ob("R2-newer-parent-is-ready", f"{q}/{rel}", not bad,
               "a newer dependency that no later parent shadows leaves the cell not ready", it.fi.loc())

    # ---- _check_one_cell
    q = CR + "_check_one_cell"
    ready = lambda e: adds_to(e, r"\.ready_cells$") and not adds_to(e, r"new_ready_cells$")
    newr = lambda e: adds_to(e, r"\.new_ready_cells$")
    R = r"_compute_readiness\(cell, .*\)\[0\]$"
    N = r"_compute_readiness\(cell, .*\)\[1\]$"
    kw = dict(where=lambda e: e.value != NONE)
    ctx.always("R3-ready-recorded", q, ready, O().when(R, True), why="a ready cell is not recorded", **kw)
    ctx.never("R3-not-ready-not-recorded", q, ready, O().when(R, False), why="a cell that is not ready is recorded ready")
    ctx.never("R3-new-ready-needs-ready", q, newr, O().when(R, False).when(N, False),
              why="newly ready although neither ready nor newly ready")
    ctx.never("R3-still-ready-not-new", q, newr, O().when(N, False).when(r"^cell\.set_ready\(", True),
              why="a cell that was already ready is reported newly ready")
    ctx.never("R3-new-ready-needs-execution", q, newr, O().when(N, False).when(r"^0 < cell\.cell_ctr$", False),
              why="a never-executed cell is reported newly ready")
    ctx.always("R3-ready-flag-stored", q,
               lambda e: call_on(e, r"^cell$", "set_ready") and e.b and re.search(R, T(e.b[0])),
               None, why="the cell's ready flag is not updated with the computed readiness", **kw)
    # waiting is decided before readiness
    it = ctx.run(q, O().when(r"check_and_resolve_symbols\(.*\)\.typechecks$", False),
                 lambda e: adds_to(e, r"\.(waiting_cells|typecheck_error_cells)$") or e.is_call("_compute_readiness"))
    bad = None
    for e in it.ends:
        seen = False
        for ev in e.trace:
            if ev.is_call("_compute_readiness"):
                seen = True
            elif seen:
                bad = ev
    ctx.ob("R3-waiting-before-readiness", q, bad is None, "waiting status changes after readiness was computed",
           bad.loc() if bad else "")
    ctx.always("R3-typecheck-errors-recorded", q, lambda e: adds_to(e, r"\.typecheck_error_cells$"),
               O().when(r"check_and_resolve_symbols\(.*\)\.typechecks$", False), why="type-check failure dropped", **kw)
    ctx.never("R3-typecheck-errors-recorded", q, lambda e: adds_to(e, r"\.typecheck_error_cells$"),
              O().when(r"check_and_resolve_symbols\(.*\)\.typechecks$", True), why="clean cell flagged")
    waits = lambda e: adds_to(e, r"\.waiting_cells$")
    ctx.always("R3-unresolved-refs-wait", q, waits,
               sched(O(), "LIVENESS_BASED").when(r"\.unresolved_live_refs$", True), why="unresolved reference does not wait", **kw)
    ctx.each_iter("R3-dead-symbols-kill", q, r"\.dead$",
                  lambda e: adds_to(e, r"killing_cell_ids_for_symbol\["), None, why="overwritten symbol not recorded as killed")

    # ---- dag waiters
    q = CR + "_compute_dag_based_waiters"
    for s in DAG:
        o = sched(O(), s)
        # every non-waiting cell with a ready/waiting directional parent becomes waiting
        P = r"directional_parents(\.keys\(\))? & \(?self\.(ready|waiting)_cells"
        inter = r"(directional_parents.*&.*(ready_cells|waiting_cells))|(&.*directional_parents)"
        # (as one test of the whole set, or of each of its members)
        member = r"^elem\d?\(.*directional_parents\) in .*self\.(ready|waiting)_cells"
        o1 = sched(O(), s).when(member, True).when(r"in self\.waiting_cells$", False).when(inter, True)
        it = ctx.run(q, o1, lambda e: waits(e) or e.kind == "iter", nonempty=r"directional_parents$")
        its = [i for i in it.iterations if i.iter is not None and "iter_slicing_contexts" in T(i.iter) and i.fn.name == it.fi.name]
        ctx.ob("R4-dag-waiters", f"{q}/{s}", bool(its) and all(any(waits(e) for e in i.events) for i in its),
               "a cell depending on a ready/waiting cell is not made waiting", it.fi.loc())
        o2 = sched(O(), s).when(inter, False).when(member, False)
        ctx.never("R4-dag-waiters-only-dependents", q, waits, o2, construct=f"{q}/{s}",
                  why="a cell without ready/waiting dependency is made waiting")
        # both ready and waiting sets are consulted
        it = ctx.run(q, sched(O(), s), lambda e: e.kind == "iter")
        atoms = set()
        for e in it.ends:
            for a in e.facts:
                atoms.update(atexts(a))
        for i in it.iterations:
            for a in i.state.facts:
                atoms.update(atexts(a))
        txt = " ".join(a for a in atoms if "directional_parents" in a)
        ctx.ob("R4-dag-waiters-consult-both", f"{q}/{s}", "ready_cells" in txt and "waiting_cells" in txt,
               "dependency test ignores ready or waiting cells", it.fi.loc())
        # repeated until stable: the loop is only left when the waiting set did not change
        chg = O().fn(lambda atom, st: False if (atom[0] == "cmp" and atom[1] == "==" and "waiting_cells" in T(atom[2])
                                                and True) or (atom[0] == "cmp" and atom[1] == "==" and "waiting_cells" in T(atom[3])) else None)
        # removal from ready / new_ready and flag reset on every completing path
        for tgt in ("ready_cells", "new_ready_cells"):
            def rm(e, tgt=tgt):
                if not re.search(r"\." + tgt + "$", T(e.a[1]) if e.kind == "call" and e.recv is not None else T(e.a) if e.kind in ("aug", "assign") else ""):
                    return False
                if e.kind == "call" and e.a[2] in ("difference_update",):
                    return "waiting_cells" in " ".join(T(x) for x in e.b)
                if e.kind == "aug":
                    return T(e.b) == "'-'" and "waiting_cells" in T(e.c)
                if e.kind == "assign":
                    return "waiting_cells" in T(e.b)
                if e.kind == "call" and e.a[2] in ("discard", "remove"):
                    return any("waiting_cells" in T(x) for x in e.b)
                return False
            it = ctx.run(q, sched(O(), s), lambda e: rm(e) or waits(e) or e.kind == "iter")
            ok = True
            for e in it.ends:
                if e.kind != "return":
                    continue
                loopmode = [ev for ev in e.trace if ev.kind == "iter" and "waiting_cells" in T(ev.a)]
                if not any(rm(ev) for ev in e.trace) and not any(rm(ev) for x in it.ends for ev in x.trace if ev.kind == "call" and ev.a[2] in ("discard", "remove")):
                    ok = False
                # nothing becomes waiting after the removal
                seen = False
                for ev in e.trace:
                    if rm(ev):
                        seen = True
                    elif seen and waits(ev):
                        ok = False
            ctx.ob("R4-waiting-removed-from-" + tgt, f"{q}/{s}", ok and bool(it.ends),
                   f"waiting cells stay in {tgt}", it.fi.loc())
        ctx.each_iter("R4-waiting-flag-cleared", q, r"^self\.waiting_cells$",
                      lambda e: e.is_call("set_ready") and e.b and e.b[0] == FALSE, sched(O(), s), construct=f"{q}/{s}",
                      why="a waiting cell keeps its ready flag")
    ctx.never("R4-liveness-no-dag-waiters", q, waits, sched(O(), "LIVENESS_BASED"), why="dag waiters under liveness schedule")
    # fixpoint: the loop may only be left after an iteration that added no waiting cell
    def changed(atom, st):
        if atom[0] == "cmp" and atom[1] == "==" and ("waiting_cells" in T(atom[2]) or "waiting_cells" in T(atom[3])):
            return False
        if atom[0] == "cmp" and atom[1] == "<" and "waiting_cells" in T(atom[2]) and "waiting_cells" in T(atom[3]):
            return "prev" not in T(atom[2]) and None
        return None
    for s in DAG:
        it = ctx.run(q, sched(O(), s).fn(changed), lambda e: waits(e) or e.kind == "while")
        loops = [i for i in it.iterations if isinstance(i.node, ast.While)]
        ctx.ob("R4-fixpoint", f"{q}/{s}", bool(loops) and any(waits(e) for i in loops for e in i.events),
               "transitive waiting is not iterated to a fixpoint", it.fi.loc())
        bad = None
        for e in it.ends:
            if e.kind != "return":
                continue
            last = max((k for k, ev in enumerate(e.trace) if ev.kind == "while"), default=None)
            if last is not None and any(waits(ev) for ev in e.trace[last:]):
                bad = e
        ctx.ob("R4-fixpoint-exit", f"{q}/{s}", bad is None,
               "the transitive-waiting loop is left although its last pass still added a waiting cell", it.fi.loc())

    # ---- links
    q = CR + "_compute_waiter_and_ready_maker_links"
    it = ctx.run(q, None, lambda e: e.kind in ("aug", "setitem", "aug_setitem", "call", "iter", "assign"))
    fin = lambda e: (e.kind == "aug" and "waiter_links" in T(e.a) and T(e.b) == "'-'" and "waiting_cells" in T(e.c)) or (
        e.is_call("difference_update") and "waiter_links" in T(e.recv) and "waiting_cells" in " ".join(map(T, e.b))) or (
        e.kind == "setitem" and re.search(r"waiter_links$", T(e.a)) and re.search(r" - self\.waiting_cells", T(e.c)))
    ctx.each_iter("R5-waiter-links-exclude-waiting", q, r"^self\.waiting_cells$", fin, None,
                  why="waiter links keep waiting cells")
    # transitive closure through waiting makers, until nothing changes
    def taken(e):
        src = e.c if e.kind == "aug" and T(e.b) == "'|'" else (
            ("tuple", e.b) if e.is_call("update", "union", "add", "extend") and e.recv is not None and e.b else
            e.c if e.kind == "setitem" else e.b if e.kind == "assign" else None)
        return src is not None and isinstance(src, tuple) and re.search(
            r"waiter_links(\.get\(|\[)elem\(self\.waiter_links(\.get\(|\[)", T(src)) is not None
    o = O().fn(lambda atom, st: True if atom[0] == "cmp" and atom[1] == "in" and T(atom[3]) == "self.waiting_cells" else None)
    it2 = ctx.run(q, o, lambda e: taken(e) or e.kind == "while" or e.kind == "iter")
    loops = [i for i in it2.iterations if isinstance(i.node, ast.While)]
    ctx.ob("R5-transitive-links", q, bool(loops) and any(taken(e) for i in loops for e in i.events),
           "links through a waiting cell are not followed transitively", it2.fi.loc())
    rml = lambda e: adds_to(e, r"\.ready_maker_links\[") or (e.is_call("add") and "ready_maker_links" in T(e.recv))
    its = [i for i in it.iterations if i.iter is not None and any(rml(e) for e in i.events)]
    inner = [i for i in its if "waiter_links" in T(i.iter)]
    ok = bool(inner)
    for i in inner:
        for e in i.events:
            if rml(e):
                key, val = T(e.recv), T(e.b[0])
                ok &= "waiter_links" in key and val == "elem(self.waiting_cells)"
    ctx.ob("R5-ready-maker-inverse", q, ok, "ready-maker links are not the inverse of the waiter links", it.fi.loc())
    # inverse built after waiting cells were subtracted
    bad = None
    for e in it.ends:
        seen_inv = False
        for ev in e.trace:
            if rml(ev):
                seen_inv = True
        # within the final loop: subtraction precedes the inverse
    for i in it.iterations:
        if i.iter is not None and T(i.iter) == "self.waiting_cells" and any(rml(e) for e in i.events):
            idx_inv = min(k for k, e in enumerate(i.events) if rml(e))
            if not any(fin(e) for e in i.events[:idx_inv]) and not any(fin(e) for x in it.ends for e in x.trace[:0]):
                pre = i.state.trace[:i.entry_len]
                if not any(fin(e) for e in pre):
                    bad = i
    ctx.ob("R5-subtract-before-inverse", q, bad is None, "inverse links built from unsubtracted waiter links", it.fi.loc())
    q = CR + "_compute_ready_making_cells"
    it = ctx.run(q, O().when(r"^last_executed_cell_id is None$", False), lambda e: e.kind in ("call", "setitem", "aug", "collect"))
    ok = True
    n = 0
    for e in it.ends:
        for k, ev in enumerate(e.trace):
            if sets_item(ev, r"\.waiter_links$"):
                n += 1
                if not any(x.is_call("discard", "remove") and x.b and T(x.b[0]) == "last_executed_cell_id" for x in e.trace[:k]) \
                        and "last_executed_cell_id" not in T(ev.c):
                    ok = False
    if n:
        ctx.ob("R5-last-executed-not-a-maker", q, ok, "the cell just executed is linked as a ready maker", it.fi.loc())

    # ---- parents / children inverse
    q = CR + "_compute_filtered_parents"
    it = ctx.run(q, None, lambda e: "cell_children" in T(e.a))
    chl = lambda e: e.is_call("add", "setdefault", "append") and "cell_children" in T(e.recv) or sets_item(e, r"\.cell_children")
    ok = False
    for i in it.iterations:
        if i.iter is None or "cell_parents" not in T(i.iter):
            continue
        for e in i.events:
            if e.is_call("add") and "cell_children" in T(e.recv):
                key, val = T(e.recv), T(e.b[0])
                ok = True
                if not (re.search(r"elem\(self\.cell_parents\[elem\(self\.cell_parents\)\]\)|elem\(.*cell_parents.*\)", key)
                        and val == "elem(self.cell_parents)"):
                    ctx.ob("R6-children-inverse", q, False, f"children[{key}] gets {val}", e.loc())
    ctx.ob("R6-children-inverse", q, ok, "children map is not derived from the parents map", it.fi.loc())
    ctx.each_iter("R6-every-cell-has-children-entry", q, r"^cells_to_check$",
                  lambda e: chl(e), None, why="a checked cell has no entry in the children map")
    ctx.each_iter("R6-every-cell-has-parents-entry", q, r"^cells_to_check$",
                  lambda e: sets_item(e, r"\.cell_parents$"), None, why="a checked cell has no entry in the parents map")

    # ---- to_json
    q = CR + "to_json"
    for allow, exp in ((True, True), (False, False)):
        it = ctx.run(q, O().when(r"^self\.allow_new_ready$", allow), lambda e: e.kind in ("collect", "setitem"))
        for e in it.ends:
            if e.kind != "return":
                continue
            items = {}
            v = e.value
            if v[0] == "dict":
                items = {k[2]: val for k, val in v[1] if k is not None and is_const(k)}
            for ev in e.trace:
                if ev.kind == "setitem" and ev.a == v and is_const(ev.b):
                    items[ev.b[2]] = ev.c
            nr = items.get("new_ready_cells")
            ctx.ob("R7-allow-new-ready", f"{q}/{allow}", nr is not None and may_contain(nr, e.trace) == exp,
                   "new-ready cells do not follow the caller's permission", it.fi.loc())
            w = T(items.get("waiting_cells", NONE))
            ctx.ob("R7-waiting-includes-typecheck", q, "self.waiting_cells" in w and "self.typecheck_error_cells" in w,
                   "type-check failures are not reported as waiting", it.fi.loc())
            # every reported field is filled from the field of the same name
            ci = ctx.ix.cls("FrontendCheckerResult")
            for name, val in items.items():
                if name in ci.attrs:
                    ctx.ob("R7-field-agreement", f"{q}/{name}", f"self.{name}" in T(val) or (name == "new_ready_cells" and not allow),
                           f"reported field {name} is filled from {T(val)[:80]}", it.fi.loc())
            expected = [a for a in ci.attrs if a not in ("typecheck_error_cells", "phantom_cell_info", "allow_new_ready")]
            for a in expected:
                ctx.ob("R7-all-fields-reported", f"{q}/{a}", a in items, f"{a} is computed but not reported", it.fi.loc())

    # ---- driver: all phases, in the order the later ones rely on
    q = CR + "compute_frontend_checker_result"
    order = ["_check_one_cell", "_compute_dag_based_waiters", "_compute_ready_making_cells",
             "_compute_waiter_and_ready_maker_links"]
    it = ctx.run(q, None, lambda e: e.is_call(*order, "_compute_filtered_parents", "_compute_reactive_cells_for_reactive_symbols"))
    for e in it.ends:
        if e.kind != "return":
            continue
        names = [ev.a[2] for ev in e.trace]
        for m in order[1:] + ["_compute_filtered_parents"]:
            ctx.ob("R8-phases-run", f"{q}/{m}", m in names, f"phase {m} is skipped on a path", it.fi.loc())
        pos = [max([i for i, n in enumerate(names) if n == m], default=-1) for m in order]
        pos = [p for p in pos if p >= 0]
        ctx.ob("R8-phase-order", q, pos == sorted(pos), f"phases run out of order: {names}", it.fi.loc())
    it = ctx.run(q, None, lambda e: e.is_call("_check_one_cell"))
    its = [i for i in it.iterations if i.iter is not None and any(e.is_call("_check_one_cell") for e in i.events)]
    ctx.ob("R8-all-cells-checked", q, bool(its) and all(any(e.is_call("_check_one_cell") for e in i.events)
                                                        for i in it.iterations if i.node is its[0].node) and
           all(i.kind == "next" for i in it.iterations if i.node is its[0].node),
           "some cell is not checked", it.fi.loc())
    # reactive forcing requires a newer reactive symbol
    q = CR + "_compute_reactive_cells_for_reactive_symbols"
    for which, filt in (("forced_reactive_cells", "filter_to_reactive"), ("forced_cascading_reactive_cells", "filter_to_cascading_reactive")):
        ev = lambda e: adds_to(e, r"\." + which + "$")
        pat = r"^max\(.*\) < .*get_max_used_live_symbol_cell_counter\(.*" + filt
        ctx.never("R9-forced-needs-newer", q, ev, O().when(pat, False), construct=which,
                  why="forced although no newer (cascading) reactive symbol is used")
        ctx.each_iter("R9-forced-when-newer", q, r"^self\.ready_cells$", ev,
                      any_order().when(pat, True).when(r" in checker_results_by_cid$", True), construct=which,
                      why="a newer (cascading) reactive symbol does not force the cell")
