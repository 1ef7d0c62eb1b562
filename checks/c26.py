from .common import *

TITLE = "Update propagation"
PROP = dict(
    title="An update makes everything that depends on the changed value stale",
    statement="Whenever a value is rebound to something different, mutated or deleted, every recorded dependent of it, of anything that contains it and (when its "
              "contents change) of anything it contains becomes stale, through every alias and any chain of dependents; the updated values themselves "
              "stop being stale. Only values the same statement or cell updates, values whose warnings are disabled, the update's own inputs, imports, and "
              "instances of a class that itself did not change are left out. Dependencies between values are recorded at both ends, and replaced exactly when a value is overwritten.",
    over=["histories", "object graphs"],
    qtext="every dependency graph, alias structure and nesting, every order of updates",
    why_tests_cant="Tests check a few graph shapes; a missed branch silently leaves some dependents fresh.",
    files=["core/ipyflow/data_model/utils/update_protocol.py", "core/ipyflow/data_model/symbol.py", "core/ipyflow/data_model/scope.py",
           "core/ipyflow/data_model/namespace.py"],
    mechanism=[("collecting what changed and propagating staleness", "data_model/utils/update_protocol.py"),
               ("recording dependencies, refreshing versions", "data_model/symbol.py")],
    observe=["waiting cells and symbols after an update"],
)
TECHNIQUE = "path-sensitive abstract interpretation: every propagation step is required in every iteration and on every path under enumerated conditions; truth tables for the stop conditions"
LEVEL_NOTE = "Decides each propagation step for every path of the code; that the recorded graph covers all real data flow is not claimed (see N01)."
U = "UpdateProtocol."
OPQ = {"_collect_updated_symbols_and_refresh_namespaces", "_propagate_waiting_to_deps", "_propagate_waiting_to_namespace_parents",
       "_propagate_waiting_to_namespace_children", "_non_class_to_instance_children", "_maybe_get_duped_attrsub_updated_syms", "should_mark_waiting",
       "all_symbols_this_indentation", "refresh", "is_waiting"}


def arg(ev, i, name, default=None):
    if len(ev.b) > i:
        return T(ev.b[i])
    return next((T(v) for k, v in ev.c or () if k == name), default)


def always_calls(ctx, rule, q, o, pred, why, construct=None, **kw):
    return ctx.always(rule, q, pred, oracle=o, construct=construct or q, why=why, onlyraise=set(), **kw)


def check(ctx):
    # ---- the driver
    q = U + "__call__"
    for mut in (True, False):
        o = lambda: O().when(r"^mutated$", mut)
        COLL = lambda e: e.is_call("_collect_updated_symbols_and_refresh_namespaces")
        it = always_calls(ctx, "R1-collects", q, o(), COLL, "an update does not collect what changed", f"{q}:mutated={mut}", opaque=OPQ)
        cs = [e for e in it.allevents.values() if COLL(e)]
        want = r"aliases(\.get\(self\.updated_sym\.obj_id|\[self\.updated_sym\.obj_id\])" if mut else r"\{self\.updated_sym\}|set\(\[self\.updated_sym\]\)|set\(\(self\.updated_sym,\)\)"

        def start(e):
            t = T(e.b[0])
            return re.search(want, t) is not None or any(x.kind in ("call", "aug") and e.b[0] in (x.recv, x.a) and re.search(
                want + ("" if mut else r"|\(self\.updated_sym\)"), repr(x)) for x in it2.allevents.values())
        it2 = ctx.run(q, o(), lambda e: e.kind in ("call", "aug"), opaque=OPQ)
        every(ctx, "R1-starts-from", f"{q}:mutated={mut}", cs, start, "aliases of a mutated value are not updated" if mut else "the updated value is not updated", lambda e: e.loc())
        every(ctx, "R1-contents-flag", f"{q}:mutated={mut}", cs, lambda e: arg(e, 1, "refresh_descendent_namespaces") == "propagate_to_namespace_descendents",
              "whether contents are updated is not the caller's choice", lambda e: e.loc())
        PROPG = lambda e: e.is_call("_propagate_waiting_to_deps")
        SEENDEPS = lambda e: (e.kind == "aug" and T(e.a).endswith(".seen") and T(e.c) == "new_deps") or (
            call_on(e, r"\.seen$", "update") and [T(b) for b in e.b] == ["new_deps"]) or (e.kind == "assign" and T(e.a).endswith(".seen") and "new_deps" in T(e.b))
        THIS = lambda e: (e.kind == "aug" and re.search(r"this_stmt_updated_symbols$", T(e.a)) is not None) or call_on(e, r"this_stmt_updated_symbols$", "update") or (
            e.kind == "assign" and re.search(r"this_stmt_updated_symbols$", T(e.a)) is not None)
        it = ctx.run(q, o(), lambda e: COLL(e) or PROPG(e) or SEENDEPS(e) or THIS(e), opaque=OPQ, onlyraise=set())
        its = [i for i in it.iterations if any(PROPG(e) for e in i.events)]
        full = [i for i in it.iterations if id(i.node) in {id(j.node) for j in its} and i.kind in ("next", "collect", "break", "return")]
        ctx.ob("R2-propagates-from-all", f"{q}:mutated={mut}", bool(full) and all(any(PROPG(e) for e in i.events) and i.kind in ("next", "collect") for i in full),
               "something that changed does not propagate to its dependents", it.fi.loc())
        ev = [e for i in full for e in i.events if PROPG(e)]
        every(ctx, "R2-propagates-from-all", f"{q}:mutated={mut}:start", ev, lambda e: arg(e, 1, "skip_seen_check") == "True",
              "changed values count as already visited, so nothing propagates", lambda e: e.loc())
        # what is iterated is what was collected, without the inputs of the update
        snap = [i for i in full if re.fullmatch(r"self\.seen(\.copy\(\))?|\{\*self\.seen\}", T(strip_iter(i.iter)))]
        ctx.ob("R2-propagates-from-all", f"{q}:mutated={mut}:set", bool(full) and len(snap) == len(full), "propagation does not start from everything collected", it.fi.loc())
        bad = None
        for e in it.ends:
            if e.kind != "return":
                continue
            ks = ["coll" if COLL(x) else "this" if THIS(x) else "deps" if SEENDEPS(x) else "prop" for x in e.trace]
            if "coll" not in ks or "deps" not in ks or "this" not in ks or ks.index("coll") > ks.index("deps") or ks.index("this") < ks.index("coll"):
                bad = e
                continue
            # loops whose body was never entered leave no event: order judged where there is one
            if "prop" in ks and (ks.index("prop") < ks.index("deps") or ks.index("prop") < ks.index("this")):
                bad = e
        ctx.ob("R3-order", f"{q}:mutated={mut}", bad is None, "what changed must be collected, then marked as updated by the statement and the inputs excluded, before propagating",
               it.fi.loc(bad.node) if bad else "")
    it = ctx.run(q, O().when(r"^refresh$", False), lambda e: e.is_call("refresh"), opaque=OPQ)
    ctx.ob("R4-refresh-on-request", q + ":off", not [e for e in it.allevents.values() if e.is_call("refresh")], "values are refreshed although not asked for", it.fi.loc())
    ON = lambda: O().when(r"^refresh$", True)
    ctx.each_iter("R4-refresh-on-request", q, r"updated|aliases", lambda e: e.is_call("refresh"), ON().when(r"\.is_waiting$", False).when(r" is self\.updated_sym$|^self\.updated_sym is ", False),
                  construct=q + ":on", why="another alias of the mutated value keeps its old version", opaque=OPQ - {"is_waiting"}, onlyraise=set())
    it = ctx.run(q, ON().when(r"\.is_waiting$", True), lambda e: e.is_call("refresh"), opaque=OPQ - {"is_waiting"})
    ctx.ob("R4-refresh-on-request", q + ":waiting", not [e for e in it.allevents.values() if e.is_call("refresh")], "a stale alias is refreshed", it.fi.loc())
    # ---- collecting
    q = U + "_collect_updated_symbols_and_refresh_namespaces"
    EL = r"elem\(updated_symbols\)"
    SKIP = lambda imp, seen: O().when(rf"^{EL}\.is_import$", imp).when(rf"^{EL} in self\.seen$", seen)
    LOOP = r"^updated_symbols$"
    REC = lambda e: e.is_call("_collect_updated_symbols_and_refresh_namespaces")
    seen_add = lambda e: call_on(e, r"^self\.seen$", "add") and re.fullmatch(EL, T(e.b[0])) is not None
    fresh = lambda e: assigns(e, rf"^{EL}\.required_timestamp$") and T(e.b).endswith("uninitialized()")
    for rule, ev, why in (("R5-updated-not-stale", fresh, "an updated value stays stale"), ("R5-visited-once", seen_add, "an updated value is not marked as visited")):
        ctx.each_iter(rule, q, LOOP, ev, SKIP(False, False), why=why, opaque=OPQ, onlyraise=set())
    ctx.each_iter("R5-live-cells-notified", q, rf"^{EL}\.cells_where_deep_live$", lambda e: e.is_call("add_used_cell_counter") and re.fullmatch(EL, T(e.b[0])) is not None,
                  SKIP(False, False), why="a cell that uses the updated value is not notified", opaque=OPQ, onlyraise=set())
    ctx.each_iter("R5-live-cells-notified", q, LOOP, lambda e: e.kind == "loop" and T(strip_iter(e.a)).endswith(".cells_where_deep_live"), SKIP(False, False), construct=q + ":all",
                  why="cells that use the updated value are not notified", opaque=OPQ, onlyraise=set())
    for imp, seen in ((True, False), (False, True), (True, True)):
        it = ctx.run(q, SKIP(imp, seen), lambda e: REC(e) or fresh(e) or seen_add(e), opaque=OPQ)
        ctx.ob("R5-skips", f"{q}:import={imp}:seen={seen}", not it.allevents, "an import or an already collected value is updated again", it.fi.loc())
    NSNONE = r"containing_namespace is None$|^None is .*containing_namespace$"
    NSTRUTH = r"containing_namespace$"
    has = lambda v: SKIP(False, False).when(rf"^{EL}\.is_module$", False).when(NSNONE, not v).when(NSTRUTH, v)
    CN = rf"{EL}\.containing_namespace"
    for rule, ev, why in (
            ("R6-container-updated", lambda e: REC(e) and re.search(rf"aliases(\.get\(|\[){CN}\.obj_id", T(e.b[0])) is not None, "containers of an updated value are not updated"),
            ("R6-container-not-waiting-for-it", lambda e: call_on(e, rf"^{CN}\.namespace_waiting_symbols$", "discard", "remove") and re.fullmatch(EL, T(e.b[0])) is not None,
             "the container keeps waiting for an updated element"),
            ("R6-container-version", lambda e: assigns(e, rf"^{CN}\.max_descendent_timestamp$") and ("current()" in T(e.b)), "the version of the container is not bumped")):
        ctx.each_iter(rule, q, LOOP, ev, has(True), why=why, opaque=OPQ, onlyraise=set())
    SNS = r"\.namespace is None$|^None is .*\.namespace$"
    cont = lambda v: has(False).when(r"^refresh_descendent_namespaces$", v).when(SNS, False).when(rf"^{EL}\.namespace$|namespaces\.get\(", True)
    INNER = lambda e: REC(e) and re.search(r"all_symbols_this_indentation\(\)", T(e.b[0])) is not None
    ctx.each_iter("R7-contents-updated", q, LOOP, INNER, cont(True), why="the contents of a changed value are not updated", opaque=OPQ, onlyraise=set())
    it = ctx.run(q, cont(False), INNER, opaque=OPQ)
    ctx.ob("R7-contents-updated", q + ":off", not [e for e in it.allevents.values() if INNER(e)], "contents are updated although they did not change", it.fi.loc())
    it = ctx.run(q, SKIP(False, False), lambda e: REC(e) or seen_add(e), opaque=OPQ)
    bad = [i for i in it.iterations if any(REC(e) for e in i.events) and not (seen_add(next(e for e in i.events if REC(e) or seen_add(e))))]
    ctx.ob("R5-visited-once", q + ":before-recursion", not bad, "recursion before the value is marked as visited does not terminate on cycles", it.fi.loc())
    every(ctx, "R7-flag-kept", q, [e for e in it.allevents.values() if REC(e)], lambda e: arg(e, 1, "refresh_descendent_namespaces") == "refresh_descendent_namespaces",
          "whether contents are updated changes on the way", lambda e: e.loc())
    # ---- propagation
    q = U + "_propagate_waiting_to_deps"
    SEENQ = r"^sym in self\.seen$"
    UPD, STM, SHD = r"^sym in .*\.updated_symbols$", r"^sym in .*this_stmt_updated_symbols$", r"^sym\.should_mark_waiting\(self\.updated_sym\)$"
    P = {
        "ancestor": lambda e: call_on(e, r"^sym\.fresher_ancestors$", "add") and T(e.b[0]) == "self.updated_sym",
        "ancestor version": lambda e: call_on(e, r"^sym\.fresher_ancestor_timestamps$", "add") and T(e.b[0]) == "self.updated_sym.timestamp",
        "stale": lambda e: assigns(e, r"^sym\.required_timestamp$") and "current()" in T(e.b),
        "containers": lambda e: e.is_call("_propagate_waiting_to_namespace_parents") and T(e.b[0]) == "sym" and arg(e, 1, "skip_seen_check") == "True",
        "contents": lambda e: e.is_call("_propagate_waiting_to_namespace_children") and T(e.b[0]) == "sym" and arg(e, 1, "skip_seen_check") == "True",
    }
    anyp = lambda e: any(p(e) for p in P.values())
    go = lambda: O().when(r"^skip_seen_check$", True)
    for a, b, c in ((False, False, True), (True, False, True), (False, True, True), (False, False, False)):
        o = lambda: go().when(UPD, a).when(STM, b).when(SHD, c)
        if not a and not b and c:
            for n, p in P.items():
                always_calls(ctx, "R8-dependents-stale", q, o(), p, f"a dependent is not marked stale ({n})", f"{q}:{n}", opaque=OPQ)
        else:
            it = ctx.run(q, o(), anyp, opaque=OPQ)
            ctx.ob("R8-exempt", f"{q}:updated={a}:statement={b}:mark={c}", not [e for e in it.allevents.values() if anyp(e)], "a value that is exempt is marked stale", it.fi.loc())
        KIDS = r"_non_class_to_instance_children\(sym\)$"
        ctx.each_iter("R9-transitive", q, KIDS, lambda e: e.is_call("_propagate_waiting_to_deps") and T(e.b[0]).startswith("elem("), o(), construct=f"{q}:{a}{b}{c}",
                      why="dependents of a dependent are not reached", opaque=OPQ, onlyraise=set())
        always_calls(ctx, "R9-transitive", q, o(), lambda e: e.kind == "loop" and re.search(KIDS, T(strip_iter(e.a))) is not None, "dependents of a dependent are not reached",
                     f"{q}:{a}{b}{c}:all", opaque=OPQ)
    for f, own in (("_propagate_waiting_to_deps", True), ("_propagate_waiting_to_namespace_parents", True), ("_propagate_waiting_to_namespace_children", True)):
        q = U + f
        it = ctx.run(q, O().when(r"^skip_seen_check$", False).when(SEENQ, True), lambda e: e.is_call(*OPQ) or e.kind in ("assign", "aug") or e.is_call("add"), opaque=OPQ)
        ctx.ob("R10-visited-once", q, bool(it.ends) and not it.allevents, "a value already visited is processed again", it.fi.loc())
        for lab, o in (("first", O().when(r"^skip_seen_check$", False).when(SEENQ, False)), ("start", go())):
            seen = lambda e: call_on(e, r"^self\.seen$", "add") and T(e.b[0]) == "sym"
            it = ctx.run(q, o, lambda e: e.is_call("_propagate_waiting_to_deps", "_propagate_waiting_to_namespace_parents", "_propagate_waiting_to_namespace_children") or seen(e), opaque=OPQ)
            bad = [e for e in it.ends if e.kind == "return" and not (e.trace and seen(e.trace[0]))]
            ctx.ob("R10-visited-once", f"{q}:{lab}", bool(it.ends) and not bad, "a value is not marked as visited before recursing", it.fi.loc())
    q = U + "_propagate_waiting_to_namespace_parents"
    NS = r"sym\.containing_namespace"
    o = lambda: go().when(rf"^{NS} is None$|^None is {NS}$", False).when(rf"^{NS}$", True).when(rf"^{NS}\.is_module$", False)
    always_calls(ctx, "R11-containers-wait", q, o(), lambda e: call_on(e, rf"^{NS}\.namespace_waiting_symbols$", "add") and T(e.b[0]) == "sym",
                 "the container of a stale value does not know it waits", opaque=OPQ)
    AL = rf"aliases(\.get\({NS}\.obj_id|\[{NS}\.obj_id\])"
    ctx.each_iter("R11-containers-wait", q, AL, lambda e: e.is_call("_propagate_waiting_to_namespace_parents") and "elem(" in T(e.b[0]), o(), construct=q + ":outer",
                  why="outer containers are not reached", opaque=OPQ, onlyraise=set())
    ctx.each_iter("R11-container-dependents", q, r"_non_class_to_instance_children\(elem\(.*" + AL, lambda e: e.is_call("_propagate_waiting_to_deps") and "elem(" in T(e.b[0]), o(),
                  why="dependents of a container are not reached", opaque=OPQ, onlyraise=set())
    ctx.each_iter("R11-container-dependents", q, AL, lambda e: e.kind == "loop" and "_non_class_to_instance_children(elem(" in T(strip_iter(e.a)), o(), construct=q + ":all",
                  why="dependents of a container are not reached", opaque=OPQ, onlyraise=set())
    q = U + "_propagate_waiting_to_namespace_children"
    NSC = r"namespaces\.get\(sym\.obj_id(, None)?\)|sym\.namespace"
    o = go().when(rf"^(.*{NSC}) is None$|^None is .*({NSC})$", False).when(rf"^.*({NSC})$", True)
    ctx.each_iter("R12-contents-stale", q, r"all_symbols_this_indentation\(", lambda e: e.is_call("_propagate_waiting_to_deps") and "elem(" in T(e.b[0]), o,
                  why="the contents of a stale value are not marked", opaque=OPQ, onlyraise=set())
    # ---- which dependents
    q = U + "_non_class_to_instance_children"
    SAME = r"^(self\.updated_sym is sym|sym is self\.updated_sym)$"
    every(ctx, "R13-dependents-of-the-update", q, [e for e in ctx.run(q, O().when(SAME, True), lambda e: e.kind in ("yield", "yieldfrom", "yield_from")).ends],
          lambda e: any(re.search(r"sym\.children", T(x.a)) for x in e.trace), "the dependents of the update itself are not all reached")
    CH = r"elem\(sym\.children(\.keys\(\))?\)"
    CF = rf"{CH}\.namespace"
    for ns, cl, same in ((False, False, False), (True, False, False), (True, True, False), (True, True, True)):
        o = O().when(SAME, False).when(rf"^{CF} is None$|^None is {CF}$", not ns).when(rf"^{CF}$", ns).when(rf"^{CF}\.cloned_from is None$|^None is {CF}\.cloned_from$", not cl).when(
            rf"^{CF}\.cloned_from$", cl).when(rf"^{CF}\.cloned_from\.obj_id == sym\.obj_id$|^sym\.obj_id == {CF}\.cloned_from\.obj_id$", same)
        YIELD = lambda e: e.kind == "yield"
        if not same:
            ctx.each_iter("R13-dependents", q, r"sym\.children", YIELD, o, construct=f"{q}:{ns}{cl}{same}", why="a dependent is left out")
        else:
            it = ctx.run(q, o, YIELD)
            ctx.ob("R13-instances-exempt", q, bool(it.ends) and not [e for e in it.allevents.values() if YIELD(e)], "instances of an unchanged class are marked stale", it.fi.loc())
    q = "Symbol.should_mark_waiting"
    for d, s in ((True, False), (False, True), (True, True), (False, False)):
        o = O().when(r"^self\.disable_warnings$", d).when(r"^(updated_dep is self|self is updated_dep)$", s)
        it = ctx.run(q, o, lambda e: False)
        every(ctx, "R14-exemptions", f"{q}:disabled={d}:self={s}", [e for e in it.ends if e.kind == "return"], lambda e: bval(e.value, {
            r"^self\.disable_warnings$": d, r"updated_dep is self|self is updated_dep": s}) is (not d and not s), "a dependent is wrongly exempt from becoming stale"
            if not d and not s else "an exempt value becomes stale", lambda e: it.fi.loc(e.node))
    # ---- recording dependencies
    q = "Symbol.update_deps"
    SO = {"_should_cancel_propagation", "refresh", "_handle_possible_widget_creation", "_handle_possible_mercury_widget_creation", "update_usage_info", "_refresh_cached_obj",
          "upsert_symbol_for_name", "is_cascading_reactive_at_counter", "bump_cascading_reactive_cell_num", "namespace", "is_underscore"}
    base = lambda: O().when(r"^self\.is_import$", False)
    CALLP = lambda e: e.kind == "call" and T(e.a).startswith("UpdateProtocol(self)")
    for m, d, c in ((True, False, True), (False, True, True), (False, False, False), (False, False, True)):
        o = base().when(r"^propagate$", True).when(r"^mutated$", m).when(r"^deleted$", d).when(r"_should_cancel_propagation\(", c).when(r"is_immutable$", False)
        if m or d or not c:
            it = always_calls(ctx, "R15-updates-propagate", q, o, CALLP, "an update does not propagate", f"{q}:mutated={m}:deleted={d}:unchanged={c}", opaque=SO)
            every(ctx, "R15-updates-propagate", f"{q}:mutated={m}:deleted={d}:unchanged={c}:arguments", [e for e in it.allevents.values() if CALLP(e)], lambda e: [
                arg(e, i, n) for i, n in enumerate(("new_deps", "mutated", "propagate_to_namespace_descendents", "refresh"))] in (
                ["new_deps", "mutated", "propagate_to_namespace_descendents", "refresh"], ["new_deps", str(m), "propagate_to_namespace_descendents", "refresh"]),
                "the update is propagated as something else", lambda e: e.loc())
        else:
            it = ctx.run(q, o, CALLP, opaque=SO)
            ctx.ob("R15-unchanged-silent", q, bool(it.ends) and not [e for e in it.allevents.values() if CALLP(e)], "an assignment that changes nothing makes dependents stale", it.fi.loc())
    nm = lambda: base().when(r"^mutated$", False)
    NP = r"elem\(\(?new_deps - self\.parents(\.keys\(\))?\)?\)|elem\(new_deps\)"
    sd = lambda e, obj, side, key: e.kind == "call" and e.recv is not None and e.a[2] == "append" and "current()" in T(e.b[0]) and re.search(
        rf"{obj}\.{side}(\.setdefault\({key}|\[{key}\])", T(e.recv)) is not None
    own = lambda e: sd(e, "self", "parents", f"({NP})")
    oth = lambda e: sd(e, f"({NP})", "children", "self")
    NN = lambda: nm().when(rf"^({NP}) is None$|^None is ({NP})$", False)
    ctx.each_iter("R16-both-ends", q, r"new_deps - self\.parents", own, NN(), construct=q + ":dependent", why="a new dependency is not recorded with the dependent", opaque=SO, onlyraise=set())
    ctx.each_iter("R16-both-ends", q, r"new_deps - self\.parents", oth, NN(), construct=q + ":dependency", why="a new dependency is not recorded with what is depended on", opaque=SO, onlyraise=set())
    OLD = r"self\.parents(\.keys\(\))? - new_deps"
    GONE = rf"elem\(\(?{OLD}\)?\)"
    drop = lambda e, obj, side, key: (e.kind == "call" and e.recv is not None and e.a[2] == "pop" and re.search(rf"^{obj}\.{side}$", T(e.recv)) is not None and re.search(
        key, T(e.b[0])) is not None) or (e.kind == "delitem" and re.search(rf"^{obj}\.{side}$", T(e.a)) is not None)
    for lab, pred in (("dependent", lambda e: drop(e, "self", "parents", GONE)), ("dependency", lambda e: drop(e, f"({GONE})", "children", "^self$"))):
        OV = lambda v: nm().when(r"^overwrite$", v).when(r"^self in new_deps$", False).when(r"^any\(|self in .*\.parents$", False)
        ctx.each_iter("R17-overwritten-replaced", q, OLD, pred, OV(True), construct=f"{q}:{lab}", why="an overwritten value keeps its old dependencies", opaque=SO, onlyraise=set())
        it = ctx.run(q, OV(False), pred, opaque=SO)
        it2 = ctx.run(q, base().when(r"^mutated$", True).when(r"is_immutable$", False).when(r"^overwrite$", False), pred, opaque=SO)
        ctx.ob("R17-kept-otherwise", f"{q}:{lab}", not [e for i in (it, it2) for e in i.allevents.values() if pred(e)],
               "dependencies are dropped although the value is not overwritten", it.fi.loc())
    for lab, p in (("required version", lambda e: assigns(e, r"^self\.required_timestamp$") and T(e.b).endswith("uninitialized()")),
                   ("ancestors", lambda e: call_on(e, r"^self\.fresher_ancestors$", "clear") or assigns(e, r"^self\.fresher_ancestors$"))):
        for mut in (True, False):
            always_calls(ctx, "R18-updated-not-stale", q, base().when(r"^mutated$", mut).when(r"is_immutable$", False), p, "an updated value stays stale", f"{q}:{lab}:{mut}", opaque=SO)
    for mut in (True, False):
        always_calls(ctx, "R18-version-bumped", q, base().when(r"^mutated$", mut).when(r"is_immutable$", False).when(r"^refresh$", True), lambda e: e.is_call("refresh") and T(e.recv) == "self",
                     "an updated value keeps its old version", f"{q}:{mut}", opaque=SO)
    # ---- when nothing changed
    q = "Symbol._should_cancel_propagation"
    every(ctx, "R19-first-value-propagates", q, [e for e in ctx.run(q, O().when(r"^(prev_obj is None|None is prev_obj)$", True), lambda e: False).ends], lambda e: T(e.value) == "False",
          "a value without a predecessor does not propagate")
    o = O().when(r"^(prev_obj is None|None is prev_obj)$", False).when(r"blocked_reactive_timestamps_by_symbol", False).when(r"^self\._cached_out_of_sync$", True).when(
        r"^self\.obj_id == self\.cached_obj_id$|^self\.cached_obj_id == self\.obj_id$", False).when(r"^(self\.obj is None|None is self\.obj)$", False).when(
        r"prev_obj is .*NULL|NULL is prev_obj", False)
    every(ctx, "R19-different-value-propagates", q, [e for e in ctx.run(q, o, lambda e: False).ends], lambda e: T(e.value) == "False" or bval(e.value, {
        r"^(self\.obj is None|None is self\.obj)$": False, r"prev_obj is .*NULL|NULL is prev_obj": False}) is False, "a different value does not propagate")
    # ---- who calls it how
    q = "Symbol.mutate"
    it = always_calls(ctx, "R20-mutations", q, None, lambda e: e.is_call("update_deps"), "a mutation does not update anything", opaque={"update_deps"})
    every(ctx, "R20-mutations", q + ":arguments", [e for e in it.allevents.values() if e.is_call("update_deps")], lambda e: dict((k, T(v)) for k, v in e.c).get("mutated") == "True" and dict(
        (k, T(v)) for k, v in e.c).get("overwrite") == "False", "a mutation counts as an assignment", lambda e: e.loc())
    for q, m in (("Scope.delete_symbol_for_name", "_symbol_by_name"), ("Namespace.delete_symbol_for_name", "_subscript_symbol_by_name")):
        it = ctx.run(q, O().when(r"^is_subscript$", q.startswith("Namespace")).when(r" is None$|^None is ", False).when(r"^assert|not is_subscript", True),
                     lambda e: e.is_call("update_deps"), opaque={"update_deps", "mark_garbage", "_shuffle_symbols_downward_to"}, onlyraise=set())
        every(ctx, "R21-deletions", q, [e for e in it.ends if e.kind == "return"], lambda e: any(dict((k, T(v)) for k, v in x.c).get("deleted") == "True" for x in e.trace),
              "a deletion does not propagate")
    # ---- versions
    q = "Symbol.refresh"
    RO = {"_take_timestamp_snapshots", "add_used_cell_counter", "all_symbols_this_indentation"}
    NOTSEEN = lambda: O().when(r"^self in seen$", False)
    TS = r"(Timestamp\.current\(\)|timestamp)"
    for lab, p, why in (("version", lambda e: assigns(e, r"^self\._timestamp$"), "the version is not bumped"),
                        ("history", lambda e: call_on(e, r"^self\._updated_timestamps$", "add") and T(e.b[0]) == "self._timestamp", "the previous version is forgotten"),
                        ("waiting", lambda e: call_on(e, r"^self\.namespace_waiting_symbols$", "clear"), "a refreshed value still waits for its contents"),
                        ("warnings", lambda e: assigns(e, r"^self\._temp_disable_warnings$") and T(e.b) == "False", "warnings stay disabled")):
        always_calls(ctx, "R22-refresh", q, NOTSEEN(), p, why, f"{q}:{lab}", opaque=RO)
    for given in (True, False):
        it = ctx.run(q, NOTSEEN().when(r"^(timestamp is None|None is timestamp)$", not given), lambda e: assigns(e, r"^self\._timestamp$"), opaque=RO)
        every(ctx, "R22-refresh", f"{q}:given={given}", [e for e in it.allevents.values()], lambda e: bvalue(e.b, given) == ("timestamp" if given else "Timestamp.current()"),
              "the new version is not the requested one", lambda e: e.loc())
    ctx.each_iter("R22-users-notified", q, r"^self\.cells_where_live$", lambda e: e.is_call("add_used_cell_counter") and T(e.b[0]) == "self", NOTSEEN(), why="a cell using the value is not notified",
                  opaque=RO, onlyraise=set())
    ctx.each_iter("R22-contents-refreshed", q, r"all_symbols_this_indentation\(", lambda e: e.is_call("refresh") and dict((k, T(v)) for k, v in e.c).get("seen") not in (None, "None"),
                  NOTSEEN().when(r"^refresh_descendent_namespaces$", True).when(r"namespace is None$", False), why="contents keep their old version", opaque=RO, onlyraise=set())
    it = ctx.run(q, O().when(r"^(seen is None|None is seen)$", False).when(r"^self in seen$", True), lambda e: e.kind in ("assign",) or e.is_call("refresh"), opaque=RO)
    ctx.ob("R22-visited-once", q, not it.allevents, "a value already refreshed is refreshed again", it.fi.loc())
    # ---- staleness
    q = "Symbol.is_waiting"
    D = lambda o=None: (o or O()).when(r"^self\.disable_warnings$", False).when(r"^self\._temp_disable_warnings$", False)
    OLDER = lambda v: D().order(r"self\.waiting_timestamp", r"self\.required_timestamp\.cell_num", v).when(r"^self\.is_shallow_stale$", v == "lt")
    rets = lambda it: [e for e in it.ends if e.kind == "return"]
    every(ctx, "R23-stale-iff-outdated", q + ":older", rets(ctx.run(q, OLDER("lt"), lambda e: False, opaque={"waiting_timestamp"})), lambda e: T(e.value) == "True", "an outdated value is not stale")
    for v in ("eq", "gt"):
        it = ctx.run(q, OLDER(v).when(r"min_timestamp == -1|-1 == .*min_timestamp", True), lambda e: False, opaque={"waiting_timestamp"})
        every(ctx, "R23-stale-iff-outdated", f"{q}:{v}", rets(it), lambda e: "namespace_waiting_symbols" in T(e.value), "a value is stale without waiting contents", lambda e: it.fi.loc(e.node))
        q2 = "Symbol.is_shallow_stale"
        every(ctx, "R23-stale-iff-outdated", f"{q2}:{v}", rets(ctx.run(q2, OLDER(v), lambda e: False, opaque={"waiting_timestamp"})), lambda e: bval(e.value, {
            r"self\.waiting_timestamp < ": False}) is False, "an up-to-date value is stale")
    every(ctx, "R23-stale-iff-outdated", "Symbol.is_shallow_stale:older", rets(ctx.run("Symbol.is_shallow_stale", OLDER("lt"), lambda e: False, opaque={"waiting_timestamp"})),
          lambda e: bval(e.value, {r"self\.waiting_timestamp < ": True}) is True, "an outdated value is not stale")


def bvalue(t, given):
    """the arm of 'a if timestamp is None else b' taken"""
    if t[0] == "ifexp":
        none = {"timestamp is None": not given, "None is timestamp": not given, "timestamp is not None": given}.get(T(t[1]))
        if none is None and t[1][0] == "not":
            none = given
        return T(t[2] if none else t[3])
    return T(t)
