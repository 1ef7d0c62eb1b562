from .common import *

TITLE = "Reactive annotations"
PROP = dict(
    title="Reactive, cascading and blocking annotations are honoured with fixed precedence",
    statement="A name marked blocking where it is read, and whatever is reached through it, is never recorded as a use, never makes the cell ready or re-executed, "
              "and is not reactive; a store marked blocking keeps the stored value from triggering readers until a later run updates it, and marks nothing reached through it as reactively updated. "
              "A reactive mark covers the whole value and everything read after it; a cascading mark also makes the assigned values, and those computed from them, reactive in turn until the reaction ends. "
              "Other reactive stores last for one check after the run.",
    over=["inputs", "histories"],
    qtext="every placement of the marks in every chain of names, attributes and calls, and every order of runs",
    why_tests_cant="Tests use a few chains and one mark at a time; the interplay of marks, liveness, ages and call chains is combinatorial.",
    files=["core/ipyflow/analysis/resolved_symbols.py", "core/ipyflow/analysis/symbol_ref.py", "core/ipyflow/data_model/statement.py",
           "core/ipyflow/data_model/symbol.py", "core/ipyflow/analysis/live_refs.py", "core/ipyflow/tracing/ipyflow_tracer.py"],
    mechanism=[("what a resolved name counts as", "analysis/resolved_symbols.py"), ("marks carried along a chain", "analysis/symbol_ref.py"),
               ("marks on stores", "data_model/statement.py:_handle_reactive_store"), ("cascading marks on values", "data_model/symbol.py")],
    observe=["forced reactive / cascading reactive cells", "recorded uses"],
)
TECHNIQUE = "path-sensitive abstract interpretation: truth tables over marks, liveness and ages; required/forbidden effects per enumerated condition"
LEVEL_NOTE = "Marks are identified by the rewriter's node sets; the token rewriting itself (pyccolo) is trusted."
RS = "ResolvedSymbol."
ATOM = ("value", "is_callpoint", "is_subscript", "is_reactive", "is_cascading_reactive", "is_blocking")


def live(o, v):
    """the resolved symbol is live"""
    return o.when(r"^self\.is_live$", v).when(r"^self\.is_dead$", not v).when(r"self\.liveness_timestamp is None|None is self\.liveness_timestamp", not v).when(
        r"^self\.is_killed$", not v)


def callkw(ev, name):
    return next((T(v) for k, v in ev.c or () if k == name), None)


def ctor(e):
    return e.kind == "call" and re.fullmatch(r"self\.__class__|Atom|type\(self\)|cls", T(e.a)) is not None


def ctor_args(ev, names):
    d = {n: T(v) for n, v in zip(names, ev.b)}
    d.update({k: T(v) for k, v in ev.c or ()})
    return d


def check(ctx):
    ix = ctx.ix
    # ---- marks on one name
    want = {
        "nonreactive": dict(is_reactive="False", is_cascading_reactive="False", is_blocking="self.is_blocking"),
        "reactive": dict(is_reactive="True", is_cascading_reactive="self.is_cascading_reactive", is_blocking="False"),
        "cascading_reactive": dict(is_reactive="self.is_reactive", is_cascading_reactive="True", is_blocking="False"),
        "blocking": dict(is_reactive="False", is_cascading_reactive="False", is_blocking="True"),
    }
    it = ctx.run("Atom.__init__", None, lambda e: e.kind == "assign")
    for a in ATOM:
        ctx.ob("R1-mark-fields", f"Atom.__init__:{a}", any(e.kind == "assign" and T(e.a) == f"self.{a}" and T(e.b) == a for e in it.allevents.values()),
               "a mark is not stored as given", it.fi.loc())
    dflt = {a.arg: d for a, d in zip(it.fi.node.args.args[::-1], it.fi.node.args.defaults[::-1])}
    for a in ATOM[1:]:
        ctx.ob("R1-mark-fields", f"Atom.__init__:{a}:default", a in dflt and isinstance(dflt[a], ast.Constant) and dflt[a].value is False, "names are marked by default", it.fi.loc())
    for m, w in want.items():
        it = ctx.run(f"Atom.{m}", None, ctor)
        w = dict(w, value="self.value", is_callpoint="self.is_callpoint", is_subscript="self.is_subscript")

        def good(e):
            c = next((x for x in e.trace if ctor(x)), None)
            if T(e.value) == "self":    # nothing to change
                return all(w[k] in ("self." + k,) or any(v is (w[k] == "True") and T(k2) == f"truth(self.{k})" for k2, v in e.facts.items()) for k in w)
            if c is None:
                return False
            got = ctor_args(c, ATOM)
            return all(got.get(k, "False") == v for k, v in w.items())
        every(ctx, "R1-mark-change", f"Atom.{m}", [e for e in it.ends if e.kind == "return"], good, "changing one mark loses or adds another", lambda e: it.fi.loc(e.node))

    # ---- where marks come from
    q = "SymbolRefVisitor._append_atom"
    MK = lambda e: e.kind == "call" and T(e.a) == "Atom"
    sets_ = dict(is_reactive="reactive_node_ids", is_cascading_reactive="cascading_reactive_node_ids", is_blocking="blocking_node_ids")
    it = ctx.run(q, None, lambda e: MK(e) or e.is_call("append"))
    mk = [e for e in it.allevents.values() if MK(e)]
    for k, s in sets_.items():
        every(ctx, "R2-marks-read", f"{q}:{k}", mk, lambda e: ctor_args(e, ATOM).get(k) == f"(id(node) in tracer().{s})", "a mark in the source is not picked up", lambda e: e.loc())
    ctx.always("R2-marks-read", q, lambda e: e.is_call("append") and T(e.recv).endswith("symbol_chain"), construct=f"{q}:recorded", why="a name is left out of the chain")
    for v, node, val in (("visit_Name", "node", "node.id"), ("visit_Attribute", "node", "node.attr"), ("visit_ClassDef", "node", "node.name"), ("visit_FunctionDef", "node", "node.name"),
                         ("visit_AsyncFunctionDef", "node", "node.name")):
        ctx.always("R2-marks-read", f"SymbolRefVisitor.{v}", lambda e: e.is_call("_append_atom") and [T(x) for x in e.b[:2]] == [node, val],
                   why="the marks on this kind of name are not read")
    q = "SymbolRefVisitor.visit_Call"
    o = isinst(O(), r"node\.func", "Attribute")
    ctx.always("R2-marks-read", q, lambda e: e.is_call("_append_atom") and [T(x) for x in e.b[:2]] == ["node.func", "node.func.attr"] and callkw(e, "is_callpoint") == "True", o,
               construct=f"{q}:method", why="the marks of a called method are not read")
    o = isinst(O(), r"node\.func", "Name")
    ctx.always("R2-marks-read", q, lambda e: e.is_call("visit") and [T(x) for x in e.b] == ["node.func"], o, construct=f"{q}:function", why="the marks of a called function are not read")
    # one node set per kind of mark, each fed by its own spec and token
    q = "DataflowTracer.__init__"
    it = ctx.run(q, None, lambda e: e.kind == "assign")
    for k, s in sets_.items():
        spec = {"is_reactive": "reactive_spec", "is_cascading_reactive": "cascading_reactive_spec", "is_blocking": "blocking_spec"}[k]
        every(ctx, "R2-mark-sets", f"{q}:{s}", [e for e in it.allevents.values() if T(e.a) == f"self.{s}"],
              lambda e: re.search(rf"augmented_node_ids_by_spec\[(self\.|DataflowTracer\.|\w*\.)?{spec}\]$", T(e.b)) is not None, "a kind of mark is read from another kind's set", lambda e: e.loc())
    ci = [n for m in ix.modules.values() if m.name.endswith("ipyflow_tracer") for n in ast.walk(m.tree) if isinstance(n, ast.ClassDef) and n.name == "DataflowTracer"]
    toks = {}
    order = []
    for n in (ci[0].body if ci else []):
        if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in (
                "blocking_spec", "cascading_reactive_spec", "reactive_spec"):
            kw = {k.arg: k.value for k in n.value.keywords}
            toks[n.targets[0].id] = (getattr(kw.get("token"), "value", None), getattr(kw.get("replacement"), "value", None), getattr(kw.get("aug_type"), "attr", None))
            order.append(n.targets[0].id)
    for spec, tok in (("blocking_spec", "$:"), ("cascading_reactive_spec", "$$"), ("reactive_spec", "$")):
        ctx.ob("R2-mark-tokens", spec, toks.get(spec) == (tok, "", "prefix"), f"the token of {spec} is not {tok!r}: {toks.get(spec)}", ci[0].name if ci else "")
    ctx.ob("R2-mark-tokens", "order", bool(order) and order[-1] == "reactive_spec", "the shorter token shadows the longer ones")

    # ---- marks carried along a chain
    q = "SymbolRef.gen_resolved_symbols"
    YR = lambda e: e.kind == "yield"
    RSC = lambda e: e.kind == "call" and T(e.a) == "ResolvedSymbol"
    for rse in (True, False):
        for inh in (True, False):
            for casc in (True, False):
                if not rse and not casc:
                    continue
                o = O().when(r"^inherit_reactivity$", inh).when(r"^yield_in_reverse$", False).when(r"^only_yield_final_symbol$", False).when(r"^yield_all_intermediate_symbols$", False)
                o.when(r"\[1\]\.is_reactive$|atom\.is_reactive$", rse).when(r"\[1\]\.is_cascading_reactive$|atom\.is_cascading_reactive$", casc).when(r"\.is_blocking$", False)
                it = ctx.run(q, o, lambda e: YR(e) or RSC(e) or e.is_call("reactive", "cascading_reactive", "blocking"))
                its = [i for i in it.iterations if i.kind == "next"]
                if rse:
                    ctx.ob("R3-chain-all", f"{q}:reactive={rse}:inherit={inh}:cascading={casc}", bool(its) and all(any(YR(e) for e in i.events) for i in its),
                           "what is read through a reactive name is not reported", it.fi.loc())
                bad = [e for e in it.allevents.values() if e.is_call("blocking") or (not inh and e.is_call("reactive", "cascading_reactive"))]
                ctx.ob("R3-chain-inherit", f"{q}:reactive={rse}:inherit={inh}:cascading={casc}:none", not bad, "marks change although nothing asked for it", bad[0].loc() if bad else "")
    # an unmarked name after a marked one inherits the mark
    for mark, other in (("reactive", "cascading_reactive"), ("cascading_reactive", "reactive")):
        o = O().when(r"^inherit_reactivity$", True).when(r"^yield_in_reverse$", False).when(r"^only_yield_final_symbol$", False)
        it = ctx.run(q, o, lambda e: YR(e) or RSC(e) or e.is_call("reactive", "cascading_reactive", "blocking"))
        hit = [e for e in it.allevents.values() if e.is_call(mark)]
        every(ctx, "R3-chain-inherit", f"{q}:{mark}:only-unmarked", hit,
              lambda e: any(v is False and re.fullmatch(rf"truth\(.*\.is_{mark}\)", T(k)) for k, v in (e.facts.items() if isinstance(e.facts, dict) else e.facts)), "a marked name is rebuilt", lambda e: e.loc())
        used = [e for e in it.allevents.values() if RSC(e) and f".{mark}()" in T(e.b[1])]
        ctx.ob("R3-chain-inherit", f"{q}:{mark}:used", bool(used), "names read through a marked one do not inherit the mark", it.fi.loc())
    flags(ctx, q)

    q = "LiveSymbolRef.gen_resolved_symbols"
    for blk in (True, False):
        o = O().when(r"\.is_blocking$", blk)
        it = ctx.run(q, o, lambda e: YR(e) or e.kind == "assign" or e.is_call("blocking"))
        its = [i for i in it.iterations if i.kind == "next"]
        el = lambda i: next((T(e.a) for e in i.events if YR(e)), None)
        for attr, val in (("is_lhs_ref", r"self\.is_lhs_ref"), ("is_killed", r"self\.is_killed"), ("liveness_timestamp", r"Timestamp\((cell_num=)?cell_ctr, (stmt_num=)?self\.timestamp\)")):
            def ok(i):
                ks = [k for k, e in enumerate(i.events) if e.kind == "assign" and T(e.a).endswith("." + attr) and re.fullmatch(val, T(e.b))]
                rd = [k for k, e in enumerate(i.events) if YR(e)]
                return ks and rd and ks[0] < rd[0]
            ctx.ob("R3-live-fields", f"{q}:{attr}:blocking={blk}", bool(its) and all(ok(i) for i in its), "a read name does not carry where and how it is read", it.fi.loc())
        ctx.ob("R3-live-fields", f"{q}:reported:blocking={blk}", bool(its) and all(any(YR(e) for e in i.events) for i in its), "a read name is not reported", it.fi.loc())
    it = ctx.run(q, None, lambda e: YR(e) or e.kind == "assign" or e.is_call("blocking"))
    setb = [e for e in it.allevents.values() if e.kind == "assign" and T(e.a).endswith(".atom") and T(e.b).endswith(".atom.blocking()")]
    ctx.ob("R3-block-rest", q, bool(setb), "names read through a blocked one are not blocked", it.fi.loc())
    flags(ctx, q, "blocking", carried="blocking_seen")

    # ---- what a resolved name counts as
    table(ctx, "R4-reactive", RS + "is_reactive", dict(
        blk=r"^self\.is_blocking$", mark=r"^self\.atom\.is_reactive$", lhs=r"^self\.is_lhs_ref$", casc=r"^self\.is_cascading_reactive$",
        lv=live, upd=r"is_updated_deep_reactive\(self\.sym\)"),
        lambda blk, mark, lhs, casc, lv, upd: not blk and ((mark and not lhs) or casc or (lv and upd)), "the precedence of the marks is wrong",
        opaque={"is_blocking", "is_cascading_reactive", "is_live", "is_dead", "is_updated_deep_reactive"})
    TS = r"(self\.sym\.timestamp|self\.sym\.(_)?timestamp)\.cell_num"
    BT = r".*blocked_reactive_timestamps_by_symbol\.get\(self\.sym, -1\)"
    for rel in ("lt", "eq", "gt"):
        table(ctx, "R4-blocked", RS + "is_blocking", dict(mark=r"^self\.atom\.is_blocking$", lv=live), lambda mark, lv: mark or (lv and rel != "lt"),
              f"a blocked store ({'older than' if rel == 'lt' else 'as new as' if rel == 'eq' else 'newer than'} the value)", base=lambda: O().order(BT, TS, rel),
              opaque={"is_live", "is_dead"})
    table(ctx, "R4-cascading", RS + "is_cascading_reactive", dict(mark=r"^self\.atom\.is_cascading_reactive$", lv=live, age=r"self\.sym\.is_cascading_reactive_at_counter\(self\.liveness_timestamp\.cell_num\)"),
          lambda mark, lv, age: mark or (lv and age), "cascading marks are lost or invented", opaque={"is_live", "is_dead", "is_cascading_reactive_at_counter"})
    table(ctx, "R4-live", RS + "is_dead", dict(none=r"self\.liveness_timestamp is None|None is self\.liveness_timestamp", k=r"^self\.is_killed$"), lambda none, k: none or k, "liveness is misjudged")
    table(ctx, "R4-live", RS + "is_live", dict(d=r"^self\.is_dead$"), lambda d: not d, "liveness is misjudged", opaque={"is_dead"})
    LAST = r"self\.next_atom is None|None is self\.next_atom"
    table(ctx, "R4-deep", RS + "is_deep", dict(lhs=r"^self\.is_lhs_ref$", re_=r"^self\.is_reactive$", last=LAST, call=r"^self\.next_atom\.is_callpoint$", mut=r"^self\.is_mutating$"),
          lambda lhs, re_, last, call, mut: not lhs and (re_ or last or (call and not mut)), "whether the whole value is used is misjudged", base=lambda: live(O(), True),
          skip=lambda lhs, re_, last, call, mut: last and (call or mut), opaque={"is_live", "is_reactive", "is_mutating"})
    table(ctx, "R4-deep", RS + "is_shallow", dict(d=r"^self\.is_deep$"), lambda d: not d, "whether the whole value is used is misjudged", base=lambda: live(O(), True), opaque={"is_live", "is_deep"})
    table(ctx, "R4-last", RS + "is_last", dict(last=LAST), lambda last: last, "the end of a chain is misjudged")
    it = ctx.run(RS + "timestamp", O().when(r"^self\.is_deep$", True), opaque={"is_deep"})
    every(ctx, "R4-age", RS + "timestamp:deep", [e for e in it.ends if e.kind == "return"], lambda e: T(e.value) == "self.sym.timestamp", "the age of a fully used value ignores its parts")
    it = ctx.run(RS + "timestamp", O().when(r"^self\.is_deep$", False), opaque={"is_deep"})
    every(ctx, "R4-age", RS + "timestamp:shallow", [e for e in it.ends if e.kind == "return"], lambda e: T(e.value) == "self.sym.shallow_timestamp", "the age of a partly used value includes other parts")
    it = ctx.run(RS + "is_waiting_at_position", None, lambda e: e.is_call("is_waiting_at_position"), opaque={"is_deep", "is_waiting_at_position"})
    every(ctx, "R4-stale", RS + "is_waiting_at_position", [e for e in it.ends if e.kind == "return"],
          lambda e: any(x.is_call("is_waiting_at_position") and T(x.recv) == "self.sym" and T(x.b[0]) == "pos" and (callkw(x, "deep") or (T(x.b[1]) if len(x.b) > 1 else None)) == "self.is_deep" for x in e.trace),
          "staleness of a partly used value is judged on the whole value or the reverse")
    # a reactive mutating call is never simply re-run
    table(ctx, "R4-unsafe", RS + "is_unsafe", dict(last=LAST, mut=r"^self\.is_mutating$", re_=r"^self\.is_reactive$", mode=lambda o, v: o.enum(EXEC_MODE, "REACTIVE" if v else "LAZY")),
          lambda last, mut, re_, mode: False if last else (mut and (re_ or mode)), "a reaction to a mutating call is not held back",
          base=lambda: live(O(), True).when(r"^self\.next_atom\.is_callpoint$", True), opaque={"is_live", "is_mutating", "is_reactive"})

    # ---- uses
    q = RS + "update_usage_info"
    FWD = lambda e: e.is_call("update_usage_info") and T(e.recv) == "self.sym"
    for lhs in (True, False):
        it = ctx.run(q, O().when(r"^self\.is_lhs_ref$", lhs), lambda e: FWD(e) or e.kind == "setitem", opaque={"is_blocking"})
        ends = [e for e in it.ends if e.kind == "return"]

        def blk(e):
            f = next((x for x in e.trace if FWD(x)), None)
            if f is None:
                return False
            return any(x.kind == "setitem" and T(x.b) == "'is_blocking'" and "self.is_blocking" in T(x.c) or x.kind == "setitem" and "'is_blocking'" in T(x.a) + T(x.b) and "self.is_blocking" in repr(x) for x in e.trace) or callkw(f, "is_blocking") not in (None, "False")
        every(ctx, "R5-use-blocking", f"{q}:lhs={lhs}", ends, blk, "a blocked read is recorded as a use", lambda e: it.fi.loc(e.node))
        every(ctx, "R5-use-lhs", f"{q}:lhs={lhs}", ends, lambda e: any("'exclude_ns'" in repr(x) and "True" in repr(x) for x in e.trace) == lhs or not lhs and not any("'exclude_ns'" in repr(x) for x in e.trace),
              "contents of an assigned-to value count as used", lambda e: it.fi.loc(e.node))
    q = "Symbol.update_usage_info"
    ONE = lambda e: e.is_call("update_usage_info_one_timestamp") or (e.kind == "setitem" and re.search(r"timestamp_by_(used|liveness)_time|used_node_by_used_time", T(e.a)) is not None)
    REC = lambda e: e.is_call("update_usage_info")
    for how, o in (("flag", lambda: O().when(r"^is_blocking$", True)), ("node", lambda: O().when(r"^is_blocking$", False).when(r"id\(used_node\) in tracer\(\)\.blocking_node_ids", True))):
        ctx.never("R5-blocked-no-use", q, ONE, o(), construct=f"{q}:{how}", why="a blocked read is recorded as a use", opaque={"get_namespace_symbols"})
        it = ctx.run(q, o().when(r"^exclude_ns$", False), REC, opaque={"get_namespace_symbols"})
        every(ctx, "R5-blocked-contents", f"{q}:{how}", [e for e in it.allevents.values() if REC(e)],
              lambda e: callkw(e, "is_blocking") in ("True", "is_blocking") or "blocking_node_ids" in (callkw(e, "is_blocking") or ""), "contents of a blocked read are recorded as used", lambda e: e.loc())
    o = O().when(r"^is_blocking$", False).when(r"blocking_node_ids", False).when(r"^exclude_ns$", False)
    ctx.may("R5-unblocked-use", q, lambda e: e.is_call("update_usage_info_one_timestamp"), o, why="reads are never recorded", opaque={"get_namespace_symbols"})
    it = ctx.run(q, o, REC, opaque={"get_namespace_symbols"})
    its = loops_over(it, r"get_namespace_symbols\(")
    ctx.ob("R5-unblocked-use", f"{q}:contents", bool(its) and all(any(REC(e) for e in i.events) for i in its) and all(
        callkw(e, "is_blocking") in (None, "False", "is_blocking") or "blocking" in callkw(e, "is_blocking") for i in its for e in i.events if REC(e)), "contents of a read value are not recorded as used", it.fi.loc())
    ctx.never("R5-unblocked-use", q, REC, O().when(r"^exclude_ns$", True), construct=f"{q}:exclude", why="contents are recorded although excluded", opaque={"get_namespace_symbols"})

    # ---- stores
    q = "Statement._handle_reactive_store"
    SETS = {(True, True): "updated_deep_reactive_symbols", (True, False): "updated_deep_reactive_symbols_last_cell",
            (False, True): "updated_reactive_symbols", (False, False): "updated_reactive_symbols_last_cell"}
    ADD = lambda e: e.is_call("add") and re.search(r"updated_(deep_)?reactive_symbols(_last_cell)?$", T(e.recv)) is not None
    BLK = lambda e: e.kind == "setitem" and "blocked_reactive_timestamps_by_symbol" in T(e.a)
    BUMP = lambda e: e.is_call("bump_cascading_reactive_cell_num")
    REFR = lambda e: e.is_call("refresh")
    ITER = lambda it: [i for i in it.iterations if i.kind == "next"]
    op = {"is_blocking", "is_reactive", "is_cascading_reactive", "is_live", "is_last", "gen_resolved_symbols"}

    def names(i):
        return {T(e.recv).rsplit(".", 1)[1] for e in i.events if ADD(e)}
    for blk in (True, False):
        for rea in (True, False):
            for casc in (True, False):
                for upd in (True, False):
                    o = O().when(r"\.is_blocking$", blk).when(r"\.is_reactive$", rea).when(r"\.is_cascading_reactive$", casc).when(r" in .*updated_symbols$", upd)
                    it = ctx.run(q, o, lambda e: ADD(e) or BLK(e) or BUMP(e) or REFR(e), opaque=op, onlyraise=set())
                    its = ITER(it)
                    lab = f"{q}:blocking={blk}:reactive={rea}:cascading={casc}:updated={upd}"
                    if blk:
                        ctx.ob("R6-store-blocked", lab, bool(its) and not any(ADD(e) or BUMP(e) or REFR(e) for i in its for e in i.events), "a blocked store counts as reactive", it.fi.loc())
                        ctx.ob("R6-store-blocked", lab + ":recorded", bool(its) and all(any(BLK(e) for e in i.events) == (not upd) for i in its),
                               "a blocked store is not remembered" if not upd else "a value already updated reactively in this run is blocked", it.fi.loc())
                        every(ctx, "R6-store-blocked", lab + ":when", [e for e in it.allevents.values() if BLK(e)] or ([1] if upd else []),
                              lambda e: e == 1 or ("cell_counter()" in T(e.c) and T(e.b).endswith(".sym")), "the block does not date from this run", lambda e: e.loc())
                    else:
                        ctx.ob("R6-store-open", lab + ":blocks", not any(BLK(e) for e in it.allevents.values()), "an unblocked store is recorded as blocked", it.fi.loc())
                        if rea:
                            w = {SETS[(True, casc)], SETS[(False, casc)]}
                            ctx.ob("R6-store-reactive", lab, bool(its) and all(names(i) == w for i in its), f"a reactive store must be recorded in {sorted(w)}", it.fi.loc())
                        else:
                            # nothing before it was reactive: the first name of the walk
                            ctx.ob("R6-store-plain", lab, bool(its) and not any(names(i) & {SETS[(True, True)], SETS[(True, False)]} for i in its), "an unmarked store counts as deeply reactive", it.fi.loc())
                            ctx.ob("R6-store-plain", lab + ":shallow", any(not names(i) for i in its), "an unmarked store counts as reactive", it.fi.loc())
    # a blocked name further out stops a mark further in
    for casc in (True, False):
        nth = lambda s: sum(1 for x in s.trace if x.kind == "iter")
        o = O().fn(lambda a, s: (nth(s) > 1 if T(a[1]).endswith(".is_blocking") else nth(s) == 1 if T(a[1]).endswith(".is_reactive") else None) if a[0] == "truth" else None)
        o.when(r"\.is_cascading_reactive$", casc).when(r" in .*updated_symbols$", False)
        it = ctx.run(q, o, lambda e: ADD(e) or BLK(e) or e.kind == "iter", opaque=op, onlyraise=set())
        two = [e for e in it.ends if e.kind == "return" and sum(1 for x in e.trace if x.kind == "iter") > 1]

        def second(e):
            k = [j for j, x in enumerate(e.trace) if x.kind == "iter"][1]
            return not any(ADD(x) for x in e.trace[k:]) and any(BLK(x) for x in e.trace[k:])
        every(ctx, "R6-store-blocked", f"{q}:reactive-inside-blocked:cascading={casc}", two, second, "a store through a blocked name marks it as reactively updated", lambda e: it.fi.loc(e.node))
    for lv in (True, False):
        for casc in (True, False):
            for last in (True, False):
                o = O().when(r"\.is_blocking$", False).when(r"\.is_reactive$", True).when(r"\.is_live$", lv).when(r"\.is_dead$", not lv).when(r"\.is_cascading_reactive$", casc).when(
                    r"\.is_last$", last).when(r"next_atom is None", last)
                it = ctx.run(q, o, lambda e: BUMP(e) or REFR(e), opaque=op, onlyraise=set())
                its = ITER(it)
                lab = f"{q}:live={lv}:cascading={casc}:last={last}"
                ctx.ob("R6-store-cascade", lab, bool(its) and all(any(BUMP(e) for e in i.events) == (casc and not lv) for i in its), "a cascading store does not start a cascade", it.fi.loc())
                ctx.ob("R6-store-refresh", lab, bool(its) and all(any(REFR(e) for e in i.events) == last for i in its), "a reactive store does not renew the stored value", it.fi.loc())
    it = ctx.run(q, None, lambda e: e.is_call("gen_resolved_symbols"), opaque=op)
    every(ctx, "R6-store-walk", q, [e for e in it.allevents.values() if e.is_call("gen_resolved_symbols")],
          lambda e: callkw(e, "inherit_reactivity") == "False" and callkw(e, "yield_in_reverse") == "True" and callkw(e, "yield_all_intermediate_symbols") == "True",
          "the marks of a store are not read from the stored name outwards", lambda e: e.loc())
    flags(ctx, q)
    # every kind of store looks at its marks, after the value was recorded
    UPS = lambda e: e.is_call("upsert_symbol_for_name")
    HRS = lambda e: e.is_call("_handle_reactive_store")
    for q, tgt in (("Statement._handle_assign_target_for_deps", "target"), ("Statement._handle_starred_store_target", "target.value")):
        it = ctx.run(q, None, lambda e: UPS(e) or HRS(e), opaque={"_contains_lval"}, onlyraise=set())
        ends = [e for e in it.ends if e.kind == "return" and any(UPS(x) for x in e.trace)]
        every(ctx, "R6-store-looked-at", q, ends, lambda e: HRS([x for x in e.trace if UPS(x) or HRS(x)][-1]) and T([x for x in e.trace if HRS(x)][-1].b[0]) == tgt, "the marks of a store are ignored", lambda e: it.fi.loc(e.node))
    q = "Statement._make_lval_symbols_old"
    for isdef in (True, False):
        o = isinst(O(), r"self\.stmt_node", *(("FunctionDef", "ClassDef") if isdef else ("Assign",)))
        if not isdef:
            isinst(o, r".*elem\(.*", "AST")
        it = ctx.run(q, o, lambda e: UPS(e) or HRS(e), onlyraise=set())
        its = [i for i in it.iterations if i.kind == "next" and any(UPS(e) for e in i.events)]
        ctx.ob("R6-store-looked-at", f"{q}:definition={isdef}", bool(its) and all(any(HRS(e) for e in i.events) for i in its), "the marks of a store are ignored", it.fi.loc())
    ups = []
    for f in ix.funcs.values():
        if not f.qual.startswith("Statement."):
            continue
        for n in walk_own(f.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "upsert_symbol_for_name":
                ups.append((f, n))
    every(ctx, "R7-cascade-passed", "Statement:upserts", ups, lambda x: any(k.arg == "is_cascading_reactive" and "stmt_contains_cascading_reactive_rval" in ast.unparse(k.value) for k in x[1].keywords) or not stores(x[1]),
          "a value computed from a cascading read does not cascade", lambda x: x[0].loc(x[1]))
    q = "Scope.upsert_symbol_for_name"
    it = ctx.run(q, None, lambda e: e.is_call("update_deps"))
    every(ctx, "R7-cascade-passed", q, [e for e in it.allevents.values() if e.is_call("update_deps")], lambda e: callkw(e, "is_cascading_reactive") == "is_cascading_reactive", "a cascading mark is dropped", lambda e: e.loc())
    fi = ctx.F("live_refs:stmt_contains_cascading_reactive_rval")
    it = ctx.run(fi, O().when(r"\.is_cascading_reactive$", True), lambda e: False)
    ctx.ob("R7-cascade-read", fi.qual, any(T(e.value) != "False" for e in it.ends if e.kind == "return") and all(i.kind in ("return", "break", "hit") for i in it.iterations if ".chain" in T(i.iter)),
           "a cascading read in a statement is overlooked", fi.loc())
    it = ctx.run(fi, O().when(r"\.is_cascading_reactive$", False), lambda e: False)
    every(ctx, "R7-cascade-read", fi.qual + ":none", [e for e in it.ends if e.kind == "return"], lambda e: T(e.value) == "False" or e.value[0] == "call", "a statement without cascading reads cascades")

    # ---- age of cascading marks
    q = "Symbol.update_deps"
    OPQ = {"refresh", "is_cascading_reactive_at_counter", "_should_cancel_propagation", "update_usage_info", "upsert_symbol_for_name", "namespace", "_handle_possible_widget_creation",
           "_handle_possible_mercury_widget_creation", "is_immutable", "is_import", "is_class", "is_globally_accessible", "is_underscore", "is_implicit", "is_mutation_virtual_symbol",
           "_is_underscore_or_simple_assign", "_refresh_cached_obj", "obj_type", "is_anonymous", "current_cell"}
    base = lambda: O().when(r"^self\.is_import$", False).when(r"^mutated$", False).when(r"^self\.is_class$", False).when(r"flow_?\(?\)?\.is_dev_mode", False).when(
        r"^refresh$", False).when(r"^propagate$", False).when(r"is_globally_accessible$", False)
    DISC = lambda e: e.is_call("discard") and re.search(r"updated_(deep_)?reactive_symbols$", T(e.recv)) is not None
    RESET = lambda e: e.kind == "assign" and T(e.a) == "self._cascading_reactive_cell_num"
    for ow in (True, False):
        o = base().when(r"^overwrite$", ow).when(r"self in new_deps", False).when(r"\.parents$", False).fn(lambda a, s: (not ow) if a[0] == "truth" and T(a[1]).startswith("any(") and ".parents" in T(a[1]) else None)
        it = ctx.run(q, o, lambda e: DISC(e) or RESET(e) or BUMP(e), opaque=OPQ)
        ends = [e for e in it.ends if e.kind == "return"]
        every(ctx, "R8-overwrite-resets", f"{q}:overwrite={ow}", ends, lambda e: (len({T(x.recv).rsplit(".", 1)[1] for x in e.trace if DISC(x)}) == 2 and any(RESET(x) and T(x.b) == "-1" for x in e.trace)) if ow
              else not any(DISC(x) or RESET(x) for x in e.trace), "an overwritten value keeps the old mark" if ow else "an update in place drops the mark", lambda e: it.fi.loc(e.node))
        if ow:
            every(ctx, "R8-overwrite-resets", f"{q}:before-new-mark", [e for e in ends if any(BUMP(x) for x in e.trace)],
                  lambda e: [("r" if RESET(x) else "b") for x in e.trace if RESET(x) or BUMP(x)][0] == "r", "the new mark is cleared with the old one")
    ANY = lambda o, v: o.fn(lambda a, s: v if a[0] == "truth" and "is_cascading_reactive_at_counter" in T(a[1]) else None)
    for given, anyc, want in ((None, True, False), (None, False, False), (False, True, True), (False, False, False), (True, False, True), (True, True, True)):
        o = base().when(r"^overwrite$", False).when(r"^(is_cascading_reactive is None|None is is_cascading_reactive)$", given is None)
        o.when(r"^is_cascading_reactive$", bool(given))
        ANY(o, anyc)
        it = ctx.run(q, o, BUMP, opaque=OPQ)
        ends = [e for e in it.ends if e.kind == "return"]
        if want and not given:   # (some input exists)
            ends = [e for e in ends if any(BUMP(x) for x in e.trace)]
        every(ctx, "R8-cascade-spreads", f"{q}:statement={given}:inputs={anyc}", ends, lambda e: any(BUMP(x) for x in e.trace) == want,
              "values computed from a cascading one do not cascade" if want else "a value cascades although neither its statement nor its inputs do", lambda e: it.fi.loc(e.node))
    q = "Symbol.is_cascading_reactive_at_counter"
    CN, MN = r"self\.cascading_reactive_cell_num\(.*\)", r"max\((ctr, flow\(\)\.min_cascading_reactive_cell_num|flow\(\)\.min_cascading_reactive_cell_num, ctr)\)"
    for rel, w in (("gt", True), ("eq", False), ("lt", False)):
        it = ctx.run(q, O().order(CN, MN, rel).order(CN, "ctr", rel).order(CN, r"flow\(\)\.min_cascading_reactive_cell_num", rel), opaque={"cascading_reactive_cell_num"})
        o = O().order(CN, MN, rel).order(CN, "ctr", rel).order(CN, r"flow\(\)\.min_cascading_reactive_cell_num", rel)
        every(ctx, "R8-cascade-age", f"{q}:{rel}", [e for e in it.ends if e.kind == "return"], lambda e: oval(e, o) is w, "a cascading mark outlives or misses its reaction")
    for one in ("ctr", "min"):   # both ages bound it
        o = O().order(CN, "ctr", "lt" if one == "ctr" else "gt").order(CN, r"flow\(\)\.min_cascading_reactive_cell_num", "gt" if one == "ctr" else "lt").order(CN, MN, "lt")
        it = ctx.run(q, o, opaque={"cascading_reactive_cell_num"})
        every(ctx, "R8-cascade-age", f"{q}:{one}-newer", [e for e in it.ends if e.kind == "return"], lambda e: oval(e, o) is False, "a cascading mark outlives its reaction")
    q = "Symbol.bump_cascading_reactive_cell_num"
    for given in (True, False):
        it = ctx.run(q, O().when(r"^(ctr is None|None is ctr)$", not given), lambda e: e.kind == "assign")
        every(ctx, "R8-cascade-bump", f"{q}:given={given}", [e for e in it.allevents.values() if RESET(e)] or [None],
              lambda e: e is not None and re.fullmatch(r"max\((self\._cascading_reactive_cell_num, X|X, self\._cascading_reactive_cell_num)\)".replace("X", r"ctr" if given else r"flow\(\)\.cell_counter\(\)"), T(e.b)) is not None,
              "a cascade does not date from this run", lambda e: e.loc())
    q = "Symbol.cascading_reactive_cell_num"
    for ns in (True, False):
        for cont in (True, False):
            o = O().when(r"^self in ", False).when(r"namespace is None", not ns).when(r"^consider_containing_symbols$", cont)
            it = ctx.run(q, o, lambda e: e.is_call("max_cascading_reactive_cell_num", "cascading_reactive_cell_num", "iter_containing_symbols"), opaque={"namespace", "iter_containing_symbols", "max_cascading_reactive_cell_num"})
            ends = [e for e in it.ends if e.kind == "return"]
            every(ctx, "R8-cascade-contents", f"{q}:namespace={ns}:containers={cont}", ends, lambda e: any(x.is_call("max_cascading_reactive_cell_num") for x in e.trace) == ns
                  and any(x.is_call("iter_containing_symbols") for x in e.trace) == cont, "a cascade does not reach contents or containers", lambda e: it.fi.loc(e.node))
            its = loops_over(it, r"iter_containing_symbols\(")
            ctx.ob("R8-cascade-contents", f"{q}:namespace={ns}:containers={cont}:each", bool(its) == cont and all(any(e.is_call("cascading_reactive_cell_num") for e in i.events) and i.kind in ("next", "collect") for i in its),
                   "a cascade does not reach every container", it.fi.loc())
    q = "Namespace.max_cascading_reactive_cell_num"
    it = ctx.run(q, None, lambda e: e.is_call("cascading_reactive_cell_num"), opaque={"all_symbols_this_indentation"})
    its = loops_over(it, r"all_symbols_this_indentation\(")
    ctx.ob("R8-cascade-contents", q, bool(its) and all(any(e.is_call("cascading_reactive_cell_num") and callkw(e, "seen") == "seen" for e in i.events) for i in its), "a cascade does not reach every part", it.fi.loc())

    # ---- how long reactive stores last
    for q, sets2 in (("NotebookFlow.is_updated_reactive", ("updated_reactive_symbols", "updated_reactive_symbols_last_cell")),
                     ("NotebookFlow.is_updated_deep_reactive", ("updated_deep_reactive_symbols", "updated_deep_reactive_symbols_last_cell"))):
        table(ctx, "R9-updated", q, dict(a=rf"sym in self\.{sets2[0]}$", b=rf"sym in self\.{sets2[1]}$"), lambda a, b: a or b, "a reactive store is overlooked or invented")
    q = "NotebookFlow.check_and_link_multiple_cells"
    CL = lambda e: e.is_call("clear") and re.search(r"updated_(deep_)?reactive_symbols_last_cell$", T(e.recv)) is not None
    CHK = lambda e: e.is_call("compute_frontend_checker_result")
    for asked in (True, False):
        it = ctx.run(q, O().when(r"^clear_updated_reactive_symbols$", asked), lambda e: CL(e) or CHK(e), opaque={"compute_frontend_checker_result", "empty"})
        every(ctx, "R9-lifetime", f"{q}:asked={asked}", it.ends, lambda e: (len({T(x.recv) for x in e.trace if CL(x)}) == 2) if asked else not any(CL(x) for x in e.trace),
              "reactive stores of the last run stay" if asked else "reactive stores are forgotten before they were looked at", lambda e: it.fi.loc(e.node))
        every(ctx, "R9-lifetime", f"{q}:asked={asked}:after", [e for e in it.ends if any(CHK(x) for x in e.trace)] or [None],
              lambda e: e is not None and (not any(CL(x) for x in e.trace) or [x for x in e.trace if CL(x) or CHK(x)][0] in [x for x in e.trace if CHK(x)]), "reactive stores are forgotten before they were looked at")
    q = "NotebookFlow._safety_precheck_cell"
    it = ctx.run(q, None, lambda e: e.is_call("check_and_link_multiple_cells"), opaque={"check_and_link_multiple_cells"})
    every(ctx, "R9-lifetime", q, [e for e in it.allevents.values() if e.is_call("check_and_link_multiple_cells")], lambda e: callkw(e, "clear_updated_reactive_symbols") == "clear_updated_reactive_symbols",
          "the lifetime asked for is not passed on", lambda e: e.loc())
    fi = ctx.F(q)
    a = fi.node.args
    d = {x.arg: y for x, y in zip(a.args[::-1], a.defaults[::-1])}
    ctx.ob("R9-lifetime", q + ":default", isinstance(d.get("clear_updated_reactive_symbols"), ast.Constant) and d["clear_updated_reactive_symbols"].value is True, "the check before a run does not end the previous run's reactive stores", fi.loc())
    # the check after a run must leave them for the schedule request that follows
    after = [(f, n) for f in ix.funcs.values() for n in walk_own(f.node) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "_safety_precheck_cell"
             and f.name not in ("_safety_precheck_cell",)]
    post = [x for x in after if any(isinstance(n, ast.Attribute) and n.attr == "gc" for n in ast.walk(x[0].node))]
    every(ctx, "R9-lifetime", "after-run", post, lambda x: any(k.arg == "clear_updated_reactive_symbols" and isinstance(k.value, ast.Constant) and k.value.value is False for k in x[1].keywords) or (
        len(x[1].args) > 1 and isinstance(x[1].args[1], ast.Constant) and x[1].args[1].value is False), "reactive stores are forgotten right after the run", lambda x: x[0].loc(x[1]))
    q = "CommManager.handle_reactivity_cleanup"
    for s in ("updated_reactive_symbols", "updated_deep_reactive_symbols"):
        ctx.always("R9-cleanup", q, lambda e: (e.is_call("clear") and T(e.recv).endswith("." + s)) or (e.kind == "assign" and T(e.a).endswith("." + s) and T(e.b) in ("set()", "new_set")), construct=f"{q}:{s}",
                   why="cascading stores survive the end of the reaction")
    ctx.always("R9-cleanup", q, lambda e: e.kind == "assign" and T(e.a).endswith(".min_cascading_reactive_cell_num") and T(e.b).endswith("cell_counter()"), construct=f"{q}:min", why="cascades survive the end of the reaction")

    # ---- calls: what a reactive call reads is reactive
    q = "get_live_symbols_and_cells_for_references"
    fi = next((f for f in ix.funcs.values() if f.name == "_compute_call_chain_live_symbols_and_cells"), None)
    if fi is None:
        raise AnalysisBroken("no call chain analysis")
    for attr in ("is_reactive", "is_cascading_reactive"):
        for own in (True, False):
            for called in (True, False):
                o = O().when(rf"\.atom\.{attr}$", own).fn(lambda a, s: called if a[0] == "truth" and T(a[1]).endswith("." + attr) and ".atom." not in T(a[1]) else None)
                o.when(r"^update_liveness_time_versions$", False).when(r"\.is_killed$", False).when(r"\.is_called$", False).when(r"\.is_anonymous$", False).when(
                    r"\.is_unsafe$", False).when(r"\.is_live$", True).when(r"isinstance\(.*func_def_stmt", True).when(r" in seen$", False).when(r"isinstance\(", True)
                it = ctx.run(fi, o, lambda e: e.kind == "assign" and T(e.a).endswith(".atom." + attr), opaque={attr, "gen_resolved_symbols", "compute_live_dead_symbol_refs", "is_live", "is_unsafe", "is_last", "is_deep", "timestamp"})
                ev = [e for e in it.allevents.values() if e.kind == "assign" and T(e.a).endswith(".atom." + attr)]
                vals = {bval(e.b, {rf"\.atom\.{attr}$": own, rf"(?<!\.atom)\.{attr}$": called}) for e in ev}
                ctx.ob("R10-call-inherits", f"{fi.qual}:{attr}:own={own}:call={called}", (vals == {own or called}) or (not ev and not (called and not own)),
                       f"what a reactive call reads is {'not ' if own or called else ''}reactive", fi.loc())
    # ---- readiness skips blocked reads, filters by mark
    q = "Cell.get_max_used_live_symbol_cell_counter"
    o = O().when(r"\.is_blocking$", True)
    it = ctx.run(q, o, lambda e: e.is_call("max") or e.is_call("at_timestamp"), opaque={"is_blocking"})
    its = loops_over(it, r"^live_symbols$")
    ctx.ob("R11-ready-skips-blocked", q, bool(its) and not any(e.is_call("at_timestamp", "max") for i in its for e in i.events), "a blocked read makes the cell ready", it.fi.loc())
    for filt, attr in (("filter_to_reactive", "is_reactive"), ("filter_to_cascading_reactive", "is_cascading_reactive")):
        o = lambda: O().when(rf"^{filt}$", True).when(r"^filter_to_", False).when(r"\.is_blocking$", False)
        oo = o().when(rf"\.{attr}$", False).when(r"is_updated_reactive\(", False)
        it = ctx.run(q, oo, lambda e: e.is_call("at_timestamp"), opaque={"is_blocking", attr, "timestamp"})
        its = loops_over(it, r"^live_symbols$")
        ctx.ob("R11-ready-filters", f"{q}:{filt}", bool(its) and not any(e.is_call("at_timestamp") for i in its for e in i.events), "an unmarked read counts as reactive", it.fi.loc())
        oo = o().when(rf"\.{attr}$", True)
        it = ctx.run(q, oo, lambda e: e.is_call("at_timestamp"), opaque={"is_blocking", attr, "timestamp"})
        ctx.ob("R11-ready-filters", f"{q}:{filt}:kept", any(e.is_call("at_timestamp") for e in it.allevents.values()), "a marked read is filtered out", it.fi.loc())
        if filt == "filter_to_reactive":
            oo = o().when(rf"\.{attr}$", False).when(r"is_updated_reactive\(", True)
            it = ctx.run(q, oo, lambda e: e.is_call("at_timestamp"), opaque={"is_blocking", attr, "timestamp"})
            ctx.ob("R11-ready-filters", f"{q}:{filt}:updated", any(e.is_call("at_timestamp") for e in it.allevents.values()), "a reactively stored value is filtered out", it.fi.loc())
    # ---- a blocked store is still seen as an update by unmarked dependents
    q = "Symbol._should_cancel_propagation"
    B0 = r".*blocked_reactive_timestamps_by_symbol\.get\(self, -1\)"
    o = O().when(r"prev_obj is None|None is prev_obj", False).order(B0, r"self\.timestamp\.cell_num", "eq")
    it = ctx.run(q, o)
    every(ctx, "R12-blocked-updates", q, [e for e in it.ends if e.kind == "return"], lambda e: oval(e, o) is False, "a blocked store does not propagate at all")
    q = "Symbol.collect_self_garbage"
    ctx.always("R12-block-collected", q, lambda e: (e.is_call("pop") and T(e.recv).endswith("blocked_reactive_timestamps_by_symbol")) or (e.kind == "delitem" and "blocked_reactive_timestamps_by_symbol" in T(e.a)),
               O().when(r"is_garbage$", True), why="the block of a collected value stays", onlyraise=set())


def stores(call):
    return any(isinstance(n, ast.Attribute) and n.attr == "stmt_node" for n in ast.walk(call))


def flags(ctx, q, mark=None, carried=None):
    """sticky flags: once a mark was seen while walking a chain, it stays seen (never reset inside the loop)"""
    fi = ctx.F(q)
    names = [carried] if carried else None
    for loop in [n for n in walk_own(fi.node) if isinstance(n, ast.For)]:
        sticky = {}
        for n in ast.walk(loop):
            if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id.endswith("_seen"):
                v = n.value
                ok = (isinstance(v, ast.Constant) and v.value is True) or (not isinstance(v, ast.Constant) and any(
                    isinstance(x, ast.Name) and x.id == n.targets[0].id for x in ast.walk(v)))
                sticky.setdefault(n.targets[0].id, []).append((ok, n))
        for nm, xs in sticky.items():
            bad = next((n for ok, n in xs if not ok), None)
            ctx.ob("R3-mark-sticks", f"{q}:{nm}", bad is None, "a mark seen earlier in the chain is forgotten", fi.loc(bad) if bad is not None else "")
