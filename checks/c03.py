from .common import *

TITLE = "Dependency edges stay two-sided"
PROP = dict(
    title="Dependency edges are recorded, moved and removed at both ends",
    statement="An edge recorded from a cell or statement to one it depends on is always recorded with the same symbols at both "
              "ends (as parent and as child), separately for the static and the dynamic graph, and adding, removing, redirecting "
              "or re-keying edges (a cell id changing, a statement being replaced, a memoized run reusing an earlier run's edges) "
              "updates both ends. No cell or statement is recorded as depending on itself or on something already "
              "recorded as depending on it. When a cell runs again, its dependents carry over to the new run, and dependencies the "
              "new run no longer has, as well as those through dangling symbols, are dropped in both graphs.",
    over=["histories", "programs", "configurations"],
    qtext="every sequence of executions, id changes, statement replacements and memoized runs, both slicing contexts",
    why_tests_cant="Tests look at one end of a few edges in small notebooks; a one-sided update shows only after a particular "
                   "re-execution or id change makes the other end matter.",
    files=["core/ipyflow/slicing/mixin.py", "core/ipyflow/slicing/context.py", "core/ipyflow/data_model/cell.py",
           "core/ipyflow/data_model/statement.py", "core/ipyflow/flow.py", "core/ipyflow/shell/interactiveshell.py"],
    mechanism=[("add/remove/replace edge primitives", "slicing/mixin.py SliceableMixin"),
               ("re-keying of edges on id change", "data_model/cell.py update_id"),
               ("carry-over of children on re-execution", "data_model/cell.py create_and_track"),
               ("statement override", "data_model/statement.py create_and_track"),
               ("dependency recording", "flow.py add_data_dep"),
               ("cleanup of dangling edges", "flow.py _remove_dangling_parent_edges"),
               ("edge copying for memoized runs", "shell/interactiveshell.py _handle_memoization")],
    observe=["raw_static_parents/raw_static_children", "raw_dynamic_parents/raw_dynamic_children", "slices", "checker results"],
)
TECHNIQUE = "path-sensitive effect analysis: every abstract path's edge operations must pair up at both ends"
LEVEL_NOTE = ("Decides pairing and coverage of edge operations on all paths of every function that touches edge maps; "
              "which symbols a dependency should carry is not decided.")

SIDES = {"raw_parents": "P", "raw_children": "C"}
SUFFIX = re.compile(r"^raw_(?:(static|dynamic)_)?(parents|children)$")


def side(m):
    """(object term, 'P'|'C', context) of an edge-map term"""
    if isinstance(m, tuple) and m[0] == "." and isinstance(m[2], str):
        g = SUFFIX.match(m[2])
        if g:
            return m[1], g.group(2)[0].upper(), g.group(1)
    return None


def ident(t):
    """x.id and x.cell_id name the same thing; keys coming from iterating a map are left alone"""
    if t[0] == "." and t[2] in ("cell_id", "stmt_id"):
        return (".", t[1], "id")
    return t


def slot(t):
    """term denoting the symbol set stored for one key -> (obj, side, ctx, key)"""
    if t[0] == "[]":
        s = side(t[1])
        return s + (ident(t[2]),) if s else None
    if t[0] == "call" and t[1][0] == "." and t[1][2] in ("setdefault", "get") and t[2]:
        s = side(t[1][1])
        return s + (ident(t[2][0]),) if s else None
    return None


def reduced(t):
    """what is left of a set by `s -= x`"""
    while t[0] == "bin" and t[1] == "-":
        t = t[2]
    return t


def fresh(v):
    return v[0] in ("new", "comp", "bin", "set") or (v[0] == "call" and v[1][0] == "g" and v[1][1] in ("set", "dict")) or (
        v[0] == "call" and v[1][0] == "." and v[1][2] in ("copy", "union", "difference", "intersection"))


def edge_op(ev):
    if ev.kind == "call" and ev.recv is not None:
        n = ev.a[2]
        sl = slot(ev.recv)
        if sl and n in ("update", "add", "__ior__"):
            return ("add",) + sl + (ev.b[0] if ev.b else None,)
        if sl and n in ("difference_update", "discard", "remove", "clear"):
            return ("sub",) + sl + (ev.b[0] if ev.b else None,)
        s = side(ev.recv)
        if s and n == "pop" and ev.b:
            return ("del",) + s + (ident(ev.b[0]), None)
        if s and n in ("clear", "update"):
            return ("bulk",) + s + (None, None)
        if s and n == "setdefault" and len(ev.b) == 2 and not fresh(ev.b[1]):
            return ("store",) + s + (ident(ev.b[0]), ev.b[1])
    if ev.kind == "aug":
        sl = slot(ev.a)
        if sl:
            return ({"'|'": "add", "'-'": "sub"}.get(T(ev.b), "bulk"),) + sl + (ev.c,)
    if ev.kind in ("setitem", "aug_setitem"):
        s = side(ev.a)
        if s:
            if ev.c is not None and ev.c[0] == "bin" and slot(ev.c[2]) == s + (ident(ev.b),):
                return ({"|": "add", "-": "sub"}.get(ev.c[1], "store"),) + s + (ident(ev.b), ev.c[3])
            return ("init" if fresh(ev.c) and not subterm_syms(ev.c) else "store",) + s + (ident(ev.b), ev.c)
    if ev.kind == "delitem":
        s = side(ev.a)
        if s:
            return ("del",) + s + (ident(ev.b), None)
    if ev.kind in ("assign", "aug_assign") and side(ev.a):
        return ("assign",) + side(ev.a) + (None, ev.b)
    return None


def subterm_syms(t):
    return t[0] in ("new", "set", "call") and bool(len(t) > 2 and t[2])


def norm_set(t):
    """symbols carried, modulo copying"""
    while t is not None and t[0] == "call" and t[1][0] == "g" and t[1][1] in ("set", "frozenset", "list", "tuple") and len(t[2]) == 1:
        t = t[2][0]
    while t is not None and t[0] == "call" and t[1][0] == "." and t[1][2] == "copy":
        t = t[1][1]
    if t is not None and t[0] == "[]":
        return ("slot", slot(t)) if slot(t) else t
    return t


def owner(key):
    return key[1] if key[0] == "." and key[2] == "id" else None


def check_pairs(ctx, rule, spec, skip=lambda op: False, construct=None, oracle=None, **kw):
    it, paths = effects(ctx, spec, edge_op, oracle=oracle, **kw)
    q = construct or it.fi.qual
    bad, n = None, 0
    for end, effs in paths:
        ops = [o for o, _ in effs]
        stored = [o for o in ops if o[0] == "store" and not fresh(o[5])]
        if stored:
            bad = bad or (effs[-1][1], "an edge is overwritten with (and shares) somebody else's set of symbols")
        for (op, ev) in effs:
            kind, x, sd, c, key, syms = op
            if kind in ("init", "assign") or skip(op):
                continue
            n += 1
            if kind == "bulk" or owner(key) is None:
                bad = bad or (ev, "edges changed under a key that names no cell or statement")
                continue
            y = owner(key)
            want = {"add": ("add", "store"), "store": ("add", "store"), "sub": ("sub", "del"), "del": ("del", "sub")}[kind]
            partner = [p for p in ops if p[0] in want and p[1] == y and p[2] != sd and p[3] == c and p[4] == (".", x, "id")]
            if not partner and not (kind in ("sub", "del") and absent(end, y, sd, x)):
                bad = bad or (ev, f"the other end ({T(y)}.{'raw_children' if sd == 'P' else 'raw_parents'}[{T(x)}.id]) is not updated")
            elif kind in ("add", "store") and partner and not any(same_syms(syms, p[5], ops) for p in partner):
                bad = bad or (ev, "the two ends get different symbols")
    ctx.ob(rule, q, bad is None, bad[1] if bad else "", bad[0].loc() if bad else "")
    return it, paths, n


def same_syms(a, b, ops):
    return norm_set(a) == norm_set(b)


def absent(end, y, sd, x):
    """path on which the other end was found empty"""
    for k, v in end.facts.items():
        if k[0] == "truth" and v is False:
            s = slot(k[1])
            if s and s[0] == y and s[1] != sd and s[3] == (".", x, "id"):
                return True
        if k[0] == "cmp" and k[1] == "in" and v is False:
            s = side(k[3])
            if s and s[0] == y and s[1] != sd and ident(k[2]) == (".", x, "id"):
                return True
    return False


def inherited(op):
    """edge taken over from the previous run of the same id: its other end is already keyed by that id"""
    key = op[4]
    return key is not None and key[0] == "elem" and re.search(r"\.prev(_cell|_stmt)?\.raw_parents$", T(key[1])) is not None


SM = "SliceableMixin."
CTXLOOP = r"iter_slicing_contexts\("


def check(ctx):
    ix = ctx.ix
    # -- primitives pair up
    for f, least in (("add_parent_edges", 2), ("remove_parent_edges", 2), ("replace_parent_edges", 4), ("replace_child_edges", 4)):
        it, paths, n = check_pairs(ctx, "R1-both-ends", SM + f, skip=inherited)
        ctx.nonvacuous("R1-both-ends " + f, n, least)
    SELF = r"^self\.id == .*\.id$|^.*\.id == self\.id$"
    REV = r"\.id in self\.raw_children$"
    isop = lambda *k: (lambda e: (edge_op(e) or ("",))[0] in k)
    base = lambda: O().when(r"^syms$", True)
    ctx.always("R2-edge-recorded", SM + "add_parent_edges", lambda e: isop("add", "store")(e),
               base().when(SELF, False).when(REV, False), why="a new dependency is not recorded")
    ctx.never("R3-no-reverse-edge", SM + "add_parent_edges", lambda e: edge_op(e) is not None, base().when(REV, True),
              why="an edge to something that already depends on this is recorded")
    own = lambda e: (edge_op(e) or ("",))[0] in ("add", "store") and not inherited(edge_op(e))
    ctx.never("R3-no-self-edge", SM + "add_parent_edges", own, base().when(SELF, True).when(REV, False),
              why="an edge to itself is recorded")
    it = ctx.run(SM + "add_parent_edges", base().when(SELF, True).when(REV, False).when(r"self\.prev(_cell)? is None$", False)
                 .when(r"^\(?syms & ", True), isop("add", "store"))
    inh = [ev for e in it.ends for ev in e.trace if inherited(edge_op(ev))]
    ctx.ob("R3-self-edge-inherits", it.fi.qual, bool(inh) and all(re.search(r"\bsyms\b", T(edge_op(e)[5])) for e in inh),
           "a redefinition in terms of its own previous run does not inherit that run's parents for the used symbols", it.fi.loc())
    # removal: non-empty at an end -> reduced there; emptied -> key gone
    it, paths = effects(ctx, SM + "remove_parent_edges", edge_op, base())
    for sd, nm in (("P", "parent"), ("C", "child")):
        bad = None
        seen = False
        for end, effs in paths:
            x = [o for o, _ in effs if o[2] == sd]
            known = list(end.facts.items()) + [kv for o, ev in effs if o[0] == "del" and o[2] == sd for kv in (ev.facts or {}).items()]
            empty0 = any(k[0] == "truth" and slot(reduced(k[1])) and slot(reduced(k[1]))[1] == sd and v is False for k, v in known)
            if any(o[0] == "sub" for o in x):
                seen = True
            elif not empty0:
                bad = bad or end
            if any(o[0] == "sub" for o in x) and empty0 and not any(o[0] == "del" for o in x):
                bad = bad or end
            asked = any(k[0] in ("truth", "cmp") and any(slot(t) and slot(t)[1] == sd for t in subterms(k[1] if k[0] == "truth" else k))
                        for k, _ in known)
            if any(o[0] == "sub" for o in x) and not any(o[0] == "del" for o in x) and not asked:
                bad = bad or end
            if any(o[0] == "del" for o in x) and not empty0:
                bad = bad or end
        ctx.ob("R4-removal-effective", f"{it.fi.qual}:{nm}", seen and bad is None,
               f"symbols removed from an edge stay at (or vanish wholesale from) the {nm} end", it.fi.loc())
    live = [o for end, effs in paths for o, _ in effs if o[0] == "sub" and (o[5] is None or o[5][0] == "var")]
    ctx.ob("R4-removal-copy", it.fi.qual, not live, "the removed symbols may be the very set being updated, so the second end "
           "sees an empty removal", it.fi.loc())
    it = ctx.run(SM + "add_parent_edge", None, lambda e: e.is_call("add_parent_edges"))
    every(ctx, "R2-edge-recorded", it.fi.qual, [e for e in it.ends if e.kind == "return"],
          lambda e: any(re.fullmatch(r"\{sym\}|set\(.*sym.*\)", T(ev.b[1])) and T(ev.b[0]) == "parent_ref" for ev in e.trace),
          "single-symbol edges are not recorded")
    it = ctx.run(SM + "remove_parent_edge", None, lambda e: e.is_call("remove_parent_edges"))
    every(ctx, "R4-removal-effective", it.fi.qual, [e for e in it.ends if e.kind == "return"],
          lambda e: any("sym" in T(ev.b[1]) and T(ev.b[0]) == "parent_ref" for ev in e.trace), "single-symbol removal is lost")

    # -- everything else that touches edge maps
    n = 0
    done = {SM + f for f in ("add_parent_edges", "remove_parent_edges", "replace_parent_edges", "replace_child_edges",
                             "add_parent_edge", "remove_parent_edge", "raw_parents", "raw_children")}
    special = {"Cell.update_id", "Cell.create_and_track", "IPyflowInteractiveShell._ipyflow_run_cell",
               "Cell.__init__", "Statement.__init__"}
    for fi in sorted(ix.funcs.values(), key=lambda f: f.key):
        if fi.qual in done or fi.qual in special or not ix.in_vocab(fi):
            continue
        if not touches(ix, fi):
            continue
        n += 1
        it, paths = effects(ctx, fi, edge_op)
        bad = next((ev for _, effs in paths for o, ev in effs if o[0] != "init"), None)
        if bad is None:
            ctx.ob("R5-edges-only-through-primitives", fi.qual, True)
        else:
            check_pairs(ctx, "R5-edges-only-through-primitives", fi, skip=inherited)
    for q in sorted(special - {"Cell.update_id", "Cell.__init__", "Statement.__init__"}):
        it, paths = effects(ctx, q, edge_op, oracle=lambda a, s: None)
        bad = next((ev for _, effs in paths for o, ev in effs if o[0] not in ("init", "assign")), None)
        ctx.ob("R5-edges-only-through-primitives", q, bad is None, "edge maps edited directly", bad.loc() if bad else "")

    # -- accessors pick the map of the active context
    for p, w in (("raw_parents", "parents"), ("raw_children", "children")):
        getter, setter = accessor(ix, p)
        for m in ("DYNAMIC", "STATIC"):
            o = O().enum(r"slicing_ctx_var\.get\(\)$", m)
            it = ctx.run(getter, o, lambda e: False)
            every(ctx, "R6-context-selects-graph", f"{p} getter {m}", [e for e in it.ends if e.kind == "return"],
                  lambda e: T(e.value) == f"self.raw_{m.lower()}_{w}", f"the {m.lower()} context reads other edges")
            it = ctx.run(setter, o.when(r"slicing_ctx_var\.get\(\) is None$", False), lambda e: e.kind == "assign" and side(e.a))
            every(ctx, "R6-context-selects-graph", f"{p} setter {m}", [e for e in it.ends if e.kind == "return"],
                  lambda e: [T(x.a) for x in e.trace] == [f"self.raw_{m.lower()}_{w}"], f"the {m.lower()} context writes other edges")
        it = ctx.run(getter, O().fn(lambda a, s: False if a[0] == "cmp" and "slicing_ctx_var.get()" in T(a[2]) + T(a[3])
                                    and a[1] in ("==", "is") and "None" not in T(a[3]) + T(a[2]) else None)
                     .when(r"slicing_ctx_var\.get\(\) is None$", True).when(r"is_test$", False))
        ins = [ev for ev in it.allevents.values() if adds_to(ev, r"new_dict|setdefault\(") and in_loop(ev, CTXLOOP)
               and in_loop(ev, rf"directional_{w}|raw_{w}")]
        ctx.ob("R6-context-selects-graph", f"{p} getter union", bool(ins), "outside a context the graphs are not merged", it.fi.loc())
    for f, sel in (("dynamic_slicing_context", "DYNAMIC"), ("static_slicing_context", "STATIC")):
        it = ctx.run(f, None, lambda e: e.kind in ("enter", "yield") or e.is_call("set"), opaque=())
        ok = any(f".{sel}" in repr(ev) for e in it.ends for ev in e.trace) and not any(
            (".STATIC" if sel == "DYNAMIC" else ".DYNAMIC") in repr(ev) for e in it.ends for ev in e.trace)
        ctx.ob("R6-context-selects-graph", f, ok, "selects the other graph", it.fi.loc())
    for val, sel in ((True, "STATIC"), (False, "DYNAMIC")):
        it = ctx.run("slicing_context", O().when(r"^is_static$", val), lambda e: e.kind == "enter" or e.is_call("set", "set_slicing_context"))
        tx = " ".join(repr(ev) for e in it.ends for ev in e.trace)
        other = {"STATIC": ".DYNAMIC", "DYNAMIC": ".STATIC"}[sel]
        ctx.ob("R6-context-selects-graph", f"slicing_context({val})", "." + sel in tx and other not in tx,
               "selects the other graph", it.fi.loc())

    # -- id change re-keys both directions
    up = lambda: O().when(r"^update_edges$", True)
    asg = lambda e: e.kind == "assign" and side(e.a) is not None
    for loop, sd, w in ((r"^self\.raw_parents$", "C", "raw_children"), (r"^self\.raw_children$", "P", "raw_parents")):
        it = ctx.run("Cell.update_id", up(), lambda e, w=w: (asg(e) or edge_op(e)) and (w in T(e.a) or True))
        its = [i for i in loops_over(it, loop)]
        every(ctx, "R7-rekey-both-directions", f"Cell.update_id:{w}", its,
              lambda i: any((asg(e) or edge_op(e)) and (side(e.a) or edge_op(e)[1:3])[1] == sd for e in i.events),
              f"an id change leaves the old id in some neighbour's {w}")
        evs = [e for e in it.allevents.values() if asg(e) and side(e.a)[1] == sd]
        every(ctx, "R7-rekey-all-contexts", f"Cell.update_id:{w}", evs, lambda e: in_loop(e, CTXLOOP),
              "re-keying happens for one graph only", lambda e: e.loc())
        every(ctx, "R7-rekey-value", f"Cell.update_id:{w}", evs, lambda e: rekeys(ix, it, e),
              "the re-keyed edges do not map the old id to the new one and keep all others", lambda e: e.loc())
    it = ctx.run("Cell.update_id", up(), lambda e: sets_item(e, r"_by_cell_id$") or removes_from(e, r"_by_cell_id$"))
    for reg in ("_position_by_cell_id", "_current_cell_by_cell_id"):
        bad = None
        seen = False
        for e in it.ends:
            if e.kind != "return":
                continue
            rem = [x for x in e.trace if removes_from(x, reg + "$")]
            new = [x for x in e.trace if sets_item(x, reg + "$")]
            if any(T(x.b) != "new_id" for x in new):
                bad = bad or e
            missing = any(reg in T(k[2]) and k[1] == "is" and v for k, v in e.facts.items() if k[0] == "cmp" and len(k) > 3) or any(
                reg in atexts(k)[0] and " in " in atexts(k)[0] and v is False for k, v in e.facts.items())
            if not rem and not missing:
                bad = bad or e
            if not missing and not (new and T(new[0].b) == "new_id"):
                bad = bad or e
            seen |= bool(rem and new)
            if any(not re.search(r"\.cell_id$|^old_id$", T((x.b[0] if x.kind == "call" else x.b))) for x in rem):
                bad = bad or e
        ctx.ob("R7-rekey-registry", f"Cell.update_id:{reg}", seen and bad is None, "an id change leaves the registry keyed by the "
               "old id", it.fi.loc())
    ctx.always("R7-rekey-history", "Cell.update_id", lambda e: e.is_call("update_id") and "prev_cell" in T(e.recv) and T(e.b[0]) == "new_id",
               O().when(r"self\.prev_cell is None$", False), why="earlier runs of the cell keep the old id")
    ctx.always("R7-rekey-history", "Cell.update_id", lambda e: assigns(e, r"^self\.cell_id$") and T(e.b) == "new_id",
               O(), why="the cell keeps its old id")
    for val in (True, False):
        ctx.each_iter("R7-rekey-tags", "Cell.update_id", r"_reactive_cells_by_tag",
                      lambda e: adds_to(e, r"_reactive_cells_by_tag\[") and T(e.b[0]) == "new_id", up().when(r" in .*_reactive_cells_by_tag", val),
                      mode="always" if val else "never", why="reactive tag registrations keep the old id",
                      kinds=("next",)) if val else None

    # -- re-execution carries children over
    q = "Cell.create_and_track"
    have = O().when(r"from_id_nullable\(cell_id\) is None$|_by_cell_id\.get\(cell_id\) is None$", False).when(r"\.cell_ctr is None$", False)
    for c in ("static", "dynamic"):
        ctx.always("R8-children-carried-over", q, lambda e, c=c: assigns(e, rf"\.raw_{c}_children$") and
                   re.search(rf"(from_id_nullable\(cell_id\)|\.get\(cell_id\)|prev_cell)\.raw_{c}_children", T(e.b)) is not None, have,
                   construct=f"{q}:{c}", why=f"{c} dependents of the cell are forgotten when it runs again")
        ctx.never("R8-parents-start-empty", q, lambda e, c=c: assigns(e, rf"\.raw_{c}_parents$"), have, construct=f"{q}:{c}",
                  why="a new run starts with the old run's dependencies")
    for c, cls in (("Cell", "Cell.__init__"), ("Statement", "Statement.__init__")):
        it = ctx.run(cls, None, lambda e: e.kind == "assign" and side(e.a))
        names = {e.a[2]: e.b for end in it.ends for e in end.trace}
        ok = set(names) == {f"raw_{a}_{b}" for a in ("static", "dynamic") for b in ("parents", "children")} and all(
            fresh(v) or v[0] == "dict" for v in names.values()) and len({id(v) for v in names.values()}) == 4
        ctx.ob("R8-parents-start-empty", cls, ok, "does not start with four separate empty edge maps", it.fi.loc())

    # -- statement override redirects edges of the replaced statement at both ends, in both graphs
    q = "Statement.create_and_track"
    ov = O().when(r"^override$", True).when(r"timestamp is None$", False).when(r"_stmts_by_ts\.get\(timestamp\)", True)
    for loop, call in ((r"\.raw_children(\.keys\(\))?$", "replace_parent_edges"), (r"\.raw_parents(\.keys\(\))?$", "replace_child_edges")):
        it = ctx.run(q, ov, lambda e: e.is_call("replace_parent_edges", "replace_child_edges"))
        its = [i for i in loops_over(it, loop)]
        every(ctx, "R9-override-redirects", f"{q}:{call}", its, lambda i: any(e.is_call(call) for e in i.events),
              "edges of a replaced statement are not redirected")
        every(ctx, "R9-override-redirects", f"{q}:{call} contexts", [e for e in it.allevents.values() if e.is_call(call)],
              lambda e: in_loop(e, r"SlicingContext\.iter_slicing_contexts\(") and re.search(r"at_timestamp\(|_stmts_by_ts", T(e.b[0]))
              and re.match(r"Statement\(|self", T(e.b[1])), "redirection skips a graph or mixes up the statements", lambda e: e.loc())
        every(ctx, "R9-override-snapshot", f"{q}:{call}", its, lambda i: i.iter[0] == "call",
              "edges are redirected while iterating over the live map")
    it = ctx.run(q, None, lambda e: e.is_call("add_parent_edges") or e.kind in ("enter", "exit") or
                 removes_from(e, r"stmt_deferred_static_parents"))
    adds = [(e, x) for e in it.ends for x in e.trace if x.is_call("add_parent_edges")]
    every(ctx, "R10-deferred-static-edges", q, adds, lambda p: within(p[0].trace, p[1], r"static_slicing_context|STATIC") and
          in_loop(p[1], r"stmt_deferred_static_parents"), "deferred static dependencies of a statement are not recorded in the static graph")
    every(ctx, "R10-deferred-static-edges", q + ":consumed", [e for e in it.ends if e.kind == "return"],
          lambda e: any(removes_from(x, r"stmt_deferred_static_parents") for x in e.trace), "deferred dependencies are applied again later")
    every(ctx, "R10-deferred-static-edges", q + ":all", loops_over(it, r"stmt_deferred_static_parents"),
          lambda i: any(x.is_call("add_parent_edges") for x in i.events), "some deferred dependencies are dropped")

    # -- add_data_dep
    q = "NotebookFlow.add_data_dep"
    CH, PA = r"at_timestamp\(child\)\.is_current$|_override_child_cell.*\.is_current$", r"at_timestamp\(parent\)\.is_current$"
    base = lambda: O().when(r"sym\.is_globally_accessible$", True).when(r"^parent\.is_initialized$", True)
    cur = lambda a, b: base().when(CH, a).when(PA, b)
    isedge = lambda e: e.is_call("add_parent_edge", "add_parent_edges")
    celledge = lambda e: isedge(e) and not re.match(r"statements\(\)|Statement", T(e.recv))
    stmtedge = lambda e: isedge(e) and re.match(r"statements\(\)|Statement", T(e.recv)) is not None
    right = lambda e: re.search(r"at_timestamp\(parent\)", T(e.b[0])) and re.search(r"child", T(e.recv)) and re.search(r"\bsym\b", T(e.b[1]))
    ctx.always("R11-dependency-recorded", q, lambda e: celledge(e) and right(e), cur(True, True),
               why="a dependency between current cells is not recorded")
    for a, b in ((False, True), (True, False), (False, False)):
        ctx.never("R11-only-current-cells", q, celledge, cur(a, b), why="an edge is recorded for a superseded run of a cell")
    ctx.never("R11-only-shared-symbols", q, isedge, O().when(r"sym\.is_globally_accessible$", False),
              why="a dependency through a symbol invisible to other cells is recorded")
    dyn = base().when(r"^child\.is_initialized$", True).enum(r"slicing_ctx_var\.get\(\)$", "DYNAMIC")
    ctx.always("R11-statement-dependency", q, lambda e: stmtedge(e) and right(e), dyn, construct=q + ":dynamic",
               why="the dynamic dependency between the statements is not recorded")
    st = base().when(r"^child\.is_initialized$", True).enum(r"slicing_ctx_var\.get\(\)$", "STATIC")
    ctx.always("R11-statement-dependency", q, lambda e: adds_to(e, r"stmt_deferred_static_parents") and re.search(r"\bsym\b", T(e.b[0] if e.kind == "call" else e.c)),
               st, construct=q + ":static", why="the static dependency between the statements is not deferred")
    ctx.never("R11-statement-dependency", q, stmtedge, st, construct=q + ":static-now", why="a static statement dependency lands in the other graph")
    ctx.never("R11-statement-dependency", q, lambda e: adds_to(e, r"stmt_deferred_static_parents"), dyn, construct=q + ":dynamic-deferred",
              why="a dynamic statement dependency is deferred to the static graph")

    # -- a use of a symbol becomes a dependency in the graph the use was found in
    q = "Symbol.update_usage_info_one_timestamp"
    for val, sel in ((True, "STATIC"), (False, "DYNAMIC")):
        o = O().when(r"^is_static$", val).when(r"^updated_time < used_time$", True)
        it = ctx.run(q, o, lambda e: e.is_call("add_data_dep") or e.kind in ("enter", "exit"))
        uses = [(e, x) for e in it.ends for x in e.trace if x.is_call("add_data_dep")]
        every(ctx, "R14-use-recorded-in-its-graph", f"{q}:{sel}", uses, lambda p: in_ctx(p[0].trace, p[1], sel), "the use lands in the other graph")
        every(ctx, "R14-use-recorded-in-its-graph", f"{q}:{sel} args", uses,
              lambda p: [T(a) for a in p[1].b[:3]] == ["used_time", "updated_time", "self"], "the use is attributed to the wrong moments")
        every(ctx, "R14-use-recorded-in-its-graph", f"{q}:{sel} always", [e for e in it.ends if e.kind == "return"],
              lambda e: any(x.is_call("add_data_dep") for x in e.trace), "a use creates no dependency")
    ctx.never("R14-no-use-before-update", q, lambda e: e.is_call("add_data_dep"),
              O().when(r"^is_static$", False).when(r"^updated_time < used_time$", False), why="a use before the update becomes a dependency")

    # -- dangling edges
    q = "NotebookFlow._remove_dangling_parent_edges"
    rm = lambda e: e.is_call("remove_parent_edges")
    it = ctx.run(q, O().when(r"prev_cell is None$", False), lambda e: rm(e))
    evs = list(it.allevents.values())
    dang = [e for e in evs if T(e.b[1]) == "dangling"]
    every(ctx, "R12-dangling-removed", q, dang, lambda e: in_loop(e, r"SlicingContext\.iter_slicing_contexts\(") and
          in_loop(e, r"\.raw_parents") and in_loop(e, r"iterate_over_notebook|current_cells_for_each_id|_current_cell_by_cell_id"),
          "edges through dangling symbols are kept in some graph or cell", lambda e: e.loc())
    every(ctx, "R12-dangling-removed", q + ":each", loops_over(it, r"^elem.*\.raw_parents$"), lambda i: any(rm(e) for e in i.events),
          "some parents keep edges through dangling symbols")
    old = [e for e in evs if T(e.b[1]) != "dangling"]
    every(ctx, "R12-stale-dependencies-dropped", q, old, lambda e: in_loop(e, r"SlicingContext\.iter_slicing_contexts\(") and
          in_loop(e, r"prev_cell\.raw_parents") and re.search(r"prev_cell\.raw_parents\[.*\] - .*raw_parents", T(e.b[1])) and
          "prev_cell" not in T(e.recv), "dependencies the new run no longer has are kept", lambda e: e.loc())
    every(ctx, "R12-stale-dependencies-dropped", q + ":each", loops_over(it, r"prev_cell\.raw_parents"),
          lambda i: any(rm(e) for e in i.events), "some dependencies the new run no longer has are kept")

    # -- memoized runs take over the reused run's edges, cells and statements, per graph
    q = "IPyflowInteractiveShell._handle_memoization"
    it = ctx.run(q, O().when(r"^0 < .*skipped_due_to_memoization_ctr$", True).when(r"prev_cell is None$", False),
                 lambda e: e.is_call("remove_parent_edges", "add_parent_edges"))
    for f in ("remove_parent_edges", "add_parent_edges"):
        evs = [e for e in it.allevents.values() if e.is_call(f)]
        every(ctx, "R13-memoized-edges", f"{q}:{f}", evs, lambda e: in_loop(e, CTXLOOP) and in_loop(e, r"\.raw_parents"),
              "edges are taken over for one graph only", lambda e: e.loc())
        stm = [e for e in evs if in_loop(e, r"statements\(\)")]
        ctx.ob("R13-memoized-edges", f"{q}:{f} both levels", bool(stm) and len(stm) < len(evs),
               "cell and statement edges are not both taken over", it.fi.loc())
        every(ctx, "R13-memoized-edges", f"{q}:{f} each", [i for i in loops_over(it, r"\.raw_parents$")
              if any(e.is_call(f) for j in it.iterations if j.node is i.node for e in j.events)],
              lambda i: any(e.is_call(f) for e in i.events), "some edges are skipped")
    src = [e for e in it.allevents.values() if e.is_call("add_parent_edges")]
    every(ctx, "R13-memoized-edges", f"{q}:source", src, lambda e: all("at_counter(" in T(b) or "at_timestamp(" in T(b) or "_by_cell_ctr" in T(b)
          for b in e.loops if "raw_parents" in T(b)), "edges come from a run other than the reused one", lambda e: e.loc())


def in_ctx(trace, ev, sel):
    """ev happens inside a slicing context selecting ``sel`` (STATIC/DYNAMIC)"""
    val = {"STATIC": "True", "DYNAMIC": "False"}[sel]
    return within(trace, ev, rf"{sel.lower()}_slicing_context\(|SlicingContext\.{sel}\b|slicing_context\((is_static=)?(is_static|{val})\)")


def rekeys(ix, it, ev):
    """the assigned mapping re-keys the old id to new_id and keeps everything else"""
    v = ev.b
    if v[0] == "comp":
        return rekey_collects(it, ("id", v[1], v[5][1], v[5][2]))
    return True


def rekey_collects(it, ident_):
    import sa.interp as I
    i2 = I.Interp(it.ix, oracle=it.oracle, interest=lambda e: e.kind == "collect")
    ends = i2.run(it.fi)
    new = old = bad = False
    evs = {id(ev): ev for e in ends for ev in e.trace}
    for e in evs.values():
        if e.a == ident_ and e.b[0] == "tuple" and len(e.b[1]) == 2 and not mentions(e.b, lambda t: t[0] == "comp"):
            k, val = e.b[1]
            eqs = {v for a, v in e.facts.items() if a[0] == "cmp" and a[1] == "==" and
                   any(x == k or (x[0] == "elem") for x in (a[2], a[3])) and any(T(x).endswith(".cell_id") for x in (a[2], a[3]))}
            if T(k) == "new_id":
                new |= eqs == {True}
            elif k[0] == "elem" and eqs == {False}:
                old = True
            else:
                bad = True
    return new and old and not bad


def accessor(ix, name):
    g = s = None
    for fi in ix.funcs_all if hasattr(ix, "funcs_all") else ix.funcs.values():
        pass
    ci = ix.cls("SliceableMixin")
    for n in ci.node.body:
        if isinstance(n, ast.FunctionDef) and n.name == name:
            d = [ast.unparse(x) for x in n.decorator_list]
            if "property" in d:
                g = n
            else:
                s = n
    if g is None or s is None:
        raise AnalysisBroken(f"accessor {name} not found")
    base = ix.fn("SliceableMixin." + name)
    def mk(node):
        f = FuncInfo(name, f"SliceableMixin.{name}", node, base.cls, base.module, base.parent)
        f.oldkey = base.oldkey
        return f
    return mk(g), mk(s)


def touches(ix, fi):
    for n in walk_own(fi.node):
        if isinstance(n, ast.Attribute) and SUFFIX.match(n.attr):
            return True
        if isinstance(n, ast.Call):
            h = ix.resolve_call(n.func, fi)
            if h is not None and h is not fi and not ix.in_vocab(h) and any(
                    isinstance(m, ast.Attribute) and SUFFIX.match(m.attr) for m in ast.walk(h.node)):
                return True
    return False
