from .common import *

TITLE = "Slices are closed under recorded dependencies"
PROP = dict(
    title="Slices are exactly the seeds closed under recorded dependencies, in time order",
    statement="A slice contains its seeds and, for every member and every enabled kind of dependency (dynamic, static), the newest "
              "run of each recorded parent that is not newer than that member (a deliberately overridden statement counts as is), and nothing "
              "else; a code-only request contains just the seeds. Seeds that were skipped thanks to memoization are replaced by the run they "
              "reused, and a cell's statement slice starts from all of its statements. Slices are produced in time order, and their text "
              "contains every member's text exactly once, grouped by cell in execution order.",
    over=["histories", "programs", "configurations"],
    qtext="every dependency graph (including re-executed parents and cycles), both dependency kinds enabled or not, every seed set",
    why_tests_cant="Tests compare the slice text of a few dozen small notebooks; cyclic graphs, re-run parents and single-context "
                   "configurations are sampled at most once.",
    files=["core/ipyflow/slicing/mixin.py", "core/ipyflow/data_model/cell.py", "core/ipyflow/data_model/statement.py",
           "core/ipyflow/data_model/symbol.py", "core/ipyflow/config.py", "core/ipyflow/line_magics.py"],
    mechanism=[("recursive closure with visited set", "slicing/mixin.py _make_slice_helper"), ("seeding and ordering", "slicing/mixin.py make_multi_slice"),
               ("memoized seeds", "slicing/mixin.py _process_memoized_seeds"), ("text assembly", "slicing/mixin.py make_cell_dict_from_closure, Slice"),
               ("enabled dependency kinds", "config.py slicing_contexts"), ("slice magic", "line_magics.py make_slice")],
    observe=["Cell.slice()/code(), Statement.slice(), code(sym)", "%flow slice output"],
)
TECHNIQUE = "path-sensitive abstract interpretation of the closure and rendering functions (which elements each path adds)"
LEVEL_NOTE = "Decides the closure computation over recorded edges; whether recorded edges are complete is not decided."

MS = "SliceableMixin."


def kw(ev, name, pos=None):
    if ev.c and isinstance(ev.c, tuple):
        for k, v in ev.c:
            if k == name:
                return v
    if pos is not None and ev.b and len(ev.b) > pos:
        return ev.b[pos]
    return None


def callkw(t, name, pos=None):
    """argument of a call term"""
    if t[0] != "call":
        return None
    for k, v in (t[3] if len(t) > 3 and t[3] else ()):
        if k == name:
            return v
    return t[2][pos] if pos is not None and len(t[2]) > pos else None


def check(ctx):
    rec = lambda e: e.is_call("_make_slice_helper")
    q = MS + "_make_slice_helper"
    VIS = r"^self in closure$"
    # visited members stop the walk; new ones are added before anything is followed
    ctx.never("R1-visited-guard", q, lambda e: rec(e) or adds_to(e, r"^closure$"), O().when(VIS, True), why="a visited member is followed again")
    it = ctx.run(q, O().when(VIS, False), lambda e: rec(e) or adds_to(e, r"^closure$"))
    rets = [e for e in it.ends if e.kind == "return"]
    every(ctx, "R1-member-added-first", q, rets, lambda e: e.trace and adds_to(e.trace[0], r"^closure$") and T(e.trace[0].b[0]) == "self",
          "a member is not recorded before its parents are followed", lambda e: it.fi.loc(e.node))
    ctx.ob("R1-nothing-else", q, all(T(x.b[0]) == "self" for e in it.ends for x in e.trace if adds_to(x, r"^closure$")),
           "something other than the members reached is put in the slice", it.fi.loc())
    recs = [x for x in it.allevents.values() if rec(x)]
    every(ctx, "R2-parents-followed", q, loops_over(it, r"^self\.raw_parents$"), lambda i: any(rec(x) for x in i.events),
          "a recorded parent is not followed", lambda i: it.fi.loc(i.node))
    every(ctx, "R2-all-contexts", q, recs, lambda x: in_loop(x, r"mut_settings\.iter_slicing_contexts\(\)") and in_loop(x, r"^self\.raw_parents"),
          "parents are followed in some dependency kinds only", lambda x: x.loc())
    every(ctx, "R2-same-closure", q, recs, lambda x: [T(b) for b in x.b] == ["closure"], "the walk loses the visited set", lambda x: x.loc())
    # which run of the parent
    par = r"self\.from_id\(elem\(self\.raw_parents\)\)|phi_\w+"
    direct = lambda x: re.fullmatch(r"self\.from_id\(elem\(self\.raw_parents\)\)", T(x.recv)) is not None
    TS = (rf"(?:{par})\.timestamp", r"self\.timestamp")
    OVR = r"override"
    for rel in ("lt", "eq"):
        it = ctx.run(q, O().when(VIS, False).order(*TS, rel), rec)
        every(ctx, "R3-newest-run-not-newer", f"{q}:{rel}", [x for x in it.allevents.values() if rec(x)], direct,
              "an older run than the newest suitable one is taken", lambda x: x.loc())
    it = ctx.run(q, O().when(VIS, False).order(*TS, "gt").when(OVR, True), rec)
    every(ctx, "R3-override-kept", q, [x for x in it.allevents.values() if rec(x)], direct, "an overridden statement is not taken as is", lambda x: x.loc())
    it = ctx.run(q, O().when(VIS, False).order(*TS, "gt").when(OVR, False), rec)
    bad = next((x for x in it.allevents.values() if rec(x)), None)
    ctx.ob("R3-newest-run-not-newer", q + ":gt", bad is None, "a run newer than the member is taken", bad.loc() if bad else "")
    prevs = [n for n in walk_own(it.fi.node) if isinstance(n, ast.Attribute) and n.attr in ("prev", "prev_cell", "prev_stmt")]
    ctx.ob("R3-walks-history", q, bool(prevs) or any(h != it.fi.key for h in it.inlined), "earlier runs of a parent are not considered", it.fi.loc())

    # seeding
    q = MS + "make_multi_slice"
    for so in (True, False):
        for ty in ("Timestamp", "int", "Cell"):
            it = ctx.run(q, isinst(O().when(r"^seed_only$", so), r"elem\(seeds\)", ty), lambda e: rec(e) or e.is_call("add", "update", "make_slice"))
            its = loops_over(it, r"^seeds$")
            want = r"(SliceableMixin|cls)\.(at|from)_timestamp\(elem\(seeds\)\)" if ty != "Cell" else r"elem\(seeds\)"
            n = f"{q}:{'code' if so else 'slice'}:{ty}"
            every(ctx, "R4-seeds", n, its, lambda i: (lambda evs: len(evs) == 1 and (
                (so and adds_to(evs[0], ".") and re.fullmatch(want, T(evs[0].b[0]))) or
                (not so and rec(evs[0]) and re.fullmatch(want, T(evs[0].recv)))))([x for x in i.events if rec(x) or adds_to(x, ".")]),
                "a seed is dropped, mixed up or closed over when only its code is wanted", lambda i: it.fi.loc(i.node))
    it = ctx.run(q, None, lambda e: rec(e) or e.is_call("add"))
    every(ctx, "R5-time-order", q, [e for e in it.ends if e.kind == "return"], lambda e: sorted_by_time(e, it), "members are not returned in time order")
    every(ctx, "R5-complete", q, [e for e in it.ends if e.kind == "return"], lambda e: all(
        (T(x.b[0]) if rec(x) else T(x.recv)) in T(e.value) or e.value[0] != "call" or e.value[1] != ("g", "sorted") for x in e.trace),
        "the closure is computed into one set and another is returned")
    for f in ("make_slice", "make_cell_dict_slice"):
        it = ctx.run(MS + f, None, lambda e: False)
        every(ctx, "R6-wrappers", MS + f, [e for e in it.ends if e.kind == "return"],
              lambda e: re.match(r"self\.make_(multi_slice|cell_dict_multi_slice)\(([\[{(]self,?[\]})])", T(e.value)) and "seed_only=True" not in T(e.value),
              "does not slice from the object itself")
    it = ctx.run(MS + "make_cell_dict_multi_slice", None, lambda e: False)
    every(ctx, "R6-wrappers", MS + "make_cell_dict_multi_slice", [e for e in it.ends if e.kind == "return"],
          lambda e: "make_cell_dict_from_closure(" in T(e.value) and re.search(r"make_multi_slice\(seeds, (seed_only=)?seed_only\)", T(e.value)),
          "seeds or the code-only flag are lost")
    it = ctx.run(MS + "format_multi_slice", None, lambda e: False)
    every(ctx, "R6-wrappers", MS + "format_multi_slice", [e for e in it.ends if e.kind == "return"],
          lambda e: re.search(r"make_cell_dict_multi_slice\(\w+\._process_memoized_seeds\(seeds\), (seed_only=)?seed_only\)", T(e.value)) and
          all(f"{k}={k}" in T(e.value) for k in ("blacken", "format_type", "include_cell_headers")), "seeds or options are lost")
    it = ctx.run(MS + "format_slice", None, lambda e: False)
    every(ctx, "R6-wrappers", MS + "format_slice", [e for e in it.ends if e.kind == "return"],
          lambda e: re.search(r"format_multi_slice\([\[{(]self,?[\]})]", T(e.value)) and
          all(f"{k}={k}" in T(e.value) for k in ("blacken", "seed_only", "format_type", "include_cell_headers")), "options are lost")
    for f, so in (("Cell.code", "True"), ("Statement.code", "True"), ("Statement.slice", "seed_only"), ("Cell.slice", "seed_only")):
        it = ctx.run(f, None, lambda e: False)
        every(ctx, "R6-wrappers", f, [e for e in it.ends if e.kind == "return"],
              lambda e: f"seed_only={so}" in T(e.value) and all(f"{k}={k}" in T(e.value) for k in ("format_type", "include_cell_headers")),
              "the code-only flag or options are lost")
    for val in (True, False):
        it = ctx.run("Cell.slice", O().when(r"^stmts$", val), lambda e: False)
        every(ctx, "R6-granularity", f"Cell.slice:stmts={val}", [e for e in it.ends if e.kind == "return"],
              lambda e: ("compute_slice_stmts()" in T(e.value) or "_stmts(" in T(e.value)) == val, "the requested granularity is ignored")
    # memoized seeds
    q = MS + "_process_memoized_seeds"
    MEM = r"skipped_due_to_memoization_ctr"
    for ty in ("Timestamp", "int", "Cell"):
        for hit in (False, True):
            def f(a, s, hit=hit):
                t = atexts(a)[0]
                if a[0] == "cmp" and MEM in t:
                    if a[1] == "==":
                        return not hit
                    if a[1] == "<":
                        return (not hit) if re.search(MEM + r" < ", t) else hit
                return None
            base = r"elem\(seeds\)" if ty != "Cell" else r"elem\(seeds\)\.timestamp"
            o = isinst(isinst(O().fn(f), r"elem\(seeds\)", ty), r"elem\(seeds\)\.timestamp", "Timestamp")
            it = ctx.run(q, o, lambda e: e.is_call("add", "update", "append"))
            ctr = rf"cells\(\)\.at_timestamp\({base}\)\.{MEM}"
            want = base if not hit else (ctr if ty == "int" else rf"Timestamp\({ctr}, (stmt_num=)?{base}\.stmt_num\)")
            every(ctx, "R7-memoized-seeds", f"{q}:{ty}:{'memoized' if hit else 'run'}", loops_over(it, r"^seeds$"),
                  lambda i: len([x for x in i.events if adds_to(x, ".")]) == 1 and all(
                      re.fullmatch(want, T(x.b[0])) for x in i.events if adds_to(x, ".")), "a seed is dropped or resolves to the wrong run",
                  lambda i: it.fi.loc(i.node))
    it = ctx.run(q, None, lambda e: e.is_call("add"))
    every(ctx, "R7-memoized-seeds", q + ":returned", [e for e in it.ends if e.kind == "return"],
          lambda e: all(x.recv == e.value for x in e.trace) and e.value[0] == "new", "processed seeds are not returned")
    # statement seeds of a cell
    it = ctx.run("Cell._get_stmt_timestamps", None, lambda e: e.kind == "collect" or adds_to(e, "."))
    rr = r"Timestamp\(self\.cell_ctr, elem\(range\(self\.num_stmts\)\)\)"
    every(ctx, "R8-all-statements", "Cell._get_stmt_timestamps", [x for e in it.ends for x in e.trace], lambda x: re.search(rr, repr(x)),
          "the statements of a cell are not all covered")
    ctx.ob("R8-all-statements", "Cell._get_stmt_timestamps:unfiltered", all(e.trace or all(k[0] == "truth" and k[1][0] == "new" for k in e.facts) for e in it.ends) and
           all(i.kind in ("collect", "next") and (i.kind == "collect" or i.events or isinstance(i.node, ast.AST)) for i in it.iterations) and
           not filtered(it), "some statements are filtered out", it.fi.loc())
    it = ctx.run("Cell.compute_multi_slice_stmts", None, lambda e: e.kind in ("aug", "collect") or adds_to(e, "."))
    every(ctx, "R8-all-statements", "Cell.compute_multi_slice_stmts", loops_over(it, r"^slice_cells$"),
          lambda i: any("elem(slice_cells)._get_stmt_timestamps()" in repr(x) for x in i.events), "statements of some cell are left out")
    every(ctx, "R8-all-statements", "Cell.compute_multi_slice_stmts:returned", [e for e in it.ends if e.kind == "return"],
          lambda e: re.match(r"statements\(\)\.make_multi_slice\(", T(e.value)) and "seed_only" not in T(e.value) and
          (all(T(x.recv if x.kind == "call" else x.a) in T(e.value) for x in e.trace if x.kind != "collect")), "the statement slice is not computed")
    it = ctx.run("Symbol.code", None, lambda e: False)
    every(ctx, "R6-wrappers", "Symbol.code", [e for e in it.ends if e.kind == "return"],
          lambda e: re.search(r"format_multi_slice\(self\._get_timestamps_for_version\((version=)?version\)", T(e.value)) and "seed_only=True" not in T(e.value),
          "the slice of a symbol does not start from its update times")
    # enabled contexts
    q = "MutableDataflowSettings.slicing_contexts"
    for d in (True, False):
        for s in (True, False):
            it = ctx.run(q, O().when(r"^self\.dynamic_slicing_enabled$", d).when(r"^self\.static_slicing_enabled$", s),
                         lambda e: e.kind in ("collect", "aug") or adds_to(e, "."))
            for e in it.ends:
                if e.kind == "return":
                    tx = T(e.value) + " ".join(repr(x) for x in e.trace)
                    ctx.ob("R9-enabled-kinds", f"{q}:dynamic={d},static={s}", ("DYNAMIC" in tx) == d and ("STATIC" in tx) == s,
                           "a disabled dependency kind is used or an enabled one left out", it.fi.loc(e.node))
    it = ctx.run("MutableDataflowSettings.iter_slicing_contexts", None, lambda e: e.kind == "yield" or e.is_call("iter_slicing_contexts"),)
    ctx.ob("R9-enabled-kinds", it.fi.qual, any("iter_slicing_contexts(*self.slicing_contexts())" in repr(x) + "".join(T(b) for b in x.loops)
           for x in it.allevents.values()) and any(x.kind == "yield" and x.loops for x in it.allevents.values()), "not every enabled kind is visited", it.fi.loc())
    it = ctx.run("ipyflow.slicing.context:iter_slicing_contexts", None, lambda e: e.kind in ("yield", "collect"))
    ctx.ob("R9-enabled-kinds", it.fi.qual, any(x.kind == "yield" and x.loops for x in it.allevents.values()) and
           any(x.kind == "collect" and re.search(r"set_slicing_context\(elem\(dep_contexts\)\)", repr(x)) for x in it.allevents.values()) and not filtered(it) or
           any(x.kind == "yield" and in_loop(x, "^dep_contexts$") for x in it.allevents.values()), "not every enabled kind is visited", it.fi.loc())
    it = ctx.run("yield_in_loop", None, lambda e: e.kind in ("yield", "enter", "exit"))
    ys = [(e, x) for e in it.ends for x in e.trace if x.kind == "yield"]
    every(ctx, "R9-enabled-kinds", "yield_in_loop", ys, lambda p: within(p[0].trace, p[1], r"elem\(gens\)|elem\(\*?gens\)") and in_loop(p[1], "gens"),
          "a dependency kind is not active while it is visited")
    # text
    q = MS + "make_cell_dict_from_closure"
    it = ctx.run(q, None, lambda e: e.kind in ("collect", "setitem", "aug", "aug_setitem") or adds_to(e, "."))
    EL = r"elem\(closure\)"
    its = loops_over(it, r"^closure$")
    puts = lambda i: [x for x in i.events if (x.kind == "call" and x.a[2] in ("append", "extend") and x.b and re.search(rf"{EL}\.text", T(x.b[0])) and
                      re.search(rf"{EL}\.timestamp\.cell_num", T(x.recv))) or (x.kind in ("aug_setitem", "aug") and re.search(rf"{EL}\.text", repr(x)))]
    every(ctx, "R10-text-of-every-member", q, its, lambda i: len({x.node for x in puts(i)}) == 1, "a member's text is dropped, repeated or "
          "filed under another cell", lambda i: it.fi.loc(i.node))
    def joined(e):
        v = e.value
        cs = [x for x in e.trace if x.kind == "collect"]
        return v[0] in ("comp", "new") and all(re.search(r"\(elem\((\w+)\), ('\\n'|\"\\n\")\.join\(\1\[elem\(\1\)\]\)\)", repr(x)) for x in cs
                                               if x.b[0] == "tuple") and not any(x.b[0] != "tuple" and "closure" not in T(x.b) for x in cs)
    every(ctx, "R10-text-of-every-member", q + ":joined", [e for e in it.ends if e.kind == "return"], joined, "member texts are not joined per cell")
    ctx.ob("R10-text-of-every-member", q + ":unfiltered", not filtered(it), "some cells are filtered out", it.fi.loc())
    q = "Slice._get_slice_text_from_slice"
    for hdr in (True, False):
        it = ctx.run(q, O().when(r"^self\.include_cell_headers$", hdr), lambda e: e.kind == "collect" or adds_to(e, ".") or e.is_call("sorted"))
        its = [i for i in it.iterations if i.iter is not None and "raw_slice" in T(i.iter) and i.kind != "raise"]
        its = [i for i in its if i.events or i.kind == "collect"] or its
        every(ctx, "R11-rendered-in-order", f"{q}:headers={hdr}", its,
              lambda i: any("self.raw_slice[elem(self.raw_slice)]" in repr(x) for x in i.events),
              "a cell of the slice is not rendered", lambda i: it.fi.loc(i.node))
        every(ctx, "R11-rendered-in-order", f"{q}:headers={hdr}:sorted", [x for x in it.allevents.values() if x.is_call("sorted")],
              lambda x: re.match(r"(list\()?self\.raw_slice(\.items\(\)|\.keys\(\))?\)?$", T(x.b[0])) and not x.c,
              "cells are not rendered in execution order")
        ctx.ob("R11-rendered-in-order", f"{q}:headers={hdr}:unfiltered", not filtered(it), "some cells are filtered out", it.fi.loc())
    it = ctx.run("Slice.__init__", None, lambda e: assigns(e, r"self\.raw_slice$"))
    every(ctx, "R11-slice-keeps-input", "Slice.__init__", [e for e in it.ends if e.kind == "return"],
          lambda e: any(re.search(r"\braw_slice\b", T(x.b)) for x in e.trace), "the slice forgets its cells")
    q = "format_slice"
    for bl in (True, False):
        it = ctx.run("ipyflow.slicing.mixin:format_slice", O().when(r"^blacken$", bl), lambda e: e.kind in ("setitem", "delitem") or removes_from(e, "raw_slice") or
                     e.is_call("Slice"), raises=True) if False else ctx.run(
            "ipyflow.slicing.mixin:format_slice", O().when(r"^blacken$", bl), lambda e: e.kind in ("setitem", "delitem") or removes_from(e, "raw_slice") or e.is_call("Slice"))
        every(ctx, "R12-formatting-keeps-content", f"{q}:blacken={bl}", [e for e in it.ends if e.kind == "return"],
              lambda e: re.match(r"Slice\(.*raw_slice", T(e.value)) and all(f"{k}={k}" in T(e.value) for k in ("format_type", "include_cell_headers")) and not any(
                  x.kind == "delitem" or removes_from(x, "raw_slice") or (x.kind == "setitem" and not (bl and re.search(r"\[elem\(", T(x.c)) and T(x.b).startswith("elem(")))
                  for x in e.trace), "formatting drops or swaps the content of a cell")
    # slice magic
    q = "make_slice"
    A = r"parse_argstring\(.*\)\."
    for st in (True, False):
        o = O().when(A + r"stmt$", st).when(A + r"cell_num is None$", False)
        it = ctx.run(q, o, lambda e: False)
        vals = [e for e in it.ends if e.kind == "return" and T(e.value) != "None"]
        every(ctx, "R13-magic", f"{q}:stmt={st}", vals, lambda e: re.search(
            r"make_cell_dict_from_closure\(cells\(\)\.%s\(\{cells\(\)\.at_(timestamp|counter)\(parse_argstring\(.*\)\.cell_num\)\}\)\)" %
            ("compute_multi_slice_stmts" if st else "make_multi_slice"), T(e.value)) is not None, "the magic slices something else")


def filtered(it):
    """a comprehension or loop iteration that finishes without keeping its element"""
    for i in it.iterations:
        n = i.node
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)) and any(g.ifs for g in n.generators):
            return True
    return False


def sorted_by_time(e, it):
    v = e.value
    if v[0] == "call" and v[1] == ("g", "sorted"):
        key = callkw(v, "key")
        rev = callkw(v, "reverse")
        if rev is not None and T(rev) != "False":
            return False
        return key is not None and (T(key).find(".timestamp") >= 0 or "timestamp" in T(key)) and "-" not in T(key).split(",")[0].replace("->", "")
    return False
