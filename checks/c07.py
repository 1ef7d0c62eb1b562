import itertools

from .common import *

TITLE = "Memoization soundness"
PROP = dict(
    title="A memoized result is reused only if all its inputs are provably the same",
    statement="A cell marked for memoization skips its run only when an earlier, error-free run of the same text exists whose every recorded global input "
              "is provably unchanged (same type, length and contents where values can be compared, same version otherwise) and whose recorded outputs "
              "have not been modified since. A run that fails or changes its own inputs is never recorded, mutable values are compared against a "
              "snapshot, and a value that cannot be compared reliably never counts as equal. Reuse restores exactly the recorded bindings, "
              "displayed value and dependencies at the time of the current run.",
    over=["histories", "values"],
    qtext="every history of runs and mutations, every input value and type",
    why_tests_cant="Tests cover a few types and rerun sequences; a false hit silently keeps stale values.",
    files=["core/ipyflow/data_model/cell.py", "core/ipyflow/data_model/symbol.py", "core/ipyflow/memoization/__init__.py",
           "core/ipyflow/shell/interactiveshell.py"],
    mechanism=[("recording and matching runs", "data_model/cell.py"), ("comparing values", "data_model/symbol.py"),
               ("replaying a run", "shell/interactiveshell.py")],
    observe=["user namespace after a reused run"],
)
TECHNIQUE = "path-sensitive abstract interpretation: truth-table comparison of the match decision, enumeration of compared types, effect analysis of recording and replay"
LEVEL_NOTE = "Decides recording, comparing and replaying for every combination of the tested conditions; values changed by code ipyflow cannot observe, and " \
             "names deleted by a memoized cell, are outside the claim."


def fields(ix, cls):
    ci = ix.cls(cls) if hasattr(ix, "cls") else None
    for m in ix.modules.values():
        for n in m.tree.body:
            if isinstance(n, ast.ClassDef) and n.name == cls:
                return [x.target.id for x in n.body if isinstance(x, ast.AnnAssign)]
    raise AnalysisBroken(f"no class {cls}")


def check(ctx):
    ix = ctx.ix
    FI, FO, FE = fields(ix, "MemoizedInput"), fields(ix, "MemoizedOutput"), fields(ix, "MemoizedCellExecution")

    def fld(fs, name):
        return rf"(\[{fs.index(name)}\]|\.{name})"
    # ---- matching
    q = "Cell.get_memoized_counter"
    ME = r"self\.prev_cell\._memoized_executions(\.get\(\(self\.executed_content or ''\)(, \{\})?\)|\[\(self\.executed_content or ''\)\])"
    IN = rf"elem\(.*{fld(FE, 'inputs')}\)"
    SYM, TS, MTS, OID, CMP = (IN + fld(FI, n) for n in ("symbol", "ts_at_execution", "mem_ts_at_execution", "obj_id_at_execution", "comparable"))
    NOW = rf"{SYM}\.make_memoize_comparable\(.*\)"
    NULL = r"(symbols\(\)|symbols_|Symbol|cls|self)\.NULL"

    def pair(a, op, b):
        return rf"^({a} {op} {b}|{b} {op} {a})$"
    ATOMS = {
        "recorded value incomparable": pair(CMP, "is", NULL), "current value incomparable": pair(NOW + r"\[0\]", "is", NULL),
        "no comparison": pair(NOW + r"\[1\]", "is", "None"), "equal": rf"^{NOW}\[1\]\(.*\)$", "import": rf"^{SYM}\.is_import$",
        "same cell": pair(SYM + r"\.timestamp\.cell_num", "==", TS + r"\.cell_num"), "same object": pair(SYM + r"\.obj_id", "==", OID),
        "same version": pair(SYM + r"\.memoize_timestamp", "==", TS),
    }
    names = list(ATOMS)
    OTHERV = rf"^{SYM}\.memoize_timestamp == |== {SYM}\.memoize_timestamp$"
    never_changed = r"\.is_changed_since\(|is_changed_since"
    base = lambda: O().when(r"^self\.is_memoized$", True).when(r"^(None is self\.prev_cell|self\.prev_cell is None)$", False).when(never_changed, False)
    n = 0
    for combo in itertools.product((False, True), repeat=len(names)):
        v = dict(zip(names, combo))
        o = base()
        for k in names:
            o.when(ATOMS[k], v[k])
        o.when(OTHERV, False)
        it = ctx.run(q, o, lambda e: False)
        if not v["recorded value incomparable"]:
            want = not v["current value incomparable"] and not v["no comparison"] and v["equal"]
        else:
            want = v["import"] or v["same cell"] or (v["same object"] and v["same version"])
        its = loops_over(it, rf"{fld(FE, 'inputs')}$")
        got = any(i.kind in ("next", "collect") for i in its)
        gotno = any(i.kind in ("break", "return", "hit") for i in its)
        # any()/all() based formulations decide per element
        ok = bool(its) and (got if want else not got) and (not gotno if want else True)
        if not want:
            # leaving the loop over the inputs early must not lead to reuse
            seen = re.compile(IN)
            ok = ok and not any(e.kind == "return" and T(e.value) != "None" and any(
                seen.search(T(x)) for f in e.facts for x in f[1:] if isinstance(x, tuple)) for e in it.ends)
        ctx.ob("R1-input-match-table", f"{q}:{'+'.join(k for k in names if v[k]) or 'none'}", ok,
               f"an input {'is rejected although it matches' if want else 'counts as unchanged'}", it.fi.loc())
        n += 1
    res = lambda e: T(e.value) != "None"
    for lab, o in (("not memoized", O().when(r"^self\.is_memoized$", False)), ("first run", O().when(r"^(None is self\.prev_cell|self\.prev_cell is None)$", True)),
                   ("a later run", base().order(rf".*{fld(FE, 'cell_ctr')}", r"self\.cell_ctr", "gt")),
                   ("the same run", base().order(rf".*{fld(FE, 'cell_ctr')}", r"self\.cell_ctr", "eq")),
                   ("changed output", O().when(r"^self\.is_memoized$", True).when(never_changed, True))):
        it = ctx.run(q, o, lambda e: e.is_call("is_changed_since"))
        if lab == "changed output":
            its = [i for i in loops_over(it, rf"{fld(FE, 'outputs')}$")]
            bad = [e for e in it.ends if e.kind == "return" and res(e) and any(x.is_call("is_changed_since") for x in e.trace)]
            ctx.ob("R2-eligible-runs", f"{q}:{lab}", bool(its) and not bad, "a run whose outputs were modified since is reused", it.fi.loc())
        else:
            bad = next((e for e in it.ends if e.kind == "return" and res(e)), None)
            ctx.ob("R2-eligible-runs", f"{q}:{lab}", bad is None and bool(it.ends), "a result is reused", it.fi.loc(bad.node) if bad else "")
    it = ctx.run(q, None, lambda e: False)
    every(ctx, "R2-same-text", q, [e for e in it.ends if e.kind == "return" and res(e)], lambda e: re.search(ME, T(e.value)) is not None and re.search(
        fld(FE, "cell_ctr") + "$", T(e.value)) is not None, "the reused run is not one of the same text", lambda e: it.fi.loc(e.node))
    q = "MemoizedOutput.is_changed_since"
    UPD = r"self\.symbol\.last_updated_timestamp_by_obj_id(\.get\(id\(self\.value\)(, None)?\)|\[id\(self\.value\)\])"
    for lab, o, want in (("scalar", isinst(O(), r"self\.value", "int"), False),
                         ("never updated", O().fn(lambda a, s: False if a[0] == "truth" and T(a[1]).startswith("isinstance(") else None, "object").when(
                             rf"^({UPD} is None|None is {UPD})$", True), False),
                         ("updated later", O().fn(lambda a, s: False if a[0] == "truth" and T(a[1]).startswith("isinstance(") else None, "object").when(
                             rf"^({UPD} is None|None is {UPD})$", False).order(r"ctr", UPD + r"\.cell_num", "lt"), True),
                         ("updated by that run", O().fn(lambda a, s: False if a[0] == "truth" and T(a[1]).startswith("isinstance(") else None, "object").when(
                             rf"^({UPD} is None|None is {UPD})$", False).order(r"ctr", UPD + r"\.cell_num", "eq"), False)):
        it = ctx.run(q, o, lambda e: False)
        every(ctx, "R3-modified-outputs", f"{q}:{lab}", [e for e in it.ends if e.kind == "return"], lambda e: oval(e, o) is want,
              "a modified output is not noticed" if want else "an unmodified output counts as modified")
    for t in ("list", "dict", "set", "bytearray"):
        o = isinst(O(), r"self\.value", t, "object").when(rf"^({UPD} is None|None is {UPD})$", False).order(r"ctr", UPD + r"\.cell_num", "lt")
        it = ctx.run(q, o, lambda e: False)
        every(ctx, "R3-modified-outputs", f"{q}:{t}", [e for e in it.ends if e.kind == "return"], lambda e: oval(e, o) is True, "a modified output is not noticed")
    # ---- recording
    q = "Cell._maybe_memoize_params"
    REC = lambda e: e.kind == "setitem" and "_memoized_executions" in T(e.a) or e.is_call("MemoizedCellExecution")
    EDGE = r"elem\((self\.raw_parents\[elem\(self\.raw_parents\)\]|elem\(self\.raw_parents\.values\(\)\))\)"
    ctx.never("R4-failed-runs-not-recorded", q, REC, O().when(r"^self\.is_error$", True), why="a failed run is recorded")
    kind = lambda g, ns: O().when(r"^self\.is_error$", False).when(rf"^{EDGE}\.is_anonymous$", False).when(rf"^{EDGE}\.containing_scope\.is_global$", g).when(
        rf"^{EDGE}\.containing_scope\.is_namespace_scope$", ns)
    TOP = r"elem\(.*\.gen_top_level_symbols\(\)\)"
    INP = lambda e: e.is_call("MemoizedInput")
    for gl, g, ns in (("global", True, False), ("attribute or element", False, True)):
        for lab, o in (("inaccessible", kind(g, ns).when(rf"^{TOP}\.is_user_accessible$", False)),
                       ("changed by this run", kind(g, ns).when(rf"^{TOP}\.is_import$", False).order(rf"{TOP}\.timestamp\.cell_num", r"self\.cell_ctr", "eq")),
                       ("changed later", kind(g, ns).when(rf"^{TOP}\.is_import$", False).order(rf"{TOP}\.timestamp\.cell_num", r"self\.cell_ctr", "gt"))):
            it = ctx.run(q, o, lambda e: REC(e) or INP(e) or (e.kind == "iter" and re.search(r"raw_parents(\[|$|\.values)", T(e.a)) is not None))
            its = [i for i in it.iterations if re.search(r"^self\.raw_parents\[elem\(self\.raw_parents\)\]$|^elem\(self\.raw_parents\.values\(\)\)$", T(strip_iter(i.iter)))]
            ctx.ob("R5-changed-inputs-not-recorded", f"{q}:{gl} {lab}", bool(its) and all(i.kind == "return" for i in its),
                   "the run is recorded although an input can no longer be checked", it.fi.loc())
        o = kind(g, ns).when(rf"^{TOP}\.is_user_accessible$", True).when(rf"^{TOP}\.containing_scope\.is_global$", True).order(
            rf"{TOP}\.timestamp\.cell_num", r"self\.cell_ctr", "lt").when(r" in new_dict$", False).fn(
            lambda a, s: True if a[0] == "truth" and a[1][0] == "comp" else None, "some input")
        it = ctx.run(q, o, lambda e: INP(e) or e.kind == "setitem")
        some = {id(i.node): i.node for i in it.iterations if any(INP(e) for e in i.events)}
        inner = [n for n in some.values() if not any(id(x) in some and x is not n for x in ast.walk(n))]
        its = [i for i in it.iterations if any(i.node is n for n in inner) and i.kind in ("next", "break", "collect")]
        ctx.ob("R5-every-input-recorded", f"{q}:{gl}", bool(its) and all(any(INP(e) for e in i.events) for i in its),
               "an input is not recorded", it.fi.loc())
        mk = [x for x in it.allevents.values() if INP(x)]
        every(ctx, "R5-input-contents", f"{q}:{gl}", mk, lambda x: inputs_ok(x, FI), "the recorded input is not the symbol's own state", lambda x: x.loc())
    it = ctx.run(q, O().when(r"^self\.is_error$", False), lambda e: e.is_call("MemoizedOutput") or e.kind == "iter")
    its = loops_over(it, r"updated_symbols$")
    OS = r"elem\(flow\(\)\.updated_symbols\)"
    o = O().when(r"^self\.is_error$", False).when(rf"^{OS}\.is_user_accessible$", True).when(rf"^{OS}\.containing_scope\.is_global$", True)
    ctx.each_iter("R6-every-output-recorded", q, r"updated_symbols$", lambda e: e.is_call("MemoizedOutput") and [T(b) for b in args_of(e, FO)][2:] == [
        "elem(flow().updated_symbols).obj"] and T(args_of(e, FO)[0]) == "elem(flow().updated_symbols)", o, why="an updated global is not restored by a later reuse")
    it = ctx.run(q, O().when(r"^self\.is_error$", False), lambda e: REC(e))
    every(ctx, "R6-recorded-under-text", q, [x for x in it.allevents.values() if x.kind == "setitem" and "_memoized_executions" in T(x.a)], lambda x: re.search(
        r"_memoized_executions(\.setdefault\(self\.executed_content, .*\)|\[self\.executed_content\])$", T(x.a)) is not None and T(x.b) == "self.cell_ctr",
        "the run is not recorded under its own text and counter", lambda x: x.loc())
    every(ctx, "R6-recorded-display", q, [x for x in it.allevents.values() if x.is_call("MemoizedCellExecution")], lambda x: T(args_of(x, FE)[2]) == "self.captured_output" and
          T(args_of(x, FE)[3]) == "self.cell_ctr", "the displayed output or counter recorded is not this run's", lambda x: x.loc())
    # every run that is not a replay notes what it updated; only memoized ones are recorded
    q = "IPyflowInteractiveShell._handle_memoization"
    EV = lambda e: e.is_call("_record_updated_objects", "_maybe_memoize_params", "remove_parent_edges", "add_parent_edges")
    SK = (r"0", r".*\.skipped_due_to_memoization_ctr")
    for lab, m in (("memoized", True), ("ordinary", False)):
        o = O().order(*SK, "gt").when(r"\.is_memoized$", m)
        it = ctx.run(q, o, EV)
        every(ctx, "R7-updates-noted", f"{q}:{lab}", [e for e in it.ends if e.kind == "return"], lambda e: any(x.is_call("_record_updated_objects") for x in e.trace),
              "what the run updated is not noted")
        every(ctx, "R7-recorded-iff-memoized", f"{q}:{lab}", [e for e in it.ends if e.kind == "return"], lambda e: any(x.is_call("_maybe_memoize_params") for x in e.trace) == m,
              "an ordinary run is recorded, or a memoized one not")
    it = ctx.run(q, O().order(*SK, "lt"), EV)
    ctx.ob("R7-replays-not-recorded", q, not any(x.is_call("_record_updated_objects", "_maybe_memoize_params") for x in it.allevents.values()), "a replay is recorded as a run", it.fi.loc())
    PREV = r"Cell\.at_counter\(Cell\.current_cell\(\)\.skipped_due_to_memoization_ctr\)"
    adds = [x for x in it.allevents.values() if x.is_call("add_parent_edges")]
    every(ctx, "R8-replayed-dependencies", q, [x for x in adds if T(x.recv) == "Cell.current_cell()"], lambda x: re.search(PREV + r"\.raw_parents", T(x.b[0]) + T(x.b[1])) is not None,
          "the dependencies taken over are not those of the reused run", lambda x: x.loc())
    rem = [x for x in it.allevents.values() if x.is_call("remove_parent_edges")]
    every(ctx, "R8-replayed-dependencies", q + ":replaced", [x for x in rem if T(x.recv) == "Cell.current_cell()"], lambda x: "Cell.current_cell().raw_parents" in T(x.b[0]) + T(x.b[1]),
          "dependencies of the reused text are not replaced", lambda x: x.loc())
    ctx.ob("R8-replayed-dependencies", q + ":each", all(any("iter_slicing_contexts" in T(l) for l in x.loops) for x in adds + rem) and bool(adds), "not in every slicing context")
    q = "Cell._record_updated_objects"
    ctx.each_iter("R7-updates-noted", q, r"updated_symbols$", lambda e: e.kind == "setitem" and re.search(r"last_updated_timestamp_by_obj_id$", T(e.a)) is not None and T(e.b).endswith(
        ".obj_id") and T(e.c).endswith(".timestamp"), None, why="an update is not noted with its time")
    # ---- comparing values
    q = "Symbol.make_memoize_comparable_for_obj"
    rets = lambda o, **kw: (lambda it: (it, [e for e in it.ends if e.kind == "return" and e.value[0] == "tuple"]))(ctx.run(q, o, lambda e: False, **kw))
    isnull = lambda e: T(e.value[1][0]).endswith(".NULL")
    ALL = ("bool", "bytes", "bytearray", "int", "float", "str", "dict", "frozenset", "list", "set", "tuple")
    for t in ALL[:6]:
        it, es = rets(isinst(O(), "obj", t))
        every(ctx, "R9-scalars-typed", f"{q}:{t}", es, lambda e: isnull(e) or (re.fullmatch(r"\(type\(obj\), (obj|bytes\(obj\))\)", T(e.value[1][0])) is not None and T(
            e.value[1][1]).endswith("._equal")), "values of different types compare equal", lambda e: it.fi.loc(e.node))
        if t == "bytearray":
            every(ctx, "R9-snapshot", f"{q}:{t}", es, lambda e: isnull(e) or "bytes(obj)" in T(e.value[1][0]), "a mutable value is not snapshotted")
    INNER_NULL = r"make_memoize_comparable_for_obj\(.*\)\[0\] is \w+\.NULL$|^\w+\.NULL is .*make_memoize_comparable_for_obj\(.*\)\[0\]$"
    INNER_NOEQ = r"make_memoize_comparable_for_obj\(.*\)\[1\] is None$|^None is .*make_memoize_comparable_for_obj\(.*\)\[1\]$"
    SEEN = r"^id\(obj\) in seen_ids$"
    BIG = (r".*_MAX_MEMOIZE_COMPARABLE_SIZE", r"(?!.*_MAX_MEMO).*")
    UNIFORM = r"^all\(|_equal$"
    for t in ALL[6:]:
        it, es = rets(isinst(O(), "obj", t).when(SEEN, False))
        vals = [e for e in es if not isnull(e)]
        every(ctx, "R10-containers-typed", f"{q}:{t}", vals, lambda e: T(e.value[1][0]).startswith("(type(obj), "), "containers of different types compare equal")
        every(ctx, "R10-containers-complete", f"{q}:{t}", vals, lambda e: re.search(r"(frozenset|tuple|list)\((new_list|new_set|listcomp|\[)", T(e.value[1][0])) is not None or "comp(" in T(
            e.value[1][0]), "the contents are not compared")
        for lab, extra in (("incomparable element", INNER_NULL), ("element without comparison", INNER_NOEQ)):
            it = ctx.run(q, isinst(O(), "obj", t).when(SEEN, False).when(extra, True), lambda e: False)
            its = loops_over(it, r"^obj$|^obj\.items\(\)$|obj")
            ctx.ob("R10-incomparable-contagious", f"{q}:{t}:{lab}", bool(its) and all(i.kind in ("return", "break", "hit") for i in its if not T(i.iter).startswith("new_")),
                   "a container with an incomparable element is compared", it.fi.loc())
        if t != "tuple":
            it, es = rets(isinst(O(), "obj", t).when(SEEN, True))
            every(ctx, "R10-cycles", f"{q}:{t}", es, isnull, "a recursive or shared container is compared forever", lambda e: it.fi.loc(e.node))
        if t in ("set", "frozenset"):
            it, es = rets(isinst(O(), "obj", t).when(SEEN, False).fn(lambda a, s: False if a[0] == "truth" and (T(a[1]).startswith("all(") or a[1][0] == "comp") or (
                a[0] == "cmp" and a[1] in ("is", "==") and "_equal" in T(a[2]) + T(a[3])) else None, "mixed comparisons"))
            its = [e for e in es if not isnull(e)]
            ctx.ob("R10-unordered-exact", f"{q}:{t}", bool(es) and all(T(e.value[1][1]).endswith("._equal") for e in its), "unordered contents compared pairwise", it.fi.loc())
    it, es = rets(isinst(O(), "obj", "list").when(SEEN, False).order(r".*_MAX_MEMOIZE_COMPARABLE_SIZE", r".*", "lt"))
    its = loops_over(it, r"obj")
    ctx.ob("R10-bounded", q, bool(its) and all(i.kind in ("return", "break", "hit") for i in its) and not any(
        not isnull(e) for e in es if any(("elem(obj" in T(x)) for f in e.facts for x in f[1:] if isinstance(x, tuple))), "arbitrarily large values are compared", it.fi.loc())
    it, es = rets(isinst(O(), "obj", "dict").when(SEEN, False))
    its = loops_over(it, r"^obj")
    ctx.ob("R10-mappings-by-value", q, bool(its) and all(T(strip_iter(i.iter)) == "obj.items()" for i in its if T(strip_iter(i.iter)).startswith("obj")),
           "the values of a mapping are not compared", it.fi.loc())
    none = lambda: O().fn(lambda a, s: False if a[0] == "truth" and T(a[1]).startswith("isinstance(") else None, "no known type").when(SEEN, False).when(
        r"__closure__|getattr\(obj, '__closure__', None\)", False).when(r"^type\(obj\) (==|is|in) ", False)
    it, es = rets(none().when(r"\.startswith\(", False))
    every(ctx, "R11-unknown-incomparable", q, es, isnull, "a value of an unknown type is compared", lambda e: it.fi.loc(e.node))
    it, es = rets(
        O().fn(lambda a, s: False if a[0] == "truth" and T(a[1]).startswith("isinstance(") else None, "no container").when(SEEN, False).when(
            r"__closure__|getattr\(obj, '__closure__', None\)", True))
    every(ctx, "R11-closures-incomparable", q, es, isnull, "a function with closed-over variables is compared by its definition", lambda e: it.fi.loc(e.node))
    for lib in ("numpy", "pandas"):
        it, es = rets(none().when(rf"\.startswith\(.*{lib}", True).when(r"\.startswith\(", False).when(r"\.endswith\(", True))
        vals = [e for e in es if not isnull(e)]
        every(ctx, "R12-arrays-snapshotted", f"{q}:{lib}", vals, lambda e: T(e.value[1][0]) != "obj", "an array or table is compared with itself rather than a copy", lambda e: it.fi.loc(e.node))
        every(ctx, "R12-array-comparison", f"{q}:{lib}", [e for e in vals if "obj.copy(" in T(e.value[1][0])], lambda e: re.search(r"\._(array|dataframe)_equal$", T(e.value[1][1])) is not None,
          "arrays are not compared element-wise")
    # the comparisons themselves
    q = "Symbol._equal"
    it = ctx.run(q, None, lambda e: False)
    two(ctx, "R13-equal-typed", q, it, [(r"type\(obj1\) is type\(obj2\)|type\(obj2\) is type\(obj1\)|type\(obj1\) == type\(obj2\)|type\(obj2\) == type\(obj1\)", "types"),
                                        (r"^obj1 == obj2$|^obj2 == obj1$", "values")])
    q = "Symbol._array_equal"
    it = ctx.run(q, None, lambda e: False)
    TY = r"^type\(obj1\) (is|==) type\(obj2\)$|^type\(obj2\) (is|==) type\(obj1\)$"
    two(ctx, "R13-arrays", q, it, [(TY, "types"), (r"^obj1\.dtype == obj2\.dtype$|^obj2\.dtype == obj1\.dtype$", "element types"), (r"array_equal\(", "elements")])
    for f in (q, "Symbol._dataframe_equal"):
        it = ctx.run(f, None, lambda e: False, implicit_exc=True, noraise={"type"})
        ctx.ob("R13-failing-comparison-unequal", f, all(e.kind != "raise" for e in it.ends if "numpy" not in T(e.value or NONE)) or all(e.kind == "return" or not any(
            True for _ in ()) and e.node is not None and isinstance(e.node, (ast.Import, ast.ImportFrom)) for e in it.ends), "a failing comparison surfaces", it.fi.loc())
        it = ctx.run(f, None, lambda e: e.kind == "except")
        every(ctx, "R13-failing-comparison-unequal", f + ":value", [e for e in it.ends if any(x.kind == "except" for x in e.trace) and e.kind == "return"],
              lambda e: T(e.value) == "False", "a failing comparison counts as equal")
    fi = ctx.F("Symbol._make_list_eq")
    nodes = [x for x in ast.walk(fi.node) if isinstance(x, ast.FunctionDef) and x is not fi.node]
    if len(nodes) == 1:
        f2 = FuncInfo(nodes[0].name, fi.qual + "." + nodes[0].name, nodes[0], None, fi.module, fi)
        f2.oldkey = f2.key
        a, b = [x.arg for x in nodes[0].args.args][:2]
        q = f2.qual
        run = lambda o: ctx.run(f2, o, lambda e: False, closure={})
        KIND, LEN = rf"^isinstance\({b}, tuple\)$", rf"^len\(.*\) == len\(.*\)$"
        TAG = rf"^{a}\[0\] (is|==) {b}\[0\]$|^{b}\[0\] (is|==) {a}\[0\]$"
        EQS = r"^elem\(eqs.*\)\("
        for lab, o in (("other kind", O().when(KIND, False)), ("other type", O().when(KIND, True).when(TAG, False)),
                       ("other length", O().when(KIND, True).when(TAG, True).when(LEN, False))):
            it = run(o)
            every(ctx, "R14-lists", f"{q}:{lab}", [e for e in it.ends if e.kind == "return"], lambda e: T(e.value) == "False", "different containers compare equal")
        it = run(O().when(KIND, True).when(TAG, True).when(LEN, True).when(EQS, False))
        its = [i for i in it.iterations]
        ctx.ob("R14-lists", f"{q}:other element", bool(its) and all(i.kind in ("return", "hit", "break") for i in its) and not any(
            i.kind == "return" and T(i.value if hasattr(i, 'value') else FALSE) == "True" for i in its), "containers with different elements compare equal", fi.loc())
        it = run(O().when(KIND, True).when(TAG, True).when(LEN, True).when(EQS, True))
        every(ctx, "R14-lists", f"{q}:same", [e for e in it.ends if e.kind == "return"], lambda e: T(e.value) == "True" or T(e.value).startswith("all("), "equal containers differ")
    else:
        ctx.ob("R14-lists", fi.qual, False, "no comparison of containers is returned", fi.loc())
    # functions and classes
    q = "Symbol.make_memoize_comparable"
    DEF = isinst(O(), r"self\.stmt_node", "FunctionDef", "ClassDef", "AsyncFunctionDef")
    SAMECELL = r"^self\.(timestamp|shallow_timestamp)\.cell_num == self\.(timestamp|shallow_timestamp)\.cell_num$"
    it = ctx.run(q, DEF.when(SAMECELL, False), lambda e: False)
    null = lambda e: e.value[0] == "tuple" and T(e.value[1][0]).endswith(".NULL")
    every(ctx, "R15-changed-definitions", q, [e for e in it.ends if e.kind == "return"], null, "a function or class changed after its definition is compared by the definition")
    it = ctx.run(q, isinst(O(), r"self\.stmt_node", "FunctionDef", "ClassDef", "AsyncFunctionDef").when(SAMECELL, True), lambda e: e.kind == "call")
    every(ctx, "R15-definition-text", q, [e for e in it.ends if e.kind == "return" and not null(e)], lambda e: any(x.is_call("unparse", "dump") for x in e.trace),
          "functions or classes with different definitions compare equal")
    for lab, r in (("incomparable", r"make_memoize_comparable\(.*\)\[0\] is \w+\.NULL$|^\w+\.NULL is .*make_memoize_comparable\("),):
        it = ctx.run(q, isinst(O(), r"self\.stmt_node", "FunctionDef", "ClassDef", "AsyncFunctionDef").when(SAMECELL, True).when(r, True), lambda e: False)
        its = loops_over(it, r"self\.parents")
        ctx.ob("R15-dependencies-compared", f"{q}:{lab}", bool(its) and all(i.kind in ("return", "break", "hit") for i in its), "a function depending on an incomparable value is compared", it.fi.loc())
    ctx.each_iter("R15-dependencies-compared", q, r"self\.parents", lambda e: e.is_call("append", "add", "extend") and any("make_memoize_comparable(" in T(x) for x in e.b),
                  isinst(O(), r"self\.stmt_node", "FunctionDef", "ClassDef", "AsyncFunctionDef").when(SAMECELL, True).when(
        r"make_memoize_comparable\(.*\)\[0\] is \w+\.NULL$|^\w+\.NULL is .*make_memoize_comparable\(", False).when(r"make_memoize_comparable\(.*\)\[1\] is .*_equal$|_equal is ", True),
        construct=q + ":all", why="a value the function depends on is not compared", kinds=("next",))
    it = ctx.run(q, O().fn(lambda a, s: False if a[0] == "truth" and T(a[1]).startswith("isinstance(") else None, "value").order(
        r".*_MAX_MEMOIZE_COMPARABLE_SIZE", r".*\[2\]", "lt"), lambda e: False)
    every(ctx, "R10-bounded", q, [e for e in it.ends if e.kind == "return"], null, "arbitrarily large values are compared")
    # ---- replay
    q = "IPyflowInteractiveShell._get_content_for_memoized_run"
    CTR = r"cell\.get_memoized_counter\(\)"
    for lab, o in (("first run", O().when(r"^(cell\.prev_cell is None|None is cell\.prev_cell)$", True)), ("no match", O().when(
            rf"^({CTR} is None|None is {CTR})$", True))):
        it = ctx.run(q, o, lambda e: e.kind in ("setitem", "assign") or e.is_call("update_obj_ref", "refresh"))
        every(ctx, "R16-no-replay", f"{q}:{lab}", [e for e in it.ends if e.kind == "return"], lambda e: T(e.value) == "None" and not e.trace, "something is restored without a matching run")
    hit = lambda: O().when(r"^(cell\.prev_cell is None|None is cell\.prev_cell)$", False).when(rf"^({CTR} is None|None is {CTR})$", False)
    OUTS = rf"cell\.prev_cell\._memoized_executions\[\(cell\.executed_content or ''\)\]\[{CTR}\]{fld(FE, 'outputs')}"
    OUT = rf"elem\({OUTS}\)"
    OSY, OTS, OV = (OUT + fld(FO, x) for x in ("symbol", "ts_at_execution", "value"))
    INT = lambda e: e.kind in ("setitem", "assign") or e.is_call("update_obj_ref", "refresh", "show", "create_and_track")
    it = ctx.run(q, hit().when(rf"^({OSY}\.obj is {OV}|{OV} is {OSY}\.obj)$", False), INT)
    restore = [i for i in loops_over(it, OUTS) if i.kind == "next"]
    every(ctx, "R16-outputs-restored", q + ":namespace", restore, lambda i: any(e.kind == "setitem" and T(e.a).endswith("user_ns") and re.fullmatch(rf"{OSY}\.name", T(e.b)) and re.fullmatch(
        OV, T(e.c)) for e in i.events), "a recorded value is not put back into the user's namespace")
    every(ctx, "R16-outputs-restored", q + ":symbol", restore, lambda i: any(e.is_call("update_obj_ref") and re.fullmatch(OSY, T(e.recv)) and re.fullmatch(OV, T(e.b[0])) for e in i.events),
          "the symbol is not restored to the recorded value")
    for same in (True, False):
        it = ctx.run(q, hit().when(rf"^({OSY}\.obj is {OV}|{OV} is {OSY}\.obj)$", same), INT)
        every(ctx, "R16-outputs-refreshed", f"{q}:{'same' if same else 'other'} object", [i for i in loops_over(it, OUTS) if i.kind == "next"], lambda i: any(
            e.is_call("refresh") and re.fullmatch(OSY, T(e.recv)) and refreshed_now(e, OTS) for e in i.events), "a restored output does not count as updated by this run")
    it = ctx.run(q, hit(), INT)
    ends = [e for e in it.ends if e.kind == "return"]
    every(ctx, "R16-replay-marked", q, ends, lambda e: any(assigns(x, r"^cell\.skipped_due_to_memoization_ctr$") and re.fullmatch(CTR, T(x.b)) for x in e.trace),
          "the run is not marked as a replay of the matching one")
    every(ctx, "R16-replayed-text", q, ends, lambda e: re.fullmatch(rf"cell\.get_transformed_memoized_content\((ctr=)?{CTR}\)", T(e.value)) is not None, "the replayed display is not the matching run's")
    DISP = rf"cell\.prev_cell\._memoized_executions\[\(cell\.executed_content or ''\)\]\[{CTR}\]{fld(FE, 'displayed_output')}"
    for lvl, shown in (("VERBOSE", True), ("NORMAL", False), ("QUIET", False)):
        it = ctx.run(q, hit().enum(r"memoized_output_level$", lvl), INT)
        every(ctx, "R16-display", f"{q}:{lvl}", [e for e in it.ends if e.kind == "return"], lambda e: any(x.is_call("show") and re.fullmatch(DISP, T(x.recv)) for x in e.trace) == shown,
              "recorded output is shown at the wrong verbosity")
    q = "Cell.get_transformed_memoized_content"
    for lvl, want in (("QUIET", r"pass"), ("NORMAL", r"'?Out\.get\(\{ctr\}\)'?"), ("VERBOSE", r"'?Out\.get\(\{ctr\}\)'?")):
        it = ctx.run(q, O().enum(r"memoized_output_level$", lvl).when(r"^(ctr is None|None is ctr)$", False), lambda e: False)
        every(ctx, "R16-display", f"{q}:{lvl}", [e for e in it.ends if e.kind == "return"], lambda e: re.fullmatch(want, text_of(e.value)) is not None, "the replayed cell text is wrong")
    it = ctx.run("parse_verbosity", None, lambda e: False)
    for flag, lvl in (("quiet", "QUIET"), ("verbose", "VERBOSE"), (None, "NORMAL")):
        o = O()
        for f in ("quiet", "verbose"):
            o.when(rf"\.{f}$", f == flag)
        it = ctx.run("parse_verbosity", o, lambda e: False)
        every(ctx, "R17-header", f"parse_verbosity:{flag}", [e for e in it.ends if e.kind == "return"], lambda e: T(e.value) == f"MemoizedOutputLevel.{lvl}", "verbosity flag misread")
    q = "Cell.get_memoized_content_and_output_level"
    it = ctx.run(q, O().when(r"\.startswith\('%%memoize'\)", False), lambda e: False)
    every(ctx, "R17-header", q, [e for e in it.ends if e.kind == "return"], lambda e: T(e.value) == "(None, None)", "a cell without the header is memoized")
    it = ctx.run("Cell.is_memoized", None, lambda e: False)
    vals = {r"memoized_output_level is None$|^None is .*memoized_output_level": True}
    every(ctx, "R17-header", "Cell.is_memoized", [e for e in it.ends if e.kind == "return"], lambda e: bval(e.value, vals) is False, "a cell without the header is memoized")


def two(ctx, rule, construct, it, parts):
    """the returned truth value is the conjunction of all parts (as one expression or as guards)"""
    for r, lab in parts:
        def ok(e):
            if T(e.value) == "False":
                return True
            conj = list(e.value[1]) if e.value[0] == "and" else [e.value]
            if any(re.search(r, x) for c in conj for x in (atexts(c) if c[0] == "cmp" else [T(c)])):
                return True
            return any(v and any(re.search(r, x) for x in atexts(k)) for k, v in e.facts.items())
        es = [e for e in it.ends if e.kind == "return"]
        ctx.ob(rule, f"{construct}:{lab}", bool([e for e in es if T(e.value) != "False"]) and all(ok(e) for e in es), f"{lab} are not compared", it.fi.loc())


def args_of(ev, fs):
    d = {k: v for k, v in ev.c}
    return [ev.b[i] if i < len(ev.b) else d.get(f, NONE) for i, f in enumerate(fs)]


def inputs_ok(ev, fs):
    a = [T(x) for x in args_of(ev, fs)]
    s = a[fs.index("symbol")]
    return (a[fs.index("ts_at_execution")] == s + ".timestamp" and a[fs.index("mem_ts_at_execution")] == s + ".memoize_timestamp" and
            a[fs.index("obj_id_at_execution")] == s + ".obj_id" and a[fs.index("comparable")] == s + ".make_memoize_comparable()[0]")


def refreshed_now(ev, ots):
    d = {k: T(v) for k, v in ev.c}
    t = d.get("timestamp", T(ev.b[0]) if ev.b else "")
    return re.fullmatch(rf"Timestamp\((cell_num=)?self\.cell_counter\(\), (stmt_num=)?{ots}\.stmt_num\)", t) is not None
