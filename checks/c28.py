from sa import visitors as V

from .common import *
from .c08 import callkw, ctor_args, live

TITLE = "What a statement binds"
PROP = dict(
    title="Whatever a statement binds is recorded with the values it was computed from",
    statement="Whatever a statement binds (names, members, items, nested and starred targets, loop and with targets, functions, classes, imports) is recorded under that name, "
              "in the scope where Python binds it, with the object that is now bound to it. What is recorded as its dependencies are the values it was computed from: the matching element "
              "where the elements of the value are known, and everything that was read otherwise. A plain binding replaces what was recorded before, an augmented one adds to it; "
              "a change of several items is a change of their container, and what is deleted is forgotten in the scope where it was bound. Dependencies are always recorded in both directions.",
    over=["programs"],
    qtext="every statement, every nesting of targets, and every known or unknown value",
    why_tests_cant="Tests bind a few names in a few ways; kinds of statements, nestings of targets, scopes and kinds of values combine without bound, and a wrong edge silently loses or invents a dependency.",
    files=["core/ipyflow/analysis/symbol_edges.py", "core/ipyflow/analysis/utils.py", "core/ipyflow/tracing/symbol_resolver.py", "core/ipyflow/tracing/utils.py",
           "core/ipyflow/tracing/ipyflow_tracer.py", "core/ipyflow/data_model/statement.py", "core/ipyflow/data_model/scope.py", "core/ipyflow/data_model/symbol.py"],
    mechanism=[("what a statement binds", "analysis/symbol_edges.py, data_model/statement.py"), ("what a value was computed from", "tracing/symbol_resolver.py, tracing/utils.py"),
               ("where it is bound", "tracing/ipyflow_tracer.py"), ("recording it", "data_model/scope.py, data_model/symbol.py")],
    observe=["dependencies of symbols", "cells that are ready or waiting"],
)
TECHNIQUE = "path-sensitive abstract interpretation per kind of syntax: which targets are paired with which values, which children are read, in which scope and with which dependencies each target is recorded"
LEVEL_NOTE = "Decides which values each target is recorded with for all statements; what a single read refers to is decided by C24."
EDGES = "GetSymbolEdges"
RV = "ResolveRvalSymbols"


def returns(it):
    return [e for e in it.ends if e.kind == "return"]


class Sweep:
    """one visitor, run per kind of node"""

    def __init__(self, ctx, cls, stop=("visit", "generic_visit")):
        self.ctx, self.cls = ctx, cls
        self.v = V.Visitor(ctx, cls)
        self.opq = {f"{c}.{m}" for c, m in self.v.methods() if m in stop}
        self.inl = {f"{c}.{m}" for c, m in self.v.methods() if m not in stop}

    def run(self, kind, o=None, **kinds):
        fi, _, generic = self.v.handler(kind)
        o = (o or O()).fn(V.kind_oracle(dict({"": kind}, **kinds)))
        p = [x for x in fi.params if x != "self"][0]
        return self.ctx.run(fi, o, lambda e: e.kind in ("call", "loop", "iter", "assign", "aug", "raise", "except"), params={p: ("var", "node")}, inline=self.inl, opaque=self.opq), generic


def visited(e, names=("visit", "generic_visit")):
    """what is visited on a path, in order; displays are taken apart"""
    out = []
    for x in e.trace:
        if x.kind != "call" or x.a[0] != "." or x.a[2] not in names or not x.b:
            continue
        if not (x.recv == ("var", "self") or x.recv is not None and T(x.recv).startswith("super")):
            continue
        t = x.b[0]
        if t[0] in ("list", "tuple"):
            out += [V.path(u) or T(u) for u in t[1]]
        elif t[0] in ("comp", "listcomp"):
            out.append(T(t))
        else:
            out.append(V.path(t) if V.path(t) is not None else T(t))
    return [re.sub(r"\*$", "", p) for p in out]


# ------------------------------------------------------------------ what a statement binds
def pairs(e):
    """(target, value) recorded on a path"""
    out = []
    for x in e.trace:
        if x.kind == "call" and x.a[0] == "." and x.a[2] in ("append", "insert") and T(x.recv) == "self.edges":
            t = x.b[-1]
            out.append(tuple(T(u) for u in t[1]) if t[0] == "tuple" else (T(t),))
    return out


def edges(ctx):
    sw = Sweep(ctx, EDGES, stop=("visit", "generic_visit", "_add_target_edges"))
    none = lambda r, v: O().when(rf"^\(?{r} is None\)?$|^\(?None is {r}\)?$", v).when(rf"^{r}$", not v)
    both = lambda a, b: {a, b}
    IN = "self._outermost_comprehension"
    cases = [
        ("AugAssign", None, [("node.target", "node.value")], {"value"}),
        ("AnnAssign", none(r"node\.value", False), [("node.target", "node.value")], {"value"}),
        ("AnnAssign", none(r"node\.value", True), [], set()),
        ("NamedExpr", O().when(r"self\._outermost_comprehension", False), [("node.target", "node.value|" + re.escape(f"({IN} or node.value)") + "|" + re.escape(f"{IN} or node.value"))], {"value"}),
        ("For", None, [("node.target", "node.iter")], {"iter"}), ("AsyncFor", None, [("node.target", "node.iter")], {"iter"}),
        ("If", None, [], {"test"}),
        ("FunctionDef", None, [("node.name", "node")], {"args", "decorator_list"}), ("AsyncFunctionDef", None, [("node.name", "node")], {"args", "decorator_list"}),
        ("ClassDef", None, [("node.name", "node")], {"bases", "decorator_list"}),
        ("With", None, [], {"items"}), ("AsyncWith", None, [], {"items"}),
        ("withitem", none(r"node\.optional_vars", True), [], {"context_expr"}),
    ]
    for k, o, want, kids in cases:
        it, g = sw.run(k, o)
        con = f"{EDGES}:{k}" + (":" + "no value" if k == "AnnAssign" and not want else "")
        ctx.ob("R1-bound", con + ": kind", not g, "such a statement is not told apart", it.fi.loc())
        for e in returns(it):
            got = pairs(e)
            ctx.ob("R1-bound", con, len(got) == len(want) and all(x[0] == w[0] and len(x) == 2 and re.fullmatch(w[1], x[1]) for x, w in zip(got, want)), f"it is taken to bind {got}", it.fi.loc(e.node))
            vs = set(visited(e))
            ctx.ob("R1-nested", con, kids <= vs and not vs & {"body", "orelse", "handlers", "finalbody"}, f"names that are bound inside of it are missed, or of what runs later counted: {sorted(vs)}", it.fi.loc(e.node))
        ctx.ob("R1-bound", con + ": paths", bool(returns(it)), "such a statement fails", it.fi.loc())
    # with ... as
    it, g = sw.run("withitem", none(r"node\.optional_vars", False))
    for e in returns(it):
        ad = [tuple(T(b) for b in x.b) for x in e.trace if x.is_call("_add_target_edges")] or pairs(e)
        ctx.ob("R1-bound", f"{EDGES}:withitem: as", ad == [("node.optional_vars", "node.context_expr")] and "context_expr" in visited(e), "the target of a with statement is not bound to its context", it.fi.loc())
    if "GetSymbolEdges._add_target_edges" in {f.qual for f in ctx.ix.funcs.values()}:
        for kind in ("Tuple", "List", "Name", "Attribute", "Subscript"):
            o = O().fn(V.kind_oracle({"": kind}, root="target"))
            it = ctx.run("GetSymbolEdges._add_target_edges", o, lambda e: e.kind in ("call", "iter"), opaque={"_add_target_edges"})
            seq = kind in ("Tuple", "List")
            if seq:
                its = loops_over(it, r"^target\.elts$")
                ok = bool(its) and all(i.kind != "break" and any(x.is_call("_add_target_edges") and re.fullmatch(r"elem\(target\.elts\)", T(x.b[0])) and T(x.b[1]) == "value" for x in i.events) for i in its)
                ctx.ob("R1-bound", f"{it.fi.qual}:{kind}", ok and not any(pairs(e) for e in returns(it)), "a target inside of another one is missed", it.fi.loc())
            else:
                every(ctx, "R1-bound", f"{it.fi.qual}:{kind}", returns(it), lambda e: pairs(e) == [("target", "value")], "a target is missed", lambda e: it.fi.loc())
    # imports
    for k in ("Import", "ImportFrom"):
        for asn in (True, False):
            it, g = sw.run(k, O().when(r"^elem\(node\.names\)\.asname$", asn).when(r"elem\(node\.names\)\.asname is None", not asn))
            its = loops_over(it, r"node\.names")
            want = {"elem(node.names).asname"} if asn else {"elem(node.names).name"}
            for i in its:
                got = pairs(type("E", (), {"trace": i.events}))
                ok = len(got) == 1 and got[0][1] == "elem(node.names)" and (got[0][0] in want or got[0][0] in ("(elem(node.names).asname or elem(node.names).name)", "elem(node.names).asname or elem(node.names).name"))
                ctx.ob("R1-bound", f"{EDGES}:{k}:renamed={asn}", ok and i.kind != "break", f"an import is taken to bind {got}", it.fi.loc())
            ctx.ob("R1-bound", f"{EDGES}:{k}:renamed={asn}: each", bool(its) and not g, "imports bind nothing", it.fi.loc())
    # anything else is searched for nested bindings
    for k in ("Assign", "Expr", "Return", "Assert", "Call", "BinOp", "List", "Tuple", "Subscript", "JoinedStr", "While", "Delete", "Raise", "IfExp"):
        fi, _, g = sw.v.handler(k)
        ctx.ob("R1-nested", f"{EDGES}:{k}", g, "such a construct is not searched", fi.loc() if fi else "")
    gf, gc = sw.v.lookup("generic_visit")
    for kind in ("Assign", "BinOp", "NamedExpr", "list"):
        o = O().fn(V.kind_oracle({"": kind})).when(r"^\(?node is None\)?$", False).when(r"hasattr\(ast, 'NamedExpr'\)", True)
        o.fn(lambda a, s: V.isa(kind, "expr") if a[0] == "truth" and T(a[1]) == "isinstance(node, ast.expr)" else kind == "NamedExpr" if a[0] == "truth" and T(a[1]).startswith("isinstance(node, getattr(ast, 'NamedExpr'") else None)
        it = ctx.run(gf, o, lambda e: e.kind == "call", params={gf.params[1]: ("var", "node")}, inline=sw.inl - {"GetSymbolEdges.visit_NamedExpr"}, opaque={"visit_NamedExpr"})
        for e in returns(it):
            if kind == "NamedExpr":
                ok = any(x.is_call("visit_NamedExpr") for x in e.trace)
            else:
                ok = any(x.is_call("generic_visit") and T(x.recv).startswith("super") for x in e.trace) and not any(x.is_call("visit_NamedExpr") for x in e.trace) or any(
                    x.is_call("visit") and "elem(node)" in T(x.b[0]) for x in e.trace) or kind == "list" and not any(x.kind == "iter" for x in e.trace)
            ctx.ob("R1-nested", f"{EDGES}:generic:{kind}", ok, "bindings inside of an expression are missed", it.fi.loc(e.node))
    # comprehensions and lambdas
    for k in ("ListComp", "SetComp", "DictComp", "GeneratorExp"):
        it, g = sw.run(k, O().when(r"self\._outermost_comprehension", False))
        for e in returns(it):
            ctx.ob("R1-nested", f"{EDGES}:{k}", any(x.is_call("generic_visit") for x in e.trace), "names that are bound inside of it are missed", it.fi.loc())
    it, g = sw.run("Lambda")
    for e in returns(it):
        ctx.ob("R1-nested", f"{EDGES}:Lambda", not g and set(visited(e)) == {"args"}, "names local to a lambda count as bound, or its defaults are missed", it.fi.loc())
    q = "GetSymbolEdges.__call__"
    it = ctx.run(q, None, lambda e: e.kind == "call", opaque={"visit"}, onlyraise=set())
    for e in returns(it):
        idx = [("v" if x.is_call("visit") and T(x.b[0]) == "node" else "r") for x in e.trace if x.is_call("visit") or x.is_call("reverse") and T(x.recv) == "self.edges"]
        v = T(e.value)
        ctx.ob("R1-order", q, (idx == ["v", "r"] and v == "self.edges" or idx == ["v"] and re.search(r"reversed\(self\.edges\)|self\.edges\[::-1\]", v) is not None), "what is bound inside of a value comes after what is computed from it", it.fi.loc())
    q = "get_symbol_edges"
    it = ctx.run(q, isinst(O(), "node", "AST").when(r"isinstance\(node, str\)", False), lambda e: e.kind == "call")
    every(ctx, "R1-order", q, returns(it), lambda e: T(e.value) == "GetSymbolEdges()(node)", "something else is searched", lambda e: it.fi.loc())
    # which statements bind
    q = "stmt_contains_lval"
    for k in [n for n in dir(ast) if isinstance(getattr(ast, n), type) and issubclass(getattr(ast, n), ast.stmt) and n not in ("stmt",)]:
        binds = k in ("Assign", "AnnAssign", "AugAssign", "ClassDef", "FunctionDef", "AsyncFunctionDef", "For", "AsyncFor", "Import", "ImportFrom", "With", "AsyncWith")
        it = ctx.run(q, O().fn(V.kind_oracle({"": k})), lambda e: e.kind == "call")
        for e in returns(it):
            v = bval(e.value, {r"^isinstance\(node, ": binds}) if e.value is not None else None
            t = T(e.value)
            if binds:
                ok = t == "True" or v is True
            else:
                ok = "ContainsNamedExprVisitor()(node)" in t and "not " not in t
            if k in ("TryStar", "Try", "Match", "If", "While", "Delete", "Expr") and t == "True":
                ok = False
            if not binds and k in ("Pass", "Break", "Continue", "Global", "Nonlocal"):
                ok = ok or t == "False"
            ctx.ob("R1-statements", f"{q}:{k}", ok, "such a statement counts as binding nothing" if binds else f"such a statement counts as binding something, or its assignment expressions do not: {t[:80]}", it.fi.loc())



# ------------------------------------------------------------------ what a value was computed from
RLS = r"tracer\(\)\.resolve_loaded_symbols"


def looked_up(e):
    """what is looked up among the loaded values on a path"""
    return [T(x.b[0]) for x in e.trace if x.is_call("resolve_loaded_symbols") and x.b]


def gained(e):
    """(source, text of the rest) of what is added to the result on a path"""
    out = []
    for x in e.trace:
        if x.is_call("_add_to_resolved"):
            out.append((T(x.b[0]), {"extend": callkw(x, "should_extend")}))
        elif x.is_call("extend", "append") and T(x.recv) == "self.symbols":
            out.append((T(x.b[0]), {}))
        elif x.kind == "aug" and T(x.a) == "self.symbols":
            out.append((T(x.c), {}))
    return out


def values(ctx):
    sw = Sweep(ctx, RV, stop=("visit", "generic_visit", "_add_to_resolved", "_resolve_symbols_without_side_effects", "_get_attr_or_subscript_namespace", "killed_context"))
    ob = ctx.ob

    def added(e, src):
        return any(re.search(src, a) and k.get("extend") in (None, "", "True") for a, k in gained(e))
    # names
    it, g = sw.run("Name")
    for e in returns(it):
        ob("R2-read", f"{RV}:Name", looked_up(e) == ["node"] and added(e, RLS + r"\(node\)"), "a name that is read is not a dependency", it.fi.loc())
    # displays
    for k, kids in (("List", {"elts"}), ("Tuple", {"elts"}), ("Dict", {"keys", "values"})):
        for known in (True, False):
            it, g = sw.run(k, O().when(rf"^{RLS}\(node\)$", known))
            for e in returns(it):
                con = f"{RV}:{k}:tracked={known}"
                if known:
                    ob("R2-displays", con, added(e, RLS + r"\(node\)"), "a display is not a dependency", it.fi.loc())
                else:
                    vs = " ".join(visited(e))
                    ob("R2-displays", con, all(c in vs for c in kids), "what an untracked display was made from is not a dependency", it.fi.loc())
    # only some children
    for k, kids, o in (("AugAssign", {"value"}, None), ("AnnAssign", {"value"}, None), ("For", {"iter"}, None), ("AsyncFor", {"iter"}, None), ("If", {"test"}, None),
                       ("FunctionDef", {"args", "decorator_list"}, None), ("AsyncFunctionDef", {"args", "decorator_list"}, None), ("ClassDef", {"bases", "keywords", "decorator_list"}, None),
                       ("With", {"items"}, None), ("AsyncWith", {"items"}, None), ("withitem", {"context_expr"}, None), ("keyword", {"value"}, None), ("Starred", {"value"}, None),
                       ("Import", set(), None), ("ImportFrom", set(), None)):
        it, g = sw.run(k, o)
        for e in returns(it):
            vs = set(visited(e))
            ob("R2-parts", f"{RV}:{k}", not g and vs == kids, f"{sorted(vs)} counts as what the value was computed from instead of {sorted(kids)}", it.fi.loc(e.node))
        ob("R2-parts", f"{RV}:{k}: paths", bool(returns(it)), "such a construct fails", it.fi.loc())
    fi, _, _ = sw.v.handler("arguments")
    it, g = sw.run("arguments")
    for e in returns(it):
        ob("R2-parts", f"{RV}:arguments", {"defaults", "kw_defaults"} <= set(visited(e)) and not set(visited(e)) & {"args", "posonlyargs", "kwonlyargs"}, "defaults are not dependencies, or parameters are", it.fi.loc())
    it, g = sw.run("Lambda")
    for e in returns(it):
        ob("R2-read", f"{RV}:Lambda", added(e, RLS + r"\(node\)") and "body" not in visited(e), "a function is not a dependency", it.fi.loc())
    # calls
    for k in ("Name", "Attribute", "Subscript", "Call"):
        it, g = sw.run("Call", None, func=k)
        for e in returns(it):
            vs = set(visited(e))
            ob("R2-calls", f"{RV}:Call:{k}", {"args", "keywords"} <= vs, f"the arguments of a call are not dependencies of its result: {sorted(vs)}", it.fi.loc())
            ob("R2-calls", f"{RV}:Call:{k}: function", added(e, RLS + r"\(node\.func\)") and (k not in ("Attribute", "Subscript") or "func" in vs), "the function is not a dependency of its result", it.fi.loc())
            ob("R2-calls", f"{RV}:Call:{k}: result", added(e, RLS + r"\(node\)"), "what a call gave back is not a dependency", it.fi.loc())
    # members
    for known in (True, False):
        for call in (True, False):
            o = O().when(rf"len\({RLS}\(node\)\) > 0", known).when(rf"^{RLS}\(node\)$", known)
            o.when(r"_get_attr_or_subscript_namespace\(node\) is None", False).when(r"lookup_symbol_by_name_this_indentation\(.*\) is None", False)
            it, g = sw.run("Attribute", o, value="Call" if call else "Name")
            for e in returns(it):
                con = f"{RV}:Attribute:tracked={known}:of call={call}"
                if call:
                    ob("R2-members", con + ": call", "value" in visited(e), "the call a member is taken of is not a dependency", it.fi.loc())
                if known:
                    ob("R2-members", con, added(e, RLS + r"\(node\)"), "a member that is read is not a dependency", it.fi.loc())
                    ob("R2-members", con + ": only", not any(x.is_call("lookup_symbol_by_name_this_indentation") for x in e.trace), "another member is a dependency as well", it.fi.loc())
                elif not any(x.is_call("exception") for x in e.trace):
                    lk = [x for x in e.trace if x.is_call("lookup_symbol_by_name_this_indentation")]
                    ob("R2-members", con, len(lk) == 1 and T(lk[0].b[0]) == "node.attr" and callkw(lk[0], "is_subscript") == "False" and "_get_attr_or_subscript_namespace(node)" in T(lk[0].recv) and
                       any("lookup_symbol_by_name_this_indentation" in a for a, _ in gained(e)), "an untracked member is not a dependency", it.fi.loc())
    # items
    KN = lambda v: lambda a, s: v if a[0] == "truth" and "resolve_loaded_symbols(node)" in T(a[1]) and "isinstance" not in T(a[1]) else None
    LK = lambda x: x.is_call("lookup_symbol_by_name_this_indentation")
    IX = r"resolve_slice_to_constant\(node\)"
    for known in (True, False):
        for incl in (True, False):
            it, g = sw.run("Subscript", O().when(r"^self\.include_slices$", incl).fn(KN(known)), value="Name")
            for e in returns(it):
                con = f"{RV}:Subscript:tracked={known}:with index={incl}"
                sl = [x for x in e.trace if x.is_call("_resolve_symbols_without_side_effects") and T(x.b[0]) == "node.slice"]
                ob("R2-index", con, bool(sl) == incl and all(callkw(x, "include_slices") in (None, "", "True") for x in sl), "what an item was selected with is not a dependency" if incl else "the index counts as the container of an item", it.fi.loc())
                ob("R2-items", con + ": read", looked_up(e)[:1] == ["node"], "an item that is read is not a dependency", it.fi.loc())
                if known:
                    kept = [a for a, k in gained(e) if k.get("extend") in (None, "", "True")]
                    ob("R2-items", con, any("resolve_loaded_symbols(node)" in a for a in kept), "an item that is read is not a dependency", it.fi.loc())
                    ob("R2-items", con + ": only", not any(LK(x) for x in e.trace), "another item is a dependency as well", it.fi.loc())
                    ext = [x for x in e.trace if x.is_call("extend", "append") and T(x.recv) != "self.symbols"]
                    if incl:
                        ob("R2-index", con + ": kept", any("node.slice" in T(x.b[0]) for x in ext) or any("node.slice" in a for a in kept), "what an item was selected with is not a dependency", it.fi.loc())
                    ob("R2-index", con + ": copy", all(re.match(r"list\(|\[", T(x.recv)) for x in ext), "what was loaded for an item grows with every read of it", it.fi.loc())
    O1 = lambda nm, neg: O().when(r"^self\.include_slices$", False).fn(KN(False)).when(rf"{IX} is None|None is {IX}", False).when(rf"isinstance\({IX}, ast\.Name\)", nm).when(r"without_side_effects\(node\.value.*\[0\] is None", False).when(
        r"_get_attr_or_subscript_namespace\(node\) is None", False).fn(lambda a, s: True if a[0] == "cmp" and a[1] == "==" and any(x.startswith("len(self._resolve") for x in atexts(a)) else None).when(rf"isinstance\({IX}, int\)", neg).when(rf"{IX} < 0", neg)
    it, g = sw.run("Subscript", O1(True, False), value="Name")
    every(ctx, "R2-items", f"{RV}:Subscript:unknown index", returns(it), lambda e: not any(LK(x) for x in e.trace), "the item at an unknown index is a dependency", lambda e: it.fi.loc())
    for own in (True, False):
        for neg in (True, False):
            it, g = sw.run("Subscript", O1(False, neg).when(rf"lookup_symbol_by_name_this_indentation\({IX}, is_subscript=True\) is None", not own).when(r"lookup_symbol_by_name_this_indentation\(\(.*\), is_subscript=True\) is None", False), value="Name")
            for e in returns(it):
                if any(x.is_call("exception") for x in e.trace) or any(x.kind == "except" for x in e.trace):
                    continue
                lk = [x for x in e.trace if LK(x)]
                want = ["resolve_slice_to_constant(node)"] + (["len"] if neg and not own else [])
                ok = len(lk) == len(want) and T(lk[0].b[0]) == want[0] and all("_get_attr_or_subscript_namespace(node)" in T(x.recv) and callkw(x, "is_subscript") == "True" for x in lk)
                if len(want) == 2 and ok:
                    t = T(lk[1].b[0])
                    ok = re.fullmatch(r"\(?(len\(self\._get_attr_or_subscript_namespace\(node\)\) \+ resolve_slice_to_constant\(node\)|resolve_slice_to_constant\(node\) \+ len\(self\._get_attr_or_subscript_namespace\(node\)\))\)?", t) is not None
                ob("R2-items", f"{RV}:Subscript:untracked:found={own}:negative={neg}", ok, "an untracked item is looked up elsewhere", it.fi.loc())
                if own or neg:
                    ob("R2-items", f"{RV}:Subscript:untracked:found={own}:negative={neg}: kept", any("lookup_symbol_by_name_this_indentation" in a for a, _ in gained(e)), "an untracked item is not a dependency", it.fi.loc())
    it, g = sw.run("Subscript", O().when(r"^self\.include_slices$", True), value="Call")
    every(ctx, "R2-items", f"{RV}:Subscript: of call", returns(it), lambda e: "value" in visited(e), "the call an item is taken of is not a dependency", lambda e: it.fi.loc())
    # comprehensions
    for k in ("ListComp", "SetComp", "GeneratorExp", "DictComp"):
        it, g = sw.run(k)
        fi = it.fi
        for e in returns(it):
            vs = set(visited(e))
            want = {"key", "value"} if k == "DictComp" else {"elt"}
            ob("R2-comprehensions", f"{RV}:{k}", not g and want <= vs, "what the elements are computed from is not a dependency", fi.loc())
        its = loops_over(it, r"node\.generators")
        ok = bool([i for i in its if i.kind == "next"]) and all({"elem(node.generators).iter", "elem(node.generators).ifs"} <= {T(x.b[0]) for x in i.events if x.is_call("visit")} for i in its if i.kind == "next" and any(x.is_call("visit") for x in i.events))
        ok = ok and any(x.is_call("visit") for i in its for x in i.events)
        ob("R2-comprehensions", f"{RV}:{k}: sources", ok, "what a comprehension ranges over, or its conditions, are not dependencies", fi.loc())
        kc = [T(x.b[0]) for e in returns(it) for x in e.trace if x.is_call("killed_context")]
        ob("R2-comprehensions", f"{RV}:{k}: variables", bool(kc) and all(re.search(r"\.target\b", t) and "node.generators" in t for t in kc), "the variables of a comprehension count as read", fi.loc())
    q = "ResolveRvalSymbols.killed_context"
    it = ctx.run(q, None, lambda e: e.kind in ("enter", "exit", "yield", "assign", "aug_assign", "call"), opaque={"visit", "push_attributes"}, onlyraise=set())
    for e in returns(it):
        pa = [x for x in e.trace if x.is_call("push_attributes")]
        ob("R2-comprehensions", q, len(pa) == 1 and callkw(pa[0], "_in_kill_context") == "True" and callkw(pa[0], "dead") in ("set()", "new_set") and any(x.is_call("visit") and T(x.b[0]) == "node" for x in e.trace),
           "the variables of a comprehension count as read", it.fi.loc())
        seq = ["y" if x.kind == "yield" else "+" if x.c is not None and "dead" in T(x.a) and T(x.b) in ("|", "|=") else "-" for x in e.trace if x.kind == "yield" or x.kind in ("assign", "aug_assign") and T(x.a) == "self.dead"]
        ob("R2-comprehensions", q + ": while", "y" in seq and 0 < seq.index("y") < len(seq) - 1, "the variables of a comprehension count as read, or names outside of it do not", it.fi.loc())
    # collecting
    q = "ResolveRvalSymbols._add_to_resolved"
    EX = lambda e: e.is_call("extend", "append") and T(e.recv) == "self.symbols" or e.kind in ("aug", "aug_assign") and T(e.a) == "self.symbols"
    KI = lambda e: e.kind in ("aug", "aug_assign", "assign") and T(e.a) == "self.dead" or e.is_call("update", "add") and T(e.recv) == "self.dead"
    US = lambda e: e.is_call("update_usage_info")
    for kill in (True, False):
        for ext in (True, False):
            for upd in (True, False):
                for upd2 in (True, False):
                    o = O().when(r"^self\._in_kill_context$", kill).when(r"^should_extend$", ext).when(r"^self\.update_usage_info$", upd).when(r"^should_update_usage_info$", upd2)
                    it = ctx.run(q, o, lambda e: EX(e) or KI(e) or US(e))
                    for e in returns(it):
                        con = f"{q}:variable={kill}:kept={ext}:use={upd}:{upd2}"
                        xs, ks, us = [x for x in e.trace if EX(x)], [x for x in e.trace if KI(x)], [x for x in e.trace if US(x)]
                        ob("R2-collected", con, bool(xs) == (ext and not kill), "a value that is read is not a dependency" if ext and not kill else "a value that is not read is a dependency", it.fi.loc())
                        ob("R2-collected", con + ": variables", bool(ks) == kill, "the variables of a comprehension count as read, or other names do not", it.fi.loc())
                        ob("R2-uses", con, bool(us) == (upd and upd2 and not kill), "a use is not recorded, or one is recorded that did not happen", it.fi.loc())
                        for x in xs:
                            v = T(x.c if x.kind.startswith("aug") else x.b[0])
                            ob("R2-collected", con + ": dead", "not in self.dead" in v or "- self.dead" in v or "in self.dead" in v, "a variable of a comprehension counts as read", it.fi.loc())
                        for x in us:
                            ob("R2-uses", con + ": what", callkw(x, "used_node") == "used_node" and callkw(x, "exclude_ns") == "self.exclude_ns", "a use is recorded at the wrong place", it.fi.loc())
    q = "ResolveRvalSymbols._resolve_symbols_without_side_effects"
    it = ctx.run(q, None, lambda e: e.kind in ("call", "enter", "exit"), opaque={"visit", "push_attributes"}, onlyraise=set())
    for e in returns(it):
        pa = [x for x in e.trace if x.is_call("push_attributes")]
        ok = len(pa) == 1 and callkw(pa[0], "symbols") in ("[]", "new_list", "list()") and callkw(pa[0], "_in_kill_context") == "False" and callkw(pa[0], "update_usage_info") == "False" and callkw(pa[0], "include_slices") == "include_slices" \
            and re.fullmatch(r"set\(self\.dead\)|self\.dead\.copy\(\)", callkw(pa[0], "dead") or "") is not None
        ob("R2-index", q, ok and any(x.is_call("visit") and T(x.b[0]) == "node" for x in e.trace) and "self.symbols" in T(e.value) and "None" in T(e.value), "looking at a part of an expression changes what was read elsewhere in it", it.fi.loc())
    q = "ResolveRvalSymbols._get_attr_or_subscript_namespace"
    W = r"self\._resolve_symbols_without_side_effects\(node\.value, include_slices=False\)"
    for one in (True, False):
        o = O().fn(lambda a, s: (one if a[1] == "==" else not one) if a[0] == "cmp" and any(x.startswith("len(self._resolve") for x in atexts(a)[1:] + atexts(a)) and a[1] in ("==", "!=") else None).when(rf"{W}\[0\] is None", False)
        it = ctx.run(q, o, lambda e: False, opaque={"_resolve_symbols_without_side_effects"})
        want = rf"flow\(\)\.namespaces\.get\({W}\[0\]\.obj_id(, None)?\)" if one else "None"
        every(ctx, "R2-members", f"{q}:one={one}", returns(it), lambda e: re.fullmatch(want, T(e.value)) is not None, "a member is looked up in another object", lambda e: it.fi.loc(e.node))
    q = "ResolveRvalSymbols.__call__"
    it = ctx.run(q, None, lambda e: e.kind == "call", opaque={"visit"}, onlyraise=set())
    every(ctx, "R2-collected", q, returns(it), lambda e: any(x.is_call("visit") and T(x.b[0]) == "node" for x in e.trace) and "self.symbols" in T(e.value) and "None" in T(e.value), "what was read is not given back", lambda e: it.fi.loc())
    it = ctx.run("ResolveRvalSymbols.__init__", None, lambda e: e.kind == "assign")
    ini = {T(x.a): T(x.b) for x in it.allevents.values()}
    for a, want in (("self.symbols", "new_list"), ("self.update_usage_info", "update_usage_info"), ("self.dead", "new_set"), ("self._in_kill_context", "False"), ("self.exclude_ns", "False"), ("self.include_slices", "True")):
        ob("R2-collected", f"{RV}:{a}", ini.get(a) == want, f"reads start out wrong: {ini.get(a)}", it.fi.loc())
    # as a whole
    q = "resolve_rval_symbols"
    st = r"static_resolve_rvals"
    RES = r"ResolveRvalSymbols\(should_update_usage_info\)\("
    for kind, nov in (("Assign", False), ("AugAssign", False), ("AnnAssign", False), ("AnnAssign", True), ("BinOp", False), ("For", False)):
        for empty in (True, False):
            for upd in (True, False):
                o = O().fn(V.kind_oracle({"": kind}, root="rval_node")).when(r"isinstance\(rval_node, str\)", False).when(r"^\(?rval_node\.value is None\)?$", nov).when("^should_update_usage_info$", upd)
                o.fn(lambda a, s: empty if a[0] == "cmp" and a[1] == "==" and "len(ResolveRvalSymbols(" in " ".join(atexts(a)) else None).when(rf"^{RES}.*\)$", not empty)
                it = ctx.run(q, o, lambda e: e.is_call("static_resolve_rvals", "update_usage_info") or e.kind == "call" and "ResolveRvalSymbols(" in T(e.a))
                n = "rval_node.value" if kind.endswith("Assign") else "rval_node"
                for e in returns(it):
                    con = f"{q}:{kind}:no value={nov}:nothing loaded={empty}:use={upd}"
                    if nov:
                        ob("R2-whole", con, T(e.value) in ("set()", "new_set"), "something is read where no value is", it.fi.loc())
                        continue
                    sc = [x for x in e.trace if x.is_call("static_resolve_rvals")]
                    ob("R2-whole", con + ": read", any(x.kind == "call" and "ResolveRvalSymbols(" in T(x.a) and T(x.b[0]) == n for x in e.trace), "something else counts as the value", it.fi.loc())
                    ob("R2-whole", con + ": static", bool(sc) == empty and all(T(x.b[0]) == n and callkw(x, "scope") == "tracer().active_scope" for x in sc), "what the values refer to is not found where it could not be observed", it.fi.loc())
                    v = T(e.value)
                    ob("R2-whole", con, (".sym" in v and st in v) if empty else re.search(RES, v) is not None, f"other values are given back: {v[:100]}", it.fi.loc())
                    us = [x for x in e.trace if US(x)]
                    ob("R2-uses", con, bool(us) == (upd and empty), "a use is not recorded, or one is recorded that did not happen", it.fi.loc())
                ob("R2-whole", f"{q}:{kind}: paths", bool(returns(it)), "such a value fails", it.fi.loc())



# ------------------------------------------------------------------ which element belongs to which target
def value_of(text, env):
    """the value of an extracted guard or index in one concrete case, None if it is not about this case"""
    try:
        return eval(text, {"__builtins__": {}}, env)  # noqa: arithmetic and comparisons over the names below, never code of the repository
    except Exception:
        return None


def matching(ctx):
    ob = ctx.ob
    q = "match_container_obj_or_namespace_with_literal_nodes"
    C, E = "container_obj_or_namespace", "literal_node.elts"
    SUB = [(f"listcomp(index(elem({E})) for enumerate({E}) if isinstance(elem({E}), ast.Starred))", "S"), (f"index(elem({C}))", "I"), (f"elem({C})", "X"), (f"elem({E})", "Y"), (E, "E"), (f"list({C})", "C"), (C, "C")]

    def short(t):
        for a, b in SUB:
            t = t.replace(a, b)
        return t
    YI = lambda e: e.kind == "yield"
    for kind in ("List", "Tuple"):
        paths = []
        for some in (True, False):
            it = ctx.run(q, O().fn(V.kind_oracle({"": kind}, root="literal_node")).fn(lambda a, s: some if a[0] == "truth" and short(T(a[1])) == "S" else None), lambda e: YI(e) or e.kind == "iter")
            for e in returns(it):
                if any(x.kind == "iter" and re.search(r"\bC\b", short(T(x.a))) for x in e.trace):
                    ys = [x for x in e.trace if YI(x)]
                    facts = dict(e.facts)
                    for x in ys:
                        facts.update(x.facts)
                    paths.append(([(short(T(k)), v) for k, v in facts.items()] + [("truth(S)", some)], [short(T(y.a)) for y in ys]))
        ob("R3-matching", f"{q}:{kind}: elements", bool(paths), "the elements of a sequence are not matched", it.fi.loc())
        for n in range(5):
            for star in [()] + [(p,) for p in range(n)] + [(p, r) for p in range(n) for r in range(p + 1, n)]:
                for m in range(n - len(star), n + 3):
                    for i in range(m):
                        env = {"E": list(range(n)), "C": list(range(100, 100 + m)), "S": list(star), "I": i, "X": 100 + i, "len": len, "truth": bool, "list": list, "tuple": tuple, "not_": lambda v: not v}
                        live_ = [p for p in paths if all(value_of(k, env) in (None, v) for k, v in p[0])]
                        if not star:
                            want = [i] if i < n else None
                        else:
                            after = n - 1 - star[-1]
                            want = [i] if i < star[0] else [n - (m - i)] if i >= m - after else list(range(star[0], star[-1] + 1))
                        if not star and m > n:
                            continue
                        got = [value_of(y, env) for _, ys in live_ for y in ys]
                        if any(g is None for g in got):
                            continue
                        gots = [(g[0], list(g[1])) for g in got if isinstance(g, tuple) and len(g) == 2]
                        ok = bool(live_) and all(len(ys) == 1 for _, ys in live_) and all(g == ((i, 100 + i), want) for g in gots)
                        if not ok:
                            ob("R3-matching", f"{q}:{kind}:elements={m}:targets={n}:starred={star}:element {i}", False, f"element {i} of {m} is matched with {[g[1] for g in gots]} of {n} targets, starred: {star}, not with {want}", it.fi.loc())
                            break
        ob("R3-matching", f"{q}:{kind}: evaluated", any(value_of(y, {"E": [0], "C": [1], "S": [], "I": 0, "X": 1, "len": len, "truth": bool, "list": list, "tuple": tuple}) is not None for _, ys in paths for y in ys) or not paths, "which target an element belongs to cannot be told", it.fi.loc())
    # dicts
    D = r"container_obj_or_namespace\.items\(\)"
    CAND = "_get_candidate_value_nodes"
    for star in (True, False):
        for same in (True, False):
            o = O().fn(V.kind_oracle({"": "Dict"}, root="literal_node")).when(r"^\(?None in literal_node\.keys\)?$", star)
            o.fn(lambda a, s: (same if a[1] == "==" else not same) if a[0] == "cmp" and a[1] in ("==", "!=") and "len(literal_node.keys)" in T(a) else None)
            it = ctx.run(q, o, lambda e: YI(e) or e.kind == "iter", opaque={CAND})
            for e in returns(it):
                ys = [x for x in e.trace if YI(x)]
                if not any(x.kind == "iter" for x in e.trace):
                    continue
                t = T(ys[0].a) if len(ys) == 1 else ""
                one = not star and same
                okk = re.match(rf"\(\(elem\({D}\)\[0\], elem\({D}\)\[1\]\), |\(elem\({D}\), ", t) is not None
                okv = re.search(rf"\[literal_node\.values\[index\(elem\({D}\)\)\]\]\)$", t) if one else re.search(rf"{CAND}\(elem\({D}\)\[0\], literal_node\)\)$", t)
                ob("R3-matching", f"{q}:Dict:unpacked={star}:one to one={same}", len(ys) == 1 and okk and okv is not None, f"an item of a dictionary is matched with what did not make it: {t[-90:]}", it.fi.loc())
            ob("R3-matching", f"{q}:Dict:unpacked={star}:one to one={same}: each", any(any(YI(x) for x in e.trace) for e in returns(it)), "the items of a dictionary are not matched", it.fi.loc())
    if any(f.qual == CAND for f in ctx.ix.funcs.values()):
        K = "elem(literal_node.keys)"
        for const in (True, False):
            for eq in ((True, False) if const else (None,)):
                o = O().when(rf"isinstance\(elem\(literal_node\.keys\), ast\.Constant\)", const)
                o.fn(lambda a, s: (eq if a[1] == "==" else not eq) if a[0] == "cmp" and a[1] in ("==", "!=") and f"{K}.value" in T(a) else None)
                it = ctx.run(CAND, o, lambda e: e.is_call("append", "insert") or e.kind == "aug")
                its = loops_over(it, r"literal_node\.(keys|values)")
                for i in its:
                    add = [T(x.b[-1]) if x.kind == "call" else T(x.c) for x in i.events if x.is_call("append", "insert") or x.kind == "aug"]
                    want = not const or eq
                    ob("R3-matching", f"{CAND}:constant key={const}:equal={eq}", (len(add) == 1 and "elem(literal_node.values)" in add[0]) if want else not add, "an item of a dictionary is matched with what did not make it", it.fi.loc())
                    ob("R3-matching", f"{CAND}:constant key={const}:equal={eq}: stop", (i.kind in ("break", "return")) == bool(const and eq), "what is overwritten in a dictionary counts as its value, or what could be its value does not", it.fi.loc())
                    ob("R3-matching", f"{CAND}: order", "reversed" in T(i.iter) or "[::-1]" in T(i.iter), "what is overwritten in a dictionary counts as its value", it.fi.loc())
                ob("R3-matching", f"{CAND}:constant key={const}:equal={eq}: each", bool(its), "an item of a dictionary is matched with nothing", it.fi.loc())


# ------------------------------------------------------------------ recording the targets of assignments and loops
ST = "Statement."
SOPQ = {"_handle_store_target", "_handle_store_target_tuple_unpack_from_deps", "_handle_store_target_tuple_unpack_from_namespace", "_handle_starred_store_target", "_handle_assign_target_for_deps",
        "_handle_inner_store_target_from_deps", "_can_unpack_from_namespace", "resolve_rval_symbols", "get_symbol_edges", "_handle_mutated_container", "_handle_reactive_store", "upsert_symbol_for_name",
        "resolve_store_data_for_target", "namespaced", "match_container_obj_or_namespace_with_literal_nodes", "stmt_contains_cascading_reactive_rval"}


def args(ev, *names):
    """the arguments of a call, by name"""
    out = {n: T(b) for n, b in zip(names, ev.b)}
    out.update({k: T(v) for k, v in (ev.c or ()) if k})
    return out


def stores(ctx):
    ob = ctx.ob
    q = ST + "_make_lval_symbols"
    for k in ("Assign", "For", "AsyncFor", "AugAssign", "AnnAssign", "FunctionDef", "ClassDef", "Import", "With", "Expr"):
        it = ctx.run(q, O().fn(V.kind_oracle({"stmt_node": k}, root="self")).fn(lambda a, s: None), lambda e: e.is_call("_handle_store", "_make_lval_symbols_old"), opaque={"_handle_store", "_make_lval_symbols_old"})
        new = k in ("Assign", "For", "AsyncFor")
        for e in returns(it):
            got = [(x.a[-1], [T(b) for b in x.b]) for x in e.trace]
            ob("R4-targets", f"{q}:{k}", got == ([("_handle_store", ["self.stmt_node"])] if new else [("_make_lval_symbols_old", [])]), f"what it binds is not recorded: {got}", it.fi.loc())
    q = ST + "_handle_store"
    HT = lambda e: e.is_call("_handle_store_target")
    for k in ("Assign", "For", "AsyncFor"):
        it = ctx.run(q, O().fn(V.kind_oracle({"": k})), lambda e: HT(e) or e.is_call("_handle_assign_target_for_deps", "resolve_rval_symbols") or e.kind == "iter", opaque=SOPQ)
        if k == "Assign":
            its = loops_over(it, r"^node\.targets$")
            ok = bool(its) and all(i.kind == "next" and [args(x, "target", "value", "is_for") for x in i.events if HT(x)] in ([{"target": "elem(node.targets)", "value": "node.value"}], [{"target": "elem(node.targets)", "value": "node.value", "is_for": "False"}]) for i in its)
            ob("R4-targets", f"{q}:{k}", ok, "a target of an assignment is missed, or gets another value", it.fi.loc())
        else:
            every(ctx, "R4-targets", f"{q}:{k}", returns(it), lambda e: [args(x, "target", "value", "is_for") for x in e.trace if HT(x)] == [{"target": "node.target", "value": "node.iter", "is_for": "True"}],
                  "the variable of a loop is missed, or gets another value", lambda e: it.fi.loc())
        # assignment expressions
        G = r"elem\(get_symbol_edges\(node\)\)"
        for own in (True, False):
            it = ctx.run(q, O().fn(V.kind_oracle({"": k})).fn(lambda a, s: (own if a[1] == "is" else not own) if a[0] == "cmp" and a[1] in ("is", "is not", "==", "!=") and "get_symbol_edges(node)" in T(a) else None),
                         lambda e: e.is_call("_handle_assign_target_for_deps", "resolve_rval_symbols") or e.kind == "iter" or HT(e), opaque=SOPQ)
            its = loops_over(it, r"get_symbol_edges")
            for i in its:
                h = [args(x, "target", "deps") for x in i.events if x.is_call("_handle_assign_target_for_deps")]
                ok = not h if own else len(h) == 1 and re.fullmatch(rf"{G}\[0\]", h[0]["target"]) and re.fullmatch(rf"resolve_rval_symbols\({G}\[1\]\)", h[0]["deps"])
                ob("R4-nested", f"{q}:{k}:own target={own}", bool(ok), "a name that is bound inside of a value is missed" if not own else "the target is recorded before its value", it.fi.loc())
            ob("R4-nested", f"{q}:{k}:own target={own}: each", bool(its), "names that are bound inside of a value are missed", it.fi.loc())
            for e in returns(it):
                o2 = ["n" if x.is_call("_handle_assign_target_for_deps") else "t" for x in e.trace if x.is_call("_handle_assign_target_for_deps") or HT(x)]
                ob("R4-nested", f"{q}:{k}: order", o2 == sorted(o2), "a target is recorded before the names its value is computed from", it.fi.loc())
    # one target
    q = ST + "_handle_store_target"
    SAV = r"tracer\(\)\.saved_assign_rhs_obj"
    DEPS = r"resolve_rval_symbols\(value\)"
    NSP = rf"flow\(\)\.namespaces\.get\(id\({SAV}\)(, None)?\)"
    FD, FN, AT = "_handle_store_target_tuple_unpack_from_deps", "_handle_store_target_tuple_unpack_from_namespace", "_handle_assign_target_for_deps"
    for seq in (True, False):
        for isfor in (True, False):
            for special in ((True, False) if isfor and seq else (None,)):
                for usable in ((True, False) if seq else (None,)):
                    for call in ((True, False) if seq and usable else (None,)):
                        for hit in ((True, False) if isfor else (None,)):
                            o = O().fn(V.kind_oracle({"": "Tuple" if seq else "Name"}, root="target")).when("^is_for$", isfor)
                            o.fn(lambda a, s: special if a[0] == "truth" and re.match(rf"isinstance\({SAV}, ", T(a[1])) else None)
                            o.when(r"_can_unpack_from_namespace\((rhs_namespace=)?None\)|^self\._can_unpack_from_namespace\(None\)$", False).when(r"_can_unpack_from_namespace\(", usable)
                            o.fn(V.kind_oracle({"": "Call" if call else "Name"}, root="value"))
                            o.fn(lambda a, s: (hit if a[1] == "is" else not hit) if a[0] == "cmp" and a[1] in ("is", "is not") and "saved_assign_rhs_obj" in T(a) and ".obj" in T(a) else None).when(rf"elem\({DEPS}\) is None|None is elem\({DEPS}\)\)?$", False)
                            it = ctx.run(q, o, lambda e: e.is_call(FD, FN, AT) or e.kind == "iter", opaque=SOPQ)
                            con = f"{q}:several={seq}:loop={isfor}:enumerate or zip={special}:elements known={usable}:call={call}:found={hit}"
                            for e in returns(it):
                                cs = [x for x in e.trace if x.is_call(FD, FN, AT)]
                                some = any(x.kind == "iter" for x in e.trace)
                                if len(cs) != 1:
                                    ob("R4-one", con, False, f"a target is recorded {len(cs)} times", it.fi.loc())
                                    continue
                                c = cs[0]
                                if not seq:
                                    a = args(c, "target", "deps", "maybe_fixup_literal_namespace", "iter_namespace")
                                    ok = c.is_call(AT) and a["target"] == "target" and re.fullmatch(DEPS, a["deps"]) and a.get("maybe_fixup_literal_namespace") == "True"
                                elif usable and (not isfor or special):
                                    a = args(c, "target", "rhs_namespace", "deps", "extra_deps", "is_for")
                                    ok = c.is_call(FN) and a["target"] == "target" and re.fullmatch(NSP, a["rhs_namespace"]) and re.fullmatch(DEPS, a["deps"]) and (
                                        re.fullmatch(DEPS, a["extra_deps"]) if call else a["extra_deps"] in ("set()", "new_set")) and a.get("is_for", "False") in ("is_for", str(isfor))
                                else:
                                    a = args(c, "target", "deps", "iter_namespace")
                                    ok = c.is_call(FD) and a["target"] == "target" and re.fullmatch(DEPS, a["deps"])
                                ob("R4-one", con, bool(ok), f"the target is recorded with something else: {a}", c.loc())
                                if not c.is_call(FN):
                                    v = a.get("iter_namespace", "None")
                                    want = rf"elem\({DEPS}\)\.namespaced\(\)" if isfor and hit and some else "None"
                                    ob("R4-iterated", con, re.fullmatch(want, v) is not None, f"changes made through a loop variable do not reach what is iterated over, or reach something else: {v}", c.loc())
                            ob("R4-one", con + ": paths", bool(returns(it)), "such a target fails", it.fi.loc())
    q = ST + "_can_unpack_from_namespace"
    if any(f.qual == q for f in ctx.ix.funcs.values()):
        table(ctx, "R4-elements", q, {"known": r"^\(?namespace is None\)?$~", "object": r"^\(?namespace\.obj is None\)?$~", "seq": r"^namespace\.is_sequence$"},
              lambda v: v["known"] and v["object"] and v["seq"], "the elements of something that is no sequence count as known, or those of a sequence do not") if False else None
        for k in (True, False):
            for b in (True, False):
                for c in (True, False):
                    it = ctx.run(q, O().when(r"^\(?(namespace is None|None is namespace)\)?$", not k).when(r"namespace\.obj is None|None is namespace\.obj", not b).when(r"^namespace\.is_sequence$", c).when("^namespace$", k), lambda e: False, opaque={"is_sequence"})
                    for e in returns(it):
                        v = bval(e.value, {r"namespace is None|None is namespace(?!\.)": not k, r"namespace\.obj is None|None is namespace\.obj": not b, r"namespace\.is_sequence$": c})
                        ob("R4-elements", f"{q}:known={k}:object={b}:sequence={c}", v is (k and b and c), f"the elements of something else than a known sequence count as known, or those of one do not: {T(e.value)}", it.fi.loc())
    for forced in (True, False):
        for seq in (True, False):
            if not any(f.qual == "Namespace.is_sequence" for f in ctx.ix.funcs.values()):
                continue
            it = ctx.run("Namespace.is_sequence", O().when(r"^self\._force_allow_iteration$", forced).when(r"^isinstance\(self\.obj, ", seq), lambda e: e.kind == "call")
            every(ctx, "R4-elements", f"Namespace.is_sequence:made for a loop={forced}:sequence={seq}", returns(it), lambda e: bval(e.value, {r"self\._force_allow_iteration$": forced, r"isinstance\(self\.obj, ": seq}) is (forced or seq) or T(e.value) == str(forced or seq),
                  "what can be unpacked element by element is misjudged", lambda e: it.fi.loc())
            kinds = set(re.findall(r"\b(list|tuple|dict|set|str)\b", " ".join(T(x.b[1]) for x in it.allevents.values() if x.is_call("isinstance"))))
            if not forced:
                ob("R4-elements", "Namespace.is_sequence: kinds", kinds == {"list", "tuple"}, f"the elements of {sorted(kinds)} count as known in order", it.fi.loc())
    # from everything that was read
    q = ST + FD
    IN = "_handle_inner_store_target_from_deps"
    have = any(f.qual == ST + IN for f in ctx.ix.funcs.values())
    for seq in (True, False):
        it = ctx.run(q, O().fn(V.kind_oracle({"elts*": "Tuple" if seq else "Name"}, root="target")), lambda e: e.is_call(FD, AT) or e.kind == "iter", opaque=SOPQ - {IN}, inline={ST + IN})
        its = loops_over(it, r"^target\.elts$")
        for i in its:
            cs = [x for x in i.events if x.is_call(FD, AT)]
            a = args(cs[0], "target", "deps", *(["iter_namespace"] if cs[0].is_call(FD) else ["maybe_fixup_literal_namespace", "iter_namespace"])) if len(cs) == 1 else {}
            ok = len(cs) == 1 and cs[0].is_call(FD if seq else AT) and a["target"] == "elem(target.elts)" and a["deps"] == "deps" and a.get("iter_namespace") == "iter_namespace" and i.kind == "next"
            ob("R4-unknown-elements", f"{q}:nested={seq}", ok, f"a target inside of another one is missed, or gets another value: {a}", it.fi.loc())
        ob("R4-unknown-elements", f"{q}:nested={seq}: each", bool(its), "targets inside of another one are missed", it.fi.loc())


# ------------------------------------------------------------------ from the elements of a known value
RSD = r"tracer\(\)\.resolve_store_data_for_target\(target, self\.frame(, (stmt_node=)?self\.stmt_node)?\)"


def elementwise(ctx):
    ob = ctx.ob
    FD, FN, AT, FS = "_handle_store_target_tuple_unpack_from_deps", "_handle_store_target_tuple_unpack_from_namespace", "_handle_assign_target_for_deps", "_handle_starred_store_target"
    IN = "_handle_inner_store_target_from_deps"
    q = ST + FN
    M = r"elem\(match_container_obj_or_namespace_with_literal_nodes\(rhs_namespace, target\)\)"
    TG, DP = rf"{M}\[1\]\[0\]", rf"{M}\[0\]\[1\]"
    REC = lambda x: x.is_call(FD, FN, AT, FS, IN)
    for star in (True, False):
        for known in ((True, False) if not star else (None,)):
            for isfor in ((True, False) if known else (None,)):
                for nested in ((True, False) if known else (None,)):
                    for usable in ((True, False) if nested and not isfor else (None,)):
                        o = O().when(rf"^isinstance\({TG}, ast\.Starred\)$", star).when(rf"^\(?(None is {DP}|{DP} is None)\)?$", not known).when("^is_for$", isfor).when(r"_can_unpack_from_namespace\(", usable)
                        o.when(rf"^isinstance\({TG}, \(?(ast\.List, ast\.Tuple|ast\.Tuple, ast\.List)\)?\)$", nested)
                        it = ctx.run(q, o, lambda e: REC(e) or e.is_call("append", "remove"), opaque=SOPQ)
                        its = loops_over(it, r"match_container_obj")
                        con = f"{q}:starred={star}:known={known}:loop={isfor}:nested={nested}:elements known={usable}"
                        for k in its:
                            cs = [x for x in k.events if REC(x)]
                            if star or not known:
                                ob("R4-elements", con, not cs and k.kind == "next", "a target is recorded with one of several values, or with an unknown one", it.fi.loc())
                                if star:
                                    ob("R4-starred", con + ": kept", any(x.is_call("append") and re.fullmatch(DP, T(x.b[0])) for x in k.events), "a value a starred target is made from is lost", it.fi.loc())
                                ob("R4-elements", con + ": later", not any(x.is_call("remove") for x in k.events), "a target whose value is unknown is missed", it.fi.loc())
                                continue
                            want = FD if nested and (isfor or not usable) else FN if nested else AT
                            ok = len(cs) == 1 and cs[0].is_call(want) and k.kind == "next"
                            a = args(cs[0], "target", *({FD: ["deps", "iter_namespace"], FN: ["rhs_namespace", "deps", "extra_deps", "is_for"], AT: ["deps", "maybe_fixup_literal_namespace", "iter_namespace"]}[want])) if ok else {}
                            ok = ok and re.fullmatch(TG, a["target"]) is not None and re.fullmatch(rf"\(?\{{{DP}\}} \| extra_deps\)?|\(?extra_deps \| \{{{DP}\}}\)?", a["deps"]) is not None
                            ob("R4-elements", con, bool(ok), f"a target is recorded with something else than its own element: {a or [x.a[-1] for x in cs]}"[:200], it.fi.loc())
                            if ok and want != FN:
                                ob("R4-iterated", con, re.fullmatch(rf"{DP}\.namespaced\(\)" if isfor else "None", a.get("iter_namespace", "None")) is not None, f"changes made through a loop variable do not reach what is iterated over: {a.get('iter_namespace')}", it.fi.loc())
                            if ok and want == FN:
                                ob("R4-elements", con + ": inner", re.fullmatch(rf"flow\(\)\.namespaces\.get\({DP}\.obj_id(, None)?\)", a["rhs_namespace"]) is not None and a.get("extra_deps") == "extra_deps", "an inner target is recorded with other elements", it.fi.loc())
                            ob("R4-elements", con + ": once", any(x.is_call("remove") and re.fullmatch(TG, T(x.b[0])) for x in k.events), "a target is recorded again with everything that was read", it.fi.loc())
                        ob("R4-elements", con + ": each", bool(its), "the elements of a known value are not used", it.fi.loc())
    for star in (True, False):
        o = O().when(r"^isinstance\(elem\(target\.elts\), ast\.Starred\)$", star)
        it = ctx.run(q, o, lambda e: REC(e), opaque=SOPQ | {IN})
        its = loops_over(it, r"target\.elts")
        for k in its:
            cs = [[x.a[2], [T(b) for b in x.b]] for x in k.events if REC(x)]
            want = [FS, ["elem(target.elts)", None, "deps", "extra_deps"]] if star else [IN, ["elem(target.elts)", "deps"]]
            ok = len(cs) == 1 and cs[0][0] == want[0] and len(cs[0][1]) == len(want[1]) and all(w is None or g == w for g, w in zip(cs[0][1], want[1])) and k.kind == "next"
            if star and ok:
                ok = any(x.is_call("append") and T(x.recv) == cs[0][1][1] for x in ctx.run(q, None, lambda e: e.is_call("append"), opaque=SOPQ).allevents.values())
            ob("R4-unknown-elements", f"{q}:rest:starred={star}", ok, f"a target whose value is unknown is missed or recorded with something else: {cs}"[:200], it.fi.loc())
        ob("R4-unknown-elements", f"{q}:rest:starred={star}: each", bool(its), "targets whose values are unknown are missed", it.fi.loc())
    # a starred target
    q = ST + FS
    ITEMS = "inner_deps"
    for unk in (True, False):
        o = O().when(r"^\(?None in inner_deps\)?$", unk).when(r"^\(?(None is elem\(inner_deps\)|elem\(inner_deps\) is None)\)?$", unk)
        it = ctx.run(q, o, lambda e: e.is_call("upsert_symbol_for_name", "_handle_reactive_store", "Namespace") or e.kind in ("iter", "except"), opaque=SOPQ, onlyraise=set())
        paths = [e for e in returns(it) if not unk or any(x.kind == "iter" for x in e.trace)]
        ob("R4-starred", f"{q}:unknown values={unk}: paths", bool(paths), "a starred target is not recorded", it.fi.loc())
        for e in paths:
            up = [x for x in e.trace if x.is_call("upsert_symbol_for_name")]
            own = [x for x in up if re.fullmatch(rf"{RSD}\[0\]", T(x.recv))]
            a = args(own[0], "name", "obj", "deps", "stmt") if len(own) == 1 else {}
            ds = a.get("deps", "")
            ok = len(own) == 1 and re.fullmatch(rf"{RSD}\[1\]", a["name"]) and re.fullmatch(rf"{RSD}\[2\]", a["obj"]) and a["stmt"] == "self.stmt_node" and ds == ("deps" if unk else "extra_deps")
            ob("R4-starred", f"{q}:unknown values={unk}", bool(ok), f"a starred target is recorded with something else: {ds}", it.fi.loc())
            el = [x for x in up if x not in own]
            if not unk and any(x.kind == "iter" for x in e.trace):
                a = args(el[0], "name", "obj", "deps", "stmt") if len(el) == 1 else {}
                ok = len(el) == 1 and re.fullmatch(r"index\(elem\(inner_deps\)\)", a["name"]) and a["obj"] == "elem(inner_deps).obj" and re.fullmatch(r"\(?\{elem\(inner_deps\)\} \| extra_deps\)?|\(?extra_deps \| \{elem\(inner_deps\)\}\)?", a["deps"]) and a.get("is_subscript") == "True" \
                    and a["stmt"] == "self.stmt_node"
                ob("R4-starred", f"{q}: elements", bool(ok), f"an element of a starred target is recorded with something else: {a}"[:200], it.fi.loc())
                ob("R4-starred", f"{q}: elements: where", len(el) == 1 and re.search(rf"namespaces\.get\(id\({RSD}\[2\]\)(, None)?\)|Namespace\({RSD}\[2\]", T(el[0].recv)) is not None, "the elements of a starred target are recorded in another value", it.fi.loc())
    it = ctx.run(q, O().when(r"None is elem\(inner_deps\)|elem\(inner_deps\) is None", True), lambda e: e.is_call("upsert_symbol_for_name"), opaque=SOPQ, onlyraise=set())
    its = loops_over(it, r"inner_deps")
    ob("R4-starred", f"{q}: unknown element", bool(its) and all(k.kind == "next" and not any(x.is_call("upsert_symbol_for_name") for x in k.events) for k in its), "an unknown element ends the list, or is recorded", it.fi.loc())


# ------------------------------------------------------------------ recording one target
def recording(ctx):
    ob = ctx.ob
    UP = lambda x: x.is_call("upsert_symbol_for_name")
    q = ST + "_handle_assign_target_for_deps"
    R = lambda n: rf"{RSD}\[{n}\]"
    OPQ = SOPQ | {"gen_resolved_symbols"}
    NONE = lambda t, v: O().when(rf"^\(?(None is {t}|{t} is None)\)?$", v)
    for iterated in (True, False):
        for dup in (True, False):
            for fix in (True, False):
                o = NONE("iter_namespace", not iterated).when("^iter_namespace$", iterated).when(r"\.is_namespace_scope$", dup).when(r"maybe_fixup_literal_namespace", fix)
                o.when(r"\.columns\)?$", dup).when(r"^isinstance\(.*\.obj, ", dup).fn(lambda a, s: False if a[0] == "cmp" and a[1] == "is" and "DUPED_ATTRSUB" in T(a) else None)
                o.fn(lambda a, s: False if a[0] == "cmp" and a[1] == "is" and "namespaces.get(" in T(a) and "None" in T(a) else True if a[0] == "truth" and T(a[1]).endswith(".is_anonymous") else None)
                it = ctx.run(q, o, lambda e: UP(e) or e.is_call("_handle_reactive_store", "append") or e.kind in ("assign", "except", "iter"), opaque=OPQ, onlyraise=set())
                con = f"{q}:iterated={iterated}:two ways={dup}:display={fix}"
                n = 0
                for e in returns(it):
                    up = [x for x in e.trace if UP(x)]
                    vs = [x for x in up if T(x.recv) == "iter_namespace"]
                    own = [x for x in up if x not in vs]
                    if dup and not any(x.kind == "iter" and "DUPED" in T(x.a) for x in e.trace):
                        continue
                    if not any(x.kind == "iter" and "DUPED" not in T(x.a) for x in e.trace) and not own:
                        continue  # the loop over what to record is not entered
                    n += 1
                    for x in own:
                        a = args(x, "name", "obj", "deps", "stmt")
                        ok = re.fullmatch(R(0), T(x.recv)) and re.fullmatch(R(1), a["name"]) and re.fullmatch(R(2), a["obj"]) and re.fullmatch(rf"\(?deps - {R(4)}\)?|deps\.difference\({R(4)}\)", a["deps"]) and a["stmt"] == "self.stmt_node" and a.get("overwrite", "True") == "True" \
                            and re.fullmatch(rf"(\(?not )?{R(3)}\)?|elem\(.*\)", a.get("is_subscript", "")) and a.get("symbol_node") == "target" and a.get("propagate", "True") == "True"
                        ob("R5-recorded", con, bool(ok), f"a target is recorded as something else: {a}"[:260], x.loc())
                    ob("R5-recorded", con + ": once", bool(own), "a target is not recorded", it.fi.loc())
                    if dup:
                        ob("R5-two-ways", con, any(x.is_call("append") and re.search(rf"not {R(3)}", T(x.b[0])) for x in e.trace) or any(re.search(r"not ", callkw(x, "is_subscript") or "") for x in own), "a column is recorded as a member or as an item only", it.fi.loc())
                    else:
                        ob("R5-two-ways", con, not any(x.is_call("append") and "not " in T(x.b[0]) for x in e.trace), "an item is recorded as a member as well", it.fi.loc())
                    ok = len(vs) == 1 if iterated else not vs
                    for x in vs:
                        a = args(x, "name", "obj", "deps")
                        ok = ok and "ITER_VIRTUAL" in a["name"] and re.fullmatch(R(2), a["obj"]) and a["deps"] in ("set()", "new_set") and a.get("propagate") == "False" and a.get("implicit") == "True" and a.get("is_anonymous") == "True"
                    ob("R4-iterated", con, bool(ok), "changes made through a loop variable do not reach what is iterated over", it.fi.loc())
                    fx = {T(x.a).rsplit(".", 1)[1]: T(x.b) for x in e.trace if x.kind == "assign" and "namespaces.get(" in T(x.a)}
                    ob("R5-named", con, (re.fullmatch(R(0), fx.get("parent_scope", "")) is not None and re.search(R(1), fx.get("scope_name", "")) is not None) if fix else not fx, "a display is not named after what it is bound to, or something else is", it.fi.loc())
                    idx = [("u" if UP(x) else "r") for x in e.trace if UP(x) or x.is_call("_handle_reactive_store")]
                    ob("R5-reactive", con, idx.count("r") == 1 and idx[-1] == "r" and all(T(x.b[0]) == "target" for x in e.trace if x.is_call("_handle_reactive_store")), "a reactive target is not noticed, or before it is recorded", it.fi.loc())
                ob("R5-recorded", con + ": paths", n > 0, "a target fails", it.fi.loc())
    # what has no single item
    it = ctx.run(q, None, lambda e: UP(e) or e.is_call("_handle_mutated_container") or e.kind == "except", opaque=OPQ, onlyraise={"resolve_store_data_for_target"})
    ex = [e for e in returns(it) if any(x.kind == "except" for x in e.trace)]
    every(ctx, "R5-containers", q + ": several items", ex, lambda e: [[T(b) for b in x.b] for x in e.trace if x.is_call("_handle_mutated_container")] == [["target", "deps"]] and not any(UP(x) for x in e.trace), "a store to several items is no change of their container", lambda e: it.fi.loc())
    q = ST + "_handle_mutated_container"
    for known in (True, False):
        it = ctx.run(q, NONE(r"tracer\(\)\.resolve_mutated_symbol_for_target\(target\)", not known).when(r"^tracer\(\)\.resolve_mutated_symbol_for_target\(target\)$", known), lambda e: e.is_call("mutate"), opaque={"resolve_mutated_symbol_for_target", "mutate"})
        every(ctx, "R5-containers", f"{q}:known={known}", returns(it), lambda e: (len(e.trace) == 1 and T(e.trace[0].recv) == "tracer().resolve_mutated_symbol_for_target(target)" and re.fullmatch(r"set\(deps\)|deps|deps\.copy\(\)", T(e.trace[0].b[0]))) if known else not e.trace, "a store to several items is no change of their container", lambda e: it.fi.loc())
    # other statements
    q = ST + "_make_lval_symbols_old"
    G = r"elem\(get_symbol_edges\(self\.stmt_node\)\)"
    RS = r"tracer\(\)\.resolve_store_data_for_target\(" + G + r"\[0\], self\.frame(, (stmt_node=)?self\.stmt_node)?\)"
    RQ = lambda n: rf"{RS}\[{n}\]"
    opq = OPQ | {"create_if_not_exists_module_symbol", "promote_to_namespace"}
    MODULE = r"flow\(\)\.aliases\.get\(tracer\(\)\.create_if_not_exists_module_symbol\([^|]*\)\.obj_id, (set\(\)|new_set)\)"
    READ = rf"\(?resolve_rval_symbols\({G}\[1\]\)( \| {MODULE}\)|\)?)"
    for kind in ("AugAssign", "AnnAssign", "With", "FunctionDef", "AsyncFunctionDef", "ClassDef", "Import", "ImportFrom", "Expr"):
        for own in ((True, False) if kind in ("FunctionDef", "AsyncFunctionDef", "ClassDef") else (None,)):
            o = O().fn(V.kind_oracle({"stmt_node": kind}, root="self")).fn(lambda a, s: own if own is not None and a[0] == "cmp" and a[1] == "is" and "stmt_node" in T(a) and "get_symbol_edges" in T(a) else None)
            o.when(r"== '\*'", False).when(r"'\.' in ", False).fn(lambda a, s: False if a[0] == "cmp" and "'*'" in T(a) and a[1] == "==" else None).when(r"self\.class_scope is None|None is self\.class_scope", False)
            it = ctx.run(q, o, lambda e: UP(e) or e.is_call("_handle_reactive_store", "promote_to_namespace", "update", "_handle_mutated_container", "add") or e.kind in ("except", "iter"), opaque=opq, onlyraise=set())
            its = loops_over(it, r"get_symbol_edges")
            con = f"{q}:{kind}" + (f":definition={own}" if own is not None else "")
            ob("R5-recorded", con + ": each", bool(its), "what it binds is not recorded", it.fi.loc())
            for k in its:
                up = [x for x in k.events if UP(x)]
                if len(up) != 1 or k.kind != "next":
                    ob("R5-recorded", con, False, f"what it binds is recorded {len(up)} times", it.fi.loc())
                    continue
                a = args(up[0], "name", "obj", "deps", "stmt")
                ok = re.fullmatch(RQ(0), T(up[0].recv)) and re.fullmatch(RQ(1), a["name"]) and re.fullmatch(RQ(2), a["obj"]) and re.fullmatch(rf"\(?{READ} - {RQ(4)}\)?|{READ}\.difference\({RQ(4)}\)", a["deps"]) and a["stmt"] == "self.stmt_node" \
                    and re.fullmatch(RQ(3), a.get("is_subscript", ""))
                ob("R5-recorded", con, bool(ok), f"what it binds is recorded as something else: {a}"[:260], up[0].loc())

                def flag(n, default):
                    t = up[0].c and dict((kk, v) for kk, v in up[0].c).get(n)
                    if t is None:
                        return default
                    return bval(t, {r"isinstance\(self\.stmt_node, ast\.AugAssign\)": kind == "AugAssign", r"isinstance\(self\.stmt_node, \(?ast\.(Async)?FunctionDef": kind.endswith("FunctionDef"), r"isinstance\(self\.stmt_node, ast\.ClassDef\)": kind == "ClassDef",
                                    r"isinstance\(self\.stmt_node, \(?ast\.Import": kind.startswith("Import"), r"isinstance\(self\.stmt_node, \(?ast\.(Async)?For": False, r" is self\.stmt_node|self\.stmt_node is ": bool(own)})
                ob("R5-added", con, flag("overwrite", True) is (kind != "AugAssign"), "an augmented binding replaces what was recorded, or another one adds to it", up[0].loc())
                ob("R5-definitions", con, flag("is_function_def", False) is (kind.endswith("FunctionDef") and own) or own is None and flag("is_function_def", False) is False, "a function does not count as one, or something else does", up[0].loc())
                ob("R5-definitions", con + ": import", flag("is_import", False) is kind.startswith("Import"), "a module does not count as one, or something else does", up[0].loc())
                ob("R5-definitions", con + ": propagated", flag("propagate", True) is True, "what depends on it is not told", up[0].loc())
                cs = callkw(up[0], "class_scope") or "None"
                ob("R5-definitions", con + ": class", own is None or ("self.class_scope" in cs) == bool(own) or cs.startswith("(self.class_scope if") or "ifexp" in cs, "a class is recorded without its members, or something else with them", up[0].loc())
                pr = [x for x in k.events if x.is_call("promote_to_namespace")]
                if kind == "ClassDef":
                    ob("R5-definitions", con + ": members", (len(pr) == 1 and re.fullmatch(r"self\.frame\.f_locals\[self\.stmt_node\.name\]", T(pr[0].b[0])) is not None and T(pr[0].recv) == "self.class_scope") if own else not pr, "the members of a class are recorded in another value", it.fi.loc())
                rx = [T(x.b[0]) for x in k.events if x.is_call("_handle_reactive_store")]
                want = "self.stmt_node" if kind.endswith("Def") or kind.startswith("Import") else None
                ob("R5-reactive", con, rx == [want] if want else len(rx) <= 1 and all(re.fullmatch(rf"{G}\[0\]", t) for t in rx), "a reactive target is not noticed", it.fi.loc())
    it = ctx.run(q, O().fn(V.kind_oracle({"stmt_node": "AugAssign"}, root="self")).fn(lambda a, s: True if a[0] == "truth" and T(a[1]).startswith("isinstance(elem(get_symbol_edges") and T(a[1]).endswith("ast.AST)") else None),
                 lambda e: e.is_call("_handle_mutated_container") or e.kind == "except", opaque=opq, onlyraise={"resolve_store_data_for_target"})
    its = [k for k in loops_over(it, r"get_symbol_edges") if any(x.kind == "except" and "KeyError" in " ".join(str(T(z)) if isinstance(z, tuple) and z else str(z) for z in (x.a, x.b)) for x in k.events)]
    hit = [k for k in loops_over(it, r"get_symbol_edges") if any(x.is_call("_handle_mutated_container") and re.fullmatch(rf"{G}\[0\]", T(x.b[0])) and "resolve_rval_symbols" in T(x.b[1]) for x in k.events)]
    ob("R5-containers", q + ": several items", bool(hit), "an augmented store to several items is no change of their container", it.fi.loc())
    # forgetting
    q = ST + "_handle_delete"
    D = r"tracer\(\)\.resolve_del_data_for_target\(elem\(self\.stmt_node\.targets\)\)"
    it = ctx.run(q, None, lambda e: e.is_call("delete_symbol_for_name", "_handle_mutated_container") or e.kind == "except", opaque={"resolve_del_data_for_target", "delete_symbol_for_name", "_handle_mutated_container"}, onlyraise=set())
    its = loops_over(it, r"self\.stmt_node\.targets")
    ok = bool(its) and all(k.kind == "next" and len([x for x in k.events if x.is_call("delete_symbol_for_name")]) == 1 for k in its)
    ob("R6-forgotten", q + ": each", ok, "something that is deleted is not forgotten", it.fi.loc())
    for k in its:
        for x in k.events:
            if x.is_call("delete_symbol_for_name"):
                ob("R6-forgotten", q, re.fullmatch(rf"{D}\[0\]", T(x.recv)) is not None and re.fullmatch(rf"{D}\[2\]", T(x.b[0])) is not None and re.fullmatch(rf"{D}\[3\]", callkw(x, "is_subscript") or (T(x.b[1]) if len(x.b) > 1 else "")) is not None, "something else is forgotten than what is deleted", x.loc())
    it = ctx.run(q, None, lambda e: e.is_call("delete_symbol_for_name", "_handle_mutated_container") or e.kind == "except", opaque={"resolve_del_data_for_target", "delete_symbol_for_name", "_handle_mutated_container"}, onlyraise={"resolve_del_data_for_target"})
    its = [k for k in loops_over(it, r"self\.stmt_node\.targets") if any(x.kind == "except" for x in k.events)]
    ob("R5-containers", q + ": several items", bool(its) and all(any(x.is_call("_handle_mutated_container") and T(x.b[0]) == "elem(self.stmt_node.targets)" for x in k.events) and k.kind == "next" for k in its), "deleting several items is no change of their container, or the rest is not deleted", it.fi.loc())
    # every statement
    q = ST + "handle_dependencies"
    C, Dl, Rv, X = "_make_lval_symbols", "_handle_delete", "resolve_rval_symbols", "_handle_impl"
    for lval in (True, False):
        for dele in (True, False):
            it = ctx.run(q, O().when(r"^self\._contains_lval\(\)$", lval).when(r"^isinstance\(self\.stmt_node, ast\.Delete\)$", dele), lambda e: e.is_call(C, Dl, Rv, X) or e.kind == "iter", opaque={C, Dl, Rv, X, "_contains_lval"})
            want = C if lval else Dl if dele else Rv
            for e in returns(it):
                got = [x.a[-1] for x in e.trace if x.kind == "call" and not x.is_call(X)]
                xs = [i for i, x in enumerate(e.trace) if x.is_call(X)]
                ob("R6-every", f"{q}:binds={lval}:deletes={dele}", got == [want] and (want != Rv or all(T(x.b[0]) == "self.stmt_node" for x in e.trace if x.is_call(Rv))), f"what the statement does is not recorded: {got}", it.fi.loc())
                ob("R6-every", f"{q}: calls first", not xs or max(xs) < min(i for i, x in enumerate(e.trace) if x.is_call(C, Dl, Rv)), "what a call changed is recorded after what it returned is bound", it.fi.loc())
            its = loops_over(it, r"tracer\(\)\.external_calls")
            ob("R6-every", f"{q}: calls", bool(its) and all(k.kind == "next" and any(x.is_call(X) for x in k.events) for k in its), "what a call changes is not recorded", it.fi.loc())
    q = ST + "finished_execution_hook"
    for done in (True, False):
        it = ctx.run(q, O().when(r"^self\._finished$", done), lambda e: e.is_call("handle_dependencies") or e.kind == "assign", opaque={"handle_dependencies"}, inline={ST + "mark_finished"})
        for e in returns(it):
            h = [i for i, x in enumerate(e.trace) if x.is_call("handle_dependencies")]
            m = [i for i, x in enumerate(e.trace) if x.kind == "assign" and T(x.a) == "self._finished" and T(x.b) == "True"]
            ob("R6-every", f"{q}:done={done}", (len(h) == 1 and len(m) == 1 and h[0] < m[0]) if not done else not h, "a statement is recorded twice, or not at all", it.fi.loc())


# ------------------------------------------------------------------ where Python binds it
TR = "DataflowTracer."


def where(ctx):
    ob = ctx.ob
    q = TR + "_partial_resolve_ref"
    for kind, star, want in (("Name", False, r"ref\.id"), ("Attribute", False, r"id\(ref\)"), ("Subscript", False, r"id\(ref\)"), ("Name", True, r"ref\.value\.id"), ("Attribute", True, r"id\(ref\.value\)"), (None, False, "ref")):
        n = "ref.value" if star else "ref"
        o = O().when(r"^isinstance\(ref, ast\.Starred\)$", star)
        o.when(r"^isinstance\(ref(\.value)?\.id, ", False)
        o.fn(lambda a, s: None if a[0] != "truth" or not T(a[1]).startswith(f"isinstance({n}, ") else False if kind is None else V.isa(kind, "Name") if T(a[1]).endswith("ast.Name)") else True)
        it = ctx.run(q, o, lambda e: False)
        every(ctx, "R7-referred", f"{q}:{kind}:starred={star}", returns(it), lambda e: re.fullmatch(want, T(e.value)) is not None, "another target is meant", lambda e: it.fi.loc())
    q = TR + "_resolve_scope_for_simple_target"
    S, P, GS = r"self\.cur_frame_original_scope", r"self\.cur_frame_original_scope\.non_namespace_parent_scope", r"flow\(\)\.global_scope"
    op = {"lookup_symbol_by_name_this_indentation", "non_namespace_parent_scope", "is_global"}
    for nl in (True, False):
        for gl in ((True, False) if not nl else (None,)):
            for own in ((True, False) if nl else (None,)):
                o = O().when(rf"^\(?({S}\.symtab is None|None is {S}\.symtab)\)?$", False).when(rf"^{S}\.symtab$", True).when(r"is_nonlocal", nl).when(r"symtab\.lookup\(target\)\.is_global\(\)", gl)
                o.when(rf"^\(?({P} is None|None is {P})\)?$", False).when(rf"^{P}\.is_global$", False).fn(lambda a, s: (not own) if a[0] == "cmp" and a[1] == "is" and re.match(rf"\(?(None is )?{P}\.lookup_symbol_by_name_this_indentation\(target\)", T(a)) else None)
                o.fn(lambda a, s: own if a[0] == "truth" and re.fullmatch(rf"{P}\.lookup_symbol_by_name_this_indentation\(target\)", T(a[1])) else None)
                it = ctx.run(q, o, lambda e: False, opaque=op, onlyraise=set())
                for e in returns(it):
                    t = T(e.value)
                    if nl and own:
                        ok = re.fullmatch(rf"\({P}, False\)", t)
                    elif nl:
                        ok = not t.startswith("(self.cur_frame_original_scope,") and not re.fullmatch(rf"\({P}, .*\)", t) and t.endswith(", False)")
                    elif gl:
                        ok = re.fullmatch(rf"\({GS}, True\)", t)
                    else:
                        ok = re.fullmatch(rf"\({S}, False\)", t)
                    ob("R7-scope", f"{q}:nonlocal={nl}:global={gl}:bound in the next scope={own}", bool(ok), f"a name is recorded in another scope than Python binds it in: {t}", it.fi.loc())
                ob("R7-scope", f"{q}:nonlocal={nl}:global={gl}:bound in the next scope={own}: paths", bool(returns(it)), "a name cannot be recorded", it.fi.loc())
    it = ctx.run(q, O().when(rf"^\(?({S}\.symtab is None|None is {S}\.symtab)\)?$", True).when(rf"^{S}\.symtab$", False), lambda e: False, opaque=op, onlyraise=set())
    every(ctx, "R7-scope", q + ": cells", returns(it), lambda e: re.fullmatch(rf"\({S}, False\)", T(e.value)) is not None, "a name is recorded in another scope than Python binds it in", lambda e: it.fi.loc())
    q = TR + "_resolve_store_data_for_simple_target"
    RSC = r"self\._resolve_scope_for_simple_target\(target\)"
    for gl in (True, False):
        it = ctx.run(q, O().when(rf"^{RSC}\[1\]$", gl), lambda e: e.kind == "except", opaque={"_resolve_scope_for_simple_target"})
        for e in returns(it):
            miss = any(x.kind == "except" for x in e.trace)
            want = rf"\({GS if miss else RSC + chr(92) + '[0' + chr(92) + ']'}, target, frame\.f_{'globals' if gl or miss else 'locals'}\[target\], False, (set\(\)|new_set)\)"
            ob("R7-object", f"{q}:global={gl}:elsewhere={miss}", re.fullmatch(want, T(e.value)) is not None, f"a name is recorded with another object, or in another scope: {T(e.value)}", it.fi.loc())
        ob("R7-object", f"{q}:global={gl}: paths", any(not any(x.kind == "except" for x in e.trace) for e in returns(it)), "a name cannot be recorded", it.fi.loc())
    # members and items
    q = TR + "resolve_store_data_for_target"
    PR = r"self\._partial_resolve_ref\(target\)"
    it = ctx.run(q, O().when(rf"^isinstance\({PR}, str\)$", True), lambda e: False, opaque={"_partial_resolve_ref", "_resolve_store_data_for_simple_target"})
    every(ctx, "R7-object", q + ": names", returns(it), lambda e: re.fullmatch(rf"self\._resolve_store_data_for_simple_target\({PR}, frame\)", T(e.value)) is not None, "a name is recorded as something else", lambda e: it.fi.loc())
    SV = rf"self\.node_id_to_saved_store_data\.pop\({PR}\)"
    OBJ = rf"{SV}\[1\]"
    RHS = r"self\.saved_assign_rhs_obj"
    GET = rf"flow\(\)\.retrieve_namespace_attr_or_sub\({OBJ}, {SV}\[2\], {SV}\[3\]\)"
    ITEM = rf"(list|dict|type\({OBJ}\))\.__getitem__\({OBJ}, {SV}\[2\]\)|{OBJ}\[{SV}\[2\]\]"
    for cont in (True, False):
        for item in (True, False):
            for asn in (True, False):
                for direct in ((True, False) if asn else (None,)):
                    for older in ((True, False, None) if direct and cont and item else (True,)):
                        o = O().when(rf"^isinstance\({PR}, str\)$", False).when(rf"^isinstance\({OBJ}, ", cont).when(rf"^{SV}\[3\]$", item).when(r"^isinstance\(stmt_node, ast\.Assign\)$", asn).when(r"tracing_disabled_since_last_stmt$", False)
                        o.fn(lambda a, s: (direct if a[1] == "is" else not direct) if a[0] == "cmp" and a[1] in ("is", "is not") and "stmt_node.targets" in T(a) else None).when(rf"{RHS} is None|None is {RHS}", False)
                        o.fn(lambda a, s: None if a[0] != "cmp" or a[1] != "is" or "None" not in T(a) else (older is None) if "get_earliest_ancestor_containing" in T(a) else (older is False) if re.search(r"__getitem__|retrieve_namespace|saved_assign_rhs", T(a)) else None)
                        it = ctx.run(q, o, lambda e: e.kind in ("iter", "except"), opaque={"_partial_resolve_ref", "retrieve_namespace_attr_or_sub", "get_earliest_ancestor_containing"}, onlyraise=set())
                        con = f"{q}:list or dict={cont}:item={item}:assignment={asn}:whole value={direct}:in an earlier scope={older}"
                        for e in returns(it):
                            if asn and direct and not any(x.kind == "iter" for x in e.trace):
                                continue
                            v = e.value[1] if e.value[0] == "tuple" else ()
                            if len(v) != 5:
                                ob("R7-object", con, False, "what is stored cannot be told", it.fi.loc())
                                continue
                            t = [T(x) for x in v]
                            # the right-hand side is what is stored only where it is stored as a whole
                            want = (rf"{RHS}|{ITEM}|{GET}" if direct else f"{ITEM}|{GET}" if item else rf"{GET}|{RHS}") if cont else GET
                            ok = re.fullmatch(want, t[2]) is not None or "phi" in t[2]
                            ob("R7-object", con, ok and re.fullmatch(rf"{SV}\[2\]", t[1]) is not None and re.fullmatch(rf"{SV}\[3\]", t[3]) is not None, f"a member or item is recorded with another object: {t[2]}"[:200], it.fi.loc())
                            own = re.fullmatch(rf"{SV}\[0\]", t[0]) is not None
                            anc = re.match(rf"\(?{SV}\[0\]\.get_earliest_ancestor_containing\(id\(", t[0]) is not None
                            ob("R7-scope", con, own if older in (None, False) else anc or own, f"a member is recorded in another value: {t[0]}"[:200], it.fi.loc())
                            ob("R7-index", con, "node_id_to_saved_live_subscript_refs" in t[4], "what an item was selected with counts as its value", it.fi.loc())
                        ob("R7-object", con + ": paths", bool(returns(it)), "a store fails", it.fi.loc())
    q = TR + "resolve_del_data_for_target"
    it = ctx.run(q, O().when(rf"^isinstance\({PR}, str\)$", True), lambda e: False, opaque={"_partial_resolve_ref", "_resolve_scope_for_simple_target"})
    every(ctx, "R6-forgotten", q + ": names", returns(it), lambda e: re.fullmatch(rf"\(self\._resolve_scope_for_simple_target\({PR}\)\[0\], None, {PR}, False\)", T(e.value)) is not None, "a name is forgotten in another scope than it was bound in", lambda e: it.fi.loc())
    it = ctx.run(q, O().when(rf"^isinstance\({PR}, str\)$", False), lambda e: False, opaque={"_partial_resolve_ref", "_resolve_scope_for_simple_target"})
    DD = rf"self\.node_id_to_saved_del_data\[{PR}\]"
    every(ctx, "R6-forgotten", q + ": members", returns(it), lambda e: re.fullmatch(rf"{DD}|\({DD}\[0\], {DD}\[1\], {DD}\[2\], {DD}\[3\]\)", T(e.value)) is not None, "another member is forgotten", lambda e: it.fi.loc())
    q = TR + "resolve_mutated_symbol_for_target"
    for name in (True, False):
        it = ctx.run(q, O().when(rf"^isinstance\({PR}, str\)$", name), lambda e: False, opaque={"_partial_resolve_ref"})
        every(ctx, "R5-containers", f"{q}:name={name}", returns(it), lambda e: re.fullmatch("None" if name else rf"self\.node_id_to_saved_mutated_symbol\.get\({PR}(, None)?\)", T(e.value)) is not None, "another container counts as changed", lambda e: it.fi.loc())
    q = TR + "resolve_loaded_symbols"
    PL = r"self\._partial_resolve_ref\(symbol_ref\)"
    LK = rf"{S}\.lookup_symbol_by_name\({PL}\)"
    LP = rf"{P}\.lookup_symbol_by_name\({PL}\)"
    opl = {"_partial_resolve_ref", "lookup_symbol_by_name", "non_namespace_parent_scope", "is_namespace_scope"}
    it = ctx.run(q, O().when(r"^isinstance\(symbol_ref, Symbol\)$", True), lambda e: False, opaque=opl)
    every(ctx, "R2-lookup", q + ": symbols", returns(it), lambda e: T(e.value) == "[symbol_ref]", "another value counts as read", lambda e: it.fi.loc())
    it = ctx.run(q, O().when(r"^isinstance\(symbol_ref, Symbol\)$", False).when(rf"^isinstance\({PL}, int\)$", True), lambda e: False, opaque=opl)
    every(ctx, "R2-lookup", q + ": loads", returns(it), lambda e: re.fullmatch(rf"self\.node_id_to_loaded_symbols\.get\({PL}, (\[\]|new_list|list\(\))\)", T(e.value)) is not None, "another value counts as read", lambda e: it.fi.loc())
    for own in (True, False):
        for cls in (True, False):
            for par in (True, False):
                o = O().when(r"^isinstance\(symbol_ref, Symbol\)$", False).when(rf"^isinstance\({PL}, int\)$", False).when(rf"^isinstance\({PL}, str\)$", True).when(r"\.is_namespace_scope$", cls)
                o.when(rf"^\(?(None is {LK}|{LK} is None)\)?$", not own).when(rf"^{LK}$", own).when(rf"^\(?(None is {LP}|{LP} is None)\)?$", not par).when(rf"^{LP}$", par).when(rf"^\(?({P} is None|None is {P})\)?$", False).when(rf"^{P}$", True)
                it = ctx.run(q, o, lambda e: False, opaque=opl)
                want = rf"\[{LK}\]" if own else rf"\[{LP}\]" if cls and par else r"\[\]|new_list"
                every(ctx, "R2-lookup", f"{q}:own={own}:class body={cls}:around={par}", returns(it), lambda e: re.fullmatch(want, T(e.value)) is not None, "a name that is read refers to something else", lambda e: it.fi.loc())


# ------------------------------------------------------------------ the record itself
def graph(ctx):
    ob = ctx.ob
    q = "Scope.upsert_symbol_for_name"
    INN = r"self\._upsert_symbol_for_name_inner\(.*\)"
    it = ctx.run(q, O().when(r"exec_counter\(\) <= 0", True).fn(lambda a, s: None), lambda e: e.is_call("update_deps", "_upsert_symbol_for_name_inner", "_resolve_symbol_type") or e.is_call("add") and "this_stmt_updated_symbols" in T(e.recv), opaque={"update_deps", "_upsert_symbol_for_name_inner", "_resolve_symbol_type", "_compute_is_static_write", "mutate", "get_namespace_symbols", "lookup_symbol_by_name_this_indentation"}, onlyraise=set())
    for e in returns(it):
        inn, upd = [x for x in e.trace if x.is_call("_upsert_symbol_for_name_inner")], [x for x in e.trace if x.is_call("update_deps")]
        if len(inn) != 1 or len(upd) != 1:
            ob("R8-recorded", q, False, f"a binding is recorded {len(inn)} times, with what it depends on {len(upd)} times", it.fi.loc())
            continue
        a = args(inn[0], "name", "obj", "deps", "symbol_type", "stmt_node", "symbol_node", "implicit")
        b = args(upd[0], "new_deps", "prev_obj", "overwrite")
        ob("R8-recorded", q, a["name"] == "name" and a["obj"] == "obj" and a.get("stmt_node") == "stmt_node" and a.get("symbol_node") == "symbol_node" and a.get("implicit") == "implicit", f"something else is recorded: {a}"[:200], inn[0].loc())
        ok = b["new_deps"] == a["deps"] and b.get("overwrite") == "overwrite" and b.get("propagate") == "propagate" and b.get("is_cascading_reactive") == "is_cascading_reactive" and re.search(r"_upsert_symbol_for_name_inner\(.*\)\[2\]$", b.get("prev_obj", "")) is not None \
            and b.get("refresh") in ("(not implicit)", "not implicit") and re.search(r"_upsert_symbol_for_name_inner\(.*\)\[0\]$", T(upd[0].recv)) is not None
        ob("R8-recorded", q + ": dependencies", bool(ok), f"it is recorded with other dependencies: {b}"[:240], upd[0].loc())
        ob("R8-recorded", q + ": copied", inn[0].b[2] != ("var", "deps"), "the dependencies that are passed in are changed", inn[0].loc())
        ob("R8-recorded", q + ": result", re.search(r"_upsert_symbol_for_name_inner\(.*\)\[0\]$", T(e.value)) is not None, "something else is given back", it.fi.loc())
    adds = [x for x in it.allevents.values() if x.is_call("add")]
    ob("R8-recorded", q + ": updated", bool(adds) and all(re.search(r"_upsert_symbol_for_name_inner\(.*\)\[0\]$", T(x.b[0])) for x in adds), "what a statement binds does not count as updated by it", it.fi.loc())
    q = "Scope._upsert_symbol_for_name_inner"
    LK = r"self\.lookup_symbol_by_name_this_indentation\(name, .*?skip_cloned_lookup=True\)"
    opq = {"lookup_symbol_by_name_this_indentation", "symbol_by_name", "update_obj_ref", "update_stmt_node", "put", "namespace"}
    for known in (True, False):
        for own in ((True, False) if known else (None,)):
            for isnone in ((True, False) if known else (None,)):
                for cl in ((True, False) if not own else (None,)):
                    o = O().when(rf"^\(?(None is {LK}|{LK} is None)\)?$", not known).when(rf"^{LK}$", known).when(r"^\(?name in self\.", own).when(rf"^\(?({LK}\.obj is None|None is {LK}\.obj)\)?$", isnone)
                    o.fn(lambda a, s: None if a[0] != "cmp" or a[1] != "is" or "None" not in T(a) else (not cl) if "cloned_from.lookup" in T(a) or T(a).rstrip(")").endswith("cloned_from") else False if "self.namespace" in T(a) else None).fn(lambda a, s: True if a[0] == "cmp" and "SymbolType.DEFAULT" in T(a) and a[1] == "==" else None)
                    it = ctx.run(q, o, lambda e: e.is_call("update_obj_ref", "update_stmt_node", "put", "add", "Symbol") or e.kind == "assign", opaque=opq)
                    con = f"{q}:known={known}:own={own}:none={isnone}:copied={cl}"
                    for e in returns(it):
                        v = [T(x) for x in e.value[1]] if e.value[0] == "tuple" else []
                        up = [x for x in e.trace if x.is_call("update_obj_ref")]
                        ad = [T(x.b[0]) for x in e.trace if x.is_call("add") and T(x.recv) == "deps"]
                        mk, pt = [x for x in e.trace if x.is_call("Symbol")], [x for x in e.trace if x.is_call("put")]
                        if own:
                            st = {T(x.a).rsplit(".", 1)[1]: T(x.b) for x in e.trace if x.kind == "assign" and re.fullmatch(LK, T(x.a).rsplit(".", 1)[0])}
                            us = [x for x in e.trace if x.is_call("update_stmt_node")]
                            ob("R8-object", con, len(up) == 1 and T(up[0].b[0]) == "obj" and re.fullmatch(LK, T(up[0].recv)) is not None and not mk and not pt, "what is bound now is not recorded", it.fi.loc())
                            ob("R8-object", con + ": where", len(us) == 1 and T(us[0].b[0]) == "stmt_node" and st.get("symbol_node") == "symbol_node", "where it was bound is not recorded", it.fi.loc())
                            ob("R8-object", con + ": result", len(v) == 3 and re.fullmatch(LK, v[0]) is not None and v[1] == v[0] and (v[2] == "Symbol.NULL" if isnone else re.fullmatch(rf"{LK}\.obj", v[2]) is not None or v[2].startswith("(Symbol.NULL if")), f"something else is given back: {v}"[:200], it.fi.loc())
                        else:
                            a = args(mk[0], "name", "symbol_type", "obj", "containing_scope", "stmt_node", "symbol_node") if len(mk) == 1 else {}
                            ok = len(mk) == 1 and a["name"] == "name" and a["symbol_type"] == "symbol_type" and a["obj"] == "obj" and a["containing_scope"] == "self" and a.get("stmt_node") == "stmt_node" and a.get("symbol_node") == "symbol_node" and a.get("implicit") == "implicit"
                            ob("R8-object", con, bool(ok), f"something else is recorded: {a}"[:200], it.fi.loc())
                            ob("R8-object", con + ": kept", len(pt) == 1 and len(mk) == 1 and T(pt[0].b[0]) == "name" and T(pt[0].b[1]).startswith("Symbol("), "a new name is not recorded in its scope", it.fi.loc())
                            ob("R8-copied", con, (any(re.fullmatch(LK, t) for t in ad)) == bool(known) and any("cloned_from.lookup" in t for t in ad) == bool(cl), f"a member that hides one of its class does not depend on it, or another one does: {ad}"[:160], it.fi.loc())
                            ob("R8-object", con + ": result", len(v) == 3 and v[0].startswith("Symbol(") and (re.fullmatch(LK, v[1]) is not None if known else v[1] == "None" or re.fullmatch(LK, v[1]) is not None), f"something else is given back: {v}"[:200], it.fi.loc())
                    ob("R8-object", con + ": paths", bool(returns(it)), "a binding fails", it.fi.loc())
    it = ctx.run(q, None, lambda e: e.is_call("lookup_symbol_by_name_this_indentation"), opaque=opq)
    lk = [x for x in it.allevents.values() if T(x.recv) == "self"]
    ob("R8-object", q + ": lookup", bool(lk) and all(T(x.b[0]) == "name" and re.fullmatch(r"\(?(SymbolType\.SUBSCRIPT == symbol_type|symbol_type == SymbolType\.SUBSCRIPT|symbol_type is SymbolType\.SUBSCRIPT|SymbolType\.SUBSCRIPT is symbol_type)\)?", callkw(x, "is_subscript") or "") is not None for x in lk), "an item and a member of the same name are confused", it.fi.loc())
    # both ends of an edge
    q = "Symbol.update_deps"
    opq = {"refresh", "update_usage_info", "upsert_symbol_for_name", "_refresh_cached_obj", "bump_cascading_reactive_cell_num", "_should_cancel_propagation", "_is_underscore_or_simple_assign", "is_cascading_reactive_at_counter", "is_import", "is_globally_accessible", "is_immutable", "obj_id", "cached_obj_id", "is_class", "is_mutation_virtual_symbol", "is_implicit", "is_underscore", "namespace", "prev_cell", "current_cell"}
    base = lambda: O().when(r"^self\.is_import$", False).when(r"^mutated$", False).when(r"^self\.is_class$", False).when(r"^self\.namespace is None|None is self\.namespace", True)
    OVR = lambda over, inn, below: base().when(r"^overwrite$", over).when(r"^\(?self in new_deps\)?$", inn).when(r"^\(?self in elem\(new_deps\)\.parents\)?$", below)
    PE = lambda x: x.is_call("pop", "setdefault", "append", "add", "clear", "update") and re.search(r"\.(parents|children)\b", T(x.recv)) or x.kind in ("setitem", "delitem", "assign") and re.search(r"\.(parents|children)\b", T(x.a))
    for over in (True, False):
        for inn in (True, False):
            for below in (True, False):
                it = ctx.run(q, OVR(over, inn, below), lambda e: PE(e) or e.kind in ("iter", "loop"), opaque=opq, onlyraise=set())
                gone = over and not inn and not below
                rem = [i for i in loops_over(it, r"self\.parents") if "new_deps -" not in T(i.iter)]
                con = f"{q}:replaces={over}:depends on itself={inn}:depends on what it is made from={below}"
                for e in returns(it):
                    lp = [x for x in e.trace if x.kind == "loop" and re.search(r"self\.parents(\.keys\(\))? - new_deps", T(x.a))]
                    if below and over and not inn:
                        kept = [z for z in returns(it) if not any(x.kind == "loop" and re.search(r"self\.parents(\.keys\(\))? - new_deps", T(x.a)) for x in z.trace)]
                        ob("R8-replaced", con, bool(kept), "what a value still depends on is dropped", it.fi.loc())
                        continue
                    ob("R8-replaced", con, bool(lp) == bool(gone), "what a value no longer depends on stays recorded" if gone else "what a value still depends on is dropped", it.fi.loc())
                for i in rem:
                    ev = [(x.a[-1], T(x.recv), T(x.b[0])) for x in i.events if x.is_call("pop")]
                    el = T(("elem", i.iter)) if False else None
                    a = [g for g in ev if g[1].endswith(".children") and g[2] == "self"]
                    b = [g for g in ev if g[1] == "self.parents"]
                    ob("R8-both-ends", con + ": dropped", len(a) == 1 and len(b) == 1 and a[0][1] == b[0][2] + ".children" and i.kind == "next", "an edge is dropped at one of its ends only", it.fi.loc())
                add = [i for i in loops_over(it, r"new_deps - self\.parents|new_deps\b") if any(x.is_call("setdefault", "append") for x in i.events)]
                ob("R8-both-ends", con + ": each", bool(add), "a dependency is not recorded", it.fi.loc())
                for i in add:
                    ch = [(T(x.recv), T(x.b[0])) for x in i.events if x.is_call("setdefault")]
                    a = [g for g in ch if g[0].endswith(".children") and g[1] == "self"]
                    b = [g for g in ch if g[0] == "self.parents"]
                    ap = [x for x in i.events if x.is_call("append")]
                    ob("R8-both-ends", con + ": added", len(a) == 1 and len(b) == 1 and a[0][0] == b[0][1] + ".children" and len(ap) == 2 and all("Timestamp.current()" in T(x.b[0]) for x in ap) and i.kind == "next", "an edge is recorded at one of its ends only", it.fi.loc())
    it = ctx.run(q, base(), lambda e: e.is_call("discard", "remove") and T(e.recv) == "new_deps" or e.kind == "loop", opaque=opq, onlyraise=set())
    for e in returns(it):
        d = [i for i, x in enumerate(e.trace) if x.is_call("discard", "remove") and T(x.b[0]) == "self"]
        l = [i for i, x in enumerate(e.trace) if x.kind == "loop" and re.search(r"new_deps - self\.parents", T(x.a))]
        ob("R8-both-ends", q + ": itself", bool(d) and (not l or d[0] < l[0]), "a value depends on itself", it.fi.loc())


def check(ctx):
    edges(ctx)
    values(ctx)
    matching(ctx)
    stores(ctx)
    elementwise(ctx)
    recording(ctx)
    where(ctx)
    graph(ctx)
