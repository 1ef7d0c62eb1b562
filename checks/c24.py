from sa import visitors as V

from .common import *
from .c08 import callkw, ctor_args, live

TITLE = "What a read refers to"
PROP = dict(
    title="Every read is followed, step by step, to the values it refers to",
    statement="A name is looked up in the scope where it is read and then in the enclosing ones, never in class bodies; a member or item is looked up in the object and then in its class, "
              "and a negative position counts from the end. Every step that is found is a dependency; the walk stops at the first unknown step and never continues with another object's member; "
              "the body of every called function is followed in its own scope with its parameters bound. A read covers part of a value only if a member or item is taken of it, and is "
              "held back only if taking it could fail. Recorded uses carry the time of the read, and names that cannot be found are reported.",
    over=["programs"],
    qtext="every name, chain of members, items and calls, and every nesting of scopes and functions",
    why_tests_cant="Tests follow a few short chains; scopes, members, items, calls, marks and unknown steps combine without bound, and a wrong step silently loses or invents a dependency.",
    files=["core/ipyflow/analysis/symbol_ref.py", "core/ipyflow/analysis/resolved_symbols.py", "core/ipyflow/analysis/live_refs.py", "core/ipyflow/data_model/scope.py",
           "core/ipyflow/data_model/namespace.py", "core/ipyflow/data_model/symbol.py"],
    mechanism=[("chains of names", "analysis/symbol_ref.py"), ("lookup in scopes and objects", "data_model/scope.py, data_model/namespace.py"),
               ("what is used of a value", "analysis/resolved_symbols.py"), ("bodies of called functions", "analysis/live_refs.py")],
    observe=["dependencies of cells", "cells that are ready or waiting", "recorded uses"],
)
TECHNIQUE = "path-sensitive abstract interpretation: the value given back by each lookup on every path, truth tables of what may be used, and required/forbidden effects per step of a walk"
LEVEL_NOTE = "Decides each step of the walk for all chains; that the recorded namespaces mirror the user's objects is the subject of other properties."
ATOM = ("value", "is_callpoint", "is_subscript", "is_reactive", "is_cascading_reactive", "is_blocking")
REF = "analysis.live_refs:get_live_symbols_and_cells_for_references"
CHAIN = "analysis.live_refs:_compute_call_chain_live_symbols_and_cells"


def returns(it):
    return [e for e in it.ends if e.kind == "return"]


def gives(ctx, rule, q, o, want, why, con="", **kw):
    """every path gives a value whose text matches"""
    it = ctx.run(q, o, lambda e: False, **kw)
    every(ctx, rule, it.fi.qual + con, returns(it), lambda e: e.value is not None and re.search(want, T(e.value)) is not None, why, lambda e: it.fi.loc(e.node))
    return it


# ------------------------------------------------------------------ lookup
def lookup(ctx):
    q = "Scope.lookup_symbol_by_name"
    op = {"lookup_symbol_by_name_this_indentation", "non_namespace_parent_scope", "lookup_symbol_by_name", "is_global", "is_namespace_scope"}
    OWN = r"self\.lookup_symbol_by_name_this_indentation\(name, \*\*kwargs\)"
    PAR = r"self\.non_namespace_parent_scope"
    for own in (True, False):
        for par in (True, False):
            if own and not par:
                continue
            o = O().when(rf"{OWN} is None|None is {OWN}", not own).when(rf"{PAR} is None|None is {PAR}", not par).when(rf"^{OWN}$", own).when(rf"^{PAR}$", par)
            want = rf"^{OWN}$" if own else rf"^{PAR}\.lookup_symbol_by_name\(name, \*\*kwargs\)$" if par else rf"^{OWN}$|^None$"
            gives(ctx, "R1-scopes", q, o, want, "a name is not the nearest enclosing one", f":own={own}:enclosing={par}", opaque=op)
    q = "Scope.non_namespace_parent_scope"
    for gl, ns in ((True, False), (False, True), (False, False)):
        o = O().when(r"^self\.is_global$|self\.parent_scope is None", gl).when(r"^self\.parent_scope\.is_namespace_scope$", ns)
        want = r"^None$" if gl else r"^self\.parent_scope\.non_namespace_parent_scope$" if ns else r"^self\.parent_scope$"
        gives(ctx, "R1-scopes", q, o, want, "the names of a class body count as visible inside of its methods, or visible ones do not", f":outermost={gl}:class={ns}",
              opaque={"is_global", "is_namespace_scope", "non_namespace_parent_scope"})
    for q, want in (("Scope.is_global", r"self\.parent_scope is None|None is self\.parent_scope"), ("Scope.is_namespace_scope", "^False$"), ("Namespace.is_namespace_scope", "^True$")):
        it = ctx.run(q, None)
        every(ctx, "R1-scopes", q, returns(it), lambda e: re.search(want, " ".join(atexts(e.value)) if e.value[0] == "cmp" else T(e.value)) is not None, "a kind of scope is misjudged", lambda e: it.fi.loc())
    gives(ctx, "R1-own-names", "Scope.lookup_symbol_by_name_this_indentation", None, r"^self\._symbol_by_name\.get\(name(, None)?\)$", "a name is not the one the scope holds")
    # members and items
    q = "Namespace.lookup_symbol_by_name_this_indentation"
    op = {"_lookup_subscript", "lookup_symbol_by_name_this_indentation"}
    M = r"self\._symbol_by_name\.get\(name(, None)?\)"
    S = r"self\._lookup_subscript\(name\)"
    C = r"self\.cloned_from\.lookup_symbol_by_name_this_indentation\(name\b.*\)"
    none = lambda o, r, v: o.when(rf"^\(?{r} is None\)?$|^\(?None is {r}\)?$", v).when(rf"^{r}$", not v)
    for sub in (None, True, False):
        for m in (True, False):
            for s in (True, False):
                for cls, skip, isstr, own in ((True, False, True, False), (True, False, True, True), (True, True, True, False), (True, False, False, False), (False, False, True, False)):
                    o = O().when(r"^\(?None is is_subscript|is_subscript is None\)?$", sub is None).when(r"^is_subscript$", bool(sub))
                    none(o, M, not m)
                    none(o, S, not s)
                    none(o, r"self\.cloned_from", not cls)
                    o.when(r"^skip_cloned_lookup$", skip).when(r"^isinstance\(name, str\)$", isstr).when(r"^\(?name in (getattr\(self\.obj, '__dict__'|self\.obj\.__dict__|vars\(self\.obj)", own)
                    if sub is not True and m:
                        want = rf"^{M}$"
                    elif sub is not False and s:
                        want = rf"^{S}$"
                    elif cls and not skip and isstr and not own and sub is not True:
                        want = rf"^{C}$"
                    else:
                        want = rf"^{M}$|^{S}$|^None$"
                    gives(ctx, "R2-members", q, o, want, "a member or item is not the one that Python finds", f":item={sub}:member known={m}:item known={s}:class={cls}:own only={skip}:name={isstr}:in object={own}", opaque=op)
    it = ctx.run(q, None, lambda e: e.is_call("lookup_symbol_by_name_this_indentation"), opaque=op)
    every(ctx, "R2-members", q + ": class", [e for e in it.allevents.values() if "cloned_from" in T(e.recv)], lambda e: T(e.b[0]) == "name" and callkw(e, "is_subscript") == "is_subscript",
          "something else is looked up in the class", lambda e: e.loc())
    q = "Namespace._lookup_subscript"
    G = r"self\._subscript_symbol_by_name\.get\(name(, None)?\)"
    E = r"self\._subscript_symbol_by_name\.get\(\(?(len\(self\.obj\) \+ name|name \+ len\(self\.obj\))\)?(, None)?\)"
    for found in (True, False):
        for seq, neg, isint in ((True, True, True), (True, False, True), (False, True, True), (True, True, False)):
            o = O()
            none(o, G, not found)
            o.when(r"isinstance\(self\.obj, ", seq).when(r"isinstance\(name, int\)", isint).when(r"hasattr\(self\.obj, '__len__'\)", True).when(r"name < 0", neg)
            want = rf"^{E}$" if not found and seq and neg and isint else rf"^{G}$|^None$" if not found else rf"^{G}$"
            gives(ctx, "R2-negative-positions", q, o, want, "an item is not the one at that position", f":found={found}:sequence={seq}:negative={neg}:position={isint}")
    gives(ctx, "R2-members", "Namespace.lookup_symbol_by_name", None, r"^self\.lookup_symbol_by_name_this_indentation\(name, \*args, \*\*kwargs\)$",
          "members are looked up in the scope that contains the object", opaque={"lookup_symbol_by_name_this_indentation"})
    for cls, isub, want in (("Namespace", True, "self._subscript_symbol_by_name"), ("Namespace", False, "self._symbol_by_name"), ("Scope", False, "self._symbol_by_name")):
        it = ctx.run(cls + ".symbol_by_name", O().when("^is_subscript$", isub))
        every(ctx, "R2-members", f"{cls}.symbol_by_name:item={isub}", returns(it), lambda e: T(e.value) == want, "members and items are confused", lambda e: it.fi.loc())
    for cls in ("Scope", "Namespace"):
        for isub in ((False,) if cls == "Scope" else (True, False)):
            ST = lambda e: e.kind == "setitem" and re.fullmatch(r"self\._(subscript_)?symbol_by_name", T(e.a))
            it = ctx.run(cls + ".put", O().when(r"^val\.is_subscript$", isub).when(r"isinstance\(name, str\)", True), lambda e: ST(e) or e.kind == "assign")
            want = "self._subscript_symbol_by_name" if isub else "self._symbol_by_name"
            every(ctx, "R2-stored", f"{cls}.put:item={isub}", returns(it), lambda e: [(T(x.a), T(x.b), T(x.c)) for x in e.trace if ST(x)] == [(want, "name", "val")] and
                  any(x.kind == "assign" and T(x.a) == "val.containing_scope" and T(x.b) == "self" for x in e.trace), "what is stored under a name cannot be found under it", lambda e: it.fi.loc())
    # promoted to a class's or object's members
    q = "Namespace.clone"
    it = ctx.run(q, None, lambda e: e.kind == "assign" or e.is_call("append", "Namespace"))
    every(ctx, "R2-class", q, returns(it), lambda e: any(x.kind == "assign" and T(x.a).endswith(".cloned_from") and T(x.b) == "self" for x in e.trace) and "Namespace(obj" in T(e.value),
          "the members of the class are not found through its instances", lambda e: it.fi.loc())
    # dotted names
    q = "Scope.lookup_symbol_by_qualified_name"
    LK = r"lookup_symbol_by_name_this_indentation\((name=)?elem\(qualified_name\.split\((sep=)?'\.'\)\), is_subscript=False\)"
    kinds = lambda a, s: None if a[0] != "truth" or not T(a[1]).startswith("isinstance(") or "," not in T(a[1]) else not T(a[1]).endswith(", Scope)") if re.search(LK + r", S", T(a[1])) else (
        T(a[1]).endswith(", Scope)") if T(a[1]).startswith("isinstance(self, ") else None)
    it = ctx.run(q, O().fn(kinds), lambda e: e.is_call("lookup_symbol_by_name_this_indentation"), opaque={"lookup_symbol_by_name_this_indentation", "namespace"})
    for e in returns(it):
        v = T(e.value)
        ok = v == "None" or re.fullmatch(rf"self\.{LK}(\.namespace\.{LK})*", v) is not None
        ctx.ob("R3-dotted", f"{q}:{v[:60]}", ok, "a dotted name is not followed member by member", it.fi.loc(e.node))
    ctx.ob("R3-dotted", f"{q}:found", any(".namespace." in T(e.value) for e in returns(it)), "members of members are not found", it.fi.loc())
    it = ctx.run(q, O().when(r"^isinstance\(.*, Symbol\)$", False).when(r"^isinstance\(.*, Scope\)$", True), None, opaque={"lookup_symbol_by_name_this_indentation", "namespace"})
    every(ctx, "R3-dotted", q + ":unknown", [e for e in returns(it)], lambda e: T(e.value) == "None", "an unknown dotted name gives a scope", lambda e: it.fi.loc(e.node))


# ------------------------------------------------------------------ walking a chain
def walk(ctx):
    q = "Scope.gen_symbols_for_attrsub_chain"
    op = {"lookup_symbol_by_name", "namespace"}
    A = r"elem\(symbol_ref\.chain\)"
    YR = lambda e: e.kind == "yield"
    for call in (True, False):
        for found in (True, False):
            for last in (True, False):
                o = O().when(rf"^{A}\.is_callpoint$", call).when(r"lookup_symbol_by_name\(.*\) is None\)?$", not found).when(r"^.*lookup_symbol_by_name\([^=]*\)$", found)
                o.fn(lambda a, s: last if a[0] == "cmp" and a[1] == "==" and any("len(symbol_ref.chain)" in x and "index(" in x for x in atexts(a)) else None)
                o.when(r"\.namespace is None|None is .*\.namespace\)?$", False)
                it = ctx.run(q, o, lambda e: YR(e) or e.is_call("lookup_symbol_by_name"), opaque=op)
                its = [i for i in it.iterations if "symbol_ref.chain" in T(i.iter)]
                con = f"{q}:call={call}:found={found}:last={last}"
                ctx.ob("R4-walk", con + ": loop", bool(its), "a chain is not walked", it.fi.loc())
                for i in its:
                    ys = [e for e in i.events if YR(e)]
                    lk = [e for e in i.events if e.is_call("lookup_symbol_by_name")]
                    ctx.ob("R4-walk", con + ": lookup", bool(lk) and all(re.fullmatch(rf"{A}\.value", T(e.b[0])) for e in lk), "a step of a chain is not looked up by its own name", it.fi.loc())
                    ctx.ob("R4-walk", con, len(ys) == (1 if found else 0), "a step that is known is left out" if found else "a step that is unknown is reported", it.fi.loc())
                    for e in ys:
                        ok = e.a[0] == "tuple" and len(e.a[1]) == 3 and T(e.a[1][0]).endswith(".value)") and "lookup_symbol_by_name(" in T(e.a[1][0]) and re.fullmatch(A, T(e.a[1][1])) and \
                            re.fullmatch(r"None" if last else rf"symbol_ref\.chain\[\(?(index\({A}\) \+ 1|1 \+ index\({A}\))\)?\]", T(e.a[1][2]))
                        ctx.ob("R4-walk", con + ": step", bool(ok), f"a step is reported as {T(e.a)[:120]}", e.loc())
                    stop = call or not found
                    ctx.ob("R4-walk", con + ": goes on", (i.kind in ("break", "return")) == stop, "the walk goes on past what is unknown" if stop else "the walk stops early", it.fi.loc())
    o = O().when(rf"^{A}\.is_callpoint$", False).when(r"lookup_symbol_by_name\(.*\.value\) is None\)?$", False)
    it = ctx.run(q, o, lambda e: e.is_call("lookup_symbol_by_name"), opaque=op)
    rec = {T(e.recv) for e in it.allevents.values()}
    ctx.ob("R4-walk", q + ": start", "self" in rec, "the walk does not start in the scope of the read", it.fi.loc())
    ctx.ob("R4-walk", q + ": members", bool(rec - {"self"}) and all(r.endswith(".namespace") or "phi" in r for r in rec - {"self"}), f"the next step is looked up in {sorted(rec)}", it.fi.loc())
    it = ctx.run(q, O().when(rf"^{A}\.is_callpoint$", False).when(r"lookup_symbol_by_name\(.*\.value\) is None\)?$", False).when(r"\.namespace is None", True), lambda e: e.is_call("lookup_symbol_by_name"), opaque=op)
    ctx.ob("R4-walk", q + ": no members", all(i.kind in ("break", "return") for i in it.iterations if "symbol_ref.chain" in T(i.iter)), "members of a value without members are looked up elsewhere", it.fi.loc())
    G = r"elem\(self\.gen_symbols_for_attrsub_chain\(chain\)\)"
    it = ctx.run("Scope.get_most_specific_symbol_for_attrsub_chain", None, opaque={"gen_symbols_for_attrsub_chain"})
    every(ctx, "R4-most-specific", it.fi.qual, returns(it), lambda e: T(e.value) == "None" or re.fullmatch(rf"{G}|\({G}\[0\], {G}\[1\], {G}\[2\]\)", T(e.value)) is not None, "not the last step that is known", lambda e: it.fi.loc())
    ctx.ob("R4-most-specific", it.fi.qual + ":found", any(re.search(G, T(e.value)) for e in returns(it)), "nothing is found", it.fi.loc())
    ctx.ob("R4-most-specific", it.fi.qual + ":last", not any(i.kind in ("break", "return") for i in it.iterations), "not the last step that is known", it.fi.loc())
    q = "Scope.try_fully_resolve_attrsub_chain"
    for last in (True, False):
        it = ctx.run(q, O().when(rf"{G}\[2\] is None|None is {G}\[2\]", last).when(rf"^{G}\[2\]$", not last), lambda e: e.kind == "iter", opaque={"gen_symbols_for_attrsub_chain"}, inline={"Scope.get_most_specific_symbol_for_attrsub_chain"})
        for e in returns(it):
            want = rf"{G}\[0\]" if last and any(x.kind == "iter" for x in e.trace) else "None"
            ctx.ob("R4-fully", f"{q}:all known={last}", re.fullmatch(want, T(e.value)) is not None, "a chain counts as known although a step is not, or the reverse", it.fi.loc())
        ctx.ob("R4-fully", q + ":last", not any(i.kind in ("break", "return") for i in it.iterations), "the walk stops early", it.fi.loc())


# ------------------------------------------------------------------ the chain of an expression
def chains(ctx):
    C = "SymbolRefVisitor."
    q = C + "visit_Subscript"
    op = {"resolve_slice_to_constant", "visit", "_append_atom", "lookup_symbol_by_name", "_drop_members_of_unknown"}
    R = r"resolve_slice_to_constant\(node\)"
    AP = lambda e: e.is_call("append") and T(e.recv) == "self.symbol_chain"
    VI = lambda e: e.is_call("visit") and T(e.recv) == "self"
    DROP = lambda e: e.is_call("pop") and T(e.recv) == "self.symbol_chain" or e.kind == "delitem" and T(e.a) == "self.symbol_chain" or e.is_call("clear") and T(e.recv) == "self.symbol_chain"
    SYM = r"self\.scope\.lookup_symbol_by_name\(" + R + r"\.id\)"
    for kind, scope, sym, lazy, idx in (("none", True, True, False, True), ("const", True, True, False, True), ("name", False, True, False, True), ("name", True, False, False, True),
                                        ("name", True, True, True, True), ("name", True, True, False, False), ("name", True, True, False, True)):
        o = O().when(rf"^\(?({R} is None|None is {R})\)?$", kind == "none").when(rf"^isinstance\({R}, ast\.Name\)$", kind == "name").when(r"^\(?(self\.scope is None|None is self\.scope)\)?$", not scope)
        o.when(rf"{SYM} is None|None is {SYM}", not sym).when(rf"^{SYM}\.is_obj_lazy_module$", lazy).when(rf"^isinstance\({SYM}\.obj, ", idx)
        o.when(rf"^\(?{SYM}\.obj is None\)?$", False)
        it = ctx.run(q, o, lambda e: AP(e) or VI(e) or DROP(e) or e.kind == "call" and T(e.a) == "Atom", opaque=op - {"_drop_members_of_unknown"}, inline={"SymbolRefVisitor._drop_members_of_unknown"})
        known = kind == "const" or kind == "name" and scope and sym and not lazy and idx
        con = f"{q}:index={kind}:scope={scope}:found={sym}:lazy={lazy}:usable={idx}"
        ctx.ob("R5-items", con + ": paths", bool(it.ends), "nothing happens", it.fi.loc())
        for e in it.ends:
            if e.kind != "return":
                continue
            aps = [x for x in e.trace if AP(x)]
            at = [ctor_args(x, ATOM) for x in e.trace if x.kind == "call" and T(x.a) == "Atom"]
            val = SYM + r"\.obj" if kind == "name" else R
            ok = len(aps) == 1 and len(at) == 1 and re.fullmatch(val, at[0].get("value", "")) and at[0].get("is_subscript") == "True" and at[0].get("is_callpoint", "False") == "False" if known else not aps
            ctx.ob("R5-items", con, bool(ok), "an item is not part of the chain" if known else "an unknown item is part of the chain", it.fi.loc())
            if not known:
                ctx.ob("R5-unknown-items", con, dropped(e, DROP), "members of an unknown item count as members of its container", it.fi.loc())
            vs = [k for k, x in enumerate(e.trace) if VI(x)]
            ctx.ob("R5-items", con + ": container", len(vs) == 1 and T(e.trace[vs[0]].b[0]) == "node.value" and all(k < vs[0] for k, x in enumerate(e.trace) if AP(x) or DROP(x)),
                   "the container is not part of the chain, or comes in the wrong place", it.fi.loc())
    # dropping keeps what is called
    if "SymbolRefVisitor._drop_members_of_unknown" in {f.qual for f in ctx.ix.funcs.values()}:
        it = ctx.run(C + "_drop_members_of_unknown", O().when(r"\.is_callpoint$", True), DROP)
        ctx.ob("R5-unknown-items", it.fi.qual + ": calls", not it.allevents, "calls of members of unknown items are forgotten", it.fi.loc())
    q = C + "visit_Attribute"
    it = ctx.run(q, None, lambda e: VI(e) or e.is_call("_append_atom"), opaque=op)
    every(ctx, "R5-members", q, returns(it), lambda e: [(x.a[-1], [T(b) for b in x.b]) for x in e.trace] == [("_append_atom", ["node", "node.attr"]), ("visit", ["node.value"])],
          "a member is not part of the chain, or comes in the wrong place", lambda e: it.fi.loc())
    q = C + "visit_Call"
    for k in ("Attribute", "Subscript", "Name", "Call"):
        for const_ in ((True, False) if k == "Subscript" else (None,)):
            o = isinst(O(), r"node\.func", k)
            if const_ is not None:
                o.when(r"^isinstance\(node\.func\.slice, ast\.Constant\)$", const_).when(r"^isinstance\(node\.func\.slice, ast\.Index\)$", False)
            it = ctx.run(q, o, lambda e: VI(e) or AP(e) or DROP(e) or e.is_call("_append_atom") or e.kind in ("assign", "raise") or e.kind == "call" and T(e.a) == "Atom", opaque=op - {"_drop_members_of_unknown"}, inline={"SymbolRefVisitor._drop_members_of_unknown"})
            con = f"{q}:{k}" + ("" if const_ is None else f":constant={const_}")
            if k == "Call":
                ctx.ob("R5-calls", con, bool(it.ends) and all(e.kind == "raise" for e in it.ends), "the result of a call counts as what was called", it.fi.loc())
                continue
            for e in it.ends:
                if e.kind != "return":
                    continue
                vs = [T(x.b[0]) for x in e.trace if VI(x)]
                ctx.ob("R5-calls", con + ": of", vs == ["node.func" if k == "Name" else "node.func.value"], "what is called is not part of the chain", it.fi.loc())
                if k == "Attribute":
                    ok = [(T(x.b[0]), T(x.b[1]), callkw(x, "is_callpoint")) for x in e.trace if x.is_call("_append_atom")] == [("node.func", "node.func.attr", "True")]
                elif k == "Name":
                    i = next((n for n, x in enumerate(e.trace) if VI(x)), None)
                    ok = any(x.kind == "assign" and T(x.a) == "self.symbol_chain[-1].is_callpoint" and T(x.b) == "True" and i is not None and n > i for n, x in enumerate(e.trace))
                elif const_:
                    at = [ctor_args(x, ATOM) for x in e.trace if x.kind == "call" and T(x.a) == "Atom"]
                    ok = sum(AP(x) for x in e.trace) == 1 and len(at) == 1 and "resolve_slice_to_constant(node.func)" in at[0].get("value", "") and at[0].get("is_callpoint") == "True" and at[0].get("is_subscript") == "True"
                else:
                    ok = not any(AP(x) for x in e.trace)
                    ctx.ob("R5-unknown-items", con, dropped(e, DROP), "members of the result of an unknown item count as members of its container", it.fi.loc())
                ctx.ob("R5-calls", con, bool(ok), "a call does not count as a call", it.fi.loc())
                order = [("v" if VI(x) else "a") for x in e.trace if VI(x) or AP(x) or x.is_call("_append_atom")]
                ctx.ob("R5-calls", con + ": order", order == sorted(order), "a step of the chain comes in the wrong place", it.fi.loc())
    for v in ("visit_Import", "visit_ImportFrom"):
        for asn in (True, False):
            it = ctx.run(C + v, O().when(r"^elem\(node\.names\)\.asname$", asn).when(r"^\(?(elem\(node\.names\)\.asname is None)", not asn), lambda e: e.is_call("_append_atom"), opaque=op)
            its = loops_over(it, r"node\.names")
            ctx.ob("R5-imports", f"{C}{v}:renamed={asn}", bool(its) and all(any(x.is_call("_append_atom") and x.b[1] in (x.b[1],) and bval_name(x.b[1], asn) for x in i.events) for i in its), "an imported name is not the one that is bound", it.fi.loc())
    # literals and other expressions do not start a chain
    ci = ctx.ix.by_name("SymbolRefVisitor") if callable(getattr(ctx.ix, "by_name", None)) else None
    have = {f.name for f in ctx.ix.funcs.values() if f.qual.endswith("SymbolRefVisitor." + f.name)}
    bad = []
    for k in sorted(n for n in dir(ast) if isinstance(getattr(ast, n), type) and issubclass(getattr(ast, n), (ast.expr, ast.stmt)) and n not in ("expr", "stmt")):
        if k in ("Name", "Attribute", "Subscript", "Call", "ClassDef", "FunctionDef", "AsyncFunctionDef", "Import", "ImportFrom"):
            continue
        m = "visit_" + k if "visit_" + k in have else "generic_visit"
        it = ctx.run(C + m, None, lambda e: e.kind in ("raise", "call"), opaque=op)
        if not it.ends or any(e.kind != "raise" for e in it.ends):
            bad.append(k)
    ctx.ob("R5-literals", "SymbolRefVisitor", "generic_visit" in have and not bad, f"chains may start at the value of other expressions: {bad}", "")
    q = C + "__call__"
    it = ctx.run(q, None, lambda e: e.is_call("visit", "reverse", "clear", "SymbolRef") or e.kind == "assign", opaque=op, onlyraise={"visit"})
    for e in returns(it):
        tr = e.trace
        idx = lambda p: next((k for k, x in enumerate(tr) if p(x)), None)
        v, r, s = idx(VI), idx(lambda x: x.is_call("reverse")), idx(lambda x: x.kind == "call" and T(x.a) == "SymbolRef")
        rev = r is not None and v is not None and v < r and (s is None or r < s) or s is not None and re.search(r"reversed\(|\[::-1\]", T(tr[s].b[0]))
        ctx.ob("R5-order", q, v is not None and bool(rev), "the steps of a chain come in the wrong order", it.fi.loc())
        ctx.ob("R5-order", q + ": result", s is not None and "symbol_chain" in T(tr[s].b[0]) and T(e.value).startswith("SymbolRef(") and callkw(tr[s], "scope") == "scope", "the chain is not given back", it.fi.loc())
        emp = [k for k, x in enumerate(tr) if x.kind == "assign" and T(x.a) == "self.symbol_chain" and T(x.b) in ("[]", "new_list", "list()")]
        ctx.ob("R5-order", q + ": fresh", any(s is not None and k > s for k in emp), "the next chain continues this one", it.fi.loc())
        sc = [T(x.b) for x in tr if x.kind == "assign" and T(x.a) == "self.scope"]
        ctx.ob("R5-order", q + ": scope", bool(sc) and sc[0] == "scope", "indices are not looked up in the scope of the read", it.fi.loc())
    ctx.ob("R5-order", q + ": given up", any(e.kind == "return" and any(x.is_call("clear") or x.kind == "assign" and T(x.a) == "self.symbol_chain" for x in e.trace[:3]) for e in it.ends)
           and not any(e.kind == "raise" for e in it.ends if "ValueError" in T(e.value or ("const", "str", ""))), "an expression that starts nowhere is an error", it.fi.loc())
    # constants in brackets
    q = "resolve_slice_to_constant"
    SL = r"subscript_to_slice\(node\)"
    OLD = lambda o: o.when(r"getattr\(ast, '(Num|Str)'", False)
    for neg in (True, False):
        X = rf"{SL}\.operand" if neg else SL
        o = OLD(O()).when(rf"^isinstance\({SL}, ast\.Tuple\)$", False).when(rf"^isinstance\({SL}, ast\.UnaryOp\)$", neg).when(rf"^isinstance\({SL}\.op, ast\.USub\)$", neg)
        mk = lambda k: O()
        for kind in ("Name", "Constant", "other"):
            for val in (("int", "float", "str") if kind == "Constant" else (None,)):
                oo = O()
                oo.fn(lambda a, s: (kind in re.findall(r"ast\.(\w+)", T(a[1]).split(", ", 1)[1])) if a[0] == "truth" and re.match(rf"isinstance\({X}, ", T(a[1])) and
                      re.search(r"ast\.(Name|Constant)", T(a[1])) else None)
                oo.fn(lambda a, s: val in re.findall(r"\w+", T(a[1]).rsplit(".value, ", 1)[1]) if a[0] == "truth" and re.match(r"isinstance\(.*\.value, ", T(a[1])) else None)
                oo.entries += o.entries
                it = ctx.run(q, oo)
                if kind == "Name":
                    want = "^None$" if neg else rf"^{X}$"
                elif kind == "Constant":
                    want = rf"^{X}\.value$" if not neg else rf"^\(?-\(?{X}\.value\)*$|^neg\({X}\.value\)$|^\(-{X}\.value\)$" if val != "str" else rf"^None$|^{X}\.value$"
                else:
                    want = "^None$"
                every(ctx, "R5-index", f"{q}:negative={neg}:{kind}:{val}", returns(it), lambda e: re.search(want, T(e.value)) is not None, "an index is not the one that is written", lambda e: it.fi.loc(e.node))
    o = OLD(O()).when(rf"^isinstance\({SL}, ast\.Tuple\)$", False).when(rf"^isinstance\({SL}, ast\.UnaryOp\)$", True).when(rf"^isinstance\({SL}\.op, ast\.USub\)$", False)
    o.fn(lambda a, s: "UnaryOp" in T(a[1]).split(", ", 1)[1] if a[0] == "truth" and re.match(rf"isinstance\({SL}, ", T(a[1])) else None)
    it = ctx.run(q, o)
    every(ctx, "R5-index", f"{q}:other operators", returns(it), lambda e: T(e.value) == "None", "an index is not the one that is written", lambda e: it.fi.loc(e.node))
    o = OLD(O()).when(rf"^isinstance\({SL}, ast\.Tuple\)$", True)
    for const_ in (True, False):
        it = ctx.run(q, OLD(O().when(rf"^isinstance\({SL}, ast\.Tuple\)$", True)).when(r"^isinstance\(elem\(.*\.elts\), ast\.Constant\)$", const_), lambda e: e.is_call("append") or e.kind in ("collect", "iter"))
        its = [i for i in it.iterations if ".elts" in T(i.iter)]
        ok = bool(its) and all((any(e.is_call("append") and T(e.b[0]).endswith(".value") for e in i.events) and i.kind == "next") if const_ else i.kind == "return" and not any(e.is_call("append") for e in i.events) for i in its)
        ctx.ob("R5-index", f"{q}:several:constant={const_}", ok, "several indices are not the ones that are written", it.fi.loc())
        for e in returns(it):
            if const_:
                ctx.ob("R5-index", f"{q}:several:result", T(e.value).startswith("tuple("), "several indices are not the ones that are written", it.fi.loc())
            elif any(x.kind == "iter" for x in e.trace):
                ctx.ob("R5-index", f"{q}:several:unknown", T(e.value) == "None", "an unknown index is left out of several", it.fi.loc())


def dropped(e, drop):
    """what was collected so far is gone, or there is none but what was called"""
    return any(drop(x) for x in e.trace) or any(T(k) == "truth(self.symbol_chain)" and v is False or T(k) == "truth(self.symbol_chain[-1].is_callpoint)" and v is True for k, v in e.facts.items())


def bval_name(t, asn):
    """the name an import binds"""
    s = T(t).strip("()")
    return re.search(r"asname or elem\(node\.names\)\.name", s) is not None or s == "elem(node.names)." + ("asname" if asn else "name")


# ------------------------------------------------------------------ references
def refs(ctx):
    q = "SymbolRef.__init__"
    it = ctx.run(q, None, lambda e: e.kind in ("assign", "raise") or e.is_call("_cached_symbol_ref_visitor"))
    for kind in ("Atom", "sequence") + ("Name", "Attribute", "Subscript", "Call", "ClassDef", "FunctionDef", "AsyncFunctionDef", "Import", "ImportFrom"):
        def f(a, s):
            if a[0] != "truth" or not T(a[1]).startswith("isinstance(symbols, "):
                return None
            names = re.findall(r"(\w+)(?=[,)])", T(a[1])[len("isinstance(symbols, "):])
            return kind in names or "AST" in names and kind not in ("Atom", "sequence")
        it = ctx.run(q, O().fn(f), lambda e: e.kind == "assign" or e.is_call("_cached_symbol_ref_visitor"))
        want = r"tuple\(\[symbols\]\)|\(symbols,?\)|tuple\(\(symbols,?\)\)" if kind == "Atom" else r"tuple\(symbols\)" if kind == "sequence" else r"(tuple\()?(self|SymbolRef)\._cached_symbol_ref_visitor\(symbols, scope=scope\)\.chain\)?"
        for e in it.ends:
            v = [x for x in e.trace if x.kind == "assign" and T(x.a) == "self.chain"]
            ctx.ob("R6-ref", f"{q}:{kind}", e.kind == "return" and bool(v) and re.fullmatch(want, T(v[-1].b)) is not None, f"a {kind} does not stand for its own chain: {T(v[-1].b) if v else e.kind}", it.fi.loc())
            sc = [x for x in e.trace if x.kind == "assign" and T(x.a) == "self.scope"]
            ctx.ob("R6-ref", f"{q}:{kind}:scope", bool(sc) and T(sc[-1].b) == "scope", "the scope of a read is forgotten", it.fi.loc())
    q = "SymbolRef.__eq__"
    none = lambda o, r, v: o.when(rf"^\(?(None is {r}|{r} is None)\)?$", v).when(rf"^{r}$", not v)
    for same in (True, False):
        for rng in ("none", "one", "same", "differ"):
            for scp in ("none", "one", "same", "differ"):
                o = O().when(r"^isinstance\(other, ", True)
                none(o, r"self\.ast_range", rng == "none")
                none(o, r"other\.ast_range", rng in ("none", "one"))
                none(o, r"self\.scope", scp == "none")
                none(o, r"other\.scope", scp in ("none", "one"))
                o.when(r"^\(?(self\.ast_range == other\.ast_range|other\.ast_range == self\.ast_range)\)?$", rng in ("none", "same"))
                o.when(r"^\(?(self\.scope is other\.scope|other\.scope is self\.scope|self\.scope == other\.scope|other\.scope == self\.scope)\)?$", scp in ("none", "same"))
                o.when(r"^\(?(self\.chain == other\.chain|other\.chain == self\.chain)\)?$", same)
                it = ctx.run(q, o)
                want = same and rng != "differ" and scp != "differ"
                every(ctx, "R6-equal", f"{q}:chain={same}:range={rng}:scope={scp}", returns(it), lambda e: oval(e, o) is want, "two reads count as the same although they are not, or the reverse", lambda e: it.fi.loc(e.node))
    it = ctx.run(q, O().when(r"^isinstance\(other, ", False))
    every(ctx, "R6-equal", q + ":other", returns(it), lambda e: T(e.value) in ("False", "NotImplemented"), "a read equals something else", lambda e: it.fi.loc())
    it = ctx.run("SymbolRef.__hash__", None)
    every(ctx, "R6-equal", "SymbolRef.__hash__", returns(it), lambda e: "self.chain" in T(e.value) and "scope" not in T(e.value) and "ast_range" not in T(e.value), "equal reads have different hashes", lambda e: it.fi.loc())
    for cls, fields in (("Atom", ATOM), ("LiveSymbolRef", ("ref", "timestamp", "is_lhs_ref", "is_killed")), ("ResolvedSymbol", ("sym", "atom", "next_atom", "liveness_timestamp", "is_lhs_ref", "is_killed"))):
        it = ctx.run(cls + ".__hash__", None)
        ctx.ob("R6-equal", cls + ".__hash__", all(set(re.findall(r"self\.(\w+)", T(e.value))) <= set(fields) for e in returns(it)), "equal reads have different hashes", it.fi.loc())
        it = ctx.run(cls + ".__init__", None, lambda e: e.kind == "assign")
        for f_ in fields:
            ctx.ob("R6-fields", f"{cls}.__init__:{f_}", any(T(e.a) == "self." + f_ and T(e.b) == f_ for e in it.allevents.values()), "a read does not keep what it is given", it.fi.loc())
    eq = ctx.run("CommonEqualityMixin.__eq__", None)
    ctx.ob("R6-equal", eq.fi.qual, any("__dict__" in T(k) or "__dict__" in T(e.value) for e in eq.ends for k in list(e.facts) + [e.value]), "reads that differ are equal", eq.fi.loc())
    q = "SymbolRef.canonical"
    it = ctx.run(q, None, lambda e: e.kind in ("collect", "call"))
    for e in returns(it):
        cs = [x for x in e.trace if x.kind == "call" and (T(x.a) in ("self.__class__", "SymbolRef", "type(self)"))]
        ok = len(cs) == 1 and callkw(cs[0], "scope") in (None, "None") and callkw(cs[0], "ast_range") in (None, "None") and len(cs[0].b) == 1 and "self.chain" in T(cs[0].b[0])
        ctx.ob("R6-canonical", q, ok, "the same name at two places has two canonical forms", it.fi.loc())
    ctx.ob("R6-canonical", q + ": marks", any(e.kind == "collect" and T(e.b).endswith(".nonreactive()") for e in it.allevents.values()) or any(".nonreactive()" in T(e.value) for e in returns(it)), "marked and unmarked names have different canonical forms", it.fi.loc())
    q = "SymbolRef.from_string"
    it = ctx.run(q, None, lambda e: e.kind == "assign")
    for e in returns(it):
        ctx.ob("R6-from-text", q, re.search(r"ast\.parse\(symbol_str, mode='eval'\)\.body", T(e.value)) is not None and "scope=scope" in T(e.value), "a text does not stand for its expression", it.fi.loc())
        ctx.ob("R6-from-text", q + ": range", any(x.kind == "assign" and T(x.a).endswith(".ast_range") and T(x.b) == "None" for x in e.trace), "a text has a place in the notebook", it.fi.loc())
    q = "SymbolRef.to_symbol"
    op = {"gen_resolved_symbols"}
    it = ctx.run(q, None, lambda e: e.is_call("gen_resolved_symbols"), opaque=op)
    for x in it.allevents.values():
        ctx.ob("R6-resolve", q + ": scope", re.fullmatch(r"\(?scope or self\.scope or flow\(\)\.global_scope\)?|scope|self\.scope|flow\(\)\.global_scope", T(x.b[0])) is not None, "a name is looked up in the wrong scope", x.loc())
        ctx.ob("R6-resolve", q, callkw(x, "yield_in_reverse") == "True" and callkw(x, "yield_all_intermediate_symbols") == "True" and callkw(x, "only_yield_final_symbol") == "False", "not the last step that is known", x.loc())
    for e in returns(it):
        ctx.ob("R6-resolve", q + ": value", re.fullmatch(r"None|elem\(self\.gen_resolved_symbols\(.*\)\)\.sym", T(e.value)) is not None, "not the value that the name refers to", it.fi.loc())
    ctx.ob("R6-resolve", q + ": first", all(i.kind in ("return", "break") for i in it.iterations) and bool(it.iterations), "not the last step that is known", it.fi.loc())
    q = "SymbolRef.gen_resolved_symbols"
    GEN = r"scope\.gen_symbols_for_attrsub_chain\(self\)"
    YR = lambda e: e.kind == "yield"
    for final, allof in ((True, False), (False, True), (False, False)):
        for mark in (True, False):
            for last in (True, False):
                o = O().when(r"^inherit_reactivity$", False).when(r"^yield_in_reverse$", False).when(r"^only_yield_final_symbol$", final).when(r"^yield_all_intermediate_symbols$", allof)
                o.when(r"\.is_reactive$", mark).when(r"\.is_(cascading_reactive|blocking)$", False).when(r"\[2\] is None\)?$|None is .*\[2\]\)?$", last).when(r"\[[01]\] is None\)?$|None is .*\[[01]\]\)?$", False)
                it = ctx.run(q, o, lambda e: YR(e) or e.kind == "iter", opaque={"gen_symbols_for_attrsub_chain"})
                con = f"{q}:last only={final}:every step={allof}:marked={mark}:last={last}"
                ctx.ob("R7-steps", con, bool(it.ends), "nothing happens", it.fi.loc())
                for e in it.ends:
                    n = sum(x.kind == "iter" for x in e.trace)
                    ys = [x for x in e.trace if YR(x)]
                    if n == 0:
                        ctx.ob("R7-steps", con + ": none", not ys, "something is found although nothing is", it.fi.loc())
                        continue
                    want = n if (allof or mark) else (1 if last or not final else 0)
                    ctx.ob("R7-steps", con, len(ys) == want, f"{len(ys)} of {n} steps are reported instead of {want}", it.fi.loc())
                    for x in ys:
                        ctx.ob("R7-steps", con + ": step", re.fullmatch(rf"ResolvedSymbol\((sym=)?elem\({GEN}\)\[0\], (atom=)?elem\({GEN}\)\[1\], (next_atom=)?elem\({GEN}\)\[2\]\)", T(x.a)) is not None,
                               f"a step is reported as {T(x.a)[:100]}", x.loc())
    o = O().when(r"^inherit_reactivity$", False).when(r"^yield_in_reverse$", True).when(r"^only_yield_final_symbol$", False).when(r"^yield_all_intermediate_symbols$", True).when(r"\.is_(reactive|cascading_reactive|blocking)$", False)
    it = ctx.run(q, o, lambda e: YR(e) or e.is_call("gen_resolved_symbols", "reverse", "reversed") or e.kind in ("collect", "loop"), opaque={"gen_symbols_for_attrsub_chain", "gen_resolved_symbols"})
    ys = [e for e in it.allevents.values() if YR(e)]
    rv = [e for e in it.allevents.values() if e.is_call("gen_resolved_symbols")]
    ok = bool(ys) and bool(rv) and all(callkw(x, "yield_in_reverse") in (None, "False") and callkw(x, "yield_all_intermediate_symbols") == "True" and callkw(x, "inherit_reactivity") == "False" and T(x.b[0]) == "scope" for x in rv)
    rev = all(sum(x.is_call("reverse", "reversed") for x in e.trace) == 1 or "[::-1]" in " ".join(T(x.a) for x in e.trace if x.kind == "loop") for e in it.ends if any(YR(x) for x in e.trace))
    ctx.ob("R7-steps", q + ": backwards", ok and rev, "going backwards is not the same steps from the end", it.fi.loc())
    q = "LiveSymbolRef.gen_resolved_symbols"
    it = ctx.run(q, None, lambda e: e.is_call("gen_resolved_symbols"), opaque={"gen_resolved_symbols"})
    every(ctx, "R7-steps", q, it.allevents.values(), lambda x: T(x.recv) == "self.ref" and (T(x.b[0]) if x.b else callkw(x, "scope")) == "scope" and (T(x.b[1]) if len(x.b) > 1 else callkw(x, "only_yield_final_symbol")) == "only_yield_final_symbol"
          and callkw(x, "yield_all_intermediate_symbols") == "yield_all_intermediate_symbols", "other steps are followed than what is asked for", lambda x: x.loc())
    q = "analysis.live_refs:get_symbols_for_references"
    for called in (True, False):
        it = ctx.run(q, O().when(r"\.is_called$", called), lambda e: e.is_call("add", "gen_resolved_symbols"), opaque={"gen_resolved_symbols", "is_called"})
        its = [i for i in it.iterations if "gen_resolved_symbols" in T(i.iter)]
        for i in its:
            tg = [(T(x.recv), T(x.b[0])) for x in i.events if x.is_call("add")]
            ctx.ob("R7-called", f"{q}:called={called}", len(tg) == 1 and tg[0][1].endswith(".sym"), "a value that is named is left out", it.fi.loc())
        for e in returns(it):
            if e.value[0] == "tuple" and len(e.value[1]) == 2:
                hit = [x for x in e.trace if x.is_call("add")]
                ctx.ob("R7-called", f"{q}:called={called}:result", all(x.recv == e.value[1][1 if called else 0] for x in hit), "values that are called and values that are not are confused", it.fi.loc())
        ctx.ob("R7-called", f"{q}:called={called}:loop", bool(its), "names are not looked up", it.fi.loc())


# ------------------------------------------------------------------ what is used of a value
def usage(ctx):
    RS = "ResolvedSymbol."
    LAST = r"self\.next_atom is None|None is self\.next_atom"
    CALL = r"^self\.next_atom\.is_callpoint$"
    op = {"is_live", "is_mutating", "is_reactive"}
    base = lambda: live(O(), True).when(LAST, False).when(r"^self\.next_atom$", True).when(CALL, False)

    def isobj(*kinds):
        def f(a, s):
            if a[0] != "truth":
                return None
            m = re.match(r"isinstance\(self\.sym\.obj, (.*)\)$", T(a[1]))
            return None if not m else bool(set(kinds) & set(re.findall(r"\w+", m.group(1))))
        return f
    VAL = lambda *k: (lambda a, s: None if a[0] != "truth" or not T(a[1]).startswith("isinstance(self.next_atom.value, ") else bool(set(k) & set(re.findall(r"\w+", T(a[1]).split(", ", 1)[1]))))
    LEN = r"self\.next_atom\.value"
    for obj in ("list", "tuple"):
        for pos, rel, want in (("int", "lt", False), ("int", "eq", True), ("int", "gt", True), ("str", "lt", False)):
            o = base().fn(isobj(obj)).fn(VAL(pos)).order(LEN, r"len\(self\.sym\.obj\)", rel).when(r"hasattr\(", True)
            it = ctx.run(RS + "is_unsafe", o, opaque=op)
            every(ctx, "R8-held-back", f"{RS}is_unsafe:{obj}:{pos} {rel} length", returns(it), lambda e: oval(e, o) is want, "an item past the end is read" if want else "an item that exists is not read", lambda e: it.fi.loc(e.node))
    for inside in (True, False):
        o = base().fn(isobj("dict")).fn(VAL("str")).when(r"in self\.sym\.obj\)?$", inside).when(r"hasattr\(", True).when(r"^self\.next_atom\.is_subscript$", True)
        it = ctx.run(RS + "is_unsafe", o, opaque=op)
        every(ctx, "R8-held-back", f"{RS}is_unsafe:dict:present={inside}", returns(it), lambda e: oval(e, o) is (not inside), "an item that exists is not read" if inside else "an item that does not exist is read", lambda e: it.fi.loc(e.node))
    for item in (True, False):
        for cls in (True, False):
            for own in (True, False):
                for called in (True, False):
                    for val in ("str", "int"):
                        if val == "int" and not item:
                            continue
                        o = base().fn(isobj("object")).fn(VAL(val)).when(r"^hasattr\((self\.sym\.obj\.__class__|type\(self\.sym\.obj\)), self\.next_atom\.value\)", cls).when(
                            r"^hasattr\(self\.sym\.obj, self\.next_atom\.value\)", own).when(r"^self\.next_atom\.is_subscript$", item).when(r"^self\.atom\.is_callpoint$", called)
                        it = ctx.run(RS + "is_unsafe", o, opaque=op)
                        want = not item and not cls and not own and not called
                        every(ctx, "R8-held-back", f"{RS}is_unsafe:object:item={item}:class has it={cls}:object has it={own}:called={called}:{val}", returns(it), lambda e: oval(e, o) is want,
                              "a member that does not exist is read" if want else "a read that cannot be told to fail is left out", lambda e: it.fi.loc(e.node))
    q = RS + "is_mutating"
    RX = r"resolve_external_call\(None, self\.sym\.obj, None, (cast\(str, )?self\.next_atom\.value\)?, call_node=None, use_standard_default=False\)"
    for last, call, ext in ((True, False, False), (False, False, True), (False, True, True), (False, True, False)):
        o = live(O(), True).when(LAST, last).when(r"^self\.next_atom$", not last).when(CALL, call).when(rf"^\(?({RX} is None|None is {RX})\)?$", not ext)
        it = ctx.run(q, o, opaque={"is_live", "resolve_external_call"})
        every(ctx, "R8-mutating", f"{q}:last={last}:called={call}:changes={ext}", returns(it), lambda e: oval(e, o) is (not last and call and ext), "whether a method changes its object is misjudged", lambda e: it.fi.loc(e.node))
    it = ctx.run(RS + "is_called", None)
    every(ctx, "R8-called", it.fi.qual, returns(it), lambda e: T(e.value) == "self.atom.is_callpoint", "whether something is called is misjudged", lambda e: it.fi.loc())
    it = ctx.run(RS + "is_anonymous", None, opaque={"is_anonymous"})
    every(ctx, "R8-called", it.fi.qual, returns(it), lambda e: T(e.value) == "self.sym.is_anonymous", "whether something has a name is misjudged", lambda e: it.fi.loc())


# ------------------------------------------------------------------ what a cell reads
R_ = r"elem\(.*gen_resolved_symbols\(.*\)\)"


def plain(o=None):
    """one read that resolves to a live value"""
    return (o or O()).when(r"isinstance\(.*func_def_stmt", True).when(r" in (new_set|seen)\)?$", False).when(r"^\(?(elem\(.*gen_resolved.*\) is None|None is elem\(.*gen_resolved.*\))\)?$", False).when(
        R_ + r"\.is_(dead|unsafe|called)$", False).when(R_ + r"\.is_live$", True).when(R_ + r"\.sym\.is_anonymous$", False).when(r"isinstance\(.*\.value, str\)", True).when(r"\.ref\.chain$", True).when(
        r"hasattr\(builtins|_RESOLVER_EXCEPTIONS\)?$| in init_killed\)?$| in setcomp", False).when(r"^\(?len\(.*chain\) < 1", False)


OPQ = {"gen_resolved_symbols", "compute_live_dead_symbol_refs", "_compute_call_chain_live_symbols_and_cells", "is_live", "is_dead", "is_unsafe", "is_called", "is_last", "is_deep", "timestamp", "is_reactive",
       "is_cascading_reactive", "is_anonymous", "update_usage_info", "get_definition_args", "used_symbols", "current_cell", "from_counter", "from_id", "position", "directional_parents", "iter_slicing_contexts",
       "shallow_timestamp", "call_scope", "func_def_stmt"}


def reads(ctx):
    q = REF
    fi = ctx.F(q)
    USE = lambda e: e.is_call("update_usage_info")
    CUR = r"cells\(\)\.current_cell\(\)"
    CELL = r"cells\(\)\.from_counter\(cell_ctr\)"
    # uses are recorded
    for flag in (True, False):
        for killed in (True, False):
            for used in (True, False):
                for cur in (True, False):
                    o = plain(O().when(r"^update_liveness_time_versions$", flag).when(r"\.is_killed$", killed).when(r"shallow_timestamp\.cell_num", True))
                    o.when(rf"^\(?({CELL} is {CUR}|{CUR} is {CELL})\)?$", cur).when(rf"{CELL} is None|None is {CELL}", False)
                    o.enum(FLOW_ORDER, "ANY_ORDER")
                    o.when(r"\.sym in .*used_symbols", used)
                    o.fn(lambda a, s: False if a[0] == "cmp" and a[1] == "in" and T(a[2]).endswith(".sym") and "used_symbols" not in T(a[3]) else None)
                    it = ctx.run(q, o, lambda e: USE(e) or e.kind == "iter", opaque=OPQ, onlyraise=set())
                    con = f"{it.fi.qual}:asked={flag}:bound before={killed}:used already={used}:running now={cur}"
                    want = flag and not killed and (cur or not used)
                    n = 0
                    for i in it.iterations:
                        if i.kind != "next" or "gen_resolved" in T(i.iter) or not any(x.kind == "iter" and "gen_resolved" in T(x.a) for x in i.events):
                            continue
                        n += 1
                        us = [x for x in i.events if USE(x)]
                        ctx.ob("R9-uses", con, len(us) == want, "a use that is found in the source is not recorded" if want else "a use is recorded that is not one", fi.loc())
                        for x in us:
                            r = T(x.recv)
                            ok = re.fullmatch(R_, r) and callkw(x, "used_time") == r + ".liveness_timestamp" and callkw(x, "exclude_ns") in (f"not {r}.is_last", f"(not {r}.is_last)") and callkw(x, "is_static") == "True"
                            ctx.ob("R9-uses", con + ":what", bool(ok), "a use is recorded for another time, or for more than what is used", x.loc())
                    ctx.ob("R9-uses", con + ":loop", n > 0, "reads are not looked up", fi.loc())
    # what cannot be read safely is left out, unless the cells after this one say that it will be there
    PAR = r"cells\(\)\.from_id\(elem\(.*directional_parents.*\)\)\.position"
    for known in (True, False):
        for ordered in (True, False):
            for rel in ("lt", "eq", "gt"):          # position of this cell vs. of the cell that ran
                for par in ("none", "lt", "eq", "gt"):      # least position of its parents vs. the cell that ran
                    o = plain(O().when(r"^update_liveness_time_versions$", False).when(r"\.is_killed$", False).when(r"shallow_timestamp\.cell_num", True).when(R_ + r"\.is_unsafe$", True))
                    o.enum(FLOW_ORDER, "IN_ORDER" if ordered else "ANY_ORDER").when(rf"{CELL} is None|None is {CELL}", not known).when(rf"^{CELL}$", known).when(rf"{CELL} is {CUR}|{CUR} is {CELL}", False)
                    o.order(rf"{CUR}\.position", rf"{CELL}\.position", {"lt": "gt", "eq": "eq", "gt": "lt"}[rel])
                    low = rf"min\(.*{PAR}.*\)|{PAR}"

                    def f(a, s, par=par, rel=rel):
                        if a[0] != "cmp" or a[1] not in ("<", "<=", ">", ">=", "=="):
                            return None
                        l, r = T(a[2]), T(a[3])
                        for x, y, sw in ((l, r, False), (r, l, True)):
                            if re.fullmatch(CUR + r"\.position", y) and "min(" in x and "from_id" in x:
                                v = {"lt": -1, "eq": 0, "gt": 1}[par if par != "none" else rel]
                                if rel == "lt":
                                    v = min(v, -1)
                                elif rel == "eq":
                                    v = min(v, 0)
                                v = -v if sw else v
                                return {"<": v < 0, "<=": v <= 0, ">": v > 0, ">=": v >= 0, "==": v == 0}[a[1]]
                        return None
                    o.fn(f)
                    ADD = lambda e: e.is_call("add") and e.b and e.b[0][0] == "elem"
                    it = ctx.run(q, o, lambda e: ADD(e) or e.kind in ("iter", "except"), opaque=OPQ)
                    for e in it.ends:
                        if e.kind != "return":
                            continue
                        if any(x.kind == "except" for x in e.trace) is known:
                            continue
                        if not any(x.kind == "iter" and "gen_resolved" in T(x.a) for x in e.trace):
                            continue
                        looked = any(x.kind == "iter" and "directional_parents" in T(x.a) for x in e.trace)
                        if par != "none" and known and ordered and rel == "gt" and not looked:
                            continue
                        if par == "none" and looked:
                            continue
                        want = known and ordered and (rel != "gt" or (par == "gt" and looked) or (par == "none" and rel == "gt"))
                        got = any(ADD(x) for x in e.trace)
                        ctx.ob("R9-held-back", f"{fi.qual}:known={known}:in order={ordered}:this cell {rel} the one that ran:parents {par}", got == want,
                               "a read is held back although the cell that ran can provide it" if want else "a read that could fail is not held back", fi.loc())
    it = ctx.run(q, plain(O().enum(FLOW_ORDER, "IN_ORDER").when(rf"{CELL} is None|None is {CELL}", False).order(rf"{CUR}\.position", rf"{CELL}\.position", "lt")), lambda e: e.is_call("min", "iter_slicing_contexts") or e.kind == "iter", opaque=OPQ, noraise={"from_counter"})
    mins = [e for e in it.allevents.values() if e.is_call("min")]
    ctx.ob("R9-held-back", fi.qual + ": first parent", bool(mins) and any(re.search(PAR, T(x.b[0]) + "," + ",".join(T(y) for y in x.b[1:])) for x in mins), "the first cell that this one depends on is not looked for", fi.loc())
    ctx.ob("R9-held-back", fi.qual + ": both kinds", any(e.is_call("iter_slicing_contexts") for e in it.allevents.values()), "only one kind of dependency is looked at", fi.loc())
    # called functions: all of them
    for e in ctx.run(q, plain(O().enum(FLOW_ORDER, "ANY_ORDER")), lambda e: calls(e, "_compute_call_chain_live_symbols_and_cells"), opaque=OPQ).allevents.values():
        names = ("live_with_stmt_ctr", "cell_ctr", "update_liveness_time_versions")
        d = {n: v for n, v in zip(names, e.b)}
        d.update(dict(e.c or ()))
        ctx.ob("R9-calls", fi.qual + ": asked", T(d.get("cell_ctr", ("const", "x", "x"))) == "cell_ctr" and T(d.get("update_liveness_time_versions", ("const", "x", "x"))) == "update_liveness_time_versions",
               "called functions are followed for another cell", e.loc())
    it = ctx.run(q, plain(O().enum(FLOW_ORDER, "ANY_ORDER").when(R_ + r"\.is_called$", True).when(r"\.is_killed$", False)), lambda e: e.is_call("add", "gen_resolved_symbols"), opaque=OPQ)
    pairs = [e for e in it.allevents.values() if e.is_call("add") and e.b[0][0] == "tuple"]
    every(ctx, "R9-calls", fi.qual + ": when", pairs, lambda e: len(e.b[0][1]) == 2 and re.fullmatch(R_, T(e.b[0][1][0])) and re.fullmatch(r"elem\(symbol_refs\)\.timestamp", T(e.b[0][1][1])), "it is not known when a function is called", lambda e: e.loc())
    gens = [e for e in it.allevents.values() if e.is_call("gen_resolved_symbols")]
    every(ctx, "R9-steps", fi.qual, gens, lambda e: T(e.recv) == "elem(symbol_refs)" and T(e.b[0]) == "scope" and callkw(e, "yield_all_intermediate_symbols") == "True" and callkw(e, "cell_ctr") == "cell_ctr"
          and (callkw(e, "only_yield_final_symbol") or (T(e.b[1]) if len(e.b) > 1 else "")) == "False", "not every step of a read counts", lambda e: e.loc())
    # names that are known anyway
    for q2, con2 in ((REF, "cell"), (CHAIN, "function")):
        for s_, b, x, k in ((True, True, False, False), (True, False, True, False), (True, False, False, False), (False, True, True, False)) + (((True, False, False, True),) if q2 == CHAIN else ()):
            o = O().when(r"isinstance\(.*\.value, str\)", s_).when(r"hasattr\(builtins", b).when(r"_RESOLVER_EXCEPTIONS\)?$", x).when(r" in init_killed\)?$| in setcomp| in \{.*get_definition_args", k).when(r"\.is_killed$", False)
            o.enum(FLOW_ORDER, "ANY_ORDER").when(r"^update_liveness_time_versions$", False)
            plain(o)
            it = ctx.run(q2, o, lambda e: e.is_call("add") or e.kind in ("iter", "loop"), opaque=OPQ)
            n = 0
            for i in it.iterations:
                if i.kind != "next" or "gen_resolved" in T(i.iter) or any(y.kind == "iter" and "gen_resolved" in T(y.a) for y in i.events) or not any(y.kind == "loop" and "gen_resolved" in T(y.a) for y in i.events):
                    continue
                n += 1
                rep = [y for y in i.events if y.is_call("add") and y.b and y.b[0][0] == "elem" and "gen_resolved" not in T(y.b[0])]
                want = not (s_ and (b or x or k))
                ctx.ob("R9-unknown-names", f"{con2}:name={s_}:builtin={b}:exempt={x}:parameter={k}", bool(rep) == want, "a name that is known is reported as unknown" if not want else "an unknown name is not reported", ctx.F(q2).loc())
            ctx.ob("R9-unknown-names", f"{con2}:loop:{s_}{b}{x}{k}", n > 0, "unknown names are not handled", ctx.F(q2).loc())
    q = "analysis.live_refs:static_resolve_rvals"
    it = ctx.run(q, None, lambda e: calls(e, "get_live_symbols_and_cells_for_references"), opaque=OPQ | {"get_live_symbols_and_cells_for_references"})
    ev = [e for e in it.allevents.values()]
    every(ctx, "R9-rvals", q, ev, lambda e: re.search(r"compute_live_dead_symbol_refs\(code\b.*\)\[0\]", T(e.b[0])) and re.fullmatch(r"\(?scope or flow\(\)\.global_scope\)?|scope|flow\(\)\.global_scope", T(e.b[1])) and (callkw(e, "cell_ctr") or T(e.b[2])) == "cell_ctr",
          "the values of an expression are looked up in another scope", lambda e: e.loc())
    every(ctx, "R9-rvals", q + ": value", returns(it), lambda e: T(e.value).endswith("[0]") and "get_live_symbols_and_cells_for_references(" in T(e.value), "not the values that are read", lambda e: it.fi.loc())


def functions(ctx):
    q = CHAIN
    fi = ctx.F(q)
    USE = lambda e: e.is_call("update_usage_info")
    KINDS = ("FunctionDef", "AsyncFunctionDef", "Lambda")
    WRK = r"(list\()?live_with_stmt_ctr\)?"
    base = lambda: plain(O().when(r"\.is_killed$", False).when(r"shallow_timestamp\.cell_num", True))
    # each function once, and only functions
    for seen in (True, False):
        for kind in KINDS + ("ClassDef",):
            o = O().when(r" in (new_set|seen)\)?$", seen)
            o.fn(lambda a, s: None if a[0] != "truth" or not re.match(r"isinstance\(.*func_def_stmt, ", T(a[1])) else kind in re.findall(r"ast\.(\w+)", T(a[1]).rsplit("func_def_stmt", 1)[1]))
            plain(o).when(r"^update_liveness_time_versions$", False)
            it = ctx.run(q, o, lambda e: calls(e, "compute_live_dead_symbol_refs") or e.is_call("add", "pop"), opaque=OPQ)
            ev = [e for e in it.allevents.values() if calls(e, "compute_live_dead_symbol_refs")]
            want = not seen and kind != "ClassDef"
            ctx.ob("R10-functions", f"{fi.qual}:{kind}:seen={seen}", bool(ev) == want, "a function that is called is not followed" if want else "something is followed twice, or is no function", fi.loc())
            if want:
                for e in it.ends:
                    k = [n for n, x in enumerate(e.trace) if calls(x, "compute_live_dead_symbol_refs")]
                    if k:
                        ctx.ob("R10-once", f"{fi.qual}:{kind}", any(x.is_call("add") and x.b and ("pop()" in T(x.b[0]) or x.b[0][0] == "tuple") for x in e.trace), "a recursive function is followed forever", fi.loc())
    # how its body is analysed
    for pos in (True, False):
        it = ctx.run(q, base().when(r"^\(?(0 < cell_ctr|cell_ctr > 0)\)?$", pos).when(r"^update_liveness_time_versions$", False), lambda e: calls(e, "compute_live_dead_symbol_refs") or e.is_call("gen_resolved_symbols"), opaque=OPQ)
        cs = [e for e in it.allevents.values() if calls(e, "compute_live_dead_symbol_refs")]
        every(ctx, "R10-body", f"{fi.qual}:in a cell={pos}", cs, lambda e: callkw(e, "include_killed_live") in ("(0 < cell_ctr)", "(cell_ctr > 0)", "0 < cell_ctr", "cell_ctr > 0", str(pos)), "names that are bound before are left out", lambda e: e.loc())
        gens = [e for e in it.allevents.values() if e.is_call("gen_resolved_symbols")]
        every(ctx, "R10-scope", fi.qual, gens, lambda e: re.search(r"\.sym\.call_scope$", T(e.b[0])) and callkw(e, "yield_all_intermediate_symbols") == "True" and (callkw(e, "only_yield_final_symbol") or "False") == "False" and "compute_live_dead_symbol_refs" in T(e.recv),
              "names in a function are not looked up where the function looks them up", lambda e: e.loc())
    # uses
    for flag in (True, False):
        for killed in (True, False):
            o = O().when(r"^update_liveness_time_versions$", flag).when(r"\.is_killed$", killed).when(r"shallow_timestamp\.cell_num", True)
            it = ctx.run(q, plain(o), lambda e: USE(e) or e.kind == "iter", opaque=OPQ)
            want = flag and not killed
            n = 0
            for i in it.iterations:
                if i.kind != "next" or "gen_resolved" in T(i.iter) or "compute_live_dead" not in T(i.iter) or not any(x.kind == "iter" and "gen_resolved" in T(x.a) for x in i.events):
                    continue
                n += 1
                us = [x for x in i.events if USE(x)]
                ctx.ob("R10-uses", f"{fi.qual}:asked={flag}:bound before={killed}", len(us) == want, "a use in a function is not recorded" if want else "a use is recorded that is not one", fi.loc())
                for x in us:
                    r = T(x.recv)
                    ok = re.fullmatch(R_, r) and re.fullmatch(r"Timestamp\((cell_num=)?cell_ctr, (stmt_num=)?.*\[1\]\)", callkw(x, "used_time") or "") and callkw(x, "exclude_ns") in (f"not {r}.is_last", f"(not {r}.is_last)") and callkw(x, "is_static") == "True"
                    ctx.ob("R10-uses", f"{fi.qual}:what", bool(ok), "a use is recorded for another time, or for more than what is used", x.loc())
            ctx.ob("R10-uses", f"{fi.qual}:loop:{flag}{killed}", n > 0, "what a function reads is not looked up", fi.loc())
    # functions called in functions, values without a name
    for called in (True, False):
        for anon in (True, False):
            o = O().when(R_ + r"\.is_called$", called).when(R_ + r"\.sym\.is_anonymous$", anon).when(R_ + r"\.is_anonymous$", anon).when(r"\.is_killed$", False).when(r"^update_liveness_time_versions$", False).when(r"shallow_timestamp\.cell_num", True)
            it = ctx.run(q, plain(o), lambda e: e.is_call("add", "append", "extend", "insert"), opaque=OPQ)
            its = [i for i in it.iterations if "gen_resolved" in T(i.iter) and i.kind == "next"]
            ctx.ob("R10-nested", f"{fi.qual}:loop", bool(its), "what a function reads is not looked up", fi.loc())
            for i in its:
                nest = [x for x in i.events if x.is_call("append", "add") and x.b and x.b[0][0] == "tuple" and re.fullmatch(R_, T(x.b[0][1][0]))]
                ctx.ob("R10-nested", f"{fi.qual}:called={called}", bool(nest) == called and all(T(x.b[0][1][1]).endswith("[1]") for x in nest), "functions called by functions are not followed, or at another time", fi.loc())
                keep = [x for x in i.events if x.is_call("add") and x.b and x.b[0][0] == "elem"]
                ctx.ob("R10-named", f"{fi.qual}:no name={anon}", bool(keep) == (not anon), "a value without a name counts as read" if anon else "a value that a function reads is left out", fi.loc())
    for lv in (True, False):
        it = ctx.run(q, O().fn(lambda a, s: lv if a[0] == "truth" and re.search(r"^elem\((new_set|seen)\)\[0\]\.is_live$", T(a[1])) else (not lv if a[0] == "truth" and re.search(r"^elem\((new_set|seen)\)\[0\]\.is_dead$", T(a[1])) else None)),
                     lambda e: e.kind == "collect", opaque=OPQ)
        col = [e for e in it.allevents.values() if e.kind == "collect" and T(e.b).endswith(".timestamp.cell_num")]
        ctx.ob("R10-cells", f"{fi.qual}:live={lv}", bool(col) == lv, "the cell that defines a called function is left out" if lv else "a cell counts as read although it is not", fi.loc())
    # parameters
    q = "Symbol.get_definition_args"
    it = ctx.run(q, O().when(r"isinstance\(self\.func_def_stmt", True).when(r"\.(vararg|kwarg) is None|None is .*\.(vararg|kwarg)", False).when(r"\.(vararg|kwarg|posonlyargs|kwonlyargs|args)$", True), lambda e: True)
    txt = [" ".join([repr(x) for x in e.trace] + [T(e.value)]) for e in returns(it)]
    for a in ("posonlyargs", "args.args", "kwonlyargs", "vararg", "kwarg"):
        ctx.ob("R11-parameters", f"{q}:{a}", bool(txt) and all(re.search(r"(%s\b|'%s')" % (re.escape(a), re.escape(a)), t) for t in txt), "a kind of parameter counts as one of the notebook's names", it.fi.loc())
    q = "Symbol.create_symbols_for_call_args"
    UP = lambda e: e.is_call("upsert_symbol_for_name")
    it = ctx.run(q, O().when(r" in (new_set|seen_def_args)\)?$", False), lambda e: UP(e) or e.kind == "iter", opaque={"_match_call_args_with_definition_args", "get_definition_args", "upsert_symbol_for_name", "call_scope"})
    for rx in ("_match_call_args_with_definition_args", "get_definition_args"):
        its = [i for i in it.iterations if rx in T(i.iter) and i.kind == "next"]
        every(ctx, "R11-parameters", f"{q}:{rx}", its, lambda i: any(UP(x) and "call_scope" in T(x.recv) and T(x.b[0] if x.b else ("const", "s", "")).endswith(".arg") for x in i.events), "a parameter is not bound in the function's own scope", lambda i: it.fi.loc())
    it = ctx.run(q, O().when(r" in (new_set|seen_def_args)\)?$", True), lambda e: UP(e) or e.kind == "iter", opaque={"_match_call_args_with_definition_args", "get_definition_args", "upsert_symbol_for_name", "call_scope"})
    its = [i for i in it.iterations if "get_definition_args" in T(i.iter) and "_match" not in T(i.iter) and i.kind == "next"]
    every(ctx, "R11-parameters", f"{q}:matched", its, lambda i: not any(UP(x) for x in i.events), "what was passed for a parameter is forgotten", lambda i: it.fi.loc())


def results(ctx):
    """what is found is what is reported"""
    M = r"compute_live_dead_symbol_refs\(|^symbol_refs$"
    for q, name in ((REF, "cell"), (CHAIN, "function")):
        fi = ctx.F(q)
        own = lambda x: x.is_call("add") and bool(x.b) and x.b[0][0] == "elem" and "gen_resolved" in T(x.b[0])[-900:] and re.fullmatch(R_, T(x.b[0])) is not None
        unk = lambda x: x.is_call("add") and bool(x.b) and x.b[0][0] == "elem" and "gen_resolved" not in T(x.b[0])
        pair = lambda x: x.is_call("add", "append") and bool(x.b) and x.b[0][0] == "tuple" and len(x.b[0][1]) == 2 and re.fullmatch(R_, T(x.b[0][1][0])) is not None
        for killed in (True, False):
            for same in (True, False):
                for lv in (True, False):
                    for unsafe in (True, False):
                        for called in (True, False):
                            if called and (unsafe or not lv):
                                continue
                            o = O().when(r"\.is_killed$", killed).when(R_ + r"\.is_live$", lv).when(R_ + r"\.is_unsafe$", unsafe).when(R_ + r"\.is_called$", called).when(r"^update_liveness_time_versions$", False)
                            o.when(r"shallow_timestamp\.cell_num == cell_ctr|cell_ctr == .*shallow_timestamp\.cell_num", same).enum(FLOW_ORDER, "ANY_ORDER")
                            o.when(r"hasattr\(builtins|_RESOLVER_EXCEPTIONS\)?$| in init_killed\)?$| in setcomp| in \{.*get_definition_args", False)
                            it = ctx.run(q, plain(o), lambda x: x.is_call("add", "append") or x.kind in ("iter", "loop"), opaque=OPQ, onlyraise=set())
                            con = f"{name}:bound before={killed}:by this cell={same}:live={lv}:could fail={unsafe}:called={called}"
                            steps = [i for i in it.iterations if "gen_resolved" in T(i.iter) and i.kind in ("next", "break", "return")]
                            ctx.ob("R9-reported", con + ": steps", bool(steps), "nothing is looked up", fi.loc())
                            count = not killed or same
                            for i in steps:
                                ctx.ob("R9-reported", con, any(own(x) for x in i.events) == (count and lv and not unsafe), "a value that is read is left out, or one that is not read counts", fi.loc())
                                ctx.ob("R9-calls", con, any(pair(x) for x in i.events) == (count and called), "a function that is called is not followed, or one that is not called is", fi.loc())
                                ctx.ob("R9-steps", con, i.kind == "next", "the walk of a read ends early", fi.loc())
                            for i in it.iterations:
                                if "gen_resolved" in T(i.iter) or not re.search(M, T(i.iter)) or i.kind not in ("next", "break", "return") or not any(x.kind == "loop" and "gen_resolved" in T(x.a) for x in i.events):
                                    continue
                                found = any(x.kind == "iter" and "gen_resolved" in T(x.a) for x in i.events)
                                ctx.ob("R9-unknown-names", con + f": found={found}", any(unk(x) for x in i.events) == (not killed and not found), "a name that is found is reported as unknown, or one that is not found is not", fi.loc())
        it = ctx.run(q, plain(O().enum(FLOW_ORDER, "ANY_ORDER").when(R_ + r"\.is_called$", True).when(r"\.is_killed$", False).when(r"^update_liveness_time_versions$", False)),
                     lambda x: x.is_call("add", "append", "update", "_compute_call_chain_live_symbols_and_cells") or x.kind in ("aug", "aug_assign"), opaque=OPQ, onlyraise=set())
        n = 0
        for e in it.ends:
            if e.kind != "return":
                continue
            n += 1
            v = e.value[1] if e.value[0] == "tuple" else ()
            ctx.ob("R9-result", name, len(v) == 3, "what is read, the cells it comes from and what is unknown are not all reported", fi.loc())
            if len(v) != 3:
                continue
            ctx.ob("R9-result", name + ": read", all(x.recv == v[0] or v[0][0] != "obj" and x.recv in v[0] for x in e.trace if own(x)), "what is read is reported as something else", fi.loc())
            ctx.ob("R9-result", name + ": unknown", all(x.recv == v[2] for x in e.trace if unk(x)), "an unknown name is reported as something else", fi.loc())
            if q == REF:
                chain = [x for x in e.trace if x.is_call("_compute_call_chain_live_symbols_and_cells")]
                ctx.ob("R9-result", name + ": followed", len(chain) == 1, "functions that are called are not followed", fi.loc())
                CH = "_compute_call_chain_live_symbols_and_cells("
                merged = lambda t, k: CH in T(t) and T(t).endswith(f"[{k}]")
                into = lambda c, k: any((x.kind in ("aug", "aug_assign") and x.a == c and merged(x.c, k)) or x.is_call("update") and x.recv == c and x.b and merged(x.b[0], k) for x in e.trace) or CH in T(c) and f")[{k}]" in T(c)
                ctx.ob("R9-result", name + ": functions", into(v[0], 0) and merged(v[1], 1) and into(v[2], 2), "what a called function reads is left out", fi.loc())
                for x in chain:
                    d = dict(zip(("live_with_stmt_ctr", "cell_ctr", "update_liveness_time_versions"), x.b))
                    d.update(dict(x.c or ()))
                    ctx.ob("R9-result", name + ": called", all(y.recv == d.get("live_with_stmt_ctr") for y in e.trace if pair(y)) and d.get("live_with_stmt_ctr") is not None, "other functions are followed than the ones that are called", fi.loc())
        ctx.ob("R9-result", name + ": paths", n > 0, "nothing is reported", fi.loc())
    # in functions: names of parameters are bound, marks of the call apply to what it reads
    fi = ctx.F(CHAIN)
    it = ctx.run(CHAIN, plain(O().when(r"\.is_killed$", False).when(r"^update_liveness_time_versions$", False)), lambda x: calls(x, "compute_live_dead_symbol_refs"), opaque=OPQ)
    every(ctx, "R10-body", fi.qual + ": parameters", it.allevents.values(), lambda x: "get_definition_args" in (callkw(x, "init_killed") or (T(x.b[2]) if len(x.b) > 2 else "")), "the parameters of a function count as names of the notebook", lambda x: x.loc())
    for mark in ("is_reactive", "is_cascading_reactive"):
        for own_ in (True, False):
            for by in (True, False):
                tab = {rf"gen_resolved_symbols\(.*\)\)(\.atom)?\.{mark}$": own_, rf"pop\(\)\[0\](\.atom)?\.{mark}$": by}
                o = O().when(r"\.is_killed$", False).when(r"^update_liveness_time_versions$", False)
                for r_, v_ in tab.items():
                    o.when(r_, v_)
                it = ctx.run(CHAIN, plain(o), lambda x: x.kind == "assign" and T(x.a).endswith("." + mark), opaque=OPQ)
                its = [i for i in it.iterations if "gen_resolved" in T(i.iter) and i.kind == "next"]
                for i in its:
                    vs = [x for x in i.events]
                    got = bval(vs[-1].b, tab) if vs else own_
                    ctx.ob("R10-marks", f"{mark}:of the name={own_}:of the call={by}", got is (own_ or by), "what a marked call reads is not marked, or something is that should not be", fi.loc())
                ctx.ob("R10-marks", f"{mark}:loop", bool(its), "what a function reads is not looked up", fi.loc())
    # the last step only, when that is what is asked for
    it = ctx.run("analysis.live_refs:get_symbols_for_references", None, lambda x: x.is_call("gen_resolved_symbols"), opaque={"gen_resolved_symbols", "is_called"})
    every(ctx, "R7-called", it.fi.qual + ": last", it.allevents.values(), lambda x: (callkw(x, "only_yield_final_symbol") or (T(x.b[1]) if len(x.b) > 1 else "")) == "True" and T(x.b[0]) == "scope", "other steps than the last one count", lambda x: x.loc())
    every(ctx, "R7-called", it.fi.qual + ": both", returns(it), lambda e: e.value[0] == "tuple" and len(e.value[1]) == 2 and e.value[1][0] != e.value[1][1], "values that are called and values that are not are confused", lambda e: it.fi.loc())
    # names that the expression itself binds
    for pos in (True, False):
        it = ctx.run("analysis.live_refs:static_resolve_rvals", O().when(r"^\(?(0 < cell_ctr|cell_ctr > 0)\)?$", pos), lambda x: calls(x, "compute_live_dead_symbol_refs") or calls(x, "get_live_symbols_and_cells_for_references"),
                     opaque=OPQ | {"get_live_symbols_and_cells_for_references"})
        every(ctx, "R9-rvals", f"{it.fi.qual}: in a cell={pos}", [x for x in it.allevents.values() if calls(x, "compute_live_dead_symbol_refs")],
              lambda x: (callkw(x, "include_killed_live") or (T(x.b[3]) if len(x.b) > 3 else "False")) in ("(0 < cell_ctr)", "(cell_ctr > 0)", "0 < cell_ctr", "cell_ctr > 0", str(pos)), "names that the expression binds are misjudged", lambda x: x.loc())
    for given in (True, False):
        it = ctx.run("analysis.live_refs:static_resolve_rvals", O().when(r"^scope$", given).when(r"^\(?(scope is None|None is scope)\)?$", not given), lambda x: calls(x, "get_live_symbols_and_cells_for_references"), opaque=OPQ | {"get_live_symbols_and_cells_for_references"})
        every(ctx, "R9-rvals", f"{it.fi.qual}: scope given={given}", it.allevents.values(), lambda x: T(x.b[1]) in ("(scope or flow().global_scope)", "scope or flow().global_scope", "scope" if given else "flow().global_scope"),
              "names are looked up in the wrong scope", lambda x: x.loc())
    # what a mutating method call may do
    RS = "ResolvedSymbol."
    op = {"is_live", "is_mutating", "is_reactive"}
    for mut in (True, False):
        for mark in (True, False):
            for auto in (True, False):
                o = live(O(), True).when(r"self\.next_atom is None|None is self\.next_atom", False).when(r"^self\.next_atom$", True).when(r"^self\.next_atom\.is_callpoint$", True).when(r"^self\.is_mutating$", mut).when(r"^self\.is_reactive$", mark)
                o.enum(r"flow\(\)\.(mut_settings\.)?exec_mode", "REACTIVE" if auto else "LAZY")
                it = ctx.run(RS + "is_unsafe", o, opaque=op)
                every(ctx, "R8-held-back", f"{RS}is_unsafe:call:changes={mut}:marked={mark}:automatic={auto}", returns(it), lambda e: oval(e, o) is (mut and (mark or auto)), "a call that changes its object is run over and over, or another one never", lambda e: it.fi.loc(e.node))
    o = live(O(), True).when(r"self\.next_atom is None|None is self\.next_atom", True).when(r"^self\.next_atom$", False)
    it = ctx.run(RS + "is_unsafe", o, opaque=op)
    every(ctx, "R8-held-back", RS + "is_unsafe:last", returns(it), lambda e: oval(e, o) is False, "a plain read is held back", lambda e: it.fi.loc(e.node))


def check(ctx):
    lookup(ctx)
    walk(ctx)
    chains(ctx)
    refs(ctx)
    usage(ctx)
    reads(ctx)
    functions(ctx)
    results(ctx)
