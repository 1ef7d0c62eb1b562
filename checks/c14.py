from .common import *

TITLE = "Names, elements and objects"
PROP = dict(
    title="Tracked names and elements always match the objects they refer to",
    statement="Each tracked name, attribute or element is registered under the object it currently refers to and in the container it currently belongs to: "
              "rebinding moves it, list insertions and removals shift exactly the elements after the position, and a deleted or cleared name or element stops being tracked. "
              "Garbage collection removes only entries that were deleted, temporary, or that belong to objects nothing refers to any more, never one whose name was rebound since. "
              "A store or deletion that cannot be attributed to one element counts as a change of the whole container.",
    over=["histories", "inputs"],
    qtext="every history of assignments, aliasing, deletions, list and dict operations and collections, with every index form",
    why_tests_cant="Stale registrations only show when a particular alias, a later rebinding and a collection meet; the tests use one history each.",
    files=["core/ipyflow/data_model/symbol.py", "core/ipyflow/data_model/namespace.py", "core/ipyflow/data_model/scope.py", "core/ipyflow/flow.py",
           "core/ipyflow/data_model/statement.py", "core/ipyflow/tracing/external_calls/list_handlers.py", "core/ipyflow/tracing/external_calls/base_handlers.py",
           "core/ipyflow/tracing/ipyflow_tracer.py"],
    mechanism=[("who refers to which object", "data_model/symbol.py:_handle_aliases, update_obj_ref"), ("contents of containers", "data_model/namespace.py"),
               ("retiring and collecting entries", "mark_garbage, collect_self_garbage, flow.gc"), ("list operations", "tracing/external_calls/list_handlers.py")],
    observe=["which names follow a change made through another name", "readiness after deletions and list operations"],
)
TECHNIQUE = "path-sensitive abstract interpretation: registry typestate (register/move/retire/collect), index arithmetic in linear normal form, who-may-remove over the call graph"
LEVEL_NOTE = "Decides the bookkeeping of traced operations; operations done inside uninstrumented library code are only covered through their declared handlers."
AL = r"\baliases\b"
ALL = lambda e: True
NOX = dict(onlyraise=set())
OBJKEY = r"(?:id\(obj\)|id\(self\.obj\)|self\.obj_id|self\.cached_obj_id)"


def reg(e, key, who="self"):
    """who is added to the set of referrers registered under key"""
    return adds_to(e, AL) and e.kind == "call" and e.a[2] == "add" and T(e.b[0]) == who and re.search(key, T(e.recv)) is not None


def unreg(e, key, who="self"):
    """who is removed from the referrers registered under key"""
    if e.is_call("cleanup_discard") and len(e.b) == 3:
        return re.search(AL, T(e.b[0])) is not None and re.search(rf"^(?:{key})$", T(e.b[1])) is not None and T(e.b[2]) == who
    return removes_from(e, AL) and e.kind == "call" and e.a[2] in ("discard", "remove") and T(e.b[0]) == who and re.search(key, T(e.recv)) is not None


def dropped(e, dic):
    """text of the key this event removes from a mapping matching dic"""
    if not removes_from(e, dic):
        return None
    if e.kind == "delitem":
        return T(e.b)
    return T(e.b[0]) if e.kind == "call" and e.a[2] == "pop" and e.b else "?"


def put(e, dic):
    """(key, value) stored into a mapping matching dic"""
    return (T(e.b), T(e.c)) if e.kind == "setitem" and re.search(dic, T(e.a)) else None


def after(trace, first, then):
    """each event satisfying `then` comes after one satisfying `first`"""
    seen = False
    for e in trace:
        if first(e):
            seen = True
        elif then(e) and not seen:
            return False
    return True


def lin(t):
    """linear normal form {term text: coefficient} of an integer term (None if not linear)"""
    if is_const(t) and isinstance(t[2], int) and not isinstance(t[2], bool):
        return {"": t[2]} if t[2] else {}
    if t[0] == "bin" and t[1] in ("+", "-"):
        a, b = lin(t[2]), lin(t[3])
        if a is None or b is None:
            return None
        s = 1 if t[1] == "+" else -1
        r = dict(a)
        for k, v in b.items():
            r[k] = r.get(k, 0) + s * v
        return {k: v for k, v in r.items() if v}
    if t[0] in ("neg", "u-", "usub"):
        a = lin(t[1])
        return None if a is None else {k: -v for k, v in a.items()}
    return {T(t): 1}


def shift(a, n):
    r = dict(a)
    r[""] = r.get("", 0) + n
    return {k: v for k, v in r.items() if v}


def span(t):
    """(first, last, descending) of a range term, in linear form"""
    desc = False
    if t is None:
        return None
    t = t if t[0] != "call" or t[1] != ("g", "list") else t[2][0]
    if t[0] == "call" and t[1] == ("g", "reversed") and len(t[2]) == 1:
        desc, t = True, t[2][0]
    if t[0] != "call" or t[1] != ("g", "range"):
        return None
    a = [lin(x) for x in t[2]]
    if None in a:
        return None
    if len(a) == 1:
        a = [{}, a[0]]
    step = a[2].get("", 0) if len(a) == 3 else 1
    if step not in (1, -1) or (len(a) == 3 and set(a[2]) != {""}):
        return None
    first, last = a[0], shift(a[1], -step)
    if desc:
        first, last, step = last, first, -step
    return first, last, step < 0


def check(ctx):
    ix = ctx.ix
    # ---- creation registers
    q = "Symbol.__init__"
    # (implicit creation asserts are irrelevant here)
    ctx.always("R1-registered-on-creation", q, lambda e: reg(e, r"id\(obj\)|self\.obj_id"), why="a new entry is not registered under its object", **NOX)
    ctx.always("R1-registered-on-creation", q, lambda e: e.kind == "assign" and T(e.a) == "self.obj" and T(e.b) == "obj", construct=q + ":obj",
               why="a new entry does not hold its object", **NOX)
    ctx.always("R1-registered-on-creation", q, lambda e: e.kind == "assign" and T(e.a) == "self.name" and T(e.b) == "name", construct=q + ":name",
               why="a new entry does not hold its name", **NOX)
    ctx.always("R1-registered-on-creation", q, lambda e: e.kind == "assign" and T(e.a) == "self._tombstone" and T(e.b) == "False", construct=q + ":live",
               why="a new entry starts out retired", **NOX)
    # ---- the referrer sets
    f = ctx.F("cleanup_discard")
    it = ctx.run("cleanup_discard", None, ALL, onlyraise=set())
    p = [a.arg for a in f.node.args.args]
    D, K, V = p[:3]
    ok = all(any(removes_from(e, ".") and e.kind == "call" and e.a[2] in ("discard",) and T(e.b[0]) == V for e in x.trace) for x in it.ends if x.kind == "return")
    ctx.ob("R2-referrer-sets", "cleanup_discard:discard", ok and it.ends, "the entry is not removed from the set", f.loc())
    EMPTY = lambda a, s: None if a[0] == "call" else None
    def empt(v):
        o = O()
        o.fn(lambda a, s: _empty(a, v), "set is empty")
        return o
    ctx.never("R2-referrer-sets", "cleanup_discard", lambda e: dropped(e, rf"^{D}$") is not None, empt(False), construct="cleanup_discard:keep-others",
              why="the other referrers of the object are dropped", **NOX)
    ctx.always("R2-referrer-sets", "cleanup_discard", lambda e: dropped(e, rf"^{D}$") == K, empt(True), construct="cleanup_discard:drop-empty",
               why="an empty set of referrers stays registered", **NOX)
    q = "Symbol._remove_self_from_aliases"
    it = ctx.run(q, None, ALL, **NOX)
    un = lambda e: unreg(e, r"self\.obj_id|id\(self\.obj\)")
    drop = lambda e: e.kind == "assign" and T(e.a) == "self.obj"
    every(ctx, "R2-referrer-sets", q, [e for e in it.ends if e.kind == "return"], lambda x: any(map(un, x.trace)), "a collected entry stays registered", lambda x: it.fi.loc())
    every(ctx, "R2-referrer-sets", q + ":order", [e for e in it.ends if e.kind == "return"], lambda x: not any(drop(e) for e in x.trace) or after(x.trace, un, drop),
          "the object is forgotten before the entry is unregistered from it", lambda x: it.fi.loc())
    # ---- rebinding
    q = "Symbol.update_obj_ref"
    OPQ = dict(opaque={"fresh_copy", "transfer_symbols_to", "mark_garbage", "invalidate_typecheck_result", "namespace"}, onlyraise=set(), inline={"Symbol._handle_aliases"})
    CHG = lambda: O().when(r"^self\.cached_obj_id is None$|^None is self\.cached_obj_id$", False).when(
        r"^self\.cached_obj_id == (self\.obj_id|id\(obj\)|id\(self\.obj\))$|^(self\.obj_id|id\(obj\)|id\(self\.obj\)) == self\.cached_obj_id$", False)
    SETOBJ = lambda e: e.kind == "assign" and T(e.a) == "self.obj" and T(e.b) == "obj"
    SETC = lambda e: e.kind == "assign" and T(e.a) == "self.cached_obj_id"
    REG = lambda e: reg(e, r"id\(obj\)|self\.obj_id|id\(self\.obj\)")
    UNREG = lambda e: unreg(e, r"self\.cached_obj_id")
    MARK = lambda e: e.is_call("mark_garbage")
    INT = lambda e: SETOBJ(e) or SETC(e) or REG(e) or UNREG(e) or MARK(e) or e.is_call("fresh_copy", "transfer_symbols_to") or (
        e.kind == "assign" and T(e.a) == "self._tombstone")
    it = ctx.run(q, None, INT, **OPQ)
    rets = [e for e in it.ends if e.kind == "return"]
    every(ctx, "R3-rebinding", q + ":object", rets, lambda x: any(map(SETOBJ, x.trace)), "the new object is not recorded", lambda x: it.fi.loc())
    every(ctx, "R3-rebinding", q + ":live", rets, lambda x: any(e.kind == "assign" and T(e.a) == "self._tombstone" and T(e.b) == "False" for e in x.trace),
          "a rebound name stays retired", lambda x: it.fi.loc())
    it = ctx.run(q, CHG(), INT, **OPQ)
    rets = [e for e in it.ends if e.kind == "return"]
    every(ctx, "R3-rebinding", q + ":moved-in", rets, lambda x: any(map(REG, x.trace)), "a name is not registered under its new object", lambda x: it.fi.loc())
    every(ctx, "R3-rebinding", q + ":moved-out", rets, lambda x: any(map(UNREG, x.trace)), "a name stays registered under its old object", lambda x: it.fi.loc())
    every(ctx, "R3-rebinding", q + ":new-object-first", rets, lambda x: after(x.trace, SETOBJ, REG), "the name is registered before it holds the new object", lambda x: it.fi.loc())
    every(ctx, "R3-rebinding", q + ":old-known", rets, lambda x: not any(map(SETC, x.trace)) or after(x.trace, UNREG, SETC),
          "the old object is forgotten before the name is unregistered from it", lambda x: it.fi.loc())
    OLDNS = r"namespaces\.get\(self\.cached_obj_id"
    NEWNS = r"namespaces\.get\((self\.obj_id|id\(obj\)|id\(self\.obj\))"

    def ns(o, old=True, new=None, same=None, left=None):
        o.when(rf"^.*{OLDNS}[^)]*\) is None$|^None is .*{OLDNS}", not old)
        o.when(rf"^.*{OLDNS}[^)]*\)$", old)
        if new is not None:
            o.when(rf"^.*{NEWNS}[^)]*\) is None$|^None is .*{NEWNS}", not new)
            o.when(rf"^.*{NEWNS}[^)]*\)$", new)
        if same is not None:
            o.when(r"full_namespace_path == .*full_namespace_path", same)
        if left is not None:
            o.fn(lambda a, s: _others(a, left), "other referrers left")
        return o
    TR = lambda e: e.is_call("transfer_symbols_to")
    it = ctx.run(q, ns(CHG(), True, False, True), INT, **OPQ)
    rets = [e for e in it.ends if e.kind == "return"]
    every(ctx, "R4-contents-move", q, rets, lambda x: any(TR(e) and re.search(OLDNS, T(e.recv)) and e.b and re.search(r"fresh_copy\(obj\)|namespaces", T(e.b[0])) for e in x.trace),
          "the tracked contents do not move to the new object", lambda x: it.fi.loc())
    every(ctx, "R4-contents-move", q + ":copy", rets, lambda x: any(e.is_call("fresh_copy") and T(e.b[0]) == "obj" for e in x.trace),
          "no entry for the contents of the new object is made", lambda x: it.fi.loc())
    ctx.never("R4-contents-move", q, TR, ns(CHG(), True, None, False), construct=q + ":another-name", why="contents tracked for another name are taken over", **OPQ)
    ctx.never("R4-contents-move", q, lambda e: TR(e) or e.is_call("fresh_copy"), ns(CHG(), True, True, True), construct=q + ":already-tracked",
              why="the contents already tracked for the new object are overwritten", **OPQ)
    ctx.always("R5-old-contents-retired", q, lambda e: MARK(e) and re.search(OLDNS, T(e.recv)), ns(CHG(), True, None, None, False),
               why="the contents of an object nothing refers to stay tracked", **OPQ)
    ctx.never("R5-old-contents-retired", q, MARK, ns(CHG(), True, None, None, True), construct=q + ":still-referred", why="the contents of an object other names refer to are retired", **OPQ)
    it = ctx.run(q, CHG(), INT, **OPQ)
    ok = all(after(x.trace, UNREG, MARK) for x in it.ends if x.kind == "return")
    ctx.ob("R5-old-contents-retired", q + ":order", ok, "whether anything still refers to the old object is asked before this name left it", it.fi.loc())
    # contents transfer
    q = "Namespace.transfer_symbols_to"
    it = ctx.run(q, None, ALL, onlyraise={"retrieve_namespace_attr_or_sub"}, opaque={"update_obj_ref"}, inline={"Scope.symbol_by_name", "Namespace.symbol_by_name"})
    par = it.fi.node.args.args[1].arg
    n = 0
    for kind, dic in (("attribute", "_symbol_by_name"), ("subscript", "_subscript_symbol_by_name")):
        its = [i for i in it.iterations if i.kind == "next" and any((put(e, rf"^{par}\.{dic}$")) for e in i.events)]
        n += len(its)
        ctx.ob("R6-transfer", f"{q}:{kind}:some", bool(its), f"no {kind} is moved", it.fi.loc())
        for i in its:
            el = next(put(e, rf"^{par}\.{dic}$") for e in i.events if put(e, rf"^{par}\.{dic}$"))
            ev = i.events
            conds = {
                "key": el[0] == f"{el[1]}.name",
                "removed": any(dropped(e, rf"^self\.{dic}$") == f"{el[1]}.name" for e in ev),
                "rehomed": any(e.kind == "assign" and T(e.a) == f"{el[1]}.containing_scope" and T(e.b) == par for e in ev),
                "rebound": any(e.is_call("update_obj_ref") and T(e.recv) == el[1] and re.search(rf"retrieve_namespace_attr_or_sub\({par}\.obj, {re.escape(el[1])}\.name", T(e.b[0])) for e in ev),
            }
            for k, v in conds.items():
                ctx.ob("R6-transfer", f"{q}:{kind}:{k}", v, f"a moved {kind} is not completely moved ({k})", it.fi.loc(i.node))
    for i in it.iterations:
        moved = [e for e in i.events if e.is_call("update_obj_ref") or put(e, r"symbol_by_name$") or dropped(e, r"symbol_by_name$") or (e.kind == "assign" and T(e.a).endswith(".containing_scope"))]
        ctx.ob("R6-transfer", q + ":all-or-nothing", len(moved) in (0, 4), "an entry the new object does not have is half moved", it.fi.loc(i.node))
    ctx.nonvacuous("R6-transfer iterations", n, 2)
    # ---- re-reading names after a run
    q = "Symbol.resync_if_necessary"
    GLOB = lambda g=True, gb=False: O().when(r"is_garbage$|_tombstone$", gb).when(r"containing_scope\.is_global$", g)
    INT = lambda e: e.is_call("update_obj_ref", "refresh", "_refresh_cached_obj") or (e.kind == "call" and (adds_to(e, AL) or removes_from(e, AL))) or e.is_call("cleanup_discard")
    OPR = dict(opaque={"update_obj_ref", "refresh"})
    ctx.never("R7-resync", q, INT, GLOB(True, True), construct=q + ":deleted", why="a deleted name is tracked again because its name was reused", **OPR)
    ctx.never("R7-resync", q, INT, GLOB(False, False), construct=q + ":local", why="a name of another scope is rebound to a global of the same name", **OPR)
    NEW = r"^self\.obj is (shell\(\)|.*)\.user_ns\[self\.name\]$|user_ns\[self\.name\] is self\.obj$"
    it = ctx.run(q, GLOB().when(NEW, False), INT, onlyraise=set(), **OPR)
    rets = [e for e in it.ends if e.kind == "return"]
    US = r"user_ns\[self\.name\]"
    mine = lambda e: e.is_call("update_obj_ref") and T(e.recv) == "self"
    every(ctx, "R7-resync", q + ":rebound", rets, lambda x: any(mine(e) and re.search(US + "$", T(e.b[0])) for e in x.trace), "a name that was rebound elsewhere keeps its old object", lambda x: it.fi.loc())
    every(ctx, "R7-resync", q + ":moved", rets, lambda x: any(reg(e, r"id\(.*" + US) for e in x.trace) and any(unreg(e, r"self\.obj_id|self\.cached_obj_id|id\(self\.obj\)") for e in x.trace),
          "a name rebound elsewhere stays registered under its old object", lambda x: it.fi.loc())
    every(ctx, "R7-resync", q + ":order", rets, lambda x: not any(unreg(e, r"self\.obj_id|id\(self\.obj\)") and any(map(mine, x.trace[:k])) for k, e in enumerate(x.trace)),
          "the name is unregistered from its new object", lambda x: it.fi.loc())
    # ---- retiring
    q = "Symbol.mark_garbage"
    GARB = r"^self\.is_garbage$|^self\._tombstone$"
    tomb = lambda e: e.kind == "assign" and T(e.a) == "self._tombstone" and T(e.b) == "True"
    nsm = lambda e: e.is_call("mark_garbage") and T(e.recv) != "self"
    ALLG = r"^elem\(.*\.(is_garbage|_tombstone)$"
    NSN = r"^self\.namespace is None$|^None is self\.namespace$"
    def mg(dead):
        return O().when(GARB, False).when(NSN, False).when(ALLG, dead)
    OPM = dict(opaque={"namespace", "aliases"}, onlyraise=set())
    ctx.always("R8-retire", q, tomb, O().when(GARB, False), construct=q + ":self", why="a deleted entry is not retired", **OPM)
    ctx.always("R8-retire", q, nsm, mg(True), construct=q + ":contents", why="the contents of an object all of whose names are gone stay tracked", **OPM)
    it = ctx.run(q, mg(False), nsm, **OPM)
    ctx.ob("R8-retire", q + ":shared", any(e.kind == "return" and not e.trace for e in it.ends), "the contents of an object other names refer to are retired", it.fi.loc())
    it = ctx.run(q, mg(True), lambda e: tomb(e) or nsm(e), **OPM)
    ctx.ob("R8-retire", q + ":order", all(after(x.trace, tomb, nsm) for x in it.ends), "the entry itself still counts as a referrer when its contents are considered", it.fi.loc())
    q = "Namespace.mark_garbage"
    ctx.always("R8-retire", q, tomb, O().when(GARB, False), construct=q + ":self", why="a container is not retired", **OPM)
    OPM2 = dict(opaque={"all_symbols_this_indentation"}, onlyraise=set())
    it = ctx.each_iter("R8-retire", q, r"all_symbols_this_indentation\(.*exclude_class=True", nsm, O().when(GARB, False), construct=q + ":contents",
                       why="an element of a retired container stays tracked", **OPM2)
    it = ctx.run(q, O().when(GARB, False), lambda e: tomb(e) or nsm(e), **OPM2)
    ctx.ob("R8-retire", q + ":order", all(after(x.trace, tomb, nsm) for x in it.ends), "retiring a container that contains itself does not stop", it.fi.loc())
    ctx.ob("R8-retire", "Namespace.unmark_garbage", any(e.kind == "assign" and T(e.a) == "self._tombstone" and T(e.b) == "False" for e in ctx.run("Namespace.unmark_garbage", None, ALL).allevents.values()),
           "a container kept alive stays retired")
    # ---- collecting
    q = "Symbol.collect_self_garbage"
    OPC = dict(opaque={"containing_namespace", "_remove_self_from_aliases"}, onlyraise=set())
    ctx.always("R9-collect", q, lambda e: e.is_call("_remove_self_from_aliases") or unreg(e, OBJKEY), construct=q + ":referrers", why="a collected entry stays registered as referring to its object", **OPC)
    DICS = r"(_symbol_by_name|_subscript_symbol_by_name)$"
    for sub in (True, False):
        o = lambda same: O().when(r"^self\.is_subscript$", sub).when(r"containing_namespace is None$|^None is .*containing_namespace", False).fn(lambda a, s: _same(a, same), "still registered")
        pick = "_subscript_symbol_by_name" if sub else "_symbol_by_name"
        nm = "element" if sub else "name"
        ctx.always("R9-collect", q, lambda e: dropped(e, rf"(^|\.){pick}$") == "self.name", o(True), construct=f"{q}:{nm}", why=f"a collected {nm} stays in its container", **OPC)
        ctx.never("R9-collect", q, lambda e: dropped(e, DICS) is not None, o(False), construct=f"{q}:{nm}:rebound", why=f"collecting an old {nm} removes the entry that took its place", **OPC)
    for a, b in (("parents", "children"), ("children", "parents")):
        ctx.each_iter("R9-collect", q, rf"^self\.{a}(\.keys\(\)|\.items\(\))?$", lambda e: (dropped(e, rf"elem\(.*\.{b}$|elem\(.*\.{b}\b") == "self"), construct=f"{q}:{a}",
                      why=f"a collected entry stays among the {b} of its {a}", **OPC)
    q = "Namespace.collect_self_garbage"
    ctx.always("R9-collect", q, lambda e: dropped(e, r"\bnamespaces$") in ("self.obj_id", "self.cached_obj_id"), construct=q, why="a collected container stays registered", opaque={"all_symbols_this_indentation"}, onlyraise=set())
    # what is collected
    q = "NotebookFlow.gc"
    OPG = dict(opaque={"all_symbols", "collect_self_garbage", "mark_garbage", "unmark_garbage", "size", "is_new_garbage", "is_anonymous", "at_counter", "cell_counter", "prev_cell"}, onlyraise=set())
    AS = r"all_symbols\(\)"
    DEF = r"defined_cell_num == |== .*defined_cell_num"
    mark = lambda e: e.is_call("mark_garbage")
    coll = lambda e: e.is_call("collect_self_garbage")
    def g(cell=None, anon=None, newg=None, garb=None, size=None):
        o = O()
        if cell is not None:
            o.when(DEF, cell)
        if anon is not None:
            o.when(r"is_anonymous$", anon)
        if newg is not None:
            o.when(r"is_new_garbage\(\)$", newg)
        if garb is not None:
            o.when(r"is_garbage$", garb)
        if size is not None:
            o.fn(lambda a, s: _num(a, r"\.size", size), f"{size} elements left")
        return o
    ctx.never("R10-gc", q, mark, g(cell=False), construct=q + ":other-runs", why="entries made by other runs are retired", **OPG)
    ctx.never("R10-gc", q, mark, g(anon=False, newg=False), construct=q + ":named", why="an ordinary name is retired by the collector", **OPG)
    keep = lambda e: coll(e) or e.is_call("append", "add", "unmark_garbage") or mark(e)
    ISG = r"\.(is_garbage|_tombstone)$"

    def sources(it, e):
        """what the receiver of e is an element of: (text of the collection, is it certain to be retired)"""
        r = T(e.recv)
        if any(v and x in (r + ".is_garbage", r + "._tombstone") for k, v in e.facts.items() for x in ([T(k[1])] if k[0] == "truth" else atexts(k))):
            return [(r, True)]
        m = re.match(r"^elem\((\w+)\)$", r)
        if m:
            res = []
            for end in it.ends:
                last = None
                for x in end.trace:
                    if x.is_call("append", "add") and T(x.recv) == m.group(1) and x.b:
                        last = x
                    elif x.node is e.node and last is not None:
                        y = T(last.b[0])
                        res.append((y, any(v and z in (y + ".is_garbage", y + "._tombstone") for k, v in last.facts.items() for z in ([T(k[1])] if k[0] == "truth" else atexts(k)))))
            return sorted(set(res))
        res = []
        for i in it.iterations:
            if i.kind == "next" and any(x.node is e.node for x in i.events):
                res.append((r, " or " not in T(i.iter) and re.search(r" if \(?(?!not )\S*\.(is_garbage|_tombstone)", T(i.iter)) is not None))
        return sorted(set(res))
    it = ctx.run(q, None, keep, **OPG)
    cs = [e for e in it.allevents.values() if coll(e)]
    every(ctx, "R10-gc", q + ":live", cs, lambda e: bool(sources(it, e)) and all(ok for _, ok in sources(it, e)), "an entry that is not retired is collected", lambda e: e.loc())
    fate = lambda e: coll(e) or e.is_call("unmark_garbage")
    for size in (0, 1):
        it = ctx.run(q, g(garb=True, size=size), keep, **OPG)
        for what in ("entries", "containers"):
            its = [i for i in it.iterations if i.kind == "next" and any(fate(e) and sources(it, e) and ("containers" if any("namespaces" in t for t, _ in sources(it, e)) else "entries") == what for e in i.events)]
            if size == 0 or what == "entries":
                ctx.ob("R10-gc", f"{q}:{what}:{size}", bool(its) and all(any(coll(e) for e in i.events) for i in its), f"retired {what} are not collected", it.fi.loc())
            else:
                ctx.ob("R10-gc", f"{q}:nonempty", bool(its) and all(any(e.is_call("unmark_garbage") for e in i.events) and not any(coll(e) for e in i.events) for i in its),
                       "a container that still has live elements is collected", it.fi.loc())
    # ---- deletion
    q = "Scope.delete_symbol_for_name"
    OPD = dict(opaque={"update_deps", "mark_garbage"}, onlyraise=set())

    def deletion(q, dic, o, tag):
        F = ctx.F(q)
        it = ctx.run(q, o, ALL, **OPD)
        rets = [e for e in it.ends if e.kind == "return"]
        loc = lambda x: it.fi.loc()
        pops = lambda x: [e for e in x.trace if dropped(e, rf"^self\.{dic}$") is not None]
        every(ctx, "R11-deleted", f"{q}:{tag}:removed", rets, lambda x: bool(pops(x)), "a deleted entry stays in its container", loc)
        for nm, ev in (("dependents", lambda e: e.is_call("update_deps") and ("deleted", "True") in [(k, T(v)) for k, v in e.c or ()]), ("retired", lambda e: e.is_call("mark_garbage"))):
            every(ctx, "R11-deleted", f"{q}:{tag}:{nm}", rets, lambda x: any(ev(e) and re.search(rf"{dic}", T(e.recv)) for e in x.trace),
                  "dependents are not told of the deletion" if nm == "dependents" else "a deleted entry keeps being tracked as a name of its object", loc)
        return it
    found = lambda o=None: (o or O()).when(r"_by_name\.(pop|get)\(.* is None$|^None is .*_by_name\.(pop|get)\(", False)
    deletion(q, "_symbol_by_name", found(), "name")
    q = "Namespace.delete_symbol_for_name"
    LST = lambda o, v: o.when(r"^isinstance\(self\.obj, list\)$", v)
    INTN = lambda o, v: o.when(r"^isinstance\(.*, int\)$", v)
    deletion(q, "_subscript_symbol_by_name", LST(found(O().when(r"^is_subscript$", True)), False), "key")
    SHUF = lambda e: e.is_call("_shuffle_symbols_downward_to")
    for neg in (False, True):
        it = ctx.run(q, INTN(LST(found(O().when(r"^is_subscript$", True)), True), True).when(r"^name < 0$|^0 > name$", neg).when(r"^0 <= name$|^name >= 0$", not neg),
                     lambda e: dropped(e, r"^self\._subscript_symbol_by_name$") is not None or SHUF(e), onlyraise=set(), opaque={"update_deps", "mark_garbage", "_shuffle_symbols_downward_to"})
        rets = [e for e in it.ends if e.kind == "return"]
        want = {"name": 1} if not neg else {"name": 1, "len(self.obj)": 1, "": 1}
        tag = "negative" if neg else "positive"
        every(ctx, "R11-deleted", f"{q}:list:{tag}", rets, lambda x: any(e.kind in ("call", "delitem") and dropped(e, r"_subscript_symbol_by_name$") and
              lin(e.b[0] if e.kind == "call" else e.b) == want for e in x.trace), "the wrong element is removed", lambda x: it.fi.loc())
        every(ctx, "R11-deleted", f"{q}:list:{tag}:shift", rets, lambda x: any(SHUF(e) and lin(e.b[0]) == want for e in x.trace),
              "the elements after a deleted one are not shifted from its position", lambda x: it.fi.loc())
    ctx.never("R11-deleted", q, SHUF, LST(O().when(r"^is_subscript$", True), False), construct=q + ":mapping", why="the entries of a mapping are shifted", opaque={"update_deps", "mark_garbage"}, onlyraise=set())
    ctx.always("R11-deleted", q, lambda e: e.is_call("delete_symbol_for_name") or dropped(e, r"^self\._symbol_by_name$") == "name", O().when(r"^is_subscript$", False), construct=q + ":attribute",
               why="a deleted attribute stays tracked", onlyraise=set(), opaque={"mark_garbage", "update_deps", "delete_symbol_for_name"})
    q = "Statement._handle_delete"
    dels = lambda e: e.is_call("delete_symbol_for_name")
    mut = lambda e: e.is_call("mutate") or (e.is_call("update_deps") and ("mutated", "True") in [(k, T(v)) for k, v in e.c or ()])
    RES = {"resolve_del_data_for_target", "resolve_mutated_symbol_for_target", "mutate", "update_deps", "delete_symbol_for_name", "resolve_store_data_for_target"}
    it = ctx.each_iter("R12-delete-statement", q, r"targets", dels, construct=q, why="a deleted target stays tracked", onlyraise=set(), opaque=RES)
    ds = [e for e in it.allevents.values() if dels(e)]
    every(ctx, "R12-delete-statement", q + ":target", ds, lambda e: re.search(r"\[0\]$", T(e.recv)) and re.search(r"\[2\]$", T(e.b[0])) and any(re.search(r"\[3\]$", T(v)) for v in list(e.b[1:]) + [v for _, v in e.c or ()]),
          "the wrong entry is deleted", lambda e: e.loc())
    # ---- stores / deletes that are not about a single element
    it = ctx.run(q, O().when(r"resolve_mutated_symbol_for_target\(.*is None$|^None is .*resolve_mutated_symbol_for_target", False),
                 lambda e: dels(e) or mut(e) or e.is_call("resolve_del_data_for_target"), onlyraise={"resolve_del_data_for_target"}, opaque=RES, inline={"Statement._handle_mutated_container"})
    its = [i for i in it.iterations if i.kind == "next"]
    every(ctx, "R13-container-changed", q, its, lambda i: any(dels(e) or mut(e) for e in i.events), "deleting part of a container leaves the container unchanged", lambda i: it.fi.loc(i.node))
    q = "Statement._handle_assign_target_for_deps"
    ups = lambda e: e.is_call("upsert_symbol_for_name")
    it = ctx.run(q, O().when(r"resolve_mutated_symbol_for_target\(.*is None$|^None is .*resolve_mutated_symbol_for_target", False).when(r"iter_namespace is None$|None is iter_namespace$", True)
                 .when(r"is_namespace_scope$", False), lambda e: ups(e) or mut(e), onlyraise={"resolve_store_data_for_target"}, opaque=RES, inline={"Statement._handle_mutated_container"})
    every(ctx, "R13-container-changed", q, [e for e in it.ends if e.kind == "return"], lambda x: any(ups(e) or mut(e) for e in x.trace), "storing into part of a container leaves the container unchanged", lambda x: it.fi.loc())
    ms = [e for e in it.allevents.values() if mut(e)]
    every(ctx, "R13-container-changed", q + ":deps", ms, lambda e: e.b and re.search(r"\bdeps\b", T(e.b[0])), "what is stored into part of a container is not recorded as its input", lambda e: e.loc())
    q = "DataflowTracer.attrsub_tracer"
    sv = lambda e: (put(e, r"node_id_to_saved_(store|del)_data$") or put(e, r"saved_mutated"))
    for tag, ty in (("store", "store"), ("del", "del")):
        o = O().when(r"tracing_enabled|is_tracing_enabled", True).when(r"^obj is None$|^None is obj$", False).when(r"get_ipython", False)
        o.when(r"\.obj is obj$|^obj is .*\.obj$", True).when(r"lookup_or_create_complex_symbol\(.*is None$|^None is .*lookup_or_create_complex_symbol", False)
        o.fn(lambda a, s, ty=ty: _event(a, ty), "event " + ty)
        it = ctx.run(q, o, lambda e: sv(e) is not None, onlyraise=set(), opaque={"_clear_info_and_maybe_lookup_or_create_complex_symbol", "_get_namespace_for_obj", "lookup_symbol_by_name_this_indentation",
                     "get", "upsert_symbol_for_name", "is_tracing_enabled"})
        rets = [e for e in it.ends if e.kind == "return"]
        every(ctx, "R13-container-changed", f"{q}:{tag}", rets, lambda x: any(put(e, r"saved_mutated") and put(e, r"saved_mutated")[0] == "top_level_node_id" for e in x.trace)
              or any(put(e, rf"saved_{ty}_data$") for e in x.trace), f"a {tag} with an index that names no single element is forgotten", lambda x: it.fi.loc())
    # ---- containers are registered under the object they describe
    q = next((c for c in ("Namespace._namespace_init", "Namespace.__init__") if ctx.F(c, required=False) is not None and any(put(e, r"\bnamespaces$") for e in ctx.run(c, None, ALL, onlyraise=set()).allevents.values())), "Namespace.__init__")
    PEND = r"PENDING_CLASS_PLACEHOLDER"
    ctx.always("R14-containers", q, lambda e: put(e, r"\bnamespaces$") in (("id(obj)", "self"), ("self.cached_obj_id", "self"), ("self.obj_id", "self")), O().when(PEND, False), construct=q,
               why="a new container is not registered under its object", **NOX)
    ctx.never("R14-containers", q, lambda e: put(e, r"\bnamespaces$") is not None, O().when(PEND, True), construct=q + ":pending", why="a class under construction is registered under a placeholder", **NOX)
    q = "Namespace.update_obj_ref"
    it = ctx.run(q, None, ALL, **NOX)
    par = it.fi.node.args.args[1].arg
    rets = [e for e in it.ends if e.kind == "return"]
    setc = lambda e: e.kind == "assign" and T(e.a) == "self.cached_obj_id"
    out = lambda e: dropped(e, r"\bnamespaces$") == "self.cached_obj_id"
    inn = lambda e: put(e, r"\bnamespaces$") in ((f"id({par})", "self"), ("self.cached_obj_id", "self"), ("self.obj_id", "self"))
    every(ctx, "R14-containers", q + ":out", rets, lambda x: any(map(out, x.trace)) and after(x.trace, out, setc), "the container stays registered under its old object", lambda x: it.fi.loc())
    every(ctx, "R14-containers", q + ":in", rets, lambda x: any(inn(e) and (f"id({par})" in put(e, ".")[0] or any(map(setc, x.trace[:k]))) for k, e in enumerate(x.trace)),
          "the container is not registered under its new object", lambda x: it.fi.loc())
    every(ctx, "R14-containers", q + ":id", rets, lambda x: any(setc(e) and T(e.b) == f"id({par})" for e in x.trace) and any(e.kind == "assign" and T(e.a) == "self.obj" and T(e.b) == par for e in x.trace),
          "the container does not describe its new object", lambda x: it.fi.loc())
    # class bodies
    q = "Symbol.update_deps"
    OPU = dict(opaque={"refresh", "UpdateProtocol", "_should_cancel_propagation", "upsert_symbol_for_name", "update_usage_info", "_is_underscore_or_simple_assign", "bump_cascading_reactive_cell_num",
                       "_handle_possible_widget_creation", "_handle_possible_mercury_widget_creation", "update_obj_ref", "namespace", "is_immutable", "is_class", "is_import", "_refresh_cached_obj"}, onlyraise=set())
    o = O().when(r"is_import$", False).when(r"is_immutable$", False).when(r"^self\.is_class$", True)
    it = ctx.run(q, o, lambda e: e.is_call("update_obj_ref", "_refresh_cached_obj"), **OPU)
    rets = [e for e in it.ends if e.kind == "return"]
    every(ctx, "R15-class-body", q, rets, lambda x: any(e.is_call("update_obj_ref") and "pending_class_namespaces" in T(e.recv) and "pop" in T(e.recv) and T(e.b[0]) == "self.obj" for e in x.trace) or any(not v and re.search(r"pending_class_namespaces\)?$", T(k)) for k, v in x.facts.items()),
          "the names defined in a class body are not attached to the class", lambda x: it.fi.loc())
    ctx.never("R15-class-body", q, lambda e: e.is_call("update_obj_ref"), O().when(r"is_import$", False).when(r"is_immutable$", False).when(r"^self\.is_class$", False), construct=q + ":other",
              why="the names defined in a class body are attached to something else", **OPU)
    it = ctx.run(q, O().when(r"is_import$", False).when(r"is_immutable$", False), lambda e: e.is_call("_refresh_cached_obj"), **OPU)
    every(ctx, "R15-class-body", q + ":object-known", [e for e in it.ends if e.kind == "return"], lambda x: any(e.is_call("_refresh_cached_obj") for e in x.trace),
          "the object a name refers to is not remembered, so the next rebinding does not move it", lambda x: it.fi.loc())
    # ---- names in scopes
    for q, sub, dic in (("Scope.put", None, "_symbol_by_name"), ("Namespace.put", True, "_subscript_symbol_by_name"), ("Namespace.put", False, "_symbol_by_name")):
        o = O()
        if sub is not None:
            o.when(r"\.is_subscript$", sub)
        it = ctx.run(q, o.when(r"^isinstance\(name, str\)$", True), ALL, **NOX)
        rets = [e for e in it.ends if e.kind == "return"]
        tag = f"{q}:{dic}"
        every(ctx, "R16-upsert", tag, rets, lambda x: any(put(e, rf"^self\.{dic}$") == ("name", "val") for e in x.trace) and not any(put(e, r"^self\.") and not put(e, rf"^self\.{dic}$") for e in x.trace),
              "an entry is put in the wrong table", lambda x: it.fi.loc())
        every(ctx, "R16-upsert", tag + ":home", rets, lambda x: any(e.kind == "assign" and T(e.a) == "val.containing_scope" and T(e.b) == "self" for e in x.trace),
              "an entry does not know the container it was put in", lambda x: it.fi.loc())
    q = "Scope._upsert_symbol_for_name_inner"
    OPS = dict(opaque={"update_obj_ref", "update_stmt_node", "put", "lookup_symbol_by_name_this_indentation", "namespace", "symbol_by_name"}, onlyraise=set())
    LK = r"lookup_symbol_by_name_this_indentation\(name"
    upd = lambda e: e.is_call("update_obj_ref") and re.search(LK, T(e.recv)) and e.b and T(e.b[0]) == "obj"
    newput = lambda e: e.is_call("put") and T(e.recv) == "self" and T(e.b[0]) == "name" and re.search(r"Symbol\(", T(e.b[1]))
    o = lambda here: O().when(rf"^(self\.)?{LK}.* is None$|^None is (self\.)?{LK}", False).when(r"^name in .*symbol_by_name\(", here)
    ctx.always("R16-upsert", q, upd, o(True), construct=q + ":rebind", why="rebinding a tracked name keeps its old object", **OPS)
    ctx.never("R16-upsert", q, newput, o(True), construct=q + ":no-twin", why="rebinding a tracked name makes a second entry for it", **OPS)
    ctx.always("R16-upsert", q, newput, o(False), construct=q + ":inherited", why="binding a name that only the class has is not tracked", **OPS)
    ctx.never("R16-upsert", q, lambda e: e.is_call("update_obj_ref"), o(False), construct=q + ":class-untouched", why="binding a name on an instance rebinds it on the class", **OPS)
    ctx.always("R16-upsert", q, newput, O().when(rf"^(self\.)?{LK}.* is None$|^None is (self\.)?{LK}", True), construct=q + ":new", why="a new name is not tracked", **OPS)
    it = ctx.run(q, None, lambda e: newput(e) or upd(e), **OPS)
    every(ctx, "R16-upsert", q + ":either", [e for e in it.ends if e.kind == "return"], lambda x: sum(1 for e in x.trace if newput(e) or upd(e)) == 1, "a binding is tracked neither as a new nor as an existing name", lambda x: it.fi.loc())
    rets = [e for e in it.ends if e.kind == "return"]
    every(ctx, "R16-upsert", q + ":returned", rets, lambda x: x.value[0] == "tuple" and any((newput(e) and T(e.b[1]) == T(x.value[1][0])) or (upd(e) and T(e.recv) == T(x.value[1][0])) for e in x.trace),
          "the entry handed back is not the one bound", lambda x: it.fi.loc())
    lookups = [e for e in ctx.run(q, None, lambda e: e.is_call("lookup_symbol_by_name_this_indentation"), **OPS).allevents.values() if T(e.recv) == "self"]
    every(ctx, "R16-upsert", q + ":lookup", lookups, lambda e: any(k == "is_subscript" and "SUBSCRIPT" in T(v) for k, v in e.c or ()), "an attribute and an element of the same name are confused", lambda e: e.loc())
    # ---- list operations
    q = "Namespace._remap_sym"
    it = ctx.run(q, None, ALL, opaque={"update_deps", "invalidate_cached"}, onlyraise=set())
    fi = it.fi
    FR, TO = [a.arg for a in fi.node.args.args[1:3]]
    SY = rf"self\._subscript_symbol_by_name.pop({FR}, None)"
    moved = [e for e in it.ends if e.kind == "return" and any(put(x, r"_subscript_symbol_by_name$") for x in e.trace)]
    for nm, ev, why in (("position", lambda e: put(e, r"^self\._subscript_symbol_by_name$") and put(e, ".")[0] == TO and "pop(" + FR in put(e, ".")[1], "a shifted element is not put at its new position"),
                        ("name", lambda e: e.kind == "assign" and T(e.a).endswith(".name") and T(e.b) == TO, "a shifted element keeps its old position as its name"),
                        ("update", lambda e: e.is_call("update_deps") and all((k, v) in [(k2, T(v2)) for k2, v2 in e.c or ()] for k, v in (("overwrite", "False"),)) and ("propagate", "False") not in [(k2, T(v2)) for k2, v2 in e.c or ()],
                         "readers of the position an element moved to are not told")):
        every(ctx, "R17-shift", f"{q}:{nm}", moved, lambda x: any(ev(e) for e in x.trace), why, lambda x: fi.loc())
    every(ctx, "R17-shift", f"{q}:out", [e for e in it.ends if e.kind == "return"], lambda x: any(dropped(e, r"^self\._subscript_symbol_by_name$") == FR for e in x.trace), "a shifted element stays at its old position", lambda x: fi.loc())
    every(ctx, "R17-shift", f"{q}:present", [e for e in it.ends if e.kind == "return" and e not in moved], lambda x: any(re.search(r"is None", " ".join(atexts(k))) and v for k, v in x.facts.items()),
          "an element is dropped instead of being shifted", lambda x: fi.loc())
    for q, d, first, last, desc in (("Namespace.shuffle_symbols_upward_from", 1, {"len(self.obj)": 1, "": -2}, {"pos": 1}, True),
                                    ("Namespace._shuffle_symbols_downward_to", -1, {"pos": 1, "": 1}, {"len(self.obj)": 1}, False)):
        it = ctx.run(q, None, lambda e: e.is_call("_remap_sym") or e.kind == "loop", opaque={"_remap_sym"}, onlyraise=set())
        its = [i for i in it.iterations if i.kind == "next"]
        every(ctx, "R17-shift", q + ":each", its, lambda i: sum(1 for e in i.events if e.is_call("_remap_sym")) == 1, "some elements are not shifted", lambda i: it.fi.loc(i.node))
        for i in its:
            e = next((e for e in i.events if e.is_call("_remap_sym")), None)
            sp = span(i.iter)
            if e is None or sp is None:
                ctx.ob("R17-shift", q + ":range", False, "the positions shifted cannot be determined", it.fi.loc(i.node))
                continue
            el = [k for k in (lin(e.b[0]) or {}) if k]
            a, b = lin(e.b[0]), lin(e.b[1])
            ctx.ob("R17-shift", q + ":by-one", a is not None and b is not None and shift(a, d) == b and len(el) == 1, "an element is not shifted by exactly one position", it.fi.loc(i.node))
            off = a.get("", 0)
            ctx.ob("R17-shift", q + ":range", shift(sp[0], off) == first and shift(sp[1], off) == last, "the wrong elements are shifted", it.fi.loc(i.node))
            ctx.ob("R17-shift", q + ":direction", sp[2] is desc, "elements are overwritten while they are shifted", it.fi.loc(i.node))
    q = "ListInsert.handle_namespace"
    OPL = dict(opaque={"shuffle_symbols_upward_from", "upsert_symbol_for_name"}, onlyraise=set())
    it = ctx.run(q, O().when(r"insert_pos is None$|^None is .*insert_pos", False).when(r"len\(self\.args\) < 2|2 > len", False).when(r"1 < len\(|len\(.*> 1", False), ALL, **OPL)
    rets = [e for e in it.ends if e.kind == "return"]
    sh = lambda e: e.is_call("shuffle_symbols_upward_from")
    up = lambda e: e.is_call("upsert_symbol_for_name") and ("is_subscript", "True") in [(k, T(v)) for k, v in e.c or ()]
    every(ctx, "R18-list-operations", q, rets, lambda x: any(map(sh, x.trace)) and any(map(up, x.trace)) and after(x.trace, sh, up), "an insertion does not shift the elements after it, then track the new one", lambda x: it.fi.loc())
    def samepos(x):
        s, u = next((e for e in x.trace if sh(e)), None), next((e for e in x.trace if up(e)), None)
        return s is not None and u is not None and T(s.b[0]) == T(u.b[0]) and T(u.b[1]) == f"namespace.obj[{T(u.b[0])}]"
    every(ctx, "R18-list-operations", q + ":same-position", rets, samepos, "the inserted element is tracked at another position than the one shifted from", lambda x: it.fi.loc())

    def clamped(x):
        s = next((e for e in x.trace if sh(e)), None)
        return s is not None and _clamp(s.b[0], x)
    every(ctx, "R18-list-operations", q + ":index-forms", rets, clamped, "a negative or too large insertion position is taken literally", lambda x: it.fi.loc())
    q = "ListRemove.handle_namespace"
    dl = lambda e: e.is_call("delete_symbol_for_name")
    it = ctx.run(q, O().when(r"remove_pos is None$|^None is .*remove_pos", False), dl, onlyraise=set(), opaque={"delete_symbol_for_name"})
    every(ctx, "R18-list-operations", q, [e for e in it.ends if e.kind == "return"], lambda x: any(dl(e) and T(e.b[0]) == "self.remove_pos" and ("is_subscript", "True") in [(k, T(v)) for k, v in e.c or ()] for e in x.trace),
          "a removed element stays tracked", lambda x: it.fi.loc())
    ctx.never("R18-list-operations", q, dl, O().when(r"remove_pos is None$|^None is .*remove_pos", True), construct=q + ":none", why="an element is dropped although none was removed", onlyraise=set(), opaque={"delete_symbol_for_name"})
    ci = ix.classes.get("ListPop")
    ci = ci[0] if isinstance(ci, list) else ci
    if ci is None:
        raise AnalysisBroken("ListPop is gone")
    dv = [s for s in ci.node.body if isinstance(s, (ast.Assign, ast.AnnAssign)) and "remove_pos" in ast.dump(s)]
    initev = [e for m in ("initialize", "__init__") if ctx.F(f"ListPop.{m}", required=False) is not None for e in ctx.run(f"ListPop.{m}", None, ALL, onlyraise=set()).allevents.values()
              if e.kind == "assign" and T(e.a) == "self.remove_pos"]
    isneg1 = lambda v: v is not None and ast.unparse(v) == "-1"
    ctx.ob("R18-list-operations", "ListPop:default", any(isneg1(s.value) for s in dv) or any(T(e.b) == "-1" for e in initev), "list.pop() without an argument does not drop the last element", "")
    for q, want in (("ListPop.process_arg", None), ("ListRemove.process_arg", "index")):
        F = ctx.F(q)
        p = F.node.args.args[1].arg
        it = ctx.run(q, None, lambda e: e.kind == "assign", onlyraise=set())
        every(ctx, "R18-list-operations", q, [e for e in it.ends if e.kind == "return"],
              lambda x: any(T(e.a) == "self.remove_pos" and (T(e.b) == p if want is None else T(e.b) == f"self.caller_self.index({p})") for e in x.trace), "the position of the removed element is not remembered", lambda x: F.loc())
    ctx.ob("R18-list-operations", "ListRemove.process_arg:missing", all(e.kind == "return" for e in ctx.run("ListRemove.process_arg", None, ALL, onlyraise={"index"}).ends) or
           all(e.kind == "return" or "ValueError" not in T(e.value or "") for e in ctx.run("ListRemove.process_arg", None, ALL, onlyraise={"index"}).ends), "", "")
    q = "ListExtend.handle_namespace"
    it = ctx.run(q, None, ALL, onlyraise=set(), opaque={"upsert_symbol_for_name"})
    its = [i for i in it.iterations if i.kind == "next"]
    okx = bool(its)
    for i in its:
        sp = span(i.iter)
        u = next((e for e in i.events if up(e)), None)
        okx = okx and sp is not None and u is not None and sp[0] == {"self.orig_len": 1} and sp[1] == {"len(namespace.obj)": 1, "": -1} and T(u.b[1]) == f"namespace.obj[{T(u.b[0])}]" and T(u.b[0]).startswith("elem(")
    ctx.ob("R18-list-operations", q, okx, "the elements added to a list are not exactly the ones tracked", it.fi.loc())
    it = ctx.run("ListExtend.initialize", None, lambda e: e.kind == "assign")
    every(ctx, "R18-list-operations", "ListExtend.initialize", [e for e in it.ends if e.kind == "return"], lambda x: any(T(e.a) == "self.orig_len" and T(e.b) == "len(self.caller_self)" for e in x.trace),
          "the length before the call is not remembered", lambda x: it.fi.loc())
    q = "NamespaceClear.handle"
    it = ctx.each_iter("R18-list-operations", q, r"all_symbols_this_indentation\(.*is_subscript=True", lambda e: dl(e) and T(e.b[0]).endswith(".name") or dl(e) and T(e.b[0]).startswith("elem("),
                       O(), construct=q, why="an element of a cleared container stays tracked", onlyraise=set(), opaque={"delete_symbol_for_name", "all_symbols_this_indentation", "get_first_full_symbol", "namespace"})
    its = [i for i in it.iterations if i.kind != "collect" and i.iter is not None and "all_symbols_this_indentation" in T(i.iter)]
    every(ctx, "R18-list-operations", q + ":copied", its, lambda i: not re.match(r"^(\(?genexp|.*\.all_symbols_this_indentation\()", T(i.iter)) or re.match(r"^(list|tuple|sorted|set|reversed)\(|^listcomp", T(i.iter)), "the container is emptied while it is read", lambda i: it.fi.loc(i.node))
    sorts = [e for e in ctx.run(q, None, lambda e: e.is_call("sorted", "sort"), onlyraise=set(), opaque={"delete_symbol_for_name", "all_symbols_this_indentation", "get_first_full_symbol", "namespace"}).allevents.values()]
    ctx.ob("R18-list-operations", q + ":any-keys", not sorts, "clearing a container with keys that cannot be ordered fails", sorts[0].loc() if sorts else "")
    always_super = ctx.run(q, None, lambda e: e.is_call("handle", "mutate_caller", "_maybe_mutate_caller"), onlyraise=set(), opaque={"delete_symbol_for_name", "all_symbols_this_indentation", "get_first_full_symbol", "namespace", "mutate_caller"})
    every(ctx, "R18-list-operations", q + ":changed", [e for e in always_super.ends if e.kind == "return"], lambda x: bool(x.trace), "clearing a container does not count as changing it", lambda x: it.fi.loc())
    # ---- nobody else removes registrations
    allow = {"cleanup_discard", "cleanup_pop", "_handle_aliases", "_remove_self_from_aliases", "update_obj_ref", "resync_if_necessary", "collect_self_garbage", "delete_symbol_for_name", "transfer_symbols_to",
             "_remap_sym", "gc", "__init__", "_namespace_init", "clear", "reset", "reset_cell_counter", "after_module_stmt"}
    q = "DataflowTracer.after_module_stmt"
    FEW = r"aliases.*\)\) <= 1$|^1 >= len\(.*aliases|^len\(.*aliases.*\) < 2$"
    MANY = r"^1 < len\(.*aliases|^len\(.*aliases.*\) > 1$|^2 <= len\(.*aliases|^len\(.*aliases.*\) >= 2$"
    ctx.never("R19-only-retired-removed", q, lambda e: dropped(e, r"\bnamespaces$") is not None, O().when(FEW, False).when(MANY, True), construct=q + ":underscore",
              why="the contents of a value other names refer to are dropped when the next value is shown", onlyraise=set())
    removers, callers = {}, {}
    for fn in ix.funcs.values():
        for nd in walk_own(fn.node):
            nm = None
            if isinstance(nd, ast.Name):
                nm = nd.id
            elif isinstance(nd, ast.Attribute):
                nm = nd.attr
            if nm:
                callers.setdefault(nm, set()).add(fn.name)
            tgt = None
            if isinstance(nd, ast.Call) and isinstance(nd.func, ast.Attribute) and nd.func.attr in ("pop", "clear", "popitem") and isinstance(nd.func.value, ast.Attribute):
                tgt = nd.func.value
            elif isinstance(nd, ast.Delete):
                for x in nd.targets:
                    if isinstance(x, ast.Subscript) and isinstance(x.value, ast.Attribute):
                        tgt = x.value
            elif isinstance(nd, ast.Call) and isinstance(nd.func, ast.Name) and nd.func.id in ("cleanup_discard", "cleanup_pop") and nd.args and isinstance(nd.args[0], ast.Attribute):
                tgt = nd.args[0]
            if tgt is not None and tgt.attr in ("aliases", "namespaces", "_symbol_by_name", "_subscript_symbol_by_name"):
                removers[fn.key if hasattr(fn, "key") else fn.qual] = (fn, nd)

    def allowed(name, seen=()):
        if name in allow:
            return True
        cs = callers.get(name, set()) - {name}
        return bool(cs) and name not in seen and all(allowed(c, seen + (name,)) for c in cs)
    for k, (fn, nd) in sorted(removers.items(), key=lambda kv: str(kv[0])):
        ctx.ob("R19-only-retired-removed", fn.qual, allowed(fn.name), "an entry is dropped from tracking outside deletion, rebinding and collection", fn.loc(nd))
    ctx.nonvacuous("R19-only-retired-removed", len(removers), 5)


def _empty(a, v):
    """is the set of referrers empty?"""
    for x in atexts(a):
        if re.search(r"^len\(.*\) == 0$|^0 == len\(", x):
            return v
        if re.search(r"^0 < len\(|^len\(.*\) > 0$|^len\(.*\) >= 1$|^1 <= len\(", x):
            return not v
        if re.search(r"^len\(.*\) != 0$", x):
            return not v
    if a[0] == "truth":
        return not v
    return None


def _others(a, left):
    """does anything still refer to the old object?"""
    t = " | ".join(atexts(a)) if a[0] != "truth" else T(a[1])
    if not re.search(r"aliases(\.get\(self\.cached_obj_id|\[self\.cached_obj_id)|self\.cached_obj_id in .*aliases", t):
        return None
    if re.search(r"namespaces", t):
        return None
    if a[0] == "truth":
        return left
    for x in atexts(a):
        if re.search(r"== 0$|^0 ==|< 1$| is None$|^None is", x):
            return not left
        if re.search(r"^0 <|> 0$|>= 1$|^1 <=|!= 0$| in ", x):
            return left
    return None


def _num(a, rx, n):
    """outcome of a comparison of a quantity (matching rx) with a constant when it is n"""
    import operator as op
    ops = {"<": op.lt, "<=": op.le, ">": op.gt, ">=": op.ge, "==": op.eq, "!=": op.ne}
    if a[0] == "truth":
        return bool(n) if re.search(rx + "$", T(a[1])) else None
    for x in atexts(a):
        m = re.match(rf"^(\d+) (<|<=|>|>=|==|!=) \S*{rx}$", x)
        if m:
            return ops[m.group(2)](int(m.group(1)), n)
        m = re.match(rf"^\S*{rx} (<|<=|>|>=|==|!=) (\d+)$", x)
        if m:
            return ops[m.group(1)](n, int(m.group(2)))
    return None


def _same(a, v):
    """is the entry registered under the name this very one?"""
    for x in atexts(a):
        if re.search(r"_by_name(\.get\(self\.name.*\)|\[self\.name\]) is self$|^self is .*_by_name(\.get\(self\.name|\[self\.name\])", x):
            return v
    return None


def _event(a, ty):
    """outcome of tests on the kind of tracing event for a store / del of a subscript"""
    val = f"before_subscript_{ty}"
    if a[0] == "truth":
        t = a[1]
        if t[0] == "call" and t[1][0] == "." and T(t[1][1]) == "event.value" and t[1][2] in ("endswith", "startswith") and len(t[2]) == 1 and is_const(t[2][0]):
            return getattr(val, t[1][2])(t[2][0][2])
        return None
    for x in atexts(a):
        m = re.search(r"^'(\w+)' in event\.value$", x)
        if m:
            return m.group(1) in val
        m = re.search(r"^event in [\(\[{](.*)[\)\]}]$", x)
        if m:
            return val in m.group(1)
        m = re.search(r"^event (?:==|is) (?:\w+\.)*(\w+)$|^(?:\w+\.)*(\w+) (?:==|is) event$", x)
        if m:
            return (m.group(1) or m.group(2)) == val
    return None


def _clamp(t, end):
    """t is the position clamped to [0, length before the insertion], on this path"""
    L = {"len(namespace.obj)": 1, "": -1}

    def norm(t):
        if t[0] == "call" and t[1] in (("g", "max"), ("g", "min")) and len(t[2]) == 2:
            return (t[1][1], frozenset(norm(x) for x in t[2]))
        l = lin(t)
        return frozenset(({T(t): 1} if l is None else l).items())
    fr = lambda d: frozenset(d.items())
    P = fr({"self.insert_pos": 1})
    N = fr({"self.insert_pos": 1, **L})
    Z, LF = frozenset(), fr(L)
    neg = None
    for k, v in end.facts.items():
        for x in atexts(k):
            if re.search(r"^self\.insert_pos < 0$|^0 > self\.insert_pos$", x):
                neg = v
            elif re.search(r"^0 <= self\.insert_pos$|^self\.insert_pos >= 0$", x):
                neg = not v
    n = norm(t)
    neg_ok = {("max", frozenset((N, Z))), ("min", frozenset((("max", frozenset((N, Z))), LF))), ("max", frozenset((("min", frozenset((N, LF))), Z)))}
    pos_ok = {("min", frozenset((P, LF))), ("max", frozenset((("min", frozenset((P, LF))), Z)))}
    if neg is True:
        return n in neg_ok
    if neg is False:
        return n in pos_ok
    return False
