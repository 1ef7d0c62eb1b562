"""C27: ages, versions, uses and relatives of symbols are reported as recorded, newest and transitive where asked for."""
import itertools

from .common import *
from .c19 import CALL, IS, arg, ends, kw, returns

TITLE = "Ages and versions of symbols"
PROP = dict(
    title="A symbol's ages, versions, uses and relatives are those recorded for it",
    statement="A symbol is as old as the newest of its own updates and those of its members (imports and modules: of its own only); times are compared by cell, then statement, and times that are not set precede all others and are nobody's. "
              "Each update keeps the former versions of the symbol and of whatever contains it, once each; the code of a version is that of the newest updates of the symbol and all its members up to then. "
              "A use is recorded with the time it happens, as a dependency on the newest update before it, for the symbol and, where asked for, all members, except where reactivity is blocked; static uses go back to the newest visible update. "
              "deps and users give the direct, rdeps and rusers the transitive, named relatives without the symbol itself, also when these form cycles, and code, timestamp, tags and the like are those of the symbol that was named.",
    over=["programs", "histories"],
    qtext="every symbol in every history of updates and uses",
    why_tests_cant="Tests look at single updates of a few symbols; which of several times, members, versions and relatives is reported depends on the whole history and on nested, shared and cyclic data.",
    files=["core/ipyflow/data_model/timestamp.py", "core/ipyflow/data_model/symbol.py", "core/ipyflow/api/lift.py", "core/ipyflow/slicing/mixin.py"],
    mechanism=[("times", "data_model/timestamp.py"), ("ages, versions and uses", "data_model/symbol.py"), ("what the API gives back", "api/lift.py"), ("relatives of cells and statements", "slicing/mixin.py")],
    observe=["timestamp(x), code(x), deps(x), users(x), rdeps(x), rusers(x)", "Cell.parents and children"],
)
TECHNIQUE = "path-sensitive abstract interpretation: the value given back on every path as a table over the cases that decide it, and the required effects and recursion of every walk"
LEVEL_NOTE = "Decides what is computed from what was recorded; that edges and updates are recorded where they should be is the subject of C03, C26 and C28."
UNSET = r"(Timestamp\.uninitialized\(\)|cls\.uninitialized\(\)|_TS_UNINITIALIZED|Timestamp\(-1, -1\))"


def is_max(e, a, b):
    """the value of the path is the larger of the two terms (regexes)"""
    v, t = e.value, T(e.value)
    if v[0] == "call" and T(v[1]) == "max" and len(v[2]) == 2:
        x, y = map(T, v[2])
        return bool(re.fullmatch(a, x) and re.fullmatch(b, y) or re.fullmatch(a, y) and re.fullmatch(b, x))
    for s, o in ((a, b), (b, a)):
        if re.fullmatch(s, t):
            for k, val in e.facts.items():
                m = re.fullmatch(r"\(?(.*) (<=?) (.*?)\)?", T(k))
                if k[0] == "cmp" and m and ((re.fullmatch(o, m[1]) and re.fullmatch(s, m[3]) and val) or (re.fullmatch(s, m[1]) and re.fullmatch(o, m[3]) and not val)):
                    return True
    return False


def value(ctx, rule, q, o, pred, why, con="", **kws):
    """every way the function ends gives a value that satisfies pred(path)"""
    it = ctx.run(q, o, CALL, onlyraise=set(), **kws)
    es = returns(it)
    ctx.ob(rule, f"{q}{con}: ends", bool(es), "gives nothing back", it.fi.loc())
    for e in es:
        ctx.ob(rule, f"{q}{con}", bool(pred(e)), f"{why}: {T(e.value)[:90]}", it.fi.loc(e.node))
    return it


def times(ctx):
    R = "R1-times"
    q = "Timestamp.current"
    for on in (True, False):
        o = O().when(r"^(truth\()?tracer_initialized\(\)\)?$", on)

        def ok(e, on=on):
            if not on:
                return re.fullmatch(UNSET, T(e.value))
            if e.value[0] != "call" or T(e.value[1]) not in ("cls", "Timestamp") or len(e.value[2]) + len(e.value[3]) != 2:
                return False
            d = dict(zip(("cell_num", "stmt_num"), [T(x) for x in e.value[2]]))
            d.update({k: T(v) for k, v in e.value[3]})
            return set(d["cell_num"].strip("()").replace("(", "").replace(")", "").split(" + ")) == {"flow.cell_counter", "_cell_offset"} and set(d["stmt_num"].replace("(", "").replace(")", "").split(" + ")) == {"tracer.module_stmt_counter", "_stmt_offset"}
        value(ctx, R, q, o, ok, "the present time is not that of the cell and statement that run", f":tracing={on}")
    q = "Timestamp.is_initialized"
    if ctx.F(q):
        for c, s in itertools.product((True, False), repeat=2):
            def f(a, st, c=c, s=s):
                t = T(a)
                if a[0] == "cmp" and "self.cell_num" in t and "self.stmt_num" not in t:
                    return order(a, "self.cell_num", c)
                if a[0] == "cmp" and "self.stmt_num" in t and "self.cell_num" not in t:
                    return order(a, "self.stmt_num", s)
                return None
            o = O().fn(f)
            value(ctx, R, q, o, lambda e, o=o, c=c, s=s: oval(e, o) is (c and s), "a time that is not set counts as one, or the other way around", f":cell={c}:statement={s}")
    q = "Timestamp.plus"
    value(ctx, R, q, None, lambda e: e.value[0] == "call" and [sorted(T(x).strip("()").split(" + ")) for x in list(e.value[2]) + [v for _, v in e.value[3]]] == [["cell_num_delta", "self.cell_num"], ["self.stmt_num", "stmt_num_delta"]], "the time is not moved by what was asked for")
    q = "Timestamp.__eq__"
    for none, ts in ((True, False), (False, True), (False, False)):
        o = O().when(IS("other", "None"), none)
        isinst(o, "other", *(["Timestamp"] if ts else []))
        if ts:
            it = ctx.run(q, o, CALL, onlyraise=set())
            PARTS = (r"tuple\((self|other)\._asdict\(\)\.values\(\)\)|(self|other)\.as_tuple\(\)|tuple\((self|other)\)|\((self|other)\.cell_num, (self|other)\.stmt_num\)")
            for e in returns(it):
                t = T(e.value)
                ctx.ob(R, f"{q}:times", e.value[0] == "cmp" and e.value[1] == "==" and all(re.fullmatch(PARTS, T(x)) for x in e.value[2:4]) and "self" in t and "other" in t
                       or e.value[0] == "and" and "cell_num" in t and "stmt_num" in t or t == "False" and any("_num" in T(k) and v is False for k, v in e.facts.items()) or "_num" in t and any("_num" in T(k) and v is True for k, v in e.facts.items()),
                       f"times are compared by {t[:80]}", it.fi.loc(e.node))
        else:
            it = ctx.run(q, o, CALL, onlyraise=set())
            ctx.ob(R, f"{q}:{'none' if none else 'other'}", bool(it.ends) and all((e.kind == "return" and T(e.value) == "False") if none else (e.kind == "raise" and "TypeError" in T(e.value)) for e in it.ends), "a time equals something that is none", it.fi.loc())
    q = "Timestamp.__ne__"
    value(ctx, R, q, None, lambda e: re.fullmatch(r"\(?not \(?(other == self|self == other)\)?\)?|\(?(self != other|other != self)\)?|\(?not self\.__eq__\(other\)\)?", T(e.value)), "times differ other than by not being equal")
    ci = ctx.ix.classes.get("Timestamp")
    own = [m for m in ("__lt__", "__le__", "__gt__", "__ge__", "__hash__") if ci and m in ci.methods]
    fields = [x.target.id for x in ci.node.body if isinstance(x, ast.AnnAssign)] if ci else []
    ctx.ob(R, "Timestamp:order", fields == ["cell_num", "stmt_num"] and not own, f"times are not ordered by cell, then statement: {fields} {own}")
    q = "Timestamp.positional"
    value(ctx, R, q, None, lambda e: re.fullmatch(r"(Timestamp|self\.__class__)\(((cell_num=)?cells\(\)\.(at_counter|at_timestamp|from_counter)\(self(\.cell_num)?\)\.position), (stmt_num=)?self\.stmt_num\)", T(e.value)), "the time by position is not that of the cell")


def order(a, what, positive):
    """truth of a comparison of ``what`` with -1, 0 or the unset time, given whether it is set"""
    x, y = T(a[2]), T(a[3])
    swap = y.endswith(what)
    other = x if swap else y
    lim = 0 if other == "0" else -1 if other == "-1" or re.match(UNSET, other) else None
    if lim is None:
        return None
    v = 3 if positive else -1
    l, r = (lim, v) if swap else (v, lim)
    return {"<": l < r, "<=": l <= r, ">": l > r, ">=": l >= r, "==": l == r, "!=": l != r}.get(a[1])


INIT = r"(self\._initialized_timestamp|self\._get_initialized_timestamp\(\))"
SHALLOW = r"self\.shallow_timestamp"


def ages(ctx):
    R = "R2-age"
    for none in (True, False):
        o = O().when(IS(r"self\._override_timestamp", "None"), none)
        value(ctx, R, "Symbol.shallow_timestamp", o, lambda e: re.fullmatch(INIT, T(e.value)) if none else is_max(e, INIT, r"self\._override_timestamp"), "is not the newest of its times", f":overridden={not none}", inline=set())
    for imp, mod, members in itertools.product((True, False), repeat=3):
        o = O().when(r"^(truth\()?self\.is_import\)?$", imp).when(r"^(truth\()?self\.is_module\)?$", mod).when(IS(r"self\.namespace", "None"), not members).when(r"^self\.namespace$", members)
        own = imp or mod or not members
        value(ctx, R, "Symbol.timestamp", o, lambda e: re.fullmatch(SHALLOW, T(e.value)) if own else is_max(e, SHALLOW, r"self\.namespace\.max_descendent_timestamp"), "is not as old as it and its members are" if not own else "is not as old as it is itself", f":import={imp}:module={mod}:members={members}")
    q = "Symbol._get_initialized_timestamp"
    for own, inside, known, fresh in itertools.product((True, False), repeat=4):
        if own and not (inside and known):
            continue
        o = O().when(r"^(truth\()?self\._timestamp\.is_initialized\)?$", own).when(IS(r"self\.containing_namespace", "None"), not inside)
        o.fn(lambda a, s: known if a[0] == "in" or a[0] == "cmp" and a[1] == "in" else None)
        o.when(r"^seen$", fresh is False).when(IS("seen", "None"), fresh)
        it = ctx.run(q, o, CALL, onlyraise=set())
        con = f"{q}:own={own}:inside={inside}:visited={known}:first={fresh}"
        es = returns(it)
        ctx.ob(R, con + ": ends", bool(es), "has no age", it.fi.loc())
        REC = r"elem\(flow\(\)\.aliases\.get\(self\.containing_namespace\.obj_id, .*\)\)\._get_initialized_timestamp\((seen=)?(" + (r"new_set|\(seen or new_set\)|\{self\}" if fresh else r"seen|\(seen or new_set\)|\(?seen \| \{self\}\)?") + r")\)"
        for e in es:
            rec = re.fullmatch(REC, T(e.value)) is not None
            ctx.ob(R, con, (rec or T(e.value) == "self._timestamp") and not (rec and (own or not inside or known)), f"is {T(e.value)[:80]}", it.fi.loc(e.node))
            if rec:
                add = [x for x in e.trace if x.is_call("add") and T(x.b[0]) == "self"]
                ctx.ob(R, con + ": visited", bool(add) or "{self}" in T(e.value), "follows cycles forever", it.fi.loc(e.node))
        if not own and inside and not known:
            ctx.ob(R, con + ": of its container", any(re.fullmatch(REC, T(e.value)) for e in es), "a member without a time of its own does not have that of its container", it.fi.loc())
    q = "Symbol.last_used_timestamp"
    for used in (True, False):
        o = O().when(r"^self\.timestamp_by_used_time$", used)
        value(ctx, R, q, o, lambda e: re.fullmatch(r"max\(self\.timestamp_by_used_time(\.keys\(\))?(, default=.*)?\)", T(e.value)) if used else re.fullmatch(UNSET + r"|max\(self\.timestamp_by_used_time(\.keys\(\))?, default=" + UNSET + r"\)", T(e.value)), "is not when it was used last", f":used={used}")
    q = "Symbol.updated_timestamps"
    for init in (True, False):
        o = O().when(rf"^(truth\()?{INIT}\.is_initialized\)?$", init)
        value(ctx, R, q, o, lambda e: "self._updated_timestamps" in T(e.value) and (re.search(INIT, T(e.value)) is not None) is init and not re.search(r" [-&^] |difference|intersection|comp\(", T(e.value)), "the updates are not all that there were", f":updated={init}")
    q = "Symbol.waiting_timestamp"
    value(ctx, R, q, None, lambda e: is_max(e, r"self\._timestamp\.cell_num", r"flow\(\)\.min_timestamp"), "is not the newest of the times that count")
    q = "Symbol.memoize_timestamp"
    value(ctx, R, q, None, lambda e: re.fullmatch(r"self\.last_updated_timestamp_by_obj_id\.get\(self\.obj_id(, None)?\)", T(e.value)), "is not when its present object was recorded")
    q = "Symbol.visible_timestamp"
    NEWEST = r"(sorted\(self\.updated_timestamps, reverse=True\)|reversed\(sorted\(self\.updated_timestamps\)\)|sorted\(self\.updated_timestamps\)\[::-1\])"
    for vis in (True, False):
        o = O().when(r"\.is_visible\)?$", vis)
        it = ctx.run(q, o, CALL, onlyraise=set())
        for e in returns(it):
            t = T(e.value)
            walked = [x for x in e.trace if x.kind == "iter"]
            if re.match(r"max\(|next\(", t):
                ok = "is_visible" in t and "updated_timestamps" in t and (t.startswith("max(") or re.search(r"sorted\(.*reverse=True|reversed\(sorted", t))
            elif walked:
                ok = all(re.fullmatch(NEWEST, T(x.a)) for x in walked) and (t == "elem(self.updated_timestamps)" or re.match(r"elem\(.*updated_timestamps", t) is not None if vis else t == "None")
            else:
                ok = t == "None"
            ctx.ob(R, f"{q}:visible={vis}", ok, f"is not the newest update that can be seen: {t[:60]}", it.fi.loc(e.node))
        ctx.ob(R, f"{q}:visible={vis}: ends", bool(returns(it)), "gives nothing", it.fi.loc())


def versions(ctx):
    R = "R3-versions"
    q = "Symbol._get_timestamps_for_version"
    SNAP = r"self\._snapshot_timestamps\[version\]"
    for some, imported, newest in itertools.product((True, False), repeat=3):
        if not some and (imported or newest):
            continue
        o = O().when(r"^self\._snapshot_timestamps$", some).when(rf"^\(?({SNAP}\.cell_num == -1|-1 == {SNAP}\.cell_num)\)?$", imported).when(r"^\(?(version == -1|-1 == version)\)?$", newest)

        def ok(e):
            t = T(e.value)
            if not some:
                return t == "{self.timestamp}"
            if imported:
                return re.fullmatch(rf"\{{Timestamp\((cell_num=)?self\.defined_cell_num, (stmt_num=)?{SNAP}\.stmt_num\)\}}", t)
            if any(x.is_call("discard") and T(x.recv) == t and re.fullmatch(UNSET, T(x.b[0])) for x in e.trace):
                t = f"({t} - {{Timestamp.uninitialized()}})"
            m = re.fullmatch(rf"\(?self\._compute_namespace_timestamps\((version_ubound=)?(.*)\) - \{{{UNSET}\}}\)?|self\._compute_namespace_timestamps\((version_ubound=)?(.*)\)\.difference\(.*{UNSET}.*\)|setcomp\(elem\(self\._compute_namespace_timestamps\((version_ubound=)?(.*)\)\) for .* if .*is_initialized.*\)", t)
            b = next((x for x in (m.group(2), m.group(5), m.group(8)) if x), None) if m else None
            return m is not None and (b in ("None", "") if newest else b is not None and re.fullmatch(r"self\._snapshot_timestamp_ubounds\[version\]", b) is not None)
        value(ctx, R, q, o, ok, "the times are not those of the version that was asked for", f":versions={some}:imported={imported}:newest={newest}")
    q = "Symbol._compute_namespace_timestamps"
    NS = r"self\.namespace\.all_symbols_this_indentation\(\)"
    for bound, members, visited, newer, first in itertools.product((True, False), repeat=5):
        if newer and not bound or first and visited:
            continue
        o = O().when(IS("version_ubound", "None"), not bound).when(IS(r"self\.namespace", "None"), not members).when(r"^self\.namespace$", members).when(IS("seen", "None"), first)
        o.fn(lambda a, s: visited if (a[0] == "in" or a[0] == "cmp" and a[1] == "in") and T(a).startswith(("(self in", "self in")) else None)
        SN = r"elem\(self\._snapshot_timestamps\)"
        o.when(rf"^\(?(version_ubound < {SN}|{SN} > version_ubound)\)?$", newer).when(rf"^\(?(version_ubound >= {SN}|{SN} <= version_ubound)\)?$", not newer).when(rf"^{SN}\.is_initialized$", True).when(rf"^{UNSET}\.is_initialized$", False)
        it = ctx.run(q, o, CALL, onlyraise=set())
        con = f"{q}:bound={bound}:members={members}:visited={visited}:newer={newer}:first={first}"
        sn = [i for i in loops_over(it, r"^self\._snapshot_timestamps|reversed\(self\._snapshot_timestamps") if i.kind != "collect"]
        ctx.ob(R, con + ": first", all((i.kind == "break") is not newer for i in sn), "goes on after the version was found, or stops before", it.fi.loc())
        es = returns(it)
        ctx.ob(R, con + ": ends", bool(es), "gives nothing", it.fi.loc())
        for e in es:
            t = T(e.value)
            if not bound:
                ctx.ob(R, con + ": own", "self.shallow_timestamp" in t and "self.timestamp" in t and "_snapshot" not in t, f"the newest version is {t[:80]}", it.fi.loc(e.node))
            else:
                picked = "elem(self._snapshot_timestamps)" in t
                w = [x for x in e.trace if x.kind == "iter" and "_snapshot_timestamps" in T(x.a)]
                comp = re.search(r"max\(.*<= version_ubound|max\(.*not \(?version_ubound <|max\(.*version_ubound >=", t)
                if comp:
                    continue
                ctx.ob(R, con + ": bound", picked is (bool(w) and not newer), "a version that is newer, or not one that is not", it.fi.loc(e.node))
                ctx.ob(R, con + ": newest", all(T(x.a) in ("reversed(self._snapshot_timestamps)", "self._snapshot_timestamps[::-1]", "sorted(self._snapshot_timestamps, reverse=True)") for x in w), "not the newest of the versions up to then", it.fi.loc(e.node))
                ctx.ob(R, con + ": no present time", "self.timestamp" not in t and "self.shallow_timestamp" not in t, f"an old version has present times: {t[:80]}", it.fi.loc(e.node))
        its = [i for i in loops_over(it, NS)]
        recs = lambda i: [x for x in i.events if x.is_call("_compute_namespace_timestamps") and re.fullmatch(rf"elem\({NS}\)", T(x.recv)) and arg(x, 1, "version_ubound") == ("version_ubound" if bound else "None") or x.is_call("_compute_namespace_timestamps") and not bound and arg(x, 1, "version_ubound") in ("version_ubound", None)]
        if members and not visited:
            ctx.ob(R, con + ": members", bool(its) and all(i.kind != "break" and len(recs(i)) == 1 for i in its), "not all members are part of the version", it.fi.loc())
            r = [x for i in its for x in recs(i)]
            ctx.ob(R, con + ": cycles", bool(r) and all(arg(x, 0, "seen") in (("new_set", "{self}") if first else ("seen", "(seen | {self})")) for x in r) and all(any(x.is_call("add") and T(x.b[0]) == "self" for x in e.trace) or any(arg(x, 0, "seen") == "{self}" for x in r) for e in es if any(x.kind == "iter" and re.search(NS, T(x.a)) for x in e.trace)), "follows cycles forever", it.fi.loc())
            ctx.ob(R, con + ": added", any(re.search(rf"elem\({NS}\)\._compute_namespace_timestamps", T(e.value)) for e in es) or any(x.is_call("update") and "_compute_namespace_timestamps" in T(x.b[0]) or x.kind == "aug" and "_compute_namespace_timestamps" in T(x.c) for i in its for x in i.events), "the times of the members are dropped", it.fi.loc())
        else:
            ctx.ob(R, con + ": members", not any(recs(i) for i in its), "visits members again", it.fi.loc())
    q = "Symbol.code"
    it = ctx.run(q, None, CALL, onlyraise=set())
    for e in returns(it):
        fm = [x for x in e.trace if x.is_call("format_multi_slice")]
        ctx.ob(R, f"{q}", len(fm) == 1 and T(e.value) == T(("call", fm[0].a, fm[0].b, fm[0].c)) and re.fullmatch(r"self\._get_timestamps_for_version\((version=)?version\)", T(fm[0].b[0])) is not None and re.match(r"(statements\(\)|Statement)\.", T(fm[0].a)) is not None and kw(fm[0], "format_type") == "format_type", "the code is not that of the version that was asked for", it.fi.loc(e.node))
    ctx.ob(R, f"{q}: ends", bool(returns(it)), "gives nothing", it.fi.loc())
    q = "Symbol._take_timestamp_snapshots"
    AL = r"flow\(\)\.aliases\.get\(self\.containing_namespace\.obj_id, .*\)"
    for first, visited, inside in itertools.product((True, False), repeat=3):
        if first and visited:
            continue
        o = O().when(IS("seen", "None"), first).when(IS(r"self\.containing_namespace", "None"), not inside).when(r"^self\.containing_namespace$", inside)
        o.fn(lambda a, s: visited if (a[0] == "in" or a[0] == "cmp" and a[1] == "in") and T(a).startswith(("(self in", "self in")) else None)
        it = ctx.run(q, o, CALL, onlyraise=set())
        con = f"{q}:first={first}:visited={visited}:inside={inside}"
        for e in returns(it):
            snap = [T(x.b[0]) for x in e.trace if x.is_call("append") and T(x.recv) == "self._snapshot_timestamps"]
            ub = [T(x.b[0]) for x in e.trace if x.is_call("append") and T(x.recv) == "self._snapshot_timestamp_ubounds"]
            ctx.ob(R, con + ": kept", (snap, ub) == (([], []) if visited else (["self._timestamp"], ["ts_ubound"])), "a version is kept twice" if visited else "the version is not kept", it.fi.loc(e.node))
            if not visited:
                ctx.ob(R, con + ": visited", any(x.is_call("add") and T(x.b[0]) == "self" for x in e.trace), "follows cycles forever", it.fi.loc(e.node))
        ctx.ob(R, con + ": ends", bool(returns(it)), "does not end", it.fi.loc())
        its = [i for i in loops_over(it, r"\.aliases\.get\(self\.containing_namespace\.obj_id")]
        rec = lambda i: [x for x in i.events if x.is_call("_take_timestamp_snapshots") and arg(x, 0, "ts_ubound") == "ts_ubound" and arg(x, 1, "seen") in (("new_set", "{self}") if first else ("seen", "(seen | {self})"))]
        if inside and not visited:
            ctx.ob(R, con + ": containers", bool(its) and all(i.kind != "break" and len(rec(i)) == 1 and T(rec(i)[0].recv).startswith("elem(") for i in its), "what contains the symbol keeps no version", it.fi.loc())
        else:
            ctx.ob(R, con + ": containers", not its, "goes on where there is nothing", it.fi.loc())


def uses(ctx):
    R = "R4-uses"
    q = "Timestamp.update_usage_info"
    UP = lambda e: e.is_call("update_usage_info")
    for case in ("none", "one", "several"):
        for anon, missing in ((False, False), (True, False), (False, True)):
            o = O().when(IS("symbols", "None"), case == "none")
            o.when(r"^(elem\(symbols\)|elem\(\[symbols\]\)|symbols)\.is_anonymous$", anon).when(IS(r"elem\(symbols\)", "None"), missing)
            it = ctx.run(q, o, CALL, onlyraise={"iter"} if case == "one" else set())
            con = f"{q}:{case}:anonymous={anon}:missing={missing}"
            evs = [e for e in it.allevents.values() if UP(e)]
            if case == "none" or anon or missing and case == "several":
                evs = [e for e in evs if not (case == "one" and T(e.recv) == "elem(symbols)" and missing)]
                if case == "one":
                    continue
                ctx.ob(R, con, not evs, "the use of nothing, or of something without a name, is recorded", it.fi.loc())
                continue
            if case == "one" and missing:
                continue
            every(ctx, R, con, evs, lambda e: (T(e.recv) in ("symbols", "elem([symbols])", "elem(symbols)")) and re.fullmatch(r"(cls|Timestamp)\.current\(\)", arg(e, 0, "used_time") or "") and arg(e, 1, "used_node") == "used_node" and arg(e, 2, "exclude_ns") == "exclude_ns", "the use is not recorded as it happened", lambda e: e.loc())
            its = [i for i in it.iterations if i.iter is not None and T(i.iter) in ("symbols", "range(len(symbols))", "list(symbols)")]
            if case == "one":
                ctx.ob(R, con + ": single", any(T(e.recv) in ("symbols", "elem([symbols])", "elem((symbols,))", "elem({symbols})") for e in evs), "the use of a single symbol is not recorded", it.fi.loc())
            if case == "several":
                ctx.ob(R, con + ": all", bool(its) and all(i.kind != "break" and any(UP(x) for x in i.events) for i in its), "the use of some symbols is not recorded", it.fi.loc())
    q = "Symbol.update_usage_info_one_timestamp"
    for static, before, vis in itertools.product((True, False), repeat=3):
        o = O().when(r"^(truth\()?is_static\)?$", static).when(r"^\(?(updated_time < used_time|used_time > updated_time)\)?$", before).when(r"^\(?(used_time <= updated_time|updated_time >= used_time)\)?$", not before).when(r"\.is_visible\)?$", vis)
        it = ctx.run(q, o, lambda e: CALL(e) or e.kind in ("enter", "exit"), onlyraise=set())
        con = f"{q}:static={static}:before={before}:visible={vis}"
        for e in returns(it):
            deps = [x for x in e.trace if x.is_call("add_data_dep")]
            ctx.ob(R, con + ": edge", len(deps) == (1 if static or before else 0) and all([T(y) for y in x.b] == ["used_time", "updated_time", "self"] for x in deps), "no use of the update, or one that did not precede it, is recorded as a dependency", it.fi.loc(e.node))
            ctx.ob(R, con + ": graph", all(within(e.trace, x, r"slicing_context\((is_static=)?is_static\)") for x in deps), "recorded in the wrong graph", it.fi.loc(e.node))
            v = oval(e, o)
            ctx.ob(R, con + ": counts", v is (vis if static else before), f"counts as a use: {T(e.value)[:60]}", it.fi.loc(e.node))
        ctx.ob(R, con + ": ends", bool(returns(it)), "does not end", it.fi.loc())
    q = "Symbol.update_usage_info"
    ONE = lambda e: e.is_call("update_usage_info_one_timestamp")
    for static, given, blocked, node, ns, usage, uninit, now in itertools.product((True, False), repeat=8):
        if blocked and (usage or uninit) or uninit and usage or ns and (uninit or usage) or not now and not (usage and given and node):
            continue
        o = O().when(r"^(truth\()?is_static\)?$", static).when(IS("used_time", "None"), not given).when(r"^(truth\()?is_blocking\)?$", blocked).when(r"blocking_node_ids\)?$", False).when(r"is_dev_mode", False)
        o.when(IS("used_node", "None"), not node).when(r"^(truth\()?exclude_ns\)?$", not ns).when(r"^(truth\()?self\.update_usage_info_one_timestamp\(", usage).when(r"^(truth\()?elem\(self\.updated_timestamps\)\.is_initialized\)?$", not uninit)
        o.when(r"^(truth\()?(used_time|Timestamp\.current\(\))\.is_initialized\)?$", now)
        it = ctx.run(q, o, CALL, onlyraise=set())
        con = f"{q}:static={static}:time={given}:blocked={blocked}:node={node}:members={ns}:use={usage}:unset={uninit}:now={now}"
        tm = "used_time" if given else "Timestamp.current()"
        its = loops_over(it, r"^(sorted\(self\.updated_timestamps|self\.updated_timestamps)")
        its = [i for i in its if i.kind != "collect"]
        if blocked:
            ctx.ob(R, con + ": blocked", not any(ONE(x) or x.kind == "setitem" for x in it.allevents.values()), "a blocked use is recorded", it.fi.loc())
        else:
            ctx.ob(R, con + ": newest first", bool(its) and all(re.fullmatch(r"sorted\(self\.updated_timestamps, reverse=True\)|reversed\(sorted\(self\.updated_timestamps\)\)", T(i.iter)) for i in its), "updates are not looked at from the newest on", it.fi.loc())
            for i in its:
                c = [x for x in i.events if ONE(x)]
                if uninit:
                    ctx.ob(R, con + ": unset", not c and i.kind == "next", "an update that never happened is used", it.fi.loc())
                    continue
                ctx.ob(R, con + ": update", len(c) == 1 and arg(c[0], 0, "used_time") == tm and arg(c[0], 1, "updated_time") == "elem(self.updated_timestamps)" and arg(c[0], 2, "is_static") == "is_static", "not the use of that update at that time", it.fi.loc())
                ctx.ob(R, con + ": one", (i.kind == "break") is (usage or not static), "goes on to older updates, or not, where it should", it.fi.loc())
        for e in returns(it):
            st = [x for x in e.trace if x.kind == "setitem" and T(x.a) in ("self.timestamp_by_used_time", "self.timestamp_by_liveness_time")]
            walked = any(ONE(x) for x in e.trace)
            if usage and walked and now:
                ctx.ob(R, con + ": recorded", len(st) == 1 and T(st[0].a).endswith("liveness_time" if static else "used_time") and T(st[0].b) == tm and re.fullmatch(INIT + r"|elem\(self\.updated_timestamps\)", T(st[0].c)) is not None, "the use is not recorded, or not as what it is", it.fi.loc(e.node))
                un = [x for x in e.trace if x.kind == "setitem" and T(x.a) == "self.used_node_by_used_time"]
                ctx.ob(R, con + ": where", len(un) == (1 if node else 0) and all((T(x.b), T(x.c)) == (tm, "used_node") for x in un), "where it is used is not recorded", it.fi.loc(e.node))
            else:
                ctx.ob(R, con + ": not recorded", not [x for x in e.trace if x.kind == "setitem" and re.search(r"_by_(used|liveness)_time$", T(x.a))], "a use that is none is recorded", it.fi.loc(e.node))
            ctx.ob(R, con + ": itself", T(e.value) == "self", "gives back something else", it.fi.loc(e.node))
        ms = [i for i in loops_over(it, r"get_namespace_symbols") if i.kind != "collect"]
        if ns:
            def mem(i):
                c = [x for x in i.events if x.is_call("update_usage_info") and T(x.recv).startswith("elem(self.get_namespace_symbols(recurse=True")]
                return i.kind != "break" and len(c) == 1 and arg(c[0], 0, "used_time") == tm and arg(c[0], 2, "exclude_ns") == "True" and arg(c[0], 3, "is_static") == "is_static" and \
                    re.fullmatch(r"is_blocking|True|False|\(?\(?is_blocking or .*\)?|.*blocking_node_ids.*", arg(c[0], 4, "is_blocking") or "") is not None
            ctx.ob(R, con + ": members", bool(ms) and all(mem(i) for i in ms), "the members are not used along with it", it.fi.loc())
        else:
            ctx.ob(R, con + ": members", not ms, "members are used although they are not", it.fi.loc())
    q = "Symbol.get_namespace_symbols"
    for members, first, visited, rec in itertools.product((True, False), repeat=4):
        if first and visited:
            continue
        o = O().when(IS(r"self\.namespace", "None"), not members).when(r"^self\.namespace$", members).when(IS("seen", "None"), first).when(r"^(truth\()?recurse\)?$", rec)
        o.fn(lambda a, s: visited if (a[0] == "in" or a[0] == "cmp" and a[1] == "in") and T(a).startswith(("(self in", "self in")) else None)
        it = ctx.run(q, o, lambda e: CALL(e) or e.kind in ("yield", "yieldfrom"), onlyraise=set())
        con = f"{q}:members={members}:first={first}:visited={visited}:recurse={rec}"
        its = [i for i in loops_over(it, r"^self\.namespace\.all_symbols_this_indentation\(\)$") if i.kind != "collect"]
        ctx.ob(R, con + ": ends", bool(it.ends), "does not end", it.fi.loc())
        if not members or visited:
            ctx.ob(R, con, not its, "visits members again", it.fi.loc())
            continue
        EL = "elem(self.namespace.all_symbols_this_indentation())"
        for i in its:
            ys = [T(x.a) for x in i.events if x.kind == "yield"]
            rs = [x for x in i.events if x.is_call("get_namespace_symbols") and T(x.recv) == EL]
            ctx.ob(R, con + ": each", EL in ys, "a member is left out", it.fi.loc())
            ctx.ob(R, con + ": nested", len(rs) == (1 if rec else 0) and all(arg(x, 0, "recurse") in ("recurse", "True") and arg(x, 1, "seen") in (("new_set", "{self}") if first else ("seen", "(seen | {self})")) for x in rs), "members of members are left out, or included although not asked for", it.fi.loc())
        ctx.ob(R, con + ": all", bool(its) and all(i.kind != "break" for i in its) and all(any(x.is_call("add") and T(x.b[0]) == "self" for x in e.trace) for e in it.ends if any(x.kind == "iter" for x in e.trace)), "follows cycles forever, or stops early", it.fi.loc())


def api(ctx):
    R = "R5-api"
    q = "_validate"
    for none, sym in ((True, False), (False, True), (False, False)):
        o = O().when(IS("sym", "None"), none)
        isinst(o, "sym", *(["Symbol"] if sym else []))
        it = ctx.run(q, o, CALL, onlyraise=set())
        ctx.ob(R, f"{q}:symbol={sym}:none={none}", bool(it.ends) and all((e.kind == "return" and T(e.value) in ("sym", "cast(Symbol, sym)")) if sym else (e.kind == "raise" and "ValueError" in T(e.value)) for e in it.ends), "what is no symbol is taken for one, or the other way around", it.fi.loc())
    S = r"_validate\(sym\)"
    V = r"(\(not )?elem\({0}\)\.is_anonymous\)?"
    for q, attr in (("deps", "parents"), ("users", "children")):
        fi = ctx.F(q)
        for anon in (True, False):
            o = O().when(r"is_anonymous\)?$", anon)
            it = ctx.run(q, o, lambda e: e.kind in ("collect", "call", "iter"), onlyraise=set())
            es = returns(it)
            BASE = rf"{S}\.{attr}"
            ctx.ob(R, f"{q}: ends", bool(es) and all(re.search(BASE, T(e.value)) or T(e.value) == "new_list" for e in es), f"does not come from the {attr}", fi.loc())
            el = [e for e in es if may_contain(e.value, e.trace)]
            ctx.ob(R, f"{q}:anonymous={anon}", bool(el) is not anon, "something without a name is given back" if anon else "nothing is given back", fi.loc())
            if not anon:
                ctx.ob(R, f"{q}: which", any(re.match(rf"listcomp\(elem\({BASE}(\.keys\(\))?\) for", T(e.value)) for e in el) or any(x.kind == "collect" or x.is_call("append") and re.fullmatch(rf"elem\({BASE}(\.keys\(\))?\)", T(x.b[0])) for e in el for x in e.trace), "something else is given back", fi.loc())
    for q, attr in (("rdeps", "parents"), ("rusers", "children")):
        fi = ctx.F(q)
        it = ctx.run(q, None, CALL, onlyraise=set())
        for e in returns(it):
            tr = [x for x in e.trace if x.is_call("_traverse")]
            t = T(e.value)
            ctx.ob(R, f"{q}: walk", len(tr) == 1 and re.fullmatch(S, T(tr[0].b[0])) is not None and T(tr[0].b[1]) in ("new_set", "set()") and arg(tr[0], 2, "attr") == f"'{attr}'", f"the {attr} are not followed", fi.loc(e.node))
            itself = re.search(rf"new_set - \{{{S}\}}|elem\(new_set\) is not {S}|not \(?({S} is elem\(new_set\)|elem\(new_set\) is {S})|new_set\.difference\(.*{S}|{S} != elem|elem\(new_set\) != {S}", t) is not None or any(x.is_call("discard", "remove") and re.fullmatch(S, T(x.b[0])) for x in e.trace)
            ctx.ob(R, f"{q}: itself", itself, "the symbol itself is given back", fi.loc(e.node))
            ctx.ob(R, f"{q}: named", re.search(r"if .*\(?not .*is_anonymous", t) is not None and "new_set" in t, "what has no name is given back, or not what was found", fi.loc(e.node))
        ctx.ob(R, f"{q}: ends", bool(returns(it)), "does not end", fi.loc())
    q = "_traverse"
    for visited in (True, False):
        o = O().fn(lambda a, s: visited if a[0] == "in" or a[0] == "cmp" and a[1] == "in" else None)
        it = ctx.run(q, o, CALL, onlyraise=set())
        ctx.ob(R, f"{q}:visited={visited}: ends", bool(returns(it)), "does not end", it.fi.loc())
        if visited:
            ctx.ob(R, f"{q}:visited", not any(x.is_call("_traverse") for x in it.allevents.values()), "follows cycles forever", it.fi.loc())
            continue
        for e in returns(it):
            i = [n for n, x in enumerate(e.trace) if x.is_call("add") and [T(x.recv), T(x.b[0])] == ["seen", "sym"]]
            r = [n for n, x in enumerate(e.trace) if x.is_call("_traverse")]
            ctx.ob(R, f"{q}: found", bool(i) and all(i[0] < n for n in r), "what was found is not kept, or too late", it.fi.loc(e.node))
        its = loops_over(it, r"getattr\(sym, attr\)")
        ctx.ob(R, f"{q}: all", bool(its) and all(i.kind != "break" and [[T(y) for y in x.b] for x in i.events if x.is_call("_traverse")] == [["elem(getattr(sym, attr))", "seen", "attr"]] for i in its), "not everything that is related is followed", it.fi.loc())
    for q, want in (("lift", S), ("code", S + r"\.code\(\*\*kwargs\)"), ("timestamp", S + r"\.timestamp"), ("watchpoints", S + r"\.watchpoints"), ("has_tag", S + r"\.has_tag\(tag_value\)")):
        value(ctx, R, q, None, lambda e, want=want: re.fullmatch(want, T(e.value)), "does not give what was asked for")
    for q, call, args in (("mutate", "mutate", []), ("set_tag", "add_tag", ["tag_value"]), ("unset_tag", "remove_tag", ["tag_value"])):
        it = ctx.run(q, None, CALL, onlyraise=set())
        every(ctx, R, q, returns(it), lambda e: [(T(x.recv), [T(y) for y in x.b]) for x in e.trace if x.is_call(call)] == [("_validate(sym)", args)], "does not do what was asked for", lambda e: it.fi.loc(e.node))
    for q, m in (("Symbol.add_tag", "add"), ("Symbol.remove_tag", "discard")):
        it = ctx.run(q, None, CALL, onlyraise=set())
        every(ctx, R, q, returns(it), lambda e: any(x.is_call(*(["remove", "discard"] if m == "discard" else [m])) and [T(x.recv), T(x.b[0])] == ["self._tags", "tag_value"] for x in e.trace), "the tag is not changed", lambda e: it.fi.loc(e.node))
    value(ctx, R, "Symbol.has_tag", None, lambda e: re.fullmatch(r"\(?tag_value in self\._tags\)?", T(e.value)), "does not say whether it has the tag")


def relatives(ctx):
    R = "R6-relatives"
    for what in ("parents", "children"):
        for kind in ("dynamic_", "static_", ""):
            q = f"SliceableMixin.{kind}{what}"
            raw = f"self.raw_{kind}{what}"
            value(ctx, R, q, None, lambda e: re.match(rf"dictcomp\(\(?self\.from_id\(elem\({re.escape(raw)}\)\), {re.escape(raw)}\[elem\({re.escape(raw)}\)\]\)? for", T(e.value)) and " if " not in T(e.value), "are not those that were recorded")
        fs = [f for f in ctx.ix.funcs.values() if f.qual == f"SliceableMixin.raw_{what}" and len(f.params) == 1]
        ctx.ob(R, f"SliceableMixin.raw_{what}: found", len(fs) <= 1, "defined twice")
        q = f"SliceableMixin.raw_{what}"
        for c in ("DYNAMIC", "STATIC", None):
            o = O()

            def f(a, s, c=c):
                t = T(a)
                if "slicing_ctx_var.get()" not in t or a[0] not in ("cmp", "truth"):
                    return None
                if a[0] == "truth":
                    return c is not None if T(a[1]) == "slicing_ctx_var.get()" else None
                m = re.search(r"SlicingContext\.(\w+)", t)
                return (m.group(1) == c) if m else (c is None if "None" in t else None)
            o.fn(f).when(r"is_test\)?$", False)
            it = ctx.run(q, o, CALL, onlyraise=set())
            es = returns(it)
            ctx.ob(R, f"{q}:{c}: ends", bool(es), "gives nothing", it.fi.loc())
            for e in es:
                t = T(e.value)
                if c:
                    ctx.ob(R, f"{q}:{c}", t == f"self.raw_{c.lower()}_{what}", f"the {c.lower()} {what} are {t[:60]}", it.fi.loc(e.node))
            if c is None:
                outer = [i for i in it.iterations if i.iter is not None and T(i.iter).endswith("iter_slicing_contexts()")]
                inner = [i for i in it.iterations if i.iter is not None and re.search(rf"(directional|raw)_{what}", T(i.iter)) and i.kind != "collect"]
                ctx.ob(R, f"{q}: both", bool(outer) and all(i.kind != "break" for i in outer) and bool(inner), "not both kinds are given", it.fi.loc())
                ctx.ob(R, f"{q}: from", all(re.search(rf"(directional|raw)_{what}", T(i.iter)) and not re.search("children" if what == "parents" else "parents", T(i.iter)) for i in inner), "come from elsewhere", it.fi.loc())

                def merged(i):
                    for x in i.events:
                        if x.is_call("update") and re.search(r"setdefault\(elem\(|\[elem\(", T(x.recv)) or x.kind == "aug" and x.b and "|" in str(x.b) or x.kind in ("aug_setitem",):
                            return True
                    return False
                ctx.ob(R, f"{q}: merged", bool(inner) and all(i.kind != "break" and merged(i) for i in inner), "one kind replaces the other", it.fi.loc())
                ctx.ob(R, f"{q}: own", all("new_dict" in T(e.value) or "defaultdict" in T(e.value) for e in es), "what is recorded is given out to be changed", it.fi.loc())


def check(ctx):
    times(ctx)
    ages(ctx)
    versions(ctx)
    uses(ctx)
    api(ctx)
    relatives(ctx)
