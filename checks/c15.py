from .c09 import arg
from .c12 import Raises, final_writes
from .common import *

TITLE = "Captured output"
PROP = dict(
    title="A cell's output is shown and recorded completely, under that cell only",
    statement="Everything a cell writes to standard output or error from the main thread, or displays, is shown as usual and also recorded as that execution's output, each "
              "stream separately and in full, even when the cell wraps or replaces a stream. Recording starts before the cell's first statement and ends, restoring what "
              "it replaced, however the run ends; nothing is recorded for runs that are not traced or that capture their own output. What is retrieved, reproduced or "
              "replayed for an execution is its own recorded output; only an earlier execution's oversized output may be dropped.",
    over=["inputs", "histories", "schedules"],
    qtext="every kind and order of writes and displays, every thread, every outcome of a run",
    why_tests_cant="Tests capture a few prints; a lost stream, a display hook left behind or output filed under another run shows only in combination.",
    files=["core/ipyflow/tracing/output_recorder.py", "core/ipyflow/shell/interactiveshell.py", "core/ipyflow/api/cells.py", "core/ipyflow/data_model/cell.py"],
    mechanism=[("duplicating streams and displays", "tracing/output_recorder.py"), ("when recording is on, where it is stored", "shell/interactiveshell.py"),
               ("retrieving it", "api/cells.py, data_model/cell.py")],
    observe=["what is shown", "stdout(n), stderr(n), reproduce_cell(n)"],
)
TECHNIQUE = "path-sensitive abstract interpretation of the recording code under enumerated stream/thread states, and exception-aware path analysis of start and end"
LEVEL_NOTE = "Covers every path of the recording code; writes that bypass the stream objects (file descriptors, binary buffers, subprocesses) are out of scope."
STD = ("stdout", "stderr")
TEES = {
    "Tee": ("write", "writelines", "flush"),
    "TeeDisplayHook": ("__call__",),
    "TeeDisplayPublisher": ("publish", "clear_output", "set_parent"),
}


def returns(it):
    return [e for e in it.ends if e.kind == "return"]




def assigned(e, regex):
    """last value assigned to a place matching regex on this path"""
    r = None
    for x in e.trace:
        if x.kind == "assign" and re.search(regex, T(x.a)):
            r = x.b
    return r


def getattr_name(t):
    """(object, attribute text) of getattr(o, a) or o.a"""
    if t[0] == "call" and t[1] == ("g", "getattr") and len(t[2]) >= 2:
        return T(t[2][0]), text_of(t[2][1])
    if t[0] == ".":
        return T(t[1]), t[2]
    return None




def forwarding(ctx):
    ix = ctx.ix
    for name, methods in TEES.items():
        ci = ix.classes.get(name)
        if ci is None or "__init__" not in ci.methods:
            ctx.ob("R1-both", name, ci is None, "does not remember what it duplicates to")
            continue
        init = ci.methods["__init__"]
        ps = [p for p in init.params if p != "self"][:2]
        it = ctx.run(init, None, lambda e: e.kind == "assign")
        fields = []
        for p in ps:
            f = [T(x.a)[5:] for e in returns(it) for x in e.trace if x.kind == "assign" and T(x.a).startswith("self.") and T(x.b) == p]
            ctx.ob("R1-both", f"{name}:{p}", bool(f), "one of the two destinations is lost", init.loc())
            fields.append(f[0] if f else p)
        for m in methods:
            fi = ci.methods.get(m)
            if fi is None:
                ctx.ob("R1-both", f"{name}.{m}", False, "is not duplicated: it reaches the first destination only", init.loc())
                continue
            params = [p for p in fi.params if p != "self"]
            it = ctx.run(fi, O().when(r"^hasattr\(", True), lambda e: e.kind == "call", onlyraise=set())
            for f in fields:
                want = re.compile(rf"^self\.{f}$")

                def fwd(e, f=f, m=m, params=params):
                    if e.kind != "call":
                        return False
                    if m == "__call__":
                        if T(e.a) not in (f"self.{f}", f"self.{f}.__call__"):
                            return False
                    elif not (e.is_call(m) and e.recv is not None and want.search(T(e.recv))):
                        return False
                    got = [T(a) for a in e.b] + [T(v) for _, v in e.c or ()]
                    return sorted(g.lstrip("*") for g in got) == sorted(params + stars(fi))
                if m == "writelines":
                    # written as a whole, or line by line
                    W = lambda e: e.is_call("write") and e.recv is not None and T(e.recv) in ("self", f"self.{f}") and [T(a) for a in e.b] == ["elem(lines)".replace("lines", params[0])]
                    whole = bool(returns(it)) and all(any(fwd(x) for x in e.trace) for e in returns(it))
                    # an iterable can be consumed only once
                    once = sum(1 for x in it.allevents.values() if x.is_call("writelines") and x.recv is not None and T(x.recv).startswith("self.")) <= 1 or \
                        any(x.is_call("list", "tuple") for x in it.allevents.values())
                    its = [i for i in it.iterations if i.iter is not None and T(strip_iter(i.iter)) == params[0]]
                    single = len({id(i.node) for i in its}) == 1
                    line = single and all(any(W(x) for x in i.events) for i in its if i.kind in ("next", "break", "return")) and not [i for i in its if i.kind in ("break", "return")]
                    ctx.ob("R1-both", f"{name}.{m}:{f}", (whole and once) or line, "lines do not all reach both destinations", fi.loc())
                    continue
                bad = next((e for e in returns(it) if not any(fwd(x) for x in e.trace)), None)
                ctx.ob("R1-both", f"{name}.{m}:{f}", bool(returns(it)) and bad is None, "does not reach both destinations with the same arguments", fi.loc(bad.node if bad else None))
                n = [sum(1 for x in e.trace if fwd(x)) for e in returns(it)]
                ctx.ob("R1-once", f"{name}.{m}:{f}", all(k <= 1 for k in n), "reaches a destination twice", fi.loc())
            if m == "set_parent":
                for i, f in enumerate(fields):
                    it = ctx.run(fi, O().when(rf"^hasattr\(self\.{fields[1 - i]},", False).when(rf"^hasattr\(self\.{f},", True), lambda e: e.kind == "call")
                    ctx.ob("R1-both", f"{name}.{m}:{f}:alone", bool(returns(it)) and all(any(x.is_call(m) and T(x.recv) == f"self.{f}" for x in e.trace) for e in returns(it)) and not any(
                        x.is_call(m) and T(x.recv) == f"self.{fields[1 - i]}" for x in it.allevents.values()), "is sent to a destination without that operation, or not sent at all", fi.loc())
        g = ci.methods.get("__getattr__")
        ctx.ob("R2-otherwise-first", name, g is not None, "anything but writing fails while recording")
        if g is None:
            continue
        item = [p for p in g.params if p != "self"][0]
        own = lambda v: O().fn(lambda a, s: v if any(re.match(rf"^{item} (in|==) ", x) or re.search(rf" == {item}$", x) for x in atexts(a)) else None)
        it = ctx.run(g, own(True), lambda e: e.is_call("getattr"))
        ctx.ob("R2-otherwise-first", f"{name}:own", bool(it.ends) and all(e.kind == "raise" for e in it.ends), "looking up a missing destination does not end", g.loc())
        for f in fields:
            o = O().fn(lambda a, s, f=f: membership(a, item, f))
            it = ctx.run(g, o, lambda e: e.is_call("getattr"))
            ctx.ob("R2-otherwise-first", f"{name}:own:{f}", bool(it.ends) and all(e.kind == "raise" for e in it.ends), "looking up a missing destination does not end", g.loc())
        o = O().fn(lambda a, s: membership(a, item, "some other name"))
        it = ctx.run(g, o, lambda e: e.is_call("getattr"))
        every(ctx, "R2-otherwise-first", f"{name}:rest", it.ends, lambda e: e.kind == "return" and getattr_name(e.value) in ((f"self.{fields[0]}", item),),
              "other operations do not reach the real destination", lambda e: g.loc(e.node))


def membership(a, item, val):
    """truth of a test comparing ``item`` with constants, when item is ``val``"""
    if a[0] != "cmp":
        return None
    op, l, r = a[1], a[2], a[3]
    if op == "in" and T(l) == item and r[0] in ("tuple", "list", "set") and all(is_const(x) for x in r[1]):
        return val in [x[2] for x in r[1]]
    if op in ("==", "is"):
        for x, y in ((l, r), (r, l)):
            if T(x) == item and is_const(y):
                return y[2] == val
    return None


def stars(fi):
    a = fi.node.args
    return [x.arg for x in (a.vararg, a.kwarg) if x is not None and x.arg not in fi.params]


def proxy(ctx):
    q = "StdstreamProxy._stream"
    fi = ctx.F(q)
    ini = ctx.F("StdstreamProxy.__init__")
    it = ctx.run(ini, None, lambda e: e.kind == "assign")
    ps = [p for p in ini.params if p != "self"]
    fields = {}
    for e in returns(it):
        for x in e.trace:
            if x.kind == "assign" and T(x.a).startswith("self.") and T(x.b) in ps:
                fields[T(x.b)] = T(x.a)
    last = [T(x.a) for e in returns(it) for x in e.trace if x.kind == "assign"]
    ctx.ob("R3-proxy", "StdstreamProxy.__init__", len(fields) == len(ps) == 3, "the proxy forgets the recorder, its name or the stream it stands for", ini.loc())
    if len(fields) != 3:
        return
    rec, name, under = (fields[p] for p in ps)
    TEE, CUR = (rec, "tee_sys_{" + name + "}"), (rec, "sys_{" + name + "}")
    for main in (True, False):
        for inc in (True, False):
            for mine in (True, False):
                for on in (True, False):
                    def f(a, s):
                        ts = atexts(a)
                        if a[0] == "truth" and T(a[1]) == "include_tee":
                            return inc
                        if any("'MainThread'" in x or "main_thread()" in x for x in ts):
                            return main
                        if a[0] == "cmp" and a[1] in ("is", "=="):
                            for x, y in ((a[2], a[3]), (a[3], a[2])):
                                if getattr_name(x) == CUR and T(y) == under:
                                    return mine
                                if getattr_name(x) == TEE and y == NONE:
                                    return not on
                        if a[0] == "truth" and getattr_name(a[1]) == TEE:
                            return on
                        return None
                    it = ctx.run(q, O().fn(f), lambda e: False)
                    want = main and inc and mine and on
                    every(ctx, "R3-proxy", f"{q}:main={main}:recording={on}:include={inc}:installed={mine}", returns(it), lambda e: (
                        getattr_name(e.value) == TEE) == want and (want or T(e.value) == under),
                        "a write is not recorded" if want else "a write is recorded, or does not reach the stream the proxy stands for", lambda e: it.fi.loc(e.node))
    d = fi.node.args.defaults
    ctx.ob("R3-proxy", q + ":default", bool(d) and isinstance(d[-1], ast.Constant) and d[-1].value is True, "recording is off by default", fi.loc())
    q = "StdstreamProxy.__getattr__"
    g = ctx.F(q)
    item = [p for p in g.params if p != "self"][0]
    it = ctx.run(q, None, lambda e: False, opaque={"_stream"})
    every(ctx, "R3-proxy-delegates", q, it.ends, lambda e: e.kind == "return" and getattr_name(e.value) in (("self._stream()", item), ("self._stream(include_tee=True)", item), ("self._stream(True)", item)),
          "an operation on the stream is not passed on", lambda e: g.loc(e.node))
    q = "StdstreamProxy.__setattr__"
    g = ctx.F(q)
    key, val = [p for p in g.params if p != "self"][:2]
    inited = lambda v: O().fn(lambda a, s: v if a[0] == "truth" and "_inited" in T(a[1]) else (not v if a[0] == "cmp" and "_inited" in T(a) and "is" == a[1] else None))
    SET = lambda e: (e.is_call("__setattr__") or e.is_call("setattr")) and [T(a) for a in e.b][-2:] == [key, val]
    REAL = lambda e: SET(e) and re.search(r"self\._stream\((include_tee=)?False\)", T(e.recv) if e.recv is not None and e.is_call("__setattr__") else T(e.b[0])) is not None
    it = ctx.run(q, inited(True), SET, opaque={"_stream"})
    every(ctx, "R3-proxy-delegates", q, returns(it), lambda e: any(REAL(x) for x in e.trace) and not any(SET(x) and not REAL(x) for x in e.trace),
          "setting an attribute does not reach the real stream", lambda e: g.loc(e.node))
    it = ctx.run(q, inited(False), SET, opaque={"_stream"})
    every(ctx, "R3-proxy-delegates", q + ":own", returns(it), lambda e: any(SET(x) and not REAL(x) for x in e.trace), "the proxy cannot be set up", lambda e: g.loc(e.node))
    ctx.ob("R3-proxy-delegates", "StdstreamProxy.__init__:order", bool(last) and last[-1].endswith("._inited"), "the proxy's own attributes are written to the real stream", ini.loc())
    return rec, name, under


def recorder(ctx, under):
    q = "CaptureOutputTee.__enter__"
    fi = ctx.F(q)
    for out, err, disp in ((True, True, True), (True, False, True), (False, True, True), (True, True, False)):
        on = {"stdout": out, "stderr": err, "display": disp}
        o = O().when(r"^self\.stdout$", out).when(r"^self\.stderr$", err).when(r"^self\.display$", disp).when(r"^(shell\(\)|self\.shell) is None$|^None is (shell\(\)|self\.shell)$", False).when(
            r"^(shell\(\)|self\.shell)$", True)
        it = ctx.run(q, o, lambda e: e.kind in ("assign", "call"))
        lab = ",".join(k for k in on if on[k])
        for e in returns(it):
            v = e.value
            io = next((x for x in e.trace if x.is_call("IPyflowCapturedIO")), None)
            ctx.ob("R4-records", f"{q}:{lab}:result", io is not None and T(v).startswith("IPyflowCapturedIO("), "does not hand out what is recorded", fi.loc(e.node))
            if io is None:
                continue
            for i, s in enumerate(STD):
                t = assigned(e, rf"^self\.tee_sys_{s}$")
                ok = t is not None and t[0] == "call" and t[1] == ("g", "Tee") and len(t[2]) + len(t[3] if len(t) > 3 else ()) == 2
                if not on[s]:
                    ctx.ob("R4-records", f"{q}:{lab}:{s}", not ok, "a stream that is not wanted is recorded", fi.loc(e.node))
                    continue
                tgt = [T(x) for x in t[2]] if ok else []
                mk = [x for x in e.trace if x.is_call("StringIO")]
                ctx.ob("R4-records", f"{q}:{lab}:{s}", ok and tgt[:1] == [f"self.sys_{s}"] and tgt[1:] == ["StringIO()"], "does not duplicate the stream into a fresh buffer", fi.loc(e.node))
                a = arg(io, i, s)
                ctx.ob("R4-records", f"{q}:{lab}:{s}:result", ok and a is not None and a == t[2][1], "the recorded buffer is not the one written to", fi.loc(e.node))
                ctx.ob("R4-records", f"{q}:{lab}:{s}:own", len(mk) >= sum((out, err)), "the two streams share a buffer", fi.loc(e.node))
            p = assigned(e, r"(shell\(\)|self\.shell)\.display_pub$")
            sv = assigned(e, r"^self\.save_display_pub$")
            if disp:
                first = [T(x.a) for x in e.trace if x.kind == "assign" and re.search(r"display_pub$", T(x.a))]
                ok = p is not None and p[0] == "call" and p[1] == ("g", "TeeDisplayPublisher") and len(p[2]) == 2 and re.search(r"(shell\(\)|self\.shell)\.display_pub$|^self\.save_display_pub$", T(p[2][0])) is not None
                ctx.ob("R4-records-display", f"{q}:{lab}", ok, "displays are not duplicated", fi.loc(e.node))
                ctx.ob("R4-records-display", f"{q}:{lab}:result", ok and arg(io, 2, "outputs") is not None and T(arg(io, 2, "outputs")) == T(p[2][1]) + ".outputs", "the recorded displays are not those of this run",
                       fi.loc(e.node))
                ctx.ob("R4-records-display", f"{q}:{lab}:saved", sv is not None and re.search(r"(shell\(\)|self\.shell)\.display_pub$", T(sv)) is not None and first[:1] == ["self.save_display_pub"],
                       "what is replaced is not remembered", fi.loc(e.node))
            else:
                ctx.ob("R4-records-display", f"{q}:{lab}", p is None, "displays are duplicated though not wanted", fi.loc(e.node))
            c = assigned(e, r"^self\._in_context$")
            ctx.ob("R4-records", f"{q}:{lab}:active", c == TRUE, "recording is not marked as active, so it never ends", fi.loc(e.node))
            a = arg(io, 3, "exec_ctr")
            ctx.ob("R4-records", f"{q}:{lab}:counter", a is not None and (re.search(r"execution_count", T(a)) is not None), "the run whose value is shown again is not remembered", fi.loc(e.node))
        ctx.ob("R4-records", f"{q}:{lab}", bool(returns(it)), "recording cannot start", fi.loc())
    q = "CaptureOutputTee.__exit__"
    fi = ctx.F(q)
    W = lambda e: e.kind == "assign"
    base = lambda c: O().when(r"^self\._in_context$", c).when(r"^self\.(stdout|stderr|display)$", True).when(r"^self\.shell$", True).when(r"^self\.shell is None$", False)
    it = ctx.run(q, base(True), W)
    for e in returns(it):
        for s in STD:
            ctx.ob("R5-ends", f"{q}:{s}", assigned(e, rf"^self\.tee_sys_{s}$") == NONE, "a stream keeps being recorded", fi.loc(e.node))
        p = assigned(e, r"^(self\.shell|shell\(\))\.display_pub$")
        ctx.ob("R5-ends", f"{q}:display", p is not None and T(p) == "self.save_display_pub", "displays keep being duplicated", fi.loc(e.node))
        ctx.ob("R5-ends", f"{q}:inactive", assigned(e, r"^self\._in_context$") == FALSE, "still marked as active", fi.loc(e.node))
        ctx.ob("R5-ends", f"{q}:errors", e.value is None or e.value == NONE or e.value == FALSE, "swallows errors", fi.loc(e.node))
    ctx.ob("R5-ends", q, bool(returns(it)), "recording cannot end", fi.loc())
    it = ctx.run(q, base(False), W)
    every(ctx, "R5-ends", q + ":inactive", returns(it), lambda e: not e.trace, "something is restored although nothing was replaced", lambda e: fi.loc(e.node))
    for nm, want in (("TeeCompatibleCapturingDisplayPublisher.clear_output", r"^self\.outputs$"),):
        it = ctx.run(nm, None, lambda e: e.kind in ("call", "assign", "aug"))
        every(ctx, "R4-cleared", nm, returns(it), lambda e: any(call_on(x, want, "clear") or (x.kind == "call" and "self.outputs" in repr(x) and "del" in repr(x)) for x in e.trace),
              "a cleared display is still recorded", lambda e: it.fi.loc(e.node))
    # ---- starting
    q = "OutputRecorder.init_module"
    fi = ctx.F(q)
    cls = ctx.ix.classes["OutputRecorder"]
    deco = [ast.unparse(d) for d in fi.node.decorator_list]
    ctx.ob("R6-starts", q + ":event", any("init_module" in d for d in deco), "does not run when a cell starts", fi.loc())
    for po in (True, False):
        for pe in (True, False):
            st = {"stdout": po, "stderr": pe}
            o = O()
            for s in STD:
                o.fn(lambda a, x, s=s: st[s] if a[0] == "truth" and re.match(rf"isinstance\(sys\.{s}, (\w+\.)?StdstreamProxy\)$", T(a[1])) else None)
            it = ctx.run(q, o, lambda e: e.kind in ("assign", "call"))
            for e in returns(it):
                for s in STD:
                    new = assigned(e, rf"^sys\.{s}$")
                    lab = f"{q}:{s}:{'installed' if st[s] else 'replaced'}:{po}{pe}"
                    uf = under[5:]
                    if st[s]:
                        ctx.ob("R6-starts", lab, new is None or T(new) == f"sys.{s}", "the stream is wrapped again at every cell", fi.loc(e.node))
                        cur = rf"sys\.{s}\.{uf}"
                    else:
                        ok = new is not None and new[0] == "call" and new[1][-1] == "StdstreamProxy" and [T(x) for x in new[2]] == ["self.capture_output_tee", repr(s), f"sys.{s}"]
                        ctx.ob("R6-starts", lab, ok, "a stream a cell has replaced is not recorded any more", fi.loc(e.node))
                        cur = rf"(StdstreamProxy\(self\.capture_output_tee, '{s}', sys\.{s}\)\.{uf}|sys\.{s}(\.{uf})?)"
                    v = assigned(e, rf"^self\.capture_output_tee\.sys_{s}$")
                    ctx.ob("R6-target", lab, v is not None and re.fullmatch(cur, T(v)) is not None, "what is recorded goes to another stream than the one in place", fi.loc(e.node))
                ks = ["enter" if x.is_call("__enter__") else "set" if x.kind == "assign" and re.search(r"capture_output_tee\.sys_", T(x.a)) else "" for x in e.trace]
                ctx.ob("R6-starts", f"{q}:enter:{po}{pe}", ks.count("enter") == 1 and "set" in ks and max(i for i, k in enumerate(ks) if k == "set") < ks.index("enter"),
                       "recording starts before it is known where to", fi.loc(e.node))
                c, i = assigned(e, r"^self\.capture_output$"), assigned(e, r"^self\.capturing_output$")
                ctx.ob("R6-starts", f"{q}:kept:{po}{pe}", c is not None and T(c) == "self.capture_output_tee.__enter__()" and i == TRUE, "what is recorded is not kept", fi.loc(e.node))
            ctx.ob("R6-starts", f"{q}:{po}{pe}", bool(returns(it)), "recording cannot start", fi.loc())
    it = ctx.run("OutputRecorder.__init__", None, lambda e: e.kind == "assign")
    every(ctx, "R6-nothing-kept", "OutputRecorder.__init__", returns(it), lambda e: assigned(e, r"^self\.capture_output$") == NONE and assigned(e, r"^self\.capturing_output$") == FALSE,
          "a run starts out with an earlier run's output", lambda e: it.fi.loc(e.node))
    q = "OutputRecorder.done_capturing_output"
    EX = lambda e: e.is_call("__exit__") and T(e.recv) == "self.capture_output_tee"
    for c in (True, False):
        it = ctx.run(q, O().when(r"^self\.capturing_output$", c), lambda e: e.kind in ("assign", "call"))
        if c:
            every(ctx, "R5-ends", q, returns(it), lambda e: sum(EX(x) for x in e.trace) == 1 and assigned(e, r"^self\.capturing_output$") == FALSE, "recording does not end", lambda e: it.fi.loc(e.node))
        else:
            every(ctx, "R5-ends", q + ":off", returns(it), lambda e: not any(EX(x) for x in e.trace), "recording ends twice", lambda e: it.fi.loc(e.node))


def shell_side(ctx):
    S = "IPyflowInteractiveShell."
    q = S + "run_cell"
    fi = ctx.F(q)
    DONE = lambda e: e.is_call("done_capturing_output")
    RST = lambda e: (e.kind == "call" and "_reset_should_capture_output" in T(e.a)) or (assigns(e, r"^self\._should_capture_output$") and e.b == FALSE)
    RUN = lambda e: e.is_call("run_cell")
    it = ctx.run(q, None, lambda e: DONE(e) or RST(e) or RUN(e) or e.kind == "call", onlyraise={"run_cell"})
    for k in ("return", "raise"):
        ends = [e for e in it.ends if e.kind == k and any(RUN(x) for x in e.trace)]
        every(ctx, "R7-always-ends", f"{q}:{k}", ends, lambda e: any(DONE(x) for x in e.trace[next(i for i, x in enumerate(e.trace) if RUN(x)):]), "recording goes on after the run", lambda e: fi.loc(e.node))
        every(ctx, "R7-always-ends", f"{q}:{k}:switch", ends, lambda e: any(RST(x) for x in e.trace), "the next run records although it should not", lambda e: fi.loc(e.node))
    recv = [T(e.recv) for e in it.allevents.values() if DONE(e)]
    ctx.ob("R7-always-ends", f"{q}:recorder", bool(recv) and all(re.search(r"tee_output_tracer|OutputRecorder\.instance\(\)", r) for r in recv), "another recorder is ended", fi.loc())
    for f in (S + "run_cell_async", S + "_ipyflow_run_cell", S + "after_run_cell", S + "_handle_output", S + "_tracing_context", S + "cleanup_tracers",
              "DataflowTracer.finish_cell_hook"):
        ctx.never("R7-until-the-end", f, lambda e: DONE(e) or e.is_call("__exit__") and "capture_output_tee" in T(e.recv), why="what post-execution hooks show is not recorded",
                  opaque={"before_run_cell", "_handle_memoization", "_safety_precheck_cell", "gc", "_resync_symbols"})
    it = ctx.run(S + "_reset_should_capture_output", None, lambda e: e.kind == "assign")
    every(ctx, "R7-always-ends", S + "_reset_should_capture_output", returns(it), lambda e: assigned(e, r"^self\._should_capture_output$") == FALSE, "recording stays switched on", lambda e: it.fi.loc(e.node))
    # ---- which runs are recorded
    q = S + "_ipyflow_run_cell"
    fi = ctx.F(q)
    for on in (True, False):
        for cap in (True, False):
            o = O().fn(lambda a, s: on if a[0] == "truth" and T(a[1]).endswith("dataflow_enabled") else (cap if a[0] == "truth" and "startswith('%%capture')" in T(a[1]) else None))
            it = ctx.run(q, o, lambda e: assigns(e, r"^self\._should_capture_output$") or e.is_call("_tracing_context", "run_cell_async", "startswith"),
                         opaque={"before_run_cell", "after_run_cell", "_tracing_context", "on_exception", "transform_cell"})
            evs = [e for e in it.allevents.values() if assigns(e, r"^self\._should_capture_output$")]
            vals = {r".*dataflow_enabled$": on, r"startswith\('%%capture'\)": cap}
            every(ctx, "R8-which-runs", f"{q}:traced={on}:captures-itself={cap}", evs, lambda e: bval(e.b, vals) is (on and not cap),
                  "a run is not recorded" if on and not cap else "a run that is not traced or captures its own output is recorded", lambda e: e.loc())
            bad = [e for e in it.ends if any(x.is_call("_tracing_context", "run_cell_async") for x in e.trace) and not (
                e.trace and next((x for x in e.trace if not x.is_call("startswith")), e.trace[0]).kind == "assign")]
            ctx.ob("R8-which-runs", f"{q}:before:{on}{cap}", not bad, "whether to record is decided after recording would start", fi.loc())
            if on:
                sw = [e for e in it.allevents.values() if e.is_call("startswith") and e.b and T(e.b[0]) == "'%%capture'"]
                ctx.ob("R8-which-runs", f"{q}:magic", bool(sw) and all(re.search(r"strip\(\)$", T(e.recv)) and ("before_run_cell" in T(e.recv) or "raw_cell" in T(e.recv)) for e in sw), "a run capturing its own output is not recognised",
                       fi.loc())
    q = S + "_tracing_context"
    fi = ctx.F(q)
    for want in (True, False):
        for isrec in (True, False):
            o = O().when(r"^self\._should_capture_output$", want).fn(lambda a, s: isrec if a[0] == "cmp" and a[1] in ("is", "==") and "OutputRecorder" in T(a) and "elem(" in T(a) else None)
            it = ctx.run(q, o, lambda e: adds_tracer(e), opaque={"before_enter_tracing_context", "_restore_meta_path", "_syntax_transform_only_tracing_context"})
            keep = [e for e in it.allevents.values() if adds_tracer(e)]
            ctx.ob("R8-recorder-used", f"{q}:wanted={want}:recorder={isrec}", bool(keep) == (want or not isrec),
                   "the recorder takes part although the run is not recorded" if isrec and not want else "a tracer is left out", fi.loc())
    it = ctx.run(S + "_initialize", None, lambda e: e.kind == "assign", implicit_exc=False)
    for e in returns(it):
        v = assigned(e, r"^self\.registered_tracers$")
        ctx.ob("R8-recorder-used", S + "_initialize", v is not None and v[0] == "list" and any(T(x) == "OutputRecorder" for x in v[1]), "recording is not part of tracing", it.fi.loc())
        t = assigned(e, r"^self\.tee_output_tracer$")
        ctx.ob("R8-recorder-used", S + "_initialize:same", t is not None and T(t) == "OutputRecorder.instance()", "the recorder asked for output is not the one recording", it.fi.loc())
    # ---- where it is stored
    q = S + "_handle_output"
    fi = ctx.F(q)
    CUR = r"(Cell|cls|cells\(\))\.current_cell\(\)"
    PREV = r"(Cell|cells\(\))\.at_timestamp\(.*\.history\[-2\]\)"
    PUT = lambda e: assigns(e, r"\.captured_output$")
    WARN = r"\.warn_out_of_order_usages$"
    for have in (True, False):
        o = O().fn(lambda a, s: (not have) if a[0] == "cmp" and a[1] in ("is", "==") and NONE in (a[2], a[3]) and re.search(rf"^\(?(cell|{CUR})\.captured_output", T(a)) else None)
        it = ctx.run(q, o, lambda e: PUT(e) or e.kind == "call")
        for e in returns(it):
            own = [x for x in e.trace if PUT(x) and re.fullmatch(rf"(cell|{CUR})\.captured_output", T(x.a))]
            if have:
                ctx.ob("R9-stored", f"{q}:present", not own, "a replayed output is overwritten", fi.loc(e.node))
            else:
                ctx.ob("R9-stored", f"{q}:absent", len(own) == 1 and re.search(r"(tee_output_tracer|OutputRecorder\.instance\(\))\.capture_output$", T(own[0].b)) is not None,
                       "the output is not stored with the run", fi.loc(e.node))
        ctx.ob("R9-stored", f"{q}:{have}", bool(returns(it)), "cannot store output", fi.loc())
    BIG = lambda a: a[0] == "cmp" and any(re.search(r"_CAPTURE_OUTPUT_SAVE_LIMIT|LIMIT|2097152|1048576", x) for x in atexts(a))
    for second in (True, False):
        for big in (True, False):
            for has in (True, False):
                def f(a, s):
                    if a[0] == "cmp" and any(re.search(r"len\(.*\.history\)", x) for x in atexts(a)):
                        return hist(a, 2 if second else 1)
                    if BIG(a):
                        return big_truth(a, big)
                    if a[0] == "cmp" and a[1] in ("is", "==") and NONE in (a[2], a[3]):
                        o = a[2] if a[3] == NONE else a[3]
                        if re.fullmatch(PREV + r"\.captured_output", T(o)):
                            return not has
                        if re.fullmatch(PREV, T(o)):
                            return False
                    return None
                it = ctx.run(q, O().fn(f).when(WARN, False), lambda e: PUT(e) or e.is_call("show"))
                drop = [e for e in it.allevents.values() if PUT(e) and re.match(PREV, T(e.a))]
                if second and big and has:
                    every(ctx, "R10-dropped", f"{q}:large", returns(it), lambda e: any(PUT(x) and re.match(PREV, T(x.a)) and x.b == NONE for x in e.trace), "oversized output of earlier runs is kept", lambda e: fi.loc(e.node))
                else:
                    ctx.ob("R10-dropped", f"{q}:earlier={second}:large={big}:recorded={has}", not drop, "output within the limit is dropped", fi.loc())
    # sizes are taken of text
    it = ctx.run(q, None, lambda e: e.is_call("len"))
    for e in it.allevents.values():
        if e.is_call("len") and re.search(r"\.data\.(values|items)\(\)|\.data\[", T(e.b[0])) is not None:
            t = T(e.b[0])
            ok = t.startswith(("str(", "repr(")) or any("isinstance" in T(a[1]) and v is True for a, v in dict(e.facts).items() if a[0] == "truth") or e.b[0][0] == "ifexp" or \
                any(a[0] == "truth" and "hasattr" in T(a[1]) and v is True for a, v in dict(e.facts).items())
            ctx.ob("R10-sizes", q, ok, "takes the length of displayed data that has none", e.loc())
    q = S + "after_run_cell"
    it = ctx.run(q, None, lambda e: e.is_call("_handle_output", "_handle_memoization", "gc") or e.kind == "return", opaque={"_handle_output", "_handle_memoization"})
    every(ctx, "R9-stored-first", q, returns(it), lambda e: any(x.is_call("_handle_output") for x in e.trace) and next((x for x in e.trace if x.kind == "call")).is_call("_handle_output"),
          "output is stored too late to be remembered with the run", lambda e: it.fi.loc(e.node))


def adds_tracer(e):
    v = e.b if e.kind == "collect" else e.b[0] if e.is_call("append", "add") and e.b else None
    return v is not None and re.fullmatch(r"elem\((list\()?self\.registered_tracers\)?\)\.instance\(\)", T(v)) is not None


def hist(a, n):
    """truth of a comparison between the number of executions and a constant"""
    l, r = a[2], a[3]
    L = n if "history" in T(l) else (l[2] if is_const(l) else None)
    R = n if "history" in T(r) else (r[2] if is_const(r) else None)
    if L is None or R is None:
        return None
    return {"<": L < R, "<=": L <= R, "==": L == R, ">": L > R, ">=": L >= R, "is": L == R}.get(a[1])


def big_truth(a, big):
    """truth of size > LIMIT; sizes equal to the limit are not distinguished"""
    l, r = a[2], a[3]
    lim_left = re.search(r"LIMIT|2097152|1048576", T(l)) is not None
    if a[1] in ("<", "<="):
        return big if lim_left else not big
    if a[1] in (">", ">="):
        return not big if lim_left else big
    return None


def retrieving(ctx):
    for s in STD:
        q = f"api.cells:{s}"
        try:
            fi = ctx.F(q)
        except AnalysisBroken:
            q = s
            fi = ctx.F(q)
        p = fi.params[0]
        NUM = rf"(_to_cell_num\({p}\)|\(?{p}\.cell_num if .*|{p}(\.cell_num)?)"
        CAP = rf"cells\(\)\.at_counter\({NUM}\)\.captured_output"
        for none in (True, False):
            it = ctx.run(q, O().fn(lambda a, st: none if a[0] == "cmp" and a[1] in ("is", "==") and NONE in (a[2], a[3]) and "captured_output" in T(a) else None), lambda e: False)
            every(ctx, "R11-retrieved", f"{s}:none={none}", returns(it), lambda e: (e.value == NONE) if none else re.fullmatch(rf"(str\()?{CAP}\.{s}\)?", T(e.value)) is not None,
                  "retrieves something else than what this run wrote to the stream", lambda e: fi.loc(e.node))
        it = ctx.run(q, None, lambda e: e.is_call("at_counter"), onlyraise={"at_counter"})
        rs = [e for e in it.ends if e.kind == "raise"]
        ks = {T(e.value) if e.value is not None else "" for e in rs}
        ctx.ob("R11-unknown-run", s, handles_keyerror(fi), "asking for a run that never happened is not reported as such", fi.loc())
    q = "_to_cell_num"
    fi = ctx.F(q)
    p = fi.params[0]
    for ts in (True, False):
        it = ctx.run(q, isinst(O(), p, *(["Timestamp"] if ts else ["int"])), lambda e: False)
        every(ctx, "R11-which-run", f"{q}:{ts}", returns(it), lambda e: T(e.value) == (f"{p}.cell_num" if ts else p), "another run is looked up", lambda e: fi.loc(e.node))
    # ---- reproducing
    q = "Cell.reproduce"
    fi = ctx.F(q)
    PRINT = lambda e: e.kind == "call" and T(e.a) in ("print", "print_", "builtins.print")
    SHOW = lambda e: e.is_call("show")
    KW = dict(opaque={"show"})
    for inp in (True, False):
        for out in (True, False):
            for cap, pcap in ((True, True), (True, False), (False, True), (False, False)):
                o = O().when(r"^show_input$", inp).when(r"^show_output$", out).fn(
                    lambda a, s: (not (pcap if "prev_cell" in T(a) else cap)) if a[0] == "cmp" and a[1] in ("is", "==") and NONE in (a[2], a[3]) and "captured_output" in T(a) else (
                        False if a[0] == "cmp" and NONE in (a[2], a[3]) and "prev_cell" in T(a) else None))
                it = ctx.run(q, o, lambda e: PRINT(e) or SHOW(e) or e.kind in ("loop", "iter"), **KW)
                for e in returns(it):
                    who = re.sub(r"^.*\.get\((.*)\.cell_ctr(, None)?\)$", r"\1", T(e.value))
                    sh = [x for x in e.trace if SHOW(x)]
                    pr = [x for x in e.trace if PRINT(x)]
                    lab = f"{q}:input={inp}:output={out}:recorded={cap}"
                    n = len(re.findall(r"\.prev_cell", who))
                    rec = pcap if n else cap
                    ctx.ob("R12-reproduced", lab + ":value", re.search(r"user_ns(\['Out'\]|\.get\('Out'.*?\))\.get\(", T(e.value)) is not None and re.fullmatch(r"self(\.prev_cell)*", who) is not None,
                           "the value shown is not the run's own", fi.loc(e.node))
                    ctx.ob("R12-reproduced", lab + ":output", (len(sh) == 1 and T(sh[0].recv) == who + ".captured_output" and [T(v) for _, v in sh[0].c or ()] + [T(b) for b in sh[0].b] == ["False"]) if out and rec else not sh,
                           "the output shown is not the run's own", fi.loc(e.node))
                    ctx.ob("R12-reproduced", lab + ":input", any(re.fullmatch(rf"\(?{re.escape(who)}\.executed_content( or '')?\)?", T(x.b[0])) for x in pr) if inp else not pr, "the input shown is not the run's own", fi.loc(e.node))
                    it_n = sum(1 for x in e.trace if x.kind == "iter")
                    if not any(x.kind == "iter" for x in e.trace) or it_n == n:
                        continue
                    ctx.ob("R12-lookback", lab, False, "goes back a different number of runs", fi.loc(e.node))
                ctx.ob("R12-reproduced", f"{q}:{inp}{out}{cap}", bool(returns(it)), "cannot reproduce", fi.loc())
                lo = {T(x.a) for e in it.ends for x in e.trace if x.kind == "loop"}
                ctx.ob("R12-lookback", f"{q}:{inp}{out}{cap}:count", any(re.fullmatch(r"(range|(itertools\.)?repeat)\(((0|None), )?lookback(, 1)?\)", t) for t in lo), "does not go back as far as asked", fi.loc())
    it = ctx.run(q, None, lambda e: e.is_call("max"), **KW)
    every(ctx, "R12-empty", q, [e for e in it.allevents.values() if e.is_call("max")] or [None], lambda e: e is None or len(e.b) > 1 or any(k == "default" for k, _ in e.c or ()),
          "a run without code of its own cannot be reproduced", lambda e: e.loc())
    q = "reproduce_cell"
    it = ctx.run(q, None, lambda e: e.is_call("reproduce"))
    fi = it.fi
    every(ctx, "R12-reproduced", q, [e for e in it.allevents.values() if e.is_call("reproduce")], lambda e: T(e.recv) == f"cells().at_counter({fi.params[0]})" and
          [T(arg(e, i, n)) if arg(e, i, n) is not None else None for i, n in enumerate(("show_input", "show_output", "lookback"))] == ["show_input", "show_output", "lookback"],
          "what is asked for is not passed on", lambda e: e.loc())
    every(ctx, "R12-reproduced", q + ":result", returns(it), lambda e: ".reproduce(" in T(e.value), "the value is lost", lambda e: fi.loc(e.node))
    # ---- showing again
    q = "IPyflowCapturedIO.show"
    fi = ctx.F(q)
    BASE = lambda e: e.is_call("show") and T(e.recv) == "super()"
    HOOK = lambda e: e.is_call("displayhook")
    for r in (True, False):
        for none in (True, False):
            o = O().when(r"^render_out_expr$", r).fn(lambda a, s: none if a[0] == "cmp" and NONE in (a[2], a[3]) and "Out" in T(a) else None)
            it = ctx.run(q, o, lambda e: BASE(e) or HOOK(e))
            every(ctx, "R13-shown", f"{q}:{r}{none}", returns(it), lambda e: sum(BASE(x) for x in e.trace) == 1, "recorded output is not shown", lambda e: fi.loc(e.node))
            hooks = [x for x in it.allevents.values() if HOOK(x)]
            if r and not none:
                every(ctx, "R13-shown", f"{q}:value", returns(it), lambda e: any(HOOK(x) and re.search(r"'Out'.*\.get\(self\._exec_ctr\)", T(x.b[0])) for x in e.trace), "the run's value is not shown", lambda e: fi.loc(e.node))
            else:
                ctx.ob("R13-shown", f"{q}:no-value:{r}{none}", not hooks, "a value is shown although none is wanted", fi.loc())
    it = ctx.run("IPyflowCapturedIO.__init__", None, lambda e: e.kind in ("assign", "call"))
    every(ctx, "R13-shown", "IPyflowCapturedIO.__init__", returns(it), lambda e: T(assigned(e, r"^self\._exec_ctr$") or NONE) == "exec_ctr" and any(
        x.is_call("__init__") and sorted([T(b) for b in x.b] + [T(v) for _, v in x.c or ()]) == ["outputs", "stderr", "stdout"] and [T(b) for b in x.b][:2] == ["stdout", "stderr"] for x in e.trace),
        "what is recorded is not kept", lambda e: it.fi.loc(e.node))
    # ---- memoized runs
    it = ctx.run("Cell._maybe_memoize_params", None, lambda e: e.is_call("MemoizedCellExecution"))
    every(ctx, "R14-remembered", "Cell._maybe_memoize_params", [e for e in it.allevents.values() if e.is_call("MemoizedCellExecution")], lambda e: arg(e, 2, "displayed_output") is not None and T(
        arg(e, 2, "displayed_output")) == "self.captured_output", "a remembered run comes with another run's output", lambda e: e.loc())
    q = "IPyflowInteractiveShell._get_content_for_memoized_run"
    it = ctx.run(q, O().enum(r"memoized_output_level$", "VERBOSE"), lambda e: assigns(e, r"\.captured_output$") or e.is_call("show"), opaque={"get_memoized_counter", "create_and_track", "refresh", "update_obj_ref"})
    rs = [e for e in returns(it) if e.value != NONE]
    every(ctx, "R14-remembered", q, rs, lambda e: any(x.kind == "assign" and T(x.a) == "cell.captured_output" and any(y.is_call("show") and T(y.recv) == T(x.b) for y in e.trace) for x in e.trace),
          "a replayed run does not get the output that is shown for it", lambda e: it.fi.loc(e.node))


def handles_keyerror(fi):
    """KeyError from the lookup becomes ValueError"""
    for t in ast.walk(fi.node):
        if isinstance(t, ast.Try) and any(isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == "at_counter" for s in t.body for c in ast.walk(s)):
            for h in t.handlers:
                if h.type is not None and "KeyError" in ast.unparse(h.type) and any(isinstance(x, ast.Raise) and x.exc is not None and "ValueError" in ast.unparse(x.exc) for s in h.body for x in ast.walk(s)):
                    return True
    # delegated
    for c in ast.walk(fi.node):
        if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id.startswith("_") and c.func.id != "_to_cell_num":
            return None
    return False


def check(ctx):
    forwarding(ctx)
    r = proxy(ctx)
    if r:
        recorder(ctx, r[2])
    shell_side(ctx)
    retrieving(ctx)
