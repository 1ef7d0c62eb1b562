import ast
import itertools

from sa import visitors as V
from sa.interp import subterms
from sa.interp import NONE, mentions

from .common import *

TITLE = "What a cell reads"
PROP = dict(
    title="Static analysis finds every name that a cell reads, in evaluation order",
    statement="What a cell is taken to read covers every part of every statement and expression that Python evaluates when the cell runs: operands inside of method "
              "chains, subscripts, default values, class bodies, decorators, patterns, deleted and nested targets, and the bodies of functions called by name. A read is left "
              "out only if its name was bound earlier on every path that gets there; names bound in only some branches, loops, handlers, cases or operands do not count, and "
              "names local to comprehensions, parameters and class bodies are never confused with the notebook's. Synchronous and asynchronous forms are treated alike. "
              "(Type annotations, and names bound by := inside of a comprehension, are not covered.)",
    over=["programs"],
    qtext="every cell: every kind of statement and expression, in every nesting",
    why_tests_cant="Tests cover a few dozen snippets; a node kind or field that is not visited silently drops dependencies of the cells that use it.",
    files=["core/ipyflow/analysis/live_refs.py", "core/ipyflow/analysis/symbol_ref.py", "core/ipyflow/analysis/mixins.py"],
    mechanism=[("visiting every kind of node", "analysis/live_refs.py"), ("chains of attributes, subscripts and calls", "analysis/symbol_ref.py")],
    observe=["which cells are waiting or ready", "computed dependencies and slices of cells that were not executed"],
)
TECHNIQUE = "abstract interpretation of the visitor methods, one node kind at a time, against a table of Python's evaluation order; tracked set contents decide what may count as bound where"
LEVEL_NOTE = "Decides every node kind of the running Python's grammar; resolution of the names found to the notebook's values is decided only for the steps listed."
CLS = "ComputeLiveSymbolRefs"
SETS = ("dead", "live", "modified")
KILL, SKIP, INSIDE, LHS = "_in_kill_context", "_skip_simple_names", "_inside_attrsub", "_is_lhs"
FLAGS = (KILL, SKIP, INSIDE, LHS)
VISITS = {"visit", "generic_visit", "visit_Assign_target", "visit_target_containers"}
STOP = VISITS | {"push_attributes", "_add_attrsub_to_live_if_eligible"}

# ------------------------------------------------------------------ the grammar
# fields which are not evaluated or are not syntax trees
PLAIN = {"ctx", "op", "ops", "type_comment", "kind", "id", "attr", "arg", "conversion", "names", "module", "level", "simple", "is_async", "type_ignores",
         "type_params", "kwd_attrs", "n", "s"}
COMPS = ("ListComp", "SetComp", "DictComp", "GeneratorExp")
READ, CHAIN, TARGET, BIND, LOCAL, DEFER, SKIPF = "read", "chain", "target", "bind", "local", "defer", "skip"

# evaluation order: a field, or a list of alternatives (each a list of fields)
ORDER = {
    "FunctionDef": ["args", "decorator_list", "name"], "AsyncFunctionDef": ["args", "decorator_list", "name"],
    "ClassDef": ["bases", "keywords", "decorator_list", "body", "name"],
    "Assign": ["value", "targets"], "AnnAssign": ["value", "target"], "AugAssign": ["target", "value"], "NamedExpr": ["value", "target"],
    "For": ["iter", [["target", "body"], ["orelse"]]], "AsyncFor": ["iter", [["target", "body"], ["orelse"]]],
    "While": ["test", [["body"], ["orelse"]]], "If": ["test", [["body"], ["orelse"]]],
    "Try": [[["body", "orelse"], ["handlers*"], ["handlers*'"]], "finalbody"], "TryStar": [[["body", "orelse"], ["handlers*"], ["handlers*'"]], "finalbody"],
    "ExceptHandler": ["type", "name", "body"],
    "Match": ["subject", [["cases*"], ["cases*'"], []]],
    "MatchAs": ["pattern", "name"], "MatchStar": ["name"], "MatchMapping": ["keys", "patterns", "rest"],
    "BoolOp": ["values[0]", [["values[1:]"], []]],
    "IfExp": ["test", [["body"], ["orelse"]]],
    "Lambda": ["args"],
    "withitem": ["context_expr", "optional_vars"],
    "arguments": ["defaults", "kw_defaults"],
    "Call": ["args", "keywords", "func"],
    "Delete": ["targets"],
    "keyword": ["value"],
}
for _k in COMPS:
    ORDER[_k] = ["generators[0].iter", "generators.target", "generators.iter", "generators.ifs"] + (["key", "value"] if _k == "DictComp" else ["elt"])
ROLE = {("Attribute", "value"): CHAIN, ("Subscript", "value"): CHAIN, ("Call", "func"): CHAIN,
        ("Assign", "targets"): TARGET, ("AnnAssign", "target"): TARGET, ("NamedExpr", "target"): TARGET, ("For", "target"): TARGET, ("AsyncFor", "target"): TARGET,
        ("withitem", "optional_vars"): TARGET,
        ("FunctionDef", "name"): BIND, ("AsyncFunctionDef", "name"): BIND, ("ClassDef", "name"): BIND, ("ExceptHandler", "name"): BIND,
        ("MatchAs", "name"): BIND, ("MatchStar", "name"): BIND, ("MatchMapping", "rest"): BIND,
        ("ClassDef", "body"): LOCAL,
        ("FunctionDef", "body"): DEFER, ("AsyncFunctionDef", "body"): DEFER, ("Lambda", "body"): DEFER,
        ("FunctionDef", "returns"): SKIPF, ("AsyncFunctionDef", "returns"): SKIPF, ("AnnAssign", "annotation"): SKIPF, ("arg", "annotation"): SKIPF,
        ("Delete", "targets"): SKIPF,
        ("arguments", "posonlyargs"): DEFER, ("arguments", "args"): DEFER, ("arguments", "vararg"): DEFER, ("arguments", "kwonlyargs"): DEFER, ("arguments", "kwarg"): DEFER}
# kinds with rules of their own (leaves, and constructs without children that are evaluated)
OWN = {"Name", "arg", "Module", "Interactive", "Expression", "FunctionType", "alias", "Import", "ImportFrom", "TypeAlias", "TypeVar", "ParamSpec", "TypeVarTuple",
       "Delete", "comprehension", "Suite", "Param", "AugLoad", "AugStore", "Index", "ExtSlice", "type_ignore", "TypeIgnore"}


def kinds():
    out = []
    for n in dir(ast):
        c = getattr(ast, n)
        if isinstance(c, type) and issubclass(c, ast.AST) and c.__module__ in ("ast", "_ast") and not n.startswith("_") and not c.__subclasses__() and n not in OWN:
            if issubclass(c, (ast.stmt, ast.expr, ast.excepthandler, ast.withitem, ast.keyword, ast.match_case, ast.pattern, ast.arguments)):
                if n in ("Num", "Str", "Bytes", "NameConstant", "Ellipsis", "Constant"):
                    continue
                out.append(n)
    return sorted(out)


def role(k, f):
    if (k, f) in ROLE:
        return ROLE[k, f]
    if f in PLAIN or k in ("MatchSingleton", "Constant", "MatchStar") and f in ("value", "name") or f == "name" and k not in ():
        return None
    return READ


def fields(k):
    if k in COMPS:
        return ORDER[k]
    if k == "BoolOp":
        return ["values[0]", "values[1:]"]
    return [f for f in getattr(ast, k)._fields if role(k, f) is not None]


def order(k):
    if k in ORDER:
        return ORDER[k]
    return [f for f in fields(k)]


def key(k, p):
    """the entry of the tables that a path of visited children belongs to"""
    p = p.replace("[1::]", "[1:]").replace("[:1:]", "[0]")
    prime = "'" if p.endswith("'") or "'" in p else ""
    if k in COMPS and p.startswith("generators"):
        if p.startswith("generators[0]."):
            return "generators[0]." + p.split(".")[1] if p.endswith(".iter") else "generators." + p.split(".")[1].strip("*'")
        return "generators." + p.split(".")[1].strip("*'") if "." in p else "generators"
    if k == "BoolOp" and p.startswith("values["):
        return p.split("]")[0] + "]"
    root = p.split(".")[0].split("[")[0].rstrip("'")
    if root.endswith("*"):
        root = root[:-1]
    if k in ("Try", "TryStar") and root == "handlers" or k == "Match" and root == "cases":
        return root + "*" + prime
    return root


# ------------------------------------------------------------------ what counts as bound
def worlds_before(k, at):
    """sets of fields that have been evaluated for certain when `at` (None: the end) is, for every way to get there"""
    done = [set()]
    for step in order(k):
        if isinstance(step, list):
            for alt in step:
                if at in alt:
                    return [d | set(alt[:alt.index(at) + 1]) for d in done]
            done = [d | set(alt) for d in done for alt in step]
        else:
            done = [d | {step} for d in done]
            if step == at:
                return done
    return done


def certain(k, a, world):
    if len(a) == 1:
        return True
    if a[0] == "visit":
        return a[2] == "" or key(k, a[2]) in world
    if a[0] == "diff":
        return certain(k, a[1], world)
    if a[0] == "and":
        return any(all(certain(k, x, world) for x in c) for c in a[1])
    if a[0] == "name":
        return any(r in (BIND, TARGET) and f in world for (kk, f), r in ROLE.items() if kk == k) and names_itself(k, a)
    return False


def names_itself(k, a):
    t = a[1]
    if k in ("Assign", "AnnAssign", "NamedExpr") and re.search(r"from_string\((f'|\(?.* \+ )", t):
        # the elements of a display bound to a name
        return True
    return re.search(r"\(node(, |\)|\.name|\.rest)", t) is not None


def atom_text(a):
    if a[0] == "visit":
        return f"what `{a[2]}` binds"
    if a[0] == "and":
        return "what " + " and ".join("/".join(sorted(atom_text(x)[5:] for x in c)) for c in a[1])
    if a[0] == "diff":
        return atom_text(a[1])
    return str(a[1])[:80]


class Sweep:
    def __init__(self, ctx):
        self.ctx = ctx
        self.v = V.Visitor(ctx, CLS)
        self.opq = {f"{c}.{m}" for c, m in self.v.methods() if m in STOP}
        self.inl = {f"{c}.{m}" for c, m in self.v.methods() if m not in STOP}
        self.n = 0

    def run(self, fi, kind, oracle=None, **more):
        o = (oracle or O()).fn(V.kind_oracle(dict({"": kind}, **more))).enum("flow_order", "IN_ORDER")
        ps = [p for p in fi.params if p != "self"]
        return self.ctx.run(fi, o, lambda e: True, params={ps[0]: ("var", "node")} if ps else None, snap=set(SETS), inline=self.inl, opaque=self.opq)

    def replay(self, end, kinds=None):
        f = V.kind_oracle(kinds or {})

        def decide(t):
            neg = False
            while t[0] == "not":
                neg, t = not neg, t[1]
            d = f(("truth", t), None)
            return None if d is None else d != neg
        return V.Replay(end.trace, SETS, FLAGS, visits=VISITS, decide=decide)


def feasible(trace):
    """two loops over the same part of the node either both have elements or both have none; displays have the elements they show"""
    seen = {}
    for i, e in enumerate(trace):
        if e.kind != "loop":
            continue
        b = V.elements(e.a)
        p = V.path(b)
        has = any(x.kind == "iter" and x.a == e.a for x in trace[i + 1:i + 2])
        if has and b in (("list", ()), ("tuple", ())):
            return False
        if not has and b[0] in ("list", "tuple") and b[1] and all(x[0] != "*" for x in b[1]):
            return False
        if p is not None and "*" not in p:
            if seen.setdefault(p, has) != has:
                return False
    return True


def flag(r, ob, name):
    return ob.flags[name]


def absent(facts, f):
    """on this path the optional child is not there"""
    for a, v in facts.items():
        for t in atexts(a):
            if t in (f"node.{f} is None", f"None is node.{f}") and v:
                return True
            if t == f"node.{f}" and not v:
                return True
            if t in (f"len(node.{f}) == 0", f"0 == len(node.{f})") and v:
                return True
    return False


def empty_loop(trace, f):
    """a loop over the field that ends without an iteration"""
    for i, e in enumerate(trace):
        if e.kind == "loop" and V.path(V.elements(e.a)) == f:
            if not any(x.kind == "iter" and x.a == e.a for x in trace[i:]):
                return True
    return False


def covered(k, f, r, end, pred, first=False):
    """all of the field is visited (in the mode asked for) on this path"""
    obs = [o for o in r.obs if o.path is not None and pred(o)]
    ks = {o.path.replace("[1::]", "[1:]") for o in obs}
    trace = end.trace
    if k in COMPS and f.startswith("generators."):
        g = f.split(".")[1]
        if any(re.fullmatch(r"generators(\[1:\])?\*\." + g + r"\*?", p) for p in ks):
            return True
        if g == "iter" and first:
            return True
        return empty_loop(trace, "generators") or empty_loop(trace, "generators[1:]") or empty_loop(trace, "generators[1::]")
    if f in ("values[0]", "values[1:]"):
        if f == "values[0]":
            return bool(ks & {"values[0]", "values", "values*"})
        return bool(ks & {"values[1:]", "values[1:]*", "values", "values*"}) or empty_loop(trace, "values[1:]") or empty_loop(trace, "values[1::]") or empty_loop(trace, "values")
    if f in ("generators[0].iter",):
        return bool(ks & {"generators[0].iter"})
    if any(o.path == "" and o.how == "generic_visit" for o in obs):
        return True
    base = f.rstrip("*'")
    if base in ks or base + "*" in ks or f"{base}[0]" in ks and (f"{base}[1:]" in ks or f"{base}[1:]*" in ks):
        return True
    if absent(end.facts, base) or empty_loop(trace, base):
        return True
    sub = {"keywords": ["value"], "items": ["context_expr", "optional_vars"]}.get(base)
    if sub and all(f"{base}*.{s}" in ks for s in sub):
        return True
    return False


def check_kind(ctx, sw, k):
    fi, owner, generic = sw.v.handler(k)
    fs = fields(k)
    if generic:
        # the children are visited one after the other as reads that are certain to happen
        bad = [f for f in fs if role(k, f.split("[")[0]) not in (READ, None) and role(k, f) not in (READ, None)]
        special = k in ORDER and any(isinstance(s, list) for s in ORDER[k]) or k in COMPS
        ctx.ob("R1-kinds", f"{k}: handled like any other node", not bad and not special,
               f"{k} has no treatment of its own: " + ("its " + ", ".join(bad) + " would be taken as read" if bad else "what only some of its parts bind would count as bound"),
               fi.loc() if fi else "")
        return
    if fi is None:
        ctx.ob("R1-kinds", k, False, f"nothing visits {k}")
        return
    expr = V.isa(k, "expr")
    scen = [("", O(), {})]
    if k in ("Call", "Attribute", "Subscript"):
        fld = "func" if k == "Call" else "value"
        scen = []
        for inside in (False, True):
            for ck in ("Name", "Attribute", "Subscript", "Call", "BinOp"):
                scen.append((f"inside={inside} {fld}={ck}", O().when(r"^self\._inside_attrsub$", inside).when(r"node\.value\.id in ", False)
                             .when(r"in self\._func_ast_by_name", False), {fld: ck, "inside": inside}))
    if k in COMPS:
        F, N = r"elem\(.*generators.*\) (is|==) node\.generators\[0\]|^index\(.*\) == 0", r"^0 < index\(|^index\([^()]*\)$"
        scen = [(f"first={b}", O().when(F, b).when(N, not b), {"first": b}) for b in (True, False)]
    if k in ("Try", "TryStar"):
        scen = [(f"leaving handler={b}", O().when(r"isinstance\(.*handlers.*body\[-1\], ", b), {"leaves": b}) for b in (True, False)]
    for label, o, sc in scen:
        more = {f: c for f, c in sc.items() if f in ("func", "value")}
        it = sw.run(fi, k, o, **more)
        con = f"{CLS}:{k}" + (f" {label}" if label else "")
        nret = 0
        for end in it.ends:
            if end.kind != "return" or not feasible(end.trace):
                continue
            nret += 1
            r = sw.replay(end, dict({"": k}, **more))
            paths(ctx, sw, k, fi, con, end, r, fs, expr, sc)
        ctx.ob("R1-kinds", con, nret > 0, f"no way through {fi.qual}", fi.loc())


def paths(ctx, sw, k, fi, con, end, r, fs, expr, sc):
    loc = fi.loc()

    def complete(o):
        ok = o.flags[KILL] in (False, ("entry", KILL))
        return ok and (o.flags[SKIP] is False or not expr and o.flags[SKIP] == ("entry", SKIP))

    def chain_mode(o):
        return o.flags[KILL] in (False, ("entry", KILL))
    # R1: every part is visited
    for f in fs:
        ro = role(k, f) if k not in COMPS else (TARGET if f == "generators.target" else READ)
        if ro in (READ, LOCAL) or ro is None and "[" in f:
            ok = covered(k, f, r, end, complete, sc.get("first"))
            why = f"`{f}` of {k} is not visited as an ordinary read on some path"
            if k == "AnnAssign" and absent(end.facts, "value"):
                ok = True
            ctx.ob("R1-parts-read", f"{con}.{f}", ok, why, loc)
        elif ro == CHAIN:
            ck = sc.get(f, "Name")
            # where the root of a chain is a plain name, the chain stands for it
            need_full = ck == "Call" and k == "Call"
            ok = covered(k, f, r, end, complete if need_full else chain_mode)
            ctx.ob("R1-parts-read", f"{con}.{f}", ok, f"`{f}` of {k} is not visited" + (" as an ordinary read" if need_full else "") + " on some path", loc)
            adds = [e for e in end.trace if e.is_call("_add_attrsub_to_live_if_eligible")]
            if sc["inside"]:
                ctx.ob("R1-whole-chains", con, not adds, f"a part of a longer chain is recorded as a read of its own by {fi.qual}", loc)
            else:
                ok = len(adds) >= 1 and all(re.search(r"SymbolRef\(node\b", T(e.b[0])) for e in adds)
                ctx.ob("R1-chains-read", con, ok, f"{fi.qual} does not record the chain that starts here as read", loc)
                if k != "Call" and ck == "Name":
                    o = [x for x in r.obs if x.path == f]
                    ctx.ob("R1-chains-once", con, all(x.flags[SKIP] is True for x in o),
                           f"the first name of a chain is recorded as a read of its own by {fi.qual}", loc)
        elif ro == TARGET:
            if k == "AnnAssign" and absent(end.facts, "value"):
                ctx.ob("R2-targets-bound", con + ":no value", not any(a[0] != "dead0" and a[0] == "visit" for a in r.final("dead")),
                       "an annotation without a value binds the name", loc)
                continue
            if k in COMPS:
                continue
            ok = covered(k, f, r, end, lambda o: o.how == "visit_target_containers" and o.flags[KILL] in (False, ("entry", KILL)))
            ctx.ob("R1-parts-read", f"{con}.{f}", ok, f"containers that {k} stores into are not visited on some path", loc)
            ok = covered(k, f, r, end, lambda o: o.how == "visit_Assign_target" or o.how == "visit" and o.flags[KILL] is True)
            ctx.ob("R2-targets-bound", f"{con}.{f}", ok, f"names that {k} assigns are not recorded as bound on some path", loc)
        elif ro == BIND:
            if absent(end.facts, f) or any(V.show(t).endswith("node.rest") for t in ()):
                continue
            none_name = any(v and any(re.search(r"node\.(name|rest) is None", t) for t in atexts(a)) for a, v in end.facts.items()) or any(
                not v and any(re.fullmatch(r"node\.(name|rest)", t) for t in atexts(a)) for a, v in end.facts.items())
            if none_name:
                continue
            ok = any(a[0] == "name" and names_itself(k, a) for a in r.final("dead"))
            ctx.ob("R2-targets-bound", f"{con}.{f}", ok, f"the name that {k} binds is not recorded as bound on some path", loc)
        elif ro == DEFER:
            bad = [o for o in r.obs if o.path is not None and o.path.split(".")[0].split("[")[0].rstrip("*") == f or o.path == ""]
            ctx.ob("R3-deferred", f"{con}.{f}", not bad, f"the body of a function is visited where it is defined, not where it is called, by {fi.qual}", loc)
    if any(role(k, f) in (TARGET, LOCAL) for f in fs):
        ctx.ob("R3-not-as-reads", con, not any(o.path == "" for o in r.obs), f"what {k} binds is visited like an operand", loc)
    if k == "ClassDef":
        for o in r.obs:
            if key(k, o.path or "?") == "body":
                ctx.ob("R7-own-functions", con, own_functions(end.trace, o.idx), "methods count as functions of the notebook", o.ev.loc())
    if k == "AugAssign" and any(o.path == "target" for o in r.obs):
        ctx.ob("R4-modified", f"{con}.target itself", any(a[0] == "visit" and a[1] == "live" and a[2] == "target" for a in r.final("modified")),
               "what is assigned in place is not recorded as modified", loc)
    if k in ("Try", "TryStar"):
        for x in end.trace:
            if x.kind == "call" and calls(x, "isinstance") and "handlers" in T(x.b[0]) and "body[-1]" in T(x.b[0]):
                ok = set(re.findall(r"\w+", T(x.b[1]))) <= {"ast", "Raise", "Return", "Continue", "Break"}
                ctx.ob("R2-bound-after", f"{con}: handlers that leave", ok, "names bound before an exception count as bound although a handler goes on", x.loc())
    # R2: what may count as bound while visiting, and afterwards
    catch_all = any(v and any(re.search(r"\.guard is None|None is .*\.guard", t) for t in atexts(a)) for a, v in end.facts.items()) and any(
        v and any(re.search(r"pattern.* is None", t) for t in atexts(a)) for a, v in end.facts.items())
    leaves = sc.get("leaves")
    some_handler = any(e.kind == "iter" and V.path(V.elements(e.a)) == "handlers" for e in end.trace)

    def reachable(w, at):
        if k == "Match" and catch_all and at is None and not any(x.startswith("cases") for x in w):
            return False
        if k in ("Try", "TryStar") and at in (None, "finalbody") and any(x.startswith("handlers") for x in w) and (leaves or not some_handler):
            return False
        return True
    for o in r.obs:
        if o.path is None:
            continue
        at = key(k, o.path)
        in_kill = o.flags[KILL] is True
        if at not in {x for s in order(k) for x in ([y for z in s for y in z] if isinstance(s, list) else [s])}:
            continue
        ws = [w for w in worlds_before(k, at) if reachable(w, at)]
        if k in COMPS:
            ws = [w | {"generators.target"} if at != "generators[0].iter" else w for w in ws]
        if k == "BoolOp" and o.path in ("values", "values*"):
            ws = [set()]
        bad = [a for a in o.sets["dead"] if not all(certain(k, a, w) for w in ws)]
        ctx.ob("R2-bound-before", f"{con}.{at}", not bad, f"while `{at}` of {k} is visited, {', '.join(map(atom_text, bad[:3]))} counts as bound although it may not be", o.ev.loc())
        if not in_kill and not o.how == "visit_target_containers":
            ctx.ob("R2-known-before", f"{con}.{at}", ("dead0",) in o.sets["dead"], f"while `{at}` of {k} is visited, names bound before {k} do not count as bound", o.ev.loc())
            sees = {("For", "body"): "target", ("AsyncFor", "body"): "target"}.get((k, at))
            if k in COMPS and at in ("elt", "key", "value", "generators.ifs"):
                sees = "generators.target"
            if sees:
                have = {key(k, a[2]) for a in o.sets["dead"] if a[0] == "visit"}
                if k in COMPS and empty_loop(end.trace, "generators"):
                    have.add(sees)
                ctx.ob("R2-known-before", f"{con}.{at} after {sees}", sees in have, f"`{at}` of {k} does not know what `{sees}` binds", o.ev.loc())
        # alternatives that come any number of times start from a set of their own each
        if at.rstrip("'").endswith("*"):
            its = [i for i, e in enumerate(end.trace) if e.kind == "iter" and i < o.idx]
            born = r.born.get(o.ids["dead"])
            ctx.ob("R2-own-copies", f"{con}.{at}", born is not None and its and born > its[-1], f"{k}: what one of the {at.rstrip('*')} binds is visible in the next one", o.ev.loc())
    ws = [w for w in worlds_before(k, None) if reachable(w, None)]
    if k in COMPS or k == "ClassDef":
        # names of their own scope never get out
        ws = [w - {"generators.target", "body"} for w in ws]
    fin = r.final("dead")
    bad = [a for a in fin if not all(certain(k, a, w) for w in ws)]
    ctx.ob("R2-bound-after", con, not bad, f"after {k}, {', '.join(map(atom_text, bad[:3]))} counts as bound although it may not be", loc)
    ctx.ob("R2-known-after", con, ("dead0",) in fin and r.same("dead"), f"names bound before {k} do not count as bound after it", loc)
    # R4: reads are kept, and so is what may be modified
    live = r.final("live")
    for o in r.obs:
        if o.path is not None:
            ok = any(a[0] == "visit" and a[1] == "live" and a[2] == o.path and a[3] == o.how.split(".")[-1] for a in live)
            ctx.ob("R4-reads-kept", f"{con}.{key(k, o.path)}", ok, f"what `{o.path}` of {k} reads is dropped", o.ev.loc())
    ctx.ob("R4-reads-kept", con, ("live0",) in live and r.same("live"), f"reads recorded before {k} are dropped", loc)
    if k not in COMPS:
        mod = r.final("modified") | fin
        flat = set()

        def rec(c):
            for a in c:
                flat.add(a)
                if a[0] == "diff":
                    rec([a[1]])
        rec(mod)
        for o in r.obs:
            if o.path is None or key(k, o.path) == "body" and k == "ClassDef" or o.how == "visit_target_containers":
                continue
            ok = any(a[0] == "visit" and a[1] == "dead" and a[2] == o.path for a in flat) and any(a[0] == "visit" and a[1] == "modified" and a[2] == o.path for a in flat)
            ctx.ob("R4-modified", f"{con}.{key(k, o.path)}", ok, f"what `{o.path}` of {k} may bind is not recorded as modified", o.ev.loc())


def own_functions(trace, idx):
    """a copy of the table of known functions is in effect"""
    stack = []
    for x in trace[:idx]:
        if x.kind == "enter" and x.a[0] == "call":
            stack.append(x.a)
        elif x.kind == "exit" and stack:
            stack.pop()
    ts = [T(v) for c in stack for n, v in (c[3] or ()) if n == "_func_ast_by_name"]
    return any(re.match(r"dict\(self\._func_ast_by_name\)|self\._func_ast_by_name\.copy\(|copy\.copy\(|\{\*\*: self\._func|dictcomp\(", t) for t in ts)


def infrastructure(ctx, sw):
    v = sw.v
    # attributes that are set for a while
    q = "SaveOffAttributesMixin.push_attributes"
    it = ctx.run(q, None, lambda e: True, snap={"nothing in particular"})
    n = 0
    for e in it.ends:
        if e.kind != "return":
            continue
        y = next((i for i, x in enumerate(e.trace) if x.kind == "yield"), None)
        ctx.ob("R0-attributes", q, y is not None, "never hands over", it.fi.loc())
        if y is None:
            continue
        pre = [(i, x) for i, x in enumerate(e.trace) if calls(x, "setattr") and i < y]
        post = [x for x in e.trace[y:] if calls(x, "setattr")]
        if not pre or not post:
            continue
        n += 1
        ok = all(T(x.b[0]) == "self" and re.search(r"elem\(kwargs(\.items\(\))?\)\[1\]$|^kwargs\[elem", T(x.b[2])) for _, x in pre)
        ctx.ob("R0-attributes", q + ": set", ok, "the attributes are not set to the values asked for", it.fi.loc())
        olds = [(i, x) for i, x in enumerate(e.trace) if calls(x, "getattr") and T(x.b[0]) == "self"]
        for x in post:
            t = x.b[2]
            # what was put into a dictionary that is read back now
            puts = [(i, z) for i, z in enumerate(e.trace) if z.kind == "setitem" and z.a in set(subterms(t)) and z.a[0] == "new"]
            texts = [T(z.c) for _, z in puts] or [T(t)]
            if not puts and any(k[0] == "new" for k in subterms(t)):
                continue
            ok = T(x.b[0]) == "self" and all(re.search(r"getattr\(self,", u) is not None for u in texts)
            ctx.ob("R0-attributes", q + ": put back", ok, "the attributes do not get their former values back", it.fi.loc())
            at = [k[2] for l in e.trace[y:] if l.kind in ("loop", "iter") for k in subterms(l.a) if k[0] == "snap"] or [i for i, _ in olds]
            ctx.ob("R0-attributes", q + ": saved before", bool(at) and min(at) <= pre[0][0], "attributes are saved after they were set", it.fi.loc())
    ctx.ob("R0-attributes", q + ": all", n > 0 and not any(e.kind == "return" and any(calls(x, "setattr") for x in e.trace) and not any(calls(x, "setattr") for x in e.trace[next(
        (i for i, x in enumerate(e.trace) if x.kind == "yield"), 0):]) and feasible_kwargs(e.trace) for e in it.ends), "attributes are set and never put back", it.fi.loc())
    # a list is visited element by element, None is nothing, and anything else child by child
    chain = []
    f, c = v.lookup("generic_visit")
    while f is not None:
        chain.append((f, c))
        f, c = v.lookup("generic_visit", after=c)
    for kind in ("list", "None", "BinOp", "Await", "Expr", "With", "match_case"):
        modes = set()
        done = None
        for f, c in chain:
            it = sw.run(f, kind, O().when(r"^node is None$", kind == "None"))
            nexts = set()
            for e in it.ends:
                if e.kind != "return" or not feasible(e.trace):
                    continue
                r = sw.replay(e, {"": kind})
                sup = [o for o in r.obs if o.how == "super.generic_visit" and o.path == ""]
                each = [o for o in r.obs if o.how == "visit" and o.path == "*"]
                if sup:
                    modes |= {o.flags[SKIP] for o in sup}
                    nexts.add("super")
                elif each:
                    nexts.add("each")
                elif kind == "list" and any(x.kind == "loop" for x in e.trace):
                    pass
                else:
                    nexts.add("nothing")
                kills = [o for o in r.obs if o.flags[KILL] is True]
                ctx.ob("R0-children", f"{f.qual}:{kind}", not kills, "children are visited as targets", f.loc())
            if nexts != {"super"}:
                done = nexts
                break
        want = {"list": {"each"}, "None": {"nothing"}}.get(kind)
        ok = done == want if want else done is None or done == set()
        ctx.ob("R0-children", f"generic_visit:{kind}", ok, {"list": "lists of nodes are not visited element by element", "None": "a missing child is visited"}.get(
            kind, f"the children of a {kind} are not visited"), chain[0][0].loc() if chain else "")
        if V.isa(kind, "expr"):
            ctx.ob("R0-operands", f"generic_visit:{kind}", False in modes, f"inside of a chain, names in the operands of a {kind} are not taken as read", chain[0][0].loc() if chain else "")
    for c in v.mro:
        f = c.methods.get("visit")
        if f is not None:
            SUP = lambda e: e.kind == "call" and calls(e, "visit") and T(e.a).startswith("super()") and T(e.b[0]) == "node"
            ctx.always("R0-dispatch", f, SUP, params={[p for p in f.params if p != "self"][0]: ("var", "node")}, construct=f.qual, why="a node is not visited")
    q = CLS + ".__call__"
    fi, _ = v.lookup("__call__")
    it = ctx.run(fi, None, lambda e: True, params={fi.params[1]: ("var", "node")}, snap=set(SETS), inline=sw.inl - {q}, opaque=sw.opq)
    for e in it.ends:
        r = sw.replay(e)
        ok = e.value is not None and e.value[0] == "tuple" and [re.sub(r"\W", "", T(x).split(".")[-1]) for x in e.value[1]] == ["live", "dead", "modified"]
        ctx.ob("R0-result", q, ok, f"gives {T(e.value) if e.value else None}, not what is read, bound and modified", fi.loc())
        ctx.ob("R0-result", q + ": visits", any(o.path == "" and o.how == "visit" for o in r.obs), "the code is not visited", fi.loc())
        ctx.ob("R0-result", q + ": modified", ("dead0",) in r.final("modified"), "what is bound is not recorded as modified", fi.loc())
    # statements of a cell
    fi, _ = v.lookup("visit_Module")
    if fi is not None:
        it = sw.run(fi, "Module")
        for e in it.ends:
            if e.kind != "return" or not feasible(e.trace):
                continue
            r = sw.replay(e, {"": "Module"})
            ctx.ob("R1-parts-read", f"{CLS}:Module.body", covered("Module", "body", r, e, lambda o: o.flags[KILL] in (False, ("entry", KILL))),
                   "a statement of the cell is not visited", fi.loc())
            ctx.ob("R2-known-after", f"{CLS}:Module", ("dead0",) in r.final("dead") and all(a[0] != "diff" for a in r.final("dead")), "names bound by statements are forgotten", fi.loc())
        its = [i for i in it.iterations if V.path(V.elements(i.iter)) == "body" and i.kind in ("next", "collect")]
        for i in its:
            xs = [x for x in i.events if calls(x, "visit") or x.kind in ("aug", "assign") and "counter" in T(x.a)]
            if not xs:
                continue
            ok = len(xs) == 2 and calls(xs[0], "visit") and (
                xs[1].kind == "aug" and T(xs[1].b).strip("'") == "+" and T(xs[1].c) == "1" or xs[1].kind == "assign" and re.fullmatch(r"\(*self\._module_stmt_counter( \+ 1\))+", T(xs[1].b)) is not None)
            ctx.ob("R1-statement-numbers", f"{CLS}:Module", ok, "reads are not attributed to the number of their statement", fi.loc())


def feasible_kwargs(trace):
    seen = {}
    for i, e in enumerate(trace):
        if e.kind == "loop" and "kwargs" in T(e.a):
            has = i + 1 < len(trace) and trace[i + 1].kind == "iter"
            if seen.setdefault("kwargs", has) != has:
                return False
        elif e.kind == "loop":
            # what was saved has an element exactly when something was asked for
            has = i + 1 < len(trace) and trace[i + 1].kind == "iter"
            if seen.get("kwargs", has) != has:
                return False
    return True


def ref_atoms(r, oid):
    return [a for a in r.objs[oid] if a[0] == "name"]


def leaves(ctx, sw):
    v = sw.v
    IN = r" in self\.dead$"
    for k, sub in (("Name", r"SymbolRef\(node\b"), ("arg", r"SymbolRef\(node\.arg\b")):
        fi, _, g = v.handler(k)
        ctx.ob("R5-names", k, fi is not None and not g, f"{k} has no treatment of its own", "")
        if fi is None or g:
            continue
        for kill, skip, dead, inc in itertools.product((True, False), repeat=4):
            o = O().when(r"^self\._in_kill_context$", kill).when(r"^self\._skip_simple_names$", skip).when(IN, dead).when(r"^self\._include_killed_live$", inc)
            it = sw.run(fi, k, o)
            con = f"{CLS}:{k} target={kill} in chain={skip} bound={dead} keep={inc}"
            for e in it.ends:
                r = sw.replay(e)
                d, l = ref_atoms(r, r.attrs["dead"]), ref_atoms(r, r.attrs["live"])
                if kill:
                    ctx.ob("R5-names-bound", con, any(re.search(sub, a[1]) and "canonical" in a[1] for a in d), "a name that is assigned is not recorded as bound", fi.loc())
                    ctx.ob("R5-names-bound", con + ": not read", not l, "a name that is assigned is recorded as read", fi.loc())
                    continue
                ctx.ob("R5-names-read", con + ": not bound", not d, "a name that is read is recorded as bound", fi.loc())
                want = not skip and (not dead or inc)
                ctx.ob("R5-names-read", con, bool(l) == want, ("a name that is read is not recorded" if want else "a name is recorded as read although " + (
                    "its chain is" if skip else "it was bound before")), fi.loc())
                for a in l:
                    live_ref(ctx, "R5-names-read", con, a, sub, dead, fi)
                ctx.ob("R4-reads-kept", con, ("live0",) in r.final("live") and ("dead0",) in r.final("dead"), "what was recorded before is lost", fi.loc())
    # chains
    q = "_add_attrsub_to_live_if_eligible"
    fi, _ = v.lookup(q)
    if fi is not None:
        p = fi.params[1]
        tests = []

        def member(which):
            def f(atom, st):
                for t in atexts(atom):
                    if re.search(IN, t):
                        kind = "canonical" if "canonical" in t else "nonreactive" if "nonreactive" in t else "plain" if "is_callpoint=False" in t or "Atom(" in t else "other"
                        tests.append(kind)
                        return kind == which
                return None
            return f
        for which, inc in itertools.product((None, "canonical", "nonreactive", "plain"), (True, False)):
            o = O().fn(member(which)).when(r"^self\._include_killed_live$", inc).when(r"len\(ref\.chain\) == 0|^0 == len", False).when(r"^ref\.chain$", True).when(
                r"^isinstance\(.*str\)$", True)
            it = ctx.run(fi, o, lambda e: True, params={p: ("var", "ref")}, snap=set(SETS), inline=sw.inl, opaque=sw.opq)
            con = f"{CLS}.{q} bound as {which} keep={inc}"
            want = which is None or inc
            for e in it.ends:
                r = sw.replay(e)
                l = ref_atoms(r, r.attrs["live"])
                ctx.ob("R5-chains-read", con, bool(l) == want, "a chain that is read is not recorded" if want else "a chain is recorded as read although its start was bound before", fi.loc())
                for a in l:
                    live_ref(ctx, "R5-chains-read", con, a, r"^LiveSymbolRef\((ref=)?ref\b", which is not None, fi)
        ctx.ob("R5-chains-read", f"{CLS}.{q}: tests", {"canonical", "nonreactive", "plain"} <= set(tests) and "other" not in tests,
               "whether a chain starts at a name that was bound before is not decided by the chain, its first part and that name", fi.loc())
        # subscripts of macros are not reads, unless the name is that of a variable
    fi, _, g = v.handler("Subscript")
    if fi is not None and not g:
        it = sw.run(fi, "Subscript", O().when(r"^self\._inside_attrsub$", False), value="Name")
        skipped = [e for e in it.ends if e.kind == "return" and not any(o.how in ("visit", "generic_visit") for o in sw.replay(e, {"": "Subscript", "value": "Name"}).obs)]
        for e in skipped:
            fs = [(t, v_) for a, v_ in e.facts.items() for t in ([T(a[1]) + (" is None" if v_ else "")] if a[0] == "truth" else atexts(a))]
            neg = [t for t, v_ in fs if v_ is False and re.search(IN, t)]
            none = [t for t, v_ in fs if v_ is True and re.search(r"lookup_symbol_by_name\w*\((name=)?node\.value\.id\) is None", t) or v_ is False and re.fullmatch(r".*lookup_symbol_by_name\w*\((name=)?node\.value\.id\)", t)]
            ctx.ob("R5-macros", f"{CLS}:Subscript", bool(neg) and bool(none), "a subscript of a variable is not taken as read because of its name", fi.loc())
    # chains which do not start at a name are not recorded at all
        o = O().when(r"len\(ref\.chain\) == 0|^0 == len", True).when(r"^ref\.chain$", False).when(IN, False)
        it = ctx.run(fi, o, lambda e: True, params={p: ("var", "ref")}, snap=set(SETS), inline=sw.inl, opaque=sw.opq)
        ctx.ob("R5-chains-read", f"{CLS}.{q}: no start", not any(ref_atoms(sw.replay(e), "live0") for e in it.ends), "a chain without a start is recorded as read", fi.loc())


def live_ref(ctx, rule, con, a, sub, dead, fi):
    t = a[2]
    while t[0] == "snap":
        t = t[1]
    ok = t[0] == "call" and T(t[1]).endswith("LiveSymbolRef")
    ctx.ob(rule, con + ": record", ok and re.search(sub, T(t)) is not None, f"records {T(t)[:80]} as read", fi.loc())
    if not ok:
        return
    kw = dict(t[3])
    pos = list(t[2])
    ts = pos[1] if len(pos) > 1 else kw.get("timestamp")
    lhs = pos[2] if len(pos) > 2 else kw.get("is_lhs_ref")
    kd = pos[3] if len(pos) > 3 else kw.get("is_killed")
    ctx.ob(rule, con + ": statement", ts is not None and T(ts) == "self._module_stmt_counter", "the read is not attributed to its statement", fi.loc())
    ctx.ob(rule, con + ": container", lhs is not None and T(lhs) == "self._is_lhs", "whether only the container is used is lost", fi.loc())
    ok = kd is not None and (T(kd) in ("True", "False") and (T(kd) == "True") == dead or T(kd) not in ("True", "False"))
    ctx.ob(rule, con + ": bound before", ok, "whether the name was bound before is lost", fi.loc())


def targets(ctx, sw):
    v = sw.v
    fi, _ = v.lookup("visit_Assign_target")
    fc, _ = v.lookup("visit_target_containers")
    for k in ("Name", "Attribute", "Subscript", "Tuple", "List", "Starred"):
        it = sw.run(fi, k)
        for e in it.ends:
            if e.kind != "return" or not feasible(e.trace):
                continue
            r = sw.replay(e, {"": k})
            con = f"{CLS}.visit_Assign_target:{k}"
            d = ref_atoms(r, r.attrs["dead"])
            if k in ("Name", "Attribute", "Subscript"):
                ctx.ob("R6-targets", con, any(re.search(r"SymbolRef\(node\b.*canonical\(\)", a[1]) for a in d), f"assigning to a {k} does not record it as bound", fi.loc())
                if k == "Subscript":
                    ctx.ob("R6-targets", con + ": index", any(o.path == "slice" and o.flags[KILL] is False and o.how == "visit" for o in r.obs),
                           "the index of an assigned subscript is not taken as read", fi.loc())
            else:
                f = "value" if k == "Starred" else "elts"
                ctx.ob("R6-targets", con, covered(k, f, r, e, lambda o: o.how == "visit_Assign_target") and not d, f"the targets inside of a {k} are not recorded as bound", fi.loc())
        if fc is None:
            continue
        it = sw.run(fc, k)
        for e in it.ends:
            if e.kind != "return" or not feasible(e.trace):
                continue
            r = sw.replay(e, {"": k})
            con = f"{CLS}.visit_target_containers:{k}"
            if k in ("Attribute", "Subscript"):
                ctx.ob("R6-containers", con, any(o.path == "value" and o.how == "visit" for o in r.obs), f"the container of an assigned {k} is not taken as used", fc.loc())
            elif k != "Name":
                f = "value" if k == "Starred" else "elts"
                ctx.ob("R6-containers", con, covered(k, f, r, e, lambda o: o.how == "visit_target_containers"), f"containers inside of a {k} of targets are not taken as used", fc.loc())
            else:
                ctx.ob("R6-containers", con, not r.obs, "a name that is assigned is taken as used", fc.loc())
    # del
    fi, _, g = v.handler("Delete")
    if not g:
        for k in ("Name", "Attribute", "Subscript"):
            def f(atom, st, k=k):
                if atom[0] == "truth" and atom[1][0] == "call" and atom[1][1] == ("g", "isinstance") and V.path(atom[1][2][0]) == "targets*":
                    return V.kind_oracle({"targets*": k})(atom, st)
                return None
            it = sw.run(fi, "Delete", O().fn(f))
            for e in it.ends:
                if e.kind != "return" or not feasible(e.trace):
                    continue
                r = sw.replay(e, {"": "Delete"})
                con = f"{CLS}:Delete {k}"
                ctx.ob("R6-containers", con, covered("Delete", "targets", r, e, lambda o: o.how == "visit_target_containers"), "the container of something that is deleted is not taken as used", fi.loc())
                if k == "Subscript":
                    ok = empty_loop(e.trace, "targets") or any(o.path == "targets*.slice" and o.how == "visit" for o in r.obs)
                    ctx.ob("R6-containers", con + ": index", ok, "the index of something that is deleted is not taken as read", fi.loc())
    else:
        ctx.ob("R6-containers", f"{CLS}:Delete", False, "what is deleted is taken as read", "")
    # imports
    for k in ("Import", "ImportFrom"):
        fi, _, g = v.handler(k)
        ctx.ob("R6-imports", f"{CLS}:{k}", not g, "imports have no treatment of their own", "")
        if g:
            continue
        for star in (True, False):
            it = sw.run(fi, k, O().when(r"\.name == '\*'|'\*' == ", star).when(r"^isinstance\(None, ", False))
            n = 0
            for e in it.ends:
                if e.kind != "return":
                    continue
                r = sw.replay(e, {"": k})
                its = [x for x in e.trace if x.kind == "iter"]
                for x, u in [(x, u) for x in e.trace if x.kind == "call" and (calls(x, "visit_Assign_target") or x.recv is not None and x.a[2] == "add" and "dead" in T(x.recv))
                             for u in collected(e.trace, x.b[0])]:
                    if "node.names" not in T(u):
                        continue
                    n += 1
                    t = re.sub(r"elem\((?:list|tuple|iter)\(node\.names\)\)", "elem(node.names)", T(u))
                    cond = any("== '*'" in T(l.a) for l in its)
                    ctx.ob("R6-imports", f"{CLS}:{k} *", not star or cond, "`*` is recorded as a bound name", x.loc())
                    if star:
                        continue
                    as_ = [v_ for a, v_ in e.facts.items() for y in atexts(a) if re.fullmatch(r"elem\(node\.names\)\.asname", y)]
                    ok = re.search(r"elem\(node\.names\)\.asname or elem\(node\.names\)\.name", t) is not None or as_ and re.search(
                        r"elem\(node\.names\)\.%s\b" % ("asname" if as_[0] else "name"), t) is not None
                    ctx.ob("R6-imports", f"{CLS}:{k}", bool(ok), "an imported name is not bound under the name it gets", x.loc())
            ctx.ob("R6-imports", f"{CLS}:{k} bound", n > 0 or star, "an imported name is not recorded as bound", fi.loc())


def collected(trace, t):
    """an element of a list that was filled before may be anything that was put there"""
    b = V.elements(t[1]) if t[0] == "elem" else t
    if t[0] == "elem" and b[0] == "new":
        return [x.b[0] for x in trace if x.kind == "call" and x.recv is not None and x.recv[:4] == b[:4] and x.a[2] in ("append", "add")]
    return [t]


def functions(ctx, sw):
    """functions defined in the cell are analysed where they are called by name"""
    v = sw.v
    for k in ("FunctionDef", "AsyncFunctionDef"):
        fi, _, g = v.handler(k)
        if g:
            continue
        it = sw.run(fi, k)
        for e in it.ends:
            if e.kind != "return":
                continue
            ok = any(x.kind == "setitem" and T(x.a) == "self._func_ast_by_name" and T(x.b) == "node.name" and T(x.c) == "node" for x in e.trace)
            ctx.ob("R7-functions", f"{CLS}:{k}", ok, "a function is not remembered for the calls of it", fi.loc())
    fi, _, g = v.handler("Call")
    KNOWN = r"^node\.func\.id in self\._func_ast_by_name$"
    BUSY = r"^node\.func\.id in self\._visiting_func_calls$"
    for known, busy in ((True, False), (True, True), (False, False)):
        o = O().when(KNOWN, known).when(BUSY, busy)
        it = sw.run(fi, "Call", o, func="Name")
        n = 0
        for e in it.ends:
            if e.kind != "return" or not feasible(e.trace):
                continue
            n += 1
            r = sw.replay(e, {"": "Call", "func": "Name"})
            bodies = [x for x in r.obs if x.path is None and re.search(r"self\._func_ast_by_name(\[node\.func\.id\]|\.get\(node\.func\.id\))\.body", T(x.term))]
            con = f"{CLS}:Call known={known} already={busy}"
            if not known or busy:
                ctx.ob("R7-calls", con, not bodies, "the body of a function is visited again and again" if busy else "the body of an unknown function is visited", fi.loc())
                continue
            ctx.ob("R7-calls", con, bool(bodies), "the body of a function that is called by name is not visited", fi.loc())
            for b in bodies:
                d = b.sets["dead"]
                ctx.ob("R7-calls", con + ": bound before", ("dead0",) in d, "names bound before the call do not count as bound in the function", b.ev.loc())
                txt = " ".join(a[1] for a in d if a[0] == "each")
                names = [n for n in ("args", "posonlyargs", "kwonlyargs", "vararg", "kwarg") if re.search(r"\.args\.%s\b|, '%s'" % (n, n), txt) is None]
                ctx.ob("R7-calls", con + ": parameters", not names, f"parameters ({', '.join(names)}) are confused with the notebook's names", b.ev.loc())
                each = [a for a in d if a[0] == "each"]
                ctx.ob("R7-calls", con + ": parameter names", all(re.search(r"from_string\(elem\(.*\)\.arg\b", a[1]) for a in each) and bool(each), "parameters are not bound by their names", b.ev.loc())
                ctx.ob("R7-calls", con + ": mode", b.flags[KILL] in (False, ("entry", KILL)), "the body is visited as a target", b.ev.loc())
                ctx.ob("R7-calls", con + ": names of its own", b.ids["dead"] != "dead0" and b.ids["modified"] != "modified0", "what the function binds counts as bound in the cell", b.ev.loc())
                ctx.ob("R7-own-functions", con, own_functions(e.trace, b.idx), "functions defined inside of a function count as functions of the notebook", b.ev.loc())
                busy_add = [x for x in e.trace[:b.idx] if x.kind == "call" and x.recv is not None and T(x.recv) == "self._visiting_func_calls" and x.a[2] == "add" and T(x.b[0]) == "node.func.id"]
                ctx.ob("R7-calls", con + ": once", bool(busy_add), "a function that calls itself is visited without end", b.ev.loc())
                freed = [x for x in e.trace[b.idx:] if x.kind == "call" and x.recv is not None and T(x.recv) == "self._visiting_func_calls" and x.a[2] in ("discard", "remove")]
                ctx.ob("R7-calls", con + ": again", bool(freed), "a function is visited only for the first call of it", b.ev.loc())
                live = r.final("live")
                ok = any(a[0] == "visit" and a[1] == "live" and a[2].startswith("?") and ".body" in a[2] for a in live)
                ctx.ob("R4-reads-kept", con, ok, "what the function reads is dropped", b.ev.loc())
            ctx.ob("R2-bound-after", con, not any(a[0] == "each" or a[0] == "visit" and a[2].startswith("?") for a in r.final("dead")),
                   "what a function binds counts as bound after the call", fi.loc())
        ctx.ob("R7-calls", f"{CLS}:Call known={known} already={busy}: paths", n > 0, "no path", fi.loc())


SRV = "SymbolRefVisitor"


def chains(ctx, sw):
    v = V.Visitor(ctx, SRV)
    inl = {f"{c}.{m}" for c, m in v.methods() if m not in ("visit", "generic_visit")}
    opq = {f"{c}.{m}" for c, m in v.methods() if m in ("visit", "generic_visit")}

    def run(fi, kinds, o=None):
        o = (o or O()).fn(V.kind_oracle(kinds))
        p = [x for x in fi.params if x != "self"][0]
        return ctx.run(fi, o, lambda e: True, params={p: ("var", "node")}, inline=inl, opaque=opq)

    def atoms(e):
        return [x for x in e.trace if x.kind == "call" and x.recv is not None and T(x.recv) == "self.symbol_chain" and x.a[2] == "append"]

    def visits(e):
        return [V.path(x.b[0]) for x in e.trace if x.kind == "call" and x.recv == ("var", "self") and x.a[2] in ("visit", "generic_visit") and x.b]
    for k in ("Name", "Attribute", "Subscript", "FunctionDef", "AsyncFunctionDef", "ClassDef"):
        fi, _, g = v.handler(k)
        con = f"{SRV}:{k}"
        ctx.ob("R8-chains", con, fi is not None and not g, f"{k} cannot be part of a chain", "")
        if fi is None or g:
            continue
        it = run(fi, {"": k})
        for e in it.ends:
            if e.kind != "return":
                ctx.ob("R8-chains", con, k not in ("Name", "Attribute", "Subscript"), f"{k} cannot be part of a chain", fi.loc())
                continue
            at, vs = atoms(e), visits(e)
            name = {"Name": "node.id", "Attribute": "node.attr"}.get(k, "node.name")
            if k != "Subscript":
                ok = len(at) == 1 and re.match(r"Atom\((value=)?%s\b" % re.escape(name), T(at[0].b[0])) is not None
                ctx.ob("R8-chains", con + ": name", ok, f"the chain does not have the name of the {k}", fi.loc())
            if k in ("Attribute", "Subscript"):
                ctx.ob("R8-chains", con + ": rest", vs == ["value"], f"what a {k} is taken of is not part of the chain", fi.loc())
                ok = not at or e.trace.index(at[0]) < next((i for i, x in enumerate(e.trace) if x.kind == "call" and x.a[-1] == "visit"), len(e.trace))
                ctx.ob("R8-chains", con + ": order", ok, "the parts of a chain are in the wrong order", fi.loc())
            for kw, src in (("is_reactive", "reactive_node_ids"), ("is_cascading_reactive", "cascading_reactive_node_ids"), ("is_blocking", "blocking_node_ids")):
                if k in ("Name", "Attribute") and at:
                    ok = re.search(r"%s=\(?id\(node\) in [\w.()]*\.%s\b" % (kw, src), T(at[0].b[0])) is not None
                    ctx.ob("R8-modifiers", f"{con}: {kw}", ok, f"the {kw[3:].replace('_', ' ')} annotation of a {k} is lost", fi.loc())
    fi, _, g = v.handler("Call")
    for ck in ("Name", "Attribute", "Subscript", "Call", "Lambda", "BinOp"):
        it = run(fi, {"": "Call", "func": ck})
        con = f"{SRV}:Call of {ck}"
        for e in it.ends:
            at, vs = atoms(e), visits(e)
            if ck in ("Call", "Lambda", "BinOp"):
                ctx.ob("R8-no-start", con, e.kind == "raise", "a chain starts in the middle", fi.loc())
                continue
            ctx.ob("R8-chains", con + ": rest", e.kind == "return" and (vs == ["func"] if ck == "Name" else vs == ["func.value"]), "what is called is not part of the chain", fi.loc())
            if ck == "Attribute":
                ok = len(at) == 1 and re.match(r"Atom\((value=)?node\.func\.attr\b", T(at[0].b[0])) is not None and "is_callpoint=True" in T(at[0].b[0])
                ctx.ob("R8-chains", con + ": called", ok, "a called attribute is not marked as called", fi.loc())
            elif ck == "Name":
                ok = any(x.kind == "assign" and T(x.a) == "self.symbol_chain[-1].is_callpoint" and T(x.b) == "True" for x in e.trace)
                ctx.ob("R8-chains", con + ": called", ok, "a called name is not marked as called", fi.loc())
            else:
                ctx.ob("R8-chains", con + ": called", all("is_callpoint=True" in T(x.b[0]) for x in at), "a called element is not marked as called", fi.loc())
    own = {"Name", "Attribute", "Subscript", "Call"}
    exprs = [n for n in dir(ast) if isinstance(getattr(ast, n), type) and issubclass(getattr(ast, n), ast.expr) and getattr(ast, n).__module__ in ("ast", "_ast") and n not in own | {"expr"}
             and not getattr(ast, n).__subclasses__() and n not in ("Index", "ExtSlice", "Num", "Str", "Bytes", "NameConstant", "Ellipsis", "Slice", "Starred")]
    for k in exprs + ["Constant"]:
        fi, _, g = v.handler(k)
        ok = fi is not None
        if ok:
            it = run(fi, {"": k})
            ok = bool(it.ends) and all(e.kind == "raise" and e.value is not None and "ValueError" in T(e.value) for e in it.ends)
        ctx.ob("R8-no-start", f"{SRV}:{k}", ok, f"a chain that starts at the result of a {k} is taken to start in the middle", fi.loc() if fi else "")
    # the whole
    fi, _ = v.lookup("__call__")
    it = ctx.run(fi, None, lambda e: True, params={fi.params[1]: ("var", "node")}, onlyraise={"visit"}, opaque=opq)
    n = 0
    for e in it.ends:
        con = f"{SRV}.__call__"
        if e.kind != "return":
            continue
        n += 1
        vis = [i for i, x in enumerate(e.trace) if x.kind == "call" and x.a[-1] == "visit" and T(x.b[0]) == "node"]
        rev = [i for i, x in enumerate(e.trace) if x.kind == "call" and x.a[-1] == "reverse" and T(x.recv) == "self.symbol_chain"]
        ret = T(e.value)
        ok = bool(vis) and re.match(r"SymbolRef\((symbols=)?(self\.symbol_chain|list\(reversed\(self\.symbol_chain\)\)|self\.symbol_chain\[::-1\])", ret) is not None and (
            bool(rev) or "reversed" in ret or "::-1" in ret)
        ctx.ob("R8-chains", con, ok, "the parts of a chain are not given in order", fi.loc())
        cleared = [x for x in e.trace if x.kind == "assign" and T(x.a) == "self.symbol_chain" and T(x.b) in ("[]", "new_list", "list()")]
        ctx.ob("R8-chains", con + ": cleared", bool(cleared) and e.trace.index(cleared[-1]) > (vis[-1] if vis else -1), "parts of one chain end up in the next one", fi.loc())
    ctx.ob("R8-chains", f"{SRV}.__call__: paths", n > 0, "no path", fi.loc())
    bad = [e for e in it.ends if e.kind == "raise"]
    ctx.ob("R8-no-start", f"{SRV}.__call__", not [e for e in bad if "ValueError" in T(e.value)], "a chain without a start is an error", fi.loc())


def entry(ctx, sw):
    q = "analysis.live_refs:compute_live_dead_symbol_refs"
    it = ctx.run(q, None, lambda e: e.kind == "call")
    for e in it.ends:
        cs = [x for x in e.trace if calls(x, CLS)]
        ok = len(cs) == 1
        ctx.ob("R0-entry", it.fi.qual, ok, "the analysis is not run", it.fi.loc())
        if not ok:
            continue
        kw = dict(cs[0].c or ())
        names = ["scope", "init_killed", "include_killed_live"]
        for i, nme in enumerate(names):
            t = cs[0].b[i] if len(cs[0].b) > i else kw.get(nme)
            good = t is not None and (T(t) == nme or nme == "init_killed" and T(t) in ("set()", "new_set", "(init_killed or set())"))
            ctx.ob("R0-entry", f"{it.fi.qual}: {nme}", good, f"`{nme}` is not what was asked for", cs[0].loc())
        ok = e.value is not None and e.value[0] == "call" and e.value[2] and re.search(r"^code$|ast\.parse\(code\)|ast\.Module\((body=)?code\b", T(e.value[2][0])) is not None
        ctx.ob("R0-entry", f"{it.fi.qual}: code", ok, "the code that is analysed is not the code that was given", it.fi.loc())
    q = CLS + ".__init__"
    it = ctx.run(q, None, lambda e: e.kind == "assign")
    for e in it.ends:
        for f, want in (("_in_kill_context", "False"), ("_inside_attrsub", "False"), ("_skip_simple_names", "False"), ("_is_lhs", "False"), ("_module_stmt_counter", "0")):
            v = [x for x in e.trace if T(x.a) == "self." + f]
            ctx.ob("R0-entry", f"{q}: {f}", bool(v) and T(v[-1].b) == want, f"analysis starts with {f} = {T(v[-1].b) if v else None}", it.fi.loc())
        for f in ("live", "modified", "_visiting_func_calls", "_func_ast_by_name"):
            v = [x for x in e.trace if T(x.a) == "self." + f]
            ctx.ob("R0-entry", f"{q}: {f}", bool(v) and T(v[-1].b) in ("set()", "new_set", "{}", "new_dict", "dict()"), "analysis does not start from nothing", it.fi.loc())
        v = [x for x in e.trace if T(x.a) == "self.dead"]
        ctx.ob("R0-entry", f"{q}: dead", bool(v) and "init_killed" in T(v[-1].b) and "from_string(elem(" in T(v[-1].b), "names that are given as bound do not count as bound", it.fi.loc())


def resolution(ctx):
    """what is read is looked up, through calls, and what cannot be found is reported"""
    q = "analysis.live_refs:get_live_symbols_and_cells_for_references"
    q2 = "analysis.live_refs:_compute_call_chain_live_symbols_and_cells"
    ADD = lambda name: (lambda e: e.kind == "call" and e.recv is not None and e.a[2] in ("add", "append") and T(e.b[0]) != "" and name(e))
    for fn, scope, nm in ((q, "scope", "cell"), (q2, "call_scope", "called function")):
        base = lambda: O().when(r"flow_order == |== .*flow_order", False).when(r"isinstance\(.*func_def_stmt", True).when(r" in new_set$| in seen$", False).when(
            r"^update_liveness_time_versions$", False).when(r"^elem\(.*\) is None$", False).when(r"\.ref\.chain$", True)
        R = r"elem\(.*gen_resolved_symbols\(.*\)\)"
        for killed, old in ((False, True), (True, True), (True, False)):
            for live, unsafe, called in ((True, False, True), (True, False, False), (True, True, True), (False, False, False)):
                o = base().when(R + r"\.is_live$", live).when(R + r"\.is_dead$", not live).when(R + r"\.is_unsafe$", unsafe).when(R + r"\.is_called$", called).when(
                    r"\.is_killed$", killed).when(R + r"\.sym\.shallow_timestamp\.cell_num == cell_ctr|cell_ctr == .*shallow_timestamp\.cell_num", not old).when(
                    R + r"\.sym\.is_anonymous$", False).when(r"hasattr\(builtins|_RESOLVER_EXCEPTIONS$| in init_killed$| in setcomp", False).when(r"isinstance\(.*\.value, str\)", True)
                it = ctx.run(fn, o, lambda e: e.kind in ("call", "iter", "loop") and (e.kind != "call" or e.is_call("add", "append", "update")))
                loops = [i for i in it.iterations if re.search(r"gen_resolved_symbols\(", T(i.iter)) and i.kind in ("next", "collect", "break")]
                con = f"{it.fi.qual} bound before={killed} earlier run={old} live={live} unsafe={unsafe} called={called}"
                ctx.ob("R9-lookup", con + ": loop", bool(loops), "what is read is not looked up", it.fi.loc())
                for i in loops:
                    adds = [x for x in i.events if x.kind == "call" and x.recv is not None and x.a[2] in ("add", "append") and x.b]
                    whole = [x for x in adds if x.b[0][0] == "elem"]
                    pairs = [x for x in adds if x.b[0][0] == "tuple" and x.b[0][1] and x.b[0][1][0][0] == "elem"]
                    want = not (killed and old) and live and not unsafe
                    ctx.ob("R9-lookup", con, bool(whole) == want, f"a value that the {nm} reads is left out" if want else "a value is taken as read although it is not", it.fi.loc())
                    wantc = called and not (killed and old)
                    ctx.ob("R9-calls", con, bool(pairs) == wantc, "the function that is called is not analysed" if wantc else "a function is analysed although it is not called", it.fi.loc())
        # unresolved names
        for killed, found in ((False, False), (False, True), (True, False)):
            o = base().when(r"\.is_(live|called)$", True).when(r"\.is_(dead|unsafe|anonymous)$", False).when(r"cell_num == |== .*cell_num", True).when(
                r"\.is_killed$", killed).when(r"hasattr\(builtins", found).when(r"_RESOLVER_EXCEPTIONS$| in init_killed$| in setcomp", False).when(
                r"isinstance\(.*\.value, str\)", True).when(r"^len\(.*chain\) < 1", False)
            it = ctx.run(fn, o, lambda e: e.kind in ("iter", "loop") or e.kind == "call" and e.is_call("add", "append", "gen_resolved_symbols"))
            loops = [i for i in it.iterations if re.search(r"symbol_refs$|^elem.*|live_refs|compute_live_dead", T(V.elements(i.iter))) and i.kind == "next" and "gen_resolved" not in T(i.iter)]
            con = f"{it.fi.qual} bound before={killed} builtin={found}"
            k = 0
            for i in loops:
                inner = [x for x in i.events if x.kind == "iter" and "gen_resolved_symbols" in T(x.a)]
                if inner or not any(x.kind == "loop" and "gen_resolved_symbols" in T(x.a) for x in i.events):
                    continue
                k += 1
                adds = [x for x in i.events if x.kind == "call" and x.recv is not None and x.a[2] == "add" and x.b and x.b[0][0] == "elem" and "gen_resolved" not in T(x.b[0])]
                want = not killed and not found
                ctx.ob("R9-unresolved", con, bool(adds) == want, "a name that cannot be found is not reported" if want else "a name is reported as not found although it is known", it.fi.loc())
            ctx.ob("R9-unresolved", con + ": loop", k > 0, "names that cannot be found are not handled", it.fi.loc())
    it = ctx.run(q, base().when(r"\.is_(live|called)$", True).when(r"\.is_(dead|unsafe|anonymous|killed)$", False).when(r"cell_num == |== .*cell_num", True).when(
        r"hasattr\(builtins|_RESOLVER_EXCEPTIONS$| in init_killed$| in setcomp", False).when(r"isinstance\(.*\.value, str\)", True), lambda e: e.kind in ("aug", "call") and (e.kind == "aug" or e.is_call("update", "_compute_call_chain_live_symbols_and_cells")))
    for e in it.ends:
        if e.kind != "return":
            continue
        cs = [x for x in e.trace if calls(x, "_compute_call_chain_live_symbols_and_cells")]
        ctx.ob("R9-calls", it.fi.qual + ": functions", bool(cs), "functions that are called are not analysed", it.fi.loc())
        ok = e.value is not None and e.value[0] == "tuple" and len(e.value[1]) == 3
        ctx.ob("R9-result", it.fi.qual, ok, "does not give what is live, which cells and what could not be found", it.fi.loc())
        if not ok:
            continue
        a, b, c = e.value[1]
        CALL = r"_compute_call_chain_live_symbols_and_cells\(.*\)\[%d\]"

        def merged(t, i):
            return re.search(CALL % i, T(t)) is not None or any(x.kind == "aug" and x.a == t and re.search(CALL % i, T(x.c)) or x.kind == "call" and x.a[-1] == "update" and x.recv == t and
                                                               re.search(CALL % i, T(x.b[0])) for x in e.trace)
        ctx.ob("R9-result", it.fi.qual + ": live", merged(a, 0), "what called functions read is left out", it.fi.loc())
        ctx.ob("R9-result", it.fi.qual + ": cells", re.search(CALL % 1, T(b)) is not None, "cells that define called functions are left out", it.fi.loc())
        ctx.ob("R9-result", it.fi.qual + ": not found", merged(c, 2), "names which called functions cannot find are left out", it.fi.loc())
    it = ctx.run(q2, base().when(r"\.is_(live|called)$", True).when(r"\.is_(dead|unsafe|anonymous|killed)$", False).when(r"cell_num == |== .*cell_num", True).when(
        r"hasattr\(builtins|_RESOLVER_EXCEPTIONS$| in init_killed$| in setcomp", False).when(r"isinstance\(.*\.value, str\)", True), lambda e: e.kind == "call")
    for x in {id(x.node): x for x in it.allevents.values() if calls(x, "compute_live_dead_symbol_refs")}.values():
        kw = dict(x.c or ())
        ctx.ob("R9-function-bodies", it.fi.qual, "func_def_stmt" in T(x.b[0]) and T(x.b[0]).endswith(".body"), "it is not the body of the function that is analysed", x.loc())
        t = T(kw.get("init_killed", ("const", "str", "")))
        ctx.ob("R9-function-bodies", it.fi.qual + ": parameters", "get_definition_args" in t and ".arg" in t, "parameters are confused with the notebook's names", x.loc())
    kinds_ = [x for x in it.allevents.values() if calls(x, "isinstance") and "func_def_stmt" in T(x.b[0])]
    ctx.ob("R9-function-bodies", it.fi.qual + ": kinds", any(all(k in T(x.b[1]) for k in ("ast.FunctionDef", "ast.AsyncFunctionDef", "ast.Lambda")) for x in kinds_),
           "some kind of function is not analysed when called", it.fi.loc())


def check(ctx):
    sw = Sweep(ctx)
    infrastructure(ctx, sw)
    ks = kinds()
    for k in ks:
        check_kind(ctx, sw, k)
    ctx.nonvacuous("R1-kinds node kinds", len(ks), 60)
    leaves(ctx, sw)
    targets(ctx, sw)
    functions(ctx, sw)
    chains(ctx, sw)
    entry(ctx, sw)
    resolution(ctx)
