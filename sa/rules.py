"""Rule layer: obligations, oracles, event queries, evidence and verdicts."""
import hashlib
import json
import os
import re
import sys
import time
import traceback

from .index import AnalysisBroken, FuncInfo, Index
from .interp import (FALSE, NONE, TRUE, Event, Interp, PathEnd, canon_atom, const, is_const, mentions, show, subterms,
                     strip_iter, walk_own)

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


# ---------------------------------------------------------------- atom texts
def atexts(atom):
    if atom[0] == "truth":
        return [show(atom[1])]
    if atom[0] == "cmp":
        _, op, l, r = atom
        if op in ("==", "is"):
            return [f"{show(l)} {op} {show(r)}", f"{show(r)} {op} {show(l)}"]
        return [f"{show(l)} {op} {show(r)}"]
    return [show(atom)]


class Oracle:
    """Fixes the truth of canonical atoms. Records which entries were consulted."""

    def __init__(self):
        self.entries = []
        self.hits = {}
        self.asked = set()

    def when(self, regex, val):
        # a pattern that names a value (no operator, up to the end) is about its truth; `is None` is the opposite
        truth = regex.endswith("$") and not re.search(r" (is|in|==|<|<=|>|>=|!=) |is None|\.\*\$?$", regex)
        self.entries.append(("truth" if truth else "re", re.compile(regex), val, regex))
        return self

    def fn(self, f, label="fn"):
        self.entries.append(("fn", f, None, label))
        return self

    def order(self, a, b, rel):
        """Fix the ordering of role a (regex) vs role b (regex): rel in lt/eq/gt/le.. (lt|eq|gt)."""
        ra, rb = re.compile(a), re.compile(b)

        def f(atom, st):
            if atom[0] != "cmp" or atom[1] not in ("<", "=="):
                return None
            l, r = show(atom[2]), show(atom[3])
            if ra.fullmatch(l) and rb.fullmatch(r):
                d = 1
            elif ra.fullmatch(r) and rb.fullmatch(l):
                d = -1
            else:
                return None
            if atom[1] == "==":
                return rel == "eq"
            return rel == ("lt" if d == 1 else "gt")
        self.entries.append(("fn", f, None, f"order {a} {rel} {b}"))
        return self

    def enum(self, attr_regex, member):
        """attr == Enum.member; every other member false."""
        r = re.compile(attr_regex)

        def f(atom, st):
            if atom[0] != "cmp" or atom[1] not in ("==", "is"):
                return None
            for x, y in ((atom[2], atom[3]), (atom[3], atom[2])):
                if r.search(show(x)) and y[0] == "." and y[1][0] == "g":
                    return y[2] == member
            return None
        self.entries.append(("fn", f, None, f"{attr_regex}={member}"))
        return self

    def __call__(self, atom, st):
        texts = None
        none = atom[0] == "cmp" and atom[1] == "is" and NONE in atom[2:4]
        for kind, m, val, label in self.entries:
            if kind == "truth" and none:
                # what a rule takes to be true is there, what it takes to be false is missing
                if m.search(show(atom[3] if atom[2] == NONE else atom[2])):
                    self.hits[label] = self.hits.get(label, 0) + 1
                    return not val
                continue
            if kind in ("re", "truth"):
                if texts is None:
                    texts = atexts(atom)
                if any(m.search(t) for t in texts):
                    self.hits[label] = self.hits.get(label, 0) + 1
                    return val
            else:
                r = m(atom, st)
                if r is not None:
                    self.hits[label] = self.hits.get(label, 0) + 1
                    return r
        if atom[0] not in ("cmp", "not", "and", "or", "const"):
            isnone = ("cmp", "is", atom, NONE)
            for kind, m, val, label in self.entries:
                if val is True and kind == "re" and any(m.search(t) for t in atexts(isnone)) or kind == "fn" and m(isnone, st) is True:
                    self.hits[label] = self.hits.get(label, 0) + 1
                    return False
        return None


# ------------------------------------------------------------- term matching
def T(t):
    return show(t) if isinstance(t, tuple) else str(t)


ADDERS = {"add", "append", "update", "extend", "insert", "setdefault", "appendleft", "__setitem__", "|="}
REMOVERS = {"discard", "remove", "pop", "clear", "difference_update", "popitem", "popleft", "-="}


def adds_to(ev, regex):
    """event that may add elements to a container matching regex"""
    r = re.compile(regex)
    if ev.kind == "call" and ev.recv is not None and ev.a[2] in ADDERS and r.search(T(ev.recv)):
        return True
    if ev.kind == "aug" and T(ev.b) in ("'|'", "'+'") and r.search(T(ev.a)):
        return True
    if ev.kind == "setitem" and r.search(T(ev.a)):
        return True
    return False


def removes_from(ev, regex):
    r = re.compile(regex)
    if ev.kind == "call" and ev.recv is not None and ev.a[2] in REMOVERS and r.search(T(ev.recv)):
        return True
    if ev.kind == "aug" and T(ev.b) in ("'-'", "'&'") and r.search(T(ev.a)):
        return True
    if ev.kind == "delitem" and r.search(T(ev.a)):
        return True
    return False


def may_contain(value, trace):
    k = value[0]
    if k == "comp":
        ident = ("id", value[1], value[5][1], value[5][2])
        return any(e.kind == "collect" and e.a == ident for e in trace)
    if k == "new":
        if value[1] in ("set", "dict", "list"):
            for e in trace:
                if e.kind == "call" and e.recv == value and e.a[2] in ADDERS:
                    if e.a[2] in ("update", "extend") and e.b and not any(may_contain(x, trace) for x in e.b):
                        continue
                    return True
                if e.kind == "aug" and e.a == value and may_contain(e.c, trace):
                    return True
                if e.kind == "setitem" and e.a == value:
                    return True
            return False
        return True
    if k == "bin":
        if value[1] in ("|", "+"):
            return may_contain(value[2], trace) or may_contain(value[3], trace)
        if value[1] == "&":
            return may_contain(value[2], trace) and may_contain(value[3], trace)
        if value[1] == "-":
            return may_contain(value[2], trace)
    if k == "call":
        if value[1][0] == "g" and value[1][1] in ("set", "list", "tuple", "sorted", "frozenset", "dict"):
            if not value[2]:
                return False
            return may_contain(value[2][0], trace)
        if value[1][0] == "." and value[1][2] in ("union",):
            return may_contain(value[1][1], trace) or any(may_contain(x, trace) for x in value[2])
    if k in ("tuple", "list", "set"):
        return bool(value[1])
    if k == "dict":
        return bool(value[1])
    return True


# --------------------------------------------------------------------- context
class Ctx:
    def __init__(self, prop, tier, seed, index):
        self.prop, self.tier, self.seed, self.ix = prop, tier, seed, index
        self.obligations = []   # (rule, construct, ok, msg, loc)
        self.functions = set()
        self.paths = 0
        self.states = 0
        self.notes = []
        self._cache = {}
        self._obset = set()

    # -- analysis -----------------------------------------------------------
    def F(self, spec, required=True):
        if isinstance(spec, FuncInfo):
            return spec
        f = self.ix.fn(spec, required)
        if f is not None:
            self.functions.add(f.key)
        return f

    def run(self, spec, oracle=None, interest=None, params=None, closure=None, **kw):
        fi = self.F(spec)
        it = Interp(self.ix, oracle=oracle, interest=interest, **kw)
        ends = it.run(fi, params=params, closure=closure)
        self.paths += len(ends)
        self.states += it.nstates + 1
        for k in it.inlined:
            self.functions.add(k)
        it.ends = ends
        it.fi = fi
        return it

    # -- obligations --------------------------------------------------------
    def ob(self, rule, construct, ok, msg="", loc=""):
        o = (rule, construct, bool(ok), msg if not ok else "", loc if not ok else "")
        if o not in self._obset:
            self._obset.add(o)
            self.obligations.append((rule, construct, bool(ok), msg, loc))
        return bool(ok)

    def nonvacuous(self, rule, n, least=1):
        self.ob(rule.split()[0], rule, n >= least, f"{n} instances found, at least {least} expected")

    # -- generic rule forms -------------------------------------------------
    def never(self, rule, spec, event, oracle=None, construct=None, why="", ends="all", **kw):
        """No path may contain an event satisfying ``event`` under the oracle."""
        it = self.run(spec, oracle=oracle, interest=kw.pop("interest", None) or (lambda e: event(e)), **kw)
        bad = {}
        for ev in it.allevents.values():
            # event reached on some path (even if a later branch dies)
            if event(ev):
                bad[(ev.loc(), repr(ev))] = ev
        for ev in list(bad.values())[:3]:
            self.ob(rule, construct or it.fi.qual, False, f"{why}: {ev!r} reachable", ev.loc())
        if not bad:
            self.ob(rule, construct or it.fi.qual, True)
        return it

    def may(self, rule, spec, event, oracle=None, construct=None, why="", **kw):
        """Some path must contain the event (non-vacuity / liveness of the construct)."""
        it = self.run(spec, oracle=oracle, interest=kw.pop("interest", None) or (lambda e: event(e)), **kw)
        ok = any(event(ev) for ev in it.allevents.values())
        self.ob(rule, construct or it.fi.qual, ok, f"{why}: no path performs it", it.fi.loc())
        return it

    def always(self, rule, spec, event, oracle=None, construct=None, why="", kinds=("return",), where=None, **kw):
        """Every (completing) path must contain the event."""
        it = self.run(spec, oracle=oracle, interest=kw.pop("interest", None) or (lambda e: event(e)), **kw)
        n = 0
        ok = True
        for e in it.ends:
            if e.kind not in kinds or (where is not None and not where(e)):
                continue
            n += 1
            if not any(event(ev) for ev in e.trace):
                ok = False
                self.ob(rule, construct or it.fi.qual, False, f"{why}: path ending here misses it", it.fi.loc(e.node))
                break
        if n == 0:
            ok = self.ob(rule, construct or it.fi.qual, False, f"{why}: no completing path under the assumptions", it.fi.loc())
        if ok:
            self.ob(rule, construct or it.fi.qual, True)
        return it

    def each_iter(self, rule, spec, loop_regex, event, oracle=None, construct=None, why="", mode="always", kinds=("next", "collect", "break", "return", "hit"), **kw):
        """Every (mode=always) / no (mode=never) symbolic iteration over a matching iterable performs the event."""
        it = self.run(spec, oracle=oracle, interest=kw.pop("interest", None) or (lambda e: event(e)), **kw)
        r = re.compile(loop_regex)
        its = [i for i in it.iterations if i.iter is not None and r.search(show(strip_iter(i.iter)) if True else "") and i.kind in kinds]
        if not its:
            its = [i for i in it.iterations if i.iter is not None and r.search(show(i.iter)) and i.kind in kinds]
        if not its:
            self.ob(rule, construct or it.fi.qual, False, f"{why}: no iteration over /{loop_regex}/ reaches its end", it.fi.loc())
            return it
        groups = {}
        for i in its:
            groups.setdefault(id(i.node), []).append(i)
        bad = None
        good = False
        for g in groups.values():
            gbad = next((i for i in g if any(event(e) for e in i.events) != (mode == "always")), None)
            if gbad is None:
                good = True
            elif bad is None or any(any(event(e) for e in i.events) for i in g):
                bad = gbad
        if mode == "always":
            # the loop that performs the event must perform it in every iteration
            relevant = [g for g in groups.values() if any(any(event(e) for e in i.events) for i in g)]
            ok = bool(relevant) and all(all(any(event(e) for e in i.events) for i in g) for g in relevant)
        else:
            ok = bad is None
        if ok:
            self.ob(rule, construct or it.fi.qual, True)
        else:
            self.ob(rule, construct or it.fi.qual, False,
                    f"{why}: an iteration over {show(bad.iter)} {'skips' if mode == 'always' else 'performs'} it (ends by {bad.kind})",
                    bad.fn.loc(bad.node))
        return it

    def require(self, rule, construct, cond, msg, loc=""):
        return self.ob(rule, construct, cond, msg, loc)


# ----------------------------------------------------------------- known list
def load_known(prop):
    path = os.path.join(VERIF, "known_findings.txt")
    out = []
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                m = re.match(r"known: property=(\S+) rule=(\S+) construct=(\S+) (.*)$", line)
                if m and m.group(1) == prop:
                    out.append((m.group(2), m.group(3), m.group(4)))
    return out


def main(prop, check, title, argv=None):
    tier = os.environ.get("VERIF_TIER", "quick")
    if argv and "--thorough" in argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    evdir = "/tmp/vp_ev" if os.environ.get("VP_NOEV") else os.path.join(VERIF, "evidence")
    os.makedirs(evdir, exist_ok=True)
    try:
        ix = Index()
        ctx = Ctx(prop, tier, seed, ix)
        check(ctx)
        if not ctx.obligations:
            raise AnalysisBroken("no obligations generated")
    except AnalysisBroken as e:
        print(f"ANALYSIS-BROKEN property={prop} {e}")
        return 2
    except Exception:
        traceback.print_exc()
        print(f"ANALYSIS-BROKEN property={prop} internal error")
        return 3
    failed = [o for o in ctx.obligations if not o[2]]
    known = load_known(prop)
    new, old = [], []
    for o in failed:
        k = next((x for x in known if x[0] == o[0] and x[1] == o[1]), None)
        (old if k else new).append((o, k))
    seen_k = set()
    for o, k in old:
        if k not in seen_k:
            seen_k.add(k)
            print(f"KNOWN-FINDING: property={prop} rule={k[0]} construct={k[1]} {k[2]}")
    rules = {}
    for r, c, ok, m, l in ctx.obligations:
        d = rules.setdefault(r, {"instances": 0, "held": 0, "constructs": []})
        d["instances"] += 1
        d["held"] += 1 if ok else 0
        if len(d["constructs"]) < 12 and c not in d["constructs"]:
            d["constructs"].append(c)
    digest = hashlib.sha256()
    for m in sorted(ix.modules):
        digest.update(ix.modules[m].src.encode())
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": f"{title}: static rules over the current source of {ix.repo}/core/ipyflow (and frontend sources where "
                           "named); each obligation is one rule instance decided on every abstract path of the named construct.",
            "obligations": len(ctx.obligations), "discharged": len(ctx.obligations) - len(failed),
            "known_findings": len(old), "rules": rules,
            "modules_parsed": len(ix.modules), "functions_indexed": len(ix.funcs),
            "functions_analysed": sorted(ctx.functions), "abstract_paths": ctx.paths, "abstract_states": ctx.states,
            "source_sha256": digest.hexdigest(), "notes": ctx.notes,
        },
        "assumptions": [
            "calls to functions outside the analysed construct do not rewrite the attributes a rule tracks",
            "standard library, IPython and pyccolo behave as documented",
        ],
        "wall_s": round(time.time() - t0, 3), "violations": len(new),
    }
    with open(os.path.join(evdir, f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True)
    if new:
        rp = os.path.join(evdir, f"{prop}.violation.txt")
        with open(rp, "w") as f:
            for (r, c, ok, m, l), _ in new:
                f.write(f"rule={r} construct={c} at={l}\n    {m}\n")
        for (r, c, ok, m, l), _ in new[:20]:
            print(f"  [{r}] {c} at {l}: {m}")
        print(f"VIOLATION property={prop} replay={rp}")
        return 1
    print(f"OK property={prop} obligations={len(ctx.obligations)} rules={len(rules)} functions={len(ctx.functions)} "
          f"paths={ctx.paths} wall={ev['wall_s']}s")
    return 0
