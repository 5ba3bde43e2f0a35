"""The reader of a difference takes exactly the values its writer puts out.

Writing and reading are interpreted unit by unit (the whole object, one list; everything between followed).  Each unit
gives a graph whose labels are the values put out or taken, the rounds of the loops over what is written, the results
rebuilt, and what is known about the member at hand.  Every way through the writer's graph has to be a way through the
reader's: same kinds of values, same member kind, variability, type and state, one result for each thing written.
"""
import absint
import bitpos
import models
import walk
from absint import app, show, subterms, Budget, T
from check_base import Anchor
from cg import CallGraph
from terms import Typer, find_adt, last
from c18 import completes, holds

TECHNIQUE = "abstract interpretation of writer and reader to labelled graphs; inclusion of the writer's graph in the reader's (product with known member kind, variability, type, state); bit positions as induction variables"
CORE, DIFF, COMP = "dochy_core", "dochy_diff", "dochy_compaction"
MEMBER = ("kind", "var", "type", "state", "there")
CATS = ("param", "list", "ref", "item", "ids")


class Client(walk.Follow):
    cap = 160
    max_nodes = 80000
    max_depth = 40

    def __init__(self, cuts, kval):
        walk.Follow.__init__(self, set(), {DIFF, CORE})
        self.cuts, self.kval, self.passing = cuts, kval, {}

    def inline(self, eng, fr, tg):
        b = tg.body
        if b is None or b.d in self.cuts:
            return False
        if b.crate == DIFF and b.kind != "closure":
            # calculations beside the stream matter only for what they give
            return any(carries(eng.prog, t, self.kval) for t in b.locals[:b.argc + 1]) or straight_line(eng.prog, b)
        return b.crate == "models" or b.kind == "closure" or b.crate == CORE and len(b.reach) <= 8


    def forget(self, t):
        """What was found out about one member is over with the loop."""
        if t.id not in self.passing:
            self.passing[t.id] = part_of(t) or any(x.op in ("idx", "phi", "bin") or x.op == "app" and (x.a[0] in ("get", "lt", "eq", "le") or str(x.a[0]).startswith("bin:") or str(x.a[0]).startswith("as_") or ":as_" in str(x.a[0])) for x in subterms(t))
        return self.passing[t.id]

    def call(self, eng, s, fr, bi, t, tg, args):
        if tg.kind == "local" and tg.body is not None and tg.body.d in self.cuts:
            # the stream goes on; each call gives something new
            n = s.copy()
            self.past(n)
            res = absint.mk("elem", app("part:" + tg.path), (fr.id, bi))
            models.renew(n, res)
            ty = eng.prog.place_ty(fr.body, t.dst)
            if ty is not None:
                eng.app_ty.setdefault(res.id, ty)
            return [(n, res, eng.event("local", tg.path, n, [eng.deep(s, a) for a in args], args, fr, bi, t, res, tg))]
        if tg.path.rsplit("::", 1)[-1] == "next" and len(t.args) == 1:
            ty = eng.prog.op_ty(fr.body, t.args[0])
            if ty is not None and holds(ty, {self.kval}):
                self.past(s)
        return walk.Follow.call(self, eng, s, fr, bi, t, tg, args)

    def past(self, s):
        """Values taken before have said what they had to say."""
        for f in [f for f in s.facts if self.spent(f)]:
            del s.facts[f]

    def spent(self, t):
        k = ("spent", t.id)
        if k not in self.passing:
            self.passing[k] = part_of(t) or any(x.op == "app" and (str(x.a[0]).startswith("as_") or ":as_" in str(x.a[0])) for x in subterms(t))
        return self.passing[k]


def part_of(t):
    return t.op == "elem" and t.a[0].op == "app" and str(t.a[0].a[0]).startswith("part:")


def carries(prog, t, kval):
    """Types the stream, or something that holds it, comes in."""
    for x in t.walk():
        if x.k == "adt" and (x.d == kval or x.d in prog.local_adts and any(
                f["t"] is not None and any(y.k == "adt" and y.d == kval for y in f["t"].walk()) for v in prog.adts[x.d]["v"] for f in v["f"])):
            return True
    return False


def straight_line(prog, b, depth=0):
    m = prog.__dict__.setdefault("_straight", {})
    if b.d not in m:
        m[b.d] = False
        ok = not absint.shape_of(b).back and len(b.reach) <= 60
        for i in b.reach if ok else ():
            t = b.blocks[i].t
            if t.k == "call" and t.callee is not None:
                x = prog.bodies.get(getattr(t.callee, "d", None)) or next((y for y in prog.fns(b.crate) if y.p == t.callee.path), None)
                if x is not None and x.crate == b.crate and not straight_line(prog, x):
                    ok = False
        m[b.d] = ok
    return m[b.d]


class Names:
    def __init__(self, prog):
        self.prog = prog
        f = lambda n, c=CORE: find_adt(prog, n, c)
        self.kval = f("KVal", COMP)
        self.param, self.qv = f("RustParam"), f("Qv")
        self.atoms = {f("MetaValue"): "kind", f("VarType"): "var", f("ParamType"): "type", self.param: "type", self.qv: "state", f("QvType"): "state"}

        # sets of ids: types of the crate that are neither records nor holders of the stream, with numbers in their variants
        self.ids = {d for d in prog.local_adts if str(d).split("::")[0] == DIFF and len(prog.adts[d]["v"]) > 2 and all(
            f["t"] is not None and all(y.k != "adt" or last(y.d) in ("Vec", "Global") for y in f["t"].walk()) for v in prog.adts[d]["v"] for f in v["f"])
            and any(f["t"].k == "adt" for v in prog.adts[d]["v"] for f in v["f"])}

    def names(self, d, vs):
        v = self.prog.adts[d]["v"]
        return frozenset(v[i]["n"] for i in vs if i < len(v))


class Small(absint.Client):
    cap = 400
    max_depth = 12

    def inline(self, eng, fr, tg):
        return tg.body is not None and tg.body.crate in (COMP, "models")


def tokens_made(prog, ns):
    """Functions that make a value of the format out of something: which forms they make."""
    out = {}
    for b in prog.fns(COMP):
        t = b.locals[0]
        if b.kind != "fn" or t.k != "adt" or t.d != ns.kval or b.argc != 1 or b.generics:
            continue
        try:
            e = absint.Engine(prog, Small()).run(b)
        except Budget:
            continue
        forms = set()
        for x in e.exits:
            if x.kind != "return":
                continue
            todo, seen = [x.ret], set()
            while todo:
                r = todo.pop()
                if r.id in seen:
                    continue
                seen.add(r.id)
                if r.op == "phi":
                    todo += list(e.phi_in.get(r.id, ()))
                elif r.op == "agg" and r.a[0] == ns.kval:
                    forms.add((r.a[1], constant(r)))
                else:
                    forms = None
                    break
            if forms is None:
                break
        out[b.d] = forms
    return out


def constant(r):
    p = r.a[2:]
    if len(p) == 1 and isinstance(p[0], tuple):
        p = p[0]
    if len(p) == 1 and isinstance(p[0], T) and p[0].op == "const" and p[0].a[0] == "bool":
        return int(p[0].a[1])
    return None


def tokens_taken(prog, ns):
    """Functions that take a value of the format apart: the forms they accept, and those whose content they hand on as it is."""
    out = {}
    for b in prog.fns(COMP):
        if b.kind != "fn" or b.argc != 1 or b.generics or b.locals[1].strip_refs().k != "adt" or b.locals[1].strip_refs().d != ns.kval:
            continue
        t = b.locals[0]
        if t.k != "adt" or t.d not in (absint.OPTION, absint.RESULT):
            continue
        try:
            e = absint.Engine(prog, Small()).run(b)
        except Budget:
            continue
        good = 1 if t.d == absint.OPTION else 0
        arg = next((f for x in e.exits for f in x.state.facts if f.op == "sym" and isinstance(x.state.facts[f], frozenset)), None)
        yes, no, same = set(), set(), set()
        sure = True
        for x in e.exits:
            if x.kind != "return":
                continue
            vs = x.state.facts.get(arg) if arg is not None else None
            if vs is None or x.ret.op != "agg":
                sure = False
                continue
            (yes if x.ret.a[1] == good else no).update(vs)
            if x.ret.a[1] == good:
                for p in subterms(x.ret):
                    if p.op == "fld" and p.a[0] is arg and not any(q.op not in ("agg", "fld", "sym", "const", "ptr") for q in subterms(x.ret)):
                        same.update(vs)
        out[b.d] = (yes, no, same) if sure and arg is not None else None
    return out


class Side:
    """One unit of the writer or the reader as a labelled graph."""

    def __init__(self, prog, ns, b, cuts, made, taken, stream, what=None):
        self.prog, self.ns, self.b, self.cuts, self.what = prog, ns, b, cuts, what
        self.made, self.taken, self.stream = made, taken, stream
        self.e = absint.Engine(prog, Client(set(cuts), ns.kval)).run(b)
        self.ty = Typer(self.e)
        self.where = {}
        self.unsure = None
        self.tok = {}
        self.atomcache = {}
        self.edges = {}
        self.build()

    def adt(self, t):
        return self.ty.adt(t)

    # --- what is learnt on an edge
    def atom(self, t, v):
        if not isinstance(v, frozenset):
            return None
        k = (t.id, v)
        if k not in self.atomcache:
            self.atomcache[k] = self._atom(t, v)
        return self.atomcache[k]

    def _atom(self, t, v):
        ns = self.ns
        tk, fn, val = self.of_token(t)
        if tk is not None:
            if fn is None:
                return ("form", v)
            if val:
                return ("value", fn, v) if v <= {0, 1} and t.op == "fld" else None
            return ("took", fn, v)
        d = self.adt(t)
        if d in ns.atoms:
            n = ns.names(d, v)
            if len(n) < len(self.prog.adts[d]["v"]):
                return ("atom", ns.atoms[d], n)
            return None
        if d == absint.OPTION:
            o = self.ty.of(t)
            o = o.strip_refs() if o is not None else None
            if o is not None and o.k == "adt" and o.a:
                p = o.a[0].strip_refs()
                if self.record(p):
                    return ("atom", "there", frozenset(("None", "Some")[i] for i in v))
                if str(p) in ("u64", "usize", "u32", "i64") and self.stream is None and t.op == "fld" and self.record(self.ty.of(t.a[0])):
                    return ("atom", "opt", frozenset(("None", "Some")[i] for i in v))
            return None
        if d in ns.ids:
            n = ns.names(d, v)
            return ("atom", "ids" if self.stream is not None else "ids#%d" % t.id, n) if len(n) < len(self.prog.adts[d]["v"]) else None
        if d is not None and self.recordd(d) and len(self.prog.adts[d]["v"]) > 1:
            n = ns.names(d, v)
            return ("atom", "op", n) if len(n) < len(self.prog.adts[d]["v"]) else None
        return None

    def record(self, t):
        if t is None:
            return False
        t = t.strip_refs()
        return t.k == "adt" and self.recordd(t.d)

    def recordd(self, d):
        return d in self.prog._records

    def of_token(self, t):
        """(token, function that took it, is its content) for terms about a value of the stream."""
        if self.stream is None:
            return None, None, False
        val = False
        fn = None
        x = t
        while True:
            if x in self.tok:
                return x, fn, val
            if x.op == "fld":
                val = True
                x = x.a[0]
            elif x.op == "app" and isinstance(x.a[0], str) and len(x.a) >= 2 and any(last(d) == last(x.a[0]) for d in self.taken) and isinstance(x.a[1], T):
                fn = next(d for d in self.taken if last(d) == last(x.a[0]))
                if not val and x is not t:
                    return None, None, False
                x = x.a[1]
            else:
                return None, None, False

    def token_in(self, t, deep=True):
        """Tokens a term is made of, looking through casts and the functions that take tokens apart."""
        out = []
        for x in subterms(t):
            if x in self.tok:
                out.append(self.tok[x])
        return out

    def straight(self, t):
        """The token a number was read from, if it is just that."""
        while isinstance(t, T):
            if t in self.tok:
                return self.tok[t]
            if t.op == "fld" or t.op == "agg" and len(args(t)) == 1:
                t = t.a[0] if t.op == "fld" else args(t)[0]
            elif t.op == "app" and len(t.a) == 2 and isinstance(t.a[1], T):
                t = t.a[1]
            elif t.op == "cast":
                t = next((x for x in t.a if isinstance(x, T)), None)
            else:
                return None
        return None

    # --- events
    def build(self):
        e = self.e
        if self.stream is not None:
            for a, evs, b in e.edges:
                for ev in evs:
                    if ev.kind == "iter" and self.is_stream(ev):
                        f = ev.fr.parent or ev.fr
                        self.tok[ev.result] = (f.body.d, ev.fr.bb if ev.fr.parent else ev.bb)
        n = 0
        order = {}

        def num(x):
            if hasattr(x, "ret"):
                if x.kind == "return" and completes(x):
                    return "ok"
                return None
            return x.num
        fresh = [0]
        for a, evs, b in e.edges:
            if b is None:
                continue
            dst = num(b)
            if dst is None:
                continue
            labels = []
            known = a.state.facts
            for t, v in evs.facts.items():
                if known.get(t) != v:
                    at = self.atom(t, v)
                    if at is not None:
                        labels.append(at)
            # what an event brought to light comes after it
            before, after = [], []
            for at in labels:
                (after if at[0] in ("form", "took", "value") else before).append(at)
            seq = []
            for ev in evs:
                l = self.label(ev)
                if l is not None:
                    seq.append(l)
                    self.where.setdefault(l, ev)
            if dst == "ok":
                seq += self.returned(b.ret)
            resets = [i for i, l in enumerate(seq) if l[0] in ("in", "out", "reset")]
            if resets:
                i = resets[-1]
                lab = seq[:i + 1] + before + seq[i + 1:]
            else:
                lab = before + seq
            lab += after
            src = a.num
            for i, l in enumerate(lab[:-1]):
                fresh[0] += 1
                m = ("m", fresh[0])
                self.edges.setdefault(src, set()).add((l, m))
                src = m
            self.edges.setdefault(src, set()).add((lab[-1] if lab else None, dst))
        self.start = e.edges[0][0].num if e.edges else None
        self.start = getattr(e, "start", self.start)
        self.trim()

    def trim(self):
        back = {}
        for a, es in self.edges.items():
            for l, b in es:
                back.setdefault(b, set()).add(a)
        live, todo = {"ok"}, ["ok"]
        while todo:
            for p in back.get(todo.pop(), ()):
                if p not in live:
                    live.add(p)
                    todo.append(p)
        self.edges = {a: {(l, b) for l, b in es if b in live} for a, es in self.edges.items() if a in live}
        self.quotient()

    def quotient(self):
        # chains of unlabelled steps are their ends
        end = {}
        for n in self.edges:
            path, x = [], n
            while x not in end:
                es = self.edges.get(x, ())
                nx = next(iter(es))[1] if len(es) == 1 and next(iter(es))[0] is None else None
                if nx is None or nx in path or nx == x:
                    end[x] = x
                    break
                path.append(x)
                x = nx
            for y in path:
                end[y] = end[x]
        end["ok"] = "ok"
        self.edges = {n: {(l, end.get(b, b)) for l, b in es} for n, es in self.edges.items() if end[n] == n}
        self.start = end[self.start]
        nodes = set(self.edges) | {"ok"}
        cls = {n: 0 for n in nodes}
        cls["ok"] = 1
        k = 2
        while True:
            sig = {n: (cls[n] == 1, frozenset((l, cls[b]) for l, b in self.edges.get(n, ()))) for n in nodes}
            ids = {}
            new = {n: ids.setdefault(s, len(ids)) for n, s in sig.items()}
            if len(ids) == k:
                break
            k = len(ids)
            cls = new
        g = {}
        for n in nodes:
            g.setdefault(cls[n], set()).update((l, cls[b]) for l, b in self.edges.get(n, ()))
        # states with one unlabelled way on are that way
        while True:
            one = {n: next(iter(es))[1] for n, es in g.items() if len(es) == 1 and next(iter(es))[0] is None and next(iter(es))[1] != n}
            one = {a: b for a, b in one.items() if b not in one}
            if not one:
                break
            r = lambda x: one.get(x, x)
            cls = {n: r(c) for n, c in cls.items()}
            g = {n: {(l, r(b)) for l, b in es} for n, es in g.items() if n not in one}
        self.g = g
        self.ok = cls["ok"]
        self.first = cls[self.start]

    def is_stream(self, ev):
        d = self.ty.of(ev.result)
        if d is not None and d.strip_refs().k == "adt":
            return d.strip_refs().d == self.ns.kval
        x = ev.args[0] if ev.args else None
        t = self.ty.of(x) if isinstance(x, T) else None
        return t is not None and holds(t, {self.ns.kval})

    def category(self, t):
        """What a written or rebuilt thing is."""
        ns = self.ns
        t = t.strip_refs() if t is not None else None
        if t is None or t.k != "adt":
            return None
        if t.d == ns.param:
            return "param"
        if t.d == ns.qv:
            return "ref"
        if t.d in ns.ids:
            return "ids"
        if t.d == absint.OPTION and t.a and self.record(t.a[0]):
            return "list"
        if self.recordd(t.d) and len(self.prog.adts[t.d]["v"]) > 1:
            return "item"
        if t.d in ("alloc::boxed::Box",) and t.a:
            return self.category(t.a[0])
        return None

    def label(self, ev):
        ns = self.ns
        if ev.kind in ("local", "rec") and ev.target is not None and ev.target.body is not None and ev.target.body.d in self.cuts:
            c = self.cuts[ev.target.body.d]
            if c == "ids" and self.stream is None:
                x = next((a for a in ev.args if isinstance(a, T) and self.adt(a) in ns.ids), None)
                return ("part", c, x.id if x is not None else None)
            return ("part", c)
        if ev.kind in ("iter", "iter-end"):
            if ev.result in self.tok:
                return ("take", self.tok[ev.result]) if ev.kind == "iter" else ("never",)
            c = self.loop_category(ev)
            if c is not None and self.stream is None:
                return ("in" if ev.kind == "iter" else "out", c)
            if self.stream is not None and ev.kind == "iter":
                b = self.bound(ev)
                if b is not None:
                    return ("reset", b)
            return ("reset", None)
        if ev.kind in ("push", "insert"):
            if self.stream is None and any("models::extend_vec" in str(x) for x in ev.stack()) and any(
                    isinstance(a, T) and self.ty.of(a) is not None and holds(self.ty.of(a), {ns.kval}) for a in ev.args):
                self.unsure = "values are put out in bulk at %s" % ev.where()
            return self.put(ev)
        if self.stream is None:
            if ev.kind in ("ext", "local") and ev.name in ("extend", "append", "extend_from_slice", "splice", "resize") and any(
                    isinstance(a, T) and self.ty.of(a) is not None and holds(self.ty.of(a), {ns.kval}) for a in ev.args):
                self.unsure = "values are put out in bulk at %s" % ev.where()
        return None

    def bound(self, ev):
        """The token that says how often a loop goes round."""
        x = ev.args[0] if ev.args else None
        if isinstance(x, T) and x.op == "agg" and last(x.a[0]) == "Range":
            return self.straight(args(x)[1])
        return None

    def loop_category(self, ev):
        e = ev.result
        it = ev.args[0] if ev.args else None
        if not isinstance(it, T):
            return None
        if it.op == "app" and it.a[0] == "iter":
            t = self.ty.of(it.a[1])
            t = t.strip_refs() if t is not None else None
            if t is not None and t.k == "adt" and t.a:
                if last(t.d) in ("BTreeMap", "HashMap") and len(t.a) > 1:
                    return self.category(t.a[1])
                x = t.a[0].strip_refs()
                if x.k == "tuple" and len(x.a) == 2:
                    return self.category(x.a[1])
        return None

    def put(self, ev):
        ns = self.ns
        v = ev.args[-1]
        if self.stream is None:
            t = self.ty.of(v)
            if v.op == "agg" and v.a[0] == ns.kval:
                return ("put", frozenset([(v.a[1], constant(v))]), self.role(v))
            if v.op == "app" and isinstance(v.a[0], str):
                fs = [f for d, f in self.made.items() if last(d) == last(v.a[0])]
                if fs:
                    return ("put", frozenset(fs[0]) if fs[0] else None, self.role(v))
            if t is not None and t.strip_refs().k == "adt" and t.strip_refs().d == ns.kval:
                return ("put", None, self.role(v))
            return None
        # something rebuilt
        k = None
        if ev.kind == "push" and v.op == "agg" and v.a[0] == "()" and len(args(v)) == 2:
            k, v = args(v)
        elif ev.kind == "insert" and len(ev.args) == 3:
            k = ev.args[1]
        else:
            return None
        return self.rebuilt(k, v)

    def rebuilt(self, k, v):
        ns = self.ns
        if v.op == "agg":
            d, vi = v.a[0], v.a[1]
            p = args(v)
            key = self.straight(k) if k is not None else None
            if d == ns.param:
                st = None
                for q in p:
                    if q.op == "agg" and q.a[0] == ns.qv:
                        st = ns.names(ns.qv, [q.a[1]])
                return ("result", "param", ns.names(d, [vi]), st, None, key)
            if d == ns.qv:
                return ("result", "ref", None, ns.names(d, [vi]), None, key)
            if d in ns.ids:
                return ("result", "ids", ns.names(d, [vi]), None, None, key)
            if d == absint.OPTION and self.what != "ref":
                return ("result", "list", None, None, frozenset([("None", "Some")[vi]]), key)
            if self.recordd(d) and len(self.prog.adts[d]["v"]) > 1:
                opt = None
                for x in p:
                    if x.op == "agg" and self.recordd(x.a[0]):
                        for y in args(x):
                            if y.op == "agg" and y.a[0] == absint.OPTION:
                                opt = (frozenset([("None", "Some")[y.a[1]]]), self.straight(args(y)[0]) if args(y) else None)
                return ("result", "item", ns.names(d, [vi]), opt, None, key)
            return None
        c = self.category(self.ty.of(v))
        return ("result", c, None, None, None, self.straight(k) if k is not None else None) if c else None

    def returned(self, r):
        """Fields of the rebuilt record that hold numbers of the stream."""
        out = []
        if self.stream is None:
            return out
        if self.what in CATS:
            v = r
            while v.op == "agg" and v.a[0] in (absint.RESULT, absint.OPTION) and args(v):
                v = args(v)[0]
            l = self.rebuilt(None, v)
            if l is not None and l[1] == self.what:
                out.append(l)
            else:
                out.append(("result", self.what, None, None, None, None))
        for x in subterms(r):
            if x.op == "agg" and self.recordd(x.a[0]):
                v = self.prog.adts[x.a[0]]["v"]
                for i, y in enumerate(args(x)):
                    t = self.straight(y)
                    if t is not None and x.a[1] < len(v) and i < len(v[x.a[1]]["f"]):
                        out.append(("field", v[x.a[1]]["f"][i]["n"], t))
        return out

    def role(self, v):
        """What a number put out is: how many follow, which one, or a field."""
        x = args(v)[0] if v.op == "agg" and args(v) else v.a[1] if v.op == "app" and len(v.a) == 2 else None
        while isinstance(x, T) and (x.op == "cast" or x.op == "app" and isinstance(x.a[0], str) and x.a[0].startswith("cast") and len(x.a) == 2):
            x = next(y for y in x.a if isinstance(y, T))
        if not isinstance(x, T):
            return None
        if x.op == "app" and x.a[0] == "len":
            return "count"
        if x.op == "fld" and x.a[0].op == "elem" and x.a[2] == 0:
            return "key"
        for y in (x, x.a[0] if x.op == "fld" and isinstance(x.a[0], T) else None):
            if isinstance(y, T) and y.op == "fld":
                b = self.ty.of(y.a[0])
                b = b.strip_refs() if b is not None else None
                if b is not None and b.k == "adt" and self.recordd(b.d):
                    vs = self.prog.adts[b.d]["v"]
                    vi = max(y.a[1], 0)
                    if vi < len(vs) and y.a[2] < len(vs[vi]["f"]):
                        return "field %s" % vs[vi]["f"][y.a[2]]["n"]
        return None


def args(t):
    p = t.a[2:]
    if len(p) == 1 and isinstance(p[0], tuple):
        p = p[0]
    return [x for x in p if isinstance(x, T)]


# --- units

def shape(prog, ns, t):
    """What a type of the writer or the reader stands for."""
    t = t.strip_refs()
    while t.k == "adt" and t.d in (absint.RESULT, absint.OPTION) and t.a:
        t = t.a[0].strip_refs()
    if t.k != "adt":
        return None
    if t.d == ns.param:
        return "param"
    if t.d == ns.qv:
        return "ref"
    if t.d in ns.ids:
        return "ids"
    if t.d not in prog._records:
        return None
    if len(prog.adts[t.d]["v"]) > 1:
        return "item"
    fs = [f["t"] for f in prog.adts[t.d]["v"][0]["f"] if f["t"] is not None]
    direct = {x.d for f in fs for x in f.walk() if x.k == "adt"}
    if any(d in prog._records and len(prog.adts[d]["v"]) > 1 for d in direct):
        return "list"
    if ns.param in direct:
        return "body" if ns.qv in direct else "root"
    return "create"


def pick(prog, ns, cg, fns, typed):
    """The outermost functions dealing with each shape."""
    out = {}
    for b in fns:
        c = typed(b)
        if c is not None:
            out.setdefault(c, []).append(b)
    for c, bs in out.items():
        ds = {b.d for b in bs}
        below = {b.d: set() for b in bs}
        for b in bs:
            for k in cg.reach([cg.inst(b)], ("call", "hof")):
                x = cg.insts[k].body
                if x is not None and x.d in ds and x.d != b.d:
                    below[b.d].add(x.d)
        bs.sort(key=lambda b: (-len(below[b.d]), b.p))
    return out


def compatible(wa, ra):
    for k, v in ra:
        for k2, v2 in wa:
            if k == k2 and not v & v2:
                return False
    return True


def put(atoms, k, v):
    old = dict(atoms)
    if k in old and old[k] & v:
        v = old[k] & v
    old[k] = v
    return frozenset(old.items())


def drop(atoms, ks):
    return frozenset((k, v) for k, v in atoms if k not in ks)


class Compare:
    """Every way of the writer is a way of the reader."""
    limit = 60000

    def __init__(self, ns, what, w, r):
        self.ns, self.what, self.w, self.r = ns, what, w, r
        self.tags = {c: i for i, c in enumerate(CATS)}
        self.memo = {}
        self.found = {}
        self.paths = 0

    # a reader's position: node, what it knows, which results are there, roles of numbers read, the value at hand
    def close(self, cfgs, wa):
        out, seen, todo = set(), set(cfgs), list(cfgs)
        while todo:
            c = todo.pop()
            n, ra, done, env, cur = c
            if n == self.r.ok:
                out.add(c)
            for l, b in self.r.g.get(n, ()):
                if l is not None and l[0] in ("take", "part"):
                    out.add(c)
                    continue
                x = self.silent(l, b, ra, done, env, cur, wa)
                if x is not None and x not in seen:
                    seen.add(x)
                    todo.append(x)
        return frozenset(out)

    def silent(self, l, b, ra, done, env, cur, wa):
        if l is None:
            return (b, ra, done, env, cur)
        k = l[0]
        if k == "never":
            return None
        if k == "reset":
            if l[1] is not None:
                r = dict(env).get(l[1])
                if r is not None and r != "count":
                    self.why = "a loop is bounded by a number written as %s" % r
                    return None
            return (b, drop(ra, MEMBER) if self.what != "param" else ra, done, env, cur)
        if k == "atom":
            if l[1] == "ids" and any(a == "ids" and not v & l[2] for a, v in wa):
                return None
            if any(a == l[1] and not v & l[2] for a, v in ra):
                # another member
                ra = drop(ra, MEMBER) if l[1] in MEMBER else drop(ra, (l[1],))
            return (b, put(ra, l[1], l[2]), done, env, cur)
        if k == "form":
            if cur is not None and cur[0] is not None and cur[0] not in l[1]:
                return None
            return (b, ra, done, env, cur)
        if k == "took":
            t = self.r.taken.get(l[1])
            if cur is not None and cur[0] is not None and t is not None:
                yes, no, same = t
                f = cur[0]
                good = (1 if f in yes else None) if f not in no else (0 if f not in yes else None)
                if good is not None:
                    opt = 1 in l[2] if l[1] in self.r.opts else 0 in l[2]
                    if bool(good) != opt:
                        return None
            return (b, ra, done, env, cur)
        if k == "value":
            t = self.r.taken.get(l[1])
            if cur is not None and cur[1] is not None and t is not None and cur[0] in t[2] and cur[1] not in l[2]:
                return None
            return (b, ra, done, env, cur)
        if k == "result":
            c = l[1]
            i = self.tags[c]
            if done[i] != 0:
                return None
            w = dict(wa)
            if c == "param" and l[2] is not None and any(a == "type" and not v & l[2] for a, v in ra):
                return None
            if c == "param" and (l[2] is not None and "type" in w and not l[2] & w["type"] or l[3] is not None and "state" in w and not l[3] & w["state"]):
                return None
            if c == "ref" and l[3] is not None and "state" in w and not l[3] & w["state"]:
                return None
            if c == "list" and l[4] is not None and "there" in w and not l[4] & w["there"]:
                return None
            if c == "ids" and l[2] is not None:
                own = [v for a, v in wa if a.startswith("ids#")]
                # none and no bits are the same set
                if own and not l[2] & own[0] and not any(x in self.r.empty_ids for x in l[2] | own[0]):
                    return None
            if c == "item":
                if l[2] is not None and "op" in w and not l[2] & w["op"]:
                    return None
                if l[3] is not None:
                    if "opt" in w and not l[3][0] & w["opt"]:
                        return None
                    if l[3][1] is not None and str(dict(env).get(l[3][1]) or "field").split()[0] != "field":
                        return None
            if l[5] is not None and dict(env).get(l[5]) not in (None, "key"):
                return None
            d = list(done)
            d[i] = 1
            return (b, ra, tuple(d), env, cur)
        if k == "field":
            r = dict(env).get(l[2])
            if r is not None and r != "field %s" % l[1]:
                return None
            return (b, ra, done, env, cur)
        return (b, ra, done, env, cur)

    def take(self, cfgs, wa, form, role, part=None):
        out = set()
        for n, ra, done, env, cur in cfgs:
            if not compatible(drop(wa, ("ids",)) if part == "ids" else wa, ra):
                continue
            for l, b in self.r.g.get(n, ()):
                if l is None:
                    continue
                if part is None and l[0] == "take":
                    e = dict(env)
                    e.pop(l[1], None)
                    if role is not None:
                        e[l[1]] = role
                    out.add((b, ra, done, frozenset(e.items()), form or (None, None)))
                elif part is not None and l == ("part", part):
                    out.add((b, drop(ra, ("ids",)) if part == "ids" else ra, done, env, None))
        return self.close(out, wa)

    def run(self):
        w, r = self.w, self.r
        done = [1] * len(CATS)
        if self.what in self.tags:
            done[self.tags[self.what]] = 0
        S = self.close({(r.first, frozenset(), tuple(done), frozenset(), None)}, frozenset())
        starts = [(w.first, frozenset(), S)]
        if self.what == "param":
            # one member: whatever its type
            starts = [(w.first, a, self.close({(r.first, frozenset(), tuple(done), frozenset(), None)}, a)) for t in self.ns.types for a in [frozenset([("type", frozenset([t]))])]]
        seen, todo = set(starts), [(x, None) for x in starts]
        while todo:
            (n, wa, S), how = todo.pop()
            self.paths += 1
            if self.paths > self.limit:
                raise Budget("too many pairs of positions")
            if n == w.ok:
                if not any(c[0] == r.ok and all(c[2]) for c in S):
                    self.report("end", None, wa, S, how)
                continue
            for l, b in w.g.get(n, ()):
                for wa2, S2 in self.step(l, wa, S, how):
                    x = (b, wa2, S2)
                    if x not in seen:
                        seen.add(x)
                        todo.append((x, (l, how) if l is not None and l[0] in ("put", "part", "in", "atom") else how))

    def step(self, l, wa, S, how):
        if l is None:
            return [(wa, S)]
        k = l[0]
        if k == "atom":
            if any(a == l[1] and not v & l[2] for a, v in wa):
                if l[1] not in MEMBER or self.what == "param":
                    return []
                wa = drop(wa, MEMBER)
            return [(put(wa, l[1], l[2]), S)]
        if k in ("in", "out", "reset"):
            wa2 = drop(wa, MEMBER)
            if k == "reset":
                return [(wa if self.what == "param" else wa2, S)]
            if k == "in" and l[1] != "item" and any(a == "ids" and all(x in self.r.empty_ids for x in v) for a, v in wa):
                return []       # no members are written when none are announced
            i = self.tags[l[1]]
            if l[1] == "item":
                wa2 = drop(wa2, ("op", "opt"))
            S2 = set()
            for c in S:
                if c[2][i] != 0:
                    d = list(c[2])
                    d[i] = 0 if k == "in" else 1
                    S2.add(c[:2] + (tuple(d),) + c[3:])
            if not S2:
                self.report("result", l, wa, S, how)
                return []
            # what was waiting for this may go on
            return [(wa2, self.close(S2, wa2))]
        if k == "part" and l[1] == "ids":
            # the reader has to cope with whichever form the set of members takes
            out = []
            own = "ids#%s" % l[2]
            for v in self.ns.id_forms:
                if any(a == own and v not in x for a, x in wa):
                    continue
                wa2 = put(put(drop(wa, ("ids", own)), "ids", frozenset([v])), own, frozenset([v]))
                S2 = self.take(S, wa2, None, None, "ids")
                if not S2:
                    self.report("part", l, wa2, S, how)
                    continue
                out.append((wa2, S2))
            return out
        if k == "part":
            S2 = self.take(S, wa, None, None, l[1])
            if not S2:
                self.report("part", l, wa, S, how)
                return []
            return [(wa, S2)]
        if k == "put":
            out = []
            for f in sorted(l[1], key=str) if l[1] else [None]:
                S2 = self.take(S, wa, f and (self.ns.back.get(f[0], f[0]), f[1]), l[2])
                if not S2:
                    self.report("value", l, wa, S, how, f)
                    continue
                out.append((wa, S2))
            return out
        return [(wa, S)]

    def report(self, rule, l, wa, S, how, form=None):
        ev = self.w.where.get(l) if l is not None else None
        # the value may be put out at several places: name the unit and the case
        case = ", ".join("%s %s" % (k, "/".join(sorted(v))) for k, v in sorted(wa) if "#" not in k)
        seq = []
        h = how
        while h is not None and len(seq) < 6:
            if h[0][0] == "put":
                seq.append("/".join(sorted({self.ns.form(f[0]) for f in h[0][1]})) if h[0][1] else "?")
            elif h[0][0] == "part":
                seq.append("<%s>" % h[0][1])
            elif h[0][0] == "in":
                seq.append("[next %s]" % h[0][1])
                break
            h = h[1]
        seq.reverse()
        now = self.ns.form(form[0]) if form else "<%s>" % l[1] if l is not None and l[0] == "part" else "a value" if rule == "value" else None
        if rule == "end":
            msg = "the writer stops after %s, the reader expects more or rebuilds something else" % (" ".join(seq) or "nothing")
        elif rule == "result":
            msg = "the writer is done with a %s after %s, the reader has not rebuilt it (or rebuilt another kind, type or state)" % (l[1], " ".join(seq) or "nothing")
        else:
            msg = "the writer puts out %s after %s; the reader has no way to take it there" % (now, " ".join(seq) or "nothing")
        if case:
            msg += " (%s)" % case
        key = "%s:%s:%s" % (self.what, rule, ",".join("%s=%s" % (k, "/".join(sorted(v))) for k, v in sorted(wa) if not k.startswith("ids")))
        if len(self.found) < 8 and key not in self.found:
            b = self.w.b
            self.found[key] = ("%s, against %s" % (msg, self.r.b.p), ev.where() if ev is not None else b.where(b.line))

    def tell(self, ctx):
        for k, (m, w) in self.found.items():
            ctx.violation(k, m, w)


def after(g, first, then, stop):
    """Can an edge of the second sort be come to from one of the first, without one that stops?"""
    todo, seen = [b for es in g.values() for l, b in es if l is not None and first(l)], set()
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        for l, b in g.get(x, ()):
            if l is not None and then(l):
                return l
            if l is None or not stop(l):
                todo.append(b)
    return None


def positions(prog, ctx, ns, ms):
    """The members announced by a set of numbers: the same number, the same member, one sort of member after the other."""
    ctx.rule("the bit a number is written as is the bit it is read back from; a member is kept under the number it was looked up by")
    for b in prog.fns(DIFF):
        t = b.locals[0]
        if b.kind == "fn" and b.argc >= 1 and any(x.k == "adt" and x.d in ns.ids for x in t.walk()) and not any(x.k == "adt" and x.d in ns.ids for l in b.locals[1:b.argc + 1] for x in l.walk()):
            try:
                bitpos.writer(ctx, prog, b, ns.ids, ("models", DIFF))
            except Budget as e:
                ctx.undecide(str(e))
    told = set()
    for m in ms:
        r = m.r
        if r.b.d in told or m.what == "ids":
            continue
        told.add(r.b.d)
        res = []
        for _, ev, _ in r.e.events():
            if ev.kind == "push" and ev.args[-1].op == "agg" and ev.args[-1].a[0] == "()" and len(args(ev.args[-1])) == 2:
                k = args(ev.args[-1])[0]
            elif ev.kind == "insert" and len(ev.args) == 3:
                k = ev.args[1]
            else:
                continue
            l = r.label(ev)
            if l is not None and l[0] == "result" and l[1] in MEMBERS:
                res.append((ev, k))
        bitpos.reader(ctx, r.e, res)
        bitpos.ranges(ctx, r.e, res)
    for m in ms:
        if m.what not in ("body", "root"):
            continue
        stop = lambda l: l[0] == "part" and l[1] == "ids"
        if not all(any(l is not None and stop(l) for es in s.g.values() for l, b in es) for s in (m.w, m.r)):
            continue
        for c, d in (("param", "list"), ("list", "param")):
            w = after(m.w.g, lambda l: l[0] in ("in", "out") and l[1] == c, lambda l: l[0] == "in" and l[1] == d, stop)
            q = after(m.r.g, lambda l: l[0] == "result" and l[1] == c, lambda l: l[0] == "result" and l[1] == d, stop)
            ctx.count("orders of members compared")
            if q and not w:
                ctx.violation("order %s %s" % (m.r.b.p, c), "the reader can take a %s after a %s of the same object, the writer never puts them out in that order" % (d, c), m.r.b.where(m.r.b.line))


MEMBERS = ("param", "list", "ref")


def run(prog, ctx):
    ctx.rule("value: each value the writer puts out is taken by the reader at that place, in every form it may have, for every member kind, variability, type and state")
    ctx.rule("part: a part written by a function of its own is read by the reader's function for that part")
    ctx.rule("result, end: for each thing written the reader rebuilds one thing of the same type, state and operation, and stops when the writer does")
    ns = Names(prog)
    import c10
    c10.records(prog, {"RustParam": ns.param, "Qv": ns.qv})
    ns.back = {}
    vs = [v["n"] for v in prog.adts[ns.kval]["v"]]
    ns.form = lambda i: vs[i]
    # shared bytes come back as bytes of one's own
    if "BinaryArc" in vs and "Binary" in vs:
        ns.back[vs.index("BinaryArc")] = vs.index("Binary")
    ns.types = sorted(v["n"] for v in prog.adts[ns.param]["v"])
    ns.id_forms = sorted({v["n"] for d in ns.ids for v in prog.adts[d]["v"]})
    made, taken = tokens_made(prog, ns), tokens_taken(prog, ns)
    cg = CallGraph(prog)
    holders = {d for d in prog.local_adts if str(d).split("::")[0] == DIFF and any(
        f["t"] is not None and any(y.k == "adt" and y.d == ns.kval for y in f["t"].walk()) for v in prog.adts[d]["v"] for f in v["f"])}
    fns = [b for b in prog.fns(DIFF) if b.kind == "fn"]
    out = lambda t: t.k == "ref" and t.m and t.strip_refs().k == "adt" and last(t.strip_refs().d) == "Vec" and holds(t, {ns.kval})
    inp = lambda t: t.k == "ref" and t.m and t.strip_refs().k == "adt" and t.strip_refs().d in holders
    gives = lambda t: t.k == "adt" and any(x.k == "adt" and last(x.d) == "Vec" and holds(x, {ns.kval}) for x in t.walk())
    wfns = [b for b in fns if any(out(t) for t in b.locals[1:b.argc + 1]) or gives(b.locals[0]) and any(shape(prog, ns, t) for t in b.locals[1:b.argc + 1])]
    rfns = [b for b in fns if any(inp(t) for t in b.locals[1:b.argc + 1]) and b.self_ty is None or any(inp(t) for t in b.locals[1:b.argc + 1]) and shape(prog, ns, b.locals[0])]

    def wshape(b):
        cs = [c for c in (shape(prog, ns, t) for t in b.locals[1:b.argc + 1] if not out(t) and t.strip_refs().k == "adt" and t.strip_refs().d not in (absint.OPTION,)) if c]
        return cs[0] if len(cs) == 1 else None
    W = pick(prog, ns, cg, wfns, wshape)
    R = pick(prog, ns, cg, rfns, lambda b: shape(prog, ns, b.locals[0]))
    for c in ("root", "list"):
        if c not in W or c not in R:
            raise Anchor("writer or reader of a whole difference or of a list's not found (%s; %s)" % (sorted(W), sorted(R)))
    opts = {d for d in taken if prog.bodies[d].locals[0].d == absint.OPTION}
    empty = {v["n"] for d in ns.ids for v in prog.adts[d]["v"] if not v["f"]}
    sides, results = {}, {}

    def side(b, cuts, stream, c):
        k = (b.d, tuple(sorted(cuts.items())), c)
        if k not in sides:
            try:
                x = Side(prog, ns, b, cuts, made, taken, stream, c)
                x.opts, x.empty_ids = opts, empty
                sides[k] = x
            except Budget as e:
                sides[k] = str(e)
        return sides[k]

    def judge(c, w, r, cuts):
        """None if the writer is included in the reader, else what is wrong; a text if it cannot be said."""
        wc = {x[0].d: n for n, x in cuts.items() if x is not None}
        rc = {x[1].d: n for n, x in cuts.items() if x is not None}
        k = (c, w.d, r.d, tuple(sorted(wc.items())), tuple(sorted(rc.items())))
        if k not in results:
            ws, rs = side(w, wc, None, c), side(r, rc, 1, c)
            bad = next((x for x in (ws, rs) if isinstance(x, str)), None) or ws.unsure or rs.unsure
            if bad:
                results[k] = bad
            else:
                m = Compare(ns, c, ws, rs)
                try:
                    m.run()
                except Budget as e:
                    m = str(e)
                results[k] = m
        return results[k]

    def good(m):
        return not isinstance(m, str) and not m.found

    def pairs(c):
        return sorted(((w, r) for w in W.get(c, ()) for r in R.get(c, ())), key=lambda p: W[c].index(p[0]) + R[c].index(p[1]) + 4 * any(x.k == "adt" and x.d == absint.OPTION for x in p[1].locals[0].walk()))[:9]
    leaves, broken = {}, {}
    for c in ("ids", "param"):
        fine = [p for p in pairs(c) if good(judge(c, p[0], p[1], {}))]
        leaves[c] = fine + [None]
        if not fine and pairs(c):
            broken[c] = judge(c, *pairs(c)[0], {})
    best, steps = None, 0
    for a in leaves["ids"]:
        for p in leaves["param"]:
            steps += sum(len(x.e.nodes) if not isinstance(x, str) else Client.max_nodes for x in sides.values()) if best else 0
            if steps > 400000:
                break
            cuts = {"ids": a, "param": p}
            ms, whole = [], None
            for l in pairs("list"):
                whole = dict(cuts, list=l)
                bs = [judge("body", *x, whole) for x in pairs("body")]
                fit = next((x for x, m in zip(pairs("body"), bs) if good(m)), None)
                ms = [m for x, m in zip(pairs("body"), bs) if x == fit] if fit else bs[:1]
                whole["body"] = fit or (pairs("body")[0] if pairs("body") else None)
                m = judge("list", *l, whole)
                ms.append(m)
                if all(good(x) for x in ms):
                    break
            rs = [judge("root", *x, whole) for x in pairs("root")]
            ms.append(next((m for m in rs if good(m)), rs[0]))
            if best is None or all(good(m) for m in ms):
                best = (cuts, ms)
            if all(good(m) for m in ms):
                break
        if best is not None and all(good(m) for m in best[1]):
            break
    cuts, ms = best
    for c, p in cuts.items():
        if p is not None:
            ms.append(judge(c, *p, {}))
    if not all(good(m) for m in ms):
        # what is wrong is said of the smallest part it shows in
        small = [m for m in broken.values() if not isinstance(m, str)]
        for m in small or ms:
            if isinstance(m, str):
                ctx.undecide(m)
            else:
                m.tell(ctx)
    positions(prog, ctx, ns, [m for m in ms if not isinstance(m, str)])
    for m in ms:
        if isinstance(m, str):
            continue
        ctx.count("units compared")
        ctx.count("pairs of positions", m.paths)
        ctx.count("values put out", len([1 for es in m.w.g.values() for l, b in es if l is not None and l[0] == "put"]))
        ctx.count("values taken", len([1 for es in m.r.g.values() for l, b in es if l is not None and l[0] == "take"]))
        ctx.analysed.append("%s / %s" % (m.w.b.p, m.r.b.p))
    ctx.floor("units compared", 2)
    ctx.floor("values put out", 10)
    ctx.floor("values taken", 10)
