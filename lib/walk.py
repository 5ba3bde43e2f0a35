"""Coverage of a data structure by a family of functions.

Question: does a function, together with the functions of its family that it calls, deal with
every part of one of its arguments?  The parts follow from the type: fields of structs, payloads
of variants, elements of collections, down to leaves for which the client says what "dealing"
means.  A part is dealt with on a path if it (or something containing it) is handed to a family
function that deals with it, if its own parts are, or, for a leaf, as the client decides.

Decided on the abstract graph of each function: a part is missed if some way through the
function (through one round of a loop for the elements of a collection) completes without
dealing with it.  Recursion is resolved coinductively.
"""
import absint
import models
from absint import mk, app, show, T
from terms import Typer, shell, field_ty, last, MAPS, SEQS, reach_without

RESTRICT = ("skip", "take", "step_by")
COLLS = MAPS + SEQS + ("LinkedMap",)


class Follow(absint.Client):
    """Follows accessors and closures; iterators of the repository count as iterators."""
    cap = 200
    small = 3

    def __init__(self, fam, crates):
        self.fam = fam
        self.crates = crates

    def inline(self, eng, fr, tg):
        b = tg.body
        if b is None or b.crate not in self.crates and b.crate != "models":
            return False
        return b.kind == "closure" or b.crate == "models" or (b.d not in self.fam and len(b.reach) <= self.small)

    def call(self, eng, s, fr, bi, t, tg, args):
        if tg.kind == "local" and tg.body is not None and tg.body.crate != "models" and args and \
                tg.body.name == "next" and stepping(eng.prog, tg.body):
            v = eng.deep(s, args[0])
            rs = models.next_item(eng, s, fr, bi, t, tg, app("iter", v))
            rt = tg.body.locals[0]
            e = rs[1][1].a[2]
            if rt.k == "adt" and rt.a:
                from inst import subst
                env = {}
                if tg.body.generics:
                    env = dict(zip(tg.body.generics, tg.args))
                    env.update(bound(eng, tg.body.locals[1].strip_refs(), v))
                eng.app_ty[e.id] = subst(rt.a[0], env) if env else rt.a[0]
            return rs
        return None


def bound(eng, ty, v):
    """What the parameters of a type stand for, from the parts a value of it is made of."""
    from terms import Typer
    from inst import subst
    out = {}

    def match(t, c):
        if t is None or c is None:
            return
        if t.k == "param":
            if c.k not in ("param", "proj", "alias"):
                out.setdefault(t.n, c)
            return
        if t.k in ("ref", "ptr"):
            match(t.t, c.t if c.k in ("ref", "ptr") else c)
        elif t.k == c.k == "adt" and t.d == c.d or t.k == c.k == "tuple":
            for x, y in zip(t.a, c.a):
                match(x, y)

    def parts(t, x):
        if t is None:
            return
        t = t.strip_refs()
        a = eng.prog.adts.get(t.d) if t.k == "adt" else None
        if x.op == "agg" and a is not None and x.a[0] == t.d and isinstance(x.a[1], int) and x.a[1] < len(a["v"]):
            for f, y in zip(a["v"][x.a[1]]["f"], x.a[2:]):
                if isinstance(y, absint.T) and f["t"] is not None:
                    parts(subst(f["t"], dict(zip(a["g"], t.a))), y)
        elif x.op != "agg":
            c = Typer(eng).of(x)
            match(t, c.strip_refs() if c is not None else None)
    parts(ty, v)
    return out


def stepping(prog, b):
    """`next` of an iterator, be it the trait's or an own one beside it."""
    if b.trait is not None:
        return b.trait.split("<")[0].endswith("Iterator")
    if b.argc != 1 or b.locals[0].k != "adt" or b.locals[0].d != absint.OPTION:
        return False
    if not hasattr(prog, "_steppers"):
        prog._steppers = {x.locals[1].strip_refs().d for x in prog.fns() if x.name == "next" and x.argc == 1
                          and (x.trait or "").split("<")[0].endswith("Iterator") and x.locals[1].strip_refs().k == "adt"}
    t = b.locals[1].strip_refs()
    return t.k == "adt" and t.d in prog._steppers


class Graph:
    """Analysis of one function."""

    def __init__(self, prog, body, client):
        self.body = body
        self.e = absint.Engine(prog, client).run(body)
        self.ty = Typer(self.e)
        self.iters = {}          # element term -> (source term, [nodes after the iter edge])
        for a, evs, b in self.e.edges:
            for ev in evs:
                if ev.kind == "iter" and b is not None and not hasattr(b, "ret"):
                    src, st = self.iters.setdefault(ev.result, (ev.args[0], []))
                    st.append(b.num)

    def arg(self, i):
        return mk("sym", "arg%d:%s" % (i, self.body.names.get(i, "")))


def prefixes(x):
    """x and the terms x is a part of, with the path from there to x."""
    out = [(x, ())]
    path = ()
    while x.op == "fld":
        path = ((x.a[1], x.a[2]),) + path
        x = x.a[0]
        out.append((x, path))
    return out


def known(facts, t):
    if t.op == "agg":
        return frozenset([t.a[1]])
    f = facts.get(t)
    return f if isinstance(f, frozenset) else None


class Walk:
    """Subclass: family(body), leaf(G, need…) hooks."""

    def __init__(self, prog, crates):
        self.prog = prog
        self.crates = crates
        self.graphs = {}
        self.memo = {}
        self.looking = set()
        self.fam = {b.d for b in prog.fns() if b.crate in crates and b.kind != "closure" and self.family(b)}
        self._dem = {}
        self.parts = 0

    # ---- client -------------------------------------------------------------------------
    def family(self, b):
        return False

    def leaf(self, name, vi):
        """Kind of a leaf: None (not a leaf), "skip" or a client-defined kind; vi is None for the
        type as a whole."""
        return None

    def leaf_ok(self, G, start, done, x, ty, restr, kind, vi):
        """None, or why the leaf is not dealt with."""
        return None

    def implied(self, G, x, vi):
        """Further restrictions that follow from x being variant vi."""
        return ()

    def completes(self, G, ex):
        """Is this exit a completed run?"""
        if ex.kind != "return":
            return False
        r = ex.ret
        if r is None:
            return True
        k = known(ex.state.facts, r)
        rt = G.body.locals[0]
        if rt.k == "adt" and last(rt.d) == "Result" and k is not None and 0 not in k:
            return False
        return True

    # ---- types --------------------------------------------------------------------------
    def demanding(self, ty, seen=()):
        """Does a value of this type have parts to be dealt with?"""
        ty = shell(ty)
        if ty is None:
            return False
        if ty.k in ("tuple",):
            return any(self.demanding(x, seen) for x in ty.a)
        if ty.k in ("slice", "array"):
            return self.demanding(ty.t, seen)
        if ty.k != "adt":
            return False
        key = repr(ty)
        if key in self._dem:
            return self._dem[key]
        if key in seen:
            return False
        r = self._demanding(ty, seen + (key,))
        if r or not seen:
            self._dem[key] = r
        return r

    def _demanding(self, ty, seen):
        n = last(ty.d)
        l = self.leaf(n, None)
        if l is not None:
            return l != "skip"
        if n in COLLS:
            return any(self.demanding(x, seen) for x in ty.a)
        a = self.prog.adts.get(ty.d)
        if a is None:
            if n == "Option":
                return self.demanding(ty.a[0], seen)
            return False
        if n != "Option" and ty.d not in self.prog.local_adts:
            return False
        for vi, v in enumerate(a["v"]):
            l = self.leaf(n, vi)
            if l is not None:
                if l != "skip":
                    return True
                continue
            for i in range(len(v["f"])):
                if self.demanding(field_ty(self.prog, ty, vi, i), seen):
                    return True
        return False

    def graph(self, b):
        if b.d not in self.graphs:
            self.graphs[b.d] = Graph(self.prog, b, Follow(self.fam, self.crates))
        return self.graphs[b.d]

    # ---- the decision -------------------------------------------------------------------
    def solve(self, b, i):
        """Greatest fixpoint: what was assumed of recursive calls is dropped when a failure turns up."""
        while True:
            n = sum(1 for r in self.memo.values() if r is not None)
            self.memo = {k: r for k, r in self.memo.items() if r is not None}
            r = self.sat(b, i)
            if sum(1 for r in self.memo.values() if r is not None) == n:
                return r

    def sat(self, b, i, path=(), ty=None):
        """Does function b deal with (the part at path of) its i-th parameter?  None or a reason."""
        key = (b.d, i, path)
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = None           # coinductive
        G = self.graph(b)
        x = G.arg(i)
        t = ty or b.locals[i]
        for vi, f in path:
            x = mk("fld", x, vi, f)
        r = self.need(G, [G.e.entry.num], None, x, t, ())
        self.memo[key] = r
        return r

    def explore(self, G, start, done, restr, stop_event=None, stop_facts=None, skip_exits=False):
        """A way from start to completion that respects restr (known variants) and is not stopped.
        done: element term of the loop round to complete, None for the function."""
        e = G.e

        def bad(facts):
            for t, v in restr:
                k = known(facts, t)
                if k is not None and v not in k:
                    return True
            return stop_facts is not None and stop_facts(facts)
        seen = set()
        st = []
        for n in start:
            node = self.node(e, n)
            if n not in seen and not bad(node.state.facts):
                seen.add(n); st.append(n)
        while st:
            n = st.pop()
            for evs, b in e.succ.get(n, ()):
                if b is None or bad(evs.facts):
                    continue
                stopped = False
                for ev in evs:
                    if done is not None and ev.kind in ("iter", "iter-end") and ev.result is done:
                        return ("round", ev)
                    if stop_event is not None and stop_event(ev):
                        stopped = True
                        break
                if stopped:
                    continue
                if hasattr(b, "ret"):
                    if not skip_exits and self.completes(G, b):
                        return ("exit", b)
                    continue
                if b.num not in seen and not bad(b.state.facts):
                    seen.add(b.num); st.append(b.num)
        return None

    def node(self, e, num):
        if not hasattr(e, "by_num"):
            e.by_num = {n.num: n for n in e.nodes.values()}
        return e.by_num[num]

    def handover(self, G, x, ty):
        """stop_event for: x, or something x is part of, is handed to a family function that deals with it."""
        pre = {t.id: p for t, p in prefixes(x)}
        memo = {}
        why = []

        def stop(ev):
            if ev.kind not in ("local", "rec") or ev.target is None or ev.target.body is None or ev.target.body.d not in self.fam:
                return False
            if id(ev) in memo:
                return memo[id(ev)]
            r = False
            for i, a in enumerate(ev.args):
                for y in G.e.flat(a):
                    if y.id in pre:
                        res = self.sat(ev.target.body, i + 1, pre[y.id], ty if pre[y.id] else None)
                        if res is None:
                            r = True
                        elif not pre[y.id]:
                            why.append((ev, res))
            memo[id(ev)] = r
            return r
        stop.why = why
        return stop

    def leaf_in(self, b, i, path, ty, kind, vi):
        """Does function b deal with this leaf of its i-th parameter?"""
        key = (b.d, i, path, kind, vi)
        if key not in self.memo:
            self.memo[key] = None
            G = self.graph(b)
            x = G.arg(i)
            for v, f in path:
                x = mk("fld", x, v, f)
            rs = ((x, vi),) + self.implied(G, x, vi) if vi is not None else ()
            self.memo[key] = self.leaf_ok(G, [G.e.entry.num], None, x, ty, rs, kind, vi)
        return self.memo[key]

    def leaf_stop(self, G, x, ty, kind, vi=None):
        """stop_event for: the leaf is handed to a family function that deals with it."""
        pre = {t.id: p for t, p in prefixes(x)}
        memo = {}

        def stop(ev):
            if ev.kind not in ("local", "rec") or ev.target is None or ev.target.body is None or ev.target.body.d not in self.fam:
                return False
            if id(ev) not in memo:
                memo[id(ev)] = any(y.id in pre and self.leaf_in(ev.target.body, i + 1, pre[y.id], ty, kind, vi) is None
                                   for i, a in enumerate(ev.args) for y in G.e.flat(a))
            return memo[id(ev)]
        return stop

    def need(self, G, start, done, x, ty, restr):
        """None if every completion from start deals with x, else a reason (list of strings)."""
        ty = shell(ty)
        if not self.demanding(ty):
            return None
        self.parts += 1
        stop = self.handover(G, x, ty)
        got = self.explore(G, start, done, restr, stop)
        if got is None:
            return None
        n = last(ty.d) if ty.k == "adt" else ty.k
        l = self.leaf(n, None) if ty.k == "adt" else None
        own = "%s: %s %s" % (G.body.p, n, show(x, 5)[:90])
        if l is not None:
            r = self.leaf_ok(G, start, done, x, ty, restr, l, None)
            return None if r is None else [own + ": " + r]
        if ty.k in ("slice", "array") or n in COLLS:
            r = self.elements(G, start, done, x, ty, restr, stop)
        elif ty.k == "tuple":
            r = None
            for i, t in enumerate(ty.a):
                r = r or self.need(G, start, done, mk("fld", x, -1, i), t, restr)
        else:
            r = self.fields(G, start, done, x, ty, n, restr)
        if r is None:
            return None
        if stop.why and (r[0].startswith(own + ":") or r[0].startswith("%s: elements of %s are" % (G.body.p, show(x, 5)[:90]))):
            ev, w = max(stop.why, key=lambda p: len(p[1]))
            r = r[:1] + ["%s hands it to %s" % (ev.where(), ev.target.body.p)] + w
        return r

    def fields(self, G, start, done, x, ty, n, restr):
        a = self.prog.adts.get(ty.d)
        enum = len(a["v"]) > 1
        for vi, v in enumerate(a["v"]):
            rs = restr + ((x, vi),) + self.implied(G, x, vi) if enum else restr
            l = self.leaf(n, vi) if enum else None
            if l == "skip":
                continue
            if l is not None:
                r = self.leaf_ok(G, start, done, x, ty, rs, l, vi)
                if r is not None:
                    return ["%s: %s::%s %s: %s" % (G.body.p, n, v["n"], show(x, 5)[:90], r)]
                continue
            for i in range(len(v["f"])):
                r = self.need(G, start, done, mk("fld", x, vi if enum else -1, i), field_ty(self.prog, ty, vi, i), rs)
                if r is not None:
                    return r
        return None

    def part_adt(self, ty):
        """The demanding type inside the element type of a collection (through tuples)."""
        ty = shell(ty)
        if ty is None:
            return None
        if ty.k == "tuple":
            for x in ty.a:
                if self.demanding(x):
                    return self.part_adt(x)
            return None
        return ty if self.demanding(ty) else None

    def locate(self, G, x, ty, want):
        ty = shell(ty)
        if ty is None:
            return None
        if ty.k == "tuple":
            for i, t in enumerate(ty.a):
                r = self.locate(G, mk("fld", x, -1, i), t, want)
                if r is not None:
                    return r
            return None
        if ty.k == "adt" and ty.d == want.d:
            return x, ty
        return None

    def element(self, G, e, want):
        """The demanding part of an iteration's element."""
        r = self.locate(G, e, G.ty.of(e), want)
        if r is None:
            y = mk("fld", e, -1, 1)
            r = self.locate(G, y, G.ty.of(y), want)
        return r

    def elements(self, G, start, done, x, ty, restr, stop):
        want = None
        for t in ([ty.t] if ty.k != "adt" else reversed(ty.a)):
            want = want or self.part_adt(t)
        own = "%s: elements of %s" % (G.body.p, show(x, 5)[:90])
        good = []
        why = None
        for e, (src, nodes) in G.iters.items():
            subs = list(G.e.deps(src))
            if not any(y is x for y in subs):
                continue
            cut = [y for y in subs if y.op == "app" and y.a[0] in RESTRICT and any(z is x for z in absint.subterms(y))]
            if cut:
                why = why or [own + ": only a part is visited (%s)" % cut[0].a[0]]
                continue
            p = self.element(G, e, want)
            if p is None:
                continue
            r = self.need(G, nodes, e, p[0], p[1], ())
            if r is not None:
                why = why or r
                continue
            good.append(e)
        if not good:
            r = self.lookups(G, x, want)
            if r is None:
                return None
            return why or [own + " are not visited"] + (r or [])
        got = self.explore(G, start, done, restr,
                           lambda ev: stop(ev) or ev.kind == "iter-end" and any(ev.result is e for e in good))
        if got is not None:
            return [own + ": the visit can end before the last one"]
        return None

    def lookups(self, G, x, want):
        """Elements looked up by the keys of something else that is visited: False if there are none."""
        touched, why = set(), []
        me = (G.body.d, x.id, want.d)
        if me in self.looking:          # asked for while it is being answered: nothing new
            return False
        self.looking.add(me)
        try:
            self.lookup_all(G, x, want, touched, why, set())
        finally:
            self.looking.discard(me)
        if why:
            return why[0]
        if not touched:
            return False
        a = self.prog.adts.get(want.d)
        n = last(want.d)
        for vi, v in enumerate(a["v"]):
            if len(a["v"]) == 1 or vi in touched or self.leaf(n, vi) == "skip":
                continue
            if self.leaf(n, vi) is not None or any(self.demanding(field_ty(self.prog, want, vi, i)) for i in range(len(v["f"]))):
                return ["%s: %s::%s of %s is never looked at" % (G.body.p, n, v["n"], show(x, 5)[:80])]
        return None

    def lookup_all(self, G, x, want, touched, why, seen):
        """Lookups in this function and in the family functions that x is handed to."""
        if (G.body.d, x.id) in seen:
            return
        seen.add((G.body.d, x.id))
        keys = {}
        for a, evs, b in G.e.edges:
            for t, f in evs.facts.items():
                if t.op == "app" and t.a[0] == "get" and t.a[1] is x and f == frozenset([1]) and \
                        a.state.facts.get(t) != f and b is not None and not hasattr(b, "ret"):
                    keys.setdefault(t, []).append(b.num)
        for g, nodes in keys.items():
            k = g.a[2]
            rounds = [y for y in G.e.deps(k) if y in G.iters]
            if not rounds and not any(y.op == "sym" for y in G.e.deps(k)):
                continue
            done = rounds[0] if rounds else None
            el = mk("idx", x, k)
            p = self.locate(G, el, G.ty.of(el) or want, want)
            if p is None:
                continue
            r = self.need(G, nodes, done, p[0], p[1], ((g, 1),))
            if r is not None:
                why.append(r)
                continue
            for vi in range(len(self.prog.adts[want.d]["v"])):
                if self.explore(G, nodes, done, ((p[0], vi),)) is not None:
                    touched.add(vi)
        pre = {t.id: p for t, p in prefixes(x)}
        for _, ev, _ in G.e.events():
            if ev.kind in ("local", "rec") and ev.target is not None and ev.target.body is not None and ev.target.body.d in self.fam:
                for i, a in enumerate(ev.args):
                    if a.id in pre:
                        H = self.graph(ev.target.body)
                        y = H.arg(i + 1)
                        for v, f in pre[a.id]:
                            y = mk("fld", y, v, f)
                        self.lookup_all(H, y, want, touched, why, seen)
