"""Conversion to a newer source keeps what is stored.

The converter and the list converters it recurses through are interpreted one by one (everything between is followed).  An
entry of the older data is what is found under a key in one of its maps, or an element of one of its lists.  On every way
through a round, an entry found has to be put into the newer data, under its own key.
"""
import absint
import models
import walk
from absint import app, show, subterms, Budget, T
from check_base import Anchor
from cg import CallGraph
from terms import Typer, find_adt, last

TECHNIQUE = "abstract interpretation (origin terms with known variants) of the converters, keyed entries followed from the older maps to the newer"
CORE = "dochy_core"
STORED = ("RootSabValue", "ListSabValue", "RefSabValue", "MutItem", "MutListVal", "LinkedMap")
DEFS = ("RootDefObj", "ListDefObj", "ListDefMap", "MutListDef", "RefDefObj", "RefDefMap")
PAIRS = ("RootSabValue", "ListSabValue", "RefSabValue")
TEXT = {"to_string", "to_owned", "clone", "as_str", "from", "into", "deref", "as_ref", "borrow", "to_str"}


def names(prog):
    out = {}
    for n in STORED + DEFS + ("RootObject", "RootValue", "ListDefValue", "RefValue"):
        d = find_adt(prog, n, CORE)
        if d is None:
            raise Anchor("no type %s" % n)
        out[n] = d
    return out


def holds(ty, ds):
    return ty is not None and any(t.k == "adt" and t.d in ds for t in ty.walk())


class Client(walk.Follow):
    cap = 160
    max_depth = 40

    def __init__(self, keep, cuts, start):
        walk.Follow.__init__(self, set(), {CORE})
        self.keep_ids, self.cuts, self.start = keep, cuts, start

    def inline(self, eng, fr, tg):
        b = tg.body
        if b is None or b.crate not in (CORE, "models"):
            return False
        if b.d in self.cuts:
            return False
        return b.kind == "closure" or b.crate == "models" or b.d in self.keep_ids or len(b.reach) <= 8

    def call(self, eng, s, fr, bi, t, tg, args):
        own, _, name = models.split_path(tg.path)
        if name in ("remove", "remove_entry", "take") and len(args) == 2 and last(models.coll_of(own)).split("<")[0] in ("HashMap", "BTreeMap"):
            # each key is asked for once: the map is left as it is, so that entries keep their name
            loc = eng.loc_of(s, eng.innermost(s, args[0]))
            old = eng.read(s, loc)
            k = eng.contents(s, args[1])
            res = app("get", old, k)
            ev = eng.event("remove", tg.path, s, [old, k], args, fr, bi, t, res, tg)
            return [(s, res, ev)]
        return walk.Follow.call(self, eng, s, fr, bi, t, tg, args)


def bare(t):
    while True:
        if t.op == "app" and last(t.a[0]) in TEXT and len(t.a) >= 2 and isinstance(t.a[1], T):
            t = t.a[1]
        elif t.op in ("deref", "ref") and isinstance(t.a[0], T):
            t = t.a[0]
        else:
            return t


def roots(t):
    return {x.a[0] for x in subterms(t) if x.op == "sym" and isinstance(x.a[0], str) and x.a[0].startswith("arg")}


def base(t):
    """The argument a part is of."""
    if t.op == "sym":
        return t.a[0]
    if t.op in ("idx", "get"):
        return base(t.a[0])
    if t.op in ("fld", "elem", "app", "agg"):
        for x in t.a:
            b = base(x) if isinstance(x, T) else None
            if b is not None:
                return b
    return None


class Unit:
    """One converter."""

    def __init__(self, prog, ds, b, keep, cuts, entry):
        self.prog, self.ds, self.b, self.entry = prog, ds, b, entry
        self.e = absint.Engine(prog, Client(keep, cuts - {b.d} | {b.d}, b.d)).run(b)
        self.ty = Typer(self.e)
        sym = {i: "arg%d:%s" % (i, b.names.get(i, "")) for i in range(1, b.argc + 1)}
        st = {ds[x] for x in STORED}
        df = {ds[x] for x in DEFS}
        if entry:
            self.old, self.newdef, self.olddef = {sym[2]}, {sym[1]}, {sym[2]}
        else:
            self.old = {sym[i] for i in sym if holds(b.locals[i], st)}
            defs = [i for i in sym if holds(b.locals[i], df) and sym[i] not in self.old]
            self.newdef, self.olddef = set(), set()
            self.defs = defs
        self.sym = sym
        self.cache = {}

    def typed(self, t):
        if t.id not in self.cache:
            try:
                self.cache[t.id] = self.ty.of(t)
            except Exception:
                self.cache[t.id] = None
        return self.cache[t.id]

    def entry_of(self, g):
        """(map, key) when a term is a look-up in a map of the older data."""
        if g.op != "app" or g.a[0] != "get" or len(g.a) != 3:
            return None
        m, k = g.a[1], g.a[2]
        if base(m) not in self.old:
            return None
        ty = self.typed(m)
        if ty is None or not holds(ty, {self.ds[x] for x in PAIRS}):
            return None
        return m, k

    def closure(self, t):
        """Terms a value is made of, joins included."""
        seen, st = set(), [t]
        while st:
            x = st.pop()
            if x.id in seen:
                continue
            seen.add(x.id)
            st += [y for y in x.a if isinstance(y, T)]
            if x.op == "phi":
                st += list(self.e.phi_in.get(x.id, ()))
        return seen


def covers(v, src, facts):
    if v is src or any(x is src for x in subterms(v)):
        return True
    if v.op == "agg":
        k = walk.known(facts, src)
        if k is not None and k == frozenset([v.a[1]]):
            return all(covers(x, absint.sub(src, (v.a[1], i)), facts) for i, x in enumerate(v.a[2:]) if isinstance(x, T))
    return False


def completes(x):
    return x.kind == "return" and not (x.ret.op == "agg" and x.ret.a[0] == absint.RESULT and x.ret.a[1] == 1)


def follow(u, start, stop, prune, elem=None):
    """A way from the edges after `start` to the end of the round or of the function that no event stops."""
    e = u.e
    seen, st = set(), []
    for a, evs, b in e.edges:
        for i, ev in enumerate(evs):
            if start(ev):
                if b is None or prune(evs.facts):
                    continue
                if any(stop(x, evs.facts) for x in evs[i + 1:]):
                    continue
                if hasattr(b, "ret"):
                    if completes(b):
                        return ev
                elif b.num not in seen and not prune(b.state.facts):
                    seen.add(b.num)
                    st.append((b.num, ev))
    while st:
        n, first = st.pop()
        for evs, b in e.succ.get(n, ()):
            if b is None or prune(evs.facts):
                continue
            end = False
            for ev in evs:
                if ev.kind in ("iter", "iter-end") and elem is not None and ev.result is elem:
                    return first
                if stop(ev, evs.facts):
                    end = True
                    break
            if end:
                continue
            if hasattr(b, "ret"):
                if completes(b):
                    return first
                continue
            if b.num not in seen and not prune(b.state.facts):
                seen.add(b.num)
                st.append((b.num, first))
    return None


def round_of(k):
    """The loop element a key belongs to."""
    return next((x for x in subterms(k) if x.op == "elem"), None)


def absent(u, facts, k):
    """It is known that the older source has no member of this name."""
    for t, v in facts.items():
        if v != frozenset([0]) or not isinstance(t, T):
            continue
        if t.op == "app" and t.a[0] in ("get", "contains_key") and len(t.a) == 3 and bare(t.a[2]) is bare(k) and base(t.a[1]) in u.olddef and not u.entry_of(app("get", *t.a[1:])):
            return True
        if base(t) in u.olddef and not any(x.op == "app" for x in subterms(t)):
            return True
    return False


def changed(u, facts, src, k):
    """The member is a value in one version and a list in the other."""
    el = round_of(k)
    kinds = {u.ds[x] for x in ("RootValue", "ListDefValue", "RootSabValue", "ListSabValue")}
    seen = set()
    for t, v in facts.items():
        if not isinstance(t, T) or not isinstance(v, frozenset) or not (t is src or el is not None and round_of(t) is el):
            continue
        ty = u.typed(t)
        ty = ty.strip_refs() if ty is not None else None
        if ty is None or ty.k != "adt" or ty.d not in kinds:
            continue
        vs = u.prog.adts[ty.d]["v"]
        ps = {vs[i]["n"] == "Param" for i in v if 0 <= i < len(vs)}
        if len(ps) == 1:
            seen |= ps
    return len(seen) == 2


def putting(ev):
    return ev.kind in ("insert", "push") and ev.args


def check(prog, ctx, u, converters):
    e = u.e
    where = u.b.p
    n = 0
    gets = {}
    for a, evs, b in e.edges:
        for ev in evs:
            if ev.result is not None and isinstance(ev.result, T):
                x = u.entry_of(ev.result)
                if x is not None:
                    gets.setdefault(ev.result, ev)
            for t in ev.args:
                if isinstance(t, T):
                    for y in subterms(t):
                        if y.op == "app" and y.a[0] == "get" and u.entry_of(y):
                            gets.setdefault(y, ev)
    # kept
    for g, ev0 in gets.items():
        m, k = g.a[1], g.a[2]
        src = absint.sub(g, (1, 0))
        n += 1
        ctx.count("look-ups in the older data")

        def prune(facts):
            return facts.get(g) == frozenset([0]) or changed(u, facts, src, k)

        def stop(ev, facts):
            return putting(ev) and covers(ev.args[-1], src, ev.facts)
        w = follow(u, lambda ev: ev.result is g, stop, prune, round_of(k))
        if w is not None:
            ctx.violation("kept:%s:%s" % (last(where), last(str(u.typed(m)))), "a stored value found under its name in the older data is left out of the newer (%s)" % show(src, 3),
                          w.where(), w.stack())
    # elements of lists
    iters = {}
    for a, evs, b in e.edges:
        for ev in evs:
            if ev.kind == "iter" and isinstance(ev.result, T):
                iters.setdefault(ev.result, ev)
    for el, ev0 in iters.items():
        src = ev0.args[0]
        if base(src) not in u.old:
            continue
        ty = u.typed(el)
        if ty is None or not holds(ty, {u.ds["MutItem"]} | {u.ds[x] for x in PAIRS}):
            continue
        n += 1
        ctx.count("loops over the older data")
        whole = holds(ty, {u.ds["MutItem"]})

        def stop(ev, facts):
            if not putting(ev) or not any(x is el for a in ev.args[1:] if isinstance(a, T) for x in subterms(a)):
                return False
            return not whole or as_item(u, ev, el)

        def prune(facts):
            return not whole and any(isinstance(t, T) and t.op == "app" and t.a[0] == "get" and v == frozenset([0]) and any(x is el for x in subterms(t)) for t, v in facts.items())
        w = follow(u, lambda ev: ev.kind == "iter" and ev.result is el, stop, prune, el)
        if w is not None:
            ctx.violation("kept:%s:items" % last(where), "an element of the older %s is left out of the newer" % ("list" if whole else "map"), w.where(), w.stack())
        if not whole:
            continue
        if any(x.op == "app" and last(x.a[0]) in ("rev", "skip", "take", "filter", "step_by") for x in subterms(src)):
            ctx.violation("order:%s" % last(where), "the items of the older list are not taken in their order", ev0.where(), ev0.stack())
        for node, ev, _ in e.events():
            if not putting(ev) or not as_item(u, ev, el):
                continue
            v = ev.args[-1]
            cl = set()
            for a in ev.args[1:]:
                if isinstance(a, T):
                    cl |= u.closure(a)
            ctx.count("items put into the newer list")
            kid = absint.sub(el, (-1, 0))
            pos = ev.args[1] if ev.kind == "insert" else (absint.sub(v, (-1, 0)) if v.op == "agg" else None)
            if pos is not None and bare(pos) is not kid:
                ctx.violation("id:%s" % last(where), "an item gets another id: %s" % show(pos, 4), ev.where(), ev.stack())
            item = absint.sub(el, (-1, 1))
            for i, f in enumerate(prog.adts[u.ds["MutItem"]]["v"][0]["f"]):
                if not holds(f["t"], {u.ds[x] for x in PAIRS}):
                    continue
                part = absint.sub(item, (-1, i))
                part2 = absint.sub(item, (0, i))
                if part.id not in cl and part2.id not in cl and item.id not in direct(v):
                    ctx.violation("item:%s:%s" % (last(where), f["n"]), "the %s of an item are not carried over" % f["n"], ev.where(), ev.stack())
    for node, ev, _ in e.events():
        if ev.kind in ("ext", "rearrange") and ev.name in ("reverse", "sort", "sort_by", "sort_by_key", "sort_unstable", "sort_unstable_by", "sort_unstable_by_key", "swap", "swap_remove", "truncate",
                                          "dedup_by_key", "rotate_left", "rotate_right", "retain", "drain", "pop"):
            if not u.entry and any(x.op == "phi" or base(x) in u.old for x in ev.args[:1] if isinstance(x, T)) and holds(u.typed(ev.args[0]), {u.ds["MutItem"]}):
                ctx.violation("order:%s:%s" % (last(where), ev.name), "the items of a list are rearranged by %s" % ev.name, ev.where(), ev.stack())
    # the next id
    for x in e.exits:
        if u.entry or not completes(x) or x.ret.op != "agg" or len(x.ret.a) < 3:
            continue
        r = x.ret.a[2]
        if r.op not in ("app", "agg") or not holds(u.typed(r), {u.ds["LinkedMap"]}) and not (r.op == "app" and r.id not in u.cache):
            continue
        for a in r.a:
            if isinstance(a, T) and (counted(a) or str(u.typed(a)) in ("u64", "usize")):
                ctx.count("next ids")
                if counted(a):
                    ctx.violation("next:%s" % last(where), "the list goes on with an id (%s) that is not taken from the older one" % show(a, 3), u.b.where(u.b.line))
    # own
    for node, ev, _ in e.events():
        if ev.kind != "insert" or len(ev.args) != 3:
            continue
        ctx.count("entries put into the newer data")
        k, v = bare(ev.args[1]), ev.args[2]
        for x in subterms(v):
            if x.op == "idx" and isinstance(x.a[0], T) and base(x.a[0]) in u.old and isinstance(x.a[1], T) and u.entry_of(app("get", x.a[0], x.a[1])):
                if bare(x.a[1]) is not k:
                    ctx.violation("own:%s" % last(where), "a value found under one name (%s) is stored under another (%s)" % (show(x.a[1], 3), show(k, 3)), ev.where(), ev.stack())
        # undefined only where the older source has no such member
        rs = roots(v)
        if rs & u.old or not u.olddef:
            continue
        el = round_of(k)
        if el is None:
            continue
        if any(covers(v, absint.sub(g, (1, 0)), ev.facts) and bare(g.a[2]) is k and ev.facts.get(g) == frozenset([1]) for g in gets):
            continue
        ctx.count("members made undefined")
        if not absent(u, ev.facts, k):
            ctx.violation("undefined:%s" % last(where), "a member is given a new value (%s) though the older source may have it" % show(v, 3), ev.where(), ev.stack())
    # asked for
    asked(prog, ctx, u, iters, gets)
    # definitions
    for node, ev, _ in e.events():
        if ev.kind != "local" or ev.target is None or ev.target.body is None or ev.target.body.d not in converters:
            continue
        tb = ev.target.body
        st, df = {u.ds[x] for x in STORED}, {u.ds[x] for x in DEFS}
        vals = [a for i, a in enumerate(ev.args) if holds(tb.locals[i + 1], st)]
        defs = [(i, a) for i, a in enumerate(ev.args) if holds(tb.locals[i + 1], df) and not holds(tb.locals[i + 1], st)]
        if not vals or not defs:
            continue
        keys = {bare(x.a[1]) for x in subterms(vals[0]) if x.op == "idx" and isinstance(x.a[1], T)}
        keys |= {bare(x.a[2]) for x in subterms(vals[0]) if x.op == "app" and x.a[0] == "get" and len(x.a) == 3}
        for i, a in defs:
            ctx.count("definitions passed along with a list")
            inside = {x.id for x in subterms(a)}
            if a.op == "agg" and a.a[0] == absint.OPTION and a.a[1] == 0:
                continue
            if keys:
                els = [round_of(k) for k in keys]
                if not any(k.id in inside or el is not None and el.id in inside for k, el in zip(keys, els)):
                    ctx.violation("definition:%s:%s" % (last(where), last(tb.p)), "a nested list is converted with a definition (%s) that is not the one of its member" % show(a, 4), ev.where(), ev.stack())
            else:
                own = {s for j, s in u.sym.items() if j in getattr(u, "defs", ())}
                if own and base(a) not in own and not (a.op == "agg" and roots(a) & own):
                    ctx.violation("definition:%s:%s" % (last(where), last(tb.p)), "a list is converted with another definition than it was given (%s)" % show(a, 4), ev.where(), ev.stack())
            side = "new" if roots(a) & u.newdef and not roots(a) & u.olddef else "old" if roots(a) & u.olddef and not mentions_new(u, a) else None
            yield tb.d, i + 1, side, ev, a
    ctx.analysed.append(where)
    return


def mentions_new(u, a):
    """Whether a part of the newer definition, other than its name as a key, is in a term."""
    st = [a]
    while st:
        x = st.pop()
        if x.op == "sym" and x.a[0] in u.newdef:
            return True
        if x.op == "app" and x.a[0] == "get" and len(x.a) == 3:
            st.append(x.a[1])
        elif x.op == "idx":
            st.append(x.a[0])
        else:
            st += [y for y in x.a if isinstance(y, T)]
    return False


def as_item(u, ev, el):
    """An item is put into a list for an item of the older one."""
    v = ev.args[-1]
    if v is el or any(x is el for x in v.a):
        return True
    own = {absint.sub(el, (-1, 0)), absint.sub(el, (-1, 1))}
    parts = [v] + list(v.a) + list(ev.args[1:])
    if any(isinstance(x, T) and bare(x) in own for x in parts):
        return True
    return any(isinstance(x, T) and x.op == "agg" and x.a[0] == u.ds["MutItem"] for x in parts)


def counted(a):
    """A constant or a length."""
    while a.op == "app" and isinstance(a.a[0], str) and a.a[0].startswith(("cast", "add", "from", "into")) and len(a.a) >= 2:
        a = a.a[1]
    return a.op == "const" or a.op == "app" and last(str(a.a[0])) in ("len", "count")


def direct(v):
    return {x.id for x in ([v] + [y for y in v.a if isinstance(y, T)])} if v.op == "agg" else {v.id}


def asked(prog, ctx, u, iters, gets):
    """Every member of the newer source that can have a stored value is looked for in the older data."""
    kinds = {u.ds["RootValue"]: ("Param", "MList"), u.ds["ListDefValue"]: ("Param", "MilDef"), u.ds["RefValue"]: None}
    for el, ev0 in iters.items():
        if base(ev0.args[0]) not in u.newdef:
            continue
        ty = u.typed(el)
        hit = [d for d in kinds if holds(ty, {d})]
        if not hit:
            continue
        d = hit[0]
        if any(base(ev.args[0]) in u.old and holds(u.typed(x), {u.ds[y] for y in PAIRS}) for x, ev in iters.items()):
            continue
        if not any(round_of(g.a[2]) is el for g in gets):
            ctx.violation("asked:%s:%s" % (last(u.b.p), last(d)), "the members of the newer source are not looked for in the older data", ev0.where(), ev0.stack())
            continue
        vs = prog.adts[d]["v"]
        for vi, v in enumerate(vs):
            if kinds[d] is not None and v["n"] not in kinds[d]:
                continue
            ctx.count("kinds of members looked for")

            def stop(ev, facts):
                return ev.kind in ("remove", "get") and u.entry_of(ev.result) is not None and round_of(ev.args[1]) is el or any(
                    isinstance(t, T) and t.op == "app" and t.a[0] == "get" and len(t.a) == 3 and round_of(t.a[2]) is el and u.entry_of(t) for t in ev.facts)

            def prune(facts):
                for t, k in facts.items():
                    if not isinstance(t, T) or not isinstance(k, frozenset):
                        continue
                    if t.op == "fld" and round_of(t) is el and not any(x.op == "app" and x.a[0] == "get" for x in subterms(t)):
                        tt = u.typed(t)
                        if tt is not None and tt.strip_refs().k == "adt" and tt.strip_refs().d == d and kinds[d] is not None and vi not in k:
                            return True
                    if t.op == "app" and t.a[0] == "get" and len(t.a) == 3 and round_of(t.a[2]) is el and (u.entry_of(t) or base(t.a[1]) in u.olddef and k == frozenset([0])):
                        return True
                return False
            w = follow(u, lambda ev: ev.kind == "iter" and ev.result is el, stop, prune, el)
            if w is not None:
                ctx.violation("asked:%s:%s" % (last(u.b.p), v["n"]), "a %s of the newer source is not looked for in the older data though both may have it" % v["n"], w.where(), w.stack())


def result(prog, ctx, u):
    """The newer object has the newer source's definition."""
    d = u.ds["RootObject"]
    fs = prog.adts[d]["v"][0]["f"]
    for x in u.e.exits:
        for t in subterms(x.ret):
            if t.op == "agg" and t.a[0] == d:
                for i, f in enumerate(fs):
                    v = t.a[2 + i]
                    ctx.count("parts of the result")
                    if holds(f["t"], {u.ds[y] for y in STORED}):
                        continue
                    if any(r in u.old for r in roots(v)):
                        ctx.violation("result:%s" % f["n"], "the %s of the converted object is the older one's" % f["n"], u.b.where(u.b.line))


def run(prog, ctx):
    ctx.rule("kept: an entry found in the older data is put into the newer on every way that does not fail")
    ctx.rule("own: an entry is put under the name it was found under; an item keeps its id and the order its list has")
    ctx.rule("asked: every member of the newer source that can have a stored value is looked for, unless the older source has none")
    ctx.rule("undefined: a member gets a new value only where the older source is known not to have it")
    ctx.rule("definition: a nested list is converted with the definition of its own member, newer and older kept apart")
    ctx.rule("site: data loaded from a file of another version is what is converted, whenever the versions differ")
    ctx.rule("result: everything of the converted object but its data is the newer source's")
    ds = names(prog)
    ro = ds["RootObject"]
    es = [b for b in prog.fns(CORE) if b.kind == "fn" and b.eff and b.argc >= 2 and all(b.locals[i].k == "adt" and b.locals[i].d == ro for i in (1, 2))
          and holds(b.locals[0], {ro})]
    if not es:
        raise Anchor("no public function converts one object to another")
    st = {ds[x] for x in STORED}
    for b in es:
        cg = CallGraph(prog)
        pred = cg.reach([cg.inst(b)], ("call", "hof"))
        bodies = {}
        for k in pred:
            x = cg.insts[k].body
            if x is not None and x.crate == CORE and x.kind == "fn":
                bodies[x.d] = x

        def owned(x):
            return any((t.k == "ref" and t.m or t.k == "adt") and holds(t, st) for t in x.locals[1:x.argc + 1])
        lists = {ds["MutListVal"], ds["LinkedMap"]}
        keep = {d for d, x in bodies.items() if owned(x) and d != b.d and x.self_ty is None}
        # recursion is cut at the functions that take a whole list
        cuts = {d for d in keep if any(holds(t, lists) for t in bodies[d].locals[1:bodies[d].argc + 1])
                and any(cg.insts[k].body is not None and cg.insts[k].body.d == d
                        for y in [cg.reach([cg.inst(bodies[d])], ("call", "hof"))] for k in loop_back(cg, y, d))}
        ctx.count("converters of lists", len(cuts))
        side = {}
        todo = [(b, True)] + [(bodies[d], False) for d in sorted(cuts)]
        units = []
        for x, entry in todo:
            try:
                units.append(Unit(prog, ds, x, keep, cuts, entry))
            except Budget as y:
                ctx.undecide("%s: %s" % (x.p, y))
        # which parameter is the newer definition: decided at the calls, from the entry on
        done = set()
        order = list(units)
        while order:
            u = next((x for x in order if x.entry or x.newdef), None)
            if u is None:
                for x in order:
                    ctx.undecide("%s: not known which definition is the newer" % x.b.p)
                break
            order.remove(u)
            for d, i, s, ev, a in check(prog, ctx, u, cuts):
                if s is None:
                    continue
                old = side.setdefault((d, i), s)
                if old != s:
                    ctx.violation("definition:%s:sides" % last(u.b.p), "the %s definition is passed where the %s one is expected (%s)" % (s, old, show(a, 3)), ev.where(), ev.stack())
                for y in units:
                    if y.b.d == d and y in order:
                        (y.newdef if s == "new" else y.olddef).add(y.sym[i])
            if u.entry:
                result(prog, ctx, u)
    sites(prog, ctx, {b.d for b in es})
    ctx.floor("look-ups in the older data", 1)
    ctx.floor("loops over the older data", 1)
    ctx.floor("entries put into the newer data", 4)


class Loader(walk.Follow):
    def __init__(self, crates):
        walk.Follow.__init__(self, set(), crates)

    def inline(self, eng, fr, tg):
        b = tg.body
        return b is not None and (b.crate == "models" or b.kind == "closure" or b.crate in self.crates and len(b.reach) <= 6)


def sites(prog, ctx, conv):
    """Where a file of an older version is loaded: what was loaded is converted, to the current source."""
    paths = {prog.bodies[d].p for d in conv}
    for b in prog.fns():
        if b.crate == CORE or b.kind != "fn":
            continue
        if not any(t.k == "call" and t.callee is not None and t.callee.path in paths for t in (b.blocks[i].t for i in b.reach)):
            continue
        try:
            e = absint.Engine(prog, Loader({b.crate, CORE})).run(b)
        except Budget as y:
            ctx.undecide("%s: %s" % (b.p, y))
            continue
        ty = Typer(e)
        done = {}
        for node, ev, _ in e.events():
            if ev.target is None or ev.target.body is None or ev.target.body.d not in conv:
                continue
            ctx.count("conversions of loaded data")
            done[ev.result] = ev
            a = ev.args[1]
            src = a
            while src.op == "fld" and src.a[1] in (-1, 0) and isinstance(src.a[0], T):
                src = src.a[0]
            if src.op == "sym" and a.op == "fld" and len(ev.args) > 1:
                ctx.violation("site:%s" % b.name, "what is converted is the source itself (%s), not what was loaded" % show(a, 4), ev.where(), ev.stack())
        for x in e.exits:
            if not completes(x) or any(y in done for y in subterms(x.ret)):
                continue
            for t, v in x.state.facts.items():
                if isinstance(t, T) and t.op == "app" and t.a[0] == "eq" and v == frozenset([0]) and any(
                        str(ty.of(y)) == "u128" for y in t.a[1:] if isinstance(y, T)):
                    ctx.violation("site:%s:unconverted" % b.name, "data of another version is returned unconverted where %s does not hold" % show(t, 4), b.where(b.line))
        ctx.analysed.append(b.p)


def loop_back(cg, pred, d):
    """Instances of a body that are called from what it reaches."""
    for k in pred:
        i = cg.insts[k]
        for e in i.edges:
            if e.kind in ("call", "hof") and e.dst.body is not None and e.dst.body.d == d:
                yield e.dst.k
