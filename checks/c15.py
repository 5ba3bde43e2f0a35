"""The counter that numbers list items hands out every number once and never goes back.

The list type is recognised by its shape (a map of nodes, two ends, one counter).  Every function
that can change a list is followed to its returns, where the counter is compared with its value at
the start; every place where a list is built from another list, from text or from a difference is
followed to see where its counter comes from.
"""
import absint
from absint import subterms, show, mk, OPTION, RESULT, Budget
from slicing import Slice, reaching
from terms import last, shell
from check_base import Anchor
from c25 import linear, lsub, good, lists_in

TECHNIQUE = "counter monotonicity and provenance by interprocedural dataflow over MIR (value of the counter at every return and construction)"

CRATES = ("dochy_core", "dochy_diff")


class Lists(Slice):
    cap = 48
    max_nodes = 60000


class Shape:
    """The list type, its counter, and the node type with its number."""

    def __init__(self, prog):
        for d in sorted(prog.local_adts):
            a = prog.adts[d]
            if len(a["v"]) != 1 or not d.startswith("dochy_core"):
                continue
            f = a["v"][0]["f"]
            ptrs = [x["t"] for x in f if x["t"] is not None and x["t"].k == "ptr" and x["t"].t.k == "adt"]
            nums = [i for i, x in enumerate(f) if repr(x["t"]) == "u64"]
            maps = [i for i, x in enumerate(f) if x["t"] is not None and x["t"].k == "adt" and "Map" in last(x["t"].d)]
            if len(ptrs) == 2 and len(nums) == 1 and maps:
                node = ptrs[0].t.d
                nf = prog.adts[node]["v"][0]["f"]
                ids = [i for i, x in enumerate(nf) if repr(x["t"]) == "u64"]
                if len(ids) == 1:
                    self.adt, self.ctr, self.map, self.node, self.id = d, nums[0], maps[0], node, ids[0]
                    return
        raise Anchor("the type of mutable lists was not found")

    def is_list(self, t):
        t = shell(t)
        return t is not None and t.k == "adt" and t.d == self.adt

    def counter(self, v):
        return absint.sub(v, (-1, self.ctr))


def run(prog, ctx):
    ctx.rule("kept: no function that changes a list lowers its counter; only a setter gives it a new value, its argument")
    ctx.rule("fresh: a new item gets the value of the counter, the counter is greater afterwards, and that value is what is returned")
    ctx.rule("registered: an item is registered under its own number")
    ctx.rule("taken over: a list made from another list, a text or a difference takes its counter from there, and in a text it is made greater than every number in use")
    ctx.rule("difference: a difference of two lists carries the counter of the newer list, exists whenever the counters differ, and applying it sets the counter")
    sh = Shape(prog)
    keeps, setters = methods(prog, ctx, sh)
    makers = constructors(prog, ctx, sh)
    uses(prog, ctx, sh, keeps, setters, makers)
    difference(prog, ctx, sh, keeps, setters)
    ctx.floor("functions that change a list", 10)
    ctx.floor("new items (site, state)", 2)
    ctx.floor("counters taken over", 3)


def engine(prog, ctx, b, small=40, keep=(), crates=CRATES, no=()):
    class C(Lists):
        def inline(self, eng, fr, tg):
            return (tg.body is None or tg.body.d not in no) and Lists.inline(self, eng, fr, tg)
    try:
        e = absint.Engine(prog, C(set(keep), small, crates)).run(b)
    except Budget as x:
        ctx.undecide("%s: %s" % (b.p, x))
        return None
    ctx.analysed.append(b.p)
    return e


def arg(e, i):
    return e.entry.state.mem.get(("L", e.root.id, i))


def methods(prog, ctx, sh):
    """Functions with a mutable reference to a list: what the counter is afterwards (those that never lower it, those that set it)."""
    keeps, setters = set(), {}
    for b in prog.fns("dochy_core"):
        if b.kind != "fn":
            continue
        ps = [i for i in range(1, b.argc + 1) if b.locals[i].k == "ref" and b.locals[i].m and b.locals[i].t.k == "adt" and b.locals[i].t.d == sh.adt]
        if not ps:
            continue
        e = engine(prog, ctx, b)
        if e is None:
            continue
        ctx.count("functions that change a list")
        for p in ps:
            method(prog, ctx, sh, b, e, p, keeps, setters)
        nodes(ctx, sh, b, e)
    return keeps, setters


def method(prog, ctx, sh, b, e, p, keeps, setters):
    a = arg(e, p)
    old = sh.counter(e.contents(e.entry.state, a))
    params = {arg(e, i): i for i in range(1, b.argc + 1)}
    keep = True
    for x in e.exits:
        if x.kind != "return":
            continue
        c = sh.counter(e.contents(x.state, a))
        vals = flat(e, c)
        for v in vals:
            if v is old:
                continue
            if v in params and repr(b.locals[params[v]]) == "u64":
                setters[b.d] = (p, params[v])
                keep = False
                continue
            if not grows(e, v, old, x):
                ctx.violation("kept:%s" % b.p, "%s can leave the counter of the list at %s" % (b.p, show(v, 5)), b.where())
        # what is handed out
        made = [ev for ev in made_nodes(e, sh) if any(sub is old for i in ev_ids(ev, sh) for sub in subterms(i))]
        if made and repr(b.locals[0]) == "u64" and x.ret is not None:
            ctx.count("numbers returned")
            r = linear(x.ret, {})
            if r is not None and not any(lsub(r, linear(i, {}) or {}) == {} for ev in made for i in ev_ids(ev, sh)):
                ctx.violation("returned:%s" % b.p, "%s returns %s, which is not the number of the new item" % (b.p, show(x.ret, 5)), b.where())
        for ev in made:
            for i in ev_ids(ev, sh):
                d = [lsub(linear(v, {}) or {v: 1}, linear(i, {}) or {i: 1}) for v in vals]
                if reaches(e, ev, x) and any(set(y) <= {None} and y.get(None, 0) <= 0 for y in d):
                    ctx.violation("fresh:%s" % b.p, "%s gives a new item the number %s and leaves the counter at %s" % (b.p, show(i, 4), "/".join(show(v, 4) for v in vals)),
                                  ev.where(), ev.stack())
    if keep:
        keeps.add(b.d)


def reaches(e, ev, x):
    """The exit can be reached after the event."""
    for n, evs, t in e.edges:
        if ev in evs:
            if t is x:
                return True
            st, seen = [getattr(t, "num", None)], set()
            while st:
                k = st.pop()
                if k is None or k in seen:
                    continue
                seen.add(k)
                for _, y in e.succ.get(k, ()):
                    if y is x:
                        return True
                    if y is not None and not hasattr(y, "ret"):
                        st.append(y.num)
    return False


def flat(e, t):
    out, st, seen = set(), [t], set()
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op == "phi":
            st.extend(e.phi_in.get(x.id, ()))
        elif x.op == "fld" and x.a[0].op == "phi":
            st.extend(absint.sub(y, (x.a[1], x.a[2])) for y in e.phi_in.get(x.a[0].id, ()))
        else:
            out.add(x)
    return out


def grows(e, v, old, x=None):
    """v is the old counter plus something, the greater of it and something else, or was compared with it."""
    l = linear(v, {})
    if l is not None:
        d = lsub(l, {old: 1})
        if set(d) <= {None}:
            return d.get(None, 0) >= 0
    if v.op == "app" and last(v.a[0]) == "max":
        return any(y is old or grows(e, y, old) for y in v.a[1:])
    if v.op == "app" and last(v.a[0]) in ("checked_add", "saturating_add"):
        return any(y is old for y in v.a[1:])
    if x is None or bad_counter(v):
        return False
    # where it is set to something else, the two have to be compared
    for q, r in x.state.facts.items():
        if q.op == "app" and q.a[0] == "eq" and old in q.a[1:] and sure(r):
            o = [y for y in q.a[1:] if y is not old]
            m = linear(o[0], {}) if o else None
            if l is not None and m is not None:
                d = lsub(l, m)
                if set(d) <= {None} and d.get(None, 0) < 0:
                    return False
    return compared(e, v, old)


def sure(r):
    return r is True or r == frozenset([1]) or r == frozenset([True])


def compared(e, v, old):
    mine = {s for s in subterms(v) if s.op in ("fld", "sym", "elem", "app", "idx", "world") and s is not old}
    facts = [q for n in e.nodes.values() for q in n.state.facts] if isinstance(e.nodes, dict) else [q for n in e.nodes for q in n.state.facts]
    facts += [q for y in e.exits for q in y.state.facts]
    for q in set(facts):
        sub = set(subterms(q))
        if q.op == "app" and old in sub and mine & sub and any(s.op == "app" and last(s.a[0]) in ("lt", "le", "bin:Lt", "bin:Le", "cmp", "partial_cmp") for s in sub):
            return True
    return False


def made_nodes(e, sh):
    return [ev for _, ev, _ in e.events() if ev.kind == "insert" and ev_ids(ev, sh)]


def ev_ids(ev, sh):
    """Numbers of the nodes put into a map by this event."""
    return [v.a[2 + sh.id] for v in ev.args[2:] if v.op == "agg" and v.a[0] == sh.node]


def nodes(ctx, sh, b, e):
    for ev in made_nodes(e, sh):
        ctx.count("new items (site, state)")
        for i in ev_ids(ev, sh):
            if ev.args[1] is not i:
                x, y = linear(ev.args[1], {}), linear(i, {})
                if x is not None and y is not None and set(x) | set(y) and lsub(x, y):
                    ctx.violation("registered:%s" % b.p, "%s registers the item numbered %s under %s" % (b.p, show(i, 4), show(ev.args[1], 4)), ev.where(), ev.stack())
            bad = [s for s in subterms(i) if s.op == "app" and last(s.a[0]) in ("len", "count") or s.op == "const"]
            if i.op in ("const",) or (i.op == "app" and bad and not any(s.op == "fld" and s.a[2] == sh.ctr for s in subterms(i))):
                ctx.violation("number:%s" % b.p, "%s numbers a new item %s instead of using the counter" % (b.p, show(i, 4)), ev.where(), ev.stack())


def constructors(prog, ctx, sh):
    """Functions that return a list by value: {id: parameter that becomes its counter}."""
    makers = {}
    for b in prog.fns("dochy_core"):
        if b.kind != "fn":
            continue
        t = b.locals[0]
        if not (t.k == "adt" and t.d == sh.adt):
            continue
        e = engine(prog, ctx, b)
        if e is None:
            continue
        srcs = [i for i in range(1, b.argc + 1) if sh.is_list(b.locals[i])]
        for x in e.exits:
            if x.kind != "return" or x.ret is None:
                continue
            for v in flat(e, sh.counter(x.ret)):
                taken(ctx, sh, b, e, v, srcs, x.ret, makers)
        given = [arg(e, i) for i in makers.get(b.d, ())]
        for x in e.exits:
            if not given or x.kind != "return" or x.ret is None:
                continue
            for v in flat(e, sh.counter(x.ret)):
                if v not in given and bad_counter(v):
                    ctx.violation("given:%s" % b.p, "%s can make a list with the counter %s instead of the one it was given" % (b.p, show(v, 4)), b.where())
    return makers


def taken(ctx, sh, b, e, v, srcs, ret, makers):
    params = {arg(e, i): i for i in range(1, b.argc + 1)}
    ctx.count("counters taken over")
    if v in params:
        makers.setdefault(b.d, set()).add(params[v])
        return
    if srcs:
        lists = [e.contents(e.entry.state, arg(e, i)) for i in srcs]
        if not any(s is sh.counter(l) for l in lists for s in subterms(v)) and (v.op == "const" or bad_counter(v) or from_items(e, sh, lists, v)):
            ctx.violation("taken:%s" % b.p, "%s makes a list from another one with the counter %s" % (b.p, show(v, 4)), b.where())
        return
    if v.op == "const":
        m = absint.sub(ret, (-1, sh.map))
        for x in flat(e, m):
            if x.op == "app" and last(x.a[0]) in ("insert", "push", "collect"):
                ctx.violation("taken:%s" % b.p, "%s makes a list with items and the counter %s" % (b.p, show(v, 4)), b.where())


def from_items(e, sh, lists, v):
    """Worked out from the items that are left: the ids of removed ones would be given out again."""
    deps = list(e.deps(v))
    return any(x is absint.sub(l, (-1, sh.map)) for l in lists for x in deps) and not any(x is sh.counter(l) for l in lists for x in deps)


def bad_counter(v):
    """Definitely not a value the counter is known to have reached."""
    if v.op == "const":
        return True
    if v.op == "app" and last(v.a[0]) in ("len", "count", "min", "saturating_sub", "wrapping_sub", "checked_sub"):
        return True
    if v.op == "app" and v.a[0].startswith("cast:") and len(v.a) == 2:
        return bad_counter(v.a[1])
    if v.op == "app" and v.a[0] == "bin:Sub":
        return True
    if v.op == "app" and v.a[0].startswith("bin:Add"):
        return all(bad_counter(x) for x in v.a[1:3])
    return False


def uses(prog, ctx, sh, keeps, setters, makers):
    """Callers of constructors and setters: where the counter they pass comes from."""
    give = {d: ps for d, ps in makers.items()}
    for b in list(prog.fns("dochy_core")) + list(prog.fns("dochy_diff")):
        if b.d in give or b.d in setters:
            continue
        sites = [t for t in (b.blocks[i].t for i in b.reach) if t.k == "call" and t.callee is not None and called(prog, t) in give]
        if not sites:
            continue
        e = engine(prog, ctx, b, 12, (), CRATES, set(give))
        if e is None:
            continue
        srcs = [i for i in range(1, b.argc + 1) if sh.is_list(b.locals[i])]
        for _, ev, _ in e.events():
            d = ev.target.body.d if ev.kind == "local" and ev.target is not None and ev.target.body is not None else None
            if d not in give or ev.fr.body is not b and ev.fr.body.kind != "closure":
                continue
            for p in give[d]:
                v = ev.args[p - 1]
                items = ev.args[:p - 1] + ev.args[p:]
                use(ctx, sh, b, e, ev, v, items, srcs)


def called(prog, t):
    d = getattr(t.callee, "d", None)
    if d in prog.bodies:
        return d
    for k in ("p", "path"):
        p = getattr(t.callee, k, None)
        if p is not None:
            b = by_path(prog).get(p)
            if b is not None:
                return b.d
    return None


_paths = {}


def by_path(prog):
    if id(prog) not in _paths:
        _paths[id(prog)] = {b.p: b for b in prog.fns()}
    return _paths[id(prog)]


def use(ctx, sh, b, e, ev, v, items, srcs):
    ctx.count("counters taken over")
    vals = flat(e, v)
    if srcs:
        lists = [sh.counter(e.contents(e.entry.state, arg(e, i))) for i in srcs]
        ok = lambda x: any(s in lists for s in subterms(x)) and not bad_counter(x)
        for x in vals:
            if not ok(x) and bad_counter(x):
                ctx.violation("taken:%s" % b.p, "%s makes a list from another one with the counter %s" % (b.p, show(x, 4)), ev.where(), ev.stack())
        return
    # from a text: the counter must be related to the numbers that are used
    parts = [x for a in items for x in lists_in(e, a).values()]
    has_items = any(x.op == "app" and x.a[0] == "push" for x in parts)
    if not has_items:
        return
    el = {x for x in parts if x.op == "elem"}
    dep = [x for x in lists_in(e, v).values()]
    made = {x for x in parts if x.op == "phi" or x.op == "app" and x.a[0] == "push"}
    if any(q.op != "const" and any(s.op == "app" and s.a[0].startswith("pick:max") for s in subterms(q)) for q in ev.facts if isinstance(q, absint.T)):
        return                  # the list was found to be empty when its greatest number was looked for
    if el and not any(x in el or x in made for x in dep):
        ctx.violation("raised:%s" % b.p, "%s makes a list whose counter (%s) takes no account of the numbers of its items" % (b.p, "/".join(sorted(show(x, 4) for x in vals))), ev.where(), ev.stack())


# ---- differences ---------------------------------------------------------
def difference(prog, ctx, sh, keeps, setters):
    carriers = {}
    for d in prog.local_adts:
        if not d.startswith("dochy_diff"):
            continue
        a = prog.adts[d]
        if len(a["v"]) == 1:
            f = a["v"][0]["f"]
            nums = [i for i, x in enumerate(f) if repr(x["t"]) == "u64"]
            vecs = [i for i, x in enumerate(f) if x["t"] is not None and x["t"].k == "adt" and last(x["t"].d) == "Vec" and "(u64" in repr(x["t"])]
            if len(nums) == 1 and vecs:
                carriers[d] = (nums[0], vecs[0])
    if len(carriers) < 2:
        ctx.undecide("the types of list differences were not recognised")
        return
    for b in prog.fns("dochy_diff"):
        if b.kind != "fn":
            continue
        out = [t for t in b.locals[0].walk() if t.k == "adt" and t.d in carriers]
        lists = [i for i in range(1, b.argc + 1) if sh.is_list(b.locals[i])]
        inner = [i for i in range(1, b.argc + 1) if holds_list(prog, sh, b.locals[i])]
        if out and (lists or inner):
            written(prog, ctx, sh, b, carriers, lists, inner)
        ins = [i for i in range(1, b.argc + 1) if shell(b.locals[i]) is not None and shell(b.locals[i]).k == "adt" and shell(b.locals[i]).d in carriers]
        muts = [i for i in lists if b.locals[i].k == "ref" and b.locals[i].m]
        if ins and muts:
            applied(prog, ctx, sh, b, carriers, ins[0], muts[0], keeps, setters)
    ctx.floor("differences made (site, state)", 2)
    ctx.floor("differences applied (state)", 1)


def holds_list(prog, sh, t):
    t = shell(t)
    if t is None or t.k != "adt" or t.d not in prog.local_adts:
        return False
    a = prog.adts[t.d]
    return len(a["v"]) == 1 and any(x["t"] is not None and sh.is_list(x["t"]) for x in a["v"][0]["f"])


def written(prog, ctx, sh, b, carriers, lists, inner):
    e = engine(prog, ctx, b, 12)
    if e is None:
        return
    args = {i: e.contents(e.entry.state, arg(e, i)) for i in lists + inner}
    ctrs = {}
    for i in lists:
        ctrs[sh.counter(args[i])] = i
    newer = None
    if len(lists) == 2:
        # the newer list is the one all data of the items comes from
        dep = None
        for _, ev, _ in e.events():
            if ev.kind != "push":
                continue
            for v in subterms(ev.args[1]):
                if v.op == "agg" and v.a[0].startswith("dochy_diff") and len(v.a) > 2 and v.a[0] not in carriers and len(prog.adts.get(v.a[0], {"v": []})["v"]) > 1:
                    ps = {i for i in lists if any(x is args[i] for p in v.a[2:] for x in lists_in(e, p).values())}
                    if ps:
                        dep = ps if dep is None else dep & ps
        newer = next(iter(dep)) if dep and len(dep) == 1 else None
    for x in e.exits:
        if x.kind != "return" or x.ret is None:
            continue
        cs = [v for v in subterms(x.ret) if v.op == "agg" and v.a[0] in carriers]
        for v in cs:
            ctx.count("differences made (site, state)")
            c = v.a[2 + carriers[v.a[0]][0]]
            for y in flat(e, c):
                if y in ctrs:
                    if newer is not None and ctrs[y] != newer:
                        ctx.violation("difference:%s" % b.p, "%s: the difference carries the counter of the older list" % b.p, b.where())
                elif bad_counter(y) or not any(s.op == "fld" and s.a[2] == sh.ctr for s in subterms(y)) and y.op != "app":
                    ctx.violation("difference:%s" % b.p, "%s: the difference carries %s, which is not the counter of the list" % (b.p, show(y, 4)), b.where())
        if not cs and len(lists) == 2 and x.ret.op == "agg" and x.ret.a[0] == OPTION and x.ret.a[1] == 0:
            ctx.count("lists without difference (state)")
            pair = list(ctrs)
            eq = [mk("app", "eq", pair[0], pair[1]), mk("app", "eq", pair[1], pair[0])]
            if not any(x.state.facts.get(q) == frozenset([1]) or x.state.facts.get(q) is True for q in eq):
                ctx.violation("lost:%s" % b.p, "%s: no difference is made although the counters may differ" % b.p, b.where())


def applied(prog, ctx, sh, b, carriers, di, li, keeps, setters):
    e = engine(prog, ctx, b, 12, (), ("dochy_diff",))
    if e is None:
        return
    d = e.contents(e.entry.state, arg(e, di))
    adt = shell(b.locals[di]).d
    want = absint.sub(d, (-1, carriers[adt][0]))
    for x in e.exits:
        if not good(x):
            continue
        ctx.count("differences applied (state)")
        vals, st, seen = set(), [e.contents(x.state, arg(e, li))], set()
        while st:
            l = st.pop()
            if l.id in seen:
                continue
            seen.add(l.id)
            if l.op == "phi":
                st.extend(e.phi_in.get(l.id, ()))
                continue
            if l.op == "app" and l.a[0].startswith("mut:"):
                # the list after a call that was given a mutable reference to it
                body = by_path(prog).get(l.a[0][4:])
                if body is not None and body.d in keeps:
                    st.append(l.a[1])
                elif body is not None and body.d in setters:
                    vals |= {("is", v) for v in flat(e, l.a[setters[body.d][1]])}
                else:
                    ctx.undecide("%s: the counter after %s is not known" % (b.p, l.a[0][4:]))
                continue
            vals |= {("is", v) for v in flat(e, sh.counter(l))}
        for _, v in vals:
            if v is want or v.op == "app" and last(v.a[0]) == "max" and any(y is want for y in v.a[1:]):
                continue
            if any(y is want for y in subterms(v)) and not bad_counter(v):
                continue
            ctx.violation("applied:%s" % b.p, "%s: after applying a difference the counter of the list is %s" % (b.p, show(v, 4)), b.where())

