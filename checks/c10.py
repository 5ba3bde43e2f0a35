"""A difference leaves out no change, and applying it puts every recorded entry where it belongs.

The functions that compare two objects, and those that apply what was recorded, are interpreted one by one (cut where a whole
list is taken, everything between followed).  For every loop over stored data, the ways through a round that record nothing
have to know that nothing changed.
"""
import absint
import models
import order
import walk
from absint import app, show, subterms, sub, Budget, T
from check_base import Anchor
from cg import CallGraph
from terms import Typer, find_adt, last
from c18 import bare, base, completes, follow, holds, loop_back

TECHNIQUE = "abstract interpretation (origin terms with known variants) of comparing and applying, ways through a round that record nothing must know why; comparison functions field by field"
CORE, DIFF = "dochy_core", "dochy_diff"
PAIRS = ("RootSabValue", "ListSabValue", "RefSabValue")
LISTS = ("MutListVal", "LinkedMap")
SAME = ("identity_eq", "eq", "ptr_eq")


PLAIN = ("bool", "i64", "f64", "u8", "u64", "alloc::string::String")
WIPES = ("clear", "retain", "drain", "truncate", "split_off", "drain_filter", "extract_if")


def names(prog):
    out = {}
    for n in PAIRS + LISTS + ("RootObject", "MutItem", "RustParam", "Qv"):
        d = find_adt(prog, n, CORE)
        if d is None:
            raise Anchor("no type %s" % n)
        out[n] = d
    return out


class Client(walk.Follow):
    cap = 160
    max_depth = 40

    def __init__(self, cuts, frozen=None):
        walk.Follow.__init__(self, set(), {DIFF, CORE})
        self.cuts, self.frozen = cuts, frozen

    def inline(self, eng, fr, tg):
        b = tg.body
        if b is None or b.d in self.cuts:
            return False
        return b.crate in ("models", DIFF) or b.kind == "closure" or b.crate == CORE and len(b.reach) <= 8


    def call(self, eng, s, fr, bi, t, tg, args):
        # the object changed keeps its name: every entry of it is changed at most once
        if self.frozen is not None and args:
            own, _, name = models.split_path(tg.path)
            ismap = name == "insert" and len(args) == 3 and last(models.coll_of(own)).split("<")[0] in ("HashMap", "BTreeMap")
            iscut = tg.kind == "local" and tg.body is not None and tg.body.d in self.cuts
            if ismap or iscut:
                old = eng.read(s, eng.loc_of(s, eng.innermost(s, args[0])))
                if base(old) == self.frozen:
                    if ismap:
                        k, v = eng.contents(s, args[1]), eng.deep(s, args[2])
                        res = app("get", old, k)
                        return [(s, res, eng.event("insert", tg.path, s, [old, k, v], args, fr, bi, t, res, tg))]
                    _, res, ev = eng.opaque_result(s.copy(), fr, bi, t, tg, "local", tg.path, args)
                    return [(s, res, ev)]
        return walk.Follow.call(self, eng, s, fr, bi, t, tg, args)


class Unit:
    def __init__(self, prog, ds, b, cuts, frozen=None):
        self.prog, self.ds, self.b, self.cuts = prog, ds, b, cuts
        self.sym = {i: "arg%d:%s" % (i, b.names.get(i, "")) for i in range(1, b.argc + 1)}
        self.e = absint.Engine(prog, Client(cuts, self.sym[frozen] if frozen else None)).run(b)
        self.ty = Typer(self.e)
        self.sym = {i: "arg%d:%s" % (i, b.names.get(i, "")) for i in range(1, b.argc + 1)}
        self.old, self.new = set(), set()
        self.cache = {}
        self.iters = {}
        for a, evs, c in self.e.edges:
            for ev in evs:
                if ev.kind == "iter" and isinstance(ev.result, T):
                    self.iters.setdefault(ev.result, ev)

    def typed(self, t):
        if t.id not in self.cache:
            try:
                self.cache[t.id] = self.ty.of(t)
            except Exception:
                self.cache[t.id] = None
        return self.cache[t.id]

    def of(self, t, *ns):
        return holds(self.typed(t), {self.ds[n] for n in ns})

    def closure(self, t):
        seen, st = {}, [t]
        while st:
            x = st.pop()
            if x.id in seen:
                continue
            seen[x.id] = x
            st += [y for y in x.a if isinstance(y, T)]
            if x.op == "phi":
                st += list(self.e.phi_in.get(x.id, ()))
        return seen

    def outermost(self, t):
        """The loop element a value is taken from."""
        while isinstance(t, T):
            if t in self.iters:
                return t
            if t.op in ("fld", "app", "idx", "agg") and t.a:
                n = next((x for x in t.a if isinstance(x, T)), None)
                if n is None:
                    return None
                t = n
            else:
                return None


def has(t, x):
    return any(y is x for y in subterms(t))


def empty(facts):
    """Containers known to hold nothing."""
    for t, v in facts.items():
        if not isinstance(t, T) or t.op != "app":
            continue
        if t.a[0] == "eq" and v == frozenset([1]) or t.a[0] == "is_empty" and v == frozenset([1]):
            for x in t.a[1:]:
                if isinstance(x, T) and x.op == "app" and last(str(x.a[0])) == "len":
                    yield x.a[1]
            if t.a[0] == "is_empty":
                yield t.a[1]


def putting(ev):
    return ev.kind in ("insert", "push", "extend") and len(ev.args) >= 2


def path_from(t, root):
    p = []
    while t is not root:
        if t.op != "fld":
            return None
        p.append((t.a[1], t.a[2]))
        t = t.a[0]
    return p


def unchanged(u, facts, el):
    """It is known that the older object has the same under the name of this entry."""
    k, val = sub(el, (-1, 0)), sub(el, (-1, 1))
    olds = {}
    for t in facts:
        if isinstance(t, T):
            for x in subterms(t):
                if x.op == "idx" and isinstance(x.a[0], T) and base(x.a[0]) in u.old and bare(x.a[1]) is bare(k):
                    olds[x] = 1
    for t, v in facts.items():
        if not isinstance(t, T) or not isinstance(v, frozenset):
            continue
        if t.op == "app" and last(str(t.a[0])) in SAME and v == frozenset([1]):
            xs = [x for x in t.a[1:] if isinstance(x, T)]
            for x in xs:
                for y in xs:
                    for o in olds:
                        p, q = path_from(x, val), path_from(y, o)
                        if p is not None and q is not None and [i for i in p] == [i for i in q] and weighty(u, x):
                            return True
        if t.op == "app" and v == frozenset([0]) and any(u.prog.bodies[d].p == t.a[0] or u.prog.bodies[d].name == last(str(t.a[0])) for d in u.cuts):
            if any(has(x, val) for x in t.a[1:] if isinstance(x, T)) and any(has(x, o) for o in olds for x in t.a[1:] if isinstance(x, T)):
                return True
        # a list undefined in both
        if v == frozenset([0]) and path_from(t, val):
            for o in olds:
                for t2, v2 in facts.items():
                    if isinstance(t2, T) and v2 == frozenset([0]) and path_from(t2, o) == path_from(t, val):
                        return True
    return False


def weighty(u, x):
    """The whole value was compared, not a length or a tag of it."""
    ty = u.typed(x)
    if ty is None:
        return True
    return holds(ty, {u.ds[n] for n in PAIRS + LISTS + ("RustParam", "Qv")})


def compare(prog, ctx, u):
    e = u.e
    maps, olds, news = [], [], []
    for el, ev in u.iters.items():
        if not any(x.op == "sym" for x in subterms(ev.args[0])):
            continue
        b = base(ev.args[0])
        if b in u.new and u.of(el, *PAIRS):
            maps.append(el)
        elif u.of(el, "MutItem"):
            (olds if b in u.old else news if b in u.new else []).append(el)
    mapset = set(maps)
    skips = set()
    # entries
    for el in maps:
        val, key = sub(el, (-1, 1)), sub(el, (-1, 0))
        ctx.count("loops over stored entries")
        ev0 = u.iters[el]
        vt = u.typed(val)
        vt = vt.strip_refs() if vt is not None else None
        vs = prog.adts[vt.d]["v"] if vt is not None and vt.k == "adt" else []

        def stop(ev, facts):
            if not putting(ev):
                return False
            v, k = ev.args[-1], ev.args[1] if len(ev.args) > 2 else ev.args[-1]
            if has(v, val):
                return True
            return has(k, key) and v.op == "agg" and v.a[1] == 0 and len(v.a) == 2 and any(
                isinstance(t, T) and f == frozenset([0]) and path_from(t, val) for t, f in ev.facts.items())

        for vi, v in enumerate(vs):
            if v["n"] == "Cil":
                continue
            ctx.count("kinds of entries compared")

            def prune(facts):
                k = facts.get(val)
                if len(vs) > 1 and isinstance(k, frozenset) and vi not in k:
                    return True
                for t, f in facts.items():
                    if isinstance(t, T) and t.op == "app" and t.a[0] == "get" and f == frozenset([0]) and len(t.a) == 3 and bare(t.a[2]) is bare(key) and not u.of(t.a[1], *PAIRS) \
                            and base(t.a[1]) not in u.old:
                        return True
                return wrong_kind(u, facts, el, vi) or unchanged(u, facts, el)
            w = follow(u, lambda ev: ev.kind == "iter" and ev.result is el, stop, prune, el)
            if w is not None:
                ctx.violation("left out:%s:%s" % (w.fr.body.name, v["n"]), "an entry (%s) of the newer object may differ and is not recorded" % v["n"], w.where(), w.stack())
    # each under its own number
    for node, ev, _ in e.events():
        if ev.kind != "insert" or len(ev.args) != 3:
            continue
        src = [x for x in subterms(ev.args[2]) if x in mapset]
        if not src:
            continue
        ctx.count("entries recorded")
        el = src[0]
        if not has(ev.args[1], sub(el, (-1, 0))):
            ctx.violation("own:%s" % ev.fr.body.name, "an entry is recorded under a number (%s) that is not found by its name" % show(ev.args[1], 4), ev.where(), ev.stack())
    # items of the older list
    kinds = record_kinds(u)
    moved = set()
    for el in olds:
        key = sub(el, (-1, 0))
        ctx.count("loops over lists")

        def stop(ev, facts):
            return putting(ev) and has(ev.args[-1], key)

        def prune(facts):
            if not any(isinstance(t, T) and t.op == "app" and t.a[0] == "get" and f == frozenset([1]) and bare(t.a[2]) is key and base(t.a[1]) in u.new for t, f in facts.items() if isinstance(t, T) and len(t.a) == 3):
                return False
            got = {kind_of(u, m, kinds) for m in empty(facts)}
            return set(kinds.values()) <= got
        if not pushes_for(u, el):
            continue                  # a loop that only looks
        w = follow(u, lambda ev: ev.kind == "iter" and ev.result is el, stop, prune, el)
        if w is not None:
            ctx.violation("items:%s:older" % w.fr.body.name, "an item of the older list is passed over though it may be gone or changed", w.where(), w.stack())
        for node, ev, _ in e.events():
            if not putting(ev) or not has(ev.args[-1], key) or ev.args[-1].op != "agg":
                continue
            rec = [x for x in ev.args[-1].a[2:] if isinstance(x, T) and x.op == "agg" and len(prog.adts.get(x.a[0], {"v": []})["v"]) > 1]
            if not rec:
                continue
            ctx.count("records of older items")
            gone = found(u, ev.facts, key, 0)
            bare_rec = len(rec[0].a) == 2
            if gone and not bare_rec:
                ctx.violation("items:%s:gone" % ev.fr.body.name, "an item that the newer list does not have is not recorded as deleted", ev.where(), ev.stack())
            if bare_rec and not gone:
                sets = {t.a[1] for t, f in ev.facts.items() if isinstance(t, T) and t.op == "app" and t.a[0] in ("get", "has", "contains") and f == frozenset([1])
                        and bare(t.a[2]) is key and base(t.a[1]) not in u.new}
                moved |= sets
                if not sets:
                    ctx.violation("items:%s:kept" % ev.fr.body.name, "an item is recorded as deleted though the newer list may have it", ev.where(), ev.stack())
            whole(ctx, u, ev, rec[0], kinds)
    # items of the newer list
    for el in news:
        key = sub(el, (-1, 0))
        if not pushes_for(u, el):
            continue
        ctx.count("loops over lists")

        def stop(ev, facts):
            return putting(ev) and has(ev.args[-1], key)

        def prune(facts):
            if not olds and not u.old:
                return False
            if not any(isinstance(t, T) and t.op == "app" and t.a[0] in ("get", "has") and len(t.a) == 3 and f == frozenset([1]) and bare(t.a[2]) is key and base(t.a[1]) in u.old for t, f in facts.items()):
                return False
            return not moved or any(isinstance(t, T) and t.op == "app" and t.a[0] in ("get", "has", "contains") and len(t.a) == 3 and f == frozenset([0]) and bare(t.a[2]) is key
                                    for t, f in facts.items())
        w = follow(u, lambda ev: ev.kind == "iter" and ev.result is el, stop, prune, el)
        if w is not None:
            ctx.violation("items:%s:newer" % w.fr.body.name, "an item of the newer list is passed over though the older may not have it, or have it elsewhere", w.where(), w.stack())
        prevs, at = [], None
        for node, ev, _ in e.events():
            if not putting(ev) or not has(ev.args[-1], key) or ev.args[-1].op != "agg":
                continue
            v = ev.args[-1]
            ctx.count("records of newer items")
            if not any(x is key for x in v.a):
                ctx.violation("items:%s:id" % ev.fr.body.name, "a created item is recorded under another id", ev.where(), ev.stack())
            rec = [x for x in v.a[2:] if isinstance(x, T) and x.op == "agg"]
            if rec:
                whole(ctx, u, ev, rec[0], kinds)
                prev = [x for x in subterms(rec[0]) if optional_id(u, x)]
                for p in prev[:1]:
                    prevs.append(p)
                    at = ev
                    before(ctx, u, ev, el, key, p)
        if prevs and not any(is_some(y, key) for p in prevs for y in u.closure(p).values()):
            ctx.violation("before:%s:none" % at.fr.body.name, "no record of an item names the item before it", at.where(), at.stack())
    # what is returned
    for x in e.exits:
        if not completes(x):
            continue
        r = x.ret
        if r.op == "agg" and r.a[0] == absint.OPTION and r.a[1] == 0 and u.old:
            ctx.count("answers that nothing changed")
            es = list(empty(x.state.facts))
            pushed = [m for m in es if any(putting(ev) and ev.kind == "push" and (ev.args[0] is m or m.id in u.closure(ev.args[0]) or ev.args[0].id in u.closure(m)) for _, ev, _ in e.events())]
            ids = [t for t, f in x.state.facts.items() if isinstance(t, T) and t.op == "app" and t.a[0] == "eq" and f == frozenset([1])
                   and {base(y) for y in t.a[1:] if isinstance(y, T)} & u.old and {base(y) for y in t.a[1:] if isinstance(y, T)} & u.new]
            if (olds or news) and not pushed:
                ctx.violation("none:%s" % u.b.name, "nothing is said to have changed without the records being empty", u.b.where(u.b.line))
            if (olds or news) and not ids and next_field(prog, u):
                ctx.violation("none:%s:next" % u.b.name, "nothing is said to have changed though the next id may have", u.b.where(u.b.line))
        for t in subterms(r):
            if t.op == "agg" and local(prog, t.a[0]):
                for y in t.a[2:]:
                    if isinstance(y, T) and str(u.typed(y)) == "u64" and y.op == "fld":
                        ctx.count("next ids recorded")
                        if base(y) in u.old:
                            ctx.violation("next:%s" % u.b.name, "the next id recorded is the older list's", u.b.where(u.b.line))
    ctx.analysed.append(u.b.p)


def local(prog, d):
    return d in prog._records


def records(prog, ds):
    """Types of the crate that values or references are kept in."""
    out = set()
    while True:
        n = {d for d in prog.local_adts if str(d).split("::")[0] == DIFF and d not in out and any(
            holds(f["t"], out | {ds["RustParam"], ds["Qv"]}) for v in prog.adts[d]["v"] for f in v["f"])}
        if not n:
            break
        out |= n
    prog._records = out
    return out


def next_field(prog, u):
    return any(isinstance(y, T) and y.op == "fld" and base(y) in u.new and str(u.typed(y)) == "u64" for x in u.e.exits if x.ret is not None for y in subterms(x.ret))


def wrong_kind(u, facts, el, vi):
    """The definition under the name is of another kind than the entry: cannot be."""
    key = sub(el, (-1, 0))
    vt = u.typed(sub(el, (-1, 1)))
    for t, f in facts.items():
        if not isinstance(t, T) or not isinstance(f, frozenset) or t.op != "fld":
            continue
        r = t
        while r.op == "fld":
            r = r.a[0]
        if r.op != "idx" or bare(r.a[1]) is not bare(key) or u.of(r.a[0], *PAIRS) or base(r.a[0]) in u.old:
            continue
        ty = u.typed(t)
        ty = ty.strip_refs() if ty is not None else None
        if ty is None or ty.k != "adt" or ty.d not in u.prog.adts or vt is None:
            continue
        vs = u.prog.adts[ty.d]["v"]
        mine = u.prog.adts[vt.strip_refs().d]["v"][vi]["n"]
        if len(vs) > 1 and {vs[i]["n"] == "Param" for i in f if i < len(vs)} == {mine != "Param"}:
            return True
        if len(vs) > 1 and mine != "Param" and not any(vs[i]["n"] in ("MList", "MilDef") for i in f if i < len(vs)):
            return True
    return False


def record_kinds(u):
    """The containers that records of an item are made of, by what they hold."""
    out = {}
    for node, ev, _ in u.e.events():
        if ev.kind == "insert" and len(ev.args) == 3 and any(x in u.iters and u.of(x, *PAIRS) for x in subterms(ev.args[1])):
            for x in chain(u, ev.args[0]).values():
                if x.op == "phi":
                    out.setdefault(x.id, value_kind(u, ev.args[2]))
    return out


def chain(u, m):
    """The states a container goes through."""
    seen, st = {}, [m]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen[x.id] = x
        if x.op == "phi":
            st += list(u.e.phi_in.get(x.id, ()))
        elif x.op == "app":
            n = next((y for y in x.a if isinstance(y, T)), None)
            if n is not None:
                st.append(n)
    return seen


def value_kind(u, v):
    if u.of(v, "RustParam"):
        return "value"
    if u.of(v, "Qv"):
        return "reference"
    return "list"


def kind_of(u, m, kinds):
    if m.id in kinds:
        return kinds[m.id]
    return next((kinds[i] for i in sorted(chain(u, m)) if i in kinds), None)


def pushes_for(u, el):
    key = sub(el, (-1, 0))
    return any(ev.kind == "push" and has(ev.args[-1], key) for _, ev, _ in u.e.events() if len(ev.args) >= 2)


def found(u, facts, key, n):
    return any(isinstance(t, T) and t.op == "app" and t.a[0] == "get" and len(t.a) == 3 and f == frozenset([n]) and bare(t.a[2]) is key and base(t.a[1]) in u.new for t, f in facts.items())


def whole(ctx, u, ev, rec, kinds):
    """A record of a changed or new item holds everything that was recorded of it."""
    want = set(kinds.values())
    for t in subterms(rec):
        if t.op == "agg" and local(u.prog, t.a[0]):
            fs = [x for x in t.a[2:] if isinstance(x, T) and (x.id in kinds or x.op == "phi" and kind_of(u, x, kinds) or x.op == "app" and x.a[0] in ("new", "default"))]
            if len(fs) >= 2:
                got = {kind_of(u, x, kinds) for x in fs}
                fresh = [x for x in fs if all(y.op == "app" and not any(isinstance(z, T) for z in y.a) for y in chain(u, x).values())]
                for k in sorted(want - got)[:len(fresh)]:
                    ctx.violation("whole:%s:%s" % (ev.fr.body.name, k), "the record of an item does not hold its %ss" % k, ev.where(), ev.stack())
                return


def optional_id(u, x):
    if x.op == "phi":
        ins = u.e.phi_in.get(x.id, ())
        return any(y.op == "agg" and y.a[0] == absint.OPTION for y in ins)
    return x.op == "agg" and x.a[0] == absint.OPTION


def before(ctx, u, ev, el, key, p):
    """The predecessor recorded for an item is the item before it."""
    ins = list(u.e.phi_in.get(p.id, ())) if p.op == "phi" else [p]
    ctx.count("predecessors recorded")
    for y in ins:
        if y.op == "agg" and y.a[0] == absint.OPTION and (y.a[1] == 0 or bare(y.a[2]) is key):
            continue
        if y.op == "phi" and y is not p:
            continue
        ctx.violation("before:%s" % ev.fr.body.name, "the predecessor recorded (%s) is not the item before" % show(y, 4), ev.where(), ev.stack())
        return
    if p.op != "phi":
        return
    if p.id in u.e.phi_self:
        ctx.violation("before:%s:kept" % ev.fr.body.name, "after a round the predecessor may still be the one of the round before", ev.where(), ev.stack())


def is_some(v, key):
    return v.op == "agg" and v.a[0] == absint.OPTION and v.a[1] == 1 and bare(v.a[2]) is key


# ---------------------------------------------------------------- applying

def apply(prog, ctx, u, muts):
    e = u.e
    dargs = {s for i, s in u.sym.items() if holds(u.b.locals[i], prog._records)}
    for el, ev0 in u.iters.items():
        if base(ev0.args[0]) not in dargs:
            continue
        ty = u.typed(el)
        if ty is None or ty.k != "tuple" or len(ty.a) != 2:
            continue
        key, val = sub(el, (-1, 0)), sub(el, (-1, 1))
        vt = ty.a[1].strip_refs()
        ctx.count("loops over records")
        if vt.k == "adt" and vt.d in prog.adts and len(prog.adts[vt.d]["v"]) > 1 and local(prog, vt.d):
            operations(prog, ctx, u, el, ev0, vt, muts)
            continue
        opt = vt.k == "adt" and vt.d == absint.OPTION and local(prog, vt.a[0].d if vt.a[0].k == "adt" else "")

        def stop(ev, facts):
            if ev.kind == "insert" and len(ev.args) == 3:
                if has(ev.args[2], val):
                    return True
                return opt and has(ev.args[1], key) and ev.facts.get(val) == frozenset([0]) and any(
                    x.op == "agg" and x.a[0] == absint.OPTION and x.a[1] == 0 for x in subterms(ev.args[2]))
            if ev.kind in ("local", "rec") and ev.target is not None and ev.target.body is not None and ev.target.body.d in u.cuts:
                return opt and any(has(x, val) for x in ev.args[1:] if isinstance(x, T))
            return False

        def prune(facts):
            if not opt or facts.get(val) != frozenset([0]):
                return False
            # nothing to do where there is no list already
            return any(isinstance(t, T) and f == frozenset([0]) and t.op == "fld" and any(x.op == "idx" and has(x.a[1], key) for x in subterms(t)) and base(t) not in dargs for t, f in facts.items())
        w = follow(u, lambda ev: ev.kind == "iter" and ev.result is el, stop, prune, el)
        if w is not None:
            ctx.violation("applied:%s" % w.fr.body.name, "a recorded entry is passed over", w.where(), w.stack())
        for node, ev, _ in e.events():
            if ev.kind == "insert" and len(ev.args) == 3 and has(ev.args[2], val):
                ctx.count("entries applied")
                if not has(ev.args[1], key):
                    ctx.violation("applied:%s:own" % ev.fr.body.name, "a recorded entry is stored under a name (%s) that is not the one of its number" % show(ev.args[1], 4), ev.where(), ev.stack())
            if ev.kind == "insert" and len(ev.args) == 3 and opt and has(ev.args[1], key) and ev.facts.get(val) == frozenset([1]) and not has(ev.args[2], val):
                ctx.violation("applied:%s:lost" % ev.fr.body.name, "something else than the recorded list is stored", ev.where(), ev.stack())
            if ev.kind in ("local", "rec") and ev.target is not None and ev.target.body is not None and ev.target.body.d in u.cuts and len(ev.args) >= 2:
                ds = [x for x in ev.args[1:] if isinstance(x, T) and has(x, val)]
                tg = ev.args[0]
                inner = [x for x in subterms(tg) if x.op == "idx" and base(x.a[0]) not in dargs]
                if ds and inner and not any(has(x.a[1], key) for x in inner):
                    ctx.violation("applied:%s:list" % ev.fr.body.name, "a recorded list is applied to another member's list", ev.where(), ev.stack())
    # the next id
    nxt = None
    for i, s in u.sym.items():
        t = u.b.locals[i].strip_refs()
        if t.k == "adt" and local(prog, t.d) and len(prog.adts[t.d]["v"]) == 1:
            for j, f in enumerate(prog.adts[t.d]["v"][0]["f"]):
                if f["t"] is not None and str(f["t"]) == "u64":
                    nxt = (s, j)
    if nxt is not None and u.old:
        ctx.count("next ids applied")
        s, j = nxt
        if not any(isinstance(x, T) and any(y.op == "fld" and y.a[2] == j and y.a[0].op == "sym" and y.a[0].a[0] == s for y in subterms(x)) for _, ev, _ in e.events() for x in ev.args):
            ctx.violation("applied:%s:next" % u.b.name, "the recorded next id is not used", u.b.where(u.b.line))
    ctx.analysed.append(u.b.p)


def operations(prog, ctx, u, el, ev0, vt, muts):
    """Each operation recorded for an item does something to the item of that id, with all that was recorded."""
    key, val = sub(el, (-1, 0)), sub(el, (-1, 1))
    e = u.e
    for vi, v in enumerate(prog.adts[vt.d]["v"]):
        ctx.count("operations applied")

        def prune(facts):
            k = facts.get(val)
            return isinstance(k, frozenset) and vi not in k

        def op(ev):
            return ev.kind in ("local", "rec") and ev.target is not None and ev.target.body is not None and ev.target.body.d in muts and any(x is key for x in ev.args[1:])
        if not v["f"]:
            def stop(ev, facts):
                return op(ev) and len(ev.args) == 2 or ev.kind == "remove" and any(x is key for x in ev.args)
            w = follow(u, lambda ev: ev.kind == "iter" and ev.result is el, stop, prune, el)
            if w is not None:
                ctx.violation("operation:%s:%s" % (w.fr.body.name, v["n"]), "a recorded %s is passed over" % v["n"], w.where(), w.stack())
            continue
        # everything recorded is gone through
        fields = vectors(prog, v["f"][0]["t"], sub(val, (vi, 0)))
        for what, f in fields:
            ctx.count("parts of operations")

            def stop(ev, facts):
                return ev.kind in ("iter", "iter-end") and has(ev.args[0], f)
            w = follow(u, lambda ev: ev.kind == "iter" and ev.result is el, stop, prune, el)
            if w is not None:
                ctx.violation("operation:%s:%s:%s" % (u.b.name, v["n"], what), "the %s of a recorded %s are not gone through" % (what, v["n"]), w.where(), w.stack())
        prevs = [(i, f) for i, f in options(prog, v["f"][0]["t"], sub(val, (vi, 0)))]
        if prevs:
            def stop(ev, facts):
                return op(ev) and any(holds(u.typed(x), {u.ds["MutItem"]}) or x.op == "agg" and x.a[0] == u.ds["MutItem"] for x in ev.args[1:] if isinstance(x, T))
            w = follow(u, lambda ev: ev.kind == "iter" and ev.result is el, stop, prune, el)
            if w is not None:
                ctx.violation("operation:%s:%s" % (w.fr.body.name, v["n"]), "a recorded %s puts no item under the recorded id" % v["n"], w.where(), w.stack())
            for i, f in prevs:
                def prune2(facts):
                    return prune(facts) or facts.get(f) == frozenset([0])

                def stop2(ev, facts):
                    return op(ev) and any(has(x, sub(f, (1, 0))) for x in ev.args[1:] if isinstance(x, T))
                w = follow(u, lambda ev: ev.kind == "iter" and ev.result is el, stop2, prune2, el)
                if w is not None:
                    ctx.violation("operation:%s:%s:%s" % (w.fr.body.name, v["n"], i), "the predecessor of a recorded %s is not used" % v["n"], w.where(), w.stack())
        # maps of the item made or changed
        for node, ev, _ in e.events():
            if not op(ev) or not prevs or ev.facts.get(val) != frozenset([vi]):
                continue
            for x in ev.args[1:]:
                if isinstance(x, T) and x.op == "agg" and x.a[0] == u.ds["MutItem"]:
                    ctx.count("items made")
                    for i, y in enumerate(x.a[2:]):
                        if isinstance(y, T) and not any(z.op == "phi" for z in u.closure(y).values()):
                            ctx.violation("operation:%s:%s:map" % (ev.fr.body.name, v["n"]), "an item is made with an empty %s" % prog.adts[u.ds["MutItem"]]["v"][0]["f"][i]["n"], ev.where(), ev.stack())


def parts(prog, ty, t, depth=0):
    ty = ty.strip_refs() if ty is not None else None
    if ty is None or ty.k != "adt":
        return
    if local(prog, ty.d) and ty.d in prog.adts and len(prog.adts[ty.d]["v"]) == 1 and depth < 4:
        for j, f in enumerate(prog.adts[ty.d]["v"][0]["f"]):
            if f["t"] is not None:
                yield f["n"], f["t"], sub(t, (-1, j))
                for x in parts(prog, f["t"], sub(t, (-1, j)), depth + 1):
                    yield x


def vectors(prog, ty, t):
    return [(n, x) for n, f, x in parts(prog, ty, t) if f.k == "adt" and last(f.d) == "Vec"]


def options(prog, ty, t):
    return [(n, x) for n, f, x in parts(prog, ty, t) if f.k == "adt" and f.d == absint.OPTION]


# ---------------------------------------------------------------- equality

class Small(walk.Follow):
    cap = 160
    max_depth = 12

    def __init__(self, names):
        walk.Follow.__init__(self, set(), {CORE})
        self.names = names

    def inline(self, eng, fr, tg):
        b = tg.body
        if b is None or b.name in self.names:
            return False
        return b.crate == "models" or b.kind == "closure" or b.crate == CORE and len(b.reach) <= 8


def equality(prog, ctx, used):
    """A comparison says that two values are the same only where all their parts were compared."""
    for b in prog.fns(CORE):
        if b.d not in used or b.name not in ("identity_eq", "eq") or b.argc != 2 or b.trait is None:
            continue
        ty = b.locals[1].strip_refs()
        a = prog.adts.get(ty.d) if ty.k == "adt" else None
        if str(ty) in PLAIN or ty.k == "adt" and ty.d in PLAIN:
            plain(prog, ctx, b)
            continue
        if a is None or ty.d not in prog.local_adts:
            continue
        try:
            e = absint.Engine(prog, Small({"identity_eq", "eq"})).run(b)
        except Budget as y:
            ctx.undecide("%s: %s" % (b.p, y))
            continue
        ctx.count("comparisons")
        me = absint.mk("sym", "arg1:%s" % b.names.get(1, ""))
        it = absint.mk("sym", "arg2:%s" % b.names.get(2, ""))
        name = last(ty.d)
        vs = a["v"]
        for x in e.exits:
            if x.kind != "return":
                continue
            facts = x.state.facts
            if x.ret.op == "const" and x.ret.a[-1] in (0, False):
                continue
            ks, ko = variants(facts, me, vs), variants(facts, it, vs)
            # parts of one kind compared with parts of the same kind
            tags = any(y.op == "app" and not any(z.op == "fld" for z in subterms(y)) and has(y, me) and has(y, it) for t in [x.ret] + [t for t, f in facts.items() if isinstance(t, T) and f == frozenset([1])]
                       for y in subterms(t))
            if len(vs) > 1 and any(i != j for i in ks for j in ko) and not tags:
                ctx.violation("equal:%s" % name, "values of different kinds (%s, %s) may be said to be the same" % (nm(vs, ks), nm(vs, ko)), b.where(b.line))
                continue
            if any(y.op == "app" and me in y.a and it in y.a for t in [x.ret] + [t for t, f in facts.items() if isinstance(t, T) and f == frozenset([1])] for y in subterms(t)):
                continue
            for vi in sorted(ks & ko):
                for i, f in enumerate(vs[vi]["f"]):
                    c = vi if len(vs) > 1 else -1
                    p, q = sub(me, (c, i)), sub(it, (c, i))
                    if str(f["t"]).startswith("core::marker::PhantomData"):
                        continue
                    ctx.count("parts compared")
                    if not same(x.ret, facts, p, q) and any(ev.kind == "iter" for _, ev, _ in e.events()):
                        ctx.undecide("%s: compared one by one" % b.p)
                    elif not same(x.ret, facts, p, q):
                        ctx.violation("equal:%s:%s" % (name, vs[vi]["n"]), "two %s may be said to be the same without comparing %s" % (vs[vi]["n"] or name, f["n"]), b.where(b.line))
        ctx.analysed.append(b.p)


def nm(vs, ks):
    return "/".join(vs[i]["n"] for i in sorted(ks))


def variants(facts, t, vs):
    k = facts.get(t)
    return set(k) if isinstance(k, frozenset) else set(range(len(vs)))


LOSSY = ("len", "capacity", "is_empty", "first", "last", "nth", "abs", "floor", "ceil", "round", "trunc", "fract", "signum", "min", "max", "clamp", "count", "is_some",
         "is_none", "is_nan", "trim", "trim_start", "trim_end", "to_lowercase", "to_uppercase", "to_ascii_lowercase", "to_ascii_uppercase", "eq_ignore_ascii_case",
         "split_at", "starts_with", "ends_with", "contains", "strip_prefix", "strip_suffix", "lines", "split_whitespace", "sum", "discriminant")
ORDER = ("bin:Lt", "bin:Le", "bin:Gt", "bin:Ge")
WHOLE = ("eq", "cmp", "partial_cmp", "total_cmp", "ne", "ptr_eq", "identity_eq", "bin:Eq", "bin:Ne")


def lossy(y):
    n = str(y.a[0])
    return last(n) in LOSSY or n.startswith(("bin:", "un:", "cast:")) and n not in WHOLE + ORDER


def intact(y, p):
    """p is part of y without having gone through anything that drops some of it."""
    if y is p:
        return True
    return not (y.op == "app" and lossy(y)) and any(intact(x, p) for x in y.a if isinstance(x, T))


def plain(prog, ctx, b):
    """Numbers and text are the same only where they were compared whole."""
    try:
        e = absint.Engine(prog, Small({"identity_eq", "eq"})).run(b)
    except Budget as y:
        ctx.undecide("%s: %s" % (b.p, y))
        return
    me = absint.mk("sym", "arg1:%s" % b.names.get(1, ""))
    it = absint.mk("sym", "arg2:%s" % b.names.get(2, ""))
    ctx.count("comparisons of plain values")
    for x in e.exits:
        if x.kind != "return" or x.ret.op == "const" and x.ret.a[-1] in (0, False):
            continue
        ts = [t for t, f in x.state.facts.items() if isinstance(t, T) and (f == frozenset([1]) or t.op == "app" and str(t.a[0]).replace("bin:", "").lower() in ("lt", "le", "gt", "ge"))] + [x.ret]
        apps = [y for t in ts for y in subterms(t) if y.op == "app" and has(y, me) and has(y, it)]
        if any(last(str(y.a[0])) in WHOLE and not lossy(y) and any(intact(z, me) for z in y.a[1:] if isinstance(z, T)) and any(intact(z, it) for z in y.a[1:] if isinstance(z, T)) for y in apps):
            continue
        if not apps and all(any(has(t, y) for t in x.state.facts if isinstance(t, T)) for y in (me, it)):
            ctx.undecide("%s: each value is looked at alone" % b.p)
            continue
        order = {y for y in apps if last(str(y.a[0])).replace("bin:", "").lower() in ("lt", "le", "gt", "ge")}
        if not apps or len(order) == 1 == len(set(apps)) or any(lossy(z) or last(str(z.a[0])) in LOSSY for y in apps for z in subterms(y) if z.op == "app"):
            ctx.violation("equal:plain:%s" % b.p, "two values may be said to be the same without having been compared whole: %s" % show(x.ret, 4), b.where(b.line))
        else:
            ctx.undecide("%s: %s" % (b.p, show(x.ret, 4)))


def same(ret, facts, p, q):
    ts = [t for t, f in facts.items() if isinstance(t, T) and f == frozenset([1])] + [ret]
    for t in ts:
        if t.op == "const":
            continue
        for x in subterms(t):
            if x.op == "app" and x.a[0] not in ("not",):
                l = [y for y in x.a[1:] if isinstance(y, T)]
                if any(intact(y, p) for y in l) and any(intact(y, q) for y in l):
                    return True
    # both are nothing
    return facts.get(p) == facts.get(q) == frozenset([0]) and p.op == "fld"


def direction(prog, ctx, O, start, es, ro):
    """The older object is the first one and the saved object the second one all the way to the comparison."""
    roles = {start.d: {1: {"older"}, 2: {"newer"}}}
    bodies = [b for b in prog.fns() if b.crate in (DIFF, "dochy_fs") and b.kind == "fn"]
    moved = True
    while moved:
        moved = False
        for b in bodies:
            for bi in b.reach:
                t = b.blocks[bi].t
                if t.k != "call" or t.callee is None:
                    continue
                r = roles.get(t.callee.id) or roles.get((t.callee.trait, t.callee.name))
                for i, rs in (r or {}).items():
                    if i > len(t.args) or t.args[i - 1].pl is None:
                        continue
                    for l in O.roots(b)[t.args[i - 1].pl.l]:
                        ty = b.locals[l].strip_refs()
                        if not 1 <= l <= b.argc or not (ty.k == "adt" and ty.d == ro or ty.k == "param"):
                            continue
                        for key in [b.d] + ([(b.trait, b.name)] if b.trait is not None else []):
                            have = roles.setdefault(key, {}).setdefault(l, set())
                            if not rs <= have:
                                have |= rs
                                moved = True
    for b in es:
        if b.d == start.d:
            continue
        r = roles.get(b.d, {})
        ctx.count("orders of the two objects")
        if r.get(1) == {"newer"} or r.get(2) == {"older"}:
            ctx.violation("direction:%s" % b.name, "%s compares the two objects the wrong way round" % b.p, b.where(b.line))
    for b in bodies:
        if b.crate != "dochy_fs" or not b.eff or not b.name.startswith("save"):
            continue
        for i in range(1, b.argc + 1):
            ty = b.locals[i].strip_refs()
            if ty.k == "adt" and ty.d == ro and roles.get(b.d, {}).get(i):
                ctx.count("saved objects")
                if "newer" not in roles[b.d][i]:
                    ctx.violation("direction:%s" % b.name, "%s records the difference from the object that is saved, not to it" % b.p, b.where(b.line))


def run(prog, ctx):
    ctx.rule("left out: a way through a round over the newer object's entries that records nothing knows that the older object has the same entry (compared whole, under the same name)")
    ctx.rule("own: an entry is recorded under the number found by its name, applied under the name found by its number")
    ctx.rule("items: older items are passed over only if the newer list has them unchanged, newer ones only if the older list has them; deleted only if gone or moved")
    ctx.rule("before: the predecessor recorded for an item is the item before it")
    ctx.rule("none: that nothing changed is said only with empty records and equal next ids")
    ctx.rule("applied, operation: every record is applied, with all its parts, to the member or item it was recorded for")
    ctx.rule("direction: the object given second, or saved, is the one whose entries are recorded")
    ctx.rule("kept: applying never empties what it is applied to beyond the records")
    ctx.rule("equal: two values are said to be the same only where the same parts of both were compared")
    ds = names(prog)
    ro = ds["RootObject"]
    es = [b for b in prog.fns(DIFF) if b.kind == "fn" and b.eff and b.argc >= 2 and all(b.locals[i].k == "ref" and b.locals[i].strip_refs().k == "adt" and b.locals[i].strip_refs().d == ro for i in (1, 2))]
    ap = [b for b in prog.fns(DIFF) if b.kind == "fn" and b.eff and b.argc >= 2 and b.locals[1].k == "ref" and b.locals[1].m and b.locals[1].strip_refs().k == "adt" and b.locals[1].strip_refs().d == ro]
    if not es or not ap:
        raise Anchor("no public functions make or apply differences")
    cg = CallGraph(prog)
    wr = records(prog, ds)
    lists = {ds[n] for n in LISTS}

    def reached(bs):
        out = {}
        for b in bs:
            for k in cg.reach([cg.inst(b)], ("call", "hof")):
                x = cg.insts[k].body
                if x is not None and x.crate == DIFF and x.kind == "fn":
                    out[x.d] = x
        return out

    def cyclic(x):
        return any(True for k in loop_back(cg, cg.reach([cg.inst(x)], ("call", "hof")), x.d))
    # comparing
    bodies = reached(es)
    cuts = {d for d, x in bodies.items() if any(t.strip_refs().k == "adt" and t.strip_refs().d in lists for t in x.locals[1:x.argc + 1]) and cyclic(x)}
    # what writes the records down is another matter
    writers = {d for d, x in bodies.items() if any(holds(t, wr) for t in x.locals[1:x.argc + 1]) and not any(holds(t, wr) for t in x.locals[:1])}
    starts = [x for x in bodies.values() if x.argc >= 2 and not holds(x.locals[0], set()) and all(x.locals[i].strip_refs().k == "adt" and x.locals[i].strip_refs().d == ro for i in (1, 2))
              and holds(x.locals[0], wr)] or es[:1]
    units = []
    for x in starts[:1] + [bodies[d] for d in sorted(cuts)]:
        try:
            u = Unit(prog, ds, x, cuts | writers)
        except Budget as y:
            ctx.undecide("%s: %s" % (x.p, y))
            continue
        units.append(u)
    if units:
        u0 = units[0]
        u0.old, u0.new = {u0.sym[1]}, {u0.sym[2]}
        todo, done = [u0], []
        while todo:
            u = todo.pop()
            done.append(u)
            for node, ev, _ in u.e.events():
                if ev.kind not in ("local", "rec") or ev.target is None or ev.target.body is None or ev.target.body.d not in cuts:
                    continue
                for y in units:
                    if y.b.d != ev.target.body.d:
                        continue
                    for i, a in enumerate(ev.args):
                        if not isinstance(a, T) or not holds(y.b.locals[i + 1], lists | {ds["MutItem"]}):
                            continue
                        s = "old" if base(a) in u.old else "new" if base(a) in u.new else None
                        if s is None:
                            continue
                        n = y.sym[i + 1]
                        if n in (y.new if s == "old" else y.old):
                            ctx.violation("sides:%s" % ev.fr.body.name, "the %ser list is passed where the other is expected" % s.replace("old", "old").replace("new", "new"), ev.where(), ev.stack())
                        else:
                            (y.old if s == "old" else y.new).add(n)
                    if y not in done and y not in todo:
                        todo.append(y)
        for u in done:
            compare(prog, ctx, u)
        for u in units:
            if u not in done:
                ctx.note("%s is not reached from the comparison" % u.b.p)
    # applying
    bodies = reached(ap)
    muts = {b.d for b in prog.fns(CORE) if b.kind == "fn" and b.argc >= 1 and b.locals[1].k == "ref" and b.locals[1].m and b.locals[1].strip_refs().k == "adt"
            and b.locals[1].strip_refs().d == ds["LinkedMap"] and b.locals[0].k not in ("ref",) and not (b.locals[0].k == "adt")}
    readers = {d for d, x in bodies.items() if holds(x.locals[0], wr) and not any(holds(t, wr) for t in x.locals[1:x.argc + 1])}
    cuts = {d for d, x in bodies.items() if any(t.k == "ref" and t.m and t.strip_refs().k == "adt" and t.strip_refs().d in lists for t in x.locals[1:x.argc + 1]) and cyclic(x)}
    starts = [x for x in bodies.values() if x.locals[1:2] and x.argc >= 2 and x.locals[1].strip_refs().k == "adt" and x.locals[1].strip_refs().d == ro and holds(x.locals[2], wr)]
    if not starts:
        raise Anchor("nothing applies the records of a difference")
    pick = [x for x in starts if not x.eff] or starts
    for x in pick[:1] + [bodies[d] for d in sorted(cuts)]:
        try:
            u = Unit(prog, ds, x, cuts | muts | readers, 1)
        except Budget as y:
            ctx.undecide("%s: %s" % (x.p, y))
            continue
        u.old = {u.sym[1]}
        u.cuts = cuts
        apply(prog, ctx, u, muts)
    O = order.Orders(prog)
    if units:
        direction(prog, ctx, O, units[0].b, es, ro)
        ctx.floor("orders of the two objects", 1)
    targets = {ds[n] for n in PAIRS + LISTS}
    for x in bodies.values():
        for bi in sorted(x.reach):
            t = x.blocks[bi].t
            if t.k != "call" or t.callee is None or not t.args or t.args[0].pl is None:
                continue
            ty = prog.op_ty(x, t.args[0])
            if ty is None or ty.k != "ref" or not ty.m or not holds(ty, targets):
                continue
            ctx.count("changes of the object")
            if t.callee.name in WIPES and any(1 <= l <= x.argc for l in O.roots(x)[t.args[0].pl.l]):
                ctx.violation("kept:%s:%s" % (x.name, t.callee.name), "applying a difference throws away entries that no record names (%s)" % t.callee.path, x.where(t.ln))
    used = {cg.insts[k].body.d for b in es for k in cg.reach([cg.inst(b)], ("call", "hof")) if cg.insts[k].body is not None}
    equality(prog, ctx, used)
    ctx.floor("loops over stored entries", 2)
    ctx.floor("loops over lists", 2)
    ctx.floor("loops over records", 3)
    ctx.floor("comparisons", 4)
