"""Facts at every insertion reachable from the public set functions.

Each set function of roots and of mutable items is followed down to the point where the
override is inserted.  At every such point the analysis must know - from the branches taken on
the way - that the definition has a parameter of the given name, that its type is the type of
the inserted value, and that its variability admits the state of the inserted value.
Calls that report success must have inserted, calls that report rejection must not have
changed anything.
"""
import absint
from absint import show, TRUE, FALSE, subterms, sub
from terms import Typer, fact, reach_without, reach_after
from accessors import accessors, need, Model, KINDS, has_key

TECHNIQUE = "typestate facts at every insertion: interprocedural, variant-partitioned dataflow over MIR"
SETTERS = ["set_" + k for k in KINDS] + ["set_sabun"]
MUTATIONS = ("insert", "remove", "push")


class Fine(absint.Client):
    cap = 400


def impossible(M, ty, facts, key):
    """An override of another kind under the name of a parameter: cannot exist, overrides are made
    for the kind the definition has."""
    return any(t.op == "idx" and t.a[1] is key and ty.adt(t) in M.sabs and isinstance(f, frozenset) and
               M.sabs[ty.adt(t)][0] not in f for t, f in facts.items())


def run(prog, ctx):
    M = Model(prog)
    acc = accessors(prog)
    ctx.rule("definition: at an insertion the definition is known to hold a parameter under the given name")
    ctx.rule("type: the type of the inserted value is the type in the definition")
    ctx.rule("variability: the definition's variability admits the state of the inserted value")
    ctx.rule("outcome: success is reported only after an insertion, rejection only without one")
    for holder in ("RootObjectPtr", "MItemPtr"):
        for name in SETTERS:
            setter(prog, ctx, M, holder, name, need(acc, holder, name))
    ctx.floor("set functions", 16)
    ctx.floor("insertions (site, state)", 16)


def setter(prog, ctx, M, holder, name, b):
    who = "%s for %s" % (name, holder)
    try:
        e = absint.Engine(prog, Fine()).run(b)
    except absint.Budget as x:
        ctx.undecide("%s: %s" % (who, x))
        return
    ctx.count("set functions")
    ty = Typer(e)
    key = e.entry.state.mem.get(("L", e.root.id, 2))
    n = 0
    for _, ev, _ in e.events():
        if ev.kind != "insert" or len(ev.args) != 3:
            continue
        v = ev.args[2]
        sab = v.a[0] if v.op == "agg" else ty.adt(v)
        if sab not in M.sabs:
            continue
        n += 1
        ctx.count("insertions (site, state)")
        insertion(ctx, M, ty, e, ev, v, sab, key, holder, name, who)
    if not n:
        ctx.violation("never:%s:%s" % (holder, name), "%s never stores anything" % who, b.where())
        return
    # outcome
    stored = lambda ev: ev.kind == "insert"
    changed = lambda ev: ev.kind in MUTATIONS
    _, ex = reach_without(e, stored)
    for x in ex:
        if x.kind == "return" and x.ret is TRUE:
            ctx.violation("phantom:%s:%s" % (holder, name), "%s can report success without having stored the value" % who,
                          b.where())
    ex, _ = reach_after(e, changed)
    for x in ex:
        if x.kind == "return" and x.ret is FALSE and not impossible(M, ty, x.state.facts, key):
            ctx.violation("dirty:%s:%s" % (holder, name), "%s can report a rejection after having changed the object" % who,
                          b.where())
    ctx.analysed.append("%s: %d insertions" % (who, n))


def insertion(ctx, M, ty, e, ev, v, sab, key, holder, name, who):
    def bad(rule, msg):
        ctx.violation("%s:%s:%s" % (rule, holder, name), "%s: %s" % (who, msg), ev.where(), ev.stack())
    svi, spi = M.sabs[sab]
    if fact(e, ev.facts, v) != frozenset([svi]):
        return
    param = sub(v, (svi, spi))
    # the definition's member of that name
    cands = [t for t in ev.facts if t.op in ("idx", "fld") and ty.adt(t) in M.defs and
             any(x.op == "idx" and x.a[1] is key for x in subterms(t))]
    good = None
    for t in cands:
        dvi, dpi, dvt = M.defs[ty.adt(t)]
        if ev.facts[t] == frozenset([dvi]):
            good = (t, sub(t, (dvi, dpi)), sub(t, (dvi, dvt)))
    if good is None:
        other = [t for t in ev.facts if ty.adt(t) in M.defs]
        bad("definition", "a value is stored although the definition was not found to hold a parameter of that name"
            + (" (the lookup used %s)" % show(other[0], 5) if other else ""))
        return
    t, dp, dv = good
    # type
    pt = fact(e, ev.facts, param)
    dt = fact(e, ev.facts, dp)
    if untracked(ev.facts, (dp, param)) and (dt is None or pt is None or len(dt) > 1):
        ctx.undecide("%s: type comparison not tracked" % who)
    elif dt is None or pt is None or len(pt) != 1 or dt != pt:
        f = lambda s: "any type" if s is None else "/".join(sorted(M.vname(M.param, i) for i in s))
        bad("type", "a value of type %s is stored where the definition may have %s" % (f(pt), f(dt)))
        return
    # state
    if pt is not None and len(pt) == 1:
        qv = sub(param, (next(iter(pt)), 0))
        qs = fact(e, ev.facts, qv)
        if qs is None:
            qs = frozenset(M.qvv.values())
        vs = fact(e, ev.facts, dv)
        if vs is None:
            if untracked(ev.facts, (dv,)):
                ctx.undecide("%s: variability test not tracked" % who)
                return
            vs = frozenset(M.vtv.values())
        for x in vs:
            for q in qs:
                if q not in M.admits[x]:
                    bad("state:%s:%s" % (M.vname(M.vt, x), M.vname(M.qv, q)),
                        "the state %s is stored into a member declared %s" % (M.vname(M.qv, q), M.vname(M.vt, x)))


def untracked(facts, terms):
    """A branch was taken on something computed from these origins that is not a variant test."""
    for t, f in facts.items():
        if t.op in ("app", "not") and t.a[0] != "get":
            ids = {x.id for x in subterms(t)}
            if any(y.id in ids for y in terms):
                return True
    return False
