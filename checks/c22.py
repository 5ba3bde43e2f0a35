"""Background saves: one ordered queue per directory, a snapshot taken at the call, one callback.

The non-blocking saves are followed from their entry point to the call that hands the work to
another thread, and the closure handed over is followed to its end.  The queue must be a pool with
exactly one worker that belongs to the history directory; the closure must carry a copy of the object
made during the call; on every path the closure runs the save once and then calls the callback
exactly once with the outcome of that save.
"""
import absint
from absint import subterms, show, RESULT, Budget
from cg import is_async
from slicing import reaching, Slice
from terms import Typer, find_adt, last
import api

TECHNIQUE = "dataflow over hand-over sites: queue discipline, captured values, and callback counts on all paths of the closure"


class Queue(Slice):
    partial = "all"

    def __init__(self, keep):
        Slice.__init__(self, keep, 6, ("dochy_fs",))
        self.stored = []

    def on_write(self, eng, s, fr, loc, v, ln):
        if eng.final and (loc[1] or loc[0][0] == "O" or guard(eng, loc[0])):
            self.stored.append(eng.deep(s, v))

    def call(self, eng, s, fr, bi, t, tg, args):
        if tg.kind == "ext" and is_async(tg.path):
            s, res, e = eng.opaque_result(s, fr, bi, t, tg, "handover", tg.path, args)
            return [(s, res, e)]
        return None


def guard(eng, root):
    """The local variable is a lock guard: what is written through it is shared."""
    fr = next((f for f in eng.fr_list if f.id == root[1]), None)
    return fr is not None and root[0] == "L" and root[2] < len(fr.body.locals) and \
        "Guard" in str(fr.body.locals[root[2]])


def paths_count(eng, pred):
    """For every exit: the possible numbers (0, 1, 2 = more) of events accepted by pred before it."""
    val = {eng.entry.num: {0}}
    out = {}
    st = [eng.entry.num]
    while st:
        n = st.pop()
        for evs, b in eng.succ.get(n, ()):
            k = sum(1 for e in evs if pred(e))
            new = {min(2, v + k) for v in val[n]}
            if b is None:
                continue
            if hasattr(b, "ret"):
                out.setdefault(id(b), (b, set()))[1].update(new)
            elif not new <= val.setdefault(b.num, set()):
                val[b.num] |= new
                st.append(b.num)
    return list(out.values())


def run(prog, ctx):
    ctx.rule("queue: history saves are handed to a pool with exactly one worker that belongs to the history directory and replaces no other pool")
    ctx.rule("snapshot: the closure handed over carries a copy, made during the call, of the object that was passed")
    ctx.rule("callback: every path through the closure saves once and then calls the callback exactly once, with the outcome of that save")
    ctx.rule("vacant: the conditional save returns true exactly when it has requested the save")
    root_adt = find_adt(prog, "RootObject", "dochy_core")
    for name in ("save_history_file_nb", "save_dochy_file_nb"):
        caller(prog, ctx, name, root_adt, name == "save_history_file_nb")
    vacant(prog, ctx)
    ctx.floor("hand-over sites (site, state)", 2)
    ctx.floor("callback calls (site, state)", 2)


def caller(prog, ctx, name, root_adt, ordered):
    b = api.pub_fn(prog, "dochy_fs", name)
    keep = reaching(prog, [b], lambda tg: tg.kind == "ext" and is_async(tg.path), ("call", "hof", "drop"))
    cl = Queue(keep)
    try:
        e = absint.Engine(prog, cl).run(b)
    except Budget as x:
        ctx.undecide("%s: %s" % (name, x))
        return
    ctx.analysed.append(b.p)
    ty = Typer(e)
    params = [e.entry.state.mem.get(("L", e.root.id, i)) for i in range(1, b.argc + 1)]
    info = next((p for p in params if p is not None and last(ty.adt(p) or "").endswith("Info")), None)
    root = next((p for p in params if p is not None and ty.adt(p) == root_adt), None)
    bodies = set()
    hand = [ev for _, ev, _ in e.events() if ev.kind == "handover"]
    if not hand:
        ctx.undecide("%s: no hand-over to another thread was found" % name)
        return
    for ev in hand:
        ctx.count("hand-over sites (site, state)")
        clo = [x for a in ev.args for x in subterms(a) if x.op == "clo"]
        for c in clo:
            bodies.add(c.a[0])
            snapshot(ctx, e, ty, name, ev, c, root, root_adt)
        if not ordered:
            continue
        if "ThreadPool" not in ev.path:
            ctx.violation("queue:%s:%s" % (name, ev.fr.body.p),
                          "%s hands the save to %s, which does not run requests in order" % (name, ev.path), ev.where(), ev.stack())
            continue
        pool = ev.args[0]
        own = any(x is info or (x.op == "sym" and str(x.a[0]).startswith("static:")) for x in e.deps(pool)) or \
            any(pool in subterms(v) for v in cl.stored)
        if not own:
            ctx.violation("own:%s:%s" % (name, ev.fr.body.p),
                          "%s: the pool the save is handed to does not belong to the history directory" % name, ev.where(), ev.stack())
        if fresh(e, pool) and not any(absent(ty, t, f) for t, f in ev.facts.items()):
            ctx.violation("replaced:%s:%s" % (name, ev.fr.body.p),
                          "%s hands the save to a new pool although an earlier one may still have saves to do" % name, ev.where(), ev.stack())
    if ordered:
        workers(prog, ctx, name, b)
    for _, got in paths_count(e, lambda ev: ev.kind == "handover"):
        if got - {1} and _.kind == "return":
            ctx.violation("requests:%s" % name, "%s can return having requested %s saves" % (name, "no" if 0 in got else "several"), b.where())
    for d in sorted(bodies):
        closure(prog, ctx, name, prog.bodies[d])


def fresh(e, pool):
    """The pool was made by this very call."""
    return any(x.op in ("app", "world") and "hreadPool" in str(x.a[0]) and last(str(x.a[0])) in ("new", "with_name") for x in e.flat(pool))


def absent(ty, t, f):
    """The fact says that there was no pool before."""
    if f != frozenset([0]):
        return False
    if t.op in ("app", "world") and last(str(t.a[0])) == "contains_key":
        return True
    y = ty.of(t)
    # (a lock and what it protects are one term)
    return y is not None and "Option<" in repr(y) and "ThreadPool" in repr(y)


def workers(prog, ctx, name, b):
    """Every pool built by code the save can reach has one worker."""
    for x in prog.fns("dochy_fs"):
        for bi in x.reach:
            t = x.blocks[bi].t
            if t.k != "call" or t.callee is None or "hreadPool" not in t.callee.path and "threadpool" not in t.callee.path:
                continue
            n = last(t.callee.path)
            if n in ("new", "with_name", "num_threads", "set_num_threads") and t.callee.path.startswith("threadpool"):
                if not t.args:
                    continue
                a = t.args[-1]
                ctx.count("pool sizes")
                v = const_of(x, a)
                if v is None:
                    v = folded(prog, x, bi)
                if v is None:
                    ctx.undecide("%s: the number of workers is not a constant" % x.p)
                elif v != 1:
                    ctx.violation("workers:%s" % x.p, "the pool for background saves has %s workers: saves can overtake each other" % v, x.where(t.ln))
            elif n == "default" and t.callee.path.startswith("<threadpool"):
                ctx.violation("workers:%s" % x.p, "the pool for background saves has one worker per processor", x.where(t.ln))


def const_of(b, o):
    c = getattr(o, "c", None)
    if c is None:
        return None
    v = getattr(c, "v", None)
    return v if isinstance(v, int) else None


def folded(prog, b, bi):
    """The argument as the dataflow engine knows it."""
    try:
        e = absint.Engine(prog, Slice((), 6, ("dochy_fs",))).run(b)
    except Budget:
        return None
    vals = {ev.args[-1] for _, ev, _ in e.events() if ev.bb == bi and ev.fr is e.root and ev.args}
    if len(vals) == 1:
        v = vals.pop()
        if v.op == "const" and isinstance(v.a[-1], int):
            return v.a[-1]
        return "a variable number of"
    return None


def snapshot(ctx, e, ty, name, ev, c, root, root_adt):
    caps = [x for x in c.a[1:] if isinstance(x, absint.T)]
    objs = [x for x in caps if ty.adt(x) == root_adt or (root is not None and root in e.deps(x) and not only_id(x))]
    ctx.count("captured objects")
    if root is not None and not any(root in e.deps(x) for x in objs):
        ctx.violation("snapshot:%s" % name, "%s: the object that was passed is not handed over to the thread that saves it" % name, ev.where(), ev.stack())


def only_id(x):
    return x.op == "app" and last(str(x.a[0])) == "id"


def closure(prog, ctx, name, b):
    keep = reaching(prog, [b], lambda tg: tg.body is None and tg.callee.trait in absint.FN_TRAITS, ("call", "hof", "drop"))
    try:
        e = absint.Engine(prog, Slice(keep, 0, ("dochy_fs",))).run(b)
    except Budget as x:
        ctx.undecide("%s: %s" % (b.p, x))
        return
    ctx.analysed.append(b.p)
    cb = lambda ev: ev.kind == "callback"
    save = lambda ev: ev.kind == "local" and last(ev.path).startswith("save")
    for x, got in paths_count(e, cb):
        if x.kind == "return" and got - {1}:
            ctx.violation("callback:%s" % name, "%s: a path through the background save calls the callback %s" % (
                name, "not at all" if 0 in got else "more than once"), b.where())
    for x, got in paths_count(e, save):
        if x.kind == "return" and got - {1}:
            ctx.violation("saves:%s" % name, "%s: a path through the background work saves %s" % (
                name, "not at all" if 0 in got else "more than once"), b.where())
    for _, ev, _ in e.events():
        if not cb(ev):
            continue
        ctx.count("callback calls (site, state)")
        arg = ev.args[-1]
        arg = arg.a[2] if arg.op == "agg" and len(arg.a) == 3 else arg
        src = [t for t in e.deps(arg) if t.op in ("app", "world") and last(str(t.a[0])).startswith("save")]
        if not src:
            ctx.violation("outcome:%s" % name, "%s: the callback is not given the outcome of the save" % name, ev.where())
            continue
        if arg.op == "agg" and arg.a[0] == RESULT:
            f = ev.facts.get(src[0])
            if isinstance(f, frozenset) and len(f) == 1 and arg.a[1] not in f:
                ctx.violation("outcome:%s" % name, "%s: the callback is told %s although the save %s" % (
                    name, "success" if arg.a[1] == 0 else "failure", "failed" if 1 in f else "succeeded"), ev.where())


def vacant(prog, ctx):
    b = api.pub_fn(prog, "dochy_fs", "save_history_file_nb_if_vacant")
    req = lambda ev: (ev.kind == "local" and last(ev.path) == "save_history_file_nb") or ev.kind == "handover"
    try:
        e = absint.Engine(prog, Slice((), 0, ("dochy_fs",))).run(b)
    except Budget as x:
        ctx.undecide("%s: %s" % (b.p, x))
        return
    if not any(req(ev) for _, ev, _ in e.events()):
        ctx.undecide("%s: no request was found" % b.p)
        return
    ctx.analysed.append(b.p)
    for x, got in paths_count(e, req):
        if x.kind != "return":
            continue
        ctx.count("answers of the conditional save")
        f = x.state.facts.get(x.ret)
        ans = x.ret.a[-1] if x.ret.op == "const" else next(iter(f)) if isinstance(f, frozenset) and len(f) == 1 else None
        want = {int(ans)} if ans in (0, 1) else None
        if want is None:
            ctx.undecide("%s: the answer is not a constant" % b.p)
        elif got != want:
            ctx.violation("vacant:%s" % b.p, "the conditional save answers %s after %s request(s)" % (bool(ans), sorted(got)), b.where())
