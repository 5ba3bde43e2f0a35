"""Ordering of the steps of saves and loads, as a typestate over all paths.

Every save is followed from its entry point (and from the closures it hands to other threads)
through the functions that open or write files, compute the difference or store the state of a
history.  Along each path the analysis records: the difference has been computed successfully;
the file has been written successfully.  Opening the target requires the first, storing what
later saves build on requires the second, and nothing may be written to the target afterwards.
Loads store that state only where no failure can follow.
"""
import absint
from absint import subterms, show, RESULT, OPTION
from cg import CallGraph
from effects import classify
from inst import subst
from slicing import reaching, Slice
from terms import reach_after, find_adt, Typer
import api

TECHNIQUE = "typestate dataflow (must-happen-before) over the inlined control-flow graph of saves and loads"

FILE_SAVES = ("save_dochy_file", "save_dochy_file_nb")
HISTORY_SAVES = ("save_history_file", "save_history_file_nb", "save_history_file_nb_if_vacant")
LOADS = ("load_history_file", "load_history_file_data")


class Ln:
    def __init__(self, ln):
        self.ln = ln


def has(t, adt):
    return t.op == "agg" and any(x.op == "agg" and x.a[0] == adt for x in subterms(t))


def opens(path):
    c = classify(path)
    return c is not None and (c[0] == "create" and c[1] not in ("create_dir", "create_dir_all"))


def system_path(p):
    """join(.., "constant name")"""
    return p.op == "app" and p.a[0].endswith("join") and p.a[-1].op == "const"


def is_target(t):
    """A handle of a file opened for writing under a name that is not a constant."""
    return t.op == "world" and opens(t.a[0]) and not system_path(t.a[2])


class Steps(Slice):
    cap = 8
    partial = True
    max_nodes = 150000

    def __init__(self, prog, keep, state, diff):
        Slice.__init__(self, keep, 6, ("dochy_fs",))
        self.state = state
        self.diff = diff

    def keep(self, t):
        return (t.op == "world" and t.a[0].endswith("exists") and not system_path(t.a[2])) or self.flag(t)

    def flag(self, t):
        return t.op == "sym" or (t.op == "fld" and t.a[0].op == "sym")

    def call(self, eng, s, fr, bi, t, tg, args):
        if tg.callee.trait in absint.FN_TRAITS or tg.kind == "ctor":
            return None
        tag = None
        if tg.body is not None and tg.body.d == self.diff:
            tag = "diff"
        elif tg.kind == "ext" and opens(tg.path):
            return None
        else:
            dty = eng.prog.place_ty(fr.body, t.dst) if t.dst is not None else None
            if dty is not None:
                dty = subst(dty, fr.env)
            if dty is not None and dty.k == "adt" and dty.d == RESULT and not (tg.body is not None and self.inline(eng, fr, tg)) \
                    and tg.callee.trait not in ("core::ops::try_trait::Try", "core::ops::try_trait::FromResidual") \
                    and not tg.path.startswith("core::result"):
                if any(is_target(x) for a in args for x in eng.deps(eng.deep(s, a))):
                    tag = "written"
        if tag is None:
            return None
        s, res, e = eng.opaque_result(s, fr, bi, t, tg, "step", tg.path, args)
        if e is not None:
            e.extra = tag
        n = s.copy()
        s.facts[res] = frozenset([0])
        s.tags = s.tags | {tag}
        n.facts[res] = frozenset([1])
        return [(s, res, e), (n, res, e)]

    def on_write(self, eng, s, fr, loc, v, ln):
        if not eng.final:
            return
        d = eng.deep(s, v)
        if has(d, self.state) or self.slot(eng, s, loc):
            fr = fr or eng.cur_node.fr
            e = eng.event("store", "store", s, [d], [v], fr, eng.cur_node.bb, Ln(ln))
            if e is not None:
                eng.cur_events.append(e)

    def slot(self, eng, s, loc):
        """The place written holds the state (or nothing yet)."""
        old = eng.read(s, loc)
        if has(old, self.state):
            return True
        if old.op not in ("fld", "app", "sym", "world"):
            return False
        ty = Typer(eng).of(old)
        return ty is not None and ty.k == "adt" and (ty.d == self.state or (
            ty.d == OPTION and ty.a and ty.a[0].k == "adt" and ty.a[0].d == self.state))

    def want(self, eng, ev):
        return ev.kind in ("step", "store", "insert") or (ev.kind == "ext" and classify(ev.path) is not None)


def state_adt(prog):
    """The structure that relates the identity of an object (Weak<()>) to a file of the history."""
    for d, a in prog.adts.items():
        if d.startswith("dochy_fs") and len(a["v"]) == 1:
            f = [x["t"] for x in a["v"][0]["f"]]
            if any(t.k == "adt" and t.d.endswith("::Weak") for t in f) and \
                    any(t.k == "adt" and t.d.endswith("::FileNameProps") for t in f):
                return d
    return None


def asyncs(prog, b):
    """Closures this function hands to other threads."""
    cg = CallGraph(prog)
    pred = cg.reach([cg.inst(b)])
    out = []
    for k in pred:
        for e in cg.insts[k].edges:
            if e.kind == "async" and e.dst.body.kind == "closure" and e.dst.body.crate == "dochy_fs":
                if e.dst.body not in out:
                    out.append(e.dst.body)
    return out


def run(prog, ctx):
    ctx.rule("open: the target is opened for writing only after the difference was computed successfully on every path")
    ctx.rule("exists: without permission to overwrite, the target is opened only where it was found not to exist")
    ctx.rule("advance: the state later saves build on is stored only after the target was written successfully, and nothing is written to the target afterwards")
    ctx.rule("load: a load stores that state only where the load can no longer fail")
    state = state_adt(prog)
    if state is None:
        ctx.undecide("no structure relates an object's identity to a file name")
    root_adt = find_adt(prog, "RootObject", "dochy_core")
    diff = api.pub_fn(prog, "dochy_diff", "get_diff")
    done = set()
    for name in FILE_SAVES + HISTORY_SAVES + LOADS:
        b = api.pub_fn(prog, "dochy_fs", name)
        for r in [b] + asyncs(prog, b):
            if r.d not in done:
                done.add(r.d)
                analyse(prog, ctx, name, r, state, root_adt, diff)
    ctx.floor("target openings (site, state)", 2)
    ctx.floor("state updates (site, state)", 2)


def analyse(prog, ctx, name, b, state, root_adt, diff):
    def is_op(tg):
        if tg.kind == "ext":
            c = classify(tg.path)
            return c is not None and c[0] in ("create", "iowrite", "openopts", "modify")
        return tg.body is not None and tg.body.d == diff.d
    keep = reaching(prog, [b], is_op, ("call", "hof", "drop")) if name not in LOADS else \
        reaching(prog, [b], lambda tg: False)
    if b.d not in keep and name not in LOADS:
        return
    cl = Steps(prog, keep, state, diff.d)
    try:
        e = absint.Engine(prog, cl).run(b)
    except absint.Budget as x:
        ctx.undecide("%s: %s" % (b.p, x))
        return
    ctx.count("entry points")
    ctx.analysed.append(b.p)
    ty = Typer(e)
    load = name in LOADS
    n_open = 0
    for _, ev, _ in e.events():
        if ev.kind == "ext" and opens(ev.path) and not system_path(ev.args[0]):
            n_open += 1
            ctx.count("target openings (site, state)")
            if "diff" not in ev.tags:
                ctx.violation("open:%s:%s" % (name, ev.fr.body.p),
                              "%s: the target is opened for writing before the difference has been computed successfully" % name,
                              ev.where(), ev.stack())
            if name in FILE_SAVES:
                overwrite(ctx, cl, e, ev, name)
        elif ev.kind == "ext" and (classify(ev.path) or ("",))[0] == "openopts":
            ctx.undecide("%s: files are opened with options the analysis does not follow" % name)
    saved = saved_objects(e, b, ty, root_adt)

    def is_state(ev):
        if ev.kind == "store":
            return True
        if ev.kind == "insert" and len(ev.args) == 3:
            v = ev.args[2]
            return v.op == "agg" and any(x.id in saved for x in v.a[2:] if hasattr(x, "id"))
        return False
    sites = {}
    for _, ev, _ in e.events():
        if is_state(ev):
            ctx.count("state updates (site, state)")
            sites.setdefault((ev.fr.body.p, ev.kind), ev)
            if not load and "written" not in ev.tags:
                ctx.violation("advance:%s:%s" % (name, ev.fr.body.p),
                              "%s: the state later saves build on is updated before the file has been written" % name,
                              ev.where(), ev.stack())
    if sites and not load:
        _, after = reach_after(e, is_state)
        for x in after:
            if (x.kind == "step" and x.extra in ("written", "diff")) or (x.kind == "ext" and opens(x.path) and not system_path(x.args[0])):
                ctx.violation("late:%s:%s" % (name, x.fr.body.p),
                              "%s: %s happens after the state later saves build on has been updated" % (name, x.name),
                              x.where(), x.stack())
    if sites and load:
        ex, _ = reach_after(e, is_state)
        for x in ex:
            if x.kind == "return" and x.ret is not None and result_of(e, x) == 1:
                ctx.violation("load:%s" % name, "%s can fail after it has replaced the state later saves build on" % name,
                              b.where(), [ev.where() for ev in sites.values()])


def result_of(e, x):
    r = x.ret
    if r.op == "agg" and r.a[0] == RESULT:
        return r.a[1]
    f = x.state.facts.get(r)
    if isinstance(f, frozenset) and len(f) == 1:
        return next(iter(f))
    return None


def saved_objects(e, b, ty, root_adt):
    """Origins of the object being saved: arguments or captured variables of the object type."""
    out = set()
    mem = e.entry.state.mem
    for i in range(1, b.argc + 1):
        t = mem.get(("L", e.root.id, i))
        if t is None:
            continue
        if ty.adt(t) == root_adt:
            out.add(t.id)
    for _, ev, _ in e.events():
        for a in ev.args:
            for x in subterms(a):
                if x.op in ("sym", "fld") and ty.adt(x) == root_adt and base(x).op == "sym" and \
                        not any(y.op in ("app", "world") for y in subterms(x)):
                    out.add(x.id)
    return out


def base(t):
    while t.op in ("fld", "idx"):
        t = t.a[0]
    return t


def overwrite(ctx, cl, e, ev, name):
    ok = False
    for t, f in ev.facts.items():
        if f == frozenset([1]) and cl.flag(t):
            ok = True
        if f == frozenset([0]) and t.op == "world" and t.a[0].endswith("exists") and not system_path(t.a[2]):
            if t.a[2] is ev.args[0] or shares(e, t.a[2], ev.args[0]):
                ok = True
    if ok:
        return
    bad = [t for t, f in ev.facts.items() if t.op == "world" and t.a[0].endswith("exists") and not system_path(t.a[2])]
    ctx.violation("exists:%s:%s" % (name, ev.fr.body.p),
                  "%s: the target is opened for writing although overwriting may not be allowed and the target was not found missing%s"
                  % (name, "" if not bad else " (the test was of %s)" % show(bad[0].a[2], 4)), ev.where(), ev.stack())


def shares(e, p, q):
    """Both paths are built from the same file name."""
    syms = lambda t: {x for x in e.deps(t) if x.op == "sym"}
    last = lambda t: t.a[-1] if t.op == "app" else t
    return bool(syms(last(p)) & syms(last(q)))
