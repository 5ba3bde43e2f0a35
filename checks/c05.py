"""Every failing call's error reaches the caller.

Each function of the library is followed path by path (closures and standard combinators included,
other functions as opaque calls).  From every point where the result of a call, or an element
produced by an iterator, is known to be a failure, every reachable return must be a failure, or the
error must have been handed on (returned inside another value, given to a callback, stored in what
is returned).  A result that is never looked at, and the byte count of a partial read or write that
is never looked at, are failures nobody sees.
"""
import absint
from absint import mk, subterms, show, RESULT, OPTION, FALSE, Budget
from cg import CallGraph
from effects import classify
from slicing import Slice, reaching
from terms import last, Typer

TECHNIQUE = "error-flow dataflow: reachability of successful returns from points where a fallible call is known to have failed"


class Flow(Slice):
    cap = 24
    max_nodes = 12000

    def __init__(self):
        Slice.__init__(self, (), 0)

    def want(self, eng, ev):
        return True


class Io:
    """std::io::Error, as produced by iterators of the standard library."""
    k, d = "adt", "std::io::Error"


def error_of(ty, t):
    """Error type of this origin, when it is a fallible result."""
    e = error_ty(ty.of(t))
    if e is None and t.op == "elem" and ty.of(t) is None:
        it = ty.adt(t.a[0])
        if it is not None and last(it) in ("ReadDir", "Lines", "Bytes", "Split", "Incoming") and it.startswith("std::"):
            return Io
    return e


def error_ty(ty):
    """Error type of Result<_, E>, when E describes a failure."""
    if ty is None or ty.k != "adt" or ty.d != RESULT or len(ty.a) < 2:
        return None
    e = ty.a[1]
    while e.k == "ref":
        e = e.t
    if e.k == "adt":
        n = last(e.d)
        if "Err" in n or n in ("String", "Box") or n.endswith("Failure"):
            return e
        return None
    if e.k in ("str", "param", "dyn"):
        return e
    return None


OUTSIDE = ("list_", "remove_", "get_hash_times", "hash_dir_path", "peek")
FLUSH = ("flush", "into_inner", "into_parts", "finish", "sync_all", "sync_data")


def scope(prog):
    """Functions reachable from the public functions other than listing and removal, and the closures
    that run on other threads."""
    cg = CallGraph(prog)
    roots = [b for b in prog.fns() if b.kind == "fn" and b.eff and not b.name.startswith(OUTSIDE)]
    pred = cg.reach([cg.inst(b) for b in roots])
    bodies, threads = set(), set()
    for k in pred:
        bodies.add(k[0])
        for e in cg.insts[k].edges:
            if e.kind == "async" and e.dst.body.kind == "closure":
                threads.add(e.dst.body.d)
    return bodies, threads


def run(prog, ctx):
    ctx.rule("swallow: from a point where a fallible result is known to be a failure, no successful return is reachable unless the error has been handed on")
    ctx.rule("ignored: the result of a fallible call is looked at")
    ctx.rule("adapter: no iterator adapter drops failed elements")
    ctx.rule("partial: the byte count of read()/write() is looked at")
    ctx.rule("buffered: a buffered writer is flushed before a successful return, so that its last write can fail visibly")
    ctx.assume("A channel send that fails means the other end is gone, whose failure is reported by the side that waits for it; "
               "a failed number or name conversion without file access may be reported as None, a failed setter as false.")
    bodies, threads = scope(prog)
    io = reaching(prog, prog.fns(), lambda tg: tg.kind == "ext" and (classify(tg.path) is not None or "::io::" in tg.path or "::fs::" in tg.path))
    for b in prog.fns():
        if b.d in bodies and (b.kind != "closure" or b.d in threads):
            analyse(prog, ctx, b, io)
        if b.d in bodies:
            ignored(prog, ctx, b)
            adapters(prog, ctx, b)
    ctx.floor("functions", 500)
    ctx.floor("failure points", 300)
    ctx.floor("fallible calls", 500)


def ignored(prog, ctx, b):
    used = set()
    for bi in b.reach:
        bl = b.blocks[bi]
        for st in bl.s:
            if st.rv is not None:
                used.update(o.pl.l for o in st.rv.a if o.pl is not None)
                if st.rv.pl is not None:
                    used.add(st.rv.pl.l)
        t = bl.t
        if t.k == "call" and t.callee is not None and t.callee.path in ("core::mem::drop", "core::mem::forget", "std::mem::drop"):
            continue
        used.update(o.pl.l for o in ([t.on, t.f, t.cond] + list(t.args or ())) if o is not None and o.pl is not None)
    for bi in b.reach:
        t = b.blocks[bi].t
        if t.k != "call" or t.dst is None or t.dst.proj or t.to is None:
            continue
        e = error_ty(prog.place_ty(b, t.dst))
        if e is None or exempt(e):
            continue
        ctx.count("fallible calls")
        if t.dst.l not in used and t.dst.l != 0:
            ctx.violation("ignored:%s:%s" % (b.p, last(t.callee.path) if t.callee else "?"),
                          "the result of %s is never looked at" % (t.callee.path if t.callee else "a call"), b.where(t.ln))


def adapters(prog, ctx, b):
    """Iterator adapters that drop failed elements."""
    for bi in b.reach:
        t = b.blocks[bi].t
        if t.k != "call" or t.callee is None:
            continue
        n = last(t.callee.path)
        bad = False
        if n == "flatten" and t.callee.args and item_fails(prog, t.callee.args[0]):
            bad = True
        elif n in ("map_while", "filter_map", "flat_map", "take_while", "filter"):
            for a in t.callee.args:
                if a is not None and a.k in ("fndef", "fn") and a.d and a.d.rsplit("::", 1)[-1] in ("ok", "is_ok") and "esult" in a.d:
                    bad = True
        if bad:
            ctx.violation("adapter:%s:%s" % (b.p, n), "%s() drops the elements that are failures" % n, b.where(t.ln))


def item_fails(prog, ty):
    while ty is not None and ty.k == "ref":
        ty = ty.t
    if ty is None or ty.k != "adt":
        return False
    n = last(ty.d)
    if n in ("ReadDir", "Lines", "Bytes", "Split", "Incoming") and ty.d.startswith("std::"):
        return not (n in ("Lines", "Bytes", "Split") and "::str::" in ty.d)
    if n == "Map" and len(ty.a) == 2 and ty.a[1].k == "closure":
        c = prog.bodies.get(ty.a[1].d)
        return c is not None and error_ty(c.locals[0]) is not None
    if n in ("IntoIter", "Drain") and ty.a:
        return error_ty(ty.a[0]) is not None
    if n in ("Enumerate", "Skip", "Take", "Rev", "Filter", "Inspect", "Peekable", "Fuse") and ty.a:
        return item_fails(prog, ty.a[0])
    return False


def exempt(e):
    return e.k == "adt" and last(e.d) in ("SendError", "RecvError", "PoisonError", "TryRecvError", "TrySendError")


def analyse(prog, ctx, b, io):
    eng = absint.Engine(prog, Flow())
    try:
        eng.run(b)
    except Budget as x:
        ctx.undecide("%s: %s" % (b.p, x))
        return
    ctx.count("functions")
    ty = Typer(eng)
    ret = b.locals[0]
    classifier = ret.k == "adt" and ret.d == OPTION     # "not a name of that form" is an answer, not a failure
    failed = {}
    for a, evs, n in eng.edges:
        if n is None or hasattr(n, "ret"):
            continue
        for t, f in n.state.facts.items():
            if t.op == "world" and (classify(t.a[0]) or ("",))[0] == "delete":
                continue
            if f == FAIL and a.state.facts.get(t) != f:
                e = error_of(ty, t)
                if e is not None and not exempt(e):
                    failed.setdefault(t, set()).add(n.num)
    for t, nodes in failed.items():
        ctx.count("failure points")
        exits, events = reach(eng, nodes)
        if classifier and last(error_of(ty, t).d or "").startswith("Parse"):
            continue
        pure = t.op == "app" and not touches_io(prog, eng, t, io)
        bad = [x for x in exits if x.kind == "return" and not reported(eng, x, pure) and not depends(eng, x.ret, t)]
        if not bad or any(depends(eng, a, t) for e in events if not harmless(e) for a in e.args):
            continue
        ctx.violation("swallow:%s:%s" % (b.p, name(t)),
                      "the failure of %s is not reported: the function can still return %s"
                      % (show(t, 3)[:100], show(bad[0].ret, 3)[:80]), b.where(), [x.where() for x in calls_of(eng, t)][:1])
    for _, ev, _ in eng.events():
        if ev.kind == "ext" and ev.result is not None and partial(ev):
            ctx.count("partial reads and writes")
            cnt = mk("fld", ev.result, 0, 0)
            if not looked_at(eng, cnt):
                ctx.violation("partial:%s:%s" % (b.p, ev.name), "%s may transfer fewer bytes than asked for and the count is not looked at" % ev.path, ev.where())
    buffered(ctx, eng, b)


FAIL = frozenset([1])


def calls_of(eng, t):
    return [ev for _, ev, _ in eng.events() if ev.result is t]


def partial(ev):
    return last(ev.path) in ("read", "write", "read_vectored", "write_vectored") and \
        ("io::" in ev.path) and error_io(ev)


def error_io(ev):
    return True


def looked_at(eng, cnt):
    for _, ev, _ in eng.events():
        if any(cnt in subterms(a) for a in ev.args):
            return True
        if any(cnt in subterms(f) for f in ev.facts):
            return True
    for x in eng.exits:
        if x.ret is not None and cnt in eng.deps(x.ret):
            return True
        if any(cnt in subterms(f) for f in x.state.facts):
            return True
    for a, _, _ in eng.edges:
        if any(cnt in subterms(f) for f in a.state.facts):
            return True
    return any(cnt in subterms(x) for v in eng.phi_in.values() for x in v)


def buffered(ctx, eng, b):
    new = lambda ev: ev.kind in ("ext", "world") and ("BufWriter" in ev.path or "LineWriter" in ev.path) and last(ev.path) in ("new", "with_capacity")
    if not any(new(ev) for _, ev, _ in eng.events()):
        return
    ctx.count("buffered writers")
    start = set()
    for a, evs, n in eng.edges:
        if any(new(e) for e in evs) and n is not None and not hasattr(n, "ret"):
            start.add(n.num)
    seen, st = set(start), list(start)
    while st:
        n = st.pop()
        for evs, x in eng.succ.get(n, ()):
            if any(last(e.path) in FLUSH for e in evs) or x is None:
                continue
            if hasattr(x, "ret"):
                if x.kind == "return" and not reported(eng, x, False) and not any(
                        t.op == "world" and "BufWriter" in t.a[0] or t.op == "app" and "BufWriter" in str(t.a[0]) for t in (eng.deps(x.ret) if x.ret is not None else ())):
                    ctx.violation("buffered:%s" % b.p, "a buffered writer is dropped without being flushed: the failure of its last write is lost", b.where())
                    return
            elif x.num not in seen:
                seen.add(x.num); st.append(x.num)


def touches_io(prog, eng, t, io):
    ids = [ev.target.body.d for ev in calls_of(eng, t) if ev.target is not None and ev.target.body is not None]
    return any(d in io for d in ids)


def name(t):
    return last(t.a[0]) if isinstance(t.a[0], str) else t.op


def reach(eng, nodes):
    seen = set(nodes); st = list(nodes); exits = []; events = []
    while st:
        n = st.pop()
        for evs, b in eng.succ.get(n, ()):
            events.extend(evs)
            if b is None:
                continue
            if hasattr(b, "ret"):
                exits.append(b)
            elif b.num not in seen:
                seen.add(b.num); st.append(b.num)
    return exits, events


def reported(eng, x, pure):
    r = x.ret
    if r is None:
        return False
    if r is FALSE or (pure and r.op == "agg" and r.a[0] == OPTION and r.a[1] == 0):
        return True
    if r.op == "agg":
        return r.a[0] == RESULT and r.a[1] == 1
    if r.op == "phi":
        return any(y.op == "agg" and y.a[0] == RESULT and y.a[1] == 1 for y in eng.flat(r))
    return x.state.facts.get(r) == frozenset([1])


def depends(eng, r, t):
    """r is built from the failure t (other than from the value of its success)."""
    seen, st = set(), [r]
    while st:
        x = st.pop()
        if x is None or x.id in seen:
            continue
        seen.add(x.id)
        if x is t:
            return True
        if x.op == "fld" and x.a[0] is t and x.a[1] == 0:
            continue
        if x.op == "phi":
            st.extend(eng.phi_in.get(x.id, ()))
        st.extend(y for y in x.a if isinstance(y, absint.T))
    return False


def harmless(e):
    p = e.path or ""
    return "fmt" in p or "print" in p or "drop" in p
