"""An archive is read back as it was written.

The values and bytes that the archive writer emits, and the values and bytes that the reader takes, are collected
as sequences with their loops.  Both sequences have to have the same kinds in the same order; the count has to be
the number of entries that are written, every length the length of the body of the same entry, and every body has
to reach the entry whose path and length it was written for, also where it passes through channels and threads.
"""
import absint
from absint import subterms, show, mk, const, OPTION, RESULT, Budget
from slicing import Slice
from terms import last
from check_base import Anchor
from c11 import strip, same, linear
from c25 import failing

TECHNIQUE = "agreement of archive writer and reader: token sequences with loops and provenance of paths, lengths and bodies, by dataflow over MIR"
LEVEL_NOTE = "The container's own number and string encoding is decided under C11 and C12; the compression library is taken as given."
CR = "dochy_archiver2"
WRITE = ("write_all",)
READ = ("read_exact", "read_to_end", "read")


class Inline(Slice):
    """Follows the crate, and runs what is handed to another thread at the place where it is handed over."""
    cap = 128
    max_nodes = 30000

    def __init__(self):
        super().__init__((), 300, (CR,))

    def inline(self, eng, fr, tg):
        b = tg.body
        if b is not None and b.kind == "fn" and b.argc and b.locals[1].strip_refs().k == "adt" and b.locals[1].strip_refs().d.startswith(CR) and len(b.reach) > 12:
            return False
        return super().inline(eng, fr, tg)

    def call(self, eng, s, fr, bi, t, tg, args):
        if tg.kind == "ext" and last(tg.path) in ("spawn", "spawn_fifo") and args and args[0].op == "clo":
            return ("invoke", args[0], [])
        return None


def kind_of_writer(prog, v):
    """Kind of a value that is emitted, and the term it stands for."""
    if v.op == "app" and isinstance(v.a[0], str) and v.a[0].startswith("dochy_compaction") and len(v.a) == 2:
        for b in prog.fns("dochy_compaction"):
            if b.kind == "fn" and b.p == v.a[0] and b.argc == 1:
                t = b.locals[1]
                return ("text" if t.k == "adt" and last(t.d) == "String" or "str" in repr(t) else "number"), v.a[1]
    if v.op == "agg" and last(v.a[0]) == "KVal" and len(v.a) == 3:
        n = prog.adts[v.a[0]]["v"][v.a[1]]["n"]
        return ("text" if "Str" in n else "number" if n in ("Int", "Byte", "Bit") else n), v.a[2]
    return None


def conversions(prog):
    """Functions that take a number or a text out of a value."""
    out = {}
    for b in prog.fns("dochy_compaction"):
        if b.kind == "fn" and b.argc == 1 and b.locals[1].k == "ref" and b.locals[1].t.k == "adt" and last(b.locals[1].t.d) == "KVal":
            r = b.locals[0]
            r = r.a[0] if r.k == "adt" and r.d == OPTION else r
            if repr(r) in ("i64", "f64", "f32", "u8"):
                out[b.p] = "number"
            elif r.k == "adt" and last(r.d) == "String":
                out[b.p] = "text"
    return out


def iterated(t):
    """(collection, whether in reverse) of an iterator."""
    rev = False
    while t.op == "app" and len(t.a) == 2:
        n = last(t.a[0])
        if n == "rev":
            rev = not rev
        elif n not in ("iter", "into_iter", "iter_mut", "copied", "cloned", "values", "into_values"):
            break
        t = t.a[1]
    return t, rev


def grown(e, ph):
    """Values pushed into a list, if it only grows by pushes: list of terms, or None."""
    out, seen, todo = [], set(), [ph]
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "phi":
            todo.extend(e.phi_in.get(x.id, ()))
        elif x.op == "app" and last(x.a[0]) == "push" and len(x.a) == 3:
            out.append(x.a[2])
            todo.append(x.a[1])
        elif x.op == "app" and last(x.a[0]) in ("new", "with_capacity", "vec_with_capacity_safe", "set_len") or x.op == "fld":
            pass
        else:
            return None
    return sorted(set(out), key=lambda t: t.id)


PART = ("skip", "take", "step_by", "filter", "skip_while", "take_while", "filter_map")


def partial(t):
    """The adaptor through which an iterator leaves out entries."""
    t, _ = iterated(t)
    return last(t.a[0]) if t.op == "app" and len(t.a) >= 2 and last(t.a[0]) in PART else None


def in_front(e, ph):
    """Whether a list is filled from the front."""
    return any(x.op == "app" and last(x.a[0]) == "insert" and len(x.a) == 4 and x.a[2].op == "const" and x.a[2].a[-1] == 0 for x in grown_from(e, ph))


def cyclic(e):
    """Sites that lie in a loop."""
    import sys
    sys.setrecursionlimit(100000)
    succ = {n: [b.num for _, b in outs if b is not None and not hasattr(b, "ret")] for n, outs in e.succ.items()}
    index, low, stack, on, comp = {}, {}, [], set(), {}
    n = 0
    for root in list(succ):
        if root in index:
            continue
        work = [(root, iter(succ.get(root, ())))]
        index[root] = low[root] = n
        n += 1
        stack.append(root)
        on.add(root)
        while work:
            v, it = work[-1]
            for w in it:
                if w not in index:
                    index[w] = low[w] = n
                    n += 1
                    stack.append(w)
                    on.add(w)
                    work.append((w, iter(succ.get(w, ()))))
                    break
                elif w in on:
                    low[v] = min(low[v], index[w])
            else:
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[v])
                if low[v] == index[v]:
                    while True:
                        w = stack.pop()
                        on.discard(w)
                        comp[w] = v
                        if w == v:
                            break
    out = set()
    for v, outs in e.succ.items():
        for evs, b in outs:
            if b is not None and not hasattr(b, "ret") and comp.get(b.num) == comp.get(v):
                out |= {site(x) for x in evs}
    return out


def skipped(e, loop, *at):
    """Whether a turn of a loop can come past its end without one of the calls."""
    at = {site(x) for x in at}
    todo = [b.num for outs in e.succ.values() for evs, b in outs if b is not None and not hasattr(b, "ret") and any(site(x) == site(loop) for x in evs)]
    seen = set(todo)
    ends = {(loop.fr, loop.bb)}
    while todo:
        for evs, b in e.succ.get(todo.pop(), ()):
            stop = False
            for x in evs:
                if site(x) in at:
                    stop = True
                    break
                if (x.kind in ("iter", "iter-end")) and (x.fr, x.bb) in ends:
                    return True
            if stop or b is None or hasattr(b, "ret") or b.num in seen:
                continue
            seen.add(b.num)
            todo.append(b.num)
    return False


def site(ev):
    return (ev.fr, ev.bb, ev.kind, ev.name)


def tour(e):
    """Events of one way from the entry to a successful exit that comes past as many call sites as it can; each site
    is listed where it is met first, and a loop is listed as entered and left once."""
    good = set()
    pred = {}
    succ = {}
    for n, outs in e.succ.items():
        succ[n] = []
        for evs, b in outs:
            if b is None or hasattr(b, "ret"):
                if b is not None and b.kind == "return" and not failing(b):
                    good.add(n)
                    succ[n].append((evs, None))
            else:
                succ[n].append((evs, b.num))
                pred.setdefault(b.num, []).append(n)
    ok, todo = set(good), list(good)
    while todo:
        for p in pred.get(todo.pop(), ()):
            if p not in ok:
                ok.add(p)
                todo.append(p)
    ahead = {n: set() for n in ok}
    change = True
    order = sorted(ok, reverse=True)
    while change:
        change = False
        for n in order:
            s = ahead[n]
            k = len(s)
            for evs, b in succ[n]:
                if b is None or b in ok:
                    s.update(site(x) for x in evs)
                    if b is not None:
                        s |= ahead[b]
            change = change or len(s) != k
    cur, seen, out = e.entry.num, set(), []
    if cur not in ok:
        return None
    for _ in range(2000):
        # the nearest new site, among those from which most new sites can still be reached
        todo, came, found = [cur], {cur: None}, []
        for n in todo:
            for evs, b in succ[n]:
                if b is not None and b not in ok:
                    continue
                new = {site(x) for x in evs} - seen
                if new:
                    found.append((len((new | (ahead[b] if b is not None else set())) - seen), -len(found), n, evs, b))
                elif b is not None and b not in came:
                    came[b] = (n, evs)
                    todo.append(b)
                elif b is None and not new:
                    found.append((0, -len(found), n, evs, b))
        if not found:
            return None
        _, _, n, evs, b = max(found, key=lambda x: x[:2])
        for x in evs:
            if site(x) not in seen:
                seen.add(site(x))
                out.append(x)
        if b is None:
            return out
        cur = b
    return None


def run(prog, ctx):
    ctx.rule("sequence: the reader takes the kinds of values that the writer emits, in the same order and loops")
    ctx.rule("count: the number that is written first is the number of entries that are written, and of those that are read")
    ctx.rule("entry: path, length and body that are written in one turn belong to the same entry")
    ctx.rule("bodies: the bodies are written and read in the order of the paths, with the length that was written for them")
    ctx.rule("pairing: a body is handed to the entry whose path was read in the turn in which its length was read")
    ctx.rule("compression: what is compressed by one side is decompressed by the other")
    ws = [b for b in prog.fns(CR) if b.kind == "fn" and b.eff and b.name == "write_archive"]
    rs = [b for b in prog.fns(CR) if b.kind == "fn" and b.eff and b.name == "read_archive"]
    if not ws or not rs:
        raise Anchor("the public functions that write and read an archive were not found")
    wt = rt = None
    ctx.packed, ctx.unpacked = set(), set()
    try:
        wt = writer(prog, ctx, ws[0])
    except (Budget, KeyError, IndexError, AttributeError, TypeError) as x:
        ctx.undecide("writer: %s %s" % (type(x).__name__, x))
    try:
        rt = reader(prog, ctx, rs[0])
    except (Budget, KeyError, IndexError, AttributeError, TypeError) as x:
        ctx.undecide("reader: %s %s" % (type(x).__name__, x))
    ctx.analysed.extend([ws[0].p, rs[0].p])
    if wt and rt:
        a, b = [x[:2] for x in wt], [x[:2] for x in rt]
        ctx.count("kinds compared", len(a))
        if a != b:
            f = lambda l: ", ".join(k + (" (for each file)" if d else "") for k, d in l)
            ctx.violation("sequence", "%s writes %s; %s reads %s" % (ws[0].p, f(a), rs[0].p, f(b)), rs[0].where())
    if len(ctx.packed) == 1 and ctx.unpacked:
        if ctx.packed != ctx.unpacked:
            ctx.violation("compression", "%s %s the bodies, but %s does not always take them as such" % (ws[0].p, "compresses" if True in ctx.packed else "does not compress", rs[0].p), rs[0].where())
        else:
            ctx.count("compression paired")
    elif len(ctx.packed) == 2:
        ctx.violation("compression", "%s compresses only some of the bodies" % ws[0].p, ws[0].where())
    ctx.floor("loops over entries", 1)


# ---- writer

def writer(prog, ctx, b):
    e = absint.Engine(prog, Inline()).run(b)
    seq = tour(e)
    if not seq:
        ctx.undecide("%s: no way through" % b.p)
        return None
    toks = []
    loops = []
    bodies = []
    after = False
    cyc = cyclic(e)
    for x in seq:
        if x.kind == "iter":
            loops.append(x)
            ctx.count("loops over entries")
            p = partial(x.args[0])
            if p:
                ctx.violation("count:left-out", "%s leaves out entries (%s)" % (b.p, p), x.where())
                return None
        elif x.kind == "iter-end":
            loops = [l for l in loops if l.args[0] is not x.args[0]]
        elif x.kind == "push" and len(x.args) > 1:
            k = kind_of_writer(prog, x.args[1])
            if k:
                toks.append((k[0], site(x) in cyc, strip(k[1]), x, loops[-1] if loops else None))
            elif loops:
                bodies.append((strip(x.args[1]), loops[-1], x))
            if loops and skipped(e, loops[-1], x):
                ctx.violation("entry:skipped", "%s can go on to the next entry without adding %s" % (b.p, show(x.args[1], 3)), x.where())
                return None
        elif x.kind == "local" and last(x.name).startswith("encode"):
            after = True
        elif x.kind == "ext" and last(x.name) in WRITE:
            if not after:
                ctx.violation("order:write", "%s writes a body before the list of paths and lengths" % b.p, x.where())
                return None
            emitted_body(ctx, e, b, x, loops[-1] if loops else None, toks, bodies)
    entry(ctx, e, b, toks)
    sent(ctx, e, b, seq)
    for x in seq:
        if x.kind == "ext" and last(x.name) in ("compress_vec", "compress"):
            ctx.count("compressions")
    return toks


def owner(t):
    """The item of a loop that a term is taken from."""
    es = {s for s in subterms(t) if s.op == "elem"}
    top = {s for s in es if not any(s is not o and s in set(subterms(o)) for o in es)}
    return top.pop() if len(top) == 1 else None


def entry(ctx, e, b, toks):
    """The count and, in the loop, path and length of the same entry."""
    head = [t for t in toks if not t[1]]
    loop = [t for t in toks if t[1]]
    if not loop:
        ctx.undecide("%s: the loop over the entries" % b.p)
        return
    if loop[0][4] is None:
        ctx.undecide("%s: the loop over the entries" % b.p)
        return
    coll, rev = iterated(loop[0][4].args[0])
    for t in head:
        if t[0] == "number":
            x = linear(t[2])
            base = [k for k in x if k is not None]
            if len(base) == 1 and base[0].op == "app" and last(base[0].a[0]) == "len":
                if not (same_coll(e, strip(base[0].a[1]), coll)):
                    ctx.violation("count:write", "%s writes the number of %s, but then the entries of %s" % (b.p, show(base[0].a[1], 3), show(coll, 3)), t[3].where())
                elif x.get(None, 0) or x[base[0]] != 1:
                    ctx.violation("count:write", "%s writes %s, not the number of entries" % (b.p, show(t[2], 4)), t[3].where())
                else:
                    ctx.count("counts")
    items = {owner(t[2]) for t in loop}
    if len(items) > 1:
        ctx.violation("entry:write", "%s writes path and length of different entries in one turn" % b.p, loop[0][3].where())
        return
    for t in loop:
        if t[0] == "number":
            x = linear(t[2])
            base = [k for k in x if k is not None]
            if len(base) == 1 and base[0].op == "app" and last(base[0].a[0]) != "len" and not base[0].a[0].startswith("dochy") and "::" not in base[0].a[0][:2] and len(base[0].a) == 2:
                ctx.violation("length:write", "%s writes %s as the length of a body" % (b.p, show(t[2], 4)), t[3].where())
            elif x.get(None, 0) or len(base) != 1 or x[base[0]] != 1:
                ctx.violation("length:write", "%s writes %s as the length of a body" % (b.p, show(t[2], 4)), t[3].where())
            else:
                ctx.count("lengths")


def same_coll(e, a, c):
    if a is c:
        return True
    return bool(grown_from(e, a) & grown_from(e, c))


def grown_from(e, t):
    """The stages of a collection that is filled in a loop."""
    out, todo = set(), [t]
    while todo:
        x = todo.pop()
        if x not in out and (x.op == "phi" or x.op == "app" and last(x.a[0]) in ("push", "insert")):
            out.add(x)
            todo.extend(e.phi_in.get(x.id, ()) if x.op == "phi" else [x.a[1]])
    return out or {t}


def emitted_body(ctx, e, b, x, loop, toks, bodies):
    """The bytes that are written after the list."""
    v = strip(x.args[1])
    lens = [t for t in toks if t[1] and t[0] == "number"]
    if loop is None or not lens:
        ctx.undecide("%s: which bodies are written" % b.p)
        return
    if v.op == "app" and last(v.a[0]) in ("index", "slice", "get_unchecked") and len(v.a) == 3 and loop.result in set(subterms(v)):
        ctx.violation("bodies:write", "%s writes a part of a body: %s" % (b.p, show(v, 4)), x.where())
        return
    if lens[0][4] is None:
        ctx.undecide("%s: which bodies are written" % b.p)
        return
    coll, rev = iterated(loop.args[0])
    first, rev0 = iterated(lens[0][4].args[0])
    base = [k for k in linear(lens[0][2]) if k is not None]
    measured = strip(base[0].a[1]) if len(base) == 1 and base[0].op == "app" and last(base[0].a[0]) == "len" else None
    if same_coll(e, coll, first):
        # the entries are gone through again
        if rev != rev0:
            ctx.violation("bodies:write", "%s writes the bodies in another order than their lengths" % b.p, x.where())
        elif measured is not None and not relative(v, loop.result) == relative(measured, lens[0][4].result):
            ctx.violation("bodies:write", "%s writes %s, but the length of %s" % (b.p, show(v, 4), show(measured, 4)), x.where())
        else:
            ctx.count("bodies written")
        return
    if in_front(e, coll) and not rev:
        ctx.violation("bodies:write", "%s writes the bodies in another order than their lengths" % b.p, x.where())
        return
    g = grown(e, coll)
    if g is None or len(g) != 1:
        ctx.undecide("%s: which bodies are written" % b.p)
        return
    if rev != rev0 and rev:
        ctx.violation("bodies:write", "%s writes the bodies in another order than their lengths" % b.p, x.where())
        return
    w = strip(g[0])
    if v is not loop.result and strip(v) is not loop.result:
        ctx.undecide("%s: which bodies are written" % b.p)
        return
    if measured is not None and w is not measured and relative(w, owner(w)) != relative(measured, owner(measured)):
        ctx.violation("bodies:write", "%s writes %s, but the length of %s" % (b.p, show(w, 4), show(measured, 4)), x.where())
        return
    ctx.count("bodies written")


def relative(t, item):
    """A term with the item of the loop taken out."""
    if t is item:
        return "item"
    if not isinstance(t, absint.T):
        return t
    return (t.op,) + tuple(relative(x, item) if isinstance(x, absint.T) else x for x in t.a)


def sent(ctx, e, b, seq):
    """Pairs that are sent from one thread to another belong to the same entry, and as many are awaited as are sent."""
    loops, chan, msgs = [], {}, {}
    for x in seq:
        if x.kind == "iter":
            loops.append(x)
        elif x.kind == "iter-end":
            loops = [l for l in loops if l.args[0] is not x.args[0]]
        elif x.kind == "ext" and last(x.name) == "send" and x.args and len(loops) == 1 and strip(x.args[0]).op == "fld":
            chan.setdefault(strip(x.args[0]).a[0], loops[0])
            msgs.setdefault(strip(x.args[0]).a[0], []).append(x)
        elif x.kind == "ext" and last(x.name) == "recv" and len(loops) == 1 and strip(x.args[0]).op == "fld" and strip(x.args[0]).a[0] in chan:
            s, r = chan[strip(x.args[0]).a[0]], loops[0].args[0]
            coll, _ = iterated(s.args[0])
            if r.op == "agg" and last(r.a[0]) == "Range" and len(r.a) == 4:
                n = mk("app", "bin:Sub", r.a[3], r.a[2])
                k = [y for y in linear(n) if y is not None]
                if len(k) == 1 and k[0].op == "app" and last(k[0].a[0]) == "len" and same_coll(e, strip(k[0].a[1]), coll):
                    if linear(n).get(None, 0):
                        ctx.violation("count:awaited", "%s waits for %s results" % (b.p, show(n, 4)), x.where())
                    else:
                        ctx.count("results awaited")
                    if skipped(e, s, *msgs[strip(x.args[0]).a[0]]):
                        ctx.violation("count:left-out", "%s can leave out an entry" % b.p, s.where())
    for x in seq:
        if x.kind == "ext" and last(x.name) == "send" and len(x.args) > 1:
            m = x.args[1]
            while m.op == "agg" and m.a[0] in (RESULT, OPTION) and len(m.a) == 3:
                m = m.a[2]
            if m.op == "agg" and len(m.a) > 3:
                os = {owner(p) for p in m.a[2:]} - {None}
                packed = {any(s.op == "app" and last(s.a[0]) in ("compress_vec", "compress") for s in subterms(p)) for p in m.a[2:]}
                ctx.packed.add(True in packed)
                if len(os) > 1:
                    ctx.violation("entry:sent", "%s sends parts of different entries together: %s" % (b.p, show(m, 4)), x.where())
                elif os:
                    ctx.count("pairs sent")


# ---- reader

def reader(prog, ctx, b):
    e = absint.Engine(prog, Inline()).run(b)
    conv = conversions(prog)
    seq = tour(e)
    if not seq:
        ctx.undecide("%s: no way through" % b.p)
        return None
    toks, loops = [], []
    cyc = cyclic(e)
    for x in seq:
        if x.kind == "iter":
            c, rev = iterated(x.args[0])
            if any(s.op == "app" and last(s.a[0]) == "decode" for s in subterms(c)) and not any(s.op == "app" and s.a[0] in conv for s in subterms(c)):
                if rev:
                    ctx.violation("sequence:reverse", "%s takes the values in reverse" % b.p, x.where())
                continue
            loops.append(x)
        elif x.kind == "iter-end":
            loops = [l for l in loops if l.args[0] is not x.args[0]]
        elif x.kind == "local" and x.target is not None and x.target.body is not None and x.target.body.p in conv and any(s.op == "elem" for s in subterms(x.args[0])):
            toks.append((conv[x.target.body.p], site(x) in cyc, x.result, x, loops[-1] if loops else None))
    if not toks:
        ctx.undecide("%s: how the values are taken" % b.p)
        return None
    # the count is the number of turns
    loop = [t for t in toks if t[1]]
    head = [t for t in toks if not t[1]]
    if loop and head and loop[0][4] is not None:
        r = loop[0][4].args[0]
        if r.op == "agg" and "Range" in last(r.a[0]) and len(r.a) >= 4:
            n = mk("fld", head[0][2], 1, 0)
            if not same(mk("app", "bin:Sub", r.a[3], r.a[2]), n) or "Inclusive" in last(r.a[0]):
                ctx.violation("count:read", "%s takes %s entries, but the number read is %s" % (b.p, show(r.a[3], 4), show(n, 4)), loop[0][4].where())
            else:
                ctx.count("counts")
        ctx.count("loops over entries")
    taken(ctx, e, b, seq, toks)
    return toks


def resolve(e, t):
    """A term read out of the element of a list, as what was pushed into the list: (term, element or None)."""
    t = strip(t)
    path = []
    x = t
    while x.op == "fld":
        path.append(x.a[1:])
        x = strip(x.a[0])
    if x.op != "elem":
        return t, None
    coll, rev = iterated(x.a[0])
    g = grown(e, coll)
    if g is None or len(g) != 1:
        return t, x
    v = g[0]
    for vi, i in reversed(path):
        v = strip(absint.sub(v, (vi, i)))
    return v, x


def taken(ctx, e, b, seq, toks):
    """Which body goes to which path."""
    texts = [t for t in toks if t[1] and t[0] == "text"]
    lens = [t for t in toks if t[1] and t[0] == "number"]
    loops = []
    sends, reads_ = [], []
    for x in seq:
        if x.kind == "iter":
            loops.append(x)
            if partial(x.args[0]):
                ctx.violation("count:left-out", "%s leaves out entries (%s)" % (b.p, partial(x.args[0])), x.where())
                return
        elif x.kind == "iter-end":
            loops = [l for l in loops if l.args[0] is not x.args[0]]
        elif x.kind == "ext" and last(x.name) in READ and loops:
            reads_.append((x, loops[-1]))
        elif x.kind == "ext" and last(x.name) == "send" and len(x.args) > 1:
            sends.append((x, loops[-1] if loops else None))
    lenv = {mk("fld", t[2], 1, 0) for t in lens}
    used = {}
    for x, l in reads_:
        buf = x.args[1] if len(x.args) > 1 else None
        if buf is None:
            continue
        size = length_of(e, x, buf)
        if size is None:
            ctx.undecide("%s: how much is read for a body" % b.p)
            continue
        v, el = resolve(e, size)
        if v.op == "app" and not any(v is y for y in lenv):
            ls = [resolve(e, k) + (k,) for k in linear(v) if k is not None]
            if len(ls) == 1:
                el = ls[0][1]
                v = swap(v, ls[0][2], ls[0][0])
        coll, rev = iterated(l.args[0])
        if rev != in_front(e, coll):
            ctx.violation("bodies:read", "%s reads the bodies in reverse order" % b.p, x.where())
            return
        base = {k: n for k, n in linear(v).items()}
        ks = [k for k in base if k is not None]
        if len(ks) == 1 and ks[0] in lenv:
            if base.get(None, 0) or base[ks[0]] != 1:
                ctx.violation("bodies:read", "%s reads %s bytes for a body, not the length that was read for it" % (b.p, show(v, 4)), x.where())
                return
            used[el] = x
            ctx.count("bodies read")
        elif definite(v):
            ctx.violation("bodies:read", "%s reads %s bytes for a body, not the length that was read for it" % (b.p, show(v, 4)), x.where())
            return
        else:
            ctx.undecide("%s: how much is read for a body: %s" % (b.p, show(v, 4)))
    # bodies that pass through a channel
    chan = {}
    for x, l in sends:
        m = x.args[1]
        while m.op == "agg" and m.a[0] in (RESULT, OPTION) and len(m.a) == 3:
            m = m.a[2]
        s, el = resolve(e, x.args[0])
        if el is None or m is x.args[1] or x.args[1].a[1] == 1:
            continue
        ctx.unpacked.add(any(s.op == "app" and last(s.a[0]) in ("decompress_vec", "decompress") for s in subterms(m)))
        if el is not None and used and el not in used:
            ctx.violation("pairing:send", "%s sends a body to another entry than the one whose length it has" % b.p, x.where())
            return
        if s.op == "fld" and s.a[0].op == "world":
            chan[s.a[0]] = (x, el)
            ctx.count("bodies handed over")
    for x in seq:
        if x.kind == "push" and len(x.args) > 1 and x.args[1].op == "agg" and len(x.args[1].a) >= 4:
            ps = x.args[1].a[2:]
            c = {s.a[0] for p in ps for s in [strip(p)] if s.op == "fld" and s.a[0].op == "world" and "channel" in str(s.a[0].a[0])}
            v = {s for p in ps for s in subterms(p) if s in lenv or any(s is mk("fld", t[2], 1, 0) for t in texts)}
            if c and v:
                chan.setdefault("pushed", []).append((x, c, v))
    pushed = chan.get("pushed", [])
    if len(pushed) == 2:
        (x1, c1, v1), (x2, c2, v2) = pushed
        if c1 != c2:
            ctx.violation("pairing:channel", "%s joins the path and the length of an entry with different channels" % b.p, x2.where())
        else:
            ctx.count("channels paired")
    # where path and body meet
    for x in seq:
        if (x.kind in ("insert", "push", "callback") or x.kind == "local" or last(x.name or "") == "send") and len(x.args) >= 2:
            parts = x.args if x.kind == "local" else x.args[1:]
            rc = set()
            tx = set()
            for p in parts:
                for s in subterms(p):
                    if s.op == "world" and "recv" in str(s.a[0]):
                        for u in subterms(s):
                            r, el = resolve(e, u) if u.op == "fld" else (None, None)
                            if r is not None and r.op == "fld" and r.a[0] in chan:
                                rc.add(el)
                    if s.op == "fld":
                        r, el = resolve(e, s)
                        if any(r is mk("fld", t[2], 1, 0) for t in texts):
                            tx.add(el)
            if rc and tx:
                if rc != tx:
                    ctx.violation("pairing:path", "%s joins a path with the body of another entry" % b.p, x.where())
                else:
                    ctx.count("paths joined with bodies")


def swap(t, old, new):
    if t is old:
        return new
    if not isinstance(t, absint.T):
        return t
    return mk(t.op, *[swap(x, old, new) if isinstance(x, absint.T) else x for x in t.a])


def length_of(e, x, buf):
    for s in [buf] + [y for y in subterms(buf)]:
        if s.op == "app" and last(s.a[0]) in ("set_len", "resize", "from_elem") and len(s.a) >= 3:
            return s.a[2]
        if s.op == "app" and last(s.a[0]) == "take" and len(s.a) >= 3:
            return s.a[2]
    return None


def definite(t):
    return not any(s.op == "phi" or s.op == "undef" for s in subterms(t))
