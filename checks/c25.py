"""A history file is loaded by applying its whole chain, oldest first, each file once.

Three parts are followed through the compiled code.  The enumeration of the ancestors: every file
that is looked up is either found and listed, or the enumeration fails.  The list: it reaches the
functions that apply it oldest first and complete.  The application: every listed file is applied
once, in the order of the list, also when the files are prepared by other threads and arrive in
any order; an object taken from the cache stands for exactly the files it skips.
"""
import absint
from absint import subterms, show, mk, RESULT, OPTION, Budget
from cg import is_async
from slicing import reaching, Slice
from terms import Typer, find_adt, last, shell
from check_base import Anchor
from c19 import has_adt

TECHNIQUE = "order and completeness dataflow over MIR: counts of applications per list element on all paths, orientation of lists, pairing of keys and messages across the channel"


def is_list(t, of):
    """A Vec, slice or array of what `of` accepts, possibly behind references."""
    t = shell(t)
    if t is None:
        return False
    if t.k in ("slice", "array"):
        return of(t.t)
    return t.k == "adt" and last(t.d) in ("Vec", "VecDeque") and bool(t.a) and of(t.a[0])


def is_adt(t, name):
    t = shell(t)
    return t is not None and t.k == "adt" and last(t.d) == name


def path_list(t):
    return is_list(t, lambda x: is_adt(x, "PathBuf") or is_adt(x, "Path"))


def props_list(t):
    return is_list(t, lambda x: is_adt(x, "FileNameProps"))


def between(eng, start, stop, preds):
    """Walks from every start event to the next stop event or exit.  Returns tuples
    (start event, stop event or exit, counts) with the number (0, 1, 2 = more) of events per predicate."""
    zero = (0,) * len(preds)
    val = {}
    out = {}
    work = [eng.entry.num]
    seen = {eng.entry.num}
    while work:
        n = work.pop()
        for evs, b in eng.succ.get(n, ()):
            act = set(val.get(n, ()))
            for e in evs:
                if act and stop(e):
                    for st, c in act:
                        out[id(st), id(e), c] = (st, e, c)
                    act = set()
                if start(e):
                    act.add((e, zero))
                elif act:
                    k = tuple(1 if p(e) else 0 for p in preds)
                    if any(k):
                        act = {(st, tuple(min(2, x + y) for x, y in zip(c, k))) for st, c in act}
            if b is None:
                continue
            if hasattr(b, "ret"):
                for st, c in act:
                    out[id(st), id(b), c] = (st, b, c)
                continue
            v = val.setdefault(b.num, set())
            if not act <= v or b.num not in seen:
                v |= act
                seen.add(b.num)
                work.append(b.num)
    return list(out.values())


def good(x):
    """A successful return (definitely not an error)."""
    if not hasattr(x, "ret") or x.kind != "return" or x.ret is None:
        return False
    r = x.ret
    if r.op == "agg" and r.a[0] in (RESULT, OPTION):
        return r.a[1] == (0 if r.a[0] == RESULT else 1)
    return r.op == "agg"


def failing(x):
    if not hasattr(x, "ret"):
        return False
    r = x.ret
    if x.kind != "return" or r is None:
        return True
    if r.op == "agg" and r.a[0] == RESULT:
        return r.a[1] == 1
    f = x.state.facts.get(r)
    return isinstance(f, frozenset) and f == frozenset([1])


class Chain(Slice):
    cap = 64
    max_nodes = 60000
    partial = "all"

    def __init__(self, keep, small, opaque=()):
        Slice.__init__(self, keep, small, ("dochy_fs",))
        self.opaque_ids = opaque

    def inline(self, eng, fr, tg):
        return tg.body is not None and tg.body.d not in self.opaque_ids and Slice.inline(self, eng, fr, tg)

    def call(self, eng, s, fr, bi, t, tg, args):
        if tg.kind == "ext" and is_async(tg.path):
            for a in args:
                c = eng.callable(s, a)
                if c is not None:
                    return ("invoke", c, [])
        return None

    def on_write(self, eng, s, fr, loc, v, ln):
        """Stepping a counter is an event of its own."""
        if eng.final and eng.cur_events is not None and v.op == "app" and v.a[0] in ("bin:Add", "bin:AddUnchecked") and fr is not None:
            e = absint.Event()
            e.kind = "step"; e.path = e.name = "step"; e.args = [v]; e.raw = [loc]; e.facts = dict(s.facts); e.fr = fr; e.bb = -1
            e.ln = ln or fr.body.line; e.result = None; e.target = None; e.extra = None; e.tags = s.tags
            eng.cur_events.append(e)


def engine(prog, ctx, b, keep, small, opaque=()):
    try:
        e = absint.Engine(prog, Chain(keep, small, opaque)).run(b)
    except Budget as x:
        ctx.undecide("%s: %s" % (b.p, x))
        return None
    ctx.analysed.append(b.p)
    return e


def run(prog, ctx):
    ctx.rule("missing: a file that is looked up and not found makes the enumeration fail")
    ctx.rule("listed: a file that is found is listed once before the next one is looked up")
    ctx.rule("steps: the earlier files of a cumulative phase are looked up from the one before down to the first, a parent under the name without its last number")
    ctx.rule("exact: looking up a file gives the one filed under the very numbers asked for, or nothing")
    ctx.rule("control: an ancestor is looked up under the control number a file records for it, not under its own")
    ctx.rule("recorded: a new file records the control number of the file its ancestor will be looked up as")
    ctx.rule("oldest first: the list handed to the functions that apply it is complete and oldest first")
    ctx.rule("once: every listed file is applied once, in the order of the list; files that arrive from other threads are applied by their position")
    ctx.rule("cache: an object taken from the cache comes with the rest of the list after the file it belongs to")
    root = find_adt(prog, "RootObject", "dochy_core")
    fs = [b for b in prog.fns("dochy_fs")]
    lookups = {b.d for b in fs if b.kind == "fn" and b.argc >= 3 and is_adt(b.locals[0], "Option") and has_props(b.locals[0]) and
               any(is_adt(b.locals[i], "FileHistory") for i in range(1, b.argc + 1))}
    if not lookups:
        raise Anchor("the function that looks up a file of the history was not found")
    is_lookup = lambda tg: tg.body is not None and tg.body.d in lookups
    entry = [b for b in fs if b.kind == "fn" and b.eff and b.name in ("load_history_file", "save_history_file")]
    if not entry:
        raise Anchor("load_history_file was not found")
    keep = reaching(prog, fs, is_lookup)
    users = [b for b in fs if b.kind == "fn" and b.d in keep]
    exact(prog, ctx, fs, lookups)
    own = own_number(prog, ctx, fs)
    enumerate_(prog, ctx, users, keep, lookups, own)
    recorded(prog, ctx, fs, own)
    listed(prog, ctx, users, keep, lookups)
    apply_(prog, ctx, fs, root)
    ctx.floor("lookups of ancestors (site, state)", 2)
    ctx.floor("lists handed over (site, state)", 2)
    ctx.floor("applications (site, state)", 2)


NEAR = ("range", "next_back", "last", "last_key_value", "first_key_value", "lower_bound", "upper_bound", "nth", "max_by_key", "min_by_key", "max", "min")


def exact(prog, ctx, fs, lookups):
    """Looking up gives the file filed under the very numbers asked for."""
    by = {b.d: b for b in fs}
    todo, seen = [by[d] for d in lookups], {}
    while todo:
        b = todo.pop()
        if b.d in seen:
            continue
        seen[b.d] = b
        todo += [c for c in fs if c.kind == "closure" and c.d.startswith(b.d + "::")]
        for bi in b.reach:
            t = b.blocks[bi].t
            if t.k == "call" and t.callee is not None and t.callee.id in by and has_props(by[t.callee.id].locals[0]):
                todo.append(by[t.callee.id])
    for b in seen.values():
        ctx.count("functions that look up files")
        for bi in b.reach:
            t = b.blocks[bi].t
            if t.k != "call" or t.callee is None or not t.args or t.callee.name not in NEAR:
                continue
            ty = prog.op_ty(b, t.args[0])
            if ty is not None and any(x.k == "adt" and last(x.d) == "FileNameProps" or x.k == "adt" and "Map" in last(x.d) for x in ty.walk()):
                ctx.violation("exact:%s:%s" % (b.p, t.callee.name), "%s can give another file than the one asked for (%s)" % (b.p, t.callee.name), b.where(t.ln))


def has_props(t):
    return any(x.k == "adt" and last(x.d) == "FileNameProps" for x in t.walk())


# ---- the enumeration -----------------------------------------------------
def enumerate_(prog, ctx, users, keep, lookups, own):
    """Functions that list files of the history they look up."""
    for b in users:
        if not any(props_list(x) for x in b.locals[0].walk()):
            continue
        if not any(is_adt(b.locals[i], "FileNameProps") for i in range(1, b.argc + 1)):
            continue
        e = engine(prog, ctx, b, keep, 8, lookups)
        if e is None:
            continue
        ctx.count("enumerations")
        look = lambda ev: ev.kind == "local" and ev.target is not None and ev.target.body is not None and ev.target.body.d in lookups
        evs = [ev for _, ev, _ in e.events() if look(ev)]
        if not evs:
            ctx.undecide("%s: no lookup was followed" % b.p)
            continue
        for ev in evs:
            ctx.count("lookups of ancestors (site, state)")
            step(ctx, e, b, ev)
            for a in ev.args[1:]:
                if a.op == "fld" and own is not None and a.a[1:] == own and is_adt(Typer(e).of(a.a[0]), "FileNameProps"):
                    ctx.violation("control:%s:%s" % (b.p, ev.fr.body.p), "an ancestor is looked up under the control number of the file itself, not under the one it records for its ancestor",
                                  ev.where(), ev.stack())
        missing(ctx, e, b, look)
        found(ctx, e, b, look)


def own_number(prog, ctx, fs):
    """The part of a file name under which the history files it."""
    for b in fs:
        if b.kind == "fn" and b.argc == 2 and is_adt(b.locals[1], "FileHistory") and b.locals[1].k == "ref" and b.locals[1].m and is_adt(b.locals[2], "FileNameProps"):
            e = engine(prog, ctx, b, set(), 12)
            if e is None:
                continue
            p = e.entry.state.mem.get(("L", e.root.id, 2))
            me = e.entry.state.mem.get(("L", e.root.id, 1))
            me = e.contents(e.entry.state, me) if me is not None else None
            for _, ev, _ in e.events():
                if ev.kind == "insert" and ev.args[1].op == "fld" and ev.args[1].a[0] is p and ev.args[0].op == "fld" and ev.args[0].a[0] is me:
                    return ev.args[1].a[1:]
    return None


def recorded(prog, ctx, fs, own):
    """The control number a new file records for its ancestor is the one of the file it will be looked up as."""
    for b in fs:
        if b.kind != "fn" or own is None or not any(props_list(b.locals[i]) for i in range(1, b.argc + 1)) or not has_props(b.locals[0]):
            continue
        if not any(is_adt(x, "FileNameProps") and x.k == "adt" for x in b.locals[0].walk()):
            continue
        e = engine(prog, ctx, b, set(), 12)
        if e is None:
            continue
        flags = [e.entry.state.mem.get(("L", e.root.id, i)) for i in range(1, b.argc + 1) if repr(b.locals[i]) == "bool"]
        for x in e.exits:
            if not good(x):
                continue
            for p in subterms(x.ret):
                if p.op != "agg" or last(p.a[0]) != "FileNameProps":
                    continue
                f = p.a[2:]
                order = [o for o in f if o.op == "app" and o.a[0] == "push" or o.op == "upd"]
                if len(order) != 1:
                    continue
                o = order[0]
                base = o.a[1] if o.op == "app" else o.a[0]
                if base.op != "fld":
                    continue
                last_file = base.a[0]
                nums = [v for i, v in enumerate(f) if v.op == "fld" and v.a[0] is last_file and v is not base and v.a[2] != base.a[2]]
                if len(nums) != 1:
                    continue
                ctx.count("recorded ancestors")
                mine = nums[0].a[1:] == own
                if o.op == "app":
                    if not mine:
                        ctx.violation("recorded:%s:child" % b.p, "%s: the child of a file records the control number of that file's ancestor" % b.p, b.where())
                    continue
                if len(flags) != 1:
                    continue
                v = x.state.facts.get(flags[0])
                if v == frozenset([1]) and not mine or v == frozenset([0]) and mine:
                    ctx.violation("recorded:%s:%s" % (b.p, "cumulative" if not mine else "sibling"),
                                  "%s: a file that follows another in its phase records the control number of %s, under which %s will not be found" %
                                  (b.p, "that file" if mine else "that file's ancestor", "its parent" if mine else "the file before it"), b.where())


def missing(ctx, e, b, look):
    """Not found: only failing exits may be reached."""
    at = {}                                     # node -> lookups whose absence may have been passed over
    paths = {}
    for _, ev, _ in e.events():
        if look(ev) and ev.result is not None:
            paths[ev.result] = ev
    for n, evs, t in e.edges:
        if t is None:
            continue
        st = t.state if hasattr(t, "state") else None
        for src in (getattr(evs, "facts", None), st.facts if st is not None else None):
            for k, v in (src or {}).items():
                if k in paths and v == frozenset([0]):
                    at.setdefault(id(t), (t, set()))[1].add(k)
    for t, ks in at.values():
        for x in exits_from(e, t):
            if good(x):
                for k in ks:
                    ev = paths[k]
                    ctx.violation("missing:%s:%s" % (b.p, ev.fr.body.p),
                                  "%s goes on and succeeds although a file it looked up does not exist" % b.p, ev.where(), ev.stack())


def exits_from(e, t):
    if hasattr(t, "ret"):
        return [t]
    out, st, seen = [], [t.num], {t.num}
    while st:
        n = st.pop()
        for _, b in e.succ.get(n, ()):
            if b is None:
                continue
            if hasattr(b, "ret"):
                out.append(b)
            elif b.num not in seen:
                seen.add(b.num); st.append(b.num)
    return out


def found(ctx, e, b, look):
    """From a lookup to the next one or a successful return, the file found is listed once."""
    for res in {ev.result for _, ev, _ in e.events() if look(ev)}:
        if res is None:
            continue
        val = absint.sub(res, (1, 0))
        puts = lambda ev: ev.kind in ("push", "insert") and any(val is x for x in ev.args[1:])
        for st, x, c in between(e, lambda ev: look(ev) and ev.result is res, look, [puts]):
            end_ok = good(x) or not hasattr(x, "ret")
            if not end_ok or c[0] == 1:
                continue
            gone = getattr(x, "facts", None) or (x.state.facts if hasattr(x, "ret") else {})
            if gone.get(res) == frozenset([0]):
                continue
            w = "twice" if c[0] == 2 else "without listing it"
            ctx.violation("listed:%s:%s" % (b.p, st.fr.body.p), "%s: a file found by a lookup is passed on %s" % (b.p, w), st.where(), st.stack())


def linear(t, env):
    """t as {origin: coefficient} with key None for the constant; None if it is not linear."""
    if t in env:
        return {env[t]: 1}
    if t.op == "const":
        try:
            return {None: int(t.a[1])}
        except (TypeError, ValueError):
            return None
    if t.op == "app" and t.a[0].startswith("cast:") and len(t.a) == 2:
        return linear(t.a[1], env)
    if t.op == "app" and len(t.a) == 3 and (t.a[0] in ("bin:Sub", "bin:Add", "bin:AddUnchecked", "bin:SubUnchecked") or
                                            last(t.a[0]) in ("saturating_sub", "wrapping_sub", "saturating_add", "wrapping_add")):
        x, y = linear(t.a[1], env), linear(t.a[2], env)
        if x is None or y is None:
            return None
        sg = -1 if "ub" in last(t.a[0]) else 1
        r = dict(x)
        for k, v in y.items():
            r[k] = r.get(k, 0) + sg * v
        return {k: v for k, v in r.items() if v or k is None}
    return {t: 1}


def lsub(a, b):
    r = dict(a)
    for k, v in b.items():
        r[k] = r.get(k, 0) - v
    return {k: v for k, v in r.items() if v}


def step(ctx, e, b, ev):
    """The name under which a file is looked up."""
    for k in ev.args:
        if k.op == "app" and k.a[0] == "push":
            if sibling(ctx, e, b, ev, k):
                return
        if k.op == "app" and k.a[0] == "slice" and k.a[2].op == "agg" and last(k.a[2].a[0]).startswith("Range"):
            r = k.a[2]
            ends = r.a[2:]
            ln = mk("app", "len", k.a[1])
            if last(r.a[0]) == "Range" and len(ends) == 2:
                lo, hi = linear(ends[0], {}), linear(ends[1], {})
                if lo is None or hi is None:
                    continue
                ctx.count("parents")
                if lsub(lo, {}) or lsub(hi, {ln: 1, None: -1}):
                    ctx.violation("steps:%s:%s" % (b.p, ev.fr.body.p), "the parent is looked up under %s, which is not the name without its last number" % show(k, 5),
                                  ev.where(), ev.stack())
                return
            if last(r.a[0]) == "RangeTo":
                hi = linear(ends[0], {})
                if hi is not None and lsub(hi, {ln: 1, None: -1}):
                    ctx.violation("steps:%s:%s" % (b.p, ev.fr.body.p), "the parent is looked up under %s, which is not the name without its last number" % show(k, 5),
                                  ev.where(), ev.stack())
                return


def sibling(ctx, e, b, ev, k):
    """base + [number]: the numbers run from the one before down to zero."""
    num = k.a[2]
    el = [x for x in subterms(num) if x.op == "elem"]
    lasts = [x for x in subterms(num) if x.op == "app" and x.a[0] == "idx" and len(x.a) > 2 and str(x.a[2]) in ("last", "'last'")]
    if len(el) != 1:
        return False
    el = el[0]
    it = el.a[0]
    rev = 0
    while it.op == "app" and it.a[0] in ("rev", "iter") and len(it.a) == 2:
        rev ^= it.a[0] == "rev"
        it = it.a[1]
    if it.op != "agg" or last(it.a[0]) != "Range":
        return False
    lo, hi = linear(it.a[2], {}), linear(it.a[3], {})
    f = linear(num, {el: "i"})
    if lo is None or hi is None or f is None or abs(f.get("i", 0)) != 1:
        return False
    rest = {x: v for x, v in f.items() if x != "i"}
    sg = f["i"]

    def at(p):
        r = dict(rest)
        for x, v in p.items():
            r[x] = r.get(x, 0) + sg * v
        return {x: v for x, v in r.items() if v}
    top = lsub(hi, {None: 1})
    first, end = (at(lo), at(top)) if not rev else (at(top), at(lo))
    own = [x for x in first if x is not None]
    if len(own) != 1 or first.get(own[0]) != 1 or not is_last(own[0]):
        return False
    ctx.count("earlier files of a phase")
    if first != {own[0]: 1, None: -1} or end:
        ctx.violation("steps:%s:%s" % (b.p, ev.fr.body.p), "the earlier files of the phase are looked up from %s to %s instead of from the one before the file down to 0" %
                      (word(first), word(end)), ev.where(), ev.stack())
    return True


def is_last(t):
    return t.op == "app" and t.a[0] == "idx" or t.op == "idx" or (t.op == "app" and "last" in t.a[0])


def word(f):
    return " + ".join(("%s" % v if k is None else "%s%s" % ("" if v == 1 else "%s*" % v, show(k, 4))) for k, v in f.items()) or "0"


# ---- the list ------------------------------------------------------------
def list_args(prog, ev):
    """Arguments of a call that are lists of paths."""
    t = ev.fr.body.blocks[ev.bb].t if 0 <= ev.bb < len(ev.fr.body.blocks) else None
    if t is None or t.k != "call" or len(t.args) != len(ev.args):
        return []
    return [a for a, o in zip(ev.args, t.args) if path_list(prog.op_ty(ev.fr.body, o))]


def orient(e, t, lookups, seen=None, notes=None):
    """Orientations of a list: subset of {"new", "old"} (which end comes first)."""
    seen = set() if seen is None else seen
    if t.id in seen:
        return set()
    seen.add(t.id)
    rec = lambda x: orient(e, x, lookups, set(seen), notes)
    flip = lambda s: {{"new": "old", "old": "new"}.get(x, x) for x in s}
    if t.op == "phi":
        out = set()
        for x in e.phi_in.get(t.id, ()):
            out |= orient(e, x, lookups, seen, notes)
        return out
    if t.op == "app":
        n = t.a[0].rsplit("::", 1)[-1]
        if n in ("reverse", "rev"):
            return flip(rec(t.a[1]))
        if n in ("skip", "take", "step_by", "skip_while", "take_while", "truncate", "drain", "dedup", "retain", "split_off"):
            notes.append(n)
            return rec(t.a[1])
        if n in ("iter", "collect", "to_vec", "clone", "cloned", "copied", "into_iter", "enumerate", "map"):
            return rec(t.a[1])
        if n == "slice":
            return rec(t.a[1])
        if n in ("push", "insert"):
            v = t.a[-1]
            out = orient(e, t.a[1], lookups, seen, notes)
            front = n == "insert" and t.a[2].op == "const" and str(t.a[2].a[1]) == "0"
            if n == "insert" and not front:
                return out | {"?"}
            els = [x for x in subterms(v) if x.op == "elem"]
            if any(x.op == "app" and x.a[0] in lookups for x in subterms(v)):
                return out | {"old" if front else "new"}
            for x in els:
                o = rec(x.a[0])
                out |= flip(o) if front else o
            return out
    if t.op == "fld":
        for x in e.flat(t.a[0]) if hasattr(e, "flat") else ():
            if x is not t.a[0] and x.op == "agg":
                return rec(absint.sub(x, (t.a[1], t.a[2])))
    return set()


def listed(prog, ctx, users, keep, lookups):
    names = {prog.bodies[d].p for d in lookups} | lookups
    for b in users:
        if not any(t.k == "call" and any(path_list(prog.op_ty(b, o)) for o in t.args) for t in (b.blocks[i].t for i in b.reach)):
            continue
        e = engine(prog, ctx, b, keep, 8, lookups)
        if e is None:
            continue
        for _, ev, _ in e.events():
            if ev.kind not in ("local", "ext", "dyn", "indirect") or ev.fr.depth > 0 and ev.fr.body.d not in keep:
                continue
            for a in list_args(prog, ev):
                notes = []
                o = orient(e, a, names, None, notes)
                if not o:
                    continue
                ctx.count("lists handed over (site, state)")
                if "new" in o and "old" not in o:
                    ctx.violation("order:%s:%s" % (b.p, ev.name), "%s hands over the files newest first" % b.p, ev.where(), ev.stack())
                if notes and b.name == "load":
                    ctx.violation("complete:%s:%s" % (b.p, ev.name), "%s leaves files out of the list (%s)" % (b.p, ", ".join(sorted(set(notes)))), ev.where(), ev.stack())
                mapped(ctx, e, b, a, ev)


def lists_in(e, t, seen=None):
    """Lists (phi of pushes) the value is made of."""
    seen = {} if seen is None else seen
    st = [t]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen[x.id] = x
        if x.op == "phi":
            st.extend(e.phi_in.get(x.id, ()))
        for y in x.a:
            if isinstance(y, absint.T):
                st.append(y)
    return seen


def mapped(ctx, e, b, a, site):
    """Every element of a list another list is built from is passed on once."""
    parts = lists_in(e, a)
    its = {x.a[0] for x in parts.values() if x.op == "elem"}
    for it in its:
        if adaptors(it)[1].op == "agg":
            continue                    # numbers
        mine = lambda ev: ev.kind in ("iter", "iter-end") and ev.args[0] is it
        puts = lambda ev: ev.kind == "push" and any(x.op == "elem" and x.a[0] is it for x in subterms(ev.args[1]))
        if not any(puts(ev) for _, ev, _ in e.events()):
            continue
        ctx.count("lists rebuilt")
        for st, x, c in between(e, lambda ev: mine(ev) and ev.kind == "iter", mine, [puts]):
            if hasattr(x, "ret") and not good(x):
                continue
            if c[0] != 1:
                ctx.violation("complete:%s:%s" % (b.p, st.fr.body.p), "%s: an element of the list of files is passed on %s" % (b.p, "more than once" if c[0] else "not at all"),
                              st.where(), st.stack())


# ---- the application -----------------------------------------------------
def apply_(prog, ctx, fs, root):
    own = lambda t: shell(t) is not None and shell(t).k == "adt" and shell(t).d == root
    ops = {b.d for b in prog.fns("dochy_diff") if b.kind == "fn" and b.eff and b.argc >= 2 and
           b.locals[1].k == "ref" and b.locals[1].m and own(b.locals[1]) and not own(b.locals[2])}
    if not ops:
        raise Anchor("the functions that apply a difference were not found")
    keep = reaching(prog, fs, lambda tg: tg.body is not None and tg.body.d in ops)
    cand = [b for b in fs if b.kind == "fn" and b.d in keep and any(path_list(b.locals[i]) for i in range(1, b.argc + 1)) and
            any(own(b.locals[i]) for i in range(1, b.argc + 1))]
    direct = []
    for b in cand:
        e = engine(prog, ctx, b, {x.d for x in fs if x.d in keep and x not in cand} | {x.d for x in fs if x.kind == "closure"}, 30, ops | {x.d for x in cand})
        if e is None:
            continue
        hits = [ev for _, ev, _ in e.events() if is_op(ev, ops)]
        plist = params(e, b, path_list)
        if hits:
            direct.append(b)
            applied(prog, ctx, e, b, hits, ops, plist)
        else:
            handed(prog, ctx, e, b, plist, params(e, b, own), {x.d for x in cand})
    cached(prog, ctx, fs, cand)


def is_op(ev, ops):
    return ev.kind == "local" and ev.target is not None and ev.target.body is not None and ev.target.body.d in ops


def params(e, b, ok):
    out = []
    for i in range(1, b.argc + 1):
        if ok(b.locals[i]):
            v = e.entry.state.mem.get(("L", e.root.id, i))
            if v is not None:
                out.append(e.contents(e.entry.state, v))
    return out


def adaptors(it):
    out = []
    while it.op == "app" and len(it.a) >= 2 and isinstance(it.a[1], absint.T):
        if it.a[0] != "iter":
            out.append(it.a[0])
        it = it.a[1]
    return out, it


def origins(e, t):
    """Subterms of t, through phis."""
    return list(lists_in(e, t).values())


def from_channel(x):
    return x.op in ("world", "app") and any(isinstance(y, str) and ("Receiver" in y or "::recv" in y) for y in x.a[:1])


def applied(prog, ctx, e, b, hits, ops, plist):
    op = lambda ev: is_op(ev, ops)
    seqs, keyed = set(), False
    for ev in hits:
        ctx.count("applications (site, state)")
        d = ev.args[1]
        els = [x for x in subterms(d) if x.op == "elem"]
        direct = [x for x in els if any(p is adaptors(x.a[0])[1] for p in plist)]
        if direct:
            for x in direct:
                seqs.add(x.a[0])
            continue
        if any(from_channel(x) for x in subterms(d)) and not any(x.op == "app" and x.a[0] in ("get", "idx", "remove") or x.op == "idx" for x in subterms(d)):
            ctx.violation("arrival:%s" % b.p, "%s applies a difference as it arrives from another thread" % b.p, ev.where(), ev.stack())
            continue
        keyed = True
    for it in seqs:
        in_order(ctx, e, b, it, op)
    if keyed:
        by_position(ctx, e, b, op, plist)


def in_order(ctx, e, b, it, op):
    ad, _ = adaptors(it)
    bad = [a for a in ad if a in ("rev", "skip", "take", "step_by", "skip_while", "take_while", "filter")]
    w = next(ev for _, ev, _ in e.events() if ev.kind in ("iter", "iter-end") and ev.args[0] is it)
    if bad:
        ctx.violation("order:%s" % b.p, "%s goes through the list of files with %s" % (b.p, ", ".join(bad)), w.where(), w.stack())
        return
    mine = lambda ev: ev.kind in ("iter", "iter-end") and ev.args[0] is it
    once(ctx, e, b, mine, lambda ev: op(ev) and any(x.op == "elem" and x.a[0] is it for x in subterms(ev.args[1])), "applied")


def once(ctx, e, b, mine, what, verb):
    for st, x, c in between(e, lambda ev: mine(ev) and ev.kind == "iter", mine, [what]):
        if hasattr(x, "ret"):
            if good(x):
                ctx.violation("all:%s:%s" % (b.p, verb), "%s can return successfully before it has gone through all files" % b.p, st.where(), st.stack())
            continue
        if c[0] != 1:
            ctx.violation("once:%s:%s" % (b.p, verb), "%s: a file of the list is %s %s" % (b.p, verb, "more than once" if c[0] else "not at all"), st.where(), st.stack())


def counter(e, t):
    """A phi that starts at a constant and moves on by one: the start, else None."""
    start, ok, seen, st = set(), True, set(), [t]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op == "phi":
            st.extend(e.phi_in.get(x.id, ()))
        elif x.op == "const":
            if not str(x.a[1]).isdigit():
                return None
            start.add(str(x.a[1]))
        elif x.op == "app" and x.a[0].startswith("bin:Add") and x.a[2].op == "const" and str(x.a[2].a[1]) == "1":
            st.append(x.a[1])
        else:
            ok = False
    if not ok or not start:
        return None
    num = sorted(int(x) for x in start)         # the sum of the first turn is a constant of its own
    return {str(num[0])} if num == list(range(num[0], num[0] + len(num))) else start


def by_position(ctx, e, b, op, plist):
    """Differences prepared elsewhere are collected by position and applied by a counter."""
    evs = [ev for _, ev, _ in e.events()]
    rem = [ev for ev in evs if ev.kind == "remove"]
    ins = [ev for ev in evs if ev.kind == "insert" and any(from_channel(x) for a in ev.args[1:] for x in subterms(a))]
    send = [ev for ev in evs if ev.name in ("send", "try_send") and len(ev.args) == 2]
    if not rem or not ins or not send:
        ctx.undecide("%s: the differences are collected in a way that is not recognised" % b.p)
        return
    # what is sent: the position of a file together with the difference read from that file
    pos = set()
    for ev in send:
        m = ev.args[1]
        while m.op == "agg" and len(m.a) == 3 and m.a[0] in (RESULT, OPTION):
            m = m.a[2]
        if m.op != "agg":
            ctx.undecide("%s: the message is not a tuple" % b.p)
            return
        el = {x for f in m.a[2:] for x in subterms(f) if x.op == "elem" and any(p is adaptors(x.a[0])[1] for p in plist)}
        if not el:
            ctx.undecide("%s: the message does not come from the list" % b.p)
            return
        data = [i for i, f in enumerate(m.a[2:]) if any(x in el for x in subterms(f))]
        for i, f in enumerate(m.a[2:]):
            if i in data:
                continue
            s = counter(e, f)
            ctx.count("message parts")
            if s == {"0"}:
                pos.add(i)
            elif s is not None:
                ctx.violation("position:%s" % b.p, "%s: the position sent with a difference starts at %s" % (b.p, "/".join(sorted(s))), ev.where(), ev.stack())
                return
        for x in el:
            bad = [a for a in adaptors(x.a[0])[0] if a in ("rev", "skip", "take", "step_by", "filter")]
            if bad:
                ctx.violation("order:%s" % b.p, "%s goes through the list of files with %s" % (b.p, ", ".join(bad)), ev.where(), ev.stack())
    its = {x.a[0] for ev in send for x in subterms(ev.args[1]) if x.op == "elem" and any(p is adaptors(x.a[0])[1] for p in plist)}
    for it in its:
        mine = lambda ev: ev.kind in ("iter", "iter-end") and ev.args[0] is it
        once(ctx, e, b, mine, lambda ev: ev in send, "sent")
    for ev in ins:
        k, v = ev.args[1], ev.args[2]
        ctx.count("arrivals filed")
        if k.op == "fld" and k.a[2] not in pos:
            ctx.violation("filed:%s" % b.p, "%s files an arriving difference under something that is not its position" % b.p, ev.where(), ev.stack())
        elif k.op != "fld" and not any(from_channel(x) for x in subterms(k)):
            ctx.violation("filed:%s" % b.p, "%s files an arriving difference under %s instead of its position" % (b.p, show(k, 4)), ev.where(), ev.stack())
    # the counter
    for ev in rem:
        s = counter(e, ev.args[1])
        if s is None:
            ctx.undecide("%s: the differences are taken by a key that is not a counter" % b.p)
            return
        if s != {"0"}:
            ctx.violation("counter:%s" % b.p, "%s starts to apply at position %s" % (b.p, "/".join(sorted(s))), ev.where(), ev.stack())
    keys = {x.id for ev in rem for x in e.flat(ev.args[1])} | {ev.args[1].id for ev in rem}
    isrem = lambda ev: ev.kind == "remove"
    moves = lambda ev: ev.kind == "step" and ev.args[0].a[2].op == "const" and (ev.args[0].a[1].id in keys or ev.args[0].id in keys)
    for st, x, c in between(e, isrem, isrem, [op, moves]):
        if hasattr(x, "ret") and not good(x):
            continue
        ctx.count("rounds")
        if c not in ((0, 0), (1, 1)):
            ctx.violation("counter:%s" % b.p, "%s: between two positions %s differences are applied while the position moves on %s times" % (b.p, c[0], c[1]), st.where(), st.stack())
    recv = [ev for ev in evs if "Receiver" in ev.path and ev.name in ("recv", "recv_timeout")]
    # nothing that could be applied is left lying when the next one is waited for
    looks = lambda ev: ev.name in ("contains_key", "get", "get_mut", "entry", "is_empty", "first_key_value", "first_entry", "peek")
    none = any(f == frozenset([1]) and t.op == "app" and t.a[0] in ("eq", "bin:Eq") and any(x.op == "const" and str(x.a[-1]) == "0" for x in t.a[1:] if isinstance(x, absint.T)) and
               any(x.op == "app" and last(str(x.a[0])) == "len" for x in t.a[1:] if isinstance(x, absint.T)) for n in e.nodes.values() for t, f in n.state.facts.items())
    peeks = any(fr.body.blocks[bi].t.k == "call" and fr.body.blocks[bi].t.callee is not None and fr.body.blocks[bi].t.callee.name == "contains_key"
                for fr in e.fr_list for bi in fr.body.reach)
    for st, x, c in between(e, isrem, lambda ev: isrem(ev) or ev in recv, [op, looks]):
        if hasattr(x, "ret") or x not in recv:
            continue
        ctx.count("waits after a position")
        if c[0] and not c[1] and not none and not peeks:
            ctx.violation("left:%s" % b.p, "%s waits for another difference without looking whether the next one has already arrived: it may never be applied" % b.p, x.where(), x.stack())
    # the receiving loop
    loops = [ev for ev in evs if ev.kind == "iter" and ev.args[0].op == "agg" and last(ev.args[0].a[0]) == "Range"]
    for lp in {ev.args[0] for ev in loops}:
        lo, hi = linear(lp.a[2], {}), linear(lp.a[3], {})
        mine = lambda ev: ev.kind in ("iter", "iter-end") and ev.args[0] is lp
        got = between(e, lambda ev: mine(ev) and ev.kind == "iter", mine, [lambda ev: ev in recv, isrem])
        if not any(c[0] for _, _, c in got) or lo is None or hi is None:
            continue
        n = lsub(hi, lo)
        lens = [mk("app", "len", p) for p in plist]
        ctx.count("receiving loops")
        if any(x in lens for x in n):
            if not any(n == {x: 1} for x in lens):
                ctx.violation("all:%s:received" % b.p, "%s waits for %s differences" % (b.p, word(n)), loops[0].where(), loops[0].stack())
        for st, x, c in got:
            if hasattr(x, "ret"):
                if good(x):
                    ctx.violation("all:%s:received" % b.p, "%s can return successfully before all differences have arrived" % b.p, st.where(), st.stack())
            elif c[1] == 0 and not peeks or c[0] != 1:
                ctx.violation("all:%s:received" % b.p, "%s: a difference is received %s times and looked for %s times in one turn" % ((b.p,) + c), st.where(), st.stack())


# ---- the cache -----------------------------------------------------------
def handed(prog, ctx, e, b, plist, roots, appliers):
    """Functions that hand an object and a list to those that apply it."""
    for _, ev, _ in e.events():
        if ev.kind != "local" or ev.target is None or ev.target.body is None or ev.target.body.d not in appliers:
            continue
        ls = list_args(prog, ev)
        if not ls:
            continue
        ctx.count("lists handed over (site, state)")
        lst, obj = ls[0], ev.args[0]
        objs = [a for a in ev.args if a is not lst]
        whole = any(lst is p for p in plist)
        plain = any(x is r for r in roots for a in objs for x in [a])
        keys = cache_keys(e, objs)
        if whole:
            if keys and not plain:
                ctx.violation("cache:%s:twice" % b.p, "%s applies all files to an object taken from the cache" % b.p, ev.where(), ev.stack())
            continue
        sk = skips(e, lst, plist)
        if sk is None:
            empty = not any(x.op == "elem" for x in origins(e, lst)) and not any(p in origins(e, lst) for p in plist)
            if empty and plain and not keys:
                ctx.violation("cache:%s:nothing" % b.p, "%s applies none of the files to the object it was given" % b.p, ev.where(), ev.stack())
            continue
        if plain and not keys:
            ctx.violation("cache:%s:skip" % b.p, "%s leaves out the first files although the object does not come from the cache" % b.p, ev.where(), ev.stack())
            continue
        n = linear(sk, {})
        ctx.count("cached objects")
        for k in keys:
            if n is not None and lsub(n, linear(k, {}) or {}) != {None: 1} and k in n:
                ctx.violation("cache:%s:rest" % b.p, "%s applies the files from position %s on to the object cached at position %s" % (b.p, word(n), show(k, 4)), ev.where(), ev.stack())


def cache_keys(e, objs):
    out = set()
    for o in objs:
        for x in subterms(o):
            if x.op == "app" and x.a[0] in ("idx", "get") and len(x.a) == 3:
                out.add(x.a[2])
            elif x.op == "idx" and len(x.a) >= 2 and isinstance(x.a[1], absint.T):
                out.add(x.a[1])
    return out


def skips(e, lst, plist):
    """The number of files skipped, for a list that is the rest of the parameter."""
    for x in origins(e, lst):
        if x.op == "app" and x.a[0] == "skip" and any(p is adaptors(x.a[1])[1] for p in plist):
            return x.a[2]
        if x.op == "app" and x.a[0] in ("split_off", "slice", "drain"):
            return None
    return None


def cached(prog, ctx, fs, cand):
    """A cached object is taken for the file at its own position."""
    for b in fs:
        if b.kind != "fn" or not any(path_list(b.locals[i]) for i in range(1, b.argc + 1)):
            continue
        if not any(is_cache(b.locals[i]) for i in range(1, b.argc + 1)):
            continue
        e = engine(prog, ctx, b, set(), 10)
        if e is None:
            continue
        plist = params(e, b, path_list)
        pairs = set()
        for n in e.nodes.values() if isinstance(e.nodes, dict) else e.nodes:
            for f, v in n.state.facts.items():
                if f.op == "app" and f.a[0] == "eq":
                    pairs.add(f)
        for f in pairs:
            i = [k for k in (key_of(x, lambda y: y in plist) for x in f.a[1:3]) if k is not None]
            j = [k for k in (key_of(x, lambda y: y not in plist) for x in f.a[1:3]) if k is not None]
            if len(i) != 1 or len(j) != 1:
                continue
            ctx.count("cache comparisons")
            x, y = linear(i[0], {}), linear(j[0], {})
            if x is not None and y is not None and set(x) - {None} == set(y) - {None} and lsub(x, y):
                ctx.violation("cache:%s:position" % b.p, "%s compares the file at position %s with the cached file of position %s" % (b.p, show(i[0], 4), show(j[0], 4)), b.where())


def is_cache(t):
    t = shell(t)
    if t is None or t.k != "adt":
        return False
    return last(t.d) in ("BTreeMap", "HashMap") and len(t.a) >= 2 and any(x.k == "adt" and last(x.d) == "RootObject" for x in t.a[1].walk())


def key_of(t, base):
    for x in subterms(t):
        if x.op == "app" and x.a[0] in ("idx", "get") and len(x.a) == 3 and isinstance(x.a[2], absint.T) and base(x.a[1]):
            return x.a[2]
        if x.op == "idx" and len(x.a) >= 2 and isinstance(x.a[1], absint.T) and base(x.a[0]):
            return x.a[1]
    return None
