"""Provenance analysis: forward dataflow over the inlined control-flow graph.

The abstract value of a place is an origin term saying where its contents come from
(argument, field of, result of a call on, element of, constant, constructor applied to ...).
The abstract state also holds which enum variants / boolean outcomes each origin may have on
the way to this point; states are partitioned by these facts and joined (values that differ
become join terms, loop headers always join) until a fixpoint.  No value is ever computed
beyond constants written in the source, no path is enumerated or handed to a solver.

Calls of local functions are followed (context-sensitively) or left opaque as the client
decides; standard combinators are followed through the models crate; all other external
calls give an application term and update what they can mutate.
"""
import heapq
from inst import subst, resolve, key as tykey, env_for, unify, FN_TRAITS, head


# ---- terms -------------------------------------------------------------
class T:
    __slots__ = ("op", "a", "id")

    def __repr__(self):
        return show(self)


_tab = {}


def mk(op, *a):
    k = (op,) + a
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op = op; t.a = a; t.id = len(_tab)
        _tab[k] = t
    return t


def show(t, depth=6):
    if not isinstance(t, T):
        return str(t)
    if depth < 0:
        return "…"
    a = t.a
    if t.op == "const":
        return repr(a[1]) if a[0] != "zst" else "()"
    if t.op == "agg":
        name = a[0].rsplit("::", 1)[-1]
        return "%s#%s(%s)" % (name, a[1], ", ".join(show(x, depth - 1) for x in a[2:]))
    if t.op == "sym":
        return str(a[0])
    if t.op == "fld":
        return "%s.%s%s" % (show(a[0], depth - 1), "" if a[1] == -1 else "v%d." % a[1], a[2])
    if t.op == "ptr":
        return "&%s" % (a[0],) + ("".join(".%s" % (x,) for x in a[1]))
    if t.op == "phi":
        return "phi%d" % t.id
    if t.op == "app":
        return "%s(%s)" % (a[0].rsplit("::", 2)[-1] if "<" not in a[0] else a[0].rsplit("::", 1)[-1],
                           ", ".join(show(x, depth - 1) for x in a[1:]))
    if t.op == "clo":
        return "closure(%s)" % a[0].rsplit("::", 2)[-2]
    if t.op == "elem":
        return "elem(%s)" % show(a[0], depth - 1)
    return "%s(%s)" % (t.op, ", ".join(show(x, depth - 1) for x in a))


def const(kind, v):
    return mk("const", kind, v)


UNIT = mk("agg", "()", 0)
TRUE = const("bool", 1)
FALSE = const("bool", 0)
NULL = mk("const", "null", 0)
OPTION = "core::option::Option"
RESULT = "core::result::Result"
NONE = mk("agg", OPTION, 0)


def some(x):
    return mk("agg", OPTION, 1, x)


def ok(x):
    return mk("agg", RESULT, 0, x)


def app(path, *a):
    return mk("app", path, *a)


def is_agg(t, adt=None):
    return t.op == "agg" and (adt is None or t.a[0] == adt)


def subterms(t, seen=None):
    """All terms inside a term, itself first."""
    if seen is None:
        seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        yield x
        for y in x.a:
            if isinstance(y, T):
                st.append(y)


def sub(c, step):
    """Part of a value."""
    if step[0] == "i":
        if c.op == "upd" and c.a[1] == step:
            return c.a[2]
        if c.op == "agg" and c.a[0] == "[]":
            ix = step[1]
            if ix.op == "const" and isinstance(ix.a[1], int) and ix.a[1] < len(c.a) - 2:
                return c.a[2 + ix.a[1]]
        x = c
        while x.op == "app" and x.a[0] == "insert" and len(x.a) == 4:
            if x.a[2] is step[1]:
                return x.a[3]
            if x.a[2].op == "const" and step[1].op == "const":
                x = x.a[1]
            else:
                break
        return mk("idx", x, step[1])
    vi, i = step
    if c.op == "agg":
        if 2 + i < len(c.a) and (vi == -1 or vi == c.a[1]):
            return c.a[2 + i]
        if vi == -1 and 2 + i < len(c.a):
            return c.a[2 + i]
        return mk("fld", c, vi, i)
    if c.op == "app" and c.a[0] == "get" and step == (1, 0):
        return mk("idx", c.a[1], c.a[2])
    if c.op == "clo":
        if 2 + i < len(c.a):
            return c.a[2 + i]
    if c.op == "upd":
        if c.a[1] == step:
            return c.a[2]
        if c.a[1][0] != "i" and step[0] != "i":
            return sub(c.a[0], step)
    return mk("fld", c, vi, i)


def put(c, path, v):
    """Value c with the part at path replaced by v."""
    if not path:
        return v
    step = path[0]
    if c is None:
        c = mk("undef")
    if c.op in ("agg", "clo") and step[0] != "i":
        vi, i = step
        if 2 + i < len(c.a):
            a = list(c.a)
            a[2 + i] = put(a[2 + i], path[1:], v)
            return mk(c.op, *a)
    nv = put(sub(c, step), path[1:], v) if len(path) > 1 else v
    if c.op == "upd" and c.a[1] == step:
        return mk("upd", c.a[0], step, nv)
    return mk("upd", c, step, nv)


# ---- static structure of bodies -----------------------------------------
class Shape:
    """RPO numbers, loop headers, liveness, borrowed locals, drop flags of a body."""

    def __init__(self, b):
        self.b = b
        order = []
        seen = set()
        self.back = set()
        on = set()
        st = [(0, iter(self.succ(0)))]
        seen.add(0); on.add(0)
        while st:
            n, it = st[-1]
            adv = False
            for s in it:
                if s in on:
                    self.back.add((n, s))
                elif s not in seen:
                    seen.add(s); on.add(s)
                    st.append((s, iter(self.succ(s))))
                    adv = True
                    break
            if not adv:
                st.pop(); on.discard(n); order.append(n)
        order.reverse()
        self.rpo = {n: i for i, n in enumerate(order)}
        self.headers = {h for _, h in self.back}
        # natural loops
        self.loop = {}
        for n, h in self.back:
            body = self.loop.setdefault(h, {h})
            ws = [n]
            while ws:
                x = ws.pop()
                if x in body:
                    continue
                body.add(x)
                ws.extend(p for p in b.preds.get(x, ()) if p in self.rpo)
        self.borrowed = set()
        for i in b.reach:
            for s in b.blocks[i].s:
                if s.k == "=" and s.rv.op in ("ref", "raw"):
                    if not any(e[0] == "*" for e in s.rv.pl.proj):
                        self.borrowed.add(s.rv.pl.l)
                if s.k == "=" and s.rv.op in ("use", "cast"):
                    o = s.rv.a[0]
                    t = b.locals[o.pl.l] if o.pl is not None else None
                    if t is not None and t.k == "adt" and t.d == "alloc::boxed::Box":
                        self.borrowed.add(o.pl.l)
        self.flags = self.dropflags()
        self.live_in()

    def succ(self, n):
        return [s for s in self.b.blocks[n].t.succs() if s is not None]

    def dropflags(self):
        b = self.b
        cand = {i for i, t in enumerate(b.locals) if t.k == "bool" and i not in b.names and i > b.argc}
        sw = {}
        for i in b.reach:
            blk = b.blocks[i]
            for s in blk.s:
                if s.k != "=":
                    continue
                if s.pl.l in cand and not (s.rv.op == "use" and s.rv.a[0].k == "c"):
                    cand.discard(s.pl.l)
                for o in s.rv.a:
                    if o.pl is not None:
                        cand.discard(o.pl.l)
                if s.rv.pl is not None:
                    cand.discard(s.rv.pl.l)
            t = blk.t
            if t.k == "switch":
                if t.on.pl is not None:
                    sw.setdefault(t.on.pl.l, []).append(i)
            elif t.k == "call":
                cand.discard(t.dst.l)
                for o in t.args:
                    if o.pl is not None:
                        cand.discard(o.pl.l)

        def drops(x):
            for _ in range(4):
                blk = b.blocks[x]
                if blk.t.k == "drop":
                    return True
                if blk.t.k == "goto" and not any(s.k == "=" and not (s.rv.op in ("use",) and s.rv.a[0].k == "c") and s.rv.op not in ("discr", "ref", "raw", "cast", "use") for s in blk.s):
                    x = blk.t.to
                    continue
                if blk.t.k == "switch":
                    # an enum with some variants to be dropped
                    return any(b.blocks[y].t.k in ("drop",) for y in blk.t.succs())
                return False
            return False
        out = set()
        for l in cand:
            if l not in sw:
                out.add(l)
            elif all(any(drops(x) for x in b.blocks[i].t.succs()) for i in sw[l]):
                out.add(l)
        return out

    def live_in(self):
        b = self.b
        use, dfn = {}, {}
        for i in self.rpo:
            u, d = set(), set()

            def rd(l):
                if l not in d:
                    u.add(l)

            def place_use(pl):
                rd(pl.l)
                for e in pl.proj:
                    if e[0] == "i":
                        rd(e[1])
            for s in b.blocks[i].s:
                if s.k == "=":
                    for o in s.rv.a:
                        if o.pl is not None:
                            place_use(o.pl)
                    if s.rv.pl is not None:
                        place_use(s.rv.pl)
                    if s.pl.proj:
                        place_use(s.pl)
                    else:
                        d.add(s.pl.l)
                elif s.k == "setdiscr":
                    place_use(s.pl)
            t = b.blocks[i].t
            if t.k == "switch" and t.on.pl is not None:
                place_use(t.on.pl)
            elif t.k == "call":
                for o in t.args:
                    if o.pl is not None:
                        place_use(o.pl)
                if t.f.pl is not None:
                    place_use(t.f.pl)
                if t.dst.proj:
                    place_use(t.dst)
                else:
                    d.add(t.dst.l)
            elif t.k == "assert" and t.cond.pl is not None:
                place_use(t.cond.pl)
            elif t.k == "return":
                rd(0)
            use[i] = u; dfn[i] = d
        live = {i: set() for i in self.rpo}
        ch = True
        order = sorted(self.rpo, key=lambda n: -self.rpo[n])
        while ch:
            ch = False
            for i in order:
                out = set()
                for s in self.succ(i):
                    out |= live[s]
                n = use[i] | (out - dfn[i])
                if n != live[i]:
                    live[i] = n
                    ch = True
        self.live = live


_shapes = {}


def shape_of(b):
    s = _shapes.get(id(b))
    if s is None or s.b is not b:
        s = _shapes[id(b)] = Shape(b)
    return s


# ---- engine --------------------------------------------------------------
class Frame:
    __slots__ = ("id", "body", "env", "parent", "bb", "dst", "to", "depth", "chain", "prio", "mode")

    def stack(self):
        out = []
        f = self
        while f is not None:
            out.append(f)
            f = f.parent
        return list(reversed(out))


class State:
    __slots__ = ("mem", "facts", "loops", "ctx", "tags")

    def copy(self):
        s = State()
        s.mem = dict(self.mem); s.facts = dict(self.facts); s.loops = dict(self.loops); s.ctx = self.ctx
        s.tags = self.tags
        return s


class Node:
    __slots__ = ("key", "fr", "bb", "state", "prio", "queued", "num")


class Event:
    __slots__ = ("kind", "path", "name", "args", "raw", "facts", "fr", "bb", "ln", "result", "target", "extra", "tags")

    def where(self):
        return self.fr.body.where(self.ln)

    def stack(self):
        return ["%s" % f.body.p for f in self.fr.stack()]

    def __repr__(self):
        return "%s %s(%s)" % (self.kind, self.path, ", ".join(show(x, 4) for x in self.args))


class Exit:
    __slots__ = ("kind", "ret", "state", "node", "fr")


class Budget(Exception):
    pass


class Evs(list):
    """Events of an edge; facts: what is known while crossing it."""
    __slots__ = ("facts",)


class Client:
    """Default policy; checks subclass it."""
    cap = 48
    max_nodes = 40000
    max_depth = 30

    def inline(self, eng, fr, target):
        return True

    def call(self, eng, s, fr, bi, t, tg, args):
        """Own transfer function of a call: None or a list of (state, value)."""
        return None

    def want(self, eng, ev):
        return True

    partial = False     # also report writes to parts of local values ("all": and to whole ones)

    def on_write(self, eng, s, fr, loc, v, ln):
        return None

    def split(self, s):
        """Something that keeps states apart even when they come round a loop, or None."""
        return None

    forget = None       # forget(t): facts about t are dropped when a loop is left

    def keep(self, t):
        """Facts about this origin stay in the partition key when a point has too many partitions."""
        return False


SCALARS = {"u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize", "bool", "char", "f32", "f64"}


class Engine:
    def __init__(self, prog, client=None):
        import models
        self.prog = prog
        self.client = client or Client()
        self.models = models
        self.frames = {}
        self.fr_list = []
        self.phi_in = {}
        self.phi_self = set()      # joins that a way leads back to unchanged
        self.app_ty = {}        # types of results of calls that are not followed
        self.nodes = {}
        self.heap = []
        self.exits = []
        self.edges = []
        self.final = False
        self.parts = {}
        self.cloenv = {}
        self.scalars = set()
        self.fnval = {}
        self.cur_events = None
        self.steps = 0

    # -- memory ----
    def loc_of(self, s, v):
        """Location a pointer value points to."""
        if v.op in ("ptr", "box"):
            return v.a[0], v.a[1]
        # symbolic: references are collapsed, the object is named by the term; fields of a
        # symbolic object are parts of that object
        path = []
        while v.op in ("fld", "idx"):
            if v.op == "fld":
                path.append((v.a[1], v.a[2]))
            else:
                path.append(("i", v.a[1]))
            v = v.a[0]
        path.reverse()
        return ("O", v), tuple(path)

    def addr(self, loc):
        root, path = loc
        if root[0] == "O":
            t = root[1]
            for st in path:
                t = mk("idx", t, st[1]) if st[0] == "i" else mk("fld", t, st[0], st[1])
            return t
        return mk("ptr", root, path)

    def root_val(self, s, root):
        v = s.mem.get(root)
        if v is None:
            v = root[1] if root[0] == "O" else mk("undef")
        return v

    def read(self, s, loc):
        root, path = loc
        v = self.root_val(s, root)
        for st in path:
            v = sub(v, st)
        return v

    def write(self, s, loc, v, fr=None, ln=None):
        root, path = loc
        if root[0] == "O" or (self.client.partial and (path or self.client.partial == "all")):
            self.client.on_write(self, s, fr, loc, v, ln)
        s.mem[root] = put(s.mem.get(root) if root[0] != "O" else self.root_val(s, root), path, v) if path else v

    def contents(self, s, v, limit=8):
        """What a (chain of) pointer(s) finally points to."""
        while v.op in ("ptr", "box") and limit:
            v = self.read(s, (v.a[0], v.a[1]))
            limit -= 1
        if v.op in ("agg", "const", "clo", "fn") or v.id in self.scalars:
            return v
        if ("O", v) in s.mem:
            return s.mem[("O", v)]
        if v.op in ("fld", "idx"):
            root, path = self.loc_of(s, v)
            if root in s.mem:
                return self.read(s, (root, path))
        return v

    def deep(self, s, v, depth=5):
        v = self.contents(s, v)
        if depth and v.op in ("agg", "clo"):
            ch = False
            a = list(v.a)
            for i in range(2, len(a)):
                if isinstance(a[i], T):
                    n = self.deep(s, a[i], depth - 1)
                    if n is not a[i]:
                        a[i] = n; ch = True
            if ch:
                return mk(v.op, *a)
        return v

    def innermost(self, s, v, limit=8):
        """The last pointer of a chain of pointers (the one pointing at a non-pointer)."""
        while limit:
            if v.op not in ("ptr", "box"):
                return v
            c = self.read(s, (v.a[0], v.a[1]))
            if c.op not in ("ptr", "box"):
                # a symbolic reference stored in a local stands for its referent
                return v
            v = c
            limit -= 1
        return v

    def is_box(self, t):
        return t is not None and t.k == "adt" and t.d == "alloc::boxed::Box"

    def place(self, s, fr, pl):
        loc = (("L", fr.id, pl.l), ())
        ty = fr.body.locals[pl.l]
        vi = -1
        for e in pl.proj:
            if e[0] == "*":
                v = self.read(s, loc)
                if self.is_box(ty) and v.op != "box":
                    pass                    # a box is transparent
                else:
                    loc = self.loc_of(s, v)
                ty = ty.t if ty is not None and ty.t is not None else (ty.a[0] if ty is not None and ty.a else None)
                vi = -1
            elif e[0] == "f":
                if self.is_box(ty):
                    # the raw pointer inside a box
                    v = self.read(s, loc)
                    loc = ("box", loc if v.op != "box" else (v.a[0], v.a[1]))
                    return loc
                loc = (loc[0], loc[1] + ((vi, e[1]),))
                ty = e[2]
                vi = -1
            elif e[0] == "v":
                vi = e[1]
            elif e[0] == "i":
                loc = (loc[0], loc[1] + (("i", self.read(s, (("L", fr.id, e[1]), ()))),))
                ty = ty.t if ty is not None else None
            elif e[0] == "c":
                loc = (loc[0], loc[1] + (("i", const("int", -e[1] - 1 if e[2] else e[1])),))
                ty = ty.t if ty is not None else None
            else:
                loc = (loc[0], loc[1] + (("i", const("other", str(e))),))
        return loc

    def operand(self, s, fr, o):
        if o.k == "c":
            return self.constant(s, fr, o.c)
        loc = self.place(s, fr, o.pl)
        if loc[0] == "box":
            return mk("ptr", loc[1][0], loc[1][1]) if loc[1][0][0] != "O" else self.addr(loc[1])
        v = self.read(s, loc)
        if o.k == "cp":
            ty = self.prog.place_ty(fr.body, o.pl)
            if self.is_box(ty) and v.op != "box":
                if loc[0][0] == "O":
                    return self.addr(loc)
                return mk("box", loc[0], loc[1])
        if v.op == "fld" and loc[0][0] == "O" and v.id not in self.scalars and self.is_scalar(fr, o.pl):
            self.scalars.add(v.id)
        return v

    def is_scalar(self, fr, pl):
        return bool(pl.proj) and pl.proj[-1][0] == "f" and pl.proj[-1][2] is not None and repr(pl.proj[-1][2]) in SCALARS

    def constant(self, s, fr, c):
        if c.kind == "fn":
            return self.fn_value(c.fn, fr.env)
        if c.kind == "promoted":
            if isinstance(c.v, (str, bytes)) and not self.of_enum(c):
                return const("str" if isinstance(c.v, str) else "bytes", c.v)
            return self.promoted(s, fr, c)
        if c.kind == "static":
            return mk("sym", "static:" + str(c.v))
        if c.kind == "zst":
            ty = subst(c.ty, fr.env)
            if ty.k == "fndef":
                return self.fn_type_value(ty)
            if ty.k == "closure":
                return self.closure(ty.d, fr.env, ())
            if ty.k == "adt":
                return mk("agg", ty.d, 0)
            return UNIT
        if c.v is None:
            return mk("sym", "const:%s" % (c.def_ or c.ty.s))
        v = c.v
        if isinstance(v, (list, dict)):
            v = repr(v)
        kind = c.kind
        if kind in ("int", "bool", "char", "float"):
            return const("bool" if kind == "bool" else kind, int(v) if kind in ("bool", "int") else v)
        return const(kind, v)

    def of_enum(self, c):
        """A constant of an enum type, of which the body is known."""
        ty = c.ty.strip_refs()
        a = self.prog.adts.get(ty.d) if ty.k == "adt" else None
        return a is not None and a["k"] == "enum" and c.promoted is not None

    def promoted(self, s, fr, c):
        b = None
        owner = self.prog.bodies.get(c.def_) or fr.body
        idx = c.promoted
        if idx is None or idx >= len(owner.promoted):
            return mk("sym", "promoted")
        core = owner.promoted[idx]
        # straight-line evaluation of the constant's body
        root0 = ("P", owner.d, idx)
        vals = {}
        fake = Frame()
        fake.id = ("P", owner.d, idx); fake.body = core; fake.env = fr.env; fake.parent = fr
        fake.bb = 0; fake.dst = None; fake.to = None; fake.depth = 0; fake.chain = (); fake.prio = (); fake.mode = None
        bi = 0
        n = 0
        while n < 20:
            n += 1
            blk = core.blocks[bi]
            for st in blk.s:
                if st.k == "=":
                    v = self.rvalue(s, fake, st.rv, core)
                    loc = self.place(s, fake, st.pl)
                    s.mem[loc[0]] = put(s.mem.get(loc[0]), loc[1], v) if loc[1] else v
            t = blk.t
            if t.k == "call" and t.to is not None:
                args = [self.operand(s, fake, a) for a in t.args]
                v = app(t.callee.path if t.callee else "?", *[self.deep(s, a) for a in args])
                loc = self.place(s, fake, t.dst)
                s.mem[loc[0]] = put(s.mem.get(loc[0]), loc[1], v) if loc[1] else v
                bi = t.to
            elif t.k in ("goto", "assert", "drop"):
                bi = t.to
            else:
                break
        return s.mem.get(("L", fake.id, 0), mk("sym", "promoted"))

    def fn_value(self, callee, env):
        k = (callee.rd or callee.d, tuple(tykey(subst(a, env)) for a in (callee.rargs if callee.rd else callee.args)))
        v = mk("fn", callee.path, k)
        self.fnval[v.id] = (callee, env)
        return v

    def fn_type_value(self, ty):
        v = mk("fnty", ty.d, tykey(ty))
        self.fnval[v.id] = ty
        return v

    def closure(self, uid, env, ups):
        b = self.prog.bodies.get(uid)
        e = {g: env[g] for g in (b.generics if b else ()) if g in env}
        k = tuple(sorted((n, tykey(t)) for n, t in e.items()))
        self.cloenv[(uid, k)] = e
        return mk("clo", uid, k, *ups)

    # -- rvalues ----
    def rvalue(self, s, fr, rv, core=None):
        op = rv.op
        if op == "use":
            return self.operand(s, fr, rv.a[0])
        if op in ("ref", "raw"):
            loc = self.place(s, fr, rv.pl)
            if loc[0] == "box":
                return mk("ptr", loc[1][0], loc[1][1])
            if loc[0][0] == "O" and loc[1] and self.is_scalar(fr, rv.pl):
                # the address of a number is told apart from the number
                return mk("ptr", loc[0], loc[1])
            return self.addr(loc)
        if op == "agg":
            vals = [self.operand(s, fr, o) for o in rv.a]
            if rv.kind == "adt":
                return mk("agg", rv.sub[0], rv.sub[1], *vals)
            if rv.kind == "tuple":
                return mk("agg", "()", 0, *vals)
            if rv.kind == "array":
                return mk("agg", "[]", 0, *vals)
            if rv.kind == "closure":
                return self.closure(rv.sub, fr.env, vals)
            return mk("agg", str(rv.kind), 0, *vals)
        if op == "discr":
            loc = self.place(s, fr, rv.pl)
            v = self.read(s, loc)
            if v.op in ("ptr",):
                v = self.contents(s, v)
            adt = rv.ty.d if rv.ty is not None and rv.ty.k == "adt" else None
            if v.op == "agg" and v.a[0] == adt:
                return const("int", self.prog.adts[adt]["v"][v.a[1]]["d"])
            return mk("discr", v, adt)
        if op == "cast":
            v = self.operand(s, fr, rv.a[0])
            k = rv.kind
            if k.startswith("PointerCoercion") or k in ("PtrToPtr", "BoxDerefTransmute", "Transmute"):
                if k.startswith("PointerCoercion(ClosureFnPointer") or k.startswith("PointerCoercion(Reify"):
                    return v
                return v
            if v.op == "const" and isinstance(v.a[1], int) and rv.ty.k == "int" and k == "IntToInt":
                r = wrap(v.a[1], rv.ty.n)
                if r is not None:
                    return const("int", r)
            return app("cast:%s:%s>%s" % (k, rv.from_ty.s if rv.from_ty else "?", rv.ty.s), v)
        if op == "bin":
            a = self.operand(s, fr, rv.a[0]); b = self.operand(s, fr, rv.a[1])
            return self.binop(rv.kind, a, b)
        if op == "un":
            a = self.operand(s, fr, rv.a[0])
            if rv.kind == "Not":
                return self.notb(a)
            if rv.kind == "PtrMetadata":
                return app("len", self.contents(s, a))
            return app("un:" + rv.kind, a)
        if op == "rep":
            return app("repeat", self.operand(s, fr, rv.a[0]), const("int", str(rv.n)))
        return mk("sym", "?" + op)

    def notb(self, a):
        if a.op == "const":
            if a.a[0] == "bool":
                return FALSE if a.a[1] else TRUE
            return app("un:Not", a)
        if a.op == "not":
            return a.a[0]
        return mk("not", a)

    def binop(self, k, a, b):
        if a.op == "const" and b.op == "const" and isinstance(a.a[1], int) and isinstance(b.a[1], int):
            x, y = a.a[1], b.a[1]
            f = {"Eq": lambda: x == y, "Ne": lambda: x != y, "Lt": lambda: x < y, "Le": lambda: x <= y,
                 "Gt": lambda: x > y, "Ge": lambda: x >= y}.get(k)
            if f:
                return TRUE if f() else FALSE
            g = {"Add": lambda: x + y, "Sub": lambda: x - y, "Mul": lambda: x * y}.get(k)
            if g and g() >= 0:
                return const("int", g())
        if k == "Eq":
            if a is b:
                return TRUE
            for x, y in ((a, b), (b, a)):
                if x.op == "const" and x.a[0] == "bool":
                    return y if x.a[1] else self.notb(y)
            if a.id > b.id:
                a, b = b, a
            return app("eq", a, b)
        if k == "Ne":
            return self.notb(self.binop("Eq", a, b))
        if k == "Lt":
            return app("lt", a, b)
        if k == "Gt":
            return app("lt", b, a)
        if k == "Ge":
            return self.notb(app("lt", a, b))
        if k == "Le":
            return self.notb(app("lt", b, a))
        return app("bin:" + k, a, b)

    # -- facts ----
    def variants_of(self, s, t, adt):
        """Allowed variant indices of an enum-valued origin."""
        if t.op == "agg":
            return frozenset([t.a[1]])
        f = s.facts.get(t)
        if isinstance(f, frozenset):
            return f
        if adt in self.prog.adts:
            return frozenset(range(len(self.prog.adts[adt]["v"])))
        return None

    def assume_variant(self, s, t, adt, allowed):
        cur = self.variants_of(s, t, adt)
        n = allowed if cur is None else cur & allowed
        if not n:
            return False
        if t.op != "agg":
            s.facts[t] = n
        return True

    def bool_of(self, s, t):
        if t.op == "const":
            return bool(t.a[1])
        if t.op == "not":
            r = self.bool_of(s, t.a[0])
            return None if r is None else not r
        f = s.facts.get(t)
        if isinstance(f, frozenset) and len(f) == 1:
            return bool(next(iter(f)))
        return None

    def assume_bool(self, s, t, val):
        while t.op == "not":
            t = t.a[0]; val = not val
        cur = self.bool_of(s, t)
        if cur is not None:
            return cur == val
        s.facts[t] = frozenset([1 if val else 0])
        return True

    def split_variant(self, s, t, adt):
        """[(variant index, state)] for every variant the origin may have."""
        out = []
        vs = self.variants_of(s, t, adt)
        for v in sorted(vs):
            n = s if len(vs) == 1 else s.copy()
            if t.op != "agg":
                n.facts[t] = frozenset([v])
            out.append((v, n))
        return out

    # -- running ----
    def frame(self, body, env, parent, bb, dst, to):
        k = (parent.id if parent else None, bb, body.d, tuple(sorted((n, tykey(t)) for n, t in env.items())))
        f = self.frames.get(k)
        if f is None:
            f = Frame()
            f.id = len(self.frames) + 1
            f.body = body; f.env = env; f.parent = parent; f.bb = bb; f.dst = dst; f.to = to
            f.depth = parent.depth + 1 if parent else 0
            f.chain = (parent.chain if parent else ()) + (body.d,)
            f.prio = (parent.prio + (shape_of(parent.body).rpo.get(bb, 0),)) if parent else ()
            f.mode = None
            self.frames[k] = f
            self.fr_list.append(f)
        return f

    def shape_val(self, v, d=2):
        if v.op == "agg":
            if d and len(v.a) <= 6:
                return (v.a[0], v.a[1]) + tuple(self.shape_val(x, d - 1) if isinstance(x, T) else 0 for x in v.a[2:])
            return (v.a[0], v.a[1])
        if v.op == "const" and v.a[0] == "bool":
            return v.a[1]
        if v.op == "clo":
            return v.a[0]
        return 0

    def part_key(self, s, fr, bb):
        sh = shape_of(fr.body)
        live = sh.live.get(bb, ())
        shp = []
        for l in sorted(live):
            if l in sh.flags:
                continue
            v = s.mem.get(("L", fr.id, l))
            if v is not None:
                x = self.shape_val(v)
                if x != 0:
                    shp.append((l, x))
        return frozenset(s.facts.items()), tuple(shp)

    def prune(self, s, fr, bb):
        sh = shape_of(fr.body)
        live = sh.live.get(bb, set())
        fid = fr.id
        dead = [r for r in s.mem if r[0] == "L" and r[1] == fid and r[2] not in live and
                (r[2] not in sh.borrowed or r[2] in sh.flags)]
        for r in dead:
            del s.mem[r]

    def join_val(self, a, b, name):
        if a is b:
            if a.op == "phi" and a.a == name:
                self.phi_self.add(a.id)
            return a
        ph = mk("phi", *name)
        if a is ph or b is ph:
            o = b if a is ph else a
            self.phi_in.setdefault(ph.id, set()).add(o)
            return ph
        if a.op == b.op and a.op in ("agg", "clo") and a.a[:2] == b.a[:2] and len(a.a) == len(b.a):
            return mk(a.op, a.a[0], a.a[1], *[self.join_val(x, y, name + (i,)) for i, (x, y) in
                                               enumerate(zip(a.a[2:], b.a[2:]))])
        self.phi_in.setdefault(ph.id, set()).update((a, b))
        return ph

    def join(self, node, s):
        """Joins s into the node's state; True if it changed."""
        o = node.state
        n = {}
        ch = False
        for r, v in o.mem.items():
            w = s.mem.get(r)
            if w is None:
                if r[0] == "O":
                    w = r[1]
                else:
                    ch = True
                    continue
            j = self.join_val(v, w, (node.num, r))
            if j is not v:
                ch = True
            n[r] = j
        for r, w in s.mem.items():
            if r[0] == "O" and r not in o.mem:
                j = self.join_val(r[1], w, (node.num, r))
                n[r] = j
                ch = True
        facts = {}
        for t, f in o.facts.items():
            g = s.facts.get(t)
            if g is None:
                ch = True
                continue
            if g == f:
                facts[t] = f
            elif isinstance(f, frozenset) and isinstance(g, frozenset):
                facts[t] = f | g
                if facts[t] != f:
                    ch = True
            elif isinstance(f, tuple) and isinstance(g, tuple):
                if f[0] == "ne" and g[0] == "ne":
                    facts[t] = ("ne", f[1] & g[1])
                    if facts[t] != f:
                        ch = True
                else:
                    ch = True
            else:
                ch = True
        tags = o.tags & s.tags
        if tags != o.tags:
            ch = True
        if ch:
            st = State()
            st.mem = n; st.facts = facts; st.loops = o.loops; st.ctx = o.ctx; st.tags = tags
            node.state = st
        return ch

    def enter(self, fr, bb, s, back=False):
        """State s arrives at a block; returns the node."""
        sh = shape_of(fr.body)
        self.prune(s, fr, bb)
        hk = (fr.id, bb)
        if self.client.forget is not None and s.loops and any(k[0] == fr.id and k[1] != bb and bb not in sh.loop.get(k[1], ()) for k in s.loops):
            s.facts = {t: f for t, f in s.facts.items() if not self.client.forget(t)}
        if back and hk in s.loops:
            pk = s.loops[hk]
        else:
            pk = self.part_key(s, fr, bb)
            group = (fr.id, bb, s.ctx)
            ps = self.parts.setdefault(group, set())
            if pk not in ps:
                if len(ps) >= self.client.cap:
                    kept = frozenset((t, f) for t, f in s.facts.items() if self.client.keep(t))
                    pk = ("coarse", kept, pk[1] if len(ps) < 2 * self.client.cap else None)
                    if pk not in ps and len(ps) >= 3 * self.client.cap:
                        pk = ("coarse", None, None)
                ps.add(pk)
            if bb in sh.headers:
                s.loops[hk] = pk
        tok = self.client.split(s)
        if tok is not None:
            pk = (pk, tok)
        # leaving loops
        if s.loops:
            for k in [k for k in s.loops if k[0] == fr.id and k[1] != bb and bb not in sh.loop.get(k[1], ())]:
                del s.loops[k]
        nk = (fr.id, bb, s.ctx, pk)
        node = self.nodes.get(nk)
        if node is None:
            if self.final:
                return None
            node = Node()
            node.key = nk; node.fr = fr; node.bb = bb; node.state = s; node.queued = False
            node.num = len(self.nodes)
            node.prio = fr.prio + (sh.rpo.get(bb, 0),)
            self.nodes[nk] = node
            if len(self.nodes) > self.client.max_nodes:
                raise Budget("too many abstract states (%d)" % len(self.nodes))
            self.push(node)
        elif not self.final:
            if self.join(node, s):
                self.push(node)
        return node

    def push(self, node):
        if not node.queued:
            node.queued = True
            heapq.heappush(self.heap, (node.prio, node.num, node))

    def run(self, body, args=None, env=None, facts=None, mem=None):
        s = State()
        s.mem = dict(mem or {}); s.facts = dict(facts or {}); s.loops = {}; s.ctx = (); s.tags = frozenset()
        fr = self.frame(body, env or {}, None, None, None, None)
        self.root = fr
        for i in range(1, body.argc + 1):
            v = args[i - 1] if args and i - 1 < len(args) and args[i - 1] is not None else \
                mk("sym", "arg%d:%s" % (i, body.names.get(i, "")))
            s.mem[("L", fr.id, i)] = v
        self.entry = self.enter(fr, 0, s)
        while self.heap:
            _, _, n = heapq.heappop(self.heap)
            n.queued = False
            self.steps += 1
            if self.steps > 6 * self.client.max_nodes:
                raise Budget("no fixpoint")
            self.step(n)
        # second pass: collect edges, events and exits on the stable states
        self.final = True
        self.edges = []
        self.exits = []
        for n in list(self.nodes.values()):
            self.step(n)
        self.succ = {}
        self.pred = {}
        for a, evs, b in self.edges:
            self.succ.setdefault(a.num, []).append((evs, b))
            if b is not None and not isinstance(b, Exit):
                self.pred.setdefault(b.num, []).append((evs, a))
        return self

    def step(self, node):
        s = node.state.copy()
        fr = node.fr
        b = fr.body
        sh = shape_of(b)
        blk = b.blocks[node.bb]
        self.cur_events = []
        self.cur_node = node
        for st in blk.s:
            if st.k == "=":
                v = self.rvalue(s, fr, st.rv)
                loc = self.place(s, fr, st.pl)
                if loc[0] == "box":
                    continue
                self.write(s, loc, v, fr, st.ln)
            elif st.k == "dead":
                s.mem.pop(("L", fr.id, st.l), None)
            elif st.k == "setdiscr":
                loc = self.place(s, fr, st.pl)
                c = self.read(s, loc)
                self.write(s, loc, mk("upd", c, ("d", 0), const("int", st.v)), fr, st.ln)
        self.terminator(node, s, fr, b, sh, blk.t)

    def goto(self, node, s, fr, bb, evs=None):
        sh = shape_of(fr.body)
        back = node.fr is fr and (node.bb, bb) in sh.back
        f = s.facts
        n = self.enter(fr, bb, s, back)
        if self.final:
            es = Evs(self.cur_events)
            es.extend(evs or ())
            es.facts = f
            self.edges.append((node, es, n))

    def leave(self, node, s, kind, ret, fr, evs=None):
        if self.final:
            e = Exit()
            e.kind = kind; e.ret = ret; e.state = s; e.node = node; e.fr = fr
            self.exits.append(e)
            es = Evs(self.cur_events)
            es.extend(evs or ())
            es.facts = s.facts
            self.edges.append((node, es, e))

    def terminator(self, node, s, fr, b, sh, t):
        k = t.k
        if k in ("goto", "assert", "drop"):
            self.goto(node, s, fr, t.to)
        elif k == "switch":
            self.switch(node, s, fr, b, sh, t)
        elif k == "return":
            ret = s.mem.get(("L", fr.id, 0), UNIT)
            self.ret(node, s, fr, ret)
        elif k == "call":
            self.call(node, s, fr, b, t)
        else:
            self.leave(node, s, "unreachable", None, fr)

    def ret(self, node, s, fr, ret):
        if fr.parent is None:
            self.leave(node, s, "return", ret, fr)
            return
        # pointers into the finished frame are resolved before it goes
        if ret.op in ("agg", "ptr", "clo"):
            ret = self.unframe(s, ret, fr.id)
        dead = [r for r in s.mem if r[0] == "L" and r[1] == fr.id]
        for r in dead:
            del s.mem[r]
        if s.loops:
            for kk in [x for x in s.loops if x[0] == fr.id]:
                del s.loops[kk]
        s.ctx = s.ctx[:-1]
        p = fr.parent
        if fr.to is None:
            self.leave(node, s, "diverge", None, p)
            return
        evs = []
        if self.final:
            evs = self.client_event_return(node, s, fr, ret)
        loc = self.place(s, p, fr.dst)
        self.write(s, loc, ret, p, None)
        n = self.enter(p, fr.to, s, (fr.bb, fr.to) in shape_of(p.body).back)
        if self.final:
            es = Evs(self.cur_events)
            es.extend(evs)
            es.facts = s.facts
            self.edges.append((node, es, n))

    def client_event_return(self, node, s, fr, ret):
        f = getattr(self.client, "on_return", None)
        if f:
            e = f(self, s, fr, ret)
            return [e] if e is not None else []
        return []

    def unframe(self, s, v, fid, depth=4):
        if v.op == "ptr" and v.a[0][0] == "L" and v.a[0][1] == fid:
            return self.read(s, (v.a[0], v.a[1]))
        if depth and v.op in ("agg", "clo"):
            a = list(v.a)
            for i in range(2, len(a)):
                if isinstance(a[i], T):
                    a[i] = self.unframe(s, a[i], fid, depth - 1)
            return mk(v.op, *a)
        return v

    def switch(self, node, s, fr, b, sh, t):
        if t.on.pl is not None and not t.on.pl.proj and t.on.pl.l in sh.flags:
            # drop flags: both ways, nothing learnt
            for x in t.succs():
                self.goto(node, s.copy(), fr, x)
            return
        v = self.operand(s, fr, t.on)
        if v.op == "const" and isinstance(v.a[1], int):
            for c, bb in t.cases:
                if c == v.a[1]:
                    self.goto(node, s, fr, bb)
                    return
            self.goto(node, s, fr, t.els)
            return
        if v.op == "discr":
            o, adt = v.a
            allowed = self.variants_of(s, o, adt)
            if allowed is None:
                for x in t.succs():
                    self.goto(node, s.copy(), fr, x)
                return
            rest = set(allowed)
            groups = {}
            for c, bb in t.cases:
                vi = self.prog.discr_to_variant(adt, c)
                if vi in rest:
                    groups.setdefault(bb, set()).add(vi)
                rest.discard(vi)
            if rest:
                groups.setdefault(t.els, set()).update(rest)
            for bb, vs in groups.items():
                n = s.copy()
                if o.op != "agg":
                    n.facts[o] = frozenset(vs)
                self.goto(node, n, fr, bb)
            return
        isb = t.ty is not None and t.ty.k == "bool"
        if isb:
            for c, bb in ([(x, y) for x, y in t.cases] + [(None, t.els)]):
                val = bool(c) if c is not None else not bool(t.cases[0][0])
                n = s.copy()
                if self.assume_bool(n, v, val):
                    self.goto(node, n, fr, bb)
            return
        f = s.facts.get(v)
        if isinstance(f, tuple) and f[0] == "eq":
            for c, bb in t.cases:
                if c == f[1]:
                    self.goto(node, s, fr, bb)
                    return
            self.goto(node, s, fr, t.els)
            return
        excl = f[1] if isinstance(f, tuple) and f[0] == "ne" else frozenset()
        seen = set()
        for c, bb in t.cases:
            seen.add(c)
            if c in excl:
                continue
            n = s.copy()
            n.facts[v] = ("eq", c)
            self.goto(node, n, fr, bb)
        n = s.copy()
        n.facts[v] = ("ne", excl | frozenset(seen))
        self.goto(node, n, fr, t.els)

    # -- calls ----
    def event(self, kind, path, s, args, raw, fr, bi, t, result=None, tg=None, extra=None):
        if not self.final:
            return None
        e = Event()
        e.kind = kind; e.path = path; e.name = path.rsplit("::", 1)[-1]; e.args = args; e.raw = raw
        e.facts = dict(s.facts); e.fr = fr; e.bb = bi; e.ln = t.ln; e.result = result; e.target = tg; e.extra = extra
        e.tags = s.tags
        if self.client.want(self, e):
            return e
        return None

    def callable(self, s, v, limit=6):
        while limit and v.op in ("ptr", "box"):
            v = self.read(s, (v.a[0], v.a[1]))
            limit -= 1
        if v.op in ("clo", "fn", "fnty"):
            return v
        return None

    def call(self, node, s, fr, b, t):
        args = [self.operand(s, fr, a) for a in t.args]
        if t.callee is None:
            v = self.operand(s, fr, t.f)
            c = self.callable(s, v)
            if c is not None:
                return self.invoke(node, s, fr, b, t, c, args)
            return self.opaque(node, s, fr, t, None, "indirect", "indirect-call", [v] + args)
        tg = resolve(self.prog, t.callee, fr.env)
        r = self.client.call(self, s, fr, node.bb, t, tg, args)
        if r is not None:
            if isinstance(r, list):
                return self.results(node, fr, t, r)
            return self.invoke(node, s, fr, b, t, r[1], r[2])       # ("invoke", closure, arguments)
        if tg.callee.trait in FN_TRAITS:
            c = self.callable(s, args[0])
            if c is None:
                return self.opaque(node, s, fr, t, tg, "callback", "callback", args)
            tup = args[1]
            if tup.op != "agg":
                tup = self.contents(s, tup)
            ar = list(tup.a[2:]) if tup.op == "agg" else [tup]
            return self.invoke(node, s, fr, b, t, c, ar, args[0])
        if tg.kind == "ctor":
            v = mk("agg", tg.callee.adt or tg.callee.p, tg.callee.vi or 0, *args)
            return self.results(node, fr, t, [(s, v)])
        r = self.models.apply(self, s, fr, node.bb, t, tg, args)
        if r is not None:
            if isinstance(r, list):
                return self.results(node, fr, t, r)
            kind = r[0]
            if kind == "body":              # follow a models function
                _, mb, margs = r
                return self.follow(node, s, fr, t, mb, self.model_env(mb, tg), margs)
            if kind == "invoke":            # call a closure value
                _, c, cargs = r
                return self.invoke(node, s, fr, b, t, c, cargs)
        if tg.kind in ("local", "closure"):
            cb = tg.body
            if fr.depth < self.client.max_depth and cb.d not in fr.chain and self.client.inline(self, fr, tg):
                return self.follow(node, s, fr, t, cb, tg.env, args)
            kind = "rec" if cb.d in fr.chain else "local"
            return self.opaque(node, s, fr, t, tg, kind, tg.path, args)
        return self.opaque(node, s, fr, t, tg, "ext" if tg.kind == "ext" else tg.kind, tg.path, args)

    def model_env(self, mb, tg):
        if len(mb.generics) == len(tg.args):
            return env_for(mb, tg.args)
        return {}

    def invoke(self, node, s, fr, b, t, c, args, selfptr=None):
        if c.op == "clo":
            cb = self.prog.bodies.get(c.a[0])
            if cb is None:
                return self.opaque(node, s, fr, t, None, "ext", c.a[0], args)
            env = self.cloenv.get((c.a[0], c.a[1]), {})
            if cb.d in fr.chain or fr.depth >= self.client.max_depth:
                return self.opaque(node, s, fr, t, None, "rec", cb.p, args)
            if cb.locals[1].k == "ref":
                p = self.innermost(s, selfptr) if selfptr is not None else None
                if p is None or p.op not in ("ptr", "box"):
                    root = ("C", fr.id, node.bb)
                    s.mem[root] = c
                    p = mk("ptr", root, ())
                me = p
            else:
                me = c
            return self.follow(node, s, fr, t, cb, env, [me] + args)
        if c.op == "fn":
            callee, env = self.fnval[c.id]
            tg = resolve(self.prog, callee, env)
        else:
            ty = self.fnval[c.id]
            fb = self.prog.bodies.get(ty.d)
            if fb is None:
                return self.opaque(node, s, fr, t, None, "ext", ty.d, args)
            return self.maybe_follow(node, s, fr, t, fb, env_for(fb, ty.g), args, fb.p)
        if tg.kind == "ctor":
            return self.results(node, fr, t, [(s, mk("agg", callee.adt or callee.p, callee.vi or 0, *args))])
        r = self.client.call(self, s, fr, node.bb, t, tg, args)
        if r is None:
            r = self.models.apply(self, s, fr, node.bb, t, tg, args)
        if r is not None:
            if isinstance(r, list):
                return self.results(node, fr, t, r)
            if r[0] == "body":
                return self.follow(node, s, fr, t, r[1], self.model_env(r[1], tg), r[2])
            if r[0] == "invoke":
                return self.invoke(node, s, fr, b, t, r[1], r[2])
        if tg.kind in ("local", "closure"):
            if tg.body.d not in fr.chain and fr.depth < self.client.max_depth and self.client.inline(self, fr, tg):
                return self.follow(node, s, fr, t, tg.body, tg.env, args)
            return self.opaque(node, s, fr, t, tg, "rec" if tg.body.d in fr.chain else "local", tg.path, args)
        return self.opaque(node, s, fr, t, tg, "ext", tg.path, args)

    def maybe_follow(self, node, s, fr, t, fb, env, args, path):
        if fb.d not in fr.chain and fr.depth < self.client.max_depth:
            return self.follow(node, s, fr, t, fb, env, args)
        return self.opaque(node, s, fr, t, None, "rec", path, args)

    def follow(self, node, s, fr, t, cb, env, args):
        if t.to is None:
            # a local function that never returns
            self.leave(node, s, "diverge", None, fr)
            return
        nf = self.frame(cb, env, fr, node.bb, t.dst, t.to)
        s = s.copy()
        s.ctx = s.ctx + (node.num,)
        # values of a previous activation of this frame (loops) are gone
        for r in [r for r in s.mem if r[0] == "L" and r[1] == nf.id]:
            del s.mem[r]
        if cb.kind == "closure" and cb.argc == 2 and len(args) > 2:
            pass
        for i in range(1, cb.argc + 1):
            s.mem[("L", nf.id, i)] = args[i - 1] if i - 1 < len(args) else mk("sym", "missing")
        evs = []
        f = getattr(self.client, "on_call", None)
        if f and self.final:
            e = f(self, s, fr, nf, t, args)
            if e is not None:
                evs = [e]
        n = self.enter(nf, 0, s)
        if self.final:
            es = Evs(self.cur_events)
            es.extend(evs)
            es.facts = s.facts
            self.edges.append((node, es, n))

    def results(self, node, fr, t, rs):
        """rs: list of (state, value[, event]); continues after the call."""
        for r in rs:
            s, v = r[0], r[1]
            evs = [e for e in (r[2:] or ()) if e is not None]
            if t.to is None or v is None:
                self.leave(node, s, "diverge", None, fr, evs)
                continue
            loc = self.place(s, fr, t.dst)
            self.write(s, loc, v, fr, t.ln)
            self.note_ty(fr, t, v)
            self.goto(node, s, fr, t.to, evs)

    def note_ty(self, fr, t, v):
        """Remembers the types of the results of calls."""
        if v.op == "agg" and v.a[0] == OPTION and v.a[1] == 1:
            some, v = True, v.a[2]
        else:
            some = False
        if v.op not in ("app", "world", "elem", "idx", "fld") or v.id in self.app_ty:
            return
        dty = self.prog.place_ty(fr.body, t.dst)
        if dty is None:
            return
        dty = subst(dty, fr.env)
        if some:
            if dty.k != "adt" or dty.d != OPTION or not dty.a:
                return
            dty = dty.a[0]
        if dty.k not in ("param", "proj", "alias"):
            self.app_ty[v.id] = dty

    def opaque(self, node, s, fr, t, tg, kind, path, args):
        self.results(node, fr, t, [self.opaque_result(s, fr, node.bb, t, tg, kind, path, args)])

    def opaque_result(self, s, fr, bi, t, tg, kind, path, args):
        """Default effect of a call that is not followed."""
        dargs = [self.deep(s, a) for a in args]
        tys = [self.prog.op_ty(fr.body, o) for o in t.args] if len(t.args) == len(args) else [None] * len(args)
        dty = self.prog.place_ty(fr.body, t.dst) if t.dst is not None else None
        if dty is not None:
            dty = subst(dty, fr.env)
        if dty is not None and dty.k == "tuple" and not dty.a:
            res = UNIT
        else:
            res = app(path, *dargs)
            if dty is not None:
                self.app_ty.setdefault(res.id, dty)
        e = self.event(kind, path, s, dargs, args, fr, bi, t, res, tg)
        for i, (a, ty) in enumerate(zip(args, tys)):
            if ty is None:
                continue
            ty = subst(ty, fr.env)
            if ty.k == "ref" and ty.m:
                p = self.innermost(s, a)
                loc = self.loc_of(s, p)
                old = self.read(s, loc)
                if old.op == "clo":
                    continue
                others = [x for j, x in enumerate(dargs) if j != i]
                new = mk("app", "mut:" + path, old if old.op not in ("ptr",) else dargs[i], *others)
                self.write(s, loc, new, fr, t.ln)
        return s, (None if t.to is None else res), e

    # -- queries ----
    def flat(self, t, seen=None):
        """Inputs of a join term, transitively; a non-join term is its own input."""
        out = []
        seen = set() if seen is None else seen
        st = [t]
        while st:
            x = st.pop()
            if x.id in seen:
                continue
            seen.add(x.id)
            if x.op == "phi":
                st.extend(self.phi_in.get(x.id, ()))
            else:
                out.append(x)
        return out

    def deps(self, t):
        """All terms a term depends on, looking through joins."""
        seen = set()
        st = [t]
        while st:
            x = st.pop()
            if x.id in seen:
                continue
            seen.add(x.id)
            yield x
            if x.op == "phi":
                st.extend(self.phi_in.get(x.id, ()))
            for y in x.a:
                if isinstance(y, T):
                    st.append(y)

    def events(self):
        for a, evs, b in self.edges:
            for e in evs:
                yield a, e, b


BITS = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "usize": 64, "u128": 128,
        "i8": -8, "i16": -16, "i32": -32, "i64": -64, "isize": -64, "i128": -128}


def wrap(v, n):
    b = BITS.get(n)
    if b is None:
        return None
    if b > 0:
        return v & ((1 << b) - 1)
    b = -b
    v &= (1 << b) - 1
    # constants are stored as unsigned bit patterns
    return v
