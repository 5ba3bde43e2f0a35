"""The bytes of a difference depend on the two objects alone, and members are numbered by their source.

Everything the comparison and the encoder run is searched for loops in unspecified order whose effects
do not commute, for calls that ask for a clock, a random number, a thread or the environment, and for
addresses turned into numbers.  Everything that reads a source is searched for the same, where only
containers with a random seed count as unordered.  Wherever a member is entered together with its
number, the number must be a position among distinct names, or a count or counter that a guard against
a second member of the same name protects and that moves on with every member.
"""
from inst import resolve
from absint import shape_of
from cg import CallGraph
from check_base import Anchor
import order

TECHNIQUE = "effect analysis of unordered loops, reachability of varying inputs, and provenance analysis of member numbers"

MEMBERS = ("RootValue", "ListDefValue", "RefValue", "RustValue")


def scan(prog, ctx, O, g, roots, what, loose):
    pred = g.reach([g.inst(b) for b in roots])
    bodies = {}
    for k in pred:
        bodies.setdefault(g.insts[k].body.d, (g.insts[k].body, k))
    random = order.random_containers(prog, [b for b, _ in bodies.values()]) if loose else None
    loops = 0

    def counts(kind, ty):
        """This kind of disorder matters here."""
        if not loose or kind != "hash":
            return True
        ks = tuple(str(x) for x in ty.a if x.k != "region")
        return any(ks[:len(r)] == r for r in random)
    for b, k in bodies.values():
        for lp in O.loops(b):
            if not counts(lp[0], lp[4]):
                continue
            loops += 1
            for e in O.loop_effects(b, lp):
                ctx.violation("order:%s:%s" % (b.p, e.what), "%s: a loop in unspecified order (%s) does %s" % (what, lp[0], e.what),
                              e.body.where(e.ln), g.path_to(pred, k) + list(e.via))
        for kind, e, ty in O.expressions(b):
            if counts(kind, ty):
                ctx.violation("order:%s:%s" % (b.p, e.what), "%s: the order of an unordered iterator (%s) shows in %s" % (what, kind, e.what),
                              b.where(e.ln), g.path_to(pred, k))
        for bi in sorted(b.reach):
            t = b.blocks[bi].t
            if t.k == "call":
                w = order.varying(prog, b, t)
                if w:
                    ctx.violation("varies:%s:%s" % (b.p, t.callee.path), "%s depends on %s" % (what, w), b.where(t.ln), g.path_to(pred, k))
        for ln in order.address_casts(b):
            ctx.violation("varies:%s:address" % b.p, "%s turns an address into a number" % what, b.where(ln), g.path_to(pred, k))
    return bodies, loops


class Numbers:
    """Where the number entered with a member comes from."""

    def __init__(self, prog, ctx, O):
        self.prog = prog; self.ctx = ctx; self.O = O
        self.sites = 0
        self.kinds = {}

    def member_map(self, ty):
        """Map from a name to a number and a member."""
        ty = ty.strip_refs() if ty is not None else None
        if ty is None or ty.k != "adt" or ty.d.rsplit("::", 1)[-1] not in ("HashMap", "BTreeMap") or len(ty.a) < 2:
            return False
        v = ty.a[1]
        return v.k == "tuple" and len(v.a) == 2 and str(v.a[0]) == "usize" and v.a[1].k == "adt" and \
            v.a[1].d.rsplit("::", 1)[-1] in MEMBERS

    def check(self, b):
        for bi in sorted(b.reach):
            t = b.blocks[bi].t
            if t.k != "call" or t.callee is None or t.callee.name != "insert" or len(t.args) != 3:
                continue
            if not self.member_map(self.prog.op_ty(b, t.args[0])) or t.args[2].pl is None:
                continue
            self.sites += 1
            o = self.part(b, t.args[2].pl.l)
            if o is None:
                self.ctx.undecide("the number entered in %s" % b.p)
                continue
            self.number(b, bi, o, t.args[0].pl.l, ())

    def part(self, b, l, depth=6):
        """Operand of the first part of a pair, or the pair itself when it is passed on whole."""
        for bi in b.reach:
            for st in b.blocks[bi].s:
                if st.k == "=" and st.pl.l == l and not st.pl.proj:
                    if st.rv.op == "agg" and len(st.rv.a) == 2:
                        return st.rv.a[0]
                    if st.rv.op == "use" and st.rv.a[0].pl is not None:
                        if not st.rv.a[0].pl.proj and depth:
                            return self.part(b, st.rv.a[0].pl.l, depth - 1)
                        return st.rv.a[0]
        return None

    def number(self, b, bi, o, mapl, via):
        """The number o entered by block bi of b."""
        ctx = self.ctx
        where = b.where(b.blocks[bi].t.ln)
        if o.pl is None:
            sh = shape_of(b)
            if any(bi in bl for bl in sh.loop.values()):
                ctx.violation("number-constant:%s" % b.p, "members entered in a loop get one constant number", where, via)
            return
        src = self.sources(b, o.pl.l)
        for kind, x in src:
            self.kinds[kind] = self.kinds.get(kind, 0) + 1
            if kind == "param":
                if x == 1 and b.kind == "closure":
                    continue
                for c, t in self.O.callers(b):
                    if x - 1 < len(t.args):
                        cb = next(i for i in c.reach if c.blocks[i].t is t)
                        m = t.args[mapl_arg(self, b, mapl)] if mapl_arg(self, b, mapl) is not None and \
                            mapl_arg(self, b, mapl) < len(t.args) else None
                        if len(via) < 4:
                            self.number(c, cb, t.args[x - 1], m.pl.l if m is not None and m.pl is not None else None,
                                        via + ("%s called at %s" % (b.p, c.where(t.ln)),))
            elif kind in ("len", "counter"):
                if not self.guarded(b, bi, mapl):
                    ctx.violation("number-shared:%s" % b.p,
                                  "a second member of the same name takes over an entry while the number moves on from a count: "
                                  "two members can get the same number", where, via)
                if kind == "counter":
                    self.moves_on(b, bi, x, via)

    def sources(self, b, l):
        out = set()
        seen = set()
        st = [l]
        rs = self.O.roots(b)
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            if 1 <= x <= b.argc:
                out.add(("param", x))
                continue
            for bi in b.reach:
                for s in b.blocks[bi].s:
                    if s.k == "=" and s.pl.l == x and not s.pl.proj:
                        if s.rv.op in ("use", "cast", "ref") or s.rv.op == "agg":
                            if s.rv.op == "ref":
                                st.append(s.rv.pl.l)
                            for a in s.rv.a:
                                if a.pl is not None:
                                    if a.pl.proj and str(b.locals[a.pl.l]).find("Option") >= 0:
                                        out.add(("item", a.pl.l))
                                    else:
                                        st.append(a.pl.l)
                        elif s.rv.op == "bin":
                            y = [a.pl.l for a in s.rv.a if a.pl is not None]
                            self_add = any(self.same_var(b, z, x) for z in y)
                            if self_add or s.rv.kind.startswith("Add"):
                                for z in y:
                                    v = self.var(b, z)
                                    if self.increments(b, v):
                                        out.add(("counter", v))
                                    else:
                                        st.append(z)
                            else:
                                st += y
                t = b.blocks[bi].t
                if t.k == "call" and t.dst.l == x and not t.dst.proj and t.callee is not None:
                    if t.callee.name == "len":
                        out.add(("len", t.args[0].pl.l if t.args and t.args[0].pl is not None else None))
                    elif t.callee.name == "next":
                        out.add(("item", x))
                    else:
                        out.add(("call", t.callee.path))
        # a variable that the loop counts up
        for x in list(seen):
            if self.increments(b, x):
                out.add(("counter", x))
        return out

    def var(self, b, l):
        seen = set()
        while l not in seen:
            seen.add(l)
            nxt = None
            for bi in b.reach:
                for s in b.blocks[bi].s:
                    if s.k == "=" and s.pl.l == l and not s.pl.proj and s.rv.op == "use" and s.rv.a[0].pl is not None and \
                            not s.rv.a[0].pl.proj:
                        nxt = s.rv.a[0].pl.l if nxt is None else l
            if nxt is None or l in b.names:
                return l
            l = nxt
        return l

    def same_var(self, b, a, c):
        return self.var(b, a) == self.var(b, c)

    def increments(self, b, l):
        """Blocks in which l becomes l + something."""
        k = ("inc", b.d, l)
        m = self.O.memo
        if k in m:
            return m[k]
        out = set()
        for bi in b.reach:
            for s in b.blocks[bi].s:
                if s.k != "=" or s.pl.l != l or s.pl.proj:
                    continue
                x = s.rv
                if x.op == "use" and x.a[0].pl is not None and x.a[0].pl.proj:
                    # (l + 1).0 of the checked addition
                    for bj in b.reach:
                        for s2 in b.blocks[bj].s:
                            if s2.k == "=" and s2.pl.l == x.a[0].pl.l and s2.rv.op == "bin" and s2.rv.kind.startswith("Add") and \
                                    any(a.pl is not None and self.copyof(b, a.pl.l, l) for a in s2.rv.a):
                                out.add(bi)
                elif x.op == "bin" and x.kind.startswith("Add") and any(a.pl is not None and self.copyof(b, a.pl.l, l) for a in x.a):
                    out.add(bi)
        m[k] = out
        return out

    def copyof(self, b, a, l):
        return a == l or l in self.O.roots(b)[a]

    def guarded(self, b, bi, mapl):
        """On the way to the entry the map was asked whether it has the name, and the entry is made only if not."""
        sh = shape_of(b)
        rs = self.O.roots(b)
        for bj in sorted(b.reach):
            t = b.blocks[bj].t
            if t.k != "call" or t.callee is None or t.callee.name not in ("contains_key", "get", "entry", "is_some", "is_none"):
                continue
            if mapl is not None and t.args and t.args[0].pl is not None and \
                    not (rs[t.args[0].pl.l] & rs[mapl]):
                continue
            # some way from the question does not lead to the entry within the same turn
            sw = self.switches(b, t.dst.l)
            for s in sw:
                to = [x for x in b.blocks[s].t.succs()]
                yes = [x for x in to if self.leads(b, sh, x, bi)]
                if yes and len(yes) < len(to):
                    return True
        return False

    def switches(self, b, l):
        """Switches on a value computed from l."""
        out = []
        for bi in b.reach:
            t = b.blocks[bi].t
            if t.k == "switch" and t.on.pl is not None:
                calls, locs = back(b, t.on.pl.l)
                if l in locs:
                    out.append(bi)
        return out

    def leads(self, b, sh, x, goal):
        """x leads to goal without starting another turn of a loop around goal."""
        heads = {h for h, bl in sh.loop.items() if goal in bl}
        seen = {x}
        st = [x]
        while st:
            y = st.pop()
            if y == goal:
                return True
            for z in b.blocks[y].t.succs():
                if z not in seen and z not in heads and (y, z) not in order.dead_edges(b):
                    seen.add(z)
                    st.append(z)
        return False

    def moves_on(self, b, bi, var, via):
        """After the entry the counter moves on before the next turn."""
        sh = shape_of(b)
        lps = sorted(((h, bl) for h, bl in sh.loop.items() if bi in bl), key=lambda p: len(p[1]))
        if not lps:
            return
        h, bl = lps[0]
        inc = {i for i in self.increments(b, var) if i in bl}
        if not inc:
            return
        # before the entry in the same turn also counts
        seen = {h}
        st = [h]
        before = bi in inc
        free = False
        while st:
            y = st.pop()
            if y == bi:
                free = True
                break
            for z in b.blocks[y].t.succs():
                if z in bl and z not in seen and z not in inc:
                    seen.add(z)
                    st.append(z)
        if not free or before:
            return
        seen = {bi}
        st = [bi]
        while st:
            y = st.pop()
            for z in b.blocks[y].t.succs():
                if z == h:
                    self.ctx.violation("number-stays:%s" % b.p, "after entering a member the counter may keep its value for the next member",
                                       b.where(b.blocks[bi].t.ln), via)
                    return
                if z in bl and z not in seen and z not in inc:
                    seen.add(z)
                    st.append(z)


def mapl_arg(self, b, mapl):
    """Which argument of b the map belongs to."""
    if mapl is None:
        return None
    rs = self.O.roots(b)[mapl]
    for i in range(1, b.argc + 1):
        if i in rs:
            return i - 1
    return None


def back(b, l):
    defs = getattr(b, "_defs23", None)
    if defs is None:
        defs = {}
        for bi in b.reach:
            for st in b.blocks[bi].s:
                if st.k == "=":
                    src = [o.pl.l for o in st.rv.a if o.pl is not None]
                    if st.rv.pl is not None:
                        src.append(st.rv.pl.l)
                    defs.setdefault(st.pl.l, []).append((src, None))
            t = b.blocks[bi].t
            if t.k == "call":
                defs.setdefault(t.dst.l, []).append(([a.pl.l for a in t.args if a.pl is not None], t))
        try:
            b._defs23 = defs
        except AttributeError:
            pass
    calls = []
    seen = set()
    st = [l]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        for src, t in defs.get(x, ()):
            if t is not None:
                calls.append(t)
            st += src
    return calls, seen


def run(prog, ctx):
    ctx.rule("in everything the comparison and the encoder run, loops in unspecified order make only changes that commute")
    ctx.rule("in everything that reads a source the same holds for listings, channels and containers with a random seed")
    ctx.rule("neither asks for a clock, a random number, a thread, the environment or an address")
    ctx.rule("the number entered with a member is a position among distinct names, or a guarded count that moves on with every member")
    O = order.Orders(prog)
    g = CallGraph(prog)
    diff = [b for b in prog.fns() if b.crate == "dochy_diff" and b.eff and b.name == "get_diff"]
    if not diff:
        raise Anchor("the public function get_diff was not found")
    bodies, n = scan(prog, ctx, O, g, diff, "the difference", False)
    ctx.count("functions behind a difference", len(bodies))
    ctx.count("unordered loops behind a difference", n)
    ctx.floor("functions behind a difference", 20)
    ctx.floor("unordered loops behind a difference", 1)
    load = [b for b in prog.fns() if b.crate == "dochy_core" and b.eff and b.kind == "fn" and
            ("RootObject" in str(b.locals[0]) or "DochyArchive" in str(b.locals[0])) and "to_" in b.name]
    if len(load) < 3:
        raise Anchor("the functions that read a source were not found")
    lb, n = scan(prog, ctx, O, g, load, "reading a source", True)
    ctx.count("functions behind a source", len(lb))
    N = Numbers(prog, ctx, O)
    for b, _ in lb.values():
        N.check(b)
    ctx.count("entries of numbered members", N.sites)
    ctx.note("numbers come from: %s" % ", ".join("%s (%d)" % kv for kv in sorted(N.kinds.items())))
    ctx.floor("entries of numbered members", 2)
    ctx.analysed += sorted(b.p for b in load + diff)
