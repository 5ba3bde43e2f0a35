"""Whole-program influence graph: which values can influence which.

Nodes are locals of bodies, fields of the repository's types and captured variables of
closures; a container, tuple, option or reference is one node with what it holds.  Edges are
assignments, calls (arguments to parameters, results to destinations, both ways through
mutable references) and, for functions outside the repository, from the arguments to the
result and to whatever the call may write.  Clients relabel or drop edges.
"""
from inst import resolve

WRAP = ("ref", "ptr", "slice", "array")


def node_of(prog, b, pl):
    """Node a place belongs to."""
    n = ("L", b.d, pl.l)
    ty = b.locals[pl.l]
    vi = 0
    for e in pl.proj:
        if e[0] == "*":
            ty = ty.t if ty is not None and ty.t is not None else (ty.a[0] if ty is not None and ty.a else None)
        elif e[0] == "v":
            vi = e[1]
        elif e[0] == "f":
            while ty is not None and ty.k in ("ref", "ptr"):
                ty = ty.t
            if ty is not None and ty.k == "adt" and ty.d in prog.local_adts:
                n = ("F", ty.d, vi, e[1])
            elif ty is not None and ty.k == "closure":
                n = ("U", ty.d, e[1])
            elif ty is not None and ty.k == "tuple" and n[0] in ("L", "T"):
                n = ("T", n, e[1])
            ty = e[2]
            vi = 0
        elif e[0] in ("i", "c"):
            ty = ty.t if ty is not None and ty.t is not None else None
    return n


def mut_into(ty, depth=3):
    """A value of this type may give write access to something else."""
    if ty is None:
        return False
    if ty.k in ("ref", "ptr"):
        return ty.m or (depth and mut_into(ty.t, depth - 1))
    if depth and ty.k in ("adt", "tuple", "closure"):
        return any(mut_into(x, depth - 1) for x in ty.a)
    return False


def closures_in(ty, seen=None):
    for t in ty.walk():
        if t.k in ("closure", "fndef"):
            yield t


class Flow:
    def __init__(self, prog, bodies=None):
        self.prog = prog
        self.out = {}
        self.sites = []          # (body, block, term, target, argument nodes, destination node)
        self.why = {}
        for b in (bodies if bodies is not None else prog.fns()):
            self.body(b)

    # ---- hooks ----
    def bin_label(self, b, rv):
        return "bin:" + rv.kind

    def ext(self, b, bi, t, tg, args, dst):
        """Edges of a call out of the repository; return True if handled."""
        return False

    def edge(self, a, b, label="=", at=None):
        if a is None or b is None or a == b:
            return
        self.out.setdefault(a, {}).setdefault((b, label), at)
        # a part of a tuple belongs to the tuple when it is handled as a whole
        for x in (a, b):
            while x[0] == "T":
                p = x[1]
                self.out.setdefault(x, {}).setdefault((p, "part"), at)
                self.out.setdefault(p, {}).setdefault((x, "whole"), at)
                x = p

    def op(self, b, o):
        return node_of(self.prog, b, o.pl) if o.pl is not None else None

    def body(self, b):
        prog = self.prog
        for bi in b.reach:
            blk = b.blocks[bi]
            for st in blk.s:
                if st.k != "=":
                    continue
                rv = st.rv
                d = node_of(prog, b, st.pl)
                at = (b, st.ln)
                if rv.op in ("use", "un", "rep"):
                    for o in rv.a:
                        self.edge(self.op(b, o), d, "=", at)
                        self.alias(b, o, d, at)
                elif rv.op == "cast":
                    self.edge(self.op(b, rv.a[0]), d, "cast:%s>%s" % (rv.from_ty.s if rv.from_ty else "?", rv.ty.s), at)
                    self.alias(b, rv.a[0], d, at)
                elif rv.op == "bin":
                    for o in rv.a:
                        self.edge(self.op(b, o), d, self.bin_label(b, rv), at)
                elif rv.op in ("ref", "raw"):
                    n = node_of(prog, b, rv.pl)
                    self.edge(n, d, "=", at)
                    if rv.mut or rv.op == "raw":
                        self.edge(d, n, "=", at)
                elif rv.op == "agg":
                    self.agg(b, st, rv, d, at)
            t = blk.t
            if t.k == "call":
                self.call(b, bi, t)

    def alias(self, b, o, d, at):
        """Copies of references that can be written through lead back."""
        if o.pl is not None:
            ty = self.prog.place_ty(b, o.pl)
            if mut_into(ty):
                self.edge(d, self.op(b, o), "=", at)

    def agg(self, b, st, rv, d, at):
        for i, o in enumerate(rv.a):
            n = self.op(b, o)
            if rv.kind == "adt" and rv.sub[0] in self.prog.local_adts:
                f = ("F", rv.sub[0], rv.sub[1], i)
            elif rv.kind == "closure":
                f = ("U", rv.sub, i)
            elif rv.kind == "tuple" and d[0] in ("L", "T"):
                f = ("T", d, i)
            else:
                f = d
            if n is None:
                continue
            self.edge(n, f, "=", at)
            if mut_into(self.prog.place_ty(b, o.pl)):
                self.edge(f, n, "=", at)

    def call(self, b, bi, t):
        prog = self.prog
        at = (b, t.ln)
        args = [self.op(b, a) for a in t.args]
        dst = node_of(prog, b, t.dst)
        tg = resolve(prog, t.callee, {}) if t.callee is not None else None
        self.sites.append((b, bi, t, tg, args, dst))
        if tg is not None and tg.kind == "ctor":
            adt, vi = t.callee.adt, t.callee.vi
            for i, n in enumerate(args):
                self.edge(n, ("F", adt, vi, i) if adt in prog.local_adts else dst, "=", at)
            return
        if tg is not None and tg.kind in ("local", "closure"):
            c = tg.body
            if tg.kind == "closure":
                # (closure, tuple of arguments)
                for i in range(2, c.argc + 1):
                    if len(args) > 1 and args[1] is not None:
                        self.edge(args[1], ("L", c.d, i), "=", at)
                        self.edge(("T", args[1], i - 2), ("L", c.d, i), "=", at)
            else:
                for i, n in enumerate(args):
                    p = ("L", c.d, i + 1)
                    self.edge(n, p, "arg", at)
                    if i + 1 < len(c.locals) and mut_into(c.locals[i + 1]):
                        self.edge(p, n, "out", at)
            self.edge(("L", c.d, 0), dst, "ret", at)
            return
        if self.ext(b, bi, t, tg, args, dst):
            return
        self.ext_default(b, bi, t, tg, args, dst)

    def ext_default(self, b, bi, t, tg, args, dst):
        prog = self.prog
        at = (b, t.ln)
        path = tg.path if tg is not None else "?"
        lab = "ext:" + path
        tys = [prog.op_ty(b, a) for a in t.args]
        clos = []
        for ty in tys:
            if ty is not None:
                for c in closures_in(ty):
                    if c.d in prog.bodies:
                        clos.append(prog.bodies[c.d])
        for i, n in enumerate(args):
            if n is None:
                continue
            self.edge(n, dst, lab, at)
            for j, m in enumerate(args):
                if j != i and m is not None and tys[j] is not None and mut_into(tys[j]):
                    self.edge(n, m, lab, at)
            for c in clos:
                lo = 2 if c.kind == "closure" else 1
                for k in range(lo, c.argc + 1):
                    self.edge(n, ("L", c.d, k), lab, at)
                    if mut_into(c.locals[k]):
                        self.edge(("L", c.d, k), n, lab, at)
        for c in clos:
            self.edge(("L", c.d, 0), dst, lab, at)
            # what a closure given to a fold-like function returns comes back as its parameter
            for k in range(2, c.argc + 1):
                self.edge(("L", c.d, 0), ("L", c.d, k), lab, at)
        # a result that can be written through leads back to where it came from
        if t.dst is not None and mut_into(prog.place_ty(b, t.dst)):
            for i, n in enumerate(args):
                if n is not None and tys[i] is not None and mut_into(tys[i]):
                    self.edge(dst, n, lab, at)

    # ---- propagation ----
    def step(self, level, label, src, dst):
        return level

    def limit(self, node, level):
        return level

    def run(self, sources):
        """sources: {node: level}; computes self.level and self.why."""
        self.level = {}
        self.why = {}
        ws = []
        for n, l in sources.items():
            self.level[n] = l
            ws.append(n)
        while ws:
            n = ws.pop()
            l = self.level[n]
            for (m, lab), at in self.out.get(n, {}).items():
                k = self.step(l, lab, n, m)
                if k:
                    k = self.limit(m, k)
                if k and k > self.level.get(m, 0):
                    self.level[m] = k
                    self.why[(m, k)] = (n, l, lab, at)
                    ws.append(m)
        return self

    def trail(self, n, limit=14):
        out = []
        l = self.level.get(n)
        while (n, l) in self.why and len(out) < limit:
            p, pl, lab, at = self.why[(n, l)]
            if at is not None:
                out.append("%s (%s)" % (at[0].where(at[1]), at[0].p))
            n, l = p, pl
        out.reverse()
        r = []
        for x in out:
            if not r or r[-1] != x:
                r.append(x)
        return r
