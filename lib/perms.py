"""Write permission of raw pointers.

A pointer or reference is shared (S) when it leads into reference-counted data, or was read out
of data reached that way; unique (U) when it comes from a mutable reference or from owned data;
and otherwise as its source is: a field of a parameter, ("P", parameter, path).  Writing through
a raw pointer, or making a mutable reference from it, needs it to be unique.  What a function
needs of its parameters is passed on to its callers; what a public function needs of a parameter
that is a shared reference cannot be had.

Values are maps from field paths to sets of such marks.  Paths have the fields of the
repository's types, tuples and closures; references, options and other library types are
transparent.  The types that make up the data itself (`tree`) are no handles: a pointer read out
of them has the permission of the access.
"""
from inst import resolve
from terms import last

S, U = "S", "U"
DEPTH = 4
WRITERS = ("as_mut", "write", "replace", "swap", "copy_from", "copy_to", "write_bytes", "drop_in_place", "get_mut_unchecked", "as_mut_unchecked")


def add(v, path, marks):
    """Adds marks; true if something is new."""
    old = v.get(path, frozenset())
    new = old | frozenset(marks)
    if new != old and len(path) <= DEPTH:
        v[path] = new
        return True
    return False


def project(v, path):
    out = {}
    for q, m in v.items():
        if q[:len(path)] == path:
            add(out, q[len(path):], m)
        elif path[:len(q)] == q:
            rest = path[len(q):]
            add(out, (), {(x[0], x[1], x[2] + rest) if isinstance(x, tuple) else x for x in m if not isinstance(x, tuple) or len(x[2]) + len(rest) <= DEPTH})
    return out


def marks(v):
    """Marks of a pointer value."""
    return v.get((), frozenset())


class Need:
    """A parameter's pointer that has to be unique, with the way to the place that needs it."""

    def __init__(self, where, what, via):
        self.where, self.what, self.via = where, what, via


class Summary:
    def __init__(self):
        self.ret = {}
        self.needs = {}         # (parameter, path) -> Need
        self.outs = {}          # parameter -> value stored behind it


class Perms:
    def __init__(self, prog, tree, crates):
        self.prog, self.tree, self.crates = prog, tree, set(crates)
        self.sums = {}
        self.memo = {}
        self.work = [b for b in prog.fns() if b.crate in self.crates and b.kind in ("fn", "closure")]
        self.bad = {}           # key -> (body, line, text, via)
        self.sinks = 0
        self.solve()

    def carries(self, ty):
        """A value of the type can hold a pointer that is no part of the data."""
        if ty is None:
            return True
        k = str(ty)
        if k not in self.memo:
            self.memo[k] = self.holds(ty, set())
        return self.memo[k]

    def handle(self, ty):
        """A value of the type is, or holds, a handle."""
        if ty is None:
            return True
        k = ("h", str(ty))
        if k not in self.memo:
            t = ty.strip_refs()
            self.memo[k] = t.k in ("param", "closure", "tuple", "dyn") or t.k == "adt" and t.d not in self.tree and (t.d not in self.prog.local_adts or self.holds(t, set())) and any(x.k in ("param", "closure", "ptr", "ref") or x.k == "adt" and x.d in self.prog.local_adts and x.d not in self.tree for x in t.walk())
        return self.memo[k]

    def holds(self, ty, seen):
        for t in ty.walk():
            if t.k in ("ref", "ptr", "param", "closure", "fndef", "dyn", "alias", "opaque"):
                return True
            if t.k == "adt" and t.d in self.prog.local_adts and t.d not in self.tree and t.d not in seen and t.d in self.prog.adts:
                seen.add(t.d)
                if any(self.holds(f["t"], seen) for v in self.prog.adts[t.d]["v"] for f in v["f"]):
                    return True
        return False

    def solve(self):
        for b in self.work:
            self.sums[b.d] = Summary()
        deps, todo, on = {}, list(self.work), {b.d for b in self.work}
        self.deps = deps
        n = 0
        while todo:
            b = todo.pop()
            on.discard(b.d)
            n += 1
            if n > 60000:
                raise RuntimeError("no fixpoint")
            if Body(self, b).run():
                for c in deps.get(b.d, ()):
                    if c not in on:
                        on.add(c)
                        todo.append(self.prog.bodies[c])


class Body:
    def __init__(self, pm, b):
        self.pm, self.prog, self.b = pm, pm.prog, b
        self.env = {}
        self.refs = {}
        for i in range(1, b.argc + 1):
            if not pm.carries(b.locals[i]):
                continue
            self.env[i] = {(): frozenset([("P", i, ())])}
        self.s = pm.sums[b.d]
        self.changed = False

    # ---- places

    def access(self, pl):
        """(field path within the local, permission of the access or None, type) of a place."""
        b = self.b
        ty, path, perm, vi, base = b.locals[pl.l], (), None, -1, pl.l
        over = None             # value read through a raw pointer to a handle: not followed
        for e in pl.proj:
            if e[0] == "*":
                if ty is None:
                    return path, perm, None
                if ty.k == "ref":
                    if not ty.m:
                        perm = self.pointer(pl.l, path, perm)
                    elif perm is None or path is not None:
                        perm = frozenset([U])
                    ty = ty.t
                elif ty.k == "ptr":
                    perm = self.pointer(pl.l, path, perm)
                    ty = ty.t
                elif ty.k == "adt" and ty.a:
                    ty = ty.a[0]
                else:
                    ty = None
            elif e[0] == "v":
                vi = e[1]
            elif e[0] == "f":
                if ty is not None and ty.k == "adt" and ty.d in self.prog.local_adts:
                    if ty.d in self.pm.tree:
                        path = None
                    elif path is not None:
                        path += ((vi, e[1]),)
                elif ty is not None and ty.k in ("tuple", "closure"):
                    if path is not None:
                        path += ((-1, e[1]),)
                ty = e[2]
                vi = -1
            elif e[0] in ("i", "c"):
                ty = ty.t if ty is not None and ty.t is not None else None
        return path, perm, ty

    def pointer(self, l, path, perm):
        """Marks of a raw pointer found at a path of a local."""
        if path is None:
            return perm if perm is not None else frozenset([U])
        return marks(project(self.env.get(l, {}), path)) or frozenset([U])

    def value(self, pl):
        path, perm, ty = self.access(pl)
        if path is None:
            # read out of the data itself
            if ty is not None and self.pm.carries(ty):
                return {(): perm if perm is not None else frozenset([U])}
            return {}
        return project(self.env.get(pl.l, {}), path)

    def opval(self, o):
        return self.value(o.pl) if o.k != "c" else {}

    def put(self, pl, v, seen=()):
        path, _, ty = self.access(pl)
        if path is None or not v or not self.pm.carries(ty):
            return
        self.store(pl.l, path, v, seen)

    def store(self, l, path, v, seen=()):
        d = self.env.setdefault(l, {})
        for q, m in v.items():
            if add(d, (path + q)[:DEPTH], m):
                self.changed = True
        for t in self.refs.get(l, ()):
            if t not in seen:
                self.store(t[0], t[1] + path, v, seen + (t,))

    # ---- statements

    def run(self):
        before = self.snapshot()
        b = self.b
        for _ in range(12):
            self.changed = False
            for i in b.reach:
                bl = b.blocks[i]
                for st in bl.s:
                    if st.k == "=":
                        self.stmt(st)
                if bl.t.k == "call":
                    self.call(bl.t)
            if not self.changed:
                break
        for q, m in self.env.get(0, {}).items():
            add(self.s.ret, q, m)
        for i in range(1, b.argc + 1):
            for q, m in self.env.get(i, {}).items():
                m = m - {("P", i, q)}
                if m:
                    add(self.s.outs.setdefault(i, {}), q, m)
        return self.snapshot() != before

    def snapshot(self):
        s = self.s
        return (tuple(sorted((str(k), tuple(sorted(map(str, v)))) for k, v in s.ret.items())), tuple(sorted(map(str, s.needs))),
                tuple(sorted((i, tuple(sorted((str(k), tuple(sorted(map(str, v)))) for k, v in o.items()))) for i, o in s.outs.items())))

    def raw_on(self, pl):
        """Marks of the last raw pointer a place goes through, if any."""
        b = self.b
        ty, out = b.locals[pl.l], None
        for k, e in enumerate(pl.proj):
            if e[0] == "*":
                if ty is not None and ty.k == "ptr":
                    sub = type(pl)(pl.l, pl.proj[:k]) if not hasattr(pl, "_replace") else pl._replace(proj=pl.proj[:k])
                    path, perm, _ = self.access(sub)
                    out = self.pointer(pl.l, path, perm)
                    ty = ty.t
                elif ty is not None and ty.k == "ref":
                    out = None
                    ty = ty.t
                else:
                    ty = ty.a[0] if ty is not None and ty.a else None
            elif e[0] == "f":
                ty = e[2]
            elif e[0] in ("i", "c"):
                ty = ty.t if ty is not None and ty.t is not None else None
        return out

    def need(self, ms, ln, what, via=()):
        """A pointer has to be unique here."""
        b = self.b
        for m in ms:
            if m == S:
                key = (b.p, what)
                self.pm.bad.setdefault(key, (b, ln, what, via))
            elif isinstance(m, tuple):
                self.s.needs.setdefault((m[1], m[2]), Need(b.where(ln), what, ((b.p, ln),) + tuple(via)))

    def stmt(self, st):
        rv = st.rv
        ln = st.ln
        r = self.raw_on(st.pl)
        if r is not None:
            self.need(r, ln, "a write through a pointer")
        if rv.op == "use" or rv.op == "rep":
            for o in rv.a:
                self.put(st.pl, self.opval(o))
        elif rv.op in ("ref", "raw"):
            r = self.raw_on(rv.pl)
            if rv.op == "ref" and rv.mut and r is not None:
                self.pm.sinks += 1
                self.need(r, ln, "a mutable reference made from a pointer")
            path, perm, ty = self.access(rv.pl)
            if rv.op == "raw":
                p = perm if perm is not None else frozenset([U])
                if r is not None:
                    p = r
                self.put(st.pl, {(): p})
            else:
                v = self.value(rv.pl)
                if rv.mut:
                    v = dict(v)
                    v[()] = frozenset(x for x in v.get((), ()) if x != S) | frozenset([U] if not v else [])
                elif perm is not None and (path is None or not self.pm.handle(ty)):
                    v = {(): perm}
                elif not v:
                    v = {(): frozenset([U])}
                self.put(st.pl, v)
                if path is not None and not st.pl.proj:
                    s = self.refs.setdefault(st.pl.l, set())
                    if (rv.pl.l, path) not in s and rv.pl.l != st.pl.l:
                        s.add((rv.pl.l, path))
        elif rv.op == "cast":
            o = rv.a[0]
            f = rv.from_ty or (self.prog.op_ty(self.b, o) if o.k != "c" else None)
            t = rv.ty
            if f is not None and f.k == "ref" and f.m and t is not None and t.k == "ptr":
                self.put(st.pl, {(): frozenset([U])})
            elif f is not None and f.k == "ref" and not f.m and t is not None and t.k == "ref" and t.m:
                self.need([S], ln, "a shared reference turned into a mutable one")
            else:
                self.put(st.pl, self.opval(o))
        elif rv.op == "agg":
            tree = rv.kind == "adt" and rv.sub[0] in self.pm.tree
            local = rv.kind == "adt" and rv.sub[0] in self.prog.local_adts
            for i, o in enumerate(rv.a):
                v = self.opval(o)
                if tree:
                    continue
                if local:
                    n = len(self.prog.adts[rv.sub[0]]["v"]) if rv.sub[0] in self.prog.adts else 1
                    pre = ((rv.sub[1] if self.enum(rv.sub[0]) else -1, i),)
                elif rv.kind in ("tuple", "closure"):
                    pre = ((-1, i),)
                else:
                    pre = ()
                path, _, _ = self.access(st.pl)
                if path is not None:
                    self.store(st.pl.l, path + pre, v)
                if rv.kind == "closure" and not st.pl.proj and o.k != "c":
                    for t in self.refs.get(o.pl.l, ()):
                        pass

    def enum(self, d):
        return len(self.prog.adts[d]["v"]) > 1

    # ---- calls

    def typed(self, ty):
        """Value of a parameter of which only the type is known."""
        return {}

    def apply(self, sm, args, ln, callee):
        """Effect of a summary for the given argument values; the value returned."""
        for (i, path), n in list(sm.needs.items()):
            v = args.get(i)
            if v is None:
                continue
            self.need(marks(project(v, path)), ln, n.what, n.via)
        out = {}
        for q, m in sm.ret.items():
            self.subst(out, q, m, args)
        return out

    def subst(self, out, q, m, args):
        for x in m:
            if isinstance(x, tuple):
                for r, mm in project(args.get(x[1], {}), x[2]).items():
                    add(out, (q + r)[:DEPTH], mm)
            else:
                add(out, q, [x])

    def call(self, t):
        prog, pm = self.prog, self.pm
        vals = [self.opval(a) for a in t.args]
        tys = [prog.op_ty(self.b, a) for a in t.args]
        tg = resolve(prog, t.callee, {}) if t.callee is not None else None
        name = last(tg.path) if tg is not None and tg.path else ""
        if tg is not None and tg.kind == "ctor":
            adt, vi = t.callee.adt, t.callee.vi
            pre = (lambda i: ()) if adt not in prog.local_adts else (lambda i: ((vi if self.enum(adt) else -1, i),))
            if adt not in pm.tree:
                path, _, _ = self.access(t.dst)
                if path is not None:
                    for i, v in enumerate(vals):
                        self.store(t.dst.l, path + pre(i), v)
            return
        if tg is not None and tg.body is not None and tg.body.d in pm.sums:
            c = tg.body
            pm.deps.setdefault(c.d, set()).add(self.b.d)
            args = {i + 1: v for i, v in enumerate(vals)}
            if tg.kind == "closure" and len(vals) > 1:
                args = {1: vals[0]}
                for i in range(2, c.argc + 1):
                    args[i] = project(vals[1], ((-1, i - 2),))
            sm = pm.sums[c.d]
            self.put(t.dst, self.apply(sm, args, t.ln, c))
            for i, o in sm.outs.items():
                if i in args and i <= len(t.args) and t.args[i - 1].k != "c":
                    out = {}
                    for q, m in o.items():
                        self.subst(out, q, m, args)
                    self.put(t.args[i - 1].pl, out)
            return
        # functions outside: what goes in may come out
        if name in WRITERS or name == "transmute":
            for ty, v in zip(tys, vals):
                if ty is not None and ty.k == "ptr" and (ty.m or name == "as_mut"):
                    pm.sinks += 1
                    self.need(marks(v), t.ln, "%s through a pointer" % name)
                    break
        rty = self.b.locals[t.dst.l] if not t.dst.proj else prog.place_ty(self.b, t.dst)
        if name == "transmute" and tys and tys[0] is not None and tys[0].k == "ref" and not tys[0].m and rty is not None and rty.k == "ref" and rty.m:
            self.need([S], t.ln, "a shared reference turned into a mutable one")
        if name == "get_mut_unchecked":
            self.need([S], t.ln, "a mutable reference to shared data")
        out = {}
        clos = []
        for ty, v in zip(tys, vals):
            if ty is None:
                continue
            for c in ty.walk():
                if c.k in ("closure", "fndef") and c.d in pm.sums:
                    clos.append((prog.bodies[c.d], v))
        rest = {}
        for ty, v in zip(tys, vals):
            if ty is not None and not any(c.k in ("closure", "fndef") for c in ty.walk()):
                for q, m in v.items():
                    add(rest, q, m)
        for c, v in clos:
            pm.deps.setdefault(c.d, set()).add(self.b.d)
            lo = 2 if c.kind == "closure" else 1
            args = {i: rest for i in range(lo, c.argc + 1)}
            if c.kind == "closure":
                args[1] = v
            for q, m in self.apply(pm.sums[c.d], args, t.ln, c).items():
                add(out, q, m)
        if not clos or name not in ("map", "and_then", "map_or", "map_or_else"):
            for q, m in rest.items():
                add(out, q, m)
        if rty is not None:
            arc = [ty for ty in tys if ty is not None and ty.k == "ref" and ty.t.k == "adt" and last(ty.t.d) in ("Arc", "Rc")]
            if arc and (rty.k == "ref" and not rty.m or rty.k == "ptr" and not rty.m) and rty.t is not None and arc[0].t.a and rty.t == arc[0].t.a[0]:
                out = {(): frozenset([S])}
            elif rty.k == "ref" and rty.m:
                out[()] = frozenset([U])
            elif rty.k in ("ref", "ptr") and () not in out:
                out[()] = frozenset([U])
        self.put(t.dst, out)
