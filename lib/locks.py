"""Guard liveness: which locks are held (may / must) at every call site, over the call graph."""
from inst import subst, key, resolve
import effects

GUARD_NAMES = ("MutexGuard", "RwLockReadGuard", "RwLockWriteGuard", "ReentrantMutexGuard", "ReentrantLockGuard",
               "MappedMutexGuard", "MappedRwLockReadGuard", "MappedRwLockWriteGuard", "RefMut_")


def is_wait(path):
    n = path.rsplit("::", 1)[-1]
    if path.startswith("std::path"):
        return False
    return (n in ("recv", "join", "recv_timeout", "wait", "scope") and
            path.split("::")[0] in ("std", "threadpool", "rayon_core", "crossbeam_channel")) or \
        ("mpsc::" in path and n == "next")


class Carry:
    def __init__(self, prog):
        self.prog = prog
        self.cache = {}

    def classes(self, ty):
        k = key(ty)
        r = self.cache.get(k)
        if r is None:
            self.cache[k] = frozenset()     # recursive types
            r = self.cache[k] = frozenset(self._walk(ty))
        return r

    def _walk(self, ty):
        out = set()
        if ty.k == "adt":
            if ty.d.rsplit("::", 1)[-1] in GUARD_NAMES and not ty.d.startswith("dochy"):
                out.add(ty.a[0].s if ty.a else "?")
                return out
            a = self.prog.adts.get(ty.d)
            if a and ty.d.startswith("dochy"):
                env = dict(zip(a["g"], ty.a))
                for v in a["v"]:
                    for f in v["f"]:
                        if f["t"] is not None:
                            out |= self.classes(subst(f["t"], env))
            else:
                for x in ty.a:
                    out |= self.classes(x)
        elif ty.k in ("tuple", "closure"):
            for x in ty.a:
                out |= self.classes(x)
        elif ty.k in ("array", "slice") and ty.t is not None:
            out |= self.classes(ty.t)
        return out


class Site:
    """Something that happens at a call site under a set of held locks."""
    __slots__ = ("kind", "what", "inst", "bb", "ln", "may", "must", "ctx", "extra")

    def where(self):
        return self.inst.body.where(self.ln)


class LockAnalysis:
    def __init__(self, prog, cg):
        self.prog = prog
        self.cg = cg
        self.carry = Carry(prog)
        self.flow = {}
        self.ctxs = {}      # (inst key, may, must) -> predecessor (ctx, site text)
        self.sites = []
        self.userdyn = self._user_dyn()

    def _user_dyn(self):
        """dyn Fn types that some public generic callback parameter is coerced to."""
        out = set()
        for b in self.prog.fns():
            for bi in b.reach:
                for s in b.blocks[bi].s:
                    if s.k == "=" and s.rv.op == "cast" and s.rv.ty is not None:
                        dyns = [t for t in s.rv.ty.walk() if t.k == "dyn" and t.d and t.d.startswith("core::ops::function::")]
                        if dyns:
                            src = s.rv.from_ty
                            if any(t.k == "param" for t in src.walk()):
                                out.update(t.s for t in dyns)
        return out

    def local_flow(self, i):
        """Per block: may/must sets of guard-carrying locals at its start; and a stepper."""
        f = self.flow.get(i.k)
        if f is not None:
            return f
        b = i.body
        carr = {}
        for n, t in enumerate(b.locals):
            c = self.carry.classes(subst(t, i.env))
            if c:
                carr[n] = c
        f = {"carr": carr}
        if carr:
            entry = frozenset(n for n in range(1, b.argc + 1) if n in carr)
            for mode in ("may", "must"):
                start = {0: entry}
                work = [0]
                while work:
                    bi = work.pop()
                    s = self._block_out(b, carr, bi, set(start[bi]))
                    for nb in b.blocks[bi].t.succs():
                        if nb is None or nb not in b.reach:
                            continue
                        old = start.get(nb)
                        new = frozenset(s) if old is None else (old | s if mode == "may" else old & s)
                        if old is None or new != old:
                            start[nb] = frozenset(new)
                            work.append(nb)
                f[mode] = start
        else:
            f["may"] = f["must"] = {}
        self.flow[i.k] = f
        return f

    def _uses(self, ops, carr, s):
        for o in ops:
            if o.k == "mv" and o.pl.l in carr and not any(e[0] == "*" for e in o.pl.proj):
                if o.pl.proj:
                    # a partial move takes the guard along if the moved part carries it
                    t = o.pl.proj[-1][2] if o.pl.proj[-1][0] == "f" else None
                    if t is not None and not self.carry.classes(t) and not t.k == "param":
                        continue
                s.discard(o.pl.l)

    def stmt(self, b, carr, st, s):
        if st.k == "=":
            self._uses(st.rv.a, carr, s)
            if st.pl.l in carr and not any(e[0] == "*" for e in st.pl.proj):
                # assigning a value that carries a guard
                src = [self.prog.op_ty(b, o) for o in st.rv.a]
                if st.rv.op == "agg" and st.rv.kind == "adt":
                    if any(o.k == "mv" and o.pl.l in carr for o in st.rv.a):
                        s.add(st.pl.l)
                    elif not st.pl.proj:
                        s.discard(st.pl.l)
                elif any(o.k == "mv" and (o.pl.l in carr or any(e[0] == "*" for e in o.pl.proj)) for o in st.rv.a):
                    s.add(st.pl.l)
        elif st.k == "dead":
            s.discard(st.l)

    def _block_out(self, b, carr, bi, s):
        blk = b.blocks[bi]
        for st in blk.s:
            self.stmt(b, carr, st, s)
        self.term(b, carr, blk.t, s)
        return frozenset(s)

    def term(self, b, carr, t, s):
        if t.k == "call":
            self._uses(t.args, carr, s)
            if t.dst.l in carr and not any(e[0] == "*" for e in t.dst.proj):
                s.add(t.dst.l)
        elif t.k == "drop":
            if not t.pl.proj:
                s.discard(t.pl.l)

    def visit(self, roots):
        """Explores instances with the locks held at their entry."""
        E = frozenset()
        work = []
        for r in roots:
            c = (r.k, E, E)
            if c not in self.ctxs:
                self.ctxs[c] = None
                work.append((r, c))
        while work:
            i, c = work.pop()
            for ni, nc, text in self._visit1(i, c):
                if nc not in self.ctxs:
                    self.ctxs[nc] = (c, text)
                    work.append((ni, nc))

    def trace(self, c):
        out = []
        while c is not None and self.ctxs[c] is not None:
            c, text = self.ctxs[c]
            out.append(text)
        return list(reversed(out))

    def _site(self, kind, what, i, bb, ln, may, must, c, extra=None):
        s = Site()
        s.kind = kind; s.what = what; s.inst = i; s.bb = bb; s.ln = ln; s.may = may; s.must = must; s.ctx = c
        s.extra = extra
        self.sites.append(s)

    def waits_after(self, i, bi):
        """A blocking wait is reachable from block bi inside the function."""
        b = i.body
        seen = set(); st = [bi]
        while st:
            for y in b.blocks[st.pop()].t.succs():
                if y not in seen:
                    seen.add(y); st.append(y)
        return any(i.sites.get(x) is not None and i.sites[x].kind == "ext" and is_wait(i.sites[x].path) for x in seen)

    def _visit1(self, i, c):
        self.cg.expand(i)
        b = i.body
        fl = self.local_flow(i)
        carr = fl["carr"]
        edges = {}
        for e in i.edges:
            edges.setdefault(e.bb, []).append(e)
        out = []
        for bi in sorted(b.reach):
            t = b.blocks[bi].t
            if t.k not in ("call", "drop"):
                continue
            if carr:
                may = set(fl["may"].get(bi, ()))
                must = set(fl["must"].get(bi, ()))
                for st in b.blocks[bi].s:
                    self.stmt(b, carr, st, may)
                    self.stmt(b, carr, st, must)
                hm = c[1].union(*[carr[n] for n in may]) if may else c[1]
                hM = c[2].union(*[carr[n] for n in must]) if must else c[2]
            else:
                hm, hM = c[1], c[2]
            if t.k == "call":
                # guards passed by value are the callee's from here on: still held
                tg = i.sites.get(bi)
                if tg is None:
                    fty = self.prog.op_ty(b, t.f)
                    self._site("indirect", str(fty), i, bi, t.ln, hm, hM, c)
                elif tg.kind in ("indirect",):
                    st = tg.self_ty
                    while st.k == "ref" or (st.k == "adt" and st.d == "alloc::boxed::Box"):
                        st = st.t if st.k == "ref" else st.a[0]
                    user = st.k == "param" or (st.k == "dyn" and st.s in self.userdyn)
                    self._site("usercall" if user else "indirect", st.s, i, bi, t.ln, hm, hM, c)
                elif tg.kind == "ext":
                    dst_ty = subst(self.prog.place_ty(b, t.dst), i.env)
                    dc = self.carry.classes(dst_ty)
                    ac = set()
                    for a in t.args:
                        at = self.prog.op_ty(b, a)
                        if at is not None:
                            ac |= self.carry.classes(subst(at, i.env))
                    for cl in dc - ac:
                        self._site("try" if "try_" in tg.path else "acquire", cl, i, bi, t.ln, hm, hM, c)
                    if ac and tg.path in ("core::mem::forget", "std::mem::forget", "alloc::boxed::Box::leak",
                                          "core::mem::manually_drop::ManuallyDrop::new"):
                        self._site("leak", ",".join(sorted(ac)), i, bi, t.ln, hm, hM, c)
                    eff = effects.classify(tg.path)
                    if eff:
                        self._site("fs", eff, i, bi, t.ln, hm, hM, c, tg.path)
                    if is_wait(tg.path):
                        self._site("wait", tg.path, i, bi, t.ln, hm, hM, c)
            for e in edges.get(bi, ()):
                if e.kind == "async":
                    # a thread whose result the spawning function waits for works on its behalf
                    nc = (e.dst.k, frozenset(), hM if hM and self.waits_after(i, bi) else frozenset())
                else:
                    nm, nM = hm, hM
                    nc = (e.dst.k, frozenset(nm), frozenset(nM))
                out.append((e.dst, nc, "%s calls %s (%s)%s" % (b.p, e.dst.body.p, b.where(e.ln),
                                                              " on another thread" if e.kind == "async" else "")))
        return out
