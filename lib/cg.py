"""Monomorphic call graph: instances of bodies and their outgoing edges.

An instance is a body plus the types of its generic parameters.  Edges carry the
call site (block index) and a kind:
  call   ordinary call
  hof    a closure or function item handed to an external function, which may
         call it during the call (iterator adaptors and the like)
  async  a closure handed to a function that runs it on another thread
  drop   a local Drop implementation run by a drop terminator
"""
from inst import subst, resolve, key, drop_impls, env_for

ASYNC = ("std::thread::spawn", "std::thread::functions::spawn", "threadpool::ThreadPool::execute",
         "rayon_core::spawn::spawn_fifo", "rayon_core::spawn_fifo", "rayon_core::spawn::spawn",
         "std::thread::Builder::spawn", "std::thread::builder::Builder::spawn")


def is_async(path):
    if path in ASYNC:
        return True
    n = path.rsplit("::", 1)[-1]
    return n in ("spawn", "spawn_fifo", "execute", "spawn_unchecked") and \
        path.split("::", 1)[0] in ("std", "rayon_core", "rayon", "threadpool")


class Inst:
    __slots__ = ("body", "env", "k", "edges", "sites", "drops")

    def __repr__(self):
        return self.body.p


class Edge:
    __slots__ = ("src", "dst", "kind", "bb", "ln", "target")


class CallGraph:
    def __init__(self, prog):
        self.prog = prog
        self.insts = {}

    def inst(self, body, env=None):
        env = env or {}
        env = {g: env[g] for g in body.generics if g in env}
        k = (body.d, tuple(sorted((n, key(t)) for n, t in env.items())))
        i = self.insts.get(k)
        if i is None:
            i = Inst()
            i.body = body; i.env = env; i.k = k; i.edges = None; i.sites = None; i.drops = None
            self.insts[k] = i
        return i

    def fn_values(self, ty, seen=None):
        """Closures and function items inside a type."""
        if seen is None:
            seen = set()
        if id(ty) in seen:
            return
        seen.add(id(ty))
        if ty.k == "closure" or ty.k == "fndef":
            yield ty
        for x in ty.a:
            yield from self.fn_values(x, seen)
        if ty.t is not None:
            yield from self.fn_values(ty.t, seen)

    def expand(self, i):
        """Fills i.sites: bb -> Target and i.edges."""
        if i.edges is not None:
            return i.edges
        prog = self.prog
        i.edges = []; i.sites = {}; i.drops = {}
        b = i.body

        def add(kind, body, env, bb, ln, target):
            e = Edge()
            e.src = i; e.dst = self.inst(body, env); e.kind = kind; e.bb = bb; e.ln = ln; e.target = target
            i.edges.append(e)

        for bi in sorted(b.reach):
            t = b.blocks[bi].t
            if t.k == "call":
                if t.callee is None:
                    fty = subst(prog.op_ty(b, t.f), i.env)
                    i.sites[bi] = None
                    continue
                tg = resolve(prog, t.callee, i.env)
                i.sites[bi] = tg
                if tg.kind in ("local", "closure"):
                    add("call", tg.body, tg.env, bi, t.ln, tg)
                elif tg.kind == "ext":
                    kind = "async" if is_async(tg.path) else "hof"
                    tys = list(tg.args)
                    for a in t.args:
                        at = prog.op_ty(b, a)
                        if at is not None:
                            tys.append(subst(at, i.env))
                    seen = set()
                    done = set()
                    for ty in tys:
                        for f in self.fn_values(ty, seen):
                            if f.d in prog.bodies and (f.d, key(f)) not in done:
                                done.add((f.d, key(f)))
                                fb = prog.bodies[f.d]
                                add(kind, fb, env_for(fb, f.g), bi, t.ln, tg)
                    # functions of local types an external generic may call back (e.g. Clone
                    # or Drop of elements) are found through the argument types
            elif t.k == "drop":
                ty = subst(t.ty, i.env)
                ds = drop_impls(prog, ty)
                if ds:
                    i.drops[bi] = ds
                    for db, e in ds:
                        add("drop", db, e, bi, t.ln, None)
        # bodies of promoted constants hold no calls
        return i.edges

    def reach(self, roots, kinds=("call", "hof", "async", "drop")):
        """Instances reachable from roots, with one predecessor edge each."""
        pred = {}
        st = []
        for r in roots:
            if r.k not in pred:
                pred[r.k] = None
                st.append(r)
        while st:
            i = st.pop()
            for e in self.expand(i):
                if e.kind in kinds and e.dst.k not in pred:
                    pred[e.dst.k] = e
                    st.append(e.dst)
        return pred

    def path_to(self, pred, k):
        out = []
        e = pred[k]
        while e is not None:
            out.append("%s -> %s (%s)" % (e.src.body.p, e.dst.body.p, e.src.body.where(e.ln)))
            e = pred[e.src.k]
        return list(reversed(out))


if __name__ == "__main__":
    import prog as P, time, collections
    p = P.load()
    t0 = time.time()
    cg = CallGraph(p)
    roots = [cg.inst(b) for b in p.fns() if b.eff and b.kind == "fn"]
    pred = cg.reach(roots)
    print(len(roots), "roots", len(pred), "instances", time.time() - t0)
    ind = collections.Counter()
    ext = collections.Counter()
    for k in pred:
        i = cg.insts[k]
        for bb, tg in i.sites.items():
            if tg is None: ind["?? " + i.body.p] += 1
            elif tg.kind in ("indirect", "dyn"): ind[tg.kind + " " + tg.path + " | " + i.body.p + " " + str(tg.self_ty)] += 1
            elif tg.kind == "ext": ext[tg.path] += 1
    for x, n in ind.most_common(): print(n, x)
    unreached = [b for b in p.fns() if not any(k[0] == b.d for k in pred)]
    print(len(unreached), "unreached")
    import sys
    if len(sys.argv) > 1:
        for x, n in sorted(ext.items()): print(n, x)
