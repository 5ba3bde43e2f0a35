"""Lock-order and callback analysis.

Guard liveness is computed by dataflow in every function instance and pushed through the
call graph (context: the set of locks held at entry).  Every blocking acquisition adds an
edge from each lock that may be held to the acquired one.
"""
TECHNIQUE = "interprocedural guard-liveness dataflow and lock-order graph over MIR"

from cg import CallGraph
from locks import LockAnalysis
import api


def run(prog, ctx):
    cg = CallGraph(prog)
    la = LockAnalysis(prog, cg)
    roots = [cg.inst(b) for b in prog.fns() if b.kind == "fn" and b.eff]
    la.visit(roots)
    ctx.rule("lock-order: the graph 'acquired while held' over lock classes is acyclic, without self edges")
    ctx.rule("callback: no call of a caller-supplied closure is reached with a lock that may be held")
    ctx.rule("wait: no lock is held at a blocking wait for threads that acquire it")
    ctx.rule("leak: no guard is leaked; no guard is handed to the caller of a public function")
    ctx.count("public functions", len(roots))
    ctx.count("function contexts", len(la.ctxs))
    edges = {}
    for s in la.sites:
        if s.kind == "acquire":
            ctx.count("acquisitions (site, context)")
            for h in s.may:
                edges.setdefault((h, s.what), s)
            if s.what in s.may:
                ctx.violation("reacquire:%s:%s" % (s.inst.body.p, s.what),
                              "a lock on %s is acquired while one may already be held" % s.what, s.where(), la.trace(s.ctx))
        elif s.kind == "usercall":
            ctx.count("callback calls (site, context)")
            if s.may:
                ctx.violation("callback:%s" % s.inst.body.p,
                              "caller-supplied closure (%s) is called while holding the lock on %s" %
                              (s.what, ", ".join(sorted(s.may))), s.where(), la.trace(s.ctx))
        elif s.kind == "leak":
            ctx.violation("leak:%s" % s.inst.body.p, "the guard of the lock on %s is leaked" % s.what, s.where(),
                          la.trace(s.ctx))
    classes = sorted({x for e in edges for x in e} | {s.what for s in la.sites if s.kind == "acquire"})
    ctx.count("lock classes", len(classes))
    ctx.count("lock-order edges", len(edges))
    ctx.analysed = ["%s -> %s at %s" % (a, b, s.where()) for (a, b), s in sorted(edges.items(), key=lambda x: x[0])]
    succ = {}
    for a, b in edges:
        if a != b:
            succ.setdefault(a, set()).add(b)

    def reach(a):
        seen = set(); st = [a]
        while st:
            x = st.pop()
            for y in succ.get(x, ()):
                if y not in seen:
                    seen.add(y); st.append(y)
        return seen
    for (a, b), s in sorted(edges.items(), key=lambda x: x[0]):
        if a != b and a in reach(b):
            ctx.violation("order:%s:%s" % tuple(sorted((a, b))),
                          "locks on %s and %s are acquired in both orders" % (a, b), s.where(), la.trace(s.ctx))
    # waits
    acq = {}

    def acquired(k):
        """Locks acquired by an instance on its own thread."""
        if k not in acq:
            acq[k] = {s.what for s in la.sites if s.kind == "acquire" and s.inst.k == k}
        return acq[k]
    for s in la.sites:
        if s.kind != "wait":
            continue
        ctx.count("blocking waits (site, context)")
        if not s.may:
            continue
        pool = s.what.startswith("threadpool")
        roots2 = [s.inst] if not pool else [cg.insts[k] for k in {c[0] for c in la.ctxs}]
        # threads started by the waiting function, its callees or its callers' callees
        seen = cg.reach(roots2 + callers_chain(la, cg, s.ctx))
        spawned = []
        for k in seen:
            for e in cg.expand(cg.insts[k]):
                if e.kind == "async":
                    spawned.append(e.dst)
        for k in cg.reach(spawned):
            hit = acquired(k) & s.may
            if hit:
                ctx.violation("wait:%s:%s" % (s.inst.body.p, ",".join(sorted(hit))),
                              "waits for another thread (%s) while holding the lock on %s, which that thread acquires in %s"
                              % (s.what, ", ".join(sorted(hit)), cg.insts[k].body.p), s.where(), la.trace(s.ctx))
    for b in prog.fns():
        if b.kind == "fn" and b.eff:
            c = la.carry.classes(b.locals[0])
            if c:
                ctx.violation("escape:%s" % b.p, "public function returns a guard of the lock on %s" % ", ".join(sorted(c)),
                              b.where())
    ctx.floor("lock classes", 4)
    ctx.floor("callback calls (site, context)", 2)
    ctx.assume("locks are told apart by the type they protect")
    ctx.assume("external crates do not take the library's locks and call back only closures handed to them")


def callers_chain(la, cg, c):
    """Callers that hold a lock on the way to a context."""
    out = []
    while c is not None and la.ctxs[c] is not None:
        if c[1]:
            out.append(cg.insts[c[0]])
        c = la.ctxs[c][0]
    return out
