"""Must-hold lock analysis of saves and history loads.

From every public save and history-load function all reachable file-system operations (and
writes of the shared history state) are enumerated with the set of locks that are held on
every path.  One and the same per-directory lock - a mutex stored as a value of a registry
map - must be held at each of them.  The registry must never replace or drop an entry.
"""
from cg import CallGraph
from locks import LockAnalysis
from inst import subst, key, resolve
import absint
import api

TECHNIQUE = "must-held lockset dataflow over the call graph, plus variant facts at registry insertions"

ENTRIES = ["save_dochy_file", "save_dochy_file_nb", "save_history_file", "save_history_file_nb",
           "save_history_file_nb_if_vacant", "load_history_file", "load_history_file_data"]
MAPS = ("HashMap", "BTreeMap", "LinkedHashMap", "IndexMap")
REMOVERS = ("remove", "remove_entry", "clear", "drain", "retain", "pop_first", "pop_last", "extract_if", "take")


def mutexes_in(prog, ty, seen=None):
    """Protected types of the mutexes stored inside a type (through boxes, arcs, local structs)."""
    out = set()
    seen = seen if seen is not None else set()
    k = key(ty)
    if k in seen:
        return out
    seen.add(k)
    if ty.k == "adt":
        last = ty.d.rsplit("::", 1)[-1]
        if last in ("Mutex", "RwLock"):
            out.add(ty.a[0].s)
            return out | mutexes_in(prog, ty.a[0], seen)
        a = prog.adts.get(ty.d)
        if a and ty.d.startswith("dochy"):
            env = dict(zip(a["g"], ty.a))
            for v in a["v"]:
                for f in v["f"]:
                    if f["t"] is not None:
                        out |= mutexes_in(prog, subst(f["t"], env), seen)
        else:
            for x in ty.a:
                out |= mutexes_in(prog, x, seen)
    elif ty.k in ("tuple", "array", "slice", "ref", "ptr"):
        for x in list(ty.a) + ([ty.t] if ty.t is not None else []):
            out |= mutexes_in(prog, x, seen)
    return out


def registries(prog):
    """static maps whose values contain mutexes: [(static, map type, protected types)]"""
    out = []
    for d, s in prog.statics.items():
        for t in s["t"].walk():
            if t.k == "adt" and t.d.rsplit("::", 1)[-1] in MAPS and len(t.a) >= 2:
                m = mutexes_in(prog, t.a[1])
                if m:
                    out.append((d, t, m))
    return out


def run(prog, ctx):
    cg = CallGraph(prog)
    regs = registries(prog)
    per_dir = set().union(*[m for _, _, m in regs]) if regs else set()
    ctx.rule("held: one registry lock is held, on every path, at every file-system operation reachable from the entry point")
    ctx.rule("registry: an entry (hence its lock) is inserted only on the path where none was found, never replaced or removed")
    ctx.rule("fresh lock: no entry point creates a lock of that class for itself")
    ctx.count("registries of per-directory locks", len(regs))
    for name in ENTRIES:
        b = api.pub_fn(prog, "dochy_fs", name)
        la = LockAnalysis(prog, cg)
        la.visit([cg.inst(b)])
        ctx.count("entry points")
        fs = [s for s in la.sites if s.kind == "fs" and s.what[0] != "openopts"]
        ctx.count("file-system operations (site, context)", len(fs))
        best = None
        for L in sorted(per_dir):
            bad = [s for s in fs if L not in s.must]
            if best is None or len(bad) < len(best[1]):
                best = (L, bad)
        if best is None:
            ctx.violation("nolock:%s" % name, "there is no registry of per-directory locks", b.where())
            continue
        L, bad = best
        if len(bad) == len(fs) and fs:
            ctx.violation("unlocked:%s" % name, "%s works on files without holding any per-directory lock" % name, b.where(),
                          [s.where() for s in bad[:5]])
        else:
            for s in bad:
                ctx.violation("unlocked:%s:%s:%s" % (name, s.inst.body.p, s.extra),
                              "%s is reached from %s without the directory's lock on %s being held" % (s.extra, name, L),
                              s.where(), la.trace(s.ctx))
        ctx.analysed.append("%s: lock on %s held at %d of %d operations" % (name, L, len(fs) - len(bad), len(fs)))
        # the entry must not make its own lock
        for c in la.ctxs:
            i = cg.insts[c[0]]
            for bb, tg in (i.sites or {}).items():
                if tg is not None and tg.kind == "ext" and tg.path.endswith("Mutex::new") and tg.args and \
                        tg.args[0].s in per_dir:
                    ctx.violation("fresh:%s:%s" % (name, i.body.p), "%s reaches the creation of a new lock on %s" %
                                  (name, tg.args[0].s), i.body.where(i.body.blocks[bb].t.ln), la.trace(c))
    registry_rules(prog, ctx, regs, per_dir)
    ctx.floor("registries of per-directory locks", 2)
    ctx.floor("file-system operations (site, context)", 40)
    ctx.assume("the two functions documented as unsafe test backdoors (they replace registry entries) are not used")


def registry_rules(prog, ctx, regs, per_dir):
    """Insertions only where a lookup found nothing; no removal."""
    for b in prog.fns():
        for bi in sorted(b.reach):
            t = b.blocks[bi].t
            if t.k != "call" or t.callee is None or not t.args:
                continue
            p = t.callee.path
            seg = p.split("::")
            if len(seg) < 2 or not any(m in seg[-2] or any(m == s for s in seg) for m in MAPS):
                continue
            at = prog.op_ty(b, t.args[0])
            if at is None:
                continue
            mt = at.strip_refs()
            if not (mt.k == "adt" and len(mt.a) >= 2 and mutexes_in(prog, mt.a[1])):
                continue
            n = seg[-1]
            ctx.count("registry operations")
            if n in REMOVERS:
                ctx.violation("registry-remove:%s" % b.p, "an entry with its lock is removed from the registry (%s)" % n,
                              b.where(t.ln))
            elif n == "insert":
                if root_fn(prog, b).unsafe:
                    ctx.note("unsafe backdoor %s may replace an entry" % b.p)
                    continue
                ctx.count("registry insertions")
                if guarded_by_absence(prog, b, (b.d, bi)) is False:
                    ctx.violation("registry-replace:%s" % b.p,
                                  "an entry is inserted into the registry on a path where one may already exist",
                                  b.where(t.ln))


def root_fn(prog, b):
    while b.kind == "closure" and b.parent in prog.bodies:
        b = prog.bodies[b.parent]
    return b


def callers(prog, b):
    out = []
    for c in prog.fns():
        for bi in c.reach:
            t = c.blocks[bi].t
            if t.k == "call" and t.callee is not None and (t.callee.rd or t.callee.d) == b.d:
                out.append((c, bi))
    return out


def base(t):
    while t.op == "app" and (t.a[0].startswith("mut:") or t.a[0] in ("insert", "remove", "push")):
        t = t.a[1]
    return t


class Local(absint.Client):
    """Follows functions of the crate that owns the registry, leaves others opaque."""

    def inline(self, eng, fr, tg):
        return tg.body.crate == "dochy_fs" or tg.body.crate == "models"


def guarded_by_absence(prog, b, site, depth=0):
    """At the insertion the analysis knows that a lookup in the map found nothing, in this function
    or - followed from them - in all of its (safe) callers."""
    e = absint.Engine(prog, Local())
    try:
        e.run(b)
    except absint.Budget:
        return None
    seen = bad = 0
    for _, ev, _ in e.events():
        if ev.kind == "insert" and (ev.fr.body.d, ev.bb) == site:
            seen += 1
            old = base(ev.args[0])
            if not any(t.op == "app" and t.a[0] == "get" and base(t.a[1]) is old and f == frozenset([0])
                       for t, f in ev.facts.items()):
                bad += 1
    if seen and not bad:
        return True
    if depth > 3:
        return False
    cs = [(c, i) for c, i in callers(prog, b) if not root_fn(prog, c).unsafe]
    if b.eff or not cs:
        return False
    return all(guarded_by_absence(prog, root_fn(prog, c), site, depth + 1) is not False for c, i in cs)
