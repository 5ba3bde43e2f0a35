"""Effect analysis of the whole public interface.

Every public function of every crate is taken as a root of the call graph.  The operations of
the standard library that create, modify or delete something on disk are collected over all
functions reachable from it (through calls, closures, other threads and drops).  What a
function may do follows from what it is for: removals delete, saves and generators write,
everything else only reads.
"""
from cg import CallGraph
from effects import classify
import absint
from absint import subterms, show
import api

TECHNIQUE = "effect analysis over the monomorphic call graph, plus name facts at single-file deletions"

REMOVAL = ("remove", "delete", "purge", "clear_dir")
SAVING = ("save", "generate", "write_file", "export")
WHAT = {"create": "creates", "modify": "modifies", "delete": "deletes", "openopts": "opens for writing",
        "iowrite": "writes to"}


def allowed(name):
    if name.startswith(REMOVAL):
        return {"delete"}
    if name.startswith(SAVING):
        return {"create", "modify", "openopts", "iowrite"}
    return set()


def effects(cg, pred):
    for k in pred:
        i = cg.insts[k]
        for bb, tg in (i.sites or {}).items():
            if tg is not None and tg.kind == "ext":
                c = classify(tg.path)
                if c is not None and c[0] not in ("read", "ioread"):
                    yield k, i, bb, c, tg


def run(prog, ctx):
    cg = CallGraph(prog)
    ctx.rule("reading: a public function that is neither a save, a generator nor a removal reaches no operation that creates, modifies or deletes")
    ctx.rule("saving: a save or generator reaches no operation that deletes")
    ctx.rule("removing: a removal reaches no operation that creates or modifies")
    ctx.rule("system files: a deletion of one named file happens only where the name is known to differ from every system file name")
    seen = set()
    for b in prog.fns():
        if b.kind != "fn" or not b.eff:
            continue
        ctx.count("public functions")
        pred = cg.reach([cg.inst(b)])
        ok = allowed(b.name)
        some = False
        for k, i, bb, c, tg in effects(cg, pred):
            some = True
            ctx.count("writing operations reachable (function, site)")
            if c[0] in ok:
                continue
            ctx.violation("effect:%s:%s:%s" % (b.p, c[0], tg.path),
                          "%s %s something on disk (%s)" % (b.p, WHAT[c[0]], tg.path),
                          i.body.where(i.body.blocks[bb].t.ln), cg.path_to(pred, k))
        if some:
            seen.add(b.name)
            ctx.analysed.append(b.p)
        ctx.count("functions reached", len(pred))
    for n in ("save_dochy_file", "save_history_file", "remove_dochy_file", "remove_hash_dir"):
        api.pub_fn(prog, "dochy_fs", n)
        if n not in seen:
            ctx.undecide("no writing operation found below %s" % n)
    reserved(prog, ctx, cg)
    ctx.floor("public functions", 200)
    ctx.floor("writing operations reachable (function, site)", 8)


def system_names(prog, ctx):
    """Constant names of the files that preparing a directory creates."""
    out = {}
    b = api.pub_fn(prog, "dochy_fs", "save_dochy_file")
    cg = CallGraph(prog)
    for k in cg.reach([cg.inst(b)]):
        i = cg.insts[k]
        if not any(tg is not None and tg.kind == "ext" and (classify(tg.path) or ("",))[0] == "create"
                   for tg in i.sites.values()):
            continue
        if i.body.d == b.d or i.body.kind != "fn":
            continue
        e = absint.Engine(prog, Local())
        try:
            e.run(i.body)
        except absint.Budget:
            ctx.undecide("system files written by %s" % i.body.p)
            continue
        for _, ev, _ in e.events():
            c = classify(ev.path)
            if c and c[0] == "create" and c[1] != "create_dir":
                for t in subterms(ev.args[0]):
                    if t.op == "app" and t.a[0].endswith("join") and t.a[-1].op == "const" and isinstance(t.a[-1].a[1], str):
                        out[t.a[-1].a[1]] = ev.where()
    return out


class Local(absint.Client):
    """Helpers are followed only if they are small."""
    max_depth = 3

    def inline(self, eng, fr, tg):
        return tg.body is not None and len(tg.body.blocks) < 60


def reserved(prog, ctx, cg):
    names = system_names(prog, ctx)
    ctx.count("system file names", len(names))
    if not names:
        ctx.undecide("no system file names found")
    b = api.pub_fn(prog, "dochy_fs", "remove_dochy_file")
    e = absint.Engine(prog, Local())
    try:
        e.run(b)
    except absint.Budget as x:
        ctx.undecide("remove_dochy_file: %s" % x)
        return
    params = [t for t in (e.entry.state.mem.get(("L", e.root.id, n)) for n in range(1, b.argc + 1)) if t is not None]
    file_arg = params[-1]
    pred = cg.reach([cg.inst(b)])
    texts = set()
    for k in pred:
        texts |= {v for v in cg.insts[k].body.const_values() if isinstance(v, str)}
    n = 0
    for _, ev, _ in e.events():
        c = classify(ev.path)
        if not c or c[0] != "delete":
            continue
        n += 1
        ctx.count("single-file deletions (site, state)")
        about = [(t, f) for t, f in ev.facts.items() if file_arg.id in {x.id for x in subterms(t)}
                 and t.op not in ("world",)]
        for s, w in names.items():
            known = [f for t, f in about if t.op == "app" and t.a[0] in ("eq", "contains") and
                     any(x.op == "const" and x.a[1] == s for x in subterms(t))]
            if any(f == frozenset([0]) for f in known):
                continue
            if not known:
                other = [t for t, f in about if not (t.op == "app" and t.a[0] == "eq")]
                if other or (not about and s in texts):
                    ctx.undecide("remove_dochy_file: name test against %s not tracked" % s)
                    continue
            ctx.violation("system:%s" % s, "the deletion of a single file is reached although its name may be %s, a system file" % s,
                          ev.where(), ev.stack())
    if not n:
        ctx.undecide("remove_dochy_file: no deletion found")

