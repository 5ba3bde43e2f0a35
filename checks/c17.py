"""Old data is read with the source archived next to it and converted; current data is not.

The load functions are followed from their entry to their successful returns.  The comparison of
the two source hashes partitions the states; at every successful return the origin of the
returned object is inspected.
"""
import absint, api
from absint import show, mk, subterms
from slicing import reaching, Slice
from terms import Typer, last, find_adt, shell
from c19 import bare, has_adt
from check_base import *

TECHNIQUE = "provenance of the returned object at every successful return, partitioned by the outcome of the hash comparison (interprocedural dataflow over MIR)"


def is_u128(t):
    t = shell(t)
    return t is not None and repr(t) == "u128"


class Loads(Slice):
    cap = 64
    max_nodes = 60000


def run(prog, ctx):
    ctx.rule("compared: whether data is converted depends on comparing the hash of the directory the data is read from with the hash of the current source")
    ctx.rule("source: where they differ, the data is interpreted with the source archived in that directory")
    ctx.rule("converted: where they differ, the returned object is the conversion of what was read to the current source")
    ctx.rule("labelled: the listing of a directory carries the hash of that very directory")
    root = find_adt(prog, "RootObject", "dochy_core")
    core = [b for b in prog.fns() if b.crate == "dochy_core" and b.eff and b.kind == "fn"]
    roots = lambda b: [i for i in range(1, b.argc + 1) if shell(b.locals[i]) is not None and shell(b.locals[i]).k == "adt" and shell(b.locals[i]).d == root]
    gives = lambda b: b.locals[0].k == "adt" and last(b.locals[0].d) == "Result" and has_adt(b.locals[0], root)
    unpack = {b.d for b in core if gives(b) and not roots(b) and b.trait is None}
    convert = {b.d for b in core if gives(b) and len(roots(b)) == 2}
    if not unpack or not convert:
        raise Anchor("the functions that unpack and convert objects were not found")
    entries = [b for b in prog.fns() if b.crate == "dochy_fs" and b.eff and b.kind == "fn" and b.trait is None and gives(b) and
               b.name.startswith("load")]
    if len(entries) < 2:
        raise Anchor("the load functions were not found")
    for b in entries:
        load(prog, ctx, b, unpack, convert)
    labelled(prog, ctx)
    ctx.floor("load functions", 2)
    ctx.floor("successful returns of old data", 2)
    ctx.floor("successful returns of current data", 2)


def load(prog, ctx, b, unpack, convert):
    keep = reaching(prog, [b], lambda tg: tg.body is not None and tg.body.d in (unpack | convert))
    try:
        e = absint.Engine(prog, Loads(keep, 3, ("dochy_fs",))).run(b)
    except absint.Budget as x:
        ctx.undecide("%s: %s" % (b.p, x))
        return
    ctx.analysed.append(b.p)
    ctx.count("load functions")
    ty = Typer(e)
    pu = {prog.bodies[d].p for d in unpack}
    pc = {prog.bodies[d].p for d in convert}
    conv = {ev.result: ev for _, ev, _ in e.events() if ev.path in pc or ev.target is not None and ev.target.body is not None and ev.target.body.d in convert}
    unp = {ev.result: ev for _, ev, _ in e.events() if ev.target is not None and ev.target.body is not None and ev.target.body.d in unpack}

    def comparisons(facts):
        out = []
        for t, f in facts.items():
            if t.op == "app" and t.a[0] == "eq" and isinstance(f, frozenset) and len(f) == 1 and \
                    any(isinstance(x, absint.T) and is_u128(ty.of(x)) for x in t.a[1:]):
                out.append((t, next(iter(f))))
        return out
    data = {"arg%d:%s" % (i, b.names.get(i, "")) for i in range(1, b.argc + 1)
            if not (shell(b.locals[i]) is not None and shell(b.locals[i]).k == "adt" and last(shell(b.locals[i]).d).endswith("Info"))}
    every = [c for n in e.nodes.values() for c in comparisons(n.state.facts)]
    for ex in e.exits:
        if ex.kind != "return" or ex.ret is None or \
                (ex.ret.op == "agg" and ex.ret.a[1] == 1) or ex.state.facts.get(ex.ret) == frozenset([1]):
            continue
        parts = list(bare(e, ex.ret))
        cv = [conv[x] for x in parts if x in conv]
        cmp = [c for c in comparisons(ex.state.facts) if any(usable(e, x, ex.ret) for x in c[0].a[1:])]
        if cmp and not any(names(e, x) & data for c, _ in cmp for x in c.a[1:]) and \
                not any(isinstance(f, frozenset) and f == frozenset([0]) and names(e, t) & data and is_label(ty.of(t))
                        for t, f in ex.state.facts.items()):
            ctx.violation("compared:" + b.p, "%s compares %s: neither comes from the data that is loaded" % (b.p, show(cmp[0][0], 6)),
                          b.where(b.line), [])
            continue
        if any(f == 0 for _, f in cmp) and any(f == 1 for _, f in cmp):
            continue            # one hash both equal and unequal to the current one
        if any(f == 0 for _, f in cmp):
            ctx.count("successful returns of old data")
            if not cv:
                ctx.violation("converted:" + b.p, "%s returns data of another source without converting it" % b.p, b.where(b.line),
                              [show(t, 4) for t, _ in cmp])
                continue
            c = [t for t, f in cmp if f == 0][0]
            for ev in cv:
                source(ctx, e, b, ev, c, unp, data)
        elif cmp:
            ctx.count("successful returns of current data")
        elif cv:
            ctx.count("successful returns, always converted")
        elif every:
            wrong = [t for t, f in comparisons(ex.state.facts)]
            if wrong:
                ctx.violation("compared:" + b.p, "%s decides by %s, which is not the hash of the directory the data is read from" %
                              (b.p, show(wrong[0], 6)), b.where(b.line), [show(t, 6) for t in wrong])
            else:
                ctx.undecide("%s: outcome of the comparison unknown at a successful return" % b.p)
        else:
            ctx.violation("compared:" + b.p, "%s never compares the hash of the data's directory with the current one" % b.p, b.where(b.line), [])


def is_label(t):
    return t is not None and t.k == "adt" and last(t.d) == "Option" and is_u128(t.a[0])


def names(e, t):
    """Parameters a term depends on."""
    return {x.a[0] for x in e.deps(t) if x.op == "sym"}


def usable(e, h, ret):
    """h is the hash the returned data's location is built from, or is read off that location."""
    if not isinstance(h, absint.T) or h.op == "const":
        return False
    deps = list(e.deps(ret))
    # directory path made from the hash
    if any(x.op in ("app", "world") and any(y is h for y in x.a if isinstance(y, absint.T)) and "hash" in str(x.a[0]) for x in deps):
        return True
    # hash read off the path: h = f(parent(path)) with the path in the returned object's history
    paths = [x for x in e.deps(h) if x.op == "app" and last(str(x.a[0])) == "parent"]
    return any(set(names(e, p)) & set(names(e, ret)) for p in paths)


def source(ctx, e, b, ev, c, unp, data):
    """The converted object was read with the archive of its own directory."""
    old = [a for i, a in enumerate(ev.args)]
    new, old = ev.args[0], ev.args[1]
    arch = [unp[x] for x in e.deps(old) if x in unp]
    if any(x in unp for x in bare(e, new)):
        ctx.violation("converted:%s:order" % b.p, "%s converts the current source to the old one" % b.p, ev.where(), ev.stack())
        return
    if not arch:
        ctx.violation("source:" + b.p, "%s interprets data of another source with the current source" % b.p, ev.where(), ev.stack())
        return
    for a in arch:
        p = a.args[0]
        hs = [x for x in c.a[1:] if isinstance(x, absint.T)]
        hs = [x for x in hs if names(e, x) & data] or hs
        if any(any(y is h for y in e.deps(p)) for h in hs):
            continue
        dirs = [x for h in hs for x in e.deps(h) if x.op == "app" and last(str(x.a[0])) == "parent"]
        if any(any(y is d for y in e.deps(p)) for d in dirs):
            continue
        ctx.violation("source:%s:archive" % b.p, "%s unpacks %s, which is not the archive next to the data" % (b.p, show(p, 6)), a.where(), a.stack())


def labelled(prog, ctx):
    """Functions that list a directory and label the listing with a hash."""
    fs = [b for b in prog.fns() if b.crate == "dochy_fs" and b.eff and b.kind == "fn" and b.trait is None and
          any(is_u128(b.locals[i]) for i in range(1, b.argc + 1)) and b.locals[0].k == "adt" and last(b.locals[0].d) == "Result" and
          b.locals[0].a and b.locals[0].a[0].k == "adt" and b.locals[0].a[0].d in prog.local_adts]
    for b in fs:
        adt = b.locals[0].a[0].d
        fields = prog.adts[adt]["v"][0]["f"]
        if not any("u128" in repr(f["t"]) for f in fields):
            continue
        keep = reaching(prog, [b], lambda tg: tg.kind == "ext" and last(tg.path) == "read_dir")
        if b.d not in keep:
            continue
        try:
            e = absint.Engine(prog, Slice(keep, 3, ("dochy_fs",))).run(b)
        except absint.Budget as x:
            ctx.undecide("%s: %s" % (b.p, x))
            continue
        ctx.analysed.append(b.p)
        ty = Typer(e)
        dirs = [ev for _, ev, _ in e.events() if last(ev.path) == "read_dir"]
        for ex in e.exits:
            if ex.kind != "return" or ex.ret is None or not (ex.ret.op == "agg" and ex.ret.a[1] == 0):
                continue
            obj = e.deep(ex.state, ex.ret.a[2])
            for i, f in enumerate(fields):
                if "u128" not in repr(f["t"]):
                    continue
                v = absint.sub(obj, (-1, i))
                if v.op == "fld":
                    vs = [absint.sub(x, (-1, i)) for x in e.flat(obj)]
                    if any(x.op == "fld" for x in vs):
                        ctx.undecide("%s: label of the listing unknown" % b.p)
                        continue
                else:
                    vs = [v]
                for v in vs:
                    ctx.count("labels")
                    h = v.a[2] if v.op == "agg" and len(v.a) > 2 else v
                    if v.op == "agg" and len(v.a) <= 2:
                        ctx.violation("labelled:" + b.p, "%s lists a directory without noting whose it is" % b.p, b.where(b.line), [])
                    elif not any(any(y is h for y in e.deps(d.args[0])) for d in dirs):
                        ctx.violation("labelled:" + b.p, "%s labels the listing with %s, which the directory is not made from" % (b.p, show(h, 4)),
                                      b.where(b.line), [])
