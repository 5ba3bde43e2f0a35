"""A clone is an independent snapshot.

Parts of an object are shared between clones and copied before they are changed.  Safe code can only change them
after such a copy, so what has to be shown is that raw pointers do not get around it: a pointer made from shared data
must not be written through, clones must not take over pointers into the original, and what a clone may share must not
be changeable while shared.
"""
import re
import absint
from absint import subterms, show, RESULT, OPTION, Budget
from inst import resolve
from slicing import Slice
from perms import Perms, project, marks, S, U
from terms import last, find_adt
from templates import constants
from check_base import Anchor

TECHNIQUE = "write-permission dataflow for raw pointers over MIR (interprocedural summaries), ownership rules over types and clone implementations"
CR = "dochy_core"
CELLS = ("Cell", "RefCell", "UnsafeCell", "Mutex", "RwLock", "SyncUnsafeCell")


def parts(prog, root):
    """Types of the repository an object consists of."""
    seen, todo = set(), [root]
    while todo:
        d = todo.pop()
        if d in seen:
            continue
        seen.add(d)
        for v in prog.adts[d]["v"]:
            for f in v["f"]:
                for t in f["t"].walk():
                    if t.k == "adt" and t.d in prog.local_adts and t.d in prog.adts:
                        todo.append(t.d)
    return seen


def run(prog, ctx):
    ctx.rule("permission: no write and no mutable reference through a pointer that was made from shared data")
    ctx.rule("handle: the handle behind a mutable accessor points to data that was made unique first")
    ctx.rule("clone: no clone of a part of an object holds a pointer taken over from the original")
    ctx.rule("interior: no part of an object can be changed through a shared reference")
    ctx.rule("identity: a clone has an identity of its own")
    ctx.rule("definition: the definition is only changed while its object is being built")
    root = find_adt(prog, "RootObject", CR)
    if root is None:
        raise Anchor("the object type was not found")
    tree = parts(prog, root)
    ctx.count("types of parts", len(tree))
    ctx.analysed.extend(sorted(tree))
    pm = Perms(prog, tree, [CR])
    ctx.count("mutable accesses through pointers", pm.sinks)
    for (p, what), (b, ln, _, via) in sorted(pm.bad.items()):
        ctx.violation("permission:%s" % p, "%s: %s that was made from shared data" % (p, what), b.where(ln), ["%s line %s" % x for x in via])
    for d, sm in sorted(pm.sums.items()):
        b = prog.bodies[d]
        for (i, path), n in sorted(sm.needs.items(), key=lambda x: str(x[0])):
            t = b.locals[i]
            if b.kind == "fn" and b.eff and not path and t.k == "ref" and not t.m and t.t.k == "adt" and t.t.d in tree:
                ctx.violation("permission:%s" % b.p, "%s: %s into what it is given as shared" % (b.p, n.what), b.where(), ["%s line %s" % x for x in n.via])
    handles(prog, ctx, pm, tree)
    clones(prog, ctx, pm, tree)
    interior(prog, ctx, tree, root)
    identity(prog, ctx, root)
    definition(prog, ctx, root, tree)
    ctx.floor("types of parts", 8)
    ctx.floor("mutable accesses through pointers", 5)


def raw_fields(prog, d, tree):
    """Paths to pointers into the data within a handle type."""
    out = []
    for vi, v in enumerate(prog.adts[d]["v"]):
        for i, f in enumerate(v["f"]):
            t = f["t"]
            if t.k == "ptr" and t.t.k == "adt" and t.t.d in tree:
                out.append((-1, i))
    return out


def handles(prog, ctx, pm, tree):
    """Functions that hand out a handle for changing: those the generated accessors use for it, and whoever else
    makes a handle out of a mutable reference."""
    writes = needed(prog, pm)
    used = {}
    for b in prog.fns("dochy_intf"):
        if b.kind != "fn":
            continue
        group = []
        for ln, pieces in sorted(constants(b), key=lambda x: x[0]):
            text = "\0".join("" if p is None else p for p in pieces)
            if "pub fn" in text:
                group = [text]
            else:
                group.append(text)
            m = re.search(r"\b(root|mitem)::(\w+)\(", text)
            if m and group and "&mut self" in group[0]:
                used.setdefault((m.group(1), m.group(2)), b.where(ln))
    ctx.count("functions behind mutable accessors", len(used))
    for (mod, fn), where in sorted(used.items()):
        for b in prog.fns(CR):
            if b.kind == "fn" and b.name == fn and b.p.split("::")[-2] == mod:
                sm = pm.sums[b.d]
                for t in b.locals[0].walk():
                    if t.k == "adt" and t.d in prog.local_adts and t.d not in tree and t.d in prog.adts:
                        for f in raw_fields(prog, t.d, tree):
                            if (t.d, f) not in writes:
                                continue
                            ctx.count("handles for changing")
                            ms = marks(project(sm.ret, (f,)))
                            if S in ms:
                                ctx.violation("handle:%s::%s" % (mod, fn), "%s hands out a handle for changing that points to data that may be shared (a copy has to be made first)" % b.p, b.where(), [where])


def needed(prog, pm):
    """(handle type, field) of pointers that are written through by the methods of the handle."""
    out = set()
    for d, sm in pm.sums.items():
        b = prog.bodies[d]
        for (i, path) in sm.needs:
            t = b.locals[i].strip_refs() if i < len(b.locals) else None
            if t is not None and t.k == "adt" and t.d in prog.local_adts and len(path) == 1:
                out.add((t.d, path[0]))
    return out


def clones(prog, ctx, pm, tree):
    for b in prog.fns(CR):
        if b.kind != "fn" or b.name != "clone" or not b.self_ty or b.self_ty.k != "adt" or b.self_ty.d not in tree:
            continue
        ctx.count("clone implementations")
        try:
            e = absint.Engine(prog, Slice((), 60, (CR,))).run(b)
        except Budget:
            ctx.undecide("%s: too large" % b.p)
            continue
        for x in e.exits:
            if x.kind != "return" or x.ret is None:
                continue
            r = x.ret
            if r.op == "ptr" or r.op == "box":
                continue
            d = b.self_ty.d
            if r.op == "sym" or r.op == "agg" and r.a[0] == d:
                for vi, v in enumerate(prog.adts[d]["v"]):
                    if r.op == "agg" and r.a[1] != vi:
                        continue
                    for i, f in enumerate(v["f"]):
                        if f["t"].k == "ptr":
                            p = r.a[2 + i] if r.op == "agg" and len(r.a) > 2 + i else absint.sub(r, (-1, i))
                            ctx.count("pointers in clones")
                            if p.op == "fld" and p.a[0].op in ("sym", "fld") and any(s.op == "sym" and str(s.a[0]).startswith("arg1") for s in subterms(p)):
                                ctx.violation("clone:%s:%s" % (d, f["n"]), "%s: the clone's %s is the pointer of the original (%s)" % (b.p, f["n"], show(p, 4)), b.where())


def interior(prog, ctx, tree, root):
    n = 0
    for d in sorted(tree):
        for v in prog.adts[d]["v"]:
            for f in v["f"]:
                n += 1
                for t in f["t"].walk():
                    if t.k == "adt" and t.d not in prog.local_adts and (last(t.d) in CELLS or last(t.d).startswith("Atomic")):
                        ctx.violation("interior:%s:%s" % (d, f["n"]), "%s.%s can be changed through a shared reference (%s), also while clones share it" % (d, f["n"], last(t.d)), None)
    ctx.count("fields of parts", n)


def identity(prog, ctx, root):
    """The field that identifies an object is new in every object that is made while another one lives on."""
    weak = []
    for i, f in enumerate(prog.adts[root]["v"][0]["f"]):
        for b in prog.fns(CR):
            if b.kind == "fn" and b.argc == 1 and b.self_ty and b.self_ty.k == "adt" and b.self_ty.d == root and b.locals[0].k == "adt" and last(b.locals[0].d) == "Weak":
                if f["t"].k == "adt" and f["t"].a and b.locals[0].a and f["t"].a[0] == b.locals[0].a[0]:
                    weak.append(i)
    weak = sorted(set(weak))
    if len(weak) != 1:
        ctx.undecide("identity: which field identifies an object")
        return
    k = weak[0]
    for b in prog.fns(CR):
        if b.kind not in ("fn", "closure"):
            continue
        for i in b.reach:
            for st in b.blocks[i].s:
                if st.k == "=" and st.rv.op == "agg" and st.rv.kind == "adt" and st.rv.sub[0] == root:
                    ctx.count("objects made")
                    o = st.rv.a[k]
                    if o.k == "c":
                        continue
                    if shared(prog, b, o.pl, set()):
                        ctx.violation("identity:%s" % b.p, "%s makes an object with the identity of another one" % b.p, b.where(st.ln))


def shared(prog, b, pl, seen):
    """The value is a further owner of something behind a reference."""
    if pl.l in seen or pl.proj:
        return False
    seen.add(pl.l)
    for i in b.reach:
        bl = b.blocks[i]
        for st in bl.s:
            if st.k == "=" and not st.pl.proj and st.pl.l == pl.l and st.rv.op == "use" and st.rv.a[0].k != "c":
                if shared(prog, b, st.rv.a[0].pl, seen):
                    return True
        t = bl.t
        if t.k == "call" and not t.dst.proj and t.dst.l == pl.l:
            tg = resolve(prog, t.callee, {}) if t.callee is not None else None
            n = last(tg.path) if tg is not None and tg.path else ""
            ty = b.locals[pl.l]
            if n in ("clone", "upgrade", "clone_from_ref", "from", "into") and t.args and t.args[0].k != "c":
                aty = prog.op_ty(b, t.args[0])
                if aty is not None and aty.k == "ref" and aty.t.k == "adt" and aty.t == ty:
                    return True
            if tg is not None and tg.body is not None and tg.kind == "local" and n not in ("new",):
                c = tg.body
                if c.locals[0] == ty and any(p.k == "ref" for p in c.locals[1:c.argc + 1]) and ty.k == "adt" and last(ty.d) == "Arc":
                    from prog import Place
                    if shared(prog, c, Place(0, ()), set()):
                        return True
    return False


def definition(prog, ctx, root, tree):
    """Mutable access to a definition needs an object that is owned by the function."""
    fields = prog.adts[root]["v"][0]["f"]
    defs = set()
    for f in fields:
        for t in f["t"].walk():
            if t.k == "adt" and t.d in prog.local_adts and ("Def" in last(t.d) or "Meta" in last(t.d)):
                defs.add(t.d)
    if not defs:
        ctx.undecide("definition: which part is the definition")
        return
    for b in prog.fns(CR):
        if b.kind not in ("fn", "closure"):
            continue
        for i in b.reach:
            t = b.blocks[i].t
            if t.k != "call" or t.callee is None:
                continue
            n = last(t.callee.path or "")
            if n not in ("make_mut", "get_mut", "get_mut_unchecked") or not t.args or t.args[0].k == "c":
                continue
            ty = prog.op_ty(b, t.args[0])
            if ty is None or ty.k != "ref" or ty.t.k != "adt" or last(ty.t.d) not in ("Arc", "Rc") or not ty.t.a or ty.t.a[0].k != "adt" or ty.t.a[0].d not in defs:
                continue
            ctx.count("mutable accesses to a definition")
            if behind(b, t.args[0].pl, set()):
                ctx.violation("definition:%s" % b.p, "%s changes the definition of an object in use" % b.p, b.where(t.ln))


def behind(b, pl, seen):
    """The reference leads into something the function does not own."""
    if pl.l in seen:
        return False
    seen.add(pl.l)
    if 1 <= pl.l <= b.argc and b.locals[pl.l].k in ("ref", "ptr"):
        return True
    for i in b.reach:
        for st in b.blocks[i].s:
            if st.k == "=" and not st.pl.proj and st.pl.l == pl.l:
                src = st.rv.pl if st.rv.op in ("ref", "raw") else st.rv.a[0].pl if st.rv.op in ("use", "cast") and st.rv.a[0].k != "c" else None
                if src is None:
                    continue
                ty = b.locals[src.l]
                if any(e[0] == "*" for e in src.proj) and ty.k == "ptr":
                    return True
                if any(e[0] == "*" for e in src.proj) or st.rv.op not in ("ref", "raw"):
                    if behind(b, src, seen):
                        return True
                elif ty.k in ("ref", "ptr") and behind(b, src, seen):
                    return True
    return False
