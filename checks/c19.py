"""Validation: performed on request, and complete.

performed - the functions that parse, unpack or convert an object and have a validation switch
            are followed; at every successful return for which the switch may be on, the
            returned object must have passed the validator on the way.
passed    - functions of the other layers with a validation switch hand their own switch (or
            "on") to every such function that makes the object they return.
complete  - the validator, with the functions it calls, covers its argument: type-directed
            coverage over the abstract graphs (lib/walk.py).
"""
from cg import CallGraph
import absint
from absint import show, subterms, mk, TRUE, FALSE
from slicing import reaching, Slice
from terms import shell, last, find_adt, variants, Typer
from walk import Walk, known
from c05 import ignored
from check_base import *

TECHNIQUE = "typestate of the returned object (validated or not) and type-directed coverage of the validator, over MIR dataflow"


def is_result_of(ty, inner):
    return ty.k == "adt" and last(ty.d) == "Result" and ty.a and inner(ty.a[0])


def has_adt(ty, d):
    ty = shell(ty)
    if ty is None:
        return False
    if ty.k == "adt":
        return ty.d == d or any(has_adt(x, d) for x in ty.a)
    return ty.k == "tuple" and any(has_adt(x, d) for x in ty.a)


def is_bool(ty):
    return repr(ty) == "bool"


def switch(b):
    """Index of the validation switch of a function."""
    bs = [i for i in range(1, b.argc + 1) if is_bool(b.locals[i])]
    named = [i for i in bs if "valid" in (b.names.get(i) or "")]
    if len(named) == 1:
        return named[0]
    return None


def one_root_and_bools(b, root):
    a = b.locals[1:1 + b.argc]
    r = [x for x in a if shell(x) is not None and shell(x).k == "adt" and shell(x).d == root]
    return len(r) == 1 and len(a) == 1 + sum(1 for x in a if is_bool(x))


class Cover(Walk):
    def __init__(self, prog, crates):
        Walk.__init__(self, prog, crates)
        self.agreed = {}
        self.byname = {b.p: b for b in prog.fns() if b.crate in crates and b.argc == 2 and is_bool(b.locals[0])}
        self.defs = {find_adt(prog, n, "dochy_core") for n in ("RootValue", "ListDefValue")}

    def family(self, b):
        t = b.locals[0]
        return t.k == "adt" and last(t.d) == "Result" or t.k == "adt" and last(t.d) == "Option" and "Err" in repr(t)

    def leaf(self, n, vi):
        if vi is None:
            if n == "RefSabValue":
                return "ref"
            if n == "HashSet":
                return "names"
            if n in ("RustParam", "MetaTable", "MetaTables", "VarType", "Names"):
                return "skip"
            return None
        if n in ("RootSabValue", "ListSabValue") and self.is_param(n, vi):
            return "param"
        if n in ("RootValue", "ListDefValue") and self.is_param(n, vi):
            return "skip"
        return None

    def is_param(self, n, vi):
        d = find_adt(self.prog, n, "dochy_core")
        v = self.prog.adts[d]["v"][vi]
        return bool(v["f"]) and "RustParam" in repr(v["f"][0]["t"])

    def tested(self, G, start, done, x, restr):
        """Facts that a test mentioning x came out the way that lets the round complete, when the other
        way does not."""
        keys = {}
        for a, evs, b in G.e.edges:
            if b is None:
                continue
            for t, f in evs.facts.items():
                if t.op != "discr" and isinstance(f, frozenset) and len(f) == 1 and t.op == "app" and \
                        any(y is x for y in subterms(t)):
                    keys.setdefault((t, next(iter(f))), []).append(b.num if not hasattr(b, "ret") else None)
        good = []
        for (t, p) in keys:
            other = [n for (u, q), ns in keys.items() if u is t and q != p for n in ns if n is not None]
            if other and self.explore(G, set(other), done, restr + ((t, 1 - p),)) is None:
                good.append((t, p))
        return good

    def implied(self, G, x, vi):
        """A test that compares x with its definition: what passing it says of the definition's kind."""
        out = []
        for a, evs, b in G.e.edges:
            for t in evs.facts:
                if t.op == "app" and len(t.a) == 3 and t.a[0] in self.byname:
                    f = self.byname[t.a[0]]
                    for d, v, swap in ((t.a[1], t.a[2], False), (t.a[2], t.a[1], True)):
                        if v is x and G.ty.adt(d) in self.defs:
                            k = self.agree(f, swap).get(vi)
                            if k is not None and (d, k) not in out:
                                out.append((d, k))
        return tuple(out)

    def agree(self, b, swap):
        """variant of the value -> the only variant of the definition for which the test can pass"""
        key = (b.d, swap)
        if key not in self.agreed:
            self.agreed[key] = {}

            class Fine(absint.Client):
                cap = 4000
            try:
                e = absint.Engine(self.prog, Fine()).run(b)
            except absint.Budget:
                return {}
            d, v = [mk("sym", "arg%d:%s" % (i, b.names.get(i, ""))) for i in ((2, 1) if swap else (1, 2))]
            got = {}
            for ex in e.exits:
                if ex.kind == "return" and ex.ret is not FALSE:
                    n = len(self.prog.adts[shell(b.locals[1 if swap else 2]).d]["v"])
                    for vi in known(ex.state.facts, v) or range(n):
                        got.setdefault(vi, set()).update(known(ex.state.facts, d) or (-1, -2))
            self.agreed[key] = {vi: next(iter(k)) for vi, k in got.items() if len(k) == 1}
        return self.agreed[key]

    def names_ok(self, G, start, done, x, restr):
        """Names marked as old: each one is looked up."""
        good = []
        for e, (src, nodes) in G.iters.items():
            if not any(y is x for y in G.e.deps(src)):
                continue

            def looked(f):
                return any(t.op == "app" and t.a[0] == "get" and v == frozenset([1]) and any(y is e for y in subterms(t.a[2]))
                           for t, v in f.items())
            if self.explore(G, nodes, e, (), None, looked) is None:
                good.append(e)
        if self.explore(G, start, done, restr, lambda ev: ev.kind == "iter-end" and any(ev.result is e for e in good)) is not None:
            return "the names marked as old are not all looked up"
        return None

    def leaf_ok(self, G, start, done, x, ty, restr, kind, vi):
        stop = self.leaf_stop(G, x, ty, kind, vi)
        if self.explore(G, start, done, restr, stop) is None:
            return None
        if kind == "names":
            return self.names_ok(G, start, done, x, restr)
        if kind == "row":
            def looked(f):
                return any(t.op == "app" and t.a[0] == "get" and v == frozenset([1]) and any(y is x for y in subterms(t.a[2]))
                           for t, v in f.items())
            if self.explore(G, start, done, restr, stop, looked) is not None:
                return "the row a reference names is not looked up on some path"
            return None
        good = self.tested(G, start, done, x, restr)
        if self.explore(G, start, done, restr, stop, lambda f: any(f.get(t) == frozenset([p]) for t, p in good)) is not None:
            return "the value is not tested on some path"
        if kind == "ref":
            qv = mk("fld", x, -1, 0)
            a = find_adt(self.prog, "Qv", "dochy_core")
            k = [i for i, v in enumerate(self.prog.adts[a]["v"]) if v["f"]][0]
            return self.leaf_ok(G, start, done, mk("fld", qv, k, 0), None, restr + ((qv, k),), "row", None)
        return None


class Marks(Slice):
    cap = 64

    def __init__(self, keep, validators):
        Slice.__init__(self, keep, 3, ("dochy_core",))
        self.validators = validators

    def inline(self, eng, fr, tg):
        return not (tg.body is not None and tg.body.d in self.validators) and Slice.inline(self, eng, fr, tg)

    def call(self, eng, s, fr, bi, t, tg, args):
        i = self.validators.get(tg.body.d) if tg.body is not None else None
        if i is None:
            return None
        s2, res, ev = eng.opaque_result(s, fr, bi, t, tg, "local", tg.path, args)
        obj = eng.deep(s, args[i - 1])
        ok, err = s2.copy(), s2.copy()
        ok.facts[res] = frozenset([0])
        err.facts[res] = frozenset([1])
        ok.tags = ok.tags | {("valid", obj)}
        return [(ok, res, ev), (err, res)]


CUT = ("take", "skip", "step_by", "nth", "last", "take_while", "skip_while", "map_while")


def run(prog, ctx):
    ctx.rule("performed: at every successful return with the switch on, the returned object has passed the validator")
    ctx.rule("passed: functions with a switch in other layers pass it on to every unpacking or converting function they reach")
    ctx.rule("complete: every way through the validator (and through each round of its loops) deals with every part of the object")
    ctx.rule("whole: no validation function goes through only a part of a collection")
    root = find_adt(prog, "RootObject", "dochy_core")
    cand = [b for b in prog.fns() if b.crate == "dochy_core" and b.kind == "fn" and one_root_and_bools(b, root) and
            b.trait is None and is_result_of(b.locals[0], lambda x: x.k == "tuple" and not x.a)]
    makers = [b for b in prog.fns() if b.crate == "dochy_core" and b.kind == "fn" and b.eff and switch(b) is not None and
              is_result_of(b.locals[0], lambda x: has_adt(x, root))]
    if len(makers) < 4:
        raise Anchor("the parsing and converting functions with a validation switch were not found")
    # complete
    w = Cover(prog, ("dochy_core",))
    validators, why = {}, {}
    for b in cand:
        i = next(i for i in range(1, b.argc + 1) if not is_bool(b.locals[i]))
        try:
            r = w.solve(b, i)
        except absint.Budget as x:
            ctx.undecide("%s: %s" % (b.p, x))
            validators[b.d] = i
            continue
        validators[b.d] = i
        if r is not None:
            why[b.d] = r
    for k, r in sorted(w.memo.items()):
        ctx.count("arguments decided")
    ctx.count("parts decided", w.parts)
    for b in {id(g): g for g in w.graphs.values()}.values():
        ctx.analysed.append(b.body.p)
        ctx.count("validation functions")
        swallowed(ctx, w, b)
        ignored(prog, ctx, b.body)
    # whole: nothing the validation goes through is cut short
    cg = CallGraph(prog)
    for k in sorted(cg.reach([cg.inst(prog.bodies[d]) for d in sorted(validators)], ("call", "hof")), key=str):
        b = cg.insts[k].body
        if b is None or b.crate != "dochy_core" or not (b.kind == "closure" or is_result_of(b.locals[0], lambda x: x.k == "tuple" and not x.a)):
            continue
        for bi in sorted(b.reach):
            t = b.blocks[bi].t
            if t.k == "call" and t.callee is not None and (t.callee.trait or "").endswith("Iterator") and t.callee.name in CUT:
                ctx.violation("whole:%s:%s" % (b.p, t.callee.name), "%s validates only a part of what it goes through (%s)" % (b.p, t.callee.name), b.where(t.ln))
    # performed: does not ask which of the candidates is complete
    used = set()
    for b in makers:
        performed(prog, ctx, b, root, validators, used)
    if not used and not ctx.violations:
        ctx.undecide("no validator is called")
    for d in sorted(used & set(why)):
        b = prog.bodies[d]
        r = why[d]
        ctx.violation("complete:" + r[-1].split(":")[0] + ":" + key_of(r[-1]), "the validation does not cover every part: " + r[-1],
                      b.where(b.line), r)
    # passed
    makers_d = {b.d: switch(b) for b in makers}
    outer = [b for b in prog.fns() if b.kind == "fn" and b.eff and b.crate not in ("dochy_core",) and switch(b) is not None]
    for b in outer:
        passed(prog, ctx, b, makers_d)
    ctx.floor("validation functions", 6)
    ctx.floor("functions with a switch", 6)
    ctx.floor("switches passed on", 3)


def key_of(s):
    p = s.split(": ")
    return "-".join([p[1].split(" ")[0], p[-1]])[:80].replace(" ", "_") if len(p) > 1 else "part"


def swallowed(ctx, w, G):
    """Within the validator: a failed examination may not end in success."""
    fails = {}
    for _, ev, _ in G.e.events():
        if ev.kind in ("local", "rec") and ev.target is not None and ev.target.body is not None and \
                ev.target.body.d in w.fam and ev.result is not None and not G.body.p.endswith("::fmt"):
            fails[ev.result] = ev
    if not is_result_of(G.body.locals[0], lambda x: True):
        return
    for ex in G.e.exits:
        if ex.kind != "return" or not w.completes(G, ex):
            continue
        for r, ev in fails.items():
            if ex.state.facts.get(r) == frozenset([1]):
                ctx.violation("swallow:%s:%s" % (G.body.p, ev.target.body.p),
                              "%s succeeds although %s failed" % (G.body.p, ev.target.body.p), ev.where(), [ev.where()])


def performed(prog, ctx, b, root, validators, used):
    keep = reaching(prog, [b], lambda tg: tg.body is not None and tg.body.d in validators)
    cl = Marks(keep, validators)
    try:
        e = absint.Engine(prog, cl).run(b)
    except absint.Budget as x:
        ctx.undecide("%s: %s" % (b.p, x))
        return
    ctx.analysed.append(b.p)
    ctx.count("functions with a switch")
    flag = mk("sym", "arg%d:%s" % (switch(b), b.names.get(switch(b), "")))
    for _, ev, _ in e.events():
        if ev.target is not None and ev.target.body is not None and ev.target.body.d in validators:
            used.add(ev.target.body.d)
    for ex in e.exits:
        if ex.kind != "return" or known(ex.state.facts, ex.ret) == frozenset([1]):
            continue
        if ex.state.facts.get(flag) == frozenset([0]):
            continue
        ctx.count("successful returns with the switch on")
        tags = [t[1] for t in ex.state.tags if t[0] == "valid"]
        objs = list(e.deps(ex.ret))
        if any(o is x for o in tags for x in objs):
            continue
        part = [o for o in tags if same_object(e, o, ex.ret)]
        if part:
            continue
        ctx.violation("performed:" + b.p,
                      "%s can return an object with the validation switch on %s" %
                      (b.p, "although the validator examined another object" if tags else "without running the validator"),
                      b.where(b.line), sorted({str(n.where(n.line)) for n in [f.body for f in ex.fr.stack()]}) if ex.fr else [])


def same_object(e, o, ret):
    """The validated object and the returned one are built from the same parts."""
    if o.op != "agg":
        return False
    return any(x.op == "agg" and x.a[:2] == o.a[:2] and all(p is q for p, q in zip(x.a[2:], o.a[2:])) for x in e.deps(ret))


def passed(prog, ctx, b, makers):
    keep = reaching(prog, [b], lambda tg: tg.body is not None and tg.body.d in makers)

    class C(Slice):
        cap = 12

        def inline(self, eng, fr, tg):
            return tg.body is not None and tg.body.d not in makers and tg.body.crate == b.crate and \
                (tg.body.d in keep or tg.body.kind == "closure")
    if b.d not in keep:
        return
    try:
        e = absint.Engine(prog, C(keep)).run(b)
    except absint.Budget as x:
        ctx.undecide("%s: %s" % (b.p, x))
        return
    ctx.analysed.append(b.p)
    flag = mk("sym", "arg%d:%s" % (switch(b), b.names.get(switch(b), "")))
    made = {}
    for _, ev, _ in e.events():
        if ev.target is not None and ev.target.body is not None and ev.target.body.d in makers and ev.result is not None:
            made.setdefault(ev.result, []).append(ev)
    gives = has_adt(b.locals[0], find_adt(prog, "RootObject", "dochy_core"))
    returned = set()
    for ex in e.exits:
        if ex.kind == "return":
            returned |= {x.id for x in bare(e, ex.ret)}
    for r, evs in made.items():
        for ev in evs:
            k = switch(ev.fr.body)
            if gives and r.id not in returned and k is None:
                continue            # not what is returned
            a = ev.args[makers[ev.target.body.d] - 1]
            ctx.count("switches passed on")
            if a is flag or a is TRUE or a is FALSE and ev.facts.get(flag) == frozenset([0]):
                continue
            if a.op == "phi" or any(x is flag for x in subterms(a)) and a.op != "not":
                if not [x for x in e.flat(a) if x is not flag and x is not TRUE]:
                    continue
            elif a is not FALSE and a.op != "not":
                ctx.undecide("%s: validation switch %s of %s" % (b.p, show(a, 4), ev.path))
                continue
            ctx.violation("passed:%s:%s" % (b.p, ev.target.body.p),
                          "%s calls %s with the validation switch %s instead of its own" % (b.p, ev.target.body.p, show(a, 4)),
                          ev.where(), ev.stack())


def bare(e, t):
    """What a returned value consists of, without what it was computed from."""
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x is None or x.id in seen:
            continue
        seen.add(x.id)
        yield x
        if x.op == "phi":
            st.extend(e.phi_in.get(x.id, ()))
        elif x.op == "agg":
            st.extend(y for y in x.a[2:] if isinstance(y, absint.T))
        elif x.op in ("fld", "upd"):
            st.append(x.a[0])
