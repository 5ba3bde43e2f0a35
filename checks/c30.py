"""Every member kind is handled by every operation.

The compiler already demands an arm for every variant, so what can go wrong is the arm: it does nothing, it does what another
variant asks for, or it is a placeholder.  Each switch on an enumeration of member kinds, parameter types or value states is
taken from the type-checked program; the blocks an arm alone leads to (dominance) are its action.

  other kind   where one enumeration is turned into another (or into itself) and most arms make the variant of their own name,
               no arm makes a different one although its own exists
  skipped      where at least two arms act, an arm that does nothing is accounted for by another switch of the same operation
  placeholder  no code of these crates ends in todo!/unimplemented!
"""
from check_base import Anchor
from terms import last

TECHNIQUE = "dominance of switch arms in type-checked MIR: name-preserving maps between enumerations, arms without effect, placeholders"
CRATES = ("dochy_core", "dochy_diff", "dochy_intf", "dochy_archiver2", "dochy_fs", "dochy")
SEEDS = ("RootValue", "ListSabValue", "ListDefValue", "MetaValue", "RustValue", "RustMemberType", "ParamType", "RustParam", "VarType", "Qv", "QvType", "MemberSource", "ListType")


FIXED = ("Table", "CList", "Cil")     # kinds that are the same in every object of a source


def norm(n):
    n = n.replace("Def", "").replace("Opt", "") or n
    return {"Str": "String"}.get(n, n)


class Arms:
    """Switches of a body on enumerations, with what each arm alone leads to."""

    def __init__(self, prog, b, kinds):
        self.b, self.prog = b, prog
        self.sw = []
        for bi in sorted(b.reach):
            t = b.blocks[bi].t
            if t.k != "switch":
                continue
            src = None
            for s in b.blocks[bi].s:
                if s.k == "=" and s.rv.op == "discr":
                    src = s.rv.pl
            if src is None:
                continue
            ty = prog.place_ty(b, src)
            ty = ty.strip_refs() if ty is not None else None
            if ty is not None and ty.k == "adt" and ty.d in kinds:
                self.sw.append((bi, ty.d, t))
        self.arms = {}
        if not self.sw:
            return
        self.dominators()
        self.per = {}
        for bi, d, t in self.sw:
            got, m = dict(t.cases), {}
            for i in range(len(prog.adts[d]["v"])):
                m.setdefault(got.get(i, t.els), set()).add(i)
            m = {a: vs for a, vs in m.items() if a in self.preds and not self.dead(a)}
            self.per[bi] = m
            for a, vs in m.items():
                if self.preds[a] == [bi]:
                    self.arms[a] = (bi, d, frozenset(vs))

    def dead(self, a):
        return b_unreachable(self.b, a)

    def dominators(self):
        b = self.b
        R = sorted(b.reach)
        preds = {x: [] for x in R}
        for x in R:
            for y in b.blocks[x].t.succs():
                if y in preds and x not in preds[y]:
                    preds[y].append(x)
        self.preds = preds
        every = set(R)
        D = {x: every for x in R}
        D[0] = {0}
        moved = True
        while moved:
            moved = False
            for x in R:
                if x == 0 or not preds[x]:
                    continue
                n = set.intersection(*[D[p] for p in preds[x]]) | {x}
                if n != D[x]:
                    D[x] = n
                    moved = True
        self.D = D

    def nearest(self, bi):
        cs = [a for a in self.D.get(bi, ()) if a in self.arms]
        return max(cs, key=lambda a: len(self.D[a])) if cs else None

    def loops(self, bi):
        b, todo, seen = self.b, list(self.b.blocks[bi].t.succs()), set()
        while todo:
            x = todo.pop()
            if x in seen or x not in self.preds:
                continue
            seen.add(x)
            todo += b.blocks[x].t.succs()
        return bi in seen

    def acts(self, a, bi):
        """Anything done in the blocks this arm alone leads to."""
        if self.preds[a] != [bi]:
            return False
        for x in self.preds:
            if a not in self.D[x]:
                continue
            bl = self.b.blocks[x]
            if bl.t.k == "call":
                return True
            for s in bl.s:
                if s.k == "=" and s.rv.op != "discr" and not (str(s.pl) == "_0" and unit(self.b.locals[0])) and str(self.prog.place_ty(self.b, s.pl)) != "()":
                    return True
        return False


def b_unreachable(b, a):
    return b.blocks[a].t.k == "unreachable" and not b.blocks[a].s


def unit(t):
    """Nothing is handed back: (), or success of nothing."""
    if t is None:
        return False
    if t.k == "tuple":
        return not (t.a or ())
    if t.k == "adt" and last(t.d) == "Result" and t.a:
        return unit(t.a[0])
    return str(t) == "()"


def derived(b):
    return b.name in ("eq", "ne", "identity_eq", "fmt", "clone", "partial_cmp", "cmp", "hash")


def texts(prog, b):
    for o in b.ops():
        if o.k == "c":
            yield str(o)


def run(prog, ctx):
    ctx.rule("other kind: where variants are turned into variants of the same names, none is turned into another's")
    ctx.rule("skipped: a variant for which nothing is done, where others are acted on, is acted on elsewhere in the operation")
    ctx.rule("written: of two passes of a generator over its members one deals with all kinds the other deals with")
    ctx.rule("placeholder: no unfinished code")
    seeds = {d for d in prog.local_adts if last(d) in SEEDS and str(d).split("::")[0] in CRATES}
    if len(seeds) < 8:
        raise Anchor("enumerations of member kinds not found")
    # enumerations that share the vocabulary: built from or turned into the ones above
    words = {norm(v["n"]) for d in seeds for v in prog.adts[d]["v"]}
    kinds = set(seeds)
    for d in prog.local_adts:
        vs = prog.adts[d]["v"]
        if len(vs) > 2 and str(d).split("::")[0] in CRATES + ("dochy_json5", "dochy_compaction") and sum(norm(v["n"]) in words for v in vs) >= 3:
            kinds.add(d)
    names = {d: [norm(v["n"]) for v in prog.adts[d]["v"]] for d in kinds}
    bodies = [b for b in sorted(prog.bodies.values(), key=lambda b: b.p) if b.crate in CRATES]
    acting, idle = {}, []
    for b in bodies:
        for t in texts(prog, b):
            ctx.count("constants read")
            if "not yet implemented" in t or "not implemented" in t:
                ctx.violation("placeholder %s" % b.p, "ends in a placeholder: %s" % t[:60], b.where(b.line))
                break
        for bi in b.reach:
            c = b.blocks[bi].t.callee if b.blocks[bi].t.k == "call" else None
            if c is not None and last(str(c)) in ("todo_default_msg", "unimplemented_default_msg"):
                ctx.violation("placeholder %s" % b.p, "ends in a placeholder", b.where(b.blocks[bi].t.ln))
        A = Arms(prog, b, kinds)
        if not A.sw:
            continue
        ctx.count("switches on member kinds", len(A.sw))
        ctx.analysed.append(b.p)
        maps(prog, ctx, b, A, names)
        if derived(b):
            continue
        written(prog, ctx, b, A, names)
        for bi, d, t in A.sw:
            if d not in seeds or str(d).split("::")[0] != "dochy_core":
                continue        # one enumeration for several levels: which kinds can be met differs from place to place
            res = {a: A.acts(a, bi) for a in A.per[bi]}
            for a, vs in A.per[bi].items():
                if res[a] and (a != t.els or len(vs) == 1):
                    acting.setdefault(d, {}).setdefault(b.d, set()).update(vs)
            if any(res.values()) and not all(res.values()) and len(res) > 2 and (A.loops(bi) or unit(b.locals[0])):
                for a, vs in A.per[bi].items():
                    if not res[a]:
                        idle.append((b, bi, d, vs, res, t))
            if sum(res.values()) >= 2:
                ctx.count("matches with several actions")
    near = Near(prog, bodies)
    fixed = {d: {i for i, n in enumerate(names[d]) if n in FIXED} for d in seeds}
    for b, bi, d, vs, here, t in idle:
        own, fs = near.of(b)
        ctx.count("arms that do nothing")
        # does the operation care for what cannot be changed?
        whole = any(w & fixed[e] for e, m in acting.items() if last(e) == "RootValue" for x, w in m.items() if x in own)
        for v in sorted(vs):
            if v in fixed[d] and not whole or any(v in w for x, w in acting.get(d, {}).items() if x in fs):
                continue
            n = prog.adts[d]["v"][v]["n"]
            ctx.violation("skipped %s %s" % (b.p, n), "nothing is done for %s::%s where the other kinds are acted on" % (last(d), n), b.where(t.ln))
    ctx.floor("switches on member kinds", 100)
    ctx.floor("maps between enumerations", 30)
    ctx.floor("matches with several actions", 30)


def written(prog, ctx, b, A, names):
    """Passes of a generator over its members: the kinds one of them deals with include those of the other."""
    if b.crate != "dochy_intf" or "String" not in str(b.locals[0]):
        return
    sets = {}
    for bi, d, t in A.sw:
        if d in names and str(d).split("::")[0] == b.crate and A.loops(bi):
            acts = {v for a, vs in A.per[bi].items() if A.acts(a, bi) for v in vs}
            if len(names[d]) > 2 and acts:
                sets.setdefault(d, []).append((acts, t))
    for d, l in sets.items():
        for i, (s1, t1) in enumerate(l):
            for s2, t2 in l[i + 1:]:
                ctx.count("passes compared")
                if s1 - s2 and s2 - s1:
                    ctx.violation("written:%s" % b.p, "%s writes something for %s in one pass but not in the other, which deals with %s" % (
                        b.p, "/".join(sorted(names[d][i] for i in s2 - s1)), "/".join(sorted(names[d][i] for i in s1 - s2))), b.where(t1.ln))


def maps(prog, ctx, b, A, names):
    tab = {}
    for bi in b.reach:
        for s in b.blocks[bi].s:
            if s.k == "=" and s.rv.op == "agg" and isinstance(s.rv.sub, tuple) and s.rv.sub[0] in names:
                made(A, bi, s.rv.sub, tab, s.ln)
    for (S, a, B), m in tab.items():
        na, nb = names[a], names[B]
        ctx.count("maps between enumerations")
        own = [vs for vs, ws in m.items() if len(vs) == 1 and {na[i] for i in vs} == {nb[i] for i, _ in ws}]
        taken = {na[i] for vs in own for i in vs}
        for vs, ws in m.items():
            got = {nb[i] for i, _ in ws}
            if len(own) < 2 and not (len(vs) == 1 and got and got <= taken):
                continue
            lost = [i for i in vs if na[i] in nb and na[i] not in got]
            if not lost or len(vs) > 1 and not any(na[i] in got for i in vs):
                continue
            # what it is turned into belongs to another arm
            if not got & set(na):
                continue
            i = lost[0]
            ctx.violation("other-kind %s %s %s" % (b.p, last(B), prog.adts[a]["v"][i]["n"]), "%s::%s is turned into %s::%s" % (
                last(a), prog.adts[a]["v"][i]["n"], last(B), "/".join(sorted(prog.adts[B]["v"][j]["n"] for j, _ in ws))), b.where(min(l for _, l in ws)))


def made(A, bi, sub, tab, ln):
    a = A.nearest(bi)
    if a is None:
        return
    S, d, vs = A.arms[a]
    tab.setdefault((S, d, sub[0]), {}).setdefault(vs, set()).add((sub[1], ln))


class Near:
    """Functions of one operation: what the callers of a function reach."""

    def __init__(self, prog, bodies):
        self.out, self.inn = {}, {}
        self.files = {b.d: b.file for b in bodies}
        for b in bodies:
            for bi in b.reach:
                t = b.blocks[bi].t
                if t.k == "call" and t.callee is not None:
                    self.add(b.d, t.callee)
                for s in b.blocks[bi].s:
                    if s.k == "=" and s.rv.op == "agg" and s.rv.kind == "closure":
                        self.edge(b.d, s.rv.sub)

    def add(self, d, c):
        self.edge(d, c.rd or c.d)

    def edge(self, a, b):
        if b is not None:
            self.out.setdefault(a, set()).add(b)
            self.inn.setdefault(b, set()).add(a)

    def of(self, b):
        start = {b.d} | self.inn.get(b.d, set())
        todo, seen = list(start), set()
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            todo += self.out.get(x, ())
        own = {x for x in seen if self.home(x) == self.home(b.d)}
        more = set(own)
        for _ in range(2):
            more |= {y for x in more for y in self.out.get(x, ())}
        return own, more

    def home(self, d):
        """The directory of modules a function belongs to, closures with their function."""
        if d not in self.files:
            return None
        return self.files[d].rsplit("/", 1)[0]
