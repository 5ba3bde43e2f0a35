"""Origins of the values the typed accessors return and store.

Every typed getter and setter is followed to its exits.  The returned value must be the payload
of the accessor's own parameter type, taken from the override or the definition found under
exactly the given name; the definition's value only where no override was found.  A setter
inserts under the given name a parameter of its own type made from the given value.
"""
import absint
from absint import show, TRUE, FALSE, NONE, OPTION, subterms, sub
from terms import Typer, fact, last, shell
from accessors import accessors, need, Model, KINDS

TECHNIQUE = "value-origin dataflow (provenance terms) from lookups to returns and insertions, partitioned by variant"


ARITH = {"Add", "Sub", "Mul", "Div", "Rem", "BitAnd", "BitOr", "BitXor", "Shl", "Shr"}
OTHER = {"trim", "trim_start", "trim_end", "to_lowercase", "to_uppercase", "to_ascii_lowercase", "to_ascii_uppercase", "replace", "abs", "round",
         "floor", "ceil", "trunc", "clamp", "min", "max", "rev", "take", "skip", "filter", "step_by"}


def changing(t):
    """The application makes another value of its argument."""
    if t.op != "app":
        return False
    n = str(t.a[0])
    if n.startswith("cast:"):
        return "Float" in n or "IntToInt" in n
    if n.startswith("bin:"):
        return n[4:] in ARITH
    n = last(n)
    return n in OTHER or n.startswith(("wrapping_", "saturating_"))


class Fine(absint.Client):
    cap = 400


def run(prog, ctx):
    M = Model(prog)
    acc = accessors(prog)
    ctx.rule("name: every lookup behind a returned value uses the accessor's name argument")
    ctx.rule("type: the value comes out of the accessor's own parameter type")
    ctx.rule("precedence: the definition's value is returned only where no override was found; an existing value of that type is returned")
    ctx.rule("reference: the same for the references of items")
    ctx.rule("store: a set function inserts under the name argument a value of its own type made from its value argument")
    for h in ("RootObjectPtr", "CItemPtr", "MItemPtr"):
        for k, v in KINDS.items():
            arr = k in ("str", "int_array", "float_array", "binary")
            names = ["get_" + k, "get_%s_def" % k] + (["get_immutable_" + k] if arr else []) + \
                (["get_mutable_" + k] if arr and h != "CItemPtr" else [])
            for n in names:
                if (h, n) not in acc and n not in ("get_" + k,):
                    ctx.note("%s has no %s" % (h, n))
                    continue
                getter(prog, ctx, M, h, n, v, need(acc, h, n))
            if h != "CItemPtr":
                setter(prog, ctx, M, h, "set_" + k, v, need(acc, h, "set_" + k))
    for h in ("CItemPtr", "MItemPtr"):
        reference(prog, ctx, M, h, "get_ref_id", need(acc, h, "get_ref_id"))
    set_reference(prog, ctx, "MItemPtr", "set_ref", need(acc, "MItemPtr", "set_ref"))
    ctx.floor("getters", 55)
    ctx.floor("set functions", 14)


def getter(prog, ctx, M, h, n, vname, b):
    who = "%s for %s" % (n, h)
    try:
        e = absint.Engine(prog, Fine()).run(b)
    except absint.Budget as x:
        ctx.undecide("%s: %s" % (who, x))
        return
    ctx.count("getters")
    ty = Typer(e)
    key = e.entry.state.mem.get(("L", e.root.id, 2))
    want = M.pv[vname]
    deponly = n.endswith("_def")

    def bad(rule, msg, path=()):
        ctx.violation("%s:%s:%s" % (rule, h, n), "%s: %s" % (who, msg), b.where(), path)
    some = 0
    for x in e.exits:
        if x.kind != "return":
            continue
        facts = x.state.facts
        if impossible(M, ty, facts, key):
            continue
        for r in e.flat(x.ret):
            vs = e.variants_of(x.state, r, OPTION)
            if vs is None:
                continue
            if 1 in vs:
                some += 1
                ctx.count("returned values (exit, state)")
                payload(ctx, M, ty, e, x, r, facts, key, want, vname, deponly, bad)
            if 0 in vs:
                missing(M, ty, e, facts, key, want, deponly, bad)
    for _, ev, _ in e.events():
        if ev.kind == "insert" and len(ev.args) == 3:
            if ev.args[1] is not key:
                bad("materialise-name", "the default is copied under another name (%s)" % show(ev.args[1], 5), ev.stack())
            if not absent(M, ty, ev.facts, key) and not impossible(M, ty, ev.facts, key):
                bad("overwrite", "the default replaces an override", ev.stack())
            _, badk = keys(ev.args[2], key)
            v = ev.args[2]
            if v.op == "agg" and v.a[0] in M.sabs:
                p = sub(v, M.sabs[v.a[0]])
                if not any(w == "def" and q is p for w, q, _ in param_terms(M, ty, ev.facts, key)):
                    bad("materialise-value", "what is stored for the member is not its default (%s)" % show(p, 5), ev.stack())
            if badk:
                bad("materialise", "a value of another member is copied (%s)" % show(badk[0], 5), ev.stack())
    if not some:
        bad("never", "no value is ever returned")
    ctx.analysed.append("%s: %d returned values" % (who, some))


def keys(t, key):
    n, bad = 0, []
    for x in subterms(t):
        if x.op == "idx":
            if x.a[1] is key:
                n += 1
            elif not (x.a[1].op == "const" and x.a[1].a[0] in ("int",)):
                bad.append(x.a[1])
    return n, bad


def impossible(M, ty, facts, key):
    """States excluded by construction: the override and the definition of one name are both
    parameters, of the same type."""
    d = s = None
    for t, f in facts.items():
        if not isinstance(f, frozenset):
            continue
        a = ty.adt(t)
        if t.op == "idx" and t.a[1] is key and a in M.sabs and M.sabs[a][0] not in f:
            return True
    return False


def param_terms(M, ty, facts, key):
    """[(origin, RustParam term, variant set)] known in this state for the member of that name."""
    out = []
    for t, f in facts.items():
        if not isinstance(f, frozenset):
            continue
        a = ty.adt(t)
        which = "def" if a in M.defs else "sab" if a in M.sabs else None
        if which is None or not any(x.op == "idx" and x.a[1] is key for x in subterms(t)):
            continue
        vi, pi = (M.defs[a][:2] if which == "def" else M.sabs[a])
        if f == frozenset([vi]):
            p = sub(t, (vi, pi))
            out.append((which, p, facts.get(p)))
    return out


def payload(ctx, M, ty, e, x, r, facts, key, want, vname, defonly, bad):
    val = e.deep(x.state, sub(r, (1, 0)))
    known = param_terms(M, ty, facts, key)
    n, wrong = keys(val, key)
    if wrong:
        bad("name", "the returned value is looked up under %s instead of the given name" % show(wrong[0], 5))
        return
    if any(changing(y) and keys(y, key)[0] for y in subterms(val)):
        bad("changed", "the returned value is not the stored one: %s" % show(val, 6))
    # the parameter the value comes from: the one whose type was established
    srcs = []
    for which, p, f in known:
        ids = {y.id for y in subterms(val)}
        if p.id in ids or (n == 0 and f is not None):
            srcs.append((which, p, f))
    if not srcs:
        other = [t for t in facts if t.op == "idx" and ty.adt(t) in (set(M.defs) | set(M.sabs))]
        if other and any(t.a[1] is not key for t in other):
            bad("name", "the returned value is looked up under %s instead of the given name" % show([t.a[1] for t in other if t.a[1] is not key][0], 5))
        else:
            bad("origin", "the returned value %s does not come from the parameter found under the given name" % show(val, 6))
        return
    for which, p, f in srcs:
        if f is None:
            # the payload itself names the variant it was taken from
            f = frozenset(y.a[1] for y in subterms(val) if y.op == "fld" and y.a[0] is p)
        if f != frozenset([want]):
            bad("type", "the returned value may come from a parameter of type %s" %
                "/".join(sorted(M.vname(M.param, i) for i in f)) if f else "any type")
    whiches = {w for w, p, f in srcs}
    # literal states must match the state of the source
    if n == 0 and val.op == "agg" and val.a[0] == M.qv:
        for which, p, f in srcs:
            q = facts.get(sub(p, (want, 0)))
            if isinstance(q, frozenset) and val.a[1] not in q:
                bad("state", "the state %s is returned for a parameter whose state is %s" %
                    (M.vname(M.qv, val.a[1]), "/".join(M.vname(M.qv, i) for i in sorted(q))))
    elif val.op == "agg" and val.a[0] == M.qv and val.a[1] != M.qvv["Val"]:
        bad("state", "a value is returned as %s" % M.vname(M.qv, val.a[1]))
    if defonly:
        if whiches == {"sab"}:
            bad("default", "the override is returned instead of the default")
        return
    if whiches == {"def"} and not absent(M, ty, facts, key):
        bad("precedence", "the definition's value is returned although an override was not found to be absent")


def absent(M, ty, facts, key):
    """The state knows that there is no override under the name (or that this holder was left
    without a parameter there)."""
    for t, f in facts.items():
        if t.op == "app" and t.a[0] == "get" and t.a[2] is key and f == frozenset([0]):
            el = absint.mk("idx", t.a[1], t.a[2])
            if ty.adt(el) in M.sabs:
                return True
    return False


def missing(M, ty, e, facts, key, want, defonly, bad):
    for which, p, f in param_terms(M, ty, facts, key):
        if f == frozenset([want]) and not (defonly and which == "sab"):
            bad("lost", "nothing is returned although the %s holds a value of that type" %
                ("override" if which == "sab" else "definition"))


def reference(prog, ctx, M, h, n, b):
    """The id of a reference: the item's own under the given name, else the definition's under it."""
    who = "%s for %s" % (n, h)
    try:
        e = absint.Engine(prog, Fine()).run(b)
    except absint.Budget as x:
        ctx.undecide("%s: %s" % (who, x))
        return
    ctx.count("getters of references")
    ty = Typer(e)
    key = e.entry.state.mem.get(("L", e.root.id, 2))

    def bad(rule, msg):
        ctx.violation("%s:%s:%s" % (rule, h, n), "%s: %s" % (who, msg), b.where())

    def kind(t):
        """Whose reference is looked up: own, def or neither."""
        for y in subterms(t):
            if y.op == "idx":
                a = repr(ty.of(y))
                if "RefSabValue" in a:
                    return "own"
                if "RefValue" in a:
                    return "def"
        return None
    for x in e.exits:
        if x.kind != "return":
            continue
        there = {}
        for t, f in x.state.facts.items():
            if t.op == "app" and t.a[0] == "get" and t.a[2] is key and isinstance(f, frozenset) and len(f) == 1:
                k = kind(absint.mk("idx", t.a[1], t.a[2]))
                if k:
                    there[k] = next(iter(f))
        for r in e.flat(x.ret):
            vs = e.variants_of(x.state, r, OPTION)
            if vs is None:
                continue
            if 1 in vs:
                ctx.count("returned references (exit, state)")
                val = e.deep(x.state, sub(r, (1, 0)))
                _, wrong = keys(val, key)
                if wrong:
                    bad("name", "the returned reference is looked up under %s instead of the given name" % show(wrong[0], 5))
                    continue
                src = {kind(y) for y in subterms(val) if y.op == "idx"}
                if val.op == "agg" and val.a[0] == M.qv and not src:
                    states = [(kind(t), f) for t, f in x.state.facts.items() if is_qv(M, ty.of(t)) and kind(t) and isinstance(f, frozenset)]
                    src = {k for k, _ in states}
                    if any(val.a[1] not in f for _, f in states):
                        bad("state", "the state %s is returned for a reference in another state" % M.vname(M.qv, val.a[1]))
                if src == {"def"} and there.get("own") != 0:
                    bad("precedence", "the definition's reference is returned although the item may have one of its own")
                if not src:
                    bad("origin", "the returned reference %s is not the one found under the given name" % show(val, 6))
            if 0 in vs and 1 in there.values():
                bad("lost", "nothing is returned although there is a reference of that name")


def is_qv(M, t):
    t = shell(t) if t is not None else None
    return t is not None and t.k == "adt" and t.d == M.qv


def set_reference(prog, ctx, h, n, b):
    who = "%s for %s" % (n, h)
    try:
        e = absint.Engine(prog, Fine()).run(b)
    except absint.Budget as x:
        ctx.undecide("%s: %s" % (who, x))
        return
    ctx.count("set functions of references")
    key = e.entry.state.mem.get(("L", e.root.id, 2))
    val = e.entry.state.mem.get(("L", e.root.id, 3))
    for _, ev, _ in e.events():
        if ev.kind != "insert" or len(ev.args) != 3:
            continue
        if ev.args[1] is not key:
            ctx.violation("store-name:%s:%s" % (h, n), "%s: the reference is stored under %s instead of the given name" % (who, show(ev.args[1], 5)),
                          ev.where(), ev.stack())
        if val.id not in {y.id for y in subterms(ev.args[2])} and val not in ev.facts:
            ctx.violation("store-value:%s:%s" % (h, n), "%s: what is stored does not come from the given value: %s" % (who, show(ev.args[2], 5)),
                          ev.where(), ev.stack())


def setter(prog, ctx, M, h, n, vname, b):
    who = "%s for %s" % (n, h)
    try:
        e = absint.Engine(prog, Fine()).run(b)
    except absint.Budget as x:
        ctx.undecide("%s: %s" % (who, x))
        return
    ctx.count("set functions")
    key = e.entry.state.mem.get(("L", e.root.id, 2))
    val = e.entry.state.mem.get(("L", e.root.id, 3))
    ty = Typer(e)
    want = M.pv[vname]

    def bad(rule, msg, path=()):
        ctx.violation("%s:%s:%s" % (rule, h, n), "%s: %s" % (who, msg), b.where(), path)
    got = set()
    for _, ev, _ in e.events():
        if ev.kind != "insert" or len(ev.args) != 3:
            continue
        v = ev.args[2]
        if v.op != "agg" or v.a[0] not in M.sabs:
            bad("store-kind", "something that is not a parameter is stored: %s" % show(v, 5), ev.stack())
            continue
        ctx.count("insertions (site, state)")
        if ev.args[1] is not key:
            bad("store-name", "the value is stored under %s instead of the given name" % show(ev.args[1], 5), ev.stack())
        vi, pi = M.sabs[v.a[0]]
        p = sub(v, (vi, pi))
        if fact(e, ev.facts, p) != frozenset([want]):
            bad("store-type", "the stored value is %s" % show(p, 4), ev.stack())
            continue
        q = sub(p, (want, 0))
        src = ev.facts.get(val)
        if q.op == "agg" and q.a[0] == M.qv:
            if isinstance(src, frozenset) and q.a[1] not in src:
                bad("store-state", "the state %s is stored for a given %s" %
                    (M.vname(M.qv, q.a[1]), "/".join(M.vname(M.qv, i) for i in sorted(src))), ev.stack())
            if q.a[1] == M.qvv["Val"] and val.id not in {y.id for y in subterms(q)}:
                bad("store-value", "the stored value %s does not come from the given value" % show(q, 5), ev.stack())
        elif val.id not in {y.id for y in subterms(q)}:
            bad("store-value", "the stored value %s does not come from the given value" % show(q, 5), ev.stack())
        if any(changing(y) and val.id in {z.id for z in subterms(y)} for y in subterms(q)):
            bad("store-changed", "the stored value is not the given one: %s" % show(q, 5), ev.stack())
        qs = fact(e, ev.facts, q)
        if qs is None:
            qs = frozenset(M.qvv.values())
        vts = None
        for t, f in ev.facts.items():
            a = ty.adt(t)
            if a in M.defs and isinstance(f, frozenset) and f == frozenset([M.defs[a][0]]):
                vts = ev.facts.get(sub(t, (M.defs[a][0], M.defs[a][2])))
        for a in (vts if isinstance(vts, frozenset) else M.vtv.values()):
            for c in qs:
                got.add((a, c))
    for a, qs in M.admits.items():
        for c in qs:
            if (a, c) not in got:
                bad("refused:%s:%s" % (M.vname(M.vt, a), M.vname(M.qv, c)), "a %s given for a member declared %s is never stored" %
                    (M.vname(M.qv, c), M.vname(M.vt, a)))
