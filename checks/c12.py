"""Storing a number or a string in a smaller form never changes its value.

For every function that turns a number or a string into a stored value, each return is looked at with the
comparisons that hold there.  What the matching read function makes of the returned value has to be equal
to the input, as far as these comparisons say: a cast that can lose something needs a comparison of the
value cast back with the original, or bounds that exclude the loss.
"""
import re
import struct
import absint
from absint import subterms, show, mk, const, OPTION, Budget
from slicing import Slice
from terms import last, shell, find_adt
from check_base import Anchor

TECHNIQUE = "value-preservation analysis of casts: equalities and intervals from the dominating comparisons, by dataflow over MIR"

LEVEL_NOTE = "The decimal text of numbers (which texts count as a number, where the point goes) is not decided; the forms, limits, sign of zero and casts are."

INT = {"i8": (-2**7, 2**7 - 1), "u8": (0, 2**8 - 1), "i16": (-2**15, 2**15 - 1), "u16": (0, 2**16 - 1), "i32": (-2**31, 2**31 - 1),
       "u32": (0, 2**32 - 1), "i64": (-2**63, 2**63 - 1), "u64": (0, 2**64 - 1), "isize": (-2**63, 2**63 - 1), "usize": (0, 2**64 - 1),
       "i128": (-2**127, 2**127 - 1), "u128": (0, 2**128 - 1), "bool": (0, 1)}
EXACT = {"f32": 2**24, "f64": 2**53}


def cast(t):
    """(from, to, operand) of a cast term."""
    if t.op == "app" and t.a[0].startswith("cast:") and ">" in t.a[0] and len(t.a) == 2:
        f, to = t.a[0].rsplit(":", 1)[1].split(">", 1)
        return f, to, t.a[1]
    return None


def mkcast(f, to, x):
    if f == to:
        return x
    k = "IntToInt" if f in INT and to in INT else "IntToFloat" if f in INT else "FloatToInt" if to in INT else "FloatToFloat"
    return mk("app", "cast:%s:%s>%s" % (k, f, to), x)


def exact(f, to):
    """Every value of the first type is a value of the second."""
    if f in INT and to in INT:
        return INT[to][0] <= INT[f][0] and INT[f][1] <= INT[to][1]
    if f in INT and to in EXACT:
        return max(-INT[f][0], INT[f][1]) <= EXACT[to]
    return f == to or (f, to) == ("f32", "f64")


def fold(t):
    """Constants and casts that lose nothing, simplified."""
    if t.op == "app" and len(t.a) > 1:
        t = mk("app", t.a[0], *[fold(x) if isinstance(x, absint.T) else x for x in t.a[1:]])
    c = cast(t)
    if c is None:
        return t
    f, to, x = c
    if x.op == "const" and f in INT and isinstance(x.a[1], int):
        v = int(x.a[1])
        if to in INT:
            w = INT[to][1] - INT[to][0] + 1
            return const("int", (v - INT[to][0]) % w + INT[to][0])
        return mk("app", "whole", const("int", v)) if abs(v) <= EXACT[to] else t
    d = cast(x)
    if d is not None and d[1] == f and exact(d[0], f) and d[0] in INT and f in INT:
        return fold(mkcast(d[0], to, d[2]))
    return t


class Facts:
    """What holds at a return."""

    def __init__(self, facts):
        self.eq = []
        self.ne = []
        self.lo, self.hi = {}, {}
        self.all = facts
        for q, r in facts.items():
            if isinstance(r, tuple) and len(r) == 2 and r[0] in ("eq", "ne"):
                for n in (r[1],) if r[0] == "eq" else r[1]:
                    (self.eq if r[0] == "eq" else self.ne).append((fold(q), const("int", n)))
                    if r[0] == "eq":
                        self.bound(q, n, n)
                continue
            if q.op != "app" or r not in (frozenset([0]), frozenset([1])):
                continue
            yes = r == frozenset([1])
            if q.a[0] == "eq":
                (self.eq if yes else self.ne).append((fold(q.a[1]), fold(q.a[2])))
                if yes:
                    for x, y in ((q.a[1], q.a[2]), (q.a[2], q.a[1])):
                        if y.op == "const" and isinstance(y.a[1], int):
                            self.bound(x, int(y.a[1]), int(y.a[1]))
            elif q.a[0] == "lt":
                a, b = q.a[1], q.a[2]
                if b.op == "const" and isinstance(b.a[1], int):
                    self.bound(a, None, int(b.a[1]) - 1) if yes else self.bound(a, int(b.a[1]), None)
                if a.op == "const" and isinstance(a.a[1], int):
                    self.bound(b, int(a.a[1]) + 1, None) if yes else self.bound(b, None, int(a.a[1]))
            elif q.a[0] == "is_empty" and yes:
                self.bound(mk("app", "len", q.a[1]), 0, 0)
            elif last(q.a[0]) == "contains" and yes and q.a[1].op == "agg" and "Range" in last(q.a[1].a[0]):
                lo, hi = q.a[1].a[2], q.a[1].a[3] if len(q.a[1].a) > 3 else None
                if lo.op == "const" and hi is not None and hi.op == "const":
                    self.bound(q.a[2], int(lo.a[1]), int(hi.a[1]) - (0 if "Inclusive" in last(q.a[1].a[0]) else 1))

            elif last(q.a[0]) == "contains" and yes and q.a[1].op == "const" and isinstance(q.a[1].a[1], bytes) and len(q.a[1].a[1]) in (8, 12, 16, 24):
                raw = q.a[1].a[1]                       # the two ends, and for an inclusive range a mark
                w, closed = (8, len(raw) == 24) if len(raw) >= 16 else (4, len(raw) == 12)
                lo, hi = (int.from_bytes(raw[i * w:i * w + w], "little", signed=True) for i in (0, 1))
                self.bound(q.a[2], lo, hi if closed else hi - 1)
        self.floats(facts)

    def floats(self, facts):
        """A fraction found to be whole and within bounds is the same after a trip through any integer type that wide."""
        lo, hi, whole = {}, {}, {}
        for x, y in list(self.eq):
            for t, u in ((x, y), (y, x)):
                c = cast(u)
                if c and c[1] in EXACT and c[0] in INT and cast(c[2]) == (c[1], c[0], t):
                    whole[t] = c[1]
                    lo[t], hi[t] = INT[c[0]][0], INT[c[0]][1] + 1
                if u.op == "app" and last(u.a[0]) in ("trunc", "round", "floor", "ceil") and u.a[1] is t:
                    whole.setdefault(t, None)
                if t.op == "app" and last(t.a[0]) == "fract" and number(u, "f64") == 0:
                    whole.setdefault(t.a[1], None)
                    self.eq.append((t.a[1], mk("app", t.a[0][:-5] + "trunc", t.a[1])))
        for q in facts:
            for t in subterms(q):
                if t.op == "app" and last(t.a[0]) in ("trunc", "round", "floor", "ceil"):
                    whole.setdefault(t, None)
        for q, r in facts.items():
            if q.op == "app" and q.a[0] in ("lt", "le", "bin:Lt", "bin:Le", "bin:Gt", "bin:Ge") and r in (frozenset([0]), frozenset([1])):
                a, b = q.a[1], q.a[2]
                for t, c, up in ((a, b, True), (b, a, False)):
                    if c.op == "const" and t.op != "const":
                        if "Gt" in q.a[0] or "Ge" in q.a[0]:
                            up = not up
                        if r == frozenset([0]):
                            up = not up
                        for w in ("f64", "f32"):
                            n = number(c, w)
                            if n is not None and abs(n) < 2**70:
                                (hi if up else lo).setdefault((t, w), n)
        for t, w in list(whole.items()):
            for f in (w,) if w else ("f64", "f32"):
                l, h = (lo.get(t), hi.get(t)) if w else (lo.get((t, f)), hi.get((t, f)))
                if l is None or h is None:
                    continue
                for i in ("i8", "i16", "i32", "i64"):
                    if INT[i][0] <= l and h <= INT[i][1] + 1:
                        self.eq.append((t, mkcast(i, f, mkcast(f, i, t))))

    def bound(self, t, lo, hi):
        for x in {t, fold(t)}:
            if lo is not None:
                self.lo[x] = max(lo, self.lo.get(x, lo))
            if hi is not None:
                self.hi[x] = min(hi, self.hi.get(x, hi))

    def range(self, t, ty):
        lo, hi = INT[ty]
        return max(lo, self.lo.get(t, lo)), min(hi, self.hi.get(t, hi))


def replace(t, old, new):
    if t is old:
        return new
    if t.op == "app" and any(isinstance(x, absint.T) for x in t.a):
        return mk("app", *[replace(x, old, new) if isinstance(x, absint.T) else x for x in t.a])
    return t


def steps(t, fx):
    """Terms equal to t by one fact or law."""
    sub = set(subterms(t))
    out = set()
    for a, b in fx.eq:
        if a in sub:
            out.add(replace(t, a, b))
        if b in sub:
            out.add(replace(t, b, a))
    for u in sub:
        c = cast(u)
        if c is None:
            continue
        f, to, x = c
        d = cast(x)
        # an integer that was cut off and widened again: the same if it fitted
        if f in INT and d is not None and d[1] == f and d[0] in INT:
            lo, hi = fx.range(d[2], d[0])
            if INT[f][0] <= lo and hi <= INT[f][1] and exact(f, d[0]):
                out.add(replace(t, u, mkcast(d[0], to, d[2])))
            elif d[0] == to and INT[d[0]][1] - INT[d[0]][0] == INT[f][1] - INT[f][0]:
                out.add(replace(t, u, d[2]))            # same width: no bit is lost
        if x.op == "fld" and x.a[0].op == "app" and last(x.a[0].a[0]) in ("try_from", "try_into", "try_from_int") and len(x.a[0].a) == 2 and exact(f, to):
            y = x.a[0].a[1]
            w = cast(y)[1] if cast(y) else fx.ty
            out.add(replace(t, u, mkcast(w, to, y)))
        # in two steps
        if f in INT:
            for m in ("i64", "i32", "i16"):
                if m not in (f, to) and exact(f, m) and exact(f, to):
                    out.add(replace(t, u, mkcast(m, to, mkcast(f, m, x))))
    return {fold(x) for x in out}


def equal(a, b, fx, limit=400):
    """a and b are equal by the facts."""
    seen, todo = {fold(a)}, [fold(a)]
    other, todo2 = {fold(b)}, [fold(b)]
    n = 0
    while (todo or todo2) and n < limit:
        if seen & other:
            return True
        for s, td in ((seen, todo), (other, todo2)):
            if td:
                n += 1
                for y in steps(td.pop(0), fx):
                    if y not in s:
                        s.add(y)
                        td.append(y)
    return bool(seen & other)


def number(t, w):
    """The number a constant of a float type stands for (constants are kept as bits)."""
    if t.op != "const" or not isinstance(t.a[1], int) or t.a[0] != "float":
        return None
    try:
        return struct.unpack("<d" if w == "f64" else "<f", t.a[1].to_bytes(8 if w == "f64" else 4, "little"))[0]
    except OverflowError:
        return None


def lossy(t):
    """Casts in the term that can lose something."""
    return [u for u in subterms(t) if cast(u) is not None and cast(u)[0] in (INT | EXACT) and cast(u)[1] in (INT | EXACT) and not exact(*cast(u)[:2])]


def scalar(t):
    t = shell(t) if t.k == "ref" else t
    r = repr(t)
    if r in ("f64", "f32", "i64", "i32", "u64", "i128"):
        return r
    if r == "str" or t.k == "adt" and last(t.d) == "String":
        return "String"
    return None


def run(prog, ctx):
    ctx.rule("same value: what the read function makes of a stored value is the value that was given, by the comparisons made on the way")
    ctx.rule("accepted: the read function accepts every form that is written")
    ctx.rule("negative zero: a fraction or text is stored as an integer only when it was found not to be minus zero")
    ctx.rule("length: a string is stored in a form with a limited length only when it is not longer")
    ctx.rule("narrowing: every cast in a stored value that can lose something is covered by a comparison")
    kv = find_adt(prog, "KVal", "dochy_compaction")
    if not kv.startswith("dochy_compaction"):
        raise Anchor("the type of stored values was not found")
    writers = [b for b in prog.fns("dochy_compaction") if b.kind == "fn" and b.argc == 1 and b.locals[0].k == "adt" and b.locals[0].d == kv and scalar(b.locals[1])]
    readers = {}
    for b in prog.fns("dochy_compaction"):
        if b.kind == "fn" and b.argc == 1 and b.locals[1].k == "ref" and b.locals[1].t.k == "adt" and b.locals[1].t.d == kv:
            r = b.locals[0]
            opt = r.k == "adt" and r.d == OPTION
            s = scalar(r.a[0]) if opt else scalar(r)
            if s:
                readers.setdefault(s, []).append((b, opt))
    if not writers:
        raise Anchor("no function that makes stored values was found")
    for b in sorted(writers, key=lambda b: b.p):
        try:
            writer(prog, ctx, kv, b, readers)
        except Budget as x:
            ctx.undecide("%s: %s" % (b.p, x))
    ctx.floor("functions that store a value", 3)
    ctx.floor("forms decided", 8)


class Deep(Slice):
    cap = 200
    max_nodes = 20000


def writer(prog, ctx, kv, b, readers):
    ty = scalar(b.locals[1])
    e = absint.Engine(prog, Deep(set(), 80, ("dochy_compaction",))).run(b)
    inp = e.entry.state.mem[("L", e.root.id, 1)]
    rs = readers.get(ty, [])
    if not rs:
        return
    ctx.count("functions that store a value")
    ctx.analysed.append(b.p)
    best = None
    for r, opt in sorted(rs, key=lambda x: x[0].p):
        p = problems(prog, ctx, kv, b, e, inp, ty, r, opt)
        if best is None or len(p[0]) + len(p[1]) < len(best[0]) + len(best[1]):
            best = p
    for k, v in best[2].items():
        ctx.count(k, v)
    for key, msg in best[0]:
        ctx.violation(key, msg, b.where())
    for u in sorted(set(best[1])):
        ctx.undecide(u)


def problems(prog, ctx, kv, b, e, inp, ty, r, opt):
    bad, unknown, counts = [], [], {}
    names = [v["n"] for v in prog.adts[kv]["v"]]
    for x in e.exits:
        if x.kind != "return" or x.ret is None:
            continue
        v = x.ret
        if v.op != "agg" or v.a[0] != kv:
            unknown.append("%s returns %s" % (b.p, show(v, 3)))
            continue
        fx = Facts(x.state.facts)
        fx.ty = ty
        v = truth(v, fx)
        name = names[v.a[1]]
        form = "%s%s" % (name, "(%s)" % ", ".join(show(p, 4) for p in v.a[2:]) if len(v.a) > 2 else "")
        pay = v.a[2] if len(v.a) > 2 else None
        # read back
        d = back(prog, kv, r, opt, v)
        if isinstance(d, absint.T) and d.op == "app" and last(d.a[0]) in ("from", "into") and len(d.a) == 2:
            d = mkcast(repr(prog.adts[kv]["v"][v.a[1]]["f"][0]["t"]), ty, d.a[1])    # conversions of this name lose nothing
        if ty in EXACT and isinstance(d, absint.T) and number(d, ty) is not None and number(d, ty) == int(number(d, ty)):
            d = mk("app", "whole", const("int", int(number(d, ty))))
        if d is None and ty == "String" and pay is not None and pay is not inp:
            counts["numbers whose text is not compared"] = counts.get("numbers whose text is not compared", 0) + 1
        elif d is None:
            unknown.append("%s: what %s makes of %s is not known" % (b.p, r.p, name))
        elif d == "refused":
            bad.append(("accepted:%s:%s" % (b.p, name), "%s writes %s, which %s does not accept" % (b.p, form, r.p)))
        else:
            counts["forms decided"] = counts.get("forms decided", 0) + 1
            if ty != "String":
                if not equal(d, inp, fx):
                    if lossy(d) or lossy(pay) or d.op == "const" or d.op == "app" and d.a[0] == "whole" or fold(d).op == "const" or (fold(d).op == "app" and fold(d).a[0] == "whole"):
                        bad.append(("same:%s:%s" % (b.p, name), "%s: %s is read back by %s as %s, which may not be the value that was given" % (b.p, form, r.p, show(fold(d), 6))))
                    else:
                        unknown.append("%s: %s" % (b.p, form))
            else:
                text(bad, unknown, b, r, name, form, pay, d, inp, fx, v)
        zero(prog, bad, b, kv, v, name, form, inp, ty, fx)
        if pay is not None:
            length(prog, bad, b, kv, v, name, inp, ty, fx)
            for u in lossy(pay):
                f, to, y = cast(u)
                if ty == "String" and f in INT and to in INT and not equal(mkcast(to, f, u), y, fx):
                    bad.append(("narrowing:%s:%s" % (b.p, name), "%s: %s is cut off to %s without a comparison that shows it fits" % (b.p, show(y, 4), to)))
    if ty == "String":
        minus(prog, bad, b, kv, e, inp, names)
    return bad, unknown, counts


def minus(prog, bad, b, kv, e, inp, names):
    """A text that is stored as a number: not when the number is zero and the text has a sign."""
    texts, nums = [], []
    for x in e.exits:
        if x.kind == "return" and x.ret is not None and x.ret.op == "agg" and x.ret.a[0] == kv and len(x.ret.a) > 2:
            if x.ret.a[2] is inp:
                texts.append(x)
            elif any(s.op == "app" and last(s.a[0]) in ("parse", "from_str", "from_str_radix") for s in subterms(x.ret.a[2])):
                nums.append(x)
    parsed = {t for x in nums for t in subterms(x.ret.a[2]) if t.op == "fld" and t.a[0].op == "app" and last(t.a[0].a[0]) in ("parse", "from_str", "from_str_radix")}
    of = lambda t: any(p in set(subterms(t)) for p in parsed)

    def zero(x):
        """Whether the number may be zero: yes, no, or was found to be."""
        r = "may"
        for q, w in x.state.facts.items():
            if q in parsed and isinstance(w, tuple):
                if w[0] == "eq":
                    r = "is" if w[1] == 0 else "no"
                elif 0 in w[1]:
                    r = "no"
            if q.op == "app" and q.a[0] in ("eq", "lt") and of(q):
                c = [y for y in q.a[1:] if y.op == "const"]
                if q.a[0] == "eq" and c and c[0].a[1] == 0:
                    r = "is" if w == frozenset([1]) else "no"
                if q.a[0] == "lt" and c and w == frozenset([1]) and (q.a[2] is c[0] and c[0].a[1] <= 0 or q.a[1] is c[0] and c[0].a[1] >= 0):
                    r = "no"
        return r

    open_ = [x for x in nums if zero(x) != "no"]
    kept = [x for x in texts if zero(x) == "is"]
    if not open_:
        return
    sure = frozenset([0]), frozenset([1])
    for q in {q for x in open_ for q in x.state.facts if not of(q) and inp in set(subterms(q))}:
        vals = {x.state.facts.get(q) for x in open_}
        if len(vals) != 1 or not vals <= set(sure):
            continue
        v = vals.pop()
        if kept and all(x.state.facts.get(q) in sure and x.state.facts.get(q) != v for x in kept):
            return
        if any(s.op == "const" and s.a[1] in ("-", ord("-"), b"-") for s in subterms(q)) and v == frozenset([0]):
            return
    for x in open_:
        bad.append(("zero:%s:%s" % (b.p, names[x.ret.a[1]]), "%s: the text of minus zero may be stored as the number %s and read back without its sign" % (b.p, show(x.ret, 4))))
        break


def truth(v, fx):
    """A comparison that is stored as a value, where its outcome is known."""
    out = []
    for x in v.a[2:]:
        if x.op == "app" and x.a[0] == "eq":
            r = fx.all.get(x)
            if r in (frozenset([0]), frozenset([1])):
                x = const("bool", min(r))
            else:
                for a, c in fx.eq:
                    for s, n in ((a, c), (c, a)):
                        if n.op == "const" and s in x.a[1:] and x.op == "app":
                            o = [y for y in x.a[1:] if y is not s]
                            if len(o) == 1 and o[0].op == "const":
                                x = const("bool", int(o[0].a[1] == n.a[1]))
        out.append(x)
    return mk("agg", v.a[0], v.a[1], *out)


def back(prog, kv, r, opt, v):
    e = absint.Engine(prog, Deep(set(), 40, ("dochy_compaction",))).run(r, [mk("ptr", ("V",), ())], None, None, {("V",): v})
    out = {x.ret for x in e.exits if x.kind == "return" and x.ret is not None}
    if len(out) != 1:
        return None
    o = out.pop()
    if not opt:
        return o
    if o.op != "agg" or o.a[0] != OPTION:
        return None
    return "refused" if o.a[1] == 0 else o.a[2]


def text(bad, unknown, b, r, name, form, pay, d, inp, fx, v):
    empty = lambda t: t.op == "app" and t.a[0] == "new" or t.op == "const" and t.a[1] in ("", b"")
    if d is inp:
        return
    if empty(d):
        n = mk("app", "len", inp)
        if fx.range(n, "usize") == (0, 0) or any(empty(y) for a, c in fx.eq for x, y in ((a, c), (c, a)) if x is inp):
            return
        bad.append(("same:%s:%s" % (b.p, name), "%s: %s is read back by %s as the empty string, although it may not be empty" % (b.p, form, r.p)))
        return
    if d.op == "const":
        if any({x, y} == {inp, d} for x, y in fx.eq):
            return
        bad.append(("same:%s:%s" % (b.p, name), "%s: %s is read back by %s as %s, although it may be another text" % (b.p, form, r.p, show(d, 3))))
        return
    if pay is None or pay is inp or pay.op == "const":
        unknown.append("%s: %s is read back by %s as %s" % (b.p, form, r.p, show(d, 4)))
    # numbers written as text: see the rules about negative zero and narrowing


def zero(prog, bad, b, kv, v, name, form, inp, ty, fx):
    pt = prog.adts[kv]["v"][v.a[1]]["f"]
    if not pt:
        return
    whole = pt[0]["t"] is not None and repr(pt[0]["t"]) in INT
    if ty in EXACT and whole:
        if not nonzero(inp, fx):
            bad.append(("zero:%s:%s" % (b.p, name), "%s: minus zero is stored as %s and read back as zero" % (b.p, form)))


def nonzero(inp, fx):
    sign = (2**63, 2**31, -2**63, -2**31)
    for a, c in fx.ne:
        for x, y in ((a, c), (c, a)):
            if x is inp and (y.op == "const" and y.a[1] in (0, 0.0) + sign):
                return True
            if x.op == "app" and last(x.a[0]) == "to_bits" and inp in x.a:
                if y.op == "app" and last(y.a[0]) == "to_bits":
                    y = y.a[1]
                if y.op != "const" or y.a[1] in sign:
                    return True
    for q, r in fx.all.items():
        if q.op == "app" and last(q.a[0]) in ("is_sign_negative", "is_negative") and r == frozenset([0]) and inp in set(subterms(q)):
            return True
        if q.op == "app" and last(q.a[0]) in ("is_sign_positive",) and r == frozenset([1]) and inp in set(subterms(q)):
            return True
        if q.op == "app" and q.a[0] == "eq" and r == frozenset([1]) and sum(1 for s in subterms(q) if s.op == "app" and last(s.a[0]) == "to_bits") == 2:
            return True
    return False


def length(prog, bad, b, kv, v, name, inp, ty, fx):
    m = re.match(r"^Str(\d+)$", name)
    if ty != "String" or not m or v.a[2] is not inp:
        return
    n = mk("app", "len", inp)
    hi = fx.range(n, "usize")[1]
    if hi >= int(m.group(1)):
        bad.append(("length:%s:%s" % (b.p, name), "%s: a string is stored as %s although it may be %s bytes long" % (b.p, name, hi if hi < 10**6 else "any number of")))
