"""The encoder and the decoder of the binary format agree on every kind of value.

For each kind the bits, size fields and data chunks that the encoder emits are collected from the paths of its
loop, and matched with the decision tree of the tag reader and the reads the decoder makes for that tag: same
bits, same field widths, same lengths, same byte order, and the value that is rebuilt has to be the one given.
The two loops that split numbers into digits and put them together again are compared by their recurrences.
"""
import absint
from absint import subterms, show, mk, const, OPTION, RESULT, Budget
from slicing import Slice
from terms import last, find_adt
from check_base import Anchor
import c12
from c12 import Facts, cast, lossy, equal, mkcast, INT

TECHNIQUE = "agreement of encoder and decoder: event sequences per kind of value by dataflow over MIR, loop recurrences for digits"
LEVEL_NOTE = "The reading of the bit sequence itself (bit vector crate) and UTF-8 conversion are taken as given."
CR = "dochy_compaction"


class Opaque(Slice):
    cap = 128
    max_nodes = 30000

    def __init__(self, prims):
        super().__init__((), 600, (CR,))
        self.prims = prims

    def inline(self, eng, fr, tg):
        return tg.body is not None and tg.body.d not in self.prims and super().inline(eng, fr, tg)


def width(t):
    r = repr(t)
    return int(r[1:]) // 8 if r[1:].isdigit() else None


class Format:
    def __init__(self, prog):
        self.prog = prog
        self.kv = find_adt(prog, "KVal", CR)
        holds = lambda d, what: any(what in last(x.d) for v in prog.adts[d]["v"] for f in v["f"] for x in f["t"].walk() if x.k == "adt")
        self.tagw, self.tagr, self.io, self.codec, self.uncodec = {}, {}, {}, {}, {}
        self.read_tag = None
        for b in prog.fns(CR):
            if b.kind != "fn" or not b.argc:
                continue
            p1 = b.locals[1]
            owner = p1.t.d if p1.k == "ref" and p1.t.k == "adt" and p1.t.d in prog.local_adts else None
            ret = b.locals[0]
            ok = ret.a[0] if ret.k == "adt" and ret.d == RESULT and ret.a else None
            if owner and holds(owner, "BitVec"):
                if b.argc == 3 and all(width(b.locals[i]) or repr(b.locals[i]) == "usize" for i in (2, 3)):
                    self.tagw[b.d] = b
                elif ok is not None and b.argc == 1 and repr(ok) == "bool":
                    self.tagr[b.d] = "bit"
                elif ok is not None and b.argc == 1 and repr(ok) in INT:
                    self.tagr[b.d] = "zeros"
                elif ok is not None and b.argc == 2 and repr(ok) in INT:
                    self.tagr[b.d] = "bits"
                elif ok is not None and b.argc == 1 and ok.k == "adt" and ok.d in prog.local_adts:
                    self.read_tag = b
                    self.tag = ok.d
            elif owner and not b.trait and ok is not None and b.argc <= 2 and owner != self.kv and any("T" in repr(f["t"]) or f["t"].k in ("ref", "param") for f in prog.adts[owner]["v"][0]["f"]):
                e = ok.t if ok.k == "ref" else ok
                if b.argc == 1 and repr(e) == "u8":
                    self.io[b.d] = ("byte", 1)
                elif b.argc == 2 and repr(b.locals[2]) == "usize":
                    if last(getattr(e, "d", "") or "") == "String":
                        self.io[b.d] = ("text", 1)
                    elif e.k == "slice" or e.k == "adt" and last(e.d) == "Vec" and repr(e.a[0]) == "u8":
                        self.io[b.d] = ("bytes", 1)
                    elif e.k == "adt" and last(e.d) == "Vec" and width(e.a[0]):
                        self.io[b.d] = ("numbers", width(e.a[0]))
            if b.argc == 1 and repr(p1) in ("i64", "i128") and ret.k == "adt" and last(ret.d) in ("ArrayVec", "Vec", "SmallVec"):
                self.codec[b.d] = repr(p1)
            if b.argc == 1 and p1.k == "ref" and p1.t.k == "slice" and repr(p1.t) == "[u8]" and repr(ret) in ("i64", "i128"):
                self.uncodec[b.d] = repr(ret)
        if not self.tagw or self.read_tag is None or not self.io or not self.codec:
            raise Anchor("parts of the binary format were not found (writer of tags %d, reader of tags %s, reads %d, integers %d)" %
                         (len(self.tagw), self.read_tag is not None, len(self.io), len(self.codec)))

    def prims(self):
        return set(self.tagw) | set(self.tagr) | set(self.io) | set(self.codec) | set(self.uncodec) | {self.read_tag.d}


def body(ev):
    return ev.target.body.d if ev.target is not None and ev.target.body is not None else None


def strip(t):
    """Without casts between integers, borrowed views and error handling of conversions."""
    while True:
        c = cast(t)
        if c and c[0] in INT and c[1] in INT:
            t = c[2]
        elif t.op == "app" and last(t.a[0]) in ("from", "into", "as_slice", "as_ref", "as_bytes", "deref", "to_vec", "clone", "borrow") and len(t.a) == 2:
            t = t.a[1]
        elif t.op == "fld" and t.a[0].op == "app" and last(t.a[0].a[0]) in ("try_from", "try_into", "from_utf8", "as_slice") and len(t.a[0].a) == 2:
            t = t.a[0].a[1]
        else:
            return t


def linear(t):
    t = strip(t)
    if t.op == "const":
        try:
            return {None: int(t.a[1])}
        except (TypeError, ValueError):
            return {t: 1}
    if t.op == "app" and len(t.a) == 3 and t.a[0] in ("bin:Add", "bin:Sub", "bin:Mul", "bin:AddUnchecked", "bin:SubUnchecked"):
        x, y = linear(t.a[1]), linear(t.a[2])
        if t.a[0] == "bin:Mul":
            if set(x) <= {None}:
                x, y = y, x
            if not set(y) <= {None}:
                return {t: 1}
            return {k: v * y.get(None, 0) for k, v in x.items() if v * y.get(None, 0)}
        s = 1 if "Add" in t.a[0] else -1
        r = dict(x)
        for k, v in y.items():
            r[k] = r.get(k, 0) + s * v
        return {k: v for k, v in r.items() if v}
    if t.op == "app" and t.a[0] in ("un:Neg", "neg") and len(t.a) == 2:
        return {k: -v for k, v in linear(t.a[1]).items()}
    if t.op == "not" and len(t.a) == 1 or t.op == "app" and t.a[0] in ("un:Not", "not") and len(t.a) == 2:
        x = linear(t.a[-1])
        r = {k: -v for k, v in x.items()}
        r[None] = r.get(None, 0) - 1
        return {k: v for k, v in r.items() if v}
    return {t: 1}


def same(a, b):
    return {k: v for k, v in linear(a).items() if v} == {k: v for k, v in linear(b).items() if v}


def walk(eng, node, stop, limit=4000):
    """Event sequences from a node to the first event accepted by stop (or the exit); loops are passed once."""
    out = []
    todo = [(node, (), frozenset())]
    n = 0
    while todo:
        x, seq, seen = todo.pop()
        n += 1
        if n > limit:
            raise Budget("too many paths")
        for i, (evs, b) in enumerate(eng.succ.get(x, ())):
            if (x, i) in seen:
                continue
            s, done = seq, False
            for e in evs:
                s += (e,)
                if stop(e):
                    out.append((s, None))
                    done = True
                    break
            if done:
                continue
            if b is None or hasattr(b, "ret"):
                out.append((s, b))
                continue
            todo.append((b.num, s, seen | {(x, i)}))
    return out


def run(prog, ctx):
    ctx.rule("tag: the bits written for a kind of value are the bits the reader recognises, and it recognises them as that kind")
    ctx.rule("field: a number written next to the tag has the width that is read, and fits")
    ctx.rule("data: what is read for a kind has the length and byte order of what was written")
    ctx.rule("value: the value that is rebuilt is the value that was written, of the same kind")
    ctx.rule("header: counts and lengths are written in the order in which they are read")
    ctx.rule("digits: numbers are put together in the order in which they were taken apart, with the same sign bit")
    f = Format(prog)
    enc = [b for b in prog.fns(CR) if b.kind == "fn" and b.eff and any(p.k == "ref" and p.t.k == "slice" and p.t.t.k == "adt" and p.t.t.d == f.kv for p in b.locals[1:b.argc + 1])]
    dec = [b for b in prog.fns(CR) if b.kind == "fn" and b.eff and b.locals[0].k == "adt" and b.locals[0].d == RESULT and any(t.k == "adt" and t.d == f.kv for t in b.locals[0].walk())]
    enc, dec = lowest(prog, enc, f.tagw), lowest(prog, dec, {f.read_tag.d})
    if not enc or not dec:
        raise Anchor("encoder or decoder not found")
    tags = guarded(ctx, lambda: read_tags(ctx, f), "reading of tags")
    w = guarded(ctx, lambda: writes(ctx, f, enc[0]), "encoder") or {}
    r = guarded(ctx, lambda: reads(ctx, f, dec[0]), "decoder") or {}
    ctx.analysed.extend([enc[0].p, dec[0].p, f.read_tag.p])
    if tags and w and r:
        for vi in sorted(w):
            guarded(ctx, lambda: agree(ctx, f, enc[0], dec[0], vi, w[vi], tags, r), "kind %s" % name(f, vi))
        missing = [name(f, i) for i in range(len(prog.adts[f.kv]["v"])) if i not in w]
        for m in missing:
            ctx.undecide("what the encoder writes for %s" % m)
    guarded(ctx, lambda: header(ctx, f, enc[0], dec[0]), "header")
    guarded(ctx, lambda: digits(ctx, f), "digits")
    guarded(ctx, lambda: bits(ctx, f), "bits")
    guarded(ctx, lambda: numbers(ctx, f), "number chunks")
    guarded(ctx, lambda: codecs(ctx, f), "integers")
    ctx.floor("kinds whose bits agree", 4)
    ctx.floor("kinds whose data agree", 4)


def guarded(ctx, fn, what):
    try:
        return fn()
    except Budget as x:
        ctx.undecide("%s: %s" % (what, x))
    except (KeyError, IndexError, AttributeError, TypeError, ValueError) as x:
        ctx.undecide("%s: %s %s" % (what, type(x).__name__, x))


def lowest(prog, cands, ds):
    """The candidates that lead to one of the functions, and not to another candidate first."""
    from cg import CallGraph
    cg = CallGraph(prog)
    out = []
    ids = {b.d for b in cands}
    for b in cands:
        below = {cg.insts[k].body.d for k in cg.reach([cg.inst(b)], ("call", "hof"))}
        if below & set(ds) and not (below & ids) - {b.d}:
            out.append(b)
    return out


def name(f, vi):
    return f.prog.adts[f.kv]["v"][vi]["n"]


# ---- the reader of tags

def read_tags(ctx, f):
    """variant of the tag -> list of (segments, payload, fields); a segment is a string of bits, ("field", width, term) or ("zeros", term)."""
    prims = {d for d in f.tagr if f.tagr[d] in ("bit", "zeros", "bits")}
    e = absint.Engine(f.prog, Opaque(prims)).run(f.read_tag)
    out = {}
    for x in e.exits:
        if x.kind != "return" or x.ret is None or x.ret.op != "agg" or x.ret.a[0] != RESULT or x.ret.a[1] != 0:
            continue
        k = x.ret.a[2]
        if k.op != "agg":
            ctx.undecide("%s gives %s" % (f.read_tag.p, show(k, 3)))
            continue
        seq = order(f, x.state.facts, k, prims)
        if seq is None:
            ctx.undecide("%s: the order of reads for %s" % (f.read_tag.p, show(k, 3)))
            continue
        segs = []
        for kind, r, n in seq:
            v = mk("fld", r, 0, 0)
            fact = x.state.facts.get(v)
            if kind == "zeros":
                if isinstance(fact, tuple) and fact[0] == "eq":
                    segs.append("0" * fact[1] + "1")
                elif fact in (frozenset([0]), frozenset([1])):
                    segs.append("0" * min(fact) + "1")
                else:
                    m = [c for q, w in x.state.facts.items() if w == frozenset([1]) and q.op == "app" and q.a[0] == "eq" and v in q.a for c in q.a[1:] if c.op == "const"]
                    segs.append("0" * m[0].a[1] + "1" if m else ("zeros", v))
            elif kind == "bit":
                segs.append(str(min(fact)) if fact in (frozenset([0]), frozenset([1])) else ("field", 1, v))
            else:
                segs.append(("field", n.a[1] if n.op == "const" else None, v))
        out.setdefault(k.a[1], []).append((join(segs), k.a[2:]))
        ctx.count("tags recognised")
    return out


def order(f, facts, k, prims):
    """The reads of a path, from the nesting of the reader's states."""
    rs = set()
    for t in list(facts) + list(k.a[2:]):
        for s in subterms(t):
            if s.op == "app" and isinstance(s.a[0], str) and not s.a[0].startswith("mut:") and prim(f, s.a[0]):
                rs.add(s)
    # longest state chain last
    depth = lambda s: sum(1 for q in set(subterms(s)) if q.op == "app" and prim(f, q.a[0].replace("mut:", "")))
    out = sorted(rs, key=depth)
    ds = [depth(s) for s in out]
    if len(set(ds)) != len(ds):
        return None
    return [(prim(f, s.a[0]), s, s.a[2] if len(s.a) > 2 else None) for s in out]


def prim(f, path):
    for d, k in f.tagr.items():
        if f.prog.bodies[d].p == path or f.prog.bodies[d].d == path or last(path) == f.prog.bodies[d].name:
            return k
    return None


def join(segs):
    out = []
    for s in segs:
        if isinstance(s, str) and out and isinstance(out[-1], str):
            out[-1] += s
        else:
            out.append(s)
    return out


# ---- the encoder

def variant_of(f, ev, terms):
    for q, w in ev.facts.items():
        if q in terms:
            if isinstance(w, tuple) and w[0] == "eq":
                return w[1]
            if isinstance(w, frozenset) and len(w) == 1:
                return min(w)
    return None


def writes(ctx, f, b):
    """kind -> list of (segments, chunks, facts, where)."""
    e = absint.Engine(f.prog, Opaque(f.prims())).run(b)
    arg = [e.entry.state.mem[("L", e.root.id, i)] for i in range(1, b.argc + 1)]
    out = {}
    heads = []
    for n, ev, t in e.events():
        if ev.kind == "iter" and any(arg[0] in set(subterms(a)) for a in ev.args[:1]) and not any(s.op == "elem" for s in subterms(ev.args[0])) and hasattr(t, "num"):
            heads.append((n, ev, t))
    if not heads:
        ctx.undecide("%s: the loop over the values" % b.p)
        return out
    again = lambda x: x.kind in ("iter", "iter-end") and x.args[0] is heads[0][1].args[0]
    for n, ev, t in heads:
        item = ev.result
        for seq, end in walk(e, t.num, again):
            if end is not None and (end.kind != "return" or failing(end)):
                continue
            vi = None
            for x in seq:
                v = variant_of(f, x, {item})
                vi = v if v is not None else vi
            if vi is None:
                continue
            got = emitted(ctx, f, b, seq, item, vi)
            if got is not None and not any(same_out(got, o) for o in out.setdefault(vi, [])):
                out[vi].append(got)
    for n, x, t in e.events():
        if x.kind == "local" and body(x) is not None:
            ctx.count("calls in the encoder and decoder")
    return out


def same_out(a, b):
    return a[0] == b[0] and a[1] == b[1]


def failing(x):
    return x.ret is not None and x.ret.op == "agg" and x.ret.a[0] == RESULT and x.ret.a[1] == 1


def emitted(ctx, f, b, seq, item, vi):
    segs, chunks = [], []
    facts = {}
    depth = None
    for x in seq:
        facts.update(x.facts)
        if x.kind == "iter" and depth is None:
            depth = (x.args[0], x.result)
        elif x.kind == "iter-end":
            if depth is None and x is not seq[-1]:
                return None                             # the path that passes no item: another one does
            depth = None
        elif x.kind == "local" and body(x) in f.tagw:
            segs.append((x.args[1], x.args[2], dict(x.facts), x))
        elif x.kind == "push" and len(x.args) > 1:
            chunks.append(("byte", x.args[1], dict(x.facts), x, depth))
        elif x.kind == "ext" and last(x.name) in ("extend_from_slice", "write_all", "extend", "append", "put_slice", "write") and len(x.args) > 1:
            chunks.append(("bytes", x.args[1], dict(x.facts), x, depth))
    return segs, chunks


# ---- the decoder

def reads(ctx, f, b):
    """variant of the tag -> list of (kind rebuilt, payload, reads, where)."""
    e = absint.Engine(f.prog, Opaque(f.prims())).run(b)
    out = {}
    pushes = [ev for n, ev, t in e.events() if ev.kind == "push" and len(ev.args) > 1 and ev.args[1].op == "agg" and ev.args[1].a[0] == f.kv]
    ids = {id(x) for x in pushes}
    starts = []
    for n, ev, t in e.events():
        if hasattr(t, "num") and (ev.kind == "iter" or ev.kind == "local" and body(ev) == f.read_tag.d):
            starts.append((n, ev, t))
    for n, ev, t in starts:
        stop = lambda x: id(x) in ids or x.kind in ("iter", "iter-end") or x.kind == "local" and body(x) == f.read_tag.d
        for seq, end in walk(e, t.num, stop):
            if end is not None or not seq or id(seq[-1]) not in ids:
                continue
            x = seq[-1]
            item = ev.result if ev.kind == "iter" else mk("fld", ev.result, 0, 0)
            if ev.kind != "iter" and item not in x.facts:
                for q in x.facts:
                    if q.op == "fld" and q.a[1:] == (0, 0) and q.a[0].op == "phi" and ev.result in recurrences(e, q.a[0].id)[0]:
                        item = q
            ki = variant_of(f, x, {item})
            if ki is None:
                continue
            rd = [(f.io[body(y)], y.args[1] if len(y.args) > 1 else const("int", 1), mk("fld", y.result, 0, 0), y) for y in seq if y.kind == "local" and body(y) in f.io]
            env = settle(e, [t2 for t2 in x.args[1].a[2:]] + [r[1] for r in rd], [y.result for y in seq if y.kind == "local"])
            rd = [(k, subst(n2, env), subst(v2, env), y) for k, n2, v2, y in rd]
            got = (x.args[1].a[1], tuple(subst(t2, env) for t2 in x.args[1].a[2:]), rd, x, item)
            known = {r[2].a[0] for r in rd}
            phis = sum(1 for t2 in list(got[1]) + [r[1] for r in rd] for s in visible(t2, known) if s.op == "phi")
            out.setdefault(ki, []).append((phis, got))
    res = {}
    for ki, l in out.items():
        best = min(p for p, _ in l)
        res[ki] = [g for p, g in l if p == best]
    return res


def visible(t, known):
    """Subterms, not looking into results of reads."""
    out, todo = [], [t]
    while todo:
        x = todo.pop()
        out.append(x)
        if x not in known:
            todo.extend(y for y in x.a if isinstance(y, absint.T))
    return out


def settle(e, terms, results):
    """Merged values that are, on this path, the result of a call on it."""
    env = {}
    for t in terms:
        for s in subterms(t):
            if s.op == "phi" and s not in env:
                vals = recurrences(e, s.id)[0]
                hit = [r for r in results if r in vals]
                if len(hit) == 1:
                    env[s] = hit[0]
    return env


# ---- agreement

def pattern(segs, facts):
    """What the encoder writes as a tag: strings of bits, ("field", width, value, facts) and ("zeros", value)."""
    out = []
    i = 0
    while i < len(segs):
        v, n, fx, ev = segs[i]
        if n.op != "const":
            # a run of zeros of variable length, closed by a one
            if v.op == "const" and v.a[1] == 0 and i + 1 < len(segs) and segs[i + 1][0].op == "const" and segs[i + 1][1].op == "const" and segs[i + 1][1].a[1] == 1 and segs[i + 1][0].a[1] == 1:
                out.append(("zeros", strip(n)))
                i += 2
                continue
            return "open" if v.op == "const" else None
        w = n.a[1]
        if v.op == "const":
            if v.a[1] >= 1 << w:
                return "too wide"
            out.append(format(v.a[1], "0%db" % w))
        else:
            c = None
            if v.op == "app" and v.a[0] in ("bin:Add", "bin:BitOr"):
                a, x = v.a[1], v.a[2]
                if x.op == "const":
                    a, x = x, a
                cx = cast(x)
                if a.op == "const" and cx and cx[0] == "bool":
                    c = (a.a[1], cx[2])
            if c is not None:
                if c[0] & 1:
                    return "odd"
                out.append(format(c[0] >> 1, "0%db" % (w - 1)) if c[0] >> 1 < 1 << (w - 1) else "too wide")
                out.append(("field", 1, c[1], fx, ev))
            else:
                out.append(("field", w, v, fx, ev))
        i += 1
    return join(out)


def agree(ctx, f, enc, dec, vi, outs, tags, rds):
    nm = name(f, vi)
    for segs, chunks in outs:
        p = pattern(segs, None)
        w = chunks[0][3].where() if chunks else (segs[0][3].where() if segs else enc.where())
        if p is None:
            ctx.undecide("the tag written for %s" % nm)
            continue
        if isinstance(p, str):
            ctx.violation("tag:%s" % nm, "the tag written for %s %s" % (nm, "ends in bits of variable number that nothing closes" if p == "open" else "does not fit its width"), w)
            continue
        hit = match(p, tags)
        if not hit:
            ctx.violation("tag:%s" % nm, "%s writes the tag %s for %s, which the reader of tags does not recognise" % (enc.p, shape(p), nm), w)
            continue
        if len(hit) > 1:
            ctx.undecide("several tags fit what is written for %s" % nm)
            continue
        ki, env, payload = hit[0]
        # widths
        for s in p:
            if s[0] == "field":
                fits(ctx, f, nm, s)
        ctx.count("kinds whose bits agree")
        rl = rds.get(ki)
        if not rl:
            ctx.undecide("what the decoder makes of the tag for %s" % nm)
            continue
        for kv, pay, reads_, ev, item in rl:
            data(ctx, f, nm, vi, kv, pay, reads_, ev, item, ki, env, payload, chunks, p, w)


def shape(p):
    return " ".join(s if isinstance(s, str) else "<%s>" % (s[1] if s[0] == "field" else "zeros") for s in p)


def match(p, tags):
    out = []
    for ki, l in tags.items():
        for segs, payload in l:
            if len(segs) != len(p):
                # a one-bit field that the reader decides on is a literal there
                continue
            env = {}
            ok = True
            for a, b in zip(p, segs):
                if isinstance(a, str) or isinstance(b, str):
                    ok = ok and a == b
                elif a[0] != b[0] or a[0] == "field" and a[1] != b[1]:
                    ok = False
                else:
                    env[b[-1]] = a[2] if a[0] == "field" else a[1]
            if ok:
                out.append((ki, env, payload))
    return out


def limit(f, t, fx):
    """Largest value of a number, if something bounds it."""
    t0 = strip(t)
    l = {k: v for k, v in linear(t).items()}
    base = l.pop(None, 0)
    if len(l) != 1 or list(l.values()) != [1]:
        return None
    x = list(l)[0]
    F = Facts(fx)
    hi = F.range(x, "usize")[1]
    if x.op == "app" and last(x.a[0]) == "len":
        y = strip(x.a[1])
        if y.op == "app":
            for d, k in f.codec.items():
                if last(y.a[0]) == f.prog.bodies[d].name:
                    hi = min(hi, 8 if k == "i64" else 16)
    return hi + base if hi < 1 << 60 else None


def fits(ctx, f, nm, s):
    _, w, v, fx, ev = s
    if w == 1:
        return
    hi = limit(f, v, fx)
    if hi is None or hi >= 1 << w:
        ctx.violation("field:%s" % nm, "for %s the number %s is written with %d bits, which %s" % (nm, show(v, 4), w, "hold less than %d" % hi if hi is not None else "no comparison shows to be enough"), ev.where())


def subst(t, env):
    if t in env:
        return env[t]
    if not isinstance(t, absint.T) or not any(isinstance(x, absint.T) for x in t.a):
        return t
    return mk(t.op, *[subst(x, env) if isinstance(x, absint.T) else x for x in t.a])


def data(ctx, f, nm, vi, kv, pay, reads_, ev, item, ki, env, payload, chunks, p, w):
    env = dict(env)
    for i, x in enumerate(payload):
        env[mk("fld", item, ki, i)] = subst(x, env)
    content = {}
    r = list(reads_)
    c = list(chunks)
    if len(r) != len(c):
        ctx.violation("data:%s" % nm, "for %s the encoder writes %d pieces of data and the decoder reads %d" % (nm, len(c), len(r)), r[0][3].where() if r else w)
        return
    for (kind, elem), size, res, rev in r:
        pass
    for (rk, size, res, rev), (wk, val, fx, wev, loop) in zip(r, c):
        kind, el = rk
        size = rebuilt(f, subst(size, env), content)
        v = strip(val)
        if wk == "byte":
            if kind not in ("byte",) and not (kind == "bytes" and same(size, const("int", 1))):
                ctx.violation("data:%s" % nm, "for %s one byte is written, but %s is read" % (nm, show(size, 3)), rev.where())
                return
            for u in lossy(val):
                fr, to, y = cast(u)
                if fr in INT and to in INT and INT[fr][1] - INT[fr][0] != INT[to][1] - INT[to][0] and not equal(mkcast(to, fr, u), y, Facts(fx)):
                    ctx.violation("data:%s:cut" % nm, "for %s %s is written as one byte, without a comparison that shows it fits" % (nm, show(y, 3)), wev.where())
            env[res] = val
            continue
        conv = v.op == "app" and last(v.a[0]) in ("to_be_bytes", "to_le_bytes", "to_ne_bytes")
        if loop is not None and conv:
            n = nbytes(f, v, vi)
            if kind != "numbers":
                ctx.violation("data:%s" % nm, "for %s a sequence of numbers is written, but %s is read" % (nm, kind), rev.where())
                return
            if n is not None and n != el:
                ctx.violation("data:%s" % nm, "for %s numbers of %d bytes are written, but numbers of %d bytes are read" % (nm, n, el), rev.where())
                return
            src = iterated(loop[0])
            if not same(size, mk("app", "len", src)):
                ctx.violation("data:%s" % nm, "for %s as many numbers are read as %s says, not as many as were written" % (nm, show(size, 4)), rev.where())
            if numbers_order(f, body(rev)) not in (None, last(v.a[0])[3:5]):
                ctx.violation("order:%s" % nm, "the numbers of %s are written with another byte order than they are read" % nm, rev.where())
            env[res] = src
            continue
        if conv:
            n = nbytes(f, v, vi)
            if n is not None and not same(size, const("int", n)):
                ctx.violation("data:%s" % nm, "for %s %d bytes are written, but %s are read" % (nm, n, show(size, 3)), rev.where())
                return
            content[res] = v
            env[res] = mk("sym", "bytes:%d" % len(content))
            content[env[res]] = (last(v.a[0])[3:5], v.a[1], n)
            continue
        if kind == "numbers":
            ctx.violation("data:%s" % nm, "for %s bytes are written, but numbers of %d bytes are read" % (nm, el), rev.where())
            return
        if not same(size, mk("app", "len", v)):
            k = strip(size)
            ctx.violation("data:%s" % nm, "for %s the length that is read, %s, is not the length of what was written, %s" % (nm, show(k, 4), show(v, 4)), rev.where())
            return
        env[res] = v
    ctx.count("kinds whose data agree")
    # the value
    want = f.prog.adts[f.kv]["v"]
    if kv != vi and not alike(f, kv, vi):
        ctx.violation("value:%s" % nm, "what was written as %s is read as %s" % (nm, name(f, kv)), ev.where())
        return
    for i, x in enumerate(pay):
        got = rebuild(f, subst(x, env), content)
        base = input_of(chunks, p, vi, i)
        if base is None:
            continue
        if got is None:
            ctx.undecide("the value rebuilt for %s: %s" % (nm, show(x, 4)))
        elif strip(got) is not strip(base) and not eta(got, base):
            if definite(got):
                ctx.violation("value:%s" % nm, "for %s the decoder rebuilds %s, but %s was written" % (nm, show(got, 5), show(base, 3)), ev.where())
            else:
                ctx.undecide("the value rebuilt for %s: %s" % (nm, show(got, 5)))
        else:
            ctx.count("values rebuilt")


def alike(f, a, b):
    """Two kinds that hold the same data (shared or not)."""
    def core(v):
        t = [x for x in f.prog.adts[f.kv]["v"][v]["f"]]
        if len(t) != 1:
            return None
        t = t[0]["t"]
        while t.k == "adt" and last(t.d) in ("Arc", "Rc", "Box"):
            t = t.a[0]
        return repr(t)
    shared = lambda v: any(last(x.d) in ("Arc", "Rc") for y in f.prog.adts[f.kv]["v"][v]["f"] for x in y["t"].walk() if x.k == "adt")
    return core(a) is not None and core(a) == core(b) and (shared(a) != shared(b))


def iterated(t):
    while t.op == "app" and last(t.a[0]) in ("iter", "into_iter", "copied", "cloned", "iter_mut") and len(t.a) == 2:
        t = t.a[1]
    return strip(t)


def nbytes(f, v, vi):
    """Width of the number whose bytes are written."""
    x = strip(v.a[1])
    if x.op == "elem":
        x = iterated(x.a[0])
    t = None
    if x.op == "fld" and x.a[1] == vi:
        t = f.prog.adts[f.kv]["v"][vi]["f"][x.a[2]]["t"]
    if t is None:
        return None
    if t.k == "adt" and t.a:
        t = t.a[0]
    return width(t)


def input_of(chunks, p, vi, i):
    for t in [c[1] for c in chunks] + [s[2] for s in p if s[0] == "field"] + [s[1] for s in p if s[0] == "zeros"] + [c[4][0] for c in chunks if c[4]]:
        for s in subterms(t):
            if s.op == "fld" and s.a[1] == vi and s.a[2] == i and s.a[0].op == "elem":
                return s
    return None


def rebuild(f, t, content):
    """A value of the decoder, with conversions undone."""
    t = strip(t)
    if t.op == "app":
        for d, k in f.uncodec.items():
            if last(t.a[0]) == f.prog.bodies[d].name and t.a[0].startswith(CR):
                y = strip(t.a[1])
                if y.op == "app":
                    for d2, k2 in f.codec.items():
                        if last(y.a[0]) == f.prog.bodies[d2].name:
                            return y.a[1] if k == k2 else mk("app", "other-codec", y)
                return None
        if last(t.a[0]) in ("from_be_bytes", "from_le_bytes", "from_ne_bytes"):
            a = strip(t.a[1])
            if a.op == "agg" and all(x.op == "idx" for x in a.a[2:]):
                src = {x.a[0] for x in a.a[2:]}
                ix = [x.a[1].a[1] if isinstance(x.a[1], absint.T) and x.a[1].op == "const" else x.a[1] for x in a.a[2:]]
                s = strip(src.pop()) if len(src) == 1 else None
                if s in content:
                    end, v, n = content[s]
                    if end == last(t.a[0])[5:7] and ix == list(range(len(ix))) and (n is None or n == len(ix)):
                        return v
                    return mk("app", "other-order", v)
            elif a in content:
                end, v, n = content[a]
                return v if end == last(t.a[0])[5:7] else mk("app", "other-order", v)
            return None
    if t.op == "agg" and len(t.a) > 2:
        xs = [rebuild(f, x, content) for x in t.a[2:]]
        return None if any(x is None for x in xs) else mk("agg", t.a[0], t.a[1], *[strip(x) for x in xs])
    return t


def rebuilt(f, t, content):
    """The same inside a length."""
    if not isinstance(t, absint.T):
        return t
    if t.op == "app":
        r = rebuild(f, t, content)
        if r is not None and r is not strip(t):
            return r
        return mk("app", t.a[0], *[rebuilt(f, x, content) for x in t.a[1:]])
    return t


def eta(t, base):
    """All the fields of the value, in order."""
    return t.op == "agg" and len(t.a) > 2 and all(strip(x).op == "fld" and strip(x).a[0] is base and strip(x).a[2] == i for i, x in enumerate(t.a[2:]))


def definite(t):
    return not any(s.op == "phi" or s.op == "sym" and str(s.a[0]).startswith("bytes:") for s in subterms(t))


# ---- header

def header(ctx, f, enc, dec):
    """The numbers and chunks around the values."""
    e = absint.Engine(f.prog, Opaque(f.prims())).run(enc)
    arg = e.entry.state.mem[("L", e.root.id, 1)]
    ends = [(n, ev, t) for n, ev, t in e.events() if ev.kind == "iter-end" and any(arg is s for s in subterms(ev.args[0])) and not any(s.op == "elem" for s in subterms(ev.args[0])) and hasattr(t, "num")]
    ws = []
    for n, ev, t in ends:
        for seq, end in walk(e, t.num, lambda x: False):
            if end is not None and end.kind == "return" and not failing(end):
                w = tuple(x for x in seq if x.kind == "ext" and last(x.name) == "write_all" and len(x.args) > 1)
                ws.append(w)
    d = absint.Engine(f.prog, Opaque(f.prims())).run(dec)
    rs = []
    for seq, end in walk(d, d.entry.num, lambda x: x.kind in ("iter", "iter-end")):
        if end is None and seq and seq[-1].kind == "iter":
            rs.append((tuple(x for x in seq if x.kind == "local" and body(x) in f.io), seq))
    if not ws or not rs:
        ctx.undecide("header: the sequence of writes or reads")
        return
    ws = [w for w in ws if len(w) == max(map(len, ws))]
    ws.sort(key=lambda w: sum(1 for x in w for s in subterms(x.args[1])))
    w, (r, seq) = ws[0], rs[0]
    env, content = {}, {}
    for i, x in enumerate(r):
        if i >= len(w):
            ctx.violation("header:missing", "%s reads more before the values than %s writes" % (dec.p, enc.p), x.where())
            return
        kind = f.io[body(x)][0]
        v = strip(w[i].args[1])
        res = mk("fld", x.result, 0, 0)
        one = v.op == "agg" and len(v.a) == 3
        if (kind == "byte") != one:
            ctx.violation("header:%d" % i, "%s writes %s where %s reads %s" % (enc.p, "one byte" if one else show(v, 3), dec.p, "one byte" if kind == "byte" else "more"), x.where())
            return
        if one:
            env[res] = v.a[2]
            continue
        size = rebuilt(f, subst(x.args[1], env), content)
        if not same(size, mk("app", "len", v)):
            ctx.violation("header:%d" % i, "the length %s that %s reads is not the length of %s, which %s writes there" % (show(size, 4), dec.p, show(v, 3), enc.p), x.where())
            return
        env[res] = v
        ctx.count("parts of the header")
    it = seq[-1]
    n = it.args[0]
    if n.op == "agg" and "Range" in last(n.a[0]) and len(n.a) >= 4:
        c = rebuilt(f, subst(n.a[3], env), content)
        if not same(mk("app", "bin:Sub", c, n.a[2]), mk("app", "len", arg)):
            ctx.violation("header:count", "%s reads %s values, but %s of them are written" % (dec.p, show(c, 4), show(mk("app", "len", arg), 3)), it.where())
        else:
            ctx.count("parts of the header")
    if len(w) != len(r) + 1:
        ctx.violation("header:rest", "%s writes %d pieces besides the values' data, %s reads %d" % (enc.p, len(w) - 1, dec.p, len(r)), enc.where())
    # the tags are read from the piece in which they were written
    for x in seq:
        if x.kind == "ext" and last(x.name) == "from_bytes":
            t = subst(x.args[0], env)
            src = {s for s in deep(e, t)}
            if not any(s.op == "app" and last(s.a[0]) == "to_bytes" for s in src):
                ctx.violation("header:tags", "%s takes the tags from %s" % (dec.p, show(t, 4)), x.where())
            else:
                ctx.count("parts of the header")


def deep(e, t):
    out, todo = set(), [t]
    while todo:
        x = todo.pop()
        for s in subterms(x):
            if s not in out:
                out.add(s)
                if s.op == "phi":
                    todo.extend(e.phi_in.get(s.id, ()))
    return out


# ---- digits

def recurrences(e, ph):
    """Values that flow into a loop variable, through other loop variables."""
    out, seen, todo = set(), set(), [ph]
    while todo:
        p = todo.pop()
        if p in seen:
            continue
        seen.add(p)
        for t in e.phi_in.get(p, ()):
            if t.op == "phi":
                todo.append(t.id)
            else:
                out.add(t)
    return out, seen


def power(t):
    """Factor of a multiplication or division by a power of two, as (sign, bits, operand)."""
    if t.op != "app" or len(t.a) != 3:
        return None
    k = t.a[2]
    if k.op != "const":
        k2 = t.a[1]
        if t.a[0] in ("bin:Mul",) and k2.op == "const":
            t = mk("app", t.a[0], t.a[2], k2)
            k = k2
        else:
            return None
    n = k.a[1]
    if t.a[0] == "bin:Div" and n > 0 and n & (n - 1) == 0:
        return -1, n.bit_length() - 1, t.a[1]
    if t.a[0] == "bin:Mul" and n > 0 and n & (n - 1) == 0:
        return 1, n.bit_length() - 1, t.a[1]
    if t.a[0].startswith("bin:Shr"):
        return -1, n, t.a[1]
    if t.a[0].startswith("bin:Shl"):
        return 1, n, t.a[1]
    return None


def phi_of(t):
    t = strip(t)
    return t.id if t.op == "phi" else None


def moves(e, ph):
    """How a loop variable changes from one turn to the next: set of (sign, bits)."""
    vals, ids = recurrences(e, ph)
    out = set()
    for v in vals:
        p = power(strip(v))
        if p is not None and (phi_of(p[2]) in ids or True):
            out.add(p[:2])
    return out


def taken_apart(e):
    """Order in which a function pushes digits: ("little" or "big", bits per digit)."""
    out = set()
    for n, ev, t in e.events():
        if ev.kind != "push" or len(ev.args) < 2:
            continue
        x = ev.args[1]
        for s in subterms(x):
            if s.op != "app" or len(s.a) != 3:
                continue
            if s.a[0] in ("bin:Rem", "bin:BitAnd"):
                y, c = s.a[1], s.a[2]
                if y.op == "const":
                    y, c = c, y
                if c.op == "const" and (s.a[0] == "bin:Rem" and c.a[1] & (c.a[1] - 1) == 0 or s.a[0] == "bin:BitAnd" and (c.a[1] + 1) & c.a[1] == 0 and c.a[1] > 0):
                    w = c.a[1].bit_length() - (1 if s.a[0] == "bin:Rem" else 0)
                    if phi_of(y) is not None:
                        for sg, k in moves(e, phi_of(y)):
                            out.add(("little" if sg < 0 else "?", w, k))
                    elif strip(y).op == "app" and strip(y).a[0].startswith("bin:Shr"):
                        out |= shifted(e, strip(y).a[2], w)
                elif s.a[0] == "bin:BitAnd":
                    for m in (s.a[1], s.a[2]):
                        if phi_of(m) is not None:
                            for sg, k in moves(e, phi_of(m)):
                                out.add(("big" if sg < 0 else "little", k, k))
                        elif strip(m).op == "app" and strip(m).a[0].startswith("bin:Shl"):
                            out |= shifted(e, strip(m).a[2], 1)
    return out


def shifted(e, amount, w):
    it = [s for s in subterms(amount) if s.op == "elem"]
    if not it:
        return set()
    rev = any(s.op == "app" and last(s.a[0]) == "rev" for s in subterms(it[0]))
    return {("big" if rev else "little", w, w)}


def put_together(e):
    """Order in which digits are put together: ("little" or "big", bits per digit)."""
    out = set()
    for ph in list(e.phi_in):
        vals, ids = recurrences(e, ph)
        for v in vals:
            v = strip(v)
            if v.op == "app" and v.a[0] in ("bin:Add", "bin:BitOr", "bin:BitXor") and len(v.a) == 3:
                for a, d in ((v.a[1], v.a[2]), (v.a[2], v.a[1])):
                    acc = phi_of(a)
                    p = power(strip(a))
                    ms = set()
                    if p is not None and p[0] > 0 and phi_of(p[2]) is not None:
                        ms = {p[:2]}
                    elif p is not None and p[0] < 0 and phi_of(p[2]) is not None:
                        rev = any(s.op == "app" and last(s.a[0]) == "rev" for s in subterms(d))
                        out.add(("big" if rev else "little", p[1]))
                    elif acc is not None:
                        ms = {q for q in moves(e, acc) if q[0] > 0}
                    src = [s for s in subterms(d) if s.op == "elem" or s.op in ("phi", "app") and not s.a[0] in ids]
                    if ms and not (strip(d).op == "const"):
                        rev = any(s.op == "app" and last(s.a[0]) == "rev" for s in subterms(d))
                        for sg, k in ms:
                            out.add(("little" if rev else "big", k))
    return out


def digit_fns(f, roots, want):
    """Functions among or below the roots for which want finds digits."""
    from cg import CallGraph
    cg = CallGraph(f.prog)
    seen = cg.reach([cg.inst(b) for b in roots], ("call", "hof"))
    out = []
    for k in seen:
        b = cg.insts[k].body
        if b.crate == CR and b.kind == "fn":
            e = absint.Engine(f.prog, Slice((), 0, (CR,))).run(b)
            r = want(e)
            if r:
                out.append((b, r))
    return out


def digits(ctx, f):
    for ty in ("i64", "i128"):
        ws = [f.prog.bodies[d] for d, k in f.codec.items() if k == ty]
        rs = [f.prog.bodies[d] for d, k in f.uncodec.items() if k == ty]
        if not ws or not rs:
            continue
        a = digit_fns(f, ws, taken_apart)
        c = digit_fns(f, rs, put_together)
        compare(ctx, f, "integers of type %s" % ty, a, c)


def bits(ctx, f):
    a = digit_fns(f, list(f.tagw.values()), taken_apart)
    c = digit_fns(f, [f.prog.bodies[d] for d, k in f.tagr.items() if k == "bits"], put_together)
    compare(ctx, f, "bits of a tag", a, c)
    for d, k in f.tagr.items():
        if k == "zeros":
            zeros(ctx, f, f.prog.bodies[d])


def zeros(ctx, f, b):
    """Counts zeros up to the next one."""
    e = absint.Engine(f.prog, Opaque({d for d, k in f.tagr.items() if k == "bit"})).run(b)
    for x in e.exits:
        if x.kind == "return" and x.ret is not None and x.ret.op == "agg" and x.ret.a[0] == RESULT and x.ret.a[1] == 0:
            bit = [w for q, w in x.state.facts.items() if q.op == "fld" and q.a[1] == 0]
            if bit and all(w == frozenset([0]) for w in bit):
                ctx.violation("digits:zeros:%s" % b.p, "%s stops at a zero, but the tags are written as zeros closed by a one" % b.p, b.where())
                return
            v = x.ret.a[2]
            if v.op == "const" and v.a[1] != 0:
                ctx.violation("digits:zeros:%s" % b.p, "%s counts %s for a one that comes at once" % (b.p, v.a[1]), b.where())
                return
    ctx.count("digit loops compared")


def compare(ctx, f, what, a, c):
    if not a or not c:
        ctx.undecide("the order of the digits of %s" % what)
        return
    ws = {(o, w, k) for b, r in a for o, w, k in r}
    rs = {(o, k) for b, r in c for o, k in r}
    where = a[0][0].where()
    for o, w, k in ws:
        if o != "?" and w != k:
            ctx.violation("digits:%s" % what, "%s: the %s are taken apart in digits of %d bits, but the number moves by %d bits" % (a[0][0].p, what, w, k), where)
            return
    if len(ws) == 1 and len(rs) == 1:
        (o, w, k), (o2, k2) = list(ws)[0], list(rs)[0]
        if o == "?":
            ctx.undecide("the order of the digits of %s" % what)
        elif (o, k) != (o2, k2):
            ctx.violation("digits:%s" % what, "the %s are written %s end first with %d bits per digit by %s, but read %s end first with %d bits by %s" % (what, o, k, a[0][0].p, o2, k2, c[0][0].p), where)
        else:
            ctx.count("digit loops compared")
    else:
        ctx.undecide("the order of the digits of %s: %s, %s" % (what, sorted(ws), sorted(rs)))


# ---- chunks of numbers

def numbers_order(f, d):
    b = f.prog.bodies.get(d)
    if b is None:
        return None
    e = absint.Engine(f.prog, Slice((), 0, (CR,))).run(b)
    o = {last(ev.name)[5:7] for n, ev, t in e.events() if last(ev.name or "") in ("from_be_bytes", "from_le_bytes")}
    return o.pop() if len(o) == 1 else None


def numbers(ctx, f):
    for d, (k, w) in f.io.items():
        if k != "numbers":
            continue
        b = f.prog.bodies[d]
        e = absint.Engine(f.prog, Slice((), 0, (CR,))).run(b)
        arg = e.entry.state.mem[("L", e.root.id, 2)]
        for n, ev, t in e.events():
            if ev.kind == "iter" and ev.args[0].op == "agg" and "Range" in last(ev.args[0].a[0]):
                lo, hi = ev.args[0].a[2:4]
                if lo.op == "const" and strip(hi) is arg:
                    k = 1 if "Inclusive" in last(ev.args[0].a[0]) else 0
                    if lo.a[1] != k:
                        ctx.violation("data:count:%s" % b.p, "%s reads %s numbers more than asked for" % (b.p, k - lo.a[1]), b.where())
                    else:
                        ctx.count("number readers")
                elif lo.op == "const" and not same(hi, arg):
                    ctx.violation("data:count:%s" % b.p, "%s reads as many numbers as %s says" % (b.p, show(hi, 4)), b.where())


# ---- integers

def codecs(ctx, f):
    for ty in ("i64", "i128"):
        ws = [f.prog.bodies[d] for d, k in f.codec.items() if k == ty]
        rs = [f.prog.bodies[d] for d, k in f.uncodec.items() if k == ty]
        if len(ws) == 1 and len(rs) == 1:
            sign(ctx, f, ty, ws[0], rs[0])


def affine(t, base):
    """(a, b) with t = a * base + b."""
    l = linear(t)
    rest = {k: v for k, v in l.items() if k is not None}
    if len(rest) == 1:
        k = list(rest)[0]
        if base(k):
            return rest[k], l.get(None, 0)
    return None


def sign(ctx, f, ty, wb, rb):
    """Negative numbers: the mapping, the sign bit, and the room for it."""
    e = absint.Engine(f.prog, Slice((), 0, (CR,))).run(wb)
    x0 = e.entry.state.mem[("L", e.root.id, 1)]
    maps = {}
    mark = {}
    for x in e.exits:
        if x.kind != "return" or x.ret is None:
            continue
        neg = [w for q, w in x.state.facts.items() if q.op == "app" and q.a[0] == "lt" and q.a[1] is x0 and q.a[2].op == "const" and q.a[2].a[1] == 0]
        if len(neg) != 1 or neg[0] not in (frozenset([0]), frozenset([1])):
            ctx.undecide("%s: the sign" % wb.p)
            return
        neg = min(neg[0])
        for s in subterms(x.ret):
            if s.op == "app" and isinstance(s.a[0], str) and s.a[0].startswith(CR) and len(s.a) == 2:
                m = affine(s.a[1], lambda k: k is x0)
                if m:
                    maps.setdefault(neg, set()).add(m)
        ors = {y.a[1] for s in subterms(x.ret) if s.op == "app" and s.a[0] in ("bin:BitOr", "bin:BitXor", "bin:Add") and any(u.op == "idx" for u in subterms(s)) for y in s.a[1:] if y.op == "const"}
        mark.setdefault(neg, set()).add(frozenset(ors))
    e2 = absint.Engine(f.prog, Slice((), 0, (CR,))).run(rb)
    back, test = {}, set()
    for x in e2.exits:
        if x.kind != "return" or x.ret is None or x.ret.op == "const":
            continue
        bit = [(q, w) for q, w in x.state.facts.items() if q.op == "app" and q.a[0] == "eq" and any(s.op == "app" and s.a[0] == "bin:BitAnd" for s in subterms(q))]
        if len(bit) != 1:
            ctx.undecide("%s: the sign" % rb.p)
            return
        q, w = bit[0]
        neg = 1 - min(w) if any(y.op == "const" and y.a[1] == 0 for y in q.a[1:]) else min(w)
        sb = [s for s in subterms(q) if s.op == "app" and s.a[0].startswith("bin:Shl")]
        if sb and sb[0].a[1].op == "const":
            test.add((sb[0].a[1].a[1], sb[0].a[2]))
        m = affine(x.ret, lambda k: any(s.op == "app" and isinstance(s.a[0], str) and s.a[0].startswith(CR) for s in subterms(k)))
        cleared = any(s.op == "app" and s.a[0] in ("bin:BitXor", "bin:BitAnd", "bin:Sub") and any(t.op == "app" and str(t.a[0]).startswith("bin:Shl") for t in subterms(s)) for s in subterms(x.ret))
        if m:
            back.setdefault(neg, set()).add((m, cleared))
    if not all(len(maps.get(k, ())) == 1 and len(back.get(k, ())) == 1 for k in (0, 1)):
        ctx.undecide("%s, %s: how negative numbers are mapped" % (wb.p, rb.p))
        return
    for k in (0, 1):
        (a, b), ((c, d), cl) = list(maps[k])[0], list(back[k])[0]
        if (c * a, c * b + d) != (1, 0):
            ctx.violation("sign:%s" % ty, "%s maps a%s number n to %d*n%+d, and %s does not map it back (%d*m%+d)" % (wb.p, " negative" if k else "n unsigned", a, b, rb.p, c, d), rb.where())
            return
        if k == 1 and not cl:
            ctx.violation("sign:%s" % ty, "%s leaves the sign bit in the number" % rb.p, rb.where())
            return
    m1 = mark.get(1, set())
    if len(m1) == 1 and len(list(m1)[0]) == 1 and len(test) == 1:
        w, (r, sh) = list(list(m1)[0])[0], list(test)[0]
        if w != r:
            ctx.violation("sign:%s" % ty, "%s marks negative numbers with %#x, %s looks for %#x" % (wb.p, w, rb.p, r), rb.where())
            return
        if w != 1 << (w.bit_length() - 1):
            ctx.violation("sign:%s" % ty, "the mark %#x of negative numbers is not one bit" % w, wb.where())
            return
        l = linear(sh)
        if {k: v for k, v in l.items()}.get(None, 0) != -8 or sorted(v for k, v in l.items() if k is not None) != [8]:
            ctx.violation("sign:%s" % ty, "%s looks for the sign bit at %s, not in the last byte" % (rb.p, show(sh, 5)), rb.where())
            return
        room(ctx, f, ty, wb, e, x0, w, maps)
        ctx.count("signs compared")
    else:
        ctx.undecide("%s: the sign bit" % wb.p)


def room(ctx, f, ty, wb, e, x0, bit, maps):
    """The number of bytes leaves the sign bit free: counted up to the value of the bit, with the same digits."""
    for n, ev, t in e.events():
        d = body(ev)
        if ev.kind != "local" or d is None or repr(f.prog.bodies[d].locals[0]) != "usize":
            continue
        b = f.prog.bodies[d]
        e2 = absint.Engine(f.prog, Slice((), 0, (CR,))).run(b)
        x1 = e2.entry.state.mem[("L", e2.root.id, 1)]
        lim = set()
        for x in e2.exits:
            if x.kind == "return":
                for q, w in x.state.facts.items():
                    if q.op == "app" and q.a[0] == "lt" and q.a[1] is not x1 and w in (frozenset([0]), frozenset([1])):
                        if q.a[2].op == "const" and w == frozenset([1]):
                            lim.add(q.a[2].a[1])
                        elif q.a[1].op == "const" and w == frozenset([0]):
                            lim.add(q.a[1].a[1] + 1)
                        neg = [v for q2, v in x.state.facts.items() if q2.op == "app" and q2.a[0] == "lt" and q2.a[1] is x1 and q2.a[2].op == "const" and q2.a[2].a[1] == 0]
                        m = affine(q.a[1], lambda k: k is x1)
                        if m and len(neg) == 1 and maps.get(min(neg[0])) and m not in maps[min(neg[0])]:
                            ctx.violation("sign:room:%s" % ty, "%s counts the bytes of %d*n%+d, but %d*n%+d is written" % ((b.p,) + m + list(maps[min(neg[0])])[0]), b.where())
                            return
        if len(lim) == 1 and list(lim)[0] > bit:
            ctx.violation("sign:room:%s" % ty, "%s counts the bytes up to %d, so that the bit %#x of the last byte may be taken" % (b.p, list(lim)[0] - 1, bit), b.where())
            return
        steps = {k for ph in e2.phi_in for k in moves(e2, ph) if k[0] < 0}
        if len(steps) == 1 and list(steps)[0][1] != 8:
            ctx.violation("sign:room:%s" % ty, "%s counts digits of %d bits, not bytes" % (b.p, list(steps)[0][1]), b.where())
