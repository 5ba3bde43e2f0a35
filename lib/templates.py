"""Texts that functions write: literal pieces and the values put between them."""

import models


def decode(bs):
    """Pieces of a format string in compiled form; None stands for a value."""
    return [x if isinstance(x, str) else None for x in pieces(bs)]


def pieces(bs):
    """Pieces of a format string in compiled form; a number stands for the value of that position."""
    out, i, nxt = [], 0, 0
    if isinstance(bs, str):
        return [bs]
    while i < len(bs):
        n = bs[i]
        i += 1
        if n == 0:
            break
        if n < 0x80:
            out.append(bs[i:i + n].decode("utf8", "replace"))
            i += n
        elif n == 0x80:
            k = bs[i] | bs[i + 1] << 8
            out.append(bs[i + 2:i + 2 + k].decode("utf8", "replace"))
            i += 2 + k
        else:
            # a value; the low bits tell which of flags (4 bytes), width, precision and position (2 bytes each) follow
            if n & 1:
                i += 4
            for m in (2, 4):
                if n & m:
                    i += 2
            if n & 8:
                nxt = bs[i] | bs[i + 1] << 8
                i += 2
            out.append(nxt)
            nxt += 1
    return out


def constants(b):
    """(line, pieces) of every text constant of a body, in the order of the source."""
    out = []
    for i in sorted(b.reach):
        bl = b.blocks[i]
        ops = [(s.ln, o) for s in bl.s if s.k == "=" and s.rv is not None for o in s.rv.a]
        if bl.t.k == "call":
            ops += [(bl.t.ln, o) for o in bl.t.args]
        for ln, o in ops:
            if getattr(o, "k", None) == "c":
                k, v = kind(o.c)
                if k == "str":
                    out.append((ln, [v]))
                elif k == "bytes":
                    out.append((ln, decode(v)))
    return out


def kind(c):
    return c.kind, c.v


class Hole:
    """A value put into a text: its term, and which way round the enclosing loops it belongs to."""
    __slots__ = ("t", "tags")

    def __init__(self, t, tags=()):
        self.t, self.tags = t, tags

    def key(self):
        return self.t.id, self.tags

    def __eq__(self, o):
        return isinstance(o, Hole) and self.key() == o.key()

    def __hash__(self):
        return hash(self.key())


class TooMany(Exception):
    pass


def complete(a):
    """Is this the text of whole items, each with its closing brace?"""
    s = "".join(x if isinstance(x, str) else "_" for x in a).strip()
    return not s or (s.endswith("}") and s.count("{") == s.count("}"))


def lines(a):
    """Lines of a text, values told apart by what they are."""
    out, cur = set(), []
    for x in a:
        if isinstance(x, str):
            for i, y in enumerate(x.split("\n")):
                if i:
                    out.add(tuple(cur))
                    cur = []
                if y:
                    cur.append(y)
        else:
            cur.append(x.t.id)
    out.add(tuple(cur))
    return out


def needed(alts, seen=()):
    """The texts without those all of whose lines are in the others; one at least."""
    seen, out = set(seen), []
    alts = list(alts)
    for a in sorted(alts, key=len, reverse=True):
        ls = lines(a)
        if not ls <= seen:
            seen |= ls
            out.append(a)
    return out or alts[:1]


class Texts:
    """The texts a function of the generator writes, read off the value of its text buffer: what is appended one after
    another is a sequence, a join is a choice and a loop is taken once for each way round it."""

    def __init__(self, e, prog, append, whole, limit=4000):
        self.e, self.prog, self.append, self.whole, self.limit = e, prog, append, whole, limit
        self.memo = {}
        self.nodes = {n.num: n for n in (e.nodes.values() if isinstance(e.nodes, dict) else e.nodes)}
        self.frames = {n.fr.id: n.fr for n in self.nodes.values()}
        self.loops = {}
        self.ins = {}
        self.groups = {}
        self.blank = []
        self.counter = 0

    def alts(self, t):
        """Every text the term can be, as a list of piece tuples."""
        if t.id not in self.memo:
            self.memo[t.id] = None
            self.memo[t.id] = self.compute(t)
        r = self.memo[t.id]
        if r is None:
            raise TooMany("a text that contains itself")
        return r

    def seq(self, *parts):
        out = [()]
        for p in parts:
            if len(out) > 1 and len(p) > 1 and all(complete(x) for x in p):
                # whole items stand for themselves: each is taken with some of what goes before
                n = max(len(out), len(p))
                out = list(dict.fromkeys(out[i % len(out)] + p[i % len(p)] for i in range(n)))
                continue
            if len(out) * len(p) > self.limit:
                raise TooMany("%d texts" % (len(out) * len(p)))
            out = [a + b for a in out for b in p]
        return out

    def inputs(self, p):
        """What a join can be, without what was there before an earlier join was known to be one."""
        if p.id not in self.ins:
            xs = sorted(self.e.phi_in.get(p.id, ()), key=lambda y: y.id)
            drop = set()
            for z in xs if len(self.loop_of(p)[1]) == 1 else ():
                for q in self.heads(z):
                    if q is not p:
                        drop |= {models.subst_term(z, q, y, {}) for y in self.e.phi_in.get(q.id, ()) if y is not z}
            ys = [x for x in xs if x not in drop]
            self.ins[p.id] = ys or xs
        return self.ins[p.id]

    def heads(self, z):
        """Joins the value starts with."""
        while z.op in ("app", "agg") and len(z.a) > 1:
            i = 1 if z.op == "app" else 2
            if len(z.a) <= i or not isinstance(z.a[i], type(z)):
                break
            z = z.a[i]
        return [z] if z.op == "phi" else []

    def unchain(self, t):
        """What the text starts with, and what is appended to that, the last first."""
        chain, seen = [], set()
        while True:
            if t.op == "phi" and t.id not in seen:
                seen.add(t.id)
                xs = self.inputs(t)
                if len(xs) == 1:
                    t = xs[0]
                    continue
            if t.op == "app" and t.a[0].startswith("fmt:") and len(t.a) == 2:
                t = t.a[1]
                continue
            if t.op == "app":
                r = self.append(t)
                if r is not None:
                    chain.append(r[1:])
                    t = r[0]
                    continue
                w = self.whole(t)
                if w is not None:
                    t = w
                    continue
            if t.op == "agg" and len(t.a) == 3 and isinstance(t.a[2], type(t)):
                t = t.a[2]
                continue
            return t, chain

    def appended(self, base, chain):
        for x, end in reversed(chain):
            base = self.seq(base, self.alts(x), [(end,) if end else ()])
        return base

    def compute(self, t):
        t, chain = self.unchain(t)
        return self.appended(self.base(t), chain)

    def around(self, t):
        """The joins that form one loop with this one, and (starting text, what it is continued by) for each way into
        them: the start is None if it is one of the joins."""
        if t.id in self.groups:
            return self.groups[t.id]
        succ, terms, order = {}, {t.id: t}, [t]
        for p in order:
            succ[p.id] = []
            for x in self.inputs(p):
                b, ch = self.unchain(x)
                succ[p.id].append((b, ch))
                if b.op == "phi" and b.id not in terms:
                    terms[b.id] = b
                    order.append(b)

        for comp in components({i: [b.id for b, _ in succ[i] if b.op == "phi"] for i in terms}):
            grp = set(comp)
            ways = [(None if b.id in grp else b, ch) for j in sorted(grp) for b, ch in succ[j]]
            g = ([terms[j] for j in sorted(grp)], ways)
            for j in grp:
                self.groups[j] = g
        return self.groups[t.id]

    def base(self, t):
        if self.number(t):
            return [(str(t.a[1]) if t.op == "const" else Hole(t),)]
        if t.op == "const":
            v = t.a[1]
            return [(v,)] if isinstance(v, str) and v else [()]
        if t.op == "app":
            nm, args = t.a[0].rsplit("::", 1)[-1], t.a[1:]
            if nm == "from_str" and len(args) == 1:
                return self.alts(args[0])
            if nm == "format" and len(args) == 1:
                return self.alts(args[0])
            if nm == "new" and len(args) == 2 and args[0].op == "const" and isinstance(args[0].a[1], bytes):
                vals = [x for x in args[1].a[2:]]
                parts = []
                for p in pieces(args[0].a[1]):
                    if isinstance(p, str):
                        parts.append([(p,)])
                    else:
                        v = vals[p]
                        while v.op == "app" and v.a[0].startswith("fmt:"):
                            v = v.a[1]
                        parts.append(self.alts(v))
                return self.seq(*parts)
            if nm in ("concat", "join") and args and args[0].op == "agg" and args[0].a[0] == "[]":
                parts = []
                for i, x in enumerate(args[0].a[2:]):
                    if i and len(args) == 2:
                        parts.append(self.alts(args[1]))
                    parts.append(self.alts(x))
                return self.seq(*parts)
            if nm in ("new", "with_capacity") and all(x.op == "const" for x in args):
                return [()]
            return [(Hole(t),)]
        if t.op == "phi":
            grp, ways = self.around(t)
            start, body = [], []
            for b, ch in ways:
                if b is None:
                    body += self.appended([()], ch)
                else:
                    start += self.appended(self.alts(b), ch)
            start = list(dict.fromkeys(start))
            body = needed(a for a in dict.fromkeys(body) if a)
            if not body:
                return needed(start)
            frbs = {self.loop_of(p) for p in grp}
            tail = ()
            for a in body:
                self.counter += 1
                tail += tuple(self.tagged(p, frbs, self.counter) for p in a)
            out = []
            start.sort(key=len)
            first = start[0]
            rest = needed(start[1:], lines(tail) | lines(first)) if len(start) > 1 else []
            for s in [first] + [x for x in rest if not lines(x) <= lines(tail) | lines(first)]:
                self.counter += 1
                # a first time round the loop may have been taken apart from the others
                out.append(tuple(self.tagged(p, frbs, self.counter) for p in s) + tail)
            return out
        return [(Hole(t),)]

    def number(self, t, seen=()):
        """Is the value an integer?"""
        if t.op == "const":
            return t.a[0] == "int"
        if t.op in ("bin", "add", "sub", "len", "cast"):
            return True
        if t.op == "app" and (t.a[0] in ("len", "add", "sub", "count") or self.e.app_ty.get(t.id) is not None and self.e.app_ty[t.id].k == "int"):
            return True
        if t.op == "phi" and t.id not in seen:
            return any(self.number(x, tuple(seen) + (t.id,)) for x in self.e.phi_in.get(t.id, ()))
        return False

    def tagged(self, p, frbs, n):
        if not isinstance(p, Hole):
            return p
        done = {h for h, _ in p.tags}
        hit = sorted({x.a[1] for x in subterms(p.t) if x.op == "elem" and x.a[1] not in done and self.within(x.a[1], frbs)})
        return Hole(p.t, p.tags + tuple((h, n) for h in hit)) if hit else p

    def within(self, loc, frbs):
        """Is the call, or the call it is part of, in one of the loops?"""
        fr = self.frames.get(loc[0])
        bb = loc[1]
        while fr is not None:
            if any(fr.id == f and bb in bs for f, bs in frbs):
                return True
            bb, fr = fr.bb, fr.parent
        return False

    def loop_of(self, t):
        """Frame and blocks of the loop at whose head the choice is made."""
        n = self.nodes[t.a[0]]
        k = (n.fr.id, n.bb)
        if k not in self.loops:
            self.loops[k] = (n.fr.id, frozenset(natural(n.fr.body, n.bb)))
        return self.loops[k]


def components(succ):
    """Strongly connected components."""
    num, low, on, st, out, k = {}, {}, set(), [], [], 0
    for r in succ:
        if r in num:
            continue
        work = [(r, iter(succ[r]))]
        num[r] = low[r] = k = k + 1
        st.append(r)
        on.add(r)
        while work:
            v, it = work[-1]
            for w in it:
                if w not in num:
                    num[w] = low[w] = k = k + 1
                    st.append(w)
                    on.add(w)
                    work.append((w, iter(succ[w])))
                    break
                if w in on:
                    low[v] = min(low[v], num[w])
            else:
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[v])
                if low[v] == num[v]:
                    c = []
                    while True:
                        w = st.pop()
                        on.discard(w)
                        c.append(w)
                        if w == v:
                            break
                    out.append(c)
    return out


def subterms(t):
    seen, st = set(), [t]
    while st:
        x = st.pop()
        if id(x) in seen:
            continue
        seen.add(id(x))
        if isinstance(x, tuple):
            st.extend(x)
        elif hasattr(x, "op"):
            yield x
            st.extend(x.a)


def natural(b, h):
    """Blocks of the loop with this head."""
    def run(start, avoid, step):
        seen, st = set(start), list(start)
        while st:
            for y in step(st.pop()):
                if y not in seen and y != avoid:
                    seen.add(y)
                    st.append(y)
        return seen
    free = run({0} - {h}, h, lambda x: b.blocks[x].t.succs())
    pred = {}
    for i in b.reach:
        for y in b.blocks[i].t.succs():
            pred.setdefault(y, []).append(i)
    back = {u for u in pred.get(h, ()) if u not in free and u != h}
    return run(back, h, lambda x: pred.get(x, ())) | {h}
