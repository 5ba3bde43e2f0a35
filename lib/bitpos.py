"""Numbers kept as positions of bits: what a position stands for where it is set and where it is looked at.

A position is followed as a sum.  Something counted up in a loop is known by where it starts and by how much it grows; a mask shifted
along in a loop is known by the position it marks, in the same way.  Two sums are the same position when they differ by whole words.
Anything else is left alone: nothing is said of a position that cannot be worked out.
"""
import absint
from absint import T, show, subterms

WORD = 64


def parts(t):
    p = t.a[2:] if t.op == "agg" else t.a[1:]
    if len(p) == 1 and isinstance(p[0], tuple):
        p = p[0]
    return p


def number(t):
    if isinstance(t, T) and t.op == "const" and isinstance(t.a[-1], int) and not isinstance(t.a[-1], bool):
        return t.a[-1]
    for x in t.a if isinstance(t, T) and t.op == "const" else ():
        if isinstance(x, int):
            return x
    return None


def plain(t):
    while isinstance(t, T) and t.op in ("cast",):
        t = next(x for x in t.a if isinstance(x, T))
    return t


def binop(t, *names):
    t = plain(t)
    if isinstance(t, T) and t.op == "app" and isinstance(t.a[0], str) and t.a[0].startswith("bin:"):
        n = t.a[0][4:].replace("WithOverflow", "").replace("Unchecked", "")
        if n in names:
            a, b = t.a[1:3] if not isinstance(t.a[1], tuple) else t.a[1]
            return n, plain(a), plain(b)
    return None


class Sum:
    """const + sum of coef * thing, the things being ("count", starts, steps) or a term."""

    def __init__(self, c=0, d=None):
        self.c, self.d = c, {k: v for k, v in (d or {}).items() if v}

    def __add__(self, o):
        d = dict(self.d)
        for k, v in o.d.items():
            d[k] = d.get(k, 0) + v
        return Sum(self.c + o.c, d)

    def times(self, n):
        return Sum(self.c * n, {k: v * n for k, v in self.d.items()})

    def __sub__(self, o):
        return self + o.times(-1)

    def whole_words(self):
        """True / False, None when it cannot be told."""
        if self.c % WORD:
            return False
        for k, v in self.d.items():
            if k[0] == "count":
                if v * min(k[1]) % WORD or any(v * x % WORD for x in k[1]) or any(v * s % WORD for s in k[2]):
                    return False
            elif v % WORD:
                return None
        return True


class Positions:
    def __init__(self, e):
        self.e = e

    def counted(self, t, step, start):
        """A phi counted up: where it starts, by how much it grows."""
        todo, seen = [t], {t.id}
        starts, steps = set(), set()
        while todo:
            x = todo.pop()
            if x.op == "phi":
                new = list(self.e.phi_in.get(x.id, ()))
            else:
                s = step(x)
                if s is None:
                    n = start(x)
                    if n is None:
                        return None
                    starts.add(n)
                    continue
                steps.add(s[1])
                new = [s[0]]
            for y in new:
                y = plain(y)
                if y.id not in seen:
                    seen.add(y.id)
                    todo.append(y)
        if not starts:
            return None
        m = min(starts)
        if len(steps) == 1:
            g = next(iter(steps))
            starts = {x for x in starts if x == m or g <= 0 or (x - m) % g}
        return Sum(m, {("count", frozenset(x - m for x in starts), frozenset(steps)): 1}) if steps or len(starts) > 1 else Sum(m)

    def sum(self, t, depth=0):
        t = plain(t)
        n = number(t)
        if n is not None:
            return Sum(n)
        if depth > 12:
            return None
        b = binop(t, "Add", "Sub", "Mul", "Shl")
        if b:
            x, y = self.sum(b[1], depth + 1), self.sum(b[2], depth + 1)
            if x is None or y is None:
                return None
            if b[0] == "Add":
                return x + y
            if b[0] == "Sub":
                return x - y
            if b[0] == "Mul" and not y.d:
                return x.times(y.c)
            if b[0] == "Mul" and not x.d:
                return y.times(x.c)
            if b[0] == "Shl" and not y.d and 0 <= y.c < 64:
                return x.times(1 << y.c)
            return None
        if t.op == "phi":
            def step(x):
                b = binop(x, "Add")
                if b:
                    for p, q in ((b[1], b[2]), (b[2], b[1])):
                        if p.op == "phi" and number(q) is not None:
                            return p, number(q)

            def start(x):
                s = self.sum(x, depth + 1) if x.op != "phi" else None
                return s.c if s is not None and not s.d else None
            return self.counted(t, step, start)
        return Sum(0, {("term", t.id): 1})

    def mask(self, t):
        """The position a mask of one bit marks."""
        t = plain(t)
        n = number(t)
        if n is not None:
            return Sum(n.bit_length() - 1) if n > 0 and not n & (n - 1) else None
        b = binop(t, "Shl")
        if b:
            if number(b[1]) == 1:
                return self.sum(b[2])
            x, y = self.mask(b[1]), self.sum(b[2])
            return x + y if x is not None and y is not None else None
        if t.op == "phi":
            def step(x):
                b = binop(x, "Shl")
                if b and b[1].op == "phi" and number(b[2]) is not None:
                    return b[1], number(b[2])

            def start(x):
                s = self.mask(x) if x.op != "phi" else None
                return s.c if s is not None and not s.d else None
            return self.counted(t, step, start)
        return None

    def tested(self, t, v):
        """(word, mask, set?) of a fact about one bit."""
        if t.op == "app" and t.a[0] in ("eq", "ne") and len(t.a) == 3 and isinstance(v, frozenset) and len(v) == 1:
            want = 1 if t.a[0] == "eq" else 0
            for p, q in ((t.a[1], t.a[2]), (t.a[2], t.a[1])):
                b = binop(q, "BitAnd")
                if not b:
                    continue
                for w, m in ((b[1], b[2]), (b[2], b[1])):
                    if self.mask(m) is None:
                        # (word >> position) & 1
                        continue
                    s = binop(w, "Shr")
                    if s and number(m) == 1:
                        if number(p) in (0, 1):
                            yield s[1], None, self.sum(s[2]), (v == frozenset([want])) == (number(p) == 1)
                        continue
                    if w.op == "phi" or s:
                        yield w, m, None, True      # the word itself moves along
                        continue
                    if number(p) == 0:
                        yield w, m, self.mask(m), v != frozenset([want])
                    elif plain(p) is plain(m):
                        yield w, m, self.mask(m), v == frozenset([want])


def same(a, b):
    d = a - b
    return not d.c and not d.d


def lookups(facts):
    for t, v in facts.items():
        if t.op == "app" and t.a[0] == "get" and len(t.a) == 3 and v == frozenset([1]):
            yield t.a[1], t.a[2]


def reader(ctx, e, results):
    """Bits looked at by the reader: `results` are (event, number a rebuilt member is kept under)."""
    ps = Positions(e)
    seen, words, masks = set(), {}, {}
    for ev, k in results:
        bits = [x for t, v in ev.facts.items() for x in ps.tested(t, v)]
        kk = ps.sum(k)
        if kk is None:
            continue
        ls = [y for x, y in lookups(ev.facts)]
        if ls:
            ctx.count("numbers looked up")
            if not any(y is k for y in ls):
                ss = [ps.sum(y) for y in ls]
                if all(s is not None for s in ss) and not any(same(s, kk) for s in ss):
                    key = ("lookup", ev.where())
                    if key not in seen:
                        seen.add(key)
                        ctx.violation("looked-up %s" % ev.fr.body.p, "a member is read as the one of one number and kept under another", ev.where())
        if not bits:
            continue
        if any(p is None for w, m, p, s in bits):
            continue
        ctx.count("bits looked at")
        good = False
        whole = []
        for w, m, p, s in bits:
            d = kk - p
            r = d.whole_words()
            whole.append(r)
            if r and s:
                good = True
                words.setdefault((ev.where(), w.id), [w, ev, set()])[2].add("none" if not d.d and not d.c else "counted" if d.d and all(q[0] == "count" for q in d.d) else "other")
            if m is not None:
                masks.setdefault(w.id, set()).add(m.id)
        if not good and None not in whole:
            key = ("bit", ev.where())
            if key not in seen:
                seen.add(key)
                ctx.violation("bit %s" % ev.fr.body.p, "a member is kept under a number that is not the position of the bit that says it is there" if not any(whole) else "a member is read although its bit is not set", ev.where())
    by = {}
    for (wh, _), (w, ev, ds) in words.items():
        x = by.setdefault(wh, [ev, False, set()])
        x[1] |= w.op == "elem"
        x[2] |= ds
    for wh, (ev, many, ds) in by.items():
        if many and ds == {"none"}:
            ctx.violation("words %s" % ev.fr.body.p, "every word of bits is read as if it were the first", wh)
    # leaving the loop: the mask compared with the word has already moved on to the next position
    done = set()
    for a, evs, b in e.edges:
        for fs in (a.state.facts, b.state.facts):
            for t in fs:
                if t.op == "app" and len(t.a) == 3 and t.a[0] in ("lt", "gt", "le", "ge") and t.id not in done:
                    done.add(t.id)
                    x, y = plain(t.a[1]), plain(t.a[2])
                    if t.a[0] in ("gt", "le"):
                        x, y = y, x     # gt(x, y) = lt(y, x); le(x, y) = not lt(y, x)
                    for m in masks.get(y.id, ()):
                        s = binop(x, "Shl")
                        if s and s[1].id == m and number(s[2]) == 1 and "last" not in done:
                            done.add("last")
                            ctx.violation("last-bit %s" % a.fr.body.p, "a bit can be left unread: the search ends when the word equals the mask of the next position", a.fr.body.where(a.fr.body.line))


def ranges(ctx, e, results):
    """Loops over a fixed number of positions look at every position of a word."""
    ps = Positions(e)
    around = set()
    for ev, k in results:
        if any(True for t, v in ev.facts.items() for x in ps.tested(t, v)):
            around |= {f.id for f in ev.fr.stack()}
    told = set()
    for _, ev, _ in e.events():
        a = ev.args[0] if ev.kind == "iter" else None
        if a is None or a.op != "agg" or ev.fr.id not in around:
            continue
        p = [number(x) for x in parts(a)]
        if len(p) == 2 and None not in p:
            ctx.count("searches of a word")
            if WORD // 2 < p[1] - p[0] < WORD and ev.where() not in told:
                told.add(ev.where())
                ctx.violation("range %s" % ev.fr.body.p, "only %d positions of a word are looked at" % (p[1] - p[0]), ev.where())


class Setting(absint.Client):
    cap = 200
    max_nodes = 40000
    max_depth = 40
    partial = "all"

    def __init__(self, crates):
        self.crates = crates
        self.writes = []

    def inline(self, eng, fr, tg):
        return tg.body is not None and tg.body.crate in self.crates

    def on_write(self, eng, s, fr, loc, v, ln):
        if binop(v, "BitOr"):
            self.writes.append((fr, loc, v, ln, s))


def writer(ctx, prog, b, ids, crates):
    """Sets of numbers turned into bits."""
    c = Setting(crates)
    e = absint.Engine(prog, c).run(b)
    ps = Positions(e)
    seen = set()
    whole_key = set()       # words where the number itself is the position
    maps = set()            # what the numbers come from
    n = 0
    for fr, loc, v, ln, s in c.writes:
        _, x, y = binop(v, "BitOr")
        for m in (x, y):
            sh = binop(m, "Shl")
            if not sh or number(sh[1]) != 1:
                continue
            n += 1
            ctx.count("bits set")
            at = "%s" % fr.body.where(ln)
            p = sh[2]
            rem = binop(p, "Rem", "BitAnd")
            idx = next((st[1] for st in reversed(loc[1]) if isinstance(st, tuple) and st[0] == "i" and isinstance(st[1], T)), None) if len(loc) > 1 and isinstance(loc[1], tuple) else None
            if rem:
                q = number(rem[2])
                w = WORD if rem[0] == "Rem" else WORD - 1
                if q is not None and q != w and ("rem", at) not in seen:
                    seen.add(("rem", at))
                    ctx.violation("set %s" % fr.body.p, "the position of a number in its word is worked out for words of %d bits" % (q if rem[0] == "Rem" else q + 1), at)
                if idx is not None:
                    d = binop(idx, "Div", "Shr")
                    if d and d[1] is rem[1]:
                        q = number(d[2])
                        if q is not None and q != (WORD if d[0] == "Div" else 6) and ("div", at) not in seen:
                            seen.add(("div", at))
                            ctx.violation("word %s" % fr.body.p, "the word a number belongs to is worked out for words of another size", at)
                    elif number(plain(idx)) is not None and ("div", at) not in seen:
                        seen.add(("div", at))
                        ctx.violation("word %s" % fr.body.p, "every number is put into the same word", at)
                base = rem[1]
            else:
                base = p
                whole_key.add(base.id)
            maps |= {y for y in subterms(base) if y.op == "sym"}
            su = ps.sum(base)
            if su is not None and su.c and all(k[0] == "term" for k in su.d) and su.d and ("off", at) not in seen:
                seen.add(("off", at))
                ctx.violation("set %s" % fr.body.p, "the bit set for a number is not the one at its position", at)
    # a single word only for numbers that fit into it; nothing is announced only when there is nothing
    for x in e.exits:
        if x.kind != "return" or x.ret is None or x.ret.op != "agg" or x.ret.a[0] not in ids:
            continue
        vi = x.ret.a[1]
        f = prog.adts[x.ret.a[0]]["v"][vi]["f"]
        facts = x.state.facts
        none = {y for t, v in facts.items() if t.op == "app" and t.a[0] == "eq" and v == frozenset([1]) and any(number(z) == 0 for z in t.a[1:])
                for z in subterms(t) if z.op == "app" and z.a[0] == "len" for y in subterms(z) if y.op == "sym"}
        if not f:
            ctx.count("empty sets made")
            for y in maps - none:
                if ("zero", y.id) not in seen:
                    seen.add(("zero", y.id))
                    ctx.violation("empty %s" % b.p, "no number is announced although %s may have some" % show(y), b.where(b.line))
            continue
        word = len(f) == 1 and str(f[0]["t"]) == "u64"
        if not word and not (len(f) == 1 and any(str(z) == "u64" for z in f[0]["t"].walk())):
            continue
        ctx.count("words made")
        bound, known = None, set()
        for t, v in facts.items():
            if t.op == "app" and t.a[0] == "lt" and len(v) == 1:
                one = 1 in v
                for m, c, w in ((t.a[1], t.a[2], one), (t.a[2], t.a[1], not one)):
                    if number(c) is None or not measured(m):
                        continue
                    known |= {y for y in subterms(m) if y.op == "sym"}
                    if w:
                        n2 = number(c) + (0 if one else 1)
                        bound = n2 if bound is None else min(bound, n2)
        if word and whole_key and bound is not None and bound > WORD and "fits" not in seen:
            seen.add("fits")
            ctx.violation("fits %s" % b.p, "one word is used for numbers up to %d" % (bound - 1), b.where(b.line))
        if known:
            for y in maps - none - known:
                if ("measured", y.id) not in seen:
                    seen.add(("measured", y.id))
                    ctx.violation("measured %s" % b.p, "bits are set for the numbers of %s, which were not looked at when the size was chosen" % show(y), b.where(b.line))
    return n


def measured(t):
    return not any(x.op == "app" and isinstance(x.a[0], str) and x.a[0] == "len" for x in subterms(t)) and any(x.op == "elem" for x in subterms(t)) and not binop(t, "Div", "Rem")
