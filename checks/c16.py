"""The links of a mutable list always form one consistent chain.

Shape analysis.  A list is described by a finite set of shapes: some items next to each other, with at
most one stretch of any length left out between two of them.  Every public operation on a list, on a
handle of a list and on a cursor is followed from each shape; at its return the chain, the register of
items and the answer are compared with what the operation stands for.  A shape in which an operation
looks into the stretch that was left out is passed over: longer shapes describe that case.
"""
import absint
from absint import subterms, show, mk, const, OPTION, Budget, NULL
from slicing import Slice
from terms import last, shell
from check_base import Anchor
from c15 import Shape, Lists
import c25

TECHNIQUE = "shape analysis: abstract interpretation of the list operations over list shapes with summarised stretches"

MAPS = ("HashMap", "BTreeMap", "IndexMap")
LONGEST = 6
ABSENT = 500
COUNTER = 300
MADE = 4                # items of a list built in a loop


class Node:
    pass


class Heap(Lists):
    """Transfer functions for the heap the list lives in."""
    cap = 24
    max_nodes = 4000
    max_depth = 14

    def __init__(self, sh, copy=None, apart=False):
        Lists.__init__(self, set(), 60, ("dochy_core",))
        self.sh = sh
        self.copy = copy            # what cloning an item gives
        self.apart = apart          # states are never joined

    def split(self, s):
        return frozenset((r, v.id) for r, v in s.mem.items()) if self.apart else None

    def inline(self, eng, fr, tg):
        return Lists.inline(self, eng, fr, tg)

    def call(self, eng, s, fr, bi, t, tg, args):
        name = tg.name
        if tg.kind != "ext":
            return None
        if name in ("new", "with_capacity", "default", "with_capacity_and_hasher", "with_hasher") and any(x in tg.path for x in MAPS) and self.apart:
            return [(s, mk("agg", "register", 0))]
        if not args:
            return None
        owner = tg.path.split("::<")[0]
        ty = tg.self_ty
        if name == "new" and (ty is not None and eng.is_box(ty) or "boxed::Box" in owner):
            g = sum(1 for r in s.mem if r[0] == "H")
            if g >= MADE:
                return []
            root = ("H", g)
            s.mem[root] = args[0]
            return [(s, mk("box", root, ()))]
        if tg.path in ("core::ptr::eq", "std::ptr::eq", "core::ptr::addr_eq"):
            return same(s, args[0], args[1])
        if name in ("eq", "ne") and len(args) == 2 and ty is not None and ty.k == "ptr":
            a, b = (eng.read(s, eng.loc_of(s, x)) if x.op in ("ptr",) else x for x in args)
            r = same(s, a, b)
            if r is not None and name == "ne":
                r = [(q, absint.FALSE if v is absint.TRUE else absint.TRUE) for q, v in r]
            return r
        if name in ("as_mut", "as_ref", "deref", "deref_mut", "borrow", "borrow_mut") and args[0].op in ("ptr", "box"):
            c = eng.read(s, eng.loc_of(s, args[0]))
            if c.op in ("box",):
                return [(s, mk("ptr", c.a[0], c.a[1]))]
            if c.op == "ptr" and c.a[0][0] in ("N", "H"):
                return [(s, c)] if ty is None or ty.k != "ptr" else None
            return None
        if args[0].op in ("ptr",):
            loc = eng.loc_of(s, args[0])
            m = eng.read(s, loc)
            hops = 4
            while m.op == "ptr" and hops:
                loc = eng.loc_of(s, m)
                m = eng.read(s, loc)
                hops -= 1
            if m.op == "agg" and m.a[0] == "register":
                return self.register(eng, s, fr, t, loc, m, name, args)
        return None

    def register(self, eng, s, fr, t, loc, m, name, args):
        ptrs = list(m.a[2:])
        if name == "len":
            if any(x.op == "sym" for x in ptrs):
                return [(s, mk("sym", "length"))]
            return [(s, const("int", len(ptrs)))]
        if name == "is_empty":
            return [(s, absint.FALSE if ptrs else absint.TRUE)]
        if name == "clone" and self.copy is not None:
            out = []
            for p in ptrs:
                v = self.copy(s.mem[p.a[0]]) if p.op != "sym" else None
                if v is None:
                    return None
                s.mem[("C", p.a[0][1])] = v
                out.append(mk("ptr", ("C", p.a[0][1]), ()))
            return [(s, mk("agg", "register", 0, *out))]
        if name in ("get", "get_mut", "contains_key", "remove", "insert", "remove_entry"):
            k = eng.contents(s, args[1])
            hit = None
            for p in ptrs:
                if p.op == "sym":
                    continue
                i = absint.sub(s.mem[p.a[0]], (-1, self.sh.id))
                if i is k and (k.op == "const" or name != "insert"):
                    hit = p
                elif i.op != "const" or k.op != "const":
                    if name != "insert":
                        return None
            if name == "contains_key":
                return [(s, absint.TRUE if hit is not None else absint.FALSE)]
            if name in ("get", "get_mut"):
                return [(s, absint.some(hit) if hit is not None else absint.NONE)]
            if name in ("remove", "remove_entry"):
                if hit is not None:
                    eng.write(s, loc, mk("agg", "register", 0, *[p for p in ptrs if p is not hit]), fr, t.ln)
                    return [(s, absint.some(hit))]
                return [(s, absint.NONE)]
            v = args[2]
            if v.op not in ("box", "ptr"):
                return None
            eng.write(s, loc, mk("agg", "register", 0, *[p for p in ptrs if p is not hit], mk("ptr", v.a[0], v.a[1])), fr, t.ln)
            return [(s, absint.some(hit) if hit is not None else absint.NONE)]
        return None


def same(s, a, b):
    ptr = lambda x: x is NULL or x.op in ("ptr", "box")
    if ptr(a) and ptr(b):
        eq = a is b or (a is not NULL and b is not NULL and a.a[:2] == b.a[:2])
        return [(s, absint.TRUE if eq else absint.FALSE)]
    gap = lambda x: x.op == "sym" and x.a[0].startswith("gap")
    if (ptr(a) or gap(a)) and (ptr(b) or gap(b)):
        if gap(a) and gap(b) and a is not b:
            return None
        return [(s, absint.TRUE if a is b else absint.FALSE)]
    return None


class Links:
    """Which fields of a node and of a list point where, found from the pushing-to-the-end operations."""

    def __init__(self, prog, sh):
        nf = prog.adts[sh.node]["v"][0]["f"]
        lf = prog.adts[sh.adt]["v"][0]["f"]
        np = [i for i, x in enumerate(nf) if x["t"] is not None and x["t"].k == "ptr"]
        lp = [i for i, x in enumerate(lf) if x["t"] is not None and x["t"].k == "ptr"]
        if len(np) != 2 or len(lp) != 2:
            raise Anchor("a list item does not have two links or a list not two ends")
        # the names tell the direction; otherwise the declared order does
        name = lambda f, i: f[i]["n"]
        self.prev, self.next = (np[0], np[1]) if not ("next" in name(nf, np[0]) or "prev" in name(nf, np[1])) else (np[1], np[0])
        self.first, self.last = (lp[0], lp[1]) if not ("last" in name(lf, lp[0]) or "first" in name(lf, lp[1])) else (lp[1], lp[0])
        self.items = [i for i in range(len(nf)) if i not in (self.prev, self.next, sh.id)]
        self.nf, self.lf = nf, lf


def memory(sh, ln, n, gap):
    """A list of n items; between item gap and gap+1 a stretch of unknown length."""
    mem = {}
    ptr = [mk("ptr", ("N", j), ()) for j in range(n)]
    for j in range(n):
        f = [None] * len(ln.nf)
        f[ln.prev] = NULL if j == 0 else (mk("sym", "gapR") if gap == j - 1 else ptr[j - 1])
        f[ln.next] = NULL if j == n - 1 else (mk("sym", "gapL") if gap == j else ptr[j + 1])
        f[sh.id] = const("int", 100 + j)
        for i in ln.items:
            f[i] = mk("sym", "item%d" % j)
        mem[("N", j)] = mk("agg", sh.node, 0, *f)
    f = [None] * len(ln.lf)
    f[sh.map] = mk("agg", "register", 0, *(ptr + ([mk("sym", "gapitems")] if gap is not None else [])))
    f[ln.first] = ptr[0] if n else NULL
    f[ln.last] = ptr[-1] if n else NULL
    f[sh.ctr] = const("int", COUNTER)
    for i in range(len(f)):
        if f[i] is None:
            f[i] = mk("sym", "part%d" % i)
    mem[("LIST",)] = mk("agg", sh.adt, 0, *f)
    return mem


def chain(e, s, sh, ln, gap):
    """Items from first to last as tokens, or a message."""
    l = s.mem[("LIST",)]
    get = lambda v, i: absint.sub(v, (-1, i))
    cur, back, out = get(l, ln.first), NULL, []
    seen = set()
    final = NULL
    while True:
        if cur is NULL:
            break
        if cur.op == "sym" and cur.a[0] == "gapL":
            out.append("~")
            cur, back = mk("ptr", ("N", gap + 1), ()), mk("sym", "gapR")
            if get(s.mem[("N", gap + 1)], ln.prev) is not back:
                return None, "the item after the stretch left out does not point back to it"
            continue
        if cur.op not in ("ptr", "box") or cur.a[1]:
            raise Unknown(show(cur, 4))
        if cur.a[0] in seen:
            return None, "following next comes back to an item already seen"
        seen.add(cur.a[0])
        nd = s.mem.get(cur.a[0])
        if nd is None or nd.op not in ("agg", "upd"):
            raise Unknown(show(cur, 4))
        p = get(nd, ln.prev)
        if not samep(p, back):
            if p.op not in ("ptr", "box", "sym") and p is not NULL:
                raise Unknown(show(p, 4))
            return None, "%s has %s as its predecessor instead of %s" % (token(cur), token(p), token(back))
        out.append(token(cur))
        final = cur
        back, cur = cur, get(nd, ln.next)
        if len(out) > 20:
            return None, "the chain does not end"
    if not samep(get(l, ln.last), final):
        if get(l, ln.last).op not in ("ptr", "box") and get(l, ln.last) is not NULL:
            raise Unknown(show(get(l, ln.last), 4))
        return None, "the list ends with %s but its last item is said to be %s" % (token(final), token(get(l, ln.last)))
    reg = get(l, sh.map)
    if reg.op != "agg" or reg.a[0] != "register":
        raise Unknown(show(reg, 4))
    names = [token(p) if p.op != "sym" else "~" for p in reg.a[2:]]
    if sorted(names) != sorted(out):
        return None, "the chain holds [%s] but the items of the list are [%s]" % (" ".join(out), " ".join(sorted(names)))
    return out, None


class Unknown(Exception):
    pass


def samep(a, b):
    return a is b or (a.op in ("ptr", "box") and b.op in ("ptr", "box") and a.a[:2] == b.a[:2])


def token(p):
    if p is NULL:
        return "nothing"
    if p.op in ("ptr", "box"):
        return "new" if p.a[0][0] == "H" and p.a[0][1] == 0 else "new%d" % p.a[0][1] if p.a[0][0] == "H" else "copy%d" % p.a[0][1] if p.a[0][0] == "C" else str(p.a[0][1])
    return "the stretch left out" if p.op == "sym" else show(p, 3)


# ---- arguments -----------------------------------------------------------
def build(prog, sh, t, cursor, depth=5):
    """A value of the type in which every pointer to a list points to the list and a cursor at the item."""
    if t is None:
        return None
    if t.k in ("ref", "ptr"):
        if t.t is not None and t.t.k == "adt" and t.t.d == sh.adt:
            return mk("ptr", ("LIST",), ())
        if t.k == "ptr" and t.t is not None and t.t.k == "adt" and t.t.d == sh.node:
            return cursor
        return None
    if t.k == "adt" and t.d in prog.local_adts and depth and len(prog.adts[t.d]["v"]) == 1:
        fs = prog.adts[t.d]["v"][0]["f"]
        vals = [build(prog, sh, x["t"], cursor, depth - 1) for x in fs]
        if any(v is not None for v in vals):
            return mk("agg", t.d, 0, *[v if v is not None else mk("sym", "part:%s.%s" % (last(t.d), x["n"])) for v, x in zip(vals, fs)])
    return None


def reaches_node(prog, sh, t, depth=5):
    t = t.t if t.k in ("ref",) else t
    if t is None:
        return False
    if t.k == "ptr":
        return t.t is not None and t.t.k == "adt" and t.t.d == sh.node
    if t.k == "adt" and t.d in prog.local_adts and t.d != sh.adt and depth and len(prog.adts[t.d]["v"]) == 1:
        return any(x["t"] is not None and reaches_node(prog, sh, x["t"], depth - 1) for x in prog.adts[t.d]["v"][0]["f"])
    return False


def reaches_list(prog, sh, t, depth=5):
    if t is None:
        return False
    if t.k in ("ref", "ptr"):
        return t.t is not None and (t.t.k == "adt" and t.t.d == sh.adt or t.k == "ref" and reaches_list(prog, sh, t.t, depth))
    if t.k == "adt" and t.d in prog.local_adts and t.d != sh.adt and depth and len(prog.adts[t.d]["v"]) == 1:
        return any(reaches_list(prog, sh, x["t"], depth - 1) for x in prog.adts[t.d]["v"][0]["f"])
    return False


# ---- what the operations stand for --------------------------------------------
def expect(name, seq, ids):
    """(items afterwards, answer) of an operation of the public interface; None where nothing is said."""
    at = lambda i: seq.index(i) if i in seq else None
    name = name[:-6] if name.endswith("_const") else name[:-4] if name.endswith("_mut") else name
    items = [x for x in seq]
    a = ids[0] if ids else None
    b = ids[1] if len(ids) > 1 else None
    first = seq[0] if seq else None
    final = seq[-1] if seq else None
    if name in ("insert", "insert_last"):
        return items + ["new"], None
    if name == "insert_first":
        return ["new"] + items, None
    if name in ("insert_first_with_id", "insert_last_with_id", "insert_first_with_id_unchecked", "insert_last_with_id_unchecked"):
        if a in seq:
            return (items, False) if not name.endswith("unchecked") else None
        return (["new"] + items if "first" in name else items + ["new"]), None if name.endswith("unchecked") else True
    if name == "remove":
        return [x for x in items if x != a], a in seq
    if name == "remove_first":
        return items[1:] if items[1:2] != ["~"] else None, bool(items)
    if name == "remove_last":
        return items[:-1], bool(items)
    if name == "move_to_first":
        return ([a] + [x for x in items if x != a], True) if a in seq else (items, False)
    if name == "move_to_last":
        return ([x for x in items if x != a] + [a], True) if a in seq else (items, False)
    if name in ("move_to_prev", "move_to_next"):
        if a not in seq or b not in seq:
            return items, False
        if a == b:
            return items, None
        r = [x for x in items if x != b]
        k = r.index(a) + (1 if name == "move_to_next" else 0)
        return r[:k] + [b] + r[k:], True
    if name in ("first", "first_id"):
        return items, ("item", first)
    if name in ("last", "last_id"):
        return items, ("item", final)
    if name in ("get_item", "get", "iter_from_id"):
        return items, ("item", a if a in seq else None)
    if name == "contains_key":
        return items, a in seq
    if name == "is_empty":
        return items, not seq
    return None


def expect_cursor(name, seq, at):
    """(item the cursor is at afterwards or "same", answer)."""
    name = name[:-6] if name.endswith("_const") else name[:-4] if name.endswith("_mut") else name
    k = seq.index(at) if at is not None else None
    if name == "next":
        return (None, ("item", None)) if at is None else (seq[k + 1] if k + 1 < len(seq) else None, ("item", at))
    if name == "prev":
        return (None, ("item", None)) if at is None else (seq[k - 1] if k > 0 else None, ("item", at))
    if name == "current":
        return at, ("item", at)
    if name == "is_first":
        return at, at is not None and k == 0
    if name == "is_last":
        return at, at is not None and k == len(seq) - 1
    if name == "is_available":
        return at, at is not None
    return None


def answer(e, s, v):
    """("item", token), True/False or None when it is not known."""
    if v is None:
        return None
    if v is absint.TRUE or v is absint.FALSE:
        return v is absint.TRUE
    if v.op == "agg" and v.a[0] == OPTION and v.a[1] == 0:
        return ("item", None)
    if v.op == "agg" and v.a[0] == OPTION:
        found, st, seen = set(), [v.a[2]], set()
        while st:
            x = st.pop()
            if x.id in seen:
                continue
            seen.add(x.id)
            if x.op in ("ptr", "box"):
                if x.a[0][0] in ("N",):
                    found.add(str(x.a[0][1]))
                elif x.a[0][0] not in ("LIST", "H", "O"):
                    y = s.mem.get(x.a[0])
                    if y is not None:
                        st.append(y)
                continue
            if x.op == "const" and x.a[0] == "int" and isinstance(x.a[1], int) and 100 <= x.a[1] < 200:
                found.add(str(x.a[1] - 100))
            if x.op == "sym" and str(x.a[0]).startswith("item"):
                found.add(x.a[0][4:])
            st.extend(y for y in x.a if isinstance(y, absint.T))
        return ("item", found.pop()) if len(found) == 1 else ("items", found) if found else None
    return None


def gaps_touched(e, s, v):
    """The operation looked into the stretch that was left out."""
    if any(r[0] == "O" and any(x.op == "sym" and str(x.a[0]).startswith("gap") for x in subterms(r[1])) for r in s.mem):
        return True
    for f in s.facts:
        if any(x.op == "sym" and str(x.a[0]).startswith("gap") for x in subterms(f)):
            return True
    inside = lambda t: any(x.op == "fld" and x.a[0].op == "sym" and str(x.a[0].a[0]).startswith("gap") for x in subterms(t))
    return any(inside(x) for r, x in s.mem.items() if r[0] in ("LIST", "N", "H")) or v is not None and inside(v)


def run(prog, ctx):
    ctx.rule("chain: after every operation the items are one chain: next and previous are inverse, the ends have no neighbour outside, and the items on the chain are the items of the list")
    ctx.rule("place: an item that is inserted or moved is at the place asked for, and the order of the others is unchanged; the answer says whether the item was there")
    ctx.rule("cursor: a cursor hands out the item it is at, moves to its neighbour, and tells the ends of the list")
    ctx.rule("built: a list built from other items links each of them with the one before, in both directions, and ends with the last one")
    sh = Shape(prog)
    ln = Links(prog, sh)
    for b in sorted(prog.fns("dochy_core"), key=lambda b: b.p):
        if b.kind != "fn" or not b.argc or not reaches_list(prog, sh, b.locals[1]):
            continue
        cur = reaches_node(prog, sh, b.locals[1])
        if not (b.eff or b.trait is not None):
            continue
        operation(prog, ctx, sh, ln, b, cur)
    built(prog, ctx, sh, ln)
    ctx.floor("functions that build a list", 2)
    ctx.floor("operations", 15)
    ctx.floor("cursor operations", 6)
    ctx.floor("shapes followed", 500)


def operation(prog, ctx, sh, ln, b, cursor):
    nid = [i for i in range(2, b.argc + 1) if repr(b.locals[i]) == "u64"]
    if len(nid) > 2 or expect(b.name, [], ["x", "y"]) is None and expect_cursor(b.name, [], None) is None and not mutable(b):
        return
    ctx.count("cursor operations" if cursor else "operations")
    ctx.analysed.append(b.p)
    unknown = 0
    total = 0
    for n in range(LONGEST + 1):
        for gap in [None] + list(range(n - 1)):
            seq = [str(j) for j in range(n)]
            if gap is not None:
                seq.insert(gap + 1, "~")
            pts = [None] + [j for j in range(n)] if cursor else [None]
            if cursor and b.name in ("new", "from"):
                return
            choices = [[]]
            for _ in nid:
                choices = [c + [x] for c in choices for x in list(range(n)) + [None]]
            if len(nid) < 2 and (n > 4 and gap is None or n > 5):
                continue
            for at in pts:
                for ids in choices:
                    r = follow(prog, ctx, sh, ln, b, n, gap, seq, cursor, at, nid, ids)
                    total += 1
                    if r is False:
                        unknown += 1
                    elif r == "broken":
                        return
    if unknown:
        ctx.note("%s: %d of %d shapes not decided" % (b.p, unknown, total))
        ctx.count("shapes not decided", unknown)


def built(prog, ctx, sh, ln):
    """Functions of the list type that give a new list."""
    for b in sorted(prog.fns("dochy_core"), key=lambda b: b.p):
        t = b.locals[0]
        if b.kind != "fn" or t.k != "adt" or t.d != sh.adt or b.self_ty is None or b.self_ty.k != "adt" or b.self_ty.d != sh.adt:
            continue
        srcs = [i for i in range(1, b.argc + 1) if sh.is_list(b.locals[i])]
        ctx.count("functions that build a list")
        ctx.analysed.append(b.p)
        for n in range(5) if srcs else [0]:
            one(prog, ctx, sh, ln, b, srcs, n)


def copier(prog, sh, mem):
    def copy(v):
        for b in prog.fns("dochy_core"):
            if b.name == "clone" and b.trait is not None and b.self_ty is not None and b.self_ty.k == "adt" and b.self_ty.d == sh.node:
                e = absint.Engine(prog, Heap(sh)).run(b, [mk("ptr", ("X",), ())], None, None, dict(mem, **{}) | {("X",): v})
                rs = {x.ret for x in e.exits if x.kind == "return"}
                return rs.pop() if len(rs) == 1 else None
        return v
    return copy


def one(prog, ctx, sh, ln, b, srcs, n):
    mem = memory(sh, ln, n, None)
    args = []
    for i in range(1, b.argc + 1):
        t = b.locals[i]
        args.append(mk("ptr", ("LIST",), ()) if t.k == "ref" and sh.is_list(t) else mem[("LIST",)] if sh.is_list(t) else None)
    try:
        e = absint.Engine(prog, Heap(sh, copier(prog, sh, mem), True)).run(b, args, None, None, mem)
    except Budget:
        ctx.undecide("%s: too many states" % b.p)
        return
    for x in e.exits:
        if x.kind != "return" or x.ret is None:
            continue
        s = x.state
        s.mem[("SRC",)] = s.mem[("LIST",)]
        s.mem[("LIST",)] = e.contents(s, x.ret)
        try:
            got, msg = chain(e, s, sh, ln, None)
        except Unknown as u:
            ctx.undecide("%s: %s" % (b.p, u))
            return
        what = "a list of %d items" % n if srcs else "%d items" % sum(1 for r in s.mem if r[0] == "H")
        if msg:
            ctx.violation("built:%s" % b.p, "%s, from %s: %s" % (b.p, what, msg), b.where())
            return
        if srcs:
            ids = [absint.sub(s.mem[("C", int(c[4:]))], (-1, sh.id)) if c.startswith("copy") else None for c in got]
            want = [const("int", 100 + j) for j in range(n)]
            if None not in ids and ids != want:
                ctx.violation("built:%s" % b.p, "%s, from %s: the copy holds [%s]" % (b.p, what, " ".join(got)), b.where())
                return
            if None in ids and any(c[0] != "n" for c in got):
                ctx.violation("built:%s" % b.p, "%s, from %s: the new list holds items of the other one" % (b.p, what), b.where())
                return
        else:
            want = ["new"] + ["new%d" % j for j in range(1, len(got))] if got else []
            if got != want:
                ctx.violation("built:%s" % b.p, "%s, from %s: they are linked in the order [%s]" % (b.p, what, " ".join(got)), b.where())
                return
        ctx.count("lists built (shape)")


def mutable(b):
    t = b.locals[1]
    return t.k == "ref" and t.m


def follow(prog, ctx, sh, ln, b, n, gap, seq, cursor, at, nid, ids):
    pos = NULL if at is None else mk("ptr", ("N", at), ())
    mem = memory(sh, ln, n, gap)
    args = []
    k = 0
    for i in range(1, b.argc + 1):
        t = b.locals[i]
        if i in nid:
            args.append(const("int", 100 + ids[k] if ids[k] is not None else ABSENT)); k += 1
        elif i == 1 and t.k == "ref" and t.t.k == "adt" and t.t.d != sh.adt:
            mem[("SELF",)] = build(prog, sh, t.t, pos)
            args.append(mk("ptr", ("SELF",), ()))
        else:
            args.append(build(prog, sh, t, pos))
    try:
        e = absint.Engine(prog, Heap(sh)).run(b, args, None, None, mem)
    except Budget:
        return False
    names = [str(x) if x is not None else "absent" for x in ids]
    what = "[%s]%s" % (" ".join(seq), "".join(" with " + x for x in names) + ("" if not cursor else " at %s" % ("the end" if at is None else at)))
    outs = [x for x in e.exits if x.kind == "return"]
    if any(gaps_touched(e, x.state, x.ret) for x in e.exits):
        ctx.count("shapes left to longer ones")
        return True
    if not outs:
        tok = [str(y) if y is not None else "absent" for y in ids]
        ex = expect_cursor(b.name, seq, None if at is None else str(at)) if cursor else expect(b.name, seq, tok)
        if ex is not None and all(x.kind != "return" for x in e.exits):
            ctx.violation("panic:%s" % b.p, "%s, from the list %s, does not return" % (b.p, what), b.where())
            return "broken"
        ctx.count("shapes ending in a panic")
        return True
    for x in outs:
        try:
            got, msg = chain(e, x.state, sh, ln, gap)
        except Unknown:
            return False
        if msg:
            ctx.violation("chain:%s" % b.p, "%s, from the list %s: %s" % (b.p, what, msg), b.where())
            return "broken"
        tok = [str(y) if y is not None else "absent" for y in ids]
        ex = expect_cursor(b.name, seq, None if at is None else str(at)) if cursor else expect(b.name, seq, tok)
        if ex is None:
            if cursor and got != seq:
                ctx.violation("place:%s" % b.p, "%s, from the list %s, leaves [%s]" % (b.p, what, " ".join(got)), b.where())
                return "broken"
            continue
        if cursor:
            now = cursor_at(e, x.state)
            if now is not None and len(ex) == 2 and now != ("at", ex[0]) and ex[0] != "~" and now[1] != "~":
                ctx.violation("cursor:%s" % b.p, "%s, from the list %s, moves to %s instead of %s" % (b.p, what, now[1] or "the end", ex[0] or "the end"), b.where())
                return "broken"
        elif ex[0] is not None and got != ex[0]:
            ctx.violation("place:%s" % b.p, "%s, from the list %s, leaves [%s] instead of [%s]" % (b.p, what, " ".join(got), " ".join(ex[0])), b.where())
            return "broken"
        r = answer(e, x.state, x.ret)
        w = ex[1]
        if w is not None and r is not None and isinstance(w, bool) == isinstance(r, bool) and r != w and w != ("item", "~"):
            ctx.violation("answer:%s" % b.p, "%s, from the list %s, answers %s instead of %s" % (b.p, what, r, w), b.where())
            return "broken"
    ctx.count("shapes followed")
    return True


def cursor_at(e, s):
    v = s.mem.get(("SELF",))
    if v is None:
        return None
    ps = []
    st = [v]
    while st:
        x = st.pop()
        if x is NULL or x.op in ("ptr", "box") and x.a[0][0] == "N" or x.op == "sym" and str(x.a[0]) in ("gapL", "gapR"):
            ps.append(x)
        elif x.op in ("agg",):
            st.extend(y for y in x.a if isinstance(y, absint.T))
        elif x.op in ("upd", "phi"):
            return None
    if len(ps) != 1:
        return None
    p = ps[0]
    return ("at", None if p is NULL else "~" if p.op == "sym" else str(p.a[0][1]))
