"""Order-sensitive effects of loops that run in an unspecified order.

A loop is unordered when the type of the iterator it draws from is (or wraps) the iterator
of a hash map or set or of a directory listing, or when it receives from a channel that
several threads send to.  Inside such a loop, changes of things that outlive one turn must
commute: inserting under a key, setting a constant, counting.  Appending to a sequence, writing,
hashing or numbering do not.
"""
from inst import resolve
from absint import shape_of

HASH_ITERS = ("Iter", "IterMut", "IntoIter", "Keys", "Values", "ValuesMut", "IntoKeys", "IntoValues", "Drain",
              "Intersection", "Difference", "Union", "SymmetricDifference", "ExtractIf")
KEYED = {"alloc::collections::btree::map::BTreeMap", "alloc::collections::btree::set::BTreeSet",
         "std::collections::hash::map::HashMap", "std::collections::hash::set::HashSet",
         "alloc::collections::binary_heap::BinaryHeap", "hashbrown::map::HashMap", "hashbrown::set::HashSet"}
SEQ = {"alloc::vec::Vec", "alloc::string::String", "alloc::collections::vec_deque::VecDeque", "bit_vec::BitVec",
       "alloc::collections::linked_list::LinkedList", "std::path::PathBuf", "std::ffi::os_str::OsString",
       "arrayvec::ArrayVec"}
APPEND = {"push", "push_str", "push_back", "push_front", "extend", "extend_from_slice", "append", "insert", "insert_str",
          "write_str", "write_fmt", "add_assign"}
PASSING = {"into_iter", "iter", "iter_mut", "drain", "map", "filter", "filter_map", "enumerate", "rev", "cloned", "copied",
           "peekable", "chain", "inspect", "by_ref", "clone", "to_vec", "into_boxed_slice", "branch", "unwrap", "expect"}
COMMUTES = {"Add", "Mul", "BitOr", "BitAnd", "BitXor"}


def is_hash_iter(d):
    p, _, n = d.rpartition("::")
    return n in HASH_ITERS and ("hash::map" in p or "hash::set" in p or p.startswith("hashbrown::"))


def unordered(prog, ty, seen=None, depth=8):
    """Why iterators of this type have no specified order, or None."""
    if seen is None:
        seen = set()
    if ty is None or id(ty) in seen or depth < 0:
        return None
    seen.add(id(ty))
    if ty.k == "adt":
        if is_hash_iter(ty.d):
            return ("hash", ty)
        if ty.d == "std::fs::ReadDir":
            return ("listing", ty)
        last = ty.d.rsplit("::", 1)[-1]
        if ty.d in prog.local_adts:
            if not any("iterator::Iterator" in (im["trait"] or "") and im["self"].k == "adt" and im["self"].d == ty.d
                       for im in prog.impls if im["trait"]):
                return None
            for v in prog.adts[ty.d]["v"]:
                for f in v["f"]:
                    r = unordered(prog, f["t"], seen, depth - 1)
                    if r:
                        return r
            return None
        if "iter::adapters" in ty.d or last in ("Peekable", "Box") or "itertools" in ty.d:
            for x in ty.a:
                r = unordered(prog, x, seen, depth - 1)
                if r:
                    return r
        return None
    if ty.k in ("ref", "ptr"):
        return unordered(prog, ty.t, seen, depth - 1)
    return None


class Effect:
    def __init__(self, body, ln, what, via=()):
        self.body = body; self.ln = ln; self.what = what; self.via = tuple(via)


class Orders:
    def __init__(self, prog):
        self.prog = prog
        self.memo = {}

    # -- roots of references inside a body ------------------------------------
    def roots(self, b):
        """local -> locals it may point into or be copied from (transitively)."""
        m = self.memo.get(("roots", b.d))
        if m is not None:
            return m
        src = {}
        for bi in b.reach:
            for st in b.blocks[bi].s:
                if st.k != "=":
                    continue
                if st.rv.op in ("ref", "raw"):
                    src.setdefault(st.pl.l, set()).add(st.rv.pl.l)
                elif st.rv.op in ("use", "cast"):
                    o = st.rv.a[0]
                    if o.pl is not None:
                        src.setdefault(st.pl.l, set()).add(o.pl.l)
                elif st.rv.op == "agg":
                    for o in st.rv.a:
                        if o.pl is not None:
                            src.setdefault(st.pl.l, set()).add(o.pl.l)
            t = b.blocks[bi].t
            if t.k == "call":
                ty = self.prog.place_ty(b, t.dst)
                if t.callee is not None and t.callee.name in PASSING and t.args and t.args[0].pl is not None:
                    src.setdefault(t.dst.l, set()).add(t.args[0].pl.l)
                if ty is not None and any(x.k in ("ref", "ptr") for x in ty.walk()) or self.guardish(ty):
                    for a in t.args:
                        if a.pl is not None:
                            src.setdefault(t.dst.l, set()).add(a.pl.l)
        out = {}
        for l in range(len(b.locals)):
            seen = {l}
            ws = [l]
            while ws:
                x = ws.pop()
                for y in src.get(x, ()):
                    if y not in seen:
                        seen.add(y)
                        ws.append(y)
            out[l] = seen
        self.memo[("roots", b.d)] = out
        return out

    def guardish(self, ty):
        if ty is None:
            return False
        return any(x.k == "adt" and x.d.rsplit("::", 1)[-1] in ("MutexGuard", "RwLockWriteGuard", "RefMut", "Entry",
                                                                "OccupiedEntry", "VacantEntry") for x in ty.walk())

    def defined_in(self, b, l, blocks):
        """Everything assigned to l is assigned in these blocks, or it is never used outside them."""
        inside = outside = False
        for bi in b.reach:
            blk = b.blocks[bi]
            for st in blk.s:
                if st.k == "=" and st.pl.l == l and not st.pl.proj:
                    if bi in blocks:
                        inside = True
                    else:
                        outside = True
            t = blk.t
            if t.k == "call" and t.dst.l == l and not t.dst.proj:
                if bi in blocks:
                    inside = True
                else:
                    outside = True
        return inside and not outside

    def sorted_later(self, b, l):
        """The sequence is sorted somewhere in the body."""
        rs = self.roots(b)
        for bi in b.reach:
            t = b.blocks[bi].t
            if t.k == "call" and t.callee is not None and t.callee.name.startswith("sort") and t.args and \
                    t.args[0].pl is not None and rs[t.args[0].pl.l] & rs[l] - set(range(1, b.argc + 1)):
                return True
            if t.k == "call" and t.callee is not None and t.callee.name.startswith("sort") and t.args and \
                    t.args[0].pl is not None and l in rs[t.args[0].pl.l]:
                return True
        return False

    # -- order-sensitive effects of some blocks --------------------------------
    def effects(self, b, blocks, outer, via=(), depth=6):
        """Order-sensitive changes of things for which outer(local) holds."""
        out = []
        prog = self.prog
        rs = self.roots(b)
        for bi in sorted(blocks):
            if bi not in b.reach:
                continue
            t = b.blocks[bi].t
            if t.k != "call" or t.callee is None:
                continue
            tg = resolve(prog, t.callee, {})
            name = t.callee.name
            hit = []
            for i, a in enumerate(t.args):
                if a.pl is None:
                    continue
                base = [x for x in rs[a.pl.l] if outer(x)]
                if not base:
                    continue
                ty = prog.place_ty(b, a.pl)
                mut = ty is not None and (ty.k in ("ref", "ptr") and ty.m)
                hit.append((i, a, ty, mut, base))
            if tg.kind in ("local", "closure"):
                if depth and hit:
                    c = tg.body
                    ps = set()
                    for i, a, ty, mut, base in hit:
                        if tg.kind == "closure":
                            ps.add(1)
                        elif mut or (ty is not None and any(x.k in ("ref", "ptr") and x.m for x in ty.walk())):
                            ps.add(i + 1)
                    if ps:
                        k = (c.d, tuple(sorted(ps)))
                        if k not in self.memo:
                            self.memo[k] = []
                            self.memo[k] = self.effects(c, set(c.reach), lambda x, ps=ps: x in ps, (), depth - 1)
                        for e in self.memo[k]:
                            out.append(Effect(e.body, e.ln, e.what, via + ("%s called at %s" % (c.p, b.where(t.ln)),) + e.via))
                continue
            for i, a, ty, mut, base in hit:
                st = ty.strip_refs() if ty is not None else None
                d = st.d if st is not None and st.k == "adt" else None
                tr = (t.callee.trait or "").rsplit("::", 1)[-1]
                if tr in ("Hasher",) or (tr == "Hash" and i == 1) or (name.startswith("write") and i == 0 and mut and
                                                                       (tr in ("Write", "Hasher") or d is not None and "ash" in d)):
                    out.append(Effect(b, t.ln, "%s" % tg.path, via))
                elif i == 0 and mut and d in SEQ and name in APPEND:
                    if all(self.laundered(b, x) for x in base if b.locals[x].k not in ("ref", "ptr") or 1 <= x <= b.argc):
                        continue
                    out.append(Effect(b, t.ln, "%s" % tg.path, via))
                elif i == 0 and d is not None and d.endswith("mpsc::Sender") and name == "send":
                    out.append(Effect(b, t.ln, tg.path, via))
        return out

    def loops(self, b):
        """(kind, header, blocks, line, type) of the unordered loops of a body."""
        sh = shape_of(b)
        prog = self.prog
        out = []
        for h, blocks in sh.loop.items():
            for bi in sorted(blocks):
                t = b.blocks[bi].t
                if t.k != "call" or t.callee is None or not t.args:
                    continue
                # innermost loop of this call
                if any(h2 != h and bi in bl2 and len(bl2) < len(blocks) for h2, bl2 in sh.loop.items()):
                    continue
                if t.callee.name in ("next", "next_back") and (t.callee.trait or "").endswith("Iterator"):
                    ty = prog.op_ty(b, t.args[0])
                    r = unordered(prog, ty)
                    if r:
                        out.append((r[0], h, blocks, t.ln, r[1]))
                elif t.callee.name in ("recv", "try_recv", "recv_timeout") and "mpsc" in t.callee.path and self.shared_sender(b):
                    out.append(("channel", h, blocks, t.ln, None))
        return out

    def shared_sender(self, b):
        """A sender is cloned in this function or in its closures."""
        k = ("shared", b.d)
        if k not in self.memo:
            self.memo[k] = any(
                t.k == "call" and t.callee is not None and t.callee.name == "clone" and t.args and
                (self.prog.op_ty(x, t.args[0]) or b.locals[0]).strip_refs().d in ("std::sync::mpsc::Sender", "std::sync::mpsc::SyncSender")
                for x in [b] + [c for c in self.prog.bodies.values() if c.kind == "closure" and c.d.startswith(b.d)]
                for t in (x.blocks[i].t for i in x.reach))
        return self.memo[k]

    def loop_effects(self, b, lp):
        """Order-sensitive effects of one loop on what outlives a turn."""
        kind, h, blocks, ln, ty = lp
        inside = {}

        def outer(l):
            if l not in inside:
                inside[l] = self.defined_in(b, l, blocks)
            if 1 <= l <= b.argc:
                return True
            return not inside[l]
        # references taken in the loop to things defined in the loop are not outer: roots()
        # of a local contain the local itself, so ask for real containers only
        def out2(l):
            return outer(l) and b.locals[l].k not in ("ref", "ptr") or (1 <= l <= b.argc)
        es = self.effects(b, blocks, out2)
        es += self.carried(b, h, blocks)
        return es

    def carried(self, b, h, blocks):
        """Locals that keep a value of the last turn after the loop."""
        sh = shape_of(b)
        exits = {s for x in blocks for s in b.blocks[x].t.succs() if s not in blocks and s in sh.rpo}
        live = set()
        for e in exits:
            live |= sh.live.get(e, set())
        out = []
        for bi in sorted(blocks):
            if bi not in b.reach:
                continue
            for st in b.blocks[bi].s:
                if st.k != "=" or st.pl.l not in live or st.pl.l == 0 or st.pl.proj:
                    continue
                if self.defined_in(b, st.pl.l, blocks) or st.pl.l in sh.flags:
                    continue
                rv = st.rv
                if rv.op == "use" and rv.a[0].k == "c":
                    continue
                if rv.op == "bin" and rv.kind.replace("WithOverflow", "") in COMMUTES:
                    continue
                if rv.op in ("use", "cast") and rv.a[0].pl is not None:
                    # x = (x + y).0
                    if self.commuting(b, rv.a[0].pl.l, st.pl.l):
                        continue
                if b.locals[st.pl.l].k in ("ref", "ptr") or rv.op in ("discr", "ref", "raw"):
                    continue
                if rv.op == "agg" and all(o.k == "c" for o in rv.a):
                    continue
                if st.pl.l not in b.names:
                    continue
                out.append(Effect(b, st.ln, "the variable %s keeps the value of the last turn" % b.names[st.pl.l]))
        return out

    def commuting(self, b, l, target):
        for bi in b.reach:
            for st in b.blocks[bi].s:
                if st.k == "=" and st.pl.l == l and not st.pl.proj and st.rv.op == "bin" and \
                        st.rv.kind.replace("WithOverflow", "") in COMMUTES:
                    return True
        return False

    # -- iterator expressions ---------------------------------------------------
    def expressions(self, b):
        """Order-sensitive uses of unordered iterators outside loops."""
        out = []
        prog = self.prog
        for bi in sorted(b.reach):
            t = b.blocks[bi].t
            if t.k != "call" or t.callee is None or not t.args:
                continue
            name = t.callee.name
            tr = (t.callee.trait or "").rsplit("::", 1)[-1]
            ix = 1 if name == "extend" else 0
            if ix >= len(t.args):
                continue
            ty = prog.op_ty(b, t.args[ix])
            if ty is None:
                continue
            if name in ("collect", "from_iter", "extend", "join", "enumerate", "nth", "last", "find", "find_map",
                        "position", "take", "skip", "fold", "reduce", "rposition", "step_by", "take_while",
                        "skip_while", "chunks", "zip", "hash"):
                r = unordered(prog, ty)
                if not r:
                    continue
                if name in ("collect", "from_iter", "extend"):
                    oty = prog.place_ty(b, t.dst) if name != "extend" else prog.op_ty(b, t.args[0]).strip_refs()
                    o = oty
                    while o is not None and o.k == "adt" and o.d.rsplit("::", 1)[-1] in ("Result", "Option") and o.a:
                        o = o.a[0]
                    if o is None or o.k != "adt" or o.d not in SEQ:
                        continue
                    l = t.dst.l if name != "extend" else t.args[0].pl.l
                    if self.laundered(b, l):
                        continue
                out.append((r[0], Effect(b, t.ln, t.callee.path), r[1]))
        return out

    # -- what becomes of a sequence in an unspecified order ----------------------
    def callers(self, b):
        m = self.memo.get("callers")
        if m is None:
            m = {}
            for x in self.prog.bodies.values():
                for bi in x.reach:
                    t = x.blocks[bi].t
                    if t.k == "call" and t.callee is not None:
                        tg = resolve(self.prog, t.callee, {})
                        if tg.kind == "local":
                            m.setdefault(tg.body.d, []).append((x, t))
            self.memo["callers"] = m
        return m.get(b.d, [])

    def laundered(self, b, l, stack=()):
        """The order of this sequence does not matter: it is sorted, or moved on element by element into
        something keyed, here or by everyone it is handed to."""
        if (b.d, l) in stack:
            return True
        if len(stack) > 6:
            return False
        stack = stack + ((b.d, l),)
        if self.sorted_later(b, l):
            return True
        if 1 <= l <= b.argc:
            cs = self.callers(b)
            if not cs:
                return False
            for x, t in cs:
                if l - 1 >= len(t.args) or t.args[l - 1].pl is None:
                    return False
                rs = [r for r in self.roots(x)[t.args[l - 1].pl.l]
                      if x.locals[r].k not in ("ref", "ptr") or 1 <= r <= x.argc]
                if not rs or not all(self.laundered(x, r, stack) for r in rs if self.seq(x, r)):
                    return False
            return True
        used = self.consumers(b, l, stack)
        if used is not None:
            return used
        if l in self.roots(b)[0]:
            cs = self.callers(b)
            return bool(cs) and all(self.laundered_result(x, t.dst.l, stack) for x, t in cs)
        return False

    def laundered_result(self, x, l, stack):
        """The result of a call, possibly taken out of a Result first."""
        ls = [r for r in range(len(x.locals)) if l in self.roots(x)[r] and x.locals[r].k == "adt" and x.locals[r].d in SEQ]
        return bool(ls) and any(self.laundered(x, r, stack) for r in ls)

    def seq(self, b, l):
        t = b.locals[l].strip_refs()
        return t.k == "adt" and t.d in SEQ

    def consumers(self, b, l, stack=()):
        """True/False: every/some use takes the elements without/with regard to their order; None: no use seen."""
        rs = self.roots(b)
        sh = shape_of(b)
        seen = None
        for bi in sorted(b.reach):
            t = b.blocks[bi].t
            if t.k != "call" or t.callee is None or not t.args:
                continue
            for i, a in enumerate(t.args):
                if a.pl is None or l not in rs[a.pl.l]:
                    continue
                name = t.callee.name
                if name == "next" and i == 0:
                    lps = sorted((bl for h, bl in sh.loop.items() if bi in bl), key=len)
                    h = next((h for h, bl in sh.loop.items() if lps and bl is lps[0]), None)
                    if h is None:
                        return False
                    if self.loop_effects(b, ("sequence", h, lps[0], t.ln, None)):
                        return False
                    seen = True
                elif name in ("collect", "from_iter") and i == 0:
                    o = self.prog.place_ty(b, t.dst)
                    while o is not None and o.k == "adt" and o.d.rsplit("::", 1)[-1] in ("Result", "Option") and o.a:
                        o = o.a[0]
                    if o is not None and o.k == "adt" and o.d in KEYED:
                        seen = True
                    elif o is not None and o.k == "adt" and o.d in SEQ and t.dst.l != l:
                        if not self.laundered(b, t.dst.l, ((b.d, l),)):
                            return False
                        seen = True
                    else:
                        return False
                elif name in ("extend", "append", "extend_from_slice") and i == 1:
                    o = self.prog.op_ty(b, t.args[0]).strip_refs()
                    if o.k == "adt" and o.d in KEYED:
                        seen = True
                    elif t.args[0].pl is not None and o.k == "adt" and o.d in SEQ and all(
                            self.laundered(b, r, stack) for r in rs[t.args[0].pl.l] if self.seq(b, r) and
                            (b.locals[r].k not in ("ref", "ptr") or 1 <= r <= b.argc)):
                        seen = True
                    else:
                        return False
        return seen


# -- values that differ between runs ---------------------------------------------
ND = {"SystemTime::now": "the time of day", "Instant::now": "a clock", "SystemTime::elapsed": "the time of day",
      "Instant::elapsed": "a clock", "thread::current": "the thread", "process::id": "the process",
      "Metadata::modified": "file times", "Metadata::accessed": "file times", "Metadata::created": "file times",
      "env::var": "the environment", "env::vars": "the environment", "env::args": "the environment",
      "env::current_dir": "the environment", "available_parallelism": "the machine",
      "current_num_threads": "the machine", "current_thread_index": "the thread"}


def varying(prog, b, t):
    """What a call depends on besides its arguments, or None."""
    if t.callee is None:
        return None
    p = t.callee.path
    for k, v in ND.items():
        if p == k or p.endswith("::" + k):
            return v
    root = p.split("::", 1)[0]
    if root in ("rand", "rand_core", "getrandom", "fastrand", "uuid", "chrono", "time", "oorandom"):
        return "random numbers or time"
    if t.callee.name in ("build_hasher", "hash_one") and t.args:
        ty = prog.op_ty(b, t.args[0])
        if ty is not None and "RandomState" in str(ty.strip_refs()):
            return "a random hash seed"
    if "RandomState" in p and t.callee.name == "new":
        return None
    return None


def address_casts(b):
    for bi in sorted(b.reach):
        for st in b.blocks[bi].s:
            if st.k == "=" and st.rv.op == "cast" and ("Expose" in str(st.rv.kind)):
                yield st.ln


def random_containers(prog, bodies):
    """(key type, value type) texts of hash containers with a random seed that these bodies iterate."""
    out = set()
    for b in bodies:
        for bi in b.reach:
            t = b.blocks[bi].t
            if t.k != "call" or t.callee is None or not t.args:
                continue
            if t.callee.name not in ("iter", "into_iter", "keys", "values", "drain", "iter_mut", "into_keys", "into_values",
                                     "values_mut", "intersection", "difference", "union"):
                continue
            ty = prog.op_ty(b, t.args[0])
            if ty is None:
                continue
            ty = ty.strip_refs()
            if ty.k == "adt" and ty.d.rsplit("::", 1)[-1] in ("HashMap", "HashSet") and ty.a and \
                    any(x.k == "adt" and x.d.endswith("RandomState") for x in ty.a[1:]):
                out.add(tuple(str(x) for x in ty.a[:2 if ty.d.endswith("HashMap") else 1]))
    return out


def dead_edges(b):
    """Edges never taken because the value tested by ? was built as an error just before."""
    m = getattr(b, "_dead", None)
    if m is not None:
        return m
    defs = {}
    for bi in b.reach:
        for st in b.blocks[bi].s:
            if st.k == "=" and not st.pl.proj:
                defs.setdefault(st.pl.l, []).append(("s", st.rv))
        t = b.blocks[bi].t
        if t.k == "call" and not t.dst.proj:
            defs.setdefault(t.dst.l, []).append(("c", t))

    def only(l):
        d = defs.get(l, ())
        return d[0] if len(d) == 1 else (None, None)
    out = set()
    for bi in b.reach:
        t = b.blocks[bi].t
        if t.k != "switch" or t.on.pl is None:
            continue
        k, rv = only(t.on.pl.l)
        if k != "s" or rv.op != "discr":
            continue
        k, c = only(rv.pl.l)
        if k != "c" or c.callee is None or c.callee.name != "branch" or c.args[0].pl is None:
            continue
        k, rv = only(c.args[0].pl.l)
        if k == "s" and rv.op == "use" and rv.a[0].pl is not None and not rv.a[0].pl.proj:
            k, rv = only(rv.a[0].pl.l)
        if k == "s" and rv.op == "agg" and rv.kind == "adt" and rv.sub[0].endswith("::Result") and rv.sub[1] == 1:
            for v, to in t.cases:
                if v == 0:
                    out.add((bi, to))
    try:
        b._dead = out
    except AttributeError:
        pass
    return out
