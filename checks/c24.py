"""C24: lengths read from files never size an allocation that cannot fail softly."""
import re
from flow import Flow, node_of
from inst import resolve
from check_base import Anchor

TECHNIQUE = ("Whole-program taint analysis over the compiler's MIR: bytes delivered by reads are followed through "
             "arithmetic, fields, containers and calls; an integer assembled from several of them must not reach the "
             "size operand of an allocating function that aborts or panics when memory is short.")

SMALL, BIG = 1, 2
NARROW = {"u8", "i8", "u16", "i16", "bool", "char"}
# operand giving the size, for functions that abort or panic when the memory cannot be had
SINKS = [
    (re.compile(r"::(Vec|VecDeque|String|BinaryHeap|HashMap|HashSet|OsString|PathBuf|IndexMap|BitVec|BufReader|BufWriter)"
                r"(::)?(<.*>)?::with_capacity$"), 0, "with_capacity"),
    (re.compile(r"::with_capacity$"), 0, "with_capacity"),
    (re.compile(r"::with_capacity_and_hasher$"), 0, "with_capacity_and_hasher"),
    (re.compile(r"::(reserve|reserve_exact|reserve_len)$"), 1, "reserve"),
    (re.compile(r"::(resize|resize_with|extend_with|grow)$"), 1, "resize"),
    (re.compile(r"(^|::)vec::from_elem$"), 1, "vec![x; n]"),
    (re.compile(r"::(new_uninit_slice|new_zeroed_slice|from_elem)$"), 0, "slice of n elements"),
    (re.compile(r"::repeat$"), 1, "repeat"),
    (re.compile(r"Layout::array$"), 0, "allocation of n elements"),
]
# results that are bounded by what is in memory already, or carry no file content
CLEAN = {"len", "capacity", "count", "is_empty", "position", "is_some", "is_none", "is_ok", "is_err", "eq", "ne", "cmp",
         "partial_cmp", "lt", "le", "gt", "ge", "hash", "leading_zeros", "trailing_zeros", "count_ones", "contains",
         "contains_key", "starts_with", "ends_with", "size_hint", "bit_length", "drop", "as_ptr", "as_mut_ptr"}
BOUND = {"min", "clamp"}
GROW = {"from_be_bytes", "from_le_bytes", "from_ne_bytes", "parse", "from_str", "from_str_radix", "pow", "checked_mul",
        "wrapping_mul", "saturating_mul", "checked_shl", "wrapping_shl", "checked_pow", "read_u32", "read_u64",
        "read_i32", "read_i64", "get_u32", "get_u64", "fold", "product"}
READS = {"read", "read_exact", "read_to_end", "read_to_string", "read_until", "read_line", "fill_buf", "bytes",
         "read_buf", "read_buf_exact", "take", "chain"}
EXACT = {"map", "rev", "enumerate", "cloned", "copied", "zip", "chain", "inspect", "into_iter", "iter", "by_ref"}


class Taint(Flow):
    def ext(self, b, bi, t, tg, args, dst):
        name = tg.path.rsplit("::", 1)[-1] if tg is not None else ""
        at = (b, t.ln)
        if name in CLEAN:
            return True
        if name in BOUND and len(args) >= 2:
            # bounded by the other operand when that one is not from a file
            for i, n in enumerate(args):
                self.bounds.append((n, [m for j, m in enumerate(args) if j != i], dst, at))
            return True
        return False

    def step(self, level, label, src, dst):
        if label.startswith("bin:"):
            k = label[4:].replace("WithOverflow", "").replace("Unchecked", "")
            if k in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge", "Cmp"):
                return 0
            if k in ("Rem", "BitAnd"):
                return SMALL if label.endswith("#c") else level
            if k in ("Mul", "Shl"):
                return BIG
            return level
        if label.startswith("cast:") and "IntToInt" not in label:
            return level
        if label.startswith("ext:"):
            n = label.rsplit("::", 1)[-1]
            if n in GROW:
                return BIG
        return level

    def bin_label(self, b, rv):
        c = any(o.k == "c" for o in rv.a)
        k = rv.kind.replace("WithOverflow", "").replace("Unchecked", "")
        return "bin:%s%s" % (k, "#c" if c and k in ("Rem", "BitAnd") else "")

    def limit(self, node, level):
        ty = self.type_of(node)
        if ty is not None:
            c = self.carries(ty)
            return min(level, c)
        return level

    def type_of(self, n):
        if n[0] == "L":
            return self.prog.bodies[n[1]].locals[n[2]]
        if n[0] == "F":
            a = self.prog.adts.get(n[1])
            f = a["v"][n[2]]["f"] if a and n[2] < len(a["v"]) else ()
            return f[n[3]]["t"] if n[3] < len(f) else None
        if n[0] == "T":
            ty = self.type_of(n[1])
            while ty is not None and ty.k in ("ref", "ptr"):
                ty = ty.t
            if ty is not None and ty.k == "tuple" and n[2] < len(ty.a):
                return ty.a[n[2]]
        return None

    def carries(self, ty):
        """Highest level a value of this type can have."""
        k = getattr(self, "_carry", None)
        if k is None:
            k = self._carry = {}
        r = k.get(id(ty))
        if r is not None:
            return r
        k[id(ty)] = BIG
        if ty.k in ("ref", "ptr", "slice", "array"):
            r = self.carries(ty.t) if ty.t is not None else BIG
        elif ty.k == "bool" or (ty.k == "tuple" and not ty.a):
            r = 0
        elif ty.k in ("int", "uint", "char", "float") or ty.s in NARROW:
            r = SMALL if ty.s in NARROW else BIG
        elif ty.k == "str":
            r = SMALL
        elif ty.k == "adt":
            if ty.d in ("alloc::string::String", "std::path::PathBuf", "std::path::Path"):
                r = SMALL
            elif ty.d in self.prog.local_adts:
                r = 0           # what is inside is tracked by field
            elif ty.a:
                r = max([self.carries(x) for x in ty.a])
            else:
                r = BIG
        else:
            r = BIG
        k[id(ty)] = r
        return r


def guarded(prog, b, bi, op, fl):
    """The size is compared with a bound that is not from a file, and the call is on the small side."""
    defs = {}
    for x in b.reach:
        for st in b.blocks[x].s:
            if st.k == "=" and not st.pl.proj:
                defs.setdefault(st.pl.l, []).append(st.rv)
        t = b.blocks[x].t
        if t.k == "call" and not t.dst.proj:
            defs.setdefault(t.dst.l, []).append(None)

    def root(l):
        for _ in range(20):
            d = defs.get(l, ())
            if len(d) == 1 and d[0] is not None and d[0].op in ("use", "cast") and d[0].a[0].pl is not None and \
                    not d[0].a[0].pl.proj:
                l = d[0].a[0].pl.l
            else:
                break
        return l
    if op.pl is None or op.pl.proj:
        return False
    want = root(op.pl.l)
    for x in b.reach:
        blk = b.blocks[x]
        if blk.t.k != "switch" or blk.t.on.pl is None:
            continue
        for st in blk.s:
            if st.k == "=" and st.pl.l == blk.t.on.pl.l and not st.pl.proj and st.rv.op == "bin" and \
                    st.rv.kind in ("Lt", "Le", "Gt", "Ge"):
                a, c = st.rv.a
                side = None
                if a.pl is not None and not a.pl.proj and root(a.pl.l) == want:
                    side, other = 0, c
                elif c.pl is not None and not c.pl.proj and root(c.pl.l) == want:
                    side, other = 1, a
                if side is None:
                    continue
                on = node_of(prog, b, other.pl) if other.pl is not None else None
                if on is not None and fl.level.get(on, 0) >= BIG:
                    continue
                less = st.rv.kind in ("Lt", "Le")
                small_if = less if side == 0 else not less
                # successor taken when the size is the smaller one
                t = blk.t
                false_bb = [bb for v, bb in t.cases if v == 0]
                true_bb = t.els
                good = true_bb if small_if else (false_bb[0] if false_bb else None)
                bad = (false_bb[0] if false_bb else None) if small_if else true_bb
                if good is None or bad is None:
                    continue
                if not reaches(b, 0, bi, avoid_edge=(x, good)):
                    return True
    return False


def reaches(b, src, dst, avoid_edge):
    seen = {src}
    st = [src]
    while st:
        n = st.pop()
        if n == dst:
            return True
        for s in b.blocks[n].t.succs():
            if (n, s) == avoid_edge or s is None or s in seen:
                continue
            seen.add(s)
            st.append(s)
    return False


def ranged(ty):
    """An iterator that knows its number of elements from a range or a repetition count."""
    if ty.k == "adt":
        if ty.d in ("core::ops::range::Range", "core::ops::range::RangeInclusive"):
            return True
        last = ty.d.rsplit("::", 1)[-1]
        if last in ("Map", "Rev", "Enumerate", "Cloned", "Copied", "Inspect", "Chain", "Fuse", "Peekable", "StepBy"):
            return any(ranged(x) for x in ty.a[:2])
        if last == "Zip":
            return all(ranged(x) for x in ty.a[:2])
        if last in ("RepeatN",):
            return True
        if last == "Take" and ty.a and ty.a[0].k == "adt" and \
                ty.a[0].d.rsplit("::", 1)[-1] in ("Repeat", "RepeatWith", "Cycle"):
            return True
    return False


OWNERS = {"alloc::vec::Vec", "alloc::string::String", "std::collections::hash::map::HashMap",
          "std::collections::hash::set::HashSet", "alloc::collections::vec_deque::VecDeque", "alloc::boxed::Box"}


def run(prog, ctx):
    ctx.rule("taint: an integer assembled from bytes that were read never reaches the size operand of an allocation "
                      "that aborts or panics on failure (with_capacity, reserve, resize, vec![x; n], repeat, collecting "
                      "an iterator of known length); fallible reservations are allowed")
    Taint.bounds = []
    fl = Taint(prog)
    for n, others, dst, at in fl.bounds:
        fl.edge(n, dst, "bound", at)
    src = {}
    reads = 0
    for b, bi, t, tg, args, dst in fl.sites:
        if tg is None or tg.kind in ("local", "closure", "ctor"):
            continue
        name = tg.path.rsplit("::", 1)[-1]
        tr = t.callee.trait or ""
        if (tr.rsplit("::", 1)[-1] in ("Read", "BufRead") or "std::fs::File" in tg.path or
                tg.path.startswith("std::fs::read")) and name in READS:
            if name in ("take", "chain"):
                continue
            reads += 1
            for n in args[1:]:
                if n is not None:
                    src[n] = SMALL
            if name in ("bytes", "fill_buf") or tg.path.startswith("std::fs::read"):
                src[dst] = SMALL
    # the bounded results: tainted only if every operand is
    fl.run(src)
    blocked = set()
    for n, others, dst, at in fl.bounds:
        if not all(m is not None and fl.level.get(m, 0) >= BIG for m in others):
            blocked.add((n, dst))
    if blocked:
        for n, dst in blocked:
            fl.out.get(n, {}).pop((dst, "bound"), None)
        fl.run(src)
    ctx.count("reads of file contents", reads)
    ctx.count("values derived from them", sum(1 for v in fl.level.values() if v >= BIG))
    nsink = nfall = 0
    for b, bi, t, tg, args, dst in fl.sites:
        if tg is None or tg.kind in ("closure", "ctor"):
            continue
        path = tg.path
        name = path.rsplit("::", 1)[-1]
        if name in ("try_reserve", "try_reserve_exact", "vec_with_capacity_safe", "try_with_capacity"):
            for i, n in enumerate(args):
                if n is not None and fl.level.get(n, 0) >= BIG and fl.carries(prog.op_ty(b, t.args[i])) >= BIG:
                    nfall += 1
                    break
            continue
        if tg.kind == "local":
            continue
        hit = None
        for rx, ix, what in SINKS:
            if rx.search(path) and ix < len(t.args):
                hit = ix, what
                break
        if hit is None and name in ("collect", "from_iter", "extend"):
            ix = 1 if name == "extend" else 0
            ity = prog.op_ty(b, t.args[ix]) if ix < len(t.args) else None
            oty = prog.place_ty(b, t.dst) if name != "extend" else (prog.op_ty(b, t.args[0]).strip_refs())
            if ity is not None and ranged(ity) and oty is not None and oty.k == "adt" and oty.d in OWNERS:
                hit = ix, name
        if hit is None:
            continue
        ix, what = hit
        nsink += 1
        o = t.args[ix]
        n = args[ix]
        if n is None or fl.level.get(n, 0) < BIG:
            continue
        if guarded(prog, b, bi, o, fl):
            ctx.note("%s in %s is sized by file contents after a bound check" % (what, b.p))
            continue
        ctx.violation("alloc:%s:%s" % (b.p, what),
                      "%s calls %s with a size that comes from the contents of a file; when the memory cannot be had "
                      "the process aborts instead of returning an error" % (b.p, path), b.where(t.ln), fl.trail(n))
    ctx.count("allocations with a size operand", nsink)
    ctx.count("fallible reservations sized by file contents", nfall)
    ctx.floor("reads of file contents", 5)
    ctx.floor("allocations with a size operand", 15)
    ctx.floor("fallible reservations sized by file contents", 4)
    ctx.assume("Functions outside the repository do not themselves reserve memory from numbers inside the data they are "
               "given (the decompressor trusts a 32-bit length in its own header).")
