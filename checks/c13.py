"""The hash and the archive of a source depend on all archived files and on nothing else.

Order: in everything the archiver runs, loops over directory listings, hash containers and channels
with several senders may only make changes that commute.  Variation: none of it asks for a clock, a
random number, a thread, an address.  Coverage: every turn of the loop that feeds the hash feeds both
the path and the bytes; every turn of a loop that hands files over does hand one over; a directory
entry is left out only because of what kind of entry it is or what the options say.
"""
from inst import resolve
from absint import shape_of
from cg import CallGraph
from check_base import Anchor
import order

TECHNIQUE = "effect analysis of unordered loops, reachability of varying inputs, and must-pass analysis of the file loops"

TEXT = {"alloc::string::String", "std::path::PathBuf", "std::path::Path", "std::ffi::os_str::OsStr", "std::ffi::os_str::OsString"}


def cyc_free(b, blocks, h, without):
    """A turn of the loop that passes none of these blocks: its blocks, or None."""
    if h in without:
        return None
    seen = {h: None}
    st = [h]
    while st:
        x = st.pop()
        for y in b.blocks[x].t.succs():
            if y == h:
                out = [x]
                while seen[out[-1]] is not None:
                    out.append(seen[out[-1]])
                return list(reversed(out))
            if y in blocks and y not in seen and y not in without:
                seen[y] = x
                st.append(y)
    return None


class Must:
    """Functions that certainly do something before they return normally."""

    def __init__(self, prog, does):
        self.prog = prog; self.does = does; self.memo = {}

    def blocks(self, b, allow_loops=True):
        """Blocks of a body that certainly do it."""
        out = set()
        for bi in b.reach:
            t = b.blocks[bi].t
            if t.k != "call":
                continue
            if self.does(b, t):
                out.add(bi)
                continue
            if t.callee is not None:
                tg = resolve(self.prog, t.callee, {})
                if tg.kind in ("local", "closure") and self.fn(tg.body):
                    out.add(bi)
        if allow_loops:
            # a loop over the pieces of one file counts as a whole
            sh = shape_of(b)
            for h, bl in sh.loop.items():
                inner = [x for x in out if x in bl]
                if inner and self.over_pieces(b, h, bl):
                    out.add(h)
        return out

    def over_pieces(self, b, h, bl):
        """The loop draws pieces of bytes or text."""
        for bi in bl:
            t = b.blocks[bi].t
            if t.k == "call" and t.callee is not None and t.callee.name == "next" and t.args:
                ty = self.prog.op_ty(b, t.args[0])
                if ty is not None and any(x.k == "adt" and x.d.rsplit("::", 1)[-1] in
                                          ("Chunks", "ChunksExact", "Bytes", "Chars", "Components", "Split") for x in ty.walk()):
                    return True
        return False

    def fn(self, b):
        if b.d in self.memo:
            return self.memo[b.d]
        self.memo[b.d] = False
        bl = self.blocks(b)
        r = bool(bl)
        if r:
            seen = {0}
            st = [0]
            if 0 in bl:
                st = []
            while st:
                x = st.pop()
                t = b.blocks[x].t
                if t.k == "return":
                    r = False
                    break
                for y in t.succs():
                    if y not in seen and y not in bl:
                        seen.add(y)
                        st.append(y)
        self.memo[b.d] = r
        return r


def material(prog, b, o, o_roots):
    """'path' or 'data' by the types a byte slice was taken from."""
    kinds = set()
    if o.pl is None:
        return kinds
    for l in o_roots[o.pl.l]:
        ty = b.locals[l]
        for x in [ty.strip_refs()] + ([y for y in ty.strip_refs().walk()] if ty.strip_refs().k == "adt" and
                                      ty.strip_refs().d.rsplit("::", 1)[-1] in ("Arc", "Box", "Rc", "Cow") else []):
            if x.k == "str" or (x.k == "adt" and x.d in TEXT):
                kinds.add("path")
            if x.k == "adt" and x.d == "alloc::vec::Vec" and x.a and str(x.a[0]) == "u8":
                kinds.add("data")
            if x.k == "adt" and x.d.rsplit("::", 1)[-1] in ("Bytes", "Mmap"):
                kinds.add("data")
    if not kinds:
        kinds.add("data")
    if kinds == {"path", "data"}:
        # text held in a vector of bytes at some point: the nearest origin decides
        t0 = b.locals[o.pl.l].strip_refs()
        if t0.k == "str" or (t0.k == "adt" and t0.d in TEXT):
            return {"path"}
        return {"path", "data"}
    return kinds


def feeds(prog, b, t, O):
    """(is a call that feeds a hasher, what it feeds)."""
    if t.callee is None:
        return False, set()
    tr = (t.callee.trait or "").rsplit("::", 1)[-1]
    rs = O.roots(b)
    if tr == "Hasher" and t.callee.name == "write" and len(t.args) > 1:
        return True, material(prog, b, t.args[1], rs)
    if tr == "Hash" and t.callee.name in ("hash", "hash_slice"):
        return True, material(prog, b, t.args[0], rs)
    if t.callee.name in ("update", "write", "input") and len(t.args) > 1 and "ash" in t.callee.path.rsplit("::", 2)[0]:
        return True, material(prog, b, t.args[1], rs)
    return False, set()


def parts(prog, b, O):
    """Feeding calls outside inner loops that are given only a part of something: [(call, what)]."""
    rs = O.roots(b)
    ranges = {}             # local -> the operands of the range made there
    lens = set()
    cuts = set()
    for bi in b.reach:
        for st in b.blocks[bi].s:
            if st.k == "=" and st.rv.op == "agg" and not st.pl.proj and "Range" in str(b.locals[st.pl.l]):
                ranges[st.pl.l] = st.rv.a
        t = b.blocks[bi].t
        if t.k == "call" and t.callee is not None and t.callee.name == "len" and t.dst is not None:
            lens.add(t.dst.l)
    for bi in b.reach:
        t = b.blocks[bi].t
        if t.k != "call" or t.callee is None or len(t.args) != 2 or t.callee.name not in ("index", "get", "get_unchecked"):
            continue
        ty = prog.op_ty(b, t.args[1])
        if ty is None or not ty.k == "adt" or "Range" not in ty.d or ty.d.endswith("RangeFull"):
            continue
        r = ranges.get(t.args[1].pl.l) if t.args[1].pl is not None else None
        if r is not None and len(r) and r[-1].pl is not None and rs[r[-1].pl.l] & lens and not ty.d.endswith("RangeFrom"):
            if len(r) == 1 or getattr(getattr(r[0], "c", None), "v", None) == 0:
                continue        # up to the length: all of it
        cuts.add(t.dst.l)
    sh = shape_of(b)
    out = []
    for bi in b.reach:
        t = b.blocks[bi].t
        if t.k != "call" or sum(1 for bl in sh.loop.values() if bi in bl) > 1:
            continue
        is_feed, what = feeds(prog, b, t, O)
        for a in t.args if is_feed else ():
            if a.pl is not None and rs[a.pl.l] & cuts:
                out.append((t, "/".join(sorted(what))))
    return out


def outermost(b, want):
    """Outermost loops holding any of these blocks."""
    sh = shape_of(b)
    out = []
    for h, bl in sh.loop.items():
        if not (bl & want):
            continue
        if any(h2 != h and bl < bl2 for h2, bl2 in sh.loop.items() if bl2 & want):
            continue
        out.append((h, bl))
    return out


def run(prog, ctx):
    ctx.rule("a loop over a directory listing, a hash container or a channel with several senders only makes changes that commute")
    ctx.rule("nothing the archiver runs asks for a clock, a random number, a thread, the environment or an address")
    ctx.rule("every turn of the loop that feeds the hash feeds the path and the bytes of a file")
    ctx.rule("every turn of a loop that hands files to the hash hands one over")
    ctx.rule("a directory entry is left out only because of its kind or the options; an entry that cannot be read is an error")
    O = order.Orders(prog)
    g = CallGraph(prog)
    roots = [b for b in prog.fns() if b.crate == "dochy_archiver2" and b.eff and "_archive" in b.name]
    names = {b.name for b in roots}
    for n in ("read_archive", "write_archive", "read_archive_data_from_directory"):
        if n not in names:
            raise Anchor("the public function %s of the archiver was not found" % n)
    pred = g.reach([g.inst(b) for b in roots])
    bodies = {}
    for k in pred:
        b = g.insts[k].body
        bodies.setdefault(b.d, (b, k))
    ctx.count("functions", len(bodies))
    loops = 0
    for b, k in bodies.values():
        for lp in O.loops(b):
            loops += 1
            for e in O.loop_effects(b, lp):
                ctx.violation("order:%s:%s" % (b.p, e.what), "a loop in unspecified order (%s) does %s" % (lp[0], e.what),
                              e.body.where(e.ln), g.path_to(pred, k) + list(e.via))
        for kind, e, ty in O.expressions(b):
            ctx.violation("order:%s:%s" % (b.p, e.what), "the order of an unordered iterator (%s) shows in %s" % (kind, e.what),
                          b.where(e.ln), g.path_to(pred, k))
        for bi in sorted(b.reach):
            t = b.blocks[bi].t
            if t.k == "call":
                w = order.varying(prog, b, t)
                if w:
                    ctx.violation("varies:%s:%s" % (b.p, t.callee.path), "the archiver asks for %s" % w, b.where(t.ln), g.path_to(pred, k))
        for ln in order.address_casts(b):
            ctx.violation("varies:%s:address" % b.p, "the archiver turns an address into a number", b.where(ln), g.path_to(pred, k))
    ctx.count("unordered loops", loops)
    ctx.floor("unordered loops", 1)

    mine = [b for b, k in bodies.values() if b.crate == "dochy_archiver2"]
    # -- the hash is fed path and bytes -------------------------------------------
    fed = Feed(prog, O)
    feeders = []
    for b in mine:
        direct = {bi for bi in b.reach if b.blocks[bi].t.k == "call" and feeds(prog, b, b.blocks[bi].t, O)[0]}
        called = {bi for bi in b.reach if bi not in direct and b.blocks[bi].t.k == "call" and fed.call(b, b.blocks[bi].t)}
        for h, bl in outermost(b, direct | called):
            feeders.append((b, h, bl))
    # a helper with a loop over the pieces of one file is not the loop over the files
    tops = [(b, h, bl) for b, h, bl in feeders if not Must(prog, lambda *_: False).over_pieces(b, h, bl)]
    ctx.count("hash loops", len(tops))
    for b, h, bl in tops:
        for what in ("path", "data"):
            m = Must(prog, lambda x, t, what=what: what in feeds(prog, x, t, O)[1])
            cyc = cyc_free(b, bl, h, m.blocks(b))
            if cyc is not None:
                lines = sorted({b.blocks[x].t.ln for x in cyc if b.blocks[x].t.ln})
                ctx.violation("hash-leaves-out:%s:%s" % (b.p, what),
                              "the %s of a file may not reach the hash" % ("path" if what == "path" else "bytes"),
                              b.where(lines[0] if lines else b.line), ["turn through line %d" % x for x in lines])
    for b in mine:
        cut = parts(prog, b, O)
        if len(cut) == 1:
            ctx.violation("hash-part:%s" % b.p, "only a part of the %s of a file reaches the hash" % cut[0][1].replace("data", "bytes"),
                          b.where(cut[0][0].ln))
        elif cut:
            ctx.undecide("%s: whether the parts fed to the hash make the whole" % b.p)
    if not tops:
        # the hash may be computed over one buffer: not decided then
        ctx.undecide("coverage of the hash: no loop feeds it")

    # -- every file is handed over ---------------------------------------------------
    # what carries a file to the hash: the channel the hash loop receives from, or the call itself
    chans = set()
    for b, h, bl in tops:
        for bi in bl:
            t = b.blocks[bi].t
            if t.k == "call" and t.callee is not None and t.callee.name in ("recv", "next", "try_recv") and t.args:
                ty = prog.op_ty(b, t.args[0])
                if ty is not None:
                    for x in ty.walk():
                        if x.k == "adt" and "mpsc" in x.d and x.a:
                            chans.add(str(x.a[0]))

    def hands(b, t):
        if t.callee is None or t.callee.name not in ("send", "try_send") or not t.args:
            return False
        ty = prog.op_ty(b, t.args[0])
        ty = ty.strip_refs() if ty is not None else None
        if ty is None or ty.k != "adt" or "mpsc" not in ty.d or not ty.a or str(ty.a[0]) not in chans:
            return False
        return not closing(b, t)
    m = Must(prog, hands)
    n = 0
    if chans:
        for b in mine:
            bl = m.blocks(b, False)
            may = may_blocks(prog, b, hands)
            for h, lb in outermost(b, may):
                n += 1
                cyc = cyc_free(b, lb, h, bl)
                if cyc is not None:
                    lines = sorted({b.blocks[x].t.ln for x in cyc if b.blocks[x].t.ln})
                    ctx.violation("file-left-out:%s" % b.p, "a file may be passed over without reaching the hash",
                                  b.where(lines[0] if lines else b.line), ["turn through line %d" % x for x in lines])
        ctx.count("file loops", n)
        ctx.floor("file loops", 1)

    # -- directory entries -------------------------------------------------------------
    dirs = 0
    for b in mine:
        for kind, h, bl, ln, ty in O.loops(b):
            if kind != "listing":
                continue
            dirs += 1
            entries(ctx, prog, O, b, h, bl)
    ctx.count("listings", dirs)
    ctx.analysed += sorted(b.p for b in mine)


class Feed:
    def __init__(self, prog, O):
        self.prog = prog; self.O = O; self.memo = {}

    def call(self, b, t):
        if t.callee is None:
            return False
        tg = resolve(self.prog, t.callee, {})
        return tg.kind in ("local", "closure") and self.fn(tg.body)

    def fn(self, b):
        if b.d not in self.memo:
            self.memo[b.d] = False
            self.memo[b.d] = any(b.blocks[i].t.k == "call" and (feeds(self.prog, b, b.blocks[i].t, self.O)[0] or
                                                               self.call(b, b.blocks[i].t)) for i in b.reach)
        return self.memo[b.d]


def closing(b, t):
    """The message is a constant without a file in it (the end mark)."""
    if len(t.args) < 2:
        return False
    o = t.args[1]
    if o.pl is None:
        return True
    for bi in b.reach:
        for st in b.blocks[bi].s:
            if st.k == "=" and st.pl.l == o.pl.l and not st.pl.proj and st.rv.op == "agg" and not st.rv.a:
                return True
    return False


def may_blocks(prog, b, does, memo=None, depth=5):
    out = set()
    for bi in b.reach:
        t = b.blocks[bi].t
        if t.k != "call":
            continue
        if does(b, t):
            out.add(bi)
        elif depth and t.callee is not None:
            tg = resolve(prog, t.callee, {})
            if tg.kind in ("local", "closure") and tg.body.d != b.d and may_blocks(prog, tg.body, does, None, depth - 1):
                out.add(bi)
    return out


BENIGN = {"is_file", "is_dir", "is_symlink", "file_type", "metadata", "symlink_metadata", "next", "into_iter", "branch",
          "path", "extension", "to_str", "read_dir", "map_or", "unwrap_or", "and_then", "map", "file_name", "as_ref",
          "from_residual", "deref", "borrow", "as_path", "to_string_lossy", "is_some", "is_none", "is_ok", "is_err",
          "clone", "as_deref", "to_string", "into", "from", "unwrap_or_default", "as_str", "to_owned", "map_or_else",
          "exists", "try_exists", "not", "unwrap_or_else", "map_err", "ok_or", "ok_or_else", "to_path_buf", "as_os_str"}


def entries(ctx, prog, O, b, h, bl):
    """Conditions under which a turn over a directory entry adds nothing."""
    defs = {}
    for bi in b.reach:
        for st in b.blocks[bi].s:
            if st.k == "=":
                src = [o.pl.l for o in st.rv.a if o.pl is not None]
                if st.rv.pl is not None:
                    src.append(st.rv.pl.l)
                defs.setdefault(st.pl.l, []).append((src, None))
        t = b.blocks[bi].t
        if t.k == "call":
            defs.setdefault(t.dst.l, []).append(([a.pl.l for a in t.args if a.pl is not None], t))
    adds = set()
    for bi in bl:
        t = b.blocks[bi].t
        if t.k != "call" or t.callee is None:
            continue
        if t.callee.name in ("insert", "push", "push_back", "send", "extend", "append"):
            adds.add(bi)
        else:
            tg = resolve(prog, t.callee, {})
            if tg.kind in ("local", "closure") and any(
                    (prog.op_ty(b, a) is not None and any(x.k == "ref" and x.m for x in prog.op_ty(b, a).walk())) for a in t.args):
                adds.add(bi)
    if not adds:
        return

    def reaches(x, goal, avoid):
        seen = {x}
        st = [x]
        while st:
            y = st.pop()
            if y in goal:
                return True
            for z in b.blocks[y].t.succs():
                if z in bl and z not in seen and z not in avoid:
                    seen.add(z)
                    st.append(z)
        return False
    for bi in sorted(bl):
        t = b.blocks[bi].t
        if t.k != "switch":
            continue
        # decides between adding and going on to the next entry without adding
        succ = [s for s in t.succs() if s in bl]
        can_add = [s for s in succ if reaches(s, adds, {h})]
        skips = [s for s in succ if s == h or reaches_skip(b, bl, s, h, adds)]
        if not can_add or not skips:
            continue
        if all(s in can_add and s in skips for s in t.succs()):
            continue
        calls, locs = back(defs, t.on.pl.l if t.on.pl is not None else None)
        if any("ArchiveOptions" in str(b.locals[l]) for l in locs) or \
                any("ArchiveOptions" in str(prog.op_ty(b, a)) for c in calls for a in c.args if prog.op_ty(b, a) is not None):
            continue
        # a failed look at the entry
        rty = [b.locals[l] for l in locs if b.locals[l].k == "adt" and b.locals[l].d.endswith("Result") and "Error" in str(b.locals[l])]
        odd = [c for c in calls if c.callee is not None and c.callee.name not in BENIGN]
        if odd:
            ctx.violation("entry-left-out:%s:%s" % (b.p, odd[0].callee.path),
                          "a directory entry may be left out depending on %s" % odd[0].callee.path, b.where(odd[0].ln))
        elif rty and direct_result(b, defs, t):
            ctx.violation("entry-error:%s" % b.p, "a directory entry that cannot be read is left out silently", b.where(t.ln))


def direct_result(b, defs, t):
    """The switch looks at the discriminant of a Result of an input-output call."""
    l = t.on.pl.l if t.on.pl is not None else None
    for bi in b.reach:
        for st in b.blocks[bi].s:
            if st.k == "=" and st.pl.l == l and st.rv.op == "discr":
                ty = b.locals[st.rv.pl.l]
                if not st.rv.pl.proj and ty.k == "adt" and ty.d.endswith("::Result") and "io::" in str(ty):
                    return True
    return False


def reaches_skip(b, bl, s, h, adds):
    if s in adds:
        return False
    seen = {s}
    st = [s]
    while st:
        x = st.pop()
        for y in b.blocks[x].t.succs():
            if y == h:
                return True
            if y in bl and y not in seen and y not in adds:
                seen.add(y)
                st.append(y)
    return False


def back(defs, l, seen=None):
    """Calls and locals a value was computed from."""
    calls = []
    seen = set()
    st = [l] if l is not None else []
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        for src, t in defs.get(x, ()):
            if t is not None:
                calls.append(t)
            st += src
    return calls, seen
