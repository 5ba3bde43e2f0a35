"""Transfer functions of standard-library calls for the provenance analysis.

apply() returns None (unknown call: default treatment), a list of (state, value[, event]), or
("body", body of a reference implementation in the models crate, arguments).
"""
from absint import (mk, T, app, const, some, ok, NONE, NULL, UNIT, TRUE, FALSE, OPTION, RESULT, subterms)
from inst import subst, resolve, key as tykey

STD = ("core", "alloc", "std", "once_cell", "arrayvec", "bit_vec", "linked_hash_map", "with_capacity_safe", "hashbrown")
IDENT = {"deref", "deref_mut", "as_ref", "as_mut", "borrow", "borrow_mut", "as_slice", "as_mut_slice", "as_str",
         "as_mut_str", "as_bytes", "as_path", "as_os_str", "must_use", "black_box", "make_mut", "get_mut_unchecked",
         "into_boxed_slice", "into_boxed_str", "into_vec", "into_string", "into_bytes", "to_string_lossy",
         "into_owned", "to_mut", "leak", "from_mut", "from_ref", "assume_init", "as_ptr", "as_mut_ptr", "cast",
         "cast_mut", "cast_const", "new_unchecked", "into_raw", "from_raw", "unwrap_or_clone", "force",
         "by_ref", "fuse", "into_inner_unchecked", "identity"}
CLONE = {"clone", "to_owned", "to_vec", "to_path_buf", "to_os_string", "cloned", "copied", "into_std_path_buf"}
COLLS = ("Vec", "HashMap", "BTreeMap", "HashSet", "BTreeSet", "VecDeque", "LinkedHashMap", "ArrayVec", "BitVec", "String",
         "[T]", "IndexMap", "BinaryHeap")
ITERS = {"iter", "iter_mut", "into_iter", "keys", "values", "values_mut", "into_keys", "into_values", "drain", "chars",
         "char_indices", "bytes", "lines", "split", "windows", "chunks", "split_whitespace", "read_dir"}
IMPURE = ("std::fs::", "std::time::", "std::sync::mpsc::", "core::sync::atomic::", "std::sync::atomic::",
          "std::path::Path::exists", "std::path::Path::is_", "std::env::", "std::thread::")


def split_path(p):
    """'<X as T>::m' -> (X, T, m); 'a::B::m' -> (a::B, None, m)."""
    own, name = p.rsplit("::", 1)
    if own.startswith("<") and own.endswith(">"):
        inner = own[1:-1]
        d = 0
        for i, ch in enumerate(inner):
            if ch == "<":
                d += 1
            elif ch == ">":
                d -= 1
            elif d == 0 and inner.startswith(" as ", i):
                return inner[:i], inner[i + 4:], name
        return inner, None, name
    return own, None, name


def last(p):
    return p.rsplit("::", 1)[-1]


def coll_of(own):
    o = own
    while o.startswith("&"):
        o = o[1:]
        if o.startswith("mut "):
            o = o[4:]
    return o


def read1(eng, s, a):
    return eng.read(s, eng.loc_of(s, a))


def subst_term(t, old, new, memo):
    r = memo.get(t.id)
    if r is not None:
        return r
    if t is old:
        r = new
    elif t is new:
        r = t
    else:
        ch = False
        a = []
        for x in t.a:
            if isinstance(x, T):
                y = subst_term(x, old, new, memo)
                ch = ch or y is not x
                a.append(y)
            elif isinstance(x, tuple) and x and any(isinstance(z, (T, tuple)) for z in x):
                y = subst_tuple(x, old, new, memo)
                ch = ch or y is not x
                a.append(y)
            else:
                a.append(x)
        r = mk(t.op, *a) if ch else t
    memo[t.id] = r
    return r


def subst_tuple(x, old, new, memo):
    out = []
    ch = False
    for z in x:
        if isinstance(z, T):
            y = subst_term(z, old, new, memo)
        elif isinstance(z, tuple):
            y = subst_tuple(z, old, new, memo)
        else:
            y = z
        ch = ch or y is not z
        out.append(y)
    return tuple(out) if ch else x


_has = {}


def mentions(t, x):
    """Does term t contain term x?"""
    k = (t.id, x.id)
    r = _has.get(k)
    if r is None:
        if t is x:
            r = True
        elif t.id < x.id:
            r = False
        else:
            r = any(mentions_any(y, x) for y in t.a)
        _has[k] = r
    return r


def mentions_any(y, x):
    if isinstance(y, T):
        return mentions(y, x)
    if isinstance(y, tuple):
        return any(mentions_any(z, x) for z in y)
    return False


def renew(s, e):
    """A new instance of the origin e comes into being: what is known of the previous one is
    kept under the name old(e)."""
    o = mk("old", e)
    facts = {}
    for t, f in s.facts.items():
        if mentions(t, e):
            continue
        facts[t] = f
    s.facts = facts
    memo = {}
    mem = {}
    for r, v in s.mem.items():
        if r[0] == "O" and mentions(r[1], e):
            if mentions(r[1], o) and subst_term(r[1], e, o, memo) is r[1]:
                pass
            else:
                continue
        if mentions(v, e):
            v = subst_term(v, e, o, memo)
        mem[r] = v
    s.mem = mem


def next_item(eng, s, fr, bi, t, tg, it, back=False):
    """Two outcomes, marked by events: "iter" with the new element, "iter-end"."""
    e = mk("elem", it if not back else app("rev", it), (fr.id, bi))
    n = s.copy()
    renew(n, e)
    return [(s, NONE, eng.event("iter-end", "iter-end", s, [it], [it], fr, bi, t, e, tg)),
            (n, some(e), eng.event("iter", "iter", n, [it], [it], fr, bi, t, e, tg))]


def iter_value(eng, s, a, how):
    """Iterator over what a (container or pointer to it) holds."""
    c = eng.contents(s, a)
    if how in ("iter", "iter_mut", "into_iter", "drain"):
        return app("iter", c)
    return app("iter:" + how, c)


def is_iter(v):
    return v.op == "app" and (v.a[0].startswith("iter") or v.a[0] in ("rev", "skip", "take", "step_by")) or \
        v.op == "agg" and (v.a[0].startswith("models::") or last(v.a[0]) in ("Range", "RangeInclusive", "RangeFrom"))


def local_method(eng, trait, name, adt):
    for im in eng.prog.impls:
        if im["trait"] == trait and not im["neg"] and im["self"].k == "adt" and im["self"].d == adt:
            for it in im["items"]:
                if it["d"] in eng.prog.bodies and eng.prog.bodies[it["d"]].name == name:
                    return eng.prog.bodies[it["d"]]
    return None


def body(eng, name, args):
    b = eng.prog.models.get("models::" + name)
    if b is None:
        return None
    return ("body", b, args)


def enum_unit(eng, v):
    """Fieldless variant value."""
    return v.op == "agg" and len(v.a) == 2 and v.a[0] in eng.prog.adts and eng.prog.adts[v.a[0]]["k"] == "enum"


def equality(eng, s, a, b):
    """[(state, bool value)] for a == b on contents."""
    if a is b:
        return [(s, TRUE)]
    if a.op == "const" and b.op == "const" and a.a[0] == b.a[0]:
        return [(s, TRUE if a.a[1] == b.a[1] else FALSE)]
    if a.op == "agg" and b.op == "agg" and a.a[0] == b.a[0] and a.a[0] != "[]":
        if a.a[1] != b.a[1]:
            return [(s, FALSE)]
        if len(a.a) == 2 and len(b.a) == 2:
            return [(s, TRUE)]
    for x, y in ((a, b), (b, a)):
        if enum_unit(eng, x):
            adt = x.a[0]
            vs = eng.variants_of(s, y, adt)
            if vs is None or y.op == "agg":
                continue
            out = []
            if x.a[1] in vs:
                n = s.copy()
                n.facts[y] = frozenset([x.a[1]])
                out.append((n, TRUE))
            rest = vs - {x.a[1]}
            if rest:
                n = s.copy()
                n.facts[y] = rest
                out.append((n, FALSE))
            return out
    for x, y in ((a, b), (b, a)):
        if x.op == "const" and x.a[0] == "bool":
            return [(s, y if x.a[1] else eng.notb(y))]
    if a.id > b.id:
        a, b = b, a
    t = app("eq", a, b)
    r = eng.bool_of(s, t)
    if r is not None:
        return [(s, TRUE if r else FALSE)]
    return [(s, t)]


def negate(eng, rs):
    return [(r[0], eng.notb(r[1])) for r in rs]


def apply(eng, s, fr, bi, t, tg, args):
    p = tg.path
    c = tg.callee
    trait = tg.trait
    name = c.name
    root = p.lstrip("<&").split("::", 1)[0]
    # --- traits with an agreed meaning, whoever implements them
    if trait == "core::clone::Clone" and name == "clone":
        return [(s, clone_value(eng, s, fr, t, tg, args[0]))]
    if trait == "core::cmp::PartialEq" and name in ("eq", "ne"):
        r = equality(eng, s, eng.deep(s, args[0]), eng.deep(s, args[1]))
        return r if name == "eq" else negate(eng, r)
    if trait == "core::iter::traits::iterator::Iterator":
        r = iterator(eng, s, fr, bi, t, tg, args, name)
        if r is not None:
            return r
        return None
    if trait == "core::iter::traits::double_ended::DoubleEndedIterator" and name == "next_back":
        v = eng.contents(s, args[0])
        if tg.kind == "local":
            return None
        return next_item(eng, s, fr, bi, t, tg, v, True)
    if trait == "core::iter::traits::collect::IntoIterator" and name == "into_iter":
        if tg.kind == "local":
            return None
        v = args[0]
        cv = eng.contents(s, v)
        if is_iter(cv):
            return [(s, cv if v.op not in ("ptr",) else v)]
        ty = tg.self_ty
        if ty is not None and ty.k == "adt":
            if ty.d == OPTION:
                return body(eng, "option_into_iter", args)
            if ty.d == RESULT:
                return body(eng, "result_into_iter", args)
            if local_method(eng, "core::iter::traits::iterator::Iterator", "next", ty.d):
                return [(s, v)]
            if last(ty.d) in ("Range", "RangeInclusive", "RangeFrom"):
                return [(s, v)]
        if cv.op == "agg" and cv.a[0] in eng.prog.local_adts:
            m = local_method(eng, "core::iter::traits::collect::IntoIterator", "into_iter", cv.a[0])
            if m is not None:
                return ("body", m, args)
            if local_method(eng, "core::iter::traits::iterator::Iterator", "next", cv.a[0]):
                return [(s, v)]
        if ty is not None and ty.k == "adt" and not coll_like(ty.d):
            return [(s, v)]         # an iterator already
        return [(s, iter_value(eng, s, v, "iter"))]
    if tg.kind in ("local", "closure", "ctor", "indirect"):
        return None
    if trait == "core::ops::try_trait::Try" and name == "branch":
        return branch(eng, s, args[0], tg)
    if trait == "core::ops::try_trait::FromResidual":
        return residual(eng, s, fr, t, tg, args[0])
    if trait == "core::ops::try_trait::Try" and name == "from_output":
        ty = tg.self_ty
        return [(s, ok(args[0]) if ty.d == RESULT else some(args[0]))]
    if trait in ("core::convert::From", "core::convert::Into", "core::convert::TryFrom", "core::convert::TryInto"):
        return convert(eng, s, fr, bi, t, tg, args, name)
    if trait in ("core::cmp::PartialOrd", "core::cmp::Ord"):
        a = eng.deep(s, args[0])
        b = eng.deep(s, args[1]) if len(args) > 1 else None
        k = {"lt": "Lt", "le": "Le", "gt": "Gt", "ge": "Ge"}.get(name)
        if k:
            return [(s, eng.binop(k, a, b))]
        return None
    if trait in ("alloc::string::ToString",) and name == "to_string":
        ty = tg.self_ty
        if ty is not None and (ty.strip_refs().k == "str" or ty.strip_refs().is_adt("alloc::string::String")):
            return [(s, eng.contents(s, args[0]))]
        return [(s, app("to_string", eng.deep(s, args[0])))]
    if trait == "core::default::Default":
        ty = tg.self_ty
        if ty is not None and ty.k == "adt" and coll_like(ty.d):
            return [(s, app("new"))]
        if ty is not None and ty.is_adt(OPTION):
            return [(s, NONE)]
        return [(s, app("default", const("str", ty.s if ty is not None else "?")))]
    if trait == "core::borrow::Borrow" or trait == "core::borrow::BorrowMut":
        return [(s, args[0])]
    if trait == "alloc::borrow::ToOwned":
        return [(s, read1(eng, s, args[0]))]
    if trait in ("core::ops::index::Index", "core::ops::index::IndexMut"):
        return index(eng, s, args[0], args[1])
    if root not in STD and not p.startswith(("<[T", "<str", "<*", "<bool", "<char", "<u", "<i", "<f")):
        return None
    own, tr, _ = split_path(p)
    co = coll_of(own)
    ls = last(co)
    if ls == "Option" or co.startswith("core::option::Option"):
        return option(eng, s, fr, bi, t, tg, args, name)
    if ls == "Result":
        return result(eng, s, fr, bi, t, tg, args, name)
    if co == "bool" and name in ("then", "then_some"):
        return body(eng, "bool_" + name, args)
    if own.startswith("*"):
        return rawptr(eng, s, args, name)
    if p in ("core::mem::replace", "std::mem::replace"):
        loc = eng.loc_of(s, args[0])
        v = eng.read(s, loc)
        eng.write(s, loc, args[1], fr, t.ln)
        return [(s, v)]
    if p in ("core::mem::take", "std::mem::take"):
        loc = eng.loc_of(s, args[0])
        v = eng.read(s, loc)
        ty = tg.args[0] if tg.args else None
        d = NONE if ty is not None and ty.is_adt(OPTION) else app("new") if ty is not None and ty.k == "adt" and coll_like(ty.d) \
            else app("default", const("str", ty.s if ty is not None else "?"))
        eng.write(s, loc, d, fr, t.ln)
        return [(s, v)]
    if p in ("core::mem::swap", "std::mem::swap"):
        la, lb = eng.loc_of(s, args[0]), eng.loc_of(s, args[1])
        va, vb = eng.read(s, la), eng.read(s, lb)
        eng.write(s, la, vb, fr, t.ln)
        eng.write(s, lb, va, fr, t.ln)
        return [(s, UNIT)]
    if p in ("core::mem::drop", "std::mem::drop", "core::mem::forget"):
        return [(s, UNIT)]
    if p.startswith("core::ptr::"):
        if name in ("null", "null_mut"):
            return [(s, NULL)]
        if name == "eq":
            return equality(eng, s, args[0], args[1])
        if name == "read":
            return [(s, read1(eng, s, args[0]))]
        if name == "write":
            eng.write(s, eng.loc_of(s, args[0]), args[1], fr, t.ln)
            return [(s, UNIT)]
        return None
    if name in ("new", "with_capacity", "with_capacity_and_hasher", "with_hasher", "vec_with_capacity_safe") and \
            (coll_like(co) or name == "vec_with_capacity_safe"):
        return [(s, app("new"))]
    if ls in ("Box", "Arc", "Rc", "Mutex", "RwLock", "RefCell", "Cell", "Weak", "MutexGuard", "RwLockReadGuard",
              "RwLockWriteGuard", "Lazy", "LazyLock", "Cow", "Pin", "OnceCell", "OnceLock", "ManuallyDrop", "PhantomData"):
        if name == "new" and args:
            return [(s, args[0])]
        if name == "new_uninit":
            return [(s, mk("undef"))]
        if name in ("lock", "read", "write") and ls in ("Mutex", "RwLock"):
            return [(s, ok(args[0]))]
        if name == "ptr_eq":
            return [(s, app("ptr_eq", eng.deep(s, args[0]), eng.deep(s, args[1])))]
        if name in ("get_mut",):
            return None
        if name in IDENT:
            return [(s, args[0])]
        if name == "downgrade":
            return [(s, eng.contents(s, args[0]))]
    if name == "box_assume_init_into_vec_unsafe" or name == "into_vec" and ls in ("[T]", "slice"):
        v = eng.contents(s, args[0])
        for x in subterms(v):
            if x.op == "agg" and x.a[0] == "[]":
                return [(s, x)]
        return [(s, v)]
    if coll_like(co) or co in ("str", "[T]") or ls in ("String", "PathBuf", "Path", "OsString", "OsStr"):
        r = coll(eng, s, fr, bi, t, tg, args, name, ls, co)
        if r is not None:
            return r
    if name in IDENT and len(args) == 1:
        return [(s, args[0])]
    if name in CLONE and len(args) == 1:
        return [(s, read1(eng, s, args[0]))]
    if name == "panic" or p.startswith("core::panicking") or p.startswith("std::panicking"):
        return None
    if p.startswith("core::fmt::") or p.startswith("alloc::fmt::"):
        if name in ("new_display", "new_debug", "new_lower_hex", "new_upper_hex", "new_octal"):
            return [(s, app("fmt:" + name[4:], eng.deep(s, args[0])))]
        if name in ("format",):
            return [(s, app("format", eng.deep(s, args[0])))]
        return None
    if any(p.startswith(x) for x in IMPURE):
        return impure(eng, s, fr, bi, t, tg, args, p)
    return None


def impure(eng, s, fr, bi, t, tg, args, p):
    """Result depends on the outside world: each call site gives its own value, renewed per execution."""
    st, v, ev = eng.opaque_result(s, fr, bi, t, tg, "ext", p, args)
    if v is None or v is UNIT:
        return [(st, v, ev)]
    v = mk("world", p, (fr.id, bi), *[eng.deep(s, a) for a in args])
    renew(st, v)
    if ev is not None:
        ev.result = v
    return [(st, v, ev)]


def coll_like(p):
    return last(p) in COLLS


def clone_value(eng, s, fr, t, tg, a):
    ty = tg.self_ty
    if ty is not None and ty.k == "ref":
        return read1(eng, s, a)
    v = read1(eng, s, a)
    if v.op in ("ptr", "box") and ty is not None and ty.k != "ptr":
        # a symbolic level of references had been collapsed, or a box
        if ty.k == "adt" and last(ty.d) in ("Box",):
            return eng.contents(s, v)
    return v


def branch(eng, s, v, tg):
    ty = tg.self_ty
    adt = ty.d if ty is not None and ty.k == "adt" else (v.a[0] if v.op == "agg" else RESULT)
    CF = "core::ops::control_flow::ControlFlow"
    out = []
    if v.op == "ptr":
        v = eng.contents(s, v)
    for vi, n in eng.split_variant(s, v, adt):
        if adt == RESULT:
            x = sub_(v, vi, 0)
            out.append((n, mk("agg", CF, 0, x) if vi == 0 else mk("agg", CF, 1, mk("agg", RESULT, 1, x))))
        elif adt == OPTION:
            out.append((n, mk("agg", CF, 0, sub_(v, 1, 0)) if vi == 1 else mk("agg", CF, 1, NONE)))
        else:
            x = sub_(v, vi, 0)
            out.append((n, mk("agg", CF, 0, x) if vi == 0 else mk("agg", CF, 1, mk("agg", CF, 1, x))))
    return out


def sub_(v, vi, i):
    from absint import sub
    return sub(v, (vi, i))


def residual(eng, s, fr, t, tg, v):
    ty = tg.self_ty
    if ty is not None and ty.k == "adt" and ty.d == OPTION:
        return [(s, NONE)]
    e = sub_(v, 1, 0)
    src = None
    if len(tg.args) >= 2 and tg.args[1].k == "adt" and len(tg.args[1].a) == 2:
        src = tg.args[1].a[1]
    if ty is not None and ty.k == "adt" and ty.d == RESULT and src is not None and tykey(src) == tykey(ty.a[1]):
        return [(s, mk("agg", RESULT, 1, e))]
    return [(s, mk("agg", RESULT, 1, app("err", e)))]


def convert(eng, s, fr, bi, t, tg, args, name):
    a = args[0]
    tys = tg.args
    if tg.trait.endswith("Into") and len(tys) >= 2:
        src, dst = tys[0], tys[1]
    else:
        dst = tg.self_ty
        src = tys[1] if len(tys) >= 2 else None
    if src is not None and dst is not None and tykey(src) == tykey(dst):
        return [(s, a)]
    if src is not None and dst is not None and tg.trait == "core::convert::Into":
        from inst import unify
        for im in eng.prog.impls:
            if im["trait"] == "core::convert::From" and len(im["targs"]) == 2:
                e = {}
                if unify(im["targs"][0], dst, e) and unify(im["targs"][1], src, e):
                    for it in im["items"]:
                        if it["d"] in eng.prog.bodies:
                            return ("body", eng.prog.bodies[it["d"]], args)
    if dst is not None and dst.k == "adt" and last(dst.d) in ("String", "PathBuf", "OsString", "Vec", "Box", "Arc", "Rc", "Cow"):
        return [(s, eng.contents(s, a) if src is None or src.k == "ref" else a)]
    if dst is not None and dst.k == "adt" and dst.d == OPTION:
        return [(s, some(a))]
    if dst is not None and dst.k == "adt" and last(dst.d) in ("Error",):
        return [(s, app("err", eng.deep(s, a)))]
    if dst is not None and dst.k == "int" and src is not None and name == "from":
        return [(s, app("cast:IntToInt:%s>%s" % (src.s, dst.s), a))]
    return None


def index(eng, s, p, ix):
    ixv = eng.contents(s, ix)
    if ixv.op == "agg" and last(ixv.a[0]).startswith("Range"):
        return [(s, app("slice", eng.contents(s, p), ixv))]
    loc = eng.loc_of(s, eng.innermost(s, p))
    return [(s, eng.addr((loc[0], loc[1] + (("i", ixv),))))]


def rawptr(eng, s, args, name):
    v = args[0]
    if name == "is_null":
        c = v
        if c is NULL:
            return [(s, TRUE)]
        if c.op in ("ptr", "box"):
            return [(s, FALSE)]
        return [(s, app("isnull", c))]
    if name in ("as_ref", "as_mut"):
        if v is NULL:
            return [(s, NONE)]
        if v.op in ("ptr", "box"):
            return [(s, some(v))]
        t = app("isnull", v)
        a = s.copy()
        out = []
        if eng.assume_bool(a, t, True):
            out.append((a, NONE))
        b = s.copy()
        if eng.assume_bool(b, t, False):
            out.append((b, some(v)))
        return out
    if name in IDENT:
        return [(s, v)]
    return None


def option(eng, s, fr, bi, t, tg, args, name):
    if name in ("clone", "cloned", "copied"):
        return [(s, args[0])]
    if name in ("as_deref", "as_deref_mut"):
        name = "as_ref"
    v = args[0]
    if name in ("is_some", "is_none"):
        o = eng.contents(s, v)
        return [(n, TRUE if (vi == 1) == (name == "is_some") else FALSE) for vi, n in eng.split_variant(s, o, OPTION)]
    if name in ("unwrap", "expect", "unwrap_unchecked"):
        return [(n, sub_(v, 1, 0)) if vi == 1 else (n, None) for vi, n in eng.split_variant(s, v, OPTION)]
    if name == "ok_or":
        return [(n, ok(sub_(v, 1, 0))) if vi == 1 else (n, mk("agg", RESULT, 1, args[1]))
                for vi, n in eng.split_variant(s, v, OPTION)]
    if name in ("as_ref", "as_mut"):
        loc = eng.loc_of(s, v)
        o = eng.read(s, loc)
        if o.op in ("ptr", "box"):
            loc = (o.a[0], o.a[1])
            o = eng.read(s, loc)
        return [(n, some(eng.addr((loc[0], loc[1] + ((1, 0),))))) if vi == 1 else (n, NONE)
                for vi, n in eng.split_variant(s, o, OPTION)]
    if name in ("take",):
        loc = eng.loc_of(s, v)
        o = eng.read(s, loc)
        eng.write(s, loc, NONE, fr, t.ln)
        return [(s, o)]
    return body(eng, "option_" + name, args)


def result(eng, s, fr, bi, t, tg, args, name):
    v = args[0]
    if name in ("clone", "cloned", "copied"):
        return [(s, v)]
    if name in ("is_ok", "is_err"):
        o = eng.contents(s, v)
        return [(n, TRUE if (vi == 0) == (name == "is_ok") else FALSE) for vi, n in eng.split_variant(s, o, RESULT)]
    if name in ("unwrap", "expect"):
        return [(n, sub_(v, 0, 0)) if vi == 0 else (n, None) for vi, n in eng.split_variant(s, v, RESULT)]
    if name in ("iter", "into_iter"):
        return body(eng, "result_into_iter", args)
    return body(eng, "result_" + name, args)


NEXT = {"Map": "map_next", "Filter": "filter_next", "FilterMap": "filter_map_next", "TakeWhile": "take_while_next",
        "Inspect": "inspect_next", "Enumerate": "enumerate_next", "Zip": "zip_next", "Chain": "chain_next",
        "FlatMap": "flat_map_next", "Flatten": "flatten_next", "OptIter": "opt_iter_next", "Peekable": "peekable_next"}
ADAPT = {"map": "map_new", "filter": "filter_new", "filter_map": "filter_map_new", "take_while": "take_while_new",
         "inspect": "inspect_new", "enumerate": "enumerate_new", "zip": "zip_new", "chain": "chain_new",
         "flat_map": "flat_map_new", "flatten": "flatten_new", "peekable": "peekable_new"}
IT = "core::iter::traits::iterator::Iterator"


def iterator(eng, s, fr, bi, t, tg, args, name):
    v = args[0]
    cv = eng.contents(s, v)
    if name == "next":
        if cv.op == "agg" and cv.a[0].startswith("models::"):
            return body(eng, NEXT[last(cv.a[0])], [eng.innermost(s, v)] + list(args[1:]))
        if cv.op == "agg" and cv.a[0] in eng.prog.local_adts and tg.kind != "local":
            m = local_method(eng, IT, "next", cv.a[0])
            if m is not None:
                return ("body", m, args)
        if tg.kind == "local":
            return None
        return next_item(eng, s, fr, bi, t, tg, cv)
    if tg.kind == "local" and tg.body.crate != "models" and tg.body.self_ty is not None:
        return None
    if name in ADAPT:
        return body(eng, ADAPT[name], [v if v.op == "agg" or v.op == "app" else v] + list(args[1:]))
    if name in ("by_ref", "fuse", "copied", "cloned"):
        return [(s, v)]
    if name in ("rev", "skip", "take", "step_by"):
        ex = [eng.contents(s, a) for a in args[1:]]

        def push(x):
            if x.op == "agg" and x.a[0] in ("models::Map", "models::Inspect") or \
                    x.op == "agg" and x.a[0] == "models::Enumerate" and name == "never":
                return mk("agg", x.a[0], 0, push(x.a[2]), *x.a[3:])
            return app(name, x, *ex)
        return [(s, push(cv))]
    if name in ("for_each", "fold", "any", "all", "find", "find_map", "position"):
        return body(eng, name, args)
    if name == "try_for_each":
        k = dst_adt(eng, fr, t)
        return body(eng, "try_for_each_" + ("option" if k == OPTION else "result"), args)
    if name == "try_fold":
        k = dst_adt(eng, fr, t)
        return body(eng, "try_fold_" + ("option" if k == OPTION else "result"), args)
    if name == "last" or name == "nth" or name in ("max", "min", "max_by_key", "min_by_key", "max_by", "min_by"):
        return [(s, app("pick:" + name, eng.deep(s, v), *[eng.deep(s, a) for a in args[1:]]))]
    if name == "count" or name == "sum" or name == "product":
        return [(s, app("agg:" + name, eng.deep(s, v)))]
    if name == "collect":
        ty = eng.prog.place_ty(fr.body, t.dst)
        ty = subst(ty, fr.env) if ty is not None else None
        k = collect_kind(ty)
        if k:
            return body(eng, "collect_" + k, args)
        return [(s, app("collect", eng.deep(s, v)))]
    return None


def dst_adt(eng, fr, t):
    ty = eng.prog.place_ty(fr.body, t.dst)
    ty = subst(ty, fr.env) if ty is not None else None
    return ty.d if ty is not None and ty.k == "adt" else None


def collect_kind(ty):
    if ty is None or ty.k != "adt":
        return None
    n = last(ty.d)
    base = {"Vec": "vec", "HashMap": "map", "BTreeMap": "btree", "HashSet": "set", "BTreeSet": "bset", "VecDeque": "vec",
            "LinkedHashMap": "map"}
    if n in base:
        return base[n]
    if n == "Result" and ty.a:
        x = ty.a[0]
        if x.k == "tuple" and not x.a:
            return "result_unit"
        b = collect_kind(x)
        return "result_" + b if b in ("vec", "map", "btree") else None
    if n == "Option" and ty.a and collect_kind(ty.a[0]) == "vec":
        return "option_vec"
    return None


def coll(eng, s, fr, bi, t, tg, args, name, ls, co):
    if not args:
        return None
    a = args[0]
    if name in ("len",):
        return [(s, app("len", eng.contents(s, a)))]
    if name == "is_empty":
        return [(s, eng.binop("Eq", app("len", eng.contents(s, a)), const("int", 0)))]
    if name in ITERS:
        v = iter_value(eng, s, a, name)
        ex = [eng.contents(s, x) for x in args[1:]]
        if ex:
            v = app(v.a[0], v.a[1], *ex)
        if name == "drain":
            eng.write(s, eng.loc_of(s, eng.innermost(s, a)), app("new"), fr, t.ln)
        return [(s, v)]
    if name in ("get", "get_key_value") and len(args) == 2:
        return [(s, app("get", eng.contents(s, a), eng.contents(s, args[1])))]
    if name in ("contains_key", "contains") and len(args) == 2 and co not in ("str", "[T]") and ls not in ("Vec", "String"):
        g = app("get", eng.contents(s, a), eng.contents(s, args[1]))
        return [(n, TRUE if vi == 1 else FALSE) for vi, n in eng.split_variant(s, g, OPTION)]
    if name == "get_mut" and len(args) == 2:
        k = eng.contents(s, args[1])
        g = app("get", eng.contents(s, a), k)
        loc = eng.loc_of(s, eng.innermost(s, a))
        return [(n, some(eng.addr((loc[0], loc[1] + (("i", k),))))) if vi == 1 else (n, NONE)
                for vi, n in eng.split_variant(s, g, OPTION)]
    if name in ("get_unchecked", "get_unchecked_mut"):
        return index(eng, s, args[0], args[1])
    if name in ("last", "first", "last_mut", "first_mut"):
        loc = eng.loc_of(s, eng.innermost(s, a))
        k = const("pos", name.split("_")[0])
        g = app("get", eng.contents(s, a), k)
        return [(n, some(eng.addr((loc[0], loc[1] + (("i", k),))))) if vi == 1 else (n, NONE)
                for vi, n in eng.split_variant(s, g, OPTION)]
    if name == "insert" and len(args) == 3 and ls in ("HashMap", "BTreeMap", "LinkedHashMap", "IndexMap"):
        loc = eng.loc_of(s, eng.innermost(s, a))
        old = eng.read(s, loc)
        k = eng.contents(s, args[1])
        v = args[2]
        res = app("get", old, k)
        ev = eng.event("insert", tg.path, s, [old, k, eng.deep(s, v)], args, fr, bi, t, res, tg)
        eng.write(s, loc, app("insert", old, k, eng.deep(s, v)), fr, t.ln)
        return [(s, res, ev)]
    if name in ("insert",) and len(args) == 2:
        loc = eng.loc_of(s, eng.innermost(s, a))
        old = eng.read(s, loc)
        k = eng.contents(s, args[1])
        res = mk("not", app("has", old, k))
        ev = eng.event("insert", tg.path, s, [old, k], args, fr, bi, t, res, tg)
        eng.write(s, loc, app("insert", old, k), fr, t.ln)
        return [(s, res, ev)]
    if name in ("push", "push_back", "push_str") and len(args) == 2:
        loc = eng.loc_of(s, eng.innermost(s, a))
        old = eng.read(s, loc)
        v = eng.deep(s, args[1]) if name != "push_str" else eng.contents(s, args[1])
        ev = eng.event("push", tg.path, s, [old, v], args, fr, bi, t, UNIT, tg)
        eng.write(s, loc, app("push", old, v), fr, t.ln)
        return [(s, UNIT, ev)]
    if name == "remove" and len(args) == 2 and ls in ("HashMap", "BTreeMap", "LinkedHashMap"):
        loc = eng.loc_of(s, eng.innermost(s, a))
        old = eng.read(s, loc)
        k = eng.contents(s, args[1])
        res = app("get", old, k)
        ev = eng.event("remove", tg.path, s, [old, k], args, fr, bi, t, res, tg)
        eng.write(s, loc, app("remove", old, k), fr, t.ln)
        return [(s, res, ev)]
    if name in ("reserve", "shrink_to_fit"):
        ev = eng.event("reserve", tg.path, s, [eng.deep(s, x) for x in args], args, fr, bi, t, UNIT, tg)
        return [(s, UNIT, ev)]
    if name == "eq" or name == "ne":
        return None
    if name in IDENT and len(args) == 1:
        return [(s, a)]
    if name in CLONE and len(args) == 1:
        return [(s, read1(eng, s, a) if a.op in ("ptr", "box") else a)]
    if name == "extend" and len(args) == 2:
        return body(eng, "extend_vec" if ls in ("Vec", "VecDeque") else "extend_map", args)
    if ls == "Path" and name == "new":
        return [(s, args[0])]
    return None
