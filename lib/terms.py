"""Types of origin terms and other questions about them."""
from absint import mk, T, app, sub, subterms
from inst import subst

SHELLS = ("Box", "Arc", "Rc", "Mutex", "RwLock", "Lazy", "LazyLock", "Weak", "MutexGuard", "Cow", "NonNull", "Unique",
          "RefCell", "Cell", "ManuallyDrop", "Pin")
MAPS = ("HashMap", "BTreeMap", "LinkedHashMap", "IndexMap")
SEQS = ("Vec", "VecDeque", "HashSet", "BTreeSet", "ArrayVec", "BinaryHeap")


def last(p):
    return p.rsplit("::", 1)[-1]


def shell(t):
    """Type without references, boxes and other transparent wrappers."""
    while t is not None:
        if t.k in ("ref", "ptr"):
            t = t.t
        elif t.k == "adt" and last(t.d) in SHELLS and t.a:
            t = t.a[0]
        else:
            return t
    return t


def field_ty(prog, ty, vi, i):
    ty = shell(ty)
    if ty is None:
        return None
    if ty.k == "tuple":
        return ty.a[i] if i < len(ty.a) else None
    if ty.k == "closure":
        return ty.a[i] if i < len(ty.a) else None
    if ty.k != "adt":
        return None
    a = prog.adts.get(ty.d)
    if a is None:
        return None
    v = a["v"][vi if vi >= 0 else 0] if a["v"] else None
    if v is None or i >= len(v["f"]):
        return None
    t = v["f"][i]["t"]
    return subst(t, dict(zip(a["g"], ty.a))) if t is not None else None


def elem_ty(ty):
    ty = shell(ty)
    if ty is None:
        return None
    if ty.k in ("slice", "array"):
        return ty.t
    if ty.k == "adt":
        n = last(ty.d)
        if n in MAPS and len(ty.a) >= 2:
            return ty.a[1]
        if n in SEQS and ty.a:
            return ty.a[0]
    return None


class Typer:
    def __init__(self, eng):
        self.eng = eng
        self.memo = {}

    def of(self, t):
        if t.id not in self.memo:
            self.memo[t.id] = None
            self.memo[t.id] = self._of(t)
        return self.memo[t.id]

    def _of(self, t):
        e = self.eng
        if t.id in e.app_ty and t.op in ("app", "world", "elem", "idx"):
            return e.app_ty[t.id]
        if t.op == "sym":
            n = t.a[0]
            if isinstance(n, str) and n.startswith("arg"):
                i = int(n[3:].split(":", 1)[0])
                return subst(e.root.body.locals[i], e.root.env)
            if isinstance(n, str) and n.startswith("static:"):
                st = e.prog.statics.get(n[7:])
                return st["t"] if st else None
            return None
        if t.op == "fld":
            if t.a[0].op == "elem" and t.a[1] == -1:
                it = t.a[0].a[0]
                while it.op == "app" and it.a[0] in ("rev", "skip", "take", "step_by"):
                    it = it.a[1]
                if it.op == "app" and it.a[0] == "iter":
                    c = shell(self.of(it.a[1]))
                    if c is not None and c.k == "adt" and last(c.d) in MAPS:
                        return c.a[t.a[2]] if t.a[2] < 2 else None
            b = self.of(t.a[0])
            return field_ty(e.prog, b, t.a[1], t.a[2])
        if t.op == "idx":
            return elem_ty(self.of(t.a[0]))
        if t.op == "upd":
            return self.of(t.a[0])
        if t.op == "old":
            return self.of(t.a[0])
        if t.op == "elem":
            it = t.a[0]
            while it.op == "app" and it.a[0] in ("rev", "skip", "take", "step_by"):
                it = it.a[1]
            if it.op == "app" and it.a[0] in ("iter", "iter:values", "iter:values_mut", "iter:into_values"):
                c = shell(self.of(it.a[1]))
                if c is not None and c.k == "adt" and last(c.d) in MAPS and it.a[0] == "iter":
                    return None
                return elem_ty(c)
            return None
        if t.op == "app":
            if t.a[0] in ("insert", "push", "remove") or t.a[0].startswith("mut:"):
                return self.of(t.a[1])
            return e.app_ty.get(t.id)
        if t.op == "phi":
            for x in e.phi_in.get(t.id, ()):
                r = self.of(x)
                if r is not None:
                    return r
        return None

    def adt(self, t):
        ty = shell(self.of(t))
        return ty.d if ty is not None and ty.k == "adt" else None


def find_adt(prog, name, crate=None):
    """Path of the local type with this name."""
    from check_base import Anchor
    c = [d for d in prog.local_adts if last(d) == name and (crate is None or d.split("::", 1)[0] == crate)]
    if not c:
        c = [d for d in prog.adts if last(d) == name and d.startswith("dochy")]
    if not c:
        raise Anchor("type %s not found" % name)
    return sorted(c, key=len)[0]


def variants(prog, adt):
    return {v["n"]: i for i, v in enumerate(prog.adts[adt]["v"])}


def reach_without(eng, stop):
    """Nodes/exits reachable from the entry without crossing an edge that carries an event for which
    stop(event) holds.  Returns (nodes, exits)."""
    seen = {eng.entry.num}
    st = [eng.entry.num]
    exits = []
    while st:
        n = st.pop()
        for evs, b in eng.succ.get(n, ()):
            if any(stop(e) for e in evs):
                continue
            if b is None:
                continue
            if hasattr(b, "ret"):
                exits.append(b)
            elif b.num not in seen:
                seen.add(b.num)
                st.append(b.num)
    return seen, exits


def reach_after(eng, pred):
    """Exits (and events) reachable after an event for which pred holds."""
    seen = set()
    st = []
    exits = []
    evs_out = []
    for a, evs, b in eng.edges:
        for i, e in enumerate(evs):
            if pred(e):
                evs_out.extend(evs[i + 1:])
                if b is None:
                    continue
                if hasattr(b, "ret"):
                    exits.append(b)
                elif b.num not in seen:
                    seen.add(b.num)
                    st.append(b.num)
    while st:
        n = st.pop()
        for evs, b in eng.succ.get(n, ()):
            evs_out.extend(evs)
            if b is None:
                continue
            if hasattr(b, "ret"):
                exits.append(b)
            elif b.num not in seen:
                seen.add(b.num)
                st.append(b.num)
    return exits, evs_out


def fact(eng, facts, t):
    """Variant set known of an origin (aggregates know their own)."""
    if t.op == "agg":
        return frozenset([t.a[1]])
    f = facts.get(t)
    return f if isinstance(f, frozenset) else None
