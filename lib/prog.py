"""Program model over the driver's facts: types, bodies, control flow, calls."""
import functools
import facts


class Ty:
    __slots__ = ("k", "d", "a", "t", "m", "n", "s", "i", "len", "g")

    def __init__(self):
        self.k = "other"; self.d = None; self.a = (); self.t = None; self.m = False
        self.n = None; self.s = ""; self.i = None; self.len = None; self.g = ()

    def __repr__(self):
        return self.s

    def strip_refs(self):
        t = self
        while t.k in ("ref", "ptr"):
            t = t.t
        return t

    def is_adt(self, *names):
        return self.k == "adt" and self.d in names

    def walk(self, seen=None):
        if seen is None:
            seen = set()
        if id(self) in seen:
            return
        seen.add(id(self))
        yield self
        for x in self.a:
            yield from x.walk(seen)
        if self.t is not None:
            yield from self.t.walk(seen)


class Callee:
    """A called function: declared (d/p) and resolved (rd/rp) identity."""
    __slots__ = ("d", "p", "args", "trait", "self_ty", "rd", "rp", "rargs", "ctor", "adt", "vi",
                 "shim", "of")

    def __repr__(self):
        return self.rp or self.p

    @property
    def id(self):
        return self.rd or self.d

    @property
    def path(self):
        return self.rp or self.p

    @property
    def name(self):
        return self.p.rsplit("::", 1)[-1]


class Place:
    __slots__ = ("l", "proj")

    def __init__(self, l, proj):
        self.l = l; self.proj = proj

    def __repr__(self):
        s = "_%d" % self.l
        for e in self.proj:
            if e[0] == "*": s = "(*%s)" % s
            elif e[0] == "f": s += ".%d" % e[1]
            elif e[0] == "v": s += "@%d" % e[1]
            elif e[0] == "i": s += "[_%d]" % e[1]
            elif e[0] == "c": s += "[%s%d]" % ("-" if e[2] else "", e[1])
            else: s += "?" + str(e)
        return s

    def __eq__(self, o):
        return isinstance(o, Place) and self.l == o.l and self.proj == o.proj

    def __hash__(self):
        return hash((self.l, self.proj))


class Const:
    __slots__ = ("ty", "fn", "v", "kind", "def_", "promoted", "generic")

    def __repr__(self):
        if self.fn: return "fn(%s)" % self.fn.path
        if self.kind == "promoted": return "promoted#%s" % self.promoted
        return "const(%s %r)" % (self.kind, self.v)


class Op:
    """Operand: copy/move of a place, or a constant."""
    __slots__ = ("k", "pl", "c")

    def __repr__(self):
        return repr(self.pl) if self.k in ("cp", "mv") else repr(self.c)


class Stmt:
    __slots__ = ("k", "pl", "rv", "ln", "v", "l")

    def __repr__(self):
        if self.k == "=": return "%r = %r" % (self.pl, self.rv)
        return "%s %s" % (self.k, self.l if self.l is not None else self.pl)


class Rv:
    """Rvalue: op in use rep ref raw cast bin un discr agg tls other."""
    __slots__ = ("op", "a", "pl", "mut", "kind", "ty", "from_ty", "sub", "n")

    def __init__(self):
        self.a = (); self.pl = None; self.mut = False; self.kind = None; self.ty = None
        self.from_ty = None; self.sub = None; self.n = None

    def __repr__(self):
        if self.op == "ref": return "&%s%r" % ("mut " if self.mut else "", self.pl)
        if self.op == "discr": return "discr(%r)" % self.pl
        return "%s%s%r" % (self.op, ":" + str(self.kind) if self.kind else "", list(self.a))


class Term:
    __slots__ = ("k", "to", "on", "cases", "els", "ty", "f", "args", "dst", "pl", "cond", "exp",
                 "msg", "ln", "callee")

    def __repr__(self):
        if self.k == "call":
            return "%r = %s(%s) -> %s" % (self.dst, self.callee.path if self.callee else self.f,
                                          ", ".join(map(repr, self.args)), self.to)
        if self.k == "switch":
            return "switch %r %s else %s" % (self.on, self.cases, self.els)
        if self.k == "drop":
            return "drop %r -> %s" % (self.pl, self.to)
        return "%s -> %s" % (self.k, self.to)

    def succs(self):
        if self.k in ("goto", "drop", "assert"):
            return [self.to]
        if self.k == "call":
            return [self.to] if self.to is not None else []
        if self.k == "switch":
            r = []
            for _, b in self.cases:
                if b not in r: r.append(b)
            if self.els not in r: r.append(self.els)
            return r
        return []


class Block:
    __slots__ = ("s", "t", "cleanup")


class Core:
    """Locals and blocks of a body or of one of its promoted constants."""

    def ops(self):
        """Every operand of the reachable part."""
        for bi in self.reach:
            bl = self.blocks[bi]
            for st in bl.s:
                if st.rv is not None:
                    yield from st.rv.a
            t = bl.t
            for o in (t.on, t.f, t.cond):
                if o is not None:
                    yield o
            for o in t.args or ():
                yield o

    def const_values(self):
        out = [o.c.v for o in self.ops() if o.k == "c" and o.c.v is not None]
        for c in getattr(self, "promoted", ()):
            out += c.const_values()
        return out

    def pretty(self):
        out = []
        for i, l in enumerate(self.locals):
            out.append("  let _%d: %s%s" % (i, l, " // " + self.names[i] if i in self.names else ""))
        for i, b in enumerate(self.blocks):
            if b.cleanup or i not in self.reach: continue
            out.append(" bb%d:" % i)
            for s in b.s:
                if s.k in ("live", "dead"): continue
                out.append("    %r" % s)
            out.append("    %r   [%s]" % (b.t, b.t.ln))
        return "\n".join(out)


class Body(Core):
    def __repr__(self):
        return self.p

    def where(self, ln=None):
        f = self.file
        return "%s:%s" % (f, ln if ln is not None else self.line)


class Program:
    def __init__(self, raw, tree):
        self.tree = tree
        self.bodies = {}
        self.adts = {}
        self.impls = []
        self.statics = {}
        self.local_adts = {}
        self.traits = {}
        self.exports = set()
        self.by_path = {}
        self.crates = list(raw)
        self._canon = {}
        for c, r in raw.items():
            self._load(c, r)
        self.impl_methods = {}   # trait method uid -> [impl method uid]
        for im in self.impls:
            for it in im["items"]:
                if it["of"]:
                    self.impl_methods.setdefault(it["of"], []).append(it["d"])
        self.models = {b.p: b for b in self.bodies.values() if b.crate == "models"}
        for b in self.bodies.values():
            self.by_path.setdefault(b.p, []).append(b)

    # -- loading -------------------------------------------------------
    def _load(self, crate, r):
        raw_types = r["types"]
        tys = [Ty() for _ in raw_types]
        for t, j in zip(tys, raw_types):
            t.s = j["s"]; t.k = j["k"]; t.d = j.get("d"); t.n = j.get("n"); t.m = j.get("m", False)
            t.i = j.get("i"); t.len = j.get("len")
            if "a" in j: t.a = tuple(tys[x] for x in j["a"])
            if "g" in j: t.g = tuple(tys[x] for x in j["g"])
            if "t" in j: t.t = tys[j["t"]]
        self._tys = tys
        for a in r["adts"]:
            if a["d"] in self.adts: continue
            vs = []
            for v in a["v"]:
                vs.append({"n": v["n"], "d": v["d"],
                           "f": [{"n": f["n"], "t": tys[f["t"]] if f["t"] is not None else None,
                                  "pub": f["pub"]} for f in v["f"]]})
            self.adts[a["d"]] = {"k": a["k"], "g": a["g"], "v": vs, "pub": a["pub"], "d": a["d"]}
        for a in r["local_adts"]:
            self.local_adts[a["d"]] = {"t": tys[a["t"]], "eff": a["eff"], "span": self._span(a["span"]),
                                       "crate": crate}
        for s in r["statics"]:
            self.statics[s["d"]] = {"t": tys[s["t"]], "mut": s["mut"], "span": self._span(s["span"])}
        for t in r["traits"]:
            self.traits[t["d"]] = t["items"]
        self.exports.update(r["exports"])
        for im in r["impls"]:
            im = dict(im)
            im["self"] = tys[im["self"]]
            im["span"] = self._span(im["span"])
            im["targs"] = [tys[x] for x in im["targs"]] if im["targs"] else []
            im["crate"] = crate
            self.impls.append(im)
        for b in r["bodies"]:
            o = Body()
            o.crate = crate
            o.d = b["d"]; o.p = b["p"]; o.kind = b["k"]; o.name = b.get("name"); o.parent = b.get("parent")
            sp = self._span(b["span"])
            o.file, o.line = sp.rsplit(":", 1)
            o.pub = b.get("pub", False); o.eff = b.get("eff", False); o.unsafe = b.get("unsafe", False)
            o.self_ty = tys[b["self_ty"]] if "self_ty" in b else None
            o.trait = b.get("trait"); o.sig = b.get("sig"); o.generics = b.get("generics", [])
            o.is_const = b.get("const", False)
            self._core(o, b)
            o.promoted = []
            for pb in b.get("promoted", []):
                c = Core()
                self._core(c, pb)
                o.promoted.append(c)
            self.bodies[o.d] = o

    def _span(self, s):
        ws = "/ws/dochy/"
        i = s.find(ws)
        if i >= 0: s = s[i + len(ws):]
        return s

    def _core(self, o, b):
        tys = self._tys
        o.argc = b["argc"]
        o.locals = [tys[l["t"]] for l in b["locals"]]
        o.names = {i: l["n"] for i, l in enumerate(b["locals"]) if "n" in l}
        o.upvars = [(u["n"], self._place(u["pl"])) for u in b["upvars"]]
        o.blocks = []
        for bb in b["blocks"]:
            x = Block()
            x.cleanup = bb["c"]
            x.s = [self._stmt(s) for s in bb["s"]]
            x.t = self._term(bb["t"])
            o.blocks.append(x)
        # blocks reachable without unwinding
        seen = {0}
        st = [0]
        while st:
            i = st.pop()
            for s in o.blocks[i].t.succs():
                if s not in seen:
                    seen.add(s); st.append(s)
        o.reach = seen
        o.preds = {i: [] for i in seen}
        for i in seen:
            for s in o.blocks[i].t.succs():
                o.preds[s].append(i)

    def _place(self, p):
        proj = []
        for e in p[1]:
            if e[0] == "f": proj.append(("f", e[1], self._tys[e[2]]))
            else: proj.append(tuple(e))
        return Place(p[0], tuple(proj))

    def _op(self, j):
        o = Op()
        o.k = j[0]; o.pl = None; o.c = None
        if j[0] in ("cp", "mv"):
            o.pl = self._place(j[1])
        elif j[0] == "c":
            o.c = self._const(j[1])
        else:
            c = Const(); c.ty = None; c.fn = None; c.v = None; c.kind = "rtc"; c.def_ = None
            c.promoted = None; c.generic = False
            o.k = "c"; o.c = c
        return o

    def _const(self, j):
        c = Const()
        c.ty = self._tys[j["t"]]
        c.fn = None; c.v = None; c.kind = "unknown"; c.def_ = j.get("def"); c.promoted = j.get("promoted")
        c.generic = j.get("generic", False)
        if "fn" in j:
            c.fn = self._callee(j["fn"]); c.kind = "fn"
        elif c.promoted is not None:
            c.kind = "promoted"
        if "v" in j:
            v = j["v"]
            if isinstance(v, dict):
                (k, x), = v.items()
                if c.kind == "promoted":
                    if k == "str": c.v = x
                    elif k == "bytes": c.v = bytes(x)
                    return c
                c.kind = k
                c.v = bytes(x) if k == "bytes" else x
            else:
                c.kind = "int" if c.ty.k in ("int",) else c.ty.k
                c.v = v
        return c

    def _callee(self, j):
        c = Callee()
        tys = self._tys
        c.d = j["d"]; c.p = j["p"]; c.args = tuple(tys[x] for x in j["a"])
        c.trait = j.get("trait"); c.self_ty = tys[j["self"]] if "self" in j else None
        c.rd = j.get("rd"); c.rp = j.get("rp")
        c.rargs = tuple(tys[x] for x in j["ra"]) if "ra" in j else None
        c.ctor = j.get("ctor", False); c.adt = j.get("adt"); c.vi = j.get("vi"); c.shim = j.get("shim")
        c.of = j.get("of")
        return c

    def _rv(self, j):
        r = Rv()
        r.op = j[0]
        k = j[0]
        if k == "use": r.a = (self._op(j[1]),)
        elif k == "rep": r.a = (self._op(j[1]),); r.n = j[2]
        elif k in ("ref", "raw"): r.mut = j[1]; r.pl = self._place(j[2])
        elif k == "cast": r.kind = j[1]; r.a = (self._op(j[2]),); r.ty = self._tys[j[3]]; r.from_ty = self._tys[j[4]]
        elif k == "bin": r.kind = j[1]; r.a = (self._op(j[2]), self._op(j[3])); r.ty = self._tys[j[4]]
        elif k == "un": r.kind = j[1]; r.a = (self._op(j[2]),)
        elif k == "discr": r.pl = self._place(j[1]); r.ty = self._tys[j[2]]
        elif k == "agg":
            r.kind = j[1][0]
            r.a = tuple(self._op(x) for x in j[2])
            if r.kind == "adt": r.sub = (j[1][1], j[1][2]); r.ty = self._tys[j[1][3]]
            elif r.kind == "closure": r.sub = j[1][1]
            elif r.kind == "array": r.ty = self._tys[j[1][1]]
        elif k == "tls": r.sub = j[1]
        return r

    def _stmt(self, j):
        s = Stmt()
        s.k = j["k"]; s.ln = j.get("ln"); s.pl = None; s.rv = None; s.v = None; s.l = None
        if s.k == "=":
            s.pl = self._place(j["pl"]); s.rv = self._rv(j["rv"])
        elif s.k == "setdiscr":
            s.pl = self._place(j["pl"]); s.v = j["v"]
        elif s.k in ("dead", "live"):
            s.l = j["l"]
        return s

    def _term(self, j):
        t = Term()
        t.k = j["k"]; t.ln = j["ln"]; t.to = j.get("to")
        t.on = t.cases = t.els = t.ty = t.f = t.args = t.dst = t.pl = t.cond = t.exp = t.msg = t.callee = None
        if t.k == "switch":
            t.on = self._op(j["on"]); t.cases = [tuple(x) for x in j["cases"]]; t.els = j["else"]
            t.ty = self._tys[j["t"]]
        elif t.k == "call":
            t.f = self._op(j["f"]); t.args = [self._op(x) for x in j["args"]]; t.dst = self._place(j["dst"])
            if t.f.k == "c" and t.f.c.fn is not None:
                t.callee = t.f.c.fn
        elif t.k == "drop":
            t.pl = self._place(j["pl"]); t.ty = self._tys[j["t"]]
        elif t.k == "assert":
            t.cond = self._op(j["cond"]); t.exp = j["exp"]; t.msg = j["msg"]
        return t

    # -- queries -------------------------------------------------------
    def body(self, uid):
        return self.bodies.get(uid)

    def fns(self, crate=None):
        for b in self.bodies.values():
            if b.kind in ("fn", "closure") and (b.crate != "models" if crate is None else b.crate == crate):
                yield b

    def place_ty(self, core, pl):
        """Type of a place (generic field types come with the projection)."""
        t = core.locals[pl.l]
        for e in pl.proj:
            if e[0] == "*":
                if t.k in ("ref", "ptr"): t = t.t
                elif t.k == "adt" and t.a: t = t.a[0]   # Box
                else: return None
            elif e[0] == "f": t = e[2]
            elif e[0] == "v": pass
            elif e[0] in ("i", "c"):
                if t.t is None: return None
                t = t.t
            elif e[0] == "s": pass
            else: return None
        return t

    def op_ty(self, core, op):
        if op.k == "c": return op.c.ty
        return self.place_ty(core, op.pl)

    def variant(self, adt, idx):
        return self.adts[adt]["v"][idx]["n"]

    def discr_to_variant(self, adt, value):
        for i, v in enumerate(self.adts[adt]["v"]):
            if v["d"] == value:
                return i
        return None


_prog = None


def load():
    global _prog
    if _prog is None:
        raw, tree = facts.load_raw()
        _prog = Program(raw, tree)
    return _prog


if __name__ == "__main__":
    import sys
    p = load()
    for b in p.bodies.values():
        if any(a in b.p for a in sys.argv[1:]):
            print("==", b.d, "|", b.p, "|", b.kind, "pub" if b.pub else "", "eff" if b.eff else "", b.where())
            print("  sig", b.sig, b.generics)
            print(b.pretty())
            for i, c in enumerate(b.promoted):
                print(" promoted", i)
                print(c.pretty())
