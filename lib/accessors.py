"""The typed accessor functions of roots and items and what they look up and store."""
import absint
from absint import mk, app, sub, subterms, show
from terms import Typer, find_adt, variants, shell, fact, last
from check_base import Anchor

HOLDERS = {"RootObjectPtr": "root", "CItemPtr": "constant item", "MItemPtr": "mutable item"}
KINDS = {"bool": "Bool", "int": "Int", "float": "Float", "str": "String", "int_array": "IntArray",
         "float_array": "FloatArray", "binary": "Binary"}


def accessors(prog):
    """(holder type name, function name) -> body, for public free functions taking a handle first."""
    out = {}
    for b in prog.fns("dochy_core"):
        if b.kind != "fn" or not b.eff or b.argc < 2 or b.self_ty is not None:
            continue
        t = b.locals[1]
        if t.k == "adt" and last(t.d) in HOLDERS:
            out[(last(t.d), b.name)] = b
    return out


def need(acc, holder, name):
    b = acc.get((holder, name))
    if b is None:
        raise Anchor("public accessor %s for %s not found" % (name, holder))
    return b


class Model:
    """Types of the object model that the rules speak about."""

    def __init__(self, prog):
        self.prog = prog
        self.param = find_adt(prog, "RustParam", "dochy_core")
        self.qv = find_adt(prog, "Qv", "dochy_core")
        self.vt = find_adt(prog, "VarType", "dochy_core")
        self.pv = variants(prog, self.param)
        self.qvv = variants(prog, self.qv)
        self.vtv = variants(prog, self.vt)
        for n in KINDS.values():
            if n not in self.pv:
                raise Anchor("parameter type %s not found" % n)
        # enums with a variant holding a parameter: with its variability = definition, without = override
        self.defs, self.sabs = {}, {}
        for d, a in prog.adts.items():
            if not d.startswith("dochy_core") or a["k"] != "enum":
                continue
            for vi, v in enumerate(a["v"]):
                ts = [shell(f["t"]) for f in v["f"] if f["t"] is not None]
                ps = [i for i, t in enumerate(ts) if t.k == "adt" and t.d == self.param]
                vs = [i for i, t in enumerate(ts) if t.k == "adt" and t.d == self.vt]
                if ps and vs:
                    self.defs[d] = (vi, ps[0], vs[0])
                elif ps and len(ts) == 1:
                    self.sabs[d] = (vi, ps[0])
        v = self.vtv
        q = self.qvv
        self.admits = {}
        for n, al in (("Normal", ("Val",)), ("Nullable", ("Val", "Null")), ("Undefiable", ("Val", "Undefined")),
                      ("UndefNullable", ("Val", "Null", "Undefined"))):
            if n not in v:
                raise Anchor("variability %s not found" % n)
            self.admits[v[n]] = frozenset(q[x] for x in al)

    def vname(self, adt, i):
        return self.prog.adts[adt]["v"][i]["n"]


def keyed_by(t, name):
    """Every lookup inside the term uses this key."""
    bad = []
    n = 0
    for x in subterms(t):
        if x.op == "idx":
            n += 1
            if x.a[1] is not name:
                bad.append(x.a[1])
    return n, bad


def param_sources(M, ty, facts, name):
    """Members of this name the state knows about: [(which, enum term, facts)] from variant facts."""
    out = []
    for t, f in facts.items():
        if not isinstance(f, frozenset) or t.op not in ("idx", "fld"):
            continue
        d = ty.adt(t)
        if d in M.defs:
            out.append(("def", t, f))
        elif d in M.sabs:
            out.append(("sab", t, f))
    return out


def has_key(t, name):
    return any(x.op == "idx" and x.a[1] is name for x in subterms(t))


def analyse(prog, b, args=None):
    e = absint.Engine(prog, absint.Client())
    e.run(b, args)
    return e
