"""Type substitution and callee resolution for monomorphic instances."""
from prog import Ty

_intern = {}


def key(t):
    """Structural key of a type."""
    k = getattr(t, "_k", None)
    return _key(t, 0)


_kc = {}


def _key(t, depth):
    c = _kc.get(id(t))
    if c is not None and c[0] is t:
        return c[1]
    if depth > 40:
        return ("deep", t.s)
    if t.k == "adt":
        r = ("adt", t.d) + tuple(_key(x, depth + 1) for x in t.a)
    elif t.k in ("ref", "ptr"):
        r = (t.k, t.m, _key(t.t, depth + 1))
    elif t.k in ("slice",):
        r = ("slice", _key(t.t, depth + 1))
    elif t.k == "array":
        r = ("array", t.len, _key(t.t, depth + 1))
    elif t.k in ("tuple", "fnptr"):
        r = (t.k,) + tuple(_key(x, depth + 1) for x in t.a)
    elif t.k in ("closure", "fndef"):
        r = (t.k, t.d) + tuple(_key(x, depth + 1) for x in t.g)
    elif t.k in ("int", "float", "param"):
        r = (t.k, t.n)
    elif t.k in ("bool", "char", "str", "never"):
        r = (t.k,)
    elif t.k == "dyn":
        r = ("dyn", t.d, t.s)
    else:
        r = (t.k, t.s)
    _kc[id(t)] = (t, r)
    return r


def has_param(t, seen=None):
    for x in t.walk():
        if x.k in ("param", "alias"):
            return True
        for g in x.g:
            if has_param(g):
                return True
    return False


def subst(t, env):
    if not env:
        return t
    if t.k == "param":
        return env.get(t.n, t)
    if not t.a and t.t is None and not t.g:
        return t
    if not has_param(t):
        return t
    n = Ty()
    n.k = t.k; n.d = t.d; n.m = t.m; n.n = t.n; n.i = t.i; n.len = t.len
    n.a = tuple(subst(x, env) for x in t.a)
    n.g = tuple(subst(x, env) for x in t.g)
    n.t = subst(t.t, env) if t.t is not None else None
    n.s = show(n, t)
    k = key(n)
    return _intern.setdefault(k, n)


def show(n, orig):
    if n.k == "adt":
        return n.d + ("<" + ", ".join(x.s for x in n.a) + ">" if n.a else "")
    if n.k == "ref":
        return "&" + ("mut " if n.m else "") + n.t.s
    if n.k == "ptr":
        return "*" + ("mut " if n.m else "const ") + n.t.s
    if n.k == "tuple":
        return "(" + ", ".join(x.s for x in n.a) + ")"
    if n.k == "slice":
        return "[" + n.t.s + "]"
    if n.k == "array":
        return "[%s; %s]" % (n.t.s, n.len)
    return orig.s


def unify(pat, t, env):
    """One-way matching of an impl's type pattern against a concrete type."""
    if pat.k == "param":
        if pat.n in env:
            return key(env[pat.n]) == key(t)
        env[pat.n] = t
        return True
    if pat.k != t.k:
        return False
    if pat.k in ("adt", "dyn") and pat.d != t.d:
        return False
    if pat.k in ("ref", "ptr"):
        return pat.m == t.m and unify(pat.t, t.t, env)
    if pat.k in ("slice", "array"):
        return unify(pat.t, t.t, env)
    if pat.k in ("int", "float"):
        return pat.n == t.n
    if pat.k in ("closure", "fndef"):
        return pat.d == t.d
    if len(pat.a) != len(t.a):
        return False
    return all(unify(x, y, env) for x, y in zip(pat.a, t.a))


class Target:
    """Result of resolution: kind in local, ctor, closure, ext, dyn."""
    __slots__ = ("kind", "body", "env", "path", "callee", "trait", "name", "self_ty", "args")

    def __init__(self, kind):
        self.kind = kind; self.body = None; self.env = {}; self.path = None; self.callee = None
        self.trait = None; self.name = None; self.self_ty = None; self.args = ()

    def __repr__(self):
        return "%s:%s" % (self.kind, self.path)


def head(t):
    if t.k == "adt": return t.d
    if t.k == "ref": return "&" + ("mut " if t.m else "") + head(t.t)
    if t.k == "slice": return "[T]"
    if t.k == "array": return "[T;N]"
    if t.k == "closure": return "{%s}" % t.d
    if t.k == "dyn": return "dyn %s" % t.d
    return t.s


FN_TRAITS = ("core::ops::function::FnOnce", "core::ops::function::FnMut", "core::ops::function::Fn")


def env_for(body, args):
    return {n: a for n, a in zip(body.generics, args)}


def resolve(prog, c, env):
    t = Target("ext")
    t.callee = c
    t.trait = c.trait
    t.name = c.name
    t.args = tuple(subst(a, env) for a in (c.rargs if c.rd else c.args))
    if c.ctor:
        t.kind = "ctor"
        t.path = c.p
        return t
    if c.trait:
        t.self_ty = subst(c.self_ty, env)
    if c.trait in FN_TRAITS:
        s = t.self_ty
        while s.k == "ref":
            s = s.t
        if s.k == "adt" and s.d == "alloc::boxed::Box" and s.a:
            pass
        if s.k == "closure" and s.d in prog.bodies:
            b = prog.bodies[s.d]
            t.kind = "closure"; t.body = b; t.env = env_for(b, s.g); t.path = b.p
            return t
        if s.k == "fndef":
            if s.d in prog.bodies:
                b = prog.bodies[s.d]
                t.kind = "local"; t.body = b; t.env = env_for(b, s.g); t.path = b.p
                t.name = "call"
                return t
        t.kind = "indirect"
        t.path = c.p
        return t
    uid = c.rd or c.d
    if c.trait and not c.rd:
        # a trait method not resolved by the compiler: type parameters were in the way,
        # or it is a provided method
        s = t.self_ty
        if s.k == "dyn":
            t.kind = "dyn"; t.path = c.p
            return t
        cargs = [subst(a, env) for a in c.args]
        for im in prog.impls:
            if im["trait"] != c.trait or im["neg"]:
                continue
            e = {}
            if len(im["targs"]) <= len(cargs) and all(unify(p, a, e) for p, a in zip(im["targs"], cargs)):
                for it in im["items"]:
                    if it["of"] == c.d and it["d"] in prog.bodies:
                        b = prog.bodies[it["d"]]
                        n_own = len(prog_trait_params(im))
                        own = cargs[n_own:]
                        env2 = dict(e)
                        # the method's own type parameters follow those of the impl
                        gens = [g for g in b.generics if g not in env2]
                        for g, a in zip(gens, own):
                            env2[g] = a
                        t.kind = "local"; t.body = b; t.env = env2; t.path = b.p
                        return t
        if s.k == "closure" or s.k == "param":
            t.path = c.p
        if uid in prog.bodies:      # provided method
            b = prog.bodies[uid]
            t.kind = "local"; t.body = b; t.env = env_for(b, cargs); t.path = b.p
            return t
        t.path = "<%s as %s>::%s" % (head(s), c.trait, c.name)
        return t
    if uid in prog.bodies:
        b = prog.bodies[uid]
        t.kind = "local"; t.body = b; t.env = env_for(b, t.args); t.path = b.p
        return t
    t.path = c.rp or c.p
    return t


def prog_trait_params(im):
    return im["targs"]


def drop_impls(prog, ty, seen=None, out=None):
    """Local Drop implementations run when a value of this type is dropped."""
    if out is None:
        out = []; seen = set()
    k = key(ty)
    if k in seen:
        return out
    seen.add(k)
    if ty.k == "adt":
        for im in prog.impls:
            if im["trait"] == "core::ops::drop::Drop":
                e = {}
                if unify(im["self"], ty, e):
                    for it in im["items"]:
                        if it["d"] in prog.bodies:
                            out.append((prog.bodies[it["d"]], e))
        a = prog.adts.get(ty.d)
        if a and a["d"].startswith("dochy"):
            env = dict(zip(a["g"], ty.a))
            for v in a["v"]:
                for f in v["f"]:
                    if f["t"] is not None:
                        drop_impls(prog, subst(f["t"], env), seen, out)
        else:
            for x in ty.a:
                drop_impls(prog, x, seen, out)
    elif ty.k in ("tuple",):
        for x in ty.a:
            drop_impls(prog, x, seen, out)
    elif ty.k == "closure":
        for x in ty.a:
            drop_impls(prog, x, seen, out)
    elif ty.k in ("array", "slice"):
        drop_impls(prog, ty.t, seen, out)
    return out
