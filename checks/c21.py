"""Handles are tied to the borrow they come from.

The interface is the generated text (found by C20's interpretation of the generator) over the runtime's handle types.  From
it client programs are derived: every way of getting a handle, one step at a time, followed by a use that must not be
accepted (the object moved away or borrowed mutably while the handle is still used, the parent handle used mutably, a
writing accessor through a read-only handle).  The type and borrow checker decides each; none is run.  Every such program
has a twin without the forbidden use that must be accepted, otherwise the program says nothing.
"""
import re
import c06
import c20
from absint import Budget
from check_base import Anchor
from perms import Perms
from templates import TooMany
from terms import find_adt

TECHNIQUE = ("compile-fail witnesses derived from every handle-giving signature of the runtime and of the generated text, each "
             "with a compiling twin; signature rules over the type-checked program")
LEVEL_NOTE = "borrow checker's verdict for each step from a handle to the next; steps compose because each is tied to its parent"
CORE = "dochy_core"
KINDS = ("MItem", "CItem", "TableID", "Table", "Enum", "Kind")
TYPE = re.compile(r"\b(?:m\d+x1|unknown\d+)(?:Old)?(%s)\b" % "|".join(KINDS))
NAME = re.compile(r"m\d+x\d+")
HELP = """
fn touch<T>(_ : &T){}
fn poke<T>(_ : &mut T){}
fn shareable<T : Send + Sync>(){}
fn marker<'b, T>(_ : &'b T) -> std::marker::PhantomData<&'b T>{ std::marker::PhantomData }
fn marker_mut<'b, T>(_ : &'b mut T) -> std::marker::PhantomData<&'b mut T>{ std::marker::PhantomData }
"""


# ---- types as written

def split(s):
    out, d, cur = [], 0, ""
    for c in s:
        if c in "<([":
            d += 1
        if c in ">)]":
            d -= 1
        if c == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += c
    if cur.strip():
        out.append(cur.strip())
    return out


def parse(s):
    """(head, arguments) of a type; references are ("&", [t]) and ("&mut", [t]), tuples ("()", [...])."""
    s = s.strip()
    m = re.match(r"&\s*(?:'\w+\s+)?(mut\s+)?(.*)$", s, re.S)
    if m:
        return ("&mut" if m.group(1) else "&", (parse(m.group(2)),))
    if s.startswith("("):
        return ("()", tuple(parse(x) for x in split(s[1:-1])))
    m = re.match(r"([\w:]+)\s*<(.*)>$", s, re.S)
    if m:
        return (m.group(1).rsplit("::", 1)[-1], tuple(parse(x) for x in split(m.group(2)) if not x.startswith("'")))
    return (s.rsplit("::", 1)[-1], ())


def text(t):
    h, a = t
    if h in ("&", "&mut"):
        return h + ("" if h == "&" else " ") + text(a[0])
    if h == "()":
        return "(%s)" % ", ".join(map(text, a))
    return h + ("<%s>" % ", ".join(map(text, a)) if a else "")


def parts(t):
    yield t
    for x in t[1]:
        yield from parts(x)


def subst(t, m):
    if not t[1] and t[0] in m:
        return m[t[0]]
    return (t[0], tuple(subst(x, m) for x in t[1]))


# ---- the generated text, one accessor of each signature

def chunks(src):
    """Top-level pieces of the text by braces."""
    out, cur, d = [], [], 0
    for l in src.split("\n"):
        if not l.strip() and d == 0 and not cur:
            continue
        cur.append(l)
        d += l.count("{") - l.count("}")
        if d == 0 and (l.rstrip().endswith(("}", ";"))):
            out.append("\n".join(cur))
            cur = []
    if cur:
        out.append("\n".join(cur))
    return out


class Fn:
    def __init__(self, owner, name, recv, args, ret, src, origin, unsafe, line):
        self.owner, self.name, self.recv, self.args, self.ret = owner, name, recv, args, ret
        self.src, self.origin, self.unsafe, self.line = src, origin, unsafe, line
        self.bare = False


HEAD = re.compile(r"^\s*pub (unsafe )?fn (\w+)\s*\((.*?)\)\s*(?:->\s*([^{]*?))?\s*\{", re.S)


def model(src):
    """(other items, accessors) of a text with the open names made one per kind."""
    items, fns, seen, names = [], [], set(), set()
    for c in chunks(src):
        c2 = re.sub(r"\bm\d+x1(?=(Old)?\b)", "V", TYPE.sub(lambda m: "X" + m.group(1), c))
        m = re.match(r"\s*impl (\w+)\s*\{", c2)
        if not m:
            k = re.search(r"\b(struct|enum) (\w+)", c2)
            k = k.groups() if k else re.sub(r"\s+", " ", c2)
            if k not in names:
                names.add(k)
                if isinstance(k, tuple) and k[0] == "enum":
                    vs = []
                    head, body = c2.split("{", 1)
                    for v in split(body.rsplit("}", 1)[0]):
                        if v.strip() and v.split("(")[0].strip() not in [x.split("(")[0].strip() for x in vs]:
                            vs.append(v)
                    c2 = head + "{ " + ", ".join(vs) + " }"
                items.append(c2)
            continue
        owner = m.group(1)
        body = c2[m.end():c2.rstrip().rindex("}")]
        first = {}
        for f in chunks(body):
            h = HEAD.match(f)
            if not h:
                continue
            args = split(h.group(3))
            recv = args[0] if args and "self" in args[0] and ":" not in args[0] else None
            ret = (h.group(4) or "()").strip()
            sk = NAME.sub("*", re.sub(r'"m\d+"', '"*"', f))
            if (owner, sk) in seen:
                continue
            seen.add((owner, sk))
            n = len(fns)
            one = NAME.search(h.group(2))
            f2 = f
            name = h.group(2)
            if one:
                f2 = NAME.sub(lambda y: "p%d" % n if y.group(0) == one.group(0) else y.group(0), f)
                name = name.replace(one.group(0), "p%d" % n)
            elif first.get(name) or any(x.owner == owner and x.name == name for x in fns):
                continue
            first[name] = True
            fns.append(Fn(owner, name, recv, args[1:] if recv else args, parse(ret), f2, re.sub(NAME, "*", h.group(2)),
                          bool(h.group(1)), h.group(0).strip().replace("X", "m0x1")))
    return items, fns


def assemble(items, fns):
    """(source, owner of each line)."""
    out, who = [], []

    def put(s, w):
        for l in s.split("\n"):
            out.append(l)
            who.append(w)
    for i in items:
        put(i, None)
    for o in dict.fromkeys(f.owner for f in fns):
        put("impl %s {" % o, None)
        for f in fns:
            if f.owner == o:
                put(f.src, f)
        put("}", None)
    put(HELP, None)
    return out, who


# ---- the handles of the runtime

class Step:
    """One call on a handle that gives another."""

    def __init__(self, owner, name, recv, args, ret, origin):
        self.owner, self.name, self.recv, self.args, self.ret, self.origin = owner, name, recv, args, ret, origin


class World:
    def __init__(self, prog, fns):
        self.prog = prog
        self.fns = fns
        self.gen = {f.owner for f in fns} | {"RootIntf"}
        self.core = {}
        self.params = {}
        self.iters, self.deref, self.makers = set(), {}, {}
        for b in prog.fns(CORE):
            if b.kind != "fn" or b.self_ty is None or b.self_ty.k != "adt" or not b.argc:
                continue
            o = b.self_ty.d.rsplit("::", 1)[-1]
            ps = [x.s for x in b.self_ty.a if x.k == "param"]
            tr = (b.trait or "").rsplit("::", 1)[-1]
            if tr == "Iterator" and b.name == "next":
                self.iters.add(o)
            if tr in ("Deref", "DerefMut"):
                self.deref.setdefault(o, {})[tr] = (ps, parse(b.locals[0].s))
            if not b.eff or (b.trait and tr != "Iterator"):
                continue
            r = b.locals[1]
            if not b.trait and b.locals[0].k == "adt" and b.locals[0].d == b.self_ty.d and not (r.strip_refs().k == "adt" and r.strip_refs().d == b.self_ty.d):
                self.makers.setdefault(o, []).append((b.name, [t.s for t in b.locals[1:b.argc + 1]], b))
            if r.k != "ref" or r.t.k != "adt" or r.t.d != b.self_ty.d:
                continue
            s = Step(o, b.name, "&mut self" if r.m else "&self", [t.s for t in b.locals[2:b.argc + 1]], parse(b.locals[0].s), b)
            self.core.setdefault(o, {}).setdefault(b.name, (ps, s))
        self.writing, self.marked = {}, set()
        for d, a in prog.adts.items():
            if d.startswith(CORE):
                n = d.rsplit("::", 1)[-1]
                if any(t.k == "adt" and t.d.endswith("PhantomData") for v in a["v"] for f in v["f"] if f["t"] is not None for t in f["t"].walk()):
                    self.marked.add(n)
                self.writing[n] = any(t.k == "ref" and t.m for v in a["v"] for f in v["f"] if f["t"] is not None for t in f["t"].walk())

    def handle(self, t):
        """Whether a value of the type gives access to the object."""
        return t[0] in ("&", "&mut") or t[0] in self.gen - {"XTableID", "XKind"} or t[0] in self.writing and (
            t[0] in self.marked)

    def static(self, t):
        return t[0] == "&" and "str" == t[1][0][0]

    def mutable(self, t):
        return any(x[0] == "&mut" or x[0] in self.writing and self.handle(x) and self.writing[x[0]] for x in parts(t))

    def inner(self, expr, t):
        """Expressions for the handles within a value."""
        if t[0] == "Option" or t[0] == "Result":
            yield from self.inner(expr + ".unwrap()", t[1][0])
        elif t[0] == "()":
            for i, x in enumerate(t[1]):
                yield from self.inner("(%s).%d" % (expr, i), x)
        elif any(self.handle(x) and not self.static(x) for x in parts(t)):
            yield expr, t

    def steps(self, t):
        """Calls possible on a handle of a type."""
        if t[0] in self.gen:
            for f in self.fns:
                if f.owner == t[0] and f.recv and not f.unsafe:
                    yield Step(t[0], f.name, "&mut self" if "mut" in f.recv else ("&self" if "&" in f.recv else "self"),
                               [a.split(":", 1)[1].strip() for a in f.args], f.ret, f)
            return
        for ps, s in self.core.get(t[0], {}).values():
            m = dict(zip(ps, t[1]))
            yield Step(t[0], s.name, s.recv, s.args, subst(s.ret, m), s.origin)
        d = self.deref.get(t[0], {})
        if "Deref" in d:
            ps, to = d["Deref"]
            to = subst(to, dict(zip(ps, t[1])))
            if to[0] in ("&", "&mut"):
                for s in self.steps(to[1][0]):
                    if s.recv != "self":
                        yield Step(t[0], s.name, s.recv, s.args, s.ret, s.origin)


VALUES = {"bool": "true", "String": "String::new()", "char": "'a'", "&str": '""', "f64": "0.0", "f32": "0.0"}


def value(t):
    t = t.strip()
    if t in VALUES:
        return VALUES[t]
    if re.match(r"[ui](8|16|32|64|128|size)$", t):
        return "0"
    if t.startswith("&") and t.lstrip("& ").startswith("str"):
        return '""'
    if t.startswith("Vec<"):
        return "Vec::new()"
    m = re.match(r"(Qv|NullOr|UndefOr)<(.*)>$", t)
    if m:
        v = value(m.group(2))
        return v and "%s::Val(%s)" % (m.group(1), v)
    return "any()"


# ---- the programs

class Case:
    def __init__(self, rule, key, msg, origin, good, bad):
        self.rule, self.key, self.msg, self.origin, self.good, self.bad = rule, key, msg, origin, good, bad


def label(s):
    o = s.origin
    return "%s.%s" % (o.owner.lstrip("X"), o.origin.replace("*_old", "*")) if isinstance(o, Fn) else "%s.%s" % (s.owner, s.name)


def cases(w):
    """Programs for every step from a handle, the handles reached breadth first."""
    root = ("RootIntf", ())
    paths, reads = {root: []}, {root: False}
    todo = [root]
    out = []
    n = 0
    while todo:
        t = todo.pop(0)
        lets = paths[t]
        me = "h%d" % len(lets) if lets else "r"
        pre = " ".join(lets)
        d = w.deref.get(t[0], {})
        if "Deref" in d and t[1] and t[1][0][0] in w.gen:
            out.append(Case("copied", "copied:%s" % t[0],
                            "the accessors a %s gives access to can be copied out of it and used without the borrow" % t[0], None,
                            "%s touch(&*%s);" % (pre, me), "%s let x = *%s; drop(r); touch(&x);" % (pre, me)))
        for s in w.steps(t):
            args = ", ".join(value(a) or "any()" for a in s.args)
            call = "%s.%s(%s)" % (me, s.name, args)
            if s.recv == "self":
                continue
            writes = s.recv == "&mut self"
            if writes and reads[t] and isinstance(s.origin, Fn):
                # the object was borrowed for reading
                out.append(Case("readonly", "readonly:%s" % label(s), "%s can be called through a read-only %s" % (label(s), t[0]), s,
                                "%s touch(&%s);" % (pre, me), "%s %s;" % (pre, call)))
                continue
            for expr, ty in w.inner(call, s.ret):
                n += 1
                name = "h%d" % (len(lets) + 1)
                let = "let mut %s = %s;" % (name, expr)
                lab = label(s)
                what = "what %s gives (%s)" % (lab, text(ty))
                twin = "%s %s touch(&%s);" % (pre, let, name)
                out.append(Case("outlives", "outlives:%s" % lab, what + " can be used after the object is gone", s,
                                twin + " drop(r);", "%s %s drop(r); touch(&%s);" % (pre, let, name)))
                out.append(Case("changes", "changes:%s" % lab, what + " can be used after the object was changed", s,
                                twin + " poke(&mut r);", "%s %s poke(&mut r); touch(&%s);" % (pre, let, name)))
                if writes and lets and w.mutable(ty) and not (t[0] in w.iters and s.name == "next"):
                    out.append(Case("twice", "twice:%s" % lab, what + " can still be used when the %s it came from is used for writing again" % t[0], s,
                                    twin + " poke(&mut %s);" % me, "%s %s poke(&mut %s); touch(&%s);" % (pre, let, me, name)))
                if lets and reads[t] and w.mutable(ty):
                    out.append(Case("readonly", "readonly:%s" % lab, what + ", which may write, can be had from a read-only %s" % t[0], s, twin, twin))
                if not lets and writes and w.mutable(ty):
                    out.append(Case("shared", "shared:%s" % lab, what + " can be had from a shared borrow of the object", s,
                                    twin, "let q = &r; let x = q.%s(%s); touch(&x);" % (s.name, args)))
                if ty not in paths and ty[0] in w.marked and len(lets) < 6:
                    paths[ty] = lets + [let]
                    reads[ty] = reads[t] if lets else not writes
                    todo.append(ty)
    for t in paths:
        for name, args, b in w.makers.get(t[0], ()):
            vs = ["any()"] * len(args)
            for i, a in enumerate(args):
                h = parse(a)[0]
                if h in ("&", "&mut"):
                    vs[i] = "&mut r" if h == "&mut" else "&r"
                elif h == "PhantomData":
                    vs[i] = "marker_mut(&mut r)" if "&mut" in a else "marker(&r)"
                else:
                    continue
                if w.writing[t[0]] and "&mut" not in a:
                    out.append(Case("made", "made:%s.%s" % (t[0], name), "%s makes a %s, which may write, from a shared borrow" % (name, t[0]),
                                    Step(t[0], name, "", [], t, b), "", ""))
                    break
                let = "let h : %s = %s::%s(%s);" % (text(t), t[0], name, ", ".join(vs))
                out.append(Case("made", "made:%s.%s" % (t[0], name), "a %s made by %s is not tied to what it is made from" % (t[0], name),
                                Step(t[0], name, "", [], t, b), let + " touch(&h); drop(r);", let + " drop(r); touch(&h);"))
                if h == "&mut" or "&mut" in a:
                    out.append(Case("made", "made:%s.%s" % (t[0], name), "a %s made by %s leaves what it is made from free to be read" % (t[0], name),
                                    Step(t[0], name, "", [], t, b), let + " touch(&h); touch(&r);", let + " touch(&r); touch(&h);"))
                break
    return out, paths


def verdicts(base, bodies):
    """Which of the function bodies are accepted; errors outside them are returned too."""
    lines, who = list(base), [None] * len(base)
    for i, x in enumerate(bodies):
        lines.append("#[allow(warnings)] fn w%d(mut r : RootIntf){ %s }" % (i, x))
        who.append(i)
    bad, other = {}, []
    for code, msg, _, ln in c20.compiled("\n".join(lines) + "\n"):
        w = who[ln - 1] if 0 < ln <= len(who) else None
        if w is None:
            other.append((code, msg, ln))
        else:
            bad.setdefault(w, (code, msg))
    return bad, other


def signatures(prog, ctx, w):
    """No reading accessor gives a handle that may write."""
    n = 0
    for o in sorted(w.gen):
        for s in w.steps((o, ())):
            n += 1
            if s.recv == "&self" and w.mutable(s.ret):
                yield s, s.ret
    for o in sorted(w.core):
        if o not in w.deref and o not in w.iters and not any(o == x[0] for f in w.fns for x in parts(f.ret)):
            continue
        for ps, s in w.core[o].values():
            n += 1
            if s.recv == "&self" and w.mutable(s.ret):
                yield s, s.ret
    ctx.count("signatures examined", n)


def run(prog, ctx):
    ctx.rule("outlives / changes: a handle is not usable after the object it comes from was moved away or borrowed mutably")
    ctx.rule("twice: a handle that may write is not usable after the handle it came from was used for writing again")
    ctx.rule("shared / readonly: a handle that may write comes only from a mutable borrow, and nothing is written through a read-only one")
    ctx.rule("made: a handle made from a borrow is tied to it, for mutable borrows alone")
    ctx.rule("silent: no accessor that reads, and no method of a read-only handle, calls what writes through the pointer it holds")
    ctx.rule("copied: what a handle gives access to cannot be taken out of it")
    ctx.rule("threads: whole objects are Send and Sync, and hold nothing that is neither")
    words = c20.Words(prog)
    es = c20.entries(prog)
    if not es:
        raise Anchor("no public function of the generator gives the text")
    tot = 0
    for b in es:
        try:
            s = c20.Source(prog, words, b)
        except (TooMany, Budget) as x:
            ctx.undecide("text of %s: %s" % (b.p, x))
            continue
        ctx.analysed.append(b.p)
        for src in s.src:
            if not re.search(r"\bpub fn ", src) or "RootIntf" not in src:
                continue
            tot += one(prog, ctx, s, src)
    ctx.count("forbidden programs", tot)
    threads(prog, ctx)
    ctx.floor("forbidden programs", 60)


def one(prog, ctx, source, src):
    items, fns = model(src)
    for _ in range(4):
        base, who = assemble(items, fns)
        errs = c20.compiled("\n".join(base) + "\nfn any<T>() -> T { loop{} }\n")
        drop = {id(who[e[3] - 1]) for e in errs if 0 < e[3] <= len(who) and who[e[3] - 1] is not None}
        if not errs:
            break
        if not drop:
            ctx.undecide("the text cannot be cut down to one accessor of each signature: %s" % errs[0][1])
            return 0
        keep = []
        for f in fns:
            if id(f) not in drop:
                keep.append(f)
            elif not f.bare:
                # the signature is what matters; the body refers to accessors that were left out
                f.src, f.bare = HEAD.match(f.src).group(0) + " loop{} }", True
                keep.append(f)
            else:
                ctx.undecide("signature of %s.%s not understood" % (f.owner, f.origin))
        fns = keep
    else:
        ctx.undecide("the text cannot be cut down to one accessor of each signature")
        return 0
    base.append("fn any<T>() -> T { loop{} }")
    w = World(prog, fns)
    seen = set()

    def where(st):
        o = st.origin if st is not None else None
        if isinstance(o, Fn):
            at = source.where(o.line)
            return (at[0], at[2]) if at else (source.b.where(source.b.line), ())
        if o is not None:
            return o.where(o.line), ()
        return source.b.where(source.b.line), ()

    for st, ret in signatures(prog, ctx, w):
        k = "shared:%s" % label(st)
        if k not in seen:
            seen.add(k)
            at = where(st)
            ctx.violation(k, "%s takes the object by shared borrow and gives %s, which may write" % (label(st), text(ret)), at[0], at[1])
    cs, paths = cases(w)
    bad, other = verdicts(base, [c.good for c in cs])
    if other:
        ctx.undecide("the interface itself is not accepted: %s" % other[0][1])
        return 0
    ok = [c for i, c in enumerate(cs) if i not in bad]
    for i in sorted(bad):
        if cs[i].rule == "made" and bad[i][0] == "E0425" or bad[i][0] == "E0412":
            ctx.note("%s: clients cannot name the type" % cs[i].key)
            continue
        ctx.undecide("%s: the permitted use is not accepted either (%s)" % (cs[i].key, bad[i][1]))
    bad, _ = verdicts(base, [c.bad for c in ok])
    for i, c in enumerate(ok):
        ctx.count("programs: " + c.rule)
        if i in bad or c.key in seen or c.rule == "changes" and c.key.replace("changes:", "outlives:") in seen:
            continue
        seen.add(c.key)
        at = where(c.origin)
        ctx.violation(c.key, "%s: `%s` is accepted" % (c.msg, c.bad), at[0], at[1])
    ctx.count("kinds of handles", len(paths) - 1)
    silent(prog, ctx, w, paths, where)
    # threads
    for n, body in (("shareable", "shareable::<RootIntf>();"), ("shareable", "shareable::<RootObject>();")):
        bad, _ = verdicts(base, [body])
        if bad:
            ctx.violation("threads:" + body[11:-4], "`%s` is not accepted: %s" % (body, bad[0][1]), source.b.where(source.b.line))
    return len(ok)


def silent(prog, ctx, w, paths, where):
    """What a reading accessor or a read-only handle calls writes nothing."""
    root = find_adt(prog, "RootObject", CORE)
    if root is None:
        raise Anchor("the object type was not found")
    pm = Perms(prog, c06.parts(prog, root), [CORE])
    byn = {}
    for b in prog.fns(CORE):
        if b.kind == "fn" and b.self_ty is None:
            byn.setdefault("::".join(b.p.split("::")[-2:]), []).append(b)
    n = 0
    for f in w.fns:
        if not f.recv or f.unsafe:
            continue
        for c in re.findall(r"\b(\w+::\w+)\s*(?:::<[^>]*>)?\(\s*self\.ptr", f.src):
            bs = byn.get(c, [])
            if len(bs) != 1 or bs[0].d not in pm.sums:
                continue
            n += 1
            needs = pm.sums[bs[0].d].needs
            if "mut" not in f.recv and needs:
                need = next(iter(needs.values()))
                at = where(Step(f.owner, f.name, "&self", [], f.ret, f))
                ctx.violation("silent:%s.%s" % (f.owner.lstrip("X"), f.origin.replace("*_old", "*")),
                              "%s.%s takes its object by shared borrow and calls %s, which writes to it (%s)" % (
                                  f.owner.lstrip("X"), f.origin, c, need.what), at[0], at[1])
    ctx.count("calls of accessors examined for writing", n)
    n = 0
    for o in sorted({t[0] for t in paths}):
        if o not in w.marked or w.writing[o]:
            continue
        for ps, s in w.core.get(o, {}).values():
            n += 1
            for need in list(pm.sums[s.origin.d].needs.values())[:1] if s.origin.d in pm.sums else ():
                ctx.violation("silent:%s.%s" % (o, s.name), "%s of the read-only %s writes to the object (%s)" % (s.name, o, need.what),
                              s.origin.where(s.origin.line), ["%s line %s" % x for x in need.via])
    ctx.count("methods of read-only handles examined for writing", n)


def threads(prog, ctx):
    """Nothing within an object is bound to one thread (some of its types are declared Send by hand)."""
    root = next((d for d in prog.adts if d.startswith(CORE) and d.endswith("::RootObject")), None)
    if root is None:
        raise Anchor("no RootObject")
    seen, st = set(), [root]
    while st:
        d = st.pop()
        if d in seen or d not in prog.adts:
            continue
        seen.add(d)
        for v in prog.adts[d]["v"]:
            for f in v["f"]:
                for t in f["t"].walk() if f["t"] is not None else ():
                    if t.k == "adt":
                        if t.d.rsplit("::", 1)[-1] in ("Rc", "RefCell", "Cell", "UnsafeCell", "MutexGuard", "OnceCell") and not t.d.startswith(CORE) \
                                and "sync" not in t.d:
                            ctx.violation("threads:%s:%s" % (d.rsplit("::", 1)[-1], t.d.rsplit("::", 1)[-1]),
                                          "field %s of %s holds a %s, which must not be used from two threads" % (f["n"], d, t.d), d)
                        st.append(t.d)
                    if t.k in ("ref", "ptr") and t.t.k == "adt":
                        st.append(t.t.d)
    ctx.count("types an object is made of", len(seen))
