"""Generated accessors call existing functions for their own member.

The value of the generator's text buffer is worked out by abstract interpretation: constant parts of the text are known,
the names of the source are left open, a loop over members is taken once for each way round it.  The resulting text has
every accessor for every kind, type and variability.  It is never run: the compiler's type checker decides whether the
functions it names exist and have these types, and the open names tell whether an accessor asks for its own member.
"""
import glob
import json
import os
import re
import shutil
import subprocess
import tempfile
import absint
import facts
from absint import show, subterms, Budget
from check_base import Anchor
from prog import Place
from slicing import Slice
from templates import Texts, Hole, TooMany
from terms import Typer, find_adt, last

TECHNIQUE = ("abstract interpretation of the generator's text buffer (constant text with open names), type checking of "
             "the text so found, dataflow from open names to accessors")
GEN, CORE = "dochy_intf", "dochy_core"
# what a wrapper can tell apart, and what a variability allows
STATES = {"": {"Val"}, "NullOr": {"Val", "Null"}, "UndefOr": {"Val", "Undefined"}, "Qv": {"Val", "Null", "Undefined"}}
ALLOWED = {"Normal": {"Val"}, "Nullable": {"Val", "Null"}, "Undefiable": {"Val", "Undefined"},
           "UndefNullable": {"Val", "Null", "Undefined"}}


def is_str(t):
    t = t.strip_refs()
    return t.k == "str" or is_string(t)


def is_string(t):
    return t.k == "adt" and t.d.rsplit("::", 1)[-1] == "String"


def plain(t):
    t = t.strip_refs()
    return t.k in ("int", "bool", "str", "char") or is_string(t)


class Words:
    """What of the generator handles texts only: buffers that lines are appended to and conversions of names."""

    def __init__(self, prog):
        self.prog = prog
        self.buffers, self.byp = set(), {}
        cand = {}
        for b in prog.fns(GEN):
            self.byp.setdefault(b.p, b)
            if b.kind != "fn" or b.argc < 2:
                continue
            t = b.locals[1]
            if t.k == "ref" and t.m and t.t.k == "adt" and t.t.d in prog.adts and any(is_str(b.locals[i]) for i in range(2, b.argc + 1)):
                cand.setdefault(t.t.d, []).append(b)
        for d in cand:
            vs = prog.adts[d]["v"]
            if len(vs) == 1 and vs[0]["f"] and all(plain(f["t"]) for f in vs[0]["f"]):
                self.buffers.add(d)

    def buffer(self, t):
        t = t.strip_refs()
        return t.k == "adt" and t.d in self.buffers

    def opaque(self, b):
        if b.crate != GEN or b.kind != "fn" or not b.argc:
            return False
        ts = [b.locals[i] for i in range(1, b.argc + 1)]
        if self.buffer(ts[0]) or self.buffer(b.locals[0]):
            return all(plain(t) or self.buffer(t) for t in ts)
        return all(plain(t) for t in ts) and is_string(b.locals[0]) and bool(absint.shape_of(b).loop)

    def append(self, t):
        p = t.a[0][4:] if t.a[0].startswith("mut:") else None
        b = self.byp.get(p)
        if b is not None and b.argc and self.buffer(b.locals[1]) and b.locals[1].k == "ref" and b.locals[1].m:
            xs = [t.a[i] for i in range(2, b.argc + 1) if is_str(b.locals[i])]
            if len(xs) == 1:
                return t.a[1], xs[0], "\n"
        if len(t.a) == 3 and (t.a[0] in ("push", "push_str") or last(t.a[0]) == "add" and "ring" in t.a[0] or p is not None and p.endswith(("String::push_str", "String::push"))):
            return t.a[1], t.a[2], ""
        return None

    def whole(self, t):
        b = self.byp.get(t.a[0])
        if b is not None:
            if b.argc == 1 and self.buffer(b.locals[1]) and is_str(b.locals[0]):
                return t.a[1]
            return None
        if t.a[0].rsplit("::", 1)[-1] in ("to_string", "to_owned", "clone", "as_str", "into", "from", "deref", "borrow", "as_ref") and len(t.a) == 2:
            return t.a[1]
        return None


class Client(Slice):
    cap = 512
    max_nodes = 120000

    def __init__(self, words):
        Slice.__init__(self, (), 3000, (GEN, CORE))
        self.words = words

    def inline(self, eng, fr, tg):
        return tg.body is not None and not self.words.opaque(tg.body) and Slice.inline(self, eng, fr, tg)


def base_of(t, words):
    """The value a converted name comes from, and the conversions in order."""
    fs = []
    while t.op == "app" and t.a[0] in words.byp and words.opaque(words.byp[t.a[0]]) and len(t.a) == 2:
        fs.append(t.a[0])
        t = t.a[1]
    return t, tuple(fs)


def data(t):
    """A value found in the description of the source, and not made by the generator."""
    while t.op in ("fld", "idx", "elem"):
        t = t.a[0]
        while t.op == "app" and last(t.a[0]) in ("iter", "rev", "enumerate", "into_iter", "iter_mut", "deref", "as_slice") and len(t.a) == 2:
            t = t.a[1]
    return t.op == "sym"


class Names:
    """Identifiers that stand for the names of the source."""

    def __init__(self, words):
        self.words, self.base, self.conv, self.nums = words, {}, {}, {}

    def number(self, h):
        return self.nums.setdefault(h.key(), len(self.nums) + 10)

    def of(self, h):
        t, fs = base_of(h.t, self.words)
        if not data(t):
            return "unknown%d" % self.nums.setdefault(h.key(), len(self.nums) + 10)
        k = (t.id, frozenset(h.tags))
        n = self.base.setdefault(k, len(self.base))
        return "m%d" % n + "".join("x%d" % self.conv.setdefault(f, len(self.conv)) for f in fs)


def block(t, words):
    """A text made elsewhere: the result of a function of the generator that was not followed."""
    b = words.byp.get(t.a[0]) if t.op == "app" else None
    return b is not None and not words.opaque(b)


def render(pieces, texts, words, names):
    out = []
    for p in pieces:
        if isinstance(p, Hole):
            p = "%d" % (names.number(p)) if texts.number(p.t) else "" if block(p.t, words) else names.of(p)
        out.append(p)
    return "".join(out)


def undefined(src):
    """Definitions for types that another member of the same kind has in the text."""
    have = set(re.findall(r"\b(?:struct|enum|type)\s+(\w+)", src))
    fam = {}
    for n in sorted(have):
        fam.setdefault(re.sub(r"m\d+", "m", n), n)
    out = []
    for n in sorted(set(re.findall(r"\b\w*m\d+x\d+\w*\b", src)) - have):
        f = re.sub(r"m\d+", "m", n)
        if f in fam:
            out.append("pub type %s = %s;" % (n, fam[f]))
    return out


def skeleton(line):
    return re.sub(r"m\d+", "m", line).strip()


class Source:
    """The text found for one entry point, and where its lines come from."""

    def __init__(self, prog, words, b):
        self.prog, self.words, self.b = prog, words, b
        self.e = absint.Engine(prog, Client(words)).run(b)
        self.texts = Texts(self.e, prog, words.append, words.whole)
        self.names = Names(words)
        alts = []
        for x in self.e.exits:
            if x.kind == "return":
                alts += self.texts.alts(x.ret)
        self.alts = list(dict.fromkeys(alts))
        self.src = [render(a, self.texts, words, self.names) for a in self.alts]
        self.origin = None

    def where(self, line):
        """Where the generator writes such a line."""
        if self.origin is None:
            self.origin = {}
            for n, ev, _ in self.e.events():
                b = self.words.byp.get(ev.path)
                if b is None or not self.words.opaque(b) or not ev.args:
                    continue
                for a in ev.args[1:]:
                    try:
                        al = self.texts.alts(a)
                    except TooMany:
                        continue
                    if len(al) > 20:
                        continue
                    for x in al:
                        for l in render(x, self.texts, self.words, Names(self.words)).split("\n"):
                            if l.strip():
                                self.origin.setdefault(skeleton(l), (ev.where(), ev.fr.body.p, ev.stack()))
        return self.origin.get(skeleton(line))


def entries(prog):
    """Public functions that give the whole text."""
    made = {b.locals[0].d for b in prog.fns(GEN) if b.kind == "fn" and b.eff and b.locals[0].k == "adt"
            and any(t.k == "adt" and t.d.startswith(CORE) for i in range(1, b.argc + 1) for t in b.locals[i].walk())}
    gen = [b for b in prog.fns(GEN) if b.kind == "fn" and b.eff and is_string(b.locals[0]) and b.argc == 1
           and b.locals[1].strip_refs().k == "adt" and b.locals[1].strip_refs().d in made and b.locals[1].strip_refs().d in prog.local_adts]
    ds = {b.d for b in gen}
    own = [b for b in gen if not any(b.blocks[i].t.k == "call" and b.blocks[i].t.callee is not None and b.blocks[i].t.callee.d in ds - {b.d}
                                     for i in b.reach)]
    return own


def compiled(src):
    """Errors of the type checker for a text: (code, message, line text, line number)."""
    rm = sorted(glob.glob(os.path.join(facts.WORK, "target/debug/build/dochy/*/out/libdochy-*.rmeta")), key=os.path.getmtime)
    if not rm:
        raise Anchor("no compiled interface of the dochy crate to check the text against")
    d = tempfile.mkdtemp(prefix="c20-")
    try:
        f = os.path.join(d, "text.rs")
        with open(f, "w") as h:
            h.write(src)
        cmd = ["rustc", "--edition", "2018", "--crate-type", "lib", "--crate-name", "text", "--emit=metadata",
               "-o", os.path.join(d, "text.rmeta"), "--error-format=json", "--cap-lints", "allow", "--extern", "dochy=" + rm[-1]]
        for o in glob.glob(os.path.join(facts.WORK, "target/debug/build/*/*/out")):
            cmd += ["-L", "dependency=" + o]
        p = subprocess.run(cmd + [f], env=facts.base_env(), cwd=d, capture_output=True, text=True, timeout=300)
    finally:
        shutil.rmtree(d)
    out = []
    for l in p.stderr.splitlines():
        try:
            j = json.loads(l)
        except ValueError:
            continue
        if j.get("level") != "error" or not j.get("spans"):
            continue
        sp = next((x for x in j["spans"] if x.get("is_primary")), j["spans"][0])
        out.append(((j.get("code") or {}).get("code") or "", j["message"], sp["text"][0]["text"] if sp["text"] else "", sp["line_start"]))
    if p.returncode and not out:
        raise Anchor("the type checker failed: " + p.stderr[-800:])
    return out


def defined(src):
    """For each type of the text, the functions and variants it has, names erased."""
    out, cur, depth = {}, None, 0
    for l in src.split("\n"):
        if depth == 0:
            m = re.match(r"\s*(?:#\[[^\]]*\]\s*)?(?:unsafe )?(?:pub )?(?:enum|impl|struct) (?:\w+(?:<\w+>)? for )?(\w+)", l)
            if m:
                cur = skeleton(m.group(1))
        if cur is not None:
            for m in re.finditer(r"\bfn (\w+)|^\s*(\w+)\s*[,(]", l):
                out.setdefault(cur, set()).add(skeleton(m.group(1) or m.group(2)))
        depth += l.count("{") - l.count("}")
    return out


def artefact(code, msg, have):
    """Members of one collection are numbered anew in every loop, so that a name that one loop defines is used under
    another number in the next."""
    if code in ("E0592", "E0428", "E0201", "E0084"):
        # a loop taken twice for one member, or not at all
        return True
    if code == "E0599":
        m = re.match(r"no (?:variant.*|method|function or associated item|associated.*) named `(\w+)` found for [^`]*`&?(\w+)`", msg)
        return bool(m) and re.search(r"m\d+x?", m.group(1)) is not None and skeleton(m.group(1)) in have.get(skeleton(m.group(2)), ())
    if code == "E0004":
        return re.search(r"m\d+x", msg) is not None
    return False


HEAD = re.compile(r"\bfn (\w+)\s*[<(]")
QUOTED = re.compile(r'"(m\d+(?:x\d+)*)"')
NAME = re.compile(r"m(\d+)(?:x\d+)*")


def items(src):
    """(first line number, type the impl is for, lines) of every function of the text."""
    depth, owner, cur, at = 0, None, None, 0
    for n, l in enumerate(src.split("\n"), 1):
        if cur is None and depth == 0:
            m = re.match(r"\s*impl (?:\w+(?:<\w+>)? for )?(\w+)", l)
            if m:
                owner = m.group(1)
        if cur is None and HEAD.search(l):
            cur, at = [], depth
        depth += l.count("{") - l.count("}")
        if cur is not None:
            cur.append((n, l))
            if depth <= at:
                yield cur[0][0], owner, cur
                cur = None


def unknowns(src):
    """Lines of functions with unknown parts; "all" if other parts are unknown; None if all is known."""
    if "unknown" not in src:
        return None
    out, left = set(), set(re.findall(r"unknown\d+", src))
    inside = set()
    for first, owner, ls in items(src):
        inside |= {n for n, _ in ls}
        if any("unknown" in l for _, l in ls):
            out |= {n for n, _ in ls}
    if any("unknown" in l and n not in inside for n, l in enumerate(src.split("\n"), 1)):
        return "all"
    return out


def own_member(ctx, s, src):
    """Inside an accessor only the name the accessor is called after may be asked for."""
    n = 0
    for first, owner, ls in items(src):
        stem = {"m" + k for k in NAME.findall(owner or "")}
        mine = {"m" + k for k in NAME.findall(HEAD.search(ls[0][1]).group(1))}
        for ln, l in ls:
            q = set(QUOTED.findall(l))
            if not q:
                continue
            others = {"m" + k for k in NAME.findall(QUOTED.sub("", l))}
            n += len(q)
            bad = q - mine if mine else q - (others - stem) if others - stem else set()
            if bad:
                at = s.where(l)
                ctx.violation("own:%s" % skeleton(ls[0][1])[:80],
                              "accessor `%s` asks for another member than its own: `%s`" % (skeleton(ls[0][1]), l.strip()),
                              at[0] if at else s.b.where(s.b.line), at[2] if at else ())
    return n


def apart(ctx, s, src):
    """Two accessors of one member that only read do not do the same thing under two names."""
    seen = {}
    n = 0
    for first, owner, ls in items(src):
        h = HEAD.search(ls[0][1])
        mine = NAME.search(h.group(1))
        if not mine or "(&self)" not in ls[0][1] or len(ls) < 3:
            continue
        n += 1
        k = (owner, mine.group(1), " ".join(l.strip() for _, l in ls[1:]))
        o = seen.setdefault(k, (h.group(1), ls))
        if o[0] != h.group(1):
            at = s.where(ls[0][1])
            ctx.violation("apart:%s" % skeleton(ls[0][1])[:80], "accessors `%s` and `%s` of one member do the same" % (skeleton(o[0]), skeleton(h.group(1))),
                          at[0] if at else s.b.where(s.b.line), at[2] if at else ())
    return n


def variant_of(prog, adt, e, ty, fs):
    """Variants of the type that the facts leave, if the facts are about just one value of it."""
    out = []
    for t, v in fs.items():
        if ty.adt(t) == adt and isinstance(v, frozenset):
            out.append(v)
    return out[0] if len(out) == 1 else None


def accepted(prog, adt, b, depth=2, seen=None):
    """Kinds of value a runtime function takes out of or puts into a parameter."""
    seen = set() if seen is None else seen
    out = set()
    if b.d in seen:
        return out
    seen.add(b.d)
    for i in b.reach:
        bl = b.blocks[i]
        for st in bl.s:
            if st.k != "=" or st.rv is None:
                continue
            if st.rv.op == "agg" and isinstance(st.rv.sub, tuple) and st.rv.sub[0] == adt:
                out.add(st.rv.sub[1])
            for pl in [o.pl for o in st.rv.a if getattr(o, "pl", None) is not None] + ([st.rv.pl] if st.rv.pl is not None else []):
                for k, x in enumerate(pl.proj):
                    if x[0] == "v":
                        t = prog.place_ty(b, Place(pl.l, pl.proj[:k]))
                        if t is not None and t.k == "adt" and t.d == adt:
                            out.add(x[1])
    if not out and depth:
        for i in b.reach:
            c = b.blocks[i].t.callee if b.blocks[i].t.k == "call" else None
            if c is not None and c.d in prog.bodies:
                out |= accepted(prog, adt, prog.bodies[c.d], depth - 1, seen)
    return out


def kinds(prog, ctx, s):
    """The function called is the one for the member's type; the wrapper can hold every state the variability allows."""
    pt, vt, rp = (find_adt(prog, n, CORE) for n in ("ParamType", "VarType", "RustParam"))
    name = lambda d, i: prog.adts[d]["v"][i]["n"]
    fns = {}
    for b in prog.fns(CORE):
        if b.kind == "fn" and b.eff:
            fns.setdefault("::".join(b.p.split("::")[-2:]), []).append(b)
    ty = Typer(s.e)
    n = m = 0
    for nd, ev, _ in s.e.events():
        wb = s.words.byp.get(ev.path)
        if wb is None or not s.words.opaque(wb) or len(ev.args) < 2 or not s.words.buffer(wb.locals[1]):
            continue
        pv = variant_of(prog, pt, s.e, ty, ev.facts)
        vv = variant_of(prog, vt, s.e, ty, ev.facts)
        if pv is None and vv is None:
            continue
        try:
            al = s.texts.alts(ev.args[-1])
        except TooMany:
            continue
        if len(al) > 8:
            continue
        for a in al:
            l = render(a, s.texts, s.words, Names(s.words)).strip()
            if "\n" in l:
                continue
            if pv is not None:
                for c in re.findall(r"\b(\w+::\w+)\(self\b", l):
                    bs = fns.get(c, [])
                    got = set().union(*[accepted(prog, rp, b) for b in bs]) if bs else set()
                    if len(got) != 1:
                        continue
                    n += 1
                    g = name(rp, next(iter(got)))
                    want = {name(pt, i) for i in pv}
                    if g not in want:
                        ctx.violation("kind:%s:%s" % (c, "+".join(sorted(want))),
                                      "for a member of type %s the accessor calls `%s`, which only knows %s" % ("/".join(sorted(want)), c, g),
                                      ev.where(), ev.stack())
            h = re.match(r"pub fn \w+\((&(?:mut )?self)(?:, \w+ : ([^)]*))?\)(?: -> (.*?))?\s*\{", l)
            if vv is not None and h:
                setter = h.group(2) is not None
                t = h.group(2) if setter else h.group(3)
                if not t or t.strip().startswith("Option<"):
                    continue
                w = re.match(r"(NullOr|UndefOr|Qv)<", t.strip())
                have = STATES[w.group(1) if w else ""]
                for i in vv:
                    al_ = ALLOWED.get(name(vt, i))
                    if al_ is None:
                        continue
                    m += 1
                    if (setter and not have <= al_) or (not setter and not al_ <= have):
                        ctx.violation("states:%s:%s" % (ev.fr.body.name, name(vt, i)),
                                      "a member declared %s can be %s, but `%s` %s %s" % (
                                          name(vt, i), "/".join(sorted(al_)), skeleton(l), "takes" if setter else "can only be", "/".join(sorted(have))),
                                      ev.where(), ev.stack())
    return n, m


def members(prog, ctx):
    """What is generated for a member is decided by what the description says of that very member."""
    md = find_adt(prog, "MemberDesc", CORE)
    mt, pt = find_adt(prog, "RustMemberType", CORE), find_adt(prog, "ParamType", CORE)
    name = lambda d, i: prog.adts[d]["v"][i]["n"]
    n = 0
    for b in prog.fns(GEN):
        r = b.locals[0]
        if b.kind != "fn" or b.argc != 1 or b.locals[1].strip_refs().k != "adt" or b.locals[1].strip_refs().d != md:
            continue
        if r.k != "adt" or r.d not in prog.local_adts or prog.adts[r.d]["k"] != "enum":
            continue
        e = absint.Engine(prog, Client(Words(prog))).run(b)
        ty = Typer(e)
        seen = {}
        for x in e.exits:
            if x.kind != "return" or x.ret.op != "agg":
                continue
            ks = variant_of(prog, mt, e, ty, {t: v for t, v in x.state.facts.items() if t.op == "fld" and t.a[0].op == "sym"})
            if ks is None or len(ks) != 1:
                continue
            k = name(mt, next(iter(ks)))
            got = {name(r.d, x.ret.a[1])}
            types = [y for y in subterms(x.ret) if y.op == "agg" and y.a[0] == pt]
            if types:
                got = {name(pt, y.a[1]) for y in types}
            n += 1
            seen.setdefault(k, set()).update(got)
            for y in strings(prog, x.ret):
                if y.op == "fld" and y.a[0].op == "sym" and field(prog, md, y.a[2]) not in (None, "name"):
                    ctx.violation("member-name:" + k, "the source for a member of kind %s takes its name from %s" % (k, field(prog, md, y.a[2])), b.where(b.line))
        all_ = {name(pt, i) for i in range(len(prog.adts[pt]["v"]))} | {name(r.d, i) for i in range(len(prog.adts[r.d]["v"]))}
        for k, got in sorted(seen.items()):
            others = {j for j in seen if j != k and seen[j] & got}
            if (k in all_ and k not in got) or others:
                ctx.violation("member-kind:" + k, "a member of kind %s is generated as %s%s" % (
                    k, "/".join(sorted(got)), " like " + "/".join(sorted(others)) if others else ""), b.where(b.line))
    return n


def field(prog, d, i):
    f = prog.adts[d]["v"][0]["f"]
    return f[i]["n"] if i < len(f) else None


def strings(prog, t):
    """Texts the result holds."""
    if t.op != "agg" or t.a[0] not in prog.adts:
        return
    fs = prog.adts[t.a[0]]["v"][t.a[1]]["f"]
    for f, x in zip(fs, t.a[2:]):
        if is_string(f["t"]):
            while x.op == "app" and last(x.a[0]) in ("to_string", "clone", "to_owned", "into", "from", "deref") and len(x.a) == 2:
                x = x.a[1]
            yield x
        else:
            yield from strings(prog, x)


def run(prog, ctx):
    ctx.rule("exists: the text the generator writes passes the type checker against the runtime interface, for every kind of "
             "member, type, variability and nesting, whatever the members are called")
    ctx.rule("own: in an accessor only the name of the member it is called after is asked for")
    ctx.rule("kind: the runtime function called for a member of a type is one that handles this type of value")
    ctx.rule("states: a reading accessor's result can hold every state the variability allows, a writing one takes no other")
    ctx.rule("apart: the accessors for the value and for the default of a member do not call the same")
    ctx.rule("member: the description of a member decides what is generated for it, each kind apart")
    words = Words(prog)
    es = entries(prog)
    if not es:
        raise Anchor("no public function of the generator gives the text")
    total = calls = 0
    for b in es:
        try:
            s = Source(prog, words, b)
        except (TooMany, Budget) as x:
            ctx.undecide("text of %s: %s" % (b.p, x))
            continue
        ctx.analysed.append(b.p)
        if not s.src:
            ctx.undecide("text of %s: no text found" % b.p)
        for src in s.src:
            ctx.count("lines of generated text", src.count("\n"))
            here = len(re.findall(r"\bpub fn ", src))
            if not here:
                continue
            total += here
            full = src + "\n" + "\n".join(undefined(src)) + "\n"
            have = defined(src)
            seen = set()
            dark = unknowns(src)
            if dark:
                ctx.undecide("%d parts of the text of %s are not known" % (len(set(re.findall(r"unknown\d+", src))), b.p))
            for code, msg, line, ln in compiled(full):
                if dark is not None and (dark == "all" or ln in dark or not code):
                    continue
                if artefact(code, msg, have):
                    ctx.count("references between members of one collection")
                    continue
                k = "exists:%s:%s" % (code, skeleton(line)[:90])
                if k in seen:
                    continue
                seen.add(k)
                at = s.where(line)
                ctx.violation(k, "generated code does not fit the interface: %s, in `%s`" % (msg, line.strip()),
                              at[0] if at else b.where(b.line), at[2] if at else ())
            calls += own_member(ctx, s, src)
            ctx.count("reading accessors compared with each other", apart(ctx, s, src))
        try:
            n, m = kinds(prog, ctx, s)
            ctx.count("calls compared with the type of the member", n)
            ctx.count("signatures compared with the variability", m)
        except Budget as x:
            ctx.undecide("kinds of %s: %s" % (b.p, x))
    ctx.count("accessors in the generated text", total)
    ctx.count("names passed to the runtime", calls)
    try:
        ctx.count("ways from a description to a source", members(prog, ctx))
    except Budget as x:
        ctx.undecide("member descriptions: %s" % x)
    ctx.floor("accessors in the generated text", 100)
    ctx.floor("names passed to the runtime", 100)
