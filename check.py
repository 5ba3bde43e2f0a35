#!/usr/bin/env python3
"""check.py <ID>: decides one property on /repo's current working tree."""
import importlib, json, os, sys, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
sys.path.insert(0, os.path.join(HERE, "checks"))
sys.setrecursionlimit(20000)


from check_base import Anchor

class Ctx:
    def __init__(self, pid, tier):
        self.pid = pid
        self.tier = tier
        self.violations = {}
        self.counts = {}
        self.undecided = []
        self.notes = []
        self.assumptions = []
        self.rules = []
        self.analysed = []

    def rule(self, text):
        self.rules.append(text)

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def violation(self, key, msg, where="", path=()):
        """key identifies the finding without line numbers."""
        if key not in self.violations:
            self.violations[key] = {"key": key, "what": msg, "where": where, "path": list(path)}

    def undecide(self, what):
        self.undecided.append(what)

    def note(self, text):
        if text not in self.notes:
            self.notes.append(text)

    def assume(self, text):
        if text not in self.assumptions:
            self.assumptions.append(text)

    def floor(self, name, n):
        """At least n instances must have been analysed; fewer means the analysis lost its subject."""
        if self.counts.get(name, 0) < n:
            raise Anchor("only %d %s analysed, expected at least %d" % (self.counts.get(name, 0), name, n))


def known_findings(pid):
    out = {}
    path = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(path):
        for l in open(path):
            l = l.strip()
            if l.startswith("known: property=%s key=" % pid):
                rest = l.split("key=", 1)[1]
                k, _, what = rest.partition(" :: ")
                out[k] = what
    return out


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    import facts, prog as P
    ctx = Ctx(pid, tier)
    mod = importlib.import_module(pid.lower())
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    err = None
    tree = None
    try:
        p = P.load()
        tree = p.tree
        mod.run(p, ctx)
    except (Anchor, facts.ToolError) as e:
        err = "%s: %s" % (type(e).__name__, e)
    except Exception:
        err = traceback.format_exc()
    known = known_findings(pid)
    fresh = [v for k, v in ctx.violations.items() if k not in known]
    old = [v for k, v in ctx.violations.items() if k in known]
    cov = {"explanation": getattr(mod, "EXPLANATION", (mod.__doc__ or "")).strip(),
           "rules": ctx.rules, "counts": ctx.counts, "undecided": ctx.undecided[:50],
           "undecided_count": len(ctx.undecided), "analysed": ctx.analysed[:400], "notes": ctx.notes[:100],
           "tree_sha256": tree}
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
          "wall_s": round(time.time() - t0, 3), "assumptions": ctx.assumptions,
          "violations": [v for v in fresh]}
    if old:
        cov["known_findings"] = old
    if err:
        cov["error"] = err
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write("\n")
    for v in old:
        print("KNOWN-FINDING: property=%s %s" % (pid, known[v["key"]] or v["what"]))
    if fresh:
        rp = os.path.join("evidence", pid + ".violation.txt")
        with open(os.path.join(HERE, rp), "w") as f:
            for v in fresh:
                f.write("property %s\nkey      %s\nwhere    %s\nwhat     %s\n" % (pid, v["key"], v["where"], v["what"]))
                for s in v["path"]:
                    f.write("  via %s\n" % s)
                f.write("\n")
            f.write("replay: cd %s && python3 check.py %s\n" % (HERE, pid))
        for v in fresh:
            print("%s: %s [%s]" % (v["where"], v["what"], v["key"]))
            for s in v["path"][:12]:
                print("    via", s)
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    if err:
        print("ERROR", err)
        return 2
    print("%s held: %s%s  (%.1fs)" % (pid, ", ".join("%s=%s" % x for x in sorted(ctx.counts.items())),
          "; undecided=%d" % len(ctx.undecided) if ctx.undecided else "", time.time() - t0))
    for u in ctx.undecided[:20]:
        print("  undecided:", u)
    return 0


if __name__ == "__main__":
    sys.exit(main())
