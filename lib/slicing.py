"""Call-graph slices: which functions matter for a set of operations."""
import absint
from cg import CallGraph


def reaching(prog, roots, is_op, kinds=("call", "hof", "async", "drop")):
    """Ids of the bodies, reachable from roots, from which an operation accepted by is_op(Target)
    (a call site) can be reached."""
    cg = CallGraph(prog)
    pred = cg.reach([cg.inst(b) for b in roots], kinds)
    back = {}
    hit = set()
    for k in pred:
        i = cg.insts[k]
        for e in i.edges:
            if e.kind in kinds:
                back.setdefault(e.dst.k, []).append(k)
        for tg in i.sites.values():
            if tg is not None and is_op(tg):
                hit.add(k)
    st = list(hit)
    while st:
        k = st.pop()
        for x in back.get(k, ()):
            if x not in hit:
                hit.add(x); st.append(x)
    return {k[0] for k in hit}


class Slice(absint.Client):
    """Follows only functions that lead to an operation of interest, and small ones."""
    cap = 96

    def __init__(self, keep, small=0, crates=None):
        self.keep_ids = keep
        self.small = small
        self.crates = crates

    def inline(self, eng, fr, tg):
        b = tg.body
        return b is not None and (self.crates is None or b.crate in self.crates) and (b.d in self.keep_ids or b.kind == "closure" or len(b.reach) <= self.small)
