"""Public anchors: functions named by the documented interface."""
from check_base import Anchor


def pub_fns(prog, crate, name, self_adt=None):
    out = [b for b in prog.fns(crate) if b.kind == "fn" and b.eff and b.name == name and
           (self_adt is None or (b.self_ty is not None and b.self_ty.strip_refs().d == self_adt))]
    return out


def pub_fn(prog, crate, name, self_name=None):
    """The public function of that name (of the type with that last path segment)."""
    out = []
    for b in prog.fns(crate):
        if b.kind != "fn" or b.name != name or not b.eff:
            continue
        st = b.self_ty.strip_refs() if b.self_ty is not None else None
        sn = st.d.rsplit("::", 1)[-1] if st is not None and st.d else None
        if self_name != sn:
            continue
        if b.trait:
            continue
        out.append(b)
    if not out:
        raise Anchor("public function %s%s of %s not found" % (self_name + "::" if self_name else "", name, crate))
    return out[0]
