use crate::json::J;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId, LOCAL_CRATE};
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::print::{with_no_trimmed_paths, with_resolve_crate_name};
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypeVisitableExt, TypingEnv};
use rustc_span::Span;
use std::collections::{HashMap, HashSet};

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<J>,
    tymap: HashMap<Ty<'tcx>, usize>,
    adts: HashSet<DefId>,
    adtq: Vec<DefId>,
}

pub fn dump<'tcx>(tcx: TyCtxt<'tcx>, dir: &str) {
    let mut cx = Cx { tcx, types: vec![], tymap: HashMap::new(), adts: HashSet::new(), adtq: vec![] };
    let krate = tcx.crate_name(LOCAL_CRATE).to_string();
    let mut bodies = vec![];
    let mut keys: Vec<LocalDefId> = tcx.mir_keys(()).iter().copied().collect();
    keys.sort_by_key(|k| tcx.def_path_hash(k.to_def_id()));
    for &k in keys.iter() {
        if let Some(j) = cx.body(k) {
            bodies.push(j);
        }
    }
    let impls = cx.impls();
    let statics = cx.statics();
    let local_adts = cx.local_adts();
    let traits = cx.traits();
    let exports = cx.exports();
    // the ADT table grows while types are interned
    let mut adts = vec![];
    while let Some(d) = cx.adtq.pop() {
        adts.push(cx.adt(d));
    }
    let test = tcx.sess.opts.test;
    let kinds: Vec<String> = tcx.crate_types().iter().map(|c| format!("{:?}", c)).collect();
    let j = J::O(vec![
        ("crate", J::s(krate.clone())),
        ("test", J::B(test)),
        ("crate_types", J::A(kinds.iter().map(|k| J::s(k.clone())).collect())),
        ("bodies", J::A(bodies)),
        ("impls", impls),
        ("statics", statics),
        ("local_adts", local_adts),
        ("traits", traits),
        ("exports", exports),
        ("adts", J::A(adts)),
        ("types", J::A(cx.types)),
    ]);
    let mut s = String::new();
    j.write(&mut s);
    let kind = if test { "test".to_string() } else { kinds.join("_").to_lowercase() };
    let tmp = format!("{}/.{}-{}.tmp{}", dir, krate, kind, std::process::id());
    std::fs::write(&tmp, s).expect("cannot write facts");
    std::fs::rename(&tmp, format!("{}/{}-{}.json", dir, krate, kind)).expect("cannot rename facts");
}

/// crate::module::Type style path without generic arguments
fn uid(tcx: TyCtxt<'_>, d: DefId) -> String {
    let p = tcx.def_path(d);
    let mut s = tcx.crate_name(d.krate).to_string();
    for e in p.data.iter() {
        s.push_str("::");
        s.push_str(e.as_sym(true).as_str());
    }
    s
}

impl<'tcx> Cx<'tcx> {
    fn head(&self, t: Ty<'tcx>) -> String {
        match t.kind() {
            ty::Adt(a, _) => uid(self.tcx, a.did()),
            ty::Ref(_, t, m) => format!("&{}{}", if m.is_mut() { "mut " } else { "" }, self.head(*t)),
            ty::Slice(_) => "[T]".into(),
            ty::Array(..) => "[T;N]".into(),
            ty::RawPtr(_, m) => format!("*{}", if m.is_mut() { "mut" } else { "const" }),
            ty::Tuple(v) => format!("({})", v.len()),
            ty::Closure(d, _) => format!("{{{}}}", uid(self.tcx, *d)),
            ty::FnDef(d, _) => format!("fn {}", uid(self.tcx, *d)),
            ty::Dynamic(preds, ..) => match preds.principal_def_id() {
                Some(d) => format!("dyn {}", uid(self.tcx, d)),
                None => "dyn".into(),
            },
            _ => with_no_trimmed_paths!(t.to_string()),
        }
    }

    /// readable path: Type::method, <Type as Trait>::method, Trait::method
    fn path(&self, d: DefId) -> String {
        let tcx = self.tcx;
        if tcx.def_kind(d) == DefKind::Closure {
            let k = tcx.def_key(d);
            let p = tcx.parent(d);
            return format!("{}::{}", self.path(p), k.disambiguated_data.as_sym(true));
        }
        if let Some(imp) = tcx.impl_of_assoc(d) {
            let name = tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_default();
            let st = tcx.type_of(imp).instantiate_identity().skip_norm_wip();
            let h = self.head(st);
            return match tcx.impl_opt_trait_ref(imp) {
                Some(tr) => format!("<{} as {}>::{}", h, uid(tcx, tr.skip_binder().def_id), name),
                None => {
                    if matches!(st.kind(), ty::Adt(..)) {
                        format!("{}::{}", h, name)
                    } else {
                        format!("<{}>::{}", h, name)
                    }
                }
            };
        }
        uid(tcx, d)
    }

    fn ty(&mut self, t: Ty<'tcx>) -> J {
        J::I(self.tyid(t) as i128)
    }

    fn tyid(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(i) = self.tymap.get(&t) {
            return *i;
        }
        let i = self.types.len();
        self.tymap.insert(t, i);
        self.types.push(J::Null);
        let tcx = self.tcx;
        let text = with_resolve_crate_name!(with_no_trimmed_paths!(t.to_string()));
        let mut o: Vec<(&'static str, J)> = vec![("s", J::s(text))];
        match t.kind() {
            ty::Bool => o.push(("k", J::s("bool"))),
            ty::Char => o.push(("k", J::s("char"))),
            ty::Str => o.push(("k", J::s("str"))),
            ty::Never => o.push(("k", J::s("never"))),
            ty::Int(x) => {
                o.push(("k", J::s("int")));
                o.push(("n", J::s(x.name_str())));
            }
            ty::Uint(x) => {
                o.push(("k", J::s("int")));
                o.push(("n", J::s(x.name_str())));
            }
            ty::Float(x) => {
                o.push(("k", J::s("float")));
                o.push(("n", J::s(x.name_str())));
            }
            ty::Adt(a, args) => {
                if self.adts.insert(a.did()) {
                    self.adtq.push(a.did());
                }
                o.push(("k", J::s("adt")));
                o.push(("d", J::s(uid(tcx, a.did()))));
                let v: Vec<J> = args.types().map(|t| self.ty(t)).collect();
                o.push(("a", J::A(v)));
            }
            ty::Array(t, n) => {
                o.push(("k", J::s("array")));
                let x = self.ty(*t);
                o.push(("t", x));
                if let Some(n) = n.try_to_target_usize(tcx) {
                    o.push(("len", J::I(n as i128)));
                }
            }
            ty::Slice(t) => {
                o.push(("k", J::s("slice")));
                let x = self.ty(*t);
                o.push(("t", x));
            }
            ty::RawPtr(t, m) => {
                o.push(("k", J::s("ptr")));
                let x = self.ty(*t);
                o.push(("t", x));
                o.push(("m", J::B(m.is_mut())));
            }
            ty::Ref(_, t, m) => {
                o.push(("k", J::s("ref")));
                let x = self.ty(*t);
                o.push(("t", x));
                o.push(("m", J::B(m.is_mut())));
            }
            ty::Tuple(v) => {
                o.push(("k", J::s("tuple")));
                let v: Vec<J> = v.iter().map(|t| self.ty(t)).collect();
                o.push(("a", J::A(v)));
            }
            ty::FnDef(d, args) => {
                o.push(("k", J::s("fndef")));
                o.push(("d", J::s(uid(tcx, *d))));
                let g: Vec<J> = args.skip_binder().types().map(|t| self.ty(t)).collect();
                o.push(("g", J::A(g)));
            }
            ty::FnPtr(..) => {
                o.push(("k", J::s("fnptr")));
                let sig = t.fn_sig(tcx).skip_binder();
                let v: Vec<J> = sig.inputs_and_output.iter().map(|t| self.ty(t)).collect();
                o.push(("a", J::A(v)));
            }
            ty::Closure(d, args) => {
                o.push(("k", J::s("closure")));
                o.push(("d", J::s(uid(tcx, *d))));
                let v: Vec<J> = args.as_closure().upvar_tys().iter().map(|t| self.ty(t)).collect();
                o.push(("a", J::A(v)));
                let pa = self.tcx.mk_args(args.as_closure().parent_args());
                let g: Vec<J> = pa.types().map(|t| self.ty(t)).collect();
                o.push(("g", J::A(g)));
            }
            ty::Dynamic(preds, ..) => {
                o.push(("k", J::s("dyn")));
                if let Some(d) = preds.principal_def_id() {
                    o.push(("d", J::s(uid(tcx, d))));
                }
            }
            ty::Param(p) => {
                o.push(("k", J::s("param")));
                o.push(("n", J::s(p.name.to_string())));
                o.push(("i", J::I(p.index as i128)));
            }
            ty::Alias(..) => o.push(("k", J::s("alias"))),
            _ => o.push(("k", J::s("other"))),
        }
        self.types[i] = J::O(o);
        i
    }

    fn adt(&mut self, d: DefId) -> J {
        let tcx = self.tcx;
        let a = tcx.adt_def(d);
        let mut vs = vec![];
        let discrs: Vec<i128> = if a.is_enum() {
            a.discriminants(tcx).map(|(_, x)| x.val as i128).collect()
        } else {
            vec![]
        };
        let local = d.is_local() || tcx.crate_name(d.krate).to_string().starts_with("dochy");
        let few = a.variants().len() <= 64;
        for (i, v) in a.variants().iter().enumerate() {
            let mut fs = vec![];
            if few {
                for f in v.fields.iter() {
                    let ft = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                    let t = if local || a.is_enum() { self.ty(ft) } else { J::Null };
                    fs.push(J::O(vec![
                        ("n", J::s(f.name.to_string())),
                        ("t", t),
                        ("pub", J::B(f.vis.is_public())),
                    ]));
                }
            }
            vs.push(J::O(vec![
                ("n", J::s(v.name.to_string())),
                ("d", discrs.get(i).map(|x| J::I(*x)).unwrap_or(J::Null)),
                ("f", J::A(fs)),
            ]));
        }
        let gens: Vec<J> = {
            let g = tcx.generics_of(d);
            (0..g.count())
                .map(|i| g.param_at(i, tcx))
                .filter(|p| matches!(p.kind, ty::GenericParamDefKind::Type { .. }))
                .map(|p| J::s(p.name.to_string()))
                .collect()
        };
        J::O(vec![
            ("d", J::s(uid(tcx, d))),
            ("k", J::s(if a.is_enum() { "enum" } else if a.is_union() { "union" } else { "struct" })),
            ("g", J::A(gens)),
            ("v", J::A(vs)),
            ("pub", J::B(tcx.visibility(d).is_public())),
        ])
    }

    fn local_adts(&mut self) -> J {
        let tcx = self.tcx;
        let mut out = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            let d = id.to_def_id();
            if matches!(tcx.def_kind(d), DefKind::Struct | DefKind::Enum | DefKind::Union) {
                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let eff = tcx.effective_visibilities(()).is_reachable(id);
                let x = J::O(vec![
                    ("d", J::s(uid(tcx, d))),
                    ("t", self.ty(t)),
                    ("eff", J::B(eff)),
                    ("span", self.span(tcx.def_span(d))),
                ]);
                out.push(x);
            }
        }
        J::A(out)
    }

    fn traits(&mut self) -> J {
        let tcx = self.tcx;
        let mut out = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            let d = id.to_def_id();
            if tcx.def_kind(d) == DefKind::Trait {
                let items: Vec<J> = tcx
                    .associated_items(d)
                    .in_definition_order()
                    .map(|i| J::s(uid(tcx, i.def_id)))
                    .collect();
                out.push(J::O(vec![("d", J::s(uid(tcx, d))), ("items", J::A(items))]));
            }
        }
        J::A(out)
    }

    fn exports(&mut self) -> J {
        // items reachable by name from outside the crate
        let tcx = self.tcx;
        let mut out = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            let d = id.to_def_id();
            if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
                let e = tcx.effective_visibilities(());
                if e.is_reachable(id) {
                    out.push(J::s(uid(tcx, d)));
                }
            }
        }
        J::A(out)
    }

    fn impls(&mut self) -> J {
        let tcx = self.tcx;
        let mut out = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            let d = id.to_def_id();
            if let DefKind::Impl { of_trait } = tcx.def_kind(d) {
                let st = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let (tr, neg, targs) = if of_trait {
                    let t = tcx.impl_trait_ref(d).instantiate_identity().skip_norm_wip();
                    let neg = tcx.impl_polarity(d) == ty::ImplPolarity::Negative;
                    let targs: Vec<J> = t.args.types().map(|t| self.ty(t)).collect();
                    (J::s(uid(tcx, t.def_id)), neg, J::A(targs))
                } else {
                    (J::Null, false, J::Null)
                };
                let mut items = vec![];
                for i in tcx.associated_items(d).in_definition_order() {
                    let name = i.opt_name().map(|s| J::s(s.to_string())).unwrap_or(J::Null);
                    let tr_item = i.trait_item_def_id().map(|d| J::s(uid(tcx, d)));
                    items.push(J::O(vec![
                        ("n", name),
                        ("d", J::s(uid(tcx, i.def_id))),
                        ("of", J::opt(tr_item)),
                    ]));
                }
                let preds: Vec<J> = tcx
                    .clauses_of(d)
                    .instantiate_identity(tcx)
                    .clauses
                    .iter()
                    .map(|p| J::s(with_no_trimmed_paths!(format!("{:?}", p))))
                    .collect();
                let derived = tcx.is_automatically_derived(d);
                let x = J::O(vec![
                    ("d", J::s(uid(tcx, d))),
                    ("trait", tr),
                    ("targs", targs),
                    ("self", self.ty(st)),
                    ("neg", J::B(neg)),
                    ("derived", J::B(derived)),
                    ("items", J::A(items)),
                    ("preds", J::A(preds)),
                    ("span", self.span(tcx.def_span(d))),
                ]);
                out.push(x);
            }
        }
        J::A(out)
    }

    fn statics(&mut self) -> J {
        let tcx = self.tcx;
        let mut out = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            let d = id.to_def_id();
            if let DefKind::Static { .. } = tcx.def_kind(d) {
                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let x = J::O(vec![
                    ("d", J::s(uid(tcx, d))),
                    ("t", self.ty(t)),
                    ("mut", J::B(tcx.is_mutable_static(d))),
                    ("span", self.span(tcx.def_span(d))),
                ]);
                out.push(x);
            }
        }
        J::A(out)
    }

    fn span(&self, s: Span) -> J {
        let s = s.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(s.lo());
        J::s(format!("{}:{}", lo.file.name.prefer_local_unconditionally(), lo.line))
    }

    fn body(&mut self, k: LocalDefId) -> Option<J> {
        let tcx = self.tcx;
        let d = k.to_def_id();
        let kind = tcx.def_kind(d);
        let (body, kd): (&Body<'tcx>, &str) = match kind {
            DefKind::Fn | DefKind::AssocFn => (tcx.optimized_mir(d), "fn"),
            DefKind::Closure => (tcx.optimized_mir(d), "closure"),
            DefKind::Ctor(..) => return None,
            DefKind::Static { .. } => (tcx.mir_for_ctfe(d), "static"),
            DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::AnonConst => {
                (tcx.mir_for_ctfe(d), "const")
            }
            _ => return None,
        };
        let mut o = vec![];
        o.push(("d", J::s(uid(tcx, d))));
        o.push(("p", J::s(self.path(d))));
        o.push(("k", J::s(kd)));
        o.push(("span", self.span(tcx.def_span(d))));
        o.push(("name", J::opt(tcx.opt_item_name(d).map(|n| J::s(n.to_string())))));
        o.push(("parent", J::opt(tcx.opt_parent(d).map(|p| J::s(uid(tcx, p))))));
        if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
            o.push(("pub", J::B(tcx.visibility(d).is_public())));
            let eff = tcx.effective_visibilities(()).is_reachable(k);
            o.push(("eff", J::B(eff)));
            let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip();
            o.push(("unsafe", J::B(!sig.safety().is_safe())));
            if let Some(imp) = tcx.impl_of_assoc(d) {
                let st = tcx.type_of(imp).instantiate_identity().skip_norm_wip();
                let t = self.ty(st);
                o.push(("self_ty", t));
                if let Some(tr) = tcx.impl_opt_trait_ref(imp) {
                    o.push(("trait", J::s(uid(tcx, tr.skip_binder().def_id))));
                }
            }
            o.push(("const", J::B(tcx.is_const_fn(d))));
            let sigs = with_no_trimmed_paths!(format!("{}", tcx.fn_sig(d).instantiate_identity().skip_norm_wip()));
            o.push(("sig", J::s(sigs)));
        }
        {
            let g = tcx.generics_of(d);
            let mut names = vec![];
            for i in 0..g.count() {
                let p = g.param_at(i, tcx);
                if matches!(p.kind, ty::GenericParamDefKind::Type { .. }) {
                    names.push(J::s(p.name.to_string()));
                }
            }
            o.push(("generics", J::A(names)));
        }
        self.body_core(d, body, &mut o);
        if kd != "const" && kd != "static" {
            let prom = tcx.promoted_mir(d);
            let mut ps = vec![];
            for b in prom.iter() {
                let mut po = vec![];
                self.body_core(d, b, &mut po);
                ps.push(J::O(po));
            }
            o.push(("promoted", J::A(ps)));
        }
        Some(J::O(o))
    }

    fn body_core(&mut self, d: DefId, body: &Body<'tcx>, o: &mut Vec<(&'static str, J)>) {
        let tcx = self.tcx;
        let env = TypingEnv::post_analysis(tcx, d);
        o.push(("argc", J::I(body.arg_count as i128)));
        let mut names: HashMap<usize, String> = HashMap::new();
        let mut dbg = vec![];
        for v in body.var_debug_info.iter() {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.insert(p.local.as_usize(), v.name.to_string());
                } else {
                    let pl = self.place(&p);
                    dbg.push(J::O(vec![("n", J::s(v.name.to_string())), ("pl", pl)]));
                }
            }
        }
        let mut locals = vec![];
        for (l, decl) in body.local_decls.iter_enumerated() {
            let t = self.ty(decl.ty);
            let mut lo = vec![("t", t)];
            if let Some(n) = names.get(&l.as_usize()) {
                lo.push(("n", J::s(n.clone())));
            }
            locals.push(J::O(lo));
        }
        o.push(("locals", J::A(locals)));
        o.push(("upvars", J::A(dbg)));
        let mut blocks = vec![];
        for (_, b) in body.basic_blocks.iter_enumerated() {
            let mut st = vec![];
            for s in b.statements.iter() {
                if let Some(j) = self.stmt(env, body, s) {
                    st.push(j);
                }
            }
            let t = self.term(env, body, b.terminator());
            blocks.push(J::O(vec![("s", J::A(st)), ("t", t), ("c", J::B(b.is_cleanup))]));
        }
        o.push(("blocks", J::A(blocks)));
    }

    fn line(&self, s: Span) -> J {
        let s = s.source_callsite();
        let lo = self.tcx.sess.source_map().lookup_char_pos(s.lo());
        J::I(lo.line as i128)
    }

    fn stmt(&mut self, env: TypingEnv<'tcx>, body: &Body<'tcx>, s: &Statement<'tcx>) -> Option<J> {
        let ln = self.line(s.source_info.span);
        Some(match &s.kind {
            StatementKind::Assign(b) => {
                let (p, r) = &**b;
                let pl = self.place(p);
                let rv = self.rvalue(env, body, r);
                J::O(vec![("k", J::s("=")), ("pl", pl), ("rv", rv), ("ln", ln)])
            }
            StatementKind::SetDiscriminant { place, variant_index } => {
                let pl = self.place(place);
                J::O(vec![
                    ("k", J::s("setdiscr")),
                    ("pl", pl),
                    ("v", J::I(variant_index.as_u32() as i128)),
                    ("ln", ln),
                ])
            }
            StatementKind::StorageDead(l) => {
                J::O(vec![("k", J::s("dead")), ("l", J::I(l.as_usize() as i128))])
            }
            StatementKind::StorageLive(l) => {
                J::O(vec![("k", J::s("live")), ("l", J::I(l.as_usize() as i128))])
            }
            StatementKind::Intrinsic(..) => J::O(vec![("k", J::s("intrinsic")), ("ln", ln)]),
            _ => return None,
        })
    }

    fn place(&mut self, p: &Place<'tcx>) -> J {
        let mut v = vec![];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => J::A(vec![J::s("*")]),
                ProjectionElem::Field(f, t) => {
                    let t = self.ty(t);
                    J::A(vec![J::s("f"), J::I(f.as_u32() as i128), t])
                }
                ProjectionElem::Index(l) => J::A(vec![J::s("i"), J::I(l.as_usize() as i128)]),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    J::A(vec![J::s("c"), J::I(offset as i128), J::B(from_end)])
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    J::A(vec![J::s("s"), J::I(from as i128), J::I(to as i128), J::B(from_end)])
                }
                ProjectionElem::Downcast(_, v) => J::A(vec![J::s("v"), J::I(v.as_u32() as i128)]),
                _ => J::A(vec![J::s("?")]),
            });
        }
        J::A(vec![J::I(p.local.as_usize() as i128), J::A(v)])
    }

    fn operand(&mut self, env: TypingEnv<'tcx>, o: &Operand<'tcx>) -> J {
        match o {
            Operand::Copy(p) => J::A(vec![J::s("cp"), self.place(p)]),
            Operand::Move(p) => J::A(vec![J::s("mv"), self.place(p)]),
            Operand::Constant(c) => J::A(vec![J::s("c"), self.konst(env, c)]),
            _ => J::A(vec![J::s("rtc")]),
        }
    }

    fn konst(&mut self, env: TypingEnv<'tcx>, c: &ConstOperand<'tcx>) -> J {
        let tcx = self.tcx;
        let t = c.const_.ty();
        let tj = self.ty(t);
        let mut o = vec![("t", tj)];
        if let ty::FnDef(d, args) = t.kind() {
            let args = args.skip_binder();
            let f = self.callee(env, *d, args);
            o.push(("fn", f));
            return J::O(o);
        }
        if let Const::Unevaluated(u, _) = c.const_ {
            o.push(("def", J::s(uid(tcx, u.def))));
            if let Some(p) = u.promoted {
                o.push(("promoted", J::I(p.as_u32() as i128)));
            }
        }
        let generic = c.const_.has_non_region_param();
        if generic {
            o.push(("generic", J::B(true)));
            return J::O(o);
        }
        match c.const_.eval(tcx, env, c.span) {
            Ok(v) => {
                if let Some(j) = self.cval(v, t, 0) {
                    o.push(("v", j));
                }
            }
            Err(_) => o.push(("err", J::B(true))),
        }
        J::O(o)
    }

    fn cval(&mut self, v: ConstValue, t: Ty<'tcx>, _depth: usize) -> Option<J> {
        let tcx = self.tcx;
        match v {
            ConstValue::Scalar(Scalar::Int(i)) => {
                let n: i128 = match t.kind() {
                    ty::Int(_) => i.to_int(i.size()),
                    _ => i.to_uint(i.size()) as i128,
                };
                Some(J::I(n))
            }
            ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                let (prov, off) = p.into_raw_parts();
                match tcx.global_alloc(prov.alloc_id()) {
                    GlobalAlloc::Static(d) => Some(J::O(vec![("static", J::s(uid(tcx, d)))])),
                    GlobalAlloc::Function { instance } => {
                        Some(J::O(vec![("fnptr", J::s(uid(tcx, instance.def_id())))]))
                    }
                    GlobalAlloc::Memory(a) => {
                        let a = a.inner();
                        if a.provenance().ptrs().is_empty() && off.bytes() == 0 {
                            let n = a.len();
                            if n <= 4096 {
                                let b = a.inspect_with_uninit_and_ptr_outside_interpreter(0..n);
                                return Some(J::O(vec![(
                                    "bytes",
                                    J::A(b.iter().map(|x| J::I(*x as i128)).collect()),
                                )]));
                            }
                        }
                        Some(J::O(vec![("mem", J::B(true))]))
                    }
                    _ => None,
                }
            }
            ConstValue::ZeroSized => Some(J::O(vec![("zst", J::B(true))])),
            ConstValue::Slice { .. } => {
                if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                    let is_str = matches!(t.kind(), ty::Ref(_, i, _) if i.is_str());
                    if is_str {
                        return Some(J::O(vec![("str", J::s(String::from_utf8_lossy(b).to_string()))]));
                    }
                    return Some(J::O(vec![(
                        "bytes",
                        J::A(b.iter().map(|x| J::I(*x as i128)).collect()),
                    )]));
                }
                None
            }
            ConstValue::Indirect { alloc_id, offset } => {
                if let GlobalAlloc::Memory(a) = tcx.global_alloc(alloc_id) {
                    let a = a.inner();
                    if a.provenance().ptrs().is_empty() && offset.bytes() == 0 && a.len() <= 4096 {
                        let b = a.inspect_with_uninit_and_ptr_outside_interpreter(0..a.len());
                        return Some(J::O(vec![(
                            "bytes",
                            J::A(b.iter().map(|x| J::I(*x as i128)).collect()),
                        )]));
                    }
                }
                Some(J::O(vec![("mem", J::B(true))]))
            }
        }
    }

    fn callee(&mut self, env: TypingEnv<'tcx>, d: DefId, args: ty::GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let targs: Vec<J> = args.types().map(|t| self.ty(t)).collect();
        let mut o = vec![("d", J::s(uid(tcx, d))), ("p", J::s(self.path(d))), ("a", J::A(targs))];
        if let DefKind::Ctor(..) = tcx.def_kind(d) {
            o.push(("ctor", J::B(true)));
            let p = tcx.parent(d);
            o.push(("of", J::s(uid(tcx, p))));
            if tcx.def_kind(p) == DefKind::Variant {
                let a = tcx.parent(p);
                let adt = tcx.adt_def(a);
                o.push(("adt", J::s(uid(tcx, a))));
                o.push(("vi", J::I(adt.variant_index_with_id(p).as_u32() as i128)));
            } else {
                o.push(("adt", J::s(uid(tcx, p))));
                o.push(("vi", J::I(0)));
            }
            return J::O(o);
        }
        if let Some(tr) = tcx.trait_of_assoc(d) {
            o.push(("trait", J::s(uid(tcx, tr))));
            let st = args.type_at(0);
            let s = self.ty(st);
            o.push(("self", s));
        }
        let eargs = tcx.erase_and_anonymize_regions(args);
        if let Ok(Some(inst)) = Instance::try_resolve(tcx, env, d, eargs) {
            let rd = inst.def_id();
            let shim = !matches!(inst.def, ty::InstanceKind::Item(_));
            if shim {
                o.push(("shim", J::s(format!("{:?}", inst.def).split('(').next().unwrap_or("").to_string())));
            }
            if rd != d {
                o.push(("rd", J::s(uid(tcx, rd))));
                o.push(("rp", J::s(self.path(rd))));
                let ra: Vec<J> = inst.args.types().map(|t| self.ty(t)).collect();
                o.push(("ra", J::A(ra)));
            }
        }
        J::O(o)
    }

    fn rvalue(&mut self, env: TypingEnv<'tcx>, body: &Body<'tcx>, r: &Rvalue<'tcx>) -> J {
        let tcx = self.tcx;
        match r {
            Rvalue::Use(o, _) => J::A(vec![J::s("use"), self.operand(env, o)]),
            Rvalue::Repeat(o, n) => {
                let n = n.try_to_target_usize(tcx).map(|x| J::I(x as i128));
                J::A(vec![J::s("rep"), self.operand(env, o), J::opt(n)])
            }
            Rvalue::Ref(_, bk, p) => {
                let m = matches!(bk, BorrowKind::Mut { .. });
                J::A(vec![J::s("ref"), J::B(m), self.place(p)])
            }
            Rvalue::RawPtr(k, p) => {
                J::A(vec![J::s("raw"), J::B(matches!(k, RawPtrKind::Mut)), self.place(p)])
            }
            Rvalue::ThreadLocalRef(d) => J::A(vec![J::s("tls"), J::s(uid(tcx, *d))]),
            Rvalue::Cast(k, o, t) => {
                let ks = format!("{:?}", k);
                let fnd = if let Operand::Constant(c) = o {
                    if let ty::FnDef(..) = c.const_.ty().kind() { true } else { false }
                } else {
                    false
                };
                let _ = fnd;
                let from = o.ty(&body.local_decls, tcx);
                J::A(vec![J::s("cast"), J::s(ks), self.operand(env, o), self.ty(*t), self.ty(from)])
            }
            Rvalue::BinaryOp(op, b) => {
                let t = b.0.ty(&body.local_decls, tcx);
                J::A(vec![
                    J::s("bin"),
                    J::s(format!("{:?}", op)),
                    self.operand(env, &b.0),
                    self.operand(env, &b.1),
                    self.ty(t),
                ])
            }
            Rvalue::UnaryOp(op, a) => {
                J::A(vec![J::s("un"), J::s(format!("{:?}", op)), self.operand(env, a)])
            }
            Rvalue::Discriminant(p) => {
                let t = p.ty(&body.local_decls, tcx).ty;
                J::A(vec![J::s("discr"), self.place(p), self.ty(t)])
            }
            Rvalue::Aggregate(k, ops) => {
                let v: Vec<J> = ops.iter().map(|x| self.operand(env, x)).collect();
                let kk = match &**k {
                    AggregateKind::Array(t) => J::A(vec![J::s("array"), self.ty(*t)]),
                    AggregateKind::Tuple => J::A(vec![J::s("tuple")]),
                    AggregateKind::Adt(d, vi, args, _, _) => {
                        let t = tcx.type_of(*d).instantiate(tcx, args).skip_norm_wip();
                        J::A(vec![
                            J::s("adt"),
                            J::s(uid(tcx, *d)),
                            J::I(vi.as_u32() as i128),
                            self.ty(t),
                        ])
                    }
                    AggregateKind::Closure(d, _) => J::A(vec![J::s("closure"), J::s(uid(tcx, *d))]),
                    _ => J::A(vec![J::s("other")]),
                };
                J::A(vec![J::s("agg"), kk, J::A(v)])
            }
            Rvalue::CopyForDeref(p) => {
                let pl = self.place(p);
                J::A(vec![J::s("use"), J::A(vec![J::s("cp"), pl])])
            }
            Rvalue::Reborrow(_, m, p) => J::A(vec![J::s("ref"), J::B(m.is_mut()), self.place(p)]),
            _ => J::A(vec![J::s("other")]),
        }
    }

    fn term(&mut self, env: TypingEnv<'tcx>, body: &Body<'tcx>, t: &Terminator<'tcx>) -> J {
        let ln = self.line(t.source_info.span);
        let bb = |b: BasicBlock| J::I(b.as_usize() as i128);
        let mut o: Vec<(&'static str, J)> = vec![];
        match &t.kind {
            TerminatorKind::Goto { target, .. } => {
                o.push(("k", J::s("goto")));
                o.push(("to", bb(*target)));
            }
            TerminatorKind::SwitchInt { discr, targets } => {
                o.push(("k", J::s("switch")));
                let dt = discr.ty(&body.local_decls, self.tcx);
                o.push(("on", self.operand(env, discr)));
                o.push(("t", self.ty(dt)));
                let v: Vec<J> =
                    targets.iter().map(|(v, b)| J::A(vec![J::I(v as i128), bb(b)])).collect();
                o.push(("cases", J::A(v)));
                o.push(("else", bb(targets.otherwise())));
            }
            TerminatorKind::Return => o.push(("k", J::s("return"))),
            TerminatorKind::Unreachable => o.push(("k", J::s("unreachable"))),
            TerminatorKind::UnwindResume => o.push(("k", J::s("resume"))),
            TerminatorKind::Drop { place, target, .. } => {
                o.push(("k", J::s("drop")));
                let ty = place.ty(&body.local_decls, self.tcx).ty;
                o.push(("pl", self.place(place)));
                o.push(("t", self.ty(ty)));
                o.push(("to", bb(*target)));
            }
            TerminatorKind::Call { func, args, destination, target, .. } => {
                o.push(("k", J::s("call")));
                o.push(("f", self.operand(env, func)));
                let v: Vec<J> = args.iter().map(|a| self.operand(env, &a.node)).collect();
                o.push(("args", J::A(v)));
                o.push(("dst", self.place(destination)));
                o.push(("to", J::opt(target.map(bb))));
            }
            TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                o.push(("k", J::s("assert")));
                o.push(("cond", self.operand(env, cond)));
                o.push(("exp", J::B(*expected)));
                let m = match &**msg {
                    AssertKind::BoundsCheck { .. } => "bounds",
                    AssertKind::Overflow(..) => "overflow",
                    AssertKind::OverflowNeg(..) => "overflow",
                    AssertKind::DivisionByZero(..) => "divzero",
                    AssertKind::RemainderByZero(..) => "remzero",
                    _ => "other",
                };
                o.push(("msg", J::s(m)));
                o.push(("to", bb(*target)));
            }
            TerminatorKind::FalseEdge { real_target, .. } => {
                o.push(("k", J::s("goto")));
                o.push(("to", bb(*real_target)));
            }
            TerminatorKind::FalseUnwind { real_target, .. } => {
                o.push(("k", J::s("goto")));
                o.push(("to", bb(*real_target)));
            }
            _ => o.push(("k", J::s("other"))),
        }
        o.push(("ln", ln));
        J::O(o)
    }
}
