//! rustc_private driver: dumps the resolved program (types, impls, MIR bodies,
//! resolved callees) of the crate `procedural_modelling` as one JSON file.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_driver_impl;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::mir::*;
use rustc_middle::ty::{self, Ty, TyCtxt, TypingEnv};
use std::fmt::Write as _;

mod json;
use json::J;

struct Cb;

impl rustc_driver_impl::Callbacks for Cb {
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> rustc_driver_impl::Compilation {
        let out = std::env::var("VERIF_FACTS_OUT").unwrap();
        let j = dump(tcx);
        let mut s = String::new();
        j.write(&mut s);
        let tmp = format!("{}.tmp{}", out, std::process::id());
        std::fs::write(&tmp, s).unwrap();
        std::fs::rename(&tmp, &out).unwrap();
        rustc_driver_impl::Compilation::Continue
    }
}

fn did(tcx: TyCtxt<'_>, d: DefId) -> String {
    let k = tcx.crate_name(d.krate);
    format!("{}{}", k, tcx.def_path(d).to_string_no_crate_verbose())
}

fn name(tcx: TyCtxt<'_>, d: DefId) -> String {
    rustc_middle::ty::print::with_no_trimmed_paths!(tcx.def_path_str(d))
}

fn tystr(t: Ty<'_>) -> String {
    rustc_middle::ty::print::with_no_trimmed_paths!(format!("{}", t))
}

fn span_j(tcx: TyCtxt<'_>, sp: rustc_span::Span) -> J {
    let root = sp.source_callsite();
    let lo = tcx.sess.source_map().lookup_char_pos(root.lo());
    let f = format!("{}", lo.file.name.prefer_local_unconditionally());
    let mut macros = vec![];
    for e in sp.macro_backtrace() {
        macros.push(J::S(e.kind.descr().to_string()));
    }
    let mut v = vec![J::S(f), J::I(lo.line as i128)];
    if !macros.is_empty() {
        v.push(J::A(macros));
    }
    J::A(v)
}

fn adt_of(tcx: TyCtxt<'_>, t: Ty<'_>) -> J {
    match t.peel_refs().kind() {
        ty::Adt(a, _) => J::S(did(tcx, a.did())),
        ty::Param(p) => J::S(format!("param:{}", p.name)),
        _ => J::Null,
    }
}

struct Ctx<'tcx> {
    tcx: TyCtxt<'tcx>,
    te: TypingEnv<'tcx>,
}

impl<'tcx> Ctx<'tcx> {
    fn callee(&self, d: DefId, args: ty::GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let mut o = vec![
            ("id", J::S(did(tcx, d))),
            ("name", J::S(name(tcx, d))),
            ("local", J::B(d.is_local())),
        ];
        let mut a = vec![];
        for x in args.iter() {
            if let Some(t) = x.as_type() {
                let t = tcx.try_normalize_erasing_regions(self.te, ty::Unnormalized::new(t)).unwrap_or(t);
                a.push(J::S(tystr(t)));
            }
        }
        let ca: Vec<J> = args
            .iter()
            .filter_map(|x| x.as_const())
            .map(|k| J::S(rustc_middle::ty::print::with_no_trimmed_paths!(format!("{}", k))))
            .collect();
        if !ca.is_empty() {
            o.push(("cargs", J::A(ca)));
        }
        o.push(("args", J::A(a)));
        // closures among generic args
        let mut cl = vec![];
        for x in args.iter() {
            if let Some(t) = x.as_type() {
                if let ty::Closure(cd, _) = t.kind() {
                    cl.push(J::S(did(tcx, *cd)));
                }
            }
        }
        if !cl.is_empty() {
            o.push(("closures", J::A(cl)));
        }
        if let Some(tr) = tcx.trait_of_assoc(d) {
            o.push(("trait", J::S(did(tcx, tr))));
            let st = args.type_at(0);
            let st = tcx.try_normalize_erasing_regions(self.te, ty::Unnormalized::new(st)).unwrap_or(st);
            o.push(("self_ty", J::S(tystr(st))));
            o.push(("self_adt", adt_of(tcx, st)));
            if let ty::Closure(cd, _) = st.peel_refs().kind() {
                o.push(("self_closure", J::S(did(tcx, *cd))));
            }
        }
        let er = tcx.erase_and_anonymize_regions(args);
        if let Ok(Some(inst)) = ty::Instance::try_resolve(tcx, self.te, d, er) {
            let rd = inst.def_id();
            if rd != d {
                o.push(("resolved", J::S(did(tcx, rd))));
                o.push(("resolved_name", J::S(name(tcx, rd))));
            }
        }
        J::O(o)
    }

    fn place(&self, body: &Body<'tcx>, p: &Place<'tcx>) -> J {
        let tcx = self.tcx;
        let mut v = vec![J::I(p.local.as_u32() as i128)];
        for (base, el) in p.iter_projections() {
            let pt = base.ty(&body.local_decls, tcx);
            v.push(match el {
                ProjectionElem::Deref => J::S("*".into()),
                ProjectionElem::Field(f, _) => {
                    let fname = match pt.ty.kind() {
                        ty::Adt(ad, _) => {
                            let vi = pt.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                            if ad.is_union() || ad.is_struct() || ad.is_enum() {
                                ad.variant(vi).fields[f].name.to_string()
                            } else {
                                format!("{}", f.as_u32())
                            }
                        }
                        _ => format!("{}", f.as_u32()),
                    };
                    J::S(format!(".{}", fname))
                }
                ProjectionElem::Index(l) => J::A(vec![J::S("idx".into()), J::I(l.as_u32() as i128)]),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => J::A(vec![
                    J::S("cidx".into()),
                    J::I(offset as i128),
                    J::B(from_end),
                ]),
                ProjectionElem::Downcast(n, i) => {
                    let s = n.map(|x| x.to_string()).unwrap_or(format!("{}", i.as_u32()));
                    J::S(format!("@{}", s))
                }
                _ => J::S("?".into()),
            });
        }
        J::A(v)
    }

    fn constant(&self, c: &ConstOperand<'tcx>) -> J {
        let tcx = self.tcx;
        let t = c.const_.ty();
        let mut o = vec![("k", J::S("const".into())), ("ty", J::S(tystr(t)))];
        match t.kind() {
            ty::FnDef(d, args) => {
                o.push(("fn", self.callee(*d, args.no_bound_vars().unwrap_or(args.skip_binder()))));
                return J::O(o);
            }
            ty::Closure(d, _) => {
                o.push(("closure", J::S(did(tcx, *d))));
                return J::O(o);
            }
            _ => {}
        }
        if let Const::Unevaluated(u, _) = c.const_ {
            if let Some(p) = u.promoted {
                o.push(("promoted", J::I(p.as_u32() as i128)));
                return J::O(o);
            }
            o.push(("def", J::S(did(tcx, u.def))));
        }
        if t.is_integral() || t.is_bool() || t.is_char() || t.is_floating_point() {
            if let Some(s) = c.const_.try_eval_scalar_int(tcx, self.te) {
                let sz = s.size();
                let bits = s.to_bits(sz);
                if t.is_signed() {
                    o.push(("v", J::S(format!("{}", sz.sign_extend(bits)))));
                } else if t.is_floating_point() {
                    if sz.bytes() == 4 {
                        o.push(("v", J::S(format!("{:?}", f32::from_bits(bits as u32)))));
                    } else {
                        o.push(("v", J::S(format!("{:?}", f64::from_bits(bits as u64)))));
                    }
                } else {
                    o.push(("v", J::S(format!("{}", bits))));
                }
                return J::O(o);
            }
        }
        let mut s = String::new();
        let _ = write!(s, "{}", c.const_);
        o.push(("str", J::S(s)));
        J::O(o)
    }

    fn operand(&self, body: &Body<'tcx>, op: &Operand<'tcx>) -> J {
        match op {
            Operand::Copy(p) => J::O(vec![("k", J::S("copy".into())), ("p", self.place(body, p))]),
            Operand::Move(p) => J::O(vec![("k", J::S("move".into())), ("p", self.place(body, p))]),
            Operand::Constant(c) => self.constant(c),
            #[allow(unreachable_patterns)]
            _ => J::O(vec![("k", J::S("rt".into())), ("str", J::S(format!("{:?}", op)))]),
        }
    }

    fn rvalue(&self, body: &Body<'tcx>, r: &Rvalue<'tcx>) -> J {
        let tcx = self.tcx;
        match r {
            Rvalue::Use(o, ..) => J::O(vec![("k", J::S("use".into())), ("o", self.operand(body, o))]),
            Rvalue::Repeat(o, n) => J::O(vec![
                ("k", J::S("repeat".into())),
                ("o", self.operand(body, o)),
                ("n", J::S(format!("{}", n))),
            ]),
            Rvalue::Ref(_, bk, p) => J::O(vec![
                ("k", J::S("ref".into())),
                ("mut", J::B(matches!(bk, BorrowKind::Mut { .. }))),
                ("p", self.place(body, p)),
            ]),
            Rvalue::RawPtr(k, p) => J::O(vec![
                ("k", J::S("raw".into())),
                ("mut", J::B(matches!(k, RawPtrKind::Mut))),
                ("p", self.place(body, p)),
            ]),
            Rvalue::Cast(k, o, t) => J::O(vec![
                ("k", J::S("cast".into())),
                ("kind", J::S(format!("{:?}", k))),
                ("o", self.operand(body, o)),
                ("from", J::S(tystr(o.ty(&body.local_decls, tcx)))),
                ("ty", J::S(tystr(*t))),
            ]),
            Rvalue::BinaryOp(b, ops) => J::O(vec![
                ("k", J::S("bin".into())),
                ("op", J::S(format!("{:?}", b))),
                ("a", self.operand(body, &ops.0)),
                ("b", self.operand(body, &ops.1)),
            ]),
            Rvalue::UnaryOp(u, o) => J::O(vec![
                ("k", J::S("un".into())),
                ("op", J::S(format!("{:?}", u))),
                ("a", self.operand(body, o)),
            ]),
            Rvalue::Discriminant(p) => {
                J::O(vec![
                    ("k", J::S("discr".into())),
                    ("p", self.place(body, p)),
                    ("ty", J::S(tystr(p.ty(&body.local_decls, tcx).ty))),
                ])
            }
            Rvalue::Aggregate(kind, ops) => {
                let mut o = vec![("k", J::S("agg".into()))];
                match &**kind {
                    AggregateKind::Array(_) => o.push(("agg", J::S("array".into()))),
                    AggregateKind::Tuple => o.push(("agg", J::S("tuple".into()))),
                    AggregateKind::Adt(d, vi, _, _, _) => {
                        o.push(("agg", J::S("adt".into())));
                        let ad = tcx.adt_def(*d);
                        o.push(("adt", J::S(did(tcx, *d))));
                        o.push(("variant", J::S(ad.variant(*vi).name.to_string())));
                        o.push(("fields", J::A(ad.variant(*vi).fields.iter().map(|f| J::S(f.name.to_string())).collect())));
                    }
                    AggregateKind::Closure(d, _) => {
                        o.push(("agg", J::S("closure".into())));
                        o.push(("def", J::S(did(tcx, *d))));
                    }
                    other => o.push(("agg", J::S(format!("{:?}", other)))),
                }
                o.push(("ops", J::A(ops.iter().map(|x| self.operand(body, x)).collect())));
                J::O(o)
            }
            Rvalue::CopyForDeref(p) => J::O(vec![
                ("k", J::S("use".into())),
                ("o", J::O(vec![("k", J::S("copy".into())), ("p", self.place(body, p))])),
            ]),
            other => J::O(vec![("k", J::S("other".into())), ("str", J::S(format!("{:?}", other)))]),
        }
    }

    fn body(&self, body: &Body<'tcx>) -> J {
        let tcx = self.tcx;
        let mut names = std::collections::HashMap::new();
        let mut dbg = vec![];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.insert(p.local, v.name.to_string());
                } else {
                    dbg.push(J::A(vec![J::S(v.name.to_string()), self.place(body, &p)]));
                }
            }
        }
        let locals = body
            .local_decls
            .iter_enumerated()
            .map(|(l, d)| {
                let mut v = vec![("ty", J::S(tystr(d.ty)))];
                v.push(("adt", adt_of(tcx, d.ty)));
                if let Some(n) = names.get(&l) {
                    v.push(("name", J::S(n.clone())));
                }
                J::O(v)
            })
            .collect();
        let mut blocks = vec![];
        for (_, bb) in body.basic_blocks.iter_enumerated() {
            let mut st = vec![];
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(b) => st.push(J::O(vec![
                        ("k", J::S("assign".into())),
                        ("p", self.place(body, &b.0)),
                        ("r", self.rvalue(body, &b.1)),
                        ("s", span_j(tcx, s.source_info.span)),
                    ])),
                    StatementKind::SetDiscriminant { place, variant_index } => st.push(J::O(vec![
                        ("k", J::S("setdiscr".into())),
                        ("p", self.place(body, place)),
                        ("v", J::I(variant_index.as_u32() as i128)),
                    ])),
                    _ => {}
                }
            }
            let t = bb.terminator();
            let mut o = vec![];
            match &t.kind {
                TerminatorKind::Goto { target, .. } => {
                    o.push(("k", J::S("goto".into())));
                    o.push(("t", J::I(target.as_u32() as i128)));
                }
                TerminatorKind::SwitchInt { discr, targets } => {
                    o.push(("k", J::S("switch".into())));
                    o.push(("o", self.operand(body, discr)));
                    o.push(("oty", J::S(tystr(discr.ty(&body.local_decls, tcx)))));
                    o.push((
                        "targets",
                        J::A(targets
                            .iter()
                            .map(|(v, b)| J::A(vec![J::S(format!("{}", v)), J::I(b.as_u32() as i128)]))
                            .collect()),
                    ));
                    o.push(("else", J::I(targets.otherwise().as_u32() as i128)));
                }
                TerminatorKind::Return => o.push(("k", J::S("return".into()))),
                TerminatorKind::Unreachable => o.push(("k", J::S("unreachable".into()))),
                TerminatorKind::UnwindResume => o.push(("k", J::S("resume".into()))),
                TerminatorKind::UnwindTerminate(_) => o.push(("k", J::S("abort".into()))),
                TerminatorKind::Drop { place, target, .. } => {
                    o.push(("k", J::S("drop".into())));
                    o.push(("p", self.place(body, place)));
                    o.push(("t", J::I(target.as_u32() as i128)));
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    o.push(("k", J::S("call".into())));
                    match func {
                        Operand::Constant(c) => {
                            if let ty::FnDef(d, ga) = c.const_.ty().kind() {
                                o.push(("f", self.callee(*d, ga.no_bound_vars().unwrap_or(ga.skip_binder()))));
                            } else {
                                o.push(("fo", self.operand(body, func)));
                            }
                        }
                        _ => o.push(("fo", self.operand(body, func))),
                    }
                    o.push(("args", J::A(args.iter().map(|a| self.operand(body, &a.node)).collect())));
                    o.push(("d", self.place(body, destination)));
                    o.push(("t", target.map(|b| J::I(b.as_u32() as i128)).unwrap_or(J::Null)));
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    o.push(("k", J::S("assert".into())));
                    o.push(("o", self.operand(body, cond)));
                    o.push(("e", J::B(*expected)));
                    o.push(("msg", J::S(format!("{:?}", msg).chars().take(60).collect())));
                    o.push(("t", J::I(target.as_u32() as i128)));
                }
                TerminatorKind::FalseEdge { real_target, .. } => {
                    o.push(("k", J::S("goto".into())));
                    o.push(("t", J::I(real_target.as_u32() as i128)));
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    o.push(("k", J::S("goto".into())));
                    o.push(("t", J::I(real_target.as_u32() as i128)));
                }
                other => {
                    o.push(("k", J::S("other".into())));
                    o.push(("str", J::S(format!("{:?}", other))));
                }
            }
            o.push(("s", span_j(tcx, t.source_info.span)));
            let mut bo = vec![("st", J::A(st)), ("t", J::O(o))];
            if bb.is_cleanup {
                bo.push(("cleanup", J::B(true)));
            }
            blocks.push(J::O(bo));
        }
        J::O(vec![
            ("argc", J::I(body.arg_count as i128)),
            ("spread", body.spread_arg.map(|l| J::I(l.as_u32() as i128)).unwrap_or(J::Null)),
            ("locals", J::A(locals)),
            ("dbg", J::A(dbg)),
            ("blocks", J::A(blocks)),
        ])
    }
}

fn dump<'tcx>(tcx: TyCtxt<'tcx>) -> J {
    let mut fns = vec![];
    let mut consts = vec![];
    for ld in tcx.mir_keys(()).iter() {
        let ld: LocalDefId = *ld;
        let d = ld.to_def_id();
        let dk = tcx.def_kind(d);
        if matches!(dk, DefKind::Const { .. } | DefKind::AssocConst { .. }) {
            let body = tcx.mir_for_ctfe(d);
            let te = TypingEnv::post_analysis(tcx, d);
            let cx = Ctx { tcx, te };
            let parent = tcx.parent(d);
            let mut o = vec![
                ("id", J::S(did(tcx, d))),
                ("name", J::S(name(tcx, d))),
                ("ty", J::S(tystr(tcx.type_of(d).instantiate_identity().skip_norm_wip()))),
                ("span", span_j(tcx, tcx.def_span(d))),
                ("parent", J::S(did(tcx, parent))),
                ("body", cx.body(body)),
            ];
            if let DefKind::Impl { .. } = tcx.def_kind(parent) {
                o.push(("impl_self", J::S(tystr(tcx.type_of(parent).instantiate_identity().skip_norm_wip()))));
            }
            if let Some(ti) = tcx.opt_associated_item(d).and_then(|a| a.trait_item_def_id()) {
                o.push(("trait_item", J::S(did(tcx, ti))));
            }
            let pm = tcx.promoted_mir(d);
            if !pm.is_empty() {
                o.push(("promoted", J::A(pm.iter().map(|b| cx.body(b)).collect())));
            }
            consts.push(J::O(o));
            continue;
        }
        if !matches!(dk, DefKind::Fn | DefKind::AssocFn | DefKind::Closure) {
            continue;
        }
        let body = tcx.optimized_mir(d);
        let te = TypingEnv::post_analysis(tcx, d);
        let cx = Ctx { tcx, te };
        let mut o = vec![
            ("id", J::S(did(tcx, d))),
            ("name", J::S(name(tcx, d))),
            ("kind", J::S(format!("{:?}", dk))),
            ("span", span_j(tcx, tcx.def_span(d))),
        ];
        if matches!(dk, DefKind::Fn | DefKind::AssocFn) {
            let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip().skip_binder();
            o.push(("unsafe", J::B(!sig.safety().is_safe())));
            o.push(("inputs", J::A(sig.inputs().iter().map(|t| J::S(tystr(*t))).collect())));
            o.push(("output", J::S(tystr(sig.output()))));
            o.push(("vis", J::S(format!("{:?}", tcx.visibility(d)))));
            if let Some(i) = tcx.opt_associated_item(d) {
                o.push(("item", J::S(i.name().to_string())));
            } else {
                o.push(("item", J::S(tcx.item_name(d).to_string())));
            }
        }
        let parent = tcx.parent(d);
        o.push(("parent", J::S(did(tcx, parent))));
        match tcx.def_kind(parent) {
            DefKind::Impl { of_trait } => {
                let st = tcx.type_of(parent).instantiate_identity().skip_norm_wip();
                o.push(("impl_self", J::S(tystr(st))));
                o.push(("impl_adt", adt_of(tcx, st)));
                if of_trait {
                    if let Some(ti) = tcx.opt_associated_item(d).and_then(|a| a.trait_item_def_id()) {
                        o.push(("trait_item", J::S(did(tcx, ti))));
                    }
                    let tr = tcx.impl_trait_ref(parent);
                    o.push(("trait", J::S(did(tcx, tr.instantiate_identity().skip_norm_wip().def_id))));
                }
            }
            DefKind::Trait => {
                o.push(("in_trait", J::S(did(tcx, parent))));
            }
            _ => {}
        }
        // explicit unsafe blocks are detected from raw derefs/unsafe callee; also record hir unsafety
        o.push(("body", cx.body(body)));
        let pm = tcx.promoted_mir(d);
        if !pm.is_empty() {
            o.push(("promoted", J::A(pm.iter().map(|b| cx.body(b)).collect())));
        }
        fns.push(J::O(o));
    }
    // traits, impls, adts
    let mut traits = vec![];
    let mut impls = vec![];
    let mut adts = vec![];
    let mut statics = vec![];
    for id in tcx.hir_crate_items(()).definitions() {
        let d = id.to_def_id();
        match tcx.def_kind(d) {
            DefKind::Trait => {
                let ms = tcx
                    .associated_items(d)
                    .in_definition_order()
                    .filter(|a| a.is_fn())
                    .map(|a| {
                        J::O(vec![
                            ("id", J::S(did(tcx, a.def_id))),
                            ("name", J::S(a.name().to_string())),
                            ("default", J::B(a.defaultness(tcx).has_value())),
                        ])
                    })
                    .collect();
                traits.push(J::O(vec![
                    ("id", J::S(did(tcx, d))),
                    ("name", J::S(name(tcx, d))),
                    ("methods", J::A(ms)),
                ]));
            }
            DefKind::Impl { of_trait } => {
                let st = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let mut o = vec![
                    ("id", J::S(did(tcx, d))),
                    ("self_ty", J::S(tystr(st))),
                    ("self_adt", adt_of(tcx, st)),
                ];
                if of_trait {
                    let tr = tcx.impl_trait_ref(d).instantiate_identity().skip_norm_wip();
                    o.push(("trait", J::S(did(tcx, tr.def_id))));
                    o.push(("trait_ref", J::S(rustc_middle::ty::print::with_no_trimmed_paths!(format!("{}", tr)))));
                }
                let ms = tcx
                    .associated_items(d)
                    .in_definition_order()
                    .filter(|a| a.is_fn())
                    .map(|a| {
                        J::A(vec![
                            J::S(did(tcx, a.def_id)),
                            a.trait_item_def_id().map(|t| J::S(did(tcx, t))).unwrap_or(J::Null),
                        ])
                    })
                    .collect();
                o.push(("items", J::A(ms)));
                impls.push(J::O(o));
            }
            DefKind::Struct | DefKind::Enum | DefKind::Union => {
                let ad = tcx.adt_def(d);
                let vs = ad
                    .variants()
                    .iter()
                    .map(|v| {
                        J::O(vec![
                            ("name", J::S(v.name.to_string())),
                            (
                                "fields",
                                J::A(v
                                    .fields
                                    .iter()
                                    .map(|f| {
                                        let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                                        J::A(vec![
                                            J::S(f.name.to_string()),
                                            J::S(tystr(t)),
                                            J::S(match f.vis {
                                                ty::Visibility::Public => "pub".into(),
                                                ty::Visibility::Restricted(m) => did(tcx, m.to_def_id()),
                                            }),
                                            J::B(!t.is_freeze(tcx, TypingEnv::post_analysis(tcx, d))),
                                        ])
                                    })
                                    .collect()),
                            ),
                        ])
                    })
                    .collect();
                adts.push(J::O(vec![
                    ("id", J::S(did(tcx, d))),
                    ("name", J::S(name(tcx, d))),
                    ("kind", J::S(format!("{:?}", tcx.def_kind(d)))),
                    ("span", span_j(tcx, tcx.def_span(d))),
                    ("vis", J::S(format!("{:?}", tcx.visibility(d)))),
                    ("variants", J::A(vs)),
                ]));
            }
            DefKind::Static { .. } => {
                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                statics.push(J::O(vec![
                    ("id", J::S(did(tcx, d))),
                    ("ty", J::S(tystr(t))),
                    ("mutable", J::B(tcx.is_mutable_static(d))),
                ]));
            }
            _ => {}
        }
    }
    let feats = tcx
        .sess
        .config
        .iter()
        .filter(|(k, _)| k.as_str() == "feature")
        .map(|(_, v)| J::S(v.map(|x| x.to_string()).unwrap_or_default()))
        .collect();
    J::O(vec![
        ("features", J::A(feats)),
        ("debug_assertions", J::B(tcx.sess.opts.debug_assertions)),
        ("fns", J::A(fns)),
        ("traits", J::A(traits)),
        ("impls", J::A(impls)),
        ("adts", J::A(adts)),
        ("consts", J::A(consts)),
        ("statics", J::A(statics)),
    ])
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the path of the real rustc
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    let is_target = args
        .windows(2)
        .any(|w| w[0] == "--crate-name" && w[1] == "procedural_modelling")
        && std::env::var("VERIF_FACTS_OUT").is_ok();
    if is_target {
        args.push("-Zmir-opt-level=0".into());
        args.push("-Coverflow-checks=off".into());
        args.push("-Awarnings".into());
        if std::env::var("VERIF_RELEASE").is_ok() {
            args.push("-Cdebug-assertions=off".into());
        }
        rustc_driver_impl::compiler_entrypoint(&args, &mut Cb);
    } else {
        struct N;
        impl rustc_driver_impl::Callbacks for N {}
        rustc_driver_impl::compiler_entrypoint(&args, &mut N);
    }
}
