//! rustc driver: compiles exactly as rustc would and, for the crates named in FACTS_CRATES, dumps
//! the type-checked program (MIR of every body with resolved callees, ADTs, impls, constants) as JSON.
#![feature(rustc_private)]
#![allow(unused)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId, LOCAL_CRATE};
use rustc_middle::mir::*;
use rustc_middle::ty::{self, Ty, TyCtxt, TyKind};
use std::collections::HashMap;
use std::fmt::Write as _;

// ---------------------------------------------------------------- tiny JSON
enum J {
    Null,
    B(bool),
    I(i128),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
}
fn s(x: impl Into<String>) -> J { J::S(x.into()) }
fn n(x: usize) -> J { J::I(x as i128) }
impl J {
    fn w(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::I(i) => { let _ = write!(o, "{}", i); }
            J::S(t) => {
                o.push('"');
                for c in t.chars() {
                    match c {
                        '"' => o.push_str("\\\""),
                        '\\' => o.push_str("\\\\"),
                        c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); }
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            J::A(v) => { o.push('['); for (i, x) in v.iter().enumerate() { if i > 0 { o.push(',') } x.w(o) } o.push(']') }
            J::O(v) => { o.push('{'); for (i, (k, x)) in v.iter().enumerate() { if i > 0 { o.push(',') } let _ = write!(o, "\"{}\":", k); x.w(o) } o.push('}') }
        }
    }
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: HashMap<Ty<'tcx>, usize>,
    tyout: Vec<J>,
    ext: HashMap<DefId, ()>,
}

impl<'tcx> Cx<'tcx> {
    fn key(&self, d: DefId) -> String {
        let tcx = self.tcx;
        format!("{}{}", tcx.crate_name(d.krate), tcx.def_path(d).to_string_no_crate_verbose())
    }
    fn path(&self, d: DefId) -> String { self.tcx.def_path_str(d) }
    fn args(&mut self, a: ty::GenericArgsRef<'tcx>) -> J {
        J::A(a.iter().filter_map(|g| {
            if let Some(t) = g.as_type() { Some(n(self.ty(t))) }
            else if let Some(c) = g.as_const() { Some(J::O(vec![("const", s(format!("{}", c)))])) }
            else { None }
        }).collect())
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(&i) = self.tys.get(&t) { return i; }
        let i = self.tyout.len();
        self.tyout.push(J::Null);
        self.tys.insert(t, i);
        let mut o: Vec<(&'static str, J)> = vec![("s", s(format!("{}", t)))];
        match *t.kind() {
            TyKind::Adt(d, a) => {
                o.push(("k", s("adt")));
                o.push(("path", s(self.path(d.did()))));
                o.push(("key", s(self.key(d.did()))));
                o.push(("local", J::B(d.did().is_local())));
                o.push(("crate", s(self.tcx.crate_name(d.did().krate).to_string())));
                o.push(("args", self.args(a)));
                o.push(("box", J::B(d.is_box())));
            }
            TyKind::Ref(_, x, m) => { o.push(("k", s("ref"))); o.push(("mut", J::B(m.is_mut()))); let x = self.ty(x); o.push(("t", n(x))); }
            TyKind::RawPtr(x, m) => { o.push(("k", s("ptr"))); o.push(("mut", J::B(m.is_mut()))); let x = self.ty(x); o.push(("t", n(x))); }
            TyKind::Slice(x) => { o.push(("k", s("slice"))); let x = self.ty(x); o.push(("t", n(x))); }
            TyKind::Array(x, l) => { o.push(("k", s("array"))); let x = self.ty(x); o.push(("t", n(x)));
                if let Some(v) = l.try_to_target_usize(self.tcx) { o.push(("len", J::I(v as i128))); } }
            TyKind::Tuple(ts) => { o.push(("k", s("tuple"))); let v = ts.iter().map(|x| n(self.ty(x))).collect(); o.push(("ts", J::A(v))); }
            TyKind::Closure(d, a) => {
                o.push(("k", s("closure"))); o.push(("key", s(self.key(d))));
                let v = a.as_closure().upvar_tys().iter().map(|x| n(self.ty(x))).collect();
                o.push(("ts", J::A(v)));
                let v = a.as_closure().parent_args().iter().filter_map(|g| g.as_type()).map(|x| n(self.ty(x))).collect();
                o.push(("pt", J::A(v)));
            }
            TyKind::FnDef(d, a) => { o.push(("k", s("fndef"))); let c = self.callee(d, a.skip_binder(), None); o.push(("fn", c)); }
            TyKind::FnPtr(..) => o.push(("k", s("fnptr"))),
            TyKind::Param(p) => { o.push(("k", s("param"))); o.push(("name", s(p.name.to_string()))); }
            TyKind::Dynamic(preds, _) => {
                o.push(("k", s("dyn")));
                if let Some(p) = preds.principal_def_id() { o.push(("trait", s(self.path(p)))); }
            }
            TyKind::Alias(_, a) => {
                o.push(("k", s("alias")));
                let v = a.args.iter().filter_map(|g| g.as_type()).map(|x| n(self.ty(x))).collect();
                o.push(("ts", J::A(v)));
            }
            TyKind::Int(_) | TyKind::Uint(_) | TyKind::Float(_) | TyKind::Bool | TyKind::Char | TyKind::Str => o.push(("k", s("prim"))),
            TyKind::Never => o.push(("k", s("never"))),
            _ => o.push(("k", s("other"))),
        }
        if !ty::TypeVisitableExt::has_param(&t) && !ty::TypeVisitableExt::has_escaping_bound_vars(&t) && !ty::TypeVisitableExt::has_aliases(&t) {
            if let TyKind::Adt(..) | TyKind::Int(_) | TyKind::Uint(_) | TyKind::Float(_) | TyKind::Array(..) | TyKind::Tuple(..) = t.kind() {
                let env = ty::TypingEnv::fully_monomorphized();
                if let Ok(l) = self.tcx.layout_of(env.as_query_input(t)) {
                    o.push(("size", J::I(l.size.bytes() as i128)));
                    o.push(("align", J::I(l.align.abi.bytes() as i128)));
                }
            }
        }
        self.tyout[i] = J::O(o);
        i
    }
    fn callee(&mut self, d: DefId, a: ty::GenericArgsRef<'tcx>, env: Option<DefId>) -> J {
        let tcx = self.tcx;
        let mut o = vec![
            ("path", s(self.path(d))),
            ("key", s(self.key(d))),
            ("local", J::B(d.is_local())),
            ("crate", s(tcx.crate_name(d.krate).to_string())),
            ("name", s(tcx.opt_item_name(d).map(|x| x.to_string()).unwrap_or_default())),
            ("args", self.args(a)),
        ];
        if let Some(t) = tcx.trait_of_assoc(d) { o.push(("trait", s(self.path(t)))); }
        if let Some(im) = tcx.impl_of_assoc(d) {
            if let DefKind::Impl { of_trait } = tcx.def_kind(im) {
                let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                let st = self.ty(st);
                o.push(("self_ty", n(st)));
                if of_trait { let tr = tcx.impl_trait_ref(im).skip_binder().def_id; o.push(("impl_trait", s(self.path(tr)))); }
            }
        }
        let kind = tcx.def_kind(d);
        if matches!(kind, DefKind::Fn | DefKind::AssocFn | DefKind::Ctor(..)) {
            let sig = tcx.fn_sig(d).skip_binder();
            o.push(("unsafe", J::B(sig.safety().is_unsafe())));
            let tf: Vec<J> = tcx.codegen_fn_attrs(d).target_features.iter().filter(|f| matches!(f.kind, rustc_middle::middle::codegen_fn_attrs::TargetFeatureKind::Enabled)).map(|f| s(f.name.to_string())).collect();
            if !tf.is_empty() { o.push(("tf", J::A(tf))); }
        }
        if let Some(owner) = env {
            let te = ty::TypingEnv::post_analysis(tcx, owner);
            let a2 = tcx.erase_and_anonymize_regions(a);
            if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
            if let Ok(Some(inst)) = ty::Instance::try_resolve(tcx, te, d, a2) {
                let rd = inst.def_id();
                if rd != d {
                    let mut r = vec![("path", s(self.path(rd))), ("key", s(self.key(rd))), ("local", J::B(rd.is_local())), ("crate", s(tcx.crate_name(rd.krate).to_string()))];
                    r.push(("args", self.args(inst.args)));
                    o.push(("res", J::O(r)));
                } else if tcx.trait_of_assoc(d).is_some() {
                    o.push(("res_default", J::B(matches!(inst.def, ty::InstanceKind::Item(_)))));
                }
            }
            }
        }
        J::O(o)
    }
    fn place(&mut self, body: &Body<'tcx>, p: &Place<'tcx>) -> J {
        if p.projection.is_empty() { return n(p.local.as_usize()); }
        let mut v = vec![n(p.local.as_usize())];
        let mut pt = PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => s("*"),
                ProjectionElem::Field(f, t) => { let t = self.ty(t);
                    let nm = match pt.ty.kind() {
                        TyKind::Adt(ad, _) => { let vi = pt.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                            if ad.is_union() || (vi.as_usize()) < ad.variants().len() { ad.variant(vi).fields.get(f).map(|x| x.name.to_string()) } else { None } }
                        _ => None };
                    let mut o = vec![("f", n(f.as_usize())), ("t", n(t))];
                    if let Some(nm) = nm { o.push(("n", s(nm))); }
                    J::O(o) }
                ProjectionElem::Index(l) => J::O(vec![("i", n(l.as_usize()))]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => J::O(vec![("c", J::I(offset as i128)), ("min", J::I(min_length as i128)), ("fe", J::B(from_end))]),
                ProjectionElem::Subslice { from, to, from_end } => J::O(vec![("sub", J::I(from as i128)), ("to", J::I(to as i128)), ("fe", J::B(from_end))]),
                ProjectionElem::Downcast(nm, vi) => J::O(vec![("d", n(vi.as_usize())), ("n", s(nm.map(|x| x.to_string()).unwrap_or_default()))]),
                _ => J::O(vec![("o", s(format!("{:?}", e)))]),
            });
            pt = pt.projection_ty(self.tcx, e);
        }
        J::A(v)
    }
    fn konst(&mut self, owner: DefId, c: &ConstOperand<'tcx>) -> J {
        let tcx = self.tcx;
        let t = c.const_.ty();
        let mut o: Vec<(&'static str, J)> = vec![("ty", n(self.ty(t)))];
        if let TyKind::FnDef(d, a) = *t.kind() {
            o.push(("fn", self.callee(d, a.skip_binder(), Some(owner))));
            return J::O(vec![("k", J::O(o))]);
        }
        if let Const::Unevaluated(u, _) = c.const_ {
            o.push(("def", s(self.path(u.def))));
            o.push(("key", s(self.key(u.def))));
            o.push(("defargs", self.args(u.args)));
            if let Some(p) = u.promoted { o.push(("promoted", n(p.as_usize()))); }
            o.push(("deflocal", J::B(u.def.is_local())));
        }
        if let Const::Ty(_, ct) = c.const_ { o.push(("cty", s(format!("{}", ct)))); }
        let env = ty::TypingEnv::post_analysis(tcx, owner);
        let poly = ty::TypeVisitableExt::has_param(&c.const_);
        if !poly {
            if let Some(sc) = c.const_.try_eval_scalar_int(tcx, env) {
                let v: i128 = if t.is_signed() { sc.to_int(sc.size()) } else { sc.to_uint(sc.size()) as i128 };
                o.push(("v", J::I(v)));
            }
            if let TyKind::Ref(_, inner, _) = t.kind() {
                let is_str = inner.is_str();
                let is_bytes = match inner.kind() { TyKind::Slice(e) => *e == tcx.types.u8, TyKind::Array(e, _) => *e == tcx.types.u8, _ => false };
                if is_str || is_bytes {
                    if let Ok(cv @ ConstValue::Slice { .. }) = c.const_.eval(tcx, env, c.span) {
                        if let Some(b) = cv.try_get_slice_bytes_for_diagnostics(tcx) { o.push(("str", s(String::from_utf8_lossy(b).to_string()))); }
                    }
                }
            }
            if t.is_floating_point() {
                if let Some(sc) = c.const_.try_eval_scalar_int(tcx, env) {
                    let f = if sc.size().bytes() == 4 { f32::from_bits(sc.to_u32()) as f64 } else if sc.size().bytes() == 8 { f64::from_bits(sc.to_u64()) } else { f64::NAN };
                    o.push(("fv", s(format!("{:?}", f))));
                }
            }
        }
        o.push(("txt", s(format!("{}", c.const_))));
        J::O(vec![("k", J::O(o))])
    }
    fn op(&mut self, owner: DefId, body: &Body<'tcx>, o: &Operand<'tcx>) -> J {
        match o {
            Operand::Copy(p) => J::O(vec![("c", self.place(body, p))]),
            Operand::Move(p) => J::O(vec![("m", self.place(body, p))]),
            Operand::Constant(c) => self.konst(owner, c),
            #[allow(unreachable_patterns)]
            _ => J::O(vec![("rt", s(format!("{:?}", o)))]),
        }
    }
    fn rv(&mut self, owner: DefId, body: &Body<'tcx>, r: &Rvalue<'tcx>) -> J {
        match r {
            Rvalue::Use(o, ..) => J::A(vec![s("use"), self.op(owner, body, o)]),
            Rvalue::Repeat(o, c) => J::A(vec![s("repeat"), self.op(owner, body, o), c.try_to_target_usize(self.tcx).map(|x| J::I(x as i128)).unwrap_or(J::Null)]),
            Rvalue::Ref(_, k, p) => J::A(vec![s("ref"), J::B(matches!(k, BorrowKind::Mut { .. })), self.place(body, p)]),
            Rvalue::RawPtr(k, p) => J::A(vec![s("rawptr"), s(format!("{:?}", k)), self.place(body, p)]),
            Rvalue::Cast(k, o, t) => { let from = o.ty(&body.local_decls, self.tcx); let f = self.ty(from); let t2 = self.ty(*t); J::A(vec![s("cast"), s(format!("{:?}", k)), self.op(owner, body, o), n(f), n(t2)]) }
            Rvalue::BinaryOp(b, ab) => { let x = self.op(owner, body, &ab.0); let y = self.op(owner, body, &ab.1); J::A(vec![s("bin"), s(format!("{:?}", b)), x, y]) }
            Rvalue::UnaryOp(b, a) => J::A(vec![s("un"), s(format!("{:?}", b)), self.op(owner, body, a)]),
            Rvalue::Discriminant(p) => J::A(vec![s("discr"), self.place(body, p)]),
            Rvalue::Aggregate(k, ops) => {
                let kk = match &**k {
                    AggregateKind::Array(t) => J::O(vec![("a", s("array")), ("t", n(self.ty(*t)))]),
                    AggregateKind::Tuple => J::O(vec![("a", s("tuple"))]),
                    AggregateKind::Adt(d, v, a, _, af) => {
                        let ad = self.tcx.adt_def(*d);
                        let vn = ad.variant(*v).name.to_string();
                        let fs: Vec<J> = ad.variant(*v).fields.iter().map(|f| s(f.name.to_string())).collect();
                        J::O(vec![("a", s("adt")), ("path", s(self.path(*d))), ("key", s(self.key(*d))), ("v", n(v.as_usize())), ("vn", s(vn)), ("fs", J::A(fs)), ("args", self.args(a))])
                    }
                    AggregateKind::Closure(d, _) => J::O(vec![("a", s("closure")), ("key", s(self.key(*d)))]),
                    AggregateKind::RawPtr(..) => J::O(vec![("a", s("rawptr"))]),
                    _ => J::O(vec![("a", s("other"))]),
                };
                let v = ops.iter().map(|o| self.op(owner, body, o)).collect();
                J::A(vec![s("agg"), kk, J::A(v)])
            }
            Rvalue::CopyForDeref(p) => J::A(vec![s("use"), J::O(vec![("c", self.place(body, p))])]),
            Rvalue::ThreadLocalRef(d) => J::A(vec![s("tls"), s(self.path(*d))]),
            _ => J::A(vec![s("other"), s(format!("{:?}", r))]),
        }
    }
    fn span(&self, sp: rustc_span::Span) -> J {
        let sm = self.tcx.sess.source_map();
        let sp = sp.source_callsite();
        let lo = sm.lookup_char_pos(sp.lo());
        s(format!("{}:{}", lo.file.name.prefer_local_unconditionally(), lo.line))
    }
    fn unwind(&self, u: &UnwindAction) -> J { match u { UnwindAction::Cleanup(b) => n(b.as_usize()), _ => J::Null } }
    fn body(&mut self, did: DefId, body: &Body<'tcx>) -> Vec<(&'static str, J)> {
        let tcx = self.tcx;
        let mut locals = Vec::new();
        for d in body.local_decls.iter() { let t = self.ty(d.ty); locals.push(n(t)); }
        let mut dbg = Vec::new();
        for v in body.var_debug_info.iter() {
            if let VarDebugInfoContents::Place(p) = &v.value {
                dbg.push(J::A(vec![s(v.name.to_string()), self.place(body, p), v.argument_index.map(|x| n(x as usize)).unwrap_or(J::Null)]));
            }
        }
        let mut blocks = Vec::new();
        for bb in body.basic_blocks.iter() {
            let mut st = Vec::new();
            for x in bb.statements.iter() {
                let j = match &x.kind {
                    StatementKind::Assign(pr) => { let p = self.place(body, &pr.0); let r = self.rv(did, body, &pr.1); J::A(vec![s("="), p, r, self.span(x.source_info.span)]) }
                    StatementKind::SetDiscriminant { place, variant_index } => J::A(vec![s("setd"), self.place(body, place), n(variant_index.as_usize())]),
                    StatementKind::StorageLive(l) => J::A(vec![s("live"), n(l.as_usize())]),
                    StatementKind::StorageDead(l) => J::A(vec![s("dead"), n(l.as_usize())]),
                    StatementKind::Intrinsic(i) => J::A(vec![s("intr"), s(format!("{:?}", i))]),
                    _ => continue,
                };
                st.push(j);
            }
            let t = bb.terminator();
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => J::O(vec![("t", s("goto")), ("to", n(target.as_usize()))]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let v = targets.iter().map(|(v, b)| J::A(vec![J::I(v as i128), n(b.as_usize())])).collect();
                    let dt = discr.ty(&body.local_decls, tcx); let dt = self.ty(dt);
                    J::O(vec![("t", s("switch")), ("d", self.op(did, body, discr)), ("dt", n(dt)), ("to", J::A(v)), ("else", n(targets.otherwise().as_usize()))])
                }
                TerminatorKind::UnwindResume => J::O(vec![("t", s("resume"))]),
                TerminatorKind::UnwindTerminate(_) => J::O(vec![("t", s("terminate"))]),
                TerminatorKind::Return => J::O(vec![("t", s("return"))]),
                TerminatorKind::Unreachable => J::O(vec![("t", s("unreachable"))]),
                TerminatorKind::Drop { place, target, unwind, .. } => {
                    let pt = place.ty(&body.local_decls, tcx).ty; let pt = self.ty(pt);
                    J::O(vec![("t", s("drop")), ("p", self.place(body, place)), ("pt", n(pt)), ("to", n(target.as_usize())), ("uw", self.unwind(unwind))]) }
                TerminatorKind::Call { func, args, destination, target, unwind, fn_span, .. } => {
                    let a = args.iter().map(|x| self.op(did, body, &x.node)).collect();
                    J::O(vec![("t", s("call")), ("f", self.op(did, body, func)), ("a", J::A(a)), ("d", self.place(body, destination)),
                        ("to", target.map(|x| n(x.as_usize())).unwrap_or(J::Null)), ("uw", self.unwind(unwind)), ("sp", self.span(*fn_span)),
                        ("mac", s(fn_span.macro_backtrace().last().map(|m| m.kind.descr().to_string()).unwrap_or_default()))])
                }
                TerminatorKind::Assert { cond, expected, msg, target, unwind } => J::O(vec![("t", s("assert")), ("c", self.op(did, body, cond)), ("e", J::B(*expected)), ("msg", s(format!("{:?}", msg))), ("to", n(target.as_usize())), ("uw", self.unwind(unwind))]),
                TerminatorKind::FalseEdge { real_target, .. } => J::O(vec![("t", s("goto")), ("to", n(real_target.as_usize()))]),
                TerminatorKind::FalseUnwind { real_target, .. } => J::O(vec![("t", s("goto")), ("to", n(real_target.as_usize()))]),
                k => J::O(vec![("t", s("other")), ("k", s(format!("{:?}", k)))]),
            };
            let mut o = vec![("s", J::A(st)), ("t", tj), ("sp", self.span(t.source_info.span))];
            if bb.is_cleanup { o.push(("cl", J::B(true))); }
            blocks.push(J::O(o));
        }
        vec![("argc", n(body.arg_count)), ("locals", J::A(locals)), ("dbg", J::A(dbg)), ("blocks", J::A(blocks))]
    }
}

fn dump(tcx: TyCtxt<'_>, out: &str, cfgname: &str) {
    let mut cx = Cx { tcx, tys: HashMap::new(), tyout: vec![], ext: HashMap::new() };
    let ev = tcx.effective_visibilities(());
    let mut bodies = Vec::new();
    for ld in tcx.hir_body_owners() {
        let did = ld.to_def_id();
        let kind = tcx.def_kind(did);
        let mut o: Vec<(&'static str, J)> = vec![
            ("key", s(cx.key(did))), ("path", s(cx.path(did))), ("kind", s(format!("{:?}", kind))),
            ("name", s(tcx.opt_item_name(did).map(|x| x.to_string()).unwrap_or_default())),
            ("span", cx.span(tcx.def_span(did))),
            ("reach", J::B(ev.is_reachable(ld))),
            ("exported", J::B(ev.is_exported(ld))),
            ("from_macro", J::B(tcx.def_span(did).from_expansion())),
        ];
        let is_fn = matches!(kind, DefKind::Fn | DefKind::AssocFn);
        let is_closure = matches!(kind, DefKind::Closure);
        if let Some(p) = tcx.opt_parent(did) { o.push(("parent", s(cx.key(p)))); }
        if is_fn || is_closure {
            let root = tcx.typeck_root_def_id(did);
            o.push(("root", s(cx.key(root))));
            if let Some(im) = tcx.impl_of_assoc(root) {
                let st = tcx.type_of(im).instantiate_identity().skip_norm_wip(); let st = cx.ty(st);
                o.push(("self_ty", n(st)));
                if let DefKind::Impl { of_trait: true } = tcx.def_kind(im) { let tr = tcx.impl_trait_ref(im).skip_binder(); o.push(("impl_trait", s(cx.path(tr.def_id)))); o.push(("impl_trait_local", J::B(tr.def_id.is_local()))); }
            }
            if let Some(tr) = tcx.trait_of_assoc(root) { o.push(("in_trait", s(cx.path(tr)))); }
        }
        if is_fn {
            let sig = tcx.fn_sig(did).instantiate_identity().skip_norm_wip().skip_binder();
            o.push(("unsafe", J::B(sig.safety().is_unsafe())));
            let ins: Vec<J> = sig.inputs().iter().map(|t| n(cx.ty(*t))).collect();
            let out = cx.ty(sig.output());
            o.push(("ins", J::A(ins))); o.push(("out", n(out)));
            o.push(("sig", s(format!("{}", tcx.fn_sig(did).instantiate_identity().skip_norm_wip()))));
            let names: Vec<J> = tcx.fn_arg_idents(did).iter().map(|i| s(i.map(|x| x.name.to_string()).unwrap_or_default())).collect();
            o.push(("argnames", J::A(names)));
            let g = tcx.generics_of(did);
            let mut gp = vec![]; let mut cur = Some(g);
            let mut all: Vec<String> = vec![];
            for i in 0..g.count() { let p = g.param_at(i, tcx); if matches!(p.kind, ty::GenericParamDefKind::Type { .. }) { all.push(p.name.to_string()); } }
            for a in all { gp.push(s(a)); }
            o.push(("generics", J::A(gp)));
            let tf: Vec<J> = tcx.codegen_fn_attrs(did).target_features.iter().filter(|f| matches!(f.kind, rustc_middle::middle::codegen_fn_attrs::TargetFeatureKind::Enabled)).map(|f| s(f.name.to_string())).collect();
            o.push(("tf", J::A(tf)));
        }
        if is_closure {
            let caps: Vec<J> = tcx.closure_captures(ld).iter().map(|c| J::A(vec![s(c.var_ident.name.to_string()), s(format!("{:?}", c.info.capture_kind))])).collect();
            o.push(("captures", J::A(caps)));
        }
        if is_fn || is_closure {
            let body = tcx.optimized_mir(did);
            o.extend(cx.body(did, body));
            let pr = tcx.promoted_mir(did);
            let mut pv = Vec::new();
            for b in pr.iter() { pv.push(J::O(cx.body(did, b))); }
            o.push(("promoted", J::A(pv)));
        } else {
            // const / static: evaluated integer or string value when available
            if matches!(kind, DefKind::Const { .. } | DefKind::AssocConst { .. }) {
                let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                o.push(("ty", n(cx.ty(t))));
                if tcx.generics_of(did).is_empty() {
                    if let Ok(v) = tcx.const_eval_poly(did) {
                        if let Some(sc) = v.try_to_scalar_int() { o.push(("v", J::I(if t.is_signed() { sc.to_int(sc.size()) } else { sc.to_uint(sc.size()) as i128 }))); }
                        if let (true, Some(b)) = (matches!(v, ConstValue::Slice { .. }), if matches!(v, ConstValue::Slice { .. }) { v.try_get_slice_bytes_for_diagnostics(tcx) } else { None }) { o.push(("str", s(String::from_utf8_lossy(b).to_string()))); }
                    }
                }
            }
            if matches!(kind, DefKind::Static { .. }) { let m = matches!(kind, DefKind::Static { mutability: rustc_hir::Mutability::Mut, .. }); o.push(("static_mut", J::B(m))); let t = tcx.type_of(did).instantiate_identity().skip_norm_wip(); o.push(("ty", n(cx.ty(t)))); }
        }
        bodies.push(J::O(o));
    }
    let mut adts = Vec::new();
    let mut impls = Vec::new();
    let mut traits = Vec::new();
    for id in tcx.hir_crate_items(()).definitions() {
        let did = id.to_def_id();
        match tcx.def_kind(did) {
            DefKind::Struct | DefKind::Enum | DefKind::Union => {
                let ad = tcx.adt_def(did);
                let mut vs = Vec::new();
                for v in ad.variants().iter() {
                    let mut fs = Vec::new();
                    for f in v.fields.iter() { let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip(); let t = cx.ty(t);
                        fs.push(J::O(vec![("n", s(f.name.to_string())), ("t", n(t)), ("pub", J::B(f.vis.is_public())), ("exported", J::B(f.did.as_local().map_or(false, |l| ev.is_exported(l))))])); }
                    vs.push(J::O(vec![("n", s(v.name.to_string())), ("fs", J::A(fs))]));
                }
                let t = tcx.type_of(did).instantiate_identity().skip_norm_wip(); let t = cx.ty(t);
                adts.push(J::O(vec![("key", s(cx.key(did))), ("path", s(cx.path(did))), ("ty", n(t)), ("exported", J::B(ev.is_exported(id))), ("kind", s(format!("{:?}", tcx.def_kind(did)))),
                    ("repr", s(format!("{:?}", ad.repr()))), ("vs", J::A(vs)), ("span", cx.span(tcx.def_span(did))) ]));
            }
            DefKind::Impl { of_trait } => {
                let st = tcx.type_of(did).instantiate_identity().skip_norm_wip(); let st = cx.ty(st);
                let mut o = vec![("key", s(cx.key(did))), ("self", n(st)), ("span", cx.span(tcx.def_span(did)))];
                if of_trait { let tr = tcx.impl_trait_ref(did).skip_binder(); o.push(("trait", s(cx.path(tr.def_id))));
                    o.push(("unsafe", J::B(tcx.impl_trait_header(did).safety.is_unsafe())));
                    o.push(("trait_args", cx.args(tr.args))); }
                let its: Vec<J> = tcx.associated_item_def_ids(did).iter().map(|d| J::A(vec![s(tcx.item_name(*d).to_string()), s(cx.key(*d))])).collect();
                o.push(("items", J::A(its)));
                impls.push(J::O(o));
            }
            DefKind::Trait => {
                let its: Vec<J> = tcx.associated_item_def_ids(did).iter().filter(|d| tcx.opt_item_name(**d).is_some()).map(|d| J::A(vec![s(tcx.item_name(*d).to_string()), s(cx.key(*d)), J::B(tcx.defaultness(*d).has_value())])).collect();
                traits.push(J::O(vec![("key", s(cx.key(did))), ("path", s(cx.path(did))), ("items", J::A(its)), ("exported", J::B(ev.is_exported(id)))]));
            }
            _ => {}
        }
    }
    let tys = std::mem::take(&mut cx.tyout);
    let top = J::O(vec![("crate", s(tcx.crate_name(LOCAL_CRATE).to_string())), ("config", s(cfgname)), ("types", J::A(tys)), ("bodies", J::A(bodies)), ("adts", J::A(adts)), ("impls", J::A(impls)), ("traits", J::A(traits))]);
    let mut o = String::new();
    top.w(&mut o);
    let tmp = format!("{}.{}.tmp", out, std::process::id());
    std::fs::write(&tmp, o).expect("write facts");
    std::fs::rename(&tmp, out).expect("rename facts");
}

struct Cb;
impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> rustc_driver::Compilation {
        let name = tcx.crate_name(LOCAL_CRATE).to_string();
        if let Ok(dir) = std::env::var("FACTS_DIR") {
            let cfgname = std::env::var("FACTS_CONFIG").unwrap_or_default();
            let pkg = std::env::var("CARGO_PKG_NAME").unwrap_or_default();
            let is_build = name == "build_script_build";
            if !is_build && (pkg == "granne" || pkg == "granne-py" || pkg == "selftest") {
                dump(tcx, &format!("{}/{}__{}.json", dir, pkg, cfgname), &cfgname);
            }
        }
        rustc_driver::Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) { args.remove(1); }
    if args.iter().any(|a| a == "--crate-name") {
        for f in ["-Zmir-opt-level=0", "-Zinline-mir=no", "-Cdebug-assertions=off", "-Coverflow-checks=off", "--cap-lints=allow"] { args.push(f.to_string()); }
    }
    let code = rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Cb));
    code
}
