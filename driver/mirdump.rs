// MIR dumper: a rustc driver which, for the crates named in MIRDUMP_CRATES, writes every local
// body (functions, methods, closures, promoteds, consts) as JSON to $MIRDUMP_OUT/<crate>.json,
// with callees resolved by the type checker.  It analyses nothing itself and runs nothing.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, GenericArgsRef, Instance, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use std::fmt::Write as _;

fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr(v: Vec<String>) -> String {
    format!("[{}]", v.join(","))
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    env: TypingEnv<'tcx>,
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        with_no_trimmed_paths!(self.tcx.def_path_str(d))
    }
    fn uid(&self, d: DefId) -> String {
        // unique, stable inside one compilation
        format!("{}{}", self.tcx.crate_name(d.krate), self.tcx.def_path(d).to_string_no_crate_verbose())
    }
    fn span(&self, s: Span) -> String {
        let s = s.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(s.lo());
        let f = format!("{}", lo.file.name.prefer_local_unconditionally());
        js(&format!("{}:{}", f, lo.line))
    }
    fn konst(&self, c: ty::Const<'tcx>) -> String {
        if let Some(v) = c.try_to_target_usize(self.tcx) {
            return format!("{{\"k\":\"c\",\"v\":\"{}\"}}", v);
        }
        match c.kind() {
            ty::ConstKind::Param(p) => format!("{{\"k\":\"param\",\"n\":{}}}", js(p.name.as_str())),
            _ => format!("{{\"k\":\"o\",\"s\":{}}}", js(&with_no_trimmed_paths!(format!("{:?}", c)))),
        }
    }
    fn args(&self, a: GenericArgsRef<'tcx>) -> String {
        let mut v = vec![];
        for g in a.iter() {
            if let Some(t) = g.as_type() {
                v.push(self.ty(t));
            } else if let Some(c) = g.as_const() {
                v.push(self.konst(c));
            }
        }
        arr(v)
    }
    fn ty(&self, t: Ty<'tcx>) -> String {
        match t.kind() {
            ty::Bool => "{\"k\":\"bool\"}".into(),
            ty::Char => "{\"k\":\"char\"}".into(),
            ty::Int(i) => format!("{{\"k\":\"int\",\"n\":\"{}\"}}", i.name_str()),
            ty::Uint(i) => format!("{{\"k\":\"uint\",\"n\":\"{}\"}}", i.name_str()),
            ty::Float(i) => format!("{{\"k\":\"float\",\"n\":\"{}\"}}", i.name_str()),
            ty::Str => "{\"k\":\"str\"}".into(),
            ty::Never => "{\"k\":\"never\"}".into(),
            ty::Adt(d, a) => {
                let kind = if d.is_enum() { "enum" } else if d.is_union() { "union" } else { "struct" };
                format!("{{\"k\":\"adt\",\"d\":\"{}\",\"n\":{},\"a\":{}}}", kind, js(&self.path(d.did())), self.args(a))
            }
            ty::Array(e, n) => format!("{{\"k\":\"array\",\"e\":{},\"n\":{}}}", self.ty(*e), self.konst(*n)),
            ty::Slice(e) => format!("{{\"k\":\"slice\",\"e\":{}}}", self.ty(*e)),
            ty::Ref(_, e, m) => format!("{{\"k\":\"ref\",\"m\":{},\"e\":{}}}", m.is_mut(), self.ty(*e)),
            ty::RawPtr(e, m) => format!("{{\"k\":\"ptr\",\"m\":{},\"e\":{}}}", m.is_mut(), self.ty(*e)),
            ty::Tuple(es) => format!("{{\"k\":\"tuple\",\"a\":{}}}", arr(es.iter().map(|e| self.ty(e)).collect())),
            ty::Param(p) => format!("{{\"k\":\"param\",\"n\":{}}}", js(p.name.as_str())),
            ty::Closure(d, _) => format!("{{\"k\":\"closure\",\"u\":{}}}", js(&self.uid(*d))),
            ty::FnDef(d, a) => {
                let a = a.skip_binder();
                let us = matches!(self.tcx.def_kind(*d), DefKind::Fn | DefKind::AssocFn) && !self.tcx.fn_sig(*d).skip_binder().safety().is_safe();
                format!("{{\"k\":\"fndef\",\"n\":{},\"u\":{},\"a\":{},\"r\":{}{}}}", js(&self.path(*d)), js(&self.uid(*d)), self.args(a), self.resolve(*d, a), if us { ",\"unsafe\":true" } else { "" })
            }
            _ => format!("{{\"k\":\"o\",\"s\":{}}}", js(&with_no_trimmed_paths!(format!("{:?}", t)))),
        }
    }
    fn resolve(&self, d: DefId, a: GenericArgsRef<'tcx>) -> String {
        if !matches!(self.tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            return "null".into();
        }
        match Instance::try_resolve(self.tcx, self.env, d, a) {
            Ok(Some(i)) => {
                let rd = i.def_id();
                format!("{{\"n\":{},\"u\":{},\"a\":{},\"local\":{}}}", js(&self.path(rd)), js(&self.uid(rd)), self.args(i.args), rd.is_local())
            }
            _ => "null".into(),
        }
    }
    fn place(&self, p: Place<'tcx>, body: &Body<'tcx>) -> String {
        let mut v = vec![];
        let mut pt = PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => "[\"*\"]".to_string(),
                ProjectionElem::Field(f, _) => format!("[\"f\",{}]", f.index()),
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l.index()),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    format!("[\"ci\",{},{},{}]", offset, min_length, from_end)
                }
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"ss\",{},{},{}]", from, to, from_end),
                ProjectionElem::Downcast(_, v) => format!("[\"v\",{}]", v.index()),
                o => format!("[\"o\",{}]", js(&format!("{:?}", o))),
            });
            pt = pt.projection_ty(self.tcx, e);
        }
        format!("{{\"l\":{},\"p\":{}}}", p.local.index(), arr(v))
    }
    fn alloc_vals(&self, id: rustc_middle::mir::interpret::AllocId, off: u64, t: Ty<'tcx>) -> String {
        // arrays of primitives, or primitives, behind an allocation
        let tcx = self.tcx;
        let GlobalAlloc::Memory(m) = tcx.global_alloc(id) else { return "null".into() };
        let inner = m.inner();
        let (e, n) = match t.kind() {
            ty::Array(e, n) => match n.try_to_target_usize(tcx) {
                Some(n) => (*e, Some(n)),
                None => return "null".into(),
            },
            _ => (t, None),
        };
        let Ok(lay) = tcx.layout_of(self.env.as_query_input(e)) else { return "null".into() };
        let sz = lay.size.bytes();
        if sz == 0 || !e.is_primitive() {
            return "null".into();
        }
        let cnt = n.unwrap_or(1);
        let mut v = vec![];
        for i in 0..cnt {
            let lo = (off + i * sz) as usize;
            let hi = lo + sz as usize;
            if hi > inner.len() {
                return "null".into();
            }
            let b = inner.inspect_with_uninit_and_ptr_outside_interpreter(lo..hi);
            let mut bits: u128 = 0;
            for (k, x) in b.iter().enumerate() {
                bits |= (*x as u128) << (8 * k);
            }
            v.push(format!("\"{}\"", bits));
        }
        match n {
            Some(_) => format!("{{\"arr\":{},\"e\":{}}}", arr(v), self.ty(e)),
            None => format!("{{\"bits\":{},\"e\":{}}}", v[0], self.ty(e)),
        }
    }
    fn constant(&self, c: &ConstOperand<'tcx>) -> String {
        let tcx = self.tcx;
        let t = c.const_.ty();
        let mut extra = String::new();
        if let Const::Unevaluated(u, _) = c.const_ {
            let _ = write!(extra, ",\"def\":{},\"u\":{}", js(&self.path(u.def)), js(&self.uid(u.def)));
            if let Some(p) = u.promoted {
                let _ = write!(extra, ",\"promoted\":{}", p.index());
            }
        }
        if let Const::Ty(_, k) = c.const_ {
            let _ = write!(extra, ",\"tyc\":{}", self.konst(k));
        }
        let too_generic = match c.const_ {
            Const::Unevaluated(u, _) => u.promoted.is_some(),
            Const::Ty(_, _) => false,
            _ => false,
        };
        if !too_generic && !matches!(t.kind(), ty::FnDef(..)) {
            if let Ok(v) = c.const_.eval(tcx, self.env, rustc_span::DUMMY_SP) {
                match v {
                    ConstValue::Scalar(Scalar::Int(i)) => {
                        let _ = write!(extra, ",\"bits\":\"{}\",\"size\":{}", i.to_bits(i.size()), i.size().bytes());
                    }
                    ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                        let (prov, off) = p.into_raw_parts();
                        if let Some(inner) = t.builtin_deref(true) {
                            let _ = write!(extra, ",\"ptr\":{}", self.alloc_vals(prov.alloc_id(), off.bytes(), inner));
                        }
                        match tcx.global_alloc(prov.alloc_id()) {
                            GlobalAlloc::Static(d) => {
                                let _ = write!(extra, ",\"static\":{}", js(&self.path(d)));
                            }
                            GlobalAlloc::Function { instance } => {
                                let _ = write!(extra, ",\"fnptr\":{}", js(&self.path(instance.def_id())));
                            }
                            _ => {}
                        }
                    }
                    ConstValue::Slice { alloc_id, meta } => {
                        if let GlobalAlloc::Memory(m) = tcx.global_alloc(alloc_id) {
                            let b = m.inner().inspect_with_uninit_and_ptr_outside_interpreter(0..(meta as usize).min(m.inner().len()));
                            let _ = write!(extra, ",\"str\":{}", js(&String::from_utf8_lossy(b)));
                        }
                    }
                    ConstValue::Indirect { alloc_id, offset } => {
                        let _ = write!(extra, ",\"mem\":{}", self.alloc_vals(alloc_id, offset.bytes(), t));
                    }
                    ConstValue::ZeroSized => {
                        extra.push_str(",\"zst\":true");
                    }
                }
            }
        }
        format!("{{\"k\":\"const\",\"t\":{}{}}}", self.ty(t), extra)
    }
    fn operand(&self, o: &Operand<'tcx>, b: &Body<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("{{\"k\":\"copy\",\"p\":{}}}", self.place(*p, b)),
            Operand::Move(p) => format!("{{\"k\":\"move\",\"p\":{}}}", self.place(*p, b)),
            Operand::Constant(c) => self.constant(c),
            o => format!("{{\"k\":\"rt\",\"s\":{}}}", js(&format!("{:?}", o))),
        }
    }
    fn rvalue(&self, r: &Rvalue<'tcx>, b: &Body<'tcx>) -> String {
        let op = |o: &Operand<'tcx>| self.operand(o, b);
        match r {
            Rvalue::Use(o, _) => format!("{{\"k\":\"use\",\"o\":{}}}", op(o)),
            Rvalue::Repeat(o, n) => format!("{{\"k\":\"repeat\",\"o\":{},\"n\":{}}}", op(o), self.konst(*n)),
            Rvalue::Ref(_, bk, p) => {
                format!("{{\"k\":\"ref\",\"m\":{},\"p\":{}}}", matches!(bk, BorrowKind::Mut { .. }), self.place(*p, b))
            }
            Rvalue::RawPtr(k, p) => format!("{{\"k\":\"rawptr\",\"m\":{},\"p\":{}}}", matches!(k, RawPtrKind::Mut), self.place(*p, b)),
            Rvalue::Cast(k, o, t) => format!(
                "{{\"k\":\"cast\",\"c\":{},\"o\":{},\"from\":{},\"t\":{}}}",
                js(&format!("{:?}", k)), op(o), self.ty(o.ty(&b.local_decls, self.tcx)), self.ty(*t)
            ),
            Rvalue::BinaryOp(k, x) => format!(
                "{{\"k\":\"bin\",\"op\":\"{:?}\",\"a\":{},\"b\":{},\"t\":{}}}",
                k, op(&x.0), op(&x.1), self.ty(x.0.ty(&b.local_decls, self.tcx))
            ),
            Rvalue::UnaryOp(k, x) => format!(
                "{{\"k\":\"un\",\"op\":\"{:?}\",\"a\":{},\"t\":{}}}", k, op(x), self.ty(x.ty(&b.local_decls, self.tcx))
            ),
            Rvalue::Discriminant(p) => format!("{{\"k\":\"discr\",\"p\":{}}}", self.place(*p, b)),
            Rvalue::CopyForDeref(p) => format!("{{\"k\":\"use\",\"o\":{{\"k\":\"copy\",\"p\":{}}}}}", self.place(*p, b)),
            Rvalue::Aggregate(k, fs) => {
                let f = arr(fs.iter().map(|o| op(o)).collect());
                let kk = match &**k {
                    AggregateKind::Array(_) => "{\"k\":\"array\"}".to_string(),
                    AggregateKind::Tuple => "{\"k\":\"tuple\"}".to_string(),
                    AggregateKind::Adt(d, v, _, _, _) => {
                        format!("{{\"k\":\"adt\",\"n\":{},\"v\":{},\"enum\":{}}}", js(&self.path(*d)), v.index(), self.tcx.adt_def(*d).is_enum())
                    }
                    AggregateKind::Closure(d, _) => format!("{{\"k\":\"closure\",\"u\":{}}}", js(&self.uid(*d))),
                    o => format!("{{\"k\":\"o\",\"s\":{}}}", js(&format!("{:?}", o))),
                };
                format!("{{\"k\":\"agg\",\"a\":{},\"f\":{}}}", kk, f)
            }
            Rvalue::Reborrow(_, m, p) => format!("{{\"k\":\"ref\",\"m\":{},\"p\":{}}}", m.is_mut(), self.place(*p, b)),
            o => format!("{{\"k\":\"o\",\"s\":{}}}", js(&format!("{:?}", o))),
        }
    }
    fn body(&self, b: &Body<'tcx>) -> String {
        let mut locals = vec![];
        for (_, l) in b.local_decls.iter_enumerated() {
            locals.push(self.ty(l.ty));
        }
        let mut names = vec![];
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                names.push(format!("[{},{}]", js(v.name.as_str()), self.place(p, b)));
            }
        }
        let mut bbs = vec![];
        for (_, bb) in b.basic_blocks.iter_enumerated() {
            let mut ss = vec![];
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(x) => ss.push(format!(
                        "[\"=\",{},{},{}]", self.place(x.0, b), self.rvalue(&x.1, b), self.span(s.source_info.span)
                    )),
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        ss.push(format!("[\"sd\",{},{}]", self.place(**place, b), variant_index.index()))
                    }
                    StatementKind::Intrinsic(i) => ss.push(format!("[\"intr\",{},{}]", js(&format!("{:?}", i)), self.span(s.source_info.span))),
                    _ => {}
                }
            }
            let t = bb.terminator();
            let sp = self.span(t.source_info.span);
            let bi = |x: &BasicBlock| x.index();
            let tt = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("{{\"k\":\"goto\",\"t\":{}}}", bi(target)),
                TerminatorKind::SwitchInt { discr, targets } => format!(
                    "{{\"k\":\"switch\",\"o\":{},\"ty\":{},\"v\":{},\"else\":{},\"s\":{}}}",
                    self.operand(discr, b), self.ty(discr.ty(&b.local_decls, self.tcx)),
                    arr(targets.iter().map(|(v, t)| format!("[\"{}\",{}]", v, t.index())).collect()),
                    bi(&targets.otherwise()), sp
                ),
                TerminatorKind::Return => "{\"k\":\"return\"}".into(),
                TerminatorKind::Unreachable => "{\"k\":\"unreachable\"}".into(),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => "{\"k\":\"unwind\"}".into(),
                TerminatorKind::Drop { place, target, .. } => {
                    format!("{{\"k\":\"drop\",\"p\":{},\"t\":{}}}", self.place(*place, b), bi(target))
                }
                TerminatorKind::Call { func, args, destination, target, .. } => format!(
                    "{{\"k\":\"call\",\"f\":{},\"fty\":{},\"a\":{},\"at\":{},\"d\":{},\"t\":{},\"s\":{}}}",
                    self.operand(func, b), self.ty(func.ty(&b.local_decls, self.tcx)),
                    arr(args.iter().map(|a| self.operand(&a.node, b)).collect()),
                    arr(args.iter().map(|a| self.ty(a.node.ty(&b.local_decls, self.tcx))).collect()),
                    self.place(*destination, b),
                    match target { Some(t) => bi(t).to_string(), None => "null".into() }, sp
                ),
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let (mk, ops): (String, Vec<String>) = match &**msg {
                        AssertKind::BoundsCheck { len, index } => ("bounds".into(), vec![self.operand(len, b), self.operand(index, b)]),
                        AssertKind::Overflow(op, l, r) => (format!("overflow_{:?}", op), vec![self.operand(l, b), self.operand(r, b)]),
                        AssertKind::OverflowNeg(o) => ("overflow_Neg".into(), vec![self.operand(o, b)]),
                        AssertKind::DivisionByZero(o) => ("div0".into(), vec![self.operand(o, b)]),
                        AssertKind::RemainderByZero(o) => ("rem0".into(), vec![self.operand(o, b)]),
                        o => (format!("{:?}", o), vec![]),
                    };
                    format!(
                        "{{\"k\":\"assert\",\"o\":{},\"e\":{},\"m\":{},\"mo\":{},\"t\":{},\"s\":{}}}",
                        self.operand(cond, b), expected, js(&mk), arr(ops), bi(target), sp
                    )
                }
                TerminatorKind::FalseEdge { real_target, .. } | TerminatorKind::FalseUnwind { real_target, .. } => {
                    format!("{{\"k\":\"goto\",\"t\":{}}}", bi(real_target))
                }
                o => format!("{{\"k\":\"o\",\"s\":{}}}", js(&format!("{:?}", o))),
            };
            bbs.push(format!("{{\"s\":{},\"t\":{},\"c\":{}}}", arr(ss), tt, bb.is_cleanup));
        }
        format!("{{\"argc\":{},\"locals\":{},\"names\":{},\"bbs\":{}}}", b.arg_count, arr(locals), arr(names), arr(bbs))
    }
}

// unsafe blocks written in the source of a body (not those of macros of other crates)
struct Blocks<'tcx> {
    tcx: TyCtxt<'tcx>,
    at: Vec<Span>,
}
impl<'tcx> rustc_hir::intravisit::Visitor<'tcx> for Blocks<'tcx> {
    type NestedFilter = rustc_middle::hir::nested_filter::OnlyBodies;
    fn maybe_tcx(&mut self) -> TyCtxt<'tcx> {
        self.tcx
    }
    fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
        if let rustc_hir::BlockCheckMode::UnsafeBlock(rustc_hir::UnsafeSource::UserProvided) = b.rules {
            let foreign = b.span.from_expansion() && b.span.ctxt().outer_expn_data().macro_def_id.map_or(true, |m| !m.is_local());
            if !foreign {
                self.at.push(b.span);
            }
        }
        rustc_hir::intravisit::walk_block(self, b);
    }
}

struct Cb;
impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let name = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
        let want = std::env::var("MIRDUMP_CRATES").unwrap_or_default();
        let out = std::env::var("MIRDUMP_OUT").unwrap_or_default();
        if out.is_empty() || !want.split(',').any(|w| w == name) {
            return Compilation::Continue;
        }
        let mut fns = vec![];
        let mut keys: Vec<LocalDefId> = tcx.mir_keys(()).iter().copied().collect();
        keys.sort_by_key(|k| k.local_def_index.as_u32());
        for k in keys {
            let d = k.to_def_id();
            let kind = tcx.def_kind(d);
            let cx = Cx { tcx, env: TypingEnv::post_analysis(tcx, tcx.typeck_root_def_id(d)) };
            let is_fn = matches!(kind, DefKind::Fn | DefKind::AssocFn | DefKind::Closure);
            let b = match kind {
                DefKind::Fn | DefKind::AssocFn | DefKind::Closure => tcx.optimized_mir(d),
                DefKind::Ctor(..) => continue,
                _ => tcx.mir_for_ctfe(d),
            };
            let vis = if is_fn && !matches!(kind, DefKind::Closure) { tcx.effective_visibilities(()).is_reachable(k) } else { false };
            let unsafe_fn = matches!(kind, DefKind::Fn | DefKind::AssocFn) && !tcx.fn_sig(d).skip_binder().safety().is_safe();
            let mut blocks = vec![];
            let root = tcx.typeck_root_def_id(d);
            if let Some(hb) = root.as_local().and_then(|r| tcx.hir_maybe_body_owned_by(r)) {
                let mut v = Blocks { tcx, at: vec![] };
                rustc_hir::intravisit::Visitor::visit_body(&mut v, hb);
                for s in v.at {
                    blocks.push(cx.span(s));
                }
            }
            let mut prom = vec![];
            for p in tcx.promoted_mir(d).iter() {
                prom.push(cx.body(p));
            }
            let parent = if matches!(kind, DefKind::Closure) { js(&cx.uid(tcx.typeck_root_def_id(d))) } else { "null".into() };
            let imp = match tcx.opt_parent(d) {
                Some(p) if matches!(tcx.def_kind(p), DefKind::Impl { .. }) => {
                    let st = tcx.type_of(p).instantiate_identity().skip_norm_wip();
                    let tr = tcx.impl_opt_trait_ref(p).map(|t| t.instantiate_identity().skip_norm_wip());
                    format!("{{\"self\":{},\"trait\":{}}}", cx.ty(st), match tr { Some(t) => js(&cx.path(t.def_id)), None => "null".into() })
                }
                _ => "null".into(),
            };
            let mut gens = vec![];
            {
                let g = tcx.generics_of(tcx.typeck_root_def_id(d));
                for i in 0..g.count() {
                    let p = g.param_at(i, tcx);
                    if !matches!(p.kind, ty::GenericParamDefKind::Lifetime) {
                        gens.push(js(p.name.as_str()));
                    }
                }
            }
            fns.push(format!(
                "{{\"uid\":{},\"path\":{},\"kind\":{},\"pub\":{},\"unsafe\":{},\"blocks\":{},\"parent\":{},\"impl\":{},\"gens\":{},\"span\":{},\"body\":{},\"promoted\":{}}}",
                js(&cx.uid(d)), js(&cx.path(d)), js(&format!("{:?}", kind)), vis, unsafe_fn, arr(blocks), parent, imp, arr(gens),
                cx.span(tcx.def_span(d)), cx.body(b), arr(prom)
            ));
        }
        let mut crates = vec![];
        for c in tcx.crates(()) {
            crates.push(js(tcx.crate_name(*c).as_str()));
        }
        // ADT layouts (field names) of local + used types
        let mut adts = vec![];
        for id in tcx.hir_free_items() {
            let d = id.owner_id.to_def_id();
            if matches!(tcx.def_kind(d), DefKind::Struct | DefKind::Enum) {
                let a = tcx.adt_def(d);
                let vs: Vec<String> = a.variants().iter().map(|v| {
                    format!("{{\"n\":{},\"f\":{}}}", js(v.name.as_str()), arr(v.fields.iter().map(|f| js(f.name.as_str())).collect()))
                }).collect();
                let p = with_no_trimmed_paths!(tcx.def_path_str(d));
                adts.push(format!("{{\"n\":{},\"v\":{}}}", js(&p), arr(vs)));
            }
        }
        let mut statics = vec![];
        for id in tcx.hir_free_items() {
            let d = id.owner_id.to_def_id();
            if let DefKind::Static { mutability, .. } = tcx.def_kind(d) {
                let cx = Cx { tcx, env: TypingEnv::fully_monomorphized() };
                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                statics.push(format!("{{\"n\":{},\"mut\":{},\"freeze\":{},\"span\":{}}}", js(&cx.path(d)), mutability.is_mut(), t.is_freeze(tcx, cx.env), cx.span(tcx.def_span(d))));
            }
        }
        let s = format!(
            "{{\"crate\":{},\"crates\":{},\"adts\":{},\"statics\":{},\"fns\":[\n{}\n]}}",
            js(&name), arr(crates), arr(adts), arr(statics), fns.join(",\n")
        );
        let f = format!("{}/{}.json", out, name);
        std::fs::write(&f, s).expect("write mir json");
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // as RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    let code = rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Cb));
    std::process::exit(if code == std::process::ExitCode::SUCCESS { 0 } else { 1 });
}
