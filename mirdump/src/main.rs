// mirdump: a rustc driver which dumps the MIR of the crate it compiles as JSON.
//
// It is used as RUSTC_WORKSPACE_WRAPPER; the dump is written to $MIRDUMP_OUT when the crate's name
// equals $MIRDUMP_CRATE and it is compiled as a lib. Nothing is dropped except: storage markers,
// coverage/fake-read statements, unwind (panic clean-up) edges, lifetimes, and spans.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_interface::interface::Compiler;
use rustc_middle::mir::*;
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, GenericArgKind, GenericArgsRef, Ty, TyCtxt, TypingEnv};
use std::collections::BTreeMap;
use std::fmt::Write as _;

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn list(v: &[String]) -> String {
    format!("[{}]", v.join(","))
}

struct D<'tcx> {
    tcx: TyCtxt<'tcx>,
    adts: BTreeMap<String, String>,
    env: TypingEnv<'tcx>,
}

impl<'tcx> D<'tcx> {
    fn key(&self, d: DefId) -> String {
        let tcx = self.tcx;
        if d.is_local() {
            // unique and independent of spans: def path with disambiguators
            tcx.def_path(d).to_string_no_crate_verbose().trim_start_matches("::").to_string()
        } else {
            with_no_trimmed_paths!(tcx.def_path_str(d))
        }
    }
    fn jkey(&self, d: DefId) -> String {
        let k = self.key(d);
        if d.is_local() {
            esc(&format!("@{}", k))
        } else {
            esc(&k)
        }
    }
    fn args(&mut self, a: GenericArgsRef<'tcx>) -> String {
        let mut v = vec![];
        for g in a.iter() {
            match g.kind() {
                GenericArgKind::Type(t) => v.push(self.ty(t)),
                GenericArgKind::Const(c) => v.push(self.cst(c)),
                _ => {}
            }
        }
        list(&v)
    }
    fn cst(&mut self, c: ty::Const<'tcx>) -> String {
        match c.kind() {
            ty::ConstKind::Param(p) => format!("[\"cparam\",{}]", esc(p.name.as_str())),
            ty::ConstKind::Value(v) => {
                if let Some(s) = v.try_to_leaf() {
                    format!("[\"cint\",{}]", s.to_bits(s.size()))
                } else {
                    format!("[\"cother\",{}]", esc(&format!("{:?}", c)))
                }
            }
            _ => format!("[\"cother\",{}]", esc(&format!("{:?}", c))),
        }
    }
    fn adt(&mut self, def: ty::AdtDef<'tcx>) {
        let k = self.jkey(def.did());
        if self.adts.contains_key(&k) {
            return;
        }
        self.adts.insert(k.clone(), String::new());
        let tcx = self.tcx;
        let kind = if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" };
        let mut vs = vec![];
        let discrs: Vec<(rustc_abi::VariantIdx, u128)> = if def.is_enum() {
            def.discriminants(tcx).map(|(i, d)| (i, d.val)).collect()
        } else {
            vec![]
        };
        for (i, v) in def.variants().iter_enumerated() {
            let mut fs = vec![];
            for f in v.fields.iter() {
                let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                let t = if def.did().is_local() { self.ty(t) } else { "null".to_string() };
                fs.push(format!("[{},{}]", esc(f.name.as_str()), t));
            }
            let d = discrs.iter().find(|x| x.0 == i).map(|x| x.1.to_string()).unwrap_or("0".into());
            vs.push(format!("{{\"name\":{},\"discr\":{},\"fields\":{}}}", esc(v.name.as_str()), d, list(&fs)));
        }
        let gens = self.generics(def.did());
        self.adts.insert(k, format!("{{\"kind\":\"{}\",\"generics\":{},\"variants\":{}}}", kind, gens, list(&vs)));
    }
    fn generics(&self, d: DefId) -> String {
        let tcx = self.tcx;
        let mut names = vec![];
        let mut stack = vec![];
        let mut g = Some(tcx.generics_of(d));
        while let Some(gg) = g {
            stack.push(gg);
            g = gg.parent.map(|p| tcx.generics_of(p));
        }
        for gg in stack.iter().rev() {
            for p in &gg.own_params {
                match p.kind {
                    ty::GenericParamDefKind::Lifetime => {}
                    _ => names.push(esc(p.name.as_str())),
                }
            }
        }
        list(&names)
    }
    fn ty(&mut self, t: Ty<'tcx>) -> String {
        match t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) | ty::Str => esc(&format!("{}", t)),
            ty::Never => "\"!\"".into(),
            ty::Adt(def, args) => {
                self.adt(*def);
                let k = self.jkey(def.did());
                format!("[\"adt\",{},{}]", k, self.args(args))
            }
            ty::Array(e, n) => format!("[\"arr\",{},{}]", self.ty(*e), self.cst(*n)),
            ty::Slice(e) => format!("[\"slice\",{}]", self.ty(*e)),
            ty::RawPtr(e, _) => format!("[\"ptr\",{}]", self.ty(*e)),
            ty::Ref(_, e, m) => format!("[\"ref\",{},{}]", m.is_mut(), self.ty(*e)),
            ty::FnDef(d, a) => {
                let a = a.no_bound_vars().unwrap_or_else(|| a.skip_binder());
                format!("[\"fndef\",{},{}]", self.jkey(*d), self.args(a))
            }
            ty::Closure(d, a) => {
                let ups: Vec<String> = a.as_closure().upvar_tys().iter().map(|t| self.ty(t)).collect();
                let pa = a.as_closure().parent_args();
                let mut v = vec![];
                for g in pa.iter() {
                    match g.kind() {
                        GenericArgKind::Type(t) => v.push(self.ty(t)),
                        GenericArgKind::Const(c) => v.push(self.cst(c)),
                        _ => {}
                    }
                }
                format!("[\"closure\",{},{},{}]", self.jkey(*d), list(&v), list(&ups))
            }
            ty::Tuple(ts) => {
                let v: Vec<String> = ts.iter().map(|t| self.ty(t)).collect();
                format!("[\"tuple\",{}]", list(&v))
            }
            ty::Param(p) => format!("[\"param\",{}]", esc(p.name.as_str())),
            ty::Dynamic(preds, ..) => {
                let s = match preds.principal() {
                    Some(p) => self.jkey(p.def_id()),
                    None => "\"?\"".into(),
                };
                format!("[\"dyn\",{}]", s)
            }
            ty::Alias(..) => {
                // projection such as <T as Trait>::Assoc
                format!("[\"alias\",{}]", esc(&with_no_trimmed_paths!(format!("{}", t))))
            }
            ty::FnPtr(..) => "[\"fnptr\"]".into(),
            _ => format!("[\"other\",{}]", esc(&with_no_trimmed_paths!(format!("{}", t)))),
        }
    }
    fn place(&mut self, p: &Place<'tcx>) -> String {
        let mut v = vec![];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => "\"*\"".to_string(),
                ProjectionElem::Field(f, _) => format!("[\"f\",{}]", f.as_usize()),
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l.as_usize()),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    format!("[\"ci\",{},{},{}]", offset, min_length, from_end)
                }
                ProjectionElem::Downcast(_, i) => format!("[\"dc\",{}]", i.as_usize()),
                other => format!("[\"other\",{}]", esc(&format!("{:?}", other))),
            });
        }
        format!("[{},{}]", p.local.as_usize(), list(&v))
    }
    fn constant(&mut self, c: &Const<'tcx>) -> String {
        let t = c.ty();
        let ts = self.ty(t);
        let v = match c {
            Const::Ty(_, ct) => match ct.kind() {
                ty::ConstKind::Param(p) => format!("[\"param\",{}]", esc(p.name.as_str())),
                _ => {
                    let s = self.cst(*ct);
                    format!("[\"ct\",{}]", s)
                }
            },
            Const::Unevaluated(u, _) if u.promoted.is_some() => {
                format!("[\"promoted\",{},{},{}]", self.jkey(u.def), u.promoted.unwrap().as_usize(), self.args(u.args))
            }
            _ => {
                let ev = if let Const::Unevaluated(u, _) = c {
                    use rustc_middle::ty::TypeVisitableExt;
                    if u.args.has_param() { None } else { c.eval(self.tcx, self.env, rustc_span::DUMMY_SP).ok() }
                } else if let Const::Val(v, _) = c {
                    Some(*v)
                } else {
                    None
                };
                match ev {
                    Some(v) => self.val(v, t),
                    None => {
                        if let Const::Unevaluated(u, _) = c {
                            format!("[\"uneval\",{},{}]", self.jkey(u.def), self.args(u.args))
                        } else {
                            format!("[\"other\",{}]", esc(&format!("{:?}", c)))
                        }
                    }
                }
            }
        };
        format!("[\"k\",{},{}]", ts, v)
    }
    fn val(&mut self, v: ConstValue, t: Ty<'tcx>) -> String {
        match v {
            ConstValue::ZeroSized => "[\"zst\"]".into(),
            ConstValue::Scalar(s) => match s.try_to_scalar_int() {
                Ok(i) => format!("[\"bits\",{},{}]", i.to_bits(i.size()), i.size().bytes()),
                Err(_) => self.stat(s, t).or_else(|| self.pointee(s, t)).unwrap_or("[\"ptrconst\"]".into()),
            },
            ConstValue::Slice { .. } => {
                if let ty::Ref(_, e, _) = t.kind() {
                    if e.is_str() {
                        if let Some(b) = v.try_get_slice_bytes_for_diagnostics(self.tcx) {
                            return format!("[\"str\",{}]", esc(&String::from_utf8_lossy(b)));
                        }
                    }
                }
                "[\"slice\"]".into()
            }
            _ => "[\"indirect\"]".into(),
        }
    }
    /// reference to a static: its definition and whether its content can change
    fn stat(&mut self, s: rustc_middle::mir::interpret::Scalar, t: Ty<'tcx>) -> Option<String> {
        let rustc_middle::mir::interpret::Scalar::Ptr(p, _) = s else { return None };
        let (prov, off) = p.into_raw_parts();
        let rustc_middle::mir::interpret::GlobalAlloc::Static(d) = self.tcx.global_alloc(prov.alloc_id()) else { return None };
        let e = match t.kind() {
            ty::Ref(_, e, _) => *e,
            ty::RawPtr(e, _) => *e,
            _ => return None,
        };
        if off.bytes() != 0 {
            return None;
        }
        let fixed = !self.tcx.is_mutable_static(d) && e.is_freeze(self.tcx, self.env);
        Some(format!("[\"static\",{},{},{},{}]", self.jkey(d), fixed, e.is_freeze(self.tcx, self.env), self.ty(e)))
    }
    /// contents of a constant byte array behind a reference (templates of format strings)
    fn pointee(&mut self, s: rustc_middle::mir::interpret::Scalar, t: Ty<'tcx>) -> Option<String> {
        let ty::Ref(_, e, _) = t.kind() else { return None };
        let ty::Array(el, _) = e.kind() else { return None };
        if !matches!(el.kind(), ty::Uint(ty::UintTy::U8)) {
            return None;
        }
        let rustc_middle::mir::interpret::Scalar::Ptr(p, _) = s else { return None };
        let (prov, off) = p.into_raw_parts();
        let rustc_middle::mir::interpret::GlobalAlloc::Memory(a) = self.tcx.global_alloc(prov.alloc_id()) else { return None };
        let a = a.inner();
        let b = a.inspect_with_uninit_and_ptr_outside_interpreter(off.bytes_usize()..a.len());
        let v: Vec<String> = b.iter().map(|x| x.to_string()).collect();
        Some(format!("[\"bytes\",{}]", list(&v)))
    }
    fn op(&mut self, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("[\"cp\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"mv\",{}]", self.place(p)),
            Operand::Constant(c) => self.constant(&c.const_),
            #[allow(unreachable_patterns)]
            other => format!("[\"opother\",{}]", esc(&format!("{:?}", other))),
        }
    }
    fn rvalue(&mut self, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(o, ..) => format!("[\"use\",{}]", self.op(o)),
            Rvalue::Repeat(o, c) => format!("[\"repeat\",{},{}]", self.op(o), self.cst(*c)),
            Rvalue::Ref(_, k, p) => format!("[\"ref\",{},{}]", matches!(k, BorrowKind::Mut { .. }), self.place(p)),
            Rvalue::RawPtr(_, p) => format!("[\"rawptr\",{}]", self.place(p)),
            Rvalue::Cast(k, o, t) => {
                format!("[\"cast\",{},{},{}]", esc(&format!("{:?}", k)), self.op(o), self.ty(*t))
            }
            Rvalue::BinaryOp(b, ops) => {
                format!("[\"bin\",\"{:?}\",{},{}]", b, self.op(&ops.0), self.op(&ops.1))
            }
            Rvalue::UnaryOp(u, o) => format!("[\"un\",\"{:?}\",{}]", u, self.op(o)),
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(p)),
            Rvalue::Aggregate(k, ops) => {
                let o: Vec<String> = ops.iter().map(|o| self.op(o)).collect();
                let kk = match &**k {
                    AggregateKind::Array(_) => "[\"array\"]".to_string(),
                    AggregateKind::Tuple => "[\"tuple\"]".to_string(),
                    AggregateKind::Adt(d, v, a, _, _) => {
                        let def = self.tcx.adt_def(*d);
                        self.adt(def);
                        format!("[\"adt\",{},{},{}]", self.jkey(*d), v.as_usize(), self.args(a))
                    }
                    AggregateKind::Closure(d, a) => {
                        let pa = a.as_closure().parent_args();
                        let mut v = vec![];
                        for g in pa.iter() {
                            match g.kind() {
                                GenericArgKind::Type(t) => v.push(self.ty(t)),
                                GenericArgKind::Const(c) => v.push(self.cst(c)),
                                _ => {}
                            }
                        }
                        format!("[\"closure\",{},{}]", self.jkey(*d), list(&v))
                    }
                    other => format!("[\"other\",{}]", esc(&format!("{:?}", other))),
                };
                format!("[\"agg\",{},{}]", kk, list(&o))
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"cp\",{}]]", self.place(p)),
            other => format!("[\"other\",{}]", esc(&format!("{:?}", other))),
        }
    }
    fn body(&mut self, b: &Body<'tcx>) -> String {
        let mut locals = vec![];
        for l in b.local_decls.iter() {
            locals.push(self.ty(l.ty));
        }
        let mut blocks = vec![];
        for bb in b.basic_blocks.iter() {
            let mut st = vec![];
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(pr) => {
                        let line = self.tcx.sess.source_map().lookup_char_pos(s.source_info.span.lo()).line;
                        st.push(format!("[\"=\",{},{},{}]", self.place(&pr.0), self.rvalue(&pr.1), line));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        st.push(format!("[\"setdiscr\",{},{}]", self.place(place), variant_index.as_usize()));
                    }
                    StatementKind::Intrinsic(i) => st.push(format!("[\"intrinsic\",{}]", esc(&format!("{:?}", i)))),
                    _ => {}
                }
            }
            let term = bb.terminator();
            let line = self.tcx.sess.source_map().lookup_char_pos(term.source_info.span.lo()).line;
            let t = match &term.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets, .. } => {
                    let v: Vec<String> = targets.iter().map(|(a, b)| format!("[{},{}]", a, b.as_usize())).collect();
                    format!("[\"switch\",{},{},{},{}]", self.op(discr), list(&v), targets.otherwise().as_usize(), line)
                }
                TerminatorKind::Return => "[\"return\"]".into(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => "[\"resume\"]".into(),
                TerminatorKind::Drop { place, target, .. } => {
                    format!("[\"drop\",{},{}]", self.place(place), target.as_usize())
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let a: Vec<String> = args.iter().map(|x| self.op(&x.node)).collect();
                    let t = target.map(|t| t.as_usize().to_string()).unwrap_or("null".into());
                    format!("[\"call\",{},{},{},{},{}]", self.op(func), list(&a), self.place(destination), t, line)
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = match &**msg {
                        AssertKind::BoundsCheck { .. } => "bounds".to_string(),
                        AssertKind::Overflow(op, ..) => format!("overflow:{:?}", op),
                        AssertKind::OverflowNeg(..) => "overflow:Neg".into(),
                        AssertKind::DivisionByZero(..) => "divzero".into(),
                        AssertKind::RemainderByZero(..) => "remzero".into(),
                        _ => "other".into(),
                    };
                    format!("[\"assert\",{},{},{},{},{}]", self.op(cond), expected, esc(&m), target.as_usize(), line)
                }
                TerminatorKind::FalseEdge { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                other => format!("[\"other\",{}]", esc(&format!("{:?}", other))),
            };
            blocks.push(format!("{{\"c\":{},\"s\":{},\"t\":{}}}", bb.is_cleanup, list(&st), t));
        }
        format!("{{\"argc\":{},\"locals\":{},\"blocks\":{}}}", b.arg_count, list(&locals), list(&blocks))
    }
}

struct Cb;
impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let want = std::env::var("MIRDUMP_CRATE").unwrap_or_default();
        let out = std::env::var("MIRDUMP_OUT").unwrap_or_default();
        let name = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE);
        if out.is_empty() || name.as_str() != want {
            return Compilation::Continue;
        }
        let mut d = D { tcx, adts: BTreeMap::new(), env: TypingEnv::fully_monomorphized() };
        let mut fns = vec![];
        let mut impls = vec![];
        let mut traits = vec![];
        for def in tcx.hir_body_owners() {
            let did = def.to_def_id();
            let kind = tcx.def_kind(did);
            let isconst = matches!(
                kind,
                DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } | DefKind::AnonConst
            );
            if matches!(kind, DefKind::AnonConst) {
                continue;
            }
            d.env = TypingEnv::post_analysis(tcx, did);
            let body = if isconst { tcx.mir_for_ctfe(did) } else { tcx.optimized_mir(did) };
            let b = d.body(body);
            let mut proms = vec![];
            for p in tcx.promoted_mir(did).iter() {
                proms.push(d.body(p));
            }
            let human = with_no_trimmed_paths!(tcx.def_path_str(did));
            let span = tcx.def_span(did);
            let loc = tcx.sess.source_map().lookup_char_pos(span.lo());
            let fname = match &loc.file.name {
                rustc_span::FileName::Real(r) => r.local_path().map(|p| p.display().to_string()).unwrap_or_default(),
                _ => String::new(),
            };
            let vis = if matches!(kind, DefKind::Closure) { false } else { tcx.visibility(did).is_public() };
            fns.push(format!(
                "{}:{{\"kind\":{},\"human\":{},\"generics\":{},\"file\":{},\"line\":{},\"pub\":{},\"body\":{},\"promoted\":{}}}",
                d.jkey(did),
                esc(&format!("{:?}", kind)),
                esc(&human),
                d.generics(did),
                esc(&fname),
                loc.line,
                vis,
                b,
                list(&proms)
            ));
        }
        for id in tcx.hir_free_items() {
            let did = id.owner_id.to_def_id();
            match tcx.def_kind(did) {
                DefKind::Impl { .. } => {
                    let self_ty = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                    let st = d.ty(self_ty);
                    let tr = match tcx.impl_opt_trait_ref(did) {
                        Some(t) => {
                            let t = t.instantiate_identity().skip_norm_wip();
                            format!("[{},{}]", d.jkey(t.def_id), d.args(t.args))
                        }
                        None => "null".into(),
                    };
                    let mut items = vec![];
                    for it in tcx.associated_items(did).in_definition_order() {
                        items.push(format!("[{},{}]", esc(it.name().as_str()), d.jkey(it.def_id)));
                    }
                    impls.push(format!(
                        "{{\"key\":{},\"self\":{},\"trait\":{},\"generics\":{},\"items\":{}}}",
                        d.jkey(did),
                        st,
                        tr,
                        d.generics(did),
                        list(&items)
                    ));
                }
                DefKind::Trait => {
                    let mut items = vec![];
                    for it in tcx.associated_items(did).in_definition_order() {
                        items.push(format!(
                            "[{},{},{}]",
                            esc(it.name().as_str()),
                            d.jkey(it.def_id),
                            it.defaultness(tcx).has_value()
                        ));
                    }
                    traits.push(format!("{}:{{\"items\":{}}}", d.jkey(did), list(&items)));
                }
                DefKind::Struct | DefKind::Enum => {
                    d.adt(tcx.adt_def(did));
                }
                _ => {}
            }
        }
        let adts: Vec<String> = d.adts.iter().map(|(k, v)| format!("{}:{}", k, v)).collect();
        let s = format!(
            "{{\"fns\":{{{}}},\n\"impls\":{},\n\"traits\":{{{}}},\n\"adts\":{{{}}}}}\n",
            fns.join(",\n"),
            list(&impls),
            traits.join(",\n"),
            adts.join(",\n")
        );
        std::fs::write(&out, s).expect("cannot write MIRDUMP_OUT");
        Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // as RUSTC_WORKSPACE_WRAPPER: argv[1] is the path of the real rustc
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Cb))
}
