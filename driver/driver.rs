// rustc driver: dumps resolved, monomorphic MIR (and other compiler facts) of everything reachable from the
// public functions of the crate being compiled.  Used by /verif/analysis (Python).
#![feature(rustc_private)]
#![allow(rustc::internal)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_infer;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;
extern crate rustc_trait_selection;

use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_middle::mir::{self, interpret::GlobalAlloc, interpret::Scalar, ConstValue};
use rustc_middle::ty::{self, GenericArgsRef, Instance, InstanceKind, ShimKind, Ty, TyCtxt, TypingEnv};
use std::collections::HashMap;
use std::fmt::Write as _;

struct J(String);
impl J {
    fn s(x: &str) -> String {
        let mut o = String::with_capacity(x.len() + 2);
        o.push('"');
        for c in x.chars() {
            match c {
                '"' => o.push_str("\\\""),
                '\\' => o.push_str("\\\\"),
                '\n' => o.push_str("\\n"),
                c if (c as u32) < 32 => { let _ = write!(o, "\\u{:04x}", c as u32); }
                c => o.push(c),
            }
        }
        o.push('"');
        o
    }
}
fn arr(v: Vec<String>) -> String { format!("[{}]", v.join(",")) }

struct Dump<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: HashMap<Ty<'tcx>, usize>,
    ty_out: Vec<String>,
    insts: HashMap<Instance<'tcx>, usize>,
    inst_out: Vec<String>,
    work: Vec<(usize, Instance<'tcx>, TypingEnv<'tcx>)>,
    cuts: Vec<String>,
    generic: bool,
}

impl<'tcx> Dump<'tcx> {
    fn path(&self, d: DefId) -> String { rustc_middle::ty::print::with_no_trimmed_paths!(self.tcx.def_path_str(d)) }
    fn ty_str(&self, t: Ty<'tcx>) -> String { rustc_middle::ty::print::with_no_trimmed_paths!(format!("{}", t)) }

    fn ty(&mut self, t: Ty<'tcx>, env: TypingEnv<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(&i) = self.tys.get(&t) { return i; }
        let id = self.ty_out.len();
        self.tys.insert(t, id);
        self.ty_out.push(String::new());
        let tcx = self.tcx;
        let name = J::s(&self.ty_str(t));
        let body = match t.kind() {
            ty::Bool => r#""k":"bool""#.to_string(),
            ty::Char => r#""k":"char""#.to_string(),
            ty::Int(i) => format!(r#""k":"int","bits":{}"#, i.bit_width().unwrap_or(64)),
            ty::Uint(i) => format!(r#""k":"uint","bits":{}"#, i.bit_width().unwrap_or(64)),
            ty::Float(_) => r#""k":"float""#.to_string(),
            ty::Str => r#""k":"str""#.to_string(),
            ty::Never => r#""k":"never""#.to_string(),
            ty::Ref(_, x, m) => { let x = self.ty(*x, env); format!(r#""k":"ref","to":{},"mut":{}"#, x, m.is_mut()) }
            ty::RawPtr(x, m) => { let x = self.ty(*x, env); format!(r#""k":"ptr","to":{},"mut":{}"#, x, m.is_mut()) }
            ty::Slice(x) => { let x = self.ty(*x, env); format!(r#""k":"slice","of":{}"#, x) }
            ty::Array(x, n) => {
                let x = self.ty(*x, env);
                let n = n.try_to_target_usize(tcx).map(|n| n.to_string()).unwrap_or("null".into());
                format!(r#""k":"array","of":{},"len":{}"#, x, n)
            }
            ty::Tuple(ts) => { let v = ts.iter().map(|x| self.ty(x, env).to_string()).collect(); format!(r#""k":"tuple","f":{}"#, arr(v)) }
            ty::Closure(d, a) => {
                let ca = a.as_closure();
                let v = ca.upvar_tys().iter().map(|x| self.ty(x, env).to_string()).collect();
                let f = self.inst(Instance::new_raw(*d, a), env).to_string();
                format!(r#""k":"closure","path":{},"f":{},"fn":{}"#, J::s(&self.path(*d)), arr(v), f)
            }
            ty::FnDef(d, a) => {
                let a = a.skip_binder();
                let r = self.callee(*d, a, env);
                format!(r#""k":"fndef","path":{},"fn":{}"#, J::s(&self.path(*d)), r)
            }
            ty::FnPtr(..) => r#""k":"fnptr""#.to_string(),
            ty::Dynamic(..) => r#""k":"dyn""#.to_string(),
            ty::Param(p) => format!(r#""k":"param","i":{}"#, p.index),
            ty::Alias(..) => r#""k":"alias""#.to_string(),
            ty::Adt(def, args) => {
                let mut targs = vec![];
                for a in args.iter() {
                    if let Some(x) = a.as_type() { targs.push(self.ty(x, env).to_string()); }
                    else if let Some(c) = a.as_const() { targs.push(J::s(&format!("{}", c))); }
                }
                let mut vs = vec![];
                let path = self.path(def.did());
                let deep = !self.generic || path.contains("trees::") || path.starts_with("core::") || path.starts_with("std::");
                if deep {
                    for (vi, v) in def.variants().iter_enumerated() {
                        let mut fs = vec![];
                        for f in v.fields.iter() {
                            let ft = tcx.type_of(f.did).instantiate(tcx, args).skip_norm_wip();
                            let ft = tcx.try_normalize_erasing_regions(env, ty::Unnormalized::new_wip(ft)).unwrap_or(ft);
                            let i = self.ty(ft, env);
                            fs.push(format!("[{},{}]", J::s(f.name.as_str()), i));
                        }
                        let discr = if def.is_enum() { def.discriminant_for_variant(tcx, vi).val.to_string() } else { "0".into() };
                        vs.push(format!(r#"{{"n":{},"d":{},"f":{}}}"#, J::s(v.name.as_str()), discr, arr(fs)));
                    }
                }
                let hasdrop = tcx.adt_destructor(def.did()).is_some();
                format!(r#""k":"adt","path":{},"kind":{},"args":{},"v":{},"dtor":{},"local":{}"#,
                    J::s(&path), J::s(if def.is_enum() {"enum"} else if def.is_union() {"union"} else {"struct"}),
                    arr(targs), arr(vs), hasdrop, J::s(tcx.crate_name(def.did().krate).as_str()))
            }
            _ => r#""k":"other""#.to_string(),
        };
        let copy = if self.generic { false } else { tcx.type_is_copy_modulo_regions(env, t) };
        let nd = if self.generic { true } else { t.needs_drop(tcx, env) };
        let drop = if self.generic || !nd || matches!(t.kind(), ty::Dynamic(..)|ty::Slice(..)|ty::Str) { "null".to_string() }
            else { self.inst(Instance::resolve_drop_glue(tcx, t), env).to_string() };
        let size = if self.generic { "null".into() } else { tcx.layout_of(env.as_query_input(t)).map(|l| l.size.bytes().to_string()).unwrap_or("null".into()) };
        self.ty_out[id] = format!(r#"{{"name":{},{},"copy":{},"nd":{},"drop":{},"size":{}}}"#, name, body, copy, nd, drop, size);
        id
    }

    fn inst(&mut self, i: Instance<'tcx>, env: TypingEnv<'tcx>) -> usize {
        if let Some(&k) = self.insts.get(&i) { return k; }
        let k = self.inst_out.len();
        self.insts.insert(i, k);
        self.inst_out.push(String::new());
        self.work.push((k, i, env));
        k
    }

    // library loops over an arbitrary iterator, replaced by their documented meaning (mod surrogate of the probe crate)
    fn surrogate(&self, i: Instance<'tcx>) -> Instance<'tcx> {
        let tcx = self.tcx;
        if self.generic || i.def_id().is_local() || tcx.opt_item_name(i.def_id()).map_or(true, |n| n.as_str() != "extend") { return i; }
        let p = rustc_middle::ty::print::with_no_trimmed_paths!(tcx.def_path_str(i.def_id()));
        let name = if p.contains("VecDeque<T, A> as") && p.contains("Extend<T>") { "deque_extend" }
            else if p.contains("Vec<T, A> as") && p.contains("Extend<T>") { "vec_extend" }
            else { return i };
        let ts: Vec<_> = i.args.types().collect();
        if ts.len() != 3 { return i; }
        for d in tcx.hir_crate_items(()).definitions() {
            if tcx.opt_item_name(d.to_def_id()).map_or(false, |n| n.as_str() == name) {
                return Instance::new_raw(d.to_def_id(), tcx.mk_args(&[ts[0].into(), ts[2].into()]));
            }
        }
        i
    }

    fn callee(&mut self, d: DefId, a: GenericArgsRef<'tcx>, env: TypingEnv<'tcx>) -> String {
        let tcx = self.tcx;
        match Instance::try_resolve(tcx, env, d, a) {
            Ok(Some(i)) => { let i = self.surrogate(i); self.inst(i, env).to_string() }
            _ => {
                let v: Vec<String> = a.iter().map(|x| J::s(&rustc_middle::ty::print::with_no_trimmed_paths!(format!("{}", x)))).collect();
                format!(r#"{{"unres":{},"args":{}}}"#, J::s(&self.path(d)), arr(v))
            }
        }
    }

    fn place(&mut self, p: &mir::Place<'tcx>, env: TypingEnv<'tcx>) -> String {
        let mut v = vec![];
        for e in p.projection.iter() {
            v.push(match e {
                mir::ProjectionElem::Deref => r#"["*"]"#.to_string(),
                mir::ProjectionElem::Field(f, t) => format!(r#"["f",{},{}]"#, f.as_usize(), self.ty(t, env)),
                mir::ProjectionElem::Index(l) => format!(r#"["i",{}]"#, l.as_usize()),
                mir::ProjectionElem::ConstantIndex { offset, min_length, from_end } => format!(r#"["c",{},{},{}]"#, offset, min_length, from_end),
                mir::ProjectionElem::Subslice { from, to, from_end } => format!(r#"["s",{},{},{}]"#, from, to, from_end),
                mir::ProjectionElem::Downcast(_, v) => format!(r#"["d",{}]"#, v.as_usize()),
                _ => r#"["o"]"#.to_string(),
            });
        }
        format!("[{},{}]", p.local.as_usize(), arr(v))
    }

    fn bytes_of(&self, alloc: rustc_middle::mir::interpret::AllocId, off: usize, len: Option<usize>) -> Option<String> {
        match self.tcx.global_alloc(alloc) {
            GlobalAlloc::Memory(m) => {
                let a = m.inner();
                let end = len.map(|l| off + l).unwrap_or(a.len());
                if end > a.len() { return None; }
                if !a.provenance().ptrs().is_empty() { return None; }
                let b = a.inspect_with_uninit_and_ptr_outside_interpreter(off..end);
                let mut s = String::new();
                for x in b { let _ = write!(s, "{:02x}", x); }
                Some(s)
            }
            _ => None,
        }
    }

    fn cval(&mut self, v: ConstValue, t: Ty<'tcx>, env: TypingEnv<'tcx>, depth: usize) -> String {
        let tcx = self.tcx;
        let tid = self.ty(t, env);
        let inner = match (v, t.kind()) {
            (ConstValue::ZeroSized, _) => r#""zst":1"#.to_string(),
            (ConstValue::Scalar(Scalar::Int(i)), _) if !matches!(t.kind(), ty::Adt(..)|ty::Tuple(..)|ty::Array(..)) =>
                format!(r#""int":"{}","sz":{}"#, i.to_bits(i.size()), i.size().bytes()),
            (ConstValue::Scalar(Scalar::Ptr(p, _)), ty::Ref(_, inner, _)) => {
                let (prov, off) = p.prov_and_relative_offset();
                let aid = prov.alloc_id();
                let off = off.bytes() as usize;
                let mut s = String::from(r#""ptr":1"#);
                if let Some(b) = self.bytes_of(aid, off, None) { let _ = write!(s, r#","bytes":"{}""#, b); }
                if depth < 6 && matches!(inner.kind(), ty::Adt(..)|ty::Tuple(..)|ty::Array(..)|ty::Uint(..)|ty::Int(..)|ty::Bool) {
                    if let GlobalAlloc::Memory(_) = tcx.global_alloc(aid) {
                        let cv = ConstValue::Indirect { alloc_id: aid, offset: rustc_abi::Size::from_bytes(off as u64) };
                        if matches!(inner.kind(), ty::Adt(..)|ty::Tuple(..)|ty::Array(..)) {
                            let x = self.cval(cv, *inner, env, depth + 1);
                            let _ = write!(s, r#","to":{}"#, x);
                        }
                    }
                }
                if let GlobalAlloc::Static(d) = tcx.global_alloc(aid) { let _ = write!(s, r#","static":{}"#, J::s(&self.path(d))); }
                s
            }
            (ConstValue::Scalar(Scalar::Ptr(..)), _) if !matches!(t.kind(), ty::Adt(..)|ty::Tuple(..)|ty::Array(..)) => r#""ptr":1"#.to_string(),
            (ConstValue::Slice { alloc_id, meta }, _) => {
                match self.bytes_of(alloc_id, 0, Some(meta as usize)) {
                    Some(b) => format!(r#""slice":{},"bytes":"{}""#, meta, b),
                    None => format!(r#""slice":{}"#, meta),
                }
            }
            (v, ty::Adt(..) | ty::Tuple(..) | ty::Array(..)) if depth < 6 && !(self.generic && ty::TypeVisitableExt::has_non_region_param(&t)) => {
                match tcx.try_destructure_mir_constant_for_user_output(v, t) {
                    Some(d) => {
                        let fs: Vec<String> = d.fields.iter().map(|(v, t)| self.cval(*v, *t, env, depth + 1)).collect();
                        format!(r#""agg":{},"var":{}"#, arr(fs), d.variant.map(|v| v.as_usize().to_string()).unwrap_or("null".into()))
                    }
                    None => r#""unk":1"#.to_string(),
                }
            }
            _ => r#""unk":1"#.to_string(),
        };
        format!(r#"{{"ty":{},{}}}"#, tid, inner)
    }

    fn konst(&mut self, c: &mir::ConstOperand<'tcx>, env: TypingEnv<'tcx>) -> String {
        let tcx = self.tcx;
        let t = c.const_.ty();
        let tid = self.ty(t, env);
        if let ty::FnDef(..) = t.kind() { return format!(r#"{{"ty":{},"fn":1}}"#, tid); }
        if let mir::Const::Unevaluated(u, _) = c.const_ {
            let p = self.path(u.def);
            let v: Vec<String> = u.args.iter().map(|x| J::s(&rustc_middle::ty::print::with_no_trimmed_paths!(format!("{}", x)))).collect();
            let named = format!(r#""name":{},"args":{}"#, J::s(&p), arr(v.clone()));
            let opaque = v.iter().any(|s| s.contains("Opq"));
            let has_param = self.generic && u.args.iter().any(|a| a.walk().any(|g| g.as_type().map_or(false, |t| matches!(t.kind(), ty::Param(_)|ty::Alias(..)))));
            if opaque || has_param {
                if let (true, Some(pr)) = (self.generic, u.promoted) {
                    let b = tcx.promoted_mir(u.def)[pr].clone();
                    let i = Instance::new_raw(u.def, u.args);
                    if let Ok(b) = i.try_instantiate_mir_and_normalize_erasing_regions(tcx, env, ty::EarlyBinder::bind(tcx, b)) {
                        let k = self.inst_out.len();
                        self.inst_out.push(String::new());
                        let sb = self.body(&b, env);
                        self.inst_out[k] = format!(r#"{{"id":{},"path":{},"full":"promoted constant","crate":"trees","kind":"promoted","closure":false,"body":true,"sp":"",{}}}"#, k, J::s(&p), sb);
                        return format!(r#"{{"ty":{},{},"cfn":{}}}"#, tid, named, k);
                    }
                }
                if self.generic && u.promoted.is_none() {
                    let c = self.callee(u.def, u.args, env);
                    return format!(r#"{{"ty":{},{},"cfn":{}}}"#, tid, named, c);
                }
                return format!(r#"{{"ty":{},{}}}"#, tid, named);
            }
            return match c.const_.eval(tcx, env, c.span) {
                Ok(v) => { let x = self.cval(v, t, env, 0); format!(r#"{{"ty":{},{},"v":{}}}"#, tid, named, x) }
                Err(_) => format!(r#"{{"ty":{},{}}}"#, tid, named),
            };
        }
        match c.const_ {
            mir::Const::Val(v, t) => self.cval(v, t, env, 0),
            _ => match c.const_.eval(tcx, env, c.span) {
                Ok(v) => self.cval(v, t, env, 0),
                Err(_) => format!(r#"{{"ty":{},"unk":1}}"#, tid),
            },
        }
    }

    fn op(&mut self, o: &mir::Operand<'tcx>, env: TypingEnv<'tcx>) -> String {
        match o {
            mir::Operand::Copy(p) => format!(r#"["c",{}]"#, self.place(p, env)),
            mir::Operand::Move(p) => format!(r#"["m",{}]"#, self.place(p, env)),
            mir::Operand::Constant(c) => format!(r#"["k",{}]"#, self.konst(c, env)),
            mir::Operand::RuntimeChecks(_) => r#"["rc"]"#.to_string(),
        }
    }

    fn rvalue(&mut self, r: &mir::Rvalue<'tcx>, body: &mir::Body<'tcx>, env: TypingEnv<'tcx>) -> String {
        let _ = body;
        match r {
            mir::Rvalue::Use(o, _) => format!(r#"["use",{}]"#, self.op(o, env)),
            mir::Rvalue::Repeat(o, n) => format!(r#"["rep",{},{}]"#, self.op(o, env), J::s(&format!("{}", n))),
            mir::Rvalue::Ref(_, k, p) => format!(r#"["ref",{},{}]"#, self.place(p, env), matches!(k, mir::BorrowKind::Mut{..})),
            mir::Rvalue::RawPtr(_, p) => format!(r#"["ref",{},true]"#, self.place(p, env)),
            mir::Rvalue::Reborrow(_, _, p) => format!(r#"["use",["c",{}]]"#, self.place(p, env)),
            mir::Rvalue::Cast(k, o, t) => {
                let t = self.ty(*t, env);
                let ot = o.ty(&body.local_decls, self.tcx);
                let ot = self.ty(ot, env);
                format!(r#"["cast",{},{},{},{}]"#, J::s(&format!("{:?}", k)), self.op(o, env), t, ot)
            }
            mir::Rvalue::BinaryOp(b, x) => {
                let t = x.0.ty(&body.local_decls, self.tcx);
                let t = self.ty(t, env);
                format!(r#"["bin","{:?}",{},{},{}]"#, b, self.op(&x.0, env), self.op(&x.1, env), t)
            }
            mir::Rvalue::UnaryOp(u, o) => format!(r#"["un","{:?}",{}]"#, u, self.op(o, env)),
            mir::Rvalue::Discriminant(p) => {
                let t = p.ty(&body.local_decls, self.tcx).ty;
                let t = self.ty(t, env);
                format!(r#"["disc",{},{}]"#, self.place(p, env), t)
            }
            mir::Rvalue::CopyForDeref(p) => format!(r#"["use",["c",{}]]"#, self.place(p, env)),
            mir::Rvalue::Aggregate(k, fs) => {
                let fs: Vec<String> = fs.iter().map(|o| self.op(o, env)).collect();
                let t = r.ty(&body.local_decls, self.tcx);
                let t = self.ty(t, env);
                match &**k {
                    mir::AggregateKind::Adt(_, v, _, _, af) => format!(r#"["agg",{},{},{},{}]"#, t, v.as_usize(), arr(fs), af.map(|x| x.as_usize().to_string()).unwrap_or("null".into())),
                    mir::AggregateKind::RawPtr(..) => format!(r#"["aggptr",{},{}]"#, t, arr(fs)),
                    _ => format!(r#"["agg",{},0,{},null]"#, t, arr(fs)),
                }
            }
            mir::Rvalue::WrapUnsafeBinder(o, _) => format!(r#"["use",{}]"#, self.op(o, env)),
            mir::Rvalue::ThreadLocalRef(_) => r#"["unk"]"#.to_string(),
        }
    }

    fn span(&self, s: rustc_span::Span) -> String {
        let s = s.source_callsite();
        let lo = self.tcx.sess.source_map().lookup_char_pos(s.lo());
        let n = format!("{}", lo.file.name.prefer_local_unconditionally());
        let n = n.rsplit("/src/").next().unwrap_or("").to_string();
        format!("{}:{}", n, lo.line)
    }

    fn unwind(&self, u: &mir::UnwindAction) -> String {
        match u { mir::UnwindAction::Cleanup(b) => b.as_usize().to_string(), mir::UnwindAction::Continue => "-1".into(), _ => "-2".into() }
    }

    fn body(&mut self, b: &mir::Body<'tcx>, env: TypingEnv<'tcx>) -> String {
        let locals: Vec<String> = b.local_decls.iter().map(|l| self.ty(l.ty, env).to_string()).collect();
        let mut names = vec![];
        for v in &b.var_debug_info {
            if let mir::VarDebugInfoContents::Place(p) = v.value {
                if let Some(l) = p.as_local() { names.push(format!("[{},{}]", l.as_usize(), J::s(v.name.as_str()))); }
            }
        }
        // the step of a breadth-first stream that is collected
        if !self.generic && b.arg_count >= 1 {
            if let Some(t) = b.local_decls.get(mir::Local::from_usize(1)).map(|l| l.ty) {
                if let ty::Adt(def, args) = t.kind() {
                    let n = self.path(def.did());
                    if n.ends_with("::BfsTree") || n.ends_with("::BfsForest") {
                        if let (Some(next), Some(i)) = (self.tcx.lang_items().next_fn(), args.types().next()) {
                            let tcx = self.tcx;
                            let it = tcx.trait_of_assoc(next).unwrap();
                            let p = ty::TraitRef::new(tcx, it, [i]);
                            let ok = { use rustc_infer::infer::TyCtxtInferExt; use rustc_trait_selection::infer::InferCtxtExt;
                                let (icx, pe) = tcx.infer_ctxt().build_with_typing_env(env);
                                icx.type_implements_trait(it, [i], pe).must_apply_modulo_regions() };
                            let _ = p;
                            if ok {
                                let a = tcx.mk_args(&[i.into()]);
                                if let Ok(Some(x)) = Instance::try_resolve(tcx, env, next, a) { self.inst(x, env); }
                            }
                        }
                    }
                }
            }
        }
        let mut blocks = vec![];
        for bb in b.basic_blocks.iter() {
            let mut st = vec![];
            for s in &bb.statements {
                let sp = J::s(&self.span(s.source_info.span));
                match &s.kind {
                    mir::StatementKind::Assign(x) => {
                        let p = self.place(&x.0, env);
                        let r = self.rvalue(&x.1, b, env);
                        st.push(format!(r#"["=",{},{},{}]"#, p, r, sp));
                    }
                    mir::StatementKind::SetDiscriminant { place, variant_index } => {
                        st.push(format!(r#"["sd",{},{},{}]"#, self.place(place, env), variant_index.as_usize(), sp));
                    }
                    mir::StatementKind::StorageDead(l) => st.push(format!(r#"["dead",{}]"#, l.as_usize())),
                    mir::StatementKind::Intrinsic(i) => match &**i {
                        mir::NonDivergingIntrinsic::Assume(_) => {}
                        mir::NonDivergingIntrinsic::CopyNonOverlapping(_) => st.push(format!(r#"["cno",{}]"#, sp)),
                    },
                    _ => {}
                }
            }
            let t = bb.terminator();
            let sp = J::s(&self.span(t.source_info.span));
            let term = match &t.kind {
                mir::TerminatorKind::Goto { target, .. } => format!(r#"["goto",{}]"#, target.as_usize()),
                mir::TerminatorKind::SwitchInt { discr, targets } => {
                    let ty = discr.ty(&b.local_decls, self.tcx);
                    let ty = self.ty(ty, env);
                    let v: Vec<String> = targets.iter().map(|(v, t)| format!(r#"["{}",{}]"#, v, t.as_usize())).collect();
                    format!(r#"["switch",{},{},{},{}]"#, self.op(discr, env), arr(v), targets.otherwise().as_usize(), ty)
                }
                mir::TerminatorKind::UnwindResume => r#"["resume"]"#.to_string(),
                mir::TerminatorKind::UnwindTerminate(_) => r#"["abort"]"#.to_string(),
                mir::TerminatorKind::Return => r#"["ret"]"#.to_string(),
                mir::TerminatorKind::Unreachable => r#"["unreachable"]"#.to_string(),
                mir::TerminatorKind::Drop { place, target, unwind, .. } => {
                    let ty = place.ty(&b.local_decls, self.tcx).ty;
                    let ty = self.ty(ty, env);
                    format!(r#"["drop",{},{},{},{}]"#, self.place(place, env), target.as_usize(), self.unwind(unwind), ty)
                }
                mir::TerminatorKind::Call { func, args, destination, target, unwind, .. } => {
                    let a: Vec<String> = args.iter().map(|x| self.op(&x.node, env)).collect();
                    let mut at = vec![];
                    for x in args.iter() { let t = x.node.ty(&b.local_decls, self.tcx); at.push(self.ty(t, env).to_string()); }
                    format!(r#"["call",{},{},{},{},{},{}]"#, self.op(func, env), arr(a), self.place(destination, env),
                        target.map(|t| t.as_usize().to_string()).unwrap_or("null".into()), self.unwind(unwind), arr(at))
                }
                mir::TerminatorKind::Assert { cond, expected, msg, target, unwind } => {
                    let m = format!("{:?}", msg);
                    let m = m.split(|c: char| c == '(' || c == '{').next().unwrap_or("").trim().to_string();
                    format!(r#"["assert",{},{},{},{},{}]"#, self.op(cond, env), expected, J::s(&m), target.as_usize(), self.unwind(unwind))
                }
                mir::TerminatorKind::FalseEdge { real_target, .. } | mir::TerminatorKind::FalseUnwind { real_target, .. } =>
                    format!(r#"["goto",{}]"#, real_target.as_usize()),
                _ => r#"["other"]"#.to_string(),
            };
            blocks.push(format!(r#"{{"s":{},"t":{},"sp":{},"c":{}}}"#, arr(st), term, sp, bb.is_cleanup));
        }
        format!(r#""argc":{},"spread":{},"locals":{},"names":{},"blocks":{}"#, b.arg_count,
            b.spread_arg.map(|l| l.as_usize().to_string()).unwrap_or("null".into()), arr(locals), arr(names), arr(blocks))
    }

    fn process(&mut self, id: usize, i: Instance<'tcx>, env: TypingEnv<'tcx>) {
        let tcx = self.tcx;
        let d = i.def_id();
        let path = self.path(d);
        let full = rustc_middle::ty::print::with_no_trimmed_paths!(format!("{}", i));
        let kr = tcx.crate_name(d.krate).to_string();
        let mut meta = format!(r#""id":{},"path":{},"full":{},"crate":{}"#, id, J::s(&path), J::s(&full), J::s(&kr));
        let mut ta = vec![];
        for a in i.args.iter() {
            if let Some(t) = a.as_type() { ta.push(self.ty(t, env).to_string()); }
            else if let Some(c) = a.as_const() { ta.push(J::s(&format!("{}", c))); }
        }
        let _ = write!(meta, r#","targs":{}"#, arr(ta));
        // trait method info
        let mut self_ty: Option<Ty<'tcx>> = None;
        if let Some(imp) = tcx.impl_of_assoc(d) {
            let st = tcx.type_of(imp);
            let st = if i.args.len() >= tcx.generics_of(imp).count() { st.instantiate(tcx, i.args).skip_norm_wip() } else { st.instantiate_identity().skip_norm_wip() };
            self_ty = Some(st);
            if let Some(tr) = tcx.impl_opt_trait_ref(imp) {
                let tr = tr.instantiate_identity().skip_norm_wip();
                let _ = write!(meta, r#","trait":{}"#, J::s(&self.path(tr.def_id)));
            }
        } else if let Some(tr) = tcx.trait_of_assoc(d) {
            let _ = write!(meta, r#","trait":{}"#, J::s(&self.path(tr)));
            self_ty = i.args.types().next();
        }
        if let Some(s) = self_ty {
            let s = tcx.try_normalize_erasing_regions(env, ty::Unnormalized::new_wip(s)).unwrap_or(s);
            let t = self.ty(s, env);
            let _ = write!(meta, r#","self":{}"#, t);
        }
        let item = tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_default();
        let _ = write!(meta, r#","item":{}"#, J::s(&item));
        let kind = match i.def {
            InstanceKind::Item(_) => "item",
            InstanceKind::Intrinsic(_) => "intrinsic",
            InstanceKind::Virtual(..) => "virtual",
            InstanceKind::Shim(ShimKind::DropGlue(_, _)) => "dropglue",
            InstanceKind::Shim(ShimKind::ClosureOnce { .. }) => "closureonce",
            InstanceKind::Shim(ShimKind::FnPtr(..)) => "fnptrshim",
            InstanceKind::Shim(ShimKind::Clone(..)) => "cloneshim",
            _ => "othershim",
        };
        let _ = write!(meta, r#","kind":"{}""#, kind);
        let isclosure = matches!(tcx.def_kind(d), DefKind::Closure);
        let _ = write!(meta, r#","closure":{}"#, isclosure);
        let cut = self.cuts.iter().any(|c| path.starts_with(c.as_str()) || full.starts_with(c.as_str()));
        let available = match i.def {
            InstanceKind::Item(_) => if matches!(tcx.def_kind(d), DefKind::AssocConst{..} | DefKind::Const{..}) { true } else { tcx.is_mir_available(d) },
            InstanceKind::Shim(_) => true,
            _ => false,
        };
        if cut || !available || (self.generic && kind != "item" ) {
            self.inst_out[id] = format!("{{{},\"body\":false,\"cut\":{}}}", meta, cut);
            return;
        }
        if self.generic && kr != "trees" {
            self.inst_out[id] = format!("{{{},\"body\":false,\"cut\":true}}", meta);
            return;
        }
        let b = if matches!(tcx.def_kind(d), DefKind::AssocConst{..} | DefKind::Const{..}) { tcx.mir_for_ctfe(d).clone() } else { tcx.instance_mir(i.def).clone() };
        let b = i.try_instantiate_mir_and_normalize_erasing_regions(tcx, env, ty::EarlyBinder::bind(tcx, b));
        match b {
            Ok(b) => {
                let sp = J::s(&self.span(b.span));
                let s = self.body(&b, env);
                self.inst_out[id] = format!("{{{},\"body\":true,\"sp\":{},{}}}", meta, sp, s);
            }
            Err(_) => { self.inst_out[id] = format!("{{{},\"body\":false,\"cut\":false,\"err\":1}}", meta); }
        }
    }

    fn run(&mut self) {
        while let Some((id, i, env)) = self.work.pop() { self.process(id, i, env); }
    }
}


fn new_dump<'tcx>(tcx: TyCtxt<'tcx>, generic: bool) -> Dump<'tcx> {
    let cuts = std::env::var("VCUTS").ok().and_then(|p| std::fs::read_to_string(p).ok()).unwrap_or_default()
        .lines().map(|l| l.trim().to_string()).filter(|l| !l.is_empty() && !l.starts_with('#')).collect();
    Dump { tcx, tys: HashMap::new(), ty_out: vec![], insts: HashMap::new(), inst_out: vec![], work: vec![], cuts, generic }
}

fn dump_mono<'tcx>(tcx: TyCtxt<'tcx>) -> String {
    let mut d = new_dump(tcx, false);
    let env = TypingEnv::fully_monomorphized();
    let mut roots = vec![];
    for def in tcx.hir_body_owners() {
        let did = def.to_def_id();
        if !matches!(tcx.def_kind(did), DefKind::Fn | DefKind::AssocFn) { continue; }
        if tcx.generics_of(did).own_requires_monomorphization() || tcx.generics_of(did).requires_monomorphization(tcx) { continue; }
        if !tcx.visibility(did).is_public() { continue; }
        let name = d.path(did);
        let i = Instance::mono(tcx, did);
        let k = d.inst(i, env);
        roots.push(format!("[{},{}]", J::s(&name), k));
    }
    d.run();
    format!(r#"{{"roots":{},"tys":{},"fns":{}}}"#, arr(roots), arr(d.ty_out.clone()), arr(d.inst_out.clone()))
}

fn find_trees(tcx: TyCtxt<'_>) -> Option<rustc_hir::def_id::CrateNum> {
    tcx.crates(()).iter().copied().find(|c| tcx.crate_name(*c).as_str() == "trees")
}

fn dump_generic<'tcx>(tcx: TyCtxt<'tcx>) -> String {
    // polymorphic MIR of every implementation of the tuple traits
    let mut d = new_dump(tcx, true);
    let mut out = vec![];
    if let Some(c) = find_trees(tcx) {
        for &tr in tcx.traits(c) {
            let tp = d.path(tr);
            if !(tp.ends_with("::TupleTree") || tp.ends_with("::TupleForest")) { continue; }
            for imp in tcx.all_impls(tr) {
                if imp.krate != c { continue; }
                let trr = tcx.impl_trait_ref(imp).instantiate_identity().skip_norm_wip();
                let hdr = rustc_middle::ty::print::with_no_trimmed_paths!(format!("{}", trr));
                let st = trr.self_ty();
                let arity = match st.kind() { ty::Tuple(ts) => ts.len() as i64, _ => -1 };
                let mut items = vec![];
                for it in tcx.associated_item_def_ids(imp) {
                    let env = TypingEnv::post_analysis(tcx, *it);
                    let args = ty::GenericArgs::identity_for_item(tcx, *it);
                    let i = Instance::new_raw(*it, args);
                    let k = d.inst(i, env);
                    items.push(format!("[{},{}]", J::s(tcx.item_name(*it).as_str()), k));
                    d.run();
                }
                let gen: Vec<String> = tcx.generics_of(imp).own_params.iter().map(|p| J::s(p.name.as_str())).collect();
                out.push(format!(r#"{{"trait":{},"impl":{},"arity":{},"items":{},"params":{}}}"#, J::s(&tp), J::s(&hdr), arity, arr(items), arr(gen)));
            }
        }
    }
    d.run();
    format!(r#"{{"impls":{},"tys":{},"fns":{}}}"#, arr(out), arr(d.ty_out.clone()), arr(d.inst_out.clone()))
}

// Facts decided by the type checker: auto traits, variances, public items.
fn dump_facts<'tcx>(tcx: TyCtxt<'tcx>) -> String {
    let mut out = vec![];
    let mut var = vec![];
    let mut items = vec![];
    let mut inherent = vec![];
    if let Some(c) = find_trees(tcx) {
        let root = DefId { krate: c, index: rustc_hir::def_id::CRATE_DEF_INDEX };
        let mut stack = vec![root];
        let mut seen = std::collections::HashSet::new();
        while let Some(m) = stack.pop() {
            if !seen.insert(m) { continue; }
            for ch in tcx.module_children(m) {
                if !ch.vis.is_public() { continue; }
                let Some(did) = ch.res.opt_def_id() else { continue };
                if did.krate != c { continue; }
                let k = tcx.def_kind(did);
                let p = rustc_middle::ty::print::with_no_trimmed_paths!(tcx.def_path_str(did));
                if matches!(k, DefKind::Mod) { stack.push(did); }
                items.push(format!("[{},{}]", J::s(&p), J::s(&format!("{:?}", k))));
                if matches!(k, DefKind::Struct | DefKind::Enum) && seen.insert(did) {
                    let v = tcx.variances_of(did);
                    let g = tcx.generics_of(did);
                    let mut vs = vec![];
                    for (i, p) in g.own_params.iter().enumerate() { vs.push(format!("[{},{}]", J::s(p.name.as_str()), J::s(&format!("{:?}", v[i])))); }
                    var.push(format!("[{},{}]", J::s(&p), arr(vs)));
                    for imp in tcx.inherent_impls(did) {
                        for it in tcx.associated_item_def_ids(*imp) {
                            let pb = tcx.visibility(*it).is_public();
                            let sig = if matches!(tcx.def_kind(*it), DefKind::AssocFn) { rustc_middle::ty::print::with_no_trimmed_paths!(format!("{}", tcx.fn_sig(*it).instantiate_identity().skip_norm_wip())) } else { String::new() };
                            inherent.push(format!("[{},{},{},{}]", J::s(&p), J::s(tcx.item_name(*it).as_str()), pb, J::s(&sig)));
                        }
                    }
                }
            }
        }
        // all trait impls of the crate
        for &tr in tcx.all_traits_including_private().collect::<Vec<_>>().iter() {
            for imp in tcx.all_impls(tr) {
                if imp.krate != c { continue; }
                let trr = tcx.impl_trait_ref(imp).instantiate_identity().skip_norm_wip();
                let s = rustc_middle::ty::print::with_no_trimmed_paths!(format!("{}", trr));
                let pol = tcx.impl_polarity(imp);
                let st = rustc_middle::ty::print::with_no_trimmed_paths!(format!("{}", trr.self_ty()));
                let tn = rustc_middle::ty::print::with_no_trimmed_paths!(tcx.def_path_str(tr));
                let preds: Vec<String> = tcx.clauses_of(imp).instantiate_identity(tcx).clauses.iter()
                    .map(|p| J::s(&rustc_middle::ty::print::with_no_trimmed_paths!(format!("{}", p.skip_norm_wip())))).collect();
                out.push(format!(r#"{{"trait":{},"self":{},"impl":{},"pol":{},"preds":{}}}"#, J::s(&tn), J::s(&st), J::s(&s), J::s(&format!("{:?}", pol)), arr(preds)));
            }
        }
    }
    format!(r#"{{"impls":{},"variances":{},"items":{},"inherent":{}}}"#, arr(out), arr(var), arr(items), arr(inherent))
}

// ---- public interface: auto traits per element type, variances, signatures with their lifetimes, fields ----
struct Api<'tcx> { tcx: TyCtxt<'tcx>, c: rustc_hir::def_id::CrateNum, imp: Option<DefId> }
impl<'tcx> Api<'tcx> {
    fn path(&self, d: DefId) -> String { rustc_middle::ty::print::with_no_trimmed_paths!(self.tcx.def_path_str(d)) }
    fn rg(&self, r: ty::Region<'tcx>) -> String {
        if r.is_static() { return J::s("'static"); }
        J::s(&format!("{:?}", r))
    }
    fn tr(&self, t: Ty<'tcx>, depth: usize) -> String {
        let tcx = self.tcx;
        if depth > 12 { return r#"{"k":"deep"}"#.into(); }
        match t.kind() {
            ty::Ref(r, x, m) => format!(r#"{{"k":"ref","r":{},"mut":{},"t":{}}}"#, self.rg(*r), m.is_mut(), self.tr(*x, depth + 1)),
            ty::RawPtr(x, m) => format!(r#"{{"k":"ptr","mut":{},"t":{}}}"#, m.is_mut(), self.tr(*x, depth + 1)),
            ty::Adt(d, a) => {
                let rs = a.iter().filter_map(|g| g.as_region()).map(|r| self.rg(r)).collect();
                let ts = a.iter().filter_map(|g| g.as_type()).map(|x| self.tr(x, depth + 1)).collect();
                format!(r#"{{"k":"adt","path":{},"local":{},"rs":{},"ts":{}}}"#, J::s(&self.path(d.did())), d.did().krate == self.c, arr(rs), arr(ts))
            }
            ty::Tuple(ts) => format!(r#"{{"k":"tuple","ts":{}}}"#, arr(ts.iter().map(|x| self.tr(x, depth + 1)).collect())),
            ty::Slice(x) | ty::Array(x, _) => format!(r#"{{"k":"tuple","ts":[{}]}}"#, self.tr(*x, depth + 1)),
            ty::Param(p) => format!(r#"{{"k":"param","n":{}}}"#, J::s(p.name.as_str())),
            ty::Dynamic(_, r) => format!(r#"{{"k":"dyn","r":{}}}"#, self.rg(*r)),
            ty::Alias(..) => {
                let ty::Alias(_, al) = t.kind() else { unreachable!() };
                if let (Some(i), ty::Projection { def_id }) = (self.imp, al.kind) {
                    // an associated type of the very implementation the function belongs to
                    if let Some(trr) = tcx.impl_opt_trait_ref(i) {
                        if trr.instantiate_identity().skip_norm_wip().args == al.args {
                            for it in tcx.associated_items(i).in_definition_order() {
                                if it.trait_item_def_id() == Some(def_id) {
                                    return self.tr(tcx.type_of(it.def_id).instantiate_identity().skip_norm_wip(), depth + 1);
                                }
                            }
                        }
                    }
                }
                let rs = al.args.iter().filter_map(|g| g.as_region()).map(|r| self.rg(r)).collect();
                let ts = al.args.iter().filter_map(|g| g.as_type()).map(|x| self.tr(x, depth + 1)).collect();
                let mut bs = vec![];
                if let ty::Opaque { def_id } = al.kind {
                    for c in tcx.explicit_item_bounds(def_id).iter_instantiated_copied(tcx, al.args) {
                        let (c, _) = c.skip_norm_wip();
                        if let ty::ClauseKind::Projection(p) = c.kind().skip_binder() {
                            if let Some(x) = p.term.as_type() { bs.push(self.tr(x, depth + 1)); }
                        }
                    }
                }
                format!(r#"{{"k":"alias","s":{},"rs":{},"ts":{},"bounds":{}}}"#, J::s(&format!("{:?}", t)), arr(rs), arr(ts), arr(bs))
            }
            _ => format!(r#"{{"k":"prim","s":{}}}"#, J::s(&format!("{:?}", t))),
        }
    }
    fn outlives(&self, d: DefId) -> Vec<String> {
        let tcx = self.tcx;
        let mut out = vec![];
        for c in tcx.clauses_of(d).instantiate_identity(tcx).clauses {
            if let ty::ClauseKind::RegionOutlives(o) = c.skip_norm_wip().kind().skip_binder() {
                out.push(format!("[{},{}]", self.rg(o.0), self.rg(o.1)));
            }
        }
        out
    }
    fn func(&self, d: DefId, owner: &str, imp: Option<DefId>, public: bool) -> String {
        Api { tcx: self.tcx, c: self.c, imp }.func_(d, owner, imp, public)
    }
    fn func_(&self, d: DefId, owner: &str, imp: Option<DefId>, public: bool) -> String {
        let tcx = self.tcx;
        let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip();
        let sig = tcx.liberate_late_bound_regions(d, sig);
        let ins = sig.inputs().iter().map(|t| self.tr(*t, 0)).collect();
        let out = self.tr(sig.output(), 0);
        let header = match imp { Some(i) => rustc_middle::ty::print::with_no_trimmed_paths!(match tcx.impl_opt_trait_ref(i) { Some(t) => format!("{}", t.instantiate_identity().skip_norm_wip()), None => format!("{}", tcx.type_of(i).instantiate_identity().skip_norm_wip()) }), None => String::new() };
        let sp = tcx.sess.source_map().lookup_char_pos(tcx.def_span(d).lo());
        let file = format!("{}:{}", sp.file.name.prefer_local_unconditionally(), sp.line);
        format!(r#"{{"owner":{},"header":{},"name":{},"pub":{},"unsafe":{},"in":{},"out":{},"outlives":{},"at":{},"text":{}}}"#,
            J::s(owner), J::s(&header), J::s(tcx.item_name(d).as_str()), public, sig.safety().is_unsafe(), arr(ins), out, arr(self.outlives(d)), J::s(&file),
            J::s(&rustc_middle::ty::print::with_no_trimmed_paths!(format!("{}", sig))))
    }
}

fn dump_api<'tcx>(tcx: TyCtxt<'tcx>) -> String {
    use rustc_infer::infer::TyCtxtInferExt;
    use rustc_trait_selection::infer::InferCtxtExt;
    let Some(c) = find_trees(tcx) else { return "{}".into() };
    let a = Api { tcx, c, imp: None };
    // element types of the probe crate
    let mut elems: Vec<(String, Ty<'tcx>)> = vec![];
    for id in tcx.hir_free_items() {
        let d = id.owner_id.to_def_id();
        if matches!(tcx.def_kind(d), DefKind::Struct) { elems.push((tcx.item_name(d).to_string(), tcx.type_of(d).instantiate_identity().skip_norm_wip())); }
    }
    let root = DefId { krate: c, index: rustc_hir::def_id::CRATE_DEF_INDEX };
    let mut stack = vec![root];
    let mut seen = std::collections::HashSet::new();
    let mut adts: Vec<DefId> = vec![];
    let mut free: Vec<DefId> = vec![];
    let mut items = vec![];
    while let Some(m) = stack.pop() {
        if !seen.insert(m) { continue; }
        for ch in tcx.module_children(m) {
            if !ch.vis.is_public() { continue; }
            let Some(did) = ch.res.opt_def_id() else { continue };
            if did.krate != c { continue; }
            let k = tcx.def_kind(did);
            items.push(format!("[{},{}]", J::s(&a.path(did)), J::s(&format!("{:?}", k))));
            if matches!(k, DefKind::Mod | DefKind::Trait) && !seen.contains(&did) { if matches!(k, DefKind::Mod) { stack.push(did); } }
            if matches!(k, DefKind::Struct | DefKind::Enum | DefKind::Union) && !adts.contains(&did) { adts.push(did); }
            if matches!(k, DefKind::Fn) && !free.contains(&did) { free.push(did); }
        }
    }
    // private types reachable through fields
    let npub = adts.len();
    let mut i = 0;
    while i < adts.len() {
        let def = tcx.adt_def(adts[i]);
        for f in def.all_fields() {
            for g in tcx.type_of(f.did).instantiate_identity().skip_norm_wip().walk() {
                if let Some(t) = g.as_type() { if let ty::Adt(x, _) = t.kind() { if x.did().krate == c && !adts.contains(&x.did()) { adts.push(x.did()); } } }
            }
        }
        i += 1;
    }
    let send = tcx.get_diagnostic_item(rustc_span::sym::Send);
    let sync = tcx.lang_items().sync_trait();
    let unpin = tcx.lang_items().unpin_trait();
    let copy = tcx.lang_items().copy_trait();
    let clone = tcx.lang_items().clone_trait();
    let default = tcx.get_diagnostic_item(rustc_span::sym::Default);
    let mut out = vec![];
    let mut fns = vec![];
    for (n, &did) in adts.iter().enumerate() {
        let def = tcx.adt_def(did);
        let g = tcx.generics_of(did);
        let mut q = vec![];
        for (en, et) in &elems {
            let args = ty::GenericArgs::for_item(tcx, did, |p, _| match p.kind {
                ty::GenericParamDefKind::Lifetime => tcx.lifetimes.re_static.into(),
                ty::GenericParamDefKind::Type { .. } => (*et).into(),
                ty::GenericParamDefKind::Const { .. } => tcx.consts.unit.into(),
            });
            let t = Ty::new_adt(tcx, def, args);
            let infcx = tcx.infer_ctxt().build(ty::TypingMode::non_body_analysis());
            let has = |tr: Option<DefId>| -> bool {
                match tr { Some(x) => infcx.type_implements_trait(x, [t], ty::ParamEnv::empty()).may_apply(), None => true }
            };
            q.push(format!(r#"{}:{{"Send":{},"Sync":{},"Unpin":{},"Copy":{},"Clone":{},"Default":{}}}"#, J::s(en), has(send), has(sync), has(unpin), has(copy), has(clone), has(default)));
        }
        let v = tcx.variances_of(did);
        let vs = g.own_params.iter().enumerate().map(|(i, p)| format!("[{},{}]", J::s(p.name.as_str()), J::s(&format!("{:?}", v[i])))).collect();
        let mut fs = vec![];
        for f in def.all_fields() {
            let ft = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
            fs.push(format!("[{},{},{}]", J::s(f.name.as_str()), tcx.visibility(f.did).is_public(), a.tr(ft, 0)));
        }
        let dtor = tcx.adt_destructor(did).is_some();
        out.push(format!(r#"{{"path":{},"pub":{},"auto":{{{}}},"var":{},"fields":{},"dtor":{}}}"#, J::s(&a.path(did)), n < npub, q.join(","), arr(vs), arr(fs), dtor));
        for imp in tcx.inherent_impls(did) {
            for it in tcx.associated_item_def_ids(*imp) {
                if matches!(tcx.def_kind(*it), DefKind::AssocFn) { fns.push(a.func(*it, &a.path(did), Some(*imp), tcx.visibility(*it).is_public())); }
            }
        }
    }
    for d in free { fns.push(a.func(d, "", None, true)); }
    let mut impls = vec![];
    for &tr in tcx.all_traits_including_private().collect::<Vec<_>>().iter() {
        for imp in tcx.all_impls(tr) {
            if imp.krate != c { continue; }
            let trr = tcx.impl_trait_ref(imp).instantiate_identity().skip_norm_wip();
            let hdr = rustc_middle::ty::print::with_no_trimmed_paths!(format!("{}", trr));
            let uns = tcx.impl_trait_header(imp).safety.is_unsafe();
            let assoc: Vec<String> = tcx.associated_item_def_ids(imp).iter().filter(|x| matches!(tcx.def_kind(**x), DefKind::AssocTy))
                .map(|x| format!("[{},{}]", J::s(tcx.item_name(*x).as_str()), a.tr(tcx.type_of(*x).instantiate_identity().skip_norm_wip(), 0))).collect();
            impls.push(format!(r#"{{"trait":{},"impl":{},"neg":{},"unsafe":{},"self":{},"assoc":{}}}"#, J::s(&a.path(tr)), J::s(&hdr),
                matches!(tcx.impl_polarity(imp), ty::ImplPolarity::Negative), uns, a.tr(trr.self_ty(), 0), arr(assoc)));
            for it in tcx.associated_item_def_ids(imp) {
                if matches!(tcx.def_kind(*it), DefKind::AssocFn) { fns.push(a.func(*it, &a.path(tr), Some(imp), true)); }
            }
        }
    }
    let deps: Vec<String> = tcx.crates(()).iter().map(|c| J::s(tcx.crate_name(*c).as_str())).collect();
    format!(r#"{{"adts":{},"fns":{},"impls":{},"items":{},"deps":{}}}"#, arr(out), arr(fns), arr(impls), arr(items), arr(deps))
}

struct Cb;
impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        if let Ok(p) = std::env::var("VDUMP") {
            let s = dump_mono(tcx);
            std::fs::write(p, s).unwrap();
        }
        if let Ok(p) = std::env::var("VGENERIC") {
            let s = dump_generic(tcx);
            std::fs::write(p, s).unwrap();
        }
        if let Ok(p) = std::env::var("VFACTS") {
            let s = dump_facts(tcx);
            std::fs::write(p, s).unwrap();
        }
        if let Ok(p) = std::env::var("VDEPS") {
            let deps: Vec<String> = tcx.crates(()).iter().map(|c| tcx.crate_name(*c).to_string()).collect();
            std::fs::write(p, deps.join("\n")).unwrap();
        }
        if let Ok(p) = std::env::var("VAPI") {
            std::fs::write(p, dump_api(tcx)).unwrap();
        }
        Compilation::Continue
    }
}

fn main() {
    let _ = J(String::new()).0;
    let args: Vec<String> = std::env::args().collect();
    rustc_driver::catch_fatal_errors(|| rustc_driver::compiler_entrypoint(&args, &mut Cb)).unwrap_or_else(|_| std::process::exit(1));
}
