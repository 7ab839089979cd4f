// MIR fact extractor.  Used as RUSTC_WORKSPACE_WRAPPER: argv = [driver, rustc, args...].
// For the crates named in VP_CRATES it dumps, besides compiling normally, one JSON file
// (VP_DUMP_DIR/<crate>.json) with every function body (MIR at mir-opt-level=0, drops elaborated),
// resolved callees, ADTs, traits and impls, plus the bodies of the std combinators it calls.
#![feature(rustc_private)]
#![allow(unused)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_infer;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;
extern crate rustc_trait_selection;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::{self, *};
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, GenericArgsRef, Instance, InstanceKind, ShimKind, Ty, TyCtxt, TypingEnv, TypeVisitableExt};
use rustc_infer::infer::TyCtxtInferExt;
use rustc_span::{sym, Span};
use rustc_trait_selection::infer::InferCtxtExt;
use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};
use std::fmt::Write as _;

#[derive(Clone)]
enum J { N, B(bool), I(i128), S(String), A(Vec<J>), O(Vec<(&'static str, J)>) }
impl J {
    fn w(&self, o: &mut String) {
        match self {
            J::N => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::I(i) => { let _ = write!(o, "{}", i); }
            J::S(s) => esc(s, o),
            J::A(v) => { o.push('['); for (i, x) in v.iter().enumerate() { if i > 0 { o.push(',') } x.w(o) } o.push(']') }
            J::O(v) => { o.push('{'); for (i, (k, x)) in v.iter().enumerate() { if i > 0 { o.push(',') } esc(k, o); o.push(':'); x.w(o) } o.push('}') }
        }
    }
}
fn esc(s: &str, o: &mut String) {
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"), '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
}
fn s<T: Into<String>>(x: T) -> J { J::S(x.into()) }
fn i<T: TryInto<i128>>(x: T) -> J { J::I(x.try_into().ok().unwrap()) }

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: Vec<J>,
    tymap: HashMap<Ty<'tcx>, usize>,
    adts: BTreeMap<String, J>,
    queue: VecDeque<DefId>,
    seen: HashSet<DefId>,
    krate: String,
}

fn want_std(path: &str) -> bool {
    const P: &[&str] = &[
        "std::option::Option::<", "core::option::Option::<", "std::result::Result::<", "core::result::Result::<",
        "<std::option::Option<", "<std::result::Result<", "<core::option::Option<", "<core::result::Result<",
        "std::option::expect_failed", "std::cmp::", "std::ops::FnOnce", "std::ops::FnMut", "std::ops::Fn::",
        "<bool as", "std::bool::<impl bool>", "core::bool::<impl bool>",
    ];
    P.iter().any(|p| path.starts_with(p))
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String { with_no_trimmed_paths!(self.tcx.def_path_str(d)) }
    fn key(&self, d: DefId) -> String {
        let k = self.tcx.crate_name(d.krate);
        format!("{}{}", k, self.tcx.def_path(d).to_string_no_crate_verbose())
    }
    fn span(&self, sp: Span) -> J {
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(sp.lo());
        let f = format!("{}", lo.file.name.prefer_remapped_unconditionally());
        s(format!("{}:{}", f, lo.line))
    }
    fn ty(&mut self, t: Ty<'tcx>) -> J {
        if let Some(&x) = self.tymap.get(&t) { return i(x as i64); }
        let ix = self.tys.len();
        self.tys.push(J::N);
        self.tymap.insert(t, ix);
        let str = with_no_trimmed_paths!(format!("{}", t));
        let mut o: Vec<(&'static str, J)> = vec![("s", s(str))];
        match t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) | ty::Str | ty::Never => o.push(("k", s("prim"))),
            ty::Adt(d, args) => {
                o.push(("k", s("adt")));
                let p = self.path(d.did());
                o.push(("d", s(p.clone())));
                let a = args.types().map(|x| self.ty(x)).collect();
                o.push(("a", J::A(a)));
                self.adt(d.did(), p);
            }
            ty::Ref(_, x, m) => { o.push(("k", s("ref"))); o.push(("m", J::B(m.is_mut()))); let x = self.ty(*x); o.push(("t", x)); }
            ty::RawPtr(x, m) => { o.push(("k", s("ptr"))); o.push(("m", J::B(m.is_mut()))); let x = self.ty(*x); o.push(("t", x)); }
            ty::Dynamic(p, ..) => { o.push(("k", s("dyn"))); o.push(("d", p.principal_def_id().map(|d| s(self.path(d))).unwrap_or(J::N))); }
            ty::Param(p) => { o.push(("k", s("param"))); o.push(("d", s(p.name.to_string()))); }
            ty::Closure(d, a) => {
                o.push(("k", s("closure"))); let k = self.key(*d); o.push(("d", s(k)));
                self.enqueue(*d);
            }
            ty::FnDef(d, a) => { o.push(("k", s("fndef"))); let p = self.path(*d); o.push(("d", s(p))); }
            ty::FnPtr(..) => o.push(("k", s("fnptr"))),
            ty::Tuple(ts) => { o.push(("k", s("tuple"))); let a = ts.iter().map(|x| self.ty(x)).collect(); o.push(("a", J::A(a))); }
            ty::Array(x, n) => { o.push(("k", s("array"))); let x = self.ty(*x); o.push(("t", x)); o.push(("n", s(with_no_trimmed_paths!(format!("{}", n))))); }
            ty::Slice(x) => { o.push(("k", s("slice"))); let x = self.ty(*x); o.push(("t", x)); }
            _ => o.push(("k", s("other"))),
        }
        self.tys[ix] = J::O(o);
        i(ix as i64)
    }
    fn adt(&mut self, d: DefId, p: String) {
        if self.adts.contains_key(&p) { return; }
        self.adts.insert(p.clone(), J::N);
        let def = self.tcx.adt_def(d);
        let kind = if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" };
        let mut vs = vec![];
        let discrs: Vec<(rustc_abi::VariantIdx, u128)> = if def.is_enum() { def.discriminants(self.tcx).map(|(v, d)| (v, d.val)).collect() } else { vec![] };
        for (vi, v) in def.variants().iter_enumerated() {
            let fs: Vec<J> = v.fields.iter().map(|f| J::A(vec![s(f.name.to_string()), s(with_no_trimmed_paths!(format!("{}", self.tcx.type_of(f.did).skip_binder()))),
                J::B(self.tcx.visibility(f.did).is_public())])).collect();
            let dv = discrs.iter().find(|x| x.0 == vi).map(|x| J::I(x.1 as i128)).unwrap_or(J::N);
            vs.push(J::O(vec![("n", s(v.name.to_string())), ("d", dv), ("f", J::A(fs))]));
        }
        self.adts.insert(p, J::O(vec![("k", s(kind)), ("v", J::A(vs)), ("local", J::B(d.is_local())),
            ("has_drop", J::B(self.tcx.adt_destructor(d).is_some())),
            ("send", if d.is_local() { self.auto(d, self.tcx.get_diagnostic_item(sym::Send)) } else { J::N }),
            ("sync", if d.is_local() { self.auto(d, self.tcx.lang_items().sync_trait()) } else { J::N })]));
    }
    // does the type, with () for its parameters, implement the auto trait?
    fn auto(&self, d: DefId, tr: Option<DefId>) -> J {
        let Some(tr) = tr else { return J::N };
        let tcx = self.tcx;
        let args = ty::GenericArgs::for_item(tcx, d, |p, _| match p.kind {
            ty::GenericParamDefKind::Lifetime => tcx.lifetimes.re_static.into(),
            ty::GenericParamDefKind::Type { .. } => tcx.types.unit.into(),
            ty::GenericParamDefKind::Const { .. } => tcx.consts.true_.into(),
        });
        let t = Ty::new_adt(tcx, tcx.adt_def(d), args);
        let infcx = tcx.infer_ctxt().build(ty::TypingMode::non_body_analysis());
        J::B(infcx.type_implements_trait(tr, [t], ty::ParamEnv::empty()).must_apply_modulo_regions())
    }
    fn enqueue(&mut self, d: DefId) {
        if self.seen.insert(d) { self.queue.push_back(d); }
    }
    fn place(&mut self, b: &Body<'tcx>, p: &Place<'tcx>) -> J {
        let mut pr = vec![];
        let mut pt = mir::PlaceTy::from_ty(b.local_decls[p.local].ty);
        for e in p.projection.iter() {
            let j = match e {
                ProjectionElem::Deref => { let t = self.ty(pt.ty); J::A(vec![s("*"), t]) }
                ProjectionElem::Field(f, fty) => {
                    let name = match pt.ty.kind() {
                        ty::Adt(d, _) => {
                            let v = pt.variant_index.unwrap_or(rustc_abi::VariantIdx::from_u32(0));
                            if d.is_enum() || d.is_struct() || d.is_union() { d.variant(v).fields[f].name.to_string() } else { f.index().to_string() }
                        }
                        _ => f.index().to_string(),
                    };
                    let t = self.ty(fty);
                    J::A(vec![s("f"), i(f.index() as i64), s(name), t])
                }
                ProjectionElem::Index(l) => J::A(vec![s("i"), i(l.index() as i64)]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => J::A(vec![s("ci"), i(offset), J::B(from_end), i(min_length)]),
                ProjectionElem::Subslice { from, to, from_end } => J::A(vec![s("ss"), i(from), i(to), J::B(from_end)]),
                ProjectionElem::Downcast(n, v) => {
                    let n = match pt.ty.kind() { ty::Adt(d, _) => d.variant(v).name.to_string(), _ => n.map(|x| x.to_string()).unwrap_or_default() };
                    J::A(vec![s("v"), i(v.index() as i64), s(n)])
                }
                _ => J::A(vec![s("?")]),
            };
            pr.push(j);
            pt = pt.projection_ty(self.tcx, e);
        }
        let t = self.ty(pt.ty);
        J::A(vec![i(p.local.index() as i64), J::A(pr), t])
    }
    fn operand(&mut self, b: &Body<'tcx>, env: TypingEnv<'tcx>, o: &Operand<'tcx>) -> J {
        match o {
            Operand::Copy(p) => J::A(vec![s("cp"), self.place(b, p)]),
            Operand::Move(p) => J::A(vec![s("mv"), self.place(b, p)]),
            Operand::Constant(c) => J::A(vec![s("k"), self.konst(env, c)]),
            Operand::RuntimeChecks(_) => J::A(vec![s("k"), J::O(vec![("rtcheck", J::B(false))])]),
        }
    }
    fn konst(&mut self, env: TypingEnv<'tcx>, c: &ConstOperand<'tcx>) -> J {
        let ty = c.const_.ty();
        let t = self.ty(ty);
        let mut o = vec![("ty", t)];
        if let Const::Unevaluated(u, _) = c.const_ {
            if let Some(p) = u.promoted {
                o.push(("promoted", i(p.index() as i64)));
                let k = self.key(u.def);
                o.push(("of", s(k)));
                self.enqueue(u.def);
                return J::O(o);
            }
            let p = self.path(u.def);
            o.push(("name", s(p)));
        }
        if let ty::FnDef(d, args) = ty.kind() {
            o.push(("fn", self.callee(env, *d, args.no_bound_vars().unwrap())));
            return J::O(o);
        }
        let val: Option<ConstValue> = match c.const_ {
            Const::Val(v, _) => Some(v),
            _ => { if c.const_.has_non_region_param() { None } else { c.const_.eval(self.tcx, env, c.span).ok() } }
        };
        if let Some(v) = val {
            match v {
                ConstValue::ZeroSized => o.push(("zst", J::B(true))),
                ConstValue::Scalar(sc) => {
                    if let Some(si) = v.try_to_scalar_int() {
                        let bits = si.to_bits_unchecked();
                        match ty.kind() {
                            ty::Bool => o.push(("bool", J::B(bits != 0))),
                            ty::Char => o.push(("char", s(char::from_u32(bits as u32).unwrap_or('?').to_string()))),
                            ty::Int(_) => { let sz = si.size().bits(); let sh = 128 - sz; let x = ((bits << sh) as i128) >> sh; o.push(("int", J::I(x))) }
                            ty::Float(_) => { o.push(("float", s(format!("{:x}", bits)))) }
                            _ => o.push(("int", s_or_i(bits))),
                        }
                    } else {
                        // reference to byte-array constant (e.g. b"..." or format templates)
                        if let Some(bytes) = self.ref_bytes(sc, ty) { o.push(("bytes", J::A(bytes.iter().map(|x| i(*x as i64)).collect()))); }
                        else { o.push(("ptr", J::B(true))) }
                    }
                }
                ConstValue::Slice { .. } => {
                    if let Some(bytes) = v.try_get_slice_bytes_for_diagnostics(self.tcx) {
                        match std::str::from_utf8(bytes) {
                            Ok(st) => o.push(("str", s(st))),
                            Err(_) => o.push(("bytes", J::A(bytes.iter().map(|x| i(*x as i64)).collect()))),
                        }
                    }
                }
                ConstValue::Indirect { .. } => o.push(("indirect", J::B(true))),
            }
        } else {
            o.push(("sym", s(with_no_trimmed_paths!(format!("{}", c.const_)))));
        }
        J::O(o)
    }
    fn ref_bytes(&self, sc: mir::interpret::Scalar, ty: Ty<'tcx>) -> Option<Vec<u8>> {
        use mir::interpret::GlobalAlloc;
        let inner = ty.builtin_deref(true)?;
        match inner.kind() { ty::Array(t, _) if matches!(t.kind(), ty::Uint(ty::UintTy::U8)) => {}, _ => return None }
        let ptr = sc.to_pointer(&self.tcx);
        let (prov, off) = ptr.into_raw_parts();
        let aid = prov?.alloc_id();
        match self.tcx.try_get_global_alloc(aid)? {
            GlobalAlloc::Memory(m) => { let a = m.inner(); Some(a.inspect_with_uninit_and_ptr_outside_interpreter(off.bytes_usize()..a.len()).to_vec()) }
            _ => None,
        }
    }
    fn callee(&mut self, env: TypingEnv<'tcx>, d: DefId, args: GenericArgsRef<'tcx>) -> J {
        let path = self.path(d);
        let mut o = vec![("p", s(path.clone())), ("key", s(self.key(d)))];
        let a: Vec<J> = args.types().map(|x| self.ty(x)).collect();
        o.push(("a", J::A(a)));
        let ca: Vec<J> = args.consts().map(|x| s(with_no_trimmed_paths!(format!("{}", x)))).collect();
        if !ca.is_empty() { o.push(("ca", J::A(ca))); }
        if let Some(tr) = self.tcx.trait_of_assoc(d) { o.push(("tr", s(self.path(tr)))); o.push(("nm", s(self.tcx.item_name(d).to_string()))); }
        let eargs = self.tcx.erase_and_anonymize_regions(args);
        match Instance::try_resolve(self.tcx, env, d, eargs) {
            Ok(Some(inst)) => match inst.def {
                InstanceKind::Item(x) => {
                    o.push(("r", s("item")));
                    let rp = self.path(x);
                    o.push(("rp", s(rp.clone()))); o.push(("rk", s(self.key(x))));
                    let a: Vec<J> = inst.args.types().map(|x| self.ty(x)).collect();
                    o.push(("ra", J::A(a)));
                    if x.is_local() || (want_std(&rp) && self.tcx.is_mir_available(x)) { self.enqueue(x); }
                    if let Some(im) = self.tcx.impl_of_assoc(x) {
                        o.push(("is", s(with_no_trimmed_paths!(format!("{}", self.tcx.type_of(im).skip_binder())))));
                    }
                }
                InstanceKind::Virtual(x, _) => { o.push(("r", s("virtual"))); o.push(("rp", s(self.path(x)))); }
                InstanceKind::Intrinsic(x) => { o.push(("r", s("intrinsic"))); o.push(("rp", s(self.path(x)))); }
                InstanceKind::Shim(ShimKind::ClosureOnce { closure, .. }) => { o.push(("r", s("closure_once"))); o.push(("rk", s(self.key(closure)))); self.enqueue(closure); }
                ref k => { o.push(("r", s("shim"))); o.push(("shim", s(format!("{:?}", k).split('(').next().unwrap_or("").to_string()))); }
            },
            _ => o.push(("r", s("unresolved"))),
        }
        J::O(o)
    }
    fn rvalue(&mut self, b: &Body<'tcx>, env: TypingEnv<'tcx>, r: &Rvalue<'tcx>) -> J {
        match r {
            Rvalue::Use(o, _) => J::A(vec![s("use"), self.operand(b, env, o)]),
            Rvalue::Repeat(o, n) => J::A(vec![s("repeat"), self.operand(b, env, o), s(format!("{}", n))]),
            Rvalue::Ref(_, k, p) => J::A(vec![s("ref"), J::B(matches!(k, BorrowKind::Mut { .. })), self.place(b, p)]),
            Rvalue::RawPtr(k, p) => J::A(vec![s("ref"), J::B(matches!(k, RawPtrKind::Mut)), self.place(b, p)]),
            Rvalue::ThreadLocalRef(d) => J::A(vec![s("tls"), s(self.path(*d))]),
            Rvalue::Cast(k, o, t) => { let ks = format!("{:?}", k); let o2 = self.operand(b, env, o); let ft = o.ty(&b.local_decls, self.tcx); let ft = self.ty(ft); let t = self.ty(*t); J::A(vec![s("cast"), s(ks), o2, t, ft]) }
            Rvalue::BinaryOp(op, x) => { let t = x.0.ty(&b.local_decls, self.tcx); let t = self.ty(t); J::A(vec![s("bin"), s(format!("{:?}", op)), self.operand(b, env, &x.0), self.operand(b, env, &x.1), t]) }
            Rvalue::UnaryOp(op, x) => J::A(vec![s("un"), s(format!("{:?}", op)), self.operand(b, env, x)]),
            Rvalue::Discriminant(p) => J::A(vec![s("discr"), self.place(b, p)]),
            Rvalue::Aggregate(k, ops) => {
                let kk = match &**k {
                    AggregateKind::Array(_) => J::A(vec![s("array")]),
                    AggregateKind::Tuple => J::A(vec![s("tuple")]),
                    AggregateKind::Adt(d, v, a, _, f) => {
                        let def = self.tcx.adt_def(*d);
                        let p = self.path(*d); self.adt(*d, p.clone());
                        J::A(vec![s("adt"), s(p), i(v.index() as i64), s(def.variant(*v).name.to_string()), f.map(|f| i(f.index() as i64)).unwrap_or(J::N)])
                    }
                    AggregateKind::Closure(d, _) => { self.enqueue(*d); J::A(vec![s("closure"), s(self.key(*d))]) }
                    AggregateKind::RawPtr(..) => J::A(vec![s("rawptr")]),
                    _ => J::A(vec![s("other")]),
                };
                let os = ops.iter().map(|o| self.operand(b, env, o)).collect();
                J::A(vec![s("agg"), kk, J::A(os)])
            }
            Rvalue::CopyForDeref(p) => J::A(vec![s("use"), J::A(vec![s("cp"), self.place(b, p)])]),
            Rvalue::WrapUnsafeBinder(o, _) => J::A(vec![s("use"), self.operand(b, env, o)]),
            _ => J::A(vec![s("other")]),
        }
    }
    fn body(&mut self, d: DefId, b: &Body<'tcx>, env: TypingEnv<'tcx>) -> Vec<(&'static str, J)> {
        let mut names: HashMap<Local, String> = HashMap::new();
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value { if p.projection.is_empty() { names.entry(p.local).or_insert(v.name.to_string()); } }
        }
        let locals: Vec<J> = b.local_decls.iter_enumerated().map(|(l, dcl)| { let t = self.ty(dcl.ty); J::A(vec![t, names.get(&l).map(|x| s(x.clone())).unwrap_or(J::N)]) }).collect();
        let mut blocks = vec![];
        for (bb, data) in b.basic_blocks.iter_enumerated() {
            let mut st = vec![];
            for stt in &data.statements {
                match &stt.kind {
                    StatementKind::Assign(x) => { let p = self.place(b, &x.0); let r = self.rvalue(b, env, &x.1); let sp = self.span(stt.source_info.span); st.push(J::A(vec![s("="), p, r, sp])); }
                    StatementKind::SetDiscriminant { place, variant_index } => { let p = self.place(b, place); st.push(J::A(vec![s("setd"), p, i(variant_index.index() as i64)])) }
                    StatementKind::StorageDead(l) => st.push(J::A(vec![s("dead"), i(l.index() as i64)])),
                    _ => {}
                }
            }
            let t = data.terminator();
            let sp = self.span(t.source_info.span);
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => J::A(vec![s("goto"), i(target.index() as i64)]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let v: Vec<J> = targets.iter().map(|(v, t)| J::A(vec![J::I(v as i128), i(t.index() as i64)])).collect();
                    let dt = discr.ty(&b.local_decls, self.tcx); let dt = self.ty(dt);
                    J::A(vec![s("switch"), self.operand(b, env, discr), J::A(v), i(targets.otherwise().index() as i64), dt])
                }
                TerminatorKind::Return => J::A(vec![s("return")]),
                TerminatorKind::Unreachable => J::A(vec![s("unreachable")]),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => J::A(vec![s("resume")]),
                TerminatorKind::Drop { place, target, .. } => J::A(vec![s("drop"), self.place(b, place), i(target.index() as i64)]),
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.operand(b, env, func);
                    let ft = func.ty(&b.local_decls, self.tcx);
                    let a: Vec<J> = args.iter().map(|x| self.operand(b, env, &x.node)).collect();
                    let at: Vec<J> = args.iter().map(|x| { let t = x.node.ty(&b.local_decls, self.tcx); self.ty(t) }).collect();
                    J::A(vec![s("call"), f, J::A(a), self.place(b, destination), target.map(|t| i(t.index() as i64)).unwrap_or(J::N), J::A(at)])
                }
                TerminatorKind::TailCall { .. } => J::A(vec![s("tailcall")]),
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = format!("{:?}", msg).split('(').next().unwrap_or("").split(' ').next().unwrap_or("").to_string();
                    let mut extra = vec![];
                    if let AssertKind::BoundsCheck { len, index } = &**msg { extra.push(self.operand(b, env, len)); extra.push(self.operand(b, env, index)); }
                    J::A(vec![s("assert"), self.operand(b, env, cond), J::B(*expected), s(m), i(target.index() as i64), J::A(extra)])
                }
                _ => J::A(vec![s("other")]),
            };
            blocks.push(J::O(vec![("s", J::A(st)), ("t", tj), ("sp", sp), ("cl", J::B(data.is_cleanup))]));
        }
        vec![("argc", i(b.arg_count as i64)), ("locals", J::A(locals)), ("blocks", J::A(blocks)),
             ("spread", b.spread_arg.map(|l| i(l.index() as i64)).unwrap_or(J::N))]
    }
    fn dump_fn(&mut self, d: DefId) -> Option<J> {
        let tcx = self.tcx;
        let kind = tcx.def_kind(d);
        let is_const_like = matches!(kind, DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } | DefKind::AnonConst);
        if !matches!(kind, DefKind::Fn | DefKind::AssocFn | DefKind::Closure | DefKind::Ctor(..)) && !is_const_like { return None; }
        if is_const_like && !d.is_local() { return None; }
        if !tcx.is_mir_available(d) { return None; }
        let env = TypingEnv::post_analysis(tcx, d);
        let b: &Body<'tcx> = if is_const_like { tcx.mir_for_ctfe(d) } else { tcx.optimized_mir(d) };
        let mut o = vec![("key", s(self.key(d))), ("path", s(self.path(d))), ("local", J::B(d.is_local())), ("kind", s(format!("{:?}", kind)))];
        let sp = self.span(b.span); o.push(("span", sp));
        if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
            o.push(("pub", J::B(tcx.visibility(d).is_public())));
            o.push(("unsafe", J::B(tcx.fn_sig(d).skip_binder().safety().is_unsafe())));
            o.push(("nm", s(tcx.item_name(d).to_string())));
            let gens: Vec<J> = { let g = tcx.generics_of(d); (0..g.count()).filter_map(|ix| { let p = g.param_at(ix, tcx); Some(s(p.name.to_string())) }).collect() };
            o.push(("gens", J::A(gens)));
        }
        if let Some(im) = tcx.impl_of_assoc(d) {
            let st = tcx.type_of(im).skip_binder();
            let st = self.ty(st);
            o.push(("self_ty", st));
            if let Some(tr) = tcx.impl_opt_trait_ref(im) { let tr = tr.skip_binder(); o.push(("impl_trait", s(self.path(tr.def_id)))); o.push(("impl_trait_full", s(with_no_trimmed_paths!(format!("{}", tr))))); }
            o.push(("impl_key", s(self.key(im))));
        }
        if let Some(tr) = tcx.trait_of_assoc(d) { o.push(("in_trait", s(self.path(tr)))); }
        if kind == DefKind::Closure { let p = tcx.parent(d); o.push(("parent", s(self.key(p)))); }
        o.extend(self.body(d, b, env));
        if d.is_local() || !is_const_like {
            let pr: Vec<J> = tcx.promoted_mir(d).iter().map(|pb| J::O(self.body(d, pb, env))).collect();
            o.push(("promoted", J::A(pr)));
        }
        Some(J::O(o))
    }
}
fn s_or_i(b: u128) -> J { if b <= i128::MAX as u128 { J::I(b as i128) } else { J::S(format!("{}", b)) } }

struct Cb { out: Option<String> }
impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let Some(dir) = &self.out else { return Compilation::Continue };
        let krate = tcx.crate_name(LOCAL_CRATE).to_string();
        let mut cx = Cx { tcx, tys: vec![], tymap: HashMap::new(), adts: BTreeMap::new(), queue: VecDeque::new(), seen: HashSet::new(), krate: krate.clone() };
        for d in tcx.hir_body_owners() { cx.enqueue(d.to_def_id()); }
        let mut fns = vec![];
        while let Some(d) = cx.queue.pop_front() { if let Some(j) = cx.dump_fn(d) { fns.push(j); } }
        // local traits with their methods, and all local trait impls
        let mut traits = vec![]; let mut impls = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            let d = id.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Trait { .. } => {
                    let ms: Vec<J> = tcx.associated_items(d).in_definition_order().filter(|a| a.is_fn()).map(|a| J::A(vec![s(a.name().to_string()), J::B(a.defaultness(tcx).has_value()), s(cx.key(a.def_id))])).collect();
                    let p = cx.path(d);
                    traits.push(J::O(vec![("path", s(p)), ("methods", J::A(ms))]));
                }
                DefKind::Impl { of_trait } => {
                    let st = tcx.type_of(d).skip_binder(); let st = cx.ty(st);
                    let tr = if of_trait { tcx.impl_opt_trait_ref(d).map(|t| t.skip_binder()) } else { None };
                    let ms: Vec<J> = tcx.associated_items(d).in_definition_order().filter(|a| a.is_fn()).map(|a| J::A(vec![s(a.name().to_string()), s(cx.key(a.def_id))])).collect();
                    impls.push(J::O(vec![("self_ty", st), ("trait", tr.map(|t| s(cx.path(t.def_id))).unwrap_or(J::N)), ("full", tr.map(|t| s(with_no_trimmed_paths!(format!("{}", t)))).unwrap_or(J::N)), ("methods", J::A(ms)), ("key", s(cx.key(d))), ("sp", cx.span(tcx.def_span(d)))]));
                }
                DefKind::Struct | DefKind::Enum => { let p = cx.path(d); cx.adt(d, p); }
                _ => {}
            }
        }
        let adts: Vec<J> = cx.adts.iter().map(|(k, v)| J::A(vec![s(k.clone()), v.clone()])).collect();
        let root = J::O(vec![("crate", s(krate.clone())), ("tys", J::A(cx.tys.clone())), ("adts", J::A(adts)), ("traits", J::A(traits)), ("impls", J::A(impls)), ("fns", J::A(fns))]);
        let mut out = String::new(); root.w(&mut out);
        std::fs::create_dir_all(dir).unwrap();
        std::fs::write(format!("{}/{}.json", dir, krate), out).unwrap();
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) { args.remove(1); }
    let name = args.iter().position(|a| a == "--crate-name").and_then(|p| args.get(p + 1)).cloned().unwrap_or_default();
    let want = std::env::var("VP_CRATES").unwrap_or_default();
    let out = if want.split(',').any(|w| w == name) { std::env::var("VP_DUMP_DIR").ok() } else { None };
    if out.is_some() {
        for a in ["-Zmir-opt-level=0", "-Coverflow-checks=on", "-Cdebug-assertions=off", "-Zalways-encode-mir", "-Awarnings"] { args.push(a.to_string()); }
    }
    let mut cb = Cb { out };
    let code = rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut cb));
    std::process::exit(if code == std::process::ExitCode::SUCCESS { 0 } else { 1 });
}
