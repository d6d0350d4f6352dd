//! MIR exporter: a rustc driver that dumps, as JSON, the MIR of every function of the crate being
//! compiled and of every function (std, dependencies) those call, instantiated in the caller's
//! parameter environment, with resolved callees and evaluated constants.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;
extern crate rustc_type_ir;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_interface::interface;
use rustc_middle::mir::interpret::{alloc_range, AllocId, GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::print::{with_no_trimmed_paths, with_no_visible_paths};
use rustc_middle::ty::{self, EarlyBinder, GenericArgsRef, Instance, InstanceKind, ShimKind, Ty, TyCtxt, TyKind, TypeVisitableExt, TypingEnv};
use rustc_span::def_id::DefId;
use std::collections::{HashMap, HashSet, VecDeque};
use std::fmt::Write as _;

fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr(v: Vec<String>) -> String { format!("[{}]", v.join(",")) }

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<String>,
    tymap: HashMap<(Ty<'tcx>, usize), usize>,
    envs: Vec<TypingEnv<'tcx>>,
    seen: HashSet<String>,
    queue: VecDeque<(String, Instance<'tcx>, usize)>,
    noinline: Vec<String>,
    out: Vec<String>,
    adts: HashMap<String, String>,
}

fn path(tcx: TyCtxt<'_>, d: DefId) -> String {
    with_no_visible_paths!(with_no_trimmed_paths!(tcx.def_path_str(d)))
}
fn tystr(t: Ty<'_>) -> String {
    with_no_visible_paths!(with_no_trimmed_paths!(t.to_string()))
}

impl<'tcx> Cx<'tcx> {
    fn env(&mut self, e: TypingEnv<'tcx>) -> usize {
        for (i, x) in self.envs.iter().enumerate() { if *x == e { return i; } }
        self.envs.push(e);
        self.envs.len() - 1
    }
    fn norm(&self, e: usize, t: Ty<'tcx>) -> Ty<'tcx> {
        let te = self.envs[e];
        match self.tcx.try_normalize_erasing_regions(te, ty::Unnormalized::new(t)) { Ok(t) => t, Err(_) => t }
    }
    fn ty(&mut self, e: usize, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        let t = self.norm(e, t);
        let ek = if t.has_param() || t.has_aliases() { e } else { usize::MAX };
        if let Some(i) = self.tymap.get(&(t, ek)) { return *i; }
        let i = self.types.len();
        self.types.push(String::new());
        self.tymap.insert((t, ek), i);
        let s = tystr(t);
        let tcx = self.tcx;
        let mut d = format!("{{\"s\":{}", js(&s));
        match t.kind() {
            TyKind::Bool => d += ",\"k\":\"bool\"",
            TyKind::Char => d += ",\"k\":\"char\"",
            TyKind::Int(it) => { let _ = write!(d, ",\"k\":\"int\",\"bits\":{},\"signed\":true,\"ptr\":{}", it.bit_width().unwrap_or(64), it.bit_width().is_none()); }
            TyKind::Uint(it) => { let _ = write!(d, ",\"k\":\"int\",\"bits\":{},\"signed\":false,\"ptr\":{}", it.bit_width().unwrap_or(64), it.bit_width().is_none()); }
            TyKind::Float(f) => { let _ = write!(d, ",\"k\":\"float\",\"bits\":{}", f.bit_width()); }
            TyKind::Str => d += ",\"k\":\"str\"",
            TyKind::Never => d += ",\"k\":\"never\"",
            TyKind::Slice(x) => { let x = self.ty(e, *x); let _ = write!(d, ",\"k\":\"slice\",\"e\":{}", x); }
            TyKind::Array(x, n) => {
                let x = self.ty(e, *x);
                let n = n.try_to_target_usize(tcx).map(|n| n.to_string()).unwrap_or("null".into());
                let _ = write!(d, ",\"k\":\"array\",\"e\":{},\"n\":{}", x, n);
            }
            TyKind::Ref(_, x, m) => { let x = self.ty(e, *x); let _ = write!(d, ",\"k\":\"ref\",\"e\":{},\"mut\":{}", x, m.is_mut()); }
            TyKind::RawPtr(x, m) => { let x = self.ty(e, *x); let _ = write!(d, ",\"k\":\"ptr\",\"e\":{},\"mut\":{}", x, m.is_mut()); }
            TyKind::Tuple(xs) => { let v: Vec<String> = xs.iter().map(|x| self.ty(e, x).to_string()).collect(); let _ = write!(d, ",\"k\":\"tuple\",\"es\":{}", arr(v)); }
            TyKind::Adt(def, args) => {
                let p = path(tcx, def.did());
                let kind = if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" };
                let mut vs = vec![];
                let expand = true;
                if expand {
                    for (vi, v) in def.variants().iter_enumerated() {
                        let disc = if def.is_enum() { def.discriminant_for_variant(tcx, vi).val as i128 } else { 0 };
                        let fs: Vec<String> = v.fields.iter().map(|f| {
                            let ft = f.ty(tcx, args).skip_norm_wip();
                            format!("[{},{}]", js(f.name.as_str()), self.ty(e, ft))
                        }).collect();
                        vs.push(format!("[{},{},{}]", js(v.name.as_str()), disc, arr(fs)));
                    }
                }
                let targs: Vec<String> = args.types().map(|x| self.ty(e, x).to_string()).collect();
                let local = def.did().is_local();
                let dbits = if def.is_enum() { use rustc_abi::IntegerType::*; match def.repr().discr_type() { Pointer(s) => if s {-64} else {64}, Fixed(i, s) => { let b = i.size().bits() as i64; if s {-b} else {b} } } } else { 0 };
                let _ = write!(d, ",\"k\":\"{}\",\"path\":{},\"args\":{},\"vs\":{},\"local\":{},\"dbits\":{}", kind, js(&p), arr(targs), arr(vs), local, dbits);
            }
            TyKind::FnDef(did, args) => {
                let c = self.callee(e, *did, args.skip_binder());
                let _ = write!(d, ",\"k\":\"fndef\",\"callee\":{}", c);
            }
            TyKind::Closure(did, args) => {
                let key = self.enqueue(e, Instance::new_raw(*did, args));
                let ups: Vec<String> = args.as_closure().upvar_tys().iter().map(|x| self.ty(e, x).to_string()).collect();
                let k = format!("{:?}", args.as_closure().kind());
                let _ = write!(d, ",\"k\":\"closure\",\"body\":{},\"ups\":{},\"ck\":{}", key.map(|k| js(&k)).unwrap_or("null".into()), arr(ups), js(&k));
            }
            TyKind::Param(_) => d += ",\"k\":\"param\"",
            TyKind::Alias(..) => d += ",\"k\":\"alias\"",
            TyKind::Dynamic(..) => d += ",\"k\":\"dyn\"",
            TyKind::FnPtr(..) => d += ",\"k\":\"fnptr\"",
            _ => d += ",\"k\":\"other\"",
        }
        d += "}";
        self.types[i] = d;
        i
    }
    fn inst_key(&self, e: usize, inst: Instance<'tcx>) -> String {
        let p = with_no_visible_paths!(with_no_trimmed_paths!(self.tcx.def_path_str_with_args(inst.def_id(), inst.args)));
        let shim = match inst.def { InstanceKind::Item(_) => String::new(), k => format!("#{}", kind_name(&k)) };
        if inst.args.has_param() || inst.args.has_aliases() { format!("{}{}@{}", p, shim, e) } else { format!("{}{}", p, shim) }
    }
    fn excluded(&self, p: &str) -> bool { self.noinline.iter().any(|x| p.starts_with(x.as_str()) || (x.starts_with('*') && p.contains(&x[1..]))) }
    fn enqueue(&mut self, e: usize, inst: Instance<'tcx>) -> Option<String> {
        let d = inst.def_id();
        let p = path(self.tcx, d);
        if !d.is_local() && self.excluded(&p) { return None; }
        let ok = match inst.def {
            InstanceKind::Item(d) => self.tcx.is_mir_available(d) && !(self.tcx.is_foreign_item(d)),
            _ => false,
        };
        if !ok { return None; }
        let inst = Instance { args: self.tcx.erase_and_anonymize_regions(inst.args), ..inst };
        let key = self.inst_key(e, inst);
        if self.seen.insert(key.clone()) { self.queue.push_back((key.clone(), inst, e)); }
        Some(key)
    }
    /// JSON description of a callee
    fn callee(&mut self, e: usize, did: DefId, args: GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        let te = self.envs[e];
        let args = tcx.erase_and_anonymize_regions(args);
        let args = match tcx.try_normalize_erasing_regions(te, ty::Unnormalized::new(args)) { Ok(a) => a, Err(_) => args };
        let p = path(tcx, did);
        let mut d = format!("{{\"p\":{},\"name\":{}", js(&p), js(tcx.opt_item_name(did).map(|n| n.to_string()).unwrap_or_default().as_str()));
        let ts: Vec<String> = args.types().map(|x| self.ty(e, x).to_string()).collect();
        let _ = write!(d, ",\"args\":{}", arr(ts));
        let cs: Vec<String> = args.consts().map(|c| c.try_to_target_usize(tcx).map(|n| n.to_string()).unwrap_or("null".into())).collect();
        if !cs.is_empty() { let _ = write!(d, ",\"cargs\":{}", arr(cs)); }
        if let Some(t) = tcx.trait_of_assoc(did) { let _ = write!(d, ",\"trait\":{}", js(&path(tcx, t))); }
        if let Some(i) = tcx.intrinsic(did) { let _ = write!(d, ",\"intrinsic\":{}", js(i.name.as_str())); }
        if matches!(tcx.def_kind(did), DefKind::Fn | DefKind::AssocFn) && tcx.intrinsic(did).is_none() {
            match Instance::try_resolve(tcx, te, did, args) {
                Ok(Some(inst)) => {
                    let rd = inst.def_id();
                    let _ = write!(d, ",\"rp\":{}", js(&path(tcx, rd)));
                    let rts: Vec<String> = inst.args.types().map(|x| self.ty(e, x).to_string()).collect();
                    let _ = write!(d, ",\"rargs\":{}", arr(rts));
                    if let Some(im) = tcx.impl_of_assoc(rd) {
                        let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                        let _ = write!(d, ",\"implself\":{}", js(&tystr(st)));
                    }
                    match inst.def {
                        InstanceKind::Item(_) => {
                            if let Some(k) = self.enqueue(e, inst) { let _ = write!(d, ",\"body\":{}", js(&k)); }
                        }
                        InstanceKind::Intrinsic(_) => { let _ = write!(d, ",\"intrinsic\":{}", js(tcx.item_name(rd).as_str())); }
                        InstanceKind::Virtual(..) => { let _ = write!(d, ",\"virtual\":true"); }
                        InstanceKind::Shim(ShimKind::ClosureOnce { closure, .. }) => {
                            let st = inst.args.type_at(0);
                            let t = self.ty(e, st);
                            let _ = write!(d, ",\"shim\":\"closure_once\",\"clty\":{},\"closure\":{}", t, js(&path(tcx, closure)));
                        }
                        k => {
                            let st = if inst.args.types().next().is_some() { let st = inst.args.type_at(0); self.ty(e, st).to_string() } else { "null".into() };
                            let _ = write!(d, ",\"shim\":{},\"selfty\":{}", js(kind_name(&k)), st);
                        }
                    }
                }
                _ => { d += ",\"unresolved\":true"; }
            }
        } else if matches!(tcx.def_kind(did), DefKind::Ctor(..)) {
            let ctor_parent = tcx.parent(did);
            let _ = write!(d, ",\"ctor\":{}", js(&path(tcx, ctor_parent)));
            if let Some(ctor_ty) = Some(tcx.type_of(did).instantiate(tcx, args).skip_norm_wip()) {
                let sig = ctor_ty.fn_sig(tcx).skip_binder();
                let rt = sig.output();
                if let TyKind::Adt(adt, _) = rt.kind() {
                    let vi = adt.variant_index_with_ctor_id(did).as_usize();
                    let rt = self.ty(e, rt);
                    let _ = write!(d, ",\"ctor_ty\":{},\"ctor_v\":{}", rt, vi);
                }
            }
        }
        d += "}";
        d
    }
    fn const_val(&mut self, e: usize, v: ConstValue, t: Ty<'tcx>, depth: usize) -> String {
        let tcx = self.tcx;
        if depth > 6 { return "{\"k\":\"opaque\"}".into(); }
        let ti = self.ty(e, t);
        let opaque = format!("{{\"k\":\"opaque\",\"t\":{}}}", ti);
        match t.kind() {
            TyKind::FnDef(..) | TyKind::Closure(..) => return format!("{{\"k\":\"zst\",\"t\":{}}}", ti),
            TyKind::Bool | TyKind::Char | TyKind::Int(_) | TyKind::Uint(_) | TyKind::Float(_) => {
                if let Some(s) = self.scalar_of(e, v, t) { return format!("{{\"k\":\"int\",\"t\":{},\"v\":{}}}", ti, s); }
                return opaque;
            }
            TyKind::Ref(_, inner, _) | TyKind::RawPtr(inner, _) => {
                let inner = *inner;
                match inner.kind() {
                    TyKind::Str | TyKind::Slice(_) => {
                        let (aid, off, n) = match v {
                            ConstValue::Slice { alloc_id, meta } => (alloc_id, 0u64, meta),
                            ConstValue::Indirect { alloc_id, offset } => {
                                let GlobalAlloc::Memory(a) = tcx.global_alloc(alloc_id) else { return opaque };
                                let ps = tcx.data_layout.pointer_size();
                                let p = a.inner().read_scalar(&tcx, alloc_range(offset, ps), true);
                                let l = a.inner().read_scalar(&tcx, alloc_range(offset + ps, ps), false);
                                match (p, l) {
                                    (Ok(Scalar::Ptr(p, _)), Ok(l)) => {
                                        let (prov, o) = p.prov_and_relative_offset();
                                        let Some(l) = l.to_target_usize(&tcx).discard_err() else { return opaque };
                                        (prov.alloc_id(), o.bytes(), l)
                                    }
                                    (Ok(Scalar::Int(_)), Ok(l)) => {
                                        if l.to_target_usize(&tcx).discard_err() == Some(0) { return format!("{{\"k\":\"slice\",\"t\":{},\"v\":[]}}", ti); }
                                        return opaque;
                                    }
                                    _ => return opaque,
                                }
                            }
                            _ => return opaque,
                        };
                        let et = match inner.kind() { TyKind::Str => tcx.types.u8, TyKind::Slice(x) => *x, _ => unreachable!() };
                        let GlobalAlloc::Memory(a) = tcx.global_alloc(aid) else { return opaque };
                        let Ok(l) = tcx.layout_of(self.envs[e].as_query_input(et)) else { return opaque };
                        let _ = a;
                        let mut v = vec![];
                        for i in 0..n {
                            let o = rustc_abi::Size::from_bytes(off + i * l.size.bytes());
                            v.push(self.const_val(e, ConstValue::Indirect { alloc_id: aid, offset: o }, et, depth + 1));
                            if i > 4096 { return opaque; }
                        }
                        return format!("{{\"k\":\"slice\",\"t\":{},\"v\":{}}}", ti, arr(v));
                    }
                    _ => {
                        let (aid, off) = match v {
                            ConstValue::Scalar(Scalar::Ptr(p, _)) => { let (prov, o) = p.prov_and_relative_offset(); (prov.alloc_id(), o) }
                            ConstValue::Indirect { alloc_id, offset } => {
                                let GlobalAlloc::Memory(a) = tcx.global_alloc(alloc_id) else { return opaque };
                                let ps = tcx.data_layout.pointer_size();
                                match a.inner().read_scalar(&tcx, alloc_range(offset, ps), true) {
                                    Ok(Scalar::Ptr(p, _)) => { let (prov, o) = p.prov_and_relative_offset(); (prov.alloc_id(), o) }
                                    _ => return opaque,
                                }
                            }
                            _ => return opaque,
                        };
                        return self.alloc_ref(e, ti, aid, off, inner, depth);
                    }
                }
            }
            _ => {}
        }
        if t.has_param() { return opaque; }
        let is_agg = matches!(t.kind(), TyKind::Adt(..) | TyKind::Tuple(..) | TyKind::Array(..));
        if is_agg {
            if let TyKind::Adt(d, _) = t.kind() { if d.is_union() { return opaque; } }
            if let ConstValue::ZeroSized = v {
                // zero-sized struct/tuple
                if let TyKind::Tuple(xs) = t.kind() { if xs.is_empty() { return format!("{{\"k\":\"agg\",\"t\":{},\"var\":0,\"f\":[]}}", ti); } }
            }
            if let Some(d) = tcx.try_destructure_mir_constant_for_user_output(v, t) {
                let fs: Vec<String> = d.fields.iter().map(|(fv, ft)| self.const_val(e, *fv, *ft, depth + 1)).collect();
                return format!("{{\"k\":\"agg\",\"t\":{},\"var\":{},\"f\":{}}}", ti, d.variant.map(|v| v.as_usize()).unwrap_or(0), arr(fs));
            }
        }
        opaque
    }
    fn alloc_ref(&mut self, e: usize, ti: usize, aid: AllocId, off: rustc_abi::Size, inner: Ty<'tcx>, depth: usize) -> String {
        let tcx = self.tcx;
        match tcx.global_alloc(aid) {
            GlobalAlloc::Memory(_) => {
                let x = self.const_val(e, ConstValue::Indirect { alloc_id: aid, offset: off }, inner, depth + 1);
                format!("{{\"k\":\"ref\",\"t\":{},\"v\":{}}}", ti, x)
            }
            GlobalAlloc::Static(d) => {
                let p = path(tcx, d);
                let mut val = "null".to_string();
                let mutable = tcx.is_mutable_static(d);
                if d.is_local() || tcx.is_mir_available(d) {
                    if let Ok(a) = tcx.eval_static_initializer(d) {
                        let aid2 = tcx.reserve_and_set_memory_alloc(a);
                        val = self.const_val(e, ConstValue::Indirect { alloc_id: aid2, offset: off }, inner, depth + 1);
                    }
                }
                format!("{{\"k\":\"ref\",\"t\":{},\"static\":{},\"mutstatic\":{},\"v\":{}}}", ti, js(&p), mutable, val)
            }
            GlobalAlloc::Function { instance } => format!("{{\"k\":\"fnptr\",\"t\":{},\"p\":{}}}", ti, js(&path(tcx, instance.def_id()))),
            _ => format!("{{\"k\":\"opaque\",\"t\":{}}}", ti),
        }
    }
    fn scalar_of(&self, e: usize, v: ConstValue, t: Ty<'tcx>) -> Option<String> {
        let tcx = self.tcx;
        let l = tcx.layout_of(self.envs[e].as_query_input(t)).ok()?;
        let s = match v {
            ConstValue::Scalar(s) => s,
            ConstValue::Indirect { alloc_id, offset } => {
                let GlobalAlloc::Memory(a) = tcx.global_alloc(alloc_id) else { return None };
                a.inner().read_scalar(&tcx, alloc_range(offset, l.size), false).ok()?
            }
            _ => return None,
        };
        let Scalar::Int(i) = s else { return None };
        let bits = i.to_bits(l.size);
        Some(match t.kind() {
            TyKind::Int(_) => { let n = l.size.bits() as u32; let x = ((bits << (128 - n)) as i128) >> (128 - n); x.to_string() }
            _ => bits.to_string(),
        })
    }
    fn konst(&mut self, e: usize, c: &ConstOperand<'tcx>) -> String {
        let tcx = self.tcx;
        let t0 = c.const_.ty();
        let t = self.norm(e, tcx.erase_and_anonymize_regions(t0));
        if let TyKind::FnDef(..) = t.kind() {
            let ti = self.ty(e, t);
            return format!("{{\"k\":\"zst\",\"t\":{}}}", ti);
        }
        let te = self.envs[e];
        match c.const_.eval(tcx, te, c.span) {
            Ok(v) => self.const_val(e, v, t, 0),
            Err(_) => {
                let ti = self.ty(e, t);
                let d = match c.const_ {
                    Const::Unevaluated(u, _) => {
                        // associated const of a param: name it
                        js(&with_no_visible_paths!(with_no_trimmed_paths!(tcx.def_path_str_with_args(u.def, u.args))))
                    }
                    _ => js(&format!("{:?}", c.const_)),
                };
                format!("{{\"k\":\"opaque\",\"t\":{},\"d\":{}}}", ti, d)
            }
        }
    }
    fn place(&mut self, e: usize, p: &Place<'tcx>) -> String {
        let mut v = vec![];
        for el in p.projection.iter() {
            v.push(match el {
                ProjectionElem::Deref => "\"*\"".to_string(),
                ProjectionElem::Field(f, t) => { let t = self.ty(e, t); format!("[\"f\",{},{}]", f.as_usize(), t) }
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l.as_usize()),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => format!("[\"c\",{},{},{}]", offset, min_length, from_end),
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"s\",{},{},{}]", from, to, from_end),
                ProjectionElem::Downcast(_, vi) => format!("[\"v\",{}]", vi.as_usize()),
                _ => "[\"o\"]".to_string(),
            });
        }
        format!("[{},{}]", p.local.as_usize(), arr(v))
    }
    fn operand(&mut self, e: usize, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("{{\"c\":{}}}", self.place(e, p)),
            Operand::Move(p) => format!("{{\"m\":{}}}", self.place(e, p)),
            Operand::Constant(c) => format!("{{\"k\":{}}}", self.konst(e, c)),
            _ => "{\"rt\":1}".into(),
        }
    }
    fn rvalue(&mut self, e: usize, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.operand(e, o)),
            Rvalue::Repeat(o, n) => format!("[\"repeat\",{},{}]", self.operand(e, o), n.try_to_target_usize(self.tcx).map(|x| x.to_string()).unwrap_or("null".into())),
            Rvalue::Ref(_, bk, p) => format!("[\"ref\",{},{}]", js(if matches!(bk, BorrowKind::Mut { .. }) { "mut" } else { "shared" }), self.place(e, p)),
            Rvalue::RawPtr(_, p) => format!("[\"rawptr\",{}]", self.place(e, p)),
            Rvalue::Reborrow(_, _, p) => format!("[\"use\",{{\"c\":{}}}]", self.place(e, p)),
            Rvalue::CopyForDeref(p) => format!("[\"use\",{{\"c\":{}}}]", self.place(e, p)),
            Rvalue::Cast(k, o, t) => { let o = self.operand(e, o); let t = self.ty(e, *t); format!("[\"cast\",{},{},{}]", js(&format!("{:?}", k)), o, t) }
            Rvalue::BinaryOp(op, b) => { let x = self.operand(e, &b.0); let y = self.operand(e, &b.1); format!("[\"bin\",{},{},{}]", js(&format!("{:?}", op)), x, y) }
            Rvalue::UnaryOp(op, o) => format!("[\"un\",{},{}]", js(&format!("{:?}", op)), self.operand(e, o)),
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(e, p)),
            Rvalue::Aggregate(k, fs) => {
                let ops: Vec<String> = fs.iter().map(|o| self.operand(e, o)).collect();
                let kd = match &**k {
                    AggregateKind::Array(_) => "[\"array\"]".to_string(),
                    AggregateKind::Tuple => "[\"tuple\"]".to_string(),
                    AggregateKind::Adt(d, v, _, _, f) => format!("[\"adt\",{},{},{}]", js(&path(self.tcx, *d)), v.as_usize(), f.map(|f| f.as_usize().to_string()).unwrap_or("null".into())),
                    AggregateKind::Closure(d, _) => format!("[\"closure\",{}]", js(&path(self.tcx, *d))),
                    AggregateKind::RawPtr(t, _) => { let t = self.ty(e, *t); format!("[\"rawptr\",{}]", t) }
                    _ => "[\"other\"]".to_string(),
                };
                format!("[\"agg\",{},{}]", kd, arr(ops))
            }
            _ => "[\"other\"]".into(),
        }
    }
    fn body(&mut self, key: &str, inst: Instance<'tcx>, e: usize, root: Option<String>) {
        let tcx = self.tcx;
        let te = self.envs[e];
        let raw = tcx.instance_mir(inst.def);
        let b: Body<'tcx> = match inst.try_instantiate_mir_and_normalize_erasing_regions(tcx, te, EarlyBinder::bind(tcx, raw.clone())) {
            Ok(b) => b,
            Err(_) => { self.out.push(format!("{{\"key\":{},\"fail\":true}}", js(key))); return; }
        };
        let sm = tcx.sess.source_map();
        let loc = sm.lookup_char_pos(b.span.lo());
        let file = format!("{}", loc.file.name.prefer_local_unconditionally());
        let locals: Vec<String> = b.local_decls.iter().map(|l| self.ty(e, l.ty).to_string()).collect();
        let mut names: Vec<String> = vec![];
        for vd in b.var_debug_info.iter() {
            if let VarDebugInfoContents::Place(p) = vd.value { if p.projection.is_empty() { names.push(format!("[{},{}]", p.local.as_usize(), js(vd.name.as_str()))); } }
        }
        let mut blocks = vec![];
        for bb in b.basic_blocks.iter() {
            let mut st = vec![];
            for s in &bb.statements {
                let line = sm.lookup_char_pos(s.source_info.span.lo()).line;
                match &s.kind {
                    StatementKind::Assign(a) => { let p = self.place(e, &a.0); let r = self.rvalue(e, &a.1); st.push(format!("[\"=\",{},{},{}]", p, r, line)); }
                    StatementKind::SetDiscriminant { place, variant_index } => { let p = self.place(e, place); st.push(format!("[\"sd\",{},{},{}]", p, variant_index.as_usize(), line)); }
                    StatementKind::Intrinsic(i) => match &**i {
                        NonDivergingIntrinsic::Assume(o) => { let o = self.operand(e, o); st.push(format!("[\"assume\",{},{}]", o, line)); }
                        NonDivergingIntrinsic::CopyNonOverlapping(c) => {
                            let (s1, d1, n1) = (self.operand(e, &c.src), self.operand(e, &c.dst), self.operand(e, &c.count));
                            st.push(format!("[\"copynon\",{},{},{},{}]", s1, d1, n1, line));
                        }
                    },
                    _ => {}
                }
            }
            let t = bb.terminator();
            let tl = sm.lookup_char_pos(t.source_info.span.lo());
            let line = tl.line;
            let term = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let d = self.operand(e, discr);
                    let dt = discr.ty(&b.local_decls, tcx);
                    let dti = self.ty(e, dt);
                    let ts: Vec<String> = targets.iter().map(|(v, t)| {
                        let v = match dt.kind() { TyKind::Int(it) => { let n = it.bit_width().unwrap_or(64) as u32; (((v << (128 - n)) as i128) >> (128 - n)).to_string() } _ => v.to_string() };
                        format!("[{},{}]", v, t.as_usize())
                    }).collect();
                    format!("[\"switch\",{},{},{},{}]", d, dti, arr(ts), targets.otherwise().as_usize())
                }
                TerminatorKind::Return => "[\"ret\"]".into(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                TerminatorKind::UnwindResume => "[\"resume\"]".into(),
                TerminatorKind::UnwindTerminate(_) => "[\"abort\"]".into(),
                TerminatorKind::Drop { place, target, .. } => { let pt = place.ty(&b.local_decls, tcx).ty; let ti = self.ty(e, pt); format!("[\"drop\",{},{},{}]", self.place(e, place), target.as_usize(), ti) }
                TerminatorKind::FalseEdge { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let c = self.operand(e, cond);
                    let (m, ops): (String, Vec<String>) = match &**msg {
                        AssertKind::BoundsCheck { len, index } => ("bounds".into(), vec![self.operand(e, len), self.operand(e, index)]),
                        AssertKind::Overflow(op, x, y) => (format!("overflow:{:?}", op), vec![self.operand(e, x), self.operand(e, y)]),
                        AssertKind::OverflowNeg(x) => ("overflow:Neg".into(), vec![self.operand(e, x)]),
                        AssertKind::DivisionByZero(x) => ("div0".into(), vec![self.operand(e, x)]),
                        AssertKind::RemainderByZero(x) => ("rem0".into(), vec![self.operand(e, x)]),
                        k => (format!("{:?}", k).chars().take(30).collect(), vec![]),
                    };
                    format!("[\"assert\",{},{},{},{},{}]", c, expected, js(&m), arr(ops), target.as_usize())
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let ft = func.ty(&b.local_decls, tcx);
                    let ft = self.norm(e, ft);
                    let cal = if let TyKind::FnDef(d, a) = ft.kind() { self.callee(e, *d, a.skip_binder()) } else { let o = self.operand(e, func); format!("{{\"p\":\"<indirect>\",\"op\":{}}}", o) };
                    let a: Vec<String> = args.iter().map(|x| self.operand(e, &x.node)).collect();
                    let d = self.place(e, destination);
                    let dt = destination.ty(&b.local_decls, tcx).ty;
                    let dti = self.ty(e, dt);
                    format!("[\"call\",{},{},{},{},{}]", cal, arr(a), d, target.map(|t| t.as_usize().to_string()).unwrap_or("null".into()), dti)
                }
                k => format!("[\"other\",{}]", js(&format!("{:?}", k).chars().take(40).collect::<String>())),
            };
            blocks.push(format!("{{\"s\":{},\"t\":{},\"l\":{},\"cl\":{}}}", arr(st), term, line, bb.is_cleanup));
        }
        let d = inst.def_id();
        let mut o = format!("{{\"key\":{},\"path\":{},\"file\":{},\"line\":{},\"local\":{},\"env\":{},\"nargs\":{},\"locals\":{},\"names\":{},\"spread\":{}",
            js(key), js(&path(tcx, d)), js(&file), loc.line, d.is_local(), e, b.arg_count, arr(locals), arr(names),
            b.spread_arg.map(|l| l.as_usize().to_string()).unwrap_or("null".into()));
        if let Some(r) = root { let _ = write!(o, ",\"root\":{}", r); }
        let _ = write!(o, ",\"blocks\":{}}}", arr(blocks));
        self.out.push(o);
    }
}

fn kind_name(k: &InstanceKind<'_>) -> &'static str {
    match k {
        InstanceKind::Item(_) => "item",
        InstanceKind::Intrinsic(_) => "intrinsic",
        InstanceKind::Virtual(..) => "virtual",
        InstanceKind::Shim(s) => match s {
            ShimKind::FnPtr(..) => "fnptr",
            ShimKind::Reify(..) => "reify",
            ShimKind::ClosureOnce { .. } => "closure_once",
            ShimKind::DropGlue(..) => "dropglue",
            ShimKind::Clone(..) => "clone",
            _ => "shim",
        },
        _ => "other",
    }
}

struct Cb { crate_names: Vec<String>, out: String, noinline: Vec<String> }

impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let name = tcx.crate_name(rustc_span::def_id::LOCAL_CRATE).to_string();
        if !self.crate_names.contains(&name) { return Compilation::Continue; }
        let mut cx = Cx { tcx, types: vec![], tymap: HashMap::new(), envs: vec![], seen: HashSet::new(), queue: VecDeque::new(), noinline: self.noinline.clone(), out: vec![], adts: HashMap::new() };
        let _ = &cx.adts;
        let mut roots: Vec<_> = tcx.mir_keys(()).iter().copied().collect();
        roots.sort_by_key(|d| tcx.def_path_hash(d.to_def_id()));
        let mut rs = vec![];
        for d in roots {
            let did = d.to_def_id();
            if !matches!(tcx.def_kind(did), DefKind::Fn | DefKind::AssocFn) { continue; }
            let te = TypingEnv::post_analysis(tcx, did);
            let e = cx.env(te);
            let args = ty::GenericArgs::identity_for_item(tcx, did);
            let args = tcx.erase_and_anonymize_regions(args);
            let inst = Instance::new_raw(did, args);
            let key = cx.inst_key(e, inst);
            cx.seen.insert(key.clone());
            rs.push((d, did, e, inst, key));
        }
        for (d, did, e, inst, key) in rs {
            let mut r = format!("{{\"name\":{},\"pub\":{}", js(tcx.item_name(did).as_str()), tcx.visibility(did).is_public());
            let reach = tcx.effective_visibilities(()).is_reachable(d);
            let _ = write!(r, ",\"reach\":{}", reach);
            if let Some(im) = tcx.impl_of_assoc(did) {
                let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                let sti = cx.ty(e, st);
                let _ = write!(r, ",\"selfty\":{}", sti);
                let _ = write!(r, ",\"selfs\":{}", js(&tystr(tcx.erase_and_anonymize_regions(st))));
                if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                    let tr = tr.instantiate_identity().skip_norm_wip();
                    let _ = write!(r, ",\"trait\":{}", js(&path(tcx, tr.def_id)));
                    let targs: Vec<String> = tr.args.types().skip(1).map(|t| cx.ty(e, t).to_string()).collect();
                    let _ = write!(r, ",\"targs\":{}", arr(targs));
                }
            } else if let Some(t) = tcx.trait_of_assoc(did) {
                let _ = write!(r, ",\"traitdef\":{}", js(&path(tcx, t)));
            }
            let unsafe_fn = tcx.fn_sig(did).skip_binder().skip_binder().safety().is_unsafe();
            let _ = write!(r, ",\"unsafe\":{}}}", unsafe_fn);
            cx.body(&key, inst, e, Some(r));
        }
        let mut n = 0usize;
        while let Some((key, inst, e)) = cx.queue.pop_front() {
            n += 1;
            if n > 60000 { break; }
            cx.body(&key, inst, e, None);
        }
        let s = format!("{{\"crate\":{},\"types\":[{}],\n\"bodies\":[\n{}\n]}}\n", js(&name), cx.types.join(",\n"), cx.out.join(",\n"));
        let f = format!("{}/{}.json", self.out, name);
        std::fs::write(&f, s).unwrap();
        Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the path of rustc
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].ends_with("rustc.exe")) { args.remove(1); }
    let out = std::env::var("SA_OUT").unwrap_or_default();
    let crates: Vec<String> = std::env::var("SA_CRATES").unwrap_or_default().split(',').map(|s| s.to_string()).collect();
    let noinline = std::env::var("SA_NOINLINE").ok().and_then(|f| std::fs::read_to_string(f).ok()).unwrap_or_default()
        .lines().map(|l| l.trim().to_string()).filter(|l| !l.is_empty() && !l.starts_with('#')).collect();
    if !out.is_empty() {
        for a in ["-Zmir-opt-level=0", "-Zalways-encode-mir=yes"] { args.push(a.to_string()); }
    }
    let mut cb = Cb { crate_names: if out.is_empty() { vec![] } else { crates }, out, noinline };
    rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut cb))
}
