//! RUSTC_WORKSPACE_WRAPPER driver: compiles the crate as rustc would and dumps the
//! type-checked, monomorphic MIR (drops elaborated, callees resolved) of the crate
//! as JSON to $MIRDUMP_OUT.  Analyses run on that dump (see /verif/analysis).
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_ast;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_interface::interface::Compiler;
use rustc_middle::mir::interpret::{AllocId, GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::{self, EarlyBinder, GenericArgsRef, Instance, InstanceKind, Ty, TyCtxt, TyKind, TypingEnv};
use rustc_span::Span;
use std::collections::{HashMap, VecDeque};
use std::fmt::Write as _;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn list(v: Vec<String>) -> String {
    format!("[{}]", v.join(","))
}

struct Dump<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: HashMap<Ty<'tcx>, usize>,
    ty_json: Vec<Option<String>>,
    insts: HashMap<Instance<'tcx>, usize>,
    queue: VecDeque<(usize, Instance<'tcx>)>,
    fns: Vec<String>,
    env: TypingEnv<'tcx>,
    statics: HashMap<DefId, ()>,
}

/// External modules whose generic functions are dumped as MIR (so that combinators are
/// analysed, not assumed); everything else external is a named primitive.
const INLINE_MODS: &[&str] = &[
    "core::option::", "core::result::", "core::ops::control_flow::", "core::ops::try_trait::",
    "core::bool::", "core::convert::", "core::ops::function::", "core::clone::impls::",
    "core::cmp::impls::", "core::borrow::", "core::mem::maybe_uninit::", "core::tuple::",
    "core::iter::adapters::", "core::iter::traits::iterator::", "core::ops::range::",
];
const NO_INLINE: &[&str] = &["core::option::unwrap_failed", "core::option::expect_failed", "core::result::unwrap_failed"];

impl<'tcx> Dump<'tcx> {
    fn path(&self, d: DefId) -> String {
        // fully qualified, stable: crate::module::Item
        let krate = self.tcx.crate_name(d.krate).to_string();
        let p = rustc_middle::ty::print::with_no_trimmed_paths!(rustc_middle::ty::print::with_resolve_crate_name!(self.tcx.def_path_str(d)));
        if d.is_local() && !p.starts_with(&krate) && !p.starts_with('<') {
            format!("{}::{}", krate, p)
        } else {
            p
        }
    }
    fn span(&self, sp: Span) -> String {
        let sm = self.tcx.sess.source_map();
        let sp = sp.source_callsite();
        let lo = sm.lookup_char_pos(sp.lo());
        let name = match &lo.file.name {
            rustc_span::FileName::Real(r) => r.local_path().map(|p| p.to_string_lossy().to_string()).unwrap_or_default(),
            o => format!("{:?}", o),
        };
        esc(&format!("{}:{}", name, lo.line))
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(&i) = self.tys.get(&t) {
            return i;
        }
        let i = self.ty_json.len();
        self.tys.insert(t, i);
        self.ty_json.push(None);
        let s = rustc_middle::ty::print::with_no_trimmed_paths!(t.to_string());
        let body = match t.kind() {
            TyKind::Adt(def, args) => {
                let mut vs = vec![];
                let local = def.did().is_local();
                let p = self.path(def.did());
                // For foreign ADTs only dump fields of Option/Result/tuples-like std enums and nalgebra structs lightly.
                let deep = local || p.starts_with("core::option::") || p.starts_with("core::result::") || p.starts_with("core::ops::control_flow")
                    || p.starts_with("core::ops::range") || p.starts_with("std::option") || p.starts_with("std::result")|| p.starts_with("std::ops")
                    || p.starts_with("core::cmp") || p.starts_with("std::cmp") || p.starts_with("nalgebra::");
                if deep {
                    for (vi, v) in def.variants().iter_enumerated() {
                        let mut fs = vec![];
                        for f in v.fields.iter() {
                            let ft = f.ty(self.tcx, args).skip_norm_wip();
                            let ft = self.tcx.try_normalize_erasing_regions(self.env, rustc_middle::ty::Unnormalized::new_wip(ft)).unwrap_or(ft);
                            let ft = self.tcx.erase_and_anonymize_regions(ft);
                            let id = self.ty(ft);
                            let vis = match f.vis {
                                ty::Visibility::Public => "pub".to_string(),
                                ty::Visibility::Restricted(m) => self.path(m.into()),
                            };
                            fs.push(format!("{{\"n\":{},\"t\":{},\"vis\":{}}}", esc(f.name.as_str()), id, esc(&vis)));
                        }
                        let d = if def.is_enum() { def.discriminant_for_variant(self.tcx, vi).val.to_string() } else { "0".into() };
                        vs.push(format!("{{\"n\":{},\"d\":{},\"f\":{}}}", esc(v.name.as_str()), d, list(fs)));
                    }
                }
                let mut targs = vec![];
                for a in args.types() {
                    let a = self.ty(a);
                    targs.push(a.to_string());
                }
                let kind = if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" };
                format!("\"k\":\"adt\",\"adt\":\"{}\",\"path\":{},\"local\":{},\"args\":{},\"variants\":{}", kind, esc(&p), local, list(targs), list(vs))
            }
            TyKind::Ref(_, to, m) => {
                let x = self.ty(*to);
                format!("\"k\":\"ref\",\"to\":{},\"mut\":{}", x, m.is_mut())
            }
            TyKind::RawPtr(to, m) => {
                let x = self.ty(*to);
                format!("\"k\":\"ptr\",\"to\":{},\"mut\":{}", x, m.is_mut())
            }
            TyKind::Tuple(ts) => {
                let v: Vec<String> = ts.iter().map(|x| self.ty(x).to_string()).collect();
                format!("\"k\":\"tuple\",\"args\":{}", list(v))
            }
            TyKind::Array(e, n) => {
                let x = self.ty(*e);
                let n = n.try_to_target_usize(self.tcx).map(|n| n.to_string()).unwrap_or("null".into());
                format!("\"k\":\"array\",\"to\":{},\"len\":{}", x, n)
            }
            TyKind::Slice(e) => {
                let x = self.ty(*e);
                format!("\"k\":\"slice\",\"to\":{}", x)
            }
            TyKind::Closure(d, args) => {
                let ups: Vec<String> = args.as_closure().upvar_tys().iter().map(|x| self.ty(x).to_string()).collect();
                format!("\"k\":\"closure\",\"path\":{},\"upvars\":{}", esc(&self.path(*d)), list(ups))
            }
            TyKind::FnDef(d, _) => format!("\"k\":\"fndef\",\"path\":{}", esc(&self.path(*d))),
            TyKind::Dynamic(preds, _) => {
                let p = preds.principal_def_id().map(|d| self.path(d)).unwrap_or_default();
                format!("\"k\":\"dyn\",\"path\":{}", esc(&p))
            }
            TyKind::Float(_) => "\"k\":\"float\"".to_string(),
            TyKind::Int(_) => "\"k\":\"int\"".to_string(),
            TyKind::Uint(_) => "\"k\":\"uint\"".to_string(),
            TyKind::Bool => "\"k\":\"bool\"".to_string(),
            TyKind::Str => "\"k\":\"str\"".to_string(),
            TyKind::Never => "\"k\":\"never\"".to_string(),
            _ => "\"k\":\"other\"".to_string(),
        };
        self.ty_json[i] = Some(format!("{{\"s\":{},{}}}", esc(&s), body));
        i
    }

    fn place(&mut self, p: &Place<'tcx>) -> String {
        let mut v = vec![];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => "[\"*\"]".to_string(),
                ProjectionElem::Field(f, t) => {
                    let t = self.ty(t);
                    format!("[\"f\",{},{}]", f.as_usize(), t)
                }
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l.as_usize()),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => format!("[\"ci\",{},{}]", offset, from_end),
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"ss\",{},{},{}]", from, to, from_end),
                ProjectionElem::Downcast(_, v) => format!("[\"v\",{}]", v.as_usize()),
                _ => "[\"o\"]".to_string(),
            });
        }
        format!("[{},{}]", p.local.as_usize(), list(v))
    }

    fn scalar(&self, s: Scalar, t: Ty<'tcx>) -> Option<String> {
        let i = s.try_to_scalar_int().ok()?;
        Some(match t.kind() {
            TyKind::Float(ty::FloatTy::F32) => {
                let f = f32::from_bits(i.to_u32());
                format!("{{\"k\":\"f\",\"v\":{},\"bits\":{}}}", esc(&format!("{:?}", f)), i.to_u32())
            }
            TyKind::Float(ty::FloatTy::F64) => {
                let f = f64::from_bits(i.to_u64());
                format!("{{\"k\":\"f\",\"v\":{}}}", esc(&format!("{:?}", f)))
            }
            TyKind::Bool => format!("{{\"k\":\"b\",\"v\":{}}}", i.try_to_bool().ok()?),
            TyKind::Int(_) => {
                let sz = i.size();
                format!("{{\"k\":\"i\",\"v\":{}}}", i.to_int(sz))
            }
            TyKind::Uint(_) => {
                let sz = i.size();
                format!("{{\"k\":\"i\",\"v\":{}}}", i.to_uint(sz))
            }
            TyKind::Char => format!("{{\"k\":\"c\",\"v\":{}}}", i.to_u32()),
            _ => return None,
        })
    }

    fn alloc_value(&self, alloc_id: AllocId, off: u64, t: Ty<'tcx>) -> Option<String> {
        // read a scalar / f32 aggregate out of constant memory
        let GlobalAlloc::Memory(a) = self.tcx.try_get_global_alloc(alloc_id)? else { return None };
        let layout = self.tcx.layout_of(self.env.as_query_input(t)).ok()?;
        let a = a.inner();
        match t.kind() {
            TyKind::Float(_) | TyKind::Bool | TyKind::Int(_) | TyKind::Uint(_) | TyKind::Char => {
                let r = rustc_middle::mir::interpret::AllocRange { start: rustc_abi::Size::from_bytes(off), size: layout.size };
                let s = a.read_scalar(&self.tcx, r, false).ok()?;
                self.scalar(s, t)
            }
            TyKind::Ref(_, to, _) => {
                let r = rustc_middle::mir::interpret::AllocRange { start: rustc_abi::Size::from_bytes(off), size: self.tcx.data_layout.pointer_size() };
                if to.is_str() {
                    return Some("{\"k\":\"str\"}".into());
                }
                let s = a.read_scalar(&self.tcx, r, true).ok()?;
                let Scalar::Ptr(ptr, _) = s else { return None };
                let (prov, o) = ptr.into_raw_parts();
                let id = prov.alloc_id();
                let inner = self.alloc_value(id, o.bytes(), *to)?;
                Some(format!("{{\"k\":\"ref\",\"v\":{}}}", inner))
            }
            TyKind::Adt(def, args) if def.is_struct() => {
                let mut fs = vec![];
                for (i, f) in def.non_enum_variant().fields.iter().enumerate() {
                    let ft = f.ty(self.tcx, args).skip_norm_wip();
                    let ft = self.tcx.try_normalize_erasing_regions(self.env, rustc_middle::ty::Unnormalized::new_wip(ft)).unwrap_or(ft);
                    let o = layout.fields.offset(i).bytes();
                    fs.push(self.alloc_value(alloc_id, off + o, ft).unwrap_or("null".into()));
                }
                Some(format!("{{\"k\":\"agg\",\"v\":{}}}", list(fs)))
            }
            TyKind::Tuple(ts) => {
                let mut fs = vec![];
                for (i, ft) in ts.iter().enumerate() {
                    let o = layout.fields.offset(i).bytes();
                    fs.push(self.alloc_value(alloc_id, off + o, ft).unwrap_or("null".into()));
                }
                Some(format!("{{\"k\":\"agg\",\"v\":{}}}", list(fs)))
            }
            TyKind::Array(e, n) => {
                let n = n.try_to_target_usize(self.tcx)?;
                let es = self.tcx.layout_of(self.env.as_query_input(*e)).ok()?.size.bytes();
                let mut fs = vec![];
                for i in 0..n.min(64) {
                    fs.push(self.alloc_value(alloc_id, off + i * es, *e).unwrap_or("null".into()));
                }
                Some(format!("{{\"k\":\"agg\",\"v\":{}}}", list(fs)))
            }
            _ => None,
        }
    }

    fn constant(&mut self, c: &ConstOperand<'tcx>, owner: usize) -> String {
        let t = c.const_.ty();
        let tid = self.ty(t);
        if let TyKind::FnDef(d, args) = t.kind() {
            let args = args.no_bound_vars().unwrap_or_else(|| tcx_args(self.tcx, args.skip_binder()));
            let f = self.callee(*d, args);
            return format!("{{\"k\":\"fn\",\"t\":{},\"fn\":{}}}", tid, f);
        }
        let mut name = String::new();
        if let Const::Unevaluated(u, _) = c.const_ {
            if let Some(p) = u.promoted {
                return format!("{{\"k\":\"promoted\",\"t\":{},\"owner\":{},\"idx\":{}}}", tid, owner, p.as_usize());
            }
            name = self.path(u.def);
        }
        let v = c.const_.eval(self.tcx, self.env, c.span);
        let mut inner = match v {
            Ok(ConstValue::Scalar(s)) => {
                let r = self.scalar(s, t);
                if r.is_none() {
                    if let (Scalar::Ptr(p, _), TyKind::Ref(_, to, _)) = (s, t.kind()) {
                        let (prov, o) = p.into_raw_parts();
                        self.alloc_value(prov.alloc_id(), o.bytes(), *to).map(|i| format!("{{\"k\":\"ref\",\"v\":{}}}", i))
                    } else { None }
                } else { r }
            }
            Ok(ConstValue::ZeroSized) => Some("{\"k\":\"zst\"}".to_string()),
            Ok(ConstValue::Slice { .. }) => Some("{\"k\":\"str\"}".to_string()),
            Ok(ConstValue::Indirect { alloc_id, offset }) => self.alloc_value(alloc_id, offset.bytes(), t),
            Err(_) => None,
        };
        let mut text = String::new();
        if inner.is_none() {
            if let Ok(v) = v {
                inner = self.structured(v, t);
            }
            if inner.is_none() {
                text = rustc_middle::ty::print::with_no_trimmed_paths!(format!(",\"text\":{}", esc(&format!("{}", c.const_))));
            }
        }
        if let Ok(ConstValue::Scalar(Scalar::Ptr(p, _))) = v {
            let (prov, _) = p.into_raw_parts();
            if let Some(GlobalAlloc::Static(d)) = self.tcx.try_get_global_alloc(prov.alloc_id()) {
                let st = self.tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let fixed = !self.tcx.is_mutable_static(d) && st.is_freeze(self.tcx, self.env);
                text = format!("{},\"static\":{},\"fixed\":{}", text, esc(&self.path(d)), fixed);
            }
        }
        format!("{{\"k\":\"c\",\"t\":{},\"name\":{},\"v\":{}{}}}", tid, esc(&name), inner.unwrap_or("null".into()), text)
    }

    /// a constant of a struct, enum or tuple type, field by field
    fn structured(&mut self, v: ConstValue, t: Ty<'tcx>) -> Option<String> {
        if let ConstValue::Scalar(s) = v {
            if let Some(r) = self.scalar(s, t) {
                return Some(r);
            }
        }
        if !matches!(t.kind(), TyKind::Adt(d, _) if !d.is_union()) && !matches!(t.kind(), TyKind::Tuple(_)) {
            return None;
        }
        if let TyKind::Tuple(ts) = t.kind() {
            if ts.is_empty() {
                return Some("{\"k\":\"zst\"}".to_string());
            }
        }
        let d = self.tcx.try_destructure_mir_constant_for_user_output(v, t)?;
        let mut fs = vec![];
        for (fv, ft) in d.fields.iter() {
            fs.push(self.structured(*fv, *ft)?);
        }
        let tid = self.ty(t);
        Some(format!("{{\"k\":\"adt\",\"t\":{},\"var\":{},\"v\":{}}}", tid, d.variant.map(|x| x.as_usize()).unwrap_or(0), list(fs)))
    }

    fn operand(&mut self, o: &Operand<'tcx>, owner: usize) -> String {
        match o {
            Operand::Copy(p) => format!("{{\"k\":\"copy\",\"p\":{}}}", self.place(p)),
            Operand::Move(p) => format!("{{\"k\":\"move\",\"p\":{}}}", self.place(p)),
            Operand::Constant(c) => self.constant(c, owner),
            _ => "{\"k\":\"rt\"}".to_string(),
        }
    }

    fn callee(&mut self, d: DefId, args: GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        let path = self.path(d);
        let full = rustc_middle::ty::print::with_no_trimmed_paths!(tcx.def_path_str_with_args(d, args));
        let mut targs = vec![];
        for a in args.types() {
            targs.push(self.ty(a).to_string());
        }
        let mut trait_ = String::new();
        if let Some(tr) = tcx.trait_of_assoc(d) {
            trait_ = self.path(tr);
        }
        let mut extra = String::new();
        match Instance::try_resolve(tcx, self.env, d, args) {
            Ok(Some(inst)) => {
                let rp = self.path(inst.def_id());
                let _ = write!(extra, ",\"res\":{}", esc(&rp));
                if let InstanceKind::Virtual(..) = inst.def {
                    extra.push_str(",\"virtual\":true");
                    // local impls of that trait method
                    if let Some(tr) = tcx.trait_of_assoc(d) {
                        let mut c = vec![];
                        for imp in tcx.all_impls(tr).collect::<Vec<_>>() {
                            if !imp.is_local() { continue; }
                            let m = tcx.impl_item_implementor_ids(imp);
                            if let Some(md) = m.get(&d) {
                                if tcx.generics_of(*md).own_requires_monomorphization() || !tcx.generics_of(imp).is_empty() { 
                                    continue; }
                                let i = Instance::new_raw(*md, ty::GenericArgs::identity_for_item(tcx, *md));
                                let st = tcx.type_of(imp).instantiate_identity().skip_norm_wip();
                                let st = tcx.erase_and_anonymize_regions(st);
                                let sid = self.ty(st);
                                if let Some(id) = self.want(i) { c.push(format!("{{\"fn\":{},\"self\":{}}}", id, sid)); }
                            }
                        }
                        let _ = write!(extra, ",\"impls\":{}", list(c));
                    }
                } else if let Some(id) = self.want(inst) {
                    let _ = write!(extra, ",\"id\":{}", id);
                } else if ["Iterator", "FromIterator", "Extend", "Sum", "Product"].iter().any(|n| trait_.ends_with(&format!("::{}", n))) {
                    // how the consumed iterator advances (Iterator::next of every iterator type involved)
                    let mut c = vec![];
                    if let Some(it) = tcx.get_diagnostic_item(rustc_span::sym::Iterator) {
                        let next = tcx.associated_items(it).in_definition_order().find(|i| i.name() == rustc_span::sym::next).map(|i| i.def_id);
                        if let Some(nd) = next {
                            for a in args.types() {
                                if !matches!(a.kind(), TyKind::Adt(..)) { continue; }
                                let ga = tcx.mk_args(&[a.into()]);
                                if let Ok(Some(ni)) = Instance::try_resolve(tcx, self.env, nd, ga) {
                                    if matches!(ni.def, InstanceKind::Item(_)) {
                                        let rp = self.path(ni.def_id());
                                        let id = self.want(ni).map(|i| i.to_string()).unwrap_or("null".into());
                                        let t = self.ty(a);
                                        c.push(format!("{{\"t\":{},\"res\":{},\"id\":{}}}", t, esc(&rp), id));
                                    }
                                }
                            }
                        }
                    }
                    let _ = write!(extra, ",\"nexts\":{}", list(c));
                }
            }
            _ => {}
        }
        format!("{{\"path\":{},\"full\":{},\"trait\":{},\"targs\":{}{}}}", esc(&path), esc(&full), esc(&trait_), list(targs), extra)
    }

    /// Should this instance's MIR be dumped?
    fn want(&mut self, inst: Instance<'tcx>) -> Option<usize> {
        if let Some(&i) = self.insts.get(&inst) {
            return Some(i);
        }
        let d = inst.def_id();
        let ok = match inst.def {
            InstanceKind::Item(_) => {
                if d.is_local() {
                    true
                } else if self.tcx.is_closure_like(d) {
                    // closures of inlined std fns
                    let root = self.tcx.typeck_root_def_id(d);
                    let dp = format!("{}{}", self.tcx.crate_name(root.krate), self.tcx.def_path(root).to_string_no_crate_verbose());
                    INLINE_MODS.iter().any(|m| dp.starts_with(m))
                } else {
                    let krate = self.tcx.crate_name(d.krate);
                    let dp = format!("{}{}", krate, self.tcx.def_path(d).to_string_no_crate_verbose());
                    !NO_INLINE.iter().any(|m| dp == *m) && INLINE_MODS.iter().any(|m| dp.starts_with(m)) && self.tcx.is_mir_available(d)
                }
            }
            InstanceKind::Shim(ty::ShimKind::ClosureOnce { .. }) => true,
            _ => false,
        };
        if !ok || (matches!(inst.def, InstanceKind::Item(_)) && !self.tcx.is_mir_available(d)) {
            return None;
        }
        let i = self.insts.len();
        self.insts.insert(inst, i);
        self.queue.push_back((i, inst));
        Some(i)
    }

    fn body(&mut self, body: &Body<'tcx>, owner: usize) -> String {
        let tcx = self.tcx;
        let mut names: HashMap<usize, String> = HashMap::new();
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() {
                    names.insert(p.local.as_usize(), v.name.to_string());
                }
            }
        }
        let mut locals = vec![];
        for (l, d) in body.local_decls.iter_enumerated() {
            let t = self.ty(d.ty);
            locals.push(format!("[{},{}]", t, names.get(&l.as_usize()).map(|s| esc(s)).unwrap_or("null".into())));
        }
        let mut blocks = vec![];
        for (_bb, data) in body.basic_blocks.iter_enumerated() {
            let mut st = vec![];
            for s in &data.statements {
                match &s.kind {
                    StatementKind::Assign(b) => {
                        let (p, r) = &**b;
                        let pl = self.place(p);
                        let rv = match r {
                            Rvalue::Use(o, _) => format!("{{\"k\":\"use\",\"o\":{}}}", self.operand(o, owner)),
                            Rvalue::CopyForDeref(pp) => format!("{{\"k\":\"use\",\"o\":{{\"k\":\"copy\",\"p\":{}}}}}", self.place(pp)),
                            Rvalue::Ref(_, bk, pp) => format!("{{\"k\":\"ref\",\"mut\":{},\"p\":{}}}", matches!(bk, BorrowKind::Mut { .. }), self.place(pp)),
                            Rvalue::RawPtr(k, pp) => format!("{{\"k\":\"ref\",\"mut\":{},\"raw\":true,\"p\":{}}}", matches!(k, RawPtrKind::Mut), self.place(pp)),
                            Rvalue::Reborrow(_, m, pp) => format!("{{\"k\":\"ref\",\"mut\":{},\"p\":{}}}", m.is_mut(), self.place(pp)),
                            Rvalue::Cast(ck, o, t) => {
                                let t = self.ty(*t);
                                format!("{{\"k\":\"cast\",\"ck\":{},\"o\":{},\"t\":{}}}", esc(&format!("{:?}", ck)), self.operand(o, owner), t)
                            }
                            Rvalue::BinaryOp(op, bx) => format!("{{\"k\":\"bin\",\"op\":\"{:?}\",\"l\":{},\"r\":{}}}", op, self.operand(&bx.0, owner), self.operand(&bx.1, owner)),
                            Rvalue::UnaryOp(op, o) => format!("{{\"k\":\"un\",\"op\":\"{:?}\",\"o\":{}}}", op, self.operand(o, owner)),
                            Rvalue::Discriminant(pp) => format!("{{\"k\":\"discr\",\"p\":{}}}", self.place(pp)),
                            Rvalue::Repeat(o, n) => {
                                let n = n.try_to_target_usize(tcx).map(|n| n.to_string()).unwrap_or("null".into());
                                format!("{{\"k\":\"repeat\",\"o\":{},\"n\":{}}}", self.operand(o, owner), n)
                            }
                            Rvalue::Aggregate(ak, ops) => {
                                let os: Vec<String> = ops.iter().map(|o| self.operand(o, owner)).collect();
                                let a = match &**ak {
                                    AggregateKind::Array(_) => "\"a\":\"array\"".to_string(),
                                    AggregateKind::Tuple => "\"a\":\"tuple\"".to_string(),
                                    AggregateKind::Adt(d, v, _, _, af) => {
                                        let def = tcx.adt_def(*d);
                                        let fnames: Vec<String> = def.variant(*v).fields.iter().map(|f| esc(f.name.as_str())).collect();
                                        let _ = af;
                                        format!("\"a\":\"adt\",\"path\":{},\"v\":{},\"fn\":{}", esc(&self.path(*d)), v.as_usize(), list(fnames))
                                    }
                                    AggregateKind::Closure(d, args) => {
                                        let inst = Instance::resolve_closure(tcx, *d, args, ty::ClosureKind::FnMut);
                                        let id = self.want(inst).map(|i| i.to_string()).unwrap_or("null".into());
                                        format!("\"a\":\"closure\",\"path\":{},\"id\":{}", esc(&self.path(*d)), id)
                                    }
                                    _ => "\"a\":\"other\"".to_string(),
                                };
                                let t = self.ty(p.ty(&body.local_decls, tcx).ty);
                                format!("{{\"k\":\"agg\",{},\"t\":{},\"ops\":{}}}", a, t, list(os))
                            }
                            Rvalue::ThreadLocalRef(_) => "{\"k\":\"other\"}".to_string(),
                            Rvalue::WrapUnsafeBinder(..) => "{\"k\":\"other\"}".to_string(),
                        };
                        st.push(format!("[\"=\",{},{},{}]", pl, rv, self.span(s.source_info.span)));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        st.push(format!("[\"sd\",{},{}]", self.place(place), variant_index.as_usize()));
                    }
                    StatementKind::StorageDead(l) => st.push(format!("[\"dead\",{}]", l.as_usize())),
                    StatementKind::StorageLive(l) => st.push(format!("[\"live\",{}]", l.as_usize())),
                    _ => {}
                }
            }
            let term = data.terminator();
            let sp = self.span(term.source_info.span);
            let tj = match &term.kind {
                TerminatorKind::Goto { target, .. } => format!("\"k\":\"goto\",\"to\":{}", target.as_usize()),
                TerminatorKind::FalseEdge { real_target, .. } => format!("\"k\":\"goto\",\"to\":{}", real_target.as_usize()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!("\"k\":\"goto\",\"to\":{}", real_target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let o = self.operand(discr, owner);
                    let dt = self.ty(discr.ty(&body.local_decls, tcx));
                    let v: Vec<String> = targets.iter().map(|(v, b)| format!("[{},{}]", v, b.as_usize())).collect();
                    format!("\"k\":\"switch\",\"o\":{},\"t\":{},\"cases\":{},\"else\":{}", o, dt, list(v), targets.otherwise().as_usize())
                }
                TerminatorKind::Return => "\"k\":\"return\"".to_string(),
                TerminatorKind::Unreachable => "\"k\":\"unreachable\"".to_string(),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => "\"k\":\"unwind\"".to_string(),
                TerminatorKind::Drop { place, target, .. } => {
                    let t = place.ty(&body.local_decls, tcx).ty;
                    let t = self.ty(t);
                    format!("\"k\":\"drop\",\"p\":{},\"t\":{},\"to\":{}", self.place(place), t, target.as_usize())
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.operand(func, owner);
                    let a: Vec<String> = args.iter().map(|a| self.operand(&a.node, owner)).collect();
                    format!(
                        "\"k\":\"call\",\"f\":{},\"args\":{},\"dst\":{},\"to\":{}",
                        f, list(a), self.place(destination), target.map(|t| t.as_usize().to_string()).unwrap_or("null".into())
                    )
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let c = self.operand(cond, owner);
                    let (m, ops) = match &**msg {
                        AssertKind::BoundsCheck { len, index } => ("bounds".to_string(), vec![self.operand(len, owner), self.operand(index, owner)]),
                        AssertKind::Overflow(op, l, r) => (format!("overflow:{:?}", op), vec![self.operand(l, owner), self.operand(r, owner)]),
                        AssertKind::DivisionByZero(o) => ("div0".into(), vec![self.operand(o, owner)]),
                        AssertKind::RemainderByZero(o) => ("rem0".into(), vec![self.operand(o, owner)]),
                        AssertKind::OverflowNeg(o) => ("overflow:Neg".into(), vec![self.operand(o, owner)]),
                        _ => ("other".into(), vec![]),
                    };
                    format!("\"k\":\"assert\",\"c\":{},\"exp\":{},\"msg\":{},\"ops\":{},\"to\":{}", c, expected, esc(&m), list(ops), target.as_usize())
                }
                _ => "\"k\":\"other\"".to_string(),
            };
            blocks.push(format!("{{\"s\":{},\"t\":{{{},\"sp\":{}}},\"cleanup\":{}}}", list(st), tj, sp, data.is_cleanup));
        }
        format!("\"argc\":{},\"locals\":{},\"blocks\":{}", body.arg_count, list(locals), list(blocks))
    }

    fn run(&mut self) -> String {
        let tcx = self.tcx;
        let krate = tcx.crate_name(LOCAL_CRATE).to_string();
        // roots: every local non-generic fn-like body
        let mut items = vec![];
        for ld in tcx.hir_crate_items(()).definitions() {
            let d = ld.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Fn | DefKind::AssocFn => {
                    if !tcx.is_mir_available(d) { continue; }
                    let g = tcx.generics_of(d);
                    if g.requires_monomorphization(tcx) { continue; }
                    let inst = Instance::new_raw(d, ty::GenericArgs::identity_for_item(tcx, d));
                    self.want(inst);
                }
                DefKind::Struct | DefKind::Enum => {
                    let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    let t = tcx.erase_and_anonymize_regions(t);
                    let id = self.ty(t);
                    let vis = tcx.effective_visibilities(()).is_reachable(ld);
                    items.push(format!("{{\"path\":{},\"ty\":{},\"reachable\":{}}}", esc(&self.path(d)), id, vis));
                }
                _ => {}
            }
        }
        let mut out: Vec<(usize, String)> = vec![];
        while let Some((id, inst)) = self.queue.pop_front() {
            let d = inst.def_id();
            let raw = tcx.instance_mir(inst.def);
            let body = inst.instantiate_mir_and_normalize_erasing_regions(tcx, self.env, EarlyBinder::bind(tcx, raw.clone()));
            let b = self.body(&body, id);
            let mut prom = vec![];
            if let InstanceKind::Item(_) = inst.def {
                if d.is_local() || tcx.is_mir_available(d) {
                    for p in tcx.promoted_mir(d).iter() {
                        let pb = inst.instantiate_mir_and_normalize_erasing_regions(tcx, self.env, EarlyBinder::bind(tcx, p.clone()));
                        let s = self.body(&pb, id);
                        prom.push(format!("{{{}}}", s));
                    }
                }
            }
            let mut meta = String::new();
            if let Some(l) = d.as_local() {
                let reach = tcx.effective_visibilities(()).is_reachable(l);
                let exported = tcx.effective_visibilities(()).is_exported(l);
                let _ = write!(meta, ",\"reachable\":{},\"exported\":{}", reach, exported);
                if matches!(tcx.def_kind(d), DefKind::AssocFn) {
                    let a = tcx.associated_item(d);
                    let _ = write!(meta, ",\"has_self\":{}", a.is_method());
                    if let Some(imp) = tcx.impl_of_assoc(d) {
                        let st = tcx.type_of(imp).instantiate_identity().skip_norm_wip();
                        let st = tcx.erase_and_anonymize_regions(st);
                        let sid = self.ty(st);
                        let _ = write!(meta, ",\"impl_self\":{}", sid);
                        if let Some(tr) = tcx.impl_opt_trait_id(imp) {
                            let _ = write!(meta, ",\"impl_trait\":{}", esc(&self.path(tr)));
                        }
                    }
                }
                let vis = match tcx.visibility(d) { ty::Visibility::Public => "pub".to_string(), ty::Visibility::Restricted(m) => self.path(m.into()) };
                let _ = write!(meta, ",\"vis\":{}", esc(&vis));
                if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
                    let _ = write!(meta, ",\"name\":{}", esc(tcx.item_name(d).as_str()));
                }
            }
            let kind = match inst.def { InstanceKind::Item(_) => if tcx.is_closure_like(d) { "closure" } else { "fn" }, _ => "shim" };
            let full = rustc_middle::ty::print::with_no_trimmed_paths!(inst.to_string());
            out.push((id, format!(
                "{{\"id\":{},\"path\":{},\"full\":{},\"kind\":\"{}\",\"local\":{},\"span\":{}{},{},\"promoted\":{}}}",
                id, esc(&self.path(d)), esc(&full), kind, d.is_local(), self.span(tcx.def_span(d)), meta, b, list(prom)
            )));
        }
        out.sort_by_key(|x| x.0);
        let _ = &self.fns;
        let _ = &self.statics;
        let tys: Vec<String> = self.ty_json.iter().map(|x| x.clone().unwrap_or("null".into())).collect();
        let errs = if tcx.sess.dcx().has_errors().is_some() { "true" } else { "false" };
        format!(
            "{{\"crate\":{},\"errors\":{},\"overflow_checks\":{},\"types\":[\n{}\n],\"items\":{},\"fns\":[\n{}\n]}}",
            esc(&krate), errs, tcx.sess.overflow_checks(), tys.join(",\n"), list(items),
            out.into_iter().map(|x| x.1).collect::<Vec<_>>().join(",\n")
        )
    }
}

fn tcx_args<'tcx>(tcx: TyCtxt<'tcx>, a: GenericArgsRef<'tcx>) -> GenericArgsRef<'tcx> {
    tcx.erase_and_anonymize_regions(a)
}

struct Cb;
impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        if let Ok(dir) = std::env::var("MIRDUMP_OUT") {
            let mut d = Dump {
                tcx, tys: HashMap::new(), ty_json: vec![], insts: HashMap::new(), queue: VecDeque::new(), fns: vec![],
                env: TypingEnv::fully_monomorphized(), statics: HashMap::new(),
            };
            let s = d.run();
            let krate = tcx.crate_name(LOCAL_CRATE).to_string();
            let f = format!("{}/{}.json", dir, krate);
            std::fs::write(&f, s).expect("write dump");
        }
        Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // As RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc.
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    args.push("-Zmir-opt-level=0".into());
    args.push("-Zinline-mir=no".into());
    rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Cb))
}
