//! MIR extractor: a rustc driver injected with RUSTC_WORKSPACE_WRAPPER.
//!
//! It compiles the crate exactly as cargo asked and, after analysis, writes
//! the monomorphised MIR (resolved callees, field and variant names, evaluated
//! constants, spans) of every local function, and of the generic library code
//! they instantiate, to the file named by MIRDUMP_OUT as JSON.  No decision is
//! taken here: the rules live in /verif/sa.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public;
extern crate rustc_public_bridge;
extern crate rustc_span;

use std::collections::{HashMap, HashSet, VecDeque};
use std::fmt::Write as _;
use std::ops::ControlFlow;

use rustc_middle::ty::TyCtxt;
use rustc_public::abi::{FieldsShape, TagEncoding, VariantsShape};
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::run_with_tcx;
use rustc_public::rustc_internal;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType, DefId};
use rustc_public_bridge::IndexedVal;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Dump<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: Vec<String>,
    ty_ids: HashMap<Ty, usize>,
    fns: Vec<String>,
    seen: HashMap<Instance, usize>,
    queue: VecDeque<(Instance, usize)>,
    insts: Vec<String>,
    local: HashSet<String>,
    poly: bool,
}

/// Library code whose MIR the rules look through (the rest is modelled by name).
const SKIP: &[&str] = &[
    "fmt", "panicking", "hash", "str::", "alloc::", "unicode", "num::flt2dec", "core_arch",
];

impl<'tcx> Dump<'tcx> {
    fn follow(krate: &str, name: &str) -> bool {
        if krate != "core" {
            return false;
        }
        let n = name.trim_start_matches(|c| c == '<' || c == '&' || c == '(');
        let n = n.trim_start_matches("core::").trim_start_matches("std::");
        !SKIP.iter().any(|p| n.starts_with(p))
    }

    fn ty(&mut self, t: Ty) -> usize {
        if let Some(i) = self.ty_ids.get(&t) {
            return *i;
        }
        let id = self.tys.len();
        self.ty_ids.insert(t, id);
        self.tys.push(String::new());
        let s = self.ty_json(t);
        self.tys[id] = s;
        id
    }

    fn gargs(&mut self, a: &GenericArgs) -> String {
        let mut v = vec![];
        for g in &a.0 {
            match g {
                GenericArgKind::Type(t) => v.push(self.ty(*t).to_string()),
                GenericArgKind::Const(c) => {
                    let s = match c.eval_target_usize() {
                        Ok(n) => format!("\"#{n}\""),
                        Err(_) => esc(&format!("{c:?}")),
                    };
                    v.push(s)
                }
                GenericArgKind::Lifetime(_) => {}
            }
        }
        format!("[{}]", v.join(","))
    }

    fn ty_json(&mut self, t: Ty) -> String {
        let name = esc(&format!("{t}"));
        match t.kind() {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => format!("{{\"k\":\"bool\",\"n\":{name}}}"),
                RigidTy::Char => format!("{{\"k\":\"char\",\"n\":{name}}}"),
                RigidTy::Int(i) => format!("{{\"k\":\"int\",\"n\":{name},\"bits\":{}}}", i.num_bytes() * 8),
                RigidTy::Uint(i) => {
                    format!("{{\"k\":\"uint\",\"n\":{name},\"bits\":{}}}", i.num_bytes() * 8)
                }
                RigidTy::Str => "{\"k\":\"str\",\"n\":\"str\"}".into(),
                RigidTy::Never => "{\"k\":\"never\",\"n\":\"!\"}".into(),
                RigidTy::Adt(def, args) => {
                    let mut vs = vec![];
                    let kind = format!("{:?}", def.kind()).to_lowercase();
                    for v in def.variants() {
                        let mut fs = vec![];
                        for f in v.fields() {
                            if self.poly { fs.push(format!("{{\"n\":{},\"t\":null}}", esc(&f.name))); continue; }
                            let ft = f.ty_with_args(&args);
                            let fid = self.ty(ft);
                            fs.push(format!("{{\"n\":{},\"t\":{}}}", esc(&f.name), fid));
                        }
                        let disc = if kind == "enum" { def.discriminant_for_variant(v.idx()).val } else { 0 };
                        vs.push(format!(
                            "{{\"n\":{},\"d\":{},\"f\":[{}]}}",
                            esc(&v.name()),
                            disc,
                            fs.join(",")
                        ));
                    }
                    let a = self.gargs(&args);
                    format!(
                        "{{\"k\":\"adt\",\"n\":{name},\"def\":{},\"ak\":\"{kind}\",\"args\":{a},\"vs\":[{}],\"local\":{}}}",
                        esc(&def.name()),
                        vs.join(","),
                        def.krate().is_local
                    )
                }
                RigidTy::Array(e, c) => {
                    let e = self.ty(e);
                    let n = c.eval_target_usize().map(|n| n.to_string()).unwrap_or("null".into());
                    format!("{{\"k\":\"array\",\"n\":{name},\"e\":{e},\"len\":{n}}}")
                }
                RigidTy::Slice(e) => {
                    let e = self.ty(e);
                    format!("{{\"k\":\"slice\",\"n\":{name},\"e\":{e}}}")
                }
                RigidTy::RawPtr(e, m) => {
                    let e = self.ty(e);
                    format!("{{\"k\":\"ptr\",\"n\":{name},\"e\":{e},\"mut\":{}}}", m == Mutability::Mut)
                }
                RigidTy::Ref(_, e, m) => {
                    let e = self.ty(e);
                    format!("{{\"k\":\"ref\",\"n\":{name},\"e\":{e},\"mut\":{}}}", m == Mutability::Mut)
                }
                RigidTy::Tuple(ts) => {
                    let v: Vec<_> = ts.iter().map(|t| self.ty(*t).to_string()).collect();
                    format!("{{\"k\":\"tuple\",\"n\":{name},\"es\":[{}]}}", v.join(","))
                }
                RigidTy::FnDef(def, args) => {
                    let a = self.gargs(&args);
                    let inst = if self.poly { "null".to_string() } else {
                        match Instance::resolve(def, &args) {
                            Ok(i) => self.inst(i).to_string(),
                            Err(_) => "null".into(),
                        }
                    };
                    let rid = rustc_internal::internal(self.tcx, def.def_id());
                    let unsafe_fn = matches!(self.tcx.def_kind(rid), rustc_hir::def::DefKind::Fn | rustc_hir::def::DefKind::AssocFn)
                        && !self.tcx.fn_sig(rid).skip_binder().safety().is_safe();
                    format!(
                        "{{\"k\":\"fndef\",\"n\":{name},\"def\":{},\"args\":{a},\"inst\":{inst},\"unsafe_fn\":{unsafe_fn},\"local\":{}}}",
                        esc(&def.name()),
                        def.krate().is_local
                    )
                }
                RigidTy::Closure(def, args) => {
                    let rs = |k| if self.poly { None } else { Instance::resolve_closure(def, &args, k).ok() };
                    let inst = rs(ClosureKind::FnOnce);
                    let inst2 = rs(ClosureKind::FnMut);
                    let inst3 = rs(ClosureKind::Fn);
                    // the non-shim body is the one whose kind is Item
                    let mut id = "null".to_string();
                    for i in [inst3, inst2, inst].into_iter().flatten() {
                        if i.kind == InstanceKind::Item {
                            id = self.inst(i).to_string();
                        }
                    }
                    // upvar types: last generic arg is the tuple of upvars
                    let mut up = vec![];
                    if let Some(GenericArgKind::Type(t)) = args.0.last() {
                        if let TyKind::RigidTy(RigidTy::Tuple(ts)) = t.kind() {
                            for t in ts {
                                up.push(self.ty(t).to_string())
                            }
                        }
                    }
                    format!(
                        "{{\"k\":\"closure\",\"n\":{name},\"def\":{},\"inst\":{id},\"up\":[{}],\"local\":{}}}",
                        esc(&def.name()),
                        up.join(","),
                        def.krate().is_local
                    )
                }
                RigidTy::FnPtr(_) => format!("{{\"k\":\"fnptr\",\"n\":{name}}}"),
                RigidTy::Dynamic(..) => format!("{{\"k\":\"dyn\",\"n\":{name}}}"),
                _ => format!("{{\"k\":\"other\",\"n\":{name}}}"),
            },
            TyKind::Param(_) => format!("{{\"k\":\"param\",\"n\":{name}}}"),
            TyKind::Alias(..) => format!("{{\"k\":\"alias\",\"n\":{name}}}"),
            TyKind::Bound(..) => format!("{{\"k\":\"bound\",\"n\":{name}}}"),
        }
    }

    fn inst(&mut self, i: Instance) -> usize {
        if let Some(x) = self.seen.get(&i) {
            return *x;
        }
        let id = self.insts.len();
        self.seen.insert(i, id);
        self.insts.push(String::new());
        self.queue.push_back((i, id));
        id
    }

    fn def_meta(&self, d: DefId) -> String {
        let rid = rustc_internal::internal(self.tcx, d);
        let tcx = self.tcx;
        let mut s = String::new();
        let root = tcx.typeck_root_def_id(rid);
        let is_closure = root != rid;
        let vis = if is_closure { "closure".to_string() } else {
            if matches!(tcx.def_kind(rid), rustc_hir::def::DefKind::Fn | rustc_hir::def::DefKind::AssocFn) {
                match tcx.visibility(rid) {
                    rustc_middle::ty::Visibility::Public => "pub".into(),
                    rustc_middle::ty::Visibility::Restricted(_) => "restricted".into(),
                }
            } else { "other".into() }
        };
        let exported = rid.as_local().map(|l| {
            let l = root.as_local().unwrap_or(l);
            tcx.effective_visibilities(()).is_exported(l)
        }).unwrap_or(false);
        let _ = write!(s, "\"vis\":\"{vis}\",\"exported\":{exported},\"path\":{}", esc(&tcx.def_path_str(rid)));
        if is_closure {
            let _ = write!(s, ",\"parent\":{}", esc(&tcx.def_path_str(root)));
        }
        if matches!(tcx.def_kind(rid), rustc_hir::def::DefKind::AssocFn) {
            let p = tcx.parent(rid);
            if let rustc_hir::def::DefKind::Impl { of_trait } = tcx.def_kind(p) {
                let self_ty = tcx.type_of(p).instantiate_identity().skip_normalization();
                let _ = write!(s, ",\"self\":{}", esc(&format!("{self_ty}")));
                if of_trait {
                    let tr = tcx.impl_trait_ref(p).instantiate_identity().skip_normalization();
                    let _ = write!(s, ",\"trait\":{}", esc(&format!("{tr}")));
                    let derived = tcx.is_automatically_derived(p);
                    let _ = write!(s, ",\"derived\":{derived}");
                }
            }
            let _ = write!(s, ",\"item\":{}", esc(tcx.item_name(rid).as_str()));
        } else if matches!(tcx.def_kind(rid), rustc_hir::def::DefKind::Fn) {
            let _ = write!(s, ",\"item\":{}", esc(tcx.item_name(rid).as_str()));
        }
        if matches!(tcx.def_kind(rid), rustc_hir::def::DefKind::Fn | rustc_hir::def::DefKind::AssocFn) {
            let sig = tcx.fn_sig(rid).instantiate_identity().skip_normalization();
            let _ = write!(s, ",\"sig\":{}", esc(&format!("{sig}")));
            let _ = write!(s, ",\"unsafe_fn\":{}", !tcx.fn_sig(rid).skip_binder().safety().is_safe());
        }
        s
    }

    fn span(&self, s: Span) -> String {
        let f = s.get_filename().to_string();
        let l = s.get_lines();
        esc(&format!("{}:{}:{}", f, l.start_line, l.start_col))
    }

    fn run(&mut self) {
        while let Some((i, id)) = self.queue.pop_front() {
            let name = i.name();
            let args = self.gargs(&i.args());
            let krate = i.def.krate();
            let local = krate.is_local || self.local.contains(&krate.name);
            let intr = i.intrinsic_name();
            let dname = i.def.name();
            let mut s = format!(
                "{{\"id\":{id},\"n\":{},\"def\":{},\"args\":{args},\"crate\":{},\"local\":{},\"kind\":{}",
                esc(&name),
                esc(&dname),
                esc(&krate.name),
                local,
                esc(&format!("{:?}", i.kind))
            );
            if let Some(n) = intr {
                let _ = write!(s, ",\"intr\":{}", esc(&n));
            }
            if local && i.kind == InstanceKind::Item {
                let m = self.def_meta(i.def.def_id());
                let _ = write!(s, ",{m}");
            } else {
                let rid = rustc_internal::internal(self.tcx, i.def.def_id());
                if matches!(self.tcx.def_kind(rid), rustc_hir::def::DefKind::Fn | rustc_hir::def::DefKind::AssocFn) {
                    let u = !self.tcx.fn_sig(rid).skip_binder().safety().is_safe();
                    let _ = write!(s, ",\"unsafe_fn\":{u}");
                }
            }
            let want = local
                || (matches!(i.kind, InstanceKind::Shim) && true)
                || Self::follow(&krate.name, &dname)
                || i.kind == InstanceKind::Item && dname.contains("{closure");
            if want && !matches!(i.kind, InstanceKind::Intrinsic | InstanceKind::Virtual { .. }) && i.has_body() {
                if let Some(b) = i.body() {
                    let bj = self.body(&b, local);
                    let _ = write!(s, ",\"body\":{bj}");
                }
            }
            s.push('}');
            self.insts[id] = s;
        }
    }

    fn body(&mut self, b: &Body, local: bool) -> String {
        let mut s = String::from("{");
        let nargs = b.arg_locals().len();
        let tys: Vec<String> = b.locals().iter().map(|l| self.ty(l.ty).to_string()).collect();
        let _ = write!(s, "\"nargs\":{nargs},\"locals\":[{}],\"span\":{}", tys.join(","), self.span(b.span));
        if let Some(sp) = b.spread_arg() {
            let _ = write!(s, ",\"spread\":{sp}");
        }
        let mut vd = vec![];
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                vd.push(format!("[{},{}]", esc(&v.name), self.place(p)));
            }
        }
        let _ = write!(s, ",\"vars\":[{}]", vd.join(","));
        s.push_str(",\"bbs\":[");
        for (bi, bb) in b.blocks.iter().enumerate() {
            if bi > 0 {
                s.push(',');
            }
            s.push_str("{\"s\":[");
            let mut first = true;
            for st in &bb.statements {
                let j = self.stmt(st);
                if let Some(mut j) = j {
                    if !first {
                        s.push(',');
                    }
                    first = false;
                    if local {
                        j.pop();
                        let _ = write!(j, ",\"sp\":{}}}", self.span(st.source_info.span));
                    }
                    s.push_str(&j);
                }
            }
            let t = self.term(&bb.terminator, b);
            let _ = write!(s, "],\"t\":{t}}}");
        }
        s.push_str("]}");
        s
    }

    fn place(&mut self, p: &Place) -> String {
        let mut v = vec![];
        for e in &p.projection {
            v.push(match e {
                ProjectionElem::Deref => "[\"*\"]".to_string(),
                ProjectionElem::Field(i, t) => format!("[\"f\",{i},{}]", self.ty(*t)),
                ProjectionElem::Index(l) => format!("[\"i\",{l}]"),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    format!("[\"c\",{offset},{min_length},{from_end}]")
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    format!("[\"s\",{from},{to},{from_end}]")
                }
                ProjectionElem::Downcast(v) => {
                    format!("[\"d\",{}]", v.to_index())
                }
                ProjectionElem::OpaqueCast(t) => format!("[\"o\",{}]", self.ty(*t)),
            });
        }
        format!("[{},[{}]]", p.local, v.join(","))
    }

    fn op(&mut self, o: &Operand) -> String {
        match o {
            Operand::Copy(p) => format!("[\"cp\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"mv\",{}]", self.place(p)),
            Operand::Constant(c) => {
                let t = c.const_.ty();
                let ti = self.ty(t);
                let v = match c.const_.kind() {
                    ConstantKind::Allocated(a) => self.alloc_val(t, a, 0, 0),
                    ConstantKind::ZeroSized => "{\"z\":1}".into(),
                    ConstantKind::Ty(c) => match c.eval_target_usize() {
                        Ok(n) => format!("{{\"i\":{n}}}"),
                        Err(_) => format!("{{\"param\":{}}}", esc(&format!("{c:?}"))),
                    },
                    ConstantKind::Param(p) => format!("{{\"param\":{}}}", esc(&p.name)),
                    ConstantKind::Unevaluated(u) => {
                        format!("{{\"uneval\":{}}}", esc(&u.def.name()))
                    }
                };
                format!("[\"c\",{ti},{v}]")
            }
            Operand::RuntimeChecks(r) => format!("[\"rc\",\"{r:?}\"]"),
        }
    }

    fn rd(a: &Allocation, off: usize, n: usize) -> Option<u128> {
        let mut v = 0u128;
        for k in 0..n {
            let b = (*a.bytes.get(off + k)?)?;
            v |= (b as u128) << (8 * k);
        }
        Some(v)
    }

    fn alloc_val(&mut self, t: Ty, a: &Allocation, off: usize, depth: usize) -> String {
        if depth > 8 || self.poly {
            return "{\"raw\":\"deep\"}".into();
        }
        let raw = |a: &Allocation| {
            let mut h = String::new();
            for b in a.bytes.iter().skip(off).take(64) {
                match b {
                    Some(b) => {
                        let _ = write!(h, "{b:02x}");
                    }
                    None => h.push_str("__"),
                }
            }
            format!("{{\"raw\":\"{h}\"}}")
        };
        let prov = |a: &Allocation| a.provenance.ptrs.iter().find(|(o, _)| *o == off).map(|x| x.1);
        match t.kind() {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => Self::rd(a, off, 1).map(|v| format!("{{\"i\":{v}}}")).unwrap_or(raw(a)),
                RigidTy::Char => Self::rd(a, off, 4).map(|v| format!("{{\"i\":{v}}}")).unwrap_or(raw(a)),
                RigidTy::Uint(u) => {
                    Self::rd(a, off, u.num_bytes()).map(|v| format!("{{\"i\":{v}}}")).unwrap_or(raw(a))
                }
                RigidTy::Int(u) => Self::rd(a, off, u.num_bytes())
                    .map(|v| {
                        let bits = u.num_bytes() * 8;
                        let mut x = v as i128;
                        if bits < 128 && (v >> (bits - 1)) & 1 == 1 {
                            x -= 1i128 << bits;
                        }
                        format!("{{\"i\":{x}}}")
                    })
                    .unwrap_or(raw(a)),
                RigidTy::Ref(_, inner, _) => {
                    let Some(p) = prov(a) else { return raw(a) };
                    let o2 = Self::rd(a, off, 8).unwrap_or(0) as usize;
                    match GlobalAlloc::from(p.0) {
                        GlobalAlloc::Memory(m) => {
                            match inner.kind() {
                                TyKind::RigidTy(RigidTy::Str) => {
                                    let n = Self::rd(a, off + 8, 8).unwrap_or(0) as usize;
                                    let bytes: Vec<u8> = m.bytes.iter().skip(o2).take(n)
                                        .map(|b| b.unwrap_or(0)).collect();
                                    format!("{{\"ref\":{{\"str\":{}}}}}", esc(&String::from_utf8_lossy(&bytes)))
                                }
                                TyKind::RigidTy(RigidTy::Slice(e)) => {
                                    let n = Self::rd(a, off + 8, 8).unwrap_or(0) as usize;
                                    let sz = e.layout().ok().map(|l| l.shape().size.bytes()).unwrap_or(0);
                                    let mut v = vec![];
                                    for k in 0..n.min(256) {
                                        v.push(self.alloc_val(e, &m, o2 + k * sz, depth + 1));
                                    }
                                    format!("{{\"ref\":{{\"seq\":[{}]}}}}", v.join(","))
                                }
                                _ => {
                                    let v = self.alloc_val(inner, &m, o2, depth + 1);
                                    format!("{{\"ref\":{v}}}")
                                }
                            }
                        }
                        GlobalAlloc::Static(s) => format!("{{\"static\":{}}}", esc(&s.name())),
                        GlobalAlloc::Function(i) => format!("{{\"fnptr\":{}}}", self.inst(i)),
                        GlobalAlloc::VTable(..) => "{\"vtable\":1}".into(),
                        _ => raw(a),
                    }
                }
                RigidTy::FnPtr(_) => {
                    let Some(p) = prov(a) else { return raw(a) };
                    match GlobalAlloc::from(p.0) {
                        GlobalAlloc::Function(i) => format!("{{\"fnptr\":{}}}", self.inst(i)),
                        _ => raw(a),
                    }
                }
                RigidTy::Tuple(ts) => {
                    let Ok(l) = t.layout() else { return raw(a) };
                    let offs = match l.shape().fields {
                        FieldsShape::Arbitrary { offsets } => offsets,
                        _ => return raw(a),
                    };
                    let mut v = vec![];
                    for (i, ft) in ts.iter().enumerate() {
                        v.push(self.alloc_val(*ft, a, off + offs[i].bytes(), depth + 1));
                    }
                    format!("{{\"fs\":[{}]}}", v.join(","))
                }
                RigidTy::Array(e, n) => {
                    let n = n.eval_target_usize().unwrap_or(0) as usize;
                    let sz = e.layout().ok().map(|l| l.shape().size.bytes()).unwrap_or(0);
                    let mut v = vec![];
                    for k in 0..n.min(256) {
                        v.push(self.alloc_val(e, a, off + k * sz, depth + 1));
                    }
                    format!("{{\"seq\":[{}]}}", v.join(","))
                }
                RigidTy::Adt(def, args) => {
                    let Ok(l) = t.layout() else { return raw(a) };
                    let shape = l.shape();
                    if def.kind() == AdtKind::Union {
                        return raw(a);
                    }
                    let (vidx, offs): (usize, Vec<usize>) = match &shape.variants {
                        VariantsShape::Single { index } => match &shape.fields {
                            FieldsShape::Arbitrary { offsets } => {
                                (index.to_index(), offsets.iter().map(|o| o.bytes()).collect())
                            }
                            FieldsShape::Primitive => (index.to_index(), vec![]),
                            _ => return raw(a),
                        },
                        VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                            let toff = match &shape.fields {
                                FieldsShape::Arbitrary { offsets } => offsets[*tag_field].bytes(),
                                _ => return raw(a),
                            };
                            use rustc_public::abi::{Primitive, Scalar};
                            let prim = match tag {
                                Scalar::Initialized { value, .. } => value,
                                Scalar::Union { value } => value,
                            };
                            let n = match prim {
                                Primitive::Int { length, .. } => length.bits() / 8,
                                Primitive::Pointer(_) => 8,
                                _ => return raw(a),
                            };
                            if matches!(prim, Primitive::Pointer(_)) {
                                // Option<&T>-like
                                let has = a.provenance.ptrs.iter().any(|(o, _)| *o == off + toff);
                                if let TagEncoding::Niche { untagged_variant, .. } = tag_encoding {
                                    let vi = if has { untagged_variant.to_index() } else {
                                        1 - untagged_variant.to_index()
                                    };
                                    (vi, variants[vi].offsets.iter().map(|o| o.bytes()).collect())
                                } else {
                                    return raw(a);
                                }
                            } else {
                                let Some(tv) = Self::rd(a, off + toff, n) else { return raw(a) };
                                let vi = match tag_encoding {
                                    TagEncoding::Direct => {
                                        let mut r = None;
                                        for v in def.variants() {
                                            let d = def.discriminant_for_variant(v.idx()).val;
                                            let mask = if n >= 16 { u128::MAX } else { (1u128 << (8 * n)) - 1 };
                                            if d & mask == tv {
                                                r = Some(v.idx().to_index());
                                            }
                                        }
                                        match r { Some(x) => x, None => return raw(a) }
                                    }
                                    TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                        let mask = if n >= 16 { u128::MAX } else { (1u128 << (8 * n)) - 1 };
                                        let rel = tv.wrapping_sub(*niche_start) & mask;
                                        let cnt = (niche_variants.end().to_index() - niche_variants.start().to_index()) as u128;
                                        if rel <= cnt {
                                            niche_variants.start().to_index() + rel as usize
                                        } else {
                                            untagged_variant.to_index()
                                        }
                                    }
                                };
                                (vi, variants[vi].offsets.iter().map(|o| o.bytes()).collect())
                            }
                        }
                        VariantsShape::Empty => return raw(a),
                    };
                    let Some(var) = def.variants().into_iter().nth(vidx) else { return raw(a) };
                    let mut v = vec![];
                    for (i, f) in var.fields().iter().enumerate() {
                        let ft = f.ty_with_args(&args);
                        if i >= offs.len() { return raw(a); }
                        v.push(self.alloc_val(ft, a, off + offs[i], depth + 1));
                    }
                    format!("{{\"v\":{vidx},\"fs\":[{}]}}", v.join(","))
                }
                _ => raw(a),
            },
            _ => raw(a),
        }
    }

    fn rv(&mut self, r: &Rvalue) -> String {
        match r {
            Rvalue::AddressOf(k, p) => {
                format!("[\"addr\",{},{}]", *k == RawPtrKind::Mut, self.place(p))
            }
            Rvalue::Aggregate(k, ops) => {
                let o: Vec<_> = ops.iter().map(|o| self.op(o)).collect();
                let kk = match k {
                    AggregateKind::Array(t) => format!("[\"array\",{}]", self.ty(*t)),
                    AggregateKind::Tuple => "[\"tuple\"]".into(),
                    AggregateKind::Adt(d, v, a, _, uf) => {
                        let t = self.ty(d.ty_with_args(a));
                        let uf = uf.map(|f| f.to_string()).unwrap_or("null".into());
                        format!("[\"adt\",{t},{},{uf}]", v.to_index())
                    }
                    AggregateKind::Closure(d, a) => {
                        let t = self.ty(Ty::new_closure(*d, a.clone()));
                        format!("[\"closure\",{t}]")
                    }
                    AggregateKind::RawPtr(t, _) => format!("[\"rawptr\",{}]", self.ty(*t)),
                    _ => "[\"other\"]".into(),
                };
                format!("[\"agg\",{kk},[{}]]", o.join(","))
            }
            Rvalue::BinaryOp(b, x, y) => {
                format!("[\"bin\",\"{b:?}\",{},{}]", self.op(x), self.op(y))
            }
            Rvalue::CheckedBinaryOp(b, x, y) => {
                format!("[\"cbin\",\"{b:?}\",{},{}]", self.op(x), self.op(y))
            }
            Rvalue::Cast(k, o, t) => {
                format!("[\"cast\",{},{},{}]", esc(&format!("{k:?}")), self.op(o), self.ty(*t))
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"cp\",{}]]", self.place(p)),
            Rvalue::Discriminant(p) => format!("[\"disc\",{}]", self.place(p)),
            Rvalue::Len(p) => format!("[\"len\",{}]", self.place(p)),
            Rvalue::Ref(_, k, p) => format!(
                "[\"ref\",{},{}]",
                matches!(k, BorrowKind::Mut { .. }),
                self.place(p)
            ),
            Rvalue::Reborrow(_, m, p) => {
                format!("[\"reb\",{},{}]", *m == Mutability::Mut, self.place(p))
            }
            Rvalue::Repeat(o, c) => {
                let n = c.eval_target_usize().map(|n| n.to_string()).unwrap_or("null".into());
                format!("[\"repeat\",{},{n}]", self.op(o))
            }
            Rvalue::ThreadLocalRef(i) => format!("[\"tls\",{}]", esc(&i.name())),
            Rvalue::UnaryOp(u, o) => format!("[\"un\",\"{u:?}\",{}]", self.op(o)),
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.op(o)),
        }
    }

    fn stmt(&mut self, s: &Statement) -> Option<String> {
        match &s.kind {
            StatementKind::Assign(p, r) => {
                Some(format!("{{\"k\":\"=\",\"p\":{},\"r\":{}}}", self.place(p), self.rv(r)))
            }
            StatementKind::SetDiscriminant { place, variant_index } => Some(format!(
                "{{\"k\":\"setd\",\"p\":{},\"v\":{}}}",
                self.place(place),
                variant_index.to_index()
            )),
            StatementKind::Intrinsic(NonDivergingIntrinsic::Assume(o)) => {
                Some(format!("{{\"k\":\"assume\",\"o\":{}}}", self.op(o)))
            }
            StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(_)) => {
                Some("{\"k\":\"cno\"}".into())
            }
            StatementKind::StorageDead(l) => Some(format!("{{\"k\":\"dead\",\"l\":{l}}}")),
            _ => None,
        }
    }

    fn unw(u: &UnwindAction) -> String {
        match u {
            UnwindAction::Cleanup(b) => b.to_string(),
            _ => "null".into(),
        }
    }

    fn term(&mut self, t: &Terminator, b: &Body) -> String {
        let sp = self.span(t.source_info.span);
        let j = match &t.kind {
            TerminatorKind::Goto { target } => format!("\"k\":\"goto\",\"to\":{target}"),
            TerminatorKind::SwitchInt { discr, targets } => {
                let v: Vec<_> =
                    targets.branches().map(|(v, b)| format!("[{v},{b}]")).collect();
                let t = discr.ty(b.locals()).map(|t| self.ty(t)).unwrap_or(0);
                format!(
                    "\"k\":\"switch\",\"d\":{},\"ty\":{t},\"br\":[{}],\"else\":{}",
                    self.op(discr),
                    v.join(","),
                    targets.otherwise()
                )
            }
            TerminatorKind::Resume => "\"k\":\"resume\"".into(),
            TerminatorKind::Abort => "\"k\":\"abort\"".into(),
            TerminatorKind::Return => "\"k\":\"ret\"".into(),
            TerminatorKind::Unreachable => "\"k\":\"unreach\"".into(),
            TerminatorKind::Drop { place, target, unwind } => {
                let ty = place.ty(b.locals()).ok();
                let di = match ty {
                    Some(t) if !format!("{t}").is_empty() => self.ty(t).to_string(),
                    _ => "null".into(),
                };
                format!(
                    "\"k\":\"drop\",\"p\":{},\"to\":{target},\"ty\":{di},\"u\":{}",
                    self.place(place),
                    Self::unw(unwind)
                )
            }
            TerminatorKind::Call { func, args, destination, target, unwind } => {
                let a: Vec<_> = args.iter().map(|o| self.op(o)).collect();
                let f = self.op(func);
                let to = target.map(|t| t.to_string()).unwrap_or("null".into());
                let ft = func.ty(b.locals()).map(|t| self.ty(t)).unwrap_or(0);
                format!(
                    "\"k\":\"call\",\"f\":{f},\"fty\":{ft},\"a\":[{}],\"d\":{},\"to\":{to},\"u\":{}",
                    a.join(","),
                    self.place(destination),
                    Self::unw(unwind)
                )
            }
            TerminatorKind::Assert { cond, expected, msg, target, unwind } => {
                let (m, ops) = match msg {
                    AssertMessage::BoundsCheck { len, index } => {
                        ("bounds".to_string(), vec![self.op(len), self.op(index)])
                    }
                    AssertMessage::Overflow(b, x, y) => {
                        (format!("overflow:{b:?}"), vec![self.op(x), self.op(y)])
                    }
                    AssertMessage::OverflowNeg(x) => ("overflow:Neg".into(), vec![self.op(x)]),
                    AssertMessage::DivisionByZero(x) => ("div0".into(), vec![self.op(x)]),
                    AssertMessage::RemainderByZero(x) => ("rem0".into(), vec![self.op(x)]),
                    _ => ("other".into(), vec![]),
                };
                format!(
                    "\"k\":\"assert\",\"c\":{},\"exp\":{expected},\"m\":\"{m}\",\"ops\":[{}],\"to\":{target},\"u\":{}",
                    self.op(cond),
                    ops.join(","),
                    Self::unw(unwind)
                )
            }
            TerminatorKind::InlineAsm { .. } => "\"k\":\"asm\"".into(),
        };
        format!("{{{j},\"sp\":{sp}}}")
    }
}

fn find_adt(krates: &[&str], name: &str) -> Option<AdtDef> {
    for k in krates {
        for c in rustc_public::find_crates(k) {
            for a in c.adts() {
                if a.name() == name {
                    return Some(a);
                }
            }
        }
    }
    None
}

fn analyze(tcx: TyCtxt<'_>) -> ControlFlow<(), ()> {
    let Ok(out) = std::env::var("MIRDUMP_OUT") else { return ControlFlow::Continue(()) };
    let krate = rustc_public::local_crate();
    if let Ok(want) = std::env::var("MIRDUMP_CRATE") {
        if krate.name != want {
            return ControlFlow::Continue(());
        }
    }
    let mut d = Dump {
        tcx,
        tys: vec![],
        ty_ids: HashMap::new(),
        fns: vec![],
        seen: HashMap::new(),
        queue: VecDeque::new(),
        insts: vec![],
        local: HashSet::new(),
        poly: false,
    };
    d.local.insert(krate.name.clone());

    // (Bound<usize>, Bound<usize>): the range type every generic RangeBounds
    // root is instantiated with.
    let bound = find_adt(&["core"], "core::ops::Bound")
        .or_else(|| find_adt(&["core"], "std::ops::Bound"));
    let bound_ty = bound.map(|b| {
        let u = Ty::usize_ty();
        let bt = b.ty_with_args(&GenericArgs(vec![GenericArgKind::Type(u)]));
        Ty::new_tuple(&[bt, bt])
    });

    // the types serde's generic parameters are instantiated with
    let serde = &["serde", "serde_core"][..];
    let adt = |n: &str| find_adt(serde, &format!("serde::{n}")).or_else(|| find_adt(serde, &format!("serde_core::{n}")));
    let mut serde_tys: Vec<(&str, Ty)> = vec![];
    if let Some(ea) = adt("de::value::Error") {
        let et = ea.ty_with_args(&GenericArgs(vec![]));
        let er = || GenericArgKind::Lifetime(Region { kind: RegionKind::ReErased });
        serde_tys.push((" as serde::de::Error>", et));
        if let Some(a) = adt("de::value::BytesDeserializer") {
            serde_tys.push((" as serde::Deserializer<", a.ty_with_args(&GenericArgs(vec![er(), GenericArgKind::Type(et)]))));
        }
        let it = find_adt(&["core"], "core::option::IntoIter").or_else(|| find_adt(&["core"], "std::option::IntoIter"));
        if let (Some(a), Some(i)) = (adt("de::value::SeqDeserializer"), it) {
            let u8s = i.ty_with_args(&GenericArgs(vec![GenericArgKind::Type(Ty::unsigned_ty(UintTy::U8))]));
            serde_tys.push((" as serde::de::SeqAccess<", a.ty_with_args(&GenericArgs(vec![GenericArgKind::Type(u8s), GenericArgKind::Type(et)]))));
        }
    }
    let fm = find_adt(&["core"], "core::fmt::Formatter").or_else(|| find_adt(&["core"], "std::fmt::Formatter"));
    if let Some(a) = fm {
        let t = a.ty_with_args(&GenericArgs(vec![GenericArgKind::Lifetime(Region { kind: RegionKind::ReErased })]));
        serde_tys.push((" as serde::Serializer>", Ty::new_ref(Region { kind: RegionKind::ReErased }, t, Mutability::Mut)));
    }
    if std::env::var("MIRDUMP_DEBUG").is_ok() { eprintln!("SERDE {:?}", serde_tys); }

    let mut poly = vec![];
    let mut items: Vec<FnDef> = krate.fn_defs();
    items.sort_by_key(|f| f.name());
    for f in &items {
        let g = f.generics_of();
        // count non-lifetime params including parents
        let rid = rustc_internal::internal(tcx, f.def_id());
        let gens = tcx.generics_of(rid);
        let needs = gens.requires_monomorphization(tcx);
        let _ = g;
        if !needs {
            let n = gens.count();
            let _ = n;
            // lifetimes only: erase
            let mut args = vec![];
            for i in 0..gens.count() {
                let p = gens.param_at(i, tcx);
                if matches!(p.kind, rustc_middle::ty::GenericParamDefKind::Lifetime) {
                    args.push(GenericArgKind::Lifetime(Region { kind: RegionKind::ReErased }));
                }
            }
            if let Ok(i) = Instance::resolve(*f, &GenericArgs(args)) {
                d.inst(i);
            }
        } else {
            let mut done = false;
            if let Some(bt) = bound_ty {
                // a single type parameter bounded by RangeBounds<usize>
                if gens.own_params.len() == 1 && gens.parent.map(|p| !tcx.generics_of(p).requires_monomorphization(tcx)).unwrap_or(true) {
                    let preds = format!("{:?}", tcx.explicit_clauses_of(rid).clauses);
                    if preds.contains("RangeBounds") {
                        let mut args = vec![];
                        if let Some(p) = gens.parent {
                            for _ in 0..tcx.generics_of(p).count() {
                                args.push(GenericArgKind::Lifetime(Region { kind: RegionKind::ReErased }));
                            }
                        }
                        args.push(GenericArgKind::Type(bt));
                        if let Ok(i) = Instance::resolve(*f, &GenericArgs(args)) {
                            d.inst(i);
                            done = true;
                        }
                    }
                }
            }
            if !done && gens.own_params.iter().filter(|p| !matches!(p.kind, rustc_middle::ty::GenericParamDefKind::Lifetime)).count() == 1
                && gens.parent.map(|p| !tcx.generics_of(p).requires_monomorphization(tcx)).unwrap_or(true) {
                let preds = format!("{:?}", tcx.explicit_clauses_of(rid).clauses);
                let pick = serde_tys.iter().find(|(b, _)| preds.contains(b));
                if let Some((_, st)) = pick {
                    let mut args = vec![];
                    for i in 0..gens.count() {
                        let p = gens.param_at(i, tcx);
                        if matches!(p.kind, rustc_middle::ty::GenericParamDefKind::Lifetime) {
                            args.push(GenericArgKind::Lifetime(Region { kind: RegionKind::ReErased }));
                        } else {
                            args.push(GenericArgKind::Type(*st));
                        }
                    }
                    if let Ok(i) = Instance::resolve(*f, &GenericArgs(args)) {
                        d.inst(i);
                        done = true;
                    }
                }
            }
            if !done {
                poly.push(*f);
            }
        }
    }
    d.run();
    // generic local functions: unsubstituted bodies
    let mut poly_js = vec![];
    let reached: HashSet<String> = d.seen.keys().map(|i| i.def.name()).collect();
    d.poly = true;
    for f in &poly {
        let name = f.name();
        if reached.contains(&name) { continue; }
        if std::env::var("MIRDUMP_DEBUG").is_ok() { eprintln!("POLY {name}"); }
        let meta = d.def_meta(f.def_id());
        let bj = match f.has_body() {
            true => match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f.body())) {
                Ok(Some(b)) => d.body(&b, true),
                _ => "null".into(),
            },
            false => "null".into(),
        };
        poly_js.push(format!("{{\"n\":{},\"def\":{},{meta},\"body\":{bj}}}", esc(&name), esc(&name)));
    }
    d.run();
    // statics and adts
    let mut statics = vec![];
    for s in krate.statics() {
        let t = d.ty(s.ty());
        let rid = rustc_internal::internal(tcx, s.def_id());
        statics.push(format!("{{\"n\":{},\"t\":{t},\"mut\":{}}}", esc(&s.name()), tcx.is_mutable_static(rid)));
    }
    let mut adts = vec![];
    for a in krate.adts() {
        let rid = rustc_internal::internal(tcx, a.def_id());
        let gens = tcx.generics_of(rid);
        let exported = rid.as_local().map(|l| tcx.effective_visibilities(()).is_exported(l)).unwrap_or(false);
        let mut fs = vec![];
        for v in tcx.adt_def(rid).variants() {
            for f in &v.fields {
                let t = tcx.type_of(f.did).instantiate_identity().skip_normalization();
                let vis = matches!(f.vis, rustc_middle::ty::Visibility::Public);
                fs.push(format!("{{\"v\":{},\"n\":{},\"t\":{},\"pub\":{vis}}}", esc(v.name.as_str()), esc(f.name.as_str()), esc(&format!("{t}"))));
            }
        }
        adts.push(format!("{{\"n\":{},\"generic\":{},\"exported\":{exported},\"fields\":[{}]}}",
            esc(&a.name()), gens.requires_monomorphization(tcx), fs.join(",")));
    }
    // trait impls of local types (Send/Sync/Clone markers are looked up in python)
    let mut impls = vec![];
    for l in tcx.hir_crate_items(()).definitions() {
        let rid = l.to_def_id();
        if let rustc_hir::def::DefKind::Impl { of_trait } = tcx.def_kind(rid) {
            if of_trait {
                let tr = tcx.impl_trait_ref(rid).instantiate_identity().skip_normalization();
                let h = tcx.impl_trait_header(rid);
                impls.push(format!("{{\"t\":{},\"derived\":{},\"unsafe\":{}}}", esc(&format!("{tr:?}")),
                    tcx.is_automatically_derived(rid), !h.safety.is_safe()));
            }
        }
    }
    d.run();
    let json = format!(
        "{{\"crate\":{},\"types\":[\n{}\n],\"insts\":[\n{}\n],\"poly\":[\n{}\n],\"statics\":[{}],\"adts\":[{}],\"impls\":[{}]}}",
        esc(&krate.name),
        d.tys.join(",\n"),
        d.insts.join(",\n"),
        poly_js.join(",\n"),
        statics.join(","),
        adts.join(","),
        impls.join(",")
    );
    let _ = &d.fns;
    std::fs::write(&out, json).expect("write MIRDUMP_OUT");
    ControlFlow::Continue(())
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // invoked as: mirdump <rustc> args...
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(0);
    }
    let r = run_with_tcx!(&args, analyze);
    match r {
        Ok(_) | Err(rustc_public::CompilerError::Skipped) => {}
        Err(_) => std::process::exit(1),
    }
}
