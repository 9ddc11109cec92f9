//! Extractor: a rustc driver that, for the crate it compiles, dumps the monomorphic MIR program reachable
//! from that crate's public functions (and everything they call, std included where MIR is available).
//!
//! Used as RUSTC_WORKSPACE_WRAPPER: argv = [extract, rustc, args...].
#![feature(rustc_private)]
#![allow(clippy::all)]

extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
#[macro_use]
extern crate rustc_public;
extern crate rustc_public_bridge;
extern crate rustc_session;
extern crate rustc_span;

#[path = "../../ir.rs"]
mod ir;

use ir::*;
use rustc_public::abi::{FieldsShape, TagEncoding, VariantsShape};
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::{self, CastKind, Operand, PointerCoercion, ProjectionElem, Rvalue, StatementKind, TerminatorKind};
use rustc_public::rustc_internal;
use rustc_public::ty::{self as pty, Allocation, ClosureKind, GenericArgKind, RigidTy, TyKind as PTyKind};
use rustc_public::{CrateDef, CrateDefType, CrateItem};
use rustc_public_bridge::IndexedVal;
use std::collections::{HashMap, VecDeque};

type TyCtxt<'a> = rustc_middle::ty::TyCtxt<'a>;

struct Ex<'tcx> {
    tcx: TyCtxt<'tcx>,
    p: Program,
    tymap: HashMap<pty::Ty, TyId>,
    fmap: HashMap<Instance, FuncId>,
    amap: HashMap<mir::alloc::AllocId, AllocId>,
    vmap: HashMap<(pty::Ty, String), AllocId>,
    files: HashMap<String, u32>,
    queue: VecDeque<(FuncId, Instance)>,
    span_cache: HashMap<pty::Span, (u32, u32)>,
    descend_fir: bool,
}

fn rigid(t: pty::Ty) -> RigidTy {
    match t.kind() {
        PTyKind::RigidTy(r) => r,
        k => panic!("non rigid type {k:?}"),
    }
}

impl<'tcx> Ex<'tcx> {
    fn file(&mut self, f: String) -> u32 {
        if let Some(&i) = self.files.get(&f) {
            return i;
        }
        let i = self.p.files.len() as u32;
        self.p.files.push(f.clone());
        self.files.insert(f, i);
        i
    }
    fn span(&mut self, s: pty::Span) -> (u32, u32) {
        if let Some(&x) = self.span_cache.get(&s) {
            return x;
        }
        let f = s.get_filename().to_string();
        let l = s.get_lines().start_line as u32;
        let r = (self.file(f), l);
        self.span_cache.insert(s, r);
        r
    }

    fn ptr_meta(&mut self, pointee: pty::Ty) -> Meta {
        match rigid(pointee) {
            RigidTy::Slice(e) => {
                let e = self.ty(e);
                Meta::Slice(self.p.tys[e as usize].size.unwrap_or(0))
            }
            RigidTy::Str => Meta::Slice(1),
            RigidTy::Dynamic(..) => Meta::Dyn,
            RigidTy::Adt(def, args) if def.kind() == pty::AdtKind::Struct => {
                // unsized tail
                if let Ok(l) = pointee.layout() {
                    if l.shape().is_sized() {
                        return Meta::None;
                    }
                }
                let v = &def.variants()[0];
                match v.fields().last() {
                    Some(f) => self.ptr_meta(f.ty_with_args(&args)),
                    None => Meta::None,
                }
            }
            _ => Meta::None,
        }
    }

    fn ty(&mut self, t: pty::Ty) -> TyId {
        if let Some(&i) = self.tymap.get(&t) {
            return i;
        }
        let id = self.p.tys.len() as TyId;
        self.tymap.insert(t, id);
        self.p.tys.push(Ty { name: format!("{}", t), size: None, align: 1, kind: TyKind::Other });
        let (size, align, shape) = match t.layout() {
            Ok(l) => {
                let s = l.shape();
                let sz = if s.is_sized() { Some(s.size.bytes() as u64) } else { None };
                (sz, s.abi_align, Some(s))
            }
            Err(_) => (None, 1, None),
        };
        self.p.tys[id as usize].size = size;
        self.p.tys[id as usize].align = align;
        let offs = |sh: &rustc_public::abi::LayoutShape| -> Vec<u64> {
            match &sh.fields {
                FieldsShape::Arbitrary { offsets } => offsets.iter().map(|o| o.bytes() as u64).collect(),
                _ => vec![],
            }
        };
        let kind = match rigid(t) {
            RigidTy::Bool => TyKind::Bool,
            RigidTy::Char => TyKind::Char,
            RigidTy::Int(i) => TyKind::Int { bits: i.num_bytes() as u16 * 8, signed: true },
            RigidTy::Uint(i) => TyKind::Int { bits: i.num_bytes() as u16 * 8, signed: false },
            RigidTy::Float(_) => TyKind::Float(size.unwrap_or(4) as u16 * 8),
            RigidTy::Never => TyKind::Never,
            RigidTy::Str => TyKind::Str,
            RigidTy::Slice(e) => TyKind::Slice { elem: self.ty(e) },
            RigidTy::Array(e, n) => {
                let elem = self.ty(e);
                TyKind::Array { elem, len: n.eval_target_usize().unwrap_or(0) }
            }
            RigidTy::RawPtr(p, m) => {
                let pointee = self.ty(p);
                let meta = self.ptr_meta(p);
                TyKind::Ptr { pointee, meta, is_ref: false, mutable: m == mir::Mutability::Mut }
            }
            RigidTy::Ref(_, p, m) => {
                let pointee = self.ty(p);
                let meta = self.ptr_meta(p);
                TyKind::Ptr { pointee, meta, is_ref: true, mutable: m == mir::Mutability::Mut }
            }
            RigidTy::FnPtr(_) => TyKind::FnPtr,
            RigidTy::FnDef(..) => TyKind::FnDef(None),
            RigidTy::Dynamic(..) => TyKind::Dyn,
            RigidTy::Tuple(ts) => {
                let o = shape.as_ref().map(|s| offs(s)).unwrap_or_default();
                let ids: Vec<TyId> = ts.iter().map(|t| self.ty(*t)).collect();
                TyKind::Tuple { fields: o.into_iter().zip(ids).collect() }
            }
            RigidTy::Closure(def, args) => {
                let o = shape.as_ref().map(|s| offs(s)).unwrap_or_default();
                // last generic arg is the tuple of captured types
                let mut tys = vec![];
                if let Some(GenericArgKind::Type(u)) = args.0.last() {
                    if let RigidTy::Tuple(ts) = rigid(*u) {
                        tys = ts.iter().map(|t| self.ty(*t)).collect();
                    }
                }
                TyKind::Closure { fields: o.into_iter().zip(tys).collect(), def: def.name().to_string() }
            }
            RigidTy::Adt(def, args) => {
                let name = def.name().to_string();
                match def.kind() {
                    pty::AdtKind::Union => TyKind::Union { def: name },
                    pty::AdtKind::Struct => {
                        let simd = if def.is_simd() {
                            let f = def.variants()[0].fields()[0].ty_with_args(&args);
                            match rigid(f) {
                                RigidTy::Array(e, n) => Some((self.ty(e), n.eval_target_usize().unwrap_or(0))),
                                _ => None,
                            }
                        } else {
                            None
                        };
                        let v = &def.variants()[0];
                        let mut ids = vec![];
                        for f in v.fields() {
                            let ft = f.ty_with_args(&args);
                            ids.push(self.ty(ft));
                        }
                        let o = match shape.as_ref() {
                            Some(s) => match &s.fields {
                                FieldsShape::Arbitrary { offsets } => offsets.iter().map(|o| o.bytes() as u64).collect(),
                                _ => vec![0; ids.len()],
                            },
                            None => vec![0; ids.len()],
                        };
                        TyKind::Struct { fields: o.into_iter().zip(ids).collect(), simd, def: name }
                    }
                    pty::AdtKind::Enum => {
                        let mut variants = vec![];
                        let (tag, voffs): (Tag, Vec<Vec<u64>>) = match shape.as_ref() {
                            None => (Tag::Empty, vec![]),
                            Some(s) => match &s.variants {
                                VariantsShape::Empty => (Tag::Empty, vec![]),
                                VariantsShape::Single { index } => {
                                    let i = index.to_index();
                                    let mut v = vec![vec![]; def.num_variants()];
                                    if i < v.len() {
                                        v[i] = offs(s);
                                    }
                                    (Tag::Single(i as u32), v)
                                }
                                VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                                    let off = match &s.fields {
                                        FieldsShape::Arbitrary { offsets } => offsets[*tag_field].bytes() as u64,
                                        _ => 0,
                                    };
                                    let tsz = match tag {
                                        rustc_public::abi::Scalar::Initialized { value, .. } => value.size(&rustc_public::target::MachineInfo::target()).bytes() as u64,
                                        rustc_public::abi::Scalar::Union { value } => value.size(&rustc_public::target::MachineInfo::target()).bytes() as u64,
                                    };
                                    let t = match tag_encoding {
                                        TagEncoding::Direct => Tag::Direct { off, size: tsz },
                                        TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => Tag::Niche {
                                            off,
                                            size: tsz,
                                            untagged: untagged_variant.to_index() as u32,
                                            start: niche_variants.start().to_index() as u32,
                                            end: niche_variants.end().to_index() as u32,
                                            niche_start: *niche_start,
                                        },
                                    };
                                    (t, variants.iter().map(|v| v.offsets.iter().map(|o| o.bytes() as u64).collect()).collect())
                                }
                            },
                        };
                        for (i, v) in def.variants().into_iter().enumerate() {
                            let discr = def.discriminant_for_variant(v.idx()).val;
                            let mut fields = vec![];
                            let mut names = vec![];
                            for (k, f) in v.fields().into_iter().enumerate() {
                                let ft = f.ty_with_args(&args);
                                let fid = self.ty(ft);
                                names.push(f.name.to_string());
                                let o = voffs.get(i).and_then(|x| x.get(k)).copied().unwrap_or(0);
                                fields.push((o, fid));
                            }
                            variants.push(Variant { name: v.name().to_string(), discr, fields, field_names: names });
                        }
                        let dt = RigidTy::Adt(def, args.clone()).discriminant_ty();
                        let (bits, signed) = match rigid(dt) {
                            RigidTy::Int(i) => (i.num_bytes() as u16 * 8, true),
                            RigidTy::Uint(i) => (i.num_bytes() as u16 * 8, false),
                            _ => (64, true),
                        };
                        TyKind::Enum { variants, tag, discr_ty_bits: bits, discr_signed: signed, def: name }
                    }
                }
            }
            _ => TyKind::Other,
        };
        self.p.tys[id as usize].kind = kind;
        id
    }

    fn func(&mut self, inst: Instance) -> FuncId {
        if let Some(&i) = self.fmap.get(&inst) {
            return i;
        }
        let id = self.p.funcs.len() as FuncId;
        self.fmap.insert(inst, id);
        let kind = match inst.kind {
            InstanceKind::Item => {
                if inst.is_foreign_item() {
                    FuncKind::Foreign(inst.mangled_name().to_string())
                } else {
                    FuncKind::Item
                }
            }
            InstanceKind::Intrinsic => FuncKind::Intrinsic(inst.intrinsic_name().map(|s| s.to_string()).unwrap_or_default()),
            InstanceKind::LlvmIntrinsic => FuncKind::Llvm(inst.mangled_name().to_string()),
            InstanceKind::Virtual { idx } => FuncKind::Virtual(idx as u32),
            InstanceKind::Shim => FuncKind::Shim,
        };
        let (file, line) = self.span(inst.def.span());
        let did = rustc_internal::internal(self.tcx, inst.def.def_id());
        let is_fn_like = {
            use rustc_hir::def::DefKind;
            matches!(self.tcx.def_kind(did), DefKind::Fn | DefKind::AssocFn | DefKind::Closure | DefKind::Ctor(..))
        };
        let mut target_features = vec![];
        let mut is_unsafe = false;
        let mut track_caller = false;
        if is_fn_like {
            let a = self.tcx.codegen_fn_attrs(did);
            for f in &a.target_features {
                target_features.push(f.name.to_string());
            }
            let k = self.tcx.def_kind(did);
            if matches!(k, rustc_hir::def::DefKind::Fn | rustc_hir::def::DefKind::AssocFn) {
                is_unsafe = self.tcx.fn_sig(did).skip_binder().safety().is_unsafe();
            }
            track_caller = a.flags.contains(rustc_middle::middle::codegen_fn_attrs::CodegenFnAttrFlags::TRACK_CALLER);
        }
        let ty_args: Vec<GArg> = inst
            .args()
            .0
            .iter()
            .filter_map(|a| match a {
                GenericArgKind::Type(t) => Some(GArg::Ty(self.ty(*t))),
                GenericArgKind::Const(c) => Some(match c.kind() {
                    pty::TyConstKind::Value(_, a) => {
                        if let Ok(v) = a.read_uint() {
                            GArg::Const(Some(v))
                        } else {
                            GArg::ConstBytes(self.cnst(a))
                        }
                    }
                    _ => GArg::Const(None),
                }),
                GenericArgKind::Lifetime(_) => None,
            })
            .collect();
        let krate = inst.def.krate().name.to_string();
        self.p.funcs.push(Func {
            path: inst.def.name().to_string(),
            name: inst.name().to_string(),
            krate,
            file,
            line,
            kind,
            locals: vec![],
            argc: 0,
            spread: None,
            blocks: vec![],
            has_body: false,
            target_features,
            ty_args,
            is_unsafe,
            track_caller,
            sig: vec![],
            ret: None,
        });
        self.queue.push_back((id, inst));
        id
    }

    fn cnst(&mut self, a: &Allocation) -> Const {
        let mut relocs = vec![];
        for (o, p) in &a.provenance.ptrs {
            relocs.push((*o as u64, self.galloc(p.0)));
        }
        Const { bytes: a.bytes.clone(), relocs, align: a.align, mutable: a.mutability == mir::Mutability::Mut }
    }

    fn galloc(&mut self, id: mir::alloc::AllocId) -> AllocId {
        if let Some(&i) = self.amap.get(&id) {
            return i;
        }
        let n = self.p.allocs.len() as AllocId;
        self.amap.insert(id, n);
        self.p.allocs.push(GAlloc { name: String::new(), kind: GAllocKind::Other });
        let g = GlobalAlloc::from(id);
        let (name, kind) = match g {
            GlobalAlloc::Function(i) => (String::new(), GAllocKind::Func(self.func(i))),
            GlobalAlloc::VTable(ty, ref tr) => {
                let tn = tr.as_ref().map(|t| format!("{:?}", t.value)).unwrap_or_default();
                let tyid = self.ty(ty);
                match g.vtable_allocation() {
                    Some(va) => match GlobalAlloc::from(va) {
                        GlobalAlloc::Memory(m) => {
                            let c = self.cnst(&m);
                            (String::new(), GAllocKind::VTable { ty: tyid, mem: c, trait_name: tn })
                        }
                        _ => (String::new(), GAllocKind::Other),
                    },
                    None => (String::new(), GAllocKind::Other),
                }
            }
            GlobalAlloc::Static(s) => {
                let name = s.name().to_string();
                let mem = s.eval_initializer().ok();
                let mutable = mem.as_ref().map(|m| m.mutability == mir::Mutability::Mut).unwrap_or(true);
                let m = mem.map(|m| self.cnst(&m));
                (name, GAllocKind::Static { mem: m, mutable })
            }
            GlobalAlloc::Memory(m) => {
                let c = self.cnst(&m);
                (String::new(), GAllocKind::Memory(c))
            }
            _ => (String::new(), GAllocKind::Other),
        };
        self.p.allocs[n as usize] = GAlloc { name, kind };
        n
    }

    fn vtable(&mut self, ty: pty::Ty, dynty: pty::Ty) -> AllocId {
        let key = (ty, format!("{:?}", dynty.kind().trait_principal()));
        if let Some(&i) = self.vmap.get(&key) {
            return i;
        }
        let n = self.p.allocs.len() as AllocId;
        self.p.allocs.push(GAlloc { name: String::new(), kind: GAllocKind::Other });
        self.vmap.insert(key.clone(), n);
        let g = GlobalAlloc::VTable(ty, dynty.kind().trait_principal());
        let tyid = self.ty(ty);
        if let Some(va) = g.vtable_allocation() {
            if let GlobalAlloc::Memory(m) = GlobalAlloc::from(va) {
                let c = self.cnst(&m);
                self.p.allocs[n as usize].kind = GAllocKind::VTable { ty: tyid, mem: c, trait_name: key.1 };
            }
        }
        n
    }

    fn place(&mut self, b: &mir::Body, p: &mir::Place) -> Place {
        let mut ty = b.locals()[p.local].ty;
        let mut variant: Option<usize> = None;
        let mut proj = vec![];
        for e in &p.projection {
            match e {
                ProjectionElem::Deref => {
                    let t = match rigid(ty) {
                        RigidTy::RawPtr(t, _) | RigidTy::Ref(_, t, _) => t,
                        RigidTy::Adt(_, ref args) => match &args.0[0] {
                            // Box: pointer at offset 0
                            GenericArgKind::Type(t) => *t,
                            _ => panic!(),
                        },
                        _ => {
                            proj.push(Proj::Unsupported(format!("deref {ty}")));
                            ty
                        }
                    };
                    let m = self.ptr_meta(t);
                    proj.push(Proj::Deref(m));
                    ty = t;
                }
                ProjectionElem::Field(i, fty) => {
                    let id = self.ty(ty);
                    let off = match &self.p.tys[id as usize].kind {
                        TyKind::Struct { fields, .. } | TyKind::Tuple { fields } | TyKind::Closure { fields, .. } => fields.get(*i).map(|f| f.0),
                        TyKind::Union { .. } => Some(0),
                        TyKind::Enum { variants, .. } => variants.get(variant.unwrap_or(0)).and_then(|v| v.fields.get(*i)).map(|f| f.0),
                        _ => None,
                    };
                    match off {
                        Some(o) => proj.push(Proj::Field(o)),
                        None => proj.push(Proj::Unsupported(format!("field {i} of {ty}"))),
                    }
                    ty = *fty;
                    variant = None;
                }
                ProjectionElem::Downcast(v) => {
                    variant = Some(v.to_index());
                }
                ProjectionElem::Index(l) => {
                    let (et, len) = self.elem(ty);
                    let sz = self.sz(et);
                    proj.push(Proj::Index { local: *l as u32, elem: sz, len });
                    ty = et;
                }
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    let (et, len) = self.elem(ty);
                    let sz = self.sz(et);
                    proj.push(Proj::ConstIndex { off: *offset, from_end: *from_end, elem: sz, len });
                    ty = et;
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    let (et, len) = self.elem(ty);
                    let sz = self.sz(et);
                    proj.push(Proj::Subslice { from: *from, to: *to, from_end: *from_end, elem: sz, len });
                    ty = e.ty(ty).unwrap();
                }
                ProjectionElem::OpaqueCast(t) => ty = *t,
            }
        }
        let t = self.ty(ty);
        Place { local: p.local as u32, proj, ty: t }
    }
    fn sz(&mut self, t: pty::Ty) -> u64 {
        let i = self.ty(t);
        self.p.tys[i as usize].size.unwrap_or(0)
    }
    fn elem(&mut self, t: pty::Ty) -> (pty::Ty, Option<u64>) {
        match rigid(t) {
            RigidTy::Array(e, n) => (e, Some(n.eval_target_usize().unwrap_or(0))),
            RigidTy::Slice(e) => (e, None),
            _ => panic!("elem of {t}"),
        }
    }

    fn const_op(&mut self, c: &pty::MirConst) -> Op {
        let ty = self.ty(c.ty());
        match c.kind() {
            pty::ConstantKind::Allocated(a) => Op::Const(self.cnst(a), ty),
            pty::ConstantKind::ZeroSized => Op::Const(Const::default(), ty),
            pty::ConstantKind::Ty(tc) => match tc.kind() {
                pty::TyConstKind::Value(_, a) => Op::Const(self.cnst(a), ty),
                _ => Op::Const(Const::default(), ty),
            },
            k => {
                eprintln!("extract: unevaluated constant {k:?}");
                Op::Const(Const::default(), ty)
            }
        }
    }
    fn op(&mut self, b: &mir::Body, o: &Operand) -> Op {
        match o {
            Operand::Copy(p) => Op::Copy(self.place(b, p)),
            Operand::Move(p) => Op::Move(self.place(b, p)),
            Operand::Constant(c) => self.const_op(&c.const_),
            Operand::RuntimeChecks(k) => Op::Checks(matches!(k, mir::RuntimeChecks::OverflowChecks)),
        }
    }
    fn oty(&mut self, b: &mir::Body, o: &Operand) -> pty::Ty {
        o.ty(b.locals()).unwrap()
    }

    /// find the pointer inside a (possibly wrapped) pointer type: returns the pointee
    fn find_pointee(&self, t: pty::Ty) -> Option<pty::Ty> {
        match rigid(t) {
            RigidTy::RawPtr(p, _) | RigidTy::Ref(_, p, _) => Some(p),
            RigidTy::Adt(def, args) if def.kind() == pty::AdtKind::Struct => {
                for f in def.variants()[0].fields() {
                    let ft = f.ty_with_args(&args);
                    if let Some(p) = self.find_pointee(ft) {
                        return Some(p);
                    }
                }
                None
            }
            RigidTy::Pat(t, _) => self.find_pointee(t),
            _ => None,
        }
    }
    fn struct_tail(&self, a: pty::Ty, b: pty::Ty) -> (pty::Ty, pty::Ty) {
        match (rigid(a), rigid(b)) {
            (RigidTy::Adt(d1, a1), RigidTy::Adt(d2, a2)) if d1 == d2 && d1.kind() == pty::AdtKind::Struct => {
                let f1 = d1.variants()[0].fields();
                let f2 = d2.variants()[0].fields();
                match (f1.last(), f2.last()) {
                    (Some(x), Some(y)) => self.struct_tail(x.ty_with_args(&a1), y.ty_with_args(&a2)),
                    _ => (a, b),
                }
            }
            _ => (a, b),
        }
    }

    fn rvalue(&mut self, b: &mir::Body, r: &Rvalue) -> Rv {
        match r {
            Rvalue::Use(o, _) => Rv::Use(self.op(b, o)),
            Rvalue::Repeat(o, n) => {
                let t = self.oty(b, o);
                let sz = self.sz(t);
                Rv::Repeat(self.op(b, o), n.eval_target_usize().unwrap(), sz)
            }
            Rvalue::Ref(_, _, p) | Rvalue::AddressOf(_, p) => Rv::Ref(self.place(b, p)),
            Rvalue::Reborrow(_, _, p) => Rv::Use(Op::Copy(self.place(b, p))),
            Rvalue::CopyForDeref(p) => Rv::Use(Op::Copy(self.place(b, p))),
            Rvalue::Len(p) => Rv::Len(self.place(b, p)),
            Rvalue::Discriminant(p) => Rv::Discr(self.place(b, p)),
            Rvalue::BinaryOp(k, x, y) => {
                let t = self.oty(b, x);
                let mut t = self.ty(t);
                if *k == mir::BinOp::Offset {
                    // element size of the pointee
                    if let TyKind::Ptr { pointee, .. } = self.p.tys[t as usize].kind {
                        t = pointee;
                    }
                }
                Rv::Bin(binop(*k), self.op(b, x), self.op(b, y), t)
            }
            Rvalue::CheckedBinaryOp(k, x, y) => {
                let t = self.oty(b, x);
                let t = self.ty(t);
                Rv::CheckedBin(binop(*k), self.op(b, x), self.op(b, y), t)
            }
            Rvalue::UnaryOp(k, x) => {
                let t = self.oty(b, x);
                let t = self.ty(t);
                match k {
                    mir::UnOp::Not => Rv::Not(self.op(b, x), t),
                    mir::UnOp::Neg => Rv::Neg(self.op(b, x), t),
                    mir::UnOp::PtrMetadata => Rv::PtrMeta(self.op(b, x)),
                }
            }
            Rvalue::ThreadLocalRef(c) => Rv::Unsupported(format!("thread local {}", c.name())),
            Rvalue::Aggregate(k, ops) => {
                let ty = r.ty(b.locals()).unwrap();
                if let mir::AggregateKind::RawPtr(..) = k {
                    return Rv::RawPtr(self.op(b, &ops[0]), self.op(b, &ops[1]));
                }
                let tid = self.ty(ty);
                let os: Vec<Op> = ops.iter().map(|o| self.op(b, o)).collect();
                let (offs, variant): (Vec<u64>, Option<u32>) = match (&self.p.tys[tid as usize].kind, k) {
                    (TyKind::Array { elem, .. }, _) => {
                        let sz = self.p.tys[*elem as usize].size.unwrap_or(0);
                        ((0..os.len() as u64).map(|i| i * sz).collect(), None)
                    }
                    (TyKind::Enum { variants, .. }, mir::AggregateKind::Adt(_, v, ..)) => {
                        let v = v.to_index();
                        (variants[v].fields.iter().map(|f| f.0).collect(), Some(v as u32))
                    }
                    (TyKind::Union { .. }, _) => (vec![0], None),
                    (TyKind::Struct { fields, .. }, _) | (TyKind::Tuple { fields }, _) | (TyKind::Closure { fields, .. }, _) => (fields.iter().map(|f| f.0).collect(), None),
                    (k, _) => return Rv::Unsupported(format!("aggregate {k:?}")),
                };
                if offs.len() != os.len() {
                    return Rv::Unsupported(format!("aggregate arity of {}", self.p.tys[tid as usize].name));
                }
                Rv::Aggregate { fields: offs.into_iter().zip(os).collect(), variant, ty: tid }
            }
            Rvalue::Cast(k, o, to) => {
                let from = self.oty(b, o);
                let fid = self.ty(from);
                let tid = self.ty(*to);
                let simple = |c: CastK, s: &mut Self| Rv::Cast(c, s.op(b, o), fid, tid);
                match k {
                    CastKind::PointerExposeAddress => simple(CastK::ExposeAddr, self),
                    CastKind::PointerWithExposedProvenance => simple(CastK::FromExposed, self),
                    CastKind::IntToInt => simple(CastK::Int, self),
                    CastKind::FloatToInt => simple(CastK::FloatToInt, self),
                    CastKind::FloatToFloat => simple(CastK::FloatToFloat, self),
                    CastKind::IntToFloat => simple(CastK::IntToFloat, self),
                    CastKind::PtrToPtr | CastKind::FnPtrToPtr => simple(CastK::PtrToPtr, self),
                    CastKind::Transmute | CastKind::Subtype | CastKind::BoxDerefTransmute => simple(CastK::Transmute, self),
                    CastKind::PointerCoercion(pc) => match pc {
                        PointerCoercion::ReifyFnPointer(_) => match rigid(from) {
                            RigidTy::FnDef(d, a) => match Instance::resolve_for_fn_ptr(d, &a) {
                                Ok(i) => Rv::Reify(self.func(i)),
                                Err(e) => Rv::Unsupported(format!("{e:?}")),
                            },
                            _ => Rv::Unsupported("reify".into()),
                        },
                        PointerCoercion::ClosureFnPointer(_) => match rigid(from) {
                            RigidTy::Closure(d, a) => match Instance::resolve_closure(d, &a, ClosureKind::FnOnce) {
                                Ok(i) => Rv::Reify(self.func(i)),
                                Err(e) => Rv::Unsupported(format!("{e:?}")),
                            },
                            _ => Rv::Unsupported("closure fn ptr".into()),
                        },
                        PointerCoercion::UnsafeFnPointer | PointerCoercion::MutToConstPointer | PointerCoercion::ArrayToPointer => simple(CastK::PtrToPtr, self),
                        PointerCoercion::Unsize => {
                            let (Some(fp), Some(tp)) = (self.find_pointee(from), self.find_pointee(*to)) else {
                                return Rv::Unsupported(format!("unsize {from} to {to}"));
                            };
                            let (ft, tt) = self.struct_tail(fp, tp);
                            let fsz = self.p.tys[fid as usize].size;
                            let tsz = self.p.tys[tid as usize].size;
                            match (rigid(ft), rigid(tt)) {
                                (RigidTy::Array(_, n), RigidTy::Slice(_)) if fsz == Some(8) && tsz == Some(16) => simple(CastK::UnsizeSlice(n.eval_target_usize().unwrap()), self),
                                (RigidTy::Dynamic(..), RigidTy::Dynamic(..)) => {
                                    if ft.kind().trait_principal() == tt.kind().trait_principal() || tt.kind().trait_principal().is_none() {
                                        simple(CastK::Reborrow, self)
                                    } else {
                                        Rv::Unsupported(format!("upcast {from} to {to}"))
                                    }
                                }
                                (_, RigidTy::Dynamic(..)) if fsz == Some(8) && tsz == Some(16) => {
                                    let v = self.vtable(ft, tt);
                                    Rv::UnsizeDyn(self.op(b, o), v)
                                }
                                _ => Rv::Unsupported(format!("unsize {from} to {to}")),
                            }
                        }
                    },
                }
            }
        }
    }

    fn stop(&self, f: &Func) -> bool {
        let p = &f.path;
        let k = f.krate.as_str();
        if p.starts_with("core::fmt::") || p.starts_with("core::panicking") || p.starts_with("std::panicking") || p.starts_with("std::fmt") || p.starts_with("alloc::fmt") {
            return true;
        }
        if p.contains("::fmt::Debug>") || p.contains("::fmt::Display>") {
            return true;
        }
        if p.starts_with("std_detect::") || p.starts_with("std::io") || p.starts_with("std::thread") || p.starts_with("std::sync") || p.starts_with("alloc::sync") || p.starts_with("std::env") || p.starts_with("std::fs") {
            return true;
        }
        if k == "rayon_core" || k == "num_cpus" || k == "crossbeam_deque" || k == "crossbeam_epoch" {
            return true;
        }
        if k == "rayon" {
            return true;
        }
        if k == "fast_image_resize" && !self.descend_fir {
            return true;
        }
        false
    }

    /// tuple struct and variant constructors used as functions
    fn ctor(&mut self, id: FuncId, inst: Instance) {
        use rustc_hir::def::{CtorOf, DefKind};
        let did = rustc_internal::internal(self.tcx, inst.def.def_id());
        let DefKind::Ctor(of, _) = self.tcx.def_kind(did) else { return };
        let RigidTy::FnDef(..) = rigid(inst.ty()) else { return };
        let Some(sig) = inst.ty().kind().fn_sig() else { return };
        let sig = sig.skip_binder();
        let ret = self.ty(sig.output());
        let args: Vec<TyId> = sig.inputs().iter().map(|t| self.ty(*t)).collect();
        let variant = match of {
            CtorOf::Struct => None,
            CtorOf::Variant => {
                let v = self.tcx.parent(did);
                let adt = self.tcx.adt_def(self.tcx.parent(v));
                Some(adt.variant_index_with_id(v).as_u32())
            }
        };
        let offs: Vec<u64> = match (&self.p.tys[ret as usize].kind, variant) {
            (TyKind::Enum { variants, .. }, Some(v)) => variants[v as usize].fields.iter().map(|f| f.0).collect(),
            (TyKind::Struct { fields, .. }, None) => fields.iter().map(|f| f.0).collect(),
            _ => return,
        };
        if offs.len() != args.len() {
            return;
        }
        let ops: Vec<Op> = args.iter().enumerate().map(|(l, t)| Op::Move(Place { local: l as u32 + 1, proj: vec![], ty: *t })).collect();
        let rv = Rv::Aggregate { fields: offs.into_iter().zip(ops).collect(), variant, ty: ret };
        let f = &mut self.p.funcs[id as usize];
        let (file, line) = (f.file, f.line);
        f.locals = std::iter::once(ret).chain(args.iter().copied()).map(|ty| LocalDecl { ty, name: None }).collect();
        f.argc = args.len() as u32;
        f.blocks = vec![Block { stmts: vec![(Stmt::Assign(Place { local: 0, proj: vec![], ty: ret }, rv), line)], term: Term::Return, file, line, cleanup: false }];
        f.has_body = true;
        f.sig = args;
        f.ret = Some(ret);
    }

    fn body(&mut self, id: FuncId, inst: Instance) {
        if self.stop(&self.p.funcs[id as usize]) {
            // still reach the closures handed to the callee
            self.callables(inst);
            return;
        }
        match inst.kind {
            InstanceKind::LlvmIntrinsic | InstanceKind::Virtual { .. } => return,
            _ => {}
        }
        if inst.is_foreign_item() {
            return;
        }
        let Some(body) = inst.body() else {
            self.ctor(id, inst);
            return;
        };
        let argc = body.arg_locals().len() as u32;
        let mut names: HashMap<usize, String> = HashMap::new();
        for v in &body.var_debug_info {
            if let mir::VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() {
                    names.insert(p.local, v.name.to_string());
                }
            }
        }
        let locals: Vec<LocalDecl> = body.locals().iter().enumerate().map(|(i, l)| LocalDecl { ty: self.ty(l.ty), name: names.get(&i).cloned() }).collect();
        let mut blocks = vec![];
        for bb in &body.blocks {
            let mut stmts = vec![];
            for s in &bb.statements {
                let st = match &s.kind {
                    StatementKind::Assign(p, r) => {
                        let pl = self.place(&body, p);
                        let rv = self.rvalue(&body, r);
                        Stmt::Assign(pl, rv)
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => Stmt::SetDiscr(self.place(&body, place), variant_index.to_index() as u32),
                    StatementKind::StorageLive(l) => Stmt::StorageLive(*l as u32),
                    StatementKind::StorageDead(l) => Stmt::StorageDead(*l as u32),
                    StatementKind::Intrinsic(mir::NonDivergingIntrinsic::Assume(o)) => Stmt::Assume(self.op(&body, o)),
                    StatementKind::Intrinsic(mir::NonDivergingIntrinsic::CopyNonOverlapping(c)) => {
                        let t = self.oty(&body, &c.src);
                        let tid = self.ty(t);
                        let elem = match self.p.tys[tid as usize].kind {
                            TyKind::Ptr { pointee, .. } => self.p.tys[pointee as usize].size.unwrap_or(0),
                            _ => 0,
                        };
                        Stmt::CopyNonOverlapping { src: self.op(&body, &c.src), dst: self.op(&body, &c.dst), count: self.op(&body, &c.count), elem }
                    }
                    _ => continue,
                };
                let (_, line) = self.span(s.source_info.span);
                stmts.push((st, line));
            }
            let (file, line) = self.span(bb.terminator.source_info.span);
            let term = match &bb.terminator.kind {
                TerminatorKind::Goto { target } => Term::Goto(*target as u32),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let t = self.oty(&body, discr);
                    Term::Switch { op: self.op(&body, discr), ty: self.ty(t), targets: targets.branches().map(|(v, t)| (v, t as u32)).collect(), otherwise: targets.otherwise() as u32 }
                }
                TerminatorKind::Resume => Term::Resume,
                TerminatorKind::Abort => Term::Abort,
                TerminatorKind::Return => Term::Return,
                TerminatorKind::Unreachable => Term::Unreachable,
                TerminatorKind::Drop { place, target, .. } => {
                    let t = place.ty(body.locals()).unwrap();
                    let i = Instance::resolve_drop_in_place(t);
                    let glue = if i.is_empty_shim() { None } else { Some(self.func(i)) };
                    Term::Drop { place: self.place(&body, place), glue, target: *target as u32 }
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let t = self.oty(&body, func);
                    let callee = match rigid(t) {
                        RigidTy::FnDef(d, a) => match Instance::resolve(d, &a) {
                            Ok(i) => Callee::Direct(self.func(i)),
                            Err(e) => panic!("cannot resolve {e:?}"),
                        },
                        _ => Callee::Indirect(self.op(&body, func)),
                    };
                    if let Callee::Direct(c) = callee {
                        if self.p.funcs[c as usize].ret.is_none() {
                            // functions without a body get their signature from a call site
                            let ts: Vec<TyId> = args.iter().map(|o| { let t = self.oty(&body, o); self.ty(t) }).collect();
                            let r = destination.ty(body.locals()).unwrap();
                            let r = self.ty(r);
                            let f = &mut self.p.funcs[c as usize];
                            f.sig = ts;
                            f.ret = Some(r);
                        }
                    }
                    Term::Call { callee, args: args.iter().map(|o| self.op(&body, o)).collect(), dest: self.place(&body, destination), target: target.map(|t| t as u32) }
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let (kind, ops): (String, Vec<&Operand>) = match msg {
                        mir::AssertMessage::BoundsCheck { len, index } => ("index out of bounds".into(), vec![len, index]),
                        mir::AssertMessage::Overflow(op, x, y) => (format!("overflow in {op:?}"), vec![x, y]),
                        mir::AssertMessage::OverflowNeg(x) => ("overflow in Neg".into(), vec![x]),
                        mir::AssertMessage::DivisionByZero(x) => ("division by zero".into(), vec![x]),
                        mir::AssertMessage::RemainderByZero(x) => ("remainder by zero".into(), vec![x]),
                        m => (format!("{m:?}").chars().take(60).collect(), vec![]),
                    };
                    let ops = ops.into_iter().map(|o| self.op(&body, o)).collect();
                    Term::Assert { cond: self.op(&body, cond), expected: *expected, kind, ops, target: *target as u32 }
                }
                TerminatorKind::InlineAsm { destination, .. } => Term::Asm(destination.map(|t| t as u32)),
            };
            blocks.push(Block { stmts, term, line, file, cleanup: false });
        }
        let sig: Vec<TyId> = locals[1..1 + argc as usize].iter().map(|l| l.ty).collect();
        let ret = Some(locals[0].ty);
        let f = &mut self.p.funcs[id as usize];
        f.locals = locals;
        f.argc = argc;
        f.spread = body.spread_arg().map(|l| l as u32);
        f.blocks = blocks;
        f.has_body = true;
        f.sig = sig;
        f.ret = ret;
        if !matches!(f.kind, FuncKind::Intrinsic(_)) {
            // unreferenced blocks (cleanup) stay; the analyser never enters them
        }
    }

    /// closures and function items among the generic arguments of a boundary function
    fn callables(&mut self, inst: Instance) {
        let mut stack: Vec<pty::Ty> = inst
            .args()
            .0
            .iter()
            .filter_map(|a| match a {
                GenericArgKind::Type(t) => Some(*t),
                _ => None,
            })
            .collect();
        let mut n = 0;
        while let Some(t) = stack.pop() {
            n += 1;
            if n > 2000 {
                break;
            }
            match rigid(t) {
                RigidTy::Closure(d, a) => {
                    if let Ok(i) = Instance::resolve_closure(d, &a, ClosureKind::FnOnce) {
                        self.func(i);
                    }
                    // the closure's own kind
                    if let Ok(i) = Instance::resolve_closure(d, &a, ClosureKind::FnMut) {
                        self.func(i);
                    }
                    if let Ok(i) = Instance::resolve_closure(d, &a, ClosureKind::Fn) {
                        self.func(i);
                    }
                    self.ty(t);
                }
                RigidTy::FnDef(d, a) => {
                    if let Ok(i) = Instance::resolve(d, &a) {
                        self.func(i);
                    }
                }
                RigidTy::Adt(_, a) => {
                    for x in &a.0 {
                        if let GenericArgKind::Type(t) = x {
                            stack.push(*t);
                        }
                    }
                }
                RigidTy::Tuple(ts) => stack.extend(ts),
                RigidTy::Ref(_, t, _) | RigidTy::RawPtr(t, _) | RigidTy::Slice(t) => stack.push(t),
                _ => {}
            }
        }
    }
}

fn binop(k: mir::BinOp) -> Bin {
    use mir::BinOp::*;
    match k {
        Add => Bin::Add,
        AddUnchecked => Bin::AddUnchecked,
        Sub => Bin::Sub,
        SubUnchecked => Bin::SubUnchecked,
        Mul => Bin::Mul,
        MulUnchecked => Bin::MulUnchecked,
        Div => Bin::Div,
        Rem => Bin::Rem,
        BitXor => Bin::Xor,
        BitAnd => Bin::And,
        BitOr => Bin::Or,
        Shl => Bin::Shl,
        ShlUnchecked => Bin::ShlUnchecked,
        Shr => Bin::Shr,
        ShrUnchecked => Bin::ShrUnchecked,
        Eq => Bin::Eq,
        Lt => Bin::Lt,
        Le => Bin::Le,
        Ne => Bin::Ne,
        Ge => Bin::Ge,
        Gt => Bin::Gt,
        Cmp => Bin::Cmp,
        Offset => Bin::Offset,
    }
}

fn analyse(tcx: TyCtxt<'_>, out: &str) {
    let mut ex = Ex {
        tcx,
        p: Program::default(),
        tymap: Default::default(),
        fmap: Default::default(),
        amap: Default::default(),
        vmap: Default::default(),
        files: Default::default(),
        queue: Default::default(),
        span_cache: Default::default(),
        descend_fir: std::env::var("EXTRACT_FIR").is_ok(),
    };
    let target_crate = std::env::var("EXTRACT_CRATE").unwrap_or_else(|_| "ezk_image".into());
    ex.p.crate_name = target_crate.clone();
    ex.p.target = tcx.sess.opts.target_triple.to_string();
    let mut roots: Vec<CrateItem> = vec![];
    for d in rustc_public::local_crate().fn_defs() {
        roots.push(CrateItem(d.def_id()));
    }
    for item in roots {
        if let Ok(i) = Instance::try_from(item) {
            let f = ex.func(i);
            ex.p.roots.push((item.name().to_string(), f));
        }
    }
    for c in rustc_public::find_crates(&target_crate) {
        for d in c.fn_defs() {
            let (f, l) = ex.span(d.span());
            let f = ex.p.files[f as usize].clone();
            ex.p.crate_fns.push((d.name().to_string(), f, l));
        }
    }
    let mut n = 0usize;
    while let Some((id, inst)) = ex.queue.pop_front() {
        ex.body(id, inst);
        n += 1;
        if n > 400_000 {
            panic!("program too large");
        }
    }
    let f = std::fs::File::create(out).expect("create output");
    bincode::serialize_into(std::io::BufWriter::new(f), &ex.p).expect("serialise");
    eprintln!(
        "extract: {} functions ({} with bodies), {} types, {} allocations",
        ex.p.funcs.len(),
        ex.p.funcs.iter().filter(|f| f.has_body).count(),
        ex.p.tys.len(),
        ex.p.allocs.len()
    );
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // drop our own name when used as a wrapper
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(0);
    }
    let is_probe = args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == "probe");
    let out = std::env::var("EXTRACT_OUT").ok();
    if is_probe && out.is_some() {
        let out = out.unwrap();
        let r: Result<(), rustc_public::CompilerError<()>> = run_with_tcx!(&args, |tcx| {
            analyse(tcx, &out);
            std::ops::ControlFlow::Continue(())
        });
        if r.is_err() {
            std::process::exit(1);
        }
    } else {
        struct Nop;
        impl rustc_driver::Callbacks for Nop {}
        rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Nop));
    }
}
