//! Compilation of monomorphic MIR into a compact form with resolved layouts.
use crate::exec::Engine;
use crate::mem::{Aid, Sc};
use crate::term::{self as t};
use rustc_abi::{BackendRepr, FieldIdx, TagEncoding, VariantIdx, Variants};
use rustc_middle::mir::{self, interpret::GlobalAlloc, interpret::Scalar, ConstValue};
use rustc_middle::ty::{self, EarlyBinder, Instance, Ty};
use rustc_span::Span;
use std::rc::Rc;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Abi {
    Zst,
    Scalar(u8),
    Pair(u64, u8, u64, u8),
    Mem,
}
#[derive(Clone, Copy, Debug)]
pub struct Ly {
    pub size: u64,
    pub align: u64,
    pub abi: Abi,
}
#[derive(Clone, Debug)]
pub enum Val {
    Zst,
    S(Sc, u8),
    Pair(u64, u8, Sc, u64, u8, Sc),
    Mem(Rc<Vec<(u64, u8, Sc)>>, u64),
}
#[derive(Clone, Debug)]
pub enum Step<'tcx> {
    Deref { fat: bool },
    Off(u64),
    /// field behind a `dyn` tail: offset rounded up to the dynamic alignment
    DynOff(u64, Ty<'tcx>),
    Index { local: usize, stride: u64, len: Option<u64> },
    ConstIdx { off: u64, stride: u64, from_end: bool, len: Option<u64> },
    Sub { from: u64, to: u64, stride: u64, from_end: bool, len: Option<u64> },
}
#[derive(Clone, Debug)]
pub struct Place<'tcx> {
    pub local: usize,
    pub steps: Vec<Step<'tcx>>,
    pub ty: Ty<'tcx>,
    pub ly: Ly,
    /// the place has a metadata word
    pub fat: bool,
}
#[derive(Clone, Debug)]
pub enum Opd<'tcx> {
    P(Place<'tcx>),
    C(Val, Ty<'tcx>),
    Unsup(String),
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Prim {
    Int(u32, bool),
    Bool,
    F32,
    F64,
    Ptr,
    Fat,
    Other,
}
#[derive(Clone, Debug)]
pub enum Rv<'tcx> {
    Use(Opd<'tcx>),
    Repeat(Opd<'tcx>, u64, u64),
    Addr(Place<'tcx>),
    Tls(rustc_span::def_id::DefId),
    Bin(mir::BinOp, Opd<'tcx>, Opd<'tcx>, Prim, u32, u64),
    Neg(Opd<'tcx>, Prim),
    Not(Opd<'tcx>, Prim),
    Meta(Opd<'tcx>),
    Discr(Place<'tcx>, Discr, u32),
    Agg(Vec<(u64, Opd<'tcx>)>, Option<(Discr, usize)>),
    FatPtr(Opd<'tcx>, Opd<'tcx>),
    IntToInt(Opd<'tcx>, Prim, Prim),
    FToI(Opd<'tcx>, Prim, Prim),
    IToF(Opd<'tcx>, Prim, Prim),
    FToF(Opd<'tcx>, Prim, Prim),
    PtrToPtr(Opd<'tcx>, bool),
    Transmute(Opd<'tcx>),
    Reify(Instance<'tcx>),
    Unsize(Opd<'tcx>, Ty<'tcx>, Ty<'tcx>),
    Unsup(String),
}
#[derive(Clone, Debug)]
pub enum Discr {
    Single(u128),
    Direct { off: u64, size: u8, vals: Vec<u128>, signed: bool },
    Niche { off: u64, size: u8, untagged: usize, start: usize, end: usize, niche_start: u128, vals: Vec<u128>, ptr: bool },
}
#[derive(Clone, Debug)]
pub enum St<'tcx> {
    Assign(Place<'tcx>, Rv<'tcx>),
    SetDiscr(Place<'tcx>, Discr, usize),
    Live(usize),
    Assume(Opd<'tcx>),
    CopyNo(Opd<'tcx>, Opd<'tcx>, Opd<'tcx>, u64),
    Unsup(String),
}
#[derive(Clone, Debug)]
pub enum Callee<'tcx> {
    Fixed(Instance<'tcx>),
    Ptr(Opd<'tcx>),
    Unsup(String),
}
#[derive(Clone, Debug)]
pub enum Tm<'tcx> {
    Goto(usize),
    Switch(Opd<'tcx>, Prim, Vec<(u128, usize)>, usize),
    Ret,
    Unreachable,
    Resume,
    Drop(Place<'tcx>, usize),
    Call { f: Callee<'tcx>, args: Vec<Opd<'tcx>>, arg_tys: Vec<Ty<'tcx>>, dest: Place<'tcx>, target: Option<usize>, rust_call: bool },
    Assert { cond: Opd<'tcx>, expected: bool, msg: String, target: usize },
    Unsup(String),
}
pub struct Block<'tcx> {
    pub stmts: Vec<(St<'tcx>, Span)>,
    pub term: Tm<'tcx>,
    pub span: Span,
}
pub struct Local<'tcx> {
    pub ty: Ty<'tcx>,
    pub ly: Option<Ly>,
}
pub struct Body<'tcx> {
    pub inst: Instance<'tcx>,
    pub name: String,
    pub short: String,
    pub local_crate: bool,
    pub blocks: Vec<Block<'tcx>>,
    pub locals: Vec<Local<'tcx>>,
    pub args: usize,
    pub spread: Option<usize>,
    pub ipdom: Vec<Option<usize>>,
    pub track_caller: bool,
}

impl<'tcx> Engine<'tcx> {
    pub fn layout(&self, ty: Ty<'tcx>) -> Result<ty::layout::TyAndLayout<'tcx>, String> {
        self.tcx.layout_of(self.env.as_query_input(ty)).map_err(|e| format!("layout of {:?}: {:?}", ty, e))
    }
    pub fn cx(&self) -> ty::layout::LayoutCx<'tcx> {
        ty::layout::LayoutCx::new(self.tcx, self.env)
    }
    pub fn ly_of(l: &ty::layout::TyAndLayout<'tcx>, cx: &ty::layout::LayoutCx<'tcx>) -> Ly {
        let size = l.size.bytes();
        let align = l.align.abi.bytes();
        let abi = if size == 0 {
            Abi::Zst
        } else {
            match l.backend_repr {
                BackendRepr::Scalar(s) => Abi::Scalar(s.size(cx).bytes() as u8),
                BackendRepr::ScalarPair { a, b, b_offset } => {
                    Abi::Pair(0, a.size(cx).bytes() as u8, b_offset.bytes(), b.size(cx).bytes() as u8)
                }
                _ => Abi::Mem,
            }
        };
        Ly { size, align, abi }
    }
    pub fn ly(&self, ty: Ty<'tcx>) -> Result<Ly, String> {
        let l = self.layout(ty)?;
        Ok(Self::ly_of(&l, &self.cx()))
    }
    pub fn is_fat_pointee(&self, ty: Ty<'tcx>) -> bool {
        let tail = self.tcx.struct_tail_for_codegen(ty, self.env);
        matches!(tail.kind(), ty::Slice(_) | ty::Str | ty::Dynamic(..))
    }
    pub fn prim(&self, ty: Ty<'tcx>) -> Prim {
        match ty.kind() {
            ty::Bool => Prim::Bool,
            ty::Char => Prim::Int(32, false),
            ty::Int(i) => Prim::Int(i.bit_width().unwrap_or(64) as u32, true),
            ty::Uint(i) => Prim::Int(i.bit_width().unwrap_or(64) as u32, false),
            ty::Float(ty::FloatTy::F32) => Prim::F32,
            ty::Float(ty::FloatTy::F64) => Prim::F64,
            ty::RawPtr(p, _) | ty::Ref(_, p, _) => {
                if self.is_fat_pointee(*p) {
                    Prim::Fat
                } else {
                    Prim::Ptr
                }
            }
            ty::FnPtr(..) => Prim::Ptr,
            ty::Pat(b, _) => self.prim(*b),
            _ => Prim::Other,
        }
    }

    pub fn discr_of(&self, ty: Ty<'tcx>) -> Result<Discr, String> {
        let l = self.layout(ty)?;
        let cx = self.cx();
        let dv = |v: VariantIdx| -> u128 {
            match ty.discriminant_for_variant(self.tcx, v) {
                Some(d) => d.val,
                None => v.as_u32() as u128,
            }
        };
        match &l.variants {
            Variants::Empty => Ok(Discr::Single(0)),
            Variants::Single { index } => Ok(Discr::Single(match ty.discriminant_for_variant(self.tcx, *index) {
                Some(d) => d.val,
                None => index.as_u32() as u128,
            })),
            Variants::Multiple { tag, tag_encoding, tag_field, variants } => {
                let off = l.fields.offset(tag_field.as_usize()).bytes();
                let size = tag.size(&cx).bytes() as u8;
                let vals: Vec<u128> = (0..variants.len()).map(|i| dv(VariantIdx::from_usize(i))).collect();
                match tag_encoding {
                    TagEncoding::Direct => {
                        let signed = matches!(tag.primitive(), rustc_abi::Primitive::Int(_, true));
                        Ok(Discr::Direct { off, size, vals, signed })
                    }
                    TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => Ok(Discr::Niche {
                        off,
                        size,
                        untagged: untagged_variant.as_usize(),
                        start: niche_variants.start.as_usize(),
                        end: niche_variants.last.as_usize(),
                        niche_start: *niche_start,
                        vals,
                        ptr: matches!(tag.primitive(), rustc_abi::Primitive::Pointer(_)),
                    }),
                }
            }
        }
    }

    pub fn body(&mut self, inst: Instance<'tcx>) -> Result<Rc<Body<'tcx>>, String> {
        if let Some(b) = self.bodies.get(&inst) {
            return Ok(b.clone());
        }
        let tcx = self.tcx;
        if let ty::InstanceKind::Item(d) = inst.def {
            if tcx.is_foreign_item(d) || (!tcx.is_mir_available(d) && !tcx.is_constructor(d)) {
                return Err(format!("no MIR for {}", tcx.def_path_str(d)));
            }
        }
        let mir = tcx.instance_mir(inst.def);
        let mono = inst.instantiate_mir_and_normalize_erasing_regions(tcx, self.env, EarlyBinder::bind(tcx, mir.clone()));
        let b = Rc::new(Cc { e: self, inst, mir: &mono }.compile());
        self.bodies.insert(inst, b.clone());
        Ok(b)
    }

    pub fn const_val(&mut self, cv: ConstValue, ty: Ty<'tcx>) -> Result<Val, String> {
        let ly = self.ly(ty)?;
        if ly.size == 0 {
            return Ok(Val::Zst);
        }
        match cv {
            ConstValue::Scalar(s) => {
                let sz = match ly.abi {
                    Abi::Scalar(s) => s,
                    _ => ly.size as u8,
                };
                Ok(Val::S(self.scalar(s)?, sz))
            }
            ConstValue::ZeroSized => Ok(Val::Zst),
            ConstValue::Slice { alloc_id, meta } => {
                let a = self.global(alloc_id)?;
                Ok(Val::Pair(0, 8, Sc::P(a, t::c64(0)), 8, 8, Sc::T(t::c64(meta))))
            }
            ConstValue::Indirect { alloc_id, offset } => {
                let a = self.global(alloc_id)?;
                let o = self.globals[&a].clone();
                Ok(crate::exec::read_ly(&o, offset.bytes(), ly))
            }
        }
    }
    pub fn scalar(&mut self, s: Scalar) -> Result<Sc, String> {
        match s {
            Scalar::Int(i) => Ok(Sc::T(t::c(i.size().bits() as u32, i.to_bits(i.size())))),
            Scalar::Ptr(p, _) => {
                let (prov, off) = p.into_raw_parts();
                let a = self.global(prov.alloc_id())?;
                Ok(Sc::P(a, t::c64(off.bytes())))
            }
        }
    }
    pub fn global(&mut self, id: mir::interpret::AllocId) -> Result<Aid, String> {
        if let Some(a) = self.global_ids.get(&id) {
            return Ok(*a);
        }
        let tcx = self.tcx;
        let a = self.fresh_ids(1);
        self.global_ids.insert(id, a);
        use crate::mem::{Kind, Obj, Raw};
        let obj = match tcx.global_alloc(id) {
            GlobalAlloc::Function { instance } => {
                let mut o = Obj::new(1, 1);
                o.kind = Kind::Fn(instance);
                o
            }
            GlobalAlloc::VTable(ty, preds) => {
                let mut o = Obj::new(64, 8);
                let p = preds.principal().map(|p| tcx.instantiate_bound_regions_with_erased(p));
                o.kind = Kind::VTable(ty, p);
                o
            }
            GlobalAlloc::TypeId { .. } => Obj::new(16, 8),
            GlobalAlloc::Static(d) => {
                if tcx.is_foreign_item(d) {
                    return Err(format!("foreign static {}", tcx.def_path_str(d)));
                }
                let al = tcx.eval_static_initializer(d).map_err(|_| "static initializer".to_string())?;
                self.conv_alloc(al.inner())?
            }
            GlobalAlloc::Memory(al) => self.conv_alloc(al.inner())?,
        };
        let _ = Raw::None;
        self.globals.insert(a, Rc::new(obj));
        Ok(a)
    }
    fn conv_alloc(&mut self, al: &mir::interpret::Allocation) -> Result<crate::mem::Obj<'tcx>, String> {
        use crate::mem::{Obj, Raw};
        let n = al.len();
        let bytes = al.inspect_with_uninit_and_ptr_outside_interpreter(0..n);
        let mut o = Obj::new(n as u64, al.align.bytes());
        o.raw = Raw::Bytes(bytes.into());
        let ptrs: Vec<_> = al.provenance().ptrs().iter().map(|(s, p)| (s.bytes(), *p)).collect();
        for (off, prov) in ptrs {
            let mut v = 0u64;
            for i in 0..8 {
                v |= (bytes[(off + i) as usize] as u64) << (8 * i);
            }
            let id = prov.alloc_id();
            if let GlobalAlloc::TypeId { ty } = self.tcx.global_alloc(id) {
                // type ids: a stable hash is enough (equality of ids == equality of types)
                let k = self.type_hash(ty);
                let w = if off == 0 { k } else { k.rotate_left(17) };
                let _ = v;
                o.cells.insert(off, (8, Sc::T(t::c64(w))));
                continue;
            }
            let a = self.global(id)?;
            o.cells.insert(off, (8, Sc::P(a, t::c64(v))));
        }
        Ok(o)
    }
    pub fn type_hash(&mut self, ty: Ty<'tcx>) -> u64 {
        let h = self.tcx.type_id_hash(ty).as_u128();
        h as u64
    }
}

struct Cc<'a, 'tcx> {
    e: &'a mut Engine<'tcx>,
    inst: Instance<'tcx>,
    mir: &'a mir::Body<'tcx>,
}

impl<'a, 'tcx> Cc<'a, 'tcx> {
    fn compile(mut self) -> Body<'tcx> {
        let tcx = self.e.tcx;
        let mut locals = vec![];
        for d in self.mir.local_decls.iter() {
            locals.push(Local { ty: d.ty, ly: self.e.ly(d.ty).ok() });
        }
        let mut blocks = vec![];
        for bb in self.mir.basic_blocks.iter() {
            let mut stmts = vec![];
            for s in &bb.statements {
                if let Some(x) = self.stmt(s) {
                    stmts.push((x, s.source_info.span));
                }
            }
            let tm = bb.terminator();
            let term = self.term(tm).unwrap_or_else(Tm::Unsup);
            blocks.push(Block { stmts, term, span: tm.source_info.span });
        }
        let ipdom = ipdom(&blocks);
        let did = self.inst.def_id();
        let name = format!("{}", self.inst);
        let cr = tcx.crate_name(did.krate);
        Body {
            inst: self.inst,
            name,
            short: tcx.def_path_str(did),
            local_crate: cr.as_str().starts_with("glicol"),
            blocks,
            locals,
            args: self.mir.arg_count,
            spread: self.mir.spread_arg.map(|l| l.as_usize()),
            ipdom,
            track_caller: self.inst.def.requires_caller_location(tcx),
        }
    }
    fn ty_of(&self, o: &mir::Operand<'tcx>) -> Ty<'tcx> {
        o.ty(&self.mir.local_decls, self.e.tcx)
    }
    fn place(&mut self, p: &mir::Place<'tcx>) -> Result<Place<'tcx>, String> {
        let tcx = self.e.tcx;
        let cx = self.e.cx();
        let mut pt = mir::PlaceTy::from_ty(self.mir.local_decls[p.local].ty);
        let mut steps: Vec<Step<'tcx>> = vec![];
        for el in p.projection.iter() {
            match el {
                mir::ProjectionElem::Deref => {
                    let pointee = pt.ty.builtin_deref(true).ok_or_else(|| format!("deref of {:?}", pt.ty))?;
                    steps.push(Step::Deref { fat: self.e.is_fat_pointee(pointee) });
                }
                mir::ProjectionElem::Field(f, _) => {
                    let mut l = self.e.layout(pt.ty)?;
                    if let Some(v) = pt.variant_index {
                        l = l.for_variant(&cx, v);
                    }
                    let off = l.fields.offset(f.as_usize()).bytes();
                    let fl = l.field(&cx, f.as_usize());
                    let tail = if fl.is_unsized() { Some(tcx.struct_tail_for_codegen(fl.ty, self.e.env)) } else { None };
                    if matches!(tail.map(|x| x.kind().clone()), Some(ty::Dynamic(..))) && off != 0 {
                        steps.push(Step::DynOff(off, fl.ty));
                    } else if off != 0 {
                        if let Some(Step::Off(o)) = steps.last_mut() {
                            *o += off;
                        } else {
                            steps.push(Step::Off(off));
                        }
                    }
                }
                mir::ProjectionElem::Downcast(..) => {}
                mir::ProjectionElem::Index(l) => {
                    let (el, len) = self.elem(pt.ty)?;
                    steps.push(Step::Index { local: l.as_usize(), stride: self.e.layout(el)?.size.bytes(), len });
                }
                mir::ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    let (el, len) = self.elem(pt.ty)?;
                    steps.push(Step::ConstIdx { off: offset, stride: self.e.layout(el)?.size.bytes(), from_end, len });
                }
                mir::ProjectionElem::Subslice { from, to, from_end } => {
                    let (el, len) = self.elem(pt.ty)?;
                    steps.push(Step::Sub { from, to, stride: self.e.layout(el)?.size.bytes(), from_end, len });
                }
                mir::ProjectionElem::OpaqueCast(_) => {}
                _ => return Err(format!("projection {:?}", el)),
            }
            pt = pt.projection_ty(tcx, el);
        }
        let ty = pt.ty;
        let fat = self.e.is_fat_pointee(ty);
        let ly = if pt.variant_index.is_some() {
            Ly { size: 0, align: 1, abi: Abi::Mem }
        } else {
            self.e.ly(ty)?
        };
        Ok(Place { local: p.local.as_usize(), steps, ty, ly, fat })
    }
    fn elem(&self, ty: Ty<'tcx>) -> Result<(Ty<'tcx>, Option<u64>), String> {
        match ty.kind() {
            ty::Array(e, n) => Ok((*e, Some(n.try_to_target_usize(self.e.tcx).ok_or("array len")?))),
            ty::Slice(e) => Ok((*e, None)),
            ty::Str => Ok((self.e.tcx.types.u8, None)),
            _ => Err(format!("index into {:?}", ty)),
        }
    }
    fn opd(&mut self, o: &mir::Operand<'tcx>) -> Opd<'tcx> {
        match self.opd_(o) {
            Ok(o) => o,
            Err(e) => Opd::Unsup(e),
        }
    }
    fn opd_(&mut self, o: &mir::Operand<'tcx>) -> Result<Opd<'tcx>, String> {
        match o {
            mir::Operand::Copy(p) | mir::Operand::Move(p) => Ok(Opd::P(self.place(p)?)),
            mir::Operand::Constant(c) => {
                let ty = c.const_.ty();
                if self.e.ly(ty)?.size == 0 {
                    // still evaluate: const panics are compile-time errors, ignore
                    return Ok(Opd::C(Val::Zst, ty));
                }
                let cv = c.const_.eval(self.e.tcx, self.e.env, c.span).map_err(|e| format!("const eval {:?}", e))?;
                Ok(Opd::C(self.e.const_val(cv, ty)?, ty))
            }
            mir::Operand::RuntimeChecks(_) => Ok(Opd::C(Val::S(Sc::T(t::b(false)), 1), self.e.tcx.types.bool)),
        }
    }
    fn stmt(&mut self, s: &mir::Statement<'tcx>) -> Option<St<'tcx>> {
        use mir::StatementKind::*;
        let r = match &s.kind {
            Assign(b) => (|| Ok(St::Assign(self.place(&b.0)?, self.rv(&b.1, &b.0)?)))(),
            SetDiscriminant { place, variant_index } => (|| {
                let p = self.place(place)?;
                let d = self.e.discr_of(p.ty)?;
                Ok(St::SetDiscr(p, d, variant_index.as_usize()))
            })(),
            StorageLive(l) | StorageDead(l) => Ok(St::Live(l.as_usize())),
            Intrinsic(i) => match &**i {
                mir::NonDivergingIntrinsic::Assume(o) => Ok(St::Assume(self.opd(o))),
                mir::NonDivergingIntrinsic::CopyNonOverlapping(c) => (|| {
                    let ty = self.ty_of(&c.src).builtin_deref(true).ok_or("deref")?;
                    let sz = self.e.layout(ty)?.size.bytes();
                    Ok(St::CopyNo(self.opd(&c.src), self.opd(&c.dst), self.opd(&c.count), sz))
                })(),
            },
            _ => return None,
        };
        Some(r.unwrap_or_else(|e: String| St::Unsup(e)))
    }
    fn rv(&mut self, r: &mir::Rvalue<'tcx>, dest: &mir::Place<'tcx>) -> Result<Rv<'tcx>, String> {
        use mir::Rvalue::*;
        let tcx = self.e.tcx;
        Ok(match r {
            Use(o, _) => Rv::Use(self.opd_(o)?),
            Repeat(o, n) => {
                let ty = self.ty_of(o);
                Rv::Repeat(self.opd_(o)?, n.try_to_target_usize(tcx).ok_or("repeat count")?, self.e.layout(ty)?.size.bytes())
            }
            Ref(_, _, p) | RawPtr(_, p) => Rv::Addr(self.place(p)?),
            Reborrow(_, _, p) => Rv::Use(Opd::P(self.place(p)?)),
            ThreadLocalRef(d) => Rv::Tls(*d),
            Cast(k, o, ty) => self.cast(*k, o, *ty)?,
            BinaryOp(op, ab) => {
                let ta = self.ty_of(&ab.0);
                let tb = self.ty_of(&ab.1);
                let p = self.e.prim(ta);
                let rw = match self.e.prim(tb) {
                    Prim::Int(w, _) => w,
                    _ => 64,
                };
                let stride = if let mir::BinOp::Offset = op {
                    self.e.layout(ta.builtin_deref(true).ok_or("deref")?)?.size.bytes()
                } else {
                    // offset of the overflow flag in the result pair
                    let dty = dest.ty(&self.mir.local_decls, tcx).ty;
                    match dty.kind() {
                        ty::Tuple(l) if l.len() == 2 => self.e.layout(dty)?.fields.offset(1).bytes(),
                        _ => 0,
                    }
                };
                Rv::Bin(*op, self.opd_(&ab.0)?, self.opd_(&ab.1)?, p, rw, stride)
            }
            UnaryOp(op, o) => {
                let p = self.e.prim(self.ty_of(o));
                match op {
                    mir::UnOp::Not => Rv::Not(self.opd_(o)?, p),
                    mir::UnOp::Neg => Rv::Neg(self.opd_(o)?, p),
                    mir::UnOp::PtrMetadata => Rv::Meta(self.opd_(o)?),
                }
            }
            Discriminant(p) => {
                let pl = self.place(p)?;
                let dt = pl.ty.discriminant_ty(tcx);
                let w = match self.e.prim(dt) {
                    Prim::Int(w, _) => w,
                    _ => 8,
                };
                let d = self.e.discr_of(pl.ty)?;
                Rv::Discr(pl, d, w)
            }
            Aggregate(k, ops) => {
                let dty = dest.ty(&self.mir.local_decls, tcx).ty;
                if let mir::AggregateKind::RawPtr(..) = &**k {
                    let a = self.opd_(&ops[FieldIdx::from_usize(0)])?;
                    let m = self.opd_(&ops[FieldIdx::from_usize(1)])?;
                    return Ok(Rv::FatPtr(a, m));
                }
                let l = self.e.layout(dty)?;
                let cx = self.e.cx();
                let mut fl = l;
                let mut d = None;
                let mut union_field = None;
                match &**k {
                    mir::AggregateKind::Adt(_, v, _, _, uf) => {
                        union_field = *uf;
                        if uf.is_none() {
                            fl = l.for_variant(&cx, *v);
                            if let ty::Adt(ad, _) = dty.kind() {
                                if ad.is_enum() {
                                    d = Some((self.e.discr_of(dty)?, v.as_usize()));
                                }
                            }
                        }
                    }
                    mir::AggregateKind::Coroutine(..) | mir::AggregateKind::CoroutineClosure(..) => return Err("coroutine".into()),
                    _ => {}
                }
                let mut v = vec![];
                if let ty::Array(e, _) = dty.kind() {
                    let s = self.e.layout(*e)?.size.bytes();
                    for (i, o) in ops.iter().enumerate() {
                        v.push((s * i as u64, self.opd_(o)?));
                    }
                } else {
                    for (i, o) in ops.iter_enumerated() {
                        let i = union_field.unwrap_or(i);
                        v.push((fl.fields.offset(i.as_usize()).bytes(), self.opd_(o)?));
                    }
                }
                Rv::Agg(v, d)
            }
            CopyForDeref(p) => Rv::Use(Opd::P(self.place(p)?)),
            x => return Err(format!("rvalue {:?}", x)),
        })
    }
    fn cast(&mut self, k: mir::CastKind, o: &mir::Operand<'tcx>, to: Ty<'tcx>) -> Result<Rv<'tcx>, String> {
        use mir::CastKind::*;
        let tcx = self.e.tcx;
        let from = self.ty_of(o);
        let (pf, pt) = (self.e.prim(from), self.e.prim(to));
        let op = self.opd_(o)?;
        Ok(match k {
            PointerExposeProvenance | PointerWithExposedProvenance => Rv::Transmute(op),
            IntToInt => {
                let mut pf = pf;
                if pf == Prim::Other {
                    // enum to int is Discriminant + IntToInt in MIR; be safe
                    pf = Prim::Int(self.e.layout(from)?.size.bits() as u32, false);
                }
                Rv::IntToInt(op, pf, pt)
            }
            FloatToInt => Rv::FToI(op, pf, pt),
            FloatToFloat => Rv::FToF(op, pf, pt),
            IntToFloat => Rv::IToF(op, pf, pt),
            PtrToPtr | FnPtrToPtr => Rv::PtrToPtr(op, pf == Prim::Fat && pt != Prim::Fat),
            Transmute | BoxDerefTransmute | Subtype => Rv::Transmute(op),
            PointerCoercion(c, _) => {
                use ty::adjustment::PointerCoercion::*;
                match c {
                    ReifyFnPointer(_) => match from.kind() {
                        ty::FnDef(d, a) => Rv::Reify(
                            Instance::resolve_for_fn_ptr(tcx, self.e.env, *d, a.no_bound_vars().ok_or("bound vars")?).ok_or("reify")?,
                        ),
                        _ => return Err("reify".into()),
                    },
                    ClosureFnPointer(_) => match from.kind() {
                        ty::Closure(d, a) => Rv::Reify(Instance::resolve_closure(tcx, *d, a, ty::ClosureKind::FnOnce)),
                        _ => return Err("closure fn ptr".into()),
                    },
                    UnsafeFnPointer | MutToConstPointer => Rv::Use(op),
                    ArrayToPointer => Rv::Use(op),
                    Unsize => Rv::Unsize(op, from, to),
                }
            }
        })
    }
    fn term(&mut self, tm: &mir::Terminator<'tcx>) -> Result<Tm<'tcx>, String> {
        use mir::TerminatorKind::*;
        let tcx = self.e.tcx;
        Ok(match &tm.kind {
            Goto { target, .. } => Tm::Goto(target.as_usize()),
            SwitchInt { discr, targets } => {
                let p = self.e.prim(self.ty_of(discr));
                Tm::Switch(
                    self.opd_(discr)?,
                    p,
                    targets.iter().map(|(v, b)| (v, b.as_usize())).collect(),
                    targets.otherwise().as_usize(),
                )
            }
            UnwindResume | UnwindTerminate(_) => Tm::Resume,
            Return => Tm::Ret,
            Unreachable => Tm::Unreachable,
            Drop { place, target, .. } => Tm::Drop(self.place(place)?, target.as_usize()),
            Call { func, args, destination, target, .. } => {
                let fty = self.ty_of(func);
                let mut rust_call = false;
                let f = match fty.kind() {
                    ty::FnDef(d, a) => {
                        let a = a.no_bound_vars().ok_or("bound vars")?;
                        let sig = tcx.fn_sig(*d).skip_binder();
                        rust_call = sig.abi() == rustc_abi::ExternAbi::RustCall;
                        match Instance::try_resolve(tcx, self.e.env, *d, a) {
                            Ok(Some(i)) => Callee::Fixed(i),
                            _ => Callee::Unsup(format!("cannot resolve {:?}", fty)),
                        }
                    }
                    ty::FnPtr(..) => Callee::Ptr(self.opd_(func)?),
                    _ => Callee::Unsup(format!("callee {:?}", fty)),
                };
                let mut a = vec![];
                let mut at = vec![];
                for x in args.iter() {
                    at.push(self.ty_of(&x.node));
                    a.push(self.opd(&x.node));
                }
                Tm::Call { f, args: a, arg_tys: at, dest: self.place(destination)?, target: target.map(|t| t.as_usize()), rust_call }
            }
            Assert { cond, expected, msg, target, .. } => {
                let m = match &**msg {
                    mir::AssertKind::BoundsCheck { .. } => "index in bounds".to_string(),
                    mir::AssertKind::Overflow(op, ..) => format!("no overflow in {:?}", op),
                    mir::AssertKind::OverflowNeg(..) => "no overflow in Neg".to_string(),
                    mir::AssertKind::DivisionByZero(..) => "divisor not zero".to_string(),
                    mir::AssertKind::RemainderByZero(..) => "modulus not zero".to_string(),
                    mir::AssertKind::MisalignedPointerDereference { .. } => "pointer aligned".to_string(),
                    mir::AssertKind::NullPointerDereference => "pointer not null".to_string(),
                    _ => "assertion".to_string(),
                };
                Tm::Assert { cond: self.opd_(cond)?, expected: *expected, msg: m, target: target.as_usize() }
            }
            FalseEdge { real_target, .. } | FalseUnwind { real_target, .. } => Tm::Goto(real_target.as_usize()),
            x => Tm::Unsup(format!("terminator {:?}", x)),
        })
    }
}

fn succs(t: &Tm) -> Vec<usize> {
    match t {
        Tm::Goto(b) => vec![*b],
        Tm::Switch(_, _, v, o) => v.iter().map(|x| x.1).chain([*o]).collect(),
        Tm::Drop(_, b) => vec![*b],
        Tm::Call { target, .. } => target.iter().copied().collect(),
        Tm::Assert { target, .. } => vec![*target],
        _ => vec![],
    }
}

/// immediate post-dominators among the blocks that can reach a return
fn ipdom(blocks: &[Block]) -> Vec<Option<usize>> {
    let n = blocks.len();
    let exit = n;
    let mut preds: Vec<Vec<usize>> = vec![vec![]; n + 1];
    let mut succ: Vec<Vec<usize>> = vec![vec![]; n + 1];
    for (i, b) in blocks.iter().enumerate() {
        let mut s = succs(&b.term);
        if let Tm::Ret = b.term {
            s.push(exit);
        }
        s.sort();
        s.dedup();
        for &x in &s {
            preds[x].push(i);
        }
        succ[i] = s;
    }
    // reverse postorder on the reversed graph from exit
    let mut order = vec![];
    let mut seen = vec![false; n + 1];
    let mut stack = vec![(exit, 0usize)];
    seen[exit] = true;
    while let Some((x, i)) = stack.pop() {
        if i < preds[x].len() {
            stack.push((x, i + 1));
            let p = preds[x][i];
            if !seen[p] {
                seen[p] = true;
                stack.push((p, 0));
            }
        } else {
            order.push(x);
        }
    }
    order.reverse();
    let mut num = vec![usize::MAX; n + 1];
    for (i, x) in order.iter().enumerate() {
        num[*x] = i;
    }
    let mut idom: Vec<Option<usize>> = vec![None; n + 1];
    idom[exit] = Some(exit);
    let mut ch = true;
    while ch {
        ch = false;
        for &x in order.iter().skip(1) {
            let mut new: Option<usize> = None;
            for &s in &succ[x] {
                if !seen[s] || idom[s].is_none() {
                    continue;
                }
                new = Some(match new {
                    None => s,
                    Some(mut a) => {
                        let mut b = s;
                        while a != b {
                            while num[a] > num[b] {
                                a = idom[a].unwrap();
                            }
                            while num[b] > num[a] {
                                b = idom[b].unwrap();
                            }
                        }
                        a
                    }
                });
            }
            if new.is_some() && idom[x] != new {
                idom[x] = new;
                ch = true;
            }
        }
    }
    (0..n).map(|i| idom[i].filter(|x| *x != exit)).collect()
}
