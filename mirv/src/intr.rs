//! Intrinsics.
use crate::body::*;
use crate::exec::*;
use crate::mem::*;
use crate::term::{self as t, Op, Sort, T};
use rustc_middle::mir::BinOp;
use rustc_middle::ty::{self, Instance, Ty};
use rustc_span::def_id::DefId;

fn s(x: T, n: u8) -> Val {
    Val::S(Sc::T(x), n)
}

impl<'tcx> Engine<'tcx> {
    pub fn intrinsic(
        &mut self,
        st: &mut State<'tcx>,
        d: DefId,
        inst: Instance<'tcx>,
        vals: Vec<Val>,
        arg_tys: &[Ty<'tcx>],
        dest: Option<(Pl, Ly)>,
        target: Option<usize>,
    ) -> R<Flow<'tcx>> {
        let tcx = self.tcx;
        let name = tcx.item_name(d).to_string();
        let targ = |i: usize| inst.args.type_at(i);
        let dn = dest.as_ref().map_or(0, |d| d.1.size as u8);
        let v: Val = match name.as_str() {
            "size_of" => s(t::c64(self.layout(targ(0))?.size.bytes()), 8),
            "align_of" | "min_align_of" => s(t::c64(self.layout(targ(0))?.align.abi.bytes()), 8),
            "size_of_val" | "align_of_val" => {
                let m = match &vals[0] {
                    Val::Pair(_, _, _, _, _, m) => Some(m.clone()),
                    _ => None,
                };
                let (sz, al) = self.size_align(st, targ(0), m.as_ref())?;
                s(if name == "size_of_val" { sz } else { t::c64(al) }, 8)
            }
            "vtable_size" | "vtable_align" => {
                let p = self.scalar_of(&vals[0])?;
                let a = match p {
                    Sc::P(a, _) => a,
                    _ => return un("vtable"),
                };
                let ty = match self.globals.get(&a).map(|o| o.kind.clone()) {
                    Some(Kind::VTable(ty, _)) => ty,
                    _ => return un("vtable"),
                };
                let l = self.layout(ty)?;
                s(t::c64(if name == "vtable_size" { l.size.bytes() } else { l.align.abi.bytes() }), 8)
            }
            "needs_drop" => s(t::b(targ(0).needs_drop(tcx, self.env)), 1),
            "type_id" | "type_name" | "variant_count" | "offset_of" => {
                let id = mir_const(self, inst)?;
                id
            }
            "transmute" | "transmute_unchecked" => vals[0].clone(),
            "black_box" => vals[0].clone(),
            "forget" => Val::Zst,
            "assert_inhabited" | "assert_zero_valid" | "assert_mem_uninitialized_valid" | "cold_path" => Val::Zst,
            "likely" | "unlikely" => vals[0].clone(),
            "assume" => {
                let c = self.bool_of(&vals[0])?;
                self.assume(st, c);
                Val::Zst
            }
            "is_val_statically_known" | "ub_checks" | "contract_checks" => s(t::b(false), 1),
            "overflow_checks" => s(t::b(true), 1),
            "abort" | "abort_immediate" => {
                self.oblige(st, t::b(false), "no panic: abort".into())?;
                return Err(E::Dead);
            }
            "unreachable" => {
                self.oblige(st, t::b(false), "unreachable code is not reached".into())?;
                return Err(E::Dead);
            }
            "select_unpredictable" => {
                let c = self.bool_of(&vals[0])?;
                if let (Val::S(a, n), Val::S(b, _)) = (&vals[1], &vals[2]) {
                    match merge_sc(c, a, b, *n) {
                        Some(x) => Val::S(x, *n),
                        None => return Err(E::Fork(vec![c, t::not(c)])),
                    }
                } else if st.pc.contains(&c) || t::as_bool_const(c) == Some(true) {
                    vals[1].clone()
                } else if st.pc.contains(&t::not(c)) || t::as_bool_const(c) == Some(false) {
                    vals[2].clone()
                } else {
                    return Err(E::Fork(vec![c, t::not(c)]));
                }
            }
            "caller_location" => {
                let id = tcx.const_caller_location(rustc_span::sym::empty, 0, 0);
                self.const_val(id, self.layout(tcx.types.usize).map(|l| l.ty)?).unwrap_or(s(t::c64(0), 8))
            }
            "offset" | "arith_offset" => {
                let el = targ(0);
                let el = if name == "offset" { el.builtin_deref(true).unwrap_or(el) } else { el };
                let sz = self.layout(el)?.size.bytes();
                let p = self.scalar_of(&vals[0])?;
                let n = self.int_of(&vals[1])?;
                Val::S(ptr_add(&p, t::mul(n, t::c64(sz))), 8)
            }
            "ptr_offset_from" | "ptr_offset_from_unsigned" => {
                let sz = self.layout(targ(0))?.size.bytes();
                let (a, b) = (self.scalar_of(&vals[0])?, self.scalar_of(&vals[1])?);
                let df = match (&a, &b) {
                    (Sc::P(x, o), Sc::P(y, q)) if x == y => t::sub(*o, *q),
                    _ => t::sub(self.int_sc(&a)?, self.int_sc(&b)?),
                };
                s(exact_div(df, sz), 8)
            }
            "ptr_mask" => {
                let p = self.scalar_of(&vals[0])?;
                let m = self.int_of(&vals[1])?;
                s(t::bin(Op::BAnd, self.int_sc(&p)?, m), 8)
            }
            "ptr_metadata" => match &vals[0] {
                Val::Pair(_, _, _, _, _, m) => Val::S(m.clone(), 8),
                _ => Val::Zst,
            },
            "aggregate_raw_ptr" => match &vals[1] {
                Val::Zst => vals[0].clone(),
                m => Val::Pair(0, 8, self.scalar_of(&vals[0])?, 8, 8, self.scalar_of(m)?),
            },
            "slice_get_unchecked" => {
                let (p, _) = match &vals[0] {
                    Val::Pair(_, _, p, _, _, m) => (p.clone(), m.clone()),
                    _ => return un("slice_get_unchecked"),
                };
                let el = targ(2);
                let sz = self.layout(el)?.size.bytes();
                let n = self.int_of(&vals[1])?;
                Val::S(ptr_add(&p, t::mul(n, t::c64(sz))), 8)
            }
            "read_via_copy" | "volatile_load" | "unaligned_volatile_load" | "atomic_load" => {
                let p = self.scalar_of(&vals[0])?;
                let ly = self.ly(targ(0))?;
                self.load_ptr(st, &p, ly)?
            }
            "write_via_move" | "volatile_store" | "unaligned_volatile_store" | "atomic_store" => {
                let p = self.scalar_of(&vals[0])?;
                self.store_ptr(st, &p, &vals[1])?;
                Val::Zst
            }
            "copy" | "copy_nonoverlapping" | "volatile_copy_memory" | "volatile_copy_nonoverlapping_memory" => {
                let sz = self.layout(targ(0))?.size.bytes();
                let (a, b) = if name.starts_with("volatile") { (1, 0) } else { (0, 1) };
                self.copy(st, &vals[a], &vals[b], &vals[2], sz)?;
                Val::Zst
            }
            "write_bytes" | "volatile_set_memory" => {
                let sz = self.layout(targ(0))?.size.bytes();
                let n = self.int_of(&vals[2])?;
                let n = self.conc(st, n)? * sz;
                let b = self.int_of(&vals[1])?;
                let p = self.scalar_of(&vals[0])?;
                if n > 0 {
                    let mut cells = vec![];
                    let mut i = 0;
                    while i < n {
                        let k = if sz <= 8 && sz > 0 && sz.is_power_of_two() { sz } else if n - i >= 8 { 8 } else { 1 };
                        let mut x = b;
                        for _ in 1..k {
                            x = t::concat(b, x);
                        }
                        cells.push((i, k as u8, Sc::T(x)));
                        i += k;
                    }
                    self.store_ptr(st, &p, &Val::Mem(std::rc::Rc::new(cells), n))?;
                }
                Val::Zst
            }
            "compare_bytes" => {
                let n = self.int_of(&vals[2])?;
                let n = self.conc(st, n)?;
                let (p, q) = (self.scalar_of(&vals[0])?, self.scalar_of(&vals[1])?);
                let mut r = t::c(32, 0);
                for i in (0..n).rev() {
                    let l1 = Ly { size: 1, align: 1, abi: Abi::Scalar(1) };
                    let x = self.load_ptr(st, &ptr_add(&p, t::c64(i)), l1)?;
                    let y = self.load_ptr(st, &ptr_add(&q, t::c64(i)), l1)?;
                    let (x, y) = (bv(self.int_of(&x)?, 8), bv(self.int_of(&y)?, 8));
                    r = t::ite(t::eq(x, y), r, t::ite(t::ult(x, y), t::c(32, 0xffff_ffff), t::c(32, 1)));
                }
                s(r, 4)
            }
            "raw_eq" => {
                let ly = self.ly(targ(0))?;
                let (p, q) = (self.scalar_of(&vals[0])?, self.scalar_of(&vals[1])?);
                let mut r = t::b(true);
                for i in 0..ly.size {
                    let l1 = Ly { size: 1, align: 1, abi: Abi::Scalar(1) };
                    let x = self.load_ptr(st, &ptr_add(&p, t::c64(i)), l1)?;
                    let y = self.load_ptr(st, &ptr_add(&q, t::c64(i)), l1)?;
                    let (x, y) = (bv(self.int_of(&x)?, 8), bv(self.int_of(&y)?, 8));
                    r = t::and(r, t::eq(x, y));
                }
                s(r, 1)
            }
            "typed_swap_nonoverlapping" => {
                let ly = self.ly(targ(0))?;
                let (p, q) = (self.scalar_of(&vals[0])?, self.scalar_of(&vals[1])?);
                let x = self.load_ptr(st, &p, ly)?;
                let y = self.load_ptr(st, &q, ly)?;
                self.store_ptr(st, &p, &y)?;
                self.store_ptr(st, &q, &x)?;
                Val::Zst
            }
            "discriminant_value" => {
                let ty = targ(0);
                let p = self.scalar_of(&vals[0])?;
                let dt = ty.discriminant_ty(tcx);
                let w = self.layout(dt)?.size.bits() as u32;
                let dd = self.discr_of(ty)?;
                let x = self.discr_at(st, &p, &dd, w)?;
                s(x, (w / 8) as u8)
            }
            "const_eval_select" => {
                // call the runtime version with the untupled arguments
                let f = inst.args.type_at(2);
                let (fd, fa) = match f.kind() {
                    ty::FnDef(d, a) => (*d, a.no_bound_vars().ok_or(E::Unsup("bound".into()))?),
                    _ => return un("const_eval_select"),
                };
                let i = Instance::expect_resolve(tcx, self.env, fd, fa, rustc_span::DUMMY_SP);
                let tup = inst.args.type_at(0);
                return self.call(st, i, vec![vals[0].clone()], &[tup], dest, target, true);
            }
            "catch_unwind" => {
                let fp = self.scalar_of(&vals[0])?;
                let a = match fp {
                    Sc::P(a, _) => a,
                    _ => return un("catch_unwind"),
                };
                let i = match self.globals.get(&a).map(|o| o.kind.clone()) {
                    Some(Kind::Fn(i)) => i,
                    _ => return un("catch_unwind"),
                };
                if let Some((pl, _)) = &dest {
                    self.store(st, pl, &s(t::c(32, 0), 4))?;
                }
                return self.call(st, i, vec![vals[1].clone()], &[], None, target, false);
            }
            "three_way_compare" => {
                let p = self.prim(targ(0));
                let (x, y) = (norm(self.int_of(&vals[0])?, p), norm(self.int_of(&vals[1])?, p));
                match p {
                    Prim::Int(w, sg) => int_bin(BinOp::Cmp, x, y, w, sg, w, 0)?,
                    _ => return un("three_way_compare"),
                }
            }
            "add_with_overflow" | "sub_with_overflow" | "mul_with_overflow" => {
                let (w, sg) = self.intw(targ(0))?;
                let p = Prim::Int(w, sg);
                let (x, y) = (norm(self.int_of(&vals[0])?, p), norm(self.int_of(&vals[1])?, p));
                let op = match &name[..3] {
                    "add" => BinOp::Add,
                    "sub" => BinOp::Sub,
                    _ => BinOp::Mul,
                };
                let (r, o) = overflow(op, x, y, w, sg);
                let ly = dest.as_ref().unwrap().1;
                match ly.abi {
                    Abi::Pair(a, sa, b, sb) => Val::Pair(a, sa, Sc::T(r), b, sb, Sc::T(o)),
                    _ => return un("overflow result layout"),
                }
            }
            "wrapping_add" | "wrapping_sub" | "wrapping_mul" | "unchecked_add" | "unchecked_sub" | "unchecked_mul"
            | "unchecked_div" | "unchecked_rem" | "exact_div" | "unchecked_shl" | "unchecked_shr" | "disjoint_bitor" => {
                let (w, sg) = self.intw(targ(0))?;
                let p = Prim::Int(w, sg);
                let x = norm(self.int_of(&vals[0])?, p);
                let rw = if name.contains("sh") { self.intw(targ(1)).map(|z| z.0).unwrap_or(w) } else { w };
                let y = norm(self.int_of(&vals[1])?, Prim::Int(rw, false));
                let op = match name.as_str() {
                    "wrapping_add" | "unchecked_add" => BinOp::Add,
                    "wrapping_sub" | "unchecked_sub" => BinOp::Sub,
                    "wrapping_mul" | "unchecked_mul" => BinOp::Mul,
                    "unchecked_div" | "exact_div" => BinOp::Div,
                    "unchecked_rem" => BinOp::Rem,
                    "unchecked_shl" => BinOp::Shl,
                    "unchecked_shr" => BinOp::Shr,
                    _ => BinOp::BitOr,
                };
                int_bin(op, x, y, w, sg, rw, 0)?
            }
            "saturating_add" | "saturating_sub" => {
                let (w, sg) = self.intw(targ(0))?;
                let p = Prim::Int(w, sg);
                let (x, y) = (norm(self.int_of(&vals[0])?, p), norm(self.int_of(&vals[1])?, p));
                let op = if name.ends_with("add") { BinOp::Add } else { BinOp::Sub };
                let (r, o) = overflow(op, x, y, w, sg);
                let sat = if !sg {
                    if op == BinOp::Add {
                        t::c(w, t::mask(w))
                    } else {
                        t::c(w, 0)
                    }
                } else {
                    let min = t::c(w, 1u128 << (w - 1));
                    let max = t::c(w, t::mask(w) >> 1);
                    t::ite(t::slt(x, t::c(w, 0)), min, max)
                };
                s(t::ite(o, sat, r), (w / 8) as u8)
            }
            "integer_min" | "integer_max" => {
                let (w, sg) = self.intw(targ(0))?;
                let p = Prim::Int(w, sg);
                let (x, y) = (norm(self.int_of(&vals[0])?, p), norm(self.int_of(&vals[1])?, p));
                let lt = if sg { t::slt(x, y) } else { t::ult(x, y) };
                s(if name == "integer_min" { t::ite(lt, x, y) } else { t::ite(lt, y, x) }, (w / 8) as u8)
            }
            "rotate_left" | "rotate_right" => {
                let (w, _) = self.intw(targ(0))?;
                let x = norm(self.int_of(&vals[0])?, Prim::Int(w, false));
                let k = self.int_of(&vals[1])?;
                let k = (self.conc(st, k)? % w as u64) as u128;
                let k = if name == "rotate_left" { k } else { (w as u128 - k) % w as u128 };
                let r = if k == 0 {
                    x
                } else {
                    t::bin(Op::BOr, t::bin(Op::Shl, x, t::c(w, k)), t::bin(Op::LShr, x, t::c(w, w as u128 - k)))
                };
                s(r, (w / 8) as u8)
            }
            "ctpop" | "ctlz" | "ctlz_nonzero" | "cttz" | "cttz_nonzero" => {
                let (w, _) = self.intw(targ(0))?;
                let x = norm(self.int_of(&vals[0])?, Prim::Int(w, false));
                let r = if let Some(v) = t::as_const(x) {
                    let v = v & t::mask(w);
                    let k = match name.as_str() {
                        "ctpop" => v.count_ones(),
                        "ctlz" | "ctlz_nonzero" => v.leading_zeros() - (128 - w),
                        _ => {
                            if v == 0 {
                                w
                            } else {
                                v.trailing_zeros()
                            }
                        }
                    };
                    t::c(32, k as u128)
                } else {
                    let mut r = t::c(32, if name == "ctpop" { 0 } else { w as u128 });
                    let order: Vec<u32> = if name.starts_with("ctlz") { (0..w).collect() } else { (0..w).rev().collect() };
                    for i in order {
                        let bit = t::eq(t::extract(x, i, i), t::c(1, 1));
                        r = match name.as_str() {
                            "ctpop" => t::add(r, t::ite(bit, t::c(32, 1), t::c(32, 0))),
                            "ctlz" | "ctlz_nonzero" => t::ite(bit, t::c(32, (w - 1 - i) as u128), r),
                            _ => t::ite(bit, t::c(32, i as u128), r),
                        };
                    }
                    r
                };
                s(r, 4)
            }
            "bswap" | "bitreverse" => {
                let (w, _) = self.intw(targ(0))?;
                let x = norm(self.int_of(&vals[0])?, Prim::Int(w, false));
                let k = if name == "bswap" { 8 } else { 1 };
                let mut r = None;
                for i in 0..w / k {
                    let b = t::extract(x, i * k + k - 1, i * k);
                    r = Some(match r {
                        None => b,
                        Some(z) => t::concat(z, b),
                    });
                }
                s(r.unwrap(), (w / 8) as u8)
            }
            "sqrt" | "sin" | "cos" | "exp" | "exp2" | "log" | "log10" | "log2" | "floor" | "ceil" | "trunc" | "round"
            | "round_ties_even" | "powf" | "fma" | "fmuladd" => {
                let mut a = vec![];
                for v in &vals {
                    a.push(self.int_of(v)?);
                }
                if name == "fmuladd" {
                    // may be fused or not; treated as separate rounding
                    let n = dn;
                    return self.finish(st, dest, s(t::fadd(t::fmul(a[0], a[1]), a[2]), n), target);
                }
                s(fmath(&name, &a)?, dn)
            }
            "powi" => {
                let (x, n) = (self.int_of(&vals[0])?, self.int_of(&vals[1])?);
                if let (Some(_), Some(_)) = (t::as_const(x), t::as_const(n)) {
                    s(fmath("powi", &[x, n])?, dn)
                } else {
                    match t::as_const(n).map(|v| v as u32 as i32) {
                        Some(1) => s(x, dn),
                        Some(2) => s(t::fmul(x, x), dn),
                        _ => s(t::fun("powi", &[x, n], Sort::Bv(t::width(x))), dn),
                    }
                }
            }
            "fabs" => s(t::fabs(self.int_of(&vals[0])?), dn),
            n if n.starts_with("copysign") => {
                let (x, y) = (self.int_of(&vals[0])?, self.int_of(&vals[1])?);
                let w = t::width(x);
                if t::as_const(x).is_some() && t::as_const(y).is_some() {
                    s(fmath("copysign", &[x, y])?, dn)
                } else {
                    let sign = t::extract(y, w - 1, w - 1);
                    s(t::concat(sign, t::extract(x, w - 2, 0)), dn)
                }
            }
            "fadd_fast" | "fadd_algebraic" | "fsub_fast" | "fsub_algebraic" | "fmul_fast" | "fmul_algebraic" | "fdiv_fast" | "fdiv_algebraic" => {
                let (x, y) = (self.int_of(&vals[0])?, self.int_of(&vals[1])?);
                s(
                    match &name[..4] {
                        "fadd" => t::fadd(x, y),
                        "fsub" => t::fsub(x, y),
                        "fmul" => t::fmul(x, y),
                        _ => t::fdiv(x, y),
                    },
                    dn,
                )
            }
            "float_to_int_unchecked" => {
                let x = self.int_of(&vals[0])?;
                let (w, sg) = self.intw(targ(1))?;
                s(f2i(x, w, sg), dn)
            }
            "atomic_xadd" | "atomic_xsub" | "atomic_xchg" | "atomic_and" | "atomic_or" | "atomic_xor" => {
                let p = self.scalar_of(&vals[0])?;
                let ly = self.ly(targ(0))?;
                let old = self.load_ptr(st, &p, ly)?;
                let new = if name == "atomic_xchg" {
                    vals[1].clone()
                } else {
                    let (w, _) = (ly.size as u32 * 8, 0);
                    let (x, y) = (bv(self.int_of(&old)?, w), bv(self.int_of(&vals[1])?, w));
                    s(
                        match name.as_str() {
                            "atomic_xadd" => t::add(x, y),
                            "atomic_xsub" => t::sub(x, y),
                            "atomic_and" => t::bin(Op::BAnd, x, y),
                            "atomic_or" => t::bin(Op::BOr, x, y),
                            _ => t::bin(Op::BXor, x, y),
                        },
                        ly.size as u8,
                    )
                };
                self.store_ptr(st, &p, &new)?;
                old
            }
            "atomic_cxchg" | "atomic_cxchgweak" => {
                let p = self.scalar_of(&vals[0])?;
                let ly = self.ly(targ(0))?;
                let old = self.load_ptr(st, &p, ly)?;
                let (x, y) = (self.int_of(&old)?, self.int_of(&vals[1])?);
                let w = ly.size as u32 * 8;
                let e = t::eq(bv(x, w), bv(y, w));
                match t::as_bool_const(e) {
                    Some(true) => self.store_ptr(st, &p, &vals[2])?,
                    Some(false) => {}
                    None => return un("symbolic compare exchange"),
                }
                let dl = dest.as_ref().unwrap().1;
                match dl.abi {
                    Abi::Pair(a, sa, b, sb) => Val::Pair(a, sa, self.scalar_of(&old)?, b, sb, Sc::T(e)),
                    _ => return un("cxchg layout"),
                }
            }
            "atomic_fence" | "atomic_singlethreadfence" | "prefetch_read_data" | "prefetch_write_data" => Val::Zst,
            _ => {
                // fallback body
                if tcx.intrinsic(d).map_or(true, |i| i.must_be_overridden) {
                    return un(format!("intrinsic {}", name));
                }
                let i = Instance { def: ty::InstanceKind::Item(d), args: inst.args };
                if target.is_none() {
                    return un(format!("diverging intrinsic {}", name));
                }
                self.push_frame(st, i, vals, dest, target)?;
                let _ = arg_tys;
                return Ok(Flow::Next);
            }
        };
        self.finish(st, dest, v, target)
    }
    fn intw(&self, ty: Ty<'tcx>) -> R<(u32, bool)> {
        match self.prim(ty) {
            Prim::Int(w, s) => Ok((w, s)),
            Prim::Bool => Ok((8, false)),
            Prim::Ptr => Ok((64, false)),
            _ => un(format!("integer type expected, found {:?}", ty)),
        }
    }
}

fn exact_div(x: T, n: u64) -> T {
    if n == 1 {
        return x;
    }
    if let Some(v) = t::as_const(x) {
        return t::c64(((v as u64 as i64) / n as i64) as u64);
    }
    if let t::K::A2(Op::Mul, p, q) = t::kind(x) {
        if t::as_const(q) == Some(n as u128) {
            return p;
        }
    }
    let (b, o) = t::base_off(x);
    if b != x && (o as u64 as i64) % n as i64 == 0 {
        return t::add(exact_div(b, n), t::c64(((o as u64 as i64) / n as i64) as u64));
    }
    t::bin(Op::SDiv, x, t::c64(n))
}

fn mir_const<'tcx>(e: &mut Engine<'tcx>, inst: Instance<'tcx>) -> R<Val> {
    let tcx = e.tcx;
    let name = tcx.item_name(inst.def_id()).to_string();
    match name.as_str() {
        "type_id" => {
            let k = e.type_hash(inst.args.type_at(0));
            Ok(Val::Mem(
                std::rc::Rc::new(vec![(0, 8, Sc::T(t::c64(k))), (8, 8, Sc::T(t::c64(k.rotate_left(17))))]),
                16,
            ))
        }
        _ => un(format!("intrinsic {}", name)),
    }
}
