//! Symbolic execution of MIR: generates and discharges the obligations.
use crate::body::*;
use crate::mem::*;
use crate::smt::{Res, Smt};
use crate::term::{self as t, Op, Sort, T};
use rustc_middle::mir::{self, BinOp};
use rustc_middle::ty::{self, Instance, Ty, TyCtxt};
use rustc_span::def_id::DefId;
use rustc_span::Span;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;

#[derive(Debug)]
pub enum E {
    /// re-execute the statement under each of these conditions
    Fork(Vec<T>),
    /// re-execute with the term made concrete
    Conc(T),
    Unsup(String),
    Dead,
}
pub type R<X> = Result<X, E>;
impl From<String> for E {
    fn from(s: String) -> E {
        E::Unsup(s)
    }
}
pub fn un<X>(s: impl Into<String>) -> R<X> {
    Err(E::Unsup(s.into()))
}

#[derive(Clone, Debug)]
pub struct Pl {
    pub a: Aid,
    pub off: T,
    pub meta: Option<Sc>,
}

#[derive(Clone)]
pub struct Frame<'tcx> {
    pub body: Rc<Body<'tcx>>,
    pub base: Aid,
    pub bb: usize,
    pub stmt: usize,
    pub ret: Option<(Pl, Ly)>,
    pub target: Option<usize>,
}

#[derive(Clone)]
pub struct State<'tcx> {
    pub mem: Mem<'tcx>,
    pub frames: Vec<Frame<'tcx>>,
    pub pc: Vec<T>,
    pub known: Rc<BTreeMap<T, u128>>,
    pub tape: Vec<(T, u8)>,
}

pub enum Flow<'tcx> {
    Next,
    Branch(Vec<(T, usize)>),
    /// alternatives explored to the end of the harness separately
    Split(Vec<(Option<T>, Val, Pl, Ly, usize)>),
    Forall(ForallCall<'tcx>),
}
pub struct ForallCall<'tcx> {
    pub label: String,
    pub s: Val,
    pub inv: Val,
    pub finv: Instance<'tcx>,
    pub body: Val,
    pub fbody: Instance<'tcx>,
    pub target: usize,
}

#[derive(Clone, Copy, PartialEq)]
pub struct Stop {
    pub depth: usize,
    pub bb: Option<usize>,
}

#[derive(Clone, Debug, Default)]
pub struct ObStat {
    pub total: u64,
    pub trivial: u64,
    pub smt: u64,
    pub ival: u64,
    pub real: u64,
    pub failed: u64,
    pub unknown: u64,
    pub loc: String,
    pub detail: String,
    pub tape: Option<Vec<u128>>,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Hook {
    No,
    Any(u8, bool),
    Assume,
    NoWrap,
    Check,
    CheckF,
    Cover,
    Forall,
    Choose,
    Note,
    Never,
    Alloc,
    AllocZ,
    Realloc,
    Dealloc,
    Nop,
    /// returns `None::<usize>`
    NoneUsize,
    NoneBool,
    /// fixed keys of the std hasher
    Keys,
    Math(u8),
    Symbolic,
}

pub struct Engine<'tcx> {
    pub tcx: TyCtxt<'tcx>,
    pub env: ty::TypingEnv<'tcx>,
    pub bodies: HashMap<Instance<'tcx>, Rc<Body<'tcx>>>,
    pub globals: HashMap<Aid, Rc<Obj<'tcx>>>,
    pub global_ids: HashMap<mir::interpret::AllocId, Aid>,
    pub fn_ids: HashMap<Instance<'tcx>, Aid>,
    pub vt_ids: HashMap<(Ty<'tcx>, Option<ty::ExistentialTraitRef<'tcx>>), Aid>,
    pub tls_ids: HashMap<DefId, Aid>,
    pub hooks: HashMap<DefId, Hook>,
    pub next_id: Aid,
    pub smt: Smt,
    /// coarser and faster: only its refutations count
    pub prune: Smt,
    var_sets: HashMap<T, Rc<Vec<u32>>>,
    pub obs: BTreeMap<String, ObStat>,
    pub covers: BTreeMap<String, bool>,
    pub dry: bool,
    pub funs: BTreeMap<String, u64>,
    pub steps: u64,
    pub forks: u64,
    pub merges: u64,
    pub deadline: std::time::Instant,
    pub notes: Vec<String>,
    pub unroll: Option<usize>,
    pub math: Vec<String>,
    pub assumed: BTreeSet<String>,
    /// 64-bit counters that go up by one are taken not to overflow
    pub no_wrap: bool,
    pub bounded: bool,
    pub loops: Vec<String>,
    pub nomerge: bool,
    /// frame depth at which `choose` alternatives end, and the states that got there
    base: usize,
    escaped: Vec<State<'tcx>>,
    pub trace: bool,
}

pub fn read_ly(o: &Obj, off: u64, ly: Ly) -> Val {
    match ly.abi {
        Abi::Zst => Val::Zst,
        Abi::Scalar(s) => Val::S(o.read(off, s), s),
        Abi::Pair(a, sa, b, sb) => Val::Pair(a, sa, o.read(off + a, sa), b, sb, o.read(off + b, sb)),
        Abi::Mem => {
            if ly.size == 0 {
                Val::Zst
            } else {
                Val::Mem(Rc::new(o.range(off, ly.size)), ly.size)
            }
        }
    }
}

fn write_obj(o: &mut Obj, off: u64, v: &Val) {
    match v {
        Val::Zst => {}
        Val::S(s, n) => o.write(off, *n, s.clone()),
        Val::Pair(a, sa, x, b, sb, y) => {
            o.write(off + a, *sa, x.clone());
            o.write(off + b, *sb, y.clone());
        }
        Val::Mem(c, n) => o.write_range(off, *n, c),
    }
}

impl<'tcx> Engine<'tcx> {
    pub fn new(tcx: TyCtxt<'tcx>) -> Self {
        let secs: u64 = std::env::var("MIRV_BUDGET").ok().and_then(|s| s.parse().ok()).unwrap_or(600);
        let q: u64 = std::env::var("MIRV_QUERY_MS").ok().and_then(|s| s.parse().ok()).unwrap_or(20000);
        Engine {
            tcx,
            env: ty::TypingEnv::fully_monomorphized(),
            bodies: HashMap::new(),
            globals: HashMap::new(),
            global_ids: HashMap::new(),
            fn_ids: HashMap::new(),
            vt_ids: HashMap::new(),
            tls_ids: HashMap::new(),
            hooks: HashMap::new(),
            next_id: 16,
            smt: Smt::new(q, false),
            prune: Smt::new(q, true),
            var_sets: HashMap::new(),
            obs: BTreeMap::new(),
            covers: BTreeMap::new(),
            dry: false,
            funs: BTreeMap::new(),
            steps: 0,
            forks: 0,
            merges: 0,
            deadline: std::time::Instant::now() + std::time::Duration::from_secs(secs),
            notes: vec![],
            unroll: std::env::var("MIRV_UNROLL").ok().and_then(|s| s.parse().ok()),
            math: vec![],
            assumed: BTreeSet::new(),
            no_wrap: false,
            bounded: false,
            loops: vec![],
            nomerge: false,
            base: 1,
            escaped: vec![],
            trace: std::env::var("MIRV_TRACE").is_ok(),
        }
    }
    pub fn fresh_ids(&mut self, n: u32) -> Aid {
        let a = self.next_id;
        self.next_id += n;
        a
    }

    // ---------------- memory access ----------------
    fn obj<'a>(&'a self, st: &'a State<'tcx>, a: Aid) -> Option<&'a Rc<Obj<'tcx>>> {
        st.mem.get(a).or_else(|| self.globals.get(&a))
    }
    fn obj_mut<'a>(&self, st: &'a mut State<'tcx>, a: Aid) -> Option<&'a mut Obj<'tcx>> {
        if st.mem.get(a).is_none() {
            let g = self.globals.get(&a)?.clone();
            st.mem.set(a, g);
        }
        st.mem.get_mut(a)
    }
    fn kconst(&self, st: &State<'tcx>, x: T) -> Option<u128> {
        self.kconst_in(st, x, 8)
    }
    /// Value of a term whose leaves are pinned by the path condition.
    fn kconst_in(&self, st: &State<'tcx>, x: T, depth: u32) -> Option<u128> {
        if let Some(v) = t::as_const(x) {
            return Some(v);
        }
        if st.known.is_empty() {
            return None;
        }
        if let Some(v) = st.known.get(&x) {
            return Some(*v);
        }
        if depth == 0 {
            return None;
        }
        let (b, o) = t::base_off(x);
        if b != x {
            return self.kconst_in(st, b, depth - 1).map(|v| v.wrapping_add(o) & t::mask(t::width(x)));
        }
        match t::kind(x) {
            t::K::A2(op @ (Op::Add | Op::Sub | Op::Mul | Op::UDiv | Op::URem), p, q) => {
                let w = t::width(x);
                let p = t::c(w, self.kconst_in(st, p, depth - 1)?);
                let q = t::c(w, self.kconst_in(st, q, depth - 1)?);
                t::as_const(match op {
                    Op::Add => t::add(p, q),
                    Op::Sub => t::sub(p, q),
                    Op::Mul => t::mul(p, q),
                    op => t::bin(op, p, q),
                })
            }
            t::K::A1(Op::ZExt(_), p) => self.kconst_in(st, p, depth - 1),
            t::K::A1(Op::Extract(hi, lo), p) => {
                let v = self.kconst_in(st, p, depth - 1)?;
                t::as_const(t::extract(t::c(t::width(p), v), hi, lo))
            }
            t::K::A3(Op::Ite, c, p, q) => match self.quick(st, c)? {
                true => self.kconst_in(st, p, depth - 1),
                false => self.kconst_in(st, q, depth - 1),
            },
            _ => None,
        }
    }
    pub fn conc(&self, st: &State<'tcx>, x: T) -> R<u64> {
        match self.kconst(st, x) {
            Some(v) => Ok(v as u64),
            None => Err(E::Conc(x)),
        }
    }
    pub fn load(&mut self, st: &mut State<'tcx>, p: &Pl, ly: Ly) -> R<Val> {
        if ly.size == 0 {
            return Ok(Val::Zst);
        }
        let o = match self.obj(st, p.a) {
            Some(o) => o.clone(),
            None => return self.bad_access(st, "read through an invalid pointer"),
        };
        if let Some(off) = self.kconst(st, p.off) {
            let off = off as u64;
            if off.checked_add(ly.size).map_or(true, |e| e > o.size) {
                return self.bad_access(st, "read out of bounds of an allocation");
            }
            return Ok(read_ly(&o, off, ly));
        }
        // symbolic offset
        if let Abi::Scalar(s) = ly.abi {
            if !matches!(o.raw, Raw::None) {
                if o.size / s as u64 > 200_000 {
                    return Err(E::Conc(p.off));
                }
                let om = self.obj_mut(st, p.a).unwrap();
                om.materialize(s);
            }
            let o = self.obj(st, p.a).unwrap().clone();
            let cands: Vec<(u64, Sc)> =
                o.cells.iter().filter(|(_, (cs, _))| *cs == s).map(|(k, (_, v))| (*k, v.clone())).collect();
            if cands.is_empty() || cands.iter().any(|c| matches!(c.1, Sc::Undef)) {
                return Err(E::Conc(p.off));
            }
            let mut any = t::b(false);
            for (k, _) in &cands {
                any = t::or(any, t::eq(p.off, t::c64(*k)));
            }
            if !self.implied(st, any) {
                return Err(E::Conc(p.off));
            }
            let mut it = cands.into_iter().rev();
            let (_, mut r) = it.next().unwrap();
            for (k, v) in it {
                r = match merge_sc(t::eq(p.off, t::c64(k)), &v, &r, s) {
                    Some(x) => x,
                    None => return Err(E::Conc(p.off)),
                };
            }
            return Ok(Val::S(r, s));
        }
        Err(E::Conc(p.off))
    }
    pub fn store(&mut self, st: &mut State<'tcx>, p: &Pl, v: &Val) -> R<()> {
        let size = match v {
            Val::Zst => return Ok(()),
            Val::S(_, n) => *n as u64,
            Val::Pair(_, _, _, b, n, _) => b + *n as u64,
            Val::Mem(_, n) => *n,
        };
        let osize = match self.obj(st, p.a) {
            Some(o) => o.size,
            None => return self.bad_access(st, "write through an invalid pointer"),
        };
        if let Some(off) = self.kconst(st, p.off) {
            let off = off as u64;
            if off.checked_add(size).map_or(true, |e| e > osize) {
                return self.bad_access(st, "write out of bounds of an allocation");
            }
            let o = self.obj_mut(st, p.a).unwrap();
            write_obj(o, off, v);
            return Ok(());
        }
        if let Val::S(nv, s) = v {
            let o = self.obj_mut(st, p.a).unwrap();
            if !matches!(o.raw, Raw::None) {
                if o.size / *s as u64 > 200_000 {
                    return Err(E::Conc(p.off));
                }
                o.materialize(*s);
            }
            let o = self.obj(st, p.a).unwrap().clone();
            let cands: Vec<(u64, Sc)> =
                o.cells.iter().filter(|(_, (cs, _))| *cs == *s).map(|(k, (_, v))| (*k, v.clone())).collect();
            if cands.is_empty() || cands.iter().any(|c| matches!(c.1, Sc::Undef)) {
                return Err(E::Conc(p.off));
            }
            let mut any = t::b(false);
            for (k, _) in &cands {
                any = t::or(any, t::eq(p.off, t::c64(*k)));
            }
            if !self.implied(st, any) {
                return Err(E::Conc(p.off));
            }
            let mut upd = vec![];
            for (k, old) in cands {
                match merge_sc(t::eq(p.off, t::c64(k)), nv, &old, *s) {
                    Some(x) => upd.push((k, x)),
                    None => return Err(E::Conc(p.off)),
                }
            }
            let o = self.obj_mut(st, p.a).unwrap();
            for (k, x) in upd {
                o.write(k, *s, x);
            }
            return Ok(());
        }
        Err(E::Conc(p.off))
    }
    fn bad_access<X>(&mut self, st: &mut State<'tcx>, what: &str) -> R<X> {
        self.oblige(st, t::b(false), format!("memory safety: {}", what))?;
        Err(E::Dead)
    }
    pub fn ptr(&mut self, st: &State<'tcx>, s: &Sc) -> R<(Aid, T)> {
        match s {
            Sc::P(a, o) => Ok((*a, *o)),
            Sc::T(x) => match self.kconst(st, *x) {
                Some(v) => {
                    let v = v as u64;
                    let a = (v >> 32) as Aid;
                    if a >= 16 {
                        Ok((a, t::c64(v & 0xffff_ffff)))
                    } else {
                        Ok((0, t::c64(v)))
                    }
                }
                None => {
                    let (b, o) = t::base_off(*x);
                    let _ = b;
                    let a = ((o as u64) >> 32) as Aid;
                    if a >= 16 && self.obj(st, a).is_some() {
                        return Ok((a, t::sub(*x, t::c64(addr_base(a)))));
                    }
                    if let t::K::A3(Op::Ite, ..) = t::kind(*x) {
                        return Err(E::Conc(*x));
                    }
                    un(format!("symbolic address {}", t::show(*x, 4)))
                }
            },
            Sc::Choice(_) => {
                let r = self.resolve(st, s)?;
                self.ptr(st, &r)
            }
            Sc::Undef => un("use of an uninitialized pointer"),
        }
    }
    /// resolve a guarded value against the path condition, forking if undecided
    fn resolve(&mut self, st: &State<'tcx>, s: &Sc) -> R<Sc> {
        if let Sc::Choice(v) = s {
            for (c, x) in v.iter() {
                if st.pc.contains(c) {
                    return self.resolve(st, x);
                }
            }
            let mut feas = vec![];
            for (c, x) in v.iter() {
                if self.feasible(st, *c) {
                    feas.push((*c, x.clone()));
                }
            }
            if feas.len() == 1 {
                return self.resolve(st, &feas[0].1);
            }
            if feas.is_empty() {
                return Err(E::Dead);
            }
            return Err(E::Fork(feas.into_iter().map(|x| x.0).collect()));
        }
        Ok(s.clone())
    }

    // ---------------- path conditions ----------------
    pub fn assume(&self, st: &mut State<'tcx>, c: T) {
        match t::kind(c) {
            t::K::B(true) => return,
            t::K::A2(Op::And, x, y) => {
                self.assume(st, x);
                self.assume(st, y);
                return;
            }
            t::K::A2(Op::Eq, x, y) => {
                if let Some(v) = t::as_const(y) {
                    if !t::is_bool(x) {
                        Rc::make_mut(&mut st.known).insert(x, v);
                    }
                }
            }
            _ => {}
        }
        if !st.pc.contains(&c) {
            st.pc.push(c);
        }
    }
    pub fn quick(&self, st: &State<'tcx>, c: T) -> Option<bool> {
        if let Some(v) = t::as_bool_const(c) {
            return Some(v);
        }
        if st.pc.contains(&c) {
            return Some(true);
        }
        if st.pc.contains(&t::not(c)) {
            return Some(false);
        }
        match t::kind(c) {
            t::K::A2(Op::Eq, x, y) => {
                if let (Some(p), Some(q)) = (self.kconst(st, x), self.kconst(st, y)) {
                    return Some(p == q);
                }
            }
            t::K::A2(Op::Ult, x, y) => {
                if let (Some(p), Some(q)) = (self.kconst(st, x), self.kconst(st, y)) {
                    return Some(p < q);
                }
            }
            t::K::A2(Op::Ule, x, y) => {
                if let (Some(p), Some(q)) = (self.kconst(st, x), self.kconst(st, y)) {
                    return Some(p <= q);
                }
            }
            t::K::A2(Op::And, x, y) => {
                let (p, q) = (self.quick(st, x), self.quick(st, y));
                if p == Some(false) || q == Some(false) {
                    return Some(false);
                }
                if p == Some(true) && q == Some(true) {
                    return Some(true);
                }
            }
            t::K::A2(Op::Or, x, y) => {
                let (p, q) = (self.quick(st, x), self.quick(st, y));
                if p == Some(true) || q == Some(true) {
                    return Some(true);
                }
                if p == Some(false) && q == Some(false) {
                    return Some(false);
                }
            }
            t::K::A1(Op::Not, x) => return self.quick(st, x).map(|v| !v),
            _ => {}
        }
        None
    }
    /// the part of the path condition connected to c by shared variables, and c
    pub fn slice(&mut self, pc: &[T], c: T) -> Vec<T> {
        let mut seen: std::collections::HashSet<u32> = self.vars_of(c).iter().copied().collect();
        let mut rest: Vec<(T, Rc<Vec<u32>>)> = pc.iter().map(|x| (*x, self.vars_of(*x))).collect();
        let mut out = vec![];
        loop {
            let n = rest.len();
            rest.retain(|(x, vs)| {
                if vs.iter().any(|v| seen.contains(v)) {
                    seen.extend(vs.iter().copied());
                    out.push(*x);
                    false
                } else {
                    true
                }
            });
            if rest.len() == n {
                break;
            }
        }
        out.push(c);
        out
    }
    fn vars_of(&mut self, c: T) -> Rc<Vec<u32>> {
        if let Some(v) = self.var_sets.get(&c) {
            return v.clone();
        }
        let mut seen = std::collections::HashSet::new();
        let mut vs = vec![];
        let mut todo = vec![c];
        while let Some(x) = todo.pop() {
            if !seen.insert(x) {
                continue;
            }
            match t::kind(x) {
                t::K::Var(i) => vs.push(i),
                k => todo.extend(t::args(&k)),
            }
        }
        let r = Rc::new(vs);
        self.var_sets.insert(c, r.clone());
        r
    }
    pub fn feasible(&mut self, st: &State<'tcx>, c: T) -> bool {
        match self.quick(st, c) {
            Some(v) => v,
            None => {
                if crate::ival::Iv::new(&st.pc).prove(c, false) {
                    return false;
                }
                // pruning is an optimisation only; float comparisons are rarely contradictory
                // beyond what intervals see
                if hard_atoms(c) {
                    return true;
                }
                let v = self.slice(&st.pc, c);
                self.prune.check_ms(&v, 500) != Res::Unsat
            }
        }
    }
    fn implied(&mut self, st: &State<'tcx>, c: T) -> bool {
        match self.quick(st, c) {
            Some(v) => v,
            None => {
                let mut v = st.pc.clone();
                v.push(t::not(c));
                self.smt.check(&v) == Res::Unsat
            }
        }
    }
    pub fn where_am_i(&self, st: &State<'tcx>) -> (String, String) {
        // innermost frame in the code under verification, else the innermost frame
        let f = st.frames.iter().rev().find(|f| f.body.local_crate).or_else(|| st.frames.last());
        match f {
            Some(f) => {
                let b = &f.body.blocks[f.bb.min(f.body.blocks.len() - 1)];
                let sp = b.stmts.get(f.stmt).map_or(b.span, |s| s.1);
                (f.body.short.clone(), self.span(sp))
            }
            None => (String::new(), String::new()),
        }
    }
    pub fn span(&self, sp: Span) -> String {
        let s = self.tcx.sess.source_map().span_to_diagnostic_string(sp.source_callsite());
        s
    }
    /// An obligation: must hold on every execution reaching this point.
    pub fn oblige(&mut self, st: &mut State<'tcx>, c: T, name: String) -> R<()> {
        self.oblige_f(st, c, None, name)
    }
    pub fn oblige_f(&mut self, st: &mut State<'tcx>, c: T, fpair: Option<(T, T)>, name: String) -> R<()> {
        if self.dry {
            if t::as_bool_const(c) == Some(false) {
                return Err(E::Dead);
            }
            self.assume(st, c);
            return Ok(());
        }
        let (fun, loc) = self.where_am_i(st);
        let full = if name.starts_with("spec:") { name.clone() } else { format!("{} in {}", name, fun) };
        let mut tape = None;
        let mut detail = String::new();
        let mut backend = 1;
        let (tr, res) = match self.quick(st, c) {
            Some(true) => (true, Res::Unsat),
            _ => {
                let mut v = st.pc.clone();
                v.push(t::not(c));
                let mut r;
                if crate::ival::Iv::new(&st.pc).prove(c, true) {
                    r = Res::Unsat;
                    backend = 2;
                } else if fpair.map_or(false, |(x, y)| crate::ring::equal_flat(x, y)) {
                    r = Res::Unsat;
                    backend = 3;
                } else {
                    let part = self.slice(&st.pc, t::not(c));
                    r = self.prune.check_ms(&part, 2000);
                    if r != Res::Unsat {
                        r = self.smt.check(&v);
                    }
                    if r != Res::Unsat {
                        if let Some((x, y)) = fpair {
                            let pc = st.pc.clone();
                            let smt = &mut self.smt;
                            let mut inf = |s: &[(T, bool)]| {
                                let mut v = pc.clone();
                                v.extend(s.iter().map(|(c, b)| if *b { *c } else { t::not(*c) }));
                                smt.check(&v) == Res::Unsat
                            };
                            if crate::ring::equal(x, y, &mut inf) {
                                r = Res::Unsat;
                                backend = 3;
                            }
                        }
                    }
                }
                if r == Res::Sat {
                    let ts: Vec<T> = st.tape.iter().map(|x| x.0).collect();
                    tape = self.smt.model(&v, &ts);
                }
                if r != Res::Unsat {
                    let stack: Vec<String> = st.frames.iter().rev().take(12).map(|f| {
                        let b = &f.body.blocks[f.bb];
                        format!("{} @ {}", f.body.short, self.span(b.stmts.get(f.stmt).map_or(b.span, |s| s.1)))
                    }).collect();
                    detail = format!("condition {}\nstack:\n  {}", t::show(c, 7), stack.join("\n  "));
                }
                (false, r)
            }
        };
        if self.trace && res != Res::Unsat {
            eprintln!("OBLIGATION {:?} {} at {}\n{}\npc:\n{}", res, full, loc, detail, st.pc.iter().map(|x| t::show(*x, 8)).collect::<Vec<_>>().join("\n"));
        }
        let e = self.obs.entry(full).or_default();
        e.total += 1;
        if e.loc.is_empty() {
            e.loc = loc.clone();
        }
        match res {
            Res::Unsat => {
                if tr {
                    e.trivial += 1
                } else {
                    match backend {
                        1 => e.smt += 1,
                        2 => e.ival += 1,
                        _ => e.real += 1,
                    }
                }
            }
            _ => {
                if e.failed + e.unknown == 0 {
                    e.detail = detail;
                    e.loc = loc;
                }
                if res == Res::Sat {
                    e.failed += 1;
                    if e.tape.is_none() {
                        e.tape = tape;
                    }
                } else {
                    e.unknown += 1;
                }
            }
        }
        if t::as_bool_const(c) == Some(false) {
            return Err(E::Dead);
        }
        self.assume(st, c);
        Ok(())
    }

    // ---------------- places and operands ----------------
    fn local_pl(&mut self, st: &mut State<'tcx>, fi: usize, l: usize) -> R<Pl> {
        let (id, ly) = {
            let f = &st.frames[fi];
            (f.base + l as u32, f.body.locals[l].ly)
        };
        if st.mem.get(id).is_none() {
            let ly = match ly {
                Some(l) => l,
                None => return un("unsized local"),
            };
            st.mem.set(id, Rc::new(Obj::new(ly.size, ly.align)));
        }
        Ok(Pl { a: id, off: t::c64(0), meta: None })
    }
    pub fn place(&mut self, st: &mut State<'tcx>, p: &Place<'tcx>) -> R<Pl> {
        let fi = st.frames.len() - 1;
        let mut cur = self.local_pl(st, fi, p.local)?;
        for s in &p.steps {
            match s {
                Step::Off(o) => cur.off = t::add(cur.off, t::c64(*o)),
                Step::Deref { fat } => {
                    let v = self.load(st, &cur, Ly { size: 8, align: 8, abi: Abi::Scalar(8) })?;
                    let sc = self.scalar_of(&v)?;
                    let (a, o) = self.ptr(st, &sc)?;
                    let meta = if *fat {
                        let mp = Pl { a: cur.a, off: t::add(cur.off, t::c64(8)), meta: None };
                        let m = self.load(st, &mp, Ly { size: 8, align: 8, abi: Abi::Scalar(8) })?;
                        Some(self.scalar_of(&m)?)
                    } else {
                        None
                    };
                    cur = Pl { a, off: o, meta };
                }
                Step::DynOff(o, fty) => {
                    let m = cur.meta.clone();
                    let (_, al) = self.size_align(st, *fty, m.as_ref())?;
                    let off = (*o + al - 1) / al * al;
                    cur.off = t::add(cur.off, t::c64(off));
                }
                Step::Index { local, stride, len } => {
                    let ip = self.local_pl(st, fi, *local)?;
                    let iv = self.load(st, &ip, Ly { size: 8, align: 8, abi: Abi::Scalar(8) })?;
                    let i = self.int_of(&iv)?;
                    let _ = len;
                    cur.off = t::add(cur.off, t::mul(i, t::c64(*stride)));
                    cur.meta = None;
                }
                Step::ConstIdx { off, stride, from_end, len } => {
                    let i = if *from_end {
                        let n = match len {
                            Some(n) => t::c64(*n),
                            None => self.meta_int(&cur)?,
                        };
                        t::sub(n, t::c64(*off))
                    } else {
                        t::c64(*off)
                    };
                    cur.off = t::add(cur.off, t::mul(i, t::c64(*stride)));
                    cur.meta = None;
                }
                Step::Sub { from, to, stride, from_end, len } => {
                    let n = match len {
                        Some(n) => t::c64(*n),
                        None => self.meta_int(&cur)?,
                    };
                    let nl = if *from_end { t::sub(n, t::c64(from + to)) } else { t::c64(to - from) };
                    cur.off = t::add(cur.off, t::c64(from * stride));
                    cur.meta = if len.is_some() { None } else { Some(Sc::T(nl)) };
                }
            }
        }
        Ok(cur)
    }
    fn meta_int(&mut self, p: &Pl) -> R<T> {
        match &p.meta {
            Some(m) => self.int_sc(m),
            None => un("missing metadata"),
        }
    }
    pub fn scalar_of(&self, v: &Val) -> R<Sc> {
        match v {
            Val::S(s, _) => Ok(s.clone()),
            Val::Mem(c, n) => {
                if c.len() == 1 && c[0].0 == 0 && c[0].1 as u64 == *n {
                    return Ok(c[0].2.clone());
                }
                if *n <= 16 {
                    let mut o = Obj::new(*n, 1);
                    o.write_range(0, *n, c);
                    return Ok(o.read(0, *n as u8));
                }
                un("scalar expected")
            }
            Val::Pair(..) => un("scalar expected, pair found"),
            Val::Zst => un("scalar expected, zst found"),
        }
    }
    pub fn int_sc(&self, s: &Sc) -> R<T> {
        match to_int(s) {
            Some(x) => Ok(x),
            None => {
                if let Sc::Undef = s {
                    un("use of uninitialized memory")
                } else {
                    un("integer expected")
                }
            }
        }
    }
    pub fn int_of(&self, v: &Val) -> R<T> {
        let s = self.scalar_of(v)?;
        self.int_sc(&s)
    }
    pub fn bool_of(&self, v: &Val) -> R<T> {
        let x = self.int_of(v)?;
        Ok(to_bool(x))
    }
    pub fn opd(&mut self, st: &mut State<'tcx>, o: &Opd<'tcx>) -> R<Val> {
        match o {
            Opd::P(p) => {
                if p.ly.size == 0 && !p.fat {
                    return Ok(Val::Zst);
                }
                let pl = self.place(st, p)?;
                self.load(st, &pl, p.ly)
            }
            Opd::C(v, _) => Ok(v.clone()),
            Opd::Unsup(s) => un(s.clone()),
        }
    }
    fn term_opd(&mut self, st: &mut State<'tcx>, o: &Opd<'tcx>, p: Prim) -> R<T> {
        let v = self.opd(st, o)?;
        let x = self.int_of(&v)?;
        Ok(norm(x, p))
    }

    // ---------------- statements ----------------
    fn stmt(&mut self, st: &mut State<'tcx>, s: &St<'tcx>) -> R<()> {
        match s {
            St::Assign(p, rv) => self.assign(st, p, rv),
            St::SetDiscr(p, d, v) => {
                let pl = self.place(st, p)?;
                self.set_discr(st, &pl, d, *v)
            }
            St::Live(l) => {
                let id = st.frames.last().unwrap().base + *l as u32;
                st.mem.remove(id);
                Ok(())
            }
            St::Assume(o) => {
                let c = self.term_opd(st, o, Prim::Bool)?;
                self.assume(st, c);
                Ok(())
            }
            St::CopyNo(s, d, n, sz) => {
                let (s, d, n) = (self.opd(st, s)?, self.opd(st, d)?, self.opd(st, n)?);
                self.copy(st, &s, &d, &n, *sz)
            }
            St::Unsup(s) => un(s.clone()),
        }
    }
    pub fn copy(&mut self, st: &mut State<'tcx>, s: &Val, d: &Val, n: &Val, sz: u64) -> R<()> {
        let n = self.int_of(n)?;
        let n = self.conc(st, n)? * sz;
        if n == 0 {
            return Ok(());
        }
        let (s, d) = (self.scalar_of(s)?, self.scalar_of(d)?);
        let (sa, so) = self.ptr(st, &s)?;
        let (da, d_o) = self.ptr(st, &d)?;
        let ly = Ly { size: n, align: 1, abi: if sz == n && (n == 1 || n == 2 || n == 4 || n == 8) { Abi::Scalar(n as u8) } else { Abi::Mem } };
        let v = self.load(st, &Pl { a: sa, off: so, meta: None }, Ly { abi: Abi::Mem, ..ly })?;
        self.store(st, &Pl { a: da, off: d_o, meta: None }, &v)
    }
    fn assign(&mut self, st: &mut State<'tcx>, p: &Place<'tcx>, rv: &Rv<'tcx>) -> R<()> {
        match rv {
            Rv::Agg(fields, d) => {
                let mut vals = vec![];
                for (o, f) in fields {
                    vals.push((*o, self.opd(st, f)?));
                }
                let pl = self.place(st, p)?;
                // a fresh aggregate: forget what was there
                if p.ly.size > 0 {
                    let off = self.conc(st, pl.off)?;
                    match self.obj_mut(st, pl.a) {
                        Some(o) => {
                            if off + p.ly.size <= o.size {
                                o.clear(off, p.ly.size)
                            }
                        }
                        None => return self.bad_access(st, "write through an invalid pointer"),
                    }
                }
                for (o, v) in vals {
                    let q = Pl { a: pl.a, off: t::add(pl.off, t::c64(o)), meta: None };
                    self.store(st, &q, &v)?;
                }
                if let Some((d, v)) = d {
                    self.set_discr(st, &pl, d, *v)?;
                }
                Ok(())
            }
            Rv::Repeat(o, n, sz) => {
                let v = self.opd(st, o)?;
                let pl = self.place(st, p)?;
                if *sz == 0 || *n == 0 {
                    return Ok(());
                }
                let off = self.conc(st, pl.off)?;
                let ob = match self.obj_mut(st, pl.a) {
                    Some(o) => o,
                    None => return self.bad_access(st, "write through an invalid pointer"),
                };
                for i in 0..*n {
                    write_obj(ob, off + i * sz, &v);
                }
                Ok(())
            }
            _ => {
                let v = self.rvalue(st, rv, p)?;
                let pl = self.place(st, p)?;
                self.store(st, &pl, &v)
            }
        }
    }
    fn set_discr(&mut self, st: &mut State<'tcx>, pl: &Pl, d: &Discr, v: usize) -> R<()> {
        match d {
            Discr::Single(_) => Ok(()),
            Discr::Direct { off, size, vals, .. } => {
                let q = Pl { a: pl.a, off: t::add(pl.off, t::c64(*off)), meta: None };
                self.store(st, &q, &Val::S(Sc::T(t::c(*size as u32 * 8, vals[v])), *size))
            }
            Discr::Niche { off, size, untagged, start, niche_start, .. } => {
                if v == *untagged {
                    return Ok(());
                }
                let x = niche_start.wrapping_add((v as u128).wrapping_sub(*start as u128));
                let q = Pl { a: pl.a, off: t::add(pl.off, t::c64(*off)), meta: None };
                self.store(st, &q, &Val::S(Sc::T(t::c(*size as u32 * 8, x)), *size))
            }
        }
    }
    pub fn get_discr(&mut self, st: &mut State<'tcx>, pl: &Pl, d: &Discr, w: u32) -> R<T> {
        match d {
            Discr::Single(v) => Ok(t::c(w, *v)),
            Discr::Direct { off, size, signed, .. } => {
                let q = Pl { a: pl.a, off: t::add(pl.off, t::c64(*off)), meta: None };
                let v = self.load(st, &q, Ly { size: *size as u64, align: 1, abi: Abi::Scalar(*size) })?;
                let x = bv(self.int_of(&v)?, *size as u32 * 8);
                let xw = t::width(x);
                Ok(if xw == w {
                    x
                } else if xw > w {
                    t::extract(x, w - 1, 0)
                } else if *signed {
                    t::sext(x, w)
                } else {
                    t::zext(x, w)
                })
            }
            Discr::Niche { off, size, untagged, start, end, niche_start, vals, .. } => {
                let q = Pl { a: pl.a, off: t::add(pl.off, t::c64(*off)), meta: None };
                let v = self.load(st, &q, Ly { size: *size as u64, align: 1, abi: Abi::Scalar(*size) })?;
                let s = self.scalar_of(&v)?;
                self.niche(&s, *size, *untagged, *start, *end, *niche_start, vals, w)
            }
        }
    }
    fn niche(&mut self, s: &Sc, size: u8, untagged: usize, start: usize, end: usize, ns: u128, vals: &[u128], w: u32) -> R<T> {
        match s {
            Sc::P(..) => Ok(t::c(w, vals[untagged])),
            Sc::Choice(v) => {
                let mut r = None;
                for (c, x) in v.iter().rev() {
                    let d = self.niche(x, size, untagged, start, end, ns, vals, w)?;
                    r = Some(match r {
                        None => d,
                        Some(e) => t::ite(*c, d, e),
                    });
                }
                Ok(r.unwrap())
            }
            Sc::Undef => un("discriminant of uninitialized memory"),
            Sc::T(x) => {
                let x = bv(*x, size as u32 * 8);
                let xw = t::width(x);
                let mut r = t::c(w, vals[untagged]);
                for i in start..=end {
                    if i == untagged {
                        continue;
                    }
                    let tag = t::c(xw, ns.wrapping_add((i - start) as u128));
                    r = t::ite(t::eq(x, tag), t::c(w, vals[i]), r);
                }
                Ok(r)
            }
        }
    }
    fn rvalue(&mut self, st: &mut State<'tcx>, rv: &Rv<'tcx>, dest: &Place<'tcx>) -> R<Val> {
        let dsize = dest.ly.size as u8;
        Ok(match rv {
            Rv::Use(o) => self.opd(st, o)?,
            Rv::Addr(p) => {
                let pl = self.place(st, p)?;
                let s = mkptr(&pl);
                match (&pl.meta, p.fat) {
                    (Some(m), true) => Val::Pair(0, 8, s, 8, 8, m.clone()),
                    (None, true) => return un("missing metadata"),
                    _ => Val::S(s, 8),
                }
            }
            Rv::Tls(d) => {
                let a = match self.tls_ids.get(d) {
                    Some(a) => *a,
                    None => {
                        let al = self.tcx.eval_static_initializer(*d).map_err(|_| E::Unsup("tls".into()))?;
                        let id = self.tcx.reserve_and_set_memory_alloc(al);
                        let a = self.global(id)?;
                        self.tls_ids.insert(*d, a);
                        a
                    }
                };
                Val::S(Sc::P(a, t::c64(0)), 8)
            }
            Rv::Bin(op, a, b, p, rw, stride) => return self.binop(st, *op, a, b, *p, *rw, *stride),
            Rv::Neg(o, p) => {
                let x = self.term_opd(st, o, *p)?;
                Val::S(Sc::T(match p {
                    Prim::F32 | Prim::F64 => t::fneg(x),
                    _ => t::neg(x),
                }), dsize)
            }
            Rv::Not(o, p) => {
                let x = self.term_opd(st, o, *p)?;
                Val::S(Sc::T(if *p == Prim::Bool { t::not(x) } else { t::bnot(x) }), dsize)
            }
            Rv::Meta(o) => match self.opd(st, o)? {
                Val::Pair(_, _, _, _, _, m) => Val::S(m, 8),
                _ => Val::Zst,
            },
            Rv::Discr(p, d, w) => {
                let pl = self.place(st, p)?;
                let x = self.get_discr(st, &pl, d, *w)?;
                Val::S(Sc::T(x), (*w / 8) as u8)
            }
            Rv::FatPtr(a, m) => {
                let a = self.opd(st, a)?;
                let m = self.opd(st, m)?;
                let s = self.scalar_of(&a)?;
                match m {
                    Val::Zst => Val::S(s, 8),
                    m => Val::Pair(0, 8, s, 8, 8, self.scalar_of(&m)?),
                }
            }
            Rv::IntToInt(o, f, to) => {
                let v = self.opd(st, o)?;
                let x = norm(self.int_of(&v)?, *f);
                Val::S(Sc::T(int_cast(x, *f, *to)), dsize)
            }
            Rv::IToF(o, f, to) => {
                let x = self.term_opd(st, o, *f)?;
                let signed = matches!(f, Prim::Int(_, true));
                Val::S(Sc::T(i2f(bv(x, 8), signed, *to == Prim::F64)), dsize)
            }
            Rv::FToI(o, f, to) => {
                let x = self.term_opd(st, o, *f)?;
                let (w, s) = match to {
                    Prim::Int(w, s) => (*w, *s),
                    _ => return un("float to non-int"),
                };
                Val::S(Sc::T(f2i(x, w, s)), dsize)
            }
            Rv::FToF(o, f, to) => {
                let x = self.term_opd(st, o, *f)?;
                Val::S(Sc::T(f2f(x, *to == Prim::F64)), dsize)
            }
            Rv::PtrToPtr(o, thin) => {
                let v = self.opd(st, o)?;
                match (v, thin) {
                    (Val::Pair(_, _, s, _, _, _), true) => Val::S(s, 8),
                    (v, _) => v,
                }
            }
            Rv::Transmute(o) => {
                let v = self.opd(st, o)?;
                retype(&v, dest.ly)
            }
            Rv::Reify(i) => Val::S(Sc::P(self.fn_id(*i), t::c64(0)), 8),
            Rv::Unsize(o, from, to) => {
                let v = self.opd(st, o)?;
                self.unsize(st, v, *from, *to)?
            }
            Rv::Unsup(s) => return un(s.clone()),
            Rv::Agg(..) | Rv::Repeat(..) => unreachable!(),
        })
    }
    pub fn fn_id(&mut self, i: Instance<'tcx>) -> Aid {
        if let Some(a) = self.fn_ids.get(&i) {
            return *a;
        }
        let a = self.fresh_ids(1);
        let mut o = Obj::new(1, 1);
        o.kind = Kind::Fn(i);
        self.globals.insert(a, Rc::new(o));
        self.fn_ids.insert(i, a);
        a
    }
    fn vtable(&mut self, ty: Ty<'tcx>, p: Option<ty::ExistentialTraitRef<'tcx>>) -> Aid {
        if let Some(a) = self.vt_ids.get(&(ty, p)) {
            return *a;
        }
        let a = self.fresh_ids(1);
        let mut o = Obj::new(64, 8);
        o.kind = Kind::VTable(ty, p);
        self.globals.insert(a, Rc::new(o));
        self.vt_ids.insert((ty, p), a);
        a
    }
    fn unsize(&mut self, st: &mut State<'tcx>, v: Val, from: Ty<'tcx>, to: Ty<'tcx>) -> R<Val> {
        let tcx = self.tcx;
        match (from.builtin_deref(true), to.builtin_deref(true)) {
            (Some(a), Some(b)) if !from.is_box() => self.unsize_ptr(st, v, a, b),
            _ => match (from.kind(), to.kind()) {
                (ty::Adt(fa, _), ty::Adt(ta, _)) if fa == ta => {
                    // find the coerced field; everything else is copied (and is zero sized for Box)
                    let (lf, lt) = (self.layout(from)?, self.layout(to)?);
                    let cx = self.cx();
                    let tly = self.ly(to)?;
                    let fly = self.ly(from)?;
                    let mut src = Obj::new(fly.size, 8);
                    write_obj(&mut src, 0, &v);
                    let mut dst = Obj::new(tly.size, 8);
                    for i in 0..lf.fields.count() {
                        let (ff, tf) = (lf.field(&cx, i), lt.field(&cx, i));
                        let fo = lf.fields.offset(i).bytes();
                        let to_ = lt.fields.offset(i).bytes();
                        let ffl = Self::ly_of(&ff, &cx);
                        if ffl.size == 0 {
                            continue;
                        }
                        let fv = read_ly(&src, fo, ffl);
                        let nv = if ff.ty == tf.ty { fv } else { self.unsize(st, fv, ff.ty, tf.ty)? };
                        write_obj(&mut dst, to_, &nv);
                    }
                    Ok(read_ly(&dst, 0, tly))
                }
                (ty::Pat(a, _), ty::Pat(b, _)) => self.unsize(st, v, *a, *b),
                _ => {
                    let _ = tcx;
                    un(format!("unsize {:?} to {:?}", from, to))
                }
            },
        }
    }
    fn unsize_ptr(&mut self, st: &mut State<'tcx>, v: Val, a: Ty<'tcx>, b: Ty<'tcx>) -> R<Val> {
        let (sa, sb) = self.tcx.struct_lockstep_tails_for_codegen(a, b, self.env);
        match (sa.kind(), sb.kind()) {
            (ty::Array(_, n), ty::Slice(_)) => {
                let n = n.try_to_target_usize(self.tcx).ok_or(E::Unsup("len".into()))?;
                Ok(Val::Pair(0, 8, self.scalar_of(&v)?, 8, 8, Sc::T(t::c64(n))))
            }
            (ty::Dynamic(..), ty::Dynamic(pb, _)) => match v {
                Val::Pair(x, y, p, z, w, m) => {
                    let (ma, _) = self.ptr(st, &m)?;
                    let k = self.obj(st, ma).map(|o| o.kind.clone());
                    match k {
                        Some(Kind::VTable(ty, _)) => {
                            let pr = pb.principal().map(|p| self.tcx.instantiate_bound_regions_with_erased(p));
                            let vt = self.vtable(ty, pr);
                            Ok(Val::Pair(x, y, p, z, w, Sc::P(vt, t::c64(0))))
                        }
                        _ => un("vtable expected"),
                    }
                }
                _ => un("fat pointer expected"),
            },
            (_, ty::Dynamic(preds, _)) => {
                let pr = preds.principal().map(|p| self.tcx.instantiate_bound_regions_with_erased(p));
                let vt = self.vtable(sa, pr);
                Ok(Val::Pair(0, 8, self.scalar_of(&v)?, 8, 8, Sc::P(vt, t::c64(0))))
            }
            _ => un(format!("unsize {:?} to {:?}", a, b)),
        }
    }
    pub fn size_align(&mut self, st: &State<'tcx>, ty: Ty<'tcx>, meta: Option<&Sc>) -> R<(T, u64)> {
        let l = self.layout(ty)?;
        if l.is_sized() {
            return Ok((t::c64(l.size.bytes()), l.align.abi.bytes()));
        }
        match ty.kind() {
            ty::Slice(e) => {
                let el = self.layout(*e)?;
                let n = self.int_sc(meta.ok_or(E::Unsup("meta".into()))?)?;
                Ok((t::mul(n, t::c64(el.size.bytes())), el.align.abi.bytes()))
            }
            ty::Str => Ok((self.int_sc(meta.ok_or(E::Unsup("meta".into()))?)?, 1)),
            ty::Dynamic(..) => {
                let m = meta.ok_or(E::Unsup("meta".into()))?.clone();
                let (a, _) = self.ptr(st, &m)?;
                match self.obj(st, a).map(|o| o.kind.clone()) {
                    Some(Kind::VTable(ty, _)) => self.size_align(st, ty, None),
                    _ => un("vtable expected"),
                }
            }
            ty::Adt(..) | ty::Tuple(..) => {
                let cx = self.cx();
                let n = l.fields.count();
                let off = l.fields.offset(n - 1).bytes();
                let tail = l.field(&cx, n - 1).ty;
                let (s, al) = self.size_align(st, tail, meta)?;
                let al2 = al.max(l.align.abi.bytes());
                let off = (off + al - 1) / al * al;
                let tot = t::add(s, t::c64(off));
                let tot = match self.kconst(st, tot) {
                    Some(v) => t::c64((v as u64 + al2 - 1) / al2 * al2),
                    None => return Err(E::Conc(tot)),
                };
                Ok((tot, al2))
            }
            _ => un(format!("size of {:?}", ty)),
        }
    }
    fn binop(&mut self, st: &mut State<'tcx>, op: BinOp, a: &Opd<'tcx>, b: &Opd<'tcx>, p: Prim, rw: u32, stride: u64) -> R<Val> {
        let va = self.opd(st, a)?;
        let vb = self.opd(st, b)?;
        match p {
            Prim::F32 | Prim::F64 => {
                let (x, y) = (self.int_of(&va)?, self.int_of(&vb)?);
                let n = if p == Prim::F32 { 4 } else { 8 };
                let r = match op {
                    BinOp::Add => t::fadd(x, y),
                    BinOp::Sub => t::fsub(x, y),
                    BinOp::Mul => t::fmul(x, y),
                    BinOp::Div => t::fdiv(x, y),
                    BinOp::Rem => t::frem(x, y),
                    BinOp::Eq => t::fcmp(Op::FEq, x, y),
                    BinOp::Ne => t::not(t::fcmp(Op::FEq, x, y)),
                    BinOp::Lt => t::fcmp(Op::FLt, x, y),
                    BinOp::Le => t::fcmp(Op::FLe, x, y),
                    BinOp::Gt => t::fcmp(Op::FLt, y, x),
                    BinOp::Ge => t::fcmp(Op::FLe, y, x),
                    _ => return un(format!("float op {:?}", op)),
                };
                Ok(Val::S(Sc::T(r), if t::is_bool(r) { 1 } else { n }))
            }
            Prim::Fat => {
                let (p1, m1, p2, m2) = match (&va, &vb) {
                    (Val::Pair(_, _, p1, _, _, m1), Val::Pair(_, _, p2, _, _, m2)) => (p1, m1, p2, m2),
                    _ => return un("fat pointer comparison"),
                };
                let e = t::and(self.ptr_eq(p1, p2)?, self.ptr_eq(m1, m2)?);
                match op {
                    BinOp::Eq => Ok(Val::S(Sc::T(e), 1)),
                    BinOp::Ne => Ok(Val::S(Sc::T(t::not(e)), 1)),
                    _ => un("fat pointer ordering"),
                }
            }
            Prim::Ptr => {
                let (x, y) = (self.scalar_of(&va)?, self.scalar_of(&vb)?);
                if let BinOp::Offset = op {
                    let n = self.int_sc(&y)?;
                    return Ok(Val::S(ptr_add(&x, t::mul(n, t::c64(stride))), 8));
                }
                if matches!(op, BinOp::Eq | BinOp::Ne) {
                    let e = self.ptr_eq(&x, &y)?;
                    return Ok(Val::S(Sc::T(if op == BinOp::Eq { e } else { t::not(e) }), 1));
                }
                let (xi, yi) = match (&x, &y) {
                    (Sc::P(a, o1), Sc::P(b, o2)) if a == b => (*o1, *o2),
                    _ => (self.int_sc(&x)?, self.int_sc(&y)?),
                };
                Ok(int_bin(op, xi, yi, 64, false, 64, 0)?)
            }
            Prim::Bool => {
                let (x, y) = (self.bool_of(&va)?, self.bool_of(&vb)?);
                let r = match op {
                    BinOp::Eq => t::eq(x, y),
                    BinOp::Ne | BinOp::BitXor => t::not(t::eq(x, y)),
                    BinOp::BitAnd => t::and(x, y),
                    BinOp::BitOr => t::or(x, y),
                    BinOp::Lt => t::and(t::not(x), y),
                    BinOp::Le => t::or(t::not(x), y),
                    BinOp::Gt => t::and(x, t::not(y)),
                    BinOp::Ge => t::or(x, t::not(y)),
                    BinOp::Cmp => {
                        let r = t::ite(t::eq(x, y), t::c(8, 0), t::ite(x, t::c(8, 1), t::c(8, 255)));
                        return Ok(Val::S(Sc::T(r), 1));
                    }
                    _ => return un(format!("bool op {:?}", op)),
                };
                Ok(Val::S(Sc::T(r), 1))
            }
            Prim::Int(w, s) => {
                let sx = self.scalar_of(&va)?;
                let sy = self.scalar_of(&vb)?;
                // pointer-tagged integers stay pointers where harmless
                let x = norm(self.int_sc(&sx)?, p);
                let y = norm(self.int_sc(&sy)?, Prim::Int(rw, false));
                int_bin(op, x, y, w, s, rw, stride)
            }
            Prim::Other => un(format!("binop {:?} on non-primitive", op)),
        }
    }
    fn ptr_eq(&self, x: &Sc, y: &Sc) -> R<T> {
        match (x, y) {
            (Sc::P(a, o1), Sc::P(b, o2)) => Ok(if a == b { t::eq(*o1, *o2) } else { t::b(false) }),
            (Sc::Choice(v), o) | (o, Sc::Choice(v)) => {
                let mut r = t::b(false);
                for (c, s) in v.iter() {
                    r = t::or(r, t::and(*c, self.ptr_eq(s, o)?));
                }
                Ok(r)
            }
            (Sc::P(..), Sc::T(k)) | (Sc::T(k), Sc::P(..)) if t::as_const(*k).map_or(false, |v| v < (16 << 32)) => Ok(t::b(false)),
            _ => Ok(t::eq(self.int_sc(x)?, self.int_sc(y)?)),
        }
    }

    // ---------------- control ----------------
    /// one step; the state is only modified consistently when Ok is returned
    fn step(&mut self, st: &mut State<'tcx>) -> R<Flow<'tcx>> {
        self.steps += 1;
        if self.steps % 1024 == 0 && std::time::Instant::now() > self.deadline {
            return un("time budget exhausted");
        }
        let fi = st.frames.len() - 1;
        let body = st.frames[fi].body.clone();
        let (bb, si) = (st.frames[fi].bb, st.frames[fi].stmt);
        let blk = &body.blocks[bb];
        if si < blk.stmts.len() {
            self.stmt(st, &blk.stmts[si].0)?;
            st.frames[fi].stmt += 1;
            return Ok(Flow::Next);
        }
        match &blk.term {
            Tm::Goto(b) => {
                goto(st, *b);
                Ok(Flow::Next)
            }
            Tm::Switch(o, p, targets, other) => {
                let v = self.opd(st, o)?;
                let x = norm(self.int_of(&v)?, *p);
                let mut arms: Vec<(T, usize)> = vec![];
                let mut rest = t::b(true);
                for (k, b) in targets {
                    let c = if t::is_bool(x) {
                        if *k == 0 {
                            t::not(x)
                        } else {
                            x
                        }
                    } else {
                        t::eq(x, t::c(t::width(x), *k))
                    };
                    arms.push((t::and(c, rest), *b));
                    rest = t::and(rest, t::not(c));
                }
                arms.push((rest, *other));
                // same target arms joined
                let mut joined: Vec<(T, usize)> = vec![];
                for (c, b) in arms {
                    if t::as_bool_const(c) == Some(false) {
                        continue;
                    }
                    if let Some(e) = joined.iter_mut().find(|e| e.1 == b) {
                        e.0 = t::or(e.0, c);
                    } else {
                        joined.push((c, b));
                    }
                }
                Ok(Flow::Branch(joined))
            }
            Tm::Ret => {
                self.ret(st)?;
                Ok(Flow::Next)
            }
            Tm::Unreachable => {
                self.oblige(st, t::b(false), "unreachable code is not reached".into())?;
                Err(E::Dead)
            }
            Tm::Resume => Err(E::Dead),
            Tm::Drop(p, b) => {
                let tcx = self.tcx;
                if !p.ty.needs_drop(tcx, self.env) {
                    goto(st, *b);
                    return Ok(Flow::Next);
                }
                let pl = self.place(st, p)?;
                let s = mkptr(&pl);
                let mut ty = p.ty;
                let mut arg = match &pl.meta {
                    Some(m) if p.fat => Val::Pair(0, 8, s.clone(), 8, 8, m.clone()),
                    _ => Val::S(s.clone(), 8),
                };
                if let ty::Dynamic(..) = ty.kind() {
                    let m = pl.meta.clone().ok_or(E::Unsup("meta".into()))?;
                    let (a, _) = self.ptr(st, &m)?;
                    match self.obj(st, a).map(|o| o.kind.clone()) {
                        Some(Kind::VTable(t, _)) => ty = t,
                        _ => return un("vtable expected in drop"),
                    }
                    arg = Val::S(s, 8);
                }
                let inst = Instance::resolve_drop_glue(tcx, ty);
                if let ty::InstanceKind::Shim(ty::ShimKind::DropGlue(_, None)) = inst.def {
                    goto(st, *b);
                    return Ok(Flow::Next);
                }
                self.push_frame(st, inst, vec![arg], None, Some(*b))?;
                Ok(Flow::Next)
            }
            Tm::Assert { cond, expected, msg, target } => {
                let c = self.term_opd(st, cond, Prim::Bool)?;
                let c = if *expected { c } else { t::not(c) };
                if self.no_wrap && msg.starts_with("no overflow in Add") && t::is_small_increment(c) {
                    self.assumed.insert(format!("64-bit counter does not overflow: {}", msg));
                    self.assume(st, c);
                } else {
                    self.oblige(st, c, format!("no panic: {}", msg))?;
                }
                goto(st, *target);
                Ok(Flow::Next)
            }
            Tm::Call { f, args, arg_tys, dest, target, rust_call } => {
                let mut vals = vec![];
                for a in args {
                    vals.push(self.opd(st, a)?);
                }
                let inst = match f {
                    Callee::Fixed(i) => *i,
                    Callee::Ptr(o) => {
                        let v = self.opd(st, o)?;
                        let s = self.scalar_of(&v)?;
                        let (a, _) = self.ptr(st, &s)?;
                        match self.obj(st, a).map(|o| o.kind.clone()) {
                            Some(Kind::Fn(i)) => {
                                // a closure behind a function pointer still takes its (empty) environment
                                let clo = match i.def {
                                    ty::InstanceKind::Shim(ty::ShimKind::ClosureOnce { .. }) => true,
                                    ty::InstanceKind::Item(d) => self.tcx.is_closure_like(d),
                                    _ => false,
                                };
                                if clo {
                                    vals.insert(0, Val::Zst);
                                }
                                i
                            }
                            _ => return un("function pointer expected"),
                        }
                    }
                    Callee::Unsup(s) => return un(s.clone()),
                };
                let dpl = if dest.ly.size > 0 || dest.fat { Some((self.place(st, dest)?, dest.ly)) } else { None };
                self.call(st, inst, vals, arg_tys, dpl, *target, *rust_call)
            }
            Tm::Unsup(s) => un(s.clone()),
        }
    }
    fn ret(&mut self, st: &mut State<'tcx>) -> R<()> {
        let fi = st.frames.len() - 1;
        let (ret, target, base, n) = {
            let f = &st.frames[fi];
            (f.ret.clone(), f.target, f.base, f.body.locals.len())
        };
        if let Some((pl, ly)) = ret {
            let lp = self.local_pl(st, fi, 0)?;
            let v = self.load(st, &lp, ly)?;
            self.store(st, &pl, &v)?;
        }
        for i in 0..n as u32 {
            st.mem.remove(base + i);
        }
        st.frames.pop();
        if let Some(f) = st.frames.last_mut() {
            if let Some(b) = target {
                f.bb = b;
                f.stmt = 0;
            }
        }
        Ok(())
    }
    pub fn push_frame(&mut self, st: &mut State<'tcx>, inst: Instance<'tcx>, args: Vec<Val>, ret: Option<(Pl, Ly)>, target: Option<usize>) -> R<()> {
        if st.frames.len() > 400 {
            return un("call depth");
        }
        let body = self.body(inst)?;
        if body.local_crate && !self.dry {
            *self.funs.entry(body.short.clone()).or_insert(0) += 1;
        }
        if self.trace && std::env::var("MIRV_CALLS").is_ok() {
            eprintln!("{}call {} ({} args)", "  ".repeat(st.frames.len()), body.name, args.len());
        }
        let base = self.fresh_ids(body.locals.len() as u32);
        let mut vals = args;
        if let Some(sp) = body.spread {
            // collect the trailing arguments into a tuple
            let lead = sp - 1;
            let rest: Vec<Val> = vals.drain(lead..).collect();
            let l = self.layout(body.locals[sp].ty)?;
            let ly = Self::ly_of(&l, &self.cx());
            let mut o = Obj::new(ly.size, ly.align);
            for (i, v) in rest.iter().enumerate() {
                write_obj(&mut o, l.fields.offset(i).bytes(), v);
            }
            vals.push(read_ly(&o, 0, ly));
        }
        if vals.len() != body.args {
            return un(format!("argument count for {} ({} vs {})", body.name, vals.len(), body.args));
        }
        for (i, v) in vals.iter().enumerate() {
            let ly = match body.locals[i + 1].ly {
                Some(l) => l,
                None => return un("unsized argument"),
            };
            if ly.size == 0 {
                continue;
            }
            let mut o = Obj::new(ly.size, ly.align);
            write_obj(&mut o, 0, v);
            st.mem.set(base + i as u32 + 1, Rc::new(o));
        }
        st.frames.push(Frame { body, base, bb: 0, stmt: 0, ret, target });
        Ok(())
    }
    pub fn call(
        &mut self,
        st: &mut State<'tcx>,
        inst: Instance<'tcx>,
        mut vals: Vec<Val>,
        arg_tys: &[Ty<'tcx>],
        dest: Option<(Pl, Ly)>,
        target: Option<usize>,
        rust_call: bool,
    ) -> R<Flow<'tcx>> {
        let tcx = self.tcx;
        let mut inst = inst;
        match inst.def {
            ty::InstanceKind::Intrinsic(d) => {
                return self.intrinsic(st, d, inst, vals, arg_tys, dest, target);
            }
            ty::InstanceKind::Virtual(_, idx) => {
                let (p, m) = match &vals[0] {
                    Val::Pair(_, _, p, _, _, m) => (p.clone(), m.clone()),
                    _ => return un("virtual call receiver"),
                };
                let (a, _) = self.ptr(st, &m)?;
                let k = self.obj(st, a).map(|o| o.kind.clone());
                match k {
                    Some(Kind::VTable(ty, Some(pr))) => {
                        let tr = pr.with_self_ty(tcx, ty);
                        let tr = tcx.erase_and_anonymize_regions(tr);
                        let ents = tcx.vtable_entries(tr);
                        match ents.get(idx) {
                            Some(ty::VtblEntry::Method(i)) => inst = *i,
                            x => return un(format!("vtable entry {:?}", x)),
                        }
                        vals[0] = Val::S(p, 8);
                    }
                    _ => return un("vtable expected"),
                }
                if let ty::InstanceKind::Shim(ty::ShimKind::VTable(_)) = inst.def {
                    return un("by-value dyn call");
                }
            }
            ty::InstanceKind::Shim(ty::ShimKind::DropGlue(_, None)) => {
                if let Some(t) = target {
                    goto(st, t);
                }
                return Ok(Flow::Next);
            }
            ty::InstanceKind::Shim(ty::ShimKind::DropGlue(_, Some(ty))) => {
                if let ty::Dynamic(..) = ty.kind() {
                    let (p, m) = match &vals[0] {
                        Val::Pair(_, _, p, _, _, m) => (p.clone(), m.clone()),
                        _ => return un("drop receiver"),
                    };
                    let (a, _) = self.ptr(st, &m)?;
                    match self.obj(st, a).map(|o| o.kind.clone()) {
                        Some(Kind::VTable(t, _)) => {
                            inst = Instance::resolve_drop_glue(tcx, t);
                            if let ty::InstanceKind::Shim(ty::ShimKind::DropGlue(_, None)) = inst.def {
                                if let Some(t) = target {
                                    goto(st, t);
                                }
                                return Ok(Flow::Next);
                            }
                            vals[0] = Val::S(p, 8);
                        }
                        _ => return un("vtable expected in drop"),
                    }
                }
            }
            _ => {}
        }
        if rust_call {
            // untuple the last argument
            if let Some(ty) = arg_tys.last() {
                if let ty::Tuple(fs) = ty.kind() {
                    let l = self.layout(*ty)?;
                    let cx = self.cx();
                    let ly = Self::ly_of(&l, &cx);
                    let v = vals.pop().unwrap();
                    let mut o = Obj::new(ly.size, ly.align);
                    write_obj(&mut o, 0, &v);
                    for i in 0..fs.len() {
                        let fl = l.field(&cx, i);
                        vals.push(read_ly(&o, l.fields.offset(i).bytes(), Self::ly_of(&fl, &cx)));
                    }
                }
            }
        }
        if let ty::InstanceKind::Item(d) = inst.def {
            let h = self.hook(d);
            if h != Hook::No {
                return self.run_hook(st, h, d, inst, vals, dest, target);
            }
        }
        if target.is_none() {
            return self.never(st, inst);
        }
        self.push_frame(st, inst, vals, dest, target)?;
        Ok(Flow::Next)
    }
    fn never(&mut self, st: &mut State<'tcx>, inst: Instance<'tcx>) -> R<Flow<'tcx>> {
        let n = self.tcx.def_path_str(inst.def_id());
        self.oblige(st, t::b(false), format!("no panic: {}", n))?;
        Err(E::Dead)
    }
    pub fn path_of(&self, d: DefId) -> String {
        format!("{}{}", self.tcx.crate_name(d.krate), self.tcx.def_path(d).to_string_no_crate_verbose())
    }
    fn hook(&mut self, d: DefId) -> Hook {
        if let Some(h) = self.hooks.get(&d) {
            return *h;
        }
        let p = self.path_of(d);
        let last = p.rsplit("::").next().unwrap_or("").to_string();
        let foreign = self.tcx.is_foreign_item(d);
        let h = if let Some(n) = p.strip_prefix("glv::sym::") {
            match n {
                "any_bool" => Hook::Any(1, true),
                "any_u8" => Hook::Any(8, false),
                "any_u32" | "any_f32" | "any_f32_hint" => Hook::Any(32, false),
                "any_u64" | "any_usize" | "any_usize_hint" => Hook::Any(64, false),
                "assume" => Hook::Assume,
                "check" => Hook::Check,
                "check_f32_raw" => Hook::CheckF,
                "cover" => Hook::Cover,
                "forall_impl" => Hook::Forall,
                "choose" => Hook::Choose,
                "note" => Hook::Note,
                "counters_do_not_wrap" => Hook::NoWrap,
                "is_symbolic" => Hook::Symbolic,
                _ => Hook::No,
            }
        } else if last == "miri_promise_symbolic_alignment" || last.starts_with("__rust_no_alloc_shim") || last == "__rust_alloc_error_handler_should_panic_v2" {
            Hook::Nop
        } else if last == "simd_contains" && p.contains("::pattern::") {
            Hook::NoneBool
        } else if p == "stacker::remaining_stack" {
            Hook::NoneUsize
        } else if last == "hashmap_random_keys" || (p.starts_with("std::hash::random::") && last == "new") {
            Hook::Keys
        } else if last == "__rust_alloc" {
            Hook::Alloc
        } else if last == "__rust_alloc_zeroed" {
            Hook::AllocZ
        } else if last == "__rust_realloc" {
            Hook::Realloc
        } else if last == "__rust_dealloc" {
            Hook::Dealloc
        } else if foreign {
            self.math.push(last);
            Hook::Math((self.math.len() - 1) as u8)
        } else {
            if !matches!(self.tcx.def_kind(d), rustc_hir::def::DefKind::Fn | rustc_hir::def::DefKind::AssocFn) {
                self.hooks.insert(d, Hook::No);
                return Hook::No;
            }
            let sig = self.tcx.fn_sig(d).skip_binder().skip_binder();
            if sig.output().is_never() && !p.starts_with("glv") {
                Hook::Never
            } else {
                Hook::No
            }
        };
        self.hooks.insert(d, h);
        h
    }
    fn str_of(&mut self, st: &State<'tcx>, v: &Val) -> R<String> {
        if let Val::Pair(_, _, p, _, _, n) = v {
            let (a, o) = self.ptr(st, p)?;
            let o = self.conc(st, o)?;
            let n = self.int_sc(n)?;
            let n = self.conc(st, n)?;
            let ob = match self.obj(st, a) {
                Some(o) => o.clone(),
                None => return Ok(String::new()),
            };
            let mut s = vec![];
            for i in 0..n {
                match ob.read(o + i, 1) {
                    Sc::T(x) => s.push(t::as_const(x).unwrap_or(b'?' as u128) as u8),
                    _ => s.push(b'?'),
                }
            }
            return Ok(String::from_utf8_lossy(&s).into_owned());
        }
        un("string expected")
    }
    pub fn finish(&mut self, st: &mut State<'tcx>, dest: Option<(Pl, Ly)>, v: Val, target: Option<usize>) -> R<Flow<'tcx>> {
        if let Some((pl, ly)) = dest {
            let v = retype(&v, ly);
            self.store(st, &pl, &v)?;
        }
        match target {
            Some(b) => {
                goto(st, b);
                Ok(Flow::Next)
            }
            None => Err(E::Dead),
        }
    }
    fn run_hook(
        &mut self,
        st: &mut State<'tcx>,
        h: Hook,
        _d: DefId,
        inst: Instance<'tcx>,
        vals: Vec<Val>,
        dest: Option<(Pl, Ly)>,
        target: Option<usize>,
    ) -> R<Flow<'tcx>> {
        match h {
            Hook::No => unreachable!(),
            Hook::Any(w, b) => {
                let n = self.tcx.item_name(inst.def_id());
                let x = if b { t::fresh(n.as_str(), Sort::Bool) } else { t::fresh(n.as_str(), Sort::Bv(w as u32)) };
                st.tape.push((x, w));
                self.finish(st, dest, Val::S(Sc::T(x), if b { 1 } else { w / 8 }), target)
            }
            Hook::Assume => {
                let c = self.bool_of(&vals[0])?;
                if !self.feasible(st, c) {
                    return Err(E::Dead);
                }
                self.assume(st, c);
                self.finish(st, dest, Val::Zst, target)
            }
            Hook::Check => {
                let c = self.bool_of(&vals[0])?;
                let s = self.str_of(st, &vals[1])?;
                self.oblige(st, c, format!("spec: {}", s))?;
                self.finish(st, dest, Val::Zst, target)
            }
            Hook::CheckF => {
                let (x, y) = (self.int_of(&vals[0])?, self.int_of(&vals[1])?);
                let s = self.str_of(st, &vals[2])?;
                self.oblige_f(st, t::fsame(x, y), Some((x, y)), format!("spec: {}", s))?;
                self.finish(st, dest, Val::Zst, target)
            }
            Hook::Cover => {
                let s = self.str_of(st, &vals[0])?;
                if !self.dry {
                    if !*self.covers.entry(s.clone()).or_insert(false) {
                        let pc = st.pc.clone();
                        let r = self.smt.check(&pc) == Res::Sat;
                        self.covers.insert(s, r);
                    }
                }
                self.finish(st, dest, Val::Zst, target)
            }
            Hook::NoWrap => {
                self.no_wrap = true;
                self.finish(st, dest, Val::Zst, target)
            }
            Hook::Note => {
                let s = self.str_of(st, &vals[0])?;
                let x = self.int_of(&vals[1])?;
                eprintln!("note {}: {}", s, t::show(x, 8));
                self.finish(st, dest, Val::Zst, target)
            }
            Hook::Symbolic => self.finish(st, dest, Val::S(Sc::T(t::b(true)), 1), target),
            Hook::Choose => {
                let n = self.int_of(&vals[0])?;
                let n = self.conc(st, n)?;
                let x = t::fresh("choose", Sort::Bv(64));
                st.tape.push((x, 64));
                let (pl, ly) = dest.ok_or(E::Unsup("choose".into()))?;
                let mut v = vec![];
                for i in 0..n {
                    v.push((Some(t::eq(x, t::c64(i))), Val::S(Sc::T(t::c64(i)), 8), pl.clone(), ly, target.unwrap()));
                }
                Ok(Flow::Split(v))
            }
            Hook::Forall => {
                let label = self.str_of(st, &vals[0])?;
                let mut fi = vec![];
                for k in [3, 5] {
                    let s = self.scalar_of(&vals[k])?;
                    let (a, _) = self.ptr(st, &s)?;
                    match self.obj(st, a).map(|o| o.kind.clone()) {
                        Some(Kind::Fn(i)) => fi.push(i),
                        _ => return un("function pointer expected"),
                    }
                }
                Ok(Flow::Forall(ForallCall {
                    label,
                    s: vals[1].clone(),
                    inv: vals[2].clone(),
                    finv: fi[0],
                    body: vals[4].clone(),
                    fbody: fi[1],
                    target: target.unwrap(),
                }))
            }
            Hook::Never => self.never(st, inst),
            Hook::NoneUsize => {
                let (pl, _) = dest.ok_or(E::Unsup("hook".into()))?;
                self.store(st, &pl, &Val::S(Sc::T(t::c64(0)), 8))?;
                self.finish(st, None, Val::Zst, target)
            }
            // "no answer": the caller then searches without vector instructions
            Hook::NoneBool => self.finish(st, dest, Val::S(Sc::T(t::c(8, 2)), 1), target),
            Hook::Keys => self.finish(st, dest, Val::Pair(0, 8, Sc::T(t::c64(1)), 8, 8, Sc::T(t::c64(2))), target),
            Hook::Nop => self.finish(st, dest, Val::S(Sc::T(t::c(8, 0)), 1), target),
            Hook::Alloc | Hook::AllocZ => {
                let n = self.int_of(&vals[0])?;
                let n = self.conc(st, n)?;
                let al = self.int_of(&vals[1])?;
                let al = self.conc(st, al)?;
                if n > 1 << 31 {
                    return un("huge allocation");
                }
                let a = self.fresh_ids(1);
                let mut o = Obj::new(n, al);
                if h == Hook::AllocZ {
                    o.raw = Raw::Zero;
                }
                st.mem.set(a, Rc::new(o));
                self.finish(st, dest, Val::S(Sc::P(a, t::c64(0)), 8), target)
            }
            Hook::Realloc => {
                let p = self.scalar_of(&vals[0])?;
                let (a, _) = self.ptr(st, &p)?;
                let al = self.int_of(&vals[2])?;
                let al = self.conc(st, al)?;
                let n = self.int_of(&vals[3])?;
                let n = self.conc(st, n)?;
                let old = match self.obj(st, a) {
                    Some(o) => o.clone(),
                    None => return self.bad_access(st, "realloc of an invalid pointer"),
                };
                let b = self.fresh_ids(1);
                let mut o = Obj::new(n, al);
                let m = n.min(old.size);
                let cells = old.range(0, m);
                o.write_range(0, m, &cells);
                st.mem.remove(a);
                st.mem.set(b, Rc::new(o));
                self.finish(st, dest, Val::S(Sc::P(b, t::c64(0)), 8), target)
            }
            Hook::Dealloc => {
                let p = self.scalar_of(&vals[0])?;
                let (a, _) = self.ptr(st, &p)?;
                if st.mem.get(a).is_none() {
                    return self.bad_access(st, "double free");
                }
                st.mem.remove(a);
                self.finish(st, dest, Val::Zst, target)
            }
            Hook::Math(i) => {
                let n = self.math[i as usize].clone();
                let mut args = vec![];
                for v in &vals {
                    args.push(self.int_of(v)?);
                }
                let is32 = n.ends_with('f');
                let base = if is32 { n.trim_end_matches('f').to_string() } else { n.clone() };
                let known = ["tan", "asin", "acos", "atan", "sinh", "cosh", "tanh", "atan2", "cbrt", "expm1", "log1p", "hypot", "fdim"];
                if !known.contains(&base.as_str()) {
                    return un(format!("foreign function {}", n));
                }
                let r = fmath(&base, &args)?;
                self.finish(st, dest, Val::S(Sc::T(r), if is32 { 4 } else { 8 }), target)
            }
        }
    }

    // ---------------- the driver loop ----------------
    pub fn run(&mut self, mut st: State<'tcx>, stop: Stop) -> R<Vec<State<'tcx>>> {
        loop {
            let d = st.frames.len();
            if d < stop.depth || (d == stop.depth && stop.bb.map_or(false, |b| st.frames[d - 1].bb == b && st.frames[d - 1].stmt == 0)) {
                return Ok(vec![st]);
            }
            let r = self.step(&mut st);
            let arms: Vec<(T, Option<usize>)> = match r {
                Ok(Flow::Next) => continue,
                Ok(Flow::Split(alts)) => {
                    self.forks += 1;
                    let mut out = vec![];
                    for (c, v, pl, ly, tgt) in alts {
                        let mut s = st.clone();
                        if let Some(c) = c {
                            self.assume(&mut s, c);
                        }
                        let v = retype(&v, ly);
                        self.store(&mut s, &pl, &v)?;
                        goto(&mut s, tgt);
                        // explored to the very end, never merged with its siblings
                        let base = self.base;
                        out.extend(self.run(s, Stop { depth: base, bb: None })?);
                    }
                    self.escaped.extend(out);
                    return Ok(vec![]);
                }
                Ok(Flow::Forall(f)) => {
                    let v = self.forall(st, f)?;
                    let mut out = vec![];
                    for s in v {
                        out.extend(self.run(s, stop)?);
                    }
                    return Ok(out);
                }
                Ok(Flow::Branch(arms)) => arms.into_iter().map(|(c, b)| (c, Some(b))).collect(),
                Err(E::Fork(cs)) => cs.into_iter().map(|c| (c, None)).collect(),
                Err(E::Conc(x)) => {
                    let pc = st.pc.clone();
                    match self.smt.model(&pc, &[x]) {
                        Some(v) => {
                            let e = t::eq(x, t::c(t::width(x), v[0]));
                            vec![(e, None), (t::not(e), None)]
                        }
                        None => {
                            if self.smt.check(&pc) == Res::Unsat {
                                return Ok(vec![]);
                            }
                            return un(format!("cannot concretize {}", t::show(x, 4)));
                        }
                    }
                }
                Err(E::Dead) => return Ok(vec![]),
                Err(E::Unsup(s)) => {
                    let (f, l) = self.where_am_i(&st);
                    if s.contains(" [in ") {
                        return Err(E::Unsup(s));
                    }
                    let stack: Vec<String> = st.frames.iter().rev().take(8).map(|f| f.body.short.clone()).collect();
                    return Err(E::Unsup(format!("{} [in {} at {}; stack {}]", s, f, l, stack.join(" < "))));
                }
            };
            // decide
            let mut live: Vec<(T, Option<usize>)> = vec![];
            let mut decided = None;
            for (c, b) in &arms {
                match self.quick(&st, *c) {
                    Some(true) => {
                        decided = Some((*c, *b));
                        break;
                    }
                    Some(false) => {}
                    None => live.push((*c, *b)),
                }
            }
            if let Some((c, b)) = decided {
                self.assume(&mut st, c);
                if let Some(b) = b {
                    goto(&mut st, b);
                }
                continue;
            }
            let mut feas = vec![];
            for (c, b) in live {
                if self.feasible(&st, c) {
                    feas.push((c, b));
                }
            }
            if feas.is_empty() {
                return Ok(vec![]);
            }
            if feas.len() == 1 {
                self.assume(&mut st, feas[0].0);
                if let Some(b) = feas[0].1 {
                    goto(&mut st, b);
                }
                continue;
            }
            self.forks += 1;
            let fi = st.frames.len() - 1;
            let cur = &st.frames[fi];
            let inner = Stop { depth: fi + 1, bb: cur.body.ipdom[cur.bb] };
            let use_inner = !self.nomerge;
            let mut results = vec![];
            for (c, b) in feas {
                let mut s = st.clone();
                self.assume(&mut s, c);
                if let Some(b) = b {
                    goto(&mut s, b);
                }
                results.extend(self.run(s, if use_inner { inner } else { stop })?);
            }
            if !use_inner {
                return Ok(results);
            }
            let mut merged = self.merge_all(results);
            if merged.is_empty() {
                return Ok(vec![]);
            }
            if merged.len() == 1 {
                st = merged.pop().unwrap();
                continue;
            }
            let mut out = vec![];
            for s in merged {
                out.extend(self.run(s, stop)?);
            }
            return Ok(out);
        }
    }
    pub fn merge_all(&mut self, v: Vec<State<'tcx>>) -> Vec<State<'tcx>> {
        let mut out: Vec<State<'tcx>> = vec![];
        'o: for s in v {
            for m in out.iter_mut() {
                if let Some(x) = self.merge(m, &s) {
                    *m = x;
                    continue 'o;
                }
            }
            out.push(s);
        }
        out
    }
    fn merge(&mut self, a: &State<'tcx>, b: &State<'tcx>) -> Option<State<'tcx>> {
        if a.frames.len() != b.frames.len() {
            return None;
        }
        for (x, y) in a.frames.iter().zip(&b.frames) {
            if x.base != y.base || x.bb != y.bb || x.stmt != y.stmt {
                return None;
            }
        }
        let n = a.pc.iter().zip(&b.pc).take_while(|(x, y)| x == y).count();
        let (ra, rb) = (&a.pc[n..], &b.pc[n..]);
        if ra.is_empty() || rb.is_empty() {
            return None;
        }
        let cond = if t::not(ra[0]) == rb[0] { ra[0] } else { t::and_all(ra) };
        let mem = a.mem.merge(&b.mem, cond)?;
        let (ca, cb) = (t::and_all(ra), t::and_all(rb));
        let mut pc: Vec<T> = a.pc[..n].to_vec();
        // keep conjuncts common to both
        let mut common = vec![];
        for x in ra {
            if rb.contains(x) {
                common.push(*x);
            }
        }
        let o = if common.is_empty() {
            t::or(ca, cb)
        } else {
            let fa: Vec<T> = ra.iter().copied().filter(|x| !common.contains(x)).collect();
            let fb: Vec<T> = rb.iter().copied().filter(|x| !common.contains(x)).collect();
            t::or(t::and_all(&fa), t::and_all(&fb))
        };
        pc.extend(common);
        if t::as_bool_const(o) != Some(true) {
            pc.push(o);
        }
        let known: BTreeMap<T, u128> = a.known.iter().filter(|(k, v)| b.known.get(k) == Some(v)).map(|(k, v)| (*k, *v)).collect();
        let tape = if a.tape.len() >= b.tape.len() { a.tape.clone() } else { b.tape.clone() };
        self.merges += 1;
        Some(State { mem, frames: a.frames.clone(), pc, known: Rc::new(known), tape })
    }

    /// call a function to completion; returns the states together with the result value
    pub fn call_fn(&mut self, st: State<'tcx>, inst: Instance<'tcx>, args: Vec<Val>, rly: Ly) -> R<Vec<(State<'tcx>, Val)>> {
        let mut st = st;
        let a = self.fresh_ids(1);
        st.mem.set(a, Rc::new(Obj::new(rly.size, rly.align)));
        let pl = Pl { a, off: t::c64(0), meta: None };
        let d = st.frames.len();
        let ret = if rly.size > 0 { Some((pl.clone(), rly)) } else { None };
        self.push_frame(&mut st, inst, args, ret, None)?;
        let base = std::mem::replace(&mut self.base, d + 1);
        let esc = std::mem::take(&mut self.escaped);
        let rs = self.run(st, Stop { depth: d + 1, bb: None });
        self.base = base;
        let esc = std::mem::replace(&mut self.escaped, esc);
        let mut rs = self.merge_all(rs?);
        rs.extend(esc);
        let mut out = vec![];
        for mut s in rs {
            let v = self.load(&mut s, &pl, rly)?;
            s.mem.remove(a);
            out.push((s, v));
        }
        Ok(out)
    }
}

/// float comparisons and equations on remainders
fn hard_atoms(c: T) -> bool {
    match t::kind(c) {
        t::K::A1(Op::Not, x) => hard_atoms(x),
        t::K::A2(Op::And | Op::Or, x, y) => hard_atoms(x) && hard_atoms(y),
        t::K::A2(Op::FLt | Op::FLe | Op::FEq, ..) => true,
        t::K::A2(Op::Eq, x, y) => [x, y].iter().any(|x| matches!(t::kind(*x), t::K::A2(Op::URem | Op::UDiv, ..)) || matches!(t::kind(*x), t::K::A1(Op::Fun(_), _))),
        _ => false,
    }
}
pub fn goto(st: &mut State, b: usize) {
    let f = st.frames.last_mut().unwrap();
    f.bb = b;
    f.stmt = 0;
}
pub fn mkptr(p: &Pl) -> Sc {
    if p.a == 0 {
        Sc::T(p.off)
    } else {
        Sc::P(p.a, p.off)
    }
}
pub fn to_bool(x: T) -> T {
    if t::is_bool(x) {
        x
    } else {
        t::not(t::eq(x, t::c(t::width(x), 0)))
    }
}
pub fn norm(x: T, p: Prim) -> T {
    match p {
        Prim::Bool => to_bool(x),
        Prim::Int(w, _) => {
            let x = bv(x, w);
            let xw = t::width(x);
            if xw > w {
                t::extract(x, w - 1, 0)
            } else if xw < w {
                t::zext(x, w)
            } else {
                x
            }
        }
        _ => x,
    }
}
pub fn ptr_add(s: &Sc, o: T) -> Sc {
    match s {
        Sc::P(a, x) => Sc::P(*a, t::add(*x, o)),
        Sc::T(x) => Sc::T(t::add(*x, o)),
        Sc::Choice(v) => Sc::Choice(Rc::new(v.iter().map(|(c, s)| (*c, ptr_add(s, o))).collect())),
        Sc::Undef => Sc::Undef,
    }
}
pub fn retype(v: &Val, ly: Ly) -> Val {
    match (v, ly.abi) {
        (_, Abi::Zst) => Val::Zst,
        (Val::S(_, n), Abi::Scalar(m)) if *n == m => v.clone(),
        (Val::Pair(a, b, _, c, d, _), Abi::Pair(e, f, g, h)) if (*a, *b, *c, *d) == (e, f, g, h) => v.clone(),
        (Val::Zst, _) => v.clone(),
        _ => {
            let mut o = Obj::new(ly.size, ly.align);
            write_obj(&mut o, 0, v);
            read_ly(&o, 0, ly)
        }
    }
}
pub fn int_cast(x: T, f: Prim, to: Prim) -> T {
    let tw = match to {
        Prim::Int(w, _) => w,
        Prim::Bool => 8,
        _ => 64,
    };
    let x = match f {
        Prim::Bool => return t::ite(to_bool(x), t::c(tw, 1), t::c(tw, 0)),
        _ => x,
    };
    let w = t::width(x);
    let signed = matches!(f, Prim::Int(_, true));
    if w == tw {
        x
    } else if w > tw {
        t::extract(x, tw - 1, 0)
    } else if signed {
        t::sext(x, tw)
    } else {
        t::zext(x, tw)
    }
}
/// number of leaves of a conditional term, and whether one is constant
fn const_leaf(x: T) -> (u32, bool) {
    match t::kind(x) {
        t::K::A3(Op::Ite, _, p, q) => {
            let a = const_leaf(p);
            if a.0 > 12 {
                return a;
            }
            let b = const_leaf(q);
            (a.0 + b.0, a.1 || b.1)
        }
        t::K::C(_) => (1, true),
        _ => (1, false),
    }
}
pub fn i2f(x: T, signed: bool, to64: bool) -> T {
    let w = t::width(x);
    if let Some(v) = t::as_const(x) {
        return match (signed, to64) {
            (true, false) => t::cf32(t::sext_const(v, w) as f32),
            (true, true) => t::cf64(t::sext_const(v, w) as f64),
            (false, false) => t::cf32(v as f32),
            (false, true) => t::cf64(v as f64),
        };
    }
    // strip extensions: the value is what matters
    let (x, signed) = match t::kind(x) {
        t::K::A1(Op::ZExt(_), y) => (y, false),
        t::K::A1(Op::SExt(_), y) if signed => (y, true),
        _ => (x, signed),
    };
    // alternatives one of which is a constant, possibly plus a constant
    let (base, off) = match t::kind(x) {
        t::K::A2(Op::Add, b, k) if t::as_const(k).is_some() => (b, Some(k)),
        _ => (x, None),
    };
    if let t::K::A3(Op::Ite, c, p, q) = t::kind(base) {
        let n = const_leaf(base);
        if n.0 <= 12 && n.1 {
            let plus = |v| off.map_or(v, |k| t::add(v, k));
            return t::ite(c, i2f(plus(p), signed, to64), i2f(plus(q), signed, to64));
        }
    }
    t::fun(&format!("{}2f{}", if signed { "s" } else { "u" }, if to64 { 64 } else { 32 }), &[x], Sort::Bv(if to64 { 64 } else { 32 }))
}
pub fn f2i(x: T, w: u32, s: bool) -> T {
    let fw = t::width(x);
    if let Some(v) = t::as_const(x) {
        let d = if fw == 32 { f32::from_bits(v as u32) as f64 } else { f64::from_bits(v as u64) };
        let r: u128 = match (w, s) {
            (8, false) => d as u8 as u128,
            (16, false) => d as u16 as u128,
            (32, false) => d as u32 as u128,
            (64, false) => d as u64 as u128,
            (128, false) => d as u128,
            (8, true) => d as i8 as u128,
            (16, true) => d as i16 as u128,
            (32, true) => d as i32 as u128,
            (64, true) => d as i64 as u128,
            _ => d as i128 as u128,
        };
        return t::c(w, r);
    }
    if let t::K::A3(Op::Ite, c, p, q) = t::kind(x) {
        return t::ite(c, f2i(p, w, s), f2i(q, w, s));
    }
    t::fun(&format!("f2{}{}", if s { "s" } else { "u" }, w), &[x], Sort::Bv(w))
}
pub fn f2f(x: T, to64: bool) -> T {
    let w = t::width(x);
    if (w == 64) == to64 {
        return x;
    }
    if let Some(v) = t::as_const(x) {
        return if to64 { t::cf64(f32::from_bits(v as u32) as f64) } else { t::cf32(f64::from_bits(v as u64) as f32) };
    }
    if to64 {
        t::fun("f2d", &[x], Sort::Bv(64))
    } else {
        // f32 -> f64 -> f32 is exact
        if let t::K::A1(Op::Fun(i), y) = t::kind(x) {
            if i == t::name_id("f2d") {
                return y;
            }
        }
        t::fun("d2f", &[x], Sort::Bv(32))
    }
}
pub fn fmath(name: &str, a: &[T]) -> R<T> {
    let w = t::width(a[0]);
    let cs: Option<Vec<u128>> = a.iter().map(|x| t::as_const(*x)).collect();
    if let Some(cs) = cs {
        macro_rules! ev {
            ($ty:ident, $u:ident) => {{
                let x = $ty::from_bits(cs[0] as $u);
                let y = if cs.len() > 1 { $ty::from_bits(cs[1] as $u) } else { 0.0 };
                let z = if cs.len() > 2 { $ty::from_bits(cs[2] as $u) } else { 0.0 };
                let r = match name {
                    "sqrt" => x.sqrt(),
                    "sin" => x.sin(),
                    "cos" => x.cos(),
                    "tan" => x.tan(),
                    "asin" => x.asin(),
                    "acos" => x.acos(),
                    "atan" => x.atan(),
                    "sinh" => x.sinh(),
                    "cosh" => x.cosh(),
                    "tanh" => x.tanh(),
                    "exp" => x.exp(),
                    "exp2" => x.exp2(),
                    "log" => x.ln(),
                    "log10" => x.log10(),
                    "log2" => x.log2(),
                    "floor" => x.floor(),
                    "ceil" => x.ceil(),
                    "trunc" => x.trunc(),
                    "round" => x.round(),
                    "round_ties_even" => x.round_ties_even(),
                    "powf" => x.powf(y),
                    "powi" => x.powi(cs[1] as u32 as i32),
                    "fma" => x.mul_add(y, z),
                    "fmuladd" => x * y + z,
                    "copysign" => x.copysign(y),
                    "atan2" => x.atan2(y),
                    "hypot" => x.hypot(y),
                    "cbrt" => x.cbrt(),
                    "expm1" => x.exp_m1(),
                    "log1p" => x.ln_1p(),
                    _ => return un(format!("math {}", name)),
                };
                r.to_bits() as u128
            }};
        }
        let r = if w == 32 { ev!(f32, u32) } else { ev!(f64, u64) };
        return Ok(t::c(w, r));
    }
    Ok(t::fun(name, a, Sort::Bv(w)))
}
pub fn int_bin(op: BinOp, x: T, y: T, w: u32, s: bool, rw: u32, ovoff: u64) -> R<Val> {
    let n = (w / 8) as u8;
    let v = |x: T| Ok(Val::S(Sc::T(x), n));
    let bl = |x: T| Ok(Val::S(Sc::T(x), 1));
    let shamt = |y: T| -> T {
        // normalise the shift amount to w bits, masked
        let y = if rw > w {
            t::extract(y, w - 1, 0)
        } else if rw < w {
            t::zext(y, w)
        } else {
            y
        };
        t::bin(Op::BAnd, y, t::c(w, (w - 1) as u128))
    };
    match op {
        BinOp::Add | BinOp::AddUnchecked => v(t::add(x, y)),
        BinOp::Sub | BinOp::SubUnchecked => v(t::sub(x, y)),
        BinOp::Mul | BinOp::MulUnchecked => v(t::mul(x, y)),
        BinOp::Div => v(t::bin(if s { Op::SDiv } else { Op::UDiv }, x, y)),
        BinOp::Rem => v(t::bin(if s { Op::SRem } else { Op::URem }, x, y)),
        BinOp::BitAnd => v(t::bin(Op::BAnd, x, y)),
        BinOp::BitOr => v(t::bin(Op::BOr, x, y)),
        BinOp::BitXor => v(t::bin(Op::BXor, x, y)),
        BinOp::Shl | BinOp::ShlUnchecked => v(t::bin(Op::Shl, x, shamt(y))),
        BinOp::Shr | BinOp::ShrUnchecked => v(t::bin(if s { Op::AShr } else { Op::LShr }, x, shamt(y))),
        BinOp::Eq => bl(t::eq(x, y)),
        BinOp::Ne => bl(t::not(t::eq(x, y))),
        BinOp::Lt => bl(if s { t::slt(x, y) } else { t::ult(x, y) }),
        BinOp::Le => bl(if s { t::sle(x, y) } else { t::ule(x, y) }),
        BinOp::Gt => bl(if s { t::slt(y, x) } else { t::ult(y, x) }),
        BinOp::Ge => bl(if s { t::sle(y, x) } else { t::ule(y, x) }),
        BinOp::Cmp => {
            let lt = if s { t::slt(x, y) } else { t::ult(x, y) };
            Ok(Val::S(Sc::T(t::ite(lt, t::c(8, 255), t::ite(t::eq(x, y), t::c(8, 0), t::c(8, 1)))), 1))
        }
        BinOp::AddWithOverflow | BinOp::SubWithOverflow | BinOp::MulWithOverflow => {
            let (r, o) = overflow(op, x, y, w, s);
            Ok(Val::Pair(0, n, Sc::T(r), ovoff, 1, Sc::T(o)))
        }
        BinOp::Offset => un("offset on int"),
    }
}
pub fn overflow(op: BinOp, x: T, y: T, w: u32, s: bool) -> (T, T) {
    match (op, s) {
        (BinOp::AddWithOverflow | BinOp::Add, false) => {
            let r = t::add(x, y);
            let o = match (t::as_const(x), t::as_const(y)) {
                (None, Some(k)) if k > 0 => t::ult(t::c(w, t::mask(w) - k), x),
                _ => t::ult(r, x),
            };
            (r, o)
        }
        (BinOp::SubWithOverflow | BinOp::Sub, false) => (t::sub(x, y), t::ult(x, y)),
        (BinOp::MulWithOverflow | BinOp::Mul, false) => {
            let r = t::mul(x, y);
            if let (Some(p), Some(q)) = (t::as_const(x), t::as_const(y)) {
                return (r, t::b(p.checked_mul(q).map_or(true, |z| z > t::mask(w))));
            }
            if let Some(k) = t::as_const(y) {
                if k == 0 {
                    return (r, t::b(false));
                }
                return (r, t::ult(t::c(w, t::mask(w) / k), x));
            }
            if let Some(k) = t::as_const(x) {
                if k == 0 {
                    return (r, t::b(false));
                }
                return (r, t::ult(t::c(w, t::mask(w) / k), y));
            }
            let big = t::mul(t::zext(x, 2 * w), t::zext(y, 2 * w));
            (r, t::not(t::eq(t::extract(big, 2 * w - 1, w), t::c(w, 0))))
        }
        (_, true) => {
            let (e, f) = (t::sext(x, 2 * w), t::sext(y, 2 * w));
            let (r, big) = match op {
                BinOp::AddWithOverflow | BinOp::Add => (t::add(x, y), t::add(e, f)),
                BinOp::SubWithOverflow | BinOp::Sub => (t::sub(x, y), t::sub(e, f)),
                _ => (t::mul(x, y), t::mul(e, f)),
            };
            (r, t::not(t::eq(t::sext(r, 2 * w), big)))
        }
        _ => unreachable!(),
    }
}
