//! Z3 process in SMT-LIB2 incremental mode.
use crate::term::{self, Op, Sort, K, T};
use std::collections::{HashMap, HashSet};
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Res {
    Sat,
    Unsat,
    Unknown,
}

pub struct Smt {
    /// division and products of unknowns as uninterpreted functions
    coarse: bool,
    child: Option<(Child, ChildStdin, BufReader<ChildStdout>)>,
    defined: HashSet<T>,
    funs: HashSet<(u32, Vec<Sort>, Sort)>,
    cache: HashMap<Vec<T>, Res>,
    pub queries: u64,
    pub time: f64,
    pub max_time: f64,
    pub timeout_ms: u64,
    /// multiplies every time limit
    pub patience: u64,
    pub bin: String,
}

const PRELUDE: &str = r#"
(set-option :print-success false)
(define-fun nan32 ((a (_ BitVec 32))) Bool (bvugt (bvand a #x7fffffff) #x7f800000))
(define-fun zero32 ((a (_ BitVec 32))) Bool (= (bvand a #x7fffffff) #x00000000))
(define-fun ord32 ((a (_ BitVec 32))) (_ BitVec 32) (ite (= ((_ extract 31 31) a) #b1) (bvneg (bvand a #x7fffffff)) a))
(define-fun flt32 ((a (_ BitVec 32)) (b (_ BitVec 32))) Bool (and (not (nan32 a)) (not (nan32 b)) (bvslt (ord32 a) (ord32 b))))
(define-fun fle32 ((a (_ BitVec 32)) (b (_ BitVec 32))) Bool (and (not (nan32 a)) (not (nan32 b)) (bvsle (ord32 a) (ord32 b))))
(define-fun feq32 ((a (_ BitVec 32)) (b (_ BitVec 32))) Bool (and (not (nan32 a)) (not (nan32 b)) (= (ord32 a) (ord32 b))))
(define-fun nan64 ((a (_ BitVec 64))) Bool (bvugt (bvand a #x7fffffffffffffff) #x7ff0000000000000))
(define-fun ord64 ((a (_ BitVec 64))) (_ BitVec 64) (ite (= ((_ extract 63 63) a) #b1) (bvneg (bvand a #x7fffffffffffffff)) a))
(define-fun flt64 ((a (_ BitVec 64)) (b (_ BitVec 64))) Bool (and (not (nan64 a)) (not (nan64 b)) (bvslt (ord64 a) (ord64 b))))
(define-fun fle64 ((a (_ BitVec 64)) (b (_ BitVec 64))) Bool (and (not (nan64 a)) (not (nan64 b)) (bvsle (ord64 a) (ord64 b))))
(define-fun feq64 ((a (_ BitVec 64)) (b (_ BitVec 64))) Bool (and (not (nan64 a)) (not (nan64 b)) (= (ord64 a) (ord64 b))))
(declare-fun ufadd32 ((_ BitVec 32) (_ BitVec 32)) (_ BitVec 32))
(declare-fun ufmul32 ((_ BitVec 32) (_ BitVec 32)) (_ BitVec 32))
(declare-fun ufdiv32 ((_ BitVec 32) (_ BitVec 32)) (_ BitVec 32))
(declare-fun ufrem32 ((_ BitVec 32) (_ BitVec 32)) (_ BitVec 32))
(declare-fun ufadd64 ((_ BitVec 64) (_ BitVec 64)) (_ BitVec 64))
(declare-fun ufmul64 ((_ BitVec 64) (_ BitVec 64)) (_ BitVec 64))
(declare-fun ufdiv64 ((_ BitVec 64) (_ BitVec 64)) (_ BitVec 64))
(declare-fun ufrem64 ((_ BitVec 64) (_ BitVec 64)) (_ BitVec 64))
(declare-fun uf_urem32 ((_ BitVec 32) (_ BitVec 32)) (_ BitVec 32))
(declare-fun uf_urem64 ((_ BitVec 64) (_ BitVec 64)) (_ BitVec 64))
(declare-fun uf_urem128 ((_ BitVec 128) (_ BitVec 128)) (_ BitVec 128))
(declare-fun uf_udiv32 ((_ BitVec 32) (_ BitVec 32)) (_ BitVec 32))
(declare-fun uf_udiv64 ((_ BitVec 64) (_ BitVec 64)) (_ BitVec 64))
(declare-fun uf_udiv128 ((_ BitVec 128) (_ BitVec 128)) (_ BitVec 128))
(declare-fun uf_srem32 ((_ BitVec 32) (_ BitVec 32)) (_ BitVec 32))
(declare-fun uf_srem64 ((_ BitVec 64) (_ BitVec 64)) (_ BitVec 64))
(declare-fun uf_srem128 ((_ BitVec 128) (_ BitVec 128)) (_ BitVec 128))
(declare-fun uf_sdiv32 ((_ BitVec 32) (_ BitVec 32)) (_ BitVec 32))
(declare-fun uf_sdiv64 ((_ BitVec 64) (_ BitVec 64)) (_ BitVec 64))
(declare-fun uf_sdiv128 ((_ BitVec 128) (_ BitVec 128)) (_ BitVec 128))
(declare-fun uf_mul32 ((_ BitVec 32) (_ BitVec 32)) (_ BitVec 32))
(declare-fun uf_mul64 ((_ BitVec 64) (_ BitVec 64)) (_ BitVec 64))
(declare-fun uf_mul128 ((_ BitVec 128) (_ BitVec 128)) (_ BitVec 128))
(define-fun ufneg32 ((a (_ BitVec 32))) (_ BitVec 32) (bvxor a #x80000000))
(define-fun ufabs32 ((a (_ BitVec 32))) (_ BitVec 32) (bvand a #x7fffffff))
(define-fun ufneg64 ((a (_ BitVec 64))) (_ BitVec 64) (bvxor a #x8000000000000000))
(define-fun ufabs64 ((a (_ BitVec 64))) (_ BitVec 64) (bvand a #x7fffffffffffffff))
"#;

fn ss(s: Sort) -> String {
    match s {
        Sort::Bool => "Bool".into(),
        Sort::Bv(w) => format!("(_ BitVec {})", w),
    }
}

impl Smt {
    pub fn new(timeout_ms: u64, coarse: bool) -> Self {
        let patience = std::env::var("MIRV_PATIENCE").ok().and_then(|x| x.parse().ok()).unwrap_or(1);
        Smt {
            patience,
            coarse,
            child: None,
            defined: HashSet::new(),
            funs: HashSet::new(),
            cache: HashMap::new(),
            queries: 0,
            time: 0.0,
            max_time: 0.0,
            timeout_ms: timeout_ms * patience,
            bin: std::env::var("MIRV_Z3").unwrap_or("z3".into()),
        }
    }
    fn start(&mut self) {
        if self.coarse && self.queries % 500 == 499 {
            self.stop();
        }
        if self.child.is_some() {
            return;
        }
        let mut ch = Command::new(&self.bin)
            .args(["-in", "-smt2", &format!("-t:{}", self.timeout_ms), "-memory:6000"])
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .expect("cannot start z3");
        let mut i = ch.stdin.take().unwrap();
        let o = BufReader::new(ch.stdout.take().unwrap());
        i.write_all(PRELUDE.as_bytes()).unwrap();
        self.child = Some((ch, i, o));
        self.defined.clear();
        self.funs.clear();
    }
    fn stop(&mut self) {
        if let Some((mut ch, _, _)) = self.child.take() {
            let _ = ch.kill();
            let _ = ch.wait();
        }
    }
    fn define(&mut self, root: T, out: &mut String) {
        let mut stack = vec![(root, false)];
        while let Some((t, done)) = stack.pop() {
            if self.defined.contains(&t) {
                continue;
            }
            let (k, s) = term::with(|c| (c.nodes[t as usize].k.clone(), c.nodes[t as usize].s));
            if !done {
                stack.push((t, true));
                for a in term::args(&k) {
                    if !self.defined.contains(&a) {
                        stack.push((a, false));
                    }
                }
                continue;
            }
            self.defined.insert(t);
            let body = match &k {
                K::B(v) => v.to_string(),
                K::C(v) => {
                    let w = match s {
                        Sort::Bv(w) => w,
                        _ => 1,
                    };
                    format!("(_ bv{} {})", v, w)
                }
                K::Var(i) => {
                    let n = term::with(|c| c.vars[*i as usize].0.clone());
                    out.push_str(&format!("(declare-const |{}| {})\n", n, ss(s)));
                    format!("|{}|", n)
                }
                K::A1(op, _) | K::A2(op, _, _) | K::A3(op, _, _, _) | K::An(op, _) => {
                    let a = term::args(&k);
                    let fw = if a.is_empty() { 32 } else { term::width(a[0]) };
                    let unknown = !a.is_empty() && term::as_const(a[a.len() - 1]).is_none();
                    let f = match op {
                        Op::URem | Op::UDiv | Op::SRem | Op::SDiv | Op::Mul if self.coarse && unknown && matches!(fw, 32 | 64 | 128) => format!(
                            "uf_{}{}",
                            match op {
                                Op::URem => "urem",
                                Op::UDiv => "udiv",
                                Op::SRem => "srem",
                                Op::SDiv => "sdiv",
                                _ => "mul",
                            },
                            fw
                        ),
                        Op::Not => "not".to_string(),
                        Op::And => "and".into(),
                        Op::Or => "or".into(),
                        Op::Ite => "ite".into(),
                        Op::Eq => "=".into(),
                        Op::Add => "bvadd".into(),
                        Op::Sub => "bvsub".into(),
                        Op::Mul => "bvmul".into(),
                        Op::UDiv => "bvudiv".into(),
                        Op::URem => "bvurem".into(),
                        Op::SDiv => "bvsdiv".into(),
                        Op::SRem => "bvsrem".into(),
                        Op::BAnd => "bvand".into(),
                        Op::BOr => "bvor".into(),
                        Op::BXor => "bvxor".into(),
                        Op::BNot => "bvnot".into(),
                        Op::Neg => "bvneg".into(),
                        Op::Shl => "bvshl".into(),
                        Op::LShr => "bvlshr".into(),
                        Op::AShr => "bvashr".into(),
                        Op::Ult => "bvult".into(),
                        Op::Ule => "bvule".into(),
                        Op::Slt => "bvslt".into(),
                        Op::Sle => "bvsle".into(),
                        Op::Concat => "concat".into(),
                        Op::Extract(h, l) => format!("(_ extract {} {})", h, l),
                        Op::ZExt(n) => format!("(_ zero_extend {})", n),
                        Op::SExt(n) => format!("(_ sign_extend {})", n),
                        Op::FAdd => format!("ufadd{}", fw),
                        Op::FMul => format!("ufmul{}", fw),
                        Op::FDiv => format!("ufdiv{}", fw),
                        Op::FRem => format!("ufrem{}", fw),
                        Op::FNeg => format!("ufneg{}", fw),
                        Op::FAbs => format!("ufabs{}", fw),
                        Op::FLt => format!("flt{}", fw),
                        Op::FLe => format!("fle{}", fw),
                        Op::FEq => format!("feq{}", fw),
                        Op::Fun(i) => {
                            let sorts: Vec<Sort> = a.iter().map(|x| term::sort(*x)).collect();
                            let n = term::with(|c| c.names[*i as usize].clone());
                            let full = format!(
                                "|uf_{}{}|",
                                n,
                                sorts.iter().map(|s| format!("_{}", match s { Sort::Bool => 1, Sort::Bv(w) => *w })).collect::<String>()
                            );
                            if self.funs.insert((*i, sorts.clone(), s)) {
                                out.push_str(&format!(
                                    "(declare-fun {} ({}) {})\n",
                                    full,
                                    sorts.iter().map(|x| ss(*x)).collect::<Vec<_>>().join(" "),
                                    ss(s)
                                ));
                            }
                            full
                        }
                    };
                    if a.is_empty() {
                        f
                    } else {
                        format!("({} {})", f, a.iter().map(|x| format!("t{}", x)).collect::<Vec<_>>().join(" "))
                    }
                }
            };
            out.push_str(&format!("(define-fun t{} () {} {})\n", t, ss(s), body));
            if self.coarse {
                if let K::A2(Op::URem, x, y) = k {
                    let z = format!("(_ bv0 {})", term::width(y));
                    out.push_str(&format!(
                        "(assert (=> (not (= t{y} {z})) (and (bvult t{t} t{y}) (bvule t{t} t{x}))))\n(assert (=> (bvult t{x} t{y}) (= t{t} t{x})))\n"
                    ));
                }
            }
        }
    }
    /// satisfiability of the conjunction
    pub fn check(&mut self, conj: &[T]) -> Res {
        self.check_ms(conj, self.timeout_ms / self.patience)
    }
    pub fn check_ms(&mut self, conj: &[T], ms: u64) -> Res {
        let ms = ms * self.patience;
        let mut v: Vec<T> = Vec::new();
        for &t in conj {
            match term::as_bool_const(t) {
                Some(true) => {}
                Some(false) => return Res::Unsat,
                None => v.push(t),
            }
        }
        v.sort();
        v.dedup();
        for &t in &v {
            if v.binary_search(&term::not(t)).is_ok() {
                return Res::Unsat;
            }
        }
        if v.is_empty() {
            return Res::Sat;
        }
        if let Some(r) = self.cache.get(&v) {
            return *r;
        }
        let t0 = std::time::Instant::now();
        self.start();
        let mut s = String::new();
        for &t in &v {
            self.define(t, &mut s);
        }
        s.push_str("(push)\n");
        for &t in &v {
            s.push_str(&format!("(assert t{})\n", t));
        }
        s.push_str(&format!("(set-option :timeout {})\n(check-sat)\n(set-option :timeout {})\n(pop)\n", ms, self.timeout_ms));
        let (_, i, o) = self.child.as_mut().unwrap();
        let mut line = String::new();
        let ok = i.write_all(s.as_bytes()).is_ok() && i.flush().is_ok() && o.read_line(&mut line).is_ok();
        let r = match line.trim() {
            "sat" if ok => Res::Sat,
            "unsat" if ok => Res::Unsat,
            "unknown" if ok => Res::Unknown,
            other => {
                eprintln!("smt: unexpected answer {:?}", other);
                self.stop();
                Res::Unknown
            }
        };
        let dt = t0.elapsed().as_secs_f64();
        if dt > 0.05 && std::env::var("MIRV_TRACE").is_ok() {
            eprintln!("slow query {:.1}s {:?} last: {}", dt, r, term::show(*conj.last().unwrap(), 6));
        }
        self.queries += 1;
        self.time += dt;
        if dt > self.max_time {
            self.max_time = dt;
        }
        if r != Res::Unknown || ms >= self.timeout_ms {
            self.cache.insert(v, r);
        }
        r
    }
    /// values of the given terms in some model of conj
    pub fn model(&mut self, conj: &[T], ts: &[T]) -> Option<Vec<u128>> {
        self.start();
        let mut s = String::new();
        for &t in conj.iter().chain(ts) {
            self.define(t, &mut s);
        }
        s.push_str("(push)\n");
        for &t in conj {
            s.push_str(&format!("(assert t{})\n", t));
        }
        s.push_str("(check-sat)\n");
        let (_, i, o) = self.child.as_mut().unwrap();
        i.write_all(s.as_bytes()).ok()?;
        i.flush().ok()?;
        let mut line = String::new();
        o.read_line(&mut line).ok()?;
        let mut out = Some(vec![]);
        if line.trim() == "sat" {
            for &t in ts {
                i.write_all(format!("(eval t{})\n", t).as_bytes()).ok()?;
                i.flush().ok()?;
                let mut l = String::new();
                o.read_line(&mut l).ok()?;
                let l = l.trim();
                let v = if let Some(h) = l.strip_prefix("#x") {
                    u128::from_str_radix(h, 16).ok()
                } else if let Some(h) = l.strip_prefix("#b") {
                    u128::from_str_radix(h, 2).ok()
                } else {
                    match l {
                        "true" => Some(1),
                        "false" => Some(0),
                        _ => None,
                    }
                };
                match (v, &mut out) {
                    (Some(v), Some(o)) => o.push(v),
                    _ => out = None,
                }
            }
        } else {
            out = None;
        }
        i.write_all(b"(pop)\n").ok()?;
        out
    }
}
impl Drop for Smt {
    fn drop(&mut self) {
        self.stop();
    }
}
