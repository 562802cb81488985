//! Interval back end: bounds of integer and float terms under a path condition.
//! Round-to-nearest is monotone, so rounding the end points of an interval gives sound
//! bounds of the rounded operation.
use crate::term::{self as t, Op, K, T};
use std::collections::HashMap;

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct F {
    pub lo: f64,
    pub hi: f64,
    pub nan: bool,
}
const FULL: F = F { lo: f64::NEG_INFINITY, hi: f64::INFINITY, nan: true };
impl F {
    fn finite(&self) -> bool {
        !self.nan && self.lo.is_finite() && self.hi.is_finite()
    }
}
#[derive(Clone, Default)]
pub struct Env {
    f: HashMap<T, F>,
    i: HashMap<T, (u128, u128)>,
    /// x <= y known for unsigned terms
    le: Vec<(T, T)>,
    dead: bool,
}
pub struct Iv {
    env: Env,
    mf: HashMap<T, F>,
    mi: HashMap<T, (u128, u128)>,
    depth: u32,
    fuel: u32,
}
fn fl(w: u32, v: u128) -> f64 {
    if w == 32 {
        f32::from_bits(v as u32) as f64
    } else {
        f64::from_bits(v as u64)
    }
}
fn rnd(w: u32, x: f64) -> f64 {
    if w == 32 {
        x as f32 as f64
    } else {
        x
    }
}
fn op(w: u32, o: char, x: f64, y: f64) -> f64 {
    macro_rules! go {
        ($t:ty) => {{
            let (x, y) = (x as $t, y as $t);
            (match o {
                '+' => x + y,
                '*' => x * y,
                _ => x / y,
            }) as f64
        }};
    }
    if w == 32 {
        go!(f32)
    } else {
        go!(f64)
    }
}
fn up(w: u32, x: f64) -> f64 {
    if w == 32 {
        (x as f32).next_up() as f64
    } else {
        x.next_up()
    }
}
fn down(w: u32, x: f64) -> f64 {
    if w == 32 {
        (x as f32).next_down() as f64
    } else {
        x.next_down()
    }
}
impl Iv {
    pub fn new(pc: &[T]) -> Self {
        let mut s = Iv { env: Env::default(), mf: HashMap::new(), mi: HashMap::new(), depth: 0, fuel: 60_000 };
        for _ in 0..2 {
            for &c in pc {
                s.fuel = 4_000;
                s.learn(c, true);
            }
            s.mf.clear();
            s.mi.clear();
        }
        s.fuel = 60_000;
        s
    }
    fn set_f(&mut self, x: T, lo: f64, hi: f64) {
        let e = self.env.f.entry(x).or_insert(FULL);
        e.nan = false;
        e.lo = e.lo.max(lo);
        e.hi = e.hi.min(hi);
        if e.lo > e.hi {
            self.env.dead = true;
        }
        if let K::A1(Op::FAbs, y) = t::kind(x) {
            if hi.is_finite() {
                self.set_f(y, -hi, hi);
            }
        }
        if let K::A1(Op::FNeg, y) = t::kind(x) {
            self.set_f(y, -hi, -lo);
        }
    }
    fn set_i(&mut self, x: T, lo: u128, hi: u128) {
        let m = t::mask(t::width(x));
        let e = self.env.i.entry(x).or_insert((0, m));
        e.0 = e.0.max(lo);
        e.1 = e.1.min(hi);
        if e.0 > e.1 {
            self.env.dead = true;
            return;
        }
        let (lo, hi) = *e;
        match t::kind(x) {
            K::A2(Op::Add, y, k) => {
                if let Some(k) = t::as_const(k) {
                    // y + k in [lo,hi] without wrap known only if y's bounds allow
                    let (yl, yh) = self.int(y);
                    if yh.checked_add(k).map_or(false, |v| v <= m) {
                        let _ = yl;
                        self.set_i(y, lo.saturating_sub(k), hi.saturating_sub(k));
                    }
                }
            }
            K::A1(Op::ZExt(_), y) => {
                let my = t::mask(t::width(y));
                self.set_i(y, lo.min(my), hi.min(my));
            }
            _ => {}
        }
    }
    pub fn learn(&mut self, c: T, v: bool) {
        match t::kind(c) {
            K::B(x) => {
                if x != v {
                    self.env.dead = true;
                }
            }
            K::A1(Op::Not, x) => self.learn(x, !v),
            K::A2(Op::And, x, y) if v => {
                self.learn(x, true);
                self.learn(y, true);
            }
            K::A2(Op::Or, x, y) if !v => {
                self.learn(x, false);
                self.learn(y, false);
            }
            K::A2(Op::Or, x, y) if v => {
                if self.prove(x, false) {
                    self.learn(y, true);
                } else if self.prove(y, false) {
                    self.learn(x, true);
                }
            }
            K::A2(Op::And, x, y) if !v => {
                if self.prove(x, true) {
                    self.learn(y, false);
                } else if self.prove(y, true) {
                    self.learn(x, false);
                }
            }
            K::A2(o @ (Op::FLt | Op::FLe), x, y) => {
                let w = t::width(x);
                if v {
                    let (fx, fy) = (self.float(x), self.float(y));
                    let st = o == Op::FLt;
                    self.set_f(x, f64::NEG_INFINITY, if st { down(w, fy.hi) } else { fy.hi });
                    self.set_f(y, if st { up(w, fx.lo) } else { fx.lo }, f64::INFINITY);
                } else {
                    let (fx, fy) = (self.float(x), self.float(y));
                    if !fx.nan && !fy.nan {
                        let st = o == Op::FLe;
                        self.set_f(x, if st { up(w, fy.lo) } else { fy.lo }, f64::INFINITY);
                        self.set_f(y, f64::NEG_INFINITY, if st { down(w, fx.hi) } else { fx.hi });
                    }
                }
            }
            K::A2(Op::FEq, x, y) if v => {
                if x == y {
                    let f = self.float(x);
                    self.set_f(x, f.lo, f.hi);
                } else {
                    let (fx, fy) = (self.float(x), self.float(y));
                    self.set_f(x, fy.lo, fy.hi);
                    self.set_f(y, fx.lo, fx.hi);
                }
            }
            K::A2(Op::FEq, x, y) if x != y => {
                // x != const at an end point
                for (x, y) in [(x, y), (y, x)] {
                    let (fx, fy) = (self.float(x), self.float(y));
                    let w = t::width(x);
                    if !fx.nan && !fy.nan && fy.lo == fy.hi {
                        if fx.lo == fy.lo {
                            self.set_f(x, up(w, fx.lo), f64::INFINITY);
                        } else if fx.hi == fy.lo {
                            self.set_f(x, f64::NEG_INFINITY, down(w, fx.hi));
                        }
                    }
                }
            }
            K::A2(Op::Ult, x, y) => {
                let (ix, iy) = (self.int(x), self.int(y));
                if v {
                    if iy.1 == 0 {
                        self.env.dead = true;
                        return;
                    }
                    self.set_i(x, 0, iy.1 - 1);
                    self.set_i(y, ix.0.saturating_add(1), u128::MAX);
                    self.env.le.push((x, y));
                } else {
                    self.set_i(x, iy.0, u128::MAX);
                    self.set_i(y, 0, ix.1);
                    self.env.le.push((y, x));
                }
            }
            K::A2(Op::Eq, x, y) if !t::is_bool(x) => {
                let (ix, iy) = (self.int(x), self.int(y));
                if v {
                    self.set_i(x, iy.0, iy.1);
                    self.set_i(y, ix.0, ix.1);
                } else {
                    for (x, ix, iy) in [(x, ix, iy), (y, iy, ix)] {
                        if iy.0 == iy.1 {
                            if ix.0 == iy.0 {
                                self.set_i(x, ix.0.saturating_add(1), u128::MAX);
                            } else if ix.1 == iy.0 {
                                self.set_i(x, 0, ix.1 - 1);
                            }
                        }
                    }
                }
            }
            _ => {}
        }
    }
    fn under(&mut self, c: T, v: bool) -> Iv {
        let mut n = Iv { env: self.env.clone(), mf: HashMap::new(), mi: HashMap::new(), depth: self.depth + 1, fuel: self.fuel / 2 };
        n.learn(c, v);
        n.mf.clear();
        n.mi.clear();
        n
    }
    pub fn float(&mut self, x: T) -> F {
        if let Some(f) = self.mf.get(&x) {
            return *f;
        }
        if self.fuel == 0 {
            return FULL;
        }
        self.fuel -= 1;
        let mut f = self.float0(x);
        if let Some(e) = self.env.f.get(&x) {
            f.lo = f.lo.max(e.lo);
            f.hi = f.hi.min(e.hi);
            f.nan = f.nan && e.nan;
        }
        self.mf.insert(x, f);
        f
    }
    fn float0(&mut self, x: T) -> F {
        let w = t::width(x);
        match t::kind(x) {
            K::C(v) => {
                let f = fl(w, v);
                if f.is_nan() {
                    FULL
                } else {
                    F { lo: f, hi: f, nan: false }
                }
            }
            K::A1(Op::FNeg, y) => {
                let f = self.float(y);
                F { lo: -f.hi, hi: -f.lo, nan: f.nan }
            }
            K::A1(Op::FAbs, y) => {
                let f = self.float(y);
                let m = f.lo.abs().max(f.hi.abs());
                let lo = if f.lo > 0.0 {
                    f.lo
                } else if f.hi < 0.0 {
                    -f.hi
                } else {
                    0.0
                };
                F { lo, hi: m, nan: f.nan }
            }
            K::A2(Op::FAdd, a, b) => {
                // x - trunc(x), x - floor(x)
                for (a, b) in [(a, b), (b, a)] {
                    if let K::A1(Op::FNeg, y) = t::kind(b) {
                        if let K::A1(Op::Fun(i), z) = t::kind(y) {
                            if z == a {
                                let f = self.float(a);
                                let n = t::with(|c| c.names[i as usize].clone());
                                if f.finite() && n == "floor" {
                                    return F { lo: 0.0, hi: 1.0, nan: false };
                                }
                                if f.finite() && n == "trunc" {
                                    return F { lo: if f.lo >= 0.0 { 0.0 } else { -1.0 }, hi: 1.0, nan: false };
                                }
                            }
                        }
                    }
                }
                let (p, q) = (self.float(a), self.float(b));
                if !p.finite() || !q.finite() {
                    return FULL;
                }
                F { lo: op(w, '+', p.lo, q.lo), hi: op(w, '+', p.hi, q.hi), nan: false }
            }
            K::A2(Op::FMul, a, b) => {
                let (p, q) = (self.float(a), self.float(b));
                if !p.finite() || !q.finite() {
                    return FULL;
                }
                if a == b {
                    let m = p.lo.abs().max(p.hi.abs());
                    let l = if p.lo <= 0.0 && p.hi >= 0.0 { 0.0 } else { p.lo.abs().min(p.hi.abs()) };
                    return F { lo: op(w, '*', l, l), hi: op(w, '*', m, m), nan: false };
                }
                let v = [op(w, '*', p.lo, q.lo), op(w, '*', p.lo, q.hi), op(w, '*', p.hi, q.lo), op(w, '*', p.hi, q.hi)];
                F { lo: v.iter().cloned().fold(f64::INFINITY, f64::min), hi: v.iter().cloned().fold(f64::NEG_INFINITY, f64::max), nan: false }
            }
            K::A2(Op::FDiv, a, b) if matches!(t::kind(a), K::A3(Op::Ite, ..)) && self.depth <= 12 => {
                // facts may be known about the quotient of either branch
                let (c, p, q) = match t::kind(a) {
                    K::A3(_, c, p, q) => (c, p, q),
                    _ => unreachable!(),
                };
                self.float(t::ite(c, t::fdiv(p, b), t::fdiv(q, b)))
            }
            K::A2(Op::FDiv, a, b) => {
                let (p, q) = (self.float(a), self.float(b));
                if !p.finite() || !q.finite() || (q.lo <= 0.0 && q.hi >= 0.0) {
                    return FULL;
                }
                let v = [op(w, '/', p.lo, q.lo), op(w, '/', p.lo, q.hi), op(w, '/', p.hi, q.lo), op(w, '/', p.hi, q.hi)];
                F { lo: v.iter().cloned().fold(f64::INFINITY, f64::min), hi: v.iter().cloned().fold(f64::NEG_INFINITY, f64::max), nan: false }
            }
            K::A3(Op::Ite, c, a, b) => {
                if self.depth > 12 {
                    let (p, q) = (self.float(a), self.float(b));
                    return F { lo: p.lo.min(q.lo), hi: p.hi.max(q.hi), nan: p.nan || q.nan };
                }
                let mut r: Option<F> = None;
                for (v, y) in [(true, a), (false, b)] {
                    let mut n = self.under(c, v);
                    if n.env.dead {
                        continue;
                    }
                    let f = n.float(y);
                    self.fuel = self.fuel.min(n.fuel * 2);
                    if f.lo > f.hi && !f.nan {
                        continue;
                    }
                    r = Some(match r {
                        None => f,
                        Some(g) => F { lo: f.lo.min(g.lo), hi: f.hi.max(g.hi), nan: f.nan || g.nan },
                    });
                }
                r.unwrap_or(FULL)
            }
            K::A1(Op::Fun(i), y) => {
                let n = t::with(|c| c.names[i as usize].clone());
                match n.as_str() {
                    "u2f32" | "u2f64" => {
                        let (l, h) = self.int(y);
                        F { lo: if w == 32 { l as f32 as f64 } else { l as f64 }, hi: if w == 32 { h as f32 as f64 } else { h as f64 }, nan: false }
                    }
                    "s2f32" | "s2f64" => {
                        let (l, h) = self.int(y);
                        let top = t::mask(t::width(y)) >> 1;
                        if h <= top {
                            F { lo: rnd(w, l as f64), hi: rnd(w, h as f64), nan: false }
                        } else {
                            let m = rnd(w, top as f64);
                            F { lo: -m, hi: m, nan: false }
                        }
                    }
                    "f2d" => self.float(y),
                    "d2f" => {
                        let f = self.float(y);
                        F { lo: f.lo as f32 as f64, hi: f.hi as f32 as f64, nan: f.nan }
                    }
                    "floor" | "ceil" | "trunc" | "round" | "round_ties_even" => {
                        let f = self.float(y);
                        let g = |x: f64| match n.as_str() {
                            "floor" => x.floor(),
                            "ceil" => x.ceil(),
                            "trunc" => x.trunc(),
                            "round" => x.round(),
                            _ => x.round_ties_even(),
                        };
                        F { lo: g(f.lo), hi: g(f.hi), nan: f.nan }
                    }
                    "sqrt" => {
                        let f = self.float(y);
                        if f.nan || f.lo < 0.0 {
                            return FULL;
                        }
                        let s = |x: f64| if w == 32 { (x as f32).sqrt() as f64 } else { x.sqrt() };
                        F { lo: s(f.lo), hi: s(f.hi), nan: false }
                    }
                    "sin" | "cos" => {
                        let f = self.float(y);
                        if f.finite() {
                            F { lo: -1.0, hi: 1.0, nan: false }
                        } else {
                            F { lo: -1.0, hi: 1.0, nan: true }
                        }
                    }
                    "exp" | "exp2" => {
                        let f = self.float(y);
                        let e = |x: f64| if n == "exp" { x.exp() } else { x.exp2() };
                        F { lo: (e(f.lo) * 0.99999).max(0.0), hi: e(f.hi) * 1.00001, nan: f.nan }
                    }
                    _ => FULL,
                }
            }
            _ => FULL,
        }
    }
    pub fn int(&mut self, x: T) -> (u128, u128) {
        if let Some(f) = self.mi.get(&x) {
            return *f;
        }
        let m = t::mask(t::width(x));
        if self.fuel == 0 {
            return (0, m);
        }
        self.fuel -= 1;
        let mut f = self.int0(x, m);
        if let Some(e) = self.env.i.get(&x) {
            f.0 = f.0.max(e.0);
            f.1 = f.1.min(e.1);
        }
        self.mi.insert(x, f);
        f
    }
    fn int0(&mut self, x: T, m: u128) -> (u128, u128) {
        match t::kind(x) {
            K::C(v) => (v, v),
            K::B(v) => (v as u128, v as u128),
            K::A2(Op::Add, a, b) => {
                let (p, q) = (self.int(a), self.int(b));
                if p.1.checked_add(q.1).map_or(false, |v| v <= m) {
                    (p.0 + q.0, p.1 + q.1)
                } else if p.0.checked_add(q.0).map_or(false, |v| v > m) && p.1.checked_add(q.1).map_or(false, |v| v <= 2 * m) && m < u64::MAX as u128 + 1 {
                    // always wraps once: a + (-k)
                    (p.0 + q.0 - m - 1, p.1 + q.1 - m - 1)
                } else {
                    (0, m)
                }
            }
            K::A2(Op::Sub, a, b) => {
                let (p, q) = (self.int(a), self.int(b));
                if p.0 >= q.1 || self.env.le.contains(&(b, a)) {
                    (p.0.saturating_sub(q.1), p.1.saturating_sub(q.0))
                } else {
                    (0, m)
                }
            }
            K::A2(Op::Mul, a, b) => {
                let (p, q) = (self.int(a), self.int(b));
                match p.1.checked_mul(q.1) {
                    Some(v) if v <= m => (p.0 * q.0, v),
                    _ => (0, m),
                }
            }
            K::A2(Op::UDiv, a, b) => {
                let (p, q) = (self.int(a), self.int(b));
                if q.0 == 0 {
                    (0, m)
                } else {
                    (p.0 / q.1, p.1 / q.0)
                }
            }
            K::A2(Op::URem, a, b) => {
                let (p, q) = (self.int(a), self.int(b));
                if q.0 == 0 {
                    (0, p.1)
                } else if p.1 < q.0 {
                    p
                } else {
                    (0, p.1.min(q.1 - 1))
                }
            }
            K::A1(Op::ZExt(_), a) => self.int(a),
            K::A1(Op::Extract(h, 0), a) => {
                let p = self.int(a);
                if p.1 <= t::mask(h + 1) {
                    p
                } else {
                    (0, m)
                }
            }
            K::A2(Op::BAnd, a, b) => {
                let (p, q) = (self.int(a), self.int(b));
                (0, p.1.min(q.1))
            }
            K::A3(Op::Ite, c, a, b) => {
                if self.depth > 12 {
                    let (p, q) = (self.int(a), self.int(b));
                    return (p.0.min(q.0), p.1.max(q.1));
                }
                let mut r: Option<(u128, u128)> = None;
                for (v, y) in [(true, a), (false, b)] {
                    let mut n = self.under(c, v);
                    if n.env.dead {
                        continue;
                    }
                    let f = n.int(y);
                    self.fuel = self.fuel.min(n.fuel * 2);
                    if f.0 > f.1 {
                        continue;
                    }
                    r = Some(match r {
                        None => f,
                        Some(g) => (f.0.min(g.0), f.1.max(g.1)),
                    });
                }
                r.unwrap_or((0, m))
            }
            K::A1(Op::Fun(i), y) => {
                let n = t::with(|c| c.names[i as usize].clone());
                if let Some(_) = n.strip_prefix("f2u") {
                    let f = self.float(y);
                    let g = |x: f64| -> u128 {
                        if x <= 0.0 {
                            0
                        } else if x >= 1.0e30 {
                            m
                        } else {
                            (x as u128).min(m)
                        }
                    };
                    return (if f.nan { 0 } else { g(f.lo) }, g(f.hi));
                }
                (0, m)
            }
            _ => (0, m),
        }
    }
    /// is `c == v` certain?
    pub fn prove(&mut self, c: T, v: bool) -> bool {
        if self.env.dead {
            return true;
        }
        if self.fuel == 0 {
            return false;
        }
        self.fuel -= 1;
        match t::kind(c) {
            K::B(x) => x == v,
            K::A1(Op::Not, x) => self.prove(x, !v),
            K::A2(o @ (Op::And | Op::Or), x, y) => {
                let conj = (o == Op::And) == v;
                if conj {
                    self.prove(x, v) && self.prove(y, v)
                } else {
                    if self.prove(x, v) {
                        return true;
                    }
                    if self.depth > 12 {
                        return self.prove(y, v);
                    }
                    // assume the first one fails
                    let mut n = self.under(x, !v);
                    let r = n.prove(y, v);
                    self.fuel = self.fuel.min(n.fuel * 2);
                    r
                }
            }
            K::A2(o @ (Op::FLt | Op::FLe), x, y) => {
                let (p, q) = (self.float(x), self.float(y));
                if v {
                    !p.nan && !q.nan && if o == Op::FLt { p.hi < q.lo } else { p.hi <= q.lo }
                } else {
                    // NaN also makes it false
                    if o == Op::FLt {
                        p.lo >= q.hi
                    } else {
                        p.lo > q.hi
                    }
                }
            }
            K::A2(Op::FEq, x, y) => {
                let (p, q) = (self.float(x), self.float(y));
                if v {
                    !p.nan && !q.nan && (x == y || (p.lo == p.hi && q.lo == q.hi && p.lo == q.lo))
                } else {
                    p.hi < q.lo || q.hi < p.lo
                }
            }
            K::A2(Op::Ult, x, y) => {
                let (p, q) = (self.int(x), self.int(y));
                if v {
                    p.1 < q.0
                } else {
                    // x + z never wraps below x when the sum cannot overflow
                    p.0 >= q.1
                        || match t::kind(x) {
                            K::A2(Op::Add, a, b) if a == y || b == y => {
                                let (a, b) = (self.int(a), self.int(b));
                                a.1.checked_add(b.1).map_or(false, |s| s <= t::mask(t::width(x)))
                            }
                            _ => false,
                        }
                }
            }
            K::A2(Op::Eq, x, y) if !t::is_bool(x) => {
                let (p, q) = (self.int(x), self.int(y));
                if v {
                    p.0 == p.1 && p == q
                } else {
                    p.1 < q.0 || q.1 < p.0
                }
            }
            _ => false,
        }
    }
}
