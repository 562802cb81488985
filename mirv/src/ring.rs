//! Equality of float terms read as real arithmetic (field normal form).  Used only when two
//! float terms are not bit-identical: decides equality up to rounding.
use crate::term::{self as t, Op, K, T};
use std::collections::{BTreeMap, HashMap};

type Mono = Vec<(u32, i32)>;
type Poly = BTreeMap<Mono, f64>;

#[derive(Default)]
pub struct Ring {
    atoms: HashMap<String, u32>,
    memo: HashMap<T, Option<Poly>>,
    pub sub: HashMap<T, bool>,
    ites: Vec<T>,
    /// take terms already found equal as one unknown
    brief: bool,
}
thread_local! {
    /// terms found equal to another one for all values of the unknowns, with the name of the pair
    static SAME: std::cell::RefCell<HashMap<T, T>> = Default::default();
}
fn same(x: T) -> Option<T> {
    SAME.with(|s| s.borrow().get(&x).copied())
}
fn join(x: T, y: T) {
    let (a, b) = (same(x).unwrap_or(x), same(y).unwrap_or(y));
    SAME.with(|s| {
        let mut s = s.borrow_mut();
        for v in s.values_mut() {
            if *v == b {
                *v = a;
            }
        }
        s.insert(x, a);
        s.insert(y, a);
    })
}
const CAP: usize = 400;
fn add(a: &mut Poly, m: Mono, c: f64) {
    let e = a.entry(m).or_insert(0.0);
    *e += c;
}
fn clean(mut p: Poly) -> Poly {
    p.retain(|_, c| *c != 0.0);
    p
}
fn mulm(a: &Mono, b: &Mono) -> Mono {
    let mut m: BTreeMap<u32, i32> = a.iter().cloned().collect();
    for (k, e) in b {
        *m.entry(*k).or_insert(0) += e;
    }
    m.into_iter().filter(|x| x.1 != 0).collect()
}
fn mul(a: &Poly, b: &Poly) -> Option<Poly> {
    if a.len() * b.len() > CAP {
        return None;
    }
    let mut r = Poly::new();
    for (m, c) in a {
        for (n, d) in b {
            add(&mut r, mulm(m, n), c * d);
        }
    }
    Some(clean(r))
}
fn key(p: &Poly) -> String {
    let mut s = String::new();
    for (m, c) in p {
        s.push_str(&format!("{:.5e}*{:?};", c, m));
    }
    s
}
impl Ring {
    fn atom(&mut self, k: String) -> Poly {
        let n = self.atoms.len() as u32;
        let a = *self.atoms.entry(k).or_insert(n);
        let mut p = Poly::new();
        p.insert(vec![(a, 1)], 1.0);
        p
    }
    fn inv(&mut self, p: &Poly) -> Option<Poly> {
        if p.len() == 1 {
            let (m, c) = p.iter().next().unwrap();
            let mut r = Poly::new();
            r.insert(m.iter().map(|x| (x.0, -x.1)).collect(), 1.0 / c);
            return Some(r);
        }
        // factor out the leading coefficient so that k*q and q give the same atom
        let lead = *p.iter().next()?.1;
        let q: Poly = p.iter().map(|(m, c)| (m.clone(), c / lead)).collect();
        let k = format!("sum {}", key(&q));
        let a = self.atom(k);
        let m = a.keys().next().unwrap().clone();
        let mut r = Poly::new();
        r.insert(m.iter().map(|x| (x.0, -x.1)).collect(), 1.0 / lead);
        Some(r)
    }
    pub fn nf(&mut self, x: T) -> Option<Poly> {
        if let Some(p) = self.memo.get(&x) {
            return p.clone();
        }
        let r = self.nf0(x);
        self.memo.insert(x, r.clone());
        r
    }
    /// key of any term: floats by normal form
    fn term_key(&mut self, x: T) -> Option<String> {
        match t::kind(x) {
            K::A1(Op::Fun(i), y) => {
                let n = t::with(|c| c.names[i as usize].clone());
                if n.starts_with("u2f") || n.starts_with("s2f") {
                    return Some(format!("{}({})", &n[..3], y));
                }
                Some(format!("{}({})", n, self.nf(y).map(|p| key(&p))?))
            }
            K::A2(Op::Fun(i), y, z) => {
                let n = t::with(|c| c.names[i as usize].clone());
                if n == "powi" {
                    return Some(format!("powi({},{})", key(&self.nf(y)?), z));
                }
                Some(format!("{}({},{})", n, key(&self.nf(y)?), key(&self.nf(z)?)))
            }
            _ => Some(format!("t{}", x)),
        }
    }
    fn nf0(&mut self, x: T) -> Option<Poly> {
        let w = t::width(x);
        if self.brief {
            if let Some(r) = same(x) {
                return Some(self.atom(format!("same{}", r)));
            }
        }
        Some(match t::kind(x) {
            K::C(v) => {
                let f = if w == 32 { f32::from_bits(v as u32) as f64 } else { f64::from_bits(v as u64) };
                if !f.is_finite() {
                    return None;
                }
                let mut p = Poly::new();
                if f != 0.0 {
                    p.insert(vec![], f);
                }
                p
            }
            K::A1(Op::FNeg, y) => self.nf(y)?.into_iter().map(|(m, c)| (m, -c)).collect(),
            K::A2(Op::FAdd, a, b) => {
                let (mut p, q) = (self.nf(a)?, self.nf(b)?);
                for (m, c) in q {
                    add(&mut p, m, c);
                }
                if p.len() > CAP {
                    return None;
                }
                let mx = p.values().fold(0.0f64, |a, b| a.max(b.abs()));
                p.retain(|_, c| c.abs() > 1e-7 * mx);
                p
            }
            K::A2(Op::FMul, a, b) => {
                let (p, q) = (self.nf(a)?, self.nf(b)?);
                mul(&p, &q)?
            }
            K::A2(Op::FDiv, a, b) => {
                let (p, q) = (self.nf(a)?, self.nf(b)?);
                let i = self.inv(&q)?;
                mul(&p, &i)?
            }
            K::A1(Op::Fun(i), y) => {
                let n = t::with(|c| c.names[i as usize].clone());
                if n == "f2d" || n == "d2f" {
                    return self.nf(y);
                }
                let k = self.term_key(x)?;
                self.atom(k)
            }
            K::A3(Op::Ite, c, a, b) => {
                match self.sub.get(&c) {
                    Some(true) => return self.nf(a),
                    Some(false) => return self.nf(b),
                    None => {}
                }
                if !self.ites.contains(&c) {
                    self.ites.push(c);
                }
                self.atom(format!("t{}", x))
            }
            _ => {
                let k = self.term_key(x)?;
                self.atom(k)
            }
        })
    }
    fn close(p: &Poly, q: &Poly) -> bool {
        let mut d = p.clone();
        for (m, c) in q {
            add(&mut d, m.clone(), -c);
        }
        d.iter().all(|(m, c)| {
            let r = p.get(m).copied().unwrap_or(0.0).abs().max(q.get(m).copied().unwrap_or(0.0).abs());
            c.abs() <= 1e-6 * r
        })
    }
}
/// are the two float terms equal as real expressions?  `infeasible(conds)` prunes case splits.
pub fn equal(x: T, y: T, infeasible: &mut dyn FnMut(&[(T, bool)]) -> bool) -> bool {
    fn go(x: T, y: T, sub: &mut Vec<(T, bool)>, inf: &mut dyn FnMut(&[(T, bool)]) -> bool, budget: &mut u32) -> bool {
        if *budget == 0 {
            return false;
        }
        *budget -= 1;
        let mut r = Ring::default();
        r.sub = sub.iter().cloned().collect();
        let (p, q) = match (r.nf(x), r.nf(y)) {
            (Some(p), Some(q)) => (p, q),
            _ => return false,
        };
        if Ring::close(&p, &q) {
            return true;
        }
        let Some(&c) = r.ites.first() else { return false };
        for v in [true, false] {
            sub.push((c, v));
            let ok = inf(sub) || go(x, y, sub, inf, budget);
            sub.pop();
            if !ok {
                return false;
            }
        }
        true
    }
    let mut b = 64;
    go(x, y, &mut vec![], infeasible, &mut b)
}
/// equal without any case split
pub fn equal_flat(x: T, y: T) -> bool {
    for brief in [false, true] {
        let mut r = Ring { brief, ..Ring::default() };
        if let (Some(p), Some(q)) = (r.nf(x), r.nf(y)) {
            if r.ites.is_empty() && Ring::close(&p, &q) {
                join(x, y);
                return true;
            }
        }
    }
    false
}
