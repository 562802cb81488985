//! Hash-consed term DAG with a simplifier.  Bit-vectors are exact; floating point
//! arithmetic is kept as uninterpreted operators over the IEEE bit patterns (constant
//! operands are folded), float comparisons are exact bit-vector formulas.
use std::cell::RefCell;
use std::collections::HashMap;

pub type T = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Sort {
    Bool,
    Bv(u32),
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum Op {
    Not,
    And,
    Or,
    Ite,
    Eq,
    Add,
    Sub,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    BAnd,
    BOr,
    BXor,
    BNot,
    Neg,
    Shl,
    LShr,
    AShr,
    Ult,
    Ule,
    Slt,
    Sle,
    Concat,
    Extract(u32, u32),
    ZExt(u32),
    SExt(u32),
    FAdd,
    FMul,
    FDiv,
    FRem,
    FNeg,
    FAbs,
    FLt,
    FLe,
    FEq,
    /// named uninterpreted function (id into the name table)
    Fun(u32),
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum K {
    B(bool),
    C(u128),
    Var(u32),
    A1(Op, T),
    A2(Op, T, T),
    A3(Op, T, T, T),
    An(Op, Box<[T]>),
}

pub struct Node {
    pub k: K,
    pub s: Sort,
}

#[derive(Default)]
pub struct Ctx {
    pub nodes: Vec<Node>,
    map: HashMap<(K, Sort), T>,
    pub names: Vec<String>,
    name_ids: HashMap<String, u32>,
    pub vars: Vec<(String, Sort)>,
    pub fresh: u32,
}

impl Default for Sort {
    fn default() -> Self {
        Sort::Bool
    }
}

thread_local! { static CTX: RefCell<Ctx> = RefCell::new(Ctx::default()); }

pub fn with<R>(f: impl FnOnce(&mut Ctx) -> R) -> R {
    CTX.with(|c| f(&mut c.borrow_mut()))
}

fn mk(k: K, s: Sort) -> T {
    with(|c| {
        if let Some(&t) = c.map.get(&(k.clone(), s)) {
            return t;
        }
        let t = c.nodes.len() as T;
        c.nodes.push(Node { k: k.clone(), s });
        c.map.insert((k, s), t);
        t
    })
}

pub fn sort(t: T) -> Sort {
    with(|c| c.nodes[t as usize].s)
}
pub fn width(t: T) -> u32 {
    match sort(t) {
        Sort::Bv(w) => w,
        Sort::Bool => 1,
    }
}
pub fn kind(t: T) -> K {
    with(|c| c.nodes[t as usize].k.clone())
}
pub fn is_bool(t: T) -> bool {
    sort(t) == Sort::Bool
}

pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
pub fn c(w: u32, v: u128) -> T {
    mk(K::C(v & mask(w)), Sort::Bv(w))
}
pub fn c64(v: u64) -> T {
    c(64, v as u128)
}
pub fn b(v: bool) -> T {
    mk(K::B(v), Sort::Bool)
}
pub fn fresh(name: &str, s: Sort) -> T {
    let id = with(|c| {
        let id = c.vars.len() as u32;
        c.vars.push((format!("{}!{}", name, id), s));
        id
    });
    mk(K::Var(id), s)
}
pub fn name_id(n: &str) -> u32 {
    with(|c| {
        if let Some(&i) = c.name_ids.get(n) {
            return i;
        }
        let i = c.names.len() as u32;
        c.names.push(n.to_string());
        c.name_ids.insert(n.to_string(), i);
        i
    })
}

pub fn as_const(t: T) -> Option<u128> {
    with(|c| match c.nodes[t as usize].k {
        K::C(v) => Some(v),
        K::B(v) => Some(v as u128),
        _ => None,
    })
}
pub fn as_bool_const(t: T) -> Option<bool> {
    with(|c| match c.nodes[t as usize].k {
        K::B(v) => Some(v),
        _ => None,
    })
}
pub fn sext_const(v: u128, w: u32) -> i128 {
    let sh = 128 - w;
    ((v << sh) as i128) >> sh
}

// ---------- booleans ----------
pub fn not(a: T) -> T {
    match kind(a) {
        K::B(v) => b(!v),
        K::A1(Op::Not, x) => x,
        _ => mk(K::A1(Op::Not, a), Sort::Bool),
    }
}
pub fn and(a: T, x: T) -> T {
    match (as_bool_const(a), as_bool_const(x)) {
        (Some(true), _) => return x,
        (_, Some(true)) => return a,
        (Some(false), _) | (_, Some(false)) => return b(false),
        _ => {}
    }
    if a == x {
        return a;
    }
    if not(a) == x {
        return b(false);
    }
    // absorption: x = (p & q) containing a
    for (l, r) in [(a, x), (x, a)] {
        if let K::A2(Op::And, p, q) = kind(r) {
            if p == l || q == l {
                return r;
            }
            if not(p) == l || not(q) == l {
                return b(false);
            }
        }
        if let K::A2(Op::Or, p, q) = kind(r) {
            if p == l || q == l {
                return l;
            }
            if not(p) == l {
                return and(l, q);
            }
            if not(q) == l {
                return and(l, p);
            }
        }
    }
    let (p, q) = if a < x { (a, x) } else { (x, a) };
    mk(K::A2(Op::And, p, q), Sort::Bool)
}
pub fn or(a: T, x: T) -> T {
    match (as_bool_const(a), as_bool_const(x)) {
        (Some(false), _) => return x,
        (_, Some(false)) => return a,
        (Some(true), _) | (_, Some(true)) => return b(true),
        _ => {}
    }
    if a == x {
        return a;
    }
    if not(a) == x {
        return b(true);
    }
    for (l, r) in [(a, x), (x, a)] {
        if let K::A2(Op::Or, p, q) = kind(r) {
            if p == l || q == l {
                return r;
            }
            if not(p) == l || not(q) == l {
                return b(true);
            }
        }
        if let K::A2(Op::And, p, q) = kind(r) {
            if p == l || q == l {
                return l;
            }
            if not(p) == l {
                return or(l, q);
            }
            if not(q) == l {
                return or(l, p);
            }
        }
    }
    // (p & q) | (p & !q) = p
    if let (K::A2(Op::And, p, q), K::A2(Op::And, r, s)) = (kind(a), kind(x)) {
        for (p, q) in [(p, q), (q, p)] {
            for (r, s) in [(r, s), (s, r)] {
                if p == r && not(q) == s {
                    return p;
                }
            }
        }
    }
    let (p, q) = if a < x { (a, x) } else { (x, a) };
    mk(K::A2(Op::Or, p, q), Sort::Bool)
}
pub fn and_all(v: &[T]) -> T {
    let mut r = b(true);
    for &x in v {
        r = and(r, x);
    }
    r
}
pub fn implies(a: T, x: T) -> T {
    or(not(a), x)
}

pub fn ite(cnd: T, x: T, y: T) -> T {
    if let Some(v) = as_bool_const(cnd) {
        return if v { x } else { y };
    }
    if x == y {
        return x;
    }
    if let K::A1(Op::Not, n) = kind(cnd) {
        return ite(n, y, x);
    }
    let s = sort(x);
    debug_assert_eq!(s, sort(y));
    if s == Sort::Bool {
        match (as_bool_const(x), as_bool_const(y)) {
            (Some(true), Some(false)) => return cnd,
            (Some(false), Some(true)) => return not(cnd),
            (Some(true), _) => return or(cnd, y),
            (Some(false), _) => return and(not(cnd), y),
            (_, Some(true)) => return or(not(cnd), x),
            (_, Some(false)) => return and(cnd, x),
            _ => {}
        }
    }
    // collapse nested ites on the same condition
    let x2 = match kind(x) {
        K::A3(Op::Ite, c2, p, _) if c2 == cnd => p,
        _ => x,
    };
    let y2 = match kind(y) {
        K::A3(Op::Ite, c2, _, q) if c2 == cnd => q,
        _ => y,
    };
    if x2 == y2 {
        return x2;
    }
    // ite(c, x, ite(d, x, y)) = ite(c|d, x, y)
    if let K::A3(Op::Ite, d, p, q) = kind(y2) {
        if p == x2 {
            return ite(or(cnd, d), x2, q);
        }
    }
    mk(K::A3(Op::Ite, cnd, x2, y2), s)
}

pub fn eq(x: T, y: T) -> T {
    if x == y {
        return b(true);
    }
    if is_bool(x) {
        if let Some(v) = as_bool_const(x) {
            return if v { y } else { not(y) };
        }
        if let Some(v) = as_bool_const(y) {
            return if v { x } else { not(x) };
        }
        if not(x) == y {
            return b(false);
        }
        let (p, q) = if x < y { (x, y) } else { (y, x) };
        return mk(K::A2(Op::Eq, p, q), Sort::Bool);
    }
    debug_assert_eq!(sort(x), sort(y));
    let (x, y) = if as_const(x).is_some() { (y, x) } else { (x, y) };
    if let Some(cv) = as_const(y) {
        let w = width(x);
        match kind(x) {
            K::C(v) => return b(v == cv),
            K::A3(Op::Ite, cnd, p, q) => {
                let (pc, qc) = (as_const(p), as_const(q));
                match (pc, qc) {
                    (Some(pv), Some(qv)) => {
                        return match (pv == cv, qv == cv) {
                            (true, true) => b(true),
                            (true, false) => cnd,
                            (false, true) => not(cnd),
                            (false, false) => b(false),
                        }
                    }
                    (Some(pv), None) => {
                        let r = eq(q, y);
                        return if pv == cv { or(cnd, r) } else { and(not(cnd), r) };
                    }
                    (None, Some(qv)) => {
                        let r = eq(p, y);
                        return if qv == cv { or(not(cnd), r) } else { and(cnd, r) };
                    }
                    _ => {}
                }
            }
            K::A2(Op::Add, p, q) => {
                if let Some(qc) = as_const(q) {
                    return eq(p, c(w, cv.wrapping_sub(qc)));
                }
            }
            K::A1(Op::ZExt(_), p) => {
                let pw = width(p);
                if cv > mask(pw) {
                    return b(false);
                }
                return eq(p, c(pw, cv));
            }
            _ => {}
        }
        return mk(K::A2(Op::Eq, x, y), Sort::Bool);
    }
    // x + c1 == x + c2
    if let (Some((bx, ox)), Some((by, oy))) = (Some(base_off(x)), Some(base_off(y))) {
        if bx == by {
            return b(ox == oy);
        }
    }
    let (p, q) = if x < y { (x, y) } else { (y, x) };
    mk(K::A2(Op::Eq, p, q), Sort::Bool)
}

/// split `base + const`
pub fn base_off(x: T) -> (T, u128) {
    match kind(x) {
        K::A2(Op::Add, p, q) => match as_const(q) {
            Some(v) => (p, v),
            None => (x, 0),
        },
        _ => (x, 0),
    }
}

// ---------- bit-vectors ----------
pub fn add(x: T, y: T) -> T {
    let w = width(x);
    match (as_const(x), as_const(y)) {
        (Some(p), Some(q)) => return c(w, p.wrapping_add(q)),
        (Some(_), None) => return add(y, x),
        (None, Some(0)) => return x,
        (None, Some(q)) => {
            let (bx, ox) = base_off(x);
            if ox != 0 {
                return add(bx, c(w, ox.wrapping_add(q)));
            }
            return mk(K::A2(Op::Add, x, y), Sort::Bv(w));
        }
        _ => {}
    }
    let (bx, ox) = base_off(x);
    let (by, oy) = base_off(y);
    if ox != 0 || oy != 0 {
        return add(add(bx, by), c(w, ox.wrapping_add(oy)));
    }
    // (a - b) + b
    if let K::A2(Op::Sub, p, q) = kind(x) {
        if q == y {
            return p;
        }
    }
    if let K::A2(Op::Sub, p, q) = kind(y) {
        if q == x {
            return p;
        }
    }
    let (p, q) = if x < y { (x, y) } else { (y, x) };
    mk(K::A2(Op::Add, p, q), Sort::Bv(w))
}
pub fn neg(x: T) -> T {
    let w = width(x);
    match kind(x) {
        K::C(v) => c(w, (v as i128).wrapping_neg() as u128),
        K::A1(Op::Neg, p) => p,
        _ => mk(K::A1(Op::Neg, x), Sort::Bv(w)),
    }
}
pub fn sub(x: T, y: T) -> T {
    let w = width(x);
    if x == y {
        return c(w, 0);
    }
    if let Some(q) = as_const(y) {
        return add(x, c(w, (q as i128).wrapping_neg() as u128));
    }
    let (bx, ox) = base_off(x);
    let (by, oy) = base_off(y);
    if bx == by {
        return c(w, ox.wrapping_sub(oy));
    }
    if ox != 0 || oy != 0 {
        return add(sub(bx, by), c(w, ox.wrapping_sub(oy)));
    }
    if let K::A2(Op::Add, p, q) = kind(x) {
        if p == y {
            return q;
        }
        if q == y {
            return p;
        }
    }
    mk(K::A2(Op::Sub, x, y), Sort::Bv(w))
}
pub fn mul(x: T, y: T) -> T {
    let w = width(x);
    match (as_const(x), as_const(y)) {
        (Some(p), Some(q)) => return c(w, p.wrapping_mul(q)),
        (Some(_), None) => return mul(y, x),
        (None, Some(0)) => return y,
        (None, Some(1)) => return x,
        (None, Some(q)) => {
            let (bx, ox) = base_off(x);
            if ox != 0 {
                return add(mul(bx, y), c(w, ox.wrapping_mul(q)));
            }
            return mk(K::A2(Op::Mul, x, y), Sort::Bv(w));
        }
        _ => {}
    }
    let (p, q) = if x < y { (x, y) } else { (y, x) };
    mk(K::A2(Op::Mul, p, q), Sort::Bv(w))
}
pub fn bin(op: Op, x: T, y: T) -> T {
    let w = width(x);
    if let (Some(p), Some(q)) = (as_const(x), as_const(y)) {
        let (sp, sq) = (sext_const(p, w), sext_const(q, w));
        let r = match op {
            Op::UDiv => {
                if q == 0 {
                    mask(w)
                } else {
                    p / q
                }
            }
            Op::URem => {
                if q == 0 {
                    p
                } else {
                    p % q
                }
            }
            Op::SDiv => {
                if q == 0 {
                    if sp >= 0 {
                        mask(w)
                    } else {
                        1
                    }
                } else {
                    sp.wrapping_div(sq) as u128
                }
            }
            Op::SRem => {
                if q == 0 {
                    p
                } else {
                    sp.wrapping_rem(sq) as u128
                }
            }
            Op::BAnd => p & q,
            Op::BOr => p | q,
            Op::BXor => p ^ q,
            Op::Shl => {
                if q >= w as u128 {
                    0
                } else {
                    p << q
                }
            }
            Op::LShr => {
                if q >= w as u128 {
                    0
                } else {
                    p >> q
                }
            }
            Op::AShr => {
                if q >= w as u128 {
                    if sp < 0 {
                        mask(w)
                    } else {
                        0
                    }
                } else {
                    (sp >> q) as u128
                }
            }
            _ => unreachable!(),
        };
        return c(w, r);
    }
    match op {
        Op::BAnd => {
            if x == y {
                return x;
            }
            for (p, q) in [(x, y), (y, x)] {
                if as_const(q) == Some(0) {
                    return q;
                }
                if as_const(q) == Some(mask(w)) {
                    return p;
                }
            }
            if let Some(m) = as_const(y) {
                // mask of low bits
                if (m + 1).is_power_of_two() {
                    let n = (m + 1).trailing_zeros();
                    return zext(extract(x, n - 1, 0), w);
                }
            }
        }
        Op::BOr | Op::BXor => {
            for (p, q) in [(x, y), (y, x)] {
                if as_const(q) == Some(0) {
                    return p;
                }
            }
            if x == y {
                return if op == Op::BOr { x } else { c(w, 0) };
            }
        }
        Op::Shl | Op::LShr | Op::AShr => {
            if as_const(y) == Some(0) {
                return x;
            }
            if let Some(k) = as_const(y) {
                if k < w as u128 {
                    let k = k as u32;
                    match op {
                        Op::LShr => return zext(extract(x, w - 1, k), w),
                        Op::Shl => return concat(extract(x, w - 1 - k, 0), c(k, 0)),
                        _ => {}
                    }
                }
            }
        }
        Op::UDiv => {
            if as_const(y) == Some(1) {
                return x;
            }
        }
        Op::URem if as_const(x) == Some(0) => return x,
        Op::URem => {
            if as_const(y) == Some(1) {
                return c(w, 0);
            }
            // x % 2^k
            if let Some(m) = as_const(y) {
                if m.is_power_of_two() {
                    let n = m.trailing_zeros();
                    return zext(extract(x, n - 1, 0), w);
                }
            }
        }
        _ => {}
    }
    let comm = matches!(op, Op::BAnd | Op::BOr | Op::BXor);
    let (p, q) = if comm && y < x { (y, x) } else { (x, y) };
    mk(K::A2(op, p, q), Sort::Bv(w))
}
pub fn bnot(x: T) -> T {
    let w = width(x);
    match kind(x) {
        K::C(v) => c(w, !v),
        K::A1(Op::BNot, p) => p,
        _ => mk(K::A1(Op::BNot, x), Sort::Bv(w)),
    }
}
/// unsigned upper bound known syntactically
fn umax(t: T) -> u128 {
    match kind(t) {
        K::C(v) => v,
        K::A1(Op::ZExt(_), x) => umax(x),
        K::A3(Op::Ite, _, x, y) => umax(x).max(umax(y)),
        K::A2(Op::URem, _, y) => match as_const(y) {
            Some(v) if v > 0 => v - 1,
            _ => mask(width(t)),
        },
        _ => mask(width(t)),
    }
}
/// `x + k` does not overflow 64 bits, for a small k
pub fn is_small_increment(c: T) -> bool {
    match kind(c) {
        K::A1(Op::Not, u) => match kind(u) {
            K::A2(Op::Ult, m, x) => width(x) == 64 && as_const(m).is_some_and(|v| v >= u64::MAX as u128 - 4096),
            _ => false,
        },
        _ => false,
    }
}
pub fn ult(x: T, y: T) -> T {
    if x == y {
        return b(false);
    }
    match (as_const(x), as_const(y)) {
        (Some(p), Some(q)) => return b(p < q),
        (_, Some(0)) => return b(false),
        (_, Some(1)) => return eq(x, c(width(x), 0)),
        (_, Some(q)) if umax(x) < q => return b(true),
        _ => {}
    }
    mk(K::A2(Op::Ult, x, y), Sort::Bool)
}
pub fn ule(x: T, y: T) -> T {
    not(ult(y, x))
}
pub fn slt(x: T, y: T) -> T {
    if x == y {
        return b(false);
    }
    let w = width(x);
    if let (Some(p), Some(q)) = (as_const(x), as_const(y)) {
        return b(sext_const(p, w) < sext_const(q, w));
    }
    mk(K::A2(Op::Slt, x, y), Sort::Bool)
}
pub fn sle(x: T, y: T) -> T {
    not(slt(y, x))
}
pub fn zext(x: T, w: u32) -> T {
    let xw = width(x);
    if xw == w {
        return x;
    }
    assert!(xw < w);
    match kind(x) {
        K::C(v) => c(w, v),
        K::A1(Op::ZExt(_), p) => zext(p, w),
        K::A3(Op::Ite, cnd, p, q) if as_const(p).is_some() && as_const(q).is_some() => {
            ite(cnd, zext(p, w), zext(q, w))
        }
        _ => mk(K::A1(Op::ZExt(w - xw), x), Sort::Bv(w)),
    }
}
pub fn sext(x: T, w: u32) -> T {
    let xw = width(x);
    if xw == w {
        return x;
    }
    match kind(x) {
        K::C(v) => c(w, sext_const(v, xw) as u128),
        K::A1(Op::ZExt(_), p) => zext(p, w),
        K::A3(Op::Ite, cnd, p, q) if as_const(p).is_some() && as_const(q).is_some() => {
            ite(cnd, sext(p, w), sext(q, w))
        }
        _ => mk(K::A1(Op::SExt(w - xw), x), Sort::Bv(w)),
    }
}
pub fn extract(x: T, hi: u32, lo: u32) -> T {
    let xw = width(x);
    if lo == 0 && hi + 1 == xw {
        return x;
    }
    let w = hi - lo + 1;
    match kind(x) {
        K::C(v) => return c(w, v >> lo),
        K::A1(Op::Extract(_, l2), p) => return extract(p, hi + l2, lo + l2),
        K::A1(Op::ZExt(_), p) => {
            let pw = width(p);
            if hi < pw {
                return extract(p, hi, lo);
            }
            if lo >= pw {
                return c(w, 0);
            }
            return zext(extract(p, pw - 1, lo), w);
        }
        K::A1(Op::SExt(_), p) => {
            let pw = width(p);
            if hi < pw {
                return extract(p, hi, lo);
            }
        }
        K::A2(Op::Concat, h, l) => {
            let lw = width(l);
            if hi < lw {
                return extract(l, hi, lo);
            }
            if lo >= lw {
                return extract(h, hi - lw, lo - lw);
            }
            return concat(extract(h, hi - lw, 0), extract(l, lw - 1, lo));
        }
        K::A3(Op::Ite, cnd, p, q) if as_const(p).is_some() && as_const(q).is_some() => {
            return ite(cnd, extract(p, hi, lo), extract(q, hi, lo));
        }
        K::A2(op @ (Op::Add | Op::Mul | Op::Sub), p, q) if lo == 0 => {
            let (p, q) = (extract(p, hi, 0), extract(q, hi, 0));
            return match op {
                Op::Add => add(p, q),
                Op::Mul => mul(p, q),
                _ => sub(p, q),
            };
        }
        _ => {}
    }
    mk(K::A1(Op::Extract(hi, lo), x), Sort::Bv(w))
}
pub fn concat(h: T, l: T) -> T {
    let (hw, lw) = (width(h), width(l));
    if let (Some(p), Some(q)) = (as_const(h), as_const(l)) {
        return c(hw + lw, (p << lw) | q);
    }
    if as_const(h) == Some(0) {
        return zext(l, hw + lw);
    }
    match (kind(h), kind(l)) {
        (K::A1(Op::Extract(h1, l1), p), K::A1(Op::Extract(h2, l2), q)) if p == q && l1 == h2 + 1 => {
            return extract(p, h1, l2);
        }
        (K::A1(Op::Extract(_, l1), p), _) if p == l && l1 == lw => {
            if width(p) == lw {
                // cannot happen
            }
        }
        (K::A1(Op::ZExt(_), p), _) => {
            return zext(concat(p, l), hw + lw);
        }
        _ => {}
    }
    mk(K::A2(Op::Concat, h, l), Sort::Bv(hw + lw))
}

// ---------- floats ----------
fn f32c(t: T) -> Option<f32> {
    as_const(t).map(|v| f32::from_bits(v as u32))
}
fn f64c(t: T) -> Option<f64> {
    as_const(t).map(|v| f64::from_bits(v as u64))
}
pub fn cf32(v: f32) -> T {
    c(32, v.to_bits() as u128)
}
pub fn cf64(v: f64) -> T {
    c(64, v.to_bits() as u128)
}
fn f_is(t: T, v: f64) -> bool {
    match width(t) {
        32 => f32c(t).map_or(false, |x| x.to_bits() == (v as f32).to_bits()),
        _ => f64c(t).map_or(false, |x| x.to_bits() == v.to_bits()),
    }
}
fn cf(w: u32, v: f64) -> T {
    if w == 32 {
        cf32(v as f32)
    } else {
        cf64(v)
    }
}
/// the alternatives of a choice between two constants
fn const_ite(x: T) -> Option<(T, T, T)> {
    match kind(x) {
        K::A3(Op::Ite, cnd, p, q) if as_const(p).is_some() && as_const(q).is_some() => Some((cnd, p, q)),
        _ => None,
    }
}
/// `op` of `x` and a choice between two constants, when one of the two results is simpler than the operation
fn lift(x: T, y: T, op: fn(T, T) -> T) -> Option<T> {
    for (p, q) in [(x, y), (y, x)] {
        if let Some((cnd, k, l)) = const_ite(q) {
            if as_const(p).is_some() || op(p, k) == p || op(p, l) == p {
                return Some(ite(cnd, op(p, k), op(p, l)));
            }
        }
    }
    None
}
pub fn fneg(x: T) -> T {
    let w = width(x);
    if let Some((cnd, p, q)) = const_ite(x) {
        return ite(cnd, fneg(p), fneg(q));
    }
    match kind(x) {
        K::C(v) => c(w, v ^ (1u128 << (w - 1))),
        K::A1(Op::FNeg, p) => p,
        _ => mk(K::A1(Op::FNeg, x), Sort::Bv(w)),
    }
}
pub fn fabs(x: T) -> T {
    let w = width(x);
    if let Some((cnd, p, q)) = const_ite(x) {
        return ite(cnd, fabs(p), fabs(q));
    }
    match kind(x) {
        K::C(v) => c(w, v & !(1u128 << (w - 1))),
        K::A1(Op::FNeg, p) => fabs(p),
        K::A1(Op::FAbs, _) => x,
        _ => mk(K::A1(Op::FAbs, x), Sort::Bv(w)),
    }
}
pub fn fadd(x: T, y: T) -> T {
    let w = width(x);
    match (w, as_const(x), as_const(y)) {
        (32, Some(_), Some(_)) => return cf32(f32c(x).unwrap() + f32c(y).unwrap()),
        (64, Some(_), Some(_)) => return cf64(f64c(x).unwrap() + f64c(y).unwrap()),
        _ => {}
    }
    if f_is(y, -0.0) {
        return x;
    }
    if f_is(x, -0.0) {
        return y;
    }
    if let Some(r) = lift(x, y, fadd) {
        return r;
    }
    if x == y {
        return fmul(x, cf(w, 2.0));
    }
    // (-a) + (-b) = -(a+b)
    if let (K::A1(Op::FNeg, p), K::A1(Op::FNeg, q)) = (kind(x), kind(y)) {
        return fneg(fadd(p, q));
    }
    let (p, q) = if x < y { (x, y) } else { (y, x) };
    mk(K::A2(Op::FAdd, p, q), Sort::Bv(w))
}
pub fn fsub(x: T, y: T) -> T {
    fadd(x, fneg(y))
}
pub fn fmul(x: T, y: T) -> T {
    let w = width(x);
    match (w, as_const(x), as_const(y)) {
        (32, Some(_), Some(_)) => return cf32(f32c(x).unwrap() * f32c(y).unwrap()),
        (64, Some(_), Some(_)) => return cf64(f64c(x).unwrap() * f64c(y).unwrap()),
        _ => {}
    }
    if let Some(r) = lift(x, y, fmul) {
        return r;
    }
    for (p, q) in [(x, y), (y, x)] {
        if f_is(q, 1.0) {
            return p;
        }
        if f_is(q, -1.0) {
            return fneg(p);
        }
        if let K::A1(Op::FNeg, r) = kind(q) {
            return fneg(fmul(p, r));
        }
        if let Some(v) = as_const(q) {
            if v >> (w - 1) & 1 == 1 && v & mask(w - 1) <= if w == 32 { 0x7f80_0000 } else { 0x7ff0u128 << 48 } {
                return fneg(fmul(p, fneg(q)));
            }
        }
    }
    let (p, q) = if x < y { (x, y) } else { (y, x) };
    mk(K::A2(Op::FMul, p, q), Sort::Bv(w))
}
pub fn fdiv(x: T, y: T) -> T {
    let w = width(x);
    match (w, as_const(x), as_const(y)) {
        (32, Some(_), Some(_)) => return cf32(f32c(x).unwrap() / f32c(y).unwrap()),
        (64, Some(_), Some(_)) => return cf64(f64c(x).unwrap() / f64c(y).unwrap()),
        _ => {}
    }
    if w == 32 {
        if let Some(v) = f32c(y) {
            // exact reciprocal of a power of two
            if v.is_normal() && v.to_bits() & 0x7f_ffff == 0 && (1.0 / v).is_normal() {
                return fmul(x, cf32(1.0 / v));
            }
        }
    }
    if let K::A1(Op::FNeg, p) = kind(x) {
        return fneg(fdiv(p, y));
    }
    if let K::A1(Op::FNeg, p) = kind(y) {
        return fneg(fdiv(x, p));
    }
    mk(K::A2(Op::FDiv, x, y), Sort::Bv(w))
}
pub fn frem(x: T, y: T) -> T {
    let w = width(x);
    match (w, as_const(x), as_const(y)) {
        (32, Some(_), Some(_)) => return cf32(f32c(x).unwrap() % f32c(y).unwrap()),
        (64, Some(_), Some(_)) => return cf64(f64c(x).unwrap() % f64c(y).unwrap()),
        _ => {}
    }
    mk(K::A2(Op::FRem, x, y), Sort::Bv(w))
}
pub fn fcmp(op: Op, x: T, y: T) -> T {
    let w = width(x);
    if as_const(x).is_some() && as_const(y).is_some() {
        let r = if w == 32 {
            let (p, q) = (f32c(x).unwrap(), f32c(y).unwrap());
            match op {
                Op::FLt => p < q,
                Op::FLe => p <= q,
                _ => p == q,
            }
        } else {
            let (p, q) = (f64c(x).unwrap(), f64c(y).unwrap());
            match op {
                Op::FLt => p < q,
                Op::FLe => p <= q,
                _ => p == q,
            }
        };
        return b(r);
    }
    if op == Op::FLt && x == y {
        return b(false);
    }
    // an unsigned number converted to float is zero only if it is zero
    let of_uint = |x: T| match kind(x) {
        K::A1(Op::Fun(id), a) if with(|c| c.names[id as usize].starts_with("u2f")) => Some(a),
        _ => None,
    };
    let zero = |x: T| matches!(as_const(x), Some(v) if v & !(1u128 << (w - 1)) == 0);
    if zero(x) {
        if let Some(a) = of_uint(y) {
            let z = eq(a, c(width(a), 0));
            return match op {
                Op::FLe => b(true),
                Op::FLt => not(z),
                _ => z,
            };
        }
    }
    if zero(y) {
        if let Some(a) = of_uint(x) {
            let z = eq(a, c(width(a), 0));
            return match op {
                Op::FLt => b(false),
                _ => z,
            };
        }
    }
    // a choice compared with a constant, when some alternative decides the comparison
    fn leaves(x: T, out: &mut Vec<T>) {
        match kind(x) {
            K::A3(Op::Ite, _, p, q) if out.len() < 8 => {
                leaves(p, out);
                leaves(q, out);
            }
            _ => out.push(x),
        }
    }
    for (k, x2) in [(x, y), (y, x)] {
        if let (Some(_), K::A3(Op::Ite, cnd, p, q)) = (as_const(k), kind(x2)) {
            let mut ls = vec![];
            leaves(x2, &mut ls);
            if ls.len() < 8 && ls.iter().any(|l| as_const(*l).is_some() || (zero(k) && of_uint(*l).is_some())) {
                let cmp = |v: T| if k == x { fcmp(op, k, v) } else { fcmp(op, v, k) };
                return ite(cnd, cmp(p), cmp(q));
            }
        }
    }
    let (p, q) = if op == Op::FEq && y < x { (y, x) } else { (x, y) };
    mk(K::A2(op, p, q), Sort::Bool)
}
/// same value up to NaN payload
pub fn fsame(x: T, y: T) -> T {
    if x == y {
        return b(true);
    }
    or(eq(x, y), and(fnan(x), fnan(y)))
}
pub fn fnan(x: T) -> T {
    not(fcmp(Op::FEq, x, x))
}
pub fn fun(name: &str, args: &[T], s: Sort) -> T {
    let id = name_id(name);
    match args {
        [x] => mk(K::A1(Op::Fun(id), *x), s),
        [x, y] => mk(K::A2(Op::Fun(id), *x, *y), s),
        _ => mk(K::An(Op::Fun(id), args.into()), s),
    }
}

pub fn args(k: &K) -> Vec<T> {
    match k {
        K::A1(_, a) => vec![*a],
        K::A2(_, a, b) => vec![*a, *b],
        K::A3(_, a, b, c) => vec![*a, *b, *c],
        K::An(_, v) => v.to_vec(),
        _ => vec![],
    }
}

/// the variables of a term
pub fn vars_of(x: T, seen: &mut std::collections::HashSet<T>, out: &mut Vec<T>) {
    if !seen.insert(x) {
        return;
    }
    let k = kind(x);
    if let K::Var(_) = k {
        out.push(x);
    }
    for a in args(&k) {
        vars_of(a, seen, out);
    }
}
/// simultaneous substitution of terms by terms
pub fn subst(x: T, m: &HashMap<T, T>, memo: &mut HashMap<T, T>) -> T {
    if let Some(y) = m.get(&x) {
        return *y;
    }
    if let Some(y) = memo.get(&x) {
        return *y;
    }
    let k = kind(x);
    let r = match k {
        K::B(_) | K::C(_) | K::Var(_) => x,
        _ => {
            let old = args(&k);
            let a: Vec<T> = old.iter().map(|y| subst(*y, m, memo)).collect();
            if a == old {
                x
            } else {
                match k {
                    K::A1(o, _) => match o {
                        Op::Not => not(a[0]),
                        Op::BNot => bnot(a[0]),
                        Op::Neg => neg(a[0]),
                        Op::Extract(h, l) => extract(a[0], h, l),
                        Op::ZExt(_) => zext(a[0], width(x)),
                        Op::SExt(_) => sext(a[0], width(x)),
                        Op::FNeg => fneg(a[0]),
                        Op::FAbs => fabs(a[0]),
                        o => mk(K::A1(o, a[0]), sort(x)),
                    },
                    K::A2(o, _, _) => match o {
                        Op::And => and(a[0], a[1]),
                        Op::Or => or(a[0], a[1]),
                        Op::Eq => eq(a[0], a[1]),
                        Op::Add => add(a[0], a[1]),
                        Op::Sub => sub(a[0], a[1]),
                        Op::Mul => mul(a[0], a[1]),
                        Op::Ult => ult(a[0], a[1]),
                        Op::Ule => ule(a[0], a[1]),
                        Op::Slt => slt(a[0], a[1]),
                        Op::Sle => sle(a[0], a[1]),
                        Op::Concat => concat(a[0], a[1]),
                        Op::FAdd => fadd(a[0], a[1]),
                        Op::FMul => fmul(a[0], a[1]),
                        Op::FDiv => fdiv(a[0], a[1]),
                        Op::FRem => frem(a[0], a[1]),
                        Op::FLt | Op::FLe | Op::FEq => fcmp(o, a[0], a[1]),
                        Op::Fun(_) => mk(K::A2(o, a[0], a[1]), sort(x)),
                        o => bin(o, a[0], a[1]),
                    },
                    K::A3(Op::Ite, ..) => ite(a[0], a[1], a[2]),
                    K::A3(o, ..) => mk(K::A3(o, a[0], a[1], a[2]), sort(x)),
                    K::An(o, _) => mk(K::An(o, a.into()), sort(x)),
                    _ => unreachable!(),
                }
            }
        }
    };
    memo.insert(x, r);
    r
}

/// human readable rendering, depth limited
pub fn show(t: T, depth: u32) -> String {
    let (k, s) = with(|c| (c.nodes[t as usize].k.clone(), c.nodes[t as usize].s));
    match &k {
        K::B(v) => v.to_string(),
        K::C(v) => match s {
            Sort::Bv(32) => format!("{}(f{})", v, f32::from_bits(*v as u32)),
            _ => v.to_string(),
        },
        K::Var(i) => with(|c| c.vars[*i as usize].0.clone()),
        _ => {
            if depth == 0 {
                return format!("t{}", t);
            }
            let op = match &k {
                K::A1(o, _) | K::A2(o, _, _) | K::A3(o, _, _, _) | K::An(o, _) => *o,
                _ => unreachable!(),
            };
            let n = match op {
                Op::Fun(i) => with(|c| c.names[i as usize].clone()),
                o => format!("{:?}", o),
            };
            let a: Vec<String> = args(&k).iter().map(|x| show(*x, depth - 1)).collect();
            format!("{}({})", n, a.join(", "))
        }
    }
}
