//! Symbolic memory: untyped objects made of cells, persistent (copy on write) so that
//! path forks are cheap.
use crate::term::{self as t, T};
use rustc_middle::ty::{self, Instance, Ty};
use std::collections::BTreeMap;
use std::rc::Rc;

pub type Aid = u32;

#[derive(Clone, PartialEq, Debug)]
pub enum Sc {
    T(T),
    P(Aid, T),
    /// guarded alternatives, exclusive and exhaustive under the path condition
    Choice(Rc<Vec<(T, Sc)>>),
    Undef,
}

#[derive(Clone, Debug)]
pub enum Raw {
    None,
    Zero,
    Bytes(Rc<[u8]>),
}

#[derive(Clone, Debug)]
pub enum Kind<'tcx> {
    Mem,
    Fn(Instance<'tcx>),
    VTable(Ty<'tcx>, Option<ty::ExistentialTraitRef<'tcx>>),
}

#[derive(Clone, Debug)]
pub struct Obj<'tcx> {
    pub size: u64,
    pub align: u64,
    pub kind: Kind<'tcx>,
    pub cells: BTreeMap<u64, (u8, Sc)>,
    pub raw: Raw,
}

pub type Cells = Vec<(u64, u8, Sc)>;

pub fn addr_base(a: Aid) -> u64 {
    (a as u64) << 32
}

pub fn to_int(s: &Sc) -> Option<T> {
    match s {
        Sc::T(x) => Some(*x),
        Sc::P(a, o) => Some(t::add(*o, t::c64(addr_base(*a)))),
        Sc::Choice(v) => {
            let mut r = to_int(&v[v.len() - 1].1)?;
            for (c, s) in v[..v.len() - 1].iter().rev() {
                let x = to_int(s)?;
                if t::sort(x) != t::sort(r) {
                    return None;
                }
                r = t::ite(*c, x, r);
            }
            Some(r)
        }
        Sc::Undef => None,
    }
}
pub fn bv(x: T, bits: u32) -> T {
    if t::is_bool(x) {
        t::ite(x, t::c(bits, 1), t::c(bits, 0))
    } else {
        x
    }
}

fn flat(c: T, s: &Sc, out: &mut Vec<(T, Sc)>) {
    match s {
        Sc::Choice(v) => {
            for (d, x) in v.iter() {
                flat(t::and(c, *d), x, out);
            }
        }
        _ => {
            if t::as_bool_const(c) == Some(false) {
                return;
            }
            if let Some(e) = out.iter_mut().find(|e| e.1 == *s) {
                e.0 = t::or(e.0, c);
            } else {
                out.push((c, s.clone()));
            }
        }
    }
}

/// if c then a else b; None when the two cannot be merged
pub fn merge_sc(c: T, a: &Sc, b: &Sc, size: u8) -> Option<Sc> {
    if a == b {
        return Some(a.clone());
    }
    match (a, b) {
        (Sc::Undef, _) => Some(b.clone()),
        (_, Sc::Undef) => Some(a.clone()),
        (Sc::T(x), Sc::T(y)) => {
            let (mut x, mut y) = (*x, *y);
            if t::sort(x) != t::sort(y) {
                x = bv(x, size as u32 * 8);
                y = bv(y, size as u32 * 8);
            }
            if t::sort(x) != t::sort(y) {
                return None;
            }
            Some(Sc::T(t::ite(c, x, y)))
        }
        (Sc::P(p, x), Sc::P(q, y)) if p == q => Some(Sc::P(*p, t::ite(c, *x, *y))),
        _ => {
            let mut v = vec![];
            flat(c, a, &mut v);
            flat(t::not(c), b, &mut v);
            if v.len() == 1 {
                return Some(v.pop().unwrap().1);
            }
            Some(Sc::Choice(Rc::new(v)))
        }
    }
}

impl<'tcx> Obj<'tcx> {
    pub fn new(size: u64, align: u64) -> Self {
        Obj { size, align, kind: Kind::Mem, cells: BTreeMap::new(), raw: Raw::None }
    }
    fn raw_int(&self, off: u64, size: u64) -> Option<u128> {
        match &self.raw {
            Raw::None => None,
            Raw::Zero => Some(0),
            Raw::Bytes(b) => {
                let mut v = 0u128;
                for i in 0..size {
                    v |= (*b.get((off + i) as usize)? as u128) << (8 * i);
                }
                Some(v)
            }
        }
    }
    fn overlapping(&self, off: u64, size: u64) -> Vec<(u64, u8)> {
        let lo = off.saturating_sub(15);
        self.cells.range(lo..off + size).filter(|(o, (s, _))| **o + *s as u64 > off).map(|(o, (s, _))| (*o, *s)).collect()
    }
    /// read a scalar of `size` bytes at a concrete offset
    pub fn read(&self, off: u64, size: u8) -> Sc {
        if let Some((s, v)) = self.cells.get(&off) {
            if *s == size {
                return v.clone();
            }
        }
        let ov = self.overlapping(off, size as u64);
        if ov.is_empty() {
            return match self.raw_int(off, size as u64) {
                Some(v) => Sc::T(t::c(size as u32 * 8, v)),
                None => Sc::Undef,
            };
        }
        // assemble little endian
        let mut pos = off;
        let end = off + size as u64;
        let mut acc: Option<T> = None;
        let push = |x: T, acc: &mut Option<T>| {
            *acc = Some(match *acc {
                None => x,
                Some(a) => t::concat(x, a),
            })
        };
        let mut it = ov.into_iter().peekable();
        while pos < end {
            match it.peek() {
                Some((o, s)) if *o <= pos => {
                    let ce = o + *s as u64;
                    let e = ce.min(end);
                    let v = match to_int(&self.cells[o].1) {
                        Some(v) => bv(v, *s as u32 * 8),
                        None => return Sc::Undef,
                    };
                    let x = t::extract(v, ((e - o) * 8 - 1) as u32, ((pos - o) * 8) as u32);
                    push(x, &mut acc);
                    pos = e;
                    it.next();
                }
                nx => {
                    let e = nx.map_or(end, |(o, _)| *o);
                    match self.raw_int(pos, e - pos) {
                        Some(v) => push(t::c(((e - pos) * 8) as u32, v), &mut acc),
                        None => return Sc::Undef,
                    }
                    pos = e;
                }
            }
        }
        Sc::T(acc.unwrap())
    }
    pub fn write(&mut self, off: u64, size: u8, v: Sc) {
        if let Some(c) = self.cells.get_mut(&off) {
            if c.0 == size {
                c.1 = v;
                return;
            }
        }
        self.clear(off, size as u64);
        self.cells.insert(off, (size, v));
    }
    /// drop the cells of a range, keeping the uncovered parts of partially overlapped cells
    pub fn clear(&mut self, off: u64, size: u64) {
        if size == 0 {
            return;
        }
        let end = off + size;
        for (o, s) in self.overlapping(off, size) {
            let (_, v) = self.cells.remove(&o).unwrap();
            let ce = o + s as u64;
            if o < off || ce > end {
                let iv = to_int(&v).map(|x| bv(x, s as u32 * 8));
                for i in o..ce {
                    if i < off || i >= end {
                        let p = match iv {
                            Some(x) => Sc::T(t::extract(x, ((i - o) * 8 + 7) as u32, ((i - o) * 8) as u32)),
                            None => Sc::Undef,
                        };
                        self.cells.insert(i, (1, p));
                    }
                }
            }
        }
    }
    pub fn range(&self, off: u64, size: u64) -> Cells {
        let mut out = vec![];
        let end = off + size;
        let mut pos = off;
        let fill = |from: u64, to: u64, out: &mut Cells| {
            if let Raw::None = self.raw {
                return;
            }
            let mut p = from;
            while p < to {
                let n = if p % 8 == 0 && to - p >= 8 {
                    8
                } else if p % 4 == 0 && to - p >= 4 {
                    4
                } else {
                    1
                };
                if let Some(v) = self.raw_int(p, n) {
                    out.push((p - off, n as u8, Sc::T(t::c(n as u32 * 8, v))));
                }
                p += n;
            }
        };
        for (o, s) in self.overlapping(off, size) {
            if o > pos {
                fill(pos, o, &mut out);
            }
            let ce = o + s as u64;
            if o >= off && ce <= end {
                out.push((o - off, s, self.cells[&o].1.clone()));
            } else {
                for i in o.max(off)..ce.min(end) {
                    out.push((i - off, 1, self.read(i, 1)));
                }
            }
            pos = ce.min(end);
        }
        if pos < end {
            fill(pos, end, &mut out);
        }
        out
    }
    pub fn write_range(&mut self, off: u64, size: u64, cells: &Cells) {
        self.clear(off, size);
        if !matches!(self.raw, Raw::None) {
            let mut pos = 0;
            for (o, s, _) in cells {
                for i in pos..*o {
                    self.cells.insert(off + i, (1, Sc::Undef));
                }
                pos = o + *s as u64;
            }
            for i in pos..size {
                self.cells.insert(off + i, (1, Sc::Undef));
            }
        }
        for (o, s, v) in cells {
            self.cells.insert(off + o, (*s, v.clone()));
        }
    }
    /// make every `size`-aligned slot of a raw-backed object an explicit cell
    pub fn materialize(&mut self, size: u8) {
        if let Raw::None = self.raw {
            return;
        }
        let mut p = 0;
        while p + size as u64 <= self.size {
            if self.overlapping(p, size as u64).is_empty() {
                if let Some(v) = self.raw_int(p, size as u64) {
                    self.cells.insert(p, (size, Sc::T(t::c(size as u32 * 8, v))));
                }
            }
            p += size as u64;
        }
    }
}

const PG: u32 = 32;
type Page<'tcx> = Vec<Option<Rc<Obj<'tcx>>>>;

#[derive(Clone)]
pub struct Mem<'tcx> {
    pages: BTreeMap<u32, Rc<Page<'tcx>>>,
}

impl<'tcx> Mem<'tcx> {
    pub fn new() -> Self {
        Mem { pages: BTreeMap::new() }
    }
    pub fn get(&self, a: Aid) -> Option<&Rc<Obj<'tcx>>> {
        self.pages.get(&(a / PG)).and_then(|p| p[(a % PG) as usize].as_ref())
    }
    pub fn set(&mut self, a: Aid, o: Rc<Obj<'tcx>>) {
        let p = self.pages.entry(a / PG).or_insert_with(|| Rc::new(vec![None; PG as usize]));
        Rc::make_mut(p)[(a % PG) as usize] = Some(o);
    }
    pub fn get_mut(&mut self, a: Aid) -> Option<&mut Obj<'tcx>> {
        let p = self.pages.get_mut(&(a / PG))?;
        if p[(a % PG) as usize].is_none() {
            return None;
        }
        Some(Rc::make_mut(Rc::make_mut(p)[(a % PG) as usize].as_mut().unwrap()))
    }
    pub fn remove(&mut self, a: Aid) {
        let k = a / PG;
        if let Some(p) = self.pages.get_mut(&k) {
            if p[(a % PG) as usize].is_some() {
                let pm = Rc::make_mut(p);
                pm[(a % PG) as usize] = None;
                if pm.iter().all(|x| x.is_none()) {
                    self.pages.remove(&k);
                }
            }
        }
    }
    pub fn ids(&self) -> Vec<Aid> {
        let mut v = vec![];
        for (k, p) in &self.pages {
            for (i, o) in p.iter().enumerate() {
                if o.is_some() {
                    v.push(k * PG + i as u32);
                }
            }
        }
        v
    }
    /// merge under condition c (self when c). None: not mergeable.
    pub fn merge(&self, other: &Mem<'tcx>, c: T) -> Option<Mem<'tcx>> {
        let mut out = self.clone();
        for (k, q) in &other.pages {
            match self.pages.get(k) {
                None => {
                    out.pages.insert(*k, q.clone());
                }
                Some(p) if Rc::ptr_eq(p, q) => {}
                Some(p) => {
                    let mut np: Page<'tcx> = (**p).clone();
                    for i in 0..PG as usize {
                        match (&p[i], &q[i]) {
                            (None, Some(o)) => np[i] = Some(o.clone()),
                            (Some(a), Some(b)) if !Rc::ptr_eq(a, b) => np[i] = Some(Rc::new(merge_obj(a, b, c)?)),
                            _ => {}
                        }
                    }
                    out.pages.insert(*k, Rc::new(np));
                }
            }
        }
        Some(out)
    }
}

fn merge_obj<'tcx>(a: &Obj<'tcx>, b: &Obj<'tcx>, c: T) -> Option<Obj<'tcx>> {
    if a.size != b.size {
        return None;
    }
    let same_raw = match (&a.raw, &b.raw) {
        (Raw::None, Raw::None) | (Raw::Zero, Raw::Zero) => true,
        (Raw::Bytes(x), Raw::Bytes(y)) => Rc::ptr_eq(x, y),
        _ => false,
    };
    if !same_raw {
        return None;
    }
    let mut out = Obj { size: a.size, align: a.align, kind: a.kind.clone(), cells: BTreeMap::new(), raw: a.raw.clone() };
    let mut ia = a.cells.iter().peekable();
    let mut ib = b.cells.iter().peekable();
    loop {
        match (ia.peek().map(|x| (*x.0, x.1.clone())), ib.peek().map(|x| (*x.0, x.1.clone()))) {
            (None, None) => break,
            (Some((oa, (sa, va))), Some((ob, (sb, vb)))) if oa == ob && sa == sb => {
                out.cells.insert(oa, (sa, merge_sc(c, &va, &vb, sa)?));
                ia.next();
                ib.next();
            }
            (x, y) => {
                // take the lower one; the other side must not overlap unless splittable
                let (oa, sa) = x.as_ref().map_or((u64::MAX, 0), |v| (v.0, v.1 .0));
                let (ob, sb) = y.as_ref().map_or((u64::MAX, 0), |v| (v.0, v.1 .0));
                if oa != u64::MAX && (ob == u64::MAX || oa + sa as u64 <= ob) {
                    let (_, (s, va)) = x.unwrap();
                    let vb = b.read(oa, s);
                    out.cells.insert(oa, (s, merge_sc(c, &va, &vb, s)?));
                    ia.next();
                } else if ob != u64::MAX && (oa == u64::MAX || ob + sb as u64 <= oa) {
                    let (_, (s, vb)) = y.unwrap();
                    let va = a.read(ob, s);
                    out.cells.insert(ob, (s, merge_sc(c, &va, &vb, s)?));
                    ib.next();
                } else {
                    // different granularity: go to bytes over the union of the overlap
                    let start = oa.min(ob);
                    let mut end = (oa + sa as u64).max(ob + sb as u64);
                    loop {
                        let e0 = end;
                        for o in [a, b] {
                            for (p, s) in o.overlapping(start, end - start) {
                                end = end.max(p + s as u64);
                            }
                        }
                        if end == e0 {
                            break;
                        }
                    }
                    let n = end - start;
                    if n == 2 || n == 4 || n == 8 || n == 16 {
                        let (va, vb) = (a.read(start, n as u8), b.read(start, n as u8));
                        out.cells.insert(start, (n as u8, merge_sc(c, &va, &vb, n as u8)?));
                    } else {
                        for i in start..end {
                            let (va, vb) = (a.read(i, 1), b.read(i, 1));
                            out.cells.insert(i, (1, merge_sc(c, &va, &vb, 1)?));
                        }
                    }
                    while ia.peek().map_or(false, |v| *v.0 < end) {
                        ia.next();
                    }
                    while ib.peek().map_or(false, |v| *v.0 < end) {
                        ib.next();
                    }
                }
            }
        }
    }
    Some(out)
}
