//! Harness orchestration and the unbounded-loop rule.
use crate::body::*;
use crate::exec::*;
use crate::mem::*;
use crate::smt::Res;
use crate::term::{self as t, T};
use rustc_middle::ty::{self, Instance};
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;

type Key = (Aid, u64, u8);

/// a cell that is always the same function of other cells (a cached coefficient)
struct Derived {
    x: T,
    from: Vec<(T, usize)>,
}
impl Derived {
    fn apply(&self, val: impl Fn(usize) -> T) -> T {
        let m: HashMap<T, T> = self.from.iter().map(|(v, c)| (*v, val(*c))).collect();
        t::subst(self.x, &m, &mut HashMap::new())
    }
}
impl<'tcx> Engine<'tcx> {
    fn havoc(&mut self, st0: &State<'tcx>, classes: &BTreeMap<Key, usize>, derived: &BTreeMap<usize, Derived>) -> (State<'tcx>, HashMap<usize, T>) {
        let mut st = st0.clone();
        let mut vars: HashMap<usize, T> = HashMap::new();
        for (k, cl) in classes {
            if let Sc::T(x) = st.mem.get(k.0).unwrap().read(k.1, k.2) {
                if !derived.contains_key(cl) {
                    vars.entry(*cl).or_insert_with(|| t::fresh("h", t::sort(x)));
                }
            }
        }
        for (cl, d) in derived {
            let v = d.apply(|c| vars[&c]);
            vars.insert(*cl, v);
        }
        for (k, cl) in classes {
            let (a, off, n) = *k;
            let old = match st.mem.get(a).unwrap().read(off, n) {
                Sc::T(x) => x,
                _ => unreachable!(),
            };
            let v = *vars.entry(*cl).or_insert_with(|| t::fresh("h", t::sort(old)));
            st.mem.get_mut(a).unwrap().write(off, n, Sc::T(v));
        }
        (st, vars)
    }
    /// Numeric facts about forgotten cells that the body provably keeps: upper bounds of
    /// wrapped positions, and that free-running 64-bit counters (reset to a constant or
    /// advanced by less than 2^16 per step) stay below 2^62.
    fn infer_bounds(
        &mut self,
        st0: &State<'tcx>,
        start: &mut State<'tcx>,
        classes: &BTreeMap<Key, usize>,
        vars: &HashMap<usize, T>,
        outs: &[State<'tcx>],
    ) -> String {
        let (mut nb, mut nc) = (0, 0);
        let mut seen = std::collections::BTreeSet::new();
        for (k, cl) in classes {
            if !seen.insert(*cl) {
                continue;
            }
            let h = vars[cl];
            if t::is_bool(h) || !matches!(t::kind(h), t::K::Var(_)) {
                continue;
            }
            let w = t::width(h);
            let init = match st0.mem.get(k.0).unwrap().read(k.1, k.2) {
                Sc::T(x) => match t::as_const(x) {
                    Some(v) => v,
                    None => continue,
                },
                _ => continue,
            };
            let posts: Vec<T> = outs
                .iter()
                .filter_map(|s| match s.mem.get(k.0).unwrap().read(k.1, k.2) {
                    Sc::T(x) => Some(x),
                    _ => None,
                })
                .collect();
            if posts.len() != outs.len() {
                continue;
            }
            let mut counter = w == 64 && init < 1 << 62;
            let mut cands = std::collections::BTreeSet::new();
            for x in &posts {
                leaves(*x, h, 0, &mut counter, &mut cands);
            }
            if counter {
                let c = t::ult(h, t::c(w, 1 << 62));
                self.assume(start, c);
                nc += 1;
            }
            cands.retain(|b| init < *b);
            let cands: Vec<u128> = cands.into_iter().take(4).collect();
            for b in cands {
                let lim = t::c(w, b);
                let inv = t::ult(h, lim);
                let mut ok = true;
                for (s, x) in outs.iter().zip(&posts) {
                    if *x == h {
                        continue;
                    }
                    let mut s = s.clone();
                    self.assume(&mut s, inv);
                    let c = t::not(t::ult(*x, lim));
                    if self.feasible(&s, c) {
                        ok = false;
                        break;
                    }
                }
                if ok {
                    self.assume(start, inv);
                    nb += 1;
                    break;
                }
            }
        }
        format!("{} bounds, {} free-running counters below 2^62", nb, nc)
    }
    /// `forall_steps`: the body is executed any number of times.  The rule: find the set of
    /// cells the body may modify, forget their values (keeping inferred equalities), assume
    /// the invariant, run the body once, check the invariant and all obligations.
    /// two differently written terms that are equal on this path
    fn same_value(&mut self, s: &State<'tcx>, x: T, y: T, effort: &mut [u32; 2]) -> bool {
        let plain = |x: T| matches!(t::kind(x), t::K::Var(_) | t::K::C(_));
        if t::sort(x) != t::sort(y) || (plain(x) && plain(y)) {
            return false;
        }
        let e = t::eq(x, y);
        if let Some(v) = self.quick(s, e) {
            return v;
        }
        // a plain value seldom equals a computed one: less is spent on those
        let i = (plain(x) || plain(y)) as usize;
        if effort[i] == 0 {
            return false;
        }
        effort[i] -= 1;
        let v = self.slice(&s.pc, t::not(e));
        let r = self.prune.check_ms(&v, if i == 0 { 2000 } else { 300 });
        if self.trace {
            eprintln!("same value {:?}: {}", r, t::show(e, 30));
        }
        r == Res::Unsat
    }
    pub fn forall(&mut self, st0: State<'tcx>, f: ForallCall<'tcx>) -> R<Vec<State<'tcx>>> {
        let bly = Ly { size: 1, align: 1, abi: Abi::Scalar(1) };
        let zly = Ly { size: 0, align: 1, abi: Abi::Zst };
        if let Some(k) = self.unroll {
            self.bounded = true;
            let mut cur = vec![st0];
            for _ in 0..k {
                let mut nx = vec![];
                for s in cur {
                    let rs = self.call_fn(s, f.finv, vec![f.inv.clone(), f.s.clone()], bly)?;
                    for (mut s, v) in rs {
                        let c = self.bool_of(&v)?;
                        self.oblige(&mut s, c, format!("spec: invariant of {}", f.label))?;
                        for (s, _) in self.call_fn(s, f.fbody, vec![f.body.clone(), f.s.clone()], zly)? {
                            nx.push(s);
                        }
                    }
                }
                cur = self.merge_all(nx);
            }
            for s in cur.iter_mut() {
                goto(s, f.target);
            }
            return Ok(cur);
        }
        // base case
        let mut st0 = st0;
        {
            let rs = self.call_fn(st0.clone(), f.finv, vec![f.inv.clone(), f.s.clone()], bly)?;
            for (mut s, v) in rs {
                let c = self.bool_of(&v)?;
                self.oblige(&mut s, c, format!("spec: invariant of {} holds initially", f.label))?;
            }
        }
        let marker = self.next_id;
        let first_var = t::fresh("loop", t::Sort::Bool);
        let mut classes: BTreeMap<Key, usize> = BTreeMap::new();
        let mut ncls = 0usize;
        let was_dry = self.dry;
        let mut round = 0;
        // solver queries spent on equalities of state cells
        let mut effort = [80, 16].map(|n| n * self.prune.patience as u32);
        let head;
        let bounds;
        let mut derived: BTreeMap<usize, Derived> = BTreeMap::new();
        let mut banned: std::collections::BTreeSet<usize> = Default::default();
        loop {
            round += 1;
            if round > 200 {
                return un("loop frame inference does not converge");
            }
            let (mut st, vars) = self.havoc(&st0, &classes, &derived);
            self.dry = true;
            let start = st.clone();
            let r = (|| -> R<Vec<State<'tcx>>> {
                let mut out = vec![];
                for (mut s, v) in self.call_fn(st.clone(), f.finv, vec![f.inv.clone(), f.s.clone()], bly)? {
                    let c = self.bool_of(&v)?;
                    if !self.feasible(&s, c) {
                        continue;
                    }
                    self.assume(&mut s, c);
                    for (s, _) in self.call_fn(s, f.fbody, vec![f.body.clone(), f.s.clone()], zly)? {
                        out.push(s);
                    }
                }
                Ok(out)
            })();
            self.dry = was_dry;
            let outs = r?;
            // modified cells
            let mut changed = false;
            let mut posts: Vec<BTreeMap<Key, Sc>> = vec![];
            let mut newkeys: Vec<Key> = vec![];
            for s in &outs {
                for a in start.mem.ids() {
                    if a >= marker {
                        continue;
                    }
                    let before = start.mem.get(a).unwrap().clone();
                    let after = match s.mem.get(a) {
                        Some(o) => o.clone(),
                        None => {
                            return un(format!("loop {}: body frees memory that exists before the loop", f.label));
                        }
                    };
                    if Rc::ptr_eq(&before, &after) {
                        continue;
                    }
                    let mut all: Vec<(u64, u8)> = after.cells.iter().map(|(o, c)| (*o, c.0)).collect();
                    all.extend(
                        before
                            .cells
                            .iter()
                            .filter(|(o, c)| after.cells.get(o).map(|d| d.0) != Some(c.0))
                            // covered by a wider cell of the other state
                            .filter(|(o, c)| !after.cells.range(..=**o).next_back().map_or(false, |(p, d)| p + d.0 as u64 >= **o + c.0 as u64))
                            .map(|(o, c)| (*o, c.0)),
                    );
                    for (off, n) in all {
                        let bv_ = before.read(off, n);
                        let v = after.read(off, n);
                        if bv_ == v {
                            continue;
                        }
                        let key = (a, off, n);
                        match (&bv_, &v) {
                            (Sc::T(_), Sc::T(_)) => {
                                if !classes.contains_key(&key) {
                                    newkeys.push(key);
                                }
                            }
                            (Sc::Undef, _) => {}
                            (p, q) => {
                                return un(format!(
                                    "loop {}: pointer-valued state changes across iterations (cell {:?}: {:?} -> {:?})",
                                    f.label, key, p, q
                                ));
                            }
                        }
                    }
                }
                let mut m = BTreeMap::new();
                for k in classes.keys() {
                    m.insert(*k, s.mem.get(k.0).unwrap().read(k.1, k.2));
                }
                posts.push(m);
            }
            newkeys.sort();
            newkeys.dedup();
            if !newkeys.is_empty() {
                // conflicting granularity is not supported
                for k in newkeys {
                    // make the initial cell explicit
                    let init = st0.mem.get(k.0).unwrap().read(k.1, k.2);
                    let x = match init {
                        Sc::T(x) => x,
                        _ => return un("loop: initial value"),
                    };
                    if st0.mem.get(k.0).unwrap().cells.get(&k.1).map(|c| c.0) != Some(k.2) {
                        let o = st0.mem.get_mut(k.0).unwrap();
                        o.write(k.1, k.2, Sc::T(x));
                        classes.retain(|kk, _| kk.0 != k.0 || kk.1 + kk.2 as u64 <= k.1 || k.1 + k.2 as u64 <= kk.1);
                    }
                    classes.insert(k, 0);
                }
                derived.clear();
                banned.clear();
                // start again from the coarsest partition: equal initial values
                let mut byval: HashMap<T, usize> = HashMap::new();
                for (k, c) in classes.iter_mut() {
                    if let Sc::T(x) = st0.mem.get(k.0).unwrap().read(k.1, k.2) {
                        *c = *byval.entry(x).or_insert_with(|| {
                            ncls += 1;
                            ncls
                        });
                    }
                }
                continue;
            }
            // split classes whose members got different values
            for (s, m) in outs.iter().zip(&posts) {
                // class -> values seen and the class their cells go to
                let mut groups: BTreeMap<usize, Vec<(Sc, usize)>> = BTreeMap::new();
                let keys: Vec<Key> = classes.keys().copied().collect();
                for k in keys {
                    let c = classes[&k];
                    let v = match m.get(&k) {
                        Some(v) => v,
                        None => continue,
                    };
                    let gs = groups.entry(c).or_default();
                    let mut to = gs.iter().find(|g| g.0 == *v).map(|g| g.1);
                    if to.is_none() {
                        if let Sc::T(x) = v {
                            for g in gs.iter() {
                                if let Sc::T(y) = g.0 {
                                    if self.same_value(s, *x, y, &mut effort) {
                                        to = Some(g.1);
                                        break;
                                    }
                                }
                            }
                        }
                    }
                    let to = match to {
                        Some(t) => t,
                        None => {
                            let t = if gs.is_empty() {
                                c
                            } else {
                                ncls += 1;
                                ncls
                            };
                            gs.push((v.clone(), t));
                            t
                        }
                    };
                    if to != c {
                        classes.insert(k, to);
                        changed = true;
                    }
                }
            }
            if self.trace {
                eprintln!("round {} posts {}", round, posts.len());
                for (k, c) in &classes {
                    eprintln!("  {:?} class {} init {:?} posts {:?}", k, c, st0.mem.get(k.0).unwrap().read(k.1, k.2), posts.iter().map(|m| m.get(k).map(|x| match x { Sc::T(t) => t::show(*t, 3), o => format!("{:?}", o) })).collect::<Vec<_>>());
                }
            }
            // derived cells: drop those that are not, look for new ones
            let mut rep: BTreeMap<usize, Key> = BTreeMap::new();
            for (k, c) in &classes {
                rep.entry(*c).or_insert(*k);
            }
            let at = |m: &BTreeMap<Key, Sc>, c: usize| match m[&rep[&c]] {
                Sc::T(x) => Some(x),
                _ => None,
            };
            let init = |c: usize| match st0.mem.get(rep[&c].0).unwrap().read(rep[&c].1, rep[&c].2) {
                Sc::T(x) => Some(x),
                _ => None,
            };
            let holds = |d: &Derived, c: usize| {
                init(c) == Some(d.apply(|c| init(c).unwrap()))
                    && posts.iter().all(|m| at(m, c).is_some() && d.from.iter().all(|f| at(m, f.1).is_some()) && at(m, c) == Some(d.apply(|c| at(m, c).unwrap())))
            };
            let bad: Vec<usize> = derived.iter().filter(|(c, d)| !holds(d, **c)).map(|(c, _)| *c).collect();
            for c in bad {
                derived.remove(&c);
                banned.insert(c);
                changed = true;
            }
            if !changed {
                for c in rep.keys() {
                    if derived.contains_key(c) || banned.contains(c) || derived.values().any(|d| d.from.iter().any(|f| f.1 == *c)) {
                        continue;
                    }
                    let h = vars[c];
                    let x = match posts.iter().filter_map(|m| at(m, *c)).find(|x| *x != h && !matches!(t::kind(*x), t::K::Var(_) | t::K::C(_))) {
                        Some(x) => x,
                        None => continue,
                    };
                    let m = posts.iter().find(|m| at(m, *c) == Some(x)).unwrap();
                    let mut vs = vec![];
                    t::vars_of(x, &mut Default::default(), &mut vs);
                    if vs.contains(&h) || vs.len() > 8 {
                        continue;
                    }
                    let from: Vec<(T, usize)> = vs
                        .iter()
                        .filter_map(|v| rep.keys().find(|r| *r != c && !derived.contains_key(r) && at(m, **r) == Some(*v)).map(|r| (*v, *r)))
                        .collect();
                    if from.is_empty() {
                        continue;
                    }
                    // every other variable must be older than the loop
                    let d = Derived { x, from };
                    if vs.iter().any(|v| !d.from.iter().any(|f| f.0 == *v) && *v >= first_var) {
                        continue;
                    }
                    // replace h of the sources so that unchanged posts compare
                    if init(*c) == Some(d.apply(|c| init(c).unwrap())) {
                        derived.insert(*c, d);
                        changed = true;
                        break;
                    } else {
                        banned.insert(*c);
                    }
                }
            }
            if !changed {
                let mut start = start;
                bounds = self.infer_bounds(&st0, &mut start, &classes, &vars, &outs);
                head = start;
                break;
            }
            st.frames.truncate(st0.frames.len());
        }
        if !was_dry {
            self.loops.push(format!(
                "{}: {} state cells in {} equality classes forgotten, {} rounds; inferred: {}, {} derived cells",
                f.label,
                classes.len(),
                classes.values().collect::<std::collections::BTreeSet<_>>().len(),
                round,
                bounds,
                derived.len()
            ));
        }
        // real run
        let mut cont = vec![];
        for (mut s, v) in self.call_fn(head.clone(), f.finv, vec![f.inv.clone(), f.s.clone()], bly)? {
            let c = self.bool_of(&v)?;
            if !self.feasible(&s, c) {
                continue;
            }
            self.assume(&mut s, c);
            cont.push(s.clone());
            for (s, _) in self.call_fn(s, f.fbody, vec![f.body.clone(), f.s.clone()], zly)? {
                for (mut s, v) in self.call_fn(s, f.finv, vec![f.inv.clone(), f.s.clone()], bly)? {
                    let c = self.bool_of(&v)?;
                    self.oblige(&mut s, c, format!("spec: invariant of {} is preserved", f.label))?;
                }
            }
        }
        for s in cont.iter_mut() {
            goto(s, f.target);
        }
        Ok(cont)
    }

    pub fn run_harness(&mut self, inst: Instance<'tcx>) -> Result<(), String> {
        let mut st = State { mem: Mem::new(), frames: vec![], pc: vec![], known: Rc::new(BTreeMap::new()), tape: vec![] };
        let r = (|| -> R<()> {
            self.push_frame(&mut st, inst, vec![], None, None)?;
            self.run(st, Stop { depth: 1, bb: None })?;
            Ok(())
        })();
        match r {
            Ok(()) => Ok(()),
            Err(E::Unsup(s)) => Err(s),
            Err(e) => Err(format!("{:?}", e)),
        }
    }
    pub fn load_ptr(&mut self, st: &mut State<'tcx>, p: &Sc, ly: Ly) -> R<Val> {
        if ly.size == 0 {
            return Ok(Val::Zst);
        }
        let (a, off) = self.ptr(st, p)?;
        self.load(st, &Pl { a, off, meta: None }, ly)
    }
    pub fn store_ptr(&mut self, st: &mut State<'tcx>, p: &Sc, v: &Val) -> R<()> {
        if let Val::Zst = v {
            return Ok(());
        }
        let (a, off) = self.ptr(st, p)?;
        self.store(st, &Pl { a, off, meta: None }, v)
    }
    pub fn discr_at(&mut self, st: &mut State<'tcx>, p: &Sc, d: &Discr, w: u32) -> R<T> {
        let (a, off) = self.ptr(st, p)?;
        self.get_discr(st, &Pl { a, off, meta: None }, d, w)
    }
    pub fn report(&mut self, harness: &str, err: Option<String>, secs: f64) -> String {
        let mut tot = 0;
        let mut tri = 0;
        let mut smt = 0;
        let mut ival = 0;
        let mut real = 0;
        let mut failed = 0;
        let mut unk = 0;
        let mut obs = vec![];
        for (n, o) in &self.obs {
            tot += o.total;
            tri += o.trivial;
            smt += o.smt;
            ival += o.ival;
            real += o.real;
            failed += o.failed;
            unk += o.unknown;
            obs.push(format!(
                "{{\"name\":{},\"total\":{},\"trivial\":{},\"smt\":{},\"ival\":{},\"real\":{},\"failed\":{},\"unknown\":{},\"loc\":{},\"detail\":{},\"tape\":{}}}",
                js(n),
                o.total,
                o.trivial,
                o.smt,
                o.ival,
                o.real,
                o.failed,
                o.unknown,
                js(&o.loc),
                js(&o.detail),
                match &o.tape {
                    Some(v) => format!("[{}]", v.iter().map(|x| format!("\"{}\"", x)).collect::<Vec<_>>().join(",")),
                    None => "null".into(),
                }
            ));
        }
        let covers: Vec<String> = self.covers.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect();
        let funs: Vec<String> = self.funs.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect();
        let loops: Vec<String> = self.loops.iter().map(|x| js(x)).collect();
        format!(
            "{{\"harness\":{},\"error\":{},\"obligations\":{},\"trivial\":{},\"smt\":{},\"ival\":{},\"real\":{},\"failed\":{},\"unknown\":{},\"queries\":{},\"solver_s\":{:.3},\"max_query_s\":{:.3},\"secs\":{:.3},\"steps\":{},\"forks\":{},\"merges\":{},\"bounded\":{},\"covers\":{{{}}},\"functions\":{{{}}},\"loops\":[{}],\"obs\":[{}]}}",
            js(harness),
            err.map_or("null".into(), |e| js(&e)),
            tot,
            tri,
            smt,
            ival,
            real,
            failed,
            unk,
            self.smt.queries + self.prune.queries,
            self.smt.time + self.prune.time,
            self.smt.max_time.max(self.prune.max_time),
            secs,
            self.steps,
            self.forks,
            self.merges,
            self.bounded,
            covers.join(","),
            funs.join(","),
            loops.join(","),
            obs.join(",")
        )
    }
}
/// collect what the new value of a cell can look like
fn leaves(x: T, h: T, depth: u32, counter: &mut bool, cands: &mut std::collections::BTreeSet<u128>) {
    use t::{Op, K};
    if let Some(v) = t::as_const(x) {
        if v >= 1 << 62 {
            *counter = false;
        }
        return;
    }
    let (b, o) = t::base_off(x);
    if b == h && o < 1 << 16 {
        return;
    }
    match t::kind(x) {
        K::A3(Op::Ite, c, p, q) if depth < 200 => {
            match t::kind(c) {
                K::A2(Op::Eq | Op::Ult, a, b) => {
                    for y in [a, b] {
                        if let Some(v) = t::as_const(y) {
                            cands.insert(v);
                            cands.insert(v.wrapping_add(1));
                        }
                    }
                }
                _ => {}
            }
            leaves(p, h, depth + 1, counter, cands);
            leaves(q, h, depth + 1, counter, cands);
        }
        K::A2(Op::URem, _, n) => {
            *counter = false;
            if let Some(v) = t::as_const(n) {
                cands.insert(v);
            }
        }
        _ => *counter = false,
    }
}
pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
#[allow(dead_code)]
fn unused(_: Res, _: ty::TypingMode<'_>) {}
