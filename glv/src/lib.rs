//! Vocabulary of the verification harnesses.
//!
//! Under the verifier the functions of `sym` are interpreted symbolically (their bodies are
//! never executed).  Compiled natively the same harness runs on concrete values taken from a
//! tape (replay) or drawn at random (search for a failing input).
pub mod sym {
    use std::cell::RefCell;

    #[derive(Default)]
    pub struct Run {
        pub tape: Vec<u128>,
        pub pos: usize,
        pub rng: u64,
        pub random: bool,
        pub failures: Vec<String>,
        pub covers: Vec<String>,
        /// loops declared with `forall_steps`: at most this many iterations when drawn at random
        pub max_steps: usize,
        /// exact number of iterations instead
        pub fixed_steps: Option<usize>,
        pub used: Vec<u128>,
        pub checks: u64,
        /// what was done, for the report
        pub log: Vec<String>,
        pub panic_at: String,
    }
    thread_local! {
        pub static RUN: RefCell<Run> = RefCell::new(Run::default());
    }
    pub struct Abandon;

    impl Run {
        fn rnd(&mut self) -> u64 {
            self.rng ^= self.rng << 13;
            self.rng ^= self.rng >> 7;
            self.rng ^= self.rng << 17;
            self.rng.wrapping_mul(0x2545F4914F6CDD1D)
        }
        fn next(&mut self, gen: impl FnOnce(&mut Run) -> u128) -> u128 {
            let v = if self.pos < self.tape.len() {
                self.tape[self.pos]
            } else if self.random {
                gen(self)
            } else {
                0
            };
            self.pos += 1;
            self.used.push(v);
            v
        }
    }
    fn with<R>(f: impl FnOnce(&mut Run) -> R) -> R {
        RUN.with(|r| f(&mut r.borrow_mut()))
    }
    fn rint(r: &mut Run, max: u64) -> u64 {
        let v = match r.rnd() % 8 {
            0 => 0,
            1 => 1,
            2 | 3 | 4 => r.rnd() % 8,
            5 => r.rnd() % 300,
            6 => r.rnd() % 100_000,
            _ => r.rnd() >> (r.rnd() % 64),
        };
        if max == u64::MAX {
            v
        } else {
            v % (max + 1)
        }
    }

    #[inline(never)]
    pub fn any_bool() -> bool {
        with(|r| r.next(|r| (r.rnd() >> 40 & 1) as u128)) != 0
    }
    #[inline(never)]
    pub fn any_u8() -> u8 {
        with(|r| r.next(|r| rint(r, 255) as u128)) as u8
    }
    #[inline(never)]
    pub fn any_u32() -> u32 {
        with(|r| r.next(|r| rint(r, u32::MAX as u64) as u128)) as u32
    }
    #[inline(never)]
    pub fn any_u64() -> u64 {
        with(|r| r.next(|r| rint(r, u64::MAX) as u128)) as u64
    }
    #[inline(never)]
    pub fn any_usize() -> usize {
        with(|r| r.next(|r| rint(r, u64::MAX) as u128)) as usize
    }
    #[inline(never)]
    pub fn any_usize_hint(lo: usize, hi: usize) -> usize {
        with(|r| {
            r.next(|r| {
                let n = (hi - lo) as u64;
                let v = match r.rnd() % 6 {
                    0 => 0,
                    1 => n,
                    2 => n.min(r.rnd() % 5),
                    3 => n - n.min(r.rnd() % 5),
                    _ => {
                        if n == u64::MAX {
                            r.rnd()
                        } else {
                            r.rnd() % (n + 1)
                        }
                    }
                };
                (lo as u64 + v) as u128
            })
        }) as usize
    }
    #[inline(never)]
    pub fn any_f32() -> f32 {
        f32::from_bits(with(|r| {
            r.next(|r| {
                let x: f32 = match r.rnd() % 12 {
                    0 => 0.0,
                    1 => 1.0,
                    2 => -1.0,
                    3 => 0.5,
                    4 => (r.rnd() % 64) as f32,
                    5 => -((r.rnd() % 64) as f32),
                    6 => (r.rnd() % 100_000) as f32,
                    _ => (r.rnd() >> 40) as f32 / (1u64 << 23) as f32 - 1.0,
                };
                x.to_bits() as u128
            })
        }) as u32)
    }
    #[inline(never)]
    pub fn any_f32_hint(lo: f32, hi: f32) -> f32 {
        f32::from_bits(with(|r| {
            r.next(|r| {
                let u = (r.rnd() >> 40) as f32 / (1u64 << 24) as f32;
                let x: f32 = match r.rnd() % 10 {
                    0 => lo,
                    1 => hi,
                    2 => (lo + (hi - lo) * u).round().clamp(lo, hi),
                    3 => (lo + (hi - lo) * u * u * u).clamp(lo, hi),
                    4 => (lo + (r.rnd() % 9) as f32).min(hi),
                    _ => (lo + (hi - lo) * u).clamp(lo, hi),
                };
                x.to_bits() as u128
            })
        }) as u32)
    }
    /// one of `n` alternatives; the verifier explores each of them separately
    #[inline(never)]
    pub fn choose(n: usize) -> usize {
        with(|r| r.next(|r| (r.rnd() % n as u64) as u128)) as usize % n
    }
    #[inline(never)]
    pub fn assume(c: bool) {
        if !c {
            std::panic::resume_unwind(Box::new(Abandon));
        }
    }
    #[inline(never)]
    pub fn check(c: bool, what: &'static str) {
        with(|r| {
            r.checks += 1;
            if !c {
                r.failures.push(what.to_string());
            }
        })
    }
    #[inline(never)]
    pub fn check_f32_raw(a: f32, b: f32, what: &'static str) {
        let same = a.to_bits() == b.to_bits()
            || (a.is_nan() && b.is_nan())
            || (a - b).abs() <= 1e-6 + 2e-5 * a.abs().max(b.abs());
        with(|r| {
            r.checks += 1;
            if !same {
                r.failures.push(format!("{}: got {:?}, required {:?}", what, a, b));
            }
        })
    }
    #[inline(never)]
    pub fn cover(what: &'static str) {
        with(|r| {
            if !r.covers.iter().any(|c| c == what) {
                r.covers.push(what.to_string())
            }
        })
    }
    #[inline(never)]
    pub fn note(_what: &'static str, _v: u64) {}
    /// from here on, 64-bit counters that go up by a small constant are taken not to overflow
    #[inline(never)]
    pub fn counters_do_not_wrap() {}
    /// true under the verifier, false natively
    #[inline(never)]
    pub fn is_symbolic() -> bool {
        false
    }
    #[inline(never)]
    pub fn forall_impl(
        label: &'static str,
        s: *mut u8,
        inv: *const u8,
        finv: fn(*const u8, *mut u8) -> bool,
        body: *const u8,
        fbody: fn(*const u8, *mut u8),
    ) {
        let n = with(|r| match r.fixed_steps {
            Some(k) => k as u64,
            None => {
                let m = r.max_steps.max(1) as u64;
                let v = r.next(|r| {
                    (match r.rnd() % 4 {
                        0 => r.rnd() % 4 % m,
                        1 => r.rnd() % 16 % m,
                        _ => r.rnd() % m,
                    } + 1) as u128
                }) as u64;
                v.min(1 << 20)
            }
        });
        for _ in 0..n {
            check(finv(inv, s), "loop invariant");
            if with(|r| !r.failures.is_empty()) {
                let _ = label;
                return;
            }
            fbody(body, s);
        }
    }
    /// run a harness natively: returns the failures (None: an assumption did not hold)
    pub fn run(h: fn(), tape: Vec<u128>, random: Option<u64>, max_steps: usize, fixed_steps: Option<usize>) -> Option<Vec<String>> {
        with(|r| {
            *r = Run::default();
            r.tape = tape;
            r.random = random.is_some();
            r.rng = random.unwrap_or(88172645463325252).wrapping_mul(0x9E3779B97F4A7C15) | 1;
            for _ in 0..4 {
                r.rnd();
            }
            r.max_steps = max_steps;
            r.fixed_steps = fixed_steps;
        });
        match std::panic::catch_unwind(h) {
            Ok(()) => Some(with(|r| std::mem::take(&mut r.failures))),
            Err(e) => {
                if e.is::<Abandon>() {
                    let f = with(|r| std::mem::take(&mut r.failures));
                    if f.is_empty() {
                        return None;
                    }
                    return Some(f);
                }
                let m = e
                    .downcast_ref::<String>()
                    .cloned()
                    .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                    .unwrap_or("panic".into());
                let mut f = with(|r| std::mem::take(&mut r.failures));
                f.push(format!("no panic: the code panicked: {} ({})", m, with(|r| r.panic_at.clone())));
                Some(f)
            }
        }
    }
    /// natively only
    pub fn log(s: String) {
        with(|r| r.log.push(s))
    }
    pub fn logged() -> Vec<String> {
        with(|r| r.log.clone())
    }
    pub fn panicked_at(s: String) {
        RUN.with(|r| {
            if let Ok(mut r) = r.try_borrow_mut() {
                r.panic_at = s;
            }
        })
    }
    pub fn used() -> Vec<u128> {
        with(|r| r.used.clone())
    }
    pub fn covers() -> Vec<String> {
        with(|r| r.covers.clone())
    }
}
pub use sym::*;

/// value equality of samples (NaN payloads and the sign of zero are not distinguished
/// from themselves: bitwise the same, or both NaN)
pub fn check_f32(a: f32, b: f32, what: &'static str) {
    check_f32_raw(a, b, what)
}
/// the same equality; natively the rounding error may be relative to `scale`, the size of the
/// intermediate terms (an equivalent formula rounds differently)
pub fn check_f32_tol(a: f32, b: f32, scale: f32, what: &'static str) {
    if !is_symbolic() {
        if !(scale < 1e30) || (a - b).abs() <= 2e-5 * scale {
            return;
        }
    }
    check_f32_raw(a, b, what)
}
pub fn f32_in(lo: f32, hi: f32) -> f32 {
    let x = any_f32_hint(lo, hi);
    assume(x >= lo && x <= hi);
    x
}
pub fn usize_in(lo: usize, hi: usize) -> usize {
    let x = any_usize_hint(lo, hi);
    assume(x >= lo && x <= hi);
    x
}
/// any float that is not NaN
pub fn num() -> f32 {
    let x = any_f32();
    assume(x == x);
    x
}
/// `body` is executed any number of times (including none), starting from the given state;
/// `inv` is the loop invariant.
pub fn forall_steps<S, I: Fn(&S) -> bool, B: Fn(&mut S)>(label: &'static str, s: &mut S, inv: I, body: B) {
    fn call_inv<S, I: Fn(&S) -> bool>(i: *const u8, s: *mut u8) -> bool {
        unsafe { (*(i as *const I))(&*(s as *const S)) }
    }
    fn call_body<S, B: Fn(&mut S)>(b: *const u8, s: *mut u8) {
        unsafe { (*(b as *const B))(&mut *(s as *mut S)) }
    }
    forall_impl(
        label,
        s as *mut S as *mut u8,
        &inv as *const I as *const u8,
        call_inv::<S, I>,
        &body as *const B as *const u8,
        call_body::<S, B>,
    )
}
