//! delayn / delayms: exact sample delays over any history of blocks.
use crate::util::*;
use glicol_synth::delay::{DelayMs, DelayN};
use glicol_synth::Message;
use glv::*;

/// reference delay line: what was pushed `n` pushes ago (zero before the start)
struct Line {
    buf: Vec<f32>,
    pos: usize,
}
impl Line {
    fn new(n: usize) -> Self {
        Line { buf: vec![0.0; n], pos: 0 }
    }
    fn ok(&self) -> bool {
        self.pos < self.buf.len()
    }
    fn push(&mut self, x: f32) -> f32 {
        let y = self.buf[self.pos];
        self.buf[self.pos] = x;
        self.pos = if self.pos + 1 == self.buf.len() { 0 } else { self.pos + 1 };
        y
    }
    fn size(&self) -> f32 {
        if is_symbolic() {
            0.0
        } else {
            self.buf.iter().fold(0.0, |m, x| x.abs().max(m))
        }
    }
    /// the sample pushed d pushes ago, 1 <= d <= len
    fn ago(&self, d: usize) -> f32 {
        self.buf[(self.pos + self.buf.len() - d) % self.buf.len()]
    }
}
/// a delay length: small when enumerated, wide when sampled
fn any_len() -> usize {
    if is_symbolic() {
        1 + choose(6)
    } else {
        usize_in(1, 400)
    }
}
struct S<const N: usize> {
    r: Rig<N>,
    a: Line,
    b: Line,
}
/// a mono signal is on both sides
fn check_delay<const N: usize>(s: &mut S<N>, ic: usize, oc: usize) {
    s.r.any_sources();
    s.r.block();
    for i in 0..N {
        let y = s.a.push(s.r.src(0, 0, i));
        check_f32(s.r.out(0, i), y, "the signal comes out after exactly the delay");
        let y = s.b.push(s.r.src(0, ic - 1, i));
        if oc == 2 {
            check_f32(s.r.out(1, i), y, "the right channel comes out after exactly the delay");
        }
    }
}
fn samples<const N: usize>(n: usize, ic: usize, oc: usize, how: usize) {
    let mut s = S::<N> {
        r: match how {
            0 => Rig::new(&[ic], oc, DelayN::new(n)),
            1 => {
                let mut r = Rig::new(&[ic], oc, DelayN::new([0, 1, 4][choose(3)]));
                r.any_sources();
                r.block();
                r.msg(Message::SetToNumber(0, n as f32));
                r
            }
            _ => {
                let mut r = Rig::new(&[ic], oc, DelayN::new(3));
                r.msg(Message::SetToNumber(0, 0.0));
                r.any_sources();
                r.block();
                r.msg(Message::SetToNumber(0, n as f32));
                r
            }
        },
        a: Line::new(n),
        b: Line::new(n),
    };
    forall_steps(
        "blocks",
        &mut s,
        |s| s.a.ok() && s.b.ok(),
        |s| {
            cases(s.a.pos, n);
            check_delay(s, ic, oc);
            cover("block");
        },
    );
    cover("end");
}
pub fn delayn() {
    let n = any_len();
    match choose(5) {
        0 => samples::<1>(n, 1, 1, 0),
        1 => samples::<4>(n, 1, 2, 0),
        2 => samples::<3>(n, 1 + choose(2), 1, 1 + choose(2)),
        3 => samples::<4>(n, 2, 2, choose(2)),
        _ => samples::<16>(n, 1, 2, 0),
    }
}
/// zero samples: the signal passes straight through
pub fn delayn_zero() {
    let set = choose(2) == 1;
    let ic = 1 + choose(2);
    let mut r = Rig::<4>::new(&[ic], 2, DelayN::new(if set { 5 } else { 0 }));
    if set {
        r.any_sources();
        r.block();
        r.msg(Message::SetToNumber(0, 0.0));
    }
    forall_steps(
        "blocks",
        &mut r,
        |_| true,
        |r| {
            r.any_sources();
            r.block();
            for c in 0..2 {
                for i in 0..4 {
                    check_f32(r.out(c, i), r.src(0, if ic == 2 { c } else { 0 }, i), "a zero delay passes the signal through");
                }
            }
            cover("block");
        },
    );
    cover("end");
}
/// milliseconds to samples: whole samples, never less than one
fn ms_len(ms: f32, sr: usize) -> usize {
    let n = (ms / 1000.0 * sr as f32) as usize;
    if n < 1 {
        1
    } else {
        n
    }
}
fn any_ms(sr: usize) -> f32 {
    if is_symbolic() {
        // every length in whole milliseconds at 1 kHz, and fractions that round down
        [0.0, 0.4, 1.0, 1.5, 2.0, 3.9, 5.0][choose(7)]
    } else {
        let ms = any_f32_hint(0.0, 200.0);
        assume(ms >= 0.0 && ms / 1000.0 * sr as f32 <= 3000.0);
        ms
    }
}
fn millis<const N: usize>(ic: usize, ch: usize, how: usize) {
    let sr = if is_symbolic() { [1000, 2000][choose(2)] } else { usize_in(1, 192_000) };
    let ms = any_ms(sr);
    let n = ms_len(ms, sr);
    let mut s = S::<N> {
        r: match how {
            0 => Rig::new(&[ic], ch, DelayMs::new().sr(sr).delay(ms, ch as u8)),
            _ => {
                let mut r = Rig::new(&[ic], ch, DelayMs::new().sr(sr).delay(3.0, ch as u8));
                r.any_sources();
                r.block();
                if how == 2 {
                    r.msg(Message::SetToNumber(0, 0.0));
                    r.any_sources();
                    r.block();
                }
                assume((ms / 1000.0 * sr as f32) as usize >= 1);
                r.msg(Message::SetToNumber(0, ms));
                r
            }
        },
        a: Line::new(n),
        b: Line::new(n),
    };
    forall_steps(
        "blocks",
        &mut s,
        |s| s.a.ok() && s.b.ok(),
        |s| {
            cases(s.a.pos, n);
            check_delay(s, ic, ch);
            cover("block");
        },
    );
    cover("end");
}
pub fn delayms() {
    match choose(5) {
        0 => millis::<1>(1, 1, 0),
        1 => millis::<4>(2, 2, 0),
        2 => millis::<3>(2, 2, 1 + choose(2)),
        3 => millis::<4>(1, 2, choose(2)),
        _ => millis::<8>(1, 1, 1),
    }
}
pub fn delayms_zero() {
    let ic = 1 + choose(2);
    let mut r = Rig::<4>::new(&[ic], 2, DelayMs::new().sr(1000).delay(3.0, 2));
    r.any_sources();
    r.block();
    r.msg(Message::SetToNumber(0, 0.0));
    forall_steps(
        "blocks",
        &mut r,
        |_| true,
        |r| {
            r.any_sources();
            r.block();
            for c in 0..2 {
                for i in 0..4 {
                    check_f32(r.out(c, i), r.src(0, if ic == 2 { c } else { 0 }, i), "a zero delay passes the signal through");
                }
            }
            cover("block");
        },
    );
    cover("end");
}
/// delay time from a second signal: linear interpolation between the two nearest samples
fn modulated<const N: usize>(n: usize, ic: usize, ch: usize, main: usize) {
    let sr = 1000usize;
    let ms = n as f32;
    let n = ms_len(ms, sr);
    let mut s = S::<N> {
        r: Rig::new(if main == 0 { [&[1, 1], &[2, 1]][ic - 1] } else { &[1, 2] }, ch, DelayMs::new().sr(sr).delay(ms, ch as u8)),
        a: Line::new(n),
        b: Line::new(n),
    };
    any_order(&mut s.r, main, 1 - main);
    forall_steps(
        "blocks",
        &mut s,
        |s| s.a.ok() && s.b.ok(),
        |s| {
            cases(s.a.pos, n);
            s.r.any_sources();
            let mut ds = [0usize; N];
            let mut fs = [0f32; N];
            for i in 0..N {
                // d samples ago, plus an exact fraction
                let d = if is_symbolic() { 1 + choose(n) } else { usize_in(1, n) };
                let f = [0.0, 0.25, 0.5][if d < n { choose(3) } else { 0 }];
                ds[i] = d;
                fs[i] = f;
                s.r.set(1 - main, 0, i, d as f32 + f);
            }
            s.r.block();
            for i in 0..N {
                let (d, f) = (ds[i], fs[i]);
                let at = |l: &Line| {
                    if f == 0.0 {
                        l.ago(d)
                    } else {
                        l.ago(d) * (1.0 - f) + l.ago(d + 1) * f
                    }
                };
                check_f32_tol(s.r.out(0, i), at(&s.a), s.a.size() * 8.0, "the sample the requested time ago");
                s.a.push(s.r.src(main, 0, i));
                if ch == 2 {
                    check_f32_tol(s.r.out(1, i), at(&s.b), s.b.size() * 8.0, "the right sample the requested time ago");
                    s.b.push(s.r.src(main, ic - 1, i));
                }
            }
            cover("block");
        },
    );
    cover("end");
}
pub fn delayms_mod() {
    let n = if is_symbolic() { [1, 2, 4][choose(3)] } else { usize_in(1, 400) };
    match choose(3) {
        0 => modulated::<1>(n, 2, 2, choose(2)),
        1 => modulated::<1>(n, 1, 2, 0),
        _ => modulated::<2>(n.min(3), 2, 1, 0),
    }
}
/// no input at all: nothing happens, and in particular no panic
pub fn delay_no_input() {
    let mut r = match choose(2) {
        0 => Rig::<2>::new(&[], 2, DelayN::new(3)),
        _ => Rig::<2>::new(&[], 2, DelayMs::new().sr(1000).delay(3.0, 2)),
    };
    r.block();
    for i in 0..2 {
        check(r.out(0, i) == 0.0 && r.out(1, i) == 0.0, "a delay without input stays silent");
    }
    cover("end");
}
