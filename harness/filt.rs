//! Filters: one-pole, resonant low- and high-pass, all-pass, as recurrences over any history.
use crate::util::*;
use glicol_synth::filter::{AllPassFilterGain, OnePole, ResonantHighPassFilter, ResonantLowPassFilter};
use glicol_synth::Message;
use glv::*;
use std::f32::consts::PI;

struct One<const N: usize> {
    r: Rig<N>,
    rate: f32,
    y: f32,
}
/// y[n] = (1 - b) x[n] + b y[n-1] with b = exp(-2 pi rate)
fn check_one(y: f32, x: f32, rate: f32, y1: f32) {
    let b = (-2.0 * PI * rate).exp();
    let (p, q) = (x * (1.0 - b), b * y1);
    check_f32_tol(y, p + q, p.abs() + q.abs() + (x * b).abs(), "one-pole smoothing");
}
fn one_fixed<const N: usize>() {
    let rate = any_f32_hint(0.0, 0.5);
    let mut s = One::<N> { r: Rig::new(&[1 + choose(2)], 1, OnePole::new(rate)), rate, y: 0.0 };
    s.r.msg(Message::Index(0));
    forall_steps(
        "blocks and messages",
        &mut s,
        |_| true,
        |s| match choose(3) {
            0 => {
                s.rate = any_f32_hint(0.0, 0.5);
                s.r.msg(Message::SetToNumber(0, s.rate));
            }
            1 => {
                let p = any_u8();
                assume(p != 0);
                s.r.msg(Message::SetToNumber(p, any_f32()));
            }
            _ => {
                s.r.any_sources();
                s.r.block();
                for i in 0..N {
                    let y = s.r.out(0, i);
                    check_one(y, s.r.src(0, 0, i), s.rate, s.y);
                    s.y = y;
                }
                cover("block");
            }
        },
    );
    cover("end");
}
pub fn onepole() {
    match choose(3) {
        0 => one_fixed::<1>(),
        1 => one_fixed::<3>(),
        _ => one_fixed::<32>(),
    }
}
pub fn onepole_moving() {
    let main = choose(2);
    let mut s = One::<3> { r: Rig::new(&[1, 1], 1, OnePole::new(any_f32())), rate: 0.0, y: 0.0 };
    any_order(&mut s.r, main, 1 - main);
    forall_steps(
        "blocks",
        &mut s,
        |_| true,
        |s| {
            s.r.any_sources();
            if !is_symbolic() {
                for i in 0..3 {
                    s.r.set(1 - main, 0, i, any_f32_hint(0.0, 0.5));
                }
            }
            s.r.block();
            for i in 0..3 {
                let y = s.r.out(0, i);
                check_one(y, s.r.src(main, 0, i), s.r.src(1 - main, 0, i), s.y);
                s.y = y;
            }
            cover("block");
        },
    );
    cover("end");
}
struct Bi<const N: usize> {
    r: Rig<N>,
    f: f32,
    q: f32,
    sr: usize,
    x1: f32,
    x2: f32,
    y1: f32,
    y2: f32,
    ev: Vec<(f32, f32)>,
    n: usize,
    bpm: f32,
}
impl<const N: usize> Bi<N> {
    fn new(r: Rig<N>, f: f32, q: f32, sr: usize) -> Self {
        Bi { r, f, q, sr, x1: 0.0, x2: 0.0, y1: 0.0, y2: 0.0, ev: vec![], n: 0, bpm: 120.0 }
    }
    /// the resonant second-order section for the given cutoff
    fn step(&mut self, high: bool, f: f32, x: f32, y: f32) {
        let theta = 2.0 * PI * f / self.sr as f32;
        let d = 1.0 / self.q;
        let beta = 0.5 * (1.0 - d * theta.sin() / 2.0) / (1.0 + d * theta.sin() / 2.0);
        let gama = (0.5 + beta) * theta.cos();
        let a0 = if high { (0.5 + beta + gama) / 2.0 } else { (0.5 + beta - gama) / 2.0 };
        let a1 = if high { -0.5 - beta - gama } else { 0.5 + beta - gama };
        let (b1, b2) = (-2.0 * gama, 2.0 * beta);
        let want = a0 * x + a1 * self.x1 + a0 * self.x2 - b1 * self.y1 - b2 * self.y2;
        let size = (1.0 + beta.abs()) * (x.abs() + self.x1.abs() + self.x2.abs() + self.y1.abs() + self.y2.abs());
        check_f32_tol(y, want, size * 4.0, "resonant second-order recurrence");
        self.x2 = self.x1;
        self.x1 = x;
        self.y2 = self.y1;
        self.y1 = y;
    }
}
fn freq() -> f32 {
    any_f32_hint(20.0, 20000.0)
}
fn res() -> f32 {
    any_f32_hint(0.1, 20.0)
}
fn bi_fixed<const N: usize>(high: bool) {
    let (f, q, sr) = (freq(), res(), any_sr());
    let ic = 1 + choose(2);
    let r = match high {
        true => Rig::<N>::new(&[ic], 1, ResonantHighPassFilter::new().cutoff(f).q(q).sr(sr)),
        false => Rig::<N>::new(&[ic], 1, ResonantLowPassFilter::new().cutoff(f).q(q).sr(sr)),
    };
    let mut s = Bi::new(r, f, q, sr);
    s.r.msg(Message::Index(0));
    forall_steps(
        "blocks and messages",
        &mut s,
        |_| true,
        |s| match choose(4) {
            0 => {
                s.f = freq();
                s.r.msg(Message::SetToNumber(0, s.f));
            }
            1 => {
                s.q = res();
                s.r.msg(Message::SetToNumber(1, s.q));
            }
            2 => {
                let p = any_u8();
                assume(p > 1);
                s.r.msg(Message::SetToNumber(p, any_f32()));
            }
            _ => {
                s.r.any_sources();
                s.r.block();
                for i in 0..N {
                    let (f, x, y) = (s.f, s.r.src(0, 0, i), s.r.out(0, i));
                    s.step(high, f, x, y);
                }
                cover("block");
            }
        },
    );
    cover("end");
}
pub fn lpf() {
    match choose(2) {
        0 => bi_fixed::<1>(false),
        _ => bi_fixed::<5>(false),
    }
}
pub fn hpf() {
    match choose(2) {
        0 => bi_fixed::<1>(true),
        _ => bi_fixed::<5>(true),
    }
}
/// cutoff from a second signal (taken once per block)
fn bi_moving<const N: usize>(high: bool) {
    let (q, sr) = (res(), any_sr());
    let main = choose(2);
    let r = match high {
        true => Rig::<N>::new(&[1, 1], 1, ResonantHighPassFilter::new().q(q).sr(sr)),
        false => Rig::<N>::new(&[1, 1], 1, ResonantLowPassFilter::new().q(q).sr(sr)),
    };
    let mut s = Bi::new(r, 0.0, q, sr);
    any_order(&mut s.r, main, 1 - main);
    forall_steps(
        "blocks",
        &mut s,
        |_| true,
        |s| match choose(2) {
            0 => {
                s.q = res();
                s.r.msg(Message::SetToNumber(1, s.q));
            }
            _ => {
                s.r.any_sources();
                let f = freq();
                for i in 0..N {
                    s.r.set(1 - main, 0, i, f);
                }
                s.r.block();
                for i in 0..N {
                    let (x, y) = (s.r.src(main, 0, i), s.r.out(0, i));
                    s.step(high, f, x, y);
                }
                cover("block");
            }
        },
    );
    cover("end");
}
pub fn lpf_moving() {
    match choose(2) {
        0 => bi_moving::<1>(false),
        _ => bi_moving::<4>(false),
    }
}
pub fn hpf_moving() {
    match choose(2) {
        0 => bi_moving::<1>(true),
        _ => bi_moving::<4>(true),
    }
}
/// the cutoff follows a pattern of (value, time in cycles)
pub fn lpf_pattern() {
    let (f, q, sr) = (freq(), res(), any_sr());
    let bpm = f32_in(1.0, 1000.0);
    let span = f32_in(0.01, 64.0);
    let k = 1 + choose(2);
    let ev: Vec<(f32, f32)> = (0..k).map(|_| (freq(), f32_in(0.0, 64.0))).collect();
    let node = ResonantLowPassFilter::new().cutoff(f).q(q).sr(sr).bpm(bpm);
    let r = match choose(2) {
        0 => Rig::<2>::new(&[1], 1, node.pattern(ev.clone()).span(span)),
        _ => {
            let mut r = Rig::<2>::new(&[1], 1, node);
            r.msg(Message::SetPattern(ev.clone(), span));
            r
        }
    };
    let mut s = Bi::new(r, f, q, sr);
    s.ev = ev;
    s.bpm = bpm;
    s.r.msg(Message::Index(0));
    forall_steps(
        "blocks and tempo changes",
        &mut s,
        |s| s.bpm >= 1.0 && s.bpm <= 1000.0,
        |s| match choose(2) {
            0 => {
                s.bpm = f32_in(1.0, 1000.0);
                s.r.msg(Message::SetBPM(s.bpm));
            }
            _ => {
                let cycle = 60.0 / s.bpm * 4.0;
                let bar = (cycle * span * sr as f32) as usize;
                assume(bar >= 1);
                s.r.any_sources();
                s.r.block();
                for i in 0..2 {
                    for k in 0..s.ev.len() {
                        if s.n % bar == (s.ev[k].1 * cycle * s.sr as f32) as usize {
                            s.f = s.ev[k].0;
                        }
                    }
                    let (f, x, y) = (s.f, s.r.src(0, 0, i), s.r.out(0, i));
                    s.step(false, f, x, y);
                    s.n += 1;
                }
                cover("block");
            }
        },
    );
    cover("end");
}
/// a line of the last n values, oldest first at `pos`
struct Ring {
    v: Vec<f32>,
    pos: usize,
}
impl Ring {
    fn new(n: usize) -> Self {
        Ring { v: vec![0.0; n], pos: 0 }
    }
    fn ago(&self, d: usize) -> f32 {
        self.v[(self.pos + self.v.len() - d) % self.v.len()]
    }
    fn push(&mut self, x: f32) {
        self.v[self.pos] = x;
        self.pos = if self.pos + 1 == self.v.len() { 0 } else { self.pos + 1 };
    }
}
struct Ap<const N: usize> {
    r: Rig<N>,
    g: f32,
    x: Ring,
    y: Ring,
}
/// y[n] = -g x[n] + x[n-d] + g y[n-d]
fn apf<const N: usize>(n: usize, two: bool) {
    let g = any_f32_hint(-1.0, 1.0);
    let main = if two { choose(2) } else { 0 };
    let ms = n as f32;
    let n = if is_symbolic() { n } else { ((ms / 1000.0 * 1000f32) as usize).max(1) };
    let node = AllPassFilterGain::new().sr(1000).delay(ms).gain(g);
    let mut s = Ap::<N> { r: if two { Rig::new(&[1, 1], 1, node) } else { Rig::new(&[1], 1, node) }, g, x: Ring::new(n), y: Ring::new(n) };
    if two {
        any_order(&mut s.r, main, 1 - main);
    } else {
        s.r.msg(Message::Index(0));
    }
    forall_steps(
        "blocks and messages",
        &mut s,
        |s| s.x.pos < n && s.y.pos == s.x.pos,
        |s| {
            match choose(2) {
                0 => {
                    s.g = any_f32_hint(-1.0, 1.0);
                    s.r.msg(Message::SetToNumber(1, s.g));
                }
                _ => {
                    cases(s.x.pos, n);
                    s.r.any_sources();
                    let mut ds = [n; N];
                    if two {
                        for i in 0..N {
                            ds[i] = if is_symbolic() { 1 + choose(n) } else { usize_in(1, n) };
                            s.r.set(1 - main, 0, i, ds[i] as f32);
                        }
                    }
                    s.r.block();
                    for i in 0..N {
                        let (x, y) = (s.r.src(main, 0, i), s.r.out(0, i));
                        let (xd, yd) = (s.x.ago(ds[i]), s.y.ago(ds[i]));
                        let want = -s.g * x + xd + s.g * yd;
                        let size = if is_symbolic() {
                            0.0
                        } else {
                            8.0 * s.x.v.iter().chain(s.y.v.iter()).fold(x.abs(), |m, v| m.max(v.abs()))
                        };
                        check_f32_tol(y, want, size, "all-pass recurrence");
                        s.x.push(x);
                        s.y.push(y);
                    }
                    cover("block");
                }
            }
        },
    );
    cover("end");
}
pub fn allpass() {
    let n = if is_symbolic() { 1 + choose(4) } else { usize_in(1, 300) };
    match choose(2) {
        0 => apf::<1>(n, false),
        _ => apf::<5>(n, false),
    }
}
pub fn allpass_moving() {
    let n = if is_symbolic() { 1 + choose(3) } else { usize_in(1, 300) };
    match choose(2) {
        0 => apf::<1>(n, true),
        _ => apf::<2>(n, true),
    }
}
