//! Envelopes: the percussive envelope and the gated attack-decay-sustain-release envelope.
use crate::util::*;
use glicol_synth::envelope::{Adsr, EnvPerc};
use glicol_synth::Message;
use glv::*;

const LIM: usize = 1 << 60;
/// a time in seconds
fn secs() -> f32 {
    if is_symbolic() {
        f32_in(0.0, 1000.0)
    } else {
        [0.0, 0.001, 0.0005, 0.01, f32_in(0.0, 0.02)][choose(5)]
    }
}
fn sr_of() -> usize {
    if is_symbolic() {
        any_sr()
    } else {
        [1000, 44100][choose(2)]
    }
}
fn len(t: f32, sr: usize) -> usize {
    (t * sr as f32) as usize
}
struct Perc<const N: usize> {
    r: Rig<N>,
    a: f32,
    d: f32,
    sr: usize,
    /// samples since the last trigger, and its height
    n: usize,
    h: f32,
}
/// height one, linear up over the attack, linear down over the decay, zero after
fn perc_shape(n: usize, a: usize, d: usize) -> f32 {
    if n <= a {
        if a == 0 {
            0.0
        } else {
            n as f32 / a as f32
        }
    } else if n <= a + d {
        (a + d - n) as f32 / d as f32
    } else {
        0.0
    }
}
fn perc<const N: usize>(oc: usize) {
    let sr = sr_of();
    let (a, d) = (secs(), secs());
    let mut s = Perc::<N> { r: Rig::new(&[1 + choose(2)], oc, EnvPerc::new().sr(sr).attack(a).decay(d)), a, d, sr, n: 0, h: 1.0 };
    s.r.msg(Message::Index(0));
    forall_steps(
        "blocks and messages",
        &mut s,
        |s| s.a >= 0.0 && s.a <= 1000.0 && s.d >= 0.0 && s.d <= 1000.0,
        |s| {
            assume(s.n < LIM);
            match choose(4) {
                0 => {
                    s.a = secs();
                    s.r.msg(Message::SetToNumber(0, s.a));
                }
                1 => {
                    s.d = secs();
                    s.r.msg(Message::SetToNumber(1, s.d));
                }
                2 => {
                    let p = any_u8();
                    assume(p > 1);
                    s.r.msg(Message::SetToNumber(p, any_f32()));
                }
                _ => {
                    s.r.any_sources();
                    s.r.block();
                    for i in 0..N {
                        let x = s.r.src(0, 0, i);
                        if x > 0.0 {
                            s.n = 0;
                            s.h = x;
                        }
                        let want = perc_shape(s.n, len(s.a, s.sr), len(s.d, s.sr)) * s.h;
                        check_f32(s.r.out(0, i), want, "attack and decay ramps scaled by the trigger");
                        s.n += 1;
                    }
                    cover("block");
                }
            }
        },
    );
    cover("end");
}
pub fn envperc() {
    match choose(2) {
        0 => perc::<1>(2),
        _ => perc::<4>(1),
    }
}
struct Gate<const N: usize> {
    r: Rig<N>,
    p: [f32; 4],
    sr: usize,
    n: usize,
    /// 0 never opened, 1 open, 2 closed
    phase: u8,
    last_x: f32,
    last_y: f32,
    /// level when the gate last changed
    from: f32,
}
impl<const N: usize> Gate<N> {
    /// None: not determined (the single sample of an attack of zero length)
    fn shape(&self) -> Option<f32> {
        let (a, d, r) = (len(self.p[0], self.sr), len(self.p[1], self.sr), len(self.p[3], self.sr));
        let (n, sus) = (self.n, self.p[2]);
        match self.phase {
            1 => {
                if n <= a {
                    if a == 0 {
                        None
                    } else {
                        Some(self.from + (1.0 - self.from) * (n as f32 / a as f32))
                    }
                } else if n <= a + d {
                    Some(sus + (1.0 - sus) * ((a + d - n) as f32 / d as f32))
                } else {
                    Some(sus)
                }
            }
            2 => {
                if n < r {
                    Some(self.from * ((r - n) as f32 / r as f32))
                } else {
                    Some(0.0)
                }
            }
            _ => Some(0.0),
        }
    }
    fn ok(&self) -> bool {
        let t = |x: f32| x >= 0.0 && x <= 1000.0;
        t(self.p[0]) && t(self.p[1]) && t(self.p[3]) && self.phase <= 2
    }
}
fn gated<const N: usize>(ic: usize, oc: usize) {
    let sr = sr_of();
    let p = [secs(), secs(), any_f32_hint(0.0, 1.0), secs()];
    let node = Adsr::new().sr(sr).attack(p[0]).decay(p[1]).sustain(p[2]).release(p[3]);
    let mut s = Gate::<N> { r: Rig::new(&[ic], oc, node), p, sr, n: 0, phase: 0, last_x: 0.0, last_y: 0.0, from: 0.0 };
    s.r.msg(Message::Index(0));
    forall_steps(
        "blocks and messages",
        &mut s,
        |s| s.ok(),
        |s| {
            assume(s.n < LIM);
            match choose(5) {
                k @ 0..=2 => {
                    let k = [0, 1, 3][k];
                    s.p[k] = secs();
                    s.r.msg(Message::SetToNumber(k as u8, s.p[k]));
                }
                3 => {
                    s.p[2] = any_f32_hint(0.0, 1.0);
                    s.r.msg(Message::SetToNumber(2, s.p[2]));
                }
                _ => {
                    s.r.any_sources();
                    if !is_symbolic() {
                        // gates: constant over runs of samples
                        let mut g = s.last_x;
                        for i in 0..N {
                            if choose(6) == 0 {
                                g = [0.0, 1.0, 0.3, -1.0][choose(4)];
                            }
                            s.r.set(0, 0, i, g);
                        }
                    }
                    s.r.block();
                    for i in 0..N {
                        let x = s.r.src(0, 0, i);
                        if x > 0.0 && s.last_x == 0.0 {
                            s.phase = 1;
                            s.n = 0;
                            s.from = s.last_y;
                        } else if x == 0.0 && s.last_x > 0.0 {
                            s.phase = 2;
                            s.n = 0;
                            s.from = s.last_y;
                        }
                        let y = s.r.out(0, i);
                        if let Some(want) = s.shape() {
                            check_f32(y, want, "attack, decay, sustain and release follow the gate");
                        }
                        if oc == 2 {
                            check(s.r.out(1, i).to_bits() == y.to_bits(), "both channels carry the envelope");
                        }
                        s.n += 1;
                        s.last_x = x;
                        s.last_y = y;
                    }
                    cover("block");
                }
            }
        },
    );
    cover("end");
}
pub fn adsr() {
    match choose(2) {
        0 => gated::<1>(1 + choose(2), 1 + choose(2)),
        _ => gated::<3>(1, 2),
    }
}
/// an envelope without input leaves its output alone and does not panic
pub fn env_no_input() {
    let mut r = match choose(2) {
        0 => Rig::<2>::new(&[], 2, EnvPerc::new()),
        _ => Rig::<2>::new(&[], 2, Adsr::new()),
    };
    r.block();
    for i in 0..2 {
        check(r.out(0, i) == 0.0 && r.out(1, i) == 0.0, "an envelope without input stays silent");
    }
    cover("end");
}
