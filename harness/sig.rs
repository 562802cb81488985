//! Signal sources driven by a sample clock: impulses, constants and their patterns, noise.
use crate::util::*;
use glicol_synth::signal::{ConstSig, Impulse, Noise};
use glicol_synth::Message;
use glv::*;

const LIM: usize = 1 << 62;

struct Imp<const N: usize> {
    r: Rig<N>,
    n: usize,
    period: usize,
    sr: usize,
}
fn period(sr: usize, f: f32) -> usize {
    let p = (sr as f32 / f) as usize;
    if p < 1 {
        1
    } else {
        p
    }
}
fn impulse<const N: usize>(out: usize) {
    let sr = any_sr();
    let f = any_f32_hint(0.1, 30000.0);
    let mut s = Imp::<N> { r: Rig::new(&[], out, Impulse::new().sr(sr).freq(f)), n: 0, period: period(sr, f), sr };
    forall_steps(
        "blocks and messages",
        &mut s,
        |s| s.period >= 1,
        |s| {
            assume(s.n < LIM);
            match choose(3) {
                0 => {
                    let f = any_f32_hint(0.1, 30000.0);
                    s.r.msg(Message::SetToNumber(0, f));
                    s.period = period(s.sr, f);
                }
                1 => {
                    let p = any_u8();
                    assume(p != 0);
                    s.r.msg(Message::SetToNumber(p, any_f32()));
                    s.r.msg(Message::SetBPM(any_f32()));
                }
                _ => {
                    s.r.any_sources();
                    s.r.block();
                    for i in 0..N {
                        let want = if s.n % s.period == 0 { 1.0 } else { 0.0 };
                        check_f32(s.r.out(0, i), want, "a one every period, zero elsewhere");
                        s.n += 1;
                    }
                    cover("block");
                }
            }
        },
    );
    cover("end");
}
pub fn imp() {
    match choose(3) {
        0 => impulse::<1>(1),
        1 => impulse::<5>(2),
        _ => impulse::<16>(1),
    }
}
struct Cs<const N: usize> {
    r: Rig<N>,
    n: usize,
    v: f32,
    bpm: f32,
}
fn constant<const N: usize>() {
    let v = any_f32();
    let mut s = Cs::<N> { r: Rig::new(&[], 1, ConstSig::new(v)), n: 0, v, bpm: 120.0 };
    forall_steps(
        "blocks and messages",
        &mut s,
        |s| s.bpm >= 1.0 && s.bpm <= 1000.0,
        |s| {
            assume(s.n < LIM);
            match choose(3) {
            0 => {
                let v = any_f32();
                s.r.msg(Message::SetToNumber(0, v));
                s.v = v;
            }
            1 => {
                let p = any_u8();
                assume(p != 0);
                s.r.msg(Message::SetToNumber(p, any_f32()));
                s.bpm = f32_in(1.0, 1000.0);
                s.r.msg(Message::SetBPM(s.bpm));
            }
            _ => {
                s.r.any_sources();
                s.r.block();
                for i in 0..N {
                    check(s.r.out(0, i).to_bits() == s.v.to_bits(), "the constant is sent out unchanged");
                }
                s.n += N;
                cover("block");
            }
            }
        },
    );
    cover("end");
}
pub fn constsig() {
    match choose(2) {
        0 => constant::<3>(),
        _ => constant::<128>(),
    }
}
struct Pat<const N: usize> {
    r: Rig<N>,
    ev: Vec<(f32, f32)>,
    v: f32,
    bpm: f32,
    span: f32,
    sr: usize,
    n: usize,
}
/// a pattern of (value, time in cycles) repeats every `span` cycles of four beats
fn pattern<const N: usize>(how: usize, k: usize) {
    let sr = any_sr();
    let bpm = f32_in(1.0, 1000.0);
    let span = f32_in(0.01, 64.0);
    let v = any_f32();
    let ev: Vec<(f32, f32)> = (0..k).map(|_| (any_f32(), f32_in(0.0, 64.0))).collect();
    let r = match how {
        0 => Rig::<N>::new(&[], 1, ConstSig::new(v).events(ev.clone()).span(span).bpm(bpm).sr(sr)),
        1 => Rig::<N>::new(&[], 1, ConstSig::new(v).sr(sr).bpm(bpm).span(span).pattern(ev.clone())),
        _ => {
            let mut r = Rig::<N>::new(&[], 1, ConstSig::new(v).sr(sr).bpm(bpm));
            r.msg(Message::SetPattern(ev.clone(), span));
            r
        }
    };
    let mut s = Pat { r, ev, v, bpm, span, sr, n: 0 };
    forall_steps(
        "blocks and messages",
        &mut s,
        |s| s.bpm >= 1.0 && s.bpm <= 1000.0,
        |s| {
            assume(s.n < LIM);
            match choose(3) {
                0 => {
                    let v = any_f32();
                    s.r.msg(Message::SetToNumber(0, v));
                    s.v = v;
                }
                1 => {
                    let b = f32_in(1.0, 1000.0);
                    s.r.msg(Message::SetBPM(b));
                    s.bpm = b;
                }
                _ => {
                    let cycle = 60.0 / s.bpm * 4.0;
                    let bar = (cycle * s.span * s.sr as f32) as usize;
                    assume(bar >= 1);
                    s.r.any_sources();
                    s.r.block();
                    for i in 0..N {
                        for (val, t) in s.ev.iter() {
                            if s.n % bar == (t * cycle * s.sr as f32) as usize {
                                s.v = *val;
                            }
                        }
                        check_f32(s.r.out(0, i), s.v, "the value follows the pattern");
                        s.n += 1;
                    }
                    cover("block");
                }
            }
        },
    );
    cover("end");
}
pub fn constsig_pattern() {
    pattern::<3>(choose(3), choose(4))
}
struct Two<const N: usize> {
    a: Rig<N>,
    b: Rig<N>,
    n: usize,
}
/// equal seeds give equal sequences, and samples stay in [-1, 1]
pub fn noise_same_seed() {
    let seed = any_usize_hint(0, 100000);
    let mut s = Two { a: Rig::<2>::new(&[], 1, Noise::new(seed)), b: Rig::<2>::new(&[], 1, Noise::new(seed)), n: seed };
    forall_steps(
        "blocks",
        &mut s,
        |_| true,
        |s| {
            assume(s.n < LIM);
            s.a.any_sources();
            s.b.any_sources();
            s.a.block();
            s.b.block();
            for i in 0..2 {
                let y = s.a.out(0, i);
                check(y.to_bits() == s.b.out(0, i).to_bits(), "equal seeds give equal noise");
                check(y >= -1.0 && y <= 1.0, "noise stays within [-1, 1]");
            }
            s.n += 2;
            cover("block");
        },
    );
    cover("end");
}
/// block boundaries do not matter, reseeding restarts the sequence
pub fn noise_reseed() {
    let seed = choose(40);
    let mut a = Rig::<6>::new(&[], 1, Noise::new(if any_bool() { seed } else { 77 }));
    let mut b = Rig::<2>::new(&[], 1, Noise::new(seed));
    a.msg(Message::SetToNumber(0, seed as f32));
    a.block();
    let mut moved = false;
    for k in 0..3 {
        b.block();
        for i in 0..2 {
            check(b.out(0, i).to_bits() == a.out(0, 2 * k + i).to_bits(), "the sequence depends on seed and position only");
            moved = moved || b.out(0, i) != a.out(0, 0);
        }
    }
    check(moved, "noise is not constant");
    let mut c = Rig::<6>::new(&[], 1, Noise::new(seed + 1));
    c.block();
    let mut differs = false;
    for i in 0..6 {
        differs = differs || c.out(0, i) != a.out(0, i);
    }
    check(differs, "another seed gives another sequence");
    cover("end");
}
