//! sin / saw / squ / tri: phase accumulator contracts over any history of blocks and messages.
use crate::util::*;
use glicol_synth::oscillator::*;
use glicol_synth::Message;
use glv::*;

/// reference phase accumulator
struct Model {
    freq: f32,
    phase: f32,
    sr: usize,
    held: f32,
}
impl Model {
    /// between 0 and one turn per sample
    fn ok(&self, f: f32) -> bool {
        let d = f / self.sr as f32;
        d >= 0.0 && d <= 1.0
    }
    fn advance(&mut self, freq: f32) {
        self.phase = self.phase + freq / self.sr as f32;
        if self.phase > 1.0 {
            self.phase = self.phase - 1.0;
        }
    }
}
pub const SIN: u8 = 0;
pub const SAW: u8 = 1;
pub const SQU: u8 = 2;
pub const TRI: u8 = 3;
fn wave(kind: u8, phase: f32) -> f32 {
    match kind {
        SIN => (phase * 2.0 * std::f32::consts::PI).sin(),
        SAW => phase * 2.0 - 1.0,
        SQU => {
            if phase <= 0.5 {
                1.0
            } else {
                -1.0
            }
        }
        _ => 2.0 * ((phase * 2.0 - 1.0).abs() - 0.5),
    }
}
struct S<const N: usize> {
    r: Rig<N>,
    m: Model,
}
fn rig<const N: usize>(kind: u8, srcs: &[usize], out: usize, freq: f32, phase: f32, sr: usize) -> S<N> {
    // the builder calls commute
    let r = match kind {
        SIN => Rig::<N>::new(srcs, out, SinOsc::new().freq(freq).phase(phase).sr(sr)),
        SAW => Rig::<N>::new(srcs, out, SawOsc::new().sr(sr).freq(freq).phase(phase)),
        SQU => Rig::<N>::new(srcs, out, SquOsc::new().phase(phase).freq(freq).sr(sr)),
        _ => Rig::<N>::new(srcs, out, TriOsc::new().freq(freq).phase(phase).sr(sr)),
    };
    S { r, m: Model { freq, phase, sr, held: 0.0 } }
}
fn free<const N: usize>(kind: u8, out: usize) {
    let (freq, phase, sr) = (any_f32_hint(0.0, 22050.0), any_f32_hint(0.0, 1.0), any_usize_hint(8000, 192000));
    let mut s = rig::<N>(kind, &[], out, freq, phase, sr);
    forall_steps(
        "blocks and messages",
        &mut s,
        |_| true,
        |s| match choose(3) {
            0 => {
                let f = any_f32_hint(0.0, 22050.0);
                s.r.msg(Message::SetToNumber(0, f));
                s.m.freq = f;
            }
            1 => {
                let p = any_u8();
                assume(p != 0);
                s.r.msg(Message::SetToNumber(p, any_f32()));
                s.r.msg(Message::SetBPM(any_f32()));
            }
            _ => {
                s.r.any_sources();
                s.r.block();
                for i in 0..N {
                    let want = wave(kind, s.m.phase);
                    for c in 0..out {
                        if c == 0 || kind == SIN {
                            check_f32(s.r.out(c, i), want, "sample is the waveform at the current phase");
                        }
                    }
                    let f = s.m.freq;
                    s.m.advance(f);
                }
                cover("block");
            }
        },
    );
    cover("end");
}
fn modulated<const N: usize>(kind: u8, ic: usize, out: usize, named: bool) {
    let (freq, phase, sr) = (any_f32_hint(0.0, 22050.0), any_f32_hint(0.0, 1.0), any_usize_hint(8000, 192000));
    let mut s = rig::<N>(kind, &[ic], out, freq, phase, sr);
    if named {
        s.r.msg(Message::Index(0));
    }
    forall_steps(
        "blocks and messages",
        &mut s,
        |_| true,
        |s| {
            if any_bool() {
                s.r.msg(Message::SetToNumber(0, any_f32()));
            } else {
                s.r.any_sources();
                s.r.block();
                for i in 0..N {
                    let want = wave(kind, s.m.phase);
                    for c in 0..out {
                        if c == 0 || kind == SIN {
                            check_f32(s.r.out(c, i), want, "sample is the waveform at the current phase");
                        }
                    }
                    let x = s.r.src(0, 0, i);
                    if kind == SIN {
                        s.m.advance(x);
                    } else {
                        if x != 0.0 {
                            s.m.held = x;
                        }
                        let f = s.m.held;
                        s.m.advance(f);
                    }
                }
                cover("block");
            }
        },
    );
    cover("end");
}
/// frequency between 0 and the sample rate: the output never leaves [-1, 1], whatever happens
fn range<const N: usize>(kind: u8, fm: bool) {
    let sr = usize_in(1, 768_000);
    let freq = f32_in(0.0, 768_000.0);
    assume(freq / sr as f32 >= 0.0 && freq / sr as f32 <= 1.0);
    let phase = f32_in(0.0, 1.0);
    let mut s = rig::<N>(kind, if fm { &[1] } else { &[] }, 1, freq, phase, sr);
    forall_steps(
        "blocks and messages",
        &mut s,
        |s| s.m.phase >= 0.0 && s.m.phase <= 1.0 && s.m.ok(s.m.freq) && s.m.ok(s.m.held),
        |s| {
            if choose(2) == 0 {
                let f = f32_in(0.0, 768_000.0);
                assume(s.m.ok(f));
                s.r.msg(Message::SetToNumber(0, f));
                s.m.freq = f;
            } else {
                s.r.any_sources();
                if fm {
                    for i in 0..N {
                        let f = f32_in(0.0, 768_000.0);
                        assume(s.m.ok(f));
                        s.r.set(0, 0, i, f);
                    }
                }
                s.r.block();
                for i in 0..N {
                    let y = s.r.out(0, i);
                    check(y >= -1.0 && y <= 1.0, "output stays within [-1, 1]");
                    let f = if fm {
                        let x = s.r.src(0, 0, i);
                        if kind != SIN {
                            if x != 0.0 {
                                s.m.held = x;
                            }
                            s.m.held
                        } else {
                            x
                        }
                    } else {
                        s.m.freq
                    };
                    s.m.advance(f);
                }
                cover("block");
            }
        },
    );
    cover("end");
}
macro_rules! per_kind {
    ($($free:ident $fm:ident $range:ident $k:expr;)*) => {$(
        pub fn $free() {
            match choose(3) {
                0 => free::<1>($k, 1),
                1 => free::<4>($k, 2),
                _ => free::<64>($k, 1),
            }
        }
        pub fn $fm() {
            match choose(4) {
                0 => modulated::<1>($k, 2, 1, false),
                1 => modulated::<4>($k, 1, 2, true),
                2 => modulated::<3>($k, 1, 1, false),
                _ => modulated::<32>($k, 1, 1, true),
            }
        }
        pub fn $range() {
            range::<2>($k, choose(2) == 1)
        }
    )*};
}
per_kind! {
    sin_free sin_fm sin_range SIN;
    saw_free saw_fm saw_range SAW;
    squ_free squ_fm squ_range SQU;
    tri_free tri_fm tri_range TRI;
}
