//! Drums, small synths and the plate against the graphs they stand for.
use crate::util::*;
use glicol_synth::compound::{Bd, Hh, SawSynth, Sn, SquSynth, TriSynth};
use glicol_synth::effect::Plate;
use glicol_synth::envelope::EnvPerc;
use glicol_synth::filter::ResonantHighPassFilter;
use glicol_synth::operator::{Add, Mul};
use glicol_synth::oscillator::{SawOsc, SinOsc, SquOsc, TriOsc};
use glicol_synth::signal::Noise;
use glicol_synth::{AudioContext, AudioContextBuilder, Message, Pass};
use glv::*;
use petgraph::graph::NodeIndex;

/// the same sound from single nodes; `env` shapes the amplitude
struct Wired<const N: usize> {
    c: AudioContext<N>,
    input: NodeIndex,
    env: NodeIndex,
}
fn perc(a: f32, d: f32) -> EnvPerc {
    EnvPerc::new().sr(44100).attack(a).decay(d)
}
impl<const N: usize> Wired<N> {
    fn new(kind: usize, a: f32, d: f32) -> Self {
        let mut c = AudioContextBuilder::<N>::new().channels(2).build();
        let input = c.add_mono_node(Pass {});
        let env = c.add_mono_node(perc([0.003, 0.001, 0.003, a, a, a][kind], d));
        c.connect(input, env);
        let source = match kind {
            0 | 1 => {
                // a sine that falls with its own short envelope
                let e = c.add_mono_node(perc([0.01, 0.001][kind], 0.1));
                let m = c.add_mono_node(Mul::new([50.0, 55.0][kind]));
                let p = c.add_mono_node(Add::new(60.0));
                let s = c.add_mono_node(SinOsc::new().sr(44100));
                c.connect(input, e);
                c.connect(e, m);
                c.connect(m, p);
                c.connect(p, s);
                if kind == 0 {
                    s
                } else {
                    let n = c.add_mono_node(Noise::new(42));
                    let soft = c.add_mono_node(Mul::new(0.3));
                    let both = c.add_mono_node(Add::new(0.0));
                    c.connect(n, soft);
                    c.connect(s, both);
                    c.connect(soft, both);
                    both
                }
            }
            2 => {
                let n = c.add_mono_node(Noise::new(42));
                let f = c.add_mono_node(ResonantHighPassFilter::new().sr(44100).cutoff(15000.0));
                c.connect(n, f);
                f
            }
            _ => {
                let m = c.add_mono_node(Mul::new(261.63));
                c.connect(input, m);
                let o = match kind {
                    3 => c.add_mono_node(SawOsc::new().sr(44100)),
                    4 => c.add_mono_node(SquOsc::new().sr(44100)),
                    _ => c.add_mono_node(TriOsc::new().sr(44100)),
                };
                c.connect(m, o);
                o
            }
        };
        let amp = c.add_mono_node(Mul::new(0.0));
        c.connect(source, amp);
        c.connect(env, amp);
        let d = c.destination;
        c.connect(amp, d);
        Wired { c, input, env }
    }
}
struct S<const N: usize> {
    r: Rig<N>,
    w: Wired<N>,
    a: f32,
    d: f32,
}
fn secs() -> f32 {
    if is_symbolic() {
        f32_in(0.0, 100.0)
    } else {
        [0.0, 0.001, 0.0005, f32_in(0.0, 0.02)][choose(4)]
    }
}
fn voice<const N: usize>(kind: usize) {
    counters_do_not_wrap();
    let (a, d) = (secs(), secs());
    let chans: &[usize] = &[1 + choose(2)];
    let mut r = match kind {
        0 => Rig::<N>::new(chans, 2, Bd::<N>::new(d)),
        1 => Rig::<N>::new(chans, 2, Sn::<N>::new(d)),
        2 => Rig::<N>::new(chans, 2, Hh::<N>::new(d)),
        3 => Rig::<N>::new(chans, 2, SawSynth::<N>::new(a, d)),
        4 => Rig::<N>::new(chans, 2, SquSynth::<N>::new(a, d)),
        _ => Rig::<N>::new(chans, 2, TriSynth::<N>::new(a, d)),
    };
    r.msg(Message::Index(0));
    let mut s = S { r, w: Wired::new(kind, a, d), a, d };
    if is_symbolic() {
        // let the work areas find their size
        for _ in 0..2 {
            s.r.set(0, 0, 0, 0.0);
            s.r.block();
            for i in 0..N {
                let v = s.r.src(0, 0, i);
                s.w.c.graph[s.w.input].buffers[0][i] = v;
            }
            s.w.c.next_block();
        }
    }
    forall_steps(
        "blocks and messages",
        &mut s,
        |s| s.a >= 0.0 && s.a <= 100.0 && s.d >= 0.0 && s.d <= 100.0,
        |s| match choose(4) {
            0 => {
                s.d = secs();
                s.r.msg(Message::SetToNumber(if kind < 3 { 0 } else { 1 }, s.d));
                s.w.c.send_msg(s.w.env, Message::SetToNumber(1, s.d));
            }
            1 => {
                if kind >= 3 {
                    s.a = secs();
                    s.r.msg(Message::SetToNumber(0, s.a));
                    s.w.c.send_msg(s.w.env, Message::SetToNumber(0, s.a));
                } else {
                    s.r.msg(Message::SetToNumber(1, secs()));
                }
            }
            2 => {
                let p = any_u8();
                assume(p > 1);
                s.r.msg(Message::SetToNumber(p, any_f32()));
            }
            _ => {
                s.r.any_sources();
                for i in 0..N {
                    s.w.c.graph[s.w.input].buffers[0][i] = s.r.src(0, 0, i);
                }
                s.r.block();
                s.w.c.next_block();
                for ch in 0..2 {
                    for i in 0..N {
                        check_f32(s.r.out(ch, i), s.w.c.graph[s.w.c.destination].buffers[ch][i], "the voice is what its parts make");
                    }
                }
                cover("block");
            }
        },
    );
    cover("end");
}
pub fn drums() {
    match choose(2) {
        0 => voice::<1>(choose(3)),
        _ => voice::<2>(choose(3)),
    }
}
pub fn little_synths() {
    match choose(2) {
        0 => voice::<1>(3 + choose(3)),
        _ => voice::<2>(3 + choose(3)),
    }
}
/// dry and wet add up to the input and the reverberation alone
pub fn plate_mix() {
    if is_symbolic() {
        mixed::<8>()
    } else {
        mixed::<64>()
    }
}
fn mixed<const N: usize>() {
    let mut mix = [0.0, 1.0, 0.25, f32_in(0.0, 1.0)][choose(if is_symbolic() { 3 } else { 4 })];
    let mk = |m: f32| {
        let mut r = Rig::<N>::new(&[1], 2, Plate::<N>::new(m));
        r.msg(Message::Index(0));
        r
    };
    let (mut p, mut wet) = (mk(mix), mk(1.0));
    for b in 0..(if is_symbolic() { 2 } else { 90 }) {
        if b > 0 && choose(8) == 1 {
            mix = f32_in(0.0, 1.0);
            p.msg(Message::SetToNumber(0, mix));
        }
        for i in 0..N {
            let v = if is_symbolic() && i != 3 {
                0.0
            } else if b < 2 || choose(64) == 0 {
                any_f32_hint(-1.0, 1.0)
            } else {
                0.0
            };
            p.set(0, 0, i, v);
            wet.set(0, 0, i, v);
        }
        p.block();
        wet.block();
        for ch in 0..2 {
            for i in 0..N {
                let x = p.src(0, 0, i);
                let y = wet.out(ch, i);
                check_f32_tol(p.out(ch, i), (1.0 - mix) * x + mix * y, x.abs() + y.abs(), "the mix of dry and wet");
            }
        }
    }
    cover("end");
}
