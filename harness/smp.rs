//! Sample playback and the polyphonic synths: voices started by triggers, patterns or messages.
use crate::util::*;
use glicol_synth::sampling::{PSampler, Sampler};
use glicol_synth::synth::{MsgSynth, PatternSynth};
use glicol_synth::Message;
use glv::*;
use hashbrown::HashMap;

#[derive(Clone, Copy)]
struct Clip {
    data: &'static [f32],
    ch: usize,
    sr: usize,
}
fn any_clip(len: usize, ch: usize, sr: usize) -> Clip {
    let mut v = Vec::with_capacity(len * ch);
    for _ in 0..len * ch {
        v.push(any_f32_hint(-1.0, 1.0));
    }
    Clip { data: Box::leak(v.into_boxed_slice()), ch, sr }
}
impl Clip {
    fn raw(self) -> (&'static [f32], usize, usize) {
        (self.data, self.ch, self.sr)
    }
    fn len(self) -> usize {
        self.data.len() / self.ch
    }
    /// length in output samples at the given playback ratio
    fn dur(self, ratio: f32, sr: usize) -> f32 {
        self.len() as f32 / ratio / (self.sr as f32 / sr as f32)
    }
    /// side `side` at the relative position 0..=1: linear interpolation between frames
    fn at(self, side: usize, pos: f32) -> f32 {
        let n = self.len();
        let base = if self.ch == 2 { side * n } else { 0 };
        let x = pos * (n - 1) as f32;
        let k = x.floor();
        let f = x - k;
        let (a, b) = (k as usize, x.ceil() as usize);
        self.data[base + a] * (1.0 - f) + self.data[base + b] * f
    }
}
struct Voice {
    begin: usize,
    dur: f32,
    clip: Clip,
}
/// the sum of all voices still running at sample n
fn mix(vs: &[Voice], n: usize, side: usize) -> f32 {
    let mut y = 0.0;
    for v in vs {
        let pos = (n - v.begin) as f32 / v.dur;
        if pos <= 1.0 {
            y = y + v.clip.at(side, pos);
        }
    }
    y
}
fn trigger(n: usize, plan: usize) -> f32 {
    if !is_symbolic() {
        return [0.0, 0.0, 0.0, 0.0, -1.0, 1.0, 0.5, 2.0, 0.75][choose(9)];
    }
    match (plan, n) {
        (0, 1) => 1.0,
        (1, 0) => 0.5,
        (1, 3) => 1.0,
        (2, 0) => 1.0,
        (2, 1) => 1.0,
        (2, 2) => -1.0,
        (3, 0) => 2.0,
        (3, 2) => 0.5,
        (3, 6) => 1.0,
        (4, 1) => 0.75,
        (4, 4) => 1.5,
        (5, _) => 1.0,
        _ => 0.0,
    }
}
pub fn sampler() {
    const N: usize = 2;
    let mut len = [2, 3, 5, 7][choose(4)];
    let ch = 1 + choose(2);
    let (mut sr, mut ssr) = [(100, 100), (100, 50), (50, 100)][choose(3)];
    if !is_symbolic() && choose(2) == 1 {
        len = 2 + choose(40);
        (sr, ssr) = ([44100, 48000, 100, 37][choose(4)], [44100, 48000, 100, 37][choose(4)]);
    }
    let plan = choose(6);
    let mut clip = any_clip(len, ch, ssr);
    let mut r = Rig::<N>::new(&[1 + choose(2)], 2, Sampler::new(clip.raw(), sr));
    r.msg(Message::Index(0));
    let swap = choose(2) == 1;
    let mut vs: Vec<Voice> = vec![];
    let mut n = 0;
    for b in 0..(if is_symbolic() { 5 } else { 40 }) {
        if swap && b == 3 {
            // another recording: running voices go on in the new one
            clip = any_clip(len + 1, ch, ssr);
            r.msg(Message::SetToSamples(0, clip.raw()));
            for v in vs.iter_mut() {
                v.clip = clip;
            }
        }
        r.any_sources();
        for i in 0..N {
            let x = trigger(n + i, plan);
            r.set(0, 0, i, x);
        }
        r.block();
        for i in 0..N {
            let x = r.src(0, 0, i);
            if x > 0.0 {
                vs.push(Voice { begin: n, dur: clip.dur(x, sr), clip });
            }
            for side in 0..2 {
                check_f32_tol(r.out(side, i), mix(&vs, n, side), 1.0 + vs.len() as f32, "each trigger plays the recording at its ratio");
            }
            n += 1;
        }
    }
    cover("end");
}
fn event_times(plan: usize) -> &'static [(&'static str, f32)] {
    if !is_symbolic() && choose(2) == 1 {
        let n = choose(6);
        let v: Vec<_> = (0..n).map(|_| (["m", "s"][choose(2)], choose(16) as f32 / 16.0)).collect();
        return Box::leak(v.into_boxed_slice());
    }
    match plan {
        0 => &[("m", 0.0)],
        1 => &[("m", 0.0), ("s", 0.5)],
        2 => &[("s", 0.25), ("m", 0.5), ("s", 0.75)],
        _ => &[("s", 0.0), ("m", 0.0), ("m", 0.375)],
    }
}
pub fn psampler() {
    const N: usize = 2;
    let plan = choose(4);
    // one cycle of four beats: 8 samples at 240 bpm
    let (mut bpm, sr) = (240.0, 8);
    let mut span = [1.0, 0.5, 1.5][choose(3)];
    let (cm, cs) = (any_clip([2, 5][choose(2)], 1, sr), any_clip([3, 4][choose(2)], 2, [sr, 2 * sr][choose(2)]));
    let pick = |name: &str| if name == "m" { cm } else { cs };
    let mut dict = HashMap::new();
    dict.insert("m".to_string(), cm.raw());
    dict.insert("s".to_string(), cs.raw());
    let pat = |ev: &[(&str, f32)]| ev.iter().map(|(n, t)| (n.to_string(), *t)).collect::<Vec<_>>();
    let mut ev = event_times(plan);
    let mut r = Rig::<N>::new(&[], 2, PSampler::new(dict.clone(), sr, bpm, vec![], pat(ev), span));
    let change = choose(3);
    let mut vs: Vec<Voice> = vec![];
    let mut n = 0;
    for b in 0..(if is_symbolic() { 8 } else { 30 }) {
        if b == 3 && change == 1 {
            bpm = 480.0;
            r.msg(Message::SetBPM(bpm));
        }
        if b == 3 && change == 2 {
            // a new pattern: what was playing stops
            span = 1.0;
            ev = event_times(1);
            vs.clear();
            r.msg(Message::SetSamplePattern(pat(ev), span, dict.clone()));
        }
        r.any_sources();
        r.block();
        let cycle = 60.0 / bpm * 4.0;
        let bar = (cycle * span * sr as f32) as usize;
        for i in 0..N {
            for (name, t) in ev {
                if n % bar == (t * cycle * sr as f32) as usize {
                    let clip = pick(name);
                    vs.push(Voice { begin: n, dur: clip.dur(1.0, sr), clip });
                }
            }
            for side in 0..2 {
                check_f32_tol(r.out(side, i), mix(&vs, n, side), 1.0 + vs.len() as f32, "each event plays its recording");
            }
            n += 1;
        }
    }
    cover("end");
}
struct Tone {
    begin: usize,
    freq: f32,
    phase: f32,
}
struct Poly {
    vs: Vec<Tone>,
    att: f32,
    dec: f32,
    sr: usize,
    n: usize,
}
impl Poly {
    fn start(&mut self, midi: f32) {
        self.vs.push(Tone { begin: self.n, freq: 2f32.powf((midi - 69.0) / 12.0) * 440.0, phase: 0.0 });
    }
    fn next(&mut self) -> f32 {
        let sr = self.sr as f32;
        let (a, d) = ((self.att * sr) as usize, (self.dec * sr) as usize);
        let dur = ((self.att + self.dec) * sr) as usize;
        let mut y = 0.0;
        for v in self.vs.iter_mut() {
            let pos = self.n - v.begin;
            if pos > dur {
                continue;
            }
            let amp = if pos <= a {
                if a == 0 {
                    0.0
                } else {
                    pos as f32 / (self.att * sr)
                }
            } else if d == 0 {
                0.0
            } else {
                (dur - pos) as f32 / (self.dec * sr)
            };
            y = y + amp * (v.phase * 2.0 - 1.0) * 0.1;
            v.phase = v.phase + v.freq / sr;
            if v.phase > 1.0 {
                v.phase = v.phase - 1.0;
            }
        }
        self.n += 1;
        y
    }
}
fn any_midi() -> f32 {
    if is_symbolic() {
        [60.0, 69.0, 72.5][choose(3)]
    } else {
        f32_in(20.0, 100.0)
    }
}
pub fn pattern_synth() {
    const N: usize = 2;
    let sr = [100, 2000][choose(2)];
    let span = [1.0, 0.5][choose(2)];
    let mut cycle = [0.08, 0.004][if sr == 100 { 0 } else { 1 }];
    let ev: Vec<(f32, f32)> = match choose(3) {
        0 => vec![(0.0, any_midi())],
        1 => vec![(0.0, any_midi()), (0.25, any_midi())],
        _ if !is_symbolic() && choose(2) == 1 => (0..choose(5)).map(|_| (choose(16) as f32 / 16.0, any_midi())).collect(),
        _ => vec![(0.5, any_midi()), (0.5, any_midi())],
    };
    let mut r = Rig::<N>::new(&[], 1, PatternSynth::new(ev.clone()).sr(sr).period_in_cycle(span).cycle_dur(cycle));
    let mut m = Poly { vs: vec![], att: 0.001, dec: 0.1, sr, n: 0 };
    let change = choose(2) == 1;
    for b in 0..(if is_symbolic() { 9 } else { 60 }) {
        if b == 4 && change {
            let bpm = 240.0 / (cycle * 2.0);
            cycle = 60.0 / bpm * 4.0;
            r.msg(Message::SetBPM(bpm));
        }
        r.any_sources();
        r.block();
        let bar = (cycle * span * sr as f32) as usize;
        for i in 0..N {
            for (t, midi) in ev.iter() {
                if m.n % bar == (t * cycle * sr as f32) as usize {
                    m.start(*midi);
                }
            }
            check_f32_tol(r.out(0, i), m.next(), 10.0, "each event plays its note with attack and decay");
        }
    }
    cover("end");
}
pub fn msg_synth() {
    const N: usize = 2;
    let sr = 100;
    let (att, dec) = [(0.001, 0.1), (0.0301, 0.0401), (0.0201, 0.0)][choose(3)];
    let mut r = Rig::<N>::new(&[], 1, MsgSynth::new().sr(sr).attack(att).decay(dec));
    let mut m = Poly { vs: vec![], att, dec, sr, n: 0 };
    let mut ev: Vec<(f32, f32)> = vec![];
    let text: &[&str] = match choose(5) {
        0 => &["0=>60"],
        1 => &["0.03=>69", " 0.05 => 57 "],
        2 => &["0.02=>60", "0.02=>64"],
        3 => &["0.01=>30", "0.04=>33", "0.06=>36", "0.02=>90"],
        _ => &["nothing"],
    };
    let mut send = |t: &str| {
        if let Some((at, midi)) = t.split_once("=>") {
            ev.push((at.trim().parse().unwrap(), midi.trim().parse().unwrap()));
        }
        r.msg(Message::SetToSymbol(3, t.to_string()));
    };
    for t in text {
        send(t);
    }
    if !is_symbolic() {
        for _ in 0..choose(6) {
            send(&format!("{}=>{}", choose(30) as f32 / 100.0, any_midi()));
        }
    }
    r.msg(Message::SetToSymbol(1, "0.01=>60".to_string()));
    let change = choose(2) == 1;
    for b in 0..(if is_symbolic() { 9 } else { 30 }) {
        if b == 1 && change {
            m.att = 0.0201;
            m.dec = 0.0501;
            r.msg(Message::SetToNumber(1, m.att));
            r.msg(Message::SetToNumber(2, m.dec));
            r.msg(Message::SetToNumber(3, 5.0));
        }
        r.any_sources();
        r.block();
        for i in 0..N {
            for (t, midi) in ev.iter() {
                if m.n == (t * sr as f32) as usize {
                    m.start(*midi);
                }
            }
            check_f32_tol(r.out(0, i), m.next(), 10.0, "each message plays its note with attack and decay");
        }
    }
    cover("end");
}
