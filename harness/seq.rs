//! Sequencing: note sequences, random choice, speed and arrangement.
use crate::util::*;
use glicol_parser::nodes::{NumberOrRef, UsizeOrRef};
use glicol_synth::sequencer::{Arrange, Choose, Sequencer, Speed};
use glicol_synth::Message;
use glv::*;
use hashbrown::HashMap;

const LIM: usize = 1 << 60;

fn tempo() -> f32 {
    if is_symbolic() {
        f32_in(1.0, 1000.0)
    } else {
        [60.0, 120.0, 240.0, f32_in(30.0, 1000.0)][choose(4)]
    }
}
fn rate() -> usize {
    if is_symbolic() {
        any_sr()
    } else {
        [8, 10, 100, 44100][choose(4)]
    }
}
fn any_speed() -> f32 {
    let x = any_f32_hint(0.25, 8.0);
    assume(x > 0.0 && x <= 1000.0);
    x
}
/// one bar of four beats, in samples
fn bar(bpm: f32, sr: usize, speed: f32) -> f64 {
    240.0 / bpm as f64 * sr as f64 / speed as f64
}
/// the playback ratio of a note; note zero is silence
fn ratio(midi: f32) -> f32 {
    if midi == 0.0 {
        0.0
    } else {
        2f32.powf((midi - 60.0) / 12.0)
    }
}
#[derive(Clone, Copy)]
enum Note {
    Midi(usize),
    Ref(usize),
}
struct S<const N: usize> {
    r: Rig<N>,
    bpm: f32,
    sr: usize,
    speed: f32,
    n: usize,
    ev: Vec<(f32, Note)>,
}
fn any_events(k: usize, refs: usize) -> Vec<(f32, Note)> {
    (0..k)
        .map(|_| {
            let t = f32_in(0.0, 1.0);
            let note = match choose(1 + refs) {
                0 => {
                    let m = any_usize_hint(0, 127);
                    assume(m <= 1000);
                    Note::Midi(m)
                }
                r => Note::Ref(r - 1),
            };
            (t, note)
        })
        .collect()
}
const NAMES: [&str; 2] = ["~a", "~b"];
fn real(ev: &[(f32, Note)]) -> Vec<(f32, UsizeOrRef<String>)> {
    ev.iter()
        .map(|(t, n)| {
            (
                *t,
                match n {
                    Note::Midi(m) => UsizeOrRef::Usize(*m),
                    Note::Ref(r) => UsizeOrRef::Ref(NAMES[*r].to_string()),
                },
            )
        })
        .collect()
}
fn ref_order() -> HashMap<String, usize> {
    let mut m = HashMap::new();
    m.insert(NAMES[0].to_string(), 0);
    m.insert(NAMES[1].to_string(), 1);
    m
}
impl<const N: usize> S<N> {
    /// `at`: value of the reference `r` at sample `i`
    fn check(&mut self, at: impl Fn(&Self, usize, usize) -> f32) {
        let b = bar(self.bpm, self.sr, self.speed);
        for i in 0..N {
            let mut want = 0.0;
            for (t, note) in self.ev.iter() {
                if self.n % (b as usize) == (*t as f64 * b) as usize {
                    want = ratio(match note {
                        Note::Midi(m) => *m as f32,
                        Note::Ref(r) => at(self, *r, i),
                    });
                }
            }
            check_f32(self.r.out(0, i), want, "each note sounds once per bar at its time");
            self.n += 1;
        }
    }
    fn ok(&self) -> bool {
        self.bpm >= 1.0 && self.bpm <= 1000.0 && self.speed > 0.0
    }
}
/// nothing connected: notes of the sequence at the tempo
fn plain<const N: usize>(k: usize) {
    let (bpm, sr) = (tempo(), rate());
    let ev = any_events(k, 0);
    let (r, n) = match choose(2) {
        0 => (Rig::<N>::new(&[], 1, Sequencer::new(real(&ev)).sr(sr).bpm(bpm)), 0),
        _ => {
            // the notes replaced while playing: the position in the bar goes on
            assume(bar(bpm, sr, 1.0) as usize >= 1);
            let mut r = Rig::<N>::new(&[], 1, Sequencer::new(real(&[(0.0, Note::Midi(60))])).bpm(bpm).sr(sr));
            r.block();
            r.msg(Message::SetToSeq(0, real(&ev)));
            (r, N)
        }
    };
    let mut s = S { r, bpm, sr, speed: 1.0, n, ev };
    forall_steps(
        "blocks and messages",
        &mut s,
        |s| s.ok(),
        |s| {
            assume(s.n < LIM);
            match choose(2) {
                0 => {
                    s.bpm = tempo();
                    s.r.msg(Message::SetBPM(s.bpm));
                }
                _ => {
                    assume(bar(s.bpm, s.sr, s.speed) as usize >= 1);
                    s.r.any_sources();
                    s.r.block();
                    s.check(|_, _, _| 0.0);
                    cover("block");
                }
            }
        },
    );
    cover("end");
}
pub fn seq_plain() {
    match choose(2) {
        0 => plain::<1>(choose(4)),
        _ => plain::<4>(2),
    }
}
/// with a speed signal in front, and notes taken from other signals
fn wired<const N: usize>(k: usize, has_speed: bool, by_msg: bool) {
    let (bpm, sr) = (tempo(), rate());
    let ev = any_events(k, 2);
    // source 0, 1: the references; source 2: the speed
    let node = Sequencer::new(real(&ev)).sr(sr).bpm(bpm);
    let chans: &[usize] = if has_speed { &[1, 2, 1] } else { &[1, 2] };
    let mut r = if by_msg {
        let mut r = Rig::<N>::new(chans, 1, node);
        r.msg(Message::SetRefOrder(ref_order()));
        r
    } else {
        Rig::<N>::new(chans, 1, node.ref_order(ref_order()))
    };
    r.msg(Message::Index(0));
    r.msg(Message::Index(1));
    if has_speed {
        r.msg(Message::IndexOrder(0, 2));
    }
    let mut s = S { r, bpm, sr, speed: 1.0, n: 0, ev };
    forall_steps(
        "blocks and messages",
        &mut s,
        |s| s.ok(),
        |s| {
            assume(s.n < LIM);
            match choose(2) {
                0 => {
                    s.bpm = tempo();
                    s.r.msg(Message::SetBPM(s.bpm));
                }
                _ => {
                    s.r.any_sources();
                    if has_speed {
                        s.speed = any_speed();
                        s.r.set(2, 0, 0, s.speed);
                        for i in 1..N {
                            s.r.set(2, 0, i, 0.0);
                        }
                    }
                    assume(bar(s.bpm, s.sr, s.speed) as usize >= 1);
                    s.r.block();
                    s.check(|s, r, i| s.r.src(r, 0, i));
                    cover("block");
                }
            }
        },
    );
    cover("end");
}
pub fn seq_wired() {
    wired::<2>(1 + choose(2), choose(2) == 1, choose(2) == 1)
}
pub fn speed() {
    let v = any_f32();
    let mut s = S::<4> { r: Rig::new(&[], 1, Speed::from(v)), bpm: 0.0, sr: 1, speed: v, n: 0, ev: vec![] };
    forall_steps(
        "blocks and messages",
        &mut s,
        |_| true,
        |s| match choose(3) {
            0 => {
                s.speed = any_f32();
                s.r.msg(Message::SetToNumber(0, s.speed));
            }
            1 => {
                let p = any_u8();
                assume(p != 0);
                s.r.msg(Message::SetToNumber(p, any_f32()));
            }
            _ => {
                s.r.any_sources();
                s.r.block();
                for i in 0..4 {
                    check_f32(s.r.out(0, i), if i == 0 { s.speed } else { 0.0 }, "the speed is announced once per block");
                }
                cover("block");
            }
        },
    );
    cover("end");
}
struct Two<const N: usize> {
    a: Rig<N>,
    b: Rig<N>,
    n: u64,
}
/// one of the list per block, the same for equal seeds
pub fn pick() {
    let k = 1 + choose(4);
    let list: Vec<f32> = (0..k).map(|_| num()).collect();
    let seed = any_u64();
    assume(seed < 1 << 40);
    let mk = || Rig::<3>::new(&[], 1, Choose::new(list.clone(), seed));
    let mut s = Two { a: mk(), b: mk(), n: seed };
    if choose(2) == 1 {
        // the same list by message
        s.a = Rig::new(&[], 1, Choose::new(vec![7.0], seed));
        s.a.msg(Message::SetToNumberList(0, list.clone()));
    }
    forall_steps(
        "blocks",
        &mut s,
        |_| true,
        |s| {
            assume(s.n < LIM as u64);
            s.n += 1;
            s.a.any_sources();
            s.b.any_sources();
            s.a.block();
            s.b.block();
            let y = s.a.out(0, 0);
            let mut member = false;
            for v in list.iter() {
                member = member || y == *v;
            }
            check(member, "the value is one of the list");
            for i in 0..3 {
                check(s.a.out(0, i).to_bits() == y.to_bits(), "one choice per block");
                check(s.b.out(0, i).to_bits() == y.to_bits(), "equal seeds choose equally");
            }
            cover("block");
        },
    );
    cover("end");
}
/// every entry of the list gets its turn
pub fn pick_all() {
    let k = 1 + choose(6);
    let seed = choose(4) as u64 * 11;
    let list: Vec<f32> = (0..k).map(|i| i as f32 + 10.0).collect();
    let mut r = Rig::<1>::new(&[], 1, Choose::new(list, seed));
    let mut seen = [false; 6];
    for _ in 0..120 {
        r.block();
        let y = r.out(0, 0);
        for i in 0..k {
            if y == i as f32 + 10.0 {
                seen[i] = true;
            }
        }
    }
    for i in 0..k {
        check(seen[i], "every entry is chosen sooner or later");
    }
    cover("end");
}
struct Arr<const N: usize> {
    r: Rig<N>,
    bars: Vec<f32>,
    bpm: f32,
    sr: usize,
    n: usize,
}
fn any_bars() -> f32 {
    let b = if is_symbolic() { any_f32() } else { [1.0, 2.0, 0.5, any_f32_hint(0.01, 4.0)][choose(4)] };
    assume(b > 0.0 && b <= 1000.0);
    b
}
/// parts play one after the other for their number of bars, then again from the first
fn arranged<const N: usize>(k: usize) {
    let (bpm, sr) = (tempo(), if is_symbolic() { any_sr() } else { [1, 4, 44100][choose(3)] });
    let bars: Vec<f32> = (0..k).map(|_| any_bars()).collect();
    let mut ev = vec![];
    for b in bars.iter() {
        ev.push(NumberOrRef::Ref("~x".to_string()));
        ev.push(NumberOrRef::Number(*b));
    }
    let chans: &[usize] = [&[1usize][..], &[1, 2], &[1, 2, 1]][k - 1];
    let mut r = Rig::<N>::new(chans, 1, Arrange::new(ev).bpm(bpm).sr(sr));
    for i in 0..k {
        r.msg(Message::Index(i));
    }
    let mut s = Arr { r, bars, bpm, sr, n: 0 };
    forall_steps(
        "blocks and messages",
        &mut s,
        |s| s.bpm >= 1.0 && s.bpm <= 1000.0 && s.bars.iter().all(|b| *b > 0.0),
        |s| {
            assume(s.n < LIM);
            match choose(3) {
                0 => {
                    s.bpm = tempo();
                    s.r.msg(Message::SetBPM(s.bpm));
                }
                1 => {
                    let j = choose(k);
                    s.bars[j] = any_bars();
                    s.n = 0;
                    s.r.msg(Message::SetToNumber(2 * j as u8 + 1, s.bars[j]));
                }
                _ => {
                    let bar = 240.0 / s.bpm * s.sr as f32;
                    s.r.any_sources();
                    s.r.block();
                    for i in 0..N {
                        let pos = s.n as f32 / bar;
                        let mut end = 0.0;
                        let mut part = k;
                        for j in 0..k {
                            end = end + s.bars[j];
                            if part == k && pos < end {
                                part = j;
                            }
                        }
                        if part == k {
                            part = 0;
                            s.n = 0;
                        }
                        let mut want = 0.0;
                        for j in 0..k {
                            if part == j {
                                want = s.r.src(j, 0, i);
                            }
                        }
                        check_f32(s.r.out(0, i), want, "the part whose bars are running is heard");
                        s.n += 1;
                    }
                    cover("block");
                }
            }
        },
    );
    cover("end");
}
pub fn arrange() {
    match choose(2) {
        0 => arranged::<1>(1 + choose(3)),
        _ => arranged::<2>(2),
    }
}
