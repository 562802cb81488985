//! Breakpoint curves.
use crate::util::*;
use glicol_parser::nodes::{Duration, TimeList};
use glicol_synth::signal::Points;
use glicol_synth::{GlicolPara, Message};
use glv::*;

const LIM: usize = 1 << 60;

#[derive(Clone, Copy)]
struct Pt {
    bar: f32,
    kind: usize,
    extra: f32,
    val: f32,
}
struct S<const N: usize> {
    r: Rig<N>,
    pts: Vec<Pt>,
    at: Vec<(usize, f32)>,
    bpm: f32,
    span: f32,
    sr: usize,
    looping: bool,
    n: usize,
}
fn tempo() -> f32 {
    if is_symbolic() {
        f32_in(1.0, 1000.0)
    } else {
        [60.0, 120.0, 240.0, f32_in(30.0, 1000.0)][choose(4)]
    }
}
fn any_points<const N: usize>(k: usize) -> Vec<Pt> {
    (0..k)
        .map(|i| {
            // a single point at every kind of time, several in turn
            let kind = if k == 1 && N == 1 { choose(4) } else { (i + 1) % 4 };
            let bar = if is_symbolic() { f32_in(0.0, 64.0) } else { [0.0, 0.25 * i as f32, f32_in(0.0, 1.0)][choose(3)] };
            let extra = any_f32_hint(0.0, 0.5);
            assume(extra >= 0.0 && extra <= 1000.0);
            Pt { bar, kind, extra, val: any_f32() }
        })
        .collect()
}
fn list(pts: &[Pt]) -> Vec<(TimeList, f32)> {
    pts.iter()
        .map(|p| {
            let time = match p.kind {
                0 => None,
                1 => Some(Duration::Bar(p.extra)),
                2 => Some(Duration::Seconds(p.extra)),
                _ => Some(Duration::Milliseconds(p.extra)),
            };
            (TimeList { bar: p.bar, time }, p.val)
        })
        .collect()
}
impl<const N: usize> S<N> {
    fn new(k: usize, looping: bool) -> Self {
        let sr = if is_symbolic() { any_sr() } else { [8, 100, 1000][choose(3)] };
        let (bpm, span) = (tempo(), if is_symbolic() { f32_in(0.01, 64.0) } else { [1.0, 0.5, 2.0][choose(3)] });
        let pts = any_points::<N>(k);
        let node = Points::new().bpm(bpm).sr(sr).span(span).is_looping(looping);
        let mut s = S { r: Rig::new(&[], 1, node.clone()), pts, at: vec![], bpm, span, sr, looping, n: 0 };
        s.place();
        match if N > 1 { choose(2) } else { (k + s.pts[0].kind) % 2 } {
            0 => s.r = Rig::new(&[], 1, node.points(list(&s.pts))),
            _ => s.r.msg(Message::SetParam(0, GlicolPara::Points(list(&s.pts)))),
        }
        s
    }
    fn pos(&self, i: usize) -> usize {
        if self.looping {
            (self.n + i) % self.period()
        } else {
            self.n + i
        }
    }
    fn period(&self) -> usize {
        (60.0 / self.bpm * 4.0 * self.span * self.sr as f32) as usize
    }
    /// points in samples: bars at the tempo, plus an offset in bars or in time
    fn place(&mut self) {
        self.at.clear();
        let bar = 60.0 / self.bpm * 4.0 * self.span * self.sr as f32;
        for p in self.pts.iter() {
            let extra = match p.kind {
                0 => 0.0,
                1 => p.extra * bar,
                2 => p.extra * self.sr as f32,
                _ => p.extra / 1000.0 * self.sr as f32,
            };
            self.at.push(((p.bar * bar + extra) as usize, p.val));
        }
        let lead = choose(2) == 1;
        assume(lead == (self.at[0].0 != 0));
        if lead {
            // from zero to the first point
            self.at.insert(0, (0, 0.0));
        }
        for i in 1..self.at.len() {
            assume(self.at[i - 1].0 < self.at[i].0);
        }
        assume(self.at[self.at.len() - 1].0 < LIM);
        if self.looping {
            assume(self.period() >= 1 && self.at[self.at.len() - 1].0 < self.period() && self.period() < LIM);
        }
    }
    fn run(&mut self) {
        forall_steps(
            "blocks",
            self,
            |_| true,
            |s| {
                assume(s.n < LIM);
                s.r.any_sources();
                let k = s.at.len();
                // which stretch each sample of the block is in
                let mut seg = [0; N];
                for i in 0..N {
                    let pos = s.pos(i);
                    if is_symbolic() {
                        seg[i] = choose(k);
                        assume(s.at[seg[i]].0 <= pos);
                        assume(seg[i] + 1 == k || pos < s.at[seg[i] + 1].0);
                    } else {
                        while seg[i] + 1 < k && s.at[seg[i] + 1].0 <= pos {
                            seg[i] += 1;
                        }
                    }
                }
                s.r.block();
                for i in 0..N {
                    let j = seg[i];
                    let (p, v) = s.at[j];
                    let mut want = v;
                    let mut size = v.abs();
                    if j + 1 < k || s.looping {
                        let (q, w) = if j + 1 < k { (s.at[j + 1].0 as f32, s.at[j + 1].1) } else { (s.period() as f32 + s.at[0].0 as f32, s.at[0].1) };
                        want = v + (w - v) * ((s.pos(i) as f32 - p as f32) / (q - p as f32));
                        size = v.abs() + w.abs();
                    }
                    check_f32_tol(s.r.out(0, i), want, size, "straight lines between the points");
                }
                s.n += N;
                cover("block");
            },
        );
    }
    fn again(&mut self) {
        match choose(5) {
            0 => {
                self.pts = any_points::<N>(2);
                self.n = 0;
                self.place();
                self.r.msg(Message::SetParam(0, GlicolPara::Points(list(&self.pts))));
            }
            1 => {
                self.span = if is_symbolic() { f32_in(0.01, 64.0) } else { 1.5 };
                self.n = 0;
                self.place();
                self.r.msg(Message::SetToNumber(1, self.span));
            }
            2 => {
                self.looping = !self.looping;
                self.n = 0;
                self.place();
                self.r.msg(Message::SetToBool(2, self.looping));
            }
            3 => {
                self.bpm = tempo();
                self.place();
                self.r.msg(Message::SetBPM(self.bpm));
            }
            _ => {
                let p = any_u8();
                assume(p > 2);
                self.r.msg(Message::SetToNumber(p, any_f32()));
            }
        }
    }
}
fn curve<const N: usize>(k: usize, looping: bool) {
    let mut s = S::<N>::new(k, looping);
    s.run();
    if k == 1 {
        s.again();
        s.run();
    }
    cover("end");
}
pub fn points_once() {
    match choose(2) {
        0 => curve::<1>(1 + choose(3), false),
        _ => curve::<2>(1, false),
    }
}
pub fn points_looping() {
    match choose(2) {
        0 => curve::<1>(1 + choose(3), true),
        _ => curve::<2>(1, true),
    }
}
