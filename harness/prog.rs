//! Programs: the engine against the same nodes wired by hand through the audio context.
use crate::util::*;
use glicol::{Engine, GlicolNodeData};
use glicol_parser::nodes::{Duration, NumberOrRef, TimeList, UsizeOrRef};
use glicol_synth::compound::{Bd, Hh, SawSynth, Sn, SquSynth, TriSynth};
use glicol_synth::dynamic::{Eval, Meta};
use glicol_synth::delay::{DelayMs, DelayN};
use glicol_synth::effect::{Balance, Pan, Plate};
use glicol_synth::envelope::{Adsr, EnvPerc};
use glicol_synth::filter::{AllPassFilterGain, OnePole, ResonantHighPassFilter, ResonantLowPassFilter};
use glicol_synth::operator::{Add, Mul};
use glicol_synth::oscillator::{SawOsc, SinOsc, SquOsc, TriOsc};
use glicol_synth::sampling::{PSampler, Sampler};
use glicol_synth::sequencer::{Arrange, Choose, Sequencer, Speed};
use glicol_synth::signal::{ConstSig, Impulse, Noise, Points};
use glicol_synth::synth::{MsgSynth, PatternSynth};
use glicol_synth::{AudioContext, AudioContextBuilder, Message, Node, NodeData, Pass, Sum2};
use glv::*;
use hashbrown::HashMap;
use petgraph::graph::NodeIndex;

pub const CLIP: &[f32] = &[0.5, -0.25, 0.125, 0.75, -0.5, 0.0625];

#[derive(Clone, Copy, PartialEq)]
pub struct Env {
    pub sr: usize,
    pub bpm: f32,
    pub seed: usize,
}
/// a node as written in a program, and the chains it refers to
#[derive(Clone, Copy, PartialEq)]
pub struct Nd {
    pub text: &'static str,
    pub refs: &'static [&'static str],
}
pub const fn nd(text: &'static str) -> Nd {
    Nd { text, refs: &[] }
}
pub const fn rf(text: &'static str, refs: &'static [&'static str]) -> Nd {
    Nd { text, refs }
}
pub const INPUT: Nd = rf("~input", &["~input"]);
fn boxed<const N: usize>(n: impl Node<N> + Send + 'static, ch: usize) -> GlicolNodeData<N> {
    NodeData::multi_chan_node(ch, glicol_synth::BoxedNodeSend::new(n))
}
fn seq(ev: &[(f32, UsizeOrRef<&'static str>)], e: Env) -> Sequencer {
    let mut order = HashMap::new();
    let mut list = vec![];
    for (t, v) in ev {
        list.push((
            *t,
            match v {
                UsizeOrRef::Usize(m) => UsizeOrRef::Usize(*m),
                UsizeOrRef::Ref(s) => {
                    let k = order.len();
                    order.entry(s.to_string()).or_insert(k);
                    UsizeOrRef::Ref(s.to_string())
                }
            },
        ));
    }
    Sequencer::new(list).sr(e.sr).bpm(e.bpm).ref_order(order)
}
fn at(bar: f32) -> TimeList {
    TimeList { bar, time: None }
}
/// what the text of a node means
pub fn make<const N: usize>(t: &str, e: Env) -> GlicolNodeData<N> {
    let sr = e.sr;
    match t {
        "sin 440" | "sin 440.0" | "sin 440." | "sin +440" => boxed(SinOsc::new().sr(sr).freq(440.0), 1),
        "sin 7.5" | "sin 0.75e1" => boxed(SinOsc::new().sr(sr).freq(7.5), 1),
        "sin ~a" | "sin ~b" => boxed(SinOsc::new().sr(sr).freq(0.0), 1),
        "saw 11.25" => boxed(SawOsc::new().sr(sr).freq(11.25), 1),
        "saw ~a" => boxed(SawOsc::new().sr(sr).freq(0.0), 1),
        "squ 10" => boxed(SquOsc::new().sr(sr).freq(10.0), 1),
        "squ ~a" => boxed(SquOsc::new().sr(sr).freq(0.0), 1),
        "tri 3" => boxed(TriOsc::new().sr(sr).freq(3.0), 1),
        "tri ~a" => boxed(TriOsc::new().sr(sr).freq(0.0), 1),
        "imp 25" => boxed(Impulse::new().sr(sr).freq(25.0), 1),
        "constsig 0.25" | "sig 0.25" => boxed(ConstSig::new(0.25).sr(sr), 1),
        "sig 2" => boxed(ConstSig::new(2.0).sr(sr), 1),
        "sig 64" => boxed(ConstSig::new(64.0).sr(sr), 1),
        "sig 67" => boxed(ConstSig::new(67.0).sr(sr), 1),
        "constsig -3" | "sig -3" => boxed(ConstSig::new(-3.0).sr(sr), 1),
        "noise 7" | "noiz 7" => boxed(Noise::new(7), 1),
        "mul 0.5" => boxed(Mul::new(0.5), 2),
        "mul -2" => boxed(Mul::new(-2.0), 2),
        "mul ~a" | "mul ~b" | "mul a" => boxed(Mul::new(0.0), 2),
        "add 0.5" => boxed(Add::new(0.5), 2),
        "add 1" => boxed(Add::new(1.0), 2),
        "add ~a" | "add ~b" | "add ~c" => boxed(Add::new(0.0), 2),
        "pan 0.25" => boxed(Pan::new(0.25), 2),
        "pan -1" => boxed(Pan::new(-1.0), 2),
        "pan ~a" => boxed(Pan::new(0.0), 2),
        "balance ~a ~b" | "balance ~b ~a" => boxed(Balance::new(), 2),
        "delayn 3" => boxed(DelayN::new(3), 2),
        "delayms 20" => boxed(DelayMs::new().sr(sr).delay(20.0, 2), 2),
        "delayms ~a" => boxed(DelayMs::new().sr(sr).delay(2000.0, 2), 2),
        "onepole 0.75" => boxed(OnePole::new(0.75), 1),
        "onepole ~a" => boxed(OnePole::new(0.0), 1),
        "lpf 10 0.5" => boxed(ResonantLowPassFilter::new().cutoff(10.0).q(0.5).sr(sr), 1),
        "lpf ~a 0.5" => boxed(ResonantLowPassFilter::new().q(0.5).sr(sr), 1),
        "lpf \"10@0.0 20@0.5\"(2) 0.5" => boxed(
            ResonantLowPassFilter::new().q(0.5).pattern(vec![(10.0, 0.0), (20.0, 0.5)]).span(2.0).bpm(e.bpm).sr(sr),
            1,
        ),
        "rhpf 10 0.5" | "hpf 10 0.5" => boxed(ResonantHighPassFilter::new().cutoff(10.0).q(0.5).sr(sr), 1),
        "rhpf ~a 0.5" => boxed(ResonantHighPassFilter::new().cutoff(100.0).q(0.5).sr(sr), 1),
        "apfmsgain ~a 0.5" => boxed(AllPassFilterGain::new().sr(sr).delay(0.0).gain(0.5), 2),
        "apfmsgain 30 0.5" | "apfgain 30 0.5" => boxed(AllPassFilterGain::new().sr(sr).delay(30.0).gain(0.5), 2),
        "envperc 0.02 0.05" => boxed(EnvPerc::new().sr(sr).attack(0.02).decay(0.05), 2),
        "adsr 0.02 0.03 0.5 0.04" => boxed(Adsr::new().sr(sr).attack(0.02).decay(0.03).sustain(0.5).release(0.04), 2),
        "speed 2.0" => boxed(Speed::from(2.0), 1),
        "seq 60" => boxed(seq(&[(0.0, UsizeOrRef::Usize(60))], e), 2),
        "seq 60 62" => boxed(seq(&[(0.0, UsizeOrRef::Usize(60)), (0.5, UsizeOrRef::Usize(62))], e), 2),
        "seq 60 _ 62__64 _67" => boxed(
            seq(
                &[
                    (0.0, UsizeOrRef::Usize(60)),
                    (0.5, UsizeOrRef::Usize(62)),
                    (0.6875, UsizeOrRef::Usize(64)),
                    (0.875, UsizeOrRef::Usize(67)),
                ],
                e,
            ),
            2,
        ),
        "seq ~a ~b 60 ~a" => boxed(
            seq(&[(0.0, UsizeOrRef::Ref("~a")), (0.25, UsizeOrRef::Ref("~b")), (0.5, UsizeOrRef::Usize(60)), (0.75, UsizeOrRef::Ref("~a"))], e),
            2,
        ),
        "choose 7" => boxed(Choose::new(vec![7.0], e.seed as u64), 2),
        "choose 3 5 0" => boxed(Choose::new(vec![3.0, 5.0, 0.0], e.seed as u64), 2),
        "mix ~a ~b" | "mix ~a" | "mix ~d.." => boxed(Sum2 {}, 2),
        "arrange ~a 1 ~b 0.5" => boxed(
            Arrange::new(vec![
                NumberOrRef::Ref("~a".to_string()),
                NumberOrRef::Number(1.0),
                NumberOrRef::Ref("~b".to_string()),
                NumberOrRef::Number(0.5),
            ])
            .sr(sr)
            .bpm(e.bpm),
            2,
        ),
        "[0=>0.5 1/4=>1.0]!" => boxed(Points::new().bpm(e.bpm).sr(sr).span(1.0).points(vec![(at(0.0), 0.5), (at(0.25), 1.0)]).is_looping(true), 1),
        "[0=>0.5, 0.5=>1.0] * 0.5 !" => boxed(Points::new().bpm(e.bpm).sr(sr).span(0.5).points(vec![(at(0.0), 0.5), (at(0.5), 1.0)]).is_looping(true), 1),
        "[0=>0.5 0.5=>1.0]/2" => boxed(Points::new().bpm(e.bpm).sr(sr).span(0.5).points(vec![(at(0.0), 0.5), (at(0.5), 1.0)]).is_looping(false), 1),
        "[1/4=>0.5 1/2 + 0.1_s=>1.0 1/2+200_ms=>0.25]" => {
            let late = |d| TimeList { bar: 0.5, time: Some(d) };
            let list = vec![(at(0.25), 0.5), (late(Duration::Seconds(0.1)), 1.0), (late(Duration::Milliseconds(200.0)), 0.25)];
            boxed(Points::new().bpm(e.bpm).sr(sr).span(1.0).points(list).is_looping(false), 1)
        }
        "[0=>1.0 1/2=>0.0]" => boxed(Points::new().bpm(e.bpm).sr(sr).span(1.0).points(vec![(at(0.0), 1.0), (at(0.5), 0.0)]).is_looping(false), 1),
        "eval `x:=in*0.5;x+sr`" => boxed(Eval::<N>::new().sr(sr).code("x:=in*0.5;x+sr"), 1),
        "meta `[input[1], input[0] * sr]`" | "script `[input[1], input[0] * sr]`" => Meta::<N>::new().sr(sr).code("[input[1], input[0] * sr]").to_boxed_nodedata(1),
        "plate 0.25" => boxed(Plate::new(0.25), 2),
        "bd 0.3" => boxed(Bd::<N>::new(0.3), 2),
        "sn 0.3" => boxed(Sn::<N>::new(0.3), 2),
        "hh 0.1" => boxed(Hh::<N>::new(0.1), 2),
        "sawsynth 0.01 0.1" => boxed(SawSynth::<N>::new(0.01, 0.1), 2),
        "squsynth 0.01 0.1" => boxed(SquSynth::<N>::new(0.01, 0.1), 2),
        "trisynth 0.01 0.1" => boxed(TriSynth::<N>::new(0.01, 0.1), 2),
        "psynth `0.0 60, 0.02 62` 2" => boxed(PatternSynth::new(vec![(0.0, 60.0), (0.02, 62.0)]).sr(sr).period_in_cycle(2.0).cycle_dur(60.0 / e.bpm * 4.0), 1),
        "msgsynth \\saw 0.02 0.05" => boxed(MsgSynth::new().sr(sr).attack(0.02).decay(0.05), 1),
        "sp \\clip" | "sampler \\clip" => boxed(Sampler::new((CLIP, 1, sr), sr), 2),
        "psampler \"\\clip@0.0 \\clip@0.02\"(1)" => {
            let mut d = HashMap::new();
            d.insert("\\clip".to_string(), (CLIP, 1, sr));
            boxed(PSampler::new(d, sr, e.bpm, vec![], vec![("\\clip".to_string(), 0.0), ("\\clip".to_string(), 0.02)], 1.0), 2)
        }
        _ => general(t, e),
    }
}
/// what follows in a node's text, by the manual
fn general<const N: usize>(t: &str, e: Env) -> GlicolNodeData<N> {
    let sr = e.sr;
    let w: Vec<&str> = t.split(' ').collect();
    let is_ref = |i: usize| w[i].starts_with(|c: char| c == '~' || c == '_' || c.is_ascii_lowercase());
    let n = |i: usize| -> f32 {
        match w[i].parse::<f32>() {
            Ok(v) => v,
            _ => 0.0,
        }
    };
    if t.starts_with('[') {
        return boxed(points(t, e), 1);
    }
    match w[0] {
        "sin" => boxed(SinOsc::new().sr(sr).freq(n(1)), 1),
        "saw" => boxed(SawOsc::new().sr(sr).freq(n(1)), 1),
        "squ" => boxed(SquOsc::new().sr(sr).freq(n(1)), 1),
        "tri" => boxed(TriOsc::new().sr(sr).freq(n(1)), 1),
        "imp" => boxed(Impulse::new().sr(sr).freq(n(1)), 1),
        "sig" | "constsig" => boxed(ConstSig::new(n(1)).sr(sr), 1),
        "noise" | "noiz" => boxed(Noise::new(n(1) as usize), 1),
        "mul" => boxed(Mul::new(n(1)), 2),
        "add" => boxed(Add::new(n(1)), 2),
        "pan" => boxed(Pan::new(n(1)), 2),
        "delayn" => boxed(DelayN::new(n(1) as usize), 2),
        "delayms" => boxed(DelayMs::new().sr(sr).delay(n(1), 2), 2),
        "onepole" => boxed(OnePole::new(n(1)), 1),
        "lpf" if is_ref(1) => boxed(ResonantLowPassFilter::new().q(n(2)).sr(sr), 1),
        "lpf" => boxed(ResonantLowPassFilter::new().cutoff(n(1)).q(n(2)).sr(sr), 1),
        "rhpf" | "hpf" if is_ref(1) => boxed(ResonantHighPassFilter::new().cutoff(100.0).q(n(2)).sr(sr), 1),
        "rhpf" | "hpf" => boxed(ResonantHighPassFilter::new().cutoff(n(1)).q(n(2)).sr(sr), 1),
        "apfmsgain" | "apfgain" => boxed(AllPassFilterGain::new().sr(sr).delay(n(1)).gain(n(2)), 2),
        "envperc" => boxed(EnvPerc::new().sr(sr).attack(n(1)).decay(n(2)), 2),
        "adsr" => boxed(Adsr::new().sr(sr).attack(n(1)).decay(n(2)).sustain(n(3)).release(n(4)), 2),
        "speed" => boxed(Speed::from(n(1)), 1),
        "choose" => boxed(Choose::new((1..w.len()).map(n).collect(), e.seed as u64), 2),
        "plate" => boxed(Plate::new(n(1)), 2),
        "bd" => boxed(Bd::<N>::new(n(1)), 2),
        "sn" => boxed(Sn::<N>::new(n(1)), 2),
        "hh" => boxed(Hh::<N>::new(n(1)), 2),
        "sawsynth" => boxed(SawSynth::<N>::new(n(1), n(2)), 2),
        "squsynth" => boxed(SquSynth::<N>::new(n(1), n(2)), 2),
        "trisynth" => boxed(TriSynth::<N>::new(n(1), n(2)), 2),
        "mix" => boxed(Sum2 {}, 2),
        "balance" => boxed(Balance::new(), 2),
        "arrange" => {
            let list = (1..w.len()).map(|i| if is_ref(i) { NumberOrRef::Ref(w[i].to_string()) } else { NumberOrRef::Number(n(i)) });
            boxed(Arrange::new(list.collect()).sr(sr).bpm(e.bpm), 2)
        }
        "seq" => {
            // parts share the bar, what is written together shares its part
            let parts = (w.len() - 1) as f32;
            let mut list = vec![];
            for (i, p) in w[1..].iter().enumerate() {
                let items = items(p);
                for (j, x) in items.iter().enumerate() {
                    let at = i as f32 / parts + j as f32 / items.len() as f32 / parts;
                    match x.parse::<usize>() {
                        Ok(m) => list.push((at, UsizeOrRef::Usize(m))),
                        _ if x.len() == 2 => list.push((at, UsizeOrRef::Ref(x.clone()))),
                        _ => {}
                    }
                }
            }
            let mut order = HashMap::new();
            for (_, v) in list.iter() {
                if let UsizeOrRef::Ref(s) = v {
                    let k = order.len();
                    order.entry(s.clone()).or_insert(k);
                }
            }
            boxed(Sequencer::new(list).sr(sr).bpm(e.bpm).ref_order(order), 2)
        }
        _ => {
            check(is_ref(0), "the harness knows the node");
            boxed(Pass {}, 2)
        }
    }
}
/// times in bars, each with what may be added to it, and the values there
fn points(t: &str, e: Env) -> Points {
    let (list, rest) = t[1..].split_once(']').unwrap_or((t, ""));
    let f = |s: &str| match s.trim().split_once('/') {
        Some((a, b)) => a.trim().parse::<f32>().unwrap_or(0.0) / b.trim().parse::<f32>().unwrap_or(1.0),
        None => s.trim().parse::<f32>().unwrap_or(0.0),
    };
    let mut v = vec![];
    for x in list.split(',') {
        let (at, y) = x.split_once("=>").unwrap_or((x, "0"));
        let (bar, more) = at.split_once('+').unwrap_or((at, ""));
        let time = match more.trim().split_once('_') {
            Some((d, "ms")) => Some(Duration::Milliseconds(f(d))),
            Some((d, _)) => Some(Duration::Seconds(f(d))),
            None => None,
        };
        v.push((TimeList { bar: f(bar), time }, f(y)));
    }
    let span = match rest.trim_end_matches('!').trim() {
        "" => 1.0,
        r if r.starts_with('/') => 1.0 / f(&r[1..]),
        r => f(&r[1..]),
    };
    Points::new().bpm(e.bpm).sr(e.sr).span(span).points(v).is_looping(rest.ends_with('!'))
}
/// notes, rests and references written together
fn items(p: &str) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    for c in p.chars() {
        match v.last_mut() {
            Some(x) if c.is_ascii_digit() && x.ends_with(|d: char| d.is_ascii_digit()) => x.push(c),
            Some(x) if x == "~" => x.push(c),
            _ => v.push(c.to_string()),
        }
    }
    v
}
pub type Prog = Vec<(&'static str, Vec<Nd>)>;
pub fn text(p: &Prog) -> String {
    let mut s = String::new();
    for (name, chain) in p {
        s.push_str(name);
        s.push_str(": ");
        for (i, n) in chain.iter().enumerate() {
            if i > 0 {
                s.push_str(" >> ");
            }
            s.push_str(n.text);
        }
        s.push('\n');
    }
    s
}
/// the same program with nodes kept by hand
pub struct Hand<const N: usize> {
    pub c: AudioContext<N>,
    pub input: NodeIndex,
    pub chains: Vec<(&'static str, Vec<(Nd, NodeIndex)>)>,
    pub env: Env,
}
impl<const N: usize> Hand<N> {
    pub fn new(env: Env) -> Self {
        let mut c = AudioContextBuilder::<N>::new().channels(2).build();
        let input = c.add_stereo_node(Pass {});
        Hand { c, input, chains: vec![], env }
    }
    fn end(&self, name: &str) -> NodeIndex {
        if name == "~input" {
            return self.input;
        }
        for (n, c) in self.chains.iter() {
            if *n == name {
                return c[c.len() - 1].1;
            }
        }
        self.input
    }
    /// an edge, and the receiving node is told
    pub fn wire(&mut self, from: NodeIndex, to: NodeIndex) {
        self.c.graph.add_edge(from, to, ());
        self.tell(to, Message::Index(from.index()));
    }
    pub fn tell(&mut self, x: NodeIndex, m: Message) {
        self.c.graph[x].node.send_msg(m);
    }
    pub fn tell_all(&mut self, m: Message) {
        for x in self.c.graph.node_indices().collect::<Vec<_>>() {
            self.tell(x, m.clone());
        }
    }
    /// nodes written the same and in the same order in a chain of the same name stay
    pub fn update(&mut self, p: &Prog) {
        let mut next = vec![];
        for (name, chain) in p {
            let mut from = 0;
            let old: Vec<(Nd, NodeIndex)> = self.chains.iter().find(|c| c.0 == *name).map_or(vec![], |c| c.1.clone());
            let mut list = vec![];
            for n in chain {
                let mut hit = None;
                for j in from..old.len() {
                    if old[j].0 == *n && hit.is_none() {
                        hit = Some(j);
                    }
                }
                match hit {
                    Some(j) => {
                        from = j + 1;
                        list.push(old[j]);
                    }
                    None => list.push((*n, self.c.graph.add_node(make(n.text, self.env)))),
                }
            }
            next.push((*name, list));
        }
        self.chains = next;
        self.c.graph.clear_edges();
        for (name, chain) in self.chains.clone() {
            for (i, (n, x)) in chain.iter().enumerate() {
                self.tell(*x, Message::ResetOrder);
                for r in n.refs {
                    let y = self.end(r);
                    self.wire(y, *x);
                }
                if i > 0 {
                    // what precedes comes first
                    self.c.graph.add_edge(chain[i - 1].1, *x, ());
                    self.tell(*x, Message::IndexOrder(0, chain[i - 1].1.index()));
                }
            }
            if !name.starts_with('~') {
                self.wire(chain[chain.len() - 1].1, self.c.destination);
            }
        }
    }
    pub fn block(&mut self, l: &[f32], r: &[f32]) {
        self.c.graph[self.input].buffers[0].copy_from_slice(l);
        self.c.graph[self.input].buffers[1].copy_from_slice(r);
        self.c.next_block();
    }
}
pub struct Both<const N: usize> {
    pub e: Engine<N>,
    pub h: Hand<N>,
    pub x: [[f32; N]; 2],
    /// length and position of the delay lines in the program
    pub ring: usize,
    pub pos: usize,
}
impl<const N: usize> Both<N> {
    pub fn new(env: Env) -> Self {
        let mut e = Engine::new();
        e.set_sr(env.sr);
        e.set_bpm(env.bpm);
        e.set_seed(env.seed);
        e.add_sample("\\clip", CLIP, 1, env.sr);
        Both { e, h: Hand::new(env), x: [[0.0; N]; 2], ring: 1, pos: 0 }
    }
    pub fn load(&mut self, p: &Prog) {
        if !is_symbolic() {
            log(text(p));
        }
        check(self.e.update_with_code(&text(p)).is_ok(), "the program is accepted");
        self.h.update(p);
    }
    pub fn step(&mut self) {
        if self.ring > 1 {
            cases(self.pos, self.ring);
            self.pos = (self.pos + N) % self.ring;
        }
        for ch in 0..2 {
            for i in 0..N {
                self.x[ch][i] = any_f32();
            }
        }
        self.h.block(&self.x[0], &self.x[1]);
        let out = self.e.next_block(vec![&self.x[0], &self.x[1]]);
        check(out.len() == 2, "two output channels");
        // more than two signals may be added up in any order
        let heard: Vec<NodeIndex> = self.h.chains.iter().filter(|c| !c.0.starts_with('~')).map(|c| c.1[c.1.len() - 1].1).collect();
        for ch in 0..2 {
            for i in 0..N {
                let mut scale = 0.0;
                if !is_symbolic() && heard.len() > 2 {
                    for x in heard.iter() {
                        let b = &self.h.c.graph[*x].buffers;
                        scale += b[ch.min(b.len() - 1)][i].abs();
                    }
                }
                check_f32_tol(out[ch][i], self.h.c.graph[self.h.c.destination].buffers[ch][i], scale, "the engine plays what the program says");
            }
        }
    }
    pub fn run(&mut self) {
        counters_do_not_wrap();
        if is_symbolic() {
            // let the work areas find their size
            self.step();
            self.step();
        }
        forall_steps("blocks", self, |_| true, |s| s.step());
    }
}
pub const ENV: Env = Env { sr: 100, bpm: 120.0, seed: 42 };
/// every kind of node with nothing before it: (delay line, text, references)
const GENS: &[Nd] = &[
    nd("sin 440"), nd("sin 7.5"), nd("saw 11.25"), nd("squ 10"), nd("tri 3"), nd("imp 25"), nd("constsig 0.25"), nd("sig -3"),
    nd("noise 7"), nd("noiz 7"), nd("seq 60 62"), nd("seq 60"), nd("seq 60 _ 62__64 _67"), nd("choose 3 5 0"), nd("choose 7"), nd("speed 2.0"),
    nd("[0=>1.0 1/2=>0.0]"), nd("[0=>0.5 1/4=>1.0]!"), nd("[0=>0.5, 0.5=>1.0] * 0.5 !"), nd("[0=>0.5 0.5=>1.0]/2"), nd("[1/4=>0.5 1/2 + 0.1_s=>1.0 1/2+200_ms=>0.25]"),
    rf("sin ~a", A), rf("saw ~a", A), rf("squ ~a", A), rf("tri ~a", A), rf("~a", A), rf("get ~b", B), rf("mix ~a", A), rf("mix ~a ~b", AB),
    rf("balance ~b ~a", &["~b", "~a"]), rf("arrange ~a 1 ~b 0.5", AB),
];
/// every kind of node with a signal before it
const PROCS: &[(usize, Nd)] = &[
    (1, nd("mul 0.5")), (1, nd("mul -2")), (1, nd("add 0.5")), (1, nd("add 1")), (1, nd("pan 0.25")), (1, nd("pan -1")), (3, nd("delayn 3")),
    (2, nd("delayms 20")), (1, nd("onepole 0.75")), (1, nd("lpf 10 0.5")), (1, nd("rhpf 10 0.5")), (1, nd("hpf 10 0.5")), (3, nd("apfmsgain 30 0.5")),
    (3, nd("apfgain 30 0.5")), (1, nd("envperc 0.02 0.05")), (1, nd("adsr 0.02 0.03 0.5 0.04")), (1, nd("lpf \"10@0.0 20@0.5\"(2) 0.5")),
    (1, rf("mul ~a", A)), (1, rf("add ~b", B)), (1, rf("pan ~a", A)), (1, rf("onepole ~a", A)), (1, rf("lpf ~a 0.5", A)), (1, rf("rhpf ~a 0.5", A)),
    (1, nd("bd 0.3")), (1, nd("sn 0.3")), (1, nd("hh 0.1")), (1, nd("sawsynth 0.01 0.1")),
    (1, nd("squsynth 0.01 0.1")), (1, nd("trisynth 0.01 0.1")),
];
/// nodes whose delay lines are too long for the rule over all blocks: four blocks from the start
const LONG: &[(Nd, Nd)] = &[
    (INPUT, nd("plate 0.25")), (INPUT, rf("delayms ~a", A)), (INPUT, rf("apfmsgain ~a 0.5", A)), (INPUT, nd("psampler \"\\clip@0.0 \\clip@0.02\"(1)")),
    (INPUT, nd("psynth `0.0 60, 0.02 62` 2")), (INPUT, nd("msgsynth \\saw 0.02 0.05")), (nd("imp 25"), nd("sp \\clip")), (nd("imp 25"), nd("sampler \\clip")),
    (INPUT, nd("eval `x:=in*0.5;x+sr`")), (INPUT, nd("meta `[input[1], input[0] * sr]`")), (INPUT, nd("script `[input[1], input[0] * sr]`")),
];
pub fn with_ab(c: Vec<Nd>) -> Prog {
    vec![("o", c), a_in(), b_in()]
}
fn gens(lo: usize, n: usize) {
    let k = lo + choose(n);
    let mut s = Both::<2>::new(ENV);
    s.load(&with_ab(vec![GENS[k]]));
    s.run();
    cover("end");
}
pub fn node_gen() {
    gens(0, 10)
}
pub fn node_seq() {
    gens(10, 6)
}
pub fn node_points() {
    gens(16, 5)
}
pub fn node_ref() {
    gens(21, GENS.len() - 21)
}
fn procs(lo: usize, n: usize) {
    let k = lo + choose(n);
    let mut s = Both::<2>::new(ENV);
    s.ring = PROCS[k].0;
    s.load(&with_ab(vec![INPUT, PROCS[k].1]));
    s.run();
    cover("end");
}
pub fn node_proc() {
    procs(0, 23)
}
pub fn node_voice() {
    procs(23, PROCS.len() - 23)
}
pub fn node_long() {
    let k = choose(LONG.len());
    let mut s = Both::<2>::new(ENV);
    s.load(&vec![("o", vec![LONG[k].0, LONG[k].1]), ("~a", vec![nd("sig 2")])]);
    for _ in 0..5 {
        s.step();
    }
    cover("end");
}
const A: &[&str] = &["~a"];
const B: &[&str] = &["~b"];
const AB: &[&str] = &["~a", "~b"];
fn a_in() -> (&'static str, Vec<Nd>) {
    ("~a", vec![INPUT, nd("add 1")])
}
fn b_in() -> (&'static str, Vec<Nd>) {
    ("~b", vec![INPUT, nd("mul -2")])
}
/// (length of the delay lines, program)
pub fn routing(k: usize) -> (usize, Prog) {
    match k {
        0 => (1, vec![("o", vec![INPUT, nd("mul 0.5"), nd("add 1"), nd("pan 0.25")])]),
        1 => (1, vec![("o", vec![INPUT, nd("mul 0.5")]), ("p", vec![INPUT, nd("add 0.5")]), ("~q", vec![INPUT, nd("mul -2")])]),
        2 => (1, vec![("o", vec![INPUT, rf("mul ~a", A)]), a_in()]),
        3 => (1, vec![a_in(), ("o", vec![INPUT, rf("mul ~a", A), rf("add ~a", A)])]),
        4 => (1, vec![("o", vec![rf("mix ~a ~b", AB), nd("mul 0.5")]), a_in(), b_in()]),
        5 => (1, vec![("o", vec![rf("sin ~a", A)]), a_in()]),
        6 => (1, vec![("o", vec![rf("balance ~a ~b", AB)]), a_in(), b_in()]),
        7 => (1, vec![("o", vec![rf("~a", A), rf("mul ~b", &["~b"])]), a_in(), b_in()]),
        8 => (1, vec![("o", vec![rf("mix ~d..", &["~da", "~db"])]), ("~da", vec![INPUT, nd("mul 0.5")]), ("~db", vec![INPUT, nd("add 1")]), a_in()]),
        9 => (3, vec![("o", vec![rf("~a", A), nd("delayn 3")]), a_in(), ("p", vec![rf("~a", A), nd("pan -1")])]),
        10 => (1, vec![("o", vec![INPUT, rf("mul ~b", &["~b"])]), ("~b", vec![INPUT, rf("add ~a", A)]), a_in()]),
        11 => (1, vec![("a", vec![INPUT, nd("add 1")]), ("o", vec![INPUT, rf("mul a", &["a"])])]),
        12 => (1, vec![("o", vec![INPUT, nd("mul 0.5"), nd("mul 0.5"), nd("onepole 0.75"), nd("mul 0.5")])]),
        13 => (1, vec![("o", vec![rf("seq ~a ~b 60 ~a", AB)]), ("~b", vec![nd("sig 67")]), ("~a", vec![nd("sig 64")])]),
        14 => (1, vec![("o", vec![rf("arrange ~a 1 ~b 0.5", AB)]), a_in(), b_in()]),
        15 => (1, vec![("o", vec![rf("squ ~a", A), nd("mul 0.5")]), ("p", vec![rf("saw ~a", A)]), a_in()]),
        16 => (1, vec![("o", vec![rf("tri ~a", A)]), ("p", vec![INPUT, rf("onepole ~a", A)]), ("q", vec![INPUT, rf("pan ~a", A)]), a_in()]),
        17 => (1, vec![("o", vec![INPUT, rf("lpf ~a 0.5", A)]), ("p", vec![INPUT, rf("rhpf ~a 0.5", A)]), a_in()]),
        18 => (1, vec![("~a", vec![nd("sig 64")]), ("~b", vec![nd("sig 67")]), ("o", vec![nd("speed 2.0"), rf("seq ~a ~b 60 ~a", AB)])]),
        19 => (1, vec![("~a", vec![nd("speed 2.0")]), ("o", vec![nd("speed 2.0"), nd("seq 60 _ 62__64 _67")])]),
        20 => (1, vec![("o", vec![rf("arrange ~a 1 ~b 0.5 ~a 0.25", &["~a", "~b", "~a"])]), a_in(), b_in()]),
        21 => (1, vec![("o", vec![rf("balance ~a ~a", &["~a", "~a"])]), ("p", vec![rf("balance ~b ~a", &["~b", "~a"])]), a_in(), b_in()]),
        22 => (1, vec![a_in(), ("o", vec![rf("mix ~a ~a", &["~a", "~a"]), rf("mul ~a", A)])]),
        23 => (1, vec![("o", vec![rf("~a", A), rf("mul ~a", A), rf("add ~a", A), rf("add ~b", B)]), b_in(), ("~a", vec![rf("~b", B), nd("add 1")])]),
        24 => (1, vec![("lead_2", vec![INPUT, nd("mul 0.5")]), ("_e", vec![INPUT, nd("add 1")]), ("x", vec![rf("~hid_3x", &["~hid_3x"])]), ("~hid_3x", vec![INPUT, nd("mul -2")])]),
        25 => (1, vec![("p", vec![rf("o", &["o"]), nd("mul 0.5")]), ("o", vec![INPUT, nd("add 1")])]),
        26 => (1, vec![("o", vec![rf("mix ~d.. ~b", &["~d", "~b"])]), ("~d", vec![INPUT, nd("add 1")]), b_in()]),
        27 => (1, vec![("~c", vec![rf("~b", B), nd("mul 0.5")]), b_in(), ("o", vec![rf("get ~c", &["~c"]), rf("mul ~a", A)]), ("~a", vec![rf("~c", &["~c"]), nd("add 1")])]),
        28 => (1, vec![("o", vec![rf("mul ~a", A)]), ("p", vec![rf("add ~b", B), nd("pan 0.25")]), a_in(), b_in()]),
        29 => (1, vec![("~unheard", vec![nd("saw 11.25")]), ("o", vec![rf("seq ~b ~a", &["~b", "~a"])]), ("~a", vec![nd("sig 64")]), ("~b", vec![nd("sig 67")])]),
        _ => (1, vec![]),
    }
}
pub fn prog_small() {
    let mut s = Both::<2>::new(ENV);
    let (ring, p) = routing(choose(10));
    s.ring = ring;
    s.load(&p);
    s.run();
    cover("end");
}
pub fn prog_large() {
    let mut s = Both::<2>::new(ENV);
    let (ring, p) = routing(10 + choose(10));
    s.ring = ring;
    s.load(&p);
    s.run();
    cover("end");
}
/// a program and what it becomes
pub fn edits(k: usize) -> (Prog, Prog) {
    let o = |c: Vec<Nd>| vec![("o", c)];
    match k {
        // a parameter of the last, middle, first node
        0 => (o(vec![INPUT, nd("onepole 0.75"), nd("mul 0.5")]), o(vec![INPUT, nd("onepole 0.75"), nd("mul -2")])),
        1 => (o(vec![nd("saw 11.25"), nd("onepole 0.75"), nd("mul 0.5")]), o(vec![nd("saw 11.25"), nd("add 1"), nd("mul 0.5")])),
        2 => (o(vec![nd("saw 11.25"), nd("onepole 0.75")]), o(vec![nd("squ 10"), nd("onepole 0.75")])),
        // a node more or less at either end and in between
        3 => (o(vec![nd("saw 11.25"), nd("onepole 0.75")]), o(vec![nd("saw 11.25"), nd("mul 0.5"), nd("onepole 0.75")])),
        4 => (o(vec![nd("saw 11.25"), nd("mul 0.5"), nd("onepole 0.75")]), o(vec![nd("saw 11.25"), nd("onepole 0.75")])),
        5 => (o(vec![INPUT, nd("onepole 0.75")]), o(vec![INPUT, nd("onepole 0.75"), nd("rhpf 10 0.5"), nd("mul 0.5")])),
        6 => (o(vec![INPUT, nd("onepole 0.75"), nd("rhpf 10 0.5"), nd("mul 0.5")]), o(vec![INPUT, nd("onepole 0.75")])),
        7 => (o(vec![INPUT, nd("mul 0.5"), nd("onepole 0.75")]), o(vec![nd("onepole 0.75")])),
        // chains that come, go, and stay
        8 => (o(vec![nd("saw 11.25")]), vec![("o", vec![nd("saw 11.25")]), ("p", vec![INPUT, nd("onepole 0.75")])]),
        9 => (vec![("o", vec![nd("saw 11.25")]), ("p", vec![INPUT, nd("onepole 0.75")])], vec![("p", vec![INPUT, nd("onepole 0.75")])]),
        10 => (vec![("o", vec![nd("saw 11.25")]), ("p", vec![nd("squ 10")])], vec![("p", vec![nd("squ 10")]), ("q", vec![nd("saw 11.25")])]),
        // references that move
        11 => (vec![("o", vec![INPUT, rf("mul ~a", A)]), a_in()], vec![("o", vec![INPUT, rf("mul ~a", A)]), ("~a", vec![nd("saw 11.25")])]),
        12 => (
            vec![("o", vec![nd("saw 11.25"), rf("mul ~a", A)]), a_in(), b_in()],
            vec![("o", vec![nd("saw 11.25"), rf("mul ~b", &["~b"])]), a_in(), b_in()],
        ),
        13 => (vec![("o", vec![rf("sin ~a", A)]), a_in()], vec![("o", vec![rf("sin ~a", A), nd("mul 0.5")]), ("~a", vec![INPUT, nd("add 1"), nd("onepole 0.75")])]),
        14 => (vec![("o", vec![nd("saw 11.25"), nd("mul 0.5")])], vec![("o", vec![nd("saw 11.25"), nd("mul 0.5")])]),
        15 => (vec![("~a", vec![nd("saw 11.25")]), ("o", vec![rf("~a", A)])], vec![("o", vec![nd("saw 11.25")])]),
        16 => (vec![("o", vec![rf("mix ~a ~b", AB)]), ("~a", vec![nd("saw 11.25")]), b_in()], vec![("o", vec![rf("~a", A)]), ("~a", vec![nd("saw 11.25")])]),
        17 => (o(vec![nd("noise 7"), nd("mul 0.5")]), o(vec![nd("noise 7"), nd("mul -2")])),
        18 => (o(vec![INPUT, nd("envperc 0.02 0.05"), nd("mul 0.5")]), o(vec![INPUT, nd("envperc 0.02 0.05")])),
        // several places at once
        19 => (
            vec![("o", vec![INPUT, nd("onepole 0.75"), nd("mul 0.5")]), ("p", vec![nd("saw 11.25"), nd("mul -2")]), a_in()],
            vec![("~a", vec![nd("saw 11.25"), nd("add 1")]), ("o", vec![INPUT, nd("mul 0.5"), nd("rhpf 10 0.5"), rf("add ~a", A)]), ("q", vec![nd("noise 7")])],
        ),
        20 => (
            vec![("o", vec![nd("saw 11.25"), nd("onepole 0.75")]), ("p", vec![INPUT, nd("rhpf 10 0.5")])],
            vec![("p", vec![INPUT, nd("rhpf 10 0.5")]), ("o", vec![nd("saw 11.25"), nd("onepole 0.75")])],
        ),
        21 => (
            o(vec![INPUT, nd("onepole 0.75"), nd("rhpf 10 0.5"), nd("mul 0.5")]),
            o(vec![nd("onepole 0.75"), nd("rhpf 10 0.5"), nd("mul 0.5"), nd("add 1")]),
        ),
        22 => (o(vec![nd("saw 11.25")]), o(vec![nd("squ 10")])),
        23 => (
            vec![("o", vec![rf("arrange ~a 1 ~b 0.5", AB)]), a_in(), b_in()],
            vec![b_in(), ("o", vec![rf("arrange ~a 1 ~b 0.5", AB)]), ("~a", vec![INPUT, nd("add 1"), nd("onepole 0.75")])],
        ),
        24 => (
            vec![("o", vec![rf("seq ~a ~b 60 ~a", AB)]), ("~b", vec![nd("sig 67")]), ("~a", vec![nd("sig 64")])],
            vec![("o", vec![rf("seq ~a ~b 60 ~a", AB), nd("mul 0.5")]), ("~b", vec![nd("sig 64")]), ("~a", vec![nd("sig 64"), nd("add 1")])],
        ),
        25 => (vec![("o", vec![rf("~a", A)]), ("~a", vec![nd("saw 11.25")])], vec![("o", vec![rf("a", &["a"])]), ("a", vec![nd("saw 11.25")])]),
        26 => (vec![("o", vec![nd("saw 11.25"), rf("mul ~a", A)]), a_in()], vec![]),
        _ => (vec![], vec![]),
    }
}
fn edit(lo: usize, n: usize) {
    let (p, q) = edits(lo + choose(n));
    let mut s = Both::<2>::new(ENV);
    s.load(&p);
    s.run();
    s.load(&q);
    s.run();
    s.load(&p);
    s.run();
    cover("end");
}
pub fn edit_nodes() {
    edit(0, 8)
}
pub fn edit_chains() {
    edit(8, 11)
}

/// texts that are no programs, or that ask for what is not there
const BAD: &[&str] = &[
    "o: ~input >> mul 0.5 >>",
    "o: sin",
    "o: foo 1",
    "o ~input",
    "o: ~input >> mul ~zz",
    "~a: saw 11.25\no: ~a >> mul ~zz",
    "p: sin 440\nq: mix ~p ~zz\n",
    "o: ~input >> mul ~a\n~b: sin 440",
    "o: sp \\nothere",
    "p: saw 11.25\no: ~input >> sp \\nothere",
    "o: ~input >> mul 0.5 0.5",
    ": sin 440",
    "o: ~input >> >> mul 0.5",
    "o: saw 11.25\no2: @",
];
/// a program and a faulty change of it
pub fn faulty(k: usize) -> (Prog, &'static str) {
    let p = || vec![("o", vec![INPUT, rf("mul ~a", A), nd("onepole 0.75")]), ("~a", vec![nd("saw 11.25"), nd("add 1")]), ("p", vec![nd("saw 11.25"), nd("mul 0.5")])];
    let t = match k {
        // what is referred to goes
        0 => "o: ~input >> mul ~a >> onepole 0.75\np: saw 11.25 >> mul 0.5",
        1 => "o: ~input >> mul ~a >> onepole 0.75",
        2 => "o: ~input >> mul ~a",
        3 => "o: ~input >> mul ~a >> onepole 0.75 >> add 1",
        // chains and nodes come and go, and something is missing
        4 => "p: saw 11.25 >> mul ~zz",
        5 => "~a: saw 11.25\no: mix ~a ~zz..\np: mul 0.5",
        6 => "o: ~input >> mul ~a\n~a: saw 11.25 >> add 1 >> mul 0.5\np: saw 11.25 >> sp \\none",
        7 => "o: ~input >> rhpf 10 0.5 >> mul ~a >> onepole 0.75\n~a: saw 11.25 >> add 1\np: psampler \"\\clip@0.0 \\none@0.5\"(1)",
        8 => "~b: ~a\np: saw 11.25 >> mul 0.5",
        9 => "o: ~input >> mul ~a >> onepole 0.75\n~a: saw 11.25 >> add 1\np: saw 11.25 >> mul 0.5 >> add ~o",
        _ => "o: ~input >> mul ~a >>\n~a: saw 11.25",
    };
    (p(), t)
}
fn fail(lo: usize, n: usize) {
    let p = match choose(3) {
        0 => vec![("o", vec![nd("saw 11.25"), nd("onepole 0.75"), nd("mul 0.5")])],
        1 => vec![("o", vec![INPUT, rf("mul ~a", A), nd("onepole 0.75")]), a_in(), b_in()],
        _ => vec![("o", vec![rf("~a", A), nd("onepole 0.75")]), a_in(), ("p", vec![nd("saw 11.25")])],
    };
    let bad = BAD[lo + choose(n)];
    let mut s = Both::<2>::new(ENV);
    s.load(&p);
    s.run();
    check(s.e.update_with_code(bad).is_err(), "a text that cannot be played is refused");
    s.run();
    s.load(&vec![("o", vec![nd("saw 11.25"), nd("add 1")]), ("p", vec![nd("saw 11.25")]), a_in()]);
    s.run();
    cover("end");
}
pub fn fail_syntax() {
    fail(0, 4)
}
pub fn fail_reference() {
    fail(4, 4)
}
pub fn fail_other() {
    fail(8, 6)
}
/// texts that can be read but not played
fn unplayable(t: &str) {
    let mut s = Both::<2>::new(ENV);
    s.load(&vec![("o", vec![INPUT, nd("mul 0.5")])]);
    check(s.e.update_with_code(t).is_err(), "what cannot be played is refused");
    s.step();
    cover("end");
}
pub fn fail_notes() {
    unplayable("o: psynth `60 a` 1")
}
pub fn fail_short_notes() {
    unplayable("o: psynth `60` 1")
}
pub fn fail_event_cutoff() {
    unplayable("o: saw 10 >> lpf \"10@0.5\" 0.5")
}
pub fn fail_event_sampler() {
    unplayable("o: psampler \"\\clip@0.5\"")
}
pub fn fail_reverb() {
    unplayable("o: saw 10 >> reverb 0.1 0.1 0.1 0.1 0.1")
}
pub fn fail_expr() {
    unplayable("o: expr `x`")
}
pub fn fail_adc() {
    unplayable("o: adc 1")
}
/// messages to a running program: text, chain, position, what the node gets
fn message(k: usize) -> (&'static str, Vec<(usize, usize, Message)>) {
    let set = |p: u8, v: f32| Message::SetToNumber(p, v);
    match k {
        0 => ("o,1,0,0.75", vec![(0, 1, set(0, 0.75))]),
        1 => ("o, 2, 0, -1.5", vec![(0, 2, set(0, -1.5))]),
        2 => ("p,0,0,13.5", vec![(1, 0, set(0, 13.5))]),
        3 => ("p,1,0,20;o,1,0,0.25", vec![(1, 1, set(0, 20.0)), (0, 1, set(0, 0.25))]),
        4 => ("p,1,1,2.5;", vec![(1, 1, set(1, 2.5))]),
        5 => ("o,7,0,0.75", vec![]),
        6 => ("zz,0,0,0.75", vec![]),
        7 => ("", vec![]),
        8 => ("o,1,0", vec![]),
        9 => ("p,0,0,13.5;zz,1,0,3;o,9,0,1;p,1,0,20", vec![(1, 0, set(0, 13.5)), (1, 1, set(0, 20.0))]),
        10 => ("~c,1,0,3", vec![(2, 1, set(0, 3.0))]),
        _ => ("p,0,7,13.5", vec![(1, 0, set(7, 13.5))]),
    }
}
pub fn messages() {
    let mut s = Both::<2>::new(ENV);
    s.load(&vec![
        ("o", vec![INPUT, nd("mul 0.5"), nd("onepole 0.75"), rf("add ~c", &["~c"])]),
        ("p", vec![nd("saw 11.25"), nd("rhpf 10 0.5")]),
        ("~c", vec![INPUT, nd("mul -2")]),
    ]);
    s.run();
    let (m, to) = message(choose(12));
    s.e.send_msg(m);
    for (c, i, m) in to {
        let x = s.h.chains[c].1[i].1;
        s.h.tell(x, m);
    }
    s.run();
    cover("end");
}
/// tempo, sample rate and seed
pub fn settings() {
    let env = [Env { sr: 50, bpm: 60.0, seed: 1 }, Env { sr: 100, bpm: 240.0, seed: 1 }, Env { sr: 300, bpm: 150.0, seed: 7 }][choose(3)];
    let n = ["seq 60 62", "choose 3 5 0", "saw 11.25", "[0=>1.0 1/2=>0.0]", "imp 25"][choose(5)];
    let mut s = Both::<1>::new(env);
    s.load(&vec![("o", vec![nd(n)])]);
    s.run();
    cover("end");
}
/// a change of tempo reaches what plays, a new rate and seed only what comes later
pub fn settings_live() {
    let p = vec![("o", vec![nd("seq 60 62")]), ("p", vec![nd("saw 11.25")]), ("q", vec![nd("choose 3 5 0")])];
    let mut s = Both::<1>::new(ENV);
    s.load(&p);
    s.step();
    match choose(4) {
        0 => {
            s.e.set_bpm(240.0);
            s.h.env.bpm = 240.0;
            s.h.tell_all(Message::SetBPM(240.0));
        }
        1 => {
            s.e.set_sr(300);
            s.h.env.sr = 300;
        }
        2 => {
            s.e.set_seed(7);
            s.h.env.seed = 7;
        }
        _ => {}
    }
    s.step();
    s.step();
    if choose(2) == 1 {
        s.load(&vec![("o", vec![nd("seq 60 62")]), ("p", vec![nd("squ 10")]), ("q", vec![nd("choose 3 5 0")]), ("r", vec![nd("choose 3 5 0")])]);
    }
    s.run();
    cover("end");
}
/// after a reset the engine is as new, but for its rate
pub fn fresh() {
    let mut s = Both::<2>::new(Env { sr: 100, bpm: 90.0, seed: 7 });
    s.load(&edits([0, 2, 9, 12, 13, 16][choose(6)]).0);
    s.run();
    s.e.reset();
    s.h = Hand::new(ENV);
    match choose(4) {
        0 => s.load(&vec![("o", vec![nd("saw 11.25"), nd("mul 0.5")]), ("~a", vec![nd("saw 11.25")])]),
        1 => s.load(&vec![("o", vec![INPUT, nd("onepole 0.75")]), ("p", vec![nd("choose 3 5 0")])]),
        2 => s.load(&vec![("o", vec![nd("seq 60 62")])]),
        _ => {}
    }
    if choose(2) == 1 {
        check(s.e.update_with_code("o: imp 25 >> sp \\clip").is_err(), "recordings are forgotten");
    }
    s.run();
    cover("end");
}
/// the same program written in other ways
fn layout(k: usize) -> (&'static str, Prog) {
    let p = || vec![("o", vec![INPUT, nd("mul 0.5"), rf("add ~a", A)]), a_in()];
    match k {
        0 => ("o: ~input >> mul 0.5 >> add ~a\n~a: ~input >> add 1", p()),
        1 => ("\n\n   o:~input>>mul 0.5>>add ~a;\n\n\n~a   :   ~input >>  add   1  ;  \n\n", p()),
        2 => ("o: ~input\n>> mul 0.5\n  >> add ~a\n\n~a: ~input\n >> add 1\n", p()),
        3 => ("// first\no: ~input >> mul 0.5 // half\n>> add ~a // more\n// between\n~a: ~input >> add 1 // last", p()),
        4 => ("o:\t~input\t>>\tmul\t0.5\t>>\tadd\t~a\t\n\t~a:\t~input >> add 1", p()),
        5 => ("o: ~input >> mul, 0.5 >> add | ~a; ~a: ~input >> add 1", p()),
        6 => ("~a: ~input >> add 1\no: ~input >> mul 0.5 >> add ~a", vec![a_in(), ("o", vec![INPUT, nd("mul 0.5"), rf("add ~a", A)])]),
        7 => ("o: get ~input >> mul 0.5 >> add ~a\n~a: get ~input >> add 1", p()),
        8 => ("// only\n\n// words\n", vec![]),
        9 => ("o: ~input >> mul 0.5 >> add ~a // x >> mul 3\n~a: ~input >> add 1\n//~a: ~input >> mul 9\n", p()),
        10 => ("o: [0.0=>0.5|1/2 => 2.0,,]\n * |0.5 >> mul ,2.0", vec![("o", vec![nd("[0.0=>0.5,1/2=>2.0]*0.5"), nd("mul 2.0")])]),
        _ => ("", vec![]),
    }
}
pub fn spell_layout() {
    let (t, p) = layout(choose(12));
    let mut s = Both::<2>::new(ENV);
    check(s.e.update_with_code(t).is_ok(), "the program is accepted");
    s.h.update(&p);
    s.run();
    cover("end");
}
const NUMBERS: &[(&str, f32)] = &[
    ("440", 440.0), ("440.0", 440.0), ("440.", 440.0), ("+440", 440.0), ("-3", -3.0), ("-0.5", -0.5), ("0.75e1", 7.5), ("7.5e-1", 0.75), ("1.5E2", 150.0),
    ("007", 7.0), ("0.1", 0.1), ("3.14159", 3.14159), ("100000.0", 100000.0), ("0.000001", 0.000001), ("16777217", 16777216.0), ("0", 0.0), ("-0.0", -0.0),
    ("12.5e+1", 125.0), ("9.", 9.0), ("1e", 0.0), ("1e3", 0.0), (".5", 0.0), ("--1", 0.0), ("1.2.3", 0.0), ("0x10", 0.0),
];
/// numbers mean what they say
pub fn spell_numbers() {
    let k = choose(NUMBERS.len());
    let (t, v) = NUMBERS[k];
    let how = choose(4);
    let text = match how {
        0 => format!("o: ~input >> mul {}", t),
        1 => format!("o: ~input >> add {} >> mul 0.5", t),
        2 => format!("o: constsig {}", t),
        _ => format!("o: ~input >> rhpf 10 {}", t),
    };
    let mut s = Both::<2>::new(ENV);
    let ok = s.e.update_with_code(&text).is_ok();
    check(ok == (k < 19), "just the numbers are accepted");
    if ok {
        let x = s.h.c.graph.add_node(match how {
            0 => boxed(Mul::new(v), 2),
            1 => boxed(Add::new(v), 2),
            2 => boxed(ConstSig::new(v).sr(100), 1),
            _ => boxed(ResonantHighPassFilter::new().cutoff(10.0).q(v).sr(100), 1),
        });
        s.h.wire(s.h.input, x);
        let y = s.h.c.graph.add_node(boxed(Mul::new(0.5), 2));
        if how == 1 {
            s.h.wire(x, y);
        }
        s.h.wire(if how == 1 { y } else { x }, s.h.c.destination);
    }
    s.run();
    cover("end");
}
/// the same program in blocks of two and of four
pub struct Sizes {
    pub a: Engine<2>,
    pub b: Engine<4>,
    x: [[f32; 4]; 2],
    ring: usize,
    pos: usize,
}
impl Sizes {
    fn step(&mut self) {
        if self.ring > 1 {
            cases(self.pos, self.ring);
            self.pos = (self.pos + 4) % self.ring;
        }
        for ch in 0..2 {
            for i in 0..4 {
                self.x[ch][i] = any_f32();
            }
        }
        let mut y = [[0.0; 4]; 2];
        for h in 0..2 {
            let out = self.a.next_block(vec![&self.x[0][2 * h..2 * h + 2], &self.x[1][2 * h..2 * h + 2]]);
            for ch in 0..2 {
                for i in 0..2 {
                    y[ch][2 * h + i] = out[ch][i];
                }
            }
        }
        let out = self.b.next_block(vec![&self.x[0], &self.x[1]]);
        for ch in 0..2 {
            for i in 0..4 {
                check_f32(out[ch][i], y[ch][i], "the size of the blocks does not matter");
            }
        }
    }
}
impl Sizes {
    pub fn new(ring: usize, e: Env) -> Self {
        let mut s = Sizes { a: Engine::new(), b: Engine::new(), x: [[0.0; 4]; 2], ring, pos: 0 };
        s.a.set_sr(e.sr);
        s.b.set_sr(e.sr);
        s.a.set_bpm(e.bpm);
        s.b.set_bpm(e.bpm);
        s.a.add_sample("\\clip", CLIP, 1, 100);
        s.b.add_sample("\\clip", CLIP, 1, 100);
        s
    }
    pub fn load(&mut self, p: &Prog) {
        let t = text(p);
        if !is_symbolic() {
            log(t.clone());
        }
        check(self.a.update_with_code(&t).is_ok() && self.b.update_with_code(&t).is_ok(), "the program is accepted");
    }
    pub fn run(&mut self) {
        counters_do_not_wrap();
        if is_symbolic() {
            self.step();
            self.step();
        }
        forall_steps("blocks", self, |_| true, |s| s.step());
    }
}
fn sized(ring: usize, p: &Prog) {
    let mut s = Sizes::new(ring, ENV);
    s.load(p);
    s.run();
    cover("end");
}
pub fn size_gen() {
    let k = [0, 2, 3, 4, 5, 6, 8, 10, 12, 16][choose(10)];
    sized(1, &with_ab(vec![GENS[k]]))
}
pub fn size_gen_more() {
    let k = [17, 18, 20, 21, 22, 23, 24, 25, 28, 29][choose(10)];
    sized(1, &with_ab(vec![GENS[k]]))
}
pub fn size_proc() {
    let k = [0, 2, 4, 6, 7, 8, 9, 10, 12, 14, 15, 17, 18, 19, 20, 23, 24, 25, 26, 27, 28][choose(21)];
    sized(PROCS[k].0, &with_ab(vec![INPUT, PROCS[k].1]))
}
pub fn size_prog() {
    let (ring, p) = routing([0, 1, 3, 4, 7, 8, 9, 10, 12][choose(9)]);
    sized(ring, &p)
}
fn clip(len: usize) -> &'static [f32] {
    let mut v = Vec::with_capacity(len);
    for _ in 0..len {
        v.push(any_f32_hint(-1.0, 1.0));
    }
    Box::leak(v.into_boxed_slice())
}
/// recordings under their names
pub fn recordings() {
    let mut s = Both::<2>::new(ENV);
    let (ch, rate) = [(1, 100), (2, 100), (1, 50)][choose(3)];
    let (one, two) = (clip(4), clip(6));
    s.e.add_sample("\\one", one, ch, rate);
    s.e.add_sample("\\two", two, 1, 100);
    let again = choose(2) == 1;
    if again {
        // the last one loaded under a name counts
        s.e.add_sample("\\two", one, ch, rate);
    }
    let two = if again { (one, ch, rate) } else { (two, 1, 100) };
    let one = (one, ch, rate);
    let kind = choose(4);
    let t = match kind {
        0 => "o: imp 25 >> sp \\one",
        1 => "o: imp 25 >> sampler \\two",
        2 => "o: psampler \"\\one@0.0 \\two@0.01\"(0.05)",
        _ => "o: imp 25 >> sp 'one'",
    };
    check(s.e.update_with_code(t).is_ok() == (kind < 3), "the recordings named are there");
    let mut dict = HashMap::new();
    dict.insert("\\one".to_string(), one);
    dict.insert("\\two".to_string(), two);
    let x = match kind {
        0 => Some(s.h.c.graph.add_node(boxed(Sampler::new(one, 100), 2))),
        1 => Some(s.h.c.graph.add_node(boxed(Sampler::new(two, 100), 2))),
        2 => Some(s.h.c.graph.add_node(boxed(
            PSampler::new(dict, 100, 120.0, vec![], vec![("\\one".to_string(), 0.0), ("\\two".to_string(), 0.01)], 0.05),
            2,
        ))),
        _ => None,
    };
    if let Some(x) = x {
        if kind < 2 {
            let i = s.h.c.graph.add_node(boxed(Impulse::new().sr(100).freq(25.0), 1));
            s.h.wire(i, x);
        }
        let d = s.h.c.destination;
        s.h.wire(x, d);
    }
    let late = choose(2) == 1;
    for b in 0..8 {
        if late && b == 3 {
            // what plays goes on with what it has
            s.e.add_sample("\\one", CLIP, 1, 100);
            s.e.add_sample("\\two", CLIP, 1, 100);
        }
        s.step();
    }
    if late && kind == 0 {
        // what comes later takes the new one
        check(s.e.update_with_code("p: imp 25 >> sp \\one").is_ok(), "the recordings named are there");
        s.h = Hand::new(ENV);
        s.h.update(&vec![("p", vec![nd("imp 25"), nd("sp \\clip")])]);
        for _ in 0..4 {
            s.step();
        }
    }
    cover("end");
}
