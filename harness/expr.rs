//! Expression and script nodes.
use crate::util::*;
use glicol_synth::dynamic::{Eval, Meta};
use glicol_synth::{BoxedNodeSend, Buffer, Input, Message, Node};
use glv::*;
use hashbrown::HashMap;

/// text, and what it stands for: (input, sample number, sample rate, variables x, y, z) -> value
type F = fn(f64, f64, f64, &mut [f64; 3]) -> Option<f64>;
struct Boxed(BoxedNodeSend<2>);
impl Node<2> for Boxed {
    fn process(&mut self, i: &mut HashMap<usize, Input<2>>, o: &mut [Buffer<2>]) {
        self.0.process(i, o)
    }
    fn send_msg(&mut self, m: Message) {
        self.0.send_msg(m)
    }
}
const TEXTS: &[(&str, F)] = &[
    ("in * 0.5", |i, _, _, _| Some(i * 0.5)),
    ("phase", |_, p, _, _| Some(p)),
    ("x:=x+1;x", |_, _, _, v| {
        v[0] = v[0] + 1.0;
        Some(v[0])
    }),
    ("x:=in;y:=x*2;x+y", |i, _, _, v| {
        v[0] = i;
        v[1] = v[0] * 2.0;
        Some(v[0] + v[1])
    }),
    ("sr", |_, _, s, _| Some(s)),
    ("z:=z*0.5+in; z - 1", |i, _, _, v| {
        v[2] = v[2] * 0.5 + i;
        Some(v[2] - 1.0)
    }),
    ("(in > 0) * 3", |i, _, _, _| Some(if i > 0.0 { 3.0 } else { 0.0 })),
    // cannot be evaluated: the output stays
    ("y:=in;x:=nothing*2;y:=0;x", |i, _, _, v| {
        v[1] = i;
        None
    }),
];
pub fn eval() {
    let k = choose(TEXTS.len());
    let sr = [100, 44100][choose(if is_symbolic() && k != 4 { 1 } else { 2 })];
    let mut r = Rig::<2>::new(&[1], 1, Eval::<2>::new().sr(sr).code(TEXTS[k].0));
    r.msg(Message::Index(0));
    let (mut f, mut p, mut v) = (TEXTS[k].1, 0.0, [0.0; 3]);
    for b in 0..4 {
        if b == 2 {
            match choose(3) {
                0 => {}
                // a new text starts with what the variables hold
                1 => {
                    let k = choose(TEXTS.len());
                    r.msg(Message::SetToSymbol(0, TEXTS[k].0.to_string()));
                    f = TEXTS[k].1;
                }
                // not an expression: the old one goes on
                _ => r.msg(Message::SetToSymbol(0, ["x:=3;in * (", "x:=+;x", ""][choose(3)].to_string())),
            }
        }
        r.any_sources();
        let old = [r.out(0, 0), r.out(0, 1)];
        r.block();
        for i in 0..2 {
            let y = f(r.src(0, 0, i) as f64, p, sr as f64, &mut v);
            let y = match y {
                Some(y) => y as f32,
                None => old[i],
            };
            check_f32(r.out(0, i), y, "the value of the last expression");
            p += 1.0;
        }
    }
    cover("end");
}
/// text, and what it stands for: (input, sample rate, what it keeps) -> samples it gives
type G = fn([f32; 2], f32, &mut [f32; 2]) -> Vec<f32>;
const SCRIPTS: &[(&str, G)] = &[
    ("x += 1.0; [x, x * 2.0]", |_, _, v| {
        v[0] = v[0] + 1.0;
        vec![v[0], v[0] * 2.0]
    }),
    (
        "output.pad(2, 0.0); for i in 0..2 { output[i] = sin(2.0*PI()*phase); phase += 1.0 / sr; }; while phase > 1.0 { phase -= 1.0 }; output",
        |_, sr, v| {
            // the harness stays below one turn
            let mut o = vec![];
            for _ in 0..2 {
                o.push((2.0 * core::f32::consts::PI * v[1]).sin());
                v[1] = v[1] + 1.0 / sr;
            }
            o
        },
    ),
    ("[input[1], input[0] * 0.5]", |i, _, _| vec![i[1], i[0] * 0.5]),
    ("x = input[0]; [x + y]", |i, _, v| {
        v[0] = i[0];
        vec![i[0] + 0.0]
    }),
    // cannot be run: the output stays
    ("x += 1.0; nothing(x)", |_, _, v| {
        v[0] = v[0] + 1.0;
        vec![]
    }),
];
/// the script is run once per block and keeps its variables
pub fn script() {
    let k = choose(SCRIPTS.len());
    let sr = [100, 44100][choose(if is_symbolic() && k != 1 { 1 } else { 2 })];
    let n = Meta::<2>::new().sr(sr).code(SCRIPTS[k].0).to_boxed_nodedata(1);
    let mut r = Rig::<2>::new(&[1], 1, Boxed(n.node));
    r.msg(Message::Index(0));
    let (mut f, mut v) = (SCRIPTS[k].1, [0.0; 2]);
    for b in 0..3 {
        if b == 1 {
            match choose(3) {
                0 => {}
                1 => {
                    let k = choose(SCRIPTS.len());
                    r.msg(Message::SetToSymbol(0, SCRIPTS[k].0.to_string()));
                    f = SCRIPTS[k].1;
                }
                // not a script: the old one goes on
                _ => r.msg(Message::SetToSymbol(0, "x += ; (".to_string())),
            }
        }
        r.any_sources();
        let mut y = [r.out(0, 0), r.out(0, 1)];
        r.block();
        let o = f([r.src(0, 0, 0), r.src(0, 0, 1)], sr as f32, &mut v);
        for i in 0..o.len() {
            y[i] = o[i];
        }
        for i in 0..2 {
            check_f32(r.out(0, i), y[i], "what the script returned");
        }
    }
    cover("end");
}
