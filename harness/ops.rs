//! mul / add: per-sample arithmetic with a number or with a second signal.
use crate::util::*;
use glicol_synth::operator::{Add, Mul};
use glicol_synth::Message;
use glv::*;

struct S<const N: usize> {
    r: Rig<N>,
    v: f32,
}
fn op(add: bool, a: f32, b: f32) -> f32 {
    if add {
        a + b
    } else {
        a * b
    }
}
fn make<const N: usize>(add: bool, srcs: &[usize], out: usize, v: f32) -> Rig<N> {
    if add {
        Rig::new(srcs, out, Add::new(v))
    } else {
        Rig::new(srcs, out, Mul::new(v))
    }
}
/// channel c of a source, a mono source serving every channel
fn ch<const N: usize>(r: &Rig<N>, s: usize, c: usize, i: usize) -> f32 {
    let n = r.g.nodes[s].buffers.len();
    r.src(s, if c < n { c } else { 0 }, i)
}
fn number<const N: usize>(add: bool) {
    let ic = any_channels(3);
    let out = any_channels(2);
    let v = any_f32();
    let mut s = S { r: make::<N>(add, &[ic], out, v), v };
    s.r.msg(Message::Index(0));
    forall_steps(
        "blocks and value changes",
        &mut s,
        |_| true,
        |s| {
            match choose(3) {
                0 => {
                    let v = any_f32();
                    s.r.msg(Message::SetToNumber(0, v));
                    s.v = v;
                }
                1 => {
                    let p = any_u8();
                    assume(p != 0);
                    s.r.msg(Message::SetToNumber(p, any_f32()));
                }
                _ => {
                    s.r.any_sources();
                    s.r.block();
                    for c in 0..out {
                        for i in 0..N {
                            let x = ch(&s.r, 0, c, i);
                            check_f32(s.r.out(c, i), op(add, x, s.v), "output is the input combined with the number");
                        }
                    }
                    cover("block");
                }
            }
        },
    );
    cover("end");
}
fn signal<const N: usize>(add: bool) {
    let (c0, c1) = (any_channels(3), any_channels(3));
    let out = any_channels(2);
    let v = any_f32();
    let main = choose(2);
    let mut s = S { r: make::<N>(add, &[c0, c1], out, v), v };
    any_order(&mut s.r, main, 1 - main);
    forall_steps(
        "blocks and value changes",
        &mut s,
        |_| true,
        |s| {
            if any_bool() {
                s.r.msg(Message::SetToNumber(0, any_f32()));
            } else {
                s.r.any_sources();
                s.r.block();
                for c in 0..out {
                    for i in 0..N {
                        let (x, y) = (ch(&s.r, main, c, i), ch(&s.r, 1 - main, c, i));
                        check_f32(s.r.out(c, i), op(add, x, y), "output is the two inputs combined");
                    }
                }
                cover("block");
            }
        },
    );
    cover("end");
}
pub fn mul_number() {
    match choose(2) {
        0 => number::<2>(false),
        _ => number::<128>(false),
    }
}
pub fn add_number() {
    match choose(2) {
        0 => number::<2>(true),
        _ => number::<128>(true),
    }
}
pub fn mul_signal() {
    match choose(2) {
        0 => signal::<1>(false),
        _ => signal::<16>(false),
    }
}
pub fn add_signal() {
    match choose(2) {
        0 => signal::<1>(true),
        _ => signal::<16>(true),
    }
}
/// the frame: inputs are left alone
pub fn ops_frame() {
    let add = choose(2) == 1;
    let two = choose(2) == 1;
    let v = any_f32();
    let mut r = make::<4>(add, if two { &[2, 2] } else { &[2] }, 2, v);
    r.msg(Message::Index(0));
    r.msg(Message::Index(1));
    r.any_sources();
    let mut old = [[[0.0f32; 4]; 2]; 2];
    for s in 0..r.k {
        for c in 0..2 {
            for i in 0..4 {
                old[s][c][i] = r.src(s, c, i);
            }
        }
    }
    r.block();
    for s in 0..r.k {
        for c in 0..2 {
            for i in 0..4 {
                check(r.src(s, c, i).to_bits() == old[s][c][i].to_bits(), "inputs are not modified");
            }
        }
    }
    cover("end");
}
