//! Pass, Sum, Sum2: channel routing and mixing.
use crate::util::*;
use glicol_synth::{Message, Pass, Sum, Sum2};
use glv::*;

pub fn pass() {
    let (ic, oc) = (any_channels(3), any_channels(3));
    let mut r = Rig::<4>::new(&[ic], oc, Pass);
    forall_steps(
        "blocks",
        &mut r,
        |_| true,
        |r| {
            r.any_sources();
            let mut old = [[0f32; 4]; 3];
            for c in 0..oc {
                for i in 0..4 {
                    old[c][i] = r.out(c, i);
                }
            }
            r.msg(Message::SetToNumber(0, any_f32()));
            r.block();
            for c in 0..oc {
                for i in 0..4 {
                    let want = if ic == 1 && oc == 2 {
                        r.src(0, 0, i)
                    } else if c < ic {
                        r.src(0, c, i)
                    } else {
                        old[c][i]
                    };
                    check(r.out(c, i).to_bits() == want.to_bits(), "pass copies its input channel by channel");
                }
            }
            cover("block");
        },
    );
    cover("end");
}
/// without any input the block keeps its contents (this is how external input enters)
pub fn pass_no_input() {
    let oc = any_channels(3);
    let mut r = Rig::<4>::new(&[], oc, Pass);
    r.any_sources();
    let mut old = [[0f32; 4]; 3];
    for c in 0..oc {
        for i in 0..4 {
            old[c][i] = r.out(c, i);
        }
    }
    r.block();
    for c in 0..oc {
        for i in 0..4 {
            check(r.out(c, i).to_bits() == old[c][i].to_bits(), "pass without input keeps its buffers");
        }
    }
    cover("end");
}
fn sums<const N: usize>(kind: usize, chans: &[usize], oc: usize) {
    let mut r = match kind {
        0 => Rig::<N>::new(chans, oc, Sum),
        _ => Rig::<N>::new(chans, oc, Sum2),
    };
    forall_steps(
        "blocks",
        &mut r,
        |_| true,
        |r| {
            r.any_sources();
            r.block();
            for c in 0..oc {
                for i in 0..N {
                    let (mut want, mut size) = (0.0, 0.0);
                    for s in 0..chans.len() {
                        match kind {
                            0 => {
                                if c < chans[s] {
                                    want = want + r.src(s, c, i);
                                    size = size + r.src(s, c, i).abs();
                                }
                            }
                            _ => {
                                let x = r.src(s, if c < chans[s] { c } else { 0 }, i);
                                want = want + x;
                                size = size + x.abs();
                            }
                        }
                    }
                    check_f32_tol(r.out(c, i), want, size, "each output channel is the sum of its inputs");
                }
            }
            cover("block");
        },
    );
    cover("end");
}
fn any_chans(k: usize) -> Vec<usize> {
    (0..k).map(|_| any_channels(3)).collect()
}
fn go(kind: usize) {
    match choose(2) {
        0 => {
            let k = choose(4);
            let ch = any_chans(k);
            sums::<2>(kind, &ch, any_channels(3))
        }
        _ => sums::<64>(kind, &[2, 1], 2),
    }
}
pub fn sum() {
    go(0)
}
pub fn sum2() {
    go(1)
}
