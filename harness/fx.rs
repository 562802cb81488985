//! Stereo placement: pan and balance.
use crate::util::*;
use glicol_synth::effect::{Balance, Pan};
use glicol_synth::Message;
use glv::*;

fn gains(p: f32) -> (f32, f32) {
    let right = (p + 1.0) / 2.0;
    ((1.0 - right).sqrt(), right.sqrt())
}
struct S<const N: usize> {
    r: Rig<N>,
    p: f32,
}
/// fixed position: constant-power law, -1 left, 1 right
fn fixed<const N: usize>(ic: usize) {
    let p = f32_in(-1.0, 1.0);
    let mut s = S::<N> { r: Rig::new(&[ic], 2, Pan::new(p)), p };
    s.r.msg(Message::Index(0));
    forall_steps(
        "blocks and messages",
        &mut s,
        |s| s.p >= -1.0 && s.p <= 1.0,
        |s| match choose(4) {
            0 => {
                s.p = f32_in(-1.0, 1.0);
                s.r.msg(Message::SetToNumber(0, s.p));
            }
            1 => {
                // outside the range: the nearest end
                let v = any_f32_hint(-9.0, 9.0);
                match choose(2) {
                    0 => {
                        assume(v < -1.0);
                        s.p = -1.0;
                    }
                    _ => {
                        assume(v > 1.0);
                        s.p = 1.0;
                    }
                }
                s.r.msg(Message::SetToNumber(0, v));
            }
            2 => {
                let p = any_u8();
                assume(p != 0);
                s.r.msg(Message::SetToNumber(p, any_f32()));
            }
            _ => {
                s.r.any_sources();
                s.r.block();
                let (l, r) = gains(s.p);
                for i in 0..N {
                    let x = s.r.src(0, 0, i);
                    check_f32(s.r.out(0, i), l * x, "left gain");
                    check_f32(s.r.out(1, i), r * x, "right gain");
                }
                cover("block");
            }
        },
    );
    cover("end");
}
pub fn pan_fixed() {
    match choose(3) {
        0 => fixed::<1>(1),
        1 => fixed::<4>(2),
        _ => fixed::<64>(1),
    }
}
/// position from a second signal, sample by sample
pub fn pan_moving() {
    let main = choose(2);
    let p = f32_in(-1.0, 1.0);
    let mut s = S::<3> { r: Rig::new(&[1, 1], 2, Pan::new(p)), p };
    any_order(&mut s.r, main, 1 - main);
    forall_steps(
        "blocks",
        &mut s,
        |_| true,
        |s| {
            s.r.any_sources();
            for i in 0..3 {
                s.r.set(1 - main, 0, i, f32_in(-1.0, 1.0));
            }
            s.r.block();
            for i in 0..3 {
                let (l, r) = gains(s.r.src(1 - main, 0, i));
                let x = s.r.src(main, 0, i);
                check_f32(s.r.out(0, i), l * x, "left gain follows the position signal");
                check_f32(s.r.out(1, i), r * x, "right gain follows the position signal");
            }
            cover("block");
        },
    );
    cover("end");
}
pub fn pan_no_input() {
    let mut r = Rig::<2>::new(&[], 2, Pan::new(any_f32()));
    r.block();
    for i in 0..2 {
        check(r.out(0, i) == 0.0 && r.out(1, i) == 0.0, "pan without input stays silent");
    }
    cover("end");
}
/// balance: first input left, second input right
pub fn balance() {
    let (c0, c1) = (any_channels(3), any_channels(3));
    let main = choose(2);
    let mut s = S::<4> { r: Rig::new(&[c0, c1], 2, Balance::new()), p: 0.0 };
    any_order(&mut s.r, main, 1 - main);
    forall_steps(
        "blocks",
        &mut s,
        |_| true,
        |s| {
            s.r.any_sources();
            s.r.block();
            for i in 0..4 {
                check(s.r.out(0, i).to_bits() == s.r.src(main, 0, i).to_bits(), "the first input is on the left");
                check(s.r.out(1, i).to_bits() == s.r.src(1 - main, 0, i).to_bits(), "the second input is on the right");
            }
            cover("block");
        },
    );
    cover("end");
}
/// balance with one signal named for both sides: it is on both
pub fn balance_same() {
    let c0 = any_channels(3);
    let mut s = S::<4> { r: Rig::new(&[c0], 2, Balance::new()), p: 0.0 };
    s.r.msg(Message::Index(0));
    s.r.msg(Message::Index(0));
    forall_steps(
        "blocks",
        &mut s,
        |_| true,
        |s| {
            s.r.any_sources();
            s.r.block();
            for i in 0..4 {
                check(s.r.out(0, i).to_bits() == s.r.src(0, 0, i).to_bits(), "the signal is on the left");
                check(s.r.out(1, i).to_bits() == s.r.src(0, 0, i).to_bits(), "the signal is on the right");
            }
            cover("block");
        },
    );
    cover("end");
}
