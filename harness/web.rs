//! The functions the browser calls, against an engine of its own.
use crate::util::*;
use glicol::Engine;
use glicol_wasm as web;
use glv::*;

/// the message an error stands for: kind and text
const BAD: &[(&str, u8, &str)] = &[
    ("o: sin 440 >> mul ~nothing", 3, "There is no reference named ~nothing"),
    ("o: sp \\nothing", 2, "There is no sample named \\nothing"),
    ("o: sin 440 >>", 1, "pos[13], line[1], col[14], "),
    ("a: sin 1\n\nb: sinn 3", 1, "pos[13], line[3], col[4], "),
];
const GOOD: &[&str] = &["o: sin 440", "o: saw 100 >> mul ~m\n\n~m: squ 20", "o: noise 3 >> pan 0.5", "o: seq 60 62", ""];

struct W {
    e: Engine<128>,
}
impl W {
    fn new() -> W {
        let mut e = Engine::new();
        let sr = [44100.0, 8000.0][if is_symbolic() { 0 } else { choose(2) }];
        web::reset();
        web::set_sr(sr);
        e.set_sr(sr as usize);
        W { e }
    }
    fn play(&mut self, size: usize) {
        let out = web::process(size);
        let want = self.e.next_block(vec![]);
        check(out.len() == size, "as many samples as asked for");
        for i in 0..size / 2 {
            check_f32(out[i], want[0][i], "the left side first");
            check_f32(out[size / 2 + i], want[1][i], "the right side then");
        }
    }
    fn good(&mut self, t: &str) {
        let res = unsafe { web::update(t.as_bytes()) };
        check(self.e.update_with_code(t).is_ok(), "the program is accepted");
        check(res.len() == 256, "a result of fixed size");
        for i in 0..256 {
            check(res[i] == 0, "nothing to report");
        }
    }
    fn bad(&mut self, t: &str, kind: u8, text: &str, exact: bool) {
        let res = unsafe { web::update(t.as_bytes()) };
        check(self.e.update_with_code(t).is_err(), "the program is refused");
        check(res.len() == 256, "a result of fixed size");
        check(res[0] == kind, "the kind of error comes first");
        let text = text.as_bytes();
        for i in 0..254 {
            if i < text.len() {
                check(res[2 + i] == text[i], "the message follows");
            } else if exact {
                check(res[2 + i] == 0, "nothing after the message");
            }
        }
    }
}
/// programs and what they play
pub fn web_play() {
    let mut w = W::new();
    w.good(GOOD[choose(GOOD.len())]);
    w.play([256, 0, 2, 128][choose(4)]);
    match choose(4) {
        0 => {
            web::set_bpm(90.0);
            w.e.set_bpm(90.0);
        }
        1 => {
            web::set_seed(7.0);
            w.e.set_seed(7);
        }
        2 => {
            web::send_msg("o, 0, 0, 220".to_string());
            w.e.send_msg("o, 0, 0, 220");
        }
        _ => {
            web::reset();
            w.e.reset();
        }
    }
    w.play(256);
    w.good("o: noiz 5 >> mul 0.5\n\np: seq 60 _60");
    w.play(256);
    cover("end");
}
/// what is reported of programs that cannot be played
pub fn web_errors() {
    let mut w = W::new();
    w.good("o: sin 440");
    let (t, kind, text) = BAD[choose(BAD.len())];
    w.bad(t, kind, text, kind != 1);
    w.play(256);
    let n = [219, 220, 225, 300][choose(4)];
    let mut name = String::new();
    for _ in 0..n {
        name.push('x');
    }
    let mut t = String::from("o: sin 440 >> mul ~");
    t.push_str(&name);
    let mut text = String::from("There is no reference named ~");
    text.push_str(&name);
    w.bad(&t, 3, &text, true);
    w.play(256);
    cover("end");
}
/// recordings handed over
pub fn web_samples() {
    let mut w = W::new();
    let n = 3;
    let mut v = Vec::new();
    for _ in 0..n {
        v.push(any_f32_hint(-1.0, 1.0));
    }
    let b: Box<[f32]> = v.clone().into_boxed_slice();
    web::add_sample("\\s".to_string(), b, 1, 44100);
    w.e.add_sample("\\s", Box::leak(v.into_boxed_slice()), 1, 44100);
    w.good("o: imp 400 >> sp \\s");
    w.play(256);
    web::reset();
    w.e.reset();
    w.bad("o: imp 400 >> sp \\s", 2, "There is no sample named \\s", true);
    w.play(256);
    cover("end");
}
