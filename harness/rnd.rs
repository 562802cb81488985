//! Programs at large: natively drawn at random, under the verifier taken from a list.
use crate::prog::*;
use glicol_synth::Message;
use glv::*;

/// a chain refers only to chains further down this list
const NAMES: &[&str] = &["o", "lead", "q1", "_e", "x_2b", "~a", "~b", "~c", "~da", "~db", "~hid_3"];
fn leak(s: String) -> &'static str {
    Box::leak(s.into_boxed_str())
}
/// no number is written in two ways, nor a node under two names
fn number(lo: i32, hi: i32) -> String {
    let v = lo + choose((hi - lo) as usize) as i32;
    match choose(4) {
        0 => format!("{}", v),
        1 => format!("{}.5", v),
        2 => format!("{}.{:02}{}", v, choose(100), 1 + choose(9)),
        _ => format!("{}.{}{}", v, choose(10), 1 + choose(9)),
    }
}
fn small() -> String {
    format!("0.{:03}", 1 + choose(999))
}
/// which nodes may be drawn
#[derive(Clone, Copy, PartialEq)]
pub enum Kind {
    All,
    /// not those that act once per block
    Even,
}
fn source(name: &str, later: &[&'static str], kind: Kind) -> Vec<Nd> {
    let pick = || later[choose(later.len())];
    let r = |s: String, refs: Vec<&'static str>| Nd { text: leak(s), refs: Box::leak(refs.into_boxed_slice()) };
    let p = |s: String| Nd { text: leak(s), refs: &[] };
    let k = choose(if later.is_empty() { 14 } else { 26 });
    vec![match k {
        0 => p(format!("sin {}", number(1, 45))),
        1 => p(format!("saw {}", number(1, 45))),
        2 => p(format!("squ {}", number(1, 45))),
        3 => p(format!("tri {}", number(1, 45))),
        4 => p(format!("imp {}", number(1, 60))),
        5 => p(format!("sig {}", number(-9, 9))),
        6 => p(format!("constsig {}", number(9, 30))),
        7 => p(format!("noise {}", choose(100))),
        8 if kind == Kind::All => p(format!("choose {} {} {}", choose(9), choose(9), choose(9))),
        9 | 8 => {
            let mut s = "seq".to_string();
            let mut refs = vec![];
            let names: Vec<&'static str> = later.iter().copied().filter(|n| n.len() == 2 && n.starts_with('~')).collect();
            // as many parts and items as make the times exact
            for _ in 0..1 << choose(3) {
                s.push(' ');
                for _ in 0..1 << choose(3) {
                    match choose(4) {
                        0 if !names.is_empty() => {
                            let n = names[choose(names.len())];
                            s.push_str(n);
                            if !refs.contains(&n) {
                                refs.push(n);
                            }
                        }
                        1 | 2 if !s.ends_with(|c: char| c.is_ascii_digit()) => s.push_str(&format!("{}", 40 + choose(40))),
                        _ => s.push('_'),
                    }
                }
            }
            let q = r(s, refs);
            if choose(3) == 0 && kind == Kind::All {
                return vec![p(format!("speed {}.0", 1 + choose(4))), q];
            }
            q
        }
        10 => {
            let mut s = "[".to_string();
            let mut at = choose(3);
            let n = 1 + choose(4);
            for i in 0..n {
                if i > 0 {
                    s.push_str(", ");
                }
                s.push_str(&match choose(3) {
                    0 => format!("{}/8", at),
                    1 => format!("{}", at as f32 / 8.0),
                    _ => format!("{}/{}", at * 2, 16),
                });
                if i + 1 == n {
                    s.push_str(["", "", " + 20_ms", "+0.05_s", " + 100.5_ms"][choose(5)]);
                }
                s.push_str(&format!("=>{}", number(-4, 4)));
                at += 1 + choose(3);
            }
            s.push(']');
            s.push_str(["", "!", "*2", "/2", "* 0.5 !", "/4!"][choose(6)]);
            p(s)
        }
        11..=13 => INPUT,
        14 => {
            let a = pick();
            r(a.to_string(), vec![a])
        }
        15 => {
            let a = pick();
            r(format!("get {}", a), vec![a])
        }
        16 | 17 => {
            let (a, b) = (pick(), pick());
            r(format!("mix {} {}", a, b), vec![a, b])
        }
        18 => {
            let (a, b) = (pick(), pick());
            r(format!("balance {} {}", a, b), vec![a, b])
        }
        19 => {
            let a = pick();
            r(format!("sin {}", a), vec![a])
        }
        20 => {
            let a = pick();
            r(format!("saw {}", a), vec![a])
        }
        21 => {
            let a = pick();
            r(format!("squ {}", a), vec![a])
        }
        22 => {
            let a = pick();
            r(format!("tri {}", a), vec![a])
        }
        23 | 24 => {
            let mut s = "arrange".to_string();
            let mut refs = vec![];
            for _ in 0..1 + choose(3) {
                let a = pick();
                refs.push(a);
                s.push_str(&format!(" {} {}", a, ["1", "0.5", "0.25", "0.01", "0.125", "0.02"][choose(6)]));
            }
            r(s, refs)
        }
        _ => {
            let d: Vec<&'static str> = later.iter().copied().filter(|n| n.starts_with("~d")).collect();
            if d.is_empty() || name.starts_with("~d") {
                INPUT
            } else {
                r("mix ~d..".to_string(), d)
            }
        }
    }]
}
fn filter(later: &[&'static str], kind: Kind) -> Nd {
    let pick = || later[choose(later.len())];
    let r = |s: String, a: &'static str| Nd { text: leak(s), refs: Box::leak(vec![a].into_boxed_slice()) };
    let p = |s: String| Nd { text: leak(s), refs: &[] };
    match choose(if later.is_empty() { 20 } else { 29 }) {
        0 | 1 => p(format!("mul {}", number(-4, 4))),
        2 | 3 => p(format!("add {}", number(-4, 4))),
        4 => p(format!("pan {}", number(-2, 2))),
        5 => p(format!("delayn {}", 1 + choose(9))),
        6 => p(format!("delayms {}", number(1, 90))),
        7 => p(format!("onepole {}", small())),
        8 => p(format!("lpf {} {}", number(1, 45), small())),
        9 => match choose(2) {
            0 => p(format!("rhpf {} {}", number(1, 25), small())),
            _ => p(format!("hpf {} {}", number(25, 45), small())),
        },
        10 => match choose(2) {
            0 => p(format!("apfmsgain {} {}", number(15, 40), small())),
            _ => p(format!("apfgain {} {}", number(40, 60), small())),
        },
        11 => p(format!("envperc {} {}", small(), small())),
        12 => p(format!("adsr {} {} {} {}", small(), small(), small(), small())),
        13 => p(format!("bd {}", small())),
        14 => p(format!("sn {}", small())),
        15 => p(format!("hh {}", small())),
        16 => p(format!("sawsynth {} {}", small(), small())),
        17 => p(format!("squsynth {} {}", small(), small())),
        18 => p(format!("trisynth {} {}", small(), small())),
        19 => p(format!("plate {}", small())),
        20 | 21 => {
            let a = pick();
            r(format!("mul {}", a), a)
        }
        22 | 23 => {
            let a = pick();
            r(format!("add {}", a), a)
        }
        24 => {
            let a = pick();
            r(format!("pan {}", a), a)
        }
        25 => {
            let a = pick();
            r(format!("onepole {}", a), a)
        }
        26 if kind == Kind::All => {
            let a = pick();
            r(format!("lpf {} {}", a, small()), a)
        }
        27 if kind == Kind::All => {
            let a = pick();
            r(format!("rhpf {} {}", a, small()), a)
        }
        _ => {
            let a = pick();
            r(format!("mul {}", a), a)
        }
    }
}
fn rank(n: &str) -> usize {
    NAMES.iter().position(|m| *m == n).unwrap_or(NAMES.len())
}
fn chain(name: &str, all: &[&'static str], kind: Kind) -> Vec<Nd> {
    let later: Vec<&'static str> = all.iter().copied().filter(|n| rank(n) > rank(name)).collect();
    let mut c = source(name, &later, kind);
    let n = choose(4);
    while c.len() <= n {
        let f = filter(&later, kind);
        // written twice it would be open which one stays when the chain is edited
        if !c.contains(&f) {
            c.push(f);
        }
    }
    c
}
pub fn any_prog(kind: Kind) -> Prog {
    let n = 1 + choose(5);
    let mut names: Vec<&'static str> = vec![];
    while names.len() < n {
        let x = NAMES[choose(NAMES.len())];
        if !names.contains(&x) && (x.starts_with('~') || names.iter().filter(|y| !y.starts_with('~')).count() < 3) {
            names.push(x);
        }
    }
    names.clone().into_iter().map(|x| (x, chain(x, &names, kind))).collect()
}
/// a program that differs from the given one in a few places
fn edited(p: &Prog, kind: Kind) -> Prog {
    let mut q = p.clone();
    for _ in 0..1 + choose(3) {
        let names: Vec<&'static str> = q.iter().map(|c| c.0).collect();
        if q.is_empty() {
            break;
        }
        let i = choose(q.len());
        let name = q[i].0;
        let later: Vec<&'static str> = names.iter().copied().filter(|n| rank(n) > rank(name)).collect();
        let len = q[i].1.len();
        // written twice or moved it would be open which node stays
        let was = p.iter().find(|c| c.0 == name).map_or(vec![], |c| c.1.clone());
        let speed = q[i].1[0].text.starts_with("speed");
        match choose(7) {
            0 | 1 => {
                let f = filter(&later, kind);
                if !q[i].1.contains(&f) && !was.contains(&f) && !speed {
                    q[i].1.insert(1 + choose(len), f);
                }
            }
            2 if len > 1 => {
                q[i].1.remove(1 + choose(len - 1));
            }
            3 if len > 1 => {
                let f = filter(&later, kind);
                if !q[i].1.contains(&f) && !was.contains(&f) && !speed {
                    let j = 1 + choose(len - 1);
                    q[i].1[j] = f;
                }
            }
            4 => {
                let x = NAMES[choose(NAMES.len())];
                if !names.contains(&x) && !p.iter().any(|c| c.0 == x) && (x.starts_with('~') || names.iter().filter(|y| !y.starts_with('~')).count() < 3) {
                    let c = chain(x, &names, kind);
                    q.insert(choose(q.len() + 1), (x, c));
                }
            }
            5 => {
                q.remove(i);
            }
            _ => {
                let c = source(name, &later, kind);
                if !c.iter().any(|n| q[i].1.contains(n) || was.contains(n)) && !speed {
                    q[i].1.remove(0);
                    for n in c.into_iter().rev() {
                        q[i].1.insert(0, n);
                    }
                }
            }
        }
    }
    // which chains a dotted name stands for
    let d: Vec<&'static str> = q.iter().map(|c| c.0).filter(|n| n.starts_with("~d")).collect();
    let d: &'static [&'static str] = Box::leak(d.into_boxed_slice());
    for c in q.iter_mut() {
        for n in c.1.iter_mut() {
            if n.text == "mix ~d.." {
                n.refs = d;
            }
        }
    }
    q
}
fn closed(p: &Prog) -> bool {
    p.iter().all(|c| c.1.iter().all(|n| (n.text != "mix ~d.." || !n.refs.is_empty()) && n.refs.iter().all(|r| *r == "~input" || p.iter().any(|d| d.0 == *r))))
}
const ANY: usize = 1 << 20;
/// rate, tempo and seed
fn env() -> Env {
    if is_symbolic() {
        return ENV;
    }
    Env { sr: [100, 50, 300, 441][choose(4)], bpm: [120.0, 60.0, 240.0, 97.0][choose(4)], seed: choose(9) }
}
fn start() -> Both<2> {
    Both::<2>::new(env())
}
fn pick_prog(list: usize) -> (usize, Prog) {
    if is_symbolic() {
        routing(list)
    } else {
        (ANY, any_prog(Kind::All))
    }
}
/// programs with many chains and repeated references
pub fn prog_more() {
    let k = if is_symbolic() { choose(10) } else { 0 };
    let (ring, p) = pick_prog(20 + k);
    let mut s = start();
    if ring != ANY {
        s.ring = ring;
    }
    s.load(&p);
    s.run();
    cover("end");
}
/// programs that change in several places at once
pub fn edit_more() {
    if is_symbolic() {
        let (p, q) = edits(19 + choose(8));
        let mut s = start();
        s.load(&p);
        s.run();
        s.load(&q);
        s.run();
        s.load(&p);
        s.run();
        cover("end");
        return;
    }
    let mut p = any_prog(Kind::All);
    let mut s = start();
    s.load(&p);
    s.run();
    for _ in 0..1 + choose(4) {
        let q = edited(&p, Kind::All);
        assume(closed(&q));
        s.load(&q);
        s.run();
        p = q;
    }
    cover("end");
}
/// faulty updates of all kinds between valid ones
pub fn fail_more() {
    let mut s = start();
    let (p, bad, q): (Prog, String, Prog);
    if is_symbolic() {
        let k = choose(11);
        let t;
        (p, t) = faulty(k);
        bad = t.to_string();
        q = if choose(2) == 0 { p.clone() } else { vec![("o", vec![nd("saw 11.25"), nd("add 1")]), ("p", vec![nd("saw 11.25")])] };
    } else {
        p = any_prog(Kind::All);
        let mut f = edited(&p, Kind::All);
        let at = if f.is_empty() { 0 } else { choose(f.len()) };
        let wrong = ["mul ~zz", "sp \\none", "mix ~zz..", "psampler \"\\none@0.1\"(1)", "foo 1", "mul", "mul 1 2", ">> mul 1", "arrange ~zz 1", "balance ~zz ~zz", "sin ~zz", "mix ~zz ~zy", "seq ~z 60"][choose(13)];
        if !f.is_empty() && closed(&f) {
            let j = 1 + choose(f[at].1.len());
            f[at].1.insert(j, nd(wrong));
        } else if f.is_empty() {
            f.push(("o", vec![nd(wrong)]));
        }
        bad = text(&f);
        q = edited(&p, Kind::All);
        assume(closed(&q));
    }
    s.load(&p);
    s.run();
    for _ in 0..if is_symbolic() { 1 } else { 1 + choose(2) } {
        if !is_symbolic() {
            log(bad.clone());
        }
        check(s.e.update_with_code(&bad).is_err(), "a text that cannot be played is refused");
        s.run();
    }
    s.load(&q);
    s.run();
    cover("end");
}
/// messages in any mixture
pub fn message_more() {
    let mut s = start();
    let mut m = String::new();
    let mut to: Vec<(usize, usize, Message)> = vec![];
    if is_symbolic() {
        s.load(&vec![
            ("o", vec![INPUT, nd("mul 0.5"), nd("onepole 0.75"), rf("add ~c", &["~c"])]),
            ("p", vec![nd("saw 11.25"), nd("rhpf 10 0.5")]),
            ("~c", vec![INPUT, nd("mul -2")]),
        ]);
        let set = |p: u8, v: f32| Message::SetToNumber(p, v);
        let (t, l) = match choose(9) {
            8 => (
                "o,1,0,1;o,1,0,2;o,1,0,3;o,1,0,4;o,1,0,5;o,1,0,6;o,1,0,7;o,1,0,8;o,1,0,9;o,2,0,0.5;p,0,0,13.5;~c,1,0,3",
                vec![(0, 1, set(0, 9.0)), (0, 2, set(0, 0.5)), (1, 0, set(0, 13.5)), (2, 1, set(0, 3.0))],
            ),
            0 => ("o,1,0;o,1,0,0.25", vec![(0, 1, set(0, 0.25))]),
            1 => ("o;o,1;;p,0,0,13.5;", vec![(1, 0, set(0, 13.5))]),
            2 => ("o,3,0,0.25", vec![(0, 3, set(0, 0.25))]),
            3 => ("o,1,0,0.25;o,1,0,3", vec![(0, 1, set(0, 0.25)), (0, 1, set(0, 3.0))]),
            4 => ("zz,1,0,7;\n o , 2 , 0 , 0.125 ;\t~c,1,0,-0.5", vec![(0, 2, set(0, 0.125)), (2, 1, set(0, -0.5))]),
            5 => ("~zz,0,0,7;~input,0,0,7;p,0,0,13.5", vec![(1, 0, set(0, 13.5))]),
            6 => ("p,1,1,0.25;p,1,0,20.5", vec![(1, 1, set(1, 0.25)), (1, 1, set(0, 20.5))]),
            _ => ("p,0,0,1e1;o,2,0,+0.5", vec![(1, 0, set(0, 10.0)), (0, 2, set(0, 0.5))]),
        };
        m.push_str(t);
        to = l;
    } else {
        if choose(4) == 0 {
            s.load(&any_prog(Kind::All));
            s.step();
        }
        let p = any_prog(Kind::All);
        s.load(&p);
        let n = if choose(3) == 0 { choose(40) } else { choose(4) };
        for _ in 0..1 + n {
            let c = choose(p.len());
            let j = choose(p[c].1.len());
            let n = p[c].1[j].text;
            // where a number is the parameter
            let ok = ["mul ", "add ", "sin ", "saw ", "squ ", "tri ", "sig ", "onepole "].iter().any(|h| n.starts_with(h)) && p[c].1[j].refs.is_empty()
                || n.starts_with("envperc") || n.starts_with("delayn") || n.starts_with("delayms") || n.starts_with("rhpf") && p[c].1[j].refs.is_empty();
            let v = small();
            let blank = ["", " ", "\n", "\t "][choose(4)];
            match choose(6) {
                0 => m.push_str(&format!("{},{},0;", p[c].0, j)),
                1 => m.push_str(&format!("zz{},{},0,{};", blank, j, v)),
                2 => m.push_str(&format!("{},{},0,{};", p[c].0, p[c].1.len() + choose(3), v)),
                _ if ok => {
                    let par = if n.starts_with("envperc") || n.starts_with("rhpf") { choose(2) } else { 0 };
                    let v = if n.starts_with("delay") { number(1, 30) } else { v };
                    m.push_str(&format!("{}{},{}{},{},{}{};", blank, p[c].0, j, blank, par, v, blank));
                    if let Ok(x) = v.parse::<f32>() {
                        to.push((c, j, Message::SetToNumber(par as u8, x)));
                    }
                }
                _ => m.push(';'),
            }
        }
    }
    s.run();
    if !is_symbolic() {
        log(m.clone());
    }
    s.e.send_msg(&m);
    for (c, i, m) in to {
        let x = s.h.chains[c].1[i].1;
        s.h.tell(x, m);
    }
    s.run();
    cover("end");
}
/// after anything, a reset
pub fn fresh_more() {
    let mut s = start();
    let e = s.h.env;
    let k = if is_symbolic() { choose(5) } else { 0 };
    let (p, q) = if is_symbolic() { (routing([3, 8, 15, 20, 3][k]).1, routing([1, 4, 10, 13, 8][k]).1) } else { (any_prog(Kind::All), any_prog(Kind::All)) };
    s.load(&p);
    if is_symbolic() {
        s.step();
        s.step();
    } else {
        s.run();
    }
    let how = if is_symbolic() { k } else { choose(4) };
    if how & 1 == 1 {
        check(s.e.update_with_code("o: ~zz").is_err(), "a text that cannot be played is refused");
    }
    s.e.reset();
    s.h = Hand::new(Env { sr: e.sr, ..ENV });
    if how & 2 == 2 {
        s.step();
    }
    s.load(&q);
    s.run();
    cover("end");
}
/// tempo, rate and seed changed while programs come and go
pub fn settings_more() {
    let mut s = start();
    let mut p = if is_symbolic() { vec![("o", vec![nd("seq 60 62")]), ("p", vec![rf("arrange ~a 1 ~b 0.5", &["~a", "~b"])]), ("~a", vec![nd("saw 11.25")]), ("~b", vec![nd("sig 2")])] } else { any_prog(Kind::All) };
    s.load(&p);
    s.run();
    for _ in 0..if is_symbolic() { 1 } else { 1 + choose(3) } {
        match choose(if is_symbolic() { 3 } else { 4 }) {
            0 => {
                let b = [240.0, 60.0, 90.0][if is_symbolic() { 0 } else { choose(3) }];
                s.e.set_bpm(b);
                s.h.env.bpm = b;
                s.h.tell_all(Message::SetBPM(b));
            }
            1 => {
                let r = [300, 50, 10][if is_symbolic() { 0 } else { choose(3) }];
                s.e.set_sr(r);
                s.h.env.sr = r;
            }
            2 => {
                let r = [7, 0, 1000][if is_symbolic() { 0 } else { choose(3) }];
                s.e.set_seed(r);
                s.h.env.seed = r;
            }
            _ => {}
        }
        s.run();
        if is_symbolic() {
            p = vec![("o", vec![nd("seq 60 62"), nd("mul 0.5")]), ("p", vec![nd("choose 3 5 0")]), ("q", vec![nd("squ 10")])];
        } else {
            let q = edited(&p, Kind::All);
            assume(closed(&q));
            p = q;
        }
        s.load(&p);
        s.run();
    }
    cover("end");
}
/// single nodes with all kinds of parameters
pub fn node_more() {
    let mut s = start();
    if is_symbolic() {
        let list = [
            vec![INPUT, nd("mul 3")], vec![INPUT, nd("add -0.125")], vec![INPUT, nd("pan 0.75")], vec![nd("saw 20")], vec![nd("squ 12.5")], vec![nd("tri 6.25")],
            vec![nd("imp 10")], vec![nd("noise 11")], vec![nd("choose 1 0 2 9")], vec![INPUT, nd("onepole 0.125")], vec![INPUT, nd("rhpf 20 0.25")], vec![INPUT, nd("lpf 5 0.125")],
            vec![INPUT, nd("envperc 0.05 0.02")], vec![rf("seq 48__72 _~a", &["~a"])],
        ];
        let k = choose(list.len());
        s.load(&with_ab(list[k].clone()));
        s.run();
        cover("end");
        return;
    }
    let later = ["~a", "~b"];
    let mut c = source("o", &later, Kind::All);
    if choose(3) > 0 {
        c.push(filter(&later, Kind::All));
    }
    s.load(&with_ab(c));
    s.run();
    cover("end");
}
/// whole programs in blocks of two and of four
pub fn size_more() {
    let mut s = Sizes::new(1, env());
    if is_symbolic() {
        s.load(&routing([2, 5, 6, 21, 23][choose(5)]).1);
    } else {
        let p = any_prog(Kind::Even);
        s.load(&p);
        if choose(2) == 1 {
            s.run();
            let q = edited(&p, Kind::Even);
            assume(closed(&q));
            s.load(&q);
        }
    }
    s.run();
    cover("end");
}
/// the fractions of a node in another spelling of the same value
fn respelt(t: &str) -> String {
    let mut s = String::new();
    let mut rest = t;
    while let Some(i) = rest.find(|c: char| c.is_ascii_digit()) {
        let (before, at) = rest.split_at(i);
        let end = at.find(|c: char| !c.is_ascii_digit() && c != '.').unwrap_or(at.len());
        let (num, after) = at.split_at(end);
        let word = before.ends_with(|c: char| c.is_ascii_alphanumeric() || c == '_') || after.starts_with(|c: char| c.is_ascii_alphabetic());
        s.push_str(before);
        if num.matches('.').count() == 1 && !word && !t.contains('`') {
            if !before.ends_with(|c: char| c == '-' || c == '+') && choose(4) == 0 {
                s.push('+');
            }
            s.push_str(["", "0", "00"][choose(3)]);
            s.push_str(num);
            s.push_str(["", "0", "e0", "E0", "e+0", "0e-0", "000"][choose(7)]);
        } else {
            s.push_str(num);
        }
        rest = after;
    }
    s.push_str(rest);
    s
}
/// a program with its blanks, line breaks and remarks anywhere they may be
fn spread(p: &Prog) -> String {
    let note = || ["// x", "//", "// o: sin 3 >> mul 2", "//~a;"][choose(4)];
    let blank = || [" ", "  ", "\t", ",", " | ", ", "][choose(6)];
    let maybe = || ["", "", " ", "\t"][choose(4)];
    let mut s = ["", "\n", "  ", "// first\n", "\n\n // x\n"][choose(5)].to_string();
    for (i, (name, c)) in p.iter().enumerate() {
        if i > 0 {
            // what ends one chain and begins the next
            match choose(5) {
                0 => s.push_str(";"),
                1 => s.push_str(" ; \n"),
                2 => {
                    s.push_str(maybe());
                    s.push_str(note());
                    s.push('\n');
                }
                3 => s.push_str(" \n\n\n"),
                _ => s.push_str("\n"),
            }
            s.push_str(maybe());
        }
        s.push_str(&format!("{}{}:{}", name, maybe(), maybe()));
        for (j, n) in c.iter().enumerate() {
            if j > 0 {
                match choose(4) {
                    0 => s.push_str("\n"),
                    1 => {
                        s.push_str(maybe());
                        s.push_str(note());
                        s.push('\n');
                    }
                    _ => {}
                }
                s.push_str(&format!("{}>>{}", maybe(), maybe()));
            }
            for ch in respelt(&n.text).chars() {
                match ch {
                    ' ' => s.push_str(blank()),
                    _ => s.push(ch),
                }
            }
        }
    }
    s.push_str(["", "\n", ";", "// last", " \n\n", ";\n// last\n"][choose(6)]);
    s
}
/// layout of whole programs
pub fn layout_more() {
    if is_symbolic() {
        let p = routing(3).1;
        let mut s = start();
        let t = text(&p);
        let t = match choose(4) {
            0 => t.replace('\n', "\n\n\n"),
            1 => t.replace(" >> ", "\n>>"),
            2 => t.replace('\n', " // x >> y\n"),
            _ => t.replace('\n', ";").replace(": ", "\t:"),
        };
        check(s.e.update_with_code(&t).is_ok(), "the program is accepted");
        s.h.update(&p);
        s.run();
        cover("end");
        return;
    }
    let p = any_prog(Kind::All);
    let mut s = start();
    let t = spread(&p);
    log(t.clone());
    check(s.e.update_with_code(&t).is_ok(), "the program is accepted");
    s.h.update(&p);
    s.run();
    if choose(2) == 1 {
        // written differently it is still the same
        let t = spread(&p);
        log(t.clone());
        check(s.e.update_with_code(&t).is_ok(), "the program is accepted");
        s.h.update(&p);
        s.run();
    }
    cover("end");
}
