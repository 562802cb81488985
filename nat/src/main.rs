//! Native side of the harnesses: replay of a counterexample and search for failing inputs.
//!   glnat list
//!   glnat run HARNESS STEPS|- V,V,V...       (values as decimal integers)
//!   glnat fuzz HARNESS SEED SECONDS MAXSTEPS
use glv::sym;
fn find(n: &str) -> fn() {
    match glharness::TABLE.iter().find(|x| x.1 == n) {
        Some(x) => x.2,
        None => {
            eprintln!("no harness {}", n);
            std::process::exit(2)
        }
    }
}
fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o + "\""
}
fn report(f: &Option<Vec<String>>, tape: &[u128], runs: u64, skipped: u64) {
    let fs: Vec<String> = f.iter().flatten().take(20).map(|s| js(s)).collect();
    let ts: Vec<String> = tape.iter().map(|v| format!("\"{}\"", v)).collect();
    println!(
        "{{\"assumption_violated\":{},\"failures\":[{}],\"tape\":[{}],\"runs\":{},\"skipped\":{},\"covers\":[{}],\"log\":[{}]}}",
        f.is_none(),
        fs.join(","),
        ts.join(","),
        runs,
        skipped,
        sym::covers().iter().map(|s| js(s)).collect::<Vec<_>>().join(","),
        sym::logged().iter().map(|s| js(s)).collect::<Vec<_>>().join(",")
    );
}
fn main() {
    std::panic::set_hook(Box::new(|i| sym::panicked_at(i.location().map_or(String::new(), |l| format!("{}:{}", l.file(), l.line())))));
    let th = std::thread::Builder::new().stack_size(256 << 20).spawn(go).unwrap();
    if th.join().is_err() {
        std::process::exit(3);
    }
}
fn go() {
    let a: Vec<String> = std::env::args().collect();
    match a[1].as_str() {
        "list" => {
            for (p, n, _) in glharness::TABLE {
                println!("{} {}", p, n);
            }
        }
        "run" => {
            let h = find(&a[2]);
            let steps = a[3].parse().ok();
            let tape: Vec<u128> = a.get(4).map_or(vec![], |s| s.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect());
            let f = sym::run(h, tape.clone(), None, 8, steps);
            report(&f, &tape, 1, 0);
            if f.map_or(false, |f| !f.is_empty()) {
                std::process::exit(1);
            }
        }
        "fuzz" => {
            let h = find(&a[2]);
            let seed: u64 = a[3].parse().unwrap();
            let secs: f64 = a[4].parse().unwrap();
            let max: usize = a[5].parse().unwrap();
            let t0 = std::time::Instant::now();
            let (mut n, mut sk) = (0u64, 0u64);
            while t0.elapsed().as_secs_f64() < secs {
                n += 1;
                let m = match n % 4 {
                    0 => max,
                    1 => 2.min(max),
                    _ => 8.min(max),
                };
                let f = sym::run(h, vec![], Some(seed.wrapping_mul(1_000_003).wrapping_add(n)), m, None);
                match f {
                    None => sk += 1,
                    Some(v) if v.is_empty() => {}
                    Some(v) => {
                        let tape = sym::used();
                        report(&Some(v), &tape, n, sk);
                        std::process::exit(1);
                    }
                }
            }
            report(&Some(vec![]), &[], n, sk);
        }
        _ => std::process::exit(2),
    }
}
