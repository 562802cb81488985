#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;
mod body;
mod exec;
mod intr;
mod ival;
mod mem;
mod prove;
mod ring;
mod smt;
mod term;
use rustc_driver::Compilation;
use rustc_middle::ty::{Instance, TyCtxt};

struct Cb {
    harness: Option<String>,
}
impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let h = match &self.harness {
            Some(h) => h.clone(),
            None => return Compilation::Continue,
        };
        let mut found = None;
        for def in tcx.mir_keys(()) {
            let d = def.to_def_id();
            if matches!(tcx.def_kind(d), rustc_hir::def::DefKind::Fn) && tcx.item_name(d).as_str() == h {
                found = Some(d);
            }
        }
        let out = std::env::var("MIRV_OUT").unwrap_or("/dev/stdout".into());
        let text = match found {
            None => format!("{{\"harness\":{},\"error\":\"no such harness\"}}", prove::js(&h)),
            Some(d) => {
                let t0 = std::time::Instant::now();
                let mut e = exec::Engine::new(tcx);
                let r = e.run_harness(Instance::mono(tcx, d));
                e.report(&h, r.err(), t0.elapsed().as_secs_f64())
            }
        };
        std::fs::write(out, text + "\n").expect("write report");
        Compilation::Stop
    }
}
fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    let mut harness = None;
    if args.len() > 2 && args[1] == "--harness" {
        harness = Some(args[2].clone());
        args.drain(1..3);
    }
    // deep recursion in the executor
    let th = std::thread::Builder::new()
        .stack_size(4 << 30)
        .spawn(move || rustc_driver::compiler_entrypoint(&args, &mut Cb { harness }))
        .unwrap();
    match th.join() {
        Ok(_) => {}
        Err(_) => std::process::exit(101),
    }
}
