//! Compiler driver: behaves like rustc, and for the crates named in HH_DUMP_CRATES
//! additionally writes the monomorphised, callee-resolved MIR reachable from the
//! crate's non-generic functions to HH_DUMP_DIR/<crate>.json.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_span;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public_bridge;
#[macro_use]
extern crate rustc_public;

mod dump;
mod facts;

fn main() {
    // RUSTC_WRAPPER convention: argv[1] is the path of the real rustc.
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        let real = args.remove(1);
        std::env::set_var("HH_RUSTC", real);
    }
    let mut crate_name = String::new();
    for w in args.windows(2) {
        if w[0] == "--crate-name" {
            crate_name = w[1].clone();
        }
    }
    let wanted = std::env::var("HH_DUMP_CRATES").unwrap_or_default();
    let want = !crate_name.is_empty()
        && crate_name != "___"
        && wanted.split(',').any(|c| c == crate_name);
    let dir = std::env::var("HH_DUMP_DIR").unwrap_or_default();
    let facts = std::env::var("HH_FACTS_CRATE").unwrap_or_default();
    if !facts.is_empty() && crate_name == facts && !dir.is_empty() {
        let name = crate_name.clone();
        let r = run_with_tcx!(&args, move |tcx| {
            use std::ops::ControlFlow;
            let out = facts::facts(tcx);
            let path = format!("{}/{}.facts.json", dir, name);
            std::fs::write(&path, out).expect("write facts");
            ControlFlow::<(), ()>::Continue(())
        });
        if r.is_err() {
            std::process::exit(1);
        }
    } else if want && !dir.is_empty() {
        let name = crate_name.clone();
        let r = run!(&args, move || {
            use std::ops::ControlFlow;
            let out = dump::dump_crate();
            let path = format!("{}/{}.json", dir, name);
            std::fs::write(&path, out).expect("write dump");
            ControlFlow::<(), ()>::Continue(())
        });
        if r.is_err() {
            std::process::exit(1);
        }
    } else {
        use std::os::unix::process::CommandExt;
        let real = std::env::var("HH_RUSTC").unwrap_or_else(|_| "rustc".into());
        let e = std::process::Command::new(real).args(&args[1..]).exec();
        eprintln!("hhdriver: cannot run rustc: {e}");
        std::process::exit(1);
    }
}
