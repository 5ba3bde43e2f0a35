//! rustc driver that dumps facts about the workspace crates.
//!
//! Used as RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc, the rest its
//! arguments.  Compiles as usual and, after analysis, writes
//! $MIRFACTS_OUT/<crate>-<type>.json with one record per function body.
#![feature(rustc_private)]

extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

mod dump;
mod json;

use rustc_driver::{Callbacks, Compilation};
use rustc_interface::interface;
use rustc_middle::ty::TyCtxt;

struct Cb;

impl Callbacks for Cb {
    fn after_analysis<'tcx>(
        &mut self,
        _compiler: &interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> Compilation {
        if let Ok(dir) = std::env::var("MIRFACTS_OUT") {
            dump::dump(tcx, &dir);
        }
        Compilation::Continue
    }
}

struct Plain;
impl Callbacks for Plain {}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // argv[1] is the path of the real compiler when used as a wrapper
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let probing = args.iter().any(|a| a == "--print" || a.starts_with("--print=") || a == "-vV");
    let crate_name = args
        .iter()
        .position(|a| a == "--crate-name")
        .and_then(|i| args.get(i + 1))
        .cloned()
        .unwrap_or_default();
    if probing || crate_name == "___" || crate_name == "build_script_build" {
        rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Plain))
    } else {
        args.push("-Zmir-opt-level=0".to_string());
        args.push("-Coverflow-checks=off".to_string());
        args.push("-Cdebug-assertions=off".to_string());
        rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Cb))
    }
}
