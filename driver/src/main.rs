//! rustc driver: dumps, for every library crate of the workspace under analysis, the resolved and
//! (where possible) monomorphised MIR of all local functions, closures, promoteds and everything they
//! call inside the workspace, plus an item table (types, fields, derives/impls, attributes), as JSON.
#![feature(rustc_private)]
#![allow(clippy::all)]

extern crate rustc_abi;
extern crate rustc_ast;
extern crate rustc_attr_ir;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;
extern crate rustc_type_ir;

mod dump;

use rustc_driver::Compilation;
use rustc_interface::interface;
use rustc_middle::ty::TyCtxt;

struct Cb {
    out: String,
}

impl rustc_driver::Callbacks for Cb {
    fn config(&mut self, config: &mut interface::Config) {
        config.opts.unstable_opts.mir_opt_level = Some(0);
        config.opts.unstable_opts.always_encode_mir = true;
    }
    fn after_analysis<'tcx>(
        &mut self,
        _compiler: &interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> Compilation {
        let json = dump::dump_crate(tcx);
        let name = tcx.crate_name(rustc_span::def_id::LOCAL_CRATE).to_string();
        let path = format!("{}/{}.json", self.out, name);
        std::fs::write(&path, json).expect("write dump");
        Compilation::Continue
    }
}

struct Plain;
impl rustc_driver::Callbacks for Plain {
    fn config(&mut self, config: &mut interface::Config) {
        config.opts.unstable_opts.always_encode_mir = true;
    }
}

fn main() {
    // cargo calls: mirdump <rustc> <args...>
    let mut args: Vec<String> = std::env::args().skip(1).collect();
    if args.is_empty() {
        eprintln!("mirdump is a RUSTC_WORKSPACE_WRAPPER");
        std::process::exit(2);
    }
    let crate_name = args
        .iter()
        .position(|a| a == "--crate-name")
        .and_then(|i| args.get(i + 1).cloned());
    let is_test = args.iter().any(|a| a == "--test");
    let is_lib = args.windows(2).any(|w| w[0] == "--crate-type" && (w[1] == "lib" || w[1] == "rlib"));
    let out = std::env::var("MIRDUMP_OUT").ok();
    args[0] = "rustc".to_string();
    match (crate_name, out) {
        (Some(n), Some(out)) if n != "___" && is_lib && !is_test => {
            let mut cb = Cb { out };
            rustc_driver::compiler_entrypoint(&args, &mut cb);
        }
        _ => {
            rustc_driver::compiler_entrypoint(&args, &mut Plain);
        }
    }
}
