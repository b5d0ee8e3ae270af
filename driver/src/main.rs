#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;
extern crate rustc_abi;
extern crate rustc_ast;
extern crate rustc_attr_ir;
extern crate rustc_session;
extern crate rustc_data_structures;

mod dump;

use std::cell::RefCell;
use rustc_driver::{Callbacks, Compilation};
use rustc_interface::interface;
use rustc_middle::mir::Body;
use rustc_middle::ty::TyCtxt;
use rustc_hir::def_id::LocalDefId;
use rustc_data_structures::steal::Steal;

thread_local! {
    pub static STASH: RefCell<Vec<(LocalDefId, Body<'static>)>> = const { RefCell::new(Vec::new()) };
}

type MirBuilt = for<'tcx> fn(TyCtxt<'tcx>, LocalDefId) -> &'tcx Steal<Body<'tcx>>;
static ORIG: std::sync::OnceLock<MirBuilt> = std::sync::OnceLock::new();

fn my_mir_built<'tcx>(tcx: TyCtxt<'tcx>, def: LocalDefId) -> &'tcx Steal<Body<'tcx>> {
    let r = (ORIG.get().unwrap())(tcx, def);
    let b: Body<'tcx> = r.borrow().clone();
    let b: Body<'static> = unsafe { std::mem::transmute(b) };
    STASH.with(|s| s.borrow_mut().push((def, b)));
    r
}

struct Cb { out: Option<String> }

impl Callbacks for Cb {
    fn config(&mut self, config: &mut interface::Config) {
        if self.out.is_some() {
            config.override_queries = Some(|_sess, providers| {
                let _ = ORIG.set(providers.queries.mir_built);
                providers.queries.mir_built = my_mir_built;
            });
        }
    }
    fn after_expansion<'tcx>(&mut self, _c: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        if let Some(out) = &self.out {
            dump::dump(tcx, out);
        }
        Compilation::Continue
    }
}

fn main() {
    // Used as RUSTC_WORKSPACE_WRAPPER: argv = [driver, rustc, args...]
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    let mut crate_name = None;
    let mut is_build_script = false;
    for w in args.windows(2) {
        if w[0] == "--crate-name" {
            crate_name = Some(w[1].clone());
            if w[1].starts_with("build_script") { is_build_script = true; }
        }
    }
    let out = match (std::env::var("VFACTS_DIR"), crate_name) {
        (Ok(d), Some(c)) if !is_build_script && !args.iter().any(|a| a == "--print" || a == "-vV") => Some(format!("{d}/{c}")),
        _ => None,
    };
    let mut cb = Cb { out };
    rustc_driver::install_ice_hook("", |_| ());
    std::process::exit(rustc_driver::catch_with_exit_code(|| {
        rustc_driver::compiler_entrypoint(&args, &mut cb);
    }).into_exit());
}

trait IntoExit { fn into_exit(self) -> i32; }
impl IntoExit for i32 { fn into_exit(self) -> i32 { self } }
impl IntoExit for std::process::ExitCode { fn into_exit(self) -> i32 { if self == std::process::ExitCode::SUCCESS { 0 } else { 1 } } }
