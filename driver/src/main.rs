#![feature(rustc_private)]
#![allow(dead_code)]
extern crate rustc_abi;
extern crate rustc_ast;
extern crate rustc_attr_ir;
extern crate rustc_crate_store;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_index;
extern crate rustc_infer;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;
extern crate rustc_trait_selection;

mod builtin;
mod derive;
mod eng;
mod headers;
mod lin;
mod mac;
mod msrv;
mod panics;
mod prims;
mod report;
mod spec;
mod term;
mod val;
mod widen;

use rustc_data_structures::steal::Steal;
use rustc_driver::{Callbacks, Compilation};
use rustc_index::IndexVec;
use rustc_interface::interface;
use rustc_middle::mir::{Body, Promoted};
use rustc_middle::ty::TyCtxt;
use rustc_span::def_id::LocalDefId;
use std::cell::RefCell;
use std::collections::HashMap;
use std::sync::OnceLock;

type PromotedFn = for<'tcx> fn(
    TyCtxt<'tcx>,
    LocalDefId,
) -> (
    &'tcx Steal<Body<'tcx>>,
    &'tcx Steal<IndexVec<Promoted, Body<'tcx>>>,
);
static ORIG: OnceLock<PromotedFn> = OnceLock::new();

thread_local! {
    static BODIES: RefCell<HashMap<LocalDefId, &'static Body<'static>>> = RefCell::new(HashMap::new());
}

fn my_mir_promoted<'tcx>(
    tcx: TyCtxt<'tcx>,
    def: LocalDefId,
) -> (
    &'tcx Steal<Body<'tcx>>,
    &'tcx Steal<IndexVec<Promoted, Body<'tcx>>>,
) {
    let r = ORIG.get().unwrap()(tcx, def);
    let b: Body<'tcx> = r.0.borrow().clone();
    // the clone is only used while `tcx` is alive
    let b: &'static Body<'static> =
        unsafe { std::mem::transmute::<&'tcx Body<'tcx>, _>(tcx.arena.alloc(b)) };
    BODIES.with(|m| m.borrow_mut().insert(def, b));
    r
}

struct Cb {
    analyse: bool,
}

impl Callbacks for Cb {
    fn config(&mut self, config: &mut interface::Config) {
        if self.analyse {
            // bodies taken from an earlier session would not pass through `my_mir_promoted`
            config.opts.incremental = None;
            config.override_queries = Some(|_, p| {
                ORIG.set(p.queries.mir_promoted).ok();
                p.queries.mir_promoted = my_mir_promoted;
            });
        }
    }
    fn after_expansion<'tcx>(&mut self, _c: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        if self.analyse {
            msrv::syntax(tcx);
        }
        Compilation::Continue
    }
    fn after_analysis<'tcx>(&mut self, _c: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        if self.analyse {
            // make sure every body has been built
            for d in tcx.hir_body_owners() {
                tcx.ensure_ok().mir_promoted(d);
            }
            let bodies: HashMap<LocalDefId, &'tcx Body<'tcx>> = BODIES.with(|m| {
                m.borrow()
                    .iter()
                    .map(|(k, v)| (*k, unsafe { std::mem::transmute::<&'static Body<'static>, &'tcx Body<'tcx>>(*v) }))
                    .collect()
            });
            let bodies = std::rc::Rc::new(bodies);
            msrv::items(tcx);
            let krate = tcx.crate_name(rustc_span::def_id::LOCAL_CRATE);
            match krate.as_str() {
                "funcmap" => {
                    headers::run(tcx);
                    builtin::run(tcx, bodies)
                }
                "funcmap_derive" => mac::run(tcx, &bodies),
                k if k.starts_with("fv_wit") => {
                    derive::run(tcx, bodies);
                    return Compilation::Stop;
                }
                _ => {}
            }
        }
        Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    // invoked as RUSTC_WRAPPER: argv = [driver, rustc, args...]
    let args: Vec<String> = std::env::args().skip(1).collect();
    let name = args
        .iter()
        .position(|a| a == "--crate-name")
        .and_then(|i| args.get(i + 1))
        .cloned()
        .unwrap_or_default();
    let targets = std::env::var("FMV_CRATES").unwrap_or_default();
    let analyse = targets.split(',').any(|t| !t.is_empty() && t == name);
    let mut cb = Cb { analyse };
    rustc_driver::install_ice_hook("none", |_| ());
    let code: std::process::ExitCode = rustc_driver::catch_with_exit_code(|| {
        rustc_driver::compiler_entrypoint(&args, &mut cb)
    });
    code
}
