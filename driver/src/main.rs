#![feature(rustc_private)]
#![allow(clippy::all)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

mod domain;
mod engine;
mod mir;
mod natives;
mod opaque;
mod output;
mod safety;

use rustc_driver::{Callbacks, Compilation};
use rustc_interface::interface;
use rustc_middle::ty::{Instance, TyCtxt};
use std::io::Write;

struct Cb;

impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        analyse(tcx);
        Compilation::Stop
    }
}

fn analyse(tcx: TyCtxt<'_>) {
    let out = std::env::var("VERIF_OUT").unwrap_or_else(|_| "/dev/stdout".into());
    let want = std::env::var("VERIF_ROOTS").unwrap_or_default();
    let want: Vec<&str> = want.split(',').filter(|s| !s.is_empty()).collect();
    let max_nodes = std::env::var("VERIF_MAX_NODES").ok().and_then(|s| s.parse().ok()).unwrap_or(400_000);
    let mut w = mir::World::new(tcx);
    let mut roots = vec![];
    for d in tcx.hir_crate_items(()).definitions() {
        let d = d.to_def_id();
        if !matches!(tcx.def_kind(d), rustc_hir::def::DefKind::Fn) {
            continue;
        }
        let name = tcx.item_name(d).to_string();
        if name.starts_with("hook_") || name.starts_with("model_") {
            w.hooks.insert(name.clone(), d);
        }
        if let Some(r) = name.strip_prefix("root_") {
            let sel = want.is_empty() || want.iter().any(|w| r == *w || (w.ends_with('*') && r.starts_with(&w[..w.len() - 1])));
            if sel {
                roots.push((r.to_string(), d));
            }
        }
    }
    // what the property says first: without it, nothing is decided
    roots.sort_by_key(|a| (!a.0.starts_with("spec_"), a.0.clone()));
    let statics = output::statics(&mut w);
    let mut eng = engine::Engine {
        w: &mut w,
        max_nodes,
        until: std::time::Instant::now(),
        site_ids: Default::default(),
        sites: vec![String::new()],
        funs: Default::default(),
        calls: 0,
        steps: 0,
        obs: Default::default(),
        cur_line: 0,
        cur_call: 0,
 trace: std::env::var("VERIF_TRACE").is_ok(),
    };
    let mut graphs = vec![];
    let start = std::time::Instant::now();
    for (r, d) in roots {
        let inst = Instance::mono(tcx, d);
        let id = eng.w.fn_id(inst);
        let t = std::time::Instant::now();
        let left = std::env::var("VERIF_SECONDS").ok().and_then(|s| s.parse::<u64>().ok()).unwrap_or(400).saturating_sub(start.elapsed().as_secs());
        eng.until = t + std::time::Duration::from_secs(left.min(120).max(4));
        let mut g = eng.explore(&r, id);
        g.sites = vec![];
        eprintln!("root {r}: nodes {} edges {} steps {} {:?} {}", g.nodes, g.edges.len(), g.steps, t.elapsed(), g.error.clone().unwrap_or_default());
        graphs.push(g);
    }
    let sites = eng.sites.clone();
    let shared = output::shared(&w);
    let s = output::json(&graphs, &sites, &statics, &shared);
    let mut f = std::fs::File::create(&out).expect("VERIF_OUT");
    f.write_all(s.as_bytes()).unwrap();
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the path of rustc
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    if let Ok(dir) = std::env::var("VERIF_SAFETY") {
        let krate = args.windows(2).find(|w| w[0] == "--crate-name").map(|w| w[1].clone()).unwrap_or_default();
        if matches!(krate.as_str(), "typetag" | "typetag_impl" | "verif_harness") {
            struct Safety(String);
            impl Callbacks for Safety {
                fn after_analysis<'tcx>(&mut self, _c: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
                    std::fs::write(&self.0, safety::report(tcx)).expect("VERIF_SAFETY");
                    Compilation::Continue
                }
            }
            rustc_driver::compiler_entrypoint(&args, &mut Safety(format!("{dir}/{krate}")));
            return;
        }
    }
    let is_target = args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == "verif_harness") && std::env::var("VERIF_OUT").is_ok();
    if is_target {
        rustc_driver::compiler_entrypoint(&args, &mut Cb);
    } else {
        struct Nop;
        impl Callbacks for Nop {}
        rustc_driver::compiler_entrypoint(&args, &mut Nop);
    }
}
