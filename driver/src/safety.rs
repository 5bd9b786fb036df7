//! Inventory of unsafe code: every block, function, impl, trait, foreign item and attribute that the crate's source, or
//! an expansion of the typetag macros in it, marks as unsafe.
use rustc_hir as hir;
use rustc_hir::def_id::LOCAL_CRATE;
use rustc_hir::intravisit::{self, Visitor};
use rustc_middle::hir::nested_filter;
use rustc_middle::middle::codegen_fn_attrs::CodegenFnAttrFlags;
use rustc_middle::ty::TyCtxt;
use rustc_span::Span;

struct Walk<'tcx> {
    tcx: TyCtxt<'tcx>,
    own: bool,
    bodies: usize,
    blocks: usize,
    items: usize,
    out: Vec<(String, Span)>,
}

impl<'tcx> Walk<'tcx> {
    /// does typetag answer for the code at this place?
    fn ours(&self, s: Span) -> bool {
        match s.ctxt().outer_expn_data().macro_def_id {
            None => self.own,
            Some(m) => match self.tcx.crate_name(m.krate).as_str() {
                "typetag" | "typetag_impl" => true,
                // another crate's macro, used in typetag's own source, or by one of its expansions
                _ => false,
            },
        }
    }
    fn found(&mut self, what: &str, s: Span) {
        if self.ours(s) {
            self.out.push((what.into(), s));
        }
    }
    fn attrs(&mut self, id: hir::def_id::LocalDefId) {
        let d = id.to_def_id();
        use hir::def::DefKind::*;
        if !matches!(self.tcx.def_kind(d), Fn | AssocFn | Static { .. } | Closure) || self.tcx.is_foreign_item(d) {
            return;
        }
        let a = self.tcx.codegen_fn_attrs(d);
        if a.flags.contains(CodegenFnAttrFlags::NO_MANGLE) || a.symbol_name.is_some() {
            self.found("exported symbol", self.tcx.def_span(d));
        }
        if a.link_section.is_some() {
            self.found("link section", self.tcx.def_span(d));
        }
    }
}

impl<'tcx> Visitor<'tcx> for Walk<'tcx> {
    type NestedFilter = nested_filter::All;
    fn maybe_tcx(&mut self) -> TyCtxt<'tcx> {
        self.tcx
    }
    fn visit_block(&mut self, b: &'tcx hir::Block<'tcx>) {
        if self.ours(b.span) {
            self.blocks += 1;
        }
        if let hir::BlockCheckMode::UnsafeBlock(hir::UnsafeSource::UserProvided) = b.rules {
            self.found("unsafe block", b.span);
        }
        intravisit::walk_block(self, b);
    }
    fn visit_body(&mut self, b: &hir::Body<'tcx>) {
        self.bodies += 1;
        intravisit::walk_body(self, b);
    }
    fn visit_fn(&mut self, k: intravisit::FnKind<'tcx>, d: &'tcx hir::FnDecl<'tcx>, b: hir::BodyId, s: Span, id: hir::def_id::LocalDefId) {
        if let Some(h) = k.header() {
            if h.is_unsafe() {
                self.found("unsafe function", self.tcx.def_span(id));
            }
        }
        self.attrs(id);
        intravisit::walk_fn(self, k, d, b, id);
        let _ = s;
    }
    fn visit_item(&mut self, i: &'tcx hir::Item<'tcx>) {
        if self.ours(i.span) {
            self.items += 1;
        }
        match &i.kind {
            hir::ItemKind::Static(m, ..) => {
                if *m == hir::Mutability::Mut {
                    self.found("static mut", i.span);
                }
                self.attrs(i.owner_id.def_id);
            }
            hir::ItemKind::ForeignMod { .. } => self.found("foreign items", i.span),
            hir::ItemKind::GlobalAsm { .. } => self.found("global assembly", i.span),
            hir::ItemKind::Trait { .. } => {
                if self.tcx.trait_def(i.owner_id.to_def_id()).safety.is_unsafe() {
                    self.found("unsafe trait", i.span);
                }
            }
            hir::ItemKind::Impl(x) => {
                if let Some(t) = x.of_trait {
                    if t.safety.is_unsafe() {
                        self.found("unsafe impl", i.span);
                    }
                }
            }
            _ => {}
        }
        intravisit::walk_item(self, i);
    }
    fn visit_trait_item(&mut self, i: &'tcx hir::TraitItem<'tcx>) {
        if let hir::TraitItemKind::Fn(sig, _) = &i.kind {
            if sig.header.is_unsafe() {
                self.found("unsafe function", i.span);
            }
        }
        intravisit::walk_trait_item(self, i);
    }
}

/// one line per finding, preceded by what was examined
pub fn report(tcx: TyCtxt<'_>) -> String {
    let krate = tcx.crate_name(LOCAL_CRATE);
    let own = matches!(krate.as_str(), "typetag" | "typetag_impl");
    let mut w = Walk { tcx, own, bodies: 0, blocks: 0, items: 0, out: vec![] };
    tcx.hir_walk_toplevel_module(&mut w);
    let mut s = format!("{} {} {} {}\n", krate, w.items, w.bodies, w.blocks);
    let mut seen = std::collections::BTreeSet::new();
    for (what, sp) in w.out {
        let site = sp.source_callsite();
        let lo = tcx.sess.source_map().lookup_char_pos(site.lo());
        let by = sp.ctxt().outer_expn_data().macro_def_id.map(|m| tcx.def_path_str(m)).unwrap_or_default();
        let l = format!("{}\t{}:{}\t{}\n", what, lo.file.name.prefer_local_unconditionally(), lo.line, by);
        if seen.insert(l.clone()) {
            s.push_str(&l);
        }
    }
    s
}
