//! JSON output and decoding of registration statics.
use crate::domain::*;
use crate::engine::*;
use crate::mir::*;
use rustc_hir::def::DefKind;
use rustc_middle::mir::interpret::GlobalAlloc;
use rustc_middle::ty;

pub struct Reg {
    pub trait_ty: String,
    pub name: String,
    pub func: String,
    pub at: String,
    pub raw: String,
}

/// Every registration submitted in the analysed crate: decoded from the initialiser of its static.
pub fn statics(w: &mut World<'_>) -> Vec<Reg> {
    let tcx = w.tcx;
    let mut out = vec![];
    for d in tcx.hir_crate_items(()).definitions() {
        let d = d.to_def_id();
        if !matches!(tcx.def_kind(d), DefKind::Static { .. }) {
            continue;
        }
        let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
        let ty::Adt(ad, _) = t.kind() else { continue };
        if tcx.crate_name(ad.did().krate).as_str() != "inventory" {
            continue;
        }
        let (f, l) = w.loc(tcx.def_span(d));
        let at = format!("{f}:{l}");
        let Ok(alloc) = tcx.eval_static_initializer(d) else { continue };
        let mem = Mem::of(alloc);
        let mut reg = Reg { trait_ty: String::new(), name: "?".into(), func: "?".into(), at, raw: String::new() };
        // Node { value: &'static dyn ErasedNode, .. }
        for (_, aid, off) in &mem.ptrs {
            if let GlobalAlloc::VTable(vt, _) = tcx.global_alloc(*aid) {
                // find the data pointer next to it
                for (_, a2, o2) in &mem.ptrs {
                    let m2 = match tcx.global_alloc(*a2) {
                        GlobalAlloc::Memory(m) => Some(m),
                        GlobalAlloc::Static(d) => tcx.eval_static_initializer(d).ok(),
                        _ => None,
                    };
                    if let Some(m2) = m2 {
                        let _ = (off, o2);
                        let v = w.decode_pub(&Mem::of(m2), *o2 as usize, vt);
                        w.registered.push((vt, v.clone()));
                        reg.trait_ty = format!("{vt}");
                        fill(w, &v, &mut reg);
                    }
                }
            }
        }
        out.push(reg);
    }
    out
}

fn fill(w: &mut World<'_>, v: &V, r: &mut Reg) {
    match v {
        V::Str(t) => {
            if let TermV::Lit(s) = &**t {
                r.name = s.clone();
            }
        }
        V::Fn(i) => {
            r.func = w.fns[*i as usize].name.clone();
            let f = w.get(*i);
            // the concrete type: generic argument of the erased deserialize call in the registered function
            let mut tys = vec![];
            for b in &f.blocks {
                if let Term::Call { callee: Callee::Fn(c), .. } = &b.term {
                    let cf = w.fns[*c as usize].clone();
                    if cf.krate == "erased_serde" && cf.key == "de::deserialize" {
                        for t in &cf.targs {
                            tys.push(format!("{}", w.tys[*t as usize]));
                        }
                    }
                }
            }
            r.raw = tys.join(";");
        }
        V::Agg(_, f) => f.iter().for_each(|x| fill(w, x, r)),
        V::ConstRef(x, _) => fill(w, x, r),
        _ => {}
    }
}

/// The statics that analysed functions refer to, with what makes each of them mutable: (path, type, place, finding).
pub fn shared(w: &World<'_>) -> Vec<[String; 4]> {
    let tcx = w.tcx;
    let mut out = vec![];
    for (k, i) in &w.statics {
        let d = rustc_hir::def_id::DefId { krate: rustc_hir::def_id::CrateNum::from_u32(*k), index: rustc_hir::def_id::DefIndex::from_u32(*i) };
        if !matches!(tcx.crate_name(d.krate).as_str(), "typetag" | "verif_harness") {
            continue;
        }
        let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
        let t = tcx.normalize_erasing_regions(w.env, ty::Unnormalized::new_wip(t));
        let (f, l) = w.loc(tcx.def_span(d));
        let mut seen = Default::default();
        let mut why = String::new();
        if tcx.is_mutable_static(d) {
            why = "is a mutable static".into();
        } else if let ty::Adt(ad, ga) = t.kind() {
            let name = tcx.item_name(ad.did());
            let once = matches!(tcx.crate_name(ad.did().krate).as_str(), "once_cell" | "std" | "core")
                && matches!(name.as_str(), "OnceBox" | "OnceCell" | "OnceLock" | "OnceRef" | "OnceBool" | "OnceNonZeroUsize" | "LazyLock" | "Lazy");
            if once {
                for a in ga.types() {
                    if let Some(x) = interior(w, a, &mut seen, 0) {
                        why = format!("publishes something that can be modified: {x}");
                    }
                }
            } else if let Some(x) = Some(format!("{t}"))
                .filter(|n| ["Registry", "BTreeMap", "Vec<", "fn("].iter().any(|h| n.contains(h)))
                .and_then(|_| interior(w, t, &mut seen, 0))
            {
                why = format!("can be modified after it was read: {x}");
            }
        }
        out.push([tcx.def_path_str(d), format!("{t}"), format!("{f}:{l}"), why]);
    }
    out
}

/// a type with interior mutability reachable from a shared reference to `t`
fn interior<'tcx>(w: &World<'tcx>, t: ty::Ty<'tcx>, seen: &mut std::collections::HashSet<ty::Ty<'tcx>>, depth: usize) -> Option<String> {
    let tcx = w.tcx;
    if depth > 40 || !seen.insert(t) {
        return None;
    }
    match t.kind() {
        ty::Adt(ad, ga) => {
            if ad.is_unsafe_cell() {
                return Some(format!("{t}"));
            }
            if ad.is_phantom_data() {
                return None;
            }
            for a in ga.types() {
                if let Some(x) = interior(w, a, seen, depth + 1) {
                    return Some(if x.contains("UnsafeCell") { format!("{t}") } else { x });
                }
            }
            for f in ad.all_fields() {
                let ft = tcx.normalize_erasing_regions(w.env, f.ty(tcx, ga));
                if let Some(x) = interior(w, ft, seen, depth + 1) {
                    return Some(if x.contains("UnsafeCell") { format!("{t}") } else { x });
                }
            }
            None
        }
        ty::Ref(_, t, _) | ty::RawPtr(t, _) | ty::Slice(t) | ty::Array(t, _) => interior(w, *t, seen, depth + 1),
        ty::Tuple(ts) => ts.iter().find_map(|t| interior(w, t, seen, depth + 1)),
        _ => None,
    }
}

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn json(gs: &[Graph], sites: &[String], regs: &[Reg], shared: &[[String; 4]]) -> String {
    let mut s = String::from("{\n\"sites\":[");
    s.push_str(&sites.iter().map(|x| esc(x)).collect::<Vec<_>>().join(","));
    s.push_str("],\n\"registrations\":[");
    s.push_str(
        &regs
            .iter()
            .map(|r| {
                format!(
                    "{{\"type\":{},\"name\":{},\"func\":{},\"at\":{},\"concrete\":{}}}",
                    esc(&r.trait_ty),
                    esc(&r.name),
                    esc(&r.func),
                    esc(&r.at),
                    esc(&r.raw)
                )
            })
            .collect::<Vec<_>>()
            .join(","),
    );
    s.push_str("],\n\"statics\":[");
    s.push_str(&shared.iter().map(|x| format!("[{}]", x.iter().map(|y| esc(y)).collect::<Vec<_>>().join(","))).collect::<Vec<_>>().join(","));
    s.push_str("],\n\"graphs\":[\n");
    for (i, g) in gs.iter().enumerate() {
        if i > 0 {
            s.push_str(",\n");
        }
        let mut labels: Vec<&str> = vec![];
        let mut idx = std::collections::HashMap::new();
        let mut es = vec![];
        for e in &g.edges {
            let n = labels.len();
            let li = *idx.entry(e.label.as_str()).or_insert_with(|| n);
            if li == n {
                labels.push(&e.label);
            }
            es.push(format!("[{},{},{},{}]", e.from, e.to, li, e.site));
        }
        s.push_str(&format!(
            "{{\"root\":{},\"nodes\":{},\"steps\":{},\"calls\":{},\"error\":{},\"finals\":[{}],\"labels\":[{}],\"funs\":[{}],\"obs\":[{}],\"edges\":[{}]}}",
            esc(&g.root),
            g.nodes,
            g.steps,
            g.calls,
            g.error.as_ref().map(|e| esc(e)).unwrap_or("null".into()),
            g.finals.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","),
            labels.iter().map(|x| esc(x)).collect::<Vec<_>>().join(","),
            g.funs.iter().map(|x| esc(x)).collect::<Vec<_>>().join(","),
            g.obs.iter().map(|x| format!("[{},{},{}]", esc(&x.0), esc(&x.1), esc(&x.2))).collect::<Vec<_>>().join(","),
            es.join(",")
        ));
    }
    s.push_str("\n]}\n");
    s
}
