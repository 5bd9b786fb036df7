//! Abstract models of the standard library, the registry crate and the harness intrinsics.
use crate::domain::*;
use crate::engine::*;
use crate::mir::*;
use rustc_middle::ty;
use std::collections::BTreeMap;
use std::rc::Rc;

/// The strings that the environment and the model programs give names to.
const NAMED: &[&str] = &["type", "data", "value", "A", "B", "dup", "Tr"];

impl<'a, 'tcx> Engine<'a, 'tcx> {
    /// follow references until a string is found
    pub fn as_str(&mut self, st: &mut State, v: &V) -> Option<Rc<TermV>> {
        let mut cur = v.clone();
        for _ in 0..6 {
            match &cur {
                V::Str(t) | V::OStr(t) => return Some(t.clone()),
                V::Ptr(..) | V::ConstRef(..) | V::Static(_) => {
                    let l = self.deref(st, &cur).ok()?;
                    let n = match &l {
                        Loc::Deref(V::ConstRef(..)) => return None,
                        _ => self.read(st, &l).ok()?,
                    };
                    cur = n;
                }
                // Cow<str>, Option-free wrappers with one string inside
                V::Agg(_, f) if f.len() == 1 => {
                    cur = f[0].clone();
                }
                _ => return None,
            }
        }
        None
    }

    fn cow_or_str(&mut self, st: &mut State, v: &V) -> Option<Rc<TermV>> {
        self.as_str(st, v)
    }

    fn scalar(&mut self, st: &mut State, v: &V) -> Option<V> {
        let mut cur = v.clone();
        for _ in 0..6 {
            match &cur {
                V::Int(_) | V::Term(_) => return Some(cur),
                V::Ptr(..) | V::ConstRef(..) => {
                    let l = self.deref(st, &cur).ok()?;
                    cur = self.read(st, &l).ok()?;
                }
                _ => return None,
            }
        }
        None
    }

    pub fn load(&mut self, st: &mut State, p: &V) -> Result<V, String> {
        let l = self.deref(st, p)?;
        self.read(st, &l)
    }
    pub fn store(&mut self, st: &mut State, p: &V, v: V) -> Result<(), String> {
        let l = self.deref(st, p)?;
        self.write(st, &l, v)
    }

    /// pointers to the elements of a slice or vector: (is_star, pointer)
    fn elems(&mut self, st: &mut State, p: &V) -> Result<Vec<(bool, V)>, String> {
        let mut p = p.clone();
        for _ in 0..4 {
            let l = self.deref(st, &p)?;
            match l {
                Loc::Cell(c, path, m) => {
                    let v = self.read(st, &Loc::Cell(c, path.clone(), m))?;
                    let (n, stars) = match &v {
                        V::Agg(_, f) => (f.len(), vec![]),
                        V::Vec(s) => (s.len(), s.iter().map(|x| matches!(x, Seg::Star(_))).collect()),
                        V::Ptr(..) | V::ConstRef(..) => {
                            p = v;
                            continue;
                        }
                        _ => return Err(format!("elements of {:?}", v)),
                    };
                    let (a, b) = match m {
                        Meta::Range(a, b) => (a as usize, b as usize),
                        _ => (0, n),
                    };
                    let mut out = vec![];
                    for i in a..b {
                        let mut q = path.clone();
                        q.push(i as u32);
                        out.push((stars.get(i).copied().unwrap_or(false), V::Ptr(c, Rc::new(q), Meta::None)));
                    }
                    return Ok(out);
                }
                Loc::Deref(V::ConstRef(v, m)) => {
                    let V::Agg(_, f) = &*v else { return Err("const elements".into()) };
                    let (a, b) = match m {
                        Meta::Range(a, b) => (a as usize, b as usize),
                        _ => (0, f.len()),
                    };
                    return Ok(f[a..b].iter().map(|x| (false, V::ConstRef(Rc::new(x.clone()), Meta::None))).collect());
                }
                Loc::Const(V::Agg(_, f)) => {
                    return Ok(f.iter().map(|x| (false, V::ConstRef(Rc::new(x.clone()), Meta::None))).collect());
                }
                _ => return Err("elements".into()),
            }
        }
        Err("elements".into())
    }

    fn is_string_ty(&self, t: TyId) -> u8 {
        let tcx = self.w.tcx;
        match self.w.tys[t as usize].kind() {
            ty::Ref(_, p, _) => match p.kind() {
                ty::Str => 1,
                ty::Slice(e) if *e == tcx.types.u8 => 1,
                _ => 0,
            },
            ty::Adt(d, args) => {
                let n = tcx.item_name(d.did());
                if n.as_str() == "String" {
                    2
                } else if n.as_str() == "Vec" && args.types().next() == Some(tcx.types.u8) {
                    2
                } else {
                    0
                }
            }
            _ => 0,
        }
    }

    fn mk_tok(&self, t: TyId, name: String) -> V {
        let tm = Rc::new(TermV::App(format!("tok:{name}"), vec![]));
        match self.is_string_ty(t) {
            1 => V::Str(tm),
            2 => V::OStr(tm),
            _ => V::Term(tm),
        }
    }

    fn lit(&mut self, st: &mut State, v: &V) -> String {
        self.as_str(st, v).as_deref().and_then(lit_text).unwrap_or("?").into()
    }

    fn hook(&mut self, name: &str, fun: &Fun, args: &[V]) -> Option<Out> {
        let d = *self.w.hooks.get(name)?;
        let ts: Vec<_> = fun.targs.iter().map(|t| ty::GenericArg::from(self.w.tys[*t as usize])).collect();
        let ga = self.w.tcx.mk_args(&ts);
        let inst = resolve_hook(self.w, d, ga)?;
        let id = self.w.fn_id(inst);
        Some(Out::Call(id, args.to_vec()))
    }

    pub fn string_eq(&mut self, st: &State, a: &Rc<TermV>, b: &Rc<TermV>) -> Option<bool> {
        fn base(t: &TermV) -> bool {
            matches!(t, TermV::App(h, a) if h.starts_with("tok:") && a.is_empty())
        }
        fn num(t: &TermV) -> Option<&str> {
            // tokens carrying `=lit` denote that literal
            match t {
                TermV::App(h, _) => h.split_once('=').map(|x| x.1),
                TermV::Lit(s) => Some(s),
            }
        }
        fn sym(t: &TermV) -> bool {
            matches!(t, TermV::App(h, _) if h.starts_with("sym:"))
        }
        // a literal that stands for any string: equal to itself, unlike the environment's other strings
        if sym(a) || sym(b) {
            let (s, t) = if sym(a) { (a, b) } else { (b, a) };
            return match &**t {
                _ if s == t => Some(true),
                TermV::App(h, x) if h.starts_with("tok:") && x.is_empty() => Some(num(t) == lit_text(s)),
                _ => None,
            };
        }
        if let (Some(x), Some(y)) = (num(a), num(b)) {
            return Some(x == y);
        }
        match (&**a, &**b) {
            (TermV::Lit(x), TermV::Lit(y)) => Some(x == y),
            // another string than the ones the environment gives names to; any other literal it may equal
            (TermV::Lit(l), t) | (t, TermV::Lit(l)) if base(t) => {
                if NAMED.contains(&l.as_str()) {
                    Some(false)
                } else {
                    None
                }
            }
            _ if a == b && !is_summary(st, &V::Str(a.clone()), 0) => Some(true),
            (x, y) if (base(x) && num(y).is_some()) || (base(y) && num(x).is_some()) => Some(false),
            _ => None,
        }
    }

    /// The capacity requested for a collection: anything not derived from data already held is noted.
    fn note_capacity(&mut self, st: &State, v: &V, fun: &Fun) {
        if !matches!(v, V::Int(_)) && !held(st, v) {
            let mut where_ = String::new();
            for fr in st.frames.iter().rev() {
                let f = self.w.fns[fr.f as usize].clone();
                if !f.std {
                    where_ = format!("{}:{} {}", f.file, self.cur_line, f.name);
                    break;
                }
            }
            self.obs.insert(("capacity".into(), format!("{} in {}", self.desc(st, v, 0), fun.key), where_));
        }
    }

    fn push_vec(&mut self, st: &mut State, vecp: &V, x: V) -> Result<(), String> {
        let v = self.load(st, vecp)?;
        match v {
            V::Vec(s) => {
                let mut s = (*s).clone();
                // elements that have become the same since they were told apart
                while s.len() > 1 {
                    let (a, b) = (&s[s.len() - 2], &s[s.len() - 1]);
                    if !(is_summary(st, b.v(), 0) && same_struct(st, a.v(), b.v(), 0)) {
                        break;
                    }
                    s.pop();
                    let l = s.pop().unwrap();
                    s.push(Seg::Star(l.v().clone()));
                }
                let mut folded = false;
                if let Some(last) = s.last() {
                    if is_summary(st, &x, 0) && same_struct(st, last.v(), &x, 0) {
                        folded = true;
                    }
                }
                if folded {
                    let l = s.pop().unwrap();
                    // and what was told apart of the same elements before
                    while s.last().is_some_and(|b| same_struct(st, b.v(), l.v(), 0)) {
                        s.pop();
                    }
                    s.push(Seg::Star(l.v().clone()));
                } else {
                    s.push(Seg::One(x));
                }
                self.store(st, vecp, V::Vec(Rc::new(s)))
            }
            // byte buffers are treated like strings
            V::OStr(t) => {
                let nt = TermV::App("concat".into(), vec![V::Str(t), x]);
                self.store(st, vecp, V::OStr(Rc::new(nt)))
            }
            _ => Err(format!("push onto {:?}", v)),
        }
    }

    fn pop_front(&mut self, st: &State, segs: &Rc<Vec<Seg>>, back: bool) -> Vec<(V, Rc<Vec<Seg>>)> {
        let _ = st;
        if segs.is_empty() {
            return vec![];
        }
        let i = if back { segs.len() - 1 } else { 0 };
        let mut rest = (**segs).clone();
        match rest[i].clone() {
            Seg::One(v) => {
                rest.remove(i);
                vec![(v, Rc::new(rest))]
            }
            Seg::Star(v) => {
                let more = Rc::new(rest.clone());
                rest.remove(i);
                vec![(v.clone(), Rc::new(rest)), (v, more)]
            }
        }
    }

    /// Called from one of the models, which go through a sequence in loops of their own?
    fn in_model(&self, st: &State) -> bool {
        st.frames.last().is_some_and(|f| self.w.fns[f.f as usize].key.starts_with("models::"))
    }

    /// The ways to tell element `n` of a sequence apart: the sequence with it as a piece of its own, and which
    /// piece that is. None: there is no such element.
    fn at(segs: &[Seg], n: usize) -> Vec<Option<(Vec<Seg>, usize)>> {
        fn go(segs: &[Seg], i: usize, rem: Option<usize>, out: &mut Vec<Option<(Vec<Seg>, usize)>>, seen: &mut Vec<(usize, Option<usize>)>) {
            if seen.contains(&(i, rem)) {
                return;
            }
            seen.push((i, rem));
            let Some(seg) = segs.get(i) else {
                out.push(None);
                return;
            };
            let here = matches!(rem, None | Some(0));
            match seg {
                Seg::One(_) => {
                    if here {
                        out.push(Some((segs.to_vec(), i)));
                    }
                    if rem != Some(0) {
                        go(segs, i + 1, rem.map(|r| r - 1), out, seen);
                    }
                }
                Seg::Star(v) => {
                    let mut with = |before: bool, after: bool| {
                        let mut s = segs[..i].to_vec();
                        if before {
                            s.push(Seg::Star(v.clone()));
                        }
                        let at = s.len();
                        s.push(Seg::One(v.clone()));
                        if after {
                            s.push(Seg::Star(v.clone()));
                        }
                        s.extend_from_slice(&segs[i + 1..]);
                        out.push(Some((s, at)));
                    };
                    for before in [false, true] {
                        if before && rem != Some(0) || !before && here {
                            with(before, false);
                            with(before, true);
                        }
                    }
                    match rem {
                        Some(0) => {}
                        Some(r) if r <= 8 => {
                            for m in 1..=r {
                                go(segs, i + 1, Some(r - m), out, seen);
                            }
                        }
                        _ => go(segs, i + 1, None, out, seen),
                    }
                }
            }
        }
        let mut out = vec![];
        go(segs, 0, Some(n), &mut out, &mut vec![]);
        // that there is no such element shows in the sequences told apart in full
        if segs.iter().any(|x| matches!(x, Seg::Star(_))) && out.iter().any(|x| x.is_some()) {
            let beyond = out.iter().position(|x| x.is_none());
            out.retain(|x| x.is_some());
            if beyond.is_some() {
                out.push(None);
            }
        }
        out
    }

    fn fmt_shown(&mut self, st: &mut State, v: &V) -> V {
        if let Some(t) = self.as_str(st, v) {
            return V::Str(t);
        }
        let mut cur = v.clone();
        for _ in 0..6 {
            match &cur {
                V::Nat("fmt", _) | V::Int(_) | V::Term(_) => return cur,
                V::Ptr(..) | V::ConstRef(..) => match self.load(st, &cur) {
                    Ok(x) => cur = x,
                    Err(_) => break,
                },
                V::Agg(0, f) if f.len() == 1 => cur = f[0].clone(),
                _ => break,
            }
        }
        let d = self.desc(st, &cur, 0);
        V::term(&d, vec![])
    }

    /// What an error message is made of: either another error (passed on unchanged), or the set of
    /// values it mentions. The wording is not represented.
    fn mentions(&mut self, st: &mut State, v: &V) -> V {
        let mut cur = v.clone();
        for _ in 0..12 {
            match &cur {
                V::Term(t) => match &**t {
                    TermV::App(h, a) if (h == "custom" || h == "to_string" || h == "fmt") && a.len() == 1 => cur = a[0].clone(),
                    _ => break,
                },
                V::OStr(t) | V::Str(t) => match &**t {
                    TermV::App(h, a) if (h == "custom" || h == "to_string" || h == "fmt") && a.len() == 1 => cur = a[0].clone(),
                    _ => break,
                },
                V::Agg(0, f) if f.len() == 1 => cur = f[0].clone(),
                V::Nat("fmt", f) if f.len() == 1 && is_err_term(&strip1(&f[0])) => cur = f[0].clone(),
                V::Ptr(..) | V::ConstRef(..) => match self.load(st, &cur) {
                    Ok(x) => cur = x,
                    Err(_) => break,
                },
                _ => break,
            }
        }
        if is_err_term(&cur) {
            return cur;
        }
        let mut out = std::collections::BTreeSet::new();
        self.flatten_msg(st, &cur, &mut out, 0);
        V::term("message", out.into_iter().map(|s| V::term(&s, vec![])).collect())
    }

    fn flatten_msg(&mut self, st: &mut State, v: &V, out: &mut std::collections::BTreeSet<String>, depth: usize) {
        if depth > 10 {
            return;
        }
        match v {
            V::Nat("fmt", f) | V::Agg(_, f) => {
                for x in f.iter() {
                    self.flatten_msg(st, x, out, depth + 1)
                }
            }
            // literal text of the message
            V::Nat("text", _) => {}
            V::Term(t) | V::Str(t) | V::OStr(t) => match &**t {
                TermV::App(h, a) if matches!(h.as_str(), "custom" | "fmt" | "to_string" | "message" | "concat" | "concat*") => {
                    for x in a {
                        self.flatten_msg(st, x, out, depth + 1)
                    }
                }
                _ => {
                    let d = self.desc(st, v, 0);
                    out.insert(d);
                }
            },
            V::Ptr(_, _, Meta::Dyn(_)) => {}
            V::Ptr(..) | V::ConstRef(..) => {
                if let Ok(x) = self.load(st, v) {
                    self.flatten_msg(st, &x, out, depth + 1)
                }
            }
            _ => {}
        }
    }

    /// A part of the concrete value captured by the code under analysis: induction on its structure
    /// replaces interpretation.
    fn captured(&mut self, st: &mut State, fun: &Rc<Fun>, args: &[V]) -> Option<Out> {
        let key = fun.key.as_str();
        if key.ends_with("Serialize::serialize") && args.len() == 2 {
            let mut cur = args[0].clone();
            for _ in 0..6 {
                match &cur {
                    V::Ptr(..) | V::ConstRef(..) => cur = self.load(st, &cur).ok()?,
                    _ => break,
                }
            }
            captured_term(&cur)?;
            let s = *fun.targs.last()?;
            return Some(self.hook_with("hook_captured_ser", &[s], vec![cur, args[1].clone()]));
        }
        if key.contains("Deserializer::deserialize_") && args.len() >= 2 {
            let V::Agg(_, f) = &args[0] else { return None };
            let mut c = None;
            for x in f.iter() {
                let mut cur = x.clone();
                if let V::Ptr(..) | V::ConstRef(..) = cur {
                    if let Ok(y) = self.load(st, &cur) {
                        cur = y;
                    }
                }
                if captured_term(&cur).is_some() {
                    c = Some(cur);
                }
            }
            let c = c?;
            let v = *fun.targs.last()?;
            let m = key.rsplit("deserialize_").next()?.to_string();
            let visitor = args.last()?.clone();
            return Some(self.hook_with("hook_captured", &[v], vec![c, V::str_lit(&m), visitor]));
        }
        None
    }

    fn hook_with(&mut self, name: &str, targs: &[TyId], args: Vec<V>) -> Out {
        let Some(d) = self.w.hooks.get(name).copied() else { return Out::End(format!("UNMODELLED {name} missing")) };
        let ts: Vec<_> = targs.iter().map(|t| ty::GenericArg::from(self.w.tys[*t as usize])).collect();
        let ga = self.w.tcx.mk_args(&ts);
        match resolve_hook(self.w, d, ga) {
            Some(i) => Out::Call(self.w.fn_id(i), args),
            None => Out::End(format!("UNMODELLED {name} cannot be instantiated")),
        }
    }

    pub fn native(&mut self, st: &mut State, id: FnId, fun: &Rc<Fun>, args: &mut Vec<V>) -> Out {
        match self.native_inner(st, id, fun, args) {
            Ok(Out::NotNative) => self.opaque_call(st, id, fun, args, true).unwrap_or(Out::NotNative),
            Ok(o) => o,
            Err(e) => self.opaque_call(st, id, fun, args, false).unwrap_or_else(|| Out::End(format!("UNMODELLED {} in model of {} [{}]", e, fun.name, fun.key))),
        }
    }

    /// The default body of the trait method that the called method overrides.
    pub fn trait_default(&mut self, id: FnId) -> Option<FnId> {
        let tcx = self.w.tcx;
        let inst = self.w.instances[id as usize];
        let d = inst.def_id();
        let imp = tcx.impl_of_assoc(d)?;
        let tr = tcx.impl_opt_trait_ref(imp)?;
        let item = tcx.associated_item(d).trait_item_def_id()?;
        if !tcx.is_mir_available(item) {
            return None;
        }
        let tr = tr.instantiate(tcx, inst.args).skip_norm_wip();
        let a = inst.args.rebase_onto(tcx, imp, tr.args);
        let a = tcx.normalize_erasing_regions(self.w.env, rustc_middle::ty::Unnormalized::new_wip(a));
        Some(self.w.fn_id(ty::Instance::new_raw(item, a)))
    }

    fn native_inner(&mut self, st: &mut State, id: FnId, fun: &Rc<Fun>, args: &mut Vec<V>) -> Result<Out, String> {
        let key = fun.key.as_str();
        self.cur_call = id;
        {
            // constructors used as functions
            let tcx = self.w.tcx;
            let d = self.w.instances[id as usize].def_id();
            if let rustc_hir::def::DefKind::Ctor(of, _) = tcx.def_kind(d) {
                let v = match of {
                    rustc_hir::def::CtorOf::Struct => 0,
                    rustc_hir::def::CtorOf::Variant => {
                        let var = tcx.parent(d);
                        let adt = tcx.adt_def(tcx.parent(var));
                        adt.variant_index_with_id(var).as_u32()
                    }
                };
                return Ok(Out::Val(V::agg(v, args.clone())));
            }
        }
        if fun.krate == "verif_harness" {
            if let Some(k) = key.strip_prefix("rt::") {
                return self.rt(st, k, fun, args);
            }
        }
        if let Some(o) = self.captured(st, fun, args) {
            return Ok(o);
        }
        if fun.krate == "verif_harness" {
            return Ok(Out::NotNative);
        }
        if fun.krate == "erased_serde" {
            if key == "ser::serialize" && fun.targs.len() == 2 {
                return self.hook("hook_erased_serialize", fun, args).ok_or("hook_erased_serialize".into());
            }
            if key == "de::deserialize" {
                return self.hook("hook_erased_deserialize", fun, args).ok_or("hook_erased_deserialize".into());
            }
            if key == "Error::Error::custom" {
                let s = self.fmt_shown(st, &args[0].clone());
                return Ok(Out::Val(V::agg(0, vec![V::term("custom", vec![s])])));
            }
            return Ok(Out::NotNative);
        }
        if fun.krate == "inventory" {
            if key.ends_with("Iterator::next") {
                return self.hook("hook_inventory_next", fun, args).ok_or("hook_inventory_next".into());
            }
            if key.ends_with("IntoIterator::into_iter") || key == "inventory::into_iter" || key.ends_with("::into_iter") {
                return Ok(Out::Val(V::agg(0, vec![V::Int(0)])));
            }
            return Ok(Out::NotNative);
        }
        if fun.krate == "once_cell" || (fun.std && (key.starts_with("OnceLock::") || key.starts_with("OnceCell::") || key.starts_with("LazyLock::"))) {
            let kind = if key.starts_with("OnceBox") { "box" } else if key.starts_with("OnceRef") { "ref" } else { "cell" };
            let name = match key.rsplit("::").next().unwrap_or("") {
                "get_or_init" => match kind {
                    "box" => "hook_once_box",
                    "ref" => "hook_once_ref",
                    _ => "hook_once_cell",
                },
                "get_or_try_init" if kind == "box" => "hook_once_box_try",
                "get" => "hook_once_get",
                "set" if kind == "box" => "hook_once_box_set",
                "set" if kind == "cell" => "hook_once_cell_set",
                _ => "",
            };
            if !name.is_empty() {
                return self.hook(name, fun, args).ok_or("once hook".into());
            }
            if key.ends_with("::new") {
                return Ok(Out::Val(V::term("once", vec![])));
            }
            return Ok(Out::NotNative);
        }
        if !fun.std {
            return Ok(Out::NotNative);
        }
        self.std_model(st, fun, args)
    }

    // ------------------------------------------------------------ harness intrinsics
    fn rt(&mut self, st: &mut State, k: &str, fun: &Rc<Fun>, args: &mut Vec<V>) -> Result<Out, String> {
        Ok(match k {
            "choose" => {
                let el = self.elems(st, &args[0].clone())?;
                let mut alts = vec![];
                for (i, (_, p)) in el.into_iter().enumerate() {
                    let l = self.lit(st, &p);
                    alts.push((l, st.clone(), V::Int(i as i128)));
                }
                Out::Alts(alts)
            }
            "nondet" => {
                let V::Int(n) = args[0] else { return Err("nondet".into()) };
                Out::Alts((0..n).map(|i| (String::new(), st.clone(), V::Int(i))).collect())
            }
            "ev" => {
                let l = self.lit(st, &args[0].clone());
                let d = self.desc(st, &args[1], 0);
                let d = if d == "()" { String::new() } else { d };
                Out::Event(format!("{l}{d}"), V::unit())
            }
            "ev_type" => {
                // the event names the type of the object behind the reference
                let l = self.lit(st, &args[0].clone());
                let t = match &args[1] {
                    V::Ptr(_, _, Meta::Dyn(t)) | V::ConstRef(_, Meta::Dyn(t)) => *t,
                    _ => fun.targs[0],
                };
                Out::Event(format!("{l} {}", self.w.tys[t as usize]), V::unit())
            }
            "real_reg" => {
                // the i-th registration of this type submitted by the analysed crate
                let t = self.w.tys[fun.targs[0] as usize];
                let V::Int(i) = args[0] else { return Err("real_reg".into()) };
                let found = self.w.registered.iter().filter(|r| r.0 == t).nth(i as usize).map(|r| r.1.clone());
                match found {
                    Some(v) => {
                        let r = self.alloc(st, v);
                        Out::Val(V::agg(1, vec![r]))
                    }
                    None => Out::Val(V::agg(0, vec![])),
                }
            }
            "tok" => {
                let l = self.lit(st, &args[0].clone());
                let V::Int(i) = args[1] else { return Err("tok index".into()) };
                let name = match i {
                    0 => l,
                    999 | 1000 => format!("{l}.*"),
                    888 => format!("{l}.w"),
                    _ => format!("{l}.{i}"),
                };
                Out::Val(self.mk_tok(fun.targs[0], name))
            }
            // token equal to a literal, with provenance
            "app" => {
                let l = self.lit(st, &args[0].clone());
                let s = self.fmt_shown(st, &args[1].clone());
                Out::Val(V::term(&l, vec![s]))
            }
            "shown" => Out::Val(self.fmt_shown(st, &args[0].clone())),
            "desc" => {
                let d = self.desc(st, &args[0], 0);
                Out::Val(V::term(&d, vec![]))
            }
            "type_is" => Out::Val(V::bool(self.w.tys[fun.targs[0] as usize] == self.w.tys[fun.targs[1] as usize])),
            "same_ctor" => {
                let a = head_of(self.w.tcx, self.w.tys[fun.targs[0] as usize]);
                let b = head_of(self.w.tcx, self.w.tys[fun.targs[1] as usize]);
                Out::Val(V::bool(a == b))
            }
            "cast" => Out::Val(args[0].clone()),
            "get" => {
                let l = self.lit(st, &args[0].clone());
                Out::Val(V::Int(*st.regs.get(&l).unwrap_or(&0)))
            }
            "set" => {
                let l = self.lit(st, &args[0].clone());
                let V::Int(i) = args[1] else { return Err("set".into()) };
                st.regs.insert(l, i);
                Out::Val(V::unit())
            }
            "cell_get" | "cell_put" => {
                let Loc::Cell(c, p, _) = self.deref(st, &args[0].clone())? else { return Err("once cell".into()) };
                let old = get_path(&st.cells[c as usize], &p).cloned();
                if k == "cell_put" {
                    if !set_path(&mut st.cells[c as usize], &p, args[1].clone()) {
                        return Err("once cell".into());
                    }
                    return Ok(Out::Val(V::unit()));
                }
                match old {
                    Some(V::Term(t)) if matches!(&*t, TermV::App(h, _) if h == "static" || h == "once") => Out::Val(V::none()),
                    Some(v @ (V::Ptr(..) | V::ConstRef(..))) => Out::Val(V::some(v)),
                    _ => return Err("once cell".into()),
                }
            }
            "plus_one" => {
                let V::Int(n) = args[0] else { return Err("plus_one".into()) };
                Out::Val(V::Int(n + 1))
            }
            "stop" => Out::Stop,
            "end" => {
                let l = self.lit(st, &args[0].clone());
                Out::End(l)
            }
            "is_lit" => {
                let t = self.as_str(st, &args[0].clone());
                Out::Val(V::bool(matches!(t.as_deref(), Some(t) if lit_text(t).is_some())))
            }
            "same_str" => {
                let (Some(x), Some(y)) = (self.as_str(st, &args[0].clone()), self.as_str(st, &args[1].clone())) else { return Err("same_str".into()) };
                let any = |t: &TermV| matches!(t, TermV::App(h, _) if h.starts_with("sym:"));
                Out::Val(match self.string_eq(st, &x, &y) {
                    Some(b) => V::bool(b),
                    None if any(&x) || any(&y) => {
                        let (p, q) = if x <= y { (x, y) } else { (y, x) };
                        V::term("streq", vec![V::Str(p), V::Str(q)])
                    }
                    None => V::bool(false),
                })
            }
            "mentions" => {
                let m = self.mentions(st, &args[0].clone());
                Out::Val(m)
            }
            "mentions_anew" => {
                let m = self.mentions(st, &args[0].clone());
                Out::Val(if m == V::term("tok:err", vec![]) { V::term("err.anew", vec![m]) } else { m })
            }
            "uncapture" => match captured_term(&args[0]) {
                Some(x) => Out::Val(x),
                None => return Err("uncapture".into()),
            },
            "make_reg" => {
                // a registration value of the given struct type with the name and function filled in
                let t = self.w.tys[fun.targs[0] as usize];
                let ty::Adt(d, ga) = t.kind() else { return Err("registration type".into()) };
                let tcx = self.w.tcx;
                let mut fields = vec![];
                for f in d.non_enum_variant().fields.iter() {
                    let ft = tcx.normalize_erasing_regions(self.w.env, f.ty(tcx, ga));
                    fields.push(match ft.kind() {
                        ty::Ref(_, p, _) if p.is_str() => args[0].clone(),
                        ty::FnPtr(..) => args[1].clone(),
                        _ => return Err(format!("registration field of type {ft}")),
                    });
                }
                let v = V::agg(0, fields);
                Out::Val(self.alloc(st, v))
            }
            _ => return Ok(Out::NotNative),
        })
    }

    // ------------------------------------------------------------ standard library
    fn std_model(&mut self, st: &mut State, fun: &Rc<Fun>, args: &mut Vec<V>) -> Result<Out, String> {
        let key = fun.key.as_str();
        let val = |v: V| Ok(Out::Val(v));
        let a0 = args.first().cloned().unwrap_or(V::Uninit);
        let a1 = args.get(1).cloned().unwrap_or(V::Uninit);

        // ---- strings (also byte strings)
        if key.ends_with("PartialEq::eq") || key.ends_with("PartialEq::ne") || key.ends_with("::eq_ignore_ascii_case") {
            if let (Some(x), Some(y)) = (self.as_str(st, &a0), self.as_str(st, &a1)) {
                let ne = key.ends_with("::ne");
                if key.ends_with("case") {
                    if let (TermV::Lit(p), TermV::Lit(q)) = (&*x, &*y) {
                        return val(V::bool(p.eq_ignore_ascii_case(q)));
                    }
                    if x == y && !is_summary(st, &V::Str(x.clone()), 0) {
                        return val(V::bool(true));
                    }
                    return val(V::term("?b:eq_ignore_case", vec![V::Str(x), V::Str(y)]));
                }
                return match self.string_eq(st, &x, &y) {
                    Some(b) => val(V::bool(b != ne)),
                    None => {
                        let (p, q) = if x <= y { (x, y) } else { (y, x) };
                        let t = V::term("streq", vec![V::Str(p), V::Str(q)]);
                        val(if ne { V::term("not", vec![t]) } else { t })
                    }
                };
            }
            if let (Some(x), Some(y)) = (self.scalar(st, &a0), self.scalar(st, &a1)) {
                if let (V::Int(p), V::Int(q)) = (&x, &y) {
                    return val(V::bool((p == q) == key.ends_with("::eq")));
                }
                if !fun.has_body || matches!(key.split("::").next(), Some("i8" | "u8" | "usize" | "u32" | "u64" | "i64" | "bool" | "char" | "u16" | "i16" | "i32" | "&T" | "isize")) {
                    if x == y && !is_summary(st, &x, 0) {
                        return val(V::bool(key.ends_with("::eq")));
                    }
                    let t = V::term("Eq", vec![x, y]);
                    return val(if key.ends_with("::ne") { V::term("not", vec![t]) } else { t });
                }
            }
        }
        match key {
            "str::ToOwned::to_owned" | "str::to_owned" | "String::From::from" | "String::Clone::clone" | "slice::ToOwned::to_owned" | "str::SpecToString::spec_to_string"
            | "String::ToString::to_string" | "str::ToString::to_string" | "T::ToString::to_string" | "Vec::From::from" | "VecDeque::From::from" | "Box::From::from" | "slice::to_vec" | "str::into_string"
            | "str::into_boxed_str" | "String::into_boxed_str" | "Vec::Clone::clone" | "slice::into_vec" | "T::ToOwned::to_owned" | "String::SpecToString::spec_to_string"
            | "T::SpecToString::spec_to_string" | "char::ToString::to_string" | "char::SpecToString::spec_to_string" | "Cow::Clone::clone" | "Cow::into_owned" | "String::into_bytes" | "str::into_boxed_bytes" | "Vec::into_boxed_slice" => {
                if let Some(t) = self.as_str(st, &a0) {
                    if key.starts_with("Cow::Clone") {
                        // keep the variant
                        let v = self.load(st, &a0)?;
                        return val(v);
                    }
                    return val(V::OStr(t));
                }
                if key == "Vec::Clone::clone" {
                    let v = self.load(st, &a0)?;
                    if let V::Vec(s) = &v {
                        if s.iter().all(|x| clonable(x.v())) {
                            return val(v);
                        }
                    }
                    return Ok(Out::NotNative);
                }
                if key == "T::ToOwned::to_owned" {
                    return Ok(Out::NotNative);
                }
                let of_char = key.contains("o_string") && (key.starts_with("char") || fun.targs.first().is_some_and(|t| self.w.tys[*t as usize] == self.w.tcx.types.char));
                if let (true, Ok(V::Int(c))) = (of_char, self.load(st, &a0)) {
                    return val(V::OStr(Rc::new(TermV::Lit(char::from_u32(c as u32).ok_or("char")?.to_string()))));
                }
                if key.contains("o_string") {
                    let s = self.fmt_shown(st, &a0);
                    return val(V::OStr(Rc::new(TermV::App("to_string".into(), vec![s]))));
                }
                if let ("Vec::into_boxed_slice", V::Vec(_)) = (key, &a0) {
                    let V::Ptr(c, p, _) = self.alloc(st, a0) else { unreachable!() };
                    return val(V::Ptr(c, p, Meta::Slice));
                }
                if key == "slice::into_vec" {
                    return val(match &a0 {
                        V::Ptr(..) => match self.load(st, &a0)? {
                            V::Agg(_, f) => V::Vec(Rc::new(f.iter().cloned().map(Seg::One).collect())),
                            v => v,
                        },
                        _ => a0,
                    });
                }
                if let ("String::From::from", V::Term(_)) = (key, &a0) {
                    // of a character
                    return val(V::OStr(Rc::new(TermV::App("of_char".into(), vec![a0]))));
                }
                if let ("Vec::From::from" | "VecDeque::From::from", V::Vec(_)) = (key, &a0) {
                    return val(a0);
                }
                if key.ends_with("From::from") && key.starts_with("Vec") || key == "slice::to_vec" {
                    // array or slice of clonable values
                    if let V::Agg(0, f) = &a0 {
                        return val(V::Vec(Rc::new(f.iter().cloned().map(Seg::One).collect())));
                    }
                    let el = self.elems(st, &a0)?;
                    let mut out = vec![];
                    for (s, p) in el {
                        let x = self.load(st, &p)?;
                        if !clonable(&x) {
                            return Err("clone of non-scalar elements".into());
                        }
                        out.push(if s { Seg::Star(x) } else { Seg::One(x) });
                    }
                    return val(V::Vec(Rc::new(out)));
                }
                return Ok(Out::NotNative);
            }
            "String::Deref::deref" | "String::as_str" | "String::Borrow::borrow" | "str::AsRef::as_ref" | "String::AsRef::as_ref" | "str::as_bytes" | "String::as_bytes"
            | "str::Borrow::borrow" | "String::as_mut_str" | "str::as_str" | "String::leak" | "String::DerefMut::deref_mut" | "str::ToString::as_str" | "String::into_boxed_str_ref" => {
                if let Some(t) = self.as_str(st, &a0) {
                    return val(V::Str(t));
                }
            }
            "char::encode_utf8" => {
                return val(V::Str(Rc::new(match &a0 {
                    V::Int(i) => TermV::Lit(char::from_u32(*i as u32).ok_or("char")?.to_string()),
                    c => TermV::App("char_str".into(), vec![c.clone()]),
                })))
            }
            "String::new" => return val(V::OStr(Rc::new(TermV::Lit(String::new())))),
            "String::with_capacity" => {
                self.note_capacity(st, &a0, fun);
                return val(V::OStr(Rc::new(TermV::Lit(String::new()))));
            }
            "String::Default::default" => return val(V::OStr(Rc::new(TermV::Lit(String::new())))),
            "str::Default::default" | "&str::Default::default" => return val(V::str_lit("")),
            "String::Add::add" if matches!(a0, V::OStr(_)) => {
                let (V::OStr(cur), Some(x)) = (&a0, self.as_str(st, &a1)) else { return Err("sum of strings".into()) };
                return val(V::OStr(match (&**cur, &*x) {
                    (TermV::Lit(a), TermV::Lit(b)) => Rc::new(TermV::Lit(format!("{a}{b}"))),
                    (TermV::Lit(a), _) if a.is_empty() => x.clone(),
                    _ => Rc::new(TermV::App("concat".into(), vec![V::Str(cur.clone()), V::Str(x)])),
                }));
            }
            "String::push_str" | "String::AddAssign::add_assign" | "String::Write::write_str" | "String::push" | "String::Write::write_char" => {
                let x = match (&a1, key) {
                    (V::Int(c), "String::push" | "String::Write::write_char") => Rc::new(TermV::Lit(char::from_u32(*c as u32).ok_or("char")?.to_string())),
                    (_, "String::push" | "String::Write::write_char") => Rc::new(TermV::App("of_char".into(), vec![a1.clone()])),
                    _ => self.as_str(st, &a1).ok_or("push_str")?,
                };
                let cur = self.as_str(st, &a0).ok_or("push_str")?;
                let nt = match (&*cur, &*x) {
                    (TermV::Lit(a), TermV::Lit(b)) => TermV::Lit(format!("{a}{b}")),
                    (TermV::Lit(a), _) if a.is_empty() => (*x).clone(),
                    // any number of the same pieces
                    (TermV::App(h, a), _) if h == "concat*" && a.contains(&V::Str(x.clone())) => (*cur).clone(),
                    (TermV::App(h, a), _) if h == "concat*" && a.len() < 12 => {
                        let mut a = a.clone();
                        a.push(V::Str(x));
                        TermV::App("concat*".into(), a)
                    }
                    _ if is_summary(st, &V::Str(x.clone()), 0) || is_summary(st, &V::Str(cur.clone()), 0) => TermV::App("concat*".into(), vec![V::Str(cur), V::Str(x)]),
                    _ => TermV::App("concat".into(), vec![V::Str(cur), V::Str(x)]),
                };
                self.store(st, &a0, V::OStr(Rc::new(nt)))?;
                return val(if !key.starts_with("String::Write") { V::unit() } else { V::agg(0, vec![V::unit()]) });
            }
            "str::len" | "String::len" => {
                if let Some(t) = self.as_str(st, &a0) {
                    return val(str_len(&t));
                }
            }
            "str::is_empty" | "String::is_empty" => {
                if let Some(t) = self.as_str(st, &a0) {
                    return val(match str_len(&t) {
                        V::Int(i) => V::bool(i == 0),
                        l => V::term("Eq", vec![l, V::Int(0)]),
                    });
                }
            }
            "str::strip_prefix" | "str::strip_suffix" => {
                if let (Some(x), Some(y)) = (self.as_str(st, &a0), self.as_str(st, &a1)) {
                    let pre = key.ends_with("prefix");
                    return match (&*x, &*y) {
                        (TermV::Lit(p), TermV::Lit(q)) => val(match if pre { p.strip_prefix(q.as_str()) } else { p.strip_suffix(q.as_str()) } {
                            Some(r) => V::some(V::str_lit(r)),
                            None => V::none(),
                        }),
                        _ => Ok(Out::Alts(vec![
                            (String::new(), st.clone(), V::some(V::Str(Rc::new(TermV::App(if pre { "strip_prefix" } else { "strip_suffix" }.into(), vec![V::Str(x.clone()), V::Str(y.clone())]))))),
                            (String::new(), st.clone(), V::none()),
                        ])),
                    };
                }
            }
            "str::starts_with" | "str::ends_with" | "str::contains" => {
                if let (Some(x), Some(y)) = (self.as_str(st, &a0), self.as_str(st, &a1)) {
                    if let (TermV::Lit(p), TermV::Lit(q)) = (&*x, &*y) {
                        let r = match key {
                            "str::starts_with" => p.starts_with(q.as_str()),
                            "str::ends_with" => p.ends_with(q.as_str()),
                            _ => p.contains(q.as_str()),
                        };
                        return val(V::bool(r));
                    }
                    return val(V::term(&format!("?b:{key}"), vec![V::Str(x), V::Str(y)]));
                }
                if let Some(x) = self.as_str(st, &a0) {
                    return val(V::term(&format!("?b:{key}"), vec![V::Str(x), self.freeze(st, &a1)]));
                }
            }
            "str::trim" | "str::trim_start" | "str::trim_end" | "str::to_lowercase" | "str::to_uppercase" | "str::to_ascii_lowercase" | "str::to_ascii_uppercase" => {
                if let Some(x) = self.as_str(st, &a0) {
                    let own = !key.starts_with("str::trim");
                    let nt = match &*x {
                        TermV::Lit(s) => TermV::Lit(match key {
                            "str::trim" => s.trim().into(),
                            "str::trim_start" => s.trim_start().into(),
                            "str::trim_end" => s.trim_end().into(),
                            "str::to_lowercase" => s.to_lowercase(),
                            "str::to_uppercase" => s.to_uppercase(),
                            "str::to_ascii_lowercase" => s.to_ascii_lowercase(),
                            _ => s.to_ascii_uppercase(),
                        }),
                        _ => TermV::App(key.into(), vec![V::Str(x)]),
                    };
                    return val(if own { V::OStr(Rc::new(nt)) } else { V::Str(Rc::new(nt)) });
                }
            }
            "converts::from_utf8" | "str::from_utf8" => {
                let t = self.as_str(st, &a0).ok_or("from_utf8")?;
                let mut alts = vec![(String::new(), st.clone(), V::agg(0, vec![V::Str(t)]))];
                alts.push((String::new(), st.clone(), V::agg(1, vec![V::term("utf8error", vec![])])));
                return Ok(Out::Alts(alts));
            }
            "String::from_utf8" => {
                let t = self.as_str(st, &a0).ok_or("from_utf8")?;
                let mut alts = vec![(String::new(), st.clone(), V::agg(0, vec![V::OStr(t.clone())]))];
                alts.push((String::new(), st.clone(), V::agg(1, vec![V::agg(0, vec![V::OStr(t), V::term("utf8error", vec![])])])));
                return Ok(Out::Alts(alts));
            }
            "FromUtf8Error::into_bytes" => {
                if let V::Agg(0, f) = &a0 {
                    return val(f[0].clone());
                }
            }
            _ => {}
        }
        if key.ends_with("Ord::cmp") || key.ends_with("PartialOrd::partial_cmp") {
            if let (Some(x), Some(y)) = (self.as_str(st, &a0), self.as_str(st, &a1)) {
                let part = key.ends_with("partial_cmp");
                let mk = |i: u32| if part { V::some(V::agg(i, vec![])) } else { V::agg(i, vec![]) };
                if let (TermV::Lit(p), TermV::Lit(q)) = (&*x, &*y) {
                    return val(mk((p.cmp(q) as i32 + 1) as u32));
                }
                return Ok(Out::Alts((0..3).map(|i| (String::new(), st.clone(), mk(i))).collect()));
            }
        }

        // ---- Box and pointers
        match key {
            "Box::new" | "Box::From::from" | "boxed::box_new" | "Box::pin" => return val(self.alloc(st, a0)),
            "Box::leak" | "Box::into_raw" | "Box::from_raw" | "Box::into_pin" | "Box::AsRef::as_ref" | "Box::AsMut::as_mut" | "Box::Deref::deref" | "Box::DerefMut::deref_mut" | "Box::Borrow::borrow"
            | "Box::into_non_null" | "Box::into_unique" | "NonNull::new_unchecked" | "NonNull::as_ptr" | "NonNull::as_ref" | "NonNull::as_mut" | "NonNull::From::from" | "NonNull::cast" | "*T::cast" | "Unique::as_ptr"
            | "Unique::new_unchecked" | "Unique::From::from" => {
                if matches!(key, "Box::AsRef::as_ref" | "Box::AsMut::as_mut" | "Box::Deref::deref" | "Box::DerefMut::deref_mut" | "Box::Borrow::borrow" | "NonNull::as_ref" | "NonNull::as_mut") {
                    let v = self.load(st, &a0)?;
                    return val(v);
                }
                return val(a0);
            }
            "Box::new_uninit" | "Box::new_zeroed" => return val(self.alloc(st, V::Uninit)),
            "Box::assume_init" | "MaybeUninit::assume_init" | "MaybeUninit::new" | "ManuallyDrop::new" | "ManuallyDrop::into_inner" | "MaybeUninit::as_mut_ptr" | "MaybeUninit::as_ptr"
            | "MaybeUninit::assume_init_ref" | "MaybeUninit::assume_init_mut" | "ManuallyDrop::Deref::deref" | "ManuallyDrop::DerefMut::deref_mut" => return val(a0),
            "MaybeUninit::uninit" => return val(V::Uninit),
            "MaybeUninit::write" => {
                self.store(st, &a0, a1)?;
                return val(a0);
            }
            "boxed::box_assume_init_into_vec_unsafe" => match self.load(st, &a0)? {
                V::Agg(_, f) => return val(V::Vec(Rc::new(f.iter().cloned().map(Seg::One).collect()))),
                V::Uninit => return val(V::Vec(Rc::new(vec![]))),
                _ => return Err("vec! of something else".into()),
            },
            "Box::Clone::clone" => {
                let b = self.load(st, &a0)?;
                let v = self.load(st, &b)?;
                if clonable(&v) {
                    return val(self.alloc(st, v));
                }
                return self.hook("model_box_clone", fun, args).ok_or("box clone".into());
            }
            "mem::replace" => {
                let old = self.load(st, &a0)?;
                self.store(st, &a0, a1)?;
                return val(old);
            }
            "mem::swap" => {
                let x = self.load(st, &a0)?;
                let y = self.load(st, &a1)?;
                self.store(st, &a0, y)?;
                self.store(st, &a1, x)?;
                return val(V::unit());
            }
            "mem::take" => return self.hook("model_mem_take", fun, args).ok_or("mem::take".into()),
            "mem::forget" | "mem::drop" | "shim::drop" | "ptr::drop_in_place" | "drop_in_place" => return val(V::unit()),
            "mem::transmute" | "intrinsic::transmute" | "intrinsic::transmute_unchecked" | "hint::black_box" | "hint::must_use" | "convert::identity" => return val(a0),
            "ptr::read" | "*T::read" | "intrinsic::read_via_copy" | "ptr::read_unaligned" => {
                let v = self.load(st, &a0)?;
                return val(v);
            }
            "ptr::write" | "*T::write" | "intrinsic::write_via_move" => {
                self.store(st, &a0, a1)?;
                return val(V::unit());
            }
            "shim::clone" => {
                let v = self.load(st, &a0)?;
                if clonable(&v) {
                    return val(v);
                }
            }
            "intrinsic::ptr_metadata" => {
                let v = self.ptr_meta(st, &a0)?;
                return val(v);
            }
            "intrinsic::discriminant_value" => {
                let v = self.load(st, &a0)?;
                if let V::Agg(i, _) = v {
                    return val(V::Int(i as i128));
                }
            }
            "intrinsic::cold_path" | "intrinsic::assume" | "intrinsic::assert_inhabited" | "intrinsic::forget" => return val(V::unit()),
            "intrinsic::select_unpredictable" | "hint::select_unpredictable" | "bool::select_unpredictable" => match &a0 {
                V::Int(b) => return val(if *b != 0 { a1 } else { args[2].clone() }),
                _ => return self.hook("model_select", fun, args).ok_or("select".into()),
            },
            "intrinsic::integer_min" | "intrinsic::integer_max" => {
                let m = key.ends_with("min");
                return val(match (&a0, &a1) {
                    (V::Int(p), V::Int(q)) => V::Int(if m { *p.min(q) } else { *p.max(q) }),
                    _ if a0 == a1 => a0,
                    _ => V::term(if m { "min" } else { "max" }, vec![a0, a1]),
                });
            }
            "intrinsic::saturating_add" | "intrinsic::saturating_sub" => {
                let (V::Int(p), V::Int(q)) = (&a0, &a1) else { return val(lin(if key.ends_with("add") { "+" } else { "-" }, a0, a1)) };
                let (lo, hi) = self.int_range(fun.targs[0]).ok_or("integer type")?;
                let r = if key.ends_with("add") { p.saturating_add(*q) } else { p.saturating_sub(*q) };
                return val(V::Int(r.clamp(lo, hi)));
            }
            "intrinsic::likely" | "intrinsic::unlikely" => return val(a0),
            "intrinsic::needs_drop" | "intrinsic::ub_checks" | "intrinsic::overflow_checks" | "intrinsic::contract_checks" | "intrinsic::is_val_statically_known" => return val(V::Int(0)),
            "intrinsic::size_of" | "mem::size_of" => return val(V::Int(8)),
            "intrinsic::abort" | "process::abort" => return Ok(Out::End(format!("PANIC abort"))),
            "any::type_name" => return val(V::Str(Rc::new(TermV::App("type_name".into(), vec![])))),
            "TypeId::of" | "any::TypeId::of" => return val(V::Int(fun.targs[0] as i128)),
            _ => {}
        }

        // ---- integers on opaque operands
        if let Some((head, m)) = key.split_once("::") {
            let is_int = matches!(head, "u8" | "u16" | "u32" | "u64" | "u128" | "usize" | "i8" | "i16" | "i32" | "i64" | "i128" | "isize");
            if is_int && (matches!(a0, V::Term(_)) || matches!(a1, V::Term(_))) {
                let counter = |v: &V| is_many(v).is_some() || matches!(v, V::Term(t) if matches!(&**t, TermV::App(h, _) if h == "any*"));
                match m {
                    "saturating_add" | "wrapping_add" | "saturating_sub" | "wrapping_sub" if counter(&a0) || counter(&a1) => return val(V::term("any*", vec![])),
                    "saturating_add" | "wrapping_add" => return val(lin("+", a0, a1)),
                    "saturating_sub" | "wrapping_sub" => return val(lin("-", a0, a1)),
                    "checked_add" => {
                        return Ok(Out::Alts(vec![(String::new(), st.clone(), V::some(lin("+", a0, a1)))]));
                    }
                    "overflowing_add" => return val(V::agg(0, vec![lin("+", a0, a1), V::Int(0)])),
                    "checked_sub" => {
                        return Ok(Out::Alts(vec![
                            (String::new(), st.clone(), V::some(lin("-", a0, a1))),
                            (String::new(), st.clone(), V::none()),
                        ]))
                    }
                    "Ord::min" | "Ord::max" => {
                        return val(V::term(if m == "Ord::min" { "min" } else { "max" }, vec![a0, a1]));
                    }
                    _ => {}
                }
            }
            if is_int && m == "Ord::cmp" {
                let x = self.scalar(st, &a0).ok_or("cmp")?;
                let y = self.scalar(st, &a1).ok_or("cmp")?;
                if let (V::Int(p), V::Int(q)) = (&x, &y) {
                    return val(V::agg((p.cmp(q) as i32 + 1) as u32, vec![]));
                }
                if x == y && !is_summary(st, &x, 0) {
                    return val(V::agg(1, vec![]));
                }
                return Ok(Out::Alts((0..3).map(|i| (String::new(), st.clone(), V::agg(i, vec![]))).collect()));
            }
            if is_int && m == "From::from" && matches!(a0, V::Term(_)) {
                return val(V::term(&format!("as_{head}"), vec![a0]));
            }
            if matches!(head, "f32" | "f64") && m == "From::from" {
                return val(V::term(&format!("as_{head}"), vec![a0]));
            }
            if is_int && m.starts_with("TryFrom::try_from") && matches!(a0, V::Term(_)) {
                return Ok(Out::Alts(vec![
                    (String::new(), st.clone(), V::agg(0, vec![V::term(&format!("as_{head}"), vec![a0])])),
                    (String::new(), st.clone(), V::agg(1, vec![V::unit()])),
                ]));
            }
        }
        match key {
            "slice::PartialEq::eq" | "Vec::PartialEq::eq" | "&slice::PartialEq::eq" | "array::PartialEq::eq" if !fun.targs.iter().take(2).any(|t| self.w.tys[*t as usize] == self.w.tcx.types.u8) => {
                return self.hook("model_seq_eq", fun, args).ok_or("comparison".into());
            }
            "cmp::min" | "cmp::max" => {
                if let (V::Int(p), V::Int(q)) = (&a0, &a1) {
                    return val(V::Int(if key == "cmp::min" { *p.min(q) } else { *p.max(q) }));
                }
                if matches!(a0, V::Term(_) | V::Int(_)) {
                    if let (V::Term(_), V::Int(k)) | (V::Int(k), V::Term(_)) = (&a0, &a1) {
                        if key == "cmp::min" {
                            // bounded from above by a constant
                            return val(V::term(&format!("bounded_by_{k}"), vec![]));
                        }
                    }
                    return val(V::term(if key == "cmp::min" { "min" } else { "max" }, vec![a0, a1]));
                }
            }
            _ => {}
        }

        // ---- panics
        if fun.krate == "core" && (key.starts_with("panicking::") || key == "option::expect_failed" || key == "option::unwrap_failed" || key == "result::unwrap_failed" || key.starts_with("slice_index::") || key.contains("_fail"))
            || key == "panicking::begin_panic"
            || key == "rt::begin_panic"
            || key == "rt::panic_fmt"
            || key == "alloc::handle_alloc_error"
            || key == "raw_vec::capacity_overflow"
        {
            return Ok(Out::End(format!("PANIC {key}")));
        }

        // ---- formatting
        if key.starts_with("Argument::new_") || key == "Argument::from_usize" {
            let s = self.fmt_shown(st, &a0);
            return val(V::Nat("arg", Rc::new(vec![s])));
        }
        match key {
            "Arguments::new" | "Arguments::new_v1" | "Arguments::new_v1_formatted" | "Arguments::new_const" | "Arguments::from_str" | "Arguments::from_str_nonconst" => {
                let mut out = vec![];
                if key == "Arguments::from_str" || key == "Arguments::from_str_nonconst" {
                    if let Some(t) = self.as_str(st, &a0) {
                        out.push(V::Nat("text", Rc::new(vec![V::Str(t)])));
                    }
                } else if args.len() > 1 {
                    for (_, p) in self.elems(st, &a1)? {
                        if let V::Nat("arg", f) = self.load(st, &p)? {
                            out.push(f[0].clone());
                        }
                    }
                }
                return val(V::Nat("fmt", Rc::new(out)));
            }
            "fmt::format" => return val(V::OStr(Rc::new(TermV::App("fmt".into(), vec![a0])))),
            "Arguments::as_statically_known_str" | "Arguments::as_str" => return val(V::none()),
            "Box::Drop::drop" => return val(V::unit()),
            "fmt::write" => return val(V::agg(0, vec![V::unit()])),
            _ => {}
        }
        if key.starts_with("Formatter::") {
            return val(V::agg(0, vec![V::unit()]));
        }

        // ---- Vec
        let o = self.vec_model(st, fun, args)?;
        if !matches!(o, Out::NotNative) {
            return Ok(o);
        }
        let o = self.map_model(st, fun, args)?;
        if !matches!(o, Out::NotNative) {
            return Ok(o);
        }
        if !fun.has_body {
            return Err("no model".into());
        }
        if let "String::FromIterator::from_iter" | "String::Extend::extend" = key {
            let m = if key.ends_with("iter") { "model_string_from_iter" } else { "model_string_extend" };
            return self.hook(m, fun, args).ok_or("string of pieces".into());
        }
        if matches!(key, "String::reserve" | "String::reserve_exact") {
            self.note_capacity(st, &a1, fun);
            return val(V::unit());
        }
        if let ("str::chars" | "str::bytes", Some(t)) = (key, self.as_str(st, &a0)) {
            if let TermV::Lit(s) = &*t {
                let n: Vec<Seg> = if key == "str::bytes" { s.bytes().map(|b| Seg::One(V::Int(b as i128))).collect() } else { s.chars().map(|b| Seg::One(V::Int(b as i128))).collect() };
                return val(V::Nat("VecIntoIter", Rc::new(vec![V::Vec(Rc::new(n))])));
            }
        }
        if fun.name.contains("core::unicode::") || key == "str::Index::index" || key == "str::get" {
            return Err("no model".into());
        }
        // machinery that must never be interpreted from its own MIR
        if fun.name.contains("core::option::IntoIter") || fun.name.contains("core::result::IntoIter") || fun.name.contains("core::option::Iter") {
            return Ok(Out::NotNative);
        }
        for bad in ["raw_vec::", "RawVec", "Layout::", "alloc::alloc", "Global::", "fmt::", "str::", "String::", "RawVecInner", "IntoIter::", "BTreeMap::", "Entry::"] {
            if key.starts_with(bad) {
                return Err("no model".into());
            }
        }
        Ok(Out::NotNative)
    }

    fn int_range(&self, t: TyId) -> Option<(i128, i128)> {
        let (bits, signed) = match self.w.tys[t as usize].kind() {
            ty::Uint(u) => (u.bit_width().unwrap_or(64), false),
            ty::Int(i) => (i.bit_width().unwrap_or(64), true),
            _ => return None,
        };
        match (bits, signed) {
            (128, true) => Some((i128::MIN, i128::MAX)),
            (128, false) => None,
            (b, true) => Some((-(1i128 << (b - 1)), (1i128 << (b - 1)) - 1)),
            (b, false) => Some((0, (1i128 << b) - 1)),
        }
    }

    pub fn freeze(&self, st: &State, v: &V) -> V {
        V::term(&self.desc(st, v, 0), vec![])
    }

    fn vec_model(&mut self, st: &mut State, fun: &Rc<Fun>, args: &mut Vec<V>) -> Result<Out, String> {
        let deque = deque_key(&fun.key);
        let key = deque.as_deref().unwrap_or(fun.key.as_str());
        if fun.key == "VecDeque::push_front" {
            args.insert(1, V::Int(0));
        }
        let val = |v: V| Ok(Out::Val(v));
        let a0 = args.first().cloned().unwrap_or(V::Uninit);
        let a1 = args.get(1).cloned().unwrap_or(V::Uninit);
        let bytes = fun.targs.first().map(|t| self.w.tys[*t as usize] == self.w.tcx.types.u8).unwrap_or(false);
        match key {
            "Vec::new" | "Vec::Default::default" | "Vec::with_capacity" | "Vec::new_in" | "Vec::with_capacity_in" => {
                if key.starts_with("Vec::with_capacity") {
                    self.note_capacity(st, &a0, fun);
                }
                if bytes {
                    return val(V::OStr(Rc::new(TermV::Lit(String::new()))));
                }
                return val(V::Vec(Rc::new(vec![])));
            }
            "Vec::reserve" | "Vec::reserve_exact" | "Vec::try_reserve" => {
                self.note_capacity(st, &a1, fun);
                return val(if key.ends_with("try_reserve") { V::agg(0, vec![V::unit()]) } else { V::unit() });
            }
            "Vec::shrink_to_fit" => return val(V::unit()),
            "Vec::push" => {
                self.push_vec(st, &a0, a1)?;
                return val(V::unit());
            }
            "Vec::len" | "slice::len" => {
                let l = self.deref(st, &a0)?;
                let n = self.len_of(st, &l)?;
                return val(n);
            }
            "Vec::is_empty" | "slice::is_empty" => {
                let l = self.deref(st, &a0)?;
                return val(match self.len_of(st, &l)? {
                    V::Int(i) => V::bool(i == 0),
                    V::Term(t) if matches!(&*t, TermV::App(h, _) if h == "len>=*") => V::bool(false),
                    l => V::term("Eq", vec![l, V::Int(0)]),
                });
            }
            "Vec::clear" => {
                self.store(st, &a0, V::Vec(Rc::new(vec![])))?;
                return val(V::unit());
            }
            "Vec::Deref::deref" | "Vec::DerefMut::deref_mut" | "Vec::as_slice" | "Vec::as_mut_slice" | "Vec::AsRef::as_ref" | "Vec::Borrow::borrow" | "array::as_slice" | "array::AsRef::as_ref" | "slice::AsRef::as_ref"
            | "Vec::leak" => {
                if let Some(t) = self.as_str(st, &a0) {
                    return val(V::Str(t));
                }
                return val(match &a0 {
                    V::Ptr(c, p, m @ (Meta::None | Meta::Slice)) => {
                        let _ = m;
                        V::Ptr(*c, p.clone(), Meta::Slice)
                    }
                    V::ConstRef(v, Meta::None) => V::ConstRef(v.clone(), Meta::Slice),
                    V::Vec(_) => {
                        let V::Ptr(c, p, _) = self.alloc(st, a0) else { unreachable!() };
                        V::Ptr(c, p, Meta::Slice)
                    }
                    x => x.clone(),
                });
            }
            "Vec::IntoIterator::into_iter" => {
                if let V::Vec(_) = a0 {
                    return val(V::Nat("VecIntoIter", Rc::new(vec![a0])));
                }
                if let V::OStr(_) = a0 {
                    return Err("iteration over bytes".into());
                }
            }
            "array::TryFrom::try_from" => {
                if let V::Vec(s) = &a0 {
                    let n = self.w.instances[self.cur_call as usize].args.consts().next().and_then(|c| c.try_to_target_usize(self.w.tcx));
                    let n = n.ok_or("array length")? as usize;
                    let min = s.iter().filter(|x| matches!(x, Seg::One(_))).count();
                    let all = s.iter().all(|x| matches!(x, Seg::One(_)));
                    if all && min == n {
                        return val(V::agg(0, vec![V::agg(0, s.iter().map(|x| x.v().clone()).collect())]));
                    }
                    if all || min > n {
                        return val(V::agg(1, vec![a0]));
                    }
                    return Err("array of a widened sequence".into());
                }
            }
            "array::IntoIterator::into_iter" => {
                if let V::Vec(_) = a0 {
                    return val(V::Nat("VecIntoIter", Rc::new(vec![a0])));
                }
                if let V::Agg(0, f) = &a0 {
                    let segs = f.iter().cloned().map(Seg::One).collect();
                    return val(V::Nat("VecIntoIter", Rc::new(vec![V::Vec(Rc::new(segs))])));
                }
            }
            "&Vec::IntoIterator::into_iter" | "&slice::IntoIterator::into_iter" | "slice::iter" | "slice::iter_mut" | "&array::IntoIterator::into_iter" | "Vec::iter" => {
                if self.as_str(st, &a0).is_some() {
                    return Err("iteration over bytes".into());
                }
                let el = self.elems(st, &a0)?;
                let f = el.into_iter().map(|(s, p)| if s { Seg::Star(p) } else { Seg::One(p) }).collect();
                return val(V::Nat("SliceIter", Rc::new(vec![V::Vec(Rc::new(f))])));
            }
            "Vec::pop" | "Vec::pop_front" | "Vec::remove" | "Vec::swap_remove" => {
                let v = self.load(st, &a0)?;
                let V::Vec(s) = v else { return Err("pop".into()) };
                let option = key.contains("pop");
                if option || (key == "Vec::remove" && a1 == V::Int(0)) {
                    let pops = self.pop_front(st, &s, key == "Vec::pop");
                    if pops.is_empty() {
                        return if option { val(V::none()) } else { Ok(Out::End("PANIC remove".into())) };
                    }
                    let mut alts = vec![];
                    for (x, rest) in pops {
                        let mut s2 = st.clone();
                        self.store(&mut s2, &a0, V::Vec(rest))?;
                        alts.push((String::new(), s2, if option { V::some(x) } else { x }));
                    }
                    return Ok(Out::Alts(alts));
                }
                let V::Int(i) = a1 else { return Err("symbolic index".into()) };
                if s.iter().any(|x| matches!(x, Seg::Star(_))) {
                    let mut alts = vec![];
                    for (mut segs, k) in Self::at(&s, i as usize).into_iter().flatten() {
                        let x = segs[k].v().clone();
                        if key == "Vec::remove" || k + 1 == segs.len() {
                            segs.remove(k);
                        } else {
                            match segs.last().unwrap().clone() {
                                Seg::One(l) => {
                                    segs.pop();
                                    segs[k] = Seg::One(l);
                                }
                                Seg::Star(l) => {
                                    // one of several, or the only one of them
                                    let mut fewer = segs.clone();
                                    fewer.pop();
                                    fewer[k] = Seg::One(l.clone());
                                    let mut s2 = st.clone();
                                    self.store(&mut s2, &a0, V::Vec(Rc::new(fewer)))?;
                                    alts.push((String::new(), s2, x.clone()));
                                    segs[k] = Seg::One(l);
                                }
                            }
                        }
                        let mut s2 = st.clone();
                        self.store(&mut s2, &a0, V::Vec(Rc::new(segs)))?;
                        alts.push((String::new(), s2, x));
                    }
                    return Ok(Out::Alts(alts));
                }
                if i as usize >= s.len() {
                    return Ok(Out::End("PANIC index out of bounds".into()));
                }
                let mut s2 = (*s).clone();
                let x = if key == "Vec::swap_remove" { s2.swap_remove(i as usize) } else { s2.remove(i as usize) };
                self.store(st, &a0, V::Vec(Rc::new(s2)))?;
                return val(x.v().clone());
            }
            "Vec::insert" => {
                let v = self.load(st, &a0)?;
                let V::Vec(s) = v else { return Err("insert".into()) };
                let mut s2 = (*s).clone();
                let V::Int(i) = a1 else { return Err("symbolic index".into()) };
                if s2.iter().take(i as usize).any(|x| matches!(x, Seg::Star(_))) {
                    let mut alts = vec![];
                    for a in Self::at(&s, i as usize) {
                        let (mut segs, k) = a.unwrap_or(((*s).clone(), s.len()));
                        segs.insert(k, Seg::One(args[2].clone()));
                        let mut s2 = st.clone();
                        self.store(&mut s2, &a0, V::Vec(Rc::new(segs)))?;
                        alts.push((String::new(), s2, V::unit()));
                    }
                    return Ok(Out::Alts(alts));
                }
                if i as usize > s2.len() {
                    return Ok(Out::End("PANIC index out of bounds".into()));
                }
                let x = args[2].clone();
                if i == 0 && !s2.is_empty() && is_summary(st, &x, 0) && same_struct(st, s2[0].v(), &x, 0) {
                    let f = s2[0].v().clone();
                    s2[0] = Seg::Star(f);
                } else {
                    s2.insert(i as usize, Seg::One(x));
                }
                self.store(st, &a0, V::Vec(Rc::new(s2)))?;
                return val(V::unit());
            }
            "Vec::truncate" => {
                let V::Int(n) = a1 else { return Err("symbolic truncate".into()) };
                let V::Vec(s) = self.load(st, &a0)? else { return Err("truncate".into()) };
                let mut s2 = (*s).clone();
                if s2.iter().take(n as usize).any(|x| matches!(x, Seg::Star(_))) {
                    let mut alts = vec![];
                    let mut seen = vec![];
                    for a in Self::at(&s, n as usize) {
                        let segs = a.map_or((*s).clone(), |(s, k)| s[..k].to_vec());
                        if seen.contains(&segs) {
                            continue;
                        }
                        seen.push(segs.clone());
                        let mut s2 = st.clone();
                        self.store(&mut s2, &a0, V::Vec(Rc::new(segs)))?;
                        alts.push((String::new(), s2, V::unit()));
                    }
                    return Ok(Out::Alts(alts));
                }
                s2.truncate(n as usize);
                self.store(st, &a0, V::Vec(Rc::new(s2)))?;
                return val(V::unit());
            }
            "Vec::append" => {
                let V::Vec(s) = self.load(st, &a0)? else { return Err("append".into()) };
                let V::Vec(t) = self.load(st, &a1)? else { return Err("append".into()) };
                let mut s2 = (*s).clone();
                s2.extend(t.iter().cloned());
                self.store(st, &a0, V::Vec(Rc::new(s2)))?;
                self.store(st, &a1, V::Vec(Rc::new(vec![])))?;
                return val(V::unit());
            }
            "Vec::drain" | "Vec::into_iter" => {
                let V::Vec(s) = self.load(st, &a0)? else { return Err("drain".into()) };
                if self.desc(st, &a1, 0) != "()" {
                    return self.hook("model_vec_drain", fun, args).ok_or("partial drain".into());
                }
                self.store(st, &a0, V::Vec(Rc::new(vec![])))?;
                return val(V::Nat("VecIntoIter", Rc::new(vec![V::Vec(s)])));
            }
            "slice::swap" => {
                let model = self.in_model(st);
                let el = self.elems(st, &a0)?;
                let (V::Int(i), V::Int(j)) = (&a1, &args[2]) else { return Err("symbolic index".into()) };
                let (i, j) = (*i as usize, *j as usize);
                if model && el.iter().any(|x| x.0) {
                    return Err("swap in a widened sequence".into());
                }
                if el.iter().any(|x| x.0) {
                    let V::Ptr(_, _, m) = &a0 else { return Err("swap".into()) };
                    let V::Vec(s) = self.load(st, &a0)? else { return Err("swap in a widened sequence".into()) };
                    if let Meta::Range(a, b) = m {
                        if (*a, *b as usize) != (0, s.len()) {
                            return Err("swap in a part of a widened sequence".into());
                        }
                    }
                    let (i, j) = (i.min(j), i.max(j));
                    if i == j {
                        return val(V::unit());
                    }
                    let mut alts = vec![];
                    for (s1, k) in Self::at(&s, i).into_iter().flatten() {
                        // the second one, counted from the first one
                        for (rest, l) in Self::at(&s1[k + 1..], j - i - 1).into_iter().flatten() {
                            let mut segs = s1[..=k].to_vec();
                            segs.extend(rest);
                            segs.swap(k, k + 1 + l);
                            let mut s2 = st.clone();
                            self.store(&mut s2, &a0, V::Vec(Rc::new(segs)))?;
                            alts.push((String::new(), s2, V::unit()));
                        }
                    }
                    return Ok(Out::Alts(alts));
                }
                if i >= el.len() || j >= el.len() {
                    return Ok(Out::End("PANIC index out of bounds".into()));
                }
                let (x, y) = (self.load(st, &el[i].1)?, self.load(st, &el[j].1)?);
                self.store(st, &el[i].1, y)?;
                self.store(st, &el[j].1, x)?;
                return val(V::unit());
            }
            "slice::reverse" => {
                let V::Vec(s) = self.load(st, &a0)? else { return Err("reverse".into()) };
                let mut s2 = (*s).clone();
                s2.reverse();
                self.store(st, &a0, V::Vec(Rc::new(s2)))?;
                return val(V::unit());
            }
            "slice::sort_unstable" | "slice::sort" => {
                let V::Vec(s) = self.load(st, &a0)? else { return Err("sort".into()) };
                let mut s2 = (*s).clone();
                let mut e = vec![];
                for x in &s2 {
                    let t = self.as_str(st, x.v()).ok_or("sort of non-strings")?;
                    e.push((t, x.clone()));
                }
                e.sort();
                s2 = e.into_iter().map(|x| x.1).collect();
                self.store(st, &a0, V::Vec(Rc::new(s2)))?;
                return val(V::unit());
            }
            "Vec::dedup" => {
                let V::Vec(s) = self.load(st, &a0)? else { return Err("dedup".into()) };
                let mut s2: Vec<Seg> = vec![];
                for x in s.iter() {
                    if s2.last() != Some(x) {
                        s2.push(x.clone());
                    }
                }
                self.store(st, &a0, V::Vec(Rc::new(s2)))?;
                return val(V::unit());
            }
            "slice::first" | "slice::last" | "slice::first_mut" | "slice::last_mut" | "slice::get" | "slice::get_mut" => {
                let el = self.elems(st, &a0)?;
                let any_star = el.iter().any(|x| x.0);
                if matches!(a1, V::Agg(..)) {
                    return self.hook("model_slice_get_range", fun, args).ok_or("range".into());
                }
                if any_star && !self.in_model(st) && !matches!(key, "slice::first" | "slice::last") && !(key == "slice::get" && matches!(a1, V::Term(_))) && !(key == "slice::get_mut" && matches!(a1, V::Term(_))) {
                    // only the first element of several is at hand without changing the others
                    let whole = self.load(st, &a0).ok();
                    if let (Some(V::Vec(s)), V::Ptr(c, p, m)) = (whole, &a0) {
                        if !matches!(m, Meta::Range(a, b) if (*a, *b as usize) != (0, s.len())) && !matches!(a1, V::Int(i) if !s.iter().take(i as usize + 1).any(|x| matches!(x, Seg::Star(_)))) {
                            let ways = match (key, &a1) {
                                ("slice::first_mut", _) => Self::at(&s, 0),
                                ("slice::last_mut", _) => {
                                    let mut r = s.to_vec();
                                    r.reverse();
                                    Self::at(&r, 0)
                                        .into_iter()
                                        .map(|w| {
                                            w.map(|(mut x, k)| {
                                                x.reverse();
                                                let k = x.len() - 1 - k;
                                                (x, k)
                                            })
                                        })
                                        .collect()
                                }
                                (_, V::Int(i)) => Self::at(&s, *i as usize),
                                _ => return Err("symbolic index".into()),
                            };
                            let mut alts = vec![];
                            let mut seen = vec![];
                            for w in ways {
                                let mut s2 = st.clone();
                                let v = match w {
                                    None => V::none(),
                                    Some((segs, k)) => {
                                        let piece = if key.ends_with("_mut") {
                                            self.store(&mut s2, &V::Ptr(*c, p.clone(), Meta::None), V::Vec(Rc::new(segs)))?;
                                            k
                                        } else {
                                            // shared: the piece it is one of
                                            s.iter().position(|x| x.v() == segs[k].v()).ok_or("piece")?
                                        };
                                        let mut q = p.to_vec();
                                        q.push(piece as u32);
                                        V::some(V::Ptr(*c, Rc::new(q), Meta::None))
                                    }
                                };
                                if key.ends_with("_mut") || !seen.contains(&v) {
                                    seen.push(v.clone());
                                    alts.push((String::new(), s2, v));
                                }
                            }
                            return Ok(Out::Alts(alts));
                        }
                    }
                }
                if any_star && matches!(key, "slice::get" | "slice::get_mut") {
                    let stars: Vec<bool> = el.iter().map(|x| x.0).collect();
                    if let Ok(s) = self.index_seg(st, &a1, &stars) {
                        return val(V::some(el[s].1.clone()));
                    }
                    let l = self.deref(st, &a0)?;
                    let n = self.len_of(st, &l)?;
                    let alts = self.index_branch(st, &V::term("idx<", vec![a1.clone(), n])).ok_or("symbolic index")?;
                    let mut out = vec![];
                    for (seg, s) in alts {
                        out.push((
                            String::new(),
                            s,
                            match seg {
                                Some(usize::MAX) => return Err("index into widened sequence".into()),
                                Some(i) => V::some(el[i].1.clone()),
                                None => V::none(),
                            },
                        ));
                    }
                    return Ok(Out::Alts(out));
                }
                let i = match key {
                    "slice::first" | "slice::first_mut" => 0,
                    "slice::last" | "slice::last_mut" => el.len().wrapping_sub(1),
                    _ => match a1 {
                        V::Int(i) => i as usize,
                        _ => return Err("symbolic index".into()),
                    },
                };
                if any_star && !matches!(key, "slice::first" | "slice::last") {
                    return Err("index into widened sequence".into());
                }
                return val(match el.get(i) {
                    Some((_, p)) => V::some(p.clone()),
                    None => V::none(),
                });
            }
            "Vec::Index::index" | "Vec::IndexMut::index_mut" | "slice::Index::index" | "slice::IndexMut::index_mut" | "array::Index::index" => {
                let el = self.elems(st, &a0)?;
                match &a1 {
                    V::Int(_) | V::Term(_) if el.iter().any(|x| x.0) => {
                        let stars: Vec<bool> = el.iter().map(|x| x.0).collect();
                        let s = self.index_seg(st, &a1, &stars)?;
                        return val(el[s].1.clone());
                    }
                    V::Int(i) => {
                        return match el.get(*i as usize) {
                            Some((_, p)) => val(p.clone()),
                            None => Ok(Out::End("PANIC index out of bounds".into())),
                        };
                    }
                    _ => {
                        // ranges
                        let name = fun.targs.iter().map(|t| head_of(self.w.tcx, self.w.tys[*t as usize])).find(|h| h.starts_with("Range")).unwrap_or_default();
                        let n = el.len() as i128;
                        let whole = {
                            let l = self.deref(st, &a0)?;
                            self.len_of(st, &l).ok()
                        };
                        let first = el.iter().position(|x| x.0).unwrap_or(usize::MAX);
                        if let (V::Agg(_, f), V::Ptr(c, p, m), "RangeFrom") = (&a1, &a0, name.as_str()) {
                            // one past the first element of a piece of several: there are more of them or not
                            if first != usize::MAX && f.first() == Some(&V::Int(first as i128 + 1)) {
                                let off = if let Meta::Range(a, _) = m { *a as i128 } else { 0 };
                                let rest = |lo: usize| V::Ptr(*c, p.clone(), Meta::Range((off + lo as i128) as u32, (off + n) as u32));
                                return Ok(Out::Alts([first, first + 1].into_iter().map(|lo| (String::new(), st.clone(), rest(lo))).collect()));
                            }
                        }
                        let mut cuts: Option<Vec<i128>> = None;
                        let mut fs: Vec<i128> = vec![];
                        if let V::Agg(_, f) = &a1 {
                            for x in f.iter() {
                                match x {
                                    // pieces and elements are the same thing before the first piece of several
                                    V::Int(i) if *i >= 0 && (*i as usize) <= first => fs.push(*i),
                                    x if Some(x) == whole.as_ref() => fs.push(n),
                                    V::Int(i) if *i > first as i128 => {
                                        cuts = Some((first as i128 + 1..n).collect());
                                        fs.push(n);
                                    }
                                    V::Term(t) if first != usize::MAX && matches!(&**t, TermV::App(h, a) if h == "min" && a.len() == 2 && a.iter().any(|y| Some(y) == whole.as_ref())
                                        && a.iter().any(|y| matches!(y, V::Int(i) if *i > first as i128))) =>
                                    {
                                        // all of it, or a part that ends somewhere in what there are several of, or later
                                        cuts = Some((first as i128 + 1..n).collect());
                                        fs.push(n);
                                    }
                                    _ => return Err("symbolic range".into()),
                                }
                            }
                        }
                        let (lo, hi) = match (name.as_str(), fs.as_slice()) {
                            ("RangeFull", _) => (0, n),
                            ("RangeFrom", [a]) => (*a, n),
                            ("RangeTo", [b]) => (0, *b),
                            ("Range", [a, b]) => (*a, *b),
                            ("RangeInclusive", [a, b, _]) => (*a, *b + 1),
                            ("RangeToInclusive", [b]) => (0, *b + 1),
                            _ => return Err("range index".into()),
                        };
                        if lo > hi || hi > n {
                            return Ok(Out::End("PANIC slice index".into()));
                        }
                        if let Some(mut cuts) = cuts {
                            let V::Ptr(c, p, m) = &a0 else { return Err("symbolic range".into()) };
                            if !matches!(name.as_str(), "RangeTo" | "Range") || lo > first as i128 {
                                return Err("symbolic range".into());
                            }
                            let off = if let Meta::Range(a, _) = m { *a as i128 } else { 0 };
                            cuts.push(hi);
                            return Ok(Out::Alts(
                                cuts.into_iter().map(|hi| (String::new(), st.clone(), V::Ptr(*c, p.clone(), Meta::Range((off + lo) as u32, (off + hi) as u32)))).collect(),
                            ));
                        }
                        return match &a0 {
                            V::Ptr(c, p, m) => {
                                let off = if let Meta::Range(a, _) = m { *a as i128 } else { 0 };
                                val(V::Ptr(*c, p.clone(), Meta::Range((off + lo) as u32, (off + hi) as u32)))
                            }
                            V::ConstRef(v, m) => {
                                let off = if let Meta::Range(a, _) = m { *a as i128 } else { 0 };
                                val(V::ConstRef(v.clone(), Meta::Range((off + lo) as u32, (off + hi) as u32)))
                            }
                            _ => Err("range index".into()),
                        };
                    }
                }
            }
            "slice::contains" => {
                let x = self.as_str(st, &a1).ok_or("contains")?;
                let mut unknown = vec![];
                for (star, p) in self.elems(st, &a0)? {
                    let y = self.as_str(st, &p).ok_or("contains")?;
                    match self.string_eq(st, &x, &y) {
                        Some(true) if !star => return val(V::Int(1)),
                        Some(false) => {}
                        _ => unknown.push(V::Str(y)),
                    }
                }
                if unknown.is_empty() {
                    return val(V::Int(0));
                }
                unknown.insert(0, V::Str(x));
                return val(V::term("?b:contains", unknown));
            }
            _ => {}
        }
        if let Some(m) = key.strip_prefix("Zip::Iterator::") {
            if let Some(o) = self.hook(&format!("model_zip_{m}"), fun, args) {
                return Ok(o);
            }
            if let Some(d) = self.trait_default(self.cur_call) {
                return Ok(Out::Call(d, args.clone()));
            }
            return Err("no iterator model".into());
        }
        // iterators over vectors and slices
        let iter_self = match &a0 {
            V::Nat(k @ ("VecIntoIter" | "SliceIter"), _) => Some((k.to_string(), None)),
            V::Ptr(..) => match self.load(st, &a0) {
                Ok(V::Nat(k @ ("VecIntoIter" | "SliceIter"), f)) => Some((k.to_string(), Some(f))),
                _ => None,
            },
            _ => None,
        };
        if let Some((kind, cur)) = iter_self {
            let head = key.split("::").next().unwrap_or("");
            if matches!(head, "IntoIter" | "Iter" | "IterMut" | "Drain" | "ExactSizeIterator" | "Keys" | "Values" | "ValuesMut" | "IntoKeys" | "IntoValues" | "Chars" | "Bytes") || key.starts_with("Iterator::") {
                let m = key.rsplit("::").next().unwrap_or("");
                match m {
                    "next" | "next_back" => {
                        let f = cur.ok_or("iterator by value")?;
                        let V::Vec(s) = &f[0] else { return Err("iterator".into()) };
                        let pops = self.pop_front(st, s, m == "next_back");
                        if pops.is_empty() {
                            return val(V::none());
                        }
                        let mut alts = vec![];
                        for (x, rest) in pops {
                            let mut s2 = st.clone();
                            let kk: &'static str = if kind == "SliceIter" { "SliceIter" } else { "VecIntoIter" };
                            self.store(&mut s2, &a0, V::Nat(kk, Rc::new(vec![V::Vec(rest)])))?;
                            alts.push((String::new(), s2, V::some(x)));
                        }
                        if alts.len() == 1 {
                            let (_, s2, v) = alts.pop().unwrap();
                            *st = s2;
                            return val(v);
                        }
                        return Ok(Out::Alts(alts));
                    }
                    "size_hint" | "len" | "is_empty" | "count" => {
                        let f = match (&a0, cur) {
                            (V::Nat(_, f), _) => f.clone(),
                            (_, Some(f)) => f,
                            _ => return Err("iterator".into()),
                        };
                        let V::Vec(s) = &f[0] else { return Err("iterator".into()) };
                        let n = vec_len(s);
                        return val(match m {
                            "size_hint" => {
                                // both bounds are the same number even when it is not known
                                let n = if let V::Term(_) = n { V::term("hint", vec![n]) } else { n };
                                V::agg(0, vec![n.clone(), V::some(n)])
                            }
                            "is_empty" => V::bool(s.is_empty()),
                            _ => n,
                        });
                    }
                    "as_slice" => {
                        let f = cur.ok_or("iterator by value")?;
                        let V::Vec(s) = &f[0] else { return Err("iterator".into()) };
                        if kind == "VecIntoIter" {
                            let v = V::Vec(s.clone());
                            let V::Ptr(c, p, _) = self.alloc(st, v) else { unreachable!() };
                            return val(V::Ptr(c, p, Meta::Slice));
                        }
                    }
                    "advance_by" | "advance_back_by" => {
                        let f = cur.ok_or("iterator by value")?;
                        let V::Vec(s) = &f[0] else { return Err("iterator".into()) };
                        let V::Int(n) = a1 else { return Err("advance by an unknown number".into()) };
                        let mut todo = vec![(s.clone(), n)];
                        let mut alts = vec![];
                        while let Some((rest, n)) = todo.pop() {
                            let pops = if n > 0 { self.pop_front(st, &rest, m == "advance_back_by") } else { vec![] };
                            if pops.is_empty() {
                                let mut s2 = st.clone();
                                let kk: &'static str = if kind == "SliceIter" { "SliceIter" } else { "VecIntoIter" };
                                self.store(&mut s2, &a0, V::Nat(kk, Rc::new(vec![V::Vec(rest)])))?;
                                alts.push((String::new(), s2, if n == 0 { V::agg(0, vec![V::unit()]) } else { V::agg(1, vec![V::agg(0, vec![V::Int(n)])]) }));
                            }
                            for (_, r) in pops {
                                todo.push((r, n - 1));
                            }
                        }
                        return Ok(Out::Alts(alts));
                    }
                    "into_iter" | "by_ref" => return val(a0),
                    "clone" => {
                        if let Some(f) = cur {
                            if kind == "SliceIter" {
                                return val(V::Nat("SliceIter", f));
                            }
                        }
                    }
                    _ => {
                        if let Some(o) = self.hook(&format!("model_iter_{m}"), fun, args) {
                            return Ok(o);
                        }
                        if head == "Iterator" || head == "ExactSizeIterator" {
                            return Ok(Out::NotNative);
                        }
                        if let Some(d) = self.trait_default(self.cur_call) {
                            return Ok(Out::Call(d, args.clone()));
                        }
                        return Err("no iterator model".into());
                    }
                }
            }
        }
        match key {
            "Vec::Extend::extend" => return self.hook("model_vec_extend", fun, args).ok_or("extend".into()),
            "Vec::FromIterator::from_iter" => return self.hook("model_vec_from_iter", fun, args).ok_or("from_iter".into()),
            "Vec::retain" => return self.hook("model_vec_retain", fun, args).ok_or("retain".into()),
            _ => {}
        }
        if let Some((head @ ("Vec" | "slice" | "array" | "vec"), m)) = key.split_once("::") {
            let m = m.rsplit("::").next().unwrap_or(m);
            if m == "extend_reserve" {
                return val(V::unit());
            }
            let strings = m == "concat" && fun.targs.iter().any(|t| self.w.tys[*t as usize].is_str());
            if strings {
                return Err("concatenation".into());
            }
            if let Some(o) = self.hook(&format!("model_{}_{m}", head.to_lowercase()), fun, args) {
                return Ok(o);
            }
        }
        Ok(Out::NotNative)
    }

    /// Key-indexed map: exact for the keys that were inserted.
    fn map_model(&mut self, st: &mut State, fun: &Rc<Fun>, args: &mut Vec<V>) -> Result<Out, String> {
        let key = fun.key.as_str();
        let key = key.trim_start_matches('&');
        let head = key.split("::").next().unwrap_or("");
        if !matches!(head, "BTreeMap" | "HashMap" | "VacantEntry" | "OccupiedEntry" | "Entry") {
            return Ok(Out::NotNative);
        }
        let val = |v: V| Ok(Out::Val(v));
        let a0 = args.first().cloned().unwrap_or(V::Uninit);
        let a1 = args.get(1).cloned().unwrap_or(V::Uninit);
        let m = &key[head.len() + 2..];
        let lookup = |e: &mut Self, st: &mut State, mapp: &V, k: &V| -> Result<(Rc<BTreeMap<V, V>>, Vec<(Option<usize>, State)>, V), String> {
            let V::Map(mm) = e.load(st, mapp)? else { return Err("not a map".into()) };
            let kt = e.as_str(st, k).ok_or("map key is not a string")?;
            let kv = V::Str(kt.clone());
            let mut outs = vec![];
            let mut maybe = vec![];
            for (i, (kk, _)) in mm.iter().enumerate() {
                let V::Str(t) = kk else { continue };
                match e.string_eq(st, t, &kt) {
                    Some(true) => return Ok((mm.clone(), vec![(Some(i), st.clone())], kv)),
                    Some(false) => {}
                    None => maybe.push(i),
                }
            }
            outs.push((None, st.clone()));
            for i in maybe {
                outs.push((Some(i), st.clone()));
            }
            Ok((mm, outs, kv))
        };
        let valptr = |mapp: &V, i: usize| -> Result<V, String> {
            match mapp {
                V::Ptr(c, p, _) => {
                    let mut q = (**p).clone();
                    q.push(i as u32);
                    Ok(V::Ptr(*c, Rc::new(q), Meta::None))
                }
                _ => Err("map pointer".into()),
            }
        };
        match (head, m) {
            ("BTreeMap" | "HashMap", "new" | "Default::default" | "with_capacity") => return val(V::Map(Rc::new(BTreeMap::new()))),
            ("BTreeMap" | "HashMap", "get" | "get_mut" | "contains_key") => {
                let (_, outs, _) = lookup(self, st, &a0, &a1)?;
                let mut alts = vec![];
                for (i, s) in outs {
                    let v = match (m, i) {
                        ("contains_key", i) => V::bool(i.is_some()),
                        (_, Some(i)) => V::some(valptr(&a0, i)?),
                        (_, None) => V::none(),
                    };
                    alts.push((String::new(), s, v));
                }
                return one_or_alts(st, alts);
            }
            ("BTreeMap" | "HashMap", "Index::index") => {
                let (_, outs, _) = lookup(self, st, &a0, &a1)?;
                if outs.len() == 1 {
                    return match outs[0].0 {
                        Some(i) => val(valptr(&a0, i)?),
                        None => Ok(Out::End("PANIC missing key".into())),
                    };
                }
                return Err("uncertain index".into());
            }
            ("BTreeMap" | "HashMap", "insert" | "remove") => {
                let (mm, outs, kv) = lookup(self, st, &a0, &a1)?;
                let mut alts = vec![];
                for (i, mut s) in outs {
                    let mut m2 = (*mm).clone();
                    let k = match i {
                        Some(i) => mm.keys().nth(i).unwrap().clone(),
                        None => kv.clone(),
                    };
                    let old = if m == "insert" { m2.insert(k, args[2].clone()) } else { m2.remove(&k) };
                    self.store(&mut s, &a0, V::Map(Rc::new(m2)))?;
                    alts.push((String::new(), s, match old { Some(o) => V::some(o), None => V::none() }));
                }
                return one_or_alts(st, alts);
            }
            ("BTreeMap" | "HashMap", "entry") => {
                let (mm, outs, kv) = lookup(self, st, &a0, &a1)?;
                let mut alts = vec![];
                for (i, s) in outs {
                    let v = match i {
                        None => V::agg(0, vec![V::Nat("Entry", Rc::new(vec![a0.clone(), kv.clone()]))]),
                        Some(i) => {
                            let k = mm.keys().nth(i).unwrap().clone();
                            V::agg(1, vec![V::Nat("Entry", Rc::new(vec![a0.clone(), k]))])
                        }
                    };
                    alts.push((String::new(), s, v));
                }
                return one_or_alts(st, alts);
            }
            ("VacantEntry", "insert") | ("OccupiedEntry", "insert") | ("OccupiedEntry", "get" | "get_mut" | "into_mut" | "remove" | "key") | ("VacantEntry", "key") => {
                let e = match &a0 {
                    V::Nat("Entry", f) => f.clone(),
                    p => match self.load(st, p)? {
                        V::Nat("Entry", f) => f,
                        _ => return Err("entry".into()),
                    },
                };
                let mapp = e[0].clone();
                let k = e[1].clone();
                let V::Map(mm) = self.load(st, &mapp)? else { return Err("entry map".into()) };
                let mut m2 = (*mm).clone();
                match m {
                    "insert" => {
                        let old = m2.insert(k.clone(), a1);
                        let idx = m2.keys().position(|x| *x == k).unwrap();
                        self.store(st, &mapp, V::Map(Rc::new(m2)))?;
                        return val(match old {
                            Some(o) if head == "OccupiedEntry" => o,
                            _ => valptr(&mapp, idx)?,
                        });
                    }
                    "key" => return val(V::ConstRef(Rc::new(k), Meta::None)),
                    "remove" => {
                        let old = m2.remove(&k).ok_or("remove")?;
                        self.store(st, &mapp, V::Map(Rc::new(m2)))?;
                        return val(old);
                    }
                    _ => {
                        let idx = m2.keys().position(|x| *x == k).ok_or("occupied entry")?;
                        return val(valptr(&mapp, idx)?);
                    }
                }
            }
            ("Entry", "or_insert" | "and_modify" | "or_insert_with" | "or_default") => {
                let V::Agg(variant, f) = &a0 else { return Err("entry".into()) };
                let V::Nat("Entry", e) = &f[0] else { return Err("entry".into()) };
                let mapp = e[0].clone();
                let k = e[1].clone();
                let V::Map(mm) = self.load(st, &mapp)? else { return Err("entry map".into()) };
                if m == "or_insert" {
                    let mut m2 = (*mm).clone();
                    if *variant == 0 {
                        m2.insert(k.clone(), a1);
                    }
                    let idx = m2.keys().position(|x| *x == k).unwrap();
                    self.store(st, &mapp, V::Map(Rc::new(m2)))?;
                    return val(valptr(&mapp, idx)?);
                }
                return self.hook(&format!("model_entry_{m}"), fun, args).ok_or(format!("Entry::{m}"));
            }
            ("BTreeMap" | "HashMap", "len") => {
                let V::Map(mm) = self.load(st, &a0)? else { return Err("map".into()) };
                return val(V::Int(mm.len() as i128));
            }
            ("BTreeMap" | "HashMap", "is_empty") => {
                let V::Map(mm) = self.load(st, &a0)? else { return Err("map".into()) };
                return val(V::bool(mm.is_empty()));
            }
            ("BTreeMap", "keys" | "into_keys") => {
                let V::Map(mm) = (if m == "keys" { self.load(st, &a0)? } else { a0.clone() }) else { return Err("map".into()) };
                let segs: Vec<Seg> = mm
                    .keys()
                    .map(|k| Seg::One(if m == "keys" { V::ConstRef(Rc::new(k.clone()), Meta::None) } else { k.clone() }))
                    .collect();
                return val(V::Nat("VecIntoIter", Rc::new(vec![V::Vec(Rc::new(segs))])));
            }
            ("BTreeMap", "iter" | "iter_mut" | "values" | "values_mut" | "into_values" | "IntoIterator::into_iter" | "into_iter" | "first_key_value" | "last_key_value") => {
                let (owned, mm) = match &a0 {
                    V::Map(m) => (true, m.clone()),
                    p => match self.load(st, p)? {
                        V::Map(m) => (false, m),
                        _ => return Err("map".into()),
                    },
                };
                let mut items = vec![];
                for (i, (k, v)) in mm.iter().enumerate() {
                    let x = if owned { v.clone() } else { valptr(&a0, i)? };
                    let k = if owned { k.clone() } else { V::ConstRef(Rc::new(k.clone()), Meta::None) };
                    items.push(if m.contains("values") { x } else { V::agg(0, vec![k, x]) });
                }
                if m.ends_with("key_value") {
                    let x = if m.starts_with("first") { items.first() } else { items.last() };
                    return val(x.map_or(V::none(), |x| V::some(x.clone())));
                }
                return val(V::Nat("VecIntoIter", Rc::new(vec![V::Vec(Rc::new(items.into_iter().map(Seg::One).collect()))])));
            }
            ("BTreeMap", "get_key_value") => {
                let (mm, outs, _) = lookup(self, st, &a0, &a1)?;
                let mut alts = vec![];
                for (i, s) in outs {
                    let v = match i {
                        Some(i) => V::some(V::agg(0, vec![V::ConstRef(Rc::new(mm.keys().nth(i).unwrap().clone()), Meta::None), valptr(&a0, i)?])),
                        None => V::none(),
                    };
                    alts.push((String::new(), s, v));
                }
                return one_or_alts(st, alts);
            }
            ("BTreeMap", "FromIterator::from_iter") => return self.hook("model_map_from_iter", fun, args).ok_or("from_iter".into()),
            ("BTreeMap", "Extend::extend") => return self.hook("model_map_extend", fun, args).ok_or("extend".into()),
            _ => {}
        }
        Err("no map model".into())
    }
}

/// A double-ended queue is a vector: the vector's function that does what the queue's does.
fn deque_key(key: &str) -> Option<String> {
    if let Some(m) = key.strip_prefix("&VecDeque::") {
        return Some(format!("&Vec::{m}"));
    }
    Some(match key.strip_prefix("VecDeque::")? {
        "push_back" => "Vec::push".to_string(),
        "pop_back" => "Vec::pop".to_string(),
        "push_front" => "Vec::insert".to_string(),
        "front" => "slice::first".to_string(),
        "front_mut" => "slice::first_mut".to_string(),
        "back" => "slice::last".to_string(),
        "back_mut" => "slice::last_mut".to_string(),
        "iter" | "iter_mut" => "slice::iter".to_string(),
        m @ ("get" | "get_mut" | "contains") => format!("slice::{m}"),
        m => format!("Vec::{m}"),
    })
}

fn one_or_alts(st: &mut State, mut alts: Vec<(String, State, V)>) -> Result<Out, String> {
    if alts.len() == 1 {
        let (_, s, v) = alts.pop().unwrap();
        *st = s;
        return Ok(Out::Val(v));
    }
    Ok(Out::Alts(alts))
}

/// Values whose clone is a bitwise copy in the abstract domain.
fn clonable(v: &V) -> bool {
    match v {
        V::Int(_) | V::Str(_) | V::OStr(_) | V::Fn(_) | V::ConstRef(..) | V::Static(_) => true,
        V::Term(_) => true,
        V::Agg(_, f) => f.iter().all(clonable),
        _ => false,
    }
}

fn captured_term(v: &V) -> Option<V> {
    match v {
        V::Term(t) => match &**t {
            TermV::App(h, a) if h == "captured" => a.first().cloned(),
            _ => None,
        },
        V::Agg(0, f) if f.len() == 1 => captured_term(&f[0]),
        _ => None,
    }
}

fn strip1(v: &V) -> V {
    let mut cur = v.clone();
    for _ in 0..6 {
        match &cur {
            V::Term(t) => match &**t {
                TermV::App(h, a) if (h == "custom" || h == "to_string") && a.len() == 1 => cur = a[0].clone(),
                _ => break,
            },
            V::Agg(0, f) if f.len() == 1 => cur = f[0].clone(),
            _ => break,
        }
    }
    cur
}

/// an error value originating in the environment (or an already canonical local one)
fn is_err_term(v: &V) -> bool {
    matches!(v, V::Term(t) if matches!(&**t, TermV::App(h, _) if h.starts_with("tok:err") || h.starts_with("local:") || h.starts_with("tok:local:") || h == "message" || h == "err.anew"))
}

/// Is this number at most the size of what is in memory, or a modest constant?
fn held(st: &State, v: &V) -> bool {
    const MODEST: i128 = 1 << 16;
    let (h, a) = match v {
        V::Int(k) => return *k <= MODEST,
        V::Term(t) => match &**t {
            TermV::App(h, a) => (h.as_str(), a),
            _ => return false,
        },
        _ => return false,
    };
    let compared = |h: &str, a: &V, b: &V, truth: i128| st.facts.get(&V::term(h, vec![a.clone(), b.clone()])) == Some(&Fact::Is(truth));
    match h {
        "len>=*" | "strlen" | "many*" => true,
        "min" => a.iter().any(|x| held(st, x)),
        "max" | "+" | "Add" => a.iter().all(|x| held(st, x)),
        _ => st.facts.keys().any(|k| {
            let V::Term(t) = k else { return false };
            let TermV::App(c, b) = &**t else { return false };
            let [x, y] = &b[..] else { return false };
            let (other, less) = if x == v { (y, true) } else if y == v { (x, false) } else { return false };
            other != v && held(st, other)
                && match (c.as_str(), less) {
                    ("Lt" | "Le", true) | ("Gt" | "Ge", false) => compared(c, x, y, 1),
                    ("Gt" | "Ge", true) | ("Lt" | "Le", false) => compared(c, x, y, 0),
                    ("Eq", _) => compared(c, x, y, 1),
                    _ => false,
                }
        }),
    }
}
