//! Functions of the standard library without a model of their own, as functions without a meaning: what they
//! return is named by the function and its arguments (the same arguments give the same result), a boolean or
//! an alternative of which is taken both ways. What keeps a position (an iterator over characters, say) turns
//! into a summary of all of its positions when it is moved.
use crate::domain::*;
use crate::engine::*;
use crate::mir::*;
use rustc_middle::ty::{self, Ty};
use std::rc::Rc;

/// families of functions that only look at their arguments
const PURE: &[&str] = &[
    "str::", "&str::", "char::", "String::", "f32::", "f64::", "num::", "unicode::", "ascii::", "bool::", "u8::", "u16::", "u32::", "u64::", "u128::", "usize::", "i8::", "i16::", "i32::", "i64::",
    "i128::", "isize::", "slice::", "Vec::", "&slice::", "&Vec::", "Join::", "Concat::", "Utf8Error::", "ParseIntError::", "ParseFloatError::",
];
const NUMERIC: &[&str] = &[
    "fabs", "fabsf32", "fabsf64", "floorf32", "floorf64", "ceilf32", "ceilf64", "truncf32", "truncf64", "roundf32", "roundf64", "round_ties_even_f32", "round_ties_even_f64", "sqrtf32", "sqrtf64",
    "copysign", "copysignf32", "copysignf64", "ctpop", "ctlz", "ctlz_nonzero", "cttz", "cttz_nonzero", "bswap", "bitreverse", "rotate_left", "rotate_right", "minnumf32", "minnumf64", "maxnumf32",
    "maxnumf64", "minimum_number_nsz_f32", "minimum_number_nsz_f64", "maximum_number_nsz_f32", "maximum_number_nsz_f64", "powif32", "powif64", "powf32", "powf64", "exp_f64", "logf64", "float_to_int_unchecked",
];
/// may end the program
const PARTIAL: &[&str] = &["split_at", "split_at_mut", "insert", "insert_str", "remove", "split_off", "truncate", "drain", "replace_range", "index_mut", "copy_from_slice", "clone_from_slice", "swap", "repeat", "from_digit", "to_digit", "swap_remove", "copy_within", "rotate_left", "rotate_right"];

impl<'a, 'tcx> Engine<'a, 'tcx> {
    fn opaque_term(v: &V) -> bool {
        matches!(v, V::Term(t) if matches!(&**t, TermV::App(h, _) if h.starts_with("std:")))
    }

    /// the opaque value that the method is called on
    fn opaque_self(&mut self, st: &mut State, v: &V) -> bool {
        let mut cur = v.clone();
        for _ in 0..4 {
            match &cur {
                V::Ptr(..) | V::ConstRef(..) => match self.load(st, &cur) {
                    Ok(n) => cur = n,
                    Err(_) => return false,
                },
                _ => return Self::opaque_term(&cur),
            }
        }
        false
    }

    /// an argument as a value of its own
    fn ground(&mut self, st: &mut State, v: &V, depth: usize) -> Option<V> {
        if depth > 7 {
            return None;
        }
        Some(match v {
            V::Int(_) | V::Fn(_) => v.clone(),
            V::Str(t) | V::OStr(t) => {
                Self::shallow(t, 0)?;
                V::Str(t.clone())
            }
            V::Term(t) => {
                Self::shallow(t, 0)?;
                v.clone()
            }
            V::Ptr(..) | V::ConstRef(..) => {
                if let Some(t) = self.as_str(st, v) {
                    return self.ground(st, &V::Str(t), depth + 1);
                }
                let x = self.load(st, v).ok()?;
                self.ground(st, &x, depth + 1)?
            }
            V::Agg(n, f) => {
                let mut out = vec![];
                for x in f.iter() {
                    out.push(self.ground(st, x, depth + 1)?);
                }
                V::agg(*n, out)
            }
            V::Vec(s) => {
                let mut out = vec![];
                for x in s.iter() {
                    let v = self.ground(st, x.v(), depth + 1)?;
                    out.push(if let Seg::Star(_) = x { V::term("any of*", vec![v]) } else { v });
                }
                V::agg(0, out)
            }
            _ => return None,
        })
    }
    fn shallow(t: &TermV, depth: usize) -> Option<()> {
        if depth > 7 {
            return None;
        }
        if let TermV::App(_, a) = t {
            for x in a {
                if let V::Str(t) | V::OStr(t) | V::Term(t) = x {
                    Self::shallow(t, depth + 1)?;
                }
            }
        }
        Some(())
    }

    /// Any value of the type, called `name(args)`, in the states that go with it.
    fn opaque_value(&mut self, st: &State, t: Ty<'tcx>, name: &str, args: &Vec<V>, depth: usize) -> Option<Vec<(State, V)>> {
        if depth > 4 {
            return None;
        }
        let tcx = self.w.tcx;
        let term = |h: &str| Rc::new(TermV::App(h.to_string(), args.clone()));
        let one = |v: V| Some(vec![(st.clone(), v)]);
        let bytes = |t: Ty<'tcx>| t.is_str() || matches!(t.kind(), ty::Slice(e) if *e == tcx.types.u8);
        match t.kind() {
            ty::Bool => one(V::Term(term(&format!("?b:{name}")))),
            ty::Int(_) | ty::Uint(_) | ty::Char | ty::Float(_) => one(V::Term(term(&format!("of:{name}")))),
            ty::Ref(_, p, _) if bytes(*p) => one(V::Str(term(name))),
            ty::Ref(_, p, m) if m.is_not() && matches!(p.kind(), ty::Int(_) | ty::Uint(_) | ty::Char) => {
                one(V::ConstRef(Rc::new(V::Term(term(&format!("of:{name}")))), Meta::None))
            }
            ty::Tuple(ts) => {
                let mut acc = vec![(st.clone(), vec![])];
                for (i, x) in ts.iter().enumerate() {
                    let mut next = vec![];
                    for (s, vs) in acc {
                        for (s2, v) in self.opaque_value(&s, x, &if ts.len() > 1 { format!("{name}.{i}") } else { name.to_string() }, args, depth + 1)? {
                            let mut vs2 = vs.clone();
                            vs2.push(v);
                            next.push((s2, vs2));
                        }
                    }
                    acc = next;
                }
                Some(acc.into_iter().map(|(s, v)| (s, V::agg(0, v))).collect())
            }
            ty::Adt(d, ga) => {
                let item = tcx.item_name(d.did());
                let item = item.as_str();
                let std = matches!(tcx.crate_name(d.did().krate).as_str(), "core" | "alloc");
                if !std {
                    return None;
                }
                let arg = |i: usize| ga.types().nth(i);
                match item {
                    "String" => one(V::OStr(term(name))),
                    "Vec" if arg(0) == Some(tcx.types.u8) => one(V::OStr(term(name))),
                    "Box" if arg(0).is_some_and(bytes) => one(V::OStr(term(name))),
                    "Option" | "Result" | "Cow" => {
                        // which one it is depends on the arguments alone
                        let which = V::Term(term(&format!("?b:{name}?")));
                        let mut out = vec![];
                        for (is, s) in self.branch(st, &which, &[0]) {
                            let no = is == Some(0);
                            let (variant, t) = match (item, no) {
                                ("Option", true) => (0, None),
                                ("Option", false) => (1, Some(arg(0)?)),
                                ("Result", true) => (1, Some(arg(1)?)),
                                ("Result", false) => (0, Some(arg(0)?)),
                                (_, true) => (0, Some(tcx.types.str_)),
                                _ => (1, Some(tcx.types.str_)),
                            };
                            match t {
                                None => out.push((s, V::agg(0, vec![]))),
                                Some(t) if item == "Cow" => {
                                    if !arg(0).is_some_and(bytes) || t != tcx.types.str_ {
                                        return None;
                                    }
                                    let x = term(name);
                                    out.push((s, V::agg(variant, vec![if no { V::Str(x) } else { V::OStr(x) }])));
                                }
                                Some(t) => {
                                    for (s2, v) in self.opaque_value(&s, t, name, args, depth + 1)? {
                                        out.push((s2, V::agg(variant, vec![v])));
                                    }
                                }
                            }
                        }
                        Some(out)
                    }
                    "Ordering" => {
                        let mut out = vec![];
                        let lt = V::Term(term(&format!("?b:{name}<")));
                        for (is, s) in self.branch(st, &lt, &[0]) {
                            if is != Some(0) {
                                out.push((s, V::agg(0, vec![])));
                                continue;
                            }
                            let eq = V::Term(term(&format!("?b:{name}=")));
                            for (is, s2) in self.branch(&s, &eq, &[0]) {
                                out.push((s2, V::agg(if is == Some(0) { 2 } else { 1 }, vec![])));
                            }
                        }
                        Some(out)
                    }
                    // an error or an iterator, all of whose uses come here again
                    _ if d.is_struct() || d.is_enum() => {
                        let name = name.strip_prefix("std:").unwrap_or(name);
                        one(V::Term(term(&format!("std:{name}"))))
                    }
                    _ => None,
                }
            }
            _ => None,
        }
    }

    /// The call of a function of the standard library without a model, as a function without a meaning.
    pub fn opaque_call(&mut self, st: &mut State, id: FnId, fun: &Rc<Fun>, args: &[V], only_self: bool) -> Option<Out> {
        if !matches!(fun.krate.as_str(), "core" | "alloc") {
            return None;
        }
        let tcx = self.w.tcx;
        let key = fun.key.as_str();
        let method = key.rsplit("::").next()?;
        let opaque = args.first().is_some_and(|a| self.opaque_self(st, a));
        if let Some(m) = key.strip_prefix("intrinsic::") {
            if m.starts_with("atomic_") {
                return self.atomic(st, fun, m, args);
            }
            if only_self || !NUMERIC.contains(&m) || args.iter().all(|a| matches!(a, V::Int(_))) {
                return None;
            }
        } else if fun.name.contains("core::unicode::") || key == "char::len_utf8" && matches!(args[0], V::Term(_)) {
        } else if only_self || opaque {
            // bodies of traits' own methods and of blanket implementations are followed
            let d = self.w.instances[id as usize].def_id();
            let imp = tcx.impl_of_assoc(d)?;
            if tcx.def_path_str(imp).contains("iter::adapters") || tcx.def_path_str(d).contains("iter::adapters") {
                return None;
            }
            if !opaque || matches!(tcx.type_of(imp).instantiate_identity().skip_norm_wip().kind(), ty::Param(_) | ty::Ref(..)) {
                return None;
            }
        } else if !PURE.iter().any(|p| key.starts_with(p)) || args.is_empty() {
            return None;
        } else if matches!(key, "slice::concat" | "slice::join" | "str::join_generic_copy") {
        } else if !key.starts_with("f64") && !key.starts_with("f32") && !args.iter().any(|a| self.as_str(st, a).is_some() || matches!(a, V::Term(_))) {
            return None;
        }
        if PARTIAL.contains(&method) {
            return None;
        }
        // functions handed over: only such that hold nothing
        let inst = self.w.instances[id as usize];
        if matches!(inst.def, ty::InstanceKind::Shim(_)) {
            return None;
        }
        let sig = tcx.fn_sig(inst.def_id()).instantiate(tcx, inst.args).skip_norm_wip();
        let sig = tcx.normalize_erasing_regions(self.w.env, rustc_middle::ty::Unnormalized::new_wip(tcx.erase_and_anonymize_regions(sig)));
        let sig = tcx.instantiate_bound_regions_with_erased(sig);
        for t in sig.inputs() {
            if let ty::Closure(_, a) = t.peel_refs().kind() {
                if !a.as_closure().upvar_tys().is_empty() {
                    if opaque {
                        if let Some(d) = self.trait_default(id) {
                            return Some(Out::Call(d, args.to_vec()));
                        }
                    }
                    return None;
                }
            }
            if t.peel_refs().is_fn_ptr() || matches!(t.peel_refs().kind(), ty::Dynamic(..)) {
                return None;
            }
        }
        let mut vals = vec![];
        for a in args {
            vals.push(self.ground(st, a, 0)?);
        }
        if vals.iter().all(|v| matches!(v, V::Int(_)) || matches!(v, V::Str(t) if matches!(&**t, TermV::Lit(_)))) {
            // what it is could be known
            return None;
        }
        let name = format!("std:{key}");
        // what is changed in place
        let mut moved = vec![];
        for (i, t) in sig.inputs().iter().enumerate() {
            let ty::Ref(_, p, m) = t.kind() else { continue };
            if !m.is_mut() {
                continue;
            }
            let V::Ptr(..) = &args[i] else { return None };
            let old = self.load(st, &args[i]).ok()?;
            match &old {
                V::Term(t) if Self::opaque_term(&old) => {
                    let TermV::App(h, a) = &**t else { return None };
                    if !h.ends_with('*') {
                        moved.push((args[i].clone(), V::term(&format!("{h}*"), a.clone())));
                    }
                }
                V::OStr(_) if matches!(p.kind(), ty::Adt(..)) => {
                    moved.push((args[i].clone(), V::OStr(Rc::new(TermV::App(format!("{name}'"), vals.clone())))));
                }
                V::Int(_) | V::Term(_) if matches!(p.kind(), ty::Int(_) | ty::Uint(_)) => {
                    moved.push((args[i].clone(), V::term(&format!("of:{name}'"), vals.clone())));
                }
                _ => return None,
            }
        }
        let ret = sig.output();
        let alts = self.opaque_value(st, ret, &name, &vals, 0)?;
        let mut out = vec![];
        for (mut s, v) in alts {
            for (p, n) in &moved {
                self.store(&mut s, p, n.clone()).ok()?;
            }
            out.push((String::new(), s, v));
        }
        if out.len() == 1 {
            let (_, s, v) = out.pop()?;
            *st = s;
            return Some(Out::Val(v));
        }
        Some(Out::Alts(out))
    }

    /// Atomics in statics: any value at first, any of the values stored afterwards.
    fn atomic(&mut self, st: &mut State, fun: &Rc<Fun>, m: &str, args: &[V]) -> Option<Out> {
        let ptr = args.first()?.clone();
        let V::Ptr(c, _, _) = &ptr else {
            return if m.contains("fence") { Some(Out::Val(V::unit())) } else { None };
        };
        let whole = V::Ptr(*c, Rc::new(vec![]), Meta::None);
        let old = self.load(st, &whole).ok()?;
        let name = match &old {
            V::Term(t) => match &**t {
                TermV::App(h, a) if h == "static" || h == "static*" => Some(a.clone()),
                _ => None,
            },
            _ => None,
        };
        let (place, old) = match &name {
            Some(_) => (whole, old),
            None => match &old {
                // stored by an earlier call: the cell is the value
                V::Int(_) | V::Term(_) => (whole, old),
                _ => {
                    let o = self.load(st, &ptr).ok()?;
                    (ptr.clone(), o)
                }
            },
        };
        if !matches!(old, V::Int(_) | V::Term(_)) {
            return None;
        }
        let some = |n: V| match (&n, &name) {
            (V::Int(_), _) => n,
            (_, Some(a)) => V::term("static*", a.clone()),
            _ => V::term("static*", vec![]),
        };
        let _ = fun;
        let v = match m {
            "atomic_load" => return Some(Out::Val(old)),
            "atomic_store" => {
                self.store(st, &place, args[1].clone()).ok()?;
                return Some(Out::Val(V::unit()));
            }
            "atomic_xchg" => args[1].clone(),
            "atomic_xadd" | "atomic_xsub" | "atomic_and" | "atomic_or" | "atomic_xor" | "atomic_nand" | "atomic_max" | "atomic_min" | "atomic_umax" | "atomic_umin" => {
                match (&old, &args[1], m) {
                    (V::Int(a), V::Int(b), "atomic_and") => V::Int(a & b),
                    (V::Int(a), V::Int(b), "atomic_or") => V::Int(a | b),
                    _ => some(V::term("static*", vec![])),
                }
            }
            "atomic_cxchg" | "atomic_cxchgweak" => {
                let same = match (&old, &args[1]) {
                    (V::Int(a), V::Int(b)) => Some(a == b),
                    _ => None,
                };
                let mut out = vec![];
                for ok in [false, true] {
                    if same == Some(!ok) {
                        continue;
                    }
                    let mut s = st.clone();
                    let got = if ok { args[1].clone() } else { old.clone() };
                    if ok {
                        self.store(&mut s, &place, args[2].clone()).ok()?;
                    }
                    out.push((String::new(), s, V::agg(0, vec![got, V::bool(ok)])));
                }
                return Some(Out::Alts(out));
            }
            _ => return None,
        };
        self.store(st, &place, v).ok()?;
        Some(Out::Val(old))
    }
}
