//! Abstract domain: provenance terms, widened sequences, cells.
use std::collections::BTreeMap;
use std::rc::Rc;

pub type FnId = u32;
pub type TyId = u32;

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum TermV {
    Lit(String),
    /// An opaque value named by where it came from. Heads beginning with `tok:` are values supplied
    /// by the environment; a head ending in `*` stands for any number of such values.
    App(String, Vec<V>),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Meta {
    None,
    Slice,
    Range(u32, u32),
    Dyn(TyId),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Seg {
    One(V),
    /// one or more values described by V
    Star(V),
}

impl Seg {
    pub fn v(&self) -> &V {
        match self {
            Seg::One(v) | Seg::Star(v) => v,
        }
    }
    pub fn v_mut(&mut self) -> &mut V {
        match self {
            Seg::One(v) | Seg::Star(v) => v,
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum V {
    Uninit,
    Int(i128),
    Agg(u32, Rc<Vec<V>>),
    Term(Rc<TermV>),
    Ptr(u32, Rc<Vec<u32>>, Meta),
    ConstRef(Rc<V>, Meta),
    Static(Rc<String>),
    Str(Rc<TermV>),
    OStr(Rc<TermV>),
    Vec(Rc<Vec<Seg>>),
    Fn(FnId),
    Nat(&'static str, Rc<Vec<V>>),
    Map(Rc<BTreeMap<V, V>>),
}

/// Literals that stand for any string the user may have written in their place (VERIF_SYM).
fn symbolic(s: &str) -> bool {
    thread_local!(static SYM: Vec<String> =
        std::env::var("VERIF_SYM").unwrap_or_default().split(',').filter(|x| !x.is_empty()).map(|x| x.into()).collect());
    SYM.with(|x| x.iter().any(|y| y == s))
}

/// The text of a literal, also of one that stands for any string.
pub fn lit_text(t: &TermV) -> Option<&str> {
    match t {
        TermV::Lit(s) => Some(s),
        TermV::App(h, _) => h.strip_prefix("sym:"),
    }
}

impl V {
    pub fn unit() -> V {
        V::Agg(0, Rc::new(vec![]))
    }
    pub fn agg(v: u32, f: Vec<V>) -> V {
        V::Agg(v, Rc::new(f))
    }
    pub fn term(h: &str, args: Vec<V>) -> V {
        V::Term(Rc::new(TermV::App(h.into(), args)))
    }
    pub fn str_lit(s: &str) -> V {
        V::Str(Rc::new(if symbolic(s) { TermV::App(format!("sym:{s}"), vec![]) } else { TermV::Lit(s.into()) }))
    }
    pub fn bool(b: bool) -> V {
        V::Int(b as i128)
    }
    pub fn some(v: V) -> V {
        V::agg(1, vec![v])
    }
    pub fn none() -> V {
        V::agg(0, vec![])
    }
    pub fn is_unit(&self) -> bool {
        matches!(self, V::Agg(0, f) if f.is_empty())
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Fact {
    Is(i128),
    Not(Vec<i128>),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Frame {
    pub f: FnId,
    pub base: u32,
    pub bb: u32,
    pub dest: (u32, Rc<Vec<u32>>),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct State {
    pub frames: Vec<Frame>,
    pub cells: Vec<V>,
    pub statics: BTreeMap<String, u32>,
    pub regs: BTreeMap<String, i128>,
    pub facts: BTreeMap<V, Fact>,
}

/// Does the value mention a summary token?
pub fn is_summary(st: &State, v: &V, depth: usize) -> bool {
    if depth > 12 {
        return false;
    }
    match v {
        V::Term(t) | V::Str(t) | V::OStr(t) => match &**t {
            TermV::Lit(_) => false,
            TermV::App(h, a) => h.ends_with('*') || a.iter().any(|x| is_summary(st, x, depth + 1)),
        },
        V::Agg(_, f) | V::Nat(_, f) => f.iter().any(|x| is_summary(st, x, depth + 1)),
        V::Ptr(c, _, _) => is_summary(st, &st.cells[*c as usize], depth + 1),
        V::ConstRef(v, _) => is_summary(st, v, depth + 1),
        V::Vec(s) => s.iter().any(|x| is_summary(st, x.v(), depth + 1)),
        _ => false,
    }
}

/// Structural equality through owned heap cells.
pub fn same_struct(st: &State, a: &V, b: &V, depth: usize) -> bool {
    if depth > 12 {
        return false;
    }
    match (a, b) {
        (V::Ptr(c, p, m), V::Ptr(d, q, n)) => {
            if c == d {
                return p == q && m == n;
            }
            p == q && m == n && same_struct(st, &st.cells[*c as usize], &st.cells[*d as usize], depth + 1)
        }
        (V::Agg(v, f), V::Agg(w, g)) => v == w && f.len() == g.len() && f.iter().zip(g.iter()).all(|(x, y)| same_struct(st, x, y, depth + 1)),
        (V::Nat(v, f), V::Nat(w, g)) => v == w && f.len() == g.len() && f.iter().zip(g.iter()).all(|(x, y)| same_struct(st, x, y, depth + 1)),
        (V::Vec(f), V::Vec(g)) => {
            f.len() == g.len()
                && f.iter().zip(g.iter()).all(|(x, y)| {
                    matches!((x, y), (Seg::One(_), Seg::One(_)) | (Seg::Star(_), Seg::Star(_))) && same_struct(st, x.v(), y.v(), depth + 1)
                })
        }
        _ => a == b,
    }
}

pub fn get_path<'a>(v: &'a V, path: &[u32]) -> Option<&'a V> {
    let mut cur = v;
    for p in path {
        cur = match cur {
            V::Agg(_, f) | V::Nat(_, f) => f.get(*p as usize)?,
            V::Vec(s) => s.get(*p as usize)?.v(),
            V::Map(m) => m.values().nth(*p as usize)?,
            _ => return None,
        };
    }
    Some(cur)
}

pub fn set_path(v: &mut V, path: &[u32], new: V) -> bool {
    if path.is_empty() {
        *v = new;
        return true;
    }
    let i = path[0] as usize;
    if let V::Uninit = v {
        *v = V::agg(0, vec![]);
    }
    match v {
        V::Agg(_, f) => {
            let f = Rc::make_mut(f);
            while f.len() <= i {
                f.push(V::Uninit);
            }
            set_path(&mut f[i], &path[1..], new)
        }
        V::Nat(_, f) => {
            let f = Rc::make_mut(f);
            if f.len() <= i {
                return false;
            }
            set_path(&mut f[i], &path[1..], new)
        }
        V::Vec(s) => {
            let s = Rc::make_mut(s);
            match s.get_mut(i) {
                Some(Seg::One(x)) => set_path(x, &path[1..], new),
                _ => false,
            }
        }
        V::Map(m) => {
            let m = Rc::make_mut(m);
            match m.values_mut().nth(i) {
                Some(x) => set_path(x, &path[1..], new),
                None => false,
            }
        }
        _ => false,
    }
}

/// Canonical renumbering: keeps live locals and what they reach; everything else disappears.
pub fn canonicalise(st: &State, live: &dyn Fn(usize, &Frame) -> Vec<bool>) -> State {
    let mut out = State { regs: st.regs.clone(), ..Default::default() };
    let mut map: BTreeMap<u32, u32> = BTreeMap::new();
    let mut order: Vec<u32> = vec![];
    let mut dead: BTreeMap<u32, bool> = BTreeMap::new();
    for (i, fr) in st.frames.iter().enumerate() {
        let keep = live(i, fr);
        let nb = order.len() as u32;
        for (l, k) in keep.iter().enumerate() {
            let old = fr.base + l as u32;
            map.insert(old, order.len() as u32);
            order.push(old);
            if !*k {
                dead.insert(old, true);
            }
        }
        out.frames.push(Frame { f: fr.f, base: nb, bb: fr.bb, dest: fr.dest.clone() });
    }
    for (n, c) in &st.statics {
        if !map.contains_key(c) {
            map.insert(*c, order.len() as u32);
            order.push(*c);
        }
        out.statics.insert(n.clone(), map[c]);
    }
    let mut i = 0;
    while i < order.len() {
        let c = order[i];
        i += 1;
        let v = if dead.contains_key(&c) { V::Uninit } else { st.cells[c as usize].clone() };
        let nv = remap(&v, &mut map, &mut order);
        out.cells.push(nv);
    }
    // `out.cells` is filled in the order of `order`, which may have grown meanwhile
    for fr in out.frames.iter_mut() {
        let c = fr.dest.0;
        if c != u32::MAX {
            fr.dest.0 = map.get(&c).copied().unwrap_or(u32::MAX - 1);
        }
    }
    for (k, f) in &st.facts {
        out.facts.insert(k.clone(), f.clone());
    }
    out
}

fn remap(v: &V, map: &mut BTreeMap<u32, u32>, order: &mut Vec<u32>) -> V {
    match v {
        V::Ptr(c, p, m) => {
            let n = match map.get(c) {
                Some(n) => *n,
                None => {
                    let n = order.len() as u32;
                    map.insert(*c, n);
                    order.push(*c);
                    n
                }
            };
            V::Ptr(n, p.clone(), *m)
        }
        V::Agg(t, f) => V::Agg(*t, Rc::new(f.iter().map(|x| remap(x, map, order)).collect())),
        V::Nat(t, f) => V::Nat(t, Rc::new(f.iter().map(|x| remap(x, map, order)).collect())),
        V::Vec(s) => V::Vec(Rc::new(
            s.iter()
                .map(|x| match x {
                    Seg::One(v) => Seg::One(remap(v, map, order)),
                    Seg::Star(v) => Seg::Star(remap(v, map, order)),
                })
                .collect(),
        )),
        V::Map(m) => V::Map(Rc::new(m.iter().map(|(k, x)| (k.clone(), remap(x, map, order))).collect())),
        V::Term(t) => match &**t {
            TermV::App(h, a) if a.iter().any(has_ptr) => {
                V::Term(Rc::new(TermV::App(h.clone(), a.iter().map(|x| remap(x, map, order)).collect())))
            }
            _ => v.clone(),
        },
        _ => v.clone(),
    }
}

fn has_ptr(v: &V) -> bool {
    match v {
        V::Ptr(..) => true,
        V::Agg(_, f) | V::Nat(_, f) => f.iter().any(has_ptr),
        V::Vec(s) => s.iter().any(|x| has_ptr(x.v())),
        V::Term(t) => matches!(&**t, TermV::App(_, a) if a.iter().any(has_ptr)),
        _ => false,
    }
}
