//! Abstract interpreter: explores the abstract transition system of one root to a fixpoint and
//! yields its event graph.
use crate::domain::*;
use crate::mir::*;
use rustc_middle::mir::{BinOp, UnOp};
use rustc_middle::ty::{self, Instance};
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, BTreeSet, HashMap, VecDeque};
use std::hash::{Hash, Hasher};
use std::rc::Rc;

pub struct Edge {
    pub from: usize,
    pub to: usize,
    pub label: String, // empty: tau
    pub site: u32,
}

pub struct Graph {
    pub root: String,
    pub nodes: usize,
    pub edges: Vec<Edge>,
    pub finals: Vec<usize>,
    pub steps: usize,
    pub error: Option<String>,
    pub funs: BTreeSet<String>,
    pub calls: usize,
    pub obs: BTreeSet<(String, String, String)>,
    pub sites: Vec<String>,
}

pub enum Out {
    /// value returned
    Val(V),
    /// alternatives: (label, state, value)
    Alts(Vec<(String, State, V)>),
    Call(FnId, Vec<V>),
    /// path ends quietly
    Stop,
    /// path ends with this event
    End(String),
    Event(String, V),
    NotNative,
}

pub enum Loc {
    Cell(u32, Vec<u32>, Meta),
    Const(V),
    Deref(V),
}

pub struct Engine<'a, 'tcx> {
    pub w: &'a mut World<'tcx>,
    pub max_nodes: usize,
    pub until: std::time::Instant,
    pub site_ids: HashMap<String, u32>,
    pub sites: Vec<String>,
    pub funs: BTreeSet<String>,
    pub calls: usize,
    pub steps: usize,
    pub obs: BTreeSet<(String, String, String)>,
    pub cur_line: u32,
    pub trace: bool,
    pub cur_call: FnId,
}

fn hash128<T: Hash>(t: &T) -> u128 {
    let mut a = DefaultHasher::new();
    1u8.hash(&mut a);
    t.hash(&mut a);
    let mut b = DefaultHasher::new();
    77u64.hash(&mut b);
    t.hash(&mut b);
    0x5bd1e995u32.hash(&mut b);
    ((a.finish() as u128) << 64) | b.finish() as u128
}

enum Step {
    /// (label, state)
    Succ(Vec<(String, State)>),
    /// terminal event (label)
    End(String, Option<State>),
    Quiet,
}

impl<'a, 'tcx> Engine<'a, 'tcx> {
    pub fn explore(&mut self, name: &str, root: FnId) -> Graph {
        self.funs.clear();
        self.obs.clear();
        self.calls = 0;
        self.steps = 0;
        let mut edges: Vec<Edge> = vec![];
        let mut ids: HashMap<u128, usize> = HashMap::new();
        let mut queue: VecDeque<(usize, State)> = VecDeque::new();
        let mut finals = vec![];
        let mut nodes = 0usize;
        let mut error = None;
        let mut st = State::default();
        self.push_frame(&mut st, root, vec![], (u32::MAX, Rc::new(vec![])));
        let st = self.canon(&st);
        ids.insert(hash128(&st), 0);
        nodes += 1;
        queue.push_back((0, st));
        let mut end_ids: HashMap<String, usize> = HashMap::new();
        while let Some((n, st)) = queue.pop_front() {
            if nodes > self.max_nodes {
                error = Some(format!("node budget exceeded ({})", self.max_nodes));
                break;
            }
            if std::time::Instant::now() > self.until {
                error = Some("time budget exceeded".into());
                break;
            }
            match self.run(st) {
                Step::Quiet => {}
                Step::End(label, s) => {
                    let site = match &s {
                        Some(s) => self.site(s),
                        None => 0,
                    };
                    let to = *end_ids.entry(label.clone()).or_insert_with(|| {
                        nodes += 1;
                        finals.push(nodes - 1);
                        nodes - 1
                    });
                    edges.push(Edge { from: n, to, label, site });
                }
                Step::Succ(v) => {
                    for (label, s) in v {
                        let site = self.site(&s);
                        let c = self.canon(&s);
                        let h = hash128(&c);
                        let to = match ids.get(&h) {
                            Some(t) => *t,
                            None => {
                                let t = nodes;
                                nodes += 1;
                                ids.insert(h, t);
                                queue.push_back((t, c));
                                t
                            }
                        };
                        edges.push(Edge { from: n, to, label, site });
                    }
                }
            }
        }
        Graph {
            root: name.into(),
            nodes,
            edges,
            finals,
            steps: self.steps,
            error,
            funs: self.funs.clone(),
            calls: self.calls,
            obs: self.obs.clone(),
            sites: vec![],
        }
    }

    /// innermost frame of the code under analysis
    pub fn site(&mut self, st: &State) -> u32 {
        let mut s = String::new();
        for fr in st.frames.iter().rev() {
            let f = self.w.fns[fr.f as usize].clone();
            if f.krate != "verif_harness" && !f.std && f.krate != "serde_core" && f.krate != "serde" && f.krate != "erased_serde" {
                s = format!("{}:{} {}", f.file, f.line, f.name);
                break;
            }
        }
        if let Some(i) = self.site_ids.get(&s) {
            return *i;
        }
        let i = self.sites.len() as u32;
        self.sites.push(s.clone());
        self.site_ids.insert(s, i);
        i
    }

    fn canon(&mut self, st: &State) -> State {
        let mut keeps: Vec<Vec<bool>> = vec![];
        for fr in &st.frames {
            let f = self.w.get(fr.f);
            let mut k = if (fr.bb as usize) < f.live_in.len() { f.live_in[fr.bb as usize].clone() } else { vec![false; f.nlocals] };
            for (i, a) in f.addr_taken.iter().enumerate() {
                k[i] |= *a;
            }
            keeps.push(k);
        }
        if st.regs.contains_key("at") {
            // in the middle of a block
            if let Some(k) = keeps.last_mut() {
                k.fill(true);
            }
        }
        // destinations of suspended calls keep their cell (not necessarily its contents)
        let mut out = canonicalise(st, &|i, _| keeps[i].clone());
        if !out.facts.is_empty() {
            let mut set: BTreeSet<V> = BTreeSet::new();
            for c in &out.cells {
                collect_terms(c, &mut set, 0);
            }
            // a position in a sequence matters as long as the index does, or the next one
            out.facts.retain(|k, _| match k {
                V::Term(t) => match &**t {
                    TermV::App(h, a) if h == "cursor*" => {
                        set.contains(&a[1])
                            || match a[1] {
                                V::Int(k) => set.contains(&V::Int(k + 1)) || set.iter().any(|x| is_many(x).is_some()),
                                V::Term(_) => is_many(&a[1]).is_some_and(|p| set.contains(&many_of(1 - p))),
                                _ => false,
                            }
                    }
                    // how a number compares with a constant matters as long as the number does
                    TermV::App(h, a) if matches!(h.as_str(), "Lt" | "Le" | "Gt" | "Ge") && a.len() == 2 => {
                        set.contains(k) || matches!(&a[..], [x @ V::Term(_), V::Int(_)] | [V::Int(_), x @ V::Term(_)] if set.contains(x))
                    }
                    _ => set.contains(k),
                },
                _ => set.contains(k),
            });
        }
        out
    }

    pub fn push_frame(&mut self, st: &mut State, f: FnId, args: Vec<V>, dest: (u32, Rc<Vec<u32>>)) {
        let fun = self.w.get(f);
        if !fun.std {
            self.funs.insert(format!("{}|{}:{}|{}", fun.krate, fun.file, fun.line, fun.name));
        }
        let base = st.cells.len() as u32;
        st.cells.push(V::Uninit);
        let n = args.len();
        for a in args {
            st.cells.push(a);
        }
        for _ in n + 1..fun.nlocals {
            st.cells.push(V::Uninit);
        }
        st.frames.push(Frame { f, base, bb: 0, dest });
    }

    pub fn alloc(&mut self, st: &mut State, v: V) -> V {
        let c = st.cells.len() as u32;
        st.cells.push(v);
        V::Ptr(c, Rc::new(vec![]), Meta::None)
    }

    fn unmodelled(&self, what: String) -> String {
        format!("UNMODELLED {what}")
    }

    // ---------------------------------------------------------------- places
    fn locate(&mut self, st: &mut State, p: &Place) -> Result<Loc, String> {
        let fr = st.frames.last().unwrap();
        let base = fr.base;
        let mut loc = Loc::Cell(base + p.local, vec![], Meta::None);
        for e in &p.proj {
            loc = match e {
                Proj::Id => loc,
                Proj::UnitField => Loc::Const(V::unit()),
                Proj::Downcast(_) => loc,
                Proj::Field(i) => match loc {
                    Loc::Cell(c, mut path, m) => {
                        path.push(*i);
                        Loc::Cell(c, path, m)
                    }
                    Loc::Const(v) => {
                        let x = match &v {
                            V::Term(_) => V::term("field", vec![v.clone(), V::Int(*i as i128)]),
                            _ => get_path(&v, &[*i]).cloned().ok_or_else(|| format!("const field {i}"))?,
                        };
                        Loc::Const(x)
                    }
                    Loc::Deref(v) => return Err(format!("field of deref {:?}", v)),
                },
                Proj::Deref => {
                    let v = self.read(st, &loc)?;
                    self.deref(st, &v)?
                }
                Proj::Index(l) => {
                    let iv = st.cells[(base + l) as usize].clone();
                    let i = match &iv {
                        V::Term(_) => {
                            let stars = self.stars_of(st, &loc)?;
                            self.index_seg(st, &iv, &stars)? as u64
                        }
                        V::Int(i) => match self.stars_of(st, &loc) {
                            Ok(stars) if stars.contains(&true) => self.index_seg(st, &iv, &stars)? as u64,
                            _ => *i as u64,
                        },
                        _ => return Err("symbolic index".into()),
                    };
                    self.index(st, loc, i, false)?
                }
                Proj::ConstIndex { off, from_end } => match self.widened(st, &loc)? {
                    Some(w) => {
                        let n = w.len();
                        let off = *off as usize;
                        let ok = if *from_end { off >= 1 && off <= n && !w[n - off + 1..].contains(&true) } else { off < n && !w[..off].contains(&true) };
                        if !ok {
                            return Err("index into widened sequence".into());
                        }
                        self.index(st, loc, (if *from_end { n - off } else { off }) as u64, false)?
                    }
                    None => self.index(st, loc, *off, *from_end)?,
                },
                Proj::Subslice { from, to, from_end } => match loc {
                    Loc::Cell(c, path, m) if *from_end && self.widened(st, &Loc::Cell(c, path.clone(), m))?.is_some() => {
                        let w = self.widened(st, &Loc::Cell(c, path.clone(), m))?.unwrap();
                        let (from, to, n) = (*from as usize, *to as usize, w.len());
                        let (mut from, mut to) = (from, to);
                        if from + to <= n && to == 0 && from > 0 && w[from - 1] && !w[..from - 1].contains(&true) {
                            // the first of several: there are more of them or not
                            from -= (1 - self.pick(st, 2)?) as usize;
                        } else if from + to <= n && from == 0 && to > 0 && w[n - to] && !w[n - to + 1..].contains(&true) {
                            to -= (1 - self.pick(st, 2)?) as usize;
                        } else if from + to > n || w[..from].contains(&true) || w[n - to..].contains(&true) {
                            return Err("part of a widened sequence".into());
                        }
                        let a = if let Meta::Range(a, _) = m { a } else { 0 };
                        Loc::Cell(c, path, Meta::Range(a + from as u32, a + (n - to) as u32))
                    }
                    Loc::Cell(c, path, m) => {
                        let n = self.seq_len(st, &Loc::Cell(c, path.clone(), m))?;
                        let (a, _b) = match m {
                            Meta::Range(a, b) => (a, b),
                            _ => (0, n as u32),
                        };
                        let lo = a + *from as u32;
                        let hi = if *from_end { a + n as u32 - *to as u32 } else { a + *to as u32 };
                        Loc::Cell(c, path, Meta::Range(lo, hi))
                    }
                    _ => return Err("subslice".into()),
                },
            };
        }
        Ok(loc)
    }

    /// One of `n` possibilities inside a statement: the statement is run once for each.
    fn pick(&mut self, st: &mut State, n: i128) -> Result<i128, String> {
        st.regs.remove("pick").ok_or_else(|| format!("\u{2}{n}"))
    }

    pub fn deref(&mut self, st: &mut State, v: &V) -> Result<Loc, String> {
        Ok(match v {
            V::Ptr(c, p, m) => {
                if *c as usize >= st.cells.len() {
                    return Err("dangling pointer".into());
                }
                Loc::Cell(*c, p.to_vec(), *m)
            }
            V::ConstRef(v, m) => match m {
                Meta::None => Loc::Const((**v).clone()),
                _ => Loc::Deref(V::ConstRef(v.clone(), *m)),
            },
            V::Static(n) => {
                let c = match st.statics.get(&**n) {
                    Some(c) => *c,
                    None => {
                        let c = st.cells.len() as u32;
                        st.cells.push(V::term("static", vec![V::str_lit(n)]));
                        st.statics.insert(n.to_string(), c);
                        c
                    }
                };
                Loc::Cell(c, vec![], Meta::None)
            }
            V::Str(_) | V::OStr(_) => Loc::Deref(v.clone()),
            V::Term(_) => Loc::Const(V::term("deref", vec![v.clone()])),
            _ => return Err(format!("deref of {:?}", v)),
        })
    }

    fn stars_of(&mut self, st: &mut State, l: &Loc) -> Result<Vec<bool>, String> {
        match self.segs(st, l)? {
            Some(s) => Ok(s),
            None => Err("symbolic index".into()),
        }
    }

    /// The shape of a (part of a) growable sequence: which of its pieces stand for several elements.
    /// A range names pieces, not elements.
    fn segs(&mut self, st: &mut State, l: &Loc) -> Result<Option<Vec<bool>>, String> {
        let v = match l {
            Loc::Cell(c, p, Meta::Range(..)) => self.read(st, &Loc::Cell(*c, p.clone(), Meta::None))?,
            Loc::Deref(_) => return Ok(None),
            _ => self.read(st, l)?,
        };
        let V::Vec(s) = v else { return Ok(None) };
        let all: Vec<bool> = s.iter().map(|x| matches!(x, Seg::Star(_))).collect();
        Ok(Some(match l {
            Loc::Cell(_, _, Meta::Range(a, b)) => all.get(*a as usize..*b as usize).ok_or("range of sequence")?.to_vec(),
            _ => all,
        }))
    }

    fn widened(&mut self, st: &mut State, l: &Loc) -> Result<Option<Vec<bool>>, String> {
        Ok(self.segs(st, l)?.filter(|s| s.contains(&true)))
    }

    fn seq_len(&mut self, st: &mut State, l: &Loc) -> Result<u64, String> {
        if self.widened(st, l)?.is_some() {
            return Err("length of widened sequence".into());
        }
        match l {
            Loc::Cell(_, _, Meta::Range(a, b)) => Ok((b - a) as u64),
            _ => {
                let v = match l {
                    Loc::Deref(V::ConstRef(v, _)) => (**v).clone(),
                    _ => self.read(st, l)?,
                };
                match v {
                    V::Agg(_, f) => Ok(f.len() as u64),
                    V::Vec(s) => {
                        if s.iter().any(|x| matches!(x, Seg::Star(_))) {
                            Err("length of widened sequence".into())
                        } else {
                            Ok(s.len() as u64)
                        }
                    }
                    _ => Err("length".into()),
                }
            }
        }
    }

    fn index(&mut self, st: &mut State, l: Loc, off: u64, from_end: bool) -> Result<Loc, String> {
        let i = if from_end { self.seq_len(st, &l)?.checked_sub(off).ok_or("index")? } else { off };
        match l {
            Loc::Cell(c, mut p, m) => {
                let a = match m {
                    Meta::Range(a, _) => a,
                    _ => 0,
                };
                p.push(a + i as u32);
                Ok(Loc::Cell(c, p, Meta::None))
            }
            Loc::Const(v) => Ok(Loc::Const(get_path(&v, &[i as u32]).cloned().ok_or("const index")?)),
            Loc::Deref(V::ConstRef(v, m)) => {
                let a = match m {
                    Meta::Range(a, _) => a,
                    _ => 0,
                };
                Ok(Loc::Const(get_path(&v, &[a + i as u32]).cloned().ok_or("const index")?))
            }
            Loc::Deref(V::Str(t)) if matches!(&*t, TermV::Lit(_)) => match &*t {
                TermV::Lit(t) => Ok(Loc::Const(V::Int(*t.as_bytes().get(i as usize).ok_or("index into string")? as i128))),
                _ => unreachable!(),
            },
            Loc::Deref(_) => Err("index into string".into()),
        }
    }

    pub fn read(&mut self, st: &State, l: &Loc) -> Result<V, String> {
        match l {
            Loc::Cell(c, p, _) => {
                let root = st.cells.get(*c as usize).ok_or("bad cell")?;
                match get_path(root, p) {
                    Some(v) => Ok(v.clone()),
                    None => {
                        // field of an opaque object
                        let mut cur = root.clone();
                        for i in p.iter() {
                            cur = match &cur {
                                V::Term(_) => V::term("field", vec![cur.clone(), V::Int(*i as i128)]),
                                V::Uninit => V::Uninit,
                                // a number that is not zero, and its number
                                V::Int(_) if *i == 0 => cur,
                                _ => match get_path(&cur, &[*i]) {
                                    Some(v) => v.clone(),
                                    None => return Err(format!("read path {:?} of {:?}", p, root)),
                                },
                            };
                        }
                        Ok(cur)
                    }
                }
            }
            Loc::Const(v) => Ok(v.clone()),
            Loc::Deref(v) => Ok(v.clone()),
        }
    }

    pub fn write(&mut self, st: &mut State, l: &Loc, v: V) -> Result<(), String> {
        match l {
            Loc::Cell(c, p, _) => {
                let cell = st.cells.get_mut(*c as usize).ok_or("bad cell")?;
                if set_path(cell, p, v) {
                    Ok(())
                } else {
                    Err(format!("write path {:?}", p))
                }
            }
            _ => Err("write to constant".into()),
        }
    }

    fn op(&mut self, st: &mut State, o: &Op) -> Result<V, String> {
        match o {
            Op::Const(v) => Ok(v.clone()),
            Op::Copy(p) => {
                let l = self.locate(st, p)?;
                self.read(st, &l)
            }
            Op::Move(p) => {
                let l = self.locate(st, p)?;
                let v = self.read(st, &l)?;
                if let Loc::Cell(..) = l {
                    let star = match &l {
                        Loc::Cell(c, path, _) => path_star(&st.cells[*c as usize], path),
                        _ => false,
                    };
                    if !star {
                        let _ = self.write(st, &l, V::Uninit);
                    }
                }
                Ok(v)
            }
        }
    }

    fn ref_of(&mut self, st: &mut State, p: &Place) -> Result<V, String> {
        let l = self.locate(st, p)?;
        Ok(match l {
            Loc::Cell(c, p, m) => V::Ptr(c, Rc::new(p), m),
            Loc::Deref(v) => v,
            Loc::Const(V::Term(t)) => match &*t {
                TermV::App(h, a) if h == "deref" => a[0].clone(),
                _ => V::ConstRef(Rc::new(V::Term(t.clone())), Meta::None),
            },
            Loc::Const(v) => V::ConstRef(Rc::new(v), Meta::None),
        })
    }

    fn int_ty(&self, t: TyId) -> (u32, bool) {
        match self.w.tys[t as usize].kind() {
            ty::Int(i) => (i.bit_width().unwrap_or(64) as u32, true),
            ty::Uint(i) => (i.bit_width().unwrap_or(64) as u32, false),
            ty::Bool => (8, false),
            ty::Char => (32, false),
            _ => (128, true),
        }
    }
    fn wrap(&self, v: i128, t: TyId) -> i128 {
        let (w, s) = self.int_ty(t);
        if w >= 128 {
            return v;
        }
        let m = (1i128 << w) - 1;
        let x = v & m;
        if s && (x >> (w - 1)) & 1 == 1 {
            x - (1i128 << w)
        } else {
            x
        }
    }

    fn bin(&mut self, st: &State, b: BinOp, x: V, y: V, t: TyId) -> Result<V, String> {
        use BinOp as B;
        // string/pointer identity is never modelled
        if let Some(v) = self.bin_many(st, b, &x, &y, t) {
            return Ok(v);
        }
        if let (V::Int(a), V::Int(c)) = (&x, &y) {
            let (a, c) = (*a, *c);
            let r = match b {
                B::Add | B::AddUnchecked => self.wrap(a.wrapping_add(c), t),
                B::Sub | B::SubUnchecked => self.wrap(a.wrapping_sub(c), t),
                B::Mul | B::MulUnchecked => self.wrap(a.wrapping_mul(c), t),
                B::AddWithOverflow | B::SubWithOverflow | B::MulWithOverflow => {
                    let r = match b {
                        B::AddWithOverflow => a.wrapping_add(c),
                        B::SubWithOverflow => a.wrapping_sub(c),
                        _ => a.wrapping_mul(c),
                    };
                    let w = self.wrap(r, t);
                    return Ok(V::agg(0, vec![V::Int(w), V::bool(w != r)]));
                }
                B::Div => {
                    if c == 0 {
                        return Err("div".into());
                    }
                    a / c
                }
                B::Rem => {
                    if c == 0 {
                        return Err("rem".into());
                    }
                    a % c
                }
                B::BitXor => self.wrap(a ^ c, t),
                B::BitAnd => self.wrap(a & c, t),
                B::BitOr => self.wrap(a | c, t),
                B::Shl | B::ShlUnchecked => self.wrap(a << (c & 127), t),
                B::Shr | B::ShrUnchecked => self.wrap(a >> (c & 127), t),
                B::Eq => (a == c) as i128,
                B::Ne => (a != c) as i128,
                B::Lt => (a < c) as i128,
                B::Le => (a <= c) as i128,
                B::Gt => (a > c) as i128,
                B::Ge => (a >= c) as i128,
                B::Cmp => {
                    let o = a.cmp(&c) as i32 + 1;
                    return Ok(V::agg(o as u32, vec![]));
                }
                B::Offset => return Err("pointer offset".into()),
            };
            return Ok(V::Int(r));
        }
        let symbolic = |v: &V| matches!(v, V::Term(_) | V::Int(_));
        // what a loop adds up is any number at some point
        fn deep(v: &V, n: usize) -> bool {
            n == 0 || matches!(v, V::Term(t) if matches!(&**t, TermV::App(_, a) if a.iter().any(|x| deep(x, n - 1))))
        }
        let tame = |v: V| match &v {
            V::Term(t) if matches!(&**t, TermV::App(h, _) if matches!(h.as_str(), "+" | "-" | "*") || h.starts_with(char::is_uppercase)) && deep(&v, 5) && is_summary(st, &v, 0) => V::term("any*", vec![]),
            _ => v,
        };
        let far = |v: V| match &v {
            V::Term(t) if matches!(&**t, TermV::App(h, a) if h == "+" && matches!(a[1], V::Int(k) if k.abs() > 8)) && is_summary(st, &v, 0) => V::term("any*", vec![]),
            _ => v,
        };
        let (x, y) = (far(tame(x)), far(tame(y)));
        let any = |v: &V| matches!(v, V::Term(t) if matches!(&**t, TermV::App(h, _) if h == "any*"));
        if (any(&x) || any(&y)) && symbolic(&x) && symbolic(&y) {
            let any = V::term("any*", vec![]);
            match b {
                B::Add | B::AddUnchecked | B::Sub | B::SubUnchecked => return Ok(any),
                B::AddWithOverflow | B::SubWithOverflow if self.int_ty(t).0 >= 32 => return Ok(V::agg(0, vec![any, V::Int(0)])),
                _ => {}
            }
        }
        let float = matches!(self.w.tys[t as usize].kind(), ty::Float(_));
        match b {
            B::AddWithOverflow if symbolic(&x) && symbolic(&y) && self.int_ty(t).0 >= 32 && [&x, &y].iter().any(|v| matches!(v, V::Term(t) if matches!(&**t, TermV::App(h, _) if h == "any*" || h.starts_with("of:"))) && is_summary(st, v, 0)) => {
                Ok(V::agg(0, vec![lin("+", x, y), V::Int(0)]))
            }
            B::AddWithOverflow | B::SubWithOverflow | B::MulWithOverflow if symbolic(&x) && symbolic(&y) => {
                let op = match b {
                    B::AddWithOverflow => "+",
                    B::SubWithOverflow => "-",
                    _ => "*",
                };
                let r = lin(op, x, y);
                let o = V::term("overflow", vec![r.clone()]);
                Ok(V::agg(0, vec![r, o]))
            }
            B::Add | B::AddUnchecked if symbolic(&x) && symbolic(&y) => Ok(lin("+", x, y)),
            B::Sub | B::SubUnchecked if symbolic(&x) && symbolic(&y) => Ok(lin("-", x, y)),
            B::Eq | B::Ne if x == y && !float && !is_summary(st, &x, 0) && !matches!(x, V::Uninit) => Ok(V::bool(b == B::Eq)),
            B::Eq | B::Ne if x == y && matches!(&x, V::Term(t) if matches!(&**t, TermV::App(h, _) if h == "hint")) => Ok(V::bool(b == B::Eq)),
            _ if symbolic(&x) && symbolic(&y) => {
                if let Some(v) = index_cmp(b, &x, &y) {
                    return Ok(v);
                }
                if let (V::Int(_), V::Term(tm)) = (&x, &y) {
                    if matches!(&**tm, TermV::App(h, _) if h == "len>=*") {
                        let flipped = match b {
                            B::Eq | B::Ne => Some(b),
                            B::Le => Some(B::Ge),
                            B::Gt => Some(B::Lt),
                            _ => None,
                        };
                        if let Some(f) = flipped {
                            return self.bin(st, f, y, x, t);
                        }
                    }
                }
                // length of a widened sequence is at least the number of its segments
                if let (V::Term(tm), V::Int(k)) = (&x, &y) {
                    if let TermV::App(h, a) = &**tm {
                        if h == "len>=*" {
                            if let V::Int(n) = a[0] {
                                match b {
                                    B::Eq if *k < n => return Ok(V::bool(false)),
                                    B::Ne if *k < n => return Ok(V::bool(true)),
                                    B::Gt if *k < n => return Ok(V::bool(true)),
                                    B::Ge if *k <= n => return Ok(V::bool(true)),
                                    B::Lt if *k <= n => return Ok(V::bool(false)),
                                    B::Le if *k < n => return Ok(V::bool(false)),
                                    _ => {}
                                }
                            }
                        }
                    }
                }
                if let B::Ne = b {
                    let e = V::term("Eq", vec![x, y]);
                    return Ok(V::term("not", vec![e]));
                }
                Ok(V::term(&format!("{:?}", b), vec![x, y]))
            }
            _ => Err(format!("binop {:?} {:?} {:?}", b, x, y)),
        }
    }

    /// Counters of widened loops: more than MANY increments become one summary value.
    fn bin_many(&self, st: &State, b: BinOp, x: &V, y: &V, t: TyId) -> Option<V> {
        use BinOp as B;
        let max = *st.regs.get("many").unwrap_or(&7);
        let many = |v: &V| is_many(v).is_some();
        let (bits, _) = self.int_ty(t);
        let int = matches!(self.w.tys[t as usize].kind(), ty::Uint(_) | ty::Int(_));
        let plus = |b: B, v: V| match b {
            B::Add | B::AddUnchecked => Some(v),
            // counting up to the end of a narrow type is possible, of a wide one is not
            B::AddWithOverflow if bits < 32 => Some(V::agg(0, vec![v.clone(), V::term("overflow", vec![v])])),
            B::AddWithOverflow => Some(V::agg(0, vec![v, V::Int(0)])),
            _ => None,
        };
        if let (V::Int(a), V::Int(1), B::Sub | B::SubUnchecked | B::SubWithOverflow) = (x, y, b) {
            // counting down from a large number
            if int && bits == 64 && *a > 64 && *a < 1 << 48 {
                let any = V::term("any*", vec![]);
                return Some(if b == B::SubWithOverflow { V::agg(0, vec![any, V::Int(0)]) } else { any });
            }
        }
        if let (V::Int(a), V::Int(1)) = (x, y) {
            if int && *a >= max && *a < 100 {
                return plus(b, many_of(0));
            }
        }
        if many(y) && (many(x) || matches!(x, V::Int(k) if *k >= 0)) {
            if let Some(v) = plus(b, many_of(2)) {
                return Some(v);
            }
        }
        if many(x) && matches!(y, V::Int(k) if *k >= 0) {
            let next = match (y, is_many(x)) {
                (V::Int(0), Some(p)) => many_of(p),
                (V::Int(1), Some(p @ (0 | 1))) => many_of(1 - p),
                _ => many_of(2),
            };
            if let Some(v) = plus(b, next) {
                return Some(v);
            }
            let V::Int(k) = y else { return None };
            if *k <= max {
                return match b {
                    B::Eq | B::Lt | B::Le => Some(V::Int(0)),
                    B::Ne | B::Gt | B::Ge => Some(V::Int(1)),
                    _ => None,
                };
            }
        }
        if many(y) && matches!(x, V::Int(k) if *k >= 0 && *k <= max) {
            return match b {
                B::Eq | B::Gt | B::Ge => Some(V::Int(0)),
                B::Ne | B::Lt | B::Le => Some(V::Int(1)),
                _ => None,
            };
        }
        None
    }

    fn rvalue(&mut self, st: &mut State, r: &Rv) -> Result<V, String> {
        Ok(match r {
            Rv::Use(o) | Rv::Transparent(o) => self.op(st, o)?,
            Rv::Repeat(o, n) => {
                let v = self.op(st, o)?;
                if *n > 4096 {
                    return Err("large array".into());
                }
                V::agg(0, vec![v; *n as usize])
            }
            Rv::Ref(p) => self.ref_of(st, p)?,
            Rv::Cast(k, o) => {
                let v = self.op(st, o)?;
                match k {
                    CastK::Id | CastK::UnsizeOther => v,
                    CastK::Float => match v {
                        V::Int(_) => V::term("float", vec![v]),
                        _ => V::term("cast", vec![v]),
                    },
                    CastK::Int(t) => match v {
                        V::Int(i) => V::Int(self.wrap(i, *t)),
                        V::Term(ref tm) => match &**tm {
                            TermV::App(h, _) if h == "len>=*" => v,
                            _ => {
                                let (w, s) = self.int_ty(*t);
                                V::term(&format!("as_{}{}", if s { "i" } else { "u" }, w), vec![v])
                            }
                        },
                        V::Agg(i, f) if f.is_empty() => V::Int(self.wrap(i as i128, *t)),
                        _ => return Err("int cast".into()),
                    },
                    CastK::UnsizeSlice => match v {
                        V::Ptr(c, p, _) => V::Ptr(c, p, Meta::Slice),
                        V::ConstRef(v, _) => V::ConstRef(v, Meta::Slice),
                        _ => v,
                    },
                    CastK::UnsizeDyn(t) => match v {
                        V::Ptr(c, p, _) => V::Ptr(c, p, Meta::Dyn(*t)),
                        V::ConstRef(v, _) => V::ConstRef(v, Meta::Dyn(*t)),
                        V::Str(_) | V::OStr(_) | V::Term(_) => {
                            // pointer to an unsized or opaque thing: keep it behind a cell
                            let c = st.cells.len() as u32;
                            st.cells.push(v);
                            V::Ptr(c, Rc::new(vec![]), Meta::Dyn(*t))
                        }
                        V::Static(_) => {
                            let l = self.deref(st, &v)?;
                            match l {
                                Loc::Cell(c, p, _) => V::Ptr(c, Rc::new(p), Meta::Dyn(*t)),
                                _ => return Err("static dyn".into()),
                            }
                        }
                        _ => return Err(format!("unsize {:?}", v)),
                    },
                    CastK::FnPtr(f) => V::Fn(*f),
                }
            }
            Rv::Bin(b, x, y, t) => {
                let x = self.op(st, x)?;
                let y = self.op(st, y)?;
                self.bin(st, *b, x, y, *t)?
            }
            Rv::Un(u, o, t) => {
                let v = self.op(st, o)?;
                match (u, &v) {
                    (UnOp::Not, V::Int(i)) => {
                        if let ty::Bool = self.w.tys[*t as usize].kind() {
                            V::bool(*i == 0)
                        } else {
                            V::Int(self.wrap(!*i, *t))
                        }
                    }
                    (UnOp::Neg, V::Int(i)) => V::Int(self.wrap(-*i, *t)),
                    (UnOp::Not, V::Term(tm)) => match &**tm {
                        TermV::App(h, a) if h == "not" => a[0].clone(),
                        _ => V::term("not", vec![v.clone()]),
                    },
                    (UnOp::Neg, V::Term(_)) => V::term("neg", vec![v.clone()]),
                    (UnOp::PtrMetadata, _) => self.ptr_meta(st, &v)?,
                    _ => return Err(format!("unop {:?}", u)),
                }
            }
            Rv::Discr(p, tab, only) => {
                let l = self.locate(st, p)?;
                let v = self.read(st, &l)?;
                match v {
                    V::Agg(i, _) => V::Int(*tab.get(i as usize).unwrap_or(&(i as i128))),
                    V::Term(ref t) if matches!(&**t, TermV::App(h, _) if h == "captured") => {
                        return Err(format!("\u{1}looks inside {}", self.desc(st, &v, 0)));
                    }
                    V::Term(_) => V::term("discr", vec![v]),
                    V::Int(i) => V::Int(i),
                    V::Uninit if only.is_some() => V::Int(only.unwrap_or(0)),
                    _ => return Err(format!("discriminant of {:?}", v)),
                }
            }
            Rv::Agg(v, ops) => {
                let mut f = vec![];
                for o in ops {
                    f.push(self.op(st, o)?);
                }
                V::agg(*v, f)
            }
            Rv::RawPtr(a, _m) => self.op(st, a)?,
            Rv::Unsupported(s) => return Err(s.clone()),
        })
    }

    pub fn ptr_meta(&mut self, st: &mut State, v: &V) -> Result<V, String> {
        match v {
            V::Str(t) => Ok(str_len(t)),
            V::Ptr(..) | V::ConstRef(..) => {
                let l = self.deref(st, v)?;
                self.len_of(st, &l)
            }
            _ => Err("ptr metadata".into()),
        }
    }

    pub fn len_of(&mut self, st: &mut State, l: &Loc) -> Result<V, String> {
        if let Some(w) = self.widened(st, l).unwrap_or(None) {
            let s: Vec<Seg> = w.into_iter().map(|x| if x { Seg::Star(V::unit()) } else { Seg::One(V::unit()) }).collect();
            return Ok(vec_len(&s));
        }
        let v = match l {
            Loc::Cell(_, _, Meta::Range(a, b)) => return Ok(V::Int((b - a) as i128)),
            Loc::Deref(V::ConstRef(_, Meta::Range(a, b))) => return Ok(V::Int((b - a) as i128)),
            Loc::Deref(V::ConstRef(v, _)) => (**v).clone(),
            _ => self.read(st, l)?,
        };
        match v {
            V::Agg(_, f) => Ok(V::Int(f.len() as i128)),
            V::Vec(s) => Ok(vec_len(&s)),
            V::Str(t) | V::OStr(t) => Ok(str_len(&t)),
            _ => Err(format!("length of {:?}", v)),
        }
    }

    // ---------------------------------------------------------------- stepping
    fn run(&mut self, mut st: State) -> Step {
        let mut local_steps = 0usize;
        loop {
            self.steps += 1;
            local_steps += 1;
            if local_steps > 2_000_000 {
                return Step::End(self.unmodelled("step budget".into()), Some(st));
            }
            let (fid, bb) = match st.frames.last() {
                Some(f) => (f.f, f.bb),
                None => return Step::Quiet,
            };
            let fun = self.w.get(fid);
            let Some(block) = fun.blocks.get(bb as usize) else {
                return Step::End(self.unmodelled(format!("no body {}", fun.name)), Some(st));
            };
            if self.trace {
                eprintln!("{}{} bb{}", " ".repeat(st.frames.len()), fun.name, bb);
            }
            let from = if st.regs.is_empty() { 0 } else { st.regs.remove("at").unwrap_or(0) as usize };
            for (at, s) in block.stmts.iter().enumerate().skip(from) {
                let r = match s {
                    Stmt::Assign(p, rv, line) => {
                        self.cur_line = *line;
                        match self.rvalue(&mut st, rv) {
                            Ok(v) => match self.locate(&mut st, p) {
                                Ok(l) => self.write(&mut st, &l, v),
                                Err(e) => Err(e),
                            },
                            Err(e) => Err(e),
                        }
                    }
                    Stmt::SetDiscr(p, i) => match self.locate(&mut st, p) {
                        Ok(l) => {
                            let old = self.read(&st, &l).unwrap_or(V::Uninit);
                            let nv = match old {
                                V::Agg(_, f) => V::Agg(*i, f),
                                _ => V::agg(*i, vec![]),
                            };
                            self.write(&mut st, &l, nv)
                        }
                        Err(e) => Err(e),
                    },
                    Stmt::Dead(l) => {
                        let b = st.frames.last().unwrap().base;
                        st.cells[(b + l) as usize] = V::Uninit;
                        Ok(())
                    }
                    Stmt::Live(_) | Stmt::Nop => Ok(()),
                };
                if let Err(e) = r {
                    if let Some(n) = e.strip_prefix('\u{2}') {
                        st.regs.insert("at".into(), at as i128);
                        let alt = |k| {
                            let mut s = st.clone();
                            s.regs.insert("pick".into(), k);
                            (String::new(), s)
                        };
                        return Step::Succ((0..n.parse().unwrap_or(0)).map(alt).collect());
                    }
                    if let Some(l) = e.strip_prefix('\u{1}') {
                        return Step::End(l.to_string(), Some(st));
                    }
                    let m = self.unmodelled(format!("{} in {} ({}:{})", e, fun.name, fun.file, self.cur_line));
                    return Step::End(m, Some(st));
                }
            }
            match &block.term {
                Term::Goto(b) => {
                    let back = *b <= bb;
                    st.frames.last_mut().unwrap().bb = *b;
                    if back {
                        return Step::Succ(vec![(String::new(), st)]);
                    }
                }
                Term::Drop(_, b) => st.frames.last_mut().unwrap().bb = *b,
                Term::Unreachable => return Step::Quiet,
                Term::Unsupported(s) => {
                    let m = self.unmodelled(format!("{} in {}", s, fun.name));
                    return Step::End(m, Some(st));
                }
                Term::Return => {
                    let fr = st.frames.pop().unwrap();
                    let v = st.cells[fr.base as usize].clone();
                    if st.frames.is_empty() {
                        return Step::End(format!("return {}", self.desc(&st, &v, 0)), None);
                    }
                    if fr.dest.0 != u32::MAX && fr.dest.0 != u32::MAX - 1 {
                        let l = Loc::Cell(fr.dest.0, fr.dest.1.to_vec(), Meta::None);
                        if let Err(e) = self.write(&mut st, &l, v) {
                            let m = self.unmodelled(format!("{} returning from {}", e, fun.name));
                            return Step::End(m, Some(st));
                        }
                    }
                    // drop the frame's cells if nothing was allocated after them
                    if st.cells.len() == (fr.base as usize + fun.nlocals) && !any_ptr_ge(&st, fr.base) {
                        st.cells.truncate(fr.base as usize);
                    }
                }
                Term::Assert { cond, expected, msg, target, line } => {
                    self.cur_line = *line;
                    let c = match self.op(&mut st, cond) {
                        Ok(c) => c,
                        Err(e) => return Step::End(self.unmodelled(e), Some(st)),
                    };
                    match c {
                        V::Int(i) => {
                            if (i != 0) == *expected {
                                st.frames.last_mut().unwrap().bb = *target;
                            } else {
                                return Step::End(format!("PANIC {msg} ({}:{})", fun.file, line), Some(st));
                            }
                        }
                        t => {
                            let known = *expected && msg == "index out of bounds" && self.index_known(&st, &t);
                            let alts = if known { vec![(Some(1), st.clone())] } else { self.branch(&st, &t, &[0]) };
                            let mut out = vec![];
                            for (val, mut s) in alts {
                                let truth = val != Some(0);
                                if truth == *expected {
                                    s.frames.last_mut().unwrap().bb = *target;
                                    out.push((String::new(), s));
                                } else {
                                    self.obs.insert(("may_panic".into(), format!("{msg}: {}", self.desc(&st, &t, 0)), format!("{}:{} {}", fun.file, line, fun.name)));
                                }
                            }
                            return Step::Succ(out);
                        }
                    }
                }
                Term::Switch(o, targets, other, _) => {
                    let v = match self.op_nomove(&mut st, o) {
                        Ok(v) => v,
                        Err(e) => return Step::End(self.unmodelled(e), Some(st)),
                    };
                    match v {
                        V::Int(i) => {
                            let t = targets.iter().find(|t| t.0 == i).map(|t| t.1).unwrap_or(*other);
                            let back = t <= bb;
                            st.frames.last_mut().unwrap().bb = t;
                            if back {
                                return Step::Succ(vec![(String::new(), st)]);
                            }
                        }
                        V::Term(_) => {
                            let vals: Vec<i128> = targets.iter().map(|t| t.0).collect();
                            let alts = self.branch(&st, &v, &vals);
                            let mut out = vec![];
                            for (val, mut s) in alts {
                                let t = match val {
                                    Some(x) => targets.iter().find(|t| t.0 == x).map(|t| t.1).unwrap_or(*other),
                                    None => *other,
                                };
                                s.frames.last_mut().unwrap().bb = t;
                                out.push((String::new(), s));
                            }
                            return Step::Succ(out);
                        }
                        x => {
                            let m = self.unmodelled(format!("switch on {:?} in {} ({}:{})", x, fun.name, fun.file, self.cur_line));
                            return Step::End(m, Some(st));
                        }
                    }
                }
                Term::Call { callee, args, dest, target, line, rust_call } => {
                    self.cur_line = *line;
                    self.calls += 1;
                    let mut av = vec![];
                    for a in args {
                        match self.op(&mut st, a) {
                            Ok(v) => av.push(v),
                            Err(e) => {
                                let m = self.unmodelled(format!("{} in {} ({}:{})", e, fun.name, fun.file, line));
                                return Step::End(m, Some(st));
                            }
                        }
                    }
                    let dl = match self.locate(&mut st, dest) {
                        Ok(Loc::Cell(c, p, _)) => (c, Rc::new(p)),
                        _ => return Step::End(self.unmodelled("call destination".into()), Some(st)),
                    };
                    let mut fptr = false;
                    let id = match callee {
                        Callee::Fn(i) => *i,
                        Callee::Virtual(vid) => match self.virtual_target(&st, *vid, &av) {
                            Ok(i) => i,
                            Err(e) => {
                                let m = self.unmodelled(format!("{} in {} ({}:{})", e, fun.name, fun.file, line));
                                return Step::End(m, Some(st));
                            }
                        },
                        Callee::Ptr(o) => {
                            fptr = true;
                            let f = match self.op(&mut st, o) {
                                Ok(f) => f,
                                Err(e) => return Step::End(self.unmodelled(e), Some(st)),
                            };
                            match f {
                                V::Fn(i) => i,
                                V::Term(_) => match self.apply_opaque_fn(&mut st, f, &mut av) {
                                    Ok(i) => i,
                                    Err(e) => {
                                        let m = self.unmodelled(format!("{} in {} ({}:{})", e, fun.name, fun.file, line));
                                        return Step::End(m, Some(st));
                                    }
                                },
                                _ => return Step::End(self.unmodelled("call of non-function".into()), Some(st)),
                            }
                        }
                    };
                    match self.do_call(st, id, av, dl, *target, *rust_call, fptr) {
                        Ok(s) => st = s,
                        Err(step) => return step,
                    }
                }
            }
        }
    }

    fn op_nomove(&mut self, st: &mut State, o: &Op) -> Result<V, String> {
        match o {
            Op::Move(p) | Op::Copy(p) => {
                let l = self.locate(st, p)?;
                self.read(st, &l)
            }
            Op::Const(v) => Ok(v.clone()),
        }
    }

    /// `i < len` of a widened sequence: the segments that element `i` may belong to (None: the
    /// sequence has ended). An index is followed through the sequence by the segment it reached when
    /// it was last compared with the length.
    pub fn index_branch(&self, st: &State, t: &V) -> Option<Vec<(Option<usize>, State)>> {
        let V::Term(tm) = t else { return None };
        let TermV::App(h, a) = &**tm else { return None };
        if h != "idx<" {
            return None;
        }
        let V::Term(l) = &a[1] else { return None };
        let TermV::App(_, la) = &**l else { return None };
        let V::Str(shape) = &la[1] else { return None };
        let TermV::Lit(shape) = &**shape else { return None };
        let stars: Vec<bool> = shape.chars().map(|c| c == '*').collect();
        let first = stars.iter().position(|x| *x)?;
        let seg_of = |v: &V| st.facts.get(&V::term("cursor*", vec![la[1].clone(), v.clone()])).cloned();
        let i = &a[0];
        if let Some(Fact::Is(seg)) = seg_of(i) {
            return Some(vec![(Some(seg as usize), st.clone())]);
        }
        let prev = match i {
            V::Int(k) if *k == first as i128 + 1 => Some((None, first)),
            V::Int(k) => {
                let p = V::Int(*k - 1);
                match seg_of(&p) {
                    Some(Fact::Is(s)) => Some((Some(p), s as usize)),
                    _ => None,
                }
            }
            _ => {
                let max = *st.regs.get("many").unwrap_or(&7);
                let before = match is_many(i) {
                    Some(0) => vec![many_of(1), V::Int(max)],
                    Some(1) => vec![many_of(0)],
                    _ => vec![],
                };
                before.into_iter().find_map(|p| match seg_of(&p) {
                    Some(Fact::Is(s)) => Some((Some(p), s as usize)),
                    _ => None,
                })
            }
        };
        let Some((p, seg)) = prev else {
            // not a walk from the start: nothing is known about the element
            let k = if let V::Int(k) = i { *k } else { i128::MAX };
            let mut out = vec![(Some(usize::MAX), st.clone())];
            if k >= stars.len() as i128 {
                out.push((None, st.clone()));
            }
            return Some(out);
        };
        let mut base = st.clone();
        if let Some(p) = p {
            base.facts.remove(&V::term("cursor*", vec![la[1].clone(), p]));
        }
        let mut out = vec![];
        let mut to = |seg: usize| {
            let mut s = base.clone();
            s.facts.insert(V::term("cursor*", vec![la[1].clone(), i.clone()]), Fact::Is(seg as i128));
            out.push((Some(seg), s));
        };
        if stars[seg] {
            to(seg);
        }
        if seg + 1 < stars.len() {
            to(seg + 1);
        } else {
            out.push((None, base));
        }
        Some(out)
    }

    fn index_known(&self, st: &State, t: &V) -> bool {
        let V::Term(tm) = t else { return false };
        let TermV::App(h, a) = &**tm else { return false };
        if h != "idx<" {
            return false;
        }
        let V::Term(l) = &a[1] else { return false };
        let TermV::App(_, la) = &**l else { return false };
        st.facts.contains_key(&V::term("cursor*", vec![la[1].clone(), a[0].clone()]))
    }

    /// The segment of a widened sequence that an index which was compared with its length refers to.
    pub fn index_seg(&self, st: &State, i: &V, segs: &[bool]) -> Result<usize, String> {
        let first = segs.iter().position(|x| *x).unwrap_or(segs.len());
        if let V::Int(k) = i {
            if *k >= 0 && *k as usize <= first {
                return Ok(*k as usize);
            }
        }
        let shape: String = segs.iter().map(|x| if *x { '*' } else { '1' }).collect();
        match st.facts.get(&V::term("cursor*", vec![V::str_lit(&shape), i.clone()])) {
            Some(Fact::Is(s)) => Ok(*s as usize),
            _ => Err("index into widened sequence".into()),
        }
    }

    /// Split on the value of a symbolic scalar: one alternative per listed value, plus "none of them".
    pub fn branch(&mut self, st: &State, t: &V, vals: &[i128]) -> Vec<(Option<i128>, State)> {
        if let Some(alts) = self.index_branch(st, t) {
            return alts
                .into_iter()
                .map(|(seg, s)| {
                    let v: i128 = seg.is_some() as i128;
                    (if vals.contains(&v) { Some(v) } else { None }, s)
                })
                .collect();
        }
        // look through negation so that facts are shared
        if let V::Term(tm) = t {
            if let TermV::App(h, a) = &**tm {
                if h == "not" {
                    let inner = self.branch(st, &a[0], &[0]);
                    return inner
                        .into_iter()
                        .map(|(v, s)| {
                            let truth = v != Some(0);
                            let mine: i128 = if truth { 0 } else { 1 };
                            (if vals.contains(&mine) { Some(mine) } else { None }, s)
                        })
                        .collect();
                }
            }
        }
        let summary = is_summary(st, t, 0);
        if !summary {
            if let Some(Fact::Is(i)) = st.facts.get(t) {
                let i = *i;
                return vec![(if vals.contains(&i) { Some(i) } else { None }, st.clone())];
            }
        }
        let excl: Vec<i128> = match st.facts.get(t) {
            Some(Fact::Not(x)) if !summary => x.clone(),
            _ => vec![],
        };
        let mut out = vec![];
        let boolean = is_bool_term(t);
        // a widened sequence has at least one element for each piece, a summarised counter passed the largest told apart
        let least = match t {
            V::Term(tm) => match &**tm {
                TermV::App(h, a) if h == "len>=*" => match a[0] {
                    V::Int(n) => n,
                    _ => 0,
                },
                _ if is_many(t).is_some() => *st.regs.get("many").unwrap_or(&7) + 1,
                _ => i128::MIN,
            },
            _ => i128::MIN,
        };
        for v in vals {
            if *v < least {
                continue;
            }
            if excl.contains(v) {
                continue;
            }
            let mut s = st.clone();
            if !summary {
                s.facts.insert(t.clone(), Fact::Is(*v));
            }
            out.push((Some(*v), s));
        }
        let mut s = st.clone();
        if !summary {
            if boolean && vals == [0] {
                s.facts.insert(t.clone(), Fact::Is(1));
            } else {
                let mut e = excl;
                e.extend_from_slice(vals);
                e.sort();
                e.dedup();
                s.facts.insert(t.clone(), Fact::Not(e));
            }
        }
        out.push((None, s));
        out
    }

    fn virtual_target(&mut self, st: &State, vid: u32, args: &[V]) -> Result<FnId, String> {
        let (d, gargs) = self.w.virt[vid as usize];
        let mut recv = args.first().cloned().ok_or("virtual call without receiver")?;
        // receivers may be references to references to objects only through auto-deref, which MIR made explicit
        for _ in 0..2 {
            match &recv {
                V::Ptr(_, _, Meta::Dyn(_)) | V::ConstRef(_, Meta::Dyn(_)) => break,
                V::Ptr(c, p, _) => {
                    if let Some(v) = get_path(&st.cells[*c as usize], p) {
                        recv = v.clone();
                    }
                }
                _ => break,
            }
        }
        let tid = match recv {
            V::Ptr(_, _, Meta::Dyn(t)) | V::ConstRef(_, Meta::Dyn(t)) => t,
            _ => return Err(format!("virtual call on {:?}", recv)),
        };
        let tcx = self.w.tcx;
        let t = self.w.tys[tid as usize];
        let nargs = tcx.mk_args_trait(t, gargs.iter().skip(1));
        match Instance::try_resolve(tcx, self.w.env, d, nargs) {
            Ok(Some(i)) => Ok(self.w.fn_id(i)),
            _ => Err(format!("virtual {} on {}", tcx.def_path_str(d), t)),
        }
    }

    /// An opaque deserialize function applied to an erased deserializer: hand the concrete
    /// deserializer to the environment's model of a concrete type.
    fn apply_opaque_fn(&mut self, st: &mut State, f: V, args: &mut Vec<V>) -> Result<FnId, String> {
        let Some(V::Ptr(c, p, Meta::Dyn(t))) = args.first().cloned() else {
            return Err("opaque function called with unexpected argument".into());
        };
        let tcx = self.w.tcx;
        let ty = self.w.tys[t as usize];
        // erased_serde::de::erase::Deserializer { state: Option<D> }
        let ty::Adt(d, gargs) = ty.kind() else { return Err("not an erased deserializer".into()) };
        if tcx.crate_name(d.did().krate).as_str() != "erased_serde" || tcx.item_name(d.did()).as_str() != "Deserializer" {
            return Err(format!("opaque function applied to {ty}"));
        }
        let dty = gargs.types().next().ok_or("no D")?;
        let obj = get_path(&st.cells[c as usize], &p).cloned().ok_or("erased object")?;
        let inner = match get_path(&obj, &[0]) {
            Some(V::Agg(1, f)) => f[0].clone(),
            other => return Err(format!("erased deserializer state {:?}", other)),
        };
        let hook = *self.w.hooks.get("hook_apply").ok_or("hook_apply missing")?;
        let a = tcx.mk_args(&[dty.into()]);
        // lifetime parameters of the hook are erased
        let inst = resolve_hook(self.w, hook, a).ok_or_else(|| format!("cannot instantiate hook_apply for {dty}"))?;
        let id = self.w.fn_id(inst);
        *args = vec![inner, f];
        Ok(id)
    }

    fn do_call(
        &mut self,
        mut st: State,
        mut id: FnId,
        mut args: Vec<V>,
        dest: (u32, Rc<Vec<u32>>),
        target: Option<u32>,
        rust_call: bool,
        fptr: bool,
    ) -> Result<State, Step> {
        let mut spread_handled = false;
        for _ in 0..8 {
            let fun = self.w.fns[id as usize].clone();
            match self.native(&mut st, id, &fun, &mut args) {
                Out::NotNative => {
                    let fun = self.w.get(id);
                    if !fun.has_body {
                        let m = self.unmodelled(format!("call of {} [{}]", fun.name, fun.key));
                        return Err(Step::End(m, Some(st)));
                    }
                    if st.frames.len() > 160 {
                        let m = self.unmodelled(format!("recursion in {}", fun.name));
                        return Err(Step::End(m, Some(st)));
                    }
                    let mut av = args;
                    if !spread_handled {
                        if fptr && fun.closure && fun.argc == av.len() + 1 {
                            av.insert(0, V::unit());
                        } else if fptr && fun.spread {
                            av = vec![V::unit(), V::agg(0, av)];
                        } else if rust_call && !fun.spread {
                            if let Some(V::Agg(0, f)) = av.last().cloned() {
                                if fun.argc == av.len() - 1 + f.len() && (fun.closure || fun.argc != av.len() || fun.closure) {
                                    av.pop();
                                    av.extend(f.iter().cloned());
                                }
                            }
                        }
                    }
                    if av.len() != fun.argc {
                        let m = self.unmodelled(format!("arity of {} ({} vs {})", fun.name, av.len(), fun.argc));
                        return Err(Step::End(m, Some(st)));
                    }
                    if let Some(t) = target {
                        st.frames.last_mut().unwrap().bb = t;
                    } else {
                        // diverging call: never returns, keep bb; live set irrelevant
                    }
                    self.push_frame(&mut st, id, av, dest);
                    return Ok(st);
                }
                Out::Call(nid, nargs) => {
                    id = nid;
                    args = nargs;
                    spread_handled = true;
                    // hooks may themselves be natives
                    continue;
                }
                Out::Val(v) => {
                    return self.finish_call(st, v, &dest, target);
                }
                Out::Stop => return Err(Step::Quiet),
                Out::End(l) => return Err(Step::End(l, Some(st))),
                Out::Event(l, v) => {
                    let s = self.finish_call(st, v, &dest, target)?;
                    return Err(Step::Succ(vec![(l, s)]));
                }
                Out::Alts(alts) => {
                    let mut out = vec![];
                    for (l, s, v) in alts {
                        let s = self.finish_call(s, v, &dest, target)?;
                        out.push((l, s));
                    }
                    return Err(Step::Succ(out));
                }
            }
        }
        Err(Step::End(self.unmodelled("hook loop".into()), Some(st)))
    }

    fn finish_call(&mut self, mut st: State, v: V, dest: &(u32, Rc<Vec<u32>>), target: Option<u32>) -> Result<State, Step> {
        let l = Loc::Cell(dest.0, dest.1.to_vec(), Meta::None);
        if let Err(e) = self.write(&mut st, &l, v) {
            let m = self.unmodelled(e);
            return Err(Step::End(m, Some(st)));
        }
        match target {
            Some(t) => st.frames.last_mut().unwrap().bb = t,
            None => return Err(Step::Quiet),
        }
        Ok(st)
    }

    // ---------------------------------------------------------------- description of values
    pub fn desc(&self, st: &State, v: &V, depth: usize) -> String {
        if depth > 10 {
            return "..".into();
        }
        let list = |f: &[V]| f.iter().map(|x| self.desc(st, x, depth + 1)).collect::<Vec<_>>().join(",");
        match v {
            V::Uninit => "_".into(),
            V::Int(i) => format!("{i}"),
            V::Agg(0, f) => format!("({})", list(f)),
            V::Agg(n, f) => format!("#{n}({})", list(f)),
            V::Term(t) | V::Str(t) | V::OStr(t) => self.desc_term(st, t, depth),
            V::Ptr(c, p, m) => {
                let Some(x) = st.cells.get(*c as usize).and_then(|x| get_path(x, p)) else { return "dangling".into() };
                if let (Meta::Range(a, b), V::Agg(_, f)) = (m, x) {
                    return format!("[{}]", list(&f[*a as usize..*b as usize]));
                }
                self.desc(st, x, depth + 1)
            }
            V::ConstRef(x, _) => self.desc(st, x, depth + 1),
            V::Static(n) => format!("static {n}"),
            V::Vec(s) => format!(
                "[{}]",
                s.iter()
                    .map(|x| match x {
                        Seg::One(v) => self.desc(st, v, depth + 1),
                        Seg::Star(v) => format!("{}+", self.desc(st, v, depth + 1)),
                    })
                    .collect::<Vec<_>>()
                    .join(",")
            ),
            V::Fn(i) => format!("fn<{}>", self.w.fns[*i as usize].name),
            V::Nat(k, f) => format!("{k}({})", list(f)),
            V::Map(m) => format!("{{{}}}", m.iter().map(|(k, v)| format!("{}:{}", self.desc(st, k, depth + 1), self.desc(st, v, depth + 1))).collect::<Vec<_>>().join(",")),
        }
    }
    fn desc_term(&self, st: &State, t: &TermV, depth: usize) -> String {
        match t {
            TermV::Lit(s) => format!("{s:?}"),
            TermV::App(h, _) if h.starts_with("sym:") => format!("{:?}", &h[4..]),
            TermV::App(h, a) => {
                let h = h.strip_prefix("tok:").unwrap_or(h);
                if a.is_empty() {
                    h.to_string()
                } else if h == "hint" {
                    self.desc(st, &a[0], depth)
                } else {
                    format!("{h}({})", a.iter().map(|x| self.desc(st, x, depth + 1)).collect::<Vec<_>>().join(","))
                }
            }
        }
    }
}

fn path_star(v: &V, path: &[u32]) -> bool {
    let mut cur = v;
    for p in path {
        cur = match cur {
            V::Agg(_, f) | V::Nat(_, f) => match f.get(*p as usize) {
                Some(x) => x,
                None => return false,
            },
            V::Vec(s) => match s.get(*p as usize) {
                Some(Seg::Star(_)) => return true,
                Some(Seg::One(x)) => x,
                None => return false,
            },
            _ => return false,
        };
    }
    false
}

fn any_ptr_ge(st: &State, base: u32) -> bool {
    fn has(v: &V, base: u32) -> bool {
        match v {
            V::Ptr(c, _, _) => *c >= base,
            V::Agg(_, f) | V::Nat(_, f) => f.iter().any(|x| has(x, base)),
            V::Vec(s) => s.iter().any(|x| has(x.v(), base)),
            V::Map(m) => m.values().any(|x| has(x, base)),
            V::Term(t) => matches!(&**t, TermV::App(_, a) if a.iter().any(|x| has(x, base))),
            _ => false,
        }
    }
    st.cells[..base as usize].iter().any(|v| has(v, base)) || st.statics.values().any(|c| *c >= base)
        || st.frames.iter().any(|f| f.dest.0 != u32::MAX && f.dest.0 != u32::MAX - 1 && f.dest.0 >= base)
}

pub fn resolve_hook<'tcx>(w: &mut World<'tcx>, hook: rustc_hir::def_id::DefId, targs: ty::GenericArgsRef<'tcx>) -> Option<Instance<'tcx>> {
    let tcx = w.tcx;
    let mut it = targs.types();
    let args = ty::GenericArgs::for_item(tcx, hook, |p, _| match p.kind {
        ty::GenericParamDefKind::Lifetime => tcx.lifetimes.re_erased.into(),
        _ => it.next().unwrap_or(tcx.types.unit).into(),
    });
    w.resolve(hook, args)
}

fn collect_terms(v: &V, out: &mut BTreeSet<V>, depth: usize) {
    if depth > 20 {
        return;
    }
    match v {
        V::Term(t) | V::Str(t) | V::OStr(t) => {
            out.insert(V::Term(t.clone()));
            if let TermV::App(_, a) = &**t {
                a.iter().for_each(|x| collect_terms(x, out, depth + 1));
            }
        }
        V::Agg(_, f) | V::Nat(_, f) => f.iter().for_each(|x| collect_terms(x, out, depth + 1)),
        V::Vec(s) => s.iter().for_each(|x| collect_terms(x.v(), out, depth + 1)),
        V::Map(m) => m.iter().for_each(|(k, x)| {
            collect_terms(k, out, depth + 1);
            collect_terms(x, out, depth + 1)
        }),
        V::ConstRef(x, _) => collect_terms(x, out, depth + 1),
        V::Int(_) => {
            out.insert(v.clone());
        }
        _ => {}
    }
}

fn is_bool_term(t: &V) -> bool {
    match t {
        V::Term(t) => matches!(&**t, TermV::App(h, _) if matches!(h.as_str(), "Eq" | "Lt" | "Le" | "Gt" | "Ge" | "idx<" | "overflow" | "streq") || h.starts_with("?b")),
        _ => false,
    }
}

pub fn lin(op: &str, x: V, y: V) -> V {
    // normalise t+k
    if let V::Int(k) = y {
        let k = if op == "-" { -k } else { k };
        if op == "+" || op == "-" {
            if k == 0 {
                return x;
            }
            if let V::Term(t) = &x {
                if let TermV::App(h, a) = &**t {
                    if h == "+" {
                        if let V::Int(j) = a[1] {
                            return if j + k == 0 { a[0].clone() } else { V::term("+", vec![a[0].clone(), V::Int(j + k)]) };
                        }
                    }
                }
            }
            return V::term("+", vec![x, V::Int(k)]);
        }
    }
    if let (V::Int(_), "+") = (&x, op) {
        return lin(op, y, x);
    }
    V::term(op, vec![x, y])
}

/// A counter that has passed the last value that is told apart. It alternates between two summary values,
/// so that "the next one" is not the same; a third one stands for any of them.
pub fn many_of(p: i128) -> V {
    V::term("many*", vec![V::Int(p)])
}

pub fn is_many(v: &V) -> Option<i128> {
    match v {
        V::Term(t) => match &**t {
            TermV::App(h, a) if h == "many*" => match a[..] {
                [V::Int(p)] => Some(p),
                _ => None,
            },
            _ => None,
        },
        _ => None,
    }
}

/// Comparison of an index with the length of a widened sequence.
fn index_cmp(b: BinOp, x: &V, y: &V) -> Option<V> {
    use BinOp as B;
    let is_len = |v: &V| matches!(v, V::Term(t) if matches!(&**t, TermV::App(h, _) if h == "len>=*"));
    let is_idx = |v: &V| match v {
        V::Int(k) => *k >= 0,
        V::Term(_) => is_many(v).is_some(),
        _ => false,
    };
    let (b, i, l) = if is_len(y) && is_idx(x) {
        (b, x, y)
    } else if is_len(x) && is_idx(y) {
        let b = match b {
            B::Lt => B::Gt,
            B::Gt => B::Lt,
            B::Le => B::Ge,
            B::Ge => B::Le,
            b => b,
        };
        (b, y, x)
    } else {
        return None;
    };
    let V::Term(lt) = l else { return None };
    let TermV::App(_, la) = &**lt else { return None };
    let V::Str(shape) = &la[1] else { return None };
    let TermV::Lit(shape) = &**shape else { return None };
    let first = shape.find('*')? as i128;
    let more = match i {
        V::Int(k) if *k <= first => V::bool(true),
        _ => V::term("idx<", vec![i.clone(), l.clone()]),
    };
    match b {
        B::Lt => Some(more),
        B::Ge => Some(match more {
            V::Int(k) => V::bool(k == 0),
            m => V::term("not", vec![m]),
        }),
        _ => None,
    }
}

pub fn vec_len(s: &[Seg]) -> V {
    if s.iter().any(|x| matches!(x, Seg::Star(_))) {
        let mut args = vec![V::Int(s.len() as i128)];
        let shape: String = s.iter().map(|x| if matches!(x, Seg::Star(_)) { '*' } else { '1' }).collect();
        args.push(V::str_lit(&shape));
        V::term("len>=*", args)
    } else {
        V::Int(s.len() as i128)
    }
}

pub fn str_len(t: &Rc<TermV>) -> V {
    match &**t {
        TermV::Lit(s) => V::Int(s.len() as i128),
        _ => V::term("strlen", vec![V::Str(t.clone())]),
    }
}

#[allow(dead_code)]
pub type Facts = BTreeMap<V, Fact>;
