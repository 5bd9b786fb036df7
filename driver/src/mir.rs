//! Translation of monomorphic rustc MIR into the small IR the abstract interpreter runs on.
use rustc_abi::FieldIdx;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_middle::mir::{self, interpret::GlobalAlloc, interpret::Scalar};
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypeVisitableExt, TypingEnv};
use rustc_span::Span;
use std::collections::HashMap;
use std::rc::Rc;

use crate::domain::*;


#[derive(Clone, Debug)]
pub enum Proj {
    Deref,
    Field(u32),
    /// projection into a transparent pointer wrapper (Box, Unique, NonNull): identity
    Id,
    /// zero-sized field of a transparent pointer wrapper
    UnitField,
    Index(u32),
    ConstIndex { off: u64, from_end: bool },
    Subslice { from: u64, to: u64, from_end: bool },
    Downcast(u32),
}

#[derive(Clone, Debug)]
pub struct Place {
    pub local: u32,
    pub proj: Vec<Proj>,
}

#[derive(Clone, Debug)]
pub enum Op {
    Copy(Place),
    Move(Place),
    Const(V),
}

#[derive(Clone, Debug)]
pub enum CastK {
    Id,
    Int(TyId),
    UnsizeSlice,
    UnsizeDyn(TyId),
    UnsizeOther,
    FnPtr(FnId),
    Float,
}

#[derive(Clone, Debug)]
pub enum Rv {
    Use(Op),
    Repeat(Op, u64),
    Ref(Place),
    Cast(CastK, Op),
    Bin(mir::BinOp, Op, Op, TyId),
    Un(mir::UnOp, Op, TyId),
    /// discriminant of an enum: table variant -> value
    /// discriminants, and the one possible value when a single variant can exist
    Discr(Place, Rc<Vec<i128>>, Option<i128>),
    Agg(u32, Vec<Op>),
    /// aggregate of a transparent wrapper: its only relevant operand
    Transparent(Op),
    RawPtr(Op, Op),
    Unsupported(String),
}

#[derive(Clone, Debug)]
pub enum Stmt {
    Assign(Place, Rv, u32),
    SetDiscr(Place, u32),
    Dead(u32),
    Live(u32),
    Nop,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Fn(FnId),
    /// trait method called on a trait object: (method def, generic args of the call)
    Virtual(u32),
    /// value of fn-pointer type
    Ptr(Op),
}

#[derive(Clone, Debug)]
pub enum Term {
    Goto(u32),
    Switch(Op, Vec<(i128, u32)>, u32, TyId),
    Return,
    Unreachable,
    Drop(Place, u32),
    Call { callee: Callee, args: Vec<Op>, dest: Place, target: Option<u32>, line: u32, rust_call: bool },
    Assert { cond: Op, expected: bool, msg: String, target: u32, line: u32 },
    Unsupported(String),
}

pub struct Block {
    pub stmts: Vec<Stmt>,
    pub term: Term,
}

pub struct Fun {
    pub name: String,
    pub key: String,
    pub krate: String,
    pub std: bool,
    pub argc: usize,
    pub nlocals: usize,
    pub spread: bool,
    pub closure: bool,
    pub has_body: bool,
    pub never: bool,
    pub blocks: Vec<Block>,
    /// locals live on entry to each block
    pub live_in: Vec<Vec<bool>>,
    pub addr_taken: Vec<bool>,
    pub targs: Vec<TyId>,
    pub ret_ty: TyId,
    pub file: String,
    pub line: u32,
}

pub struct World<'tcx> {
    pub tcx: TyCtxt<'tcx>,
    pub env: TypingEnv<'tcx>,
    pub fns: Vec<Rc<Fun>>,
    pub fn_ids: HashMap<Instance<'tcx>, FnId>,
    pub instances: Vec<Instance<'tcx>>,
    pub bodies_done: Vec<bool>,
    pub tys: Vec<Ty<'tcx>>,
    pub ty_ids: HashMap<Ty<'tcx>, TyId>,
    pub virt: Vec<(DefId, ty::GenericArgsRef<'tcx>)>,
    pub virt_ids: HashMap<(DefId, ty::GenericArgsRef<'tcx>), u32>,
    pub hooks: HashMap<String, DefId>,
    pub files: HashMap<String, usize>,
    pub registered: Vec<(Ty<'tcx>, V)>,
    pub statics: std::collections::BTreeSet<(u32, u32)>,
}

impl<'tcx> World<'tcx> {
    pub fn new(tcx: TyCtxt<'tcx>) -> Self {
        World {
            tcx,
            env: TypingEnv::fully_monomorphized(),
            fns: vec![],
            fn_ids: HashMap::new(),
            instances: vec![],
            bodies_done: vec![],
            tys: vec![],
            ty_ids: HashMap::new(),
            virt: vec![],
            virt_ids: HashMap::new(),
            hooks: HashMap::new(),
            registered: vec![],
            statics: Default::default(),
            files: HashMap::new(),
        }
    }

    pub fn ty_id(&mut self, t: Ty<'tcx>) -> TyId {
        if let Some(i) = self.ty_ids.get(&t) {
            return *i;
        }
        let i = self.tys.len() as TyId;
        self.tys.push(t);
        self.ty_ids.insert(t, i);
        i
    }

    pub fn is_std(&self, d: DefId) -> bool {
        let n = self.tcx.crate_name(d.krate);
        matches!(n.as_str(), "core" | "alloc" | "std")
    }

    /// Short structural key of a function, e.g. `Vec::push`, `str::PartialEq::eq`, `mem::replace`.
    fn key_of(&self, d: DefId) -> String {
        let tcx = self.tcx;
        let name = tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_else(|| "{closure}".into());
        if tcx.is_closure_like(d) {
            return format!("{}::{{closure}}", self.key_of(tcx.parent(d)));
        }
        if let Some(imp) = tcx.impl_of_assoc(d) {
            let self_ty = tcx.type_of(imp).instantiate_identity().skip_norm_wip();
            let head = head_of(tcx, self_ty);
            if let Some(tr) = tcx.impl_opt_trait_ref(imp) {
                let tr = tr.instantiate_identity().skip_norm_wip();
                return format!("{}::{}::{}", head, tcx.item_name(tr.def_id), name);
            }
            return format!("{}::{}", head, name);
        }
        let p = tcx.opt_parent(d);
        if let Some(p) = p {
            if matches!(tcx.def_kind(p), DefKind::Trait | DefKind::Mod | DefKind::TraitAlias) {
                if let Some(pn) = tcx.opt_item_name(p) {
                    return format!("{}::{}", pn, name);
                }
                return format!("{}::{}", tcx.crate_name(d.krate), name);
            }
        }
        name
    }

    pub fn fn_id(&mut self, inst: Instance<'tcx>) -> FnId {
        if let Some(i) = self.fn_ids.get(&inst) {
            return *i;
        }
        let i = self.fns.len() as FnId;
        self.fn_ids.insert(inst, i);
        self.instances.push(inst);
        self.bodies_done.push(false);
        let d = inst.def_id();
        let tcx = self.tcx;
        let mut key = self.key_of(d);
        let has_body = match inst.def {
            ty::InstanceKind::Item(d) => tcx.is_mir_available(d) && !tcx.is_foreign_item(d),
            ty::InstanceKind::Shim(_) => true,
            _ => false,
        };
        if let ty::InstanceKind::Intrinsic(_) = inst.def {
            key = format!("intrinsic::{}", tcx.item_name(d));
        }
        if let ty::InstanceKind::Shim(s) = inst.def {
            match s {
                ty::ShimKind::Clone(..) => key = "shim::clone".into(),
                ty::ShimKind::DropGlue(..) => key = "shim::drop".into(),
                _ => key = format!("shim::{key}"),
            }
        }
        let targs: Vec<TyId> = inst.args.types().collect::<Vec<_>>().into_iter().map(|t| self.ty_id(t)).collect();
        let sp = tcx.def_span(d);
        let (file, line) = self.loc(sp);
        let name = format!("{}", inst);
        self.fns.push(Rc::new(Fun {
            name,
            key,
            krate: tcx.crate_name(d.krate).to_string(),
            std: self.is_std(d),
            argc: 0,
            nlocals: 0,
            spread: false,
            closure: tcx.is_closure_like(d) && matches!(inst.def, ty::InstanceKind::Item(_)),
            has_body,
            never: false,
            blocks: vec![],
            live_in: vec![],
            addr_taken: vec![],
            targs,
            ret_ty: 0,
            file,
            line,
        }));
        i
    }

    pub fn loc(&self, sp: Span) -> (String, u32) {
        let sm = self.tcx.sess.source_map();
        let sp = sp.source_callsite();
        let l = sm.lookup_char_pos(sp.lo());
        let f = format!("{}", l.file.name.prefer_remapped_unconditionally());
        (f, l.line as u32)
    }
    fn loc_inner(&self, sp: Span) -> u32 {
        let sm = self.tcx.sess.source_map();
        sm.lookup_char_pos(sp.lo()).line as u32
    }

    pub fn resolve(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>) -> Option<Instance<'tcx>> {
        let args = self.tcx.erase_and_anonymize_regions(args);
        if args.has_non_region_param() {
            return None;
        }
        Instance::try_resolve(self.tcx, self.env, d, args).ok().flatten()
    }

    /// Translate the body on first use.
    pub fn get(&mut self, id: FnId) -> Rc<Fun> {
        if self.bodies_done[id as usize] || !self.fns[id as usize].has_body {
            return self.fns[id as usize].clone();
        }
        let inst = self.instances[id as usize];
        let f = self.translate(id, inst);
        self.fns[id as usize] = Rc::new(f);
        self.bodies_done[id as usize] = true;
        self.fns[id as usize].clone()
    }

    fn translate(&mut self, id: FnId, inst: Instance<'tcx>) -> Fun {
        let tcx = self.tcx;
        let raw = tcx.instance_mir(inst.def);
        let body = inst.instantiate_mir_and_normalize_erasing_regions(tcx, self.env, ty::EarlyBinder::bind(tcx, raw.clone()));
        let old = self.fns[id as usize].clone();
        let mut blocks = vec![];
        for (_bb, data) in body.basic_blocks.iter_enumerated() {
            let mut stmts = vec![];
            for s in &data.statements {
                stmts.push(self.stmt(&body, s));
            }
            let t = data.terminator();
            let term = self.term(&body, t, inst);
            blocks.push(Block { stmts, term });
        }
        let nlocals = body.local_decls.len();
        let ret = body.local_decls[mir::RETURN_PLACE].ty;
        let (live_in, addr_taken) = liveness(&blocks, nlocals);
        let ret_ty = self.ty_id(ret);
        Fun {
            name: old.name.clone(),
            key: old.key.clone(),
            krate: old.krate.clone(),
            std: old.std,
            argc: body.arg_count,
            nlocals,
            spread: body.spread_arg.is_some(),
            closure: old.closure,
            has_body: true,
            never: ret.is_never(),
            blocks,
            live_in,
            addr_taken,
            targs: old.targs.clone(),
            ret_ty,
            file: old.file.clone(),
            line: old.line,
        }
    }

    fn place(&mut self, body: &mir::Body<'tcx>, p: mir::Place<'tcx>) -> Place {
        let tcx = self.tcx;
        let mut proj = vec![];
        let mut pty = mir::PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            match e {
                mir::ProjectionElem::Deref => proj.push(Proj::Deref),
                mir::ProjectionElem::Field(f, _) => {
                    if let Some(t) = transparent(tcx, pty.ty) {
                        proj.push(if f.as_u32() == t { Proj::Id } else { Proj::UnitField });
                    } else {
                        proj.push(Proj::Field(f.as_u32()))
                    }
                }
                mir::ProjectionElem::Index(l) => proj.push(Proj::Index(l.as_u32())),
                mir::ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    proj.push(Proj::ConstIndex { off: offset, from_end })
                }
                mir::ProjectionElem::Subslice { from, to, from_end } => {
                    proj.push(Proj::Subslice { from, to, from_end })
                }
                mir::ProjectionElem::Downcast(_, v) => proj.push(Proj::Downcast(v.as_u32())),
                mir::ProjectionElem::OpaqueCast(_) | mir::ProjectionElem::UnwrapUnsafeBinder(_) | mir::ProjectionElem::PhantomDeref => proj.push(Proj::Id),
            }
            pty = pty.projection_ty(tcx, e);
            pty.ty = tcx.normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(pty.ty));
        }
        Place { local: p.local.as_u32(), proj }
    }

    fn op(&mut self, body: &mir::Body<'tcx>, o: &mir::Operand<'tcx>) -> Op {
        match o {
            mir::Operand::Copy(p) => Op::Copy(self.place(body, *p)),
            mir::Operand::Move(p) => Op::Move(self.place(body, *p)),
            mir::Operand::Constant(c) => Op::Const(self.constant(c)),
            mir::Operand::RuntimeChecks(_) => Op::Const(V::Int(0)),
        }
    }

    fn constant(&mut self, c: &mir::ConstOperand<'tcx>) -> V {
        let tcx = self.tcx;
        let ty = c.const_.ty();
        match ty.kind() {
            ty::FnDef(..) => return V::unit(),
            _ => {}
        }
        if let mir::Const::Unevaluated(u, _) = c.const_ {
            if let Some(p) = u.promoted {
                // of this very body, also where it is a default one that the type overrides
                let id = mir::interpret::GlobalId { instance: Instance::new_raw(u.def, u.args), promoted: Some(p) };
                return match tcx.const_eval_global_id(self.env, id, c.span) {
                    Ok(v) => self.const_val(v, ty),
                    Err(_) => V::term("const_error", vec![]),
                };
            }
        }
        match c.const_.eval(tcx, self.env, c.span) {
            Ok(v) => self.const_val(v, ty),
            Err(_) => V::term("const_error", vec![]),
        }
    }

    pub fn const_val(&mut self, v: mir::ConstValue, ty: Ty<'tcx>) -> V {
        let tcx = self.tcx;
        match v {
            mir::ConstValue::ZeroSized => self.zst(ty),
            mir::ConstValue::Scalar(Scalar::Int(i)) => {
                if let Ok(l) = tcx.layout_of(self.env.as_query_input(ty)) {
                    if !matches!(ty.kind(), ty::Int(_) | ty::Uint(_) | ty::Bool | ty::Char | ty::Float(_) | ty::RawPtr(..) | ty::Ref(..) | ty::FnPtr(..)) {
                        // scalar-layout aggregate (newtype / fieldless enum): decode from bytes
                        let size = l.size.bytes() as usize;
                        let bits = i.to_bits(i.size());
                        let bytes = bits.to_le_bytes()[..size.min(16)].to_vec();
                        return self.decode(&Mem { bytes, ptrs: vec![] }, 0, ty);
                    }
                }
                let bits = i.to_bits(i.size());
                V::Int(sign(ty, bits, i.size().bits()))
            }
            mir::ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                let (prov, off) = p.into_raw_parts();
                let aid = prov.alloc_id();
                if !matches!(ty.kind(), ty::RawPtr(..) | ty::Ref(..) | ty::FnPtr(..)) {
                    let m = Mem { bytes: vec![0; 8], ptrs: vec![(0, aid, off.bytes())] };
                    return self.decode(&m, 0, ty);
                }
                self.ptr_to(aid, off.bytes(), ty, None)
            }
            mir::ConstValue::Slice { alloc_id, meta } => self.ptr_to(alloc_id, 0, ty, Some(meta)),
            mir::ConstValue::Indirect { alloc_id, offset } => {
                let GlobalAlloc::Memory(m) = tcx.global_alloc(alloc_id) else { return V::term("const", vec![]) };
                let mem = Mem::of(m);
                self.decode(&mem, offset.bytes() as usize, ty)
            }
        }
    }

    fn zst(&mut self, ty: Ty<'tcx>) -> V {
        let tcx = self.tcx;
        match ty.kind() {
            ty::Adt(d, args) if d.is_struct() => {
                if let Some(f) = transparent(tcx, ty) {
                    if d.is_box() || matches!(tcx.item_name(d.did()).as_str(), "Unique" | "NonNull" | "BoxRaw") {
                        return V::unit();
                    }
                    let f = self.norm(d.non_enum_variant().fields[FieldIdx::from_u32(f)].ty(tcx, args).skip_norm_wip());
                    return self.zst(f);
                }
                let fs: Vec<Ty<'tcx>> = d.non_enum_variant().fields.iter().map(|f| self.norm(f.ty(tcx, args).skip_norm_wip())).collect();
                V::agg(0, fs.into_iter().map(|t| self.zst(t)).collect())
            }
            ty::Tuple(ts) => V::agg(0, ts.iter().map(|t| self.zst(t)).collect()),
            ty::Array(_, n) => {
                let _ = n;
                V::agg(0, vec![])
            }
            _ => V::unit(),
        }
    }

    fn norm(&self, t: Ty<'tcx>) -> Ty<'tcx> {
        self.tcx.normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(t))
    }

    /// pointer constant
    fn ptr_to(&mut self, aid: mir::interpret::AllocId, off: u64, ty: Ty<'tcx>, meta: Option<u64>) -> V {
        let tcx = self.tcx;
        let pointee = match ty.kind() {
            ty::Ref(_, t, _) | ty::RawPtr(t, _) => *t,
            _ => tcx.types.unit,
        };
        match tcx.global_alloc(aid) {
            GlobalAlloc::Function { instance } => V::Fn(self.fn_id(instance)),
            GlobalAlloc::Static(d) => {
                self.statics.insert((d.krate.as_u32(), d.index.as_u32()));
                let sty = self.norm(tcx.type_of(d).instantiate_identity().skip_norm_wip());
                if off == 0 && sty == pointee && !tcx.is_mutable_static(d) && sty.is_freeze(tcx, self.env) {
                    // nothing ever changes it
                    if let Ok(m) = tcx.eval_static_initializer(d) {
                        let mem = Mem::of(m);
                        return V::ConstRef(Rc::new(self.decode(&mem, 0, sty)), Meta::None);
                    }
                }
                V::Static(Rc::new(format!("{}", tcx.def_path_str(d))))
            }
            GlobalAlloc::Memory(m) => {
                let mem = Mem::of(m);
                match pointee.kind() {
                    ty::Str => {
                        let n = meta.unwrap_or(0) as usize;
                        let b = &mem.bytes[off as usize..off as usize + n];
                        V::str_lit(&String::from_utf8_lossy(b))
                    }
                    ty::Slice(e) if *e == tcx.types.u8 => {
                        let n = meta.unwrap_or(0) as usize;
                        let b = &mem.bytes[off as usize..off as usize + n];
                        V::str_lit(&format!("b{:?}", String::from_utf8_lossy(b)))
                    }
                    ty::Slice(e) => {
                        let n = meta.unwrap_or(0) as usize;
                        let sz = self.size(*e);
                        let mut v = vec![];
                        for i in 0..n {
                            v.push(self.decode(&mem, off as usize + i * sz, *e));
                        }
                        V::ConstRef(Rc::new(V::agg(0, v)), Meta::Slice)
                    }
                    ty::Dynamic(..) => V::term("const_dyn", vec![]),
                    _ => V::ConstRef(Rc::new(self.decode(&mem, off as usize, pointee)), Meta::None),
                }
            }
            _ => V::term("const_ptr", vec![]),
        }
    }

    fn size(&self, t: Ty<'tcx>) -> usize {
        self.tcx.layout_of(self.env.as_query_input(t)).map(|l| l.size.bytes() as usize).unwrap_or(0)
    }

    pub fn decode_pub(&mut self, m: &Mem, off: usize, ty: Ty<'tcx>) -> V {
        self.decode(m, off, ty)
    }

    fn decode(&mut self, m: &Mem, off: usize, ty: Ty<'tcx>) -> V {
        let tcx = self.tcx;
        let Ok(l) = tcx.layout_of(self.env.as_query_input(ty)) else { return V::term("const", vec![]) };
        let size = l.size.bytes() as usize;
        match ty.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) => {
                if m.bytes.len() < off + size {
                    return V::term("const", vec![]);
                }
                let mut b = [0u8; 16];
                b[..size].copy_from_slice(&m.bytes[off..off + size]);
                V::Int(sign(ty, u128::from_le_bytes(b), size as u64 * 8))
            }
            ty::Ref(_, p, _) | ty::RawPtr(p, _) => {
                let Some((aid, o)) = m.ptr_at(off) else { return V::term("const_nullish", vec![]) };
                let meta = if size == 16 {
                    let mut b = [0u8; 8];
                    b.copy_from_slice(&m.bytes[off + 8..off + 16]);
                    Some(u64::from_le_bytes(b))
                } else {
                    None
                };
                if let ty::Dynamic(..) = p.kind() {
                    if let Some((vt, _)) = m.ptr_at(off + 8) {
                        if let GlobalAlloc::VTable(t, _) = tcx.global_alloc(vt) {
                            let tid = self.ty_id(t);
                            if let GlobalAlloc::Memory(mm) = tcx.global_alloc(aid) {
                                let mem = Mem::of(mm);
                                let v = self.decode(&mem, o as usize, t);
                                return V::ConstRef(Rc::new(v), Meta::Dyn(tid));
                            }
                            if let GlobalAlloc::Static(d) = tcx.global_alloc(aid) {
                                return V::term("static_dyn", vec![V::str_lit(&tcx.def_path_str(d)), V::Int(tid as i128)]);
                            }
                        }
                    }
                }
                self.ptr_to(aid, o, ty, meta)
            }
            ty::FnPtr(..) => match m.ptr_at(off) {
                Some((aid, _)) => match tcx.global_alloc(aid) {
                    GlobalAlloc::Function { instance } => V::Fn(self.fn_id(instance)),
                    _ => V::term("const_fn", vec![]),
                },
                None => V::term("const_fn", vec![]),
            },
            ty::Array(e, _) => {
                let n = match l.fields {
                    rustc_abi::FieldsShape::Array { count, .. } => count,
                    _ => 0,
                };
                let sz = self.size(*e);
                let mut v = vec![];
                for i in 0..n as usize {
                    v.push(self.decode(m, off + i * sz, *e));
                }
                V::agg(0, v)
            }
            ty::Tuple(ts) => {
                let mut v = vec![];
                for (i, t) in ts.iter().enumerate() {
                    v.push(self.decode(m, off + l.fields.offset(i).bytes() as usize, t));
                }
                V::agg(0, v)
            }
            ty::Adt(d, args) if d.is_struct() || d.is_union() => {
                if let Some(tf) = transparent(tcx, ty).filter(|_| d.is_struct()) {
                    let f = &d.non_enum_variant().fields[FieldIdx::from_u32(tf)];
                    let ft = self.norm(f.ty(tcx, args).skip_norm_wip());
                    return self.decode(m, off + l.fields.offset(tf as usize).bytes() as usize, ft);
                }
                let mut v = vec![];
                let fs: Vec<Ty<'tcx>> = d.non_enum_variant().fields.iter().map(|f| self.norm(f.ty(tcx, args).skip_norm_wip())).collect();
                if d.is_union() {
                    return V::term("const_union", vec![]);
                }
                for (i, t) in fs.into_iter().enumerate() {
                    v.push(self.decode(m, off + l.fields.offset(i).bytes() as usize, t));
                }
                V::agg(0, v)
            }
            ty::Adt(d, args) if d.is_enum() => {
                let var = match self.read_variant(m, off, ty, &l) {
                    Some(v) => v,
                    None => return V::term("const_enum", vec![]),
                };
                let vl = l.for_variant(&ty::layout::LayoutCx::new(tcx, self.env), var);
                let fs: Vec<Ty<'tcx>> = d.variant(var).fields.iter().map(|f| self.norm(f.ty(tcx, args).skip_norm_wip())).collect();
                let mut v = vec![];
                for (i, t) in fs.into_iter().enumerate() {
                    v.push(self.decode(m, off + vl.fields.offset(i).bytes() as usize, t));
                }
                V::agg(var.as_u32(), v)
            }
            _ => {
                if size == 0 {
                    self.zst(ty)
                } else {
                    V::term("const", vec![])
                }
            }
        }
    }

    fn read_variant(
        &mut self,
        m: &Mem,
        off: usize,
        ty: Ty<'tcx>,
        l: &ty::layout::TyAndLayout<'tcx>,
    ) -> Option<rustc_abi::VariantIdx> {
        use rustc_abi::{TagEncoding, Variants};
        match &l.variants {
            Variants::Single { index } => Some(*index),
            Variants::Empty => None,
            Variants::Multiple { tag, tag_encoding, tag_field, .. } => {
                let toff = off + l.fields.offset(tag_field.as_usize()).bytes() as usize;
                let tsize = tag.size(&self.tcx).bytes() as usize;
                let isptr = m.ptr_at(toff).is_some();
                let mut b = [0u8; 16];
                b[..tsize].copy_from_slice(&m.bytes[toff..toff + tsize]);
                let bits = u128::from_le_bytes(b);
                match tag_encoding {
                    TagEncoding::Direct => {
                        let ty::Adt(d, _) = ty.kind() else { return None };
                        for (v, dis) in d.discriminants(self.tcx) {
                            let mask = if tsize == 16 { u128::MAX } else { (1u128 << (tsize * 8)) - 1 };
                            if dis.val & mask == bits {
                                return Some(v);
                            }
                        }
                        None
                    }
                    TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                        if isptr {
                            return Some(*untagged_variant);
                        }
                        let mask = if tsize == 16 { u128::MAX } else { (1u128 << (tsize * 8)) - 1 };
                        let rel = bits.wrapping_sub(*niche_start) & mask;
                        let n = niche_variants.last.as_u32() as u128 - niche_variants.start.as_u32() as u128;
                        if rel <= n {
                            Some(rustc_abi::VariantIdx::from_u32(niche_variants.start.as_u32() + rel as u32))
                        } else {
                            Some(*untagged_variant)
                        }
                    }
                }
            }
        }
    }

    fn rv(&mut self, body: &mir::Body<'tcx>, r: &mir::Rvalue<'tcx>) -> Rv {
        let tcx = self.tcx;
        match r {
            mir::Rvalue::Use(o, _) => Rv::Use(self.op(body, o)),
            mir::Rvalue::Repeat(o, n) => Rv::Repeat(self.op(body, o), n.try_to_target_usize(tcx).unwrap_or(0)),
            mir::Rvalue::Ref(_, _, p) | mir::Rvalue::RawPtr(_, p) => Rv::Ref(self.place(body, *p)),
            mir::Rvalue::Reborrow(_, _, p) => Rv::Use(Op::Copy(self.place(body, *p))),
            mir::Rvalue::CopyForDeref(p) => Rv::Use(Op::Copy(self.place(body, *p))),
            mir::Rvalue::ThreadLocalRef(_) => Rv::Unsupported("thread local".into()),
            mir::Rvalue::WrapUnsafeBinder(o, _) => Rv::Use(self.op(body, o)),
            mir::Rvalue::Cast(k, o, to) => {
                let from = o.ty(&body.local_decls, tcx);
                let v = self.op(body, o);
                use mir::CastKind as C;
                use rustc_middle::ty::adjustment::PointerCoercion as P;
                match k {
                    C::PointerCoercion(P::ReifyFnPointer(_), _) => {
                        if let ty::FnDef(d, args) = from.kind() {
                            let args = args.no_bound_vars().unwrap_or_else(|| args.skip_binder());
                            if let Some(i) = Instance::resolve_for_fn_ptr(tcx, self.env, *d, args) {
                                return Rv::Cast(CastK::FnPtr(self.fn_id(i)), v);
                            }
                        }
                        Rv::Unsupported("reify".into())
                    }
                    C::PointerCoercion(P::ClosureFnPointer(_), _) => {
                        if let ty::Closure(d, args) = from.kind() {
                            let i = Instance::resolve_closure(tcx, *d, args, ty::ClosureKind::FnOnce);
                            return Rv::Cast(CastK::FnPtr(self.fn_id(i)), v);
                        }
                        Rv::Unsupported("closure fn ptr".into())
                    }
                    C::PointerCoercion(P::Unsize, _) => {
                        let (a, b) = unsize_pair(tcx, from, *to);
                        match (a.kind(), b.kind()) {
                            (ty::Array(..), ty::Slice(_)) => Rv::Cast(CastK::UnsizeSlice, v),
                            (ty::Dynamic(..), ty::Dynamic(..)) => Rv::Cast(CastK::Id, v),
                            (_, ty::Dynamic(..)) => {
                                let t = self.ty_id(a);
                                Rv::Cast(CastK::UnsizeDyn(t), v)
                            }
                            _ => Rv::Cast(CastK::UnsizeOther, v),
                        }
                    }
                    C::IntToInt => {
                        let t = self.ty_id(*to);
                        Rv::Cast(CastK::Int(t), v)
                    }
                    C::FloatToInt | C::FloatToFloat | C::IntToFloat => Rv::Cast(CastK::Float, v),
                    _ => Rv::Cast(CastK::Id, v),
                }
            }
            mir::Rvalue::BinaryOp(b, ops) => {
                let t = ops.0.ty(&body.local_decls, tcx);
                let t = self.ty_id(t);
                Rv::Bin(*b, self.op(body, &ops.0), self.op(body, &ops.1), t)
            }
            mir::Rvalue::UnaryOp(u, o) => {
                let t = o.ty(&body.local_decls, tcx);
                let t = self.ty_id(t);
                Rv::Un(*u, self.op(body, o), t)
            }
            mir::Rvalue::Discriminant(p) => {
                let t = p.ty(&body.local_decls, tcx).ty;
                let t = self.norm(t);
                let tab = discrs(tcx, t);
                let only = only_variant(tcx, t).map(|i| tab.get(i).copied().unwrap_or(i as i128));
                Rv::Discr(self.place(body, *p), Rc::new(tab), only)
            }
            mir::Rvalue::Aggregate(k, ops) => {
                let ops: Vec<Op> = ops.iter().map(|o| self.op(body, o)).collect();
                match &**k {
                    mir::AggregateKind::Array(_) | mir::AggregateKind::Tuple | mir::AggregateKind::Closure(..) => {
                        Rv::Agg(0, ops)
                    }
                    mir::AggregateKind::Adt(d, v, args, _, active) => {
                        let adt = tcx.adt_def(*d);
                        let t = Ty::new_adt(tcx, adt, args);
                        if let Some(f) = transparent(tcx, t) {
                            return match active {
                                Some(a) if a.as_u32() != f => Rv::Agg(0, vec![]),
                                Some(_) => Rv::Transparent(ops[0].clone()),
                                None => Rv::Transparent(ops[f as usize].clone()),
                            };
                        }
                        if let Some(a) = active {
                            if a.as_u32() == 0 {
                                return Rv::Agg(0, ops);
                            }
                            // union with several fields: every field aliases the same value
                            let n = adt.non_enum_variant().fields.len();
                            return Rv::Agg(0, vec![ops[0].clone(); n]);
                        }
                        Rv::Agg(v.as_u32(), ops)
                    }
                    mir::AggregateKind::RawPtr(..) => Rv::RawPtr(ops[0].clone(), ops[1].clone()),
                    _ => Rv::Unsupported("aggregate".into()),
                }
            }
        }
    }

    fn stmt(&mut self, body: &mir::Body<'tcx>, s: &mir::Statement<'tcx>) -> Stmt {
        match &s.kind {
            mir::StatementKind::Assign(a) => {
                let line = self.loc_inner(s.source_info.span);
                let rv = self.rv(body, &a.1);
                Stmt::Assign(self.place(body, a.0), rv, line)
            }
            mir::StatementKind::SetDiscriminant { place, variant_index } => {
                Stmt::SetDiscr(self.place(body, **place), variant_index.as_u32())
            }
            mir::StatementKind::StorageDead(l) => Stmt::Dead(l.as_u32()),
            mir::StatementKind::StorageLive(l) => Stmt::Live(l.as_u32()),
            mir::StatementKind::Intrinsic(i) => match &**i {
                mir::NonDivergingIntrinsic::Assume(_) => Stmt::Nop,
                _ => Stmt::Assign(Place { local: 0, proj: vec![] }, Rv::Unsupported("copy_nonoverlapping".into()), 0),
            },
            _ => Stmt::Nop,
        }
    }

    fn term(&mut self, body: &mir::Body<'tcx>, t: &mir::Terminator<'tcx>, _inst: Instance<'tcx>) -> Term {
        let tcx = self.tcx;
        use mir::TerminatorKind as T;
        match &t.kind {
            T::Goto { target, .. } => Term::Goto(target.as_u32()),
            T::FalseEdge { real_target, .. } | T::FalseUnwind { real_target, .. } => Term::Goto(real_target.as_u32()),
            T::SwitchInt { discr, targets } => {
                let ty = discr.ty(&body.local_decls, tcx);
                let size = self.size(ty) as u64 * 8;
                let ts = targets.iter().map(|(v, b)| (sign(ty, v, size), b.as_u32())).collect();
                let tid = self.ty_id(ty);
                Term::Switch(self.op(body, discr), ts, targets.otherwise().as_u32(), tid)
            }
            T::Return => Term::Return,
            T::Unreachable => Term::Unreachable,
            T::UnwindResume | T::UnwindTerminate(_) => Term::Unreachable,
            T::Drop { place, target, .. } => Term::Drop(self.place(body, *place), target.as_u32()),
            T::Assert { cond, expected, msg, target, .. } => Term::Assert {
                cond: self.op(body, cond),
                expected: *expected,
                msg: format!("{}", assert_kind(msg)),
                target: target.as_u32(),
                line: self.loc_inner(t.source_info.span),
            },
            T::Call { func, args, destination, target, fn_span: _, .. } => {
                let fty = func.ty(&body.local_decls, tcx);
                let line = self.loc_inner(t.source_info.span);
                let args: Vec<Op> = args.iter().map(|a| self.op(body, &a.node)).collect();
                let dest = self.place(body, *destination);
                let target = target.map(|b| b.as_u32());
                match fty.kind() {
                    ty::FnDef(d, gargs) => {
                        let gargs = gargs.no_bound_vars().unwrap_or_else(|| gargs.skip_binder());
                        let rust_call = tcx.fn_sig(*d).skip_binder().abi() == rustc_abi::ExternAbi::RustCall;
                        let Some(inst) = self.resolve(*d, gargs) else {
                            return Term::Unsupported(format!("unresolved call {}", tcx.def_path_str(*d)));
                        };
                        let callee = match inst.def {
                            ty::InstanceKind::Virtual(md, _) => {
                                let key = (md, inst.args);
                                let n = self.virt.len() as u32;
                                let vid = *self.virt_ids.entry(key).or_insert_with(|| n);
                                if vid == n {
                                    self.virt.push(key);
                                }
                                Callee::Virtual(vid)
                            }
                            _ => Callee::Fn(self.fn_id(inst)),
                        };
                        Term::Call { callee, args, dest, target, line, rust_call }
                    }
                    _ => {
                        let o = self.op(body, func);
                        Term::Call { callee: Callee::Ptr(o), args, dest, target, line, rust_call: false }
                    }
                }
            }
            T::TailCall { .. } => Term::Unsupported("tail call".into()),
            T::Yield { .. } | T::CoroutineDrop => Term::Unsupported("coroutine".into()),
            T::InlineAsm { .. } => Term::Unsupported("asm".into()),
        }
    }
}

fn assert_kind(m: &mir::AssertMessage<'_>) -> &'static str {
    match m {
        mir::AssertKind::BoundsCheck { .. } => "index out of bounds",
        mir::AssertKind::Overflow(..) | mir::AssertKind::OverflowNeg(..) => "arithmetic overflow",
        mir::AssertKind::DivisionByZero(..) | mir::AssertKind::RemainderByZero(..) => "division by zero",
        _ => "assertion",
    }
}

pub struct Mem {
    pub bytes: Vec<u8>,
    pub ptrs: Vec<(usize, mir::interpret::AllocId, u64)>,
}
impl Mem {
    pub fn of(m: mir::interpret::ConstAllocation<'_>) -> Mem {
        let a = m.inner();
        let n = a.len();
        let bytes = a.inspect_with_uninit_and_ptr_outside_interpreter(0..n).to_vec();
        let mut ptrs = vec![];
        for (o, p) in a.provenance().ptrs().iter() {
            let o = o.bytes() as usize;
            let mut b = [0u8; 8];
            b.copy_from_slice(&bytes[o..o + 8]);
            ptrs.push((o, p.alloc_id(), u64::from_le_bytes(b)));
        }
        Mem { bytes, ptrs }
    }
    fn ptr_at(&self, off: usize) -> Option<(mir::interpret::AllocId, u64)> {
        self.ptrs.iter().find(|p| p.0 == off).map(|p| (p.1, p.2))
    }
}

/// The only variant that can exist, if there is exactly one.
fn only_variant<'tcx>(tcx: TyCtxt<'tcx>, t: Ty<'tcx>) -> Option<usize> {
    let ty::Adt(adt, args) = t.kind() else { return None };
    if !adt.is_enum() {
        return None;
    }
    let env = ty::TypingEnv::fully_monomorphized();
    let mut found = None;
    for (i, v) in adt.variants().iter().enumerate() {
        if v.inhabited_predicate(tcx).instantiate(tcx, args).apply_ignore_module(tcx, env) {
            if found.is_some() {
                return None;
            }
            found = Some(i);
        }
    }
    found
}

pub fn discrs<'tcx>(tcx: TyCtxt<'tcx>, t: Ty<'tcx>) -> Vec<i128> {
    match t.kind() {
        ty::Adt(d, _) if d.is_enum() => d
            .discriminants(tcx)
            .map(|(_, x)| {
                let sz = match x.ty.kind() {
                    ty::Int(i) => i.bit_width().unwrap_or(64),
                    ty::Uint(i) => i.bit_width().unwrap_or(64),
                    _ => 64,
                };
                sign(x.ty, x.val, sz)
            })
            .collect(),
        _ => vec![0],
    }
}

pub fn sign(ty: Ty<'_>, bits: u128, size_bits: u64) -> i128 {
    if let ty::Int(_) = ty.kind() {
        if size_bits > 0 && size_bits < 128 {
            let sh = 128 - size_bits as u32;
            return ((bits << sh) as i128) >> sh;
        }
    }
    bits as i128
}

/// Pointer wrappers treated as the pointer itself: index of the pointer field.
pub fn transparent<'tcx>(tcx: TyCtxt<'tcx>, t: Ty<'tcx>) -> Option<u32> {
    match t.kind() {
        ty::Adt(d, _) => {
            if d.is_box() {
                return Some(0);
            }
            if !matches!(tcx.crate_name(d.did().krate).as_str(), "core" | "alloc") {
                return None;
            }
            match tcx.item_name(d.did()).as_str() {
                "Unique" | "NonNull" | "BoxRaw" | "ManuallyDrop" | "MaybeDangling" | "UnsafeCell" => Some(0),
                "MaybeUninit" => Some(1),
                _ => None,
            }
        }
        _ => None,
    }
}

fn unsize_pair<'tcx>(tcx: TyCtxt<'tcx>, a: Ty<'tcx>, b: Ty<'tcx>) -> (Ty<'tcx>, Ty<'tcx>) {
    fn pointee<'tcx>(t: Ty<'tcx>) -> Ty<'tcx> {
        match t.kind() {
            ty::Ref(_, p, _) | ty::RawPtr(p, _) => *p,
            ty::Adt(d, args) if d.is_box() => args.type_at(0),
            ty::Adt(d, args) if d.is_struct() && args.types().next().is_some() => args.type_at(0),
            _ => t,
        }
    }
    let _ = tcx;
    (pointee(a), pointee(b))
}

pub fn head_of<'tcx>(tcx: TyCtxt<'tcx>, t: Ty<'tcx>) -> String {
    match t.kind() {
        ty::Adt(d, _) => tcx.item_name(d.did()).to_string(),
        ty::Str => "str".into(),
        ty::Slice(_) => "slice".into(),
        ty::Array(..) => "array".into(),
        ty::Ref(_, p, _) => format!("&{}", head_of(tcx, *p)),
        ty::RawPtr(p, _) => format!("*{}", head_of(tcx, *p)),
        ty::Param(_) => "T".into(),
        ty::Tuple(_) => "tuple".into(),
        ty::Dynamic(p, _) => match p.principal_def_id() {
            Some(d) => format!("dyn {}", tcx.item_name(d)),
            None => "dyn".into(),
        },
        ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) => format!("{}", t),
        _ => "_".into(),
    }
}

fn uses_place(p: &Place, f: &mut dyn FnMut(u32)) {
    f(p.local);
    for e in &p.proj {
        if let Proj::Index(l) = e {
            f(*l)
        }
    }
}
fn uses_op(o: &Op, f: &mut dyn FnMut(u32)) {
    match o {
        Op::Copy(p) | Op::Move(p) => uses_place(p, f),
        Op::Const(_) => {}
    }
}
fn uses_rv(r: &Rv, f: &mut dyn FnMut(u32)) {
    match r {
        Rv::Use(o) | Rv::Repeat(o, _) | Rv::Cast(_, o) | Rv::Un(_, o, _) | Rv::Transparent(o) => uses_op(o, f),
        Rv::Ref(p) | Rv::Discr(p, _, _) => uses_place(p, f),
        Rv::Bin(_, a, b, _) | Rv::RawPtr(a, b) => {
            uses_op(a, f);
            uses_op(b, f)
        }
        Rv::Agg(_, v) => v.iter().for_each(|o| uses_op(o, f)),
        Rv::Unsupported(_) => {}
    }
}

fn liveness(blocks: &[Block], n: usize) -> (Vec<Vec<bool>>, Vec<bool>) {
    let mut addr = vec![false; n];
    for b in blocks {
        for s in &b.stmts {
            if let Stmt::Assign(_, Rv::Ref(p), _) = s {
                if !p.proj.iter().any(|x| matches!(x, Proj::Deref)) {
                    addr[p.local as usize] = true;
                }
            }
        }
    }
    let mut live = vec![vec![false; n]; blocks.len()];
    let succ = |t: &Term| -> Vec<u32> {
        match t {
            Term::Goto(b) => vec![*b],
            Term::Switch(_, ts, o, _) => ts.iter().map(|x| x.1).chain(std::iter::once(*o)).collect(),
            Term::Drop(_, b) => vec![*b],
            Term::Call { target, .. } => target.iter().copied().collect(),
            Term::Assert { target, .. } => vec![*target],
            _ => vec![],
        }
    };
    loop {
        let mut changed = false;
        for i in (0..blocks.len()).rev() {
            let b = &blocks[i];
            let mut cur = vec![false; n];
            for s in succ(&b.term) {
                for l in 0..n {
                    cur[l] |= live[s as usize][l];
                }
            }
            match &b.term {
                Term::Return => cur[0] = true,
                Term::Switch(o, ..) => uses_op(o, &mut |l| cur[l as usize] = true),
                Term::Call { callee, args, dest, .. } => {
                    if dest.proj.is_empty() {
                        cur[dest.local as usize] = false;
                    } else {
                        uses_place(dest, &mut |l| cur[l as usize] = true);
                    }
                    for a in args {
                        uses_op(a, &mut |l| cur[l as usize] = true);
                    }
                    if let Callee::Ptr(o) = callee {
                        uses_op(o, &mut |l| cur[l as usize] = true);
                    }
                }
                Term::Assert { cond, .. } => uses_op(cond, &mut |l| cur[l as usize] = true),
                _ => {}
            }
            for s in b.stmts.iter().rev() {
                match s {
                    Stmt::Assign(p, r, _) => {
                        if p.proj.is_empty() {
                            cur[p.local as usize] = false;
                        } else {
                            uses_place(p, &mut |l| cur[l as usize] = true);
                        }
                        uses_rv(r, &mut |l| cur[l as usize] = true);
                    }
                    Stmt::SetDiscr(p, _) => uses_place(p, &mut |l| cur[l as usize] = true),
                    Stmt::Dead(l) | Stmt::Live(l) => cur[*l as usize] = false,
                    Stmt::Nop => {}
                }
            }
            if cur != live[i] {
                live[i] = cur;
                changed = true;
            }
        }
        if !changed {
            break;
        }
    }
    (live, addr)
}
