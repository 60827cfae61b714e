#![feature(rustc_private)]
//! Compiler driver that dumps the MIR of a crate (instances reachable from
//! every local function, resolved under each root's typing environment) as JSON.
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::{self, *};
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, EarlyBinder, GenericArgsRef, Instance, InstanceKind, ShimKind, Ty, TyCtxt, TypingEnv};
use rustc_middle::ty::TypeVisitableExt;
use std::collections::{HashMap, HashSet, VecDeque};
use std::fmt::Write as _;

mod json;
use json::J;

struct Cb;

impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let name = tcx.crate_name(LOCAL_CRATE);
        if let (Ok(want), Ok(out)) = (std::env::var("MIRDUMP_CRATE"), std::env::var("MIRDUMP_OUT")) {
            if name.as_str() == want && !tcx.sess.is_test_crate() {
                let mut d = Dumper { tcx, types: HashMap::new(), type_order: vec![], bodies: vec![], seen: HashSet::new(), work: VecDeque::new(), root: None };
                let j = d.dump();
                let mut s = String::new();
                j.write(&mut s);
                let tmp = format!("{}.tmp{}", out, std::process::id());
                std::fs::write(&tmp, s).unwrap();
                std::fs::rename(&tmp, &out).unwrap();
            }
        }
        Compilation::Continue
    }
}

struct Dumper<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: HashMap<String, J>,
    type_order: Vec<String>,
    bodies: Vec<J>,
    seen: HashSet<String>,
    work: VecDeque<(String, Instance<'tcx>, DefId, u32)>,
    root: Option<DefId>,
}

fn s(x: impl Into<String>) -> J {
    J::S(x.into())
}
fn n(x: impl TryInto<i128>) -> J {
    J::N(x.try_into().ok().unwrap())
}
fn arr(v: Vec<J>) -> J {
    J::A(v)
}
fn obj(v: Vec<(&str, J)>) -> J {
    J::O(v.into_iter().map(|(k, v)| (k.to_string(), v)).collect())
}

impl<'tcx> Dumper<'tcx> {
    fn env(&self) -> TypingEnv<'tcx> {
        TypingEnv::post_analysis(self.tcx, self.root.unwrap())
    }

    fn path(&self, d: DefId) -> String {
        with_no_trimmed_paths!(self.tcx.def_path_str(d))
    }

    fn ty(&mut self, t: Ty<'tcx>) -> J {
        s(self.ty_str(t))
    }

    fn norm(&self, t: Ty<'tcx>) -> Ty<'tcx> {
        let t = self.tcx.erase_and_anonymize_regions(t);
        match self.tcx.try_normalize_erasing_regions(self.env(), ty::Unnormalized::new_wip(t)) {
            Ok(t) => t,
            Err(_) => t,
        }
    }

    fn ty_str(&mut self, t: Ty<'tcx>) -> String {
        let t = self.norm(t);
        let key = with_no_trimmed_paths!(format!("{}", t));
        // closures print with spans; make unique through the def path
        if self.types.contains_key(&key) {
            return key;
        }
        self.types.insert(key.clone(), J::Null);
        self.type_order.push(key.clone());
        let j = match t.kind() {
            ty::Bool => obj(vec![("k", s("bool"))]),
            ty::Char => obj(vec![("k", s("char"))]),
            ty::Int(i) => obj(vec![("k", s("int")), ("bits", n(i.bit_width().unwrap_or(64))), ("signed", J::B(true))]),
            ty::Uint(i) => obj(vec![("k", s("int")), ("bits", n(i.bit_width().unwrap_or(64))), ("signed", J::B(false))]),
            ty::Float(f) => obj(vec![("k", s("float")), ("bits", n(f.bit_width()))]),
            ty::Str => obj(vec![("k", s("str"))]),
            ty::Never => obj(vec![("k", s("never"))]),
            ty::Param(p) => obj(vec![("k", s("param")), ("name", s(p.name.as_str()))]),
            ty::Array(e, len) => {
                let l = len.try_to_target_usize(self.tcx);
                let e = self.ty(*e);
                obj(vec![("k", s("array")), ("elem", e), ("len", l.map(|x| n(x)).unwrap_or(J::Null))])
            }
            ty::Slice(e) => {
                let e = self.ty(*e);
                obj(vec![("k", s("slice")), ("elem", e)])
            }
            ty::RawPtr(e, _) => {
                let e = self.ty(*e);
                obj(vec![("k", s("ptr")), ("to", e)])
            }
            ty::Ref(_, e, m) => {
                let e = self.ty(*e);
                obj(vec![("k", s("ref")), ("to", e), ("mut", J::B(m.is_mut()))])
            }
            ty::Tuple(ts) => {
                let v = ts.iter().map(|x| self.ty(x)).collect();
                obj(vec![("k", s("tuple")), ("elems", arr(v))])
            }
            ty::FnDef(d, args) => {
                let c = self.callee(*d, args.no_bound_vars().unwrap_or(ty::List::empty()));
                obj(vec![("k", s("fndef")), ("callee", c)])
            }
            ty::FnPtr(..) => obj(vec![("k", s("fnptr"))]),
            ty::Closure(d, args) => {
                let ups: Vec<Ty> = args.as_closure().upvar_tys().iter().collect();
                let v = ups.into_iter().map(|x| self.ty(x)).collect();
                let p = self.path(*d);
                let kind = format!("{:?}", args.as_closure().kind());
                obj(vec![("k", s("closure")), ("path", s(p)), ("kind", s(kind)), ("upvars", arr(v))])
            }
            ty::Dynamic(preds, ..) => {
                let p = preds.principal_def_id().map(|d| self.path(d)).unwrap_or_default();
                obj(vec![("k", s("dyn")), ("trait", s(p))])
            }
            ty::Adt(def, args) => {
                let p = self.path(def.did());
                let mut vs = vec![];
                let local = def.did().is_local();
                let krate = self.tcx.crate_name(def.did().krate).to_string();
                for (_i, v) in def.variants().iter_enumerated() {
                    let mut fs = vec![];
                    if local || matches!(krate.as_str(), "core" | "std" | "alloc") {
                        for f in v.fields.iter() {
                            let ft = f.ty(self.tcx, args).skip_norm_wip();
                            let ft = self.norm(ft);
                            let ft = if ft.has_escaping_bound_vars() { J::Null } else { self.ty(ft) };
                            fs.push(obj(vec![("name", s(f.name.as_str())), ("ty", ft)]));
                        }
                    }
                    vs.push(obj(vec![("name", s(v.name.as_str())), ("fields", arr(fs))]));
                }
                let mut discrs = vec![];
                if def.is_enum() {
                    for (_, d) in def.discriminants(self.tcx) {
                        discrs.push(n(d.val as i128));
                    }
                }
                let targs: Vec<J> = args.types().collect::<Vec<_>>().into_iter().map(|x| self.ty(x)).collect();
                let cargs: Vec<J> = args.consts().map(|c| c.try_to_target_usize(self.tcx).map(|x| n(x)).unwrap_or(J::Null)).collect();
                obj(vec![
                    ("k", s("adt")),
                    ("path", s(p)),
                    ("crate", s(krate)),
                    ("enum", J::B(def.is_enum())),
                    ("union", J::B(def.is_union())),
                    ("box", J::B(def.is_box())),
                    ("variants", arr(vs)),
                    ("discrs", arr(discrs)),
                    ("args", arr(targs)),
                    ("cargs", arr(cargs)),
                ])
            }
            ty::Alias(..) => obj(vec![("k", s("alias")), ("name", s(key.clone()))]),
            _ => obj(vec![("k", s("other")), ("name", s(key.clone()))]),
        };
        self.types.insert(key.clone(), j);
        key
    }

    fn inst_id(&mut self, i: Instance<'tcx>) -> String {
        let args = with_no_trimmed_paths!(format!("{:?}", i.args.iter().filter(|a| a.as_region().is_none()).collect::<Vec<_>>()));
        let p = self.path(i.def_id());
        let kind = match i.def {
            InstanceKind::Item(_) => "",
            InstanceKind::Shim(ShimKind::ClosureOnce { .. }) => "|once_shim",
            InstanceKind::Shim(ShimKind::FnPtr(..)) => "|fnptr_shim",
            InstanceKind::Shim(ShimKind::Clone(..)) => "|clone_shim",
            InstanceKind::Shim(ShimKind::DropGlue(..)) => "|drop",
            InstanceKind::Virtual(..) => "|virtual",
            InstanceKind::Intrinsic(..) => "|intrinsic",
            _ => "|othershim",
        };
        let root = if i.args.has_param() { format!("@{}", self.path(self.root.unwrap())) } else { String::new() };
        format!("{}{}{}{}", p, args, kind, root)
    }

    fn enqueue(&mut self, i: Instance<'tcx>, depth: u32) -> Option<String> {
        let id = self.inst_id(i);
        let ok = match i.def {
            InstanceKind::Item(d) => {
                let avail = self.tcx.is_mir_available(d) && !self.tcx.is_foreign_item(d);
                if !avail {
                    false
                } else if d.is_local() {
                    true
                } else {
                    let k = self.tcx.crate_name(d.krate).to_string();
                    matches!(k.as_str(), "core" | "std" | "alloc") && depth < 5
                }
            }
            InstanceKind::Shim(ShimKind::ClosureOnce { .. }) | InstanceKind::Shim(ShimKind::FnPtr(..)) | InstanceKind::Shim(ShimKind::Clone(..)) => depth < 8,
            _ => false,
        };
        if !ok {
            return if self.seen.contains(&id) { Some(id) } else { None };
        }
        if self.seen.insert(id.clone()) {
            let local = i.def_id().is_local();
            self.work.push_back((id.clone(), i, self.root.unwrap(), if local { 0 } else { depth + 1 }));
        }
        Some(id)
    }

    fn callee(&mut self, d: DefId, args: GenericArgsRef<'tcx>) -> J {
        self.callee_d(d, args, 0)
    }

    fn callee_d(&mut self, d: DefId, args: GenericArgsRef<'tcx>, depth: u32) -> J {
        let tcx = self.tcx;
        let path = self.path(d);
        let mut v = vec![("path", s(path)), ("crate", s(tcx.crate_name(d.krate).as_str()))];
        let args = tcx.erase_and_anonymize_regions(args);
        let tys: Vec<J> = args.types().collect::<Vec<_>>().into_iter().map(|x| self.ty(x)).collect();
        v.push(("targs", arr(tys)));
        let cargs: Vec<J> = args.consts().map(|c| c.try_to_target_usize(tcx).map(|x| n(x)).unwrap_or(J::Null)).collect();
        v.push(("cargs", arr(cargs)));
        if let Some(t) = tcx.trait_of_assoc(d) {
            v.push(("trait", s(self.path(t))));
            v.push(("method", s(tcx.item_name(d).as_str())));
        }
        if args.has_escaping_bound_vars() {
            v.push(("kind", s("unresolved")));
            return obj(v);
        }
        match Instance::try_resolve(tcx, self.env(), d, args) {
            Ok(Some(i)) => {
                let kind = match i.def {
                    InstanceKind::Item(_) => "item",
                    InstanceKind::Virtual(..) => "virtual",
                    InstanceKind::Intrinsic(_) => "intrinsic",
                    InstanceKind::Shim(ShimKind::ClosureOnce { .. }) => "once_shim",
                    InstanceKind::Shim(ShimKind::Clone(..)) => "clone_shim",
                    InstanceKind::Shim(ShimKind::FnPtr(..)) => "fnptr_shim",
                    InstanceKind::Shim(ShimKind::DropGlue(..)) => "drop",
                    _ => "shim",
                };
                v.push(("kind", s(kind)));
                v.push(("rpath", s(self.path(i.def_id()))));
                let rcrate = tcx.crate_name(i.def_id().krate).to_string();
                v.push(("rcrate", s(rcrate)));
                if let Some(id) = self.enqueue(i, depth) {
                    v.push(("id", s(id)));
                }
            }
            _ => v.push(("kind", s("unresolved"))),
        }
        obj(v)
    }

    fn place(&mut self, p: &Place<'tcx>, body: &Body<'tcx>) -> J {
        let mut proj = vec![];
        let mut pt = mir::PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            let j = match e {
                ProjectionElem::Deref => {
                    let b = pt.ty.is_box();
                    arr(vec![s("deref"), J::B(b)])
                }
                ProjectionElem::Field(f, t) => {
                    let t = self.ty(t);
                    arr(vec![s("f"), n(f.as_usize() as i128), t])
                }
                ProjectionElem::Index(l) => arr(vec![s("idx"), n(l.as_usize() as i128)]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    arr(vec![s("cidx"), n(offset as i128), n(min_length as i128), J::B(from_end)])
                }
                ProjectionElem::Subslice { from, to, from_end } => arr(vec![s("sub"), n(from as i128), n(to as i128), J::B(from_end)]),
                ProjectionElem::Downcast(_, v) => arr(vec![s("down"), n(v.as_usize() as i128)]),
                _ => arr(vec![s("other"), s(format!("{:?}", e))]),
            };
            proj.push(j);
            pt = pt.projection_ty(self.tcx, e);
        }
        obj(vec![("l", n(p.local.as_usize() as i128)), ("p", arr(proj))])
    }

    fn scalar(&mut self, sc: Scalar, t: Ty<'tcx>, depth: u32) -> J {
        match sc {
            Scalar::Int(i) => {
                let bits = i.to_bits(i.size());
                let v: i128 = match t.kind() {
                    ty::Int(_) => i.to_int(i.size()),
                    _ => bits as i128,
                };
                arr(vec![s("int"), s(v.to_string()), n(i.size().bits() as i128)])
            }
            Scalar::Ptr(p, _) => {
                let (prov, off) = p.prov_and_relative_offset();
                let to = match t.kind() {
                    ty::Ref(_, to, _) => Some(*to),
                    ty::RawPtr(to, _) => Some(*to),
                    _ => None,
                };
                match (self.tcx.try_get_global_alloc(prov.alloc_id()), to) {
                    (Some(GlobalAlloc::Memory(_)), Some(to)) => {
                        let cv = ConstValue::Indirect { alloc_id: prov.alloc_id(), offset: off };
                        let j = self.cval(cv, to, depth + 1);
                        arr(vec![s("refto"), j])
                    }
                    (Some(GlobalAlloc::Function { instance }), _) => {
                        let id = self.enqueue(instance, 0);
                        arr(vec![s("fnptr"), id.map(s).unwrap_or(J::Null)])
                    }
                    (Some(GlobalAlloc::Static(d)), _) => {
                        let p = self.path(d);
                        arr(vec![s("static"), s(p)])
                    }
                    _ => arr(vec![s("opaque"), s("ptr")]),
                }
            }
        }
    }

    fn cval(&mut self, cv: ConstValue, t: Ty<'tcx>, depth: u32) -> J {
        let tcx = self.tcx;
        if depth > 40 {
            return arr(vec![s("opaque"), s("deep")]);
        }
        match t.kind() {
            ty::FnDef(d, a) => {
                let c = self.callee(*d, a.no_bound_vars().unwrap_or(ty::List::empty()));
                return arr(vec![s("fn"), c]);
            }
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) => {
                let size = match tcx.layout_of(self.env().as_query_input(t)) {
                    Ok(l) => l.size,
                    Err(_) => return arr(vec![s("opaque"), s("layout")]),
                };
                if let Some(sc) = self.read_scalar(cv, size, false) {
                    return self.scalar(sc, t, depth);
                }
                return arr(vec![s("opaque"), s("scalar")]);
            }
            ty::Ref(_, to, _) | ty::RawPtr(to, _) => {
                if let ConstValue::Slice { alloc_id, meta } = cv {
                    if to.is_str() {
                        if let GlobalAlloc::Memory(a) = tcx.global_alloc(alloc_id) {
                            let b = a.inner().inspect_with_uninit_and_ptr_outside_interpreter(0..meta as usize);
                            return arr(vec![s("str"), s(String::from_utf8_lossy(b).into_owned())]);
                        }
                    }
                    if let ty::Slice(e) = to.kind() {
                        return self.slice_const(alloc_id, rustc_abi::Size::ZERO, meta, *e, depth);
                    }
                    return arr(vec![s("opaque"), s("slice")]);
                }
                if to.is_str() || matches!(to.kind(), ty::Slice(_)) {
                    // fat pointer in memory
                    if let ConstValue::Indirect { alloc_id, offset } = cv {
                        if let GlobalAlloc::Memory(a) = tcx.global_alloc(alloc_id) {
                            let ps = tcx.data_layout.pointer_size();
                            let p = a.inner().read_scalar(&tcx, mir::interpret::alloc_range(offset, ps), true).ok();
                            let m = a.inner().read_scalar(&tcx, mir::interpret::alloc_range(offset + ps, ps), false).ok();
                            if let (Some(Scalar::Ptr(p, _)), Some(Scalar::Int(m))) = (p, m) {
                                let m = m.to_bits(m.size()) as u64;
                                let (prov, off) = p.prov_and_relative_offset();
                                if let ty::Slice(e) = to.kind() {
                                    return self.slice_const(prov.alloc_id(), off, m, *e, depth);
                                }
                                if let GlobalAlloc::Memory(a) = tcx.global_alloc(prov.alloc_id()) {
                                    let b = a.inner().inspect_with_uninit_and_ptr_outside_interpreter(off.bytes() as usize..(off.bytes() + m) as usize);
                                    return arr(vec![s("str"), s(String::from_utf8_lossy(b).into_owned())]);
                                }
                            }
                        }
                    }
                    return arr(vec![s("opaque"), s("fat")]);
                }
                if matches!(to.kind(), ty::Dynamic(..)) {
                    return arr(vec![s("opaque"), s("dynptr")]);
                }
                let ps = tcx.data_layout.pointer_size();
                if let Some(sc) = self.read_scalar(cv, ps, true) {
                    return self.scalar(sc, t, depth);
                }
                return arr(vec![s("opaque"), s("ptr")]);
            }
            ty::Tuple(ts) if ts.is_empty() => return arr(vec![s("agg"), n(0), arr(vec![])]),
            ty::Adt(d, _) if d.is_union() => return arr(vec![s("opaque"), s("union")]),
            ty::Adt(..) | ty::Array(..) | ty::Tuple(..) => {
                if t.has_param() {
                    return arr(vec![s("opaque"), s("generic")]);
                }
                if let Some(dc) = tcx.try_destructure_mir_constant_for_user_output(cv, t) {
                    let fs = dc.fields.iter().map(|(c, t)| self.cval(*c, *t, depth + 1)).collect();
                    let var = dc.variant.map(|v| v.as_usize()).unwrap_or(0);
                    return arr(vec![s("agg"), n(var as i128), arr(fs)]);
                }
                return arr(vec![s("opaque"), s("adt")]);
            }
            ty::Closure(d, args) => {
                let i = Instance { def: InstanceKind::Item(*d), args: args };
                let id = self.enqueue(i, 0);
                return arr(vec![s("closure"), id.map(s).unwrap_or(J::Null)]);
            }
            _ => {}
        }
        arr(vec![s("opaque"), s(format!("{:?}", t.kind()).chars().take(80).collect::<String>())])
    }

    fn slice_const(&mut self, alloc_id: mir::interpret::AllocId, off: rustc_abi::Size, len: u64, e: Ty<'tcx>, depth: u32) -> J {
        let es = match self.tcx.layout_of(self.env().as_query_input(e)) {
            Ok(l) => l.size,
            Err(_) => return arr(vec![s("opaque"), s("slice")]),
        };
        let mut v = vec![];
        for i in 0..len.min(4096) {
            let cv = ConstValue::Indirect { alloc_id, offset: off + es * i };
            v.push(self.cval(cv, e, depth + 1));
        }
        arr(vec![s("refto"), arr(vec![s("agg"), n(0), arr(v)])])
    }

    fn read_scalar(&self, cv: ConstValue, size: rustc_abi::Size, prov: bool) -> Option<Scalar> {
        match cv {
            ConstValue::Scalar(sc) => Some(sc),
            ConstValue::Indirect { alloc_id, offset } => match self.tcx.global_alloc(alloc_id) {
                GlobalAlloc::Memory(a) => a.inner().read_scalar(&self.tcx, mir::interpret::alloc_range(offset, size), prov).ok(),
                _ => None,
            },
            _ => None,
        }
    }

    fn constant(&mut self, c: &ConstOperand<'tcx>) -> J {
        let tcx = self.tcx;
        let t = self.norm(c.const_.ty());
        let tj = self.ty(t);
        let mut name = J::Null;
        if let mir::Const::Unevaluated(u, _) = c.const_ {
            if u.promoted.is_none() {
                name = s(self.path(u.def));
            }
        }
        let v = match t.kind() {
            ty::FnDef(d, a) => {
                let cj = self.callee(*d, a.no_bound_vars().unwrap_or(ty::List::empty()));
                arr(vec![s("fn"), cj])
            }
            _ => match c.const_.eval(tcx, self.env(), c.span) {
                Ok(cv) => self.cval(cv, t, 0),
                Err(_) => arr(vec![s("opaque"), s(format!("{}", c.const_))]),
            },
        };
        obj(vec![("ty", tj), ("v", v), ("name", name)])
    }

    fn operand(&mut self, o: &Operand<'tcx>, b: &Body<'tcx>) -> J {
        match o {
            Operand::Copy(p) => arr(vec![s("copy"), self.place(p, b)]),
            Operand::Move(p) => arr(vec![s("move"), self.place(p, b)]),
            Operand::Constant(c) => arr(vec![s("const"), self.constant(c)]),
            #[allow(unreachable_patterns)]
            _ => arr(vec![s("other"), s(format!("{:?}", o))]),
        }
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>, b: &Body<'tcx>, depth: u32) -> J {
        match r {
            Rvalue::Use(o, ..) => arr(vec![s("use"), self.operand(o, b)]),
            Rvalue::Repeat(o, c) => {
                let l = c.try_to_target_usize(self.tcx);
                arr(vec![s("repeat"), self.operand(o, b), l.map(|x| n(x as i128)).unwrap_or(J::Null)])
            }
            Rvalue::Ref(_, k, p) => arr(vec![s("ref"), J::B(matches!(k, BorrowKind::Mut { .. })), self.place(p, b)]),
            Rvalue::RawPtr(_, p) => arr(vec![s("rawptr"), self.place(p, b)]),
            Rvalue::Cast(k, o, t) => {
                let oj = self.operand(o, b);
                let st = o.ty(&b.local_decls, self.tcx);
                let sj = self.ty(st);
                let tj = self.ty(*t);
                let mut v = vec![s("cast"), s(format!("{:?}", k)), oj, sj, tj];
                if let ty::Closure(d, args) = st.kind() {
                    let i = Instance { def: InstanceKind::Item(*d), args: args };
                    if let Some(id) = self.enqueue(i, depth) {
                        v.push(s(id));
                    }
                }
                arr(v)
            }
            Rvalue::BinaryOp(op, ab) => {
                let t = ab.0.ty(&b.local_decls, self.tcx);
                let tj = self.ty(t);
                arr(vec![s("bin"), s(format!("{:?}", op)), self.operand(&ab.0, b), self.operand(&ab.1, b), tj])
            }
            Rvalue::UnaryOp(op, a) => {
                let t = a.ty(&b.local_decls, self.tcx);
                let tj = self.ty(t);
                arr(vec![s("un"), s(format!("{:?}", op)), self.operand(a, b), tj])
            }
            Rvalue::Discriminant(p) => {
                let t = p.ty(&b.local_decls, self.tcx).ty;
                let tj = self.ty(t);
                arr(vec![s("discr"), self.place(p, b), tj])
            }
            Rvalue::Aggregate(k, ops) => {
                let os = arr(ops.iter().map(|o| self.operand(o, b)).collect());
                match &**k {
                    AggregateKind::Array(t) => {
                        let t = self.ty(*t);
                        arr(vec![s("agg"), s("array"), t, n(0), os])
                    }
                    AggregateKind::Tuple => arr(vec![s("agg"), s("tuple"), J::Null, n(0), os]),
                    AggregateKind::Adt(d, v, args, _, fi) => {
                        let t = self.tcx.type_of(*d).instantiate(self.tcx, args).skip_norm_wip();
                        let tj = self.ty(t);
                        arr(vec![s("agg"), s("adt"), tj, n(v.as_usize() as i128), os, fi.map(|f| n(f.as_usize() as i128)).unwrap_or(J::Null)])
                    }
                    AggregateKind::Closure(d, args) => {
                        let i = Instance { def: InstanceKind::Item(*d), args: args };
                        let id = self.enqueue(i, depth);
                        let kind = format!("{:?}", args.as_closure().kind());
                        arr(vec![s("agg"), s("closure"), id.map(s).unwrap_or(J::Null), s(kind), os])
                    }
                    AggregateKind::RawPtr(..) => arr(vec![s("agg"), s("rawptr"), J::Null, n(0), os]),
                    _ => arr(vec![s("other"), s("aggregate")]),
                }
            }
            Rvalue::CopyForDeref(p) => arr(vec![s("use"), arr(vec![s("copy"), self.place(p, b)])]),
            #[allow(unreachable_patterns)]
            _ => arr(vec![s("other"), s(format!("{:?}", r).chars().take(100).collect::<String>())]),
        }
    }

    fn body(&mut self, id: &str, i: Instance<'tcx>, depth: u32) -> Option<J> {
        let tcx = self.tcx;
        let body = tcx.instance_mir(i.def);
        let body: Body<'tcx> = i.try_instantiate_mir_and_normalize_erasing_regions(tcx, self.env(), EarlyBinder::bind(tcx, body.clone())).ok()?;
        let external = !i.def_id().is_local();
        if external && body.basic_blocks.len() > 80 {
            return None;
        }
        let locals: Vec<J> = body.local_decls.iter().map(|l| l.ty).collect::<Vec<_>>().into_iter().map(|t| self.ty(t)).collect();
        let mut blocks = vec![];
        for (_bb, data) in body.basic_blocks.iter_enumerated() {
            let mut st = vec![];
            for stmt in &data.statements {
                match &stmt.kind {
                    StatementKind::Assign(pr) => {
                        let p = self.place(&pr.0, &body);
                        let r = self.rvalue(&pr.1, &body, depth);
                        st.push(arr(vec![s("assign"), p, r, n(self.line(stmt.source_info.span))]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(place, &body);
                        st.push(arr(vec![s("setdiscr"), p, n(variant_index.as_usize() as i128)]));
                    }
                    StatementKind::Intrinsic(k) => {
                        if !matches!(**k, NonDivergingIntrinsic::Assume(_)) {
                            st.push(arr(vec![s("other"), s("intrinsic")]));
                        }
                    }
                    _ => {}
                }
            }
            let t = data.terminator();
            let line = n(self.line(t.source_info.span));
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => arr(vec![s("goto"), n(target.as_usize() as i128)]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let ty = discr.ty(&body.local_decls, tcx);
                    let tyj = self.ty(ty);
                    let o = self.operand(discr, &body);
                    let ts = targets.iter().map(|(v, t)| arr(vec![s(v.to_string()), n(t.as_usize() as i128)])).collect();
                    arr(vec![s("switch"), o, tyj, arr(ts), n(targets.otherwise().as_usize() as i128)])
                }
                TerminatorKind::Return => arr(vec![s("return")]),
                TerminatorKind::Unreachable => arr(vec![s("unreachable")]),
                TerminatorKind::Drop { place, target, .. } => {
                    let p = self.place(place, &body);
                    arr(vec![s("drop"), p, n(target.as_usize() as i128)])
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = match func {
                        Operand::Constant(c) => {
                            if let ty::FnDef(d, a) = c.const_.ty().kind() {
                                let cj = self.callee_d(*d, a.no_bound_vars().unwrap_or(ty::List::empty()), depth);
                                arr(vec![s("fn"), cj])
                            } else {
                                self.operand(func, &body)
                            }
                        }
                        _ => self.operand(func, &body),
                    };
                    let aj: Vec<J> = args.iter().map(|a| self.operand(&a.node, &body)).collect();
                    let at: Vec<J> = args.iter().map(|a| a.node.ty(&body.local_decls, tcx)).collect::<Vec<_>>().into_iter().map(|t| self.ty(t)).collect();
                    let d = self.place(destination, &body);
                    let dt = destination.ty(&body.local_decls, tcx).ty;
                    let dt = self.ty(dt);
                    arr(vec![s("call"), f, arr(aj), d, target.map(|t| n(t.as_usize() as i128)).unwrap_or(J::Null), arr(at), dt, line])
                }
                TerminatorKind::Assert { cond, expected, target, msg, .. } => {
                    let o = self.operand(cond, &body);
                    let m = format!("{:?}", msg).chars().take(60).collect::<String>();
                    arr(vec![s("assert"), o, J::B(*expected), n(target.as_usize() as i128), s(m)])
                }
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => arr(vec![s("unreachable")]),
                other => arr(vec![s("other"), s(format!("{:?}", other).chars().take(100).collect::<String>())]),
            };
            blocks.push(obj(vec![("s", arr(st)), ("t", tj), ("cleanup", J::B(data.is_cleanup))]));
        }
        let mut names = vec![];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                names.push(arr(vec![s(v.name.as_str()), self.place(&p, &body)]));
            }
        }
        let sp = tcx.sess.source_map().lookup_char_pos(body.span.lo());
        let file = format!("{:?}", sp.file.name);
        let root = self.path(self.root.unwrap());
        let path = self.path(i.def_id());
        let args: Vec<J> = i.args.types().collect::<Vec<_>>().into_iter().map(|t| self.ty(t)).collect();
        Some(obj(vec![
            ("id", s(id)),
            ("path", s(path)),
            ("root", s(root)),
            ("targs", arr(args)),
            ("file", s(file)),
            ("line", n(sp.line as i128)),
            ("external", J::B(external)),
            ("closure", J::B(tcx.is_closure_like(i.def_id()) && matches!(i.def, InstanceKind::Item(_)))),
            ("argc", n(body.arg_count as i128)),
            ("spread", body.spread_arg.map(|l| n(l.as_usize() as i128)).unwrap_or(J::Null)),
            ("locals", arr(locals)),
            ("names", arr(names)),
            ("blocks", arr(blocks)),
        ]))
    }

    fn line(&self, sp: rustc_span::Span) -> i128 {
        self.tcx.sess.source_map().lookup_char_pos(sp.source_callsite().lo()).line as i128
    }

    fn dump(&mut self) -> J {
        let tcx = self.tcx;
        let mut fns = vec![];
        for ld in tcx.mir_keys(()) {
            let d = ld.to_def_id();
            let k = tcx.def_kind(d);
            if !matches!(k, DefKind::Fn | DefKind::AssocFn) {
                continue;
            }
            // skip derived serde impls
            let mut trait_path = None;
            let mut self_ty = None;
            let mut is_trait_default = false;
            if let Some(p) = tcx.opt_parent(d) {
                if let DefKind::Impl { of_trait } = tcx.def_kind(p) {
                    let st = tcx.type_of(p).instantiate_identity().skip_norm_wip();
                    self_ty = Some(st);
                    if of_trait {
                        let tr = tcx.impl_trait_ref(p).instantiate_identity().skip_norm_wip();
                        trait_path = Some((self.path(tr.def_id), tr));
                    }
                } else if let DefKind::Trait = tcx.def_kind(p) {
                    is_trait_default = true;
                }
            }
            if let Some((tp, _)) = &trait_path {
                if tp.starts_with("serde::") || tp.starts_with("serde_core::") || tp.ends_with("fmt::Debug") {
                    continue;
                }
            }
            let p = self.path(d);
            if p.contains("serde") {
                continue;
            }
            if tcx.is_const_fn(d) && false {
                continue;
            }
            self.root = Some(d);
            let args = ty::GenericArgs::identity_for_item(tcx, d);
            let inst = Instance { def: InstanceKind::Item(d), args: tcx.erase_and_anonymize_regions(args) };
            let id = self.enqueue(inst, 0);
            let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip().skip_binder();
            let ins: Vec<J> = sig.inputs().iter().map(|t| *t).collect::<Vec<_>>().into_iter().map(|t| self.ty(t)).collect();
            let out = self.ty(sig.output());
            let mut f = vec![
                ("path", s(p)),
                ("id", id.map(s).unwrap_or(J::Null)),
                ("name", s(tcx.item_name(d).as_str())),
                ("inputs", arr(ins)),
                ("output", out),
                ("pub", J::B(tcx.visibility(d).is_public())),
                ("default", J::B(is_trait_default)),
            ];
            if let Some(st) = self_ty {
                let st = self.ty(st);
                f.push(("self_ty", st));
            }
            if let Some((tp, tr)) = trait_path {
                let targs: Vec<J> = tr.args.types().collect::<Vec<_>>().into_iter().map(|t| self.ty(t)).collect();
                f.push(("trait", s(tp)));
                f.push(("trait_args", arr(targs)));
            }
            fns.push(obj(f));
        }
        while let Some((id, i, root, depth)) = self.work.pop_front() {
            self.root = Some(root);
            if let Some(b) = self.body(&id, i, depth) {
                self.bodies.push(b);
            }
        }
        let mut adts = vec![];
        for d in tcx.hir_crate_items(()).definitions() {
            let d = d.to_def_id();
            if matches!(tcx.def_kind(d), DefKind::Struct | DefKind::Enum) {
                self.root = Some(d);
                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let p = self.path(d);
                let tj = self.ty(t);
                adts.push(obj(vec![("path", s(p)), ("ty", tj)]));
            }
        }
        let mut types = vec![];
        for k in &self.type_order {
            types.push((k.clone(), std::mem::replace(self.types.get_mut(k).unwrap(), J::Null)));
        }
        obj(vec![
            ("crate", s(tcx.crate_name(LOCAL_CRATE).as_str())),
            ("fns", arr(fns)),
            ("bodies", arr(std::mem::take(&mut self.bodies))),
            ("adts", arr(adts)),
            ("types", J::O(types)),
        ])
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let mut _x = String::new();
    let _ = write!(_x, "");
    rustc_driver::compiler_entrypoint(&args, &mut Cb);
}
