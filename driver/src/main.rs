//! MIR extraction driver.
//!
//! Used as `RUSTC_WORKSPACE_WRAPPER` under `cargo +nightly check --lib`: it
//! compiles the crate with the build's own flags and, after analysis, writes a
//! JSON description of the resolved program: every function of the crate as
//! runtime MIR (drops and unwind edges explicit), every callee resolved to an
//! instance (bodies of the standard library's generic helpers included), the
//! layout of every type, signatures, visibilities, safety and impl headers.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

mod json;
use json::J;
use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::{self, *};
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, EarlyBinder, GenericArgsRef, Instance, InstanceKind, Ty, TyCtxt, TypeVisitableExt, TypingEnv};
use rustc_span::Span;
use std::collections::{BTreeMap, HashMap, VecDeque};

struct Cb {
    out: String,
}

impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let mut d = Dump { tcx, types: vec![], tyidx: HashMap::new(), insts: BTreeMap::new(), queue: VecDeque::new(), seen: HashMap::new(), pqueue: VecDeque::new(), cqueue: VecDeque::new() };
        let j = d.run();
        std::fs::write(&self.out, j.to_string()).expect("write dump");
        Compilation::Continue
    }
}

struct Dump<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<J>,
    tyidx: HashMap<Ty<'tcx>, usize>,
    insts: BTreeMap<String, J>,
    queue: VecDeque<(String, Instance<'tcx>, TypingEnv<'tcx>)>,
    seen: HashMap<String, ()>,
    pqueue: VecDeque<(String, DefId, GenericArgsRef<'tcx>, Promoted, TypingEnv<'tcx>)>,
    cqueue: VecDeque<(String, DefId, GenericArgsRef<'tcx>, TypingEnv<'tcx>)>,
}

fn s(x: impl Into<String>) -> J {
    J::S(x.into())
}
fn n(x: usize) -> J {
    J::N(x as i128)
}

const SKIP: &[&str] = &[
    "core::fmt", "std::fmt", "alloc::fmt", "std::io", "core::panicking", "std::panicking", "std::rt", "alloc::alloc", "std::alloc", "alloc::string",
    "core::str", "alloc::str", "core::num::fmt", "std::sys", "core::intrinsics", "alloc::raw_vec", "alloc::vec", "core::alloc", "alloc::boxed",
    "std::string", "std::str", "std::vec", "std::boxed",
];

impl<'tcx> Dump<'tcx> {
    fn path(&self, d: DefId) -> String {
        with_no_trimmed_paths!(self.tcx.def_path_str(d))
    }
    fn key(&self, i: Instance<'tcx>) -> String {
        let base = match i.def {
            InstanceKind::Item(d) => with_no_trimmed_paths!(self.tcx.def_path_str_with_args(d, i.args)),
            InstanceKind::Intrinsic(d) => format!("intrinsic::{}", with_no_trimmed_paths!(self.tcx.def_path_str_with_args(d, i.args))),
            other => with_no_trimmed_paths!(format!("shim::{:?}::{:?}", other, i.args)),
        };
        // closures of the same path can differ in captured types
        if let InstanceKind::Item(d) = i.def {
            if self.tcx.is_closure_like(d) {
                return with_no_trimmed_paths!(format!("{}#{:?}", self.path(d), i.args));
            }
        }
        // so can functions that are instantiated with closures
        let clos = i.args.types().any(|t| t.walk().any(|g| g.as_type().map_or(false, |x| x.is_closure())));
        if clos {
            let d = with_no_trimmed_paths!(format!("{:?}", i.args));
            let mut h: u64 = 0xcbf29ce484222325;
            for b in d.bytes() {
                h = (h ^ b as u64).wrapping_mul(0x100000001b3);
            }
            return format!("{}#{:08x}", base, (h ^ (h >> 32)) as u32);
        }
        base
    }
    fn file_line(&self, sp: Span) -> (String, usize) {
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        if sp.is_dummy() {
            return (String::new(), 0);
        }
        let lo = sm.lookup_char_pos(sp.lo());
        (format!("{}", lo.file.name.prefer_local_unconditionally()), lo.line)
    }
    fn ty(&mut self, t: Ty<'tcx>, env: TypingEnv<'tcx>) -> J {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(&i) = self.tyidx.get(&t) {
            return n(i);
        }
        let i = self.types.len();
        self.tyidx.insert(t, i);
        self.types.push(J::Null);
        let mut o: Vec<(&str, J)> = vec![("s", s(with_no_trimmed_paths!(t.to_string())))];
        match *t.kind() {
            ty::Bool => o.push(("k", s("bool"))),
            ty::Char => o.push(("k", s("char"))),
            ty::Int(x) => {
                o.push(("k", s("int")));
                o.push(("name", s(x.name_str())))
            }
            ty::Uint(x) => {
                o.push(("k", s("uint")));
                o.push(("name", s(x.name_str())))
            }
            ty::Str => o.push(("k", s("str"))),
            ty::Never => o.push(("k", s("never"))),
            ty::Adt(def, args) => {
                o.push(("k", s("adt")));
                let p = self.path(def.did());
                o.push(("path", s(p.clone())));
                o.push(("local", J::B(def.did().is_local())));
                let a: Vec<J> = args.types().map(|x| self.ty(x, env)).collect();
                o.push(("args", J::A(a)));
                let ca: Vec<J> = args.consts().map(|c| s(c.to_string())).collect();
                o.push(("cargs", J::A(ca)));
                o.push(("kind", s(if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" })));
                if def.is_box() {
                    o.push(("box", J::B(true)));
                }
                let deep = def.did().is_local()
                    || p.starts_with("std::option")
                    || p.starts_with("core::option")
                    || p.starts_with("std::result")
                    || p.starts_with("core::")
                    || p.starts_with("std::ops")
                    || p.starts_with("std::iter")
                    || p.starts_with("std::cmp")
                    || p.starts_with("std::marker")
                    || p.starts_with("std::mem")
                    || p.starts_with("std::slice")
                    || p.starts_with("std::ptr")
                    || p.starts_with("std::convert");
                let mut vs = vec![];
                for (vi, v) in def.variants().iter_enumerated() {
                    let mut fs = vec![];
                    for f in v.fields.iter() {
                        let fty = f.ty(self.tcx, args).skip_norm_wip();
                        let fty = self.tcx.try_normalize_erasing_regions(env, ty::Unnormalized::new_wip(fty)).unwrap_or(fty);
                        let tj = if deep { self.ty(fty, env) } else { J::Null };
                        fs.push(J::O(vec![
                            ("name", s(f.name.to_string())),
                            ("ty", tj),
                            ("pub", J::B(f.vis.is_public())),
                        ]));
                    }
                    let discr = if def.is_enum() { J::N(signed(self.tcx, def.discriminant_for_variant(self.tcx, vi))) } else { J::N(0) };
                    vs.push(J::O(vec![("name", s(v.name.to_string())), ("discr", discr), ("fields", J::A(fs))]));
                }
                o.push(("variants", J::A(vs)));
                if let Some(dtor) = self.tcx.adt_destructor(def.did()) {
                    o.push(("dtor_path", s(self.path(dtor.did))));
                    if def.did().is_local() {
                        let inst = Instance::new_raw(dtor.did, args);
                        let k = self.enqueue(inst, env);
                        o.push(("dtor", s(k)));
                    }
                }
            }
            ty::Array(e, c) => {
                o.push(("k", s("array")));
                o.push(("elem", self.ty(e, env)));
                o.push(("len", self.tyconst(c)));
            }
            ty::Slice(e) => {
                o.push(("k", s("slice")));
                o.push(("elem", self.ty(e, env)));
            }
            ty::Ref(_, e, m) => {
                o.push(("k", s("ref")));
                o.push(("elem", self.ty(e, env)));
                o.push(("mut", J::B(m.is_mut())));
            }
            ty::RawPtr(e, m) => {
                o.push(("k", s("ptr")));
                o.push(("elem", self.ty(e, env)));
                o.push(("mut", J::B(m.is_mut())));
            }
            ty::Tuple(ts) => {
                o.push(("k", s("tuple")));
                let a: Vec<J> = ts.iter().map(|x| self.ty(x, env)).collect();
                o.push(("elems", J::A(a)));
            }
            ty::Param(p) => {
                o.push(("k", s("param")));
                o.push(("name", s(p.name.to_string())));
            }
            ty::Closure(d, args) => {
                o.push(("k", s("closure")));
                o.push(("path", s(self.path(d))));
                let ups: Vec<J> = args.as_closure().upvar_tys().iter().map(|x| self.ty(x, env)).collect();
                o.push(("upvars", J::A(ups)));
                let kind = args.as_closure().kind();
                o.push(("ckind", s(format!("{:?}", kind))));
                let k = self.enqueue(Instance::new_raw(d, args), env);
                o.push(("body", s(k)));
            }
            ty::FnDef(d, args) => {
                o.push(("k", s("fndef")));
                o.push(("path", s(self.path(d))));
                let f = self.callee(d, args.skip_binder(), env);
                o.push(("fn", f));
            }
            ty::Alias(..) => o.push(("k", s("alias"))),
            _ => o.push(("k", s("other"))),
        }
        self.types[i] = J::O(o);
        n(i)
    }
    fn tyconst(&mut self, c: ty::Const<'tcx>) -> J {
        if let Some(v) = c.try_to_target_usize(self.tcx) {
            n(v as usize)
        } else {
            s(c.to_string())
        }
    }
    /// A type with its lifetimes, for the rules over signatures.
    fn rty(&self, t: Ty<'tcx>, imp: Option<DefId>, depth: usize) -> J {
        let tcx = self.tcx;
        if depth > 12 {
            return J::A(vec![s("other"), s(t.to_string())]);
        }
        let r = |x: Ty<'tcx>| self.rty(x, imp, depth + 1);
        match *t.kind() {
            ty::Ref(re, e, m) => J::A(vec![s("ref"), s(format!("{:?}", re)), J::B(m.is_mut()), r(e)]),
            ty::RawPtr(e, m) => J::A(vec![s("ptr"), J::B(m.is_mut()), r(e)]),
            ty::Slice(e) | ty::Array(e, _) => J::A(vec![s("seq"), r(e)]),
            ty::Tuple(ts) => J::A(vec![s("tuple"), J::A(ts.iter().map(r).collect())]),
            ty::Param(p) => J::A(vec![s("param"), s(p.name.to_string())]),
            ty::Adt(def, args) => {
                let rs: Vec<J> = args.regions().map(|x| s(format!("{:?}", x))).collect();
                let ts: Vec<J> = args.types().map(r).collect();
                J::A(vec![s("adt"), s(self.path(def.did())), J::A(rs), J::A(ts)])
            }
            ty::Alias(_, a) => {
                let d = match a.kind {
                    ty::AliasTyKind::Projection { def_id } | ty::AliasTyKind::Opaque { def_id } => def_id,
                    _ => return J::A(vec![s("other"), s(t.to_string())]),
                };
                if matches!(a.kind, ty::AliasTyKind::Opaque { .. }) {
                    let h = tcx.type_of(d).instantiate(tcx, a.args).skip_norm_wip();
                    return r(h);
                }
                if let Some(imp) = imp {
                    if let Some(tr) = tcx.impl_opt_trait_ref(imp) {
                        let tr = tr.instantiate_identity().skip_norm_wip();
                        if tcx.parent(d) == tr.def_id && a.args.len() >= tr.args.len() && a.args[..tr.args.len()] == tr.args[..] {
                            if let Some(&x) = tcx.associated_item_def_ids(imp).iter().find(|x| tcx.associated_item(**x).trait_item_def_id() == Some(d)) {
                                return r(tcx.type_of(x).instantiate_identity().skip_norm_wip());
                            }
                        }
                    }
                }
                let rs: Vec<J> = a.args.regions().map(|x| s(format!("{:?}", x))).collect();
                let ts: Vec<J> = a.args.types().map(r).collect();
                J::A(vec![s("proj"), s(self.path(d)), J::A(rs), J::A(ts)])
            }
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) | ty::Str | ty::Never => J::A(vec![s("prim"), s(t.to_string())]),
            _ => J::A(vec![s("other"), s(t.to_string())]),
        }
    }
    fn enqueue(&mut self, i: Instance<'tcx>, env: TypingEnv<'tcx>) -> String {
        let k = self.key(i);
        if self.seen.insert(k.clone(), ()).is_none() {
            self.queue.push_back((k.clone(), i, env));
        }
        k
    }
    /// Description of a callee: resolved instance (body dumped when available) or abstract method.
    fn callee(&mut self, d: DefId, args: GenericArgsRef<'tcx>, env: TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        let p = self.path(d);
        let mut o: Vec<(&str, J)> = vec![("path", s(p.clone())), ("local", J::B(d.is_local()))];
        o.push(("name", s(tcx.opt_item_name(d).map(|x| x.to_string()).unwrap_or_default())));
        let ta: Vec<J> = args.types().map(|x| self.ty(x, env)).collect();
        o.push(("args", J::A(ta)));
        let sig = if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) { Some(tcx.fn_sig(d).skip_binder()) } else { None };
        if let Some(sig) = sig {
            o.push(("unsafe", J::B(!sig.safety().is_safe())));
        }
        let res = match tcx.def_kind(d) {
            DefKind::Ctor(..) => {
                o.push(("ctor", J::B(true)));
                Some(Instance::new_raw(d, args))
            }
            _ => Instance::try_resolve(tcx, env, d, args).ok().flatten(),
        };
        let res = match res {
            Some(i) => Some(i),
            None => {
                // Provided method of a trait of this crate on an abstract Self: the contract of `Storage`
                // forbids overriding, so the default body is the callee.
                if let Some(ai) = tcx.opt_associated_item(d) {
                    if d.is_local() && tcx.trait_of_assoc(d).is_some() && ai.defaultness(tcx).has_value() {
                        Some(Instance::new_raw(d, args))
                    } else {
                        None
                    }
                } else {
                    None
                }
            }
        };
        match res {
            None => {
                o.push(("k", s("abstract")));
                if let Some(t) = tcx.trait_of_assoc(d) {
                    o.push(("trait", s(self.path(t))));
                }
            }
            Some(i) => match i.def {
                InstanceKind::Item(rd) => {
                    o.push(("rpath", s(self.path(rd))));
                    o.push(("rlocal", J::B(rd.is_local())));
                    let ra: Vec<J> = i.args.types().map(|x| self.ty(x, env)).collect();
                    o.push(("rargs", J::A(ra)));
                    let rp = self.path(rd);
                    let skip = !rd.is_local() && SKIP.iter().any(|k| rp.starts_with(k) || rp.starts_with(&format!("<{}", k)));
                    if tcx.is_mir_available(rd) && !skip && !tcx.is_foreign_item(rd) {
                        o.push(("k", s("inst")));
                        let k = self.enqueue(i, env);
                        o.push(("key", s(k)));
                    } else {
                        o.push(("k", s("nomir")));
                    }
                    // A foreign override of a provided method: its default body too.
                    if rd != d && !rd.is_local() && !rp.ends_with("get_unchecked") && (rp.starts_with("<std::slice::Iter") || rp.starts_with("<std::slice::Windows") || rp.starts_with("<std::array::IntoIter")) {
                        if let Some(ai) = tcx.opt_associated_item(d) {
                            if tcx.trait_of_assoc(d).is_some() && ai.defaultness(tcx).has_value() && tcx.is_mir_available(d) {
                                let di = Instance::new_raw(d, args);
                                let k = format!("default {}", self.key(di));
                                if self.seen.insert(k.clone(), ()).is_none() {
                                    self.queue.push_back((k.clone(), di, env));
                                }
                                o.push(("dkey", s(k)));
                            }
                        }
                    }
                }
                InstanceKind::Intrinsic(_) => o.push(("k", s("intrinsic"))),
                InstanceKind::Shim(sh) => {
                    o.push(("k", s("shim")));
                    let d = with_no_trimmed_paths!(format!("{:?}", sh));
                    let nm = d.split(|c: char| !c.is_alphanumeric()).next().unwrap_or("").to_string();
                    o.push(("shim", s(nm)));
                }
                _ => o.push(("k", s("other"))),
            },
        }
        J::O(o)
    }
    fn place(&mut self, p: &Place<'tcx>, env: TypingEnv<'tcx>) -> J {
        let mut pr = vec![];
        for e in p.projection.iter() {
            pr.push(match e {
                ProjectionElem::Deref => J::A(vec![s("*")]),
                ProjectionElem::Field(f, t) => J::A(vec![s("f"), n(f.as_usize()), self.ty(t, env)]),
                ProjectionElem::Index(l) => J::A(vec![s("i"), n(l.as_usize())]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    J::A(vec![s("ci"), n(offset as usize), n(min_length as usize), J::B(from_end)])
                }
                ProjectionElem::Subslice { from, to, from_end } => J::A(vec![s("ss"), n(from as usize), n(to as usize), J::B(from_end)]),
                ProjectionElem::Downcast(_, v) => J::A(vec![s("d"), n(v.as_usize())]),
                _ => J::A(vec![s("?")]),
            });
        }
        J::A(vec![n(p.local.as_usize()), J::A(pr)])
    }
    fn read_mem(&self, alloc: mir::interpret::AllocId, off: u64, size: u64) -> Option<u128> {
        let ga = self.tcx.try_get_global_alloc(alloc)?;
        if let mir::interpret::GlobalAlloc::Memory(m) = ga {
            let a = m.inner();
            if off + size > a.len() as u64 {
                return None;
            }
            let b = a.inspect_with_uninit_and_ptr_outside_interpreter(off as usize..(off + size) as usize);
            let mut v: u128 = 0;
            for (i, x) in b.iter().enumerate() {
                v |= (*x as u128) << (8 * i);
            }
            return Some(v);
        }
        None
    }
    /// The value of a constant of an algebraic type, taken apart.
    fn cval(&mut self, v: ConstValue, t: Ty<'tcx>, depth: usize) -> Option<J> {
        if depth > 4 || t.has_param() {
            return None;
        }
        match t.kind() {
            ty::Adt(..) | ty::Tuple(..) => {
                let d = self.tcx.try_destructure_mir_constant_for_user_output(v, t)?;
                let mut fs = vec![];
                for (fv, ft) in d.fields.iter() {
                    fs.push(self.cval(*fv, *ft, depth + 1)?);
                }
                Some(J::A(vec![s("A"), n(d.variant.map_or(0, |i| i.as_usize())), J::A(fs)]))
            }
            _ => match v {
                ConstValue::Scalar(sc) => {
                    let i = sc.try_to_scalar_int().ok()?;
                    let size = i.size();
                    let x: i128 = if t.is_signed() { i.to_int(size) } else { i.to_uint(size) as i128 };
                    Some(J::A(vec![s("I"), J::N(x)]))
                }
                _ => None,
            },
        }
    }
    fn constant(&mut self, c: &ConstOperand<'tcx>, env: TypingEnv<'tcx>) -> J {
        let t = c.const_.ty();
        let mut o: Vec<(&str, J)> = vec![("ty", self.ty(t, env))];
        if let ty::FnDef(d, args) = *t.kind() {
            let f = self.callee(d, args.skip_binder(), env);
            o.push(("fn", f));
            return J::A(vec![s("k"), J::O(o)]);
        }
        if let Const::Ty(_, cc) = c.const_ {
            if let ty::ConstKind::Param(p) = cc.kind() {
                o.push(("param", s(p.name.to_string())));
                return J::A(vec![s("k"), J::O(o)]);
            }
        }
        if let Const::Unevaluated(uv, _) = c.const_ {
            if let Some(p) = uv.promoted {
                let k = format!("{}::promoted[{}]", with_no_trimmed_paths!(self.tcx.def_path_str_with_args(uv.def, uv.args)), p.index());
                if self.seen.insert(k.clone(), ()).is_none() {
                    self.pqueue.push_back((k.clone(), uv.def, uv.args, p, env));
                }
                o.push(("promoted", s(k)));
            } else if uv.def.is_local() && matches!(t.kind(), ty::Adt(..) | ty::Tuple(..) | ty::Array(..)) && uv.def.as_local().map_or(false, |l| self.tcx.mir_keys(()).contains(&l)) {
                // the body of a constant that the compiler cannot evaluate before its parameters are known
                let k = format!("const {}", with_no_trimmed_paths!(self.tcx.def_path_str_with_args(uv.def, uv.args)));
                if self.seen.insert(k.clone(), ()).is_none() {
                    self.cqueue.push_back((k.clone(), uv.def, uv.args, env));
                }
                o.push(("ckey", s(k)));
            }
        }
        let has_params = c.const_.has_param();
        if !has_params || matches!(c.const_, Const::Val(..)) || t.is_integral() || t.is_bool() || t.is_ref() {
            let cv = c.const_.eval(self.tcx, env, c.span);
            if let Ok(v) = cv {
                if matches!(t.kind(), ty::Adt(..) | ty::Tuple(..)) && !matches!(v, ConstValue::ZeroSized) {
                    if let Some(x) = self.cval(v, t, 0) {
                        o.push(("val", x));
                    }
                }
            }
            match cv {
                Ok(ConstValue::Scalar(sc)) => match sc.try_to_scalar_int() {
                    Ok(i) => {
                        let size = i.size();
                        let v: i128 = if t.is_signed() { i.to_int(size) } else { i.to_uint(size) as i128 };
                        o.push(("int", J::N(v)));
                    }
                    Err(_) => {
                        if let mir::interpret::Scalar::Ptr(p, _) = sc {
                            if let Some(et) = t.builtin_deref(true) {
                                if et.is_integral() || et.is_bool() {
                                    let (prov, off) = p.prov_and_relative_offset();
                                    let sz = self.tcx.layout_of(env.as_query_input(et)).map(|l| l.size.bytes()).unwrap_or(8);
                                    if let Some(v) = self.read_mem(prov.alloc_id(), off.bytes(), sz) {
                                        o.push(("refint", J::N(v as i128)));
                                    }
                                }
                            }
                        }
                    }
                },
                Ok(ConstValue::ZeroSized) => o.push(("zst", J::B(true))),
                Ok(ConstValue::Slice { alloc_id, meta }) => {
                    if let Some(et) = t.builtin_deref(true) {
                        if et.is_str() {
                            if let Some(mir::interpret::GlobalAlloc::Memory(m)) = self.tcx.try_get_global_alloc(alloc_id) {
                                let a = m.inner();
                                let b = a.inspect_with_uninit_and_ptr_outside_interpreter(0..meta as usize);
                                o.push(("str", s(String::from_utf8_lossy(b).to_string())));
                            }
                        }
                    }
                }
                _ => {}
            }
        }
        o.push(("s", s(with_no_trimmed_paths!(c.const_.to_string()))));
        J::A(vec![s("k"), J::O(o)])
    }
    fn operand(&mut self, o: &Operand<'tcx>, env: TypingEnv<'tcx>) -> J {
        match o {
            Operand::Copy(p) => J::A(vec![s("c"), self.place(p, env)]),
            Operand::Move(p) => J::A(vec![s("m"), self.place(p, env)]),
            Operand::Constant(c) => self.constant(c, env),
            Operand::RuntimeChecks(_) => J::A(vec![s("rt")]),
        }
    }
    fn rvalue(&mut self, r: &Rvalue<'tcx>, env: TypingEnv<'tcx>) -> J {
        match r {
            Rvalue::Use(o, _) => J::A(vec![s("use"), self.operand(o, env)]),
            Rvalue::Repeat(o, c) => {
                let c = self.tyconst(*c);
                J::A(vec![s("repeat"), self.operand(o, env), c])
            }
            Rvalue::Ref(_, bk, p) => J::A(vec![s("ref"), self.place(p, env), J::B(matches!(bk, BorrowKind::Mut { .. }))]),
            Rvalue::RawPtr(k, p) => J::A(vec![s("rawptr"), self.place(p, env), s(format!("{:?}", k))]),
            Rvalue::Cast(k, o, t) => {
                let kk = format!("{:?}", k);
                J::A(vec![s("cast"), s(kk), self.operand(o, env), self.ty(*t, env)])
            }
            Rvalue::BinaryOp(op, ab) => J::A(vec![s("bin"), s(format!("{:?}", op)), self.operand(&ab.0, env), self.operand(&ab.1, env)]),
            Rvalue::UnaryOp(op, a) => J::A(vec![s("un"), s(format!("{:?}", op)), self.operand(a, env)]),
            Rvalue::Discriminant(p) => J::A(vec![s("discr"), self.place(p, env)]),
            Rvalue::Aggregate(k, ops) => {
                let kj = match &**k {
                    AggregateKind::Array(_) => J::A(vec![s("array")]),
                    AggregateKind::Tuple => J::A(vec![s("tuple")]),
                    AggregateKind::Adt(d, v, args, _, _) => {
                        let t = Ty::new_adt(self.tcx, self.tcx.adt_def(*d), args);
                        let t = self.tcx.try_normalize_erasing_regions(env, ty::Unnormalized::new_wip(t)).unwrap_or(t);
                        J::A(vec![s("adt"), self.ty(t, env), n(v.as_usize())])
                    }
                    AggregateKind::Closure(d, args) => {
                        let t = Ty::new_closure(self.tcx, *d, args);
                        J::A(vec![s("closure"), self.ty(t, env)])
                    }
                    AggregateKind::RawPtr(..) => J::A(vec![s("rawptr")]),
                    _ => J::A(vec![s("?")]),
                };
                let v: Vec<J> = ops.iter().map(|x| self.operand(x, env)).collect();
                J::A(vec![s("agg"), kj, J::A(v)])
            }
            Rvalue::CopyForDeref(p) => J::A(vec![s("use"), J::A(vec![s("c"), self.place(p, env)])]),
            Rvalue::Reborrow(_, _, p) => J::A(vec![s("use"), J::A(vec![s("c"), self.place(p, env)])]),
            other => J::A(vec![s("?"), s(format!("{:?}", other))]),
        }
    }
    fn unwind(&self, u: &UnwindAction) -> J {
        match u {
            UnwindAction::Continue => s("continue"),
            UnwindAction::Unreachable => s("unreachable"),
            UnwindAction::Terminate(_) => s("terminate"),
            UnwindAction::Cleanup(b) => n(b.as_usize()),
        }
    }
    fn body(&mut self, key: &str, i: Instance<'tcx>, env: TypingEnv<'tcx>) {
        let tcx = self.tcx;
        let raw = tcx.instance_mir(i.def);
        let body: Body<'tcx> = match i.try_instantiate_mir_and_normalize_erasing_regions(tcx, env, EarlyBinder::bind(tcx, raw.clone())) {
            Ok(b) => b,
            Err(_) => {
                self.insts.insert(key.to_string(), J::O(vec![("error", s("normalize"))]));
                return;
            }
        };
        let did = i.def.def_id();
        self.body2(key, did, body, env);
    }
    fn body2(&mut self, key: &str, did: DefId, body: Body<'tcx>, env: TypingEnv<'tcx>) {
        let tcx = self.tcx;
        let (file, line) = self.file_line(tcx.def_span(did));
        let mut o: Vec<(&str, J)> = vec![
            ("path", s(self.path(did))),
            ("local", J::B(did.is_local())),
            ("file", s(file)),
            ("line", n(line)),
            ("argc", n(body.arg_count)),
            ("spread", body.spread_arg.map(|l| n(l.as_usize())).unwrap_or(J::Null)),
            ("closure", J::B(tcx.is_closure_like(did))),
        ];
        let mut locals = vec![];
        for l in body.local_decls.iter() {
            locals.push(self.ty(l.ty, env));
        }
        o.push(("locals", J::A(locals)));
        let mut names = vec![];
        for v in body.var_debug_info.iter() {
            if let VarDebugInfoContents::Place(p) = &v.value {
                let pj = self.place(p, env);
                names.push(J::A(vec![s(v.name.to_string()), pj]));
            }
        }
        o.push(("names", J::A(names)));
        let mut blocks = vec![];
        for bb in body.basic_blocks.iter() {
            let mut st = vec![];
            for x in &bb.statements {
                let (_, ln) = self.file_line(x.source_info.span);
                match &x.kind {
                    StatementKind::Assign(b) => {
                        let p = self.place(&b.0, env);
                        let r = self.rvalue(&b.1, env);
                        st.push(J::A(vec![s("="), p, r, n(ln)]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(place, env);
                        st.push(J::A(vec![s("setd"), p, n(variant_index.as_usize()), n(ln)]));
                    }
                    StatementKind::Intrinsic(b) => match &**b {
                        NonDivergingIntrinsic::Assume(op) => {
                            let op = self.operand(op, env);
                            st.push(J::A(vec![s("assume"), op, n(ln)]));
                        }
                        NonDivergingIntrinsic::CopyNonOverlapping(c) => {
                            let a = self.operand(&c.src, env);
                            let b2 = self.operand(&c.dst, env);
                            let c2 = self.operand(&c.count, env);
                            st.push(J::A(vec![s("copynon"), a, b2, c2, n(ln)]));
                        }
                    },
                    StatementKind::StorageDead(l) => st.push(J::A(vec![s("dead"), n(l.as_usize())])),
                    _ => {}
                }
            }
            let t = bb.terminator();
            let (tf, ln) = self.file_line(t.source_info.span);
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => J::A(vec![s("goto"), n(target.as_usize())]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let op = self.operand(discr, env);
                    let t = discr.ty(&body.local_decls, tcx);
                    let tyj = self.ty(t, env);
                    let vs: Vec<J> = targets
                        .iter()
                        .map(|(v, b)| {
                            let v2: i128 = if t.is_signed() {
                                let sz = tcx.layout_of(env.as_query_input(t)).map(|l| l.size).unwrap();
                                sz.sign_extend(v)
                            } else {
                                v as i128
                            };
                            J::A(vec![J::N(v2), n(b.as_usize())])
                        })
                        .collect();
                    J::A(vec![s("switch"), op, J::A(vs), n(targets.otherwise().as_usize()), tyj])
                }
                TerminatorKind::UnwindResume => J::A(vec![s("resume")]),
                TerminatorKind::UnwindTerminate(_) => J::A(vec![s("abort")]),
                TerminatorKind::Return => J::A(vec![s("return")]),
                TerminatorKind::Unreachable => J::A(vec![s("unreachable")]),
                TerminatorKind::Drop { place, target, unwind, .. } => {
                    let t = place.ty(&body.local_decls, tcx).ty;
                    let tj = self.ty(t, env);
                    let nd = t.needs_drop(tcx, env);
                    J::A(vec![s("drop"), self.place(place, env), n(target.as_usize()), self.unwind(unwind), tj, J::B(nd)])
                }
                TerminatorKind::Call { func, args, destination, target, unwind, .. } => {
                    let f = self.operand(func, env);
                    let a: Vec<J> = args.iter().map(|x| self.operand(&x.node, env)).collect();
                    J::A(vec![
                        s("call"),
                        f,
                        J::A(a),
                        self.place(destination, env),
                        target.map(|b| n(b.as_usize())).unwrap_or(J::Null),
                        self.unwind(unwind),
                    ])
                }
                TerminatorKind::Assert { cond, expected, msg, target, unwind } => {
                    let c = self.operand(cond, env);
                    let m = match &**msg {
                        AssertKind::BoundsCheck { .. } => "bounds".to_string(),
                        AssertKind::Overflow(op, _, _) => format!("overflow:{:?}", op),
                        AssertKind::DivisionByZero(_) => "div0".to_string(),
                        AssertKind::RemainderByZero(_) => "rem0".to_string(),
                        _ => "other".to_string(),
                    };
                    J::A(vec![s("assert"), c, J::B(*expected), s(m), n(target.as_usize()), self.unwind(unwind)])
                }
                TerminatorKind::FalseEdge { real_target, .. } => J::A(vec![s("goto"), n(real_target.as_usize())]),
                TerminatorKind::FalseUnwind { real_target, .. } => J::A(vec![s("goto"), n(real_target.as_usize())]),
                other => J::A(vec![s("?"), s(format!("{:?}", other))]),
            };
            blocks.push(J::O(vec![("s", J::A(st)), ("t", tj), ("l", n(ln)), ("tf", s(tf)), ("cu", J::B(bb.is_cleanup))]));
        }
        o.push(("blocks", J::A(blocks)));
        self.insts.insert(key.to_string(), J::O(o));
    }
    fn run(&mut self) -> J {
        let tcx = self.tcx;
        let ev = tcx.effective_visibilities(());
        let mut items = vec![];
        for &ld in tcx.mir_keys(()).iter() {
            let d = ld.to_def_id();
            let k = tcx.def_kind(d);
            if !matches!(k, DefKind::Fn | DefKind::AssocFn) {
                continue;
            }
            let env = TypingEnv::post_analysis(tcx, d);
            let args = ty::GenericArgs::identity_for_item(tcx, d);
            let inst = Instance::new_raw(d, args);
            let key = self.enqueue(inst, env);
            let (file, line) = self.file_line(tcx.def_span(d));
            let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip();
            let rsig = tcx.liberate_late_bound_regions(d, sig);
            let imp = tcx.impl_of_assoc(d);
            let rins: Vec<J> = rsig.inputs().iter().map(|t| self.rty(*t, imp, 0)).collect();
            let rout = self.rty(rsig.output(), imp, 0);
            let sig = tcx.instantiate_bound_regions_with_erased(sig);
            let ins: Vec<J> = sig.inputs().iter().map(|t| { let t = tcx.try_normalize_erasing_regions(env, ty::Unnormalized::new_wip(*t)).unwrap_or(*t); self.ty(t, env) }).collect();
            let ot = tcx.try_normalize_erasing_regions(env, ty::Unnormalized::new_wip(sig.output())).unwrap_or(sig.output());
            let out = self.ty(ot, env);
            let mut o = vec![
                ("path", s(self.path(d))),
                ("key", s(key)),
                ("name", s(tcx.item_name(d).to_string())),
                ("file", s(file)),
                ("line", n(line)),
                ("unsafe", J::B(!sig.safety().is_safe())),
                ("inputs", J::A(ins)),
                ("rinputs", J::A(rins)),
                ("routput", rout),
                ("output", out),
                ("reachable", J::B(ev.is_reachable(ld))),
                ("exported", J::B(ev.is_exported(ld))),
                ("vis", s(format!("{:?}", tcx.visibility(d)))),
            ];
            if let Some(imp) = tcx.impl_of_assoc(d) {
                o.push(("impl", s(self.path(imp))));
                let st = tcx.type_of(imp).instantiate_identity().skip_norm_wip();
                o.push(("self_ty", s(with_no_trimmed_paths!(st.to_string()))));
                if let Some(tr) = tcx.impl_opt_trait_ref(imp) {
                    o.push(("trait", s(with_no_trimmed_paths!(tr.instantiate_identity().skip_norm_wip().to_string()))));
                    o.push(("trait_path", s(self.path(tr.skip_binder().def_id))));
                }
            }
            if let Some(t) = tcx.trait_of_assoc(d) {
                o.push(("in_trait", s(self.path(t))));
            }
            let preds: Vec<J> = tcx.clauses_of(d).instantiate_own_identity().map(|(p, _)| s(with_no_trimmed_paths!(format!("{:?}", p.skip_norm_wip())))).collect();
            o.push(("preds", J::A(preds)));
            items.push(J::O(o));
        }
        // required trait methods (no body) and impl headers
        let mut impls = vec![];
        let mut traits = vec![];
        let mut adts = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            let d = id.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Impl { of_trait } => {
                    let (file, line) = self.file_line(tcx.def_span(d));
                    let mut o = vec![("file", s(file)), ("line", n(line)), ("of_trait", J::B(of_trait))];
                    let st = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    o.push(("self_ty", s(with_no_trimmed_paths!(st.to_string()))));
                    if let Some(tr) = tcx.impl_opt_trait_ref(d) {
                        o.push(("trait", s(with_no_trimmed_paths!(tr.instantiate_identity().skip_norm_wip().to_string()))));
                        o.push(("trait_path", s(self.path(tr.skip_binder().def_id))));
                        o.push(("polarity", s(format!("{:?}", tcx.impl_polarity(d)))));
                        o.push(("unsafe", J::B(!tcx.impl_trait_header(d).safety.is_safe())));
                    }
                    let names: Vec<J> = tcx.associated_item_def_ids(d).iter().filter(|x| tcx.opt_item_name(**x).is_some()).map(|x| s(tcx.item_name(*x).to_string())).collect();
                    o.push(("items", J::A(names)));
                    let preds: Vec<J> = tcx.clauses_of(d).instantiate_own_identity().map(|(p, _)| s(with_no_trimmed_paths!(format!("{:?}", p.skip_norm_wip())))).collect();
                    o.push(("preds", J::A(preds)));
                    impls.push(J::O(o));
                }
                DefKind::Trait => {
                    let mut ms = vec![];
                    for &m in tcx.associated_item_def_ids(d) {
                        let ai = tcx.associated_item(m);
                        ms.push(J::O(vec![
                            ("name", s(ai.opt_name().map(|x| x.to_string()).unwrap_or_default())),
                            ("default", J::B(ai.defaultness(tcx).has_value())),
                            ("fn", J::B(ai.is_fn())),
                            ("unsafe", J::B(ai.is_fn() && !tcx.fn_sig(m).skip_binder().safety().is_safe())),
                        ]));
                    }
                    traits.push(J::O(vec![
                        ("path", s(self.path(d))),
                        ("unsafe", J::B(!tcx.trait_def(d).safety.is_safe())),
                        ("items", J::A(ms)),
                        ("exported", J::B(ev.is_exported(id))),
                    ]));
                }
                DefKind::Struct | DefKind::Enum | DefKind::Union => {
                    let env = TypingEnv::post_analysis(tcx, d);
                    let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    self.ty(t, env);
                    if let ty::Adt(def, args) = *t.kind() {
                        let mut fs = vec![];
                        for f in def.all_fields() {
                            fs.push(self.rty(f.ty(tcx, args).skip_norm_wip(), None, 0));
                        }
                        let rs: Vec<J> = args.regions().map(|x| s(format!("{:?}", x))).collect();
                        adts.push(J::O(vec![("path", s(self.path(d))), ("regions", J::A(rs)), ("fields", J::A(fs)), ("exported", J::B(ev.is_exported(id)))]));
                    }
                }
                _ => {}
            }
        }
        loop {
            while let Some((k, i, env)) = self.queue.pop_front() {
                self.body(&k, i, env);
            }
            match self.pqueue.pop_front() {
                Some((k, d, args, p, env)) => {
                    let raw = tcx.promoted_mir(d)[p].clone();
                    match tcx.try_instantiate_and_normalize_erasing_regions(args, env, EarlyBinder::bind(tcx, raw)) {
                        Ok(b) => self.body2(&k, d, b, env),
                        Err(_) => {
                            self.insts.insert(k, J::O(vec![("error", s("normalize"))]));
                        }
                    }
                }
                None => match self.cqueue.pop_front() {
                    Some((k, d, args, env)) => {
                        let raw = tcx.mir_for_ctfe(d).clone();
                        match tcx.try_instantiate_and_normalize_erasing_regions(args, env, EarlyBinder::bind(tcx, raw)) {
                            Ok(b) => self.body2(&k, d, b, env),
                            Err(_) => {
                                self.insts.insert(k, J::O(vec![("error", s("normalize"))]));
                            }
                        }
                    }
                    None => break,
                },
            }
        }
        let insts: Vec<(String, J)> = std::mem::take(&mut self.insts).into_iter().collect();
        J::O(vec![
            ("crate", s(tcx.crate_name(LOCAL_CRATE).to_string())),
            ("items", J::A(items)),
            ("impls", J::A(impls)),
            ("traits", J::A(traits)),
            ("adts", J::A(adts)),
            ("types", J::A(std::mem::take(&mut self.types))),
            ("insts", J::M(insts)),
        ])
    }
}

fn signed<'tcx>(_tcx: TyCtxt<'tcx>, d: ty::util::Discr<'tcx>) -> i128 {
    if d.ty.is_signed() {
        let sz = match d.ty.kind() {
            ty::Int(i) => i.bit_width().unwrap_or(64),
            _ => 64,
        };
        rustc_abi::Size::from_bits(sz).sign_extend(d.val)
    } else {
        d.val as i128
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let out = std::env::var("MIRDUMP_OUT").ok();
    let want = std::env::var("MIRDUMP_CRATE").unwrap_or_else(|_| "raw_btree".into());
    let is = args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == want) && args.windows(2).any(|w| w[0] == "--crate-type" && w[1] == "lib");
    struct Nop;
    impl rustc_driver::Callbacks for Nop {}
    let code = rustc_driver::catch_with_exit_code(move || {
        if let (Some(out), true) = (out, is) {
            args.push("-Zmir-opt-level=0".into());
            args.push("-Zinline-mir=no".into());
            rustc_driver::compiler_entrypoint(&args, &mut Cb { out })
        } else {
            rustc_driver::compiler_entrypoint(&args, &mut Nop)
        }
    });
    std::process::exit(if code == std::process::ExitCode::SUCCESS { 0 } else { 1 });
}
