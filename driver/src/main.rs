//! MIR exporter: compiles a crate with rustc's own front end and writes the
//! MIR of every contracted root and everything reachable from it as JSON.
//! The program text that is verified is therefore the text rustc compiles.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_middle::mir::{self, *};
use rustc_middle::ty::{self, GenericArgsRef, Instance, InstanceKind, Ty, TyCtxt, TypeVisitableExt, TypingEnv};
use rustc_middle::ty::print::{with_no_trimmed_paths, PrintTraitRefExt};
use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};
use std::fmt::Write as _;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr<I: IntoIterator<Item = String>>(i: I) -> String {
    format!("[{}]", i.into_iter().collect::<Vec<_>>().join(","))
}
fn obj(kv: &[(&str, String)]) -> String {
    format!("{{{}}}", kv.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect::<Vec<_>>().join(","))
}

struct Ex<'tcx> {
    tcx: TyCtxt<'tcx>,
    env: TypingEnv<'tcx>,
    env_id: String,
    types: BTreeMap<String, String>,
    fns: BTreeMap<String, String>,
    queue: VecDeque<(Instance<'tcx>, String)>,
    seen: HashSet<String>,
    std_follow: Vec<String>,
}

impl<'tcx> Ex<'tcx> {
    fn path(&self, d: DefId) -> String { with_no_trimmed_paths!(self.tcx.def_path_str(d)) }
    fn tstr(&self, t: Ty<'tcx>) -> String { with_no_trimmed_paths!(t.to_string()) }

    fn inst_key(&self, i: Instance<'tcx>) -> String {
        let kind = match i.def {
            InstanceKind::Item(_) => String::new(),
            other => { let s = format!("{:?}", other); s.split('(').next().unwrap().to_string() + "!" }
        };
        let a = with_no_trimmed_paths!(self.tcx.def_path_str_with_args(i.def_id(), i.args));
        let full = format!("{}{}|{:?}", kind, a, i.args);
        if i.args.has_param() { format!("{}@{}", full, self.env_id) } else { full }
    }

    fn norm<T: ty::TypeFoldable<TyCtxt<'tcx>>>(&self, i: Instance<'tcx>, v: T) -> T {
        i.instantiate_mir_and_normalize_erasing_regions(self.tcx, self.env, ty::EarlyBinder::bind(self.tcx, v))
    }

    fn carr(&self, c: ty::Const<'tcx>) -> String {
        match c.try_to_target_usize(self.tcx) { Some(n) => n.to_string(), None => esc(&with_no_trimmed_paths!(c.to_string())) }
    }

    fn ty(&mut self, t: Ty<'tcx>) -> String {
        let s = self.tstr(t);
        let key = match t.kind() {
            ty::Closure(..) | ty::FnDef(..) => format!("{}|{:?}", s, t),
            _ => s.clone(),
        };
        let key = if t.has_param() { format!("{}@{}", key, self.env_id) } else { key };
        if self.types.contains_key(&key) { return esc(&key); }
        self.types.insert(key.clone(), "null".into());
        let d = match *t.kind() {
            ty::Bool => obj(&[("k", esc("bool"))]),
            ty::Char => obj(&[("k", esc("char"))]),
            ty::Str => obj(&[("k", esc("str"))]),
            ty::Never => obj(&[("k", esc("never"))]),
            ty::Int(_) => obj(&[("k", esc("int")), ("n", esc(&s))]),
            ty::Uint(_) => obj(&[("k", esc("uint")), ("n", esc(&s))]),
            ty::Float(_) => obj(&[("k", esc("float")), ("n", esc(&s))]),
            ty::Ref(_, u, m) => { let u = self.ty(u); obj(&[("k", esc("ref")), ("t", u), ("m", m.is_mut().to_string())]) }
            ty::RawPtr(u, m) => { let u = self.ty(u); obj(&[("k", esc("ptr")), ("t", u), ("m", m.is_mut().to_string())]) }
            ty::Array(u, n) => { let u = self.ty(u); let n = self.carr(n); obj(&[("k", esc("array")), ("t", u), ("n", n)]) }
            ty::Slice(u) => { let u = self.ty(u); obj(&[("k", esc("slice")), ("t", u)]) }
            ty::Tuple(ts) => { let v: Vec<String> = ts.iter().map(|u| self.ty(u)).collect(); obj(&[("k", esc("tuple")), ("ts", arr(v))]) }
            ty::Param(p) => obj(&[("k", esc("param")), ("n", esc(p.name.as_str()))]),
            ty::Dynamic(..) => obj(&[("k", esc("dyn")), ("n", esc(&s))]),
            ty::FnPtr(..) => obj(&[("k", esc("fnptr"))]),
            ty::Alias(..) => obj(&[("k", esc("alias")), ("n", esc(&s))]),
            ty::Closure(did, args) => {
                let up: Vec<String> = args.as_closure().upvar_tys().iter().map(|u| self.ty(u)).collect();
                let inst = Instance::new_raw(did, args);
                let k = self.enqueue(inst);
                obj(&[("k", esc("closure")), ("path", esc(&self.path(did))), ("body", k), ("ts", arr(up))])
            }
            ty::FnDef(did, args) => {
                let c = self.callee(did, args.skip_binder());
                obj(&[("k", esc("fndef")), ("callee", c)])
            }
            ty::Adt(def, args) => {
                let mut vs = vec![];
                let follow = def.did().is_local() || !def.is_enum() && self.path(def.did()).starts_with("std::ops::") || def.is_enum() || self.follow_path(&self.path(def.did()));
                if follow {
                    for v in def.variants().iter() {
                        let mut fs = vec![];
                        for f in v.fields.iter() {
                            let ft = f.ty(self.tcx, args);
                            let ft = self.tcx.normalize_erasing_regions(self.env, ft);
                            let k = self.ty(ft);
                            fs.push(arr([esc(f.name.as_str()), k]));
                        }
                        vs.push(obj(&[("name", esc(v.name.as_str())), ("fields", arr(fs))]));
                    }
                }
                let a: Vec<String> = args.iter().filter_map(|g| match g.kind() {
                    ty::GenericArgKind::Type(u) => Some(self.ty(u)),
                    ty::GenericArgKind::Const(c) => Some(self.carr(c)),
                    _ => None,
                }).collect();
                obj(&[("k", esc("adt")), ("path", esc(&self.path(def.did()))), ("local", def.did().is_local().to_string()),
                      ("enum", def.is_enum().to_string()), ("args", arr(a)), ("variants", arr(vs))])
            }
            _ => obj(&[("k", esc("other")), ("n", esc(&s))]),
        };
        self.types.insert(key.clone(), d);
        esc(&key)
    }

    fn follow_path(&self, p: &str) -> bool { self.std_follow.iter().any(|f| p.starts_with(f.as_str())) }

    fn want_body(&self, i: Instance<'tcx>) -> bool {
        let did = i.def_id();
        match i.def {
            InstanceKind::Item(_) => {}
            _ => return false,
        }
        if matches!(self.tcx.def_kind(did), DefKind::Closure) { return true; }
        if did.is_local() { return true; }
        if !self.tcx.is_mir_available(did) { return false; }
        let p = self.path(did);
        self.follow_path(&p)
    }

    fn enqueue(&mut self, i: Instance<'tcx>) -> String {
        let k = self.inst_key(i);
        if self.want_body(i) {
            if self.seen.insert(k.clone()) { self.queue.push_back((i, k.clone())); }
            esc(&k)
        } else { "null".into() }
    }

    fn gargs(&mut self, args: GenericArgsRef<'tcx>) -> String {
        let a: Vec<String> = args.iter().filter_map(|g| match g.kind() {
            ty::GenericArgKind::Type(u) => Some(self.ty(u)),
            ty::GenericArgKind::Const(c) => Some(self.carr(c)),
            _ => None,
        }).collect();
        arr(a)
    }

    fn callee(&mut self, did: DefId, args: GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        let mut kv = vec![("path", esc(&self.path(did)))];
        let args = tcx.normalize_erasing_regions(self.env, rustc_middle::ty::Unnormalized::new_wip(args));
        kv.push(("args", self.gargs(args)));
        if matches!(tcx.def_kind(did), DefKind::Ctor(..)) {
            kv.push(("ctor", "true".into()));
            if let ty::FnDef(..) = tcx.type_of(did).instantiate_identity().skip_norm_wip().kind() {}
            let sig = tcx.fn_sig(did).instantiate(tcx, args).skip_norm_wip().skip_binder();
            let out = tcx.normalize_erasing_regions(self.env, rustc_middle::ty::Unnormalized::new_wip(tcx.erase_and_anonymize_regions(sig.output())));
            let o = self.ty(out);
            kv.push(("out", o));
            let parent = tcx.parent(did);
            let vi = if let ty::Adt(def, _) = out.kind() { if def.is_enum() { def.variant_index_with_ctor_id(did).as_usize() } else { 0 } } else { 0 };
            let _ = parent;
            kv.push(("variant", vi.to_string()));
            return obj(&kv);
        }
        match Instance::try_resolve(tcx, self.env, did, args) {
            Ok(Some(i)) => {
                let kd = match i.def { InstanceKind::Shim(k) => format!("{:?}", k), k => format!("{:?}", k) };
                let kd = kd.split('(').next().unwrap().to_string();
                kv.push(("kind", esc(&kd)));
                kv.push(("rpath", esc(&self.path(i.def_id()))));
                let ra = self.gargs(i.args);
                kv.push(("rargs", ra));
                let n = with_no_trimmed_paths!(tcx.def_path_str_with_args(i.def_id(), i.args));
                kv.push(("rname", esc(&n)));
                // closure call shims: point to the closure body
                if let InstanceKind::Shim(ty::ShimKind::ClosureOnce { .. }) = i.def {
                    if let ty::Closure(cd, ca) = i.args.type_at(0).kind() {
                        let ci = Instance::new_raw(*cd, ca);
                        let k = self.enqueue(ci);
                        kv.push(("body", k));
                        return obj(&kv);
                    }
                }
                let k = self.enqueue(i);
                kv.push(("body", k));
            }
            _ => { kv.push(("kind", esc("unresolved"))); }
        }
        obj(&kv)
    }

    fn place(&mut self, i: Instance<'tcx>, p: &Place<'tcx>) -> String {
        let ps: Vec<String> = p.projection.iter().map(|e| match e {
            ProjectionElem::Deref | ProjectionElem::PhantomDeref => esc("*"),
            ProjectionElem::Field(f, t) => { let t = self.norm(i, t); let t = self.ty(t); arr([esc("f"), f.as_usize().to_string(), t]) }
            ProjectionElem::Index(l) => arr([esc("i"), l.as_usize().to_string()]),
            ProjectionElem::ConstantIndex { offset, from_end, .. } => arr([esc("c"), offset.to_string(), from_end.to_string()]),
            ProjectionElem::Subslice { from, to, from_end } => arr([esc("s"), from.to_string(), to.to_string(), from_end.to_string()]),
            ProjectionElem::Downcast(_, v) => arr([esc("d"), v.as_usize().to_string()]),
            _ => arr([esc("?")]),
        }).collect();
        arr([p.local.as_usize().to_string(), arr(ps)])
    }

    fn konst(&mut self, i: Instance<'tcx>, c: &mir::Const<'tcx>) -> String {
        let tcx = self.tcx;
        let c = self.norm(i, *c);
        let t = c.ty();
        let tk = self.ty(t);
        let mut kv = vec![("t", tk)];
        if let mir::Const::Unevaluated(uv, _) = c {
            if let Some(p) = uv.promoted {
                let k = format!("{}#promoted{}", self.inst_key(Instance::new_raw(uv.def, uv.args)), p.as_usize());
                if self.seen.insert(k.clone()) {
                    let body = tcx.promoted_mir(uv.def)[p].clone();
                    let pi = Instance::new_raw(uv.def, uv.args);
                    let s = self.body(pi, &body, &k);
                    self.fns.insert(k.clone(), s);
                }
                kv.push(("promoted", esc(&k)));
                return obj(&kv);
            }
            let path = self.path(uv.def);
            kv.push(("path", esc(&path)));
            let ri = Instance::try_resolve(tcx, self.env, uv.def, uv.args).ok().flatten().unwrap_or(Instance::new_raw(uv.def, uv.args));
            let k = format!("const {}", self.inst_key(ri));
            if ri.def_id().is_local() && matches!(tcx.def_kind(ri.def_id()), DefKind::Const{..} | DefKind::AssocConst{..} | DefKind::AnonConst) {
                if self.seen.insert(k.clone()) {
                    let body = tcx.mir_for_ctfe(ri.def_id()).clone();
                    let s = self.body(ri, &body, &k);
                    self.fns.insert(k.clone(), s);
                }
                kv.push(("cbody", esc(&k)));
            }
        }
        if let mir::Const::Ty(_, ct) = c {
            kv.push(("ctparam", self.carr(ct)));
        }
        match t.kind() {
            ty::FnDef(..) => {}
            ty::Bool | ty::Int(_) | ty::Uint(_) | ty::Float(_) | ty::Char => {
                if !c.has_param() {
                    if let Some(b) = c.try_eval_bits(tcx, self.env) { kv.push(("bits", esc(&b.to_string()))); }
                }
            }
            ty::Ref(_, u, _) if u.is_str() => {
                let v = match c { mir::Const::Val(v, _) => Some(v), mir::Const::Ty(..) if !c.has_param() => c.eval(tcx, self.env, rustc_span::DUMMY_SP).ok(), _ => None };
                if let Some(v) = v {
                    if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                        kv.push(("str", esc(&String::from_utf8_lossy(b))));
                    }
                }
            }
            _ => {
                if let mir::Const::Val(ConstValue::ZeroSized, _) = c { kv.push(("zst", "true".into())); }
                kv.push(("dbg", esc(&with_no_trimmed_paths!(format!("{}", c)))));
            }
        }
        obj(&kv)
    }

    fn operand(&mut self, i: Instance<'tcx>, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => { let p = self.place(i, p); arr([esc("copy"), p]) }
            Operand::Move(p) => { let p = self.place(i, p); arr([esc("move"), p]) }
            Operand::Constant(c) => { let c = self.konst(i, &c.const_); arr([esc("const"), c]) }
            Operand::RuntimeChecks(_) => arr([esc("rtcheck")]),
        }
    }

    /// the methods behind an unsizing coercion to a trait object
    fn vtable(&mut self, src: Ty<'tcx>, dst: Ty<'tcx>) -> String {
        let tcx = self.tcx;
        fn pointee<'tcx>(t: Ty<'tcx>) -> Option<Ty<'tcx>> {
            if let Some(b) = t.boxed_ty() { return Some(b); }
            match t.kind() { ty::Ref(_, u, _) => Some(*u), ty::RawPtr(u, _) => Some(*u), _ => None }
        }
        let (a, b) = match (pointee(src), pointee(dst)) { (Some(a), Some(b)) => (a, b), _ => return "null".into() };
        if let (ty::Dynamic(..), _) = (a.kind(), 0) { return "null".into(); }
        let preds = match b.kind() { ty::Dynamic(p, ..) => p, _ => return "null".into() };
        let pr = match preds.principal() { Some(p) => p, None => return "null".into() };
        let tr = tcx.instantiate_bound_regions_with_erased(pr.with_self_ty(tcx, a));
        let mut kv: Vec<(String, String)> = vec![];
        for it in tcx.associated_items(tr.def_id).in_definition_order() {
            if !it.is_fn() || tcx.generics_require_sized_self(it.def_id) { continue; }
            if tcx.generics_of(it.def_id).own_params.iter().any(|p| !matches!(p.kind, ty::GenericParamDefKind::Lifetime)) { continue; }
            let args = ty::GenericArgs::for_item(tcx, it.def_id, |p, _| if (p.index as usize) < tr.args.len() { tr.args[p.index as usize] } else { tcx.lifetimes.re_erased.into() });
            let args = tcx.erase_and_anonymize_regions(args);
            if let Ok(Some(i)) = Instance::try_resolve(tcx, self.env, it.def_id, args) {
                let k = self.enqueue(i);
                kv.push((tcx.item_name(it.def_id).to_string(), k));
            }
        }
        let v: Vec<(&str, String)> = kv.iter().map(|(a, b)| (a.as_str(), b.clone())).collect();
        obj(&v)
    }

    fn rvalue(&mut self, i: Instance<'tcx>, body: &Body<'tcx>, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(o, ..) => { let o = self.operand(i, o); arr([esc("use"), o]) }
            Rvalue::Repeat(o, n) => { let o = self.operand(i, o); let n = self.norm(i, *n); let n = self.carr(n); arr([esc("repeat"), o, n]) }
            Rvalue::Ref(_, bk, p) => { let p = self.place(i, p); arr([esc("ref"), matches!(bk, BorrowKind::Mut { .. }).to_string(), p]) }
            Rvalue::Reborrow(_, m, p) => { let p = self.place(i, p); arr([esc("reborrow"), m.is_mut().to_string(), p]) }
            Rvalue::RawPtr(_, p) => { let p = self.place(i, p); arr([esc("rawptr"), p]) }
            Rvalue::Cast(k, o, t) => {
                let src = self.norm(i, o.ty(body, self.tcx));
                let o = self.operand(i, o);
                let t = self.norm(i, *t);
                let vt = self.vtable(src, t);
                let src = self.ty(src);
                let t = self.ty(t);
                arr([esc("cast"), esc(&format!("{:?}", k)), o, src, t, vt])
            }
            Rvalue::BinaryOp(op, b) => {
                let t = self.norm(i, b.0.ty(body, self.tcx));
                let t = self.ty(t);
                let (x, y) = (self.operand(i, &b.0), self.operand(i, &b.1));
                arr([esc("bin"), esc(&format!("{:?}", op)), x, y, t])
            }
            Rvalue::UnaryOp(op, o) => {
                let t = self.norm(i, o.ty(body, self.tcx));
                let t = self.ty(t);
                let o = self.operand(i, o);
                arr([esc("un"), esc(&format!("{:?}", op)), o, t])
            }
            Rvalue::Discriminant(p) => { let p = self.place(i, p); arr([esc("discr"), p]) }
            Rvalue::Aggregate(k, ops) => {
                let ops: Vec<String> = ops.iter().map(|o| self.operand(i, o)).collect();
                let rty = self.norm(i, r.ty(body, self.tcx));
                let rt = self.ty(rty);
                let (kk, v, af) = match **k {
                    AggregateKind::Array(_) => ("array", 0, None),
                    AggregateKind::Tuple => ("tuple", 0, None),
                    AggregateKind::Adt(_, v, _, _, f) => ("adt", v.as_usize(), f.map(|f| f.as_usize())),
                    AggregateKind::Closure(..) => ("closure", 0, None),
                    AggregateKind::RawPtr(..) => ("rawptr", 0, None),
                    _ => ("other", 0, None),
                };
                arr([esc("agg"), esc(kk), v.to_string(), arr(ops), rt, af.map(|x| x.to_string()).unwrap_or("null".into())])
            }
            Rvalue::CopyForDeref(p) => { let p = self.place(i, p); arr([esc("use"), arr([esc("copy"), p])]) }
            _ => arr([esc("other"), esc(&format!("{:?}", r))]),
        }
    }

    fn body(&mut self, i: Instance<'tcx>, body: &Body<'tcx>, key: &str) -> String {
        let tcx = self.tcx;
        let sm = tcx.sess.source_map();
        let locals: Vec<String> = body.local_decls.iter().map(|d| { let t = self.norm(i, d.ty); self.ty(t) }).collect();
        let mut blocks = vec![];
        for (_bb, data) in body.basic_blocks.iter_enumerated() {
            if data.is_cleanup { blocks.push("null".to_string()); continue; }
            let mut sts = vec![];
            for s in &data.statements {
                match &s.kind {
                    StatementKind::Assign(b) => { let p = self.place(i, &b.0); let r = self.rvalue(i, body, &b.1); sts.push(arr([esc("="), p, r])); }
                    StatementKind::SetDiscriminant { place, variant_index } => { let p = self.place(i, place); sts.push(arr([esc("setd"), p, variant_index.as_usize().to_string()])); }
                    StatementKind::Intrinsic(n) => sts.push(arr([esc("intr"), esc(&format!("{:?}", n))])),
                    _ => {}
                }
            }
            let term = data.terminator();
            let line = sm.lookup_char_pos(term.source_info.span.source_callsite().lo()).line;
            let t = match &term.kind {
                TerminatorKind::Goto { target, .. } => arr([esc("goto"), target.as_usize().to_string()]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let t = self.norm(i, discr.ty(body, tcx)); let t = self.ty(t);
                    let d = self.operand(i, discr);
                    let ts: Vec<String> = targets.iter().map(|(v, b)| arr([esc(&v.to_string()), b.as_usize().to_string()])).collect();
                    arr([esc("switch"), d, t, arr(ts), targets.otherwise().as_usize().to_string()])
                }
                TerminatorKind::Return => arr([esc("return")]),
                TerminatorKind::Unreachable => arr([esc("unreachable")]),
                TerminatorKind::Drop { place, target, .. } => { let p = self.place(i, place); arr([esc("drop"), p, target.as_usize().to_string()]) }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let ft = self.norm(i, func.ty(body, tcx));
                    let c = match ft.kind() {
                        ty::FnDef(d, a) => self.callee(*d, a.skip_binder()),
                        _ => { let o = self.operand(i, func); let t = self.ty(ft); obj(&[("ptr", o), ("t", t)]) }
                    };
                    let at: Vec<String> = args.iter().map(|a| { let t = self.norm(i, a.node.ty(body, tcx)); self.ty(t) }).collect();
                    let a: Vec<String> = args.iter().map(|a| self.operand(i, &a.node)).collect();
                    let dt = self.norm(i, destination.ty(body, tcx).ty); let dt = self.ty(dt);
                    let d = self.place(i, destination);
                    arr([esc("call"), c, arr(a), d, target.map(|t| t.as_usize().to_string()).unwrap_or("null".into()), arr(at), dt, line.to_string()])
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let c = self.operand(i, cond);
                    let m = format!("{:?}", msg);
                    arr([esc("assert"), c, expected.to_string(), esc(&m), target.as_usize().to_string(), line.to_string()])
                }
                TerminatorKind::FalseEdge { real_target, .. } | TerminatorKind::FalseUnwind { real_target, .. } => arr([esc("goto"), real_target.as_usize().to_string()]),
                _ => arr([esc("other")]),
            };
            blocks.push(obj(&[("s", arr(sts)), ("t", t)]));
        }
        let lo = sm.lookup_char_pos(body.span.source_callsite().lo());
        let names: Vec<String> = body.var_debug_info.iter().filter_map(|v| match &v.value {
            VarDebugInfoContents::Place(p) if p.projection.is_empty() => Some(arr([esc(v.name.as_str()), p.local.as_usize().to_string()])),
            _ => None }).collect();
        obj(&[("key", esc(key)), ("path", esc(&self.path(i.def_id()))),
              ("name", esc(&with_no_trimmed_paths!(tcx.def_path_str_with_args(i.def_id(), i.args)))),
              ("file", esc(&format!("{}", lo.file.name.prefer_local_unconditionally()))), ("line", lo.line.to_string()),
              ("argc", body.arg_count.to_string()), ("spread", body.spread_arg.map(|l| l.as_usize().to_string()).unwrap_or("null".into())),
              ("locals", arr(locals)), ("vars", arr(names)), ("blocks", arr(blocks))])
    }

    fn drain(&mut self) {
        while let Some((i, k)) = self.queue.pop_front() {
            let body = self.tcx.instance_mir(i.def).clone();
            let s = self.body(i, &body, &k);
            self.fns.insert(k, s);
        }
    }
}

struct Cb;

impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let out = match std::env::var("RSTAT_MIR_OUT") { Ok(o) => o, Err(_) => return Compilation::Continue };
        let follow = std::env::var("RSTAT_MIR_FOLLOW").unwrap_or_default().split(',').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect();
        let mut ex = Ex { tcx, env: TypingEnv::fully_monomorphized(), env_id: String::new(), types: BTreeMap::new(), fns: BTreeMap::new(),
                          queue: VecDeque::new(), seen: HashSet::new(), std_follow: follow };
        let mut roots: Vec<String> = vec![];
        let mut add = |ex: &mut Ex<'tcx>, owner: DefId, did: DefId, args: GenericArgsRef<'tcx>, label: &str, implname: &str| {
            let has_param = args.has_param();
            if has_param { ex.env = TypingEnv::post_analysis(tcx, owner); ex.env_id = format!("{}", ex.path(owner)) + &format!("#{:?}", owner.index); }
            else { ex.env = TypingEnv::fully_monomorphized(); ex.env_id = String::new(); }
            let i = match Instance::try_resolve(tcx, ex.env, did, args) { Ok(Some(i)) => i, _ => return };
            let k = ex.enqueue(i);
            if k == "null" { return; }
            let selft = tcx.fn_sig(did).instantiate(tcx, args).skip_norm_wip();
            let _ = selft;
            let ga = ex.gargs(args);
            roots.push(obj(&[("key", k), ("path", esc(&ex.path(i.def_id()))), ("name", esc(&with_no_trimmed_paths!(tcx.def_path_str_with_args(did, args)))),
                             ("label", esc(label)), ("impl", esc(implname)), ("item", esc(tcx.item_name(did).as_str())), ("args", ga)]));
            ex.drain();
        };
        let only = std::env::var("RSTAT_MIR_ONLY").unwrap_or_default();
        for &ld in tcx.mir_keys(()).iter() {
            let did = ld.to_def_id();
            if !only.is_empty() && !ex.path(did).starts_with(&only) { continue; }
            match tcx.def_kind(did) { DefKind::Fn | DefKind::AssocFn => {} _ => continue }
            let mut implname = String::new();
            if let Some(im) = tcx.impl_of_assoc(did) {
                implname = with_no_trimmed_paths!(tcx.type_of(im).instantiate_identity().skip_norm_wip().to_string());
                if let Some(tr) = tcx.impl_opt_trait_ref(im) { implname = format!("<{} as {}>", implname, with_no_trimmed_paths!(tr.instantiate_identity().skip_norm_wip().print_only_trait_path().to_string())); }
            }
            let ga = ty::GenericArgs::identity_for_item(tcx, did);
            add(&mut ex, did, did, ga, "id", &implname);
            // concrete instances for const-only generics
            let gen: Vec<_> = ga.iter().filter(|g| !matches!(g.kind(), ty::GenericArgKind::Lifetime(_))).collect();
            let _ = gen;
        }
        // provided trait methods, for every impl that does not override them
        for (&tr, impls) in tcx.all_local_trait_impls(()).iter() {
            if !tr.is_local() || !only.is_empty() { continue; }
            for &im in impls {
                let tref = tcx.impl_trait_ref(im.to_def_id()).instantiate_identity().skip_norm_wip();
                let items = tcx.impl_item_implementor_ids(im.to_def_id());
                for it in tcx.associated_items(tr).in_definition_order() {
                    if !it.is_fn() || !it.defaultness(tcx).has_value() || items.contains_key(&it.def_id) { continue; }
                    let implname = format!("<{} as {}>", with_no_trimmed_paths!(tref.self_ty().to_string()), with_no_trimmed_paths!(tref.print_only_trait_path().to_string()));
                    // own generics of the method (e.g. R: Rng) stay parameters of the method
                    let idargs = ty::GenericArgs::identity_for_item(tcx, it.def_id);
                    let own = tcx.generics_of(it.def_id).own_params.iter().any(|p| !matches!(p.kind, ty::GenericParamDefKind::Lifetime));
                    if own { continue; }
                    let args = idargs.rebase_onto(tcx, tr, tref.args);
                    let args = tcx.erase_and_anonymize_regions(args);
                    add(&mut ex, im.to_def_id(), it.def_id, args, "default", &implname);
                }
            }
        }
        let mut f = String::from("{\"types\":{");
        f.push_str(&ex.types.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect::<Vec<_>>().join(",\n"));
        f.push_str("},\n\"fns\":{");
        f.push_str(&ex.fns.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect::<Vec<_>>().join(",\n"));
        f.push_str("},\n\"roots\":[");
        f.push_str(&roots.join(",\n"));
        f.push_str("]}");
        std::fs::write(&out, f).unwrap();
        Compilation::Continue
    }
}

fn main() {
    // invoked as RUSTC_WORKSPACE_WRAPPER: argv[1] is rustc itself
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && args[1].ends_with("rustc") { args.remove(1); }
    let name = args.iter().position(|a| a == "--crate-name").and_then(|i| args.get(i + 1)).cloned().unwrap_or_default();
    let target = std::env::var("RSTAT_MIR_CRATE").unwrap_or("rstat".into());
    let is_test = args.iter().any(|a| a == "--test");
    if name == target && !is_test {
        args.push("-Zmir-opt-level=0".into());
        args.push("-Zinline-mir=no".into());
        args.push("-Coverflow-checks=on".into());
        args.push("-Cdebug-assertions=off".into());
        args.push("-Awarnings".into());
        rustc_driver::compiler_entrypoint(&args, &mut Cb);
    } else {
        struct Nop; impl Callbacks for Nop {}
        rustc_driver::compiler_entrypoint(&args, &mut Nop);
    }
    let _ : HashMap<u8, u8> = HashMap::new();
}
