#![feature(rustc_private)]
//! `mirfacts`: a RUSTC_WORKSPACE_WRAPPER that dumps, for the crates it is asked for, the MIR of
//! every function (plus the monomorphic instances reachable from non-generic code) as JSON facts.
extern crate rustc_abi;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::{self, *};
use rustc_middle::ty::{self, GenericArgsRef, Instance, Ty, TyCtxt, TypingEnv, Unnormalized};
use std::collections::{HashMap, HashSet, VecDeque};
use std::fmt::Write as _;

macro_rules! npaths {
    ($e:expr) => {
        rustc_middle::ty::print::with_no_visible_paths!(rustc_middle::ty::print::with_no_trimmed_paths!($e))
    };
}

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    queue: VecDeque<(Instance<'tcx>, TypingEnv<'tcx>)>,
    seen: HashSet<String>,
    out: Vec<String>,
    krate: String,
    tys: HashMap<Ty<'tcx>, usize>,
    tystrs: Vec<String>,
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        npaths!(
            rustc_middle::ty::print::with_resolve_crate_name!(self.tcx.def_path_str(d))
        )
    }
    fn ty_str(&self, t: Ty<'tcx>) -> String {
        let t = self.tcx.erase_and_anonymize_regions(t);
        npaths!(
            rustc_middle::ty::print::with_resolve_crate_name!(format!("{}", t))
        )
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(i) = self.tys.get(&t) {
            return *i;
        }
        let i = self.tystrs.len();
        let s = self.ty_str(t);
        self.tystrs.push(s);
        self.tys.insert(t, i);
        i
    }
    fn span(&self, s: rustc_span::Span) -> String {
        let sm = self.tcx.sess.source_map();
        let s = s.source_callsite();
        let lo = sm.lookup_char_pos(s.lo());
        format!("{}:{}", lo.file.name.prefer_local_unconditionally(), lo.line)
    }
    fn key(&self, d: DefId, args: GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        let args = tcx.erase_and_anonymize_regions(args);
        let base = self.path(d);
        let s: Vec<String> = npaths!(
            rustc_middle::ty::print::with_resolve_crate_name!({
                let n = if tcx.is_closure_like(d) {
                    tcx.generics_of(tcx.typeck_root_def_id(d)).count()
                } else {
                    args.len()
                };
                args.iter()
                    .take(n)
                    .filter(|a| a.as_region().is_none())
                    .map(|a| format!("{}", a))
                    .collect()
            })
        );
        if s.is_empty() {
            base
        } else {
            format!("{}<{}>", base, s.join(", "))
        }
    }
    fn has_body(&self, d: DefId) -> bool {
        if d.is_local() {
            return true;
        }
        let k = self.tcx.crate_name(d.krate);
        let k = k.as_str();
        if !matches!(k, "ursa" | "zmix" | "bbs" | "bulletproofs_amcl" | "ursa_sharing") {
            return false;
        }
        self.tcx.is_mir_available(d)
    }
    fn enqueue(&mut self, inst: Instance<'tcx>, env: TypingEnv<'tcx>) {
        let d = inst.def_id();
        if !self.has_body(d) {
            return;
        }
        match inst.def {
            ty::InstanceKind::Item(_) => {}
            _ => return,
        }
        let key = self.key(d, inst.args);
        if self.seen.insert(key) {
            self.queue.push_back((inst, env));
        }
    }
    fn func_json(&mut self, d: DefId, args: GenericArgsRef<'tcx>, env: TypingEnv<'tcx>) -> String {
        let tcx = self.tcx;
        let mpath = self.path(d);
        let mut o = String::new();
        let _ = write!(o, "{{\"m\":{}", esc(&mpath));
        if let Some(tr) = tcx.trait_of_assoc(d) {
            let trp = self.path(tr);
            let st = self.ty_str(args.type_at(0));
            let _ = write!(o, ",\"tr\":{},\"self\":{}", esc(&trp), esc(&st));
        } else if let Some(im) = tcx.inherent_impl_of_assoc(d) {
            let st = tcx.type_of(im).instantiate(tcx, args).skip_norm_wip();
            let st = self.ty_str(st);
            let _ = write!(o, ",\"self\":{}", esc(&st));
        }
        let ga: Vec<String> = args
            .iter()
            .filter(|a| a.as_region().is_none())
            .map(|a| {
                esc(&npaths!(
                    rustc_middle::ty::print::with_resolve_crate_name!(format!("{}", a))
                ))
            })
            .collect();
        let _ = write!(o, ",\"ga\":[{}]", ga.join(","));
        // closure types among generic args (callables passed to combinators) get enqueued
        for a in args.iter() {
            if let Some(t) = a.as_type() {
                self.enqueue_callable(t, env);
            }
        }
        if matches!(tcx.def_kind(d), DefKind::Ctor(..)) {
            let _ = write!(o, ",\"ctor\":1");
        } else if let Ok(Some(inst)) = Instance::try_resolve(tcx, env, d, args) {
            let rd = inst.def_id();
            if let ty::InstanceKind::Item(_) = inst.def {
                let k = self.key(rd, inst.args);
                let p = self.path(rd);
                let _ = write!(o, ",\"k\":{},\"d\":{}", esc(&k), esc(&p));
                if self.has_body(rd) {
                    let _ = write!(o, ",\"b\":1");
                }
                self.enqueue(inst, env);
            } else {
                let _ = write!(o, ",\"shim\":1");
            }
        }
        o.push('}');
        o
    }
    fn enqueue_callable(&mut self, t: Ty<'tcx>, env: TypingEnv<'tcx>) {
        match t.kind() {
            ty::Closure(d, a) => {
                let inst = Instance::new_raw(*d, a);
                self.enqueue(inst, env);
            }
            ty::FnDef(d, a) => {
                if !matches!(self.tcx.def_kind(*d), DefKind::Ctor(..)) {
                    if let Ok(Some(inst)) = Instance::try_resolve(self.tcx, env, *d, a.no_bound_vars().unwrap_or_else(|| ty::GenericArgs::identity_for_item(self.tcx, *d))) {
                        self.enqueue(inst, env);
                    }
                }
            }
            ty::Ref(_, t, _) => self.enqueue_callable(*t, env),
            _ => {}
        }
    }
    fn place(&mut self, p: &Place<'tcx>, body: &Body<'tcx>) -> String {
        let tcx = self.tcx;
        let mut o = format!("[{}", p.local.as_usize());
        let mut pt = PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            match e {
                ProjectionElem::Deref | ProjectionElem::PhantomDeref => {
                    // raw pointer dereferences are marked
                    if pt.ty.is_raw_ptr() {
                        o.push_str(",[\"*r\"]")
                    } else if pt.ty.is_box() {
                        o.push_str(",[\"*b\"]")
                    } else {
                        o.push_str(",[\"*\"]")
                    }
                }
                ProjectionElem::Field(f, _) => {
                    let mut name = format!("{}", f.as_usize());
                    if let ty::Adt(ad, _) = pt.ty.kind() {
                        let v = if ad.is_enum() {
                            pt.variant_index.map(|vi| ad.variant(vi))
                        } else {
                            Some(ad.non_enum_variant())
                        };
                        if let Some(v) = v {
                            if f.as_usize() < v.fields.len() {
                                name = v.fields[f].name.to_string();
                            }
                        }
                    }
                    let _ = write!(o, ",[\"f\",{},{}]", f.as_usize(), esc(&name));
                }
                ProjectionElem::Index(l) => {
                    let _ = write!(o, ",[\"i\",{}]", l.as_usize());
                }
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    let _ = write!(o, ",[\"ci\",{},{},{}]", offset, min_length, from_end as u8);
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    let _ = write!(o, ",[\"ss\",{},{},{}]", from, to, from_end as u8);
                }
                ProjectionElem::Downcast(_, vi) => {
                    let name = if let ty::Adt(ad, _) = pt.ty.kind() {
                        ad.variant(vi).name.to_string()
                    } else {
                        format!("{}", vi.as_usize())
                    };
                    let _ = write!(o, ",[\"v\",{}]", esc(&name));
                }
                _ => o.push_str(",[\"?\"]"),
            }
            pt = pt.projection_ty(tcx, e);
        }
        o.push(']');
        o
    }
    fn const_json(&mut self, c: &mir::Const<'tcx>, env: TypingEnv<'tcx>) -> String {
        let tcx = self.tcx;
        let t = c.ty();
        let mut o = String::from("[\"k\",{");
        if let ty::FnDef(d, a) = t.kind() {
            let a = a.no_bound_vars().unwrap_or_else(|| ty::GenericArgs::identity_for_item(tcx, *d));
            let f = self.func_json(*d, a, env);
            let _ = write!(o, "\"fn\":{}}}]", f);
            return o;
        }
        let ti = self.ty(t);
        let _ = write!(o, "\"t\":{}", ti);
        if let mir::Const::Unevaluated(u, _) = c {
            if let Some(p) = u.promoted {
                let k = self.key(u.def, u.args);
                let _ = write!(o, ",\"prom\":{},\"of\":{}", p.as_usize(), esc(&k));
            } else {
                let p = self.path(u.def);
                let _ = write!(o, ",\"path\":{}", esc(&p));
            }
        }
        if let mir::Const::Ty(_, ct) = c {
            let s = format!("{}", ct);
            let _ = write!(o, ",\"tyconst\":{}", esc(&s));
        }
        let is_prom = matches!(c, mir::Const::Unevaluated(u, _) if u.promoted.is_some());
        if t.is_integral() || t.is_bool() || t.is_char() {
            if let Some(b) = c.try_eval_bits(tcx, env) {
                let v = if t.is_signed() {
                    let sz = tcx.layout_of(env.as_query_input(t)).map(|l| l.size).ok();
                    match sz {
                        Some(sz) => format!("{}", sz.sign_extend(b)),
                        None => format!("{}", b),
                    }
                } else {
                    format!("{}", b)
                };
                let _ = write!(o, ",\"v\":{}", v);
            }
        } else if !is_prom {
            if let Ok(v) = c.eval(tcx, env, rustc_span::DUMMY_SP) {
                // byte strings and strs
                let is_str = matches!(t.kind(), ty::Ref(_, u, _) if u.is_str());
                let is_bytes = matches!(t.kind(), ty::Ref(_, u, _) if matches!(u.kind(), ty::Slice(e) | ty::Array(e, _) if *e == tcx.types.u8));
                if is_str {
                    if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                        let s = String::from_utf8_lossy(b).to_string();
                        let _ = write!(o, ",\"s\":{}", esc(&s));
                    }
                } else if is_bytes {
                    let b: Option<Vec<u8>> = if let ty::Ref(_, u, _) = t.kind() {
                        if let ty::Array(_, n) = u.kind() {
                            n.try_to_target_usize(tcx).and_then(|n| {
                                if let ConstValue::Scalar(rustc_middle::mir::interpret::Scalar::Ptr(p, _)) = v {
                                    let (prov, off) = p.prov_and_relative_offset();
                                    if let Some(rustc_middle::mir::interpret::GlobalAlloc::Memory(a)) = tcx.try_get_global_alloc(prov.alloc_id()) {
                                        let off = off.bytes() as usize;
                                        Some(a.inner().inspect_with_uninit_and_ptr_outside_interpreter(off..off + n as usize).to_vec())
                                    } else { None }
                                } else { None }
                            })
                        } else {
                            v.try_get_slice_bytes_for_diagnostics(tcx).map(|b| b.to_vec())
                        }
                    } else { None };
                    if let Some(b) = b {
                        let s: Vec<String> = b.iter().map(|x| format!("{}", x)).collect();
                        let _ = write!(o, ",\"bytes\":[{}]", s.join(","));
                    }
                } else if let ConstValue::Scalar(rustc_middle::mir::interpret::Scalar::Ptr(p, _)) = v {
                    let (prov, _) = p.prov_and_relative_offset();
                    if let Some(rustc_middle::mir::interpret::GlobalAlloc::Static(d)) = tcx.try_get_global_alloc(prov.alloc_id()) {
                        let p = self.path(d);
                        let _ = write!(o, ",\"static\":{}", esc(&p));
                    }
                }
            }
        }
        o.push_str("}]");
        o
    }
    fn operand(&mut self, op: &Operand<'tcx>, body: &Body<'tcx>, env: TypingEnv<'tcx>) -> String {
        match op {
            Operand::Copy(p) => format!("[\"c\",{}]", self.place(p, body)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(p, body)),
            Operand::Constant(c) => self.const_json(&c.const_, env),
            _ => "[\"rt\"]".to_string(),
        }
    }
    fn rvalue(&mut self, rv: &Rvalue<'tcx>, body: &Body<'tcx>, env: TypingEnv<'tcx>) -> String {
        match rv {
            Rvalue::Use(op, ..) => format!("[\"use\",{}]", self.operand(op, body, env)),
            Rvalue::Repeat(op, n) => {
                let n = n.try_to_target_usize(self.tcx).map(|x| x.to_string()).unwrap_or_else(|| esc(&format!("{}", n)));
                format!("[\"repeat\",{},{}]", self.operand(op, body, env), n)
            }
            Rvalue::Ref(_, bk, p) => {
                let m = match bk {
                    BorrowKind::Mut { .. } => "mut",
                    _ => "shr",
                };
                format!("[\"ref\",\"{}\",{}]", m, self.place(p, body))
            }
            Rvalue::Reborrow(_, m, p) => {
                let m = if m.is_mut() { "mut" } else { "shr" };
                format!("[\"reb\",\"{}\",{}]", m, self.place(p, body))
            }
            Rvalue::RawPtr(k, p) => {
                let m = if format!("{:?}", k).contains("Mut") { "mut" } else { "shr" };
                format!("[\"raw\",\"{}\",{}]", m, self.place(p, body))
            }
            Rvalue::Cast(k, op, t) => {
                if let CastKind::PointerCoercion(ty::adjustment::PointerCoercion::ReifyFnPointer(_), _) = k {
                    let t = op.ty(body, self.tcx);
                    self.enqueue_callable(t, env);
                }
                let from = op.ty(body, self.tcx);
                let from = self.ty(from);
                let ti = self.ty(*t);
                format!("[\"cast\",{},{},{},{}]", esc(&format!("{:?}", k)), self.operand(op, body, env), ti, from)
            }
            Rvalue::BinaryOp(b, ops) => format!(
                "[\"bin\",\"{:?}\",{},{}]",
                b,
                self.operand(&ops.0, body, env),
                self.operand(&ops.1, body, env)
            ),
            Rvalue::UnaryOp(u, op) => format!("[\"un\",\"{:?}\",{}]", u, self.operand(op, body, env)),
            Rvalue::Discriminant(p) => {
                let t = p.ty(body, self.tcx).ty;
                let mut vs = String::from("{");
                if let ty::Adt(ad, _) = t.kind() {
                    if ad.is_enum() {
                        let mut first = true;
                        for (vi, d) in ad.discriminants(self.tcx) {
                            if !first {
                                vs.push(',');
                            }
                            first = false;
                            let _ = write!(vs, "\"{}\":{}", d.val, esc(ad.variant(vi).name.as_str()));
                        }
                    }
                }
                vs.push('}');
                let ti = self.ty(t);
                format!("[\"disc\",{},{},{}]", self.place(p, body), vs, ti)
            }
            Rvalue::Aggregate(k, ops) => {
                let opsj: Vec<String> = ops.iter().map(|o| self.operand(o, body, env)).collect();
                let kj = match &**k {
                    AggregateKind::Array(_) => "{\"k\":\"array\"}".to_string(),
                    AggregateKind::Tuple => "{\"k\":\"tuple\"}".to_string(),
                    AggregateKind::Adt(d, vi, _args, _, active) => {
                        let ad = self.tcx.adt_def(*d);
                        let v = ad.variant(*vi);
                        let p = self.path(*d);
                        let names: Vec<String> = v.fields.iter().map(|f| esc(f.name.as_str())).collect();
                        format!(
                            "{{\"k\":\"adt\",\"p\":{},\"v\":{},\"n\":[{}]{}{}}}",
                            esc(&p),
                            esc(v.name.as_str()),
                            names.join(","),
                            if ad.is_enum() { ",\"e\":1" } else { "" },
                            if active.is_some() { ",\"u\":1" } else { "" }
                        )
                    }
                    AggregateKind::Closure(d, a) => {
                        let inst = Instance::new_raw(*d, a);
                        self.enqueue(inst, env);
                        let key = self.key(*d, a);
                        format!("{{\"k\":\"closure\",\"key\":{}}}", esc(&key))
                    }
                    other => format!("{{\"k\":\"other\",\"s\":{}}}", esc(&format!("{:?}", other))),
                };
                format!("[\"agg\",{},[{}]]", kj, opsj.join(","))
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"c\",{}]]", self.place(p, body)),
            Rvalue::ThreadLocalRef(d) => format!("[\"tls\",{}]", esc(&self.path(*d))),
            Rvalue::WrapUnsafeBinder(op, _) => format!("[\"use\",{}]", self.operand(op, body, env)),
        }
    }
    fn body_json(&mut self, body: &Body<'tcx>, env: TypingEnv<'tcx>) -> String {
        let tcx = self.tcx;
        let mut o = String::new();
        let locals: Vec<String> = body.local_decls.iter().map(|l| self.ty(l.ty).to_string()).collect();
        let _ = write!(o, "\"args\":{},\"locals\":[{}],\"names\":[", body.arg_count, locals.join(","));
        let mut first = true;
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if !first {
                    o.push(',');
                }
                first = false;
                let pj = self.place(&p, body);
                let _ = write!(o, "[{},{}]", esc(v.name.as_str()), pj);
            }
        }
        o.push_str("],\"bb\":[");
        for (bi, bb) in body.basic_blocks.iter_enumerated() {
            if bi.as_usize() > 0 {
                o.push(',');
            }
            if bb.is_cleanup {
                o.push_str("null");
                continue;
            }
            o.push_str("{\"s\":[");
            let mut first = true;
            for st in &bb.statements {
                let j = match &st.kind {
                    StatementKind::Assign(b) => {
                        let pl = self.place(&b.0, body);
                        let rv = self.rvalue(&b.1, body, env);
                        format!("[{},{}]", pl, rv)
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let t = place.ty(body, tcx).ty;
                        let name = if let ty::Adt(ad, _) = t.kind() {
                            ad.variant(*variant_index).name.to_string()
                        } else {
                            String::new()
                        };
                        let pl = self.place(place, body);
                        format!("[{},[\"setdisc\",{}]]", pl, esc(&name))
                    }
                    _ => continue,
                };
                if !first {
                    o.push(',');
                }
                first = false;
                o.push_str(&j);
            }
            o.push_str("],\"t\":");
            let term = bb.terminator();
            let line = self.span(term.source_info.span);
            let line = line.rsplit(':').next().unwrap_or("0").to_string();
            let j = match &term.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_usize()),
                TerminatorKind::FalseEdge { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let tg: Vec<String> = targets.iter().map(|(v, b)| format!("[{},{}]", v, b.as_usize())).collect();
                    let t = discr.ty(body, tcx);
                    let t = self.ty(t);
                    format!(
                        "[\"switch\",{},[{}],{},{},{}]",
                        self.operand(discr, body, env),
                        tg.join(","),
                        targets.otherwise().as_usize(),
                        t,
                        line
                    )
                }
                TerminatorKind::Return => "[\"ret\"]".into(),
                TerminatorKind::Unreachable => "[\"unreach\"]".into(),
                TerminatorKind::Drop { place, target, .. } => {
                    let t = place.ty(body, tcx).ty;
                    let t = self.ty(t);
                    format!("[\"drop\",{},{},{}]", self.place(place, body), target.as_usize(), t)
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.operand(func, body, env);
                    let a: Vec<String> = args.iter().map(|a| self.operand(&a.node, body, env)).collect();
                    let dest = self.place(destination, body);
                    let tg = target.map(|t| t.as_usize().to_string()).unwrap_or("null".into());
                    let at: Vec<String> = args
                        .iter()
                        .map(|a| {
                            let t = a.node.ty(body, tcx);
                            self.ty(t).to_string()
                        })
                        .collect();
                    let dt = destination.ty(body, tcx).ty;
                    let dt = self.ty(dt);
                    format!("[\"call\",{},[{}],{},{},{},[{}],{}]", f, a.join(","), dest, tg, line, at.join(","), dt)
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = match &**msg {
                        AssertKind::BoundsCheck { len, index } => format!(
                            "[\"bounds\",{},{}]",
                            self.operand(len, body, env),
                            self.operand(index, body, env)
                        ),
                        AssertKind::Overflow(op, a, b) => format!(
                            "[\"overflow\",\"{:?}\",{},{}]",
                            op,
                            self.operand(a, body, env),
                            self.operand(b, body, env)
                        ),
                        AssertKind::OverflowNeg(a) => format!("[\"ovneg\",{}]", self.operand(a, body, env)),
                        AssertKind::DivisionByZero(a) => format!("[\"div0\",{}]", self.operand(a, body, env)),
                        AssertKind::RemainderByZero(a) => format!("[\"div0\",{}]", self.operand(a, body, env)),
                        _ => "[\"other\"]".to_string(),
                    };
                    format!(
                        "[\"assert\",{},{},{},{},{}]",
                        self.operand(cond, body, env),
                        *expected as u8,
                        m,
                        target.as_usize(),
                        line
                    )
                }
                TerminatorKind::UnwindResume => "[\"resume\"]".into(),
                _ => "[\"unreach\"]".into(),
            };
            o.push_str(&j);
            o.push('}');
        }
        o.push(']');
        o
    }
    fn process(&mut self, inst: Instance<'tcx>, env: TypingEnv<'tcx>) {
        let tcx = self.tcx;
        let d = inst.def_id();
        let key = self.key(d, inst.args);
        let body = tcx.instance_mir(inst.def);
        let body: Body<'tcx> = match inst.try_instantiate_mir_and_normalize_erasing_regions(
            tcx,
            env,
            ty::EarlyBinder::bind(tcx, body.clone()),
        ) {
            Ok(b) => b,
            Err(_) => body.clone(),
        };
        let proms: Vec<Body<'tcx>> = tcx
            .promoted_mir(d)
            .iter()
            .map(|b| {
                inst.try_instantiate_mir_and_normalize_erasing_regions(
                    tcx,
                    env,
                    ty::EarlyBinder::bind(tcx, b.clone()),
                )
                .unwrap_or_else(|_| b.clone())
            })
            .collect();
        let mut o = String::new();
        let p = self.path(d);
        let sp = self.span(tcx.def_span(d));
        let kind = if tcx.is_closure_like(d) { "closure" } else { "fn" };
        let _ = write!(o, "{{\"key\":{},\"d\":{},\"span\":{},\"kind\":\"{}\"", esc(&key), esc(&p), esc(&sp), kind);
        if !tcx.is_closure_like(d) {
            let vis = tcx.visibility(d).is_public();
            let _ = write!(o, ",\"pub\":{}", vis as u8);
            let sig = tcx.fn_sig(d).skip_binder();
            let abi = format!("{:?}", sig.abi());
            if !abi.contains("Rust") {
                let _ = write!(o, ",\"abi\":{}", esc(&abi));
            }
            if d.is_local() {
                let at = tcx.codegen_fn_attrs(d);
                if at.flags.contains(rustc_middle::middle::codegen_fn_attrs::CodegenFnAttrFlags::NO_MANGLE) {
                    let _ = write!(o, ",\"nomangle\":1");
                }
            }
            if let Some(im) = tcx.impl_of_assoc(d) {
                let st = self.ty_str(tcx.type_of(im).instantiate_identity().skip_norm_wip());
                let _ = write!(o, ",\"impl\":{}", esc(&st));
                if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                    let trp = self.path(tr.skip_binder().def_id);
                    let _ = write!(o, ",\"trait\":{}", esc(&trp));
                    if tcx.is_automatically_derived(im) {
                        let _ = write!(o, ",\"derived\":1");
                    }
                }
            }
            if inst.args.iter().any(|a| a.as_region().is_none()) {
                let _ = write!(o, ",\"generic\":1");
            }
        }
        let b = self.body_json(&body, env);
        o.push(',');
        o.push_str(&b);
        if !proms.is_empty() {
            o.push_str(",\"proms\":[");
            for (i, pb) in proms.iter().enumerate() {
                if i > 0 {
                    o.push(',');
                }
                let b = self.body_json(pb, env);
                let _ = write!(o, "{{{}}}", b);
            }
            o.push(']');
        }
        o.push('}');
        self.out.push(o);
    }
}

struct Cb {
    out: String,
}
impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let krate = tcx.crate_name(LOCAL_CRATE).to_string();
        let mut cx = Cx {
            tcx,
            queue: VecDeque::new(),
            seen: HashSet::new(),
            out: vec![],
            krate: krate.clone(),
            tys: HashMap::new(),
            tystrs: vec![],
        };
        let _ = &cx.krate;
        let mut adts = Vec::new();
        let mut impls = Vec::new();
        let mut consts = Vec::new();
        // non-generic first so that mono instances get full environments
        let mut ids: Vec<DefId> = Vec::new();
        for ld in tcx.mir_keys(()) {
            let d = ld.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Fn | DefKind::AssocFn => ids.push(d),
                _ => {}
            }
        }
        for d in &ids {
            let d = *d;
            if !tcx.is_mir_available(d) {
                continue;
            }
            let args = ty::GenericArgs::identity_for_item(tcx, d);
            let env = TypingEnv::post_analysis(tcx, d);
            let inst = Instance::new_raw(d, args);
            cx.enqueue(inst, env);
        }
        while let Some((inst, env)) = cx.queue.pop_front() {
            cx.process(inst, env);
        }
        for ld in tcx.hir_crate_items(()).definitions() {
            let d = ld.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Struct | DefKind::Enum | DefKind::Union => {
                    let ad = tcx.adt_def(d);
                    let p = cx.path(d);
                    let mut vs = Vec::new();
                    for v in ad.variants() {
                        let fs: Vec<String> = v
                            .fields
                            .iter()
                            .map(|f| {
                                let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                                let env = TypingEnv::post_analysis(tcx, d);
                                let ts = cx.ty_str(t);
                                format!("[{},{},{}]", esc(f.name.as_str()), esc(&ts), t.needs_drop(tcx, env) as u8)
                            })
                            .collect();
                        vs.push(format!("[{},[{}]]", esc(v.name.as_str()), fs.join(",")));
                    }
                    let drop = tcx.adt_destructor(d).map(|x| cx.path(x.did));
                    adts.push(format!(
                        "{{\"p\":{},\"v\":[{}],\"drop\":{},\"span\":{}}}",
                        esc(&p),
                        vs.join(","),
                        drop.map(|x| esc(&x)).unwrap_or("null".into()),
                        esc(&cx.span(tcx.def_span(d)))
                    ));
                }
                DefKind::Impl { of_trait: true } => {
                    let tr = tcx.impl_trait_ref(d).instantiate_identity().skip_norm_wip();
                    let trp = cx.path(tr.def_id);
                    let st = cx.ty_str(tr.self_ty());
                    let ga: Vec<String> = tr
                        .args
                        .iter()
                        .skip(1)
                        .filter(|a| a.as_region().is_none())
                        .map(|a| esc(&npaths!(format!("{}", a))))
                        .collect();
                    let mut ms = Vec::new();
                    let mut ats = Vec::new();
                    for it in tcx.associated_items(d).in_definition_order() {
                        if it.is_fn() {
                            let args = ty::GenericArgs::identity_for_item(tcx, it.def_id);
                            let k = cx.key(it.def_id, args);
                            ms.push(format!("{}:{}", esc(it.name().as_str()), esc(&k)));
                        } else if it.is_type() {
                            let t = tcx.type_of(it.def_id).instantiate_identity().skip_norm_wip();
                            let env = TypingEnv::post_analysis(tcx, d);
                            let t = tcx.try_normalize_erasing_regions(env, Unnormalized::new_wip(t)).unwrap_or(t);
                            let ts = cx.ty_str(t);
                            ats.push(format!("{}:{}", esc(it.name().as_str()), esc(&ts)));
                        }
                    }
                    impls.push(format!(
                        "{{\"tr\":{},\"self\":{},\"ga\":[{}],\"m\":{{{}}},\"at\":{{{}}},\"derived\":{}}}",
                        esc(&trp),
                        esc(&st),
                        ga.join(","),
                        ms.join(","),
                        ats.join(","),
                        tcx.is_automatically_derived(d) as u8
                    ));
                }
                DefKind::Const { .. } | DefKind::AssocConst { .. } => {
                    let g = tcx.generics_of(d);
                    if g.count() == 0 {
                        let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                        if t.is_integral() {
                            let c = mir::Const::Unevaluated(
                                UnevaluatedConst { def: d, args: ty::GenericArgs::empty(), promoted: None },
                                t,
                            );
                            let env = TypingEnv::fully_monomorphized();
                            if let Some(b) = c.try_eval_bits(tcx, env) {
                                consts.push(format!("{}:{}", esc(&cx.path(d)), b));
                            }
                        }
                    }
                }
                _ => {}
            }
        }
        let mut externs = Vec::new();
        for ld in tcx.hir_crate_items(()).definitions() {
            let d = ld.to_def_id();
            if let DefKind::ExternCrate = tcx.def_kind(d) {
                if let Some(n) = tcx.opt_item_name(d) {
                    externs.push(esc(n.as_str()));
                }
            }
        }
        let tys: Vec<String> = cx.tystrs.iter().map(|s| esc(s)).collect();
        let s = format!(
            "{{\"crate\":{},\"externs\":[{}],\"types\":[{}],\"adts\":[{}],\"impls\":[{}],\"consts\":{{{}}},\"fns\":[\n{}\n]}}\n",
            esc(&krate),
            externs.join(","),
            tys.join(","),
            adts.join(",\n"),
            impls.join(",\n"),
            consts.join(","),
            cx.out.join(",\n")
        );
        let path = format!("{}/{}.json", self.out, krate);
        std::fs::write(&path, s).expect("write facts");
        Compilation::Continue
    }
}

struct Quiet;
impl Callbacks for Quiet {}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    let name = args.iter().position(|a| a == "--crate-name").and_then(|i| args.get(i + 1)).cloned();
    let out = std::env::var("MIRFACTS_OUT").ok();
    let want: Vec<String> = std::env::var("MIRFACTS_CRATES")
        .unwrap_or_default()
        .split(',')
        .map(|s| s.to_string())
        .collect();
    match (name, out) {
        (Some(n), Some(o)) if want.contains(&n) => {
            args.push("-Zmir-opt-level=0".into());
            args.push("-Zalways-encode-mir".into());
            args.push("--cap-lints=allow".into());
            rustc_driver::compiler_entrypoint(&args, &mut Cb { out: o });
        }
        _ => rustc_driver::compiler_entrypoint(&args, &mut Quiet),
    }
}
