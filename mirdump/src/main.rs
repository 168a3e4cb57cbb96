//! mirdump: a rustc driver that writes, as JSON, the MIR of every function of the crate being
//! compiled together with the MIR of everything those functions call (including the standard
//! library and the other dependencies, as far as their bodies are available), in the generic
//! parameter environment of each root function.  Nothing is rewritten: what is dumped is the
//! compiler's own `optimized_mir` (drops elaborated, unwind edges explicit).
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_attr_ir;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

mod json;
use json::{i, s, J};

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_interface::interface;
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{
    self, EarlyBinder, GenericArgKind, GenericArgs, GenericArgsRef, Instance, InstanceKind,
    ShimKind, Ty, TyCtxt, TypingEnv,
};
use std::collections::{HashMap, HashSet, VecDeque};

/// Structural matching of an impl header against concrete arguments.
fn unify<'tcx>(x: ty::GenericArg<'tcx>, y: ty::GenericArg<'tcx>, bind: &mut Vec<Option<ty::GenericArg<'tcx>>>) -> bool {
    let put = |i: u32, bind: &mut Vec<Option<ty::GenericArg<'tcx>>>| match bind[i as usize] {
        None => {
            bind[i as usize] = Some(y);
            true
        }
        Some(o) => o == y || matches!(y.kind(), GenericArgKind::Lifetime(_)),
    };
    match (x.kind(), y.kind()) {
        (GenericArgKind::Lifetime(r), GenericArgKind::Lifetime(_)) => match r.kind() {
            ty::ReEarlyParam(p) => put(p.index, bind),
            _ => true,
        },
        (GenericArgKind::Const(c), GenericArgKind::Const(d)) => match c.kind() {
            ty::ConstKind::Param(p) => put(p.index, bind),
            _ => c == d,
        },
        (GenericArgKind::Type(a), GenericArgKind::Type(b)) => match (a.kind(), b.kind()) {
            (ty::Param(p), _) => put(p.index, bind),
            (ty::Adt(d, s), ty::Adt(e, t)) => d == e && s.iter().zip(t.iter()).all(|(p, q)| unify(p, q, bind)),
            (ty::Slice(p), ty::Slice(q)) => unify((*p).into(), (*q).into(), bind),
            (ty::Ref(_, p, m), ty::Ref(_, q, n)) => m == n && unify((*p).into(), (*q).into(), bind),
            _ => a == b,
        },
        _ => false,
    }
}

struct Cb;

impl Callbacks for Cb {
    fn after_analysis<'tcx>(
        &mut self,
        _compiler: &interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> Compilation {
        let want = std::env::var("MIRDUMP_CRATE").unwrap_or_else(|_| "sized_chunks".into());
        let krate = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
        if krate == want {
            if let Ok(out) = std::env::var("MIRDUMP_OUT") {
                let text = with_no_trimmed_paths!(dump(tcx));
                std::fs::write(&out, text).expect("mirdump: cannot write output");
            }
        }
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WRAPPER / RUSTC_WORKSPACE_WRAPPER convention: argv[1] is the real rustc
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    let code = rustc_driver::catch_with_exit_code(move || {
        rustc_driver::compiler_entrypoint(&args, &mut Cb);
    });
    std::process::exit(if code == std::process::ExitCode::SUCCESS { 0 } else { 1 });
}

// path prefixes whose bodies are not followed (given contracts, or irrelevant to the contracts)
const STOP: &[&str] = &[
    "core::panicking",
    "core::fmt",
    "alloc::",
    "std::",
    "core::intrinsics",
    "core::str",
    "core::slice::sort",
    "core::ub_checks",
    "core::alloc",
    "core::char",
    "core::result::unwrap_failed",
    "core::option::expect_failed",
    "core::option::unwrap_failed",
    "bitmaps::",
    "typenum::",
    "refpool::",
    "arbitrary::",
];
const KEEP: &[&str] = &["core::num::wrapping", "arbitrary::size_hint::"];

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: HashMap<Ty<'tcx>, usize>,
    types_out: Vec<J>,
    bodies: HashMap<String, usize>,
    bodies_out: Vec<String>,
    // per root
    env: TypingEnv<'tcx>,
    queue: VecDeque<(String, Job<'tcx>)>,
    seen: HashSet<String>,
}

#[derive(Clone, Copy)]
enum Job<'tcx> {
    Fn(Instance<'tcx>),
    Const(DefId, GenericArgsRef<'tcx>),
    Promoted(Instance<'tcx>, Promoted),
}

fn dump<'tcx>(tcx: TyCtxt<'tcx>) -> String {
    let mut cx = Cx {
        tcx,
        types: HashMap::new(),
        types_out: vec![],
        bodies: HashMap::new(),
        bodies_out: vec![],
        env: TypingEnv::fully_monomorphized(),
        queue: VecDeque::new(),
        seen: HashSet::new(),
    };
    let mut roots = vec![];
    for &ldid in tcx.mir_keys(()).iter() {
        let did = ldid.to_def_id();
        let kind = tcx.def_kind(did);
        let is_const = matches!(kind, DefKind::AssocConst { .. });
        if !matches!(kind, DefKind::Fn | DefKind::AssocFn) && !is_const {
            continue;
        }
        cx.env = TypingEnv::post_analysis(tcx, did);
        cx.queue.clear();
        cx.seen.clear();
        let args = GenericArgs::identity_for_item(tcx, did);
        let (key, job) = if is_const {
            (cx.const_key(did, args), Job::Const(did, args))
        } else {
            let inst = Instance::new_raw(did, args);
            (cx.inst_key(inst), Job::Fn(inst))
        };
        cx.push(key.clone(), job);
        let mut map = vec![];
        while let Some((k, job)) = cx.queue.pop_front() {
            let b = cx.body(job);
            let mut t = String::new();
            b.write(&mut t);
            let n = cx.bodies_out.len();
            let id = *cx.bodies.entry(t.clone()).or_insert(n);
            if id == n {
                cx.bodies_out.push(t);
            }
            map.push((k, i(id)));
        }
        let mut o = vec![
            ("key", s(key)),
            ("path", s(tcx.def_path_str(did))),
            ("name", s(tcx.item_name(did).to_string())),
            ("is_const", J::B(is_const)),
            ("pub", J::B(tcx.visibility(did).is_public())),
            (
                "reachable",
                J::B(tcx.effective_visibilities(()).is_exported(ldid)),
            ),
            (
                "file",
                s(tcx
                    .sess
                    .source_map()
                    .span_to_diagnostic_string(tcx.def_span(did))),
            ),
            ("bodies", J::M(map)),
        ];
        if let Some(p) = tcx.opt_parent(did) {
            if let DefKind::Impl { .. } = tcx.def_kind(p) {
                let st = tcx.type_of(p).instantiate_identity().skip_norm_wip();
                o.push(("self_ty", cx.ty(st)));
                if let Some(tr) = tcx.impl_opt_trait_ref(p) {
                    let tr = tr.instantiate_identity().skip_norm_wip();
                    o.push(("trait", s(tcx.def_path_str(tr.def_id))));
                    o.push(("trait_ref", s(format!("{}", tr))));
                    let targs: Vec<J> = tr.args.types().skip(1).map(|t| cx.ty(t)).collect();
                    o.push(("trait_args", J::A(targs)));
                }
            }
        }
        if !is_const {
            o.push((
                "unsafe",
                J::B(
                    !tcx.fn_sig(did)
                        .instantiate_identity()
                        .skip_norm_wip()
                        .safety()
                        .is_safe(),
                ),
            ));
        }
        let preds: Vec<J> = cx
            .env
            .param_env
            .caller_bounds()
            .map(|c| s(format!("{}", c)))
            .collect();
        o.push(("bounds", J::A(preds)));
        roots.push(J::O(o));
    }
    let mut out = String::from("{\"types\":");
    J::A(std::mem::take(&mut cx.types_out)).write(&mut out);
    out.push_str(",\n\"bodies\":[\n");
    for (k, b) in cx.bodies_out.iter().enumerate() {
        if k > 0 {
            out.push_str(",\n");
        }
        out.push_str(b);
    }
    out.push_str("],\n\"overflow_checks\":");
    out.push_str(if tcx.sess.overflow_checks() { "true" } else { "false" });
    out.push_str(",\n\"roots\":");
    J::A(roots).write(&mut out);
    out.push('}');
    out
}

impl<'tcx> Cx<'tcx> {
    fn inst_key(&self, inst: Instance<'tcx>) -> String {
        match inst.def {
            InstanceKind::Item(d) => {
                let base = self.tcx.def_path_str_with_args(d, inst.args);
                if self.tcx.is_closure_like(d) {
                    format!("{}{:?}", base, inst.args)
                } else if let Some(p) = self.tcx.opt_parent(d) {
                    // different impls can print alike: add the impl's position
                    if let DefKind::Impl { .. } = self.tcx.def_kind(p) {
                        format!("{}#{}", base, p.index.as_u32())
                    } else {
                        base
                    }
                } else {
                    base
                }
            }
            _ => format!("{:?} {:?}", inst.def, inst.args),
        }
    }
    fn const_key(&self, did: DefId, args: GenericArgsRef<'tcx>) -> String {
        format!("const {}", self.inst_key(Instance::new_raw(did, args)))
    }

    fn push(&mut self, key: String, job: Job<'tcx>) {
        if self.seen.insert(key.clone()) {
            self.queue.push_back((key, job));
        }
    }

    fn cpath(&self, did: DefId) -> String {
        format!(
            "{}{}",
            self.tcx.crate_name(did.krate),
            self.tcx.def_path(did).to_string_no_crate_verbose()
        )
    }

    fn stopped(&self, did: DefId) -> bool {
        // an impl's def path does not tell what it is an impl of: use its trait's path as well
        let mut ps = vec![self.cpath(did)];
        if let Some(t) = self.tcx.trait_of_assoc(did) {
            ps.push(self.cpath(t));
        }
        if let Some(p) = self.tcx.opt_parent(did) {
            if let DefKind::Impl { .. } = self.tcx.def_kind(p) {
                if let Some(tr) = self.tcx.impl_opt_trait_ref(p) {
                    let tp = self.cpath(tr.skip_binder().def_id);
                    if !did.is_local() {
                        ps.push(tp);
                    }
                }
            }
        }
        if did.is_local() {
            return false;
        }
        ps.iter().any(|p| {
            STOP.iter().any(|k| p.starts_with(k)) && !KEEP.iter().any(|k| p.starts_with(k))
        })
    }

    fn body(&mut self, job: Job<'tcx>) -> J {
        let tcx = self.tcx;
        let (body, inst, name): (&Body<'tcx>, Instance<'tcx>, String) = match job {
            Job::Fn(inst) => {
                let d = inst.def_id();
                if !tcx.is_mir_available(d) {
                    return J::Null;
                }
                (tcx.optimized_mir(d), inst, tcx.def_path_str(d))
            }
            Job::Const(d, args) => {
                (tcx.mir_for_ctfe(d), Instance::new_raw(d, args), tcx.def_path_str(d))
            }
            Job::Promoted(inst, p) => {
                let d = inst.def_id();
                (
                    &tcx.promoted_mir(d)[p],
                    inst,
                    format!("{}::promoted[{}]", tcx.def_path_str(d), p.as_u32()),
                )
            }
        };
        let body = inst.instantiate_mir_and_normalize_erasing_regions(
            tcx,
            self.env,
            EarlyBinder::bind(tcx, body.clone()),
        );
        let locals: Vec<J> = body.local_decls.iter().map(|l| self.ty(l.ty)).collect();
        let mut dbg = vec![];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                dbg.push(J::A(vec![s(v.name.to_string()), self.place(&p)]));
            }
        }
        let mut blocks = vec![];
        for (_, bb) in body.basic_blocks.iter_enumerated() {
            let mut st = vec![];
            for x in &bb.statements {
                if let Some(j) = self.stmt(inst, &body, x) {
                    st.push(j);
                }
            }
            let term = self.term(inst, &body, bb.terminator());
            blocks.push(J::O(vec![
                ("c", J::B(bb.is_cleanup)),
                ("s", J::A(st)),
                ("t", term),
            ]));
        }
        J::O(vec![
            ("name", s(name)),
            ("argc", i(body.arg_count)),
            ("spread", body.spread_arg.map_or(J::Null, |l| i(l.as_u32()))),
            ("locals", J::A(locals)),
            ("dbg", J::A(dbg)),
            ("blocks", J::A(blocks)),
        ])
    }

    fn span(&self, sp: rustc_span::Span) -> J {
        let sm = self.tcx.sess.source_map();
        let sp = sp.source_callsite();
        if sp.is_dummy() {
            return J::Null;
        }
        let loc = sm.lookup_char_pos(sp.lo());
        let f = loc.file.name.prefer_local_unconditionally().to_string();
        s(format!("{}:{}", f, loc.line))
    }

    fn stmt(&mut self, inst: Instance<'tcx>, body: &Body<'tcx>, st: &Statement<'tcx>) -> Option<J> {
        Some(match &st.kind {
            StatementKind::Assign(b) => {
                let rv = self.rvalue(inst, body, &b.1);
                J::A(vec![
                    s("="),
                    self.place(&b.0),
                    rv,
                    self.span(st.source_info.span),
                ])
            }
            StatementKind::SetDiscriminant { place, variant_index } => J::A(vec![
                s("setdiscr"),
                self.place(place),
                i(variant_index.as_u32()),
            ]),
            StatementKind::Intrinsic(x) => match &**x {
                NonDivergingIntrinsic::Assume(o) => {
                    J::A(vec![s("assume"), self.operand(inst, body, o)])
                }
                NonDivergingIntrinsic::CopyNonOverlapping(c) => J::A(vec![
                    s("copynonoverlapping"),
                    self.operand(inst, body, &c.src),
                    self.operand(inst, body, &c.dst),
                    self.operand(inst, body, &c.count),
                    self.span(st.source_info.span),
                ]),
            },
            StatementKind::StorageDead(l) => J::A(vec![s("dead"), i(l.as_u32())]),
            StatementKind::StorageLive(_)
            | StatementKind::Nop
            | StatementKind::ConstEvalCounter
            | StatementKind::Coverage(..)
            | StatementKind::PlaceMention(..)
            | StatementKind::FakeRead(..)
            | StatementKind::AscribeUserType(..)
            | StatementKind::BackwardIncompatibleDropHint { .. } => return None,
            #[allow(unreachable_patterns)]
            other => J::A(vec![s("unsupported"), s(format!("{:?}", other))]),
        })
    }

    fn unwind(&self, u: &UnwindAction) -> J {
        match u {
            UnwindAction::Continue => s("continue"),
            UnwindAction::Unreachable => s("unreachable"),
            UnwindAction::Terminate(_) => s("terminate"),
            UnwindAction::Cleanup(b) => i(b.as_u32()),
        }
    }

    fn term(&mut self, inst: Instance<'tcx>, body: &Body<'tcx>, t: &Terminator<'tcx>) -> J {
        let span = self.span(t.source_info.span);
        match &t.kind {
            TerminatorKind::Goto { target, .. } => J::A(vec![s("goto"), i(target.as_u32())]),
            TerminatorKind::SwitchInt { discr, targets } => {
                let ty = discr.ty(&body.local_decls, self.tcx);
                let mut v = vec![];
                for (val, bb) in targets.iter() {
                    v.push(J::A(vec![s(val.to_string()), i(bb.as_u32())]));
                }
                J::A(vec![
                    s("switch"),
                    self.operand(inst, body, discr),
                    J::A(v),
                    i(targets.otherwise().as_u32()),
                    self.ty(ty),
                ])
            }
            TerminatorKind::UnwindResume => J::A(vec![s("resume")]),
            TerminatorKind::UnwindTerminate(_) => J::A(vec![s("terminate")]),
            TerminatorKind::Return => J::A(vec![s("return")]),
            TerminatorKind::Unreachable => J::A(vec![s("unreachable")]),
            TerminatorKind::Drop { place, target, unwind, .. } => {
                let ty = place.ty(&body.local_decls, self.tcx).ty;
                J::A(vec![
                    s("drop"),
                    self.place(place),
                    self.ty(ty),
                    i(target.as_u32()),
                    self.unwind(unwind),
                    span,
                ])
            }
            TerminatorKind::Call { func, args, destination, target, unwind, .. } => {
                let fty = func.ty(&body.local_decls, self.tcx);
                let f = match fty.kind() {
                    ty::FnDef(d, a) => self.callee(*d, a.skip_binder()),
                    _ => J::O(vec![
                        ("k", s("dyn")),
                        ("op", self.operand(inst, body, func)),
                        ("ty", self.ty(fty)),
                    ]),
                };
                let a: Vec<J> = args.iter().map(|x| self.operand(inst, body, &x.node)).collect();
                J::A(vec![
                    s("call"),
                    f,
                    J::A(a),
                    self.place(destination),
                    target.map_or(J::Null, |b| i(b.as_u32())),
                    self.unwind(unwind),
                    span,
                ])
            }
            TerminatorKind::Assert { cond, expected, msg, target, unwind } => {
                let m = match &**msg {
                    AssertKind::BoundsCheck { .. } => "bounds",
                    AssertKind::Overflow(..) => "overflow",
                    AssertKind::OverflowNeg(..) => "overflow",
                    AssertKind::DivisionByZero(..) => "div",
                    AssertKind::RemainderByZero(..) => "div",
                    _ => "other",
                };
                let extra = match &**msg {
                    AssertKind::Overflow(op, ..) => s(format!("{:?}", op)),
                    _ => J::Null,
                };
                J::A(vec![
                    s("assert"),
                    self.operand(inst, body, cond),
                    J::B(*expected),
                    s(m),
                    i(target.as_u32()),
                    self.unwind(unwind),
                    span,
                    extra,
                ])
            }
            other => J::A(vec![s("unsupported"), s(format!("{:?}", other))]),
        }
    }

    /// What a call to `did` with `args` runs, in the current parameter environment.
    fn callee(&mut self, did: DefId, args: GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let targs: Vec<J> = args
            .iter()
            .filter_map(|a| match a.kind() {
                GenericArgKind::Type(t) => Some(self.ty(t)),
                GenericArgKind::Const(c) => Some(self.tyconst(c)),
                _ => None,
            })
            .collect();
        let path = tcx.def_path_str(did);
        let mut o = vec![("path", s(path)), ("cpath", s(self.cpath(did))), ("targs", J::A(targs))];
        if let Some(t) = tcx.trait_of_assoc(did) {
            o.push(("trait", s(tcx.def_path_str(t))));
            o.push(("method", s(tcx.item_name(did).to_string())));
        }
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            Instance::try_resolve(tcx, self.env, did, args)
        }));
        match r {
            Ok(Ok(Some(inst))) => match inst.def {
                InstanceKind::Item(d) => {
                    let key = self.inst_key(inst);
                    o.push(("k", s("item")));
                    o.push(("ipath", s(tcx.def_path_str(d))));
                    if d != did {
                        let ta: Vec<J> = inst
                            .args
                            .iter()
                            .filter_map(|a| match a.kind() {
                                GenericArgKind::Type(t) => Some(self.ty(t)),
                                GenericArgKind::Const(c) => Some(self.tyconst(c)),
                                _ => None,
                            })
                            .collect();
                        o.push(("iargs", J::A(ta)));
                    }
                    if let Some(p) = tcx.opt_parent(d) {
                        if let DefKind::Impl { .. } = tcx.def_kind(p) {
                            let st = tcx.type_of(p).instantiate_identity().skip_norm_wip();
                            o.push(("impl_self", s(format!("{}", st))));
                            // slice iterators are modelled abstractly: the general implementation of a method they override
                            let abstracted = match st.kind() {
                                ty::Adt(a, _) => tcx.def_path_str(a.did()).starts_with("std::slice::Iter"),
                                _ => false,
                            };
                            if abstracted && d != did && tcx.defaultness(did).has_value() && tcx.is_mir_available(did) && !self.stopped(did) {
                                let inst = Instance::new_raw(did, args);
                                let key = self.inst_key(inst);
                                o.push(("tdefault", s(key.clone())));
                                self.push(key, Job::Fn(inst));
                            }
                        }
                    }
                    let is_ctor = tcx.is_constructor(d);
                    if is_ctor {
                        o.push(("ctor", J::B(true)));
                    }
                    if tcx.intrinsic(d).is_some() {
                        o.push(("intrinsic", s(tcx.item_name(d).to_string())));
                    }
                    if !is_ctor && tcx.is_mir_available(d) && !self.stopped(d) {
                        o.push(("key", s(key.clone())));
                        self.push(key, Job::Fn(inst));
                    }
                }
                InstanceKind::Intrinsic(d) => {
                    o.push(("k", s("intrinsic")));
                    o.push(("intrinsic", s(tcx.item_name(d).to_string())));
                    if tcx.is_mir_available(d) && !self.stopped(d) {
                        let key = self.inst_key(Instance::new_raw(d, args));
                        o.push(("key", s(key.clone())));
                        self.push(key, Job::Fn(Instance::new_raw(d, args)));
                    }
                }
                InstanceKind::Shim(ShimKind::ClosureOnce { closure, .. }) => {
                    o.push(("k", s("closure_once")));
                    let ct = args.type_at(0);
                    if let ty::Closure(_, cargs) = ct.kind() {
                        let ci = Instance::new_raw(closure, cargs);
                        let key = self.inst_key(ci);
                        o.push(("key", s(key.clone())));
                        self.push(key, Job::Fn(ci));
                    }
                }
                InstanceKind::Shim(ShimKind::DropGlue(_, t)) => {
                    o.push(("k", s("drop_glue")));
                    if let Some(t) = t {
                        o.push(("ty", self.ty(t)));
                    }
                }
                InstanceKind::Shim(ShimKind::Clone(_, t)) => {
                    o.push(("k", s("clone_shim")));
                    o.push(("ty", self.ty(t)));
                }
                InstanceKind::Shim(ShimKind::FnPtr(_, t)) => {
                    o.push(("k", s("fnptr_shim")));
                    o.push(("ty", self.ty(t)));
                }
                other => {
                    o.push(("k", s("shim")));
                    o.push(("dbg", s(format!("{:?}", other))));
                }
            },
            _ => {
                if let Some(inst) = self.specialised(did, args) {
                    // std specialises this method for some type arguments; its general implementation stands for all of them
                    let key = self.inst_key(inst);
                    o.push(("k", s("item")));
                    o.push(("specialised", J::B(true)));
                    o.push(("ipath", s(tcx.def_path_str(inst.def_id()))));
                    o.push(("key", s(key.clone())));
                    self.push(key, Job::Fn(inst));
                    return J::O(o);
                }
                // user code: the implementation is chosen by whoever instantiates the generics
                o.push(("k", s("unresolved")));
                if tcx.defaultness(did).has_value() && tcx.is_mir_available(did) && !self.stopped(did) {
                    let inst = Instance::new_raw(did, args);
                    let key = self.inst_key(inst);
                    o.push(("default", s(key.clone())));
                    self.push(key, Job::Fn(inst));
                }
            }
        }
        J::O(o)
    }

    /// The least specialised implementation of a foreign trait method whose implementing type is known but whose
    /// implementation is left open because the trait is specialised.
    fn specialised(&mut self, did: DefId, args: GenericArgsRef<'tcx>) -> Option<Instance<'tcx>> {
        let tcx = self.tcx;
        if did.is_local() {
            return None;
        }
        let tr = tcx.trait_of_assoc(did)?;
        if !matches!(args.types().next()?.kind(), ty::Adt(..) | ty::Slice(..) | ty::Array(..)) {
            return None;
        }
        let mut found = vec![];
        for im in tcx.all_impls(tr) {
            let n = tcx.generics_of(im).count();
            let mut bind: Vec<Option<ty::GenericArg<'tcx>>> = vec![None; n];
            let head = tcx.impl_trait_ref(im).instantiate_identity().skip_norm_wip();
            let ok = head.args.iter().zip(args.iter()).all(|(x, y)| unify(x, y, &mut bind));
            if ok && bind.iter().all(|b| b.is_some()) {
                found.push((im, bind));
            }
        }
        if found.len() < 2 {
            return None;
        }
        for k in 0..found.len() {
            let root = found[k].0;
            if found.iter().all(|(o, _)| *o == root || tcx.specializes((*o, root))) {
                let m = *tcx.impl_item_implementor_ids(root).get(&did)?;
                if !tcx.is_mir_available(m) || self.stopped(m) {
                    return None;
                }
                let ia = tcx.mk_args(&found[k].1.iter().map(|b| b.unwrap()).collect::<Vec<_>>());
                return Some(Instance::new_raw(m, args.rebase_onto(tcx, tr, ia)));
            }
        }
        None
    }

    fn place(&mut self, p: &Place<'tcx>) -> J {
        let mut v = vec![i(p.local.as_u32())];
        for e in p.projection {
            v.push(match e {
                ProjectionElem::Deref => s("*"),
                ProjectionElem::Field(f, t) => J::A(vec![s("f"), i(f.as_u32()), self.ty(t)]),
                ProjectionElem::Index(l) => J::A(vec![s("i"), i(l.as_u32())]),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    J::A(vec![s("ci"), i(offset), J::B(from_end)])
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    J::A(vec![s("sub"), i(from), i(to), J::B(from_end)])
                }
                ProjectionElem::Downcast(_, v) => J::A(vec![s("v"), i(v.as_u32())]),
                other => J::A(vec![s("unsupported"), s(format!("{:?}", other))]),
            });
        }
        J::A(v)
    }

    fn operand(&mut self, inst: Instance<'tcx>, body: &Body<'tcx>, o: &Operand<'tcx>) -> J {
        match o {
            Operand::Copy(p) => {
                // `copy` of a type that is not Copy is what `ptr::read` lowers to
                let t = p.ty(&body.local_decls, self.tcx).ty;
                let c = self.tcx.type_is_copy_modulo_regions(self.env, t);
                J::A(vec![s("copy"), self.place(p), J::B(c)])
            }
            Operand::Move(p) => J::A(vec![s("move"), self.place(p)]),
            Operand::Constant(c) => {
                let k = self.konst(inst, &c.const_);
                J::A(vec![s("const"), k])
            }
            Operand::RuntimeChecks(r) => J::A(vec![s("rtcheck"), s(format!("{:?}", r))]),
        }
    }

    fn konst(&mut self, inst: Instance<'tcx>, c: &Const<'tcx>) -> J {
        let tcx = self.tcx;
        let ty = c.ty();
        let tj = self.ty(ty);
        if let ty::FnDef(d, a) = ty.kind() {
            let f = self.callee(*d, a.skip_binder());
            return J::O(vec![("ty", tj), ("fn", f)]);
        }
        match c {
            Const::Ty(_, ct) => {
                let v = self.tyconst(*ct);
                return J::O(vec![("ty", tj), ("tc", v)]);
            }
            Const::Unevaluated(u, _) => {
                let ev = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                    c.eval(tcx, self.env, rustc_span::DUMMY_SP)
                }));
                if let Ok(Ok(v)) = ev {
                    if let Some(j) = self.constval(v, ty) {
                        return J::O(vec![("ty", tj), ("v", j)]);
                    }
                }
                if let Some(p) = u.promoted {
                    let pi = Instance::new_raw(u.def, u.args);
                    let key = format!("promoted {} {}", p.as_u32(), self.inst_key(pi));
                    self.push(key.clone(), Job::Promoted(pi, p));
                    let _ = inst;
                    return J::O(vec![("ty", tj), ("uneval", s(key)), ("promoted", J::B(true))]);
                }
                let path = tcx.def_path_str(u.def);
                let resolved = Instance::try_resolve(tcx, self.env, u.def, u.args);
                if let Ok(Some(ri)) = resolved {
                    let key = self.const_key(ri.def_id(), ri.args);
                    self.push(key.clone(), Job::Const(ri.def_id(), ri.args));
                    let targs: Vec<J> = ri.args.types().map(|t| self.ty(t)).collect();
                    return J::O(vec![
                        ("ty", tj),
                        ("uneval", s(key)),
                        ("path", s(path)),
                        ("targs", J::A(targs)),
                    ]);
                }
                let targs: Vec<J> = u.args.types().map(|t| self.ty(t)).collect();
                J::O(vec![("ty", tj), ("unresolved", s(path)), ("targs", J::A(targs))])
            }
            Const::Val(v, _) => match self.constval(*v, ty) {
                Some(j) => J::O(vec![("ty", tj), ("v", j)]),
                None => J::O(vec![("ty", tj), ("opaque", s(format!("{}", c)))]),
            },
        }
    }

    fn constval(&mut self, v: ConstValue, ty: Ty<'tcx>) -> Option<J> {
        let tcx = self.tcx;
        match v {
            ConstValue::Scalar(Scalar::Int(n)) => match ty.kind() {
                ty::Int(_) => Some(s(n.to_int(n.size()).to_string())),
                ty::Uint(_) | ty::Bool | ty::Char => Some(s(n.to_bits(n.size()).to_string())),
                _ => self.destructure(v, ty),
            },
            ConstValue::ZeroSized => Some(s("zst")),
            ConstValue::Slice { alloc_id, meta } => {
                if let ty::Ref(_, t, _) = ty.kind() {
                    if t.is_str() {
                        if let GlobalAlloc::Memory(m) = tcx.global_alloc(alloc_id) {
                            let b = m
                                .inner()
                                .inspect_with_uninit_and_ptr_outside_interpreter(0..meta as usize);
                            return Some(J::O(vec![(
                                "str",
                                s(String::from_utf8_lossy(b).to_string()),
                            )]));
                        }
                    }
                }
                None
            }
            _ => self.destructure(v, ty),
        }
    }

    fn destructure(&mut self, v: ConstValue, ty: Ty<'tcx>) -> Option<J> {
        let tcx = self.tcx;
        if !matches!(ty.kind(), ty::Adt(..) | ty::Tuple(..) | ty::Array(..)) {
            return None;
        }
        if let ty::Adt(d, _) = ty.kind() {
            if d.is_union() {
                return None;
            }
        }
        let d = tcx.try_destructure_mir_constant_for_user_output(v, ty)?;
        let mut f = vec![];
        for (fv, ft) in d.fields {
            f.push(self.constval(*fv, *ft)?);
        }
        Some(J::O(vec![
            ("variant", d.variant.map_or(J::Null, |x| i(x.as_u32()))),
            ("fields", J::A(f)),
        ]))
    }

    fn tyconst(&mut self, c: ty::Const<'tcx>) -> J {
        match c.kind() {
            ty::ConstKind::Param(p) => J::O(vec![("cparam", s(p.name.to_string()))]),
            ty::ConstKind::Value(_) => match c.try_to_target_usize(self.tcx) {
                Some(n) => J::O(vec![("cval", s(n.to_string()))]),
                None => J::O(vec![("copaque", s(format!("{}", c)))]),
            },
            _ => J::O(vec![("copaque", s(format!("{}", c)))]),
        }
    }

    fn rvalue(&mut self, inst: Instance<'tcx>, body: &Body<'tcx>, r: &Rvalue<'tcx>) -> J {
        match r {
            Rvalue::Use(o, _) => J::A(vec![s("use"), self.operand(inst, body, o)]),
            Rvalue::Repeat(o, c) => {
                let c = self.tyconst(*c);
                J::A(vec![s("repeat"), self.operand(inst, body, o), c])
            }
            Rvalue::Ref(_, k, p) => J::A(vec![
                s("ref"),
                J::B(matches!(k, BorrowKind::Mut { .. })),
                self.place(p),
            ]),
            Rvalue::RawPtr(k, p) => J::A(vec![
                s("raw"),
                J::B(matches!(k, RawPtrKind::Mut)),
                self.place(p),
            ]),
            Rvalue::Cast(k, o, t) => {
                let from = o.ty(&body.local_decls, self.tcx);
                let kind = match k {
                    CastKind::PointerCoercion(c, _) => format!("coerce:{:?}", c),
                    k => format!("{:?}", k),
                };
                let extra = if kind.contains("ClosureFnPointer") || kind.contains("ReifyFnPointer") {
                    J::Null
                } else {
                    J::Null
                };
                J::A(vec![
                    s("cast"),
                    s(kind),
                    self.operand(inst, body, o),
                    self.ty(from),
                    self.ty(*t),
                    extra,
                ])
            }
            Rvalue::BinaryOp(op, b) => {
                let t = b.0.ty(&body.local_decls, self.tcx);
                J::A(vec![
                    s("bin"),
                    s(format!("{:?}", op)),
                    self.operand(inst, body, &b.0),
                    self.operand(inst, body, &b.1),
                    self.ty(t),
                ])
            }
            Rvalue::UnaryOp(op, o) => {
                let t = o.ty(&body.local_decls, self.tcx);
                J::A(vec![
                    s("un"),
                    s(format!("{:?}", op)),
                    self.operand(inst, body, o),
                    self.ty(t),
                ])
            }
            Rvalue::Discriminant(p) => {
                let t = p.ty(&body.local_decls, self.tcx).ty;
                J::A(vec![s("discr"), self.place(p), self.ty(t)])
            }
            Rvalue::Aggregate(k, ops) => {
                let f: Vec<J> = ops.iter().map(|o| self.operand(inst, body, o)).collect();
                let rt = r.ty(&body.local_decls, self.tcx);
                let rt = self.ty(rt);
                let (kind, variant) = match &**k {
                    AggregateKind::Array(_) => ("array", 0),
                    AggregateKind::Tuple => ("tuple", 0),
                    AggregateKind::Adt(_, v, _, _, active) => {
                        if let Some(a) = active {
                            return J::A(vec![
                                s("agg"),
                                s("union"),
                                i(a.as_u32()),
                                J::A(f),
                                rt,
                            ]);
                        }
                        ("adt", v.as_u32())
                    }
                    AggregateKind::Closure(..) => ("closure", 0),
                    AggregateKind::RawPtr(..) => ("rawptr", 0),
                    _ => ("unsupported", 0),
                };
                J::A(vec![s("agg"), s(kind), i(variant), J::A(f), rt])
            }
            Rvalue::CopyForDeref(p) => {
                J::A(vec![s("use"), J::A(vec![s("copy"), self.place(p), J::B(true)])])
            }
            Rvalue::Reborrow(_, _, p) => {
                J::A(vec![s("use"), J::A(vec![s("copy"), self.place(p), J::B(true)])])
            }
            other => J::A(vec![s("unsupported"), s(format!("{:?}", other))]),
        }
    }

    fn ty(&mut self, t: Ty<'tcx>) -> J {
        i(self.ty_id(t))
    }

    fn ty_id(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(&n) = self.types.get(&t) {
            // the drop glue reachable from a type depends on the root: requeue destructors
            self.destructors(t);
            return n;
        }
        let n = self.types_out.len();
        self.types.insert(t, n);
        self.types_out.push(J::Null);
        let tcx = self.tcx;
        let mut o = vec![("s", s(format!("{}", t)))];
        match t.kind() {
            ty::Bool => o.push(("k", s("bool"))),
            ty::Char => o.push(("k", s("char"))),
            ty::Int(x) => {
                o.push(("k", s("int")));
                o.push(("bits", i(x.bit_width().unwrap_or(64))));
            }
            ty::Uint(x) => {
                o.push(("k", s("uint")));
                o.push(("bits", i(x.bit_width().unwrap_or(64))));
            }
            ty::Float(_) => o.push(("k", s("float"))),
            ty::Str => o.push(("k", s("str"))),
            ty::Never => o.push(("k", s("never"))),
            ty::Param(p) => {
                o.push(("k", s("param")));
                o.push(("name", s(p.name.to_string())));
            }
            ty::Adt(d, args) => {
                o.push(("k", s("adt")));
                o.push(("path", s(tcx.def_path_str(d.did()))));
                o.push((
                    "adt",
                    s(if d.is_enum() {
                        "enum"
                    } else if d.is_union() {
                        "union"
                    } else {
                        "struct"
                    }),
                ));
                o.push(("repr_c", J::B(d.repr().c())));
                o.push(("manually_drop", J::B(d.is_manually_drop())));
                let a: Vec<J> = args
                    .iter()
                    .filter_map(|a| match a.kind() {
                        GenericArgKind::Type(t) => Some(self.ty(t)),
                        GenericArgKind::Const(c) => Some(self.tyconst(c)),
                        _ => None,
                    })
                    .collect();
                o.push(("args", J::A(a)));
                let mut vs = vec![];
                for (vi, v) in d.variants().iter_enumerated() {
                    let mut fs = vec![];
                    for f in v.fields.iter() {
                        let ft = f.ty(tcx, args);
                        let ft = tcx
                            .try_normalize_erasing_regions(self.env, ft)
                            .unwrap_or_else(|_| f.ty(tcx, args).skip_norm_wip());
                        fs.push(J::A(vec![s(f.name.to_string()), self.ty(ft)]));
                    }
                    let dv = if d.is_enum() {
                        s(format!("{}", d.discriminant_for_variant(tcx, vi)))
                    } else {
                        J::Null
                    };
                    vs.push(J::O(vec![
                        ("name", s(v.name.to_string())),
                        ("discr", dv),
                        ("fields", J::A(fs)),
                    ]));
                }
                o.push(("variants", J::A(vs)));
                if let Some(k) = self.destructors(t) {
                    o.push(("drop", s(k)));
                }
            }
            ty::Ref(_, x, m) => {
                o.push(("k", s("ref")));
                o.push(("mut", J::B(m.is_mut())));
                o.push(("to", self.ty(*x)));
            }
            ty::RawPtr(x, m) => {
                o.push(("k", s("ptr")));
                o.push(("mut", J::B(m.is_mut())));
                o.push(("to", self.ty(*x)));
            }
            ty::Slice(x) => {
                o.push(("k", s("slice")));
                o.push(("of", self.ty(*x)));
            }
            ty::Array(x, c) => {
                o.push(("k", s("array")));
                o.push(("of", self.ty(*x)));
                let c = self.tyconst(*c);
                o.push(("len", c));
            }
            ty::Tuple(ts) => {
                o.push(("k", s("tuple")));
                let v: Vec<J> = ts.iter().map(|t| self.ty(t)).collect();
                o.push(("of", J::A(v)));
            }
            ty::FnDef(d, a) => {
                o.push(("k", s("fndef")));
                o.push(("fn", self.callee(*d, a.skip_binder())));
            }
            ty::FnPtr(..) => o.push(("k", s("fnptr"))),
            ty::Closure(d, args) => {
                o.push(("k", s("closure")));
                let v: Vec<J> = args.as_closure().upvar_tys().iter().map(|t| self.ty(t)).collect();
                o.push(("upvars", J::A(v)));
                o.push(("kind", s(format!("{:?}", args.as_closure().kind()))));
                let ci = Instance::new_raw(*d, args);
                let key = self.inst_key(ci);
                o.push(("key", s(key.clone())));
                self.push(key, Job::Fn(ci));
            }
            ty::Dynamic(..) => o.push(("k", s("dyn"))),
            _ => o.push(("k", s("other"))),
        }
        self.types_out[n] = J::O(o);
        n
    }

    fn destructors(&mut self, t: Ty<'tcx>) -> Option<String> {
        let tcx = self.tcx;
        match t.kind() {
            ty::Adt(d, args) => {
                let mut r = None;
                if let Some(x) = tcx.adt_destructor(d.did()) {
                    let trait_drop = tcx.require_lang_item(rustc_attr_ir::lang_items::LangItem::Drop, rustc_span::DUMMY_SP);
                    let m = tcx.associated_item_def_ids(trait_drop)[0];
                    let targs = tcx.mk_args(&[t.into()]);
                    if let Ok(Some(inst)) = Instance::try_resolve(tcx, self.env, m, targs) {
                        let k = self.inst_key(inst);
                        if tcx.is_mir_available(inst.def_id()) && !self.stopped(inst.def_id()) {
                            self.push(k.clone(), Job::Fn(inst));
                        }
                        r = Some(k);
                    } else {
                        r = Some(format!("unresolved {:?}", x.did));
                    }
                }
                // destructors of fields
                if self.seen.insert(format!("dtor-visit {}", t)) {
                    for v in d.variants() {
                        for f in v.fields.iter() {
                            let ft = f.ty(tcx, args);
                            if let Ok(ft) = tcx.try_normalize_erasing_regions(self.env, ft) {
                                self.destructors(ft);
                            }
                        }
                    }
                }
                r
            }
            ty::Closure(d, args) => {
                let ci = Instance::new_raw(*d, args);
                let key = self.inst_key(ci);
                self.push(key, Job::Fn(ci));
                for u in args.as_closure().upvar_tys().iter() {
                    self.destructors(u);
                }
                None
            }
            ty::FnDef(d, a) => {
                if self.seen.insert(format!("fndef-visit {}", t)) {
                    self.callee(*d, a.skip_binder());
                }
                None
            }
            ty::Tuple(ts) => {
                for x in ts.iter() {
                    self.destructors(x);
                }
                None
            }
            ty::Array(x, _) | ty::Slice(x) => {
                self.destructors(*x);
                None
            }
            _ => None,
        }
    }
}
