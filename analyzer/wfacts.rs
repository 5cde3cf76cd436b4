// wfacts: a rustc_private driver that type-checks a crate and writes its MIR
// (drop-elaborated, pre coroutine transform, unoptimised) with resolved callees as JSON.
//
// usage (as RUSTC_WORKSPACE_WRAPPER):  wfacts <rustc> <rustc args...>
// WFACTS_OUT=<dir>: facts go to <dir>/<crate_name>.json
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_ast;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_index;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_interface::interface::Compiler;
use rustc_middle::mir::*;
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypeVisitableExt};
use rustc_span::Span;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;

#[derive(Clone)]
enum J {
    Null,
    B(bool),
    I(i128),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
    M(Vec<(String, J)>),
}

fn esc(s: &str, out: &mut String) {
    out.push('"');
    for c in s.chars() {
        match c {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            '\n' => out.push_str("\\n"),
            '\r' => out.push_str("\\r"),
            '\t' => out.push_str("\\t"),
            c if (c as u32) < 0x20 || (c as u32) == 0x7f => {
                let _ = write!(out, "\\u{:04x}", c as u32);
            }
            c => out.push(c),
        }
    }
    out.push('"');
}

impl J {
    fn s(x: impl Into<String>) -> J {
        J::S(x.into())
    }
    fn w(&self, out: &mut String) {
        match self {
            J::Null => out.push_str("null"),
            J::B(b) => out.push_str(if *b { "true" } else { "false" }),
            J::I(i) => {
                let _ = write!(out, "{}", i);
            }
            J::S(s) => esc(s, out),
            J::A(v) => {
                out.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    x.w(out);
                }
                out.push(']');
            }
            J::O(v) => {
                out.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    esc(k, out);
                    out.push(':');
                    x.w(out);
                }
                out.push('}');
            }
            J::M(v) => {
                out.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    esc(k, out);
                    out.push(':');
                    x.w(out);
                }
                out.push('}');
            }
        }
    }
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    adts: BTreeMap<String, J>,
    seen: HashSet<DefId>,
}

fn clean(s: String) -> String {
    s
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        let tcx = self.tcx;
        let s = tcx.def_path_str(d);
        clean(if d.is_local() {
            let cn = tcx.crate_name(LOCAL_CRATE);
            // def_path_str omits the crate name for local items
            if s.starts_with('<') {
                format!("{}", s)
            } else {
                format!("{}::{}", cn, s)
            }
        } else {
            s
        })
    }
    fn key(&self, d: DefId) -> String {
        // unambiguous key: crate + verbose def path (disambiguators included)
        let tcx = self.tcx;
        format!(
            "{}{}",
            tcx.crate_name(d.krate),
            tcx.def_path(d).to_string_no_crate_verbose()
        )
    }
    fn ty(&mut self, t: Ty<'tcx>) -> String {
        self.note(t);
        t.to_string()
    }
    fn note(&mut self, t: Ty<'tcx>) {
        for ga in t.walk() {
            if let Some(t) = ga.as_type() {
                if let ty::Adt(adt, _) = t.kind() {
                    self.note_adt(adt.did());
                }
            }
        }
    }
    fn note_adt(&mut self, d: DefId) {
        if !self.seen.insert(d) {
            return;
        }
        let tcx = self.tcx;
        let adt = tcx.adt_def(d);
        let mut vs = vec![];
        for (vi, v) in adt.variants().iter_enumerated() {
            let disc = if adt.is_enum() {
                J::I(adt.discriminant_for_variant(tcx, vi).val as i128)
            } else {
                J::I(0)
            };
            let fs = v
                .fields
                .iter()
                .map(|f| {
                    let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                    J::O(vec![
                        ("name", J::s(f.name.as_str())),
                        ("ty", J::s(t.to_string())),
                        ("pub", J::B(f.vis.is_public())),
                    ])
                })
                .collect();
            vs.push(J::O(vec![
                ("name", J::s(v.name.as_str())),
                ("discr", disc),
                ("fields", J::A(fs)),
            ]));
        }
        let k = self.path(d);
        let j = J::O(vec![
            ("enum", J::B(adt.is_enum())),
            ("local", J::B(d.is_local())),
            ("variants", J::A(vs)),
            ("span", self.span(tcx.def_span(d))),
        ]);
        self.adts.insert(k, j);
    }
    fn span(&self, sp: Span) -> J {
        let sm = self.tcx.sess.source_map();
        let sp0 = sp;
        // outermost call site for macro expansions
        let sp = sp.source_callsite();
        if sp.is_dummy() {
            return J::Null;
        }
        let lo = sm.lookup_char_pos(sp.lo());
        let f = lo
            .file
            .name
            .prefer_local_unconditionally()
            .to_string();
        let m = sp0.from_expansion();
        J::S(format!("{}:{}{}", f, lo.line, if m { "!" } else { "" }))
    }
    fn place(&mut self, body: &Body<'tcx>, p: &Place<'tcx>) -> J {
        let tcx = self.tcx;
        let mut pr = vec![];
        let mut cur = PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            let j = match e {
                ProjectionElem::Deref => J::s("*"),
                ProjectionElem::Field(f, _) => {
                    let mut name = format!("{}", f.as_usize());
                    let mut adt = J::Null;
                    if let ty::Adt(a, _) = cur.ty.kind() {
                        let vi = cur.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                        if let Some(v) = a.variants().get(vi) {
                            if let Some(fd) = v.fields.get(f) {
                                name = fd.name.to_string();
                            }
                        }
                        self.note_adt(a.did());
                        adt = J::S(self.path(a.did()));
                    }
                    J::O(vec![
                        ("f", J::I(f.as_usize() as i128)),
                        ("n", J::S(name)),
                        ("adt", adt),
                    ])
                }
                ProjectionElem::Index(l) => J::O(vec![("idx", J::I(l.as_usize() as i128))]),
                ProjectionElem::ConstantIndex {
                    offset, from_end, ..
                } => J::O(vec![
                    ("ci", J::I(offset as i128)),
                    ("end", J::B(from_end)),
                ]),
                ProjectionElem::Subslice { from, to, from_end } => J::O(vec![
                    ("sub", J::A(vec![J::I(from as i128), J::I(to as i128)])),
                    ("end", J::B(from_end)),
                ]),
                ProjectionElem::Downcast(n, v) => J::O(vec![
                    ("dc", J::I(v.as_usize() as i128)),
                    (
                        "n",
                        J::S(n.map(|s| s.to_string()).unwrap_or_default()),
                    ),
                ]),
                _ => J::s("?"),
            };
            pr.push(j);
            cur = cur.projection_ty(tcx, e);
        }
        let t = self.ty(cur.ty);
        if pr.is_empty() {
            J::O(vec![("l", J::I(p.local.as_usize() as i128))])
        } else {
            J::O(vec![
                ("l", J::I(p.local.as_usize() as i128)),
                ("p", J::A(pr)),
                ("t", J::S(t)),
            ])
        }
    }
    fn callee(
        &mut self,
        owner: DefId,
        d: DefId,
        args: ty::GenericArgsRef<'tcx>,
    ) -> Vec<(&'static str, J)> {
        let tcx = self.tcx;
        let env = ty::TypingEnv::post_analysis(tcx, owner);
        let mut o = vec![
            ("fn", J::S(self.path(d))),
            ("key", J::S(self.key(d))),
            ("name", J::S(tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_default())),
        ];
        let mut ga = vec![];
        for a in args.iter() {
            if let Some(t) = a.as_type() {
                ga.push(J::S(self.ty(t)));
            } else if let Some(c) = a.as_const() {
                ga.push(J::S(c.to_string()));
            }
        }
        o.push(("ga", J::A(ga)));
        if let Some(tr) = tcx.trait_of_assoc(d) {
            o.push(("trait", J::S(self.path(tr))));
        }
        if let Some(im) = tcx.impl_of_assoc(d) {
            let t = tcx.type_of(im).instantiate_identity().skip_norm_wip();
            o.push(("impl_self", J::S(t.to_string())));
        }
        if matches!(tcx.def_kind(d), DefKind::Ctor(..)) {
            o.push(("ctor", J::B(true)));
        }
        if !matches!(tcx.def_kind(d), DefKind::Ctor(..)) {
            let eargs = tcx.erase_and_anonymize_regions(args);
            if let Ok(Some(inst)) = Instance::try_resolve(tcx, env, d, eargs) {
                let rd = inst.def_id();
                let shim = !matches!(inst.def, ty::InstanceKind::Item(_));
                if rd != d || shim {
                    o.push(("res", J::S(self.path(rd))));
                    o.push(("reskey", J::S(self.key(rd))));
                    if shim {
                        o.push(("shim", J::S(format!("{:?}", inst.def).split('(').next().unwrap_or("").to_string())));
                    }
                    if let Some(im) = tcx.impl_of_assoc(rd) {
                        let t = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                        o.push(("res_self", J::S(t.to_string())));
                    }
                    let mut ga = vec![];
                    for a in inst.args.iter() {
                        if let Some(t) = a.as_type() {
                            ga.push(J::S(self.ty(t)));
                        }
                    }
                    o.push(("resga", J::A(ga)));
                }
            }
        }
        o.push(("local", J::B(d.is_local())));
        o.push(("krate", J::S(tcx.crate_name(d.krate).to_string())));
        o
    }
    fn konst(&mut self, owner: DefId, c: &ConstOperand<'tcx>) -> J {
        let tcx = self.tcx;
        let t = c.const_.ty();
        let mut o = vec![("ty", J::S(self.ty(t)))];
        match t.kind() {
            ty::FnDef(d, args) => {
                let a: ty::GenericArgsRef<'tcx> = args.no_bound_vars().expect("bound vars in FnDef args");
                o.push(("fndef", J::O(self.callee(owner, *d, a))));
                return J::O(vec![("k", J::O(o))]);
            }
            ty::Closure(d, _) | ty::Coroutine(d, _) | ty::CoroutineClosure(d, _) => {
                o.push(("closure", J::S(self.key(*d))));
                return J::O(vec![("k", J::O(o))]);
            }
            _ => {}
        }
        if let Const::Unevaluated(u, _) = c.const_ {
            o.push(("uneval", J::S(self.path(u.def))));
            if let Some(p) = u.promoted {
                o.push(("promoted", J::I(p.as_usize() as i128)));
            }
        }
        if let Some(d) = c.check_static_ptr(tcx) {
            o.push(("static", J::S(self.path(d))));
        }
        let env = ty::TypingEnv::post_analysis(tcx, owner);
        if !c.const_.has_param() {
            if let Ok(v) = c.const_.eval(tcx, env, c.span) {
                let vv = Const::Val(v, t);
                if t.is_integral() || t.is_bool() || t.is_char() {
                    if let Some(si) = vv.try_to_scalar_int() {
                        let n: i128 = if t.is_signed() {
                            si.to_int(si.size())
                        } else {
                            si.to_uint(si.size()) as i128
                        };
                        o.push(("int", J::I(n)));
                    }
                } else if let ty::Ref(_, inner, _) = t.kind() {
                    if inner.is_str() {
                        if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                            o.push(("str", J::S(String::from_utf8_lossy(b).to_string())));
                        }
                    } else if let ty::Slice(e) = inner.kind() {
                        if *e == tcx.types.u8 {
                            if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                                o.push((
                                    "bytes",
                                    J::A(b.iter().map(|x| J::I(*x as i128)).collect()),
                                ));
                            }
                        }
                    }
                }
                let s = format!("{}", vv);
                if s.len() < 4000 {
                    o.push(("val", J::S(s)));
                }
            }
        }
        J::O(vec![("k", J::O(o))])
    }
    fn op(&mut self, owner: DefId, body: &Body<'tcx>, o: &Operand<'tcx>) -> J {
        match o {
            Operand::Copy(p) => J::O(vec![("c", self.place(body, p))]),
            Operand::Move(p) => J::O(vec![("m", self.place(body, p))]),
            Operand::Constant(c) => self.konst(owner, c),
            #[allow(unreachable_patterns)]
            _ => J::O(vec![("rt", J::S(format!("{:?}", o)))]),
        }
    }
    fn rv(&mut self, owner: DefId, body: &Body<'tcx>, r: &Rvalue<'tcx>) -> J {
        match r {
            Rvalue::Use(o, ..) => J::O(vec![("r", J::s("use")), ("a", self.op(owner, body, o))]),
            Rvalue::Repeat(o, n) => J::O(vec![
                ("r", J::s("repeat")),
                ("a", self.op(owner, body, o)),
                ("n", J::S(n.to_string())),
            ]),
            Rvalue::Ref(_, bk, p) => J::O(vec![
                ("r", J::s("ref")),
                ("mut", J::B(matches!(bk, BorrowKind::Mut { .. }))),
                ("pl", self.place(body, p)),
            ]),
            Rvalue::RawPtr(_, p) => {
                J::O(vec![("r", J::s("rawptr")), ("pl", self.place(body, p))])
            }
            Rvalue::Reborrow(_, _, p) => J::O(vec![
                ("r", J::s("ref")),
                ("mut", J::B(true)),
                ("pl", self.place(body, p)),
            ]),
            Rvalue::Cast(k, o, t) => J::O(vec![
                ("r", J::s("cast")),
                ("kind", J::S(format!("{:?}", k))),
                ("a", self.op(owner, body, o)),
                ("from", {
                    let t = o.ty(body, self.tcx);
                    J::S(self.ty(t))
                }),
                ("ty", J::S(self.ty(*t))),
            ]),
            Rvalue::BinaryOp(b, ab) => J::O(vec![
                ("r", J::s("bin")),
                ("op", J::S(format!("{:?}", b))),
                ("a", self.op(owner, body, &ab.0)),
                ("b", self.op(owner, body, &ab.1)),
                ("ty", {
                    let t = ab.0.ty(body, self.tcx);
                    J::S(self.ty(t))
                }),
            ]),
            Rvalue::UnaryOp(b, a) => J::O(vec![
                ("r", J::s("un")),
                ("op", J::S(format!("{:?}", b))),
                ("a", self.op(owner, body, a)),
            ]),
            Rvalue::Discriminant(p) => {
                let t = p.ty(body, self.tcx).ty;
                let adt = match t.kind() {
                    ty::Adt(a, _) => {
                        self.note_adt(a.did());
                        J::S(self.path(a.did()))
                    }
                    _ => J::Null,
                };
                J::O(vec![
                    ("r", J::s("discr")),
                    ("pl", self.place(body, p)),
                    ("adt", adt),
                ])
            }
            Rvalue::Aggregate(k, ops) => {
                let mut o = vec![("r", J::s("agg"))];
                match &**k {
                    AggregateKind::Array(_) => o.push(("kind", J::s("array"))),
                    AggregateKind::Tuple => o.push(("kind", J::s("tuple"))),
                    AggregateKind::Adt(d, v, _, _, active) => {
                        o.push(("kind", J::s("adt")));
                        o.push(("adt", J::S(self.path(*d))));
                        let adt = self.tcx.adt_def(*d);
                        self.note_adt(*d);
                        let var = adt.variant(*v);
                        o.push(("variant", J::s(var.name.as_str())));
                        let names = if let Some(a) = active {
                            vec![J::s(var.fields[*a].name.as_str())]
                        } else {
                            var.fields.iter().map(|f| J::s(f.name.as_str())).collect()
                        };
                        o.push(("fields", J::A(names)));
                    }
                    AggregateKind::Closure(d, _)
                    | AggregateKind::Coroutine(d, _)
                    | AggregateKind::CoroutineClosure(d, _) => {
                        o.push(("kind", J::s("closure")));
                        o.push(("closure", J::S(self.key(*d))));
                    }
                    _ => o.push(("kind", J::s("other"))),
                }
                let a = ops.iter().map(|x| self.op(owner, body, x)).collect();
                o.push(("a", J::A(a)));
                J::O(o)
            }
            Rvalue::CopyForDeref(p) => J::O(vec![
                ("r", J::s("use")),
                ("a", J::O(vec![("c", self.place(body, p))])),
            ]),
            _ => J::O(vec![("r", J::s("other")), ("dbg", J::S(format!("{:?}", r)))]),
        }
    }
    fn body(&mut self, owner: DefId, body: &Body<'tcx>) -> Vec<(&'static str, J)> {
        let tcx = self.tcx;
        let mut locals = vec![];
        let mut names: BTreeMap<usize, String> = BTreeMap::new();
        let mut dbg = vec![];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.insert(p.local.as_usize(), v.name.to_string());
                } else {
                    let j = self.place(body, &p);
                    dbg.push(J::O(vec![("name", J::s(v.name.as_str())), ("pl", j)]));
                }
            }
        }
        for (l, d) in body.local_decls.iter_enumerated() {
            let mut o = vec![("ty", J::S(self.ty(d.ty)))];
            if let Some(n) = names.get(&l.as_usize()) {
                o.push(("n", J::S(n.clone())));
            }
            locals.push(J::O(o));
        }
        let mut blocks = vec![];
        for (_bb, b) in body.basic_blocks.iter_enumerated() {
            let mut st = vec![];
            for s in &b.statements {
                match &s.kind {
                    StatementKind::Assign(x) => {
                        let (p, r) = &**x;
                        st.push(J::O(vec![
                            ("d", self.place(body, p)),
                            ("v", self.rv(owner, body, r)),
                            ("s", self.span(s.source_info.span)),
                        ]));
                    }
                    StatementKind::SetDiscriminant {
                        place,
                        variant_index,
                    } => st.push(J::O(vec![
                        ("setd", self.place(body, place)),
                        ("var", J::I(variant_index.as_usize() as i128)),
                        ("s", self.span(s.source_info.span)),
                    ])),
                    StatementKind::StorageDead(l) => {
                        st.push(J::O(vec![("dead", J::I(l.as_usize() as i128))]))
                    }
                    StatementKind::Intrinsic(i) => st.push(J::O(vec![(
                        "intr",
                        J::S(format!("{:?}", i)),
                    )])),
                    _ => {}
                }
            }
            let t = b.terminator();
            let bbj = |b: BasicBlock| J::I(b.as_usize() as i128);
            let unw = |u: &UnwindAction| match u {
                UnwindAction::Cleanup(b) => J::I(b.as_usize() as i128),
                _ => J::Null,
            };
            let mut o: Vec<(&'static str, J)> = vec![];
            match &t.kind {
                TerminatorKind::Goto { target, .. } => {
                    o.push(("k", J::s("goto")));
                    o.push(("t", bbj(*target)));
                }
                TerminatorKind::SwitchInt { discr, targets } => {
                    o.push(("k", J::s("switch")));
                    let dt = discr.ty(body, tcx);
                    o.push(("a", self.op(owner, body, discr)));
                    o.push(("ty", J::S(self.ty(dt))));
                    let mut v = vec![];
                    for (val, b) in targets.iter() {
                        v.push(J::A(vec![J::S(val.to_string()), bbj(b)]));
                    }
                    o.push(("v", J::A(v)));
                    o.push(("o", bbj(targets.otherwise())));
                }
                TerminatorKind::Return => o.push(("k", J::s("return"))),
                TerminatorKind::Unreachable => o.push(("k", J::s("unreachable"))),
                TerminatorKind::UnwindResume => o.push(("k", J::s("resume"))),
                TerminatorKind::UnwindTerminate(_) => o.push(("k", J::s("terminate"))),
                TerminatorKind::Drop {
                    place,
                    target,
                    unwind,
                    ..
                } => {
                    o.push(("k", J::s("drop")));
                    let pt = place.ty(body, tcx).ty;
                    o.push(("pl", self.place(body, place)));
                    o.push(("ty", J::S(self.ty(pt))));
                    o.push(("t", bbj(*target)));
                    o.push(("u", unw(unwind)));
                }
                TerminatorKind::Call {
                    func,
                    args,
                    destination,
                    target,
                    unwind,
                    ..
                } => {
                    o.push(("k", J::s("call")));
                    let ft = func.ty(body, tcx);
                    match ft.kind() {
                        ty::FnDef(d, ga) => {
                            let a: ty::GenericArgsRef<'tcx> = ga.no_bound_vars().expect("bound vars in FnDef args");
                            o.push(("f", J::O(self.callee(owner, *d, a))));
                        }
                        _ => {
                            o.push(("ind", self.op(owner, body, func)));
                        }
                    }
                    let a = args.iter().map(|x| self.op(owner, body, &x.node)).collect();
                    o.push(("a", J::A(a)));
                    o.push(("d", self.place(body, destination)));
                    o.push(("t", target.map(|b| bbj(b)).unwrap_or(J::Null)));
                    o.push(("u", unw(unwind)));
                }
                TerminatorKind::Assert {
                    cond,
                    expected,
                    msg,
                    target,
                    unwind,
                } => {
                    o.push(("k", J::s("assert")));
                    o.push(("a", self.op(owner, body, cond)));
                    o.push(("exp", J::B(*expected)));
                    let (mk, ops): (String, Vec<&Operand<'tcx>>) = match &**msg {
                        AssertKind::BoundsCheck { len, index } => {
                            ("bounds".into(), vec![len, index])
                        }
                        AssertKind::Overflow(op, a, b) => (format!("overflow:{:?}", op), vec![a, b]),
                        AssertKind::OverflowNeg(a) => ("overflow:Neg".into(), vec![a]),
                        AssertKind::DivisionByZero(a) => ("div0".into(), vec![a]),
                        AssertKind::RemainderByZero(a) => ("rem0".into(), vec![a]),
                        m => (format!("other:{:?}", m), vec![]),
                    };
                    o.push(("msg", J::S(mk)));
                    let mo = ops.iter().map(|x| self.op(owner, body, x)).collect();
                    o.push(("mo", J::A(mo)));
                    o.push(("t", bbj(*target)));
                    o.push(("u", unw(unwind)));
                }
                TerminatorKind::Yield {
                    value,
                    resume,
                    resume_arg,
                    drop,
                } => {
                    o.push(("k", J::s("yield")));
                    o.push(("a", self.op(owner, body, value)));
                    o.push(("d", self.place(body, resume_arg)));
                    o.push(("t", bbj(*resume)));
                    o.push(("u", drop.map(|b| bbj(b)).unwrap_or(J::Null)));
                }
                TerminatorKind::FalseEdge { real_target, .. } => {
                    o.push(("k", J::s("goto")));
                    o.push(("t", bbj(*real_target)));
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    o.push(("k", J::s("goto")));
                    o.push(("t", bbj(*real_target)));
                }
                k => {
                    o.push(("k", J::s("other")));
                    o.push(("dbg", J::S(format!("{:?}", k))));
                }
            }
            o.push(("s", self.span(t.source_info.span)));
            let mut bo = vec![("st", J::A(st)), ("t", J::O(o))];
            if b.is_cleanup {
                bo.push(("cleanup", J::B(true)));
            }
            blocks.push(J::O(bo));
        }
        vec![
            ("args", J::I(body.arg_count as i128)),
            ("locals", J::A(locals)),
            ("dbg", J::A(dbg)),
            ("blocks", J::A(blocks)),
        ]
    }
}

struct Cb;

impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let out = match std::env::var("WFACTS_OUT") {
            Ok(o) => o,
            Err(_) => return Compilation::Continue,
        };
        let mut cx = Cx {
            tcx,
            adts: BTreeMap::new(),
            seen: HashSet::new(),
        };
        let mut fns = vec![];
        let mut stolen = 0;
        for ld in tcx.mir_keys(()).iter() {
            let d = ld.to_def_id();
            let kind = tcx.def_kind(d);
            let is_fnlike = matches!(
                kind,
                DefKind::Fn | DefKind::AssocFn | DefKind::Closure | DefKind::SyntheticCoroutineBody
            );
            let is_const = matches!(
                kind,
                DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. }
            );
            if !is_fnlike && !is_const {
                continue;
            }
            let mut o = vec![
                ("path", J::S(cx.path(d))),
                ("key", J::S(cx.key(d))),
                ("kind", J::S(format!("{:?}", kind).split(|c: char| !c.is_alphanumeric()).next().unwrap_or("").to_string())),
                (
                    "name",
                    J::S(
                        tcx.opt_item_name(d)
                            .map(|s| s.to_string())
                            .unwrap_or_default(),
                    ),
                ),
                ("span", cx.span(tcx.def_span(d))),
                ("hash", J::Null),
            ];
            if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
                o.push(("vis", J::S(format!("{:?}", tcx.visibility(d)))));
                o.push(("pub", J::B(tcx.visibility(d).is_public())));
                o.push(("exported", J::B(tcx.effective_visibilities(()).is_exported(*ld))));
                o.push(("constfn", J::B(tcx.is_const_fn(d))));
                o.push(("async", J::B(tcx.asyncness(d).is_async())));
                let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip().skip_binder();
                o.push(("unsafe", J::B(!sig.safety().is_safe())));
            }
            // closure parent
            if tcx.is_closure_like(d) {
                o.push(("parent", J::S(cx.key(tcx.parent(d)))));
                let up: Vec<J> = tcx
                    .closure_captures(*ld)
                    .iter()
                    .map(|c| J::S(c.to_string(tcx)))
                    .collect();
                o.push(("upvars", J::A(up)));
            }
            if let Some(im) = tcx.impl_of_assoc(d) {
                let t = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                o.push(("impl_self", J::S(t.to_string())));
                if tcx.impl_is_of_trait(im) {
                    let tr = tcx.impl_trait_ref(im).skip_binder();
                    o.push(("impl_trait", J::S(tr.to_string())));
                    o.push(("impl_trait_path", J::S(cx.path(tr.def_id))));
                }
                o.push(("derived", J::B(tcx.is_automatically_derived(im))));
            }
            if let Some(tr) = tcx.trait_of_assoc(d) {
                o.push(("in_trait", J::S(cx.path(tr))));
            }
            if is_const {
                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                o.push(("ty", J::S(cx.ty(t))));
                if let DefKind::Const { .. } | DefKind::AssocConst { .. } = kind {
                    if tcx.generics_of(d).count() == 0 {
                        if let Ok(v) = tcx.const_eval_poly(d) {
                            let c = Const::Val(v, t);
                            if t.is_integral() || t.is_bool() || t.is_char() {
                                if let Some(si) = c.try_to_scalar_int() {
                                    let n: i128 = if t.is_signed() {
                                        si.to_int(si.size())
                                    } else {
                                        si.to_uint(si.size()) as i128
                                    };
                                    o.push(("int", J::I(n)));
                                }
                            }
                            let s = format!("{}", c);
                            if s.len() < 4000 {
                                o.push(("val", J::S(s)));
                            }
                        }
                    }
                }
                let b = tcx.mir_for_ctfe(d);
                let cb = cx.body(d, b);
                o.push(("cbody", J::O(cb)));
                fns.push(J::O(o));
                continue;
            }
            let st = tcx.mir_drops_elaborated_and_const_checked(*ld);
            if st.is_stolen() {
                stolen += 1;
                let b = tcx.optimized_mir(d).clone();
                o.push(("opt", J::B(true)));
                let bj = cx.body(d, &b);
                o.extend(bj);
            } else {
                let b = st.borrow().clone();
                let bj = cx.body(d, &b);
                o.extend(bj);
            }
            let pm = tcx.promoted_mir(d);
            let mut ps = vec![];
            for p in pm.iter() {
                ps.push(J::O(cx.body(d, p)));
            }
            o.push(("promoted", J::A(ps)));
            fns.push(J::O(o));
        }
        // trait impls
        let mut impls = vec![];
        for (tr, is) in tcx.all_local_trait_impls(()).iter() {
            for i in is.iter() {
                let d = i.to_def_id();
                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let mut o = vec![
                    ("trait", J::S(cx.path(*tr))),
                    ("self", J::S(cx.ty(t))),
                    ("derived", J::B(tcx.is_automatically_derived(d))),
                    ("span", cx.span(tcx.def_span(d))),
                ];
                let tr = tcx.impl_trait_ref(d).skip_binder();
                o.push(("ref", J::S(tr.to_string())));
                let neg = tcx.impl_polarity(d);
                o.push(("pol", J::S(format!("{:?}", neg))));
                let items: Vec<J> = tcx
                    .associated_item_def_ids(d)
                    .iter()
                    .map(|x| J::S(cx.key(*x)))
                    .collect();
                o.push(("items", J::A(items)));
                impls.push(J::O(o));
            }
        }
        // traits with their methods
        let mut traits = vec![];
        // local ADTs
        for id in tcx.hir_crate_items(()).definitions() {
            let d = id.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Struct | DefKind::Enum | DefKind::Union => cx.note_adt(d),
                DefKind::Trait => {
                    let items: Vec<J> = tcx
                        .associated_items(d)
                        .in_definition_order()
                        .map(|x| {
                            J::O(vec![
                                ("name", J::s(x.name().as_str())),
                                ("default", J::B(x.defaultness(tcx).has_value())),
                                ("key", J::S(cx.key(x.def_id))),
                            ])
                        })
                        .collect();
                    traits.push(J::O(vec![
                        ("path", J::S(cx.path(d))),
                        ("items", J::A(items)),
                    ]));
                }
                _ => {}
            }
        }
        let adts: Vec<(String, J)> = std::mem::take(&mut cx.adts).into_iter().collect();
        let j = J::O(vec![
            ("crate", J::S(tcx.crate_name(LOCAL_CRATE).to_string())),
            ("stolen", J::I(stolen)),
            ("fns", J::A(fns)),
            ("impls", J::A(impls)),
            ("traits", J::A(traits)),
            ("adts", J::M(adts)),
        ]);
        let mut s = String::new();
        j.w(&mut s);
        std::fs::create_dir_all(&out).unwrap();
        let name = std::env::var("WFACTS_NAME")
            .unwrap_or_else(|_| tcx.crate_name(LOCAL_CRATE).to_string());
        let f = format!("{}/{}.json", out, name);
        let tmp = format!("{}.tmp{}", f, std::process::id());
        std::fs::write(&tmp, s).unwrap();
        std::fs::rename(&tmp, &f).unwrap();
        Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER convention: argv[1] is the real rustc
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    if let Ok(log) = std::env::var("WFACTS_LOG") {
        // record the invocation (argv, cwd and the environment cargo sets) so that it can be replayed
        let name = args
            .iter()
            .position(|a| a == "--crate-name")
            .and_then(|i| args.get(i + 1))
            .cloned();
        if let Some(n) = name {
            if n != "___" {
                let mut m: Vec<(String, J)> = vec![];
                for (k, v) in std::env::vars() {
                    if k.starts_with("CARGO") || k == "OUT_DIR" || k.starts_with("WFACTS") {
                        m.push((k, J::S(v)));
                    }
                }
                let j = J::O(vec![
                    ("argv", J::A(args.iter().skip(1).map(|a| J::s(a.as_str())).collect())),
                    ("cwd", J::s(std::env::current_dir().unwrap().to_string_lossy())),
                    ("env", J::M(m)),
                ]);
                let mut s = String::new();
                j.w(&mut s);
                let _ = std::fs::create_dir_all(&log);
                let pkg = std::env::var("CARGO_PKG_NAME").unwrap_or_default();
                let _ = std::fs::write(format!("{}/{}__{}.cmd.json", log, pkg, n), s);
            }
        }
    }
    rustc_driver::install_ice_hook("wfacts", |_| ());
    let code = rustc_driver::catch_with_exit_code(move || rustc_driver::compiler_entrypoint(&args, &mut Cb));
    code
}
