//! A rustc driver that writes the resolved program (types, ADTs, MIR of every
//! body, resolved callees) of the crate being compiled as one JSON file.
#![feature(rustc_private)]
#![allow(rustc::potential_query_instability)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::{self, *};
use rustc_middle::ty::{self, GenericArgsRef, Ty, TyCtxt};
use std::collections::BTreeMap;
use std::fmt::Write as _;

#[derive(Clone)]
enum J {
    N,
    B(bool),
    I(i128),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
}
fn s(x: impl ToString) -> J {
    J::S(x.to_string())
}
impl J {
    fn w(&self, o: &mut String) {
        match self {
            J::N => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::I(i) => {
                let _ = write!(o, "{}", i);
            }
            J::S(t) => {
                o.push('"');
                for c in t.chars() {
                    match c {
                        '"' => o.push_str("\\\""),
                        '\\' => o.push_str("\\\\"),
                        '\n' => o.push_str("\\n"),
                        c if (c as u32) < 32 => {
                            let _ = write!(o, "\\u{:04x}", c as u32);
                        }
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',')
                    }
                    x.w(o);
                }
                o.push(']');
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',')
                    }
                    let _ = write!(o, "\"{}\":", k);
                    x.w(o);
                }
                o.push('}');
            }
        }
    }
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: Vec<J>,
    tymap: BTreeMap<String, usize>,
    adts: BTreeMap<String, J>,
    adt_todo: Vec<DefId>,
}

impl<'tcx> Cx<'tcx> {
    /// A readable name: `module::Type::method`, `<module::Type as Trait>::method`,
    /// closures numbered below their parent. Foreign items use their visible path.
    fn qual(&self, d: DefId) -> String {
        let tcx = self.tcx;
        let name = |d: DefId| tcx.opt_item_name(d).map(|x| x.to_string()).unwrap_or_else(|| format!("{{{:?}}}", tcx.def_kind(d)));
        match tcx.def_kind(d) {
            DefKind::Closure => {
                let p = tcx.parent(d);
                let dis = tcx.def_key(d).disambiguated_data.disambiguator;
                return format!("{}::{{closure#{}}}", self.qual(p), dis);
            }
            DefKind::AssocFn | DefKind::AssocConst { .. } | DefKind::AssocTy => {
                let p = tcx.parent(d);
                match tcx.def_kind(p) {
                    DefKind::Impl { of_trait } => {
                        let st = tcx.type_of(p).instantiate_identity().skip_norm_wip();
                        let sn = self.tyname(st);
                        if of_trait {
                            let tr = tcx.impl_trait_ref(p).instantiate_identity().skip_norm_wip();
                            let mut trs = self.path(tr.def_id);
                            let extra: Vec<String> = tr.args.types().skip(1).map(|t| self.tyname(t)).collect();
                            if !extra.is_empty() {
                                trs = format!("{}<{}>", trs, extra.join(","));
                            }
                            return format!("<{} as {}>::{}", sn, trs, name(d));
                        }
                        return format!("{}::{}", sn, name(d));
                    }
                    _ => return format!("{}::{}", self.path(p), name(d)),
                }
            }
            _ => {}
        }
        self.path(d)
    }
    fn path(&self, d: DefId) -> String {
        rustc_middle::ty::print::with_no_trimmed_paths!(self.tcx.def_path_str(d))
            .split('<')
            .next()
            .unwrap()
            .to_string()
    }
    fn tyname(&self, t: Ty<'tcx>) -> String {
        match t.kind() {
            ty::Adt(a, _) => self.path(a.did()),
            ty::Ref(_, t, _) => format!("&{}", self.tyname(*t)),
            ty::Dynamic(p, ..) => match p.principal_def_id() {
                Some(d) => format!("dyn {}", self.path(d)),
                None => "dyn".into(),
            },
            ty::Slice(t) => format!("[{}]", self.tyname(*t)),
            _ => rustc_middle::ty::print::with_no_trimmed_paths!(t.to_string()),
        }
    }
    fn adt(&mut self, d: DefId) {
        self.adt_todo.push(d);
    }
    fn flush_adts(&mut self) {
        while let Some(d) = self.adt_todo.pop() {
            let p = self.path(d);
            if self.adts.contains_key(&p) {
                continue;
            }
            self.adts.insert(p.clone(), J::N);
            let a = self.tcx.adt_def(d);
            let vs = a
                .variants()
                .iter_enumerated()
                .map(|(vi, v)| {
                    let disc = if a.is_enum() { a.discriminant_for_variant(self.tcx, vi).val as i128 } else { 0 };
                    J::O(vec![
                        ("name", s(v.name)),
                        ("discr", J::I(disc)),
                        ("fields", J::A(v.fields.iter().map(|f| {
                            let fty = if d.is_local() { let t = self.tcx.type_of(f.did).instantiate_identity().skip_norm_wip(); self.ty(t) } else { J::N };
                            J::O(vec![("name", s(f.name)), ("vis", s(format!("{:?}", f.vis))), ("public", J::B(f.vis.is_public())), ("ty", fty)])
                        }).collect())),
                    ])
                })
                .collect();
            let span = if d.is_local() { s(self.span(self.tcx.def_span(d))) } else { J::N };
            let public = J::B(d.as_local().map_or(true, |l| self.tcx.effective_visibilities(()).is_reachable(l)));
            let j = J::O(vec![
                ("kind", s(if a.is_enum() { "enum" } else if a.is_union() { "union" } else { "struct" })),
                ("local", J::B(d.is_local())),
                ("public", public),
                ("span", span),
                ("variants", J::A(vs)),
            ]);
            self.adts.insert(p, j);
        }
    }
    fn span(&self, sp: rustc_span::Span) -> String {
        let sm = self.tcx.sess.source_map();
        let sp = sp.source_callsite();
        let lo = sm.lookup_char_pos(sp.lo());
        let f = match &lo.file.name {
            rustc_span::FileName::Real(r) => r.local_path().map(|p| p.display().to_string()).unwrap_or_default(),
            o => format!("{:?}", o),
        };
        format!("{}:{}", f, lo.line)
    }
    fn args(&mut self, a: GenericArgsRef<'tcx>) -> J {
        J::A(a.iter().filter_map(|g| g.as_type()).map(|t| self.ty(t)).collect())
    }
    fn ty(&mut self, t: Ty<'tcx>) -> J {
        let key = rustc_middle::ty::print::with_no_trimmed_paths!(format!("{:?}", t));
        if let Some(i) = self.tymap.get(&key) {
            return J::I(*i as i128);
        }
        let id = self.tys.len();
        self.tymap.insert(key.clone(), id);
        self.tys.push(J::N);
        let j = match t.kind() {
            ty::Adt(a, args) => {
                self.adt(a.did());
                J::O(vec![("k", s("adt")), ("def", s(self.path(a.did()))), ("args", self.args(args))])
            }
            ty::Ref(_, i, m) => J::O(vec![("k", s("ref")), ("mut", J::B(m.is_mut())), ("of", self.ty(*i))]),
            ty::RawPtr(i, m) => J::O(vec![("k", s("ptr")), ("mut", J::B(m.is_mut())), ("of", self.ty(*i))]),
            ty::Param(p) => J::O(vec![("k", s("param")), ("name", s(p.name))]),
            ty::Tuple(ts) => J::O(vec![("k", s("tuple")), ("of", J::A(ts.iter().map(|t| self.ty(t)).collect()))]),
            ty::Closure(d, args) => J::O(vec![
                ("k", s("closure")),
                ("def", s(self.qual(*d))),
                ("ckind", s(format!("{:?}", args.as_closure().kind()))),
                ("upvars", J::A(args.as_closure().upvar_tys().iter().map(|t| self.ty(t)).collect())),
            ]),
            ty::FnDef(d, args) => J::O(vec![("k", s("fndef")), ("def", s(self.qual(*d))), ("args", { let a = (*args).no_bound_vars(); match a { Some(a) => self.args(a), None => J::A(vec![]) } })]),
            ty::Slice(i) => J::O(vec![("k", s("slice")), ("of", self.ty(*i))]),
            ty::Array(i, _) => J::O(vec![("k", s("array")), ("of", self.ty(*i))]),
            ty::Never => J::O(vec![("k", s("never"))]),
            ty::Alias(_, al) => {
                let def = match al.kind {
                    ty::AliasTyKind::Projection { def_id } => Some(self.path(def_id.into())),
                    _ => None,
                };
                let args = self.args(al.args);
                J::O(vec![("k", s("alias")), ("str", s(&key)), ("proj", def.map_or(J::N, s)), ("args", args)])
            }
            ty::Dynamic(..) => J::O(vec![("k", s("dyn")), ("str", s(self.tyname(t)))]),
            _ => J::O(vec![("k", s("other")), ("str", s(&key))]),
        };
        self.tys[id] = j;
        J::I(id as i128)
    }

    fn place(&mut self, p: &Place<'tcx>) -> J {
        let mut v = vec![];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => s("*"),
                ProjectionElem::Field(f, t) => J::A(vec![s("f"), J::I(f.index() as i128), self.ty(t)]),
                ProjectionElem::Index(l) => J::A(vec![s("i"), J::I(l.index() as i128)]),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => J::A(vec![s("ci"), J::I(offset as i128), J::B(from_end)]),
                ProjectionElem::Subslice { from, to, from_end } => J::A(vec![s("ss"), J::I(from as i128), J::I(to as i128), J::B(from_end)]),
                ProjectionElem::Downcast(n, vi) => J::A(vec![s("d"), J::I(vi.index() as i128), s(n.map(|x| x.to_string()).unwrap_or_default())]),
                _ => s("other"),
            });
        }
        J::A(vec![J::I(p.local.index() as i128), J::A(v)])
    }
    fn fndef(&mut self, body: DefId, d: DefId, args: GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let mut o = vec![("fn", s(self.qual(d))), ("args", self.args(args)), ("local", J::B(d.is_local()))];
        if let Some(t) = tcx.trait_of_assoc(d) {
            o.push(("trait", s(self.path(t))));
        }
        if let DefKind::Ctor(..) = tcx.def_kind(d) {
            let v = tcx.parent(d);
            let (a, vi) = match tcx.def_kind(v) {
                DefKind::Variant => { let a = tcx.parent(v); (a, tcx.adt_def(a).variant_index_with_id(v).index()) }
                _ => (v, 0),
            };
            self.adt(a);
            o.push(("ctor", J::A(vec![s(self.path(a)), J::I(vi as i128)])));
        }
        let env = ty::TypingEnv::post_analysis(tcx, body);
        if let Ok(Some(i)) = ty::Instance::try_resolve(tcx, env, d, args) {
            if let ty::InstanceKind::Item(r) = i.def {
                o.push(("res", s(self.qual(r))));
                o.push(("rlocal", J::B(r.is_local())));
                o.push(("rargs", self.args(i.args)));
            }
        }
        if !d.is_local() {
            // the traits a function of another crate asks of what it is instantiated with
            let mut bs: Vec<String> = vec![];
            for c in self.tcx.param_env(d).caller_bounds() {
                if let Some(t) = c.as_trait_clause() {
                    let n = self.qual(t.def_id());
                    if !bs.contains(&n) { bs.push(n); }
                }
            }
            o.push(("bounds", J::A(bs.into_iter().map(s).collect())));
        }
        J::O(o)
    }
    fn cons(&mut self, body: DefId, c: &ConstOperand<'tcx>) -> J {
        let t = c.const_.ty();
        if let ty::FnDef(d, args) = t.kind() {
            let args = match (*args).no_bound_vars() { Some(a) => a, None => ty::List::empty() };
            let f = self.fndef(body, *d, args);
            return J::O(vec![("fndef", f), ("ty", self.ty(t))]);
        }
        let mut o = vec![("ty", self.ty(t))];
        if let mir::Const::Unevaluated(u, _) = c.const_ {
            if let Some(p) = u.promoted {
                o.push(("promoted", s(format!("{}#promoted{}", self.qual(u.def), p.index()))));
                return J::O(o);
            }
            o.push(("named", s(self.qual(u.def))));
        }
        let env = ty::TypingEnv::post_analysis(self.tcx, body);
        if let Some(si) = c.const_.try_eval_scalar_int(self.tcx, env) {
            let v = si.to_bits(si.size());
            let v = match t.kind() {
                ty::Int(_) => si.to_int(si.size()),
                _ => v as i128,
            };
            o.push(("int", J::I(v)));
        }
        o.push(("str", s(rustc_middle::ty::print::with_no_trimmed_paths!(format!("{}", c.const_)))));
        J::O(o)
    }
    fn op(&mut self, body: DefId, x: &Operand<'tcx>) -> J {
        match x {
            Operand::Copy(p) => J::A(vec![s("c"), self.place(p)]),
            Operand::Move(p) => J::A(vec![s("m"), self.place(p)]),
            Operand::Constant(c) => J::A(vec![s("k"), self.cons(body, c)]),
            Operand::RuntimeChecks(_) => J::A(vec![s("k"), J::O(vec![("int", J::I(1)), ("str", s("runtime-check"))])]),
        }
    }
    fn rv(&mut self, b: DefId, r: &Rvalue<'tcx>) -> J {
        match r {
            Rvalue::Use(o, _) => J::A(vec![s("use"), self.op(b, o)]),
            Rvalue::Ref(_, k, p) => J::A(vec![s("ref"), J::B(matches!(k, BorrowKind::Mut { .. })), self.place(p)]),
            Rvalue::RawPtr(_, p) => J::A(vec![s("addr"), self.place(p)]),
            Rvalue::Reborrow(_, m, p) => J::A(vec![s("ref"), J::B(m.is_mut()), self.place(p)]),
            Rvalue::CopyForDeref(p) => { let p = self.place(p); J::A(vec![s("use"), J::A(vec![s("c"), p])]) }
            Rvalue::Cast(k, o, t) => J::A(vec![s("cast"), s(format!("{:?}", k)), self.op(b, o), self.ty(*t)]),
            Rvalue::BinaryOp(o, x) => J::A(vec![s("bin"), s(format!("{:?}", o)), self.op(b, &x.0), self.op(b, &x.1)]),
            Rvalue::UnaryOp(o, x) => J::A(vec![s("un"), s(format!("{:?}", o)), self.op(b, x)]),
            Rvalue::Discriminant(p) => J::A(vec![s("discr"), self.place(p)]),
            Rvalue::Repeat(o, _) => J::A(vec![s("repeat"), self.op(b, o)]),
            Rvalue::Aggregate(k, fs) => {
                let fs = J::A(fs.iter().map(|f| self.op(b, f)).collect());
                let k = match &**k {
                    AggregateKind::Array(_) => J::A(vec![s("array")]),
                    AggregateKind::Tuple => J::A(vec![s("tuple")]),
                    AggregateKind::Adt(d, v, args, _, _) => {
                        self.adt(*d);
                        J::A(vec![s("adt"), s(self.path(*d)), J::I(v.index() as i128), self.args(args)])
                    }
                    AggregateKind::Closure(d, _) => J::A(vec![s("closure"), s(self.qual(*d))]),
                    _ => J::A(vec![s("other")]),
                };
                J::A(vec![s("agg"), k, fs])
            }
            o => J::A(vec![s("other"), s(format!("{:?}", o))]),
        }
    }
    fn term(&mut self, b: DefId, body: &Body<'tcx>, t: &Terminator<'tcx>) -> J {
        let bb = |x: &BasicBlock| J::I(x.index() as i128);
        match &t.kind {
            TerminatorKind::Goto { target, .. } => J::O(vec![("k", s("goto")), ("t", bb(target))]),
            TerminatorKind::SwitchInt { discr, targets } => {
                let dt = discr.ty(&body.local_decls, self.tcx);
                J::O(vec![
                    ("k", s("switch")),
                    ("op", self.op(b, discr)),
                    ("ty", self.ty(dt)),
                    ("cases", J::A(targets.iter().map(|(v, t)| J::A(vec![J::I(v as i128), bb(&t)])).collect())),
                    ("otherwise", bb(&targets.otherwise())),
                ])
            }
            TerminatorKind::Return => J::O(vec![("k", s("return"))]),
            TerminatorKind::Unreachable => J::O(vec![("k", s("unreachable"))]),
            TerminatorKind::Drop { target, place, .. } => {
                let ty = place.ty(&body.local_decls, self.tcx).ty;
                J::O(vec![("k", s("drop")), ("place", self.place(place)), ("ty", self.ty(ty)), ("t", bb(target))])
            }
            TerminatorKind::Call { func, args, destination, target, .. } => J::O(vec![
                ("k", s("call")),
                ("func", self.op(b, func)),
                ("args", J::A(args.iter().map(|a| self.op(b, &a.node)).collect())),
                ("argtys", J::A(args.iter().map(|a| { let t = a.node.ty(&body.local_decls, self.tcx); self.ty(t) }).collect())),
                ("dest", self.place(destination)),
                ("dty", { let t = destination.ty(&body.local_decls, self.tcx).ty; self.ty(t) }),
                ("t", target.as_ref().map(bb).unwrap_or(J::N)),
            ]),
            TerminatorKind::Assert { cond, expected, msg, target, .. } => J::O(vec![
                ("k", s("assert")),
                ("cond", self.op(b, cond)),
                ("expected", J::B(*expected)),
                ("msg", s(match &**msg {
                    AssertKind::BoundsCheck { .. } => "bounds".to_string(),
                    AssertKind::Overflow(o, ..) => format!("overflow {:?}", o),
                    o => format!("{:?}", o).split('(').next().unwrap().to_string(),
                })),
                ("t", bb(target)),
            ]),
            TerminatorKind::FalseEdge { real_target, .. } => J::O(vec![("k", s("goto")), ("t", bb(real_target))]),
            TerminatorKind::FalseUnwind { real_target, .. } => J::O(vec![("k", s("goto")), ("t", bb(real_target))]),
            TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => J::O(vec![("k", s("resume"))]),
            o => J::O(vec![("k", s("other")), ("d", s(format!("{:?}", o)))]),
        }
    }
    fn body(&mut self, did: DefId, name: String, kind: &str, body: &Body<'tcx>) -> J {
        let tcx = self.tcx;
        let mut names: BTreeMap<usize, String> = BTreeMap::new();
        let mut upv = vec![];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.entry(p.local.index()).or_insert(v.name.to_string());
                } else {
                    upv.push(J::A(vec![s(v.name), self.place(&p)]));
                }
            }
        }
        let locals = body
            .local_decls
            .iter_enumerated()
            .map(|(l, d)| J::O(vec![("ty", self.ty(d.ty)), ("name", names.get(&l.index()).map(s).unwrap_or(J::N))]))
            .collect();
        let blocks = body
            .basic_blocks
            .iter()
            .map(|d| {
                let mut ss = vec![];
                for st in &d.statements {
                    match &st.kind {
                        StatementKind::Assign(x) => {
                            let p = self.place(&x.0);
                            let r = self.rv(did, &x.1);
                            let l = self.span(st.source_info.span);
                            ss.push(J::A(vec![s("="), p, r, s(l)]));
                        }
                        StatementKind::SetDiscriminant { place, variant_index } => {
                            let p = self.place(place);
                            ss.push(J::A(vec![s("sd"), p, J::I(variant_index.index() as i128)]));
                        }
                        StatementKind::StorageDead(l) => ss.push(J::A(vec![s("dead"), J::I(l.index() as i128)])),
                        StatementKind::Intrinsic(_) => ss.push(J::A(vec![s("intr")])),
                        _ => {}
                    }
                }
                let t = self.term(did, body, d.terminator());
                let l = self.span(d.terminator().source_info.span);
                J::O(vec![("cleanup", J::B(d.is_cleanup)), ("s", J::A(ss)), ("t", t), ("at", s(l))])
            })
            .collect();
        let mut o = vec![
            ("name", s(&name)),
            ("kind", s(kind)),
            ("span", s(self.span(tcx.def_span(did)))),
            ("nargs", J::I(body.arg_count as i128)),
            ("locals", J::A(locals)),
            ("upvars", J::A(upv)),
            ("blocks", J::A(blocks)),
        ];
        if let Some(l) = did.as_local() {
            let ev = tcx.effective_visibilities(());
            o.push(("reachable", J::B(ev.is_reachable(l))));
            o.push(("exported", J::B(ev.is_exported(l))));
        }
        if kind == "fn" {
            let sig = tcx.fn_sig(did).instantiate_identity().skip_norm_wip().skip_binder();
            o.push(("unsafe", J::B(!sig.safety().is_safe())));
            let g = tcx.generics_of(did);
            let mut gs = vec![];
            let mut cur = Some(g);
            let mut chain = vec![];
            while let Some(g) = cur {
                chain.push(g);
                cur = g.parent.map(|p| tcx.generics_of(p));
            }
            for g in chain.iter().rev() {
                for p in &g.own_params {
                    if let ty::GenericParamDefKind::Type { .. } = p.kind {
                        gs.push(s(p.name));
                    }
                }
            }
            o.push(("generics", J::A(gs)));
            o.push(("ret", self.ty(sig.output())));
            if let Some(imp) = tcx.impl_of_assoc(did) {
                let st = tcx.type_of(imp).instantiate_identity().skip_norm_wip();
                o.push(("self_ty", self.ty(st)));
                o.push(("self_name", s(self.tyname(st))));
                if let Some(tr) = tcx.impl_opt_trait_ref(imp) {
                    let tr = tr.instantiate_identity().skip_norm_wip();
                    o.push(("trait", s(self.path(tr.def_id))));
                    let ta: Vec<J> = tr.args.types().map(|t| self.ty(t)).collect();
                    o.push(("trait_args", J::A(ta)));
                }
                o.push(("derived", J::B(tcx.is_automatically_derived(imp))));
            }
            if let Some(tr) = tcx.trait_of_assoc(did) {
                o.push(("trait_default", s(self.path(tr))));
            }
        }
        J::O(o)
    }
}

/// Unsafe blocks written in the source.
struct Unsafes {
    found: Vec<(rustc_span::Span, bool)>,
}
impl<'v> rustc_hir::intravisit::Visitor<'v> for Unsafes {
    fn visit_block(&mut self, b: &'v rustc_hir::Block<'v>) {
        if let rustc_hir::BlockCheckMode::UnsafeBlock(_) = b.rules {
            let foreign = b.span.from_expansion() && b.span.macro_backtrace().all(|e| e.macro_def_id.map_or(true, |d| !d.is_local()));
            self.found.push((b.span, foreign));
        }
        rustc_hir::intravisit::walk_block(self, b);
    }
}

struct Cb;
impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let want = std::env::var("MIRX_CRATE").unwrap_or_else(|_| "bongo".into());
        let out = match std::env::var("MIRX_OUT") {
            Ok(o) => o,
            Err(_) => return Compilation::Continue,
        };
        if tcx.crate_name(LOCAL_CRATE).as_str() != want {
            return Compilation::Continue;
        }
        let mut cx = Cx { tcx, tys: vec![], tymap: BTreeMap::new(), adts: BTreeMap::new(), adt_todo: vec![] };
        let mut bodies = vec![];
        let mut impls = vec![];
        for ld in tcx.hir_crate_items(()).definitions() {
            let d = ld.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Struct | DefKind::Enum | DefKind::Union => cx.adt(d),
                DefKind::Impl { of_trait } => {
                    let st = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    let tr = if of_trait { s(cx.path(tcx.impl_trait_ref(d).instantiate_identity().skip_norm_wip().def_id)) } else { J::N };
                    let items = tcx.associated_items(d).in_definition_order().map(|i| s(i.name())).collect();
                    impls.push(J::O(vec![
                        ("self", s(cx.tyname(st))),
                        ("unsafe", J::B(of_trait && !tcx.impl_trait_header(d).safety.is_safe())),
                        ("trait", tr),
                        ("derived", J::B(tcx.is_automatically_derived(d))),
                        ("span", s(cx.span(tcx.def_span(d)))),
                        ("items", J::A(items)),
                    ]));
                }
                DefKind::Static { mutability, .. } => {
                    let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    let frz = t.is_freeze(tcx, ty::TypingEnv::post_analysis(tcx, d));
                    let tid = cx.ty(t);
                    impls.push(J::O(vec![
                        ("static", s(cx.qual(d))),
                        ("span", s(cx.span(tcx.def_span(d)))),
                        ("mut", J::B(mutability.is_mut())),
                        ("freeze", J::B(frz)),
                        ("thread_local", J::B(tcx.is_thread_local_static(d))),
                        ("ty", tid),
                    ]));
                }
                _ => {}
            }
        }
        for ld in tcx.mir_keys(()) {
            let d = ld.to_def_id();
            let kind = match tcx.def_kind(d) {
                DefKind::Fn | DefKind::AssocFn => "fn",
                DefKind::Closure => "closure",
                _ => continue,
            };
            if !tcx.is_mir_available(d) {
                continue;
            }
            let b = tcx.optimized_mir(d);
            let n = cx.qual(d);
            let j = cx.body(d, n.clone(), kind, b);
            bodies.push(j);
            for (i, p) in tcx.promoted_mir(d).iter_enumerated() {
                let j = cx.body(d, format!("{}#promoted{}", n, i.index()), "promoted", p);
                bodies.push(j);
            }
        }
        let mut unsafes = Unsafes { found: vec![] };
        for ld in tcx.hir_body_owners() {
            use rustc_hir::intravisit::Visitor as _;
            let b = tcx.hir_body_owned_by(ld);
            unsafes.visit_body(b);
        }
        let unsafes = J::A(unsafes.found.iter().map(|(sp, ext)| J::O(vec![("span", s(cx.span(*sp))), ("derived", J::B(*ext))])).collect());
        cx.flush_adts();
        let adts = J::A(cx.adts.iter().map(|(k, v)| J::A(vec![s(k), v.clone()])).collect());
        let j = J::O(vec![
            ("bodies", J::A(bodies)),
            ("adts", adts),
            ("impls", J::A(impls)),
            ("unsafe", unsafes),
            ("tys", J::A(std::mem::take(&mut cx.tys))),
        ]);
        let mut o = String::new();
        j.w(&mut o);
        std::fs::write(&out, o).expect("write MIRX_OUT");
        Compilation::Continue
    }
}

fn main() {
    let mut a: Vec<String> = std::env::args().collect();
    // Used as RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc.
    if a.len() > 1 && (a[1].ends_with("rustc") || a[1].contains("/rustc")) {
        a.remove(1);
    }
    a.push("-Zmir-opt-level=0".into());
    a.push("-Zalways-encode-mir".into());
    a.push("-Zmir-enable-passes=-CheckAlignment,-CheckNull,-CheckEnums".into());
    let code = rustc_driver::catch_with_exit_code(move || rustc_driver::compiler_entrypoint(&a, &mut Cb));
    std::process::exit(if format!("{:?}", code) == format!("{:?}", std::process::ExitCode::SUCCESS) { 0 } else { 1 });
}
