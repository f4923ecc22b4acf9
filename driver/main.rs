//! MIR dumper: a rustc driver that serialises the type-checked program (ADTs, impls, resolved MIR)
//! of the crate under analysis as JSON.  Nothing of the crate is executed.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_interface::interface;
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::{self, *};
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, GenericArgKind, Instance, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use std::collections::{BTreeMap, HashMap};
use std::fmt::Write as _;

enum J {
    Null,
    B(bool),
    I(i128),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
    M(Vec<(String, J)>),
}
fn esc(s: &str, o: &mut String) {
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 || (c as u32) > 126 => {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) {
                    let _ = write!(o, "\\u{:04x}", u);
                }
            }
            c => o.push(c),
        }
    }
    o.push('"');
}
impl J {
    fn w(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::I(i) => {
                let _ = write!(o, "{i}");
            }
            J::S(s) => esc(s, o),
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',')
                    }
                    x.w(o)
                }
                o.push(']')
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',')
                    }
                    esc(k, o);
                    o.push(':');
                    x.w(o)
                }
                o.push('}')
            }
            J::M(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',')
                    }
                    esc(k, o);
                    o.push(':');
                    x.w(o)
                }
                o.push('}')
            }
        }
    }
}
fn s(x: impl Into<String>) -> J {
    J::S(x.into())
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<J>,
    tymap: HashMap<Ty<'tcx>, usize>,
    adts: BTreeMap<String, J>,
    adt_todo: Vec<DefId>,
    names: HashMap<DefId, String>,
    used: HashMap<String, DefId>,
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        with_no_trimmed_paths!(self.tcx.def_path_str(d))
    }
    /// unique name of a definition of the crate under analysis
    fn name(&mut self, d: DefId) -> String {
        if let Some(n) = self.names.get(&d) {
            return n.clone();
        }
        let mut n = self.path(d);
        if d.is_local() {
            let mut k = 1;
            let base = n.clone();
            while let Some(o) = self.used.get(&n) {
                if *o == d {
                    break;
                }
                k += 1;
                n = format!("{base}@{k}");
            }
            self.used.insert(n.clone(), d);
        }
        self.names.insert(d, n.clone());
        n
    }
    fn span(&self, sp: Span) -> J {
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let loc = sm.lookup_char_pos(sp.lo());
        let f = format!("{}", loc.file.name.prefer_remapped_unconditionally());
        J::S(format!("{}:{}", f, loc.line))
    }
    fn args(&mut self, a: ty::GenericArgsRef<'tcx>) -> J {
        let mut v = vec![];
        for g in a.iter() {
            match g.kind() {
                GenericArgKind::Type(t) => v.push(self.ty(t)),
                GenericArgKind::Const(c) => v.push(s(format!("{c}"))),
                GenericArgKind::Lifetime(_) => {}
                #[allow(unreachable_patterns)]
                _ => {}
            }
        }
        J::A(v)
    }
    fn ty(&mut self, t: Ty<'tcx>) -> J {
        if let Some(i) = self.tymap.get(&t) {
            return J::I(*i as i128);
        }
        let i = self.types.len();
        self.types.push(J::Null);
        self.tymap.insert(t, i);
        let j = match *t.kind() {
            ty::Bool => J::O(vec![("k", s("bool"))]),
            ty::Char => J::O(vec![("k", s("char"))]),
            ty::Str => J::O(vec![("k", s("str"))]),
            ty::Never => J::O(vec![("k", s("never"))]),
            ty::Int(_) | ty::Uint(_) => J::O(vec![("k", s("int")), ("n", s(format!("{t}")))]),
            ty::Float(_) => J::O(vec![("k", s("float")), ("n", s(format!("{t}")))]),
            ty::Adt(d, a) => {
                self.adt_todo.push(d.did());
                let n = self.name(d.did());
                let a = self.args(a);
                J::O(vec![("k", s("adt")), ("p", s(n)), ("a", a)])
            }
            ty::Ref(_, t, m) => {
                let t = self.ty(t);
                J::O(vec![("k", s("ref")), ("m", J::B(m.is_mut())), ("t", t)])
            }
            ty::RawPtr(t, m) => {
                let t = self.ty(t);
                J::O(vec![("k", s("ptr")), ("m", J::B(m.is_mut())), ("t", t)])
            }
            ty::Slice(t) => {
                let t = self.ty(t);
                J::O(vec![("k", s("slice")), ("t", t)])
            }
            ty::Array(t, n) => {
                let t = self.ty(t);
                J::O(vec![("k", s("array")), ("t", t), ("n", s(format!("{n}")))])
            }
            ty::Tuple(ts) => {
                let v = ts.iter().map(|t| self.ty(t)).collect();
                J::O(vec![("k", s("tuple")), ("a", J::A(v))])
            }
            ty::Closure(d, a) => {
                let n = self.name(d);
                let ups = a.as_closure().upvar_tys().iter().map(|t| self.ty(t)).collect();
                let kind = format!("{:?}", a.as_closure().kind());
                let par = a.as_closure().parent_args();
                let mut v = vec![];
                for g in par.iter() {
                    if let GenericArgKind::Type(t) = g.kind() {
                        v.push(self.ty(t))
                    }
                }
                J::O(vec![("k", s("closure")), ("p", s(n)), ("up", J::A(ups)), ("kind", s(kind)), ("a", J::A(v))])
            }
            ty::FnDef(d, a) => {
                let n = self.name(d);
                let a = self.args(a.no_bound_vars().unwrap());
                J::O(vec![("k", s("fndef")), ("p", s(n)), ("a", a)])
            }
            ty::Param(p) => J::O(vec![("k", s("param")), ("n", s(p.name.to_string()))]),
            ty::Dynamic(..) => J::O(vec![("k", s("dyn")), ("n", s(with_no_trimmed_paths!(format!("{t}"))))]),
            _ => J::O(vec![("k", s("other")), ("n", s(with_no_trimmed_paths!(format!("{t}"))))]),
        };
        self.types[i] = j;
        J::I(i as i128)
    }
    fn place(&mut self, body: &Body<'tcx>, p: &Place<'tcx>) -> J {
        let mut v = vec![];
        let mut pty = mir::PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            let nty = pty.projection_ty(self.tcx, e);
            let j = match e {
                ProjectionElem::Deref => J::A(vec![s("*")]),
                ProjectionElem::Field(f, _) => J::A(vec![s("f"), J::I(f.index() as i128)]),
                ProjectionElem::Downcast(_, i) => J::A(vec![s("v"), J::I(i.index() as i128)]),
                ProjectionElem::Index(l) => J::A(vec![s("i"), J::I(l.index() as i128)]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    J::A(vec![s("ci"), J::I(offset as i128), J::B(from_end), J::I(min_length as i128)])
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    J::A(vec![s("ss"), J::I(from as i128), J::I(to as i128), J::B(from_end)])
                }
                _ => J::A(vec![s("?")]),
            };
            v.push(j);
            pty = nty;
        }
        J::A(vec![J::I(p.local.index() as i128), J::A(v)])
    }
    fn konst(&mut self, owner: DefId, c: &ConstOperand<'tcx>) -> J {
        let tcx = self.tcx;
        let t = c.const_.ty();
        let tj = self.ty(t);
        if let ty::FnDef(d, a) = *t.kind() {
            let a0 = a.no_bound_vars().unwrap();
            let n = self.name(d);
            let aj = self.args(a0);
            let mut o = vec![("fn", s(n)), ("args", aj), ("local", J::B(d.is_local())), ("t", tj)];
            if let Some(tr) = tcx.trait_of_assoc(d) {
                o.push(("trait", s(self.path(tr))));
                o.push(("method", s(tcx.item_name(d).to_string())));
            } else if let Some(im) = tcx.impl_of_assoc(d) {
                o.push(("method", s(tcx.item_name(d).to_string())));
                let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                let st = self.ty(st);
                o.push(("self", st));
            }
            // resolve
            let env = TypingEnv::post_analysis(tcx, owner);
            if let Ok(Some(inst)) = Instance::try_resolve(tcx, env, d, a0) {
                let rd = inst.def_id();
                let rn = self.name(rd);
                let ra = self.args(inst.args);
                o.push(("rfn", s(rn)));
                o.push(("rargs", ra));
                o.push(("rlocal", J::B(rd.is_local())));
                let kind = format!("{:?}", inst.def);
                o.push(("rkind", s(kind.split('(').next().unwrap().to_string())));
            }
            return J::O(o);
        }
        let mut o: Vec<(&'static str, J)> = vec![("t", tj)];
        let env = TypingEnv::post_analysis(tcx, owner);
        if let Const::Unevaluated(u, _) = c.const_ {
            if let Some(p) = u.promoted {
                let n = self.name(u.def);
                o.push(("promoted", J::I(p.index() as i128)));
                o.push(("of", s(n)));
                return J::O(o);
            }
            let n = self.name(u.def);
            o.push(("named", s(n)));
        }
        match c.const_.eval(tcx, env, c.span) {
            Ok(v) => self.cval(v, t, &mut o),
            Err(_) => {
                o.push(("generic", s(format!("{:?}", c.const_))));
            }
        }
        J::O(o)
    }
    fn bytes(&self, id: rustc_middle::mir::interpret::AllocId, off: usize, len: usize) -> Option<Vec<u8>> {
        match self.tcx.global_alloc(id) {
            GlobalAlloc::Memory(m) => {
                let m = m.inner();
                if off + len > m.len() {
                    return None;
                }
                Some(m.inspect_with_uninit_and_ptr_outside_interpreter(off..off + len).to_vec())
            }
            _ => None,
        }
    }
    fn cval(&mut self, v: ConstValue, t: Ty<'tcx>, o: &mut Vec<(&'static str, J)>) {
        match v {
            ConstValue::ZeroSized => o.push(("zst", J::B(true))),
            ConstValue::Scalar(Scalar::Int(i)) => match t.kind() {
                ty::Char => o.push(("char", J::I(i.to_uint(i.size()) as i128))),
                ty::Bool => o.push(("bool", J::B(i.to_uint(i.size()) != 0))),
                ty::Int(_) => o.push(("int", J::I(i.to_int(i.size())))),
                ty::Uint(_) => o.push(("int", J::I(i.to_uint(i.size()) as i128))),
                _ => o.push(("scalar", J::I(i.to_uint(i.size()) as i128))),
            },
            ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                let (prov, off) = p.prov_and_relative_offset();
                let id = prov.alloc_id();
                match self.tcx.global_alloc(id) {
                    GlobalAlloc::Static(d) => {
                        let n = self.name(d);
                        o.push(("static", s(n)));
                    }
                    GlobalAlloc::Memory(m) => {
                        let l = m.inner().len() - off.bytes() as usize;
                        if m.inner().provenance().ptrs().is_empty() {
                            if let Some(b) = self.bytes(id, off.bytes() as usize, l) {
                                o.push(("bytes", J::A(b.into_iter().map(|x| J::I(x as i128)).collect())))
                            }
                        } else {
                            o.push(("mem", J::B(true)))
                        }
                    }
                    _ => o.push(("ptr", J::B(true))),
                }
            }
            ConstValue::Slice { alloc_id, meta } => {
                if let Some(b) = self.bytes(alloc_id, 0, meta as usize) {
                    match String::from_utf8(b.clone()) {
                        Ok(x) => o.push(("str", s(x))),
                        Err(_) => o.push(("bytes", J::A(b.into_iter().map(|x| J::I(x as i128)).collect()))),
                    }
                }
            }
            ConstValue::Indirect { .. } => o.push(("indirect", s(format!("{t}")))),
        }
    }
    fn operand(&mut self, owner: DefId, body: &Body<'tcx>, op: &Operand<'tcx>) -> J {
        match op {
            Operand::Copy(p) => J::A(vec![s("c"), self.place(body, p)]),
            Operand::Move(p) => J::A(vec![s("m"), self.place(body, p)]),
            Operand::Constant(c) => J::A(vec![s("k"), self.konst(owner, c)]),
            #[allow(unreachable_patterns)]
            _ => J::A(vec![s("k"), J::O(vec![("other", s(format!("{op:?}")))])]),
        }
    }
    fn rvalue(&mut self, owner: DefId, body: &Body<'tcx>, r: &Rvalue<'tcx>) -> J {
        match r {
            Rvalue::Use(o, ..) => J::A(vec![s("use"), self.operand(owner, body, o)]),
            Rvalue::Repeat(o, n) => J::A(vec![s("repeat"), self.operand(owner, body, o), s(format!("{n}"))]),
            Rvalue::Ref(_, k, p) => {
                J::A(vec![s("ref"), J::B(matches!(k, BorrowKind::Mut { .. })), self.place(body, p)])
            }
            Rvalue::RawPtr(_, p) => J::A(vec![s("rawptr"), self.place(body, p)]),
            Rvalue::Reborrow(_, _, p) => J::A(vec![s("use"), J::A(vec![s("c"), self.place(body, p)])]),
            Rvalue::CopyForDeref(p) => J::A(vec![s("use"), J::A(vec![s("c"), self.place(body, p)])]),
            Rvalue::Cast(k, o, t) => {
                let o = self.operand(owner, body, o);
                let t = self.ty(*t);
                J::A(vec![s("cast"), s(format!("{k:?}")), o, t])
            }
            Rvalue::BinaryOp(b, x) => J::A(vec![
                s("bin"),
                s(format!("{b:?}")),
                self.operand(owner, body, &x.0),
                self.operand(owner, body, &x.1),
            ]),
            Rvalue::UnaryOp(b, x) => J::A(vec![s("un"), s(format!("{b:?}")), self.operand(owner, body, x)]),
            Rvalue::Discriminant(p) => J::A(vec![s("discr"), self.place(body, p)]),
            Rvalue::ThreadLocalRef(d) => {
                let n = self.name(*d);
                J::A(vec![s("tls"), s(n)])
            }
            Rvalue::Aggregate(k, ops) => {
                let ops = ops.iter().map(|o| self.operand(owner, body, o)).collect();
                let kj = match &**k {
                    AggregateKind::Tuple => J::O(vec![("k", s("tuple"))]),
                    AggregateKind::Array(t) => {
                        let t = self.ty(*t);
                        J::O(vec![("k", s("array")), ("t", t)])
                    }
                    AggregateKind::Adt(d, v, a, _, _) => {
                        let n = self.name(*d);
                        let a = self.args(*a);
                        J::O(vec![("k", s("adt")), ("p", s(n)), ("v", J::I(v.index() as i128)), ("a", a)])
                    }
                    AggregateKind::Closure(d, a) => {
                        let n = self.name(*d);
                        let t = Ty::new_closure(self.tcx, *d, *a);
                        let t = self.ty(t);
                        J::O(vec![("k", s("closure")), ("p", s(n)), ("t", t)])
                    }
                    other => J::O(vec![("k", s("other")), ("n", s(format!("{other:?}")))]),
                };
                J::A(vec![s("agg"), kj, J::A(ops)])
            }
            other => J::A(vec![s("other"), s(format!("{other:?}"))]),
        }
    }
    fn body(&mut self, owner: DefId, body: &Body<'tcx>) -> J {
        let locals: Vec<J> = body.local_decls.iter().map(|l| self.ty(l.ty)).collect();
        let mut names = vec![];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                let pj = self.place(body, p);
                names.push(J::A(vec![s(v.name.to_string()), pj]));
            }
        }
        let mut blocks = vec![];
        for bb in body.basic_blocks.iter() {
            let mut st = vec![];
            for x in &bb.statements {
                let sp = self.span(x.source_info.span);
                match &x.kind {
                    StatementKind::Assign(b) => {
                        let p = self.place(body, &b.0);
                        let r = self.rvalue(owner, body, &b.1);
                        st.push(J::A(vec![s("="), p, r, sp]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(body, place);
                        st.push(J::A(vec![s("setdiscr"), p, J::I(variant_index.index() as i128), sp]));
                    }
                    StatementKind::Intrinsic(i) => st.push(J::A(vec![s("intrinsic"), s(format!("{i:?}")), sp])),
                    _ => {}
                }
            }
            let t = bb.terminator();
            let sp = self.span(t.source_info.span);
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => J::A(vec![s("goto"), J::I(target.index() as i128)]),
                TerminatorKind::FalseEdge { real_target, .. } | TerminatorKind::FalseUnwind { real_target, .. } => {
                    J::A(vec![s("goto"), J::I(real_target.index() as i128)])
                }
                TerminatorKind::SwitchInt { discr, targets } => {
                    let dty = discr.ty(&body.local_decls, self.tcx);
                    let d = self.operand(owner, body, discr);
                    let dt = self.ty(dty);
                    let v = targets
                        .iter()
                        .map(|(v, b)| J::A(vec![J::I(v as i128), J::I(b.index() as i128)]))
                        .collect();
                    J::A(vec![s("switch"), d, J::A(v), J::I(targets.otherwise().index() as i128), dt])
                }
                TerminatorKind::Return => J::A(vec![s("return")]),
                TerminatorKind::Unreachable => J::A(vec![s("unreachable")]),
                TerminatorKind::Drop { place, target, .. } => {
                    let dty = place.ty(&body.local_decls, self.tcx).ty;
                    let p = self.place(body, place);
                    let dt = self.ty(dty);
                    J::A(vec![s("drop"), p, J::I(target.index() as i128), dt])
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.operand(owner, body, func);
                    let a = args.iter().map(|x| self.operand(owner, body, &x.node)).collect();
                    let d = self.place(body, destination);
                    let dt = destination.ty(&body.local_decls, self.tcx).ty;
                    let dt = self.ty(dt);
                    J::A(vec![
                        s("call"),
                        f,
                        J::A(a),
                        d,
                        target.map(|b| J::I(b.index() as i128)).unwrap_or(J::Null),
                        dt,
                    ])
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let c = self.operand(owner, body, cond);
                    let kind = match &**msg {
                        AssertKind::Overflow(op, ..) => format!("overflow:{op:?}"),
                        AssertKind::OverflowNeg(..) => "overflow:Neg".into(),
                        AssertKind::BoundsCheck { .. } => "bounds".into(),
                        AssertKind::DivisionByZero(..) => "div".into(),
                        AssertKind::RemainderByZero(..) => "rem".into(),
                        o => format!("other:{o:?}"),
                    };
                    J::A(vec![s("assert"), c, J::B(*expected), s(kind), J::I(target.index() as i128)])
                }
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(..) => J::A(vec![s("resume")]),
                o => J::A(vec![s("other"), s(format!("{o:?}"))]),
            };
            blocks.push(J::O(vec![
                ("s", J::A(st)),
                ("t", tj),
                ("sp", sp),
                ("cleanup", J::B(bb.is_cleanup)),
            ]));
        }
        J::O(vec![
            ("locals", J::A(locals)),
            ("args", J::I(body.arg_count as i128)),
            ("names", J::A(names)),
            ("blocks", J::A(blocks)),
        ])
    }
    fn adt(&mut self, d: DefId) {
        let n = self.name(d);
        if self.adts.contains_key(&n) {
            return;
        }
        self.adts.insert(n.clone(), J::Null);
        let def = self.tcx.adt_def(d);
        let local = d.is_local();
        let mut vs = vec![];
        for (vi, v) in def.variants().iter_enumerated() {
            let discr = if def.is_enum() { def.discriminant_for_variant(self.tcx, vi).val as i128 } else { 0 };
            let mut fs = vec![];
            for f in v.fields.iter() {
                let t = self.tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                // only look into std types shallowly
                let tj = if local { self.ty(t) } else { J::Null };
                fs.push(J::O(vec![
                    ("n", s(f.name.to_string())),
                    ("t", tj),
                    ("pub", J::B(f.vis.is_public())),
                ]));
            }
            vs.push(J::O(vec![("n", s(v.name.to_string())), ("d", J::I(discr)), ("f", J::A(fs))]));
        }
        let gens: Vec<J> = self.type_params(d);
        let kind = if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" };
        let sp = self.span(self.tcx.def_span(d));
        let j = J::O(vec![
            ("kind", s(kind)),
            ("local", J::B(local)),
            ("generics", J::A(gens)),
            ("variants", J::A(vs)),
            ("span", sp),
            ("vis", J::B(self.tcx.visibility(d).is_public())),
        ]);
        self.adts.insert(n, j);
    }
    fn type_params(&self, d: DefId) -> Vec<J> {
        let g = self.tcx.generics_of(d);
        let mut v = vec![];
        for i in 0..g.count() {
            let p = g.param_at(i, self.tcx);
            match p.kind {
                ty::GenericParamDefKind::Lifetime => {}
                _ => v.push(s(p.name.to_string())),
            }
        }
        v
    }
}

fn dump(tcx: TyCtxt<'_>) {
    let mut cx = Cx {
        tcx,
        types: vec![],
        tymap: HashMap::new(),
        adts: BTreeMap::new(),
        adt_todo: vec![],
        names: HashMap::new(),
        used: HashMap::new(),
    };
    let mut fns: Vec<(String, J)> = vec![];
    let mut statics: Vec<J> = vec![];
    let mut keys: Vec<_> = tcx.mir_keys(()).iter().copied().collect();
    keys.sort_by_key(|d| tcx.def_span(d.to_def_id()).lo());
    for ld in keys {
        let d = ld.to_def_id();
        let kind = tcx.def_kind(d);
        let is_fn = matches!(kind, DefKind::Fn | DefKind::AssocFn | DefKind::Closure | DefKind::Ctor(..));
        let n = cx.name(d);
        if let DefKind::Static { mutability, .. } = kind {
            let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
            let tj = cx.ty(t);
            let freeze = t.is_freeze(tcx, TypingEnv::fully_monomorphized());
            let sp = cx.span(tcx.def_span(d));
            let tl = tcx.is_thread_local_static(d);
            statics.push(J::O(vec![
                ("name", s(n)),
                ("mut", J::B(mutability.is_mut())),
                ("freeze", J::B(freeze)),
                ("tls", J::B(tl)),
                ("t", tj),
                ("span", sp),
            ]));
            continue;
        }
        if !is_fn {
            // const item
            let b = tcx.mir_for_ctfe(d);
            let bj = cx.body(d, b);
            let sp = cx.span(tcx.def_span(d));
            fns.push((format!("const {n}"), J::O(vec![("kind", s("const")), ("body", bj), ("span", sp)])));
            continue;
        }
        let b = tcx.optimized_mir(d);
        let bj = cx.body(d, b);
        let proms: Vec<J> = tcx.promoted_mir(d).iter().map(|p| cx.body(d, p)).collect();
        let gens = cx.type_params(tcx.typeck_root_def_id(d));
        let sp = cx.span(tcx.def_span(d));
        let mut o = vec![
            ("kind", s(format!("{:?}", kind).split(['(', ' ', '{']).next().unwrap().to_string())),
            ("generics", J::A(gens)),
            ("body", bj),
            ("promoted", J::A(proms)),
            ("span", sp),
            ("vis", J::B(matches!(kind, DefKind::Fn | DefKind::AssocFn) && tcx.visibility(d).is_public())),
        ];
        let root = tcx.typeck_root_def_id(d);
        let derived = tcx.is_automatically_derived_or_in(root);
        o.push(("derived", J::B(derived)));
        if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
            let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip().skip_binder();
            o.push(("unsafe", J::B(!sig.fn_sig_kind.is_safe())));
            let v: Vec<J> = sig.inputs().iter().map(|t| cx.ty(*t)).collect();
            o.push(("inputs", J::A(v)));
            let t = cx.ty(sig.output());
            o.push(("output", t));
            o.push(("method", s(tcx.item_name(d).to_string())));
        }
        if kind == DefKind::AssocFn {
            if let Some(im) = tcx.impl_of_assoc(d) {
                let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                let st = cx.ty(st);
                o.push(("self", st));
                if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                    let tr = tr.instantiate_identity().skip_norm_wip();
                    o.push(("trait", s(cx.path(tr.def_id))));
                    let a = cx.args(tr.args);
                    o.push(("trargs", a));
                }
            }
        }
        fns.push((n, J::O(o)));
    }
    // all impls of the crate
    let mut impls = vec![];
    for d in tcx.hir_crate_items(()).definitions() {
        if tcx.def_kind(d) == (DefKind::Impl { of_trait: true }) {
            let tr = tcx.impl_trait_ref(d.to_def_id()).instantiate_identity().skip_norm_wip();
            let a = cx.args(tr.args);
            let sp = cx.span(tcx.def_span(d.to_def_id()));
            impls.push(J::O(vec![
                ("trait", s(cx.path(tr.def_id))),
                ("args", a),
                ("derived", J::B(tcx.is_automatically_derived(d.to_def_id()))),
                ("span", sp),
            ]));
        }
        if matches!(tcx.def_kind(d), DefKind::Struct | DefKind::Enum | DefKind::Union) {
            cx.adt_todo.push(d.to_def_id());
        }
    }
    while let Some(d) = cx.adt_todo.pop() {
        cx.adt(d);
    }
    let feats: Vec<J> = vec![];
    let j = J::O(vec![
        ("crate", s(tcx.crate_name(LOCAL_CRATE).to_string())),
        ("features", J::A(feats)),
        ("types", J::A(std::mem::take(&mut cx.types))),
        ("adts", J::M(std::mem::take(&mut cx.adts).into_iter().collect())),
        ("impls", J::A(impls)),
        ("statics", J::A(statics)),
        ("fns", J::M(fns)),
    ]);
    let mut o = String::new();
    j.w(&mut o);
    let p = std::env::var("MIRDUMP_OUT").expect("MIRDUMP_OUT");
    std::fs::write(p, o).expect("write dump");
}

trait Derived {
    fn is_automatically_derived_or_in(&self, d: DefId) -> bool;
}
impl<'tcx> Derived for TyCtxt<'tcx> {
    fn is_automatically_derived_or_in(&self, d: DefId) -> bool {
        match self.impl_of_assoc(d) {
            Some(im) => self.is_automatically_derived(im),
            None => match self.opt_parent(d) {
                Some(p) if matches!(self.def_kind(p), DefKind::AssocFn) => self.is_automatically_derived_or_in(p),
                _ => false,
            },
        }
    }
}

struct Cb;
impl Callbacks for Cb {
    fn config(&mut self, c: &mut interface::Config) {
        c.opts.unstable_opts.mir_opt_level = Some(0);
    }
    fn after_analysis<'tcx>(&mut self, _c: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        if tcx.crate_name(LOCAL_CRATE).as_str() == std::env::var("MIRDUMP_CRATE").unwrap_or_default() {
            dump(tcx);
        }
        Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // cargo passes the real rustc as the first argument of the wrapper
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].ends_with("rustc.exe")) {
        args.remove(1);
    }
    args.push("-Cpanic=abort".into());
    args.push("-Zmir-opt-level=0".into());
    args.push("-Zub-checks=no".into());
    args.push("-Cdebug-assertions=on".into());
    args.push("-Coverflow-checks=on".into());
    rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Cb))
}
