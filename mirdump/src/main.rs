//! mirdump: a rustc driver that compiles a crate exactly as cargo asks and, for the target crate, writes the
//! compiler's MIR of every function (plus ADT/impl/trait tables and the MIR of the small core helpers the crate
//! calls) as JSON.  It is the front end of the glmvc verifier: nothing is written by hand about the code.
//!
//! Used as RUSTC_WRAPPER: argv = mirdump <rustc> <args...>.  MIRDUMP_CRATE names the crate, MIRDUMP_OUT the file.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_middle::mir::{self, *};
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, GenericArgsRef, Ty, TyCtxt, TyKind};
use std::collections::{BTreeMap, HashSet, VecDeque};
use std::fmt::Write as _;

struct Cb;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr(v: Vec<String>) -> String {
    format!("[{}]", v.join(","))
}
fn obj(v: Vec<(&str, String)>) -> String {
    let mut o = String::from("{");
    for (i, (k, x)) in v.into_iter().enumerate() {
        if i > 0 {
            o.push(',');
        }
        let _ = write!(o, "{}:{}", esc(k), x);
    }
    o.push('}');
    o
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    adts: BTreeMap<String, String>,
    adt_seen: HashSet<DefId>,
    queue: VecDeque<DefId>,
    seen: HashSet<DefId>,
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, did: DefId) -> String {
        with_no_trimmed_paths!(self.tcx.def_path_str(did))
    }

    fn adt(&mut self, did: DefId) {
        if !self.adt_seen.insert(did) {
            return;
        }
        let def = self.tcx.adt_def(did);
        let mut vs = vec![];
        let fields_wanted = did.is_local() || def.is_enum();
        for (vi, v) in def.variants().iter_enumerated() {
            let discr = if def.is_enum() { def.discriminant_for_variant(self.tcx, vi).val.to_string() } else { "0".into() };
            let mut fs = vec![];
            for f in v.fields.iter() {
                let t = if fields_wanted {
                    let t = self.tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                    self.ty(t)
                } else {
                    "null".into()
                };
                fs.push(obj(vec![("name", esc(f.name.as_str())), ("ty", t)]));
            }
            vs.push(obj(vec![("name", esc(v.name.as_str())), ("discr", esc(&discr)), ("fields", arr(fs))]));
        }
        let k = if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" };
        let path = self.path(did);
        let generics = self.generics(did);
        let s = obj(vec![("kind", esc(k)), ("local", did.is_local().to_string()), ("generics", generics), ("variants", arr(vs))]);
        self.adts.insert(path, s);
    }

    fn generics(&self, did: DefId) -> String {
        let g = self.tcx.generics_of(did);
        let mut names = vec![];
        for i in 0..g.count() {
            let p = g.param_at(i, self.tcx);
            if !matches!(p.kind, ty::GenericParamDefKind::Lifetime) {
                names.push(esc(p.name.as_str()));
            }
        }
        arr(names)
    }

    fn args(&mut self, a: &[ty::GenericArg<'tcx>]) -> String {
        let mut v = vec![];
        for x in a.iter() {
            if let Some(t) = x.as_type() {
                v.push(self.ty(t));
            } else if let Some(c) = x.as_const() {
                v.push(self.cst(c));
            }
        }
        arr(v)
    }

    fn cst(&mut self, c: ty::Const<'tcx>) -> String {
        if let Some(v) = c.try_to_target_usize(self.tcx) {
            return obj(vec![("k", esc("const")), ("v", esc(&v.to_string()))]);
        }
        if let ty::ConstKind::Param(p) = c.kind() {
            return obj(vec![("k", esc("cparam")), ("name", esc(p.name.as_str()))]);
        }
        if let ty::ConstKind::Value(v) = c.kind() {
            if let Some(s) = v.try_to_leaf() {
                return obj(vec![("k", esc("const")), ("v", esc(&format!("{}", s.to_bits_unchecked())))]);
            }
        }
        obj(vec![("k", esc("constdbg")), ("v", esc(&format!("{c:?}")))])
    }

    fn ty(&mut self, t: Ty<'tcx>) -> String {
        let k = |s: &str| esc(s);
        match t.kind() {
            TyKind::Adt(d, a) => {
                self.adt(d.did());
                let p = self.path(d.did());
                let a = self.args(a);
                obj(vec![("k", k("adt")), ("d", esc(&p)), ("a", a)])
            }
            TyKind::Ref(_, t, m) => {
                let t = self.ty(*t);
                obj(vec![("k", k("ref")), ("m", m.is_mut().to_string()), ("t", t)])
            }
            TyKind::RawPtr(t, m) => {
                let t = self.ty(*t);
                obj(vec![("k", k("ptr")), ("m", m.is_mut().to_string()), ("t", t)])
            }
            TyKind::Param(p) => obj(vec![("k", k("param")), ("name", esc(p.name.as_str()))]),
            TyKind::Alias(_, al) => match al.kind {
                ty::AliasTyKind::Projection { def_id } => {
                    let did: DefId = def_id.into(); let d = self.path(did);
                    let a = self.args(al.args);
                    let n = self.tcx.item_name(did);
                    obj(vec![("k", k("proj")), ("d", esc(&d)), ("name", esc(n.as_str())), ("a", a)])
                }
                _ => obj(vec![("k", k("other")), ("s", esc(&format!("{t:?}")))]),
            },
            TyKind::Closure(d, a) => {
                self.enqueue(*d);
                let d = self.path(*d);
                let a = self.args(a.as_closure().parent_args());
                obj(vec![("k", k("closure")), ("d", esc(&d)), ("a", a)])
            }
            TyKind::FnDef(d, a) => {
                let d: DefId = (*d).into();
                let a = a.no_bound_vars().unwrap_or_else(|| ty::GenericArgs::empty());
                self.fnref(d, a, None)
            }
            TyKind::Tuple(ts) => {
                let v = ts.iter().map(|t| self.ty(t)).collect();
                obj(vec![("k", k("tuple")), ("a", arr(v))])
            }
            TyKind::Array(t, n) => {
                let t = self.ty(*t);
                let n = self.cst(*n);
                obj(vec![("k", k("array")), ("t", t), ("n", n)])
            }
            TyKind::Slice(t) => {
                let t = self.ty(*t);
                obj(vec![("k", k("slice")), ("t", t)])
            }
            TyKind::Dynamic(preds, _) => {
                let p = preds.principal_def_id().map(|d| self.path(d)).unwrap_or_default();
                obj(vec![("k", k("dyn")), ("d", esc(&p))])
            }
            TyKind::Bool | TyKind::Char | TyKind::Int(_) | TyKind::Uint(_) | TyKind::Float(_) | TyKind::Str | TyKind::Never => {
                obj(vec![("k", k("prim")), ("n", esc(&format!("{t}")))])
            }
            _ => obj(vec![("k", k("other")), ("s", esc(&with_no_trimmed_paths!(format!("{t:?}"))))]),
        }
    }

    /// A reference to a function item, with the impl it resolves to in the caller's environment if known.
    fn fnref(&mut self, d: DefId, a: GenericArgsRef<'tcx>, env: Option<ty::TypingEnv<'tcx>>) -> String {
        let mut v = vec![("k", esc("fn")), ("d", esc(&self.path(d))), ("a", self.args(a))];
        let nm = self.tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_default();
        v.push(("name", esc(&nm)));
        v.push(("crate", esc(self.tcx.crate_name(d.krate).as_str())));
        if let Some(tr) = self.tcx.trait_of_assoc(d) {
            v.push(("trait", esc(&self.path(tr))));
        } else if let Some(im) = self.tcx.impl_of_assoc(d) {
            let st = self.tcx.type_of(im).instantiate_identity().skip_norm_wip();
            let st = self.ty(st);
            v.push(("impl_self", st));
        }
        if let Some(env) = env {
            if self.tcx.trait_of_assoc(d).is_some() {
                if let Ok(Some(inst)) = ty::Instance::try_resolve(self.tcx, env, d, a) {
                    let rd = inst.def_id();
                    if rd != d {
                        let ra = self.args(inst.args);
                        v.push(("rd", esc(&self.path(rd))));
                        v.push(("ra", ra));
                        self.enqueue(rd);
                    }
                }
            }
        }
        self.enqueue(d);
        obj(v)
    }

    fn wanted(&self, d: DefId) -> bool {
        if d.is_local() {
            return true;
        }
        let krate = self.tcx.crate_name(d.krate);
        let p = self.path(d);
        match krate.as_str() {
            "core" | "std" | "alloc" => {
                let q = p.as_str();
                (q.contains("option::Option") || q.contains("result::Result") || q.contains("control_flow::ControlFlow")
                    || q.contains("ops::ControlFlow") || q.starts_with("core::bool") || q.contains("cmp::Ordering")
                    || q.contains("ops::Range") || q.contains("cmp::max") || q.contains("cmp::min")
                    || q.contains("std::mem::replace") || q.contains("std::mem::take") || q.contains("std::mem::swap")
                    || q.contains("<impl bool>") || q.contains("convert::identity"))
                    && !q.contains("fmt")
            }
            _ => false,
        }
    }

    fn enqueue(&mut self, d: DefId) {
        if self.seen.contains(&d) {
            return;
        }
        if !self.wanted(d) {
            return;
        }
        self.seen.insert(d);
        self.queue.push_back(d);
    }

    fn place(&mut self, p: &Place<'tcx>) -> String {
        let mut pr = vec![];
        for e in p.projection.iter() {
            pr.push(match e {
                ProjectionElem::Deref => "[\"*\"]".to_string(),
                ProjectionElem::Field(f, _) => format!("[\"f\",{}]", f.as_u32()),
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l.as_u32()),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => format!("[\"c\",{},{}]", offset, from_end),
                ProjectionElem::Downcast(_, v) => format!("[\"d\",{}]", v.as_u32()),
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"s\",{},{},{}]", from, to, from_end),
                o => format!("[\"o\",{}]", esc(&format!("{o:?}"))),
            });
        }
        format!("[{},{}]", p.local.as_u32(), arr(pr))
    }

    fn constant(&mut self, c: &mir::Const<'tcx>, owner: DefId, env: ty::TypingEnv<'tcx>) -> String {
        let t = c.ty();
        if let TyKind::FnDef(d, a) = t.kind() {
            let d: DefId = (*d).into();
            let a = a.no_bound_vars().unwrap_or_else(|| ty::GenericArgs::empty());
            return self.fnref(d, a, Some(env));
        }
        let ty = self.ty(t);
        match c {
            mir::Const::Unevaluated(u, _) => {
                let mut v = vec![("k", esc("uneval")), ("ty", ty), ("d", esc(&self.path(u.def))), ("a", self.args(u.args))];
                if let Some(p) = u.promoted {
                    v.push(("promoted", p.as_u32().to_string()));
                } else {
                    let n = self.tcx.opt_item_name(u.def).map(|s| s.to_string()).unwrap_or_default();
                    v.push(("name", esc(&n)));
                    if let Some(tr) = self.tcx.trait_of_assoc(u.def) {
                        v.push(("trait", esc(&self.path(tr))));
                    }
                    if u.def.is_local() {
                        self.enqueue(u.def);
                    }
                    if let Ok(val) = c.eval(self.tcx, env, rustc_span::DUMMY_SP) {
                        let s = self.constval(val, t);
                        v.push(("val", s));
                    }
                }
                let _ = owner;
                obj(v)
            }
            mir::Const::Ty(_, ct) => {
                let s = self.cst(*ct);
                obj(vec![("k", esc("tyconst")), ("ty", ty), ("c", s)])
            }
            mir::Const::Val(v, _) => {
                let s = self.constval(*v, t);
                obj(vec![("k", esc("val")), ("ty", ty), ("val", s)])
            }
        }
    }

    fn constval(&mut self, v: mir::ConstValue, t: Ty<'tcx>) -> String {
        match v {
            mir::ConstValue::ZeroSized => "{\"zst\":true}".into(),
            mir::ConstValue::Scalar(s) => match s {
                mir::interpret::Scalar::Int(i) => obj(vec![("int", esc(&i.to_bits_unchecked().to_string()))]),
                mir::interpret::Scalar::Ptr(p, _) => {
                    // pointer to constant memory: try to show small byte strings
                    let mut out = vec![("ptr", esc(&format!("{p:?}")))];
                    if let mir::interpret::GlobalAlloc::Memory(a) = self.tcx.global_alloc(p.provenance.alloc_id()) {
                        let a = a.inner();
                        if a.len() <= 64 && a.provenance().ptrs().is_empty() {
                            let b = a.inspect_with_uninit_and_ptr_outside_interpreter(0..a.len());
                            out.push(("bytes", arr(b.iter().map(|x| x.to_string()).collect())));
                        }
                    }
                    obj(out)
                }
            },
            mir::ConstValue::Slice { .. } => {
                let b = v.try_get_slice_bytes_for_diagnostics(self.tcx).unwrap_or(&[]);
                obj(vec![("str", esc(&String::from_utf8_lossy(b)))])
            }
            mir::ConstValue::Indirect { alloc_id, offset } => {
                let mut out = vec![("indirect", esc(&format!("{t:?}")))];
                if let mir::interpret::GlobalAlloc::Memory(a) = self.tcx.global_alloc(alloc_id) {
                    let a = a.inner();
                    let b = a.inspect_with_uninit_and_ptr_outside_interpreter(offset.bytes_usize()..a.len());
                    if b.len() <= 64 {
                        out.push(("bytes", arr(b.iter().map(|x| x.to_string()).collect())));
                    }
                }
                obj(out)
            }
        }
    }

    fn operand(&mut self, o: &Operand<'tcx>, owner: DefId, env: ty::TypingEnv<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("[\"copy\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"move\",{}]", self.place(p)),
            Operand::Constant(c) => format!("[\"const\",{}]", self.constant(&c.const_, owner, env)),
            Operand::RuntimeChecks(_) => "[\"rtcheck\"]".into(),
        }
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>, owner: DefId, env: ty::TypingEnv<'tcx>) -> String {
        match r {
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.operand(o, owner, env)),
            Rvalue::Repeat(o, n) => format!("[\"repeat\",{},{}]", self.operand(o, owner, env), self.cst(*n)),
            Rvalue::Ref(_, bk, p) => format!("[\"ref\",{},{}]", matches!(bk, BorrowKind::Mut { .. }), self.place(p)),
            Rvalue::RawPtr(_, p) => format!("[\"ref\",true,{}]", self.place(p)),
            Rvalue::Cast(k, o, t) => {
                let ks = format!("{k:?}");
                format!("[\"cast\",{},{},{}]", esc(&ks), self.operand(o, owner, env), self.ty(*t))
            }
            Rvalue::BinaryOp(op, b) => {
                format!("[\"bin\",{},{},{}]", esc(&format!("{op:?}")), self.operand(&b.0, owner, env), self.operand(&b.1, owner, env))
            }
            Rvalue::UnaryOp(op, o) => format!("[\"un\",{},{}]", esc(&format!("{op:?}")), self.operand(o, owner, env)),
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(p)),
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"copy\",{}]]", self.place(p)),
            Rvalue::Aggregate(k, ops) => {
                let ops: Vec<String> = ops.iter().map(|o| self.operand(o, owner, env)).collect();
                let kk = match &**k {
                    AggregateKind::Array(_) => "[\"array\"]".to_string(),
                    AggregateKind::Tuple => "[\"tuple\"]".to_string(),
                    AggregateKind::Adt(d, v, a, _, f) => {
                        self.adt(*d);
                        format!("[\"adt\",{},{},{},{}]", esc(&self.path(*d)), v.as_u32(), self.args(a), f.map(|f| f.as_u32().to_string()).unwrap_or("null".into()))
                    }
                    AggregateKind::Closure(d, a) => {
                        self.enqueue(*d);
                        format!("[\"closure\",{},{}]", esc(&self.path(*d)), self.args(a.as_closure().parent_args()))
                    }
                    o => format!("[\"other\",{}]", esc(&format!("{o:?}"))),
                };
                format!("[\"agg\",{},{}]", kk, arr(ops))
            }
            o => format!("[\"other\",{}]", esc(&format!("{o:?}"))),
        }
    }

    fn body(&mut self, did: DefId, b: &Body<'tcx>) -> String {
        let tcx = self.tcx;
        let env = ty::TypingEnv::post_analysis(tcx, did);
        let mut locals = vec![];
        for l in b.local_decls.iter() {
            locals.push(self.ty(l.ty));
        }
        let mut names = vec![];
        for v in b.var_debug_info.iter() {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.push(format!("[{},{}]", p.local.as_u32(), esc(v.name.as_str())));
                }
            }
        }
        let sm = tcx.sess.source_map();
        let mut blocks = vec![];
        for bb in b.basic_blocks.iter() {
            let mut st = vec![];
            for s in bb.statements.iter() {
                match &s.kind {
                    StatementKind::Assign(a) => {
                        let p = self.place(&a.0);
                        let r = self.rvalue(&a.1, did, env);
                        st.push(format!("[\"=\",{},{}]", p, r));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        st.push(format!("[\"setd\",{},{}]", self.place(place), variant_index.as_u32()));
                    }
                    _ => {}
                }
            }
            let t = bb.terminator();
            let sp = t.source_info.span;
            let loc = sm.lookup_char_pos(sp.source_callsite().lo());
            let line = loc.line;
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_u32()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let mut v = vec![];
                    for (val, bb) in targets.iter() {
                        v.push(format!("[{},{}]", esc(&val.to_string()), bb.as_u32()));
                    }
                    format!("[\"switch\",{},{},{}]", self.operand(discr, did, env), arr(v), targets.otherwise().as_u32())
                }
                TerminatorKind::Return => "[\"return\"]".into(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => "[\"unwind\"]".into(),
                TerminatorKind::Drop { target, place, .. } => format!("[\"drop\",{},{}]", self.place(place), target.as_u32()),
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.operand(func, did, env);
                    let a: Vec<String> = args.iter().map(|x| self.operand(&x.node, did, env)).collect();
                    format!(
                        "[\"call\",{},{},{},{}]",
                        f,
                        arr(a),
                        self.place(destination),
                        target.map(|t| t.as_u32().to_string()).unwrap_or("null".into())
                    )
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    format!("[\"assert\",{},{},{},{}]", self.operand(cond, did, env), expected, esc(&format!("{msg:?}").chars().take(120).collect::<String>()), target.as_u32())
                }
                TerminatorKind::FalseEdge { real_target, .. } => format!("[\"goto\",{}]", real_target.as_u32()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{}]", real_target.as_u32()),
                o => format!("[\"other\",{}]", esc(&format!("{o:?}"))),
            };
            blocks.push(obj(vec![("s", arr(st)), ("t", tj), ("l", line.to_string()), ("cl", bb.is_cleanup.to_string())]));
        }
        obj(vec![("argc", b.arg_count.to_string()), ("locals", arr(locals)), ("names", arr(names)), ("blocks", arr(blocks))])
    }

    fn item(&mut self, did: DefId) -> Option<(String, String)> {
        let tcx = self.tcx;
        let kind = tcx.def_kind(did);
        let path = self.path(did);
        let mut v = vec![("kind", esc(&format!("{kind:?}")))];
        v.push(("name", esc(&tcx.opt_item_name(did).map(|s| s.to_string()).unwrap_or_default())));
        v.push(("generics", self.generics(did)));
        v.push(("crate", esc(tcx.crate_name(did.krate).as_str())));
        v.push(("local", did.is_local().to_string()));
        if let Some(tr) = tcx.trait_of_assoc(did) {
            v.push(("trait", esc(&self.path(tr))));
        } else if let Some(im) = tcx.impl_of_assoc(did) {
            let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
            v.push(("impl_self", self.ty(st)));
            if tcx.impl_opt_trait_ref(im).is_some() {
                let tr = tcx.impl_trait_ref(im).instantiate_identity().skip_norm_wip();
                v.push(("impl_trait", esc(&self.path(tr.def_id))));
                v.push(("impl_trait_args", self.args(tr.args)));
            }
        }
        if did.is_local() {
            let sp = tcx.def_span(did);
            let loc = tcx.sess.source_map().lookup_char_pos(sp.lo());
            v.push(("file", esc(&format!("{}", loc.file.name.prefer_local_unconditionally()))));
            v.push(("line", loc.line.to_string()));
            v.push(("vis", esc(&format!("{:?}", tcx.visibility(did)))));
        }
        let has_body = match kind {
            DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {
                if did.is_local() { tcx.is_mir_available(did) } else { tcx.is_mir_available(did) }
            }
            DefKind::Const { .. } | DefKind::AssocConst { .. } => did.is_local(),
            DefKind::Ctor(..) => false,
            _ => return None,
        };
        if has_body {
            let b: &Body<'tcx> = match kind {
                DefKind::Fn | DefKind::AssocFn | DefKind::Closure => tcx.optimized_mir(did),
                _ => {
                    if did.is_local() && tcx.hir_maybe_body_owned_by(did.expect_local()).is_none() {
                        return Some((path, obj(v)));
                    }
                    tcx.mir_for_ctfe(did)
                }
            };
            let s = self.body(did, b);
            v.push(("body", s));
            let mut pr = vec![];
            if did.is_local() || true {
                for p in tcx.promoted_mir(did).iter() {
                    pr.push(self.body(did, p));
                }
            }
            v.push(("promoted", arr(pr)));
        }
        Some((path, obj(v)))
    }
}

impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let out = std::env::var("MIRDUMP_OUT").unwrap();
        let mut cx = Cx { tcx, adts: BTreeMap::new(), adt_seen: HashSet::new(), queue: VecDeque::new(), seen: HashSet::new() };
        for l in tcx.mir_keys(()).iter() {
            cx.enqueue(l.to_def_id());
        }
        let mut items = vec![];
        while let Some(d) = cx.queue.pop_front() {
            if let Some((p, s)) = cx.item(d) {
                items.push(format!("{}:{}", esc(&p), s));
            }
        }
        // local impls of local (and a few foreign) traits, local traits
        let mut impls = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            let d = id.to_def_id();
            if let DefKind::Impl { of_trait: true } = tcx.def_kind(d) {
                let tr = tcx.impl_trait_ref(d).instantiate_identity().skip_norm_wip();
                let mut its = vec![];
                for it in tcx.associated_items(d).in_definition_order() {
                    let mut e = vec![("name", esc(&it.opt_name().map(|s| s.to_string()).unwrap_or_default())), ("d", esc(&cx.path(it.def_id)))];
                    match it.kind {
                        ty::AssocKind::Type { .. } => {
                            let t = tcx.type_of(it.def_id).instantiate_identity().skip_norm_wip();
                            e.push(("kind", esc("type")));
                            e.push(("ty", cx.ty(t)));
                        }
                        ty::AssocKind::Fn { .. } => e.push(("kind", esc("fn"))),
                        ty::AssocKind::Const { .. } => e.push(("kind", esc("const"))),
                    }
                    its.push(obj(e));
                }
                let preds: Vec<String> = tcx
                    .clauses_of(d)
                    .clauses
                    .iter()
                    .filter_map(|p| {
                        if let ty::ClauseKind::Trait(tp) = p.0.kind().skip_binder() {
                            let s = cx.ty(tp.self_ty());
                            Some(arr(vec![s, esc(&cx.path(tp.trait_ref.def_id))]))
                        } else {
                            None
                        }
                    })
                    .collect();
                impls.push(obj(vec![
                    ("trait", esc(&cx.path(tr.def_id))),
                    ("self", cx.ty(tr.self_ty())),
                    ("args", cx.args(tr.args)),
                    ("generics", cx.generics(d)),
                    ("items", arr(its)),
                    ("preds", arr(preds)),
                    ("span", esc(&format!("{:?}", tcx.def_span(d)))),
                ]));
            }
        }
        while let Some(d) = cx.queue.pop_front() {
            if let Some((p, s)) = cx.item(d) {
                items.push(format!("{}:{}", esc(&p), s));
            }
        }
        let adts: Vec<String> = cx.adts.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect();
        let s = format!("{{\"items\":{{{}}},\n\"adts\":{{{}}},\n\"impls\":{}}}\n", items.join(",\n"), adts.join(",\n"), arr(impls));
        std::fs::write(&out, s).unwrap();
        Compilation::Continue
    }
}

struct Plain;
impl Callbacks for Plain {}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // As RUSTC_WRAPPER argv[1] is the real rustc.
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let want = std::env::var("MIRDUMP_CRATE").unwrap_or_default();
    let name = args.iter().position(|a| a == "--crate-name").and_then(|i| args.get(i + 1)).cloned().unwrap_or_default();
    let is_lib = args.windows(2).any(|w| w[0] == "--crate-type" && w[1] == "lib");
    if !want.is_empty() && name == want && is_lib {
        args.push("-Zmir-opt-level=0".into());
        args.push("-Zalways-encode-mir".into());
        rustc_driver::compiler_entrypoint(&args, &mut Cb);
    } else {
        rustc_driver::compiler_entrypoint(&args, &mut Plain);
    }
}
