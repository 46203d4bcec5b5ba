// MIR exporter: run as RUSTC_WORKSPACE_WRAPPER under `cargo +nightly check`.
// For the crate named in EC_CRATE it writes the optimized MIR (mir-opt-level=0)
// of every body, with resolved callees, to the file EC_OUT as JSON.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::interpret::{AllocRange, GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypeVisitableExt, TypingEnv};
use rustc_span::Span;
use std::fmt::Write as _;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr(v: Vec<String>) -> String { format!("[{}]", v.join(",")) }
fn obj(v: Vec<(&str, String)>) -> String {
    format!("{{{}}}", v.into_iter().map(|(k, x)| format!("{}:{}", esc(k), x)).collect::<Vec<_>>().join(","))
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    adts: std::collections::BTreeMap<String, String>,
    external: std::collections::BTreeMap<String, u32>,
    fndefs: Vec<DefId>,
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        rustc_middle::ty::print::with_no_trimmed_paths!(self.tcx.def_path_str(d))
    }
    // unique key of a definition
    fn key(&self, d: DefId) -> String {
        let dp = self.tcx.def_path(d);
        format!("{}{}", self.tcx.crate_name(d.krate), dp.to_string_no_crate_verbose())
    }
    fn span(&self, s: Span) -> String {
        let s = s.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(s.lo());
        let mut f = lo.file.name.prefer_local_unconditionally().to_string();
        if let Some(i) = f.rfind("/src/") { f = format!("src/{}", &f[i + 5..]); }
        esc(&format!("{}:{}", f, lo.line))
    }
    fn ty(&mut self, t: Ty<'tcx>) -> String {
        match t.kind() {
            ty::Bool => obj(vec![("k", esc("bool"))]),
            ty::Char => obj(vec![("k", esc("char"))]),
            ty::Int(i) => obj(vec![("k", esc("int")), ("n", esc(i.name_str()))]),
            ty::Uint(i) => obj(vec![("k", esc("int")), ("n", esc(i.name_str()))]),
            ty::Float(f) => obj(vec![("k", esc("float")), ("n", esc(f.name_str()))]),
            ty::Str => obj(vec![("k", esc("str"))]),
            ty::Never => obj(vec![("k", esc("never"))]),
            ty::Adt(def, args) => {
                let p = self.path(def.did());
                if !self.adts.contains_key(&p) {
                    self.adts.insert(p.clone(), String::new());
                    let mut vs = vec![];
                    for v in def.variants() {
                        let mut fs = vec![];
                        for f in &v.fields {
                            let fty = if def.did().is_local() {
                                let fty = self.tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                                self.ty(fty)
                            } else { "null".to_string() };
                            fs.push(obj(vec![("name", esc(f.name.as_str())), ("ty", fty),
                                ("pub", format!("{}", f.vis.is_public()))]));
                        }
                        vs.push(obj(vec![("name", esc(v.name.as_str())), ("fields", arr(fs))]));
                    }
                    let mut discrs = vec![];
                    if def.is_enum() {
                        for (i, d) in def.discriminants(self.tcx) {
                            discrs.push(format!("[{},{}]", i.as_usize(), d.val));
                        }
                    }
                    let s = obj(vec![("local", format!("{}", def.did().is_local())),
                        ("enum", format!("{}", def.is_enum())), ("variants", arr(vs)), ("discrs", arr(discrs))]);
                    self.adts.insert(p.clone(), s);
                }
                let mut a = vec![];
                for x in args.types() { a.push(self.ty(x)); }
                obj(vec![("k", esc("adt")), ("p", esc(&p)), ("a", arr(a))])
            }
            ty::Ref(_, t, m) => { let s = self.ty(*t); obj(vec![("k", esc("ref")), ("m", format!("{}", m.is_mut())), ("t", s)]) }
            ty::RawPtr(t, m) => { let s = self.ty(*t); obj(vec![("k", esc("ptr")), ("m", format!("{}", m.is_mut())), ("t", s)]) }
            ty::Tuple(ts) => { let mut a = vec![]; for x in ts.iter() { a.push(self.ty(x)); } obj(vec![("k", esc("tuple")), ("a", arr(a))]) }
            ty::Array(t, n) => { let s = self.ty(*t); obj(vec![("k", esc("array")), ("t", s), ("n", esc(&format!("{}", n)))]) }
            ty::Slice(t) => { let s = self.ty(*t); obj(vec![("k", esc("slice")), ("t", s)]) }
            ty::Closure(d, args) => {
                let mut a = vec![];
                for x in args.as_closure().upvar_tys() { a.push(self.ty(x)); }
                obj(vec![("k", esc("closure")), ("d", esc(&self.key(*d))), ("a", arr(a))])
            }
            ty::FnDef(d, args) => {
                let mut a = vec![];
                for x in args.no_bound_vars().unwrap().types() { a.push(self.ty(x)); }
                let mut f = vec![("k", esc("fndef")), ("p", esc(&self.path(*d))), ("d", esc(&self.key(*d))), ("a", arr(a))];
                if !self.fndefs.contains(d) && !t.has_param() {
                    self.fndefs.push(*d);
                    let args = args.no_bound_vars().unwrap();
                    f.extend(self.fninfo(TypingEnv::fully_monomorphized(), *d, args));
                    let sig = self.tcx.fn_sig(*d).instantiate(self.tcx, args).skip_norm_wip().skip_binder();
                    let mut ins = vec![];
                    for x in sig.inputs().iter() { ins.push(self.ty(*x)); }
                    f.push(("argtys", arr(ins)));
                    let o = self.ty(sig.output());
                    f.push(("dty", o));
                    self.fndefs.pop();
                }
                obj(f)
            }
            ty::Param(p) => obj(vec![("k", esc("param")), ("n", esc(p.name.as_str()))]),
            _ => obj(vec![("k", esc("other")), ("n", esc(&format!("{:?}", t)))]),
        }
    }
    fn place(&mut self, body: &Body<'tcx>, p: &Place<'tcx>) -> String {
        let mut pr = vec![];
        for e in p.projection.iter() {
            pr.push(match e {
                ProjectionElem::Deref => "[\"deref\"]".to_string(),
                ProjectionElem::Field(f, _) => format!("[\"field\",{}]", f.as_usize()),
                ProjectionElem::Index(l) => format!("[\"index\",{}]", l.as_usize()),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => format!("[\"cindex\",{},{}]", offset, from_end),
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"subslice\",{},{},{}]", from, to, from_end),
                ProjectionElem::Downcast(_, v) => format!("[\"downcast\",{}]", v.as_usize()),
                _ => "[\"other\"]".to_string(),
            });
        }
        let _ = body;
        obj(vec![("l", p.local.as_usize().to_string()), ("p", arr(pr))])
    }
    fn scalar_of(&self, s: Scalar, t: Ty<'tcx>) -> Option<String> {
        let i = s.try_to_scalar_int().ok()?;
        Some(match t.kind() {
            ty::Int(_) => i.to_int(i.size()).to_string(),
            ty::Bool => i.to_uint(i.size()).to_string(),
            ty::Char => i.to_uint(i.size()).to_string(),
            _ => i.to_uint(i.size()).to_string(),
        })
    }
    fn alloc_bytes(&self, id: rustc_middle::mir::interpret::AllocId, len: Option<u64>) -> Option<String> {
        match self.tcx.global_alloc(id) {
            GlobalAlloc::Memory(a) => {
                let a = a.inner();
                let n = len.unwrap_or(a.len() as u64) as usize;
                let b = a.inspect_with_uninit_and_ptr_outside_interpreter(0..n);
                Some(arr(b.iter().map(|x| x.to_string()).collect()))
            }
            _ => None,
        }
    }
    fn constant(&mut self, body_def: DefId, c: &ConstOperand<'tcx>) -> String {
        let t = c.const_.ty();
        let tys = self.ty(t);
        let mut f = vec![("ty", tys)];
        match c.const_ {
            Const::Unevaluated(u, _) => {
                if let Some(p) = u.promoted {
                    f.push(("promoted", p.as_usize().to_string()));
                    let _ = body_def;
                    f.push(("of", esc(&self.key(u.def))));
                    return obj(f);
                }
                f.push(("uneval", esc(&self.key(u.def))));
                f.push(("unevalp", esc(&self.path(u.def))));
            }
            _ => {}
        }
        let env = TypingEnv::post_analysis(self.tcx, body_def);
        if let Ok(v) = c.const_.eval(self.tcx, env, c.span) {
            match v {
                ConstValue::Scalar(s) => {
                    if let Some(x) = self.scalar_of(s, t) { f.push(("int", esc(&x))); }
                    else if let Scalar::Ptr(ptr, _) = s {
                        let (prov, off) = ptr.into_raw_parts();
                        if off.bytes() == 0 {
                            if let Some(b) = self.alloc_bytes(prov.alloc_id(), None) { f.push(("ptrbytes", b)); }
                        }
                        if let GlobalAlloc::Static(d) = self.tcx.global_alloc(prov.alloc_id()) {
                            f.push(("static", esc(&self.key(d))));
                        }
                    }
                }
                ConstValue::ZeroSized => { f.push(("zst", "true".into())); }
                ConstValue::Slice { alloc_id, meta } => {
                    if let Some(b) = self.alloc_bytes(alloc_id, Some(meta)) { f.push(("bytes", b)); }
                }
                ConstValue::Indirect { alloc_id, .. } => {
                    if let GlobalAlloc::Memory(a) = self.tcx.global_alloc(alloc_id) {
                        let a = a.inner();
                        // only the sizes of interest
                        let b = a.inspect_with_uninit_and_ptr_outside_interpreter(0..a.len());
                        f.push(("membytes", arr(b.iter().map(|x| x.to_string()).collect())));
                        let _ = AllocRange { start: rustc_abi::Size::ZERO, size: a.size() };
                    }
                }
            }
        }
        obj(f)
    }
    fn operand(&mut self, body: &Body<'tcx>, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => { let s = self.place(body, p); obj(vec![("copy", s)]) }
            Operand::Move(p) => { let s = self.place(body, p); obj(vec![("move", s)]) }
            Operand::Constant(c) => { let s = self.constant(body.source.def_id(), c); obj(vec![("const", s)]) }
            #[allow(unreachable_patterns)]
            other => { let s = format!("{:?}", other); obj(vec![("otherop", esc(&s))]) }
        }
    }
    fn rvalue(&mut self, body: &Body<'tcx>, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(o, ..) => { let s = self.operand(body, o); obj(vec![("use", s)]) }
            Rvalue::Repeat(o, n) => { let s = self.operand(body, o); obj(vec![("repeat", s), ("n", esc(&format!("{}", n)))]) }
            Rvalue::Ref(_, bk, p) => { let s = self.place(body, p); obj(vec![("ref", s), ("m", format!("{}", matches!(bk, BorrowKind::Mut { .. })))]) }
            Rvalue::RawPtr(_, p) => { let s = self.place(body, p); obj(vec![("rawptr", s)]) }
            Rvalue::Cast(k, o, t) => {
                let from = o.ty(body, self.tcx);
                let fs = self.ty(from);
                let s = self.operand(body, o); let ts = self.ty(*t);
                obj(vec![("cast", s), ("kind", esc(&format!("{:?}", k))), ("ty", ts), ("from", fs)])
            }
            Rvalue::BinaryOp(op, b) => {
                let (x, y) = (&b.0, &b.1);
                let t = x.ty(body, self.tcx); let ts = self.ty(t);
                let a = self.operand(body, x); let c = self.operand(body, y);
                obj(vec![("bin", esc(&format!("{:?}", op))), ("a", a), ("b", c), ("ty", ts)])
            }
            Rvalue::UnaryOp(op, o) => { let a = self.operand(body, o); obj(vec![("un", esc(&format!("{:?}", op))), ("a", a)]) }
            Rvalue::Discriminant(p) => { let s = self.place(body, p); obj(vec![("discr", s)]) }
            Rvalue::Aggregate(k, ops) => {
                let mut a = vec![];
                for o in ops.iter() { a.push(self.operand(body, o)); }
                let ks = match &**k {
                    AggregateKind::Tuple => obj(vec![("k", esc("tuple"))]),
                    AggregateKind::Array(_) => obj(vec![("k", esc("array"))]),
                    AggregateKind::Adt(d, v, _, _, _) => { let p = self.path(*d); obj(vec![("k", esc("adt")), ("p", esc(&p)), ("v", v.as_usize().to_string())]) }
                    AggregateKind::Closure(d, _) => obj(vec![("k", esc("closure")), ("d", esc(&self.key(*d)))]),
                    other => obj(vec![("k", esc("other")), ("n", esc(&format!("{:?}", other)))]),
                };
                obj(vec![("agg", ks), ("ops", arr(a))])
            }
            Rvalue::CopyForDeref(p) => { let s = self.place(body, p); obj(vec![("use", obj(vec![("copy", s)]))]) }
            other => obj(vec![("other", esc(&format!("{:?}", other)))]),
        }
    }
    fn fninfo(&mut self, env: TypingEnv<'tcx>, d: DefId, args: ty::GenericArgsRef<'tcx>) -> Vec<(&'static str, String)> {
        let mut a = vec![];
        for x in args.types() { a.push(self.ty(x)); }
        let mut f = vec![("path", esc(&self.path(d))), ("key", esc(&self.key(d))), ("args", arr(a)),
            ("krate", esc(self.tcx.crate_name(d.krate).as_str()))];
        if let Some(tr) = self.tcx.trait_of_assoc(d) { f.push(("trait", esc(&self.path(tr)))); }
        let args = self.tcx.erase_and_anonymize_regions(args);
        if let Ok(Some(inst)) = Instance::try_resolve(self.tcx, env, d, args) {
            let rd = inst.def_id();
            f.push(("rpath", esc(&self.path(rd))));
            f.push(("rkey", esc(&self.key(rd))));
            f.push(("rlocal", format!("{}", rd.is_local())));
            f.push(("rkind", esc(&format!("{:?}", std::mem::discriminant(&inst.def)))));
            if matches!(inst.def, ty::InstanceKind::Item(_)) { f.push(("ritem", "true".into())); }
            let mut ra = vec![];
            for x in inst.args.types() { ra.push(self.ty(x)); }
            f.push(("rargs", arr(ra)));
            *self.external.entry(self.path(rd)).or_insert(0) += 1;
        }
        f
    }
    fn callee(&mut self, body: &Body<'tcx>, func: &Operand<'tcx>) -> String {
        if let Operand::Constant(c) = func {
            if let ty::FnDef(d, args) = c.const_.ty().kind() {
                let args = args.no_bound_vars().unwrap();
                return obj(self.fninfo(TypingEnv::post_analysis(self.tcx, body.source.def_id()), *d, args));
            }
        }
        let s = self.operand(body, func);
        obj(vec![("ptr", s)])
    }
    fn body(&mut self, body: &Body<'tcx>) -> String {
        let mut locals = vec![];
        let mut names = std::collections::HashMap::new();
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() { names.insert(p.local, v.name.to_string()); }
            }
        }
        for (l, d) in body.local_decls.iter_enumerated() {
            let t = self.ty(d.ty);
            let mut f = vec![("ty", t)];
            if let Some(n) = names.get(&l) { f.push(("name", esc(n))); }
            locals.push(obj(f));
        }
        let mut blocks = vec![];
        for bb in body.basic_blocks.iter() {
            let mut st = vec![];
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(b) => {
                        let (p, r) = (&b.0, &b.1);
                        let ps = self.place(body, p); let rs = self.rvalue(body, r);
                        st.push(obj(vec![("p", ps), ("r", rs), ("s", self.span(s.source_info.span))]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let ps = self.place(body, place);
                        st.push(obj(vec![("setdiscr", ps), ("v", variant_index.as_usize().to_string())]));
                    }
                    StatementKind::Intrinsic(i) => { st.push(obj(vec![("intrinsic", esc(&format!("{:?}", i)))])); }
                    _ => {}
                }
            }
            let t = bb.terminator();
            let sp = self.span(t.source_info.span);
            let ts = match &t.kind {
                TerminatorKind::Goto { target, .. } => obj(vec![("k", esc("goto")), ("t", target.as_usize().to_string())]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let d = self.operand(body, discr);
                    let ty = discr.ty(body, self.tcx);
                    let tys = self.ty(ty);
                    let vs = targets.iter().map(|(v, b)| format!("[{},{}]", esc(&v.to_string()), b.as_usize())).collect();
                    obj(vec![("k", esc("switch")), ("d", d), ("ty", tys), ("v", arr(vs)), ("o", targets.otherwise().as_usize().to_string())])
                }
                TerminatorKind::Return => obj(vec![("k", esc("return"))]),
                TerminatorKind::Unreachable => obj(vec![("k", esc("unreachable"))]),
                TerminatorKind::Drop { place, target, .. } => { let p = self.place(body, place); obj(vec![("k", esc("drop")), ("p", p), ("t", target.as_usize().to_string())]) }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.callee(body, func);
                    let mut a = vec![];
                    for x in args.iter() { a.push(self.operand(body, &x.node)); }
                    let mut at = vec![];
                    for x in args.iter() { let t = x.node.ty(body, self.tcx); at.push(self.ty(t)); }
                    let d = self.place(body, destination);
                    let dt = destination.ty(body, self.tcx).ty; let dts = self.ty(dt);
                    obj(vec![("k", esc("call")), ("f", f), ("args", arr(a)), ("argtys", arr(at)), ("dst", d), ("dty", dts),
                        ("t", target.map(|b| b.as_usize().to_string()).unwrap_or("null".into())), ("s", sp)])
                }
                TerminatorKind::Assert { cond, expected, target, msg, .. } => {
                    let c = self.operand(body, cond);
                    obj(vec![("k", esc("assert")), ("c", c), ("e", format!("{}", expected)), ("t", target.as_usize().to_string()), ("msg", esc(&format!("{:?}", msg).chars().take(40).collect::<String>())), ("s", sp)])
                }
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => obj(vec![("k", esc("resume"))]),
                other => obj(vec![("k", esc("other")), ("n", esc(&format!("{:?}", other)))]),
            };
            blocks.push(obj(vec![("st", arr(st)), ("t", ts), ("cleanup", format!("{}", bb.is_cleanup))]));
        }
        obj(vec![("argc", body.arg_count.to_string()), ("locals", arr(locals)), ("blocks", arr(blocks)), ("span", self.span(body.span))])
    }
}

// user-written unsafe blocks
struct Unsafe<'tcx> { tcx: TyCtxt<'tcx>, found: Vec<Span> }
impl<'tcx> rustc_hir::intravisit::Visitor<'tcx> for Unsafe<'tcx> {
    type NestedFilter = rustc_middle::hir::nested_filter::All;
    fn maybe_tcx(&mut self) -> TyCtxt<'tcx> { self.tcx }
    fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
        if matches!(b.rules, rustc_hir::BlockCheckMode::UnsafeBlock(rustc_hir::UnsafeSource::UserProvided))
            && !b.span.in_external_macro(self.tcx.sess.source_map()) { self.found.push(b.span); }
        rustc_hir::intravisit::walk_block(self, b);
    }
}

struct Cb;
impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let want = std::env::var("EC_CRATE").unwrap_or_default();
        if tcx.crate_name(LOCAL_CRATE).as_str() != want { return Compilation::Continue; }
        let out = std::env::var("EC_OUT").expect("EC_OUT");
        let mut cx = Cx { tcx, adts: Default::default(), external: Default::default(), fndefs: vec![] };
        let mut items = vec![];
        for ld in tcx.mir_keys(()) {
            let d = ld.to_def_id();
            let kind = tcx.def_kind(d);
            let is_fn = matches!(kind, DefKind::Fn | DefKind::AssocFn | DefKind::Closure);
            let mut f = vec![("key", esc(&cx.key(d))), ("path", esc(&cx.path(d))), ("kind", esc(&format!("{:?}", kind)))];
            let vis = if matches!(kind, DefKind::Fn | DefKind::AssocFn) { tcx.visibility(d).is_public() } else { false };
            f.push(("pub", format!("{}", vis)));
            if matches!(kind, DefKind::Fn | DefKind::AssocFn) && tcx.fn_sig(d).skip_binder().safety().is_unsafe() {
                f.push(("unsafe", "true".into()));
            }
            let parent = tcx.parent(d);
            if matches!(kind, DefKind::AssocFn) && matches!(tcx.def_kind(parent), DefKind::Impl { .. }) {
                let st = tcx.type_of(parent).instantiate_identity().skip_norm_wip();
                f.push(("self_ty", cx.ty(st)));
                if let Some(tr) = tcx.impl_opt_trait_ref(parent) {
                    let tr = tr.instantiate_identity().skip_norm_wip();
                    f.push(("trait", esc(&cx.path(tr.def_id))));
                    let mut a = vec![];
                    for x in tr.args.types() { a.push(cx.ty(x)); }
                    f.push(("trait_args", arr(a)));
                }
                f.push(("name", esc(tcx.item_name(d).as_str())));
                let derived = tcx.is_automatically_derived(parent);
                f.push(("derived", format!("{}", derived)));
            } else if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
                f.push(("name", esc(tcx.item_name(d).as_str())));
            }
            if matches!(kind, DefKind::Closure) {
                f.push(("parent", esc(&cx.key(parent))));
            }
            if is_fn {
                let b = tcx.optimized_mir(d);
                f.push(("body", cx.body(b)));
            } else {
                let b = tcx.mir_for_ctfe(d);
                f.push(("body", cx.body(b)));
            }
            let pr = tcx.promoted_mir(d);
            let mut ps = vec![];
            for b in pr.iter() { ps.push(cx.body(b)); }
            f.push(("promoted", arr(ps)));
            items.push(obj(f));
        }
        // statics, unsafe blocks
        let mut statics = vec![];
        let mut mods = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            let d = id.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Static { .. } => {
                    let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    let freeze = t.is_freeze(tcx, TypingEnv::post_analysis(tcx, d));
                    statics.push(obj(vec![("key", esc(&cx.key(d))), ("mut", format!("{}", tcx.is_mutable_static(d))),
                        ("freeze", format!("{}", freeze)), ("span", cx.span(tcx.def_span(d)))]));
                }
                DefKind::Mod => mods.push(esc(&cx.path(d))),
                _ => {}
            }
        }
        let mut uv = Unsafe { tcx, found: vec![] };
        tcx.hir_walk_toplevel_module(&mut uv);
        let unsafes: Vec<String> = uv.found.iter().map(|s| cx.span(*s)).collect();
        let adts = arr(cx.adts.iter().map(|(k, v)| format!("[{},{}]", esc(k), v)).collect());
        let ext = arr(cx.external.iter().map(|(k, v)| format!("[{},{}]", esc(k), v)).collect());
        let s = obj(vec![("items", arr(items)), ("adts", adts), ("statics", arr(statics)), ("mods", arr(mods)), ("unsafe", arr(unsafes)), ("callees", ext)]);
        std::fs::write(&out, s).unwrap();
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && args[1].ends_with("rustc") { args.remove(1); }
    if std::env::var("EC_CRATE").is_ok() && args.iter().any(|a| a == "--crate-name") {
        args.push("-Zmir-opt-level=0".into());
        args.push("-Zalways-encode-mir".into());
    }
    rustc_driver::compiler_entrypoint(&args, &mut Cb);
}
