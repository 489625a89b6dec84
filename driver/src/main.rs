// rustc_private driver: dumps a JSON description of the type-checked program
// (MIR of every body, ADTs, impls, resolved callees) for the Python rules.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_interface::interface;
use rustc_middle::mir::{self, *};
use rustc_middle::ty::{self, Ty, TyCtxt, TypeVisitableExt};
use rustc_span::source_map::{FileLoader, RealFileLoader};
use rustc_span::Span;
use std::collections::HashMap;
use std::fmt::Write as _;
use std::io;
use std::path::{Path, PathBuf};
use std::sync::Arc;

// ---------------------------------------------------------------- file loader
/// Supplies an empty stand-in for data files that the sources `include_bytes!`
/// but which the checkout does not contain, so that the crates still analyse.
struct Loader(RealFileLoader);
impl FileLoader for Loader {
    fn file_exists(&self, path: &Path) -> bool {
        self.0.file_exists(path)
    }
    fn read_file(&self, path: &Path) -> io::Result<String> {
        self.0.read_file(path)
    }
    fn read_binary_file(&self, path: &Path) -> io::Result<Arc<[u8]>> {
        match self.0.read_binary_file(path) {
            Err(e) if e.kind() == io::ErrorKind::NotFound && path.extension().is_none() => {
                Ok(Arc::from(Vec::new().into_boxed_slice()))
            }
            r => r,
        }
    }
    fn current_directory(&self) -> io::Result<PathBuf> {
        self.0.current_directory()
    }
}

// ---------------------------------------------------------------- json
fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr(v: impl IntoIterator<Item = String>) -> String {
    let v: Vec<String> = v.into_iter().collect();
    format!("[{}]", v.join(","))
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<String>,
    tymap: HashMap<Ty<'tcx>, usize>,
}

impl<'tcx> Cx<'tcx> {
    fn key(&self, d: DefId) -> String {
        format!(
            "{}{}",
            self.tcx.crate_name(d.krate),
            self.tcx.def_path(d).to_string_no_crate_verbose()
        )
    }
    fn plain(&self, d: DefId) -> String {
        // canonical definition path of a type/trait/function without impls
        self.pretty(d)
    }
    fn pretty_ty(&self, t: Ty<'tcx>) -> String {
        match t.kind() {
            ty::Adt(def, args) => {
                let p = self.plain(def.did());
                let conc: Vec<String> = args.iter().filter_map(|a| a.as_type()).map(|a| self.pretty_ty(a)).collect();
                if conc.is_empty() || args.iter().filter_map(|a| a.as_type()).all(|a| matches!(a.kind(), ty::Param(_))) {
                    p
                } else {
                    format!("{}<{}>", p, conc.join(","))
                }
            }
            ty::Ref(_, t, m) => format!("&{}{}", if m.is_mut() { "mut " } else { "" }, self.pretty_ty(*t)),
            ty::Slice(t) => format!("[{}]", self.pretty_ty(*t)),
            ty::Array(t, _) => format!("[{};N]", self.pretty_ty(*t)),
            ty::Tuple(ts) => format!("({})", ts.iter().map(|t| self.pretty_ty(t)).collect::<Vec<_>>().join(",")),
            ty::RawPtr(t, m) => format!("*{} {}", if m.is_mut() { "mut" } else { "const" }, self.pretty_ty(*t)),
            ty::Param(p) => p.name.to_string(),
            _ => format!("{}", t),
        }
    }
    fn pretty(&self, d: DefId) -> String {
        let tcx = self.tcx;
        let dk = tcx.def_key(d);
        let Some(_) = dk.parent else {
            return tcx.crate_name(d.krate).to_string();
        };
        let parent = tcx.parent(d);
        let pk = tcx.def_kind(parent);
        let seg = match tcx.opt_item_name(d) {
            Some(n) if !matches!(tcx.def_kind(d), DefKind::Closure) => n.to_string(),
            _ => {
                let s = dk.disambiguated_data;
                match tcx.def_kind(d) {
                    DefKind::Closure => format!("{{closure#{}}}", s.disambiguator),
                    k => format!("{{{:?}#{}}}", k, s.disambiguator),
                }
            }
        };
        if let DefKind::Impl { of_trait } = pk {
            let st = self.pretty_ty(tcx.type_of(parent).instantiate_identity().skip_norm_wip());
            if of_trait {
                let tr = tcx.impl_trait_ref(parent).instantiate_identity().skip_norm_wip();
                let ta: Vec<String> = tr.args.iter().skip(1).filter_map(|a| a.as_type()).map(|t| self.pretty_ty(t)).collect();
                let ta = if ta.is_empty() { String::new() } else { format!("<{}>", ta.join(",")) };
                return format!("<{} as {}{}>::{}", st, self.plain(tr.def_id), ta, seg);
            }
            return format!("{}::{}", st, seg);
        }
        if let DefKind::Impl { .. } = tcx.def_kind(d) {
            return format!("{}::{{impl#{}}}", self.pretty(parent), dk.disambiguated_data.disambiguator);
        }
        if matches!(pk, DefKind::ForeignMod) {
            return format!("{}::{}", self.pretty(tcx.parent(parent)), seg);
        }
        format!("{}::{}", self.pretty(parent), seg)
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(i) = self.tymap.get(&t) {
            return *i;
        }
        let idx = self.types.len();
        self.types.push(String::new());
        self.tymap.insert(t, idx);
        let s = format!("{}", t);
        let body = match t.kind() {
            ty::Adt(def, args) => {
                let a: Vec<String> = args.iter().filter_map(|a| a.as_type()).map(|x| self.ty(x).to_string()).collect();
                let ca: Vec<String> = args.iter().filter_map(|a| a.as_const()).map(|c| js(&format!("{}", c))).collect();
                format!("\"k\":\"adt\",\"p\":{},\"a\":[{}],\"c\":[{}]", js(&self.plain(def.did())), a.join(","), ca.join(","))
            }
            ty::Ref(_, t2, m) => format!("\"k\":\"ref\",\"m\":{},\"a\":[{}]", m.is_mut(), self.ty(*t2)),
            ty::RawPtr(t2, m) => format!("\"k\":\"ptr\",\"m\":{},\"a\":[{}]", m.is_mut(), self.ty(*t2)),
            ty::Slice(t2) => format!("\"k\":\"slice\",\"a\":[{}]", self.ty(*t2)),
            ty::Array(t2, n) => format!("\"k\":\"array\",\"n\":{},\"a\":[{}]", js(&format!("{}", n)), self.ty(*t2)),
            ty::Tuple(ts) => {
                let a: Vec<String> = ts.iter().map(|x| self.ty(x).to_string()).collect();
                format!("\"k\":\"tuple\",\"a\":[{}]", a.join(","))
            }
            ty::Param(p) => format!("\"k\":\"param\",\"p\":{}", js(p.name.as_str())),
            ty::FnDef(d, _) => format!("\"k\":\"fndef\",\"p\":{},\"key\":{}", js(&self.pretty(*d)), js(&self.key(*d))),
            ty::Closure(d, args) => {
                let up: Vec<String> = args.as_closure().upvar_tys().iter().map(|x| self.ty(x).to_string()).collect();
                format!("\"k\":\"closure\",\"p\":{},\"key\":{},\"a\":[{}]", js(&self.pretty(*d)), js(&self.key(*d)), up.join(","))
            }
            ty::Dynamic(..) => "\"k\":\"dyn\"".to_string(),
            ty::FnPtr(..) => "\"k\":\"fnptr\"".to_string(),
            ty::Int(_) | ty::Uint(_) | ty::Float(_) | ty::Bool | ty::Char | ty::Str => "\"k\":\"prim\"".to_string(),
            ty::Never => "\"k\":\"never\"".to_string(),
            ty::Alias(..) => "\"k\":\"alias\"".to_string(),
            _ => "\"k\":\"other\"".to_string(),
        };
        self.types[idx] = format!("{{\"s\":{},{}}}", js(&s), body);
        idx
    }

    fn loc(&self, sp: Span) -> (String, usize) {
        let sm = self.tcx.sess.source_map();
        let sp2 = sp.source_callsite();
        let l = sm.lookup_char_pos(sp2.lo());
        (format!("{}", l.file.name.prefer_local_unconditionally()), l.line)
    }
    fn macros(&self, sp: Span) -> String {
        let mut v = vec![];
        for e in sp.macro_backtrace() {
            v.push(js(&e.kind.descr()));
        }
        arr(v)
    }
}

struct BodyCx<'a, 'tcx> {
    cx: &'a mut Cx<'tcx>,
    body: &'a Body<'tcx>,
    env: ty::TypingEnv<'tcx>,
}

impl<'a, 'tcx> BodyCx<'a, 'tcx> {
    fn place(&mut self, p: &Place<'tcx>) -> String {
        let mut o = format!("[{}", p.local.as_usize());
        for (base, e) in p.iter_projections() {
            o.push(',');
            match e {
                ProjectionElem::Deref => o.push_str("\"*\""),
                ProjectionElem::Field(f, _) => {
                    let bt = base.ty(self.body, self.cx.tcx);
                    let mut flag = 0;
                    if let ty::Adt(def, _) = bt.ty.kind() {
                        if def.is_struct() && def.repr().transparent() {
                            flag = 1;
                        } else if def.is_struct() && def.non_enum_variant().fields.len() == 1 {
                            flag = 2;
                        }
                    }
                    let name = match bt.ty.kind() {
                        ty::Adt(def, _) => {
                            let v = match bt.variant_index {
                                Some(v) => def.variant(v),
                                None if def.is_enum() => {
                                    let _ = write!(o, "[\"f\",{}]", f.as_usize());
                                    continue;
                                }
                                None => def.non_enum_variant(),
                            };
                            v.fields[f].name.to_string()
                        }
                        _ => f.as_usize().to_string(),
                    };
                    let _ = write!(o, "[\"f\",{},{},{}]", f.as_usize(), js(&name), flag);
                }
                ProjectionElem::Index(l) => {
                    let _ = write!(o, "[\"i\",{}]", l.as_usize());
                }
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    let _ = write!(o, "[\"ci\",{},{}]", offset, from_end);
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    let _ = write!(o, "[\"ss\",{},{},{}]", from, to, from_end);
                }
                ProjectionElem::Downcast(n, v) => {
                    let _ = write!(o, "[\"d\",{},{}]", v.as_usize(), js(n.map(|n| n.to_string()).unwrap_or_default().as_str()));
                }
                _ => o.push_str("\"?\""),
            }
        }
        o.push(']');
        o
    }
    fn fnref(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>) -> String {
        let tcx = self.cx.tcx;
        let ga: Vec<String> = args.iter().filter_map(|a| a.as_type()).map(|t| self.cx.ty(t).to_string()).collect();
        let mut o = format!("{{\"n\":{},\"key\":{},\"ga\":[{}]", js(&self.cx.pretty(d)), js(&self.cx.key(d)), ga.join(","));
        let cg: Vec<String> = args.iter().filter_map(|a| a.as_const()).map(|t| js(&format!("{}", t))).collect();
        if !cg.is_empty() {
            let _ = write!(o, ",\"cg\":[{}]", cg.join(","));
        }
        if let Some(tr) = tcx.trait_of_assoc(d) {
            let _ = write!(o, ",\"tr\":{}", js(&self.cx.plain(tr)));
        }
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            let unsafe_ = tcx.fn_sig(d).skip_binder().safety().is_unsafe();
            if unsafe_ {
                o.push_str(",\"uns\":true");
            }
            if d.krate != rustc_hir::def_id::LOCAL_CRATE || true {
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| ty::Instance::try_resolve(tcx, self.env, d, args)));
                if let Ok(Ok(Some(inst))) = r {
                    let rd = inst.def_id();
                    let kind = match inst.def {
                        ty::InstanceKind::Item(_) => "item",
                        ty::InstanceKind::Virtual(..) => "virtual",
                        ty::InstanceKind::Intrinsic(_) => "intrinsic",
                        _ => "shim",
                    };
                    let rga: Vec<String> = inst.args.iter().filter_map(|a| a.as_type()).map(|t| self.cx.ty(t).to_string()).collect();
                    let _ = write!(o, ",\"r\":{{\"n\":{},\"key\":{},\"k\":\"{}\",\"ga\":[{}]}}", js(&self.cx.pretty(rd)), js(&self.cx.key(rd)), kind, rga.join(","));
                }
            }
            if tcx.codegen_fn_attrs(d).target_features.len() > 0 {
                let tf: Vec<String> = tcx.codegen_fn_attrs(d).target_features.iter().filter(|f| matches!(f.kind, rustc_middle::middle::codegen_fn_attrs::TargetFeatureKind::Enabled)).map(|f| js(f.name.as_str())).collect();
                let _ = write!(o, ",\"tf\":{}", arr(tf));
            }
        }
        o.push('}');
        o
    }
    fn konst(&mut self, c: &ConstOperand<'tcx>) -> String {
        let tcx = self.cx.tcx;
        let t = c.const_.ty();
        if let ty::FnDef(d, args) = t.kind() {
            let f = self.fnref(*d, args.no_bound_vars().expect("fndef args"));
            return format!("[\"k\",{{\"t\":{},\"fn\":{}}}]", self.cx.ty(t), f);
        }
        let mut o = format!("{{\"t\":{}", self.cx.ty(t));
        if let mir::Const::Unevaluated(u, _) = c.const_ {
            match u.promoted {
                Some(p) => {
                    let _ = write!(o, ",\"pr\":{},\"prk\":{}", p.as_usize(), js(&self.cx.key(u.def)));
                }
                None => {
                    let ga: Vec<String> = u.args.iter().filter_map(|a| a.as_type()).map(|t| self.cx.ty(t).to_string()).collect();
                    let _ = write!(o, ",\"cn\":{},\"ck\":{},\"ga\":[{}]", js(&self.cx.pretty(u.def)), js(&self.cx.key(u.def)), ga.join(","));
                }
            }
        }
        if let mir::Const::Ty(_, ct) = c.const_ {
            let _ = write!(o, ",\"cp\":{}", js(&format!("{}", ct)));
        }
        if let mir::Const::Val(ConstValue::Scalar(rustc_middle::mir::interpret::Scalar::Ptr(p, _)), _) = c.const_ {
            use rustc_middle::mir::interpret::GlobalAlloc;
            if let Some(GlobalAlloc::Static(d)) = tcx.try_get_global_alloc(p.provenance.alloc_id()) {
                let _ = write!(o, ",\"st\":{},\"stk\":{}", js(&self.cx.pretty(d)), js(&self.cx.key(d)));
            }
        }
        let has_param = c.const_.has_param();
        if !has_param {
            if let Ok(v) = c.const_.eval(tcx, self.env, c.span) {
                match v {
                    ConstValue::Scalar(rustc_middle::mir::interpret::Scalar::Int(i)) => {
                        let bits = i.to_bits(i.size());
                        let _ = write!(o, ",\"v\":{},\"sz\":{}", bits, i.size().bytes());
                    }
                    ConstValue::ZeroSized => o.push_str(",\"zst\":true"),
                    ConstValue::Slice { .. } => {
                        if let ty::Ref(_, inner, _) = t.kind() {
                            if inner.is_str() {
                                if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                                    let _ = write!(o, ",\"str\":{}", js(&String::from_utf8_lossy(b)));
                                }
                            }
                        }
                    }
                    _ => {}
                }
            }
        }
        o.push('}');
        format!("[\"k\",{}]", o)
    }
    fn operand(&mut self, op: &Operand<'tcx>) -> String {
        match op {
            Operand::Copy(p) => format!("[\"c\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(p)),
            Operand::Constant(c) => self.konst(c),
            Operand::RuntimeChecks(_) => "[\"rc\"]".to_string(),
        }
    }
    fn rvalue(&mut self, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(o, ..) => format!("[\"use\",{}]", self.operand(o)),
            Rvalue::Repeat(o, n) => format!("[\"rep\",{},{}]", self.operand(o), js(&format!("{}", n))),
            Rvalue::Ref(_, bk, p) => format!("[\"ref\",{},{}]", matches!(bk, BorrowKind::Mut { .. }), self.place(p)),
            Rvalue::Reborrow(_, m, p) => format!("[\"ref\",{},{}]", m.is_mut(), self.place(p)),
            Rvalue::RawPtr(k, p) => format!("[\"raw\",{},{}]", matches!(k, RawPtrKind::Mut), self.place(p)),
            Rvalue::Cast(k, o, t) => {
                let kd = match k {
                    CastKind::PointerCoercion(c, _) => match c {
                        ty::adjustment::PointerCoercion::Unsize => "unsize".to_string(),
                        ty::adjustment::PointerCoercion::ReifyFnPointer(..) => "reify".to_string(),
                        ty::adjustment::PointerCoercion::ClosureFnPointer(..) => "closurefn".to_string(),
                        _ => "ptrcoerce".to_string(),
                    },
                    k => format!("{:?}", k),
                };
                let ot = o.ty(self.body, self.cx.tcx);
                let oti = self.cx.ty(ot);
                format!("[\"cast\",{},{},{},{}]", js(&kd), self.operand(o), self.cx.ty(*t), oti)
            }
            Rvalue::BinaryOp(b, ops) => format!("[\"bin\",\"{:?}\",{},{}]", b, self.operand(&ops.0), self.operand(&ops.1)),
            Rvalue::UnaryOp(u, o) => format!("[\"un\",\"{:?}\",{}]", u, self.operand(o)),
            Rvalue::Discriminant(p) => {
                let t = p.ty(self.body, self.cx.tcx).ty;
                let mut vs: Vec<String> = vec![];
                if let ty::Adt(def, _) = t.kind() {
                    if def.is_enum() {
                        for (i, d) in def.discriminants(self.cx.tcx) {
                            vs.push(format!("[{},{}]", d.val, js(def.variant(i).name.as_str())));
                        }
                    }
                }
                format!("[\"discr\",{},{}]", self.place(p), arr(vs))
            }
            Rvalue::Aggregate(k, ops) => {
                let ops: Vec<String> = ops.iter().map(|o| self.operand(o)).collect();
                let kd = match &**k {
                    AggregateKind::Array(_) => "[\"array\"]".to_string(),
                    AggregateKind::Tuple => "[\"tuple\"]".to_string(),
                    AggregateKind::Adt(d, v, ..) => {
                        let def = self.cx.tcx.adt_def(*d);
                        let vd = def.variant(*v);
                        let fields: Vec<String> = vd.fields.iter().map(|f| js(f.name.as_str())).collect();
                        format!("[\"adt\",{},{},{},{}]", js(&self.cx.plain(*d)), v.as_usize(), js(vd.name.as_str()), arr(fields))
                    }
                    AggregateKind::Closure(d, _) | AggregateKind::Coroutine(d, _) | AggregateKind::CoroutineClosure(d, _) => {
                        format!("[\"closure\",{},{}]", js(&self.cx.key(*d)), js(&self.cx.pretty(*d)))
                    }
                    AggregateKind::RawPtr(..) => "[\"rawptr\"]".to_string(),
                };
                format!("[\"agg\",{},{}]", kd, arr(ops))
            }
            Rvalue::ThreadLocalRef(d) => format!("[\"tls\",{}]", js(&self.cx.pretty(*d))),
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"c\",{}]]", self.place(p)),
            Rvalue::WrapUnsafeBinder(o, _) => format!("[\"use\",{}]", self.operand(o)),
        }
    }
    fn unwind(&self, u: &UnwindAction) -> String {
        match u {
            UnwindAction::Cleanup(b) => b.as_usize().to_string(),
            UnwindAction::Continue => "\"cont\"".into(),
            UnwindAction::Unreachable => "\"unreach\"".into(),
            UnwindAction::Terminate(_) => "\"abort\"".into(),
        }
    }
    fn dump(&mut self) -> String {
        let body = self.body;
        let mut locals = vec![];
        for d in body.local_decls.iter() {
            locals.push(self.cx.ty(d.ty).to_string());
        }
        let mut names = vec![];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                names.push(format!("[{},{},{}]", js(v.name.as_str()), self.place(p), v.argument_index.map(|x| x.to_string()).unwrap_or("null".into())));
            }
        }
        let mut blocks = vec![];
        for bb in body.basic_blocks.iter() {
            let mut st = vec![];
            for s in &bb.statements {
                let line = self.cx.loc(s.source_info.span).1;
                let x = match &s.kind {
                    StatementKind::Assign(b) => {
                        let (p, r) = &**b;
                        format!("[\"=\",{},{},{}]", self.place(p), self.rvalue(r), line)
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => format!("[\"sd\",{},{},{}]", self.place(place), variant_index.as_usize(), line),
                    StatementKind::StorageLive(l) => format!("[\"sl\",{}]", l.as_usize()),
                    StatementKind::StorageDead(l) => format!("[\"dead\",{}]", l.as_usize()),
                    StatementKind::Intrinsic(i) => format!("[\"intr\",{},{}]", js(&format!("{:?}", i)), line),
                    _ => continue,
                };
                st.push(x);
            }
            let t = bb.terminator();
            let sp = t.source_info.span;
            let line = self.cx.loc(sp).1;
            let tx = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let tv: Vec<String> = targets.iter().map(|(v, b)| format!("[{},{}]", v, b.as_usize())).collect();
                    let ty = discr.ty(self.body, self.cx.tcx);
                    let ti = self.cx.ty(ty);
                    format!("[\"switch\",{},{},{},{}]", self.operand(discr), arr(tv), targets.otherwise().as_usize(), ti)
                }
                TerminatorKind::Return => "[\"ret\"]".into(),
                TerminatorKind::Unreachable => "[\"unreach\"]".into(),
                TerminatorKind::UnwindResume => "[\"resume\"]".into(),
                TerminatorKind::UnwindTerminate(_) => "[\"abort\"]".into(),
                TerminatorKind::Drop { place, target, unwind, .. } => {
                    let pt = place.ty(self.body, self.cx.tcx).ty;
                    let ti = self.cx.ty(pt);
                    format!("[\"drop\",{},{},{},{},{}]", self.place(place), target.as_usize(), self.unwind(unwind), ti, line)
                }
                TerminatorKind::Call { func, args, destination, target, unwind, .. } => {
                    let a: Vec<String> = args.iter().map(|a| self.operand(&a.node)).collect();
                    format!(
                        "[\"call\",{},{},{},{},{},{},{}]",
                        self.operand(func),
                        arr(a),
                        self.place(destination),
                        target.map(|t| t.as_usize().to_string()).unwrap_or("null".into()),
                        self.unwind(unwind),
                        line,
                        self.cx.macros(sp)
                    )
                }
                TerminatorKind::TailCall { .. } => "[\"tailcall\"]".into(),
                TerminatorKind::Assert { cond, expected, msg, target, unwind } => {
                    let m = match &**msg {
                        AssertKind::BoundsCheck { len, index } => format!("[\"bounds\",{},{}]", self.operand(len), self.operand(index)),
                        AssertKind::Overflow(b, ..) => format!("[\"overflow\",\"{:?}\"]", b),
                        AssertKind::OverflowNeg(_) => "[\"overflow\",\"Neg\"]".into(),
                        AssertKind::DivisionByZero(_) => "[\"div0\"]".into(),
                        AssertKind::RemainderByZero(_) => "[\"rem0\"]".into(),
                        _ => "[\"other\"]".into(),
                    };
                    format!("[\"assert\",{},{},{},{},{},{}]", self.operand(cond), expected, m, target.as_usize(), self.unwind(unwind), line)
                }
                TerminatorKind::InlineAsm { template, operands, targets, .. } => {
                    let mut ops = vec![];
                    for o in operands.iter() {
                        ops.push(match o {
                            InlineAsmOperand::In { value, reg } => format!("[\"in\",{},{}]", self.operand(value), js(&format!("{:?}", reg))),
                            InlineAsmOperand::Out { place, reg, .. } => format!("[\"out\",{},{}]", place.map(|p| self.place(&p)).unwrap_or("null".into()), js(&format!("{:?}", reg))),
                            InlineAsmOperand::InOut { in_value, out_place, reg, .. } => format!("[\"inout\",{},{},{}]", self.operand(in_value), out_place.map(|p| self.place(&p)).unwrap_or("null".into()), js(&format!("{:?}", reg))),
                            _ => "[\"other\"]".into(),
                        });
                    }
                    let tpl: String = template.iter().map(|t| t.to_string()).collect::<Vec<_>>().join("");
                    let tg: Vec<String> = targets.iter().map(|t| t.as_usize().to_string()).collect();
                    format!("[\"asm\",{},{},{},{}]", js(&tpl), arr(ops), arr(tg), line)
                }
                TerminatorKind::Yield { .. } | TerminatorKind::CoroutineDrop => "[\"coro\"]".into(),
                TerminatorKind::FalseEdge { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
            };
            blocks.push(format!("{{\"s\":{},\"t\":{}{}}}", arr(st), tx, if bb.is_cleanup { ",\"c\":1" } else { "" }));
        }
        format!("\"argc\":{},\"locals\":[{}],\"names\":{},\"blocks\":[{}]", body.arg_count, locals.join(","), arr(names), blocks.join(",\n"))
    }
}

fn dump_crate(tcx: TyCtxt<'_>, out: &Path) {
    let krate = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
    let mut cx = Cx { tcx, types: vec![], tymap: HashMap::new() };
    let mut fns = vec![];
    let ev = tcx.effective_visibilities(());
    let mut keys: Vec<_> = tcx.mir_keys(()).iter().copied().collect();
    keys.sort_by_key(|d| cx.key(d.to_def_id()));
    for ld in keys {
        let d = ld.to_def_id();
        let kind = tcx.def_kind(d);
        let (body, is_ctfe): (&Body<'_>, bool) = match kind {
            DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {
                if matches!(kind, DefKind::Fn | DefKind::AssocFn) && !tcx.is_mir_available(d) {
                    continue;
                }
                (tcx.optimized_mir(d), false)
            }
            DefKind::Ctor(..) => continue,
            DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } | DefKind::AnonConst => (tcx.mir_for_ctfe(ld), true),
            _ => continue,
        };
        let env = ty::TypingEnv::post_analysis(tcx, d);
        let (file, line) = cx.loc(tcx.def_span(d));
        let mut o = format!("{{\"n\":{},\"key\":{},\"kind\":\"{}\",\"file\":{},\"line\":{}", js(&cx.pretty(d)), js(&cx.key(d)), match kind {
            DefKind::Fn => "fn",
            DefKind::AssocFn => "method",
            DefKind::Closure => "closure",
            DefKind::Static { .. } => "static",
            _ => "const",
        }, js(&file), line);
        let _ = write!(o, ",\"mac\":{}", cx.macros(tcx.def_span(d)));
        if is_ctfe { o.push_str(",\"ctfe\":true"); }
        if ev.is_reachable(ld) { o.push_str(",\"pub\":true"); }
        if let Some(v) = tcx.opt_item_name(d) { let _ = write!(o, ",\"name\":{}", js(v.as_str())); }
        if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
            let sig = tcx.fn_sig(d).skip_binder();
            if sig.safety().is_unsafe() { o.push_str(",\"uns\":true"); }
            let tf: Vec<String> = tcx.codegen_fn_attrs(d).target_features.iter().filter(|f| matches!(f.kind, rustc_middle::middle::codegen_fn_attrs::TargetFeatureKind::Enabled)).map(|f| js(f.name.as_str())).collect();
            if !tf.is_empty() { let _ = write!(o, ",\"tf\":{}", arr(tf)); }
        }
        if matches!(kind, DefKind::AssocFn) {
            let p = tcx.parent(d);
            if let DefKind::Impl { of_trait } = tcx.def_kind(p) {
                let st = tcx.type_of(p).instantiate_identity().skip_norm_wip();
                let i = cx.ty(st);
                let _ = write!(o, ",\"self\":{}", i);
                if of_trait {
                    let tr = tcx.impl_trait_ref(p).instantiate_identity().skip_norm_wip();
                    let _ = write!(o, ",\"trait\":{},\"traits\":{}", js(&cx.plain(tr.def_id)), js(&format!("{}", tr)));
                }
            } else if matches!(tcx.def_kind(p), DefKind::Trait) {
                let _ = write!(o, ",\"deftrait\":{}", js(&cx.plain(p)));
            }
        }
        if matches!(kind, DefKind::Closure) {
            let _ = write!(o, ",\"parent\":{}", js(&cx.key(tcx.typeck_root_def_id(d))));
        }
        {
            let mut b = BodyCx { cx: &mut cx, body, env };
            let s = b.dump();
            let _ = write!(o, ",{}", s);
        }
        // promoted constants
        let prom = if is_ctfe { None } else { Some(tcx.promoted_mir(d)) };
        if let Some(prom) = prom {
            let mut ps = vec![];
            for p in prom.iter() {
                let mut b = BodyCx { cx: &mut cx, body: p, env };
                ps.push(format!("{{{}}}", b.dump()));
            }
            if !ps.is_empty() { let _ = write!(o, ",\"promoted\":{}", arr(ps)); }
        }
        o.push('}');
        fns.push(o);
    }
    // ADTs
    let mut adts = vec![];
    let mut impls = vec![];
    let mut traits = vec![];
    for id in tcx.hir_crate_items(()).definitions() {
        let d = id.to_def_id();
        match tcx.def_kind(d) {
            DefKind::Struct | DefKind::Enum | DefKind::Union => {
                let def = tcx.adt_def(d);
                let mut vs = vec![];
                let discrs: Vec<u128> = if def.is_enum() { def.discriminants(tcx).map(|(_, x)| x.val).collect() } else { vec![0] };
                for (i, v) in def.variants().iter().enumerate() {
                    let fs: Vec<String> = v.fields.iter().map(|f| {
                        let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                        let vis = tcx.visibility(f.did).is_public();
                        format!("[{},{},{}]", js(f.name.as_str()), cx.ty(t), vis)
                    }).collect();
                    vs.push(format!("{{\"n\":{},\"d\":{},\"f\":{}}}", js(v.name.as_str()), discrs.get(i).copied().unwrap_or(0), arr(fs)));
                }
                let (file, line) = cx.loc(tcx.def_span(d));
                let repr = def.repr();
                adts.push(format!("{{\"n\":{},\"kind\":\"{}\",\"v\":{},\"file\":{},\"line\":{},\"transparent\":{},\"pub\":{},\"repr\":{}}}", js(&cx.pretty(d)), if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" }, arr(vs), js(&file), line, repr.transparent(), ev.is_reachable(id), js(&format!("{:?}", repr))));
            }
            DefKind::Impl { of_trait } => {
                let st = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let (file, line) = cx.loc(tcx.def_span(d));
                let preds: Vec<String> = tcx.clauses_of(d).clauses.iter().map(|(p, _)| js(&format!("{}", p))).collect();
                let items: Vec<String> = tcx.associated_items(d).in_definition_order().map(|i| js(&cx.key(i.def_id))).collect();
                let mut o = format!("{{\"self\":{},\"st\":{},\"file\":{},\"line\":{},\"preds\":{},\"items\":{}", cx.ty(st), js(&cx.pretty_ty(st)), js(&file), line, arr(preds), arr(items));
                if of_trait {
                    let h = tcx.impl_trait_header(d);
                    let tr = h.trait_ref.instantiate_identity().skip_norm_wip();
                    let _ = write!(o, ",\"trait\":{},\"uns\":{},\"neg\":{}", js(&cx.plain(tr.def_id)), h.safety.is_unsafe(), matches!(h.polarity, ty::ImplPolarity::Negative));
                    let tas: Vec<String> = tr.args.iter().skip(1).filter_map(|a| a.as_type()).map(|t| js(&cx.pretty_ty(t))).collect();
                    let _ = write!(o, ",\"ta\":{}", arr(tas));
                }
                o.push('}');
                impls.push(o);
            }
            DefKind::Trait => {
                let items: Vec<String> = tcx.associated_items(d).in_definition_order().map(|i| format!("[{},{},{}]", js(i.opt_name().map(|n| n.to_string()).unwrap_or_default().as_str()), js(&cx.key(i.def_id)), i.defaultness(tcx).has_value())).collect();
                traits.push(format!("{{\"n\":{},\"items\":{}}}", js(&cx.pretty(d)), arr(items)));
            }
            _ => {}
        }
    }
    let types = cx.types.join(",\n");
    let s = format!("{{\"crate\":{},\"types\":[{}],\n\"fns\":[{}],\n\"adts\":[{}],\n\"impls\":[{}],\n\"traits\":[{}]}}\n", js(&krate), types, fns.join(",\n"), adts.join(",\n"), impls.join(",\n"), traits.join(",\n"));
    let tmp = out.join(format!("{}.json.tmp{}", krate, std::process::id()));
    std::fs::write(&tmp, s).expect("write facts");
    std::fs::rename(&tmp, out.join(format!("{}.json", krate))).expect("rename facts");
}

struct Cb {
    out: Option<PathBuf>,
}
impl Callbacks for Cb {
    fn config(&mut self, config: &mut interface::Config) {
        config.file_loader = Some(Box::new(Loader(RealFileLoader)));
    }
    fn after_analysis<'tcx>(&mut self, _c: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        if let Some(o) = &self.out {
            let name = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
            if !name.starts_with("build_script") {
                rustc_middle::ty::print::with_no_trimmed_paths!(dump_crate(tcx, o));
            }
        }
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("rustc")) && !args[1].starts_with('-') {
        args.remove(1);
    }
    let probing = args.iter().any(|a| a == "-vV" || a == "--print" || a.starts_with("--print="));
    if !probing {
        args.push("-Zmir-opt-level=0".into());
        args.push("-Awarnings".into());
    }
    let out = std::env::var_os("SPF_FACTS_DIR").map(PathBuf::from);
    let mut cb = Cb { out: if probing { None } else { out } };
    rustc_driver::compiler_entrypoint(&args, &mut cb);
}
