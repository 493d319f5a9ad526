// Static-analysis extractor for mbrobbel/narrow.
//
// Runs as RUSTC_WORKSPACE_WRAPPER under `cargo +nightly check` and, after the
// compiler's own analysis, writes one JSON document per workspace crate with
// the type-checked program: items, impls, signatures, visibilities and the MIR
// of every non-test function (with callees resolved under the function's own
// parameter environment, and the bodies of resolved callees included).
// Nothing of the analysed program is executed.
#![feature(rustc_private)]
#![allow(clippy::all)]

extern crate rustc_abi;
extern crate rustc_driver_impl;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_infer;
extern crate rustc_trait_selection;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId, LOCAL_CRATE};
use rustc_middle::mir::{self, *};
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, EarlyBinder, GenericArgsRef, Instance, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use rustc_infer::infer::TyCtxtInferExt;
use rustc_trait_selection::infer::InferCtxtExt;
use std::collections::HashMap;
use std::fmt::Write as _;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr<I: IntoIterator<Item = String>>(it: I) -> String {
    let v: Vec<String> = it.into_iter().collect();
    format!("[{}]", v.join(","))
}

#[derive(Clone, PartialEq, Eq, Hash)]
enum BodyRef<'tcx> {
    Inst(ty::Instance<'tcx>),
    Const(DefId, GenericArgsRef<'tcx>),
    Promoted(DefId, GenericArgsRef<'tcx>, usize),
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<String>,
    type_ids: HashMap<Ty<'tcx>, usize>,
    bodies: Vec<String>,
    body_ids: HashMap<(usize, BodyRef<'tcx>), usize>,
    queue: Vec<(usize, BodyRef<'tcx>, usize, usize)>,
    envs: Vec<TypingEnv<'tcx>>,
    env_ids: HashMap<String, usize>,
    cur_env: usize,
    cur_depth: usize,
    traits_json: HashMap<DefId, ()>,
    touched: Vec<Ty<'tcx>>,
    marks: Vec<(&'static str, DefId)>,
}

impl<'tcx> Cx<'tcx> {
    fn env(&self) -> TypingEnv<'tcx> {
        self.envs[self.cur_env]
    }
    fn cpath(&self, d: DefId) -> String {
        let tcx = self.tcx;
        format!("{}{}", tcx.crate_name(d.krate), tcx.def_path(d).to_string_no_crate_verbose())
    }
    fn simple_ty(&mut self, t: Ty<'tcx>) -> String {
        match *t.kind() {
            ty::Adt(a, _) => self.cpath(a.did()),
            ty::Slice(_) => "[T]".into(),
            ty::Array(..) => "[T;N]".into(),
            ty::Ref(_, inner, m) => {
                let i = self.simple_ty(inner);
                format!("&{}{}", if m.is_mut() { "mut " } else { "" }, i)
            }
            ty::RawPtr(_, m) => format!("*{}", if m.is_mut() { "mut T" } else { "const T" }),
            ty::Param(_) => "?".into(),
            ty::Tuple(ts) => format!("({})", ts.len()),
            _ => with_no_trimmed_paths!(format!("{t}")),
        }
    }
    fn qname(&mut self, d: DefId) -> String {
        let tcx = self.tcx;
        match tcx.def_kind(d) {
            DefKind::Closure => {
                let p = tcx.parent(d);
                let n = tcx.def_path(d).to_string_no_crate_verbose();
                let last = n.rsplit("::").next().unwrap_or("").to_string();
                return format!("{}::{}", self.qname(p), last);
            }
            _ => {}
        }
        let Some(parent) = tcx.opt_parent(d) else { return self.cpath(d) };
        if matches!(tcx.def_kind(parent), DefKind::Impl { .. }) {
            let name = tcx.item_name(d);
            let st = tcx.type_of(parent).instantiate_identity().skip_norm_wip();
            let s = self.simple_ty(st);
            if let Some(tr) = tcx.impl_opt_trait_ref(parent) {
                let trd = tr.skip_binder().def_id;
                return format!("<{} as {}>::{}", s, self.cpath(trd), name);
            }
            return format!("{}::{}", s, name);
        }
        if matches!(tcx.def_kind(parent), DefKind::Fn | DefKind::AssocFn | DefKind::Closure | DefKind::AssocConst{..} | DefKind::Const{..}) {
            let n = tcx.def_path(d).to_string_no_crate_verbose();
            let last = n.rsplit("::").next().unwrap_or("").to_string();
            return format!("{}::{}", self.qname(parent), last);
        }
        self.cpath(d)
    }
    fn span(&self, sp: Span) -> String {
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(sp.lo());
        let f = match &lo.file.name {
            rustc_span::FileName::Real(r) => r
                .local_path()
                .map(|p| p.to_string_lossy().to_string())
                .unwrap_or_else(|| "?".into()),
            _ => "?".into(),
        };
        format!("{}:{}", f, lo.line)
    }
    fn ct(&mut self, c: ty::Const<'tcx>) -> String {
        match c.kind() {
            ty::ConstKind::Param(p) => format!("{{\"param\":{}}}", esc(p.name.as_str())),
            ty::ConstKind::Value(_) => match c.try_to_leaf() {
                Some(s) => format!("{{\"int\":{}}}", esc(&s.to_bits_unchecked().to_string())),
                None => "{\"other\":1}".into(),
            },
            _ => format!("{{\"expr\":{}}}", esc(&format!("{c:?}"))),
        }
    }
    fn args(&mut self, a: GenericArgsRef<'tcx>) -> String {
        let mut v = vec![];
        for g in a.iter() {
            match g.kind() {
                ty::GenericArgKind::Type(t) => v.push(format!("{}", self.ty(t))),
                ty::GenericArgKind::Const(c) => v.push(self.ct(c)),
                ty::GenericArgKind::Lifetime(_) => {}
            }
        }
        arr(v)
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if matches!(t.kind(), ty::Param(_) | ty::Alias(..)) && !self.touched.contains(&t) {
            self.touched.push(t);
        }
        if let Some(&i) = self.type_ids.get(&t) {
            return i;
        }
        let id = self.types.len();
        self.types.push(String::new());
        self.type_ids.insert(t, id);
        let tcx = self.tcx;
        let s = with_no_trimmed_paths!(format!("{t}"));
        let body = match *t.kind() {
            ty::Bool => "\"k\":\"bool\"".to_string(),
            ty::Char => "\"k\":\"char\"".into(),
            ty::Int(i) => format!("\"k\":\"int\",\"n\":\"{}\",\"bits\":{},\"signed\":true", i.name_str(), i.bit_width().unwrap_or(64)),
            ty::Uint(i) => format!("\"k\":\"int\",\"n\":\"{}\",\"bits\":{},\"signed\":false", i.name_str(), i.bit_width().unwrap_or(64)),
            ty::Float(f) => format!("\"k\":\"float\",\"n\":\"{}\"", f.name_str()),
            ty::Str => "\"k\":\"str\"".into(),
            ty::Never => "\"k\":\"never\"".into(),
            ty::Adt(def, a) => {
                let path = self.cpath(def.did());
                let aj = self.args(a);
                let kind = if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" };
                let mut vs = vec![];
                let expand = {
                    let n = tcx.crate_name(def.did().krate);
                    let n = n.as_str();
                    n == "narrow" || n == "narrow_ffi" || def.is_enum() || path == "alloc::boxed::Box"
                        || path.starts_with("core::")
                };
                if expand {
                    for (vi, v) in def.variants().iter_enumerated() {
                        let mut fs = vec![];
                        for f in v.fields.iter() {
                            let ft = f.ty(tcx, a);
                            let ft = tcx
                                .try_normalize_erasing_regions(self.env(), ft)
                                .unwrap_or(ft.skip_norm_wip());
                            let fid = self.ty(ft);
                            let vis = match f.vis {
                                ty::Visibility::Public => "pub".to_string(),
                                ty::Visibility::Restricted(m) => format!("in {}", self.cpath(m.to_def_id())),
                            };
                            fs.push(format!("[{},{},{}]", esc(f.name.as_str()), fid, esc(&vis)));
                        }
                        let discr = if def.is_enum() {
                            def.discriminant_for_variant(tcx, vi).val.to_string()
                        } else {
                            "0".into()
                        };
                        vs.push(format!("{{\"n\":{},\"d\":{},\"f\":{}}}", esc(v.name.as_str()), esc(&discr), arr(fs)));
                    }
                }
                let mut drop = "null".to_string();
                if let Some(d) = tcx.adt_destructor(def.did()) {
                    let n = tcx.crate_name(def.did().krate);
                    if n.as_str() == "narrow" || n.as_str() == "narrow_ffi" {
                        if let Ok(Some(inst)) = Instance::try_resolve(tcx, self.env(), d.did, a) {
                            let e = self.cur_env;
                            let dep = self.cur_depth + 1;
                            drop = format!("{}", self.body(e, BodyRef::Inst(inst), dep));
                        }
                    } else {
                        drop = "-1".into();
                    }
                }
                format!(
                    "\"k\":\"adt\",\"path\":{},\"ak\":\"{}\",\"args\":{},\"variants\":{},\"drop\":{},\"repr\":{},\"phantom\":{}",
                    esc(&path), kind, aj, arr(vs), drop, esc(&format!("{:?}", def.repr().flags)), def.is_phantom_data()
                )
            }
            ty::Array(e, n) => {
                let ei = self.ty(e);
                let c = self.ct(n);
                format!("\"k\":\"array\",\"e\":{ei},\"n\":{c}")
            }
            ty::Slice(e) => {
                let ei = self.ty(e);
                format!("\"k\":\"slice\",\"e\":{ei}")
            }
            ty::RawPtr(e, m) => {
                let ei = self.ty(e);
                format!("\"k\":\"ptr\",\"e\":{ei},\"m\":{}", m.is_mut())
            }
            ty::Ref(_, e, m) => {
                let ei = self.ty(e);
                format!("\"k\":\"ref\",\"e\":{ei},\"m\":{}", m.is_mut())
            }
            ty::Tuple(ts) => {
                let v: Vec<String> = ts.iter().map(|t| self.ty(t).to_string()).collect();
                format!("\"k\":\"tuple\",\"f\":{}", arr(v))
            }
            ty::Param(p) => format!("\"k\":\"param\",\"n\":{}", esc(p.name.as_str())),
            ty::FnDef(d, a) => {
                let q = self.qname(d);
                let aj = self.args(a.skip_binder());
                let callee = self.callee(d, a.skip_binder());
                format!("\"k\":\"fndef\",\"q\":{},\"args\":{},\"callee\":{}", esc(&q), aj, callee)
            }
            ty::FnPtr(..) => "\"k\":\"fnptr\"".into(),
            ty::Closure(d, a) => {
                let q = self.qname(d);
                let ups: Vec<String> = a.as_closure().upvar_tys().iter().map(|t| self.ty(t).to_string()).collect();
                let kind = format!("{:?}", a.as_closure().kind());
                let e = self.cur_env;
                let dep = self.cur_depth + 1;
                let inst = Instance::new_raw(d, a);
                let b = self.body(e, BodyRef::Inst(inst), dep);
                format!("\"k\":\"closure\",\"q\":{},\"up\":{},\"ck\":{},\"body\":{}", esc(&q), arr(ups), esc(&kind), b)
            }
            ty::Alias(_, al) => {
                let k = format!("{:?}", al.kind);
                let d = match al.kind {
                    ty::AliasTyKind::Projection { def_id } => def_id.into(),
                    ty::AliasTyKind::Inherent { def_id } => def_id.into(),
                    ty::AliasTyKind::Opaque { def_id } => def_id.into(),
                    ty::AliasTyKind::Free { def_id } => def_id.into(),
                };
                let d: DefId = d;
                let path = self.cpath(d);
                let aj = self.args(al.args);
                format!("\"k\":\"alias\",\"ak\":{},\"path\":{},\"args\":{}", esc(&k), esc(&path), aj)
            }
            ty::Dynamic(..) => "\"k\":\"dyn\"".into(),
            _ => "\"k\":\"other\"".into(),
        };
        self.types[id] = format!("{{{},\"s\":{}}}", body, esc(&s));
        id
    }

    // Where a call to `def` with `args` goes, in the current environment.
    fn callee(&mut self, def: DefId, args: GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        let q = self.qname(def);
        let mut o = format!("{{\"q\":{}", esc(&q));
        let aj = self.args(args);
        let _ = write!(o, ",\"args\":{aj}");
        let mut tr = None;
        if let Some(t) = tcx.trait_of_assoc(def) {
            tr = Some(t);
            let p = self.cpath(t);
            let st = self.ty(args.type_at(0));
            let _ = write!(o, ",\"trait\":{},\"self\":{},\"name\":{}", esc(&p), st, esc(tcx.item_name(def).as_str()));
        }
        if let Some(i) = tcx.intrinsic(def) {
            let _ = write!(o, ",\"intrinsic\":{}", esc(i.name.as_str()));
        }
        if matches!(tcx.def_kind(def), DefKind::Ctor(..)) {
            let p = tcx.parent(def);
            let (adt, v) = if tcx.def_kind(p) == DefKind::Variant {
                let a = tcx.parent(p);
                (a, tcx.adt_def(a).variant_index_with_id(p).as_usize())
            } else {
                (p, 0)
            };
            let ap = self.cpath(adt);
            let _ = write!(o, ",\"ctor\":[{},{}]", esc(&ap), v);
            o.push('}');
            return o;
        }
        match Instance::try_resolve(tcx, self.env(), def, args) {
            Ok(Some(inst)) => {
                match inst.def {
                    ty::InstanceKind::Item(d) => {
                        let rq = self.qname(d);
                        let _ = write!(o, ",\"rq\":{}", esc(&rq));
                        if d != def {
                            let ra = self.args(inst.args);
                            let _ = write!(o, ",\"rargs\":{ra}");
                        }
                        if self.descend(d, &rq) {
                            let e = self.cur_env;
                            let dep = self.cur_depth + 1;
                            let b = self.body(e, BodyRef::Inst(inst), dep);
                            let _ = write!(o, ",\"body\":{b}");
                        }
                    }
                    ty::InstanceKind::Intrinsic(_) => o.push_str(",\"rk\":\"intrinsic\""),
                    ty::InstanceKind::Virtual(..) => o.push_str(",\"rk\":\"virtual\""),
                    ty::InstanceKind::Shim(k) => {
                        let n = match k {
                            ty::ShimKind::FnPtr(..) => "fnptr".to_string(),
                            ty::ShimKind::ClosureOnce { closure, .. } => {
                                let q = self.qname(closure);
                                format!("closure_once {q}")
                            }
                            ty::ShimKind::DropGlue(..) => "drop".into(),
                            ty::ShimKind::Clone(..) => "clone".into(),
                            ty::ShimKind::Reify(..) => "reify".into(),
                            _ => "other".into(),
                        };
                        let _ = write!(o, ",\"rk\":{}", esc(&format!("shim:{n}")));
                    }
                    _ => o.push_str(",\"rk\":\"other\""),
                }
            }
            Ok(None) => o.push_str(",\"rk\":\"opaque\""),
            Err(_) => o.push_str(",\"rk\":\"error\""),
        }
        let _ = tr;
        o.push('}');
        o
    }
    fn descend(&self, d: DefId, rq: &str) -> bool {
        let tcx = self.tcx;
        if self.cur_depth > 14 {
            return false;
        }
        if !tcx.is_mir_available(d) {
            return false;
        }
        let cn = tcx.crate_name(d.krate);
        let cn = cn.as_str();
        if cn == "narrow" || cn == "narrow_ffi" {
            return true;
        }
        if cn != "core" && cn != "alloc" {
            return false;
        }
        let p = tcx.def_path(d).to_string_no_crate_verbose();
        const OK: &[&str] = &[
            "::option", "::result", "::bool", "::convert", "::ops::control_flow", "::ops::try_trait", "::ops::function",
            "::cmp", "::borrow", "::clone", "::default", "::ops::deref", "::boxed::convert",
        ];
        let _ = rq;
        OK.iter().any(|o| p.starts_with(o))
    }
    fn body(&mut self, env: usize, b: BodyRef<'tcx>, depth: usize) -> usize {
        if let Some(&i) = self.body_ids.get(&(env, b.clone())) {
            return i;
        }
        let id = self.bodies.len();
        self.bodies.push("null".into());
        self.body_ids.insert((env, b.clone()), id);
        self.queue.push((env, b, id, depth));
        id
    }
    fn run_queue(&mut self) {
        while let Some((env, b, id, depth)) = self.queue.pop() {
            self.cur_env = env;
            self.cur_depth = depth;
            let s = self.emit_body(&b);
            self.bodies[id] = s;
        }
    }
    fn emit_body(&mut self, b: &BodyRef<'tcx>) -> String {
        let tcx = self.tcx;
        let (body, args, def, kind): (&'tcx Body<'tcx>, GenericArgsRef<'tcx>, DefId, &str) = match *b {
            BodyRef::Inst(i) => {
                let d = i.def_id();
                if !tcx.is_mir_available(d) {
                    return "null".into();
                }
                (tcx.instance_mir(i.def), i.args, d, "fn")
            }
            BodyRef::Const(d, a) => (tcx.mir_for_ctfe(d), a, d, "const"),
            BodyRef::Promoted(d, a, p) => (&tcx.promoted_mir(d)[mir::Promoted::from_usize(p)], a, d, "promoted"),
        };
        let env = self.env();
        let norm = tcx
            .try_instantiate_and_normalize_erasing_regions(args, env, EarlyBinder::bind(tcx, body.clone()));
        let body: Body<'tcx> = match norm {
            Ok(b) => b,
            Err(_) => EarlyBinder::bind(tcx, body.clone()).instantiate(tcx, args).skip_norm_wip(),
        };
        let q = self.qname(def);
        let mut o = String::new();
        self.touched.clear();
        let aj = self.args(args);
        let _ = write!(
            o,
            "{{\"q\":{},\"kind\":\"{}\",\"args\":{},\"argc\":{},\"span\":{},\"local\":{}",
            esc(&q), kind, aj, body.arg_count, esc(&self.span(body.span)), def.is_local()
        );
        if let Some(s) = body.spread_arg {
            let _ = write!(o, ",\"spread\":{}", s.as_usize());
        }
        let locals: Vec<String> = body.local_decls.iter().map(|l| self.ty(l.ty).to_string()).collect();
        let _ = write!(o, ",\"locals\":{}", arr(locals));
        let mut names = vec![];
        for v in body.var_debug_info.iter() {
            if let VarDebugInfoContents::Place(p) = v.value {
                let pj = self.place(&p);
                names.push(format!("[{},{}]", esc(v.name.as_str()), pj));
            }
        }
        let _ = write!(o, ",\"names\":{}", arr(names));
        let mut blocks = vec![];
        for (_, bb) in body.basic_blocks.iter_enumerated() {
            let mut ss = vec![];
            for st in bb.statements.iter() {
                if let Some(s) = self.stmt(&body, st) {
                    ss.push(s);
                }
            }
            let t = self.term(&body, bb.terminator());
            blocks.push(format!("{{\"s\":{},\"t\":{},\"c\":{}}}", arr(ss), t, bb.is_cleanup));
        }
        let _ = write!(o, ",\"blocks\":{}", arr(blocks));
        let touched = std::mem::take(&mut self.touched);
        let mut ks = vec![];
        for t in touched {
            let mut m = vec![];
            for &(n, tr) in self.marks.iter() {
                let (infcx, penv) = tcx.infer_ctxt().build_with_typing_env(env);
                if infcx.type_implements_trait(tr, [t], penv).must_apply_modulo_regions() {
                    m.push(esc(n));
                }
            }
            ks.push(format!("\"{}\":{}", self.type_ids[&t], arr(m)));
        }
        let _ = write!(o, ",\"opq\":{{{}}}}}", ks.join(","));
        o
    }
    fn place(&mut self, p: &Place<'tcx>) -> String {
        let mut v = vec![];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => "[\"*\"]".to_string(),
                ProjectionElem::Field(f, t) => format!("[\"f\",{},{}]", f.as_usize(), self.ty(t)),
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l.as_usize()),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    format!("[\"c\",{offset},{min_length},{from_end}]")
                }
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"s\",{from},{to},{from_end}]"),
                ProjectionElem::Downcast(_, v) => format!("[\"d\",{}]", v.as_usize()),
                _ => "[\"o\"]".into(),
            });
        }
        format!("[{},{}]", p.local.as_usize(), arr(v))
    }
    fn op(&mut self, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("[\"c\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(p)),
            Operand::Constant(c) => format!("[\"k\",{}]", self.konst(c.const_, c.span)),
            Operand::RuntimeChecks(_) => "[\"rt\"]".into(),
        }
    }
    fn bytes_of(&mut self, v: ConstValue, t: Ty<'tcx>) -> Option<String> {
        let ConstValue::Slice { alloc_id, meta } = v else { return None };
        let inner = match *t.kind() {
            ty::Ref(_, i, _) => i,
            _ => return None,
        };
        let ok = match *inner.kind() {
            ty::Str => true,
            ty::Slice(e) => e == self.tcx.types.u8,
            ty::Adt(a, _) => self.cpath(a.did()) == "core::ffi::c_str::CStr",
            _ => false,
        };
        if !ok {
            return None;
        }
        let a = self.tcx.global_alloc(alloc_id).unwrap_memory();
        let b = a.inner().inspect_with_uninit_and_ptr_outside_interpreter(0..(meta as usize));
        Some(arr(b.iter().map(|x| x.to_string())))
    }
    fn konst(&mut self, c: mir::Const<'tcx>, span: Span) -> String {
        let tcx = self.tcx;
        let t = c.ty();
        let tid = self.ty(t);
        let mut o = format!("{{\"t\":{tid}");
        if let mir::Const::Ty(_, k) = c {
            if let ty::ConstKind::Param(p) = k.kind() {
                let _ = write!(o, ",\"param\":{}}}", esc(p.name.as_str()));
                return o;
            }
        }
        match *t.kind() {
            ty::FnDef(..) => {
                o.push_str(",\"fn\":1}");
                return o;
            }
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) => {
                if let Some(b) = c.try_eval_bits(tcx, self.env()) {
                    let _ = write!(o, ",\"int\":{}", esc(&b.to_string()));
                    if let mir::Const::Unevaluated(u, _) = c {
                        let q = self.qname(u.def);
                        let _ = write!(o, ",\"uq\":{}", esc(&q));
                    }
                    o.push('}');
                    return o;
                }
            }
            _ => {}
        }
        if let mir::Const::Unevaluated(u, _) = c {
            let q = self.qname(u.def);
            let aj = self.args(u.args);
            let _ = write!(o, ",\"uq\":{},\"uargs\":{}", esc(&q), aj);
            if let Some(p) = u.promoted {
                let e = self.cur_env;
                let dep = self.cur_depth;
                let b = self.body(e, BodyRef::Promoted(u.def, u.args, p.as_usize()), dep);
                let _ = write!(o, ",\"promoted\":{b}}}");
                return o;
            }
            if let Ok(v) = c.eval(tcx, self.env(), span) {
                if let Some(b) = self.bytes_of(v, t) {
                    let _ = write!(o, ",\"bytes\":{b}}}");
                    return o;
                }
            }
            // A trait constant: find where it is defined, if that is known.
            let mut target = None;
            if tcx.trait_of_assoc(u.def).is_some() {
                if let Ok(Some(i)) = Instance::try_resolve(tcx, self.env(), u.def, u.args) {
                    target = Some((i.def_id(), i.args));
                }
                let tr = tcx.trait_of_assoc(u.def).unwrap();
                let tp = self.cpath(tr);
                let st = self.ty(u.args.type_at(0));
                let _ = write!(o, ",\"utrait\":{},\"uself\":{},\"uname\":{}", esc(&tp), st, esc(tcx.item_name(u.def).as_str()));
            } else {
                target = Some((u.def, u.args));
            }
            if let Some((d, a)) = target {
                if tcx.is_mir_available(d) {
                    let e = self.cur_env;
                    let dep = self.cur_depth + 1;
                    if dep < 12 {
                        let b = self.body(e, BodyRef::Const(d, a), dep);
                        let _ = write!(o, ",\"cbody\":{b}");
                    }
                }
            }
            o.push('}');
            return o;
        }
        if let mir::Const::Val(v, _) = c {
            if let Some(b) = self.bytes_of(v, t) {
                let _ = write!(o, ",\"bytes\":{b}}}");
                return o;
            }
            if let ConstValue::ZeroSized = v {
                o.push_str(",\"zst\":1}");
                return o;
            }
            if let Some(s) = v.try_to_scalar_int() {
                let _ = write!(o, ",\"int\":{}}}", esc(&s.to_bits_unchecked().to_string()));
                return o;
            }
            if let ConstValue::Scalar(mir::interpret::Scalar::Ptr(p, _)) = v {
                // a pointer into a constant allocation: bytes if it is plain data
                let (prov, off) = p.prov_and_relative_offset();
                if let Some(mir::interpret::GlobalAlloc::Memory(m)) = tcx.try_get_global_alloc(prov.alloc_id()) {
                    let n = m.inner().len();
                    let o0 = off.bytes() as usize;
                    if m.inner().provenance().ptrs().is_empty() && n >= o0 && n < 4096 {
                        let b = m.inner().inspect_with_uninit_and_ptr_outside_interpreter(o0..n);
                        let _ = write!(o, ",\"pbytes\":{}", arr(b.iter().map(|x| x.to_string())));
                    }
                }
                o.push('}');
                return o;
            }
        }
        let _ = write!(o, ",\"dbg\":{}}}", esc(&format!("{c:?}")));
        o
    }
    fn stmt(&mut self, body: &Body<'tcx>, st: &Statement<'tcx>) -> Option<String> {
        let sp = self.span(st.source_info.span);
        let _ = body;
        Some(match &st.kind {
            StatementKind::Assign(b) => {
                let (p, r) = &**b;
                let pj = self.place(p);
                let rj = self.rvalue(r);
                format!("[\"=\",{},{},{}]", pj, rj, esc(&sp))
            }
            StatementKind::SetDiscriminant { place, variant_index } => {
                format!("[\"sd\",{},{}]", self.place(place), variant_index.as_usize())
            }
            StatementKind::StorageLive(l) => format!("[\"sl\",{}]", l.as_usize()),
            StatementKind::StorageDead(l) => format!("[\"dead\",{}]", l.as_usize()),
            StatementKind::Intrinsic(i) => match &**i {
                NonDivergingIntrinsic::Assume(o) => format!("[\"assume\",{}]", self.op(o)),
                _ => "[\"copynonoverlapping\"]".into(),
            },
            _ => return None,
        })
    }
    fn rvalue(&mut self, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.op(o)),
            Rvalue::Repeat(o, n) => format!("[\"rep\",{},{}]", self.op(o), self.ct(*n)),
            Rvalue::Ref(_, k, p) => {
                let m = matches!(k, BorrowKind::Mut { .. });
                format!("[\"ref\",{},{}]", m, self.place(p))
            }
            Rvalue::Reborrow(_, m, p) => format!("[\"reb\",{},{}]", m.is_mut(), self.place(p)),
            Rvalue::RawPtr(k, p) => format!("[\"raw\",{},{}]", matches!(k, RawPtrKind::Mut), self.place(p)),
            Rvalue::Cast(k, o, t) => {
                let ks = format!("{k:?}");
                format!("[\"cast\",{},{},{}]", esc(&ks), self.op(o), self.ty(*t))
            }
            Rvalue::BinaryOp(b, ops) => format!("[\"bin\",\"{:?}\",{},{}]", b, self.op(&ops.0), self.op(&ops.1)),
            Rvalue::UnaryOp(u, o) => format!("[\"un\",\"{:?}\",{}]", u, self.op(o)),
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(p)),
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"c\",{}]]", self.place(p)),
            Rvalue::Aggregate(k, fs) => {
                let fj: Vec<String> = fs.iter().map(|o| self.op(o)).collect();
                let fj = arr(fj);
                match **k {
                    AggregateKind::Array(t) => format!("[\"agg\",\"array\",{},{}]", self.ty(t), fj),
                    AggregateKind::Tuple => format!("[\"agg\",\"tuple\",0,{fj}]"),
                    AggregateKind::Adt(d, v, a, _, af) => {
                        let p = self.cpath(d);
                        let aj = self.args(a);
                        format!(
                            "[\"agg\",\"adt\",[{},{},{},{}],{}]",
                            esc(&p), v.as_usize(), aj,
                            af.map(|x| x.as_usize().to_string()).unwrap_or("null".into()), fj
                        )
                    }
                    AggregateKind::Closure(d, a) => {
                        let t = Ty::new_closure(self.tcx, d, a);
                        format!("[\"agg\",\"closure\",{},{}]", self.ty(t), fj)
                    }
                    AggregateKind::RawPtr(t, m) => format!("[\"agg\",\"rawptr\",[{},{}],{}]", self.ty(t), m.is_mut(), fj),
                    _ => "[\"agg\",\"other\",0,[]]".into(),
                }
            }
            _ => "[\"other\"]".into(),
        }
    }
    fn unwind(&self, u: &UnwindAction) -> String {
        match u {
            UnwindAction::Continue => "\"cont\"".into(),
            UnwindAction::Unreachable => "\"unreach\"".into(),
            UnwindAction::Terminate(_) => "\"abort\"".into(),
            UnwindAction::Cleanup(b) => b.as_usize().to_string(),
        }
    }
    fn term(&mut self, body: &Body<'tcx>, t: &Terminator<'tcx>) -> String {
        let sp = esc(&self.span(t.source_info.span));
        match &t.kind {
            TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_usize()),
            TerminatorKind::SwitchInt { discr, targets } => {
                let ty = discr.ty(body, self.tcx);
                let tid = self.ty(ty);
                let v: Vec<String> = targets.iter().map(|(v, b)| format!("[{},{}]", esc(&v.to_string()), b.as_usize())).collect();
                format!("[\"switch\",{},{},{},{},{}]", self.op(discr), arr(v), targets.otherwise().as_usize(), tid, sp)
            }
            TerminatorKind::UnwindResume => "[\"resume\"]".into(),
            TerminatorKind::UnwindTerminate(_) => "[\"abort\"]".into(),
            TerminatorKind::Return => format!("[\"ret\",{sp}]"),
            TerminatorKind::Unreachable => "[\"unreach\"]".into(),
            TerminatorKind::Drop { place, target, unwind, .. } => {
                let ty = place.ty(body, self.tcx).ty;
                let tid = self.ty(ty);
                format!("[\"drop\",{},{},{},{},{}]", self.place(place), tid, target.as_usize(), self.unwind(unwind), sp)
            }
            TerminatorKind::Call { func, args, destination, target, unwind, .. } => {
                let fty = func.ty(body, self.tcx);
                let c = match *fty.kind() {
                    ty::FnDef(d, a) => self.callee(d, a.skip_binder()),
                    _ => format!("{{\"op\":{}}}", self.op(func)),
                };
                let aj: Vec<String> = args.iter().map(|a| self.op(&a.node)).collect();
                let at: Vec<String> = args.iter().map(|a| { let t = a.node.ty(body, self.tcx); self.ty(t).to_string() }).collect();
                let dt = destination.ty(body, self.tcx).ty;
                let dt = self.ty(dt);
                format!(
                    "[\"call\",{},{},{},{},{},{},{},{}]",
                    c, arr(aj), self.place(destination),
                    target.map(|b| b.as_usize().to_string()).unwrap_or("null".into()),
                    self.unwind(unwind), sp, arr(at), dt
                )
            }
            TerminatorKind::Assert { cond, expected, msg, target, unwind } => {
                let m = match &**msg {
                    AssertKind::BoundsCheck { .. } => "bounds".to_string(),
                    AssertKind::Overflow(b, ..) => format!("overflow:{b:?}"),
                    AssertKind::OverflowNeg(_) => "overflow:neg".into(),
                    AssertKind::DivisionByZero(_) => "div0".into(),
                    AssertKind::RemainderByZero(_) => "rem0".into(),
                    AssertKind::MisalignedPointerDereference { .. } => "misaligned".into(),
                    AssertKind::NullPointerDereference => "nullptr".into(),
                    _ => "other".into(),
                };
                format!("[\"assert\",{},{},{},{},{},{}]", self.op(cond), expected, esc(&m), target.as_usize(), self.unwind(unwind), sp)
            }
            TerminatorKind::FalseEdge { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
            TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
            _ => "[\"other\"]".into(),
        }
    }

    fn env_id(&mut self, d: DefId) -> usize {
        let e = TypingEnv::post_analysis(self.tcx, d);
        let ident = ty::GenericArgs::identity_for_item(self.tcx, d);
        let k = format!("{e:?} {ident:?}");
        if let Some(&i) = self.env_ids.get(&k) {
            return i;
        }
        self.envs.push(e);
        self.env_ids.insert(k, self.envs.len() - 1);
        self.envs.len() - 1
    }
    fn sig(&mut self, d: DefId) -> String {
        let tcx = self.tcx;
        let s = tcx.fn_sig(d).instantiate_identity().skip_norm_wip();
        let s2 = tcx.liberate_late_bound_regions(d, s);
        let ins: Vec<String> = s2.inputs().iter().map(|t| self.ty(*t).to_string()).collect();
        let out = self.ty(s2.output());
        let txt = with_no_trimmed_paths!(format!("{}", s));
        format!("\"ins\":{},\"out\":{},\"unsafe\":{},\"abi\":{},\"sig\":{}", arr(ins), out, s.safety().is_unsafe(), esc(&format!("{:?}", s.abi())), esc(&txt))
    }
    fn in_test(&self, d: LocalDefId) -> bool {
        let _ = d;
        false
    }
    fn root_inst(&mut self, def: DefId, args: GenericArgsRef<'tcx>, env_def: DefId) -> usize {
        let e = self.env_id(env_def);
        self.cur_env = e;
        self.cur_depth = 0;
        let args = self.tcx.erase_and_anonymize_regions(args);
        let inst = Instance::new_raw(def, args);
        let b = self.body(e, BodyRef::Inst(inst), 0);
        self.run_queue();
        b
    }
}

fn unsafe_blocks<'tcx>(tcx: TyCtxt<'tcx>, cx: &Cx<'tcx>) -> Vec<String> {
    use rustc_hir::intravisit::{self, Visitor};
    struct V<'a, 'tcx> {
        tcx: TyCtxt<'tcx>,
        cx: &'a Cx<'tcx>,
        out: Vec<String>,
        cur: String,
    }
    impl<'a, 'tcx> Visitor<'tcx> for V<'a, 'tcx> {
        type NestedFilter = rustc_middle::hir::nested_filter::OnlyBodies;
        fn maybe_tcx(&mut self) -> TyCtxt<'tcx> {
            self.tcx
        }
        fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
            if let rustc_hir::BlockCheckMode::UnsafeBlock(_) = b.rules {
                self.out.push(format!("[{},{}]", esc(&self.cur), esc(&self.cx.span(b.span))));
            }
            intravisit::walk_block(self, b);
        }
    }
    let mut v = V { tcx, cx, out: vec![], cur: String::new() };
    for id in tcx.hir_body_owners() {
        v.cur = cx.cpath(id.to_def_id());
        if let Some(b) = tcx.hir_maybe_body_owned_by(id) {
            if tcx.is_closure_like(id.to_def_id()) {
                continue;
            }
            v.visit_body(b);
        }
    }
    v.out
}

fn dump<'tcx>(tcx: TyCtxt<'tcx>, out: &str) {
    let mut cx = Cx {
        tcx,
        types: vec![],
        type_ids: HashMap::new(),
        bodies: vec![],
        body_ids: HashMap::new(),
        queue: vec![],
        envs: vec![],
        env_ids: HashMap::new(),
        cur_env: 0,
        cur_depth: 0,
        traits_json: HashMap::new(),
        touched: vec![],
        marks: vec![],
    };
    for tr in tcx.all_traits_including_private() {
        let n = match cx.cpath(tr).as_str() {
            "narrow::collection::Collection" => "C",
            "narrow::collection::CollectionAllocIn" => "A",
            "narrow::collection::CollectionRealloc" => "R",
            "narrow::offset::Offset" => "O",
            "narrow::fixed_size::FixedSize" => "F",
            "core::iter::traits::iterator::Iterator" => "I",
            _ => continue,
        };
        cx.marks.push((n, tr));
    }
    cx.envs.push(TypingEnv::fully_monomorphized());
    cx.env_ids.insert("mono".into(), 0);
    let ev = tcx.effective_visibilities(());
    let mut fns = vec![];
    let mut impls = vec![];
    let mut adts = vec![];
    let mut traits = vec![];
    let mut consts = vec![];
    let mut aliases = vec![];
    let mut modules = vec![];
    let crate_items = tcx.hir_crate_items(());
    for d in crate_items.definitions() {
        let did = d.to_def_id();
        if cx.in_test(d) {
            continue;
        }
        match tcx.def_kind(did) {
            DefKind::Fn | DefKind::AssocFn => {
                let e = cx.env_id(did);
                cx.cur_env = e;
                let q = cx.qname(did);
                let p = cx.cpath(did);
                let sp = cx.span(tcx.def_span(did));
                let reach = ev.is_reachable(d);
                let expo = ev.is_exported(d);
                let vis = match tcx.visibility(did) {
                    ty::Visibility::Public => "pub".to_string(),
                    ty::Visibility::Restricted(m) => format!("in {}", cx.cpath(m.to_def_id())),
                };
                let sig = cx.sig(did);
                let mut body = "null".to_string();
                if tcx.is_mir_available(did) && tcx.hir_maybe_body_owned_by(d).is_some() {
                    let args = ty::GenericArgs::identity_for_item(tcx, did);
                    body = cx.root_inst(did, args, did).to_string();
                }
                let parent = tcx.parent(did);
                let (pk, pp) = match tcx.def_kind(parent) {
                    DefKind::Impl { of_trait } => (if of_trait { "trait_impl" } else { "impl" }, cx.cpath(parent)),
                    DefKind::Trait => ("trait", cx.cpath(parent)),
                    _ => ("mod", cx.cpath(parent)),
                };
                let preds = preds(&mut cx, did);
                fns.push(format!(
                    "{{\"path\":{},\"q\":{},\"name\":{},\"span\":{},\"reach\":{},\"exported\":{},\"vis\":{},{},\"body\":{},\"pk\":\"{}\",\"parent\":{},\"preds\":{}}}",
                    esc(&p), esc(&q), esc(tcx.item_name(did).as_str()), esc(&sp), reach, expo, esc(&vis), sig, body, pk, esc(&pp), preds
                ));
            }
            DefKind::Impl { of_trait } => {
                let e = cx.env_id(did);
                cx.cur_env = e;
                let p = cx.cpath(did);
                let sp = cx.span(tcx.def_span(did));
                let st = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                let sid = cx.ty(st);
                let mut o = format!("{{\"path\":{},\"span\":{},\"self\":{},\"preds\":{}", esc(&p), esc(&sp), sid, preds(&mut cx, did));
                let mut assoc = vec![];
                for it in tcx.associated_items(did).in_definition_order() {
                    match it.kind {
                        ty::AssocKind::Type { .. } => {
                            let t = tcx.type_of(it.def_id).instantiate_identity().skip_norm_wip();
                            let tid = cx.ty(t);
                            let txt = with_no_trimmed_paths!(format!("{t}"));
                            assoc.push(format!("[\"type\",{},{},{}]", esc(it.name().as_str()), tid, esc(&txt)));
                        }
                        ty::AssocKind::Const { .. } => {
                            let args = ty::GenericArgs::identity_for_item(tcx, it.def_id);
                            let e2 = cx.env_id(it.def_id);
                            cx.cur_env = e2;
                            let uc = mir::UnevaluatedConst::new(it.def_id, args);
                            let t = tcx.type_of(it.def_id).instantiate_identity().skip_norm_wip();
                            let c = mir::Const::Unevaluated(uc, t);
                            cx.cur_depth = 0;
                            let k = cx.konst(c, tcx.def_span(it.def_id));
                            cx.run_queue();
                            assoc.push(format!("[\"const\",{},{}]", esc(it.name().as_str()), k));
                        }
                        ty::AssocKind::Fn { .. } => {
                            let fp = cx.cpath(it.def_id);
                            assoc.push(format!("[\"fn\",{},{}]", esc(it.name().as_str()), esc(&fp)));
                        }
                    }
                }
                cx.cur_env = e;
                if of_trait {
                    let tr = tcx.impl_trait_ref(did).instantiate_identity().skip_norm_wip();
                    let tp = cx.cpath(tr.def_id);
                    let ta = cx.args(tr.args);
                    let txt = with_no_trimmed_paths!(format!("{tr}"));
                    let h = tcx.impl_trait_header(did);
                    let _ = write!(o, ",\"trait\":{},\"targs\":{},\"text\":{},\"unsafe\":{},\"neg\":{}", esc(&tp), ta, esc(&txt), h.safety.is_unsafe(), matches!(h.polarity, ty::ImplPolarity::Negative));
                    // provided methods that this impl does not override
                    let local_trait = {
                        let n = tcx.crate_name(tr.def_id.krate);
                        n.as_str() == "narrow" || n.as_str() == "narrow_ffi"
                    };
                    let mut prov = vec![];
                    if local_trait {
                        let overridden: Vec<_> = tcx.associated_items(did).in_definition_order().map(|i| i.name()).collect();
                        for m in tcx.provided_trait_methods(tr.def_id) {
                            if overridden.contains(&m.name()) {
                                continue;
                            }
                            if !tcx.is_mir_available(m.def_id) {
                                continue;
                            }
                            // own generics of the method stay as they are
                            let ident = ty::GenericArgs::identity_for_item(tcx, m.def_id);
                            let own = tcx.generics_of(m.def_id).own_params.iter().filter(|p| !matches!(p.kind, ty::GenericParamDefKind::Lifetime)).count();
                            if own != 0 {
                                continue;
                            }
                            let n = tr.args.len();
                            let args = tcx.mk_args_from_iter(tr.args.iter().chain(ident.iter().skip(n)));
                            let b = cx.root_inst(m.def_id, args, did);
                            prov.push(format!("[{},{}]", esc(m.name().as_str()), b));
                        }
                        // provided consts
                        let mut pc = vec![];
                        for m in tcx.associated_items(tr.def_id).in_definition_order() {
                            if let ty::AssocKind::Const { .. } = m.kind {
                                if overridden.contains(&m.name()) || !tcx.defaultness(m.def_id).has_value() {
                                    continue;
                                }
                                cx.cur_env = e;
                                let uc = mir::UnevaluatedConst::new(m.def_id, tr.args);
                                let t = tcx.type_of(m.def_id).instantiate(tcx, tr.args).skip_norm_wip();
                                let c = mir::Const::Unevaluated(uc, t);
                                cx.cur_depth = 0;
                                let k = cx.konst(c, tcx.def_span(m.def_id));
                                cx.run_queue();
                                pc.push(format!("[{},{}]", esc(m.name().as_str()), k));
                            }
                        }
                        let _ = write!(o, ",\"provconst\":{}", arr(pc));
                    }
                    let _ = write!(o, ",\"provided\":{}", arr(prov));
                }
                let _ = write!(o, ",\"assoc\":{}}}", arr(assoc));
                impls.push(o);
            }
            DefKind::Struct | DefKind::Enum | DefKind::Union => {
                let e = cx.env_id(did);
                cx.cur_env = e;
                let p = cx.cpath(did);
                let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                let tid = cx.ty(t);
                let def = tcx.adt_def(did);
                let mut lay = "null".to_string();
                if let Ok(l) = tcx.layout_of(cx.env().as_query_input(t)) {
                    let offs: Vec<String> = (0..l.fields.count()).map(|i| l.fields.offset(i).bytes().to_string()).collect();
                    lay = format!("{{\"size\":{},\"align\":{},\"offsets\":{}}}", l.size.bytes(), l.align.abi.bytes(), arr(offs));
                }
                let mut fv = vec![];
                for v in def.variants() {
                    for f in v.fields.iter() {
                        let vis = match f.vis {
                            ty::Visibility::Public => "pub".to_string(),
                            ty::Visibility::Restricted(m) => format!("in {}", cx.cpath(m.to_def_id())),
                        };
                        fv.push(format!("[{},{},{}]", esc(v.name.as_str()), esc(f.name.as_str()), esc(&vis)));
                    }
                }
                adts.push(format!(
                    "{{\"path\":{},\"ty\":{},\"span\":{},\"reach\":{},\"exported\":{},\"repr\":{},\"layout\":{},\"fields\":{}}}",
                    esc(&p), tid, esc(&cx.span(tcx.def_span(did))), ev.is_reachable(d), ev.is_exported(d),
                    esc(&format!("{:?}", def.repr())), lay, arr(fv)
                ));
            }
            DefKind::Trait => {
                let p = cx.cpath(did);
                let e = cx.env_id(did);
                cx.cur_env = e;
                let mut supers = vec![];
                for (c, _) in tcx.explicit_super_clauses_of(did).iter_identity_copied().map(|x| x.skip_norm_wip()) {
                    supers.push(esc(&with_no_trimmed_paths!(format!("{c}"))));
                }
                let mut items = vec![];
                for it in tcx.associated_items(did).in_definition_order() {
                    let mut bs = vec![];
                    if let ty::AssocKind::Type { .. } = it.kind {
                        for (c, _) in tcx.explicit_item_bounds(it.def_id).iter_identity_copied().map(|x| x.skip_norm_wip()) {
                            bs.push(esc(&with_no_trimmed_paths!(format!("{c}"))));
                        }
                    }
                    items.push(format!("[{},{},{},{}]", esc(it.name().as_str()), esc(match it.kind { ty::AssocKind::Fn{..} => "fn", ty::AssocKind::Type{..} => "type", _ => "const" }), tcx.defaultness(it.def_id).has_value(), arr(bs)));
                }
                traits.push(format!(
                    "{{\"path\":{},\"span\":{},\"reach\":{},\"exported\":{},\"supers\":{},\"items\":{},\"unsafe\":{},\"preds\":{}}}",
                    esc(&p), esc(&cx.span(tcx.def_span(did))), ev.is_reachable(d), ev.is_exported(d), arr(supers), arr(items),
                    tcx.trait_def(did).safety.is_unsafe(), preds(&mut cx, did)
                ));
                cx.traits_json.insert(did, ());
            }
            DefKind::Const { .. } | DefKind::Static { .. } => {
                let p = cx.cpath(did);
                let e = cx.env_id(did);
                cx.cur_env = e;
                let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                let tid = cx.ty(t);
                let mut k = "null".to_string();
                if matches!(tcx.def_kind(did), DefKind::Const { .. }) {
                    let args = ty::GenericArgs::identity_for_item(tcx, did);
                    let uc = mir::UnevaluatedConst::new(did, args);
                    let c = mir::Const::Unevaluated(uc, t);
                    cx.cur_depth = 0;
                    k = cx.konst(c, tcx.def_span(did));
                    cx.run_queue();
                }
                consts.push(format!("{{\"path\":{},\"ty\":{},\"val\":{},\"exported\":{},\"span\":{}}}", esc(&p), tid, k, ev.is_exported(d), esc(&cx.span(tcx.def_span(did)))));
            }
            DefKind::TyAlias => {
                let p = cx.cpath(did);
                let e = cx.env_id(did);
                cx.cur_env = e;
                let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                let tid = cx.ty(t);
                aliases.push(format!("{{\"path\":{},\"ty\":{},\"text\":{}}}", esc(&p), tid, esc(&with_no_trimmed_paths!(format!("{t}")))));
            }
            DefKind::Mod => {
                modules.push(format!("{{\"path\":{},\"exported\":{}}}", esc(&cx.cpath(did)), ev.is_exported(d)));
            }
            _ => {}
        }
    }
    cx.run_queue();
    let ub = unsafe_blocks(tcx, &cx);
    let mut j = String::new();
    let _ = write!(
        j,
        "{{\"crate\":{},\"types\":{},\"bodies\":{},\"fns\":{},\"impls\":{},\"adts\":{},\"traits\":{},\"consts\":{},\"aliases\":{},\"modules\":{},\"unsafe\":{}}}",
        esc(tcx.crate_name(LOCAL_CRATE).as_str()),
        arr(cx.types), arr(cx.bodies), arr(fns), arr(impls), arr(adts), arr(traits), arr(consts), arr(aliases), arr(modules), arr(ub)
    );
    std::fs::write(out, j).expect("write output");
}

fn preds<'tcx>(cx: &mut Cx<'tcx>, d: DefId) -> String {
    let tcx = cx.tcx;
    let ps = tcx.clauses_of(d).instantiate_identity(tcx);
    let mut v = vec![];
    for (p, _) in ps.clauses.iter().zip(ps.spans.iter()) {
        let p = (*p).skip_norm_wip();
        v.push(esc(&with_no_trimmed_paths!(format!("{p}"))));
    }
    arr(v)
}

struct Cb {
    out: String,
}
impl rustc_driver_impl::Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> rustc_driver_impl::Compilation {
        dump(tcx, &self.out);
        rustc_driver_impl::Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let name = args
        .iter()
        .position(|a| a == "--crate-name")
        .and_then(|i| args.get(i + 1))
        .cloned()
        .unwrap_or_default();
    let dir = std::env::var("NARROW_SA_OUT").unwrap_or_default();
    let is_test = args.iter().any(|a| a == "--test");
    if dir.is_empty() || is_test || !(name == "narrow" || name == "narrow_ffi") {
        struct No;
        impl rustc_driver_impl::Callbacks for No {}
        rustc_driver_impl::compiler_entrypoint(&args, &mut No);
        return;
    }
    let out = format!("{dir}/{name}.json");
    rustc_driver_impl::compiler_entrypoint(&args, &mut Cb { out });
}
