// Fact extractor: runs as RUSTC_WORKSPACE_WRAPPER and dumps the resolved, monomorphic MIR of
// the crate under analysis as JSON ($VPFACTS_OUT). It never runs the analysed code.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_attr_ir;
extern crate rustc_driver_impl;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::{self, interpret::GlobalAlloc, ConstValue};
use rustc_middle::ty::{self, Instance, InstanceKind, ShimKind, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use std::collections::{HashMap, VecDeque};
use std::fmt::Write as _;

#[derive(Clone)]
enum J {
    Null,
    Bool(bool),
    Int(i128),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(&'static str, J)>),
}
fn s<T: ToString>(t: T) -> J {
    J::Str(t.to_string())
}
fn n<T: TryInto<i128>>(t: T) -> J {
    J::Int(t.try_into().ok().unwrap())
}
fn esc(out: &mut String, v: &str) {
    out.push('"');
    for c in v.chars() {
        match c {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            '\n' => out.push_str("\\n"),
            '\r' => out.push_str("\\r"),
            '\t' => out.push_str("\\t"),
            c if (c as u32) < 32 => {
                let _ = write!(out, "\\u{:04x}", c as u32);
            }
            c => out.push(c),
        }
    }
    out.push('"');
}
impl J {
    fn w(&self, out: &mut String) {
        match self {
            J::Null => out.push_str("null"),
            J::Bool(b) => out.push_str(if *b { "true" } else { "false" }),
            J::Int(i) => {
                let _ = write!(out, "{i}");
            }
            J::Str(v) => esc(out, v),
            J::Arr(a) => {
                out.push('[');
                for (i, x) in a.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    x.w(out);
                }
                out.push(']');
            }
            J::Obj(o) => {
                out.push('{');
                for (i, (k, x)) in o.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    esc(out, k);
                    out.push(':');
                    x.w(out);
                }
                out.push('}');
            }
        }
    }
}

#[derive(Clone, PartialEq, Eq, Hash)]
enum Key<'tcx> {
    Inst(Instance<'tcx>),
    Promoted(DefId, ty::GenericArgsRef<'tcx>, mir::Promoted),
    Const(DefId, ty::GenericArgsRef<'tcx>),
    Static(DefId),
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: HashMap<Ty<'tcx>, usize>,
    ty_out: Vec<J>,
    adts: HashMap<DefId, ()>,
    adt_queue: VecDeque<DefId>,
    keys: HashMap<Key<'tcx>, usize>,
    queue: VecDeque<Key<'tcx>>,
}

fn env<'tcx>() -> TypingEnv<'tcx> {
    TypingEnv::fully_monomorphized()
}

const EXT_BODY: &[&str] = &[
    "core::option::", "core::result::", "core::bool::", "core::cmp::", "std::option::",
    "std::result::", "std::cmp::", "core::convert::", "std::convert::", "bool::",
];

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        let p = rustc_middle::ty::print::with_no_trimmed_paths!(self.tcx.def_path_str(d));
        if d.is_local() { format!("crate::{p}") } else { p }
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(i) = self.tys.get(&t) {
            return *i;
        }
        let i = self.ty_out.len();
        self.tys.insert(t, i);
        self.ty_out.push(J::Null);
        let repr = rustc_middle::ty::print::with_no_trimmed_paths!(t.to_string());
        let mut o: Vec<(&'static str, J)> = vec![("s", s(&repr))];
        let k = |o: &mut Vec<(&'static str, J)>, v: &str| o.push(("k", s(v)));
        match t.kind() {
            ty::Bool => k(&mut o, "bool"),
            ty::Char => k(&mut o, "char"),
            ty::Str => k(&mut o, "str"),
            ty::Never => k(&mut o, "never"),
            ty::Int(_) | ty::Uint(_) => {
                k(&mut o, "int");
                o.push(("name", s(&repr)));
            }
            ty::Float(_) => {
                k(&mut o, "float");
                o.push(("name", s(&repr)));
            }
            ty::Adt(def, args) => {
                k(&mut o, "adt");
                o.push(("path", s(self.path(def.did()))));
                let a: Vec<J> = args.types().collect::<Vec<_>>().into_iter().map(|t| n(self.ty(t))).collect();
                o.push(("args", J::Arr(a)));
                if self.adts.insert(def.did(), ()).is_none() {
                    self.adt_queue.push_back(def.did());
                }
                o.push(("adt", s(self.path(def.did()))));
                if def.did().is_local() || self.path(def.did()).starts_with("geo") {
                    // concrete field types
                    let mut vs = vec![];
                    for v in def.variants() {
                        let mut fs = vec![];
                        for f in &v.fields {
                            let ft = f.ty(self.tcx, args);
                            let ft = self.tcx.try_normalize_erasing_regions(env(), ft).unwrap_or(ft.skip_norm_wip());
                            fs.push(n(self.ty(ft)));
                        }
                        vs.push(J::Arr(fs));
                    }
                    o.push(("ftys", J::Arr(vs)));
                }
            }
            ty::Ref(_, t2, m) => {
                k(&mut o, "ref");
                o.push(("mut", J::Bool(m.is_mut())));
                let x = self.ty(*t2);
                o.push(("t", n(x)));
            }
            ty::RawPtr(t2, _) => {
                k(&mut o, "ptr");
                let x = self.ty(*t2);
                o.push(("t", n(x)));
            }
            ty::Slice(t2) => {
                k(&mut o, "slice");
                let x = self.ty(*t2);
                o.push(("t", n(x)));
            }
            ty::Array(t2, c) => {
                k(&mut o, "array");
                let x = self.ty(*t2);
                o.push(("t", n(x)));
                if let Some(l) = c.try_to_target_usize(self.tcx) {
                    o.push(("len", n(l)));
                }
            }
            ty::Tuple(ts) => {
                k(&mut o, "tuple");
                let a: Vec<J> = ts.iter().collect::<Vec<_>>().into_iter().map(|t| n(self.ty(t))).collect();
                o.push(("args", J::Arr(a)));
            }
            ty::Closure(did, args) => {
                k(&mut o, "closure");
                o.push(("path", s(self.path(*did))));
                let inst = Instance { def: InstanceKind::Item(*did), args };
                if did.is_local() {
                    let id = self.key(Key::Inst(inst));
                    o.push(("fn", n(id)));
                }
                let up: Vec<Ty<'tcx>> = args.as_closure().upvar_tys().iter().collect();
                let a: Vec<J> = up.into_iter().map(|t| n(self.ty(t))).collect();
                o.push(("upvars", J::Arr(a)));
            }
            ty::FnDef(did, args) => {
                k(&mut o, "fndef");
                let f = self.callee(*did, args.skip_binder());
                o.push(("f", f));
            }
            ty::FnPtr(..) => k(&mut o, "fnptr"),
            ty::Dynamic(..) => k(&mut o, "dyn"),
            _ => k(&mut o, "other"),
        }
        self.ty_out[i] = J::Obj(o);
        i
    }
    fn key(&mut self, k: Key<'tcx>) -> usize {
        if let Some(i) = self.keys.get(&k) {
            return *i;
        }
        let i = self.keys.len();
        self.keys.insert(k.clone(), i);
        self.queue.push_back(k);
        i
    }
    fn body_wanted(&self, inst: &Instance<'tcx>) -> bool {
        match inst.def {
            InstanceKind::Item(d) => {
                if d.is_local() {
                    let p = self.path(d);
                    if p.contains("::rules::") || p.contains("bevy_reflect") || p.contains(" as pest::Parser<") || p.contains("::_::") || p.contains("std::fmt::Debug") {
                        return false;
                    }
                    return self.tcx.is_mir_available(d);
                }
                let p = self.path(d);
                let p = p.trim_start_matches('<').to_string();
                (EXT_BODY.iter().any(|e| p.starts_with(e)) && self.tcx.is_mir_available(d))
                    && !self.tcx.is_intrinsic(d, rustc_span::sym::abort)
            }
            _ => false,
        }
    }
    fn callee(&mut self, did: DefId, args: ty::GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let mut o: Vec<(&'static str, J)> = vec![("path", s(self.path(did)))];
        let targs: Vec<Ty<'tcx>> = args.types().collect();
        let ta: Vec<J> = targs.iter().map(|t| n(self.ty(*t))).collect();
        o.push(("targs", J::Arr(ta)));
        if let Some(tr) = tcx.trait_of_assoc(did) {
            o.push(("trait", s(self.path(tr))));
        }
        let dk = tcx.def_kind(did);
        if let DefKind::Ctor(of, _) = dk {
            // constructor fn: Some, Ok, tuple struct / variant
            let parent = tcx.parent(did);
            let (adt, var) = match of {
                rustc_hir::def::CtorOf::Struct => (parent, 0usize),
                rustc_hir::def::CtorOf::Variant => {
                    let a = tcx.parent(parent);
                    (a, tcx.adt_def(a).variant_index_with_id(parent).as_usize())
                }
            };
            o.push(("ctor", J::Arr(vec![s(self.path(adt)), n(var)])));
            return J::Obj(o);
        }
        if !matches!(dk, DefKind::Fn | DefKind::AssocFn) {
            return J::Obj(o);
        }
        let args_er = tcx.erase_and_anonymize_regions(args);
        match Instance::try_resolve(tcx, env(), did, args_er) {
            Ok(Some(inst)) => {
                let rd = inst.def_id();
                o.push(("rpath", s(self.path(rd))));
                if rd.is_local() {
                    o.push(("local", J::Bool(true)));
                }
                match inst.def {
                    InstanceKind::Shim(ShimKind::ClosureOnce { closure, .. }) => {
                        let _ = closure;
                        o.push(("shim", s("closure_once")));
                    }
                    InstanceKind::Shim(_) => o.push(("shim", s(format!("{:?}", inst.def)))),
                    InstanceKind::Virtual(..) => o.push(("virtual", J::Bool(true))),
                    _ => {}
                }
                if self.body_wanted(&inst) {
                    let id = self.key(Key::Inst(inst));
                    o.push(("id", n(id)));
                }
                if !rd.is_local() {
                    // generic forwarders
                    let p = self.path(did);
                    if p.ends_with("convert::Into::into") && targs.len() == 2 {
                        if let Some(f) = self.trait_method("core::convert::From", "std::convert::From", "from", &[targs[1], targs[0]]) {
                            o.push(("fwd", f));
                        }
                    }
                    if p.ends_with("convert::TryInto::try_into") && targs.len() == 2 {
                        if let Some(f) = self.trait_method("core::convert::TryFrom", "std::convert::TryFrom", "try_from", &[targs[1], targs[0]]) {
                            o.push(("fwd", f));
                        }
                    }
                    if p.ends_with("string::ToString::to_string") {
                        if let Some(f) = self.trait_method("core::fmt::Display", "std::fmt::Display", "fmt", &[targs[0]]) {
                            o.push(("fwd", f));
                        }
                    }
                    if p.contains("str") && p.ends_with("::parse") && targs.len() == 1 {
                        if let Some(f) = self.trait_method("core::str::FromStr", "std::str::FromStr", "from_str", &[targs[0]]) {
                            o.push(("fwd", f));
                        }
                    }
                    if p.ends_with("::unwrap_or_default") || p.ends_with("::or_default") || p.ends_with("mem::take") {
                        let t = if p.contains("or_default") && targs.len() > 1 && p.contains("Entry") { targs[1] } else { targs[0] };
                        if let Some(f) = self.trait_method("core::default::Default", "std::default::Default", "default", &[t]) {
                            o.push(("fwd", f));
                        }
                    }
                }
            }
            _ => {
                o.push(("unresolved", J::Bool(true)));
            }
        }
        J::Obj(o)
    }
    fn trait_method(&mut self, a: &str, b: &str, m: &str, args: &[Ty<'tcx>]) -> Option<J> {
        let tcx = self.tcx;
        let tr = tcx.all_traits_including_private().find(|d| {
            let p = self.path(*d);
            p == a || p == b
        })?;
        let item = tcx.associated_items(tr).in_definition_order().find(|i| i.name().as_str() == m)?.def_id;
        let ga = tcx.mk_args_from_iter(args.iter().map(|t| ty::GenericArg::from(*t)));
        let inst = Instance::try_resolve(tcx, env(), item, {
            // method may have late/own lifetimes only
            let full = ty::GenericArgs::for_item(tcx, item, |p, _| {
                if (p.index as usize) < ga.len() { ga[p.index as usize] } else { tcx.lifetimes.re_erased.into() }
            });
            full
        });
        match inst {
            Ok(Some(_)) => {}
            _ => return None,
        }
        let full = ty::GenericArgs::for_item(tcx, item, |p, _| {
            if (p.index as usize) < ga.len() { ga[p.index as usize] } else { tcx.lifetimes.re_erased.into() }
        });
        Some(self.callee(item, full))
    }
    fn span(&self, sp: Span) -> J {
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(sp.lo());
        J::Str(format!("{}:{}", lo.file.name.prefer_local_unconditionally(), lo.line))
    }
    fn mac(&self, sp: Span) -> Option<String> {
        let mut out = None;
        let mut c = sp.ctxt();
        while !c.is_root() {
            let e = c.outer_expn_data();
            if let rustc_span::ExpnKind::Macro(_, name) = e.kind {
                out = Some(name.to_string());
            }
            c = e.call_site.ctxt();
        }
        out
    }
    fn place(&mut self, p: &mir::Place<'tcx>) -> J {
        let mut pr = vec![];
        for e in p.projection.iter() {
            use mir::ProjectionElem::*;
            pr.push(match e {
                Deref => J::Arr(vec![s("*")]),
                Field(f, t) => {
                    let t = self.ty(t);
                    J::Arr(vec![s("f"), n(f.as_usize()), n(t)])
                }
                Downcast(nm, v) => J::Arr(vec![s("v"), n(v.as_usize()), nm.map_or(J::Null, |x| s(x))]),
                Index(l) => J::Arr(vec![s("i"), n(l.as_usize())]),
                ConstantIndex { offset, min_length, from_end } => J::Arr(vec![s("ci"), n(offset), n(min_length), J::Bool(from_end)]),
                Subslice { from, to, from_end } => J::Arr(vec![s("ss"), n(from), n(to), J::Bool(from_end)]),
                _ => J::Arr(vec![s("o")]),
            });
        }
        J::Arr(vec![n(p.local.as_usize()), J::Arr(pr)])
    }
    fn scalar(&mut self, sc: mir::interpret::Scalar, t: Ty<'tcx>) -> J {
        match sc {
            mir::interpret::Scalar::Int(i) => match t.kind() {
                ty::Bool => J::Obj(vec![("bool", J::Bool(i.to_bits(i.size()) != 0))]),
                ty::Char => J::Obj(vec![("char", s(char::from_u32(i.to_bits(i.size()) as u32).unwrap_or('?')))]),
                ty::Int(_) => J::Obj(vec![("int", J::Int(i.to_int(i.size())))]),
                ty::Uint(_) => J::Obj(vec![("int", {
                    let b = i.to_bits(i.size());
                    if b > i128::MAX as u128 { s(b) } else { J::Int(b as i128) }
                })]),
                ty::Float(ty::FloatTy::F64) => J::Obj(vec![("float", s(format!("{:?}", f64::from_bits(i.to_bits(i.size()) as u64))))]),
                ty::Float(ty::FloatTy::F32) => J::Obj(vec![("float", s(format!("{:?}", f32::from_bits(i.to_bits(i.size()) as u32))))]),
                _ => J::Obj(vec![("raw", s(i.to_bits(i.size())))]),
            },
            mir::interpret::Scalar::Ptr(p, _) => {
                let (prov, off) = p.into_raw_parts();
                match self.tcx.global_alloc(prov.alloc_id()) {
                    GlobalAlloc::Static(d) => {
                        let id = if d.is_local() { n(self.key(Key::Static(d))) } else { J::Null };
                        J::Obj(vec![("static", s(self.path(d))), ("id", id)])
                    }
                    GlobalAlloc::Memory(a) => {
                        let a = a.inner();
                        let inner = match t.kind() { ty::Ref(_, x, _) => Some(*x), ty::RawPtr(x, _) => Some(*x), _ => None };
                        if let Some(x) = inner {
                            if let ty::Array(e, _) = x.kind() {
                                if matches!(e.kind(), ty::Uint(ty::UintTy::U8)) && a.provenance().ptrs().is_empty() {
                                    let b = a.inspect_with_uninit_and_ptr_outside_interpreter(off.bytes() as usize..a.len());
                                    return J::Obj(vec![("bytes", J::Arr(b.iter().map(|x| n(*x)).collect()))]);
                                }
                            }
                        }
                        J::Obj(vec![("mem", J::Bool(true))])
                    }
                    GlobalAlloc::Function { instance } => {
                        let f = self.callee(instance.def_id(), instance.args);
                        J::Obj(vec![("fnptr", f)])
                    }
                    _ => J::Obj(vec![("opaque", J::Bool(true))]),
                }
            }
        }
    }
    fn constval(&mut self, v: ConstValue, t: Ty<'tcx>) -> J {
        match v {
            ConstValue::Scalar(sc) => self.scalar(sc, t),
            ConstValue::ZeroSized => J::Obj(vec![("zst", J::Bool(true))]),
            ConstValue::Slice { alloc_id, meta } => {
                let a = self.tcx.global_alloc(alloc_id).unwrap_memory();
                let b = a.inner().inspect_with_uninit_and_ptr_outside_interpreter(0..meta as usize).to_vec();
                match t.kind() {
                    ty::Ref(_, x, _) if x.is_str() => J::Obj(vec![("str", s(String::from_utf8_lossy(&b)))]),
                    _ => J::Obj(vec![("bytes", J::Arr(b.iter().map(|x| n(*x)).collect()))]),
                }
            }
            ConstValue::Indirect { .. } => {
                // try &str stored indirectly
                if let ty::Ref(_, x, _) = t.kind() {
                    if x.is_str() {
                        if let Some(b) = v.try_get_slice_bytes_for_diagnostics(self.tcx) {
                            return J::Obj(vec![("str", s(String::from_utf8_lossy(b)))]);
                        }
                    }
                }
                J::Obj(vec![("indirect", J::Bool(true))])
            }
        }
    }
    fn constant(&mut self, c: &mir::Const<'tcx>) -> J {
        let t = c.ty();
        let ti = self.ty(t);
        let v = match c {
            mir::Const::Unevaluated(u, _) => {
                if let Some(p) = u.promoted {
                    if u.def.is_local() || self.tcx.is_mir_available(u.def) {
                        let id = self.key(Key::Promoted(u.def, u.args, p));
                        J::Obj(vec![("body", n(id))])
                    } else {
                        J::Obj(vec![("opaque", J::Bool(true))])
                    }
                } else if matches!(t.kind(), ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_)) {
                    match c.eval(self.tcx, env(), rustc_span::DUMMY_SP) {
                        Ok(v) => {
                            let mut j = self.constval(v, t);
                            if let J::Obj(o) = &mut j {
                                o.push(("name", s(self.path(u.def))));
                            }
                            j
                        }
                        Err(_) => J::Obj(vec![("ext", s(self.path(u.def)))]),
                    }
                } else if matches!(t.kind(), ty::Ref(_, x, _) if x.is_str()) {
                    match c.eval(self.tcx, env(), rustc_span::DUMMY_SP) {
                        Ok(v) => self.constval(v, t),
                        Err(_) => J::Obj(vec![("ext", s(self.path(u.def)))]),
                    }
                } else if u.def.is_local() {
                    let id = self.key(Key::Const(u.def, u.args));
                    J::Obj(vec![("body", n(id)), ("name", s(self.path(u.def)))])
                } else {
                    J::Obj(vec![("ext", s(self.path(u.def)))])
                }
            }
            mir::Const::Val(v, t) => self.constval(*v, *t),
            mir::Const::Ty(_, k) => match c.eval(self.tcx, env(), rustc_span::DUMMY_SP) {
                Ok(v) => self.constval(v, t),
                Err(_) => J::Obj(vec![("tyconst", s(k))]),
            },
        };
        J::Obj(vec![("ty", n(ti)), ("v", v)])
    }
    fn op(&mut self, o: &mir::Operand<'tcx>) -> J {
        match o {
            mir::Operand::Copy(p) => {
                let p = self.place(p);
                J::Arr(vec![s("c"), p])
            }
            mir::Operand::Move(p) => {
                let p = self.place(p);
                J::Arr(vec![s("m"), p])
            }
            mir::Operand::Constant(c) => {
                let c = self.constant(&c.const_);
                J::Arr(vec![s("k"), c])
            }
            mir::Operand::RuntimeChecks(r) => J::Arr(vec![s("rc"), s(format!("{r:?}"))]),
        }
    }
    fn rv(&mut self, r: &mir::Rvalue<'tcx>, ld: &mir::LocalDecls<'tcx>) -> J {
        use mir::Rvalue::*;
        match r {
            Use(o, _) => {
                let o = self.op(o);
                J::Arr(vec![s("use"), o])
            }
            Repeat(o, c) => {
                let o = self.op(o);
                J::Arr(vec![s("rep"), o, c.try_to_target_usize(self.tcx).map_or(J::Null, |x| n(x))])
            }
            Ref(_, bk, p) => {
                let p = self.place(p);
                J::Arr(vec![s("ref"), s(if matches!(bk, mir::BorrowKind::Mut { .. }) { "mut" } else { "shr" }), p])
            }
            RawPtr(_, p) => {
                let p = self.place(p);
                J::Arr(vec![s("ref"), s("raw"), p])
            }
            Reborrow(_, _, p) => {
                let p = self.place(p);
                J::Arr(vec![s("use"), J::Arr(vec![s("c"), p])])
            }
            ThreadLocalRef(_) => J::Arr(vec![s("tls")]),
            Cast(k, o, t) => {
                let from = o.ty(ld, self.tcx);
                let from = self.ty(from);
                let o = self.op(o);
                let t = self.ty(*t);
                J::Arr(vec![s("cast"), s(format!("{k:?}")), o, n(t), n(from)])
            }
            BinaryOp(b, x) => {
                let a = self.op(&x.0);
                let c = self.op(&x.1);
                J::Arr(vec![s("bin"), s(format!("{b:?}")), a, c])
            }
            UnaryOp(b, x) => {
                let a = self.op(x);
                J::Arr(vec![s("un"), s(format!("{b:?}")), a])
            }
            Discriminant(p) => {
                let p = self.place(p);
                J::Arr(vec![s("disc"), p])
            }
            Aggregate(k, ops) => {
                let a: Vec<J> = ops.iter().map(|o| self.op(o)).collect();
                let kk = match &**k {
                    mir::AggregateKind::Array(t) => {
                        let t = self.ty(*t);
                        J::Arr(vec![s("array"), n(t)])
                    }
                    mir::AggregateKind::Tuple => J::Arr(vec![s("tuple")]),
                    mir::AggregateKind::Adt(d, v, _, _, f) => {
                        if self.adts.insert(*d, ()).is_none() {
                            self.adt_queue.push_back(*d);
                        }
                        J::Arr(vec![s("adt"), s(self.path(*d)), n(v.as_usize()), f.map_or(J::Null, |f| n(f.as_usize()))])
                    }
                    mir::AggregateKind::Closure(d, args) => {
                        let t = Ty::new_closure(self.tcx, *d, args);
                        let t = self.ty(t);
                        J::Arr(vec![s("closure"), n(t)])
                    }
                    _ => J::Arr(vec![s("other")]),
                };
                J::Arr(vec![s("agg"), kk, J::Arr(a)])
            }
            CopyForDeref(p) => {
                let p = self.place(p);
                J::Arr(vec![s("use"), J::Arr(vec![s("c"), p])])
            }
            _ => J::Arr(vec![s("other"), s(format!("{r:?}"))]),
        }
    }
    fn body(&mut self, b: &mir::Body<'tcx>) -> Vec<(&'static str, J)> {
        let mut names: HashMap<usize, String> = HashMap::new();
        for v in &b.var_debug_info {
            if let mir::VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() {
                    names.entry(p.local.as_usize()).or_insert_with(|| v.name.to_string());
                }
            }
        }
        let locals: Vec<J> = b.local_decls.iter_enumerated().map(|(l, d)| {
            let t = self.ty(d.ty);
            J::Arr(vec![n(t), names.get(&l.as_usize()).map_or(J::Null, |x| s(x))])
        }).collect();
        let mut blocks = vec![];
        for bb in b.basic_blocks.iter() {
            let mut st = vec![];
            for x in &bb.statements {
                match &x.kind {
                    mir::StatementKind::Assign(a) => {
                        let p = self.place(&a.0);
                        let r = self.rv(&a.1, &b.local_decls);
                        st.push(J::Arr(vec![s("="), p, r, self.span(x.source_info.span)]));
                    }
                    mir::StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(place);
                        st.push(J::Arr(vec![s("sd"), p, n(variant_index.as_usize())]));
                    }
                    mir::StatementKind::StorageDead(l) => st.push(J::Arr(vec![s("dead"), n(l.as_usize())])),
                    mir::StatementKind::Intrinsic(i) => st.push(J::Arr(vec![s("intr"), s(format!("{i:?}"))])),
                    _ => {}
                }
            }
            let t = bb.terminator();
            let sp = self.span(t.source_info.span);
            let mc = self.mac(t.source_info.span).map_or(J::Null, |m| s(m));
            use mir::TerminatorKind::*;
            let tj = match &t.kind {
                Goto { target, .. } => J::Obj(vec![("k", s("goto")), ("t", n(target.as_usize()))]),
                SwitchInt { discr, targets } => {
                    let dt = discr.ty(&b.local_decls, self.tcx);
                    let o = self.op(discr);
                    let ti = self.ty(dt);
                    let tg: Vec<J> = targets.iter().map(|(v, t)| J::Arr(vec![
                        if let ty::Int(it) = dt.kind() {
                            let bits = it.bit_width().unwrap_or(64);
                            let x = (v << (128 - bits)) as i128 >> (128 - bits);
                            J::Int(x)
                        } else { J::Int(v as i128) }, n(t.as_usize())])).collect();
                    J::Obj(vec![("k", s("switch")), ("o", o), ("ty", n(ti)), ("tg", J::Arr(tg)), ("else", n(targets.otherwise().as_usize())), ("sp", sp), ("mac", mc)])
                }
                Return => J::Obj(vec![("k", s("return"))]),
                Unreachable => J::Obj(vec![("k", s("unreachable"))]),
                Drop { place, target, .. } => {
                    let p = self.place(place);
                    J::Obj(vec![("k", s("drop")), ("p", p), ("t", n(target.as_usize()))])
                }
                Call { func, args, destination, target, .. } => {
                    let ft = func.ty(&b.local_decls, self.tcx);
                    let f = match ft.kind() {
                        ty::FnDef(d, a) => self.callee(*d, a.skip_binder()),
                        _ => {
                            let o = self.op(func);
                            J::Obj(vec![("ptr", o)])
                        }
                    };
                    let a: Vec<J> = args.iter().map(|x| self.op(&x.node)).collect();
                    let d = self.place(destination);
                    let dt = destination.ty(&b.local_decls, self.tcx).ty;
                    let dti = self.ty(dt);
                    J::Obj(vec![("k", s("call")), ("f", f), ("a", J::Arr(a)), ("d", d), ("dty", n(dti)), ("t", target.map_or(J::Null, |t| n(t.as_usize()))), ("sp", sp), ("mac", mc)])
                }
                Assert { cond, expected, msg, target, .. } => {
                    let o = self.op(cond);
                    let m = match &**msg {
                        mir::AssertKind::BoundsCheck { len, index } => {
                            let l = self.op(len);
                            let i = self.op(index);
                            J::Arr(vec![s("bounds"), l, i])
                        }
                        mir::AssertKind::Overflow(op, x, y) => {
                            let l = self.op(x);
                            let i = self.op(y);
                            J::Arr(vec![s("overflow"), s(format!("{op:?}")), l, i])
                        }
                        mir::AssertKind::OverflowNeg(x) => {
                            let l = self.op(x);
                            J::Arr(vec![s("negoverflow"), l])
                        }
                        mir::AssertKind::DivisionByZero(x) => {
                            let l = self.op(x);
                            J::Arr(vec![s("div0"), l])
                        }
                        mir::AssertKind::RemainderByZero(x) => {
                            let l = self.op(x);
                            J::Arr(vec![s("rem0"), l])
                        }
                        m => J::Arr(vec![s("other"), s(format!("{m:?}"))]),
                    };
                    J::Obj(vec![("k", s("assert")), ("o", o), ("exp", J::Bool(*expected)), ("m", m), ("t", n(target.as_usize())), ("sp", sp), ("mac", mc)])
                }
                FalseEdge { real_target, .. } => J::Obj(vec![("k", s("goto")), ("t", n(real_target.as_usize()))]),
                FalseUnwind { real_target, .. } => J::Obj(vec![("k", s("goto")), ("t", n(real_target.as_usize()))]),
                UnwindResume => J::Obj(vec![("k", s("resume"))]),
                k => J::Obj(vec![("k", s("other")), ("d", s(format!("{k:?}")))]),
            };
            blocks.push(J::Obj(vec![("s", J::Arr(st)), ("t", tj), ("cl", J::Bool(bb.is_cleanup))]));
        }
        vec![("argc", n(b.arg_count)), ("locals", J::Arr(locals)), ("blocks", J::Arr(blocks)), ("spread", b.spread_arg.map_or(J::Null, |l| n(l.as_usize())))]
    }
    fn attrs(&self, d: DefId) -> J {
        let sm = self.tcx.sess.source_map();
        let Some(l) = d.as_local() else { return J::Arr(vec![]) };
        let hid = self.tcx.local_def_id_to_hir_id(l);
        let mut v = vec![];
        for a in self.tcx.hir_attrs(hid) {
            if let rustc_attr_ir::Attribute::DeriveHelper(i) = a {
                let nm = i.path.to_string();
                if nm == "serde" || nm == "grammar" || nm == "pest_ast" {
                    if let Ok(t) = sm.span_to_snippet(i.span) {
                        v.push(s(t));
                    }
                }
            }
        }
        J::Arr(v)
    }
}

fn dump(tcx: TyCtxt<'_>, out: &str) {
    let mut cx = Cx { tcx, tys: HashMap::new(), ty_out: vec![], adts: HashMap::new(), adt_queue: VecDeque::new(), keys: HashMap::new(), queue: VecDeque::new() };
    let ev = tcx.effective_visibilities(());
    let mut items = vec![];
    let mut impls = vec![];
    let skip = |p: &str| p.contains("::rules::") || p.contains("bevy_reflect") || p.contains(" as pest::Parser<") || p.contains("serde::Deserialize") || p.contains("serde::Serialize") || p.contains("_serde::") || p.contains("std::fmt::Debug");
    // generated pest rule modules are skipped by path
    for ld in tcx.hir_body_owners() {
        let d = ld.to_def_id();
        let p = cx.path(d);
        if p.contains("::rules::") || p.contains("_PEST_GRAMMAR") || p.contains("::generated::") || p.contains("bevy_reflect") || p.contains(" as pest::Parser<") {
            continue;
        }
        let sp = tcx.def_span(d);
        let mut derive = J::Null;
        let mut c = sp.ctxt();
        while !c.is_root() {
            let e = c.outer_expn_data();
            if let rustc_span::ExpnKind::Macro(rustc_span::MacroKind::Derive, name) = e.kind {
                derive = s(name);
            }
            c = e.call_site.ctxt();
        }
        // impl-level derive
        let auto_derived = !matches!(derive, J::Null) || p.contains("::_::");
        let generic = tcx.generics_of(d).requires_monomorphization(tcx);
        let dk = tcx.def_kind(d);
        let is_parser = matches!(&derive, J::Str(x) if x == "Parser");
        let mut key = J::Null;
        if generic && !is_parser && !auto_derived && matches!(dk, DefKind::Fn | DefKind::AssocFn) && tcx.is_mir_available(d) {
            // path-like parameters (`P: AsRef<Path>`) are instantiated with PathBuf
            let g = tcx.generics_of(d);
            let parent_types = g.parent.map_or(false, |p| tcx.generics_of(p).requires_monomorphization(tcx));
            let preds = format!("{:?}", tcx.clauses_of(d).instantiate_identity(tcx).clauses);
            let all = g.own_params.iter().filter(|q| matches!(q.kind, ty::GenericParamDefKind::Type { .. })).all(|q| preds.contains(&format!("<{} as std::convert::AsRef<std::path::Path>>", q.name)));
            let consts = g.own_params.iter().any(|q| matches!(q.kind, ty::GenericParamDefKind::Const { .. }));
            if !parent_types && !consts && all {
                if let Some(pb) = tcx.get_diagnostic_item(rustc_span::Symbol::intern("PathBuf")) {
                    let pty = tcx.type_of(pb).instantiate_identity().skip_norm_wip();
                    let args = ty::GenericArgs::for_item(tcx, d, |q, _| match q.kind {
                        ty::GenericParamDefKind::Type { .. } => pty.into(),
                        _ => tcx.lifetimes.re_erased.into(),
                    });
                    key = n(cx.key(Key::Inst(Instance { def: InstanceKind::Item(d), args: tcx.erase_and_anonymize_regions(args) })));
                }
            }
        }
        if !generic && !is_parser && !(auto_derived && skip(&p)) {
            match dk {
                DefKind::Fn | DefKind::AssocFn => {
                    let args = ty::GenericArgs::identity_for_item(tcx, d);
                    let args = tcx.erase_and_anonymize_regions(args);
                    if tcx.is_mir_available(d) {
                        key = n(cx.key(Key::Inst(Instance { def: InstanceKind::Item(d), args })));
                    }
                }
                DefKind::Static { .. } => key = n(cx.key(Key::Static(d))),
                DefKind::Const { .. } | DefKind::AssocConst { .. } => {
                    let args = ty::GenericArgs::identity_for_item(tcx, d);
                    key = n(cx.key(Key::Const(d, tcx.erase_and_anonymize_regions(args))));
                }
                _ => {}
            }
        }
        items.push(J::Obj(vec![
            ("path", s(&p)), ("kind", s(format!("{dk:?}"))), ("generic", J::Bool(generic)), ("key", key), ("derive", derive),
            ("span", cx.span(sp)), ("pub", J::Bool(ev.is_reachable(ld))),
            ("unsafe", J::Bool(matches!(dk, DefKind::Fn | DefKind::AssocFn) && tcx.fn_sig(d).skip_binder().safety().is_unsafe())),
        ]));
    }
    // trait impls for local types
    for id in tcx.hir_crate_items(()).definitions() {
        if tcx.def_kind(id) != (DefKind::Impl { of_trait: true }) {
            continue;
        }
        let tr = tcx.impl_trait_ref(id.to_def_id()).skip_binder();
        let self_ty = tr.self_ty();
        let st = rustc_middle::ty::print::with_no_trimmed_paths!(self_ty.to_string());
        let trs = rustc_middle::ty::print::with_no_trimmed_paths!(tr.to_string());
        let generic = tcx.generics_of(id).requires_monomorphization(tcx);
        let mut ms = vec![];
        for it in tcx.associated_items(id).in_definition_order() {
            if it.is_fn() {
                let d = it.def_id;
                let k = if !skip(&cx.path(d)) && !generic && !tcx.generics_of(d).requires_monomorphization(tcx) && tcx.is_mir_available(d) {
                    let args = tcx.erase_and_anonymize_regions(ty::GenericArgs::identity_for_item(tcx, d));
                    let p = cx.path(d);
                    if p.contains("::rules::") { J::Null } else { n(cx.key(Key::Inst(Instance { def: InstanceKind::Item(d), args }))) }
                } else { J::Null };
                ms.push(J::Arr(vec![s(it.name()), k, s(cx.path(d))]));
            }
        }
        if trs.contains("bevy_reflect") { continue; }
        let auto = tcx.is_automatically_derived(id.to_def_id());
        impls.push(J::Obj(vec![("trait", s(cx.path(tr.def_id))), ("tref", s(trs)), ("self", s(st)), ("generic", J::Bool(generic)), ("auto", J::Bool(auto)), ("methods", J::Arr(ms)), ("span", cx.span(tcx.def_span(id)))]));
    }
    // all local ADTs
    for id in tcx.hir_crate_items(()).definitions() {
        if matches!(tcx.def_kind(id), DefKind::Struct | DefKind::Enum) {
            let d = id.to_def_id();
            if cx.adts.insert(d, ()).is_none() {
                cx.adt_queue.push_back(d);
            }
        }
    }
    let mut fns: Vec<(usize, J)> = vec![];
    let mut adts = vec![];
    loop {
        if let Some(k) = cx.queue.pop_front() {
            let id = cx.keys[&k];
            let (body, did, kind): (Option<mir::Body<'_>>, DefId, &str) = match &k {
                Key::Inst(inst) => {
                    let d = inst.def_id();
                    let b = tcx.instance_mir(inst.def);
                    let b = inst.instantiate_mir_and_normalize_erasing_regions(tcx, env(), ty::EarlyBinder::bind(tcx, b.clone()));
                    (Some(b), d, if tcx.is_closure_like(d) { "closure" } else { "fn" })
                }
                Key::Promoted(d, args, p) => {
                    let b = &tcx.promoted_mir(*d)[*p];
                    let b = tcx.instantiate_and_normalize_erasing_regions(args, env(), ty::EarlyBinder::bind(tcx, b.clone()));
                    (Some(b), *d, "promoted")
                }
                Key::Const(d, args) => {
                    if tcx.is_mir_available(*d) || d.is_local() {
                        let b = tcx.mir_for_ctfe(*d);
                        let b = tcx.instantiate_and_normalize_erasing_regions(args, env(), ty::EarlyBinder::bind(tcx, b.clone()));
                        (Some(b), *d, "const")
                    } else { (None, *d, "const") }
                }
                Key::Static(d) => (Some(tcx.mir_for_ctfe(*d).clone()), *d, "static"),
            };
            let mut o: Vec<(&'static str, J)> = vec![("path", s(cx.path(did))), ("kind", s(kind)), ("span", cx.span(tcx.def_span(did)))];
            if tcx.is_closure_like(did) {
                let mut p = did;
                while tcx.is_closure_like(p) { p = tcx.parent(p); }
                o.push(("parent", s(cx.path(p))));
            }
            o.push(("local", J::Bool(did.is_local())));
            if let Some(b) = body {
                o.extend(cx.body(&b));
            }
            fns.push((id, J::Obj(o)));
            continue;
        }
        if let Some(d) = cx.adt_queue.pop_front() {
            let def = tcx.adt_def(d);
            let mut vs = vec![];
            let discrs: Vec<i128> = if def.is_enum() { def.discriminants(tcx).map(|(_, x)| {
                let sz = x.ty.primitive_size(tcx);
                if x.ty.is_signed() { sz.sign_extend(x.val) } else { x.val as i128 }
            }).collect() } else { vec![0] };
            for (vi, v) in def.variants().iter_enumerated() {
                let fs: Vec<J> = v.fields.iter().map(|f| {
                    let ft = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                    let ts = rustc_middle::ty::print::with_no_trimmed_paths!(ft.to_string());
                    J::Obj(vec![("name", s(f.name)), ("ty", s(ts)), ("pub", J::Bool(f.vis.is_public())), ("attrs", cx.attrs(f.did))])
                }).collect();
                vs.push(J::Obj(vec![("name", s(v.name)), ("discr", J::Int(discrs.get(vi.as_usize()).copied().unwrap_or(0))), ("fields", J::Arr(fs)), ("attrs", if def.is_enum() { cx.attrs(v.def_id) } else { J::Arr(vec![]) })]));
            }
            let loc = d.is_local();
            adts.push(J::Obj(vec![("path", s(cx.path(d))), ("kind", s(if def.is_enum() { "enum" } else { "struct" })), ("local", J::Bool(loc)), ("variants", J::Arr(vs)), ("attrs", cx.attrs(d)), ("span", if loc { cx.span(tcx.def_span(d)) } else { J::Null }),
                ("pub", J::Bool(d.as_local().is_some_and(|l| ev.is_reachable(l)))), ("generics", n(tcx.generics_of(d).own_params.len()))]));
            continue;
        }
        break;
    }
    fns.sort_by_key(|x| x.0);
    let fns: Vec<J> = fns.into_iter().map(|x| x.1).collect();
    let top = J::Obj(vec![
        ("crate", s(tcx.crate_name(LOCAL_CRATE))),
        ("types", J::Arr(std::mem::take(&mut cx.ty_out))),
        ("adts", J::Arr(adts)), ("items", J::Arr(items)), ("impls", J::Arr(impls)), ("fns", J::Arr(fns)),
    ]);
    let mut o = String::new();
    top.w(&mut o);
    std::fs::write(out, o).unwrap();
}

struct Cb;
impl rustc_driver_impl::Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> rustc_driver_impl::Compilation {
        if let Ok(out) = std::env::var("VPFACTS_OUT") {
            if tcx.crate_name(LOCAL_CRATE).as_str() == "vatsim_parser" {
                dump(tcx, &out);
            }
        }
        rustc_driver_impl::Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().skip(1).collect();
    // cargo passes the rustc path first
    if args.is_empty() { std::process::exit(2) }
    args.push("-Zmir-opt-level=0".into());
    args.push("-Zalways-encode-mir".into());
    rustc_driver_impl::compiler_entrypoint(&args, &mut Cb);
}
