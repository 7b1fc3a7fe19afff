//! A rustc driver that writes the MIR reachable from a crate's functions and constants as JSON, with
//! constants left unevaluated, so that they can be executed symbolically (../sym.py).
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;
extern crate rustc_abi;

use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::{self, EarlyBinder, GenericArgsRef, Instance, InstanceKind, Ty, TyCtxt, TypingEnv};
use rustc_span::def_id::DefId;
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::fmt::Write;

fn q(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 || (c as u32) > 126 => {
                let mut b = [0; 2];
                for u in c.encode_utf16(&mut b) {
                    write!(o, "\\u{:04x}", u).unwrap();
                }
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn list(v: impl IntoIterator<Item = String>) -> String {
    format!("[{}]", v.into_iter().collect::<Vec<_>>().join(","))
}

struct Dump<'tcx> {
    tcx: TyCtxt<'tcx>,
    env: TypingEnv<'tcx>,
    todo: VecDeque<(String, DefId, GenericArgsRef<'tcx>, Option<Promoted>)>,
    seen: BTreeSet<String>,
    bodies: BTreeMap<String, String>,
    adts: BTreeMap<String, String>,
    adt_todo: Vec<(String, Ty<'tcx>)>,
}

impl<'tcx> Dump<'tcx> {
    fn path(&self, d: DefId) -> String {
        format!("{}{}", self.tcx.crate_name(d.krate), self.tcx.def_path(d).to_string_no_crate_verbose())
    }
    fn body(&mut self, def: DefId, args: GenericArgsRef<'tcx>, promoted: Option<Promoted>) -> String {
        let key = format!("{}|{:?}|{:?}", self.path(def), args, promoted);
        if self.seen.insert(key.clone()) {
            self.todo.push_back((key.clone(), def, args, promoted));
        }
        key
    }

    fn konst_ty(&mut self, c: ty::Const<'tcx>) -> String {
        match c.kind() {
            ty::ConstKind::Value(v) => match v.try_to_target_usize(self.tcx) {
                Some(n) => format!("{{\"int\":{n},\"bits\":64}}"),
                None => match v.try_to_leaf() {
                    Some(l) => format!("{{\"int\":{},\"bits\":{}}}", l.to_bits_unchecked(), l.size().bits()),
                    None => match (v.ty.kind(), v.try_to_raw_bytes(self.tcx)) {
                        (ty::Ref(_, to, _), Some(b)) if to.is_str() => format!("{{\"slice\":{},\"len\":{}}}", list(b.iter().map(|x| x.to_string())), b.len()),
                        _ => format!("{{\"unknown\":{}}}", q(&format!("{c:?}"))),
                    },
                },
            },
            ty::ConstKind::Alias(_, a) => {
                let def: DefId = match a.kind {
                    ty::AliasConstKind::Projection { def_id } => def_id.into(),
                    ty::AliasConstKind::InherentImpl { def_id } => def_id.into(),
                    ty::AliasConstKind::Free { def_id } => def_id.into(),
                    ty::AliasConstKind::Anon { def_id } => def_id.into(),
                    _ => return format!("{{\"unknown\":{}}}", q(&format!("{c:?}"))),
                };
                self.konst_def(def, a.args, None)
            }
            _ => format!("{{\"unknown\":{}}}", q(&format!("{c:?}"))),
        }
    }
    fn has_body(&self, def: DefId) -> bool {
        // What alloc and std do is not looked into.
        if matches!(self.tcx.crate_name(def.krate).as_str(), "alloc" | "std") {
            return false;
        }
        if !def.is_local() && !matches!(self.tcx.def_kind(def), DefKind::Fn | DefKind::AssocFn | DefKind::Closure | DefKind::Ctor(..)) {
            return self.tcx.is_mir_available(def) || self.tcx.generics_of(def).requires_monomorphization(self.tcx);
        }
        match self.tcx.def_kind(def) {
            DefKind::AssocConst { .. } => match self.tcx.opt_parent(def) {
                Some(p) if self.tcx.def_kind(p) == DefKind::Trait => self.tcx.defaultness(def).has_value(),
                _ => true,
            },
            DefKind::Const { .. } | DefKind::AnonConst | DefKind::Ctor(..) => true,
            _ => self.tcx.is_mir_available(def),
        }
    }
    /// A constant that is not evaluated yet: where its body is.
    fn konst_def(&mut self, def: DefId, args: GenericArgsRef<'tcx>, promoted: Option<Promoted>) -> String {
        let args = self.tcx.erase_and_anonymize_regions(args);
        let (def, args) = if promoted.is_none() {
            match Instance::try_resolve(self.tcx, self.env, def, args) {
                Ok(Some(i)) => (i.def_id(), i.args),
                _ => (def, args),
            }
        } else {
            (def, args)
        };
        let tys = list(args.iter().map(|a| self.arg(a)));
        let has = promoted.is_some() || self.has_body(def);
        let path = self.path(def);
        let parent = self.tcx.opt_parent(def).filter(|p| matches!(self.tcx.def_kind(*p), DefKind::Impl { .. }));
        let self_ty = match parent {
            Some(p) => {
                let t = self.tcx.type_of(p).instantiate(self.tcx, args).skip_norm_wip();
                self.ty(t)
            }
            None => "null".into(),
        };
        let name = self.tcx.opt_item_name(def).map(|s| s.to_string()).unwrap_or_default();
        let key = if has { q(&self.body(def, args, promoted)) } else { "null".into() };
        format!("{{\"const\":{},\"name\":{},\"args\":{tys},\"self\":{self_ty},\"body\":{key}}}", q(&path), q(&name))
    }
    fn arg(&mut self, a: ty::GenericArg<'tcx>) -> String {
        if let Some(t) = a.as_type() {
            self.ty(t)
        } else if let Some(c) = a.as_const() {
            self.konst_ty(c)
        } else {
            "\"region\"".into()
        }
    }

    fn ty(&mut self, t: Ty<'tcx>) -> String {
        match *t.kind() {
            ty::Bool => "{\"k\":\"bool\"}".into(),
            ty::Char => "{\"k\":\"char\"}".into(),
            ty::Str => "{\"k\":\"str\"}".into(),
            ty::Never => "{\"k\":\"never\"}".into(),
            ty::Int(i) => format!("{{\"k\":\"int\",\"bits\":{},\"signed\":true}}", i.bit_width().unwrap_or(64)),
            ty::Uint(i) => format!("{{\"k\":\"int\",\"bits\":{},\"signed\":false}}", i.bit_width().unwrap_or(64)),
            ty::Float(f) => format!("{{\"k\":\"float\",\"bits\":{}}}", f.bit_width()),
            ty::Array(e, n) => {
                let (e, n) = (self.ty(e), self.konst_ty(n));
                format!("{{\"k\":\"array\",\"elem\":{e},\"len\":{n}}}")
            }
            ty::Slice(e) => format!("{{\"k\":\"slice\",\"elem\":{}}}", self.ty(e)),
            ty::Ref(_, e, _) => format!("{{\"k\":\"ref\",\"to\":{}}}", self.ty(e)),
            ty::RawPtr(e, _) => format!("{{\"k\":\"ptr\",\"to\":{}}}", self.ty(e)),
            ty::Tuple(es) => format!("{{\"k\":\"tuple\",\"elems\":{}}}", list(es.iter().map(|e| self.ty(e)))),
            ty::Adt(d, args) => {
                let args_s = list(args.iter().map(|a| self.arg(a)));
                let key = format!("{}|{:?}", self.path(d.did()), args);
                if !self.adts.contains_key(&key) {
                    self.adts.insert(key.clone(), String::new());
                    self.adt_todo.push((key.clone(), t));
                }
                format!("{{\"k\":\"adt\",\"path\":{},\"args\":{args_s},\"key\":{}}}", q(&self.path(d.did())), q(&key))
            }
            ty::FnDef(d, args) => {
                let args = self.tcx.erase_and_anonymize_regions(args.skip_binder());
                let f = self.callee_of(d, args);
                format!("{{\"k\":\"fndef\",\"path\":{},\"args\":{},\"f\":{f}}}", q(&self.path(d)), list(args.iter().map(|a| self.arg(a))))
            }
            ty::Closure(d, args) => {
                let args = self.tcx.erase_and_anonymize_regions(args);
                let key = if self.has_body(d) { q(&self.body(d, args, None)) } else { "null".into() };
                format!("{{\"k\":\"closure\",\"path\":{},\"body\":{key}}}", q(&self.path(d)))
            }
            ty::Alias(..) => {
                let n = self.tcx.try_normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(t));
                match n {
                    Ok(n) if n != t => self.ty(n),
                    _ => format!("{{\"k\":\"other\",\"text\":{}}}", q(&format!("{t:?}"))),
                }
            }
            _ => format!("{{\"k\":\"other\",\"text\":{}}}", q(&format!("{t:?}"))),
        }
    }

    fn adt(&mut self, t: Ty<'tcx>) -> String {
        let ty::Adt(d, args) = *t.kind() else { unreachable!() };
        let repr = d.repr();
        let variants = list(d.variants().iter().map(|v| {
            let fs = list(v.fields.iter().map(|f| {
                let ft = f.ty(self.tcx, args).skip_norm_wip();
                let s = self.ty(ft);
                format!("{{\"name\":{},\"ty\":{s}}}", q(f.name.as_str()))
            }));
            format!("{{\"name\":{},\"fields\":{fs}}}", q(v.name.as_str()))
        }));
        let opt = |a: Option<rustc_abi::Align>| a.map(|a| a.bytes().to_string()).unwrap_or("null".into());
        let lay = self.tcx.layout_of(self.env.as_query_input(t));
        let (sz, al) = match lay {
            Ok(l) => (l.size.bytes().to_string(), l.align.abi.bytes().to_string()),
            Err(_) => ("null".into(), "null".into()),
        };
        let std = matches!(self.tcx.crate_name(d.did().krate).as_str(), "core" | "alloc" | "std");
        let dtor = !std && d.has_dtor(self.tcx);
        format!(
            "{{\"path\":{},\"enum\":{},\"union\":{},\"repr_c\":{},\"transparent\":{},\"packed\":{},\"align\":{},\"size_now\":{sz},\"align_now\":{al},\"dtor\":{dtor},\"variants\":{variants}}}",
            q(&self.path(d.did())), d.is_enum(), d.is_union(), repr.c(), repr.transparent(), opt(repr.pack), opt(repr.align)
        )
    }

    fn place(&mut self, p: &Place<'tcx>) -> String {
        let proj = list(p.projection.iter().map(|e| match e {
            ProjectionElem::Deref => "{\"p\":\"deref\"}".into(),
            ProjectionElem::Field(f, t) => format!("{{\"p\":\"field\",\"i\":{},\"ty\":{}}}", f.as_usize(), self.ty(t)),
            ProjectionElem::Index(l) => format!("{{\"p\":\"index\",\"l\":{}}}", l.as_usize()),
            ProjectionElem::ConstantIndex { offset, from_end, .. } => format!("{{\"p\":\"cindex\",\"i\":{offset},\"end\":{from_end}}}"),
            ProjectionElem::Subslice { from, to, from_end } => format!("{{\"p\":\"subslice\",\"from\":{from},\"to\":{to},\"end\":{from_end}}}"),
            ProjectionElem::Downcast(_, v) => format!("{{\"p\":\"downcast\",\"v\":{}}}", v.as_usize()),
            ProjectionElem::OpaqueCast(_) => "{\"p\":\"cast\"}".into(),
            _ => format!("{{\"p\":\"other\",\"text\":{}}}", q(&format!("{e:?}"))),
        }));
        format!("{{\"l\":{},\"proj\":{proj}}}", p.local.as_usize())
    }

    fn alloc_bytes(&self, a: rustc_middle::mir::interpret::AllocId) -> Option<Vec<u8>> {
        match self.tcx.global_alloc(a) {
            GlobalAlloc::Memory(m) => {
                let m = m.inner();
                if !m.provenance().ptrs().is_empty() {
                    return None;
                }
                Some(m.inspect_with_uninit_and_ptr_outside_interpreter(0..m.len()).to_vec())
            }
            _ => None,
        }
    }
    fn konst(&mut self, c: &Const<'tcx>) -> String {
        match *c {
            Const::Ty(t, c) => {
                let (t, c) = (self.ty(t), self.konst_ty(c));
                format!("{{\"o\":\"const\",\"ty\":{t},\"val\":{c}}}")
            }
            Const::Unevaluated(u, t) if !u.def.is_local() && u.promoted.is_none() && u.args.is_empty() && self.tcx.const_eval_poly(u.def).is_ok() => {
                let v = self.tcx.const_eval_poly(u.def).unwrap();
                self.konst(&Const::Val(v, t))
            }
            Const::Unevaluated(u, t) => {
                let v = self.konst_def(u.def, u.args, u.promoted);
                format!("{{\"o\":\"const\",\"ty\":{},\"val\":{v}}}", self.ty(t))
            }
            Const::Val(v, t) => {
                let s = match v {
                    ConstValue::Scalar(Scalar::Int(i)) => format!("{{\"int\":{},\"bits\":{}}}", i.to_bits_unchecked(), i.size().bits()),
                    ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                        let (prov, off) = p.into_raw_parts();
                        match self.alloc_bytes(prov.alloc_id()) {
                            Some(b) => format!("{{\"bytes\":{},\"off\":{}}}", list(b.iter().map(|x| x.to_string())), off.bytes()),
                            None => format!("{{\"unknown\":{}}}", q(&format!("{c:?}"))),
                        }
                    }
                    ConstValue::ZeroSized => "{\"zst\":true}".into(),
                    ConstValue::Slice { alloc_id, meta } => match self.alloc_bytes(alloc_id) {
                        Some(b) => format!("{{\"slice\":{},\"len\":{meta}}}", list(b.iter().map(|x| x.to_string()))),
                        None => format!("{{\"unknown\":{}}}", q(&format!("{c:?}"))),
                    },
                    ConstValue::Indirect { alloc_id, offset } => match self.alloc_bytes(alloc_id) {
                        Some(b) => format!("{{\"mem\":{},\"off\":{}}}", list(b.iter().map(|x| x.to_string())), offset.bytes()),
                        None => format!("{{\"unknown\":{}}}", q(&format!("{c:?}"))),
                    },
                };
                format!("{{\"o\":\"const\",\"ty\":{},\"val\":{s}}}", self.ty(t))
            }
        }
    }
    fn operand(&mut self, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) | Operand::Move(p) => format!("{{\"o\":\"place\",\"place\":{}}}", self.place(p)),
            Operand::Constant(c) => self.konst(&c.const_),
            Operand::RuntimeChecks(_) => "{\"o\":\"checks\"}".into(),
        }
    }
    fn rvalue(&mut self, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(o, ..) => format!("{{\"r\":\"use\",\"a\":{}}}", self.operand(o)),
            Rvalue::Repeat(o, n) => {
                let (o, n) = (self.operand(o), self.konst_ty(*n));
                format!("{{\"r\":\"repeat\",\"a\":{o},\"n\":{n}}}")
            }
            Rvalue::Ref(_, _, p) | Rvalue::RawPtr(_, p) | Rvalue::Reborrow(_, _, p) => {
                format!("{{\"r\":\"ref\",\"place\":{}}}", self.place(p))
            }
            Rvalue::Cast(k, o, t) => {
                let (o, t) = (self.operand(o), self.ty(*t));
                format!("{{\"r\":\"cast\",\"kind\":{},\"a\":{o},\"ty\":{t}}}", q(&format!("{k:?}")))
            }
            Rvalue::BinaryOp(op, ab) => {
                let (a, b) = (self.operand(&ab.0), self.operand(&ab.1));
                format!("{{\"r\":\"bin\",\"op\":{},\"a\":{a},\"b\":{b}}}", q(&format!("{op:?}")))
            }
            Rvalue::UnaryOp(op, a) => format!("{{\"r\":\"un\",\"op\":{},\"a\":{}}}", q(&format!("{op:?}")), self.operand(a)),
            Rvalue::Discriminant(p) => format!("{{\"r\":\"discr\",\"place\":{}}}", self.place(p)),
            Rvalue::Aggregate(k, ops) => {
                let ops = list(ops.iter().map(|o| self.operand(o)));
                let k = match **k {
                    AggregateKind::Array(_) => "\"kind\":\"array\"".into(),
                    AggregateKind::Tuple => "\"kind\":\"tuple\"".into(),
                    AggregateKind::Adt(d, v, args, _, active) => {
                        let t = self.tcx.type_of(d).instantiate(self.tcx, args).skip_norm_wip();
                        format!("\"kind\":\"adt\",\"variant\":{},\"ty\":{},\"active\":{}", v.as_usize(), self.ty(t),
                            active.map(|a| a.as_usize().to_string()).unwrap_or("null".into()))
                    }
                    AggregateKind::Closure(d, args) => {
                        let args = self.tcx.erase_and_anonymize_regions(args);
                        let t = Ty::new_closure(self.tcx, d, args);
                        format!("\"kind\":\"closure\",\"ty\":{}", self.ty(t))
                    }
                    ref o => format!("\"kind\":\"other\",\"text\":{}", q(&format!("{o:?}"))),
                };
                format!("{{\"r\":\"agg\",{k},\"ops\":{ops}}}")
            }
            Rvalue::CopyForDeref(p) => format!("{{\"r\":\"use\",\"a\":{{\"o\":\"place\",\"place\":{}}}}}", self.place(p)),
            r => format!("{{\"r\":\"other\",\"text\":{}}}", q(&format!("{r:?}"))),
        }
    }
    fn callee(&mut self, body: &Body<'tcx>, f: &Operand<'tcx>) -> String {
        let t = f.ty(body, self.tcx);
        let ty::FnDef(d, args) = *t.kind() else {
            return format!("{{\"unknown\":{}}}", q(&format!("{f:?}")));
        };
        let args = self.tcx.erase_and_anonymize_regions(args.skip_binder());
        self.callee_of(d, args)
    }
    fn callee_of(&mut self, d: DefId, args: GenericArgsRef<'tcx>) -> String {
        let orig = self.path(d);
        let orig_args = list(args.iter().map(|a| self.arg(a)));
        let (path, rargs, self_ty, key, trait_) = match Instance::try_resolve(self.tcx, self.env, d, args) {
            Ok(Some(i)) => {
                let d2 = i.def_id();
                let key = match i.def {
                    InstanceKind::Item(_) if self.has_body(d2) => {
                        q(&self.body(d2, i.args, None))
                    }
                    _ => "null".into(),
                };
                let rargs = list(i.args.iter().map(|a| self.arg(a)));
                let parent = self.tcx.opt_parent(d2).filter(|p| matches!(self.tcx.def_kind(*p), DefKind::Impl { .. }));
                let st = match parent {
                    Some(p) => {
                        let t = self.tcx.type_of(p).instantiate(self.tcx, i.args).skip_norm_wip();
                        self.ty(t)
                    }
                    None => "null".into(),
                };
                (self.path(d2), rargs, st, key, "")
            }
            _ => (orig.clone(), orig_args.clone(), "null".into(), "null".into(), ",\"unresolved\":true"),
        };
        let intrinsic = self.tcx.intrinsic(d).map(|i| q(i.name.as_str())).unwrap_or("null".into());
        format!("{{\"path\":{},\"args\":{rargs},\"self\":{self_ty},\"body\":{key},\"item\":{},\"item_args\":{orig_args},\"intrinsic\":{intrinsic}{trait_}}}", q(&path), q(&orig))
    }

    fn dump_body(&mut self, def: DefId, args: GenericArgsRef<'tcx>, promoted: Option<Promoted>) -> Option<String> {
        let tcx = self.tcx;
        let raw: &Body<'tcx> = match promoted {
            Some(p) => &tcx.promoted_mir(def)[p],
            None => match tcx.def_kind(def) {
                DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {
                    if tcx.is_const_fn(def) {
                        tcx.mir_for_ctfe(def)
                    } else if tcx.is_mir_available(def) {
                        tcx.optimized_mir(def)
                    } else {
                        return None;
                    }
                }
                DefKind::Ctor(..) => tcx.mir_for_ctfe(def),
                _ if self.has_body(def) => tcx.mir_for_ctfe(def),
                _ => return None,
            },
        };
        let body = tcx.try_instantiate_and_normalize_erasing_regions(args, self.env, EarlyBinder::bind(tcx, raw.clone())).ok()?;
        let locals = list(body.local_decls.iter().map(|d| self.ty(d.ty)));
        let blocks = list(body.basic_blocks.iter().map(|b| {
            let stmts = list(b.statements.iter().filter_map(|s| match &s.kind {
                StatementKind::Assign(a) => {
                    let (p, r) = (self.place(&a.0), self.rvalue(&a.1));
                    Some(format!("{{\"s\":\"assign\",\"place\":{p},\"rv\":{r}}}"))
                }
                StatementKind::SetDiscriminant { .. } | StatementKind::Intrinsic(_) => {
                    Some(format!("{{\"s\":\"other\",\"text\":{}}}", q(&format!("{:?}", s.kind))))
                }
                _ => None,
            }));
            let t = match &b.terminator().kind {
                TerminatorKind::Goto { target, .. } => format!("{{\"t\":\"goto\",\"to\":{}}}", target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => format!(
                    "{{\"t\":\"switch\",\"a\":{},\"cases\":{},\"otherwise\":{}}}",
                    self.operand(discr),
                    list(targets.iter().map(|(v, b)| format!("[{v},{}]", b.as_usize()))),
                    targets.otherwise().as_usize()
                ),
                TerminatorKind::Return => "{\"t\":\"return\"}".into(),
                TerminatorKind::Unreachable => "{\"t\":\"unreachable\"}".into(),
                TerminatorKind::Drop { place, target, .. } => {
                    let t = place.ty(&body, tcx).ty;
                    if t.needs_drop(tcx, self.env) {
                        format!("{{\"t\":\"drop\",\"ty\":{},\"to\":{}}}", self.ty(t), target.as_usize())
                    } else {
                        format!("{{\"t\":\"goto\",\"to\":{}}}", target.as_usize())
                    }
                }
                TerminatorKind::FalseEdge { real_target, .. } | TerminatorKind::FalseUnwind { real_target, .. } => {
                    format!("{{\"t\":\"goto\",\"to\":{}}}", real_target.as_usize())
                }
                TerminatorKind::Call { func, args, destination, target, .. } => format!(
                    "{{\"t\":\"call\",\"f\":{},\"args\":{},\"dest\":{},\"to\":{}}}",
                    self.callee(&body, func),
                    list(args.iter().map(|a| self.operand(&a.node))),
                    self.place(destination),
                    target.map(|t| t.as_usize().to_string()).unwrap_or("null".into())
                ),
                TerminatorKind::Assert { cond, expected, msg, target, .. } => format!(
                    "{{\"t\":\"assert\",\"a\":{},\"expected\":{expected},\"msg\":{},\"to\":{}}}",
                    self.operand(cond),
                    q(&format!("{msg:?}")),
                    target.as_usize()
                ),
                k => format!("{{\"t\":\"other\",\"text\":{}}}", q(&format!("{k:?}"))),
            };
            format!("{{\"stmts\":{stmts},\"term\":{t}}}")
        }));
        Some(format!("{{\"args\":{},\"locals\":{locals},\"blocks\":{blocks}}}", body.arg_count))
    }
}

struct Cb;
impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let Ok(out) = std::env::var("MIRDUMP_OUT") else { return Compilation::Continue };
        let mut d = Dump {
            tcx,
            env: TypingEnv::fully_monomorphized(),
            todo: VecDeque::new(),
            seen: BTreeSet::new(),
            bodies: BTreeMap::new(),
            adts: BTreeMap::new(),
            adt_todo: Vec::new(),
        };
        let mut roots = Vec::new();
        for id in tcx.hir_crate_items(()).definitions() {
            let def = id.to_def_id();
            let name = tcx.opt_item_name(def).map(|s| s.to_string()).unwrap_or_default();
            if !name.starts_with("root_") && !name.starts_with("ROOT_") {
                continue;
            }
            let args = ty::GenericArgs::identity_for_item(tcx, def);
            match tcx.def_kind(def) {
                DefKind::Fn | DefKind::Const { .. } => {
                    let key = d.body(def, args, None);
                    roots.push(format!("{}:{}", q(&name), q(&key)));
                }
                DefKind::TyAlias => {
                    let t = tcx.type_of(def).instantiate_identity().skip_norm_wip();
                    let s = d.ty(t);
                    roots.push(format!("{}:{s}", q(&name)));
                }
                _ => {}
            }
        }
        loop {
            if let Some((key, def, args, promoted)) = d.todo.pop_front() {
                if let Some(b) = d.dump_body(def, args, promoted) {
                    d.bodies.insert(key, b);
                }
            } else if let Some((key, t)) = d.adt_todo.pop() {
                let s = d.adt(t);
                d.adts.insert(key, s);
            } else {
                break;
            }
        }
        let map = |m: &BTreeMap<String, String>| m.iter().map(|(k, v)| format!("{}:{v}", q(k))).collect::<Vec<_>>().join(",\n");
        let text = format!("{{\"roots\":{{{}}},\n\"bodies\":{{{}}},\n\"adts\":{{{}}}}}\n", roots.join(",\n"), map(&d.bodies), map(&d.adts));
        std::fs::write(out, text).expect("write MIRDUMP_OUT");
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // As RUSTC_WORKSPACE_WRAPPER the real rustc's path comes first.
    if args.get(1).map_or(false, |a| a.ends_with("rustc")) {
        args.remove(1);
    }
    rustc_driver::compiler_entrypoint(&args, &mut Cb);
}
