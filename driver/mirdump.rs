//! mirdump: a rustc driver that writes the monomorphic, type-resolved MIR of a
//! workspace crate (and of everything it reaches, across crates) as JSON.
//!
//! It performs no analysis; the rules in /verif/analysis read its output.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_index;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_abi::{FieldsShape, TagEncoding, Variants};
use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_interface::interface;
use rustc_middle::middle::codegen_fn_attrs::CodegenFnAttrFlags;
use rustc_middle::mir::interpret::{AllocId, GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::print::{with_crate_prefix, with_no_trimmed_paths, with_no_visible_paths};
use rustc_middle::ty::{self, EarlyBinder, Instance, InstanceKind, Ty, TyCtxt, TypeVisitableExt, TypingEnv};
use rustc_span::Span;
use std::collections::{HashMap, VecDeque};
use std::fmt::Write as _;

struct Cb {
    out: String,
}

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn list<I: IntoIterator<Item = String>>(it: I) -> String {
    let v: Vec<String> = it.into_iter().collect();
    format!("[{}]", v.join(","))
}

struct Dump<'tcx> {
    tcx: TyCtxt<'tcx>,
    env: TypingEnv<'tcx>,
    krate: String,
    tys: HashMap<Ty<'tcx>, usize>,
    ty_out: Vec<String>,
    insts: HashMap<Instance<'tcx>, usize>,
    queue: VecDeque<Instance<'tcx>>,
    allocs_seen: usize,
}

impl<'tcx> Dump<'tcx> {
    fn path(&self, d: DefId) -> String {
        let s = with_no_trimmed_paths!(with_no_visible_paths!(with_crate_prefix!(
            self.tcx.def_path_str(d)
        )));
        self.fix(s)
    }
    fn fix(&self, s: String) -> String {
        // `crate::` only ever appears as a path root here
        let mut o = String::new();
        let mut rest = s.as_str();
        let mut prev = ' ';
        while let Some(i) = rest.find("crate::") {
            let before = rest[..i].chars().last().unwrap_or(prev);
            o.push_str(&rest[..i]);
            if before.is_alphanumeric() || before == '_' || before == ':' {
                o.push_str("crate::");
            } else {
                o.push_str(&self.krate);
                o.push_str("::");
            }
            prev = ':';
            rest = &rest[i + 7..];
        }
        o.push_str(rest);
        o
    }
    fn tystr(&self, t: Ty<'tcx>) -> String {
        let s = with_no_trimmed_paths!(with_no_visible_paths!(with_crate_prefix!(format!("{t}"))));
        self.fix(s)
    }
    fn span(&self, s: Span) -> String {
        let s = s.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(s.lo());
        let f = format!("{}", lo.file.name.prefer_local_unconditionally());
        format!("{}:{}", f, lo.line)
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(&i) = self.tys.get(&t) {
            return i;
        }
        let id = self.ty_out.len();
        self.tys.insert(t, id);
        self.ty_out.push(String::new());
        let tcx = self.tcx;
        let mut o = String::from("{");
        let _ = write!(o, "\"s\":{}", esc(&self.tystr(t)));
        let lay = if t.has_param() || t.has_escaping_bound_vars() { None } else { tcx.layout_of(self.env.as_query_input(t)).ok() };
        if let Some(l) = &lay {
            if l.is_sized() {
                let _ = write!(o, ",\"size\":{},\"align\":{}", l.size.bytes(), l.align.abi.bytes());
            }
        }
        match t.kind() {
            ty::Bool => o.push_str(",\"k\":\"bool\""),
            ty::Char => o.push_str(",\"k\":\"char\""),
            ty::Int(_) => {
                let _ = write!(o, ",\"k\":\"int\",\"signed\":1");
            }
            ty::Uint(_) => o.push_str(",\"k\":\"int\",\"signed\":0"),
            ty::Float(_) => o.push_str(",\"k\":\"float\""),
            ty::Str => o.push_str(",\"k\":\"str\""),
            ty::Never => o.push_str(",\"k\":\"never\""),
            ty::Slice(e) => {
                let e = self.ty(*e);
                let _ = write!(o, ",\"k\":\"slice\",\"e\":{e}");
            }
            ty::Array(e, n) => {
                let e = self.ty(*e);
                let n = n.try_to_target_usize(tcx).map(|x| x as i64).unwrap_or(-1);
                let _ = write!(o, ",\"k\":\"array\",\"e\":{e},\"n\":{n}");
            }
            ty::Ref(_, e, m) => {
                let e = self.ty(*e);
                let _ = write!(o, ",\"k\":\"ref\",\"e\":{e},\"mut\":{}", m.is_mut() as u8);
            }
            ty::RawPtr(e, m) => {
                let e = self.ty(*e);
                let _ = write!(o, ",\"k\":\"ptr\",\"e\":{e},\"mut\":{}", m.is_mut() as u8);
            }
            ty::Tuple(ts) => {
                let v: Vec<usize> = ts.iter().map(|x| self.ty(x)).collect();
                let offs = self.offsets(&lay, v.len());
                let _ = write!(o, ",\"k\":\"tuple\",\"f\":{:?},\"o\":{:?}", v, offs);
            }
            ty::FnDef(d, args) => {
                let args: Vec<_> = args.no_bound_vars().unwrap().iter().filter_map(|a| a.as_type()).collect();
                let a: Vec<usize> = args.into_iter().map(|x| self.ty(x)).collect();
                let _ = write!(o, ",\"k\":\"fndef\",\"def\":{},\"args\":{:?}", esc(&self.path(*d)), a);
                if let ty::FnDef(d, args) = t.kind() {
                    if !t.has_param() {
                        if let Ok(Some(i)) = Instance::try_resolve(tcx, self.env, *d, args.no_bound_vars().unwrap()) {
                            let i = self.inst(i);
                            let _ = write!(o, ",\"inst\":{i}");
                        }
                    }
                }
            }
            ty::FnPtr(..) => o.push_str(",\"k\":\"fnptr\""),
            ty::Dynamic(..) => o.push_str(",\"k\":\"dyn\""),
            ty::Closure(d, args) => {
                let up: Vec<Ty<'tcx>> = args.as_closure().upvar_tys().iter().collect();
                let v: Vec<usize> = up.into_iter().map(|x| self.ty(x)).collect();
                let offs = self.offsets(&lay, v.len());
                let _ = write!(
                    o,
                    ",\"k\":\"closure\",\"def\":{},\"f\":{:?},\"o\":{:?}",
                    esc(&self.path(*d)),
                    v,
                    offs
                );
            }
            ty::Adt(def, args) => {
                let kind = if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" };
                let _ = write!(o, ",\"k\":\"adt\",\"ak\":\"{}\",\"def\":{}", kind, esc(&self.path(def.did())));
                let targs: Vec<Ty<'tcx>> = args.iter().filter_map(|a| a.as_type()).collect();
                let a: Vec<usize> = targs.into_iter().map(|x| self.ty(x)).collect();
                let _ = write!(o, ",\"args\":{:?}", a);
                let cargs: Vec<String> = args
                    .iter()
                    .filter_map(|a| a.as_const())
                    .map(|c| c.try_to_target_usize(tcx).map(|x| x.to_string()).unwrap_or("-1".into()))
                    .collect();
                let _ = write!(o, ",\"cargs\":[{}]", cargs.join(","));
                if let Some(l) = &lay {
                    if let Variants::Multiple { tag, tag_encoding, tag_field, .. } = &l.variants {
                        let off = l.fields.offset(tag_field.as_usize()).bytes();
                        let enc = match tag_encoding {
                            TagEncoding::Direct => "direct",
                            _ => "niche",
                        };
                        let nv = match tag_encoding {
                            TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => format!(
                                ",\"nv\":[{},{},{},\"{}\"]",
                                untagged_variant.as_usize(),
                                niche_variants.start.as_usize(),
                                niche_variants.last.as_usize(),
                                niche_start
                            ),
                            _ => String::new(),
                        };
                        let _ = write!(o, ",\"tag\":{{\"o\":{},\"size\":{},\"enc\":\"{}\"{}}}", off, tag.size(&tcx).bytes(), enc, nv);
                    }
                }
                let mut vs = vec![];
                for (vi, v) in def.variants().iter_enumerated() {
                    let mut fs = vec![];
                    let ftys: Vec<(String, Ty<'tcx>)> = v
                        .fields
                        .iter()
                        .map(|f| {
                            let fty = f.ty(tcx, args);
                            let fty = tcx
                                .try_normalize_erasing_regions(self.env, fty)
                                .unwrap_or_else(|_| f.ty(tcx, args).skip_norm_wip());
                            (f.name.to_string(), fty)
                        })
                        .collect();
                    let n = ftys.len();
                    for (name, fty) in ftys {
                        let i = self.ty(fty);
                        fs.push(format!("[{},{}]", esc(&name), i));
                    }
                    let offs: Vec<i64> = match &lay {
                        Some(l) => match &l.variants {
                            Variants::Multiple { variants, .. } => {
                                let vl = &variants[vi];
                                vl.field_offsets.iter().map(|s| s.bytes() as i64).collect()
                            }
                            _ => self.offsets(&lay, n),
                        },
                        None => vec![],
                    };
                    let discr = if def.is_enum() {
                        def.discriminant_for_variant(tcx, vi).val.to_string()
                    } else {
                        "0".into()
                    };
                    vs.push(format!(
                        "{{\"n\":{},\"d\":{},\"f\":[{}],\"o\":{:?}}}",
                        esc(v.name.as_str()),
                        discr,
                        fs.join(","),
                        offs
                    ));
                }
                let _ = write!(o, ",\"v\":[{}]", vs.join(","));
            }
            _ => o.push_str(",\"k\":\"other\""),
        }
        o.push('}');
        self.ty_out[id] = o;
        id
    }

    fn offsets(
        &self,
        lay: &Option<ty::layout::TyAndLayout<'tcx>>,
        n: usize,
    ) -> Vec<i64> {
        match lay {
            Some(l) => match &l.fields {
                FieldsShape::Arbitrary { .. } | FieldsShape::Union(_) => {
                    (0..n.min(l.fields.count())).map(|i| l.fields.offset(i).bytes() as i64).collect()
                }
                _ => vec![],
            },
            None => vec![],
        }
    }

    /// Iterator adaptors are analysed through the trait's provided bodies, so that
    /// only `next` remains primitive.
    fn inst(&mut self, i: Instance<'tcx>) -> usize {
        let mut i = i;
        if let InstanceKind::Item(d) = i.def {
            if let Some(ai) = self.tcx.opt_associated_item(d) {
                if let ty::AssocContainer::TraitImpl(Ok(tid)) = ai.container {
                    let p = self.path(tid);
                    let name = self.tcx.item_name(tid).to_string();
                    if p.starts_with("core::iter::traits::iterator::Iterator::")
                        && ["fold", "any", "all", "find", "position", "for_each", "try_fold", "find_map", "count", "last", "reduce", "sum"].contains(&name.as_str())
                        && self.tcx.is_mir_available(tid)
                    {
                        // args of the impl method: impl args + method args; rebuild [Self, method args..]
                        let trait_did = self.tcx.parent(tid);
                        let impl_did = self.tcx.parent(d);
                        let tr = self.tcx.impl_trait_ref(impl_did).instantiate(self.tcx, i.args).skip_norm_wip();
                        let args = i.args.rebase_onto(self.tcx, impl_did, tr.args);
                        let _ = trait_did;
                        let args = self.tcx.erase_and_anonymize_regions(args);
                        if let Ok(a2) = self.tcx.try_normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(args)) {
                            i = Instance::new_raw(tid, a2);
                        }
                    }
                }
            }
        }
        if let Some(&n) = self.insts.get(&i) {
            return n;
        }
        let n = self.insts.len();
        self.insts.insert(i, n);
        self.queue.push_back(i);
        n
    }

    fn alloc(&mut self, id: AllocId, off: u64, depth: usize) -> String {
        self.allocs_seen += 1;
        match self.tcx.global_alloc(id) {
            GlobalAlloc::Memory(a) => {
                let a = a.inner();
                let len = a.len();
                let bytes = a.inspect_with_uninit_and_ptr_outside_interpreter(0..len);
                let mut hex = String::with_capacity(len * 2);
                if len <= 65536 {
                    for b in bytes {
                        let _ = write!(hex, "{:02x}", b);
                    }
                }
                let mut rel = vec![];
                if depth < 6 {
                    let ptrs: Vec<(u64, AllocId)> = a
                        .provenance()
                        .ptrs()
                        .iter()
                        .map(|(o, p)| (o.bytes(), p.alloc_id()))
                        .collect();
                    for (o, p) in ptrs.into_iter().take(64) {
                        let mut b = [0u8; 8];
                        b.copy_from_slice(&bytes[o as usize..o as usize + 8]);
                        let inner = u64::from_le_bytes(b);
                        rel.push(format!("[{},{}]", o, self.alloc(p, inner, depth + 1)));
                    }
                }
                format!("{{\"m\":\"{}\",\"len\":{},\"off\":{},\"rel\":[{}]}}", hex, len, off, rel.join(","))
            }
            GlobalAlloc::Function { instance } => {
                let i = self.inst(instance);
                format!("{{\"fn\":{}}}", i)
            }
            GlobalAlloc::Static(d) => format!("{{\"static\":{},\"off\":{}}}", esc(&self.path(d)), off),
            _ => "{\"other\":1}".into(),
        }
    }

    fn konst(&mut self, c: &Const<'tcx>, sp: Span) -> String {
        let t = c.ty();
        let tid = self.ty(t);
        if let ty::FnDef(..) = t.kind() {
            return format!("{{\"c\":\"fn\",\"t\":{}}}", tid);
        }
        let name = match c {
            Const::Unevaluated(u, _) if u.promoted.is_none() => {
                format!(",\"name\":{}", esc(&self.path(u.def)))
            }
            _ => String::new(),
        };
        if let Const::Unevaluated(u, _) = c {
            if let Some(p) = u.promoted {
                if self.tcx.promoted_mir(u.def).len() <= p.as_usize() {
                    eprintln!("mirdump: no promoted {:?} of {}", p, self.path(u.def));
                    return format!("{{\"c\":\"?\",\"t\":{}{}}}", tid, name);
                }
            }
        }
        let val = match c {
            Const::Unevaluated(u, _) if u.promoted.is_some() => self.tcx.const_eval_global_id(
                self.env,
                rustc_middle::mir::interpret::GlobalId {
                    instance: Instance::new_raw(u.def, u.args),
                    promoted: u.promoted,
                },
                sp,
            ),
            _ => c.eval(self.tcx, self.env, sp),
        };
        match val {
            Ok(ConstValue::Scalar(Scalar::Int(i))) => {
                format!("{{\"c\":\"i\",\"v\":\"{}\",\"t\":{}{}}}", i.to_bits(i.size()), tid, name)
            }
            Ok(ConstValue::Scalar(Scalar::Ptr(p, _))) => {
                let (prov, off) = p.into_raw_parts();
                let a = self.alloc(prov.alloc_id(), off.bytes(), 0);
                format!("{{\"c\":\"p\",\"a\":{},\"t\":{}{}}}", a, tid, name)
            }
            Ok(ConstValue::ZeroSized) => format!("{{\"c\":\"z\",\"t\":{}{}}}", tid, name),
            Ok(ConstValue::Slice { alloc_id, meta }) => {
                let a = self.alloc(alloc_id, 0, 0);
                format!("{{\"c\":\"s\",\"a\":{},\"len\":{},\"t\":{}{}}}", a, meta, tid, name)
            }
            Ok(ConstValue::Indirect { alloc_id, offset }) => {
                let a = self.alloc(alloc_id, offset.bytes(), 0);
                format!("{{\"c\":\"m\",\"a\":{},\"t\":{}{}}}", a, tid, name)
            }
            Err(_) => format!("{{\"c\":\"?\",\"t\":{}{}}}", tid, name),
        }
    }

    fn place(&mut self, p: &Place<'tcx>) -> String {
        let mut v = vec![];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => "[\"*\"]".to_string(),
                ProjectionElem::Field(f, t) => {
                    let t = self.ty(t);
                    format!("[\"f\",{},{}]", f.as_usize(), t)
                }
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l.as_usize()),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    format!("[\"ci\",{},{},{}]", offset, min_length, from_end as u8)
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    format!("[\"ss\",{},{},{}]", from, to, from_end as u8)
                }
                ProjectionElem::Downcast(_, vi) => format!("[\"d\",{}]", vi.as_usize()),
                _ => "[\"o\"]".to_string(),
            });
        }
        format!("[{},[{}]]", p.local.as_usize(), v.join(","))
    }

    fn op(&mut self, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("{{\"p\":{}}}", self.place(p)),
            Operand::Move(p) => format!("{{\"p\":{},\"mv\":1}}", self.place(p)),
            Operand::Constant(c) => self.konst(&c.const_, c.span),
            Operand::RuntimeChecks(_) => {
                let b = self.ty(self.tcx.types.bool);
                format!("{{\"c\":\"i\",\"v\":\"0\",\"t\":{b}}}")
            }
        }
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.op(o)),
            Rvalue::Repeat(o, n) => {
                let n = n.try_to_target_usize(self.tcx).map(|x| x as i64).unwrap_or(-1);
                format!("[\"rep\",{},{}]", self.op(o), n)
            }
            Rvalue::Ref(_, k, p) => {
                let m = matches!(k, BorrowKind::Mut { .. }) as u8;
                format!("[\"ref\",{},{}]", self.place(p), m)
            }
            Rvalue::RawPtr(k, p) => {
                let m = matches!(k, RawPtrKind::Mut) as u8;
                format!("[\"ref\",{},{}]", self.place(p), m)
            }
            Rvalue::Reborrow(_, m, p) => format!("[\"ref\",{},{}]", self.place(p), m.is_mut() as u8),
            Rvalue::Cast(k, o, t) => {
                let ks = match k {
                    CastKind::IntToInt => "int".to_string(),
                    CastKind::PtrToPtr => "ptr".into(),
                    CastKind::Transmute => "transmute".into(),
                    CastKind::PointerCoercion(pc, _) => format!("coerce:{:?}", pc),
                    k => format!("{:?}", k),
                };
                let o = self.op(o);
                let t = self.ty(*t);
                format!("[\"cast\",{},{},{}]", esc(&ks), o, t)
            }
            Rvalue::BinaryOp(b, ops) => {
                format!("[\"bin\",\"{:?}\",{},{}]", b, self.op(&ops.0), self.op(&ops.1))
            }
            Rvalue::UnaryOp(u, o) => format!("[\"un\",\"{:?}\",{}]", u, self.op(o)),
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(p)),
            Rvalue::Aggregate(k, ops) => {
                let ops = list(ops.iter().map(|o| self.op(o)).collect::<Vec<_>>());
                match &**k {
                    AggregateKind::Array(_) => format!("[\"agg\",\"array\",0,{}]", ops),
                    AggregateKind::Tuple => format!("[\"agg\",\"tuple\",0,{}]", ops),
                    AggregateKind::Adt(_, vi, _, _, fi) => {
                        let f = fi.map(|x| x.as_usize() as i64).unwrap_or(-1);
                        format!("[\"agg\",\"adt\",{},{},{}]", vi.as_usize(), ops, f)
                    }
                    AggregateKind::Closure(..) => format!("[\"agg\",\"closure\",0,{}]", ops),
                    AggregateKind::RawPtr(..) => format!("[\"agg\",\"rawptr\",0,{}]", ops),
                    _ => format!("[\"agg\",\"other\",0,{}]", ops),
                }
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",{{\"p\":{}}}]", self.place(p)),
            _ => "[\"other\"]".into(),
        }
    }

    fn body(&mut self, inst: Instance<'tcx>, body: &Body<'tcx>) -> String {
        let tcx = self.tcx;
        let mut o = String::new();
        let locals: Vec<Ty<'tcx>> = body.local_decls.iter().map(|l| l.ty).collect();
        let locals: Vec<usize> = locals.into_iter().map(|t| self.ty(t)).collect();
        let _ = write!(o, "\"argc\":{},\"locals\":{:?}", body.arg_count, locals);
        if let Some(s) = body.spread_arg {
            let _ = write!(o, ",\"spread\":{}", s.as_usize());
        }
        let mut names = vec![];
        for vdi in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &vdi.value {
                if p.projection.is_empty() {
                    names.push(format!("[{},{}]", p.local.as_usize(), esc(vdi.name.as_str())));
                }
            }
        }
        let _ = write!(o, ",\"names\":[{}]", names.join(","));
        o.push_str(",\"blocks\":[");
        for (bi, b) in body.basic_blocks.iter_enumerated() {
            if bi.as_usize() > 0 {
                o.push(',');
            }
            if b.is_cleanup {
                o.push_str("null");
                continue;
            }
            o.push_str("{\"s\":[");
            let mut first = true;
            for s in &b.statements {
                let st = match &s.kind {
                    StatementKind::Assign(bx) => {
                        let p = self.place(&bx.0);
                        let r = self.rvalue(&bx.1);
                        let sp = self.span(s.source_info.span);
                        Some(format!("[\"=\",{},{},{}]", p, r, esc(&sp)))
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        Some(format!("[\"sd\",{},{}]", self.place(place), variant_index.as_usize()))
                    }
                    StatementKind::Intrinsic(i) => match &**i {
                        NonDivergingIntrinsic::Assume(op) => Some(format!("[\"assume\",{}]", self.op(op))),
                        NonDivergingIntrinsic::CopyNonOverlapping(c) => Some(format!(
                            "[\"copy\",{},{},{}]",
                            self.op(&c.src),
                            self.op(&c.dst),
                            self.op(&c.count)
                        )),
                    },
                    _ => None,
                };
                if let Some(st) = st {
                    if !first {
                        o.push(',');
                    }
                    first = false;
                    o.push_str(&st);
                }
            }
            o.push_str("],\"t\":");
            let term = b.terminator();
            let sp = esc(&self.span(term.source_info.span));
            let t = match &term.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_usize()),
                TerminatorKind::FalseEdge { real_target, .. }
                | TerminatorKind::FalseUnwind { real_target, .. } => {
                    format!("[\"goto\",{}]", real_target.as_usize())
                }
                TerminatorKind::SwitchInt { discr, targets } => {
                    let v = list(targets.iter().map(|(v, b)| format!("[\"{}\",{}]", v, b.as_usize())));
                    format!("[\"switch\",{},{},{},{}]", self.op(discr), v, targets.otherwise().as_usize(), sp)
                }
                TerminatorKind::Return => "[\"ret\"]".into(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                TerminatorKind::Drop { place, target, .. } => {
                    let pt = place.ty(&body.local_decls, tcx).ty;
                    let t = self.ty(pt);
                    format!("[\"drop\",{},{},{}]", self.place(place), target.as_usize(), t)
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let fty = func.ty(&body.local_decls, tcx);
                    let callee = match fty.kind() {
                        ty::FnDef(d, ga) => {
                            let ga = ga.no_bound_vars().unwrap();
                            let p = self.path(*d);
                            let targs: Vec<Ty<'tcx>> = ga.iter().filter_map(|a| a.as_type()).collect();
                            let targs: Vec<usize> = targs.into_iter().map(|t| self.ty(t)).collect();
                            let inst = match Instance::try_resolve(tcx, self.env, *d, ga) {
                                Ok(Some(i)) => {
                                    let virt = matches!(i.def, InstanceKind::Virtual(..));
                                    let n = self.inst(i);
                                    format!(",\"inst\":{}{}", n, if virt { ",\"virtual\":1" } else { "" })
                                }
                                _ => String::new(),
                            };
                            format!("{{\"path\":{},\"targs\":{:?}{}}}", esc(&p), targs, inst)
                        }
                        _ => {
                            let o = self.op(func);
                            format!("{{\"ind\":{}}}", o)
                        }
                    };
                    let a = list(args.iter().map(|a| self.op(&a.node)).collect::<Vec<_>>());
                    let d = self.place(destination);
                    let tg = target.map(|t| t.as_usize() as i64).unwrap_or(-1);
                    format!("[\"call\",{},{},{},{},{}]", callee, a, d, tg, sp)
                }
                TerminatorKind::Assert { cond, expected, target, msg, .. } => {
                    let m = format!("{:?}", std::mem::discriminant(&**msg));
                    let kind = match &**msg {
                        AssertKind::BoundsCheck { len, index } => {
                            format!("[\"bounds\",{},{}]", self.op(len), self.op(index))
                        }
                        AssertKind::Overflow(b, _, _) => format!("[\"overflow\",\"{:?}\"]", b),
                        _ => format!("[\"other\",{}]", esc(&m)),
                    };
                    format!(
                        "[\"assert\",{},{},{},{},{}]",
                        self.op(cond),
                        *expected as u8,
                        target.as_usize(),
                        kind,
                        sp
                    )
                }
                _ => "[\"abort\"]".into(),
            };
            o.push_str(&t);
            o.push('}');
        }
        o.push(']');
        let _ = inst;
        o
    }

    /// For the library functions that drain an iterator into a collection: how to make the
    /// iterator and how to take its next element.
    fn drain(&mut self, i: Instance<'tcx>, path: &str) -> Option<(usize, usize)> {
        let tcx = self.tcx;
        if path == "<core::iter::adapters::filter::Filter<I, P> as core::iter::traits::iterator::Iterator>::next" {
            let mut ts = i.args.iter().filter_map(|a| a.as_type());
            let (it, p) = (ts.next()?, ts.next()?);
            let ty::Closure(d, args) = *p.kind() else { return None };
            let tr = tcx.get_diagnostic_item(rustc_span::sym::Iterator)?;
            let next = tcx.associated_items(tr).in_definition_order().find(|a| a.name().as_str() == "next")?.def_id;
            let a = Instance::try_resolve(tcx, self.env, next, tcx.mk_args(&[it.into()])).ok()??;
            let b = Instance::resolve_closure(tcx, d, args, ty::ClosureKind::FnMut);
            return Some((self.inst(a), self.inst(b)));
        }
        let last = matches!(path, "<alloc::vec::Vec<T, A> as core::iter::traits::collect::Extend<T>>::extend"
            | "<alloc::vec::Vec<T, A> as core::iter::traits::collect::Extend<&'a T>>::extend"
            | "<alloc::vec::Vec<T> as core::iter::traits::collect::FromIterator<T>>::from_iter");
        if !last && path != "core::iter::traits::iterator::Iterator::collect" {
            return None;
        }
        let mut ts = i.args.iter().filter_map(|a| a.as_type());
        let t = if last { ts.last() } else { ts.next() }?;
        let method = |tr: DefId, name: &str| tcx.associated_items(tr).in_definition_order().find(|a| a.name().as_str() == name).map(|a| a.def_id);
        let into = method(tcx.get_diagnostic_item(rustc_span::sym::IntoIterator)?, "into_iter")?;
        let next = method(tcx.get_diagnostic_item(rustc_span::sym::Iterator)?, "next")?;
        let args = tcx.mk_args(&[t.into()]);
        let a = Instance::try_resolve(tcx, self.env, into, args).ok()??;
        let sig = tcx.instantiate_bound_regions_with_erased(tcx.fn_sig(into).instantiate(tcx, args).skip_norm_wip());
        let it = tcx.try_normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(sig.output())).ok()?;
        let b = Instance::try_resolve(tcx, self.env, next, tcx.mk_args(&[it.into()])).ok()??;
        Some((self.inst(a), self.inst(b)))
    }

    fn skip_body(&self, path: &str) -> bool {
        const SKIP: &[&str] = &[
            "core::fmt::", "core::panicking::", "alloc::fmt::", "std::io::", "std::sys", "std::panicking",
            "core::num::flt2dec", "core::str::pattern", "core::unicode", "std::thread", "std::sync",
            "std::collections", "hashbrown", "std::fs", "std::env", "std::path", "std::ffi", "std::process",
            "alloc::raw_vec", "alloc::alloc::", "alloc::collections", "core::core_arch", "std::time", "std::backtrace",
            "core::slice::sort", "core::hash", "curve25519", "sha2::", "serde", "rand", "libsecp", "bs58", "blake3",
            "core::alloc::", "num_bigint", "std::hash", "std::alloc", "goblin", "flate2", "miniz", "log::", "regex",
            "core::char::", "core::ascii", "core::str::", "core::num::dec2flt", "mpl_token_metadata::generated::accounts",
        ];
        SKIP.iter().any(|p| path.starts_with(p) || path.starts_with(&format!("<{p}")))
            || (path.contains(" as core::fmt::") && !path.starts_with("<solana_include_idl::"))
            || path.contains(" as serde")
            || path.contains(" as core::hash::")
    }

    /// Instances of a function with one type parameter bounded by traits of this crate: one per
    /// type of this crate's implementations that satisfies all those bounds.
    fn local_instances(&self, d: DefId) -> Vec<Instance<'tcx>> {
        let tcx = self.tcx;
        let mut tp = vec![];
        let g = tcx.generics_of(d);
        for i in 0..g.count() {
            let p = g.param_at(i, tcx);
            match p.kind {
                ty::GenericParamDefKind::Type { .. } => tp.push(p.index),
                ty::GenericParamDefKind::Lifetime => {}
                _ => return vec![],
            }
        }
        if tp.len() != 1 {
            return vec![];
        }
        let mut bounds = vec![];
        let mut cand: Option<Vec<Ty<'tcx>>> = None;
        for (c, _) in tcx.clauses_of(d).instantiate_identity(tcx) {
            if let ty::ClauseKind::Trait(t) = c.skip_norm_wip().kind().skip_binder() {
                if !t.trait_ref.self_ty().is_param(tp[0]) {
                    continue;
                }
                let b = t.trait_ref.def_id;
                if b.is_local() {
                    bounds.push(b);
                    continue;
                }
                // encoders and decoders: to a byte vector, from a byte slice
                let path = tcx.def_path_str(b);
                if path.ends_with("io::Write") {
                    if let Some(v) = tcx.get_diagnostic_item(rustc_span::sym::Vec) {
                        let args = ty::GenericArgs::for_item(tcx, v, |p, _| match p.index {
                            0 => tcx.types.u8.into(),
                            _ => tcx.type_of(p.def_id).instantiate_identity().skip_norm_wip().into(),
                        });
                        cand = Some(vec![Ty::new_adt(tcx, tcx.adt_def(v), args)]);
                    }
                } else if path.ends_with("io::Read") {
                    cand = Some(vec![Ty::new_imm_ref(tcx, tcx.lifetimes.re_erased, Ty::new_slice(tcx, tcx.types.u8))]);
                }
            }
        }
        for b in bounds {
            let mut ts = vec![];
            for im in tcx.all_impls(b) {
                let t = tcx.impl_trait_ref(im).instantiate_identity().skip_norm_wip().self_ty();
                let t = tcx.erase_and_anonymize_regions(t);
                if !t.has_param() && !t.has_escaping_bound_vars() && !t.is_trait() {
                    ts.push(t);
                }
            }
            cand = Some(match cand {
                None => ts,
                Some(o) => o.into_iter().filter(|t| ts.contains(t)).collect(),
            });
        }
        let mut out = vec![];
        for t in cand.unwrap_or_default() {
            let args = ty::GenericArgs::for_item(tcx, d, |p, _| match p.kind {
                ty::GenericParamDefKind::Type { .. } => t.into(),
                _ => tcx.lifetimes.re_erased.into(),
            });
            if let Ok(Some(i)) = Instance::try_resolve(tcx, self.env, d, args) {
                out.push(i);
            }
        }
        out
    }

    fn run(&mut self) -> String {
        let tcx = self.tcx;
        let mut fns = String::from("[");
        let mut roots = vec![];
        for ld in tcx.mir_keys(()).iter() {
            let d = ld.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Fn | DefKind::AssocFn => {}
                _ => continue,
            }
            if tcx.is_constructor(d) || !tcx.is_mir_available(d) {
                continue;
            }
            if tcx.generics_of(d).requires_monomorphization(tcx) {
                for inst in self.local_instances(d) {
                    roots.push(self.inst(inst));
                }
                continue;
            }
            let inst = Instance::mono(tcx, d);
            roots.push(self.inst(inst));
        }
        let mut first = true;
        while let Some(i) = self.queue.pop_front() {
            let n = self.insts[&i];
            let did = i.def_id();
            let path = self.path(did);
            let pretty = with_no_trimmed_paths!(with_no_visible_paths!(with_crate_prefix!(format!("{}", i))));
            let pretty = self.fix(pretty);
            let kind = match i.def {
                InstanceKind::Item(_) => "item",
                InstanceKind::Intrinsic(_) => "intrinsic",
                InstanceKind::LlvmIntrinsic(_) => "llvm",
                InstanceKind::Virtual(..) => "virtual",
                InstanceKind::Shim(ty::ShimKind::DropGlue(..)) => "dropglue",
                InstanceKind::Shim(ty::ShimKind::Clone(..)) => "cloneshim",
                InstanceKind::Shim(_) => "shim",
            };
            let targs: Vec<Ty<'tcx>> = i.args.iter().filter_map(|a| a.as_type()).collect();
            let targs: Vec<usize> = targs.into_iter().map(|t| self.ty(t)).collect();
            let mut o = format!(
                "{{\"id\":{},\"path\":{},\"name\":{},\"kind\":\"{}\",\"targs\":{:?},\"crate\":{},\"span\":{}",
                n,
                esc(&path),
                esc(&pretty),
                kind,
                targs,
                esc(tcx.crate_name(did.krate).as_str()),
                esc(&self.span(tcx.def_span(did)))
            );
            if let Some((a, b)) = self.drain(i, &path) {
                let _ = write!(o, ",\"drain\":[{},{}]", a, b);
            }
            let avail = match i.def {
                InstanceKind::Item(d) => {
                    tcx.is_mir_available(d) && !tcx.is_foreign_item(d) && !self.skip_body(&path)
                        && matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn | DefKind::Closure | DefKind::Ctor(..))
                }
                InstanceKind::Shim(ty::ShimKind::DropGlue(..)) => false,
                InstanceKind::Shim(_) => true,
                _ => false,
            };
            if avail && !i.args.has_param() {
                let body = tcx.instance_mir(i.def);
                let body = i.instantiate_mir_and_normalize_erasing_regions(
                    tcx,
                    self.env,
                    EarlyBinder::bind(tcx, body.clone()),
                );
                let b = self.body(i, &body);
                let _ = write!(o, ",{}", b);
            }
            o.push('}');
            if !first {
                fns.push_str(",\n");
            }
            first = false;
            fns.push_str(&o);
        }
        fns.push(']');
        // every local ADT and every local const
        let mut consts = vec![];
        let mut statics = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            let d = id.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Struct | DefKind::Enum => {
                    if !tcx.generics_of(d).requires_monomorphization(tcx) {
                        let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                        let t = tcx.erase_and_anonymize_regions(t);
                        self.ty(t);
                    }
                }
                DefKind::Static { mutability, .. } => {
                    if let Ok(a) = tcx.eval_static_initializer(d) {
                        let at = tcx.codegen_fn_attrs(d);
                        let sec = at.link_section.map(|s| s.to_string());
                        // exported or marked used: the linker keeps it
                        let kept = at.contains_extern_indicator()
                            || at.flags.contains(CodegenFnAttrFlags::USED_LINKER)
                            || at.flags.contains(CodegenFnAttrFlags::USED_COMPILER);
                        let t = tcx.erase_and_anonymize_regions(tcx.type_of(d).instantiate_identity().skip_norm_wip());
                        let tid = self.ty(t);
                        // never written while the program runs
                        let fixed = mutability.is_not() && t.is_freeze(tcx, ty::TypingEnv::fully_monomorphized());
                        let id = tcx.reserve_and_set_memory_alloc(a);
                        let k = self.alloc(id, 0, 0);
                        statics.push(format!(
                            "[{},{},{},{},{},{}]",
                            esc(&self.path(d)),
                            sec.map(|s| esc(&s)).unwrap_or("null".into()),
                            tid,
                            k,
                            kept,
                            fixed
                        ));
                    }
                }
                DefKind::Const { .. } | DefKind::AssocConst { .. } => {
                    if !tcx.generics_of(d).requires_monomorphization(tcx) {
                        if let Some(ai) = tcx.opt_associated_item(d) {
                            if matches!(ai.container, ty::AssocContainer::Trait) {
                                continue;
                            }
                        }
                        let c = Const::from_unevaluated(tcx, d).instantiate_identity().skip_norm_wip();
                        let c = tcx.erase_and_anonymize_regions(c);
                        let k = self.konst(&c, rustc_span::DUMMY_SP);
                        consts.push(format!("[{},{}]", esc(&self.path(d)), k));
                    }
                }
                _ => {}
            }
        }
        // new instances discovered through constants are listed without bodies
        let late: Vec<String> = self.queue.drain(..).map(|i| format!("{}", i)).collect();
        let _ = late;
        format!(
            "{{\"crate\":{},\"roots\":{:?},\"consts\":{},\"statics\":{},\n\"types\":[{}],\n\"fns\":{}}}",
            esc(&self.krate),
            roots,
            list(consts),
            list(statics),
            self.ty_out.join(",\n"),
            fns
        )
    }
}

impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let krate = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
        let mut d = Dump {
            tcx,
            env: TypingEnv::fully_monomorphized(),
            krate: krate.clone(),
            tys: HashMap::new(),
            ty_out: vec![],
            insts: HashMap::new(),
            queue: VecDeque::new(),
            allocs_seen: 0,
        };
        let s = d.run();
        let tmp = format!("{}/{}.json.tmp{}", self.out, krate, std::process::id());
        std::fs::write(&tmp, s).expect("write mir dump");
        std::fs::rename(&tmp, format!("{}/{}.json", self.out, krate)).expect("rename mir dump");
        Compilation::Continue
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let out = std::env::var("MIRDUMP_OUT").expect("MIRDUMP_OUT");
    let code = rustc_driver::catch_fatal_errors(move || {
        rustc_driver::compiler_entrypoint(&args, &mut Cb { out });
    });
    std::process::exit(if code.is_ok() { 0 } else { 1 });
}
