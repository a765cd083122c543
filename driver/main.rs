//! MIR extractor.
//!
//! Runs as a rustc wrapper. For the crate named `harness` it walks the call graph from the
//! crate's public non-generic functions, over fully resolved, monomorphised instances, and writes
//! the MIR of every instance, the types and the evaluated constants to the JSON file named by
//! `MIRDUMP_OUT`. It also lists every function the analysed crate (`MIRDUMP_CRATE`) defines.
#![feature(rustc_private)]
#![allow(unused)]

extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public_bridge;
#[macro_use]
extern crate rustc_public;

use rustc_public::abi::*;
use rustc_public::crate_def::{CrateDef, CrateDefType};
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::{CompilerError, CrateItem};
use rustc_public_bridge::IndexedVal;
use std::collections::{HashMap, HashSet, VecDeque};
use std::fmt::Write as _;
use std::ops::ControlFlow;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 => write!(o, "\\u{:04x}", c as u32).unwrap(),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn arr(v: &[String]) -> String {
    format!("[{}]", v.join(","))
}

struct Cx {
    types: Vec<String>,
    type_ids: HashMap<Ty, usize>,
    insts: Vec<Instance>,
    inst_ids: HashMap<Instance, usize>,
    queue: VecDeque<usize>,
    inst_json: Vec<String>,
    iter_next: Option<FnDef>,
}

fn span_json(span: Span) -> String {
    let l = span.get_lines();
    format!("[{},{},{}]", esc(&span.get_filename().to_string()), l.start_line, l.start_col)
}

impl Cx {
    fn ty(&mut self, ty: Ty) -> usize {
        if let Some(&i) = self.type_ids.get(&ty) {
            return i;
        }
        let id = self.types.len();
        self.types.push(String::new());
        self.type_ids.insert(ty, id);
        let kind = ty.kind();
        let json = match &kind {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => r#"{"k":"bool"}"#.to_string(),
                RigidTy::Char => r#"{"k":"char"}"#.to_string(),
                RigidTy::Int(t) => format!(r#"{{"k":"int","signed":true,"bits":{},"size":{}}}"#, t.num_bytes() * 8, matches!(t, IntTy::Isize)),
                RigidTy::Uint(t) => format!(r#"{{"k":"int","signed":false,"bits":{},"size":{}}}"#, t.num_bytes() * 8, matches!(t, UintTy::Usize)),
                RigidTy::Float(t) => format!(r#"{{"k":"float","bits":{}}}"#, match t { FloatTy::F16 => 16, FloatTy::F32 => 32, FloatTy::F64 => 64, FloatTy::F128 => 128 }),
                RigidTy::Str => r#"{"k":"str"}"#.to_string(),
                RigidTy::Never => r#"{"k":"never"}"#.to_string(),
                RigidTy::Adt(def, args) => {
                    let ak = match def.kind() { AdtKind::Enum => "enum", AdtKind::Union => "union", AdtKind::Struct => "struct" };
                    let mut targs = vec![];
                    for a in &args.0 {
                        if let GenericArgKind::Type(t) = a {
                            targs.push(self.ty(*t).to_string());
                        }
                    }
                    let mut variants = vec![];
                    for v in def.variants() {
                        let mut fields = vec![];
                        for f in v.fields() {
                            let ft = f.ty_with_args(args);
                            let ft = self.ty(ft);
                            fields.push(format!("[{},{}]", esc(&f.name), ft));
                        }
                        let d = if matches!(def.kind(), AdtKind::Enum) {
                            let dd = def.discriminant_for_variant(v.idx());
                            let bits = format!("{}", dd.ty);
                            match bits.as_str() {
                                "i8" => dd.val as u8 as i8 as i128,
                                "i16" => dd.val as u16 as i16 as i128,
                                "i32" => dd.val as u32 as i32 as i128,
                                "i64" | "isize" => dd.val as u64 as i64 as i128,
                                _ => dd.val as i128,
                            }
                        } else { 0 };
                        variants.push(format!(r#"{{"name":{},"discr":{},"fields":{}}}"#, esc(&v.name()), d, arr(&fields)));
                    }
                    format!(
                        r#"{{"k":"adt","ak":"{}","name":{},"crate":{},"args":{},"variants":{},"box":{}}}"#,
                        ak, esc(&def.name()), esc(&def.krate().name), arr(&targs), arr(&variants), def.is_box()
                    )
                }
                RigidTy::Array(t, n) => {
                    let e = self.ty(*t);
                    format!(r#"{{"k":"array","ty":{},"len":{}}}"#, e, n.eval_target_usize().map(|x| x as i64).unwrap_or(-1))
                }
                RigidTy::Slice(t) => { let e = self.ty(*t); format!(r#"{{"k":"slice","ty":{}}}"#, e) }
                RigidTy::RawPtr(t, m) => { let e = self.ty(*t); format!(r#"{{"k":"ptr","ty":{},"mut":{}}}"#, e, *m == Mutability::Mut) }
                RigidTy::Ref(_, t, m) => { let e = self.ty(*t); format!(r#"{{"k":"ref","ty":{},"mut":{}}}"#, e, *m == Mutability::Mut) }
                RigidTy::Tuple(ts) => { let v: Vec<String> = ts.iter().map(|t| self.ty(*t).to_string()).collect(); format!(r#"{{"k":"tuple","tys":{}}}"#, arr(&v)) }
                RigidTy::FnDef(def, args) => {
                    let inst = Instance::resolve_for_fn_ptr(*def, args).ok().or_else(|| Instance::resolve(*def, args).ok());
                    let i = inst.map(|i| self.inst(i) as i64).unwrap_or(-1);
                    format!(r#"{{"k":"fndef","name":{},"inst":{}}}"#, esc(&def.name()), i)
                }
                RigidTy::Closure(def, args) => {
                    let inst = Instance::resolve_closure(*def, args, ClosureKind::FnOnce).ok();
                    // the body takes self by the kind the closure has; record every kind.
                    let mut ids = vec![];
                    for kind in [ClosureKind::Fn, ClosureKind::FnMut, ClosureKind::FnOnce] {
                        let i = Instance::resolve_closure(*def, args, kind).ok();
                        ids.push(i.map(|i| self.inst(i) as i64).unwrap_or(-1).to_string());
                    }
                    format!(r#"{{"k":"closure","name":{},"insts":{}}}"#, esc(&def.name()), arr(&ids))
                }
                RigidTy::FnPtr(_) => r#"{"k":"fnptr"}"#.to_string(),
                RigidTy::Dynamic(..) => format!(r#"{{"k":"dyn","name":{}}}"#, esc(&format!("{}", ty))),
                other => format!(r#"{{"k":"other","name":{}}}"#, esc(&format!("{:?}", other))),
            },
            other => format!(r#"{{"k":"other","name":{}}}"#, esc(&format!("{:?}", other))),
        };
        let mut s = json;
        // display name
        s.pop();
        write!(s, r#","s":{}}}"#, esc(&format!("{}", ty))).unwrap();
        self.types[id] = s;
        id
    }

    fn inst(&mut self, i: Instance) -> usize {
        if let Some(&id) = self.inst_ids.get(&i) {
            return id;
        }
        let id = self.insts.len();
        self.insts.push(i);
        self.inst_ids.insert(i, id);
        self.inst_json.push(String::new());
        self.queue.push_back(id);
        id
    }

    fn place(&mut self, p: &Place) -> String {
        let mut v = vec![];
        for e in &p.projection {
            v.push(match e {
                ProjectionElem::Deref => r#"["deref"]"#.to_string(),
                ProjectionElem::Field(i, t) => { let t = self.ty(*t); format!(r#"["f",{},{}]"#, i, t) }
                ProjectionElem::Index(l) => format!(r#"["i",{}]"#, l),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => format!(r#"["ci",{},{},{}]"#, offset, min_length, from_end),
                ProjectionElem::Subslice { from, to, from_end } => format!(r#"["ss",{},{},{}]"#, from, to, from_end),
                ProjectionElem::Downcast(v) => format!(r#"["d",{}]"#, v.to_index()),
                ProjectionElem::OpaqueCast(t) => { let t = self.ty(*t); format!(r#"["oc",{}]"#, t) }
            });
        }
        format!("[{},{}]", p.local, arr(&v))
    }

    fn read_ptr(&self, alloc: &Allocation, off: usize) -> Option<(Allocation, usize)> {
        for (o, p) in &alloc.provenance.ptrs {
            if *o == off {
                let addend = alloc.read_partial_uint(off..off + 8).unwrap_or(0) as usize;
                return match GlobalAlloc::from(p.0) {
                    GlobalAlloc::Memory(a) => Some((a, addend)),
                    GlobalAlloc::Static(s) => s.eval_initializer().ok().map(|a| (a, addend)),
                    _ => None,
                };
            }
        }
        None
    }

    fn cval(&mut self, alloc: &Allocation, off: usize, ty: Ty, depth: usize) -> String {
        let unk = r#"{"v":"unknown"}"#.to_string();
        if depth > 12 {
            return unk;
        }
        let tid = self.ty(ty);
        let uint = |n: usize| alloc.read_partial_uint(off..off + n);
        match ty.kind() {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => match uint(1) { Ok(x) => format!(r#"{{"v":"int","x":{}}}"#, x), _ => unk },
                RigidTy::Char => match uint(4) { Ok(x) => format!(r#"{{"v":"int","x":{}}}"#, x), _ => unk },
                RigidTy::Uint(t) => match uint(t.num_bytes()) { Ok(x) => format!(r#"{{"v":"int","x":{}}}"#, x), _ => unk },
                RigidTy::Int(t) => {
                    let n = t.num_bytes();
                    match uint(n) {
                        Ok(x) => {
                            let sh = 128 - 8 * n as u32;
                            format!(r#"{{"v":"int","x":{}}}"#, ((x << sh) as i128) >> sh)
                        }
                        _ => unk,
                    }
                }
                RigidTy::Float(FloatTy::F32) => match uint(4) { Ok(x) => format!(r#"{{"v":"f32","bits":{}}}"#, x), _ => unk },
                RigidTy::Float(FloatTy::F64) => match uint(8) { Ok(x) => format!(r#"{{"v":"f64","bits":{}}}"#, x), _ => unk },
                RigidTy::Ref(_, t, _) | RigidTy::RawPtr(t, _) => {
                    let Some((a, o)) = self.read_ptr(alloc, off) else { return unk };
                    match t.kind() {
                        TyKind::RigidTy(RigidTy::Str) => {
                            let Ok(n) = alloc.read_partial_uint(off + 8..off + 16) else { return unk };
                            let Ok(b) = a.raw_bytes() else { return unk };
                            match std::str::from_utf8(&b[o..o + n as usize]) {
                                Ok(s) => format!(r#"{{"v":"str","x":{}}}"#, esc(s)),
                                _ => unk,
                            }
                        }
                        TyKind::RigidTy(RigidTy::Slice(e)) => {
                            let Ok(n) = alloc.read_partial_uint(off + 8..off + 16) else { return unk };
                            let Ok(l) = e.layout() else { return unk };
                            let st = l.shape().size.bytes();
                            let v: Vec<String> = (0..n as usize).map(|i| self.cval(&a, o + i * st, e, depth + 1)).collect();
                            let et = self.ty(e);
                            format!(r#"{{"v":"slice","ty":{},"x":{}}}"#, et, arr(&v))
                        }
                        TyKind::RigidTy(RigidTy::Dynamic(..)) => unk,
                        _ => {
                            let inner = self.cval(&a, o, t, depth + 1);
                            format!(r#"{{"v":"ref","x":{}}}"#, inner)
                        }
                    }
                }
                RigidTy::Array(e, n) => {
                    let Ok(n) = n.eval_target_usize() else { return unk };
                    let Ok(l) = e.layout() else { return unk };
                    let st = l.shape().size.bytes();
                    let v: Vec<String> = (0..n as usize).map(|i| self.cval(alloc, off + i * st, e, depth + 1)).collect();
                    let et = self.ty(e);
                    format!(r#"{{"v":"array","ty":{},"x":{}}}"#, et, arr(&v))
                }
                RigidTy::Tuple(ts) => {
                    let Ok(l) = ty.layout() else { return unk };
                    let v: Vec<String> = match &l.shape().fields {
                        FieldsShape::Arbitrary { offsets } => ts.iter().zip(offsets.clone()).map(|(t, o)| self.cval(alloc, off + o.bytes(), *t, depth + 1)).collect(),
                        _ => vec![],
                    };
                    format!(r#"{{"v":"agg","variant":0,"x":{}}}"#, arr(&v))
                }
                RigidTy::Adt(def, args) => {
                    let Ok(l) = ty.layout() else { return unk };
                    let shape = l.shape();
                    let variants = def.variants();
                    match &shape.variants {
                        VariantsShape::Single { index } => {
                            if variants.is_empty() { return unk; }
                            let vi = index.to_index();
                            let Some(variant) = variants.get(vi) else { return unk };
                            let v: Vec<String> = match &shape.fields {
                                FieldsShape::Arbitrary { offsets } => variant.fields().iter().zip(offsets.clone())
                                    .map(|(f, o)| self.cval(alloc, off + o.bytes(), f.ty_with_args(&args), depth + 1)).collect(),
                                FieldsShape::Primitive => vec![],
                                _ => return unk,
                            };
                            format!(r#"{{"v":"agg","variant":{},"x":{}}}"#, vi, arr(&v))
                        }
                        VariantsShape::Multiple { tag, tag_encoding, tag_field, variants: vf } => {
                            let FieldsShape::Arbitrary { offsets } = &shape.fields else { return unk };
                            let toff = off + offsets[*tag_field].bytes();
                            let (Scalar::Initialized { value, .. } | Scalar::Union { value }) = tag;
                            let tsize = value.size(&rustc_public::target::MachineInfo::target()).bytes();
                            let has_prov = alloc.provenance.ptrs.iter().any(|(o, _)| *o == toff);
                            let tagv = alloc.read_partial_uint(toff..toff + tsize);
                            let vi = match tag_encoding {
                                TagEncoding::Direct => {
                                    let Ok(x) = tagv else { return unk };
                                    let mask = if tsize >= 16 { u128::MAX } else { (1u128 << (8 * tsize)) - 1 };
                                    match variants.iter().position(|v| def.discriminant_for_variant(v.idx()).val & mask == x) { Some(i) => i, None => return unk }
                                }
                                TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                    let u = untagged_variant.to_index();
                                    if has_prov { u } else {
                                        let Ok(x) = tagv else { return unk };
                                        let mask = if tsize >= 16 { u128::MAX } else { (1u128 << (8 * tsize)) - 1 };
                                        let rel = x.wrapping_sub(*niche_start) & mask;
                                        let s = niche_variants.start().to_index();
                                        let e = niche_variants.end().to_index();
                                        if rel <= (e - s) as u128 { s + rel as usize } else { u }
                                    }
                                }
                            };
                            let v: Vec<String> = variants[vi].fields().iter().zip(vf[vi].offsets.clone())
                                .map(|(f, o)| self.cval(alloc, off + o.bytes(), f.ty_with_args(&args), depth + 1)).collect();
                            format!(r#"{{"v":"agg","variant":{},"x":{}}}"#, vi, arr(&v))
                        }
                        _ => unk,
                    }
                }
                RigidTy::FnDef(..) | RigidTy::Closure(..) => r#"{"v":"zst"}"#.to_string(),
                _ => unk,
            },
            _ => unk,
        }
    }

    fn konst(&mut self, c: &MirConst) -> String {
        let ty = c.ty();
        let tid = self.ty(ty);
        let val = match c.kind() {
            ConstantKind::Allocated(a) => self.cval(a, 0, ty, 0),
            ConstantKind::ZeroSized => r#"{"v":"zst"}"#.to_string(),
            ConstantKind::Ty(tc) => match tc.eval_target_usize() {
                Ok(x) => format!(r#"{{"v":"int","x":{}}}"#, x),
                _ => match tc.kind() {
                    TyConstKind::Value(t, a) => self.cval(a, 0, *t, 0),
                    TyConstKind::ZSTValue(_) => r#"{"v":"zst"}"#.to_string(),
                    _ => r#"{"v":"unknown"}"#.to_string(),
                },
            },
            _ => r#"{"v":"unknown"}"#.to_string(),
        };
        format!(r#"["const",{},{}]"#, tid, val)
    }

    fn operand(&mut self, o: &Operand) -> String {
        match o {
            Operand::Copy(p) => format!(r#"["copy",{}]"#, self.place(p)),
            Operand::Move(p) => format!(r#"["move",{}]"#, self.place(p)),
            Operand::Constant(c) => self.konst(&c.const_),
            Operand::RuntimeChecks(r) => format!(r#"["rtcheck","{:?}"]"#, r),
        }
    }

    fn rvalue(&mut self, r: &Rvalue) -> String {
        match r {
            Rvalue::AddressOf(_, p) => format!(r#"["addr",{}]"#, self.place(p)),
            Rvalue::Aggregate(k, ops) => {
                let v: Vec<String> = ops.iter().map(|o| self.operand(o)).collect();
                let kind = match k {
                    AggregateKind::Array(t) => { let t = self.ty(*t); format!(r#"["array",{}]"#, t) }
                    AggregateKind::Tuple => r#"["tuple"]"#.to_string(),
                    AggregateKind::Adt(def, vi, args, _, field) => {
                        let t = def.ty_with_args(args);
                        let t = self.ty(t);
                        format!(r#"["adt",{},{},{}]"#, t, vi.to_index(), field.map(|f| f as i64).unwrap_or(-1))
                    }
                    AggregateKind::Closure(def, args) => {
                        let t = Ty::new_closure(*def, args.clone());
                        let t = self.ty(t);
                        format!(r#"["closure",{}]"#, t)
                    }
                    AggregateKind::RawPtr(..) => r#"["rawptr"]"#.to_string(),
                    _ => r#"["other"]"#.to_string(),
                };
                format!(r#"["agg",{},{}]"#, kind, arr(&v))
            }
            Rvalue::BinaryOp(op, a, b) => format!(r#"["bin","{:?}",{},{}]"#, op, self.operand(a), self.operand(b)),
            Rvalue::CheckedBinaryOp(op, a, b) => format!(r#"["cbin","{:?}",{},{}]"#, op, self.operand(a), self.operand(b)),
            Rvalue::Cast(k, o, t) => {
                let t = self.ty(*t);
                format!(r#"["cast",{},{},{}]"#, esc(&format!("{:?}", k)), self.operand(o), t)
            }
            Rvalue::CopyForDeref(p) => format!(r#"["use",["copy",{}]]"#, self.place(p)),
            Rvalue::Discriminant(p) => format!(r#"["discr",{}]"#, self.place(p)),
            Rvalue::Len(p) => format!(r#"["len",{}]"#, self.place(p)),
            Rvalue::Ref(_, k, p) => format!(r#"["ref",{},{}]"#, matches!(k, BorrowKind::Mut { .. }), self.place(p)),
            Rvalue::Repeat(o, n) => format!(r#"["repeat",{},{}]"#, self.operand(o), n.eval_target_usize().map(|x| x as i64).unwrap_or(-1)),
            Rvalue::ThreadLocalRef(i) => format!(r#"["tls",{}]"#, esc(&i.name())),
            Rvalue::UnaryOp(op, o) => format!(r#"["un","{:?}",{}]"#, op, self.operand(o)),
            Rvalue::Use(o, _) => format!(r#"["use",{}]"#, self.operand(o)),
            Rvalue::Reborrow(_, _, p) => format!(r#"["use",["copy",{}]]"#, self.place(p)),
        }
    }

    fn body(&mut self, body: &Body) -> String {
        let locals: Vec<String> = body.locals().iter().map(|l| self.ty(l.ty).to_string()).collect();
        let mut names = vec![];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() {
                    names.push(format!("[{},{}]", p.local, esc(&v.name)));
                }
            }
        }
        let mut blocks = vec![];
        for b in &body.blocks {
            let mut st = vec![];
            for s in &b.statements {
                let sp = span_json(s.source_info.span);
                match &s.kind {
                    StatementKind::Assign(p, r) => {
                        let p = self.place(p);
                        let r = self.rvalue(r);
                        st.push(format!(r#"["=",{},{},{}]"#, p, r, sp));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        st.push(format!(r#"["setd",{},{},{}]"#, self.place(place), variant_index.to_index(), sp));
                    }
                    StatementKind::Intrinsic(NonDivergingIntrinsic::Assume(o)) => {
                        st.push(format!(r#"["assume",{},0,{}]"#, self.operand(o), sp));
                    }
                    StatementKind::Intrinsic(_) => st.push(format!(r#"["copynonoverlapping",0,0,{}]"#, sp)),
                    StatementKind::StorageDead(l) => {}
                    _ => {}
                }
            }
            let sp = span_json(b.terminator.source_info.span);
            let t = match &b.terminator.kind {
                TerminatorKind::Goto { target } => format!(r#"["goto",{}]"#, target),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let br: Vec<String> = targets.branches().map(|(v, t)| format!("[{},{}]", v, t)).collect();
                    format!(r#"["switch",{},{},{},{}]"#, self.operand(discr), arr(&br), targets.otherwise(), sp)
                }
                TerminatorKind::Resume => r#"["resume"]"#.to_string(),
                TerminatorKind::Abort => r#"["abort"]"#.to_string(),
                TerminatorKind::Return => r#"["return"]"#.to_string(),
                TerminatorKind::Unreachable => r#"["unreachable"]"#.to_string(),
                TerminatorKind::Drop { place, target, .. } => format!(r#"["drop",{},{}]"#, self.place(place), target),
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let a: Vec<String> = args.iter().map(|o| self.operand(o)).collect();
                    let mut callee = "null".to_string();
                    let mut orig = "null".to_string();
                    let mut otys = vec![];
                    let mut next = -1i64;
                    if let Operand::Constant(c) = func {
                        if let TyKind::RigidTy(RigidTy::FnDef(def, gargs)) = c.const_.ty().kind() {
                            let oname = def.name();
                            orig = esc(&oname);
                            for a in &gargs.0 {
                                if let GenericArgKind::Type(t) = a {
                                    otys.push(self.ty(*t).to_string());
                                }
                            }
                            if oname == "std::iter::Iterator::next" && self.iter_next.is_none() {
                                self.iter_next = Some(def);
                            }
                            if oname.starts_with("std::iter::") || oname.ends_with("::extend") || oname.ends_with("::from_iter") {
                                if let Some(n) = self.iter_next {
                                    // the iterator is the receiver, or the last type argument
                                    let cands: Vec<Ty> = gargs.0.iter().filter_map(|a| if let GenericArgKind::Type(t) = a { Some(*t) } else { None }).collect();
                                    let t = if oname.starts_with("std::iter::Iterator::") { cands.first() } else { cands.last() };
                                    if let Some(t) = t {
                                        if let Ok(i) = Instance::resolve(n, &GenericArgs(vec![GenericArgKind::Type(*t)])) {
                                            next = self.inst(i) as i64;
                                        }
                                    }
                                }
                            }
                            match Instance::resolve(def, &gargs) {
                                Ok(i) => callee = self.inst(i).to_string(),
                                Err(_) => callee = esc(&format!("{}", def.name())),
                            }
                        }
                    }
                    let f = if callee == "null" { self.operand(func) } else { "null".to_string() };
                    let d = self.place(destination);
                    format!(r#"["call",{},{},{},{},{},{},{},{},{}]"#, callee, f, arr(&a), d, target.map(|t| t as i64).unwrap_or(-1), sp, orig, arr(&otys), next)
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = match msg {
                        AssertMessage::BoundsCheck { len, index } => format!(r#"["bounds",{},{}]"#, self.operand(len), self.operand(index)),
                        AssertMessage::Overflow(op, a, b) => format!(r#"["overflow","{:?}",{},{}]"#, op, self.operand(a), self.operand(b)),
                        AssertMessage::OverflowNeg(a) => format!(r#"["overflowneg",{}]"#, self.operand(a)),
                        AssertMessage::DivisionByZero(a) => format!(r#"["divzero",{}]"#, self.operand(a)),
                        AssertMessage::RemainderByZero(a) => format!(r#"["remzero",{}]"#, self.operand(a)),
                        other => format!(r#"["other",{}]"#, esc(other.description().unwrap_or("?"))),
                    };
                    format!(r#"["assert",{},{},{},{},{}]"#, self.operand(cond), expected, m, target, sp)
                }
                TerminatorKind::InlineAsm { .. } => r#"["asm"]"#.to_string(),
            };
            blocks.push(format!(r#"{{"s":{},"t":{}}}"#, arr(&st), t));
        }
        format!(
            r#"{{"argc":{},"spread":{},"locals":{},"names":{},"blocks":{},"span":{}}}"#,
            body.arg_locals().len(),
            body.spread_arg().map(|x| x as i64).unwrap_or(-1),
            arr(&locals), arr(&names), arr(&blocks), span_json(body.span)
        )
    }
}

/// Which standard-library bodies are shipped. Anything else is modelled by the analysis.
fn want_std(def: &str) -> bool {
    const NO: &[&str] = &[
        "std::fmt", "core::fmt", "dec2flt", "flt2dec", "alloc::raw_vec", "std::alloc", "alloc::alloc", "std::slice::sort",
        "core::slice::sort", "memchr", "panicking", "std::collections::", "std::hash", "hashbrown", "std::thread",
        "std::vec::", "alloc::vec", "std::string::", "alloc::string", "std::io::", "alloc::io", "std::rt::", "precondition_check",
        "std::boxed::", "alloc::boxed", "core::str::", "std::str::", "std::sys", "std::backtrace",
    ];
    let d = def.trim_start_matches('<').trim_start_matches('&');
    !NO.iter().any(|x| d.starts_with(x)) && !def.contains("precondition_check") && !def.contains("dec2flt")
}

fn analyze() -> ControlFlow<(), ()> {
    let mut cx = Cx { types: vec![], type_ids: HashMap::new(), insts: vec![], inst_ids: HashMap::new(), queue: VecDeque::new(), inst_json: vec![], iter_next: None };
    let mut roots = vec![];
    for item in rustc_public::all_local_items() {
        if !matches!(item.kind(), rustc_public::ItemKind::Fn) || item.requires_monomorphization() {
            continue;
        }
        if let Ok(i) = Instance::try_from(item) {
            if matches!(i.ty().kind(), TyKind::RigidTy(RigidTy::FnDef(..))) {
                let id = cx.inst(i);
                roots.push(format!("[{},{}]", esc(&item.name()), id));
            }
        }
    }
    // functions with an iteration loop come first so that `Iterator::next` is known
    roots.sort_by_key(|r| !r.contains("iterator_next"));
    let first: Option<usize> = cx.insts.iter().position(|i| i.name().contains("iterator_next"));
    if let Some(f) = first {
        cx.queue.retain(|x| *x != f);
        cx.queue.push_front(f);
    }
    while let Some(id) = cx.queue.pop_front() {
        let i = cx.insts[id];
        let name = i.name();
        let krate = i.def.krate().name;
        let local = matches!(krate.as_str(), "harness" | "postscript" | "typeface");
        let defname = i.def.name();
        let mut targs = vec![];
        for a in &i.args().0 {
            if let GenericArgKind::Type(t) = a {
                targs.push(cx.ty(*t).to_string());
            }
        }
        let is_closure = matches!(i.ty().kind(), TyKind::RigidTy(RigidTy::Closure(..)));
        let kind = match i.kind {
            InstanceKind::Item => "item",
            InstanceKind::Intrinsic => "intrinsic",
            InstanceKind::LlvmIntrinsic => "llvm",
            InstanceKind::Virtual { .. } => "virtual",
            InstanceKind::Shim => "shim",
        };
        let mut body = "null".to_string();
        if (local || want_std(&defname)) && (i.has_body() || kind == "shim") && kind != "virtual" && kind != "intrinsic" {
            let nm = name.to_string();
            if !nm.contains("drop_in_place") {
                if let Some(b) = i.body() {
                    if local || b.blocks.len() <= 80 {
                        body = cx.body(&b);
                    }
                }
            }
        }
        let ret = match i.fn_abi() {
            Ok(abi) if kind != "intrinsic" && kind != "llvm" => cx.ty(abi.ret.ty).to_string(),
            _ => "-1".to_string(),
        };
        cx.inst_json[id] = format!(
            r#"{{"name":{},"def":{},"crate":{},"kind":"{}","closure":{},"targs":{},"ret":{},"body":{}}}"#,
            esc(&name), esc(&defname), esc(&krate), kind, is_closure, arr(&targs), ret, body
        );
        if cx.insts.len() > 60000 {
            break;
        }
    }
    // inventory of the analysed crate
    let mut inv = vec![];
    let cname = std::env::var("MIRDUMP_CRATE").unwrap_or_else(|_| "postscript".into());
    let mut statics = vec![];
    for k in rustc_public::find_crates(&cname) {
        for f in k.fn_defs() {
            inv.push(format!(r#"{{"name":{},"span":{},"body":{}}}"#, esc(&f.name()), span_json(f.span()), f.has_body()));
        }
        for s in k.statics() {
            statics.push(esc(&s.name()));
        }
    }
    let out = format!(
        "{{\"roots\":{},\"types\":[\n{}\n],\"insts\":[\n{}\n],\"inventory\":[\n{}\n],\"statics\":{}}}",
        arr(&roots), cx.types.join(",\n"), cx.inst_json.iter().map(|s| if s.is_empty() { "null".to_string() } else { s.clone() }).collect::<Vec<_>>().join(",\n"),
        inv.join(",\n"), arr(&statics)
    );
    let path = std::env::var("MIRDUMP_OUT").expect("MIRDUMP_OUT");
    std::fs::write(path, out).expect("write");
    ControlFlow::Continue(())
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // cargo passes the real rustc as the first argument
    args.remove(0);
    let is_target = args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == "harness");
    if !is_target {
        let status = std::process::Command::new(&args[0]).args(&args[1..]).status().expect("rustc");
        std::process::exit(status.code().unwrap_or(1));
    }
    match run!(&args, analyze) {
        Ok(_) => {}
        Err(CompilerError::Interrupted(_)) | Err(CompilerError::Skipped) => {}
        Err(CompilerError::Failed) => std::process::exit(101),
    }
}
