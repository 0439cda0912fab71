//! mirdump: a rustc driver that writes the type-checked, monomorphic MIR of a workspace crate
//! (and of the std combinators it calls) as JSON, for the dataflow analyses in /verif/lib.
//!
//! Used as RUSTC_WORKSPACE_WRAPPER: argv = [mirdump, rustc, args...].
//! MIRDUMP_OUT: output directory.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public;
extern crate rustc_public_bridge;
extern crate rustc_span;

use rustc_middle::ty::TyCtxt;
use rustc_public::abi::{FieldsShape, TagEncoding, VariantsShape};
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType, CrateItem, DefId, ItemKind};
use rustc_public_bridge::IndexedVal;
use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};
use std::fmt::Write as _;
use std::ops::ControlFlow;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || (c as u32) == 0x7f => { let _ = write!(o, "\\u{:04x}", c as u32); },
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<Option<String>>,
    tyix: HashMap<Ty, usize>,
    adts: BTreeMap<String, String>,
    queue: VecDeque<Instance>,
    seen: HashSet<String>,
    fns: Vec<String>,
    names: HashMap<Ty, String>,
    statics: BTreeMap<String, String>,
}

const WORKSPACE: [&str; 3] = ["subweight_core", "subweight_web", "subweight"];

fn is_ws(krate: &str) -> bool { WORKSPACE.contains(&krate) }

fn want_std(path: &str) -> bool {
    let p = path.strip_prefix("core::").or_else(|| path.strip_prefix("std::")).unwrap_or(path);
    let p2 = p.strip_prefix("<").unwrap_or(p);
    for pre in [
        "option::Option", "result::Result", "ops::ControlFlow", "ops::control_flow", "ops::Try", "ops::FromResidual",
        "ops::FnOnce", "ops::FnMut", "ops::Fn", "ops::function", "convert::", "cmp::", "bool::", "mem::replace", "mem::take", "mem::swap",
        "borrow::", "option::", "result::", "iter::Iterator::max_by", "default::", "num::nonzero",
        "pin::", "hint::must_use", "ops::try_trait", "clone::", "string::String::into", "ops::Deref", "ops::DerefMut", "ops::deref",
    ] {
        if p.starts_with(pre) || p2.starts_with(pre) { return true; }
    }
    p.contains("std::option::Option") || p.contains("std::result::Result") || p.contains("std::ops::ControlFlow") || p.contains("impl std::cmp::")
}

impl<'tcx> Cx<'tcx> {
    fn ty(&mut self, t: Ty) -> usize {
        if let Some(i) = self.tyix.get(&t) { return *i; }
        let i = self.types.len();
        self.types.push(None);
        self.tyix.insert(t, i);
        let name = format!("{}", t);
        let body = match t.kind() {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => "\"k\":\"bool\"".into(),
                RigidTy::Char => "\"k\":\"char\"".into(),
                RigidTy::Int(x) => format!("\"k\":\"int\",\"w\":{}", x.num_bytes() * 8),
                RigidTy::Uint(x) => format!("\"k\":\"uint\",\"w\":{}", x.num_bytes() * 8),
                RigidTy::Float(f) => format!("\"k\":\"float\",\"w\":{}", match f { FloatTy::F16 => 16, FloatTy::F32 => 32, FloatTy::F64 => 64, FloatTy::F128 => 128 }),
                RigidTy::Adt(def, args) => {
                    let n = self.adt(def, &args);
                    let a: Vec<usize> = args.0.iter().filter_map(|g| g.ty().copied()).map(|t| self.ty(t)).collect();
                    format!("\"k\":\"adt\",\"adt\":{},\"args\":{:?}", esc(&n), a)
                },
                RigidTy::Str => "\"k\":\"str\"".into(),
                RigidTy::Array(e, n) => { let e = self.ty(e); format!("\"k\":\"array\",\"e\":{},\"n\":{}", e, n.eval_target_usize().unwrap_or(0)) },
                RigidTy::Slice(e) => { let e = self.ty(e); format!("\"k\":\"slice\",\"e\":{}", e) },
                RigidTy::RawPtr(e, m) => { let e = self.ty(e); format!("\"k\":\"ptr\",\"mut\":{},\"e\":{}", m == Mutability::Mut, e) },
                RigidTy::Ref(_, e, m) => { let e = self.ty(e); format!("\"k\":\"ref\",\"mut\":{},\"e\":{}", m == Mutability::Mut, e) },
                RigidTy::FnDef(def, args) => format!("\"k\":\"fndef\",\"fn\":{}", self.fnref(def, &args)),
                RigidTy::FnPtr(_) => "\"k\":\"fnptr\"".into(),
                RigidTy::Closure(def, args) => {
                    let inst = Instance::resolve_closure(def, &args, ClosureKind::Fn);
                    let key = match inst { Ok(i) => { self.enqueue(i); i.mangled_name().to_string() }, Err(_) => String::new() };
                    format!("\"k\":\"closure\",\"key\":{},\"def\":{}", esc(&key), esc(&def.name().to_string()))
                },
                RigidTy::Coroutine(def, args) => {
                    let i = raw_instance(self.tcx, def.def_id(), &args);
                    self.enqueue(i);
                    format!("\"k\":\"coroutine\",\"key\":{},\"def\":{}", esc(&i.mangled_name().to_string()), esc(&def.name().to_string()))
                },
                RigidTy::Tuple(ts) => { let v: Vec<usize> = ts.iter().map(|t| self.ty(*t)).collect(); format!("\"k\":\"tuple\",\"es\":{:?}", v) },
                RigidTy::Never => "\"k\":\"never\"".into(),
                RigidTy::Dynamic(..) => "\"k\":\"dyn\"".into(),
                _ => "\"k\":\"other\"".into(),
            },
            _ => "\"k\":\"other\"".into(),
        };
        self.types[i] = Some(format!("{{{},\"s\":{}}}", body, esc(&name)));
        i
    }

    fn adt(&mut self, def: AdtDef, _args: &GenericArgs) -> String {
        let n = def.name().to_string();
        if !self.adts.contains_key(&n) {
            self.adts.insert(n.clone(), String::new());
            let mut vs = vec![];
            if def.kind() != AdtKind::Union {
                for v in def.variants_iter() {
                    let fs: Vec<String> = v.fields().iter().map(|f| esc(&f.name.to_string())).collect();
                    let d = if def.kind() == AdtKind::Enum { def.discriminant_for_variant(v.idx()).val } else { 0 };
                    vs.push(format!("[{},\"{}\",[{}]]", esc(&v.name().to_string()), d, fs.join(",")));
                }
            }
            let k = match def.kind() { AdtKind::Enum => "enum", AdtKind::Struct => "struct", AdtKind::Union => "union" };
            let sp = def.span();
            let file = sp.get_filename();
            self.adts.insert(n.clone(), format!("{{\"kind\":\"{}\",\"box\":{},\"crate\":{},\"file\":{},\"line\":{},\"vs\":[{}]}}", k, def.is_box(), esc(&def.krate().name.to_string()), esc(&file), sp.get_lines().start_line, vs.join(",")));
        }
        n
    }

    fn enqueue(&mut self, i: Instance) -> String {
        let key = i.mangled_name().to_string();
        if self.seen.insert(key.clone()) { self.queue.push_back(i); }
        key
    }

    fn fnref(&mut self, def: FnDef, args: &GenericArgs) -> String {
        let path = def.name().to_string();
        let tys: Vec<usize> = args.0.iter().filter_map(|g| g.ty().copied()).map(|t| self.ty(t)).collect();
        let krate = def.krate().name.to_string();
        let mut s = format!("{{\"path\":{},\"crate\":{},\"args\":{:?}", esc(&path), esc(&krate), tys);
        if path.ends_with("Iterator::flatten") {
            if let Some(i) = self.item_type(args) {
                let _ = write!(s, ",\"item\":{}", esc(&i));
            }
        }
        if let Ok(inst) = Instance::resolve(def, args) {
            let key = inst.mangled_name().to_string();
            let kind = match inst.kind { InstanceKind::Item => "item", InstanceKind::Intrinsic | InstanceKind::LlvmIntrinsic => "intrinsic", InstanceKind::Virtual { .. } => "virtual", InstanceKind::Shim => "shim" };
            let dn = inst.def.def_id_name();
            let _ = write!(s, ",\"key\":{},\"rkind\":\"{}\",\"rpath\":{},\"rcrate\":{}", esc(&key), kind, esc(&dn.0), esc(&dn.1));
            if (inst.kind == InstanceKind::Item || inst.kind == InstanceKind::Shim) && (is_ws(&dn.1) || want_std(&dn.0) || want_std(&path) || inst.kind == InstanceKind::Shim && path.contains("ops::Fn")) {
                self.enqueue(inst);
            }
        }
        s.push('}');
        s
    }

    /// the type of the elements of an iterator
    fn item_type(&self, args: &GenericArgs) -> Option<String> {
        use rustc_middle::ty::{self, TypeVisitableExt};
        let it = rustc_public::rustc_internal::internal(self.tcx, *args.0.first()?.ty()?);
        if it.has_param() {
            return None;
        }
        let tr = self.tcx.get_diagnostic_item(rustc_span::sym::Iterator)?;
        let item = self.tcx.associated_items(tr).in_definition_order().find(|i| i.is_type())?.def_id;
        let proj = ty::Ty::new_projection(self.tcx, ty::IsRigid::No, item, [it]);
        let t = self.tcx.try_normalize_erasing_regions(ty::TypingEnv::fully_monomorphized(), ty::Unnormalized::new_wip(proj)).ok()?;
        Some(t.to_string())
    }

    fn place(&mut self, p: &Place) -> String {
        let mut ps = vec![];
        for e in &p.projection {
            ps.push(match e {
                ProjectionElem::Deref => "\"*\"".to_string(),
                ProjectionElem::Field(i, t) => format!("[\"f\",{},{}]", i, self.ty(*t)),
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => format!("[\"ci\",{},{},{}]", offset, min_length, from_end),
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"ss\",{},{},{}]", from, to, from_end),
                ProjectionElem::Downcast(v) => format!("[\"v\",{}]", v.to_index()),
                ProjectionElem::OpaqueCast(_) => "[\"oc\"]".to_string(),
            });
        }
        format!("[{},[{}]]", p.local, ps.join(","))
    }

    fn operand(&mut self, o: &Operand) -> String {
        match o {
            Operand::Copy(p) => format!("[\"c\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(p)),
            Operand::Constant(c) => format!("[\"k\",{}]", self.konst(&c.const_)),
            Operand::RuntimeChecks(_) => "[\"rc\"]".to_string(),
        }
    }

    fn konst(&mut self, c: &MirConst) -> String {
        let ty = c.ty();
        let t = self.ty(ty);
        let v = match c.kind() {
            ConstantKind::Allocated(a) => self.decode(a, 0, ty, 0),
            ConstantKind::ZeroSized => self.zst(ty),
            ConstantKind::Ty(tc) => match tc.kind() {
                TyConstKind::Value(t, a) => self.decode(a, 0, *t, 0),
                _ => match tc.eval_target_usize() { Ok(n) => format!("[\"int\",\"{}\"]", n), _ => "[\"opaque\",\"tyconst\"]".into() },
            },
            ConstantKind::Unevaluated(u) => format!("[\"opaque\",{}]", esc(&format!("uneval {}", u.def.name()))),
            ConstantKind::Param(p) => format!("[\"opaque\",{}]", esc(&format!("param {}", p.name))),
        };
        format!("{{\"t\":{},\"v\":{}}}", t, v)
    }

    fn zst(&mut self, ty: Ty) -> String {
        match ty.kind() {
            TyKind::RigidTy(RigidTy::FnDef(..)) => "[\"fn\"]".into(),
            TyKind::RigidTy(RigidTy::Tuple(ts)) => { let v: Vec<String> = ts.iter().map(|t| self.zst(*t)).collect(); format!("[\"tup\",[{}]]", v.join(",")) },
            TyKind::RigidTy(RigidTy::Closure(..)) => "[\"clo\"]".into(),
            TyKind::RigidTy(RigidTy::Array(..)) => "[\"arr\",[]]".into(),
            TyKind::RigidTy(RigidTy::Adt(def, args)) if def.kind() == AdtKind::Struct => {
                let n = self.adt(def, &args);
                let v: Vec<String> = def.variants()[0].fields().iter().map(|f| { let t = f.ty_with_args(&args); self.zst(t) }).collect();
                format!("[\"adt\",{},0,[{}]]", esc(&n), v.join(","))
            },
            _ => "[\"zst\"]".into(),
        }
    }

    fn ptr_at<'a>(&self, a: &'a Allocation, off: usize) -> Option<(GlobalAlloc, usize)> {
        for (o, p) in &a.provenance.ptrs {
            if *o == off {
                let disp = a.read_partial_uint(off..off + 8).unwrap_or(0) as usize;
                return Some((GlobalAlloc::from(p.0), disp));
            }
        }
        None
    }

    fn decode(&mut self, a: &Allocation, off: usize, ty: Ty, depth: usize) -> String {
        if depth > 12 { return "[\"opaque\",\"deep\"]".into(); }
        let kind = ty.kind();
        let r = match kind { TyKind::RigidTy(r) => r, _ => return "[\"opaque\",\"nonrigid\"]".into() };
        match r {
            RigidTy::Bool => match a.read_partial_uint(off..off + 1) { Ok(n) => format!("[\"bool\",{}]", n != 0), _ => "[\"opaque\",\"uninit\"]".into() },
            RigidTy::Char => match a.read_partial_uint(off..off + 4) { Ok(n) => format!("[\"char\",{}]", n), _ => "[\"opaque\",\"uninit\"]".into() },
            RigidTy::Uint(u) => match a.read_partial_uint(off..off + u.num_bytes()) { Ok(n) => format!("[\"int\",\"{}\"]", n), _ => "[\"opaque\",\"uninit\"]".into() },
            RigidTy::Int(u) => {
                let n = u.num_bytes();
                match a.read_partial_uint(off..off + n) {
                    Ok(x) => { let sh = 128 - 8 * n as u32; let s = ((x << sh) as i128) >> sh; format!("[\"int\",\"{}\"]", s) },
                    _ => "[\"opaque\",\"uninit\"]".into(),
                }
            },
            RigidTy::Float(f) => {
                match f {
                    FloatTy::F64 => match a.read_partial_uint(off..off + 8) { Ok(x) => format!("[\"float\",\"{:?}\"]", f64::from_bits(x as u64)), _ => "[\"opaque\",\"uninit\"]".into() },
                    FloatTy::F32 => match a.read_partial_uint(off..off + 4) { Ok(x) => format!("[\"float\",\"{:?}\"]", f32::from_bits(x as u32)), _ => "[\"opaque\",\"uninit\"]".into() },
                    _ => "[\"opaque\",\"float\"]".into(),
                }
            },
            RigidTy::Tuple(ts) => {
                let sh = match ty.layout() { Ok(l) => l.shape(), _ => return "[\"opaque\",\"layout\"]".into() };
                let mut v = vec![];
                for (i, t) in ts.iter().enumerate() {
                    let o = field_off(&sh.fields, i);
                    v.push(self.decode(a, off + o, *t, depth + 1));
                }
                format!("[\"tup\",[{}]]", v.join(","))
            },
            RigidTy::Array(e, n) => {
                let n = n.eval_target_usize().unwrap_or(0) as usize;
                let sz = e.layout().map(|l| l.shape().size.bytes()).unwrap_or(0);
                if matches!(e.kind(), TyKind::RigidTy(RigidTy::Uint(UintTy::U8))) {
                    let bs: Option<Vec<u8>> = a.bytes[off..off + n].iter().copied().collect();
                    return match bs { Some(b) => format!("[\"bytes\",{:?}]", b), None => "[\"opaque\",\"uninit\"]".into() };
                }
                let mut v = vec![];
                for i in 0..n.min(4096) { v.push(self.decode(a, off + i * sz, e, depth + 1)); }
                format!("[\"arr\",[{}]]", v.join(","))
            },
            RigidTy::Ref(_, e, _) | RigidTy::RawPtr(e, _) => {
                match self.ptr_at(a, off) {
                    Some((GlobalAlloc::Memory(m), disp)) => {
                        match e.kind() {
                            TyKind::RigidTy(RigidTy::Str) => {
                                let n = a.read_partial_uint(off + 8..off + 16).unwrap_or(0) as usize;
                                let bs: Option<Vec<u8>> = m.bytes[disp..disp + n].iter().copied().collect();
                                match bs.and_then(|b| String::from_utf8(b).ok()) { Some(s) => format!("[\"str\",{}]", esc(&s)), None => "[\"opaque\",\"str\"]".into() }
                            },
                            TyKind::RigidTy(RigidTy::Slice(et)) => {
                                let n = a.read_partial_uint(off + 8..off + 16).unwrap_or(0) as usize;
                                let sz = et.layout().map(|l| l.shape().size.bytes()).unwrap_or(0);
                                if matches!(et.kind(), TyKind::RigidTy(RigidTy::Uint(UintTy::U8))) {
                                    let bs: Option<Vec<u8>> = m.bytes[disp..disp + n].iter().copied().collect();
                                    return match bs { Some(b) => format!("[\"ref\",[\"bytes\",{:?}]]", b), None => "[\"opaque\",\"uninit\"]".into() };
                                }
                                let mut v = vec![];
                                for i in 0..n.min(4096) { v.push(self.decode(&m, disp + i * sz, et, depth + 1)); }
                                format!("[\"ref\",[\"arr\",[{}]]]", v.join(","))
                            },
                            TyKind::RigidTy(RigidTy::Dynamic(..)) => "[\"opaque\",\"dyn\"]".into(),
                            _ => format!("[\"ref\",{}]", self.decode(&m, disp, e, depth + 1)),
                        }
                    },
                    Some((GlobalAlloc::Static(s), _)) => {
                        let n = s.name().to_string();
                        let t = self.ty(s.ty());
                        self.statics.insert(n.clone(), format!("{}", t));
                        format!("[\"static\",{},{}]", esc(&n), t)
                    },
                    Some((GlobalAlloc::Function(i), _)) => { let k = self.enqueue(i); format!("[\"fnp\",{}]", esc(&k)) },
                    Some(_) => "[\"opaque\",\"alloc\"]".into(),
                    None => {
                        // dangling ZST reference
                        if e.layout().map(|l| l.shape().is_sized() && l.shape().size.bytes() == 0).unwrap_or(false) {
                            let z = self.zst(e);
                            format!("[\"ref\",{}]", z)
                        } else { "[\"opaque\",\"dangling\"]".into() }
                    },
                }
            },
            RigidTy::FnPtr(_) => match self.ptr_at(a, off) {
                Some((GlobalAlloc::Function(i), _)) => { let k = self.enqueue(i); format!("[\"fnp\",{}]", esc(&k)) },
                _ => "[\"opaque\",\"fnptr\"]".into(),
            },
            RigidTy::Adt(def, args) => {
                let n = self.adt(def, &args);
                let sh = match ty.layout() { Ok(l) => l.shape(), _ => return "[\"opaque\",\"layout\"]".into() };
                if def.kind() == AdtKind::Union { return "[\"opaque\",\"union\"]".into(); }
                let (vidx, offs): (usize, Vec<usize>) = match &sh.variants {
                    VariantsShape::Empty => return "[\"opaque\",\"empty\"]".into(),
                    VariantsShape::Single { index } => {
                        let k = sh.fields.count();
                        (index.to_index(), (0..k).map(|i| field_off(&sh.fields, i)).collect())
                    },
                    VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                        let to = field_off(&sh.fields, *tag_field);
                        let tsz = match tag { rustc_public::abi::Scalar::Initialized { value, .. } | rustc_public::abi::Scalar::Union { value } => value.size(&rustc_public::target::MachineInfo::target()).bytes() };
                        let is_ptr = a.provenance.ptrs.iter().any(|(o, _)| *o == off + to);
                        let raw = if is_ptr { None } else { a.read_partial_uint(off + to..off + to + tsz).ok() };
                        let v = match tag_encoding {
                            TagEncoding::Direct => {
                                let raw = match raw { Some(r) => r, None => return "[\"opaque\",\"tag\"]".into() };
                                let mask = if tsz >= 16 { u128::MAX } else { (1u128 << (8 * tsz)) - 1 };
                                let mut f = None;
                                for v in def.variants_iter() { if def.discriminant_for_variant(v.idx()).val & mask == raw { f = Some(v.idx().to_index()); } }
                                match f { Some(f) => f, None => return "[\"opaque\",\"tag\"]".into() }
                            },
                            TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                match raw {
                                    None => untagged_variant.to_index(),
                                    Some(raw) => {
                                        let mask = if tsz >= 16 { u128::MAX } else { (1u128 << (8 * tsz)) - 1 };
                                        let rel = raw.wrapping_sub(*niche_start) & mask;
                                        let (s, e) = (niche_variants.start().to_index(), niche_variants.end().to_index());
                                        if rel <= (e - s) as u128 { s + rel as usize } else { untagged_variant.to_index() }
                                    },
                                }
                            },
                        };
                        (v, variants[v].offsets.iter().map(|o| o.bytes()).collect())
                    },
                };
                let var = &def.variants()[vidx];
                let mut fs = vec![];
                for (i, f) in var.fields().iter().enumerate() {
                    let ft = f.ty_with_args(&args);
                    let o = offs.get(i).copied().unwrap_or(0);
                    fs.push(self.decode(a, off + o, ft, depth + 1));
                }
                format!("[\"adt\",{},{},[{}]]", esc(&n), vidx, fs.join(","))
            },
            RigidTy::FnDef(..) => "[\"fn\"]".into(),
            RigidTy::Closure(..) => "[\"clo\"]".into(),
            RigidTy::Never => "[\"zst\"]".into(),
            _ => "[\"opaque\",\"kind\"]".into(),
        }
    }

    fn rvalue(&mut self, r: &Rvalue) -> String {
        match r {
            Rvalue::AddressOf(k, p) => format!("[\"addr\",{},{}]", matches!(k, RawPtrKind::Mut), self.place(p)),
            Rvalue::Aggregate(k, ops) => {
                let os: Vec<String> = ops.iter().map(|o| self.operand(o)).collect();
                let os = os.join(",");
                match k {
                    AggregateKind::Array(_) => format!("[\"agg\",\"arr\",[{}]]", os),
                    AggregateKind::Tuple => format!("[\"agg\",\"tup\",[{}]]", os),
                    AggregateKind::Adt(def, v, args, _, _) => { let n = self.adt(*def, args); format!("[\"agg\",\"adt\",[{}],{},{}]", os, esc(&n), v.to_index()) },
                    AggregateKind::Closure(def, args) => { let t = Ty::new_closure(*def, args.clone()); let t = self.ty(t); format!("[\"agg\",\"clo\",[{}],{}]", os, t) },
                    AggregateKind::Coroutine(def, args) => { let t = Ty::new_coroutine(*def, args.clone()); let t = self.ty(t); format!("[\"agg\",\"coro\",[{}],{}]", os, t) },
                    AggregateKind::CoroutineClosure(..) => format!("[\"agg\",\"other\",[{}]]", os),
                    AggregateKind::RawPtr(..) => format!("[\"agg\",\"rawptr\",[{}]]", os),
                }
            },
            Rvalue::BinaryOp(op, a, b) => format!("[\"bin\",\"{:?}\",{},{}]", op, self.operand(a), self.operand(b)),
            Rvalue::CheckedBinaryOp(op, a, b) => format!("[\"cbin\",\"{:?}\",{},{}]", op, self.operand(a), self.operand(b)),
            Rvalue::Cast(k, o, t) => { let ks = esc(&format!("{:?}", k)); let o = self.operand(o); format!("[\"cast\",{},{},{}]", ks, o, self.ty(*t)) },
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"c\",{}]]", self.place(p)),
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(p)),
            Rvalue::Len(p) => format!("[\"len\",{}]", self.place(p)),
            Rvalue::Ref(_, k, p) => format!("[\"ref\",\"{}\",{}]", match k { BorrowKind::Shared => "s", BorrowKind::Fake(_) => "f", BorrowKind::Mut { .. } => "m" }, self.place(p)),
            Rvalue::Repeat(o, n) => format!("[\"rep\",{},{}]", self.operand(o), n.eval_target_usize().unwrap_or(0)),
            Rvalue::ThreadLocalRef(i) => format!("[\"tls\",{}]", esc(&i.name())),
            Rvalue::UnaryOp(op, o) => format!("[\"un\",\"{:?}\",{}]", op, self.operand(o)),
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.operand(o)),
            Rvalue::Reborrow(_, m, p) => format!("[\"ref\",\"{}\",{}]", if *m == Mutability::Mut { "m" } else { "s" }, self.place(p)),
        }
    }

    fn line(&self, s: &Span) -> usize { s.get_lines().start_line }

    fn body(&mut self, inst: Instance) {
        let key = inst.mangled_name().to_string();
        let (path, krate) = inst.def.def_id_name();
        if !(is_ws(&krate) || want_std(&path) || inst.kind == InstanceKind::Shim) { return; }
        if inst.kind == InstanceKind::Intrinsic || matches!(inst.kind, InstanceKind::Virtual { .. }) { return; }
        let body = match inst.body() { Some(b) => b, None => return };
        let file = body.span.get_filename();
        let mut s = String::new();
        let args: Vec<usize> = inst.args().0.iter().filter_map(|g| g.ty().copied()).map(|t| self.ty(t)).collect();
        let _ = write!(s, "{}:{{\"path\":{},\"name\":{},\"crate\":{},\"args\":{:?},\"file\":{},\"line\":{},\"nargs\":{},\"shim\":{},",
            esc(&key), esc(&path), esc(&inst.name().to_string()), esc(&krate), args, esc(&file), self.line(&body.span), body.arg_locals().len(), inst.kind == InstanceKind::Shim);
        let lts: Vec<usize> = body.locals().iter().map(|l| self.ty(l.ty)).collect();
        let _ = write!(s, "\"locals\":{:?},\"spread\":{},", lts, body.spread_arg().map(|l| l as i64).unwrap_or(-1));
        let mut ns = vec![];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                ns.push(format!("[{},{}]", esc(&v.name.to_string()), self.place(p)));
            }
        }
        let _ = write!(s, "\"names\":[{}],\"blocks\":[", ns.join(","));
        for (bi, b) in body.blocks.iter().enumerate() {
            if bi > 0 { s.push(','); }
            s.push_str("[[");
            let mut first = true;
            for st in &b.statements {
                let line = self.line(&st.source_info.span);
                let txt = match &st.kind {
                    StatementKind::Assign(p, r) => { let r = self.rvalue(r); format!("[\"=\",{},{},{}]", self.place(p), r, line) },
                    StatementKind::SetDiscriminant { place, variant_index } => format!("[\"sd\",{},{},{}]", self.place(place), variant_index.to_index(), line),
                    StatementKind::StorageDead(l) => format!("[\"dead\",{}]", l),
                    _ => continue,
                };
                if !first { s.push(','); }
                first = false;
                s.push_str(&txt);
            }
            s.push_str("],");
            let line = self.line(&b.terminator.source_info.span);
            let t = match &b.terminator.kind {
                TerminatorKind::Goto { target } => format!("[\"goto\",{}]", target),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let brs: Vec<String> = targets.branches().map(|(v, t)| format!("[\"{}\",{}]", v, t)).collect();
                    format!("[\"switch\",{},[{}],{},{}]", self.operand(discr), brs.join(","), targets.otherwise(), line)
                },
                TerminatorKind::Resume => "[\"resume\"]".into(),
                TerminatorKind::Abort => "[\"abort\"]".into(),
                TerminatorKind::Return => "[\"return\"]".into(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                TerminatorKind::Drop { place, target, .. } => {
                    let t = place.ty(body.locals()).map(|t| self.ty(t) as i64).unwrap_or(-1);
                    format!("[\"drop\",{},{},{},{}]", self.place(place), target, t, line)
                },
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = match func {
                        Operand::Constant(c) => match c.const_.ty().kind() {
                            TyKind::RigidTy(RigidTy::FnDef(def, ga)) => format!("[\"fn\",{}]", self.fnref(def, &ga)),
                            _ => format!("[\"op\",{}]", self.operand(func)),
                        },
                        _ => format!("[\"op\",{}]", self.operand(func)),
                    };
                    let asv: Vec<String> = args.iter().map(|a| self.operand(a)).collect();
                    let sp = &b.terminator.source_info.span;
                    let fl = sp.get_filename();
                    let lf = if fl == file { String::new() } else { format!(",{}", esc(&fl)) };
                    format!("[\"call\",{},[{}],{},{},{}{}]", f, asv.join(","), self.place(destination), target.map(|t| t as i64).unwrap_or(-1), line, lf)
                },
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = match msg {
                        AssertMessage::BoundsCheck { .. } => "bounds".to_string(),
                        AssertMessage::Overflow(op, a, _) => { let t = a.ty(body.locals()).map(|t| format!("{}", t)).unwrap_or_default(); format!("overflow {:?} {}", op, t) },
                        AssertMessage::OverflowNeg(_) => "overflow Neg".into(),
                        AssertMessage::DivisionByZero(_) => "divzero".into(),
                        AssertMessage::RemainderByZero(_) => "remzero".into(),
                        _ => "other".into(),
                    };
                    format!("[\"assert\",{},{},{},{},{}]", self.operand(cond), expected, esc(&m), target, line)
                },
                TerminatorKind::InlineAsm { .. } => "[\"asm\"]".into(),
            };
            s.push_str(&t);
            s.push(']');
        }
        s.push_str("]}");
        self.fns.push(s);
    }
}

fn field_off(f: &FieldsShape, i: usize) -> usize {
    match f {
        FieldsShape::Arbitrary { offsets, .. } => offsets.get(i).map(|o| o.bytes()).unwrap_or(0),
        FieldsShape::Array { stride, .. } => stride.bytes() * i,
        _ => 0,
    }
}

trait DefName { fn def_id_name(&self) -> (String, String); }
impl DefName for rustc_public::mir::mono::InstanceDef {
    fn def_id_name(&self) -> (String, String) {
        let d = rustc_public::CrateDef::def_id(self);
        (d.name().to_string(), rustc_public::CrateDef::krate(self).name.to_string())
    }
}

fn raw_instance<'tcx>(tcx: TyCtxt<'tcx>, def: DefId, args: &GenericArgs) -> Instance {
    let d = rustc_public::rustc_internal::internal(tcx, def);
    let a = rustc_public::rustc_internal::internal(tcx, args.clone());
    rustc_public::rustc_internal::stable(rustc_middle::ty::Instance::new_raw(d, a))
}

fn dump(tcx: TyCtxt<'_>) -> ControlFlow<()> {
    let out = std::env::var("MIRDUMP_OUT").unwrap();
    let krate = rustc_public::local_crate();
    let name = krate.name.to_string();
    let mut cx = Cx { tcx, types: vec![], tyix: HashMap::new(), adts: BTreeMap::new(), queue: VecDeque::new(), seen: HashSet::new(), fns: vec![], names: HashMap::new(), statics: BTreeMap::new() };
    let _ = &cx.names;
    let mut roots = vec![];
    let mut generic = vec![];
    let mut gdefs = vec![];
    for item in rustc_public::all_local_items() {
        if item.kind() != ItemKind::Fn { continue; }
        let n = item.name().to_string();
        match Instance::try_from(item) {
            Ok(i) => { roots.push((n, cx.enqueue(i))); },
            Err(_) => { gdefs.push((n.clone(), item.def_id())); generic.push(n) },
        }
    }
    while let Some(i) = cx.queue.pop_front() { cx.body(i); }
    // Generic functions: an instance with every type parameter `u128`, where the bounds admit it, or the error type of
    // deserializers.
    let error = tcx.crates(()).iter().find_map(|c| {
        if !tcx.crate_name(*c).as_str().starts_with("serde") { return None; }
        let mut d = c.as_def_id();
        for seg in ["de", "value", "Error"] {
            d = tcx.module_children(d).iter().find(|m| m.ident.name.as_str() == seg).and_then(|m| m.res.opt_def_id())?;
        }
        if tcx.generics_of(d).own_params.is_empty() && tcx.def_kind(d).is_fn_like() == false { Some(tcx.type_of(d).instantiate_identity().skip_normalization()) } else { None }
    });
    for (n, d) in gdefs {
        let def = rustc_public::rustc_internal::internal(tcx, d);
        for t in std::iter::once(tcx.types.u128).chain(error) {
            let mut bad = false;
            let args = rustc_middle::ty::GenericArgs::for_item(tcx, def, |p, _| match p.kind {
                rustc_middle::ty::GenericParamDefKind::Lifetime => tcx.lifetimes.re_erased.into(),
                rustc_middle::ty::GenericParamDefKind::Type { .. } => t.into(),
                rustc_middle::ty::GenericParamDefKind::Const { .. } => { bad = true; t.into() },
            });
            if bad || tcx.instantiate_and_check_impossible_clauses((def, args)) { continue; }
            let inst = rustc_public::rustc_internal::stable(rustc_middle::ty::Instance::new_raw(def, args));
            roots.push((n.clone(), cx.enqueue(inst)));
            break;
        }
    }
    while let Some(i) = cx.queue.pop_front() { cx.body(i); }
    let mut s = String::new();
    s.push_str("{\"crate\":");
    s.push_str(&esc(&name));
    s.push_str(",\"types\":[");
    let ts: Vec<String> = cx.types.iter().map(|t| t.clone().unwrap_or("{\"k\":\"other\",\"s\":\"?\"}".into())).collect();
    s.push_str(&ts.join(",\n"));
    s.push_str("],\n\"adts\":{");
    let ads: Vec<String> = cx.adts.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect();
    s.push_str(&ads.join(",\n"));
    s.push_str("},\n\"roots\":[");
    let rs: Vec<String> = roots.iter().map(|(n, k)| format!("[{},{}]", esc(n), esc(k))).collect();
    s.push_str(&rs.join(",\n"));
    s.push_str("],\n\"generic\":[");
    let gs: Vec<String> = generic.iter().map(|n| esc(n)).collect();
    s.push_str(&gs.join(",\n"));
    s.push_str("],\n\"fns\":{");
    s.push_str(&cx.fns.join(",\n"));
    s.push_str("}}\n");
    let kind = if std::env::args().any(|a| a == "bin") { "bin" } else { "lib" };
    std::fs::create_dir_all(&out).unwrap();
    std::fs::write(format!("{}/{}-{}.json", out, name, kind), s).unwrap();
    let _ = CrateItem::name;
    ControlFlow::Continue(())
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER passes the path of rustc as the first argument.
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) { args.remove(1); }
    let crate_name = args.iter().position(|a| a == "--crate-name").and_then(|i| args.get(i + 1)).cloned().unwrap_or_default();
    let is_build_script = crate_name.starts_with("build_script");
    if crate_name.is_empty() || is_build_script || !is_ws(&crate_name) {
        let rustc = std::env::var("MIRDUMP_RUSTC").unwrap_or_else(|_| "rustc".into());
        let st = std::process::Command::new(rustc).args(&args[1..]).status().unwrap();
        std::process::exit(st.code().unwrap_or(1));
    }
    args.extend(["-Zmir-opt-level=0", "-Zalways-encode-mir", "-Cdebug-assertions=on", "-Coverflow-checks=on", "--cap-lints=allow"].map(String::from));
    let r = rustc_public::run_with_tcx!(&args, dump);
    match r {
        Ok(_) => {},
        Err(e) => { eprintln!("mirdump: {:?}", e); std::process::exit(1); },
    }
}
