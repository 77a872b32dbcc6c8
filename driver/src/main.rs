//! mirdump: a rustc driver that dumps the monomorphised MIR of every function
//! reachable from the root functions of the probe crate, as JSON.
//! It never runs any of that code: it only prints the compiler's IR.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public;
extern crate rustc_public_bridge;

use rustc_public::abi::{FieldsShape, TagEncoding, VariantsShape};
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType};
use rustc_public_bridge::IndexedVal;
use std::collections::{HashMap, HashSet, VecDeque};
use std::fmt::Write as _;
use std::ops::ControlFlow;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

#[derive(Default)]
struct Cx {
    ty_ids: HashMap<Ty, usize>,
    ty_json: Vec<Option<String>>,
    ty_queue: VecDeque<Ty>,
    fn_keys: HashMap<String, String>, // mangled -> json
    queue: VecDeque<Instance>,
    seen: HashSet<String>,
    nobody: HashSet<String>,
    statics: HashMap<String, String>,
    iter_next: Option<FnDef>,
    iter_next_back: Option<FnDef>,
    iter_adts: HashSet<String>,
    iter_back_adts: HashSet<String>,
    drop_adts: HashSet<String>,
}

const EXCLUDE: &[&str] = &[
    "std::fmt", "core::fmt", "alloc::fmt", "std::io", "std::panicking", "core::panicking", "std::rt", "std::sys",
    "std::thread", "hashbrown", "std::alloc", "alloc::alloc", "alloc::raw_vec", "core::str", "std::str", "std::sync::Once",
    "std::sync::once", "std::sync::atomic", "core::sync", "std::backtrace", "std::env", "std::fs", "std::net", "std::process",
    "std::hash", "std::collections", "core::unicode", "core::num::flt2dec", "core::num::dec2flt", "core::slice::sort",
    "std::slice::sort", "std::ptr::drop_in_place", "core::ptr::drop_in_place",
];

fn excluded(name: &str) -> bool {
    let n = name.trim_start_matches('<');
    if n.starts_with("std::thread::LocalKey") || n.starts_with("std::thread::local") { return false; }
    // with MIRDUMP_FMT the formatting impls and the arguments they are passed in are dumped too (the machinery of
    // core::fmt itself stays modelled)
    if std::env::var_os("MIRDUMP_FMT").is_some() && (n.contains("fmt::rt::Argument") || n.contains(" as std::fmt::D") || n.contains("fmt::D") && n.contains("<impl")) {
        return false;
    }
    EXCLUDE.iter().any(|e| n.starts_with(e)) || n.contains(" as std::fmt::") || n.contains(" as core::fmt::") || n.contains(" as std::hash::")
}

impl Cx {
    fn ty(&mut self, t: Ty) -> usize {
        if let Some(i) = self.ty_ids.get(&t) {
            return *i;
        }
        let i = self.ty_json.len();
        self.ty_ids.insert(t, i);
        self.ty_json.push(None);
        self.ty_queue.push_back(t);
        i
    }
    fn args(&mut self, a: &GenericArgs) -> String {
        let mut v = vec![];
        for x in a.0.iter() {
            match x {
                GenericArgKind::Type(t) => v.push(self.ty(*t).to_string()),
                GenericArgKind::Const(c) => v.push(match c.eval_target_usize() {
                    Ok(n) => format!("{{\"c\":{}}}", n),
                    Err(_) => match c.kind() {
                        TyConstKind::Value(_, a) => {
                            let n = a.bytes.len();
                            match a.read_partial_uint(0..n) {
                                Ok(x) => { let sh = 128 - 8 * n as u32; format!("{{\"c\":{}}}", ((x as i128) << sh) >> sh) }
                                Err(_) => "{\"c\":null}".into(),
                            }
                        }
                        _ => "{\"c\":null}".into(),
                    },
                }),
                GenericArgKind::Lifetime(_) => {}
            }
        }
        format!("[{}]", v.join(","))
    }
    fn inst(&mut self, i: Instance) -> String {
        // returns the json description of an instance reference
        let key = i.mangled_name();
        let name = i.name();
        let kind = match i.kind {
            InstanceKind::Item => "item",
            InstanceKind::Intrinsic => "intrinsic",
            InstanceKind::LlvmIntrinsic => "llvm",
            InstanceKind::Virtual { .. } => "virtual",
            InstanceKind::Shim => "shim",
        };
        let mut extra = String::new();
        if let Some(n) = i.intrinsic_name() {
            let _ = write!(extra, ",\"intr\":{}", esc(&n));
        }
        if let InstanceKind::Virtual { idx } = i.kind {
            let _ = write!(extra, ",\"vidx\":{}", idx);
        }
        let dn = i.def.name();
        if matches!(i.kind, InstanceKind::Shim) {
            // the closure a ClosureOnce shim calls
            if let Some(GenericArgKind::Type(t)) = i.args().0.first() {
                if matches!(t.kind(), TyKind::RigidTy(RigidTy::Closure(..))) { let _ = write!(extra, ",\"st\":{}", self.ty(*t)); }
            }
        }
        if !matches!(i.kind, InstanceKind::Virtual { .. }) && (!excluded(&name) || dn.starts_with("std::iter::") || dn.starts_with("<I as std::iter::") || dn.starts_with("<T as std::convert::")) && !excluded(&dn) {
            self.enqueue(i, &key);
        }
        format!("{{\"key\":{},\"name\":{},\"def\":{},\"kind\":\"{}\"{}}}", esc(&key), esc(&name), esc(&dn), kind, extra)
    }
    fn enqueue(&mut self, i: Instance, key: &str) {
        if self.seen.insert(key.to_string()) {
            self.queue.push_back(i);
        }
    }
    fn fill_ty(&mut self, t: Ty) {
        let id = self.ty_ids[&t];
        let name = esc(&format!("{}", t));
        let size = t.layout().ok().map(|l| l.shape().size.bytes() as i64).unwrap_or(-1);
        let align = t.layout().ok().map(|l| l.shape().abi_align as i64).unwrap_or(1);
        let s = match t.kind() {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => "\"k\":\"bool\"".to_string(),
                RigidTy::Char => "\"k\":\"char\"".to_string(),
                RigidTy::Int(i) => format!("\"k\":\"int\",\"bits\":{}", i.num_bytes() * 8),
                RigidTy::Uint(i) => format!("\"k\":\"uint\",\"bits\":{}", i.num_bytes() * 8),
                RigidTy::Float(f) => format!("\"k\":\"float\",\"bits\":{}", match f { FloatTy::F16 => 16, FloatTy::F32 => 32, FloatTy::F64 => 64, FloatTy::F128 => 128 }),
                RigidTy::Adt(d, a) => {
                    let args = self.args(&a);
                    let kind = match d.kind() { AdtKind::Enum => "enum", AdtKind::Struct => "struct", AdtKind::Union => "union" };
                    let mut vs = vec![];
                    let dn = d.name();
                    for v in d.variants_iter() {
                        let mut fs = vec![];
                        let mut ns = vec![];
                        for f in v.fields() {
                            fs.push(self.ty(f.ty_with_args(&a)).to_string());
                            ns.push(esc(&f.name));
                        }
                        let dv = if d.kind() == AdtKind::Enum { d.discriminant_for_variant(v.idx()).val } else { 0 };
                        vs.push(format!("{{\"name\":{},\"discr\":{},\"f\":[{}],\"fn\":[{}]}}", esc(&v.name()), dv, fs.join(","), ns.join(",")));
                    }
                    let mut ex = String::new();
                    if self.iter_adts.contains(dn.as_str()) {
                        if let Some(fd) = self.iter_next {
                            if let Ok(i) = Instance::resolve(fd, &GenericArgs(vec![GenericArgKind::Type(t)])) {
                                let j = self.inst(i);
                                let _ = write!(ex, ",\"next\":{}", j);
                            }
                        }
                    }
                    if self.iter_back_adts.contains(dn.as_str()) {
                        if let Some(fd) = self.iter_next_back {
                            if let Ok(i) = Instance::resolve(fd, &GenericArgs(vec![GenericArgKind::Type(t)])) {
                                let j = self.inst(i);
                                let _ = write!(ex, ",\"next_back\":{}", j);
                            }
                        }
                    }
                    if self.drop_adts.contains(dn.as_str()) { ex.push_str(",\"drop\":true"); }
                    let rp = d.repr();
                    let mut rs = vec![];
                    if rp.flags.is_simd { rs.push("simd"); }
                    if rp.flags.is_c { rs.push("C"); }
                    if rp.flags.is_transparent { rs.push("transparent"); }
                    if rp.int.is_some() { rs.push("int"); }
                    if rp.pack.is_some() { rs.push("packed"); }
                    let mut offs = vec![];
                    if d.kind() == AdtKind::Struct {
                        if let Ok(l) = t.layout() {
                            if let FieldsShape::Arbitrary { offsets } = &l.shape().fields { offs = offsets.iter().map(|o| o.bytes().to_string()).collect(); }
                        }
                    }
                    format!("\"k\":\"{}\",\"def\":{},\"args\":{},\"simd\":{},\"repr\":{},\"off\":[{}],\"v\":[{}]{}", kind, esc(&dn), args, d.is_simd(), esc(&rs.join(",")), offs.join(","), vs.join(","), ex)
                }
                RigidTy::Str => "\"k\":\"str\"".into(),
                RigidTy::Array(e, n) => format!("\"k\":\"array\",\"e\":{},\"n\":{}", self.ty(e), n.eval_target_usize().map(|x| x as i64).unwrap_or(-1)),
                RigidTy::Slice(e) => format!("\"k\":\"slice\",\"e\":{}", self.ty(e)),
                RigidTy::RawPtr(e, m) => format!("\"k\":\"ptr\",\"e\":{},\"mut\":{}", self.ty(e), m == Mutability::Mut),
                RigidTy::Ref(_, e, m) => format!("\"k\":\"ref\",\"e\":{},\"mut\":{}", self.ty(e), m == Mutability::Mut),
                RigidTy::FnDef(d, a) => {
                    let args = self.args(&a);
                    let dn = d.name();
                    if dn.ends_with("Iterator::next") && self.iter_next.is_none() && dn.contains("iter::") { self.iter_next = Some(d); }
                    let inst = match Instance::resolve(d, &a) {
                        Ok(i) => self.inst(i),
                        Err(_) => "null".into(),
                    };
                    format!("\"k\":\"fndef\",\"def\":{},\"args\":{},\"inst\":{}", esc(&dn), args, inst)
                }
                RigidTy::FnPtr(_) => "\"k\":\"fnptr\"".into(),
                RigidTy::Closure(d, a) => {
                    let args = self.args(&a);
                    let mut ks = vec![];
                    for (n, k) in [("fn", ClosureKind::Fn), ("fnmut", ClosureKind::FnMut), ("fnonce", ClosureKind::FnOnce)] {
                        if let Ok(i) = Instance::resolve_closure(d, &a, k) {
                            if matches!(i.kind, InstanceKind::Item) {
                                let j = self.inst(i);
                                ks.push(format!("\"{}\":{}", n, j));
                            }
                        }
                    }
                    format!("\"k\":\"closure\",\"def\":{},\"args\":{},{}", esc(&d.name()), args, ks.join(",")).trim_end_matches(',').to_string()
                }
                RigidTy::Dynamic(..) => "\"k\":\"dyn\"".into(),
                RigidTy::Never => "\"k\":\"never\"".into(),
                RigidTy::Tuple(v) => format!("\"k\":\"tuple\",\"e\":[{}]", v.iter().map(|x| self.ty(*x).to_string()).collect::<Vec<_>>().join(",")),
                RigidTy::Pat(e, _) => format!("\"k\":\"pat\",\"e\":{}", self.ty(e)),
                _ => "\"k\":\"other\"".into(),
            },
            _ => "\"k\":\"other\"".into(),
        };
        self.ty_json[id] = Some(format!("{{\"id\":{},\"s\":{},\"size\":{},\"al\":{},{}}}", id, name, size, align, s));
    }

    fn place(&mut self, p: &Place) -> String {
        let mut o = format!("[{}", p.local);
        for e in p.projection.iter() {
            match e {
                ProjectionElem::Deref => o.push_str(",\"*\""),
                ProjectionElem::Field(i, t) => { let _ = write!(o, ",[\"f\",{},{}]", i, self.ty(*t)); }
                ProjectionElem::Index(l) => { let _ = write!(o, ",[\"i\",{}]", l); }
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => { let _ = write!(o, ",[\"ci\",{},{},{}]", offset, min_length, from_end); }
                ProjectionElem::Subslice { from, to, from_end } => { let _ = write!(o, ",[\"ss\",{},{},{}]", from, to, from_end); }
                ProjectionElem::Downcast(v) => { let _ = write!(o, ",[\"d\",{}]", v.to_index()); }
                ProjectionElem::OpaqueCast(_) => {}
            }
        }
        o.push(']');
        o
    }
    fn opnd(&mut self, o: &Operand) -> String {
        match o {
            Operand::Copy(p) => format!("{{\"c\":{}}}", self.place(p)),
            Operand::Move(p) => format!("{{\"m\":{}}}", self.place(p)),
            Operand::Constant(c) => self.konst(&c.const_),
            Operand::RuntimeChecks(_) => "{\"k\":false}".into(),
        }
    }
    fn konst(&mut self, c: &MirConst) -> String {
        let t = c.ty();
        let ti = self.ty(t);
        let v = match c.kind() {
            ConstantKind::Allocated(a) => self.decode(t, a, 0, 0),
            ConstantKind::ZeroSized => "{\"zst\":1}".into(),
            ConstantKind::Ty(tc) => match tc.kind() {
                TyConstKind::Value(vt, a) => self.decode(*vt, a, 0, 0),
                TyConstKind::ZSTValue(_) => "{\"zst\":1}".into(),
                _ => "{\"op\":\"tyconst\"}".into(),
            },
            _ => "{\"op\":\"unevaluated\"}".into(),
        };
        format!("{{\"k\":{},\"t\":{}}}", v, ti)
    }
    fn stat(&mut self, s: rustc_public::mir::mono::StaticDef) -> String {
        let n = s.name().to_string();
        let ti = self.ty(s.ty());
        if !self.statics.contains_key(&n) {
            self.statics.insert(n.clone(), "null".into());
            let v = match s.eval_initializer() { Ok(al) => self.decode(s.ty(), &al, 0, 0), Err(_) => "{\"op\":\"static\"}".into() };
            self.statics.insert(n.clone(), format!("{{\"t\":{},\"v\":{}}}", ti, v));
        }
        n
    }
    /// the function pointer inside a union or wrapper at this offset, if it is one
    fn fn_at(&mut self, a: &Allocation, off: usize) -> Option<String> {
        let (_, prov) = a.provenance.ptrs.iter().find(|(o, _)| *o == off)?;
        match GlobalAlloc::from(prov.0) {
            GlobalAlloc::Function(i) => Some(format!("{{\"fn\":{}}}", self.inst(i))),
            _ => None,
        }
    }
    fn decode(&mut self, t: Ty, a: &Allocation, off: usize, depth: usize) -> String {
        let op = |s: &str| format!("{{\"op\":{}}}", esc(s));
        if depth > 12 { return op("depth"); }
        let shape = match t.layout() { Ok(l) => l.shape(), Err(_) => return op("layout") };
        let size = shape.size.bytes();
        let rd = |o: usize, n: usize| a.read_partial_uint(o..o + n).ok();
        let TyKind::RigidTy(r) = t.kind() else { return op("nonrigid") };
        match r {
            RigidTy::Bool => match rd(off, 1) { Some(x) => (if x != 0 { "true" } else { "false" }).into(), None => op("uninit") },
            RigidTy::Char | RigidTy::Uint(_) => match rd(off, size) { Some(x) => x.to_string(), None => op("uninit") },
            RigidTy::Int(_) => match rd(off, size) {
                Some(x) => { let sh = 128 - size * 8; (((x as i128) << sh) >> sh).to_string() }
                None => op("uninit"),
            },
            RigidTy::Float(FloatTy::F32) => match rd(off, 4) { Some(x) => format!("{{\"f\":\"{:?}\"}}", f32::from_bits(x as u32)), None => op("uninit") },
            RigidTy::Float(FloatTy::F64) => match rd(off, 8) { Some(x) => format!("{{\"f\":\"{:?}\"}}", f64::from_bits(x as u64)), None => op("uninit") },
            RigidTy::Pat(e, _) => self.decode(e, a, off, depth + 1),
            RigidTy::Tuple(ts) => {
                let FieldsShape::Arbitrary { offsets } = &shape.fields else {
                    if ts.is_empty() { return "{\"a\":[]}".into(); }
                    return op("tuple");
                };
                let v: Vec<String> = ts.iter().zip(offsets).map(|(t, o)| self.decode(*t, a, off + o.bytes(), depth + 1)).collect();
                format!("{{\"a\":[{}]}}", v.join(","))
            }
            RigidTy::Array(e, n) => {
                let n = n.eval_target_usize().unwrap_or(0) as usize;
                let es = e.layout().map(|l| l.shape().size.bytes()).unwrap_or(0);
                let v: Vec<String> = (0..n).map(|i| self.decode(e, a, off + i * es, depth + 1)).collect();
                format!("{{\"a\":[{}]}}", v.join(","))
            }
            RigidTy::Adt(d, ga) => {
                let (vi, offs): (usize, Vec<usize>) = match &shape.variants {
                    VariantsShape::Empty => return op("empty"),
                    VariantsShape::Single { index } => {
                        let o = match &shape.fields {
                            FieldsShape::Arbitrary { offsets } => offsets.iter().map(|x| x.bytes()).collect(),
                            FieldsShape::Primitive => vec![],
                            FieldsShape::Union(_) => vec![0],
                            FieldsShape::Array { .. } => vec![0],
                        };
                        (index.to_index(), o)
                    }
                    VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                        let FieldsShape::Arbitrary { offsets } = &shape.fields else { return op("enumfields") };
                        let toff = off + offsets[*tag_field].bytes();
                        let tsz = match tag {
                            rustc_public::abi::Scalar::Initialized { value, .. } | rustc_public::abi::Scalar::Union { value } => {
                                value.size(&rustc_public::target::MachineInfo::target()).bytes()
                            }
                        };
                        let has_prov = a.provenance.ptrs.iter().any(|(o, _)| *o == toff);
                        let raw = rd(toff, tsz);
                        let vi = match tag_encoding {
                            TagEncoding::Direct => {
                                let Some(x) = raw else { return op("tag") };
                                let mask = if tsz == 16 { u128::MAX } else { (1u128 << (tsz * 8)) - 1 };
                                match d.variants_iter().find(|v| d.discriminant_for_variant(v.idx()).val & mask == x) {
                                    Some(v) => v.idx().to_index(),
                                    None => return op("tagval"),
                                }
                            }
                            TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                if has_prov { untagged_variant.to_index() } else {
                                    let Some(x) = raw else { return op("tag") };
                                    let mask = if tsz == 16 { u128::MAX } else { (1u128 << (tsz * 8)) - 1 };
                                    let rel = x.wrapping_sub(*niche_start) & mask;
                                    let lo = niche_variants.start().to_index();
                                    let hi = niche_variants.end().to_index();
                                    if rel <= (hi - lo) as u128 { lo + rel as usize } else { untagged_variant.to_index() }
                                }
                            }
                        };
                        (vi, variants[vi].offsets.iter().map(|x| x.bytes()).collect())
                    }
                };
                let vd = match d.variants().into_iter().find(|v| v.idx().to_index() == vi) { Some(v) => v, None => return op("variant") };
                let fs = vd.fields();
                if fs.len() != offs.len() && !(fs.is_empty()) {
                    if offs.len() == 1 && matches!(d.kind(), AdtKind::Union) {
                        return self.fn_at(a, off).unwrap_or_else(|| op("union"));
                    }
                    return op("fieldcount");
                }
                if matches!(d.kind(), AdtKind::Union) { return self.fn_at(a, off).unwrap_or_else(|| op("union")); }
                let v: Vec<String> = fs.iter().zip(offs).map(|(f, o)| self.decode(f.ty_with_args(&ga), a, off + o, depth + 1)).collect();
                if matches!(d.kind(), AdtKind::Enum) {
                    format!("{{\"e\":{},\"a\":[{}]}}", vi, v.join(","))
                } else {
                    format!("{{\"a\":[{}]}}", v.join(","))
                }
            }
            RigidTy::Ref(_, e, _) | RigidTy::RawPtr(e, _) => {
                let Some((_, prov)) = a.provenance.ptrs.iter().find(|(o, _)| *o == off) else {
                    return match rd(off, 8) { Some(x) => format!("{{\"addr\":{}}}", x), None => op("uninitptr") };
                };
                let inner_off = rd(off, 8).unwrap_or(0) as usize;
                let ga: GlobalAlloc = GlobalAlloc::from(prov.0);
                match ga {
                    GlobalAlloc::Memory(m) => match e.kind() {
                        TyKind::RigidTy(RigidTy::Str) => {
                            let n = rd(off + 8, 8).unwrap_or(0) as usize;
                            let b: Vec<u8> = m.bytes[inner_off..inner_off + n].iter().map(|x| x.unwrap_or(0)).collect();
                            format!("{{\"str\":{}}}", esc(&String::from_utf8_lossy(&b)))
                        }
                        TyKind::RigidTy(RigidTy::Slice(el)) => {
                            let n = rd(off + 8, 8).unwrap_or(0) as usize;
                            let es = el.layout().map(|l| l.shape().size.bytes()).unwrap_or(0);
                            let v: Vec<String> = (0..n).map(|i| self.decode(el, &m, inner_off + i * es, depth + 1)).collect();
                            format!("{{\"slice\":[{}]}}", v.join(","))
                        }
                        TyKind::RigidTy(RigidTy::Dynamic(..)) => op("dynref"),
                        _ => format!("{{\"ref\":{}}}", self.decode(e, &m, inner_off, depth + 1)),
                    },
                    GlobalAlloc::Static(s) => {
                        let n = self.stat(s);
                        format!("{{\"static\":{}}}", esc(&n))
                    }
                    GlobalAlloc::Function(i) => format!("{{\"fn\":{}}}", self.inst(i)),
                    _ => op("globalalloc"),
                }
            }
            RigidTy::FnPtr(_) => {
                let Some((_, prov)) = a.provenance.ptrs.iter().find(|(o, _)| *o == off) else { return op("fnptr") };
                match GlobalAlloc::from(prov.0) {
                    GlobalAlloc::Function(i) => format!("{{\"fn\":{}}}", self.inst(i)),
                    _ => op("fnptr"),
                }
            }
            RigidTy::FnDef(..) | RigidTy::Closure(..) => "{\"zst\":1}".into(),
            _ => op("kind"),
        }
    }
    fn rv(&mut self, r: &Rvalue) -> String {
        match r {
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.opnd(o)),
            Rvalue::Reborrow(_, _, p) => format!("[\"use\",{{\"c\":{}}}]", self.place(p)),
            Rvalue::CopyForDeref(p) => format!("[\"use\",{{\"c\":{}}}]", self.place(p)),
            Rvalue::Ref(_, _, p) => format!("[\"ref\",{}]", self.place(p)),
            Rvalue::AddressOf(_, p) => format!("[\"ref\",{}]", self.place(p)),
            Rvalue::BinaryOp(b, x, y) => format!("[\"bin\",\"{:?}\",{},{}]", b, self.opnd(x), self.opnd(y)),
            Rvalue::CheckedBinaryOp(b, x, y) => format!("[\"cbin\",\"{:?}\",{},{}]", b, self.opnd(x), self.opnd(y)),
            Rvalue::UnaryOp(u, x) => format!("[\"un\",\"{:?}\",{}]", u, self.opnd(x)),
            Rvalue::Cast(k, o, t) => format!("[\"cast\",{},{},{}]", esc(&format!("{:?}", k)), self.opnd(o), self.ty(*t)),
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(p)),
            Rvalue::Len(p) => format!("[\"len\",{}]", self.place(p)),
            Rvalue::Repeat(o, n) => format!("[\"rep\",{},{}]", self.opnd(o), n.eval_target_usize().map(|x| x as i64).unwrap_or(-1)),
            Rvalue::ThreadLocalRef(i) => match rustc_public::mir::mono::StaticDef::try_from(*i) {
                Ok(d) => { let n = self.stat(d); format!("[\"tls\",{}]", esc(&n)) }
                Err(_) => "[\"tls\"]".into(),
            },
            Rvalue::Aggregate(k, ops) => {
                let ops = ops.iter().map(|o| self.opnd(o)).collect::<Vec<_>>().join(",");
                let kk = match k {
                    AggregateKind::Array(_) => "\"array\"".to_string(),
                    AggregateKind::Tuple => "\"tuple\"".to_string(),
                    AggregateKind::Adt(d, v, a, _, f) => {
                        let t = d.ty_with_args(a);
                        format!("[\"adt\",{},{},{}]", self.ty(t), v.to_index(), f.map(|x| x as i64).unwrap_or(-1))
                    }
                    AggregateKind::Closure(d, a) => {
                        let t = Ty::new_closure(*d, a.clone());
                        format!("[\"closure\",{}]", self.ty(t))
                    }
                    AggregateKind::RawPtr(t, _) => format!("[\"rawptr\",{}]", self.ty(*t)),
                    _ => "\"other\"".to_string(),
                };
                format!("[\"agg\",{},[{}]]", kk, ops)
            }
        }
    }
    fn span(&self, s: &Span) -> String {
        let l = s.get_lines();
        format!("{}:{}", s.get_filename(), l.start_line)
    }
    fn body(&mut self, i: Instance) {
        let key = i.mangled_name();
        if !i.has_body() { self.nobody.insert(key); return; }
        let Some(b) = i.body() else { self.nobody.insert(key); return; };
        let locals: Vec<String> = b.locals().iter().map(|l| self.ty(l.ty).to_string()).collect();
        let mut bl = vec![];
        for blk in b.blocks.iter() {
            let mut st = vec![];
            for s in blk.statements.iter() {
                match &s.kind {
                    StatementKind::Assign(p, r) => {
                        let l = s.source_info.span.get_lines().start_line;
                        st.push(format!("[\"=\",{},{},{}]", self.place(p), self.rv(r), l))
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => st.push(format!("[\"sd\",{},{}]", self.place(place), variant_index.to_index())),
                    StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(c)) => st.push(format!("[\"cno\",{},{},{}]", self.opnd(&c.src), self.opnd(&c.dst), self.opnd(&c.count))),
                    _ => {}
                }
            }
            let line = blk.terminator.source_info.span.get_lines().start_line;
            let t = match &blk.terminator.kind {
                TerminatorKind::Goto { target } => format!("[\"goto\",{}]", target),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let br: Vec<String> = targets.branches().map(|(v, t)| format!("[{},{}]", v, t)).collect();
                    format!("[\"switch\",{},[{}],{}]", self.opnd(discr), br.join(","), targets.otherwise())
                }
                TerminatorKind::Resume | TerminatorKind::Abort => "[\"resume\"]".into(),
                TerminatorKind::Return => "[\"ret\"]".into(),
                TerminatorKind::Unreachable => "[\"unreach\"]".into(),
                TerminatorKind::Drop { target, place, .. } => format!("[\"drop\",{},{}]", target, self.place(place)),
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.opnd(func);
                    let a = args.iter().map(|o| self.opnd(o)).collect::<Vec<_>>().join(",");
                    let us = func.ty(b.locals()).ok().and_then(|t| t.kind().fn_sig()).map(|s| s.value.safety == Safety::Unsafe).unwrap_or(false);
                    format!("[\"call\",{},[{}],{},{},{},{}]", f, a, self.place(destination), target.map(|x| x as i64).unwrap_or(-1), line, us as u8)
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let d = match msg {
                        AssertMessage::BoundsCheck { .. } => "bounds".to_string(),
                        m => m.description().map(|s| s.to_string()).unwrap_or("assert".into()),
                    };
                    format!("[\"assert\",{},{},{},{},{}]", self.opnd(cond), expected, target, esc(&d), line)
                }
                TerminatorKind::InlineAsm { .. } => "[\"asm\"]".into(),
            };
            bl.push(format!("{{\"s\":[{}],\"t\":{}}}", st.join(","), t));
        }
        let sp = self.span(&b.span);
        let spread = b.spread_arg().map(|x| x as i64).unwrap_or(-1);
        let name = i.name();
        let dn = i.def.name();
        let fd = i.def.krate().name;
        let j = format!(
            "{{\"key\":{},\"name\":{},\"def\":{},\"crate\":{},\"span\":{},\"nargs\":{},\"spread\":{},\"locals\":[{}],\"blocks\":[{}]}}",
            esc(&key), esc(&name), esc(&dn), esc(&fd), esc(&sp), b.arg_locals().len(), spread, locals.join(","), bl.join(",\n ")
        );
        self.fn_keys.insert(key, j);
    }
    fn run(&mut self) {
        loop {
            if let Some(t) = self.ty_queue.pop_front() {
                self.fill_ty(t);
                continue;
            }
            if let Some(i) = self.queue.pop_front() {
                self.body(i);
                continue;
            }
            break;
        }
    }
}

fn dump() -> ControlFlow<()> {
    let mut cx = Cx::default();
    let mut traits: HashMap<String, TraitDef> = HashMap::new();
    for t in rustc_public::all_trait_decls() { traits.insert(t.name().to_string(), t); }
    // iterator impls in non-std crates
    let mut crates = rustc_public::external_crates();
    crates.push(rustc_public::local_crate());
    for k in crates {
        
        for im in k.trait_impls() {
            let n = im.name().to_string();
            let tr = im.trait_impl();
            let tn = tr.value.def_id.name().to_string();
            let back = tn.ends_with("iter::DoubleEndedIterator");
            if tn.ends_with("iter::Iterator") || back {
                if let Some(GenericArgKind::Type(t)) = tr.value.args().0.first() {
                    if let TyKind::RigidTy(RigidTy::Adt(d, _)) = t.kind() {
                        if back { cx.iter_back_adts.insert(d.name().to_string()); } else { cx.iter_adts.insert(d.name().to_string()); }
                    }
                }
            }
            if tn.ends_with("ops::Drop") && (k.is_local || k.name == "colorspace") {
                if let Some(GenericArgKind::Type(t)) = tr.value.args().0.first() {
                    if let TyKind::RigidTy(RigidTy::Adt(d, _)) = t.kind() { cx.drop_adts.insert(d.name().to_string()); }
                }
            }
            let _ = n;
        }
    }
    let mut roots = vec![];
    let mut all_fns = vec![];
    for it in rustc_public::all_local_items() {
        if !matches!(it.kind(), rustc_public::ItemKind::Fn) { continue; }
        if it.requires_monomorphization() { continue; }
        let Ok(i) = Instance::try_from(it) else { continue };
        all_fns.push(i);
    }
    // roots that mention the Iterator methods first
    all_fns.sort_by_key(|i| !i.name().contains("zz_iter"));
    for i in all_fns.iter() {
        let n = i.name();
        if n.contains("zz_iter") {
            if let Some(b) = i.body() {
                for blk in b.blocks.iter() {
                    if let TerminatorKind::Call { func: Operand::Constant(c), .. } = &blk.terminator.kind {
                        if let TyKind::RigidTy(RigidTy::FnDef(d, _)) = c.const_.ty().kind() {
                            if d.name().ends_with("Iterator::next") { cx.iter_next = Some(d); }
                            if d.name().ends_with("DoubleEndedIterator::next_back") { cx.iter_next_back = Some(d); }
                        }
                    }
                }
            }
            continue;
        }
        let k = i.mangled_name();
        roots.push(format!("{}:{}", esc(&n), esc(&k)));
        cx.enqueue(*i, &k);
    }
    cx.run();
    let mut out = String::new();
    out.push_str("{\"roots\":{");
    out.push_str(&roots.join(","));
    out.push_str("},\n\"statics\":{");
    let mut st: Vec<_> = cx.statics.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect();
    st.sort();
    out.push_str(&st.join(",\n"));
    out.push_str("},\n\"types\":[");
    out.push_str(&cx.ty_json.iter().map(|x| x.clone().unwrap()).collect::<Vec<_>>().join(",\n"));
    out.push_str("],\n\"fns\":{");
    let mut fk: Vec<_> = cx.fn_keys.iter().collect();
    fk.sort();
    out.push_str(&fk.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect::<Vec<_>>().join(",\n"));
    out.push_str("}}\n");
    let path = std::env::var("MIRDUMP_OUT").expect("MIRDUMP_OUT");
    std::fs::write(path, out).unwrap();
    ControlFlow::Continue(())
}

fn main() {
    // used as RUSTC_WORKSPACE_WRAPPER / RUSTC_WRAPPER: argv = mirdump rustc args...
    let mut args: Vec<String> = std::env::args().collect();
    args.remove(0);
    let target = args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == "probe");
    let probe_lib = target && args.iter().any(|a| a.starts_with("--emit"));
    if !probe_lib {
        let st = std::process::Command::new(&args[0]).args(&args[1..]).status().unwrap();
        std::process::exit(st.code().unwrap_or(1));
    }
    let r = rustc_public::run!(&args, dump);
    match r {
        Ok(_) => {}
        Err(e) => {
            eprintln!("mirdump: {:?}", e);
            std::process::exit(1);
        }
    }
}
