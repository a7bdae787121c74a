//! MIR dumper: a `RUSTC_WORKSPACE_WRAPPER` that compiles the crate as rustc would and, on the way,
//! writes the monomorphic MIR of every function of the crate (with resolved callees), its ADTs and the
//! evaluated initialisers of its statics as JSON to $VP_DUMP_DIR/<crate>-<kind>.json.
//! Nothing of the analysed crate is executed (constants are evaluated by the compiler itself).
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_infer;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;
extern crate rustc_trait_selection;
#[macro_use]
extern crate rustc_public;

use rustc_public::abi::{FieldsShape, TagEncoding, VariantsShape};
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType, ItemKind};
use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};
use std::fmt::Write as _;
use std::ops::ControlFlow;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn vidx(v: &VariantIdx) -> usize {
    let d = format!("{:?}", v);
    let digits: String = d.chars().filter(|c| c.is_ascii_digit()).collect();
    digits.parse().unwrap_or_else(|_| panic!("variant index {}", d))
}

struct Cx {
    local_crate: String,
    queue: VecDeque<Instance>,
    seen: HashSet<String>,
    adts: BTreeMap<String, String>,
}

fn list<T>(it: impl IntoIterator<Item = T>, mut f: impl FnMut(T) -> String) -> String {
    let v: Vec<String> = it.into_iter().map(|x| f(x)).collect();
    format!("[{}]", v.join(","))
}

impl Cx {
    fn ty(&mut self, t: Ty) -> String {
        // note ADTs on the way
        self.note_ty(t, 0);
        self.tystr(t)
    }

    fn note_ty(&mut self, t: Ty, depth: usize) {
        if depth > 6 {
            return;
        }
        if let TyKind::RigidTy(r) = t.kind() {
            match r {
                RigidTy::Adt(def, args) => {
                    let name = def.name().to_string();
                    if !self.adts.contains_key(&name) {
                        self.adts.insert(name.clone(), String::new());
                        let mut o = String::new();
                        let kind = match def.kind() {
                            AdtKind::Enum => "enum",
                            AdtKind::Struct => "struct",
                            AdtKind::Union => "union",
                        };
                        let _ = write!(o, "{{\"kind\":\"{}\",\"variants\":[", kind);
                        for (i, v) in def.variants().into_iter().enumerate() {
                            if i > 0 {
                                o.push(',');
                            }
                            let discr = if kind == "enum" {
                                def.discriminant_for_variant(v.idx()).val.to_string()
                            } else {
                                "0".to_string()
                            };
                            let fields = v.fields();
                            let fs = list(fields.iter(), |f| esc(&f.name.to_string()));
                            let ftys = list(fields.iter(), |f| {
                                let t = f.ty_with_args(&args);
                                self.note_ty(t, depth + 1);
                                esc(&self.tystr(t))
                            });
                            let _ = write!(
                                o,
                                "{{\"name\":{},\"discr\":{},\"fields\":{},\"ftys\":{}}}",
                                esc(&v.name().to_string()),
                                discr,
                                fs,
                                ftys
                            );
                        }
                        o.push_str("]}");
                        self.adts.insert(name, o);
                    }
                    for a in args.0.iter() {
                        if let Some(t) = a.ty() {
                            self.note_ty(*t, depth + 1);
                        }
                    }
                }
                RigidTy::Ref(_, t, _) | RigidTy::RawPtr(t, _) | RigidTy::Slice(t) | RigidTy::Array(t, _) => {
                    self.note_ty(t, depth + 1)
                }
                RigidTy::Tuple(ts) => ts.iter().for_each(|t| self.note_ty(*t, depth + 1)),
                _ => {}
            }
        }
    }

    fn tystr(&mut self, t: Ty) -> String {
        match t.kind() {
            TyKind::RigidTy(r) => match r {
                RigidTy::Ref(_, t, m) => {
                    format!("&{}{}", if m == Mutability::Mut { "mut " } else { "" }, self.tystr(t))
                }
                RigidTy::RawPtr(t, m) => {
                    format!("*{}{}", if m == Mutability::Mut { "mut " } else { "const " }, self.tystr(t))
                }
                RigidTy::Slice(t) => format!("[{}]", self.tystr(t)),
                RigidTy::Array(t, n) => {
                    format!("[{};{}]", self.tystr(t), n.eval_target_usize().map(|v| v.to_string()).unwrap_or("?".into()))
                }
                RigidTy::Tuple(ts) => {
                    let v: Vec<String> = ts.iter().map(|t| self.tystr(*t)).collect();
                    format!("({})", v.join(","))
                }
                RigidTy::Adt(d, args) => {
                    let v: Vec<String> = args
                        .0
                        .iter()
                        .filter_map(|a| match a {
                            GenericArgKind::Type(t) => Some(self.tystr(*t)),
                            GenericArgKind::Const(c) => {
                                Some(c.eval_target_usize().map(|v| v.to_string()).unwrap_or("?".into()))
                            }
                            _ => None,
                        })
                        .collect();
                    if v.is_empty() {
                        d.name().to_string()
                    } else {
                        format!("{}<{}>", d.name(), v.join(","))
                    }
                }
                RigidTy::Closure(d, _) => format!("closure:{}", d.name()),
                RigidTy::FnDef(d, _) => format!("fn:{}", d.name()),
                RigidTy::Str => "str".into(),
                RigidTy::Bool => "bool".into(),
                RigidTy::Char => "char".into(),
                RigidTy::Never => "!".into(),
                _ => format!("{}", t),
            },
            _ => format!("{}", t),
        }
    }

    fn enqueue(&mut self, i: Instance) -> String {
        let id = i.mangled_name().to_string();
        let krate = i.def.krate().name.to_string();
        let want = krate == self.local_crate
            || (matches!(i.kind, InstanceKind::Shim) && i.name().to_string().contains("closure"));
        if want && i.has_body() && self.seen.insert(id.clone()) {
            self.queue.push_back(i);
        }
        id
    }

    fn callee(&mut self, def: FnDef, args: &GenericArgs) -> String {
        let orig = def.name().to_string();
        match Instance::resolve(def, args) {
            Ok(i) => {
                let id = self.enqueue(i);
                let kind = match i.kind {
                    InstanceKind::Item => "item",
                    InstanceKind::Intrinsic => "intrinsic",
                    InstanceKind::LlvmIntrinsic => "llvm",
                    InstanceKind::Virtual { .. } => "virtual",
                    InstanceKind::Shim => "shim",
                };
                let tys = list(args.0.iter().filter_map(|a| a.ty().copied()).collect::<Vec<_>>(), |t| {
                    esc(&self.ty(t))
                });
                format!(
                    "{{\"id\":{},\"def\":{},\"res\":{},\"inst\":{},\"kind\":\"{}\",\"targs\":{},\"krate\":{}}}",
                    esc(&id),
                    esc(&orig),
                    esc(&i.def.name().to_string()),
                    esc(&i.name().to_string()),
                    kind,
                    tys,
                    esc(&i.def.krate().name.to_string())
                )
            }
            Err(_) => format!("{{\"id\":null,\"def\":{},\"res\":null,\"kind\":\"unresolved\"}}", esc(&orig)),
        }
    }

    fn int_at(bytes: &[Option<u8>], off: usize, n: usize) -> Option<u128> {
        let mut v = 0u128;
        for k in (0..n).rev() {
            v = (v << 8) | (*bytes.get(off + k)?)? as u128;
        }
        Some(v)
    }

    fn value(&mut self, a: &Allocation, off: usize, t: Ty, depth: usize) -> String {
        if depth > 12 {
            return "{\"opaque\":\"depth\"}".into();
        }
        let kind = t.kind();
        let r = match kind.rigid() {
            Some(r) => r.clone(),
            None => return "{\"opaque\":\"ty\"}".into(),
        };
        match r {
            RigidTy::Bool => match Self::int_at(&a.bytes, off, 1) {
                Some(v) => format!("{{\"bool\":{}}}", v != 0),
                None => "{\"opaque\":\"uninit\"}".into(),
            },
            RigidTy::Char => match Self::int_at(&a.bytes, off, 4) {
                Some(v) => format!("{{\"char\":{}}}", v),
                None => "{\"opaque\":\"uninit\"}".into(),
            },
            RigidTy::Uint(u) => match Self::int_at(&a.bytes, off, u.num_bytes()) {
                Some(v) => format!("{{\"int\":{}}}", v),
                None => "{\"opaque\":\"uninit\"}".into(),
            },
            RigidTy::Int(u) => match Self::int_at(&a.bytes, off, u.num_bytes()) {
                Some(v) => {
                    let bits = 8 * u.num_bytes() as u32;
                    let s = if bits < 128 && (v >> (bits - 1)) & 1 == 1 { (v as i128) - (1i128 << bits) } else { v as i128 };
                    format!("{{\"int\":{}}}", s)
                }
                None => "{\"opaque\":\"uninit\"}".into(),
            },
            RigidTy::Array(et, n) => {
                let n = n.eval_target_usize().unwrap_or(0) as usize;
                let sz = match et.layout() {
                    Ok(l) => l.shape().size.bytes(),
                    Err(_) => return "{\"opaque\":\"layout\"}".into(),
                };
                if let TyKind::RigidTy(RigidTy::Int(_) | RigidTy::Uint(_)) = et.kind() {
                    // compact
                    let mut o = String::from("{\"ints\":[");
                    let signed = matches!(et.kind(), TyKind::RigidTy(RigidTy::Int(_)));
                    for k in 0..n {
                        if k > 0 {
                            o.push(',');
                        }
                        match Self::int_at(&a.bytes, off + k * sz, sz) {
                            Some(v) => {
                                let bits = 8 * sz as u32;
                                if signed && (v >> (bits - 1)) & 1 == 1 {
                                    let _ = write!(o, "{}", (v as i128) - (1i128 << bits));
                                } else {
                                    let _ = write!(o, "{}", v);
                                }
                            }
                            None => o.push_str("null"),
                        }
                    }
                    o.push_str("]}");
                    return o;
                }
                let mut o = String::from("{\"arr\":[");
                for k in 0..n {
                    if k > 0 {
                        o.push(',');
                    }
                    let v = self.value(a, off + k * sz, et, depth + 1);
                    o.push_str(&v);
                }
                o.push_str("]}");
                o
            }
            RigidTy::Tuple(ts) => {
                if ts.is_empty() {
                    return "{\"tuple\":[]}".into();
                }
                let offs = match t.layout().map(|l| l.shape().fields) {
                    Ok(FieldsShape::Arbitrary { offsets }) => offsets,
                    _ => return "{\"opaque\":\"layout\"}".into(),
                };
                let fs = list(ts.iter().enumerate().collect::<Vec<_>>(), |(i, ft)| {
                    self.value(a, off + offs[i].bytes(), *ft, depth + 1)
                });
                format!("{{\"tuple\":{}}}", fs)
            }
            RigidTy::Adt(def, args) => {
                let name = def.name().to_string();
                self.note_ty(t, 0);
                let shape = match t.layout() {
                    Ok(l) => l.shape(),
                    Err(_) => return "{\"opaque\":\"layout\"}".into(),
                };
                let vs = def.variants();
                let (vi, offs): (usize, Vec<usize>) = match &shape.variants {
                    VariantsShape::Empty => return "{\"opaque\":\"empty\"}".into(),
                    VariantsShape::Single { index } => {
                        let vi = vs.iter().position(|v| v.idx() == *index).unwrap_or(0);
                        let offs = match &shape.fields {
                            FieldsShape::Arbitrary { offsets } => offsets.iter().map(|o| o.bytes()).collect(),
                            _ => vec![],
                        };
                        (vi, offs)
                    }
                    VariantsShape::Multiple { tag, tag_encoding, variants, .. } => {
                        let toff = match &shape.fields {
                            FieldsShape::Arbitrary { offsets } => offsets[0].bytes(),
                            _ => return "{\"opaque\":\"layout\"}".into(),
                        };
                        let (tsz, is_ptr) = match tag {
                            rustc_public::abi::Scalar::Initialized { value, .. }
                            | rustc_public::abi::Scalar::Union { value } => match value {
                                rustc_public::abi::Primitive::Int { length, .. } => (length.bits() / 8, false),
                                rustc_public::abi::Primitive::Pointer(_) => (8, true),
                                _ => return "{\"opaque\":\"layout\"}".into(),
                            },
                        };
                        let has_prov = a.provenance.ptrs.iter().any(|(o, _)| *o == off + toff);
                        let raw = Self::int_at(&a.bytes, off + toff, tsz);
                        let vi = match tag_encoding {
                            TagEncoding::Direct => match raw {
                                Some(v) => {
                                    match vs.iter().position(|x| {
                                        let d = def.discriminant_for_variant(x.idx()).val;
                                        let m = if tsz >= 16 { u128::MAX } else { (1u128 << (8 * tsz)) - 1 };
                                        d & m == v
                                    }) {
                                        Some(p) => p,
                                        None => return "{\"opaque\":\"tag\"}".into(),
                                    }
                                }
                                None => return "{\"opaque\":\"tag\"}".into(),
                            },
                            TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                let un = vs.iter().position(|v| v.idx() == *untagged_variant).unwrap_or(0);
                                let st = vs.iter().position(|v| v.idx() == *niche_variants.start()).unwrap_or(0);
                                let en = vs.iter().position(|v| v.idx() == *niche_variants.end()).unwrap_or(0);
                                if is_ptr && has_prov {
                                    un
                                } else {
                                    match raw {
                                        Some(v) => {
                                            let m = if tsz >= 16 { u128::MAX } else { (1u128 << (8 * tsz)) - 1 };
                                            let rel = v.wrapping_sub(*niche_start) & m;
                                            if rel <= (en - st) as u128 { st + rel as usize } else { un }
                                        }
                                        None => return "{\"opaque\":\"tag\"}".into(),
                                    }
                                }
                            }
                        };
                        (vi, variants[vi].offsets.iter().map(|o| o.bytes()).collect())
                    }
                };
                let fields = vs[vi].fields();
                if fields.len() > offs.len() {
                    return "{\"opaque\":\"layout\"}".into();
                }
                let fs = list(fields.iter().enumerate().collect::<Vec<_>>(), |(i, f)| {
                    let ft = f.ty_with_args(&args);
                    self.value(a, off + offs[i], ft, depth + 1)
                });
                format!(
                    "{{\"adt\":{},\"variant\":{},\"vname\":{},\"fields\":{}}}",
                    esc(&name),
                    vi,
                    esc(&vs[vi].name().to_string()),
                    fs
                )
            }
            RigidTy::Ref(_, pt, _) | RigidTy::RawPtr(pt, _) => {
                let prov = a.provenance.ptrs.iter().find(|(o, _)| *o == off).map(|(_, p)| p.0);
                let Some(id) = prov else {
                    // e.g. a dangling pointer to an empty slice or a ZST
                    let wide = matches!(pt.kind(), TyKind::RigidTy(RigidTy::Str | RigidTy::Slice(_)));
                    if wide && Self::int_at(&a.bytes, off + 8, 8) == Some(0) {
                        if let TyKind::RigidTy(RigidTy::Str) = pt.kind() {
                            return "{\"str\":\"\"}".into();
                        }
                        return "{\"ref\":{\"arr\":[]}}".into();
                    }
                    if let Ok(l) = pt.layout() {
                        if l.shape().is_sized() && l.shape().size.bits() == 0 {
                            return format!("{{\"ref\":{{\"zst\":{}}}}}", esc(&self.ty(pt)));
                        }
                    }
                    return "{\"opaque\":\"noprov\"}".into();
                };
                let base = Self::int_at(&a.bytes, off, 8).unwrap_or(0) as usize;
                match GlobalAlloc::from(id) {
                    GlobalAlloc::Memory(al) => match pt.kind().rigid() {
                        Some(RigidTy::Str) => {
                            let n = Self::int_at(&a.bytes, off + 8, 8).unwrap_or(0) as usize;
                            let b: Vec<u8> = al.bytes[base..base + n].iter().map(|x| x.unwrap_or(b'?')).collect();
                            format!("{{\"str\":{}}}", esc(&String::from_utf8_lossy(&b)))
                        }
                        Some(RigidTy::Slice(et)) => {
                            let n = Self::int_at(&a.bytes, off + 8, 8).unwrap_or(0) as usize;
                            let sz = et.layout().map(|l| l.shape().size.bytes()).unwrap_or(0);
                            let fs = list(0..n, |k| self.value(&al, base + k * sz, *et, depth + 1));
                            format!("{{\"ref\":{{\"arr\":{}}}}}", fs)
                        }
                        _ => {
                            let v = self.value(&al, base, pt, depth + 1);
                            format!("{{\"ref\":{}}}", v)
                        }
                    },
                    GlobalAlloc::Static(s) => format!("{{\"static\":{}}}", esc(&s.name().to_string())),
                    GlobalAlloc::Function(i) => format!("{{\"fnptr\":{}}}", esc(&i.mangled_name().to_string())),
                    _ => "{\"opaque\":\"alloc\"}".into(),
                }
            }
            RigidTy::FnDef(d, args) => format!("{{\"fn\":{}}}", self.callee(d, &args)),
            RigidTy::FnPtr(_) => {
                let prov = a.provenance.ptrs.iter().find(|(o, _)| *o == off).map(|(_, p)| p.0);
                if let Some(id) = prov {
                    if let GlobalAlloc::Function(i) = GlobalAlloc::from(id) {
                        let id = self.enqueue(i);
                        return format!("{{\"fnptr\":{}}}", esc(&id));
                    }
                }
                "{\"opaque\":\"fnptr\"}".into()
            }
            RigidTy::Closure(d, args) => {
                let i = Instance::resolve_closure(d, &args, ClosureKind::Fn);
                match i {
                    Ok(i) => {
                        let id = self.enqueue(i);
                        format!("{{\"closure\":{}}}", esc(&id))
                    }
                    Err(_) => "{\"opaque\":\"closure\"}".into(),
                }
            }
            _ => "{\"opaque\":\"kind\"}".into(),
        }
    }

    fn constant(&mut self, c: &MirConst) -> String {
        let t = c.ty();
        let tys = esc(&self.ty(t));
        let v = match c.kind() {
            ConstantKind::Allocated(a) => self.value(a, 0, t, 0),
            ConstantKind::ZeroSized => {
                let empty = Allocation {
                    bytes: vec![],
                    provenance: ProvenanceMap { ptrs: vec![] },
                    align: 1,
                    mutability: Mutability::Not,
                };
                match t.kind().rigid() {
                    Some(RigidTy::FnDef(..)) | Some(RigidTy::Closure(..)) | Some(RigidTy::Adt(..)) | Some(RigidTy::Tuple(..)) => {
                        self.value(&empty, 0, t, 0)
                    }
                    _ => "{\"zst\":true}".into(),
                }
            }
            ConstantKind::Ty(tc) => match tc.eval_target_usize() {
                Ok(v) => format!("{{\"int\":{}}}", v),
                Err(_) => "{\"opaque\":\"tyconst\"}".into(),
            },
            _ => "{\"opaque\":\"const\"}".into(),
        };
        format!("{{\"ty\":{},\"v\":{}}}", tys, v)
    }

    fn place(&mut self, p: &Place) -> String {
        let ps = list(p.projection.iter(), |e| match e {
            ProjectionElem::Deref => "\"*\"".into(),
            ProjectionElem::Field(i, t) => format!("{{\"f\":{},\"t\":{}}}", i, esc(&self.tystr(*t))),
            ProjectionElem::Index(l) => format!("{{\"i\":{}}}", l),
            ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                format!("{{\"ci\":[{},{},{}]}}", offset, min_length, from_end)
            }
            ProjectionElem::Subslice { from, to, from_end } => format!("{{\"sub\":[{},{},{}]}}", from, to, from_end),
            ProjectionElem::Downcast(v) => {
                format!("{{\"d\":{}}}", vidx(v))
            }
            ProjectionElem::OpaqueCast(_) => "\"oc\"".into(),
        });
        format!("[{},{}]", p.local, ps)
    }

    fn operand(&mut self, o: &Operand) -> String {
        match o {
            Operand::Copy(p) => format!("{{\"cp\":{}}}", self.place(p)),
            Operand::Move(p) => format!("{{\"mv\":{}}}", self.place(p)),
            Operand::Constant(c) => format!("{{\"c\":{}}}", self.constant(&c.const_)),
            Operand::RuntimeChecks(r) => format!("{{\"rc\":{}}}", esc(&format!("{:?}", r))),
        }
    }

    fn rvalue(&mut self, r: &Rvalue) -> String {
        match r {
            Rvalue::Use(o, _) => format!("{{\"use\":{}}}", self.operand(o)),
            Rvalue::Ref(_, k, p) => format!("{{\"ref\":{},\"k\":{}}}", self.place(p), esc(match k { BorrowKind::Mut{..} => "mut", BorrowKind::Shared => "shr", _ => "fake" })),
            Rvalue::Reborrow(_, _, p) => format!("{{\"use\":{{\"cp\":{}}}}}", self.place(p)),
            Rvalue::AddressOf(_, p) => format!("{{\"addr\":{}}}", self.place(p)),
            Rvalue::CopyForDeref(p) => format!("{{\"use\":{{\"cp\":{}}}}}", self.place(p)),
            Rvalue::Discriminant(p) => format!("{{\"discr\":{}}}", self.place(p)),
            Rvalue::Len(p) => format!("{{\"len\":{}}}", self.place(p)),
            Rvalue::BinaryOp(op, a, b) => {
                format!("{{\"bin\":{},\"a\":{},\"b\":{}}}", esc(&format!("{:?}", op)), self.operand(a), self.operand(b))
            }
            Rvalue::CheckedBinaryOp(op, a, b) => {
                format!("{{\"chk\":{},\"a\":{},\"b\":{}}}", esc(&format!("{:?}", op)), self.operand(a), self.operand(b))
            }
            Rvalue::UnaryOp(op, a) => format!("{{\"un\":{},\"a\":{}}}", esc(&format!("{:?}", op)), self.operand(a)),
            Rvalue::Cast(k, o, t) => {
                format!("{{\"cast\":{},\"a\":{},\"ty\":{}}}", esc(&format!("{:?}", k)), self.operand(o), esc(&self.ty(*t)))
            }
            Rvalue::Repeat(o, n) => format!(
                "{{\"repeat\":{},\"n\":{}}}",
                self.operand(o),
                n.eval_target_usize().map(|v| v.to_string()).unwrap_or("null".into())
            ),
            Rvalue::Aggregate(k, ops) => {
                let os = list(ops.iter(), |o| self.operand(o));
                match k {
                    AggregateKind::Array(_) => format!("{{\"agg\":\"array\",\"ops\":{}}}", os),
                    AggregateKind::Tuple => format!("{{\"agg\":\"tuple\",\"ops\":{}}}", os),
                    AggregateKind::Adt(d, v, args, _, fi) => {
                        let t = d.ty_with_args(args);
                        self.note_ty(t, 0);
                        format!(
                            "{{\"agg\":\"adt\",\"adt\":{},\"variant\":{},\"ty\":{},\"fi\":{},\"ops\":{}}}",
                            esc(&d.name().to_string()),
                            vidx(v),
                            esc(&self.tystr(t)),
                            fi.map(|f| f.to_string()).unwrap_or("null".into()),
                            os
                        )
                    }
                    AggregateKind::Closure(d, args) => {
                        let id = match Instance::resolve_closure(*d, args, ClosureKind::Fn) {
                            Ok(i) => self.enqueue(i),
                            Err(_) => String::new(),
                        };
                        format!("{{\"agg\":\"closure\",\"id\":{},\"ops\":{}}}", esc(&id), os)
                    }
                    _ => format!("{{\"agg\":\"other\",\"ops\":{}}}", os),
                }
            }
            Rvalue::ThreadLocalRef(c) => format!("{{\"tls\":{}}}", esc(&c.name().to_string())),
        }
    }

    fn body(&mut self, i: &Instance) -> Option<String> {
        let b = i.body()?;
        let mut o = String::new();
        let lines = b.span.get_lines();
        let _ = write!(
            o,
            "{{\"name\":{},\"def\":{},\"krate\":{},\"kind\":{},\"file\":{},\"line\":{},\"nargs\":{},\"spread\":{},",
            esc(&i.name().to_string()),
            esc(&i.def.name().to_string()),
            esc(&i.def.krate().name.to_string()),
            esc(&format!("{:?}", i.kind)),
            esc(&b.span.get_filename().to_string()),
            lines.start_line,
            b.arg_locals().len(),
            b.spread_arg().map(|l| l.to_string()).unwrap_or("null".into())
        );
        let locals = list(b.locals().iter(), |l| esc(&self.ty(l.ty)));
        let _ = write!(o, "\"locals\":{},", locals);
        let mut vars: Vec<String> = vec![];
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                vars.push(format!("[{},{}]", esc(&v.name.to_string()), self.place(p)));
            }
        }
        let _ = write!(o, "\"vars\":[{}],\"blocks\":[", vars.join(","));
        for (bi, bb) in b.blocks.iter().enumerate() {
            if bi > 0 {
                o.push(',');
            }
            o.push_str("{\"s\":[");
            let mut first = true;
            for s in &bb.statements {
                let txt = match &s.kind {
                    StatementKind::Assign(p, r) => {
                        format!("{{\"p\":{},\"r\":{},\"l\":{}}}", self.place(p), self.rvalue(r), s.source_info.span.get_lines().start_line)
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        format!("{{\"sd\":{},\"v\":{}}}", self.place(place), vidx(variant_index))
                    }
                    StatementKind::Intrinsic(_) => "{\"intrinsic\":true}".to_string(),
                    _ => continue,
                };
                if !first {
                    o.push(',');
                }
                first = false;
                o.push_str(&txt);
            }
            o.push_str("],\"t\":");
            let line = bb.terminator.source_info.span.get_lines().start_line;
            let t = match &bb.terminator.kind {
                TerminatorKind::Goto { target } => format!("{{\"k\":\"goto\",\"to\":{}}}", target),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let br = list(targets.branches().collect::<Vec<_>>(), |(v, t)| format!("[{},{}]", v, t));
                    format!("{{\"k\":\"switch\",\"on\":{},\"br\":{},\"else\":{}}}", self.operand(discr), br, targets.otherwise())
                }
                TerminatorKind::Return => "{\"k\":\"return\"}".into(),
                TerminatorKind::Resume => "{\"k\":\"resume\"}".into(),
                TerminatorKind::Abort => "{\"k\":\"abort\"}".into(),
                TerminatorKind::Unreachable => "{\"k\":\"unreachable\"}".into(),
                TerminatorKind::Drop { place, target, .. } => {
                    let ty = place.ty(b.locals()).map(|t| self.ty(t)).unwrap_or_default();
                    format!("{{\"k\":\"drop\",\"p\":{},\"to\":{},\"ty\":{}}}", self.place(place), target, esc(&ty))
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = match func {
                        Operand::Constant(c) => match c.const_.ty().kind().rigid() {
                            Some(RigidTy::FnDef(d, ga)) => self.callee(*d, ga),
                            _ => format!("{{\"id\":null,\"def\":\"<const>\",\"op\":{}}}", self.operand(func)),
                        },
                        _ => format!("{{\"id\":null,\"def\":\"<indirect>\",\"op\":{}}}", self.operand(func)),
                    };
                    let ar = list(args.iter(), |a| self.operand(a));
                    format!(
                        "{{\"k\":\"call\",\"f\":{},\"args\":{},\"dest\":{},\"to\":{},\"l\":{}}}",
                        f,
                        ar,
                        self.place(destination),
                        target.map(|t| t.to_string()).unwrap_or("null".into()),
                        line
                    )
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = match msg {
                        AssertMessage::BoundsCheck { len, index } => {
                            format!("{{\"m\":\"bounds\",\"len\":{},\"index\":{}}}", self.operand(len), self.operand(index))
                        }
                        AssertMessage::Overflow(op, a, b) => {
                            format!("{{\"m\":\"overflow\",\"op\":\"{:?}\",\"a\":{},\"b\":{}}}", op, self.operand(a), self.operand(b))
                        }
                        AssertMessage::OverflowNeg(a) => format!("{{\"m\":\"neg\",\"a\":{}}}", self.operand(a)),
                        AssertMessage::DivisionByZero(a) => format!("{{\"m\":\"div0\",\"a\":{}}}", self.operand(a)),
                        AssertMessage::RemainderByZero(a) => format!("{{\"m\":\"rem0\",\"a\":{}}}", self.operand(a)),
                        _ => format!("{{\"m\":\"other\"}}"),
                    };
                    format!(
                        "{{\"k\":\"assert\",\"cond\":{},\"exp\":{},\"msg\":{},\"to\":{},\"l\":{}}}",
                        self.operand(cond),
                        expected,
                        m,
                        target,
                        line
                    )
                }
                TerminatorKind::InlineAsm { .. } => "{\"k\":\"asm\"}".into(),
            };
            o.push_str(&t);
            o.push('}');
        }
        o.push_str("]}");
        Some(o)
    }
}

/// Unsafe blocks and impls, statics with interior mutability, and the thread safety of what functions return.
struct Unsafe<'tcx> {
    tcx: rustc_middle::ty::TyCtxt<'tcx>,
    out: Vec<String>,
}

fn place_of(tcx: rustc_middle::ty::TyCtxt<'_>, sp: rustc_span::Span) -> String {
    let l = tcx.sess.source_map().lookup_char_pos(sp.source_callsite().lo());
    let mac = if sp.from_expansion() {
        esc(&format!("{:?}", sp.ctxt().outer_expn_data().kind))
    } else {
        "null".to_string()
    };
    format!("\"file\":{},\"line\":{},\"macro\":{}", esc(&l.file.name.prefer_local_unconditionally().to_string()), l.line, mac)
}

impl<'tcx> rustc_hir::intravisit::Visitor<'tcx> for Unsafe<'tcx> {
    type NestedFilter = rustc_middle::hir::nested_filter::All;
    fn maybe_tcx(&mut self) -> rustc_middle::ty::TyCtxt<'tcx> {
        self.tcx
    }
    fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
        if b.span.allows_unsafe() {
            // of a standard macro such as thread_local!
        } else if let rustc_hir::BlockCheckMode::UnsafeBlock(rustc_hir::UnsafeSource::UserProvided) = b.rules {
            let owner = self.tcx.hir_enclosing_body_owner(b.hir_id);
            self.out.push(format!(
                "{{\"what\":\"block\",\"in\":{},{}}}",
                esc(&self.tcx.def_path_str(owner)),
                place_of(self.tcx, b.span)
            ));
        }
        rustc_hir::intravisit::walk_block(self, b);
    }
}

fn safety(tcx: rustc_middle::ty::TyCtxt<'_>) -> String {
    use rustc_hir::def::DefKind;
    use rustc_infer::infer::TyCtxtInferExt;
    use rustc_trait_selection::infer::InferCtxtExt;
    let mut v = Unsafe { tcx, out: vec![] };
    tcx.hir_visit_all_item_likes_in_crate(&mut v);
    let mut unsafety = v.out;
    let mut statics = vec![];
    let mut results = vec![];
    let send = tcx.get_diagnostic_item(rustc_span::sym::Send);
    let sync = tcx.lang_items().sync_trait();
    for id in tcx.hir_crate_items(()).definitions() {
        match tcx.def_kind(id) {
            DefKind::Impl { of_trait: true } => {
                if tcx.impl_trait_header(id).safety == rustc_hir::Safety::Unsafe {
                    unsafety.push(format!(
                        "{{\"what\":\"impl\",\"in\":{},{}}}",
                        esc(&tcx.def_path_str(id)),
                        place_of(tcx, tcx.def_span(id))
                    ));
                }
            }
            DefKind::Static { mutability, nested, .. } => {
                if nested {
                    continue;
                }
                let t = tcx.type_of(id).instantiate_identity().skip_norm_wip();
                let env = rustc_middle::ty::TypingEnv::fully_monomorphized();
                statics.push(format!(
                    "{{\"name\":{},\"mut\":{},\"freeze\":{},\"tls\":{},{}}}",
                    esc(&tcx.def_path_str(id)),
                    mutability.is_mut(),
                    t.is_freeze(tcx, env),
                    tcx.is_thread_local_static(id.to_def_id()),
                    place_of(tcx, tcx.def_span(id))
                ));
            }
            DefKind::Fn => {
                let sig = tcx.fn_sig(id).instantiate_identity().skip_norm_wip();
                if sig.safety() == rustc_hir::Safety::Unsafe {
                    unsafety.push(format!(
                        "{{\"what\":\"fn\",\"in\":{},{}}}",
                        esc(&tcx.def_path_str(id)),
                        place_of(tcx, tcx.def_span(id))
                    ));
                }
                if tcx.generics_of(id).requires_monomorphization(tcx) {
                    continue;
                }
                let out = tcx.erase_and_anonymize_regions(tcx.instantiate_bound_regions_with_erased(sig.output()));
                let infcx = tcx.infer_ctxt().build(rustc_middle::ty::TypingMode::PostAnalysis);
                let penv = rustc_middle::ty::ParamEnv::empty();
                let ask = |t: Option<rustc_hir::def_id::DefId>| match t {
                    Some(d) => infcx.type_implements_trait(d, [out], penv).must_apply_modulo_regions().to_string(),
                    None => "null".to_string(),
                };
                results.push(format!(
                    "{{\"fn\":{},\"ty\":{},\"send\":{},\"sync\":{},\"pub\":{},{}}}",
                    esc(&tcx.def_path_str(id)),
                    esc(&format!("{}", out)),
                    ask(send),
                    ask(sync),
                    tcx.effective_visibilities(()).is_reachable(id),
                    place_of(tcx, tcx.def_span(id))
                ));
            }
            _ => {}
        }
    }
    format!(
        "{{\"unsafe\":[{}],\"statics\":[{}],\"results\":[{}]}}",
        unsafety.join(","),
        statics.join(","),
        results.join(",")
    )
}

fn dump(tcx: rustc_middle::ty::TyCtxt<'_>, out: String) -> ControlFlow<()> {
    let safe = safety(tcx);
    let krate = rustc_public::local_crate();
    let mut cx = Cx {
        local_crate: krate.name.to_string(),
        queue: VecDeque::new(),
        seen: HashSet::new(),
        adts: BTreeMap::new(),
    };
    let mut generic: Vec<String> = vec![];
    let mut fn_items: Vec<String> = vec![];
    for item in rustc_public::all_local_items() {
        if matches!(item.kind(), ItemKind::Fn) {
            fn_items.push(item.name().to_string());
            if item.requires_monomorphization() {
                generic.push(item.name().to_string());
                continue;
            }
            if let Ok(i) = Instance::try_from(item) {
                cx.enqueue(i);
            }
        }
    }
    // fn safety
    let mut unsafe_fns: Vec<String> = vec![];
    for f in krate.fn_defs() {
        let sig = f.fn_sig().skip_binder();
        if sig.safety == Safety::Unsafe {
            unsafe_fns.push(f.name().to_string());
        }
    }
    let mut statics: Vec<String> = vec![];
    for s in krate.statics() {
        let t = s.ty();
        let tys = esc(&cx.ty(t));
        let v = match s.eval_initializer() {
            Ok(a) => {
                let m = a.mutability == Mutability::Mut;
                format!("{{\"ty\":{},\"mut\":{},\"v\":{}}}", tys, m, cx.value(&a, 0, t, 0))
            }
            Err(_) => format!("{{\"ty\":{},\"v\":null}}", tys),
        };
        statics.push(format!("{}:{}", esc(&s.name().to_string()), v));
    }
    // all ADTs of the crate, used or not
    for a in krate.adts() {
        if a.generics_of().params.iter().all(|p| matches!(p.kind, GenericParamDefKind::Lifetime)) {
            let t = a.ty();
            cx.note_ty(t, 0);
        }
    }
    let mut fns: Vec<String> = vec![];
    while let Some(i) = cx.queue.pop_front() {
        let id = i.mangled_name().to_string();
        if let Some(b) = cx.body(&i) {
            fns.push(format!("{}:{}", esc(&id), b));
        }
    }
    let adts: Vec<String> =
        cx.adts.iter().filter(|(_, v)| !v.is_empty()).map(|(k, v)| format!("{}:{}", esc(k), v)).collect();
    let impls = list(krate.trait_impls(), |i| esc(&i.name().to_string()));
    let txt = format!(
        "{{\"crate\":{},\"safety\":{},\"generic\":{},\"items\":{},\"unsafe_fns\":{},\"impls\":{},\"statics\":{{{}}},\"adts\":{{{}}},\"fns\":{{{}}}}}",
        esc(&cx.local_crate),
        safe,
        list(generic, |g| esc(&g)),
        list(fn_items, |g| esc(&g)),
        list(unsafe_fns, |g| esc(&g)),
        impls,
        statics.join(",\n"),
        adts.join(",\n"),
        fns.join(",\n")
    );
    let tmp = format!("{}.tmp{}", out, std::process::id());
    std::fs::write(&tmp, txt).unwrap();
    std::fs::rename(&tmp, &out).unwrap();
    ControlFlow::Continue(())
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // argv: driver, path-to-rustc, args...
    let rustc = args.get(1).cloned().unwrap_or_default();
    let rest: Vec<String> = args.drain(2.min(args.len())..).collect();
    let name = rest
        .iter()
        .position(|a| a == "--crate-name")
        .and_then(|p| rest.get(p + 1))
        .cloned();
    let kind = rest
        .iter()
        .position(|a| a == "--crate-type")
        .and_then(|p| rest.get(p + 1))
        .cloned()
        .unwrap_or("lib".into());
    let is_test = rest.iter().any(|a| a == "--test");
    let plain = match &name {
        None => true,
        Some(n) => n == "build_script_build" || n == "___" || is_test,
    };
    if plain {
        let st = std::process::Command::new(&rustc).args(&rest).status().unwrap();
        std::process::exit(st.code().unwrap_or(101));
    }
    let dir = std::env::var("VP_DUMP_DIR").expect("VP_DUMP_DIR");
    std::fs::create_dir_all(&dir).unwrap();
    let out = format!("{}/{}-{}.json", dir, name.unwrap(), kind);
    let mut a: Vec<String> = vec!["rustc".to_string()];
    a.extend(rest);
    a.push("-Zmir-opt-level=0".into());
    a.push("-Zalways-encode-mir".into());
    let r = run_with_tcx!(&a, |tcx| dump(tcx, out.clone()));
    let _: HashMap<u8, u8> = HashMap::new();
    match r {
        Ok(_) => {}
        Err(_) => std::process::exit(1),
    }
}
