//! A rustc driver that compiles one crate with the real compiler and dumps, as JSON,
//! the monomorphic MIR (callees resolved, constants evaluated and decoded) of
//! everything reachable from it inside the crates of interest.
//!
//! Output file: $MIRDUMP_OUT. Nothing is dumped when it is unset (plain rustc).
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public;
extern crate rustc_public_bridge;
extern crate rustc_span;
mod json;
use json::J;
use rustc_public::mir::alloc::{AllocId, GlobalAlloc};
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType};
use rustc_public_bridge::IndexedVal;
use rustc_public::abi::{FieldsShape, LayoutShape, TagEncoding, VariantsShape};
use std::collections::{HashMap, HashSet, VecDeque};

struct Cx {
    types: HashMap<Ty, usize>,
    type_out: Vec<J>,
    seen: HashSet<String>,
    queue: VecDeque<Instance>,
    fns: Vec<J>,
    opaque: Vec<J>,
    local_crate: String,
    vt_seen: HashSet<(String, String)>,
    vtables: Vec<J>,
    statics: HashMap<String, J>,
}

fn list_env(k: &str) -> Vec<String> {
    std::env::var(k).unwrap_or_default().split(',').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect()
}

fn ty_str(ty: &Ty) -> String {
    match ty.kind() {
        TyKind::RigidTy(r) => match r {
            RigidTy::Bool => "bool".into(),
            RigidTy::Char => "char".into(),
            RigidTy::Int(i) => format!("{i:?}").to_lowercase(),
            RigidTy::Uint(i) => format!("{i:?}").to_lowercase(),
            RigidTy::Float(i) => format!("{i:?}").to_lowercase(),
            RigidTy::Str => "str".into(),
            RigidTy::Never => "!".into(),
            RigidTy::Adt(d, a) => {
                let mut s = d.name();
                let ts = args_str(&a);
                if !ts.is_empty() {
                    s.push('<');
                    s.push_str(&ts);
                    s.push('>');
                }
                s
            }
            RigidTy::Ref(_, t, m) => format!("&{}{}", if m == Mutability::Mut { "mut " } else { "" }, ty_str(&t)),
            RigidTy::RawPtr(t, m) => format!("*{} {}", if m == Mutability::Mut { "mut" } else { "const" }, ty_str(&t)),
            RigidTy::Slice(t) => format!("[{}]", ty_str(&t)),
            RigidTy::Array(t, n) => format!("[{}; {}]", ty_str(&t), n.eval_target_usize().map(|x| x.to_string()).unwrap_or("_".into())),
            RigidTy::Tuple(v) => format!("({})", v.iter().map(ty_str).collect::<Vec<_>>().join(", ")),
            RigidTy::FnDef(d, a) => format!("fn[{}]<{}>", d.name(), args_str(&a)),
            RigidTy::Closure(d, _) => format!("closure[{}]", d.name()),
            RigidTy::FnPtr(_) => "fnptr".into(),
            RigidTy::Dynamic(p, ..) => {
                let mut v = vec![];
                for b in &p {
                    match &b.value {
                        ExistentialPredicate::Trait(t) => v.push(t.def_id.name()),
                        ExistentialPredicate::AutoTrait(t) => v.push(t.name()),
                        _ => {}
                    }
                }
                format!("dyn {}", v.join("+"))
            }
            o => format!("{o:?}"),
        },
        TyKind::Alias(..) => "alias".into(),
        TyKind::Param(p) => format!("{p:?}"),
        o => format!("{o:?}"),
    }
}
fn args_str(a: &GenericArgs) -> String {
    a.0.iter()
        .filter_map(|g| match g {
            GenericArgKind::Type(t) => Some(ty_str(t)),
            GenericArgKind::Const(c) => Some(c.eval_target_usize().map(|x| x.to_string()).unwrap_or("_".into())),
            GenericArgKind::Lifetime(_) => None,
        })
        .collect::<Vec<_>>()
        .join(", ")
}

fn span_j(s: rustc_public::ty::Span) -> J {
    let l = s.get_lines();
    J::S(format!("{}:{}", s.get_filename(), l.start_line))
}

impl Cx {
    fn ty(&mut self, t: Ty) -> J {
        J::I(self.ty_id(t) as i128)
    }
    fn ty_id(&mut self, t: Ty) -> usize {
        if let Some(&i) = self.types.get(&t) {
            return i;
        }
        let i = self.type_out.len();
        self.types.insert(t, i);
        self.type_out.push(J::N);
        let name = ty_str(&t);
        let mut o: Vec<(&'static str, J)> = vec![("n", J::S(name))];
        match t.kind() {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => o.push(("k", J::s("bool"))),
                RigidTy::Char => o.push(("k", J::s("char"))),
                RigidTy::Int(_) | RigidTy::Uint(_) => {
                    o.push(("k", J::s("int")));
                    o.push(("signed", J::B(matches!(r, RigidTy::Int(_)))));
                    if let Ok(l) = t.layout() {
                        o.push(("bits", J::I(l.shape().size.bits() as i128)));
                    }
                }
                RigidTy::Float(_) => o.push(("k", J::s("float"))),
                RigidTy::Str => o.push(("k", J::s("str"))),
                RigidTy::Never => o.push(("k", J::s("never"))),
                RigidTy::Ref(_, t2, m) => {
                    o.push(("k", J::s("ref")));
                    let x = self.ty(t2);
                    o.push(("to", x));
                    o.push(("mut", J::B(m == Mutability::Mut)));
                }
                RigidTy::RawPtr(t2, m) => {
                    o.push(("k", J::s("ptr")));
                    let x = self.ty(t2);
                    o.push(("to", x));
                    o.push(("mut", J::B(m == Mutability::Mut)));
                }
                RigidTy::Slice(t2) => {
                    o.push(("k", J::s("slice")));
                    let x = self.ty(t2);
                    o.push(("of", x));
                }
                RigidTy::Array(t2, n) => {
                    o.push(("k", J::s("array")));
                    let x = self.ty(t2);
                    o.push(("of", x));
                    if let Ok(n) = n.eval_target_usize() {
                        o.push(("len", J::I(n as i128)));
                    }
                }
                RigidTy::Tuple(v) => {
                    o.push(("k", J::s("tuple")));
                    let x = v.iter().map(|t| self.ty(*t)).collect();
                    o.push(("f", J::A(x)));
                }
                RigidTy::FnDef(d, a) => {
                    o.push(("k", J::s("fndef")));
                    let c = self.callee(d, &a);
                    o.push(("callee", c));
                }
                RigidTy::Closure(d, a) => {
                    o.push(("k", J::s("closure")));
                    o.push(("def", J::S(d.name())));
                    // upvar tuple is the last type argument
                    if let Some(GenericArgKind::Type(up)) = a.0.last() {
                        if let TyKind::RigidTy(RigidTy::Tuple(v)) = up.kind() {
                            let x = v.iter().map(|t| self.ty(*t)).collect();
                            o.push(("f", J::A(x)));
                        }
                    }
                    for (nm, k) in [("once", ClosureKind::FnOnce), ("call", ClosureKind::Fn), ("mutc", ClosureKind::FnMut)] {
                        let _ = (nm, k);
                    }
                    if let Ok(inst) = Instance::resolve_closure(d, &a, ClosureKind::FnOnce) {
                        let key = self.instance(inst);
                        o.push(("once", key));
                    }
                }
                RigidTy::Adt(d, a) => {
                    o.push(("k", J::s("adt")));
                    o.push(("adt", J::S(d.name())));
                    o.push(("crate", J::S(d.krate().name)));
                    o.push(("ak", J::S(format!("{:?}", d.kind()))));
                    let ta: Vec<J> = a.0.iter().filter_map(|g| if let GenericArgKind::Type(t) = g { Some(*t) } else { None }).map(|t| self.ty(t)).collect();
                    o.push(("args", J::A(ta)));
                    let mut vs = vec![];
                    for v in d.variants() {
                        let discr = if d.kind() == AdtKind::Enum { J::I(d.discriminant_for_variant(v.idx()).val as i128) } else { J::I(0) };
                        let mut fs = vec![];
                        for f in v.fields() {
                            let ft = f.ty_with_args(&a);
                            let x = self.ty(ft);
                            fs.push(J::A(vec![J::S(f.name.to_string()), x]));
                        }
                        vs.push(J::O(vec![("n", J::S(v.name().to_string())), ("d", discr), ("f", J::A(fs))]));
                    }
                    o.push(("v", J::A(vs)));
                }
                RigidTy::Dynamic(..) => o.push(("k", J::s("dyn"))),
                RigidTy::FnPtr(_) => o.push(("k", J::s("fnptr"))),
                _ => o.push(("k", J::s("other"))),
            },
            _ => o.push(("k", J::s("other"))),
        }
        self.type_out[i] = J::O(o);
        i
    }

    fn want_body(&self, inst: &Instance) -> bool {
        let krate = inst.def.krate().name;
        if krate == self.local_crate || self.deep().iter().any(|c| *c == krate) {
            return true;
        }
        if !matches!(krate.as_str(), "core" | "alloc" | "std") {
            return false;
        }
        if matches!(inst.kind, InstanceKind::Shim) {
            return true;
        }
        let n = inst.def.name();
        const MODS: &[&str] = &[
            "option::", "result::", "ops::", "convert::", "cmp::", "iter::", "bool::", "borrow::", "mem::", "tuple::", "array::", "clone::", "default::", "fmt::rt::", "str::<impl str>::parse", "slice::<impl", "str::<impl", "char::", "num::", "ascii::", "ffi::os_str::", "os_str::",
        ];
        let n2 = n.trim_start_matches('<');
        let strip = ["core::", "alloc::", "std::"].iter().find_map(|p| n2.strip_prefix(p)).unwrap_or(n2);
        MODS.iter().any(|m| strip.starts_with(m)) || n.contains("<impl") && MODS.iter().any(|m| n.contains(&format!("::{m}")) || n.contains(&format!(" {m}")))
            || n.contains(" as core::") || n.contains(" as std::") || n.contains("for<")
    }
    fn deep(&self) -> Vec<String> {
        list_env("MIRDUMP_DEEP")
    }

    fn instance(&mut self, inst: Instance) -> J {
        let key = inst.mangled_name();
        if matches!(inst.kind, InstanceKind::Virtual { .. } | InstanceKind::Intrinsic | InstanceKind::LlvmIntrinsic) {
            return J::S(key);
        }
        if self.seen.insert(key.clone()) {
            self.queue.push_back(inst);
        }
        J::S(key)
    }

    /// A resolved callee.
    fn callee(&mut self, d: FnDef, a: &GenericArgs) -> J {
        let mut o: Vec<(&'static str, J)> = vec![("def", J::S(d.name()))];
        o.push(("targs", J::S(args_str(a))));
        let ta: Vec<J> = a.0.iter().filter_map(|g| if let GenericArgKind::Type(t) = g { Some(*t) } else { None }).map(|t| self.ty(t)).collect();
        o.push(("args", J::A(ta)));
        match Instance::resolve(d, a) {
            Ok(inst) => {
                let k = match inst.kind {
                    InstanceKind::Item => "item",
                    InstanceKind::Intrinsic | InstanceKind::LlvmIntrinsic => "intrinsic",
                    InstanceKind::Virtual { .. } => "virtual",
                    InstanceKind::Shim => "shim",
                };
                o.push(("k", J::s(k)));
                o.push(("inst", J::S(inst.name())));
                o.push(("idef", J::S(inst.def.name())));
                o.push(("crate", J::S(inst.def.krate().name)));
                let foreign = rustc_middle::ty::tls::with(|tcx| tcx.is_foreign_item(rustc_public::rustc_internal::internal(tcx, inst.def.def_id())));
                if foreign {
                    o.push(("foreign", J::B(true)));
                }
                if k == "item" || k == "shim" {
                    let key = self.instance(inst);
                    o.push(("key", key));
                }
            }
            Err(_) => o.push(("k", J::s("unresolved"))),
        }
        J::O(o)
    }

    // ---- constants ----
    fn const_val(&mut self, c: &MirConst) -> J {
        let ty = c.ty();
        match c.kind() {
            ConstantKind::Allocated(a) => self.decode(ty, a, 0, 0),
            ConstantKind::ZeroSized => J::O(vec![("z", self.ty(ty))]),
            ConstantKind::Ty(tc) => match tc.kind() {
                TyConstKind::Value(t, a) => self.decode(*t, a, 0, 0),
                TyConstKind::ZSTValue(t) => J::O(vec![("z", self.ty(*t))]),
                o => J::O(vec![("?", J::S(format!("{o:?}")))]),
            },
            o => J::O(vec![("?", J::S(format!("{o:?}")))]),
        }
    }
    fn rd(a: &Allocation, off: usize, n: usize) -> Option<u128> {
        let mut v: u128 = 0;
        for i in (0..n).rev() {
            v = (v << 8) | (*a.bytes.get(off + i)?.as_ref()?) as u128;
        }
        Some(v)
    }
    fn prov(a: &Allocation, off: usize) -> Option<AllocId> {
        a.provenance.ptrs.iter().find(|(o, _)| *o == off).map(|(_, p)| p.0)
    }
    fn decode(&mut self, ty: Ty, a: &Allocation, off: usize, depth: usize) -> J {
        if depth > 40 {
            return J::O(vec![("?", J::s("deep"))]);
        }
        let bad = |m: &str| J::O(vec![("?", J::s(m))]);
        let TyKind::RigidTy(r) = ty.kind() else { return bad("alias") };
        match r {
            RigidTy::Bool => Self::rd(a, off, 1).map(|v| J::O(vec![("b", J::B(v != 0))])).unwrap_or(bad("uninit")),
            RigidTy::Char => Self::rd(a, off, 4).map(|v| J::O(vec![("ch", J::I(v as i128))])).unwrap_or(bad("uninit")),
            RigidTy::Int(_) | RigidTy::Uint(_) => {
                let sz = ty.layout().unwrap().shape().size.bytes();
                let Some(v) = Self::rd(a, off, sz) else { return bad("uninit") };
                let mut i = v as i128;
                if matches!(r, RigidTy::Int(_)) && sz < 16 && (v >> (sz * 8 - 1)) & 1 == 1 {
                    i -= 1i128 << (sz * 8);
                }
                J::O(vec![("i", J::I(i)), ("t", self.ty(ty))])
            }
            RigidTy::Ref(_, t, _) | RigidTy::RawPtr(t, _) => self.decode_ptr(t, a, off, depth),
            RigidTy::Tuple(v) => {
                let shape = ty.layout().unwrap().shape();
                let fs = self.decode_fields(&shape, &v, a, off, depth);
                J::O(vec![("tup", fs), ("t", self.ty(ty))])
            }
            RigidTy::Array(t, n) => {
                let n = n.eval_target_usize().unwrap_or(0) as usize;
                let st = t.layout().unwrap().shape().size.bytes();
                if matches!(t.kind(), TyKind::RigidTy(RigidTy::Uint(UintTy::U8))) {
                    let b: Option<Vec<J>> = (0..n).map(|i| Self::rd(a, off + i, 1).map(|x| J::I(x as i128))).collect();
                    if let Some(b) = b {
                        return J::O(vec![("bytes", J::A(b))]);
                    }
                }
                let v = (0..n).map(|i| self.decode(t, a, off + i * st, depth + 1)).collect();
                J::O(vec![("arr", J::A(v)), ("t", self.ty(ty))])
            }
            RigidTy::FnDef(..) | RigidTy::Closure(..) => J::O(vec![("z", self.ty(ty))]),
            RigidTy::FnPtr(_) => {
                if let Some(id) = Self::prov(a, off) {
                    if let GlobalAlloc::Function(i) = GlobalAlloc::from(id) {
                        let name = i.name();
                        let k = self.instance(i);
                        return J::O(vec![("fnptr", k), ("n", J::S(name))]);
                    }
                }
                bad("fnptr")
            }
            RigidTy::Adt(d, ga) => {
                let shape = match ty.layout() {
                    Ok(l) => l.shape(),
                    Err(_) => return bad("layout"),
                };
                let idx = match &shape.variants {
                    VariantsShape::Empty => return bad("uninhabited"),
                    VariantsShape::Single { index } => index.to_index(),
                    VariantsShape::Multiple { tag, tag_encoding, tag_field, variants: _ } => {
                        let FieldsShape::Arbitrary { offsets } = &shape.fields else { return bad("fields") };
                        let toff = off + offsets[*tag_field].bytes();
                        let tsz = tag_size(tag);
                        match tag_encoding {
                            TagEncoding::Direct => {
                                let Some(v) = Self::rd(a, toff, tsz) else { return bad("tag") };
                                let mask = if tsz >= 16 { u128::MAX } else { (1u128 << (tsz * 8)) - 1 };
                                match d.variants().iter().find(|x| d.discriminant_for_variant(x.idx()).val & mask == v) {
                                    Some(x) => x.idx().to_index(),
                                    None => return bad("tagval"),
                                }
                            }
                            TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                let has_prov = Self::prov(a, toff).is_some();
                                if has_prov {
                                    untagged_variant.to_index()
                                } else {
                                    let Some(v) = Self::rd(a, toff, tsz) else { return bad("tag") };
                                    let mask = if tsz >= 16 { u128::MAX } else { (1u128 << (tsz * 8)) - 1 };
                                    let rel = v.wrapping_sub(*niche_start) & mask;
                                    let s = niche_variants.start().to_index();
                                    let e = niche_variants.end().to_index();
                                    if rel <= (e - s) as u128 { s + rel as usize } else { untagged_variant.to_index() }
                                }
                            }
                        }
                    }
                };
                let Some(var) = d.variants().into_iter().nth(idx) else { return bad("variant") };
                let ftys: Vec<Ty> = var.fields().iter().map(|f| f.ty_with_args(&ga)).collect();
                let offsets: Vec<usize> = match &shape.variants {
                    VariantsShape::Multiple { variants, .. } => variants[idx].offsets.iter().map(|o| o.bytes()).collect(),
                    _ => match &shape.fields {
                        FieldsShape::Arbitrary { offsets } => offsets.iter().map(|o| o.bytes()).collect(),
                        FieldsShape::Union(n) => vec![0; (*n).into()],
                        _ => vec![0; ftys.len()],
                    },
                };
                let fs = ftys.iter().zip(offsets).map(|(t, o)| self.decode(*t, a, off + o, depth + 1)).collect();
                J::O(vec![("adt", J::I(idx as i128)), ("f", J::A(fs)), ("t", self.ty(ty))])
            }
            o => J::O(vec![("?", J::S(format!("{o:?}")))]),
        }
    }
    /// Record a static; its initial value when it can never change.
    fn static_(&mut self, d: &rustc_public::mir::mono::StaticDef) -> Option<Allocation> {
        let (mutable, freeze, tls, foreign) = rustc_middle::ty::tls::with(|tcx| {
            let id = rustc_public::rustc_internal::internal(tcx, d.0);
            let ty = tcx.type_of(id).instantiate_identity();
            let env = rustc_middle::ty::TypingEnv::fully_monomorphized();
            let ty = tcx.normalize_erasing_regions(env, ty);
            (tcx.is_mutable_static(id), ty.is_freeze(tcx, env), tcx.is_thread_local_static(id), tcx.is_foreign_item(id))
        });
        self.statics.insert(
            d.name(),
            J::O(vec![
                ("n", J::S(d.name())),
                ("crate", J::S(d.krate().name)),
                ("mut", J::B(mutable)),
                ("freeze", J::B(freeze)),
                ("tls", J::B(tls)),
                ("foreign", J::B(foreign)),
            ]),
        );
        if mutable || !freeze || tls || foreign { None } else { d.eval_initializer().ok() }
    }
    fn global(&mut self, p: Option<AllocId>) -> Option<Allocation> {
        match p.map(GlobalAlloc::from) {
            Some(GlobalAlloc::Memory(m)) => Some(m),
            Some(GlobalAlloc::Static(s)) => self.static_(&s),
            _ => None,
        }
    }
    fn decode_fields(&mut self, shape: &LayoutShape, tys: &[Ty], a: &Allocation, off: usize, depth: usize) -> J {
        let offs: Vec<usize> = match &shape.fields {
            FieldsShape::Arbitrary { offsets } => offsets.iter().map(|o| o.bytes()).collect(),
            _ => vec![0; tys.len()],
        };
        J::A(tys.iter().zip(offs).map(|(t, o)| self.decode(*t, a, off + o, depth + 1)).collect())
    }
    fn decode_ptr(&mut self, to: Ty, a: &Allocation, off: usize, depth: usize) -> J {
        let bad = |m: &str| J::O(vec![("?", J::s(m))]);
        let Some(addr) = Self::rd(a, off, 8) else { return bad("ptr") };
        let prov = Self::prov(a, off);
        let kind = to.kind();
        let TyKind::RigidTy(r) = kind else { return bad("ptr alias") };
        if let RigidTy::Adt(d, ga) = &r {
            // A struct whose tail is unsized, e.g. `OsStr`: decode as its tail.
            if d.kind() == AdtKind::Struct {
                let v = d.variants().into_iter().next().unwrap();
                if v.fields().len() == 1 {
                    let ft = v.fields()[0].ty_with_args(ga);
                    if unsized_tail(ft) {
                        return self.decode_ptr(ft, a, off, depth + 1);
                    }
                }
            }
        }
        match r {
            RigidTy::Str | RigidTy::Slice(_) => {
                let Some(len) = Self::rd(a, off + 8, 8) else { return bad("len") };
                let len = len as usize;
                let mem = self.global(prov);
                if let RigidTy::Slice(t) = &r {
                    if len == 0 {
                        return J::O(vec![("ref", J::O(vec![("arr", J::A(vec![])), ("t", self.ty(to))])), ("t", self.ty(to))]);
                    }
                    let Some(m) = mem else { return bad("slicemem") };
                    if matches!(t.kind(), TyKind::RigidTy(RigidTy::Uint(UintTy::U8))) {
                        let b: Vec<J> = (0..len).map(|i| J::I(Self::rd(&m, addr as usize + i, 1).unwrap_or(0) as i128)).collect();
                        return J::O(vec![("ref", J::O(vec![("bytes", J::A(b))]))]);
                    }
                    let st = t.layout().unwrap().shape().size.bytes();
                    let v = (0..len).map(|i| self.decode(*t, &m, addr as usize + i * st, depth + 1)).collect();
                    J::O(vec![("ref", J::O(vec![("arr", J::A(v)), ("t", self.ty(to))]))])
                } else {
                    let b: Vec<u8> = match mem {
                        Some(m) => (0..len).map(|i| Self::rd(&m, addr as usize + i, 1).unwrap_or(0) as u8).collect(),
                        None if len == 0 => vec![],
                        None => return bad("strmem"),
                    };
                    J::O(vec![("s", J::S(String::from_utf8_lossy(&b).into_owned()))])
                }
            }
            RigidTy::Dynamic(..) => {
                let vt = Self::prov(a, off + 8);
                let tid = match vt.map(GlobalAlloc::from) {
                    Some(GlobalAlloc::VTable(t, _)) => Some(t),
                    _ => None,
                };
                let Some(t) = tid else { return bad("vtable") };
                self.unsize(t, to);
                let inner = match self.global(prov) {
                    Some(m) => self.decode(t, &m, addr as usize, depth + 1),
                    _ => J::O(vec![("z", self.ty(t))]),
                };
                J::O(vec![("dynref", inner), ("ct", self.ty(t))])
            }
            _ => match prov.map(GlobalAlloc::from) {
                Some(GlobalAlloc::Memory(m)) => J::O(vec![("ref", self.decode(to, &m, addr as usize, depth + 1))]),
                Some(GlobalAlloc::Static(s)) => match self.static_(&s) {
                    Some(m) => J::O(vec![("ref", self.decode(to, &m, addr as usize, depth + 1)), ("static", J::S(s.name()))]),
                    None => J::O(vec![("static", J::S(s.name()))]),
                },
                Some(_) => bad("ptr kind"),
                None => {
                    let zst = to.layout().map(|l| l.shape().size.bytes() == 0).unwrap_or(false);
                    if zst {
                        let e = Allocation { bytes: vec![], provenance: ProvenanceMap { ptrs: vec![] }, align: 1, mutability: Mutability::Not };
                        J::O(vec![("ref", self.decode(to, &e, 0, depth + 1))])
                    } else {
                        bad("dangling")
                    }
                }
            },
        }
    }

    /// Record the vtable of `t: dyn Trait` (with its supertraits' methods).
    fn unsize(&mut self, t: Ty, to_dyn: Ty) {
        let TyKind::RigidTy(RigidTy::Dynamic(preds, ..)) = to_dyn.kind() else { return };
        let mut work: Vec<(TraitDef, Vec<GenericArgKind>)> = vec![];
        for b in &preds {
            let ExistentialPredicate::Trait(tr) = &b.value else { continue };
            work.push((tr.def_id.clone(), tr.generic_args.0.clone()));
        }
        while let Some((def, targs)) = work.pop() {
            {
                let tcx = unsafe_tcx();
                let did = rustc_public::rustc_internal::internal(tcx, def.0);
                for (c, _) in tcx.explicit_super_clauses_of(did).skip_binder() {
                    if let Some(tc) = c.as_trait_clause() {
                        let tr = tc.skip_binder().trait_ref;
                        if tr.args.len() == 1 && tr.def_id != did && !tcx.trait_is_auto(tr.def_id) && Some(tr.def_id) != tcx.lang_items().sized_trait() {
                            let sd = rustc_public::rustc_internal::stable(tr.def_id);
                            work.push((TraitDef(sd), vec![]));
                        }
                    }
                }
            }
            let key = (ty_str(&t) + &format!("{:?}", t), def.name());
            if !self.vt_seen.insert(key) {
                continue;
            }
            let mut ms = vec![];
            for item in def.associated_items() {
                let AssocKind::Fn { .. } = item.kind else { continue };
                let fd = FnDef(item.def_id.0);
                // Methods with their own type parameters are not in the vtable.
                let mut ga = vec![GenericArgKind::Type(t)];
                ga.extend(targs.iter().cloned());
                let gen_ok = {
                    let g = fd.generics_count();
                    g
                };
                if let Some(n) = gen_ok {
                    if n.1 != ga.iter().filter(|x| matches!(x, GenericArgKind::Type(_))).count() {
                        continue;
                    }
                }
                let tcx = unsafe_tcx();
                let did = rustc_public::rustc_internal::internal(tcx, fd.0);
                if tcx.generics_require_sized_self(did) {
                    continue;
                }
                let r = Instance::resolve(fd, &GenericArgs(ga.clone()));
                if let Ok(inst) = r {
                    let nm = fd.name();
                    let k = self.instance(inst);
                    ms.push(J::A(vec![J::S(nm), k, J::S(inst.name())]));
                }
            }
            let tj = self.ty(t);
            self.vtables.push(J::O(vec![("ty", tj), ("trait", J::S(def.name())), ("m", J::A(ms))]));
        }
    }

    // ---- bodies ----
    fn place(&mut self, p: &Place) -> J {
        let mut v = vec![J::I(p.local as i128)];
        for e in &p.projection {
            v.push(match e {
                ProjectionElem::Deref => J::s("*"),
                ProjectionElem::Field(i, t) => J::A(vec![J::s("f"), J::I(*i as i128), self.ty(*t)]),
                ProjectionElem::Index(l) => J::A(vec![J::s("i"), J::I(*l as i128)]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    J::A(vec![J::s("c"), J::I(*offset as i128), J::I(*min_length as i128), J::B(*from_end)])
                }
                ProjectionElem::Subslice { from, to, from_end } => J::A(vec![J::s("s"), J::I(*from as i128), J::I(*to as i128), J::B(*from_end)]),
                ProjectionElem::Downcast(v) => J::A(vec![J::s("d"), J::I(v.to_index() as i128)]),
                o => J::A(vec![J::s("o"), J::S(format!("{o:?}"))]),
            });
        }
        J::A(v)
    }
    fn operand(&mut self, o: &Operand) -> J {
        match o {
            Operand::Copy(p) => J::A(vec![J::s("cp"), self.place(p)]),
            Operand::Move(p) => J::A(vec![J::s("mv"), self.place(p)]),
            Operand::Constant(c) => {
                let t = self.ty(c.const_.ty());
                J::A(vec![J::s("k"), self.const_val(&c.const_), t])
            }
            o => J::A(vec![J::s("?"), J::S(format!("{o:?}"))]),
        }
    }
    fn rvalue(&mut self, r: &Rvalue, locals: &[LocalDecl]) -> J {
        let s = J::s;
        match r {
            Rvalue::Use(o, ..) => J::A(vec![s("use"), self.operand(o)]),
            Rvalue::Ref(_, k, p) => J::A(vec![s("ref"), J::B(!matches!(k, BorrowKind::Shared)), self.place(p)]),
            Rvalue::AddressOf(_, p) => J::A(vec![s("addr"), self.place(p)]),
            Rvalue::BinaryOp(op, a, b) => J::A(vec![s("bin"), J::S(format!("{op:?}")), self.operand(a), self.operand(b)]),
            Rvalue::CheckedBinaryOp(op, a, b) => J::A(vec![s("cbin"), J::S(format!("{op:?}")), self.operand(a), self.operand(b)]),
            Rvalue::UnaryOp(op, a) => J::A(vec![s("un"), J::S(format!("{op:?}")), self.operand(a)]),
            Rvalue::Cast(k, o, t) => {
                if let CastKind::PointerCoercion(PointerCoercion::Unsize) = k {
                    if let Ok(from) = o.ty(locals) {
                        self.unsize_types(from, *t);
                    }
                }
                let ot = o.ty(locals).map(|t| self.ty(t)).unwrap_or(J::N);
                J::A(vec![s("cast"), J::S(format!("{k:?}")), self.operand(o), self.ty(*t), ot])
            }
            Rvalue::Discriminant(p) => J::A(vec![s("discr"), self.place(p)]),
            Rvalue::Len(p) => J::A(vec![s("len"), self.place(p)]),
            Rvalue::CopyForDeref(p) => {
                let p = self.place(p);
                J::A(vec![s("use"), J::A(vec![s("cp"), p])])
            }
            Rvalue::Repeat(o, c) => J::A(vec![s("rep"), self.operand(o), c.eval_target_usize().map(|x| J::I(x as i128)).unwrap_or(J::N)]),
            Rvalue::Aggregate(k, ops) => {
                let os = J::A(ops.iter().map(|o| self.operand(o)).collect());
                let k = match k {
                    AggregateKind::Array(t) => J::A(vec![s("arr"), self.ty(*t)]),
                    AggregateKind::Tuple => J::A(vec![s("tup")]),
                    AggregateKind::Adt(d, v, a, _, active) => {
                        let t = Ty::from_rigid_kind(RigidTy::Adt(*d, a.clone()));
                        J::A(vec![s("adt"), self.ty(t), J::I(v.to_index() as i128), active.map(|x| J::I(x as i128)).unwrap_or(J::N)])
                    }
                    AggregateKind::Closure(d, a) => {
                        let t = Ty::from_rigid_kind(RigidTy::Closure(*d, a.clone()));
                        J::A(vec![s("clo"), self.ty(t)])
                    }
                    o => J::A(vec![s("?"), J::S(format!("{o:?}"))]),
                };
                J::A(vec![s("agg"), k, os])
            }
            Rvalue::ThreadLocalRef(i) => J::A(vec![s("tls"), J::S(i.name())]),
            o => J::A(vec![s("?"), J::S(format!("{o:?}"))]),
        }
    }
    fn unsize_types(&mut self, from: Ty, to: Ty) {
        let inner = |t: Ty| match t.kind() {
            TyKind::RigidTy(RigidTy::Ref(_, t, _)) | TyKind::RigidTy(RigidTy::RawPtr(t, _)) => Some(t),
            TyKind::RigidTy(RigidTy::Adt(d, a)) if d.name().ends_with("Box") => a.0.iter().find_map(|g| if let GenericArgKind::Type(t) = g { Some(*t) } else { None }),
            _ => None,
        };
        if let (Some(f), Some(t)) = (inner(from), inner(to)) {
            self.unsize(f, t);
        }
    }
    fn term(&mut self, t: &Terminator, locals: &[LocalDecl]) -> J {
        let s = J::s;
        let sp = span_j(t.source_info.span);
        let k = match &t.kind {
            TerminatorKind::Goto { target } => vec![s("goto"), J::I(*target as i128)],
            TerminatorKind::SwitchInt { discr, targets } => {
                let dt = discr.ty(locals).map(|t| self.ty(t)).unwrap_or(J::N);
                vec![
                    s("switch"),
                    self.operand(discr),
                    J::A(targets.branches().map(|(v, b)| J::A(vec![J::I(v as i128), J::I(b as i128)])).collect()),
                    J::I(targets.otherwise() as i128),
                    dt,
                ]
            }
            TerminatorKind::Return => vec![s("ret")],
            TerminatorKind::Unreachable => vec![s("unreachable")],
            TerminatorKind::Resume => vec![s("resume")],
            TerminatorKind::Abort => vec![s("abort")],
            TerminatorKind::Drop { place, target, .. } => vec![s("drop"), self.place(place), J::I(*target as i128)],
            TerminatorKind::Call { func, args, destination, target, .. } => {
                let fty = func.ty(locals);
                let callee = match fty.map(|t| t.kind()) {
                    Ok(TyKind::RigidTy(RigidTy::FnDef(d, a))) => self.callee(d, &a),
                    _ => J::O(vec![("k", s("ptr")), ("op", self.operand(func))]),
                };
                let dt = destination.ty(locals).map(|t| self.ty(t)).unwrap_or(J::N);
                vec![
                    s("call"),
                    callee,
                    J::A(args.iter().map(|a| self.operand(a)).collect()),
                    self.place(destination),
                    target.map(|t| J::I(t as i128)).unwrap_or(J::N),
                    dt,
                ]
            }
            TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                vec![s("assert"), self.operand(cond), J::B(*expected), J::S(assert_name(msg)), J::I(*target as i128)]
            }
            o => vec![s("?"), J::S(format!("{o:?}"))],
        };
        J::O(vec![("k", J::A(k)), ("s", sp)])
    }
    fn body(&mut self, inst: &Instance, b: &Body) -> J {
        let locals = b.locals();
        let ls = locals.iter().map(|l| self.ty(l.ty)).collect();
        let mut blocks = vec![];
        for bb in &b.blocks {
            let mut st = vec![];
            for x in &bb.statements {
                match &x.kind {
                    StatementKind::Assign(p, r) => {
                        let pj = self.place(p);
                        let rj = self.rvalue(r, locals);
                        st.push(J::A(vec![J::s("="), pj, rj]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        st.push(J::A(vec![J::s("sd"), self.place(place), J::I(variant_index.to_index() as i128)]))
                    }
                    StatementKind::StorageDead(l) => st.push(J::A(vec![J::s("dead"), J::I(*l as i128)])),
                    StatementKind::Intrinsic(i) => st.push(J::A(vec![J::s("intr"), J::S(format!("{i:?}").split('(').next().unwrap().to_string())])),
                    _ => {}
                }
            }
            let t = self.term(&bb.terminator, locals);
            blocks.push(J::O(vec![("s", J::A(st)), ("t", t)]));
        }
        let names: Vec<J> = b
            .var_debug_info
            .iter()
            .filter_map(|v| match &v.value {
                VarDebugInfoContents::Place(p) if p.projection.is_empty() => Some(J::A(vec![J::I(p.local as i128), J::S(v.name.to_string())])),
                _ => None,
            })
            .collect();
        let spread = b.spread_arg().map(|l| J::I(l as i128)).unwrap_or(J::N);
        J::O(vec![
            ("key", J::S(inst.mangled_name())),
            ("name", J::S(inst.name())),
            ("def", J::S(inst.def.name())),
            ("crate", J::S(inst.def.krate().name)),
            ("shim", J::B(matches!(inst.kind, InstanceKind::Shim))),
            ("span", span_j(inst.def.span())),
            ("nargs", J::I(b.arg_locals().len() as i128)),
            ("spread", spread),
            ("locals", J::A(ls)),
            ("vars", J::A(names)),
            ("blocks", J::A(blocks)),
        ])
    }
}

fn unsized_tail(t: Ty) -> bool {
    match t.kind() {
        TyKind::RigidTy(RigidTy::Str | RigidTy::Slice(_)) => true,
        TyKind::RigidTy(RigidTy::Adt(d, ga)) if d.kind() == AdtKind::Struct => {
            let v = d.variants().into_iter().next().unwrap();
            v.fields().last().is_some_and(|f| unsized_tail(f.ty_with_args(&ga)))
        }
        _ => false,
    }
}
fn tag_size(tag: &rustc_public::abi::Scalar) -> usize {
    use rustc_public::abi::{IntegerLength, Primitive, Scalar};
    let p = match tag {
        Scalar::Initialized { value, .. } => value,
        Scalar::Union { value } => value,
    };
    match p {
        Primitive::Int { length, .. } => match length {
            IntegerLength::I8 => 1,
            IntegerLength::I16 => 2,
            IntegerLength::I32 => 4,
            IntegerLength::I64 => 8,
            IntegerLength::I128 => 16,
        },
        Primitive::Float { .. } => 8,
        Primitive::Pointer(_) => 8,
    }
}
fn assert_name(m: &AssertMessage) -> String {
    match m {
        AssertMessage::BoundsCheck { .. } => "BoundsCheck".into(),
        AssertMessage::Overflow(op, ..) => format!("Overflow({op:?})"),
        o => format!("{o:?}").split(|c| c == '(' || c == ' ').next().unwrap().to_string(),
    }
}

trait GenericsCount {
    fn generics_count(&self) -> Option<(usize, usize)>;
}
impl GenericsCount for FnDef {
    /// (all, types) parameters including the trait's Self.
    fn generics_count(&self) -> Option<(usize, usize)> {
        let (mut all, mut tys) = (0, 0);
        let tcx_generics = rustc_public::rustc_internal::internal(unsafe_tcx(), self.0);
        let tcx = unsafe_tcx();
        let mut g = Some(tcx.generics_of(tcx_generics));
        while let Some(x) = g {
            all += x.own_params.len();
            tys += x.own_params.iter().filter(|p| matches!(p.kind, rustc_middle::ty::GenericParamDefKind::Type { .. })).count();
            g = x.parent.map(|p| tcx.generics_of(p));
        }
        Some((all, tys))
    }
}
fn unsafe_tcx<'a>() -> rustc_middle::ty::TyCtxt<'a> {
    rustc_middle::ty::tls::with(|t| unsafe { std::mem::transmute::<rustc_middle::ty::TyCtxt<'_>, rustc_middle::ty::TyCtxt<'a>>(t) })
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // As a RUSTC_WRAPPER the first argument is the real rustc.
    let mut real = "rustc".to_string();
    if args.len() > 1 && args[1].ends_with("rustc") {
        real = args.remove(1);
    }
    let out = std::env::var("MIRDUMP_OUT").ok();
    let krate = args.windows(2).find(|w| w[0] == "--crate-name").map(|w| w[1].clone()).unwrap_or_default();
    let want = out.is_some() && std::env::var("MIRDUMP_CRATE").map(|c| c.split(',').any(|x| x == krate)).unwrap_or(false);
    if !want {
        use std::os::unix::process::CommandExt;
        let e = std::process::Command::new(real).args(&args[1..]).exec();
        panic!("cannot run rustc: {e}");
    }
    let r = rustc_public::run!(&args, || -> ControlFlow<()> {
        dump(out.as_ref().unwrap());
        ControlFlow::Continue(())
    });
    std::process::exit(if r.is_ok() { 0 } else { 1 });
}
fn dump(out: &str) {
    let mut cx = Cx {
        types: HashMap::new(),
        type_out: vec![],
        seen: HashSet::new(),
        queue: VecDeque::new(),
        fns: vec![],
        opaque: vec![],
        local_crate: rustc_public::local_crate().name,
        vt_seen: HashSet::new(),
        vtables: vec![],
        statics: HashMap::new(),
    };
    let mut items = vec![];
    for it in rustc_public::all_local_items() {
        items.push(J::A(vec![J::S(it.name()), J::S(format!("{:?}", it.kind()))]));
        if !matches!(it.kind(), rustc_public::ItemKind::Fn) {
            continue;
        }
        if let Ok(i) = Instance::try_from(it) {
            cx.instance(i);
        }
    }
    while let Some(inst) = cx.queue.pop_front() {
        if cx.want_body(&inst) {
            if std::env::var("MIRDUMP_TRACE").is_ok() {
                eprintln!("body {}", inst.name());
            }
            if let Some(b) = inst.body() {
                let j = cx.body(&inst, &b);
                cx.fns.push(j);
                continue;
            }
        }
        let j = J::O(vec![
            ("key", J::S(inst.mangled_name())),
            ("name", J::S(inst.name())),
            ("def", J::S(inst.def.name())),
            ("crate", J::S(inst.def.krate().name)),
        ]);
        cx.opaque.push(j);
    }
    let j = J::O(vec![
        ("crate", J::S(cx.local_crate.clone())),
        ("items", J::A(items)),
        ("types", J::A(cx.type_out)),
        ("vtables", J::A(cx.vtables)),
        ("statics", J::A(cx.statics.into_values().collect())),
        ("fns", J::A(cx.fns)),
        ("opaque", J::A(cx.opaque)),
    ]);
    let mut s = String::new();
    j.write(&mut s);
    std::fs::write(out, s).unwrap();
}
