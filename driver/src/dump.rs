use rustc_public::abi::{FieldsShape, TagEncoding, VariantsShape};
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind, StaticDef};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType, ItemKind};
use rustc_public_bridge::IndexedVal;
use std::collections::HashMap;
use std::fmt::Write;

pub fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn arr<I: IntoIterator<Item = String>>(it: I) -> String {
    let v: Vec<String> = it.into_iter().collect();
    format!("[{}]", v.join(","))
}

/// Bodies of functions below these path prefixes are not dumped; the analyser
/// models them (or treats them as opaque).
const STOP: &[&str] = &[
    "core::fmt::", "std::fmt::", "alloc::fmt::", "core::panicking::", "std::panicking::",
    "std::rt::", "std::io::", "std::sys::", "std::thread::", "std::sync::", "std::time::",
    "std::collections::", "std::hash::", "std::env::", "std::process::", "std::fs::",
    "alloc::raw_vec::", "alloc::alloc::", "alloc::string::", "alloc::str::", "core::str::",
    "matrixmultiply::", "rand::", "rand_core::", "rand_distr::", "rand_chacha::", "getrandom::",
    "core::unicode::", "core::char::", "std::alloc::", "alloc::sync::", "core::num::flt2dec",
    "core::num::dec2flt", "std::backtrace", "std::thread_local", "core::slice::index::slice_",
    "core::intrinsics::", "std::sys_common", "std::os::",
];

struct Dumper {
    types: HashMap<Ty, usize>,
    type_json: Vec<String>,
    fns: HashMap<String, usize>,
    fn_json: Vec<Option<String>>,
    queue: Vec<(usize, Instance)>,
    statics: HashMap<String, Option<String>>,
}

pub fn dump_crate() -> String {
    let mut d = Dumper {
        types: HashMap::new(),
        type_json: vec![],
        fns: HashMap::new(),
        fn_json: vec![],
        queue: vec![],
        statics: HashMap::new(),
    };
    let mut roots = vec![];
    for item in rustc_public::all_local_items() {
        if !matches!(item.kind(), ItemKind::Fn) || item.requires_monomorphization() {
            continue;
        }
        if let Ok(inst) = Instance::try_from(item) {
            let id = d.inst(inst);
            roots.push(format!("{}:{}", js(&item.name().to_string()), id));
        }
    }
    while let Some((id, inst)) = d.queue.pop() {
        let s = d.func(inst);
        d.fn_json[id] = Some(s);
    }
    let facts = d.facts();
    while let Some((id, inst)) = d.queue.pop() {
        let s = d.func(inst);
        d.fn_json[id] = Some(s);
    }
    let mut out = String::new();
    out.push_str("{\"roots\":{");
    out.push_str(&roots.join(","));
    out.push_str("},\n\"types\":[\n");
    out.push_str(&d.type_json.join(",\n"));
    out.push_str("],\n\"fns\":[\n");
    let f: Vec<String> = d.fn_json.into_iter().map(|x| x.unwrap_or("null".into())).collect();
    out.push_str(&f.join(",\n"));
    out.push_str("],\n\"statics\":{");
    let mut st: Vec<String> = d
        .statics
        .iter()
        .filter_map(|(k, v)| v.as_ref().map(|v| format!("{}:{}", js(k), v)))
        .collect();
    st.sort();
    out.push_str(&st.join(",\n"));
    out.push_str("},\n\"facts\":");
    out.push_str(&facts);
    out.push_str("}\n");
    out
}

fn span_str(sp: Span) -> String {
    let l = sp.get_lines();
    format!("{}:{}", sp.get_filename(), l.start_line)
}

impl Dumper {
    fn inst(&mut self, inst: Instance) -> usize {
        let key = format!("{}|{:?}", inst.mangled_name(), matches!(inst.kind, InstanceKind::Shim));
        // A shim may share its mangled name with the item: include the kind and the type.
        let key = format!("{}|{}", key, inst.ty());
        if let Some(i) = self.fns.get(&key) {
            return *i;
        }
        let i = self.fn_json.len();
        self.fns.insert(key, i);
        self.fn_json.push(None);
        self.queue.push((i, inst));
        i
    }

    fn func(&mut self, inst: Instance) -> String {
        let path = inst.def.name().to_string();
        let kind = match inst.kind {
            InstanceKind::Item => "item",
            InstanceKind::Intrinsic => "intrinsic",
            InstanceKind::Virtual { .. } => "virtual",
            InstanceKind::LlvmIntrinsic => "intrinsic",
            InstanceKind::Shim => "shim",
        };
        let mut o = String::new();
        let targs: Vec<String> = inst
            .args()
            .0
            .iter()
            .map(|a| match a {
                GenericArgKind::Type(t) => format!("{}", self.ty(*t)),
                GenericArgKind::Const(c) => match c.eval_target_usize() {
                    Ok(n) => format!("\"c{}\"", n),
                    Err(_) => "\"c?\"".to_string(),
                },
                GenericArgKind::Lifetime(_) => "\"l\"".to_string(),
            })
            .collect();
        let intr = inst.intrinsic_name().map(|s| s.to_string());
        let _ = write!(
            o,
            "{{\"path\":{},\"name\":{},\"kind\":{},\"krate\":{},\"span\":{},\"targs\":[{}],\"intr\":{}",
            js(&path),
            js(&inst.name().to_string()),
            js(kind),
            js(&inst.def.krate().name.to_string()),
            js(&span_str(inst.def.span())),
            targs.join(","),
            intr.map(|s| js(&s)).unwrap_or("null".into())
        );
        let _ = write!(o, ",\"empty\":{}", inst.is_empty_shim());
        if kind == "shim" && path.ends_with("FnOnce::call_once") {
            if let Some(GenericArgKind::Type(t)) = inst.args().0.first() {
                if let TyKind::RigidTy(RigidTy::Closure(def, args)) = t.kind() {
                    if let Ok(i) = Instance::resolve_closure(def, &args, ClosureKind::Fn) {
                        let _ = write!(o, ",\"closure\":{}", self.inst(i));
                    }
                }
            }
        }
        let stop = STOP.iter().any(|p| path.starts_with(p) || path.starts_with(&format!("<{}", p)))
            && !path.starts_with("core::intrinsics::")
            && !["std::sync::atomic::", "std::thread::LocalKey", "std::thread::local_impl", "std::sys::thread_local::", "rand::Rng::sample", "rand::rng::Rng::sample"]
                .iter()
                .any(|p| path.starts_with(p) || path.starts_with(&format!("<{}", p)))
            && !path.contains("rand_distr::num_traits::")
            || kind == "intrinsic"
            || kind == "virtual";
        if !stop && inst.has_body() {
            if let Some(body) = inst.body() {
                self.body(&mut o, &body);
            }
        }
        o.push('}');
        o
    }

    fn body(&mut self, o: &mut String, body: &Body) {
        let n = body.arg_locals().len();
        let locals: Vec<String> = body.locals().iter().map(|l| format!("{}", self.ty(l.ty))).collect();
        let _ = write!(o, ",\"argc\":{},\"locals\":[{}]", n, locals.join(","));
        if let Some(s) = body.spread_arg() {
            let _ = write!(o, ",\"spread\":{}", s);
        }
        o.push_str(",\"blocks\":[");
        for (bi, b) in body.blocks.iter().enumerate() {
            if bi > 0 {
                o.push(',');
            }
            o.push_str("{\"s\":[");
            let mut first = true;
            for s in &b.statements {
                let t = self.stmt(body, s);
                if let Some(t) = t {
                    if !first {
                        o.push(',');
                    }
                    first = false;
                    o.push_str(&t);
                }
            }
            o.push_str("],\"t\":");
            let t = self.term(body, &b.terminator);
            o.push_str(&t);
            let _ = write!(o, ",\"l\":{}", js(&span_str(b.terminator.source_info.span)));
            o.push('}');
        }
        o.push(']');
    }

    fn stmt(&mut self, body: &Body, s: &Statement) -> Option<String> {
        match &s.kind {
            StatementKind::Assign(p, r) => {
                let p = self.place(p);
                let r = self.rvalue(body, r);
                Some(format!("[\"=\",{},{}]", p, r))
            }
            StatementKind::SetDiscriminant { place, variant_index } => Some(format!(
                "[\"setdiscr\",{},{}]",
                self.place(place),
                variant_index.to_index()
            )),
            StatementKind::Intrinsic(NonDivergingIntrinsic::Assume(op)) => {
                Some(format!("[\"assume\",{}]", self.operand(op)))
            }
            StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(c)) => Some(format!(
                "[\"copynonoverlapping\",{},{},{}]",
                self.operand(&c.src),
                self.operand(&c.dst),
                self.operand(&c.count)
            )),
            StatementKind::StorageDead(l) => Some(format!("[\"dead\",{}]", l)),
            _ => None,
        }
    }

    fn term(&mut self, body: &Body, t: &Terminator) -> String {
        match &t.kind {
            TerminatorKind::Goto { target } => format!("[\"goto\",{}]", target),
            TerminatorKind::SwitchInt { discr, targets } => {
                let b: Vec<String> =
                    targets.branches().map(|(v, t)| format!("[\"{}\",{}]", v, t)).collect();
                let ty = discr.ty(body.locals()).unwrap();
                format!(
                    "[\"switch\",{},[{}],{},{}]",
                    self.operand(discr),
                    b.join(","),
                    targets.otherwise(),
                    self.ty(ty)
                )
            }
            TerminatorKind::Resume => "[\"resume\"]".into(),
            TerminatorKind::Abort => "[\"abort\"]".into(),
            TerminatorKind::Return => "[\"return\"]".into(),
            TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
            TerminatorKind::Drop { place, target, .. } => {
                let ty = place.ty(body.locals()).unwrap();
                let di = Instance::resolve_drop_in_place(ty);
                let f = if di.is_empty_shim() { "null".to_string() } else { format!("{}", self.inst(di)) };
                format!("[\"drop\",{},{},{},{}]", self.place(place), target, f, self.ty(ty))
            }
            TerminatorKind::Call { func, args, destination, target, .. } => {
                let fty = func.ty(body.locals()).unwrap();
                let callee = match fty.kind() {
                    TyKind::RigidTy(RigidTy::FnDef(def, gargs)) => match Instance::resolve(def, &gargs) {
                        Ok(i) => format!("{}", self.inst(i)),
                        Err(_) => format!("[\"unresolved\",{}]", js(&def.name().to_string())),
                    },
                    _ => format!("[\"ptr\",{}]", self.operand(func)),
                };
                let a = arr(args.iter().map(|x| self.operand(x)));
                let dty = destination.ty(body.locals()).unwrap();
                format!(
                    "[\"call\",{},{},{},{},{}]",
                    callee,
                    a,
                    self.place(destination),
                    target.map(|t| t.to_string()).unwrap_or("null".into()),
                    self.ty(dty)
                )
            }
            TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                let kind = match msg {
                    AssertMessage::BoundsCheck { .. } => "bounds",
                    AssertMessage::Overflow(BinOp::Div | BinOp::Rem, ..) => "divovf",
                    AssertMessage::Overflow(..) | AssertMessage::OverflowNeg(_) => "overflow",
                    AssertMessage::DivisionByZero(_) | AssertMessage::RemainderByZero(_) => "divzero",
                    AssertMessage::MisalignedPointerDereference { .. } => "align",
                    AssertMessage::NullPointerDereference
                    | AssertMessage::NullReferenceConstructed => "null",
                    _ => "other",
                };
                format!("[\"assert\",{},{},{},{}]", self.operand(cond), expected, js(kind), target)
            }
            TerminatorKind::InlineAsm { .. } => "[\"asm\"]".into(),
        }
    }

    /// a static: recorded once with its type and its initial contents
    fn static_(&mut self, s: StaticDef) -> String {
        let name = s.name().to_string();
        if !self.statics.contains_key(&name) {
            self.statics.insert(name.clone(), None);
            let init = match s.eval_initializer() {
                Ok(a) => self.decode(&a, 0, s.ty(), 0),
                Err(_) => "{\"opaque\":\"static\"}".into(),
            };
            let v = format!("[{},{}]", self.ty(s.ty()), init);
            self.statics.insert(name.clone(), Some(v));
        }
        format!("{{\"static\":{}}}", js(&name))
    }

    fn rvalue(&mut self, body: &Body, r: &Rvalue) -> String {
        match r {
            Rvalue::AddressOf(k, p) => {
                format!("[\"addr\",{},{}]", self.place(p), !matches!(k, RawPtrKind::Const))
            }
            Rvalue::Ref(_, bk, p) => {
                format!("[\"ref\",{},{}]", self.place(p), matches!(bk, BorrowKind::Mut { .. }))
            }
            Rvalue::Aggregate(k, ops) => {
                let o = arr(ops.iter().map(|x| self.operand(x)));
                let ty = r.ty(body.locals()).unwrap();
                let t = self.ty(ty);
                match k {
                    AggregateKind::Array(_) => format!("[\"array\",{},{}]", t, o),
                    AggregateKind::Tuple => format!("[\"tuple\",{},{}]", t, o),
                    AggregateKind::Adt(def, v, _, _, fi) => format!(
                        "[\"adt\",{},{},{},{},{}]",
                        t,
                        o,
                        v.to_index(),
                        js(match def.kind() {
                            AdtKind::Enum => "enum",
                            AdtKind::Struct => "struct",
                            AdtKind::Union => "union",
                        }),
                        fi.map(|f| f.to_string()).unwrap_or("null".into())
                    ),
                    AggregateKind::Closure(..) => format!("[\"closure\",{},{}]", t, o),
                    AggregateKind::RawPtr(..) => format!("[\"rawptr\",{},{}]", t, o),
                    _ => format!("[\"unsupported\",{}]", js("aggregate")),
                }
            }
            Rvalue::BinaryOp(op, a, b) => {
                let ta = a.ty(body.locals()).unwrap();
                let tb = b.ty(body.locals()).unwrap();
                format!(
                    "[\"bin\",{},{},{},{},{}]",
                    js(&format!("{:?}", op)),
                    self.operand(a),
                    self.operand(b),
                    self.ty(ta),
                    self.ty(tb)
                )
            }
            Rvalue::CheckedBinaryOp(op, a, b) => {
                let ta = a.ty(body.locals()).unwrap();
                let tb = b.ty(body.locals()).unwrap();
                format!(
                    "[\"cbin\",{},{},{},{},{}]",
                    js(&format!("{:?}", op)),
                    self.operand(a),
                    self.operand(b),
                    self.ty(ta),
                    self.ty(tb)
                )
            }
            Rvalue::Cast(k, op, ty) => {
                let from = op.ty(body.locals()).unwrap();
                format!(
                    "[\"cast\",{},{},{},{}]",
                    js(&format!("{:?}", k)),
                    self.operand(op),
                    self.ty(from),
                    self.ty(*ty)
                )
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"cp\",{}]]", self.place(p)),
            Rvalue::Discriminant(p) => {
                let ty = p.ty(body.locals()).unwrap();
                format!("[\"discr\",{},{}]", self.place(p), self.ty(ty))
            }
            Rvalue::Len(p) => format!("[\"len\",{}]", self.place(p)),
            Rvalue::Repeat(op, n) => {
                let ty = r.ty(body.locals()).unwrap();
                format!(
                    "[\"repeat\",{},{},{}]",
                    self.operand(op),
                    n.eval_target_usize().map(|x| x.to_string()).unwrap_or("null".into()),
                    self.ty(ty)
                )
            }
            Rvalue::UnaryOp(op, a) => {
                let ta = a.ty(body.locals()).unwrap();
                format!("[\"un\",{},{},{}]", js(&format!("{:?}", op)), self.operand(a), self.ty(ta))
            }
            Rvalue::Use(op, _) => format!("[\"use\",{}]", self.operand(op)),
            Rvalue::ThreadLocalRef(i) => match (StaticDef::try_from(*i), r.ty(body.locals())) {
                (Ok(s), Ok(t)) => format!("[\"use\",[\"c\",{},{}]]", self.ty(t), self.static_(s)),
                _ => "[\"unsupported\",\"threadlocal\"]".into(),
            },
            Rvalue::Reborrow(_, m, p) => {
                format!("[\"ref\",{},{}]", self.place(p), matches!(m, Mutability::Mut))
            }
        }
    }

    fn operand(&mut self, o: &Operand) -> String {
        match o {
            Operand::Copy(p) => format!("[\"cp\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"mv\",{}]", self.place(p)),
            Operand::RuntimeChecks(c) => format!("[\"rt\",{}]", js(&format!("{:?}", c))),
            Operand::Constant(c) => {
                let ty = c.ty();
                format!("[\"c\",{},{}]", self.ty(ty), self.constant(&c.const_))
            }
        }
    }

    fn constant(&mut self, c: &MirConst) -> String {
        let ty = c.ty();
        match c.kind() {
            ConstantKind::Allocated(a) => self.decode(a, 0, ty, 0),
            ConstantKind::ZeroSized => self.decode_zst(ty),
            ConstantKind::Ty(t) => match t.eval_target_usize() {
                Ok(n) => format!("{{\"i\":\"{}\"}}", n),
                Err(_) => match t.kind() {
                    TyConstKind::Value(vty, a) => self.decode(a, 0, *vty, 0),
                    TyConstKind::ZSTValue(t) => self.decode_zst(*t),
                    _ => "{\"opaque\":\"tyconst\"}".into(),
                },
            },
            _ => "{\"opaque\":\"const\"}".into(),
        }
    }

    fn decode_zst(&mut self, ty: Ty) -> String {
        match ty.kind() {
            TyKind::RigidTy(RigidTy::Tuple(ts)) => {
                format!("{{\"agg\":{}}}", arr(ts.iter().map(|t| self.decode_zst(*t))))
            }
            TyKind::RigidTy(RigidTy::Adt(def, args)) if def.kind() == AdtKind::Struct => {
                let fs = def.variants()[0].fields();
                format!("{{\"agg\":{}}}", arr(fs.iter().map(|f| self.decode_zst(f.ty_with_args(&args)))))
            }
            TyKind::RigidTy(RigidTy::Array(..)) => "{\"arr\":[]}".into(),
            _ => "{\"zst\":1}".into(),
        }
    }

    fn uint(a: &Allocation, off: usize, n: usize) -> Option<u128> {
        if off + n > a.bytes.len() {
            return None;
        }
        let mut v: u128 = 0;
        for i in 0..n {
            v |= (a.bytes[off + i]? as u128) << (8 * i);
        }
        Some(v)
    }

    fn decode(&mut self, a: &Allocation, off: usize, ty: Ty, depth: usize) -> String {
        if depth > 12 {
            return "{\"opaque\":\"deep\"}".into();
        }
        let num = |n: usize| match Self::uint(a, off, n) {
            Some(v) => format!("{{\"i\":\"{}\"}}", v),
            None => "{\"undef\":1}".to_string(),
        };
        let kind = ty.kind();
        let TyKind::RigidTy(rt) = &kind else {
            return "{\"opaque\":\"nonrigid\"}".into();
        };
        match rt {
            RigidTy::Bool => num(1),
            RigidTy::Char => num(4),
            RigidTy::Int(i) => num(i.num_bytes()),
            RigidTy::Uint(i) => num(i.num_bytes()),
            RigidTy::Float(FloatTy::F32) => num(4),
            RigidTy::Float(FloatTy::F64) => num(8),
            RigidTy::Float(FloatTy::F16) => num(2),
            RigidTy::Float(FloatTy::F128) => num(16),
            RigidTy::Pat(t, _) => self.decode(a, off, *t, depth + 1),
            RigidTy::Tuple(ts) => {
                let Ok(l) = ty.layout() else { return "{\"opaque\":\"layout\"}".into() };
                match l.shape().fields {
                    FieldsShape::Arbitrary { offsets } => format!(
                        "{{\"agg\":{}}}",
                        arr(ts.iter().enumerate().map(|(i, t)| self.decode(
                            a,
                            off + offsets[i].bytes(),
                            *t,
                            depth + 1
                        )))
                    ),
                    _ => self.decode_zst(ty),
                }
            }
            RigidTy::Array(t, n) => {
                let n = n.eval_target_usize().unwrap_or(0) as usize;
                let sz = t.layout().map(|l| l.shape().size.bytes()).unwrap_or(0);
                if n > 4096 {
                    return "{\"opaque\":\"bigarray\"}".into();
                }
                format!(
                    "{{\"arr\":{}}}",
                    arr((0..n).map(|i| self.decode(a, off + i * sz, *t, depth + 1)))
                )
            }
            RigidTy::Adt(def, args) => {
                let Ok(l) = ty.layout() else { return "{\"opaque\":\"layout\"}".into() };
                let sh = l.shape();
                match def.kind() {
                    AdtKind::Struct => {
                        let fs = def.variants()[0].fields();
                        match &sh.fields {
                            FieldsShape::Arbitrary { offsets } => format!(
                                "{{\"agg\":{}}}",
                                arr(fs.iter().enumerate().map(|(i, f)| self.decode(
                                    a,
                                    off + offsets[i].bytes(),
                                    f.ty_with_args(args),
                                    depth + 1
                                )))
                            ),
                            _ => self.decode_zst(ty),
                        }
                    }
                    AdtKind::Enum => match &sh.variants {
                        VariantsShape::Single { index } => {
                            let fs = def.variants()[index.to_index()].fields();
                            let offsets = match &sh.fields {
                                FieldsShape::Arbitrary { offsets } => offsets.clone(),
                                _ => vec![],
                            };
                            format!(
                                "{{\"enum\":{},\"f\":{}}}",
                                index.to_index(),
                                arr(fs.iter().enumerate().map(|(i, f)| self.decode(
                                    a,
                                    off + offsets.get(i).map(|o| o.bytes()).unwrap_or(0),
                                    f.ty_with_args(args),
                                    depth + 1
                                )))
                            )
                        }
                        VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                            let tsize = match tag {
                                rustc_public::abi::Scalar::Initialized { value, .. }
                                | rustc_public::abi::Scalar::Union { value } => {
                                    value.size(&rustc_public::target::MachineInfo::target()).bytes()
                                }
                            };
                            let toff = match &sh.fields {
                                FieldsShape::Arbitrary { offsets } => offsets[*tag_field].bytes(),
                                _ => 0,
                            };
                            let has_prov = a
                                .provenance
                                .ptrs
                                .iter()
                                .any(|(o, _)| *o == off + toff);
                            let tagv = Self::uint(a, off + toff, tsize);
                            let vi: Option<usize> = match (tag_encoding, tagv) {
                                (TagEncoding::Direct, Some(v)) => {
                                    let mask: u128 = if tsize >= 16 { u128::MAX } else { (1u128 << (8 * tsize)) - 1 };
                                    (0..def.num_variants()).find(|i| {
                                        def.discriminant_for_variant(VariantIdx::to_val(*i)).val & mask == v
                                    })
                                }
                                (TagEncoding::Niche { untagged_variant, niche_variants, niche_start }, Some(v)) => {
                                    if has_prov {
                                        Some(untagged_variant.to_index())
                                    } else {
                                        let lo = niche_variants.start().to_index();
                                        let hi = niche_variants.end().to_index();
                                        let mask: u128 = if tsize >= 16 { u128::MAX } else { (1u128 << (8 * tsize)) - 1 };
                                        let rel = v.wrapping_sub(*niche_start) & mask;
                                        if rel <= (hi - lo) as u128 {
                                            Some(lo + rel as usize)
                                        } else {
                                            Some(untagged_variant.to_index())
                                        }
                                    }
                                }
                                (_, None) => None,
                            };
                            match vi {
                                None => "{\"opaque\":\"enumtag\"}".into(),
                                Some(vi) => {
                                    let fs = def.variants()[vi].fields();
                                    let offs = variants[vi].offsets.clone();
                                    format!(
                                        "{{\"enum\":{},\"f\":{}}}",
                                        vi,
                                        arr(fs.iter().enumerate().map(|(i, f)| self.decode(
                                            a,
                                            off + offs[i].bytes(),
                                            f.ty_with_args(args),
                                            depth + 1
                                        )))
                                    )
                                }
                            }
                        }
                        VariantsShape::Empty => "{\"opaque\":\"empty\"}".into(),
                    },
                    AdtKind::Union => "{\"opaque\":\"union\"}".into(),
                }
            }
            RigidTy::RawPtr(t, _) | RigidTy::Ref(_, t, _) => {
                let prov = a.provenance.ptrs.iter().find(|(o, _)| *o == off).map(|(_, p)| p.0);
                let addend = Self::uint(a, off, 8).unwrap_or(0) as usize;
                let Some(id) = prov else {
                    return format!("{{\"addr\":\"{}\"}}", addend);
                };
                match GlobalAlloc::from(id) {
                    GlobalAlloc::Memory(m) => match t.kind() {
                        TyKind::RigidTy(RigidTy::Str) => {
                            let len = Self::uint(a, off + 8, 8).unwrap_or(0) as usize;
                            let bytes: Vec<u8> =
                                m.bytes.iter().skip(addend).take(len).map(|b| b.unwrap_or(0)).collect();
                            format!("{{\"str\":{}}}", js(&String::from_utf8_lossy(&bytes)))
                        }
                        TyKind::RigidTy(RigidTy::Slice(e)) => {
                            let len = Self::uint(a, off + 8, 8).unwrap_or(0) as usize;
                            let sz = e.layout().map(|l| l.shape().size.bytes()).unwrap_or(0);
                            if len > 1024 {
                                return "{\"opaque\":\"bigslice\"}".into();
                            }
                            format!(
                                "{{\"refslice\":{}}}",
                                arr((0..len).map(|i| self.decode(&m, addend + i * sz, e, depth + 1)))
                            )
                        }
                        TyKind::RigidTy(RigidTy::Dynamic(..)) => "{\"opaque\":\"dyn\"}".into(),
                        _ => format!("{{\"ref\":{}}}", self.decode(&m, addend, *t, depth + 1)),
                    },
                    GlobalAlloc::Static(s) => self.static_(s),
                    GlobalAlloc::Function(i) => format!("{{\"fn\":{}}}", self.inst(i)),
                    _ => "{\"opaque\":\"alloc\"}".into(),
                }
            }
            RigidTy::FnPtr(_) => {
                let prov = a.provenance.ptrs.iter().find(|(o, _)| *o == off).map(|(_, p)| p.0);
                match prov.map(GlobalAlloc::from) {
                    Some(GlobalAlloc::Function(i)) => format!("{{\"fn\":{}}}", self.inst(i)),
                    _ => "{\"opaque\":\"fnptr\"}".into(),
                }
            }
            RigidTy::FnDef(..) | RigidTy::Closure(..) | RigidTy::Never => "{\"zst\":1}".into(),
            _ => "{\"opaque\":\"kind\"}".into(),
        }
    }

    fn place(&mut self, p: &Place) -> String {
        let mut v = vec![];
        for e in &p.projection {
            v.push(match e {
                ProjectionElem::Deref => "[\"*\"]".to_string(),
                ProjectionElem::Field(i, t) => format!("[\"f\",{},{}]", i, self.ty(*t)),
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    format!("[\"ci\",{},{},{}]", offset, min_length, from_end)
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    format!("[\"sub\",{},{},{}]", from, to, from_end)
                }
                ProjectionElem::Downcast(v) => format!("[\"d\",{}]", v.to_index()),
                ProjectionElem::OpaqueCast(_) => "[\"oc\"]".to_string(),
            });
        }
        format!("[{},[{}]]", p.local, v.join(","))
    }

    fn ty(&mut self, t: Ty) -> usize {
        if let Some(i) = self.types.get(&t) {
            return *i;
        }
        let i = self.type_json.len();
        self.types.insert(t, i);
        self.type_json.push(String::new());
        let size = match t.layout() {
            Ok(l) => {
                let sh = l.shape();
                if sh.is_sized() { sh.size.bytes().to_string() } else { "null".into() }
            }
            Err(_) => "null".into(),
        };
        let body = match t.kind() {
            TyKind::RigidTy(rt) => match rt {
                RigidTy::Bool => "\"k\":\"bool\"".into(),
                RigidTy::Char => "\"k\":\"char\"".into(),
                RigidTy::Int(x) => format!("\"k\":\"int\",\"bits\":{},\"signed\":true", x.num_bytes() * 8),
                RigidTy::Uint(x) => format!("\"k\":\"int\",\"bits\":{},\"signed\":false", x.num_bytes() * 8),
                RigidTy::Float(f) => format!(
                    "\"k\":\"float\",\"bits\":{}",
                    match f {
                        FloatTy::F16 => 16,
                        FloatTy::F32 => 32,
                        FloatTy::F64 => 64,
                        FloatTy::F128 => 128,
                    }
                ),
                RigidTy::Adt(def, args) => {
                    let mut vs = vec![];
                    for (vi, v) in def.variants().iter().enumerate() {
                        let fs: Vec<String> = v
                            .fields()
                            .iter()
                            .map(|f| format!("[{},{}]", js(&f.name.to_string()), self.ty(f.ty_with_args(&args))))
                            .collect();
                        let d = if def.kind() == AdtKind::Enum {
                            def.discriminant_for_variant(VariantIdx::to_val(vi)).val.to_string()
                        } else {
                            "0".into()
                        };
                        vs.push(format!("{{\"n\":{},\"d\":\"{}\",\"f\":[{}]}}", js(&v.name().to_string()), d, fs.join(",")));
                    }
                    let ta: Vec<String> = args
                        .0
                        .iter()
                        .filter_map(|a| a.ty().map(|t| self.ty(*t).to_string()))
                        .collect();
                    format!(
                        "\"k\":\"adt\",\"adt\":{},\"path\":{},\"targs\":[{}],\"v\":[{}]",
                        js(match def.kind() {
                            AdtKind::Enum => "enum",
                            AdtKind::Struct => "struct",
                            AdtKind::Union => "union",
                        }),
                        js(&def.name().to_string()),
                        ta.join(","),
                        vs.join(",")
                    )
                }
                RigidTy::Str => "\"k\":\"str\"".into(),
                RigidTy::Array(e, n) => format!(
                    "\"k\":\"array\",\"e\":{},\"n\":{}",
                    self.ty(e),
                    n.eval_target_usize().map(|x| x.to_string()).unwrap_or("null".into())
                ),
                RigidTy::Pat(e, _) => format!("\"k\":\"pat\",\"e\":{}", self.ty(e)),
                RigidTy::Slice(e) => format!("\"k\":\"slice\",\"e\":{}", self.ty(e)),
                RigidTy::RawPtr(e, m) => {
                    format!("\"k\":\"ptr\",\"e\":{},\"mut\":{}", self.ty(e), m == Mutability::Mut)
                }
                RigidTy::Ref(_, e, m) => {
                    format!("\"k\":\"ref\",\"e\":{},\"mut\":{}", self.ty(e), m == Mutability::Mut)
                }
                RigidTy::FnDef(def, args) => {
                    let r = match Instance::resolve(def, &args) {
                        Ok(i) => self.inst(i).to_string(),
                        Err(_) => "null".into(),
                    };
                    format!("\"k\":\"fndef\",\"fn\":{},\"path\":{}", r, js(&def.name().to_string()))
                }
                RigidTy::FnPtr(_) => "\"k\":\"fnptr\"".into(),
                RigidTy::Closure(def, args) => {
                    let ups = match args.0.last() {
                        Some(GenericArgKind::Type(t)) => match t.kind() {
                            TyKind::RigidTy(RigidTy::Tuple(ts)) => {
                                ts.iter().map(|t| self.ty(*t).to_string()).collect::<Vec<_>>()
                            }
                            _ => vec![],
                        },
                        _ => vec![],
                    };
                    format!("\"k\":\"closure\",\"path\":{},\"f\":[{}]", js(&def.name().to_string()), ups.join(","))
                }
                RigidTy::Dynamic(..) => "\"k\":\"dyn\"".into(),
                RigidTy::Never => "\"k\":\"never\"".into(),
                RigidTy::Tuple(ts) => {
                    let v: Vec<String> = ts.iter().map(|t| self.ty(*t).to_string()).collect();
                    format!("\"k\":\"tuple\",\"f\":[{}]", v.join(","))
                }
                _ => "\"k\":\"other\"".into(),
            },
            _ => "\"k\":\"nonrigid\"".into(),
        };
        self.type_json[i] = format!("{{\"name\":{},\"size\":{},{}}}", js(&t.to_string()), size, body);
        i
    }

    fn facts(&mut self) -> String {
        "{}".into()
    }
}
