//! MIR dumper: a rustc wrapper which, for the crates named in MIRDUMP_CRATES,
//! writes the monomorphised MIR reachable from every non-generic function of
//! the crate (resolved callees, evaluated constants, type layouts) as JSON.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public_bridge;
#[macro_use]
extern crate rustc_public;

use rustc_public::abi::{FieldsShape, TagEncoding, VariantsShape};
use rustc_public::mir::alloc::{AllocId, GlobalAlloc};
use rustc_public::mir::mono::{Instance, InstanceKind, MonoItem, StaticDef};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType, ItemKind};
use rustc_public_bridge::IndexedVal;
use std::collections::{HashMap, HashSet, VecDeque};
use std::fmt::Write as _;
use std::ops::ControlFlow;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn list<T, F: FnMut(T) -> String>(it: impl IntoIterator<Item = T>, mut f: F) -> String {
    let mut o = String::from("[");
    for (i, x) in it.into_iter().enumerate() {
        if i > 0 {
            o.push(',');
        }
        o.push_str(&f(x));
    }
    o.push(']');
    o
}

#[derive(Default)]
struct Dump {
    types: Vec<String>,
    type_ids: HashMap<Ty, usize>,
    fns: Vec<String>,
    seen: HashSet<String>,
    queue: VecDeque<Instance>,
    allocs: Vec<(usize, String)>,
    alloc_ids: HashMap<AllocId, usize>,
    statics: HashMap<String, usize>,
}

fn inst_key(i: &Instance) -> String {
    // Mangled names are unique per instance; intrinsics have none that matter.
    match i.kind {
        InstanceKind::Intrinsic => format!("intrinsic:{}:{}", i.intrinsic_name().unwrap(), i.name()),
        InstanceKind::LlvmIntrinsic => format!("llvm:{}", i.name()),
        InstanceKind::Virtual { idx } => format!("virtual:{}:{}", i.name(), idx),
        _ => i.mangled_name(),
    }
}

impl Dump {
    fn ty(&mut self, t: Ty) -> usize {
        if let Some(i) = self.type_ids.get(&t) {
            return *i;
        }
        let id = self.types.len();
        self.type_ids.insert(t, id);
        self.types.push(String::new());
        let mut s = String::from("{");
        let _ = write!(s, "\"n\":{},", esc(&format!("{}", t)));
        let body = match t.kind() {
            TyKind::RigidTy(r) => self.rigid(r, t),
            k => format!("\"k\":\"other\",\"d\":{}", esc(&format!("{:?}", k))),
        };
        s.push_str(&body);
        if let Ok(l) = t.layout() {
            let sh = l.shape();
            let _ = write!(s, ",\"size\":{},\"align\":{}", sh.size.bytes(), sh.abi_align);
            match &sh.fields {
                FieldsShape::Arbitrary { offsets, .. } => {
                    let _ = write!(s, ",\"offs\":{}", list(offsets, |o| o.bytes().to_string()));
                }
                FieldsShape::Array { stride, .. } => {
                    let _ = write!(s, ",\"stride\":{}", stride.bytes());
                }
                _ => {}
            }
            match &sh.variants {
                VariantsShape::Single { index } => {
                    let _ = write!(s, ",\"single\":{}", index.to_index());
                }
                VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                    let tsz = match tag {
                        rustc_public::abi::Scalar::Initialized { value, .. }
                        | rustc_public::abi::Scalar::Union { value } => {
                            value.size(&rustc_public::target::MachineInfo::target()).bytes()
                        }
                    };
                    let enc = match tag_encoding {
                        TagEncoding::Direct => "\"direct\"".to_string(),
                        TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => format!(
                            "{{\"untagged\":{},\"lo\":{},\"hi\":{},\"start\":{}}}",
                            untagged_variant.to_index(),
                            niche_variants.start().to_index(),
                            niche_variants.end().to_index(),
                            niche_start
                        ),
                    };
                    let _ = write!(
                        s,
                        ",\"tag\":{{\"field\":{},\"size\":{},\"enc\":{},\"voffs\":{}}}",
                        tag_field,
                        tsz,
                        enc,
                        list(variants, |v| list(&v.offsets, |o| o.bytes().to_string()))
                    );
                }
                _ => {}
            }
        }
        s.push('}');
        self.types[id] = s;
        id
    }

    fn rigid(&mut self, r: RigidTy, _t: Ty) -> String {
        match r {
            RigidTy::Bool => "\"k\":\"bool\"".into(),
            RigidTy::Char => "\"k\":\"char\"".into(),
            RigidTy::Int(i) => format!("\"k\":\"int\",\"s\":true,\"w\":{}", i.num_bytes() * 8),
            RigidTy::Uint(i) => format!("\"k\":\"int\",\"s\":false,\"w\":{}", i.num_bytes() * 8),
            RigidTy::Float(_) => "\"k\":\"float\"".into(),
            RigidTy::Str => "\"k\":\"str\"".into(),
            RigidTy::Never => "\"k\":\"never\"".into(),
            RigidTy::Array(e, n) => {
                let n = n.eval_target_usize().unwrap_or(0);
                format!("\"k\":\"array\",\"e\":{},\"len\":{}", self.ty(e), n)
            }
            RigidTy::Slice(e) => format!("\"k\":\"slice\",\"e\":{}", self.ty(e)),
            RigidTy::Pat(e, _) => format!("\"k\":\"pat\",\"e\":{}", self.ty(e)),
            RigidTy::RawPtr(e, m) => {
                format!("\"k\":\"ptr\",\"e\":{},\"mut\":{}", self.ty(e), m == Mutability::Mut)
            }
            RigidTy::Ref(_, e, m) => {
                format!("\"k\":\"ref\",\"e\":{},\"mut\":{}", self.ty(e), m == Mutability::Mut)
            }
            RigidTy::FnDef(d, _) => format!("\"k\":\"fndef\",\"path\":{}", esc(&d.name())),
            RigidTy::FnPtr(_) => "\"k\":\"fnptr\"".into(),
            RigidTy::Closure(d, args) => {
                let up = args.0.last().and_then(|a| a.ty().copied());
                let ups = match up.map(|u| u.kind()) {
                    Some(TyKind::RigidTy(RigidTy::Tuple(ts))) => ts,
                    _ => vec![],
                };
                let f = list(ups, |t| self.ty(t).to_string());
                format!("\"k\":\"closure\",\"path\":{},\"f\":{}", esc(&d.name()), f)
            }
            RigidTy::Tuple(ts) => {
                let f = list(ts, |t| self.ty(t).to_string());
                format!("\"k\":\"tuple\",\"f\":{}", f)
            }
            RigidTy::Dynamic(..) => "\"k\":\"dyn\"".into(),
            RigidTy::Adt(d, args) => {
                let kind = match d.kind() {
                    AdtKind::Enum => "enum",
                    AdtKind::Union => "union",
                    AdtKind::Struct => "struct",
                };
                let targs = list(
                    args.0.iter().filter_map(|a| a.ty().copied()).collect::<Vec<_>>(),
                    |t| self.ty(t).to_string(),
                );
                let mut vs = vec![];
                for (i, v) in d.variants().iter().enumerate() {
                    let discr = if d.kind() == AdtKind::Enum {
                        d.discriminant_for_variant(VariantIdx::to_val(i)).val.to_string()
                    } else {
                        "0".into()
                    };
                    let fs = v
                        .fields()
                        .iter()
                        .map(|f| {
                            let t = f.ty_with_args(&args);
                            format!("[{},{}]", esc(&f.name), self.ty(t))
                        })
                        .collect::<Vec<_>>()
                        .join(",");
                    vs.push(format!("{{\"n\":{},\"d\":{},\"f\":[{}]}}", esc(&v.name()), discr, fs));
                }
                format!(
                    "\"k\":\"adt\",\"ak\":\"{}\",\"path\":{},\"args\":{},\"vars\":[{}]",
                    kind,
                    esc(&d.name()),
                    targs,
                    vs.join(",")
                )
            }
            o => format!("\"k\":\"other\",\"d\":{}", esc(&format!("{:?}", o))),
        }
    }

    fn alloc_body(&mut self, a: &Allocation) -> String {
        let mut hex = String::with_capacity(a.bytes.len() * 2);
        for b in &a.bytes {
            match b {
                Some(b) => {
                    let _ = write!(hex, "{:02x}", b);
                }
                None => hex.push_str("__"),
            }
        }
        let mut ps = vec![];
        for (off, p) in a.provenance.ptrs.iter() {
            let id = self.alloc(p.0);
            ps.push(format!("[{},{}]", off, id));
        }
        format!("\"b\":\"{}\",\"p\":[{}]", hex, ps.join(","))
    }

    fn alloc(&mut self, id: AllocId) -> usize {
        if let Some(i) = self.alloc_ids.get(&id) {
            return *i;
        }
        let n = self.alloc_ids.len();
        self.alloc_ids.insert(id, n);
        let s = match GlobalAlloc::from(id) {
            GlobalAlloc::Function(i) => {
                let k = self.inst(&i);
                format!("{{\"k\":\"fn\",\"f\":{}}}", esc(&k))
            }
            GlobalAlloc::VTable(t, _) => format!("{{\"k\":\"vtable\",\"t\":{}}}", self.ty(t)),
            GlobalAlloc::Static(s) => {
                self.static_(&s);
                format!("{{\"k\":\"static\",\"n\":{}}}", esc(&s.name()))
            }
            GlobalAlloc::Memory(a) => format!("{{\"k\":\"mem\",{}}}", self.alloc_body(&a)),
            GlobalAlloc::TypeId { .. } => "{\"k\":\"typeid\"}".to_string(),
        };
        self.allocs.push((n, s));
        n
    }

    fn static_(&mut self, s: &StaticDef) {
        let name = s.name();
        if self.statics.contains_key(&name) {
            return;
        }
        self.statics.insert(name.clone(), usize::MAX);
        let t = self.ty(s.ty());
        let body = match s.eval_initializer() {
            Ok(a) => self.alloc_body(&a),
            Err(_) => "\"b\":null,\"p\":[]".into(),
        };
        let n = self.types.len();
        let _ = n;
        let id = usize::MAX - self.statics.len();
        self.statics.insert(name.clone(), id);
        self.allocs.push((id, format!("{{\"k\":\"staticdef\",\"n\":{},\"t\":{},{}}}", esc(&name), t, body)));
    }

    fn inst(&mut self, i: &Instance) -> String {
        let k = inst_key(i);
        if self.seen.insert(k.clone()) {
            self.queue.push_back(*i);
        }
        k
    }

    fn place(&mut self, p: &Place) -> String {
        let mut o = format!("[{}", p.local);
        for e in &p.projection {
            o.push(',');
            match e {
                ProjectionElem::Deref => o.push_str("\"*\""),
                ProjectionElem::Field(i, t) => {
                    let t = self.ty(*t);
                    let _ = write!(o, "[\"f\",{},{}]", i, t);
                }
                ProjectionElem::Index(l) => {
                    let _ = write!(o, "[\"i\",{}]", l);
                }
                ProjectionElem::ConstantIndex { offset, from_end, min_length } => {
                    let _ = write!(o, "[\"c\",{},{},{}]", offset, from_end, min_length);
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    let _ = write!(o, "[\"s\",{},{},{}]", from, to, from_end);
                }
                ProjectionElem::Downcast(v) => {
                    let _ = write!(o, "[\"d\",{}]", v.to_index());
                }
                ProjectionElem::OpaqueCast(t) => {
                    let t = self.ty(*t);
                    let _ = write!(o, "[\"o\",{}]", t);
                }
            }
        }
        o.push(']');
        o
    }

    fn constant(&mut self, c: &MirConst) -> String {
        let t = self.ty(c.ty());
        match c.kind() {
            ConstantKind::Allocated(a) => {
                let b = self.alloc_body(a);
                format!("[\"k\",{},{{{}}}]", t, b)
            }
            ConstantKind::ZeroSized => {
                // function items: resolve
                if let TyKind::RigidTy(RigidTy::FnDef(d, args)) = c.ty().kind() {
                    if let Ok(i) = Instance::resolve_for_fn_ptr(d, &args) {
                        let k = self.inst(&i);
                        return format!("[\"k\",{},{{\"fn\":{}}}]", t, esc(&k));
                    }
                }
                format!("[\"k\",{},{{\"b\":\"\",\"p\":[]}}]", t)
            }
            k => {
                if let ConstantKind::Ty(tc) = k {
                    if let TyConstKind::Value(_, a) = tc.kind() {
                        let b = self.alloc_body(a);
                        return format!("[\"k\",{},{{{}}}]", t, b);
                    }
                }
                format!("[\"k\",{},{{\"bad\":{}}}]", t, esc(&format!("{:?}", k)))
            }
        }
    }

    fn op(&mut self, o: &Operand) -> String {
        match o {
            Operand::Copy(p) => format!("[\"c\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(p)),
            Operand::Constant(c) => self.constant(&c.const_),
            Operand::RuntimeChecks(r) => format!("[\"r\",\"{:?}\"]", r),
        }
    }

    fn rv(&mut self, r: &Rvalue, locals: &[LocalDecl]) -> String {
        match r {
            Rvalue::AddressOf(k, p) => format!("[\"addr\",{},\"{:?}\"]", self.place(p), k),
            Rvalue::Ref(_, k, p) => {
                format!("[\"ref\",{},{}]", self.place(p), matches!(k, BorrowKind::Mut { .. }))
            }
            Rvalue::Reborrow(_, m, p) => {
                format!("[\"use\",[\"c\",{}],{}]", self.place(p), *m == Mutability::Mut)
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"c\",{}]]", self.place(p)),
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.op(o)),
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(p)),
            Rvalue::Len(p) => format!("[\"len\",{}]", self.place(p)),
            Rvalue::Repeat(o, n) => {
                format!("[\"rep\",{},{}]", self.op(o), n.eval_target_usize().unwrap_or(0))
            }
            Rvalue::UnaryOp(u, o) => {
                let t = o.ty(locals).map(|t| self.ty(t)).unwrap_or(0);
                format!("[\"un\",\"{:?}\",{},{}]", u, self.op(o), t)
            }
            Rvalue::BinaryOp(b, x, y) => {
                let t = x.ty(locals).map(|t| self.ty(t)).unwrap_or(0);
                format!("[\"bin\",\"{:?}\",{},{},{}]", b, self.op(x), self.op(y), t)
            }
            Rvalue::CheckedBinaryOp(b, x, y) => {
                let t = x.ty(locals).map(|t| self.ty(t)).unwrap_or(0);
                format!("[\"chk\",\"{:?}\",{},{},{}]", b, self.op(x), self.op(y), t)
            }
            Rvalue::Cast(k, o, t) => {
                let from = o.ty(locals).map(|t| self.ty(t)).unwrap_or(0);
                let extra = if let CastKind::PointerCoercion(PointerCoercion::ClosureFnPointer(_)) = k {
                    if let Ok(TyKind::RigidTy(RigidTy::Closure(d, a))) = o.ty(locals).map(|t| t.kind()) {
                        if let Ok(i) = Instance::resolve_closure(d, &a, ClosureKind::FnOnce) {
                            esc(&self.inst(&i))
                        } else {
                            "null".into()
                        }
                    } else {
                        "null".into()
                    }
                } else {
                    "null".into()
                };
                format!("[\"cast\",{},{},{},{},{}]", esc(&format!("{:?}", k)), self.op(o), self.ty(*t), from, extra)
            }
            Rvalue::Aggregate(k, os) => {
                let (n, t, v) = match k {
                    AggregateKind::Array(t) => ("array", self.ty(*t) as i64, 0),
                    AggregateKind::Tuple => ("tuple", -1, 0),
                    AggregateKind::Adt(d, v, args, _, fi) => {
                        let t = Ty::from_rigid_kind(RigidTy::Adt(*d, args.clone()));
                        let t = self.ty(t) as i64;
                        if let Some(f) = fi {
                            return format!("[\"agg\",\"union\",{},{},[{}]]", t, f, self.op(&os[0]));
                        }
                        ("adt", t, v.to_index())
                    }
                    AggregateKind::Closure(d, a) => {
                        let t = Ty::from_rigid_kind(RigidTy::Closure(*d, a.clone()));
                        ("closure", self.ty(t) as i64, 0)
                    }
                    AggregateKind::RawPtr(t, _) => ("rawptr", self.ty(*t) as i64, 0),
                    _ => ("other", -1, 0),
                };
                let ops = list(os, |o| self.op(o));
                format!("[\"agg\",\"{}\",{},{},{}]", n, t, v, ops)
            }
            Rvalue::ThreadLocalRef(_) => "[\"tls\"]".into(),
        }
    }

    fn stmt(&mut self, s: &Statement, locals: &[LocalDecl]) -> Option<String> {
        let line = s.source_info.span.get_lines().start_line;
        match &s.kind {
            StatementKind::Assign(p, r) => {
                Some(format!("[\"=\",{},{},{}]", self.place(p), self.rv(r, locals), line))
            }
            StatementKind::SetDiscriminant { place, variant_index } => Some(format!(
                "[\"setd\",{},{},{}]",
                self.place(place),
                variant_index.to_index(),
                line
            )),
            StatementKind::StorageDead(l) => Some(format!("[\"dead\",{}]", l)),
            StatementKind::StorageLive(l) => Some(format!("[\"live\",{}]", l)),
            StatementKind::Intrinsic(NonDivergingIntrinsic::Assume(_)) => None,
            StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(c)) => Some(format!(
                "[\"copy\",{},{},{},{}]",
                self.op(&c.src),
                self.op(&c.dst),
                self.op(&c.count),
                line
            )),
            _ => None,
        }
    }

    fn term(&mut self, t: &Terminator, locals: &[LocalDecl]) -> String {
        let line = t.source_info.span.get_lines().start_line;
        let opt = |x: &Option<usize>| x.map(|v| v.to_string()).unwrap_or("null".into());
        let b = match &t.kind {
            TerminatorKind::Goto { target } => format!("\"goto\",{}", target),
            TerminatorKind::SwitchInt { discr, targets } => {
                let ty = discr.ty(locals).map(|t| self.ty(t)).unwrap_or(0);
                let br = list(targets.branches(), |(v, b)| format!("[{},{}]", v, b));
                format!("\"switch\",{},{},{},{}", self.op(discr), br, targets.otherwise(), ty)
            }
            TerminatorKind::Resume => "\"resume\"".into(),
            TerminatorKind::Abort => "\"abort\"".into(),
            TerminatorKind::Return => "\"return\"".into(),
            TerminatorKind::Unreachable => "\"unreachable\"".into(),
            TerminatorKind::Drop { place, target, .. } => {
                let ty = place.ty(locals);
                let (k, tyid) = match ty {
                    Ok(t) => {
                        let i = Instance::resolve_drop_in_place(t);
                        let tid = self.ty(t);
                        if i.is_empty_shim() {
                            ("null".to_string(), tid)
                        } else {
                            (esc(&self.inst(&i)), tid)
                        }
                    }
                    Err(_) => ("null".to_string(), 0),
                };
                format!("\"drop\",{},{},{},{}", self.place(place), target, k, tyid)
            }
            TerminatorKind::Call { func, args, destination, target, .. } => {
                let fty = func.ty(locals).unwrap();
                let callee = match fty.kind() {
                    TyKind::RigidTy(RigidTy::FnDef(d, a)) => match Instance::resolve(d, &a) {
                        Ok(i) => {
                            let k = self.inst(&i);
                            format!("{{\"f\":{}}}", esc(&k))
                        }
                        Err(_) => format!("{{\"unres\":{}}}", esc(&d.name())),
                    },
                    _ => format!("{{\"ptr\":{}}}", self.op(func)),
                };
                let a = list(args, |o| self.op(o));
                let ats = list(args, |o| {
                    o.ty(locals).map(|t| self.ty(t)).unwrap_or(0).to_string()
                });
                format!("\"call\",{},{},{},{},{}", callee, a, self.place(destination), opt(target), ats)
            }
            TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                let m = match msg {
                    AssertMessage::BoundsCheck { .. } => "bounds".to_string(),
                    AssertMessage::Overflow(b, _, _) => format!("overflow:{:?}", b),
                    AssertMessage::OverflowNeg(_) => "overflow:Neg".into(),
                    AssertMessage::DivisionByZero(_) => "div0".into(),
                    AssertMessage::RemainderByZero(_) => "rem0".into(),
                    o => format!("{:?}", o),
                };
                format!("\"assert\",{},{},{},{}", self.op(cond), expected, esc(&m), target)
            }
            TerminatorKind::InlineAsm { destination, .. } => {
                format!("\"asm\",{}", opt(destination))
            }
        };
        format!("[{},{}]", b, line)
    }

    fn process(&mut self, i: Instance) {
        let key = inst_key(&i);
        let name = i.name();
        let path = i.def.name();
        let mut s = String::from("{");
        let kind = match i.kind {
            InstanceKind::Item => "item",
            InstanceKind::Intrinsic => "intrinsic",
            InstanceKind::LlvmIntrinsic => "llvm",
            InstanceKind::Virtual { .. } => "virtual",
            InstanceKind::Shim => "shim",
        };
        let krate = i.def.krate().name;
        let span = i.def.span();
        let targs = list(
            i.args().0.iter().filter_map(|a| a.ty().copied()).collect::<Vec<_>>(),
            |t| self.ty(t).to_string(),
        );
        let _ = write!(
            s,
            "\"id\":{},\"name\":{},\"path\":{},\"kind\":\"{}\",\"crate\":{},\"targs\":{},\"file\":{},\"line\":{}",
            esc(&key),
            esc(&name),
            esc(&path),
            kind,
            esc(&krate),
            targs,
            esc(&span.get_filename()),
            span.get_lines().start_line
        );
        if let Some(n) = i.intrinsic_name() {
            let _ = write!(s, ",\"intrinsic\":{}", esc(&n));
        }
        let skip = path.starts_with("core::fmt")
            || path.starts_with("std::fmt")
            || path.starts_with("core::panicking")
            || path.starts_with("std::panicking")
            || path.starts_with("std::rt")
            || path.starts_with("std::io")
            || path.starts_with("std::backtrace")
            || name.starts_with("core::fmt::")
            || path.starts_with("alloc::fmt")
            || path.starts_with("std::sys");
        if !skip && matches!(i.kind, InstanceKind::Item | InstanceKind::Shim) {
            let b = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| i.body())).unwrap_or(None);
            if let Some(b) = b {
                let locals = b.locals();
                let lt = list(locals, |l| self.ty(l.ty).to_string());
                let names = list(
                    b.var_debug_info.iter().filter_map(|v| match &v.value {
                        VarDebugInfoContents::Place(p) if p.projection.is_empty() => Some((v.name.clone(), p.local)),
                        _ => None,
                    }),
                    |(n, l)| format!("[{},{}]", esc(&n), l),
                );
                let spread = b.spread_arg().map(|l| l.to_string()).unwrap_or("null".into());
                let mut bl = vec![];
                for blk in &b.blocks {
                    let st: Vec<String> =
                        blk.statements.iter().filter_map(|x| self.stmt(x, locals)).collect();
                    let t = self.term(&blk.terminator, locals);
                    bl.push(format!("{{\"s\":[{}],\"t\":{}}}", st.join(","), t));
                }
                let _ = write!(
                    s,
                    ",\"argc\":{},\"spread\":{},\"locals\":{},\"names\":{},\"blocks\":[{}]",
                    b.arg_locals().len(),
                    spread,
                    lt,
                    names,
                    bl.join(",\n")
                );
            }
        }
        s.push('}');
        self.fns.push(s);
    }
}

fn dump() -> ControlFlow<()> {
    let krate = rustc_public::local_crate();
    let mut d = Dump::default();
    let mut roots = vec![];
    for item in rustc_public::all_local_items() {
        match item.kind() {
            ItemKind::Fn => {
                if let Ok(i) = Instance::try_from(item) {
                    if !i.args().0.iter().any(|a| matches!(a, GenericArgKind::Type(_) | GenericArgKind::Const(_))) {
                        let k = d.inst(&i);
                        roots.push(k);
                    }
                }
            }
            ItemKind::Static => {
                if let MonoItem::Static(s) = MonoItem::Static(StaticDef::try_from(item).unwrap()) {
                    d.static_(&s);
                }
            }
            _ => {}
        }
    }
    while let Some(i) = d.queue.pop_front() {
        d.process(i);
    }
    let out = std::env::var("MIRDUMP_OUT").unwrap();
    let mut o = String::new();
    let _ = write!(
        o,
        "{{\"crate\":{},\"roots\":{},\n\"types\":[\n{}],\n\"fns\":[\n{}],\n\"allocs\":[\n{}]}}",
        esc(&krate.name),
        list(&roots, |r| esc(r)),
        d.types.join(",\n"),
        d.fns.join(",\n"),
        d.allocs
            .iter()
            .map(|(i, s)| format!("[{},{}]", if *i > (1usize << 40) { -1 } else { *i as i64 }, s))
            .collect::<Vec<_>>()
            .join(",\n")
    );
    let path = format!("{}/{}.json", out, krate.name);
    std::fs::write(&path, o).unwrap();
    ControlFlow::Continue(())
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the path of rustc
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let name = args
        .iter()
        .position(|a| a == "--crate-name")
        .and_then(|i| args.get(i + 1))
        .cloned()
        .unwrap_or_default();
    let want = std::env::var("MIRDUMP_CRATES").unwrap_or_default();
    if want.split(',').any(|c| c == name) {
        let r = run!(&args, dump);
        match r {
            Ok(_) => {}
            Err(rustc_public::CompilerError::Skipped) => {}
            Err(_) => std::process::exit(1),
        }
    } else {
        let rustc = std::env::args().nth(1).unwrap();
        let code = std::process::Command::new(rustc).args(&args[1..]).status().unwrap().code().unwrap_or(1);
        std::process::exit(code);
    }
}
