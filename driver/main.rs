// MIR dumper: a rustc driver that writes the monomorphised MIR of every function reachable from
// the public, non-generic functions of the crate being compiled, as JSON.
//
// usage: mirdump <out.json> <cutlist> <rustc args...>
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public;
extern crate rustc_public_bridge;
extern crate serde_json;

use rustc_public::abi::*;
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::*;
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};
use std::ops::ControlFlow;

struct Cx {
    tys: HashMap<Ty, usize>,
    ty_out: Vec<Value>,
    adts: BTreeMap<String, Value>,
    fns: HashMap<Instance, String>,
    fn_out: BTreeMap<String, Value>,
    queue: VecDeque<Instance>,
    statics: BTreeMap<String, Value>,
    cut: Vec<String>,
    redirect: HashMap<String, FnDef>,
    used_keys: HashSet<String>,
}

fn dn<T: CrateDef>(d: &T) -> String {
    d.name().to_string()
}

impl Cx {
    fn args(&mut self, a: &GenericArgs) -> Value {
        Value::Array(
            a.0.iter()
                .filter_map(|g| match g {
                    GenericArgKind::Type(t) => Some(json!(self.ty(*t))),
                    GenericArgKind::Const(c) => {
                        Some(json!({"const": c.eval_target_usize().ok()}))
                    }
                    GenericArgKind::Lifetime(_) => None,
                })
                .collect(),
        )
    }

    fn ty(&mut self, t: Ty) -> usize {
        if let Some(i) = self.tys.get(&t) {
            return *i;
        }
        let i = self.ty_out.len();
        self.tys.insert(t, i);
        self.ty_out.push(Value::Null);
        let v = match t.kind() {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => json!({"k":"bool"}),
                RigidTy::Char => json!({"k":"char"}),
                RigidTy::Int(x) => json!({"k":"int","n":format!("{:?}",x).to_lowercase()}),
                RigidTy::Uint(x) => json!({"k":"uint","n":format!("{:?}",x).to_lowercase()}),
                RigidTy::Float(x) => json!({"k":"float","n":format!("{:?}",x).to_lowercase()}),
                RigidTy::Adt(d, a) => {
                    let name = dn(&d);
                    self.adt(d);
                    let aa = self.args(&a);
                    json!({"k":"adt","n":name,"a":aa})
                }
                RigidTy::Str => json!({"k":"str"}),
                RigidTy::Array(t, n) => {
                    json!({"k":"array","t":self.ty(t),"len":n.eval_target_usize().ok()})
                }
                RigidTy::Slice(t) => json!({"k":"slice","t":self.ty(t)}),
                RigidTy::RawPtr(t, m) => {
                    json!({"k":"ptr","t":self.ty(t),"mut":m==Mutability::Mut})
                }
                RigidTy::Ref(_, t, m) => {
                    json!({"k":"ref","t":self.ty(t),"mut":m==Mutability::Mut})
                }
                RigidTy::FnDef(d, a) => {
                    let c = self.callee(d, &a);
                    json!({"k":"fndef","f":c})
                }
                RigidTy::FnPtr(_) => json!({"k":"fnptr"}),
                RigidTy::Closure(d, a) => {
                    let aa = self.args(&a);
                    let inst = Instance::resolve_closure(d, &a, ClosureKind::FnOnce).ok();
                    // resolve_closure(FnOnce) may give a shim; take the kind of the body itself
                    let key = self.closure_key(d, &a).or_else(|| inst.map(|i| self.inst(i)));
                    json!({"k":"closure","n":dn(&d),"f":key,"a":aa})
                }
                RigidTy::Dynamic(p, _) => json!({"k":"dyn","n":format!("{:?}",p.first())}),
                RigidTy::Never => json!({"k":"never"}),
                RigidTy::Tuple(ts) => {
                    let l: Vec<_> = ts.iter().map(|t| self.ty(*t)).collect();
                    json!({"k":"tuple","ts":l})
                }
                _ => json!({"k":"other"}),
            },
            TyKind::Alias(..) => json!({"k":"alias"}),
            TyKind::Param(p) => json!({"k":"param","n":p.name}),
            TyKind::Bound(..) => json!({"k":"bound"}),
        };
        let mut v = v;
        v["s"] = json!(format!("{}", t));
        self.ty_out[i] = v;
        i
    }

    fn closure_key(&mut self, d: ClosureDef, a: &GenericArgs) -> Option<String> {
        for k in [ClosureKind::Fn, ClosureKind::FnMut, ClosureKind::FnOnce] {
            if let Ok(i) = Instance::resolve_closure(d, a, k) {
                if i.kind == InstanceKind::Item {
                    return Some(self.inst(i));
                }
            }
        }
        None
    }

    fn adt(&mut self, d: AdtDef) {
        let name = dn(&d);
        if self.adts.contains_key(&name) {
            return;
        }
        self.adts.insert(name.clone(), Value::Null);
        let vs: Vec<Value> = d
            .variants()
            .iter()
            .map(|v| {
                let disc = if d.kind() == AdtKind::Enum {
                    Some(d.discriminant_for_variant(v.idx()).val.to_string())
                } else {
                    None
                };
                let fs: Vec<Value> = v.fields().iter().map(|f| json!(f.name.to_string())).collect();
                json!({"n": v.name().to_string(), "d": disc, "f": fs})
            })
            .collect();
        let kind = match d.kind() {
            AdtKind::Enum => "enum",
            AdtKind::Struct => "struct",
            AdtKind::Union => "union",
        };
        self.adts.insert(name, json!({"kind":kind,"variants":vs,"crate":d.krate().name}));
    }

    fn callee(&mut self, d: FnDef, a: &GenericArgs) -> Value {
        let name = dn(&d);
        let aa = self.args(a);
        let krate = d.krate().name.to_string();
        let mut v = json!({"n":name,"a":aa,"c":krate});
        match Instance::resolve(d, a) {
            Ok(i) => {
                let kind = match i.kind {
                    InstanceKind::Item => "item",
                    InstanceKind::Intrinsic | InstanceKind::LlvmIntrinsic => "intrinsic",
                    InstanceKind::Virtual { .. } => "virtual",
                    InstanceKind::Shim => "shim",
                };
                v["k"] = json!(kind);
                v["rn"] = json!(dn(&i.def));
                // iteration over collections is read from the plain loops of the probe's `model` module
                let rd = match self.redirect.get(&name) {
                    Some(m) => Instance::resolve(*m, a).ok(),
                    None => match self.redirect.get(&dn(&i.def)) {
                        Some(m) => Instance::resolve(*m, &i.args()).ok(),
                        None => None,
                    },
                };
                if let Some(m) = rd {
                    v["rd"] = json!(dn(&m.def));
                    v["i"] = json!(self.inst(m));
                } else if i.kind == InstanceKind::Item || i.kind == InstanceKind::Shim {
                    let cut = self.is_cut(&name) || self.is_cut(&dn(&i.def));
                    if !cut {
                        v["i"] = json!(self.inst(i));
                    }
                }
            }
            Err(_) => {}
        }
        v
    }

    fn is_cut(&self, n: &str) -> bool {
        if self.cut.iter().any(|c| c.strip_prefix('!') == Some(n)) {
            return false;
        }
        self.cut.iter().any(|c| {
            if let Some(p) = c.strip_suffix('*') {
                n.starts_with(p) || n.starts_with(&format!("<{}", p))
            } else {
                n == c
            }
        })
    }

    fn inst(&mut self, i: Instance) -> String {
        if let Some(k) = self.fns.get(&i) {
            return k.clone();
        }
        let base = i.name().to_string();
        let mut key = base.clone();
        let mut n = 1;
        while self.used_keys.contains(&key) {
            n += 1;
            key = format!("{}~{}", base, n);
        }
        self.used_keys.insert(key.clone());
        self.fns.insert(i, key.clone());
        self.queue.push_back(i);
        key
    }

    fn place(&mut self, p: &Place) -> Value {
        let pr: Vec<Value> = p
            .projection
            .iter()
            .map(|e| match e {
                ProjectionElem::Deref => json!("*"),
                ProjectionElem::Field(i, t) => json!(["f", i, self.ty(*t)]),
                ProjectionElem::Index(l) => json!(["i", l]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    json!(["ci", offset, min_length, from_end])
                }
                ProjectionElem::Subslice { from, to, from_end } => json!(["s", from, to, from_end]),
                ProjectionElem::Downcast(v) => json!(["v", idx(v)]),
                ProjectionElem::OpaqueCast(_) => json!("oc"),
            })
            .collect();
        json!([p.local, pr])
    }

    fn operand(&mut self, o: &Operand) -> Value {
        match o {
            Operand::Copy(p) => json!(["c", self.place(p)]),
            Operand::Move(p) => json!(["m", self.place(p)]),
            Operand::Constant(c) => {
                let t = self.ty(c.const_.ty());
                let v = self.konst(&c.const_);
                json!(["k", t, v])
            }
            Operand::RuntimeChecks(k) => json!(["rc", format!("{:?}", k)]),
        }
    }

    fn konst(&mut self, c: &MirConst) -> Value {
        match c.kind() {
            ConstantKind::Allocated(a) => self.alloc(a, 0, c.ty(), 0),
            ConstantKind::ZeroSized => self.zst(c.ty()),
            ConstantKind::Ty(tc) => match tc.eval_target_usize() {
                Ok(n) => json!(["int", n.to_string()]),
                _ => json!(["opaque", format!("{:?}", tc)]),
            },
            k => json!(["opaque", format!("{:?}", k)]),
        }
    }

    fn zst(&mut self, t: Ty) -> Value {
        match t.kind() {
            TyKind::RigidTy(RigidTy::FnDef(d, a)) => json!(["fn", self.callee(d, &a)]),
            TyKind::RigidTy(RigidTy::Tuple(ts)) => {
                let v: Vec<Value> = ts.iter().map(|t| self.zst(*t)).collect();
                json!(["tup", v])
            }
            TyKind::RigidTy(RigidTy::Adt(d, a)) => {
                if d.kind() == AdtKind::Struct {
                    let fs: Vec<Value> = d.variants()[0]
                        .fields()
                        .iter()
                        .map(|f| self.zst(f.ty_with_args(&a)))
                        .collect();
                    json!(["adt", 0, fs])
                } else {
                    json!(["opaque", "zst enum"])
                }
            }
            TyKind::RigidTy(RigidTy::Array(..)) => json!(["arr", []]),
            TyKind::RigidTy(RigidTy::Closure(..)) => json!(["clo"]),
            _ => json!(["opaque", "zst"]),
        }
    }

    fn bytes(a: &Allocation, off: usize, n: usize) -> Option<Vec<u8>> {
        if off + n > a.bytes.len() {
            return None;
        }
        a.bytes[off..off + n].iter().copied().collect()
    }

    fn uint(a: &Allocation, off: usize, n: usize) -> Option<u128> {
        let b = Self::bytes(a, off, n)?;
        let mut r = 0u128;
        for (i, x) in b.iter().enumerate() {
            r |= (*x as u128) << (8 * i);
        }
        Some(r)
    }

    fn alloc(&mut self, a: &Allocation, off: usize, t: Ty, depth: usize) -> Value {
        if depth > 12 {
            return json!(["opaque", "depth"]);
        }
        let Ok(lay) = t.layout() else { return json!(["opaque", "layout"]) };
        let sh = lay.shape();
        let size = sh.size.bytes();
        if size == 0 && sh.is_sized() {
            return self.zst(t);
        }
        let TyKind::RigidTy(r) = t.kind() else { return json!(["opaque", "ty"]) };
        match r {
            RigidTy::Bool => match Self::uint(a, off, 1) {
                Some(x) => json!(["bool", x == 1]),
                None => json!(["opaque", "uninit"]),
            },
            RigidTy::Char => match Self::uint(a, off, 4) {
                Some(x) => json!(["char", x as u64]),
                None => json!(["opaque", "uninit"]),
            },
            RigidTy::Uint(_) => match Self::uint(a, off, size) {
                Some(x) => json!(["int", x.to_string()]),
                None => json!(["opaque", "uninit"]),
            },
            RigidTy::Int(_) => match Self::uint(a, off, size) {
                Some(x) => {
                    let bits = size * 8;
                    let v = if bits == 128 {
                        x as i128
                    } else if x >> (bits - 1) == 1 {
                        x as i128 - (1i128 << bits)
                    } else {
                        x as i128
                    };
                    json!(["int", v.to_string()])
                }
                None => json!(["opaque", "uninit"]),
            },
            RigidTy::Ref(_, inner, _) | RigidTy::RawPtr(inner, _) => self.ptr(a, off, inner, depth),
            RigidTy::Tuple(ts) => {
                let FieldsShape::Arbitrary { offsets } = sh.fields else {
                    return json!(["opaque", "tuple"]);
                };
                let v: Vec<Value> = ts
                    .iter()
                    .enumerate()
                    .map(|(i, t)| self.alloc(a, off + offsets[i].bytes(), *t, depth + 1))
                    .collect();
                json!(["tup", v])
            }
            RigidTy::Array(et, n) => {
                let n = n.eval_target_usize().unwrap_or(0) as usize;
                let es = et.layout().map(|l| l.shape().size.bytes()).unwrap_or(0);
                if matches!(et.kind(), TyKind::RigidTy(RigidTy::Uint(UintTy::U8))) {
                    return match Self::bytes(a, off, n) {
                        Some(b) => json!(["bytes", b]),
                        None => json!(["opaque", "uninit"]),
                    };
                }
                let v: Vec<Value> =
                    (0..n).map(|i| self.alloc(a, off + i * es, et, depth + 1)).collect();
                json!(["arr", v])
            }
            RigidTy::Adt(d, ga) => {
                let (vi, offsets): (usize, Vec<usize>) = match (&sh.variants, &sh.fields) {
                    (VariantsShape::Single { index }, FieldsShape::Arbitrary { offsets }) => {
                        (idx(index), offsets.iter().map(|o| o.bytes()).collect())
                    }
                    (
                        VariantsShape::Multiple { tag, tag_encoding, tag_field, variants },
                        FieldsShape::Arbitrary { offsets },
                    ) => {
                        let to = offsets[*tag_field].bytes();
                        let tsz = match tag {
                            Scalar::Initialized { value, .. } | Scalar::Union { value } => {
                                match value {
                                    Primitive::Int { length, .. } => match length {
                                        IntegerLength::I8 => 1,
                                        IntegerLength::I16 => 2,
                                        IntegerLength::I32 => 4,
                                        IntegerLength::I64 => 8,
                                        IntegerLength::I128 => 16,
                                    },
                                    _ => 8,
                                }
                            }
                        };
                        let has_prov = a.provenance.ptrs.iter().any(|(o, _)| *o == off + to);
                        let tagv = Self::uint(a, off + to, tsz);
                        let vi = match tag_encoding {
                            TagEncoding::Direct => {
                                let tv = tagv.unwrap_or(0);
                                d.variants()
                                    .iter()
                                    .find(|v| {
                                        let dv = d.discriminant_for_variant(v.idx()).val;
                                        let m = if tsz == 16 { u128::MAX } else { (1u128 << (8 * tsz)) - 1 };
                                        dv & m == tv
                                    })
                                    .map(|v| idx(&v.idx()))
                            }
                            TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                if has_prov {
                                    Some(idx(untagged_variant))
                                } else {
                                    let m = if tsz == 16 { u128::MAX } else { (1u128 << (8 * tsz)) - 1 };
                                    let rel = tagv.unwrap_or(0).wrapping_sub(*niche_start) & m;
                                    let lo = idx(niche_variants.start());
                                    let hi = idx(niche_variants.end());
                                    if rel <= (hi - lo) as u128 {
                                        Some(lo + rel as usize)
                                    } else {
                                        Some(idx(untagged_variant))
                                    }
                                }
                            }
                        };
                        let Some(vi) = vi else { return json!(["opaque", "tag"]) };
                        (vi, variants[vi].offsets.iter().map(|o| o.bytes()).collect())
                    }
                    _ => return json!(["opaque", "adt layout"]),
                };
                let fs: Vec<Value> = d.variants()[vi]
                    .fields()
                    .iter()
                    .enumerate()
                    .map(|(i, f)| self.alloc(a, off + offsets[i], f.ty_with_args(&ga), depth + 1))
                    .collect();
                json!(["adt", vi, fs])
            }
            RigidTy::FnPtr(_) => {
                for (o, p) in &a.provenance.ptrs {
                    if *o == off {
                        if let GlobalAlloc::Function(i) = GlobalAlloc::from(p.0) {
                            return json!(["fnptr", self.inst(i)]);
                        }
                    }
                }
                json!(["opaque", "fnptr"])
            }
            _ => json!(["opaque", "kind"]),
        }
    }

    fn ptr(&mut self, a: &Allocation, off: usize, inner: Ty, depth: usize) -> Value {
        let Some((_, p)) = a.provenance.ptrs.iter().find(|(o, _)| *o == off) else {
            return json!(["opaque", "noprov"]);
        };
        let addend = Self::uint(a, off, 8).unwrap_or(0) as usize;
        match GlobalAlloc::from(p.0) {
            GlobalAlloc::Memory(m) => match inner.kind() {
                TyKind::RigidTy(RigidTy::Str) => {
                    let n = Self::uint(a, off + 8, 8).unwrap_or(0) as usize;
                    match Self::bytes(&m, addend, n) {
                        Some(b) => json!(["str", String::from_utf8_lossy(&b)]),
                        None => json!(["opaque", "str"]),
                    }
                }
                TyKind::RigidTy(RigidTy::Slice(et)) => {
                    let n = Self::uint(a, off + 8, 8).unwrap_or(0) as usize;
                    if matches!(et.kind(), TyKind::RigidTy(RigidTy::Uint(UintTy::U8))) {
                        return match Self::bytes(&m, addend, n) {
                            Some(b) => json!(["ref", ["bytes", b]]),
                            None => json!(["opaque", "bytes"]),
                        };
                    }
                    let es = et.layout().map(|l| l.shape().size.bytes()).unwrap_or(0);
                    let v: Vec<Value> =
                        (0..n).map(|i| self.alloc(&m, addend + i * es, et, depth + 1)).collect();
                    json!(["ref", ["arr", v]])
                }
                _ => {
                    let v = self.alloc(&m, addend, inner, depth + 1);
                    json!(["ref", v])
                }
            },
            GlobalAlloc::Static(s) => {
                let n = dn(&s);
                self.stat(s);
                json!(["static", n])
            }
            GlobalAlloc::Function(i) => json!(["fnptr", self.inst(i)]),
            _ => json!(["opaque", "galloc"]),
        }
    }

    fn stat(&mut self, s: StaticDef) {
        let n = dn(&s);
        if self.statics.contains_key(&n) {
            return;
        }
        self.statics.insert(n.clone(), Value::Null);
        let t = s.ty();
        let ti = self.ty(t);
        let v = match s.eval_initializer() {
            Ok(a) => self.alloc(&a, 0, t, 0),
            Err(_) => json!(["opaque", "static"]),
        };
        let k = s.krate().name.to_string();
        self.statics.insert(n, json!({"ty":ti,"v":v,"c":k}));
    }

    fn rvalue(&mut self, r: &Rvalue, locals: &[LocalDecl]) -> Value {
        match r {
            Rvalue::AddressOf(k, p) => {
                json!(["addr", matches!(k, RawPtrKind::Mut), self.place(p)])
            }
            Rvalue::Aggregate(k, ops) => {
                let kk = match k {
                    AggregateKind::Array(_) => json!(["arr"]),
                    AggregateKind::Tuple => json!(["tup"]),
                    AggregateKind::Adt(d, v, _, _, f) => {
                        self.adt(*d);
                        json!(["adt", dn(d), idx(v), f])
                    }
                    AggregateKind::Closure(d, a) => {
                        let key = self.closure_key(*d, a);
                        json!(["clo", dn(d), key])
                    }
                    AggregateKind::RawPtr(..) => json!(["rawptr"]),
                    _ => json!(["other"]),
                };
                let o: Vec<Value> = ops.iter().map(|o| self.operand(o)).collect();
                json!(["agg", kk, o])
            }
            Rvalue::BinaryOp(b, x, y) => {
                json!(["bin", format!("{:?}", b), self.operand(x), self.operand(y)])
            }
            Rvalue::CheckedBinaryOp(b, x, y) => {
                json!(["cbin", format!("{:?}", b), self.operand(x), self.operand(y)])
            }
            Rvalue::Cast(k, o, t) => {
                let from = o.ty(locals).ok().map(|t| self.ty(t));
                json!(["cast", format!("{:?}", k), self.operand(o), self.ty(*t), from])
            }
            Rvalue::CopyForDeref(p) => json!(["use", ["c", self.place(p)]]),
            Rvalue::Discriminant(p) => {
                let t = p.ty(locals).ok().map(|t| self.ty(t));
                json!(["discr", self.place(p), t])
            }
            Rvalue::Len(p) => json!(["len", self.place(p)]),
            Rvalue::Ref(_, k, p) => {
                json!(["ref", matches!(k, BorrowKind::Mut { .. }), self.place(p)])
            }
            Rvalue::Repeat(o, n) => {
                json!(["repeat", self.operand(o), n.eval_target_usize().ok()])
            }
            Rvalue::ThreadLocalRef(c) => json!(["tls", dn(c)]),
            Rvalue::UnaryOp(u, o) => json!(["un", format!("{:?}", u), self.operand(o)]),
            Rvalue::Use(o, _) => json!(["use", self.operand(o)]),
            Rvalue::Reborrow(_, m, p) => json!(["ref", *m == Mutability::Mut, self.place(p)]),
        }
    }

    fn span(&self, s: &rustc_public::ty::Span) -> Value {
        let l = s.get_lines();
        json!([s.get_filename(), l.start_line])
    }

    fn body(&mut self, i: Instance) {
        let key = self.fns[&i].clone();
        let name = dn(&i.def);
        let krate = i.def.krate().name.to_string();
        let args = self.args(&i.args());
        let mut v = json!({"n": name, "c": krate, "a": args, "shim": i.kind==InstanceKind::Shim});
        v["span"] = self.span(&i.def.span());
        if self.is_cut(&name) {
            self.fn_out.insert(key, v);
            return;
        }
        if let Some(b) = if i.has_body() || i.kind == InstanceKind::Shim { i.body() } else { None } {
            let locals: Vec<Value> = b.locals().iter().map(|l| json!(self.ty(l.ty))).collect();
            let lo = b.locals().to_vec();
            let mut blocks = vec![];
            for bb in &b.blocks {
                let mut st = vec![];
                for s in &bb.statements {
                    match &s.kind {
                        StatementKind::Assign(p, r) => {
                            st.push(json!([self.place(p), self.rvalue(r, &lo)]))
                        }
                        _ => {}
                    }
                }
                let t = match &bb.terminator.kind {
                    TerminatorKind::Goto { target } => json!(["goto", target]),
                    TerminatorKind::SwitchInt { discr, targets } => {
                        let br: Vec<Value> =
                            targets.branches().map(|(v, t)| json!([v.to_string(), t])).collect();
                        let ty = discr.ty(&lo).ok().map(|t| self.ty(t));
                        json!(["switch", self.operand(discr), br, targets.otherwise(), ty])
                    }
                    TerminatorKind::Resume => json!(["resume"]),
                    TerminatorKind::Abort => json!(["abort"]),
                    TerminatorKind::Return => json!(["return"]),
                    TerminatorKind::Unreachable => json!(["unreachable"]),
                    TerminatorKind::Drop { place, target, .. } => {
                        let t = place.ty(&lo).ok().map(|t| self.ty(t));
                        json!(["drop", self.place(place), target, t])
                    }
                    TerminatorKind::Call { func, args, destination, target, .. } => {
                        let f = match func {
                            Operand::Constant(c) => match c.const_.ty().kind() {
                                TyKind::RigidTy(RigidTy::FnDef(d, a)) => {
                                    json!(["fn", self.callee(d, &a)])
                                }
                                _ => json!(["op", self.operand(func)]),
                            },
                            _ => json!(["op", self.operand(func)]),
                        };
                        let a: Vec<Value> = args.iter().map(|o| self.operand(o)).collect();
                        let aty: Vec<Value> = args
                            .iter()
                            .map(|o| json!(o.ty(&lo).ok().map(|t| self.ty(t))))
                            .collect();
                        let dty = destination.ty(&lo).ok().map(|t| self.ty(t));
                        json!(["call", f, a, self.place(destination), target, aty, dty])
                    }
                    TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                        let m = match msg {
                            AssertMessage::BoundsCheck { len, index } => {
                                json!(["bounds", self.operand(len), self.operand(index)])
                            }
                            AssertMessage::Overflow(b, x, y) => json!([
                                "overflow",
                                format!("{:?}", b),
                                self.operand(x),
                                self.operand(y)
                            ]),
                            m => json!(["other", format!("{:?}", m)]),
                        };
                        json!(["assert", self.operand(cond), expected, m, target])
                    }
                    TerminatorKind::InlineAsm { .. } => json!(["asm"]),
                };
                let ln = bb.terminator.source_info.span.get_lines().start_line;
                let f = bb.terminator.source_info.span.get_filename();
                let same = v["span"][0].as_str() == Some(&f.to_string());
                blocks.push(json!({"s": st, "t": t, "ln": ln, "f": if same {Value::Null} else {json!(f)}}));
            }
            let argc = b.arg_locals().len();
            v["locals"] = json!(locals);
            v["argc"] = json!(argc);
            v["blocks"] = json!(blocks);
            v["spread"] = json!(b.spread_arg());
            let names: Vec<Value> = b
                .var_debug_info
                .iter()
                .filter_map(|d| d.local().map(|l| json!([d.name.to_string(), l])))
                .collect();
            v["vars"] = json!(names);
        }
        self.fn_out.insert(key, v);
    }
}

fn idx<T: std::fmt::Debug>(v: &T) -> usize {
    // VariantIdx prints as VariantIdx(n)
    let s = format!("{:?}", v);
    s.chars().filter(|c| c.is_ascii_digit()).collect::<String>().parse().unwrap()
}

fn run(out: &str, cut: Vec<String>) -> ControlFlow<()> {
    let mut cx = Cx {
        tys: HashMap::new(),
        ty_out: vec![],
        adts: BTreeMap::new(),
        fns: HashMap::new(),
        fn_out: BTreeMap::new(),
        queue: VecDeque::new(),
        statics: BTreeMap::new(),
        cut: cut.iter().filter(|l| !l.contains(" => ")).cloned().collect(),
        redirect: HashMap::new(),
        used_keys: HashSet::new(),
    };
    for l in &cut {
        if let Some((k, m)) = l.split_once(" => ") {
            match local_crate().fn_defs().into_iter().find(|f| dn(f) == m.trim()) {
                Some(f) => { cx.redirect.insert(k.trim().to_string(), f); }
                None => eprintln!("mirdump: no model {}", m),
            }
        }
    }
    let mut roots = vec![];
    for f in local_crate().fn_defs() {
        let ty = f.ty();
        if let TyKind::RigidTy(RigidTy::FnDef(d, a)) = ty.kind() {
            if a.0.iter().any(|g| !matches!(g, GenericArgKind::Lifetime(_))) {
                continue;
            }
            if let Ok(i) = Instance::resolve(d, &a) {
                roots.push(json!(cx.inst(i)));
            }
        }
    }
    while let Some(i) = cx.queue.pop_front() {
        cx.body(i);
    }
    // every function of the crate under analysis, reachable or not (names and places only)
    let mut all = vec![];
    for k in external_crates() {
        if k.name == "dockerfile_parser" {
            for f in k.fn_defs() {
                all.push(json!({"n": dn(&f), "span": cx.span(&f.span())}));
            }
            for s in k.statics() {
                cx.stat(s);
            }
        }
    }
    let v = json!({"roots": roots, "fns": cx.fn_out, "tys": cx.ty_out, "adts": cx.adts,
        "statics": cx.statics, "all_fns": all});
    std::fs::write(out, serde_json::to_vec(&v).unwrap()).unwrap();
    ControlFlow::Continue(())
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let out = a[1].clone();
    let cut: Vec<String> = std::fs::read_to_string(&a[2])
        .unwrap_or_default()
        .lines()
        .map(|s| s.trim().to_string())
        .filter(|s| !s.is_empty())
        .collect();
    let mut args = vec!["rustc".to_string()];
    args.extend(a[3..].iter().cloned());
    let r = rustc_public::run!(&args, || run(&out, cut));
    if let Err(e) = r {
        eprintln!("mirdump: {:?}", e);
        std::process::exit(3);
    }
}
