//! mirdump: rustc wrapper. For every crate it adds `-Zalways-encode-mir`; for the crate named
//! by MIRDUMP_CRATE it also writes, to MIRDUMP_OUT, the monomorphic MIR of every function
//! reachable from that crate's monomorphic items (bodies, types, resolved callees, decoded
//! constants) as JSON.  Nothing is rewritten: the JSON is the compiler's own MIR.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
#[macro_use]
extern crate rustc_public;
extern crate serde_json;

use rustc_public::abi::{FieldsShape, TagEncoding, VariantsShape};
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType, ItemKind};
use serde_json::{json, Map, Value};
use std::collections::{HashMap, HashSet, VecDeque};
use rustc_middle::ty as ity;
use rustc_public::rustc_internal::{internal, stable};
use std::ops::ControlFlow;

struct D<'tcx> {
    tcx: ity::TyCtxt<'tcx>,
    types: Map<String, Value>,
    tyids: HashMap<Ty, usize>,
    tyq: VecDeque<Ty>,
    fns: Map<String, Value>,
    seen: HashSet<String>,
    q: VecDeque<Instance>,
    dyns: Vec<(Ty, Ty)>,
    locals: Vec<LocalDecl>,
    virtuals: Vec<(FnDef, GenericArgs, String)>,
    vtables: Map<String, Value>,
}

fn key(i: &Instance) -> String {
    format!("{}", i.mangled_name())
}

const SKIP: &[&str] = &[
    "core::fmt", "std::fmt", "alloc::fmt", "std::io", "core::panicking", "std::panicking",
    "std::rt", "std::sys", "alloc::alloc", "std::alloc", "hashbrown", "std::hash", "core::hash",
    "std::backtrace", "std::thread", "std::sync", "alloc::raw_vec", "core::str", "alloc::str",
    "alloc::string", "std::collections::hash", "alloc::vec", "log::", "serde", "core::sync",
    "std::vec", "std::string",
];

impl<'tcx> D<'tcx> {
    fn ty(&mut self, t: Ty) -> usize {
        if let Some(i) = self.tyids.get(&t) {
            return *i;
        }
        let i = self.tyids.len();
        self.tyids.insert(t, i);
        self.tyq.push_back(t);
        i
    }
    fn inst(&mut self, i: Instance) -> String {
        let k = key(&i);
        if self.seen.insert(k.clone()) {
            self.q.push_back(i);
        }
        k
    }
    /// The std overrides of the provided methods of `Iterator` (internal iteration with raw
    /// pointers) are replaced by the provided methods themselves, which define their meaning.
    fn resolve(&mut self, d: FnDef, ga: &GenericArgs) -> Option<Instance> {
        let i = Instance::resolve(d, ga).ok()?;
        let k = i.def.krate().name;
        if k != "core" && k != "alloc" && k != "std" {
            return Some(i);
        }
        let tcx = self.tcx;
        let did = internal(tcx, d.def_id());
        let Some(tr) = tcx.trait_of_assoc(did) else { return Some(i) };
        let tn = tcx.def_path_str(tr);
        const M: &[&str] = &["fold", "try_fold", "for_each", "count", "reduce"];
        let mn = tcx.item_name(did).to_string();
        if tn.ends_with("iter::Iterator") && M.contains(&mn.as_str()) && tcx.defaultness(did).has_value() {
            let args = internal(tcx, ga);
            let inst = ity::Instance::new_raw(did, args);
            return Some(stable(inst));
        }
        Some(i)
    }
    fn drain(&mut self) {
        loop {
            if let Some(t) = self.tyq.pop_front() {
                let id = self.tyids[&t];
                let v = self.ty_json(t);
                self.types.insert(id.to_string(), v);
                continue;
            }
            if let Some(i) = self.q.pop_front() {
                let v = self.fn_json(i);
                self.fns.insert(key(&i), v);
                continue;
            }
            if !self.link() {
                break;
            }
        }
    }
    /// Resolves every virtual call for every type that becomes a trait object of its trait.
    fn link(&mut self) -> bool {
        let mut new = false;
        for (d, ga, k) in self.virtuals.clone() {
            let Some(GenericArgKind::Type(me)) = ga.0.first().cloned() else { continue };
            for (dy, conc) in self.dyns.clone() {
                if format!("{}", dy) != format!("{}", me) {
                    continue;
                }
                let c = self.ty(conc).to_string();
                if self.vtables.get(&k).and_then(|t| t.get(&c)).is_some() {
                    continue;
                }
                let mut args = ga.clone();
                args.0[0] = GenericArgKind::Type(conc);
                let r = match self.resolve(d, &args) {
                    Some(i) => json!(self.inst(i)),
                    None => Value::Null,
                };
                self.vtables.entry(k.clone()).or_insert(json!({}))[&c] = r;
                new = true;
            }
        }
        new
    }
    fn pointee(t: Ty) -> Option<Ty> {
        match t.kind() {
            TyKind::RigidTy(RigidTy::Ref(_, e, _)) | TyKind::RigidTy(RigidTy::RawPtr(e, _)) => Some(e),
            TyKind::RigidTy(RigidTy::Adt(d, args)) if d.is_box() => args.0.first().map(|a| *a.expect_ty()),
            _ => None,
        }
    }
    fn ty_json(&mut self, t: Ty) -> Value {
        let size = t.layout().ok().map(|l| l.shape().size.bytes());
        let disp = format!("{}", t);
        let mut v = match t.kind() {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => json!({"k":"bool"}),
                RigidTy::Char => json!({"k":"char"}),
                RigidTy::Int(i) => json!({"k":"int","w":i.num_bytes()*8,"s":true,"sz":matches!(i,IntTy::Isize)}),
                RigidTy::Uint(i) => json!({"k":"int","w":i.num_bytes()*8,"s":false,"sz":matches!(i,UintTy::Usize)}),
                RigidTy::Float(f) => json!({"k":"float","w": match f {FloatTy::F16=>16,FloatTy::F32=>32,FloatTy::F64=>64,FloatTy::F128=>128}}),
                RigidTy::Adt(def, args) => {
                    let mut vs = vec![];
                    for va in def.variants() {
                        let fs: Vec<Value> = va
                            .fields()
                            .iter()
                            .map(|f| {
                                let ft = f.ty_with_args(&args);
                                json!({"name": f.name, "ty": self.ty(ft)})
                            })
                            .collect();
                        let d = if def.kind().is_enum() {
                            def.discriminant_for_variant(va.idx()).val.to_string()
                        } else {
                            "0".to_string()
                        };
                        vs.push(json!({"name": va.name(), "discr": d, "fields": fs}));
                    }
                    let ga: Vec<Value> = args.0.iter().map(|a| match a {
                        GenericArgKind::Type(t) => json!(self.ty(*t)),
                        GenericArgKind::Const(c) => json!({"const": format!("{:?}", c.eval_target_usize().ok())}),
                        _ => Value::Null,
                    }).filter(|v| !v.is_null()).collect();
                    let kind = if def.kind().is_enum() { "enum" } else if def.kind().is_struct() { "struct" } else { "union" };
                    json!({"k":"adt","kind":kind,"name":def.name(),"args":ga,"variants":vs,"krate":def.krate().name})
                }
                RigidTy::Str => json!({"k":"str"}),
                RigidTy::Array(e, n) => json!({"k":"array","elem":self.ty(e),"len":n.eval_target_usize().ok()}),
                RigidTy::Slice(e) => json!({"k":"slice","elem":self.ty(e)}),
                RigidTy::RawPtr(e, m) => json!({"k":"ptr","to":self.ty(e),"mut":m==Mutability::Mut}),
                RigidTy::Ref(_, e, m) => json!({"k":"ref","to":self.ty(e),"mut":m==Mutability::Mut}),
                RigidTy::Tuple(ts) => {
                    let v: Vec<usize> = ts.iter().map(|t| self.ty(*t)).collect();
                    json!({"k":"tuple","elems":v})
                }
                RigidTy::Never => json!({"k":"never"}),
                RigidTy::FnDef(d, args) => {
                    let i = Instance::resolve_for_fn_ptr(d, &args).ok().map(|i| self.inst(i));
                    json!({"k":"fndef","name":d.name(),"fn":i})
                }
                RigidTy::Closure(d, args) => {
                    // upvars are a tuple: the last generic argument
                    let up = args.0.last().map(|a| *a.expect_ty());
                    let upi = up.map(|u| self.ty(u));
                    let i = Instance::resolve_closure(d, &args, ClosureKind::FnOnce).ok().map(|i| self.inst(i));
                    json!({"k":"closure","name":d.name(),"up":upi,"fn":i})
                }
                RigidTy::FnPtr(_) => json!({"k":"fnptr"}),
                RigidTy::Dynamic(..) => json!({"k":"dyn"}),
                _ => json!({"k":"other"}),
            },
            _ => json!({"k":"nonrigid"}),
        };
        v["disp"] = json!(disp);
        v["size"] = json!(size);
        v
    }
    fn place(&mut self, p: &Place) -> Value {
        let pr: Vec<Value> = p
            .projection
            .iter()
            .map(|e| match e {
                ProjectionElem::Deref => json!("d"),
                ProjectionElem::Field(i, t) => json!(["f", i, self.ty(*t)]),
                ProjectionElem::Index(l) => json!(["i", l]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => json!(["c", offset, min_length, from_end]),
                ProjectionElem::Subslice { from, to, from_end } => json!(["s", from, to, from_end]),
                ProjectionElem::Downcast(v) => {
                    let n: Value = serde_json::to_value(v).unwrap();
                    json!(["v", n])
                }
                ProjectionElem::OpaqueCast(t) => json!(["o", self.ty(*t)]),
            })
            .collect();
        json!([p.local, pr])
    }
    fn operand(&mut self, o: &Operand) -> Value {
        match o {
            Operand::Copy(p) => json!({"p": self.place(p)}),
            Operand::Move(p) => json!({"p": self.place(p), "m": true}),
            Operand::Constant(c) => {
                let t = c.const_.ty();
                let v = self.konst(&c.const_);
                json!({"c": v, "t": self.ty(t)})
            }
            Operand::RuntimeChecks(r) => json!({"rc": format!("{:?}", r)}),
        }
    }
    fn konst(&mut self, c: &MirConst) -> Value {
        let t = c.ty();
        match c.kind() {
            ConstantKind::Allocated(a) => self.decode(a, 0, t),
            ConstantKind::ZeroSized => self.zst(t),
            ConstantKind::Ty(tc) => match tc.kind() {
                TyConstKind::Value(t, a) => self.decode(a, 0, *t),
                TyConstKind::ZSTValue(t) => self.zst(*t),
                _ => json!({"k":"unk"}),
            },
            _ => json!({"k":"unk"}),
        }
    }
    fn zst(&mut self, t: Ty) -> Value {
        json!({"k":"zst","t":self.ty(t)})
    }
    fn prov_at(&self, a: &Allocation, off: usize) -> Option<rustc_public::mir::alloc::AllocId> {
        a.provenance.ptrs.iter().find(|(o, _)| *o == off).map(|(_, p)| p.0)
    }
    fn decode(&mut self, a: &Allocation, off: usize, t: Ty) -> Value {
        match self.try_decode(a, off, t) {
            Some(v) => v,
            None => json!({"k":"unk","t":self.ty(t),"bytes":format!("{:?}", a.bytes), "prov": format!("{:?}",a.provenance)}),
        }
    }
    fn try_decode(&mut self, a: &Allocation, off: usize, t: Ty) -> Option<Value> {
        let shape = t.layout().ok()?.shape();
        let size = shape.size.bytes();
        let rd = |o: usize, n: usize| a.read_partial_uint(o..o + n).ok();
        if size == 0 {
            return Some(self.zst(t));
        }
        let TyKind::RigidTy(r) = t.kind() else { return None };
        Some(match r {
            RigidTy::Bool => json!({"k":"bool","v":rd(off,1)?!=0}),
            RigidTy::Char => json!({"k":"int","v":rd(off,4)?.to_string()}),
            RigidTy::Int(_) => {
                let u = rd(off, size)?;
                let sh = 128 - size as u32 * 8;
                let s = ((u << sh) as i128) >> sh;
                json!({"k":"int","v":s.to_string()})
            }
            RigidTy::Uint(_) => json!({"k":"int","v":rd(off,size)?.to_string()}),
            RigidTy::Float(_) => json!({"k":"float","w":size*8,"bits":rd(off,size)?.to_string()}),
            RigidTy::Tuple(ts) => {
                let FieldsShape::Arbitrary { offsets } = &shape.fields else { return None };
                let mut v = vec![];
                for (i, ft) in ts.iter().enumerate() {
                    v.push(self.decode(a, off + offsets[i].bytes(), *ft));
                }
                json!({"k":"tup","f":v})
            }
            RigidTy::Array(e, n) => {
                let n = n.eval_target_usize().ok()?;
                let es = e.layout().ok()?.shape().size.bytes();
                let v: Vec<Value> = (0..n).map(|i| self.decode(a, off + i as usize * es, e)).collect();
                json!({"k":"arr","f":v})
            }
            RigidTy::Adt(def, args) => {
                if def.kind().is_union() {
                    return None;
                }
                let vs = def.variants();
                let (vi, offs): (usize, Vec<usize>) = match &shape.variants {
                    VariantsShape::Single { index } => {
                        let FieldsShape::Arbitrary { offsets } = &shape.fields else {
                            return None;
                        };
                        let n: usize = serde_json::from_value(serde_json::to_value(index).ok()?).ok()?;
                        (n, offsets.iter().map(|o| o.bytes()).collect())
                    }
                    VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                        let FieldsShape::Arbitrary { offsets } = &shape.fields else { return None };
                        let toff = off + offsets[*tag_field].bytes();
                        use rustc_public::abi::{Primitive, Scalar};
                        let prim = match tag { Scalar::Initialized { value, .. } => value, Scalar::Union { value } => value };
                        let tsz = match prim {
                            Primitive::Int { length, .. } => length.bits() / 8,
                            _ => 8,
                        };
                        let isptr = self.prov_at(a, toff).is_some();
                        let tagv = if isptr { None } else { Some(rd(toff, tsz)?) };
                        let vi = match tag_encoding {
                            TagEncoding::Direct => {
                                let tv = tagv?;
                                let m = if tsz >= 16 { u128::MAX } else { (1u128 << (tsz * 8)) - 1 };
                                let mut r = None;
                                for (i, va) in vs.iter().enumerate() {
                                    if def.discriminant_for_variant(va.idx()).val & m == tv {
                                        r = Some(i);
                                    }
                                }
                                r?
                            }
                            TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                let u: usize = serde_json::from_value(serde_json::to_value(untagged_variant).ok()?).ok()?;
                                let s: usize = serde_json::from_value(serde_json::to_value(niche_variants.start()).ok()?).ok()?;
                                let e: usize = serde_json::from_value(serde_json::to_value(niche_variants.end()).ok()?).ok()?;
                                match tagv {
                                    None => u,
                                    Some(tv) => {
                                        let m = if tsz >= 16 { u128::MAX } else { (1u128 << (tsz * 8)) - 1 };
                                        let rel = tv.wrapping_sub(*niche_start) & m;
                                        if rel <= (e - s) as u128 { s + rel as usize } else { u }
                                    }
                                }
                            }
                        };
                        (vi, variants[vi].offsets.iter().map(|o| o.bytes()).collect())
                    }
                    _ => return None,
                };
                let fields = vs[vi].fields();
                let mut v = vec![];
                for (i, f) in fields.iter().enumerate() {
                    v.push(self.decode(a, off + offs[i], f.ty_with_args(&args)));
                }
                json!({"k":"adt","v":vi,"f":v,"t":self.ty(t)})
            }
            RigidTy::Ref(_, e, _) | RigidTy::RawPtr(e, _) => {
                let Some(id) = self.prov_at(a, off) else {
                    return Some(json!({"k":"int","v":rd(off,size)?.to_string(),"t":self.ty(t)}));
                };
                let toff = rd(off, 8)? as usize;
                match GlobalAlloc::from(id) {
                    GlobalAlloc::Memory(m) => match e.kind() {
                        TyKind::RigidTy(RigidTy::Slice(el)) => {
                            let n = rd(off + 8, 8)? as usize;
                            let es = el.layout().ok()?.shape().size.bytes();
                            let v: Vec<Value> = (0..n).map(|i| self.decode(&m, toff + i * es, el)).collect();
                            json!({"k":"ref","v":{"k":"arr","f":v}})
                        }
                        TyKind::RigidTy(RigidTy::Str) => {
                            let n = rd(off + 8, 8)? as usize;
                            let b: Option<Vec<u8>> = m.bytes[toff..toff + n].iter().cloned().collect();
                            json!({"k":"str","v":String::from_utf8_lossy(&b?)})
                        }
                        TyKind::RigidTy(RigidTy::Dynamic(..)) => return None,
                        _ => json!({"k":"ref","v":self.decode(&m, toff, e)}),
                    },
                    GlobalAlloc::Static(s) => json!({"k":"static","name":s.name()}),
                    _ => return None,
                }
            }
            RigidTy::FnPtr(_) => {
                let id = self.prov_at(a, off)?;
                match GlobalAlloc::from(id) {
                    GlobalAlloc::Function(i) => json!({"k":"fnptr","fn":self.inst(i)}),
                    _ => return None,
                }
            }
            _ => return None,
        })
    }
    fn rvalue(&mut self, r: &Rvalue) -> Value {
        match r {
            Rvalue::AddressOf(_, p) => json!(["addr", self.place(p)]),
            Rvalue::Ref(_, bk, p) => json!(["ref", self.place(p), matches!(bk, BorrowKind::Mut{..})]),
            Rvalue::Aggregate(k, ops) => {
                let ov: Vec<Value> = ops.iter().map(|o| self.operand(o)).collect();
                let kv = match k {
                    AggregateKind::Array(t) => json!({"k":"array","t":self.ty(*t)}),
                    AggregateKind::Tuple => json!({"k":"tuple"}),
                    AggregateKind::Adt(d, v, args, _, fi) => {
                        let t = d.ty_with_args(args);
                        json!({"k":"adt","t":self.ty(t),"v":serde_json::to_value(v).unwrap(),"fi":fi})
                    }
                    AggregateKind::Closure(d, args) => {
                        let t = Ty::new_closure(*d, args.clone());
                        json!({"k":"closure","t":self.ty(t)})
                    }
                    AggregateKind::RawPtr(t, _) => json!({"k":"rawptr","t":self.ty(*t)}),
                    _ => json!({"k":"other"}),
                };
                json!(["agg", kv, ov])
            }
            Rvalue::BinaryOp(op, a, b) => json!(["bin", format!("{:?}", op), self.operand(a), self.operand(b)]),
            Rvalue::CheckedBinaryOp(op, a, b) => json!(["cbin", format!("{:?}", op), self.operand(a), self.operand(b)]),
            Rvalue::Cast(k, o, t) if format!("{:?}", k).contains("Unsize") => {
                // a trait object: the concrete type goes along
                let from = o.ty(&self.locals).ok().and_then(Self::pointee);
                let mut conc = Value::Null;
                if let (Some(f), Some(to)) = (from, Self::pointee(*t)) {
                    if let TyKind::RigidTy(RigidTy::Dynamic(..)) = to.kind() {
                        if !self.dyns.iter().any(|x| *x == (to, f)) {
                            self.dyns.push((to, f));
                        }
                        conc = json!(self.ty(f));
                    }
                }
                json!(["cast", format!("{:?}", k), self.operand(o), self.ty(*t), conc])
            }
            Rvalue::Cast(k, o, t) => json!(["cast", format!("{:?}", k), self.operand(o), self.ty(*t)]),
            Rvalue::CopyForDeref(p) => json!(["use", {"p": self.place(p)}]),
            Rvalue::Discriminant(p) => json!(["discr", self.place(p)]),
            Rvalue::Len(p) => json!(["len", self.place(p)]),
            Rvalue::Repeat(o, n) => json!(["repeat", self.operand(o), n.eval_target_usize().ok()]),
            Rvalue::UnaryOp(op, a) => json!(["un", format!("{:?}", op), self.operand(a)]),
            Rvalue::Use(o, _) => json!(["use", self.operand(o)]),
            Rvalue::Reborrow(_, _, p) => json!(["ref", {"p0": 0}, self.place(p)]),
            Rvalue::ThreadLocalRef(_) => json!(["tls"]),
        }
    }
    fn stmt(&mut self, s: &Statement) -> Option<Value> {
        Some(match &s.kind {
            StatementKind::Assign(p, r) => {
                let a = self.place(p);
                json!(["=", a, self.rvalue(r)])
            }
            StatementKind::SetDiscriminant { place, variant_index } => {
                json!(["setd", self.place(place), serde_json::to_value(variant_index).unwrap()])
            }
            StatementKind::Intrinsic(NonDivergingIntrinsic::Assume(o)) => json!(["assume", self.operand(o)]),
            StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(c)) => {
                json!(["copy", self.operand(&c.src), self.operand(&c.dst), self.operand(&c.count)])
            }
            _ => return None,
        })
    }
    fn fn_json(&mut self, i: Instance) -> Value {
        let name = i.name();
        let def = i.def.name();
        let kind = match i.kind {
            InstanceKind::Item => "item",
            InstanceKind::Intrinsic => "intrinsic",
            InstanceKind::LlvmIntrinsic => "intrinsic",
            InstanceKind::Virtual { .. } => "virtual",
            InstanceKind::Shim => "shim",
        };
        let args: Vec<Value> = i.args().0.iter().map(|a| match a {
            GenericArgKind::Type(t) => json!(self.ty(*t)),
            GenericArgKind::Const(c) => json!({"const": c.eval_target_usize().ok()}),
            _ => Value::Null,
        }).filter(|v| !v.is_null()).collect();
        let krate = i.def.krate().name;
        let mut v = json!({"name": name, "def": def, "kind": kind, "krate": krate, "args": args,
            "intr": i.intrinsic_name()});
        let skip = SKIP.iter().any(|p| def.starts_with(p) || def.starts_with(&format!("<{}", p))
            || name.starts_with(p) || name.starts_with(&format!("<{}", p)));
        if skip {
            v["skipped"] = json!(true);
            return v;
        }
        if std::env::var("MIRDUMP_DEBUG").is_ok() { eprintln!("body of {} | {}", name, def); }
        // A body that cannot be instantiated is left out; calling it is then an unsupported construct.
        let body = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| i.body())).ok().flatten();
        if let Some(b) = body {
            self.locals = b.locals().to_vec();
            let sp = b.span;
            let ln = sp.get_lines();
            v["span"] = json!(format!("{}:{}", sp.get_filename(), ln.start_line));
            let locals: Vec<usize> = b.locals().iter().map(|l| self.ty(l.ty)).collect();
            let mut blocks = vec![];
            for bb in &b.blocks {
                let ss: Vec<Value> = bb.statements.iter().filter_map(|s| self.stmt(s)).collect();
                let line = bb.terminator.source_info.span.get_lines().start_line;
                let t = match &bb.terminator.kind {
                    TerminatorKind::Goto { target } => json!({"k":"goto","to":target}),
                    TerminatorKind::SwitchInt { discr, targets } => {
                        let br: Vec<Value> = targets.branches().map(|(v, b)| json!([v.to_string(), b])).collect();
                        let ty = discr.ty(b.locals()).unwrap();
                        json!({"k":"switch","d":self.operand(discr),"br":br,"else":targets.otherwise(),"ty":self.ty(ty)})
                    }
                    TerminatorKind::Return => json!({"k":"ret"}),
                    TerminatorKind::Resume | TerminatorKind::Abort => json!({"k":"abort"}),
                    TerminatorKind::Unreachable => json!({"k":"unreach"}),
                    TerminatorKind::Drop { place, target, .. } => {
                        let ty = place.ty(b.locals()).unwrap();
                        json!({"k":"drop","p":self.place(place),"ty":self.ty(ty),"to":target})
                    }
                    TerminatorKind::Call { func, args, destination, target, .. } => {
                        let fty = func.ty(b.locals()).unwrap();
                        let callee = match fty.kind() {
                            TyKind::RigidTy(RigidTy::FnDef(d, ga)) => match self.resolve(d, &ga) {
                                Some(ci) => {
                                    if let InstanceKind::Virtual { .. } = ci.kind {
                                        let k = key(&ci);
                                        if !self.virtuals.iter().any(|v| v.2 == k) {
                                            self.virtuals.push((d, ga.clone(), k));
                                        }
                                    }
                                    json!({"fn": self.inst(ci)})
                                }
                                None => json!({"unresolved": d.name()}),
                            },
                            _ => json!({"op": self.operand(func)}),
                        };
                        let av: Vec<Value> = args.iter().map(|a| self.operand(a)).collect();
                        json!({"k":"call","f":callee,"args":av,"dest":self.place(destination),"to":target})
                    }
                    TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                        let m = match msg {
                            AssertMessage::BoundsCheck { .. } => "index out of bounds".to_string(),
                            m => m.description().unwrap_or("assert").to_string(),
                        };
                        json!({"k":"assert","c":self.operand(cond),"exp":expected,"msg":m,"to":target})
                    }
                    _ => json!({"k":"unsupported"}),
                };
                let mut t = t;
                t["line"] = json!(line);
                blocks.push(json!({"s": ss, "t": t}));
            }
            v["body"] = json!({"locals": locals, "argc": b.arg_locals().len(), "spread": b.spread_arg(), "blocks": blocks});
            let names: Map<String, Value> = b.var_debug_info.iter().filter_map(|d| d.local().map(|l| (l.to_string(), json!(d.name)))).collect();
            v["names"] = Value::Object(names);
        }
        v
    }
}

fn dump(tcx: ity::TyCtxt<'_>) -> ControlFlow<()> {
    let mut d = D { tcx, types: Map::new(), tyids: HashMap::new(), tyq: VecDeque::new(), fns: Map::new(), seen: HashSet::new(), q: VecDeque::new(), dyns: vec![], locals: vec![], virtuals: vec![], vtables: Map::new() };
    let mut roots = Map::new();
    for it in rustc_public::all_local_items() {
        if it.kind() == ItemKind::Fn && !it.requires_monomorphization() && it.name().ends_with("::contract") {
            if let Ok(i) = Instance::try_from(it) {
                let k = d.inst(i);
                roots.insert(it.name(), json!(k));
            }
        }
    }
    d.drain();
    let out = json!({"roots": roots, "fns": d.fns, "types": d.types, "vtables": d.vtables});
    std::fs::write(std::env::var("MIRDUMP_OUT").unwrap(), serde_json::to_string(&out).unwrap()).unwrap();
    ControlFlow::Continue(())
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // as RUSTC_WRAPPER: argv = [mirdump, rustc, args...]
    args.remove(0);
    let crate_name = args.iter().position(|a| a == "--crate-name").map(|p| args[p + 1].clone());
    args.push("-Zalways-encode-mir".into());
    args.push("-Zmir-enable-passes=-Inline,-JumpThreading,-GVN".into());
    let want = std::env::var("MIRDUMP_CRATE").ok();
    if want.is_some() && crate_name == want && !args.iter().any(|a| a == "--print") {
        let r = run_with_tcx!(&args, dump);
        std::process::exit(if r.is_ok() { 0 } else { 1 });
    }
    let st = std::process::Command::new(&args[0]).args(&args[1..]).status().unwrap();
    std::process::exit(st.code().unwrap_or(1));
}
