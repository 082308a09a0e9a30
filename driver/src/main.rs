//! gbdump: RUSTC_WORKSPACE_WRAPPER driver that exports the resolved, monomorphic MIR of a crate as
//! JSON.  It is a thin exporter: every callee is resolved through the type checker, every constant
//! is decoded by type, every ADT is described (fields, variants, discriminants).  All decisions are
//! taken by the analyser that reads the JSON.
//!
//! env GBDUMP_CRATE = crate name to dump, GBDUMP_OUT = output path.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;
#[macro_use]
extern crate rustc_public;
extern crate rustc_public_bridge;
use rustc_public_bridge::IndexedVal;
use rustc_public::CrateDefType;

use rustc_middle::ty::TyCtxt;
use rustc_public::abi::*;
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind, StaticDef};
use rustc_public::mir::*;
use rustc_public::rustc_internal;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateItem, ItemKind};
use std::collections::{HashMap, HashSet, VecDeque};
use std::fmt::Write as _;
use std::ops::ControlFlow;

fn q(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr<I: IntoIterator<Item = String>>(it: I) -> String {
    format!("[{}]", it.into_iter().collect::<Vec<_>>().join(","))
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<String>,
    tyidx: HashMap<Ty, usize>,
    inst_queue: VecDeque<Instance>,
    inst_seen: HashMap<String, usize>,
    inst_names: Vec<String>,
    statics: HashMap<String, String>,
    local_crate: String,
}

impl<'tcx> Cx<'tcx> {
    fn inst(&mut self, i: Instance) -> usize {
        let key = format!("{}#{}", i.mangled_name(), i.name());
        if let Some(&n) = self.inst_seen.get(&key) {
            return n;
        }
        let n = self.inst_names.len();
        self.inst_seen.insert(key, n);
        self.inst_names.push(i.name().to_string());
        self.inst_queue.push_back(i);
        n
    }

    fn ty(&mut self, t: Ty) -> usize {
        if let Some(&i) = self.tyidx.get(&t) {
            return i;
        }
        let idx = self.types.len();
        self.tyidx.insert(t, idx);
        self.types.push(String::new());
        let s = self.ty_desc(t);
        self.types[idx] = s;
        idx
    }

    fn gargs(&mut self, args: &GenericArgs) -> String {
        let mut v = vec![];
        for a in &args.0 {
            match a {
                GenericArgKind::Type(t) => v.push(format!("{{\"t\":{}}}", self.ty(*t))),
                GenericArgKind::Const(c) => v.push(match c.eval_target_usize() {
                    Ok(n) => format!("{{\"n\":{n}}}"),
                    Err(_) => match c.kind() {
                        TyConstKind::Value(_, a) => format!(
                            "{{\"n\":{}}}",
                            a.read_uint().map(|x| x.to_string()).unwrap_or("null".into())
                        ),
                        _ => "{\"n\":null}".into(),
                    },
                }),
                GenericArgKind::Lifetime(_) => {}
            }
        }
        arr(v)
    }

    fn ty_desc(&mut self, t: Ty) -> String {
        let s = q(&format!("{t}"));
        let size = t
            .layout()
            .ok()
            .map(|l| l.shape().size.bytes().to_string())
            .unwrap_or("null".into());
        match t.kind() {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => format!("{{\"k\":\"bool\",\"s\":{s}}}"),
                RigidTy::Char => format!("{{\"k\":\"char\",\"s\":{s}}}"),
                RigidTy::Int(_) => format!("{{\"k\":\"int\",\"s\":{s},\"size\":{size}}}"),
                RigidTy::Uint(_) => format!("{{\"k\":\"uint\",\"s\":{s},\"size\":{size}}}"),
                RigidTy::Float(_) => format!("{{\"k\":\"float\",\"s\":{s},\"size\":{size}}}"),
                RigidTy::Str => format!("{{\"k\":\"str\",\"s\":{s}}}"),
                RigidTy::Never => format!("{{\"k\":\"never\",\"s\":{s}}}"),
                RigidTy::Ref(_, inner, m) => {
                    let i = self.ty(inner);
                    format!(
                        "{{\"k\":\"ref\",\"s\":{s},\"t\":{i},\"m\":{}}}",
                        m == Mutability::Mut
                    )
                }
                RigidTy::RawPtr(inner, m) => {
                    let i = self.ty(inner);
                    format!(
                        "{{\"k\":\"ptr\",\"s\":{s},\"t\":{i},\"m\":{}}}",
                        m == Mutability::Mut
                    )
                }
                RigidTy::Slice(inner) => {
                    let i = self.ty(inner);
                    format!("{{\"k\":\"slice\",\"s\":{s},\"t\":{i}}}")
                }
                RigidTy::Array(inner, n) => {
                    let i = self.ty(inner);
                    let n = n.eval_target_usize().map(|x| x.to_string()).unwrap_or("null".into());
                    format!("{{\"k\":\"array\",\"s\":{s},\"t\":{i},\"n\":{n}}}")
                }
                RigidTy::Tuple(ts) => {
                    let v: Vec<_> = ts.iter().map(|t| self.ty(*t).to_string()).collect();
                    format!("{{\"k\":\"tuple\",\"s\":{s},\"ts\":{}}}", arr(v))
                }
                RigidTy::FnDef(def, args) => {
                    let ga = self.gargs(&args);
                    let name = q(&def.name());
                    let inst = match Instance::resolve(def, &args) {
                        Ok(i) => self.inst(i).to_string(),
                        Err(_) => "null".into(),
                    };
                    format!("{{\"k\":\"fndef\",\"s\":{s},\"name\":{name},\"args\":{ga},\"inst\":{inst}}}")
                }
                RigidTy::Closure(def, args) => {
                    let ga = self.gargs(&args);
                    let tys: Vec<Ty> = args
                        .0
                        .iter()
                        .filter_map(|a| match a {
                            GenericArgKind::Type(t) => Some(*t),
                            _ => None,
                        })
                        .collect();
                    let kind = tys
                        .get(tys.len().wrapping_sub(3))
                        .map(|t| format!("{t}"))
                        .unwrap_or_default();
                    let ck = match kind.as_str() {
                        "i8" => ClosureKind::Fn,
                        "i16" => ClosureKind::FnMut,
                        _ => ClosureKind::FnOnce,
                    };
                    let upv = tys.last().map(|t| self.ty(*t).to_string()).unwrap_or("null".into());
                    let inst = match Instance::resolve_closure(def, &args, ck) {
                        Ok(i) => self.inst(i).to_string(),
                        Err(_) => "null".into(),
                    };
                    format!(
                        "{{\"k\":\"closure\",\"s\":{s},\"name\":{},\"ck\":{},\"upv\":{upv},\"args\":{ga},\"inst\":{inst}}}",
                        q(&def.name()),
                        q(&kind)
                    )
                }
                RigidTy::Adt(def, args) => {
                    let ga = self.gargs(&args);
                    let name = q(&def.name());
                    let krate = q(&def.krate().name.to_string());
                    let kind = match def.kind() {
                        AdtKind::Enum => "enum",
                        AdtKind::Union => "union",
                        AdtKind::Struct => "struct",
                    };
                    let mut vs = vec![];
                    for v in def.variants() {
                        let discr = if def.kind() == AdtKind::Enum {
                            def.discriminant_for_variant(v.idx()).val.to_string()
                        } else {
                            "0".into()
                        };
                        let mut fs = vec![];
                        for f in v.fields() {
                            let ft = f.ty_with_args(&args);
                            let fi = self.ty(ft);
                            fs.push(format!("{{\"n\":{},\"t\":{fi}}}", q(&f.name.to_string())));
                        }
                        vs.push(format!(
                            "{{\"n\":{},\"d\":{discr},\"fs\":{}}}",
                            q(&v.name().to_string()),
                            arr(fs)
                        ));
                    }
                    format!("{{\"k\":\"adt\",\"s\":{s},\"name\":{name},\"crate\":{krate},\"ak\":\"{kind}\",\"args\":{ga},\"vs\":{},\"size\":{size}}}", arr(vs))
                }
                _ => format!("{{\"k\":\"other\",\"s\":{s}}}"),
            },
            _ => format!("{{\"k\":\"other\",\"s\":{s}}}"),
        }
    }

    // ---- constant decoding ----
    fn dec(&mut self, a: &Allocation, off: usize, t: Ty, depth: usize) -> String {
        self.try_dec(a, off, t, depth).unwrap_or_else(|| "{\"k\":\"?\"}".into())
    }
    fn try_dec(&mut self, a: &Allocation, off: usize, t: Ty, depth: usize) -> Option<String> {
        if depth > 8 {
            return None;
        }
        let layout = t.layout().ok()?.shape();
        let size = layout.size.bytes();
        match t.kind() {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => {
                    let v = a.read_partial_uint(off..off + 1).ok()?;
                    Some(format!("{{\"k\":\"b\",\"v\":{}}}", v != 0))
                }
                RigidTy::Char => {
                    let v = a.read_partial_uint(off..off + 4).ok()?;
                    Some(format!("{{\"k\":\"ch\",\"v\":{v}}}"))
                }
                RigidTy::Uint(_) => {
                    let v = a.read_partial_uint(off..off + size).ok()?;
                    Some(format!("{{\"k\":\"i\",\"v\":{v}}}"))
                }
                RigidTy::Int(_) => {
                    let v = a.read_partial_uint(off..off + size).ok()?;
                    let bits = size * 8;
                    let sv = if bits < 128 && (v >> (bits - 1)) & 1 == 1 {
                        v as i128 - (1i128 << bits)
                    } else {
                        v as i128
                    };
                    Some(format!("{{\"k\":\"i\",\"v\":{sv}}}"))
                }
                RigidTy::Float(FloatTy::F32) => {
                    let v = a.read_partial_uint(off..off + 4).ok()?;
                    Some(format!("{{\"k\":\"f\",\"v\":{}}}", q(&format!("{:?}", f32::from_bits(v as u32)))))
                }
                RigidTy::Float(FloatTy::F64) => {
                    let v = a.read_partial_uint(off..off + 8).ok()?;
                    Some(format!("{{\"k\":\"f\",\"v\":{}}}", q(&format!("{:?}", f64::from_bits(v as u64)))))
                }
                RigidTy::Tuple(ts) => {
                    let FieldsShape::Arbitrary { offsets } = layout.fields else {
                        if ts.is_empty() {
                            return Some("{\"k\":\"t\",\"fs\":[]}".into());
                        }
                        return None;
                    };
                    let mut v = vec![];
                    for (i, ft) in ts.iter().enumerate() {
                        v.push(self.dec(a, off + offsets[i].bytes(), *ft, depth + 1));
                    }
                    Some(format!("{{\"k\":\"t\",\"fs\":{}}}", arr(v)))
                }
                RigidTy::Array(et, n) => {
                    let es = et.layout().ok()?.shape().size.bytes();
                    let n = match n.eval_target_usize() {
                        Ok(n) => n as usize,
                        Err(_) if es > 0 => size / es,
                        Err(_) => return None,
                    };
                    let mut v = vec![];
                    for i in 0..n {
                        v.push(self.dec(a, off + i * es, et, depth + 1));
                    }
                    Some(format!("{{\"k\":\"arr\",\"fs\":{}}}", arr(v)))
                }
                RigidTy::Ref(_, inner, _) | RigidTy::RawPtr(inner, _) => {
                    let prov = a
                        .provenance
                        .ptrs
                        .iter()
                        .find(|(o, _)| *o == off)
                        .map(|(_, p)| p.0)?;
                    let base = a.read_partial_uint(off..off + 8).ok()? as usize;
                    match GlobalAlloc::from(prov) {
                        GlobalAlloc::Memory(m) => match inner.kind() {
                            TyKind::RigidTy(RigidTy::Str) => {
                                let len = a.read_partial_uint(off + 8..off + 16).ok()? as usize;
                                let b: Option<Vec<u8>> =
                                    m.bytes[base..base + len].iter().copied().collect();
                                Some(format!(
                                    "{{\"k\":\"str\",\"v\":{}}}",
                                    q(&String::from_utf8_lossy(&b?))
                                ))
                            }
                            TyKind::RigidTy(RigidTy::Slice(et)) => {
                                let len = a.read_partial_uint(off + 8..off + 16).ok()? as usize;
                                let es = et.layout().ok()?.shape().size.bytes();
                                let mut v = vec![];
                                for i in 0..len {
                                    v.push(self.dec(&m, base + i * es, et, depth + 1));
                                }
                                Some(format!(
                                    "{{\"k\":\"ref\",\"v\":{{\"k\":\"arr\",\"fs\":{}}}}}",
                                    arr(v)
                                ))
                            }
                            _ => {
                                let v = self.dec(&m, base, inner, depth + 1);
                                Some(format!("{{\"k\":\"ref\",\"v\":{v}}}"))
                            }
                        },
                        GlobalAlloc::Static(sd) => {
                            let n = self.static_def(sd);
                            Some(format!("{{\"k\":\"refstatic\",\"v\":{}}}", q(&n)))
                        }
                        GlobalAlloc::Function(i) => {
                            let n = self.inst(i);
                            Some(format!("{{\"k\":\"fnptr\",\"v\":{n}}}"))
                        }
                        _ => None,
                    }
                }
                RigidTy::FnDef(..) | RigidTy::Closure(..) => {
                    let i = self.ty(t);
                    Some(format!("{{\"k\":\"zst\",\"t\":{i}}}"))
                }
                RigidTy::Adt(def, args) => {
                    let (vi, offs): (VariantIdx, Vec<usize>) = match (&layout.variants, &layout.fields) {
                        (VariantsShape::Single { index }, FieldsShape::Arbitrary { offsets }) => {
                            (*index, offsets.iter().map(|o| o.bytes()).collect())
                        }
                        (VariantsShape::Single { index }, _) => (*index, vec![]),
                        (
                            VariantsShape::Multiple { tag, tag_encoding, tag_field, variants },
                            FieldsShape::Arbitrary { offsets },
                        ) => {
                            let to = off + offsets[*tag_field].bytes();
                            let prim = match tag {
                                Scalar::Initialized { value, .. } | Scalar::Union { value } => *value,
                            };
                            let ts = match prim {
                                Primitive::Int { length, .. } => length.bits() / 8,
                                Primitive::Float { .. } => return None,
                                Primitive::Pointer(_) => 8,
                            };
                            let has_prov = a.provenance.ptrs.iter().any(|(o, _)| *o == to);
                            let vi = match tag_encoding {
                                TagEncoding::Direct => {
                                    let tv = a.read_partial_uint(to..to + ts).ok()?;
                                    let mask = if ts >= 16 { u128::MAX } else { (1u128 << (ts * 8)) - 1 };
                                    def.variants().iter().map(|v| v.idx()).find(|i| {
                                        def.discriminant_for_variant(*i).val & mask == tv
                                    })?
                                }
                                TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                    if has_prov {
                                        *untagged_variant
                                    } else {
                                        let tv = a.read_partial_uint(to..to + ts).ok()?;
                                        let mask = if ts >= 16 { u128::MAX } else { (1u128 << (ts * 8)) - 1 };
                                        let rel = tv.wrapping_sub(*niche_start) & mask;
                                        let st = niche_variants.start().to_index() as u128;
                                        let en = niche_variants.end().to_index() as u128;
                                        if rel <= en - st {
                                            let want = (st + rel) as usize;
                                            def.variants().iter().map(|v| v.idx()).find(|i| i.to_index() == want)?
                                        } else {
                                            *untagged_variant
                                        }
                                    }
                                }
                            };
                            let vo: Vec<usize> =
                                variants[vi.to_index()].offsets.iter().map(|o| o.bytes()).collect();
                            (vi, vo)
                        }
                        _ => return None,
                    };
                    let v = def.variant(vi)?;
                    let mut fs = vec![];
                    for (i, f) in v.fields().iter().enumerate() {
                        let ft = f.ty_with_args(&args);
                        let o = offs.get(i).copied().unwrap_or(0);
                        fs.push(self.dec(a, off + o, ft, depth + 1));
                    }
                    let ti = self.ty(t);
                    Some(format!(
                        "{{\"k\":\"adt\",\"t\":{ti},\"vi\":{},\"fs\":{}}}",
                        vi.to_index(),
                        arr(fs)
                    ))
                }
                _ => None,
            },
            _ => None,
        }
    }

    fn static_def(&mut self, sd: StaticDef) -> String {
        let n = sd.name().to_string();
        if !self.statics.contains_key(&n) {
            self.statics.insert(n.clone(), "null".into());
            let ty = sd.ty();
            let ti = self.ty(ty);
            let v = match sd.eval_initializer() {
                Ok(a) => self.dec(&a, 0, ty, 0),
                Err(_) => "{\"k\":\"?\"}".into(),
            };
            self.statics.insert(n.clone(), format!("{{\"t\":{ti},\"v\":{v}}}"));
        }
        n
    }

    fn constant(&mut self, c: &MirConst) -> String {
        let t = c.ty();
        let ti = self.ty(t);
        let v = match c.kind() {
            ConstantKind::Allocated(a) => self.dec(a, 0, t, 0),
            ConstantKind::ZeroSized => format!("{{\"k\":\"zst\",\"t\":{ti}}}"),
            ConstantKind::Ty(tc) => match tc.eval_target_usize() {
                Ok(n) => format!("{{\"k\":\"i\",\"v\":{n}}}"),
                Err(_) => "{\"k\":\"?\"}".into(),
            },
            _ => "{\"k\":\"?\"}".into(),
        };
        format!("{{\"t\":{ti},\"v\":{v}}}")
    }

    fn place(&mut self, p: &Place) -> String {
        let mut v = vec![];
        for e in &p.projection {
            v.push(match e {
                ProjectionElem::Deref => "\"*\"".to_string(),
                ProjectionElem::Field(i, t) => format!("{{\"f\":{i},\"t\":{}}}", self.ty(*t)),
                ProjectionElem::Index(l) => format!("{{\"ix\":{l}}}"),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    format!("{{\"ci\":{offset},\"min\":{min_length},\"end\":{from_end}}}")
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    format!("{{\"sub\":[{from},{to}],\"end\":{from_end}}}")
                }
                ProjectionElem::Downcast(v) => format!("{{\"dc\":{}}}", v.to_index()),
                ProjectionElem::OpaqueCast(t) => format!("{{\"oc\":{}}}", self.ty(*t)),
            });
        }
        format!("{{\"l\":{},\"p\":{}}}", p.local, arr(v))
    }

    fn operand(&mut self, o: &Operand) -> String {
        match o {
            Operand::Copy(p) => format!("{{\"o\":\"cp\",\"p\":{}}}", self.place(p)),
            Operand::Move(p) => format!("{{\"o\":\"mv\",\"p\":{}}}", self.place(p)),
            Operand::Constant(c) => format!("{{\"o\":\"c\",\"c\":{}}}", self.constant(&c.const_)),
            Operand::RuntimeChecks(_) => "{\"o\":\"rt\"}".into(),
        }
    }

    fn rvalue(&mut self, r: &Rvalue) -> String {
        match r {
            Rvalue::AddressOf(_, p) => format!("{{\"r\":\"ref\",\"m\":true,\"raw\":true,\"p\":{}}}", self.place(p)),
            Rvalue::Reborrow(_, m, p) => format!(
                "{{\"r\":\"ref\",\"m\":{},\"p\":{}}}",
                *m == Mutability::Mut,
                self.place(p)
            ),
            Rvalue::Ref(_, bk, p) => format!(
                "{{\"r\":\"ref\",\"m\":{},\"p\":{}}}",
                matches!(bk, BorrowKind::Mut { .. }),
                self.place(p)
            ),
            Rvalue::Aggregate(k, ops) => {
                let os: Vec<_> = ops.iter().map(|o| self.operand(o)).collect();
                let ks = match k {
                    AggregateKind::Array(t) => format!("{{\"k\":\"array\",\"t\":{}}}", self.ty(*t)),
                    AggregateKind::Tuple => "{\"k\":\"tuple\"}".into(),
                    AggregateKind::Adt(d, v, a, _, af) => {
                        let t = self.ty(d.ty_with_args(a));
                        format!(
                            "{{\"k\":\"adt\",\"t\":{t},\"v\":{},\"af\":{}}}",
                            v.to_index(),
                            af.map(|x| x.to_string()).unwrap_or("null".into())
                        )
                    }
                    AggregateKind::Closure(d, a) => {
                        let t = self.ty(Ty::new_closure(*d, a.clone()));
                        format!("{{\"k\":\"closure\",\"t\":{t}}}")
                    }
                    _ => "{\"k\":\"other\"}".into(),
                };
                format!("{{\"r\":\"agg\",\"k\":{ks},\"os\":{}}}", arr(os))
            }
            Rvalue::BinaryOp(op, a, b) => format!(
                "{{\"r\":\"bin\",\"op\":\"{op:?}\",\"a\":{},\"b\":{}}}",
                self.operand(a),
                self.operand(b)
            ),
            Rvalue::CheckedBinaryOp(op, a, b) => format!(
                "{{\"r\":\"cbin\",\"op\":\"{op:?}\",\"a\":{},\"b\":{}}}",
                self.operand(a),
                self.operand(b)
            ),
            Rvalue::Cast(k, o, t) => format!(
                "{{\"r\":\"cast\",\"k\":{},\"o\":{},\"t\":{}}}",
                q(&format!("{k:?}")),
                self.operand(o),
                self.ty(*t)
            ),
            Rvalue::CopyForDeref(p) => {
                format!("{{\"r\":\"use\",\"o\":{{\"o\":\"cp\",\"p\":{}}}}}", self.place(p))
            }
            Rvalue::Discriminant(p) => format!("{{\"r\":\"discr\",\"p\":{}}}", self.place(p)),
            Rvalue::Len(p) => format!("{{\"r\":\"len\",\"p\":{}}}", self.place(p)),
            Rvalue::Repeat(o, n) => format!(
                "{{\"r\":\"repeat\",\"o\":{},\"n\":{}}}",
                self.operand(o),
                n.eval_target_usize().map(|x| x.to_string()).unwrap_or("null".into())
            ),
            Rvalue::ThreadLocalRef(_) => "{\"r\":\"tls\"}".into(),
            Rvalue::UnaryOp(op, o) => {
                format!("{{\"r\":\"un\",\"op\":\"{op:?}\",\"o\":{}}}", self.operand(o))
            }
            Rvalue::Use(o, ..) => format!("{{\"r\":\"use\",\"o\":{}}}", self.operand(o)),
        }
    }

    fn body(&mut self, b: &Body) -> String {
        let locals: Vec<_> = b.locals().iter().map(|l| self.ty(l.ty).to_string()).collect();
        let mut names = vec![];
        for v in &b.var_debug_info {
            if let Some(l) = v.local() {
                names.push(format!("[{l},{}]", q(&v.name.to_string())));
            }
        }
        let mut blocks = vec![];
        for bb in &b.blocks {
            let mut st = vec![];
            for s in &bb.statements {
                let ln = s.source_info.span.get_lines().start_line;
                match &s.kind {
                    StatementKind::Assign(p, r) => {
                        st.push(format!("{{\"s\":\"=\",\"p\":{},\"r\":{},\"ln\":{ln}}}", self.place(p), self.rvalue(r)))
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => st.push(format!(
                        "{{\"s\":\"setd\",\"p\":{},\"v\":{}}}",
                        self.place(place),
                        variant_index.to_index()
                    )),
                    _ => {}
                }
            }
            let ln = bb.terminator.source_info.span.get_lines().start_line;
            let t = match &bb.terminator.kind {
                TerminatorKind::Goto { target } => format!("{{\"k\":\"goto\",\"t\":{target}}}"),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let br: Vec<_> = targets.branches().map(|(v, t)| format!("[{v},{t}]")).collect();
                    format!(
                        "{{\"k\":\"switch\",\"d\":{},\"br\":{},\"ow\":{}}}",
                        self.operand(discr),
                        arr(br),
                        targets.otherwise()
                    )
                }
                TerminatorKind::Return => "{\"k\":\"ret\"}".into(),
                TerminatorKind::Unreachable => "{\"k\":\"unreach\"}".into(),
                TerminatorKind::Resume => "{\"k\":\"resume\"}".into(),
                TerminatorKind::Abort => "{\"k\":\"abort\"}".into(),
                TerminatorKind::Drop { target, .. } => format!("{{\"k\":\"goto\",\"t\":{target},\"drop\":true}}"),
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let fty = func.ty(b.locals()).ok();
                    let mut fi = "null".to_string();
                    if let Some(ft) = fty {
                        fi = self.ty(ft).to_string();
                    }
                    let fo = self.operand(func);
                    let av: Vec<_> = args.iter().map(|a| self.operand(a)).collect();
                    format!(
                        "{{\"k\":\"call\",\"fty\":{fi},\"f\":{fo},\"a\":{},\"d\":{},\"t\":{}}}",
                        arr(av),
                        self.place(destination),
                        target.map(|t| t.to_string()).unwrap_or("null".into())
                    )
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = format!("{msg:?}");
                    let kind = m.split(|c: char| !c.is_alphanumeric()).next().unwrap_or("").to_string();
                    let ops = match msg {
                        AssertMessage::BoundsCheck { len, index } => {
                            arr([self.operand(len), self.operand(index)])
                        }
                        AssertMessage::Overflow(op, a, c) => {
                            arr([q(&format!("{op:?}")), self.operand(a), self.operand(c)])
                        }
                        _ => "[]".into(),
                    };
                    format!(
                        "{{\"k\":\"assert\",\"c\":{},\"e\":{expected},\"m\":{},\"ops\":{ops},\"t\":{target}}}",
                        self.operand(cond),
                        q(&kind)
                    )
                }
                TerminatorKind::InlineAsm { .. } => "{\"k\":\"asm\"}".into(),
            };
            blocks.push(format!("{{\"st\":{},\"t\":{t},\"ln\":{ln}}}", arr(st)));
        }
        format!(
            "{{\"argc\":{},\"locals\":{},\"names\":{},\"spread\":{},\"blocks\":{}}}",
            b.arg_locals().len(),
            arr(locals),
            arr(names),
            b.spread_arg().map(|x| x.to_string()).unwrap_or("null".into()),
            arr(blocks)
        )
    }
}

/// Library helpers that are plain control flow over enums: their real MIR is exported as well, so
/// that the analyser sees through `Option`/`Result`/`bool` combinators.
fn lib_body(krate: &str, name: &str) -> bool {
    if krate != "core" && krate != "alloc" && krate != "std" {
        return false;
    }
    let n = name.replace("goban::bitflags::core::", "std::");
    [
        "std::option::Option::",
        "<std::option::Option<",
        "std::option::",
        "std::result::Result::",
        "<std::result::Result<",
        "std::result::",
        "std::cmp::",
        "std::mem::",
        "std::bool::",
        "bool::",
        "<T as std::convert::",
        "<U as std::convert::",
        "std::convert::",
        "std::ops::",
        "std::clone::",
        "std::tuple::",
        "<(",
        "<std::ops::ControlFlow",
        "std::hint::",
        "<std::cmp::",
        "<bool",
        "<u8 as",
        "<u16 as",
        "<u32 as",
        "<u64 as",
        "<usize as",
        "<&",
    ]
    .iter()
    .any(|p| n.starts_with(p))
}

/// Generic local functions are analysed at a few concrete types that satisfy their bounds.
fn instantiate_generics(tcx: TyCtxt<'_>, cx: &mut Cx<'_>) -> Vec<String> {
    use rustc_middle::ty as mty;
    let mut cands: Vec<(u32, String, mty::Ty<'_>)> = vec![];
    for (t, _) in cx.tyidx.iter() {
        let it: mty::Ty<'_> = rustc_internal::internal(tcx, *t);
        if it.has_param_like() {
            continue;
        }
        let s = format!("{it}");
        if s.contains("closure") || s.contains("{") || s.len() > 160 {
            continue;
        }
        let it = tcx.erase_and_anonymize_regions(it);
        let rank = match s.as_str() {
            "(u8, u8)" => 0,
            "usize" => 1,
            _ if s.contains("Hasher") => 2,
            _ if s.starts_with("std::vec::IntoIter") => 3,
            _ => 4 + s.len() as u32,
        };
        cands.push((rank, s, it));
    }
    cands.sort_by(|a, b| (a.0, &a.1).cmp(&(b.0, &b.1)));
    cands.dedup_by(|a, b| a.1 == b.1);
    let mut out = vec![];
    for it in rustc_public::all_local_items() {
        if !matches!(it.kind(), ItemKind::Fn) || !it.requires_monomorphization() {
            continue;
        }
        let did = rustc_internal::internal(tcx, it.def_id());
        let dk = tcx.def_kind(did);
        if !matches!(dk, rustc_hir::def::DefKind::Fn | rustc_hir::def::DefKind::AssocFn) {
            continue;
        }
        let eff = did.as_local().map(|l| tcx.effective_visibilities(()).is_reachable(l)).unwrap_or(false);
        let gens = tcx.generics_of(did);
        let n = gens.count();
        // positions of type and const parameters
        let mut open: Vec<(usize, bool)> = vec![];
        for k in 0..n {
            let p = gens.param_at(k, tcx);
            match p.kind {
                mty::GenericParamDefKind::Type { .. } => open.push((k, true)),
                mty::GenericParamDefKind::Const { .. } => open.push((k, false)),
                _ => {}
            }
        }
        let is_const = |k: usize| !open.iter().find(|o| o.0 == k).unwrap().1;
        let mut found = 0;
        let mut ids = vec![];
        // enumerate: first parameter over all candidates, further ones over the first few
        let m = open.len();
        if m == 0 || m > 2 {
            out.push(format!("{{\"name\":{},\"insts\":[],\"reach\":{eff}}}", q(&it.name().to_string())));
            continue;
        }
        let consts = [tcx_bool(tcx, false), tcx_bool(tcx, true)];
        let opts = |k: usize| -> Vec<mty::GenericArg<'_>> {
            if is_const(k) {
                consts.iter().map(|c| (*c).into()).collect()
            } else {
                cands.iter().map(|c| c.2.into()).collect()
            }
        };
        let first = opts(open[0].0);
        let second = if m == 2 { opts(open[1].0) } else { vec![] };
        'outer: for a in &first {
            let inner: Vec<Option<mty::GenericArg<'_>>> = if m == 2 { second.iter().map(|x| Some(*x)).collect() } else { vec![None] };
            for b in inner {
                let args = mty::GenericArgs::for_item(tcx, did, |p, _| {
                    let k = p.index as usize;
                    if k == open[0].0 {
                        *a
                    } else if m == 2 && k == open[1].0 {
                        b.unwrap()
                    } else {
                        tcx.lifetimes.re_erased.into()
                    }
                });
                if tcx.instantiate_and_check_impossible_clauses((did, args)) {
                    continue;
                }
                let env = mty::TypingEnv::fully_monomorphized();
                if let Ok(Some(inst)) = mty::Instance::try_resolve(tcx, env, did, args) {
                    let i: Instance = rustc_internal::stable(inst);
                    if !i.has_body() {
                        continue;
                    }
                    ids.push(cx.inst(i).to_string());
                    found += 1;
                    if found >= 2 {
                        break 'outer;
                    }
                }
            }
        }
        out.push(format!("{{\"name\":{},\"insts\":{},\"reach\":{eff}}}", q(&it.name().to_string()), arr(ids)));
    }
    out
}

fn tcx_bool<'tcx>(tcx: TyCtxt<'tcx>, b: bool) -> rustc_middle::ty::Const<'tcx> {
    rustc_middle::ty::Const::from_bool(tcx, b)
}

trait HasParamLike {
    fn has_param_like(&self) -> bool;
}
impl<'tcx> HasParamLike for rustc_middle::ty::Ty<'tcx> {
    fn has_param_like(&self) -> bool {
        use rustc_middle::ty::TypeVisitableExt;
        self.has_param() || self.has_escaping_bound_vars() || self.has_aliases()
    }
}

fn dump(tcx: TyCtxt<'_>) -> ControlFlow<()> {
    let krate = rustc_public::local_crate();
    let local_name = krate.name.to_string();
    let mut cx = Cx {
        tcx,
        types: vec![],
        tyidx: HashMap::new(),
        inst_queue: VecDeque::new(),
        inst_seen: HashMap::new(),
        inst_names: vec![],
        statics: HashMap::new(),
        local_crate: local_name.clone(),
    };
    // every local item: signature-level facts
    let mut items = vec![];
    let mut unsafe_fns: HashSet<String> = HashSet::new();
    for it in rustc_public::all_local_items() {
        let did = rustc_internal::internal(tcx, it.def_id());
        let dk = tcx.def_kind(did);
        let named = matches!(
            dk,
            rustc_hir::def::DefKind::Fn
                | rustc_hir::def::DefKind::AssocFn
                | rustc_hir::def::DefKind::Const { .. }
                | rustc_hir::def::DefKind::AssocConst { .. }
                | rustc_hir::def::DefKind::Static { .. }
                | rustc_hir::def::DefKind::Ctor(..)
        );
        let vis = named && tcx.visibility(did).is_public();
        let eff = did
            .as_local()
            .map(|l| tcx.effective_visibilities(()).is_reachable(l))
            .unwrap_or(false);
        let kind = format!("{:?}", it.kind());
        let generic = it.requires_monomorphization();
        let mut inst = "null".to_string();
        let mut mutable_static = false;
        let name = it.name().to_string();
        if matches!(it.kind(), ItemKind::Static) {
            let sd = StaticDef::try_from(it).ok();
            if let Some(sd) = sd {
                cx.static_def(sd);
            }
            mutable_static = matches!(
                tcx.def_kind(did),
                rustc_hir::def::DefKind::Static { mutability: rustc_hir::Mutability::Mut, .. }
            );
        }
        let mut cval = "null".to_string();
        if matches!(it.kind(), ItemKind::Fn) && !generic {
            if let Ok(i) = Instance::try_from(it) {
                inst = cx.inst(i).to_string();
            }
            if named && tcx.fn_sig(did).skip_binder().safety().is_unsafe() {
                unsafe_fns.insert(name.clone());
            }
        }
        if matches!(it.kind(), ItemKind::Const) && !generic {
            if let Ok(i) = Instance::try_from(it) {
                let ty = it.ty();
                if let Ok(a) = i.try_const_eval(ty) {
                    let ti = cx.ty(ty);
                    let v = cx.dec(&a, 0, ty, 0);
                    cval = format!("{{\"t\":{ti},\"v\":{v}}}");
                }
            }
        }
        let span = it.span();
        let file = span.get_filename();
        let line = span.get_lines().start_line;
        items.push(format!(
            "{{\"name\":{},\"kind\":{},\"generic\":{generic},\"pub\":{vis},\"reach\":{eff},\"inst\":{inst},\"mutstatic\":{mutable_static},\"unsafe\":{},\"file\":{},\"line\":{line},\"val\":{cval}}}",
            q(&name),
            q(&kind),
            unsafe_fns.contains(&name),
            q(&file.to_string()),
        ));
        let _: &CrateItem = &it;
    }
    // worklist over instances
    let mut insts: Vec<String> = vec![];
    let mut out: HashMap<usize, String> = HashMap::new();
    let mut generics: Vec<String> = vec![];
    let mut did_generics = false;
    loop {
        let Some(i) = cx.inst_queue.pop_front() else {
            if did_generics {
                break;
            }
            did_generics = true;
            generics = instantiate_generics(tcx, &mut cx);
            continue;
        };
        let id = cx.inst(i);
        let cr = i.def.krate().name.to_string();
        let kind = format!("{:?}", i.kind);
        let intr = i.intrinsic_name().map(|s| q(&s.to_string())).unwrap_or("null".into());
        let is_local = cr == cx.local_crate;
        let defname = q(&i.def.name());
        let ga = cx.gargs(&i.args());
        let mut trait_name = "null".to_string();
        let mut impl_trait = "null".to_string();
        let mut derived = false;
        let did = rustc_internal::internal(tcx, i.def.def_id());
        if let Some(ai) = tcx.opt_associated_item(did) {
            let _ = ai;
            if let Some(tr) = tcx.trait_of_assoc(did) {
                trait_name = q(&tcx.def_path_str(tr));
            }
            if let Some(im) = tcx.impl_of_assoc(did) {
                if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                    impl_trait = q(&tcx.def_path_str(tr.skip_binder().def_id));
                }
                derived = tcx.is_automatically_derived(im);
            }
        }
        let body = if (is_local || lib_body(&cr, &i.def.name())) && i.kind == InstanceKind::Item && i.has_body() {
            i.body().map(|b| cx.body(&b))
        } else {
            None
        };
        let span = i.def.span();
        let (file, line) = if is_local {
            (span.get_filename().to_string(), span.get_lines().start_line)
        } else {
            (String::new(), 0)
        };
        out.insert(
            id,
            format!(
                "{{\"id\":{id},\"name\":{},\"def\":{defname},\"crate\":{},\"kind\":{},\"intr\":{intr},\"local\":{is_local},\"args\":{ga},\"trait\":{trait_name},\"impl_trait\":{impl_trait},\"derived\":{derived},\"file\":{},\"line\":{line},\"body\":{}}}",
                q(&i.name()),
                q(&cr),
                q(&kind),
                q(&file),
                body.unwrap_or("null".into())
            ),
        );
    }
    for k in 0..cx.inst_names.len() {
        insts.push(out.remove(&k).unwrap_or("null".into()));
    }
    // type-level facts about local ADTs
    let mut adts = vec![];
    for ad in krate.adts() {
        let did = rustc_internal::internal(tcx, ad.def_id());
        let gens = tcx.generics_of(did);
        if gens.own_requires_monomorphization() {
            continue;
        }
        let ity = tcx.type_of(did).instantiate_identity();
        let ity = ity.skip_norm_wip();
        let env = rustc_middle::ty::TypingEnv::post_analysis(tcx, did);
        let freeze = ity.is_freeze(tcx, env);
        let ti = cx.ty(ad.ty());
        adts.push(format!(
            "{{\"name\":{},\"t\":{ti},\"freeze\":{freeze}}}",
            q(&ad.name().to_string())
        ));
    }
    let mut o = String::new();
    let _ = write!(
        o,
        "{{\"crate\":{},\n\"items\":{},\n\"generics\":{},\n\"adts\":{},\n\"statics\":{{{}}},\n\"types\":[\n{}\n],\n\"insts\":[\n{}\n]}}\n",
        q(&local_name),
        arr(items),
        arr(generics),
        arr(adts),
        cx.statics.iter().map(|(k, v)| format!("{}:{v}", q(k))).collect::<Vec<_>>().join(",\n"),
        cx.types.join(",\n"),
        insts.join(",\n")
    );
    let path = std::env::var("GBDUMP_OUT").expect("GBDUMP_OUT");
    std::fs::write(&path, o).expect("write dump");
    ControlFlow::Continue(())
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // wrapper invocation: gbdump rustc <args...>
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    args[0] = "rustc".into();
    let want = std::env::var("GBDUMP_CRATE").unwrap_or_default();
    let is_target = args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == want)
        && args.windows(2).any(|w| w[0] == "--crate-type" && w[1] == "lib");
    if is_target {
        // build mode of the analysed crate (features and debug assertions are cfg)
        args.extend(std::env::var("GBDUMP_ARGS").unwrap_or_default().split_whitespace().map(String::from));
        match run_with_tcx!(&args, dump) {
            Ok(()) => {}
            Err(e) => {
                eprintln!("gbdump: {e:?}");
                std::process::exit(1)
            }
        }
    } else {
        let sysroot_rustc = std::env::var("GBDUMP_RUSTC").unwrap_or("rustc".into());
        let st = std::process::Command::new(sysroot_rustc).args(&args[1..]).status().expect("rustc");
        std::process::exit(st.code().unwrap_or(1));
    }
}
