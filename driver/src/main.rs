// Dumps the monomorphised MIR of a crate as JSON: the resolved program that the
// analyses in /verif/engine read.  Used as RUSTC_WORKSPACE_WRAPPER.
#![feature(rustc_private)]
#![allow(deprecated)]
extern crate rustc_abi;
extern crate rustc_attr_ir;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_abi::{FieldIdx, Size, VariantIdx};
use rustc_hir::def::DefKind;
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::print::{with_no_trimmed_paths, with_no_visible_paths};
use rustc_middle::ty::{self, EarlyBinder, Instance, InstanceKind, ShimKind, Ty, TyCtxt, TypingEnv};
use rustc_span::def_id::DefId;
use rustc_span::{Span, DUMMY_SP};
use std::collections::{HashMap, VecDeque};
use std::fmt::Write as _;

enum J {
    N(i128),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
    Null,
    B(bool),
}
fn s(x: impl Into<String>) -> J { J::S(x.into()) }
fn n(x: impl TryInto<i128>) -> J { J::N(x.try_into().ok().unwrap_or(0)) }
impl J {
    fn write(&self, o: &mut String) {
        match self {
            J::N(x) => { let _ = write!(o, "{}", x); }
            J::Null => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::S(x) => {
                o.push('"');
                for c in x.chars() {
                    match c {
                        '"' => o.push_str("\\\""),
                        '\\' => o.push_str("\\\\"),
                        c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); }
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() { if i > 0 { o.push(','); } x.write(o); }
                o.push(']');
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 { o.push(','); }
                    let _ = write!(o, "\"{}\":", k);
                    x.write(o);
                }
                o.push('}');
            }
        }
    }
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    env: TypingEnv<'tcx>,
    types: HashMap<Ty<'tcx>, usize>,
    type_out: Vec<Option<J>>,
    insts: HashMap<Instance<'tcx>, usize>,
    queue: VecDeque<Instance<'tcx>>,
    descend: Vec<String>,
}

fn path(tcx: TyCtxt<'_>, d: DefId) -> String {
    with_no_visible_paths!(with_no_trimmed_paths!(tcx.def_path_str(d)))
}

impl<'tcx> Cx<'tcx> {
    fn ty(&mut self, t: Ty<'tcx>) -> J { n(self.ty_id(t) as i128) }
    fn ty_id(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(i) = self.types.get(&t) { return *i; }
        let id = self.type_out.len();
        self.types.insert(t, id);
        self.type_out.push(None);
        let mut o: Vec<(&'static str, J)> = vec![];
        let name = with_no_visible_paths!(with_no_trimmed_paths!(format!("{}", t)));
        match t.kind() {
            ty::Bool => o.push(("k", s("bool"))),
            ty::Char => o.push(("k", s("char"))),
            ty::Int(i) => {
                o.push(("k", s("int")));
                o.push(("bits", n(i.bit_width().unwrap_or(64) as i128)));
                o.push(("signed", J::B(true)));
            }
            ty::Uint(i) => {
                o.push(("k", s("int")));
                o.push(("bits", n(i.bit_width().unwrap_or(64) as i128)));
                o.push(("signed", J::B(false)));
            }
            ty::Float(f) => { o.push(("k", s("float"))); o.push(("bits", n(f.bit_width() as i128))); }
            ty::Str => o.push(("k", s("str"))),
            ty::Never => o.push(("k", s("never"))),
            ty::Slice(e) => { o.push(("k", s("slice"))); let e = self.ty(*e); o.push(("t", e)); }
            ty::Array(e, c) => {
                o.push(("k", s("array")));
                let e = self.ty(*e);
                o.push(("t", e));
                o.push(("n", match c.try_to_target_usize(self.tcx) { Some(x) => n(x as i128), None => J::Null }));
            }
            ty::Ref(_, e, m) => {
                o.push(("k", s("ref")));
                let e = self.ty(*e);
                o.push(("t", e));
                o.push(("mut", J::B(m.is_mut())));
            }
            ty::RawPtr(e, m) => {
                o.push(("k", s("ptr")));
                let e = self.ty(*e);
                o.push(("t", e));
                o.push(("mut", J::B(m.is_mut())));
            }
            ty::Tuple(ts) => {
                o.push(("k", s("tuple")));
                let v = ts.iter().map(|x| self.ty(x)).collect();
                o.push(("ts", J::A(v)));
            }
            ty::Adt(def, args) => {
                let p = path(self.tcx, def.did());
                o.push(("k", s("adt")));
                o.push(("path", s(p.clone())));
                o.push(("kind", s(if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" })));
                o.push(("local", J::B(def.did().is_local())));
                let mut a = vec![];
                for g in args.iter() {
                    if let Some(t) = g.as_type() { a.push(self.ty(t)); }
                }
                o.push(("args", J::A(a)));
                let expand = def.did().is_local() || self.expand_adt(&p);
                if expand && !def.is_union() {
                    let mut vs = vec![];
                    for (vi, v) in def.variants().iter_enumerated() {
                        let discr = if def.is_enum() {
                            let d = def.discriminant_for_variant(self.tcx, vi);
                            let size = match d.ty.kind() { ty::Int(i) => Some(i.bit_width().unwrap_or(64)), _ => None };
                            match size {
                                Some(b) => { let sh = 128 - b as u32; n(((d.val as i128) << sh) >> sh) }
                                None => n(d.val as i128),
                            }
                        } else { n(0) };
                        let mut fs = vec![];
                        for f in v.fields.iter() {
                            let ft = f.ty(self.tcx, args).skip_norm_wip();
                            let ft = self.tcx.normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(ft));
                            let fid = self.ty(ft);
                            fs.push(J::A(vec![s(f.name.to_string()), fid, J::B(f.vis.is_public())]));
                        }
                        vs.push(J::O(vec![("name", s(v.name.to_string())), ("discr", discr), ("fields", J::A(fs))]));
                    }
                    o.push(("variants", J::A(vs)));
                }
            }
            ty::FnDef(did, args) => {
                o.push(("k", s("fndef")));
                let c = self.callee(*did, args.skip_binder());
                o.push(("callee", c));
            }
            ty::Closure(did, args) => {
                o.push(("k", s("closure")));
                let inst = Instance::new_raw(*did, args);
                let id = self.enqueue(inst);
                o.push(("inst", n(id as i128)));
                let ups = args.as_closure().upvar_tys().iter().map(|t| self.ty(t)).collect();
                o.push(("ups", J::A(ups)));
                o.push(("ckind", s(format!("{:?}", args.as_closure().kind()))));
            }
            ty::FnPtr(..) => o.push(("k", s("fnptr"))),
            ty::Dynamic(..) => o.push(("k", s("dyn"))),
            _ => o.push(("k", s("other"))),
        }
        o.push(("s", s(name)));
        self.type_out[id] = Some(J::O(o));
        id
    }
    fn expand_adt(&self, p: &str) -> bool {
        ["core::option::", "core::result::", "core::ops::", "core::cmp::", "core::iter::", "alloc::borrow::Cow", "core::num::wrapping::Wrapping", "core::io::seek::SeekFrom", "core::marker::", "core::io::error::ErrorKind", "core::str::iter::SplitN", "std::collections::hash::map::Entry", "core::mem::manually_drop"].iter().any(|x| p.starts_with(x))
    }
    fn enqueue(&mut self, i: Instance<'tcx>) -> usize {
        if let Some(x) = self.insts.get(&i) { return *x; }
        let id = self.insts.len();
        self.insts.insert(i, id);
        self.queue.push_back(i);
        id
    }
    fn should_descend(&self, i: &Instance<'tcx>) -> bool {
        let d = i.def_id();
        if !matches!(i.def, InstanceKind::Item(_)) { return false; }
        if d.is_local() { return true; }
        if !self.tcx.is_mir_available(d) { return false; }
        if matches!(self.tcx.def_kind(d), DefKind::Ctor(..)) { return false; }
        if matches!(self.tcx.def_kind(d), DefKind::Closure) { return true; }
        let p = path(self.tcx, d);
        let p = p.trim_start_matches('<').to_string();
        self.descend.iter().any(|x| p.starts_with(x.as_str()))
    }
    fn callee(&mut self, did: DefId, args: ty::GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let mut o: Vec<(&'static str, J)> = vec![("path", s(path(tcx, did)))];
        let mut a = vec![];
        for g in args.iter() {
            if let Some(t) = g.as_type() { a.push(self.ty(t)); }
            else if let Some(c) = g.as_const() { a.push(match c.try_to_target_usize(tcx) { Some(v) => J::A(vec![n(v as i128)]), None => J::Null }); }
        }
        o.push(("args", J::A(a)));
        o.push(("local", J::B(did.is_local())));
        if matches!(tcx.def_kind(did), DefKind::Ctor(..)) {
            o.push(("ctor", J::B(true)));
            let v = tcx.parent(did);
            let (adt, var) = if tcx.def_kind(v) == DefKind::Variant {
                let e = tcx.parent(v);
                (e, tcx.adt_def(e).variant_index_with_id(v).as_usize())
            } else { (v, 0) };
            let _ = adt;
            o.push(("variant", n(var as i128)));
            return J::O(o);
        }
        let mut docs_panic = false;
        if !did.is_local() {
            use rustc_attr_ir::AttributeKind;
            for at in tcx.get_all_attrs(did).iter() {
                if let rustc_attr_ir::Attribute::Parsed(AttributeKind::DocComment { comment, .. }) = at {
                    if comment.as_str().contains("# Panics") { docs_panic = true; }
                }
            }
        }
        if docs_panic { o.push(("docs_panic", J::B(true))); }
        if tcx.trait_of_assoc(did).is_some() { o.push(("trait", s(path(tcx, tcx.trait_of_assoc(did).unwrap())))); }
        if matches!(tcx.def_kind(did), DefKind::Fn | DefKind::AssocFn) {
            if tcx.codegen_fn_attrs(did).flags.contains(rustc_middle::middle::codegen_fn_attrs::CodegenFnAttrFlags::TRACK_CALLER) {
                o.push(("track_caller", J::B(true)));
            }
        }
        if let Ok(Some(i)) = Instance::try_resolve(tcx, self.env, did, args) {
            let kind = match i.def {
                InstanceKind::Item(_) => "item",
                InstanceKind::Intrinsic(_) => "intrinsic",
                InstanceKind::Virtual(..) => "virtual",
                InstanceKind::Shim(ShimKind::ClosureOnce { .. }) => "closure_once",
                InstanceKind::Shim(ShimKind::FnPtr(..)) => "fnptr_shim",
                InstanceKind::Shim(ShimKind::Clone(..)) => "clone_shim",
                InstanceKind::Shim(ShimKind::DropGlue(..)) => "drop_glue",
                _ => "shim",
            };
            o.push(("ikind", s(kind)));
            o.push(("ipath", s(path(tcx, i.def_id()))));
            if self.should_descend(&i) {
                let id = self.enqueue(i);
                o.push(("inst", n(id as i128)));
            }
            // Trait-provided body of an overridden Iterator method: same meaning, simpler shape.
            if let Some(tr) = tcx.trait_of_assoc(did) {
                let tp = path(tcx, tr);
                if tp.starts_with("core::iter::traits::") && tcx.associated_item(did).defaultness(tcx).has_value() && i.def_id() != did && tcx.is_mir_available(did) {
                    let di = Instance::new_raw(did, args);
                    let id = self.enqueue(di);
                    o.push(("dinst", n(id as i128)));
                }
            }
        } else {
            o.push(("ikind", s("unresolved")));
        }
        J::O(o)
    }
    fn span(&self, sp: Span) -> J {
        let sm = self.tcx.sess.source_map();
        let sp = sp.source_callsite();
        let l = sm.lookup_char_pos(sp.lo());
        let f = match &l.file.name {
            rustc_span::FileName::Real(r) => r.local_path().map(|p| p.display().to_string()).unwrap_or_default(),
            _ => String::new(),
        };
        s(format!("{}:{}:{}", f, l.line, l.col.0 + 1))
    }
    fn place(&mut self, p: &Place<'tcx>) -> J {
        let mut pr = vec![];
        for e in p.projection.iter() {
            pr.push(match e {
                ProjectionElem::Deref => J::A(vec![s("d")]),
                ProjectionElem::Field(f, t) => { let t = self.ty(t); J::A(vec![s("f"), n(f.as_usize() as i128), t]) }
                ProjectionElem::Index(l) => J::A(vec![s("i"), n(l.as_usize() as i128)]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => J::A(vec![s("ci"), n(offset as i128), n(min_length as i128), J::B(from_end)]),
                ProjectionElem::Subslice { from, to, from_end } => J::A(vec![s("sub"), n(from as i128), n(to as i128), J::B(from_end)]),
                ProjectionElem::Downcast(_, v) => J::A(vec![s("dc"), n(v.as_usize() as i128)]),
                _ => J::A(vec![s("other")]),
            });
        }
        J::A(vec![n(p.local.as_usize() as i128), J::A(pr)])
    }
    fn operand(&mut self, o: &Operand<'tcx>) -> J {
        match o {
            Operand::Copy(p) => { let p = self.place(p); J::A(vec![s("c"), p]) }
            Operand::Move(p) => { let p = self.place(p); J::A(vec![s("m"), p]) }
            Operand::Constant(c) => {
                let t = c.const_.ty();
                let tid = self.ty(t);
                let v = match c.const_.eval(self.tcx, self.env, DUMMY_SP) {
                    Ok(v) => self.cval(v, t, 0),
                    Err(_) => J::A(vec![s("opaque"), s(format!("{:?}", c.const_))]),
                };
                J::A(vec![s("k"), tid, v])
            }
            other => J::A(vec![s("rt"), s(format!("{:?}", other))]),
        }
    }
    fn int(&self, sc: rustc_middle::ty::ScalarInt, t: Ty<'tcx>) -> J {
        let size = sc.size();
        let signed = matches!(t.kind(), ty::Int(_));
        if signed { n(sc.to_int(size)) } else { 
            let v = sc.to_uint(size);
            if v <= i128::MAX as u128 { n(v as i128) } else { s(format!("{}", v)) } }
    }
    fn cval(&mut self, v: ConstValue, t: Ty<'tcx>, depth: usize) -> J {
        if depth > 12 { return J::A(vec![s("opaque"), s("depth")]); }
        match t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) => {
                if let Some(Scalar::Int(i)) = self.scalar_of(v, t) { return J::A(vec![s("int"), self.int(i, t)]); }
                J::A(vec![s("opaque"), s("scalar")])
            }
            ty::FnDef(..) => J::A(vec![s("zst")]),
            ty::Closure(..) if matches!(v, ConstValue::ZeroSized) => J::A(vec![s("zst")]),
            ty::Ref(_, e, _) | ty::RawPtr(e, _) => self.cref(v, *e, depth),
            ty::Tuple(_) | ty::Array(..) | ty::Adt(..) => {
                if let ty::Adt(d, _) = t.kind() { if d.is_union() { return J::A(vec![s("opaque"), s("union")]); } }
                if let ty::Array(e, c) = t.kind() {
                    if matches!(e.kind(), ty::Uint(ty::UintTy::U8)) {
                        if let ConstValue::Indirect { alloc_id, offset } = v {
                            if let Some(len) = c.try_to_target_usize(self.tcx) {
                                return J::A(vec![s("bytes"), self.bytes(alloc_id, offset, len)]);
                            }
                        }
                    }
                    if c.try_to_target_usize(self.tcx).map(|x| x > 4096).unwrap_or(true) { return J::A(vec![s("opaque"), s("bigarray")]); }
                }
                match self.tcx.try_destructure_mir_constant_for_user_output(v, t) {
                    Some(d) => {
                        let fs = d.fields.iter().map(|(v, t)| self.cval(*v, *t, depth + 1)).collect();
                        let var = d.variant.unwrap_or(VariantIdx::from_usize(0)).as_usize();
                        match t.kind() {
                            ty::Adt(..) => J::A(vec![s("adt"), n(var as i128), J::A(fs)]),
                            ty::Array(..) => J::A(vec![s("arr"), J::A(fs)]),
                            _ => J::A(vec![s("tup"), J::A(fs)]),
                        }
                    }
                    None => J::A(vec![s("opaque"), s("destructure")]),
                }
            }
            ty::Pat(base, _) => {
                if let Some(Scalar::Int(i)) = self.scalar_of(v, t) { return J::A(vec![s("int"), self.int(i, *base)]); }
                J::A(vec![s("opaque"), s("pat")])
            }
            _ => J::A(vec![s("opaque"), s("kind")]),
        }
    }
    fn scalar_of(&self, v: ConstValue, t: Ty<'tcx>) -> Option<Scalar> {
        match v {
            ConstValue::Scalar(s) => Some(s),
            ConstValue::Indirect { alloc_id, offset } => {
                let lay = self.tcx.layout_of(self.env.as_query_input(t)).ok()?;
                let GlobalAlloc::Memory(m) = self.tcx.global_alloc(alloc_id) else { return None };
                let a = offset.bytes_usize();
                let sz = lay.size.bytes_usize();
                let b = m.inner().inspect_with_uninit_and_ptr_outside_interpreter(a..a + sz);
                let mut x: u128 = 0;
                for (i, y) in b.iter().enumerate() { x |= (*y as u128) << (8 * i); }
                Some(Scalar::from_uint(x, lay.size))
            }
            _ => None,
        }
    }
    fn bytes(&self, id: rustc_middle::mir::interpret::AllocId, off: Size, len: u64) -> J {
        let GlobalAlloc::Memory(m) = self.tcx.global_alloc(id) else { return J::Null };
        let a = off.bytes_usize();
        let b = m.inner().inspect_with_uninit_and_ptr_outside_interpreter(a..a + len as usize);
        let mut h = String::new();
        for x in b { let _ = write!(h, "{:02x}", x); }
        J::S(h)
    }
    fn cref(&mut self, v: ConstValue, e: Ty<'tcx>, depth: usize) -> J {
        // returns ["ref", value] for pointers to constant memory
        let (id, off, meta): (_, Size, Option<u64>) = match v {
            ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                let (prov, off) = p.prov_and_relative_offset();
                (prov.alloc_id(), off, None)
            }
            ConstValue::Slice { alloc_id, meta } => (alloc_id, Size::ZERO, Some(meta)),
            ConstValue::Indirect { alloc_id, offset } => {
                let GlobalAlloc::Memory(m) = self.tcx.global_alloc(alloc_id) else { return J::A(vec![s("opaque"), s("ref")]) };
                let m = m.inner();
                let Some(prov) = m.provenance().ptrs().get(&offset) else { return J::A(vec![s("opaque"), s("intptr")]) };
                let a = offset.bytes_usize();
                let b = m.inspect_with_uninit_and_ptr_outside_interpreter(a..a + 8);
                let addend = u64::from_le_bytes(b.try_into().unwrap());
                let meta = if matches!(e.kind(), ty::Str | ty::Slice(_)) {
                    let b = m.inspect_with_uninit_and_ptr_outside_interpreter(a + 8..a + 16);
                    Some(u64::from_le_bytes(b.try_into().unwrap()))
                } else { None };
                (prov.alloc_id(), Size::from_bytes(addend), meta)
            }
            _ => return J::A(vec![s("opaque"), s("ref")]),
        };
        match e.kind() {
            ty::Str => match meta { Some(l) => J::A(vec![s("ref"), J::A(vec![s("bytes"), self.bytes(id, off, l)])]), None => J::A(vec![s("opaque"), s("str")]) },
            ty::Slice(el) => {
                let Some(l) = meta else { return J::A(vec![s("opaque"), s("slice")]) };
                if matches!(el.kind(), ty::Uint(ty::UintTy::U8)) { return J::A(vec![s("ref"), J::A(vec![s("bytes"), self.bytes(id, off, l)])]); }
                let Ok(lay) = self.tcx.layout_of(self.env.as_query_input(*el)) else { return J::A(vec![s("opaque"), s("layout")]) };
                let mut v = vec![];
                for i in 0..l { v.push(self.cval(ConstValue::Indirect { alloc_id: id, offset: off + lay.size * i }, *el, depth + 1)); }
                J::A(vec![s("ref"), J::A(vec![s("arr"), J::A(v)])])
            }
            ty::Dynamic(..) => J::A(vec![s("opaque"), s("dyn")]),
            _ => {
                if let GlobalAlloc::Memory(_) = self.tcx.global_alloc(id) {
                    let x = self.cval(ConstValue::Indirect { alloc_id: id, offset: off }, e, depth + 1);
                    J::A(vec![s("ref"), x])
                } else if let GlobalAlloc::Static(d) = self.tcx.global_alloc(id) {
                    // a static that cannot change is its value
                    if !self.tcx.is_mutable_static(d) && e.is_freeze(self.tcx, self.env) {
                        if let Ok(a) = self.tcx.eval_static_initializer(d) {
                            let id = self.tcx.reserve_and_set_memory_alloc(a);
                            let x = self.cval(ConstValue::Indirect { alloc_id: id, offset: off }, e, depth + 1);
                            return J::A(vec![s("ref"), x]);
                        }
                    }
                    J::A(vec![s("static"), s(path(self.tcx, d))])
                } else { J::A(vec![s("opaque"), s("alloc")]) }
            }
        }
    }
    fn rvalue(&mut self, r: &Rvalue<'tcx>) -> J {
        match r {
            Rvalue::Use(o, ..) => { let o = self.operand(o); J::A(vec![s("use"), o]) }
            Rvalue::Repeat(o, c) => {
                let o = self.operand(o);
                let k = match c.try_to_target_usize(self.tcx) { Some(x) => n(x as i128), None => J::Null };
                J::A(vec![s("repeat"), o, k])
            }
            Rvalue::Ref(_, bk, p) => { let p = self.place(p); J::A(vec![s("ref"), p, J::B(matches!(bk, BorrowKind::Mut { .. }))]) }
            Rvalue::RawPtr(_, p) => { let p = self.place(p); J::A(vec![s("rawptr"), p]) }
            Rvalue::Cast(k, o, t) => {
                let o = self.operand(o);
                let t = self.ty(*t);
                J::A(vec![s("cast"), s(format!("{:?}", k)), o, t])
            }
            Rvalue::BinaryOp(op, ab) => {
                let a = self.operand(&ab.0);
                let b = self.operand(&ab.1);
                J::A(vec![s("bin"), s(format!("{:?}", op)), a, b])
            }
            Rvalue::UnaryOp(op, a) => { let a = self.operand(a); J::A(vec![s("un"), s(format!("{:?}", op)), a]) }
            Rvalue::Discriminant(p) => { let p = self.place(p); J::A(vec![s("discr"), p]) }
            Rvalue::Aggregate(k, ops) => {
                let ops = J::A(ops.iter().map(|o| self.operand(o)).collect());
                match &**k {
                    AggregateKind::Array(t) => { let t = self.ty(*t); J::A(vec![s("array"), t, ops]) }
                    AggregateKind::Tuple => J::A(vec![s("tuple"), ops]),
                    AggregateKind::Adt(_, v, _, _, f) => {
                        J::A(vec![s("adt"), n(v.as_usize() as i128), ops, match f { Some(f) => n(FieldIdx::as_usize(*f) as i128), None => J::Null }])
                    }
                    AggregateKind::Closure(..) => J::A(vec![s("closure"), ops]),
                    AggregateKind::RawPtr(..) => J::A(vec![s("rawptragg"), ops]),
                    _ => J::A(vec![s("otheragg"), ops]),
                }
            }
            Rvalue::CopyForDeref(p) => { let p = self.place(p); J::A(vec![s("use"), J::A(vec![s("c"), p])]) }
            Rvalue::Reborrow(_, _, p) => { let p = self.place(p); J::A(vec![s("use"), J::A(vec![s("c"), p])]) }
            other => J::A(vec![s("other"), s(format!("{:?}", other))]),
        }
    }
    fn body(&mut self, inst: Instance<'tcx>, id: usize) -> Option<J> {
        let tcx = self.tcx;
        let did = inst.def_id();
        let b0 = tcx.instance_mir(inst.def);
        let body: Body<'tcx> = inst.instantiate_mir_and_normalize_erasing_regions(tcx, self.env, EarlyBinder::bind(tcx, b0.clone()));
        let mut names: HashMap<usize, String> = HashMap::new();
        for v in body.var_debug_info.iter() {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() { names.insert(p.local.as_usize(), v.name.to_string()); }
            }
        }
        let mut locals = vec![];
        for (l, d) in body.local_decls.iter_enumerated() {
            let t = self.ty(d.ty);
            locals.push(J::A(vec![t, names.get(&l.as_usize()).map(|x| s(x.clone())).unwrap_or(J::Null)]));
        }
        let mut blocks = vec![];
        for bb in body.basic_blocks.iter() {
            let mut st = vec![];
            if bb.is_cleanup {
                blocks.push(J::Null);
                continue;
            }
            for x in bb.statements.iter() {
                match &x.kind {
                    StatementKind::Assign(pr) => {
                        let p = self.place(&pr.0);
                        let pt = pr.0.ty(&body.local_decls, tcx).ty;
                        let pt = self.ty(pt);
                        let r = self.rvalue(&pr.1);
                        let sp = self.span(x.source_info.span);
                        st.push(J::A(vec![s("="), p, r, pt, sp]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(place);
                        st.push(J::A(vec![s("sd"), p, n(variant_index.as_usize() as i128)]));
                    }
                    StatementKind::StorageDead(l) => st.push(J::A(vec![s("dead"), n(l.as_usize() as i128)])),
                    StatementKind::StorageLive(l) => st.push(J::A(vec![s("live"), n(l.as_usize() as i128)])),
                    StatementKind::Intrinsic(i) => {
                        match &**i {
                            NonDivergingIntrinsic::Assume(o) => { let o = self.operand(o); st.push(J::A(vec![s("assume"), o])); }
                            _ => st.push(J::A(vec![s("other"), s(format!("{:?}", x.kind))])),
                        }
                    }
                    _ => {}
                }
            }
            let t = bb.terminator();
            let sp = self.span(t.source_info.span);
            let term = match &t.kind {
                TerminatorKind::Goto { target, .. } => J::A(vec![s("goto"), n(target.as_usize() as i128)]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let dt = discr.ty(&body.local_decls, tcx);
                    let dt = self.ty(dt);
                    let d = self.operand(discr);
                    let mut v = vec![];
                    for (val, bb) in targets.iter() { v.push(J::A(vec![if val <= i128::MAX as u128 { n(val as i128) } else { s(format!("{}", val)) }, n(bb.as_usize() as i128)])); }
                    J::A(vec![s("switch"), d, J::A(v), n(targets.otherwise().as_usize() as i128), dt])
                }
                TerminatorKind::Return => J::A(vec![s("return")]),
                TerminatorKind::Unreachable => J::A(vec![s("unreachable")]),
                TerminatorKind::Drop { place, target, .. } => { let p = self.place(place); J::A(vec![s("drop"), p, n(target.as_usize() as i128)]) }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let ft = func.ty(&body.local_decls, tcx);
                    let c = match ft.kind() {
                        ty::FnDef(d, a) => self.callee(*d, a.skip_binder()),
                        _ => { let f = self.operand(func); J::O(vec![("ptr", f)]) }
                    };
                    let a = J::A(args.iter().map(|x| self.operand(&x.node)).collect());
                    let at = J::A(args.iter().map(|x| { let t = x.node.ty(&body.local_decls, tcx); self.ty(t) }).collect());
                    let d = self.place(destination);
                    let dt = destination.ty(&body.local_decls, tcx).ty;
                    let dt = self.ty(dt);
                    J::A(vec![s("call"), c, a, d, match target { Some(t) => n(t.as_usize() as i128), None => J::Null }, dt, at])
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let c = self.operand(cond);
                    let m = format!("{:?}", msg);
                    let m = m.split('(').next().unwrap_or("").split('{').next().unwrap_or("").trim().to_string();
                    let m2 = match &**msg { AssertKind::Overflow(op, ..) => format!("Overflow({:?})", op), AssertKind::BoundsCheck { .. } => "BoundsCheck".to_string(), _ => m };
                    J::A(vec![s("assert"), c, J::B(*expected), s(m2), n(target.as_usize() as i128)])
                }
                TerminatorKind::FalseEdge { real_target, .. } => J::A(vec![s("goto"), n(real_target.as_usize() as i128)]),
                TerminatorKind::FalseUnwind { real_target, .. } => J::A(vec![s("goto"), n(real_target.as_usize() as i128)]),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => J::A(vec![s("resume")]),
                other => J::A(vec![s("other"), s(format!("{:?}", other))]),
            };
            blocks.push(J::O(vec![("s", J::A(st)), ("t", term), ("sp", sp)]));
        }
        let mut ga = vec![];
        for g in inst.args.iter() { if let Some(t) = g.as_type() { ga.push(self.ty(t)); } }
        let vis = if did.is_local() && matches!(tcx.def_kind(did), DefKind::Fn | DefKind::AssocFn) { tcx.visibility(did).is_public() } else { false };
        let eff = did.as_local().map(|l| tcx.effective_visibilities(()).is_exported(l)).unwrap_or(false);
        let mut o = vec![
            ("id", n(id as i128)), ("path", s(path(tcx, did))), ("local", J::B(did.is_local())), ("pub", J::B(vis)), ("exported", J::B(eff)),
            ("gargs", J::A(ga)), ("argc", n(body.arg_count as i128)), ("span", self.span(body.span)),
            ("closure", J::B(tcx.is_closure_like(did))),
            ("locals", J::A(locals)), ("blocks", J::A(blocks)),
        ];
        if let Some(sa) = body.spread_arg { o.push(("spread", n(sa.as_usize() as i128))); }
        if let Some(tr) = tcx.impl_of_assoc(did).and_then(|i| tcx.impl_opt_trait_ref(i)) {
            let tr = tr.instantiate_identity().skip_norm_wip();
            o.push(("impl_trait", s(path(tcx, tr.def_id))));
        }
        if let Some(im) = tcx.inherent_impl_of_assoc(did).or(tcx.impl_of_assoc(did)) {
            let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
            o.push(("impl_self", s(with_no_visible_paths!(with_no_trimmed_paths!(format!("{}", st))))));
        }
        Some(J::O(o))
    }
}

struct Cb { out: String }
impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> rustc_driver::Compilation {
        let descend = std::env::var("MIRDUMP_DESCEND").unwrap_or_default().split(',').filter(|x| !x.is_empty()).map(|x| x.to_string()).collect();
        let mut cx = Cx { tcx, env: TypingEnv::fully_monomorphized(), types: HashMap::new(), type_out: vec![], insts: HashMap::new(), queue: VecDeque::new(), descend };
        let mut roots = vec![];
        let mut ctfe = 0;
        for l in tcx.mir_keys(()).iter() {
            let d = l.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Fn | DefKind::AssocFn => {
                    if tcx.generics_of(d).requires_monomorphization(tcx) { continue; }
                    if !tcx.is_mir_available(d) { continue; }
                    let id = cx.enqueue(Instance::mono(tcx, d));
                    roots.push(n(id as i128));
                }
                _ => { ctfe += 1; }
            }
        }
        let _ = ctfe;
        let mut fns = vec![];
        while let Some(i) = cx.queue.pop_front() {
            let id = cx.insts[&i];
            if let Some(b) = cx.body(i, id) { fns.push(b); }
        }
        // public names of the crate: the statics/consts of the crate are folded into operands
        let types = J::A(cx.type_out.into_iter().map(|x| x.unwrap_or(J::Null)).collect());
        let o = J::O(vec![("crate", s(tcx.crate_name(rustc_span::def_id::LOCAL_CRATE).to_string())), ("roots", J::A(roots)), ("types", types), ("fns", J::A(fns))]);
        let mut out = String::new();
        o.write(&mut out);
        std::fs::write(&self.out, out).expect("mirdump: cannot write output");
        rustc_driver::Compilation::Continue
    }
}

struct Pass;
impl rustc_driver::Callbacks for Pass {}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // wrapper protocol: argv[1] is the path of rustc
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].ends_with("/rustc")) { args.remove(1); }
    let target = std::env::var("MIRDUMP_CRATE").unwrap_or_else(|_| "mysql_cdc".into());
    let is_target = args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == target) && !args.iter().any(|a| a == "--test");
    if is_target {
        for f in ["-Zmir-opt-level=0", "-Coverflow-checks=on", "-Zalways-encode-mir", "-Zinline-mir=no", "-Awarnings"] { args.push(f.to_string()); }
        let out = std::env::var("MIRDUMP_OUT").expect("MIRDUMP_OUT");
        let mut cb = Cb { out };
        rustc_driver::catch_with_exit_code(move || rustc_driver::compiler_entrypoint(&args, &mut cb))
    } else {
        rustc_driver::catch_with_exit_code(move || rustc_driver::compiler_entrypoint(&args, &mut Pass))
    }
}
