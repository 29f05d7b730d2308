// Dumps the type-checked program (MIR, types, constants, impls) of a workspace
// crate as JSON, for the Python analyses in ../analysis.  Used as
// RUSTC_WORKSPACE_WRAPPER: argv = [self, rustc, args...].
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;
extern crate rustc_driver_impl;

use rustc_driver_impl::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::{self, *};
use rustc_middle::mir::interpret::{AllocId, AllocRange, GlobalAlloc, Scalar};
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypingEnv};
use std::collections::{BTreeMap, HashMap};
use std::fmt::Write as _;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || (c as u32) > 0x7e => {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) { let _ = write!(o, "\\u{:04x}", u); }
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr(v: &[String]) -> String { format!("[{}]", v.join(",")) }

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<String>,
    tymap: HashMap<Ty<'tcx>, usize>,
    adts: BTreeMap<String, String>,
}

impl<'tcx> Cx<'tcx> {
    fn did(&self, d: DefId) -> String {
        let p = self.tcx.def_path(d);
        format!("{}{}", self.tcx.crate_name(d.krate), p.to_string_no_crate_verbose())
    }
    fn pretty(&self, d: DefId) -> String {
        ty::print::with_no_visible_paths!(ty::print::with_no_trimmed_paths!(self.tcx.def_path_str(d)))
    }
    fn span(&self, s: rustc_span::Span) -> String {
        let sm = self.tcx.sess.source_map();
        let s2 = s.source_callsite();
        let lo = sm.lookup_char_pos(s2.lo());
        let f = format!("{}", lo.file.name.prefer_local_unconditionally());
        format!("{}:{}", f, lo.line)
    }
    fn args(&mut self, a: ty::GenericArgsRef<'tcx>) -> String {
        let v: Vec<String> = a.iter().filter_map(|x| match x.kind() {
            ty::GenericArgKind::Type(t) => Some(self.ty(t).to_string()),
            ty::GenericArgKind::Const(c) => Some(format!("[\"const\",{}]", esc(&format!("{}", c)))),
            _ => None,
        }).collect();
        arr(&v)
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(i) = self.tymap.get(&t) { return *i; }
        let i = self.types.len();
        self.tymap.insert(t, i);
        self.types.push(String::new());
        let s = match t.kind() {
            ty::Bool => "[\"bool\"]".into(),
            ty::Char => "[\"char\"]".into(),
            ty::Str => "[\"str\"]".into(),
            ty::Never => "[\"never\"]".into(),
            ty::Int(k) => format!("[\"int\",{},{}]", k.bit_width().unwrap_or(64), esc(k.name_str())),
            ty::Uint(k) => format!("[\"uint\",{},{}]", k.bit_width().unwrap_or(64), esc(k.name_str())),
            ty::Float(k) => format!("[\"float\",{}]", k.bit_width()),
            ty::Ref(_, u, m) => format!("[\"ref\",{},{}]", self.ty(*u), m.is_mut()),
            ty::RawPtr(u, m) => format!("[\"ptr\",{},{}]", self.ty(*u), m.is_mut()),
            ty::Slice(u) => format!("[\"slice\",{}]", self.ty(*u)),
            ty::Array(u, n) => {
                let n = n.try_to_target_usize(self.tcx);
                format!("[\"array\",{},{}]", self.ty(*u), n.map(|x| x.to_string()).unwrap_or("null".into()))
            }
            ty::Tuple(ts) => {
                let v: Vec<String> = ts.iter().map(|x| self.ty(x).to_string()).collect();
                format!("[\"tuple\",{}]", arr(&v))
            }
            ty::Adt(d, a) => {
                let id = self.did(d.did());
                let aa = self.args(a);
                self.adt(*d);
                format!("[\"adt\",{},{}]", esc(&id), aa)
            }
            ty::Closure(d, a) => {
                let c = a.as_closure();
                let ups: Vec<String> = c.upvar_tys().iter().map(|x| self.ty(x).to_string()).collect();
                format!("[\"closure\",{},{},{}]", esc(&self.did(*d)), arr(&ups), esc(&format!("{:?}", c.kind())))
            }
            ty::FnDef(d, a) => {
                let a = a.skip_binder();
                format!("[\"fndef\",{},{}]", esc(&self.did(*d)), self.args(a))
            }
            ty::Dynamic(p, _) => {
                let n = p.principal_def_id().map(|d| self.did(d)).unwrap_or_default();
                format!("[\"dyn\",{}]", esc(&n))
            }
            ty::Param(p) => format!("[\"param\",{}]", esc(p.name.as_str())),
            ty::FnPtr(..) => format!("[\"fnptr\",{}]", esc(&format!("{}", t))),
            _ => format!("[\"other\",{}]", esc(&format!("{}", t))),
        };
        self.types[i] = s;
        i
    }
    fn adt(&mut self, d: ty::AdtDef<'tcx>) {
        let id = self.did(d.did());
        if self.adts.contains_key(&id) { return; }
        self.adts.insert(id.clone(), String::new());
        let mut vs = vec![];
        let local = d.did().is_local();
        for (vi, v) in d.variants().iter_enumerated() {
            let discr = if d.is_enum() { d.discriminant_for_variant(self.tcx, vi).val.to_string() } else { "0".into() };
            let fs: Vec<String> = v.fields.iter().map(|f| {
                let ft = self.tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                let t = if local { self.ty(ft).to_string() } else { "null".into() };
                format!("[{},{}]", esc(f.name.as_str()), t)
            }).collect();
            vs.push(format!("{{\"name\":{},\"discr\":\"{}\",\"fields\":{}}}", esc(v.name.as_str()), discr, arr(&fs)));
        }
        let k = if d.is_enum() { "enum" } else if d.is_union() { "union" } else { "struct" };
        let s = format!("{{\"kind\":\"{}\",\"local\":{},\"variants\":{}}}", k, local, arr(&vs));
        self.adts.insert(id, s);
    }

    // ---- constants ----
    fn scalar(&mut self, t: Ty<'tcx>, bits: u128) -> Option<String> {
        match t.kind() {
            ty::Bool => Some(format!("[\"b\",{}]", bits != 0)),
            ty::Char => Some(format!("[\"i\",\"{}\"]", bits)),
            ty::Uint(_) => Some(format!("[\"i\",\"{}\"]", bits)),
            ty::Int(k) => {
                let w = k.bit_width().unwrap_or(64);
                let sh = 128 - w;
                let v = ((bits << sh) as i128) >> sh;
                Some(format!("[\"i\",\"{}\"]", v))
            }
            ty::Float(k) => {
                let f = if k.bit_width() == 32 { f32::from_bits(bits as u32) as f64 } else { f64::from_bits(bits as u64) };
                Some(format!("[\"f\",{}]", esc(&format!("{:?}", f))))
            }
            _ => None,
        }
    }
    fn read_alloc(&mut self, id: AllocId, off: u64, t: Ty<'tcx>, env: TypingEnv<'tcx>, depth: usize) -> Option<String> {
        if depth > 6 { return None; }
        let tcx = self.tcx;
        let ga = tcx.try_get_global_alloc(id)?;
        let alloc = match ga {
            GlobalAlloc::Memory(m) => m,
            GlobalAlloc::Static(d) => {
                return Some(format!("[\"static\",{}]", esc(&self.did(d))));
            }
            _ => return None,
        };
        let a = alloc.inner();
        let layout = tcx.layout_of(env.as_query_input(t)).ok()?;
        match t.kind() {
            ty::Bool | ty::Char | ty::Uint(_) | ty::Int(_) | ty::Float(_) => {
                let s = a.read_scalar(&tcx, AllocRange { start: rustc_abi::Size::from_bytes(off), size: layout.size }, false).ok()?;
                let bits = s.to_bits(layout.size).discard_err()?;
                self.scalar(t, bits)
            }
            ty::Array(e, n) => {
                let n = n.try_to_target_usize(tcx)?;
                let es = tcx.layout_of(env.as_query_input(*e)).ok()?.size.bytes();
                let mut v = vec![];
                for i in 0..n { v.push(self.read_alloc(id, off + i * es, *e, env, depth + 1)?); }
                Some(format!("[\"arr\",{}]", arr(&v)))
            }
            ty::Tuple(ts) => {
                let mut v = vec![];
                for (i, e) in ts.iter().enumerate() {
                    let o = layout.fields.offset(i).bytes();
                    v.push(self.read_alloc(id, off + o, e, env, depth + 1)?);
                }
                Some(format!("[\"tup\",{}]", arr(&v)))
            }
            ty::Adt(d, ar) if d.is_struct() => {
                let mut v = vec![];
                for (i, f) in d.non_enum_variant().fields.iter().enumerate() {
                    let o = layout.fields.offset(i).bytes();
                    let ft = f.ty(tcx, ar).skip_norm_wip();
                    v.push(self.read_alloc(id, off + o, ft, env, depth + 1)?);
                }
                Some(format!("[\"adt\",{},0,{}]", esc(&self.did(d.did())), arr(&v)))
            }
            ty::Ref(_, u, _) => {
                let ps = 8;
                let p = a.read_scalar(&tcx, AllocRange { start: rustc_abi::Size::from_bytes(off), size: rustc_abi::Size::from_bytes(ps) }, true).ok()?;
                let ptr = match p { Scalar::Ptr(p, _) => p, _ => return None };
                let (prov, o2) = ptr.into_raw_parts();
                let nid = prov.alloc_id();
                match u.kind() {
                    ty::Str | ty::Slice(_) => {
                        let m = a.read_scalar(&tcx, AllocRange { start: rustc_abi::Size::from_bytes(off + 8), size: rustc_abi::Size::from_bytes(8) }, false).ok()?;
                        let n = m.to_bits(rustc_abi::Size::from_bytes(8)).discard_err()? as u64;
                        self.read_slice(nid, o2.bytes(), n, *u, env, depth + 1)
                    }
                    _ => { let x = self.read_alloc(nid, o2.bytes(), *u, env, depth + 1)?; Some(format!("[\"ref\",{}]", x)) }
                }
            }
            _ => None,
        }
    }
    fn read_slice(&mut self, id: AllocId, off: u64, n: u64, u: Ty<'tcx>, env: TypingEnv<'tcx>, depth: usize) -> Option<String> {
        let tcx = self.tcx;
        match u.kind() {
            ty::Str => {
                let m = match tcx.try_get_global_alloc(id)? { GlobalAlloc::Memory(m) => m, _ => return None };
                let b = m.inner().inspect_with_uninit_and_ptr_outside_interpreter(off as usize..(off + n) as usize);
                Some(format!("[\"str\",{}]", esc(&String::from_utf8_lossy(b))))
            }
            ty::Slice(e) => {
                let es = tcx.layout_of(env.as_query_input(*e)).ok()?.size.bytes();
                let mut v = vec![];
                for i in 0..n { v.push(self.read_alloc(id, off + i * es, *e, env, depth + 1)?); }
                Some(format!("[\"ref\",[\"arr\",{}]]", arr(&v)))
            }
            _ => None,
        }
    }
    fn cval(&mut self, v: ConstValue, t: Ty<'tcx>, env: TypingEnv<'tcx>) -> Option<String> {
        match v {
            ConstValue::ZeroSized => {
                if let ty::Tuple(ts) = t.kind() { if ts.is_empty() { return Some("[\"tup\",[]]".into()); } }
                if let ty::Closure(d, _) = t.kind() { return Some(format!("[\"closure\",{}]", esc(&self.did(*d)))); }
                if let ty::Adt(d, _) = t.kind() { if d.is_struct() { return Some(format!("[\"adt\",{},0,[]]", esc(&self.did(d.did())))); } }
                if let ty::Array(_, _) = t.kind() { return Some("[\"arr\",[]]".into()); }
                Some("[\"zst\"]".into())
            }
            ConstValue::Scalar(Scalar::Int(i)) => {
                let b = i.to_bits_unchecked();
                if let Some(s) = self.scalar(t, b) { return Some(s); }
                if let ty::Adt(d, _) = t.kind() {
                    if d.is_enum() && d.variants().iter().all(|v| v.fields.is_empty()) {
                        for (vi, _) in d.variants().iter_enumerated() {
                            let dv = d.discriminant_for_variant(self.tcx, vi).val;
                            let sz = i.size();
                            if sz.truncate(dv) == b {
                                return Some(format!("[\"adt\",{},{},[]]", esc(&self.did(d.did())), vi.as_usize()));
                            }
                        }
                    }
                }
                None
            }
            ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                let (prov, o) = p.into_raw_parts();
                match t.kind() {
                    ty::Ref(_, u, _) | ty::RawPtr(u, _) => {
                        if let Some(GlobalAlloc::Static(d)) = self.tcx.try_get_global_alloc(prov.alloc_id()) {
                            return Some(format!("[\"ref\",[\"static\",{}]]", esc(&self.did(d))));
                        }
                        let x = self.read_alloc(prov.alloc_id(), o.bytes(), *u, env, 0)?;
                        Some(format!("[\"ref\",{}]", x))
                    }
                    _ => None,
                }
            }
            ConstValue::Slice { alloc_id, meta } => match t.kind() {
                ty::Ref(_, u, _) => self.read_slice(alloc_id, 0, meta, *u, env, 0),
                _ => None,
            },
            ConstValue::Indirect { alloc_id, offset } => self.read_alloc(alloc_id, offset.bytes(), t, env, 0),
        }
    }
    fn constant(&mut self, c: &ConstOperand<'tcx>, env: TypingEnv<'tcx>) -> String {
        let t = c.const_.ty();
        if let ty::FnDef(d, a) = t.kind() {
            return format!("[\"const\",{},[\"fn\",{}]]", self.ty(t), self.callee(*d, a.skip_binder(), env));
        }
        let ti = self.ty(t);
        if let Ok(v) = c.const_.eval(self.tcx, env, c.span) {
            if let Some(s) = self.cval(v, t, env) { return format!("[\"const\",{},{}]", ti, s); }
        }
        if let mir::Const::Unevaluated(u, _) = c.const_ {
            let p = u.promoted.map(|p| p.as_usize().to_string()).unwrap_or("null".into());
            return format!("[\"const\",{},[\"uneval\",{},{}]]", ti, esc(&self.did(u.def)), p);
        }
        format!("[\"const\",{},[\"opaque\",{}]]", ti, esc(&format!("{}", c.const_)))
    }
    fn callee(&mut self, d: DefId, a: ty::GenericArgsRef<'tcx>, env: TypingEnv<'tcx>) -> String {
        let tcx = self.tcx;
        let mut res = "null".to_string();
        let mut rl = false;
        let mut rargs = "[]".to_string();
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            let a2 = tcx.erase_and_anonymize_regions(a);
            if let Ok(Some(i)) = Instance::try_resolve(tcx, env, d, a2) {
                let rd = i.def_id();
                if !matches!(i.def, ty::InstanceKind::Virtual(..)) {
                    res = esc(&self.did(rd));
                    rl = rd.is_local();
                    rargs = self.args(i.args);
                }
            }
        }
        let tr = tcx.trait_of_assoc(d).map(|t| esc(&self.did(t))).unwrap_or("null".into());
        let k = tcx.def_kind(d);
        let uns = if matches!(k, DefKind::Fn | DefKind::AssocFn) {
            tcx.fn_sig(d).skip_binder().safety().is_unsafe()
        } else { false };
        let ctor = matches!(k, DefKind::Ctor(..));
        let ctor_s = if ctor {
            let v = tcx.parent(d);
            let (adt, vi) = if tcx.def_kind(v) == DefKind::Variant {
                let ad = tcx.adt_def(tcx.parent(v));
                (ad, ad.variant_index_with_id(v).as_usize())
            } else { (tcx.adt_def(v), 0) };
            self.adt(adt);
            format!("[{},{}]", esc(&self.did(adt.did())), vi)
        } else { "null".into() };
        format!("{{\"id\":{},\"path\":{},\"args\":{},\"res\":{},\"rlocal\":{},\"rargs\":{},\"trait\":{},\"unsafe\":{},\"ctor\":{}}}",
            esc(&self.did(d)), esc(&self.pretty(d)), self.args(a), res, rl, rargs, tr, uns, ctor_s)
    }

    // ---- bodies ----
    fn place(&mut self, p: &Place<'tcx>) -> String {
        let mut v = vec![];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => "[\"*\"]".to_string(),
                ProjectionElem::Field(f, t) => format!("[\"f\",{},{}]", f.as_usize(), self.ty(t)),
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l.as_usize()),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => format!("[\"ci\",{},{},{}]", offset, min_length, from_end),
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"ss\",{},{},{}]", from, to, from_end),
                ProjectionElem::Downcast(_, v) => format!("[\"d\",{}]", v.as_usize()),
                _ => "[\"?\"]".to_string(),
            });
        }
        format!("[{},{}]", p.local.as_usize(), arr(&v))
    }
    fn operand(&mut self, o: &Operand<'tcx>, env: TypingEnv<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("[\"copy\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"move\",{}]", self.place(p)),
            Operand::Constant(c) => self.constant(c, env),
            _ => format!("[\"rtcheck\",{}]", esc(&format!("{:?}", o))),
        }
    }
    fn rvalue(&mut self, r: &Rvalue<'tcx>, env: TypingEnv<'tcx>, body: &Body<'tcx>) -> String {
        match r {
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.operand(o, env)),
            Rvalue::Repeat(o, n) => {
                let n = n.try_to_target_usize(self.tcx);
                format!("[\"repeat\",{},{}]", self.operand(o, env), n.map(|x| x.to_string()).unwrap_or("null".into()))
            }
            Rvalue::Ref(_, k, p) => format!("[\"ref\",{},{}]", matches!(k, BorrowKind::Mut { .. }), self.place(p)),
            Rvalue::RawPtr(_, p) => format!("[\"rawptr\",{}]", self.place(p)),
            Rvalue::Cast(k, o, t) => {
                let from = o.ty(body, self.tcx);
                format!("[\"cast\",{},{},{},{}]", esc(&format!("{:?}", k)), self.operand(o, env), self.ty(*t), self.ty(from))
            }
            Rvalue::BinaryOp(op, b) => {
                let t = b.0.ty(body, self.tcx);
                format!("[\"bin\",{},{},{},{}]", esc(&format!("{:?}", op)), self.operand(&b.0, env), self.operand(&b.1, env), self.ty(t))
            }
            Rvalue::UnaryOp(op, o) => {
                let t = o.ty(body, self.tcx);
                format!("[\"un\",{},{},{}]", esc(&format!("{:?}", op)), self.operand(o, env), self.ty(t))
            }
            Rvalue::Discriminant(p) => {
                let t = p.ty(body, self.tcx).ty;
                format!("[\"discr\",{},{}]", self.place(p), self.ty(t))
            }
            Rvalue::Aggregate(k, ops) => {
                let v: Vec<String> = ops.iter().map(|o| self.operand(o, env)).collect();
                let k = match &**k {
                    AggregateKind::Array(t) => format!("[\"array\",{}]", self.ty(*t)),
                    AggregateKind::Tuple => "[\"tuple\"]".into(),
                    AggregateKind::Adt(d, vi, _, _, _) => {
                        let ad = self.tcx.adt_def(*d);
                        self.adt(ad);
                        format!("[\"adt\",{},{}]", esc(&self.did(*d)), vi.as_usize())
                    }
                    AggregateKind::Closure(d, _) => format!("[\"closure\",{}]", esc(&self.did(*d))),
                    _ => "[\"other\"]".into(),
                };
                format!("[\"agg\",{},{}]", k, arr(&v))
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"copy\",{}]]", self.place(p)),
            _ => format!("[\"other\",{}]", esc(&format!("{:?}", r))),
        }
    }
    fn body(&mut self, id: DefId, b: &Body<'tcx>, promoted: Option<usize>) -> String {
        let tcx = self.tcx;
        let env = TypingEnv::post_analysis(tcx, id);
        let locals: Vec<String> = b.local_decls.iter().map(|l| self.ty(l.ty).to_string()).collect();
        let mut names: Vec<String> = vec![];
        for v in b.var_debug_info.iter() {
            if let VarDebugInfoContents::Place(p) = &v.value {
                names.push(format!("[{},{}]", esc(v.name.as_str()), self.place(p)));
            }
        }
        let mut blocks = vec![];
        for bb in b.basic_blocks.iter() {
            let mut st = vec![];
            for s in bb.statements.iter() {
                match &s.kind {
                    StatementKind::Assign(x) => {
                        let sp = self.span(s.source_info.span);
                        let l = self.place(&x.0);
                        let r = self.rvalue(&x.1, env, b);
                        st.push(format!("[\"=\",{},{},{}]", l, r, esc(&sp)));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let l = self.place(place);
                        st.push(format!("[\"setd\",{},{}]", l, variant_index.as_usize()));
                    }
                    StatementKind::Intrinsic(i) => st.push(format!("[\"intr\",{}]", esc(&format!("{:?}", i)))),
                    _ => {}
                }
            }
            let t = bb.terminator();
            let sp = self.span(t.source_info.span);
            let tk = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let v: Vec<String> = targets.iter().map(|(v, t)| format!("[\"{}\",{}]", v, t.as_usize())).collect();
                    let dt = discr.ty(b, tcx);
                    format!("[\"switch\",{},{},{},{}]", self.operand(discr, env), arr(&v), targets.otherwise().as_usize(), self.ty(dt))
                }
                TerminatorKind::Return => "[\"return\"]".into(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                TerminatorKind::UnwindResume => "[\"resume\"]".into(),
                TerminatorKind::Drop { place, target, .. } => {
                    let pt = place.ty(b, tcx).ty;
                    format!("[\"drop\",{},{},{}]", self.place(place), target.as_usize(), self.ty(pt))
                }
                TerminatorKind::Call { func, args, destination, target, fn_span, .. } => {
                    let a: Vec<String> = args.iter().map(|x| self.operand(&x.node, env)).collect();
                    let at: Vec<String> = args.iter().map(|x| { let t = x.node.ty(b, tcx); self.ty(t).to_string() }).collect();
                    let tg = target.map(|x| x.as_usize().to_string()).unwrap_or("null".into());
                    let _ = fn_span;
                    format!("[\"call\",{},{},{},{},{}]", self.operand(func, env), arr(&a), self.place(destination), tg, arr(&at))
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = match &**msg { AssertKind::BoundsCheck { .. } => "bounds", AssertKind::DivisionByZero(_) => "div0", AssertKind::RemainderByZero(_) => "rem0", AssertKind::Overflow(..) => "overflow", _ => "other" };
                    format!("[\"assert\",{},{},{},{}]", self.operand(cond, env), expected, esc(m), target.as_usize())
                }
                TerminatorKind::UnwindTerminate(_) => "[\"terminate\"]".into(),
                _ => format!("[\"other\",{}]", esc(&format!("{:?}", t.kind))),
            };
            blocks.push(format!("{{\"s\":{},\"t\":{},\"sp\":{},\"c\":{}}}", arr(&st), tk, esc(&sp), bb.is_cleanup));
        }
        let kind = format!("{:?}", tcx.def_kind(id));
        let pr = promoted.map(|p| p.to_string()).unwrap_or("null".into());
        let (vis, uns) = match tcx.def_kind(id) {
            DefKind::Fn | DefKind::AssocFn => (format!("{:?}", tcx.visibility(id)).contains("Public"), tcx.fn_sig(id).skip_binder().safety().is_unsafe()),
            _ => (false, false),
        };
        let parent_trait = tcx.trait_impl_of_assoc(id).map(|i| esc(&self.did(tcx.impl_trait_id(i)))).unwrap_or("null".into());
        let iself = match tcx.def_kind(id) {
            DefKind::AssocFn => {
                match tcx.impl_of_assoc(id) { Some(i) => { let t = tcx.type_of(i).instantiate_identity().skip_norm_wip(); self.ty(t).to_string() }, None => "null".into() }
            }
            _ => "null".into(),
        };
        format!("{{\"id\":{},\"path\":{},\"kind\":{},\"promoted\":{},\"span\":{},\"pub\":{},\"unsafe\":{},\"itrait\":{},\"iself\":{},\"argc\":{},\"locals\":{},\"names\":{},\"blocks\":{}}}",
            esc(&self.did(id)), esc(&self.pretty(id)), esc(&kind), pr, esc(&self.span(b.span)), vis, uns, parent_trait, iself, b.arg_count, arr(&locals), arr(&names), arr(&blocks))
    }
}

// ---- unsafe / linkage constructs, from the HIR ----
struct UV<'a, 'tcx> { cx: &'a Cx<'tcx>, out: Vec<String> }
impl<'a, 'tcx> rustc_hir::intravisit::Visitor<'tcx> for UV<'a, 'tcx> {
    type NestedFilter = rustc_middle::hir::nested_filter::All;
    fn maybe_tcx(&mut self) -> TyCtxt<'tcx> { self.cx.tcx }
    fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
        if let rustc_hir::BlockCheckMode::UnsafeBlock(src) = b.rules {
            if matches!(src, rustc_hir::UnsafeSource::UserProvided) {
                let mac = b.span.ctxt().outer_expn_data().macro_def_id.map(|d| self.cx.did(d)).unwrap_or_default();
                let own = b.hir_id.owner.def_id.to_def_id();
                self.out.push(format!("[\"unsafe block\",{},{},{}]", esc(&self.cx.span(b.span)), esc(&mac), esc(&self.cx.pretty(own))));
            }
        }
        rustc_hir::intravisit::walk_block(self, b);
    }
    fn visit_item(&mut self, i: &'tcx rustc_hir::Item<'tcx>) {
        let own = self.cx.pretty(i.owner_id.to_def_id());
        let sp = self.cx.span(i.span);
        let mac = i.span.ctxt().outer_expn_data().macro_def_id.map(|d| self.cx.did(d)).unwrap_or_default();
        match &i.kind {
            rustc_hir::ItemKind::ForeignMod { .. } => self.out.push(format!("[\"extern block\",{},{},{}]", esc(&sp), esc(&mac), esc(&own))),
            rustc_hir::ItemKind::GlobalAsm { .. } => self.out.push(format!("[\"global asm\",{},{},{}]", esc(&sp), esc(&mac), esc(&own))),
            rustc_hir::ItemKind::Static(m, ..) => { let k = if m.is_mut() { "static mut" } else { "static" }; self.out.push(format!("[\"{}\",{},{},{}]", k, esc(&sp), esc(&mac), esc(&own))) }
            rustc_hir::ItemKind::Impl(im) => {
                if let Some(tr) = im.of_trait { if tr.safety.is_unsafe() { self.out.push(format!("[\"unsafe impl\",{},{},{}]", esc(&sp), esc(&mac), esc(&own))); } }
            }
            rustc_hir::ItemKind::Trait { safety, .. } => { if safety.is_unsafe() { self.out.push(format!("[\"unsafe trait\",{},{},{}]", esc(&sp), esc(&mac), esc(&own))); } }
            _ => {}
        }
        rustc_hir::intravisit::walk_item(self, i);
    }
}

struct CB;
impl Callbacks for CB {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let out = match std::env::var("MIRDUMP_OUT") { Ok(o) => o, Err(_) => return Compilation::Continue };
        let name = tcx.crate_name(LOCAL_CRATE).to_string();
        let is_bin = tcx.entry_fn(()).is_some();
        let mut cx = Cx { tcx, types: vec![], tymap: HashMap::new(), adts: BTreeMap::new() };
        let mut bodies = vec![];
        for d in tcx.mir_keys(()).iter() {
            let id = d.to_def_id();
            let k = tcx.def_kind(id);
            match k {
                DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {
                    let b = tcx.optimized_mir(id);
                    bodies.push(cx.body(id, b, None));
                }
                DefKind::Ctor(..) => {}
                _ => {
                    let b = tcx.mir_for_ctfe(id);
                    bodies.push(cx.body(id, b, None));
                }
            }
            if !matches!(k, DefKind::Ctor(..)) {
                let ps = tcx.promoted_mir(id);
                for (i, p) in ps.iter_enumerated() { bodies.push(cx.body(id, p, Some(i.as_usize()))); }
            }
        }
        // impl tables
        let mut impls = vec![];
        for (tr, is) in tcx.all_local_trait_impls(()).iter() {
            for i in is.iter() {
                let st = tcx.type_of(i.to_def_id()).instantiate_identity().skip_norm_wip();
                let ti = cx.ty(st);
                let mut ms = vec![];
                for it in tcx.associated_items(i.to_def_id()).in_definition_order() {
                    if let Some(tid) = it.trait_item_def_id() {
                        ms.push(format!("[{},{}]", esc(&cx.did(tid)), esc(&cx.did(it.def_id))));
                    }
                }
                impls.push(format!("{{\"trait\":{},\"self\":{},\"items\":{}}}", esc(&cx.did(*tr)), ti, arr(&ms)));
            }
        }
        let mut uv = UV { cx: &cx, out: vec![] };
        tcx.hir_walk_toplevel_module(&mut uv);
        let uns = uv.out;
        let adts: Vec<String> = cx.adts.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect();
        let s = format!("{{\"crate\":{},\"bin\":{},\"types\":{},\"adts\":{{{}}},\"impls\":{},\"unsafe\":{},\"bodies\":{}}}",
            esc(&name), is_bin, arr(&cx.types), adts.join(","), arr(&impls), arr(&uns), arr(&bodies).replace("},{\"id\"", "},\n{\"id\""));
        let f = format!("{}/{}{}.json", out, if is_bin { "bin-" } else { "lib-" }, name);
        std::fs::write(&f, s).expect("write dump");
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 { args.remove(1); }
    if std::env::var("MIRDUMP_OUT").is_ok() {
        for a in ["-Coverflow-checks=off", "-Cdebug-assertions=off", "-Zmir-opt-level=0", "-Zunstable-options"] { args.push(a.into()); }
    }
    rustc_driver_impl::compiler_entrypoint(&args, &mut CB);
}
