// MIR dumper for the svgcleaner static checks.
// Injected by cargo through RUSTC_WORKSPACE_WRAPPER; for the workspace crates it
// writes one JSON document per crate (resolved callees, constants, CFGs) into $MIRDUMP_OUT.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_hir;
extern crate rustc_span;
extern crate rustc_abi;
extern crate rustc_session;

use std::collections::{BTreeMap, HashMap};
use std::fmt::Write as _;
use std::io::Write as _;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_interface::interface;
use rustc_middle::mir::*;
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::ty::print::{with_no_trimmed_paths, with_no_visible_paths};
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypingEnv};
use rustc_span::def_id::DefId;

#[derive(Clone)]
enum J { N, B(bool), I(String), S(String), A(Vec<J>), O(Vec<(&'static str, J)>) }
impl J {
    fn w(&self, o: &mut String) {
        match self {
            J::N => o.push_str("null"),
            J::B(b) => { let _ = write!(o, "{}", b); }
            J::I(s) => o.push_str(s),
            J::S(s) => {
                o.push('"');
                for c in s.chars() {
                    match c {
                        '"' => o.push_str("\\\""),
                        '\\' => o.push_str("\\\\"),
                        '\n' => o.push_str("\\n"),
                        c if (c as u32) < 0x20 || (c as u32) == 0x7f => { let _ = write!(o, "\\u{:04x}", c as u32); }
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            J::A(v) => { o.push('['); for (i, x) in v.iter().enumerate() { if i > 0 { o.push(','); } x.w(o); } o.push(']'); }
            J::O(v) => { o.push('{'); for (i, (k, x)) in v.iter().enumerate() { if i > 0 { o.push(','); } let _ = write!(o, "\"{}\":", k); x.w(o); } o.push('}'); }
        }
    }
}
fn s<T: Into<String>>(t: T) -> J { J::S(t.into()) }
fn n<T: std::fmt::Display>(t: T) -> J { J::I(t.to_string()) }

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: HashMap<Ty<'tcx>, usize>,
    tyj: Vec<J>,
    adts: BTreeMap<String, J>,
}

fn path<'tcx>(tcx: TyCtxt<'tcx>, d: DefId) -> String {
    with_no_visible_paths!(with_no_trimmed_paths!(tcx.def_path_str(d)))
}

impl<'tcx> Cx<'tcx> {
    fn tystr(&self, t: Ty<'tcx>) -> String { with_no_visible_paths!(with_no_trimmed_paths!(format!("{}", t))) }

    fn ty(&mut self, t: Ty<'tcx>) -> J { n(self.tyi(t)) }
    fn tyi(&mut self, t: Ty<'tcx>) -> usize {
        let tcx = self.tcx;
        let t = tcx.erase_and_anonymize_regions(t);
        if let Some(i) = self.tys.get(&t) { return *i; }
        let i = self.tyj.len();
        self.tys.insert(t, i);
        self.tyj.push(J::N);
        let st = self.tystr(t);
        let j = match t.kind() {
            ty::Adt(def, args) => {
                let p = path(tcx, def.did());
                self.adt(*def);
                let a: Vec<J> = args.types().map(|x| self.ty(x)).collect();
                J::O(vec![("s", s(st)), ("k", s("adt")), ("adt", s(p)), ("a", J::A(a))])
            }
            ty::Ref(_, x, m) => { let a = self.ty(*x); J::O(vec![("s", s(st)), ("k", s("ref")), ("mut", J::B(m.is_mut())), ("a", J::A(vec![a]))]) }
            ty::RawPtr(x, m) => { let a = self.ty(*x); J::O(vec![("s", s(st)), ("k", s("ptr")), ("mut", J::B(m.is_mut())), ("a", J::A(vec![a]))]) }
            ty::Tuple(xs) => { let a: Vec<J> = xs.iter().map(|x| self.ty(x)).collect(); J::O(vec![("s", s(st)), ("k", s("tuple")), ("a", J::A(a))]) }
            ty::Array(x, len) => {
                let a = self.ty(*x);
                let l = len.try_to_target_usize(tcx).map(|v| n(v)).unwrap_or(J::N);
                J::O(vec![("s", s(st)), ("k", s("array")), ("len", l), ("a", J::A(vec![a]))])
            }
            ty::Slice(x) => { let a = self.ty(*x); J::O(vec![("s", s(st)), ("k", s("slice")), ("a", J::A(vec![a]))]) }
            ty::Closure(d, _) => J::O(vec![("s", s(st)), ("k", s("closure")), ("def", s(path(tcx, *d)))]),
            ty::FnDef(..) => { let c = self.callee(t, None); J::O(vec![("s", s(st)), ("k", s("fndef")), ("fn", c)]) }
            ty::FnPtr(..) => J::O(vec![("s", s(st)), ("k", s("fnptr"))]),
            ty::Dynamic(..) => J::O(vec![("s", s(st)), ("k", s("dyn"))]),
            ty::Param(_) => J::O(vec![("s", s(st)), ("k", s("param"))]),
            _ => J::O(vec![("s", s(st.clone())), ("k", s("prim"))]),
        };
        self.tyj[i] = j;
        i
    }

    fn adt(&mut self, def: ty::AdtDef<'tcx>) {
        let p = path(self.tcx, def.did());
        if self.adts.contains_key(&p) { return; }
        self.adts.insert(p.clone(), J::N);
        let tcx = self.tcx;
        let mut vs = Vec::new();
        if def.is_enum() {
            for (i, d) in def.discriminants(tcx) {
                let v = def.variant(i);
                let fs: Vec<J> = v.fields.iter().map(|f| s(f.name.to_string())).collect();
                vs.push(J::O(vec![("n", s(v.name.to_string())), ("d", n(d.val)), ("f", J::A(fs))]));
            }
        } else if def.is_struct() || def.is_union() {
            let v = def.non_enum_variant();
            let fs: Vec<J> = v.fields.iter().map(|f| s(f.name.to_string())).collect();
            vs.push(J::O(vec![("n", s(v.name.to_string())), ("d", n(0)), ("f", J::A(fs))]));
        }
        let k = if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" };
        self.adts.insert(p, J::O(vec![("k", s(k)), ("v", J::A(vs))]));
    }

    // Description of a callee (a FnDef type), resolved to the concrete impl where possible.
    fn callee(&mut self, fty: Ty<'tcx>, owner: Option<DefId>) -> J {
        let tcx = self.tcx;
        if let ty::FnDef(d, args) = *fty.kind() {
            let p = path(tcx, d);
            let args = args.no_bound_vars().unwrap_or_else(|| tcx.erase_and_anonymize_regions(args.skip_binder()));
            let targs: Vec<J> = args.types().map(|x| { let i = self.tyi(x); n(i) }).collect();
            let mut out = vec![("p", s(p)), ("a", J::A(targs))];
            let env = match owner { Some(o) => TypingEnv::post_analysis(tcx, o), None => TypingEnv::fully_monomorphized() };
            let eargs = tcx.erase_and_anonymize_regions(args);
            let ok = owner.is_some();
            if ok {
                if let Ok(Some(inst)) = Instance::try_resolve(tcx, env, d, eargs) {
                    let rp = path(tcx, inst.def_id());
                    let kind = match inst.def {
                        ty::InstanceKind::Item(_) => "item",
                        ty::InstanceKind::Virtual(..) => "virtual",
                        ty::InstanceKind::Shim(ty::ShimKind::ClosureOnce { .. }) => "closure_once",
                        ty::InstanceKind::Shim(ty::ShimKind::Clone(..)) => "clone",
                        ty::InstanceKind::Shim(ty::ShimKind::DropGlue(..)) => "drop",
                        _ => "shim",
                    };
                    out.push(("r", s(rp)));
                    out.push(("rk", s(kind)));
                    out.push(("loc", J::B(inst.def_id().is_local())));
                }
            }
            J::O(out)
        } else { J::N }
    }

    fn place(&mut self, pl: &Place<'tcx>, body: &Body<'tcx>) -> J {
        let tcx = self.tcx;
        let mut ps = Vec::new();
        let mut pty = PlaceTy::from_ty(body.local_decls[pl.local].ty);
        for e in pl.projection.iter() {
            let j = match e {
                ProjectionElem::Deref => J::A(vec![s("*")]),
                ProjectionElem::Field(f, _) => {
                    let name = match pty.ty.kind() {
                        ty::Adt(def, _) => {
                            self.adt(*def);
                            let v = match pty.variant_index { Some(v) => def.variant(v), None => { if def.is_enum() { def.variant(rustc_abi::VariantIdx::from_u32(0)) } else { def.non_enum_variant() } } };
                            s(v.fields[f].name.to_string())
                        }
                        _ => s(f.as_usize().to_string()),
                    };
                    J::A(vec![s("f"), n(f.as_usize()), name])
                }
                ProjectionElem::Downcast(nm, v) => J::A(vec![s("v"), n(v.as_u32()), nm.map(|x| s(x.to_string())).unwrap_or(J::N)]),
                ProjectionElem::Index(l) => J::A(vec![s("i"), n(l.as_u32())]),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => J::A(vec![s("c"), n(offset), J::B(from_end)]),
                ProjectionElem::Subslice { from, to, from_end } => J::A(vec![s("s"), n(from), n(to), J::B(from_end)]),
                _ => J::A(vec![s("o")]),
            };
            ps.push(j);
            pty = pty.projection_ty(tcx, e);
        }
        J::A(vec![n(pl.local.as_u32()), J::A(ps)])
    }

    fn operand(&mut self, op: &Operand<'tcx>, body: &Body<'tcx>, owner: DefId) -> J {
        match op {
            Operand::Copy(p) => J::A(vec![s("cp"), self.place(p, body)]),
            Operand::Move(p) => J::A(vec![s("mv"), self.place(p, body)]),
            Operand::Constant(c) => J::A(vec![s("k"), self.constant(&c.const_, owner)]),
            _ => J::A(vec![s("k"), J::O(vec![("rt", s(format!("{:?}", op)))])]),
        }
    }

    fn scalar(&mut self, sc: Scalar, t: Ty<'tcx>, out: &mut Vec<(&'static str, J)>) {
        let tcx = self.tcx;
        match sc {
            Scalar::Int(i) => {
                match t.kind() {
                    ty::Bool => out.push(("b", J::B(i.try_to_bool().unwrap_or(false)))),
                    ty::Char => out.push(("c", n(i.to_bits_unchecked()))),
                    ty::Int(_) => {
                        let sz = i.size();
                        out.push(("i", n(i.to_int(sz))));
                    }
                    ty::Uint(_) => out.push(("i", n(i.to_bits_unchecked()))),
                    ty::Float(f) => {
                        let bits = i.to_bits_unchecked();
                        let v = match f.bit_width() { 64 => f64::from_bits(bits as u64), 32 => f32::from_bits(bits as u32) as f64, _ => 0.0 };
                        out.push(("f", s(format!("{:?}", v))));
                    }
                    ty::Adt(def, _) if def.is_enum() => {
                        // field-less enum: bits are the tag
                        let bits = i.to_bits_unchecked();
                        self.adt(*def);
                        for (vi, d) in def.discriminants(tcx) {
                            let sz = i.size().bits();
                            let mask = if sz >= 128 { u128::MAX } else { (1u128 << sz) - 1 };
                            if def.variants().iter().all(|v| v.fields.is_empty()) && (d.val & mask) == bits { out.push(("var", n(vi.as_u32()))); }
                        }
                        out.push(("bits", n(bits)));
                    }
                    _ => out.push(("bits", n(i.to_bits_unchecked()))),
                }
            }
            Scalar::Ptr(p, _) => {
                let (prov, _) = p.prov_and_relative_offset();
                match tcx.global_alloc(prov.alloc_id()) {
                    GlobalAlloc::Static(d) => out.push(("static", s(path(tcx, d)))),
                    GlobalAlloc::Function { instance } => out.push(("fnref", s(path(tcx, instance.def_id())))),
                    GlobalAlloc::Memory(m) => {
                        // small byte memory behind a reference: expose bytes of [u8; N]
                        if let ty::Ref(_, inner, _) = t.kind() {
                            if let ty::Array(e, _) = inner.kind() {
                                if *e == tcx.types.u8 {
                                    let a = m.inner();
                                    let r = a.inspect_with_uninit_and_ptr_outside_interpreter(0..a.len());
                                    out.push(("bytes", J::A(r.iter().map(|b| n(b)).collect())));
                                }
                            }
                        }
                    }
                    _ => {}
                }
            }
        }
    }

    fn constant(&mut self, c: &Const<'tcx>, owner: DefId) -> J {
        let tcx = self.tcx;
        let t = c.ty();
        let ti = self.tyi(t);
        let mut out = vec![("t", n(ti))];
        if let ty::FnDef(..) = t.kind() {
            let cj = self.callee(t, Some(owner));
            out.push(("fn", cj));
            return J::O(out);
        }
        if let Const::Unevaluated(u, _) = c {
            if let Some(p) = u.promoted {
                out.push(("prom", J::A(vec![s(path(tcx, u.def)), n(p.as_u32())])));
                return J::O(out);
            }
            out.push(("named", s(path(tcx, u.def))));
            out.push(("loc", J::B(u.def.is_local())));
        }
        let env = TypingEnv::post_analysis(tcx, owner);
        let val = c.eval(tcx, env, rustc_span::DUMMY_SP);
        match val {
            Ok(ConstValue::Scalar(sc)) => self.scalar(sc, t, &mut out),
            Ok(ConstValue::ZeroSized) => out.push(("zst", J::B(true))),
            Ok(v @ ConstValue::Slice { .. }) => {
                if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                    match std::str::from_utf8(b) {
                        Ok(st) if matches!(t.kind(), ty::Ref(_, x, _) if x.is_str()) => out.push(("str", s(st))),
                        _ => out.push(("bytes", J::A(b.iter().map(|b| n(b)).collect()))),
                    }
                }
            }
            Ok(ConstValue::Indirect { .. }) => {
                let d = match t.kind() {
                    ty::Adt(..) | ty::Tuple(_) | ty::Array(..) => tcx.try_destructure_mir_constant_for_user_output(val.unwrap(), t),
                    _ => None,
                };
                if let Some(d) = d {
                    if let Some(v) = d.variant { out.push(("var", n(v.as_u32()))); }
                    let fs: Vec<J> = d.fields.iter().map(|(cv, ft)| { let cc = Const::Val(*cv, *ft); self.constant(&cc, owner) }).collect();
                    out.push(("fields", J::A(fs)));
                }
            }
            Err(_) => out.push(("err", J::B(true))),
        }
        J::O(out)
    }

    fn rvalue(&mut self, rv: &Rvalue<'tcx>, body: &Body<'tcx>, o: DefId) -> J {
        match rv {
            Rvalue::Use(op, ..) => J::A(vec![s("use"), self.operand(op, body, o)]),
            Rvalue::Repeat(op, c) => {
                let l = c.try_to_target_usize(self.tcx).map(|v| n(v)).unwrap_or(J::N);
                J::A(vec![s("repeat"), self.operand(op, body, o), l])
            }
            Rvalue::Ref(_, bk, p) => J::A(vec![s("ref"), self.place(p, body), J::B(matches!(bk, BorrowKind::Mut { .. }))]),
            Rvalue::RawPtr(_, p) => J::A(vec![s("ref"), self.place(p, body), J::B(true)]),
            Rvalue::Cast(k, op, t) => { let ti = self.ty(*t); J::A(vec![s("cast"), s(format!("{:?}", k)), self.operand(op, body, o), ti]) }
            Rvalue::BinaryOp(b, ops) => J::A(vec![s("bin"), s(format!("{:?}", b)), self.operand(&ops.0, body, o), self.operand(&ops.1, body, o)]),
            Rvalue::UnaryOp(u, op) => J::A(vec![s("un"), s(format!("{:?}", u)), self.operand(op, body, o)]),
            Rvalue::Discriminant(p) => {
                let t = p.ty(body, self.tcx).ty;
                let ti = self.ty(t);
                J::A(vec![s("discr"), self.place(p, body), ti])
            }
            Rvalue::Aggregate(k, ops) => {
                let kj = match &**k {
                    AggregateKind::Array(_) => J::A(vec![s("array")]),
                    AggregateKind::Tuple => J::A(vec![s("tuple")]),
                    AggregateKind::Adt(d, v, _, _, f) => {
                        let def = self.tcx.adt_def(*d);
                        self.adt(def);
                        J::A(vec![s("adt"), s(path(self.tcx, *d)), n(v.as_u32()), s(def.variant(*v).name.to_string()), f.map(|x| n(x.as_usize())).unwrap_or(J::N)])
                    }
                    AggregateKind::Closure(d, _) => J::A(vec![s("closure"), s(path(self.tcx, *d))]),
                    _ => J::A(vec![s("other")]),
                };
                let os: Vec<J> = ops.iter().map(|x| self.operand(x, body, o)).collect();
                J::A(vec![s("agg"), kj, J::A(os)])
            }
            Rvalue::CopyForDeref(p) => J::A(vec![s("use"), J::A(vec![s("cp"), self.place(p, body)])]),
            Rvalue::ThreadLocalRef(d) => J::A(vec![s("tls"), s(path(self.tcx, *d))]),
            _ => J::A(vec![s("other"), s(format!("{:?}", rv))]),
        }
    }

    fn line(&self, sp: rustc_span::Span) -> J {
        let sm = self.tcx.sess.source_map();
        let sp = sp.source_callsite();
        let l = sm.lookup_char_pos(sp.lo());
        n(l.line)
    }

    fn body(&mut self, name: String, kind: &str, body: &Body<'tcx>, owner: DefId) -> J {
        let sm = self.tcx.sess.source_map();
        let l = sm.lookup_char_pos(body.span.source_callsite().lo());
        let hi = sm.lookup_char_pos(body.span.source_callsite().hi());
        let file = l.file.name.prefer_local_unconditionally().to_string();
        let locals: Vec<J> = body.local_decls.iter().map(|d| self.ty(d.ty)).collect();
        let mut names = Vec::new();
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                let pj = self.place(p, body);
                names.push(J::A(vec![s(v.name.to_string()), pj]));
            }
        }
        let mut blocks = Vec::new();
        for bb in body.basic_blocks.iter() {
            let mut st = Vec::new();
            for x in &bb.statements {
                match &x.kind {
                    StatementKind::Assign(b) => {
                        let p = self.place(&b.0, body);
                        let r = self.rvalue(&b.1, body, owner);
                        st.push(J::A(vec![p, r, self.line(x.source_info.span)]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(place, body);
                        st.push(J::A(vec![p, J::A(vec![s("setdiscr"), n(variant_index.as_u32())]), self.line(x.source_info.span)]));
                    }
                    _ => {}
                }
            }
            let t = bb.terminator();
            let ln = self.line(t.source_info.span);
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => J::A(vec![s("goto"), n(target.as_u32())]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let d = self.operand(discr, body, owner);
                    let ti = { let t = discr.ty(body, self.tcx); self.ty(t) };
                    let ts: Vec<J> = targets.iter().map(|(v, b)| J::A(vec![n(v), n(b.as_u32())])).collect();
                    J::A(vec![s("switch"), d, ti, J::A(ts), n(targets.otherwise().as_u32())])
                }
                TerminatorKind::Return => J::A(vec![s("return")]),
                TerminatorKind::Unreachable => J::A(vec![s("unreachable")]),
                TerminatorKind::Drop { place, target, .. } => { let p = self.place(place, body); let t = place.ty(body, self.tcx).ty; let ti = self.ty(t); J::A(vec![s("drop"), p, n(target.as_u32()), ti]) }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.operand(func, body, owner);
                    let a: Vec<J> = args.iter().map(|x| self.operand(&x.node, body, owner)).collect();
                    let d = self.place(destination, body);
                    J::A(vec![s("call"), f, J::A(a), d, target.map(|b| n(b.as_u32())).unwrap_or(J::N)])
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let c = self.operand(cond, body, owner);
                    let m = match &**msg { AssertKind::BoundsCheck { .. } => "bounds", AssertKind::Overflow(..) => "overflow", AssertKind::DivisionByZero(_) => "div0", _ => "other" };
                    J::A(vec![s("assert"), c, J::B(*expected), n(target.as_u32()), s(m)])
                }
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => J::A(vec![s("resume")]),
                TerminatorKind::FalseEdge { real_target, .. } => J::A(vec![s("goto"), n(real_target.as_u32())]),
                TerminatorKind::FalseUnwind { real_target, .. } => J::A(vec![s("goto"), n(real_target.as_u32())]),
                k => J::A(vec![s("other"), s(format!("{:?}", k))]),
            };
            blocks.push(J::A(vec![J::A(st), tj, ln, J::B(bb.is_cleanup)]));
        }
        J::O(vec![("name", s(name)), ("kind", s(kind)), ("file", s(file)), ("line", n(l.line)), ("end", n(hi.line)), ("argc", n(body.arg_count)),
            ("locals", J::A(locals)), ("names", J::A(names)), ("spread", body.spread_arg.map(|l| n(l.as_u32())).unwrap_or(J::N)), ("blocks", J::A(blocks))])
    }
}

struct Cb;
impl Callbacks for Cb {
    fn config(&mut self, _c: &mut interface::Config) {}
    fn after_analysis<'tcx>(&mut self, _c: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        dump(tcx);
        Compilation::Continue
    }
}

fn dump<'tcx>(tcx: TyCtxt<'tcx>) {
    let dir = std::env::var("MIRDUMP_OUT").expect("MIRDUMP_OUT");
    let mut cx = Cx { tcx, tys: HashMap::new(), tyj: vec![], adts: BTreeMap::new() };
    let mut bodies = Vec::new();
    for ld in tcx.mir_keys(()) {
        let d = ld.to_def_id();
        let p = path(tcx, d);
        let dk = tcx.def_kind(d);
        let (kind, b): (&str, &Body<'tcx>) = match dk {
            DefKind::Fn | DefKind::AssocFn => ("fn", tcx.optimized_mir(d)),
            DefKind::Closure => ("closure", tcx.optimized_mir(d)),
            DefKind::Const { .. } | DefKind::AssocConst { .. } => ("const", tcx.mir_for_ctfe(d)),
            DefKind::Static { .. } => ("static", tcx.mir_for_ctfe(d)),
            DefKind::AnonConst => ("anon", tcx.mir_for_ctfe(d)),
            _ => continue,
        };
        bodies.push(cx.body(p.clone(), kind, b, d));
        if matches!(dk, DefKind::AnonConst) { continue; }
        for (i, pb) in tcx.promoted_mir(d).iter_enumerated() {
            bodies.push(cx.body(format!("{}#promoted{}", p, i.as_u32()), "promoted", pb, d));
        }
    }
    // items: unsafe blocks / fns are visible in HIR; statics' mutability
    let mut items = Vec::new();
    for id in tcx.hir_crate_items(()).definitions() {
        let d = id.to_def_id();
        let dk = tcx.def_kind(d);
        let file = { let sm = tcx.sess.source_map(); let l = sm.lookup_char_pos(tcx.def_span(d).source_callsite().lo()); l.file.name.prefer_local_unconditionally().to_string() };
        let mut o = vec![("p", s(path(tcx, d))), ("k", s(format!("{:?}", dk))), ("file", s(file))];
        if let DefKind::Static { mutability, .. } = dk { o.push(("mut", J::B(mutability.is_mut()))); }
        if matches!(dk, DefKind::Fn | DefKind::AssocFn) {
            let sig = tcx.fn_sig(d).skip_binder();
            o.push(("unsafe", J::B(sig.safety().is_unsafe())));
            let out = sig.output().skip_binder();
            let ot = cx.tyi(out);
            o.push(("ret", n(ot)));
            o.push(("pub", J::B(tcx.visibility(d).is_public())));
        }
        items.push(J::O(o));
    }
    let crate_name = tcx.crate_name(rustc_span::def_id::LOCAL_CRATE).to_string();
    let ctype = if tcx.crate_types().iter().any(|t| format!("{:?}", t) == "Executable") { "bin" } else { "lib" };
    let adts: Vec<J> = cx.adts.iter().map(|(k, v)| J::A(vec![s(k.clone()), v.clone()])).collect();
    let doc = J::O(vec![("crate", s(crate_name.clone())), ("type", s(ctype)), ("types", J::A(cx.tyj.clone())), ("adts", J::A(adts)), ("items", J::A(items)), ("bodies", J::A(bodies))]);
    let mut o = String::new();
    doc.w(&mut o);
    let f = format!("{}/{}.{}.json", dir, crate_name, ctype);
    let mut fh = std::fs::File::create(&f).expect("create dump");
    fh.write_all(o.as_bytes()).expect("write dump");
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && args[1].ends_with("rustc") { args.remove(1); }
    let is_test = args.iter().any(|a| a == "--test");
    let has_crate = args.iter().any(|a| a == "--crate-name");
    let build_script = args.iter().any(|a| a == "build_script_build");
    let probing = args.iter().any(|a| a.starts_with("--print")) || args.iter().any(|a| a == "-vV") || args.iter().any(|a| a == "___");
    if has_crate && !is_test && !probing && !build_script {
        rustc_driver::compiler_entrypoint(&args, &mut Cb);
    } else {
        struct Nop; impl Callbacks for Nop {}
        rustc_driver::compiler_entrypoint(&args, &mut Nop);
    }
}
