//! Type-checks one crate from its sources with the real compiler front end and writes the
//! resolved program (types, items, MIR control-flow graphs with resolved callees) as JSON.
//! Nothing of the analysed crate is executed.
#![feature(rustc_private)]
#![allow(clippy::all)]
extern crate rustc_abi;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::mir::interpret::{AllocRange, GlobalAlloc};
use rustc_middle::mir::*;
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypeVisitableExt, TypingEnv};
use rustc_span::Span;
use std::fmt::Write as _;
use std::io::Write as _;

fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn arr(v: Vec<String>) -> String {
    format!("[{}]", v.join(","))
}

struct Dump<'tcx> {
    tcx: TyCtxt<'tcx>,
}

impl<'tcx> Dump<'tcx> {
    fn path(&self, d: DefId) -> String {
        let s = with_no_trimmed_paths!(self.tcx.def_path_str(d));
        s
    }
    fn ty(&self, t: Ty<'tcx>) -> String {
        with_no_trimmed_paths!(t.to_string())
    }
    fn line(&self, s: Span) -> String {
        let s = s.source_callsite();
        let sm = self.tcx.sess.source_map();
        let l = sm.lookup_char_pos(s.lo());
        l.line.to_string()
    }
    fn file(&self, s: Span) -> String {
        let s = s.source_callsite();
        let sm = self.tcx.sess.source_map();
        let l = sm.lookup_char_pos(s.lo());
        format!("{}", l.file.name.prefer_local_unconditionally())
    }

    fn place(&self, body: &Body<'tcx>, p: &Place<'tcx>) -> String {
        let mut pt = PlaceTy::from_ty(body.local_decls[p.local].ty);
        let mut out = vec![];
        for e in p.projection.iter() {
            out.push(match e {
                ProjectionElem::Deref => "\"*\"".to_string(),
                ProjectionElem::Field(f, _) => {
                    let name = match pt.ty.kind() {
                        ty::Adt(a, _) => {
                            let v = match pt.variant_index {
                                Some(v) => a.variant(v),
                                None if a.is_enum() => {
                                    a.variant(rustc_abi::VariantIdx::from_u32(0))
                                }
                                None => a.non_enum_variant(),
                            };
                            v.fields[f].name.to_string()
                        }
                        ty::Closure(d, _) => {
                            let names = self.tcx.closure_saved_names_of_captured_variables(*d);
                            names
                                .get(f)
                                .map(|s| s.to_string())
                                .unwrap_or_else(|| f.as_u32().to_string())
                        }
                        _ => f.as_u32().to_string(),
                    };
                    format!("[\"f\",{},{}]", f.as_u32(), js(&name))
                }
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l.as_u32()),
                ProjectionElem::ConstantIndex {
                    offset, from_end, ..
                } => format!("[\"c\",{},{}]", offset, from_end),
                ProjectionElem::Subslice { from, to, from_end } => {
                    format!("[\"s\",{},{},{}]", from, to, from_end)
                }
                ProjectionElem::Downcast(name, v) => {
                    let n = name.map(|n| n.to_string()).unwrap_or_else(|| {
                        if let ty::Adt(a, _) = pt.ty.kind() {
                            a.variant(v).name.to_string()
                        } else {
                            String::new()
                        }
                    });
                    format!("[\"v\",{},{}]", v.as_u32(), js(&n))
                }
                _ => "\"?\"".to_string(),
            });
            pt = pt.projection_ty(self.tcx, e);
        }
        format!("[{},{}]", p.local.as_u32(), arr(out))
    }

    fn closures_in(&self, args: ty::GenericArgsRef<'tcx>) -> Vec<String> {
        let mut v = vec![];
        for a in args.iter() {
            for t in a.walk() {
                if let ty::GenericArgKind::Type(t) = t.kind() {
                    match t.kind() {
                        ty::Closure(d, _) => v.push(js(&self.path(*d))),
                        ty::FnDef(d, _) => v.push(js(&self.path(*d))),
                        _ => {}
                    }
                }
            }
        }
        v
    }

    fn fndef(&self, te: TypingEnv<'tcx>, d: DefId, args: ty::GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        let mut o = format!("\"fn\":{}", js(&self.path(d)));
        let targs: Vec<String> = args
            .iter()
            .filter(|a| !matches!(a.kind(), ty::GenericArgKind::Lifetime(_)))
            .map(|a| js(&with_no_trimmed_paths!(a.to_string())))
            .collect();
        let _ = write!(o, ",\"args\":{}", arr(targs));
        let clo = self.closures_in(args);
        if !clo.is_empty() {
            let _ = write!(o, ",\"clo\":{}", arr(clo));
        }
        let eargs = tcx.erase_and_anonymize_regions(args);
        if let Ok(Some(inst)) = Instance::try_resolve(tcx, te, d, eargs) {
            let rd = inst.def_id();
            if rd != d {
                let _ = write!(o, ",\"res\":{}", js(&self.path(rd)));
            }
            if rd.is_local() {
                o.push_str(",\"loc\":1");
            }
        } else {
            o.push_str(",\"unres\":1");
        }
        if let Some(t) = tcx.trait_of_assoc(d) {
            let _ = write!(o, ",\"trait\":{}", js(&self.path(t)));
        }
        o
    }

    fn constant(&self, te: TypingEnv<'tcx>, c: &Const<'tcx>, sp: Span) -> String {
        let tcx = self.tcx;
        let t = c.ty();
        let mut o = String::from("[\"k\",{");
        let _ = write!(o, "\"ty\":{}", js(&self.ty(t)));
        if let ty::FnDef(d, args) = t.kind() {
            let _ = write!(o, ",{}", self.fndef(te, *d, args.skip_binder()));
            o.push_str("}]");
            return o;
        }
        if let Const::Unevaluated(u, _) = c {
            let _ = write!(o, ",\"def\":{}", js(&self.path(u.def)));
            if let Some(p) = u.promoted {
                let _ = write!(o, ",\"promoted\":{}", p.as_u32());
            }
            if u.def.is_local() {
                o.push_str(",\"loc\":1");
            }
        }
        match c {
            Const::Ty(_, k) => {
                let _ = write!(o, ",\"param\":{}", js(&k.to_string()));
            }
            _ => {}
        }
        // value
        let v = match c {
            Const::Unevaluated(u, _) if tcx.type_of(u.def).skip_binder().references_error() => None,
            _ => c.eval(tcx, te, sp).ok(),
        };
        if let Some(v) = v {
            self.constval(&mut o, v, t);
        }
        o.push_str("}]");
        o
    }

    fn constval(&self, o: &mut String, v: ConstValue, t: Ty<'tcx>) {
        let tcx = self.tcx;
        match v {
            ConstValue::Scalar(interpret::Scalar::Int(i)) => {
                let size = i.size();
                match t.kind() {
                    ty::Int(_) => {
                        let _ = write!(o, ",\"int\":\"{}\"", i.to_int(size));
                    }
                    _ => {
                        let _ = write!(o, ",\"int\":\"{}\"", i.to_uint(size));
                    }
                }
            }
            ConstValue::Scalar(interpret::Scalar::Ptr(p, _)) => {
                let (prov, off) = p.prov_and_relative_offset();
                self.alloc(o, prov.alloc_id(), off.bytes() as usize, t, true);
            }
            ConstValue::ZeroSized => {
                o.push_str(",\"zst\":1");
            }
            ConstValue::Slice { alloc_id, meta } => {
                if let GlobalAlloc::Memory(a) = tcx.global_alloc(alloc_id) {
                    let a = a.inner();
                    let n = (meta as usize).min(a.len());
                    let bytes = a.inspect_with_uninit_and_ptr_outside_interpreter(0..n);
                    let is_str = matches!(t.kind(), ty::Ref(_, t, _) if t.is_str());
                    if is_str {
                        let _ = write!(
                            o,
                            ",\"str\":{}",
                            js(&String::from_utf8_lossy(bytes))
                        );
                    } else if n <= 256 {
                        let _ = write!(o, ",\"bytes\":\"{}\"", hex(bytes));
                    }
                }
            }
            ConstValue::Indirect { alloc_id, offset } => {
                self.alloc(o, alloc_id, offset.bytes() as usize, t, false);
            }
        }
    }

    fn alloc(&self, o: &mut String, id: interpret::AllocId, off: usize, t: Ty<'tcx>, byref: bool) {
        let tcx = self.tcx;
        match tcx.global_alloc(id) {
            GlobalAlloc::Memory(a) => {
                let a = a.inner();
                let n = a.len();
                if off <= n && n - off <= 4096 {
                    let r = AllocRange {
                        start: rustc_abi::Size::from_bytes(off as u64),
                        size: rustc_abi::Size::from_bytes((n - off) as u64),
                    };
                    if a.provenance().range_empty(r, &tcx) {
                        let bytes =
                            a.inspect_with_uninit_and_ptr_outside_interpreter(off..n);
                        let _ = write!(
                            o,
                            ",\"{}\":\"{}\"",
                            if byref { "refbytes" } else { "bytes" },
                            hex(bytes)
                        );
                    }
                }
            }
            GlobalAlloc::Static(d) => {
                let _ = write!(o, ",\"static\":{}", js(&self.path(d)));
                let _ = t;
            }
            _ => {}
        }
    }

    fn operand(&self, te: TypingEnv<'tcx>, body: &Body<'tcx>, op: &Operand<'tcx>) -> String {
        match op {
            Operand::Copy(p) => format!("[\"p\",{}]", self.place(body, p)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(body, p)),
            Operand::Constant(c) => self.constant(te, &c.const_, c.span),
            _ => "[\"rc\"]".to_string(),
        }
    }

    fn variants(&self, t: Ty<'tcx>) -> String {
        if let ty::Adt(a, _) = t.kind() {
            if a.is_enum() {
                let v: Vec<String> = a
                    .discriminants(self.tcx)
                    .map(|(i, d)| {
                        format!("[\"{}\",{}]", d, js(a.variant(i).name.as_str()))
                    })
                    .collect();
                return arr(v);
            }
        }
        "[]".into()
    }

    fn rvalue(&self, te: TypingEnv<'tcx>, body: &Body<'tcx>, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(o, ..) => format!("[\"use\",{}]", self.operand(te, body, o)),
            Rvalue::Repeat(o, n) => {
                format!("[\"rep\",{},{}]", self.operand(te, body, o), js(&n.to_string()))
            }
            Rvalue::Ref(_, k, p) => format!(
                "[\"ref\",{},{}]",
                self.place(body, p),
                if matches!(k, BorrowKind::Mut { .. }) { 1 } else { 0 }
            ),
            Rvalue::RawPtr(_, p) => format!("[\"ref\",{},2]", self.place(body, p)),
            Rvalue::Cast(k, o, t) => format!(
                "[\"cast\",{},{},{},{}]",
                js(&format!("{:?}", k)),
                self.operand(te, body, o),
                js(&self.ty(*t)),
                js(&self.ty(o.ty(body, self.tcx)))
            ),
            Rvalue::BinaryOp(op, ab) => format!(
                "[\"bin\",\"{:?}\",{},{},{}]",
                op,
                self.operand(te, body, &ab.0),
                self.operand(te, body, &ab.1),
                js(&self.ty(ab.0.ty(body, self.tcx)))
            ),
            Rvalue::UnaryOp(op, a) => format!(
                "[\"un\",{},{}]",
                js(&format!("{:?}", op)),
                self.operand(te, body, a)
            ),
            Rvalue::Discriminant(p) => {
                let t = p.ty(body, self.tcx).ty;
                format!(
                    "[\"disc\",{},{},{}]",
                    self.place(body, p),
                    self.variants(t),
                    js(&self.ty(t))
                )
            }
            Rvalue::Aggregate(k, ops) => {
                let (kind, name, fields): (&str, String, Vec<String>) = match &**k {
                    AggregateKind::Array(_) => ("arr", String::new(), vec![]),
                    AggregateKind::Tuple => ("tup", String::new(), vec![]),
                    AggregateKind::Adt(d, v, _, _, active) => {
                        let a = self.tcx.adt_def(*d);
                        let var = a.variant(*v);
                        let n = if a.is_enum() {
                            format!("{}::{}", self.path(*d), var.name)
                        } else {
                            self.path(*d)
                        };
                        let fs = match active {
                            Some(f) => vec![js(var.fields[*f].name.as_str())],
                            None => var.fields.iter().map(|f| js(f.name.as_str())).collect(),
                        };
                        ("adt", n, fs)
                    }
                    AggregateKind::Closure(d, _) => (
                        "clo",
                        self.path(*d),
                        self.tcx
                            .closure_saved_names_of_captured_variables(*d)
                            .iter()
                            .map(|s| js(s.as_str()))
                            .collect(),
                    ),
                    _ => ("oth", String::new(), vec![]),
                };
                let os: Vec<String> = ops.iter().map(|o| self.operand(te, body, o)).collect();
                format!("[\"agg\",\"{}\",{},{},{}]", kind, js(&name), arr(fields), arr(os))
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"p\",{}]]", self.place(body, p)),
            Rvalue::Reborrow(_, _, p) => format!("[\"use\",[\"p\",{}]]", self.place(body, p)),
            Rvalue::WrapUnsafeBinder(o, _) => format!("[\"use\",{}]", self.operand(te, body, o)),
            _ => "[\"oth\"]".to_string(),
        }
    }

    fn body(&self, owner: DefId, te: TypingEnv<'tcx>, body: &Body<'tcx>, path: &str, out: &mut String) {
        let tcx = self.tcx;
        let _ = write!(
            out,
            "{{\"path\":{},\"file\":{},\"line\":{},\"argc\":{}",
            js(path),
            js(&self.file(body.span)),
            self.line(body.span),
            body.arg_count
        );
        let exp = body.span.from_expansion();
        if exp {
            out.push_str(",\"exp\":1");
        }
        if body.tainted_by_errors.is_some() {
            out.push_str(",\"tainted\":1");
        }
        if tcx.is_closure_like(owner) {
            out.push_str(",\"closure\":1");
        }
        if let Some(assoc) = tcx.opt_associated_item(owner) {
            let c = assoc.container_id(tcx);
            if let DefKind::Impl { of_trait } = tcx.def_kind(c) {
                let _ = write!(
                    out,
                    ",\"self_ty\":{}",
                    js(&self.ty(tcx.type_of(c).skip_binder()))
                );
                if of_trait {
                    let tr = tcx.impl_trait_ref(c).skip_binder();
                    let _ = write!(
                        out,
                        ",\"impl_of\":{},\"impl_ref\":{}",
                        js(&self.path(tr.def_id)),
                        js(&with_no_trimmed_paths!(tr.to_string()))
                    );
                    if let Some(ti) = assoc.trait_item_def_id() {
                        let _ = write!(out, ",\"trait_item\":{}", js(&self.path(ti)));
                    }
                }
            } else {
                let _ = write!(out, ",\"trait_default\":{}", js(&self.path(c)));
            }
            let _ = write!(out, ",\"name\":{}", js(assoc.name().as_str()));
        }
        if matches!(tcx.def_kind(owner), DefKind::Fn | DefKind::AssocFn) {
            let vis = tcx.visibility(owner);
            if vis.is_public() {
                out.push_str(",\"pub\":1");
            }
        }
        let locals: Vec<String> = body
            .local_decls
            .iter()
            .map(|l| js(&self.ty(l.ty)))
            .collect();
        let _ = write!(out, ",\"locals\":{}", arr(locals));
        let mut dbg = vec![];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                dbg.push(format!("[{},{}]", js(v.name.as_str()), self.place(body, p)));
            }
        }
        let _ = write!(out, ",\"dbg\":{}", arr(dbg));
        let mut bbs = vec![];
        for bb in body.basic_blocks.iter() {
            let mut st = vec![];
            for s in &bb.statements {
                let l = self.line(s.source_info.span);
                match &s.kind {
                    StatementKind::Assign(pr) => {
                        let (p, r) = &**pr;
                        st.push(format!(
                            "[{},{},{}]",
                            self.place(body, p),
                            self.rvalue(te, body, r),
                            l
                        ));
                    }
                    StatementKind::SetDiscriminant {
                        place,
                        variant_index,
                    } => {
                        st.push(format!(
                            "[{},[\"setdisc\",{}],{}]",
                            self.place(body, place),
                            variant_index.as_u32(),
                            l
                        ));
                    }
                    _ => {}
                }
            }
            let term = bb.terminator();
            let l = self.line(term.source_info.span);
            let t = match &term.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_u32()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let v: Vec<String> = targets
                        .iter()
                        .map(|(v, b)| format!("[\"{}\",{}]", v, b.as_u32()))
                        .collect();
                    format!(
                        "[\"sw\",{},{},{},{}]",
                        self.operand(te, body, discr),
                        arr(v),
                        targets.otherwise().as_u32(),
                        js(&self.ty(discr.ty(body, tcx)))
                    )
                }
                TerminatorKind::Return => "[\"ret\"]".into(),
                TerminatorKind::Unreachable => "[\"unr\"]".into(),
                TerminatorKind::Drop { place, target, .. } => format!(
                    "[\"drop\",{},{}]",
                    self.place(body, place),
                    target.as_u32()
                ),
                TerminatorKind::Call {
                    func,
                    args,
                    destination,
                    target,
                    ..
                } => {
                    let a: Vec<String> =
                        args.iter().map(|a| self.operand(te, body, &a.node)).collect();
                    format!(
                        "[\"call\",{},{},{},{}]",
                        self.operand(te, body, func),
                        arr(a),
                        self.place(body, destination),
                        target.map(|t| t.as_u32() as i64).unwrap_or(-1)
                    )
                }
                TerminatorKind::Assert {
                    cond,
                    expected,
                    msg,
                    target,
                    ..
                } => {
                    let k = match &**msg {
                        AssertKind::Overflow(op, ..) => format!("Overflow:{:?}", op),
                        AssertKind::OverflowNeg(_) => "Overflow:Neg".into(),
                        AssertKind::BoundsCheck { .. } => "Bounds".into(),
                        AssertKind::DivisionByZero(_) => "DivZero".into(),
                        AssertKind::RemainderByZero(_) => "RemZero".into(),
                        _ => "Other".into(),
                    };
                    format!(
                        "[\"assert\",{},{},{},{}]",
                        self.operand(te, body, cond),
                        expected,
                        js(&k),
                        target.as_u32()
                    )
                }
                TerminatorKind::FalseEdge { real_target, .. } => {
                    format!("[\"goto\",{}]", real_target.as_u32())
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    format!("[\"goto\",{}]", real_target.as_u32())
                }
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => {
                    "[\"unw\"]".into()
                }
                _ => "[\"oth\"]".into(),
            };
            bbs.push(format!("[{},{},{}]", arr(st), t, l));
        }
        let _ = write!(out, ",\"bbs\":{}}}", arr(bbs));
    }

    /// Serialisation/debug impls that derive macros generate (never hand-written code).
    fn derived_plumbing(&self, d: DefId) -> bool {
        let tcx = self.tcx;
        let root = tcx.typeck_root_def_id(d);
        if !tcx.def_span(root).from_expansion() {
            return false;
        }
        if let Some(assoc) = tcx.opt_associated_item(root) {
            let c = assoc.container_id(tcx);
            if let DefKind::Impl { of_trait: true } = tcx.def_kind(c) {
                let tr = self.path(tcx.impl_trait_ref(c).skip_binder().def_id);
                let last = tr.rsplit("::").next().unwrap_or("");
                return matches!(
                    last,
                    "AnchorSerialize"
                        | "AnchorDeserialize"
                        | "BorshSerialize"
                        | "BorshDeserialize"
                        | "EnumExt"
                        | "ToAccountMetas"
                        | "ToAccountInfos"
                        | "Debug"
                        | "Event"
                        | "Discriminator"
                        | "Bumps"
                );
            }
        }
        false
    }

    fn run(&self, w: &mut dyn std::io::Write) {
        let tcx = self.tcx;
        let mut fns = 0usize;
        let _ = write!(w, "{{\"fns\":[");
        let mut first = true;
        let keys: Vec<LocalDefId> = tcx
            .hir_body_owners()
            .filter(|ld| {
                matches!(
                    tcx.def_kind(ld.to_def_id()),
                    DefKind::Fn | DefKind::AssocFn | DefKind::Closure
                ) && !self.derived_plumbing(ld.to_def_id())
            })
            .collect();
        rustc_data_structures::sync::par_for_each_in(&keys[..], |ld| {
            tcx.ensure_ok().optimized_mir(ld.to_def_id());
        });
        for ld in &keys {
            let d = ld.to_def_id();
            let body: &Body<'tcx> = tcx.optimized_mir(d);
            let te = TypingEnv::post_analysis(tcx, d);
            let mut out = String::new();
            if !first {
                out.push_str(",\n");
            }
            first = false;
            let path = self.path(d);
            self.body(d, te, body, &path, &mut out);
            for (i, p) in tcx.promoted_mir(d).iter_enumerated() {
                out.push_str(",\n");
                self.body(d, te, p, &format!("{}::{{promoted#{}}}", path, i.as_u32()), &mut out);
            }
            fns += 1;
            let _ = w.write_all(out.as_bytes());
        }
        let _ = write!(w, "],\n\"adts\":[");
        let mut first = true;
        let mut consts = vec![];
        let mut impls = vec![];
        for ld in tcx.hir_crate_items(()).definitions() {
            let d = ld.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Struct | DefKind::Enum | DefKind::Union => {
                    let a = tcx.adt_def(d);
                    let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    let mut out = String::new();
                    if !first {
                        out.push_str(",\n");
                    }
                    first = false;
                    let mut vs = vec![];
                    let discr: Vec<String> = if a.is_enum() {
                        a.discriminants(tcx).map(|(_, d)| d.to_string()).collect()
                    } else {
                        vec![]
                    };
                    let te = TypingEnv::post_analysis(tcx, d);
                    let layout = if tcx.generics_of(d).requires_monomorphization(tcx) {
                        None
                    } else {
                        tcx.layout_of(te.as_query_input(t)).ok()
                    };
                    for (i, v) in a.variants().iter_enumerated() {
                        let fs: Vec<String> = v
                            .fields
                            .iter_enumerated()
                            .map(|(fi, f)| {
                                let ft = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                                let off = match (&layout, a.is_struct()) {
                                    (Some(l), true) => l.fields.offset(fi.as_usize()).bytes() as i64,
                                    _ => -1,
                                };
                                format!("[{},{},{}]", js(f.name.as_str()), js(&self.ty(ft)), off)
                            })
                            .collect();
                        vs.push(format!(
                            "[{},{},{}]",
                            js(v.name.as_str()),
                            discr.get(i.as_usize()).map(|s| format!("\"{}\"", s)).unwrap_or("null".into()),
                            arr(fs)
                        ));
                    }
                    let _ = write!(
                        out,
                        "{{\"path\":{},\"kind\":\"{}\",\"file\":{},\"line\":{},\"size\":{},\"repr_c\":{},\"packed\":{},\"variants\":{}}}",
                        js(&self.path(d)),
                        if a.is_enum() { "enum" } else if a.is_union() { "union" } else { "struct" },
                        js(&self.file(tcx.def_span(d))),
                        self.line(tcx.def_span(d)),
                        layout.map(|l| l.size.bytes() as i64).unwrap_or(-1),
                        a.repr().c(),
                        a.repr().packed(),
                        arr(vs)
                    );
                    let _ = w.write_all(out.as_bytes());
                }
                DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } => {
                    let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    let mut o = String::new();
                    let _ = write!(
                        o,
                        "{{\"path\":{},\"ty\":{},\"file\":{},\"line\":{}",
                        js(&self.path(d)),
                        js(&self.ty(t)),
                        js(&self.file(tcx.def_span(d))),
                        self.line(tcx.def_span(d))
                    );
                    if !tcx.generics_of(d).requires_monomorphization(tcx)
                        && !matches!(tcx.def_kind(d), DefKind::Static { .. })
                        && tcx.opt_associated_item(d).map_or(true, |a| {
                            a.container_id(tcx) != DefId::from(a.def_id)
                                && !matches!(tcx.def_kind(a.container_id(tcx)), DefKind::Trait)
                        })
                    {
                        if let Ok(v) = tcx.const_eval_poly(d) {
                            self.constval(&mut o, v, t);
                        }
                    }
                    o.push('}');
                    consts.push(o);
                }
                DefKind::Impl { of_trait } => {
                    let st = self.ty(tcx.type_of(d).instantiate_identity().skip_norm_wip());
                    let tr = if of_trait {
                        js(&with_no_trimmed_paths!(tcx
                            .impl_trait_ref(d)
                            .skip_binder()
                            .to_string()))
                    } else {
                        "null".into()
                    };
                    impls.push(format!(
                        "[{},{},{},{}]",
                        js(&st),
                        tr,
                        js(&self.file(tcx.def_span(d))),
                        self.line(tcx.def_span(d))
                    ));
                }
                _ => {}
            }
        }
        let _ = write!(w, "],\n\"consts\":[{}],\n\"impls\":[{}],\n\"nfns\":{}", consts.join(",\n"), impls.join(",\n"), fns);
        let files: Vec<String> = tcx
            .sess
            .source_map()
            .files()
            .iter()
            .filter(|f| f.src.is_some())
            .map(|f| js(&format!("{}", f.name.prefer_local_unconditionally())))
            .collect();
        let _ = write!(w, ",\n\"files\":{}", arr(files));
        let errs = tcx.dcx().err_count();
        let _ = write!(w, ",\n\"errors\":{}}}\n", errs);
    }
}

fn hex(b: &[u8]) -> String {
    let mut s = String::new();
    for x in b {
        let _ = write!(s, "{:02x}", x);
    }
    s
}

struct Cb {
    out: String,
    only: String,
}

impl Callbacks for Cb {
    fn config(&mut self, config: &mut rustc_interface::interface::Config) {
        // 128-bit integers are 8-aligned on the chain's target (and on the toolchain the
        // repository pins); newer host ABIs align them to 16, which would change every account
        // layout. No code is generated, so only the layout computation sees this.
        config.override_queries = Some(|sess, _providers| {
            let dl = sess.target.data_layout.replace("i128:128", "i128:64");
            let p = &sess.target.data_layout as *const _ as *mut std::borrow::Cow<'static, str>;
            unsafe { std::ptr::write(std::hint::black_box(p), std::borrow::Cow::Owned(dl)) };
        });
    }
    fn after_expansion<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> Compilation {
        if tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).as_str() != self.only {
            return Compilation::Continue;
        }
        let f = std::fs::File::create(&self.out).unwrap();
        let mut w = std::io::BufWriter::with_capacity(1 << 20, f);
        Dump { tcx }.run(&mut w);
        let _ = w.flush();
        Compilation::Stop
    }
}

fn main() {
    let out = std::env::var("MIRDUMP_OUT").expect("MIRDUMP_OUT");
    let only = std::env::var("MIRDUMP_CRATE").expect("MIRDUMP_CRATE");
    let args: Vec<String> = std::env::args().collect();
    rustc_driver::install_ice_hook("", |_| ());
    let code = rustc_driver::catch_with_exit_code(move || {
        let mut cb = Cb { out, only };
        rustc_driver::compiler_entrypoint(&args, &mut cb);
    });
    let _ = code;
    std::process::exit(0);
}
