#![feature(rustc_private)]
//! rustc driver that dumps resolved MIR facts for every body of a workspace crate.
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::mir::*;
use rustc_middle::ty::print::{with_crate_prefix, with_no_trimmed_paths, with_no_visible_paths};
use rustc_middle::ty::{self, GenericArgsRef, Instance, Ty, TyCtxt, TypingEnv};
use std::fmt::Write as _;
use std::io::Write as _;

struct J(String);
fn esc(out: &mut String, s: &str) {
    out.push('"');
    for c in s.chars() {
        match c {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            '\n' => out.push_str("\\n"),
            '\r' => out.push_str("\\r"),
            '\t' => out.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(out, "\\u{:04x}", c as u32);
            }
            c => out.push(c),
        }
    }
    out.push('"');
}
impl J {
    fn s(&mut self, s: &str) -> &mut Self {
        esc(&mut self.0, s);
        self
    }
    fn r(&mut self, s: &str) -> &mut Self {
        self.0.push_str(s);
        self
    }
    fn n(&mut self, n: impl std::fmt::Display) -> &mut Self {
        let _ = write!(self.0, "{}", n);
        self
    }
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    krate: String,
}

macro_rules! canon {
    ($e:expr) => {
        with_no_visible_paths!(with_crate_prefix!(with_no_trimmed_paths!($e)))
    };
}

impl<'tcx> Cx<'tcx> {
    fn fix(&self, s: String) -> String {
        // "crate::" is printed for local items; make it the crate name, so that the same item has
        // the same name from every crate.
        if s.contains("crate::") {
            let mut out = String::with_capacity(s.len() + 16);
            let b = s.as_bytes();
            let mut i = 0;
            while i < b.len() {
                if s[i..].starts_with("crate::")
                    && (i == 0 || !(b[i - 1].is_ascii_alphanumeric() || b[i - 1] == b'_'))
                {
                    out.push_str(&self.krate);
                    out.push_str("::");
                    i += 7;
                } else {
                    let c = s[i..].chars().next().unwrap();
                    out.push(c);
                    i += c.len_utf8();
                }
            }
            out
        } else {
            s
        }
    }
    fn path(&self, d: DefId) -> String {
        self.fix(canon!(self.tcx.def_path_str(d)))
    }
    fn ty(&self, t: Ty<'tcx>) -> String {
        let t = self.tcx.erase_and_anonymize_regions(t);
        self.fix(canon!(t.to_string()))
    }
    fn line(&self, sp: rustc_span::Span) -> usize {
        let sp = sp.source_callsite();
        self.tcx.sess.source_map().lookup_char_pos(sp.lo()).line
    }
    fn file(&self, sp: rustc_span::Span) -> String {
        let sp = sp.source_callsite();
        let f = self.tcx.sess.source_map().lookup_char_pos(sp.lo()).file;
        f.name.prefer_local_unconditionally().to_string()
    }

    fn callee(&self, j: &mut J, env: TypingEnv<'tcx>, d: DefId, args: GenericArgsRef<'tcx>) {
        let tcx = self.tcx;
        j.r("{\"fn\":").s(&self.path(d));
        let mut resd = None;
        if let Some(tr) = tcx.trait_of_assoc(d) {
            j.r(",\"trait\":").s(&self.path(tr));
            if args.len() > 0 {
                if let Some(t) = args[0].as_type() {
                    j.r(",\"self\":").s(&self.ty(t));
                }
            }
            let a2 = tcx.erase_and_anonymize_regions(args);
            if let Ok(Some(i)) = Instance::try_resolve(tcx, env, d, a2) {
                let rd = i.def_id();
                if rd != d {
                    j.r(",\"res\":").s(&self.path(rd));
                    resd = Some(rd);
                } else if let ty::InstanceKind::Virtual(..) = i.def {
                    j.r(",\"dyn\":1");
                }
            }
        }
        let fd = resd.unwrap_or(d);
        if fd.is_local() || self.is_ws(fd) {
            j.r(",\"ws\":1");
        }
        j.r(",\"ga\":[");
        let mut first = true;
        for a in args.iter() {
            if let Some(t) = a.as_type() {
                if !first {
                    j.r(",");
                }
                first = false;
                j.s(&self.ty(t));
            }
        }
        j.r("]");
        // type arguments of the function itself (or the Self of a trait) that no argument's type fixes
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            let ins = tcx.fn_sig(d).instantiate_identity().skip_binder();
            let ins: Vec<_> = ins.inputs().to_vec();
            let g = tcx.generics_of(d);
            let from = if tcx.trait_of_assoc(d).is_some() { 0 } else { g.parent_count };
            let pars = |x: ty::GenericArg<'tcx>| -> Vec<usize> {
                x.walk()
                    .filter_map(|w| match w.as_type().map(|y| *y.kind()) {
                        Some(ty::Param(p)) => Some(p.index as usize),
                        _ => None,
                    })
                    .collect()
            };
            let mut used: std::collections::HashSet<usize> = ins.iter().flat_map(|x| pars((*x).into())).collect();
            let preds: Vec<Vec<usize>> = tcx
                .clauses_of(d)
                .clauses
                .iter()
                .filter_map(|(c, _)| match c.kind().skip_binder() {
                    ty::ClauseKind::Trait(t) => Some(t.trait_ref.args.iter().flat_map(|x| pars(x)).collect()),
                    ty::ClauseKind::Projection(p) => Some(
                        p.projection_term
                            .args
                            .iter()
                            .flat_map(|x| pars(x))
                            .chain(p.term.as_type().into_iter().flat_map(|x| pars(x.into())))
                            .collect(),
                    ),
                    _ => None,
                })
                .collect();
            loop {
                let n = used.len();
                for p in &preds {
                    if p.iter().any(|i| used.contains(i)) {
                        used.extend(p.iter().copied());
                    }
                }
                if used.len() == n {
                    break;
                }
            }
            let mut ro = vec![];
            for (i, a) in args.iter().enumerate() {
                let Some(t) = a.as_type() else { continue };
                if i < from || i >= g.count() {
                    continue;
                }
                if !used.contains(&i) {
                    ro.push(self.ty(t));
                }
            }
            if !ro.is_empty() {
                j.r(",\"ro\":[");
                for (i, t) in ro.iter().enumerate() {
                    if i > 0 {
                        j.r(",");
                    }
                    j.s(t);
                }
                j.r("]");
            }
        }
        j.r("}");
    }
    fn is_ws(&self, d: DefId) -> bool {
        let n = self.tcx.crate_name(d.krate);
        n.as_str().starts_with("tailcall")
    }

    fn konst(&self, j: &mut J, env: TypingEnv<'tcx>, c: &ConstOperand<'tcx>, nested: bool) {
        let tcx = self.tcx;
        let t = c.const_.ty();
        match *t.kind() {
            ty::FnDef(d, args) => {
                j.r("[\"k\",");
                self.callee(j, env, d, args.skip_binder());
                j.r("]");
                return;
            }
            ty::Closure(d, _) | ty::Coroutine(d, _) => {
                j.r("[\"k\",{\"closure\":").s(&self.path(d)).r("}]");
                return;
            }
            _ => {}
        }
        j.r("[\"k\",{\"ty\":").s(&self.ty(t));
        if let Const::Unevaluated(u, _) = c.const_ {
            if let Some(p) = u.promoted {
                j.r(",\"p\":").n(p.as_usize()).r("}]");
                return;
            }
            j.r(",\"u\":").s(&self.path(u.def));
        }
        let _ = nested;
        // try evaluating
        let val = if let Const::Unevaluated(u, _) = c.const_ {
            use rustc_middle::ty::TypeVisitableExt;
            if u.args.has_param() || u.args.has_infer() {
                None
            } else {
                c.const_.eval(tcx, env, c.span).ok()
            }
        } else if let Const::Val(v, _) = c.const_ {
            Some(v)
        } else {
            c.const_.eval(tcx, env, c.span).ok()
        };
        if let Some(v) = val {
            self.constval(j, v, t);
        }
        j.r("}]");
    }
    fn constval(&self, j: &mut J, v: ConstValue, t: Ty<'tcx>) {
        let tcx = self.tcx;
        match *t.kind() {
            ty::Bool => {
                if let Some(b) = v.try_to_bool() {
                    j.r(",\"v\":").r(if b { "true" } else { "false" });
                }
            }
            ty::Int(_) => {
                if let Some(i) = v.try_to_scalar_int() {
                    let size = i.size();
                    j.r(",\"v\":").n(i.to_int(size));
                }
            }
            ty::Uint(_) => {
                if let Some(i) = v.try_to_scalar_int() {
                    let size = i.size();
                    j.r(",\"v\":").n(i.to_uint(size));
                }
            }
            ty::Char => {
                if let Some(i) = v.try_to_scalar_int() {
                    let size = i.size();
                    if let Some(c) = char::from_u32(i.to_uint(size) as u32) {
                        j.r(",\"v\":").s(&c.to_string());
                    }
                }
            }
            ty::Float(_) => {
                if let Some(i) = v.try_to_scalar_int() {
                    let size = i.size();
                    let bits = i.to_uint(size);
                    let f = if size.bytes() == 8 {
                        f64::from_bits(bits as u64)
                    } else if size.bytes() == 4 {
                        f32::from_bits(bits as u32) as f64
                    } else {
                        f64::NAN
                    };
                    j.r(",\"v\":").s(&format!("{:?}", f));
                }
            }
            ty::Ref(_, inner, _) => match inner.kind() {
                ty::Str => {
                    if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                        j.r(",\"v\":").s(&String::from_utf8_lossy(b));
                    }
                }
                ty::Ref(_, inner2, _) if *inner2.kind() == ty::Str => {
                    // a promoted reference to a string constant
                    use rustc_middle::mir::interpret::{AllocId, GlobalAlloc, Scalar};
                    let follow = |id: AllocId, o: usize| -> Option<(AllocId, usize, usize)> {
                        let m = match tcx.global_alloc(id) {
                            GlobalAlloc::Memory(m) => m,
                            GlobalAlloc::Static(d) if !tcx.is_foreign_item(d) && !tcx.is_thread_local_static(d) => {
                                tcx.eval_static_initializer(d).ok()?
                            }
                            _ => return None,
                        };
                        let len = m.inner().len();
                        let raw = m.inner().inspect_with_uninit_and_ptr_outside_interpreter(o..(o + 16).min(len));
                        let at = u64::from_le_bytes(raw[..8].try_into().ok()?) as usize;
                        let n = if raw.len() >= 16 { u64::from_le_bytes(raw[8..16].try_into().ok()?) as usize } else { 0 };
                        let (_, pr) = m.inner().provenance().ptrs().iter().find(|(x, _)| x.bytes_usize() == o)?;
                        Some((pr.alloc_id(), at, n))
                    };
                    let start = match v {
                        ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                            let (prov, off) = p.into_raw_parts();
                            Some((prov.alloc_id(), off.bytes_usize()))
                        }
                        ConstValue::Indirect { alloc_id, offset } => {
                            follow(alloc_id, offset.bytes_usize()).map(|(i, o, _)| (i, o))
                        }
                        _ => None,
                    };
                    if let Some((id, o, n)) = start.and_then(|(i, o)| follow(i, o)) {
                        if let GlobalAlloc::Memory(m) = tcx.global_alloc(id) {
                            let b = m.inner().inspect_with_uninit_and_ptr_outside_interpreter(o..o + n);
                            j.r(",\"v\":").s(&String::from_utf8_lossy(b));
                        }
                    }
                }
                ty::Slice(e) if *e.kind() == ty::Uint(ty::UintTy::U8) => {
                    if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                        j.r(",\"v\":").s(&String::from_utf8_lossy(b));
                    }
                }
                ty::Array(e, n) if *e.kind() == ty::Uint(ty::UintTy::U8) => {
                    // a byte string literal
                    if let (ConstValue::Scalar(rustc_middle::mir::interpret::Scalar::Ptr(p, _)), Some(n)) = (v, n.try_to_target_usize(tcx)) {
                        let (prov, off) = p.into_raw_parts();
                        if let rustc_middle::mir::interpret::GlobalAlloc::Memory(m) = tcx.global_alloc(prov.alloc_id()) {
                            let o = off.bytes_usize();
                            let b = m.inner().inspect_with_uninit_and_ptr_outside_interpreter(o..o + n as usize);
                            j.r(",\"v\":").s(&b.iter().map(|c| *c as char).collect::<String>());
                        }
                    }
                }
                _ => {}
            },
            ty::Tuple(l) if l.is_empty() => {
                j.r(",\"v\":null");
            }
            ty::Adt(def, _) if def.is_enum() || def.is_struct() => {
                // C-like enum constants
                if let Some(i) = v.try_to_scalar_int() {
                    if def.is_enum() {
                        let bits = i.to_bits(i.size());
                        for (vi, d) in def.discriminants(tcx) {
                            if def.variant(vi).fields.is_empty() && d.val == bits {
                                j.r(",\"variant\":").s(def.variant(vi).name.as_str());
                            }
                        }
                    }
                }
            }
            _ => {}
        }
    }

    fn place(&self, j: &mut J, body: &Body<'tcx>, p: &Place<'tcx>) {
        let tcx = self.tcx;
        j.r("[").n(p.local.as_usize());
        let mut pt = PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            j.r(",");
            match e {
                ProjectionElem::Deref | ProjectionElem::PhantomDeref => {
                    j.r("\"*\"");
                }
                ProjectionElem::Field(f, _) => {
                    let mut of = None;
                    let name = match *pt.ty.kind() {
                        ty::Adt(def, _) => {
                            let v = pt.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                            if tcx.crate_name(def.did().krate).as_str().starts_with("tailcall") {
                                of = Some(self.path(def.did()));
                            }
                            def.variant(v).fields[f].name.to_string()
                        }
                        _ => format!("{}", f.as_usize()),
                    };
                    j.r("[\"f\",").s(&name);
                    if let Some(p) = of { j.r(",").s(&p); }
                    j.r("]");
                }
                ProjectionElem::Index(l) => {
                    j.r("[\"i\",").n(l.as_usize()).r("]");
                }
                ProjectionElem::ConstantIndex { offset, min_length: _, from_end } => {
                    j.r("[\"c\",").n(offset).r(if from_end { ",1]" } else { ",0]" });
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    j.r("[\"s\",").n(from).r(",").n(to).r(if from_end { ",1]" } else { ",0]" });
                }
                ProjectionElem::Downcast(name, vi) => {
                    let n = match name {
                        Some(n) => n.to_string(),
                        None => match *pt.ty.kind() {
                            ty::Adt(def, _) => def.variant(vi).name.to_string(),
                            _ => format!("{}", vi.as_usize()),
                        },
                    };
                    j.r("[\"v\",").s(&n).r("]");
                }
                _ => {
                    j.r("[\"o\"]");
                }
            }
            pt = pt.projection_ty(tcx, e);
        }
        j.r("]");
    }
    fn operand(&self, j: &mut J, body: &Body<'tcx>, env: TypingEnv<'tcx>, o: &Operand<'tcx>) {
        match o {
            Operand::Copy(p) => {
                j.r("[\"c\",");
                self.place(j, body, p);
                j.r("]");
            }
            Operand::Move(p) => {
                j.r("[\"m\",");
                self.place(j, body, p);
                j.r("]");
            }
            Operand::Constant(c) => self.konst(j, env, c, false),
            _ => {
                j.r("[\"k\",{\"ty\":\"runtimecheck\"}]");
            }
        }
    }
    fn ops(&self, j: &mut J, body: &Body<'tcx>, env: TypingEnv<'tcx>, l: impl Iterator<Item = &'tcx Operand<'tcx>>) {
        j.r("[");
        for (i, o) in l.enumerate() {
            if i > 0 {
                j.r(",");
            }
            self.operand(j, body, env, o);
        }
        j.r("]");
    }

    fn rvalue(&self, j: &mut J, body: &'tcx Body<'tcx>, env: TypingEnv<'tcx>, r: &'tcx Rvalue<'tcx>) {
        let tcx = self.tcx;
        match r {
            Rvalue::Use(o, ..) => {
                j.r("[\"use\",");
                self.operand(j, body, env, o);
                j.r("]");
            }
            Rvalue::Repeat(o, n) => {
                j.r("[\"repeat\",");
                self.operand(j, body, env, o);
                j.r(",").s(&format!("{}", n)).r("]");
            }
            Rvalue::Ref(_, bk, p) => {
                let m = matches!(bk, BorrowKind::Mut { .. });
                j.r("[\"ref\",").r(if m { "1," } else { "0," });
                self.place(j, body, p);
                j.r("]");
            }
            Rvalue::RawPtr(_, p) => {
                j.r("[\"ref\",2,");
                self.place(j, body, p);
                j.r("]");
            }
            Rvalue::CopyForDeref(p) => {
                j.r("[\"use\",[\"c\",");
                self.place(j, body, p);
                j.r("]]");
            }
            Rvalue::Reborrow(_, _, p) => {
                j.r("[\"use\",[\"c\",");
                self.place(j, body, p);
                j.r("]]");
            }
            Rvalue::ThreadLocalRef(d) => {
                j.r("[\"tls\",").s(&self.path(*d)).r("]");
            }
            Rvalue::Cast(k, o, t) => {
                j.r("[\"cast\",").s(&format!("{:?}", k).split(|c| c == '(').next().unwrap().to_string()).r(",");
                self.operand(j, body, env, o);
                j.r(",").s(&self.ty(*t)).r("]");
            }
            Rvalue::BinaryOp(op, b) => {
                j.r("[\"bin\",").s(&format!("{:?}", op)).r(",");
                self.operand(j, body, env, &b.0);
                j.r(",");
                self.operand(j, body, env, &b.1);
                j.r("]");
            }
            Rvalue::UnaryOp(op, o) => {
                j.r("[\"un\",").s(&format!("{:?}", op)).r(",");
                self.operand(j, body, env, o);
                j.r("]");
            }
            Rvalue::Discriminant(p) => {
                j.r("[\"discr\",");
                self.place(j, body, p);
                let t = p.ty(body, tcx).ty;
                j.r(",{");
                if let ty::Adt(def, _) = *t.kind() {
                    if def.is_enum() {
                        for (i, (vi, d)) in def.discriminants(tcx).enumerate() {
                            if i > 0 {
                                j.r(",");
                            }
                            let v = d.val;
                            j.s(&format!("{}", v)).r(":").s(def.variant(vi).name.as_str());
                        }
                    }
                }
                j.r("},").s(&self.ty(t)).r("]");
            }
            Rvalue::Aggregate(k, os) => {
                match **k {
                    AggregateKind::Array(_) => {
                        j.r("[\"agg\",\"array\",null,null,");
                    }
                    AggregateKind::Tuple => {
                        j.r("[\"agg\",\"tuple\",null,null,");
                    }
                    AggregateKind::Adt(d, vi, _, _, _) => {
                        let def = tcx.adt_def(d);
                        let v = def.variant(vi);
                        j.r("[\"agg\",\"adt\",").s(&self.path(d)).r(",[").s(if def.is_enum() { v.name.as_str() } else { "" });
                        for f in v.fields.iter() {
                            j.r(",").s(f.name.as_str());
                        }
                        j.r("],");
                    }
                    AggregateKind::Closure(d, _)
                    | AggregateKind::Coroutine(d, _)
                    | AggregateKind::CoroutineClosure(d, _) => {
                        j.r("[\"agg\",\"closure\",").s(&self.path(d)).r(",null,");
                    }
                    _ => {
                        j.r("[\"agg\",\"rawptr\",null,null,");
                    }
                }
                self.ops(j, body, env, os.iter());
                j.r("]");
            }
            _ => {
                j.r("[\"other\"]");
            }
        }
    }

    fn body(&self, j: &mut J, def: DefId, body: &'tcx Body<'tcx>) {
        let tcx = self.tcx;
        let env = TypingEnv::post_analysis(tcx, def);
        j.r("\"argc\":").n(body.arg_count).r(",\"locals\":[");
        let mut names: Vec<Option<String>> = vec![None; body.local_decls.len()];
        let mut dbg: Vec<(String, String)> = vec![];
        for v in body.var_debug_info.iter() {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names[p.local.as_usize()] = Some(v.name.to_string());
                } else {
                    let mut pj = J(String::new());
                    self.place(&mut pj, body, &p);
                    dbg.push((v.name.to_string(), pj.0));
                }
            }
        }
        for (i, l) in body.local_decls.iter().enumerate() {
            if i > 0 {
                j.r(",");
            }
            j.r("[").s(&self.ty(l.ty));
            if let Some(n) = &names[i] {
                j.r(",").s(n);
            }
            j.r("]");
        }
        j.r("],\"dbg\":[");
        for (i, (n, p)) in dbg.iter().enumerate() {
            if i > 0 {
                j.r(",");
            }
            j.r("[").s(n).r(",").r(p).r("]");
        }
        j.r("],\"blocks\":[");
        for (bi, bb) in body.basic_blocks.iter().enumerate() {
            if bi > 0 {
                j.r(",");
            }
            j.r("{\"s\":[");
            let mut first = true;
            for st in bb.statements.iter() {
                let mut sj = J(String::new());
                match &st.kind {
                    StatementKind::Assign(b) => {
                        sj.r("[\"=\",");
                        self.place(&mut sj, body, &b.0);
                        sj.r(",");
                        self.rvalue(&mut sj, body, env, &b.1);
                        sj.r(",").n(self.line(st.source_info.span)).r("]");
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        sj.r("[\"setd\",");
                        self.place(&mut sj, body, place);
                        sj.r(",").n(variant_index.as_usize()).r("]");
                    }
                    StatementKind::StorageDead(l) => {
                        sj.r("[\"dead\",").n(l.as_usize()).r("]");
                    }
                    StatementKind::StorageLive(l) => {
                        sj.r("[\"live\",").n(l.as_usize()).r("]");
                    }
                    _ => continue,
                }
                if !first {
                    j.r(",");
                }
                first = false;
                j.r(&sj.0);
            }
            j.r("],\"t\":");
            let term = bb.terminator();
            let line = self.line(term.source_info.span);
            match &term.kind {
                TerminatorKind::Goto { target, .. } => {
                    j.r("[\"goto\",").n(target.as_usize()).r("]");
                }
                TerminatorKind::SwitchInt { discr, targets } => {
                    j.r("[\"switch\",");
                    self.operand(j, body, env, discr);
                    j.r(",[");
                    for (i, (v, t)) in targets.iter().enumerate() {
                        if i > 0 {
                            j.r(",");
                        }
                        j.r("[").n(v).r(",").n(t.as_usize()).r("]");
                    }
                    j.r("],").n(targets.otherwise().as_usize()).r(",").n(line).r("]");
                }
                TerminatorKind::Return => {
                    j.r("[\"ret\"]");
                }
                TerminatorKind::Drop { place, target, .. } => {
                    j.r("[\"drop\",");
                    self.place(j, body, place);
                    let t = place.ty(body, tcx).ty;
                    j.r(",").n(target.as_usize()).r(",").s(&self.ty(t)).r(",").n(line).r("]");
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    j.r("[\"call\",");
                    self.operand(j, body, env, func);
                    j.r(",[");
                    for (i, a) in args.iter().enumerate() {
                        if i > 0 {
                            j.r(",");
                        }
                        self.operand(j, body, env, &a.node);
                    }
                    j.r("],");
                    self.place(j, body, destination);
                    j.r(",");
                    match target {
                        Some(t) => j.n(t.as_usize()),
                        None => j.r("null"),
                    };
                    j.r(",").n(line).r("]");
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    j.r("[\"assert\",");
                    self.operand(j, body, env, cond);
                    let m = format!("{:?}", msg);
                    let m: String = m.chars().take(60).collect();
                    j.r(if *expected { ",1," } else { ",0," }).s(&m).r(",").n(target.as_usize()).r(",").n(line).r("]");
                }
                TerminatorKind::Yield { resume, resume_arg, .. } => {
                    j.r("[\"yield\",").n(resume.as_usize()).r(",");
                    self.place(j, body, resume_arg);
                    j.r("]");
                }
                TerminatorKind::FalseEdge { real_target, .. } => {
                    j.r("[\"goto\",").n(real_target.as_usize()).r("]");
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    j.r("[\"goto\",").n(real_target.as_usize()).r("]");
                }
                TerminatorKind::Unreachable => {
                    j.r("[\"unreachable\"]");
                }
                TerminatorKind::UnwindResume => {
                    j.r("[\"resume\"]");
                }
                _ => {
                    j.r("[\"other\"]");
                }
            }
            if bb.is_cleanup {
                j.r(",\"cl\":1");
            }
            j.r("}");
        }
        j.r("]");
    }
}

struct Cb;
impl rustc_driver::Callbacks for Cb {
    fn after_expansion<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        dump(tcx);
        Compilation::Continue
    }
}

fn dump<'tcx>(tcx: TyCtxt<'tcx>) {
    let outdir = std::env::var("FACTS_OUT").expect("FACTS_OUT");
    let krate = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
    let is_bin = tcx.entry_fn(()).is_some();
    let tag = if is_bin { format!("{krate}.bin") } else { krate.clone() };
    let cx = Cx { tcx, krate: krate.clone() };
    // clone all bodies first: evaluating a constant may steal the MIR of const fns
    let mut all: Vec<(LocalDefId, &'tcx Body<'tcx>, Vec<&'tcx Body<'tcx>>)> = vec![];
    let owners: Vec<LocalDefId> = tcx.hir_body_owners().collect();
    let mut missing = vec![];
    for d in owners.iter().copied() {
        let kind = tcx.def_kind(d);
        let (b, p): (Body<'tcx>, Vec<Body<'tcx>>) = match kind {
            DefKind::Fn | DefKind::AssocFn | DefKind::Closure | DefKind::SyntheticCoroutineBody
            | DefKind::Static { .. } | DefKind::Const { .. } | DefKind::AssocConst { .. } => {
                let (m, p) = tcx.mir_promoted(d);
                if m.is_stolen() || p.is_stolen() {
                    if matches!(kind, DefKind::Fn | DefKind::AssocFn) && !tcx.is_constructor(d.to_def_id()) {
                        let b = if tcx.is_const_fn(d.to_def_id()) { tcx.mir_for_ctfe(d.to_def_id()) } else { tcx.optimized_mir(d.to_def_id()) };
                        (b.clone(), tcx.promoted_mir(d.to_def_id()).iter().cloned().collect())
                    } else if matches!(kind, DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. }) {
                        let b = tcx.mir_for_ctfe(d.to_def_id());
                        (b.clone(), tcx.promoted_mir(d.to_def_id()).iter().cloned().collect())
                    } else {
                        missing.push(cx.path(d.to_def_id()));
                        continue;
                    }
                } else {
                    let r = (m.borrow().clone(), p.borrow().iter().cloned().collect());
                    r
                }
            }
            _ => continue,
        };
        // leak: lives as long as the process
        let b: &'tcx Body<'tcx> = Box::leak(Box::new(b));
        let p: Vec<&'tcx Body<'tcx>> = p.into_iter().map(|x| &*Box::leak(Box::new(x))).collect();
        all.push((d, b, p));
    }
    let mut out = std::io::BufWriter::with_capacity(
        1 << 20,
        std::fs::File::create(format!("{outdir}/{tag}.bodies.jsonl.tmp")).unwrap(),
    );
    let mut idx = std::io::BufWriter::new(std::fs::File::create(format!("{outdir}/{tag}.index.jsonl.tmp")).unwrap());
    let mut off: usize = 0;
    for (d, b, p) in all.iter() {
        let did = d.to_def_id();
        let mut j = J(String::with_capacity(8192));
        let kind = tcx.def_kind(*d);
        let k = match kind {
            DefKind::Closure => {
                if tcx.is_coroutine(did) { "coroutine" } else { "closure" }
            }
            DefKind::SyntheticCoroutineBody => "coroutine",
            DefKind::Static { .. } => "static",
            DefKind::Const { .. } | DefKind::AssocConst { .. } => "const",
            _ => "fn",
        };
        let sp = tcx.def_span(did);
        let mut h = J(String::new());
        h.r("\"id\":").s(&cx.path(did)).r(",\"kind\":").s(k);
        h.r(",\"file\":").s(&cx.file(sp)).r(",\"line\":").n(cx.line(sp));
        if sp.from_expansion() { h.r(",\"exp\":1"); }
        let is_test = {
            let mut p = did; let mut t = false;
            let _ = &mut p; let _ = &mut t; t
        };
        let _ = is_test;
        if let Some(par) = tcx.opt_parent(did) {
            let mut base = par;
            // impl information
            if matches!(kind, DefKind::Closure) {
                h.r(",\"parent\":").s(&cx.path(par));
                base = tcx.opt_parent(tcx.typeck_root_def_id(did)).unwrap_or(par);
            }
            if let DefKind::Impl { of_trait } = tcx.def_kind(base) {
                let st = tcx.type_of(base).instantiate_identity().skip_norm_wip();
                h.r(",\"implself\":").s(&cx.ty(st));
                if of_trait {
                    let tr = tcx.impl_trait_ref(base).instantiate_identity().skip_norm_wip();
                    h.r(",\"impltrait\":").s(&cx.path(tr.def_id));
                    h.r(",\"implref\":").s(&cx.fix(canon!(tcx.erase_and_anonymize_regions(tr).to_string())));
                }
            } else if let DefKind::Trait = tcx.def_kind(base) {
                h.r(",\"intrait\":").s(&cx.path(base));
            }
        }
        if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
            h.r(",\"name\":").s(tcx.item_name(did).as_str());
            if tcx.asyncness(did).is_async() { h.r(",\"async\":1"); }
            if tcx.visibility(did).is_public() { h.r(",\"pub\":1"); }
            let gens = tcx.generics_of(did);
            h.r(",\"gen\":[");
            let mut first = true;
            for i in 0..gens.count() {
                let gp = gens.param_at(i, tcx);
                if let ty::GenericParamDefKind::Type { .. } = gp.kind {
                    if !first { h.r(","); }
                    first = false;
                    h.s(gp.name.as_str());
                }
            }
            h.r("]");
        }
        if matches!(kind, DefKind::Closure) {
            h.r(",\"upvars\":[");
            for (i, c) in tcx.closure_captures(*d).iter().enumerate() {
                if i > 0 { h.r(","); }
                h.s(&c.to_symbol().to_string());
            }
            h.r("]");
        }
        j.r("{").r(&h.0).r(",");
        cx.body(&mut j, did, b);
        j.r(",\"promoted\":[");
        for (i, pb) in p.iter().enumerate() {
            if i > 0 { j.r(","); }
            j.r("{");
            cx.body(&mut j, did, pb);
            j.r("}");
        }
        j.r("]}\n");
        out.write_all(j.0.as_bytes()).unwrap();
        let mut ij = J(String::new());
        ij.r("{\"off\":").n(off).r(",\"len\":").n(j.0.len()).r(",").r(&h.0).r(",\"calls\":[");
        // every function referenced (called or taken as value), closures created
        let env = TypingEnv::post_analysis(tcx, did);
        let mut first = true;
        let mut bodies: Vec<&Body<'tcx>> = vec![b];
        bodies.extend(p.iter().copied());
        for bb in bodies {
            struct V<'a, 'tcx> { cx: &'a Cx<'tcx>, env: TypingEnv<'tcx>, out: Vec<String> }
            impl<'a, 'tcx> visit::Visitor<'tcx> for V<'a, 'tcx> {
                fn visit_const_operand(&mut self, c: &ConstOperand<'tcx>, _: Location) {
                    if let ty::FnDef(d, args) = *c.const_.ty().kind() {
                        let mut j = J(String::new());
                        self.cx.callee(&mut j, self.env, d, args.skip_binder());
                        self.out.push(j.0);
                    } else if let Const::Unevaluated(u, _) = c.const_ {
                        if u.promoted.is_none() {
                            let mut j = J(String::new());
                            j.r("{\"const\":").s(&self.cx.path(u.def)).r("}");
                            self.out.push(j.0);
                        }
                    }
                }
                fn visit_rvalue(&mut self, r: &Rvalue<'tcx>, l: Location) {
                    if let Rvalue::Aggregate(k, _) = r {
                        if let AggregateKind::Closure(d, _) | AggregateKind::Coroutine(d, _) | AggregateKind::CoroutineClosure(d, _) = **k {
                            let mut j = J(String::new());
                            j.r("{\"closure\":").s(&self.cx.path(d)).r("}");
                            self.out.push(j.0);
                        }
                    }
                    self.super_rvalue(r, l);
                }
            }
            let mut v = V { cx: &cx, env, out: vec![] };
            visit::Visitor::visit_body(&mut v, bb);
            v.out.sort();
            v.out.dedup();
            for o in v.out {
                if !first { ij.r(","); }
                first = false;
                ij.r(&o);
            }
        }
        ij.r("]}\n");
        idx.write_all(ij.0.as_bytes()).unwrap();
        off += j.0.len();
    }
    // ADTs and impls
    let mut m = J(String::new());
    m.r("{\"crate\":").s(&krate).r(",\"adts\":{");
    let mut first = true;
    for id in tcx.hir_crate_items(()).definitions() {
        let did = id.to_def_id();
        if matches!(tcx.def_kind(did), DefKind::Struct | DefKind::Enum) {
            let def = tcx.adt_def(did);
            if !first { m.r(",\n"); }
            first = false;
            m.s(&cx.path(did)).r(":{\"kind\":").s(if def.is_enum() { "enum" } else { "struct" });
            m.r(",\"file\":").s(&cx.file(tcx.def_span(did))).r(",\"variants\":[");
            for (i, v) in def.variants().iter().enumerate() {
                if i > 0 { m.r(","); }
                m.r("[").s(v.name.as_str()).r(",[");
                for (fi, f) in v.fields.iter().enumerate() {
                    if fi > 0 { m.r(","); }
                    let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                    m.r("[").s(f.name.as_str()).r(",").s(&cx.ty(t)).r(",").s(if f.vis.is_public() {"pub"} else {""}).r("]");
                }
                m.r("]]");
            }
            m.r("]}");
        }
    }
    m.r("},\n\"impls\":[");
    let mut first = true;
    for (tr, impls) in tcx.all_local_trait_impls(()).iter() {
        for im in impls.iter() {
            let imd = im.to_def_id();
            if !first { m.r(",\n"); }
            first = false;
            let st = tcx.type_of(imd).instantiate_identity().skip_norm_wip();
            m.r("{\"trait\":").s(&cx.path(*tr)).r(",\"self\":").s(&cx.ty(st)).r(",\"items\":{");
            let mut f2 = true;
            for it in tcx.associated_items(imd).in_definition_order() {
                if let ty::AssocKind::Fn { .. } = it.kind {
                    if !f2 { m.r(","); }
                    f2 = false;
                    m.s(tcx.item_name(it.def_id).as_str()).r(":").s(&cx.path(it.def_id));
                }
            }
            m.r("}}");
        }
    }
    m.r("],\n\"missing\":[");
    for (i, x) in missing.iter().enumerate() {
        if i > 0 { m.r(","); }
        m.s(x);
    }
    m.r("]}");
    out.flush().unwrap();
    idx.flush().unwrap();
    std::fs::write(format!("{outdir}/{tag}.meta.json"), m.0).unwrap();
    std::fs::rename(format!("{outdir}/{tag}.bodies.jsonl.tmp"), format!("{outdir}/{tag}.bodies.jsonl")).unwrap();
    std::fs::rename(format!("{outdir}/{tag}.index.jsonl.tmp"), format!("{outdir}/{tag}.index.jsonl")).unwrap();
}

struct Plain;
impl rustc_driver::Callbacks for Plain {}

fn main() {
    // usage: factdump <rustc args...>; dumps when FACTS_OUT is set and the crate is a workspace crate
    let mut args: Vec<String> = std::env::args().collect();
    args[0] = "rustc".to_string();
    let code = rustc_driver::catch_with_exit_code(|| {
        if std::env::var("FACTS_OUT").is_ok() {
            rustc_driver::compiler_entrypoint(&args, &mut Cb);
        } else {
            rustc_driver::compiler_entrypoint(&args, &mut Plain);
        }
    });
    std::process::exit(if code == std::process::ExitCode::SUCCESS { 0 } else { 1 });
}
