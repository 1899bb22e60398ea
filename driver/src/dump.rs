use rustc_data_structures::fx::{FxHashMap, FxHashSet};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::{self, *};
use rustc_middle::ty::{
    self, EarlyBinder, GenericArgsRef, Instance, InstanceKind, Ty, TyCtxt, TypeVisitableExt, TypingEnv,
};
use std::collections::VecDeque;
use std::fmt::Write;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn list(v: impl IntoIterator<Item = String>) -> String {
    format!("[{}]", v.into_iter().collect::<Vec<_>>().join(","))
}

pub struct D<'tcx> {
    tcx: TyCtxt<'tcx>,
    env: TypingEnv<'tcx>,
    root: String,
    types: Vec<String>,
    tymap: FxHashMap<Ty<'tcx>, usize>,
    bodies: Vec<String>,
    done: FxHashSet<String>,
    queue: VecDeque<(String, Instance<'tcx>)>,
    ws: Vec<String>,
}

impl<'tcx> D<'tcx> {
    fn cname(&self, d: DefId) -> String {
        self.tcx.crate_name(d.krate).to_string()
    }

    /// Canonical path of a definition, independent of the printing crate.
    fn path(&self, d: DefId) -> String {
        let tcx = self.tcx;
        if d.is_crate_root() {
            return self.cname(d);
        }
        let key = tcx.def_key(d);
        use rustc_hir::definitions::DefPathData as P;
        let parent = tcx.opt_parent(d);
        match key.disambiguated_data.data {
            P::Impl => {
                let self_ty = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let s = self.ty_str(self_ty);
                if matches!(tcx.def_kind(d), DefKind::Impl { of_trait: true }) {
                    let tr = tcx.impl_trait_ref(d).instantiate_identity().skip_norm_wip();
                    let targs: Vec<String> = tr
                        .args
                        .iter()
                        .skip(1)
                        .filter_map(|a| a.as_type().map(|t| self.ty_str(t)))
                        .collect();
                    let ta = if targs.is_empty() { String::new() } else { format!("<{}>", targs.join(",")) };
                    format!("<{} as {}{}>", s, self.path(tr.def_id), ta)
                } else {
                    // `Matrix<..>` -> path of the adt only
                    match self_ty.kind() {
                        ty::Adt(a, _) => self.path(a.did()),
                        _ => format!("<{}>", s),
                    }
                }
            }
            P::Closure => format!("{}::{{closure#{}}}", self.path(parent.unwrap()), key.disambiguated_data.disambiguator),
            P::Ctor => format!("{}::{{ctor}}", self.path(parent.unwrap())),
            P::ForeignMod => self.path(parent.unwrap()),
            ref data => {
                let n = data.get_opt_name().map(|s| s.to_string()).unwrap_or_else(|| format!("{{{:?}}}", data));
                let dis = key.disambiguated_data.disambiguator;
                let n = if dis != 0 { format!("{}#{}", n, dis) } else { n };
                match parent {
                    Some(p) => format!("{}::{}", self.path(p), n),
                    None => n,
                }
            }
        }
    }

    fn const_str(&self, c: ty::Const<'tcx>) -> String {
        if let Some(v) = c.try_to_target_usize(self.tcx) {
            return v.to_string();
        }
        format!("{}", c)
    }

    fn args_str(&self, args: GenericArgsRef<'tcx>) -> String {
        let v: Vec<String> = args
            .iter()
            .filter_map(|a| match a.kind() {
                ty::GenericArgKind::Type(t) => Some(self.ty_str(t)),
                ty::GenericArgKind::Const(c) => Some(self.const_str(c)),
                _ => None,
            })
            .collect();
        if v.is_empty() { String::new() } else { format!("<{}>", v.join(",")) }
    }

    fn ty_str(&self, t: Ty<'tcx>) -> String {
        match t.kind() {
            ty::Adt(a, args) => format!("{}{}", self.path(a.did()), self.args_str(args)),
            ty::Ref(_, t, m) => format!("&{}{}", if m.is_mut() { "mut " } else { "" }, self.ty_str(*t)),
            ty::RawPtr(t, m) => format!("*{}{}", if m.is_mut() { "mut " } else { "const " }, self.ty_str(*t)),
            ty::Array(t, n) => format!("[{};{}]", self.ty_str(*t), self.const_str(*n)),
            ty::Slice(t) => format!("[{}]", self.ty_str(*t)),
            ty::Tuple(ts) => format!("({})", ts.iter().map(|t| self.ty_str(t)).collect::<Vec<_>>().join(",")),
            ty::Closure(d, _) => format!("closure:{}", self.path(*d)),
            ty::FnDef(d, args) => format!("fn:{}{}", self.path(*d), self.args_str(args.skip_binder())),
            _ => format!("{}", t),
        }
    }

    fn norm(&self, t: Ty<'tcx>) -> Ty<'tcx> {
        if t.has_aliases() && !t.has_escaping_bound_vars() {
            return self.tcx.try_normalize_erasing_regions(self.env, ty::Unnormalized::new(t)).unwrap_or(t);
        }
        t
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.norm(t);
        if let Some(&i) = self.tymap.get(&t) {
            return i;
        }
        let i = self.types.len();
        self.tymap.insert(t, i);
        self.types.push(String::new());
        let s = esc(&self.ty_str(t));
        let j = match t.kind() {
            ty::Bool => format!("{{\"k\":\"bool\",\"s\":{}}}", s),
            ty::Char => format!("{{\"k\":\"char\",\"s\":{}}}", s),
            ty::Int(_) => format!("{{\"k\":\"int\",\"s\":{}}}", s),
            ty::Uint(_) => format!("{{\"k\":\"uint\",\"s\":{}}}", s),
            ty::Float(_) => format!("{{\"k\":\"float\",\"s\":{}}}", s),
            ty::Str => format!("{{\"k\":\"str\",\"s\":{}}}", s),
            ty::Never => format!("{{\"k\":\"never\",\"s\":{}}}", s),
            ty::Adt(a, args) => {
                let ar = self.gargs(args);
                format!("{{\"k\":\"adt\",\"s\":{},\"path\":{},\"args\":{},\"enum\":{}}}", s, esc(&self.path(a.did())), ar, a.is_enum())
            }
            ty::Array(e, n) => {
                let e = self.ty(*e);
                format!("{{\"k\":\"array\",\"s\":{},\"e\":{},\"n\":{}}}", s, e, esc(&self.const_str(*n)))
            }
            ty::Slice(e) => {
                let e = self.ty(*e);
                format!("{{\"k\":\"slice\",\"s\":{},\"e\":{}}}", s, e)
            }
            ty::Ref(_, e, m) => {
                let e = self.ty(*e);
                format!("{{\"k\":\"ref\",\"s\":{},\"e\":{},\"mut\":{}}}", s, e, m.is_mut())
            }
            ty::RawPtr(e, m) => {
                let e = self.ty(*e);
                format!("{{\"k\":\"ptr\",\"s\":{},\"e\":{},\"mut\":{}}}", s, e, m.is_mut())
            }
            ty::Tuple(ts) => {
                let v: Vec<String> = ts.iter().map(|t| self.ty(t).to_string()).collect();
                format!("{{\"k\":\"tuple\",\"s\":{},\"es\":[{}]}}", s, v.join(","))
            }
            ty::Closure(d, args) => {
                let ca = args.as_closure();
                let kind = format!("{:?}", ca.kind());
                let up: Vec<String> = ca.upvar_tys().iter().map(|t| self.ty(t).to_string()).collect();
                let inst = Instance::new_raw(*d, args);
                let key = self.request(inst);
                format!(
                    "{{\"k\":\"closure\",\"s\":{},\"path\":{},\"key\":{},\"kind\":{},\"up\":[{}]}}",
                    s, esc(&self.path(*d)), esc(&key.unwrap_or_default()), esc(&kind), up.join(",")
                )
            }
            ty::FnDef(d, args) => {
                let c = self.callee(*d, args.skip_binder());
                format!("{{\"k\":\"fndef\",\"s\":{},\"callee\":{}}}", s, c)
            }
            ty::Param(p) => format!("{{\"k\":\"param\",\"s\":{},\"name\":{}}}", s, esc(&p.name.to_string())),
            _ => format!("{{\"k\":\"other\",\"s\":{}}}", s),
        };
        self.types[i] = j;
        i
    }

    fn gargs(&mut self, args: GenericArgsRef<'tcx>) -> String {
        let v: Vec<String> = args
            .iter()
            .filter_map(|a| match a.kind() {
                ty::GenericArgKind::Type(t) => Some(self.ty(t).to_string()),
                ty::GenericArgKind::Const(c) => Some(format!("{{\"c\":{}}}", esc(&self.const_str(c)))),
                _ => None,
            })
            .collect();
        format!("[{}]", v.join(","))
    }

    fn inst_key(&self, inst: Instance<'tcx>) -> String {
        let mut k = format!("{}{}", self.path(inst.def_id()), self.args_str(inst.args));
        // closures: ty_str has no args, add upvar signature through parent args only
        if inst.args.has_param() {
            k = format!("{} @{}", k, self.root);
        }
        k
    }

    fn want_body(&self, d: DefId) -> bool {
        let c = self.cname(d);
        if self.ws.iter().any(|w| *w == c) {
            return true;
        }
        if c == "core" || c == "alloc" || c == "std" {
            let p = self.path(d);
            return p.starts_with("core::option::Option::")
                || p.starts_with("core::result::Result::")
                || p.starts_with("core::bool::")
                || p.starts_with("<bool>")
                || p.starts_with("core::mem::");
        }
        false
    }

    /// Queue an instance body for dumping; returns its key if a body will be available.
    fn request(&mut self, inst: Instance<'tcx>) -> Option<String> {
        let d = inst.def_id();
        if !matches!(inst.def, InstanceKind::Item(_)) {
            return None;
        }
        if !self.want_body(d) || !self.tcx.is_mir_available(d) {
            return None;
        }
        if matches!(self.tcx.def_kind(d), DefKind::Ctor(..)) {
            return None;
        }
        let key = self.inst_key(inst);
        if self.done.insert(key.clone()) {
            self.queue.push_back((key.clone(), inst));
        }
        Some(key)
    }

    fn callee(&mut self, d: DefId, args: GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        let mut o = format!("{{\"path\":{},\"args\":{}", esc(&self.path(d)), self.gargs(args));
        if let Some(t) = tcx.trait_of_assoc(d) {
            let _ = write!(o, ",\"trait\":{}", esc(&self.path(t)));
        }
        if let DefKind::Ctor(..) = tcx.def_kind(d) {
            let p = tcx.parent(d);
            let (adt, var) = match tcx.def_kind(p) {
                DefKind::Variant => {
                    let adt = tcx.parent(p);
                    (adt, tcx.adt_def(adt).variant_index_with_id(p).as_usize())
                }
                _ => (p, 0),
            };
            let _ = write!(o, ",\"ctor\":{},\"variant\":{}", esc(&self.path(adt)), var);
        } else if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            let sig = tcx.fn_sig(d).instantiate(tcx, args);
            if let Ok(sig) = tcx.try_normalize_erasing_regions(self.env, sig) {
                let sig = tcx.instantiate_bound_regions_with_erased(sig);
                let out = self.ty(sig.output());
                let _ = write!(o, ",\"out\":{}", out);
            }
            match Instance::try_resolve(tcx, self.env, d, args) {
                Ok(Some(inst)) => {
                    let kind = match inst.def {
                        InstanceKind::Item(_) => "item".to_string(),
                        InstanceKind::Intrinsic(_) | InstanceKind::LlvmIntrinsic(_) => "intrinsic".to_string(),
                        InstanceKind::Virtual(..) => "virtual".to_string(),
                        InstanceKind::Shim(s) => format!("shim:{}", format!("{:?}", s).split('(').next().unwrap_or("").split(' ').next().unwrap_or("")),
                    };
                    let key = self.request(inst);
                    let rd = inst.def_id();
                    let _ = write!(o, ",\"rk\":{},\"rpath\":{},\"rcrate\":{},\"rargs\":{}", esc(&kind), esc(&self.path(rd)), esc(&self.cname(rd)), self.gargs(inst.args));
                    if let Some(k) = key {
                        let _ = write!(o, ",\"key\":{}", esc(&k));
                    }
                    if matches!(self.tcx.def_kind(rd), DefKind::Fn | DefKind::AssocFn) && self.tcx.fn_sig(rd).skip_binder().safety().is_unsafe() {
                        o.push_str(",\"unsafe\":true");
                    }
                }
                _ => o.push_str(",\"rk\":\"unresolved\""),
            }
        }
        if let Some((vd, vargs)) = self.via(d, args) {
            let v = self.callee(vd, vargs);
            let _ = write!(o, ",\"via\":{}", v);
        }
        o.push('}');
        o
    }

    /// Library entry points that only forward to a user-implementable trait: `x.into()` to `From::from`,
    /// `iter.sum()` to `Sum::sum`.
    fn via(&self, d: DefId, args: GenericArgsRef<'tcx>) -> Option<(DefId, GenericArgsRef<'tcx>)> {
        let tcx = self.tcx;
        let p = self.path(d);
        if p == "core::convert::Into::into" && args.len() == 2 {
            let from = tcx.get_diagnostic_item(rustc_span::Symbol::intern("From"))?;
            let f = tcx.associated_item_def_ids(from).iter().copied().find(|x| tcx.item_name(*x).as_str() == "from")?;
            return Some((f, tcx.mk_args(&[args[1], args[0]])));
        }
        if p.ends_with("::Iterator::sum") && args.len() == 2 {
            let s = self.trait_by_path("core::iter::traits::accum::Sum")?;
            let f = *tcx.associated_item_def_ids(s).first()?;
            let it = args[0].as_type()?;
            let iter = tcx.parent(d);
            let item = tcx.associated_items(iter).in_definition_order().find(|x| x.name().as_str() == "Item")?.def_id;
            let proj = Ty::new_projection(tcx, ty::IsRigid::No, item, [it]);
            let proj = tcx.try_normalize_erasing_regions(self.env, ty::Unnormalized::new(proj)).ok()?;
            let full = tcx.mk_args(&[args[1], proj.into(), args[0]]);
            return Some((f, full));
        }
        None
    }

    fn trait_by_path(&self, p: &str) -> Option<DefId> {
        self.tcx.all_traits_including_private().find(|t| self.path(*t) == p)
    }

    fn place(&mut self, body: &Body<'tcx>, p: &Place<'tcx>) -> String {
        let mut v = Vec::new();
        let mut pt = mir::PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            let s = match e {
                ProjectionElem::Deref => {
                    let t = self.ty(pt.ty);
                    format!("[\"d\",{}]", t)
                }
                ProjectionElem::Field(f, t) => {
                    let bt = self.ty(pt.ty);
                    let t = self.ty(t);
                    format!("[\"f\",{},{},{}]", f.as_usize(), t, bt)
                }
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l.as_usize()),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => format!("[\"ci\",{},{},{}]", offset, min_length, from_end),
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"ss\",{},{},{}]", from, to, from_end),
                ProjectionElem::Downcast(_, v) => format!("[\"dc\",{}]", v.as_usize()),
                other => format!("[\"o\",{}]", esc(&format!("{:?}", other))),
            };
            v.push(s);
            pt = pt.projection_ty(self.tcx, e);
        }
        format!("{{\"l\":{},\"p\":[{}]}}", p.local.as_usize(), v.join(","))
    }

    fn constant(&mut self, c: &ConstOperand<'tcx>) -> String {
        let ty = c.const_.ty();
        let t = self.ty(ty);
        let mut o = format!("{{\"ty\":{}", t);
        if let Const::Unevaluated(u, _) = c.const_ {
            if let Some(p) = u.promoted {
                let inst = Instance::new_raw(u.def, u.args);
                let key = format!("{}::promoted#{}", self.inst_key(inst), p.as_usize());
                let _ = write!(o, ",\"k\":\"promoted\",\"key\":{}", esc(&key));
                o.push('}');
                return o;
            }
            let _ = write!(o, ",\"name\":{}", esc(&self.path(u.def)));
            // a local constant with its own MIR: keep the key so that the analyser can evaluate it structurally
            if self.want_body(u.def) && !ty.is_integral() && !ty.is_floating_point() && !ty.is_bool() {
                if let Ok(Some(inst)) = Instance::try_resolve(self.tcx, self.env, u.def, u.args) {
                    if inst.def_id().is_local() {
                        let key = self.inst_key(inst);
                        if self.done.insert(key.clone()) {
                            self.queue.push_back((key.clone(), inst));
                        }
                        let _ = write!(o, ",\"ckey\":{}", esc(&key));
                    }
                }
            }
        }
        if let ty::FnDef(..) | ty::Closure(..) = ty.kind() {
            o.push_str(",\"k\":\"zst\"}");
            return o;
        }
        if let Const::Ty(_, ct) = c.const_ {
            let _ = write!(o, ",\"cv\":{}", esc(&self.const_str(ct)));
        }
        match c.const_.eval(self.tcx, self.env, c.span) {
            Ok(ConstValue::ZeroSized) => o.push_str(",\"k\":\"zst\""),
            Ok(ConstValue::Scalar(s)) => match s.try_to_scalar_int() {
                Ok(i) => {
                    let _ = write!(o, ",\"k\":\"scalar\",\"v\":\"{}\",\"size\":{}", i.to_bits(i.size()), i.size().bytes());
                }
                Err(_) => o.push_str(",\"k\":\"ptr\""),
            },
            Ok(v @ ConstValue::Slice { .. }) => {
                let s = v
                    .try_get_slice_bytes_for_diagnostics(self.tcx)
                    .map(|b| String::from_utf8_lossy(b).to_string())
                    .unwrap_or_default();
                let _ = write!(o, ",\"k\":\"str\",\"v\":{}", esc(&s));
            }
            Ok(ConstValue::Indirect { alloc_id, offset }) => {
                let mut bytes = String::new();
                if let Ok(l) = self.tcx.layout_of(self.env.as_query_input(ty)) {
                    if let mir::interpret::GlobalAlloc::Memory(a) = self.tcx.global_alloc(alloc_id) {
                        let a = a.inner();
                        let st = offset.bytes_usize();
                        let en = st + l.size.bytes_usize();
                        if a.provenance().ptrs().is_empty() && en <= a.len() {
                            for b in a.inspect_with_uninit_and_ptr_outside_interpreter(st..en) {
                                let _ = write!(bytes, "{:02x}", b);
                            }
                        }
                    }
                }
                let _ = write!(o, ",\"k\":\"mem\",\"hex\":\"{}\"", bytes);
            }
            Err(_) => o.push_str(",\"k\":\"unk\""),
        }
        o.push('}');
        o
    }

    fn operand(&mut self, body: &Body<'tcx>, op: &Operand<'tcx>) -> String {
        match op {
            Operand::Copy(p) => format!("[\"cp\",{}]", self.place(body, p)),
            Operand::Move(p) => format!("[\"mv\",{}]", self.place(body, p)),
            Operand::Constant(c) => format!("[\"c\",{}]", self.constant(c)),
            Operand::RuntimeChecks(r) => format!("[\"rt\",{}]", esc(&format!("{:?}", r))),
        }
    }

    fn rvalue(&mut self, body: &Body<'tcx>, rv: &Rvalue<'tcx>) -> String {
        match rv {
            Rvalue::Use(o, ..) => format!("[\"use\",{}]", self.operand(body, o)),
            Rvalue::Repeat(o, n) => format!("[\"rep\",{},{}]", self.operand(body, o), esc(&self.const_str(*n))),
            Rvalue::Ref(_, bk, p) => format!("[\"ref\",{},{}]", matches!(bk, BorrowKind::Mut { .. }), self.place(body, p)),
            Rvalue::RawPtr(_, p) => format!("[\"rawptr\",{}]", self.place(body, p)),
            Rvalue::Cast(k, o, t) => {
                let kk = match k {
                    CastKind::PointerCoercion(pc, _) => format!("PointerCoercion:{:?}", pc),
                    k => format!("{:?}", k),
                };
                let t = self.ty(*t);
                let ft = o.ty(&body.local_decls, self.tcx);
                let ft = self.ty(ft);
                format!("[\"cast\",{},{},{},{}]", esc(&kk), self.operand(body, o), t, ft)
            }
            Rvalue::BinaryOp(op, b) => {
                let t = b.0.ty(&body.local_decls, self.tcx);
                let t = self.ty(t);
                format!("[\"bin\",\"{:?}\",{},{},{}]", op, self.operand(body, &b.0), self.operand(body, &b.1), t)
            }
            Rvalue::UnaryOp(op, a) => {
                let t = a.ty(&body.local_decls, self.tcx);
                let t = self.ty(t);
                format!("[\"un\",\"{:?}\",{},{}]", op, self.operand(body, a), t)
            }
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(body, p)),
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"cp\",{}]]", self.place(body, p)),
            Rvalue::Aggregate(k, ops) => {
                let os = list(ops.iter().map(|o| self.operand(body, o)).collect::<Vec<_>>());
                match &**k {
                    AggregateKind::Array(_) => format!("[\"agg\",\"array\",{}]", os),
                    AggregateKind::Tuple => format!("[\"agg\",\"tuple\",{}]", os),
                    AggregateKind::Adt(d, v, args, _, active) => {
                        let ga = self.gargs(args);
                        let vn = self.tcx.adt_def(*d).variant(*v).name.to_string();
                        format!(
                            "[\"agg\",\"adt\",{},{},{},{},{},{}]",
                            os, esc(&self.path(*d)), v.as_usize(), ga, self.tcx.adt_def(*d).is_enum(), esc(&format!("{}{}", vn, if active.is_some() { "|union" } else { "" }))
                        )
                    }
                    AggregateKind::Closure(d, args) => {
                        let ct = Ty::new_closure(self.tcx, *d, args);
                        let t = self.ty(ct);
                        format!("[\"agg\",\"closure\",{},{}]", os, t)
                    }
                    AggregateKind::RawPtr(..) => format!("[\"agg\",\"rawptr\",{}]", os),
                    _ => format!("[\"agg\",\"other\",{}]", os),
                }
            }
            other => format!("[\"other\",{}]", esc(&format!("{:?}", other))),
        }
    }

    fn span(&self, s: rustc_span::Span) -> String {
        let s = s.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(s.lo());
        let f = format!("{}", lo.file.name.prefer_local_unconditionally());
        format!("{}:{}", f, lo.line)
    }

    fn body(&mut self, key: &str, inst: Instance<'tcx>, body: &Body<'tcx>, extra: &str) {
        let tcx = self.tcx;
        let locals = list(body.local_decls.iter().map(|l| self.ty(l.ty).to_string()).collect::<Vec<_>>());
        let mut names = Vec::new();
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                names.push(format!("[{},{}]", esc(&v.name.to_string()), self.place(body, &p)));
            }
        }
        let mut blocks = Vec::new();
        for bb in body.basic_blocks.iter() {
            let mut st = Vec::new();
            for s in &bb.statements {
                let sp = esc(&self.span(s.source_info.span));
                match &s.kind {
                    StatementKind::Assign(b) => {
                        let p = self.place(body, &b.0);
                        let r = self.rvalue(body, &b.1);
                        st.push(format!("[\"=\",{},{},{}]", p, r, sp));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        st.push(format!("[\"sd\",{},{}]", self.place(body, place), variant_index.as_usize()));
                    }
                    StatementKind::Intrinsic(i) => {
                        st.push(format!("[\"intr\",{}]", esc(&format!("{:?}", i))));
                    }
                    _ => {}
                }
            }
            let t = bb.terminator();
            let sp = esc(&self.span(t.source_info.span));
            let unw = match t.unwind() {
                Some(UnwindAction::Cleanup(b)) => format!(",\"unw\":{}", b.as_usize()),
                _ => String::new(),
            };
            let ts = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("{{\"k\":\"goto\",\"t\":{}}}", target.as_usize()),
                TerminatorKind::FalseEdge { real_target, .. } => format!("{{\"k\":\"goto\",\"t\":{}}}", real_target.as_usize()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!("{{\"k\":\"goto\",\"t\":{}}}", real_target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let dt = discr.ty(&body.local_decls, tcx);
                    let dt = self.ty(dt);
                    let v: Vec<String> = targets.iter().map(|(v, b)| format!("[\"{}\",{}]", v, b.as_usize())).collect();
                    format!(
                        "{{\"k\":\"switch\",\"d\":{},\"ty\":{},\"ts\":[{}],\"o\":{},\"sp\":{}}}",
                        self.operand(body, discr), dt, v.join(","), targets.otherwise().as_usize(), sp
                    )
                }
                TerminatorKind::Return => "{\"k\":\"ret\"}".to_string(),
                TerminatorKind::Unreachable => "{\"k\":\"unreach\"}".to_string(),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => "{\"k\":\"resume\"}".to_string(),
                TerminatorKind::Drop { place, target, .. } => {
                    let pt = place.ty(&body.local_decls, tcx).ty;
                    let pt = self.ty(pt);
                    format!("{{\"k\":\"drop\",\"p\":{},\"ty\":{},\"t\":{}{}}}", self.place(body, place), pt, target.as_usize(), unw)
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let ft = func.ty(&body.local_decls, tcx);
                    let fj = match ft.kind() {
                        ty::FnDef(d, ga) => self.callee(*d, ga.skip_binder()),
                        _ => {
                            let t = self.ty(ft);
                            format!("{{\"path\":\"<indirect>\",\"args\":[],\"fty\":{},\"fop\":{}}}", t, self.operand(body, func))
                        }
                    };
                    let at: Vec<String> = args.iter().map(|a| { let t = a.node.ty(&body.local_decls, tcx); self.ty(t).to_string() }).collect();
                    let a = list(args.iter().map(|a| self.operand(body, &a.node)).collect::<Vec<_>>());
                    let dt = destination.ty(&body.local_decls, tcx).ty;
                    let dt = self.ty(dt);
                    format!(
                        "{{\"k\":\"call\",\"f\":{},\"a\":{},\"at\":[{}],\"d\":{},\"dt\":{},\"t\":{},\"sp\":{}{}}}",
                        fj, a, at.join(","), self.place(body, destination), dt,
                        target.map(|t| t.as_usize().to_string()).unwrap_or("null".into()), sp, unw
                    )
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let (mk, mo): (String, Vec<String>) = match &**msg {
                        AssertKind::BoundsCheck { len, index } => ("bounds".into(), vec![self.operand(body, len), self.operand(body, index)]),
                        AssertKind::Overflow(op, a, b) => (format!("overflow:{:?}", op), vec![self.operand(body, a), self.operand(body, b)]),
                        AssertKind::OverflowNeg(a) => ("overflowneg".into(), vec![self.operand(body, a)]),
                        AssertKind::DivisionByZero(a) => ("div0".into(), vec![self.operand(body, a)]),
                        AssertKind::RemainderByZero(a) => ("rem0".into(), vec![self.operand(body, a)]),
                        other => (format!("{:?}", other), vec![]),
                    };
                    format!(
                        "{{\"k\":\"assert\",\"c\":{},\"e\":{},\"m\":{},\"mo\":[{}],\"t\":{},\"sp\":{}{}}}",
                        self.operand(body, cond), expected, esc(&mk), mo.join(","), target.as_usize(), sp, unw
                    )
                }
                TerminatorKind::InlineAsm { .. } => "{\"k\":\"asm\"}".to_string(),
                other => format!("{{\"k\":\"other\",\"s\":{}}}", esc(&format!("{:?}", other))),
            };
            blocks.push(format!("{{\"s\":[{}],\"t\":{},\"c\":{}}}", st.join(","), ts, bb.is_cleanup));
        }
        let d = inst.def_id();
        self.bodies.push(format!(
            "{}:{{\"path\":{},\"crate\":{},\"span\":{},\"argc\":{},\"spread\":{},\"locals\":{},\"names\":[{}],\"blocks\":[{}]{}}}",
            esc(key), esc(&self.path(d)), esc(&self.cname(d)), esc(&self.span(tcx.def_span(d))), body.arg_count,
            body.spread_arg.map(|l| l.as_usize().to_string()).unwrap_or("null".into()),
            locals, names.join(","), blocks.join(","), extra
        ));
    }

    fn drain(&mut self) {
        while let Some((key, inst)) = self.queue.pop_front() {
            let tcx = self.tcx;
            let d = inst.def_id();
            let is_const = matches!(tcx.def_kind(d), DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } | DefKind::AnonConst);
            let raw = if is_const { tcx.mir_for_ctfe(d) } else { tcx.instance_mir(inst.def) };
            let b: Body<'tcx> = inst.instantiate_mir_and_normalize_erasing_regions(tcx, self.env, EarlyBinder::bind(tcx, raw.clone()));
            self.body(&key, inst, &b, "");
            let proms = tcx.promoted_mir(d);
            for (i, p) in proms.iter_enumerated() {
                let pb: Body<'tcx> = inst.instantiate_mir_and_normalize_erasing_regions(tcx, self.env, EarlyBinder::bind(tcx, p.clone()));
                let pk = format!("{}::promoted#{}", key, i.as_usize());
                self.body(&pk, inst, &pb, ",\"promoted\":true");
            }
        }
    }
}

pub fn dump_crate<'tcx>(tcx: TyCtxt<'tcx>) -> String {
    let ws: Vec<String> = std::env::var("MIRDUMP_WS").unwrap_or_default().split(',').map(|s| s.to_string()).collect();
    let mut d = D {
        tcx,
        env: TypingEnv::fully_monomorphized(),
        root: String::new(),
        types: vec![],
        tymap: Default::default(),
        bodies: vec![],
        done: Default::default(),
        queue: Default::default(),
        ws,
    };
    let mut roots = Vec::new();
    let mut items = Vec::new();
    // functions
    for ld in tcx.mir_keys(()).iter() {
        let did = ld.to_def_id();
        let kind = tcx.def_kind(did);
        if !matches!(kind, DefKind::Fn | DefKind::AssocFn) {
            continue;
        }
        let args = ty::GenericArgs::identity_for_item(tcx, did);
        d.env = TypingEnv::post_analysis(tcx, did);
        d.root = d.path(did);
        d.tymap.clear();
        let inst = Instance::new_raw(did, args);
        let key = d.request(inst).unwrap_or_default();
        d.drain();
        let vis = tcx.visibility(did).is_public();
        let eff = tcx.effective_visibilities(()).is_reachable(*ld);
        let parent = tcx.parent(did);
        let (tr, selfty) = if matches!(tcx.def_kind(parent), DefKind::Impl { of_trait: true }) {
            let t = tcx.impl_trait_ref(parent).instantiate_identity().skip_norm_wip();
            (d.path(t.def_id), d.ty_str(t.self_ty()))
        } else if matches!(tcx.def_kind(parent), DefKind::Impl { .. }) {
            let st = tcx.type_of(parent).instantiate_identity().skip_norm_wip();
            (String::new(), d.ty_str(st))
        } else if matches!(tcx.def_kind(parent), DefKind::Trait) {
            (d.path(parent), "Self".to_string())
        } else {
            (String::new(), String::new())
        };
        let derived = matches!(tcx.def_kind(parent), DefKind::Impl { .. }) && tcx.is_automatically_derived(parent);
        let sig = tcx.fn_sig(did).instantiate_identity().skip_norm_wip();
        let sig = tcx.instantiate_bound_regions_with_erased(sig);
        let ins = list(sig.inputs().iter().map(|t| d.ty(*t).to_string()).collect::<Vec<_>>());
        let out = d.ty(sig.output());
        let unsafe_ = tcx.fn_sig(did).skip_binder().safety().is_unsafe();
        roots.push(format!(
            "{{\"path\":{},\"key\":{},\"name\":{},\"trait\":{},\"self\":{},\"pub\":{},\"reach\":{},\"derived\":{},\"span\":{},\"inputs\":{},\"output\":{},\"unsafe\":{},\"prov\":false}}",
            esc(&d.path(did)), esc(&key), esc(tcx.item_name(did).as_str()), esc(&tr), esc(&selfty), vis, eff, derived,
            esc(&d.span(tcx.def_span(did))), ins, out, unsafe_
        ));
    }
    // provided trait methods, instantiated for each concrete local impl
    for idid in tcx.hir_crate_items(()).definitions() {
        let idid = idid.to_def_id();
        if !matches!(tcx.def_kind(idid), DefKind::Impl { of_trait: true }) {
            continue;
        }
        let tr = tcx.impl_trait_ref(idid).instantiate_identity().skip_norm_wip();
        if !d.ws.contains(&d.cname(tr.def_id)) {
            continue;
        }
        let overridden: FxHashSet<DefId> = tcx
            .associated_items(idid)
            .in_definition_order()
            .filter_map(|i| i.trait_item_def_id())
            .collect();
        for it in tcx.associated_items(tr.def_id).in_definition_order() {
            if !matches!(it.kind, ty::AssocKind::Fn { .. }) || overridden.contains(&it.def_id) || !it.defaultness(tcx).has_value() {
                continue;
            }
            if tr.self_ty().has_param() {
                continue;
            }
            let m = it.def_id;
            let args = ty::GenericArgs::for_item(tcx, m, |p, _| {
                if (p.index as usize) < tr.args.len() {
                    tr.args[p.index as usize]
                } else {
                    tcx.mk_param_from_def(p)
                }
            });
            d.env = TypingEnv::post_analysis(tcx, m);
            let path = format!("<{} as {}>::{}", d.ty_str(tr.self_ty()), d.path(tr.def_id), it.name());
            d.root = path.clone();
            d.tymap.clear();
            let inst = Instance::new_raw(m, args);
            let key = d.request(inst).unwrap_or_default();
            d.drain();
            let sig = tcx.fn_sig(m).instantiate(tcx, args).skip_norm_wip();
            let sig = tcx.instantiate_bound_regions_with_erased(sig);
            let sig = tcx.try_normalize_erasing_regions(d.env, ty::Unnormalized::new(sig)).unwrap_or(sig);
            let ins = list(sig.inputs().iter().map(|t| d.ty(*t).to_string()).collect::<Vec<_>>());
            let out = d.ty(sig.output());
            roots.push(format!(
                "{{\"path\":{},\"key\":{},\"name\":{},\"trait\":{},\"self\":{},\"pub\":true,\"reach\":true,\"derived\":false,\"span\":{},\"inputs\":{},\"output\":{},\"unsafe\":false,\"prov\":true}}",
                esc(&path), esc(&key), esc(it.name().as_str()), esc(&d.path(tr.def_id)), esc(&d.ty_str(tr.self_ty())), esc(&d.span(tcx.def_span(m))), ins, out
            ));
        }
    }
    // types, impls, statics
    d.env = TypingEnv::fully_monomorphized();
    for idid in tcx.hir_crate_items(()).definitions() {
        let did = idid.to_def_id();
        match tcx.def_kind(did) {
            DefKind::Struct | DefKind::Enum | DefKind::Union => {
                d.env = TypingEnv::post_analysis(tcx, did);
                d.root = d.path(did);
                d.tymap.clear();
                let a = tcx.adt_def(did);
                let vs: Vec<String> = a
                    .variants()
                    .iter()
                    .map(|v| {
                        let fs: Vec<String> = v
                            .fields
                            .iter()
                            .map(|f| {
                                let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                                let t = d.norm(t);
                                let ts = d.ty_str(t);
                                format!(
                                    "{{\"name\":{},\"pub\":{},\"ty\":{},\"tyid\":{},\"attrs\":{}}}",
                                    esc(f.name.as_str()), f.vis.is_public(), esc(&ts), d.ty(t), attrs(tcx, f.did)
                                )
                            })
                            .collect();
                        format!("{{\"name\":{},\"ctor\":{},\"fields\":[{}]}}", esc(v.name.as_str()), esc(&format!("{:?}", v.ctor_kind())), fs.join(","))
                    })
                    .collect();
                let eff = tcx.effective_visibilities(()).is_reachable(idid);
                items.push(format!(
                    "{{\"k\":\"adt\",\"path\":{},\"pub\":{},\"reach\":{},\"kind\":{},\"variants\":[{}],\"attrs\":{},\"span\":{}}}",
                    esc(&d.path(did)), tcx.visibility(did).is_public(), eff, esc(&format!("{:?}", tcx.def_kind(did))), vs.join(","), attrs(tcx, did), esc(&d.span(tcx.def_span(did)))
                ));
            }
            DefKind::Impl { of_trait } => {
                let st = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                let tr = if of_trait {
                    let t = tcx.impl_trait_ref(did).instantiate_identity().skip_norm_wip();
                    let targs: Vec<String> = t.args.iter().skip(1).filter_map(|a| a.as_type().map(|x| esc(&d.ty_str(x)))).collect();
                    format!(",\"trait\":{},\"targs\":[{}]", esc(&d.path(t.def_id)), targs.join(","))
                } else {
                    String::new()
                };
                let ms: Vec<String> = tcx.associated_items(did).in_definition_order().map(|i| {
                    let mut s = format!("{{\"name\":{},\"kind\":{}", esc(i.opt_name().map(|n| n.to_string()).unwrap_or_default().as_str()), esc(&format!("{:?}", i.kind).split(|c: char| !c.is_alphanumeric()).next().unwrap_or("")));
                    if matches!(i.kind, ty::AssocKind::Type { .. }) {
                        let t = tcx.type_of(i.def_id).instantiate_identity().skip_norm_wip();
                        let _ = write!(s, ",\"ty\":{}", esc(&d.ty_str(t)));
                    }
                    if matches!(i.kind, ty::AssocKind::Const { .. }) {
                        if let Ok(cv) = tcx.const_eval_poly(i.def_id) {
                            if let Some(sc) = cv.try_to_scalar_int() {
                                let _ = write!(s, ",\"v\":\"{}\"", sc.to_bits(sc.size()));
                            }
                        }
                    }
                    s.push('}');
                    s
                }).collect();
                items.push(format!(
                    "{{\"k\":\"impl\",\"self\":{},\"derived\":{}{},\"items\":[{}],\"span\":{},\"macro\":{}}}",
                    esc(&d.ty_str(st)), tcx.is_automatically_derived(did), tr, ms.join(","), esc(&d.span(tcx.def_span(did))), tcx.def_span(did).from_expansion()
                ));
            }
            DefKind::Static { mutability, .. } => {
                let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                let env = TypingEnv::fully_monomorphized();
                items.push(format!(
                    "{{\"k\":\"static\",\"path\":{},\"mut\":{},\"ty\":{},\"freeze\":{},\"span\":{}}}",
                    esc(&d.path(did)), mutability.is_mut(), esc(&format!("{}", t)), t.is_freeze(tcx, env), esc(&d.span(tcx.def_span(did)))
                ));
            }
            _ => {}
        }
    }
    // unsafe blocks and asm in HIR
    let cname = tcx.crate_name(LOCAL_CRATE).to_string();
    format!(
        "{{\"crate\":{},\"types\":[{}],\"bodies\":{{{}}},\"roots\":[{}],\"items\":[{}],\"unsafe\":{}}}",
        esc(&cname), d.types.join(",\n"), d.bodies.join(",\n"), roots.join(",\n"), items.join(",\n"), unsafes(tcx, &d)
    )
}

fn attrs(tcx: TyCtxt<'_>, did: DefId) -> String {
    let mut v = Vec::new();
    if let Some(l) = did.as_local() {
        let h = tcx.local_def_id_to_hir_id(l);
        for a in tcx.hir_attrs(h) {
            if let rustc_attr_ir::Attribute::DeriveHelper(it) = a {
                let s = it.path.segments.iter().map(|s| s.to_string()).collect::<Vec<_>>().join("::");
                v.push(esc(&format!("{} {:?}", s, it.args)));
            }
        }
    }
    list(v)
}

fn unsafes<'tcx>(tcx: TyCtxt<'tcx>, d: &D<'tcx>) -> String {
    use rustc_hir::intravisit::{self, Visitor};
    struct V<'a, 'tcx> {
        tcx: TyCtxt<'tcx>,
        d: &'a D<'tcx>,
        out: Vec<String>,
    }
    impl<'a, 'tcx> Visitor<'tcx> for V<'a, 'tcx> {
        type NestedFilter = rustc_middle::hir::nested_filter::All;
        fn maybe_tcx(&mut self) -> TyCtxt<'tcx> {
            self.tcx
        }
        fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
            if let rustc_hir::BlockCheckMode::UnsafeBlock(rustc_hir::UnsafeSource::UserProvided) = b.rules {
                self.out.push(format!("{}{}", self.d.span(b.span), if b.span.from_expansion() { "|macro" } else { "" }));
            }
            intravisit::walk_block(self, b)
        }
    }
    let mut v = V { tcx, d, out: vec![] };
    tcx.hir_walk_toplevel_module(&mut v);
    list(v.out.iter().map(|s| esc(s)))
}
