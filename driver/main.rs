//! Fact extractor: a rustc driver that type-checks a workspace crate exactly as cargo asks for and
//! writes its resolved MIR, types, impls and ADT definitions to `$VP_FACTS_DIR/<crate>.json`.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::*;
use rustc_middle::ty::print::{PrintTraitRefExt, with_crate_prefix, with_no_trimmed_paths, with_no_visible_paths};
use rustc_middle::ty::{self, Ty, TyCtxt};
use std::collections::HashMap;
use std::fmt::Write as _;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn list(v: impl IntoIterator<Item = String>) -> String {
    let mut o = String::from("[");
    for (i, s) in v.into_iter().enumerate() {
        if i > 0 {
            o.push(',');
        }
        o.push_str(&s);
    }
    o.push(']');
    o
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    krate: String,
    types: Vec<String>,
    tmap: HashMap<Ty<'tcx>, usize>,
}

impl<'tcx> Cx<'tcx> {
    fn fix(&self, s: String) -> String {
        s.replace("crate::", &format!("{}::", self.krate))
    }
    fn path(&self, d: DefId) -> String {
        let s = with_no_visible_paths!(with_no_trimmed_paths!(with_crate_prefix!(self.tcx.def_path_str(d))));
        self.fix(s)
    }
    fn tystr(&self, t: Ty<'tcx>) -> String {
        let s = with_no_visible_paths!(with_no_trimmed_paths!(with_crate_prefix!(format!("{t}"))));
        self.fix(s)
    }
    fn hash(&self, d: DefId) -> String {
        let h = self.tcx.def_path_hash(d);
        format!("{:?}", h.0).replace("Fingerprint", "")
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(i) = self.tmap.get(&t) {
            return *i;
        }
        let i = self.types.len();
        self.types.push(String::new());
        self.tmap.insert(t, i);
        let s = self.tystr(t);
        let mut args: Vec<usize> = vec![];
        let (kind, def) = match t.kind() {
            ty::Adt(d, a) => {
                for x in a.types() {
                    args.push(self.ty(x));
                }
                ("adt", self.path(d.did()))
            }
            ty::Ref(_, x, m) => {
                args.push(self.ty(*x));
                ("ref", if m.is_mut() { "mut".into() } else { String::new() })
            }
            ty::RawPtr(x, m) => {
                args.push(self.ty(*x));
                ("ptr", if m.is_mut() { "mut".into() } else { String::new() })
            }
            ty::Slice(x) => {
                args.push(self.ty(*x));
                ("slice", String::new())
            }
            ty::Array(x, n) => {
                args.push(self.ty(*x));
                ("array", format!("{n}"))
            }
            ty::Tuple(xs) => {
                for x in xs.iter() {
                    args.push(self.ty(x));
                }
                ("tuple", String::new())
            }
            ty::FnDef(d, a) => {
                for x in a.skip_binder().types() {
                    args.push(self.ty(x));
                }
                ("fndef", self.path(*d))
            }
            ty::Closure(d, _) => ("closure", self.path(*d)),
            ty::Dynamic(p, ..) => (
                "dyn",
                match p.principal_def_id() {
                    Some(d) => self.path(d),
                    None => String::new(),
                },
            ),
            ty::Param(p) => ("param", p.name.to_string()),
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) | ty::Str | ty::Never => {
                ("prim", s.clone())
            }
            ty::Alias(..) => ("alias", s.clone()),
            _ => ("other", String::new()),
        };
        self.types[i] = format!(
            "{{\"s\":{},\"k\":\"{}\",\"d\":{},\"a\":{}}}",
            esc(&s),
            kind,
            esc(&def),
            list(args.iter().map(|x| x.to_string()))
        );
        i
    }
    fn line(&self, sp: rustc_span::Span) -> (String, usize) {
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        if sp.is_dummy() {
            return (String::new(), 0);
        }
        let p = sm.lookup_char_pos(sp.lo());
        (format!("{}", p.file.name.prefer_local_unconditionally()), p.line)
    }
    fn place(&mut self, body: &Body<'tcx>, p: &Place<'tcx>) -> String {
        let mut out = format!("[{}", p.local.as_usize());
        let mut pt = PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            out.push(',');
            match e {
                PlaceElem::Deref => out.push_str("\"*\""),
                PlaceElem::Field(f, fty) => {
                    let (name, owner) = match pt.ty.kind() {
                        ty::Adt(d, _) => {
                            let v = match pt.variant_index {
                                Some(v) => d.variant(v),
                                None if !d.is_enum() => d.non_enum_variant(),
                                None => d.variants().iter().next().unwrap(),
                            };
                            let on = self.path(d.did());
                            let nm = v.fields[f].name.to_string();
                            let on = if d.is_enum() { format!("{}::{}", on, v.name) } else { on };
                            (nm, on)
                        }
                        ty::Tuple(_) => (f.as_usize().to_string(), "tuple".to_string()),
                        ty::Closure(d, _) => {
                            let nm = d
                                .as_local()
                                .and_then(|l| {
                                    self.tcx
                                        .closure_captures(l)
                                        .get(f.as_usize())
                                        .map(|c| c.to_symbol().to_string())
                                })
                                .unwrap_or_else(|| f.as_usize().to_string());
                            (format!("{}#{}", f.as_usize(), nm), "closure".to_string())
                        }
                        _ => (f.as_usize().to_string(), "?".to_string()),
                    };
                    let ti = self.ty(fty);
                    let _ = write!(out, "[\"f\",{},{},{}]", esc(&name), esc(&owner), ti);
                }
                PlaceElem::Index(l) => {
                    let _ = write!(out, "[\"i\",{}]", l.as_usize());
                }
                PlaceElem::ConstantIndex { offset, from_end, .. } => {
                    let _ = write!(out, "[\"ci\",{},{}]", offset, from_end);
                }
                PlaceElem::Subslice { from, to, from_end } => {
                    let _ = write!(out, "[\"ss\",{},{},{}]", from, to, from_end);
                }
                PlaceElem::Downcast(n, vi) => {
                    let nm = n.map(|x| x.to_string()).unwrap_or_else(|| vi.as_usize().to_string());
                    let _ = write!(out, "[\"v\",{}]", esc(&nm));
                }
                _ => out.push_str("\"?\""),
            }
            pt = pt.projection_ty(self.tcx, e);
        }
        out.push(']');
        out
    }
    fn constant(&mut self, c: &ConstOperand<'tcx>, tenv: ty::TypingEnv<'tcx>) -> String {
        let t = c.const_.ty();
        let ti = self.ty(t);
        if let ty::FnDef(d, a) = t.kind() {
            return format!("{{\"c\":\"fn\",\"fn\":{},\"t\":{}}}", self.callee(*d, a.skip_binder(), tenv), ti);
        }
        let mut val = None;
        if t.is_integral() || t.is_bool() || t.is_floating_point() || t.is_char() {
            if let Some(s) = c.const_.try_eval_scalar_int(self.tcx, tenv) {
                let sz = s.size();
                let bits = s.to_bits(sz);
                val = Some(match t.kind() {
                    ty::Float(ty::FloatTy::F64) => {
                        let f = f64::from_bits(bits as u64);
                        format!("{f:?}")
                    }
                    ty::Float(ty::FloatTy::F32) => {
                        let f = f32::from_bits(bits as u32);
                        format!("{f:?}")
                    }
                    ty::Int(_) => format!("{}", sz.sign_extend(bits) as i128),
                    ty::Bool => (if bits != 0 { "true" } else { "false" }).to_string(),
                    _ => format!("{bits}"),
                });
            }
        }
        let disp = {
            let s = with_no_visible_paths!(with_no_trimmed_paths!(with_crate_prefix!(format!("{}", c.const_))));
            self.fix(s)
        };
        let mut extra = String::new();
        if let Const::Unevaluated(u, _) = c.const_ {
            let _ = write!(extra, ",\"def\":{}", esc(&self.path(u.def)));
            if u.promoted.is_some() {
                let _ = write!(extra, ",\"promoted\":{}", u.promoted.unwrap().as_usize());
            }
        }
        match val {
            Some(v) => format!("{{\"c\":\"val\",\"v\":{},\"t\":{}{}}}", esc(&v), ti, extra),
            None => format!("{{\"c\":\"other\",\"v\":{},\"t\":{}{}}}", esc(&disp), ti, extra),
        }
    }
    fn callee(&mut self, d: DefId, a: ty::GenericArgsRef<'tcx>, tenv: ty::TypingEnv<'tcx>) -> String {
        let p = self.path(d);
        let h = self.hash(d);
        let mut tr = String::new();
        let mut selft = None;
        if let Some(t) = self.tcx.trait_of_assoc(d) {
            tr = self.path(t);
            if a.len() > 0 {
                if let Some(st) = a[0].as_type() {
                    selft = Some(self.ty(st));
                }
            }
        }
        let mut res = String::new();
        let mut resh = String::new();
        let ea = self.tcx.erase_and_anonymize_regions(a);
        if let Ok(Some(inst)) = ty::Instance::try_resolve(self.tcx, tenv, d, ea) {
            match inst.def {
                ty::InstanceKind::Item(rd) => {
                    res = self.path(rd);
                    resh = self.hash(rd);
                }
                ty::InstanceKind::Virtual(..) => res = "dyn".into(),
                _ => res = "shim".into(),
            }
        }
        let targs: Vec<usize> = a.types().map(|t| self.ty(t)).collect();
        let cargs: Vec<String> = a.consts().map(|c| esc(&format!("{c}"))).collect();
        format!(
            "{{\"p\":{},\"h\":\"{}\",\"tr\":{},\"st\":{},\"r\":{},\"rh\":\"{}\",\"ta\":{},\"ca\":{}}}",
            esc(&p),
            h,
            esc(&tr),
            selft.map(|x| x.to_string()).unwrap_or("null".into()),
            esc(&res),
            resh,
            list(targs.iter().map(|x| x.to_string())),
            list(cargs.into_iter())
        )
    }
    fn operand(&mut self, body: &Body<'tcx>, o: &Operand<'tcx>, tenv: ty::TypingEnv<'tcx>) -> String {
        match o {
            Operand::Copy(p) | Operand::Move(p) => self.place(body, p),
            Operand::Constant(c) => self.constant(c, tenv),
            #[allow(unreachable_patterns)]
            _ => "{\"c\":\"other\",\"v\":\"?\",\"t\":0}".into(),
        }
    }
    fn rvalue(&mut self, body: &Body<'tcx>, r: &Rvalue<'tcx>, tenv: ty::TypingEnv<'tcx>) -> String {
        match r {
            Rvalue::Use(o, ..) => format!("[\"use\",{}]", self.operand(body, o, tenv)),
            Rvalue::Repeat(o, n) => format!("[\"repeat\",{},{}]", self.operand(body, o, tenv), esc(&format!("{n}"))),
            Rvalue::Ref(_, k, p) => format!("[\"ref\",{},{}]", self.place(body, p), matches!(k, BorrowKind::Mut { .. })),
            Rvalue::RawPtr(_, p) => format!("[\"ref\",{},true]", self.place(body, p)),
            Rvalue::Cast(k, o, t) => {
                let ti = self.ty(*t);
                format!("[\"cast\",{},{},{}]", self.operand(body, o, tenv), ti, esc(&format!("{k:?}")))
            }
            Rvalue::BinaryOp(op, ab) => format!(
                "[\"bin\",\"{:?}\",{},{}]",
                op,
                self.operand(body, &ab.0, tenv),
                self.operand(body, &ab.1, tenv)
            ),
            Rvalue::UnaryOp(op, o) => format!("[\"un\",{},{}]", esc(&format!("{op:?}")), self.operand(body, o, tenv)),
            Rvalue::Discriminant(p) => {
                let t = p.ty(&body.local_decls, self.tcx).ty;
                let ti = self.ty(t);
                format!("[\"discr\",{},{}]", self.place(body, p), ti)
            }
            Rvalue::Aggregate(k, ops) => {
                let kind = match &**k {
                    AggregateKind::Array(_) => "[\"array\"]".to_string(),
                    AggregateKind::Tuple => "[\"tuple\"]".to_string(),
                    AggregateKind::Adt(d, vi, _, _, _) => {
                        let ad = self.tcx.adt_def(*d);
                        let v = ad.variant(*vi);
                        let fs = list(v.fields.iter().map(|f| esc(f.name.as_str())));
                        format!("[\"adt\",{},{},{}]", esc(&self.path(*d)), esc(v.name.as_str()), fs)
                    }
                    AggregateKind::Closure(d, _) => {
                        let caps = d
                            .as_local()
                            .map(|l| {
                                list(self.tcx.closure_captures(l).iter().map(|c| esc(c.to_symbol().as_str())))
                            })
                            .unwrap_or("[]".into());
                        format!("[\"closure\",{},\"{}\",{}]", esc(&self.path(*d)), self.hash(*d), caps)
                    }
                    _ => "[\"other\"]".to_string(),
                };
                let ops: Vec<String> = ops.iter().map(|o| self.operand(body, o, tenv)).collect();
                format!("[\"agg\",{},{}]", kind, list(ops))
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",{}]", self.place(body, p)),
            x => format!("[\"other\",{}]", esc(&format!("{x:?}"))),
        }
    }
    fn body(&mut self, def: DefId, body: &Body<'tcx>, promoted: Option<usize>) -> String {
        let tcx = self.tcx;
        let tenv = ty::TypingEnv::post_analysis(tcx, def);
        let mut names: HashMap<usize, String> = HashMap::new();
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() {
                    names.entry(p.local.as_usize()).or_insert(v.name.to_string());
                }
            }
        }
        let locals: Vec<String> = body
            .local_decls
            .iter_enumerated()
            .map(|(l, d)| {
                let ti = self.ty(d.ty);
                match names.get(&l.as_usize()) {
                    Some(n) => format!("[{},{}]", ti, esc(n)),
                    None => format!("[{ti}]"),
                }
            })
            .collect();
        let mut blocks = vec![];
        for (_bb, data) in body.basic_blocks.iter_enumerated() {
            if data.is_cleanup {
                blocks.push("null".to_string());
                continue;
            }
            let mut ss = vec![];
            for s in &data.statements {
                match &s.kind {
                    StatementKind::Assign(pr) => {
                        let (p, r) = &**pr;
                        let line = self.line(s.source_info.span).1;
                        let ps = self.place(body, p);
                        let rs = self.rvalue(body, r, tenv);
                        ss.push(format!("[{},{},{}]", ps, rs, line));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let line = self.line(s.source_info.span).1;
                        let ps = self.place(body, place);
                        ss.push(format!("[{},[\"setdiscr\",{}],{}]", ps, variant_index.as_usize(), line));
                    }
                    _ => {}
                }
            }
            let t = data.terminator();
            let line = self.line(t.source_info.span).1;
            let ts = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let o = self.operand(body, discr, tenv);
                    let ti = self.ty(discr.ty(&body.local_decls, tcx));
                    let arms = list(targets.iter().map(|(v, b)| format!("[\"{}\",{}]", v, b.as_usize())));
                    format!("[\"switch\",{},{},{},{}]", o, arms, targets.otherwise().as_usize(), ti)
                }
                TerminatorKind::Return => "[\"return\"]".into(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                TerminatorKind::UnwindResume => "[\"resume\"]".into(),
                TerminatorKind::Drop { place, target, .. } => {
                    let ti = self.ty(place.ty(&body.local_decls, tcx).ty);
                    format!("[\"drop\",{},{},{}]", self.place(body, place), target.as_usize(), ti)
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = match func.const_fn_def() {
                        Some((d, a)) => self.callee(d, a, tenv),
                        None => format!("{{\"p\":\"\",\"ptr\":{}}}", self.operand(body, func, tenv)),
                    };
                    let ar: Vec<String> = args.iter().map(|a| self.operand(body, &a.node, tenv)).collect();
                    format!(
                        "[\"call\",{},{},{},{}]",
                        f,
                        list(ar),
                        self.place(body, destination),
                        target.map(|x| x.as_usize().to_string()).unwrap_or("null".into())
                    )
                }
                TerminatorKind::Assert { cond, target, msg, expected, .. } => {
                    let m = match &**msg {
                        AssertKind::BoundsCheck { .. } => "bounds",
                        AssertKind::Overflow(..) => "overflow",
                        AssertKind::OverflowNeg(..) => "overflow",
                        AssertKind::DivisionByZero(..) => "div0",
                        AssertKind::RemainderByZero(..) => "rem0",
                        _ => "other",
                    };
                    format!(
                        "[\"assert\",{},{},\"{}\",{}]",
                        self.operand(body, cond, tenv),
                        expected,
                        m,
                        target.as_usize()
                    )
                }
                TerminatorKind::FalseEdge { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                x => format!("[\"other\",{}]", esc(&format!("{x:?}").chars().take(60).collect::<String>())),
            };
            blocks.push(format!("{{\"s\":{},\"t\":{},\"l\":{}}}", list(ss), ts, line));
        }
        let (file, line) = self.line(tcx.def_span(def));
        let kind = match tcx.def_kind(def) {
            DefKind::Fn => "fn",
            DefKind::AssocFn => "method",
            DefKind::Closure => "closure",
            DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } => "const",
            DefKind::Ctor(..) => "ctor",
            _ => "other",
        };
        let mut extra = String::new();
        if let Some(imp) = tcx.impl_of_assoc(def) {
            let st = tcx.type_of(imp).instantiate_identity().skip_norm_wip();
            let sti = self.ty(st);
            let _ = write!(extra, ",\"self\":{}", sti);
            if let Some(tr) = tcx.impl_opt_trait_ref(imp) {
                let tr = tr.instantiate_identity().skip_norm_wip();
                let _ = write!(extra, ",\"trait\":{}", esc(&self.path(tr.def_id)));
                let tas: Vec<usize> = tr.args.types().skip(1).map(|t| self.ty(t)).collect();
                let _ = write!(extra, ",\"trait_args\":{}", list(tas.iter().map(|x| x.to_string())));
            }
            if tcx.is_automatically_derived(imp) {
                extra.push_str(",\"derived\":true");
            }
        } else if let Some(t) = tcx.trait_of_assoc(def) {
            let _ = write!(extra, ",\"default_of\":{}", esc(&self.path(t)));
        }
        if matches!(tcx.def_kind(def), DefKind::Closure) {
            let par = tcx.typeck_root_def_id(def);
            let _ = write!(extra, ",\"root\":{}", esc(&self.path(par)));
            let _ = write!(extra, ",\"rooth\":\"{}\"", self.hash(par));
        }
        if tcx.def_span(def).from_expansion() {
            extra.push_str(",\"exp\":true");
        }
        if matches!(tcx.def_kind(def), DefKind::Fn | DefKind::AssocFn) {
            let v = match tcx.visibility(def) {
                ty::Visibility::Public => "pub",
                ty::Visibility::Restricted(m) if m.is_crate_root() => "crate",
                _ => "priv",
            };
            let _ = write!(extra, ",\"vis\":\"{v}\"");
        }
        if let Some(p) = promoted {
            let _ = write!(extra, ",\"promoted\":{p}");
        }
        let nm = tcx.opt_item_name(def).map(|s| s.to_string()).unwrap_or_default();
        format!(
            "{{\"p\":{},\"h\":\"{}\",\"n\":{},\"k\":\"{}\",\"file\":{},\"line\":{},\"args\":{},\"locals\":{},\"b\":{}{}}}",
            esc(&self.path(def)),
            self.hash(def),
            esc(&nm),
            kind,
            esc(&file),
            line,
            body.arg_count,
            list(locals),
            list(blocks),
            extra
        )
    }
}

struct Cb;
impl rustc_driver::Callbacks for Cb {
    fn config(&mut self, config: &mut rustc_interface::Config) {
        config.opts.unstable_opts.mir_opt_level = Some(0);
    }
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> rustc_driver::Compilation {
        let krate = tcx.crate_name(LOCAL_CRATE).to_string();
        let dir = match std::env::var("VP_FACTS_DIR") {
            Ok(d) => d,
            Err(_) => return rustc_driver::Compilation::Continue,
        };
        if krate == "build_script_build" || tcx.sess.is_test_crate() {
            return rustc_driver::Compilation::Continue;
        }
        let mut cx = Cx { tcx, krate: krate.clone(), types: vec![], tmap: HashMap::new() };
        let mut bodies = vec![];
        for &ld in tcx.mir_keys(()) {
            let def = ld.to_def_id();
            match tcx.def_kind(def) {
                DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {
                    let b = tcx.mir_drops_elaborated_and_const_checked(ld);
                    if b.is_stolen() {
                        let b = tcx.optimized_mir(def);
                        bodies.push(cx.body(def, b, None));
                    } else {
                        let b = b.borrow();
                        bodies.push(cx.body(def, &b, None));
                    }
                    for (i, p) in tcx.promoted_mir(def).iter_enumerated() {
                        bodies.push(cx.body(def, p, Some(i.as_usize())));
                    }
                }
                DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } => {
                    let b = tcx.mir_for_ctfe(def);
                    bodies.push(cx.body(def, b, None));
                }
                _ => {}
            }
        }
        let mut adts = vec![];
        let mut impls = vec![];
        let mut traits = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            let def = id.to_def_id();
            match tcx.def_kind(def) {
                DefKind::Struct | DefKind::Enum => {
                    let ad = tcx.adt_def(def);
                    let mut vs = vec![];
                    for (vi, v) in ad.variants().iter_enumerated() {
                        let mut fs = vec![];
                        for f in &v.fields {
                            let ft = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                            let ti = cx.ty(ft);
                            fs.push(format!("[{},{}]", esc(f.name.as_str()), ti));
                        }
                        let d = if ad.is_enum() {
                            format!("{}", ad.discriminant_for_variant(tcx, vi).val)
                        } else {
                            "0".into()
                        };
                        vs.push(format!("[{},\"{}\",{}]", esc(v.name.as_str()), d, list(fs)));
                    }
                    let (file, line) = cx.line(tcx.def_span(def));
                    adts.push(format!(
                        "{{\"p\":{},\"h\":\"{}\",\"k\":\"{}\",\"v\":{},\"file\":{},\"line\":{}}}",
                        esc(&cx.path(def)),
                        cx.hash(def),
                        if ad.is_enum() { "enum" } else { "struct" },
                        list(vs),
                        esc(&file),
                        line
                    ));
                }
                DefKind::Impl { .. } => {
                    let st = tcx.type_of(def).instantiate_identity().skip_norm_wip();
                    let sti = cx.ty(st);
                    let tr = match tcx.impl_opt_trait_ref(def) {
                        Some(t) => {
                            let t = t.instantiate_identity().skip_norm_wip();
                            let s = with_no_visible_paths!(with_no_trimmed_paths!(with_crate_prefix!(format!("{}", t.print_only_trait_path()))));
                            (cx.path(t.def_id), cx.fix(s))
                        }
                        None => (String::new(), String::new()),
                    };
                    let items: Vec<String> = tcx
                        .associated_item_def_ids(def)
                        .iter()
                        .map(|d| {
                            format!(
                                "[{},\"{}\"]",
                                esc(&tcx.opt_item_name(*d).map(|s| s.to_string()).unwrap_or_default()),
                                cx.hash(*d)
                            )
                        })
                        .collect();
                    let (file, line) = cx.line(tcx.def_span(def));
                    impls.push(format!(
                        "{{\"t\":{},\"tf\":{},\"s\":{},\"i\":{},\"file\":{},\"line\":{},\"derived\":{}}}",
                        esc(&tr.0),
                        esc(&tr.1),
                        sti,
                        list(items),
                        esc(&file),
                        line,
                        tcx.is_automatically_derived(def)
                    ));
                }
                DefKind::Trait => {
                    let items: Vec<String> = tcx
                        .associated_item_def_ids(def)
                        .iter()
                        .map(|d| {
                            let ai = tcx.associated_item(*d);
                            format!(
                                "[{},\"{}\",{}]",
                                esc(&tcx.opt_item_name(*d).map(|s| s.to_string()).unwrap_or_default()),
                                cx.hash(*d),
                                ai.defaultness(tcx).has_value()
                            )
                        })
                        .collect();
                    traits.push(format!("{{\"p\":{},\"i\":{}}}", esc(&cx.path(def)), list(items)));
                }
                _ => {}
            }
        }
        let out = format!(
            "{{\"crate\":{},\"types\":{},\"bodies\":{},\"adts\":{},\"impls\":{},\"traits\":{}}}",
            esc(&krate),
            list(cx.types.iter().cloned()),
            list(bodies),
            list(adts),
            list(impls),
            list(traits)
        );
        let is_bin = tcx.crate_types().iter().any(|t| format!("{t:?}") == "Executable");
        let name = if is_bin { format!("{krate}.bin") } else { krate };
        std::fs::write(format!("{dir}/{name}.json"), out).expect("write facts");
        rustc_driver::Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the path to rustc
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1] == "rustc") {
        args.remove(1);
    }
    // coin-or-sys's build script compiles vendored C++ that is not checked out here. Only its (committed)
    // Rust bindings matter for type-checking, so its build script is replaced by an empty one.
    if let Ok(stub) = std::env::var("VP_STUB_BUILD") {
        for a in args.iter_mut() {
            if a.ends_with("coin-or-sys/build.rs") {
                *a = stub.clone();
            }
        }
    }
    std::process::exit(match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Cb))
    })) {
        Ok(c) if c == std::process::ExitCode::SUCCESS => 0,
        _ => 1,
    });
}
