// A rustc driver that writes, as JSON, the type-checked MIR of every local body of the
// crate under analysis (control flow, places, resolved callees, constants, types).
// It decides nothing: the rules are in /verif/engine.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_driver_impl;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_driver_impl::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_interface::interface::Compiler;
use rustc_middle::mir::*;
use rustc_middle::ty::{self, GenericArgKind, GenericArgsRef, Instance, Ty, TyCtxt, TyKind, TypingEnv};
use rustc_span::Span;
use std::collections::HashMap;
use std::fmt::Write as _;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<String>,
    tymap: HashMap<Ty<'tcx>, usize>,
    adts: Vec<DefId>,
    adtseen: HashMap<DefId, usize>,
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        self.tcx.def_path_str(d)
    }
    fn span(&self, s: Span) -> String {
        let sm = self.tcx.sess.source_map();
        let root = s.source_callsite();
        let lo = sm.lookup_char_pos(root.lo());
        let file = format!("{}", lo.file.name.prefer_local_unconditionally());
        let mut macs: Vec<String> = vec![];
        for e in s.macro_backtrace() {
            if let rustc_span::ExpnKind::Macro(_, name) = e.kind {
                let krate = e
                    .macro_def_id
                    .map(|d| self.tcx.crate_name(d.krate).to_string())
                    .unwrap_or_default();
                macs.push(format!("{}::{}", krate, name));
            } else if let rustc_span::ExpnKind::Desugaring(k) = e.kind {
                macs.push(format!("desugar::{:?}", k));
            }
        }
        format!(
            "[{},{},[{}]]",
            esc(&file),
            lo.line,
            macs.iter().map(|m| esc(m)).collect::<Vec<_>>().join(",")
        )
    }
    fn adt(&mut self, d: DefId) {
        if !self.adtseen.contains_key(&d) {
            self.adtseen.insert(d, self.adts.len());
            self.adts.push(d);
        }
    }
    fn args(&mut self, a: GenericArgsRef<'tcx>) -> String {
        let mut v: Vec<String> = vec![];
        for g in a.iter() {
            match g.kind() {
                GenericArgKind::Type(t) => v.push(format!("{}", self.ty(t))),
                GenericArgKind::Const(c) => v.push(esc(&format!("{}", c))),
                GenericArgKind::Lifetime(_) => {}
            }
        }
        format!("[{}]", v.join(","))
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(i) = self.tymap.get(&t) {
            return *i;
        }
        let idx = self.types.len();
        self.types.push(String::new());
        self.tymap.insert(t, idx);
        let s = match t.kind() {
            TyKind::Adt(def, args) => {
                self.adt(def.did());
                let a = self.args(args);
                format!("{{\"k\":\"adt\",\"path\":{},\"args\":{}}}", esc(&self.path(def.did())), a)
            }
            TyKind::Ref(_, inner, m) => {
                let i = self.ty(*inner);
                format!("{{\"k\":\"ref\",\"mut\":{},\"to\":{}}}", m.is_mut(), i)
            }
            TyKind::RawPtr(inner, m) => {
                let i = self.ty(*inner);
                format!("{{\"k\":\"ptr\",\"mut\":{},\"to\":{}}}", m.is_mut(), i)
            }
            TyKind::Slice(inner) => {
                let i = self.ty(*inner);
                format!("{{\"k\":\"slice\",\"to\":{}}}", i)
            }
            TyKind::Array(inner, n) => {
                let i = self.ty(*inner);
                format!("{{\"k\":\"array\",\"to\":{},\"len\":{}}}", i, esc(&format!("{}", n)))
            }
            TyKind::Tuple(ts) => {
                let v: Vec<String> = ts.iter().map(|t| self.ty(t).to_string()).collect();
                format!("{{\"k\":\"tuple\",\"args\":[{}]}}", v.join(","))
            }
            TyKind::FnDef(d, args) => {
                let a = self.args(args.skip_binder());
                format!("{{\"k\":\"fndef\",\"path\":{},\"args\":{}}}", esc(&self.path(*d)), a)
            }
            TyKind::Closure(d, _) => {
                let d: DefId = (*d).into();
                format!("{{\"k\":\"closure\",\"path\":{}}}", esc(&self.path(d)))
            }
            TyKind::Dynamic(..) => format!("{{\"k\":\"dyn\"}}"),
            TyKind::Param(p) => format!("{{\"k\":\"param\",\"name\":{}}}", esc(p.name.as_str())),
            TyKind::Alias(..) => "{\"k\":\"alias\"}".to_string(),
            TyKind::FnPtr(..) => "{\"k\":\"fnptr\"}".to_string(),
            TyKind::Never => "{\"k\":\"never\"}".to_string(),
            _ => "{\"k\":\"prim\"}".to_string(),
        };
        let full = format!("{{\"s\":{},{}", esc(&format!("{}", t)), &s[1..]);
        self.types[idx] = full;
        idx
    }
    fn place(&mut self, body: &Body<'tcx>, p: &Place<'tcx>) -> String {
        let mut proj: Vec<String> = vec![];
        let mut pty = PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            let s = match e {
                ProjectionElem::Deref => "[\"D\"]".to_string(),
                ProjectionElem::Field(f, t) => {
                    let mut owner = "null".to_string();
                    if let TyKind::Adt(def, _) = pty.ty.kind() {
                        self.adt(def.did());
                        owner = esc(&self.path(def.did()));
                    } else if let TyKind::Tuple(_) = pty.ty.kind() {
                        owner = "\"tuple\"".to_string();
                    } else if let TyKind::Closure(..) = pty.ty.kind() {
                        owner = "\"closure\"".to_string();
                    }
                    let vi = match pty.variant_index {
                        Some(v) => v.as_usize().to_string(),
                        None => "null".into(),
                    };
                    format!("[\"F\",{},{},{},{}]", f.as_usize(), owner, vi, self.ty(t))
                }
                ProjectionElem::Index(l) => format!("[\"I\",{}]", l.as_usize()),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    format!("[\"C\",{},{}]", offset, from_end)
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    format!("[\"S\",{},{},{}]", from, to, from_end)
                }
                ProjectionElem::Downcast(n, v) => {
                    let name = n.map(|s| s.to_string()).unwrap_or_default();
                    format!("[\"V\",{},{}]", v.as_usize(), esc(&name))
                }
                _ => "[\"O\"]".to_string(),
            };
            proj.push(s);
            pty = pty.projection_ty(self.tcx, e);
        }
        format!("[{},[{}]]", p.local.as_usize(), proj.join(","))
    }
    fn constant(&mut self, c: &ConstOperand<'tcx>, env: TypingEnv<'tcx>) -> String {
        let tcx = self.tcx;
        let t = c.const_.ty();
        let ti = self.ty(t);
        let mut extra = String::new();
        if let Const::Unevaluated(u, _) = c.const_ {
            if let Some(p) = u.promoted {
                let _ = write!(extra, ",\"promoted\":{}", p.as_usize());
            } else {
                let _ = write!(extra, ",\"path\":{}", esc(&self.path(u.def)));
            }
        }
        if let Const::Ty(_, k) = c.const_ {
            if let rustc_middle::ty::ConstKind::Param(p) = k.kind() {
                let _ = write!(extra, ",\"cpar\":{}", esc(p.name.as_str()));
            }
        }
        if let TyKind::FnDef(d, args) = t.kind() {
            let args = args.skip_binder();
            let _ = write!(extra, ",\"fn\":{}", self.callee(*d, args, env));
        } else {
            let size_ok = matches!(
                t.kind(),
                TyKind::Bool | TyKind::Char | TyKind::Int(_) | TyKind::Uint(_) | TyKind::Float(_)
            );
            if size_ok {
                if let Some(si) = c.const_.try_eval_scalar_int(tcx, env) {
                    let sz = si.size();
                    let bits = si.to_bits(sz);
                    match t.kind() {
                        TyKind::Int(_) => {
                            let v = sz.sign_extend(bits) as i128;
                            let _ = write!(extra, ",\"int\":\"{}\"", v);
                        }
                        TyKind::Float(f) => {
                            if f.bit_width() == 64 {
                                let _ = write!(extra, ",\"float\":\"{:?}\"", f64::from_bits(bits as u64));
                            } else if f.bit_width() == 32 {
                                let _ = write!(extra, ",\"float\":\"{:?}\"", f32::from_bits(bits as u32));
                            }
                        }
                        _ => {
                            let _ = write!(extra, ",\"int\":\"{}\"", bits);
                        }
                    }
                }
            } else if let TyKind::Ref(_, inner, _) = t.kind() {
                let is_str = inner.is_str();
                let is_bytes = matches!(inner.kind(), TyKind::Slice(e) if *e == tcx.types.u8);
                let is_arr = matches!(inner.kind(), TyKind::Array(e, _) if *e == tcx.types.u8);
                if is_arr {
                    if let Ok(ConstValue::Scalar(rustc_middle::mir::interpret::Scalar::Ptr(p, _))) = c.const_.eval(tcx, env, c.span) {
                        let (prov, off) = p.prov_and_relative_offset();
                        if let rustc_middle::mir::interpret::GlobalAlloc::Memory(a) =
                            tcx.global_alloc(prov.alloc_id())
                        {
                            let a = a.inner();
                            let o = off.bytes() as usize;
                            let b = a.inspect_with_uninit_and_ptr_outside_interpreter(o..a.len());
                            let hex: String = b.iter().map(|x| format!("{:02x}", x)).collect();
                            let _ = write!(extra, ",\"bytes\":\"{}\"", hex);
                        }
                    }
                }
                if is_str || is_bytes {
                    if let Ok(v) = c.const_.eval(tcx, env, c.span) {
                        if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                            let _ = write!(extra, ",\"str\":{}", esc(&String::from_utf8_lossy(b)));
                        }
                    }
                }
            }
        }
        format!("{{\"c\":1,\"ty\":{}{}}}", ti, extra)
    }
    fn callee(&mut self, d: DefId, args: GenericArgsRef<'tcx>, env: TypingEnv<'tcx>) -> String {
        let tcx = self.tcx;
        let mut s = format!("{{\"path\":{},\"args\":{}", esc(&self.path(d)), self.args(args));
        if let Some(tr) = tcx.trait_of_assoc(d) {
            let _ = write!(s, ",\"trait\":{},\"name\":{}", esc(&self.path(tr)), esc(tcx.item_name(d).as_str()));
            let selfty = args.type_at(0);
            let _ = write!(s, ",\"self\":{}", self.ty(selfty));
        }
        if let Some(im) = tcx.impl_of_assoc(d) {
            let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
            let _ = write!(s, ",\"impl\":{}", self.ty(st));
        }
        let kind = tcx.def_kind(d);
        if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
            let a = tcx.erase_and_anonymize_regions(args);
            if let Ok(Some(inst)) = Instance::try_resolve(tcx, env, d, a) {
                let rd = inst.def_id();
                let _ = write!(s, ",\"res\":{},\"local\":{}", esc(&self.path(rd)), rd.is_local());
                if rd.is_local() {
                    let _ = write!(s, ",\"resid\":{}", esc(&self.id(rd)));
                }
                let ra = self.args(inst.args);
                let _ = write!(s, ",\"rargs\":{}", ra);
            }
        } else if matches!(kind, DefKind::Ctor(..)) {
            let p = tcx.parent(d);
            let _ = write!(s, ",\"ctor\":{}", esc(&self.path(p)));
        }
        s.push('}');
        s
    }
    fn id(&self, d: DefId) -> String {
        // unique key of a local definition
        format!("{}#{}", self.path(d), d.index.as_usize())
    }
    fn operand(&mut self, b: &Body<'tcx>, o: &Operand<'tcx>, env: TypingEnv<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("{{\"p\":{},\"m\":0}}", self.place(b, p)),
            Operand::Move(p) => format!("{{\"p\":{},\"m\":1}}", self.place(b, p)),
            Operand::Constant(c) => self.constant(c, env),
            _ => "{\"rt\":1}".to_string(),
        }
    }
    fn rvalue(&mut self, b: &Body<'tcx>, r: &Rvalue<'tcx>, env: TypingEnv<'tcx>) -> String {
        match r {
            Rvalue::Use(o, ..) => format!("[\"use\",{}]", self.operand(b, o, env)),
            Rvalue::Repeat(o, n) => {
                format!("[\"repeat\",{},{}]", self.operand(b, o, env), esc(&format!("{}", n)))
            }
            Rvalue::Ref(_, k, p) => {
                let m = matches!(k, BorrowKind::Mut { .. });
                format!("[\"ref\",{},{}]", m, self.place(b, p))
            }
            Rvalue::Reborrow(_, m, p) => format!("[\"ref\",{},{}]", m.is_mut(), self.place(b, p)),
            Rvalue::RawPtr(k, p) => {
                format!("[\"rawptr\",{},{}]", esc(&format!("{:?}", k)), self.place(b, p))
            }
            Rvalue::Cast(k, o, t) => format!(
                "[\"cast\",{},{},{}]",
                esc(&format!("{:?}", k)),
                self.operand(b, o, env),
                self.ty(*t)
            ),
            Rvalue::BinaryOp(op, ab) => format!(
                "[\"bin\",{},{},{}]",
                esc(&format!("{:?}", op)),
                self.operand(b, &ab.0, env),
                self.operand(b, &ab.1, env)
            ),
            Rvalue::UnaryOp(op, o) => {
                format!("[\"un\",{},{}]", esc(&format!("{:?}", op)), self.operand(b, o, env))
            }
            Rvalue::Discriminant(p) => {
                let t = p.ty(&b.local_decls, self.tcx).ty;
                let ti = self.ty(t);
                format!("[\"discr\",{},{}]", self.place(b, p), ti)
            }
            Rvalue::Aggregate(k, ops) => {
                let os: Vec<String> = ops.iter().map(|o| self.operand(b, o, env)).collect();
                let ks = match &**k {
                    AggregateKind::Array(t) => format!("{{\"k\":\"array\",\"ty\":{}}}", self.ty(*t)),
                    AggregateKind::Tuple => "{\"k\":\"tuple\"}".to_string(),
                    AggregateKind::Adt(d, v, a, _, _) => {
                        self.adt(*d);
                        let vn = self.tcx.adt_def(*d).variant(*v).name.to_string();
                        format!(
                            "{{\"k\":\"adt\",\"path\":{},\"variant\":{},\"vname\":{},\"args\":{}}}",
                            esc(&self.path(*d)),
                            v.as_usize(),
                            esc(&vn),
                            self.args(a)
                        )
                    }
                    AggregateKind::Closure(d, _) => {
                        format!("{{\"k\":\"closure\",\"id\":{}}}", esc(&self.id(*d)))
                    }
                    other => format!("{{\"k\":\"other\",\"s\":{}}}", esc(&format!("{:?}", other))),
                };
                format!("[\"agg\",{},[{}]]", ks, os.join(","))
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",{{\"p\":{},\"m\":0}}]", self.place(b, p)),
            other => format!("[\"other\",{}]", esc(&format!("{:?}", other))),
        }
    }
    fn body(&mut self, b: &Body<'tcx>, env: TypingEnv<'tcx>) -> String {
        let mut o = String::from("{\"locals\":[");
        for (i, l) in b.local_decls.iter().enumerate() {
            if i > 0 {
                o.push(',');
            }
            let _ = write!(o, "{}", self.ty(l.ty));
        }
        let _ = write!(o, "],\"argc\":{},\"names\":[", b.arg_count);
        let mut first = true;
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if !first {
                    o.push(',');
                }
                first = false;
                let _ = write!(o, "[{},{}]", esc(v.name.as_str()), self.place(b, p));
            }
        }
        o.push_str("],\"blocks\":[");
        for (bi, bb) in b.basic_blocks.iter().enumerate() {
            if bi > 0 {
                o.push(',');
            }
            let _ = write!(o, "{{\"cleanup\":{},\"s\":[", bb.is_cleanup);
            let mut first = true;
            for s in &bb.statements {
                let txt = match &s.kind {
                    StatementKind::Assign(pr) => {
                        format!("[\"=\",{},{}", self.place(b, &pr.0), self.rvalue(b, &pr.1, env))
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        format!("[\"setd\",{},{}", self.place(b, place), variant_index.as_usize())
                    }
                    StatementKind::StorageDead(l) => format!("[\"dead\",{}", l.as_usize()),
                    StatementKind::StorageLive(l) => format!("[\"live\",{}", l.as_usize()),
                    StatementKind::Intrinsic(i) => format!("[\"intr\",{}", esc(&format!("{:?}", i))),
                    _ => continue,
                };
                if !first {
                    o.push(',');
                }
                first = false;
                let _ = write!(o, "{},{}]", txt, self.span(s.source_info.span));
            }
            o.push_str("],\"t\":");
            let term = bb.terminator();
            let sp = self.span(term.source_info.span);
            let txt = match &term.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}", target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let dty = discr.ty(&b.local_decls, self.tcx);
                    let ti = self.ty(dty);
                    let vs: Vec<String> =
                        targets.iter().map(|(v, t)| format!("[\"{}\",{}]", v, t.as_usize())).collect();
                    format!(
                        "[\"switch\",{},[{}],{},{}",
                        self.operand(b, discr, env),
                        vs.join(","),
                        targets.otherwise().as_usize(),
                        ti
                    )
                }
                TerminatorKind::Return => "[\"ret\"".to_string(),
                TerminatorKind::Unreachable => "[\"unreach\"".to_string(),
                TerminatorKind::UnwindResume => "[\"resume\"".to_string(),
                TerminatorKind::UnwindTerminate(..) => "[\"abort\"".to_string(),
                TerminatorKind::Drop { place, target, .. } => {
                    let t = place.ty(&b.local_decls, self.tcx).ty;
                    let ti = self.ty(t);
                    format!("[\"drop\",{},{},{}", self.place(b, place), target.as_usize(), ti)
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let a: Vec<String> = args.iter().map(|x| self.operand(b, &x.node, env)).collect();
                    let f = self.operand(b, func, env);
                    let dst = self.place(b, destination);
                    let tg = match target {
                        Some(t) => t.as_usize().to_string(),
                        None => "null".to_string(),
                    };
                    format!("[\"call\",{},[{}],{},{}", f, a.join(","), dst, tg)
                }
                TerminatorKind::Assert { cond, expected, target, msg, .. } => {
                    let m = match &**msg {
                        AssertKind::BoundsCheck { len, index } => format!(
                            "[\"bounds\",{},{}]",
                            self.operand(b, len, env),
                            self.operand(b, index, env)
                        ),
                        AssertKind::Overflow(op, ..) => format!("[\"overflow\",{}]", esc(&format!("{:?}", op))),
                        AssertKind::OverflowNeg(..) => "[\"overflow\",\"Neg\"]".to_string(),
                        AssertKind::DivisionByZero(..) | AssertKind::RemainderByZero(..) => "[\"divzero\"]".to_string(),
                        _ => "[\"other\"]".to_string(),
                    };
                    format!(
                        "[\"assert\",{},{},{},{}",
                        self.operand(b, cond, env),
                        expected,
                        m,
                        target.as_usize()
                    )
                }
                TerminatorKind::FalseEdge { real_target, .. } => format!("[\"goto\",{}", real_target.as_usize()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{}", real_target.as_usize()),
                other => format!("[\"other\",{}", esc(&format!("{:?}", other))),
            };
            let _ = write!(o, "{},{}]}}", txt, sp);
        }
        o.push_str("]}");
        o
    }
}

struct Dump {
    out: String,
}

impl Callbacks for Dump {
    fn after_analysis<'tcx>(&mut self, _c: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let mut cx = Cx { tcx, types: vec![], tymap: HashMap::new(), adts: vec![], adtseen: HashMap::new() };
        let ev = tcx.effective_visibilities(());
        let mut bodies: Vec<String> = vec![];
        let mut keys: Vec<_> = tcx.mir_keys(()).iter().copied().collect();
        keys.sort_by_key(|k| k.to_def_id().index.as_usize());
        for k in keys {
            let did = k.to_def_id();
            let kind = tcx.def_kind(did);
            let is_fn = matches!(kind, DefKind::Fn | DefKind::AssocFn | DefKind::Closure);
            if !is_fn {
                continue;
            }
            let env = TypingEnv::post_analysis(tcx, did);
            let body = tcx.optimized_mir(did);
            let b = cx.body(body, env);
            let proms: Vec<String> = tcx.promoted_mir(did).iter().map(|p| cx.body(p, env)).collect();
            let parent = tcx.parent(did);
            let name = tcx.opt_item_name(did).map(|s| s.to_string()).unwrap_or_default();
            let mut imp = String::new();
            if let Some(im) = tcx.impl_of_assoc(did) {
                let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                let _ = write!(imp, ",\"impl_self\":{}", cx.ty(st));
                if tcx.is_builtin_derived(im) {
                    imp.push_str(",\"derived\":true");
                }
                if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                    let tr = tr.instantiate_identity().skip_norm_wip();
                    let _ = write!(imp, ",\"impl_trait\":{},\"impl_trait_args\":{}", esc(&cx.path(tr.def_id)), cx.args(tr.args));
                }
            }
            if let Some(t) = tcx.trait_of_assoc(did) {
                let _ = write!(imp, ",\"in_trait\":{}", esc(&cx.path(t)));
            }
            let exported = ev.is_exported(k);
            let reachable = ev.is_reachable(k);
            let unsf = if matches!(kind, DefKind::Closure) {
                false
            } else {
                tcx.fn_sig(did).skip_binder().safety().is_unsafe()
            };
            let extc = if matches!(kind, DefKind::Closure) {
                false
            } else {
                tcx.codegen_fn_attrs(did).flags.contains(rustc_middle::middle::codegen_fn_attrs::CodegenFnAttrFlags::NO_MANGLE)
            };
            // names of the generic parameters (lifetimes left out) in the order of the arguments
            let mut gens: Vec<String> = vec![];
            let mut gd = Some(did);
            let mut chain = vec![];
            while let Some(d) = gd {
                let g = tcx.generics_of(d);
                chain.push(g);
                gd = g.parent;
            }
            for g in chain.iter().rev() {
                for p in &g.own_params {
                    if !matches!(p.kind, ty::GenericParamDefKind::Lifetime) {
                        gens.push(esc(p.name.as_str()));
                    }
                }
            }
            let sp = cx.span(tcx.def_span(did));
            bodies.push(format!(
                "{{\"generics\":[{}],\"id\":{},\"path\":{},\"name\":{},\"kind\":{},\"parent\":{},\"exported\":{},\"reachable\":{},\"unsafe\":{},\"no_mangle\":{},\"span\":{}{},\"body\":{},\"promoted\":[{}]}}",
                gens.join(","),
                esc(&cx.id(did)),
                esc(&cx.path(did)),
                esc(&name),
                esc(&format!("{:?}", kind)),
                esc(&cx.id(parent)),
                exported,
                reachable,
                unsf,
                extc,
                sp,
                imp,
                b,
                proms.join(",")
            ));
        }
        // adt table (grows while field types are added)
        let mut adts: Vec<String> = vec![];
        let mut i = 0;
        while i < cx.adts.len() {
            let d = cx.adts[i];
            i += 1;
            let def = tcx.adt_def(d);
            let local = d.is_local();
            let mut vs: Vec<String> = vec![];
            for (vi, v) in def.variants().iter_enumerated() {
                let mut fs: Vec<String> = vec![];
                for f in v.fields.iter() {
                    let vis = match f.vis {
                        ty::Visibility::Public => "pub".to_string(),
                        ty::Visibility::Restricted(m) => tcx.def_path_str(m),
                    };
                    let t = if local {
                        let ft = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                        cx.ty(ft).to_string()
                    } else {
                        "null".into()
                    };
                    fs.push(format!("[{},{},{}]", esc(f.name.as_str()), t, esc(&vis)));
                }
                let disc = if def.is_enum() { def.discriminant_for_variant(tcx, vi).val.to_string() } else { "0".into() };
                vs.push(format!("[{},[{}],\"{}\"]", esc(v.name.as_str()), fs.join(","), disc));
            }
            let attrs_exported = d.as_local().map(|l| ev.is_exported(l)).unwrap_or(true);
            let repr_c = def.repr().c();
            let has_drop = tcx.adt_destructor(d).is_some();
            adts.push(format!(
                "{{\"path\":{},\"local\":{},\"kind\":{},\"exported\":{},\"repr_c\":{},\"has_drop\":{},\"variants\":[{}]}}",
                esc(&cx.path(d)),
                local,
                esc(if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" }),
                attrs_exported,
                repr_c,
                has_drop,
                vs.join(",")
            ));
        }
        let out = format!(
            "{{\"types\":[{}],\n\"adts\":[{}],\n\"bodies\":[{}]}}\n",
            cx.types.join(",\n"),
            adts.join(",\n"),
            bodies.join(",\n")
        );
        std::fs::write(&self.out, out).expect("cannot write the MIR dump");
        Compilation::Continue
    }
}

struct Plain;
impl Callbacks for Plain {}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER calls us as: <driver> <rustc> <args...>
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("rustc")) {
        args.remove(1);
    }
    let out = std::env::var("HNSW_MIR_OUT").unwrap_or_default();
    let want = args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == "hnsw_rs")
        && !args.iter().any(|a| a == "--test");
    if want && !out.is_empty() {
        args.push("-Zmir-opt-level=0".into());
        args.push("-Cdebug-assertions=off".into());
        args.push("-Coverflow-checks=off".into());
        let mut cb = Dump { out };
        rustc_driver_impl::catch_with_exit_code(|| rustc_driver_impl::compiler_entrypoint(&args, &mut cb))
    } else {
        rustc_driver_impl::catch_with_exit_code(|| rustc_driver_impl::compiler_entrypoint(&args, &mut Plain))
    }
}
