use std::collections::HashMap;
use std::fmt::Write as _;
use std::io::Write as _;
use rustc_ast::attr::AttributeExt as _;

use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::*;
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypeVisitableExt, TypingEnv};
use rustc_span::{ExpnKind, Span};

pub fn esc(s: &str, o: &mut String) {
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
}
fn q(s: &str) -> String { let mut o = String::new(); esc(s, &mut o); o }

pub struct D<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: HashMap<String, usize>,
    ty_list: Vec<String>,
    ty_cache: HashMap<Ty<'tcx>, usize>,
    canon_cache: HashMap<DefId, String>,
    files: HashMap<String, usize>,
    file_list: Vec<String>,
}

impl<'tcx> D<'tcx> {
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(i) = self.ty_cache.get(&t) { return *i; }
        let s = with_no_trimmed_paths!(format!("{t}"));
        let s: String = if s.len() > 1500 { s.chars().take(1500).collect() } else { s };
        let i = self.intern(s);
        self.ty_cache.insert(t, i);
        i
    }
    fn intern(&mut self, s: String) -> usize {
        if let Some(i) = self.tys.get(&s) { *i } else {
            let i = self.ty_list.len();
            self.tys.insert(s.clone(), i);
            self.ty_list.push(s);
            i
        }
    }
    fn file(&mut self, s: String) -> usize {
        if let Some(i) = self.files.get(&s) { *i } else {
            let i = self.file_list.len();
            self.files.insert(s.clone(), i);
            self.file_list.push(s);
            i
        }
    }
    pub fn canon(&mut self, id: DefId) -> String {
        if let Some(s) = self.canon_cache.get(&id) { return s.clone(); }
        let s = self.canon0(id);
        self.canon_cache.insert(id, s.clone());
        s
    }
    fn ty_name(&mut self, t: Ty<'tcx>) -> String {
        match t.kind() {
            ty::Adt(d, _) => self.canon(d.did()),
            ty::Ref(_, t, m) => format!("&{}{}", if m.is_mut() { "mut " } else { "" }, self.ty_name(*t)),
            ty::Dynamic(p, ..) => match p.principal_def_id() { Some(d) => format!("dyn {}", self.canon(d)), None => "dyn".into() },
            _ => with_no_trimmed_paths!(format!("{t}")),
        }
    }
    fn canon0(&mut self, id: DefId) -> String {
        let tcx = self.tcx;
        if id.is_crate_root() { return tcx.crate_name(id.krate).to_string(); }
        let key = tcx.def_key(id);
        if let DefKind::Impl { .. } = tcx.def_kind(id) {
            let st = tcx.type_of(id).instantiate_identity().skip_norm_wip();
            let sn = self.ty_name(st);
            return match tcx.impl_opt_trait_ref(id) {
                Some(t) => {
                    let t = t.skip_binder();
                    let tn = self.canon(t.def_id);
                    let tas: Vec<String> = t.args.types().skip(1).map(|a| self.ty_name(a)).collect();
                    if tas.is_empty() { format!("<{sn} as {tn}>") } else { format!("<{sn} as {tn}<{}>>", tas.join(",")) }
                }
                None => sn,
            };
        }
        let parent = match key.parent { Some(p) => DefId { krate: id.krate, index: p }, None => return tcx.crate_name(id.krate).to_string() };
        let p = self.canon(parent);
        let d = &key.disambiguated_data;
        match d.data.get_opt_name() {
            Some(n) => format!("{p}::{n}"),
            None => format!("{p}::{}", d.as_sym(true)),
        }
    }
    fn line(&self, sp: Span) -> usize {
        let sp = sp.source_callsite();
        if sp.is_dummy() { return 0; }
        self.tcx.sess.source_map().lookup_char_pos(sp.lo()).line
    }
    fn macs(&self, sp: Span) -> String {
        let mut v = vec![];
        for e in sp.macro_backtrace() {
            if let ExpnKind::Macro(_, n) = e.kind { v.push(n.to_string()); }
        }
        v.join(">")
    }
    fn file_of(&mut self, sp: Span) -> usize {
        let sp = sp.source_callsite();
        let f = self.tcx.sess.source_map().lookup_source_file(sp.lo());
        let s = real_name(&f);
        self.file(s)
    }

    fn place(&mut self, body: &Body<'tcx>, p: &Place<'tcx>) -> String {
        let mut s = format!("{}", p.local.as_usize());
        let mut pt = PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            match e {
                ProjectionElem::Deref => s.push('*'),
                ProjectionElem::Field(f, fty) => {
                    let mut name = format!("{}", f.as_usize());
                    if let ty::Adt(ad, _) = pt.ty.kind() {
                        let vi = pt.variant_index.unwrap_or(rustc_abi::VariantIdx::from_u32(0));
                        if vi.as_usize() < ad.variants().len() {
                            let v = &ad.variants()[vi];
                            if f.as_usize() < v.fields.len() { name = v.fields[f].name.to_string(); }
                        }
                    }
                    let _ = write!(s, ".{name}");
                    pt = PlaceTy::from_ty(fty);
                    continue;
                }
                ProjectionElem::Downcast(n, vi) => {
                    let nm = match n { Some(n) => n.to_string(), None => {
                        if let ty::Adt(ad, _) = pt.ty.kind() { ad.variants()[vi].name.to_string() } else { format!("{}", vi.as_usize()) } } };
                    let _ = write!(s, "@{nm}");
                }
                ProjectionElem::Index(l) => { let _ = write!(s, "[{}]", l.as_usize()); }
                ProjectionElem::ConstantIndex { .. } => s.push_str("[c]"),
                ProjectionElem::Subslice { .. } => s.push_str("[s]"),
                _ => {}
            }
            if !pt.ty.has_escaping_bound_vars() {
                pt = pt.projection_ty(self.tcx, e);
            }
        }
        s
    }
    fn operand(&mut self, body: &Body<'tcx>, env: TypingEnv<'tcx>, o: &Operand<'tcx>, out: &mut String) {
        match o {
            Operand::Copy(p) => { let _ = write!(out, "[\"c\",{}]", q(&self.place(body, p))); }
            Operand::Move(p) => { let _ = write!(out, "[\"m\",{}]", q(&self.place(body, p))); }
            Operand::Constant(c) => {
                let t = c.const_.ty();
                match t.kind() {
                    ty::FnDef(did, args) => {
                        let cn = self.canon(*did);
                        let _ = write!(out, "[\"f\",{},", q(&cn));
                        self.callee(env, *did, args.no_bound_vars().unwrap(), out);
                        out.push(']');
                    }
                    _ => {
                        let mut named = String::new();
                        if let Const::Unevaluated(u, _) = c.const_ { named = if u.promoted.is_some() { "promoted".into() } else { self.canon(u.def) }; }
                        let disp = with_no_trimmed_paths!(format!("{}", c.const_));
                        let disp = if !named.is_empty() && !t.has_param() && matches!(t.kind(), ty::Ref(_, x, _) if x.is_str()) && !c.const_.has_param() {
                            match c.const_.eval(self.tcx, env, c.span) {
                                Ok(v) => match v.try_get_slice_bytes_for_diagnostics(self.tcx) {
                                    Some(b) => format!("{:?}", String::from_utf8_lossy(b)),
                                    None => disp,
                                },
                                Err(_) => disp,
                            }
                        } else { disp };
                        let disp: String = if disp.len() > 400 { disp.chars().take(400).collect() } else { disp };
                        let val = if (t.is_integral() || t.is_bool() || t.is_char()) && !t.has_param() && !c.const_.has_param() {
                            c.const_.try_eval_bits(self.tcx, env).map(|b| {
                                if t.is_signed() {
                                    let sz = match t.kind() { ty::Int(i) => i.bit_width().unwrap_or(64) as u32, _ => 64 };
                                    let sh = 128 - sz;
                                    format!("{}", ((b << sh) as i128) >> sh)
                                } else { format!("{b}") }
                            })
                        } else { None };
                        let ti = self.ty(t);
                        let _ = write!(out, "[\"k\",{},{ti},{},{}]", q(&disp), q(&named), val.map(|v| q(&v)).unwrap_or("null".into()));
                    }
                }
            }
            _ => out.push_str("[\"k\",\"runtimecheck\",0,\"\",null]"),
        }
    }
    // emits: resolved-or-null, selfty-or-null, [generic type args]
    fn callee(&mut self, env: TypingEnv<'tcx>, did: DefId, args: ty::GenericArgsRef<'tcx>, out: &mut String) {
        let tcx = self.tcx;
        let mut res = "null".to_string();
        let mut trait_self = "null".to_string();
        if let Some(ai) = tcx.opt_associated_item(did) {
            let is_trait = tcx.trait_of_assoc(did).is_some();
            if is_trait {
                let _ = ai;
                let st = args.type_at(0);
                let n = self.ty(st);
                trait_self = format!("{n}");
                if !args.has_escaping_bound_vars() && !args.has_non_region_infer() {
                    let a = tcx.erase_and_anonymize_regions(args);
                    if let Ok(Some(i)) = Instance::try_resolve(tcx, env, did, a) {
                        if let ty::InstanceKind::Item(d) = i.def {
                            if d != did { res = q(&self.canon(d)); }
                        } else if let ty::InstanceKind::Virtual(..) = i.def {
                            res = "\"dyn\"".into();
                        }
                    }
                }
            }
        }
        let _ = write!(out, "{res},{trait_self},[");
        let mut first = true;
        for a in args.types() {
            if !first { out.push(','); }
            first = false;
            let n = self.ty(a);
            let _ = write!(out, "{n}");
        }
        out.push(']');
    }
    fn rvalue(&mut self, body: &Body<'tcx>, env: TypingEnv<'tcx>, r: &Rvalue<'tcx>, out: &mut String) {
        match r {
            Rvalue::Use(o, ..) => { out.push_str("[\"use\","); self.operand(body, env, o, out); out.push(']'); }
            Rvalue::Repeat(o, _) => { out.push_str("[\"rep\","); self.operand(body, env, o, out); out.push(']'); }
            Rvalue::Ref(_, k, p) => {
                let m = match k { BorrowKind::Mut { .. } => 1, BorrowKind::Shared => 0, _ => 2 };
                let _ = write!(out, "[\"ref\",{m},{}]", q(&self.place(body, p)));
            }
            Rvalue::RawPtr(_, p) => { let _ = write!(out, "[\"ref\",1,{}]", q(&self.place(body, p))); }
            Rvalue::Reborrow(_, _, p) => { let _ = write!(out, "[\"ref\",1,{}]", q(&self.place(body, p))); }
            Rvalue::CopyForDeref(p) => { let _ = write!(out, "[\"use\",[\"c\",{}]]", q(&self.place(body, p))); }
            Rvalue::Cast(k, o, t) => {
                let ks = format!("{k:?}");
                let ks: String = ks.chars().take(40).collect();
                let _ = write!(out, "[\"cast\",{},", q(&ks));
                self.operand(body, env, o, out);
                let n = self.ty(*t);
                let _ = write!(out, ",{n}]");
            }
            Rvalue::BinaryOp(op, b) => {
                let _ = write!(out, "[\"bin\",\"{op:?}\",");
                self.operand(body, env, &b.0, out); out.push(',');
                self.operand(body, env, &b.1, out); out.push(']');
            }
            Rvalue::UnaryOp(op, o) => { let _ = write!(out, "[\"un\",\"{op:?}\","); self.operand(body, env, o, out); out.push(']'); }
            Rvalue::Discriminant(p) => { let _ = write!(out, "[\"disc\",{}]", q(&self.place(body, p))); }
            Rvalue::Aggregate(k, ops) => {
                let mut fields: Vec<String> = vec![];
                let ks = match &**k {
                    AggregateKind::Array(_) => "[]".to_string(),
                    AggregateKind::Tuple => "()".to_string(),
                    AggregateKind::Adt(d, vi, _, _, _) => {
                        let ad = self.tcx.adt_def(*d);
                        let v = &ad.variants()[*vi];
                        fields = v.fields.iter().map(|f| f.name.to_string()).collect();
                        let c = self.canon(*d);
                        if ad.is_enum() { format!("{c}::{}", v.name) } else { c }
                    }
                    AggregateKind::Closure(d, _) => format!("closure:{}", self.canon(*d)),
                    AggregateKind::Coroutine(d, _) => format!("coroutine:{}", self.canon(*d)),
                    AggregateKind::CoroutineClosure(d, _) => format!("closure:{}", self.canon(*d)),
                    AggregateKind::RawPtr(..) => "rawptr".into(),
                };
                let _ = write!(out, "[\"agg\",{},[", q(&ks));
                for (i, o) in ops.iter().enumerate() { if i > 0 { out.push(','); } self.operand(body, env, o, out); }
                out.push_str("],[");
                for (i, f) in fields.iter().enumerate() { if i > 0 { out.push(','); } out.push_str(&q(f)); }
                out.push_str("]]");
            }
            _ => out.push_str("[\"other\"]"),
        }
    }

    fn body(&mut self, def: rustc_hir::def_id::LocalDefId, body: &Body<'tcx>, out: &mut String) {
        let tcx = self.tcx;
        let did = def.to_def_id();
        let env = TypingEnv::post_analysis(tcx, did);
        let kind = tcx.def_kind(did);
        let name = self.canon(did);
        let ckind = if let Some(k) = tcx.coroutine_kind(did) { format!("{k:?}") } else { String::new() };
        let parent = tcx.opt_parent(did).map(|p| self.canon(p)).unwrap_or_default();
        let typeck_root = self.canon(tcx.typeck_root_def_id(did));
        let span = tcx.def_span(did);
        let file = self.file_of(body.span);
        let lo = self.line(span);
        let hi = { let sp = body.span.source_callsite(); tcx.sess.source_map().lookup_char_pos(sp.hi()).line };
        let tainted = body.tainted_by_errors.is_some();
        let _ = write!(out, "{{\"id\":{},\"kind\":\"{:?}\",\"co\":{},\"parent\":{},\"root\":{},\"file\":{file},\"lo\":{lo},\"hi\":{hi},\"tainted\":{tainted},\"argc\":{}", q(&name), kind, q(&ckind), q(&parent), q(&typeck_root), body.arg_count);
        let is_async = matches!(kind, DefKind::Fn | DefKind::AssocFn) && tcx.asyncness(did).is_async();
        let vis = if matches!(kind, DefKind::Fn | DefKind::AssocFn) { tcx.visibility(did).is_public() } else { false };
        let _ = write!(out, ",\"async\":{is_async},\"pub\":{vis}");
        // locals
        out.push_str(",\"locals\":[");
        for (i, l) in body.local_decls.iter().enumerate() {
            if i > 0 { out.push(','); }
            let n = self.ty(l.ty);
            let _ = write!(out, "{n}");
        }
        out.push_str("],\"names\":{");
        let mut first = true;
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if !first { out.push(','); }
                first = false;
                let pl = self.place(body, p);
                let _ = write!(out, "{}:{}", q(&pl), q(v.name.as_str()));
            }
        }
        out.push_str("},\"blocks\":[");
        for (bi, bb) in body.basic_blocks.iter().enumerate() {
            if bi > 0 { out.push(','); }
            let _ = write!(out, "{{\"c\":{},\"s\":[", if bb.is_cleanup { 1 } else { 0 });
            let mut fs = true;
            for st in &bb.statements {
                let mut o = String::new();
                match &st.kind {
                    StatementKind::Assign(b) => {
                        let (p, r) = &**b;
                        if matches!(r, Rvalue::Ref(_, BorrowKind::Fake(_), _)) { continue; }
                        let pl = self.place(body, p);
                        let _ = write!(o, "[\"=\",{},", q(&pl));
                        self.rvalue(body, env, r, &mut o);
                        let _ = write!(o, ",{}]", self.line(st.source_info.span));
                    }
                    StatementKind::StorageDead(l) => { let _ = write!(o, "[\"dead\",{}]", l.as_usize()); }
                    _ => continue,
                }
                if !fs { out.push(','); }
                fs = false;
                out.push_str(&o);
            }
            out.push_str("],\"t\":");
            if let Some(t) = &bb.terminator { self.term(body, env, t, out); } else { out.push_str("[\"none\"]"); }
            out.push('}');
        }
        out.push_str("]}");
    }
    fn term(&mut self, body: &Body<'tcx>, env: TypingEnv<'tcx>, t: &Terminator<'tcx>, out: &mut String) {
        let ln = self.line(t.source_info.span);
        match &t.kind {
            TerminatorKind::Goto { target, .. } => { let _ = write!(out, "[\"goto\",{}]", target.as_usize()); }
            TerminatorKind::SwitchInt { discr, targets } => {
                out.push_str("[\"switch\",");
                self.operand(body, env, discr, out);
                out.push_str(",[");
                for (i, (v, b)) in targets.iter().enumerate() { if i > 0 { out.push(','); } let _ = write!(out, "[\"{v}\",{}]", b.as_usize()); }
                let _ = write!(out, "],{},{ln}]", targets.otherwise().as_usize());
            }
            TerminatorKind::Return => out.push_str("[\"ret\"]"),
            TerminatorKind::Unreachable => out.push_str("[\"unreachable\"]"),
            TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) | TerminatorKind::CoroutineDrop => out.push_str("[\"unwind\"]"),
            TerminatorKind::Drop { place, target, unwind, .. } => {
                let p = self.place(body, place);
                let _ = write!(out, "[\"drop\",{},{},{},{ln}]", q(&p), target.as_usize(), uw(unwind));
            }
            TerminatorKind::Call { func, args, destination, target, unwind, fn_span, .. } => {
                out.push_str("[\"call\",");
                self.operand(body, env, func, out);
                out.push_str(",[");
                for (i, a) in args.iter().enumerate() { if i > 0 { out.push(','); } self.operand(body, env, &a.node, out); }
                let p = self.place(body, destination);
                let m = self.macs(t.source_info.span);
                let fl = self.line(*fn_span);
                let _ = write!(out, "],{},{},{},{},{}]", q(&p), target.map(|t| t.as_usize().to_string()).unwrap_or("null".into()), uw(unwind), if fl > 0 { fl } else { ln }, q(&m));
            }
            TerminatorKind::TailCall { .. } => out.push_str("[\"unreachable\"]"),
            TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                out.push_str("[\"assert\",");
                self.operand(body, env, cond, out);
                let k = match &**msg { AssertKind::BoundsCheck { .. } => "bounds".to_string(), AssertKind::Overflow(op, ..) => format!("overflow:{op:?}"), AssertKind::OverflowNeg(_) => "overflow:Neg".into(), AssertKind::DivisionByZero(_) => "divzero".into(), AssertKind::RemainderByZero(_) => "remzero".into(), _ => "other".into() };
                let _ = write!(out, ",{expected},{},{},{ln}]", q(&k), target.as_usize());
            }
            TerminatorKind::Yield { resume, .. } => { let _ = write!(out, "[\"yield\",{},{ln}]", resume.as_usize()); }
            TerminatorKind::FalseEdge { real_target, .. } => { let _ = write!(out, "[\"goto\",{}]", real_target.as_usize()); }
            TerminatorKind::FalseUnwind { real_target, .. } => { let _ = write!(out, "[\"goto\",{}]", real_target.as_usize()); }
            TerminatorKind::InlineAsm { .. } => out.push_str("[\"unreachable\"]"),
        }
    }
}

fn uw(u: &UnwindAction) -> String { match u { UnwindAction::Cleanup(b) => b.as_usize().to_string(), _ => "null".into() } }

fn real_name(f: &rustc_span::SourceFile) -> String {
    match &f.name {
        rustc_span::FileName::Real(r) => match r.local_path() { Some(p) => p.to_string_lossy().to_string(), None => format!("{:?}", f.name) },
        o => format!("{o:?}"),
    }
}

pub fn dump<'tcx>(tcx: TyCtxt<'tcx>, out: &str) {
    for def in tcx.hir_body_owners() {
        let k = tcx.def_kind(def.to_def_id());
        if matches!(k, DefKind::Fn | DefKind::AssocFn | DefKind::Closure | DefKind::SyntheticCoroutineBody | DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. }) {
            let _ = tcx.mir_built(def);
        }
    }
    let mut d = D { tcx, tys: Default::default(), ty_list: vec![], ty_cache: Default::default(), canon_cache: Default::default(), files: Default::default(), file_list: vec![] };
    let stash: Vec<_> = crate::STASH.with(|s| std::mem::take(&mut *s.borrow_mut()));
    let cname = tcx.crate_name(LOCAL_CRATE).to_string();
    let tmp = format!("{out}.tmp{}", std::process::id());
    std::fs::create_dir_all(std::path::Path::new(out).parent().unwrap()).ok();
    let mut bf = std::io::BufWriter::new(std::fs::File::create(format!("{tmp}.bodies")).unwrap());
    let mut index = String::new();
    let mut pos = 0usize;
    let mut firstb = true;
    for (def, b) in stash {
        let b: Body<'tcx> = unsafe { std::mem::transmute(b) };
        let mut s = String::new();
        d.body(def, &b, &mut s);
        s.push('\n');
        bf.write_all(s.as_bytes()).unwrap();
        if !firstb { index.push(','); }
        firstb = false;
        let did = def.to_def_id();
        let c = d.canon(did);
        let file = d.file_of(b.span);
        let lo = d.line(tcx.def_span(did));
        let _ = write!(index, "[{},{pos},{},{file},{lo},\"{:?}\"]", q(&c), s.len(), tcx.def_kind(did));
        pos += s.len();
    }
    bf.flush().unwrap();
    drop(bf);

    // items
    let mut items = String::new();
    let mut fi = true;
    for id in tcx.hir_crate_items(()).definitions() {
        let did = id.to_def_id();
        let k = tcx.def_kind(did);
        let mut s = String::new();
        match k {
            DefKind::Struct | DefKind::Enum | DefKind::Union => {
                let ad = tcx.adt_def(did);
                let c = d.canon(did);
                let f = d.file_of(tcx.def_span(did));
                let ln = d.line(tcx.def_span(did));
                let _ = write!(s, "{{\"k\":\"{}\",\"id\":{},\"file\":{f},\"line\":{ln},\"attrs\":{},\"variants\":[", if ad.is_enum() { "enum" } else { "struct" }, q(&c), attrs(tcx, did));
                for (i, v) in ad.variants().iter().enumerate() {
                    if i > 0 { s.push(','); }
                    let dv = if ad.is_enum() { ad.discriminants(tcx).nth(i).map(|x| x.1.val as i128).unwrap_or(-1) } else { 0 };
                    let _ = write!(s, "{{\"name\":{},\"discr\":{dv},\"attrs\":{},\"fields\":[", q(v.name.as_str()), attrs(tcx, v.def_id));
                    for (j, fl) in v.fields.iter().enumerate() {
                        if j > 0 { s.push(','); }
                        let t = tcx.type_of(fl.did).instantiate_identity().skip_norm_wip();
                        let tn = d.ty(t);
                        let _ = write!(s, "[{},{tn},{},{}]", q(fl.name.as_str()), attrs(tcx, fl.did), tcx.visibility(fl.did).is_public());
                    }
                    s.push_str("]}");
                }
                s.push_str("]}");
            }
            DefKind::Impl { .. } => {
                let c = d.canon(did);
                let st = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                let sn = d.ty(st);
                let tr = tcx.impl_opt_trait_ref(did).map(|t| d.canon(t.skip_binder().def_id)).unwrap_or_default();
                let f = d.file_of(tcx.def_span(did));
                let ln = d.line(tcx.def_span(did));
                let mac = d.macs(tcx.def_span(did));
                let _ = write!(s, "{{\"k\":\"impl\",\"id\":{},\"self\":{sn},\"trait\":{},\"file\":{f},\"line\":{ln},\"mac\":{},\"items\":[", q(&c), q(&tr), q(&mac));
                let ids: Vec<DefId> = tcx.associated_item_def_ids(did).to_vec();
                for (i, it) in ids.iter().enumerate() { if i > 0 { s.push(','); } let n = d.canon(*it); s.push_str(&q(&n)); }
                s.push_str("]}");
            }
            DefKind::Trait => {
                let c = d.canon(did);
                let f = d.file_of(tcx.def_span(did));
                let _ = write!(s, "{{\"k\":\"trait\",\"id\":{},\"file\":{f},\"items\":[", q(&c));
                let ids: Vec<DefId> = tcx.associated_item_def_ids(did).to_vec();
                for (i, it) in ids.iter().enumerate() { if i > 0 { s.push(','); } let n = d.canon(*it); s.push_str(&q(&n)); }
                s.push_str("]}");
            }
            DefKind::Fn | DefKind::AssocFn => {
                let c = d.canon(did);
                let sig = tcx.fn_sig(did).instantiate_identity().skip_norm_wip().skip_binder();
                let f = d.file_of(tcx.def_span(did));
                let ln = d.line(tcx.def_span(did));
                let _ = write!(s, "{{\"k\":\"fn\",\"id\":{},\"file\":{f},\"line\":{ln},\"unsafe\":{},\"pub\":{},\"in\":[", q(&c), sig.safety().is_unsafe(), tcx.visibility(did).is_public());
                for (i, t) in sig.inputs().iter().enumerate() { if i > 0 { s.push(','); } let n = d.ty(*t); let _ = write!(s, "{n}"); }
                let o = d.ty(sig.output());
                let _ = write!(s, "],\"out\":{o},\"pn\":[");
                for (i, n) in tcx.fn_arg_idents(did).iter().enumerate() { if i > 0 { s.push(','); } s.push_str(&q(&n.map(|x| x.to_string()).unwrap_or_default())); }
                s.push_str("]}");
            }
            _ => continue,
        }
        if !fi { items.push_str(",\n"); }
        fi = false;
        items.push_str(&s);
    }

    let mut o = String::new();
    let _ = write!(o, "{{\"crate\":{},\"files\":[", q(&cname));
    for (i, f) in d.file_list.iter().enumerate() { if i > 0 { o.push(','); } esc(f, &mut o); }
    o.push_str("],\"srcs\":[");
    let mut fs = true;
    for f in tcx.sess.source_map().files().iter() {
        if f.cnum != LOCAL_CRATE { continue; }
        let n = real_name(f);
        if !n.starts_with('/') && !n.ends_with(".rs") && !n.contains('/') { continue; }
        if !fs { o.push(','); }
        fs = false;
        let hex: String = f.src_hash.hash_bytes().iter().map(|b| format!("{b:02x}")).collect();
        let _ = write!(o, "[{},\"{:?}\",\"{hex}\"]", q(&n), f.src_hash.kind);
    }
    o.push_str("],\n\"bodies\":[");
    o.push_str(&index);
    o.push_str("],\n\"items\":[");
    o.push_str(&items);
    o.push_str("],\n\"tys\":[");
    for (i, t) in d.ty_list.iter().enumerate() { if i > 0 { o.push(','); } esc(t, &mut o); }
    o.push_str("]}");
    std::fs::write(format!("{tmp}.json"), o).unwrap();
    std::fs::rename(format!("{tmp}.bodies"), format!("{out}.bodies")).unwrap();
    std::fs::rename(format!("{tmp}.json"), format!("{out}.json")).unwrap();
}

fn attrs(tcx: TyCtxt<'_>, did: DefId) -> String {
    let mut o = String::from("[");
    let mut first = true;
    if let Some(l) = did.as_local() {
        let h = tcx.local_def_id_to_hir_id(l);
        for a in tcx.hir_attrs(h) {
            if let Some(_) = a.doc_str() { continue; }
            let sp = match a { rustc_attr_ir::Attribute::Tool(i) | rustc_attr_ir::Attribute::DeriveHelper(i) => i.span, _ => continue };
            if let Ok(s) = tcx.sess.source_map().span_to_snippet(sp) {
                if !first { o.push(','); }
                first = false;
                esc(&s, &mut o);
            }
        }
    }
    o.push(']');
    o
}
