//! rustc_private driver: runs as RUSTC_WORKSPACE_WRAPPER and, for every crate of
//! the analysed workspace, writes the type-checked program (MIR with resolved
//! callees, ADT tables, trait impls) as line-delimited JSON facts.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_driver_impl;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::interpret::{AllocRange, GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypingEnv};
use std::collections::HashSet;
use std::fmt::Write as _;
use std::io::Write as _;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn list(v: Vec<String>) -> String {
    format!("[{}]", v.join(","))
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    adts: HashSet<DefId>,
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        let s = rustc_middle::ty::print::with_no_visible_paths!(
            rustc_middle::ty::print::with_resolve_crate_name!(self.tcx.def_path_str(d))
        );
        s
    }
    fn ty(&self, t: Ty<'tcx>) -> String {
        rustc_middle::ty::print::with_no_visible_paths!(
            rustc_middle::ty::print::with_resolve_crate_name!(t.to_string())
        )
    }

    fn place(&mut self, body: &Body<'tcx>, p: &Place<'tcx>) -> String {
        let mut out = vec![format!("{}", p.local.as_usize())];
        let mut pt = PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            match e {
                ProjectionElem::Deref => out.push("\"*\"".into()),
                ProjectionElem::Field(f, _) => {
                    let i = f.as_usize();
                    let mut name = format!("{}", i);
                    let mut adtname = String::new();
                    if let ty::Adt(def, _) = pt.ty.kind() {
                        adtname = self.path(def.did());
                        let vi = pt.variant_index.unwrap_or(rustc_abi::VariantIdx::from_usize(0));
                        if def.variants().len() > vi.as_usize() {
                            let v = def.variant(vi);
                            if v.fields.len() > i {
                                name = v.fields[f].name.to_string();
                            }
                        }
                    }
                    out.push(format!("[\"f\",{},{},{}]", i, esc(&name), esc(&adtname)));
                }
                ProjectionElem::Downcast(sym, vi) => {
                    let n = match sym {
                        Some(s) => s.to_string(),
                        None => match pt.ty.kind() {
                            ty::Adt(def, _) => def.variant(vi).name.to_string(),
                            _ => format!("{}", vi.as_usize()),
                        },
                    };
                    out.push(format!("[\"v\",{}]", esc(&n)));
                }
                ProjectionElem::Index(l) => out.push(format!("[\"i\",{}]", l.as_usize())),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    out.push(format!("[\"ci\",{},{}]", offset, from_end))
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    out.push(format!("[\"ss\",{},{},{}]", from, to, from_end))
                }
                _ => out.push("[\"o\"]".into()),
            }
            pt = pt.projection_ty(self.tcx, e);
        }
        list(out)
    }

    fn bytes_of(&self, alloc: rustc_middle::mir::interpret::ConstAllocation<'tcx>, start: u64, len: u64) -> Option<Vec<u8>> {
        let a = alloc.inner();
        if start + len > a.size().bytes() {
            return None;
        }
        let r = AllocRange { start: rustc_abi::Size::from_bytes(start), size: rustc_abi::Size::from_bytes(len) };
        a.get_bytes_strip_provenance(&self.tcx, r).ok().map(|b| b.to_vec())
    }

    fn strconst(&self, kind: &str, b: &[u8]) -> String {
        if b.len() > 6000 {
            // FNV-1a of the content: large embedded resources are matched by hash.
            let mut h: u64 = 0xcbf29ce484222325;
            for x in b {
                h ^= *x as u64;
                h = h.wrapping_mul(0x100000001b3);
            }
            return format!("{{\"k\":\"big\",\"len\":{},\"fnv\":\"{:016x}\",\"v\":{}}}", b.len(), h,
                esc(&String::from_utf8_lossy(&b[..200])));
        }
        if kind == "str" {
            format!("{{\"k\":\"str\",\"v\":{}}}", esc(&String::from_utf8_lossy(b)))
        } else {
            format!("{{\"k\":\"bytes\",\"v\":{}}}", list(b.iter().map(|x| x.to_string()).collect()))
        }
    }

    fn fn_ref(&mut self, env: TypingEnv<'tcx>, did: DefId, args: ty::GenericArgsRef<'tcx>) -> String {
        let p = self.path(did);
        let mut r = String::new();
        let mut virt = false;
        let needs = self.tcx.trait_of_assoc(did).is_some();
        if needs {
            if let Ok(Some(i)) = Instance::try_resolve(self.tcx, env, did, args) {
                match i.def {
                    ty::InstanceKind::Item(d) => r = self.path(d),
                    ty::InstanceKind::Virtual(..) => virt = true,
                    _ => {}
                }
            }
        }
        let g: Vec<String> = args
            .iter()
            .filter(|a| a.as_region().is_none())
            .map(|a| esc(&rustc_middle::ty::print::with_no_visible_paths!(
                rustc_middle::ty::print::with_resolve_crate_name!(a.to_string()))))
            .collect();
        format!("{{\"k\":\"fn\",\"p\":{},\"r\":{},\"dyn\":{},\"g\":{}}}", esc(&p), esc(&r), virt, list(g))
    }

    fn constant(&mut self, env: TypingEnv<'tcx>, c: &Const<'tcx>, span: rustc_span::Span) -> String {
        let ty = c.ty();
        match ty.kind() {
            ty::FnDef(d, a) => return self.fn_ref(env, *d, a.skip_binder()),
            ty::Closure(d, _) => return format!("{{\"k\":\"closure\",\"p\":{}}}", esc(&self.path(*d))),
            _ => {}
        }
        let tys = esc(&self.ty(ty));
        let mut named = String::new();
        if let Const::Unevaluated(u, _) = c {
            if let Some(p) = u.promoted {
                return format!("{{\"k\":\"prom\",\"i\":{},\"of\":{},\"ty\":{}}}", p.as_usize(), esc(&self.path(u.def)), tys);
            }
            named = format!(",\"named\":{}", esc(&self.path(u.def)));
        }
        let val = c.eval(self.tcx, env, span);
        let inner = match val {
            Ok(ConstValue::Scalar(Scalar::Int(i))) => {
                let bits = i.to_bits(i.size());
                let v = if ty.is_signed() { format!("{}", i.to_int(i.size())) } else { format!("{}", bits) };
                format!("\"k\":\"int\",\"v\":{},\"ty\":{}", v, tys)
            }
            Ok(ConstValue::ZeroSized) => format!("\"k\":\"zst\",\"ty\":{}", tys),
            Ok(ConstValue::Slice { alloc_id, meta }) => {
                let mut s = None;
                if let GlobalAlloc::Memory(a) = self.tcx.global_alloc(alloc_id) {
                    s = self.bytes_of(a, 0, meta);
                }
                let kind = if ty.to_string().contains("str") { "str" } else { "bytes" };
                match s {
                    Some(b) => {
                        let t = self.strconst(kind, &b);
                        t[1..t.len() - 1].to_string()
                    }
                    None => format!("\"k\":\"other\",\"ty\":{}", tys),
                }
            }
            Ok(ConstValue::Scalar(Scalar::Ptr(ptr, _))) => {
                let (prov, off) = ptr.into_raw_parts();
                let mut r = format!("\"k\":\"ptr\",\"ty\":{}", tys);
                match self.tcx.try_get_global_alloc(prov.alloc_id()) {
                    Some(GlobalAlloc::Memory(a)) => {
                        let isbytes = match ty.kind() {
                            ty::Ref(_, t, _) => matches!(t.kind(), ty::Array(e, _) if e.to_string() == "u8"),
                            _ => false,
                        };
                        if isbytes {
                            let len = a.inner().size().bytes() - off.bytes();
                            if let Some(b) = self.bytes_of(a, off.bytes(), len) {
                                let t = self.strconst("bytes", &b);
                                r = t[1..t.len() - 1].to_string();
                            }
                        }
                    }
                    Some(GlobalAlloc::Static(d)) => {
                        r = format!("\"k\":\"static\",\"p\":{},\"ty\":{}", esc(&self.path(d)), tys);
                    }
                    _ => {}
                }
                r
            }
            _ => format!("\"k\":\"other\",\"ty\":{}", tys),
        };
        format!("{{{}{}}}", inner, named)
    }

    fn operand(&mut self, env: TypingEnv<'tcx>, body: &Body<'tcx>, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("[\"cp\",{}]", self.place(body, p)),
            Operand::Move(p) => format!("[\"mv\",{}]", self.place(body, p)),
            Operand::Constant(c) => format!("[\"c\",{}]", self.constant(env, &c.const_, c.span)),
            _ => "[\"c\",{\"k\":\"other\"}]".to_string(),
        }
    }

    fn rvalue(&mut self, env: TypingEnv<'tcx>, body: &Body<'tcx>, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(o, ..) => format!("[\"use\",{}]", self.operand(env, body, o)),
            Rvalue::Repeat(o, c) => format!("[\"repeat\",{},{}]", self.operand(env, body, o), esc(&c.to_string())),
            Rvalue::Ref(_, k, p) => {
                format!("[\"ref\",{},{}]", matches!(k, BorrowKind::Mut { .. }), self.place(body, p))
            }
            Rvalue::RawPtr(_, p) => format!("[\"ref\",true,{}]", self.place(body, p)),
            Rvalue::Cast(_, o, t) => format!("[\"cast\",{},{}]", self.operand(env, body, o), esc(&self.ty(*t))),
            Rvalue::BinaryOp(op, ab) => format!(
                "[\"bin\",\"{:?}\",{},{}]",
                op,
                self.operand(env, body, &ab.0),
                self.operand(env, body, &ab.1)
            ),
            Rvalue::UnaryOp(op, a) => format!("[\"un\",\"{:?}\",{}]", op, self.operand(env, body, a)),
            Rvalue::Discriminant(p) => {
                let t = p.ty(&body.local_decls, self.tcx).ty;
                let mut n = String::new();
                if let ty::Adt(d, _) = t.kind() {
                    self.adts.insert(d.did());
                    n = self.path(d.did());
                }
                format!("[\"disc\",{},{}]", self.place(body, p), esc(&n))
            }
            Rvalue::Aggregate(k, ops) => {
                let o: Vec<String> = ops.iter().map(|o| self.operand(env, body, o)).collect();
                match &**k {
                    AggregateKind::Adt(d, vi, ..) => {
                        self.adts.insert(*d);
                        let def = self.tcx.adt_def(*d);
                        let v = def.variant(*vi);
                        let f: Vec<String> = v.fields.iter().map(|f| esc(&f.name.to_string())).collect();
                        format!(
                            "[\"agg\",\"adt\",{},{},{},{}]",
                            esc(&self.path(*d)),
                            esc(&v.name.to_string()),
                            list(f),
                            list(o)
                        )
                    }
                    AggregateKind::Closure(d, _) => {
                        format!("[\"agg\",\"closure\",{},\"\",[],{}]", esc(&self.path(*d)), list(o))
                    }
                    AggregateKind::Tuple => format!("[\"agg\",\"tuple\",\"\",\"\",[],{}]", list(o)),
                    AggregateKind::Array(_) => format!("[\"agg\",\"array\",\"\",\"\",[],{}]", list(o)),
                    _ => format!("[\"agg\",\"other\",\"\",\"\",[],{}]", list(o)),
                }
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"cp\",{}]]", self.place(body, p)),
            other => format!("[\"other\",{}]", esc(&format!("{:?}", other))),
        }
    }

    fn loc(&self, s: rustc_span::Span) -> (String, usize) {
        let s = s.source_callsite();
        let l = self.tcx.sess.source_map().lookup_char_pos(s.lo());
        (format!("{}", l.file.name.prefer_local_unconditionally()), l.line)
    }

    fn body(&mut self, def: DefId, body: &Body<'tcx>, id: &str, kind: &str, extra: &str) -> String {
        let env = TypingEnv::post_analysis(self.tcx, def);
        let (file, line) = self.loc(body.span);
        let mut names: Vec<Option<String>> = vec![None; body.local_decls.len()];
        let mut upvars: Vec<String> = vec![];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names[p.local.as_usize()] = Some(v.name.to_string());
                } else {
                    upvars.push(format!("[{},{}]", esc(&v.name.to_string()), self.place(body, &p)));
                }
            }
        }
        let locals: Vec<String> = body
            .local_decls
            .iter_enumerated()
            .map(|(i, d)| {
                format!(
                    "[{},{}]",
                    esc(&self.ty(d.ty)),
                    match &names[i.as_usize()] {
                        Some(n) => esc(n),
                        None => "null".into(),
                    }
                )
            })
            .collect();
        let mut bbs = vec![];
        for (_, bb) in body.basic_blocks.iter_enumerated() {
            let mut st = vec![];
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(b) => {
                        let p = self.place(body, &b.0);
                        let r = self.rvalue(env, body, &b.1);
                        st.push(format!("[{},{},{}]", p, r, self.loc(s.source_info.span).1));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(body, place);
                        st.push(format!("[{},[\"setdisc\",{}],0]", p, variant_index.as_usize()));
                    }
                    _ => {}
                }
            }
            let term = bb.terminator();
            let tl = self.loc(term.source_info.span).1;
            let t = match &term.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let v: Vec<String> =
                        targets.iter().map(|(v, b)| format!("[{},{}]", v, b.as_usize())).collect();
                    format!(
                        "[\"sw\",{},{},{},{}]",
                        self.operand(env, body, discr),
                        list(v),
                        targets.otherwise().as_usize(),
                        tl
                    )
                }
                TerminatorKind::Return => "[\"ret\"]".into(),
                TerminatorKind::Unreachable => "[\"unreach\"]".into(),
                TerminatorKind::Drop { place, target, .. } => {
                    format!("[\"drop\",{},{}]", self.place(body, place), target.as_usize())
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let a: Vec<String> = args.iter().map(|a| self.operand(env, body, &a.node)).collect();
                    format!(
                        "[\"call\",{},{},{},{},{}]",
                        self.operand(env, body, func),
                        list(a),
                        self.place(body, destination),
                        match target {
                            Some(t) => t.as_usize().to_string(),
                            None => "null".into(),
                        },
                        tl
                    )
                }
                TerminatorKind::Assert { cond, expected, target, msg, .. } => {
                    let m = format!("{:?}", msg);
                    let m: String = m.chars().take(60).collect();
                    format!(
                        "[\"assert\",{},{},{},{},{}]",
                        self.operand(env, body, cond),
                        expected,
                        target.as_usize(),
                        esc(&m),
                        tl
                    )
                }
                TerminatorKind::FalseEdge { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                _ => "[\"resume\"]".into(),
            };
            bbs.push(format!("{{\"s\":{},\"t\":{}{}}}", list(st), t, if bb.is_cleanup { ",\"cl\":1" } else { "" }));
        }
        format!(
            "{{\"rec\":\"fn\",\"id\":{},\"kind\":\"{}\",\"file\":{},\"line\":{},\"nargs\":{},\"locals\":{},\"upvars\":{},\"bbs\":{}{}}}\n",
            esc(id),
            kind,
            esc(&file),
            line,
            body.arg_count,
            list(locals),
            list(upvars),
            list(bbs),
            extra
        )
    }

    fn adt(&self, d: DefId) -> String {
        let def = self.tcx.adt_def(d);
        let mut vs = vec![];
        for (vi, v) in def.variants().iter_enumerated() {
            let disc = if def.is_enum() { format!("{}", def.discriminant_for_variant(self.tcx, vi).val) } else { "0".into() };
            let f: Vec<String> = v
                .fields
                .iter()
                .map(|f| {
                    let t = self.tcx.type_of(f.did).instantiate_identity();
                    format!("[{},{}]", esc(&f.name.to_string()), esc(&self.ty(t.skip_norm_wip())))
                })
                .collect();
            vs.push(format!("[{},{},{}]", esc(&v.name.to_string()), disc, list(f)));
        }
        format!(
            "{{\"rec\":\"adt\",\"id\":{},\"kind\":\"{}\",\"variants\":{}}}\n",
            esc(&self.path(d)),
            if def.is_enum() { "enum" } else if def.is_struct() { "struct" } else { "union" },
            list(vs)
        )
    }
}

struct Cb {
    out: String,
}

impl rustc_driver_impl::Callbacks for Cb {
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> rustc_driver_impl::Compilation {
        let mut cx = Cx { tcx, adts: HashSet::new() };
        let mut o = String::new();
        let cname = tcx.crate_name(LOCAL_CRATE).to_string();
        let mut nfn = 0;
        for id in tcx.hir_body_owners() {
            let did = id.to_def_id();
            let kind = tcx.def_kind(did);
            let path = cx.path(did);
            let (file, _) = cx.loc(tcx.def_span(did));
            // The generated LALR tables are not analysed; their semantic actions are.
            if file.ends_with("/out/lang.rs") {
                let last = path.rsplit("::").next().unwrap_or("");
                if !last.starts_with("__action") && !path.contains("::__action") {
                    continue;
                }
            }
            match kind {
                DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {
                    let body = tcx.optimized_mir(did);
                    let derived = match tcx.impl_of_assoc(did) {
                        Some(i) => tcx.is_automatically_derived(i),
                        None => false,
                    };
                    let mut extra = String::new();
                    if derived {
                        extra.push_str(",\"derived\":true");
                    }
                    if kind != DefKind::Closure {
                        let _ = write!(extra, ",\"vis\":{}", esc(&format!("{:?}", tcx.visibility(did))));
                        if let Some(i) = tcx.impl_of_assoc(did) {
                            let st = cx.ty(tcx.type_of(i).instantiate_identity().skip_norm_wip());
                            let _ = write!(extra, ",\"self\":{}", esc(&st));
                            if tcx.impl_is_of_trait(i) {
                                let _ = write!(extra, ",\"trait\":{}", esc(&cx.path(tcx.impl_trait_id(i))));
                            }
                        }
                    } else {
                        let _ = write!(extra, ",\"parent\":{}", esc(&cx.path(tcx.parent(did))));
                    }
                    let k = if kind == DefKind::Closure { "closure" } else { "fn" };
                    o.push_str(&cx.body(did, body, &path, k, &extra));
                    nfn += 1;
                    for (i, p) in tcx.promoted_mir(did).iter_enumerated() {
                        let pid = format!("{}::promoted[{}]", path, i.as_usize());
                        o.push_str(&cx.body(did, p, &pid, "promoted", ""));
                    }
                }
                DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } => {
                    let body = tcx.mir_for_ctfe(did);
                    o.push_str(&cx.body(did, body, &path, "const", ""));
                    for (i, p) in tcx.promoted_mir(did).iter_enumerated() {
                        let pid = format!("{}::promoted[{}]", path, i.as_usize());
                        o.push_str(&cx.body(did, p, &pid, "promoted", ""));
                    }
                }
                _ => {}
            }
        }
        for id in tcx.hir_crate_items(()).definitions() {
            let did = id.to_def_id();
            if matches!(tcx.def_kind(did), DefKind::Struct | DefKind::Enum) {
                cx.adts.insert(did);
            }
        }
        let mut adts: Vec<DefId> = cx.adts.iter().copied().collect();
        adts.sort_by_key(|d| cx.path(*d));
        for d in adts {
            o.push_str(&cx.adt(d));
        }
        let _ = write!(o, "{{\"rec\":\"crate\",\"id\":{},\"fns\":{}}}\n", esc(&cname), nfn);
        let f = format!("{}/{}.jsonl", self.out, cname);
        let mut w = std::fs::File::create(&f).expect("cannot create facts file");
        w.write_all(o.as_bytes()).expect("cannot write facts");
        w.flush().expect("cannot flush facts");
        rustc_driver_impl::Compilation::Continue
    }
}

struct Plain;
impl rustc_driver_impl::Callbacks for Plain {}

fn main() -> std::process::ExitCode {
    rustc_driver_impl::catch_with_exit_code(real_main)
}

fn real_main() {
    let mut args: Vec<String> = std::env::args().collect();
    args.remove(0); // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    let out = std::env::var("MIRFACTS_OUT").unwrap_or_default();
    let is_build = args.iter().any(|a| a == "build_script_build") || args.iter().any(|a| a.starts_with("--print"));
    if out.is_empty() || is_build || !args.iter().any(|a| a == "--crate-name") {
        rustc_driver_impl::compiler_entrypoint(&args, &mut Plain);
        return;
    }
    args.push("-Zmir-opt-level=0".into());
    args.push("-Zalways-encode-mir=no".into());
    rustc_driver_impl::compiler_entrypoint(&args, &mut Cb { out });
}
