// Fact extractor: a rustc driver that dumps, for every workspace crate it compiles, the
// type-checked program as JSON: MIR bodies (CFG, resolved callees, evaluated constants, named
// field projections), ADT tables, trait impl tables and function signatures.
//
// Used as RUSTC_WORKSPACE_WRAPPER under `cargo +nightly check`; the output directory is $FACTS_DIR.
#![feature(rustc_private)]
#![allow(clippy::all)]

extern crate rustc_driver;
extern crate rustc_abi;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::mir::interpret::GlobalAlloc;
use rustc_middle::mir::*;
use rustc_middle::ty::print::{
    with_no_trimmed_paths, with_no_visible_paths, with_resolve_crate_name,
};
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;

// ------------------------------------------------------------------------------------------------
// JSON
// ------------------------------------------------------------------------------------------------

fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f || (c as u32) > 0xffff => {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) {
                    let _ = write!(o, "\\u{:04x}", u);
                }
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn arr(v: &[String]) -> String {
    format!("[{}]", v.join(","))
}

fn obj(v: &[(&str, String)]) -> String {
    let parts: Vec<String> = v.iter().map(|(k, x)| format!("{}:{}", js(k), x)).collect();
    format!("{{{}}}", parts.join(","))
}

// ------------------------------------------------------------------------------------------------

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    names: BTreeMap<String, String>,       // def id -> pretty path
    adts: BTreeMap<String, String>,        // adt id -> json
    adt_seen: BTreeSet<String>,
}

impl<'tcx> Cx<'tcx> {
    fn id(&mut self, d: DefId) -> String {
        let h = self.tcx.def_path_hash(d);
        let key = format!("{:?}", h.0);
        if !self.names.contains_key(&key) {
            let n = with_resolve_crate_name!(with_no_visible_paths!(with_no_trimmed_paths!(self
                .tcx
                .def_path_str(d))));
            let _ = self.names.insert(key.clone(), n);
        }
        key
    }

    fn tys(&self, t: Ty<'tcx>) -> String {
        with_resolve_crate_name!(with_no_visible_paths!(with_no_trimmed_paths!(t.to_string())))
    }

    fn span(&self, sp: Span) -> (String, usize, Vec<String>) {
        let mut macros = vec![];
        let mut s = sp;
        while s.from_expansion() {
            let d = s.ctxt().outer_expn_data();
            macros.push(d.kind.descr().to_string());
            s = d.call_site;
        }
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(s.lo());
        let f = match &lo.file.name {
            rustc_span::FileName::Real(r) => r
                .local_path()
                .map(|p| p.display().to_string())
                .unwrap_or_else(|| "?".to_string()),
            _ => "?".to_string(),
        };
        (f, lo.line, macros)
    }

    fn adt(&mut self, a: ty::AdtDef<'tcx>) -> String {
        let id = self.id(a.did());
        if self.adt_seen.insert(id.clone()) {
            let tcx = self.tcx;
            let mut vs = vec![];
            let discrs: Vec<(rustc_abi::VariantIdx, u128)> = if a.is_enum() {
                a.discriminants(tcx).map(|(i, d)| (i, d.val)).collect()
            } else {
                vec![]
            };
            for (vi, v) in a.variants().iter_enumerated() {
                let d = discrs
                    .iter()
                    .find(|(i, _)| *i == vi)
                    .map(|(_, d)| d.to_string())
                    .unwrap_or("0".to_string());
                let fs: Vec<String> = v
                    .fields
                    .iter()
                    .map(|f| {
                        let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                        let ts = self.tys(t);
                        let adt = self.core_adt(t);
                        obj(&[
                            ("n", js(f.name.as_str())),
                            ("t", js(&ts)),
                            ("pub", f.vis.is_public().to_string()),
                            ("a", adt.map(|x| js(&x)).unwrap_or("null".into())),
                        ])
                    })
                    .collect();
                vs.push(obj(&[
                    ("n", js(v.name.as_str())),
                    ("d", d),
                    ("f", arr(&fs)),
                ]));
            }
            let (file, line, mac) = self.span(tcx.def_span(a.did()));
            let j = obj(&[
                ("kind", js(if a.is_enum() { "enum" } else if a.is_union() { "union" } else { "struct" })),
                ("local", a.did().is_local().to_string()),
                ("file", js(&file)),
                ("line", line.to_string()),
                ("mac", arr(&mac.iter().map(|x| js(x)).collect::<Vec<_>>())),
                ("v", arr(&vs)),
            ]);
            let _ = self.adts.insert(id.clone(), j);
        }
        id
    }

    fn core_adt(&mut self, t: Ty<'tcx>) -> Option<String> {
        match t.kind() {
            ty::Ref(_, t, _) => self.core_adt(*t),
            ty::Adt(a, _) => Some(self.adt(*a)),
            _ => None,
        }
    }

    // A structured type: {"k":kind, ...}
    fn ty(&mut self, t: Ty<'tcx>, depth: usize) -> String {
        if depth > 5 {
            return obj(&[("k", js("deep"))]);
        }
        match t.kind() {
            ty::Ref(_, t2, m) => obj(&[
                ("k", js("ref")),
                ("m", (m.is_mut()).to_string()),
                ("t", self.ty(*t2, depth)),
            ]),
            ty::Adt(a, args) => {
                let id = self.adt(*a);
                let v: Vec<String> = args.types().map(|t| self.ty(t, depth + 1)).collect();
                obj(&[("k", js("adt")), ("id", js(&id)), ("a", arr(&v))])
            }
            ty::Closure(d, _) => {
                let id = self.id(*d);
                obj(&[("k", js("closure")), ("id", js(&id))])
            }
            ty::FnDef(d, _) => {
                let id = self.id(*d);
                obj(&[("k", js("fndef")), ("id", js(&id))])
            }
            ty::Tuple(ts) => {
                let v: Vec<String> = ts.iter().map(|t| self.ty(t, depth + 1)).collect();
                obj(&[("k", js("tuple")), ("a", arr(&v))])
            }
            ty::Slice(t2) => obj(&[("k", js("slice")), ("t", self.ty(*t2, depth + 1))]),
            ty::Array(t2, _) => obj(&[("k", js("array")), ("t", self.ty(*t2, depth + 1))]),
            ty::Dynamic(p, _) => {
                let id = p.principal_def_id().map(|d| self.id(d));
                obj(&[("k", js("dyn")), ("id", id.map(|i| js(&i)).unwrap_or("null".into()))])
            }
            ty::Param(p) => obj(&[("k", js("param")), ("n", js(p.name.as_str()))]),
            _ => obj(&[("k", js("prim")), ("s", js(&self.tys(t)))]),
        }
    }

    fn bytes_of(&self, alloc: rustc_middle::mir::interpret::AllocId, off: u64, len: u64) -> Option<Vec<u8>> {
        match self.tcx.try_get_global_alloc(alloc)? {
            GlobalAlloc::Memory(m) => {
                let a = m.inner();
                let s = off as usize;
                let e = s + len as usize;
                if e > a.len() {
                    return None;
                }
                Some(a.inspect_with_uninit_and_ptr_outside_interpreter(s..e).to_vec())
            }
            _ => None,
        }
    }

    // &[&str; N] style constants: read N fat pointers
    fn str_array(&self, alloc: rustc_middle::mir::interpret::AllocId, off: u64, n: u64) -> Option<Vec<String>> {
        match self.tcx.try_get_global_alloc(alloc)? {
            GlobalAlloc::Memory(m) => {
                let a = m.inner();
                let mut out = vec![];
                for i in 0..n {
                    let p = off + i * 16;
                    let lenb = a.inspect_with_uninit_and_ptr_outside_interpreter((p + 8) as usize..(p + 16) as usize);
                    let len = u64::from_le_bytes(lenb.try_into().ok()?);
                    let offb = a.inspect_with_uninit_and_ptr_outside_interpreter(p as usize..(p + 8) as usize);
                    let o = u64::from_le_bytes(offb.try_into().ok()?);
                    let prov = a.provenance().ptrs().get(&rustc_abi::Size::from_bytes(p))?;
                    let b = self.bytes_of(prov.alloc_id(), o, len)?;
                    out.push(String::from_utf8(b).ok()?);
                }
                Some(out)
            }
            _ => None,
        }
    }

    fn constant(&mut self, c: &ConstOperand<'tcx>, env: TypingEnv<'tcx>) -> String {
        let tcx = self.tcx;
        let t = c.const_.ty();
        if let ty::FnDef(d, args) = t.kind() {
            return self.fndef(*d, args.skip_binder(), env);
        }
        let mut out: Vec<(&str, String)> = vec![("c", js("const"))];
        let mut generic = false;
        if let Const::Unevaluated(u, _) = c.const_ {
            let id = self.id(u.def);
            if let Some(p) = u.promoted {
                out.push(("promoted", js(&format!("{}#p{}", id, p.as_usize()))));
            } else {
                out.push(("item", js(&id)));
            }
            use rustc_middle::ty::TypeVisitableExt;
            generic = u.args.has_param();
        }
        out.push(("t", self.ty(t, 0)));
        if !generic {
            if let Ok(v) = c.const_.eval(tcx, env, c.span) {
                match t.kind() {
                    ty::Ref(_, inner, _) => match (inner.kind(), v) {
                        (ty::Str, ConstValue::Slice { alloc_id, meta }) => {
                            if let Some(b) = self.bytes_of(alloc_id, 0, meta) {
                                out.push(("str", js(&String::from_utf8_lossy(&b))));
                            }
                        }
                        (ty::Array(et, n), ConstValue::Scalar(rustc_middle::mir::interpret::Scalar::Ptr(p, _))) => {
                            let (prov, off) = p.into_raw_parts();
                            if let Some(n) = n.try_to_target_usize(tcx) {
                                if et.is_integral() && self.tys(*et) == "u8" {
                                    if let Some(b) = self.bytes_of(prov.alloc_id(), off.bytes(), n) {
                                        let hex: String = b.iter().map(|x| format!("{:02x}", x)).collect();
                                        out.push(("bytes", js(&hex)));
                                    }
                                } else if let ty::Ref(_, st, _) = et.kind() {
                                    if st.is_str() {
                                        if let Some(v) = self.str_array(prov.alloc_id(), off.bytes(), n) {
                                            out.push(("strs", arr(&v.iter().map(|x| js(x)).collect::<Vec<_>>())));
                                        }
                                    }
                                }
                            }
                        }
                        (_, ConstValue::Scalar(rustc_middle::mir::interpret::Scalar::Ptr(p, _))) => {
                            let (prov, _off) = p.into_raw_parts();
                            if let Some(GlobalAlloc::Static(d)) = tcx.try_get_global_alloc(prov.alloc_id()) {
                                out.push(("static", js(&self.id(d))));
                            }
                        }
                        _ => {}
                    },
                    ty::Bool => {
                        if let Some(b) = v.try_to_bool() {
                            out.push(("int", (b as u8).to_string()));
                        }
                    }
                    ty::Int(it) => {
                        if let Some(s) = v.try_to_scalar_int() {
                            let _ = it;
                            out.push(("int", js(&s.to_int(s.size()).to_string())));
                        }
                    }
                    ty::Uint(_) | ty::Char => {
                        if let Some(s) = v.try_to_scalar_int() {
                            out.push(("int", js(&s.to_uint(s.size()).to_string())));
                        }
                    }
                    ty::Adt(a, _) if a.is_enum() => {
                        if let Some(s) = v.try_to_scalar_int() {
                            out.push(("int", js(&s.to_uint(s.size()).to_string())));
                        }
                    }
                    _ => {}
                }
            }
        }
        obj(&out)
    }

    fn resolve(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>, env: TypingEnv<'tcx>) -> (String, Option<String>, Option<DefId>) {
        let tcx = self.tcx;
        if !matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn | DefKind::Ctor(..)) {
            return ("other".into(), None, None);
        }
        match Instance::try_resolve(tcx, env, d, args) {
            Ok(Some(i)) => {
                let k = match i.def {
                    ty::InstanceKind::Item(_) => "item",
                    ty::InstanceKind::Intrinsic(_) => "intrinsic",
                    ty::InstanceKind::Virtual(..) => "virtual",
                    _ => "shim",
                };
                let did = i.def_id();
                (k.to_string(), Some(self.id(did)), Some(did))
            }
            _ => ("unresolved".into(), None, None),
        }
    }

    // blanket impl see-through: Into -> From, ToString -> Display, parse -> FromStr, TryInto -> TryFrom
    fn via(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>, env: TypingEnv<'tcx>) -> Option<String> {
        let tcx = self.tcx;
        let name = with_resolve_crate_name!(with_no_visible_paths!(with_no_trimmed_paths!(tcx.def_path_str(d))));
        let find = |path: &str| -> Option<DefId> {
            let mut found = None;
            for krate in tcx.crates(()) {
                let kn = tcx.crate_name(*krate);
                if kn.as_str() != "core" && kn.as_str() != "alloc" {
                    continue;
                }
                for t in tcx.traits(*krate) {
                    let n = with_resolve_crate_name!(with_no_visible_paths!(with_no_trimmed_paths!(tcx.def_path_str(*t))));
                    if n == path {
                        found = Some(*t);
                    }
                }
            }
            found
        };
        let mk = |this: &mut Self, tr: &str, targs: Vec<ty::GenericArg<'tcx>>| -> Option<String> {
            let t = find(tr)?;
            let m = tcx
                .associated_items(t)
                .in_definition_order()
                .find(|i| matches!(i.kind, ty::AssocKind::Fn { .. }))?
                .def_id;
            use rustc_middle::ty::TypeVisitableExt;
            if targs.iter().any(|a| a.has_param()) {
                // may be unresolvable; try anyway
            }
            let a = tcx.mk_args(&targs);
            let (_, r, _) = this.resolve(m, a, env);
            r
        };
        let n = name.as_str();
        if n == "core::convert::Into::into" && args.len() >= 2 {
            return mk(self, "core::convert::From", vec![args[1], args[0]]);
        }
        if n == "core::convert::TryInto::try_into" && args.len() >= 2 {
            return mk(self, "core::convert::TryFrom", vec![args[1], args[0]]);
        }
        if n == "alloc::string::ToString::to_string" && args.len() >= 1 {
            let mut t = args[0].as_type()?;
            while let ty::Ref(_, x, _) = t.kind() {
                t = *x;
            }
            return mk(self, "core::fmt::Display", vec![t.into()]);
        }
        if n.ends_with("::parse") && n.contains("str") && args.len() >= 1 {
            return mk(self, "core::str::traits::FromStr", vec![args[args.len() - 1]]);
        }
        if n.contains("fmt::rt::Argument") && (n.ends_with("new_display") || n.ends_with("new_debug")) {
            let t = args.types().last()?;
            let mut t = t;
            while let ty::Ref(_, x, _) = t.kind() {
                t = *x;
            }
            let tr = if n.ends_with("new_display") { "core::fmt::Display" } else { "core::fmt::Debug" };
            return mk(self, tr, vec![t.into()]);
        }
        // FromResidual (the ? operator) -> From for the error conversion
        None
    }

    fn fndef(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>, env: TypingEnv<'tcx>) -> String {
        let id = self.id(d);
        let (k, r, _) = self.resolve(d, args, env);
        let targs: Vec<String> = args.types().map(|t| self.ty(t, 1)).collect();
        let mut out: Vec<(&str, String)> = vec![("c", js("fn")), ("id", js(&id)), ("rk", js(&k))];
        if let Some(r) = r {
            out.push(("r", js(&r)));
        }
        if let Some(v) = self.via(d, args, env) {
            out.push(("via", js(&v)));
        }
        if let Some(tr) = self.tcx.trait_of_assoc(d) {
            let t = self.id(tr);
            out.push(("trait", js(&t)));
        }
        out.push(("ta", arr(&targs)));
        obj(&out)
    }

    fn place(&mut self, p: &Place<'tcx>, body: &Body<'tcx>) -> String {
        let tcx = self.tcx;
        let mut v = vec![p.local.as_usize().to_string()];
        let mut pt = PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            let s = match e {
                ProjectionElem::Deref | ProjectionElem::PhantomDeref => js("*"),
                ProjectionElem::Field(f, _) => match pt.ty.kind() {
                    ty::Adt(a, _) => {
                        let aid = self.adt(*a);
                        let vi = pt.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                        let var = a.variant(vi);
                        let fname = var.fields[f].name.to_string();
                        let vname = if a.is_enum() { var.name.to_string() } else { String::new() };
                        arr(&[js("f"), js(&aid), js(&vname), js(&fname)])
                    }
                    _ => arr(&[js("t"), f.as_usize().to_string()]),
                },
                ProjectionElem::Downcast(n, vi) => arr(&[
                    js("d"),
                    js(&n.map(|s| s.to_string()).unwrap_or_default()),
                    vi.as_usize().to_string(),
                ]),
                ProjectionElem::Index(l) => arr(&[js("i"), l.as_usize().to_string()]),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    arr(&[js("ci"), offset.to_string(), from_end.to_string()])
                }
                ProjectionElem::Subslice { .. } => js("sub"),
                _ => js("cast"),
            };
            v.push(s);
            pt = pt.projection_ty(tcx, e);
        }
        arr(&v)
    }

    fn operand(&mut self, o: &Operand<'tcx>, body: &Body<'tcx>, env: TypingEnv<'tcx>) -> String {
        match o {
            Operand::Copy(p) | Operand::Move(p) => {
                let m = matches!(o, Operand::Move(_));
                obj(&[("c", js(if m { "mv" } else { "cp" })), ("p", self.place(p, body))])
            }
            Operand::Constant(c) => self.constant(c, env),
            _ => obj(&[("c", js("rt"))]),
        }
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>, body: &Body<'tcx>, env: TypingEnv<'tcx>) -> String {
        let tcx = self.tcx;
        match r {
            Rvalue::Use(o, _) => arr(&[js("use"), self.operand(o, body, env)]),
            Rvalue::Repeat(o, _) => arr(&[js("use"), self.operand(o, body, env)]),
            Rvalue::Ref(_, bk, p) => {
                let m = matches!(bk, BorrowKind::Mut { .. });
                arr(&[js("ref"), m.to_string(), self.place(p, body)])
            }
            Rvalue::RawPtr(_, p) => arr(&[js("ref"), js("raw"), self.place(p, body)]),
            Rvalue::Reborrow(_, m, p) => arr(&[js("ref"), m.is_mut().to_string(), self.place(p, body)]),
            Rvalue::Cast(k, o, t) => {
                let ts = self.tys(*t);
                let ks = format!("{:?}", k);
                let ft = o.ty(&body.local_decls, tcx);
                arr(&[js("cast"), self.operand(o, body, env), js(&ks), js(&ts), js(&self.tys(ft))])
            }
            Rvalue::BinaryOp(op, b) => arr(&[
                js("bin"),
                js(&format!("{:?}", op)),
                self.operand(&b.0, body, env),
                self.operand(&b.1, body, env),
            ]),
            Rvalue::UnaryOp(op, o) => arr(&[js("un"), js(&format!("{:?}", op)), self.operand(o, body, env)]),
            Rvalue::Discriminant(p) => {
                let t = p.ty(&body.local_decls, tcx).ty;
                let a = match t.kind() {
                    ty::Adt(a, _) => js(&self.adt(*a)),
                    _ => "null".into(),
                };
                arr(&[js("discr"), self.place(p, body), a])
            }
            Rvalue::Aggregate(k, ops) => {
                let v: Vec<String> = ops.iter().map(|o| self.operand(o, body, env)).collect();
                let kk = match &**k {
                    AggregateKind::Array(_) => arr(&[js("array")]),
                    AggregateKind::Tuple => arr(&[js("tuple")]),
                    AggregateKind::Adt(d, vi, _, _, _) => {
                        let a = tcx.adt_def(*d);
                        let id = self.adt(a);
                        let var = a.variant(*vi);
                        let vn = if a.is_enum() { var.name.to_string() } else { String::new() };
                        let fs: Vec<String> = var.fields.iter().map(|f| js(f.name.as_str())).collect();
                        arr(&[js("adt"), js(&id), js(&vn), arr(&fs)])
                    }
                    AggregateKind::Closure(d, _) => arr(&[js("closure"), js(&self.id(*d))]),
                    _ => arr(&[js("other")]),
                };
                arr(&[js("agg"), kk, arr(&v)])
            }
            Rvalue::CopyForDeref(p) => arr(&[js("use"), obj(&[("c", js("cp")), ("p", self.place(p, body))])]),
            Rvalue::WrapUnsafeBinder(o, _) => arr(&[js("use"), self.operand(o, body, env)]),
            Rvalue::ThreadLocalRef(_) => arr(&[js("tls")]),
        }
    }

    fn body(&mut self, key: String, owner: DefId, body: &Body<'tcx>, extra: Vec<(&'static str, String)>) -> String {
        let tcx = self.tcx;
        let env = TypingEnv::post_analysis(tcx, owner);
        let mut names: BTreeMap<usize, String> = BTreeMap::new();
        let mut dbg = vec![];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    let _ = names.entry(p.local.as_usize()).or_insert(v.name.to_string());
                } else {
                    dbg.push(arr(&[js(v.name.as_str()), self.place(&p, body)]));
                }
            }
        }
        let locals: Vec<String> = body
            .local_decls
            .iter_enumerated()
            .map(|(l, d)| {
                let mut o: Vec<(&str, String)> = vec![("t", self.ty(d.ty, 0)), ("s", js(&self.tys(d.ty)))];
                if let Some(n) = names.get(&l.as_usize()) {
                    o.push(("n", js(n)));
                }
                obj(&o)
            })
            .collect();
        let mut blocks = vec![];
        for bb in body.basic_blocks.iter() {
            let mut stmts = vec![];
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(b) => {
                        let (_, line, mac) = self.span(s.source_info.span);
                        stmts.push(arr(&[
                            self.place(&b.0, body),
                            self.rvalue(&b.1, body, env),
                            line.to_string(),
                            if mac.is_empty() { "null".into() } else { js(&mac.join(">")) },
                        ]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        stmts.push(arr(&[
                            self.place(place, body),
                            arr(&[js("setdiscr"), variant_index.as_usize().to_string()]),
                            "0".into(),
                            "null".into(),
                        ]));
                    }
                    _ => {}
                }
            }
            let t = bb.terminator();
            let (_, line, mac) = self.span(t.source_info.span);
            let uw = |u: &UnwindAction| match u {
                UnwindAction::Cleanup(b) => b.as_usize().to_string(),
                _ => "null".to_string(),
            };
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => arr(&[js("goto"), target.as_usize().to_string()]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let ts: Vec<String> = targets
                        .iter()
                        .map(|(v, b)| arr(&[js(&v.to_string()), b.as_usize().to_string()]))
                        .collect();
                    let dt = discr.ty(&body.local_decls, tcx);
                    arr(&[
                        js("switch"),
                        self.operand(discr, body, env),
                        arr(&ts),
                        targets.otherwise().as_usize().to_string(),
                        js(&self.tys(dt)),
                    ])
                }
                TerminatorKind::Return => arr(&[js("ret")]),
                TerminatorKind::Unreachable => arr(&[js("unreachable")]),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => arr(&[js("resume")]),
                TerminatorKind::Drop { place, target, unwind, .. } => {
                    arr(&[js("drop"), self.place(place, body), target.as_usize().to_string(), uw(unwind)])
                }
                TerminatorKind::Call { func, args, destination, target, unwind, .. } => {
                    let f = self.operand(func, body, env);
                    let a: Vec<String> = args.iter().map(|x| self.operand(&x.node, body, env)).collect();
                    arr(&[
                        js("call"),
                        f,
                        arr(&a),
                        self.place(destination, body),
                        target.map(|t| t.as_usize().to_string()).unwrap_or("null".into()),
                        uw(unwind),
                    ])
                }
                TerminatorKind::Assert { cond, expected, msg, target, unwind } => arr(&[
                    js("assert"),
                    self.operand(cond, body, env),
                    expected.to_string(),
                    js(&format!("{:?}", msg).chars().take(60).collect::<String>()),
                    target.as_usize().to_string(),
                    uw(unwind),
                ]),
                TerminatorKind::FalseEdge { real_target, .. } | TerminatorKind::FalseUnwind { real_target, .. } => {
                    arr(&[js("goto"), real_target.as_usize().to_string()])
                }
                _ => arr(&[js("other")]),
            };
            blocks.push(obj(&[
                ("s", arr(&stmts)),
                ("t", tj),
                ("l", line.to_string()),
                ("m", if mac.is_empty() { "null".into() } else { js(&mac.join(">")) }),
                ("u", bb.is_cleanup.to_string()),
            ]));
        }
        let mut out = vec![
            ("key", js(&key)),
            ("argc", body.arg_count.to_string()),
            ("locals", arr(&locals)),
            ("blocks", arr(&blocks)),
            ("dbg", arr(&dbg)),
        ];
        out.extend(extra);
        obj(&out)
    }

    fn run(&mut self) -> String {
        let tcx = self.tcx;
        let mut fns = vec![];
        let ev = tcx.effective_visibilities(());
        let mut keys: Vec<LocalDefId> = tcx.mir_keys(()).iter().copied().collect();
        keys.sort_by_key(|k| tcx.def_path_hash(k.to_def_id()));
        for k in keys {
            let d = k.to_def_id();
            let dk = tcx.def_kind(d);
            let id = self.id(d);
            let (file, line, mac) = self.span(tcx.def_span(d));
            let mut extra: Vec<(&'static str, String)> = vec![
                ("kind", js(&format!("{:?}", dk).split(' ').next().unwrap_or("").replace('{', ""))),
                ("file", js(&file)),
                ("line", line.to_string()),
                ("mac", arr(&mac.iter().map(|x| js(x)).collect::<Vec<_>>())),
                ("pub", ev.is_exported(k).to_string()),
            ];
            // impl context
            let parent = tcx.opt_parent(d);
            if let Some(p) = parent {
                if matches!(tcx.def_kind(p), DefKind::Impl { .. }) {
                    let st = tcx.type_of(p).instantiate_identity().skip_norm_wip();
                    extra.push(("self_ty", self.ty(st, 0)));
                    extra.push(("impl", js(&self.id(p))));
                    let derived = tcx.is_automatically_derived(p);
                    extra.push(("derived", derived.to_string()));
                }
                if matches!(dk, DefKind::Closure) {
                    extra.push(("parent", js(&self.id(p))));
                }
            }
            let is_const = matches!(
                dk,
                DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } | DefKind::AnonConst
            );
            if matches!(dk, DefKind::Ctor(..)) {
                extra.push(("ctor", "true".into()));
            }
            let body: &Body<'tcx> = if is_const { tcx.mir_for_ctfe(d) } else { tcx.optimized_mir(d) };
            let j = self.body(id.clone(), d, body, extra);
            fns.push(j);
            for (i, pb) in tcx.promoted_mir(d).iter_enumerated() {
                let key = format!("{}#p{}", id, i.as_usize());
                let j = self.body(
                    key,
                    d,
                    pb,
                    vec![("kind", js("Promoted")), ("file", js(&file)), ("line", line.to_string())],
                );
                fns.push(j);
            }
        }
        // trait impls
        let mut impls = vec![];
        let mut all: Vec<(DefId, Vec<LocalDefId>)> =
            tcx.all_local_trait_impls(()).iter().map(|(t, v)| (*t, v.clone())).collect();
        all.sort_by_key(|(t, _)| tcx.def_path_hash(*t));
        for (t, v) in all {
            for i in v {
                let st = tcx.type_of(i.to_def_id()).instantiate_identity().skip_norm_wip();
                let tr = tcx.impl_trait_ref(i.to_def_id()).instantiate_identity().skip_norm_wip();
                let trs = with_resolve_crate_name!(with_no_visible_paths!(with_no_trimmed_paths!(tr.to_string())));
                let mut m: Vec<(String, String)> = tcx
                    .associated_items(i.to_def_id())
                    .in_definition_order()
                    .filter_map(|it| it.trait_item_def_id().map(|t| (t, it.def_id)))
                    .map(|(a, b)| (self.id(a), self.id(b)))
                    .collect();
                m.sort();
                let mj: Vec<String> = m.iter().map(|(a, b)| format!("{}:{}", js(a), js(b))).collect();
                let derived = tcx.is_automatically_derived(i.to_def_id());
                impls.push(obj(&[
                    ("id", js(&self.id(i.to_def_id()))),
                    ("trait", js(&self.id(t))),
                    ("tref", js(&trs)),
                    ("self", self.ty(st, 0)),
                    ("selfs", js(&self.tys(st))),
                    ("derived", derived.to_string()),
                    ("m", format!("{{{}}}", mj.join(","))),
                ]));
            }
        }
        // local ADTs, even when unused
        for ld in tcx.hir_crate_items(()).definitions() {
            let d = ld.to_def_id();
            if matches!(tcx.def_kind(d), DefKind::Struct | DefKind::Enum | DefKind::Union) {
                let _ = self.adt(tcx.adt_def(d));
            }
        }
        let names: Vec<String> = self.names.iter().map(|(k, v)| format!("{}:{}", js(k), js(v))).collect();
        let adts: Vec<String> = self.adts.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect();
        obj(&[
            ("crate", js(tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).as_str())),
            ("names", format!("{{{}}}", names.join(","))),
            ("adts", format!("{{{}}}", adts.join(","))),
            ("impls", arr(&impls)),
            ("fns", format!("[{}]", fns.join(",\n"))),
        ])
    }
}

struct Dump {
    out: String,
}

impl Callbacks for Dump {
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> Compilation {
        let mut cx = Cx { tcx, names: BTreeMap::new(), adts: BTreeMap::new(), adt_seen: BTreeSet::new() };
        let s = cx.run();
        let kinds = tcx.crate_types().iter().map(|k| format!("{:?}", k)).collect::<Vec<_>>().join("_");
        let name = format!("{}/{}-{}.json", self.out, tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE), kinds);
        let tmp = format!("{}.tmp{}", name, std::process::id());
        std::fs::write(&tmp, s).expect("cannot write facts");
        std::fs::rename(&tmp, &name).expect("cannot rename facts");
        Compilation::Continue
    }
}

struct Plain;
impl Callbacks for Plain {}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // wrapper mode: argv[1] is the real rustc
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].ends_with("rustc.exe")) {
        let _ = args.remove(1);
    }
    let out = std::env::var("FACTS_DIR").unwrap_or_default();
    let has_crate = args.iter().any(|a| a == "--crate-name");
    let build_script = args.iter().any(|a| a == "build_script_build");
    if out.is_empty() || !has_crate || build_script || args.iter().any(|a| a.starts_with("--print")) {
        return rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Plain));
    }
    args.push("-Zmir-opt-level=0".into());
    args.push("-Awarnings".into());
    let mut d = Dump { out };
    rustc_driver::catch_with_exit_code(move || rustc_driver::compiler_entrypoint(&args, &mut d))
}
