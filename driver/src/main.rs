//! rustc driver (nightly, rustc_private): type-checks the crate it is asked to
//! compile exactly as rustc would, and dumps the typed THIR of every body of
//! the crate named in THIR_DUMP_CRATE as JSON to THIR_DUMP_OUT.  Nothing of
//! the analysed crate is ever executed.
#![feature(rustc_private)]
#![allow(clippy::all)]
extern crate rustc_abi;
extern crate rustc_ast;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::thir::*;
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, GenericArgsRef, Ty, TyCtxt};
use std::collections::HashMap;
use std::fmt::Write as _;

#[derive(Clone)]
enum J {
    Null,
    B(bool),
    I(i128),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
}
fn s<T: Into<String>>(x: T) -> J { J::S(x.into()) }
impl J {
    fn write(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::I(i) => { let _ = write!(o, "{}", i); }
            J::S(x) => {
                o.push('"');
                for c in x.chars() {
                    match c {
                        '"' => o.push_str("\\\""),
                        '\\' => o.push_str("\\\\"),
                        c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); }
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() { if i > 0 { o.push(','); } x.write(o); }
                o.push(']');
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 { o.push(','); }
                    let _ = write!(o, "\"{}\":", k);
                    x.write(o);
                }
                o.push('}');
            }
        }
    }
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<J>,
    tymap: HashMap<Ty<'tcx>, usize>,
    env: Option<ty::TypingEnv<'tcx>>,
}

fn key(tcx: TyCtxt<'_>, d: DefId) -> String {
    format!("{}{}", tcx.crate_name(d.krate), tcx.def_path(d).to_string_no_crate_verbose())
}
fn path(tcx: TyCtxt<'_>, d: DefId) -> String {
    with_no_trimmed_paths!(tcx.def_path_str(d))
}

impl<'tcx> Cx<'tcx> {
    fn ty(&mut self, t: Ty<'tcx>) -> J {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(i) = self.tymap.get(&t) { return J::I(*i as i128); }
        let j = self.ty_(t);
        let i = self.types.len();
        self.types.push(j);
        self.tymap.insert(t, i);
        J::I(i as i128)
    }
    fn args(&mut self, a: GenericArgsRef<'tcx>) -> J {
        let mut v = vec![];
        for g in a.iter() {
            match g.kind() {
                ty::GenericArgKind::Type(t) => v.push(self.ty(t)),
                ty::GenericArgKind::Const(c) => v.push(J::A(vec![s("const"), s(format!("{:?}", c))])),
                _ => {}
            }
        }
        J::A(v)
    }
    fn ty_(&mut self, t: Ty<'tcx>) -> J {
        use ty::*;
        let tcx = self.tcx;
        match *t.kind() {
            TyKind::Adt(d, a) => J::A(vec![s("adt"), s(path(tcx, d.did())), self.args(a), s(key(tcx, d.did()))]),
            TyKind::Param(p) => J::A(vec![s("param"), s(p.name.as_str())]),
            TyKind::Ref(_, t, m) => { let x = self.ty(t); J::A(vec![s("ref"), J::B(m.is_mut()), x]) }
            TyKind::Tuple(ts) => { let v = ts.iter().map(|t| self.ty(t)).collect(); J::A(vec![s("tuple"), J::A(v)]) }
            TyKind::Slice(t) => { let x = self.ty(t); J::A(vec![s("slice"), x]) }
            TyKind::Array(t, n) => { let x = self.ty(t); J::A(vec![s("array"), x, s(format!("{}", n))]) }
            TyKind::FnDef(d, a) => {
                let a = a.skip_binder();
                let mut o = vec![("path", s(path(tcx, d))), ("key", s(key(tcx, d))), ("args", self.args(a))];
                o.push(("local", J::B(d.is_local())));
                if let Some(tr) = tcx.trait_of_assoc(d) {
                    o.push(("trait", s(path(tcx, tr))));
                    o.push(("trait_key", s(key(tcx, tr))));
                }
                if let Some(im) = tcx.impl_of_assoc(d) {
                    let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                    let st = self.ty(st);
                    o.push(("impl_self", st));
                }
                if matches!(tcx.def_kind(d), DefKind::Ctor(..)) { o.push(("ctor", J::B(true)));
                    let vd = tcx.parent(d);
                    o.push(("ctor_of", s(path(tcx, vd))));
                }
                // names of generics of the callee, in order of type args
                let mut names = vec![];
                let g = tcx.generics_of(d);
                for i in 0..g.count() {
                    let p = g.param_at(i, tcx);
                    if !matches!(p.kind, ty::GenericParamDefKind::Lifetime) { names.push(s(p.name.as_str())); }
                }
                o.push(("gnames", J::A(names)));
                if let Some(env) = self.env {
                    let ea = tcx.erase_and_anonymize_regions(a);
                    if let Ok(Some(inst)) = ty::Instance::try_resolve(tcx, env, d, ea) {
                        if inst.def_id() != d {
                            o.push(("resolved", s(key(tcx, inst.def_id()))));
                            o.push(("resolved_local", J::B(inst.def_id().is_local())));
                            let ra = self.args(inst.args);
                            o.push(("resolved_args", ra));
                        }
                    }
                }
                J::A(vec![s("fndef"), J::O(o)])
            }
            TyKind::Closure(d, _) => J::A(vec![s("closure"), s(key(tcx, d))]),
            TyKind::Alias(_, a) => {
                let st = format!("{}", with_no_trimmed_paths!(format!("{:?}", a)));
                J::A(vec![s("alias"), s(st)])
            }
            TyKind::Dynamic(p, ..) => {
                let n = p.principal_def_id().map(|d| path(tcx, d)).unwrap_or_default();
                J::A(vec![s("dyn"), s(n)])
            }
            _ => J::A(vec![s("prim"), s(with_no_trimmed_paths!(format!("{}", t)))]),
        }
    }
    fn span(&self, sp: rustc_span::Span) -> J {
        let sm = self.tcx.sess.source_map();
        let sp = sp.source_callsite();
        let lo = sm.lookup_char_pos(sp.lo());
        let f = format!("{}", lo.file.name.prefer_local_unconditionally());
        J::S(format!("{}:{}", f, lo.line))
    }
    fn var(&self, v: LocalVarId) -> J {
        J::S(format!("{}#{}", self.tcx.hir_name(v.0), v.0.owner.def_id.local_def_index.as_u32() as u64 * 100000 + v.0.local_id.as_u32() as u64))
    }
    fn fields(&mut self, ty: Ty<'tcx>, variant: Option<rustc_abi::VariantIdx>, f: rustc_abi::FieldIdx) -> String {
        match ty.kind() {
            ty::TyKind::Adt(d, _) => {
                let v = match variant { Some(v) => d.variant(v), None => if d.is_enum() { return f.as_usize().to_string() } else { d.non_enum_variant() } };
                v.fields[f].name.to_string()
            }
            _ => f.as_usize().to_string(),
        }
    }
    fn pat(&mut self, th: &Thir<'tcx>, p: &Pat<'tcx>) -> J {
        let tcx = self.tcx;
        let _ = th;
        let mut o: Vec<(&'static str, J)> = vec![];
        match &p.kind {
            PatKind::Wild | PatKind::Missing | PatKind::Never => o.push(("k", s("wild"))),
            PatKind::Binding { name, mode, var, subpattern, ty, .. } => {
                o.push(("k", s("bind")));
                o.push(("name", s(name.as_str())));
                o.push(("var", self.var(*var)));
                o.push(("byref", match mode.0 { rustc_hir::ByRef::No => J::Null, rustc_hir::ByRef::Yes(_, m) => s(if m.is_mut() { "mut" } else { "ref" }) }));
                let t = self.ty(*ty); o.push(("ty", t));
                if let Some(sp) = subpattern { let x = self.pat(th, sp); o.push(("sub", x)); }
            }
            PatKind::Variant { adt_def, variant_index, subpatterns, .. } => {
                o.push(("k", s("variant")));
                o.push(("adt", s(path(tcx, adt_def.did()))));
                o.push(("variant", s(adt_def.variant(*variant_index).name.as_str())));
                let mut v = vec![];
                for fp in subpatterns {
                    let n = adt_def.variant(*variant_index).fields[fp.field].name.to_string();
                    let x = self.pat(th, &fp.pattern);
                    v.push(J::A(vec![s(n), x]));
                }
                o.push(("subs", J::A(v)));
            }
            PatKind::Leaf { subpatterns } => {
                o.push(("k", s("leaf")));
                let mut v = vec![];
                for fp in subpatterns {
                    let n = self.fields(p.ty, None, fp.field);
                    let x = self.pat(th, &fp.pattern);
                    v.push(J::A(vec![s(n), x]));
                }
                o.push(("subs", J::A(v)));
            }
            PatKind::Deref { subpattern, .. } => { o.push(("k", s("deref"))); let x = self.pat(th, subpattern); o.push(("sub", x)); }
            PatKind::DerefPattern { subpattern, .. } => { o.push(("k", s("derefpat"))); let x = self.pat(th, subpattern); o.push(("sub", x)); }
            PatKind::Constant { value } => { o.push(("k", s("const"))); o.push(("val", s(with_no_trimmed_paths!(format!("{}", value))))); }
            PatKind::Range(r) => { o.push(("k", s("range"))); o.push(("val", s(format!("{}", r)))); }
            PatKind::Slice { prefix, slice, suffix } | PatKind::Array { prefix, slice, suffix } => {
                o.push(("k", s("slice")));
                let a = prefix.iter().map(|p| self.pat(th, p)).collect();
                o.push(("prefix", J::A(a)));
                if let Some(m) = slice { let x = self.pat(th, m); o.push(("mid", x)); }
                let b = suffix.iter().map(|p| self.pat(th, p)).collect();
                o.push(("suffix", J::A(b)));
            }
            PatKind::Or { pats } => { o.push(("k", s("or"))); let a = pats.iter().map(|p| self.pat(th, p)).collect(); o.push(("pats", J::A(a))); }
            PatKind::Guard { subpattern, condition } => {
                o.push(("k", s("guard")));
                let x = self.pat(th, subpattern); o.push(("sub", x));
                o.push(("cond", J::I(condition.as_usize() as i128)));
            }
            PatKind::Error(_) => o.push(("k", s("wild"))),
        }
        let t = self.ty(p.ty);
        o.push(("pty", t));
        J::O(o)
    }
    fn body(&mut self, def: LocalDefId) -> Option<J> {
        let tcx = self.tcx;
        let (th, root) = match tcx.thir_body(def) { Ok(x) => x, Err(_) => return None };
        let th = th.borrow();
        let th: &Thir<'tcx> = &th;
        self.env = Some(ty::TypingEnv::post_analysis(tcx, def.to_def_id()));
        // the FnDef memo depends on the env: separate interning per body for fndefs
        let mut exprs = vec![];
        for e in th.exprs.iter() { let j = self.expr(th, e); exprs.push(j); }
        let mut params = vec![];
        for p in th.params.iter() {
            let pat = match &p.pat { Some(p) => self.pat(th, p), None => J::Null };
            let t = self.ty(p.ty);
            params.push(J::O(vec![("pat", pat), ("ty", t), ("self", J::B(p.self_kind.is_some()))]));
        }
        let mut arms = vec![];
        for a in th.arms.iter() {
            let pat = self.pat(th, &a.pattern);
            arms.push(J::O(vec![("pat", pat), ("guard", a.guard.map(|g| J::I(g.as_usize() as i128)).unwrap_or(J::Null)), ("body", J::I(a.body.as_usize() as i128))]));
        }
        let mut blocks = vec![];
        for b in th.blocks.iter() {
            blocks.push(J::O(vec![
                ("stmts", J::A(b.stmts.iter().map(|x| J::I(x.as_usize() as i128)).collect())),
                ("expr", b.expr.map(|x| J::I(x.as_usize() as i128)).unwrap_or(J::Null)),
                ("brk", J::B(b.targeted_by_break)),
                ("scope", J::I(b.region_scope.local_id.as_u32() as i128)),
            ]));
        }
        let mut stmts = vec![];
        for st in th.stmts.iter() {
            stmts.push(match &st.kind {
                StmtKind::Expr { expr, .. } => J::O(vec![("k", s("expr")), ("e", J::I(expr.as_usize() as i128))]),
                StmtKind::Let { pattern, initializer, else_block, .. } => {
                    let p = self.pat(th, pattern);
                    J::O(vec![("k", s("let")), ("pat", p),
                        ("init", initializer.map(|x| J::I(x.as_usize() as i128)).unwrap_or(J::Null)),
                        ("else", else_block.map(|x| J::I(x.as_usize() as i128)).unwrap_or(J::Null))])
                }
            });
        }
        let d = def.to_def_id();
        let sp = self.span(tcx.def_span(d));
        let mut o = vec![("key", s(key(tcx, d))), ("path", s(path(tcx, d))), ("span", sp),
            ("kind", s(format!("{:?}", tcx.def_kind(d)))),
            ("root", J::I(root.as_usize() as i128)),
            ("params", J::A(params)), ("exprs", J::A(exprs)), ("arms", J::A(arms)), ("blocks", J::A(blocks)), ("stmts", J::A(stmts))];
        if let Some(im) = tcx.impl_of_assoc(d) {
            let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
            let st = self.ty(st);
            o.push(("impl_self", st));
            if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                let tr = tr.instantiate_identity().skip_norm_wip();
                o.push(("impl_trait", s(path(tcx, tr.def_id))));
                let a = self.args(tr.args);
                o.push(("impl_trait_args", a));
            }
            o.push(("name", s(tcx.item_name(d).as_str())));
        } else if let Some(tr) = tcx.trait_of_assoc(d) {
            o.push(("in_trait", s(path(tcx, tr))));
            o.push(("name", s(tcx.item_name(d).as_str())));
        } else if tcx.def_kind(d) == DefKind::Fn {
            o.push(("name", s(tcx.item_name(d).as_str())));
        }
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn | DefKind::AssocConst {..} | DefKind::Const {..}) {
            let mut names = vec![];
            let g = tcx.generics_of(d);
            for i in 0..g.count() {
                let p = g.param_at(i, tcx);
                if !matches!(p.kind, ty::GenericParamDefKind::Lifetime) { names.push(s(p.name.as_str())); }
            }
            o.push(("gnames", J::A(names)));
            if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) { o.push(("pub", J::B(tcx.visibility(d).is_public()))); }
        }
        self.env = None;
        Some(J::O(o))
    }
    fn expr(&mut self, th: &Thir<'tcx>, e: &Expr<'tcx>) -> J {
        let tcx = self.tcx;
        let i = |x: ExprId| J::I(x.as_usize() as i128);
        let mut o: Vec<(&'static str, J)> = vec![];
        macro_rules! k { ($n:expr) => { o.push(("k", s($n))) } }
        match &e.kind {
            ExprKind::Scope { region_scope, value, .. } => { k!("scope"); o.push(("id", J::I(region_scope.local_id.as_u32() as i128))); o.push(("e", i(*value))) }
            ExprKind::If { cond, then, else_opt, .. } => { k!("if"); o.push(("c", i(*cond))); o.push(("t", i(*then))); o.push(("f", else_opt.map(i).unwrap_or(J::Null))) }
            ExprKind::Call { fun, args, .. } => { k!("call"); o.push(("fun", i(*fun)));
                let ft = th.exprs[*fun].ty;
                let fj = match ft.kind() { ty::TyKind::FnDef(..) => self.ty_(ft), _ => J::Null };
                o.push(("fty", fj));
                o.push(("args", J::A(args.iter().map(|x| i(*x)).collect()))) }
            ExprKind::ByUse { expr, .. } => { k!("use"); o.push(("e", i(*expr))) }
            ExprKind::Deref { arg } => { k!("deref"); o.push(("e", i(*arg))) }
            ExprKind::Binary { op, lhs, rhs } => { k!("bin"); o.push(("op", s(format!("{:?}", op)))); o.push(("l", i(*lhs))); o.push(("r", i(*rhs))) }
            ExprKind::LogicalOp { op, lhs, rhs } => { k!("logic"); o.push(("op", s(format!("{:?}", op)))); o.push(("l", i(*lhs))); o.push(("r", i(*rhs))) }
            ExprKind::Unary { op, arg } => { k!("un"); o.push(("op", s(format!("{:?}", op)))); o.push(("e", i(*arg))) }
            ExprKind::Cast { source } => { k!("cast"); o.push(("e", i(*source))) }
            ExprKind::ValueExpr { source } | ExprKind::NeverToAny { source } | ExprKind::PlaceTypeAscription { source, .. } | ExprKind::ValueTypeAscription { source, .. } => { k!("scope"); o.push(("e", i(*source))) }
            ExprKind::PointerCoercion { cast, source, .. } => { k!("coerce"); o.push(("op", s(format!("{:?}", cast)))); o.push(("e", i(*source))) }
            ExprKind::Loop { body } => { k!("loop"); o.push(("e", i(*body))) }
            ExprKind::Let { expr, pat } => { k!("let"); o.push(("e", i(*expr))); let p = self.pat(th, pat); o.push(("pat", p)) }
            ExprKind::Match { scrutinee, arms, match_source } => { k!("match"); o.push(("e", i(*scrutinee))); o.push(("src", s(format!("{:?}", match_source)))); o.push(("arms", J::A(arms.iter().map(|a| J::I(a.as_usize() as i128)).collect()))) }
            ExprKind::Block { block } => { k!("block"); o.push(("b", J::I(block.as_usize() as i128))) }
            ExprKind::Assign { lhs, rhs } => { k!("assign"); o.push(("l", i(*lhs))); o.push(("r", i(*rhs))) }
            ExprKind::AssignOp { op, lhs, rhs } => { k!("assignop"); o.push(("op", s(format!("{:?}", op)))); o.push(("l", i(*lhs))); o.push(("r", i(*rhs))) }
            ExprKind::Field { lhs, variant_index, name } => { k!("field"); o.push(("e", i(*lhs))); let t = th.exprs[*lhs].ty; let v = if let ty::TyKind::Adt(..) = t.kind() { Some(*variant_index) } else { None }; let n = self.fields(t, v, *name); o.push(("f", s(n))) }
            ExprKind::Index { lhs, index } => { k!("index"); o.push(("e", i(*lhs))); o.push(("i", i(*index))) }
            ExprKind::VarRef { id } => { k!("var"); o.push(("v", self.var(*id))) }
            ExprKind::UpvarRef { var_hir_id, .. } => { k!("upvar"); o.push(("v", self.var(*var_hir_id))) }
            ExprKind::Borrow { borrow_kind, arg } => { k!("borrow"); o.push(("mut", J::B(matches!(borrow_kind, rustc_middle::mir::BorrowKind::Mut { .. })))); o.push(("e", i(*arg))) }
            ExprKind::RawBorrow { arg, .. } => { k!("rawborrow"); o.push(("e", i(*arg))) }
            ExprKind::Break { label, value } => { k!("break"); o.push(("label", J::I(label.local_id.as_u32() as i128))); o.push(("e", value.map(i).unwrap_or(J::Null))) }
            ExprKind::Continue { label } => { k!("continue"); o.push(("label", J::I(label.local_id.as_u32() as i128))) }
            ExprKind::Return { value } => { k!("return"); o.push(("e", value.map(i).unwrap_or(J::Null))) }
            ExprKind::Repeat { value, count } => { k!("repeat"); o.push(("e", i(*value))); o.push(("n", s(format!("{}", count)))) }
            ExprKind::Array { fields } => { k!("array"); o.push(("es", J::A(fields.iter().map(|x| i(*x)).collect()))) }
            ExprKind::Tuple { fields } => { k!("tuple"); o.push(("es", J::A(fields.iter().map(|x| i(*x)).collect()))) }
            ExprKind::Adt(a) => {
                k!("adt");
                let v = a.adt_def.variant(a.variant_index);
                o.push(("adt", s(path(tcx, a.adt_def.did()))));
                o.push(("variant", s(v.name.as_str())));
                o.push(("isenum", J::B(a.adt_def.is_enum())));
                let fs = a.fields.iter().map(|f| J::A(vec![s(v.fields[f.name].name.as_str()), i(f.expr)])).collect();
                o.push(("fs", J::A(fs)));
                match &a.base {
                    AdtExprBase::None => {}
                    AdtExprBase::Base(f) => o.push(("base", i(f.base))),
                    AdtExprBase::DefaultFields(_) => o.push(("base", s("default"))),
                }
            }
            ExprKind::Closure(c) => { k!("closure"); o.push(("key", s(key(tcx, c.closure_id.to_def_id())))); o.push(("upvars", J::A(c.upvars.iter().map(|x| i(*x)).collect()))) }
            ExprKind::Literal { lit, neg } => {
                k!("lit");
                use rustc_ast::LitKind::*;
                match &lit.node {
                    Int(n, _) => { let v = n.get() as i128; o.push(("int", J::I(if *neg { -v } else { v }))) }
                    Bool(b) => o.push(("bool", J::B(*b))),
                    Str(x, _) => o.push(("str", s(x.as_str()))),
                    ByteStr(b, _) | CStr(b, _) => o.push(("bytes", J::A(b.as_byte_str().iter().map(|x| J::I(*x as i128)).collect()))),
                    Byte(b) => o.push(("int", J::I(*b as i128))),
                    other => o.push(("other", s(format!("{:?}", other)))),
                }
            }
            ExprKind::NonHirLiteral { lit, .. } => { k!("lit"); o.push(("int", J::I(lit.to_bits_unchecked() as i128))) }
            ExprKind::ZstLiteral { .. } => { k!("zst"); o.push(("fty", self.ty_(e.ty))) }
            ExprKind::NamedConst { def_id, args, .. } => { k!("const"); o.push(("path", s(path(tcx, *def_id)))); o.push(("key", s(key(tcx, *def_id)))); let a = self.args(*args); o.push(("args", a));
                if let Some(tr) = tcx.trait_of_assoc(*def_id) { o.push(("trait", s(path(tcx, tr)))); } }
            ExprKind::ConstParam { param, .. } => { k!("constparam"); o.push(("name", s(param.name.as_str()))) }
            ExprKind::StaticRef { def_id, .. } => { k!("static"); o.push(("path", s(path(tcx, *def_id)))) }
            ExprKind::ConstBlock { did, .. } => { k!("constblock"); o.push(("key", s(key(tcx, *did)))) }
            ExprKind::Reborrow { source, .. } => { k!("scope"); o.push(("e", i(*source))) }
            other => { k!("unsupported"); o.push(("dbg", s(format!("{:?}", std::mem::discriminant(other))))) }
        }
        let t = self.ty(e.ty);
        o.push(("ty", t));
        let sp = self.span(e.span);
        o.push(("sp", sp));
        J::O(o)
    }
}

struct Cb { out: String }
impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let mut cx = Cx { tcx, types: vec![], tymap: HashMap::new(), env: None };
        let mut bodies = vec![];
        for def in tcx.hir_body_owners() {
            if let Some(b) = cx.body(def) { bodies.push(b); }
        }
        // ADTs, impls, traits
        let mut adts = vec![];
        let mut impls = vec![];
        let mut traits = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            let d = id.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Struct | DefKind::Enum | DefKind::Union => {
                    let a = tcx.adt_def(d);
                    let mut vs = vec![];
                    for v in a.variants().iter() {
                        let mut fs = vec![];
                        for f in v.fields.iter() {
                            let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                            let t = cx.ty(t);
                            fs.push(J::A(vec![s(f.name.as_str()), t, J::B(f.vis.is_public())]));
                        }
                        vs.push(J::A(vec![s(v.name.as_str()), J::A(fs)]));
                    }
                    adts.push(J::O(vec![("path", s(path(tcx, d))), ("key", s(key(tcx, d))), ("variants", J::A(vs)), ("enum", J::B(a.is_enum())), ("span", cx.span(tcx.def_span(d)))]));
                }
                DefKind::Impl { .. } => {
                    let st = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    let st = cx.ty(st);
                    let mut o = vec![("key", s(key(tcx, d))), ("self", st)];
                    if let Some(tr) = tcx.impl_opt_trait_ref(d) {
                        let tr = tr.instantiate_identity().skip_norm_wip();
                        o.push(("trait", s(path(tcx, tr.def_id))));
                        let a = cx.args(tr.args);
                        o.push(("trait_args", a));
                    }
                    let mut items = vec![];
                    for it in tcx.associated_items(d).in_definition_order() {
                        if let Some(nm) = it.opt_name() {
                            items.push(J::A(vec![s(nm.as_str()), s(key(tcx, it.def_id)), s(format!("{:?}", tcx.def_kind(it.def_id)))]));
                        }
                    }
                    o.push(("items", J::A(items)));
                    o.push(("span", cx.span(tcx.def_span(d))));
                    o.push(("derived", J::B(tcx.is_automatically_derived(d))));
                    impls.push(J::O(o));
                }
                DefKind::Trait => {
                    let mut items = vec![];
                    for it in tcx.associated_items(d).in_definition_order() {
                        if let Some(nm) = it.opt_name() {
                            items.push(J::A(vec![s(nm.as_str()), s(key(tcx, it.def_id)), s(format!("{:?}", tcx.def_kind(it.def_id))), J::B(it.defaultness(tcx).has_value())]));
                        }
                    }
                    traits.push(J::O(vec![("path", s(path(tcx, d))), ("key", s(key(tcx, d))), ("items", J::A(items))]));
                }
                _ => {}
            }
        }
        let types = J::A(std::mem::take(&mut cx.types));
        let j = J::O(vec![("bodies", J::A(bodies)), ("adts", J::A(adts)), ("impls", J::A(impls)), ("traits", J::A(traits)), ("types", types)]);
        let mut o = String::new();
        j.write(&mut o);
        std::fs::write(&self.out, o).expect("write dump");
        Compilation::Continue
    }
}
struct Nop;
impl Callbacks for Nop {}

fn main() {
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the rustc path
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && args[1].ends_with("rustc") { args.remove(1); }
    let want = std::env::var("THIR_DUMP_CRATE").unwrap_or_default();
    let out = std::env::var("THIR_DUMP_OUT").unwrap_or_default();
    let is = args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == want);
    let code = rustc_driver::catch_with_exit_code(move || {
        if is && !out.is_empty() {
            args.push("-Zno-steal-thir".into());
            args.push("-Zthir-unsafeck=no".into());
            args.retain(|a| a != "-Zthir-unsafeck=no");
            rustc_driver::compiler_entrypoint(&args, &mut Cb { out })
        } else {
            rustc_driver::compiler_entrypoint(&args, &mut Nop)
        }
    });
    std::process::exit(match code { _ if false => 0, c => exit_code(c) });
}
fn exit_code(c: std::process::ExitCode) -> i32 {
    if format!("{:?}", c) == format!("{:?}", std::process::ExitCode::SUCCESS) { 0 } else { 1 }
}
