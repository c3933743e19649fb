//! Dumps the typed, resolved program (THIR) of selected crates as JSON.
//!
//! Used as RUSTC_WRAPPER: argv = [thirdump, rustc, args...].  For crates whose
//! name is listed in THIRDUMP_CRATES the compiler runs with a callback that
//! writes `$THIRDUMP_OUT/<crate>.json`; every other crate is compiled by the
//! ordinary rustc unchanged.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_ast;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::middle::region;
use rustc_middle::thir::*;
use rustc_middle::ty::{self, Ty, TyCtxt, TypeVisitableExt};
use rustc_span::Span;
use std::collections::HashMap;
use std::fmt::Write as _;

enum J {
    Null,
    B(bool),
    I(i64),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
}
fn s<T: Into<String>>(x: T) -> J { J::S(x.into()) }
fn esc(x: &str, o: &mut String) {
    o.push('"');
    for c in x.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
}
impl J {
    fn w(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::I(i) => { let _ = write!(o, "{}", i); }
            J::S(x) => esc(x, o),
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() { if i > 0 { o.push(',') } x.w(o); }
                o.push(']');
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 { o.push(',') }
                    esc(k, o); o.push(':'); x.w(o);
                }
                o.push('}');
            }
        }
    }
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: Vec<J>,
    tyix: HashMap<Ty<'tcx>, usize>,
    adts: Vec<(DefId, J)>,
    adtseen: HashMap<DefId, ()>,
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        let p = rustc_middle::ty::print::with_resolve_crate_name!(
            rustc_middle::ty::print::with_no_trimmed_paths!(
                rustc_middle::ty::print::with_no_visible_paths!(self.tcx.def_path_str(d))));
        p
    }
    fn krate(&self, d: DefId) -> String { self.tcx.crate_name(d.krate).to_string() }
    fn span(&self, sp: Span) -> J {
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let l = sm.lookup_char_pos(sp.lo());
        let f = match &l.file.name {
            rustc_span::FileName::Real(r) => r.local_path().map(|p| p.display().to_string()).unwrap_or_else(|| "?".into()),
            o => format!("{:?}", o),
        };
        s(format!("{}:{}:{}", f, l.line, l.col.0 + 1))
    }
    /// Span of the innermost location (inside macro definitions).
    fn ispan(&self, sp: Span) -> J {
        let sm = self.tcx.sess.source_map();
        let l = sm.lookup_char_pos(sp.lo());
        let f = match &l.file.name {
            rustc_span::FileName::Real(r) => r.local_path().map(|p| p.display().to_string()).unwrap_or_else(|| "?".into()),
            o => format!("{:?}", o),
        };
        s(format!("{}:{}:{}", f, l.line, l.col.0 + 1))
    }
    fn tystr(&self, t: Ty<'tcx>) -> String {
        rustc_middle::ty::print::with_resolve_crate_name!(
            rustc_middle::ty::print::with_no_trimmed_paths!(
                rustc_middle::ty::print::with_no_visible_paths!(t.to_string())))
    }
    fn gargs(&mut self, a: ty::GenericArgsRef<'tcx>) -> J {
        let mut v = vec![];
        for x in a.iter() {
            if let Some(t) = x.as_type() { v.push(self.ty(t)); }
            else if let Some(c) = x.as_const() { v.push(s(format!("{}", c))); }
        }
        J::A(v)
    }
    fn ty(&mut self, t: Ty<'tcx>) -> J {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(i) = self.tyix.get(&t) { return J::I(*i as i64); }
        let i = self.tys.len();
        self.tys.push(J::Null);
        self.tyix.insert(t, i);
        let str_ = s(self.tystr(t));
        let mut o: Vec<(&'static str, J)> = vec![("s", str_)];
        match *t.kind() {
            ty::Adt(d, a) => {
                o.push(("k", s("adt")));
                o.push(("p", s(self.path(d.did()))));
                let ga = self.gargs(a);
                o.push(("a", ga));
                self.adt(d);
            }
            ty::Ref(_, x, m) => {
                o.push(("k", s(if m.is_mut() { "refmut" } else { "ref" })));
                let x = self.ty(x);
                o.push(("t", x));
            }
            ty::RawPtr(x, m) => {
                o.push(("k", s(if m.is_mut() { "ptrmut" } else { "ptr" })));
                let x = self.ty(x);
                o.push(("t", x));
            }
            ty::Slice(x) => { o.push(("k", s("slice"))); let x = self.ty(x); o.push(("t", x)); }
            ty::Array(x, n) => {
                o.push(("k", s("array")));
                let x = self.ty(x);
                o.push(("t", x));
                o.push(("n", s(format!("{}", n))));
            }
            ty::Tuple(ts) => {
                o.push(("k", s("tuple")));
                let v = ts.iter().map(|x| self.ty(x)).collect();
                o.push(("a", J::A(v)));
            }
            ty::FnDef(d, a) => {
                o.push(("k", s("fndef")));
                o.push(("p", s(self.path(d.into()))));
                let ga = self.gargs(a.no_bound_vars().unwrap_or_else(|| a.skip_binder()));
                o.push(("a", ga));
            }
            ty::Closure(d, _) => { o.push(("k", s("closure"))); o.push(("p", s(self.path(d.into())))); }
            ty::Param(p) => { o.push(("k", s("param"))); o.push(("p", s(p.name.to_string()))); }
            ty::Dynamic(..) => o.push(("k", s("dyn"))),
            ty::Never => o.push(("k", s("never"))),
            ty::Str => o.push(("k", s("str"))),
            ty::FnPtr(..) => o.push(("k", s("fnptr"))),
            ty::Alias(..) => o.push(("k", s("alias"))),
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) => o.push(("k", s("prim"))),
            _ => o.push(("k", s("other"))),
        }
        self.tys[i] = J::O(o);
        J::I(i as i64)
    }
    fn adt(&mut self, d: ty::AdtDef<'tcx>) {
        if self.adtseen.contains_key(&d.did()) { return; }
        self.adtseen.insert(d.did(), ());
        let tcx = self.tcx;
        let mut vs = vec![];
        for v in d.variants().iter() {
            let mut fs = vec![];
            for f in v.fields.iter() {
                let ft = if d.did().is_local() { let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip(); self.ty(t) } else { J::Null };
                fs.push(J::O(vec![
                    ("n", s(f.name.to_string())),
                    ("ty", ft),
                    ("pub", J::B(f.vis.is_public())),
                ]));
            }
            vs.push(J::O(vec![("n", s(v.name.to_string())), ("f", J::A(fs)),
                              ("ctor", s(format!("{:?}", v.ctor_kind())))]));
        }
        let j = J::O(vec![
            ("p", s(self.path(d.did()))),
            ("local", J::B(d.did().is_local())),
            ("kind", s(if d.is_enum() { "enum" } else if d.is_union() { "union" } else { "struct" })),
            ("pub", J::B(tcx.visibility(d.did()).is_public())),
            ("variants", J::A(vs)),
            ("span", if d.did().is_local() { self.span(tcx.def_span(d.did())) } else { J::Null }),
        ]);
        self.adts.push((d.did(), j));
    }
    fn callee(&mut self, owner: LocalDefId, d: DefId, args: ty::GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let mut o: Vec<(&'static str, J)> = vec![("p", s(self.path(d))), ("crate", s(self.krate(d)))];
        let ga = self.gargs(args);
        o.push(("a", ga));
        let kind = tcx.def_kind(d);
        if let Some(t) = tcx.trait_of_assoc(d) {
            o.push(("trait", s(self.path(t))));
        }
        o.push(("name", s(tcx.opt_item_name(d).map(|x| x.to_string()).unwrap_or_default())));
        o.push(("foreign", J::B(tcx.is_foreign_item(d))));
        if let DefKind::Ctor(..) = kind {
            let v = tcx.parent(d);
            let (adt, var) = match tcx.def_kind(v) {
                DefKind::Variant => (tcx.parent(v), tcx.item_name(v).to_string()),
                _ => (v, tcx.item_name(v).to_string()),
            };
            o.push(("ctor", J::A(vec![s(self.path(adt)), s(var)])));
            return J::O(o);
        }
        if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
            let te = ty::TypingEnv::post_analysis(tcx, owner);
            let eargs = tcx.erase_and_anonymize_regions(args);
            if !eargs.has_escaping_bound_vars() {
                if let Ok(Some(i)) = ty::Instance::try_resolve(tcx, te, d, eargs) {
                    let rd = i.def_id();
                    o.push(("r", s(self.path(rd))));
                    o.push(("rcrate", s(self.krate(rd))));
                    o.push(("rkind", s(match i.def { ty::InstanceKind::Item(_) => "item", ty::InstanceKind::Virtual(..) => "virtual", _ => "shim" })));
                    let ra = self.gargs(i.args);
                    o.push(("ra", ra));
                    if let Some(im) = tcx.impl_of_assoc(rd) {
                        let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                        o.push(("rself", s(self.tystr(st))));
                    }
                }
            }
            let safety = tcx.fn_sig(d).skip_binder().safety();
            o.push(("unsafe", J::B(safety.is_unsafe())));
        }
        J::O(o)
    }
    fn scope_id(&self, r: region::Scope) -> J { J::I(r.local_id.as_u32() as i64) }
}

struct Bd<'a, 'tcx> {
    cx: &'a mut Cx<'tcx>,
    owner: LocalDefId,
    thir: &'a Thir<'tcx>,
}

impl<'a, 'tcx> Bd<'a, 'tcx> {
    fn var(&self, v: LocalVarId) -> J { J::I(v.0.local_id.as_u32() as i64) }
    fn es(&mut self, v: &[ExprId]) -> J { J::A(v.iter().map(|e| self.expr(*e)).collect()) }
    fn oe(&mut self, v: Option<ExprId>) -> J { match v { Some(e) => self.expr(e), None => J::Null } }
    fn expr(&mut self, id: ExprId) -> J {
        let thir = self.thir;
        let e = &thir.exprs[id];
        let mut o: Vec<(&'static str, J)> = vec![];
        macro_rules! k { ($n:expr) => { o.push(("k", s($n))) } }
        let tcx = self.cx.tcx;
        match &e.kind {
            ExprKind::Scope { region_scope, value, .. } => {
                k!("Scope");
                o.push(("id", self.cx.scope_id(*region_scope)));
                let v = self.expr(*value);
                o.push(("v", v));
                return J::O(o);
            }
            ExprKind::If { cond, then, else_opt, .. } => {
                k!("If");
                let c = self.expr(*cond); o.push(("c", c));
                let t = self.expr(*then); o.push(("t", t));
                let f = self.oe(*else_opt); o.push(("e", f));
            }
            ExprKind::Call { fun, args, ty, .. } => {
                k!("Call");
                match *ty.kind() {
                    ty::FnDef(d, ga) => {
                        let ga = ga.no_bound_vars().unwrap_or_else(|| ga.skip_binder());
                        let c = self.cx.callee(self.owner, d.into(), ga);
                        o.push(("f", c));
                        o.push(("fk", s(self.fnkey(d.into()))));
                    }
                    _ => { let f = self.expr(*fun); o.push(("fe", f)); }
                }
                let a = self.es(args); o.push(("a", a));
            }
            ExprKind::ByUse { expr, .. } => { k!("Use"); let v = self.expr(*expr); o.push(("v", v)); }
            ExprKind::Deref { arg } => { k!("Deref"); let v = self.expr(*arg); o.push(("v", v)); }
            ExprKind::Binary { op, lhs, rhs } => {
                k!("Binary"); o.push(("op", s(format!("{:?}", op))));
                let l = self.expr(*lhs); o.push(("l", l));
                let r = self.expr(*rhs); o.push(("r", r));
            }
            ExprKind::LogicalOp { op, lhs, rhs } => {
                k!("Logical"); o.push(("op", s(match op { LogicalOp::And => "And", LogicalOp::Or => "Or" })));
                let l = self.expr(*lhs); o.push(("l", l));
                let r = self.expr(*rhs); o.push(("r", r));
            }
            ExprKind::Unary { op, arg } => {
                k!("Unary"); o.push(("op", s(format!("{:?}", op))));
                let v = self.expr(*arg); o.push(("v", v));
            }
            ExprKind::Cast { source } => { k!("Cast"); let v = self.expr(*source); o.push(("v", v)); }
            ExprKind::ValueExpr { source } | ExprKind::NeverToAny { source }
            | ExprKind::PlaceTypeAscription { source, .. } | ExprKind::ValueTypeAscription { source, .. }
            | ExprKind::PlaceUnwrapUnsafeBinder { source } | ExprKind::ValueUnwrapUnsafeBinder { source }
            | ExprKind::WrapUnsafeBinder { source } => {
                k!("Use"); let v = self.expr(*source); o.push(("v", v));
            }
            ExprKind::Reborrow { source, .. } => { k!("Use"); let v = self.expr(*source); o.push(("v", v)); }
            ExprKind::PointerCoercion { cast, source, .. } => {
                k!("Coerce"); o.push(("c", s(format!("{:?}", cast))));
                let v = self.expr(*source); o.push(("v", v));
            }
            ExprKind::Loop { body } => { k!("Loop"); let v = self.expr(*body); o.push(("b", v)); }
            ExprKind::LoopMatch { .. } => k!("LoopMatch"),
            ExprKind::Let { expr, pat } => {
                k!("Let"); let v = self.expr(*expr); o.push(("v", v));
                let p = self.pat(pat); o.push(("p", p));
            }
            ExprKind::Match { scrutinee, arms, match_source } => {
                k!("Match");
                o.push(("src", s(format!("{:?}", match_source).split('(').next().unwrap())));
                let v = self.expr(*scrutinee); o.push(("v", v));
                let mut av = vec![];
                for a in arms.iter() {
                    let arm = &thir.arms[*a];
                    let p = self.pat(&arm.pattern);
                    let g = self.oe(arm.guard);
                    let b = self.expr(arm.body);
                    av.push(J::O(vec![("p", p), ("g", g), ("b", b), ("id", self.cx.scope_id(arm.scope))]));
                }
                o.push(("arms", J::A(av)));
            }
            ExprKind::Block { block } => { k!("Block"); let b = self.block(*block); o.push(("b", b)); }
            ExprKind::Assign { lhs, rhs } => {
                k!("Assign");
                let l = self.expr(*lhs); o.push(("l", l));
                let r = self.expr(*rhs); o.push(("r", r));
            }
            ExprKind::AssignOp { op, lhs, rhs } => {
                k!("AssignOp"); o.push(("op", s(format!("{:?}", op))));
                let l = self.expr(*lhs); o.push(("l", l));
                let r = self.expr(*rhs); o.push(("r", r));
            }
            ExprKind::Field { lhs, variant_index, name } => {
                k!("Field");
                o.push(("i", J::I(name.as_u32() as i64)));
                let lt = thir.exprs[*lhs].ty;
                if let ty::Adt(d, _) = *lt.kind() {
                    let v = &d.variants()[*variant_index];
                    o.push(("n", s(v.fields[*name].name.to_string())));
                    o.push(("adt", s(self.cx.path(d.did()))));
                }
                let l = self.expr(*lhs); o.push(("v", l));
            }
            ExprKind::Index { lhs, index } => {
                k!("Index");
                let l = self.expr(*lhs); o.push(("v", l));
                let r = self.expr(*index); o.push(("i", r));
            }
            ExprKind::VarRef { id } => { k!("Var"); o.push(("id", self.var(*id))); o.push(("n", s(tcx.hir_name(id.0).to_string()))); }
            ExprKind::UpvarRef { var_hir_id, .. } => { k!("Var"); o.push(("id", self.var(*var_hir_id))); o.push(("up", J::B(true))); o.push(("n", s(tcx.hir_name(var_hir_id.0).to_string()))); }
            ExprKind::Borrow { borrow_kind, arg } => {
                k!("Borrow");
                o.push(("m", J::B(matches!(borrow_kind, rustc_middle::mir::BorrowKind::Mut { .. }))));
                let v = self.expr(*arg); o.push(("v", v));
            }
            ExprKind::RawBorrow { mutability, arg } => {
                k!("RawBorrow"); o.push(("m", J::B(mutability.is_mut())));
                let v = self.expr(*arg); o.push(("v", v));
            }
            ExprKind::Break { label, value } => {
                k!("Break"); o.push(("id", self.cx.scope_id(*label)));
                let v = self.oe(*value); o.push(("v", v));
            }
            ExprKind::Continue { label } => { k!("Continue"); o.push(("id", self.cx.scope_id(*label))); }
            ExprKind::ConstContinue { .. } => k!("ConstContinue"),
            ExprKind::Return { value } => { k!("Return"); let v = self.oe(*value); o.push(("v", v)); }
            ExprKind::Become { .. } => k!("Become"),
            ExprKind::ConstBlock { .. } => k!("ConstBlock"),
            ExprKind::Repeat { value, count } => {
                k!("Repeat"); let v = self.expr(*value); o.push(("v", v));
                o.push(("n", s(format!("{}", count))));
            }
            ExprKind::Array { fields } => { k!("Array"); let v = self.es(fields); o.push(("a", v)); }
            ExprKind::Tuple { fields } => { k!("Tuple"); let v = self.es(fields); o.push(("a", v)); }
            ExprKind::Adt(a) => {
                k!("Adt");
                let v = &a.adt_def.variants()[a.variant_index];
                o.push(("p", s(self.cx.path(a.adt_def.did()))));
                o.push(("var", s(v.name.to_string())));
                self.cx.adt(a.adt_def);
                let mut fs = vec![];
                for f in a.fields.iter() {
                    let x = self.expr(f.expr);
                    fs.push(J::A(vec![s(v.fields[f.name].name.to_string()), x]));
                }
                o.push(("f", J::A(fs)));
                match &a.base {
                    AdtExprBase::None => (),
                    AdtExprBase::Base(b) => { let x = self.expr(b.base); o.push(("base", x)); }
                    AdtExprBase::DefaultFields(_) => o.push(("base", s("default"))),
                }
            }
            ExprKind::Closure(c) => {
                k!("Closure");
                o.push(("p", s(self.cx.path(c.closure_id.to_def_id()))));
                let up = self.es(&c.upvars); o.push(("up", up));
                let b = body(self.cx, c.closure_id);
                o.push(("body", b));
            }
            ExprKind::Literal { lit, neg } => {
                k!("Lit");
                use rustc_ast::LitKind as L;
                match &lit.node {
                    L::Str(x, _) => { o.push(("lk", s("str"))); o.push(("v", s(x.to_string()))); }
                    L::ByteStr(x, _) => {
                        o.push(("lk", s("bytes")));
                        o.push(("v", J::A(x.as_byte_str().iter().map(|b| J::I(*b as i64)).collect())));
                    }
                    L::CStr(x, _) => {
                        o.push(("lk", s("cstr")));
                        o.push(("v", J::A(x.as_byte_str().iter().map(|b| J::I(*b as i64)).collect())));
                    }
                    L::Byte(b) => { o.push(("lk", s("int"))); o.push(("v", s(b.to_string()))); }
                    L::Char(c) => { o.push(("lk", s("char"))); o.push(("v", s(c.to_string()))); }
                    L::Int(x, _) => { o.push(("lk", s("int"))); o.push(("v", s(format!("{}{}", if *neg { "-" } else { "" }, x.get())))); }
                    L::Float(x, _) => { o.push(("lk", s("float"))); o.push(("v", s(format!("{}{}", if *neg { "-" } else { "" }, x)))); }
                    L::Bool(b) => { o.push(("lk", s("bool"))); o.push(("v", J::B(*b))); }
                    L::Err(_) => o.push(("lk", s("err"))),
                }
            }
            ExprKind::NonHirLiteral { lit, .. } => { k!("Lit"); o.push(("lk", s("scalar"))); o.push(("v", s(format!("{:?}", lit)))); }
            ExprKind::ZstLiteral { .. } => {
                k!("Zst");
                if let ty::FnDef(d, ga) = *e.ty.kind() {
                    let ga = ga.no_bound_vars().unwrap_or_else(|| ga.skip_binder());
                    let c = self.cx.callee(self.owner, d.into(), ga);
                    o.push(("f", c));
                    o.push(("fk", s(self.fnkey(d.into()))));
                }
            }
            ExprKind::NamedConst { def_id, args, .. } => {
                k!("Const");
                o.push(("p", s(self.cx.path(*def_id))));
                o.push(("crate", s(self.cx.krate(*def_id))));
                let ga = self.cx.gargs(args);
                o.push(("ga", ga));
            }
            ExprKind::ConstParam { param, .. } => { k!("ConstParam"); o.push(("n", s(param.name.to_string()))); }
            ExprKind::StaticRef { def_id, .. } => { k!("Static"); o.push(("p", s(self.cx.path(*def_id)))); }
            ExprKind::InlineAsm(_) => k!("Asm"),
            ExprKind::ThreadLocalRef(d) => { k!("ThreadLocal"); o.push(("p", s(self.cx.path(*d)))); }
            ExprKind::Yield { .. } => k!("Yield"),
        }
        let t = self.cx.ty(e.ty);
        o.push(("ty", t));
        o.push(("sp", self.cx.ispan(e.span)));
        let cs = e.span.ctxt().is_root();
        if !cs { o.push(("cs", self.cx.span(e.span))); }
        J::O(o)
    }
    fn fnkey(&self, d: DefId) -> String {
        format!("{}", self.cx.path(d))
    }
    fn block(&mut self, b: BlockId) -> J {
        let thir = self.thir;
        let b = &thir.blocks[b];
        let mut st = vec![];
        for x in b.stmts.iter() {
            match &thir.stmts[*x].kind {
                StmtKind::Expr { expr, .. } => { let e = self.expr(*expr); st.push(J::O(vec![("k", s("Expr")), ("e", e)])); }
                StmtKind::Let { pattern, initializer, else_block, span, .. } => {
                    let p = self.pat(pattern);
                    let i = self.oe(*initializer);
                    let eb = match else_block { Some(b) => self.block(*b), None => J::Null };
                    st.push(J::O(vec![("k", s("Let")), ("p", p), ("i", i), ("els", eb), ("sp", self.cx.ispan(*span))]));
                }
            }
        }
        let e = self.oe(b.expr);
        J::O(vec![("s", J::A(st)), ("e", e), ("unsafe", J::B(matches!(b.safety_mode, BlockSafety::ExplicitUnsafe(_)))),
                  ("tb", J::B(b.targeted_by_break)), ("id", self.cx.scope_id(b.region_scope)), ("sp", self.cx.ispan(b.span))])
    }
    fn fpats(&mut self, v: &[FieldPat<'tcx>]) -> J {
        J::A(v.iter().map(|f| { let p = self.pat(&f.pattern); J::A(vec![J::I(f.field.as_u32() as i64), p]) }).collect())
    }
    fn pat(&mut self, p: &Pat<'tcx>) -> J {
        let mut o: Vec<(&'static str, J)> = vec![];
        macro_rules! k { ($n:expr) => { o.push(("k", s($n))) } }
        match &p.kind {
            PatKind::Wild | PatKind::Missing => k!("Wild"),
            PatKind::Binding { name, mode, var, subpattern, .. } => {
                k!("Bind");
                o.push(("n", s(name.to_string())));
                o.push(("id", self.var(*var)));
                let by = match mode.0 {
                    rustc_hir::ByRef::No => "val",
                    rustc_hir::ByRef::Yes(_, m) => if m.is_mut() { "refmut" } else { "ref" },
                };
                o.push(("by", s(by)));
                let sp = match subpattern { Some(x) => self.pat(x), None => J::Null };
                o.push(("sub", sp));
            }
            PatKind::Variant { adt_def, variant_index, subpatterns, .. } => {
                k!("Variant");
                let v = &adt_def.variants()[*variant_index];
                o.push(("p", s(self.cx.path(adt_def.did()))));
                o.push(("var", s(v.name.to_string())));
                let names = J::A(v.fields.iter().map(|f| s(f.name.to_string())).collect());
                o.push(("names", names));
                o.push(("nv", J::I(adt_def.variants().len() as i64)));
                self.cx.adt(*adt_def);
                let f = self.fpats(subpatterns); o.push(("f", f));
            }
            PatKind::Leaf { subpatterns } => {
                k!("Leaf");
                if let ty::Adt(d, _) = *p.ty.kind() {
                    if d.is_struct() {
                        let v = d.non_enum_variant();
                        o.push(("p", s(self.cx.path(d.did()))));
                        o.push(("names", J::A(v.fields.iter().map(|f| s(f.name.to_string())).collect())));
                    }
                }
                let f = self.fpats(subpatterns); o.push(("f", f));
            }
            PatKind::Deref { subpattern, .. } | PatKind::DerefPattern { subpattern, .. } => {
                k!("Deref"); let x = self.pat(subpattern); o.push(("v", x));
            }
            PatKind::Constant { value } => {
                k!("Const");
                o.push(("v", s(format!("{}", value))));
                if let Some(sc) = value.try_to_leaf() { o.push(("bits", s(format!("{:?}", sc)))); }
            }
            PatKind::Range(r) => { k!("Range"); o.push(("v", s(format!("{}", r)))); }
            PatKind::Slice { prefix, slice, suffix } | PatKind::Array { prefix, slice, suffix } => {
                k!("Slice");
                let a = J::A(prefix.iter().map(|x| self.pat(x)).collect()); o.push(("pre", a));
                let m = match slice { Some(x) => self.pat(x), None => J::Null }; o.push(("mid", m));
                let a = J::A(suffix.iter().map(|x| self.pat(x)).collect()); o.push(("suf", a));
            }
            PatKind::Or { pats } => { k!("Or"); let a = J::A(pats.iter().map(|x| self.pat(x)).collect()); o.push(("ps", a)); }
            PatKind::Guard { subpattern, condition } => {
                k!("Guard"); let x = self.pat(subpattern); o.push(("v", x));
                let c = self.expr(*condition); o.push(("c", c));
            }
            PatKind::Never => k!("Never"),
            PatKind::Error(_) => k!("Error"),
        }
        let t = self.cx.ty(p.ty);
        o.push(("ty", t));
        J::O(o)
    }
}

fn body<'tcx>(cx: &mut Cx<'tcx>, d: LocalDefId) -> J {
    let tcx = cx.tcx;
    let Ok((st, root)) = tcx.thir_body(d) else { return J::Null };
    let thir: Thir<'tcx> = st.borrow().clone();
    let mut b = Bd { cx, owner: d, thir: &thir };
    let mut ps = vec![];
    for p in thir.params.iter() {
        let t = b.cx.ty(p.ty);
        let pp = match &p.pat { Some(x) => b.pat(x), None => J::Null };
        ps.push(J::O(vec![("p", pp), ("ty", t), ("self", J::B(p.self_kind.is_some()))]));
    }
    let e = b.expr(root);
    J::O(vec![("params", J::A(ps)), ("e", e)])
}

struct Cb { out: String, name: String }

impl Callbacks for Cb {
    fn config(&mut self, c: &mut rustc_interface::interface::Config) {
        c.opts.unstable_opts.no_steal_thir = true;
    }
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let mut cx = Cx { tcx, tys: vec![], tyix: HashMap::new(), adts: vec![], adtseen: HashMap::new() };
        let mut fns = vec![];
        for d in tcx.hir_body_owners() {
            let did = d.to_def_id();
            let kind = tcx.def_kind(did);
            if matches!(kind, DefKind::Closure | DefKind::AnonConst) { continue; }
            let mut o: Vec<(&'static str, J)> = vec![];
            o.push(("key", s(cx.path(did))));
            o.push(("kind", s(format!("{:?}", kind).split([' ', '{']).next().unwrap())));
            o.push(("span", cx.span(tcx.def_span(did))));
            o.push(("ispan", cx.ispan(tcx.def_span(did))));
            o.push(("pub", J::B(tcx.visibility(did).is_public())));
            o.push(("name", s(tcx.opt_item_name(did).map(|x| x.to_string()).unwrap_or_default())));
            if let Some(im) = tcx.impl_of_assoc(did) {
                let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                o.push(("self", s(cx.tystr(st))));
                if tcx.def_kind(im) == (DefKind::Impl { of_trait: true }) {
                    let tr = tcx.impl_trait_ref(im).instantiate_identity().skip_norm_wip();
                    o.push(("trait", s(cx.path(tr.def_id))));
                    o.push(("traitref", s(rustc_middle::ty::print::with_resolve_crate_name!(rustc_middle::ty::print::with_no_trimmed_paths!(rustc_middle::ty::print::with_no_visible_paths!(tr.to_string()))))));
                    let ga = cx.gargs(tr.args);
                    o.push(("traitargs", ga));
                }
                o.push(("derived", J::B(tcx.is_automatically_derived(im))));
            } else if let Some(t) = tcx.trait_of_assoc(did) {
                o.push(("intrait", s(cx.path(t))));
            }
            if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
                let sig = tcx.fn_sig(did).instantiate_identity().skip_norm_wip().skip_binder();
                let ins = sig.inputs().iter().map(|t| cx.ty(*t)).collect();
                o.push(("in", J::A(ins)));
                let out = cx.ty(sig.output());
                o.push(("out", out));
                o.push(("unsafe", J::B(sig.safety().is_unsafe())));
                o.push(("abi", s(format!("{:?}", sig.abi()))));
                let g = tcx.generics_of(did);
                let mut gs = vec![];
                for i in 0..g.count() {
                    let p = g.param_at(i, tcx);
                    if !matches!(p.kind, ty::GenericParamDefKind::Lifetime) { gs.push(s(p.name.to_string())); }
                }
                o.push(("generics", J::A(gs)));
            }
            let b = body(&mut cx, d);
            o.push(("body", b));
            fns.push(J::O(o));
        }
        // impls
        let mut impls = vec![];
        for id in tcx.hir_free_items() {
            let did = id.owner_id.to_def_id();
            if let DefKind::Impl { of_trait } = tcx.def_kind(did) {
                let st = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                let mut o: Vec<(&'static str, J)> = vec![("self", s(cx.tystr(st)))];
                if of_trait {
                    let tr = tcx.impl_trait_ref(did).instantiate_identity().skip_norm_wip();
                    o.push(("trait", s(cx.path(tr.def_id))));
                    o.push(("unsafe", J::B(tcx.impl_trait_header(did).safety.is_unsafe())));
                }
                let items = tcx.associated_items(did).in_definition_order().map(|a| s(cx.path(a.def_id))).collect();
                o.push(("items", J::A(items)));
                o.push(("span", cx.span(tcx.def_span(did))));
                impls.push(J::O(o));
            }
            if let DefKind::Struct | DefKind::Enum | DefKind::Union = tcx.def_kind(did) {
                cx.adt(tcx.adt_def(did));
            }
        }
        let mut foreign = vec![];
        for id in tcx.hir_crate_items(()).foreign_items() {
            let did = id.owner_id.to_def_id();
            let mut o: Vec<(&'static str, J)> = vec![("p", s(cx.path(did)))];
            if tcx.def_kind(did) == DefKind::Fn {
                let sig = tcx.fn_sig(did).instantiate_identity().skip_norm_wip().skip_binder();
                let ins = sig.inputs().iter().map(|t| cx.ty(*t)).collect();
                o.push(("in", J::A(ins)));
                let out = cx.ty(sig.output());
                o.push(("out", out));
            }
            foreign.push(J::O(o));
        }
        let mut traits = vec![];
        for id in tcx.hir_free_items() {
            let did = id.owner_id.to_def_id();
            if tcx.def_kind(did) == DefKind::Trait {
                let items = tcx.associated_items(did).in_definition_order()
                    .map(|a| J::O(vec![("p", s(cx.path(a.def_id))), ("n", s(a.name().to_string())), ("default", J::B(a.defaultness(tcx).has_value()))])).collect();
                traits.push(J::O(vec![("p", s(cx.path(did))), ("items", J::A(items))]));
            }
        }
        let cfgs: Vec<J> = tcx.sess.config.iter().map(|(a, b)| s(match b { Some(b) => format!("{}={}", a, b), None => a.to_string() })).collect();
        let tys = std::mem::take(&mut cx.tys);
        let adts = std::mem::take(&mut cx.adts).into_iter().map(|x| x.1).collect();
        let j = J::O(vec![
            ("crate", s(self.name.clone())), ("cfg", J::A(cfgs)),
            ("types", J::A(tys)), ("adts", J::A(adts)), ("fns", J::A(fns)),
            ("impls", J::A(impls)), ("foreign", J::A(foreign)), ("traits", J::A(traits)),
        ]);
        let mut o = String::new();
        j.w(&mut o);
        std::fs::write(format!("{}/{}.json", self.out, self.name), o).unwrap();
        Compilation::Continue
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let crates = std::env::var("THIRDUMP_CRATES").unwrap_or_default();
    let out = std::env::var("THIRDUMP_OUT").unwrap_or_default();
    let mut name = String::new();
    for w in args.windows(2) { if w[0] == "--crate-name" { name = w[1].clone(); } }
    let want = !out.is_empty() && !args.iter().any(|a| a == "--print" || a.starts_with("--print="))
        && crates.split(',').any(|c| c == name);
    if !want {
        let st = std::process::Command::new(&args[1]).args(&args[2..]).status().expect("rustc");
        std::process::exit(st.code().unwrap_or(1));
    }
    let rargs: Vec<String> = args[1..].to_vec();
    let mut cb = Cb { out, name };
    let code = rustc_driver::catch_with_exit_code(move || { rustc_driver::compiler_entrypoint(&rargs, &mut cb); });
    std::process::exit(if code == std::process::ExitCode::SUCCESS { 0 } else { 1 });
}
