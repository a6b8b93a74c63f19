//! thirdump: a rustc wrapper that dumps, as JSON, the type-checked program (THIR)
//! of the crates named in THIRDUMP_CRATES into the directory THIRDUMP_OUT.
//! It is used as RUSTC_WRAPPER under `cargo +nightly check`; nothing is executed.
#![feature(rustc_private)]
#![allow(clippy::all)]
extern crate rustc_abi;
extern crate rustc_ast;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::Compilation;
use rustc_hir as hir;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId, LOCAL_CRATE};
use rustc_middle::middle::region;
use rustc_middle::thir::{self, *};
use rustc_middle::ty::{self, GenericArgKind, Ty, TyCtxt, TypeVisitableExt};
use rustc_span::Span;
use std::fmt::Write as _;

fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn arr<I: IntoIterator<Item = String>>(it: I) -> String {
    let v: Vec<String> = it.into_iter().collect();
    format!("[{}]", v.join(","))
}

fn opt(o: Option<String>) -> String {
    o.unwrap_or_else(|| "null".into())
}

struct D<'tcx> {
    tcx: TyCtxt<'tcx>,
}

impl<'tcx> D<'tcx> {
    fn def(&self, d: DefId) -> String {
        js(&format!(
            "{}{}",
            self.tcx.crate_name(d.krate),
            self.tcx.def_path(d).to_string_no_crate_verbose()
        ))
    }
    fn span(&self, s: Span) -> String {
        let sm = self.tcx.sess.source_map();
        let s = s.source_callsite();
        let lo = sm.lookup_char_pos(s.lo());
        js(&format!("{}:{}", lo.file.name.prefer_local_unconditionally(), lo.line))
    }
    /// number of type/const generics (Self included)
    fn nargs(&self, d: DefId) -> usize {
        self.tcx
            .generics_of(d)
            .own_params
            .iter()
            .filter(|p| !matches!(p.kind, ty::GenericParamDefKind::Lifetime))
            .count()
    }
    fn ctor(&self, d: DefId) -> String {
        match self.tcx.def_kind(d) {
            DefKind::Ctor(of, _) => {
                let parent = self.tcx.parent(d);
                match of {
                    hir::def::CtorOf::Struct => format!("[{},0]", self.def(parent)),
                    hir::def::CtorOf::Variant => {
                        let adt = self.tcx.parent(parent);
                        let idx = self.tcx.adt_def(adt).variant_index_with_id(parent);
                        format!("[{},{}]", self.def(adt), idx.as_u32())
                    }
                }
            }
            _ => "null".into(),
        }
    }
    fn args(&self, a: ty::GenericArgsRef<'tcx>) -> String {
        let mut v = vec![];
        for x in a.iter() {
            match x.kind() {
                GenericArgKind::Lifetime(_) => {}
                GenericArgKind::Type(t) => v.push(self.ty(t)),
                GenericArgKind::Const(c) => v.push(self.cst(c)),
                #[allow(unreachable_patterns)]
                _ => v.push("{\"k\":\"?\"}".into()),
            }
        }
        arr(v)
    }
    fn cst(&self, c: ty::Const<'tcx>) -> String {
        match c.kind() {
            ty::ConstKind::Param(p) => format!("{{\"k\":\"cparam\",\"n\":{}}}", js(p.name.as_str())),
            ty::ConstKind::Value(v) => {
                if let Some(s) = v.try_to_leaf() {
                    let sz = s.size();
                    format!("{{\"k\":\"cval\",\"v\":{}}}", s.to_bits(sz))
                } else {
                    format!("{{\"k\":\"c?\",\"s\":{}}}", js(&format!("{:?}", c)))
                }
            }
            _ => {
                // try to evaluate
                let te = ty::TypingEnv::fully_monomorphized();
                if !c.has_param() {
                    if let Some(n) = c.try_to_target_usize(self.tcx) {
                        return format!("{{\"k\":\"cval\",\"v\":{}}}", n);
                    }
                }
                let _ = te;
                format!("{{\"k\":\"c?\",\"s\":{}}}", js(&format!("{:?}", c)))
            }
        }
    }
    fn ty(&self, t: Ty<'tcx>) -> String {
        match t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) | ty::Str => {
                format!("{{\"k\":\"prim\",\"n\":{}}}", js(&t.to_string()))
            }
            ty::Never => "{\"k\":\"never\"}".into(),
            ty::Adt(d, a) => format!("{{\"k\":\"adt\",\"d\":{},\"a\":{}}}", self.def(d.did()), self.args(a)),
            ty::Array(e, n) => format!("{{\"k\":\"arr\",\"t\":{},\"n\":{}}}", self.ty(*e), self.cst(*n)),
            ty::Slice(e) => format!("{{\"k\":\"slice\",\"t\":{}}}", self.ty(*e)),
            ty::RawPtr(e, m) => format!("{{\"k\":\"ptr\",\"t\":{},\"m\":{}}}", self.ty(*e), m.is_mut()),
            ty::Ref(_, e, m) => format!("{{\"k\":\"ref\",\"t\":{},\"m\":{}}}", self.ty(*e), m.is_mut()),
            ty::Tuple(ts) => format!("{{\"k\":\"tup\",\"a\":{}}}", arr(ts.iter().map(|x| self.ty(x)))),
            ty::Param(p) => format!("{{\"k\":\"param\",\"n\":{},\"i\":{}}}", js(p.name.as_str()), p.index),
            ty::FnDef(d, a) => {
                let did: DefId = (*d).into();
                let tr = self.tcx.trait_of_assoc(did);
                let na = tr.map(|t| self.nargs(t)).unwrap_or(0);
                format!(
                    "{{\"k\":\"fndef\",\"d\":{},\"a\":{},\"tr\":{},\"tn\":{},\"ctor\":{}}}",
                    self.def(did),
                    self.args(a.skip_binder()),
                    opt(tr.map(|t| self.def(t))),
                    na,
                    self.ctor(did)
                )
            }
            ty::Closure(d, a) => {
                let d: DefId = (*d).into();
                format!(
                    "{{\"k\":\"closure\",\"d\":{},\"a\":{}}}",
                    self.def(d),
                    self.args(self.tcx.mk_args(a.as_closure().parent_args()))
                )
            }
            ty::FnPtr(..) => format!("{{\"k\":\"fnptr\",\"s\":{}}}", js(&t.to_string())),
            ty::Alias(..) => self.alias(t),
            ty::Dynamic(..) => format!("{{\"k\":\"dyn\",\"s\":{}}}", js(&t.to_string())),
            _ => format!("{{\"k\":\"other\",\"s\":{}}}", js(&format!("{:?}", t))),
        }
    }
    fn alias(&self, t: Ty<'tcx>) -> String {
        if let ty::Alias(_, al) = t.kind() {
            match al.kind {
                ty::AliasTyKind::Projection { def_id } => {
                    return format!(
                        "{{\"k\":\"proj\",\"d\":{},\"a\":{}}}",
                        self.def(def_id.into()),
                        self.args(al.args)
                    )
                }
                ty::AliasTyKind::Opaque { def_id } => {
                    let d: DefId = def_id.into();
                    return format!("{{\"k\":\"opaque\",\"d\":{},\"a\":{}}}", self.def(d), self.args(al.args));
                }
                _ => {}
            }
        }
        format!("{{\"k\":\"other\",\"s\":{}}}", js(&format!("{:?}", t)))
    }
    fn scope(&self, s: region::Scope) -> String {
        js(&format!("{}.{:?}", s.local_id.as_u32(), s.data))
    }
    fn var(&self, v: LocalVarId) -> String {
        format!("{}", v.0.local_id.as_u32())
    }
    fn pat(&self, p: &Pat<'tcx>) -> String {
        let k = match &p.kind {
            PatKind::Wild | PatKind::Missing => "\"k\":\"wild\"".into(),
            PatKind::Binding { name, mode, var, subpattern, .. } => {
                let m = match mode.0 {
                    hir::ByRef::No => "val",
                    hir::ByRef::Yes(_, mm) => {
                        if mm.is_mut() {
                            "refmut"
                        } else {
                            "ref"
                        }
                    }
                };
                format!(
                    "\"k\":\"bind\",\"name\":{},\"mode\":\"{}\",\"var\":{},\"sub\":{}",
                    js(name.as_str()),
                    m,
                    self.var(*var),
                    opt(subpattern.as_ref().map(|s| self.pat(s)))
                )
            }
            PatKind::Variant { adt_def, variant_index, subpatterns, .. } => format!(
                "\"k\":\"variant\",\"d\":{},\"v\":{},\"subs\":{}",
                self.def(adt_def.did()),
                variant_index.as_u32(),
                arr(subpatterns.iter().map(|f| format!("[{},{}]", f.field.as_u32(), self.pat(&f.pattern))))
            ),
            PatKind::Leaf { subpatterns } => format!(
                "\"k\":\"leaf\",\"subs\":{}",
                arr(subpatterns.iter().map(|f| format!("[{},{}]", f.field.as_u32(), self.pat(&f.pattern))))
            ),
            PatKind::Deref { subpattern, .. } => format!("\"k\":\"deref\",\"sub\":{}", self.pat(subpattern)),
            PatKind::Constant { value } => {
                let v = if let Some(s) = value.try_to_leaf() {
                    let sz = s.size();
                    format!("{}", s.to_bits(sz))
                } else {
                    js(&format!("{:?}", value))
                };
                format!("\"k\":\"const\",\"v\":{}", v)
            }
            PatKind::Range(r) => {
                let b = |x: &PatRangeBoundary<'tcx>| match x {
                    PatRangeBoundary::Finite(v) => {
                        let s = v.to_leaf();
                        let sz = s.size();
                        format!("{}", s.to_bits(sz))
                    }
                    _ => "null".into(),
                };
                format!(
                    "\"k\":\"range\",\"lo\":{},\"hi\":{},\"inc\":{}",
                    b(&r.lo),
                    b(&r.hi),
                    matches!(r.end, hir::RangeEnd::Included)
                )
            }
            PatKind::Slice { prefix, slice, suffix } | PatKind::Array { prefix, slice, suffix } => format!(
                "\"k\":\"slice\",\"pre\":{},\"mid\":{},\"suf\":{}",
                arr(prefix.iter().map(|x| self.pat(x))),
                opt(slice.as_ref().map(|x| self.pat(x))),
                arr(suffix.iter().map(|x| self.pat(x)))
            ),
            PatKind::Or { pats } => format!("\"k\":\"or\",\"pats\":{}", arr(pats.iter().map(|x| self.pat(x)))),
            _ => "\"k\":\"other\"".into(),
        };
        format!("{{{},\"ty\":{}}}", k, self.ty(p.ty))
    }
    fn e(&self, e: ExprId) -> String {
        format!("{}", e.as_u32())
    }
    fn es(&self, e: &[ExprId]) -> String {
        arr(e.iter().map(|x| self.e(*x)))
    }
    fn expr(&self, ex: &thir::Expr<'tcx>) -> String {
        let k: String = match &ex.kind {
            ExprKind::Scope { region_scope, value, .. } => {
                format!("\"k\":\"scope\",\"s\":{},\"e\":{}", self.scope(*region_scope), self.e(*value))
            }
            ExprKind::If { cond, then, else_opt, .. } => format!(
                "\"k\":\"if\",\"c\":{},\"t\":{},\"f\":{}",
                self.e(*cond),
                self.e(*then),
                opt(else_opt.map(|x| self.e(x)))
            ),
            ExprKind::Call { ty, fun, args, .. } => format!(
                "\"k\":\"call\",\"us\":{},\"fty\":{},\"fun\":{},\"args\":{}",
                match ty.kind() {
                    ty::FnDef(..) | ty::FnPtr(..) => !ty.fn_sig(self.tcx).safety().is_safe(),
                    _ => false,
                },
                self.ty(*ty),
                self.e(*fun),
                self.es(args)
            ),
            ExprKind::ByUse { expr, .. } => format!("\"k\":\"use\",\"e\":{}", self.e(*expr)),
            ExprKind::Deref { arg } => format!("\"k\":\"deref\",\"e\":{}", self.e(*arg)),
            ExprKind::Binary { op, lhs, rhs } => {
                format!("\"k\":\"bin\",\"op\":\"{:?}\",\"l\":{},\"r\":{}", op, self.e(*lhs), self.e(*rhs))
            }
            ExprKind::LogicalOp { op, lhs, rhs } => {
                format!("\"k\":\"logic\",\"op\":\"{:?}\",\"l\":{},\"r\":{}", op, self.e(*lhs), self.e(*rhs))
            }
            ExprKind::Unary { op, arg } => format!("\"k\":\"un\",\"op\":\"{:?}\",\"e\":{}", op, self.e(*arg)),
            ExprKind::Cast { source } => format!("\"k\":\"cast\",\"e\":{}", self.e(*source)),
            ExprKind::ValueExpr { source } | ExprKind::NeverToAny { source } => {
                format!("\"k\":\"use\",\"e\":{}", self.e(*source))
            }
            ExprKind::PointerCoercion { cast, source, .. } => {
                format!("\"k\":\"coerce\",\"c\":{},\"e\":{}", js(&format!("{:?}", cast)), self.e(*source))
            }
            ExprKind::Loop { body } => format!("\"k\":\"loop\",\"e\":{}", self.e(*body)),
            ExprKind::Let { expr, pat } => format!("\"k\":\"let\",\"e\":{},\"p\":{}", self.e(*expr), self.pat(pat)),
            ExprKind::Match { scrutinee, arms, .. } => format!(
                "\"k\":\"match\",\"e\":{},\"arms\":{}",
                self.e(*scrutinee),
                arr(arms.iter().map(|a| format!("{}", a.as_u32())))
            ),
            ExprKind::Block { block } => format!("\"k\":\"block\",\"b\":{}", block.as_u32()),
            ExprKind::Assign { lhs, rhs } => {
                format!("\"k\":\"assign\",\"l\":{},\"r\":{}", self.e(*lhs), self.e(*rhs))
            }
            ExprKind::AssignOp { op, lhs, rhs } => {
                format!("\"k\":\"assignop\",\"op\":\"{:?}\",\"l\":{},\"r\":{}", op, self.e(*lhs), self.e(*rhs))
            }
            ExprKind::Field { lhs, variant_index, name } => format!(
                "\"k\":\"field\",\"e\":{},\"v\":{},\"i\":{}",
                self.e(*lhs),
                variant_index.as_u32(),
                name.as_u32()
            ),
            ExprKind::Index { lhs, index } => {
                format!("\"k\":\"index\",\"l\":{},\"i\":{}", self.e(*lhs), self.e(*index))
            }
            ExprKind::VarRef { id } => format!("\"k\":\"var\",\"id\":{}", self.var(*id)),
            ExprKind::UpvarRef { var_hir_id, .. } => format!("\"k\":\"upvar\",\"id\":{}", self.var(*var_hir_id)),
            ExprKind::Borrow { borrow_kind, arg } => format!(
                "\"k\":\"borrow\",\"m\":{},\"e\":{}",
                matches!(borrow_kind, rustc_middle::mir::BorrowKind::Mut { .. }),
                self.e(*arg)
            ),
            ExprKind::RawBorrow { mutability, arg } => {
                format!("\"k\":\"borrow\",\"raw\":true,\"m\":{},\"e\":{}", mutability.is_mut(), self.e(*arg))
            }
            ExprKind::Break { label, value } => {
                format!("\"k\":\"break\",\"s\":{},\"e\":{}", self.scope(*label), opt(value.map(|x| self.e(x))))
            }
            ExprKind::Continue { label } => format!("\"k\":\"continue\",\"s\":{}", self.scope(*label)),
            ExprKind::Return { value } => format!("\"k\":\"return\",\"e\":{}", opt(value.map(|x| self.e(x)))),
            ExprKind::ConstBlock { did, args } => {
                format!("\"k\":\"constblock\",\"d\":{},\"a\":{}", self.def(*did), self.args(args))
            }
            ExprKind::Repeat { value, count } => {
                format!("\"k\":\"repeat\",\"e\":{},\"n\":{}", self.e(*value), self.cst(*count))
            }
            ExprKind::Array { fields } => format!("\"k\":\"array\",\"es\":{}", self.es(fields)),
            ExprKind::Tuple { fields } => format!("\"k\":\"tuple\",\"es\":{}", self.es(fields)),
            ExprKind::Adt(a) => {
                let base = match &a.base {
                    AdtExprBase::None => "null".into(),
                    AdtExprBase::Base(f) => self.e(f.base),
                    AdtExprBase::DefaultFields(_) => "\"default\"".into(),
                };
                format!(
                    "\"k\":\"adt\",\"d\":{},\"v\":{},\"a\":{},\"fs\":{},\"base\":{}",
                    self.def(a.adt_def.did()),
                    a.variant_index.as_u32(),
                    self.args(a.args),
                    arr(a.fields.iter().map(|f| format!("[{},{}]", f.name.as_u32(), self.e(f.expr)))),
                    base
                )
            }
            ExprKind::PlaceTypeAscription { source, .. }
            | ExprKind::ValueTypeAscription { source, .. } => {
                format!("\"k\":\"ascr\",\"e\":{}", self.e(*source))
            }
            ExprKind::Closure(c) => format!(
                "\"k\":\"closure\",\"d\":{},\"up\":{},\"caps\":{}",
                self.def(c.closure_id.to_def_id()),
                self.es(&c.upvars),
                self.captures(c.closure_id)
            ),
            ExprKind::Literal { lit, neg } => {
                use rustc_ast::LitKind as L;
                let v = match &lit.node {
                    L::Str(s, _) => format!("\"lk\":\"str\",\"v\":{}", js(s.as_str())),
                    L::Int(n, _) => format!("\"lk\":\"int\",\"v\":{}", n.get()),
                    L::Byte(n) => format!("\"lk\":\"int\",\"v\":{}", n),
                    L::Char(c) => format!("\"lk\":\"char\",\"v\":{}", *c as u32),
                    L::Float(s, _) => format!("\"lk\":\"float\",\"v\":{}", js(s.as_str())),
                    L::Bool(b) => format!("\"lk\":\"bool\",\"v\":{}", b),
                    L::ByteStr(b, _) => format!("\"lk\":\"bytes\",\"v\":{:?}", b.as_byte_str()),
                    o => format!("\"lk\":\"other\",\"v\":{}", js(&format!("{:?}", o))),
                };
                format!("\"k\":\"lit\",\"neg\":{},{}", neg, v)
            }
            ExprKind::NonHirLiteral { lit, .. } => {
                let sz = lit.size();
                format!("\"k\":\"lit\",\"neg\":false,\"lk\":\"int\",\"v\":{}", lit.to_bits(sz))
            }
            ExprKind::ZstLiteral { .. } => "\"k\":\"zst\"".into(),
            ExprKind::NamedConst { def_id, args, .. } => {
                format!("\"k\":\"const\",\"d\":{},\"a\":{}", self.def(*def_id), self.args(args))
            }
            ExprKind::ConstParam { param, .. } => format!("\"k\":\"cparam\",\"n\":{}", js(param.name.as_str())),
            ExprKind::StaticRef { def_id, .. } => format!("\"k\":\"static\",\"d\":{}", self.def(*def_id)),
            o => {
                let s = format!("{:?}", o);
                let s: String = s.chars().take(60).collect();
                format!("\"k\":\"other\",\"s\":{}", js(&s))
            }
        };
        format!("{{{},\"ty\":{},\"sp\":{}}}", k, self.ty(ex.ty), self.span(ex.span))
    }
    fn captures(&self, c: LocalDefId) -> String {
        arr(self.tcx.closure_captures(c).iter().map(|cp| {
            let root = match cp.place.base {
                rustc_middle::hir::place::PlaceBase::Upvar(u) => u.var_path.hir_id.local_id.as_u32() as i64,
                _ => -1,
            };
            let byref = matches!(cp.info.capture_kind, ty::UpvarCapture::ByRef(_));
            format!(
                "{{\"var\":{},\"ref\":{},\"nproj\":{},\"ty\":{}}}",
                root,
                byref,
                cp.place.projections.len(),
                self.ty(cp.place.ty())
            )
        }))
    }
    fn block(&self, b: &Block) -> String {
        let us = matches!(b.safety_mode, BlockSafety::ExplicitUnsafe(_));
        format!(
            "{{\"stmts\":{},\"e\":{},\"tb\":{},\"s\":{},\"unsafe\":{},\"sp\":{}}}",
            arr(b.stmts.iter().map(|s| format!("{}", s.as_u32()))),
            opt(b.expr.map(|x| self.e(x))),
            b.targeted_by_break,
            self.scope(b.region_scope),
            us,
            self.span(b.span)
        )
    }
    fn stmt(&self, s: &Stmt<'tcx>) -> String {
        match &s.kind {
            StmtKind::Expr { expr, .. } => format!("{{\"k\":\"expr\",\"e\":{}}}", self.e(*expr)),
            StmtKind::Let { pattern, initializer, else_block, .. } => format!(
                "{{\"k\":\"let\",\"p\":{},\"e\":{},\"els\":{}}}",
                self.pat(pattern),
                opt(initializer.map(|x| self.e(x))),
                opt(else_block.map(|b| format!("{}", b.as_u32())))
            ),
        }
    }
    fn generics(&self, d: DefId) -> String {
        let g = self.tcx.generics_of(d);
        let mut v = vec![];
        let mut stack = vec![g];
        while let Some(p) = stack.last().unwrap().parent {
            stack.push(self.tcx.generics_of(p));
        }
        for g in stack.iter().rev() {
            for p in &g.own_params {
                match p.kind {
                    ty::GenericParamDefKind::Lifetime => {}
                    ty::GenericParamDefKind::Type { synthetic, .. } => v.push(format!(
                        "{{\"n\":{},\"c\":false,\"syn\":{}}}",
                        js(p.name.as_str()),
                        synthetic
                    )),
                    ty::GenericParamDefKind::Const { .. } => {
                        v.push(format!("{{\"n\":{},\"c\":true}}", js(p.name.as_str())))
                    }
                }
            }
        }
        arr(v)
    }
    fn body(&self, def: LocalDefId) -> Option<String> {
        let tcx = self.tcx;
        let (thir, root) = tcx.thir_body(def).ok()?;
        let thir = thir.borrow();
        let did = def.to_def_id();
        let kind = tcx.def_kind(did);
        let parent = tcx.typeck_root_def_id(did);
        let mut unsafe_fn = false;
        let mut ret = "null".to_string();
        let mut params_ty = "null".to_string();
        match thir.body_type {
            BodyTy::Fn(sig) => {
                unsafe_fn = !sig.safety().is_safe();
                ret = self.ty(sig.output());
                params_ty = arr(sig.inputs().iter().map(|t| self.ty(*t)));
            }
            BodyTy::Const(t) => ret = self.ty(t),
            _ => {}
        }
        let preds = if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
            self.preds(did)
        } else {
            "[]".into()
        };
        let vis = if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
            tcx.visibility(did).is_public()
        } else {
            false
        };
        Some(format!(
            "{{\"d\":{},\"kind\":{},\"root\":{},\"sp\":{},\"unsafe\":{},\"pub\":{},\"reach\":{},\"name\":{},\"generics\":{},\"preds\":{},\"ret\":{},\"ptys\":{},\"params\":{},\"body\":{},\"exprs\":{},\"blocks\":{},\"stmts\":{},\"arms\":{}}}",
            self.def(did),
            js(&format!("{:?}", kind)),
            self.def(parent),
            self.span(tcx.def_span(did)),
            unsafe_fn,
            vis,
            tcx.effective_visibilities(()).is_reachable(def),
            js(tcx.opt_item_name(did).map(|s| s.to_string()).unwrap_or_default().as_str()),
            self.generics(parent),
            preds,
            ret,
            params_ty,
            arr(thir.params.iter().map(|p| format!(
                "{{\"p\":{},\"ty\":{}}}",
                opt(p.pat.as_ref().map(|x| self.pat(x))),
                self.ty(p.ty)
            ))),
            self.e(root),
            arr(thir.exprs.iter().map(|e| self.expr(e))),
            arr(thir.blocks.iter().map(|b| self.block(b))),
            arr(thir.stmts.iter().map(|s| self.stmt(s))),
            arr(thir.arms.iter().map(|a| format!(
                "{{\"p\":{},\"g\":{},\"e\":{}}}",
                self.pat(&a.pattern),
                opt(a.guard.map(|g| self.e(g))),
                self.e(a.body)
            )))
        ))
    }
    fn preds(&self, did: DefId) -> String {
        let tcx = self.tcx;
        let mut v = vec![];
        let preds = tcx.clauses_of(did).instantiate_identity(tcx);
        for p in preds.clauses.iter() {
            let p = p.skip_norm_wip();
            if let Some(t) = p.as_trait_clause() {
                let t = t.skip_binder();
                v.push(format!(
                    "{{\"k\":\"trait\",\"d\":{},\"a\":{}}}",
                    self.def(t.trait_ref.def_id),
                    self.args(t.trait_ref.args)
                ));
            } else if let Some(pr) = p.as_projection_clause() {
                let pr = pr.skip_binder();
                let term = match pr.term.kind() {
                    ty::TermKind::Ty(t) => self.ty(t),
                    ty::TermKind::Const(c) => self.cst(c),
                };
                v.push(format!(
                    "{{\"k\":\"proj\",\"d\":{},\"a\":{},\"t\":{}}}",
                    self.def(pr.def_id()),
                    self.args(pr.projection_term.args),
                    term
                ));
            }
        }
        arr(v)
    }
    fn run(&self) -> String {
        let tcx = self.tcx;
        let mut bodies = vec![];
        for d in tcx.hir_body_owners() {
            if let Some(b) = self.body(d) {
                bodies.push(b);
            }
        }
        let mut adts = vec![];
        let mut impls = vec![];
        let mut traits = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            let did = id.to_def_id();
            match tcx.def_kind(did) {
                DefKind::Struct | DefKind::Enum | DefKind::Union => {
                    let a = tcx.adt_def(did);
                    adts.push(format!(
                        "{{\"d\":{},\"kind\":{},\"transparent\":{},\"c\":{},\"pub\":{},\"generics\":{},\"variants\":{},\"sp\":{},\"drop\":{}}}",
                        self.def(did),
                        js(&format!("{:?}", tcx.def_kind(did))),
                        a.repr().transparent(),
                        a.repr().c(),
                        tcx.visibility(did).is_public(),
                        self.generics(did),
                        arr(a.variants().iter().map(|v| format!(
                            "{{\"n\":{},\"fields\":{}}}",
                            js(v.name.as_str()),
                            arr(v.fields.iter().map(|f| format!(
                                "{{\"n\":{},\"pub\":{},\"ty\":{}}}",
                                js(f.name.as_str()),
                                tcx.visibility(f.did).is_public(),
                                self.ty(tcx.type_of(f.did).instantiate_identity().skip_norm_wip())
                            )))
                        ))),
                        self.span(tcx.def_span(did)),
                        a.has_dtor(tcx)
                    ));
                }
                DefKind::Impl { of_trait } => {
                    let tr = if of_trait {
                        let h = tcx.impl_trait_header(did);
                        let r = h.trait_ref.instantiate_identity().skip_norm_wip();
                        format!("{{\"d\":{},\"a\":{}}}", self.def(r.def_id), self.args(r.args))
                    } else {
                        "null".into()
                    };
                    let neg = of_trait && tcx.impl_polarity(did) == ty::ImplPolarity::Negative;
                    impls.push(format!(
                        "{{\"d\":{},\"trait\":{},\"neg\":{},\"self\":{},\"generics\":{},\"preds\":{},\"items\":{},\"sp\":{}}}",
                        self.def(did),
                        tr,
                        neg,
                        self.ty(tcx.type_of(did).instantiate_identity().skip_norm_wip()),
                        self.generics(did),
                        self.preds(did),
                        self.items(did),
                        self.span(tcx.def_span(did))
                    ));
                }
                DefKind::Trait => {
                    traits.push(format!(
                        "{{\"d\":{},\"generics\":{},\"items\":{}}}",
                        self.def(did),
                        self.generics(did),
                        self.items(did)
                    ));
                }
                _ => {}
            }
        }
        let mut opaques = vec![];
        for id in tcx.hir_crate_items(()).opaques() {
            let did = id.to_def_id();
            opaques.push(format!(
                "{{\"d\":{},\"generics\":{},\"ty\":{}}}",
                self.def(did),
                self.generics(did),
                self.ty(tcx.type_of(did).instantiate_identity().skip_norm_wip())
            ));
        }
        let mut crates: Vec<String> =
            tcx.crates(()).iter().map(|c| js(tcx.crate_name(*c).as_str())).collect();
        crates.sort();
        let files = arr(
            tcx.sess
                .source_map()
                .files()
                .iter()
                .filter(|f| f.cnum == LOCAL_CRATE && f.is_real_file())
                .map(|f| js(&format!("{}", f.name.prefer_local_unconditionally()))),
        );
        format!(
            "{{\"crate\":{},\"features\":{},\"crates\":{},\"files\":{},\"bodies\":{},\n\"adts\":{},\n\"impls\":{},\n\"opaques\":{},\n\"traits\":{}}}\n",
            js(tcx.crate_name(LOCAL_CRATE).as_str()),
            arr(tcx
                .sess
                .config
                .iter()
                .filter(|(k, _)| k.as_str() == "feature")
                .map(|(_, v)| js(v.map(|s| s.to_string()).unwrap_or_default().as_str()))),
            arr(crates),
            files,
            arr(bodies),
            arr(adts),
            arr(impls),
            arr(opaques),
            arr(traits)
        )
    }
    fn items(&self, did: DefId) -> String {
        let tcx = self.tcx;
        arr(tcx.associated_items(did).in_definition_order().map(|it| {
            let kind = if it.is_fn() {
                "fn"
            } else if it.is_type() {
                "ty"
            } else {
                "const"
            };
            let of = it.trait_item_def_id().map(|x| self.def(x));
            let tyv = if it.is_type() && it.defaultness(tcx).has_value() {
                self.ty(tcx.type_of(it.def_id).instantiate_identity().skip_norm_wip())
            } else {
                "null".into()
            };
            format!(
                "{{\"n\":{},\"d\":{},\"kind\":\"{}\",\"of\":{},\"ty\":{},\"has\":{},\"self\":{}}}",
                js(it.name().as_str()),
                self.def(it.def_id),
                kind,
                opt(of),
                tyv,
                it.defaultness(tcx).has_value(),
                it.is_method()
            )
        }))
    }
}

struct Cb {
    out: Option<String>,
}

impl rustc_driver::Callbacks for Cb {
    fn config(&mut self, config: &mut rustc_interface::Config) {
        config.opts.unstable_opts.no_steal_thir = true;
    }
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        if let Some(out) = self.out.clone() {
            let text = rustc_middle::ty::print::with_no_trimmed_paths!(D { tcx }.run());
            let tmp = format!("{}.tmp", out);
            std::fs::write(&tmp, text).expect("thirdump: write");
            std::fs::rename(&tmp, &out).expect("thirdump: rename");
        }
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].ends_with("rustc.exe")) {
        args.remove(1);
    }
    let mut name = None;
    let mut test = false;
    for (i, a) in args.iter().enumerate() {
        if a == "--crate-name" {
            name = args.get(i + 1).cloned();
        }
        if a == "--test" {
            test = true;
        }
    }
    let wanted = std::env::var("THIRDUMP_CRATES").unwrap_or_default();
    let dir = std::env::var("THIRDUMP_OUT").ok();
    let out = match (name, dir) {
        (Some(n), Some(d)) if !test && wanted.split(',').any(|w| w == n) => Some(format!("{}/{}.json", d, n)),
        _ => None,
    };
    rustc_driver::install_ice_hook("thirdump", |_| ());
    let code = rustc_driver::catch_with_exit_code(|| {
        rustc_driver::compiler_entrypoint(&args, &mut Cb { out });
    });
    std::process::exit(if code == std::process::ExitCode::SUCCESS { 0 } else { 1 });
}
