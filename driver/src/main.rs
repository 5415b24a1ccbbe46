//! cvdump: a rustc driver that writes the type-checked program (THIR) of every
//! workspace crate as JSON.  Nothing of the analysed program is executed.
#![feature(rustc_private)]
#![allow(clippy::all)]
extern crate rustc_abi;
extern crate rustc_ast;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::thir::{self, AdtExprBase, BlockId, ExprId, ExprKind, Pat, PatKind, StmtKind, Thir};
use rustc_middle::ty::print::{with_no_trimmed_paths, with_no_visible_paths, with_resolve_crate_name};
use rustc_middle::ty::{self, GenericArgsRef, Instance, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use std::collections::HashMap;
use std::fmt::Write as _;

#[derive(Clone)]
enum J {
    N,
    B(bool),
    I(i64),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
}
impl J {
    fn w(&self, o: &mut String) {
        match self {
            J::N => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::I(i) => {
                let _ = write!(o, "{}", i);
            }
            J::S(s) => {
                o.push('"');
                for c in s.chars() {
                    match c {
                        '"' => o.push_str("\\\""),
                        '\\' => o.push_str("\\\\"),
                        '\n' => o.push_str("\\n"),
                        '\r' => o.push_str("\\r"),
                        '\t' => o.push_str("\\t"),
                        c if (c as u32) < 0x20 => {
                            let _ = write!(o, "\\u{:04x}", c as u32);
                        }
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    x.w(o);
                }
                o.push(']');
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    let _ = write!(o, "\"{}\":", k);
                    x.w(o);
                }
                o.push('}');
            }
        }
    }
}
fn s(x: impl ToString) -> J {
    J::S(x.to_string())
}

macro_rules! pr {
    ($e:expr) => {
        with_resolve_crate_name!(with_no_visible_paths!(with_no_trimmed_paths!($e)))
    };
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<String>,
    tmap: HashMap<String, usize>,
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        pr!(self.tcx.def_path_str(d))
    }
    fn tystr(&self, t: Ty<'tcx>) -> String {
        let t = self.tcx.erase_and_anonymize_regions(t);
        pr!(t.to_string())
    }
    fn ty(&mut self, t: Ty<'tcx>) -> J {
        let st = self.tystr(t);
        if let Some(i) = self.tmap.get(&st) {
            return J::I(*i as i64);
        }
        let i = self.types.len();
        self.types.push(st.clone());
        self.tmap.insert(st, i);
        J::I(i as i64)
    }
    fn line(&self, sp: Span) -> (String, i64) {
        let sp = sp.source_callsite();
        let loc = self.tcx.sess.source_map().lookup_char_pos(sp.lo());
        (
            format!("{}", loc.file.name.prefer_local_unconditionally()),
            loc.line as i64,
        )
    }
    fn macros(&self, sp: Span) -> Vec<String> {
        let mut v = vec![];
        let mut n = 0;
        for e in sp.macro_backtrace() {
            match e.kind {
                rustc_span::ExpnKind::Macro(_, name) => v.push(match e.macro_def_id {
                    Some(d) => self.path(d),
                    None => name.to_string(),
                }),
                rustc_span::ExpnKind::Desugaring(k) => v.push(format!("desugar:{}", k.descr())),
                _ => {}
            }
            n += 1;
            if n > 8 {
                break;
            }
        }
        v
    }
    fn fnref(&mut self, owner: LocalDefId, d: DefId, args: GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let args = tcx.erase_and_anonymize_regions(args);
        let mut res = J::N;
        let dk = tcx.def_kind(d);
        if matches!(dk, DefKind::Fn | DefKind::AssocFn) {
            let env = TypingEnv::post_analysis(tcx, owner.to_def_id());
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                Instance::try_resolve(tcx, env, d, args)
            }));
            if let Ok(Ok(Some(i))) = r {
                let rd = i.def_id();
                let kind = match i.def {
                    ty::InstanceKind::Item(_) => "item",
                    ty::InstanceKind::Virtual(..) => "virtual",
                    _ => "shim",
                };
                res = J::A(vec![s(self.path(rd)), s(kind), J::B(rd.is_local())]);
            }
        }
        // conversions implemented through blanket impls: resolve what they end up calling
        let mut via = J::N;
        if dk == DefKind::AssocFn {
            if let Some(tr) = tcx.trait_of_assoc(d) {
                let tn = self.path(tr);
                let (target, swap) = match tn.as_str() {
                    "core::convert::Into" => ("core::convert::From", true),
                    "core::convert::TryInto" => ("core::convert::TryFrom", true),
                    "alloc::string::ToString" => ("core::fmt::Display", false),
                    _ => ("", false),
                };
                if !target.is_empty() {
                    let tid = tcx.all_traits_including_private().find(|t| self.path(*t) == target);
                    if let Some(tid) = tid {
                        let mid = tcx.associated_item_def_ids(tid).iter().copied().find(|i| tcx.def_kind(*i) == DefKind::AssocFn);
                        if let Some(mid) = mid {
                            let na: GenericArgsRef<'tcx> = if swap && args.len() == 2 {
                                tcx.mk_args(&[args[1], args[0]])
                            } else {
                                tcx.mk_args(&[args[0]])
                            };
                            let env = TypingEnv::post_analysis(tcx, owner.to_def_id());
                            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                                Instance::try_resolve(tcx, env, mid, na)
                            }));
                            if let Ok(Ok(Some(i))) = r {
                                let rd = i.def_id();
                                via = J::A(vec![s(self.path(rd)), J::B(rd.is_local())]);
                            }
                        }
                    }
                }
            }
        }
        let mut ta = vec![];
        for a in args.iter() {
            if let Some(t) = a.as_type() {
                ta.push(self.ty(t));
            } else if let Some(c) = a.as_const() {
                ta.push(s(c));
            }
        }
        let tr = if dk == DefKind::AssocFn { tcx.trait_of_assoc(d) } else { None };
        let trj = match tr {
            Some(t) => s(self.path(t)),
            None => J::N,
        };
        J::O(vec![
            ("p", s(self.path(d))),
            ("k", s(format!("{:?}", dk))),
            ("r", res),
            ("via", via),
            ("t", trj),
            ("a", J::A(ta)),
            ("l", J::B(d.is_local())),
        ])
    }
    fn field_name(&self, t: Ty<'tcx>, vi: rustc_abi::VariantIdx, f: rustc_abi::FieldIdx) -> J {
        match t.kind() {
            ty::Adt(a, _) => {
                let v = a.variant(vi);
                s(v.fields[f].name)
            }
            _ => s(f.as_u32()),
        }
    }
    fn adt_variant(&self, a: ty::AdtDef<'tcx>, vi: rustc_abi::VariantIdx) -> (J, J) {
        let v = a.variant(vi);
        (s(self.path(a.did())), if a.is_enum() { s(v.name) } else { J::N })
    }
    fn pat(&mut self, th: &Thir<'tcx>, o: LocalDefId, p: &Pat<'tcx>) -> J {
        let t = self.ty(p.ty);
        let k: Vec<(&'static str, J)> = match &p.kind {
            PatKind::Missing | PatKind::Wild => vec![("k", s("Wild"))],
            PatKind::Binding { name, mode, var, subpattern, .. } => vec![
                ("k", s("Bind")),
                ("n", s(name)),
                ("v", J::I(var.0.local_id.as_u32() as i64)),
                ("ref", J::B(matches!(mode.0, rustc_hir::ByRef::Yes(..)))),
                ("mutref", J::B(matches!(mode.0, rustc_hir::ByRef::Yes(_, rustc_hir::Mutability::Mut)))),
                (
                    "sub",
                    match subpattern {
                        Some(q) => self.pat(th, o, q),
                        None => J::N,
                    },
                ),
            ],
            PatKind::Variant { adt_def, variant_index, subpatterns, .. } => {
                let (a, v) = self.adt_variant(*adt_def, *variant_index);
                let mut f = vec![];
                for fp in subpatterns {
                    let n = s(adt_def.variant(*variant_index).fields[fp.field].name);
                    let q = self.pat(th, o, &fp.pattern);
                    f.push(J::A(vec![n, q]));
                }
                let all = adt_def.variants().iter().map(|v| s(v.name)).collect();
                vec![("k", s("Variant")), ("adt", a), ("var", v), ("f", J::A(f)), ("all", J::A(all))]
            }
            PatKind::Leaf { subpatterns } => {
                let mut f = vec![];
                for fp in subpatterns {
                    let n = self.field_name(p.ty, rustc_abi::VariantIdx::from_u32(0), fp.field);
                    let q = self.pat(th, o, &fp.pattern);
                    f.push(J::A(vec![n, q]));
                }
                vec![("k", s("Leaf")), ("f", J::A(f))]
            }
            PatKind::Deref { subpattern, .. } => {
                vec![("k", s("Deref")), ("sub", self.pat(th, o, subpattern))]
            }
            PatKind::DerefPattern { subpattern, .. } => {
                vec![("k", s("Deref")), ("sub", self.pat(th, o, subpattern))]
            }
            PatKind::Constant { value } => {
                vec![("k", s("Const")), ("val", s(pr!(value.to_string())))]
            }
            PatKind::Range(r) => vec![("k", s("Range")), ("val", s(format!("{}", r)))],
            PatKind::Slice { prefix, slice, suffix } | PatKind::Array { prefix, slice, suffix } => {
                let a = prefix.iter().map(|q| self.pat(th, o, q)).collect();
                let m = match slice {
                    Some(q) => self.pat(th, o, q),
                    None => J::N,
                };
                let b = suffix.iter().map(|q| self.pat(th, o, q)).collect();
                vec![
                    ("k", s("Slice")),
                    ("arr", J::B(matches!(p.kind, PatKind::Array { .. }))),
                    ("pre", J::A(a)),
                    ("mid", m),
                    ("suf", J::A(b)),
                ]
            }
            PatKind::Or { pats } => {
                vec![("k", s("Or")), ("ps", J::A(pats.iter().map(|q| self.pat(th, o, q)).collect()))]
            }
            PatKind::Guard { subpattern, condition } => vec![
                ("k", s("Guard")),
                ("sub", self.pat(th, o, subpattern)),
                ("c", self.expr(th, o, *condition)),
            ],
            PatKind::Never => vec![("k", s("Never"))],
            PatKind::Error(_) => vec![("k", s("Error"))],
        };
        let mut k = k;
        k.push(("t", t));
        J::O(k)
    }
    fn block(&mut self, th: &Thir<'tcx>, o: LocalDefId, b: BlockId) -> J {
        let blk = &th[b];
        let mut st = vec![];
        for sid in blk.stmts.iter() {
            match &th[*sid].kind {
                StmtKind::Expr { expr, .. } => {
                    st.push(J::O(vec![("k", s("E")), ("e", self.expr(th, o, *expr))]))
                }
                StmtKind::Let { pattern, initializer, else_block, .. } => {
                    let p = self.pat(th, o, pattern);
                    let i = match initializer {
                        Some(e) => self.expr(th, o, *e),
                        None => J::N,
                    };
                    let e = match else_block {
                        Some(b) => self.block(th, o, *b),
                        None => J::N,
                    };
                    st.push(J::O(vec![("k", s("L")), ("p", p), ("i", i), ("else", e)]));
                }
            }
        }
        let e = match blk.expr {
            Some(e) => self.expr(th, o, e),
            None => J::N,
        };
        let uns = matches!(blk.safety_mode, thir::BlockSafety::ExplicitUnsafe(_));
        J::O(vec![
            ("k", s("Block")),
            ("s", J::A(st)),
            ("e", e),
            ("lbl", if blk.targeted_by_break { s(format!("{:?}", blk.region_scope)) } else { J::N }),
            ("unsafe", J::B(uns)),
        ])
    }
    fn exprs(&mut self, th: &Thir<'tcx>, o: LocalDefId, v: &[ExprId]) -> J {
        J::A(v.iter().map(|e| self.expr(th, o, *e)).collect())
    }
    fn expr(&mut self, th: &Thir<'tcx>, o: LocalDefId, id: ExprId) -> J {
        let e = &th[id];
        let tcx = self.tcx;
        let mut k: Vec<(&'static str, J)> = match &e.kind {
            // transparent nodes
            ExprKind::Scope { value, .. } => {
                return self.expr_scope(th, o, *value, id);
            }
            ExprKind::ByUse { expr, .. } => return self.expr(th, o, *expr),
            ExprKind::ValueExpr { source }
            | ExprKind::PlaceTypeAscription { source, .. }
            | ExprKind::ValueTypeAscription { source, .. }
            | ExprKind::PlaceUnwrapUnsafeBinder { source }
            | ExprKind::ValueUnwrapUnsafeBinder { source }
            | ExprKind::WrapUnsafeBinder { source } => return self.expr(th, o, *source),
            ExprKind::Reborrow { source, .. } => return self.expr(th, o, *source),
            ExprKind::NeverToAny { source } => {
                vec![("k", s("Never")), ("e", self.expr(th, o, *source))]
            }
            ExprKind::PointerCoercion { source, cast, .. } => vec![
                ("k", s("Coerce")),
                ("c", s(format!("{:?}", cast))),
                ("e", self.expr(th, o, *source)),
            ],
            ExprKind::Cast { source } => vec![("k", s("Cast")), ("e", self.expr(th, o, *source))],
            ExprKind::If { cond, then, else_opt, .. } => {
                let c = self.expr(th, o, *cond);
                let t = self.expr(th, o, *then);
                let f = match else_opt {
                    Some(e) => self.expr(th, o, *e),
                    None => J::N,
                };
                vec![("k", s("If")), ("c", c), ("th", t), ("el", f)]
            }
            ExprKind::Call { ty: fty, fun, args, .. } => {
                let f = match fty.kind() {
                    ty::FnDef(d, a) => self.fnref(o, *d, a.no_bound_vars().unwrap()),
                    _ => J::O(vec![("e", self.expr(th, o, *fun))]),
                };
                let a = self.exprs(th, o, args);
                vec![("k", s("Call")), ("f", f), ("a", a)]
            }
            ExprKind::Deref { arg } => vec![("k", s("Deref")), ("e", self.expr(th, o, *arg))],
            ExprKind::Binary { op, lhs, rhs } => vec![
                ("k", s("Bin")),
                ("op", s(format!("{:?}", op))),
                ("l", self.expr(th, o, *lhs)),
                ("r", self.expr(th, o, *rhs)),
            ],
            ExprKind::LogicalOp { op, lhs, rhs } => vec![
                ("k", s("Logic")),
                ("op", s(format!("{:?}", op))),
                ("l", self.expr(th, o, *lhs)),
                ("r", self.expr(th, o, *rhs)),
            ],
            ExprKind::Unary { op, arg } => vec![
                ("k", s("Un")),
                ("op", s(format!("{:?}", op))),
                ("e", self.expr(th, o, *arg)),
            ],
            ExprKind::Loop { body } => vec![("k", s("Loop")), ("b", self.expr(th, o, *body))],
            ExprKind::LoopMatch { .. } => vec![("k", s("Opaque")), ("n", s("loopmatch"))],
            ExprKind::Let { expr, pat } => {
                vec![("k", s("Let")), ("e", self.expr(th, o, *expr)), ("p", self.pat(th, o, pat))]
            }
            ExprKind::Match { scrutinee, arms, match_source } => {
                let sc = self.expr(th, o, *scrutinee);
                let mut v = vec![];
                for a in arms.iter() {
                    let arm = &th[*a];
                    let p = self.pat(th, o, &arm.pattern);
                    let g = match arm.guard {
                        Some(g) => self.expr(th, o, g),
                        None => J::N,
                    };
                    let b = self.expr(th, o, arm.body);
                    v.push(J::O(vec![("p", p), ("g", g), ("b", b)]));
                }
                vec![
                    ("k", s("Match")),
                    ("src", s(format!("{:?}", match_source).split('(').next().unwrap())),
                    ("e", sc),
                    ("arms", J::A(v)),
                ]
            }
            ExprKind::Block { block } => return self.block(th, o, *block),
            ExprKind::Assign { lhs, rhs } => vec![
                ("k", s("Assign")),
                ("l", self.expr(th, o, *lhs)),
                ("r", self.expr(th, o, *rhs)),
            ],
            ExprKind::AssignOp { op, lhs, rhs } => vec![
                ("k", s("AssignOp")),
                ("op", s(format!("{:?}", op))),
                ("l", self.expr(th, o, *lhs)),
                ("r", self.expr(th, o, *rhs)),
            ],
            ExprKind::Field { lhs, variant_index, name } => {
                let lt = th[*lhs].ty;
                let n = self.field_name(lt, *variant_index, *name);
                vec![("k", s("Field")), ("n", n), ("e", self.expr(th, o, *lhs))]
            }
            ExprKind::Index { lhs, index } => vec![
                ("k", s("Index")),
                ("e", self.expr(th, o, *lhs)),
                ("i", self.expr(th, o, *index)),
            ],
            ExprKind::VarRef { id } => {
                vec![("k", s("Var")), ("v", J::I(id.0.local_id.as_u32() as i64))]
            }
            ExprKind::UpvarRef { var_hir_id, .. } => {
                vec![("k", s("Up")), ("v", J::I(var_hir_id.0.local_id.as_u32() as i64))]
            }
            ExprKind::Borrow { borrow_kind, arg } => vec![
                ("k", s("Borrow")),
                ("mut", J::B(matches!(borrow_kind, rustc_middle::mir::BorrowKind::Mut { .. }))),
                ("e", self.expr(th, o, *arg)),
            ],
            ExprKind::RawBorrow { mutability, arg } => vec![
                ("k", s("RawBorrow")),
                ("mut", J::B(mutability.is_mut())),
                ("e", self.expr(th, o, *arg)),
            ],
            ExprKind::Break { label, value } => vec![
                ("k", s("Break")),
                ("lbl", s(format!("{:?}", label))),
                (
                    "e",
                    match value {
                        Some(v) => self.expr(th, o, *v),
                        None => J::N,
                    },
                ),
            ],
            ExprKind::Continue { label } => {
                vec![("k", s("Continue")), ("lbl", s(format!("{:?}", label)))]
            }
            ExprKind::ConstContinue { .. } => vec![("k", s("Opaque")), ("n", s("constcontinue"))],
            ExprKind::Return { value } => vec![
                ("k", s("Return")),
                (
                    "e",
                    match value {
                        Some(v) => self.expr(th, o, *v),
                        None => J::N,
                    },
                ),
            ],
            ExprKind::Become { value } => {
                vec![("k", s("Return")), ("e", self.expr(th, o, *value))]
            }
            ExprKind::ConstBlock { did, .. } => vec![("k", s("ConstBlock")), ("p", s(self.path(*did)))],
            ExprKind::Repeat { value, count } => vec![
                ("k", s("Repeat")),
                ("e", self.expr(th, o, *value)),
                ("n", s(pr!(count.to_string()))),
            ],
            ExprKind::Array { fields } => vec![("k", s("Array")), ("a", self.exprs(th, o, fields))],
            ExprKind::Tuple { fields } => vec![("k", s("Tuple")), ("a", self.exprs(th, o, fields))],
            ExprKind::Adt(a) => {
                let (p, v) = self.adt_variant(a.adt_def, a.variant_index);
                let mut f = vec![];
                for fe in a.fields.iter() {
                    let n = s(a.adt_def.variant(a.variant_index).fields[fe.name].name);
                    f.push(J::A(vec![n, self.expr(th, o, fe.expr)]));
                }
                let b = match &a.base {
                    AdtExprBase::None => J::N,
                    AdtExprBase::Base(b) => self.expr(th, o, b.base),
                    AdtExprBase::DefaultFields(_) => s("default"),
                };
                vec![("k", s("Adt")), ("adt", p), ("var", v), ("f", J::A(f)), ("base", b)]
            }
            ExprKind::Closure(c) => {
                let ups = self.exprs(th, o, &c.upvars);
                vec![
                    ("k", s("Closure")),
                    ("p", s(self.path(c.closure_id.to_def_id()))),
                    ("up", ups),
                ]
            }
            ExprKind::Literal { lit, neg } => {
                use rustc_ast::LitKind::*;
                let (t, v) = match &lit.node {
                    Str(x, _) => ("str", x.to_string()),
                    ByteStr(b, _) | CStr(b, _) => {
                        let mut o = String::new();
                        for c in b.as_byte_str().iter() {
                            let _ = write!(o, "{:02x}", c);
                        }
                        ("bytes", o)
                    }
                    Byte(b) => ("int", b.to_string()),
                    Char(c) => ("char", c.to_string()),
                    Int(i, _) => ("int", i.get().to_string()),
                    Float(x, _) => ("float", x.to_string()),
                    Bool(b) => ("bool", b.to_string()),
                    Err(_) => ("err", String::new()),
                };
                vec![("k", s("Lit")), ("lt", s(t)), ("v", s(format!("{}{}", if *neg { "-" } else { "" }, v)))]
            }
            ExprKind::NonHirLiteral { lit, .. } => {
                vec![("k", s("Lit")), ("lt", s("int")), ("v", s(format!("{}", lit)))]
            }
            ExprKind::ZstLiteral { .. } => match e.ty.kind() {
                ty::FnDef(d, a) => vec![("k", s("Fn")), ("f", self.fnref(o, *d, a.no_bound_vars().unwrap()))],
                _ => vec![("k", s("Zst"))],
            },
            ExprKind::NamedConst { def_id, args, .. } => {
                let mut res = J::N;
                if matches!(tcx.def_kind(*def_id), DefKind::AssocConst { .. }) {
                    let env = TypingEnv::post_analysis(tcx, o.to_def_id());
                    let args = tcx.erase_and_anonymize_regions(*args);
                    if let Ok(Some(i)) = Instance::try_resolve(tcx, env, *def_id, args) {
                        res = s(self.path(i.def_id()));
                    }
                }
                let mut ta = vec![];
                for a in args.iter() {
                    if let Some(t) = a.as_type() {
                        ta.push(self.ty(t));
                    }
                }
                vec![("k", s("Const")), ("p", s(self.path(*def_id))), ("r", res), ("a", J::A(ta))]
            }
            ExprKind::ConstParam { param, .. } => vec![("k", s("ConstParam")), ("n", s(param.name))],
            ExprKind::StaticRef { def_id, .. } => vec![("k", s("Static")), ("p", s(self.path(*def_id)))],
            ExprKind::InlineAsm(_) => vec![("k", s("Opaque")), ("n", s("asm"))],
            ExprKind::ThreadLocalRef(d) => vec![("k", s("Static")), ("p", s(self.path(*d)))],
            ExprKind::Yield { .. } => vec![("k", s("Opaque")), ("n", s("yield"))],
        };
        let t = self.ty(e.ty);
        k.push(("t", t));
        let (_, l) = self.line(e.span);
        k.push(("ln", J::I(l)));
        if e.span.from_expansion() {
            let m = self.macros(e.span);
            if !m.is_empty() {
                k.push(("m", J::A(m.into_iter().map(J::S).collect())));
            }
        }
        J::O(k)
    }
    fn expr_scope(&mut self, th: &Thir<'tcx>, o: LocalDefId, v: ExprId, id: ExprId) -> J {
        // label of scopes that `break`/`continue` can target: loops.
        if let ExprKind::Scope { region_scope, .. } = &th[id].kind {
            if let ExprKind::Loop { .. } = &th[v].kind {
                if let J::O(mut f) = self.expr(th, o, v) {
                    f.push(("lbl", s(format!("{:?}", region_scope))));
                    return J::O(f);
                }
            }
        }
        self.expr(th, o, v)
    }
}

fn dump<'tcx>(tcx: TyCtxt<'tcx>, out: &str) {
    let mut cx = Cx { tcx, types: vec![], tmap: HashMap::new() };
    let krate = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
    let ctypes: Vec<String> = tcx.crate_types().iter().map(|t| format!("{:?}", t)).collect();
    let mut bodies = vec![];
    let owners: Vec<LocalDefId> = tcx.hir_body_owners().collect();
    for o in owners {
        let d = o.to_def_id();
        let dk = tcx.def_kind(o);
        let Ok((th, root)) = tcx.thir_body(o) else { continue };
        let th = th.borrow();
        if th.exprs.is_empty() {
            continue;
        }
        let e = cx.expr(&th, o, root);
        let mut params = vec![];
        for p in th.params.iter() {
            let t = cx.ty(p.ty);
            let q = match &p.pat {
                Some(q) => cx.pat(&th, o, q),
                None => J::N,
            };
            params.push(J::O(vec![("t", t), ("p", q), ("self", J::B(p.self_kind.is_some()))]));
        }
        let (file, line) = cx.line(tcx.def_span(d));
        let end = tcx.sess.source_map().lookup_char_pos(th[root].span.source_callsite().hi()).line as i64;
        let mut f = vec![
            ("p", s(cx.path(d))),
            ("k", s(format!("{:?}", dk).split(|c| c == ' ' || c == '(').next().unwrap())),
            ("file", s(file)),
            ("ln", J::I(line)),
            ("end", J::I(end)),
            ("params", J::A(params)),
            ("e", e),
        ];
        if let thir::BodyTy::Fn(sig) = th.body_type {
            let r = cx.ty(sig.output());
            f.push(("ret", r));
        }
        if let Some(imp) = tcx.impl_of_assoc(d) {
            let st = tcx.type_of(imp).instantiate_identity().skip_norm_wip();
            let st = cx.ty(st);
            f.push(("self", st));
            if let Some(tr) = tcx.impl_opt_trait_ref(imp) {
                let tr = tr.instantiate_identity().skip_norm_wip();
                f.push(("trait", s(cx.path(tr.def_id))));
                f.push(("tref", s(pr!(tcx.erase_and_anonymize_regions(tr).to_string()))));
            }
            f.push(("derived", J::B(tcx.is_automatically_derived(imp))));
        } else if let Some(tr) = tcx.trait_of_assoc(d) {
            f.push(("deftrait", s(cx.path(tr))));
        }
        if matches!(dk, DefKind::Fn | DefKind::AssocFn) {
            f.push(("unsafe", J::B(!tcx.fn_sig(d).skip_binder().safety().is_safe())));
        }
        if matches!(dk, DefKind::Fn | DefKind::AssocFn) {
            f.push(("vis", s(format!("{:?}", tcx.visibility(d)))));
        }
        let sp = tcx.def_span(d);
        if sp.from_expansion() {
            f.push(("m", J::A(cx.macros(sp).into_iter().map(J::S).collect())));
        }
        bodies.push(J::O(f));
    }
    let mut adts = vec![];
    let mut impls = vec![];
    for id in tcx.hir_crate_items(()).definitions() {
        let d = id.to_def_id();
        match tcx.def_kind(id) {
            DefKind::Struct | DefKind::Enum | DefKind::Union => {
                let a = tcx.adt_def(d);
                let mut vs = vec![];
                for v in a.variants() {
                    let mut fs = vec![];
                    for f in v.fields.iter() {
                        let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                        let t = cx.ty(t);
                        fs.push(J::A(vec![s(f.name), t, s(format!("{:?}", f.vis))]));
                    }
                    vs.push(J::A(vec![s(v.name), J::A(fs)]));
                }
                let (file, line) = cx.line(tcx.def_span(d));
                adts.push(J::O(vec![
                    ("p", s(cx.path(d))),
                    ("enum", J::B(a.is_enum())),
                    ("v", J::A(vs)),
                    ("vis", s(format!("{:?}", tcx.visibility(d)))),
                    ("file", s(file)),
                    ("ln", J::I(line)),
                ]));
            }
            DefKind::Impl { .. } => {
                let st = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let st = cx.tystr(st);
                let tr = match tcx.impl_opt_trait_ref(d) {
                    Some(t) => {
                        let t = t.instantiate_identity().skip_norm_wip();
                        s(pr!(tcx.erase_and_anonymize_regions(t).to_string()))
                    }
                    None => J::N,
                };
                let uns = match tcx.impl_opt_trait_ref(d) {
                    Some(_) => !tcx.impl_trait_header(d).safety.is_safe(),
                    None => false,
                };
                let items: Vec<J> =
                    tcx.associated_item_def_ids(d).iter().filter_map(|i| tcx.opt_item_name(*i)).map(s).collect();
                let (file, line) = cx.line(tcx.def_span(d));
                impls.push(J::O(vec![
                    ("self", s(st)),
                    ("trait", tr),
                    ("unsafe", J::B(uns)),
                    ("derived", J::B(tcx.is_automatically_derived(d))),
                    ("items", J::A(items)),
                    ("file", s(file)),
                    ("ln", J::I(line)),
                ]));
            }
            _ => {}
        }
    }
    let types = cx.types.iter().map(|t| s(t)).collect();
    let j = J::O(vec![
        ("crate", s(&krate)),
        ("types", J::A(types)),
        ("bodies", J::A(bodies)),
        ("adts", J::A(adts)),
        ("impls", J::A(impls)),
    ]);
    let mut o = String::new();
    j.w(&mut o);
    let kind = if ctypes.iter().any(|c| c.contains("Executable")) {
        "bin"
    } else if ctypes.iter().any(|c| c.contains("ProcMacro")) {
        "proc"
    } else {
        "lib"
    };
    let p = format!("{}/{}.{}.json", out, krate, kind);
    let tmp = format!("{}.tmp{}", p, std::process::id());
    std::fs::write(&tmp, o).unwrap();
    std::fs::rename(&tmp, &p).unwrap();
}

struct Cb {
    out: Option<String>,
}
impl rustc_driver::Callbacks for Cb {
    fn config(&mut self, c: &mut rustc_interface::interface::Config) {
        c.opts.unstable_opts.no_steal_thir = true;
    }
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> Compilation {
        if let Some(o) = &self.out {
            dump(tcx, o);
        }
        Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv = [cvdump, rustc, args...]
    if args.len() > 1 && !args[1].starts_with('-') && !args[1].ends_with(".rs") {
        args.remove(1);
    }
    let probe = args.iter().any(|a| a == "-vV" || a.starts_with("--print"))
        || args.windows(2).any(|w| w[0] == "--crate-name" && (w[1] == "___" || w[1] == "build_script_build"));
    let out = if probe { None } else { std::env::var("CVDUMP_OUT").ok() };
    let code = rustc_driver::catch_with_exit_code(move || {
        rustc_driver::compiler_entrypoint(&args, &mut Cb { out })
    });
    code
}
