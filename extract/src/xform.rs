// Meaning-preserving rewrites of one function body, and insertion of loop contracts.
use crate::contracts::{labelled, Contract};
use crate::{print, FnDef, Report, Scopes};
use proc_macro2::TokenStream;
use quote::{format_ident, quote, ToTokens};
use serde_json::{json, Value};
use std::collections::{BTreeSet, HashMap};
use syn::visit::Visit;
use syn::visit_mut::VisitMut;
use syn::*;

pub struct Out {
    pub body: String,
    pub loops: Value,
    pub variants: usize,
    pub params: Vec<String>,
    pub problems: Vec<String>,
    pub unattached: bool,
}

pub fn is_word(c: char) -> bool {
    c.is_alphanumeric() || c == '_'
}

/// Replace whole words
pub fn replace_word(s: &str, from: &str, to: &str) -> String {
    let cs: Vec<char> = s.chars().collect();
    let f: Vec<char> = from.chars().collect();
    let mut out = String::new();
    let mut i = 0;
    while i < cs.len() {
        let boundary = i == 0 || !is_word(cs[i - 1]) || f[0] == '$';
        if boundary && i + f.len() <= cs.len() && cs[i..i + f.len()] == f[..] && (i + f.len() == cs.len() || !is_word(cs[i + f.len()])) && (i == 0 || cs[i - 1] != '.') {
            out.push_str(to);
            i += f.len();
        } else {
            out.push(cs[i]);
            i += 1;
        }
    }
    out
}

pub fn subst_params(t: &str, from: &[String], to: &[String]) -> String {
    let mut s = t.to_string();
    for (i, (a, b)) in from.iter().zip(to.iter()).enumerate() {
        if a != b {
            s = replace_word(&s, a, &format!("__pp{}__", i));
        }
    }
    for (i, (a, b)) in from.iter().zip(to.iter()).enumerate() {
        if a != b {
            s = s.replace(&format!("__pp{}__", i), b);
        }
    }
    s
}

fn param_names(sig: &Signature) -> Vec<String> {
    sig.inputs
        .iter()
        .map(|i| match i {
            FnArg::Receiver(_) => "self".to_string(),
            FnArg::Typed(t) => match &*t.pat {
                Pat::Ident(p) => p.ident.to_string(),
                _ => "_".into(),
            },
        })
        .collect()
}

// ---------- inlining of helper functions that have no contract ----------
struct Rename<'a> {
    map: &'a HashMap<String, Ident>,
}
impl<'a> VisitMut for Rename<'a> {
    fn visit_expr_path_mut(&mut self, p: &mut ExprPath) {
        if p.qself.is_none() {
            if let Some(i) = p.path.get_ident() {
                if let Some(n) = self.map.get(&i.to_string()) {
                    let n = n.clone();
                    p.path = parse_quote!(#n);
                }
            }
        }
    }
    fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) {
        if let Some(n) = self.map.get(&p.ident.to_string()) {
            p.ident = n.clone();
        }
        visit_mut::visit_pat_ident_mut(self, p);
    }
    fn visit_field_pat_mut(&mut self, f: &mut FieldPat) {
        self.visit_pat_mut(&mut f.pat);
        if f.colon_token.is_none() {
            if let (Member::Named(m), Pat::Ident(p)) = (&f.member, &*f.pat) {
                if p.ident != *m {
                    f.colon_token = Some(Default::default());
                }
            }
        }
    }
    fn visit_field_value_mut(&mut self, f: &mut FieldValue) {
        self.visit_expr_mut(&mut f.expr);
        if f.colon_token.is_none() {
            if let (Member::Named(m), Expr::Path(p)) = (&f.member, &f.expr) {
                if !p.path.is_ident(m) {
                    f.colon_token = Some(Default::default());
                }
            }
        }
    }
}

struct HasReturn(bool);
impl<'ast> Visit<'ast> for HasReturn {
    fn visit_expr_return(&mut self, _: &'ast ExprReturn) {
        self.0 = true;
    }
    fn visit_expr_try(&mut self, _: &'ast ExprTry) {
        self.0 = true;
    }
    fn visit_expr_closure(&mut self, _: &'ast ExprClosure) {}
}
fn has_ret_b(b: &Block) -> bool {
    let mut h = HasReturn(false);
    h.visit_block(b);
    h.0
}
fn has_ret_s(b: &Stmt) -> bool {
    let mut h = HasReturn(false);
    h.visit_stmt(b);
    h.0
}
fn has_ret_e(b: &Expr) -> bool {
    let mut h = HasReturn(false);
    h.visit_expr(b);
    h.0
}
fn ends_with_return(b: &Block) -> bool {
    match b.stmts.last() {
        Some(Stmt::Expr(Expr::Return(_), _)) => true,
        _ => false,
    }
}
/// what a function gives back: Result, Option or something else
#[derive(Clone, Copy, PartialEq)]
enum Kind {
    Result,
    Option,
    Other,
}
/// the kind of a return type and its error type
fn kind_of(o: &ReturnType) -> (Kind, String) {
    if let ReturnType::Type(_, t) = o {
        if let Type::Path(p) = &**t {
            let s = p.path.segments.last().unwrap();
            if let PathArguments::AngleBracketed(a) = &s.arguments {
                if s.ident == "Result" && a.args.len() == 2 {
                    return (Kind::Result, a.args[1].to_token_stream().to_string());
                }
                if s.ident == "Option" && a.args.len() == 1 {
                    return (Kind::Option, String::new());
                }
            }
        }
    }
    (Kind::Other, String::new())
}
/// match x { A => a?, B => b? } is (match x { A => a, B => b })?
fn pull_try(e: &mut Expr) {
    if let Expr::Match(m) = e {
        if m.arms.iter().all(|a| matches!(&*a.body, Expr::Try(_))) && !m.arms.is_empty() {
            for a in m.arms.iter_mut() {
                if let Expr::Try(t) = &*a.body {
                    a.body = t.expr.clone();
                }
            }
            let m = m.clone();
            *e = parse_quote!((#m)?);
        }
    }
}
/// `return Err(..)`, `return None` and `?` of a body that takes the place of `helper(..)?` are the caller's own
struct Mask(bool);
impl VisitMut for Mask {
    fn visit_expr_closure_mut(&mut self, _: &mut ExprClosure) {}
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if self.0 {
            match e {
                Expr::Try(t) => {
                    let x = &t.expr;
                    *e = parse_quote!(try__(#x));
                }
                Expr::Return(r) => {
                    if let Some(x) = &r.expr {
                        if is_fail(x) {
                            *e = parse_quote!(return__(#x));
                        }
                    }
                }
                _ => {}
            }
        } else if let Expr::Call(c) = e {
            let f = c.func.to_token_stream().to_string();
            if c.args.len() == 1 && f == "try__" {
                let x = &c.args[0];
                *e = parse_quote!(#x?);
            } else if c.args.len() == 1 && f == "return__" {
                let x = &c.args[0];
                *e = parse_quote!(return #x);
            }
        }
    }
}
fn is_fail(e: &Expr) -> bool {
    match unparen(e) {
        Expr::Call(c) => c.func.to_token_stream().to_string() == "Err",
        Expr::Path(p) => p.path.is_ident("None"),
        _ => false,
    }
}
/// the value of `e?` for the tail expression of a body
fn tail_value(e: &mut Expr) -> Option<()> {
    let tail_b = |b: &mut Block| -> Option<()> {
        match b.stmts.last_mut()? {
            Stmt::Expr(x, None) => tail_value(x),
            Stmt::Expr(Expr::Call(c), _) if c.func.to_token_stream().to_string() == "return__" => Some(()),
            _ => None,
        }
    };
    match e {
        Expr::If(i) => {
            tail_b(&mut i.then_branch)?;
            tail_value(&mut *i.else_branch.as_mut()?.1)
        }
        Expr::Block(b) => tail_b(&mut b.block),
        Expr::Match(m) => {
            for a in m.arms.iter_mut() {
                tail_value(&mut a.body)?;
            }
            Some(())
        }
        Expr::Paren(p) => tail_value(&mut p.expr),
        Expr::Call(c) if ["Ok", "Some"].contains(&c.func.to_token_stream().to_string().as_str()) && c.args.len() == 1 => {
            *e = c.args[0].clone();
            Some(())
        }
        Expr::Call(c) if c.func.to_token_stream().to_string() == "return__" => Some(()),
        _ if is_fail(e) => {
            let x = e.clone();
            *e = parse_quote!(return__(#x));
            Some(())
        }
        _ => {
            let x = e.clone();
            *e = parse_quote!(try__(#x));
            Some(())
        }
    }
}
/// Rewrite early returns of guard form into if/else so that the body becomes an expression block
fn unreturn(stmts: Vec<Stmt>, kind: Kind) -> Option<Vec<Stmt>> {
    let k = match stmts.iter().position(has_ret_s) {
        None => return Some(stmts),
        Some(k) => k,
    };
    let last = k + 1 == stmts.len();
    let mut pre: Vec<Stmt> = stmts[..k].to_vec();
    let rest: Vec<Stmt> = stmts[k + 1..].to_vec();
    match stmts[k].clone() {
        Stmt::Local(mut l) if kind != Kind::Other => {
            let mut init = l.init.take()?;
            if init.diverge.is_some() {
                return None;
            }
            pull_try(&mut init.expr);
            let Expr::Try(t) = *init.expr else { return None };
            let x = *t.expr;
            if has_ret_e(&x) {
                return None;
            }
            let rest = unreturn(rest, kind)?;
            let bind: Stmt = match &l.pat {
                Pat::Type(t) => {
                    let (pat, ty) = (&t.pat, &t.ty);
                    parse_quote!(let #pat: #ty = v__try;)
                }
                pat => parse_quote!(let #pat = v__try;),
            };
            let e: Expr = if kind == Kind::Result {
                parse_quote!(match #x { Ok(v__try) => { #bind #(#rest)* } Err(e__try) => Err(e__try) })
            } else {
                parse_quote!(match #x { Some(v__try) => { #bind #(#rest)* } None => None })
            };
            pre.push(Stmt::Expr(e, None));
            Some(pre)
        }
        Stmt::Expr(Expr::Return(r), _) => {
            if !last {
                return None;
            }
            match r.expr {
                Some(e) => {
                    if has_ret_e(&e) {
                        return None;
                    }
                    pre.push(Stmt::Expr(*e, None))
                }
                None => {}
            }
            Some(pre)
        }
        Stmt::Expr(Expr::If(i), semi) => {
            if has_ret_e(&i.cond) {
                return None;
            }
            let is_tail = last && semi.is_none();
            let then = if is_tail || ends_with_return(&i.then_branch) {
                unreturn(i.then_branch.stmts.clone(), kind)?
            } else if !has_ret_b(&i.then_branch) {
                let mut s = i.then_branch.stmts.clone();
                terminate(&mut s);
                s.extend(rest.clone());
                unreturn(s, kind)?
            } else {
                return None;
            };
            let els = match i.else_branch {
                None => unreturn(rest, kind)?,
                Some((_, e)) => {
                    let b = match *e {
                        Expr::Block(b) => b.block.stmts,
                        other => vec![Stmt::Expr(other, None)],
                    };
                    let bb = Block { brace_token: Default::default(), stmts: b.clone() };
                    if is_tail || ends_with_return(&bb) {
                        unreturn(b, kind)?
                    } else {
                        let mut s = b;
                        terminate(&mut s);
                        s.extend(rest);
                        unreturn(s, kind)?
                    }
                }
            };
            let cond = i.cond;
            let e: Expr = parse_quote!(if #cond { #(#then)* } else { #(#els)* });
            pre.push(Stmt::Expr(e, None));
            Some(pre)
        }
        Stmt::Expr(Expr::Match(mut m), semi) if last => {
            if has_ret_e(&m.expr) {
                return None;
            }
            let _ = semi;
            for a in m.arms.iter_mut() {
                let s = vec![Stmt::Expr((*a.body).clone(), None)];
                let s = match &*a.body {
                    Expr::Block(b) => unreturn(b.block.stmts.clone(), kind)?,
                    _ => unreturn(s, kind)?,
                };
                a.body = Box::new(parse_quote!({ #(#s)* }));
            }
            pre.push(Stmt::Expr(Expr::Match(m), None));
            Some(pre)
        }
        _ => None,
    }
}
fn terminate(s: &mut Vec<Stmt>) {
    if let Some(Stmt::Expr(_, semi)) = s.last_mut() {
        if semi.is_none() {
            *semi = Some(Default::default());
        }
    }
}

struct Inliner<'a> {
    helpers: &'a HashMap<String, &'a FnDef>,
    n: usize,
    log: Vec<String>,
    problems: Vec<String>,
    changed: bool,
    own: String,
    module: String,
    scopes: &'a Scopes,
    refs: &'a mut BTreeSet<String>, // variables known to hold references
    ret: (Kind, String),
    closure: usize,
}
fn ref_params(sig: &Signature, out: &mut BTreeSet<String>) {
    for i in &sig.inputs {
        match i {
            FnArg::Receiver(r) if r.reference.is_some() => {
                out.insert("self".into());
            }
            FnArg::Typed(t) => {
                if let (Pat::Ident(p), Type::Reference(_)) = (&*t.pat, &*t.ty) {
                    out.insert(p.ident.to_string());
                }
            }
            _ => {}
        }
    }
}
/// a parameter that is only read, given a literal
pub struct Lits<'b>(pub &'b HashMap<String, Expr>);
impl<'b> VisitMut for Lits<'b> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Path(p) = e {
            if let Some(x) = p.path.get_ident().and_then(|i| self.0.get(&i.to_string())) {
                *e = x.clone();
                return;
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}
/// a table that was declared as a reference: `NAME` is `&NAME` except where it is indexed, called or borrowed
pub struct ByRef<'b>(pub &'b std::collections::BTreeSet<String>);
impl<'b> ByRef<'b> {
    fn is(&self, e: &Expr) -> bool {
        matches!(e, Expr::Path(p) if p.path.get_ident().map_or(false, |i| self.0.contains(&i.to_string())))
    }
}
impl<'b> VisitMut for ByRef<'b> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::Path(_) if self.is(e) => {
                let x = e.clone();
                *e = parse_quote!(&#x);
            }
            Expr::Reference(r) if self.is(&r.expr) => {}
            Expr::Index(i) if self.is(&i.expr) => self.visit_expr_mut(&mut i.index),
            Expr::MethodCall(m) if self.is(&m.receiver) => {
                for a in m.args.iter_mut() {
                    self.visit_expr_mut(a)
                }
            }
            _ => visit_mut::visit_expr_mut(self, e),
        }
    }
}
fn typed_lit(e: &Expr, ty: Option<&Type>) -> Option<Expr> {
    if let Expr::Lit(ExprLit { lit: Lit::Int(i), .. }) = unparen(e) {
        let t = ty.map(|t| t.to_token_stream().to_string()).unwrap_or_default();
        let int = ["u8", "u16", "u32", "u64", "usize"].contains(&t.as_str());
        if i.suffix().is_empty() && int {
            return Some(Expr::Lit(ExprLit { attrs: vec![], lit: Lit::Int(LitInt::new(&format!("{}{}", i.base10_digits(), t), proc_macro2::Span::call_site())) }));
        }
        if ty.is_none() || int {
            return Some(unparen(e).clone());
        }
    }
    None
}
/// names of another module written with their full path
struct Qualify<'b> {
    scope: Option<&'b HashMap<String, String>>,
    self_ty: Option<String>,
    local: Vec<String>,
}
impl<'b> VisitMut for Qualify<'b> {
    fn visit_path_mut(&mut self, p: &mut Path) {
        visit_mut::visit_path_mut(self, p);
        if p.leading_colon.is_some() {
            return;
        }
        let first = p.segments[0].ident.to_string();
        if p.segments.len() == 1 && self.local.contains(&first) {
            return;
        }
        let full = if first == "Self" { self.self_ty.clone() } else { self.scope.and_then(|s| s.get(&first)).cloned() };
        if let Some(f) = full {
            if let Ok(np) = parse_str::<Path>(&f) {
                let mut q = np;
                let args = p.segments[0].arguments.clone();
                q.segments.last_mut().unwrap().arguments = args;
                for s in p.segments.iter().skip(1) {
                    q.segments.push(s.clone());
                }
                *p = q;
            }
        }
    }
}
impl<'a> Inliner<'a> {
    fn find(&self, name: &str, ty: Option<&str>, method: bool) -> Option<&'a FnDef> {
        let own_mod = self.own.split("::").next().unwrap_or("").to_string();
        let c: Vec<&&FnDef> = self
            .helpers
            .values()
            .filter(|f| {
                f.name == name
                    && (!method || f.in_impl)
                    && match ty {
                        Some(t) => f.path.split("::").any(|s| s == t) || t == "Self" || t == "self" || t == "super" || t == "crate",
                        None => true,
                    }
            })
            .collect();
        if c.len() == 1 {
            return Some(*c[0]);
        }
        let same: Vec<_> = c.iter().filter(|f| f.path.starts_with(&format!("{}::", own_mod))).collect();
        // prefer the helper in the same (deepest) module
        let parent = self.own.rsplit_once("::").map(|x| x.0).unwrap_or("");
        let exact: Vec<_> = c.iter().filter(|f| f.path.rsplit_once("::").map(|x| x.0) == Some(parent)).collect();
        if exact.len() == 1 {
            return Some(**exact[0]);
        }
        if same.len() == 1 {
            return Some(**same[0]);
        }
        None
    }
    fn build(&mut self, f: &FnDef, args: Vec<Expr>, tri: bool) -> Option<Expr> {
        self.n += 1;
        let k = self.n;
        let mut map = HashMap::new();
        let mut lets: Vec<Stmt> = vec![];
        let mut lits: HashMap<String, Expr> = HashMap::new();
        let mut sig = f.sig.clone();
        let mut block = f.block.clone();
        {
            let mut bd = Bound::default();
            bd.visit_block(&block);
            for i in &sig.inputs {
                bd.visit_fn_arg(i);
            }
            let scope = self.scopes.get(&f.module);
            let self_ty = f.self_ty.as_ref().map(|t| scope.and_then(|s| s.get(t)).cloned().unwrap_or(t.clone()));
            let mut q = Qualify { scope: if f.module == self.module { None } else { scope }, self_ty, local: bd.0 };
            for i in sig.inputs.iter_mut() {
                q.visit_fn_arg_mut(i);
            }
            q.visit_block_mut(&mut block);
        }
        if f.sig.inputs.len() != args.len() {
            return None;
        }
        let gen: Vec<String> = f.sig.generics.params.iter().filter_map(|p| match p {
            GenericParam::Type(t) => Some(t.ident.to_string()),
            GenericParam::Const(t) => Some(t.ident.to_string()),
            _ => None,
        }).collect();
        for (inp, a) in sig.inputs.iter().zip(args) {
            match inp {
                FnArg::Receiver(r) => {
                    let id = format_ident!("self__{}", k);
                    map.insert("self".to_string(), id.clone());
                    if r.reference.is_some() {
                        let known = matches!(unparen(&a), Expr::Path(p) if p.path.get_ident().map_or(false, |i| self.refs.contains(&i.to_string())));
                        self.refs.insert(id.to_string());
                        if r.mutability.is_some() {
                            lets.push(if known { parse_quote!(let #id = &mut *#a;) } else { parse_quote!(let #id = &mut #a;) });
                        } else {
                            lets.push(if known { parse_quote!(let #id = &*#a;) } else { parse_quote!(let #id = &#a;) });
                        }
                    } else {
                        lets.push(parse_quote!(let #id = #a;));
                    }
                }
                FnArg::Typed(t) => {
                    let ty = &t.ty;
                    let tt = ty.to_token_stream().to_string();
                    let free = tt.split(|c: char| !c.is_alphanumeric() && c != '_').any(|w| w == "impl" || gen.iter().any(|g| g == w));
                    match &*t.pat {
                        Pat::Ident(p) if p.mutability.is_none() && typed_lit(&a, Some(ty)).is_some() && !block_binds(&block, &p.ident.to_string()) => {
                            lits.insert(p.ident.to_string(), typed_lit(&a, Some(ty)).unwrap());
                        }
                        Pat::Ident(p) if free => {
                            let id = format_ident!("{}__{}", p.ident, k);
                            map.insert(p.ident.to_string(), id.clone());
                            if p.mutability.is_some() {
                                lets.push(parse_quote!(let mut #id = #a;));
                            } else {
                                lets.push(parse_quote!(let #id = #a;));
                            }
                        }
                        Pat::Ident(p) => {
                            let id = format_ident!("{}__{}", p.ident, k);
                            map.insert(p.ident.to_string(), id.clone());
                            if matches!(&**ty, Type::Reference(_)) {
                                self.refs.insert(id.to_string());
                            }
                            if p.mutability.is_some() {
                                lets.push(parse_quote!(let mut #id: #ty = #a;));
                            } else {
                                lets.push(parse_quote!(let #id: #ty = #a;));
                            }
                        }
                        Pat::Wild(_) => lets.push(parse_quote!(let _: #ty = #a;)),
                        _ => return None,
                    }
                }
            }
        }
        let mut b = block;
        if tri {
            Mask(true).visit_block_mut(&mut b);
        }
        let kind = if tri { Kind::Other } else { kind_of(&f.sig.output).0 };
        let mut st = if has_ret_b(&b) { unreturn(b.stmts.clone(), kind)? } else { b.stmts.clone() };
        if tri {
            let mut t: Block = parse_quote!({ #(#st)* });
            match t.stmts.last_mut()? {
                Stmt::Expr(x, None) => tail_value(x)?,
                _ => return None,
            }
            Mask(false).visit_block_mut(&mut t);
            st = t.stmts;
        }
        if matches!(f.sig.output, ReturnType::Default) {
            terminate(&mut st);
        }
        b.stmts = st;
        Rename { map: &map }.visit_block_mut(&mut b);
        Lits(&lits).visit_block_mut(&mut b);
        let st = b.stmts;
        Some(parse_quote!({ #(#lets)* #(#st)* }))
    }
}
impl<'a> Inliner<'a> {
    /// the helper an expression calls, and the arguments
    fn call(&self, e: &Expr) -> Option<(&'a FnDef, Vec<Expr>)> {
        match e {
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    let name = segs.last().unwrap().clone();
                    let ty = if segs.len() > 1 { Some(segs[segs.len() - 2].clone()) } else { None };
                    if let Some(f) = self.find(&name, ty.as_deref(), false) {
                        // a bare name is never a method, and a name of this module hides others
                        let hidden = segs.len() == 1 && (f.in_impl || (f.module != self.module && self.scopes.get(&self.module).and_then(|s| s.get(&name)).map_or(false, |p| *p != format!("crate::{}", f.path))));
                        if !hidden {
                            return Some((f, c.args.iter().cloned().collect::<Vec<_>>()));
                        }
                    }
                }
                None
            }
            Expr::MethodCall(m) => self.find(&m.method.to_string(), None, true).map(|f| {
                let mut a = vec![(*m.receiver).clone()];
                a.extend(m.args.iter().cloned());
                (f, a)
            }),
            _ => None,
        }
    }
}
impl<'a> VisitMut for Inliner<'a> {
    fn visit_expr_closure_mut(&mut self, c: &mut ExprClosure) {
        self.closure += 1;
        visit_mut::visit_expr_closure_mut(self, c);
        self.closure -= 1;
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Try(t) = e {
            if self.closure == 0 && self.ret.0 != Kind::Other {
                if let Some((f, mut args)) = self.call(unparen(&t.expr)) {
                    if kind_of(&f.sig.output) == self.ret && has_ret_b(&f.block) {
                        for a in args.iter_mut() {
                            self.visit_expr_mut(a);
                        }
                        if let Some(x) = self.build(f, args, true) {
                            self.log.push(format!("{} into {}", f.path, self.own));
                            self.changed = true;
                            *e = x;
                            return;
                        }
                    }
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
        if let Some((f, args)) = self.call(e) {
            match self.build(f, args, false) {
                Some(x) => {
                    self.log.push(format!("{} into {}", f.path, self.own));
                    self.changed = true;
                    *e = x;
                }
                None => self.problems.push(format!("helper {} has no contract and cannot be inlined", f.path)),
            }
        }
    }
}

/// `iter.for_each(|p| ..)` and `iter.fold(init, |acc, p| ..)` are for loops; map and filter in front of them (or of a
/// for loop) become statements of the body
pub struct Iters {
    pub n: usize,
    k: usize,
}
impl Iters {
    pub fn new() -> Iters {
        Iters { n: 0, k: 0 }
    }
}
fn plain_pat(p: &Pat) -> Pat {
    match p {
        Pat::Type(t) => (*t.pat).clone(),
        p => p.clone(),
    }
}
/// a closure of n plain parameters, not `move`, not async
fn closure_n(e: &Expr, n: usize) -> Option<&ExprClosure> {
    match e {
        Expr::Closure(c) if c.inputs.len() == n && c.asyncness.is_none() && c.capture.is_none() => Some(c),
        _ => None,
    }
}
/// `return;` of a closure body as `continue`, if none is inside an inner loop
struct RetCont {
    inner: usize,
    bad: bool,
}
impl VisitMut for RetCont {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::Return(r) => {
                self.bad |= self.inner > 0 || r.expr.is_some();
                *e = parse_quote!(continue);
            }
            Expr::Try(_) => self.bad = true,
            Expr::Closure(_) => {}
            Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_) => {
                self.inner += 1;
                visit_mut::visit_expr_mut(self, e);
                self.inner -= 1;
            }
            _ => visit_mut::visit_expr_mut(self, e),
        }
    }
    fn visit_item_mut(&mut self, _: &mut Item) {}
}
fn names(p: &Pat) -> Vec<String> {
    let mut b = Bound::default();
    b.visit_pat(p);
    b.0
}
/// visibly an iterator (map on an array, or on an Option, is not lazy)
fn is_iter(e: &Expr) -> bool {
    match unparen(e) {
        Expr::Range(_) => true,
        Expr::MethodCall(m) => match m.method.to_string().as_str() {
            "chars" | "char_indices" | "bytes" | "iter" | "iter_mut" | "into_iter" | "windows" | "chunks" | "chunks_exact" | "chunks_mut" | "chunks_exact_mut" => true,
            "map" | "filter" | "enumerate" | "rev" | "skip" | "take" | "zip" | "step_by" => is_iter(&m.receiver),
            _ => false,
        },
        _ => false,
    }
}
/// x.map(f).filter(g) in front of a loop: what is iterated, the pattern, the body
fn peel(mut it: Expr, mut pat: Pat, mut body: Block, k: &mut usize) -> (Expr, Pat, Block) {
    loop {
        let mut next = None;
        if let Expr::MethodCall(m) = unparen(&it) {
            if m.args.len() == 1 && (m.method == "map" || m.method == "filter") && is_iter(&m.receiver) {
                if let Some(c) = closure_n(&m.args[0], 1) {
                    let x = &c.body;
                    // what the closure mentions keeps its meaning: it stays in front of the pattern
                    let own = names(&pat);
                    let free = |n: &String| occurs(n, body.to_token_stream()) == 0 || own.contains(n);
                    if !has_ret_e(x) && m.method == "map" && names(&c.inputs[0]).iter().all(free) {
                        let st = &body.stmts;
                        let b: Block = parse_quote!({ let #pat = #x; #(#st)* });
                        next = Some(((*m.receiver).clone(), plain_pat(&c.inputs[0]), b));
                    } else if !has_ret_e(x) && m.method == "filter" {
                        *k += 1;
                        let id = format_ident!("__fi{}", *k);
                        let st = &body.stmts;
                        let test: Block = match plain_pat(&c.inputs[0]) {
                            Pat::Reference(r) => {
                                let p = &r.pat;
                                parse_quote!({ let #p = #id; #x })
                            }
                            p => parse_quote!({ let #p = &#id; #x }),
                        };
                        let b: Block = parse_quote!({ if #test { let #pat = #id; #(#st)* } });
                        next = Some(((*m.receiver).clone(), parse_quote!(#id), b));
                    }
                }
            }
        }
        match next {
            Some((i, p, b)) => {
                it = i;
                pat = p;
                body = b;
            }
            None => return (it, pat, body),
        }
    }
}
impl VisitMut for Iters {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let mut new: Option<Expr> = None;
        match e {
            Expr::ForLoop(f) => {
                let (i, p, b) = peel((*f.expr).clone(), (*f.pat).clone(), f.body.clone(), &mut self.k);
                if i != *f.expr {
                    let l = &f.label;
                    new = Some(parse_quote!(#l for #p in #i #b));
                }
            }
            Expr::MethodCall(m) if m.method == "for_each" && m.args.len() == 1 => {
                if let Some(c) = closure_n(&m.args[0], 1) {
                    let x = &c.body;
                    let mut b: Block = match &**x {
                        Expr::Block(b) if b.label.is_none() => b.block.clone(),
                        x => parse_quote!({ #x; }),
                    };
                    let mut r = RetCont { inner: 0, bad: false };
                    r.visit_block_mut(&mut b);
                    if !r.bad {
                        let (i, p, b) = peel(unparen(&m.receiver).clone(), plain_pat(&c.inputs[0]), b, &mut self.k);
                        new = Some(parse_quote!(for #p in #i #b));
                    }
                }
            }
            Expr::MethodCall(m) if m.method == "fold" && m.args.len() == 2 => {
                if let Some(c) = closure_n(&m.args[1], 2) {
                    if !has_ret_e(&c.body) {
                        let (x, init, recv) = (&c.body, &m.args[0], unparen(&m.receiver));
                        let (acc, el) = (plain_pat(&c.inputs[0]), plain_pat(&c.inputs[1]));
                        self.k += 1;
                        let ns = names(&acc);
                        let clean = ns.iter().all(|n| occurs(n, recv.to_token_stream()) == 0 && occurs(n, init.to_token_stream()) == 0);
                        let split = match (&acc, init) {
                            (Pat::Tuple(p), Expr::Tuple(i)) if clean && p.elems.len() == i.elems.len() => {
                                let ids: Option<Vec<Ident>> = p
                                    .elems
                                    .iter()
                                    .map(|p| match plain_pat(p) {
                                        Pat::Ident(i) if i.by_ref.is_none() && i.subpat.is_none() => Some(i.ident),
                                        _ => None,
                                    })
                                    .collect();
                                ids.map(|v| (v, i.elems.iter().cloned().collect::<Vec<_>>()))
                            }
                            (Pat::Ident(p), i) if clean && p.by_ref.is_none() && p.subpat.is_none() => Some((vec![p.ident.clone()], vec![i.clone()])),
                            _ => None,
                        };
                        if let Some((ids, is)) = split {
                            let ts: Vec<Ident> = (0..ids.len()).map(|j| format_ident!("__fo{}_{}", self.k, j)).collect();
                            let bind: Pat = if let Pat::Tuple(_) = acc { parse_quote!((#(#ts),*)) } else { parse_quote!(#(#ts)*) };
                            let res: Expr = if let Pat::Tuple(_) = acc { parse_quote!((#(#ids),*)) } else { parse_quote!(#(#ids)*) };
                            let b: Block = parse_quote!({ let #bind = #x; #(#ids = #ts;)* });
                            let (i, p, b) = peel(recv.clone(), el, b, &mut self.k);
                            new = Some(parse_quote!({ #(let mut #ids = #is;)* for #p in #i #b #res }));
                        }
                    }
                }
            }
            _ => {}
        }
        if let Some(x) = new {
            self.n += 1;
            *e = x;
        }
    }
    fn visit_item_mut(&mut self, _: &mut Item) {}
}

// ---------- small rewrites ----------
/// |p| e without return
fn closure1(e: &Expr) -> Option<(Pat, Expr)> {
    if let Expr::Closure(c) = e {
        if c.inputs.len() == 1 && !has_ret_e(&c.body) {
            return Some((c.inputs[0].clone(), (*c.body).clone()));
        }
    }
    None
}
/// s.as_bytes()[0] == b'x', s.as_bytes().first() == Some(&b'x'), s.bytes().next() == Some(b'x')
fn byte_test(l: &Expr, r: &Expr) -> Option<(Expr, Expr, bool)> {
    fn ascii(e: &Expr) -> Option<Expr> {
        match unparen(e) {
            Expr::Lit(ExprLit { lit: Lit::Byte(b), .. }) if b.value() < 128 => {
                let c = b.value() as char;
                Some(Expr::Lit(ExprLit { attrs: vec![], lit: Lit::Char(LitChar::new(c, proc_macro2::Span::call_site())) }))
            }
            Expr::Reference(r) => ascii(&r.expr),
            Expr::Call(c) if c.args.len() == 1 && matches!(&*c.func, Expr::Path(p) if p.path.is_ident("Some")) => ascii(&c.args[0]),
            _ => None,
        }
    }
    fn recv(e: &Expr, m: &str) -> Option<Expr> {
        match unparen(e) {
            Expr::MethodCall(c) if c.method == m && c.args.is_empty() => Some((*c.receiver).clone()),
            _ => None,
        }
    }
    if ascii(r).is_none() {
        if ascii(l).is_some() {
            return byte_test(r, l);
        }
        return None;
    }
    let c = ascii(r)?;
    let some = matches!(unparen(r), Expr::Call(_));
    match unparen(l) {
        Expr::Index(i) if !some && matches!(unparen(&i.index), Expr::Lit(ExprLit { lit: Lit::Int(n), .. }) if n.base10_digits() == "0") => Some((recv(&i.expr, "as_bytes")?, c, true)),
        Expr::MethodCall(m) if some && m.method == "first" => Some((recv(&m.receiver, "as_bytes")?, c, false)),
        Expr::MethodCall(m) if some && m.method == "next" => Some((recv(&m.receiver, "bytes")?, c, false)),
        _ => None,
    }
}
/// core::cmp::min / max, by its path or imported
fn cmp_fn(f: &Expr) -> Option<String> {
    if let Expr::Path(p) = f {
        let seg: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
        let last = seg.last()?.clone();
        let ok = (last == "min" || last == "max") && (seg.len() == 1 || seg[seg.len() - 2] == "cmp");
        if ok {
            return Some(last);
        }
    }
    None
}
/// how often a name occurs as a token
fn occurs(name: &str, t: TokenStream) -> usize {
    let mut n = 0;
    for x in t {
        match x {
            proc_macro2::TokenTree::Ident(i) if i == name => n += 1,
            proc_macro2::TokenTree::Group(g) => n += occurs(name, g.stream()),
            _ => {}
        }
    }
    n
}
#[derive(Default)]
struct Bound(Vec<String>);
impl<'ast> Visit<'ast> for Bound {
    fn visit_pat_ident(&mut self, p: &'ast PatIdent) {
        self.0.push(p.ident.to_string());
        visit::visit_pat_ident(self, p);
    }
}
fn block_binds(b: &Block, n: &str) -> bool {
    let mut bd = Bound::default();
    bd.visit_block(b);
    bd.0.iter().any(|x| x == n) || {
        let mut m = Muts { in_loop: 1, declared: vec![], assigned: BTreeSet::new() };
        m.visit_block(b);
        m.assigned.contains(n)
    }
}
struct CallOf {
    name: String,
    clo: ExprClosure,
    n: usize,
    done: usize,
}
impl VisitMut for CallOf {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Call(c) = e {
            if matches!(&*c.func, Expr::Path(p) if p.path.is_ident(&self.name)) && c.args.len() == self.clo.inputs.len() {
                self.n += 1;
                self.done += 1;
                let mut map = HashMap::new();
                let mut lets: Vec<Stmt> = vec![];
                let mut lits: HashMap<String, Expr> = HashMap::new();
                let cb = &self.clo.body;
                let cblock: Block = parse_quote!({ #cb });
                for (p, a) in self.clo.inputs.iter().zip(&c.args) {
                    let (p, ty) = match p {
                        Pat::Type(t) => ((*t.pat).clone(), Some(t.ty.clone())),
                        p => (p.clone(), None),
                    };
                    if let (Pat::Ident(i), Some(x)) = (&p, typed_lit(a, ty.as_deref())) {
                        if i.mutability.is_none() && !block_binds(&cblock, &i.ident.to_string()) {
                            lits.insert(i.ident.to_string(), x);
                            continue;
                        }
                    }
                    let mut p = p;
                    let mut b = Bound::default();
                    b.visit_pat(&p);
                    for w in b.0 {
                        map.insert(w.clone(), format_ident!("{}__c{}", w, self.n));
                    }
                    Rename { map: &map }.visit_pat_mut(&mut p);
                    lets.push(match ty {
                        Some(t) => parse_quote!(let #p: #t = #a;),
                        None => parse_quote!(let #p = #a;),
                    });
                }
                let mut b = (*self.clo.body).clone();
                Rename { map: &map }.visit_expr_mut(&mut b);
                Lits(&lits).visit_expr_mut(&mut b);
                *e = parse_quote!({ #(#lets)* #b });
            }
        }
    }
}
/// a closure bound to a local name and only ever called: its calls are replaced by its body.  The names
/// it captures must each be bound at most once in the whole function, so that they mean the same at the call.
fn inline_closures(f: &FnDef, block: &mut Block, rep: &mut Report) -> bool {
    struct Find(Vec<(String, ExprClosure)>, usize);
    impl<'ast> Visit<'ast> for Find {
        fn visit_local(&mut self, l: &'ast Local) {
            if let (Pat::Ident(p), Some(i)) = (&l.pat, &l.init) {
                if let (Expr::Closure(c), None) = (&*i.expr, &i.diverge) {
                    self.0.push((p.ident.to_string(), c.clone()));
                }
            }
            visit::visit_local(self, l);
        }
        fn visit_expr_closure(&mut self, c: &'ast ExprClosure) {
            self.1 += 1;
            visit::visit_expr_closure(self, c);
        }
    }
    let mut rest = 0;
    for _ in 0..8 {
        let mut fd = Find(vec![], 0);
        fd.visit_block(block);
        rest = fd.1;
        let mut changed = false;
        for (name, c) in fd.0 {
            let mut r = HasReturn(false);
            r.visit_expr(&c.body);
            if r.0 {
                continue;
            }
            let mut all = Bound::default();
            all.visit_block(block);
            let mut own = Bound::default();
            own.visit_expr(&c.body);
            for p in &c.inputs {
                own.visit_pat(p);
            }
            let mut params = Bound::default();
            for i in &f.sig.inputs {
                if let FnArg::Typed(t) = i {
                    params.visit_pat(&t.pat);
                }
            }
            all.0.extend(params.0);
            let body = c.body.to_token_stream();
            let shadow = all.0.iter().any(|w| !own.0.contains(w) && occurs(w, body.clone()) > 0 && all.0.iter().filter(|x| *x == w).count() > 1);
            if shadow || all.0.iter().filter(|x| **x == name).count() != 1 {
                continue;
            }
            let mut b2 = block.clone();
            let mut co = CallOf { name: name.clone(), clo: c.clone(), n: rep.fresh() * 100, done: 0 };
            co.visit_block_mut(&mut b2);
            if occurs(&name, b2.to_token_stream()) != 1 {
                continue;
            }
            struct Del(String);
            impl VisitMut for Del {
                fn visit_block_mut(&mut self, b: &mut Block) {
                    b.stmts.retain(|s| !matches!(s, Stmt::Local(l) if matches!(&l.pat, Pat::Ident(p) if p.ident == self.0)));
                    visit_mut::visit_block_mut(self, b);
                }
            }
            Del(name).visit_block_mut(&mut b2);
            rep.rw("local closure replaced by its body at its calls");
            *block = b2;
            changed = true;
            break;
        }
        if !changed {
            break;
        }
    }
    rest > 0
}
struct Pre<'a> {
    rep: &'a mut Report,
    whole: TokenStream,
}
impl<'a> VisitMut for Pre<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        // while let Some(p) = it.next() { .. } with it used nowhere else
        if let Expr::While(w) = e {
            if let Expr::Let(l) = &*w.cond {
                if let (Pat::TupleStruct(p), Expr::MethodCall(m)) = (&*l.pat, &*l.expr) {
                    if p.path.is_ident("Some") && p.elems.len() == 1 && m.method == "next" && m.args.is_empty() {
                        if let Expr::Path(it) = &*m.receiver {
                            if let Some(id) = it.path.get_ident() {
                                if occurs(&id.to_string(), self.whole.clone()) == 2 {
                                    let (pat, body, label) = (&p.elems[0], &w.body, &w.label);
                                    let new: Expr = parse_quote!(#label for #pat in #id #body);
                                    self.rep.rw("while let Some(p) = it.next() written as for p in it");
                                    *e = new;
                                }
                            }
                        }
                    }
                }
            }
        }
        if let Expr::ForLoop(f) = e {
            if let Expr::Range(g) = &mut *f.expr {
                if let (RangeLimits::Closed(_), Some(b)) = (&g.limits, &g.end) {
                    let n: Expr = parse_quote!((#b) + 1);
                    g.end = Some(Box::new(n));
                    g.limits = RangeLimits::HalfOpen(Default::default());
                    self.rep.rw("for over a..=b written as a..b + 1 (the sum must not overflow)");
                }
            }
        }
        // for (n, p) in x.enumerate() { .. }
        if let Expr::ForLoop(f) = e {
            if let (Expr::MethodCall(m), Pat::Tuple(t)) = (&*f.expr, &*f.pat) {
                if m.method == "enumerate" && m.args.is_empty() && t.elems.len() == 2 && f.label.is_none() {
                    let k = self.rep.fresh();
                    let id = format_ident!("__en{}", k);
                    let (a, b, x, st) = (&t.elems[0], &t.elems[1], &m.receiver, &f.body.stmts);
                    let new: Expr = parse_quote!({ let mut #id: usize = 0; for #b in #x { let #a = #id; #id += 1; #(#st)* } });
                    self.rep.rw("for over x.enumerate() written with a counter");
                    *e = new;
                }
            }
        }
    }
}
/// [a, b, c].iter().find_map(|x| e): e for each element, with x replaced
fn array_search(m: &ExprMethodCall) -> Option<Vec<Expr>> {
    let it = match unparen(&m.receiver) {
        Expr::MethodCall(i) if (i.method == "iter" || i.method == "into_iter") && i.args.is_empty() => i,
        _ => return None,
    };
    let arr = match unparen(&it.receiver) {
        Expr::Array(a) if a.elems.len() <= 16 => a,
        Expr::Reference(r) => match unparen(&r.expr) {
            Expr::Array(a) if a.elems.len() <= 16 => a,
            _ => return None,
        },
        _ => return None,
    };
    if !arr.elems.iter().all(|x| matches!(unparen(x), Expr::Path(_) | Expr::Lit(_))) {
        return None;
    }
    let (pat, body) = closure1(&m.args[0])?;
    if has_ret_e(&body) {
        return None;
    }
    let by_ref = it.method == "iter";
    let (name, by_val) = match &pat {
        Pat::Ident(p) if p.subpat.is_none() => (p.ident.clone(), !by_ref),
        Pat::Reference(r) if by_ref => match &*r.pat {
            Pat::Ident(p) => (p.ident.clone(), true),
            _ => return None,
        },
        _ => return None,
    };
    let mut out = vec![];
    for x in &arr.elems {
        let mut b: Block = parse_quote!({ #body });
        if !by_val {
            let mut d = Deref { name: name.to_string(), to: parse_quote!(#name), other: false };
            d.visit_block_mut(&mut b);
            if d.other {
                return None;
            }
        }
        let st = &b.stmts;
        out.push(parse_quote!({ let #name = #x; #(#st)* }));
    }
    Some(out)
}
fn is_char(e: &Expr) -> bool {
    matches!(e, Expr::Lit(ExprLit { lit: Lit::Char(_), .. }))
}
/// the receiver of an Option-valued `.map`: (x, true) for `x.ok()`, (x, false) for `x.or_else(|| ..)`
fn option_or_ok(e: &Expr) -> Option<(Expr, bool)> {
    match e {
        Expr::MethodCall(m) if m.method == "ok" && m.args.is_empty() => Some(((*m.receiver).clone(), true)),
        Expr::MethodCall(m) if m.method == "or_else" && m.args.len() == 1 => match &m.args[0] {
            Expr::Closure(c) if c.inputs.is_empty() => Some((e.clone(), false)),
            _ => None,
        },
        Expr::Match(m) => {
            // what or_else has been rewritten to
            let last = m.arms.first().map(|a| a.body.to_token_stream().to_string()).unwrap_or_default();
            if last == "Some (__v)" {
                Some((e.clone(), false))
            } else {
                None
            }
        }
        _ => None,
    }
}
struct Small<'a> {
    rep: &'a mut Report,
    slices: BTreeSet<String>, // parameters that are slices
}
impl<'a> VisitMut for Small<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let mut new: Option<Expr> = None;
        match e {
            Expr::MethodCall(m) if m.method == "nth" && m.args.len() == 1 => {
                // Iterator::nth is a provided method: it is replaced by its library definition (vlib::it_nth)
                let r = &m.receiver;
                let a = &m.args[0];
                self.rep.rw("Iterator::nth replaced by its library definition");
                new = Some(parse_quote!(crate::vlib::it_nth(#r, #a)));
            }
            Expr::Call(c) if c.args.len() == 2 && cmp_fn(&c.func).is_some() => {
                let f = format_ident!("{}", cmp_fn(&c.func).unwrap());
                let (a, b) = (&c.args[0], &c.args[1]);
                self.rep.rw("core::cmp::min/max written as Ord::min/max (its library definition)");
                new = Some(parse_quote!(Ord::#f(#a, #b)));
            }
            Expr::MethodCall(m) if (m.method == "find_map" || m.method == "any" || m.method == "all") && m.args.len() == 1 && array_search(m).is_some() => {
                let bodies = array_search(m).unwrap();
                self.rep.rw("find_map/any/all over an array literal written out");
                let mut acc: Expr = if m.method == "find_map" { parse_quote!(None) } else if m.method == "any" { parse_quote!(false) } else { parse_quote!(true) };
                for b in bodies.iter().rev() {
                    acc = if m.method == "find_map" {
                        parse_quote!(match #b { Some(__v) => Some(__v), None => #acc })
                    } else if m.method == "any" {
                        parse_quote!(if #b { true } else { #acc })
                    } else {
                        parse_quote!(if #b { #acc } else { false })
                    };
                }
                new = Some(acc);
            }
            Expr::MethodCall(m) if m.method == "strip_prefix" && m.args.len() == 1 && is_char(&m.args[0]) => {
                let r = &m.receiver;
                let a = &m.args[0];
                self.rep.rw("s.strip_prefix('c') called through vlib::strip_char");
                new = Some(parse_quote!(crate::vlib::strip_char(#r, #a)));
            }
            Expr::MethodCall(m) if m.method == "or_else" && m.args.len() == 1 && closure1(&m.args[0]).is_some() => {
                let (p, b) = closure1(&m.args[0]).unwrap();
                let r = &m.receiver;
                self.rep.rw("Result::or_else with a closure written as match");
                new = Some(parse_quote!(match #r { Ok(__v) => Ok(__v), Err(#p) => #b }));
            }
            Expr::Binary(b) if matches!(b.op, BinOp::Eq(_) | BinOp::Ne(_)) && byte_test(&b.left, &b.right).is_some() => {
                let (s, c, chk) = byte_test(&b.left, &b.right).unwrap();
                let op = &b.op;
                self.rep.rw("test of the first byte of a str against an ASCII byte written as a test of its first char");
                new = Some(if chk {
                    parse_quote!({ crate::vlib::chk_nonempty(#s); #s.chars().next() #op Some(#c) })
                } else {
                    parse_quote!((#s.chars().next() #op Some(#c)))
                });
            }
            Expr::MethodCall(m) if m.method == "to_be_bytes" && m.args.is_empty() => {
                let r = &m.receiver;
                self.rep.rw("u32::to_be_bytes written as a function of shifts (vlib::be_bytes)");
                new = Some(parse_quote!(crate::vlib::be_bytes(#r)));
            }
            Expr::MethodCall(m) if m.method == "starts_with" && m.args.len() == 1 && is_char(&m.args[0]) => {
                let r = &m.receiver;
                let a = &m.args[0];
                self.rep.rw("s.starts_with('c') written as s.chars().next() == Some('c')");
                new = Some(parse_quote!((#r.chars().next() == Some(#a))));
            }
            Expr::MethodCall(m) if m.method == "map" && m.args.len() == 1 && option_or_ok(&m.receiver).is_some() => {
                // x.ok().map(|p| e)
                if let (Expr::Closure(c), Some((r, ok))) = (&m.args[0], option_or_ok(&m.receiver)) {
                    if c.inputs.len() == 1 && !has_ret_e(&c.body) {
                        let p = &c.inputs[0];
                        let b = &c.body;
                        self.rep.rw("Option::map / Result::ok with a closure written as match");
                        new = Some(if ok { parse_quote!(match #r { Ok(#p) => Some(#b), Err(_) => None }) } else { parse_quote!(match #r { Some(#p) => Some(#b), None => None }) });
                    }
                }
            }
            Expr::MethodCall(m) if m.method == "or_else" && m.args.len() == 1 => {
                if let Expr::Closure(c) = &m.args[0] {
                    if c.inputs.is_empty() && !has_ret_e(&c.body) {
                        let r = &m.receiver;
                        let b = &c.body;
                        self.rep.rw("Option::or_else with a closure written as match");
                        new = Some(parse_quote!(match #r { Some(__v) => Some(__v), None => #b }));
                    }
                }
            }
            Expr::MethodCall(m) if m.method == "binary_search" && m.args.len() == 1 => {
                let r = &m.receiver;
                let a = &m.args[0];
                self.rep.rw("<[u32]>::binary_search called through vlib::bsearch (assumed library contract)");
                new = Some(parse_quote!(crate::vlib::bsearch(&#r, #a)));
            }
            Expr::Macro(m) => {
                if let Some(x) = self.mac(&m.mac) {
                    new = Some(x);
                }
            }
            Expr::Reference(r) if r.mutability.is_none() && matches!(&*r.expr, Expr::Index(i) if matches!(&*i.index, Expr::Range(_))) => {
                // &s[a..] on a str, through a function with the library's panic condition as precondition
                if let Expr::Index(i) = &*r.expr {
                    if let Expr::Range(g) = &*i.index {
                        let b = &i.expr;
                        if let (RangeLimits::HalfOpen(_), Some(a), None) = (&g.limits, &g.start, &g.end) {
                            new = Some(parse_quote!(crate::vlib::str_from(#b, #a)));
                        } else if let (RangeLimits::HalfOpen(_), None, Some(e)) = (&g.limits, &g.start, &g.end) {
                            new = Some(parse_quote!(crate::vlib::str_to(#b, #e)));
                        } else if let (RangeLimits::HalfOpen(_), None, None) = (&g.limits, &g.start, &g.end) {
                            new = Some((**b).clone());
                        }
                        self.rep.rw("str slicing called through vlib::str_from/str_to (library contract)");
                    }
                }
            }
            Expr::Reference(r) if r.mutability.is_none() => {
                // &"literal" is a &&str that is only ever used through auto-deref
                if let Expr::Lit(l) = &*r.expr {
                    if matches!(l.lit, Lit::Str(_)) {
                        self.rep.rw("&\"literal\" written as \"literal\"");
                        new = Some(Expr::Lit(l.clone()));
                    }
                }
            }
            _ => {}
        }
        if let Some(n) = new {
            *e = n;
        }
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        visit_mut::visit_block_mut(self, b);
        let mut out: Vec<Stmt> = vec![];
        for s in std::mem::take(&mut b.stmts) {
            if let Stmt::Local(l) = &s {
                if let (Pat::Slice(p), Some(init)) = (&l.pat, &l.init) {
                    if init.diverge.is_none() && p.elems.iter().all(|x| matches!(x, Pat::Ident(_) | Pat::Wild(_))) {
                        let k = self.rep.fresh();
                        let t = format_ident!("__arr{}", k);
                        let v = &init.expr;
                        out.push(parse_quote!(let #t = #v;));
                        for (i, x) in p.elems.iter().enumerate() {
                            if let Pat::Ident(_) = x {
                                out.push(parse_quote!(let #x = #t[#i];));
                            }
                        }
                        self.rep.rw("let [a, b, ..] = array written as element by element");
                        continue;
                    }
                }
            }
            out.push(s);
        }
        b.stmts = out;
    }
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        visit_mut::visit_stmt_mut(self, s);
        if let Stmt::Expr(e, _) = s {
            if let Some(x) = self.slice_loop(e) {
                *e = x;
            }
        }
        if let Stmt::Macro(m) = s {
            if let Some(x) = self.mac(&m.mac) {
                *s = Stmt::Expr(x, Some(Default::default()));
            }
        }
    }
}
// jumps (with or without label) of the loop itself; jumps to an outer label are left alone
struct HasJump {
    found: bool,
    inner: usize,
    label: Option<String>,
}
impl HasJump {
    fn of(f: &ExprForLoop) -> bool {
        let mut j = HasJump { found: false, inner: 0, label: f.label.as_ref().map(|l| l.name.ident.to_string()) };
        j.visit_block(&f.body);
        j.found
    }
    fn jump(&mut self, l: &Option<Lifetime>) {
        match l {
            None => self.found |= self.inner == 0,
            Some(l) => self.found |= Some(l.ident.to_string()) == self.label,
        }
    }
}
impl<'ast> Visit<'ast> for HasJump {
    fn visit_expr_break(&mut self, b: &'ast ExprBreak) {
        self.jump(&b.label);
    }
    fn visit_expr_continue(&mut self, c: &'ast ExprContinue) {
        self.jump(&c.label);
    }
    fn visit_expr_for_loop(&mut self, l: &'ast ExprForLoop) {
        self.inner += 1;
        visit::visit_expr_for_loop(self, l);
        self.inner -= 1;
    }
    fn visit_expr_while(&mut self, l: &'ast ExprWhile) {
        self.inner += 1;
        visit::visit_expr_while(self, l);
        self.inner -= 1;
    }
    fn visit_expr_loop(&mut self, l: &'ast ExprLoop) {
        self.inner += 1;
        visit::visit_expr_loop(self, l);
        self.inner -= 1;
    }
}
/// `break;` in tail position of the body becomes `flag = false;`
fn tail_break(b: &mut Block, flag: &Ident) {
    if let Some(Stmt::Expr(e, _)) = b.stmts.last_mut() {
        tail_break_e(e, flag);
    }
}
fn tail_break_e(e: &mut Expr, flag: &Ident) {
    match e {
        Expr::Break(b) if b.label.is_none() && b.expr.is_none() => *e = parse_quote!({ #flag = false; }),
        Expr::Continue(c) if c.label.is_none() => *e = parse_quote!({}),
        Expr::Block(b) => tail_break(&mut b.block, flag),
        Expr::If(i) => {
            tail_break(&mut i.then_branch, flag);
            if let Some((_, x)) = &mut i.else_branch {
                tail_break_e(x, flag);
            }
        }
        Expr::Match(m) => {
            for a in &mut m.arms {
                tail_break_e(&mut a.body, flag);
            }
        }
        _ => {}
    }
}
struct Deref {
    name: String,
    to: Expr,
    other: bool,
}
impl VisitMut for Deref {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Unary(u) = e {
            if matches!(u.op, UnOp::Deref(_)) {
                if let Expr::Path(p) = &*u.expr {
                    if p.path.is_ident(&self.name) {
                        *e = self.to.clone();
                        return;
                    }
                }
            }
        }
        if let Expr::Path(p) = e {
            if p.path.is_ident(&self.name) {
                self.other = true;
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}
fn unparen(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => unparen(&p.expr),
        _ => e,
    }
}
fn index_range(e: &Expr) -> Option<(Expr, Expr, Expr)> {
    let mut e = unparen(e);
    if let Expr::Reference(r) = e {
        e = unparen(&r.expr);
    }
    if let Expr::Index(i) = e {
        if let Expr::Range(g) = unparen(&i.index) {
            if let (RangeLimits::HalfOpen(_), Some(a), Some(b)) = (&g.limits, &g.start, &g.end) {
                return Some(((*i.expr).clone(), (**a).clone(), (**b).clone()));
            }
        }
    }
    None
}
/// a..b, a..=b or their rev() with literal bounds and at most 8 values
fn small_range(e: &Expr) -> Option<ExprArray> {
    if let Expr::MethodCall(m) = unparen(e) {
        if m.method == "rev" && m.args.is_empty() {
            let mut a = small_range(&m.receiver)?;
            a.elems = a.elems.into_iter().rev().collect();
            return Some(a);
        }
        return None;
    }
    if let Expr::Range(g) = unparen(e) {
        let lit = |e: &Option<Box<Expr>>| -> Option<u64> {
            match unparen(e.as_ref()?) {
                Expr::Lit(ExprLit { lit: Lit::Int(i), .. }) if i.suffix().is_empty() => i.base10_parse().ok(),
                _ => None,
            }
        };
        let (a, mut b) = (lit(&g.start)?, lit(&g.end)?);
        if matches!(g.limits, RangeLimits::Closed(_)) {
            b += 1;
        }
        if b <= a || b - a > 8 {
            return None;
        }
        let v: Vec<Expr> = (a..b).map(|x| Expr::Lit(ExprLit { attrs: vec![], lit: Lit::Int(LitInt::new(&x.to_string(), proc_macro2::Span::call_site())) })).collect();
        return Some(parse_quote!([#(#v),*]));
    }
    None
}
/// bit operations on literals are evaluated (the solver does not evaluate them by itself)
pub struct Fold {
    pub n: usize,
}
impl VisitMut for Fold {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        fn lit(e: &Expr) -> Option<(u64, String)> {
            match unparen(e) {
                Expr::Lit(ExprLit { lit: Lit::Int(i), .. }) => Some((i.base10_parse().ok()?, i.suffix().to_string())),
                _ => None,
            }
        }
        if let Expr::Binary(b) = e {
            if let (BinOp::Shl(_) | BinOp::Shr(_), Some((n, _))) = (&b.op, lit(&b.right)) {
                *b.right = Expr::Lit(ExprLit { attrs: vec![], lit: Lit::Int(LitInt::new(&n.to_string(), proc_macro2::Span::call_site())) });
            }
            if let (BinOp::Shl(_) | BinOp::Shr(_), Some((0, _))) = (&b.op, lit(&b.right)) {
                self.n += 1;
                *e = (*b.left).clone();
                return;
            }
        }
        if let Expr::Binary(b) = e {
            if let (Some((x, s)), Some((y, t))) = (lit(&b.left), lit(&b.right)) {
                let r = match b.op {
                    BinOp::Shl(_) if y < 32 && x < 1 << 32 => Some(x << y),
                    BinOp::Shr(_) if y < 32 => Some(x >> y),
                    BinOp::BitOr(_) => Some(x | y),
                    BinOp::BitAnd(_) => Some(x & y),
                    BinOp::BitXor(_) => Some(x ^ y),
                    BinOp::Add(_) if x < 1 << 32 && y < 1 << 32 => Some(x + y),
                    BinOp::Sub(_) => x.checked_sub(y),
                    BinOp::Mul(_) if x < 1 << 31 && y < 1 << 31 => Some(x * y),
                    _ => None,
                };
                let shift = matches!(b.op, BinOp::Shl(_) | BinOp::Shr(_));
                let suf = if shift || !s.is_empty() { s } else { t };
                if let Some(r) = r {
                    // a literal out of its type's range is rejected by the compiler
                    self.n += 1;
                    *e = Expr::Lit(ExprLit { attrs: vec![], lit: Lit::Int(LitInt::new(&format!("{}{}", r, suf), proc_macro2::Span::call_site())) });
                }
            }
        }
    }
}
impl<'a> Small<'a> {
    /// loops over parts of the frame buffer, and over short array literals
    fn slice_loop(&mut self, e: &Expr) -> Option<Expr> {
        match e {
            Expr::MethodCall(m) if m.method == "fill" && m.args.len() == 1 => {
                let (x, a, b) = index_range(&m.receiver)?;
                let v = &m.args[0];
                self.rep.rw("x[a..b].fill(v) written as a loop over the indices");
                Some(parse_quote!({ let __a = #a; let __b = #b; let __v = #v; crate::vlib::chk_range(__a, __b); for __i in __a..__b { #x[__i] = __v; } }))
            }
            Expr::ForLoop(f) => {
                if let Expr::MethodCall(m) = unparen(&f.expr) {
                    if m.method == "iter_mut" && m.args.is_empty() {
                        let (x, a, b) = index_range(&m.receiver)?;
                        if let Pat::Ident(p) = &*f.pat {
                            let mut body = f.body.clone();
                            let mut d = Deref { name: p.ident.to_string(), to: parse_quote!(#x[__i]), other: false };
                            d.visit_block_mut(&mut body);
                            if d.other {
                                return None;
                            }
                            self.rep.rw("for w in x[a..b].iter_mut() written as a loop over the indices");
                            let st = &body.stmts;
                            return Some(parse_quote!({ let __a = #a; let __b = #b; crate::vlib::chk_range(__a, __b); for __i in __a..__b { #(#st)* } }));
                        }
                        return None;
                    }
                }
                let mut src = unparen(&f.expr);
                let mut by_val = false;
                if let Expr::MethodCall(m) = src {
                    if (m.method == "copied" || m.method == "cloned") && m.args.is_empty() && matches!(unparen(&m.receiver), Expr::MethodCall(i) if i.method == "iter") {
                        by_val = true;
                        src = unparen(&m.receiver);
                    }
                }
                let slice = match src {
                    Expr::MethodCall(m) if m.method == "iter" && m.args.is_empty() && matches!(unparen(&m.receiver), Expr::Path(_)) => Some(unparen(&m.receiver).clone()),
                    Expr::Path(p) if p.path.get_ident().map(|i| self.slices.contains(&i.to_string())).unwrap_or(false) => Some(src.clone()),
                    _ => None,
                };
                if let Some(x) = slice {
                    let (pat, st, label) = (&f.pat, &f.body.stmts, &f.label);
                    let i = format_ident!("__i{}", self.rep.fresh());
                    self.rep.rw("for w in x.iter() of a slice written as a loop over the indices");
                    let get: Expr = if by_val { parse_quote!(#x[#i]) } else { parse_quote!(&#x[#i]) };
                    return Some(parse_quote!(#label for #i in 0..#x.len() { let #pat = #get; #(#st)* }));
                }
                // for x in [a, b, c] / [a, b, c].iter() / &[a, b, c]
                let mut ex = unparen(&f.expr);
                let mut by_ref = false;
                if let Expr::MethodCall(m) = ex {
                    if m.method == "iter" && m.args.is_empty() {
                        by_ref = true;
                        ex = unparen(&m.receiver);
                    }
                }
                if let Expr::Reference(r) = ex {
                    by_ref = true;
                    ex = unparen(&r.expr);
                }
                let lits = if by_ref { None } else { small_range(ex) };
                let arr = match (ex, &lits) {
                    (_, Some(a)) => a,
                    (Expr::Array(a), _) if a.elems.len() <= 16 => a,
                    _ => return None,
                };
                if !arr.elems.iter().all(|x| matches!(unparen(x), Expr::Path(_) | Expr::Lit(_) | Expr::Reference(_))) {
                    return None;
                }
                let go = format_ident!("__go{}", self.rep.fresh());
                let mut f2 = f.clone();
                let jumps = HasJump::of(&f2);
                if jumps {
                    tail_break(&mut f2.body, &go);
                    if HasJump::of(&f2) {
                        return None;
                    }
                }
                let arr = arr.clone();
                let f = &f2;
                self.rep.rw("for over an array literal unrolled");
                let pat = &f.pat;
                let st = &f.body.stmts;
                let mut out: Vec<Stmt> = vec![];
                for x in &arr.elems {
                    let strlit = matches!(unparen(x), Expr::Lit(_)) || true;
                    let _ = strlit;
                    let init: Expr = if by_ref && !matches!(&**pat, Pat::Ident(_)) { parse_quote!(&#x) } else { x.clone() };
                    if by_ref {
                        // *x in the body stands for the element
                        if let Pat::Ident(p) = &**pat {
                            let mut body = f.body.clone();
                            let name = p.ident.clone();
                            let mut d = Deref { name: name.to_string(), to: parse_quote!(#name), other: false };
                            d.visit_block_mut(&mut body);
                            let bs = &body.stmts;
                            let xx = x.clone();
                            out.push(parse_quote!({ let #name = #xx; #(#bs)* }));
                            continue;
                        }
                    }
                    out.push(parse_quote!({ let #pat = #init; #(#st)* }));
                }
                if jumps {
                    let first = out.remove(0);
                    return Some(parse_quote!({ let mut #go = true; #first #(if #go #out)* }));
                }
                Some(parse_quote!({ #(#out)* }))
            }
            _ => None,
        }
    }
    fn mac(&mut self, m: &Macro) -> Option<Expr> {
        let name = m.path.segments.last()?.ident.to_string();
        match name.as_str() {
            "concat" => {
                let p = m
                    .parse_body_with(punctuated::Punctuated::<LitStr, Token![,]>::parse_terminated)
                    .ok()?;
                let s: String = p.iter().map(|l| l.value()).collect();
                self.rep.rw("concat! of literals evaluated");
                Some(parse_quote!(#s))
            }
            "assert" | "debug_assert" => {
                let p = m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated).ok()?;
                let c = p.first()?;
                self.rep.rw("assert! written as a call that must be unreachable");
                Some(parse_quote!(if !(#c) { crate::vlib::vpanic(); }))
            }
            "debug_assert_eq" | "assert_eq" => {
                let p = m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated).ok()?;
                let a = &p[0];
                let b = &p[1];
                Some(parse_quote!(if !(#a == #b) { crate::vlib::vpanic(); }))
            }
            "panic" | "unreachable" | "todo" | "unimplemented" => {
                self.rep.rw("panic!/unreachable! written as a call that must be unreachable");
                Some(parse_quote!(crate::vlib::vpanic()))
            }
            _ => None,
        }
    }
}

// ---------- loops ----------
#[derive(Default, Clone)]
struct LoopInfo {
    id: usize,
    depth: usize,
    v: Option<String>,
    hi: Option<String>,
    it: Option<String>,
    cur: Option<String>,
    ocur: Option<String>,
    rem: Option<String>,
    kind: String,
    head: String,
}
struct Loops {
    depth: usize,
    n: usize,
    infos: Vec<LoopInfo>,
    stack: Vec<usize>,
    rws: Vec<String>,
}
fn conjuncts<'a>(e: &'a Expr, out: &mut Vec<&'a Expr>) {
    match e {
        Expr::Paren(p) => conjuncts(&p.expr, out),
        Expr::Binary(b) if matches!(b.op, BinOp::And(_)) => {
            conjuncts(&b.left, out);
            conjuncts(&b.right, out);
        }
        _ => out.push(e),
    }
}
fn is_zero(e: &Expr) -> bool {
    matches!(e, Expr::Lit(ExprLit { lit: Lit::Int(i), .. }) if i.base10_parse::<u64>().ok() == Some(0))
}
/// the condition under which `if c { break; }` does not break
fn negate(c: &Expr) -> Expr {
    match c {
        Expr::Paren(p) => negate(&p.expr),
        Expr::Unary(u) if matches!(u.op, UnOp::Not(_)) => (*u.expr).clone(),
        Expr::Binary(b) => {
            let (l, r) = (&b.left, &b.right);
            match b.op {
                BinOp::Lt(_) => parse_quote!(#l >= #r),
                BinOp::Le(_) => parse_quote!(#l > #r),
                BinOp::Gt(_) => parse_quote!(#l <= #r),
                BinOp::Ge(_) => parse_quote!(#l < #r),
                BinOp::Eq(_) => parse_quote!(#l != #r),
                BinOp::Ne(_) => parse_quote!(#l == #r),
                BinOp::Or(_) => {
                    let (x, y) = (negate(l), negate(r));
                    parse_quote!(#x && #y)
                }
                _ => parse_quote!(!(#c)),
            }
        }
        _ => parse_quote!(!(#c)),
    }
}
fn txt(e: &impl ToTokens) -> String {
    e.to_token_stream().to_string()
}
impl VisitMut for Loops {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        let is_loop = matches!(e, Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_));
        // loop { if c { break; } .. } is while !c { .. }
        if let Expr::Loop(l) = e {
            if let Some(Stmt::Expr(Expr::If(i), _)) = l.body.stmts.first() {
                let brk = match &i.then_branch.stmts[..] {
                    [Stmt::Expr(Expr::Break(b), _)] => b.label.is_none() && b.expr.is_none(),
                    _ => false,
                };
                if brk && i.else_branch.is_none() && !matches!(&*i.cond, Expr::Let(_)) {
                    let c = negate(&i.cond);
                    let rest = &l.body.stmts[1..];
                    let label = &l.label;
                    self.rws.push("loop starting with a conditional break written as while".into());
                    *e = parse_quote!(#label while #c { #(#rest)* });
                }
            }
        }
        if !is_loop {
            visit_mut::visit_expr_mut(self, e);
            return;
        }
        let id = self.n;
        self.n += 1;
        let mut info = LoopInfo { id, depth: self.depth, ..Default::default() };
        if let Some(&p) = self.stack.last() {
            info.ocur = self.infos[p].cur.clone();
        }
        // classify
        let mut for_range = None;
        let mut for_iter = false;
        match e {
            Expr::ForLoop(f) => {
                let mut ex = &*f.expr;
                while let Expr::Paren(p) = ex {
                    ex = &p.expr;
                }
                if let Expr::Range(r) = ex {
                    if let (Some(a), Some(b), RangeLimits::HalfOpen(_)) = (&r.start, &r.end, &r.limits) {
                        for_range = Some(((**a).clone(), (**b).clone()));
                        info.v = Some(format!("__it{}", id));
                        info.hi = Some(format!("__hi{}", id));
                        info.cur = Some(format!("(__it{} - 1)", id));
                        info.rem = Some(format!("(__hi{} - __it{})", id, id));
                        info.kind = "for-range".into();
                        info.head = format!("{} .. {}", txt(&**a), txt(&**b));
                    }
                }
                if for_range.is_none() {
                    for_iter = true;
                    info.it = Some(format!("__it{}", id));
                    info.kind = "for-iter".into();
                    info.head = txt(&*f.expr);
                }
            }
            Expr::While(w) => {
                info.kind = "while".into();
                info.head = txt(&*w.cond);
                // the first conjunct that compares a variable with a bound
                let mut cs = vec![];
                conjuncts(&w.cond, &mut cs);
                for c in cs {
                    if let Expr::Binary(b) = c {
                        let (l, r) = match b.op {
                            BinOp::Lt(_) | BinOp::Ne(_) => (&*b.left, &*b.right),
                            BinOp::Gt(_) => (&*b.right, &*b.left),
                            _ => continue,
                        };
                        let (l, r) = if matches!(b.op, BinOp::Ne(_)) && is_zero(r) { (r, l) } else { (l, r) };
                        if is_zero(l) {
                            if let Expr::Path(p) = r {
                                if p.path.get_ident().is_some() {
                                    info.rem = Some(format!("({})", txt(r)));
                                    break;
                                }
                            }
                        } else if let Expr::Path(p) = l {
                            if let Some(i) = p.path.get_ident() {
                                info.v = Some(i.to_string());
                                info.hi = Some(format!("({})", txt(r)));
                                info.cur = Some(i.to_string());
                                info.rem = Some(format!("({} - {})", txt(r), i));
                                break;
                            }
                        }
                    }
                }
            }
            Expr::Loop(_) => info.kind = "loop".into(),
            _ => {}
        }
        self.infos.push(info.clone());
        let idx = self.infos.len() - 1;
        self.stack.push(idx);
        self.depth += 1;
        match e {
            Expr::ForLoop(f) => {
                visit_mut::visit_expr_mut(self, &mut f.expr);
                self.visit_block_mut(&mut f.body);
            }
            Expr::While(w) => self.visit_block_mut(&mut w.body),
            Expr::Loop(l) => self.visit_block_mut(&mut l.body),
            _ => {}
        }
        self.depth -= 1;
        self.stack.pop();
        let mark = format_ident!("__VCLOOP_{}__", id);
        let snap = format_ident!("__VCSNAP_{}__", id);
        let iso = quote!(#[verifier::loop_isolation(false)]);
        let ts: TokenStream = match e {
            Expr::ForLoop(f) => {
                let pat = &f.pat;
                let body = &f.body.stmts;
                let label = &f.label;
                if let Some((a, b)) = for_range {
                    self.rws.push("for over a range written as while".into());
                    let it = format_ident!("__it{}", id);
                    let hi = format_ident!("__hi{}", id);
                    quote!({ let mut #it = #a; let #hi = #b; #snap; #iso #label while #it < #hi #mark { let #pat = #it; #it = #it + 1; #(#body)* } })
                } else {
                    self.rws.push("for over an iterator written as loop { match next() }".into());
                    let it = format_ident!("__it{}", id);
                    let ex = &f.expr;
                    quote!({ let mut #it = #ex; #snap; #iso #label loop #mark { match #it.next() { None => { break; } Some(__item) => { let #pat = __item; #(#body)* } } } })
                }
            }
            Expr::While(w) => {
                let c = &w.cond;
                let label = &w.label;
                let body = &w.body;
                quote!({ #snap; #iso #label while #c #mark #body })
            }
            Expr::Loop(l) => {
                let label = &l.label;
                let body = &l.body;
                quote!({ #snap; #iso #label loop #mark #body })
            }
            _ => unreachable!(),
        };
        let _ = for_iter;
        *e = Expr::Verbatim(ts);
    }
}

// local variables that are declared `let mut` (or deferred) and assigned inside a loop
struct Muts {
    in_loop: usize,
    declared: Vec<String>,
    assigned: BTreeSet<String>,
}
impl<'ast> Visit<'ast> for Muts {
    fn visit_local(&mut self, l: &'ast Local) {
        let mut p = &l.pat;
        if let Pat::Type(t) = p {
            p = &t.pat;
        }
        if let Pat::Ident(i) = p {
            if self.in_loop == 0 {
                self.declared.push(i.ident.to_string());
            }
        }
        visit::visit_local(self, l);
    }
    fn visit_expr(&mut self, e: &'ast Expr) {
        match e {
            Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_) => {
                self.in_loop += 1;
                visit::visit_expr(self, e);
                self.in_loop -= 1;
            }
            Expr::Assign(a) => {
                if let (Expr::Path(p), true) = (&*a.left, self.in_loop > 0) {
                    if let Some(i) = p.path.get_ident() {
                        self.assigned.insert(i.to_string());
                    }
                }
                visit::visit_expr(self, e);
            }
            Expr::Binary(b) => {
                let is_assign = matches!(
                    b.op,
                    BinOp::AddAssign(_) | BinOp::SubAssign(_) | BinOp::MulAssign(_) | BinOp::BitXorAssign(_) | BinOp::BitOrAssign(_) | BinOp::BitAndAssign(_) | BinOp::ShlAssign(_) | BinOp::ShrAssign(_)
                );
                if let (Expr::Path(p), true, true) = (&*b.left, is_assign, self.in_loop > 0) {
                    if let Some(i) = p.path.get_ident() {
                        self.assigned.insert(i.to_string());
                    }
                }
                visit::visit_expr(self, e);
            }
            _ => visit::visit_expr(self, e),
        }
    }
}

struct HasClosure(bool);
impl<'ast> Visit<'ast> for HasClosure {
    fn visit_expr_closure(&mut self, _: &'ast ExprClosure) {
        self.0 = true;
    }
}
fn occurs_dollar(s: &str, n: &str) -> bool {
    replace_word(s, &format!("${}", n), "") != s
}

fn perms(cands: &[String], prefs: &[Vec<String>]) -> Vec<Vec<String>> {
    // all injective assignments of candidates to roles, the preferred names first
    fn go(c: &[String], prefs: &[Vec<String>], cur: &mut Vec<String>, out: &mut Vec<Vec<String>>) {
        if cur.len() == prefs.len() {
            out.push(cur.clone());
            return;
        }
        let mut order: Vec<&String> = c.iter().filter(|x| !cur.contains(x)).collect();
        let p = &prefs[cur.len()];
        order.sort_by_key(|x| p.iter().position(|y| y == *x).unwrap_or(99));
        for x in order {
            cur.push(x.clone());
            go(c, prefs, cur, out);
            cur.pop();
        }
    }
    let mut out = vec![];
    go(cands, prefs, &mut vec![], &mut out);
    out
}

pub fn transform(f: &FnDef, c: &Contract, helpers: &HashMap<String, &FnDef>, scopes: &Scopes, rep: &mut Report, choice: usize) -> Out {
    let mut block = f.block.clone();
    let params = param_names(&f.sig);
    let mut problems = vec![];
    if params.len() != c.params.len() {
        problems.push(format!("signature changed: {} parameters, contract has {}", params.len(), c.params.len()));
    }
    // inline
    let mut refs = BTreeSet::new();
    ref_params(&f.sig, &mut refs);
    let mut opaque = inline_closures(f, &mut block, rep);
    let mut n = 0;
    for _ in 0..6 {
        let mut inl = Inliner { helpers, scopes, n, log: vec![], problems: vec![], changed: false, own: f.path.clone(), module: f.module.clone(), refs: &mut refs, ret: kind_of(&f.sig.output), closure: 0 };
        inl.visit_block_mut(&mut block);
        n = inl.n;
        rep.inlined.extend(inl.log);
        if !inl.changed {
            opaque |= !inl.problems.is_empty();
            problems.extend(inl.problems);
            break;
        }
    }
    let whole = block.to_token_stream();
    Pre { rep, whole }.visit_block_mut(&mut block);
    let slices = f
        .sig
        .inputs
        .iter()
        .filter_map(|a| match a {
            FnArg::Typed(t) => match (&*t.pat, &*t.ty) {
                (Pat::Ident(p), Type::Reference(r)) if matches!(&*r.elem, Type::Slice(_)) && r.mutability.is_none() => Some(p.ident.to_string()),
                _ => None,
            },
            _ => None,
        })
        .collect();
    Small { rep, slices }.visit_block_mut(&mut block);
    let mut fold = Fold { n: 0 };
    fold.visit_block_mut(&mut block);
    if fold.n > 0 {
        rep.rw("bit operations on literals evaluated");
    }
    let mut mu = Muts { in_loop: 0, declared: vec![], assigned: BTreeSet::new() };
    mu.visit_block(&block);
    let cands: Vec<String> = mu.declared.iter().filter(|d| mu.assigned.contains(*d)).cloned().collect();
    // what short string literals are
    struct Strs(BTreeSet<String>);
    impl<'ast> Visit<'ast> for Strs {
        fn visit_lit_str(&mut self, l: &'ast LitStr) {
            if l.value().chars().count() <= 4 {
                self.0.insert(l.value());
            }
        }
    }
    let mut strs = Strs(BTreeSet::new());
    strs.visit_block(&block);
    let mut l = Loops { depth: 0, n: 0, infos: vec![], stack: vec![], rws: vec![] };
    l.visit_block_mut(&mut block);
    for r in &l.rws {
        rep.rw(r);
    }
    let mut body: String = block
        .stmts
        .iter()
        .map(|s| print::pretty(s.to_token_stream()))
        .collect::<Vec<_>>()
        .join("\n");
    body.push('\n');
    let known: String = c.preamble.join("\n");
    for s in &strs.0 {
        let e: String = s.chars().map(|c| if c.is_ascii_graphic() && c != '"' && c != '\\' { c.to_string() } else { format!("\\u{{{:X}}}", c as u32) }).collect();
        if known.contains(&format!("reveal_strlit(\"{}\")", e)) {
            continue;
        }
        let cs: Vec<String> = s.chars().map(|c| format!("'\\u{{{:X}}}'", c as u32)).collect();
        body = format!("proof {{ reveal_strlit(\"{}\"); assert(\"{}\"@ =~= {}); }}\n", e, e, if cs.is_empty() { "Seq::<char>::empty()".to_string() } else { format!("seq![{}]", cs.join(", ")) }) + &body;
    }
    // variants: loop alternatives x assignments of roles
    let alts = c.loops.iter().map(|t| t.alt).max().unwrap_or(0) + 1;
    let prefs: Vec<Vec<String>> = c.locals.iter().map(|x| x.1.clone()).collect();
    let pm = if c.locals.is_empty() || l.infos.is_empty() { vec![vec![]] } else { perms(&cands, &prefs) };
    let pm_n = pm.len().max(1);
    let variants = if l.infos.is_empty() { 1 } else { alts * pm_n };
    let alt = choice / pm_n % alts;
    let roles = pm.get(choice % pm_n).cloned();
    if roles.is_none() && !l.infos.is_empty() {
        problems.push("loop variables of the contract not found".into());
    }
    let roles = roles.unwrap_or_default();
    let mut linfo = vec![];
    let mut closures = HasClosure(false);
    closures.visit_block(&block);
    struct Left<'b>(&'b HashMap<String, &'b FnDef>, bool);
    impl<'ast, 'b> Visit<'ast> for Left<'b> {
        fn visit_expr_call(&mut self, c: &'ast ExprCall) {
            if let Expr::Path(p) = &*c.func {
                let last = p.path.segments.last().unwrap().ident.to_string();
                self.1 |= p.path.segments.first().unwrap().ident != "vlib" && self.0.values().any(|f| f.name == last);
            }
            visit::visit_expr_call(self, c);
        }
        fn visit_expr_method_call(&mut self, m: &'ast ExprMethodCall) {
            self.1 |= self.0.values().any(|f| f.in_impl && m.method == f.name);
            visit::visit_expr_method_call(self, m);
        }
    }
    let mut left = Left(helpers, false);
    left.visit_block(&block);
    let mut unattached = closures.0 || left.1 || (opaque && problems.iter().any(|p| p.starts_with("helper "))) || (roles.is_empty() && !c.locals.is_empty() && !l.infos.is_empty());
    for i in &l.infos {
        let mut inv = String::new();
        let mut dec = String::new();
        let mut found = false;
        for t in c.loops.iter().filter(|t| t.depth == i.depth && (t.alt == alt || t.alt == 99 || (t.alt == 0 && !c.loops.iter().any(|u| u.depth == i.depth && u.alt == alt)))) {
            found = true;
            let mut s = subst_params(&t.text, &c.params, &params);
            let mut lost = false;
            let mut need = |s: String, k: &str, v: &Option<String>| -> String {
                if s.contains(k) {
                    match v {
                        Some(x) => replace_word(&s, k, x),
                        None => {
                            problems.push(format!("loop {} ({}) has no {} for its contract", i.id, i.kind, k));
                            lost = true;
                            s
                        }
                    }
                } else {
                    s
                }
            };
            s = need(s, "$ocur", &i.ocur);
            s = need(s, "$v", &i.v);
            s = need(s, "$hi", &i.hi);
            s = need(s, "$it", &i.it);
            s = need(s, "$rem", &i.rem);
            if lost || (s.contains("$lo") && i.v.is_none()) {
                unattached = true;
                continue;
            }
            if c.locals.iter().enumerate().any(|(k, (n, _))| roles.get(k).is_none() && occurs_dollar(&s, n)) {
                unattached = true;
                continue;
            }
            if i.v.is_some() {
                s = replace_word(&s, "$lo", &format!("__lo{}", i.id));
            }
            for (k, (n, _)) in c.locals.iter().enumerate() {
                if let Some(r) = roles.get(k) {
                    s = replace_word(&s, &format!("${}", n), r);
                }
            }
            for (n, _) in &c.snaps {
                s = replace_word(&s, &format!("${}", n), &format!("__s{}_{}", i.id, n));
            }
            let tt = labelled(&s, &t.label);
            if t.kind == "invariant" {
                inv.push_str(&tt);
            } else {
                dec.push_str(&tt);
            }
        }
        if !found {
            problems.push(format!("no loop contract for loop {} at depth {}", i.id, i.depth));
            unattached = true;
        }
        let mut sp = String::from("\n");
        if !inv.is_empty() {
            sp.push_str("  invariant\n");
            sp.push_str(&inv);
        }
        if !dec.is_empty() {
            sp.push_str("  decreases\n");
            sp.push_str(&dec);
        }
        let mut sn = String::from("\n");
        if let Some(v) = &i.v {
            sn.push_str(&format!("let ghost __lo{} = {} as int;\n", i.id, v));
        }
        for (n, e) in &c.snaps {
            let mut e = subst_params(e, &c.params, &params);
            for (k, (n, _)) in c.locals.iter().enumerate() {
                if let Some(r) = roles.get(k) {
                    e = replace_word(&e, &format!("${}", n), r);
                }
            }
            sn.push_str(&format!("let ghost __s{}_{} = {};\n", i.id, n, e));
        }
        body = body.replace(&format!("__VCLOOP_{}__", i.id), &sp);
        body = body.replace(&format!("__VCSNAP_{}__;", i.id), &sn);
        linfo.push(json!({"id": i.id, "depth": i.depth, "kind": i.kind, "v": i.v, "hi": i.hi, "head": i.head}));
    }
    Out { body, loops: json!(linfo), variants, params, problems, unattached }
}
