// Mechanical extraction of the blitstr crate into one Verus source file.
//
//   extract --repo /repo --contracts DIR --out FILE.rs --map FILE.json [--choose PATH=N]...
//
// The code is parsed with syn, transformed by a fixed list of meaning-preserving
// rewrites (see DESIGN.md, "What the extraction drops and rewrites"), annotated
// with the contracts found in DIR/*.vc, and printed.  Every rewrite that was
// applied is listed in the map file.
mod contracts;
mod dict;
mod print;
mod xform;

use contracts::{Contract, Db};
use proc_macro2::TokenStream;
use quote::ToTokens;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::path::{Path, PathBuf};
use syn::visit_mut::VisitMut;
use syn::*;

pub type Scopes = HashMap<String, HashMap<String, String>>; // module -> name -> full path
pub struct FnDef {
    pub module: String,
    pub self_ty: Option<String>,
    pub path: String, // e.g. blit::xor_char, cliprect::ClipRect::new, glyphstyle::GlyphStyle::From::from
    pub name: String,
    pub in_impl: bool,
    pub sig: Signature,
    pub vis: Visibility,
    pub block: Block,
}

pub enum Node {
    Raw(TokenStream),
    Table { name: String, elem: String, len: String, vis: String, vals: Vec<u64> },
    Fn(FnDef),
    Impl { head: String, fns: Vec<FnDef>, rest: Vec<TokenStream> },
    Mod { name: String, vis: String, nodes: Vec<Node> },
}

#[derive(Default)]
pub struct Report {
    pub dropped: Vec<String>,
    pub rewrites: BTreeMap<String, usize>,
    pub problems: Vec<String>,
    pub inlined: Vec<String>,
    pub renamed: Vec<String>,
    pub count: usize,
}
impl Report {
    pub fn fresh(&mut self) -> usize {
        self.count += 1;
        self.count
    }
    pub fn rw(&mut self, k: &str) {
        *self.rewrites.entry(k.to_string()).or_insert(0) += 1;
    }
}

fn is_test(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| {
        let t = a.to_token_stream().to_string().replace(' ', "");
        t.starts_with("#[cfg(test)]") || t.starts_with("#[test]") || t.starts_with("#[cfg(all(test")
    })
}

fn keep_attrs(attrs: &[Attribute]) -> Vec<Attribute> {
    let mut out = vec![];
    for a in attrs {
        if a.path().is_ident("derive") {
            // PartialOrd has no Verus counterpart; the code under contract never uses them
            let list: Vec<String> = a
                .meta
                .require_list()
                .map(|l| l.tokens.to_string())
                .unwrap_or_default()
                .split(',')
                .map(|s| s.trim().to_string())
                .filter(|s| s == "Debug" || s == "Copy" || s == "Clone" || s == "PartialEq" || s == "Eq")
                .collect();
            if !list.is_empty() {
                let l: TokenStream = list.join(",").parse().unwrap();
                out.push(parse_quote!(#[derive(#l)]));
            }
        }
    }
    out
}

fn type_name(t: &Type) -> String {
    t.to_token_stream().to_string().replace(' ', "")
}

struct Hoist {
    names: BTreeSet<String>,
    items: Vec<Item>,
}
impl VisitMut for Hoist {
    fn visit_block_mut(&mut self, b: &mut Block) {
        visit_mut::visit_block_mut(self, b);
        let mut out = vec![];
        for s in std::mem::take(&mut b.stmts) {
            if let Stmt::Item(it) = &s {
                let id = match it {
                    Item::Fn(f) => Some(f.sig.ident.to_string()),
                    Item::Const(c) => Some(c.ident.to_string()),
                    _ => None,
                };
                if let Some(id) = id {
                    let text = it.to_token_stream().to_string();
                    if !self.names.contains(&id) && !text.contains("Self") {
                        self.names.insert(id);
                        self.items.push(it.clone());
                        continue;
                    }
                }
            }
            out.push(s);
        }
        b.stmts = out;
    }
}

struct Loader<'a> {
    rep: &'a mut Report,
    files: Vec<String>,
    scopes: Scopes,
}

/// a type without interior mutability
fn plain(t: &Type) -> bool {
    match t {
        Type::Array(a) => plain(&a.elem),
        Type::Slice(a) => plain(&a.elem),
        Type::Reference(r) => r.mutability.is_none() && plain(&r.elem),
        Type::Tuple(t) => t.elems.iter().all(plain),
        Type::Path(p) => ["u8", "u16", "u32", "u64", "usize", "i8", "i16", "i32", "i64", "isize", "bool", "char", "str"].iter().any(|n| p.path.is_ident(n)),
        _ => false,
    }
}

impl<'a> Loader<'a> {
    fn load(&mut self, file: &Path, dir: &Path, path: &[String]) -> Vec<Node> {
        self.files.push(file.display().to_string());
        let text = match std::fs::read_to_string(file) {
            Ok(t) => t,
            Err(e) => {
                self.rep.problems.push(format!("cannot read {}: {}", file.display(), e));
                return vec![];
            }
        };
        let f = match parse_file(&text) {
            Ok(f) => f,
            Err(e) => {
                self.rep.problems.push(format!("cannot parse {}: {}", file.display(), e));
                return vec![];
            }
        };
        self.items(f.items, dir, path)
    }
    /// what the names visible in a module stand for
    fn scope(&mut self, items: &[Item], path: &[String]) {
        let mut m: HashMap<String, String> = HashMap::new();
        let full = |n: &str| -> String {
            let mut p = vec!["crate".to_string()];
            p.extend(path.iter().cloned());
            p.push(n.to_string());
            p.join("::")
        };
        fn walk(t: &UseTree, pre: Vec<String>, out: &mut Vec<(String, Vec<String>)>) {
            match t {
                UseTree::Path(p) => {
                    let mut q = pre;
                    q.push(p.ident.to_string());
                    walk(&p.tree, q, out)
                }
                UseTree::Name(n) if n.ident == "self" => out.push((pre.last().cloned().unwrap_or_default(), pre)),
                UseTree::Name(n) => {
                    let mut q = pre;
                    q.push(n.ident.to_string());
                    out.push((n.ident.to_string(), q))
                }
                UseTree::Rename(n) => {
                    let mut q = pre;
                    if n.ident != "self" {
                        q.push(n.ident.to_string());
                    }
                    out.push((n.rename.to_string(), q))
                }
                UseTree::Group(g) => {
                    for x in &g.items {
                        walk(x, pre.clone(), out)
                    }
                }
                UseTree::Glob(_) => {}
            }
        }
        for i in items {
            let id = match i {
                Item::Fn(f) => Some(f.sig.ident.to_string()),
                Item::Const(c) => Some(c.ident.to_string()),
                Item::Static(c) => Some(c.ident.to_string()),
                Item::Struct(c) => Some(c.ident.to_string()),
                Item::Enum(c) => Some(c.ident.to_string()),
                Item::Type(c) => Some(c.ident.to_string()),
                Item::Mod(c) => Some(c.ident.to_string()),
                _ => None,
            };
            if let Some(id) = id {
                m.insert(id.clone(), full(&id));
            }
            if let Item::Use(u) = i {
                let mut o = vec![];
                walk(&u.tree, vec![], &mut o);
                for (n, mut q) in o {
                    if q[0] == "self" || q[0] == "super" {
                        let mut base = path.to_vec();
                        while !q.is_empty() && (q[0] == "self" || q[0] == "super") {
                            if q.remove(0) == "super" {
                                base.pop();
                            }
                        }
                        base.extend(q);
                        q = base;
                        q.insert(0, "crate".into());
                    }
                    if q[0] != "crate" && q[0] != "core" && q[0] != "std" {
                        q.splice(0..0, std::iter::once("crate".to_string()).chain(path.iter().cloned()));
                    }
                    m.insert(n, q.join("::"));
                }
            }
        }
        self.scopes.entry(path.join("::")).or_default().extend(m);
    }
    /// functions and constants declared inside function bodies move to the module (they cannot capture
    /// anything, so only their names matter)
    fn hoist(&mut self, items: Vec<Item>) -> Vec<Item> {
        let mut names: BTreeSet<String> = BTreeSet::new();
        for i in &items {
            match i {
                Item::Fn(f) => names.insert(f.sig.ident.to_string()),
                Item::Const(c) => names.insert(c.ident.to_string()),
                Item::Use(u) => {
                    for w in u.to_token_stream().to_string().split(|c: char| !c.is_alphanumeric() && c != '_') {
                        names.insert(w.to_string());
                    }
                    true
                }
                _ => true,
            };
        }
        let mut h = Hoist { names, items: vec![] };
        let mut out = vec![];
        for mut i in items {
            match &mut i {
                Item::Fn(f) if !is_test(&f.attrs) => h.visit_block_mut(&mut f.block),
                Item::Impl(m) if !is_test(&m.attrs) => {
                    for ii in m.items.iter_mut() {
                        if let ImplItem::Fn(f) = ii {
                            h.visit_block_mut(&mut f.block);
                        }
                    }
                }
                _ => {}
            }
            out.push(i);
        }
        for _ in &h.items {
            self.rep.rw("function or constant declared in a function body moved to the module");
        }
        out.extend(h.items);
        out
    }
    /// `static` tables, and tables declared as references to an array, as plain array constants
    fn slice_tables(&mut self, items: &mut Vec<Item>) {
        let mut refs: BTreeSet<String> = BTreeSet::new();
        for i in items.iter_mut() {
            if let Item::Static(s) = i {
                if matches!(s.mutability, StaticMutability::None) && !is_test(&s.attrs) && plain(&s.ty) {
                    let (vis, ident, ty, expr) = (&s.vis, &s.ident, &s.ty, &s.expr);
                    let attrs = &s.attrs;
                    self.rep.rw("static as a constant");
                    *i = parse_quote!(#(#attrs)* #vis const #ident: #ty = #expr;);
                }
            }
            if let Item::Const(c) = i {
                let new = match (&*c.ty, &*c.expr) {
                    (Type::Reference(r), Expr::Reference(x)) if r.mutability.is_none() => match (&*r.elem, &*x.expr) {
                        (Type::Slice(t), Expr::Array(a)) => {
                            let (t, n) = (&t.elem, a.elems.len());
                            let n = LitInt::new(&n.to_string(), proc_macro2::Span::call_site());
                            Some((parse_quote!([#t; #n]), (*x.expr).clone()))
                        }
                        (Type::Array(t), Expr::Array(_)) => Some((Type::Array(t.clone()), (*x.expr).clone())),
                        _ => None,
                    },
                    _ => None,
                };
                if let Some((t, x)) = new {
                    self.rep.rw("table declared as a reference as an array");
                    *c.ty = t;
                    *c.expr = x;
                    refs.insert(c.ident.to_string());
                }
            }
        }
        if refs.is_empty() {
            return;
        }
        for i in items.iter_mut() {
            match i {
                Item::Fn(f) => xform::ByRef(&refs).visit_block_mut(&mut f.block),
                Item::Impl(m) => {
                    for ii in m.items.iter_mut() {
                        if let ImplItem::Fn(f) = ii {
                            xform::ByRef(&refs).visit_block_mut(&mut f.block);
                        }
                    }
                }
                _ => {}
            }
        }
    }
    /// string constants of the module: written out where they are used, declared with their lifetime
    fn str_consts(&mut self, items: &mut Vec<Item>) {
        let mut lits: HashMap<String, Expr> = HashMap::new();
        for i in items.iter_mut() {
            if let Item::Const(c) = i {
                if let Type::Reference(r) = &mut *c.ty {
                    if type_name(&r.elem) == "str" {
                        r.lifetime = Some(parse_quote!('static));
                        if matches!(&*c.expr, Expr::Lit(_)) || matches!(&*c.expr, Expr::Macro(m) if m.mac.path.is_ident("concat")) {
                            lits.insert(c.ident.to_string(), (*c.expr).clone());
                        }
                    }
                }
            }
        }
        if lits.is_empty() {
            return;
        }
        self.rep.rw("string constant written out where it is used");
        for i in items.iter_mut() {
            match i {
                Item::Fn(f) => xform::Lits(&lits).visit_block_mut(&mut f.block),
                Item::Impl(m) => {
                    for ii in m.items.iter_mut() {
                        if let ImplItem::Fn(f) = ii {
                            xform::Lits(&lits).visit_block_mut(&mut f.block);
                        }
                    }
                }
                _ => {}
            }
        }
    }
    /// iterator adaptors that end in for_each or fold are loops
    fn iters(&mut self, items: &mut Vec<Item>) {
        for i in items.iter_mut() {
            let mut x = xform::Iters::new();
            match i {
                Item::Fn(f) => x.visit_block_mut(&mut f.block),
                Item::Impl(m) => {
                    for ii in m.items.iter_mut() {
                        if let ImplItem::Fn(f) = ii {
                            x.visit_block_mut(&mut f.block);
                        }
                    }
                }
                _ => {}
            }
            if x.n > 0 {
                self.rep.rw("for_each, fold, map and filter in front of a loop written as a for loop");
            }
        }
    }
    fn drop(&mut self, path: &[String], what: String) {
        self.rep.dropped.push(format!("{}::{}", path.join("::"), what));
    }
    fn items(&mut self, items: Vec<Item>, dir: &Path, path: &[String]) -> Vec<Node> {
        let mut out = vec![];
        let mut items = self.hoist(items);
        self.scope(&items, path);
        self.slice_tables(&mut items);
        self.str_consts(&mut items);
        self.iters(&mut items);
        for it in items {
            match it {
                Item::Mod(m) => {
                    if is_test(&m.attrs) {
                        self.rep.rw("drop #[cfg(test)] module");
                        continue;
                    }
                    let name = m.ident.to_string();
                    let mut p2 = path.to_vec();
                    p2.push(name.clone());
                    let nodes = if let Some((_, items)) = m.content {
                        self.items(items, &dir.join(&name), &p2)
                    } else {
                        let a = dir.join(format!("{}.rs", name));
                        let b = dir.join(&name).join("mod.rs");
                        let f = if a.exists() { a } else { b };
                        self.load(&f, &dir.join(&name), &p2)
                    };
                    out.push(Node::Mod { name, vis: vis_str(&m.vis), nodes });
                }
                Item::Fn(f) => {
                    if is_test(&f.attrs) {
                        continue;
                    }
                    let name = f.sig.ident.to_string();
                    out.push(Node::Fn(FnDef {
                        module: path.join("::"),
                        self_ty: None,
                        path: join(path, &name),
                        name,
                        in_impl: false,
                        sig: f.sig,
                        vis: f.vis,
                        block: *f.block,
                    }));
                }
                Item::Impl(i) => {
                    if is_test(&i.attrs) {
                        continue;
                    }
                    let ty = type_name(&i.self_ty);
                    let tr = i.trait_.as_ref().map(|(_, p, _)| {
                        p.segments.last().map(|s| s.ident.to_string()).unwrap_or_default()
                    });
                    if let Some(t) = &tr {
                        if t == "Display" || t == "Debug" || t == "Error" {
                            self.drop(path, format!("impl {} for {}", t, ty));
                            self.rep.rw("drop formatting trait impl");
                            continue;
                        }
                    }
                    let mut head = String::from("impl ");
                    head.push_str(&i.generics.to_token_stream().to_string());
                    if let Some((_, p, _)) = &i.trait_ {
                        head.push_str(&format!(" {} for ", p.to_token_stream()));
                    }
                    head.push_str(&format!(" {} ", i.self_ty.to_token_stream()));
                    let mut fns = vec![];
                    let mut rest = vec![];
                    for ii in i.items {
                        match ii {
                            ImplItem::Fn(f) => {
                                if is_test(&f.attrs) {
                                    continue;
                                }
                                let name = f.sig.ident.to_string();
                                let mut p = path.to_vec();
                                p.push(ty.clone());
                                if let Some(t) = &tr {
                                    p.push(t.clone());
                                }
                                fns.push(FnDef {
                                    module: path.join("::"),
                                    self_ty: Some(ty.clone()),
                                    path: join(&p, &name),
                                    name,
                                    in_impl: true,
                                    sig: f.sig,
                                    vis: f.vis,
                                    block: f.block,
                                });
                            }
                            other => rest.push(other.to_token_stream()),
                        }
                    }
                    out.push(Node::Impl { head, fns, rest });
                }
                Item::Const(c) => {
                    if is_test(&c.attrs) {
                        continue;
                    }
                    if let (Type::Array(a), Expr::Array(lit)) = (&*c.ty, &*c.expr) {
                        let vals: Vec<u64> = lit
                            .elems
                            .iter()
                            .filter_map(|e| match e {
                                Expr::Lit(ExprLit { lit: Lit::Int(i), .. }) => i.base10_parse::<u64>().ok(),
                                _ => None,
                            })
                            .collect();
                        if vals.len() != lit.elems.len() {
                            self.rep.problems.push(format!("table {}::{} has elements that are not integer literals", path.join("::"), c.ident));
                        }
                        self.rep.rw("table literal replaced by an opaque constant (contents in the ground check)");
                        out.push(Node::Table {
                            name: c.ident.to_string(),
                            elem: type_name(&a.elem),
                            len: a.len.to_token_stream().to_string(),
                            vis: vis_str(&c.vis),
                            vals,
                        });
                    } else {
                        let mut c = c;
                        c.attrs = vec![];
                        xform::Fold { n: 0 }.visit_expr_mut(&mut c.expr);
                        out.push(Node::Raw(c.to_token_stream()));
                    }
                }
                Item::Use(u) => {
                    if is_test(&u.attrs) {
                        continue;
                    }
                    let t = u.to_token_stream().to_string();
                    if t.contains("fmt") && t.contains("core") || t.contains("std :: fmt") {
                        self.drop(path, t);
                        continue;
                    }
                    let mut u = u;
                    u.attrs = vec![];
                    out.push(Node::Raw(u.to_token_stream()));
                }
                Item::Struct(mut s) => {
                    s.attrs = keep_attrs(&s.attrs);
                    for f in s.fields.iter_mut() {
                        f.attrs = vec![];
                    }
                    out.push(Node::Raw(s.to_token_stream()));
                }
                Item::Enum(mut e) => {
                    e.attrs = keep_attrs(&e.attrs);
                    for v in e.variants.iter_mut() {
                        v.attrs = vec![];
                    }
                    out.push(Node::Raw(e.to_token_stream()));
                }
                Item::Type(mut t) => {
                    t.attrs = vec![];
                    out.push(Node::Raw(t.to_token_stream()));
                }
                other => {
                    let s: String = other.to_token_stream().to_string().chars().take(60).collect();
                    self.drop(path, s.clone());
                    self.rep.problems.push(format!("item kind not extracted: {}", s));
                }
            }
        }
        out
    }
}

fn vis_str(v: &Visibility) -> String {
    // Verus needs contracts of public functions to mention public items only: open everything up
    match v {
        Visibility::Inherited => "pub".into(),
        _ => "pub".into(),
    }
}
fn join(path: &[String], name: &str) -> String {
    let mut p = path.to_vec();
    p.push(name.to_string());
    p.join("::")
}

fn collect<'a>(nodes: &'a [Node], out: &mut Vec<&'a FnDef>) {
    for n in nodes {
        match n {
            Node::Fn(f) => out.push(f),
            Node::Impl { fns, .. } => out.extend(fns.iter()),
            Node::Mod { nodes, .. } => collect(nodes, out),
            _ => {}
        }
    }
}

fn sig_key(s: &Signature) -> String {
    let mut k = String::new();
    for i in &s.inputs {
        match i {
            FnArg::Receiver(r) => k.push_str(&r.to_token_stream().to_string()),
            FnArg::Typed(t) => k.push_str(&type_name(&t.ty)),
        }
        k.push(';');
    }
    k.push_str(&s.output.to_token_stream().to_string().replace(' ', ""));
    k
}

struct Emit<'a> {
    out: String,
    db: &'a Db,
    attach: HashMap<String, String>, // fn path -> contract path
    helpers: HashMap<String, &'a FnDef>,
    scopes: Scopes,
    rep: &'a mut Report,
    fns: Vec<Value>,
    choose: HashMap<String, usize>,
    tables: Vec<(String, String, String, String)>, // (module path, name, elem, len)
    dump: String,
    external: BTreeSet<String>,
    vacuity: bool,
}

const USES: &str = "#[allow(unused_imports)] use vstd::prelude::*;\n#[allow(unused_imports)] use crate::vlib::*;\n#[allow(unused_imports)] use vstd::string::StringSliceAdditionalSpecFns;\nbroadcast use crate::vlib::group_vlib;\n";

impl<'a> Emit<'a> {
    fn line(&self) -> usize {
        self.out.matches('\n').count() + 1
    }
    fn nodes(&mut self, nodes: &'a [Node], path: &[String]) {
        for n in nodes {
            match n {
                Node::Raw(t) => {
                    let mut s = print::pretty(t.clone());
                    // open up visibility of plain items (structs, consts, types, use)
                    if !s.trim_start().starts_with("pub") && !s.trim_start().starts_with('#') {
                        if s.trim_start().starts_with("const")
                            || s.trim_start().starts_with("struct")
                            || s.trim_start().starts_with("enum")
                            || s.trim_start().starts_with("type")
                        {
                            s = format!("pub {}", s.trim_start());
                        }
                    }
                    self.out.push_str(&s);
                    self.out.push('\n');
                }
                Node::Table { name, elem, len, vis, vals } => {
                    let m = path.join("_");
                    self.tables.push((m.clone(), name.clone(), elem.clone(), len.clone()));
                    self.dump.push_str(&format!("T {m} {name} {elem} {len}"));
                    for v in vals {
                        self.dump.push_str(&format!(" {}", v));
                    }
                    self.dump.push('\n');
                    self.out.push_str(&format!(
                        "#[verifier::external_body]\n{vis} exec const {name}: [{elem}; {len}]\n    ensures {name}@ == crate::vlib::tbl::{m}_{name}()\n{{ [0; {len}] }}\n"
                    ));
                }
                Node::Fn(f) => self.func(f, ""),
                Node::Impl { head, fns, rest } => {
                    if head.contains(" for ") && !fns.is_empty() && fns.iter().all(|f| !self.attach.contains_key(&f.path)) {
                        self.rep.dropped.push(format!("{} (no contract)", head));
                        continue;
                    }
                    self.out.push_str(&format!("{} {{\n", head));
                    for r in rest {
                        self.out.push_str(&print::pretty(r.clone()));
                    }
                    let tr = head.contains(" for ");
                    for f in fns {
                        self.func(f, if tr { "trait" } else { "" });
                    }
                    self.out.push_str("}\n");
                }
                Node::Mod { name, vis, nodes } => {
                    let mut p = path.to_vec();
                    p.push(name.clone());
                    self.out.push_str(&format!("{} mod {} {{\n", vis, name));
                    let pure_use = nodes.iter().all(|n| matches!(n, Node::Raw(_) | Node::Mod { .. }));
                    if !pure_use {
                        self.out.push_str(USES);
                    }
                    self.nodes(nodes, &p);
                    self.out.push_str("}\n");
                }
            }
        }
    }

    fn func(&mut self, f: &'a FnDef, kind: &str) {
        let cpath = match self.attach.get(&f.path) {
            Some(c) => c.clone(),
            None => {
                if kind != "trait" {
                    self.rep.dropped.push(format!("fn {} (no contract)", f.path));
                    return;
                }
                self.rep.problems.push(format!("trait impl fn without contract: {}", f.path));
                return;
            }
        };
        let c: &Contract = &self.db.fns[&cpath];
        let start = self.line();
        let choice = self.choose.get(&cpath).copied().unwrap_or(0);
        let x = xform::transform(f, c, &self.helpers, &self.scopes, self.rep, choice);
        let vis = if kind == "trait" { "" } else { "pub" };
        let cst = if f.sig.constness.is_some() { "const " } else { "" };
        let ext = self.external.contains(&f.path);
        if ext {
            self.out.push_str("#[verifier::external_body]\n");
        } else {
            for a in &c.attrs {
                self.out.push_str(&format!("#[{}]\n", a));
            }
        }
        let inputs = f.sig.inputs.to_token_stream().to_string();
        let gen = f.sig.generics.to_token_stream().to_string();
        let ret = match &f.sig.output {
            ReturnType::Default => String::new(),
            ReturnType::Type(_, t) => format!(" -> ({}: {})", c.ret.clone().unwrap_or("r".into()), t.to_token_stream()),
        };
        self.out.push_str(&format!("{} {}fn {}{}({}){}\n", vis, cst, f.name, gen, inputs, ret));
        let mut clause = |kind: &str, out: &mut String| {
            let cs: Vec<_> = c.clauses.iter().filter(|k| k.kind == kind).collect();
            if cs.is_empty() {
                return;
            }
            out.push_str(&format!("  {}\n", kind));
            for k in cs {
                let t = xform::subst_params(&k.text, &c.params, &x.params);
                out.push_str(&contracts::labelled(&t, &k.label));
            }
        };
        clause("requires", &mut self.out);
        clause("ensures", &mut self.out);
        clause("decreases", &mut self.out);
        self.out.push_str("{\n");
        if ext {
            self.out.push_str("loop {}\n");
        } else {
            for p in &c.preamble {
                let t = xform::subst_params(p, &c.params, &x.params);
                self.out.push_str(&contracts::labelled_plain(&t, "preamble"));
            }
            if self.vacuity {
                self.out.push_str("    assert(false); /*@vacuity@*/\n");
            }
            self.out.push_str(&x.body);
        }
        self.out.push_str("}\n");
        let end = self.line();
        self.fns.push(json!({
            "path": f.path, "contract": cpath, "start": start, "end": end,
            "external": ext, "loops": x.loops, "variants": x.variants, "problems": x.problems, "unattached": x.unattached,
            "labels": c.clauses.iter().map(|k| k.label.clone()).collect::<Vec<_>>(),
        }));
        for p in x.problems {
            self.rep.problems.push(format!("{}: {}", f.path, p));
        }
    }
}

fn main() {
    let mut repo = PathBuf::from("/repo");
    let mut cdir = PathBuf::from("/verif/contracts");
    let mut out = PathBuf::from("out.rs");
    let mut map = PathBuf::from("out.json");
    let mut choose = HashMap::new();
    let mut external = BTreeSet::new();
    let mut vacuity = false;
    let mut tables_out: Option<PathBuf> = None;
    let mut dict_out: Option<PathBuf> = None;
    let args: Vec<String> = std::env::args().collect();
    let mut i = 1;
    while i < args.len() {
        let v = args.get(i + 1).cloned().unwrap_or_default();
        match args[i].as_str() {
            "--repo" => repo = v.into(),
            "--contracts" => cdir = v.into(),
            "--out" => out = v.into(),
            "--map" => map = v.into(),
            "--tables" => tables_out = Some(v.into()),
            "--dict" => dict_out = Some(v.into()),
            "--external" => {
                external.insert(v);
            }
            "--vacuity" => vacuity = v == "1",
            "--choose" => {
                let (a, b) = v.split_once('=').unwrap();
                choose.insert(a.to_string(), b.parse().unwrap());
            }
            _ => panic!("bad arg {}", args[i]),
        }
        i += 2;
    }
    let mut rep = Report::default();
    let db = contracts::load(&cdir);
    let (nodes, files, scopes) = {
        let mut l = Loader { rep: &mut rep, files: vec![], scopes: HashMap::new() };
        let n = l.load(&repo.join("src/lib.rs"), &repo.join("src"), &[]);
        (n, l.files, l.scopes)
    };
    let mut fns = vec![];
    collect(&nodes, &mut fns);
    // Attach contracts: by path, else by unique signature among functions that have no contract (renamed functions)
    let mut attach = HashMap::new();
    let have: BTreeSet<String> = fns.iter().map(|f| f.path.clone()).collect();
    for f in &fns {
        if db.fns.contains_key(&f.path) {
            attach.insert(f.path.clone(), f.path.clone());
        }
    }
    let mut missing: Vec<String> = vec![];
    for p in db.fns.keys() {
        if have.contains(p) {
            continue;
        }
        let c = &db.fns[p];
        let modp = p.rsplit_once("::").map(|x| x.0.to_string()).unwrap_or_default();
        let cand: Vec<_> = fns
            .iter()
            .filter(|f| !attach.contains_key(&f.path) && !db.fns.contains_key(&f.path))
            .filter(|f| c.sigkey.as_deref() == Some(sig_key(&f.sig).as_str()))
            .collect();
        let same: Vec<_> = cand.iter().filter(|f| f.path.rsplit_once("::").map(|x| x.0).unwrap_or("") == modp).collect();
        let pick = if cand.len() == 1 { Some(&cand[0].path) } else if same.len() == 1 { Some(&same[0].path) } else { None };
        match pick {
            Some(q) => {
                attach.insert(q.clone(), p.clone());
                rep.renamed.push(format!("{} -> {}", p, q));
            }
            None => {
                missing.push(p.clone());
            }
        }
    }
    for m in &missing {
        rep.problems.push(format!("contract has no function in the source: {}", m));
    }
    let mut helpers = HashMap::new();
    for f in &fns {
        if !attach.contains_key(&f.path) {
            helpers.insert(f.path.clone(), *f);
        }
    }
    let sigs: Vec<Value> = fns.iter().map(|f| json!({"path": f.path, "sig": sig_key(&f.sig)})).collect();
    let mut em = Emit {
        out: String::new(),
        db: &db,
        attach,
        helpers,
        scopes,
        rep: &mut rep,
        fns: vec![],
        choose,
        tables: vec![],
        dump: String::new(),
        external,
        vacuity,
    };
    em.out.push_str("// GENERATED by /verif/extract from the source tree; do not edit\n#![allow(non_snake_case, unused_imports, dead_code, unused_variables, unused_mut, unused_assignments, unused_parens, unused_braces)]\nuse vstd::prelude::*;\nverus! {\n");
    em.nodes(&nodes, &[]);
    // opaque tables
    let mut t = String::from("pub mod tbl {\nuse vstd::prelude::*;\n");
    for (m, n, e, l) in &em.tables {
        t.push_str(&format!("pub uninterp spec fn {m}_{n}() -> Seq<{e}>;\n"));
        let _ = l;
    }
    t.push_str("}\n");
    let lib = std::fs::read_to_string(cdir.join("vlib.rs")).expect("vlib.rs");
    let fonts = std::fs::read_to_string(cdir.join("fonts_spec.rs")).unwrap_or_default();
    let lib = lib.replace("/*@@TABLES@@*/", &t).replace("/*@@FONTS@@*/", &fonts);
    let base = em.line();
    em.out.push_str("pub mod vlib {\n");
    em.out.push_str(&lib);
    em.out.push_str("}\n");
    let hbase = em.line();
    em.out.push_str(&std::fs::read_to_string(cdir.join("harness.rs")).unwrap_or_default());
    em.out.push_str("} // verus!\nfn main() {}\n");
    if let Some(p) = tables_out {
        std::fs::write(p, &em.dump).unwrap();
    }
    if let Some(p) = dict_out {
        std::fs::write(p, dict::collect(&files, &em.tables.iter().map(|t| t.1.clone()).collect())).unwrap();
    }
    let fnsj = em.fns.clone();
    let tabs: Vec<Value> = em.tables.iter().map(|(m, n, e, l)| json!({"module": m, "name": n, "elem": e, "len": l})).collect();
    std::fs::write(&out, &em.out).unwrap();
    let j = json!({
        "files": files, "functions": fnsj, "vlib_start": base, "harness_start": hbase, "tables": tabs,
        "dropped": rep.dropped, "rewrites": rep.rewrites, "problems": rep.problems,
        "inlined": rep.inlined, "renamed": rep.renamed, "missing": missing, "signatures": sigs,
    });
    std::fs::write(&map, serde_json::to_string_pretty(&j).unwrap()).unwrap();
}
