// Numbers and texts that occur in the source (outside tables): seeds for the bounded falsifier
use std::collections::BTreeSet;
use syn::visit::{self, Visit};
use syn::*;

#[derive(Default)]
struct D {
    nums: BTreeSet<u64>,
    strs: BTreeSet<String>,
    tables: BTreeSet<String>,
}
impl<'a> Visit<'a> for D {
    fn visit_item_const(&mut self, c: &'a ItemConst) {
        if !self.tables.contains(&c.ident.to_string()) {
            visit::visit_item_const(self, c);
        }
    }
    fn visit_item_mod(&mut self, m: &'a ItemMod) {
        if !super::is_test(&m.attrs) {
            visit::visit_item_mod(self, m);
        }
    }
    fn visit_attribute(&mut self, _: &'a Attribute) {}
    fn visit_macro(&mut self, m: &'a Macro) {
        if let Ok(p) = m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated) {
            for e in p.iter() {
                self.visit_expr(e);
            }
        }
    }
    fn visit_lit(&mut self, l: &'a Lit) {
        match l {
            Lit::Int(i) => {
                if let Ok(v) = i.base10_parse::<u64>() {
                    self.nums.insert(v);
                }
            }
            Lit::Byte(b) => {
                self.nums.insert(b.value() as u64);
                self.strs.insert((b.value() as char).to_string());
            }
            Lit::Str(s) => {
                self.strs.insert(s.value());
            }
            Lit::Char(c) => {
                self.strs.insert(c.value().to_string());
                self.nums.insert(c.value() as u64);
            }
            _ => {}
        }
    }
}

pub fn collect(files: &[String], tables: &BTreeSet<String>) -> String {
    let mut d = D { tables: tables.clone(), ..Default::default() };
    for f in files {
        if let Ok(t) = std::fs::read_to_string(f) {
            if let Ok(f) = parse_file(&t) {
                d.visit_file(&f);
            }
        }
    }
    let mut o = String::new();
    for n in &d.nums {
        o.push_str(&format!("n {}\n", n));
    }
    for s in &d.strs {
        if s.is_empty() || s.chars().count() > 400 {
            continue;
        }
        let v: Vec<String> = s.chars().map(|c| format!("{:X}", c as u32)).collect();
        o.push_str(&format!("s {}\n", v.join(" ")));
    }
    o
}
