// Minimal token printer: one statement per line, so that verifier messages point at a statement.
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};

pub fn pretty(ts: TokenStream) -> String {
    let mut s = String::new();
    walk(ts, &mut s, 1, true);
    s
}
fn nl(out: &mut String, ind: usize) {
    while out.ends_with(' ') {
        out.pop();
    }
    out.push('\n');
    for _ in 0..ind {
        out.push_str("  ");
    }
}
fn walk(ts: TokenStream, out: &mut String, ind: usize, brace: bool) {
    let mut it = ts.into_iter().peekable();
    while let Some(t) = it.next() {
        match t {
            TokenTree::Group(g) => match g.delimiter() {
                Delimiter::Brace => {
                    out.push('{');
                    if !g.stream().is_empty() {
                        nl(out, ind + 1);
                        walk(g.stream(), out, ind + 1, true);
                        nl(out, ind);
                    }
                    out.push_str("} ");
                    let stop = match it.peek() {
                        Some(TokenTree::Punct(_)) => true,
                        Some(TokenTree::Ident(i)) => *i == "else" || *i == "as",
                        _ => false,
                    };
                    if !stop && brace {
                        nl(out, ind);
                    }
                }
                Delimiter::Parenthesis => {
                    out.push('(');
                    walk(g.stream(), out, ind, false);
                    out.push_str(") ");
                }
                Delimiter::Bracket => {
                    out.push('[');
                    walk(g.stream(), out, ind, false);
                    out.push_str("] ");
                }
                Delimiter::None => walk(g.stream(), out, ind, false),
            },
            TokenTree::Punct(p) => {
                let c = p.as_char();
                if (c == '.' || c == ',' || c == ';') && out.ends_with(' ') {
                    out.pop();
                }
                out.push(c);
                if c == ';' || (c == ',' && brace) {
                    nl(out, ind);
                } else if p.spacing() == Spacing::Alone && c != '.' && c != '&' {
                    out.push(' ');
                }
            }
            TokenTree::Ident(i) => {
                out.push_str(&i.to_string());
                out.push(' ');
            }
            TokenTree::Literal(l) => {
                out.push_str(&l.to_string());
                out.push(' ');
            }
        }
    }
}
