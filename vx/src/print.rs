//! Token printer that splices in the contract texts.
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};

#[derive(Default)]
pub struct Texts {
    pub v: Vec<String>,
}
impl Texts {
    pub fn add(&mut self, prefix: &str, t: String) -> syn::Ident {
        self.v.push(t);
        syn::Ident::new(&format!("__VX{}_{}", prefix, self.v.len() - 1), proc_macro2::Span::call_site())
    }
    fn get(&self, id: &str, prefix: &str) -> Option<&str> {
        let n: usize = id.strip_prefix(&format!("__VX{prefix}_"))?.parse().ok()?;
        Some(&self.v[n])
    }
}

pub fn print(ts: TokenStream, texts: &Texts) -> String {
    let mut out = String::new();
    pr(ts, texts, &mut out, 0);
    out
}

fn nl(out: &mut String, ind: usize) {
    while out.ends_with(' ') {
        out.pop();
    }
    if !out.ends_with('\n') {
        out.push('\n');
    }
    for _ in 0..ind {
        out.push_str("  ");
    }
}

fn pr(ts: TokenStream, texts: &Texts, out: &mut String, ind: usize) {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut i = 0;
    while i < v.len() {
        match &v[i] {
            TokenTree::Group(g) => {
                let (o, c) = match g.delimiter() {
                    Delimiter::Parenthesis => ("(", ")"),
                    Delimiter::Bracket => ("[", "]"),
                    Delimiter::Brace => ("{", "}"),
                    Delimiter::None => ("", ""),
                };
                if g.delimiter() == Delimiter::Brace {
                    let mut inner: Vec<TokenTree> = g.stream().into_iter().collect();
                    // leading clause marker(s)
                    loop {
                        let t = match inner.first() {
                            Some(TokenTree::Ident(id)) => texts.get(&id.to_string(), "C").map(|s| s.to_string()),
                            _ => None,
                        };
                        match t {
                            Some(t) => {
                                nl(out, ind);
                                out.push_str(&t);
                                nl(out, ind);
                                inner.drain(0..2.min(inner.len()));
                            }
                            None => break,
                        }
                    }
                    out.push_str("{");
                    nl(out, ind + 1);
                    pr(inner.into_iter().collect(), texts, out, ind + 1);
                    nl(out, ind);
                    out.push_str("} ");
                    // newline after a block unless followed by something that continues the expression
                    let cont = match v.get(i + 1) {
                        Some(TokenTree::Punct(_)) => true,
                        Some(TokenTree::Ident(id)) => id == "else",
                        _ => false,
                    };
                    if !cont {
                        nl(out, ind);
                    }
                } else {
                    while out.ends_with(' ') && o == "(" && !prev_kw(out) {
                        out.pop();
                    }
                    out.push_str(o);
                    pr(g.stream(), texts, out, ind + 1);
                    while out.ends_with(' ') {
                        out.pop();
                    }
                    out.push_str(c);
                    out.push(' ');
                }
            }
            TokenTree::Ident(id) => {
                let s = id.to_string();
                if let Some(t) = texts.get(&s, "S") {
                    nl(out, ind);
                    out.push_str(t);
                    nl(out, ind);
                    // drop the ';'
                    i += 1;
                } else if let Some(t) = texts.get(&s, "R") {
                    out.push_str(t);
                    out.push(' ');
                } else {
                    out.push_str(&s);
                    out.push(' ');
                }
            }
            TokenTree::Punct(p) => {
                let ch = p.as_char();
                if matches!(ch, ';' | ',' | '.' | '?') || ch == ':' {
                    while out.ends_with(' ') {
                        out.pop();
                    }
                }
                out.push(ch);
                if ch == ';' {
                    nl(out, ind);
                } else if ch == '.' || ch == '\'' {
                } else if p.spacing() == Spacing::Alone {
                    if ch == ':' && out.ends_with("::") {
                    } else {
                        out.push(' ');
                    }
                }
            }
            TokenTree::Literal(l) => {
                out.push_str(&l.to_string());
                out.push(' ');
            }
        }
        i += 1;
    }
}

fn prev_kw(out: &str) -> bool {
    let t = out.trim_end();
    for k in ["if", "while", "match", "in", "return", "=", "=>", "&&", "||", "else", "let", "+", "-", "*", "/", "<", ">", "!", "|"] {
        if t.ends_with(k) {
            return true;
        }
    }
    false
}
