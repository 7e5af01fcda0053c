//! Expands the repository's own `macro_rules!` macros, so that functions they generate can be put under contract.
use proc_macro2::{Delimiter, Group, TokenStream, TokenTree};
use std::collections::BTreeMap;
use syn::parse::{ParseStream, Parser};
use syn::*;

#[derive(Clone, Debug)]
enum Pt {
    Tok(TokenTree),
    Frag(String, String),
    Rep(Vec<Pt>, Option<TokenTree>, char),
    Group(Delimiter, Vec<Pt>),
}
#[derive(Clone)]
pub struct Rule {
    pat: Vec<Pt>,
    body: TokenStream,
}
pub type Defs = BTreeMap<String, Vec<Rule>>;
#[derive(Clone)]
enum B {
    One(TokenStream),
    Many(Vec<BTreeMap<String, B>>),
}
type Binds = BTreeMap<String, B>;

fn is_p(t: &TokenTree, c: char) -> bool {
    matches!(t, TokenTree::Punct(p) if p.as_char() == c)
}
fn pat(ts: TokenStream) -> Vec<Pt> {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut out = vec![];
    let mut i = 0;
    while i < v.len() {
        if is_p(&v[i], '$') && i + 1 < v.len() {
            match &v[i + 1] {
                TokenTree::Ident(n) if i + 3 < v.len() && is_p(&v[i + 2], ':') => {
                    if let TokenTree::Ident(k) = &v[i + 3] {
                        out.push(Pt::Frag(n.to_string(), k.to_string()));
                        i += 4;
                        continue;
                    }
                }
                TokenTree::Group(g) => {
                    let inner = pat(g.stream());
                    let mut j = i + 2;
                    let op = |t: &TokenTree| ['*', '+', '?'].into_iter().find(|c| is_p(t, *c));
                    let mut sep = None;
                    if j < v.len() && op(&v[j]).is_none() {
                        sep = Some(v[j].clone());
                        j += 1;
                    }
                    let o = v.get(j).and_then(op).unwrap_or('*');
                    out.push(Pt::Rep(inner, sep, o));
                    i = j + 1;
                    continue;
                }
                _ => {}
            }
        }
        match &v[i] {
            TokenTree::Group(g) => out.push(Pt::Group(g.delimiter(), pat(g.stream()))),
            t => out.push(Pt::Tok(t.clone())),
        }
        i += 1;
    }
    out
}
pub fn rules(ts: TokenStream) -> Vec<Rule> {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut out = vec![];
    let mut i = 0;
    while i + 3 < v.len() {
        if let (TokenTree::Group(p), TokenTree::Group(b)) = (&v[i], &v[i + 3]) {
            out.push(Rule { pat: pat(p.stream()), body: b.stream() });
        }
        i += 4;
        if i < v.len() && is_p(&v[i], ';') {
            i += 1;
        }
    }
    out
}
fn frag(kind: &str, v: &[TokenTree]) -> Option<(TokenStream, usize)> {
    macro_rules! by {
        ($t:ty) => {{
            let ts: TokenStream = v.iter().cloned().collect();
            let f = |i: ParseStream| -> syn::Result<(TokenStream, usize)> {
                let x: $t = i.parse()?;
                let rest: TokenStream = i.parse()?;
                Ok((quote::quote!(#x), rest.into_iter().count()))
            };
            let (x, rest) = f.parse2(ts).ok()?;
            Some((x, v.len() - rest))
        }};
    }
    match kind {
        "ident" => matches!(v.first()?, TokenTree::Ident(_)).then(|| (v[0].clone().into(), 1)),
        "tt" => Some((v.first()?.clone().into(), 1)),
        "ty" => by!(Type),
        "expr" => by!(Expr),
        "path" => by!(Path),
        "vis" => by!(Visibility),
        "literal" => by!(Lit),
        "block" => by!(Block),
        "item" => by!(Item),
        "lifetime" => by!(Lifetime),
        _ => None,
    }
}
fn same(a: &TokenTree, b: &TokenTree) -> bool {
    a.to_string() == b.to_string()
}
/// matches a prefix of `v`
fn go(ps: &[Pt], v: &[TokenTree], out: &mut Binds) -> Option<usize> {
    let mut at = 0;
    for p in ps {
        match p {
            Pt::Tok(t) => {
                if !v.get(at).map(|x| same(x, t)).unwrap_or(false) {
                    return None;
                }
                at += 1;
            }
            Pt::Frag(n, k) => {
                let (ts, l) = frag(k, &v[at..])?;
                out.insert(n.clone(), B::One(ts));
                at += l;
            }
            Pt::Group(d, inner) => {
                let TokenTree::Group(g) = v.get(at)? else { return None };
                if g.delimiter() != *d {
                    return None;
                }
                let w: Vec<TokenTree> = g.stream().into_iter().collect();
                if go(inner, &w, out)? != w.len() {
                    return None;
                }
                at += 1;
            }
            Pt::Rep(inner, sep, op) => {
                let mut many = vec![];
                loop {
                    let mut from = at;
                    if !many.is_empty() {
                        if *op == '?' {
                            break;
                        }
                        if let Some(s) = sep {
                            if !v.get(from).map(|x| same(x, s)).unwrap_or(false) {
                                break;
                            }
                            from += 1;
                        }
                    }
                    let mut b = Binds::new();
                    match go(inner, &v[from..], &mut b) {
                        Some(l) if l > 0 => {
                            at = from + l;
                            many.push(b);
                        }
                        _ => break,
                    }
                }
                if *op == '+' && many.is_empty() {
                    return None;
                }
                let mut names = vec![];
                fn ns(ps: &[Pt], o: &mut Vec<String>) {
                    for p in ps {
                        match p {
                            Pt::Frag(n, _) => o.push(n.clone()),
                            Pt::Rep(i, _, _) | Pt::Group(_, i) => ns(i, o),
                            _ => {}
                        }
                    }
                }
                ns(inner, &mut names);
                for n in names {
                    out.insert(n, B::Many(many.clone()));
                }
            }
        }
    }
    Some(at)
}
fn put(body: TokenStream, b: &Binds) -> TokenStream {
    let v: Vec<TokenTree> = body.into_iter().collect();
    let mut out = TokenStream::new();
    let mut i = 0;
    while i < v.len() {
        if is_p(&v[i], '$') && i + 1 < v.len() {
            match &v[i + 1] {
                TokenTree::Ident(n) => {
                    if n == "crate" {
                        out.extend([v[i + 1].clone()]);
                        i += 2;
                        continue;
                    }
                    if let Some(B::One(ts)) = b.get(&n.to_string()) {
                        out.extend(ts.clone());
                        i += 2;
                        continue;
                    }
                }
                TokenTree::Group(g) if g.delimiter() == Delimiter::Parenthesis => {
                    let mut used = vec![];
                    fn find(ts: TokenStream, o: &mut Vec<String>) {
                        let v: Vec<TokenTree> = ts.into_iter().collect();
                        for i in 0..v.len() {
                            match &v[i] {
                                TokenTree::Group(g) => find(g.stream(), o),
                                TokenTree::Ident(n) if i > 0 && is_p(&v[i - 1], '$') => o.push(n.to_string()),
                                _ => {}
                            }
                        }
                    }
                    find(g.stream(), &mut used);
                    if let Some(many) = used.iter().find_map(|n| match b.get(n) {
                        Some(B::Many(m)) => Some(m.clone()),
                        _ => None,
                    }) {
                        let mut j = i + 2;
                        let isop = |t: &TokenTree| is_p(t, '*') || is_p(t, '+') || is_p(t, '?');
                        let mut sep = None;
                        if j < v.len() && !isop(&v[j]) {
                            sep = Some(v[j].clone());
                            j += 1;
                        }
                        for (k, x) in many.iter().enumerate() {
                            if k > 0 {
                                if let Some(s) = &sep {
                                    out.extend([s.clone()]);
                                }
                            }
                            let mut bb = b.clone();
                            bb.extend(x.clone());
                            out.extend(put(g.stream(), &bb));
                        }
                        i = j + 1;
                        continue;
                    }
                }
                _ => {}
            }
        }
        match &v[i] {
            TokenTree::Group(g) => {
                let mut n = Group::new(g.delimiter(), put(g.stream(), b));
                n.set_span(g.span());
                out.extend([TokenTree::Group(n)]);
            }
            t => out.extend([t.clone()]),
        }
        i += 1;
    }
    out
}
/// the expansion of a call, if it is a macro of the repository
pub fn expand(defs: &Defs, m: &Macro) -> Option<TokenStream> {
    let n = m.path.segments.last()?.ident.to_string();
    let v: Vec<TokenTree> = m.tokens.clone().into_iter().collect();
    for r in defs.get(&n)? {
        let mut b = Binds::new();
        if go(&r.pat, &v, &mut b) == Some(v.len()) {
            return Some(put(r.body.clone(), &b));
        }
    }
    None
}
pub fn define(defs: &mut Defs, m: &ItemMacro) {
    if let (Some(n), true) = (&m.ident, m.mac.path.is_ident("macro_rules")) {
        defs.insert(n.to_string(), rules(m.mac.tokens.clone()));
    }
}
/// macros called by an item list, in place
pub fn items(defs: &mut Defs, its: &[Item]) -> Vec<Item> {
    let mut out = vec![];
    for it in its {
        match it {
            Item::Macro(m) if m.ident.is_some() => {
                define(defs, m);
                out.push(it.clone());
            }
            Item::Macro(m) => match expand(defs, &m.mac).and_then(|ts| parse2::<File>(ts).ok()) {
                Some(f) => {
                    let mut d = defs.clone();
                    out.extend(items(&mut d, &f.items));
                }
                None => out.push(it.clone()),
            },
            Item::Impl(im) => {
                let mut im = im.clone();
                im.items = impl_items(defs, &im.items);
                out.push(Item::Impl(im));
            }
            Item::Mod(m) => {
                let mut m = m.clone();
                if let Some((_, c)) = &mut m.content {
                    *c = items(&mut defs.clone(), c);
                }
                out.push(Item::Mod(m));
            }
            _ => out.push(it.clone()),
        }
    }
    out
}
fn impl_items(defs: &Defs, its: &[ImplItem]) -> Vec<ImplItem> {
    let mut out = vec![];
    for it in its {
        if let ImplItem::Macro(m) = it {
            if let Some(ts) = expand(defs, &m.mac) {
                if let Ok(im) = parse2::<ItemImpl>(quote::quote!(impl X { #ts })) {
                    out.extend(impl_items(defs, &im.items));
                    continue;
                }
            }
        }
        out.push(it.clone());
    }
    out
}
pub struct Stmts<'a>(pub &'a Defs);
impl<'a> visit_mut::VisitMut for Stmts<'a> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        for s in b.stmts.iter_mut() {
            if let Stmt::Macro(m) = s {
                if let Some(ts) = expand(self.0, &m.mac) {
                    if let Ok(e) = parse2::<Expr>(quote::quote!({ #ts })) {
                        *s = Stmt::Expr(e, m.semi_token);
                    }
                }
            }
        }
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Macro(m) = e {
            if let Some(ts) = expand(self.0, &m.mac) {
                if let Ok(x) = parse2::<Expr>(quote::quote!({ #ts })) {
                    *e = x;
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}
