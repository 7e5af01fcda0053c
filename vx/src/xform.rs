
//! Desugaring of the extracted bodies into the dialect accepted by Verus, and
//! attachment of the contracts.  Every rewrite is listed in DESIGN.md.
use crate::print::Texts;
use crate::source::*;
use crate::spec::FnSpec;
use proc_macro2::Span;
use quote::{format_ident, quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub type R<T> = std::result::Result<T, String>;

pub fn ident(s: &str) -> Ident {
    Ident::new(s, Span::call_site())
}
fn pe(ts: proc_macro2::TokenStream) -> Expr {
    parse2(ts.clone()).unwrap_or_else(|e| panic!("pe: {e}: {ts}"))
}
fn pb(ts: proc_macro2::TokenStream) -> Block {
    parse2(quote!({ #ts })).unwrap_or_else(|e| panic!("pb: {e}: {ts}"))
}

// ---------------------------------------------------------------- cleaning

/// `let _ = <effect free>;`, `();`, `{}`, `if false {..}`, unused `let _x = <effect free>;`
pub struct Clean;
fn effect_free(e: &Expr) -> bool {
    match e {
        Expr::Lit(_) | Expr::Path(_) => true,
        Expr::Tuple(t) => t.elems.iter().all(effect_free),
        Expr::Paren(p) => effect_free(&p.expr),
        Expr::Reference(r) => effect_free(&r.expr),
        Expr::Field(f) => effect_free(&f.base),
        Expr::Unary(u) => !matches!(u.op, UnOp::Deref(_)) && effect_free(&u.expr),
        Expr::Binary(b) => {
            matches!(b.op, BinOp::Eq(_) | BinOp::Ne(_) | BinOp::Lt(_) | BinOp::Gt(_) | BinOp::Le(_) | BinOp::Ge(_) | BinOp::And(_) | BinOp::Or(_)) && effect_free(&b.left) && effect_free(&b.right)
        }
        Expr::MethodCall(m) => (m.method == "len" || m.method == "is_empty" || m.method == "is_some" || m.method == "is_none") && m.args.is_empty() && effect_free(&m.receiver),
        Expr::Block(b) => b.block.stmts.is_empty(),
        Expr::Array(a) => a.elems.iter().all(effect_free),
        _ => false,
    }
}
struct Uses<'a>(&'a str, usize);
impl<'a, 'b> Visit<'b> for Uses<'a> {
    fn visit_ident(&mut self, i: &'b Ident) {
        if i == self.0 {
            self.1 += 1;
        }
    }
    fn visit_macro(&mut self, m: &'b Macro) {
        if m.tokens.to_string().contains(self.0) {
            self.1 += 1;
        }
    }
}
fn noop_macro(m: &Macro) -> bool {
    let n = m.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
    matches!(n.as_str(), "debug" | "trace" | "info" | "warn" | "error" | "debug_assert" | "debug_assert_eq" | "debug_assert_ne")
}
/// `tracing::..` calls only write to the log
fn tracing_call(e: &Expr) -> bool {
    match e {
        Expr::MethodCall(m) => tracing_call(&m.receiver) && m.args.iter().all(effect_free),
        Expr::Call(c) => matches!(&*c.func, Expr::Path(p) if p.path.segments[0].ident == "tracing") && c.args.iter().all(effect_free),
        _ => false,
    }
}
impl VisitMut for Clean {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        // `while let Some(x) = it.next() {..}` with a local iterator: `for x in it {..}`
        if let Expr::While(w) = &*e {
            if let Expr::Let(l) = &*w.cond {
                if let (Pat::TupleStruct(t), Expr::MethodCall(m)) = (&*l.pat, &*l.expr) {
                    if t.path.is_ident("Some") && t.elems.len() == 1 && m.method == "next" && m.args.is_empty() && w.label.is_none() {
                        if let Expr::Path(it) = &*m.receiver {
                            if it.path.get_ident().map(|n| { let n = n.to_string(); let mut u = Uses(&n, 0); u.visit_block(&w.body); u.1 == 0 }).unwrap_or(false) {
                                let (p, r, b) = (&t.elems[0], &m.receiver, &w.body);
                                *e = parse_quote!(for #p in #r #b);
                            }
                        }
                    }
                }
            }
        }
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        visit_mut::visit_block_mut(self, b);
        let n = b.stmts.len();
        let stmts = std::mem::take(&mut b.stmts);
        let mut keep = vec![true; n];
        for (i, s) in stmts.iter().enumerate() {
            match s {
                Stmt::Local(l) => {
                    let init_free = l.init.as_ref().map(|x| x.diverge.is_none() && effect_free(&x.expr)).unwrap_or(false);
                    match &l.pat {
                        Pat::Wild(_) if init_free => keep[i] = false,
                        Pat::Ident(p) if init_free || l.init.is_none() => {
                            let name = p.ident.to_string();
                            let mut u = Uses(&name, 0);
                            for t in &stmts[i + 1..] {
                                u.visit_stmt(t);
                            }
                            if u.1 == 0 && init_free {
                                keep[i] = false;
                            }
                        }
                        _ => {}
                    }
                }
                Stmt::Expr(e, Some(_)) if effect_free(e) => keep[i] = false,
                Stmt::Expr(Expr::If(i_), _) if i + 1 < n || matches!(s, Stmt::Expr(_, Some(_))) => {
                    if let Expr::Lit(ExprLit { lit: Lit::Bool(b), .. }) = &*i_.cond {
                        if !b.value && i_.else_branch.is_none() {
                            keep[i] = false;
                        }
                    }
                    if effect_free(&i_.cond) && i_.then_branch.stmts.is_empty() && i_.else_branch.is_none() {
                        keep[i] = false;
                    }
                }
                Stmt::Expr(Expr::Block(bb), _) if bb.block.stmts.is_empty() && i + 1 < n && bb.label.is_none() => keep[i] = false,
                Stmt::Macro(m) if noop_macro(&m.mac) => keep[i] = false,
                Stmt::Expr(e, Some(_)) if tracing_call(e) => keep[i] = false,
                Stmt::Item(Item::Use(_)) => keep[i] = false,
                _ => {}
            }
        }
        b.stmts = stmts.into_iter().zip(keep).filter(|x| x.1).map(|x| x.0).collect();
    }
    fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) {
        a.clear();
    }
}

// ---------------------------------------------------------------- helpers

pub struct RenameIdent {
    pub map: BTreeMap<String, String>,
}
impl VisitMut for RenameIdent {
    fn visit_ident_mut(&mut self, i: &mut Ident) {
        if let Some(n) = self.map.get(&i.to_string()) {
            *i = ident(n);
        }
    }
    fn visit_expr_method_call_mut(&mut self, m: &mut ExprMethodCall) {
        self.visit_expr_mut(&mut m.receiver);
        for a in m.args.iter_mut() {
            self.visit_expr_mut(a)
        }
        if let Some(t) = &mut m.turbofish {
            self.visit_angle_bracketed_generic_arguments_mut(t)
        }
    }
    fn visit_member_mut(&mut self, _: &mut Member) {}
    fn visit_field_value_mut(&mut self, f: &mut FieldValue) {
        // shorthand `S { x }`
        if f.colon_token.is_none() {
            if let Expr::Path(p) = &f.expr {
                if let Some(id) = p.path.get_ident() {
                    if self.map.contains_key(&id.to_string()) {
                        f.colon_token = Some(Default::default());
                    }
                }
            }
        }
        self.visit_expr_mut(&mut f.expr);
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        m.tokens = rename_tokens(m.tokens.clone(), &self.map);
    }
}
pub fn rename_tokens(ts: proc_macro2::TokenStream, map: &BTreeMap<String, String>) -> proc_macro2::TokenStream {
    use proc_macro2::*;
    ts.into_iter()
        .map(|t| match t {
            TokenTree::Ident(i) => match map.get(&i.to_string()) {
                Some(n) => TokenTree::Ident(Ident::new(n, i.span())),
                None => TokenTree::Ident(i),
            },
            TokenTree::Group(g) => {
                let mut n = Group::new(g.delimiter(), rename_tokens(g.stream(), map));
                n.set_span(g.span());
                TokenTree::Group(n)
            }
            o => o,
        })
        .collect()
}

fn has_return(b: &Block) -> bool {
    struct V(bool);
    impl<'a> Visit<'a> for V {
        fn visit_expr_return(&mut self, _: &'a ExprReturn) {
            self.0 = true
        }
        fn visit_expr_try(&mut self, _: &'a ExprTry) {
            self.0 = true
        }
        fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
        fn visit_macro(&mut self, m: &'a Macro) {
            if m.tokens.to_string().contains("return") {
                self.0 = true
            }
        }
    }
    let mut v = V(false);
    v.visit_block(b);
    v.0
}

/// `if c { ..; return x; } rest` -> `if c { ..; x } else { rest }` (in tail position)
pub fn early_returns(b: &mut Block) {
    let pos = b.stmts.iter().position(|s| match s {
        Stmt::Expr(Expr::If(i), _) => i.else_branch.is_none() && !matches!(&*i.cond, Expr::Let(_)) && matches!(i.then_branch.stmts.last(), Some(Stmt::Expr(Expr::Return(_), _))),
        _ => false,
    });
    if let Some(k) = pos {
        let rest: Vec<Stmt> = b.stmts.drain(k + 1..).collect();
        let Some(Stmt::Expr(Expr::If(mut i), _)) = b.stmts.pop() else { unreachable!() };
        let Some(Stmt::Expr(Expr::Return(r), _)) = i.then_branch.stmts.pop() else { unreachable!() };
        if let Some(x) = r.expr {
            i.then_branch.stmts.push(Stmt::Expr(*x, None));
        }
        let mut rb = Block { brace_token: Default::default(), stmts: rest };
        early_returns(&mut rb);
        i.else_branch = Some((Default::default(), Box::new(Expr::Block(ExprBlock { attrs: vec![], label: None, block: rb }))));
        b.stmts.push(Stmt::Expr(Expr::If(i), None));
    } else if let Some(Stmt::Expr(Expr::Return(r), _)) = b.stmts.last() {
        let r = r.clone();
        b.stmts.pop();
        if let Some(x) = r.expr {
            b.stmts.push(Stmt::Expr(*x, None));
        }
    }
}

/// a type parameter that stands for a closure
fn is_fn_param(gs: &Generics, g: &GenericParam) -> bool {
    let GenericParam::Type(t) = g else { return false };
    let isfn = |b: &TypeParamBound| matches!(b, TypeParamBound::Trait(t) if matches!(t.path.segments.last().unwrap().ident.to_string().as_str(), "Fn" | "FnMut" | "FnOnce"));
    if t.bounds.iter().any(isfn) {
        return true;
    }
    gs.where_clause.iter().flat_map(|w| w.predicates.iter()).any(|p| matches!(p, WherePredicate::Type(pt) if matches!(&pt.bounded_ty, Type::Path(q) if q.path.is_ident(&t.ident)) && pt.bounds.iter().any(isfn)))
}

/// `let f = |a, b| body;` whose name is only ever called: the calls become the body
pub struct LocalClosures(pub usize);
impl VisitMut for LocalClosures {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut i = 0;
        while i < b.stmts.len() {
            let hit = match &b.stmts[i] {
                Stmt::Local(Local { pat: Pat::Ident(p), init: Some(LocalInit { expr, diverge: None, .. }), .. }) => match &**expr {
                    Expr::Closure(c) => Some((p.ident.to_string(), c.clone())),
                    _ => None,
                },
                _ => None,
            };
            if let Some((name, c)) = hit {
                if self.reduce(&name, &c, &mut b.stmts[i + 1..]) {
                    b.stmts.remove(i);
                    continue;
                }
            }
            i += 1;
        }
        visit_mut::visit_block_mut(self, b);
    }
}
impl LocalClosures {
    fn reduce(&mut self, name: &str, c: &ExprClosure, rest: &mut [Stmt]) -> bool {
        // every mention is a call
        struct Calls<'a>(&'a str, usize);
        impl<'a, 'b> Visit<'b> for Calls<'a> {
            fn visit_expr_call(&mut self, c: &'b ExprCall) {
                if matches!(&*c.func, Expr::Path(p) if p.path.is_ident(self.0)) {
                    self.1 += 1;
                }
                visit::visit_expr_call(self, c)
            }
        }
        let mut n = Calls(name, 0);
        let mut u = Uses(name, 0);
        for s in rest.iter() {
            n.visit_stmt(s);
            u.visit_stmt(s);
        }
        if n.1 == 0 || n.1 != u.1 {
            return false;
        }
        let mut block = match &*c.body {
            Expr::Block(b) if b.label.is_none() => b.block.clone(),
            e => Block { brace_token: Default::default(), stmts: vec![Stmt::Expr(e.clone(), None)] },
        };
        early_returns(&mut block);
        if has_return(&block) {
            return false;
        }
        // names of the body must mean the same at the calls
        struct Binds(BTreeSet<String>);
        impl<'b> Visit<'b> for Binds {
            fn visit_pat_ident(&mut self, p: &'b PatIdent) {
                let n = p.ident.to_string();
                if n.chars().next().map(|c| c.is_lowercase() || c == '_').unwrap_or(false) {
                    self.0.insert(n);
                }
                visit::visit_pat_ident(self, p)
            }
        }
        let mut own = Binds(BTreeSet::new());
        own.visit_block(&block);
        for p in &c.inputs {
            own.visit_pat(p);
        }
        let mut later = Binds(BTreeSet::new());
        for s in rest.iter() {
            later.visit_stmt(s);
        }
        for l in &later.0 {
            let mut u = Uses(l, 0);
            u.visit_block(&block);
            if u.1 > 0 && !own.0.contains(l) {
                return false;
            }
        }
        struct Sub<'a>(&'a str, &'a ExprClosure, &'a Block, &'a BTreeSet<String>, &'a mut usize, bool);
        impl<'a> VisitMut for Sub<'a> {
            fn visit_expr_mut(&mut self, e: &mut Expr) {
                visit_mut::visit_expr_mut(self, e);
                let Expr::Call(k) = e else { return };
                if !matches!(&*k.func, Expr::Path(p) if p.path.is_ident(self.0)) {
                    return;
                }
                if k.args.len() != self.1.inputs.len() {
                    self.5 = false;
                    return;
                }
                *self.4 += 1;
                let n = *self.4;
                let mut rn = RenameIdent { map: self.3.iter().map(|x| (x.clone(), format!("{x}__c{n}"))).collect() };
                let mut body = self.2.clone();
                rn.visit_block_mut(&mut body);
                let mut st: Vec<Stmt> = vec![];
                for (p, a) in self.1.inputs.iter().zip(k.args.iter()) {
                    let mut p = p.clone();
                    match &mut p {
                        Pat::Type(t) => {
                            rn.visit_pat_mut(&mut t.pat);
                            let (pp, ty) = (&t.pat, &t.ty);
                            st.push(parse_quote!(let #pp: #ty = #a;));
                        }
                        p => {
                            rn.visit_pat_mut(p);
                            st.push(parse_quote!(let #p = #a;));
                        }
                    }
                }
                st.extend(body.stmts);
                *e = Expr::Block(ExprBlock { attrs: vec![], label: None, block: Block { brace_token: Default::default(), stmts: st } });
            }
            fn visit_macro_mut(&mut self, m: &mut Macro) {
                if m.tokens.to_string().contains(self.0) {
                    self.5 = false;
                }
            }
        }
        let mut copy: Vec<Stmt> = rest.to_vec();
        let mut sub = Sub(name, c, &block, &own.0, &mut self.0, true);
        for s in copy.iter_mut() {
            sub.visit_stmt_mut(s);
        }
        if !sub.5 {
            return false;
        }
        for (a, b) in rest.iter_mut().zip(copy) {
            *a = b;
        }
        true
    }
}

/// Beta-reduces calls of crate functions that carry no contract of their own.
pub struct Inliner<'a> {
    pub src: &'a Sources,
    pub contracted: &'a BTreeSet<String>,
    pub self_ty: Option<String>,
    pub depth: usize,
    pub counter: &'a mut usize,
    pub inlined: &'a mut Vec<String>,
    pub noinline: &'a Vec<String>,
    pub file: String,
    /// parameters and their types, as far as they are plain names
    pub vars: BTreeMap<String, String>,
}
impl<'a> Inliner<'a> {
    /// the type of a place: `self`, a parameter, a field of one of them
    fn type_of(&self, e: &Expr) -> Option<String> {
        match e {
            Expr::Paren(p) => self.type_of(&p.expr),
            Expr::Path(p) if p.path.is_ident("self") => self.self_ty.clone(),
            Expr::Path(p) => self.vars.get(&p.path.get_ident()?.to_string()).cloned(),
            Expr::Field(f) => {
                let (t, Member::Named(n)) = (self.type_of(&f.base)?, &f.member) else { return None };
                let mut c = self.src.types.iter().filter(|(file, _)| !file.starts_with("registry:")).filter_map(|(_, i)| match i {
                    Item::Struct(s) if s.ident == t => Some(s),
                    _ => None,
                });
                let s = c.next()?;
                if c.next().is_some() {
                    return None;
                }
                s.fields.iter().find(|f| f.ident.as_ref() == Some(n)).and_then(|f| crate::source::type_name(&f.ty))
            }
            _ => None,
        }
    }
    fn candidate(&self, ty: Option<&str>, name: &str) -> Option<&'a SrcFn> {
        let key = match ty {
            Some(t) => format!("{t}::{name}"),
            None => name.to_string(),
        };
        if self.contracted.contains(&key) || self.noinline.iter().any(|n| *n == key) {
            return None;
        }
        let c: Vec<&SrcFn> = self.src.fns.iter().filter(|f| !f.file.starts_with("registry:") && f.path() == key).collect();
        let f = match c.len() {
            0 => return None,
            1 => c[0],
            _ => *c.iter().find(|f| f.file == self.file)?,
        };
        let mut fb = f.block.clone();
        early_returns(&mut fb);
        if has_return(&fb) || !f.sig.generics.params.iter().all(|g| matches!(g, GenericParam::Lifetime(_)) || is_fn_param(&f.sig.generics, g)) || f.sig.asyncness.is_some() {
            return None;
        }
        Some(f)
    }
    fn build(&mut self, f: &SrcFn, recv: Option<Expr>, args: Vec<Expr>) -> Option<Expr> {
        if self.depth > 3 {
            return None;
        }
        let mut map = BTreeMap::new();
        let mut lets: Vec<Stmt> = vec![];
        let mut params: Vec<(Pat, Option<Type>)> = vec![];
        let mut block = f.block.clone();
        Clean.visit_block_mut(&mut block);
        let mut fsig = f.sig.clone();
        if let Some(mut sw) = Swc::new(self.src) {
            sw.visit_block_mut(&mut block);
            sw.visit_signature_mut(&mut fsig);
        }
        early_returns(&mut block);
        let mut inputs = fsig.inputs.iter();
        if matches!(f.sig.inputs.first(), Some(FnArg::Receiver(_))) {
            inputs.next();
            match &recv {
                Some(Expr::Path(p)) if p.path.is_ident("self") => {}
                Some(r) => {
                    // only for `&self` receivers: bind a fresh name to the place
                    let r2: Expr = r.clone();
                    if !matches!(r2, Expr::Path(_) | Expr::Field(_)) {
                        return None;
                    }
                    struct S(Expr);
                    impl VisitMut for S {
                        fn visit_expr_mut(&mut self, e: &mut Expr) {
                            if let Expr::Path(p) = e {
                                if p.path.is_ident("self") {
                                    *e = self.0.clone();
                                    return;
                                }
                            }
                            visit_mut::visit_expr_mut(self, e)
                        }
                    }
                    S(r2).visit_block_mut(&mut block);
                }
                None => return None,
            }
        } else if recv.is_some() {
            return None;
        }
        for a in inputs {
            if let FnArg::Typed(t) = a {
                params.push(((*t.pat).clone(), Some((*t.ty).clone())));
            }
        }
        if params.len() != args.len() {
            return None;
        }
        // fresh names for parameters and for every let-bound name of the body
        struct Binds(BTreeSet<String>);
        impl<'b> Visit<'b> for Binds {
            fn visit_pat_ident(&mut self, p: &'b PatIdent) {
                let n = p.ident.to_string();
                if n.chars().next().map(|c| c.is_lowercase() || c == '_').unwrap_or(false) {
                    self.0.insert(n);
                }
                visit::visit_pat_ident(self, p)
            }
        }
        let mut b = Binds(BTreeSet::new());
        b.visit_block(&block);
        for (p, _) in &params {
            b.visit_pat(p);
        }
        *self.counter += 1;
        let k = *self.counter;
        for n in b.0 {
            map.insert(n.clone(), format!("{n}__h{k}"));
        }
        let mut rn = RenameIdent { map };
        rn.visit_block_mut(&mut block);
        for ((mut p, t), a) in params.into_iter().zip(args) {
            rn.visit_pat_mut(&mut p);
            if let (Pat::Ident(i), Some(n)) = (&p, t.as_ref().and_then(crate::source::type_name)) {
                self.vars.insert(i.ident.to_string(), n);
            }
            let t = t.filter(|t| !quote!(#t).to_string().contains("impl") && !quote!(#t).to_string().contains("Self") && !f.sig.generics.type_params().any(|g| mentions(t, &g.ident)));
            let coerce = matches!(&a, Expr::Reference(r) if r.mutability.is_none() && matches!(&*r.expr, Expr::Field(_)));
            let st: Stmt = match t {
                Some(t) if quote!(#t).to_string() == "& str" && coerce => parse_quote!(let #p: #t = vx_str(#a);),
                Some(t) => parse_quote!(let #p: #t = #a;),
                None => parse_quote!(let #p = #a;),
            };
            lets.push(st);
        }
        lets.extend(block.stmts);
        self.inlined.push(f.path());
        let nb = Block { brace_token: Default::default(), stmts: lets };
        let mut e = Expr::Block(ExprBlock { attrs: vec![], label: None, block: nb });
        self.depth += 1;
        let own = self.self_ty.clone();
        if let (Some(_), Some(t)) = (&recv, f.type_name()) {
            if own.as_ref() != Some(&t) {
                RenameIdent { map: [("Self".to_string(), t)].into_iter().collect() }.visit_expr_mut(&mut e);
            }
        }
        self.visit_expr_mut(&mut e);
        self.depth -= 1;
        Some(e)
    }
}
impl<'a> VisitMut for Inliner<'a> {
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        if m.path.is_ident("vec") {
            if let Ok(mut args) = m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated) {
                for a in args.iter_mut() {
                    self.visit_expr_mut(a);
                }
                m.tokens = args.to_token_stream();
            }
        }
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let new = match e {
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    let args: Vec<Expr> = c.args.iter().cloned().collect();
                    let (ty, name) = match segs.len() {
                        1 => (None, segs[0].clone()),
                        n => {
                            let t = &segs[n - 2];
                            if t == "Self" {
                                (self.self_ty.clone(), segs[n - 1].clone())
                            } else if t.chars().next().unwrap().is_uppercase() {
                                (Some(t.clone()), segs[n - 1].clone())
                            } else {
                                (None, segs[n - 1].clone())
                            }
                        }
                    };
                    match self.candidate(ty.as_deref(), &name) {
                        Some(f) => self.build(f, None, args),
                        None => None,
                    }
                } else {
                    None
                }
            }
            Expr::MethodCall(m) => {
                let is_self = matches!(&*m.receiver, Expr::Path(p) if p.path.is_ident("self"));
                if is_self {
                    let args: Vec<Expr> = m.args.iter().cloned().collect();
                    let name = m.method.to_string();
                    match self.candidate(self.self_ty.clone().as_deref(), &name) {
                        Some(f) => self.build(f, Some((*m.receiver).clone()), args),
                        None => None,
                    }
                } else if let Some(t) = self.type_of(&m.receiver) {
                    let args: Vec<Expr> = m.args.iter().cloned().collect();
                    match self.candidate(Some(&t), &m.method.to_string()) {
                        Some(f) => self.build(f, Some((*m.receiver).clone()), args),
                        None => None,
                    }
                } else {
                    None
                }
            }
            _ => None,
        };
        if let Some(n) = new {
            *e = n;
        }
    }
}

// ---------------------------------------------------------------- swc sources

/// module paths, lazy statics and conversion traits of the instrumenter's sources
pub struct Swc<'a> {
    pub lazies: &'a BTreeSet<String>,
    /// statics that are not written in the sources (build script)
    pub statics: BTreeSet<String>,
}
impl<'a> Swc<'a> {
    pub fn new(src: &'a Sources) -> Option<Swc<'a>> {
        src.files.keys().any(|k| k.starts_with("registry:swc")).then(|| Swc { lazies: &src.lazies, statics: ["COVERAGE_MAGIC_KEY", "COVERAGE_MAGIC_VALUE"].iter().map(|s| s.to_string()).collect() })
    }
    /// `quote!("text" as T, a = x, ...)`: a template, its variables numbered in the order of their first use
    fn template(&self, m: &Macro) -> Option<Expr> {
        let args: punctuated::Punctuated<Expr, Token![,]> = m.parse_body_with(punctuated::Punctuated::parse_terminated).ok()?;
        let mut it = args.into_iter();
        let Some(Expr::Cast(c)) = it.next() else { return None };
        let Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) = &*c.expr else { return None };
        let mut given: Vec<(String, Expr)> = vec![];
        for a in it {
            let Expr::Assign(a) = a else { return None };
            given.push((a.left.to_token_stream().to_string(), *a.right));
        }
        let t = s.value();
        let mut out = String::new();
        let mut order: Vec<String> = vec![];
        let mut cs = t.chars().peekable();
        while let Some(c) = cs.next() {
            if c == '$' {
                let mut n = String::new();
                while let Some(d) = cs.peek() {
                    if d.is_alphanumeric() || *d == '_' {
                        n.push(*d);
                        cs.next();
                    } else {
                        break;
                    }
                }
                let k = match order.iter().position(|x| *x == n) {
                    Some(k) => k,
                    None => {
                        order.push(n);
                        order.len() - 1
                    }
                };
                out.push_str(&format!("${k}"));
            } else if c.is_whitespace() {
                if !out.ends_with(' ') {
                    out.push(' ');
                }
            } else {
                out.push(c);
            }
        }
        let out = out.trim().trim_end_matches(';').trim().to_string();
        // the arguments are evaluated in the order they are written in
        let (mut st, mut names): (Vec<Stmt>, Vec<(String, Ident)>) = (vec![], vec![]);
        for (n, x) in given {
            let v = format_ident!("__vx_q{}", names.len());
            st.push(parse_quote!(let #v = #x;));
            names.push((n, v));
        }
        if names.len() != order.len() {
            return None;
        }
        let acc = format_ident!("__vx_qs");
        st.push(parse_quote!(let mut #acc = Vec::new();));
        for o in order {
            let v = &names.iter().find(|x| x.0 == o)?.1;
            st.push(parse_quote!(#acc.push(#v);));
        }
        let f = match c.ty.to_token_stream().to_string().as_str() {
            "Stmt" => ident("vx_quote_stmt"),
            "Expr" => ident("vx_quote_expr"),
            _ => return None,
        };
        Some(pe(quote!({ #(#st)* #f(#out, #acc) })))
    }
    fn lazy(&self, e: &Expr) -> Option<Ident> {
        let Expr::Path(p) = e else { return None };
        let l = &p.path.segments.last()?.ident;
        if self.lazies.contains(&l.to_string()) || self.statics.contains(&l.to_string()) {
            Some(l.clone())
        } else {
            None
        }
    }
}
impl<'a> VisitMut for Swc<'a> {
    fn visit_trait_bound_mut(&mut self, t: &mut TraitBound) {
        if t.path.segments[0].ident == "swc_core" {
            let l = t.path.segments.last().unwrap().clone();
            t.path = parse_quote!(#l);
        }
        visit_mut::visit_trait_bound_mut(self, t);
    }
    fn visit_path_mut(&mut self, p: &mut Path) {
        visit_mut::visit_path_mut(self, p);
        let segs: Vec<PathSegment> = p.segments.iter().cloned().collect();
        let n = segs.len();
        if n < 2 {
            return;
        }
        let first = segs[0].ident.to_string();
        let up = |s: &PathSegment| s.ident.to_string().chars().next().map(|c| c.is_uppercase()).unwrap_or(false);
        let std = first == "std" && matches!(segs[1].ident.to_string().as_str(), "rc" | "sync" | "cell");
        if std || matches!(first.as_str(), "crate" | "super" | "istanbul_oxide" | "swc_core") {
            let keep = if n >= 3 && up(&segs[n - 2]) { 2 } else { 1 };
            let tail = &segs[n - keep..];
            *p = match first.as_str() {
                "std" => parse_quote!(#(#tail)::*),
                "istanbul_oxide" => parse_quote!(crate::#(#tail)::*),
                "swc_core" if up(&tail[0]) => parse_quote!(crate::ast::#(#tail)::*),
                _ => parse_quote!(#(#tail)::*),
            };
        }
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Unary(u) = e {
            if let (UnOp::Deref(_), Some(i)) = (&u.op, self.lazy(&u.expr)) {
                *e = pe(quote!(#i()));
                return;
            }
        }
        if let Some(i) = self.lazy(e) {
            *e = pe(quote!(#i()));
            return;
        }
        if let Expr::Macro(m) = &*e {
            if m.mac.path.segments.last().unwrap().ident == "quote" {
                if let Some(n) = self.template(&m.mac) {
                    *e = n;
                }
            }
        }
        if let Expr::Macro(m) = &*e {
            // swc_ecma_utils::quote_ident!, as its definition reads
            if m.mac.path.segments.last().unwrap().ident == "quote_ident" {
                if let Ok(a) = m.mac.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated) {
                    let a: Vec<Expr> = a.into_iter().collect();
                    match a.as_slice() {
                        [s] => *e = pe(quote!(IdentName::new(#s.into(), DUMMY_SP))),
                        [c, s] => *e = pe(quote!(Ident::new(#s.into(), DUMMY_SP, #c))),
                        [c, p, s] => *e = pe(quote!(Ident::new(#s.into(), #p, #c))),
                        _ => {}
                    }
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
        match e {
            Expr::MethodCall(m) if m.args.is_empty() && matches!(m.method.to_string().as_str(), "into" | "to_string" | "trim" | "as_deref") => {
                m.method = format_ident!("vx_{}", m.method);
            }
            Expr::Call(c) if c.args.len() == 1 => {
                if let Expr::Path(p) = &*c.func {
                    let n = p.path.segments.len();
                    if n == 2 && p.path.segments[1].ident == "from" && p.path.segments[0].ident != "Self" {
                        let t = &p.path.segments[0];
                        let mut a = c.args[0].clone();
                        if let Expr::MethodCall(m) = &mut a {
                            if m.method == "as_ref" && m.args.is_empty() {
                                m.method = ident("vx_as_str");
                            }
                        }
                        *e = pe(quote!(vx_from::<#t, _>(#a)));
                    }
                }
            }
            _ => {}
        }
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        // the arguments of vec!, format! and matches! are expressions as well
        if let Ok(mut args) = m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated) {
            for a in args.iter_mut() {
                self.visit_expr_mut(a);
            }
            m.tokens = args.to_token_stream();
        }
    }
}

// ---------------------------------------------------------------- expression desugaring

pub struct Desugar {
    pub n: usize,
    pub errs: Vec<String>,
    pub float: bool,
    /// instrumenter sources: combinators of Option, matches on text
    pub swc: bool,
}

fn closure1(e: &Expr) -> Option<(Pat, Expr)> {
    if let Expr::Closure(c) = e {
        if c.inputs.len() == 1 {
            let p = match &c.inputs[0] {
                Pat::Type(t) => (*t.pat).clone(),
                p => p.clone(),
            };
            return Some((p, (*c.body).clone()));
        }
    }
    None
}

/// `let <pat> = &<x>` / `let <pat> = <x>` with reference patterns resolved
fn bind(pat: &Pat, by_ref: bool, x: &Ident) -> Vec<Stmt> {
    match pat {
        Pat::Reference(r) if by_ref => bind(&r.pat, false, x),
        Pat::Reference(r) => {
            let inner = &r.pat;
            vec![parse_quote!(let #inner = *#x;)]
        }
        Pat::Wild(_) => vec![],
        Pat::Paren(p) => bind(&p.pat, by_ref, x),
        p if by_ref => vec![parse_quote!(let #p = &#x;)],
        Pat::Tuple(t) if t.elems.iter().any(|e| matches!(e, Pat::Reference(_) | Pat::Tuple(_))) => {
            let mut names: Vec<Pat> = vec![];
            let mut post = vec![];
            for (i, e) in t.elems.iter().enumerate() {
                match e {
                    Pat::Reference(_) | Pat::Tuple(_) => {
                        let n = format_ident!("{}_{}", x, i);
                        names.push(parse_quote!(#n));
                        post.extend(bind(e, false, &n));
                    }
                    e => names.push(e.clone()),
                }
            }
            let mut v: Vec<Stmt> = vec![parse_quote!(let (#(#names),*) = #x;)];
            v.extend(post);
            v
        }
        p => vec![parse_quote!(let #p = #x;)],
    }
}

impl Desugar {
    fn fresh(&mut self, p: &str) -> Ident {
        self.n += 1;
        format_ident!("__vx_{}{}", p, self.n)
    }
    /// chains  SRC.(filter|map)*.(count|collect|for_each|any|all|sum)
    fn chain(&mut self, e: &Expr) -> Option<Expr> {
        let Expr::MethodCall(m) = e else { return None };
        let term = m.method.to_string();
        if !matches!(term.as_str(), "count" | "collect" | "for_each" | "any" | "all" | "sum" | "find" | "find_map") {
            return None;
        }
        let mut adapters: Vec<(String, Option<Expr>)> = vec![];
        let mut cur: &Expr = &m.receiver;
        loop {
            match cur {
                Expr::MethodCall(mm) => {
                    let n = mm.method.to_string();
                    match n.as_str() {
                        "filter" | "map" | "take_while" => {
                            closure1(&mm.args[0])?;
                            adapters.push((n, Some(mm.args[0].clone())));
                            cur = &mm.receiver;
                        }
                        "copied" | "cloned" => {
                            adapters.push((n, None));
                            cur = &mm.receiver;
                        }
                        "iter" | "values" | "keys" | "into_iter" | "enumerate" | "iter_mut" | "values_mut" | "drain" | "into_values" | "into_keys" => break,
                        _ => return None,
                    }
                }
                Expr::Paren(p) => cur = &p.expr,
                Expr::Range(_) => break,
                _ => return None,
            }
        }
        if term == "collect" && adapters.is_empty() {
            return None;
        }
        if term == "count" && adapters.is_empty() {
            return None;
        }
        adapters.reverse();
        let mut src = cur.clone();
        // a temporary that is iterated over lives as long as the loop
        let mut hoist: Option<Stmt> = None;
        if let Expr::MethodCall(mm) = &mut src {
            if matches!(&*mm.receiver, Expr::Macro(_)) && (mm.method == "iter" || mm.method == "iter_mut") {
                let h = self.fresh("src");
                let r = &mm.receiver;
                hoist = Some(parse_quote!(let mut #h = #r;));
                mm.receiver = Box::new(pe(quote!(#h)));
            }
        }
        let x0 = self.fresh("x");
        let mut x = x0.clone();
        // build from inside out
        let acc = format_ident!("acc");
        let mut lets: Vec<(Vec<Stmt>, Option<Expr>)> = vec![]; // statements, then optional guard
        for (k, c) in &adapters {
            match k.as_str() {
                "take_while" => {
                    let (p, b) = closure1(c.as_ref().unwrap())?;
                    let mut s = bind(&p, true, &x);
                    s.push(parse_quote!(if !(#b) { break; }));
                    lets.push((s, None));
                }
                "filter" => {
                    let (p, b) = closure1(c.as_ref().unwrap())?;
                    lets.push((bind(&p, true, &x), Some(b)));
                }
                "map" => {
                    let (p, b) = closure1(c.as_ref().unwrap())?;
                    let y = self.fresh("y");
                    let mut s = bind(&p, false, &x);
                    s.push(parse_quote!(let #y = #b;));
                    lets.push((s, None));
                    x = y;
                }
                "copied" => {
                    let y = self.fresh("y");
                    lets.push((vec![parse_quote!(let #y = *#x;)], None));
                    x = y;
                }
                "cloned" => {
                    let y = self.fresh("y");
                    lets.push((vec![parse_quote!(let #y = #x.clone();)], None));
                    x = y;
                }
                _ => return None,
            }
        }
        let (init, body, fin): (Option<Expr>, Vec<Stmt>, Option<Expr>) = match term.as_str() {
            "count" => (Some(pe(quote!(0usize))), vec![parse_quote!(#acc = #acc + 1;)], Some(pe(quote!(#acc)))),
            "sum" => (Some(pe(quote!(0))), vec![parse_quote!(#acc = #acc + #x;)], Some(pe(quote!(#acc)))),
            "collect" => (Some(pe(quote!(Vec::new()))), vec![parse_quote!(#acc.push(#x);)], Some(pe(quote!(#acc)))),
            "any" => {
                let (p, b) = closure1(&m.args[0])?;
                let mut s = bind(&p, false, &x);
                s.push(parse_quote!(if #b { #acc = true; }));
                (Some(pe(quote!(false))), s, Some(pe(quote!(#acc))))
            }
            "all" => {
                let (p, b) = closure1(&m.args[0])?;
                let mut s = bind(&p, false, &x);
                s.push(parse_quote!(if !(#b) { #acc = false; }));
                (Some(pe(quote!(true))), s, Some(pe(quote!(#acc))))
            }
            "find_map" => {
                let (p, b) = closure1(&m.args[0])?;
                let mut s = bind(&p, false, &x);
                s.push(parse_quote!(if #acc.is_none() { #acc = #b; }));
                (Some(pe(quote!(None))), s, Some(pe(quote!(#acc))))
            }
            "find" => {
                let (p, b) = closure1(&m.args[0])?;
                let mut s = bind(&p, true, &x);
                s.push(parse_quote!(if #acc.is_none() && #b { #acc = Some(#x); }));
                (Some(pe(quote!(None))), s, Some(pe(quote!(#acc))))
            }
            "for_each" => {
                let (p, b) = closure1(&m.args[0])?;
                let mut s = bind(&p, false, &x);
                match b {
                    Expr::Block(b) => s.extend(b.block.stmts),
                    b => s.push(Stmt::Expr(b, Some(Default::default()))),
                }
                (None, s, None)
            }
            _ => return None,
        };
        let mut body = body;
        for (s, g) in lets.into_iter().rev() {
            let mut ns = s;
            match g {
                Some(g) => {
                    let bb = body;
                    ns.push(parse_quote!(if #g { #(#bb)* }));
                }
                None => ns.extend(body),
            }
            body = ns;
        }
        // when a for_each has the simplest shape keep the closure's own pattern
        let (pat, body): (Pat, Vec<Stmt>) = match body.first() {
            Some(Stmt::Local(l)) if l.init.as_ref().map(|i| i.expr.to_token_stream().to_string() == x0.to_string()).unwrap_or(false)
                && !body[1..].iter().any(|s| mentions(s, &x0)) => (l.pat.clone(), body[1..].to_vec()),
            _ => (parse_quote!(#x0), body),
        };
        Some(match init {
            Some(i) => pe(quote!({ #hoist let mut #acc = #i; for #pat in #src { #(#body)* } #fin })),
            None => pe(quote!({ #hoist for #pat in #src { #(#body)* } })),
        })
    }
    fn entry(&mut self, e: &Expr) -> Option<Expr> {
        let mut mods: Vec<(Pat, Expr)> = vec![];
        let Expr::MethodCall(m) = e else { return None };
        let term = m.method.to_string();
        let orv: Option<Expr> = match term.as_str() {
            "or_insert" => Some(m.args[0].clone()),
            "or_default" => Some(pe(quote!(Default::default()))),
            "or_insert_with" => match &m.args[0] {
                Expr::Closure(c) if c.inputs.is_empty() => Some((*c.body).clone()),
                Expr::Path(p) => Some(pe(quote!(#p()))),
                _ => return None,
            },
            "and_modify" => {
                mods.push(closure1(&m.args[0])?);
                None
            }
            _ => return None,
        };
        let mut cur = &*m.receiver;
        loop {
            let Expr::MethodCall(mm) = cur else { return None };
            if mm.method == "and_modify" {
                mods.push(closure1(&mm.args[0])?);
                cur = &mm.receiver;
            } else if mm.method == "entry" {
                let map = &*mm.receiver;
                let key = &mm.args[0];
                mods.reverse();
                let k = self.fresh("k");
                if mods.is_empty() {
                    let v = orv?;
                    return Some(pe(quote!(#map.vx_entry_or_insert(#key, #v))));
                }
                let mut body: Vec<Stmt> = vec![];
                for (p, b) in mods {
                    let g = self.fresh("g");
                    let mut inner: Vec<Stmt> = vec![parse_quote!(let #g = #map.vx_get_mut(&#k);)];
                    inner.extend(bind(&p, false, &g));
                    match b {
                        Expr::Block(b) => inner.extend(b.block.stmts),
                        b => inner.push(Stmt::Expr(b, Some(Default::default()))),
                    }
                    body.push(parse_quote!({ #(#inner)* }));
                }
                let els: Option<Stmt> = orv.map(|v| parse_quote!(let __vx_old = #map.insert(#k, #v);));
                return Some(match els {
                    Some(els) => pe(quote!({ let #k = #key; if #map.contains_key(&#k) { #(#body)* } else { #els } })),
                    None => pe(quote!({ let #k = #key; if #map.contains_key(&#k) { #(#body)* } })),
                });
            } else {
                return None;
            }
        }
    }
    /// `MAP.retain(|k, v| BODY)` -> take everything out, put back what BODY accepts
    fn retain(&mut self, e: &Expr) -> Option<Expr> {
        let Expr::MethodCall(m) = e else { return None };
        if m.method != "retain" || m.args.len() != 1 {
            return None;
        }
        let Expr::Closure(c) = &m.args[0] else { return None };
        if c.inputs.len() != 2 || has_return(&pb({ let b = &c.body; quote!(#b) })) {
            return None;
        }
        let map = &m.receiver;
        let (src, x, k, v, keep) = (self.fresh("src"), self.fresh("x"), self.fresh("k"), self.fresh("v"), self.fresh("keep"));
        let mut st: Vec<Stmt> = vec![];
        for (p, x) in c.inputs.iter().zip([&k, &v]) {
            let p = if let Pat::Type(t) = p { (*t.pat).clone() } else { p.clone() };
            st.extend(bind(&p, true, x));
        }
        let body = &c.body;
        Some(pe(quote!({ let #src = #map.vx_take(); for #x in #src { let (#k, #v) = #x; #(#st)* let #keep: bool = #body; if #keep { #map.insert(#k, #v); } } })))
    }
    /// combinators of Option with a closure, written out as a match
    fn option(&mut self, e: &Expr) -> Option<Expr> {
        let Expr::MethodCall(m) = e else { return None };
        let o = &m.receiver;
        let name = m.method.to_string();
        let x = self.fresh("o");
        let f = |a: &Expr, x: &Ident, by_ref: bool| -> Option<(Vec<Stmt>, Expr)> {
            let (p, b) = closure1(a)?;
            if has_return(&pb(quote!(#b))) {
                return None;
            }
            Some((bind(&p, by_ref, x), b))
        };
        Some(match (name.as_str(), m.args.len()) {
            ("map", 1) => {
                let (s, b) = f(&m.args[0], &x, false)?;
                pe(quote!(match #o { Some(#x) => { #(#s)* Some(#b) }, None => None }))
            }
            ("and_then", 1) => {
                let (s, b) = f(&m.args[0], &x, false)?;
                pe(quote!(match #o { Some(#x) => { #(#s)* #b }, None => None }))
            }
            ("is_some_and", 1) => {
                let (s, b) = f(&m.args[0], &x, false)?;
                pe(quote!(match #o { Some(#x) => { #(#s)* #b }, None => false }))
            }
            ("map_or", 2) => {
                let (s, b) = f(&m.args[1], &x, false)?;
                let d = &m.args[0];
                pe(quote!(match #o { Some(#x) => { #(#s)* #b }, None => #d }))
            }
            ("filter", 1) => {
                let (s, b) = f(&m.args[0], &x, true)?;
                pe(quote!(match #o { Some(#x) => { #(#s)* if #b { Some(#x) } else { None } }, None => None }))
            }
            ("or_else" | "unwrap_or_else", 1) => {
                let Expr::Closure(c) = &m.args[0] else { return None };
                if !c.inputs.is_empty() {
                    return None;
                }
                let b = &c.body;
                if name == "or_else" {
                    pe(quote!(match #o { Some(#x) => Some(#x), None => #b }))
                } else {
                    pe(quote!(match #o { Some(#x) => #x, None => #b }))
                }
            }
            ("flatten", 0) => pe(quote!(match #o { Some(#x) => #x, None => None })),
            ("unwrap_or", 1) if matches!(&m.args[0], Expr::Lit(_)) => {
                let d = &m.args[0];
                pe(quote!(match #o { Some(#x) => #x, None => #d }))
            }
            _ => return None,
        })
    }
    /// `match x { "a" => .., _ => .. }`
    fn text_match(&mut self, e: &Expr) -> Option<Expr> {
        let Expr::Match(m) = e else { return None };
        fn lits(p: &Pat) -> Option<Vec<ExprLit>> {
            match p {
                Pat::Lit(l) if matches!(l.lit, Lit::Str(_)) => Some(vec![l.clone()]),
                Pat::Or(o) => o.cases.iter().map(lits).collect::<Option<Vec<_>>>().map(|v| v.concat()),
                Pat::Paren(p) => lits(&p.pat),
                _ => None,
            }
        }
        if let Some(r) = self.text_option_match(m) {
            return Some(r);
        }
        if !m.arms.iter().any(|a| lits(&a.pat).is_some()) {
            return None;
        }
        let x = self.fresh("t");
        let mut out: Option<Expr> = None;
        for a in m.arms.iter().rev() {
            if a.guard.is_some() {
                return None;
            }
            let b = &a.body;
            match (&a.pat, lits(&a.pat)) {
                (_, Some(ls)) => {
                    let els = out?;
                    out = Some(pe(quote!(if #(vx_text_eq(#x, #ls))||* { #b } else { #els })));
                }
                (Pat::Wild(_), None) => out = Some(b.as_ref().clone()),
                (Pat::Ident(i), None) if i.subpat.is_none() => out = Some(pe(quote!({ let #i = #x; #b }))),
                _ => return None,
            }
        }
        let (o, s) = (out?, &m.expr);
        Some(pe(quote!({ let #x = #s; #o })))
    }
    /// `match x { Some("a") => .., _ => .. }`: `match x { Some(t) => match t { "a" => .., _ => .. }, None => .. }`
    fn text_option_match(&mut self, m: &ExprMatch) -> Option<Expr> {
        fn inner(p: &Pat) -> Option<Vec<Pat>> {
            match p {
                Pat::TupleStruct(t) if t.path.is_ident("Some") && t.elems.len() == 1 => Some(vec![t.elems[0].clone()]),
                Pat::Or(o) => o.cases.iter().map(inner).collect::<Option<Vec<_>>>().map(|v| v.concat()),
                Pat::Paren(p) => inner(&p.pat),
                _ => None,
            }
        }
        fn text(p: &Pat) -> bool {
            match p {
                Pat::Lit(l) => matches!(l.lit, Lit::Str(_)),
                Pat::Or(o) => o.cases.iter().all(text),
                Pat::Paren(p) => text(&p.pat),
                _ => false,
            }
        }
        if !m.arms.iter().any(|a| inner(&a.pat).map(|v| v.iter().any(text)).unwrap_or(false)) || m.arms.iter().any(|a| a.guard.is_some()) {
            return None;
        }
        let mut some: Vec<(Vec<Pat>, Expr)> = vec![];
        let mut none: Option<Expr> = None;
        let mut all = false;
        for a in &m.arms {
            if let Some(v) = inner(&a.pat) {
                all |= v.iter().any(|p| matches!(p, Pat::Wild(_)));
                some.push((v, (*a.body).clone()));
            } else if a.pat.to_token_stream().to_string() == "None" {
                none.get_or_insert((*a.body).clone());
            } else if matches!(a.pat, Pat::Wild(_)) {
                none.get_or_insert((*a.body).clone());
                if !all {
                    some.push((vec![parse_quote!(_)], (*a.body).clone()));
                }
                break;
            } else {
                return None;
            }
        }
        let arms: Vec<Arm> = some.into_iter().map(|(p, b)| parse_quote!(#(#p)|* => { #b })).collect();
        let (x, s, none) = (self.fresh("u"), &m.expr, none?);
        let mut i = pe(quote!(match #x { #(#arms)* }));
        i = self.text_match(&i)?;
        Some(pe(quote!(match #s { Some(#x) => { #i } None => { #none } })))
    }
    fn format(&mut self, m: &Macro) -> Option<Expr> {
        let args: punctuated::Punctuated<Expr, Token![,]> = m.parse_body_with(punctuated::Punctuated::parse_terminated).ok()?;
        let mut it = args.into_iter();
        let Some(Expr::Lit(ExprLit { lit: Lit::Str(s), .. })) = it.next() else { return None };
        let f = s.value();
        let mut rest: Vec<Expr> = it.collect();
        rest.reverse();
        let acc = self.fresh("s");
        let mut st: Vec<Stmt> = vec![parse_quote!(let mut #acc = vx_str_new();)];
        let mut lit = String::new();
        let mut cs = f.chars().peekable();
        while let Some(c) = cs.next() {
            match c {
                '{' if cs.peek() == Some(&'{') => {
                    cs.next();
                    lit.push('{');
                }
                '}' => {
                    cs.next();
                    lit.push('}');
                }
                '{' => {
                    let mut nm = String::new();
                    for d in cs.by_ref() {
                        if d == '}' {
                            break;
                        }
                        nm.push(d);
                    }
                    if !lit.is_empty() {
                        let l = std::mem::take(&mut lit);
                        st.push(parse_quote!(#acc.vx_push_lit(#l);));
                    }
                    let arg: Expr = if nm.is_empty() {
                        rest.pop()?
                    } else {
                        if !nm.chars().all(|c| c.is_alphanumeric() || c == '_') || nm.chars().next()?.is_numeric() {
                            return None;
                        }
                        let i = ident(&nm);
                        pe(quote!(#i))
                    };
                    st.push(parse_quote!((#arg).vx_display(&mut #acc);));
                }
                c => lit.push(c),
            }
        }
        if !lit.is_empty() {
            st.push(parse_quote!(#acc.vx_push_lit(#lit);));
        }
        Some(pe(quote!({ #(#st)* #acc })))
    }
}

impl VisitMut for Desugar {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Some(n) = self.chain(e) {
            *e = n;
        }
        if let Some(n) = self.entry(e) {
            *e = n;
        }
        if let Some(n) = self.retain(e) {
            *e = n;
        }
        while let Some(n) = self.option(e) {
            *e = n;
        }
        if self.swc {
            if let Some(n) = self.text_match(e) {
                *e = n;
            }
        }
        if let Expr::Macro(m) = e {
            let name = m.mac.path.segments.last().unwrap().ident.to_string();
            match name.as_str() {
                "format" => {
                    if let Some(n) = self.format(&m.mac) {
                        *e = n;
                    }
                }
                "vec" => {
                    let toks = m.mac.tokens.clone();
                    if let Ok(args) = m.mac.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated) {
                        if args.is_empty() {
                            *e = pe(quote!(Vec::new()));
                        } else {
                            let a: Vec<Expr> = args.into_iter().collect();
                            let acc = self.fresh("v");
                            *e = pe(quote!({ let mut #acc = Vec::new(); #(#acc.push(#a);)* #acc }));
                        }
                    } else {
                        self.errs.push(format!("vec! form not supported: {toks}"));
                    }
                }
                "panic" | "unreachable" | "unimplemented" | "todo" => {
                    *e = pe(quote!(vx_panic()));
                }
                "matches" => {
                    struct M(Expr, Pat, Option<Expr>);
                    impl parse::Parse for M {
                        fn parse(i: parse::ParseStream) -> Result<Self> {
                            let e = i.parse()?;
                            i.parse::<Token![,]>()?;
                            let p = Pat::parse_multi_with_leading_vert(i)?;
                            let g = if i.peek(Token![if]) {
                                i.parse::<Token![if]>()?;
                                Some(i.parse()?)
                            } else {
                                None
                            };
                            let _ = i.parse::<Option<Token![,]>>();
                            Ok(M(e, p, g))
                        }
                    }
                    match m.mac.parse_body::<M>() {
                        Ok(M(x, p, g)) => {
                            *e = match g {
                                None => pe(quote!(match #x { #p => true, _ => false })),
                                Some(g) => pe(quote!(match #x { #p if #g => true, _ => false })),
                            }
                        }
                        Err(er) => self.errs.push(format!("matches!: {er}")),
                    }
                }
                o => self.errs.push(format!("macro {o}! not supported")),
            }
        }
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Call(c) = &*e {
            let f = c.func.to_token_stream().to_string().replace(' ', "");
            if c.args.len() == 1 && (f.ends_with("mem::take") || f == "take") {
                let a = &c.args[0];
                *e = pe(quote!(vx_take(#a)));
            } else if c.args.len() == 1 && f.starts_with("Vec") && f.ends_with("::with_capacity") && size_arith(&c.args[0]) {
                *e = pe(quote!(Vec::new()));
            }
        }
        match e {
            Expr::MethodCall(m) if m.method == "insert" && m.args.len() == 2 && m.args[0].to_token_stream().to_string() == "0" => {
                m.method = ident("vx_insert_front");
                m.args = m.args.iter().skip(1).cloned().collect();
            }
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                let new = match n.as_str() {
                    "iter" | "values" | "keys" | "enumerate" | "into_iter" | "drain" | "clone" | "collect" | "into_values" | "into_keys" | "extend" | "sort" | "retain" | "truncate" | "resize" | "to_owned" | "as_str" | "rev" | "floor" | "ceil" | "round" | "trunc" | "append" => Some(format!("vx_{n}")),
                    _ => None,
                };
                if let Some(nn) = new {
                    m.method = ident(&nn);
                    if nn == "vx_drain" {
                        // only the full range is supported
                        if m.args.len() == 1 && m.args[0].to_token_stream().to_string() == ".." {
                            m.args.clear();
                        } else {
                            self.errs.push("drain with a proper range".into());
                        }
                    }
                }
            }
            Expr::Cast(c) => {
                let t = c.ty.to_token_stream().to_string();
                if t == "f32" || t == "f64" {
                    let f = format_ident!("vx_to_{}", t);
                    let x = &c.expr;
                    *e = pe(quote!((#x).#f()));
                    self.float = true;
                }
            }
            Expr::Binary(b) if matches!(b.op, BinOp::Div(_) | BinOp::Mul(_) | BinOp::Add(_) | BinOp::Sub(_)) && (is_float(&b.left) || is_float(&b.right)) => {
                let f = match b.op {
                    BinOp::Div(_) => ident("vx_fdiv"),
                    BinOp::Mul(_) => ident("vx_fmul"),
                    BinOp::Add(_) => ident("vx_fadd"),
                    _ => ident("vx_fsub"),
                };
                let (l, r) = (&b.left, &b.right);
                *e = pe(quote!(#f(#l, #r)));
            }
            Expr::Binary(b) => {
                let opt = match b.op {
                    BinOp::AddAssign(_) | BinOp::SubAssign(_) => true,
                    _ => false,
                };
                if opt && !matches!(&*b.right, Expr::Lit(_)) {
                    let r = &b.right;
                    let nr = pe(quote!((#r).vx_v()));
                    b.right = Box::new(nr);
                }
            }
            _ => {}
        }
    }
    fn visit_expr_closure_mut(&mut self, c: &mut ExprClosure) {
        visit_mut::visit_expr_closure_mut(self, c);
    }
}

/// an expression that only computes a size (the capacity of a Vec, which no result depends on)
fn size_arith(e: &Expr) -> bool {
    match e {
        Expr::Lit(_) | Expr::Path(_) => true,
        Expr::Paren(p) => size_arith(&p.expr),
        Expr::Binary(b) => matches!(b.op, BinOp::Add(_) | BinOp::Mul(_)) && size_arith(&b.left) && size_arith(&b.right),
        Expr::MethodCall(m) => m.method == "len" && m.args.is_empty() && plain_path(&m.receiver),
        _ => false,
    }
}
fn plain_path(e: &Expr) -> bool {
    match e {
        Expr::Path(_) => true,
        Expr::Field(f) => plain_path(&f.base),
        _ => false,
    }
}
fn is_float(e: &Expr) -> bool {
    match e {
        Expr::Paren(p) => is_float(&p.expr),
        Expr::MethodCall(m) => matches!(m.method.to_string().as_str(), "vx_to_f32" | "vx_to_f64" | "vx_floor" | "vx_ceil" | "vx_round" | "vx_trunc"),
        Expr::Call(c) => matches!(c.func.to_token_stream().to_string().as_str(), "vx_fdiv" | "vx_fmul" | "vx_fadd" | "vx_fsub"),
        Expr::Lit(ExprLit { lit: Lit::Float(_), .. }) => true,
        _ => false,
    }
}

/// fn-pointer parameters become `Fn` generics
pub fn fnptr_params(sig: &mut Signature) {
    let mut k = 0usize;
    let mut preds: Vec<WherePredicate> = vec![];
    let mut gens: Vec<GenericParam> = vec![];
    for a in sig.inputs.iter_mut() {
        if let FnArg::Typed(t) = a {
            let mut ty = (*t.ty).clone();
            if let Type::Paren(p) = &ty {
                ty = (*p.elem).clone();
            }
            match &ty {
                Type::BareFn(b) => {
                    let g = format_ident!("VxF{}", k);
                    k += 1;
                    let ins: Vec<Type> = b.inputs.iter().map(|i| strip_lt(&i.ty)).collect();
                    let out = &b.output;
                    preds.push(parse_quote!(#g: Fn(#(#ins),*) #out));
                    gens.push(parse_quote!(#g));
                    *t.ty = parse_quote!(#g);
                }
                Type::ImplTrait(i) => {
                    let g = format_ident!("VxF{}", k);
                    k += 1;
                    let mut b = i.bounds.clone();
                    for x in b.iter_mut() {
                        if let TypeParamBound::Trait(t) = x {
                            let l = t.path.segments.last_mut().unwrap();
                            if l.ident == "IntoIterator" || l.ident == "Iterator" {
                                l.ident = ident("VxIntoIt");
                            }
                        }
                    }
                    preds.push(parse_quote!(#g: #b));
                    gens.push(parse_quote!(#g));
                    *t.ty = parse_quote!(#g);
                }
                _ => {}
            }
        }
    }
    if !gens.is_empty() {
        sig.generics.params.extend(gens);
        let wc = sig.generics.make_where_clause();
        wc.predicates.extend(preds);
    }
}
fn strip_lt(t: &Type) -> Type {
    struct S;
    impl VisitMut for S {
        fn visit_type_reference_mut(&mut self, r: &mut TypeReference) {
            r.lifetime = None;
            visit_mut::visit_type_reference_mut(self, r)
        }
    }
    let mut t = t.clone();
    S.visit_type_mut(&mut t);
    t
}

// ---------------------------------------------------------------- loops / closures / contracts

pub struct Attach<'a> {
    pub spec: &'a FnSpec,
    pub texts: &'a mut Texts,
    pub loops: usize,
    pub closures: usize,
    pub errs: Vec<String>,
    pub subst: BTreeMap<String, String>,
    pub counts: BTreeMap<String, usize>,
    pub counted: Vec<String>,
}

/// ghost code for the end of an iteration, in front of every `continue`
struct AtContinue<'a>(&'a Vec<Stmt>);
impl<'a> VisitMut for AtContinue<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::While(_) | Expr::ForLoop(_) | Expr::Loop(_) | Expr::Closure(_) => return,
            Expr::Continue(_) if !self.0.is_empty() => {
                let s = self.0;
                *e = pe(quote!({ #(#s)* continue; }));
                return;
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e)
    }
}
/// variables that count the iterations of a loop: `let mut x = 0;` in front, one `x += 1;` in the body
fn counters(before: &[Stmt], f: &ExprForLoop) -> Vec<String> {
    struct A<'a>(&'a str, usize);
    impl<'a, 'b> Visit<'b> for A<'a> {
        fn visit_expr_assign(&mut self, a: &'b ExprAssign) {
            if a.left.to_token_stream().to_string() == self.0 {
                self.1 += 1;
            }
            visit::visit_expr_assign(self, a)
        }
        fn visit_expr_binary(&mut self, a: &'b ExprBinary) {
            if a.left.to_token_stream().to_string() == self.0 && a.op.to_token_stream().to_string().ends_with('=') && !matches!(a.op, BinOp::Eq(_) | BinOp::Ne(_) | BinOp::Le(_) | BinOp::Ge(_)) {
                self.1 += 1;
            }
            visit::visit_expr_binary(self, a)
        }
        fn visit_expr_reference(&mut self, a: &'b ExprReference) {
            if a.mutability.is_some() && a.expr.to_token_stream().to_string() == self.0 {
                self.1 += 1;
            }
            visit::visit_expr_reference(self, a)
        }
        fn visit_expr_continue(&mut self, _: &'b ExprContinue) {
            self.1 += 100;
        }
    }
    let mut out = vec![];
    for (i, s) in before.iter().enumerate() {
        let Stmt::Local(l) = s else { continue };
        let p = if let Pat::Type(t) = &l.pat { &*t.pat } else { &l.pat };
        let Pat::Ident(p) = p else { continue };
        let zero = l.init.as_ref().map(|x| matches!(x.expr.to_token_stream().to_string().as_str(), "0" | "0u32" | "0usize")).unwrap_or(false);
        if p.mutability.is_none() || !zero {
            continue;
        }
        let n = p.ident.to_string();
        let mut a = A(&n, 0);
        for s in &before[i + 1..] {
            a.visit_stmt(s);
        }
        let up = f.body.stmts.iter().filter(|s| matches!(s, Stmt::Expr(e, _) if { let t = e.to_token_stream().to_string(); t == format!("{n} += 1") || t == format!("{n} = {n} + 1") })).count();
        let mut b = A(&n, 0);
        b.visit_block(&f.body);
        if a.1 == 0 && up == 1 && b.1 == 1 {
            out.push(n);
        }
    }
    out
}

pub fn subst_text(t: &str, m: &BTreeMap<String, String>) -> String {
    if m.is_empty() {
        return t.to_string();
    }
    let mut out = String::new();
    let mut cur = String::new();
    let flush = |cur: &mut String, out: &mut String| {
        if !cur.is_empty() {
            let prev_dot = out.ends_with('.') && !out.ends_with("..");
            match m.get(cur.as_str()) {
                Some(n) if !prev_dot => out.push_str(n),
                _ => out.push_str(cur),
            }
            cur.clear();
        }
    };
    for c in t.chars() {
        if c.is_alphanumeric() || c == '_' {
            cur.push(c);
        } else {
            flush(&mut cur, &mut out);
            out.push(c);
        }
    }
    flush(&mut cur, &mut out);
    out
}

impl<'a> Attach<'a> {
    fn s(&mut self, t: Option<&String>) -> Vec<Stmt> {
        match t {
            None => vec![],
            Some(t) => {
                let t = subst_text(t, &self.subst);
                let id = self.texts.add("S", t);
                vec![parse_quote!(#id;)]
            }
        }
    }
    fn c(&mut self, t: String) -> Vec<Stmt> {
        let t = subst_text(&t, &self.subst);
        let id = self.texts.add("C", t);
        vec![parse_quote!(#id;)]
    }
    fn is_mut_iter(e: &Expr) -> Option<Expr> {
        match e {
            Expr::MethodCall(m) if m.method == "values_mut" || m.method == "iter_mut" => Some((*m.receiver).clone()),
            Expr::Reference(r) if r.mutability.is_some() => Some((*r.expr).clone()),
            _ => None,
        }
    }
    fn do_for(&mut self, f: &ExprForLoop) -> Vec<Stmt> {
        let n = self.loops;
        self.loops += 1;
        let spec = self.spec;
        let mut inv = spec.loops.get(&n).cloned().unwrap_or_default();
        for x in std::mem::take(&mut self.counted) {
            let at = if Self::is_mut_iter(&f.expr).is_some() { format!("ix{n}") } else { format!("it{n}.pos()") };
            inv = format!("  {x} == {at},\n{inv}");
        }
        // a search written as a loop that returns what it finds: nothing was found as long as it runs
        let acc = ident("acc");
        if has_return(&f.body) && !mentions(&f.body, &acc) {
            inv = subst_text(&inv, &[("acc".to_string(), "None".to_string())].into_iter().collect());
        }
        let mut out = vec![];
        let mut body = f.body.clone();
        self.visit_block_mut(&mut body);
        let le = self.s(spec.loopend.get(&n));
        AtContinue(&le).visit_block_mut(&mut body);
        if let Some(Stmt::Expr(e, semi @ None)) = body.stmts.last_mut() {
            if !matches!(e, Expr::If(_) | Expr::Match(_) | Expr::Block(_) | Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_)) {
                *semi = Some(Default::default());
            }
        }
        let ls = self.s(spec.loopstart.get(&n));
        let le = self.s(spec.loopend.get(&n));
        let bstmts = &body.stmts;
        if let Some(place) = Self::is_mut_iter(&f.expr) {
            let ix = format_ident!("ix{}", n);
            let ln = format_ident!("ixn{}", n);
            let x = format_ident!("__vx_m{}", n);
            out.push(parse_quote!(let #ln: usize = #place.vx_mlen();));
            out.push(parse_quote!(let mut #ix: usize = 0;));
            out.extend(self.s(spec.before.get(&n)));
            let mlen = place.to_token_stream().to_string().replace(' ', "");
            let _ = mlen;
            let cl = self.c(format!("  invariant ix{n} <= ixn{n},\n{inv}\n  decreases ixn{n} - ix{n},"));
            let b = bind(&f.pat, false, &x);
            let lp: Stmt = parse_quote!(while #ix < #ln { #(#cl)* #(#ls)* let #x = #place.vx_mut_at(#ix); #ix = #ix + 1; #(#b)* #(#bstmts)* #(#le)* });
            out.push(lp);
        } else {
            let it = format_ident!("it{}", n);
            let e = &f.expr;
            out.push(parse_quote!(let mut #it = (#e).vx_into_it();));
            let g = self.texts.add("S", format!("let ghost its{n} = it{n}@;"));
            out.push(parse_quote!(#g;));
            out.extend(self.s(spec.before.get(&n)));
            let text = match spec.forloops.get(&n) {
                // a contract for the loop written as `for`, where it is a `while` in the tree the contract was written for
                Some(t) => t.replace("$i", &format!("it{n}")).replace("$s", &format!("its{n}")),
                None => format!("  invariant 0 <= it{n}.pos() <= it{n}@.len(), it{n}@ == its{n},\n{inv}\n  decreases it{n}@.len() - it{n}.pos(),"),
            };
            let cl = self.c(text);
            let x = format_ident!("__vx_e{}", n);
            let b: Vec<Stmt> = match &*f.pat {
                p @ (Pat::Ident(_)) => vec![parse_quote!(let #p = #it.vx_next();)],
                p => {
                    let mut v: Vec<Stmt> = vec![parse_quote!(let #x = #it.vx_next();)];
                    v.extend(bind(p, false, &x));
                    v
                }
            };
            let lp: Stmt = parse_quote!(while #it.vx_has_next() { #(#cl)* #(#b)* #(#ls)* #(#bstmts)* #(#le)* });
            out.push(lp);
        }
        let _ = pb;
        out.extend(self.s(spec.after.get(&n)));
        out
    }
    fn do_while(&mut self, w: &ExprWhile) -> Vec<Stmt> {
        let n = self.loops;
        self.loops += 1;
        let spec = self.spec;
        let mut body = w.body.clone();
        self.visit_block_mut(&mut body);
        let le = self.s(spec.loopend.get(&n));
        AtContinue(&le).visit_block_mut(&mut body);
        let cl = match spec.loops.get(&n) {
            Some(t) => self.c(t.clone()),
            None => vec![],
        };
        let ls = self.s(spec.loopstart.get(&n));
        let le = self.s(spec.loopend.get(&n));
        let c = &w.cond;
        let b = &body.stmts;
        let mut out = self.s(spec.before.get(&n));
        out.push(parse_quote!(while #c { #(#cl)* #(#ls)* #(#b)* #(#le)* }));
        out.extend(self.s(spec.after.get(&n)));
        out
    }
}
fn macro_or_call_name(s: &Stmt) -> Vec<String> {
    struct V(Vec<String>);
    impl<'a> Visit<'a> for V {
        fn visit_expr_call(&mut self, c: &'a ExprCall) {
            if let Expr::Path(p) = &*c.func {
                self.0.push(p.path.segments.last().unwrap().ident.to_string());
            }
            visit::visit_expr_call(self, c)
        }
        fn visit_expr_method_call(&mut self, c: &'a ExprMethodCall) {
            self.0.push(c.method.to_string());
            visit::visit_expr_method_call(self, c)
        }
        fn visit_block(&mut self, _: &'a Block) {}
    }
    let mut v = V(vec![]);
    v.visit_stmt(s);
    v.0
}
impl<'a> VisitMut for Attach<'a> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let stmts = std::mem::take(&mut b.stmts);
        let last = stmts.len();
        for (i, s) in stmts.into_iter().enumerate() {
            match s {
                Stmt::Expr(Expr::ForLoop(f), _) => {
                    self.counted = counters(&b.stmts, &f);
                    let v = self.do_for(&f);
                    b.stmts.extend(v);
                }
                Stmt::Expr(Expr::While(w), _) => {
                    let v = self.do_while(&w);
                    b.stmts.extend(v);
                }
                Stmt::Expr(Expr::Block(bb), semi) if semi.is_some() || i + 1 < last => {
                    let mut bb = bb;
                    self.visit_block_mut(&mut bb.block);
                    b.stmts.push(Stmt::Expr(Expr::Block(bb), None));
                }
                mut s => {
                    let names = macro_or_call_name(&s);
                    let spec = self.spec;
                    let mut pre = vec![];
                    let mut post = vec![];
                    for (n, k, t) in &spec.call_before {
                        for nm in &names {
                            if nm == n {
                                let key = format!("{n}#b{k}");
                                let c = self.counts.entry(key).or_insert(0);
                                if *c == *k {
                                    pre.push(t.clone());
                                }
                                *c += 1;
                            }
                        }
                    }
                    for (n, k, t) in &spec.call_after {
                        for nm in &names {
                            if nm == n {
                                let key = format!("{n}#a{k}");
                                let c = self.counts.entry(key).or_insert(0);
                                if *c == *k {
                                    post.push(t.clone());
                                }
                                *c += 1;
                            }
                        }
                    }
                    for t in &pre {
                        let v = self.s(Some(t));
                        b.stmts.extend(v);
                    }
                    self.visit_stmt_mut(&mut s);
                    b.stmts.push(s);
                    for t in &post {
                        let v = self.s(Some(t));
                        b.stmts.extend(v);
                    }
                }
            }
        }
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::ForLoop(f) => {
                let f = f.clone();
                let v = self.do_for(&f);
                *e = pe(quote!({ #(#v)* }));
                return;
            }
            Expr::While(f) => {
                let f = f.clone();
                let v = self.do_while(&f);
                *e = pe(quote!({ #(#v)* }));
                return;
            }
            Expr::Closure(c) => {
                let n = self.closures;
                self.closures += 1;
                visit_mut::visit_expr_mut(self, &mut c.body);
                let typed: Vec<String> = c.inputs.iter().filter_map(|p| if let Pat::Type(t) = p { Some(t.ty.to_token_stream().to_string().replace(' ', "")) } else { None }).collect();
                let by_type = if typed.len() == c.inputs.len() && !typed.is_empty() {
                    self.spec.closures.values().find(|(r, _)| {
                        r.strip_prefix('|').and_then(|r| r.split_once('|')).map(|(ps, _)| split_top(ps).iter().map(|t| t.split_once(':').map(|x| x.1.replace(' ', "")).unwrap_or_default()).collect::<Vec<_>>() == typed).unwrap_or(false)
                    })
                } else {
                    None
                };
                if let Some((ret, cl)) = by_type.or(self.spec.closures.get(&n)) {
                    // ret: "|x: &T| r: U" or "r: U"
                    let mut decl = ret.clone();
                    if let Some(r) = decl.strip_prefix('|') {
                        let (ps, rt) = r.split_once('|').unwrap();
                        // parameter types by position, names kept from the source
                        let tys: Vec<&str> = split_top(ps);
                        for (i, t) in tys.iter().enumerate() {
                            let (nm, ty) = t.split_once(':').unwrap();
                            if let Some(p) = c.inputs.iter_mut().nth(i) {
                                let name = match &*p {
                                    Pat::Ident(pi) => pi.ident.clone(),
                                    Pat::Type(pt) => match &*pt.pat {
                                        Pat::Ident(pi) => pi.ident.clone(),
                                        _ => {
                                            self.errs.push("closure parameter pattern".into());
                                            continue;
                                        }
                                    },
                                    _ => {
                                        self.errs.push("closure parameter pattern".into());
                                        continue;
                                    }
                                };
                                self.subst.insert(nm.trim().to_string(), name.to_string());
                                let ty: Type = parse_str(ty.trim()).unwrap();
                                *p = Pat::Type(PatType { attrs: vec![], pat: Box::new(parse_quote!(#name)), colon_token: Default::default(), ty: Box::new(ty) });
                            }
                        }
                        decl = rt.trim().to_string();
                    }
                    let rid = self.texts.add("R", format!("({decl})"));
                    let clid = self.texts.add("C", subst_text(cl, &self.subst));
                    let body = &c.body;
                    let nb: Expr = match &**body {
                        Expr::Block(b) if b.label.is_none() => {
                            let st = &b.block.stmts;
                            pe(quote!({ #clid; #(#st)* }))
                        }
                        b => pe(quote!({ #clid; #b })),
                    };
                    c.body = Box::new(nb);
                    c.output = parse_quote!(-> #rid);
                }
                return;
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
    }
}
fn split_top(s: &str) -> Vec<&str> {
    let mut d = 0;
    let mut st = 0;
    let mut v = vec![];
    for (i, c) in s.char_indices() {
        match c {
            '<' | '(' | '[' => d += 1,
            '>' | ')' | ']' => d -= 1,
            ',' if d == 0 => {
                v.push(s[st..i].trim());
                st = i + 1;
            }
            _ => {}
        }
    }
    if !s[st..].trim().is_empty() {
        v.push(s[st..].trim());
    }
    v
}

fn mentions(t: &impl ToTokens, id: &Ident) -> bool {
    fn go(ts: proc_macro2::TokenStream, id: &Ident) -> bool {
        ts.into_iter().any(|t| match t {
            proc_macro2::TokenTree::Ident(i) => i == *id,
            proc_macro2::TokenTree::Group(g) => go(g.stream(), id),
            _ => false,
        })
    }
    go(t.to_token_stream(), id)
}

// ---------------------------------------------------------------- the shared recorder

/// The recorder that all visitors share through `Rc<RefCell<..>>` is passed as a parameter `vxw`.
pub struct World<'a> {
    /// names of functions that use it: `f`, or `Type::new`
    pub names: &'a BTreeSet<String>,
}
impl<'a> World<'a> {
    fn cell(e: &Expr) -> Option<bool> {
        let Expr::MethodCall(m) = e else { return None };
        if !m.args.is_empty() {
            return None;
        }
        match m.method.to_string().as_str() {
            "borrow_mut" => Some(true),
            "borrow" => Some(false),
            _ => None,
        }
    }
    fn named(&self, p: &Path) -> bool {
        let s: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
        let n = s.len();
        in_world(self.names, &s[n - 1]) || (n > 1 && self.names.contains(&format!("{}::{}", s[n - 2], s[n - 1])))
    }
}
/// `f`, or `prefix*`
pub fn in_world(names: &BTreeSet<String>, f: &str) -> bool {
    names.contains(f) || names.iter().any(|n| n.strip_suffix('*').map(|p| f.starts_with(p)).unwrap_or(false))
}
impl<'a> VisitMut for World<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Reference(r) = e {
            match (Self::cell(&r.expr), r.mutability.is_some()) {
                (Some(true), true) => {
                    *e = pe(quote!(&mut vxw.cov));
                    return;
                }
                (Some(_), false) => {
                    *e = pe(quote!(&vxw.cov));
                    return;
                }
                _ => {}
            }
        }
        match Self::cell(e) {
            Some(true) => {
                *e = pe(quote!((&mut vxw.cov)));
                return;
            }
            Some(false) => {
                *e = pe(quote!((&vxw.cov)));
                return;
            }
            _ => {}
        }
        // `Rc::new(RefCell::new(x))`
        if let Expr::Call(c) = e {
            let is = |e: &Expr, n: &str| matches!(e, Expr::Path(p) if p.path.segments.len() >= 2 && p.path.segments[p.path.segments.len() - 2].ident == n && p.path.segments.last().unwrap().ident == "new");
            if is(&c.func, "Rc") && c.args.len() == 1 {
                if let Expr::Call(d) = &c.args[0] {
                    if is(&d.func, "RefCell") && d.args.len() == 1 {
                        let mut x = d.args[0].clone();
                        self.visit_expr_mut(&mut x);
                        *e = pe(quote!(vx_share(#x, vxw)));
                        return;
                    }
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
        match e {
            Expr::MethodCall(m) if in_world(self.names, &m.method.to_string()) => m.args.push(parse_quote!(vxw)),
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    if self.named(&p.path) {
                        c.args.push(parse_quote!(vxw));
                    }
                }
            }
            _ => {}
        }
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        if let Ok(mut args) = m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated) {
            for a in args.iter_mut() {
                self.visit_expr_mut(a);
            }
            m.tokens = args.to_token_stream();
        }
    }
}

/// `a == b` of values that are no numbers, `&*name`, `v.extend(iterator chain)`
pub struct Visitors;
fn number(e: &Expr) -> bool {
    match e {
        Expr::Lit(l) => matches!(l.lit, Lit::Int(_) | Lit::Bool(_)),
        Expr::Paren(p) => number(&p.expr),
        Expr::Cast(_) => true,
        Expr::MethodCall(m) => m.method == "len",
        Expr::Binary(b) => matches!(b.op, BinOp::Add(_) | BinOp::Sub(_)),
        _ => false,
    }
}
/// the place of `&mut *place`
fn reborrow(e: &Expr) -> Option<Expr> {
    match e {
        Expr::Reference(r) if r.mutability.is_some() && matches!(&*r.expr, Expr::Unary(ExprUnary { op: UnOp::Deref(_), .. })) => Some((*r.expr).clone()),
        _ => None,
    }
}
/// the bindings of a pattern for a place instead of a reference to it
struct RefMut;
impl VisitMut for RefMut {
    fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) {
        visit_mut::visit_pat_ident_mut(self, p);
        if p.by_ref.is_none() && p.ident.to_string().chars().next().map(|c| c.is_lowercase() || c == '_').unwrap_or(false) {
            p.by_ref = Some(Default::default());
            p.mutability = Some(Default::default());
        }
    }
}
fn plain_pat(p: &Pat) -> bool {
    struct V(bool);
    impl<'a> Visit<'a> for V {
        fn visit_pat(&mut self, p: &'a Pat) {
            if matches!(p, Pat::Reference(_)) {
                self.0 = false;
            }
            visit::visit_pat(self, p)
        }
        fn visit_pat_ident(&mut self, p: &'a PatIdent) {
            if p.by_ref.is_some() || p.mutability.is_some() {
                self.0 = false;
            }
        }
    }
    let mut v = V(true);
    v.visit_pat(p);
    v.0 && !matches!(p, Pat::Ident(_))
}
impl VisitMut for Visitors {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        match e {
            // `match &mut *p { A(x) => ..` is `match *p { A(ref mut x) => ..`
            Expr::Match(m) if m.arms.iter().all(|a| plain_pat(&a.pat)) => {
                if let Some(x) = reborrow(&m.expr) {
                    *m.expr = x;
                    for a in m.arms.iter_mut() {
                        RefMut.visit_pat_mut(&mut a.pat);
                    }
                }
            }
            Expr::Let(l) if plain_pat(&l.pat) => {
                if let Some(x) = reborrow(&l.expr) {
                    *l.expr = x;
                    RefMut.visit_pat_mut(&mut l.pat);
                }
            }
            Expr::Binary(b) if matches!(b.op, BinOp::Eq(_) | BinOp::Ne(_)) && !number(&b.left) && !number(&b.right) => {
                let (l, r) = (&b.left, &b.right);
                *e = if matches!(b.op, BinOp::Eq(_)) { pe(quote!(vx_eq(&#l, &#r))) } else { pe(quote!(!vx_eq(&#l, &#r))) };
            }
            Expr::Reference(r) => {
                if let Expr::Unary(ExprUnary { op: UnOp::Deref(_), expr: x, .. }) = &*r.expr {
                    if let Expr::Field(f) = &**x {
                        if matches!(&f.member, Member::Named(n) if n == "sym" || n == "value") {
                            *e = pe(quote!(#x.vx_text()));
                        }
                    }
                }
            }
            Expr::MethodCall(m) if m.method == "extend" && m.args.len() == 1 => {
                if let Expr::MethodCall(a) = &m.args[0] {
                    if matches!(a.method.to_string().as_str(), "map" | "filter" | "cloned") {
                        let x = m.args[0].clone();
                        m.args[0] = pe(quote!(#x.collect()));
                    }
                }
            }
            Expr::MethodCall(m) if m.args.is_empty() && matches!(m.method.to_string().as_str(), "last" | "first" | "as_ref") => {
                m.method = format_ident!("vx_{}", m.method);
            }
            Expr::Call(c) if matches!(&*c.func, Expr::Path(p) if p.path.segments.len() > 1 && p.path.segments[p.path.segments.len() - 2].ident == "cmp") => {
                if let Expr::Path(p) = &mut *c.func {
                    let n = p.path.segments.last().unwrap().ident.to_string();
                    if n == "max" || n == "min" {
                        let f = format_ident!("vx_{n}");
                        p.path = parse_quote!(#f);
                    }
                }
            }
            Expr::Macro(m) if m.mac.path.is_ident("vec") => {
                if let Ok(args) = m.mac.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated) {
                    if args.len() <= 3 {
                        let f = format_ident!("vx_vec{}", args.len());
                        *e = pe(quote!(#f(#args)));
                    }
                }
            }
            Expr::MethodCall(m) if m.args.len() == 1 && m.method == "get" => {
                m.method = format_ident!("vx_{}", m.method);
            }
            _ => {}
        }
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        if let Ok(mut args) = m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated) {
            for a in args.iter_mut() {
                self.visit_expr_mut(a);
            }
            m.tokens = args.to_token_stream();
        }
    }
}
