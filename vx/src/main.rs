mod mac;
mod print;
mod source;
mod spec;
mod xform;
use print::Texts;
use proc_macro2::TokenStream;
use quote::{quote, ToTokens};
use source::*;
use spec::{FnSpec, Item as UItem};
use std::collections::{BTreeMap, BTreeSet};
use syn::visit::Visit;
use syn::visit_mut::VisitMut;
use syn::*;
use xform::*;

struct Opts {
    unit: String,
    repo: String,
    out: String,
    map: String,
    smoke: bool,
    external: BTreeSet<String>,
    /// functions that get the shared recorder as a parameter
    world: BTreeSet<String>,
}

fn main() {
    let mut o = Opts { unit: String::new(), repo: "/repo".into(), out: String::new(), map: String::new(), smoke: false, external: BTreeSet::new(), world: BTreeSet::new() };
    let mut a = std::env::args().skip(1);
    while let Some(x) = a.next() {
        match x.as_str() {
            "--repo" => o.repo = a.next().unwrap(),
            "--out" => o.out = a.next().unwrap(),
            "--map" => o.map = a.next().unwrap(),
            "--smoke" => o.smoke = true,
            "--external" => {
                for s in a.next().unwrap().split(',') {
                    o.external.insert(s.into());
                }
            }
            u => o.unit = u.into(),
        }
    }
    gen(&mut o);
}

fn jesc(s: &str) -> String {
    let mut r = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => r.push_str("\\\""),
            '\\' => r.push_str("\\\\"),
            '\n' => r.push_str("\\n"),
            '\t' => r.push_str("\\t"),
            c if (c as u32) < 32 => {}
            c => r.push(c),
        }
    }
    r.push('"');
    r
}

fn gen(o: &mut Opts) {
    let mut unit = spec::parse(&o.unit);
    o.world = unit.opts.get("world").map(|s| s.split_whitespace().map(|x| x.to_string()).collect()).unwrap_or_default();
    let o: &Opts = o;
    let mut src = Sources { repo: o.repo.clone(), ..Default::default() };
    for c in unit.opts.get("crates").map(|s| s.as_str()).unwrap_or("packages/istanbul-oxide").split_whitespace() {
        src.load_crate(c);
    }
    let rest = whole_impls(&mut unit, &mut src);
    let mut contracted = BTreeSet::new();
    for it in &unit.items {
        if let UItem::Fn(f) = it {
            contracted.insert(f.path.clone());
            if let Some(r) = &f.rename {
                contracted.insert(r.clone());
            }
        }
    }
    for n in unit.opts.get("known").map(|s| s.as_str()).unwrap_or("").split_whitespace() {
        contracted.insert(n.into());
    }
    let mut out = String::new();
    out.push_str("#![allow(unused, non_snake_case, non_camel_case_types)]\nuse vstd::prelude::*;\nverus! {\n");
    let mut map: Vec<String> = vec![];
    for (p, n) in &rest {
        map.push(format!("{{\"impl\":{},\"others\":{n}}}", jesc(p)));
    }
    for it in &unit.items {
        match it {
            UItem::Ghost(t) => out.push_str(t),
            UItem::Ast(file, without) => {
                for (f, t) in &src.types {
                    if !f.starts_with("registry:") || !f.ends_with(&format!("/{file}")) {
                        continue;
                    }
                    let n = match t {
                        Item::Struct(s) => s.ident.to_string(),
                        Item::Enum(s) => s.ident.to_string(),
                        _ => continue,
                    };
                    let generic = match t {
                        Item::Struct(s) => !s.generics.params.is_empty(),
                        Item::Enum(s) => !s.generics.params.is_empty(),
                        _ => false,
                    };
                    if generic || without.contains(&n) {
                        continue;
                    }
                    let mut t = t.clone();
                    let copy = match &mut t {
                        Item::Struct(s) => {
                            let c = derives(&s.attrs).contains("Copy");
                            s.attrs.clear();
                            c
                        }
                        Item::Enum(s) => {
                            let c = derives(&s.attrs).contains("Copy");
                            s.attrs.clear();
                            for v in s.variants.iter_mut() {
                                v.discriminant = None;
                            }
                            c
                        }
                        _ => false,
                    };
                    if copy {
                        out.push_str("#[derive(Clone, Copy)]\n");
                    }
                    out.push_str(&emit_type(&t));
                    if !copy {
                        out.push_str(&format!("impl Clone for {n} {{ #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self {{ unimplemented!() }} }}\n"));
                    }
                }
            }
            UItem::Types(file, names) => {
                for n in names {
                    match src.find_type(file, n) {
                        Some(t) => {
                            let mut t2 = t.clone();
                            if let Some(mut sw) = Swc::new(&src) {
                                sw.visit_item_mut(&mut t2);
                            }
                            out.push_str(&emit_type(&t2));
                            // hand-written `impl Default` whose body is one path expression
                            if let Some(d) = src.fns.iter().find(|f| f.path() == format!("Default@{n}::default")) {
                                if let ([Stmt::Expr(Expr::Struct(st), None)], Item::Struct(def)) = (&d.block.stmts[..], t) {
                                    let mut cl = vec![];
                                    for fv in &st.fields {
                                        let (Member::Named(id), Some(df)) = (&fv.member, def.fields.iter().find(|x| x.ident.as_ref().map(|i| Member::Named(i.clone())) == Some(fv.member.clone()))) else { continue };
                                        let e = fv.expr.to_token_stream().to_string().replace(' ', "");
                                        cl.push(if e == "Default::default()" { default_clause(&df.ty, &format!("x.{id}")) } else { format!("x.{id} == {e}") });
                                    }
                                    let b = print::print(quote!(#st), &Texts::default());
                                    if st.fields.iter().all(|fv| matches!(fv.expr, Expr::Lit(_)) || fv.expr.to_token_stream().to_string().replace(' ', "") == "Default::default()") { out.push_str(&format!("impl {n} {{ pub open spec fn vx_is_default(x: {n}) -> bool {{ {} }} }}\nimpl Default for {n} {{ fn default() -> (r: Self) ensures {n}::vx_is_default(r) {{ {b} }} }}\n", cl.join(" && "))); }
                                }
                                if let [Stmt::Expr(Expr::Path(p), None)] = &d.block.stmts[..] {
                                    let p = p.to_token_stream().to_string();
                                    out.push_str(&format!("impl {n} {{ pub open spec fn vx_is_default(x: {n}) -> bool {{ x == {p} }} }}\nimpl Default for {n} {{ fn default() -> (r: Self) ensures {n}::vx_is_default(r) {{ {p} }} }}\n"));
                                }
                            }
                        }
                        None => {
                            eprintln!("vx: lost type {file} {n}");
                            map.push(format!("{{\"type\":{},\"status\":\"lost\"}}", jesc(n)));
                        }
                    }
                }
            }
            UItem::Fn(f) => {
                let start = out.lines().count() + 1;
                let r = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| emit_fn(f, &src, &contracted, o))) {
                    Ok(r) => r,
                    Err(_) => {
                        // the rewriting does not understand this body: trusted stub, reported as lost
                        let o2 = Opts { unit: o.unit.clone(), repo: o.repo.clone(), out: o.out.clone(), map: o.map.clone(), smoke: o.smoke, external: [f.path.clone()].into_iter().collect(), world: o.world.clone() };
                        match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| emit_fn(f, &src, &contracted, &o2))) {
                            Ok(Ok((t, _, l, fi, ext, h))) => Ok((t, vec!["!extractor cannot rewrite this body".to_string()], l, fi, ext, h)),
                            _ => Err("extractor cannot rewrite this function".into()),
                        }
                    }
                };
                let (status, inlined, line, file, hash);
                match r {
                    Ok((t, inl, l, fi, ext, h)) => {
                        out.push_str(&t);
                        status = if ext { "external".to_string() } else { "ok".into() };
                        inlined = inl;
                        line = l;
                        file = fi;
                        hash = h;
                    }
                    Err(e) => {
                        status = format!("lost: {e}");
                        inlined = vec![];
                        line = 0;
                        file = f.file.clone();
                        hash = 0;
                    }
                }
                let end = out.lines().count();
                map.push(format!(
                    "{{\"fn\":{},\"file\":{},\"line\":{},\"gen_start\":{},\"gen_end\":{},\"status\":{},\"inlined\":[{}],\"hash\":\"{:x}\",\"declared_external\":{}}}",
                    jesc(&f.path),
                    jesc(&file),
                    line,
                    start,
                    end,
                    jesc(&status),
                    inlined.iter().map(|s| jesc(s)).collect::<Vec<_>>().join(","),
                    hash,
                    f.external
                ));
            }
            UItem::Macro(_) => {}
        }
    }
    out.push_str("\n} // verus!\nfn main() {}\n");
    std::fs::write(&o.out, out).unwrap();
    if !o.map.is_empty() {
        std::fs::write(&o.map, format!("[\n{}\n]\n", map.join(",\n"))).unwrap();
    }
}

/// `visit_mut_if_stmt` visits an `IfStmt`
fn visited(name: &str) -> Option<Type> {
    let n = name.strip_prefix("visit_mut_").or(name.strip_prefix("visit_"))?;
    let camel = |s: &str| s.split('_').map(|w| w[..1].to_uppercase() + &w[1..]).collect::<String>();
    let t = match n {
        "stmts" => "Vec<Stmt>".to_string(),
        "module_items" => "Vec<ModuleItem>".to_string(),
        n => camel(n),
    };
    parse_str(&t).ok()
}

/// An impl of a visitor trait under contract as a whole (`%impl FILE Trait@Type`): methods it has beyond those with a contract of their own
/// get the contract given there, and a method with a contract which it does not have is what the trait provides: visiting the children.
fn whole_impls(unit: &mut spec::Unit, src: &mut Sources) -> Vec<(String, usize)> {
    let mut out = vec![];
    let own: BTreeSet<String> = unit.items.iter().filter_map(|i| if let UItem::Fn(f) = i { Some(f.path.clone()) } else { None }).collect();
    let file_of = |src: &Sources, f: &FnSpec| -> Option<Vec<usize>> {
        let pre = f.path.trim_end_matches('*').to_string();
        let v: Vec<usize> = src.fns.iter().enumerate().filter(|(_, s)| s.path().starts_with(&pre) && s.file.ends_with(&f.file)).map(|(i, _)| i).collect();
        if v.is_empty() { None } else { Some(v) }
    };
    let mut items = vec![];
    for it in std::mem::take(&mut unit.items) {
        match it {
            UItem::Fn(f) if f.rest => {
                let Some(fns) = file_of(src, &f) else { items.push(UItem::Fn(FnSpec { rest: false, ..f })); continue };
                let pre = f.path.trim_end_matches('*').to_string();
                let mut n = 0;
                for i in &fns {
                    let s = &src.fns[*i];
                    if !own.contains(&s.path()) && s.sig.inputs.len() == 2 {
                        n += 1;
                        items.push(UItem::Fn(FnSpec { path: s.path(), rest: false, ..f.clone() }));
                    }
                }
                out.push((f.path.clone(), n));
                // a method that is not there any more
                let lacking: Vec<String> = own.iter().filter(|p| p.starts_with(&pre) && !fns.iter().any(|i| &src.fns[*i].path() == *p)).cloned().collect();
                for p in lacking {
                    let (name, model) = (p.rsplit("::").next().unwrap(), &src.fns[fns[0]]);
                    if !name.starts_with("visit_") { continue }
                    let Some(ty) = visited(name) else { continue };
                    let id = ident(name);
                    let (sig, block) = if name.starts_with("visit_mut_") {
                        (parse_quote!(fn #id(&mut self, n: &mut #ty)), parse_quote!({ n.visit_mut_children_with(self); }))
                    } else {
                        (parse_quote!(fn #id(&mut self, n: &#ty)), parse_quote!({ n.visit_children_with(self); }))
                    };
                    let g = SrcFn { file: model.file.clone(), attrs: vec![], sig, block, imp: model.imp.clone(), line: model.line };
                    src.fns.push(g);
                }
            }
            i => items.push(i),
        }
    }
    unit.items = items;
    out
}

fn derives(attrs: &[Attribute]) -> BTreeSet<String> {
    let mut s = BTreeSet::new();
    for a in attrs {
        if a.path().is_ident("derive") {
            let _ = a.parse_nested_meta(|m| {
                s.insert(m.path.segments.last().unwrap().ident.to_string());
                Ok(())
            });
        }
    }
    s
}

fn pub_fields(f: &mut Fields) {
    let named = matches!(f, Fields::Named(_));
    for fl in f.iter_mut() {
        fl.attrs.clear();
        let _ = named;
        fl.vis = parse_quote!(pub);
    }
}

fn default_clause(ty: &Type, place: &str) -> String {
    let t = ty.to_token_stream().to_string().replace(' ', "");
    match t.as_str() {
        "u32" | "usize" | "u64" | "u8" | "i32" => format!("{place} == 0"),
        "bool" => format!("{place} == false"),
        "String" => format!("{place}@ == Seq::<char>::empty()"),
        _ if t.starts_with("Option<") => format!("{place} is None"),
        _ if t.starts_with("Vec<") || t.starts_with("IndexMap<") || t.ends_with("Map") && t != "SourceMap" => format!("{place}@.len() == 0"),
        _ => format!("{t}::vx_is_default({place})"),
    }
}

fn emit_type(t: &Item) -> String {
    let texts = Texts::default();
    let mut s = String::new();
    match t {
        Item::Struct(st) => {
            let mut st = st.clone();
            let d = derives(&st.attrs);
            st.attrs.clear();
            st.vis = parse_quote!(pub);
            pub_fields(&mut st.fields);
            if d.contains("Copy") {
                s.push_str("#[derive(Clone, Copy)]\n");
            }
            for g in st.generics.type_params() {
                s.push_str(&format!("#[verifier::reject_recursive_types({})]\n", g.ident));
            }
            s.push_str(&print::print(st.to_token_stream(), &texts));
            s.push('\n');
            let n = &st.ident;
            if d.contains("Clone") && !d.contains("Copy") {
                s.push_str(&format!("impl Clone for {n} {{ #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self {{ unimplemented!() }} }}\n"));
            }
            if d.contains("Default") {
                let cl: Vec<String> = st.fields.iter().map(|f| default_clause(&f.ty, &format!("x.{}", f.ident.as_ref().unwrap()))).collect();
                let inits: Vec<String> = st.fields.iter().map(|f| format!("{}: Default::default()", f.ident.as_ref().unwrap())).collect();
                s.push_str(&format!("impl {n} {{ pub open spec fn vx_is_default(x: {n}) -> bool {{ {} }} }}\n", cl.join(" && ")));
                s.push_str(&format!("impl Default for {n} {{ fn default() -> (r: Self) ensures {n}::vx_is_default(r) {{ {n} {{ {} }} }} }}\n", inits.join(", ")));
            }
        }
        Item::Enum(en) => {
            let mut en = en.clone();
            let d = derives(&en.attrs);
            en.attrs.clear();
            en.vis = parse_quote!(pub);
            for v in en.variants.iter_mut() {
                v.attrs.clear();
                for fl in v.fields.iter_mut() {
                    fl.attrs.clear();
                }
            }
            if d.contains("Copy") {
                s.push_str("#[derive(Clone, Copy)]\n");
            }
            s.push_str(&print::print(en.to_token_stream(), &texts));
            s.push('\n');
            let n = &en.ident;
            if d.contains("Clone") && !d.contains("Copy") {
                s.push_str(&format!("impl Clone for {n} {{ #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self {{ unimplemented!() }} }}\n"));
            }
        }
        Item::Type(ty) => {
            let mut ty = ty.clone();
            ty.attrs.clear();
            ty.vis = parse_quote!(pub);
            s.push_str(&print::print(ty.to_token_stream(), &texts));
            s.push('\n');
        }
        _ => {}
    }
    s
}

struct Binds(Vec<String>, Vec<Vec<String>>, Vec<Vec<String>>, Vec<Vec<String>>, Vec<String>);
/// `vec![]`, `Vec::new()`, `Vec::with_capacity(..)`
fn empty_vec(e: &Expr) -> bool {
    let t = e.to_token_stream().to_string().replace(' ', "");
    t == "vec![]" || t.starts_with("Vec::new()") || t.starts_with("Vec::with_capacity(") || t.starts_with("Vec::<") && t.ends_with("::new()")
}
fn pat_idents(p: &Pat) -> Vec<String> {
    struct V(Vec<String>);
    impl<'a> Visit<'a> for V {
        fn visit_pat_ident(&mut self, p: &'a PatIdent) {
            self.0.push(p.ident.to_string());
            visit::visit_pat_ident(self, p)
        }
    }
    let mut v = V(vec![]);
    v.visit_pat(p);
    v.0.retain(|s| s.chars().next().map(|c| c.is_lowercase() || c == '_').unwrap_or(false));
    v.0
}
impl<'a> Visit<'a> for Binds {
    fn visit_local(&mut self, l: &'a Local) {
        self.0.extend(pat_idents(&l.pat));
        if l.init.as_ref().map(|i| empty_vec(&i.expr)).unwrap_or(false) {
            self.4.extend(pat_idents(&l.pat));
        }
        visit::visit_local(self, l)
    }
    fn visit_expr_for_loop(&mut self, f: &'a ExprForLoop) {
        self.1.push(pat_idents(&f.pat));
        visit::visit_expr_for_loop(self, f)
    }
    fn visit_expr_let(&mut self, l: &'a ExprLet) {
        self.3.push(pat_idents(&l.pat));
        visit::visit_expr_let(self, l)
    }
    fn visit_expr_closure(&mut self, c: &'a ExprClosure) {
        self.2.push(c.inputs.iter().flat_map(|p| pat_idents(p)).collect());
        visit::visit_expr_closure(self, c)
    }
}

fn fx(s: &str) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

fn loops_in(b: &Block) -> usize {
    struct V(usize);
    impl<'a> Visit<'a> for V {
        fn visit_expr_for_loop(&mut self, f: &'a ExprForLoop) {
            self.0 += 1;
            visit::visit_expr_for_loop(self, f)
        }
        fn visit_expr_while(&mut self, f: &'a ExprWhile) {
            self.0 += 1;
            visit::visit_expr_while(self, f)
        }
        fn visit_expr_loop(&mut self, f: &'a ExprLoop) {
            self.0 += 1;
            visit::visit_expr_loop(self, f)
        }
    }
    let mut v = V(0);
    v.visit_block(b);
    v.0
}

fn drop_bounds(g: &mut Generics) {
    let bad = |b: &TypeParamBound| -> bool {
        if let TypeParamBound::Trait(t) = b {
            let n = t.path.segments.last().unwrap().ident.to_string();
            return n == "Debug" || n == "Hash" || n == "Eq" || n == "PartialEq";
        }
        false
    };
    for p in g.params.iter_mut() {
        if let GenericParam::Type(t) = p {
            let v: Vec<TypeParamBound> = t.bounds.iter().filter(|b| !bad(b)).cloned().collect();
            t.bounds = v.into_iter().collect();
            if t.bounds.is_empty() {
                t.colon_token = None;
            }
        }
    }
    if let Some(w) = &mut g.where_clause {
        let mut ps = vec![];
        for p in w.predicates.iter() {
            let mut p = p.clone();
            if let WherePredicate::Type(t) = &mut p {
                let v: Vec<TypeParamBound> = t.bounds.iter().filter(|b| !bad(b)).cloned().collect();
                if v.is_empty() {
                    continue;
                }
                t.bounds = v.into_iter().collect();
            }
            ps.push(p);
        }
        w.predicates = ps.into_iter().collect();
    }
}

#[allow(clippy::type_complexity)]
fn emit_fn(f: &FnSpec, src: &Sources, contracted: &BTreeSet<String>, o: &Opts) -> std::result::Result<(String, Vec<String>, usize, String, bool, u64), String> {
    let sf = src.find_fn(&f.file, &f.path).ok_or_else(|| format!("function {} not found", f.path))?;
    let mut texts = Texts::default();
    let mut sig = sf.sig.clone();
    let mut block = sf.block.clone();
    let mut force_ext = f.external || o.external.contains(&f.path);
    let hash = fx(&format!("{} {}", sig.to_token_stream(), block.to_token_stream()));
    let mut errs: Vec<String> = vec![];
    Clean.visit_block_mut(&mut block);
    // `old` has a meaning of its own in contracts
    let mut rn = RenameIdent { map: [("old".to_string(), "old_".to_string())].into_iter().collect() };
    rn.visit_block_mut(&mut block);
    rn.visit_signature_mut(&mut sig);
    if let Some(mut sw) = Swc::new(src) {
        sw.visit_block_mut(&mut block);
        sw.visit_signature_mut(&mut sig);
    }
    // names
    let mut subst: BTreeMap<String, String> = BTreeMap::new();
    for a in sig.inputs.iter_mut() {
        if let FnArg::Typed(t) = a {
            t.attrs.clear();
        }
    }
    let pnames: Vec<String> = sig
        .inputs
        .iter()
        .filter_map(|a| match a {
            FnArg::Typed(t) => Some(pat_idents(&t.pat).first().cloned().unwrap_or("_".into())),
            _ => None,
        })
        .collect();
    if !f.params.is_empty() {
        if f.params.len() != pnames.len() {
            errs.push("parameter count changed".into());
        } else {
            for (a, b) in f.params.iter().zip(&pnames) {
                if a != b {
                    subst.insert(a.clone(), b.clone());
                }
            }
        }
    }
    let mut inlined = vec![];
    {
        let mut counter = 0usize;
        let mut inl = Inliner { src, contracted, self_ty: sf.type_name(), depth: 0, counter: &mut counter, inlined: &mut inlined, noinline: &f.noinline, file: sf.file.clone(), vars: Default::default() };
        for a in &sig.inputs {
            if let FnArg::Typed(t) = a {
                if let (Pat::Ident(i), Some(n)) = (&*t.pat, source::type_name(&t.ty)) {
                    inl.vars.insert(i.ident.to_string(), n);
                }
            }
        }
        if !force_ext {
            inl.visit_block_mut(&mut block);
        }
    }
    let mut bn = Binds(vec![], vec![], vec![], vec![], vec![]);
    bn.visit_block(&block);
    let mut lost: Vec<String> = vec![];
    for (n, k) in &f.locals {
        let all: Vec<&String> = bn.0.iter().chain(bn.1.iter().flatten()).chain(bn.2.iter().flatten()).chain(bn.3.iter().flatten()).collect();
        if all.iter().any(|x| *x == n) {
            continue;
        }
        let r: Option<String> = if let Some(r) = k.strip_prefix('f') {
            let (a, b) = r.split_once('.').unwrap();
            bn.1.get(a.parse::<usize>().unwrap()).and_then(|v| v.get(b.parse::<usize>().unwrap())).cloned()
        } else if let Some(r) = k.strip_prefix('i') {
            let (a, b) = r.split_once('.').unwrap();
            bn.3.get(a.parse::<usize>().unwrap()).and_then(|v| v.get(b.parse::<usize>().unwrap())).cloned()
        } else if let Some(r) = k.strip_prefix('v') {
            bn.4.get(r.parse::<usize>().unwrap()).cloned()
        } else if let Some(r) = k.strip_prefix('c') {
            let (a, b) = r.split_once('.').unwrap();
            bn.2.get(a.parse::<usize>().unwrap()).and_then(|v| v.get(b.parse::<usize>().unwrap())).cloned()
        } else {
            bn.0.get(k.parse::<usize>().unwrap()).cloned()
        };
        match r {
            Some(r) => {
                subst.insert(n.clone(), r);
            }
            None => lost.push(n.clone()),
        }
    }
    if !force_ext {
        LocalClosures(0).visit_block_mut(&mut block);
    }
    if !o.world.is_empty() {
        World { names: &o.world }.visit_block_mut(&mut block);
        Visitors.visit_block_mut(&mut block);
        let own = sig.ident.to_string();
        if in_world(&o.world, &own) || o.world.contains(&format!("{}::{own}", sf.type_name().unwrap_or_default())) {
            sig.inputs.push(parse_quote!(vxw: &mut World));
        }
    }
    let mut ds = Desugar { n: 0, errs: vec![], float: false, swc: Swc::new(src).is_some() };
    ds.visit_block_mut(&mut block);
    if !force_ext {
        errs.extend(ds.errs);
    }
    // the accumulator of a chain of iterators stands for the variable a loop would have
    if lost.len() == 1 && block.to_token_stream().to_string().matches("let mut acc =").count() == 1 {
        subst.insert(lost.remove(0), "acc".into());
    }
    errs.extend(lost.into_iter().map(|n| format!("local {n} lost")));
    let nl = loops_in(&block);
    let want = f.nloops.unwrap_or_else(|| f.loops.keys().max().map(|m| m + 1).unwrap_or(0));
    if nl != want && !force_ext {
        errs.push(format!("{nl} loops, contract has {want}"));
    }
    fnptr_params(&mut sig);
    drop_bounds(&mut sig.generics);
    if !f.header_extra.is_empty() {
        let preds: syn::punctuated::Punctuated<WherePredicate, Token![,]> = syn::parse::Parser::parse_str(syn::punctuated::Punctuated::parse_terminated, &f.header_extra).expect("%generics");
        sig.generics.make_where_clause().predicates.extend(preds);
    }
    let mut body = TokenStream::new();
    if !force_ext && errs.is_empty() {
        let mut at = Attach { spec: f, texts: &mut texts, loops: 0, closures: 0, errs: vec![], subst: subst.clone(), counted: vec![], counts: Default::default() };
        at.visit_block_mut(&mut block);
        let ncl = at.closures;
        let wantc = f.closures.keys().max().map(|m| m + 1).unwrap_or(0);
        let subst2 = at.subst.clone();
        errs.extend(at.errs);
        if ncl < wantc {
            errs.push(format!("{ncl} closures, contract has {wantc}"));
        }
        if errs.is_empty() {
            let clid = texts.add("C", subst_text(&f.clauses, &subst));
            let mut start = subst_text(&f.start, &subst2);
            if o.smoke {
                start.push_str("\nproof { assert(false); } // smoke\n");
            }
            let stid = texts.add("S", start);
            let stmts = &block.stmts;
            if f.end.trim().is_empty() {
                body = quote!({ #clid; #stid; #(#stmts)* });
            } else {
                let endid = texts.add("S", subst_text(&f.end, &subst2));
                let tail_is_expr = matches!(stmts.last(), Some(Stmt::Expr(_, None))) && !matches!(sig.output, ReturnType::Default);
                if tail_is_expr {
                    let (l, i) = stmts.split_last().unwrap();
                    let rn = f.ret.clone().unwrap_or("r".into());
                    let rid = ident(&format!("__vx_{rn}"));
                    let _ = &rid;
                    let rname = ident(&rn);
                    let ty = match &sig.output {
                        ReturnType::Type(_, t) => t.clone(),
                        _ => unreachable!(),
                    };
                    if ty.to_token_stream().to_string().contains("impl") {
                        body = quote!({ #clid; #stid; #(#i)* let #rname = #l; #endid; #rname });
                    } else {
                        body = quote!({ #clid; #stid; #(#i)* let #rname: #ty = #l; #endid; #rname });
                    }
                } else {
                    body = quote!({ #clid; #stid; #(#stmts)* #endid; });
                }
            }
        }
    }
    let mut status_err = None;
    if force_ext || !errs.is_empty() {
        if !force_ext {
            status_err = Some(errs.join("; "));
        }
        force_ext = true;
        let clid = texts.add("C", subst_text(&f.clauses, &subst));
        body = quote!({ #clid; unimplemented!() });
    }
    // signature
    if let Some(r) = &f.rename {
        sig.ident = ident(r.rsplit("::").next().unwrap());
    }
    if let ReturnType::Type(_, t) = &sig.output {
        let ts = print::print(t.to_token_stream(), &texts);
        let rn = f.ret.clone().unwrap_or("r".into());
        let id = texts.add("R", format!("({rn}: {})", ts.trim()));
        sig.output = parse_quote!(-> #id);
    }
    for a in sig.inputs.iter_mut() {
        if let FnArg::Typed(t) = a {
            if let Pat::Ident(p) = &mut *t.pat {
                let _ = p;
            }
        }
    }
    let mut s = String::new();
    let attrs = if force_ext { "#[verifier::external_body]\n".to_string() } else {
        let complex = if f.forloops.values().any(|t| t.contains("invariant_except_break")) { "#[verifier::allow_complex_invariants]\n" } else { "" };
        format!("#[verifier::loop_isolation(false)]\n{complex}#[verifier::spinoff_prover]\n{}\n", f.attrs)
    };
    let fnts = if f.in_trait { quote!(#sig #body) } else { quote!(pub #sig #body) };
    let txt = print::print(fnts, &texts);
    match &sf.imp {
        Some((g, tr, t)) if !f.free => {
            let (mut ig, mut t) = (g.clone(), t.clone());
            let mut tr = tr.clone();
            if let Some(mut sw) = Swc::new(src) {
                sw.visit_generics_mut(&mut ig);
                sw.visit_type_mut(&mut t);
                if let Some(tr) = &mut tr {
                    sw.visit_path_mut(tr);
                }
            }
            let hdr = match &tr {
                Some(tr) if f.in_trait => print::print(quote!(impl #ig #tr for #t), &Texts::default()),
                _ => print::print(quote!(impl #ig #t), &Texts::default()),
            };
            s.push_str(&format!("{hdr}{{\n{attrs}{txt}}}\n"));
        }
        _ => {
            s.push_str(&format!("{attrs}{txt}\n"));
        }
    }
    if let Some(e) = status_err {
        // emit trusted stub, report as lost
        return Ok((s, vec![format!("!{e}")], sf.line, sf.file.clone(), true, hash));
    }
    Ok((s, inlined, sf.line, sf.file.clone(), force_ext, hash))
}
