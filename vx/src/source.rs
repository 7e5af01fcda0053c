//! Loads /repo's sources and looks items up by name.
use std::collections::BTreeMap;
use syn::*;

pub struct SrcFn {
    pub file: String,
    pub attrs: Vec<Attribute>,
    pub sig: Signature,
    pub block: Block,
    /// enclosing impl: generics, trait path (if any), self type
    pub imp: Option<(Generics, Option<Path>, Type)>,
    pub line: usize,
}

impl SrcFn {
    pub fn type_name(&self) -> Option<String> {
        self.imp.as_ref().and_then(|(_, _, t)| type_name(t))
    }
    pub fn path(&self) -> String {
        match &self.imp {
            None => self.sig.ident.to_string(),
            Some((_, None, t)) => format!("{}::{}", type_name(t).unwrap_or_default(), self.sig.ident),
            Some((_, Some(tr), t)) => format!(
                "{}::{}",
                format!("{}@{}", tr.segments.last().unwrap().ident, type_name(t).unwrap_or_default()),
                self.sig.ident
            ),
        }
    }
}

pub fn type_name(t: &Type) -> Option<String> {
    match t {
        Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()),
        Type::Reference(r) => type_name(&r.elem),
        _ => None,
    }
}

#[derive(Default)]
pub struct Sources {
    pub repo: String,
    pub files: BTreeMap<String, File>,
    pub fns: Vec<SrcFn>,
    pub types: Vec<(String, Item)>,
    pub macros: Vec<(String, ItemMacro)>,
    pub consts: Vec<(String, Item)>,
    pub texts: BTreeMap<String, String>,
    pub lazies: std::collections::BTreeSet<String>,
}

fn is_test(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| {
        if a.path().is_ident("test") {
            return true;
        }
        if a.path().is_ident("cfg") {
            let s = quote::quote!(#a).to_string();
            return s.contains("test") || s.contains("vx_verif");
        }
        false
    })
}

impl Sources {
    pub fn load_crate(&mut self, crate_dir: &str) {
        // `registry:NAME`: the version of a dependency that /repo's lock file names
        let reg = crate_dir.strip_prefix("registry:").map(|n| {
            let lock = std::fs::read_to_string(std::path::Path::new(&self.repo).join("Cargo.lock")).unwrap_or_default();
            let pat = format!("name = \"{n}\"\nversion = \"");
            let v = lock.split(&pat).nth(1).and_then(|r| r.split('"').next()).unwrap_or("").to_string();
            let home = std::env::var("CARGO_HOME").unwrap_or_else(|_| format!("{}/.cargo", std::env::var("HOME").unwrap_or("/root".into())));
            let src = std::path::Path::new(&home).join("registry/src");
            let mut c: Vec<std::path::PathBuf> = std::fs::read_dir(&src).into_iter().flatten().flatten().map(|d| d.path().join(format!("{n}-{v}"))).filter(|p| p.is_dir()).collect();
            c.sort();
            c.into_iter().next().unwrap_or_else(|| panic!("vx: no source of {n} {v}"))
        });
        let root = match &reg {
            Some(d) => d.join("src"),
            None => std::path::Path::new(&self.repo).join(crate_dir).join("src"),
        };
        let mut stack = vec![root];
        let mut found = vec![];
        while let Some(d) = stack.pop() {
            if let Ok(rd) = std::fs::read_dir(&d) {
                for e in rd.flatten() {
                    let p = e.path();
                    if p.is_dir() {
                        stack.push(p)
                    } else if p.extension().map(|e| e == "rs").unwrap_or(false) {
                        found.push(p)
                    }
                }
            }
        }
        found.sort();
        let mut parsed = vec![];
        for p in found {
            let rel = match &reg {
                Some(d) => format!("{crate_dir}/{}", p.strip_prefix(d).unwrap().to_string_lossy()),
                None => p.strip_prefix(&self.repo).unwrap().to_string_lossy().trim_start_matches('/').to_string(),
            };
            let txt = std::fs::read_to_string(&p).unwrap();
            match parse_file(&txt) {
                Ok(f) => {
                    self.texts.insert(rel.clone(), txt);
                    parsed.push((rel.clone(), f.items.clone()));
                    self.files.insert(rel, f);
                }
                Err(e) => eprintln!("vx: cannot parse {rel}: {e}"),
            }
        }
        // macros of the repository are expanded (not those of dependencies)
        let mut defs = crate::mac::Defs::new();
        if reg.is_none() {
            for (_, its) in &parsed {
                for i in its {
                    if let Item::Macro(m) = i {
                        crate::mac::define(&mut defs, m);
                    }
                }
            }
        }
        for (rel, its) in parsed {
            let mut its = if reg.is_none() { crate::mac::items(&mut defs.clone(), &its) } else { its };
            if reg.is_none() {
                for i in its.iter_mut() {
                    visit_mut::VisitMut::visit_item_mut(&mut crate::mac::Stmts(&defs), i);
                }
            }
            self.collect(&rel, &its);
        }
    }
    pub fn collect(&mut self, file: &str, items: &[Item]) {
        for it in items {
            match it {
                Item::Fn(f) if !is_test(&f.attrs) => self.fns.push(SrcFn {
                    file: file.into(),
                    attrs: f.attrs.clone(),
                    sig: f.sig.clone(),
                    block: (*f.block).clone(),
                    imp: None,
                    line: f.sig.ident.span().start().line,
                }),
                Item::Impl(im) if !is_test(&im.attrs) => {
                    for ii in &im.items {
                        if let ImplItem::Fn(f) = ii {
                            if is_test(&f.attrs) {
                                continue;
                            }
                            self.fns.push(SrcFn {
                                file: file.into(),
                                attrs: f.attrs.clone(),
                                sig: f.sig.clone(),
                                block: f.block.clone(),
                                imp: Some((im.generics.clone(), im.trait_.as_ref().map(|t| t.1.clone()), (*im.self_ty).clone())),
                                line: f.sig.ident.span().start().line,
                            });
                        }
                    }
                }
                Item::Struct(s) if !is_test(&s.attrs) => self.types.push((file.into(), it.clone())),
                Item::Enum(s) if !is_test(&s.attrs) => self.types.push((file.into(), it.clone())),
                Item::Type(_) => self.types.push((file.into(), it.clone())),
                Item::Static(st) => {
                    // `static X: Lazy<T> = Lazy::new(|| body)` is read like a function `X() -> T`
                    if let (Type::Path(t), Expr::Call(c)) = (&*st.ty, &*st.expr) {
                        let seg = t.path.segments.last().unwrap();
                        if let (true, PathArguments::AngleBracketed(a), Some(Expr::Closure(cl))) = (seg.ident == "Lazy", &seg.arguments, c.args.first()) {
                            let (id, ty, b) = (&st.ident, &a.args, &cl.body);
                            self.lazies.insert(id.to_string());
                            self.fns.push(SrcFn { file: file.into(), attrs: vec![], sig: parse_quote!(fn #id() -> #ty), block: parse_quote!({ #b }), imp: None, line: st.ident.span().start().line });
                        }
                    }
                    self.consts.push((file.into(), it.clone()))
                }
                Item::Const(_) => self.consts.push((file.into(), it.clone())),
                Item::Macro(m) => {
                    if m.ident.is_some() {
                        self.macros.push((file.into(), m.clone()))
                    }
                }
                Item::Mod(m) if !is_test(&m.attrs) => {
                    if let Some((_, items)) = &m.content {
                        self.collect(file, items)
                    }
                }
                _ => {}
            }
        }
    }
    /// with the parameters of the trait: `Trait<N>@Type::f`
    fn full_path(f: &SrcFn) -> String {
        match &f.imp {
            Some((_, Some(tr), t)) => format!("{}@{}::{}", quote::quote!(#tr).to_string().replace(' ', "").rsplit("::").next().unwrap_or(""), type_name(t).unwrap_or_default(), f.sig.ident),
            _ => f.path(),
        }
    }
    pub fn find_fn(&self, file: &str, path: &str) -> Option<&SrcFn> {
        let c: Vec<&SrcFn> = self.fns.iter().filter(|f| f.path() == path || (path.contains(">@") && Self::full_path(f) == path)).collect();
        if let Some(f) = c.iter().find(|f| f.file.ends_with(file)) {
            return Some(f);
        }
        if c.len() == 1 {
            return Some(c[0]);
        }
        None
    }
    pub fn find_type(&self, file: &str, name: &str) -> Option<&Item> {
        let nm = |i: &Item| match i {
            Item::Struct(s) => s.ident.to_string(),
            Item::Enum(s) => s.ident.to_string(),
            Item::Type(s) => s.ident.to_string(),
            _ => String::new(),
        };
        let c: Vec<&(String, Item)> = self.types.iter().filter(|(_, i)| nm(i) == name).collect();
        if let Some(f) = c.iter().find(|f| f.0.ends_with(file)) {
            return Some(&f.1);
        }
        if c.len() == 1 {
            return Some(&c[0].1);
        }
        None
    }
}
