use quote::ToTokens;
use std::collections::HashMap;
use std::path::Path;
use syn::parse::{Parse, ParseStream};
use syn::*;

pub struct FnInfo { pub key: String, pub file: String, pub line: usize, pub sig: Signature, pub block: Block, pub self_ty: Option<String>, pub impl_generics: Option<Generics> }
pub struct Index { pub fns: Vec<FnInfo>, pub errors: Vec<String>, pub wrappers: HashMap<String, String>, pub consts: HashMap<String, String>, pub types: Vec<(String, String)> }

pub fn cfg_off(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| {
        if !a.path().is_ident("cfg") { return false; }
        let s: String = a.meta.to_token_stream().to_string().split_whitespace().collect();
        s.contains("cfg(test)") || (s.contains("feature=") && !s.contains("not(feature="))
    })
}
pub fn compact(s: &str) -> String {
    let mut t = s.to_string();
    for (a, b) in [(" < ", "<"), (" <", "<"), ("< ", "<"), (" >", ">"), (" ,", ","), ("& ", "&"), (" :: ", "::"), (" ::", "::"), (":: ", "::"), (" ;", ";"), ("[ ", "["), (" ]", "]"), ("( ", "("), (" )", ")"), (" (", "("), (" :", ":"), ("->", " -> ")] { t = t.replace(a, b); }
    while t.contains("  ") { t = t.replace("  ", " "); }
    t.trim().to_string()
}
fn last_seg(t: &Type) -> String {
    match t {
        Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
        Type::Reference(r) => last_seg(&r.elem),
        Type::Paren(p) => last_seg(&p.elem),
        _ => compact(&t.to_token_stream().to_string()),
    }
}

struct Delegate { field: Expr, fns: Vec<TraitItemFn> }
impl Parse for Delegate {
    fn parse(i: ParseStream) -> Result<Self> {
        let to: Ident = i.parse()?;
        if to != "to" { return Err(i.error("expected to")); }
        let field = Expr::parse_without_eager_brace(i)?;
        let c; braced!(c in i);
        let mut fns = vec![];
        while !c.is_empty() {
            let attrs = c.call(Attribute::parse_outer)?;
            let _v: Visibility = c.parse()?;
            let mut f: TraitItemFn = c.parse()?;
            f.attrs = attrs;
            fns.push(f);
        }
        Ok(Delegate { field, fns })
    }
}

impl Index {
    pub fn load(src: &Path) -> Index {
        let mut ix = Index { fns: vec![], errors: vec![], wrappers: HashMap::new(), consts: HashMap::new(), types: vec![] };
        let mut stack = vec![src.to_path_buf()];
        let mut files = vec![];
        while let Some(d) = stack.pop() {
            if let Ok(rd) = std::fs::read_dir(&d) { for e in rd.flatten() { let p = e.path(); if p.is_dir() { stack.push(p); } else if p.extension().map_or(false, |x| x == "rs") { files.push(p); } } }
        }
        files.sort();
        for p in files {
            let text = match std::fs::read_to_string(&p) { Ok(t) => t, Err(_) => continue };
            let module = { let s = p.file_stem().unwrap().to_string_lossy().to_string(); if s == "mod" { p.parent().unwrap().file_name().unwrap().to_string_lossy().to_string() } else { s } };
            match parse_file(&text) { Ok(f) => ix.items(&f.items, &module, &p.display().to_string()), Err(e) => ix.errors.push(format!("{}: {}", p.display(), e)) }
        }
        ix
    }
    fn add(&mut self, key: String, file: &str, sig: &Signature, block: &Block, self_ty: Option<String>, g: Option<&Generics>) {
        let line = sig.ident.span().start().line;
        self.fns.push(FnInfo { key, file: file.to_string(), line, sig: sig.clone(), block: block.clone(), self_ty, impl_generics: g.cloned() });
    }
    fn items(&mut self, items: &[Item], m: &str, file: &str) {
        for it in items {
            match it {
                Item::Fn(f) if !cfg_off(&f.attrs) => self.add(format!("{}::{}", m, f.sig.ident), file, &f.sig, &f.block, None, None),
                Item::Struct(t) if !cfg_off(&t.attrs) => { let mut f = t.fields.clone(); for x in f.iter_mut() { x.attrs.clear(); x.vis = Visibility::Inherited; } self.types.push((t.ident.to_string(), compact(&format!("struct {} {}", t.generics.to_token_stream(), f.to_token_stream())))); }
                Item::Enum(t) if !cfg_off(&t.attrs) => { let v: Vec<String> = t.variants.iter().filter(|v| !cfg_off(&v.attrs)).map(|v| { let mut v = v.clone(); v.attrs.clear(); for x in v.fields.iter_mut() { x.attrs.clear(); } compact(&v.to_token_stream().to_string()) }).collect(); self.types.push((t.ident.to_string(), format!("enum {}", v.join(", ")))); }
                Item::Type(t) if !cfg_off(&t.attrs) => self.types.push((t.ident.to_string(), compact(&format!("type {}", t.ty.to_token_stream())))),
                Item::Mod(md) if !cfg_off(&md.attrs) => { if let Some((_, its)) = &md.content { let n = md.ident.to_string(); self.items(its, &n, file); } }
                Item::Const(c) if !cfg_off(&c.attrs) => { self.consts.insert(c.ident.to_string(), c.expr.to_token_stream().to_string()); self.types.push((c.ident.to_string(), compact(&format!("const {} = {}", c.ty.to_token_stream(), c.expr.to_token_stream())))); }
                Item::Trait(t) if !cfg_off(&t.attrs) => for i in &t.items { if let TraitItem::Fn(f) = i { if let Some(b) = &f.default { self.add(format!("{}::{}::{}", m, t.ident, f.sig.ident), file, &f.sig, b, Some(t.ident.to_string()), None); } } },
                Item::Impl(im) if !cfg_off(&im.attrs) => {
                    let st = last_seg(&im.self_ty);
                    let prefix = match &im.trait_ {
                        None => st.clone(),
                        Some((_, p, _)) => {
                            let seg = p.segments.last().unwrap();
                            let tn = if seg.ident == "From" { compact(&seg.to_token_stream().to_string()) } else { seg.ident.to_string() };
                            format!("{}@{}", tn, st)
                        }
                    };
                    for i in &im.items {
                        match i {
                            ImplItem::Fn(f) if !cfg_off(&f.attrs) => {
                                if f.sig.ident == "deref" && f.block.stmts.len() == 1 {
                                    let b: String = f.block.stmts[0].to_token_stream().to_string().split_whitespace().collect();
                                    if let Some(x) = b.strip_prefix("&self.") { self.wrappers.insert(st.clone(), x.to_string()); }
                                }
                                self.add(format!("{}::{}::{}", m, prefix, f.sig.ident), file, &f.sig, &f.block, Some(st.clone()), Some(&im.generics));
                            }
                            ImplItem::Macro(mc) if mc.mac.path.is_ident("delegate") => {
                                match mc.mac.parse_body::<Delegate>() {
                                    Ok(d) => for f in d.fns {
                                        let mut callee = f.sig.ident.to_string();
                                        for a in &f.attrs { if a.path().is_ident("call") { if let Ok(id) = a.parse_args::<Ident>() { callee = id.to_string(); } } }
                                        let args: Vec<String> = f.sig.inputs.iter().filter_map(|a| match a { FnArg::Typed(t) => Some(t.pat.to_token_stream().to_string()), _ => None }).collect();
                                        let body = format!("{{ {}.{}({}){} }}", d.field.to_token_stream(), callee, args.join(","), if matches!(f.sig.output, ReturnType::Default) { ";" } else { "" });
                                        if let Ok(b) = parse_str::<Block>(&body) { self.add(format!("{}::{}::{}", m, prefix, f.sig.ident), file, &f.sig, &b, Some(st.clone()), Some(&im.generics)); }
                                    },
                                    Err(e) => self.errors.push(format!("{}: delegate: {}", file, e)),
                                }
                            }
                            _ => {}
                        }
                    }
                }
                _ => {}
            }
        }
    }
    pub fn find(&self, key: &str) -> Option<&FnInfo> {
        if let Some(f) = self.fns.iter().find(|f| f.key == key) { return Some(f); }
        // moved to another module: unique function with the same path below the module
        let tail = key.split_once("::").map(|x| x.1).unwrap_or(key);
        let c: Vec<&FnInfo> = self.fns.iter().filter(|f| f.key.split_once("::").map(|x| x.1) == Some(tail)).collect();
        if c.len() == 1 { Some(c[0]) } else { None }
    }
    /// free functions that print, directly or through the functions they call
    pub fn out_fns(&self) -> std::collections::HashSet<String> {
        let info: Vec<(String, String)> = self.fns.iter().filter(|f| f.self_ty.is_none()).map(|f| (f.sig.ident.to_string(), f.block.to_token_stream().to_string())).collect();
        let mut s: std::collections::HashSet<String> = info.iter().filter(|(_, b)| b.split_whitespace().any(|w| w == "println" || w == "print" || w == "println!" || w == "print!")).map(|x| x.0.clone()).collect();
        loop {
            let n = s.len();
            for (f, b) in &info { if !s.contains(f) && s.iter().any(|g| b.split_whitespace().collect::<Vec<_>>().windows(2).any(|w| w[0] == g && w[1].starts_with('('))) { s.insert(f.clone()); } }
            if s.len() == n { return s; }
        }
    }
    pub fn free_fn(&self, name: &str) -> Option<&FnInfo> {
        let c: Vec<&FnInfo> = self.fns.iter().filter(|f| f.self_ty.is_none() && f.sig.ident == name).collect();
        if c.len() == 1 { Some(c[0]) } else { None }
    }
}
