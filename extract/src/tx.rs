//! Source-to-source lowering of one function (syn AST -> text), see DESIGN.md "Extraction".
use crate::index::{cfg_off, compact, FnInfo, Index};
use quote::ToTokens;
use std::collections::{HashMap, HashSet};
use syn::*;

type R<T> = std::result::Result<T, String>;

/// What an identifier stands for when it is not simply itself.
#[derive(Clone, Debug)]
enum Al {
    Name(String),             // another name for the same value
    Ref(String),              // a reference to the place
    Shared(String),           // Arc<Mutex<..>> handle of the place
    RawPtr(String),           // raw pointer to the first element of the place
    RowMut(String, String),   // view of row r of matrix m (mutable)
    Col(String, String),      // view of column c of matrix m
    Fn(String),               // function passed by name
    Dropped,
}

/// `(&x)` as an indexed or dereferenced place is `x`
fn unref(s: String) -> String {
    let t = s.strip_prefix("(&mut ").or_else(|| s.strip_prefix("(&")).and_then(|t| t.strip_suffix(')'));
    match t { Some(t) if !t.is_empty() && t.chars().all(|c| c.is_alphanumeric() || c == '_') => t.to_string(), _ => s }
}

/// Symbolic iterator item.
#[derive(Clone, Debug)]
enum It {
    Val(String),
    Ref(String),
    RefMut(String),
    Cell(String, String, String, bool), // matrix cell (m, r, c), mutable reference?
    Tup(Vec<It>),
    RowV(String, String),
    ColV(String, String),
}

struct Pipe {
    setup: Vec<String>,
    init: String,
    cond: String,
    lines: Vec<String>,
    closes: usize,
    incr: String,
    item: It,
    idx: Option<String>, // plain position counter (None after filters)
    bound: HashSet<String>,
    remat: Option<(String, It)>, // counter name and item expression, if the item can be re-created from an index
    len: String,
}

struct Cx<'a> {
    ix: &'a Index,
    known: &'a HashSet<String>,
    al: HashMap<String, Al>,
    ty: HashMap<String, String>,
    scope: HashSet<String>,
    pre: Vec<String>,
    n: HashMap<&'static str, usize>,
    loops: Vec<Option<String>>,
    ret: String,
    self_ty: Option<String>,
    depth: usize,
    no_return: usize,
    hoist_temps: bool,
    top: bool,
    out: HashSet<String>,
}

pub fn extract(ix: &Index, f: &FnInfo, emit: &str, known: &HashSet<String>) -> R<(String, String)> {
    let mut cx = Cx { ix, known, al: HashMap::new(), ty: HashMap::new(), scope: HashSet::new(), pre: vec![], n: HashMap::new(), loops: vec![], ret: String::new(), self_ty: f.self_ty.clone(), depth: 0, no_return: 0, hoist_temps: false, top: true, out: ix.out_fns() };
    let sig = cx.signature(f, emit)?;
    let body = cx.block(&f.block)?;
    Ok((sig, body))
}

fn toks<T: ToTokens>(t: &T) -> String { compact(&t.to_token_stream().to_string()) }

fn strip_path_ty(t: &Type) -> String {
    // drop lifetimes and module prefixes in types
    struct V;
    impl visit_mut::VisitMut for V {
        fn visit_path_mut(&mut self, p: &mut Path) {
            if p.segments.len() > 1 {
                let l = p.segments.last().unwrap().clone();
                let first = p.segments.first().unwrap().ident.to_string();
                if first != "Self" && first.chars().next().map_or(false, |c| c.is_lowercase()) { p.segments = std::iter::once(l).collect(); p.leading_colon = None; }
            }
            if let Some(l) = p.segments.last_mut() { if l.ident == "FxHashSet" || l.ident == "HashSet" { l.ident = Ident::new("HSet", l.ident.span()); } if l.ident == "FxHashMap" || l.ident == "HashMap" { l.ident = Ident::new("HMap", l.ident.span()); } if l.ident == "NAMatrixRowView" { l.ident = Ident::new("RowView", l.ident.span()); } }
            visit_mut::visit_path_mut(self, p);
        }
    }
    let mut t = t.clone();
    visit_mut::VisitMut::visit_type_mut(&mut V, &mut t);
    toks(&t).replace("Box<dyn Error>", "BoxErr")
}

fn base_ty(s: &str) -> &str {
    let s = s.trim_start_matches('&');
    let s = s.strip_prefix("mut ").unwrap_or(s);
    s.trim()
}

fn is_simple(s: &str) -> bool { s.chars().all(|c| c.is_alphanumeric() || c == '_' || c == '.') && !s.is_empty() }

fn idents_in<T: ToTokens>(t: &T) -> HashSet<String> {
    fn go(ts: proc_macro2::TokenStream, o: &mut HashSet<String>) {
        for t in ts { match t { proc_macro2::TokenTree::Ident(i) => { o.insert(i.to_string()); } proc_macro2::TokenTree::Group(g) => go(g.stream(), o), _ => {} } }
    }
    let mut o = HashSet::new();
    go(t.to_token_stream(), &mut o);
    o
}

fn pat_idents(p: &Pat, o: &mut Vec<String>) {
    match p {
        Pat::Ident(i) => o.push(i.ident.to_string()),
        Pat::Reference(r) => pat_idents(&r.pat, o),
        Pat::Tuple(t) => t.elems.iter().for_each(|e| pat_idents(e, o)),
        Pat::TupleStruct(t) => t.elems.iter().for_each(|e| pat_idents(e, o)),
        Pat::Struct(s) => s.fields.iter().for_each(|f| pat_idents(&f.pat, o)),
        Pat::Slice(s) => s.elems.iter().for_each(|e| pat_idents(e, o)),
        Pat::Type(t) => pat_idents(&t.pat, o),
        Pat::Paren(t) => pat_idents(&t.pat, o),
        _ => {}
    }
}

/// does the body assign to, borrow mutably or shadow the identifier?
fn touches(b: &Block, id: &str) -> bool {
    use visit::Visit;
    struct V<'a> { id: &'a str, hit: bool }
    impl<'a, 'b> Visit<'b> for V<'a> {
        fn visit_expr_assign(&mut self, e: &'b ExprAssign) { if toks(&e.left) == self.id { self.hit = true; } visit::visit_expr_assign(self, e); }
        fn visit_expr_binary(&mut self, e: &'b ExprBinary) { if asg(&e.op).is_some() && toks(&e.left) == self.id { self.hit = true; } visit::visit_expr_binary(self, e); }
        fn visit_expr_reference(&mut self, e: &'b ExprReference) { if e.mutability.is_some() && toks(&e.expr) == self.id { self.hit = true; } visit::visit_expr_reference(self, e); }
        fn visit_pat_ident(&mut self, p: &'b PatIdent) { if p.ident == self.id { self.hit = true; } }
    }
    let mut v = V { id, hit: false };
    v.visit_block(b);
    v.hit
}

fn has_flow(e: &Expr) -> bool {
    use visit::Visit;
    struct V { hit: bool }
    impl<'b> Visit<'b> for V {
        fn visit_expr_return(&mut self, _: &'b ExprReturn) { self.hit = true; }
        fn visit_expr_try(&mut self, _: &'b ExprTry) { self.hit = true; }
        fn visit_expr_closure(&mut self, _: &'b ExprClosure) {}
    }
    let mut v = V { hit: false };
    v.visit_expr(e);
    v.hit
}

fn asg(op: &BinOp) -> Option<&'static str> {
    Some(match op { BinOp::AddAssign(_) => "+", BinOp::SubAssign(_) => "-", BinOp::MulAssign(_) => "*", BinOp::DivAssign(_) => "/", BinOp::RemAssign(_) => "%", BinOp::BitAndAssign(_) => "&", BinOp::BitOrAssign(_) => "|", BinOp::BitXorAssign(_) => "^", _ => return None })
}

/// does the iterator chain run in parallel
fn par_chain(e: &Expr) -> bool {
    match strip_paren(e) { Expr::MethodCall(m) => { let n = m.method.to_string(); n.starts_with("par_") || n == "into_par_iter" || par_chain(&m.receiver) } _ => false }
}
fn is_break(b: &Block) -> bool { b.stmts.len() == 1 && matches!(&b.stmts[0], Stmt::Expr(Expr::Break(b), _) if b.label.is_none() && b.expr.is_none()) }
fn else_is_break(e: &Expr) -> bool { matches!(e, Expr::Block(b) if b.label.is_none() && is_break(&b.block)) || matches!(e, Expr::Break(b) if b.label.is_none() && b.expr.is_none()) }
fn negate(e: &Expr) -> Expr {
    match strip_paren(e) { Expr::Unary(u) if matches!(u.op, UnOp::Not(_)) => strip_paren(&u.expr).clone(), x => parse_quote!(!(#x)) }
}
/// a leading `if C { break; }` of a loop body belongs to the loop condition (and the other ways to write that)
fn canon_loop(cond: Option<Expr>, body: &[Stmt]) -> (Option<Expr>, Vec<Stmt>) {
    let mut cond = cond; let mut st = body.to_vec();
    if matches!(cond.as_ref().map(strip_paren), Some(Expr::Let(_))) { return (cond, st); }
    if matches!(cond.as_ref().map(strip_paren), Some(Expr::Lit(l)) if matches!(&l.lit, Lit::Bool(b) if b.value)) { cond = None; }
    loop {
        let first = match st.first() { Some(Stmt::Expr(e, _)) => strip_paren(e).clone(), Some(Stmt::Local(l)) => {
            // let P = E else { break };
            if let (None, Some(i)) = (&cond, &l.init) { if let Some((_, d)) = &i.diverge { if else_is_break(d) {
                let (p, e) = (&l.pat, &i.expr); let c: Expr = parse_quote!(let #p = #e); return (Some(c), st[1..].to_vec());
            } } }
            break }, _ => break };
        match &first {
            Expr::If(i) if i.else_branch.is_none() && is_break(&i.then_branch) && !matches!(strip_paren(&i.cond), Expr::Let(_)) => {
                let n = negate(&i.cond);
                cond = Some(match &cond { None => n, Some(c) => { let c = strip_paren(c); parse_quote!(#c && #n) } });
                st.remove(0);
            }
            // loop { if C { rest } else { break } }
            Expr::If(i) if st.len() == 1 && cond.is_none() && i.else_branch.as_ref().map_or(false, |e| else_is_break(&e.1)) => {
                return (Some((*i.cond).clone()), i.then_branch.stmts.clone());
            }
            // loop { match E { P => rest, _ => break } }
            Expr::Match(m) if st.len() == 1 && cond.is_none() && m.arms.len() == 2 && m.arms.iter().all(|a| a.guard.is_none()) && (matches!(m.arms[1].pat, Pat::Wild(_)) || matches!(&m.arms[1].pat, Pat::Ident(i) if i.ident == "None")) && else_is_break(&m.arms[1].body) => {
                let (p, e) = (&m.arms[0].pat, &m.expr);
                let c: Expr = parse_quote!(let #p = #e);
                let rest = match &*m.arms[0].body { Expr::Block(b) => b.block.stmts.clone(), x => vec![Stmt::Expr(x.clone(), Some(Default::default()))] };
                return (Some(c), rest);
            }
            _ => break,
        }
    }
    (cond, st)
}

fn strip_paren(e: &Expr) -> &Expr { match e { Expr::Paren(p) => strip_paren(&p.expr), Expr::Group(p) => strip_paren(&p.expr), _ => e } }

fn path_ident(e: &Expr) -> Option<String> {
    match strip_paren(e) { Expr::Path(p) if p.qself.is_none() && p.path.segments.len() == 1 && matches!(p.path.segments[0].arguments, PathArguments::None) => Some(p.path.segments[0].ident.to_string()), _ => None }
}

impl<'a> Cx<'a> {
    fn fresh(&mut self, p: &'static str) -> String { let c = self.n.entry(p).or_insert(0); *c += 1; format!("_{}{}", p, c) }

    fn ty_str(&self, t: &Type) -> R<String> {
        if let Type::BareFn(b) = t {
            let a: Vec<String> = b.inputs.iter().map(|i| strip_path_ty(&i.ty)).collect();
            return Ok(format!("FNPTR({}){}", a.join(", "), match &b.output { ReturnType::Default => String::new(), ReturnType::Type(_, t) => format!(" -> {}", strip_path_ty(t)) }));
        }
        Ok(strip_path_ty(t))
    }

    fn signature(&mut self, f: &FnInfo, emit: &str) -> R<String> {
        let mut gens: Vec<(String, Vec<String>, bool)> = vec![]; // name, bounds, const
        let is_method = f.sig.inputs.iter().any(|a| matches!(a, FnArg::Receiver(_)));
        let mut srcs: Vec<&Generics> = vec![];
        if let Some(g) = &f.impl_generics { if !is_method { srcs.push(g); } }
        srcs.push(&f.sig.generics);
        for g in srcs {
            for p in &g.params {
                match p {
                    GenericParam::Type(t) => gens.push((t.ident.to_string(), t.bounds.iter().map(toks).collect(), false)),
                    GenericParam::Const(c) => gens.push((format!("const {}: {}", c.ident, toks(&c.ty)), vec![], true)),
                    GenericParam::Lifetime(_) => {}
                }
            }
            if let Some(w) = &g.where_clause {
                for p in &w.predicates {
                    if let WherePredicate::Type(t) = p {
                        let n = toks(&t.bounded_ty);
                        match gens.iter_mut().find(|x| x.0 == n) { Some(x) => x.1.extend(t.bounds.iter().map(toks)), None => return Err(format!("where bound on {}", n)) }
                    }
                }
            }
        }
        let mut args = vec![];
        if f.self_ty.is_none() && self.out.contains(&f.sig.ident.to_string()) { args.push("_out: &mut Out".to_string()); }
        for a in &f.sig.inputs {
            match a {
                FnArg::Receiver(r) => {
                    let s = if r.reference.is_some() { if r.mutability.is_some() { "&mut self" } else { "&self" } } else { "self" };
                    args.push(s.to_string());
                    if let Some(st) = &f.self_ty { self.ty.insert("self".into(), format!("&{}", st)); }
                    self.scope.insert("self".into());
                }
                FnArg::Typed(t) => {
                    let (name, m) = match &*t.pat { Pat::Ident(i) => (i.ident.to_string(), i.mutability.is_some()), Pat::Wild(_) => (self.fresh("arg"), false), _ => return Err("pattern in parameter".into()) };
                    let mut ty = self.ty_str(&t.ty)?;
                    if let Type::ImplTrait(it) = &*t.ty {
                        let g = self.fresh("G").trim_start_matches('_').to_string();
                        gens.push((g.clone(), it.bounds.iter().map(toks).collect(), false));
                        ty = g;
                    }
                    if let Some(sg) = ty.strip_prefix("FNPTR") {
                        let g = self.fresh("F").trim_start_matches('_').to_string();
                        gens.push((g.clone(), vec![format!("Fn{}", sg)], false));
                        ty = g;
                    }
                    self.ty.insert(name.clone(), ty.clone());
                    self.scope.insert(name.clone());
                    args.push(format!("{}{}: {}", if m { "mut " } else { "" }, name, ty));
                }
            }
        }
        let gs = if gens.is_empty() { String::new() } else { format!("<{}>", gens.iter().map(|(n, b, _)| if b.is_empty() { n.clone() } else { format!("{}: {}", n, b.join(" + ")) }).collect::<Vec<_>>().join(", ")) };
        let ret = match &f.sig.output {
            ReturnType::Default => String::new(),
            ReturnType::Type(_, t) => { let s = self.ty_str(t)?; self.ret = s.clone(); if s == "!" { " -> !".to_string() } else { format!(" -> (ret: {})", s) } }
        };
        if self.ret == "Self" { if let Some(s) = &f.self_ty { self.ret = s.clone(); } }
        Ok(format!("fn {}{}({}){}", emit, gs, args.join(", "), ret))
    }

    // ---------- blocks and statements ----------
    fn block(&mut self, b: &Block) -> R<String> {
        let saved_al = self.al.clone();
        let saved_ty = self.ty.clone();
        let saved_scope = self.scope.clone();
        let r = self.block_lines(&b.stmts);
        self.al = saved_al;
        self.ty = saved_ty;
        self.scope = saved_scope;
        Ok(format!("{{\n{}\n}}", r?.join("\n")))
    }

    fn block_lines(&mut self, stmts: &[Stmt]) -> R<Vec<String>> {
        let mut out = vec![];
        let n = stmts.len();
        let top = std::mem::take(&mut self.top);
        let mut i = 0;
        while i < n {
            let last = i + 1 == n;
            // two neighbouring raw element borrows of a slice
            if !last { if let (Some((x, s, a)), Some((y, t, b))) = (raw_elem(&stmts[i]), raw_elem(&stmts[i + 1])) { if s == t {
                let sv = self.ident_val(&s);
                out.push(format!("let ({}, {}) = slice_two_mut({}, {}, {});", x, y, sv, a, b));
                self.scope.insert(x); self.scope.insert(y);
                i += 2; continue;
            } } }
            let saved = std::mem::take(&mut self.pre);
            let r = match &stmts[i] { Stmt::Expr(e @ Expr::MethodCall(_), None) if top && last && !self.ret.is_empty() => { let w = self.ret.clone(); self.expr_ty(e, Some(&w)).map(|v| vec![v]) } s => self.stmt(s, last) };
            let pre = std::mem::replace(&mut self.pre, saved);
            let l = r?;
            out.extend(pre);
            out.extend(l);
            i += 1;
        }
        Ok(out)
    }

    /// lines of a body given as an expression (block or not), as statements; `tail` wraps the value
    fn body_stmts(&mut self, e: &Expr, tail: &dyn Fn(&str) -> String) -> R<Vec<String>> {
        let saved = std::mem::take(&mut self.pre);
        let r = (|| -> R<Vec<String>> {
            match strip_paren(e) {
                Expr::Block(b) if b.label.is_none() => {
                    let (al, ty, sc) = (self.al.clone(), self.ty.clone(), self.scope.clone());
                    let r = (|| -> R<Vec<String>> {
                        let st = &b.block.stmts;
                        let mut lines = vec![];
                        if let Some(Stmt::Expr(t, None)) = st.last() {
                            lines.extend(self.block_lines(&st[..st.len() - 1])?);
                            let v = self.expr(t)?;
                            lines.append(&mut self.pre);
                            lines.push(tail(&v));
                        } else { lines.extend(self.block_lines(st)?); }
                        Ok(lines)
                    })();
                    self.al = al; self.ty = ty; self.scope = sc;
                    r
                }
                _ => {
                    let v = self.expr(e)?;
                    let mut lines = std::mem::take(&mut self.pre);
                    lines.push(tail(&v));
                    Ok(lines)
                }
            }
        })();
        self.pre = saved;
        r
    }

    fn declare(&mut self, p: &Pat) {
        let mut v = vec![];
        pat_idents(p, &mut v);
        for x in v { self.al.remove(&x); self.ty.remove(&x); self.scope.insert(x); }
    }

    fn stmt(&mut self, s: &Stmt, last: bool) -> R<Vec<String>> {
        match s {
            Stmt::Local(l) => { if cfg_off(&l.attrs) { return Ok(vec![]); } self.local(l) }
            Stmt::Item(Item::Use(_)) => Ok(vec![]),
            Stmt::Item(Item::Const(c)) => { let v = self.expr(&c.expr)?; Ok(vec![format!("let {}: {} = {};", c.ident, strip_path_ty(&c.ty), v)]) }
            Stmt::Item(_) => Err("item inside a function".into()),
            Stmt::Macro(m) => { if cfg_off(&m.attrs) { return Ok(vec![]); } let s = self.mac(&m.mac)?; Ok(if s.is_empty() { vec![] } else if last && m.semi_token.is_none() { vec![s] } else { vec![format!("{};", s)] }) }
            Stmt::Expr(e, semi) => {
                if expr_cfg_off(e) { return Ok(vec![]); }
                self.expr_stmt(e, semi.is_some(), last)
            }
        }
    }

    fn expr_stmt(&mut self, e: &Expr, semi: bool, last: bool) -> R<Vec<String>> {
        match e {
            Expr::Paren(p) => return self.expr_stmt(&p.expr, semi, last),
            Expr::Assign(a) => return self.assign(&a.left, None, &a.right),
            Expr::Binary(b) if asg(&b.op).is_some() => return self.assign(&b.left, asg(&b.op), &b.right),
            Expr::ForLoop(f) => return self.for_loop(f),
            Expr::While(w) => return self.while_loop(w),
            Expr::Loop(l) => {
                if l.label.is_some() { return Err("labelled loop".into()); }
                let (c, st) = canon_loop(None, &l.body.stmts);
                if let Some(c) = c { return self.while_loop(&ExprWhile { attrs: vec![], label: None, while_token: Default::default(), cond: Box::new(c), body: Block { brace_token: Default::default(), stmts: st } }); }
                self.loops.push(None);
                let b = self.block(&l.body);
                self.loops.pop();
                return Ok(vec![format!("loop {}", b?)]);
            }
            Expr::Continue(c) => {
                if c.label.is_some() { return Err("label".into()); }
                let inc = self.loops.last().cloned().flatten();
                let mut v = vec![];
                if let Some(i) = inc { if !i.is_empty() { v.push(i); } }
                v.push("continue;".into());
                return Ok(v);
            }
            Expr::Break(b) => { if b.label.is_some() || b.expr.is_some() { return Err("break with label or value".into()); } return Ok(vec!["break;".into()]); }
            Expr::Unsafe(u) => {
                let t = Expr::Block(ExprBlock { attrs: vec![], label: None, block: u.block.clone() });
                if semi || last { let saved = std::mem::take(&mut self.pre); let r = self.block_lines(&u.block.stmts); self.pre = saved; let _ = t; return r; }
                return Ok(self.block_lines(&u.block.stmts)?);
            }
            Expr::Tuple(t) if t.elems.is_empty() && semi => return Ok(vec![]),
            Expr::Lit(_) if semi => return Ok(vec![]),
            Expr::Block(b) if semi && b.block.stmts.is_empty() => return Ok(vec![]),
            Expr::If(i) if matches!(&*i.cond, Expr::Lit(l) if matches!(&l.lit, Lit::Bool(b) if !b.value)) && i.else_branch.is_none() => return Ok(vec![]),
            Expr::MethodCall(m) => {
                if let Some(v) = self.stmt_call(m)? { return Ok(v); }
            }
            Expr::Call(c) => {
                if let Some(v) = self.rayon_scope(c)? { return Ok(v); }
            }
            _ => {}
        }
        let v = self.expr(e)?;
        if v.is_empty() { return Ok(vec![]); }
        if v == "()" && semi { return Ok(vec![]); }
        let blocklike = matches!(strip_paren(e), Expr::If(_) | Expr::Match(_) | Expr::Block(_) | Expr::ForLoop(_) | Expr::While(_));
        if last && !semi { return Ok(vec![v]); }
        if blocklike && v.ends_with('}') { return Ok(vec![v]); }
        Ok(vec![format!("{};", v)])
    }

    /// method-call statements with an effect-only meaning
    fn stmt_call(&mut self, m: &ExprMethodCall) -> R<Option<Vec<String>>> {
        let name = m.method.to_string();
        match name.as_str() {
            "for_each" if m.args.len() == 1 => {
                if let Some(p) = self.pipe(&m.receiver)? {
                    let (bind, body) = self.inline(&m.args[0], vec![p.item.clone()], &p.bound)?;
                    let mut lines = bind;
                    lines.extend(body.into_iter().map(|l| l));
                    let lines = self.emit_loop(p, lines);
                    return Ok(Some(if par_chain(&m.receiver) { self.own_cells(lines)? } else { lines }));
                }
            }
            "retain" if m.args.len() == 1 => {
                let x = self.expr(&m.receiver)?;
                let k = self.fresh("k");
                let c = self.fresh("c");
                let t = self.fresh("t");
                let (mut bind, val) = self.inline_val(&m.args[0], vec![It::Ref(format!("{}.it_at({})", x, k))], &HashSet::new())?;
                bind.push(format!("let {} = {};", t, val));
                let mut o = vec![format!("let mut {} = Vec::new();", c), format!("let mut {}: usize = 0;", k), format!("while {} < {}.it_len() {{", k, x)];
                o.extend(bind);
                o.push(format!("if {} {{ {}.push(*{}.it_at({})); }}", t, c, x, k));
                o.push(format!("{} = {} + 1;", k, k));
                o.push("}".into());
                o.push(format!("{}.vec_assign({});", x, c));
                return Ok(Some(o));
            }
            "shuffle" if m.args.len() == 1 => { let x = self.expr(&m.receiver)?; return Ok(Some(vec![format!("shuffle_any({});", self.reborrow(&m.receiver, x))])); }
            _ => {}
        }
        Ok(None)
    }

    fn reborrow(&self, e: &Expr, s: String) -> String {
        // argument position for a &mut [T] parameter
        if let Some(i) = path_ident(e) { if let Some(t) = self.ty.get(&i) { if t.starts_with("&mut") { return s; } } }
        format!("&mut {}", s)
    }

    fn rayon_scope(&mut self, c: &ExprCall) -> R<Option<Vec<String>>> {
        let f = toks(&c.func);
        if (f == "rayon::scope" || f == "scope" || f == "thread::scope" || f == "std::thread::scope") && c.args.len() == 1 {
            if let Expr::Closure(cl) = &c.args[0] {
                if let Some(Pat::Ident(s)) = cl.inputs.first() {
                    self.al.insert(format!("{}.spawn", s.ident), Al::Dropped);
                    let mut lines = self.body_stmts(&cl.body, &|v| format!("{};", v))?;
                    lines.retain(|l| l != "();" && !l.is_empty());
                    return Ok(Some(vec![format!("{{\n{}\n}}", lines.join("\n"))]));
                }
            }
            return Err("rayon::scope".into());
        }
        Ok(None)
    }

    fn local(&mut self, l: &Local) -> R<Vec<String>> {
        let (pat, ann) = match &l.pat { Pat::Type(t) => ((*t.pat).clone(), Some(strip_path_ty(&t.ty))), p => (p.clone(), None) };
        let init = match &l.init { None => { self.declare(&pat); return Ok(vec![format!("let {}{};", toks(&pat), ann.map(|a| format!(": {}", a)).unwrap_or_default())]); } Some(i) => i };
        if let Some((_, d)) = &init.diverge {
            // let P = e else { d };
            let v = self.expr(&init.expr)?;
            let b = match strip_paren(d) { Expr::Block(b) => self.block(&b.block)?, _ => return Err("let else".into()) };
            let (ps, binds) = self.refutable(&pat)?;
            if !binds.is_empty() { return Err("let else pattern".into()); }
            self.declare(&pat);
            return Ok(vec![format!("let {} = {} else {};", ps, v, b)]);
        }
        // aliases
        if let Pat::Ident(id) = &pat {
            let name = id.ident.to_string();
            if let Some(a) = self.alias_init(&init.expr)? { self.declare(&pat); if !matches!(a, Al::Dropped) { self.al.insert(name, a); } else { self.al.insert(name, Al::Dropped); } return Ok(vec![]); }
            if let Some(v) = self.arc_new(&init.expr)? { self.declare(&pat); self.al.insert(name.clone(), Al::Shared(name.clone())); return Ok(vec![format!("let mut {} = new_shared({});", name, v)]); }
            // an iterator that is stepped by hand
            if let Expr::MethodCall(m) = strip_paren(&init.expr) { if m.method == "into_iter" && id.mutability.is_some() { let r = self.expr(&m.receiver)?; self.declare(&pat); return Ok(vec![format!("let mut {} = {}.into_viter();", name, r)]); } }
        }
        // drop pure no-op bindings
        if let (Pat::Wild(_), e) = (&pat, strip_paren(&init.expr)) { if matches!(e, Expr::Lit(_) | Expr::Path(_) | Expr::Tuple(_) | Expr::Reference(_)) { return Ok(vec![]); } }
        let want = ann.clone();
        let need_lower = !native_pat(&pat);
        if need_lower { self.hoist_temps = true; }
        let v = self.expr_ty(&init.expr, want.as_deref());
        self.hoist_temps = false;
        let v = v?;
        let tref = match strip_paren(&init.expr) { Expr::Reference(_) => Some("&".to_string()), _ => None };
        let mut out = vec![];
        if need_lower {
            let d = if is_simple(&v) { v } else { let d = self.fresh("d"); out.push(format!("let {} = {};", d, v)); d };
            let b = self.bind(&pat, It::Val(d))?;
            self.declare(&pat);
            out.extend(b);
        } else {
            self.declare(&pat);
            if let Pat::Ident(i) = &pat { if let Some(a) = ann.clone().or(tref) { self.ty.insert(i.ident.to_string(), a); } else if let Some(t) = self.guess_ty(&init.expr) { self.ty.insert(i.ident.to_string(), t); } }
            let a = ann.filter(|a| !a.contains('_')).map(|a| format!(": {}", a)).unwrap_or_default();
            out.push(format!("let {}{} = {};", self.native_pat_str(&pat), a, unparen(v)));
        }
        Ok(out)
    }

    fn native_pat_str(&self, p: &Pat) -> String {
        match p { Pat::Tuple(t) => format!("({})", t.elems.iter().map(|e| self.native_pat_str(e)).collect::<Vec<_>>().join(", ")), Pat::Paren(p) => self.native_pat_str(&p.pat), _ => toks(p) }
    }

    fn guess_ty(&self, e: &Expr) -> Option<String> {
        match strip_paren(e) {
            Expr::Call(c) => { let f = toks(&c.func); if f.ends_with("NAMatrix::from_dim") { return Some("NAMatrix".into()); } None }
            Expr::Path(_) => path_ident(e).and_then(|i| self.ty.get(&i).cloned()),
            _ => None,
        }
    }

    fn alias_init(&mut self, e: &Expr) -> R<Option<Al>> {
        match strip_paren(e) {
            // let P = X.as_ptr() as *mut T
            Expr::Cast(c) if matches!(&*c.ty, Type::Ptr(_)) => {
                if let Expr::MethodCall(m) = strip_paren(&c.expr) { if m.method == "as_ptr" || m.method == "as_mut_ptr" {
                    let x = match path_ident(&m.receiver).and_then(|i| self.al.get(&i).cloned()) { Some(Al::Ref(x)) => x, _ => self.wrapped(&m.receiver)? };
                    return Ok(Some(Al::RawPtr(x)));
                } }
                Err("pointer cast".into())
            }
            Expr::MethodCall(m) if (m.method == "as_ptr" || m.method == "as_mut_ptr") => { let x = self.wrapped(&m.receiver)?; Ok(Some(Al::RawPtr(x))) }
            // let A = X.as_slice()
            Expr::MethodCall(m) if m.method == "as_slice" && path_ident(&m.receiver).is_some() => {
                let x = self.expr(&m.receiver)?;
                Ok(Some(Al::Ref(x)))
            }
            Expr::Call(c) => {
                let f = toks(&c.func);
                if f.ends_with("Arc::clone") && c.args.len() == 1 {
                    if let Expr::Reference(r) = strip_paren(&c.args[0]) { if let Some(i) = path_ident(&r.expr) { if let Some(a) = self.al.get(&i) { return Ok(Some(a.clone())); } } }
                    return Err("Arc::clone".into());
                }
                if f.ends_with("thread_rng") && c.args.is_empty() { return Ok(Some(Al::Dropped)); }
                Ok(None)
            }
            Expr::MethodCall(m) if m.method == "clone" && m.args.is_empty() => {
                if let Some(i) = path_ident(&m.receiver) { if let Some(a @ Al::Shared(_)) = self.al.get(&i) { return Ok(Some(a.clone())); } }
                Ok(None)
            }
            _ => Ok(None),
        }
    }

    fn arc_new(&mut self, e: &Expr) -> R<Option<String>> {
        if let Expr::Call(c) = strip_paren(e) {
            let f = toks(&c.func);
            if f.ends_with("Arc::new") && c.args.len() == 1 {
                if let Expr::Call(d) = strip_paren(&c.args[0]) { if toks(&d.func).ends_with("Mutex::new") && d.args.len() == 1 { return Ok(Some(self.expr(&d.args[0])?)); } }
                return Err("Arc::new".into());
            }
            if f.ends_with("Mutex::new") && c.args.len() == 1 { return Ok(Some(self.expr(&c.args[0])?)); }
        }
        Ok(None)
    }

    /// expression text of a place, going through Deref wrappers
    fn wrapped(&mut self, e: &Expr) -> R<String> {
        let s = unref(self.expr(e)?);
        if let Some(i) = path_ident(e) {
            if let Some(t) = self.ty.get(&i) { if let Some(f) = self.ix.wrappers.get(base_ty(t)) { if base_ty(t) != "NAMatrix" { return Ok(format!("{}.{}", s, f)); } } }
        }
        Ok(s)
    }

    fn matrix_like(&self, e: &Expr) -> bool {
        if let Some(i) = path_ident(e) { if let Some(t) = self.ty.get(&i) { let b = base_ty(t); return b == "NAMatrix" || b.starts_with("DMatrix"); } }
        false
    }

    // ---------- places and assignment ----------
    fn assign(&mut self, l: &Expr, op: Option<&str>, r: &Expr) -> R<Vec<String>> {
        if let Expr::Infer(_) = strip_paren(l) { let v = self.expr(r)?; return Ok(if is_simple(&v) { vec![] } else { vec![format!("let _ = {};", v)] }); }
        if let Expr::Tuple(t) = strip_paren(l) {
            if op.is_some() { return Err("tuple op-assign".into()); }
            let v = self.expr(r)?;
            let d = self.fresh("d");
            let mut o = vec![format!("let {} = {};", d, v)];
            for (i, x) in t.elems.iter().enumerate() { if matches!(x, Expr::Infer(_)) { continue; } let (s, p) = self.lplace(x)?; o.extend(s); o.push(self.write(&p, &format!("{}.{}", d, i))); }
            return Ok(o);
        }
        let mut rv = self.expr(r)?;
        let (setup, p) = self.lplace(l)?;
        if let Some(op) = op {
            if needs_paren(r) { rv = format!("({})", rv); }
            rv = format!("{} {} {}", self.read(&p), op, rv);
        }
        let mut o = setup;
        o.push(self.write(&p, &rv));
        Ok(o)
    }

    fn read(&self, p: &Pl) -> String { match p { Pl::Plain(s) => s.clone(), Pl::Mat(m, i, j) => format!("{}.at({}, {})", m, i, j) } }
    fn write(&self, p: &Pl, v: &str) -> String { match p { Pl::Plain(s) => format!("{} = {};", s, v), Pl::Mat(m, i, j) => format!("{}.put({}, {}, {});", m, i, j, v) } }

    fn lplace(&mut self, e: &Expr) -> R<(Vec<String>, Pl)> {
        match strip_paren(e) {
            Expr::Index(ix) => {
                if let Expr::Tuple(t) = strip_paren(&ix.index) { if t.elems.len() == 2 {
                    let (i, j) = (self.expr(&t.elems[0])?, self.expr(&t.elems[1])?);
                    if let Some(id) = path_ident(&ix.expr) { match self.al.get(&id).cloned() {
                        Some(Al::RowMut(m, r)) => { if i != "0" { return Err("row view index".into()); } return Ok((vec![], Pl::Mat(m, r, j))); }
                        Some(Al::Col(m, c)) => { if j != "0" { return Err("column view index".into()); } return Ok((vec![], Pl::Mat(m, i, c))); }
                        _ => {}
                    } }
                    let (s, m) = self.lplace_inner(&ix.expr)?;
                    return Ok((s, Pl::Mat(m, i, j)));
                } }
                let (s, b) = match path_ident(&ix.expr) { Some(_) => (vec![], self.wrapped(&ix.expr)?), None => self.lplace_inner(&ix.expr)? };
                let i = self.expr(&ix.index)?;
                Ok((s, Pl::Plain(format!("{}[{}]", b, i))))
            }
            Expr::Field(f) => {
                let (mut s, b) = self.lplace(&f.base)?;
                let b = match b { Pl::Plain(b) => b, Pl::Mat(m, i, j) => { let p = self.fresh("p"); s.push(format!("let {} = {}.at_mut({}, {});", p, m, i, j)); p } };
                Ok((s, Pl::Plain(format!("{}.{}", b, toks(&f.member)))))
            }
            Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) => {
                // *P.add(e)
                if let Some((x, off)) = self.ptr_add(&u.expr)? {
                    let p = self.fresh("p");
                    return Ok((vec![format!("let {} = {}.ptr_mut({});", p, x, off)], Pl::Plain(p)));
                }
                if let Some(i) = path_ident(&u.expr) { if let Some(Al::Ref(x)) = self.al.get(&i) { return Ok((vec![], Pl::Plain(x.clone()))); } }
                let (s, b) = self.lplace(&u.expr)?;
                match b { Pl::Plain(b) => Ok((s, Pl::Plain(format!("*{}", b)))), _ => Err("deref of matrix place".into()) }
            }
            Expr::Path(_) => { let v = self.expr(e)?; Ok((vec![], Pl::Plain(v))) }
            x => Err(format!("assignment to {}", toks(x))),
        }
    }
    fn lplace_inner(&mut self, e: &Expr) -> R<(Vec<String>, String)> {
        let (mut s, p) = self.lplace(e)?;
        Ok(match p { Pl::Plain(b) => (s, b), Pl::Mat(m, i, j) => { let p = self.fresh("p"); s.push(format!("let {} = {}.at_mut({}, {});", p, m, i, j)); (s, p) } })
    }

    fn ptr_add(&mut self, e: &Expr) -> R<Option<(String, String)>> {
        if let Expr::MethodCall(m) = strip_paren(e) {
            if m.method == "add" || m.method == "offset" { if let Some(i) = path_ident(&m.receiver) { if let Some(Al::RawPtr(x)) = self.al.get(&i).cloned() { let o = self.expr(&m.args[0])?; return Ok(Some((x, o))); } } }
        }
        Ok(None)
    }

    // ---------- loops ----------
    fn for_loop(&mut self, f: &ExprForLoop) -> R<Vec<String>> {
        if f.label.is_some() { return Err("labelled loop".into()); }
        let (al, ty, sc) = (self.al.clone(), self.ty.clone(), self.scope.clone());
        let r = self.for_loop2(f);
        self.al = al; self.ty = ty; self.scope = sc;
        r
    }
    fn for_loop2(&mut self, f: &ExprForLoop) -> R<Vec<String>> {
        if let Expr::Range(rg) = strip_paren(&f.expr) {
            // a plain counter is used as the loop variable itself if nothing can tell the difference
            if let Pat::Ident(i) = &*f.pat {
                let name = i.ident.to_string();
                if i.mutability.is_none() && i.by_ref.is_none() && !self.scope.contains(&name) && !touches(&f.body, &name) {
                    let (setup, lo, cond) = self.range(rg, &name)?;
                    let inc = format!("{} = {} + 1;", name, name);
                    self.declare(&f.pat);
                    self.loops.push(Some(inc.clone()));
                    let b = self.block_lines(&f.body.stmts);
                    self.loops.pop();
                    let mut o = setup;
                    o.push(format!("let mut {}: usize = {};", name, lo));
                    o.push(format!("while {} {{\n{}\n{}\n}}", cond, semi(b?).join("\n"), inc));
                    return Ok(o);
                }
            }
        }
        let p = match self.for_pipe(&f.expr)? { Some(p) => p, None => return Err(format!("for loop over {}", toks(&f.expr))) };
        let mut lines = self.bind(&f.pat, p.item.clone())?;
        self.loops.push(Some(p.incr.clone()));
        let b = self.block_lines(&f.body.stmts);
        self.loops.pop();
        lines.extend(semi(b?));
        Ok(self.emit_loop(p, lines))
    }

    fn for_pipe(&mut self, e: &Expr) -> R<Option<Pipe>> {
        match strip_paren(e) {
            Expr::Reference(r) => { let x = self.expr(&r.expr)?; Ok(Some(self.elems(x, if r.mutability.is_some() { "mut" } else { "ref" }))) }
            Expr::Path(_) => {
                let i = path_ident(e);
                let x = self.expr(e)?;
                let t = i.and_then(|i| self.ty.get(&i).cloned()).unwrap_or_default();
                Ok(Some(if t.starts_with("&mut") { self.elems(x, "mut") } else if t.starts_with('&') { self.elems(x, "ref") } else { self.elems(x, "own") }))
            }
            _ => self.pipe(e),
        }
    }

    fn range(&mut self, rg: &ExprRange, name: &str) -> R<(Vec<String>, String, String)> {
        let lo = match &rg.start { Some(s) => self.expr(s)?, None => return Err("range without start".into()) };
        let hi0 = match &rg.end { Some(s) => self.expr(s)?, None => return Err("range without end".into()) };
        let mut setup = std::mem::take(&mut self.pre);
        let hi = if is_simple(&hi0) && !hi0.contains('.') { hi0 } else { let e = self.fresh("e"); setup.push(format!("let {}: usize = {};", e, unparen(hi0))); e };
        let op = if matches!(rg.limits, RangeLimits::Closed(_)) { "<=" } else { "<" };
        Ok((setup, lo, format!("{} {} {}", name, op, hi)))
    }

    fn while_loop(&mut self, w: &ExprWhile) -> R<Vec<String>> {
        if w.label.is_some() { return Err("labelled loop".into()); }
        let (c, st) = canon_loop(Some((*w.cond).clone()), &w.body.stmts);
        if c.is_none() { self.loops.push(None); let b = self.block(&w.body); self.loops.pop(); return Ok(vec![format!("loop {}", b?)]); }
        let w = &ExprWhile { attrs: vec![], label: None, while_token: w.while_token, cond: Box::new(c.unwrap()), body: Block { brace_token: Default::default(), stmts: st } };
        let (al, ty, sc) = (self.al.clone(), self.ty.clone(), self.scope.clone());
        let r = (|| -> R<Vec<String>> {
            if let Expr::Let(l) = strip_paren(&w.cond) {
                // while let Some(P) = chain.find(..)
                if let (Pat::TupleStruct(ts), Expr::MethodCall(m)) = (&*l.pat, strip_paren(&l.expr)) {
                    if m.method == "find" && ts.path.is_ident("Some") && ts.elems.len() == 1 {
                        if let Some((lines, r, (k, item))) = self.find(m)? {
                            let j = self.fresh("j");
                            let mut o = lines;
                            o.push(format!("if {}.is_none() {{ break; }}", r));
                            o.push(format!("let {}: usize = {}.unwrap();", j, r));
                            let it = subst_item(&item, &k, &j);
                            o.extend(self.bind(&ts.elems[0], it)?);
                            self.declare(&ts.elems[0]);
                            self.loops.push(None);
                            let b = self.block_lines(&w.body.stmts);
                            self.loops.pop();
                            o.extend(b?);
                            return Ok(vec![format!("loop {{\n{}\n}}", o.join("\n"))]);
                        }
                    }
                }
                let v = self.expr(&l.expr)?;
                if !self.pre.is_empty() { return Err("while let over a chain".into()); }
                let (ps, binds) = self.refutable(&l.pat)?;
                self.declare(&l.pat);
                self.loops.push(None);
                let b = self.block_lines(&w.body.stmts);
                self.loops.pop();
                return Ok(vec![format!("while let {} = {} {{\n{}\n{}\n}}", ps, v, binds.join("\n"), b?.join("\n"))]);
            }
            let saved = std::mem::take(&mut self.pre);
            let c = self.expr(&w.cond);
            let pre = std::mem::replace(&mut self.pre, saved);
            let c = c?;
            self.loops.push(None);
            let b = self.block_lines(&w.body.stmts);
            self.loops.pop();
            if pre.is_empty() && c.contains("&mut ") { let q = self.fresh("q"); return Ok(vec![format!("loop {{\nlet {} = {};\nif !{} {{ break; }}\n{}\n}}", q, c, q, b?.join("\n"))]); }
            if pre.is_empty() { Ok(vec![format!("while {} {{\n{}\n}}", c, b?.join("\n"))]) }
            else { Ok(vec![format!("loop {{\n{}\nif !({}) {{ break; }}\n{}\n}}", pre.join("\n"), c, b?.join("\n"))]) }
        })();
        self.al = al; self.ty = ty; self.scope = sc;
        r
    }

    /// a parallel loop that writes through a raw pointer: every cell may be touched by one iteration only
    fn own_cells(&mut self, lines: Vec<String>) -> R<Vec<String>> {
        let text = lines.join("\n");
        let mut places: Vec<String> = vec![];
        for l in text.lines() { if let Some(i) = l.find(".ptr_mut(") { let x = l[..i].rsplit(' ').next().unwrap().to_string(); if !places.contains(&x) { places.push(x); } } }
        if places.is_empty() { return Ok(lines); }
        let k = match text.lines().take_while(|l| !l.starts_with("while ")).find_map(|l| l.strip_prefix("let mut ").and_then(|r| r.split(": usize").next()).filter(|r| r.starts_with("_k")).map(|r| r.to_string())) { Some(k) => k, None => return Err("parallel loop without a counter".into()) };
        let w = self.fresh("w");
        let mut out = vec![format!("let mut {} = Owners::new();", w)];
        for el in lines {
            let mut o: Vec<String> = vec![];
            for l in el.lines() {
                for (pi, x) in places.iter().enumerate() {
                    let mut at = 0;
                    while let Some(i) = l[at..].find(x.as_str()) {
                        let (st, en) = (at + i, at + i + x.len());
                        at = en;
                        if l[..st].ends_with(|c: char| c.is_alphanumeric() || c == '_' || c == '.') { continue; }
                        let rest = &l[en..];
                        if rest.starts_with(|c: char| c.is_alphanumeric() || c == '_') { continue; }
                        let (open, skip) = if rest.starts_with(".ptr_mut(") { (b'(', 9) } else if rest.starts_with(".ptr_read(") { (b'(', 10) } else if rest.starts_with('[') { (b'[', 1) }
                            else if [".it_len()", ".len()", ".shape()", ".nrows()", ".ncols()", ".dim()"].iter().any(|m| rest.starts_with(m)) { continue } else { return Err("shared place in a parallel loop".into()) };
                        if l.starts_with("while ") || l.starts_with("} else if") { return Err("shared place in a condition of a parallel loop".into()); }
                        let _ = open;
                        let (mut d, mut e) = (1, skip);
                        for c in rest[skip..].chars() { match c { '(' | '[' | '{' => d += 1, ')' | ']' | '}' => d -= 1, _ => {} } if d == 0 { break; } e += c.len_utf8(); }
                        if d != 0 || places.len() > 1 && pi > 0 { return Err("shared places in a parallel loop".into()); }
                        let call = format!("own_cell(&mut {}, {}, {});", w, &rest[skip..e], k);
                        if o.last().map_or(true, |p| *p != call) { o.push(call); }
                    }
                }
                o.push(l.to_string());
            }
            out.push(o.join("\n"));
        }
        Ok(out)
    }

    fn emit_loop(&mut self, p: Pipe, body: Vec<String>) -> Vec<String> {
        let mut o = p.setup;
        if !p.init.is_empty() { o.push(p.init); }
        let mut b = p.lines;
        b.extend(body);
        b.push("}".repeat(p.closes));
        if !p.incr.is_empty() { b.push(p.incr); }
        o.push(format!("while {} {{\n{}\n}}", p.cond, b.join("\n")));
        o
    }

    // ---------- iterator pipelines ----------
    fn elems(&mut self, x: String, kind: &str) -> Pipe {
        let k = self.fresh("k");
        let mut setup = std::mem::take(&mut self.pre);
        let x = if kind != "own" && !x.contains('(') { x } else if kind == "own" { let s = self.fresh("s"); setup.push(format!("let mut {} = {};", s, x)); s } else { let s = self.fresh("s"); setup.push(format!("let {} = &{};", s, x)); s };
        let item = match kind { "ref" => It::Ref(format!("{}.it_at({})", x, k)), "mut" => It::RefMut(format!("{}[{}]", x, k)), _ => It::Val(format!("{}.it_take({})", x, k)) };
        let remat = if kind == "own" { None } else { Some((k.clone(), item.clone())) };
        Pipe { setup, init: format!("let mut {}: usize = 0;", k), cond: format!("{} < {}.it_len()", k, x), lines: vec![], closes: 0, incr: format!("{} = {} + 1;", k, k), item, idx: Some(k), bound: HashSet::new(), remat, len: format!("{}.it_len()", x) }
    }
    fn counted(&mut self, len: String, item: &dyn Fn(&str) -> It) -> Pipe {
        let k = self.fresh("k");
        let setup = std::mem::take(&mut self.pre);
        let it = item(&k);
        Pipe { setup, init: format!("let mut {}: usize = 0;", k), cond: format!("{} < {}", k, len), lines: vec![], closes: 0, incr: format!("{} = {} + 1;", k, k), item: it.clone(), idx: Some(k.clone()), bound: HashSet::new(), remat: Some((k, it)), len }
    }

    fn place_for_iter(&mut self, e: &Expr) -> R<String> { self.wrapped(e) }

    fn pipe(&mut self, e: &Expr) -> R<Option<Pipe>> {
        let e = strip_paren(e);
        if let Expr::Range(rg) = e {
            let k = self.fresh("k");
            let (setup, lo, cond) = self.range(rg, &k)?;
            let idx = if lo == "0" { Some(k.clone()) } else { None };
            let len = cond.rsplit(' ').next().unwrap().to_string();
            return Ok(Some(Pipe { setup, init: format!("let mut {}: usize = {};", k, lo), cond, lines: vec![], closes: 0, incr: format!("{} = {} + 1;", k, k), item: It::Val(k.clone()), idx, bound: HashSet::new(), remat: Some((k.clone(), It::Val(k))), len }));
        }
        let m = match e { Expr::MethodCall(m) => m, _ => return Ok(None) };
        let name = m.method.to_string();
        match (name.as_str(), m.args.len()) {
            ("iter", 0) | ("par_iter", 0) => {
                if let Expr::MethodCall(r) = strip_paren(&m.receiver) { if r.method == "row_mut" || r.method == "row" { let mx = self.expr(&r.receiver)?; let rr = self.expr(&r.args[0])?; if r.method == "row_mut" { return Ok(Some(self.row_cells(mx, rr, false))); } } }
                if let Some(i) = path_ident(&m.receiver) { if let Some(Al::Col(mx, c)) = self.al.get(&i).cloned() { return Ok(Some(self.col_cells(mx, c, false))); } if let Some(Al::RowMut(mx, c)) = self.al.get(&i).cloned() { return Ok(Some(self.row_cells(mx, c, false))); } }
                let x = self.place_for_iter(&m.receiver)?;
                Ok(Some(self.elems(x, "ref")))
            }
            ("iter_mut", 0) | ("par_iter_mut", 0) => {
                if let Expr::MethodCall(r) = strip_paren(&m.receiver) { if r.method == "row_mut" { let mx = self.expr(&r.receiver)?; let rr = self.expr(&r.args[0])?; return Ok(Some(self.row_cells(mx, rr, true))); } }
                if let Some(i) = path_ident(&m.receiver) { if let Some(Al::Col(mx, c)) = self.al.get(&i).cloned() { return Ok(Some(self.col_cells(mx, c, true))); } if let Some(Al::RowMut(mx, c)) = self.al.get(&i).cloned() { return Ok(Some(self.row_cells(mx, c, true))); } }
                let x = self.place_for_iter(&m.receiver)?;
                Ok(Some(self.elems(x, "mut")))
            }
            ("into_iter", 0) | ("into_par_iter", 0) => {
                if let Expr::Range(_) = strip_paren(&m.receiver) { return self.pipe(&m.receiver); }
                if let Some(i) = path_ident(&m.receiver) {
                    if let Some(Al::Col(mx, c)) = self.al.get(&i).cloned() { return Ok(Some(self.col_cells(mx, c, false))); }
                    if let Some(t) = self.ty.get(&i) { if t.starts_with('&') { let x = self.expr(&m.receiver)?; return Ok(Some(self.elems(x, "ref"))); } }
                }
                if let Expr::Reference(r) = strip_paren(&m.receiver) { let x = self.expr(&r.expr)?; return Ok(Some(self.elems(x, if r.mutability.is_some() { "mut" } else { "ref" }))); }
                let x = self.expr(&m.receiver)?;
                Ok(Some(self.elems(x, "own")))
            }
            ("windows", 1) | ("par_windows", 1) => { let x = self.place_for_iter(&m.receiver)?; let n = self.expr(&m.args[0])?; let y = x.clone(); let n2 = n.clone(); Ok(Some(self.counted(format!("{}.n_windows({})", x, n), &move |k| It::Ref(format!("{}.window_at({}, {})", y, k, n2))))) }
            ("chunks_exact", 1) | ("par_chunks_exact", 1) => { let x = self.place_for_iter(&m.receiver)?; let n = self.expr(&m.args[0])?; let y = x.clone(); let n2 = n.clone(); Ok(Some(self.counted(format!("{}.n_chunks({})", x, n), &move |k| It::Ref(format!("{}.chunk_at({}, {})", y, k, n2))))) }
            ("chunks_exact_mut", 1) | ("par_chunks_exact_mut", 1) => { let x = self.place_for_iter(&m.receiver)?; let n = self.expr(&m.args[0])?; let y = x.clone(); let n2 = n.clone(); Ok(Some(self.counted(format!("{}.n_chunks({})", x, n), &move |k| It::Val(format!("{}.chunk_at_mut({}, {})", y, k, n2))))) }
            ("row_iter_mut", 0) | ("row_iter", 0) => { let x = unref(self.expr(&m.receiver)?); let y = x.clone(); Ok(Some(self.counted(format!("{}.nrows()", x), &move |k| It::RowV(y.clone(), k.to_string())))) }
            ("column_iter", 0) | ("par_column_iter", 0) | ("column_iter_mut", 0) | ("par_column_iter_mut", 0) => { let x = unref(self.expr(&m.receiver)?); let y = x.clone(); Ok(Some(self.counted(format!("{}.ncols()", x), &move |k| It::ColV(y.clone(), k.to_string())))) }
            ("with_min_len", 1) | ("with_max_len", 1) => self.pipe(&m.receiver),
            ("cloned", 0) | ("copied", 0) => {
                let p = match self.pipe(&m.receiver)? { Some(p) => p, None => return Ok(None) };
                let c = |i: &It| match i { It::Ref(x) => if name == "copied" { It::Val(format!("*{}", x)) } else { It::Val(format!("{}.clone()", x)) }, It::Cell(a, b, d, _) => It::Val(format!("{}.at({}, {})", a, b, d)), i => i.clone() };
                Ok(Some(Pipe { item: c(&p.item), remat: p.remat.as_ref().map(|(k, i)| (k.clone(), c(i))), ..p }))
            }
            ("enumerate", 0) => {
                let p = match self.pipe(&m.receiver)? { Some(p) => p, None => return Ok(None) };
                let k = match &p.idx { Some(k) => k.clone(), None => return Err("enumerate after a filter".into()) };
                let item = It::Tup(vec![It::Val(k.clone()), p.item.clone()]);
                let remat = p.remat.clone().map(|(c, i)| (c.clone(), It::Tup(vec![It::Val(k.clone()), i])));
                Ok(Some(Pipe { item, remat, ..p }))
            }
            ("skip", 1) => {
                let o = self.expr(&m.args[0])?;
                let p = match self.pipe(&m.receiver)? { Some(p) => p, None => return Ok(None) };
                let k = match (&p.idx, p.closes) { (Some(k), 0) => k.clone(), _ => return Err("skip".into()) };
                if !p.lines.is_empty() { return Err("skip after map".into()); }
                let off = self.fresh("o");
                let mut setup = p.setup;
                setup.push(format!("let {}: usize = {};", off, o));
                let e = self.fresh("e");
                setup.push(format!("let {}: usize = sat_sub({}, {});", e, p.len, off));
                let nk = format!("{} + {}", k, off);
                let item = subst_item(&p.item, &k, &nk);
                Ok(Some(Pipe { setup, cond: format!("{} < {}", k, e), len: e, remat: p.remat.map(|_| (k.clone(), item.clone())), item, ..Pipe { setup: vec![], init: p.init, cond: String::new(), lines: vec![], closes: 0, incr: p.incr, item: It::Val(String::new()), idx: p.idx, bound: p.bound, remat: None, len: String::new() } }))
            }
            ("take", 1) => {
                let o = self.expr(&m.args[0])?;
                let p = match self.pipe(&m.receiver)? { Some(p) => p, None => return Ok(None) };
                let k = match (&p.idx, p.closes) { (Some(k), 0) => k.clone(), _ => return Err("take".into()) };
                let e = self.fresh("e");
                let mut setup = p.setup;
                setup.push(format!("let {}: usize = {};", e, o));
                Ok(Some(Pipe { cond: format!("{} < {} && {}", k, e, p.cond), len: format!("min_of({}, {})", e, p.len), setup, ..Pipe { setup: vec![], ..p } }))
            }
            ("rev", 0) => {
                let p = match self.pipe(&m.receiver)? { Some(p) => p, None => return Ok(None) };
                let k = match &p.remat { Some((k, _)) if p.closes == 0 && p.lines.is_empty() => k.clone(), _ => return Err("rev".into()) };
                let lo = p.init.rsplit("= ").next().unwrap().trim_end_matches(';').to_string();
                if p.cond.contains("<=") || p.cond.contains("&&") { return Err("rev".into()); }
                Ok(Some(Pipe { init: format!("let mut {}: usize = {};", k, p.len), cond: format!("{} > {}", k, lo), lines: vec![format!("{} = {} - 1;", k, k)], incr: String::new(), idx: None, ..p }))
            }
            ("map", 1) | ("inspect", 1) if name == "map" => {
                if self.matrix_like(&m.receiver) { return Ok(None); }
                let mut p = match self.pipe(&m.receiver)? { Some(p) => p, None => return Ok(None) };
                let (b, v) = self.inline_item(&m.args[0], vec![p.item.clone()], &mut p.bound)?;
                let pure = b.is_empty();
                p.lines.extend(b);
                p.item = v;
                p.remat = if pure && is_pure_item(&p.item) { p.remat.map(|(k, _)| (k, p.item.clone())) } else { None };
                Ok(Some(p))
            }
            ("filter", 1) => {
                let mut p = match self.pipe(&m.receiver)? { Some(p) => p, None => return Ok(None) };
                let v = self.name_item(&mut p);
                let (b, c) = self.inline_val(&m.args[0], vec![as_ref(&v)], &p.bound.clone())?;
                p.lines.extend(b);
                p.lines.push(format!("if {} {{", c));
                p.closes += 1;
                p.item = v;
                p.idx = None;
                Ok(Some(p))
            }
            ("filter_map", 1) => {
                let mut p = match self.pipe(&m.receiver)? { Some(p) => p, None => return Ok(None) };
                let (b, c) = self.inline_val(&m.args[0], vec![p.item.clone()], &p.bound.clone())?;
                let f = self.fresh("f");
                let v = self.fresh("v");
                p.lines.extend(b);
                p.lines.push(format!("let {} = {};", f, c));
                p.lines.push(format!("if let Some({}) = {} {{", v, f));
                p.closes += 1;
                p.item = It::Val(v);
                p.idx = None;
                p.remat = None;
                Ok(Some(p))
            }
            ("zip", 1) => {
                let p = match self.pipe(&m.receiver)? { Some(p) => p, None => return Ok(None) };
                let q = match self.for_pipe(&m.args[0])? { Some(q) => q, None => return Err("zip".into()) };
                let (k, l) = match (&p.idx, &q.idx) { (Some(k), Some(l)) if q.lines.is_empty() && q.closes == 0 && p.closes == 0 => (k.clone(), l.clone()), _ => return Err("zip".into()) };
                // q's counter is replaced by p's
                let qi = subst_item(&q.item, &l, &k);
                let mut setup = p.setup.clone();
                setup.extend(q.setup.clone());
                let remat = match (&p.remat, &q.remat) { (Some((pk, pi)), Some(_)) => Some((pk.clone(), It::Tup(vec![pi.clone(), qi.clone()]))), _ => None };
                let qc = subst_word(&q.cond, &l, &k);
                Ok(Some(Pipe { setup, cond: format!("{} && {}", p.cond, qc), item: It::Tup(vec![p.item.clone(), qi]), len: format!("min_of({}, {})", p.len, q.len), remat, ..Pipe { setup: vec![], ..p } }))
            }
            _ => Ok(None),
        }
    }
    fn row_cells(&mut self, m: String, r: String, mu: bool) -> Pipe { let y = m.clone(); self.counted(format!("{}.ncols()", m), &move |k| It::Cell(y.clone(), r.clone(), k.to_string(), mu)) }
    fn col_cells(&mut self, m: String, c: String, mu: bool) -> Pipe { let y = m.clone(); self.counted(format!("{}.nrows()", m), &move |k| It::Cell(y.clone(), k.to_string(), c.clone(), mu)) }

    /// make sure a by-value item that is not a plain name is evaluated once
    fn name_item(&mut self, p: &mut Pipe) -> It {
        match &p.item {
            It::Val(v) if !is_simple(v) => { let n = self.fresh("v"); p.lines.push(format!("let {} = {};", n, v)); let it = It::Val(n); if p.remat.is_some() && !is_pure_item(&p.item) { p.remat = None; } it }
            i => i.clone(),
        }
    }
    fn item_val(&self, it: &It) -> String {
        match it {
            It::Val(v) => v.clone(), It::Ref(r) => if r.contains(".it_at(") || r.contains("window_at(") || r.contains("chunk_at(") { r.clone() } else { format!("&{}", r) }, It::RefMut(r) => format!("&mut {}", r),
            It::Cell(m, r, c, false) => format!("&{}.at({}, {})", m, r, c), It::Cell(m, r, c, true) => format!("{}.at_mut({}, {})", m, r, c),
            It::Tup(v) => format!("({})", v.iter().map(|i| self.item_val(i)).collect::<Vec<_>>().join(", ")),
            It::RowV(m, r) => format!("{}.row({})", m, r), It::ColV(m, c) => format!("{}.column({})", m, c),
        }
    }

    /// bind an irrefutable pattern to a symbolic item
    fn bind(&mut self, p: &Pat, it: It) -> R<Vec<String>> {
        match p {
            Pat::Wild(_) => Ok(match &it { It::Val(v) if v.contains(".it_take(") || v.contains("next(") => vec![format!("let _ = {};", v)], _ => vec![] }),
            Pat::Paren(p) => self.bind(&p.pat, it),
            Pat::Type(t) => self.bind(&t.pat, it),
            Pat::Ident(i) => {
                if i.subpat.is_some() { return Err("subpattern".into()); }
                let n = i.ident.to_string();
                self.declare(p);
                match &it {
                    It::RowV(m, r) => { self.al.insert(n, Al::RowMut(m.clone(), r.clone())); return Ok(vec![]); }
                    It::ColV(m, c) => { self.al.insert(n, Al::Col(m.clone(), c.clone())); return Ok(vec![]); }
                    It::Ref(_) => { self.ty.insert(n.clone(), "&".into()); }
                    It::RefMut(_) => { self.ty.insert(n.clone(), "&mut".into()); }
                    It::Cell(_, _, _, true) => { self.ty.insert(n.clone(), "&mut".into()); }
                    _ => {}
                }
                let mv = if i.mutability.is_some() { "mut " } else { "" };
                let v = self.item_val(&it);
                if i.by_ref.is_some() { return Ok(vec![format!("let {} = &{};", n, v)]); }
                Ok(vec![format!("let {}{} = {};", mv, n, v)])
            }
            Pat::Reference(r) => {
                let inner = match it {
                    It::Ref(x) => It::Val(if x.contains(".it_at(") || x.contains("window_at(") { if r.pat.as_ref().is_compound() { format!("(*{})", x) } else { format!("*{}", x) } } else { x }),
                    It::RefMut(x) => It::Val(x),
                    It::Cell(m, a, b, _) => It::Val(format!("{}.at({}, {})", m, a, b)),
                    It::Val(x) => It::Val(if r.pat.as_ref().is_compound() { format!("(*{})", x) } else { format!("*{}", x) }),
                    _ => return Err("reference pattern".into()),
                };
                self.bind(&r.pat, inner)
            }
            Pat::Tuple(t) => match it {
                It::Tup(v) => { if v.len() != t.elems.len() { return Err("tuple arity".into()); } let mut o = vec![]; for (p, i) in t.elems.iter().zip(v) { o.extend(self.bind(p, i)?); } Ok(o) }
                it => self.bind_fields(t.elems.iter().enumerate().map(|(i, p)| (i.to_string(), p.clone())).collect(), it),
            },
            Pat::TupleStruct(t) => {
                let f: Vec<(String, Pat)> = t.elems.iter().enumerate().map(|(i, p)| (i.to_string(), p.clone())).collect();
                self.bind_fields(f, it)
            }
            Pat::Struct(s) => { let f = s.fields.iter().map(|f| (toks(&f.member), (*f.pat).clone())).collect(); self.bind_fields(f, it) }
            Pat::Slice(s) => {
                let mut o = vec![];
                let (base, mk): (String, fn(String) -> It) = match it { It::Val(x) => (x, It::Val), It::Ref(x) => (x, It::Ref), _ => return Err("slice pattern".into()) };
                let (pre, b) = self.once(base, s.elems.len());
                o.extend(pre);
                for (i, p) in s.elems.iter().enumerate() { if matches!(p, Pat::Rest(_)) { return Err("rest pattern".into()); } o.extend(self.bind(p, mk(format!("{}[{}]", b, i)))?); }
                Ok(o)
            }
            x => Err(format!("pattern {}", toks(x))),
        }
    }
    fn once(&mut self, x: String, uses: usize) -> (Vec<String>, String) {
        if uses > 1 && (x.contains("it_take(") || x.contains(".next(")) { let d = self.fresh("d"); (vec![format!("let {} = {};", d, x)], d) } else { (vec![], x) }
    }
    fn bind_fields(&mut self, f: Vec<(String, Pat)>, it: It) -> R<Vec<String>> {
        let mut o = vec![];
        let n = f.len();
        let it = match it {
            It::Val(x) => { let (pre, b) = self.once(x, n); o.extend(pre); It::Val(b) }
            It::Cell(m, a, b, true) => { let d = self.fresh("d"); o.push(format!("let {} = {}.at_mut({}, {});", d, m, a, b)); It::RefMut(d) }
            It::Cell(m, a, b, false) => It::Val(format!("{}.at({}, {})", m, a, b)),
            i => i,
        };
        for (m, p) in f {
            let sub = match &it { It::Val(x) => It::Val(format!("{}.{}", x, m)), It::Ref(x) => It::Ref(format!("{}.{}", x, m)), It::RefMut(x) => It::RefMut(format!("{}.{}", x, m)), _ => return Err("field pattern".into()) };
            let sub = match (&sub, p.is_compound()) { (It::Ref(x), false) => It::Val(format!("&{}", x)), _ => sub };
            o.extend(self.bind(&p, sub)?);
        }
        Ok(o)
    }

    /// refutable pattern -> (native pattern text, lets)
    fn refutable(&mut self, p: &Pat) -> R<(String, Vec<String>)> {
        let mut binds = vec![];
        let s = self.refut(p, &mut binds)?;
        Ok((s, binds))
    }
    fn refut(&mut self, p: &Pat, b: &mut Vec<String>) -> R<String> {
        Ok(match p {
            Pat::Wild(_) | Pat::Ident(_) | Pat::Rest(_) => toks(p),
            Pat::Lit(_) => toks(p),
            Pat::Range(_) => toks(p),
            Pat::Path(q) => path_str(&q.path),
            Pat::Paren(q) => self.refut(&q.pat, b)?,
            Pat::Or(o) => { let mut v = vec![]; for c in &o.cases { v.push(self.refut(c, b)?); } v.join(" | ") }
            Pat::Tuple(t) => { let mut v = vec![]; for c in &t.elems { v.push(self.refut(c, b)?); } format!("({})", v.join(", ")) }
            Pat::TupleStruct(t) => { let mut v = vec![]; for c in &t.elems { v.push(self.refut(c, b)?); } format!("{}({})", path_str(&t.path), v.join(", ")) }
            Pat::Struct(t) => { let mut v = vec![]; for c in &t.fields { let s = self.refut(&c.pat, b)?; v.push(format!("{}: {}", toks(&c.member), s)); } if t.rest.is_some() { v.push("..".into()); } format!("{} {{ {} }}", path_str(&t.path), v.join(", ")) }
            Pat::Reference(r) => { let q = self.fresh("q"); b.extend(self.bind(&r.pat, It::Val(if r.pat.is_compound() { format!("(*{})", q) } else { format!("*{}", q) }))?); q }
            x => return Err(format!("pattern {}", toks(x))),
        })
    }

    /// inline a closure (or function) on items: statements only
    fn inline(&mut self, c: &Expr, args: Vec<It>, bound: &HashSet<String>) -> R<(Vec<String>, Vec<String>)> {
        match strip_paren(c) {
            Expr::Closure(cl) => {
                if has_flow(&cl.body) { return Err("return in closure".into()); }
                self.check_capture(cl, bound)?;
                let mut b = vec![];
                for (p, a) in cl.inputs.iter().zip(args) { b.extend(self.bind(p, a)?); self.declare_only_scope(p); }
                self.loops.push(None);
                let r = match strip_paren(&cl.body) {
                    Expr::Block(bl) if bl.label.is_none() => self.block_lines(&bl.block.stmts),
                    e => { let saved = std::mem::take(&mut self.pre); let r = self.expr_stmt(e, true, false); let pre = std::mem::replace(&mut self.pre, saved); r.map(|mut l| { let mut p = pre; p.append(&mut l); p }) }
                };
                self.loops.pop();
                let mut r = r?;
                if let Some(l) = r.last_mut() { if !l.ends_with(';') && !l.ends_with('}') { l.push(';'); } }
                Ok((b, r))
            }
            Expr::Path(p) => { let f = self.fn_path(&p.path)?; let a: Vec<String> = args.iter().map(|i| self.item_val(i)).collect(); Ok((vec![], vec![format!("{}({});", f, a.join(", "))])) }
            x => Err(format!("closure expected: {}", toks(x))),
        }
    }
    fn declare_only_scope(&mut self, p: &Pat) { let mut v = vec![]; pat_idents(p, &mut v); for x in v { self.scope.insert(x); } }
    fn check_capture(&self, cl: &ExprClosure, bound: &HashSet<String>) -> R<()> {
        if bound.is_empty() { return Ok(()); }
        let mut own = vec![];
        for p in &cl.inputs { pat_idents(p, &mut own); }
        for i in idents_in(&cl.body) { if bound.contains(&i) && !own.contains(&i) { return Err(format!("closure captures shadowed name {}", i)); } }
        Ok(())
    }
    fn inline_val(&mut self, c: &Expr, args: Vec<It>, bound: &HashSet<String>) -> R<(Vec<String>, String)> {
        let mut b = bound.clone();
        let (l, it) = self.inline_item(c, args, &mut b)?;
        Ok((l, self.item_val(&it)))
    }
    fn inline_item(&mut self, c: &Expr, args: Vec<It>, bound: &mut HashSet<String>) -> R<(Vec<String>, It)> {
        match strip_paren(c) {
            Expr::Closure(cl) => {
                if has_flow(&cl.body) { return Err("return in closure".into()); }
                self.check_capture(cl, bound)?;
                let mut lines = vec![];
                for (p, a) in cl.inputs.iter().zip(args) {
                    lines.extend(self.bind(p, a)?);
                    let mut v = vec![];
                    pat_idents(p, &mut v);
                    for x in v { self.scope.insert(x.clone()); bound.insert(x); }
                }
                let saved = std::mem::take(&mut self.pre);
                let r = (|| -> R<(Vec<String>, String)> {
                    match strip_paren(&cl.body) {
                        Expr::Block(b) if b.label.is_none() => {
                            let st = &b.block.stmts;
                            match st.last() { Some(Stmt::Expr(t, None)) => { let mut l = self.block_lines(&st[..st.len() - 1])?; let v = self.expr(t)?; l.append(&mut self.pre); Ok((l, v)) } _ => Err("closure without value".into()) }
                        }
                        e => { let v = self.expr(e)?; let l = std::mem::take(&mut self.pre); Ok((l, v)) }
                    }
                })();
                self.pre = saved;
                let (l, v) = r?;
                lines.extend(l);
                Ok((lines, It::Val(v)))
            }
            Expr::Path(p) => { let f = self.fn_path(&p.path)?; let a: Vec<String> = args.iter().map(|i| self.item_val(i)).collect(); Ok((vec![], It::Val(format!("{}({})", f, a.join(", "))))) }
            x => Err(format!("closure expected: {}", toks(x))),
        }
    }

    /// search loop; returns its lines, the name of the Option<usize> result, and how to re-create the item
    fn find(&mut self, m: &ExprMethodCall) -> R<Option<(Vec<String>, String, (String, It))>> {
        let saved = std::mem::take(&mut self.pre);
        let mut p = match self.pipe(&m.receiver)? { Some(p) => p, None => { self.pre = saved; return Ok(None) } };
        let rm = match (&p.remat, p.closes) { (Some(x), 0) => x.clone(), _ => return Err("find over a chain whose item cannot be re-created".into()) };
        let r = self.fresh("r");
        let it = p.item.clone();
        let (al, ty, sc) = (self.al.clone(), self.ty.clone(), self.scope.clone());
        let (b, c) = self.inline_val(&m.args[0], vec![as_ref(&it)], &p.bound.clone())?;
        self.al = al; self.ty = ty; self.scope = sc;
        p.cond = format!("{}.is_none() && {}", r, p.cond);
        let mut body = b;
        body.push(format!("if {} {{ {} = Some({}); }}", c, r, rm.0));
        let mut lines = vec![format!("let mut {}: Option<usize> = None;", r)];
        lines.extend(self.emit_loop(p, body));
        self.pre = saved;
        Ok(Some((lines, r, rm)))
    }

    /// value-producing terminal operations; returns the value expression (loop hoisted into `pre`)
    fn terminal(&mut self, m: &ExprMethodCall, want: Option<&str>) -> R<Option<String>> {
        let name = m.method.to_string();
        let turbo = m.turbofish.as_ref().map(|t| t.args.iter().map(|a| match a { GenericArgument::Type(t) => strip_path_ty(t), x => toks(x) }).collect::<Vec<_>>().join(", "));
        let isterm = matches!((name.as_str(), m.args.len()), ("sum", 0) | ("collect", 0) | ("all", 1) | ("any", 1) | ("find", 1) | ("position", 1) | ("min_by", 1) | ("max_by", 1) | ("min_by_key", 1) | ("max_by_key", 1) | ("max", 0) | ("min", 0) | ("count", 0) | ("fold", 2) | ("for_each", 1) | ("last", 0));
        if !isterm { return Ok(None); }
        let (al, ty, sc) = (self.al.clone(), self.ty.clone(), self.scope.clone());
        let r = self.terminal2(m, &name, turbo, want);
        self.al = al; self.ty = ty; self.scope = sc;
        r
    }
    fn terminal2(&mut self, m: &ExprMethodCall, name: &str, turbo: Option<String>, want: Option<&str>) -> R<Option<String>> {
        let saved = std::mem::take(&mut self.pre);
        if name == "find" {
            let f = self.find(m)?;
            return Ok(match f { None => { self.pre = saved; None } Some((l, r, (k, item))) => {
                let j = self.fresh("j");
                let it = subst_item(&item, &k, &j);
                self.pre = saved; self.pre.extend(l);
                Some(format!("(if let Some({}) = {} {{ Some({}) }} else {{ None }})", j, r, self.item_val(&it)))
            } });
        }
        // names of results come before those of nested loops
        let res = match name { "all" | "any" | "sum" | "fold" | "count" => self.fresh("a"), "collect" => self.fresh("c"), "position" => self.fresh("r"), "for_each" => String::new(), _ => self.fresh("m") };
        let mut p = match self.pipe(&m.receiver)? { Some(p) => p, None => {
            self.pre = saved;
            let key: &'static str = match name { "all" | "any" | "sum" | "fold" | "count" => "a", "collect" => "c", "position" => "r", "for_each" => "zz", _ => "m" };
            if let Some(c) = self.n.get_mut(key) { *c -= 1; }
            return Ok(None) } };
        let mut head = vec![];
        let bound = p.bound.clone();
        let value;
        let lines: Vec<String> = match name {
            "for_each" => { let (mut b, l) = self.inline(&m.args[0], vec![p.item.clone()], &bound)?; b.extend(l); value = "()".to_string(); b }
            "sum" => { head.push(format!("let mut {}{} = sum_zero();", res, turbo.or(want.filter(|w| *w == "f64" || *w == "usize").map(|s| s.to_string())).map(|t| format!(": {}", t)).unwrap_or_default())); let v = self.item_val(&p.item); value = res.clone(); vec![format!("{} = sum_add({}, {});", res, res, v)] }
            "count" => { head.push(format!("let mut {}: usize = 0;", res)); value = res.clone(); vec![format!("{} = {} + 1;", res, res)] }
            "collect" => {
                let t = turbo.or(want.map(|s| s.to_string())).unwrap_or_default();
                let set = t.starts_with("HSet");
                if !(t.is_empty() || set || t.starts_with("Vec") || t == "Path" || t.starts_with('_')) { return Err(format!("collect into {}", t)); }
                head.push(format!("let mut {} = {}::new();", res, if set { "HSet" } else { "Vec" }));
                value = res.clone();
                let v = self.item_val(&p.item);
                vec![if set { format!("{}.insert({});", res, v) } else { format!("{}.push({});", res, v) }]
            }
            "all" | "any" => {
                let all = name == "all";
                head.push(format!("let mut {} = {};", res, all));
                if p.closes > 0 { return Err("all/any after filter".into()); }
                let (mut b, v) = self.inline_val(&m.args[0], vec![p.item.clone()], &bound)?;
                p.cond = format!("{}{} && {}", if all { "" } else { "!" }, res, p.cond);
                b.push(format!("{} = {};", res, v));
                value = res.clone();
                b
            }
            "position" => {
                let k = match (&p.idx, p.closes) { (Some(k), 0) => k.clone(), _ => return Err("position".into()) };
                head.push(format!("let mut {}: Option<usize> = None;", res));
                let (mut b, v) = self.inline_val(&m.args[0], vec![p.item.clone()], &bound)?;
                p.cond = format!("{}.is_none() && {}", res, p.cond);
                b.push(format!("if {} {{ {} = Some({}); }}", v, res, k));
                value = res.clone();
                b
            }
            "fold" => {
                let i = self.expr(&m.args[0])?;
                head.append(&mut self.pre);
                head.push(format!("let mut {} = {};", res, i));
                let (mut b, v) = self.inline_val(&m.args[1], vec![It::Val(res.clone()), p.item.clone()], &bound)?;
                b.push(format!("{} = {};", res, v));
                value = res.clone();
                b
            }
            "last" => { head.push(format!("let mut {} = None;", res)); let v = self.item_val(&p.item); value = res.clone(); vec![format!("{} = Some({});", res, v)] }
            _ => {
                // min/max family
                head.push(format!("let mut {} = None;", res));
                let x = self.fresh("x");
                let t = self.fresh("t");
                let bb = self.fresh("b");
                let v = self.item_val(&p.item);
                let mut b = vec![format!("let {} = {};", x, v)];
                let better = match name {
                    "min_by" | "max_by" => {
                        let (l, c) = self.inline_val(&m.args[0], vec![It::Ref(format!("(*{})", bb)), It::Ref(x.clone())], &bound)?;
                        let f = if name == "min_by" { "ord_is_gt" } else { "ord_is_le" };
                        format!("{{ {} {}({}) }}", l.join("\n"), f, c)
                    }
                    "min_by_key" | "max_by_key" => {
                        let (l1, c1) = self.inline_val(&m.args[0], vec![It::Ref(format!("(*{})", bb))], &bound)?;
                        let (l2, c2) = self.inline_val(&m.args[0], vec![It::Ref(x.clone())], &bound)?;
                        let e = if name == "min_by_key" { "key_lt(_kx, _kb)" } else { "!key_lt(_kx, _kb)" };
                        format!("{{ let _kb = {{ {} {} }};\nlet _kx = {{ {} {} }};\n{} }}", l1.join("\n"), c1, l2.join("\n"), c2, e)
                    }
                    "min" => format!("{{ key_lt({}, *{}) }}", x, bb),
                    _ => format!("{{ !key_lt({}, *{}) }}", x, bb),
                };
                b.push(format!("let {} = if let Some({}) = opt_like(&{}, &{}) {} else {{ true }};", t, bb, res, x, better));
                b.push(format!("if {} {{ {} = Some({}); }}", t, res, x));
                value = res.clone();
                b
            }
        };
        let setup = std::mem::take(&mut p.setup);
        let mut all = setup;
        all.extend(head);
        let mut lp = self.emit_loop(p, lines);
        if name == "for_each" && par_chain(&m.receiver) { lp = self.own_cells(lp)?; }
        all.extend(lp);
        self.pre = saved;
        self.pre.extend(all);
        Ok(Some(value))
    }

    // ---------- expressions ----------
    fn ident_val(&self, i: &str) -> String {
        match self.al.get(i) { Some(Al::Name(x)) | Some(Al::Fn(x)) => x.clone(), Some(Al::Ref(x)) => format!("&{}", x), _ => i.to_string() }
    }

    fn path(&mut self, p: &Path) -> R<String> {
        let s = path_str(p);
        if p.segments.len() >= 2 {
            match s.as_str() {
                "f64::INFINITY" => return Ok("f64_infinity()".into()),
                "f64::MAX" => return Ok("f64_max_value()".into()),
                "f64::NEG_INFINITY" | "f64::NAN" | "f64::EPSILON" => return Err(s),
                _ => {}
            }
        }
        if p.segments.len() == 1 || s.chars().all(|c| c.is_uppercase() || c == '_' || c == ':') {
            let l = p.segments.last().unwrap();
            if let Some(v) = self.ix.consts.get(&l.ident.to_string()) { if !self.scope.contains(&l.ident.to_string()) { if v.chars().all(|c| c.is_ascii_digit()) { return Ok(v.clone()); } } }
        }
        Ok(s)
    }

    fn expr(&mut self, e: &Expr) -> R<String> { self.expr_ty(e, None) }

    fn block_value(&mut self, e: &Expr) -> R<String> {
        // expression as a block with its own prelude
        let lines = match e {
            Expr::Block(b) if b.label.is_none() => return self.block(&b.block),
            _ => {
                let saved = std::mem::take(&mut self.pre);
                let r = if matches!(e, Expr::Assign(_) | Expr::Return(_) | Expr::Break(_) | Expr::Continue(_)) || matches!(e, Expr::Binary(b) if asg(&b.op).is_some()) { self.expr_stmt(e, true, false) } else { self.expr(e).map(|v| vec![v]) };
                let pre = std::mem::replace(&mut self.pre, saved);
                let mut l = pre;
                l.extend(r?);
                l
            }
        };
        Ok(format!("{{\n{}\n}}", lines.join("\n")))
    }

    fn args(&mut self, a: &punctuated::Punctuated<Expr, token::Comma>) -> R<Vec<String>> { let mut v = vec![]; for x in a { v.push(self.expr(x)?); } Ok(v) }

    fn expr_ty(&mut self, e: &Expr, want: Option<&str>) -> R<String> {
        self.depth += 1;
        if self.depth > 400 { return Err("too deep".into()); }
        let r = self.expr2(e, want);
        self.depth -= 1;
        r
    }

    fn expr2(&mut self, e: &Expr, want: Option<&str>) -> R<String> {
        Ok(match e {
            Expr::Paren(p) => { let v = self.expr_ty(&p.expr, want)?; if is_simple(&v) || (v.starts_with('(') && matches!(&*p.expr, Expr::Tuple(_) | Expr::Paren(_))) || matches!(strip_paren(&p.expr), Expr::Call(_) | Expr::MethodCall(_) | Expr::Path(_)) { v } else { format!("({})", v) } }
            Expr::Group(p) => self.expr_ty(&p.expr, want)?,
            Expr::Lit(l) => lit(&l.lit)?,
            Expr::Path(p) => {
                if p.qself.is_some() { return Err("qualified path".into()); }
                if let Some(i) = path_ident(e) {
                    match self.al.get(&i).cloned() {
                        Some(Al::Name(x)) | Some(Al::Fn(x)) => return Ok(x),
                        Some(Al::Ref(x)) => return Ok(format!("(&{})", x)),
                        Some(Al::RowMut(m, r)) => return Ok(format!("{}.row({})", m, r)),
                        Some(Al::Shared(_)) | Some(Al::RawPtr(_)) | Some(Al::Col(..)) => return Err(format!("escaping alias {}", i)),
                        _ => {}
                    }
                }
                self.path(&p.path)?
            }
            Expr::Unary(u) => match u.op {
                UnOp::Deref(_) => {
                    if let Some((x, off)) = self.ptr_add(&u.expr)? { return Ok(format!("{}.ptr_read({})", x, off)); }
                    if let Some(i) = path_ident(&u.expr) { if let Some(Al::Ref(x)) = self.al.get(&i) { return Ok(x.clone()); } }
                    let v = self.expr(&u.expr)?;
                    format!("*{}", v)
                }
                UnOp::Not(_) => { let v = self.expr(&u.expr)?; if needs_paren(&u.expr) { format!("!({})", v) } else { format!("!{}", v) } }
                UnOp::Neg(_) => { if let Expr::Lit(l) = strip_paren(&u.expr) { if matches!(l.lit, Lit::Float(_)) { return Err("negative float literal".into()); } } let v = self.expr(&u.expr)?; format!("-{}", v) }
                _ => return Err("unary".into()),
            },
            Expr::Binary(b) => {
                if let BinOp::And(_) | BinOp::Or(_) = b.op {
                    let l = self.expr(&b.left)?;
                    let saved = std::mem::take(&mut self.pre);
                    let r = self.expr(&b.right);
                    let pre = std::mem::replace(&mut self.pre, saved);
                    let r = r?;
                    let op = if matches!(b.op, BinOp::And(_)) { "&&" } else { "||" };
                    if pre.is_empty() { return Ok(format!("{} {} {}", l, op, r)); }
                    let t = self.fresh("b");
                    self.pre.push(format!("let mut {} = {};", t, l));
                    self.pre.push(format!("if {}{} {{\n{}\n{} = {};\n}}", if op == "&&" { "" } else { "!" }, t, pre.join("\n"), t, r));
                    return Ok(t);
                }
                if asg(&b.op).is_some() { return Err("op-assign as value".into()); }
                let l = self.expr(&b.left)?;
                let r = self.expr(&b.right)?;
                // `0 < x as usize` style ambiguities are kept parenthesised
                let l = if matches!(strip_paren(&b.left), Expr::Cast(_)) && !l.starts_with('(') { format!("({})", l) } else { l };
                format!("{} {} {}", l, toks(&b.op), r)
            }
            Expr::Reference(r) => {
                let m = if r.mutability.is_some() { "&mut " } else { "&" };
                if let Expr::Array(a) = strip_paren(&r.expr) { if a.elems.is_empty() { return Ok(format!("{}[]", m)); } }
                if m == "&" { if let Expr::Index(i) = strip_paren(&r.expr) { if let Expr::Range(x) = strip_paren(&i.index) { if x.start.is_none() && x.end.is_none() { let v = self.wrapped(&i.expr)?; return Ok(format!("full_slice(&{})", v)); } } } }
                let mut v = self.expr(&r.expr)?;
                if m == "&mut " { if let Expr::Index(i) = strip_paren(&r.expr) { if let Expr::Range(_) = strip_paren(&i.index) { if let Some(k) = v.rfind('[') { v.insert_str(k, ".mut_slice()"); } } } }
                if self.hoist_temps && matches!(strip_paren(&r.expr), Expr::Call(_) | Expr::Struct(_) | Expr::MethodCall(_)) { let t = self.fresh("h"); self.pre.push(format!("let {} = {};", t, v)); return Ok(format!("{}{}", m, t)); }
                if m == "&" && v.contains(".at(") && matches!(strip_paren(&r.expr), Expr::Index(_)) { let t = self.fresh("h"); self.pre.push(format!("let {} = {};", t, v)); return Ok(format!("&{}", t)); }
                let inner = strip_paren(&r.expr);
                if let Expr::Path(_) = inner { if let Some(Al::Ref(x)) = path_ident(inner).and_then(|i| self.al.get(&i).cloned()) { return Ok(format!("{}{}", m, x)); } }
                if v.starts_with("&") { return Ok(format!("{}({})", m, v)); }
                format!("{}{}", m, v)
            }
            Expr::Field(f) => {
                let b = match strip_paren(&f.base) { Expr::Unary(_) | Expr::Binary(_) | Expr::Cast(_) => { let v = self.expr(&f.base)?; if v.starts_with('(') || v.contains(".ptr_read(") { v } else { format!("({})", v) } } x => self.expr(x)? };
                format!("{}.{}", b, toks(&f.member))
            }
            Expr::Index(i) => {
                if let Expr::Tuple(t) = strip_paren(&i.index) { if t.elems.len() == 2 {
                    let (a, b) = (self.expr(&t.elems[0])?, self.expr(&t.elems[1])?);
                    if let Some(id) = path_ident(&i.expr) { match self.al.get(&id).cloned() {
                        Some(Al::RowMut(m, r)) => { if a != "0" { return Err("row view index".into()); } return Ok(format!("{}.at({}, {})", m, r, b)); }
                        Some(Al::Col(m, c)) => { if b != "0" { return Err("column view index".into()); } return Ok(format!("{}.at({}, {})", m, a, c)); }
                        _ => {}
                    } }
                    let m = self.expr(&i.expr)?;
                    return Ok(format!("{}.at({}, {})", m, a, b));
                } }
                let b = self.wrapped(&i.expr)?;
                let x = match strip_paren(&i.index) {
                    Expr::Range(r) => { if matches!(r.limits, RangeLimits::Closed(_)) { return Err("closed range index".into()); } format!("{}..{}", match &r.start { Some(s) => self.expr(s)?, None => String::new() }, match &r.end { Some(s) => self.expr(s)?, None => String::new() }) }
                    x => self.expr(x)?,
                };
                format!("{}[{}]", b, x)
            }
            Expr::Tuple(t) => { let v = self.args(&t.elems)?; if v.len() == 1 { format!("({},)", v[0]) } else { format!("({})", v.join(", ")) } }
            Expr::Array(a) => { let v = self.args(&a.elems)?; format!("[{}]", v.join(", ")) }
            Expr::Repeat(r) => { let a = self.expr(&r.expr)?; let n = self.expr(&r.len)?; format!("[{}; {}]", a, n) }
            Expr::Cast(c) => { let v = self.expr(&c.expr)?; let v = if needs_paren(&c.expr) { format!("({})", v) } else { v }; format!("{} as {}", v, strip_path_ty(&c.ty)) }
            Expr::Struct(s) => {
                if s.rest.is_some() { return Err("struct update".into()); }
                let mut v = vec![];
                for f in &s.fields { let x = self.expr(&f.expr)?; v.push(format!("{}: {}", toks(&f.member), x)); }
                format!("{} {{ {} }}", path_str(&s.path), v.join(", "))
            }
            Expr::If(i) => self.if_expr(i)?,
            Expr::Match(m) => self.match_expr(m, want)?,
            Expr::Block(b) => { if b.label.is_some() { return Err("label".into()); } self.block(&b.block)? }
            Expr::Unsafe(u) => {
                if u.block.stmts.len() == 1 { if let Stmt::Expr(e, None) = &u.block.stmts[0] { return self.expr_ty(e, want); } }
                self.block(&u.block)?
            }
            Expr::Return(r) => match &r.expr { None => "return".to_string(), Some(x) => { let rt = self.ret.clone(); let v = self.expr_ty(x, Some(&rt))?; format!("return {}", v) } },
            Expr::Break(_) => "break".to_string(),
            Expr::Continue(_) => { match self.loops.last().cloned().flatten() { Some(i) if !i.is_empty() => format!("{{ {} continue; }}", i), _ => "continue".to_string() } }
            Expr::Assign(_) => { let l = self.expr_stmt(e, true, false)?; format!("{{ {} }}", l.join("\n")) }
            Expr::Macro(m) => { if cfg_off(&m.attrs) { String::new() } else { let s = self.mac(&m.mac)?; if s.is_empty() { "()".into() } else { s } } }
            Expr::Call(c) => self.call(c, want)?,
            Expr::MethodCall(m) => self.mcall(m, want)?,
            Expr::Try(t) => {
                let v = self.expr(&t.expr)?;
                format!("(match {} {{ Ok(_ok) => _ok, Err(_err) => {{ return Err(err_into(_err)); }} }})", v)
            }
            Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_) => { let l = self.expr_stmt(e, false, true)?; format!("{{\n{}\n}}", l.join("\n")) }
            Expr::Let(_) => return Err("let chain".into()),
            Expr::Range(_) => return Err("range value".into()),
            x => return Err(format!("unsupported expression: {}", toks(x).chars().take(80).collect::<String>())),
        })
    }

    fn if_expr(&mut self, i: &ExprIf) -> R<String> {
        let (al, ty, sc) = (self.al.clone(), self.ty.clone(), self.scope.clone());
        let head;
        let then;
        if let Expr::Let(l) = strip_paren(&i.cond) {
            let v = self.expr(&l.expr)?;
            let (ps, binds) = self.refutable(&l.pat)?;
            self.declare_only_scope(&l.pat);
            head = format!("if let {} = {}", ps, v);
            let b = self.block_lines_saved(&i.then_branch.stmts)?;
            then = format!("{{\n{}\n{}\n}}", binds.join("\n"), b.join("\n"));
        } else {
            if matches!(&*i.cond, Expr::Binary(b) if has_let(&b.left) || has_let(&b.right)) { return Err("let chain".into()); }
            let c = self.expr(&i.cond)?;
            head = format!("if {}", c);
            then = self.block(&i.then_branch)?;
        }
        self.al = al; self.ty = ty; self.scope = sc;
        let els = match &i.else_branch {
            None => String::new(),
            Some((_, e)) => match strip_paren(e) {
                Expr::If(j) => {
                    let saved = std::mem::take(&mut self.pre);
                    let r = self.if_expr(j);
                    let pre = std::mem::replace(&mut self.pre, saved);
                    let r = r?;
                    if pre.is_empty() { format!(" else {}", r) } else { format!(" else {{\n{}\n{}\n}}", pre.join("\n"), r) }
                }
                Expr::Block(b) => format!(" else {}", self.block(&b.block)?),
                _ => return Err("else".into()),
            },
        };
        Ok(format!("{} {}{}", head, then, els))
    }
    fn block_lines_saved(&mut self, s: &[Stmt]) -> R<Vec<String>> { let saved = std::mem::take(&mut self.pre); let r = self.block_lines(s); self.pre = saved; r }

    fn match_expr(&mut self, m: &ExprMatch, _want: Option<&str>) -> R<String> {
        let scrut = self.expr(&m.expr)?;
        let arms: Vec<&Arm> = m.arms.iter().filter(|a| !cfg_off(&a.attrs)).collect();
        // constant dispatch -> if chain
        let is_const = arms.iter().all(|a| a.guard.is_none() && match &a.pat { Pat::Wild(_) => true, Pat::Lit(_) => true, Pat::Path(p) => self.ix.consts.contains_key(&p.path.segments.last().unwrap().ident.to_string()), Pat::Ident(i) => self.ix.consts.contains_key(&i.ident.to_string()), _ => false }) && arms.iter().any(|a| !matches!(a.pat, Pat::Wild(_) | Pat::Lit(_)));
        if is_const && is_simple(&scrut) {
            let mut s = String::new();
            for (n, a) in arms.iter().enumerate() {
                let b = self.block_value(&a.body)?;
                let c = match &a.pat { Pat::Wild(_) => None, Pat::Lit(l) => Some(toks(l)), Pat::Path(p) => Some(self.path(&p.path)?), Pat::Ident(i) => self.ix.consts.get(&i.ident.to_string()).cloned(), _ => None };
                match c { Some(c) => s.push_str(&format!("{}if {} == {} {}", if n > 0 { " else " } else { "" }, scrut, c, b)), None => { s.push_str(&format!(" else {}", b)); break; } }
            }
            return Ok(s);
        }
        let mut s = format!("match {} {{\n", scrut);
        for a in arms {
            let (al, ty, sc) = (self.al.clone(), self.ty.clone(), self.scope.clone());
            let (p, binds) = self.refutable(&a.pat)?;
            self.declare_only_scope(&a.pat);
            let g = match &a.guard { None => String::new(), Some((_, g)) => { if !binds.is_empty() { return Err("guard with reference pattern".into()); } let n = self.pre.len(); let v = self.expr(g)?; if self.pre.len() != n { return Err("chain in match guard".into()); } format!(" if {}", v) } };
            let b = self.block_value(&a.body)?;
            let b = if binds.is_empty() { b } else { format!("{{\n{}\n{}\n}}", binds.join("\n"), b) };
            self.al = al; self.ty = ty; self.scope = sc;
            s.push_str(&format!("{}{} => {}\n", p, g, b));
        }
        s.push('}');
        Ok(s)
    }

    fn mac(&mut self, m: &Macro) -> R<String> {
        let name = m.path.segments.last().unwrap().ident.to_string();
        match name.as_str() {
            "eprintln" | "eprint" => Ok(String::new()),
            // what a report shows: one entry per value, whatever the words around it; `{}` and `{:?}` show the value itself
            "println" | "print" => {
                let args = m.parse_body_with(punctuated::Punctuated::<Expr, token::Comma>::parse_terminated).map_err(|e| e.to_string())?;
                let fmt = match args.first() { None => return Ok("()".into()), Some(Expr::Lit(ExprLit { lit: Lit::Str(l), .. })) => l.value(), _ => return Err("println".into()) };
                let mut pos = vec![]; let mut named: HashMap<String, Expr> = HashMap::new();
                for a in args.iter().skip(1) { match a { Expr::Assign(x) => { named.insert(path_ident(&x.left).ok_or("println argument")?, (*x.right).clone()); } _ => pos.push(a.clone()) } }
                let (mut out, mut next) = (vec![], 0);
                let mut rest = fmt.replace("{{", "").replace("}}", "");
                while let Some(k) = rest.find('{') {
                    let e = rest[k..].find('}').ok_or("println format")? + k;
                    let h = rest[k + 1..e].to_string(); rest = rest[e + 1..].to_string();
                    let (n, f) = match h.split_once(':') { Some((n, f)) => (n.trim().to_string(), f.trim().to_string()), None => (h.trim().to_string(), String::new()) };
                    let x = if n.is_empty() { next += 1; pos.get(next - 1).cloned().ok_or("println argument")? } else if let Ok(k) = n.parse::<usize>() { pos.get(k).cloned().ok_or("println argument")? } else { match named.get(&n) { Some(x) => x.clone(), None => parse_str::<Expr>(&n).map_err(|e| e.to_string())? } };
                    let v = self.expr(&x)?;
                    let v = if needs_paren(&x) { format!("({})", v) } else { v };
                    out.push(format!("{}(_out, &{})", if f.is_empty() || f == "?" || f == "#?" { "out_value" } else { "out_formatted" }, v));
                }
                Ok(match out.len() { 0 => "()".into(), 1 => out.pop().unwrap(), _ => format!("{{\n{};\n}}", out.join(";\n")) })
            }
            "assert" | "debug_assert" => {
                let args = m.parse_body_with(punctuated::Punctuated::<Expr, token::Comma>::parse_terminated).map_err(|e| e.to_string())?;
                let c = self.expr(&args[0])?;
                Ok(format!("runtime_check({})", c))
            }
            "assert_eq" | "debug_assert_eq" | "assert_ne" | "debug_assert_ne" => {
                let args = m.parse_body_with(punctuated::Punctuated::<Expr, token::Comma>::parse_terminated).map_err(|e| e.to_string())?;
                let (a, b) = (self.expr(&args[0])?, self.expr(&args[1])?);
                Ok(format!("runtime_check({} {} {})", a, if name.ends_with("eq") { "==" } else { "!=" }, b))
            }
            "panic" | "unreachable" | "unimplemented" | "todo" => Ok("unreachable_panic()".into()),
            "vec" => {
                struct VecRep(Expr, Expr);
                impl parse::Parse for VecRep { fn parse(i: parse::ParseStream) -> Result<Self> { let a = i.parse()?; let _: token::Semi = i.parse()?; Ok(VecRep(a, i.parse()?)) } }
                if m.tokens.is_empty() { return Ok("Vec::new()".into()); }
                if let Ok(VecRep(a, n)) = m.parse_body::<VecRep>() { let (a, n) = (self.expr(&a)?, self.expr(&n)?); return Ok(format!("vec_from_elem({}, {})", a, n)); }
                let args = m.parse_body_with(punctuated::Punctuated::<Expr, token::Comma>::parse_terminated).map_err(|e| e.to_string())?;
                let v = self.args(&args)?;
                Ok(format!("vec![{}]", v.join(", ")))
            }
            "matches" => Err("matches!".into()),
            _ => Err(format!("macro {}", name)),
        }
    }

    fn call(&mut self, c: &ExprCall, want: Option<&str>) -> R<String> {
        let p = match strip_paren(&c.func) { Expr::Path(p) => p, _ => return Err("call of a value".into()) };
        let f = self.path(&p.path)?;
        let full = toks(&p.path);
        match f.as_str() {
            "Arc::try_unwrap" => return Err("Arc::try_unwrap".into()),
            "thread_rng" => return Err("thread_rng".into()),
            "min" | "f64::min" | "usize::min" | "cmp::min" => { let a = self.args(&c.args)?; return Ok(format!("min_of({})", a.join(", "))); }
            "max" | "f64::max" | "usize::max" | "cmp::max" => { let a = self.args(&c.args)?; return Ok(format!("max_of({})", a.join(", "))); }
            "swap" | "take" | "replace" if full.contains("mem::") => { let a = self.args(&c.args)?; return Ok(format!("mem_{}({})", f, a.join(", "))); }
            _ => {}
        }
        if let Some(i) = path_ident(&c.func) {
            if let Some(Al::Fn(x)) = self.al.get(&i).cloned() { let a = self.args(&c.args)?; return Ok(format!("{}({})", x, a.join(", "))); }
            // the closure handed to a scope's spawn
        }
        // helper functions of the crate that carry no contract are inlined
        if p.path.segments.len() == 1 || !f.contains("::") || f.contains("::<") {
            let base = p.path.segments.last().unwrap().ident.to_string();
            if !self.known.contains(&base) && self.al.get(&base).is_none() && !self.scope.contains(&base) {
                if let Some(fi) = self.ix.free_fn(&base) { return self.inline_fn(fi, c); }
            }
        }
        let _ = want;
        let mut a = self.args(&c.args)?;
        // From impls of the crate's own types
        if let Some(t) = f.strip_suffix("::from") { let t = if t == "Self" { self.self_ty.clone().unwrap_or_default() } else { t.to_string() }; if self.has_from(&t) { return Ok(format!("{}::conv_from({})", t, a.join(", "))); } }
        if let Some(i) = p.path.segments.last() { let i = i.ident.to_string(); if !f.contains("::") && self.out.contains(&i) && !self.scope.contains(&i) { a.insert(0, "_out".into()); } }
        let ctor = f.starts_with("HSet::") || f.starts_with("FxHashSet::") || f.starts_with("HashSet::");
        if ctor { return Ok(format!("HSet::new()")); }
        if f.starts_with("FxHashMap::") || f.starts_with("HashMap::") { return Ok("HMap::new()".to_string()); }
        // a function-pointer or impl parameter is a type parameter of the extracted function
        if let (Some(h), Some(fi)) = (f.strip_suffix('>'), self.ix.free_fn(&p.path.segments.last().unwrap().ident.to_string())) {
            let k = fi.sig.inputs.iter().filter(|a| matches!(a, FnArg::Typed(t) if matches!(&*t.ty, Type::BareFn(_) | Type::ImplTrait(_)))).count();
            return Ok(format!("{}{}>({})", h, ", _".repeat(k), a.join(", ")));
        }
        Ok(format!("{}({})", f, a.join(", ")))
    }

    /// a function named as a value: conversions of the crate's own types get their verifier name
    fn fn_path(&mut self, p: &Path) -> R<String> {
        let f = self.path(p)?;
        match f.as_str() {
            "min" | "f64::min" | "usize::min" | "cmp::min" => return Ok("min_of".into()),
            "max" | "f64::max" | "usize::max" | "cmp::max" => return Ok("max_of".into()),
            _ => {}
        }
        if let Some(t) = f.strip_suffix("::from") { let t = if t == "Self" { self.self_ty.clone().unwrap_or_default() } else { t.to_string() }; if self.has_from(&t) { return Ok(format!("{}::conv_from", t)); } }
        Ok(f)
    }
    fn has_from(&self, t: &str) -> bool { let e = format!("@{}::from", t); self.ix.fns.iter().any(|x| x.key.contains("::From<") && x.key.ends_with(&e)) }

    fn inline_fn(&mut self, fi: &FnInfo, c: &ExprCall) -> R<String> {
        if self.no_return > 6 { return Err("recursive helper".into()); }
        let name = fi.sig.ident.to_string();
        if has_flow(&Expr::Block(ExprBlock { attrs: vec![], label: None, block: fi.block.clone() })) { return Err(format!("helper {} returns early", name)); }
        if fi.sig.generics.params.iter().any(|p| matches!(p, GenericParam::Const(_))) { return Err(format!("helper {} has const generics", name)); }
        let mut lets = vec![];
        let (al, ty, sc) = (self.al.clone(), self.ty.clone(), self.scope.clone());
        let mut newal: Vec<(String, Option<Al>, String)> = vec![];
        for (a, v) in fi.sig.inputs.iter().zip(&c.args) {
            let (n, mu, t) = match a { FnArg::Typed(t) => match &*t.pat { Pat::Ident(i) => (i.ident.to_string(), i.mutability.is_some(), self.ty_str(&t.ty)?), _ => return Err("helper pattern".into()) }, _ => return Err("helper method".into()) };
            match strip_paren(v) {
                Expr::Path(_) if !mu && path_ident(v).is_some() => { let x = path_ident(v).unwrap(); let cur = self.al.get(&x).cloned(); match cur { Some(a) => newal.push((n, Some(a), t)), None if x == n => newal.push((n, None, t)), None => { let vt = self.ty.get(&x).cloned().unwrap_or(t); newal.push((n, Some(Al::Name(x)), vt)) } } }
                Expr::Reference(r) if !mu && path_ident(&r.expr).is_some() && self.al.get(&path_ident(&r.expr).unwrap()).is_none() => { let x = path_ident(&r.expr).unwrap(); newal.push((n, Some(Al::Ref(x)), t)); }
                _ => { let s = self.expr(v)?; lets.push(format!("let {}{}: {} = {};", if mu { "mut " } else { "" }, n, t, s)); newal.push((n, None, t)); }
            }
        }
        self.pre_scope_clear(&newal);
        for (n, a, t) in newal { match a { Some(a) => { self.al.insert(n.clone(), a); } None => { self.al.remove(&n); } } self.ty.insert(n.clone(), t); self.scope.insert(n); }
        let saved_ret = self.ret.clone();
        if let ReturnType::Type(_, t) = &fi.sig.output { self.ret = strip_path_ty(t); }
        self.no_return += 1;
        let saved = std::mem::take(&mut self.pre);
        self.loops.push(None);
        let b = self.block_lines(&fi.block.stmts);
        self.loops.pop();
        self.pre = saved;
        self.no_return -= 1;
        self.ret = saved_ret;
        self.al = al; self.ty = ty; self.scope = sc;
        lets.extend(b?);
        if lets.len() == 1 && !lets[0].ends_with(';') { return Ok(lets.pop().unwrap()); }
        Ok(format!("{{\n{}\n}}", lets.join("\n")))
    }
    fn pre_scope_clear(&mut self, _n: &[(String, Option<Al>, String)]) {}

    fn mcall(&mut self, m: &ExprMethodCall, want: Option<&str>) -> R<String> {
        let name = m.method.to_string();
        // X.lock().unwrap() on a shared value
        if matches!(name.as_str(), "unwrap" | "expect") { if let Expr::MethodCall(l) = strip_paren(&m.receiver) {
            if l.method == "lock" { if let Some(i) = path_ident(&l.receiver) { if let Some(Al::Shared(x)) = self.al.get(&i).cloned() { return Ok(format!("lock_shared(&mut {})", x)); } } return Err("lock".into()); }
            // Arc::try_unwrap(X).unwrap().into_inner().unwrap()
            if l.method == "into_inner" { if let Some(x) = self.unshare(&l.receiver) { return Ok(format!("unlock_shared({})", x)); } return Err("into_inner".into()); }
        } }
        // thread count
        if matches!(name.as_str(), "into" | "get" | "unwrap" | "expect") && toks(m).contains("available_parallelism()") && m.args.len() <= 1 {
            let inner = innermost(&m.receiver);
            if let Expr::Call(_) = inner { return Ok("available_parallelism()".into()); }
        }
        if name == "spawn" { if let Some(i) = path_ident(&m.receiver) { if self.al.contains_key(&format!("{}.spawn", i)) {
            if let Expr::Closure(cl) = &m.args[0] {
                if has_flow(&cl.body) { return Err("return in a spawned closure".into()); }
                self.loops.push(None);
                let l = self.body_stmts(&cl.body, &|v| v.to_string());
                self.loops.pop();
                return Ok(format!("{{\n{}\n}}", l?.join("\n")));
            }
            return Err("spawn".into());
        } } }
        if let Some(v) = self.terminal(m, want)? { return Ok(v); }
        // Option::map / and_then etc. with closures
        match (name.as_str(), m.args.len()) {
            ("map", 1) if self.matrix_like(&m.receiver) => {
                let x = self.expr(&m.receiver)?;
                let (c, k1, k2) = (self.fresh("c"), self.fresh("k"), self.fresh("k"));
                let (b, v) = self.inline_val(&m.args[0], vec![It::Val(format!("{}.at({}, {})", x, k1, k2))], &HashSet::new())?;
                self.pre.push(format!("let mut {} = DMatrix::with_shape({}.nrows(), {}.ncols());", c, x, x));
                self.pre.push(format!("let mut {}: usize = 0;", k1));
                self.pre.push(format!("while {} < {}.nrows() {{\nlet mut {}: usize = 0;\nwhile {} < {}.ncols() {{\n{}\n{}.put({}, {}, {});\n{} = {} + 1;\n}}\n{} = {} + 1;\n}}", k1, x, k2, k2, x, b.join("\n"), c, k1, k2, v, k2, k2, k1, k1));
                return Ok(c);
            }
            ("expect", 1) | ("unwrap", 0) => { let v = self.expr(&m.receiver)?; return Ok(format!("{}.unwrap()", pw(v, &m.receiver))); }
            ("unwrap_or_else", 1) => {
                if let Expr::Closure(cl) = &m.args[0] { if is_panic(&cl.body) { let v = self.expr(&m.receiver)?; return Ok(format!("{}.unwrap()", pw(v, &m.receiver))); }
                    if cl.inputs.is_empty() { let v = self.expr(&m.receiver)?; let b = self.block_value(&cl.body)?; return Ok(format!("(match {} {{ Some(_w) => _w, None => {} }})", v, b)); } }
                return Err("unwrap_or_else".into());
            }
            ("map", 1) => {
                // Option::map
                let v = self.expr(&m.receiver)?;
                let w = self.fresh("w");
                let (b, r) = self.inline_val(&m.args[0], vec![It::Val(w.clone())], &HashSet::new())?;
                return Ok(format!("(match {} {{ Some({}) => {{ {} Some({}) }} None => {{ None }} }})", v, w, b.join("\n"), r));
            }
            ("pow", 1) => { let v = self.expr(&m.receiver)?; let e = self.expr(&m.args[0])?; return Ok(format!("usize_pow({}, {})", v, e)); }
            ("powi", 1) => { let v = self.expr(&m.receiver)?; let e = self.expr(&m.args[0])?; return Ok(format!("f64_powi({}, {})", unparen(v), e)); }
            ("sqrt", 0) => { let v = self.expr(&m.receiver)?; return Ok(format!("f64_sqrt({})", unparen(v))); }
            ("abs", 0) => { let v = self.expr(&m.receiver)?; return Ok(format!("f64_abs({})", unparen(v))); }
            ("hypot", 1) => { let v = self.expr(&m.receiver)?; let e = self.expr(&m.args[0])?; return Ok(format!("f64_hypot({}, {})", unparen(v), e)); }
            ("min", 1) => { let v = self.expr(&m.receiver)?; let e = self.expr(&m.args[0])?; return Ok(format!("min_of({}, {})", v, e)); }
            ("max", 1) => { let v = self.expr(&m.receiver)?; let e = self.expr(&m.args[0])?; return Ok(format!("max_of({}, {})", v, e)); }
            ("partial_cmp", 1) => { let v = self.expr(&m.receiver)?; let e = self.expr(&m.args[0])?; let v = if matches!(strip_paren(&m.receiver), Expr::Path(_)) { v } else { format!("&{}", v) }; return Ok(format!("f64_partial_cmp({}, {})", v, e)); }
            ("total_cmp", 1) => { let v = self.expr(&m.receiver)?; let e = self.expr(&m.args[0])?; let v = if matches!(strip_paren(&m.receiver), Expr::Path(_)) { v } else { format!("&{}", v) }; return Ok(format!("f64_total_cmp({}, {})", v, e)); }
            ("into", 0) => {
                let v = self.expr(&m.receiver)?;
                let t = want.map(|s| s.to_string()).or_else(|| None);
                return Ok(match t { Some(t) if self.has_from(&t) => format!("{}::conv_from({})", t, unparen(v)), _ => format!("conv_into({})", unparen(v)) });
            }
            ("or_insert", 1) => if let Expr::MethodCall(en) = strip_paren(&m.receiver) { if en.method == "entry" { let h = self.expr(&en.receiver)?; let k = self.expr(&en.args[0])?; let v = self.expr(&m.args[0])?; return Ok(format!("{}.entry_or_insert({}, {})", h, k, v)); } },
            ("or_insert_with", 1) => if let (Expr::MethodCall(en), Expr::Closure(cl)) = (strip_paren(&m.receiver), &m.args[0]) { if en.method == "entry" && cl.inputs.is_empty() {
                // evaluated eagerly: the value is a pure function of its arguments
                let h = self.expr(&en.receiver)?; let k = self.expr(&en.args[0])?; let v = self.expr(&cl.body)?; return Ok(format!("{}.entry_or_insert({}, {})", h, k, v));
            } },
            ("as_mut_slice", 0) => { let v = self.expr(&m.receiver)?; return Ok(format!("{}.as_mut_slice()", v)); }
            ("par_iter", _) | ("into_par_iter", _) | ("par_iter_mut", _) => return Err(format!("iterator chain at {}", name)),
            ("iter", 0) | ("iter_mut", 0) | ("into_iter", 0) => {
                // delegating methods return the iterator itself
                let v = self.expr(&m.receiver)?;
                return Ok(format!("{}.{}()", v, name));
            }
            _ => {}
        }
        let mut r = unref(self.expr(&m.receiver)?);
        if matches!(strip_paren(&m.receiver), Expr::Unary(_) | Expr::Binary(_) | Expr::Cast(_) | Expr::Reference(_)) && !r.starts_with('(') { r = format!("({})", r); }
        if let Some(i) = path_ident(&m.receiver) {
            if let Some(Al::Ref(x)) = self.al.get(&i) { r = x.clone(); }
            if let Some(t) = self.ty.get(&i) { let b = base_ty(t).to_string(); if b != "NAMatrix" { if let Some(fl) = self.ix.wrappers.get(&b) { if !self.ix.fns.iter().any(|f| f.sig.ident == name && matches!(&f.self_ty, Some(s) if *s == b || s == "AdjacencyMatrix")) { r = format!("{}.{}", r, fl); } } } }
        }
        let t = match &m.turbofish { None => String::new(), Some(t) => toks(t) };
        if m.args.iter().any(|a| matches!(strip_paren(a), Expr::Closure(_))) { return Err(format!("closure argument of {}", name)); }
        let a = self.args(&m.args)?;
        Ok(format!("{}.{}{}({})", r, name, t, a.join(", ")))
    }

    fn unshare(&self, e: &Expr) -> Option<String> {
        // Arc::try_unwrap(X).unwrap()  |  X (a bare Mutex)
        match strip_paren(e) {
            Expr::MethodCall(m) if matches!(m.method.to_string().as_str(), "unwrap" | "expect") => self.unshare(&m.receiver),
            Expr::Call(c) if toks(&c.func).ends_with("Arc::try_unwrap") => path_ident(&c.args[0]).and_then(|i| match self.al.get(&i) { Some(Al::Shared(x)) => Some(x.clone()), _ => None }),
            Expr::Path(_) => path_ident(e).and_then(|i| match self.al.get(&i) { Some(Al::Shared(x)) => Some(x.clone()), _ => None }),
            _ => None,
        }
    }
}

enum Pl { Plain(String), Mat(String, String, String) }

trait PatX { fn is_compound(&self) -> bool; }
impl PatX for Pat { fn is_compound(&self) -> bool { match self { Pat::Ident(_) | Pat::Wild(_) => false, Pat::Paren(p) => p.pat.is_compound(), _ => true } } }

fn has_let(e: &Expr) -> bool { match strip_paren(e) { Expr::Let(_) => true, Expr::Binary(b) => has_let(&b.left) || has_let(&b.right), _ => false } }

fn innermost(e: &Expr) -> &Expr { match strip_paren(e) { Expr::MethodCall(m) => innermost(&m.receiver), x => x } }

fn semi(mut b: Vec<String>) -> Vec<String> { if let Some(l) = b.last_mut() { if !l.is_empty() && !l.ends_with(';') && !l.ends_with('}') { l.push(';'); } } b }

fn is_panic(e: &Expr) -> bool {
    match strip_paren(e) {
        Expr::Macro(m) => matches!(m.mac.path.segments.last().unwrap().ident.to_string().as_str(), "panic" | "unreachable"),
        Expr::Block(b) => b.block.stmts.len() == 1 && match &b.block.stmts[0] { Stmt::Macro(m) => matches!(m.mac.path.segments.last().unwrap().ident.to_string().as_str(), "panic" | "unreachable"), Stmt::Expr(e, _) => is_panic(e), _ => false },
        _ => false,
    }
}

fn native_pat(p: &Pat) -> bool {
    match p { Pat::Ident(i) => i.subpat.is_none() && i.by_ref.is_none(), Pat::Wild(_) => true, Pat::Tuple(t) => t.elems.iter().all(native_pat), Pat::Paren(p) => native_pat(&p.pat), _ => false }
}

fn needs_paren(e: &Expr) -> bool { matches!(e, Expr::Binary(_) | Expr::Cast(_) | Expr::Unary(_) | Expr::If(_) | Expr::Match(_)) }
fn pw(v: String, e: &Expr) -> String { if matches!(strip_paren(e), Expr::Unary(_) | Expr::Binary(_) | Expr::Reference(_)) && !v.starts_with('(') { format!("({})", v) } else { v } }
fn unparen(v: String) -> String {
    if v.starts_with('(') && v.ends_with(')') {
        let mut d = 0;
        for (i, c) in v.char_indices() { if c == '(' { d += 1; } if c == ')' { d -= 1; if d == 0 && i + 1 != v.len() { return v; } } if c == ',' && d == 1 { return v; } }
        return v[1..v.len() - 1].to_string();
    }
    v
}

fn path_str(p: &Path) -> String {
    let segs: Vec<&PathSegment> = p.segments.iter().collect();
    let n = segs.len();
    let from = if n >= 2 && segs[n - 2].ident.to_string().chars().next().map_or(false, |c| c.is_uppercase()) { n - 2 } else if n >= 2 && (segs[n - 2].ident == "f64" || segs[n - 2].ident == "usize") { n - 2 } else { n - 1 };
    segs[from..].iter().map(|s| {
        let a = match &s.arguments { PathArguments::AngleBracketed(a) => format!("::<{}>", a.args.iter().map(|g| match g { GenericArgument::Type(t) => strip_path_ty(t), GenericArgument::Const(c) => const_arg(c), x => toks(x) }).collect::<Vec<_>>().join(", ")), _ => String::new() };
        format!("{}{}", s.ident, a)
    }).collect::<Vec<_>>().join("::")
}
fn const_arg(e: &Expr) -> String {
    match e { Expr::Block(b) if b.block.stmts.len() == 1 => match &b.block.stmts[0] { Stmt::Expr(Expr::Path(p), None) => path_str(&p.path), Stmt::Expr(e, _) => toks(e), s => toks(s) }, Expr::Path(p) => path_str(&p.path), _ => toks(e) }
}

fn lit(l: &Lit) -> R<String> {
    Ok(match l {
        Lit::Float(f) => {
            let d = f.base10_digits().to_string();
            match d.parse::<f64>() {
                Ok(x) if x == 0.0 => "f64_zero()".into(),
                Ok(x) if x == 0.5 => "f64_half()".into(),
                Ok(x) if x == 1.0 => "f64_one()".into(),
                Ok(x) if x == 2.0 => "f64_two()".into(),
                Ok(x) => { let s: String = format!("{:e}", x).chars().map(|c| if c.is_alphanumeric() { c } else if c == '-' { 'm' } else { '_' }).collect(); format!("f64_lit_{}()", s) }
                Err(_) => return Err("float literal".into()),
            }
        }
        Lit::Int(i) => if i.suffix() == "f64" { return lit(&Lit::Float(LitFloat::new(&format!("{}.0", i.base10_digits()), i.span()))); } else { format!("{}{}", i.base10_digits(), i.suffix()) },
        l => toks(l),
    })
}

fn expr_cfg_off(e: &Expr) -> bool {
    let a: &[Attribute] = match e { Expr::If(x) => &x.attrs, Expr::Block(x) => &x.attrs, Expr::Call(x) => &x.attrs, Expr::MethodCall(x) => &x.attrs, Expr::Match(x) => &x.attrs, Expr::Macro(x) => &x.attrs, Expr::Assign(x) => &x.attrs, Expr::Return(x) => &x.attrs, Expr::ForLoop(x) => &x.attrs, Expr::While(x) => &x.attrs, Expr::Unsafe(x) => &x.attrs, Expr::Binary(x) => &x.attrs, _ => &[] };
    cfg_off(a)
}

fn as_ref(it: &It) -> It {
    match it {
        It::Val(v) => It::Ref(v.clone()),
        It::Tup(v) => It::Tup(v.iter().map(as_ref).collect()),
        // a reference to a reference: patterns `|x|`, `|&x|` and `|&&x|` are resolved on the inner one
        x => x.clone(),
    }
}
fn is_pure_item(it: &It) -> bool { match it { It::Val(v) => !v.contains("it_take(") && !v.contains("next("), It::Tup(v) => v.iter().all(is_pure_item), _ => true } }

fn subst_word(s: &str, from: &str, to: &str) -> String {
    let mut o = String::new();
    let mut w = String::new();
    for c in s.chars().chain(std::iter::once('\0')) {
        if c.is_alphanumeric() || c == '_' { w.push(c); } else { if w == from { o.push_str(to); } else { o.push_str(&w); } w.clear(); if c != '\0' { o.push(c); } }
    }
    o
}
fn subst_item(it: &It, from: &str, to: &str) -> It {
    match it {
        It::Val(v) => It::Val(subst_word(v, from, to)), It::Ref(v) => It::Ref(subst_word(v, from, to)), It::RefMut(v) => It::RefMut(subst_word(v, from, to)),
        It::Cell(a, b, c, m) => It::Cell(a.clone(), subst_word(b, from, to), subst_word(c, from, to), *m),
        It::Tup(v) => It::Tup(v.iter().map(|i| subst_item(i, from, to)).collect()),
        It::RowV(a, b) => It::RowV(a.clone(), subst_word(b, from, to)), It::ColV(a, b) => It::ColV(a.clone(), subst_word(b, from, to)),
    }
}

/// `let X = unsafe { S.as_mut_ptr().offset(N).as_mut().unwrap() };`  ->  (X, S, N)
fn raw_elem(s: &Stmt) -> Option<(String, String, String)> {
    if let Stmt::Local(l) = s {
        let n = match &l.pat { Pat::Ident(i) => i.ident.to_string(), _ => return None };
        let e = &l.init.as_ref()?.expr;
        let e = match &**e { Expr::Unsafe(u) if u.block.stmts.len() == 1 => match &u.block.stmts[0] { Stmt::Expr(e, None) => e.clone(), _ => return None }, _ => return None };
        // unwrap(as_mut(offset(as_mut_ptr(S), N)))
        if let Expr::MethodCall(u) = &e { if u.method == "unwrap" { if let Expr::MethodCall(a) = &*u.receiver { if a.method == "as_mut" { if let Expr::MethodCall(o) = &*a.receiver { if o.method == "offset" || o.method == "add" { if let Expr::MethodCall(p) = &*o.receiver { if p.method == "as_mut_ptr" {
            let s = path_ident(&p.receiver)?;
            return Some((n, s, toks(&o.args[0])));
        } } } } } } } }
    }
    None
}
