//! Mechanical extraction of the functions under contract from /repo's current sources.
//! usage: vextract <repo/src> <request.txt>   (request: one "key<TAB>emit-name" per line, then "known <name>" lines)
//! Output: blocks "=== key" / "ok|err" / text. All rewriting rules are documented in DESIGN.md ("Extraction").
mod index;
mod tx;
use std::collections::HashSet;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let src = std::path::PathBuf::from(&a[1]);
    let req = std::fs::read_to_string(&a[2]).unwrap();
    let mut keys: Vec<(String, String)> = vec![];
    let mut known: HashSet<String> = HashSet::new();
    for l in req.lines() {
        if let Some(k) = l.strip_prefix("known ") { known.insert(k.trim().to_string()); continue; }
        if let Some((k, n)) = l.split_once('\t') { keys.push((k.to_string(), n.to_string())); }
    }
    let ix = index::Index::load(&src);
    for e in &ix.errors { eprintln!("parse error: {}", e); }
    if a.len() > 3 && a[3] == "--list" { for f in &ix.fns { println!("{}", f.key); } return; }
    if a.len() > 3 && a[3] == "--types" { for (n, t) in &ix.types { println!("{}\t{}", n, t); } return; }
    let mut out = vec![];
    for (k, n) in &keys {
        match ix.find(k) {
            None => out.push((k.clone(), Err("lost anchor: no such function".to_string()), String::new())),
            Some(f) => {
                let r = tx::extract(&ix, f, n, &known);
                out.push((k.clone(), r, format!("{}:{}", f.file, f.line)));
            }
        }
    }
    // format all bodies in one rustfmt run
    let mut file = String::new();
    for (i, (_, r, _)) in out.iter().enumerate() {
        if let Ok((_, body)) = r { file.push_str(&format!("impl S{} {{ fn f() {} }}\n", i, body)); }
    }
    let dir = std::env::temp_dir().join(format!("vextract_{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let p = dir.join("x.rs");
    std::fs::write(&p, &file).unwrap();
    // settings in a file: given on the command line, their order (and with it the result) would vary from run to run
    std::fs::write(dir.join("rustfmt.toml"), "edition = \"2021\"\nmax_width = 4000\nchain_width = 3000\nfn_call_width = 3000\nstruct_lit_width = 3000\narray_width = 3000\nsingle_line_if_else_max_width = 0\nsingle_line_let_else_max_width = 0\nuse_field_init_shorthand = false\n").unwrap();
    let st = std::process::Command::new("rustfmt").args(["--edition", "2021", "--config-path"]).arg(&dir).arg(&p).output();
    let formatted = std::fs::read_to_string(&p).unwrap();
    let okf = st.as_ref().map(|s| s.status.success()).unwrap_or(false);
    if !okf { eprintln!("rustfmt failed: {}", st.map(|s| String::from_utf8_lossy(&s.stderr).to_string()).unwrap_or_default()); if std::env::var("VX_DEBUG").is_ok() { eprintln!("{}", file); } }
    let _ = std::fs::remove_dir_all(&dir);
    let mut bodies: std::collections::HashMap<usize, Vec<String>> = Default::default();
    let mut cur: Option<usize> = None;
    for l in formatted.lines() {
        if let Some(r) = l.strip_prefix("impl S") { let n: usize = r.split(' ').next().unwrap().parse().unwrap(); cur = Some(n); bodies.insert(n, vec![]); continue; }
        if l == "}" { cur = None; continue; }
        if let Some(n) = cur { bodies.get_mut(&n).unwrap().push(l.strip_prefix("    ").unwrap_or(l).to_string()); }
    }
    for (i, (k, r, loc)) in out.iter().enumerate() {
        println!("=== {}", k);
        match r {
            Err(e) => println!("err {}", e.replace('\n', " ")),
            Ok((sig, _)) => {
                if !okf { println!("err rustfmt failed"); continue; }
                println!("ok {}", loc);
                println!("{}", sig);
                println!("{{");
                let b = &bodies[&i];
                for l in split_headers(&b[1..]) { println!("{}", l); }
            }
        }
    }
}

/// put the opening brace of loops on a line of its own, so that invariants have a place
fn split_headers(b: &[String]) -> Vec<String> {
    let mut o = vec![];
    for l in b {
        let t = l.trim_start();
        let ind = &l[..l.len() - t.len()];
        if (t.starts_with("while ") || t.starts_with("loop ") || t == "loop {") && t.ends_with('{') {
            o.push(format!("{}{}", ind, t[..t.len() - 1].trim_end()));
            o.push(format!("{}{{", ind));
        } else if !t.is_empty() { o.push(l.clone()); }
    }
    o
}
