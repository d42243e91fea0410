//! Concrete replay / failing-input search against the real crate.
//! usage: vharness <PROPERTY> --seed S --secs T --out FILE [--only IDX]
//! Every case is a pure function of (property, seed, index). exit 0: no failure; 1: failure found
mod conform;
mod gen;
mod props;

use std::io::Write;
use std::time::{Duration, Instant};

pub struct Failure { pub what: String, pub input: String, pub expected: String, pub got: String }
pub type Res = Result<(), Failure>;

pub fn fail(what: &str, input: String, expected: String, got: String) -> Res {
    Err(Failure { what: what.to_string(), input, expected, got })
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => o.push(' '), c => o.push(c) }
    }
    o.push('"'); o
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() >= 2 && args[1] == "cli" { props::cli_child(&args[2..]); return; }
    let prop = args[1].clone();
    let mut seed = 1u64; let mut secs = 10.0f64; let mut out = String::new(); let mut only: Option<u64> = None; let mut maxc = u64::MAX;
    let mut i = 2;
    while i < args.len() {
        match args[i].as_str() {
            "--seed" => seed = args[i+1].parse().unwrap_or(1),
            "--secs" => secs = args[i+1].parse().unwrap(),
            "--out" => out = args[i+1].clone(),
            "--only" => only = Some(args[i+1].parse().unwrap()),
            "--max" => maxc = args[i+1].parse().unwrap(),
            _ => {}
        }
        i += 2;
    }
    // run on a big stack, without panic chatter
    std::panic::set_hook(Box::new(|_| {}));
    let h = std::thread::Builder::new().stack_size(256 << 20).spawn(move || {
        let t0 = Instant::now();
        let mut n = 0u64; let mut nontriv = 0u64; let mut samples: Vec<String> = vec![];
        let mut seen = std::collections::HashSet::new();
        let mut idx = only.unwrap_or(0);
        let mut failure: Option<(u64, Failure)> = None;
        loop {
            let mut ctx = props::Ctx::new(&prop, seed, idx, if only.is_some() { String::new() } else { out.clone() });
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| props::case(&prop, &mut ctx)));
            if ctx.exhausted { break; }
            n += 1;
            if ctx.nontrivial { if seen.insert(ctx.input.clone()) { nontriv += 1; if nontriv % 97 == 1 && samples.len() < 4 { samples.push(ctx.input.clone()); } } }
            match r {
                Ok(Ok(())) => {}
                Ok(Err(f)) => { failure = Some((idx, f)); break; }
                Err(e) => {
                    let msg = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or("panic".into());
                    failure = Some((idx, Failure { what: format!("panic in {}", ctx.step), input: ctx.input.clone(), expected: "normal return".into(), got: format!("panic: {}", msg) }));
                    break;
                }
            }
            if only.is_some() { break; }
            idx += 1;
            if n >= maxc || t0.elapsed() > Duration::from_secs_f64(secs) { break; }
        }
        let mut s = String::from("{");
        s.push_str(&format!("\"property\":{},\"seed\":{},\"evaluations\":{},\"distinct_nontrivial\":{},\"wall_s\":{:.2},\"samples\":[{}]", esc(&prop), seed, n, nontriv, t0.elapsed().as_secs_f64(), samples.iter().map(|x| esc(x)).collect::<Vec<_>>().join(",")));
        let code = match &failure {
            None => 0,
            Some((ix, f)) => {
                s.push_str(&format!(",\"failure\":{{\"index\":{},\"what\":{},\"input\":{},\"expected\":{},\"got\":{},\"replay_cmd\":{}}}", ix, esc(&f.what), esc(&f.input), esc(&f.expected), esc(&f.got), esc(&format!("vharness {} --seed {} --only {}", prop, seed, ix))));
                1
            }
        };
        s.push('}');
        if !out.is_empty() { let mut fh = std::fs::File::create(&out).unwrap(); fh.write_all(s.as_bytes()).unwrap(); }
        println!("{}", s);
        std::process::exit(code);
    }).unwrap();
    let _ = h.join();
}
