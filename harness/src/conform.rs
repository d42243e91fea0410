//! Bounded check of the contracts that are *assumed* of std and of the dependencies (contracts/prelude.rs): the same
//! statements, evaluated on the real types. Never counted as proved.
use crate::{fail, Res};
use crate::gen::Rng;
use nalgebra::{DMatrix, DVector};
use ordered_float::OrderedFloat;
use priority_queue::PriorityQueue;
use rand::seq::SliceRandom;
use rayon::prelude::*;
use std::cmp::{Ordering, Reverse};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::hash::{Hash, Hasher};

macro_rules! ck { ($c:expr, $w:expr, $in:expr) => { if !$c { return fail(concat!("assumed contract does not hold: ", $w), format!("{:?}", $in), stringify!($c).to_string(), "false".into()); } } }

/// a number of the f64 model: an exact small multiple of a power of two, or +infinity
fn num(r: &mut Rng) -> f64 { if r.below(12) == 0 { f64::INFINITY } else { (r.below(4001) as f64 - 2000.0) / (1u64 << r.below(4)) as f64 } }
fn lt(a: f64, b: f64) -> bool { if a.is_infinite() { false } else if b.is_infinite() { true } else { (a * 16.0) as i64 * 1 < (b * 16.0) as i64 } }

pub const NAMES: [&str; 9] = ["f64 operators, min/max, sqrt, hypot, powi, abs, partial_cmp, total_cmp, OrderedFloat::cmp",
    "slice contains/swap/to_vec/reverse/windows/chunks_exact/chunks_exact_mut/pointer offset, vec![x; n]", "SliceRandom::shuffle",
    "HashSet new/insert/contains/len/is_empty/iteration, HashMap entry().or_insert", "FxHasher", "PriorityQueue",
    "DMatrix column-major storage, from_element, set_diagonal, row views", "rayon: each item once, collect keeps the order, reductions",
    "iterator adaptors the extraction turns into loops (ties of min_by/max_by, windows, zip, step_by, rev, skip, take, partition)"];

pub fn case(k: usize, r: &mut Rng) -> Res {
    match k {
        0 => floats(r), 1 => slices(r), 2 => shuffle(r), 3 => sets(r), 4 => fx(r), 5 => queue(r), 6 => matrices(r), 7 => parallel(r), _ => adaptors(r),
    }
}

fn floats(r: &mut Rng) -> Res {
    let (a, b) = (num(r), num(r));
    let i = |x: f64| (x * 16.0) as i64;
    if a.is_finite() && b.is_finite() {
        ck!(i(a + b) == i(a) + i(b) && i(a - b) == i(a) - i(b), "+ and - on finite values", (a, b));
        ck!((a * b * 256.0) as i64 == i(a) * i(b), "* on finite values", (a, b));
        ck!(i(a.abs()) == i(a).abs(), "abs", a);
        ck!(a.powi(2) == a * a, "powi(x, 2)", a);
        ck!((a * a).sqrt() == a.abs(), "sqrt of a square", a);
        let p = a.abs();
        ck!((3.0 * p).hypot(4.0 * p) == 5.0 * p, "hypot of a pythagorean pair", p);
    }
    if a.is_infinite() != b.is_infinite() || a.is_infinite() { ck!((a + b).is_infinite() && a + b > 0.0, "infinity absorbs +", (a, b)); }
    ck!((a < b) == lt(a, b) && (a > b) == lt(b, a) && (a <= b) == !lt(b, a) && (a >= b) == !lt(a, b), "comparison operators", (a, b));
    ck!((a == b) == (!lt(a, b) && !lt(b, a)), "==", (a, b));
    let o = if lt(a, b) { Ordering::Less } else if lt(b, a) { Ordering::Greater } else { Ordering::Equal };
    ck!(a.partial_cmp(&b) == Some(o), "partial_cmp", (a, b));
    ck!(OrderedFloat(a).cmp(&OrderedFloat(b)) == o, "OrderedFloat::cmp", (a, b));
    ck!(o == Ordering::Equal || a.total_cmp(&b) == o, "total_cmp", (a, b));
    ck!(a.min(b) == if lt(b, a) { b } else { a } && a.max(b) == if lt(a, b) { b } else { a }, "min/max", (a, b));
    ck!(1e-10f64 * 1e10 == 1.0 && 0.5f64 + 0.5 == 1.0, "literals", ());
    let (x, y) = (r.below(1000), r.below(1000));
    ck!(x.saturating_sub(y) == if x >= y { x - y } else { 0 }, "saturating_sub", (x, y));
    let (bb, e) = (r.below(9), r.below(12) as u32);
    ck!(bb.pow(e) == (0..e).fold(1, |a, _| a * bb), "pow", (bb, e));
    Ok(())
}

fn v(r: &mut Rng, max: usize) -> Vec<usize> { (0..r.below(max + 1)).map(|_| r.below(9)).collect() }

fn slices(r: &mut Rng) -> Res {
    let a = v(r, 14); let n = a.len(); let w = 1 + r.below(5); let x = r.below(9);
    ck!(a.contains(&x) == a.iter().any(|&y| y == x), "contains", (&a, x));
    let win: Vec<&[usize]> = a.windows(w).collect();
    ck!(win.len() == if n >= w { n - w + 1 } else { 0 }, "number of windows", (&a, w));
    for (k, s) in win.iter().enumerate() { ck!(*s == &a[k..k + w], "windows", (&a, w)); }
    let ch: Vec<&[usize]> = a.chunks_exact(w).collect();
    ck!(ch.len() == n / w, "number of chunks_exact", (&a, w));
    for (k, s) in ch.iter().enumerate() { ck!(*s == &a[k * w..k * w + w], "chunks_exact", (&a, w)); }
    let mut b = a.clone();
    for (k, c) in b.chunks_exact_mut(w).enumerate() { for (d, y) in c.iter_mut().enumerate() { *y = 100 * k + d; } }
    for i in 0..n { ck!(b[i] == if i / w < n / w { 100 * (i / w) + i % w } else { a[i] }, "chunks_exact_mut", (&a, w)); }
    let mut c = a.clone(); c.reverse();
    for i in 0..n { ck!(c[i] == a[n - 1 - i], "reverse", &a); }
    ck!(a[..].to_vec() == a && a.clone() == a, "to_vec/clone", &a);
    if n > 0 {
        let (i, j) = (r.below(n), r.below(n)); let mut d = a.clone(); d.swap(i, j);
        for k in 0..n { ck!(d[k] == if k == i { a[j] } else if k == j { a[i] } else { a[k] }, "swap", (&a, i, j)); }
        let p = a.as_ptr(); ck!(unsafe { *p.add(i) } == a[i], "pointer read at an offset", (&a, i));
    }
    let e = vec![x; w]; ck!(e.len() == w && e.iter().all(|&y| y == x), "vec![x; n]", (x, w));
    ck!(vec![1usize, 2] == vec![1, 2] && vec![1usize, 2] != vec![2, 1] && a == a.clone(), "Vec ==", &a);
    let mut it = a.clone().into_iter(); let mut got = vec![];
    while let Some(y) = it.next() { got.push(y); }
    ck!(got == a && it.next().is_none(), "into_iter/next", &a);
    ck!(std::thread::available_parallelism().map(|n| n.get()).unwrap_or(1) >= 1, "available_parallelism", ());
    Ok(())
}

fn shuffle(r: &mut Rng) -> Res {
    let a = v(r, 30); let mut b = a.clone(); b.shuffle(&mut rand::thread_rng());
    let mut x = a.clone(); let mut y = b.clone(); x.sort(); y.sort();
    ck!(x == y, "shuffle is a rearrangement", (&a, &b)); Ok(())
}

fn sets(r: &mut Rng) -> Res {
    let a = v(r, 25); let mut s = HashSet::new(); let mut m = BTreeSet::new(); let mut h: HashMap<usize, usize> = HashMap::new(); let mut hm: BTreeMap<usize, usize> = BTreeMap::new();
    ck!(s.is_empty(), "new set is empty", ());
    for &x in &a {
        ck!(s.insert(x) == m.insert(x), "insert", &a);
        ck!(s.len() == m.len() && s.is_empty() == m.is_empty(), "len/is_empty", &a);
        for y in 0..9 { ck!(s.contains(&y) == m.contains(&y), "contains", (&a, y)); }
        *h.entry(x).or_insert(10) += 1; let e = hm.get(&x).copied().unwrap_or(10); hm.insert(x, e + 1);
    }
    let o: Vec<usize> = s.iter().copied().collect();
    ck!(o.len() == m.len() && o.iter().copied().collect::<BTreeSet<_>>() == m, "iteration gives each element once", &a);
    ck!(h.into_iter().collect::<BTreeMap<_, _>>() == hm, "entry().or_insert", &a);
    Ok(())
}

fn fx(r: &mut Rng) -> Res {
    let a = v(r, 12); let b = if r.below(2) == 0 { a.clone() } else { v(r, 12) };
    let f = |l: &[&Vec<usize>]| { let mut h = rustc_hash::FxHasher::default(); for x in l { x.hash(&mut h); } h.finish() };
    ck!(f(&[&a, &b]) == f(&[&a.clone(), &b.clone()]) && (a != b || f(&[&a]) == f(&[&b])), "the hash is a function of what was fed", (&a, &b));
    Ok(())
}

type Pr = Reverse<OrderedFloat<f64>>;
fn queue(r: &mut Rng) -> Res {
    let n = r.below(12); let init: Vec<(usize, Pr)> = (0..n).map(|k| (k, Reverse(OrderedFloat(num(r))))).collect();
    let mut q: PriorityQueue<usize, Pr> = PriorityQueue::from(init.clone()); let mut m: BTreeMap<usize, f64> = init.iter().map(|x| (x.0, x.1 .0 .0)).collect();
    let mut log = format!("from {:?}", m);
    for _ in 0..24 {
        match q.peek() { None => ck!(m.is_empty(), "peek of an empty queue", &log),
            Some((k, p)) => { ck!(m.get(k) == Some(&p.0 .0), "peek gives an entry", &log); ck!(m.values().all(|&x| !lt(x, p.0 .0)), "peek gives the highest priority", &log); } }
        let k = r.below(14); let x = num(r); let p: Pr = Reverse(OrderedFloat(x)); let old = m.get(&k).copied();
        ck!(q.get_priority(&k).map(|p| p.0 .0) == old, "get_priority", &log);
        let un = |o: Option<Pr>| o.map(|p| p.0 .0);
        match r.below(5) {
            0 => { log += &format!("; push_increase {k} {x}"); let g = un(q.push_increase(k, p));
                match old { None => { ck!(g.is_none(), "push_increase", &log); m.insert(k, x); }, Some(o) if lt(x, o) => { ck!(g == Some(o), "push_increase", &log); m.insert(k, x); }, Some(_) => ck!(g == Some(x), "push_increase", &log) } }
            1 => { log += &format!("; push_decrease {k} {x}"); let g = un(q.push_decrease(k, p));
                match old { None => { ck!(g.is_none(), "push_decrease", &log); m.insert(k, x); }, Some(o) if lt(o, x) => { ck!(g == Some(o), "push_decrease", &log); m.insert(k, x); }, Some(_) => ck!(g == Some(x), "push_decrease", &log) } }
            2 => { log += &format!("; push {k} {x}"); ck!(un(q.push(k, p)) == old, "push", &log); m.insert(k, x); }
            3 => { log += &format!("; change_priority {k} {x}"); ck!(un(q.change_priority(&k, p)) == old, "change_priority", &log); if old.is_some() { m.insert(k, x); } }
            _ => { log += &format!("; remove {k}"); ck!(q.remove(&k).map(|e| (e.0, e.1 .0 .0)) == old.map(|o| (k, o)), "remove", &log); m.remove(&k); }
        }
        ck!(q.len() == m.len() && m.iter().all(|(k, x)| q.get_priority(k).map(|p| p.0 .0) == Some(*x)), "contents after the operation", &log);
    }
    Ok(())
}

fn matrices(r: &mut Rng) -> Res {
    let (a, b) = (1 + r.below(7), 1 + r.below(7));
    let mut m = DMatrix::from_element(a, b, 7.5f64);
    ck!(m.nrows() == a && m.ncols() == b && m.shape() == (a, b) && m.iter().all(|&x| x == 7.5), "from_element", (a, b));
    let z = nalgebra::DMatrix::<f64>::zeros(a, b); ck!(z.shape() == (a, b), "shape", (a, b));
    let mut t = vec![vec![7.5f64; b]; a];
    for _ in 0..10 { let (i, j, x) = (r.below(a), r.below(b), num(r)); m[(i, j)] = x; t[i][j] = x; let (i, j, x) = (r.below(a), r.below(b), num(r)); *m.get_mut((i, j)).unwrap() = x; t[i][j] = x; }
    { let (i, j, x) = (r.below(a), r.below(b), num(r)); unsafe { *m.as_mut_ptr().add(i + j * a) = x; } t[i][j] = x; }
    for i in 0..a { for j in 0..b {
        ck!(m[(i, j)] == t[i][j], "index", (i, j)); ck!(unsafe { *m.as_ptr().add(i + j * a) } == t[i][j] && m.as_slice()[i + j * a] == t[i][j], "column-major storage", (i, j));
        let row = m.row(i); ck!(row.shape() == (1, b) && row.len() == b && row.ncols() == b && row[(0, j)] == t[i][j] && row[j] == t[i][j], "row view", (i, j));
        ck!(row.strides() == (1, a) && unsafe { *row.as_ptr().add(j * a) } == t[i][j], "stride of a row view", (i, j));
        ck!(row.iter().copied().collect::<Vec<_>>() == t[i], "iteration over a row", i);
    } }
    for (j, c) in m.column_iter().enumerate() { for i in 0..a { ck!(c[i] == t[i][j], "column_iter", (i, j)); } }
    let mut q = DMatrix::from_element(a, a, 2.0f64); let d = DVector::repeat(a, 9.0); ck!(d.len() == a && d.iter().all(|&x| x == 9.0), "DVector::repeat", a);
    q.set_diagonal(&d); for i in 0..a { for j in 0..a { ck!(q[(i, j)] == if i == j { 9.0 } else { 2.0 }, "set_diagonal", (i, j)); } }
    Ok(())
}

fn parallel(r: &mut Rng) -> Res {
    let a = v(r, 40); let n = a.len();
    let s: usize = a.par_iter().map(|x| x + 1).sum(); ck!(s == a.iter().map(|x| x + 1).sum::<usize>(), "par sum", &a);
    let c: Vec<usize> = a.par_iter().map(|x| x * 3).collect(); ck!(c == a.iter().map(|x| x * 3).collect::<Vec<_>>(), "par collect keeps the order", &a);
    ck!((0..n).into_par_iter().map(|k| (a[k], k)).max() == (0..n).map(|k| (a[k], k)).max(), "par max", &a);
    let mut b = a.clone(); b.par_chunks_exact_mut(2).enumerate().for_each(|(k, c)| { c[0] = k; c[1] += 100; });
    for i in 0..n { ck!(b[i] == if i / 2 < n / 2 { if i % 2 == 0 { i / 2 } else { a[i] + 100 } } else { a[i] }, "par_chunks_exact_mut visits each chunk once", &a); }
    let m = std::sync::Mutex::new(0usize);
    rayon::scope(|s| { for &x in &a { let m = &m; s.spawn(move |_| { *m.lock().unwrap() += x; }); } });
    ck!(*m.lock().unwrap() == a.iter().sum::<usize>(), "scope runs each closure once and waits", &a);
    let mut d = DMatrix::from_element(3, 5, 0.0); d.par_column_iter_mut().enumerate().for_each(|(j, mut c)| for i in 0..3 { c[i] = (10 * i + j) as f64; });
    for i in 0..3 { for j in 0..5 { ck!(d[(i, j)] == (10 * i + j) as f64, "par_column_iter_mut", (i, j)); } }
    Ok(())
}

fn adaptors(r: &mut Rng) -> Res {
    let a = v(r, 14); let b = v(r, 14); let n = a.len();
    let (mut lo, mut hi): (Option<usize>, Option<usize>) = (None, None);
    for k in 0..n { if lo.map_or(true, |l| a[k] < a[l]) { lo = Some(k); } if hi.map_or(true, |h| !(a[k] < a[h])) { hi = Some(k); } }
    let key = |k: &usize| a[*k];
    ck!((0..n).min_by_key(key) == lo && (0..n).min_by(|x, y| a[*x].cmp(&a[*y])) == lo, "min_by keeps the first of equal items", &a);
    ck!((0..n).max_by_key(key) == hi && (0..n).max_by(|x, y| a[*x].cmp(&a[*y])) == hi, "max_by keeps the last of equal items", &a);
    ck!(a.iter().position(|&x| x == 4) == (0..n).find(|&k| a[k] == 4), "position", &a);
    let z: Vec<(usize, usize)> = a.iter().copied().zip(b.iter().copied()).collect(); ck!(z.len() == n.min(b.len()) && z.iter().enumerate().all(|(k, p)| *p == (a[k], b[k])), "zip", (&a, &b));
    let (s, t) = (r.below(6), r.below(6));
    ck!(a.iter().skip(s).take(t).copied().collect::<Vec<_>>() == a[s.min(n)..(s + t).min(n)], "skip/take", (&a, s, t));
    ck!(a.iter().rev().copied().collect::<Vec<_>>() == { let mut c = a.clone(); c.reverse(); c }, "rev", &a);
    let (p, q): (Vec<usize>, Vec<usize>) = a.iter().partition(|&&x| x > 4); ck!(p.iter().all(|&x| x > 4) && q.iter().all(|&x| x <= 4) && p.len() + q.len() == n, "partition", &a);
    ck!((s..t).len() == t.saturating_sub(s) && (s..t).rev().last() == if s < t { Some(s) } else { None }, "ranges", (s, t));
    ck!(a.iter().step_by(s + 1).copied().collect::<Vec<_>>() == (0..n).filter(|k| k % (s + 1) == 0).map(|k| a[k]).collect::<Vec<_>>(), "step_by", (&a, s));
    let (u, w): (Vec<usize>, Vec<usize>) = z.iter().copied().unzip(); ck!(u[..] == a[..z.len()] && w[..] == b[..z.len()], "unzip", (&a, &b));
    ck!(a.iter().fold(0usize, |acc, x| acc * 3 + x) == { let mut acc = 0; for x in &a { acc = acc * 3 + x; } acc }, "fold", &a);
    ck!(a.first() == a.get(0) && a.last() == if n > 0 { a.get(n - 1) } else { None }, "first/last", &a);
    let mut c = a.clone(); let k = s.min(n); let tail = c.split_off(k); ck!(c[..] == a[..k] && tail[..] == a[k..], "split_off", (&a, k));
    let mut c = a.clone(); c.extend_from_slice(&b); ck!(c.len() == n + b.len() && c[..n] == a[..] && c[n..] == b[..], "extend_from_slice", (&a, &b));
    Ok(())
}
