use crate::gen::*;
use crate::{fail, Res};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use walky::computation_mode::{PAR_COMPUTATION as PAR, SEQ_COMPUTATION as SEQ};
use walky::datastructures::{AdjacencyMatrix, Edge, Graph, NAMatrix, Solution, VecMatrix, Vertex};
use walky::solvers::approximate::{christofides as chr, matching, nearest_neighbour as nn};
use walky::solvers::{exact, is_hamiltonian_cycle};
use walky::{mst, one_tree};

pub struct Ctx { pub idx: u64, pub r: Rng, pub exhausted: bool, pub nontrivial: bool, pub input: String, pub step: String, pub out: String }
impl Ctx {
    pub fn new(prop: &str, seed: u64, idx: u64, out: String) -> Ctx {
        let mut h = 1469598103934665603u64;
        for b in prop.bytes() { h = (h ^ b as u64).wrapping_mul(1099511628211); }
        Ctx { idx, r: Rng::new(h ^ seed.wrapping_mul(0x2545F4914F6CDD1D) ^ idx.wrapping_mul(0x9E3779B97F4A7C15)), exhausted: false, nontrivial: false, input: String::new(), step: String::new(), out }
    }
    fn at(&mut self, step: &str, input: &str) {
        self.step = step.to_string();
        if self.input != input { self.input = input.to_string(); }
        if !self.out.is_empty() {
            let _ = std::fs::write(format!("{}.cur", self.out), format!("{}\n{}\n{}\n", self.idx, step, input));
        }
    }
}

pub fn na(m: &M) -> NAMatrix { let mut x = NAMatrix::from_dim(m.len()); for i in 0..m.len() { for j in 0..m.len() { x.set(i, j, m[i][j]); } } x }
pub fn vm(m: &M) -> VecMatrix { VecMatrix::from(m.clone()) }
fn sol(s: &Solution) -> String { format!("cost {} tour {:?}", s.0, s.1) }

fn set_cpus(k: usize) {
    extern "C" { fn sched_setaffinity(pid: i32, sz: usize, mask: *const u64) -> i32; }
    let mut mask = [0u64; 16];
    for i in 0..k.min(1024) { mask[i / 64] |= 1 << (i % 64); }
    unsafe { sched_setaffinity(0, 128, mask.as_ptr()); }
}

/// next test instance: first exhaustive small ones, then random ones of up to `max` vertices
/// now and then an instance far beyond the usual size
fn inst_big(c: &mut Ctx, max: usize, big: usize) -> M {
    if c.idx % 29 != 28 { return inst(c, max); }
    let big = if big >= 140 && c.r.chance(1, 6) { 300 } else { big };
    let n = c.r.range(max + 1, big);
    c.nontrivial = true;
    matrix(&mut c.r, n)
}
fn inst(c: &mut Ctx, max: usize) -> M {
    if let Some(m) = exhaustive(c.idx) { c.nontrivial = m.len() >= 3; return m; }
    let n = if c.r.chance(1, 10) { c.r.range(1, 3) } else { c.r.range(4, max) };
    let m = matrix(&mut c.r, n);
    c.nontrivial = n >= 3;
    m
}

fn check_exact(name: &str, m: &M, s: &Solution, valid: bool, optimal: bool) -> Res {
    let n = m.len();
    if valid {
        if !is_perm(&s.1, n) { return fail(&format!("{} does not return a tour", name), show(m), "a permutation of all cities".into(), sol(s)); }
        let l = tour_len(m, &s.1);
        if (l - s.0).abs() > 1e-9 * l.abs() || s.0.is_nan() { return fail(&format!("{} returns a cost that is not the cost of its tour", name), show(m), format!("{}", l), sol(s)); }
    }
    if optimal {
        let o = opt(m);
        // both the claimed cost and the tour itself have to be minimal
        let l = if is_perm(&s.1, n) { tour_len(m, &s.1) } else { f64::INFINITY };
        if !(s.0 <= o + 1e-9 * o) || !(l <= o + 1e-9 * o) { return fail(&format!("{} is not optimal", name), show(m), format!("a tour of cost {}", o), sol(s)); }
    }
    Ok(())
}

fn run_exact(c: &mut Ctx, which: &[usize], valid: bool, optimal: bool, max: usize) -> Res {
    let far = c.idx % if max >= 8 { 61 } else { 331 } == 40;
    let m = if far {
        // larger than usual, with distances that hardly ever tie
        let n = if which.iter().all(|&k| k == 5 || k == 6) { c.r.range(9, 11) } else if which.iter().all(|&k| k == 3 || k == 4) { c.r.range(9, 10) } else if c.idx == 40 && !which.contains(&6) { 10 } else { 9 }; let mut m = vec![vec![0.0; n]; n];
        for i in 0..n { for j in i + 1..n { let d = c.r.range(1, 4000) as f64 / 4.0; m[i][j] = d; m[j][i] = d; } }
        if c.r.chance(1, 3) && n <= 10 { metric_closure(&mut m); }
        c.nontrivial = true;
        m
    } else { inst(c, max) };
    let s = show(&m);
    let a = na(&m); let v = vm(&m);
    for &k in which {
        let names = ["naive (V0)", "fixed first city (V1)", "prefix sums (V2)", "partial-sum pruning (V3)", "nearest-neighbour pruning (V4)", "MST pruning (V5)", "cached MST pruning (V6)"];
        if k == 7 {
            for t in 1..=(if far { 8 } else { 6usize }) {
                if far && t % 3 != 2 { continue; }
                let nm = format!("multi-threaded solver with {} cpus", t);
                c.at(&nm, &format!("cpus {} matrix {}", t, s));
                set_cpus(t);
                let r = exact::threaded_solver(&a);
                set_cpus(64);
                check_exact(&nm, &m, &r, valid, optimal)?;
            }
            continue;
        }
        if k == 0 && m.len() > 7 { continue; }
        c.at(names[k], &s);
        let r = match k { 0 => exact::naive_solver(&a), 1 => exact::first_improved_solver(&a), 2 => exact::second_improved_solver(&a), 3 => exact::third_improved_solver(&a), 4 => exact::fourth_improved_solver(&a), 5 => exact::fifth_improved_solver(&a), _ => exact::sixth_improved_solver(&a) };
        check_exact(names[k], &m, &r, valid, optimal)?;
        if k <= 4 && m.len() <= 5 {
            let r = match k { 0 => exact::naive_solver(&v), 1 => exact::first_improved_solver(&v), 2 => exact::second_improved_solver(&v), 3 => exact::third_improved_solver(&v), _ => exact::fourth_improved_solver(&v) };
            check_exact(names[k], &m, &r, valid, optimal)?;
        }
    }
    Ok(())
}

/// structural and weight check of a spanning tree over V minus excluded
fn check_mst(name: &str, m: &M, excl: &[usize], g: &Graph) -> Res {
    let n = m.len();
    let inp = format!("matrix {} excluded {:?}", show(m), excl);
    let allowed: Vec<usize> = (0..n).filter(|x| !excl.contains(x)).collect();
    let txt = format!("{:?}", g.iter().map(|v| v.iter().map(|e| (e.to, e.cost)).collect::<Vec<_>>()).collect::<Vec<_>>());
    if allowed.is_empty() {
        if g.iter().any(|v| v.degree() > 0) { return fail(&format!("{}: edges although all vertices are excluded", name), inp, "no edges".into(), txt); }
        return Ok(());
    }
    if g.num_vertices() != n { return fail(&format!("{}: wrong number of vertices", name), inp, format!("{}", n), txt); }
    let mut und: Vec<(usize, usize)> = vec![];
    let mut dir: Vec<(usize, usize)> = vec![];
    for (i, v) in g.iter().enumerate() { for e in v.iter() {
        if e.to >= n || e.to == i || excl.contains(&i) || excl.contains(&e.to) { return fail(&format!("{}: illegal edge {}->{}", name, i, e.to), inp, "edges between different non-excluded vertices".into(), txt); }
        if e.cost != m[i][e.to] { return fail(&format!("{}: edge {}->{} has wrong cost", name, i, e.to), inp, format!("{}", m[i][e.to]), txt); }
        dir.push((i, e.to)); if i < e.to { und.push((i, e.to)); }
    } }
    let mut a = dir.clone(); a.sort(); let l = a.len(); a.dedup();
    if a.len() != l || und.len() * 2 != dir.len() || dir.iter().any(|&(x, y)| !dir.contains(&(y, x))) || und.len() + 1 != allowed.len() {
        return fail(&format!("{}: not {} undirected edges", name, allowed.len() - 1), inp, "a spanning tree".into(), txt);
    }
    let mut comp: Vec<usize> = (0..n).collect();
    for _ in 0..n { for &(x, y) in &und { let k = comp[x].min(comp[y]); comp[x] = k; comp[y] = k; } }
    if allowed.iter().any(|&x| comp[x] != comp[allowed[0]]) { return fail(&format!("{}: not connected", name), inp, "a spanning tree".into(), txt); }
    let w: f64 = und.iter().map(|&(x, y)| m[x][y]).sum();
    let best = mst_weight(m, &allowed);
    if (w - best).abs() > 1e-9 * best { return fail(&format!("{}: not minimal", name), inp, format!("{}", best), format!("{} {}", w, txt)); }
    if (g.undirected_edge_weight() - best).abs() > 1e-9 * best { return fail(&format!("{}: reported weight", name), inp, format!("{}", best), format!("{}", g.undirected_edge_weight())); }
    Ok(())
}
fn excluded(c: &mut Ctx, n: usize) -> Vec<usize> {
    let mut e: Vec<usize> = vec![];
    match c.r.below(5) {
        0 => {}
        1 => e.push(c.r.below(n)),
        2 => for i in 0..n { if c.r.chance(1, 3) { e.push(i); } },
        3 => { let k = c.r.below(n); for i in 0..k { e.push(i); } }
        _ => for i in 0..n { if c.r.chance(2, 3) { e.push(i); } },
    }
    c.r.shuffle(&mut e);
    if !e.is_empty() && c.r.chance(1, 10) { let d = e[0]; e.push(d); }
    e
}

static MSEED: AtomicU64 = AtomicU64::new(0);
static MWEIGHT: Mutex<f64> = Mutex::new(0.0);
static TREEW: Mutex<f64> = Mutex::new(0.0);
static MTXT: Mutex<String> = Mutex::new(String::new());
/// caller-supplied perfect matching of the odd vertices: random, or the identity order
fn my_matching(mst: &Graph, g: &NAMatrix) -> Vec<[usize; 2]> {
    let mut odd: Vec<usize> = mst.iter().enumerate().filter(|(_, v)| v.degree() % 2 == 1).map(|(i, _)| i).collect();
    let s = MSEED.load(Ordering::SeqCst);
    if s % 3 != 0 { Rng::new(s).shuffle(&mut odd); }
    let r: Vec<[usize; 2]> = odd.chunks_exact(2).map(|c| [c[0], c[1]]).collect();
    *MWEIGHT.lock().unwrap() = r.iter().map(|p| g.get(p[0], p[1])).sum();
    *TREEW.lock().unwrap() = mst.iter().enumerate().map(|(i, v)| v.iter().filter(|e| e.to > i).map(|e| g.get(i, e.to)).sum::<f64>()).sum();
    *MTXT.lock().unwrap() = format!("{:?}", r);
    r
}
fn metric_inst(c: &mut Ctx, max: usize) -> M {
    let mut m = inst(c, max);
    metric_closure(&mut m);
    m
}
fn check_ham(name: &str, m: &M, s: &Solution) -> Res {
    let n = m.len();
    let ok = s.1.len() == n + 1 && s.1[0] == s.1[n] && is_perm(&s.1[..n], n);
    if !ok { return fail(&format!("{}: not a closed Hamiltonian cycle", name), show(m), "start city twice (first and last), every other once".into(), sol(s)); }
    let l = tour_len(m, &s.1[..n]);
    if (l - s.0).abs() > 1e-9 * l || s.0.is_nan() { return fail(&format!("{}: wrong weight", name), show(m), format!("{}", l), sol(s)); }
    Ok(())
}

fn graph_of(m: &M, r: &mut Rng) -> Graph {
    let n = m.len();
    Graph::from((0..n).map(|i| { let mut o: Vec<usize> = (0..n).filter(|&j| j != i).collect(); r.shuffle(&mut o); o.into_iter().map(|j| Edge { to: j, cost: m[i][j] }).collect::<Vec<_>>() }).collect::<Vec<Vec<Edge>>>())
}
fn tspi(g: Graph) -> walky::parser::TravellingSalesmanProblemInstance {
    walky::parser::TravellingSalesmanProblemInstance { name: "t".into(), source: "t".into(), description: "t".into(), double_precision: 15, ignored_digits: 0, graph: g }
}
fn gtxt(g: &Graph) -> String { format!("{:?}", g.vertices.iter().map(|v| v.edges.iter().map(|e| (e.to, e.cost)).collect::<Vec<_>>()).collect::<Vec<_>>()) }

fn c06(c: &mut Ctx) -> Res {
    // exhaustive: all arrays of length <= 5 over {0..3}, then random ones
    let mut k = c.idx; let mut a: Option<Vec<u8>> = None;
    for len in 0..=5u32 { let cnt = 4u64.pow(len); if k < cnt { let mut v = vec![]; for _ in 0..len { v.push((k % 4) as u8); k /= 4; } a = Some(v); break; } k -= cnt; }
    let a = match a { Some(a) => a, None => {
        let far = c.idx % 7 == 6;
        let len = if far { c.r.range(10, 300) } else { c.r.range(3, 9) }; let al = if far { c.r.range(2, 256) } else { c.r.range(2, 9) };
        let mut v: Vec<u8> = (0..len).map(|_| c.r.below(al) as u8).collect();
        if c.r.chance(1, 2) { let k = c.r.below(len); v[k..].sort_by(|x, y| y.cmp(x)); }
        v
    } };
    c.nontrivial = a.len() > 1;
    c.at("next_permutation", &format!("{:?}", a));
    let mut b = a.clone();
    let r = exact::next_permutation(&mut b);
    // oracle: the least arrangement of the multiset strictly greater than a: longest kept prefix, least greater element, rest sorted
    let n = a.len();
    let mut want: Option<Vec<u8>> = None;
    'o: for p in (0..n).rev() {
        let rest = &a[p..];
        let mut sorted = rest.to_vec(); sorted.sort();
        if let Some(ix) = sorted.iter().position(|&x| x > a[p]) {
            let x = sorted.remove(ix);
            let mut w = a[..p].to_vec(); w.push(x); w.extend(sorted);
            want = Some(w); break 'o;
        }
    }
    let good = match &want { Some(w) => r && &b == w, None => !r && b == a };
    if !good { return fail("next_permutation", format!("{:?}", a), format!("{:?}", want), format!("{} {:?}", r, b)); }
    Ok(())
}

fn c07(c: &mut Ctx) -> Res {
    // (digits, basis, chunks) enumerated
    let mut all = vec![];
    for d in 1..=4usize { for b in 1..=6usize { let t = b.pow(d as u32); for n in 1..=12usize { if t > n { all.push((d, b, n)); } } } }
    let (d, b, n) = if (c.idx as usize) < all.len() { all[c.idx as usize] } else if c.r.chance(1, 4) {
        // far beyond the usual size
        let b = [2usize, 3, 5, 7, 10, 11, 13, 15, 16, 17, 18, 19, 31, 64, 100, 255, 256, 257, 1000][c.r.below(19)];
        let far = c.r.chance(1, 2);
        let mut dm = 1u32; while b.checked_pow(dm + 1).map_or(false, |t| far || t < 1_000_000_000_000) { dm += 1; }
        // either the largest space of that basis that a machine word can number, or a smaller one
        let d = if far && c.r.chance(2, 3) { dm as usize } else { c.r.range(1, dm as usize) };
        (d, b, c.r.range(1, 300.min(b.pow(d as u32) - 1).max(1)))
    } else { let d = c.r.range(1, 5); let b = c.r.range(2, 9); (d, b, c.r.range(1, 40.min(b.pow(d as u32) - 1).max(1))) };
    let t = b.pow(d as u32);
    // chunk counts that divide the space, or leave the least or the most behind
    let n = if c.idx as usize >= all.len() && c.r.chance(1, 3) { let want = c.r.below(3); (2..n).rev().find(|&k| t % k == [0, 1, k - 1][want]).unwrap_or(n) } else { n };
    if t <= n { return Ok(()); }
    c.nontrivial = t > 2;
    let inp = format!("digits {} basis {} chunks {}", d, b, n);
    c.at("split_up_b_ary_number_into_n_chunks", &inp);
    let dig = |v: usize| { let mut o = vec![0; d]; let mut v = v; for i in (0..d).rev() { o[i] = v % b; v /= b; } o };
    let mut prev = dig(0);
    for k in 0..n {
        let (lo, hi) = exact::split_up_b_ary_number_into_n_chunks(d, b, n, k);
        if lo != prev { return fail("chunk does not start where the previous one ended", format!("{} chunk {}", inp, k), format!("{:?}", prev), format!("{:?}..{:?}", lo, hi)); }
        if lo.len() != d || hi.len() != d { return fail("wrong number of digits", format!("{} chunk {}", inp, k), format!("{} digits", d), format!("{:?}..{:?}", lo, hi)); }
        let val = |v: &Vec<usize>| v.iter().fold(0usize, |a, x| a * b + x);
        if val(&hi) <= val(&lo) && !(k == n - 1 && val(&hi) == 0) { return fail("empty or reversed chunk", format!("{} chunk {}", inp, k), "non-empty range".into(), format!("{:?}..{:?}", lo, hi)); }
        prev = hi;
    }
    if prev != dig(0) { return fail("last chunk does not end at the end of the space", inp, format!("{:?} (wrapped end)", dig(0)), format!("{:?}", prev)); }
    c.at("get_next_value", &inp);
    let mut vs: Vec<usize> = (0..t.min(400)).collect();
    if t > 400 { for _ in 0..60 { vs.push(c.r.below(t)); let e = b.pow(c.r.below(d) as u32); vs.push((c.r.below(t) / e * e + e - 1) % t); } }
    for v in vs {
        let mut x = dig(v);
        let r = exact::get_next_value(&mut x, b);
        if v + 1 < t { if r != Some(dig(v + 1)) || x != dig(v + 1) { return fail("get_next_value", format!("{:?} basis {}", dig(v), b), format!("{:?}", dig(v + 1)), format!("{:?} {:?}", r, x)); } }
        else if r.is_some() { return fail("get_next_value at the end", format!("{:?} basis {}", dig(v), b), "None".into(), format!("{:?}", r)); }
    }
    let mut x = dig(t - 1);
    let r = exact::get_next_value(&mut x, b);
    if r.is_some() { return fail("get_next_value at the end", format!("{:?} basis {}", dig(t - 1), b), "None".into(), format!("{:?}", r)); }
    Ok(())
}

fn c10(c: &mut Ctx) -> Res {
    let m = inst_big(c, 8, 100);
    let n = m.len(); let a = na(&m); let s = show(&m);
    let o = if n <= 12 { opt(&m) } else { greedy(&m) };
    c.at("one_tree_lower_bound seq", &s);
    let seq = one_tree::one_tree_lower_bound::<SEQ>(&a);
    c.at("one_tree_lower_bound par", &s);
    let par = one_tree::one_tree_lower_bound::<PAR>(&a);
    for (nm, v) in [("sequential 1-tree bound", seq), ("parallel 1-tree bound", par)] {
        if !(v <= o + 1e-9 * o) || !v.is_finite() { return fail(&format!("{} exceeds the optimal tour", nm), s, format!("at most {}", o), format!("{}", v)); }
        let want = (0..n).map(|k| one_tree_weight(&m, k)).fold(f64::NEG_INFINITY, f64::max);
        if (v - want).abs() > 1e-9 * want { return fail(&format!("{} is not the maximum over special vertices", nm), s, format!("{}", want), format!("{}", v)); }
    }
    for k in 0..n {
        c.at(&format!("one_tree special {}", k), &s);
        let g = one_tree::one_tree(&a, k);
        let w = g.undirected_edge_weight(); let want = one_tree_weight(&m, k);
        if (w - want).abs() > 1e-9 * want || !(w <= o + 1e-9 * o) { return fail(&format!("1-tree of special vertex {} has wrong weight", k), s, format!("{} (optimal tour {})", want, o), format!("{}", w)); }
        if n >= 3 {
            let edges: usize = g.iter().map(|v| v.degree()).sum();
            if edges != 2 * n || g.vertex_degree(k) != 2 { return fail(&format!("1-tree of special vertex {} has the wrong shape", k), s, format!("{} edges, special degree 2", n), gtxt(&g)); }
            for (i, v) in g.iter().enumerate() { for e in v.iter() { if e.to >= n || e.to == i || e.cost != m[i][e.to] { return fail(&format!("1-tree of special vertex {} has a wrong edge", k), s, "matrix edges".into(), gtxt(&g)); } } }
        }
    }
    c.at("MST bounds", &s);
    for (nm, g) in [("prim seq", mst::prim::<SEQ>(&a)), ("prim par", mst::prim::<PAR>(&a)), ("prim queue", mst::prim_with_excluded_node_priority_queue(&a, &[]))] {
        let w = g.undirected_edge_weight();
        if !(w <= o + 1e-9 * o) { return fail(&format!("{} weight exceeds the optimal tour", nm), s, format!("at most {}", o), format!("{}", w)); }
    }
    Ok(())
}

fn check_nn(m: &M, k: usize, s: &Solution) -> Res {
    let n = m.len();
    if !is_perm(&s.1, n) || s.1[0] != k { return fail("nearest neighbour: not a tour from the requested start", format!("{} start {}", show(m), k), "permutation".into(), sol(s)); }
    for i in 0..n - 1 { for j in i + 1..n { if m[s.1[i]][s.1[j]] < m[s.1[i]][s.1[i + 1]] { return fail("nearest neighbour: not greedy", format!("{} start {}", show(m), k), format!("after {:?} city {} is nearer", &s.1[..=i], s.1[j]), sol(s)); } } }
    let l = tour_len(m, &s.1);
    if (l - s.0).abs() > 1e-9 * l { return fail("nearest neighbour: wrong length", format!("{} start {}", show(m), k), format!("{}", l), sol(s)); }
    Ok(())
}
fn c11(c: &mut Ctx) -> Res {
    let mut m = inst_big(c, 9, 140);
    let n = m.len(); 
    if c.r.chance(1, 3) { for i in 0..n { for j in 0..n { if i != j && c.r.chance(1, 2) { m[i][j] = c.r.below(30) as f64; } } } }
    let a = na(&m); let s = show(&m);
    let mut singles = vec![];
    for k in 0..n { c.at(&format!("single_nearest_neighbour start {}", k), &s); let r = nn::single_nearest_neighbour(&a, k); check_nn(&m, k, &r)?; singles.push(r); }
    let best = singles.iter().map(|r| r.0).fold(f64::INFINITY, f64::min);
    for cnt in [1, (n + 1) / 2, n] { for par in [false, true] {
        c.at(&format!("n_nearest_neighbour n={} parallel={}", cnt, par), &s);
        let r = if par { nn::n_nearest_neighbour::<PAR>(&a, cnt) } else { nn::n_nearest_neighbour::<SEQ>(&a, cnt) };
        if r.1.is_empty() { return fail("n_nearest_neighbour returns no tour", s, "tour".into(), sol(&r)); }
        if !singles.iter().any(|x| *x == r) { return fail("n_nearest_neighbour is not the result of any start", s, format!("{:?}", singles), sol(&r)); }
        if cnt == n && !(r.0 <= best) { return fail("n_nearest_neighbour over all starts is not the best", s, format!("{}", best), sol(&r)); }
        // with k distinct starts the result is among the n-k+1 best
        let worse_or_eq = singles.iter().filter(|x| x.0 >= r.0).count();
        if worse_or_eq < cnt { return fail("n_nearest_neighbour is worse than some of its starts must be", s, format!("at most {} starts better", n - cnt), sol(&r)); }
    } }
    for par in [false, true] {
        c.at(&format!("nearest_neighbour parallel={}", par), &s);
        let r = if par { nn::nearest_neighbour::<PAR>(&a) } else { nn::nearest_neighbour::<SEQ>(&a) };
        if r.0 != best || !singles.iter().any(|x| *x == r) { return fail("nearest_neighbour is not the best start", s, format!("{}", best), sol(&r)); }
    }
    Ok(())
}
/// the heaviest perfect matching of `vs` (at most 14 vertices)
fn max_matching(m: &M, vs: &[usize]) -> f64 {
    let k = vs.len();
    let mut best = vec![f64::NEG_INFINITY; 1 << k];
    best[0] = 0.0;
    for set in 1..1usize << k {
        let i = set.trailing_zeros() as usize;
        for j in i + 1..k { if set >> j & 1 == 1 {
            let w = best[set & !(1 << i) & !(1 << j)] + m[vs[i]][vs[j]];
            if w > best[set] { best[set] = w; }
        } }
    }
    best[(1 << k) - 1]
}
/// points around a ring (few odd tree vertices, close to each other) or in clusters; no two distances are equal
fn ring_inst(c: &mut Ctx) -> M {
    let n = c.r.range(3, 14);
    let clusters = c.r.chance(1, 3);
    let pts: Vec<(f64, f64)> = (0..n).map(|i| {
        let t = (i as f64 + c.r.below(1000) as f64 * 0.0004) / n as f64 * std::f64::consts::TAU;
        let rad = if clusters && i % 2 == 0 { 3.0 } else { 10.0 } + c.r.below(1000) as f64 * 0.0003;
        (rad * t.cos(), rad * t.sin() * 1.1)
    }).collect();
    let mut o: Vec<usize> = (0..n).collect();
    c.r.shuffle(&mut o);
    let mut m = vec![vec![0.0; n]; n];
    for i in 0..n { for j in 0..i { let (p, q) = (pts[o[i]], pts[o[j]]); let d = ((p.0 - q.0).powi(2) + (p.1 - q.1).powi(2)).sqrt(); m[i][j] = d; m[j][i] = d; } }
    m
}
/// the solver with its own matching: at most the tree plus the heaviest matching of the tree's odd vertices, where the tree is unique
/// the same where cities coincide: the bound is taken over every minimum spanning tree
fn c13_coinciding(c: &mut Ctx) -> Res {
    let (b, extra) = (ring_inst(c), c.r.range(1, 2));
    let k = b.len().min(6 - extra);
    let mut at: Vec<usize> = (0..k).collect();
    for _ in 0..extra { let x = c.r.below(k); at.push(x); }
    c.r.shuffle(&mut at);
    let n = at.len();
    let m: M = (0..n).map(|i| (0..n).map(|j| b[at[i]][at[j]]).collect()).collect();
    let a = na(&m); let s = show(&m);
    let (mut best, mut lim) = (f64::INFINITY, 0.0f64);
    let mut seen: Vec<(f64, Vec<usize>)> = vec![];
    for code in 0..n.pow(n as u32 - 2) {
        // the tree with this Pruefer code
        let (mut x, mut p) = (code, vec![]);
        for _ in 0..n - 2 { p.push(x % n); x /= n; }
        let mut deg = vec![1usize; n];
        for &v in &p { deg[v] += 1; }
        let d0 = deg.clone(); let mut w = 0.0;
        for &v in &p { let l = (0..n).find(|&i| deg[i] == 1).unwrap(); w += m[l][v]; deg[l] = 0; deg[v] -= 1; }
        let r: Vec<usize> = (0..n).filter(|&i| deg[i] == 1).collect(); w += m[r[0]][r[1]];
        best = best.min(w); seen.push((w, (0..n).filter(|&i| d0[i] % 2 == 1).collect()));
    }
    for (w, odd) in &seen { if *w <= best + 1e-9 * best { lim = lim.max(w + max_matching(&m, odd)); } }
    for par in [false, true] {
        c.at(&format!("christofides parallel={}", par), &s);
        let r = if par { chr::christofides::<PAR>(&a) } else { chr::christofides::<SEQ>(&a) };
        if !(r.0 <= lim + 1e-9 * lim) { return fail("christofides costs more than tree plus the heaviest matching of the tree's odd vertices", s, format!("at most {}", lim), sol(&r)); }
    }
    Ok(())
}
fn c13_own_matching(c: &mut Ctx) -> Res {
    let m = ring_inst(c);
    let n = m.len();
    let mut ds: Vec<f64> = (0..n).flat_map(|i| (0..i).map(|j| m[i][j]).collect::<Vec<_>>()).collect();
    ds.sort_by(|x, y| x.partial_cmp(y).unwrap());
    if ds.windows(2).any(|w| w[1] - w[0] < 1e-9) { return Ok(()); }
    let a = na(&m); let s = show(&m);
    // Kruskal
    let mut es: Vec<(usize, usize)> = (0..n).flat_map(|i| (0..i).map(|j| (i, j)).collect::<Vec<_>>()).collect();
    es.sort_by(|x, y| m[x.0][x.1].partial_cmp(&m[y.0][y.1]).unwrap());
    let mut comp: Vec<usize> = (0..n).collect(); let mut deg = vec![0; n]; let mut w = 0.0;
    for (i, j) in es { if comp[i] != comp[j] { let (x, y) = (comp[i], comp[j]); for z in comp.iter_mut() { if *z == x { *z = y; } } deg[i] += 1; deg[j] += 1; w += m[i][j]; } }
    let odd: Vec<usize> = (0..n).filter(|&i| deg[i] % 2 == 1).collect();
    let lim = w + max_matching(&m, &odd);
    for par in [false, true] {
        c.at(&format!("christofides parallel={}", par), &s);
        let r = if par { chr::christofides::<PAR>(&a) } else { chr::christofides::<SEQ>(&a) };
        if !(r.0 <= lim + 1e-9 * lim) { return fail("christofides costs more than tree plus the heaviest matching of the tree's odd vertices", s, format!("at most {}", lim), sol(&r)); }
    }
    Ok(())
}
fn c12(c: &mut Ctx, bound: bool) -> Res {
    if bound { c13_own_matching(c)?; c13_coinciding(c)?; }
    let m = metric_inst(c, if c.idx % 29 == 28 { 150 } else { 10 });
    let a = na(&m); let s = show(&m);
    for round in 0..3 {
        for par in [false, true] {
            MSEED.store(c.r.next(), Ordering::SeqCst);
            c.at(&format!("christofides_generic parallel={}", par), &s);
            let r = if par { chr::christofides_generic::<PAR>(&a, my_matching) } else { chr::christofides_generic::<SEQ>(&a, my_matching) };
            if bound {
                let lim = *MWEIGHT.lock().unwrap() + *TREEW.lock().unwrap();
                let l = if r.1.is_empty() { 0.0 } else { tour_len(&m, &r.1[..r.1.len() - 1]) };
                if !(r.0 <= lim + 1e-9 * lim) || !(l <= lim + 1e-9 * lim) { return fail("christofides costs more than tree plus matching", format!("{} matching {}", s, MTXT.lock().unwrap()), format!("at most {}", lim), sol(&r)); }
                let allowed: Vec<usize> = (0..m.len()).collect();
                let best = mst_weight(&m, &allowed);
                if *TREEW.lock().unwrap() > best + 1e-9 * best { return fail("christofides does not start from a minimum spanning tree", s, format!("{}", best), format!("{}", *TREEW.lock().unwrap())); }
            } else {
                check_ham(&format!("christofides_generic parallel={}", par), &m, &r)?;
                if round < 2 {
                    c.at(&format!("christofides parallel={}", par), &s);
                    let r = if par { chr::christofides::<PAR>(&a) } else { chr::christofides::<SEQ>(&a) };
                    check_ham(&format!("christofides parallel={}", par), &m, &r)?;
                }
            }
        }
    }
    Ok(())
}
fn c14(c: &mut Ctx) -> Res {
    let m = inst_big(c, 12, 80);
    let n = m.len(); let a = na(&m);
    let mut vs: Vec<usize> = (0..n).collect();
    c.r.shuffle(&mut vs);
    let k = (c.r.below(n / 2 + 1)) * 2;
    let k = if n >= 4 && c.r.chance(1, 2) { 4 } else { k };
    vs.truncate(k);
    for par in [false, true] { for tries in [0usize, 1, 2, 5] { for _rep in 0..3 {
        let inp = format!("{} vertices {:?} tries {} parallel {}", show(&m), vs, tries, par);
        c.at("approx_min_cost_matching", &inp);
        let r = if par { matching::approx_min_cost_matching::<PAR>(&a, vs.clone(), tries) } else { matching::approx_min_cost_matching::<SEQ>(&a, vs.clone(), tries) };
        let mut got: Vec<usize> = r.iter().flat_map(|p| p.iter().cloned()).collect(); got.sort();
        let mut want = vs.clone(); want.sort();
        if got != want { return fail("matching is not perfect", inp, format!("each of {:?} once", want), format!("{:?}", r)); }
        if k == 4 && tries >= 1 {
            let cst: f64 = r.iter().map(|p| m[p[0]][p[1]]).sum();
            let b = [(0, 1, 2, 3), (0, 2, 1, 3), (0, 3, 1, 2)].iter().map(|&(x, y, z, w)| m[vs[x]][vs[y]] + m[vs[z]][vs[w]]).fold(f64::INFINITY, f64::min);
            if cst > b { return fail("two-pair improvement does not reach the best pairing", inp, format!("{}", b), format!("{} {:?}", cst, r)); }
        }
    } } }
    if c.idx % 9 == 8 {
        // twins next to each other and everything else far away: any other pairing can be improved by an exchange, so a
        // search that never takes a worse one ends at the twins (missing it in 600 rounds has a chance below 1e-20)
        let h = c.r.range(2, 5);
        let far = 100.0 + c.r.below(900) as f64;
        let mut id: Vec<usize> = (0..2 * h).collect(); c.r.shuffle(&mut id);
        let mut m = vec![vec![0.0; 2 * h]; 2 * h];
        for i in 0..2 * h { for j in i + 1..2 * h { let d = if id[i] / 2 == id[j] / 2 { c.r.below(3) as f64 } else { far + c.r.below(7) as f64 }; m[i][j] = d; m[j][i] = d; } }
        let a = na(&m); let mut vs: Vec<usize> = (0..2 * h).collect(); c.r.shuffle(&mut vs);
        for par in [false, true] {
            let inp = format!("{} vertices {:?} tries 600 parallel {}", show(&m), vs, par);
            c.at("approx_min_cost_matching", &inp);
            let r = if par { matching::approx_min_cost_matching::<PAR>(&a, vs.clone(), 600) } else { matching::approx_min_cost_matching::<SEQ>(&a, vs.clone(), 600) };
            if let Some(p) = r.iter().find(|p| id[p[0]] / 2 != id[p[1]] / 2) { return fail("local search worsens the matching or stops short of an improvement", inp, "every vertex paired with its twin".into(), format!("{:?} in {:?}", p, r)); }
        }
    }
    Ok(())
}
fn c15(c: &mut Ctx) -> Res {
    let r = &mut c.r;
    let n = if c.idx == 0 || c.idx % 61 == 60 { 0 } else if c.idx % 97 == 96 { r.range(250, 300) } else { r.range(1, 4) };
    let m = matrix(r, n);
    let mut g = graph_of(&m, r);
    // mutate a few times (or leave valid)
    for _ in 0..if n == 0 { 0 } else { r.below(4) } {
        let i = r.below(n);
        match r.below(9) {
            7 => { let l = g.vertices[i].edges.len(); if l > 0 { let k = r.below(l); let x = [f64::NAN, f64::INFINITY, f64::NEG_INFINITY, -0.0, -1.0, 0.0, f64::MIN_POSITIVE][r.below(7)]; let both = r.chance(2, 3); let t = g.vertices[i].edges[k].to; g.vertices[i].edges[k].cost = x; if both && t < n { for e in g.vertices[t].edges.iter_mut() { if e.to == i { e.cost = x; } } } } }
            8 => { let l = g.vertices[i].edges.len(); if l > 0 { let k = r.below(l); g.vertices[i].edges[k].to = [n, n + 1, 1 << 20, usize::MAX, usize::MAX - 1, 1 << 32][r.below(6)]; } }
            0 => { let t = r.below(n + 2); let l = g.vertices[i].edges.len(); if l > 0 { let k = r.below(l); g.vertices[i].edges[k].to = t; } }
            1 => { let l = g.vertices[i].edges.len(); if l > 0 { let k = r.below(l); g.vertices[i].edges.remove(k); } }
            2 => { let t = r.below(n + 1); g.vertices[i].edges.push(Edge { to: t, cost: r.below(3) as f64 }); }
            3 => { let l = g.vertices[i].edges.len(); if l > 0 { let k = r.below(l); let d = [1.0, 0.25, 1e-4, 1e-9, 1e-12, -1e-13][r.below(6)]; g.vertices[i].edges[k].cost += d; } }
            4 => { for v in g.vertices.iter_mut() { v.edges.clear(); } for v in 0..n { for _ in 0..n - 1 { let t = r.below(n); g.vertices[v].edges.push(Edge { to: t, cost: 1.0 }); } } }
            5 => { let l = g.vertices[i].edges.len(); if l > 1 { let e = g.vertices[i].edges[0]; g.vertices[i].edges[1] = e; } }
            _ => { let l = g.vertices[i].edges.len(); if l > 0 { let k = r.below(l); g.vertices[i].edges[k].to = i; } }
        }
    }
    let txt = gtxt(&g);
    c.nontrivial = n > 1;
    let mut want = true;
    for i in 0..n {
        for j in 0..n { let cnt = g.vertices[i].edges.iter().filter(|e| e.to == j).count(); if cnt != if i == j { 0 } else { 1 } { want = false; } }
        if g.vertices[i].edges.iter().any(|e| e.to >= n) { want = false; }
    }
    if want { for i in 0..n { for e in &g.vertices[i].edges { let back = g.vertices[e.to].edges.iter().find(|x| x.to == i).unwrap(); if back.cost != e.cost { want = false; } } } }
    c.at("is_multi_edge", &txt);
    let multi = g.vertices.iter().any(|v| { let mut t: Vec<usize> = v.edges.iter().map(|e| e.to).collect(); t.sort(); let l = t.len(); t.dedup(); t.len() != l });
    let gm = walky::preconditions::is_multi_edge(&g);
    if gm != multi { return fail("is_multi_edge", txt, format!("{}", multi), format!("{}", gm)); }
    let deg_ok = g.vertices.iter().all(|v| v.edges.len() + 1 == n);
    c.at("is_fully_connected", &txt);
    let gf = walky::preconditions::is_fully_connected(&g);
    if gf && !deg_ok { return fail("is_fully_connected accepts a vertex with missing or surplus edges", txt, "false".into(), "true".into()); }
    if !gf && want { return fail("is_fully_connected rejects a complete graph", txt, "true".into(), "false".into()); }
    c.at("do_conditions_hold", &txt);
    let got = tspi(g).do_conditions_hold();
    if got != want { return fail("instance check", txt, format!("{}", want), format!("{}", got)); }
    Ok(())
}
fn c16(c: &mut Ctx) -> Res {
    let m = inst_big(c, 9, 140);
    let n = m.len(); let s = show(&m);
    let g = graph_of(&m, &mut c.r);
    c.at("NAMatrix::from(&Graph)", &s);
    let a = NAMatrix::from(&g);
    c.at("VecMatrix::from(Graph)", &s);
    let v = VecMatrix::from(g.clone());
    let chk = |nm: &str, d: usize, f: &dyn Fn(usize, usize) -> f64| -> Res {
        if d != n { return fail(&format!("{}: wrong dimension", nm), s.clone(), format!("{}", n), format!("{}", d)); }
        for i in 0..n { for j in 0..n { if i != j && f(i, j) != m[i][j] { return fail(&format!("{}: entry ({},{})", nm, i, j), s.clone(), format!("{}", m[i][j]), format!("{}", f(i, j))); } } }
        Ok(())
    };
    chk("NAMatrix from graph", a.dim(), &|i, j| a.get(i, j))?;
    chk("VecMatrix from graph", v.dim(), &|i, j| v.get(i, j))?;
    // arbitrary (asymmetric) matrix between representations
    let mut w = m.clone();
    for i in 0..n { for j in 0..n { w[i][j] = c.r.below(1000) as f64; } }
    let ws = show(&w);
    c.at("NAMatrix::from(&VecMatrix)", &ws);
    let vw = VecMatrix::from(w.clone());
    let aw = NAMatrix::from(&vw);
    if aw.dim() != n { return fail("matrix conversion: dimension", ws, format!("{}", n), format!("{}", aw.dim())); }
    for i in 0..n { for j in 0..n { if vw.get(i, j) != w[i][j] || aw.get(i, j) != w[i][j] { return fail(&format!("matrix conversion: entry ({},{})", i, j), ws, format!("{}", w[i][j]), format!("{} {}", vw.get(i, j), aw.get(i, j))); } } }
    let pts: Vec<[f64; 2]> = (0..n).map(|_| [c.r.below(100) as f64 - 30.0, c.r.below(400) as f64 / 4.0 - 40.0]).collect();
    let ps = format!("{:?}", pts);
    for (nm, p) in [("from_points", NAMatrix::from_points(&pts)), ("par_from_points", NAMatrix::par_from_points(&pts))] {
        c.at(nm, &ps);
        if p.dim() != n { return fail(&format!("{}: dimension", nm), ps, format!("{}", n), format!("{}", p.dim())); }
        for i in 0..n { for j in 0..n { let e = ((pts[i][0] - pts[j][0]).powi(2) + (pts[i][1] - pts[j][1]).powi(2)).sqrt(); if (p.get(i, j) - e).abs() > 1e-9 || p.get(i, j) != p.get(j, i) { return fail(&format!("{}: entry ({},{})", nm, i, j), ps, format!("{}", e), format!("{}", p.get(i, j))); } } }
    }
    // set / get / from_dim
    c.at("from_dim/set", &ws);
    let mut x = NAMatrix::from_dim(n); let mut y = VecMatrix::from_dim(n);
    for i in 0..n { for j in 0..n { let e = if i == j { 0.0 } else { f64::INFINITY }; if x.get(i, j) != e || y.get(i, j) != e { return fail("from_dim", format!("n {} entry ({},{})", n, i, j), format!("{}", e), format!("{} {}", x.get(i, j), y.get(i, j))); } } }
    let (i, j) = (c.r.below(n), c.r.below(n));
    x.set(i, j, 5.5); y.set(i, j, 5.5);
    for p in 0..n { for q in 0..n { let e = if (p, q) == (i, j) { 5.5 } else if p == q { 0.0 } else { f64::INFINITY }; if x.get(p, q) != e || y.get(p, q) != e { return fail("set", format!("n {} set ({},{}) entry ({},{})", n, i, j, p, q), format!("{}", e), format!("{} {}", x.get(p, q), y.get(p, q))); } } }
    Ok(())
}
fn c17(c: &mut Ctx) -> Res {
    let n = if c.idx % 29 == 28 { c.r.range(7, 140) } else { c.r.range(1, 6) };
    let mut m = matrix(&mut c.r, n);
    let asym = c.r.chance(1, 2);
    if asym { for i in 0..n { for j in 0..n { m[i][j] = c.r.below(50) as f64; } } }
    let s = show(&m); let a = na(&m); let v = vm(&m);
    let len = if c.idx % 29 == 28 { c.r.below(300) } else { c.r.below(9) };
    let p: Vec<usize> = (0..len).map(|_| c.r.below(n)).collect();
    c.nontrivial = n > 1 && len > 1;
    let inp = format!("{} path {:?}", s, p);
    c.at("evaluate_path", &inp);
    let want: f64 = p.windows(2).map(|w| m[w[0]][w[1]]).sum();
    let circ = if p.len() <= 1 { 0.0 } else { want + m[p[p.len() - 1]][p[0]] };
    for (nm, x, y) in [("evaluate_path NAMatrix", a.evaluate_path(&p), want), ("evaluate_path VecMatrix", v.evaluate_path(&p), want), ("evaluate_circle NAMatrix", a.evaluate_circle(&p), circ), ("evaluate_circle VecMatrix", v.evaluate_circle(&p), circ)] {
        if (x - y).abs() > 1e-9 * y.abs() { return fail(nm, inp, format!("{}", y), format!("{}", x)); }
    }
    if !asym {
        let mut mm = m.clone();
        if c.r.chance(2, 3) { metric_closure(&mut mm); if n > 2 && c.r.chance(1, 2) { let i = c.r.below(n); let j = c.r.below(n); if i != j { let d = [0.5, 1.0, 1e-12, 1.0e-6][c.r.below(4)]; mm[i][j] += d; mm[j][i] = mm[i][j]; } } }
        let mut want = true; let mut unclear = false;
        for i in 0..n { for j in 0..n { for k in 0..n { let ind = mm[i][k] + mm[k][j]; if mm[i][j] > ind + 1e-10 { want = false; } if (mm[i][j] - ind - 1e-10).abs() < 1e-11 { unclear = true; } } } }
        let s = show(&mm);
        c.at("is_metric", &s);
        let (x, y) = (na(&mm).is_metric(), vm(&mm).is_metric());
        if !unclear && (x != want || y != want) { return fail("is_metric", s, format!("{}", want), format!("{} {}", x, y)); }
    }
    // closed sequences
    let mut q: Vec<usize> = (0..n).collect(); c.r.shuffle(&mut q);
    match c.r.below(4) { 0 => {} 1 => { let k = c.r.below(n); q[k] = c.r.below(n + 1); } 2 => { let x = c.r.below(n); let at = c.r.below(q.len() + 1); q.insert(at, x); } _ => { q.truncate(c.r.range(1, n)); } }
    let f = q[0]; q.push(f);
    let qs = format!("dim {} path {:?}", n, q);
    c.at("is_hamiltonian_cycle", &qs);
    let want = is_perm(&q[..q.len() - 1], n);
    let got = is_hamiltonian_cycle(&q, &a);
    if got != want { return fail("is_hamiltonian_cycle", qs, format!("{}", want), format!("{}", got)); }
    Ok(())
}
fn c18(c: &mut Ctx) -> Res {
    let far = c.idx % 29 == 28;
    let n = if far { c.r.range(6, 300) } else { c.r.range(1, 5) };
    let mut lists: Vec<Vec<Edge>> = (0..n).map(|_| { let k = if far && c.r.chance(1, 10) { c.r.below(300) } else { c.r.below(4) }; (0..k).map(|_| Edge { to: c.r.below(n), cost: c.r.below(100) as f64 / 4.0 }).collect() }).collect();
    c.nontrivial = lists.iter().any(|l| !l.is_empty());
    let txt = format!("{:?}", lists.iter().map(|l| l.iter().map(|e| (e.to, e.cost)).collect::<Vec<_>>()).collect::<Vec<_>>());
    c.at("Graph::from", &txt);
    let mut g = Graph::from(lists.clone());
    for step in 0..4 {
        let got: Vec<Vec<Edge>> = g.vertices.iter().map(|v| v.edges.clone()).collect();
        if got != lists { return fail(&format!("graph contents after {} insertions", step), txt, format!("{:?}", lists), format!("{:?}", got)); }
        let w: f64 = lists.iter().flat_map(|l| l.iter().map(|e| e.cost)).sum();
        if (g.directed_edge_weight() - w).abs() > 1e-9 { return fail("directed_edge_weight", gtxt(&g), format!("{}", w), format!("{}", g.directed_edge_weight())); }
        if (g.undirected_edge_weight() - w / 2.0).abs() > 1e-9 { return fail("undirected_edge_weight", gtxt(&g), format!("{}", w / 2.0), format!("{}", g.undirected_edge_weight())); }
        if g.num_vertices() != n { return fail("num_vertices", gtxt(&g), format!("{}", n), format!("{}", g.num_vertices())); }
        for i in 0..n { if g.vertex_degree(i) != lists[i].len() || g.vertices[i].degree() != lists[i].len() || g.vertices[i].iter().count() != lists[i].len() { return fail("degree", gtxt(&g), format!("{}", lists[i].len()), format!("{}", g.vertex_degree(i))); } }
        let (f, t, k) = (c.r.below(n), c.r.below(n), c.r.below(50) as f64);
        c.at("add_undirected_edge", &format!("{} add {} {} {}", gtxt(&g), f, t, k));
        g.add_undirected_edge(f, t, k);
        lists[f].push(Edge { to: t, cost: k }); lists[t].push(Edge { to: f, cost: k });
    }
    let vx = Vertex::from(lists[0].clone());
    if vx.edges != lists[0] { return fail("Vertex::from", txt, format!("{:?}", lists[0]), format!("{:?}", vx.edges)); }
    Ok(())
}
pub fn cli_child(args: &[String]) {
    use walky::cli::*;
    let file: std::path::PathBuf = args[2].clone().into();
    let par = if args[3] == "par" { Parallelism::MultiThreaded } else { Parallelism::SingleThreaded };
    let lbs = |x: &str| match x { "one" => Some(LowerBoundAlgorithm::OneTree), "mst" => Some(LowerBoundAlgorithm::MST), "que" => Some(LowerBoundAlgorithm::MSTQueue), _ => None };
    let cmd = match args[0].as_str() {
        "exact" => Commands::Exact { algorithm: [ExactAlgorithm::V0, ExactAlgorithm::V1, ExactAlgorithm::V2, ExactAlgorithm::V3, ExactAlgorithm::V4, ExactAlgorithm::V5, ExactAlgorithm::V6][args[1].parse::<usize>().unwrap()], input_file: file, parallelism: par },
        "approx" => { let (al, lb) = args[1].split_at(2); Commands::Approx { algorithm: if al == "ch" { ApproxAlgorithm::Christofides } else { ApproxAlgorithm::NearestNeighbour }, input_file: file, parallelism: par, lower_bound: lbs(lb) } }
        _ => Commands::LowerBound { algorithm: lbs(&args[1]).unwrap(), input_file: file, parallelism: par },
    };
    match walky::run(Cli { command: cmd }) { Ok(()) => {} Err(e) => { eprintln!("ERR {}", e); std::process::exit(3); } }
}
fn run_cli(kind: &str, alg: &str, file: &str, par: &str, cpus: usize) -> (i32, String) {
    let exe = std::env::current_exe().unwrap();
    set_cpus(cpus);
    let o = std::process::Command::new(exe).args(["cli", kind, alg, file, par]).output().unwrap();
    set_cpus(64);
    (o.status.code().unwrap_or(-1), String::from_utf8_lossy(&o.stdout).to_string())
}
fn field(out: &str, key: &str) -> Option<String> { out.lines().find(|l| l.starts_with(key)).map(|l| l[key.len()..].trim().to_string()) }
/// a metric instance on which no nearest-neighbour tour is optimal
fn hard_inst(n: usize) -> M {
    let mut r = Rng::new(5);
    loop {
        // points in the plane; distances differ, so that the nearest city is unique
        let pts: Vec<(f64, f64)> = (0..n).map(|_| (r.below(100000) as f64, r.below(100000) as f64)).collect();
        let m: M = pts.iter().map(|p| pts.iter().map(|q| ((p.0 - q.0).powi(2) + (p.1 - q.1).powi(2)).sqrt()).collect()).collect();
        let best = (0..n).map(|k| { let p: Vec<usize> = (0..n).map(|i| (i + k) % n).collect(); greedy(&p.iter().map(|&i| p.iter().map(|&j| m[i][j]).collect()).collect()) }).fold(f64::INFINITY, f64::min);
        if best > opt(&m) * 1.01 { return m; }
    }
}
fn c19(c: &mut Ctx) -> Res {
    let m = if c.idx == 1 { hard_inst(10) } else if c.idx == 3 { hard_inst(8) } else if c.idx < 7 { let mut r = Rng::new(c.idx + 77); metric_like(&mut r, c.idx as usize + 1) } else { metric_inst(c, 6) };
    c.nontrivial = m.len() > 2;
    let n = m.len(); let s = show(&m); let o = opt(&m);
    let dir = std::env::temp_dir().join(format!("vharness_cli_{}", std::process::id()));
    let _ = std::fs::create_dir_all(&dir);
    let f = dir.join("i.xml"); 
    let mut xml = String::from("<travellingSalesmanProblemInstance><name>t</name><source>t</source><description>t</description><doublePrecision>15</doublePrecision><ignoredDigits>0</ignoredDigits><graph>");
    for i in 0..n { xml.push_str("<vertex>"); for j in 0..n { if i != j { xml.push_str(&format!("<edge cost=\"{}\">{}</edge>", m[i][j], j)); } } xml.push_str("</vertex>"); }
    xml.push_str("</graph></travellingSalesmanProblemInstance>");
    std::fs::write(&f, &xml).unwrap();
    let fs = f.to_str().unwrap().to_string();
    let tol = 1e-9 * o;
    let lens = if n <= 8 { all_lengths(&m) } else { vec![] };
    let mut go = || -> Res {
        for par in ["seq", "par"] {
            if n == 10 && par == "par" { continue; } // an enumeration too long to repeat
            for k in 0..7usize {
                let cp = 1 + (k % 3);
                c.at(&format!("cli exact V{} {}", k, par), &s);
                if n == 10 && (k != 0 && k != 1 && k != 5) { continue; }
                if n == 1 { continue; } // a vertex without edges cannot be written in this XML dialect
                let (rc, out) = run_cli("exact", &k.to_string(), &fs, par, cp);
                let cost = field(&out, "Best Cost:").and_then(|x| x.parse::<f64>().ok());
                let perm: Option<Vec<usize>> = field(&out, "Best Permutation:").map(|x| x.trim_matches(|ch| ch == '[' || ch == ']').split(',').filter_map(|y| y.trim().parse().ok()).collect());
                let ok = rc == 0 && cost.map_or(false, |x| (x - o).abs() <= tol) && perm.as_ref().map_or(false, |p| is_perm(p, n) && (tour_len(&m, p) - o).abs() <= tol);
                if !ok { return fail(&format!("exact V{} {} report", k, par), s.clone(), format!("cost {}", o), format!("exit {} output {}", rc, out)); }
            }
            if n == 1 || n == 10 { continue; }
            for al in ["ch", "nn", "chone", "nnmst", "nnque", "chmst"] {
                c.at(&format!("cli approx {} {}", al, par), &s);
                let (rc, out) = run_cli("approx", al, &fs, par, 8);
                let key = if al.starts_with("ch") { "Christofides solution weight:" } else { "Nearest Neighbour solution weight:" };
                let w = field(&out, key).and_then(|x| x.parse::<f64>().ok());
                let mut ok = rc == 0 && w.map_or(false, |x| x >= o - tol && x.is_finite());
                ok = ok && (lens.is_empty() || lens.iter().any(|l| (l - w.unwrap()).abs() <= tol));
                if al.starts_with("nn") {
                    let perm: Option<Vec<usize>> = field(&out, "Nearest Neighbour solution:").map(|x| x.trim_matches(|ch| ch == '[' || ch == ']').split(',').filter_map(|y| y.trim().parse().ok()).collect());
                    ok = ok && perm.as_ref().map_or(false, |p| is_perm(p, n) && (tour_len(&m, p) - w.unwrap()).abs() <= tol);
                }
                if al.len() > 2 {
                    let lk = if &al[2..] == "one" { "1-tree lower bound:" } else { "MST lower bound:" };
                    let l = field(&out, lk).and_then(|x| x.parse::<f64>().ok());
                    ok = ok && l.map_or(false, |x| x <= o + tol);
                }
                if !ok { return fail(&format!("approx {} {} report", al, par), s.clone(), format!("length of a tour (at least {}), bounds at most {}", o, o), format!("exit {} output {}", rc, out)); }
            }
            for al in ["one", "mst", "que"] {
                c.at(&format!("cli lower bound {} {}", al, par), &s);
                let (rc, out) = run_cli("lb", al, &fs, par, 8);
                let lk = if al == "one" { "1-tree lower bound:" } else { "MST lower bound:" };
                let l = field(&out, lk).and_then(|x| x.parse::<f64>().ok());
                let all: Vec<usize> = (0..n).collect();
                if rc != 0 || !l.map_or(false, |x| x <= o + tol) { return fail(&format!("lower bound {} {} report", al, par), s.clone(), format!("at most the optimal tour {}", o), format!("exit {} output {}", rc, out)); }
            }
        }
        let mut bads: Vec<(String, Vec<u8>)> = vec![("malformed".into(), b"<travelling".to_vec()), ("incomplete".into(), b"<travellingSalesmanProblemInstance><name>t</name></travellingSalesmanProblemInstance>".to_vec()), ("empty".into(), vec![]), ("missing".into(), vec![])];
        if n > 1 {
            let mut cuts: Vec<usize> = ["</graph>", "</vertex>", "<edge", "<graph>", "</travelling"].iter().flat_map(|t| { let a = xml.find(t).unwrap(); let b = xml.rfind(t).unwrap(); [a, b, b + t.len()] }).filter(|&x| x < xml.len()).collect();
            cuts.push(c.r.below(xml.len() - 1)); // without its very last character the document is accepted: known finding, see known_findings.txt
            for x in cuts { bads.push((format!("cut off after {} bytes", x), xml.as_bytes()[..x].to_vec())); }
            let mut bytes = xml.clone().into_bytes(); let at = xml.find("<name>").unwrap() + 6; bytes[at] = 0xff; bads.push(("not UTF-8".into(), bytes));
            bads.push(("distance that is no number".into(), xml.replacen("cost=\"", "cost=\"x", 1).into_bytes()));
            bads.push(("missing distance".into(), xml.replacen("<edge cost", "<edge cots", 1).into_bytes()));
            bads.push(("target that is no number".into(), xml.replacen("</edge>", "a</edge>", 1).into_bytes()));
        }
        for (k, bad) in &bads {
            std::fs::write(&f, bad).unwrap();
            if k == "missing" { std::fs::remove_file(&f).unwrap(); }
            let t = String::from_utf8_lossy(bad).to_string();
            c.at(&format!("cli file {}", k), &t);
            let (kind, al) = if k.starts_with("cut") { ("exact", "5") } else { [("exact", "5"), ("exact", "0"), ("approx", "nn"), ("lb", "one"), ("lb", "mst")][c.idx as usize % 5] };
            let (rc, out) = run_cli(kind, al, &fs, "seq", 8);
            if rc == 0 || !out.trim().is_empty() { return fail(&format!("{} file is reported on", k), t, "an error".into(), format!("exit {} output {}", rc, out)); }
        }
        Ok(())
    };
    let r = go();
    if r.is_ok() { c.at("cli", &s); }
    let _ = std::fs::remove_dir_all(&dir);
    r
}
/// the lengths of all tours
fn all_lengths(m: &M) -> Vec<f64> {
    fn rec(m: &M, p: &mut Vec<usize>, out: &mut Vec<f64>) {
        if p.len() == m.len() { out.push(tour_len(m, p)); return; }
        for x in 0..m.len() { if !p.contains(&x) { p.push(x); rec(m, p, out); p.pop(); } }
    }
    let mut out = vec![]; rec(m, &mut vec![0], &mut out); out
}
fn metric_like(r: &mut Rng, n: usize) -> M { let mut m = matrix(r, n); metric_closure(&mut m); m }
fn c20(c: &mut Ctx) -> Res {
    let mut m = inst(c, 7);
    let ex = excluded(c, m.len());
    let s = format!("{} excluded {:?}", show(&m), ex);
    let n = m.len();
    let a = na(&m);
    macro_rules! st { ($n:expr, $e:expr) => { c.at($n, &s); let _ = $e; } }
    if c.idx % 29 == 28 {
        // the algorithms that do not enumerate, on large instances
        let n = c.r.range(8, 120);
        let mut m = matrix(&mut c.r, n); metric_closure(&mut m);
        let ex = excluded(c, n);
        let s = format!("{} excluded {:?}", show(&m), ex); let a = na(&m);
        macro_rules! big { ($n:expr, $e:expr) => { c.at($n, &s); let _ = $e; } }
        big!("prim seq excluded", mst::prim_with_excluded_node_single_threaded(&a, &ex));
        big!("prim par excluded", mst::prim_with_excluded_node_multi_threaded(&a, &ex));
        big!("prim queue excluded", mst::prim_with_excluded_node_priority_queue(&a, &ex));
        big!("1-tree seq", one_tree::one_tree_lower_bound::<SEQ>(&a)); big!("1-tree par", one_tree::one_tree_lower_bound::<PAR>(&a));
        big!("nn seq", nn::nearest_neighbour::<SEQ>(&a)); big!("nn par", nn::nearest_neighbour::<PAR>(&a));
        big!("christofides seq", chr::christofides::<SEQ>(&a)); big!("christofides par", chr::christofides::<PAR>(&a));
        let k = c.r.below(n / 2 + 1) * 2;
        big!("matching", matching::approx_min_cost_matching::<SEQ>(&a, (0..k).collect(), 3));
        big!("matching par", matching::approx_min_cost_matching::<PAR>(&a, (0..k).collect(), 3));
    }
    st!("V0", exact::naive_solver(&a)); st!("V1", exact::first_improved_solver(&a)); st!("V2", exact::second_improved_solver(&a)); st!("V3", exact::third_improved_solver(&a)); st!("V4", exact::fourth_improved_solver(&a)); st!("V5", exact::fifth_improved_solver(&a)); st!("V6", exact::sixth_improved_solver(&a));
    for t in [1usize, 2, 3, 5] { set_cpus(t); c.at(&format!("threaded {} cpus", t), &s); let _ = exact::threaded_solver(&a); set_cpus(64); }
    st!("prim seq", mst::prim::<SEQ>(&a)); st!("prim par", mst::prim::<PAR>(&a));
    st!("prim seq excluded", mst::prim_with_excluded_node_single_threaded(&a, &ex));
    st!("prim par excluded", mst::prim_with_excluded_node_multi_threaded(&a, &ex));
    st!("prim queue excluded", mst::prim_with_excluded_node_priority_queue(&a, &ex));
    st!("1-tree seq", one_tree::one_tree_lower_bound::<SEQ>(&a)); st!("1-tree par", one_tree::one_tree_lower_bound::<PAR>(&a));
    for k in 0..n { c.at(&format!("nn {}", k), &s); let _ = nn::single_nearest_neighbour(&a, k); }
    st!("nn seq", nn::nearest_neighbour::<SEQ>(&a)); st!("nn par", nn::nearest_neighbour::<PAR>(&a));
    metric_closure(&mut m);
    let s = show(&m); let a = na(&m);
    macro_rules! st2 { ($n:expr, $e:expr) => { c.at($n, &s); let _ = $e; } }
    st2!("christofides seq", chr::christofides::<SEQ>(&a)); st2!("christofides par", chr::christofides::<PAR>(&a));
    st2!("matching", matching::approx_min_cost_matching::<SEQ>(&a, (0..n).collect(), 3));
    st2!("matching par", matching::approx_min_cost_matching::<PAR>(&a, (0..n).collect(), 3));
    Ok(())
}

pub fn case(prop: &str, c: &mut Ctx) -> Res {
    match prop {
        "conform" => { c.nontrivial = true; c.input = format!("{} #{}", crate::conform::NAMES[(c.idx % 9) as usize], c.idx); crate::conform::case((c.idx % 9) as usize, &mut c.r) }
        "C01" => run_exact(c, &[0, 1, 2, 3, 4, 5, 6, 7], true, false, 6),
        "C02" => run_exact(c, &[0, 1, 2], false, true, 7),
        "C03" => run_exact(c, &[3, 4], false, true, 8),
        "C04" => run_exact(c, &[5, 6], false, true, 8),
        "C05" => run_exact(c, &[7], true, true, 7),
        "C06" => c06(c),
        "C07" => c07(c),
        "C08" => { let m = inst_big(c, 10, 140); let e = excluded(c, m.len()); let a = na(&m); c.at("prim_with_excluded_node_single_threaded", &format!("{} excluded {:?}", show(&m), e)); let g = mst::prim_with_excluded_node_single_threaded(&a, &e); check_mst("sequential MST", &m, &e, &g)?; let g = mst::prim::<SEQ>(&a); check_mst("prim::<SEQ>", &m, &[], &g) }
        "C09" => { let m = inst_big(c, 10, 140); let e = excluded(c, m.len()); let a = na(&m); let s = format!("{} excluded {:?}", show(&m), e);
            c.at("prim_with_excluded_node_priority_queue", &s); let g = mst::prim_with_excluded_node_priority_queue(&a, &e); check_mst("priority-queue MST", &m, &e, &g)?;
            c.at("prim_with_excluded_node_multi_threaded", &s); let g = mst::prim_with_excluded_node_multi_threaded(&a, &e); check_mst("multi-threaded MST", &m, &e, &g)?;
            let g = mst::prim::<PAR>(&a); check_mst("prim::<PAR>", &m, &[], &g) }
        "C10" => c10(c),
        "C11" => c11(c),
        "C12" => c12(c, false),
        "C13" => c12(c, true),
        "C14" => c14(c),
        "C15" => c15(c),
        "C16" => c16(c),
        "C17" => c17(c),
        "C18" => c18(c),
        "C19" => c19(c),
        "C20" => c20(c),
        _ => { c.exhausted = true; Ok(()) }
    }
}
