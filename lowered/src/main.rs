//! The lowered text next to the real crate: same inputs, identical results. usage: vlowered SECS SEED
#![allow(unused_parens, unused_mut, unused_variables, unreachable_code, non_snake_case, unused_assignments, unused_imports, dead_code)]
mod prelude;
#[path = "../../harness/src/gen.rs"] mod gen;
mod low { #![allow(warnings)] use super::prelude::*; include!(env!("LOWERED_GEN")); }
use gen::Rng;
use low::{AdjacencyMatrix as LA, FindMinCostEdge as _};
use prelude as p;
use prelude::ConvFrom;
use walky::datastructures::{AdjacencyMatrix as RA, NAMatrix, VecMatrix};
use walky::parser::{Edge, Graph, Vertex};
use std::panic::{catch_unwind, AssertUnwindSafe as Au};

fn na(m: &[Vec<f64>]) -> NAMatrix { let n = m.len(); let mut a = NAMatrix::from_dim(n); for i in 0..n { for j in 0..n { a.set(i, j, m[i][j]); } } a }
fn la(m: &[Vec<f64>]) -> p::NAMatrix { let n = m.len(); p::NAMatrix(nalgebra::DMatrix::from_fn(n, n, |i, j| m[i][j])) }
fn rg(l: &[Vec<(usize, f64)>]) -> Graph { Graph { vertices: l.iter().map(|v| Vertex { edges: v.iter().map(|e| Edge { to: e.0, cost: e.1 }).collect() }).collect() } }
fn lg(l: &[Vec<(usize, f64)>]) -> p::Graph { p::Graph { vertices: l.iter().map(|v| p::Vertex { edges: v.iter().map(|e| p::Edge { to: e.0, cost: e.1 }).collect() }).collect() } }
fn rs(g: &Graph) -> String { format!("{:?}", g.vertices.iter().map(|v| v.edges.iter().map(|e| (e.to, e.cost)).collect::<Vec<_>>()).collect::<Vec<_>>()) }
fn ls(g: &p::Graph) -> String { format!("{:?}", g.vertices.iter().map(|v| v.edges.iter().map(|e| (e.to, e.cost)).collect::<Vec<_>>()).collect::<Vec<_>>()) }

fn run<T: std::fmt::Debug>(f: impl FnOnce() -> T) -> String { match catch_unwind(Au(f)) { Ok(x) => format!("{x:?}").replace("-0.0", "0.0") /* the real numbers have one zero */, Err(_) => "panic".into() } }

struct C { name: &'static str, input: String, a: String, b: String }
macro_rules! cmp { ($o:ident, $n:expr, $in:expr, $a:expr, $b:expr) => { { let (a, b) = (run(|| $a), run(|| $b)); $o.0 += 1; *$o.2.entry($n).or_insert(0u64) += 1; if a != b && $o.1.is_none() { $o.1 = Some(C { name: $n, input: format!("{:?}", $in), a, b }); } } } }
type O = (u64, Option<C>, std::collections::BTreeMap<&'static str, u64>);

fn case(r: &mut Rng, o: &mut O) {
    use walky::solvers::{self, exact as e, approximate as ap};
    use walky::{mst, one_tree as ot, preconditions as pre};
    let n = 1 + r.below(7);
    let mut m = gen::matrix(r, n);
    let (x, y) = (na(&m), la(&m));
    let z = VecMatrix::from(m.clone()); let w = p::VecMatrix(m.clone());
    if n >= 2 || r.below(2) == 0 {
        cmp!(o, "naive_solver", m, e::naive_solver(&x), low::naive_solver(&y));
        cmp!(o, "first_improved_solver", m, e::first_improved_solver(&x), low::first_improved_solver(&y));
        cmp!(o, "second_improved_solver", m, e::second_improved_solver(&x), low::second_improved_solver(&y));
        cmp!(o, "third_improved_solver", m, e::third_improved_solver(&z), low::third_improved_solver(&w));
        cmp!(o, "fourth_improved_solver", m, e::fourth_improved_solver(&x), low::fourth_improved_solver(&y));
        cmp!(o, "fifth_improved_solver", m, e::fifth_improved_solver(&x), low::fifth_improved_solver(&y));
        cmp!(o, "sixth_improved_solver", m, e::sixth_improved_solver(&x), low::sixth_improved_solver(&y));
        cmp!(o, "threaded_solver (cost)", m, e::threaded_solver(&x).0, low::threaded_solver(&y).0);
    }
    let n = 1 + r.below(14); m = gen::matrix(r, n);
    if r.below(6) == 0 { for i in 0..n { for j in 0..n { if r.below(5) == 0 { m[i][j] = f64::INFINITY; } } } }
    if r.below(4) == 0 { let (i, j) = (r.below(n), r.below(n)); m[i][j] += [1e-9, 1e-11, 3.0][r.below(3)]; }
    let (x, y) = (na(&m), la(&m)); let (z, w) = (VecMatrix::from(m.clone()), p::VecMatrix(m.clone()));
    for i in 0..n { cmp!(o, "single_nearest_neighbour", (&m, i), ap::nearest_neighbour::single_nearest_neighbour(&x, i), low::single_nearest_neighbour(&y, i)); }
    cmp!(o, "nearest_neighbour (n < 100: all starts) (cost)", m, ap::nearest_neighbour::nearest_neighbour::<0>(&x).0, low::nearest_neighbour::<0>(&y).0);
    cmp!(o, "nearest_neighbour parallel (cost)", m, ap::nearest_neighbour::nearest_neighbour::<1>(&x).0, low::nearest_neighbour::<1>(&y).0);
    let k = r.below(n + 2);
    cmp!(o, "prim", m, rs(&mst::prim::<0>(&x)), ls(&low::prim::<0>(&y)));
    cmp!(o, "prim parallel (weight)", m, mst::prim::<1>(&x).undirected_edge_weight(), low::prim::<1>(&y).undirected_edge_weight());
    let ex: Vec<usize> = (0..n).filter(|_| r.below(4) == 0).collect(); let ex = if ex.len() < n { ex } else { vec![] };
    cmp!(o, "prim_with_excluded_node_single_threaded", (&m, &ex), rs(&mst::prim_with_excluded_node_single_threaded(&x, &ex)), ls(&low::prim_with_excluded_node_single_threaded(&y, &ex)));
    cmp!(o, "prim_with_excluded_node_multi_threaded (weight)", (&m, &ex), mst::prim_with_excluded_node_multi_threaded(&x, &ex).undirected_edge_weight(), low::prim_with_excluded_node_multi_threaded(&y, &ex).undirected_edge_weight());
    cmp!(o, "prim_with_excluded_node_priority_queue", (&m, &ex), rs(&mst::prim_with_excluded_node_priority_queue(&x, &ex)), ls(&low::prim_with_excluded_node_priority_queue(&y, &ex)));
    cmp!(o, "one_tree", (&m, k), rs(&ot::one_tree(&x, k)), ls(&low::one_tree(&y, k)));
    cmp!(o, "one_tree_lower_bound", m, ot::one_tree_lower_bound::<0>(&x), low::one_tree_lower_bound::<0>(&y));
    cmp!(o, "one_tree_lower_bound parallel", m, ot::one_tree_lower_bound::<1>(&x), low::one_tree_lower_bound::<1>(&y));
    // christofides: with at most two odd vertices, or four and many tries on generic weights, the matching is determined
    let gn = 1 + r.below(5); let g = gen::matrix(r, gn);
    let (gx, gy) = (na(&g), la(&g));
    let gen_w = { let n = g.len(); let mut s = std::collections::HashSet::new(); (0..n).all(|i| (0..i).all(|j| s.insert((g[i][j] * 8.0) as i64))) };
    if g.len() <= 3 && gen_w {
        cmp!(o, "christofides (n <= 3)", g, ap::christofides::christofides::<0>(&gx), low::christofides::<0>(&gy));
        cmp!(o, "christofides parallel (n <= 3)", g, ap::christofides::christofides::<1>(&gx), low::christofides::<1>(&gy));
    }
    let vs: Vec<usize> = { let mut v: Vec<usize> = (0..n).collect(); r.shuffle(&mut v); let t = [0, 2, 4][r.below(3)].min(n / 2 * 2); v.truncate(t); v };
    let cost = |mt: &Vec<[usize; 2]>| { let mut c: Vec<f64> = mt.iter().map(|e| m[e[0]][e[1]]).collect(); c.sort_by(|a, b| a.total_cmp(b)); c.iter().sum::<f64>() };
    if (0..n).all(|i| (0..n).all(|j| m[i][j] == m[j][i] && m[i][j].is_finite())) {
        cmp!(o, "approx_min_cost_matching (<= 4 vertices; cost)", (&m, &vs), cost(&ap::matching::approx_min_cost_matching::<0>(&x, vs.clone(), 3)), cost(&low::approx_min_cost_matching::<0>(&y, vs.clone(), 3)));
        cmp!(o, "approx_min_cost_matching parallel (<= 4 vertices; cost)", (&m, &vs), cost(&ap::matching::approx_min_cost_matching::<1>(&x, vs.clone(), 3)), cost(&low::approx_min_cost_matching::<1>(&y, vs.clone(), 3)));
    }
    let path: Vec<usize> = { let mut v: Vec<usize> = (0..n).collect(); r.shuffle(&mut v); match r.below(4) { 0 => { v.pop(); } 1 => { let q = r.below(n + 2); v.push(q); } 2 => { let q = v[0]; v.push(q); } _ => {} } v };
    if path.iter().all(|&q| q < n) {
        cmp!(o, "evaluate_path", (&m, &path), x.evaluate_path(&path), y.evaluate_path(&path));
        cmp!(o, "evaluate_circle", (&m, &path), z.evaluate_circle(&path), w.evaluate_circle(&path));
    }
    cmp!(o, "is_metric", m, (x.is_metric(), z.is_metric()), (y.is_metric(), w.is_metric()));
    cmp!(o, "is_hamiltonian_cycle", (&m, &path), solvers::is_hamiltonian_cycle(&path, &x), low::is_hamiltonian_cycle(&path, &y));
    cmp!(o, "NAMatrix::from(&VecMatrix)", m, { let t = NAMatrix::from(&z); (0..n * n).map(|k| t.get(k / n, k % n)).collect::<Vec<_>>() }, { let t = p::NAMatrix::conv_from(&w); (0..n * n).map(|k| t.get(k / n, k % n)).collect::<Vec<_>>() });
    let pts: Vec<[f64; 2]> = (0..r.below(9)).map(|_| [r.below(50) as f64 / 4.0, r.below(50) as f64 / 4.0]).collect(); let q = pts.len();
    cmp!(o, "NAMatrix::from_points", pts, { let t = NAMatrix::from_points(&pts); (0..q * q).map(|k| t.get(k / q, k % q)).collect::<Vec<_>>() }, { let t = p::NAMatrix::from_points(&pts); (0..q * q).map(|k| t.get(k / q, k % q)).collect::<Vec<_>>() });
    cmp!(o, "NAMatrix::par_from_points", pts, { let t = NAMatrix::par_from_points(&pts); (0..q * q).map(|k| t.get(k / q, k % q)).collect::<Vec<_>>() }, { let t = p::NAMatrix::par_from_points(&pts); (0..q * q).map(|k| t.get(k / q, k % q)).collect::<Vec<_>>() });
    // graphs: mostly complete, sometimes with an edge missing, doubled, changed or pointing elsewhere
    let n = r.below(7);
    let mut l: Vec<Vec<(usize, f64)>> = (0..n).map(|i| (0..n).filter(|j| *j != i).map(|j| (j, (i + j + i * j) as f64 / 2.0)).collect()).collect();
    for _ in 0..r.below(3) { if n > 1 { let i = r.below(n); match r.below(5) { 0 => { l[i].pop(); } 1 => { let t = (r.below(n), r.below(9) as f64); l[i].push(t); } 2 => { if let Some(e) = l[i].last_mut() { e.1 += 1.0; } } 3 => { if let Some(e) = l[i].first_mut() { e.0 = r.below(n); } } _ => { let k = l[i].len(); if k > 1 { l[i].swap(0, k - 1); } } } } }
    let (a, b) = (rg(&l), lg(&l));
    cmp!(o, "is_fully_connected", l, pre::is_fully_connected(&a), low::is_fully_connected(&b));
    cmp!(o, "is_multi_edge", l, pre::is_multi_edge(&a), low::is_multi_edge(&b));
    cmp!(o, "is_undirected", l, pre::is_undirected(&a), low::is_undirected(&b));
    cmp!(o, "do_conditions_hold", l, walky::parser::TravellingSalesmanProblemInstance { name: "".into(), source: "".into(), description: "".into(), double_precision: 0, ignored_digits: 0, graph: rg(&l) }.do_conditions_hold(), p::TravellingSalesmanProblemInstance { graph: lg(&l) }.do_conditions_hold());
    cmp!(o, "Graph::num_vertices", l, a.num_vertices(), b.num_vertices());
    cmp!(o, "Graph::directed_edge_weight", l, a.directed_edge_weight(), b.directed_edge_weight());
    cmp!(o, "Graph::undirected_edge_weight", l, a.undirected_edge_weight(), b.undirected_edge_weight());
    let i = r.below(n + 1);
    cmp!(o, "Graph::vertex_degree", (&l, i), a.vertex_degree(i), b.vertex_degree(i));
    let j = r.below(n + 1);
    cmp!(o, "Graph::add_undirected_edge", (&l, i, j), { let mut a = rg(&l); a.add_undirected_edge(i, j, 2.5); rs(&a) }, { let mut b = lg(&l); b.add_undirected_edge(i, j, 2.5); ls(&b) });
    cmp!(o, "Vertex::add_edge/degree", l, { let mut v = Vertex { edges: vec![] }; v.add_edge(Edge { to: i, cost: 1.5 }); (v.degree(), v.edges[0].to, v.edges[0].cost) }, { let mut v = p::Vertex { edges: vec![] }; v.add_edge(p::Edge { to: i, cost: 1.5 }); (v.degree(), v.edges[0].to, v.edges[0].cost) });
    cmp!(o, "Graph::from / Vertex::from", l, rs(&Graph::from(rg(&l).vertices.into_iter().map(|v| v.edges).collect::<Vec<_>>())), ls(&p::Graph::conv_from(lg(&l).vertices.into_iter().map(|v| v.edges).collect::<Vec<_>>())));
    cmp!(o, "VecMatrix::from(Graph)", l, { let t = VecMatrix::from(rg(&l)); (0..n * n).map(|k| t.get(k / n, k % n)).collect::<Vec<_>>() }, { let t = p::VecMatrix::conv_from(lg(&l)); (0..n * n).map(|k| t.get(k / n, k % n)).collect::<Vec<_>>() });
    cmp!(o, "NAMatrix::from(&Graph)", l, { let t = NAMatrix::from(&a); (0..n * n).map(|k| t.get(k / n, k % n)).collect::<Vec<_>>() }, { let t = p::NAMatrix::conv_from(&b); (0..n * n).map(|k| t.get(k / n, k % n)).collect::<Vec<_>>() });
    cmp!(o, "VecMatrix::from_dim", n, { let t = VecMatrix::from_dim(n); (0..n * n).map(|k| t.get(k / n, k % n)).collect::<Vec<_>>() }, { let t = p::VecMatrix::from_dim(n); (0..n * n).map(|k| t.get(k / n, k % n)).collect::<Vec<_>>() });
    // digits and permutations
    let s: Vec<usize> = (0..r.below(8)).map(|_| r.below(5)).collect();
    cmp!(o, "next_permutation", s, { let mut t = s.clone(); let b = e::next_permutation(&mut t); (b, t) }, { let mut t = s.clone(); let b = low::next_permutation(&mut t); (b, t) });
    let bs = 1 + r.below(6); let d: Vec<usize> = (0..r.below(6)).map(|_| if r.below(2) == 0 { bs - 1 } else { r.below(bs) }).collect();
    cmp!(o, "get_next_value", (&d, bs), { let mut t = d.clone(); let b = e::get_next_value(&mut t, bs); (b, t) }, { let mut t = d.clone(); let b = low::get_next_value(&mut t, bs); (b, t) });
    let (dg, ch) = (r.below(5), 1 + r.below(9)); let i = r.below(ch + 1);
    cmp!(o, "split_up_b_ary_number_into_n_chunks", (dg, bs, ch, i), e::split_up_b_ary_number_into_n_chunks(dg, bs, ch, i), low::split_up_b_ary_number_into_n_chunks(dg, bs, ch, i));
}

fn main() {
    let secs: f64 = std::env::args().nth(1).map_or(5.0, |s| s.parse().unwrap()); let seed: u64 = std::env::args().nth(2).map_or(1, |s| s.parse().unwrap());
    std::panic::set_hook(Box::new(|_| {}));
    let h = std::thread::Builder::new().stack_size(256 << 20).spawn(move || {
        let t = std::time::Instant::now(); let mut o: O = (0, None, Default::default()); let mut k = 0u64;
        while t.elapsed().as_secs_f64() < secs && o.1.is_none() { k += 1; case(&mut Rng::new(seed.wrapping_mul(0x2545F4914F6CDD1D) ^ k), &mut o); }
        let esc = |s: &str| s.replace('\\', "\\\\").replace('"', "\\\"");
        let d = match &o.1 { None => "null".to_string(), Some(c) => format!("{{\"function\":\"{}\",\"input\":\"{}\",\"real\":\"{}\",\"lowered\":\"{}\"}}", c.name, esc(&c.input), esc(&c.a), esc(&c.b)) };
        println!("{{\"evaluations\":{},\"compared\":{:?},\"disagreement\":{}}}", o.0, o.2.keys().collect::<Vec<_>>(), d);
    }).unwrap();
    h.join().unwrap();
}
