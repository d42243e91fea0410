//# theory greedy pairs
//# include namat
//# ext computation_mode::panic_on_invaid_mode
//# fn nearest_neighbour::single_nearest_neighbour
fn single_nearest_neighbour(graph_matrix: &NAMatrix, index: usize) -> (ret: Solution)
@ requires cinst(na_mat(*graph_matrix)), index < na_mat(*graph_matrix).n,
@ ensures is_nn(na_mat(*graph_matrix), index as int, ret),
{
runtime_check(index < graph_matrix.dim());
@ let ghost m = na_mat(*graph_matrix); let ghost w = wf(m); let ghost n = m.n;
let num_nodes = graph_matrix.ncols();
let mut path = Vec::with_capacity(num_nodes);
let mut visited = vec_from_elem(false, num_nodes);
let mut current_node = index;
let mut distance = f64_zero();
path.push(current_node);
visited[current_node] = true;
@ proof { assert(path_cost(w, path@) == 0real); assert(path@[0] == index); assert forall|i: int| 0 <= i < n implies #[trigger] visited@[i] == has(path@, i) by {} }
while path.len() < num_nodes
@ invariant cinst(m), m == na_mat(*graph_matrix), w == wf(m), n == m.n, num_nodes == n, visited@.len() == n, 1 <= path@.len() <= n, in_range(path@, n), path@.no_duplicates(), path@[0] == index, path@[path@.len() - 1] == current_node, current_node < n,
@   marks(visited@, path@), greedy(w, n, path@), fin(distance), rv(distance) == path_cost(w, path@), index < n,
@ decreases n - path@.len(),
{
let mut nearest_neighbour = None;
let mut min_distance = f64_infinity();
let mut node: usize = 0;
@ let ghost p0 = path@; let ghost v0 = visited@; proof { some_unseen(visited@, p0); }
while node < num_nodes
@ invariant node <= n, cinst(m), m == na_mat(*graph_matrix), n == m.n, num_nodes == n, visited@.len() == n, current_node < n, closest(m, visited@, current_node as int, node as int, nearest_neighbour, min_distance),
@ decreases n - node,
{
if !visited[node] && graph_matrix.at(current_node, node) < min_distance {
min_distance = graph_matrix.at(current_node, node);
nearest_neighbour = Some(node);
}
@ proof { assert(fin(m.w(current_node as int, node as int))); }
node = node + 1;
}
if let Some(neighbour) = nearest_neighbour {
current_node = neighbour;
path.push(current_node);
@ proof {
@   path_cost_push(w, p0, neighbour);
@   assert forall|k: int| 1 <= k < path@.len() implies #[trigger] greedy_at(w, n, path@, k) by {
@     if k < p0.len() { assert(greedy_at(w, n, p0, k)); assert forall|v: int| 0 <= v < n && #[trigger] unseen(path@, k, v) implies w(path@[k - 1] as int, path@[k] as int) <= w(path@[k - 1] as int, v) by { assert forall|i: int| 0 <= i < k implies #[trigger] p0[i] != v by { assert(path@[i] == p0[i]); } assert(unseen(p0, k, v)); } }
@     else { assert forall|v: int| 0 <= v < n && #[trigger] unseen(path@, k, v) implies w(path@[k - 1] as int, path@[k] as int) <= w(path@[k - 1] as int, v) by { if v0[v] { assert(has(p0, v)); let i = choose|i: int| 0 <= i < p0.len() && #[trigger] p0[i] == v; assert(path@[i] == v); } } }
@   }
@   assert forall|i: int| 0 <= i < path@.len() implies #[trigger] path@[i] < n by { if i < p0.len() { assert(p0[i] < n); } }
@ }
distance = distance + min_distance;
visited[current_node] = true;
@ proof {
@   assert forall|v: int| 0 <= v < n implies #[trigger] visited@[v] == has(path@, v) by {
@     if has(path@, v) { let i = choose|i: int| 0 <= i < path@.len() && #[trigger] path@[i] == v; if i < p0.len() { assert(p0[i] == v); assert(has(p0, v)); } }
@     if visited@[v] { if v == current_node { assert(path@[p0.len() as int] == v); } else { assert(has(p0, v)); let i = choose|i: int| 0 <= i < p0.len() && #[trigger] p0[i] == v; assert(path@[i] == v); } }
@   }
@ }
} else {
unreachable_panic()
}
}
distance = distance + graph_matrix.at(current_node, index);
@ proof { assert(fin(m.w(current_node as int, index as int))); assert(rv(m.w(index as int, index as int)) == 0real); if path@.len() == 1 { assert(path_cost(w, path@) == 0real); } }
(distance, path)
}
//# end
/// visited marks exactly the cities on the path
pub open spec fn marks(v: Seq<bool>, p: Seq<usize>) -> bool { forall|i: int| 0 <= i < v.len() ==> #[trigger] v[i] == has(p, i) }
/// o is the closest unmarked city below k
pub open spec fn closest(m: Mat, v: Seq<bool>, c: int, k: int, o: Option<usize>, d: f64) -> bool {
    &&& num(d) && (o is None ==> pinf(d) && forall|i: int| 0 <= i < k ==> #[trigger] v[i])
    &&& o is Some ==> (o->0) < k && !v[(o->0) as int] && d == m.w(c, (o->0) as int) && forall|i: int| 0 <= i < k && !#[trigger] v[i] ==> rv(d) <= wf(m)(c, i)
}
pub proof fn some_unseen(v: Seq<bool>, p: Seq<usize>)
    requires p.len() < v.len(), marks(v, p), in_range(p, v.len()), p.no_duplicates()
    ensures exists|i: int| 0 <= i < v.len() && !#[trigger] v[i]
{ if forall|i: int| 0 <= i < v.len() ==> #[trigger] v[i] { assert forall|x: int| 0 <= x < v.len() implies #[trigger] has(p, x) by { assert(v[x]); } full_len(p, v.len()); } }
//# fn nearest_neighbour::n_random_numbers
fn n_random_numbers(min: usize, max: usize, n: usize) -> (ret: Vec<usize>)
@ ensures min <= max ==> ret@.len() == if n <= max - min { n as int } else { max - min }, ret@.no_duplicates(), forall|i: int| 0 <= i < ret@.len() ==> min <= #[trigger] ret@[i] < max,
{
let mut _c1 = Vec::new();
let mut _k1: usize = min;
while _k1 < max
@ invariant min <= _k1, min <= max ==> _k1 <= max, min > max ==> _k1 == min, counted(_c1@, min, max), _c1@.len() == if min <= max { _k1 - min } else { 0 },
@ decreases max - _k1,
{
_c1.push(_k1);
_k1 = _k1 + 1;
}
let mut xs: Vec<usize> = _c1;
@ let ghost x0 = xs@;
shuffle_any(&mut xs);
@ proof { perm_distinct(x0, xs@); assert forall|i: int| 0 <= i < xs@.len() implies min <= #[trigger] xs@[i] < max by { perm_contains(x0, xs@, i); let k = choose|k: int| 0 <= k < x0.len() && x0[k] == xs@[i]; assert(x0[k] == min + k); } }
xs.truncate(n);
xs
}
//# end
pub open spec fn counted(s: Seq<usize>, min: usize, max: usize) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == min + i && s[i] < max }
//# fn nearest_neighbour::n_nearest_neighbour
fn n_nearest_neighbour<const MODE: usize>(graph_matrix: &NAMatrix, n: usize) -> (ret: Solution)
@ requires MODE <= 1, cinst(na_mat(*graph_matrix)), 1 <= n <= na_mat(*graph_matrix).n,
@ ensures best_of_some(na_mat(*graph_matrix), n as nat, ret),
{
runtime_check(n != 0);
runtime_check(n <= graph_matrix.dim());
@ let ghost m = na_mat(*graph_matrix);
if MODE == 0 {
let mut _s1 = n_random_numbers(0, graph_matrix.dim(), n);
@ let ghost st = _s1@; proof { assert(start_list(m, st, n as nat)); }
let mut _m1 = None;
let mut _k1: usize = 0;
while _k1 < _s1.it_len()
@ invariant best_upto(m, st, _k1 as int, _m1), _k1 <= st.len(), start_list(m, st, n as nat), _s1@ == st, m == na_mat(*graph_matrix), cinst(m),
@ decreases st.len() - _k1,
{
@ let ghost o = _m1;
let k = _s1.it_take(_k1);
let _x1 = single_nearest_neighbour(graph_matrix, k);
let _t1 = if let Some(_b1) = opt_like(&_m1, &_x1) {
let _kb = {
let distance = (*_b1).0;
OrderedFloat(distance)
};
let _kx = {
let distance = _x1.0;
OrderedFloat(distance)
};
key_lt(_kx, _kb)
} else {
true
};
@ proof { best_step(m, st, _k1 as int, o, _x1, _t1); }
if _t1 {
_m1 = Some(_x1);
}
_k1 = _k1 + 1;
}
@ proof { assert(start_list(m, st, n as nat) && best_upto(m, st, n as int, Some(_m1->0))); }
_m1.unwrap()
} else if MODE == 1 {
let mut _s2 = n_random_numbers(0, graph_matrix.dim(), n);
@ let ghost st = _s2@; proof { assert(start_list(m, st, n as nat)); }
let mut _m2 = None;
let mut _k2: usize = 0;
while _k2 < _s2.it_len()
@ invariant best_upto(m, st, _k2 as int, _m2), _k2 <= st.len(), start_list(m, st, n as nat), _s2@ == st, m == na_mat(*graph_matrix), cinst(m),
@ decreases st.len() - _k2,
{
@ let ghost o = _m2;
let k = _s2.it_take(_k2);
let _x2 = single_nearest_neighbour(graph_matrix, k);
let _t2 = if let Some(_b2) = opt_like(&_m2, &_x2) {
let _kb = {
let distance = (*_b2).0;
OrderedFloat(distance)
};
let _kx = {
let distance = _x2.0;
OrderedFloat(distance)
};
key_lt(_kx, _kb)
} else {
true
};
@ proof { best_step(m, st, _k2 as int, o, _x2, _t2); }
if _t2 {
_m2 = Some(_x2);
}
_k2 = _k2 + 1;
}
@ proof { assert(start_list(m, st, n as nat) && best_upto(m, st, n as int, Some(_m2->0))); }
_m2.unwrap()
} else {
panic_on_invaid_mode::<MODE>()
}
}
//# end
//# fn nearest_neighbour::nearest_neighbour
fn nearest_neighbour<const MODE: usize>(graph_matrix: &NAMatrix) -> (ret: Solution)
@ requires MODE <= 1, cinst(na_mat(*graph_matrix)),
@ ensures best_of_all(na_mat(*graph_matrix), ret),
{
@ proof { assert forall|r: Solution| #[trigger] best_of_some(na_mat(*graph_matrix), na_mat(*graph_matrix).n, r) implies best_of_all(na_mat(*graph_matrix), r) by { best_all(na_mat(*graph_matrix), r); } }
n_nearest_neighbour::<MODE>(graph_matrix, graph_matrix.dim())
}
//# end
