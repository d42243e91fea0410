//# theory nnb
//# include adj
//# fn exact::third_improved_solver
fn third_improved_solver<T: AdjacencyMatrix>(graph_matrix: &T) -> (ret: Solution)
@ requires inst(graph_matrix.mv()),
@ ensures /*C01*/ real_tour(graph_matrix.mv(), ret),
@     /*C03*/ optimal(graph_matrix.mv(), ret.0),
{
let mut current_prefix = Vec::new();
current_prefix.reserve(graph_matrix.dim());
let mut result = (f64_infinity(), Vec::new());
@ proof { assert(path_cost(wf(graph_matrix.mv()), Seq::<usize>::empty()) == 0real); assert(current_prefix@ =~= Seq::<usize>::empty()); assert(pfx(graph_matrix.mv(), current_prefix@)); }
_third_improved_solver_rec(graph_matrix, &mut current_prefix, f64_zero(), &mut result);
@ proof { /*C03*/ covered_root(graph_matrix.mv(), result.0); }
result
}
//# end
//# fn exact::_third_improved_solver_rec
fn _third_improved_solver_rec<T: AdjacencyMatrix>(graph_matrix: &T, current_prefix: &mut Path, current_cost: f64, result: &mut Solution)
@ requires inst(graph_matrix.mv()), pfx(graph_matrix.mv(), old(current_prefix)@), fin(current_cost), rv(current_cost) == path_cost(wf(graph_matrix.mv()), old(current_prefix)@), num(old(result).0),
@     /*C01*/ sol_ok(graph_matrix.mv(), *old(result)),
@ ensures final(current_prefix)@ == old(current_prefix)@, num(final(result).0), xle(final(result).0, old(result).0),
@     /*C01*/ sol_ok(graph_matrix.mv(), *final(result)) && fin(final(result).0),
@     /*C03*/ covered(graph_matrix.mv(), old(current_prefix)@, final(result).0),
@ decreases graph_matrix.mv().n - old(current_prefix)@.len(),
{
@ let ghost m = graph_matrix.mv(); let ghost q = current_prefix@; let ghost w = wf(m); proof { distinct_len_le(q, m.n); }
let n = graph_matrix.dim();
let mut current_cost = current_cost;
if current_prefix.len() == n {
@ proof { close_cost(m, q); assert(q[0] < m.n && q[q.len() - 1] < m.n); assert(fin(m.w(q[q.len() - 1] as int, q[0] as int))); }
current_cost = current_cost + graph_matrix.get(*current_prefix.last().unwrap(), *current_prefix.first().unwrap());
let best_cost = result.0;
if current_cost < best_cost {
result.0 = current_cost;
result.1 = current_prefix.clone();
}
@ proof { /*C03*/ covered_leaf(m, q, result.0); }
return;
}
@ let ghost c0 = result.0;
let mut i: usize = 0;
while i < n
@ invariant inst(m), m == graph_matrix.mv(), w == wf(m), n == m.n, i <= n, q == old(current_prefix)@, current_prefix@ == q, pfx(m, q), q.len() < n, fin(current_cost), rv(current_cost) == path_cost(w, q), num(result.0), xle(result.0, c0),
@     /*C01*/ sol_ok(m, *result) && found_if_free(q, i as int, result.0),
@     /*C03*/ covered_upto(m, q, i as int, result.0),
@ decreases n - i,
{
if current_prefix.contains(&i) {
@ proof { /*C03*/ covered_skip(m, q, i, result.0); }
i = i + 1;
continue;
}
@ let ghost r0 = result.0; proof { pfx_push(m, q, i); path_cost_push(w, q, i); }
current_prefix.push(i);
@ let ghost qi = q.push(i); proof { assert(qi.drop_last() =~= q); }
if current_prefix.len() == 1 {
@ proof { assert(path_cost(w, qi) == 0real && path_cost(w, q) == 0real); }
_third_improved_solver_rec(graph_matrix, current_prefix, current_cost, result);
current_prefix.pop();
@ proof { assert(current_prefix@ =~= q); }
@ proof { /*C03*/ covered_mono(m, q, i as int, r0, result.0); covered_step(m, q, i, result.0); }
i = i + 1;
continue;
}
let from = current_prefix.len() - 2;
let to = from + 1;
@ proof { assert(qi[q.len() - 1] == q[q.len() - 1] && q[q.len() - 1] < m.n); assert(fin(m.w(q[q.len() - 1] as int, i as int))); }
let cost_last_edge = graph_matrix.get(current_prefix[from], current_prefix[to]);
current_cost = current_cost + cost_last_edge;
@ let ghost ci = rv(current_cost); proof { assert(ci == path_cost(w, qi)); }
if current_cost <= result.0 {
_third_improved_solver_rec(graph_matrix, current_prefix, current_cost, result);
}
@ proof { /*C03*/ if rv(current_cost) > rv(r0) && fin(r0) { pruned0(m, qi, ci, r0); covered_upto_eq(m, qi, r0, result.0); } }
current_cost = current_cost - cost_last_edge;
current_prefix.pop();
@ proof { assert(current_prefix@ =~= q); }
@ proof { /*C03*/ covered_mono(m, q, i as int, r0, result.0); covered_step(m, q, i, result.0); }
i = i + 1;
}
@ proof { /*C01*/ pfx_free(m, q); }
@ proof { /*C03*/ covered_done(m, q, result.0); }
}
//# end
//# fn exact::fourth_improved_solver
fn fourth_improved_solver<T: AdjacencyMatrix>(graph_matrix: &T) -> (ret: Solution)
@ requires inst(graph_matrix.mv()),
@ ensures /*C01*/ real_tour(graph_matrix.mv(), ret),
@     /*C03*/ optimal(graph_matrix.mv(), ret.0),
{
let mut current_prefix = Vec::new();
current_prefix.reserve(graph_matrix.dim());
let mut result = (f64_infinity(), Vec::new());
@ proof { assert(path_cost(wf(graph_matrix.mv()), Seq::<usize>::empty()) == 0real); assert(current_prefix@ =~= Seq::<usize>::empty()); assert(pfx(graph_matrix.mv(), current_prefix@)); }
_fourth_improved_solver_rec(graph_matrix, &mut current_prefix, f64_zero(), &mut result);
@ proof { /*C03*/ covered_root(graph_matrix.mv(), result.0); }
result
}
//# end
//# fn exact::_fourth_improved_solver_rec
fn _fourth_improved_solver_rec<T: AdjacencyMatrix>(graph_matrix: &T, current_prefix: &mut Path, current_cost: f64, result: &mut Solution)
@ requires inst(graph_matrix.mv()), pfx(graph_matrix.mv(), old(current_prefix)@), fin(current_cost), rv(current_cost) == path_cost(wf(graph_matrix.mv()), old(current_prefix)@), num(old(result).0),
@     /*C01*/ sol_ok(graph_matrix.mv(), *old(result)),
@ ensures final(current_prefix)@ == old(current_prefix)@, num(final(result).0), xle(final(result).0, old(result).0),
@     /*C01*/ sol_ok(graph_matrix.mv(), *final(result)) && fin(final(result).0),
@     /*C03*/ covered(graph_matrix.mv(), old(current_prefix)@, final(result).0),
@ decreases graph_matrix.mv().n - old(current_prefix)@.len(),
{
@ let ghost m = graph_matrix.mv(); let ghost q = current_prefix@; let ghost w = wf(m); proof { distinct_len_le(q, m.n); }
let n = graph_matrix.dim();
let mut current_cost = current_cost;
if current_prefix.len() == n {
@ proof { close_cost(m, q); assert(q[0] < m.n && q[q.len() - 1] < m.n); assert(fin(m.w(q[q.len() - 1] as int, q[0] as int))); }
current_cost = current_cost + graph_matrix.get(*current_prefix.last().unwrap(), *current_prefix.first().unwrap());
let best_cost = result.0;
if current_cost < best_cost {
result.0 = current_cost;
result.1 = current_prefix.clone();
}
@ proof { /*C03*/ covered_leaf(m, q, result.0); }
return;
}
@ let ghost c0 = result.0;
let mut i: usize = 0;
while i < n
@ invariant inst(m), m == graph_matrix.mv(), w == wf(m), n == m.n, i <= n, q == old(current_prefix)@, current_prefix@ == q, pfx(m, q), q.len() < n, fin(current_cost), rv(current_cost) == path_cost(w, q), num(result.0), xle(result.0, c0),
@     /*C01*/ sol_ok(m, *result) && found_if_free(q, i as int, result.0),
@     /*C03*/ covered_upto(m, q, i as int, result.0),
@ decreases n - i,
{
if current_prefix.contains(&i) {
@ proof { /*C03*/ covered_skip(m, q, i, result.0); }
i = i + 1;
continue;
}
@ let ghost r0 = result.0; proof { pfx_push(m, q, i); path_cost_push(w, q, i); }
current_prefix.push(i);
@ let ghost qi = q.push(i); proof { assert(qi.drop_last() =~= q); }
if current_prefix.len() == 1 {
@ proof { assert(path_cost(w, qi) == 0real && path_cost(w, q) == 0real); }
_fourth_improved_solver_rec(graph_matrix, current_prefix, current_cost, result);
current_prefix.pop();
@ proof { assert(current_prefix@ =~= q); }
@ proof { /*C03*/ covered_mono(m, q, i as int, r0, result.0); covered_step(m, q, i, result.0); }
i = i + 1;
continue;
}
let from = current_prefix.len() - 2;
let to = from + 1;
@ proof { assert(qi[q.len() - 1] == q[q.len() - 1] && q[q.len() - 1] < m.n); assert(fin(m.w(q[q.len() - 1] as int, i as int))); }
let cost_last_edge = graph_matrix.get(current_prefix[from], current_prefix[to]);
current_cost = current_cost + cost_last_edge;
@ let ghost ci = rv(current_cost); proof { assert(ci == path_cost(w, qi)); }
let lower_bound = compute_nn_of_remaining_vertices(graph_matrix, current_prefix, n);
@ let ghost lb = lower_bound;
if current_cost + lower_bound <= result.0 {
_fourth_improved_solver_rec(graph_matrix, current_prefix, current_cost, result);
}
@ proof { /*C03*/ if ci + rv(lb) > rv(r0) && fin(r0) { pruned(m, qi, ci, lb, r0); covered_upto_eq(m, qi, r0, result.0); } }
current_cost = current_cost - cost_last_edge;
current_prefix.pop();
@ proof { assert(current_prefix@ =~= q); }
@ proof { /*C03*/ covered_mono(m, q, i as int, r0, result.0); covered_step(m, q, i, result.0); }
i = i + 1;
}
@ proof { /*C01*/ pfx_free(m, q); }
@ proof { /*C03*/ covered_done(m, q, result.0); }
}
//# end
//# fn exact::compute_nn_of_remaining_vertices
fn compute_nn_of_remaining_vertices<T: AdjacencyMatrix>(graph_matrix: &T, subtour: &Path, n: usize) -> (ret: f64)
@ requires inst(graph_matrix.mv()), n == graph_matrix.mv().n, pfx(graph_matrix.mv(), subtour@), subtour@.len() >= 1,
@ ensures fin(ret),
@     /*C03*/ lb_ok(graph_matrix.mv(), subtour@, ret),
{
@ let ghost m = graph_matrix.mv(); let ghost q = subtour@; let ghost mut bs = Seq::<real>::empty();
let mut res = f64_zero();
let mut i: usize = 0;
while i < n
@ invariant inst(m), m == graph_matrix.mv(), n == m.n, i <= n, q == subtour@, q.len() >= 1, pfx(m, q), fin(res), bs.len() == i,
@     /*C03*/ shares(m, q, bs) && rv(res) == rsum(bs),
@ decreases n - i,
{
if subtour.contains(&i) {
@ proof { /*C03*/ shares_push(m, q, bs, 0real); }
@ proof { bs = bs.push(0real); }
i = i + 1;
continue;
}
let mut shortest_edge_cost = f64_infinity();
let mut j: usize = 0;
while j < n
@ invariant inst(m), m == graph_matrix.mv(), n == m.n, i < n, j <= n, q == subtour@, q.len() >= 1, !q.contains(i), num(shortest_edge_cost),
@     /*C03*/ (fin(shortest_edge_cost) && cheap_upto(m, q, i as int, j as int, rv(shortest_edge_cost))) || (pinf(shortest_edge_cost) && none_upto(q, i as int, j as int)),
@     /*C03*/ rv(shortest_edge_cost) >= 0real || pinf(shortest_edge_cost),
@ decreases n - j,
{
if j == i || (subtour.contains(&j) && j != subtour[0]) {
@ proof { /*C03*/ assert(!(may_follow(q, i as int, j as int))); assert(forall|y: real| cheap_upto(m, q, i as int, j as int, y) ==> cheap_upto(m, q, i as int, j + 1, y)); }
j = j + 1;
continue;
}
@ let ghost se = shortest_edge_cost;
let cost = graph_matrix.get(i, j);
@ proof { assert(fin(m.w(i as int, j as int)) && rv(m.w(i as int, j as int)) >= 0real); }
if cost < shortest_edge_cost {
shortest_edge_cost = cost;
}
@ proof { /*C03*/ assert(xle(shortest_edge_cost, cost)); assert(rv(cost) == wf(m)(i as int, j as int)); if fin(se) || fin(shortest_edge_cost) { assert(cheap_upto(m, q, i as int, j as int, rv(shortest_edge_cost))); } assert(forall|y: real| cheap_upto(m, q, i as int, j as int, y) && y <= rv(cost) ==> cheap_upto(m, q, i as int, j + 1, y)); }
j = j + 1;
}
if shortest_edge_cost != f64_infinity() {
res = res + shortest_edge_cost;
}
@ let ghost x = if pinf(shortest_edge_cost) { 0real } else { rv(shortest_edge_cost) };
@ proof { /*C03*/ shares_push(m, q, bs, x); }
@ proof { bs = bs.push(x); }
i = i + 1;
}
@ proof { /*C03*/ nn_bound(m, q, bs, res); }
res
}
//# end
