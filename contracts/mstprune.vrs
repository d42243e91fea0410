//# theory mst solve
//# include namat
//# include graph
//# include mstfacts
//# ext mst::prim_with_excluded_node_single_threaded
/// what is left of a tour after the prefix is at least as heavy as a minimum spanning tree of the cities left
proof fn mst_bound(m: Mat, q: Seq<usize>, g: Graph, lb: f64) requires inst(m), pfx(m, q), q.len() >= 1, is_mst(m, q, g), fin(lb), 2real * rv(lb) == dir_weight(g) ensures lb_ok(m, q, lb)
{
    let w = wf(m); let h = q.len() as int; let v = rest_of(m.n, q);
    mst_weight(m, q, g);
    assert forall|t: Seq<usize>| #[trigger] extends(m, q, t) implies rv(lb) <= rest_cost(w, t, h) by {
        let n = t.len() as int; let s = tail(t, h);
        assert(q =~= head(t, h));
        assert forall|k: int| 0 <= k < h implies t[k] == #[trigger] q[k] by {}
        assert(in_range(s, m.n)) by { assert forall|k: int| 0 <= k < s.len() implies #[trigger] s[k] < m.n by { assert(t[h + k] < m.n); } }
        tour_contains_all(t, m.n);
        assert forall|a: int| #[trigger] v(a) <==> has(s, a) by {
            if v(a) { assert(t.contains(a as usize)); let k = choose|k: int| 0 <= k < n && t[k] == a as usize; if k >= h { assert(s[k - h] == a); } else { assert(q[k] == a as usize); assert(q.contains(a as usize)); } }
            if has(s, a) { let k = choose|k: int| 0 <= k < s.len() && #[trigger] s[k] == a; assert(t[h + k] < m.n); if q.contains(a as usize) { let b = choose|b: int| 0 <= b < h && q[b] == a as usize; assert(t[b] == t[h + k]); } }
        }
        path_connects(s, v, m.n); path_edges_cost(w, s);
        assert(tw(w, mst_of(m, q, g)) <= path_cost(w, s));
        let z = seq![t[h - 1]];
        let tt = t.subrange(h - 1, n);
        assert(tt =~= z + s);
        path_cost_concat(w, z, s);
        assert(path_cost(w, z) == 0real);
        assert(t[0] < m.n && t[n - 1] < m.n && t[h - 1] < m.n);
        assert(w(t[n - 1] as int, t[0] as int) >= 0real);
        if s.len() > 0 { assert(t[h] < m.n); assert(w(t[h - 1] as int, t[h] as int) >= 0real); }
    }
}
proof fn pfx_excl(m: Mat, q: Seq<usize>) requires pfx(m, q) ensures excl_ok(m.n, q) {}
//# fn exact::fifth_improved_solver
fn fifth_improved_solver(graph_matrix: &NAMatrix) -> (ret: Solution)
@ requires inst(graph_matrix.mv()),
@ ensures /*C01*/ real_tour(graph_matrix.mv(), ret),
@     /*C04*/ optimal(graph_matrix.mv(), ret.0),
{
let mut current_prefix = Vec::new();
current_prefix.reserve(graph_matrix.dim());
let mut result = (f64_infinity(), Vec::new());
@ proof { assert(path_cost(wf(graph_matrix.mv()), Seq::<usize>::empty()) == 0real); assert(current_prefix@ =~= Seq::<usize>::empty()); assert(pfx(graph_matrix.mv(), current_prefix@)); }
_fifth_improved_solver_rec(graph_matrix, &mut current_prefix, f64_zero(), &mut result);
@ proof { /*C04*/ covered_root(graph_matrix.mv(), result.0); }
result
}
//# end
//# fn exact::_fifth_improved_solver_rec
fn _fifth_improved_solver_rec(graph_matrix: &NAMatrix, current_prefix: &mut Path, current_cost: f64, result: &mut Solution)
@ requires inst(graph_matrix.mv()), pfx(graph_matrix.mv(), old(current_prefix)@), fin(current_cost), rv(current_cost) == path_cost(wf(graph_matrix.mv()), old(current_prefix)@), num(old(result).0),
@     /*C01*/ sol_ok(graph_matrix.mv(), *old(result)),
@ ensures final(current_prefix)@ == old(current_prefix)@, num(final(result).0), xle(final(result).0, old(result).0),
@     /*C01*/ sol_ok(graph_matrix.mv(), *final(result)) && fin(final(result).0),
@     /*C04*/ covered(graph_matrix.mv(), old(current_prefix)@, final(result).0),
@ decreases graph_matrix.mv().n - old(current_prefix)@.len(),
{
@ let ghost m = graph_matrix.mv(); let ghost q = current_prefix@; let ghost w = wf(m); proof { distinct_len_le(q, m.n); }
let n = graph_matrix.dim();
let mut current_cost = current_cost;
if current_prefix.len() == n {
@ proof { close_cost(m, q); assert(q[0] < m.n && q[q.len() - 1] < m.n); assert(fin(m.w(q[q.len() - 1] as int, q[0] as int))); }
current_cost = current_cost + graph_matrix.get(*current_prefix.last().unwrap(), *current_prefix.first().unwrap());
let best_cost = result.0;
if current_cost < best_cost {
result.0 = current_cost;
result.1 = current_prefix.clone();
}
@ proof { /*C04*/ covered_leaf(m, q, result.0); }
return;
}
@ let ghost c0 = result.0;
let mut i: usize = 0;
while i < n
@ invariant inst(m), m == graph_matrix.mv(), w == wf(m), n == m.n, i <= n, q == old(current_prefix)@, current_prefix@ == q, pfx(m, q), q.len() < n, fin(current_cost), rv(current_cost) == path_cost(w, q), num(result.0), xle(result.0, c0),
@     /*C01*/ sol_ok(m, *result) && found_if_free(q, i as int, result.0),
@     /*C04*/ covered_upto(m, q, i as int, result.0),
@ decreases n - i,
{
if current_prefix.contains(&i) {
@ proof { /*C04*/ covered_skip(m, q, i, result.0); }
i = i + 1;
continue;
}
@ let ghost r0 = result.0; proof { pfx_push(m, q, i); path_cost_push(w, q, i); }
current_prefix.push(i);
@ let ghost qi = q.push(i); proof { assert(qi.drop_last() =~= q); }
if current_prefix.len() == 1 {
@ proof { assert(path_cost(w, qi) == 0real && path_cost(w, q) == 0real); }
_fifth_improved_solver_rec(graph_matrix, current_prefix, current_cost, result);
current_prefix.pop();
@ proof { assert(current_prefix@ =~= q); }
@ proof { /*C04*/ covered_mono(m, q, i as int, r0, result.0); covered_step(m, q, i, result.0); }
i = i + 1;
continue;
}
let from = current_prefix.len() - 2;
let to = from + 1;
@ proof { assert(qi[q.len() - 1] == q[q.len() - 1] && q[q.len() - 1] < m.n); assert(fin(m.w(q[q.len() - 1] as int, i as int))); }
let cost_last_edge = graph_matrix.get(current_prefix[from], current_prefix[to]);
current_cost = current_cost + cost_last_edge;
@ let ghost ci = rv(current_cost); proof { assert(ci == path_cost(w, qi)); }
@ proof { pfx_excl(m, qi); }
let lower_bound_graph = prim_with_excluded_node_single_threaded(graph_matrix, current_prefix);
@ proof { mst_weight(m, qi, lower_bound_graph); }
@ let ghost lg = lower_bound_graph;
let lower_bound = lower_bound_graph.undirected_edge_weight();
@ let ghost lb = lower_bound;
if current_cost + lower_bound <= result.0 {
_fifth_improved_solver_rec(graph_matrix, current_prefix, current_cost, result);
}
@ proof { /*C04*/ if ci + rv(lb) > rv(r0) && fin(r0) { mst_bound(m, qi, lg, lb); pruned(m, qi, ci, lb, r0); covered_upto_eq(m, qi, r0, result.0); } }
current_cost = current_cost - cost_last_edge;
current_prefix.pop();
@ proof { assert(current_prefix@ =~= q); }
@ proof { /*C04*/ covered_mono(m, q, i as int, r0, result.0); covered_step(m, q, i, result.0); }
i = i + 1;
}
@ proof { /*C01*/ pfx_free(m, q); }
@ proof { /*C04*/ covered_done(m, q, result.0); }
}
//# end

/// every cached value is a lower bound for its prefix
pub open spec fn cache_ok(m: Mat, c: Map<u64, f64>) -> bool { forall|a: Seq<usize>| #[trigger] pfx(m, a) && c.dom().contains(hp(a)) ==> fin(c[hp(a)]) && (a.len() >= 1 ==> lb_ok(m, a, c[hp(a)])) }
proof fn cache_put(m: Mat, c: Map<u64, f64>, q: Seq<usize>, x: f64) requires cache_ok(m, c), no_collision(m), pfx(m, q), lb_ok(m, q, x) ensures cache_ok(m, c.insert(hp(q), x))
{ let d = c.insert(hp(q), x); assert forall|a: Seq<usize>| #[trigger] pfx(m, a) && d.dom().contains(hp(a)) implies fin(d[hp(a)]) && (a.len() >= 1 ==> lb_ok(m, a, d[hp(a)])) by { if hp(a) == hp(q) { assert(a == q); } else { assert(c.dom().contains(hp(a))); } } }
//# fn exact::sixth_improved_solver
fn sixth_improved_solver(graph_matrix: &NAMatrix) -> (ret: Solution)
@ requires inst(graph_matrix.mv()), no_collision(graph_matrix.mv()),
@ ensures /*C01*/ real_tour(graph_matrix.mv(), ret),
@     /*C04*/ optimal(graph_matrix.mv(), ret.0),
{
let mut current_prefix = Vec::new();
current_prefix.reserve(graph_matrix.dim());
let mut result = (f64_infinity(), Vec::new());
let mut mst_cache: HMap<u64, f64> = HMap::new();
@ proof { assert(path_cost(wf(graph_matrix.mv()), Seq::<usize>::empty()) == 0real); assert(current_prefix@ =~= Seq::<usize>::empty()); assert(pfx(graph_matrix.mv(), current_prefix@)); }
_sixth_improved_solver_rec(graph_matrix, &mut current_prefix, f64_zero(), &mut result, &mut mst_cache);
@ proof { /*C04*/ covered_root(graph_matrix.mv(), result.0); }
result
}
//# end
//# fn exact::_sixth_improved_solver_rec
fn _sixth_improved_solver_rec(graph_matrix: &NAMatrix, current_prefix: &mut Path, current_cost: f64, result: &mut Solution, mst_cache: &mut HMap<u64, f64>)
@ requires inst(graph_matrix.mv()), pfx(graph_matrix.mv(), old(current_prefix)@), fin(current_cost), rv(current_cost) == path_cost(wf(graph_matrix.mv()), old(current_prefix)@), num(old(result).0),
@     /*C01*/ sol_ok(graph_matrix.mv(), *old(result)),
@     cache_ok(graph_matrix.mv(), old(mst_cache)@), no_collision(graph_matrix.mv()),
@ ensures final(current_prefix)@ == old(current_prefix)@, num(final(result).0), xle(final(result).0, old(result).0),
@     /*C01*/ sol_ok(graph_matrix.mv(), *final(result)) && fin(final(result).0),
@     /*C04*/ covered(graph_matrix.mv(), old(current_prefix)@, final(result).0),
@     cache_ok(graph_matrix.mv(), final(mst_cache)@),
@ decreases graph_matrix.mv().n - old(current_prefix)@.len(),
{
@ let ghost m = graph_matrix.mv(); let ghost q = current_prefix@; let ghost w = wf(m); proof { distinct_len_le(q, m.n); }
let n = graph_matrix.dim();
let mut current_cost = current_cost;
if current_prefix.len() == n {
@ proof { close_cost(m, q); assert(q[0] < m.n && q[q.len() - 1] < m.n); assert(fin(m.w(q[q.len() - 1] as int, q[0] as int))); }
current_cost = current_cost + graph_matrix.get(*current_prefix.last().unwrap(), *current_prefix.first().unwrap());
let best_cost = result.0;
if current_cost < best_cost {
result.0 = current_cost;
result.1 = current_prefix.clone();
}
@ proof { /*C04*/ covered_leaf(m, q, result.0); }
return;
}
@ let ghost c0 = result.0;
let mut i: usize = 0;
while i < n
@ invariant inst(m), m == graph_matrix.mv(), w == wf(m), n == m.n, i <= n, q == old(current_prefix)@, current_prefix@ == q, pfx(m, q), q.len() < n, fin(current_cost), rv(current_cost) == path_cost(w, q), num(result.0), xle(result.0, c0),
@     cache_ok(m, mst_cache@), no_collision(m),
@     /*C01*/ sol_ok(m, *result) && found_if_free(q, i as int, result.0),
@     /*C04*/ covered_upto(m, q, i as int, result.0),
@ decreases n - i,
{
if current_prefix.contains(&i) {
@ proof { /*C04*/ covered_skip(m, q, i, result.0); }
i = i + 1;
continue;
}
@ let ghost r0 = result.0; proof { pfx_push(m, q, i); path_cost_push(w, q, i); }
current_prefix.push(i);
@ let ghost qi = q.push(i); proof { assert(qi.drop_last() =~= q); }
if current_prefix.len() == 1 {
@ proof { assert(path_cost(w, qi) == 0real && path_cost(w, q) == 0real); }
_sixth_improved_solver_rec(graph_matrix, current_prefix, current_cost, result, mst_cache);
current_prefix.pop();
@ proof { assert(current_prefix@ =~= q); }
@ proof { /*C04*/ covered_mono(m, q, i as int, r0, result.0); covered_step(m, q, i, result.0); }
i = i + 1;
continue;
}
let from = current_prefix.len() - 2;
let to = from + 1;
@ proof { assert(qi[q.len() - 1] == q[q.len() - 1] && q[q.len() - 1] < m.n); assert(fin(m.w(q[q.len() - 1] as int, i as int))); }
let cost_last_edge = graph_matrix.get(current_prefix[from], current_prefix[to]);
current_cost = current_cost + cost_last_edge;
@ let ghost ci = rv(current_cost); proof { assert(ci == path_cost(w, qi)); }
let hash = {
let mut hasher = FxHasher::default();
current_prefix.hash(&mut hasher);
hasher.finish()
};
@ proof { assert(hash == hp(qi)); pfx_excl(m, qi); assert forall|g: Graph| #[trigger] is_mst(m, qi, g) implies costs_fin(g) by { mst_weight(m, qi, g); } }
@ proof { assert forall|g: Graph, x: f64| #[trigger] is_mst(m, qi, g) && fin(x) && 2real * rv(x) == dir_weight(g) implies #[trigger] lb_ok(m, qi, x) by { mst_bound(m, qi, g, x); } assert forall|x: f64| #[trigger] lb_ok(m, qi, x) implies cache_ok(m, mst_cache@.insert(hash, x)) by { cache_put(m, mst_cache@, qi, x); } }
@ let ghost mc = mst_cache@;
let lower_bound = mst_cache.entry_or_insert(hash, prim_with_excluded_node_single_threaded(graph_matrix, current_prefix).undirected_edge_weight());
@ let ghost lb = lower_bound.fv();
@ proof { assert(lb_ok(m, qi, lb)); }
if current_cost + *lower_bound <= result.0 {
_sixth_improved_solver_rec(graph_matrix, current_prefix, current_cost, result, mst_cache);
}
@ proof { /*C04*/ if ci + rv(lb) > rv(r0) && fin(r0) { pruned(m, qi, ci, lb, r0); covered_upto_eq(m, qi, r0, result.0); } }
current_cost = current_cost - cost_last_edge;
current_prefix.pop();
@ proof { assert(current_prefix@ =~= q); }
@ proof { /*C04*/ covered_mono(m, q, i as int, r0, result.0); covered_step(m, q, i, result.0); }
i = i + 1;
}
@ proof { /*C01*/ pfx_free(m, q); }
@ proof { /*C04*/ covered_done(m, q, result.0); }
}
//# end
