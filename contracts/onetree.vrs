//# theory mst solve
//# include namat
//# include graph
//# include mstbelow
//# ext mst::prim_with_excluded_node_single_threaded
//# ext computation_mode::panic_on_invaid_mode
// ---- what the two edges of the special vertex cost ----
/// a and b can be the two neighbours of s in a tour: different, unless there is only one other vertex
pub open spec fn two_nbrs(n: nat, s: int, a: int, b: int) -> bool { 0 <= a < n && 0 <= b < n && a != s && b != s && (n > 2 ==> a != b) }
/// c is the least cost of two edges at s
pub open spec fn two_edges(m: Mat, s: int, c: real) -> bool {
    if m.n <= 1 { c == 0real } else { (exists|a: int, b: int| #[trigger] two_nbrs(m.n, s, a, b) && c == rv(m.w(s, a)) + rv(m.w(s, b))) && forall|a: int, b: int| #[trigger] two_nbrs(m.n, s, a, b) ==> c <= rv(m.w(s, a)) + rv(m.w(s, b)) }
}
/// x is the weight of a minimum spanning tree without s and the two cheapest edges of s
pub open spec fn ot_by(m: Mat, s: int, x: real, g: Graph, c: real) -> bool { is_mst(m, seq![s as usize], g) && two_edges(m, s, c) && 2real * x == dir_weight(g) + 2real * c }
pub open spec fn is_ot(m: Mat, s: int, x: real) -> bool { exists|g: Graph, c: real| #[trigger] ot_by(m, s, x, g, c) }
/// what the 1-tree with special vertex s weighs is determined
proof fn ot_unique(m: Mat, s: int, x: real, y: real) requires inst(m), 0 <= s < m.n, m.n <= usize::MAX, is_ot(m, s, x), is_ot(m, s, y) ensures x == y
{
    let (g, c) = choose|g: Graph, c: real| #[trigger] ot_by(m, s, x, g, c); let (h, d) = choose|g: Graph, c: real| #[trigger] ot_by(m, s, y, g, c);
    let ex = seq![s as usize];
    mst_weight(m, ex, g); mst_weight(m, ex, h);
    mst_connects(m, ex, mst_of(m, ex, g), g); mst_connects(m, ex, mst_of(m, ex, h), h);
    if m.n > 1 {
        let (a, b) = choose|a: int, b: int| #[trigger] two_nbrs(m.n, s, a, b) && c == rv(m.w(s, a)) + rv(m.w(s, b));
        let (a2, b2) = choose|a: int, b: int| #[trigger] two_nbrs(m.n, s, a, b) && d == rv(m.w(s, a)) + rv(m.w(s, b));
        assert(c <= d && d <= c);
    }
}
proof fn mst_connects(m: Mat, ex: Seq<usize>, t: Seq<E2>, g: Graph) requires mst_by(m, rest_of(m.n, ex), t, g) ensures connects(t, rest_of(m.n, ex), m.n)
{ let v = rest_of(m.n, ex); let vs = choose|vs: Seq<int>| #[trigger] tree_by(v, vs, t); tree_connects(v, vs, t, m.n); }
/// a tour through s is a path through the other cities and two edges at s
proof fn ot_below(m: Mat, s: int, x: real) requires inst(m), 0 <= s < m.n, m.n <= usize::MAX, is_ot(m, s, x) ensures below_tours(m, x)
{
    let w = wf(m); let n = m.n; let ex = seq![s as usize]; let v = rest_of(n, ex);
    let (g, c) = choose|g: Graph, c: real| #[trigger] ot_by(m, s, x, g, c);
    mst_weight(m, ex, g);
    assert(ex.contains(s as usize)) by { assert(ex[0] == s as usize); }
    assert forall|t: Seq<usize>| #[trigger] is_tour(t, n) implies x <= cyc_cost(w, t) by {
        tour_contains_all(t, n); assert(t.contains(s as usize)); let k = choose|k: int| 0 <= k < t.len() && t[k] == s as usize;
        rotate(m, t, k); let r = tail(t, k) + head(t, k); let p = tail(r, 1);
        assert(r[0] == s);
        assert(in_range(p, n)) by { assert forall|i: int| 0 <= i < p.len() implies #[trigger] p[i] < n by { assert(r[i + 1] < n); } }
        tour_contains_all(r, n);
        assert forall|a: int| #[trigger] v(a) <==> has(p, a) by {
            if v(a) { assert(r.contains(a as usize)); let i = choose|i: int| 0 <= i < r.len() && r[i] == a as usize; assert(i != 0); assert(p[i - 1] == a); }
            if has(p, a) { let i = choose|i: int| 0 <= i < p.len() && #[trigger] p[i] == a; assert(r[i + 1] == a); assert(r[i + 1] != r[0]); if ex.contains(a as usize) { let j = choose|j: int| 0 <= j < ex.len() && ex[j] == a as usize; assert(j == 0); } }
        }
        path_connects(p, v, n); path_edges_cost(w, p);
        if n == 1 { assert(p =~= Seq::<usize>::empty()); assert(path_cost(w, p) == 0real); assert(cyc_cost(w, r) == 0real); }
        else {
            let z = seq![s as usize]; assert(r =~= z + p); path_cost_concat(w, z, p); assert(path_cost(w, z) == 0real);
            let a = p[0] as int; let b = p[p.len() - 1] as int;
            assert(p[0] == r[1] && p[p.len() - 1] == r[r.len() - 1]);
            assert(r[1] != r[0] && r[r.len() - 1] != r[0]);
            assert(two_nbrs(n, s, a, b)) by { assert(r[1] < n && r[r.len() - 1] < n); if n > 2 { assert(r[1] != r[r.len() - 1]); } }
            assert(w(b, s) == w(s, b));
        }
    }
}
// ---- the weight of a graph with one more edge ----
pub open spec fn one_more(g: Graph, h: Graph, from: int, to: int, cost: f64) -> bool { gn(g) == gn(h) && forall|v: int| 0 <= v < gn(g) ==> #[trigger] adj(h, v) =~= added(adj(g, v), v, from, to, cost) }
proof fn more_upto(g: Graph, h: Graph, from: int, to: int, cost: f64, k: int) requires one_more(g, h, from, to, cost), 0 <= k <= gn(g)
    ensures edge_sum_upto(h, k) == edge_sum_upto(g, k) + (if 0 <= from < k { rv(cost) } else { 0real }) + (if 0 <= to < k { rv(cost) } else { 0real }) decreases k
{ if k > 0 { more_upto(g, h, from, to, cost, k - 1); sum_added(adj(g, k - 1), k - 1, from, to, cost); assert(adj(h, k - 1) == added(adj(g, k - 1), k - 1, from, to, cost)); } }
proof fn more_weight(g: Graph, h: Graph, from: int, to: int, cost: f64) requires one_more(g, h, from, to, cost), 0 <= from < gn(g), 0 <= to < gn(g), costs_fin(g), fin(cost) ensures costs_fin(h), dir_weight(h) == dir_weight(g) + 2real * rv(cost)
{
    more_upto(g, h, from, to, cost, gn(g) as int);
    assert forall|i: int| 0 <= i < gn(h) implies edges_fin(#[trigger] adj(h, i)) by { assert(edges_fin(adj(g, i))); assert(adj(h, i) == added(adj(g, i), i, from, to, cost)); }
}
// ---- the two cheapest edges among the first k entries of a row ----
pub open spec fn nb(s: int, k: int, i: int) -> bool { 0 <= i < k && i != s }
proof fn nb_step(s: int, k: int) requires k >= 0 ensures forall|i: int| #[trigger] nb(s, k + 1, i) ==> nb(s, k, i) || i == k && k != s, forall|i: int| #[trigger] nb(s, k, i) ==> nb(s, k + 1, i) {}
pub open spec fn first_ok(m: Mat, s: int, k: int, a: Edge) -> bool {
    if a.to == s { pinf(a.cost) && forall|i: int| !#[trigger] nb(s, k, i) } else { nb(s, k, a.to as int) && a.cost == m.w(s, a.to as int) && forall|i: int| #[trigger] nb(s, k, i) ==> rv(a.cost) <= rv(m.w(s, i)) } }
pub open spec fn second_ok(m: Mat, s: int, k: int, a: Edge, b: Edge) -> bool {
    if b.to == s { pinf(b.cost) && forall|i: int| #[trigger] nb(s, k, i) ==> i == a.to } else { a.to != s && b.to != a.to && nb(s, k, b.to as int) && b.cost == m.w(s, b.to as int) && forall|i: int| #[trigger] nb(s, k, i) && i != a.to ==> rv(b.cost) <= rv(m.w(s, i)) } }
proof fn two_found(m: Mat, s: int, a: Edge, b: Edge) requires inst(m), 0 <= s < m.n, first_ok(m, s, m.n as int, a), second_ok(m, s, m.n as int, a, b)
    ensures a.to == s <==> m.n == 1, b.to == s <==> m.n <= 2, a.to == s ==> two_edges(m, s, 0real), a.to != s && b.to == s ==> two_edges(m, s, 2real * rv(a.cost)), b.to != s ==> two_edges(m, s, rv(a.cost) + rv(b.cost))
{
    let n = m.n as int;
    if n > 1 { assert(nb(s, n, if s == 0 { 1 } else { 0int })); }
    if n > 2 { let i = if s == 0 { 1 } else { 0int }; let j = if s == 2 { 1 } else { 2int }; assert(nb(s, n, i) && nb(s, n, j)); }
    if a.to != s {
        let x = a.to as int; let y = if b.to == s { x } else { b.to as int }; let c = rv(m.w(s, x)) + rv(m.w(s, y));
        assert(two_nbrs(m.n, s, x, y));
        assert forall|p: int, q: int| #[trigger] two_nbrs(m.n, s, p, q) implies c <= rv(m.w(s, p)) + rv(m.w(s, q)) by { assert(nb(s, n, p) && nb(s, n, q)); if p == x && q == x { } else if p == x { } else { } }
    }
}
//# fn one_tree::one_tree
fn one_tree(graph: &NAMatrix, special_vertex: usize) -> (ret: Graph)
@ requires inst(na_mat(*graph)), special_vertex < na_mat(*graph).n,
@ ensures costs_fin(ret), is_ot(na_mat(*graph), special_vertex as int, dir_weight(ret) / 2real),
{
    runtime_check(special_vertex < graph.dim());
@ let ghost m = na_mat(*graph); let ghost s = special_vertex as int; let ghost ex = seq![special_vertex];
    let mut mst = prim_with_excluded_node_single_threaded(graph, &[special_vertex]);
@ let ghost g0 = mst; proof { assert forall|e: Seq<usize>| e.len() == 1 && e[0] == special_vertex implies #[trigger] is_mst(m, e, mst) == is_mst(m, ex, mst) by { assert(e =~= ex); } assert(is_mst(m, ex, g0)); mst_weight(m, ex, g0); assert(gn(g0) == m.n); }
    let mut fst_min_edg = Edge { to: special_vertex, cost: f64_infinity() };
    let mut snd_min_edg = Edge { to: special_vertex, cost: f64_infinity() };
    let _s1 = &graph.row(special_vertex);
    let mut _k1: usize = 0;
    while _k1 < _s1.it_len()
@ invariant inst(m), m == na_mat(*graph), s == special_vertex, 0 <= s < m.n, _s1@.len() == m.n, forall|j: int| 0 <= j < m.n ==> #[trigger] _s1@[j] == m.w(s, j), _k1 <= m.n, first_ok(m, s, _k1 as int, fst_min_edg), second_ok(m, s, _k1 as int, fst_min_edg, snd_min_edg),
@ decreases m.n - _k1,
    {
@ let ghost f0 = fst_min_edg; let ghost s0 = snd_min_edg; let ghost k = _k1 as int; proof { assert(fin(m.w(s, k))); nb_step(s, k); assert(_s1@[k] == m.w(s, k)); if f0.to != s { assert(fin(m.w(s, f0.to as int))); } if s0.to != s { assert(fin(m.w(s, s0.to as int))); } }
        let to = _k1;
        let cost = *_s1.it_at(_k1);
        if to == special_vertex {
            _k1 = _k1 + 1;
            continue;
        }
        let edge = Edge { to: to, cost: cost };
        if edge.cost < fst_min_edg.cost {
            snd_min_edg = fst_min_edg;
            fst_min_edg = edge;
        } else if edge.cost < snd_min_edg.cost {
            snd_min_edg = edge;
        }
        _k1 = _k1 + 1;
    }
@ proof { two_found(m, s, fst_min_edg, snd_min_edg); }
    if snd_min_edg.to == special_vertex {
        snd_min_edg = fst_min_edg;
    }
@ let ghost ca = fst_min_edg; let ghost cb = snd_min_edg; let ghost c2 = if m.n == 1 { 0real } else { rv(ca.cost) + rv(cb.cost) }; proof { assert(two_edges(m, s, c2)); if ca.to != s { assert(fin(m.w(s, ca.to as int))); assert(fin(m.w(s, cb.to as int))); } }
    if fst_min_edg.to != special_vertex {
        mst.add_undirected_edge(special_vertex, fst_min_edg.to, fst_min_edg.cost);
@ let ghost g1 = mst; proof { assert(one_more(g0, g1, s, ca.to as int, ca.cost)); more_weight(g0, g1, s, ca.to as int, ca.cost); }
        mst.add_undirected_edge(special_vertex, snd_min_edg.to, snd_min_edg.cost);
@ proof { assert(one_more(g1, mst, s, cb.to as int, cb.cost)); more_weight(g1, mst, s, cb.to as int, cb.cost); }
    }
@ proof { assert(dir_weight(mst) == dir_weight(g0) + 2real * c2); assert(ot_by(m, s, dir_weight(mst) / 2real, g0, c2)); }
    mst
}
//# end
// ---- the maximum over the special vertices ----
/// some 1-tree among the first k weighs at least / exactly x
pub open spec fn ot_le(m: Mat, i: int, x: real) -> bool { exists|y: real| #[trigger] is_ot(m, i, y) && y <= x }
pub open spec fn best_ot(m: Mat, k: int, o: Option<f64>) -> bool { match o {
    None => k == 0,
    Some(x) => fin(x) && one_ot(m, k, rv(x)) && all_ot(m, k, rv(x)) } }
pub open spec fn one_ot(m: Mat, k: int, x: real) -> bool { exists|i: int| 0 <= i < k && #[trigger] is_ot(m, i, x) }
pub open spec fn all_ot(m: Mat, k: int, x: real) -> bool { forall|i: int| 0 <= i < k ==> #[trigger] ot_le(m, i, x) }
proof fn best_ot_step(m: Mat, k: int, o: Option<f64>, x: f64, take: bool)
    requires k >= 0, best_ot(m, k, o), fin(x), is_ot(m, k, rv(x)), o is Some && take ==> rv(o.unwrap()) <= rv(x), o is Some && !take ==> rv(x) <= rv(o.unwrap()), o is None ==> take
    ensures best_ot(m, k + 1, if take { Some(x) } else { o })
{
    let b = if take { x } else { o.unwrap() };
    assert(ot_le(m, k, rv(b)));
    if !take { let i = choose|i: int| 0 <= i < k && #[trigger] is_ot(m, i, rv(b)); assert(is_ot(m, i, rv(b)) && 0 <= i < k + 1); }
    assert forall|i: int| 0 <= i < k + 1 implies #[trigger] ot_le(m, i, rv(b)) by { if i < k { assert(o is Some); assert(ot_le(m, i, rv(o.unwrap()))); let y = choose|y: real| #[trigger] is_ot(m, i, y) && y <= rv(o.unwrap()); assert(is_ot(m, i, y) && y <= rv(b)); } }
    assert(one_ot(m, k + 1, rv(b))) by { if take { assert(is_ot(m, k, rv(b))); } }
    assert(all_ot(m, k + 1, rv(b)));
}
/// the reported bound is the largest 1-tree, and no tour is shorter
pub open spec fn ot_bound(m: Mat, x: f64) -> bool { best_ot(m, m.n as int, Some(x)) }
proof fn ot_bound_below(m: Mat, x: f64) requires inst(m), m.n <= usize::MAX, ot_bound(m, x) ensures below_tours(m, rv(x))
{ let i = choose|i: int| 0 <= i < m.n && #[trigger] is_ot(m, i, rv(x)); ot_below(m, i, rv(x)); }
/// any two ways to compute the bound give the same value
proof fn ot_bound_unique(m: Mat, x: f64, y: f64) requires inst(m), m.n <= usize::MAX, ot_bound(m, x), ot_bound(m, y) ensures rv(x) == rv(y)
{
    let i = choose|i: int| 0 <= i < m.n && #[trigger] is_ot(m, i, rv(x)); let j = choose|j: int| 0 <= j < m.n && #[trigger] is_ot(m, j, rv(y));
    assert(ot_le(m, i, rv(y)) && ot_le(m, j, rv(x)));
    let a = choose|a: real| #[trigger] is_ot(m, i, a) && a <= rv(y); let b = choose|b: real| #[trigger] is_ot(m, j, b) && b <= rv(x);
    ot_unique(m, i, a, rv(x)); ot_unique(m, j, b, rv(y));
}
//# fn one_tree::one_tree_lower_bound_seq
fn one_tree_lower_bound_seq(graph: &NAMatrix) -> (ret: f64)
@ requires inst(na_mat(*graph)), na_mat(*graph).n >= 1,
@ ensures ot_bound(na_mat(*graph), ret), below_tours(na_mat(*graph), rv(ret)), fin(ret),
{
@ let ghost m = na_mat(*graph);
    let _e1: usize = graph.dim();
    let mut _m1 = None;
    let mut _k1: usize = 0;
    while _k1 < _e1
@ invariant inst(m), m == na_mat(*graph), _e1 == m.n, _k1 <= m.n, best_ot(m, _k1 as int, _m1),
@ decreases m.n - _k1,
    {
@ let ghost o = _m1;
        let special_vertex = _k1;
        let _x1 = one_tree(graph, special_vertex).undirected_edge_weight();
@ proof { assert(is_ot(m, _k1 as int, rv(_x1))); }
        let _t1 = if let Some(_b1) = opt_like(&_m1, &_x1) {
            let x = &(*_b1);
            let y = &_x1;
            ord_is_le(f64_partial_cmp(x, y).unwrap())
        } else {
            true
        };
@ proof { best_ot_step(m, _k1 as int, o, _x1, _t1); }
        if _t1 {
            _m1 = Some(_x1);
        }
        _k1 = _k1 + 1;
    }
@ proof { ot_bound_below(m, _m1->0); }
    _m1.unwrap()
}
//# end
//# fn one_tree::one_tree_lower_bound_par
fn one_tree_lower_bound_par(graph: &NAMatrix) -> (ret: f64)
@ requires inst(na_mat(*graph)), na_mat(*graph).n >= 1,
@ ensures ot_bound(na_mat(*graph), ret), below_tours(na_mat(*graph), rv(ret)), fin(ret),
{
@ let ghost m = na_mat(*graph);
    let _e1: usize = graph.dim();
    let mut _m1 = None;
    let mut _k1: usize = 0;
    while _k1 < _e1
@ invariant inst(m), m == na_mat(*graph), _e1 == m.n, _k1 <= m.n, best_ot(m, _k1 as int, _m1),
@ decreases m.n - _k1,
    {
@ let ghost o = _m1;
        let special_vertex = _k1;
        let _x1 = one_tree(graph, special_vertex).undirected_edge_weight();
@ proof { assert(is_ot(m, _k1 as int, rv(_x1))); }
        let _t1 = if let Some(_b1) = opt_like(&_m1, &_x1) {
            let x = &(*_b1);
            let y = &_x1;
            ord_is_le(f64_partial_cmp(x, y).unwrap())
        } else {
            true
        };
@ proof { best_ot_step(m, _k1 as int, o, _x1, _t1); }
        if _t1 {
            _m1 = Some(_x1);
        }
        _k1 = _k1 + 1;
    }
@ proof { ot_bound_below(m, _m1->0); }
    _m1.unwrap()
}
//# end
//# fn one_tree::one_tree_lower_bound
fn one_tree_lower_bound<const MODE: usize>(graph: &NAMatrix) -> (ret: f64)
@ requires inst(na_mat(*graph)), na_mat(*graph).n >= 1, MODE <= 1,
@ ensures below_tours(na_mat(*graph), rv(ret)), fin(ret),
@     ot_bound(na_mat(*graph), ret),
{
    if MODE == 0 {
        one_tree_lower_bound_seq(graph)
    } else if MODE == 1 {
        one_tree_lower_bound_par(graph)
    } else {
        panic_on_invaid_mode::<MODE>()
    }
}
//# end
