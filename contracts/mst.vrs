//# theory mst
//# include graph
//# include mstspec
//# ext computation_mode::panic_on_invaid_mode
//# include namat
//# include mstlog
/// m is the cheapest unused entry among the first k, if there is one
pub open spec fn best_upto(s: Seq<(Edge, bool)>, k: int, m: Option<(usize, Edge)>) -> bool { match m {
    None => forall|i: int| 0 <= i < k ==> (#[trigger] s[i]).1,
    Some(b) => b.0 < k && !s[b.0 as int].1 && b.1 == s[b.0 as int].0 && forall|i: int| 0 <= i < k && !(#[trigger] s[i]).1 ==> xle(b.1.cost, s[i].0.cost) } }
pub open spec fn relaxed(o: Seq<(Edge, bool)>, s: Seq<(Edge, bool)>, row: Seq<f64>, from: usize, k: int) -> bool { o.len() == s.len() && forall|i: int| 0 <= i < o.len() ==> (#[trigger] s[i]).1 == o[i].1 && s[i].0 == if i < k && xlt(row[i], o[i].0.cost) { Edge { to: from, cost: row[i] } } else { o[i].0 } }
proof fn row_offset(d: int, k: int, b: int) requires 0 <= k < d, d * d <= b ensures 0 <= d * k <= b, (d * k) % d == 0, (d * k) / d == k { assert(0 <= d * k <= d * d) by (nonlinear_arith) requires 0 <= k < d; vstd::arithmetic::div_mod::lemma_mod_multiples_basic(k, d); vstd::arithmetic::div_mod::lemma_div_multiples_vanish(k, d); assert(d * k == k * d) by (nonlinear_arith); }
pub open spec fn as_u(i: int) -> usize { i as usize }
/// connecting i to the tree costs c at least, and exactly that at t
pub open spec fn near(m: Mat, vs: Seq<int>, i: int, c: f64, t: usize) -> bool { fin(c) && vs.contains(t as int) && c == m.w(t as int, i) && forall|k: int| 0 <= k < vs.len() ==> rv(c) <= rv(m.w(#[trigger] vs[k], i)) }
proof fn contains_push(s: Seq<usize>, x: usize) ensures forall|i: usize| #[trigger] s.push(x).contains(i) == (s.contains(i) || i == x)
{ assert forall|i: usize| #[trigger] s.push(x).contains(i) == (s.contains(i) || i == x) by { if s.contains(i) { let j = choose|j: int| 0 <= j < s.len() && s[j] == i; assert(s.push(x)[j] == i); } assert(s.push(x)[s.len() as int] == x); } }
proof fn contains_pushi(s: Seq<int>, x: int, i: int) ensures s.push(x).contains(i) == (s.contains(i) || i == x)
{ if s.contains(i) { let j = choose|j: int| 0 <= j < s.len() && s[j] == i; assert(s.push(x)[j] == i); } assert(s.push(x)[s.len() as int] == x); }
proof fn distinct_below(vs: Seq<int>, n: nat) requires vs.no_duplicates(), forall|k: int| 0 <= k < vs.len() ==> 0 <= #[trigger] vs[k] < n ensures vs.len() <= n
{ vs.unique_seq_to_set(); let r = vstd::set_lib::set_int_range(0, n as int); vstd::set_lib::lemma_int_range(0, n as int); assert(vs.to_set().subset_of(r)) by { assert forall|a: int| vs.to_set().contains(a) implies r.contains(a) by { let j = choose|j: int| 0 <= j < vs.len() && vs[j] == a; assert(0 <= vs[j] < n); } } vstd::set_lib::lemma_len_subset(vs.to_set(), r); }
proof fn empty_mst(m: Mat, ex: Seq<usize>)
    requires inst(m), forall|i: int| 0 <= i < m.n ==> ex.contains(#[trigger] as_u(i))
    ensures forall|g: Graph| gn(g) == m.n && (forall|i: int| 0 <= i < m.n ==> #[trigger] adj(g, i) == Seq::<Edge>::empty()) ==> #[trigger] is_mst(m, ex, g)
{
    let v = rest_of(m.n, ex); let t = Seq::<E2>::empty(); let vs = Seq::<int>::empty();
    assert forall|a: int| !#[trigger] v(a) by { if v(a) { assert(ex.contains(as_u(a))); } }
    assert(tree_by(v, vs, t)); assert(spanning(v, t));
    assert(lightest(wf(m), m.n, v, tw(wf(m), t))) by { assert forall|f: Seq<E2>| #[trigger] connects(f, v, m.n) implies tw(wf(m), t) <= tw(wf(m), f) by { tw_nonneg(wf(m), f, m.n); } }
    assert forall|g: Graph| gn(g) == m.n && (forall|i: int| 0 <= i < m.n ==> #[trigger] adj(g, i) == Seq::<Edge>::empty()) implies #[trigger] is_mst(m, ex, g) by { assert(mst_by(m, v, t, g)); }
}
/// c is the least cost, and connecting i costs no less
pub open spec fn can_be_next<D: FindMinCostEdge>(m: Mat, vs: Seq<int>, c: f64, d: D, i: int) -> bool { near(m, vs, i, d.dc(i), d.dt(i)) && xle(c, d.dc(i)) }
proof fn step_light<D: FindMinCostEdge>(m: Mat, v: P, vs: Seq<int>, u: int, p: int, c: f64, d: D)
    requires inst(m), forall|a: int| #[trigger] v(a) ==> 0 <= a < m.n, 0 <= p < m.n, c == m.w(p, u), fin(c),
        forall|i: int| v(i) && !vs.contains(i) ==> #[trigger] can_be_next(m, vs, c, d, i)
    ensures light(wf(m), v, inq(vs), u, wf(m)(p, u)), symm(wf(m), m.n)
{
    assert forall|a: int, b: int| #[trigger] inq(vs)(a) && #[trigger] v(b) && v(a) && !inq(vs)(b) implies wf(m)(p, u) <= wf(m)(a, b) by { assert(can_be_next(m, vs, c, d, b)); let j = choose|j: int| 0 <= j < vs.len() && vs[j] == a; assert(rv(d.dc(b)) <= rv(m.w(vs[j], b))); }
}
pub open spec fn num_costs(s: Seq<(Edge, bool)>) -> bool { forall|i: int| 0 <= i < s.len() ==> num((#[trigger] s[i]).0.cost) }
impl FindMinCostEdge for Vec<(Edge, bool)> {
    open spec fn ok(&self) -> bool { num_costs(self@) }
    open spec fn sz(&self) -> nat { self@.len() }
    open spec fn dc(&self, i: int) -> f64 { self@[i].0.cost }
    open spec fn dt(&self, i: int) -> usize { self@[i].0.to }
    open spec fn du(&self, i: int) -> bool { self@[i].1 }
//# fn mst::FindMinCostEdge@Vec::from_default_value
fn from_default_value(default_val: Edge, size: usize) -> (ret: Self)
{
vec_from_elem((default_val, false), size)
}
//# end
//# fn mst::FindMinCostEdge@Vec::find_edge_with_minimal_cost
fn find_edge_with_minimal_cost(&self) -> (ret: (usize, Edge))
{
let base_case = Edge { to: self.len(), cost: f64_infinity() };
let mut _m1 = None;
let mut _k1: usize = 0;
while _k1 < self.it_len()
@ invariant num_costs(self@), _k1 <= self@.len(), best_upto(self@, _k1 as int, _m1),
@ decreases self@.len() - _k1,
{
let i = _k1;
let edge = (*self.it_at(_k1)).0;
let used_in_mst = (*self.it_at(_k1)).1;
let _f1 = if used_in_mst {
None
} else {
Some((i, edge))
};
if let Some(_v1) = _f1 {
let _x1 = _v1;
let _t1 = if let Some(_b1) = opt_like(&_m1, &_x1) {
let edg_i = (*_b1).1;
let edg_j = _x1.1;
ord_is_gt(OrderedFloat(edg_i.cost).cmp(&OrderedFloat(edg_j.cost)))
} else {
true
};
if _t1 {
_m1 = Some(_x1);
}
}
_k1 = _k1 + 1;
}
let (next_vertex, reverse_edge) = _m1.unwrap_or((base_case.to, base_case));
(next_vertex, reverse_edge)
}
//# end
//# fn mst::FindMinCostEdge@Vec::update_minimal_cost
fn update_minimal_cost(&mut self, from: usize, new_neighbours: RowView)
{
let mut _k1: usize = 0;
while _k1 < new_neighbours.it_len()
@ invariant _k1 <= new_neighbours@.len(), new_neighbours@.len() <= self@.len(), self@.len() == old(self)@.len(), num_costs(self@), forall|i: int| 0 <= i < new_neighbours@.len() ==> num(#[trigger] new_neighbours@[i]), relaxed(old(self)@, self@, new_neighbours@, from, _k1 as int),
@ decreases new_neighbours@.len() - _k1,
{
let to = _k1;
let cost = *new_neighbours.it_at(_k1);
if cost < self[to].0.cost {
self[to].0 = Edge { to: from, cost: cost };
}
_k1 = _k1 + 1;
}
}
//# end
//# fn mst::FindMinCostEdge@Vec::set_cost
fn set_cost(&mut self, from: usize, edge_to: Edge)
{
self[from].0 = edge_to;
}
//# end
//# fn mst::FindMinCostEdge@Vec::mark_vertex_as_used
fn mark_vertex_as_used(&mut self, used_vertex: usize)
{
self[used_vertex].1 = true;
}
//# end
//# fn mst::FindMinCostEdge@Vec::set_excluded_vertex
fn set_excluded_vertex(&mut self, excluded_vertex: usize)
{
self.mark_vertex_as_used(excluded_vertex);
}
//# end
}
impl FindMinCostEdge for MultiThreadedVecWrapper {
    open spec fn ok(&self) -> bool { self.0.ok() }
    open spec fn sz(&self) -> nat { self.0.sz() }
    open spec fn dc(&self, i: int) -> f64 { self.0.dc(i) }
    open spec fn dt(&self, i: int) -> usize { self.0.dt(i) }
    open spec fn du(&self, i: int) -> bool { self.0.du(i) }
//# fn mst::FindMinCostEdge@MultiThreadedVecWrapper::from_default_value
fn from_default_value(default_val: Edge, size: usize) -> (ret: Self)
{
MultiThreadedVecWrapper(Vec::from_default_value(default_val, size))
}
//# end
//# fn mst::FindMinCostEdge@MultiThreadedVecWrapper::find_edge_with_minimal_cost
fn find_edge_with_minimal_cost(&self) -> (ret: (usize, Edge))
{
let base_case = Edge { to: self.0.len(), cost: f64_infinity() };
let mut _m1 = None;
let mut _k1: usize = 0;
while _k1 < self.0.it_len()
@ invariant num_costs(self.0@), _k1 <= self.0@.len(), best_upto(self.0@, _k1 as int, _m1),
@ decreases self.0@.len() - _k1,
{
let i = _k1;
let edge = (*self.0.it_at(_k1)).0;
let used_in_mst = (*self.0.it_at(_k1)).1;
let _f1 = if used_in_mst {
None
} else {
Some((i, edge))
};
if let Some(_v1) = _f1 {
let _x1 = _v1;
let _t1 = if let Some(_b1) = opt_like(&_m1, &_x1) {
let edg_i = (*_b1).1;
let edg_j = _x1.1;
ord_is_gt(OrderedFloat(edg_i.cost).cmp(&OrderedFloat(edg_j.cost)))
} else {
true
};
if _t1 {
_m1 = Some(_x1);
}
}
_k1 = _k1 + 1;
}
let (next_vertex, reverse_edge) = _m1.unwrap_or((base_case.to, base_case));
(next_vertex, reverse_edge)
}
//# end
//# fn mst::FindMinCostEdge@MultiThreadedVecWrapper::update_minimal_cost
fn update_minimal_cost(&mut self, from: usize, new_neighbours: RowView)
{
let dim = new_neighbours.shape().1;
let mut _w1 = Owners::new();
let mut _k1: usize = 0;
while _k1 < dim
@ invariant forall|c: int| #[trigger] _w1.m@.dom().contains(c) ==> c < _k1, _k1 <= dim, dim * dim <= usize::MAX, dim == new_neighbours@.len(), new_neighbours.stride() == dim, new_neighbours@.len() <= self.0@.len(), self.0@.len() == old(self).0@.len(), num_costs(self.0@), forall|i: int| 0 <= i < new_neighbours@.len() ==> num(#[trigger] new_neighbours@[i]), relaxed(old(self).0@, self.0@, new_neighbours@, from, _k1 as int),
@ decreases dim - _k1,
{
let to = _k1;
@ proof { row_offset(dim as int, to as int, usize::MAX as int); }
let cost = new_neighbours.ptr_read(dim * to);
own_cell(&mut _w1, to, _k1);
if cost < self.0[to].0.cost {
own_cell(&mut _w1, to, _k1);
let _p1 = self.0.ptr_mut(to);
_p1.0 = Edge { to: from, cost: cost };
}
_k1 = _k1 + 1;
}
}
//# end
//# fn mst::FindMinCostEdge@MultiThreadedVecWrapper::set_cost
fn set_cost(&mut self, from: usize, edge_to: Edge)
{
self.0.set_cost(from, edge_to);
}
//# end
//# fn mst::FindMinCostEdge@MultiThreadedVecWrapper::mark_vertex_as_used
fn mark_vertex_as_used(&mut self, used_vertex: usize)
{
self.0.mark_vertex_as_used(used_vertex);
}
//# end
//# fn mst::FindMinCostEdge@MultiThreadedVecWrapper::set_excluded_vertex
fn set_excluded_vertex(&mut self, excluded_vertex: usize)
{
self.0.set_excluded_vertex(excluded_vertex);
}
//# end
}
impl FindMinCostEdge for VerticesInPriorityQueue {
    open spec fn ok(&self) -> bool { self.used@.len() <= usize::MAX && self.used@.len() == self.connection_to_mst@.len() && pr_nums(self.cost_queue@) && (forall|k: usize| #[trigger] self.cost_queue@.dom().contains(k) ==> k < self.used@.len() && !self.used@[k as int]) && forall|i: int| 0 <= i < self.used@.len() ==> self.cost_queue@.dom().contains(i as usize) == !(#[trigger] self.used@[i]) }
    open spec fn sz(&self) -> nat { self.used@.len() }
    open spec fn dc(&self, i: int) -> f64 { self.cost_queue@[i as usize].0.0 }
    open spec fn dt(&self, i: int) -> usize { self.connection_to_mst@[i] }
    open spec fn du(&self, i: int) -> bool { self.used@[i] }
//# fn mst::FindMinCostEdge@VerticesInPriorityQueue::from_default_value
fn from_default_value(default_val: Edge, size: usize) -> (ret: Self)
{
let mut _c1 = Vec::new();
@ let ghost _ty: Seq<(usize, Pr)> = _c1@;
let mut _k1: usize = 0;
while _k1 < size
@ invariant _k1 <= size, _c1@.len() == _k1, forall|i: int| 0 <= i < _k1 ==> (#[trigger] _c1@[i]).0 == i && _c1@[i].1.0.0 == default_val.cost,
@ decreases size - _k1,
{
let i = _k1;
_c1.push((i, Reverse(OrderedFloat(default_val.cost))));
_k1 = _k1 + 1;
}
@ proof { assert forall|k: usize| #[trigger] key_listed(_c1@, k) <==> k < size by { if k < size { assert(_c1@[k as int].0 == k); } } }
VerticesInPriorityQueue { cost_queue: PriorityQueue::from(_c1), connection_to_mst: vec_from_elem(default_val.to, size), used: vec_from_elem(false, size) }
}
//# end
//# fn mst::FindMinCostEdge@VerticesInPriorityQueue::find_edge_with_minimal_cost
fn find_edge_with_minimal_cost(&self) -> (ret: (usize, Edge))
{
@ proof { let i = choose|i: int| 0 <= i < self.sz() && !(#[trigger] self.du(i)); assert(self.used@[i] == false); assert(self.cost_queue@.dom().contains(i as usize)); }
let base_case = Edge { to: self.connection_to_mst.len(), cost: f64_infinity() };
let _h1 = Reverse(OrderedFloat(base_case.cost));
let _d1 = self.cost_queue.peek().unwrap_or((&base_case.to, &_h1));
let next_vertex = *_d1.0;
let cost = (*_d1.1).0 .0;
let to = self.connection_to_mst[next_vertex];
(next_vertex, Edge { to: to, cost: cost })
}
//# end
//# fn mst::FindMinCostEdge@VerticesInPriorityQueue::update_minimal_cost
fn update_minimal_cost(&mut self, from: usize, new_neighbours: RowView)
{
let mut _k1: usize = 0;
while _k1 < new_neighbours.it_len()
@ invariant _k1 <= new_neighbours@.len(), old(self).ok(), self.ok(), self.sz() == old(self).sz(), new_neighbours@.len() <= self.sz(), self.used@ == old(self).used@, forall|i: int| 0 <= i < new_neighbours@.len() ==> num(#[trigger] new_neighbours@[i]),
@   forall|i: int| 0 <= i < self.sz() && !self.used@[i] ==> #[trigger] self.cost_queue@[i as usize].0.0 == if i < _k1 && xlt(new_neighbours@[i], old(self).dc(i)) { new_neighbours@[i] } else { old(self).dc(i) },
@   forall|i: int| 0 <= i < self.sz() && !self.used@[i] ==> #[trigger] self.connection_to_mst@[i] == if i < _k1 && xlt(new_neighbours@[i], old(self).dc(i)) { from } else { old(self).dt(i) },
@ decreases new_neighbours@.len() - _k1,
{
let to = _k1;
let cost = *new_neighbours.it_at(_k1);
if self.used[to] {
_k1 = _k1 + 1;
continue;
}
let _d1 = self.cost_queue.push_increase(to, Reverse(OrderedFloat(cost))).unwrap();
let old_cost = _d1.0 .0;
if cost < old_cost {
self.connection_to_mst[to] = from;
}
_k1 = _k1 + 1;
}
}
//# end
//# fn mst::FindMinCostEdge@VerticesInPriorityQueue::set_cost
fn set_cost(&mut self, from: usize, edge_to: Edge)
{
self.cost_queue.change_priority(&from, Reverse(OrderedFloat(edge_to.cost)));
self.connection_to_mst[from] = edge_to.to;
}
//# end
//# fn mst::FindMinCostEdge@VerticesInPriorityQueue::mark_vertex_as_used
fn mark_vertex_as_used(&mut self, used_vertex: usize)
{
self.cost_queue.remove(&used_vertex);
self.used[used_vertex] = true;
}
//# end
//# fn mst::FindMinCostEdge@VerticesInPriorityQueue::set_excluded_vertex
fn set_excluded_vertex(&mut self, excluded_vertex: usize)
{
self.mark_vertex_as_used(excluded_vertex);
}
//# end
}
//# fn mst::prim_with_excluded_node
fn prim_with_excluded_node<D: FindMinCostEdge>(graph: &NAMatrix, excluded_vertices: &[usize]) -> (ret: Graph)
@ requires inst(na_mat(*graph)), excl_ok(na_mat(*graph).n, excluded_vertices@),
@ ensures is_mst(na_mat(*graph), excluded_vertices@, ret),
{
let num_vertices = graph.dim();
@ let ghost m = na_mat(*graph); let ghost w = wf(m); let ghost n = m.n; let ghost ex = excluded_vertices@; let ghost v = rest_of(n, ex);
@ proof { if forall|i: int| 0 <= i < n ==> ex.contains(#[trigger] as_u(i)) { empty_mst(m, ex); } }
let unconnected_node = num_vertices;
let mut mst_adj_list: Vec<Vec<Edge>> = vec_from_elem(Vec::new(), num_vertices + 1);
let mut dist_from_mst = D::from_default_value(Edge { cost: f64_infinity(), to: unconnected_node }, num_vertices + 1);
let mut idx = 0;
while excluded_vertices.contains(&idx)
@ invariant excl_ok(n, ex), ex == excluded_vertices@, n < usize::MAX, idx <= n, forall|i: int| 0 <= i < idx ==> ex.contains(#[trigger] as_u(i)),
@ decreases n - idx,
{
idx = idx + 1;
}
if idx >= num_vertices {
return Graph::conv_from(vec_from_elem(Vec::new(), num_vertices));
}
let start_index = idx;
dist_from_mst.set_cost(start_index, Edge { to: start_index, cost: f64_zero() });
let mut _k1: usize = 0;
@ let ghost start = start_index as int; let ghost d0 = dist_from_mst; proof { assert forall|i: int| 0 <= i <= n implies !d0.du(i) && (i != start ==> pinf(#[trigger] d0.dc(i))) by { assert(!d0.du(i)); } }
while _k1 < excluded_vertices.it_len()
@ invariant n < usize::MAX, excl_ok(n, ex), ex == excluded_vertices@, _k1 <= ex.len(), dist_from_mst.ok(), dist_from_mst.sz() == n + 1, 0 <= start < n, v(start), v == rest_of(n, ex),
@   forall|i: int| 0 <= i <= n ==> #[trigger] dist_from_mst.du(i) == ex.subrange(0, _k1 as int).contains(i as usize),
@   forall|i: int| 0 <= i <= n && !dist_from_mst.du(i) ==> #[trigger] dist_from_mst.dc(i) == d0.dc(i),
@ decreases ex.len() - _k1,
{
let vertex = *excluded_vertices.it_at(_k1);
dist_from_mst.set_excluded_vertex(vertex);
@ proof { assert(ex.subrange(0, _k1 + 1) =~= ex.subrange(0, _k1 as int).push(vertex)); contains_push(ex.subrange(0, _k1 as int), vertex); }
_k1 = _k1 + 1;
}
let mut _k2: usize = 0;
@ let ghost mut vs = Seq::<int>::empty(); let ghost mut t = Seq::<E2>::empty();
@ proof { assert(ex.subrange(0, _k1 as int) =~= ex); }
while _k2 <= num_vertices
@ invariant_except_break _k2 <= n + 1, vs.len() == _k2,
@ invariant inst(m), m == na_mat(*graph), w == wf(m), n == m.n, num_vertices == n, excl_ok(n, ex), v == rest_of(n, ex), 0 <= start < n, v(start), start_index == start,
@   dist_from_mst.ok(), dist_from_mst.sz() == n + 1, forall|i: int| 0 <= i < n ==> #[trigger] dist_from_mst.du(i) == (ex.contains(i as usize) || vs.contains(i)), !dist_from_mst.du(n as int) && pinf(dist_from_mst.dc(n as int)),
@   grown(vs, t), edges_in(t, n), forall|k: int| 0 <= k < vs.len() ==> v(#[trigger] vs[k]), vs.len() > 0 ==> vs[0] == start && opt_upto(w, n, v, inq(vs), tw(w, t)),
@   mst_adj_list@.len() == n + 1, forall|i: int| 0 <= i <= n ==> (#[trigger] mst_adj_list@[i])@ == glist(m, t, i),
@   vs.len() <= n, vs.len() == 0 ==> t.len() == 0 && forall|i: int| 0 <= i < n && !dist_from_mst.du(i) ==> if i == start { fin(#[trigger] dist_from_mst.dc(i)) } else { pinf(dist_from_mst.dc(i)) },
@   vs.len() > 0 ==> forall|i: int| 0 <= i < n && !dist_from_mst.du(i) ==> near(m, vs, i, #[trigger] dist_from_mst.dc(i), dist_from_mst.dt(i)),
@ ensures vs.len() > 0, forall|a: int| #[trigger] v(a) ==> vs.contains(a),
@ decreases n + 1 - _k2,
{
let (next_vertex, next_edge) = dist_from_mst.find_edge_with_minimal_cost();
@ let ghost u = next_vertex as int; let ghost p = next_edge.to as int; let ghost vs0 = vs; let ghost t0 = t; let ghost adj0 = mst_adj_list@;
if next_edge.cost == f64_infinity() {
@ proof {
@   assert(vs.len() > 0) by { if vs.len() == 0 { assert(!dist_from_mst.du(start)); } }
@   assert forall|a: int| #[trigger] v(a) implies vs.contains(a) by { if !vs.contains(a) { assert(!dist_from_mst.du(a)); assert(near(m, vs, a, dist_from_mst.dc(a), dist_from_mst.dt(a))); } }
@ }
break;
}
@ proof { assert(!(pinf(next_edge.cost))); assert(v(u)) by { assert(0 <= u < n); } if vs.len() == 0 { if u != start { assert(!dist_from_mst.du(u)); assert(pinf(dist_from_mst.dc(u))); } } else { assert(near(m, vs, u, next_edge.cost, next_edge.to)); } }
@ let ghost dold = dist_from_mst;
dist_from_mst.mark_vertex_as_used(next_vertex);
if next_vertex != start_index {
let reverse_edge = Edge { to: next_vertex, cost: next_edge.cost };
let connection_from = next_edge.to;
let connection_to = next_vertex;
@ proof {
@   assert(vs.len() > 0) by { if vs.len() == 0 { } }
@   assert(near(m, vs, u, next_edge.cost, next_edge.to));
@   assert(vs.contains(p) && v(p)) by { let j = choose|j: int| 0 <= j < vs.len() && vs[j] == p; assert(v(vs[j])); }
@ }
mst_adj_list[connection_to].push(next_edge);
mst_adj_list[connection_from].push(reverse_edge);
}
@ proof {
@   if u == start { if vs.len() > 0 { assert(vs.contains(vs[0])); } vs = vs.push(u); assert(inq(vs)(u) && v(u)) by { assert(vs[0] == u); } opt_start(w, n, v, inq(vs)); assert(t.len() == 0); }
@   else {
@     assert forall|i: int| v(i) && !vs.contains(i) implies #[trigger] can_be_next(m, vs, next_edge.cost, dold, i) by { assert(!dold.du(i)); }
@     step_light(m, v, vs, u, p, next_edge.cost, dold);
@     assert(inq(vs)(p) && v(p));
@     opt_step(w, n, v, inq(vs), tw(w, t), p, u);
@     ssum_push(t, (u, p), ew(w));
@     grown_push(vs, t, u, p);
@     t = t.push((u, p)); vs = vs.push(u);
@     assert(inq(vs) =~= plus(inq(vs0), u)) by { assert forall|a: int| #[trigger] inq(vs)(a) == plus(inq(vs0), u)(a) by { contains_pushi(vs0, u, a); } }
@     assert(t.drop_last() =~= t0);
@     assert forall|i: int| 0 <= i <= n implies (#[trigger] mst_adj_list@[i])@ == glist(m, t, i) by { }
@   }
@   assert forall|i: int| #[trigger] vs.contains(i) == (vs0.contains(i) || i == u) by { contains_pushi(vs0, u, i); }
@   distinct_below(vs, n);
@ }
@ let ghost dmid = dist_from_mst;
@ proof { assert forall|j: int| 0 <= j < n implies fin(#[trigger] graph.0.e(u, j)) by { assert(fin(m.w(u, j))); } }
dist_from_mst.update_minimal_cost(next_vertex, graph.row(next_vertex));
@ proof {
@   assert forall|i: int| 0 <= i < n && !dist_from_mst.du(i) implies near(m, vs, i, #[trigger] dist_from_mst.dc(i), dist_from_mst.dt(i)) by {
@     assert(!dmid.du(i)); assert(!dold.du(i)); assert(dist_from_mst.dt(i) == dist_from_mst.dt(i));
@     if vs0.len() > 0 { assert(near(m, vs0, i, dold.dc(i), dold.dt(i))); }
@     assert(vs[vs.len() - 1] == u); assert(vs.contains(u));
@     assert forall|k: int| 0 <= k < vs.len() implies rv(dist_from_mst.dc(i)) <= rv(m.w(#[trigger] vs[k], i)) by { if k < vs0.len() { assert(vs[k] == vs0[k]); } }
@   }
@ }
_k2 = _k2 + 1;
}
@ proof {
@   opt_end(w, n, v, inq(vs), tw(w, t));
@   assert(tree_by(v, vs, t)) by { assert forall|a: int| #[trigger] v(a) <==> vs.contains(a) by { if vs.contains(a) { let j = choose|j: int| 0 <= j < vs.len() && vs[j] == a; assert(v(vs[j])); } } }
@   assert(spanning(v, t));
@ }
@ proof { assert forall|g: Graph| gn(g) == n && (forall|i: int| 0 <= i < n ==> #[trigger] adj(g, i) == glist(m, t, i)) implies #[trigger] is_mst(m, ex, g) by { assert(stores(m, t, g)); assert(mst_by(m, v, t, g)); } }
mst_adj_list.pop();
Graph::conv_from(mst_adj_list)
}
//# end
//# fn mst::prim_with_excluded_node_single_threaded
fn prim_with_excluded_node_single_threaded(graph: &NAMatrix, excluded_vertices: &[usize]) -> (ret: Graph)
@ requires inst(na_mat(*graph)), excl_ok(na_mat(*graph).n, excluded_vertices@),
@ ensures is_mst(na_mat(*graph), excluded_vertices@, ret),
{
prim_with_excluded_node::<Vec<(Edge, bool)>>(graph, excluded_vertices)
}
//# end
//# fn mst::prim_with_excluded_node_multi_threaded
fn prim_with_excluded_node_multi_threaded(graph: &NAMatrix, excluded_vertices: &[usize]) -> (ret: Graph)
@ requires inst(na_mat(*graph)), excl_ok(na_mat(*graph).n, excluded_vertices@),
@ ensures is_mst(na_mat(*graph), excluded_vertices@, ret),
{
prim_with_excluded_node::<MultiThreadedVecWrapper>(graph, excluded_vertices)
}
//# end
//# fn mst::prim_with_excluded_node_priority_queue
fn prim_with_excluded_node_priority_queue(graph: &NAMatrix, excluded_vertices: &[usize]) -> (ret: Graph)
@ requires inst(na_mat(*graph)), excl_ok(na_mat(*graph).n, excluded_vertices@),
@ ensures is_mst(na_mat(*graph), excluded_vertices@, ret),
{
prim_with_excluded_node::<VerticesInPriorityQueue>(graph, excluded_vertices)
}
//# end
//# fn mst::prim
fn prim<const MODE: usize>(graph: &NAMatrix) -> (ret: Graph)
@ requires inst(na_mat(*graph)), MODE == 0 || MODE == 1,
@ ensures is_mst(na_mat(*graph), Seq::empty(), ret),
{
@ proof { assert forall|e: Seq<usize>| e.len() == 0 implies #[trigger] rest_of(na_mat(*graph).n, e) == rest_of(na_mat(*graph).n, Seq::<usize>::empty()) by { assert(e =~= Seq::<usize>::empty()); } }
if MODE == 0 {
prim_with_excluded_node_single_threaded(graph, &[])
} else if MODE == 1 {
prim_with_excluded_node_multi_threaded(graph, &[])
} else {
panic_on_invaid_mode::<MODE>()
}
}
//# end
