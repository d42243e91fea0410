//# theory mst count euler
//# include adj
//# include matrices
impl AdjacencyMatrix for NAMatrix {
    open spec fn mv(&self) -> Mat { na_mat(*self) }
//# ext nalgebra::AdjacencyMatrix@NAMatrix::from_dim
//# ext nalgebra::AdjacencyMatrix@NAMatrix::dim
//# ext nalgebra::AdjacencyMatrix@NAMatrix::get
//# ext nalgebra::AdjacencyMatrix@NAMatrix::set
}
//# include graph
//# include mstfacts
//# ext mst::prim
//# ext matching::approx_min_cost_matching
//# ext solvers::is_hamiltonian_cycle
//# ext computation_mode::panic_on_invaid_mode
/// the edge counts held in a matrix
pub open spec fn mc(g: DMatrix<(f64, usize)>) -> Cnt { |i: int, j: int| g.e(i, j).1 as int }
pub open spec fn square(g: DMatrix<(f64, usize)>, n: nat) -> bool { g.nr() == n && g.nc() == n }
/// walking p removed exactly its edges
pub open spec fn walked(n: nat, c0: Cnt, c: Cnt, p: Seq<usize>) -> bool { forall|i: int, j: int| 0 <= i < n && 0 <= j < n ==> uocc(path_edges(p), i, j) + #[trigger] c(i, j) == c0(i, j) }
proof fn walked_push(n: nat, c0: Cnt, c: Cnt, c2: Cnt, p: Seq<usize>, b: usize) requires walked(n, c0, c, p), p.len() > 0, less_edge(n, c, c2, p[p.len() - 1] as int, b as int) ensures walked(n, c0, c2, p.push(b))
{
    let q = p.push(b); assert(q.drop_last() =~= p);
    assert(path_edges(q) == path_edges(p).push((p[p.len() - 1] as int, b as int)));
    assert forall|i: int, j: int| 0 <= i < n && 0 <= j < n implies uocc(path_edges(q), i, j) + #[trigger] c2(i, j) == c0(i, j) by { uocc_push(path_edges(p), (p[p.len() - 1] as int, b as int), i, j); assert(uocc(path_edges(p), i, j) + c(i, j) == c0(i, j)); }
}
//# fn christofides::find_cycle
fn find_cycle(start_vertex: usize, multigraph: &mut DMatrix<(f64, usize)>, degree: &mut [usize]) -> (ret: Vec<usize>)
@ requires square(*old(multigraph), old(degree)@.len()), start_vertex < old(degree)@.len(), mg_ok(old(degree)@.len(), mc(*old(multigraph)), old(degree)@), evens(old(degree)@),
@ ensures square(*final(multigraph), old(degree)@.len()), mg_ok(old(degree)@.len(), mc(*final(multigraph)), final(degree)@), evens(final(degree)@),
@     ret@.len() >= 1, ret@[0] == start_vertex, ret@[ret@.len() - 1] == start_vertex, in_range(ret@, old(degree)@.len()),
@     walked(old(degree)@.len(), mc(*old(multigraph)), mc(*final(multigraph)), ret@),
@     dsum(final(degree)@) <= dsum(old(degree)@), old(degree)@[start_vertex as int] > 0 ==> dsum(final(degree)@) < dsum(old(degree)@),
{
@ let ghost n = degree@.len(); let ghost c0 = mc(*multigraph); let ghost d0 = degree@;
    let mut cycle = Vec::new();
@ let ghost _ty: Seq<usize> = cycle@;
    let mut vertex = start_vertex;
    cycle.push(vertex);
@ proof { assert(path_edges(cycle@) =~= Seq::<E2>::empty()); assert(walked(n, c0, c0, cycle@)); }
    loop
@ invariant n == degree@.len(), n == d0.len(), start_vertex < n, vertex < n, cycle@.len() >= 1, cycle@[0] == start_vertex, cycle@[cycle@.len() - 1] == vertex, in_range(cycle@, n),
@     square(*multigraph, n), mg_ok(n, mc(*multigraph), degree@), evens_but(degree@, start_vertex as int, vertex as int), walked(n, c0, mc(*multigraph), cycle@),
@     dsum(degree@) <= dsum(d0), dsum(degree@) < dsum(d0) || degree@ == d0 && vertex == start_vertex,
@ ensures vertex == start_vertex, degree@[vertex as int] == 0,
@ decreases dsum(degree@),
    {
@ let ghost c1 = mc(*multigraph); let ghost d1 = degree@; let ghost p1 = cycle@; let ghost v1 = vertex;
        let mut _r1: Option<usize> = None;
        let mut _k1: usize = 0;
        while _r1.is_none() && _k1 < multigraph.ncols()
@ invariant square(*multigraph, n), vertex < n, c1 == mc(*multigraph), _k1 <= n, _r1 is None ==> forall|j: int| 0 <= j < _k1 ==> #[trigger] c1(vertex as int, j) == 0, _r1 is Some ==> _r1.unwrap() < n && c1(vertex as int, _r1.unwrap() as int) >= 1,
@ decreases n - _k1
        {
            let _idx = &_k1;
            let _cost = multigraph.at(vertex, _k1).0;
            let times = multigraph.at(vertex, _k1).1;
            if times != 0 {
                _r1 = Some(_k1);
            }
            _k1 = _k1 + 1;
        }
        if _r1.is_none() {
@ proof { assert forall|j: int| 0 <= j < n implies 0 <= #[trigger] c1(vertex as int, j) by {} stuck_home(n, c1, degree@, start_vertex as int, vertex as int); }
            break;
        }
        let _j1: usize = _r1.unwrap();
        let idx = _j1;
@ proof { mg_pos(n, c1, d1, vertex as int, idx as int); dsum_nonneg(d1); }
        let neighbour = multigraph.at_mut(vertex, _j1);
        cycle.push(idx);
        runtime_check(neighbour.1 > 0);
        neighbour.1 = neighbour.1 - 1;
        runtime_check(multigraph.at(idx, vertex).1 > 0);
        let _p1 = multigraph.at_mut(idx, vertex);
        _p1.1 = _p1.1 - 1;
        runtime_check(degree[vertex] > 0);
        degree[vertex] = degree[vertex] - 1;
        runtime_check(degree[idx] > 0);
        degree[idx] = degree[idx] - 1;
@ proof {
@     let c2 = mc(*multigraph);
@     assert(less_edge(n, c1, c2, v1 as int, idx as int));
@     mg_step(n, c1, d1, c2, degree@, v1 as int, idx as int, start_vertex as int);
@     walked_push(n, c0, c1, c2, p1, idx); dsum_nonneg(degree@);
@     assert forall|i: int| 0 <= i < cycle@.len() implies #[trigger] cycle@[i] < n by { if i < p1.len() { assert(cycle@[i] == p1[i]); } }
@ }
        vertex = idx;
    }
    cycle
}
//# end
//# fn christofides::eulerian_cycle_from_multigraph
fn eulerian_cycle_from_multigraph(mut multigraph: DMatrix<(f64, usize)>) -> (ret: Vec<usize>)
@ requires euler_ready(multigraph), 2 * multigraph.nr() + 1 <= usize::MAX
@ ensures ret@.len() >= 1, ret@[0] == 0, ret@[ret@.len() - 1] == 0, in_range(ret@, multigraph.nr()), forall|v: int| 0 <= v < multigraph.nr() ==> has(ret@, v),
@     forall|i: int, j: int| 0 <= i < multigraph.nr() && 0 <= j < multigraph.nr() ==> #[trigger] uocc(path_edges(ret@), i, j) == mc(multigraph)(i, j),
{
@ let ghost n = multigraph.nr(); let ghost c0 = mc(multigraph);
    let dim = multigraph.shape().0;
    let mut euler_cycle = Vec::with_capacity(2 * dim + 1);
@ let ghost _ty: Seq<usize> = euler_cycle@;
    let mut _c1 = Vec::new();
@ let ghost _tz: Seq<usize> = _c1@;
    let mut _k1: usize = 0;
    while _k1 < multigraph.ncols()
@ invariant square(multigraph, n), c0 == mc(multigraph), small(n, c0), 2 * n + 1 <= usize::MAX, _c1@.len() == _k1, _k1 <= n, forall|v: int| 0 <= v < _k1 ==> #[trigger] _c1@[v] == colsum(c0, v, n as int),
@ decreases n - _k1
    {
        let mut _a1 = sum_zero();
        let mut _k2: usize = 0;
        while _k2 < multigraph.nrows()
@ invariant square(multigraph, n), c0 == mc(multigraph), small(n, c0), 2 * n + 1 <= usize::MAX, _k1 < n, _k2 <= n, _a1 as int == colsum(c0, _k1 as int, _k2 as int),
@ decreases n - _k2
        {
            let times = multigraph.at(_k2, _k1).1;
@ proof { assert(c0(_k2 as int, _k1 as int) == times); colsum_bounds(c0, _k1 as int, _k2 as int, n as int, 2); assert(times <= 2); }
            _a1 = sum_add(_a1, times);
            _k2 = _k2 + 1;
        }
        _c1.push(_a1);
        _k1 = _k1 + 1;
    }
    let mut degree: Vec<usize> = _c1;
    euler_cycle.push(0);
@ proof {
@     assert(path_edges(euler_cycle@) =~= Seq::<E2>::empty()); assert(walked(n, c0, c0, euler_cycle@));
@     assert forall|u: int| 0 <= u < degree@.len() implies (#[trigger] degree@[u]) % 2 == 0 by { assert(even_cols(n, c0)); assert(colsum(c0, u, n as int) % 2 == 0); }
@ }
    loop
@ invariant n >= 1, n == degree@.len(), euler_cycle@.len() >= 1, euler_cycle@[0] == 0, euler_cycle@[euler_cycle@.len() - 1] == 0, in_range(euler_cycle@, n),
@     square(multigraph, n), mg_ok(n, mc(multigraph), degree@), evens(degree@), walked(n, c0, mc(multigraph), euler_cycle@),
@ ensures forall|k: int| 0 <= k < euler_cycle@.len() ==> degree@[#[trigger] euler_cycle@[k] as int] == 0,
@ decreases dsum(degree@),
    {
@ let ghost c1 = mc(multigraph); let ghost d1 = degree@; let ghost p = euler_cycle@;
        let mut _r1: Option<usize> = None;
        let mut _k3: usize = 0;
        while _r1.is_none() && _k3 < euler_cycle.it_len()
@ invariant p == euler_cycle@, d1 == degree@, n == degree@.len(), in_range(p, n), _k3 <= p.len(), _r1 is None ==> forall|k: int| 0 <= k < _k3 ==> d1[#[trigger] p[k] as int] == 0, _r1 is Some ==> _r1.unwrap() < _k3 && d1[p[_r1.unwrap() as int] as int] > 0,
@ decreases p.len() - _k3
        {
            let _idx = &_k3;
            let vertex = *euler_cycle.it_at(_k3);
            if degree[vertex] != 0 {
                _r1 = Some(_k3);
            }
            _k3 = _k3 + 1;
        }
        if _r1.is_none() {
            break;
        }
        let _j1: usize = _r1.unwrap();
        let vertex_idx_in_cycle = _j1;
        let vertex = *euler_cycle.it_at(_j1);
        let cycle = find_cycle(vertex, &mut multigraph, &mut degree);
@ proof { dsum_nonneg(degree@); }
        let tail = euler_cycle.split_off(vertex_idx_in_cycle + 1);
        euler_cycle.extend_from_slice(&cycle[1..]);
        euler_cycle.extend_from_slice(&tail);
@ proof {
@     let k = _j1 as int; let y = cycle@; let c2 = mc(multigraph);
@     assert(euler_cycle@ =~= splice(p, k, y));
@     splice_ends(p, k, y, n);
@     assert forall|i: int, j: int| 0 <= i < n && 0 <= j < n implies uocc(path_edges(euler_cycle@), i, j) + #[trigger] c2(i, j) == c0(i, j) by { splice_count(p, k, y, i, j); assert(uocc(path_edges(y), i, j) + c2(i, j) == c1(i, j)); assert(uocc(path_edges(p), i, j) + c1(i, j) == c0(i, j)); }
@ }
    }
@ proof { walk_covers(n, c0, mc(multigraph), degree@, euler_cycle@); }
    euler_cycle
}
//# end
/// every entry is at most 2
pub open spec fn small(n: nat, c: Cnt) -> bool { forall|i: int, j: int| 0 <= i < n && 0 <= j < n ==> 0 <= #[trigger] c(i, j) <= 2 }
pub open spec fn even_cols(n: nat, c: Cnt) -> bool { forall|v: int| 0 <= v < n ==> #[trigger] colsum(c, v, n as int) % 2 == 0 }
/// connected, all degrees even, edges given in both directions, no loops
pub open spec fn euler_ready(g: DMatrix<(f64, usize)>) -> bool { g.nr() >= 1 && square(g, g.nr()) && cnt_ok(g.nr(), mc(g)) && small(g.nr(), mc(g)) && even_cols(g.nr(), mc(g)) && cnt_connected(g.nr(), mc(g)) }
pub open spec fn ref_at(o: Option<&usize>, s: Seq<usize>) -> bool { o is Some ==> exists|i: int| 0 <= i < s.len() && s[i] == *o.unwrap() }
/// the entries of s whose flag is set, in order
pub open spec fn flagged(s: Seq<usize>, f: Seq<(usize, bool)>) -> Seq<usize> decreases s.len() { if s.len() == 0 { Seq::empty() } else { let r = flagged(s.drop_last(), f); if f[s.len() - 1].1 { r.push(s[s.len() - 1]) } else { r } } }
/// the flag of a position says whether its entry occurs there for the first time
pub open spec fn first_flags(s: Seq<usize>, f: Seq<(usize, bool)>, k: int) -> bool { forall|i: int| 0 <= i < k ==> (#[trigger] f[i]).1 == !s.subrange(0, i).contains(s[i]) }
proof fn flagged_firsts(s: Seq<usize>, f: Seq<(usize, bool)>, k: int) requires 0 <= k <= s.len(), first_flags(s, f, s.len() as int) ensures flagged(s.subrange(0, k), f) == firsts(s.subrange(0, k)) decreases k
{ if k > 0 { flagged_firsts(s, f, k - 1); assert(s.subrange(0, k).drop_last() =~= s.subrange(0, k - 1)); assert(f[k - 1].1 == !s.subrange(0, k - 1).contains(s[k - 1])); } }
//# fn christofides::hamiltonian_from_eulerian_cycle
fn hamiltonian_from_eulerian_cycle(dim: usize, euler_cycle: &mut Vec<usize>)
@ requires old(euler_cycle)@.len() >= 1, in_range(old(euler_cycle)@, dim as nat),
@ ensures final(euler_cycle)@ == firsts(old(euler_cycle)@).push(old(euler_cycle)@[0]),
{
@ let ghost s = euler_cycle@;
    let mut _m1 = None;
    let mut _k1: usize = 0;
    while _k1 < euler_cycle.it_len()
@ invariant s == euler_cycle@, _k1 <= s.len(), ref_at(_m1, s), _k1 > 0 ==> _m1 is Some,
@ decreases s.len() - _k1
    {
        let _x1 = euler_cycle.it_at(_k1);
        let _t1 = if let Some(_b1) = opt_like(&_m1, &_x1) {
            !key_lt(_x1, *_b1)
        } else {
            true
        };
        if _t1 {
            _m1 = Some(_x1);
        }
        _k1 = _k1 + 1;
    }
    runtime_check(dim >= *_m1.unwrap());
    let mut visited = vec_from_elem(false, dim);
    let mut _c1 = Vec::new();
@ let ghost _ty: Seq<(usize, bool)> = _c1@;
    let mut _k2: usize = 0;
    while _k2 < euler_cycle.it_len()
@ invariant s == euler_cycle@, _k2 <= s.len(), _c1@.len() == _k2, forall|i: int| 0 <= i < _k2 ==> #[trigger] _c1@[i] == (s[i], false),
@ decreases s.len() - _k2
    {
        let i = *euler_cycle.it_at(_k2);
        _c1.push((i, false));
        _k2 = _k2 + 1;
    }
    let mut is_in_ham_cycle: Vec<(usize, bool)> = _c1;
    let mut _k3: usize = 0;
    while _k3 < is_in_ham_cycle.it_len()
@ invariant s == euler_cycle@, in_range(s, dim as nat), _k3 <= s.len(), is_in_ham_cycle@.len() == s.len(), visited@.len() == dim, forall|i: int| 0 <= i < s.len() ==> (#[trigger] is_in_ham_cycle@[i]).0 == s[i],
@     forall|i: int| _k3 <= i < s.len() ==> !(#[trigger] is_in_ham_cycle@[i]).1, first_flags(s, is_in_ham_cycle@, _k3 as int), forall|v: int| 0 <= v < dim ==> #[trigger] visited@[v] == s.subrange(0, _k3 as int).contains(v as usize),
@ decreases s.len() - _k3
    {
@ let ghost f0 = is_in_ham_cycle@; let ghost v0 = visited@;
        let pair = &mut is_in_ham_cycle[_k3];
        let i = pair.0;
        let in_cycle = &mut pair.1;
@ assert(f0[_k3 as int].0 == s[_k3 as int]); assert(s[_k3 as int] < dim);
        if !visited[i] {
            visited[i] = true;
            *in_cycle = true;
        }
@ proof {
@     let q = s.subrange(0, _k3 as int); let r = s.subrange(0, _k3 + 1); let k = _k3 as int; assert(r =~= q.push(i));
@     assert(v0[i as int] == q.contains(i));
@     assert forall|v: int| 0 <= v < dim implies #[trigger] visited@[v] == r.contains(v as usize) by {
@         assert(v0[v] == q.contains(v as usize));
@         assert(r.contains(v as usize) <==> q.contains(v as usize) || v == i) by { assert(r[k] == i); if q.contains(v as usize) { let x = choose|x: int| 0 <= x < q.len() && q[x] == v as usize; assert(r[x] == v as usize); } if r.contains(v as usize) { let x = choose|x: int| 0 <= x < r.len() && r[x] == v as usize; if x < k { assert(q[x] == v as usize); } } }
@     }
@     assert forall|x: int| 0 <= x < _k3 + 1 implies (#[trigger] is_in_ham_cycle@[x]).1 == !s.subrange(0, x).contains(s[x]) by { if x < k { assert(is_in_ham_cycle@[x] == f0[x]); } else { assert(!f0[k].1); } }
@     assert forall|x: int| 0 <= x < s.len() implies (#[trigger] is_in_ham_cycle@[x]).0 == s[x] by { assert(f0[x].0 == s[x]); }
@ }
        _k3 = _k3 + 1;
    }
@ let ghost f = is_in_ham_cycle@;
    let mut is_in_cycle_iter = is_in_ham_cycle.into_viter();
    let mut _c2 = Vec::new();
@ let ghost _tz: Seq<usize> = _c2@;
@ proof { assert(f.subrange(0, f.len() as int) =~= f); assert(s.subrange(0, 0) =~= Seq::<usize>::empty()); }
    let mut _k4: usize = 0;
    while _k4 < euler_cycle.it_len()
@ invariant s == euler_cycle@, _k4 <= s.len(), f.len() == s.len(), is_in_cycle_iter.rest() == f.subrange(_k4 as int, s.len() as int), _c2@ == flagged(s.subrange(0, _k4 as int), f),
@ decreases s.len() - _k4
    {
@ proof { assert(s.subrange(0, _k4 + 1).drop_last() =~= s.subrange(0, _k4 as int)); assert(f.subrange(_k4 as int, s.len() as int).subrange(1, s.len() - _k4) =~= f.subrange(_k4 + 1, s.len() as int)); }
        let (_, in_cycle) = is_in_cycle_iter.next().unwrap();
        let _t2 = in_cycle;
        if _t2 {
            _c2.push(*euler_cycle.it_at(_k4));
        }
        _k4 = _k4 + 1;
    }
@ proof { flagged_firsts(s, f, s.len() as int); assert(s.subrange(0, s.len() as int) =~= s); firsts_facts(s); }
    euler_cycle.vec_assign(_c2);
    euler_cycle.push(*euler_cycle.first().unwrap());
}
//# end
// ---- the multigraph ----
/// ... among the first k edges of i
pub open spec fn edge_to_upto(g: Graph, i: int, k: int, j: int) -> bool { exists|x: int| 0 <= x < k && (#[trigger] adj(g, i)[x]).to == j }
pub open spec fn undirected(g: Graph) -> bool { forall|i: int, j: int| 0 <= i < gn(g) && 0 <= j < gn(g) ==> #[trigger] edge_to(g, i, j) == edge_to(g, j, i) }
pub open spec fn ind(b: bool) -> int { if b { 1 } else { 0 } }
/// the pairs of a matching as edges
pub open spec fn medges(m: Seq<[usize; 2]>) -> Seq<E2> { Seq::new(m.len(), |k: int| (m[k]@[0] as int, m[k]@[1] as int)) }
/// no vertex occurs twice
pub open spec fn disjoint(m: Seq<[usize; 2]>) -> bool { forall|v: int| #[trigger] occ(m, v) <= 1real }
proof fn occ_nonneg(m: Seq<[usize; 2]>, v: int) ensures occ(m, v) >= 0real decreases m.len() { if m.len() > 0 { occ_nonneg(m.drop_last(), v); } }
proof fn medges_last(m: Seq<[usize; 2]>) requires m.len() > 0 ensures medges(m).drop_last() == medges(m.drop_last()), medges(m)[m.len() - 1] == (m[m.len() - 1]@[0] as int, m[m.len() - 1]@[1] as int) { assert(medges(m).drop_last() =~= medges(m.drop_last())); }
proof fn disjoint_prefix(m: Seq<[usize; 2]>) requires disjoint(m), m.len() > 0 ensures disjoint(m.drop_last())
{ assert forall|v: int| #[trigger] occ(m.drop_last(), v) <= 1real by { assert(occ(m, v) <= 1real); assert(pair_occ(v)(m[m.len() - 1]) >= 0real); } }
/// a pair occurs at most as often as its ends
proof fn uocc_occ(m: Seq<[usize; 2]>, i: int, j: int) ensures uocc(medges(m), i, j) as real <= occ(m, i), uocc(medges(m), i, j) as real <= occ(m, j) decreases m.len()
{ if m.len() > 0 { uocc_occ(m.drop_last(), i, j); medges_last(m); } }
/// the pairs of a matching without repeated vertices concern different entries of the matrix
proof fn cells_disjoint(m: Seq<[usize; 2]>, k: int, l: int) requires disjoint(m), 0 <= k < m.len(), 0 <= l < m.len()
    ensures m[k]@[0] != m[k]@[1], k != l ==> m[k]@[0] != m[l]@[0] && m[k]@[0] != m[l]@[1] && m[k]@[1] != m[l]@[0] && m[k]@[1] != m[l]@[1] decreases m.len()
{
    let h = m.len() - 1; let r = m.drop_last();
    disjoint_prefix(m);
    if k < h && l < h { cells_disjoint(r, k, l); }
    else if k == l { let v = m[h]@[0] as int; occ_nonneg(r, v); assert(occ(m, v) <= 1real); }
    else {
        let x = if k < h { k } else { l };
        cells_disjoint_last(m, x, 0); cells_disjoint_last(m, x, 1);
        let v = m[h]@[0] as int; occ_nonneg(r, v); assert(occ(m, v) <= 1real);
        if x < h { cells_disjoint(r, x, x); }
    }
}
proof fn cells_disjoint_last(m: Seq<[usize; 2]>, x: int, e: int) requires disjoint(m), 0 <= x < m.len() - 1, e == 0 || e == 1 ensures m[x]@[e] != m[m.len() - 1]@[0], m[x]@[e] != m[m.len() - 1]@[1]
{ let v = m[x]@[e] as int; let r = m.drop_last(); ssum_remove(r, x, pair_occ(v)); occ_nonneg(r.remove(x), v); assert(occ(m, v) <= 1real); }
/// counts: 1 for an edge of the tree, 1 for each pair of the matching
pub open spec fn counts_are(g: DMatrix<(f64, usize)>, n: nat, t: Graph, m: Seq<[usize; 2]>) -> bool { forall|i: int, j: int| 0 <= i < n && 0 <= j < n ==> #[trigger] mc(g)(i, j) == ind(edge_to(t, i, j)) + uocc(medges(m), i, j) }
proof fn counts_step(g0: DMatrix<(f64, usize)>, g1: DMatrix<(f64, usize)>, n: nat, t: Graph, m: Seq<[usize; 2]>) requires m.len() > 0, counts_are(g0, n, t, m.drop_last()), ({ let e = m[m.len() - 1]; forall|i: int, j: int| 0 <= i < n && 0 <= j < n ==> #[trigger] mc(g1)(i, j) == mc(g0)(i, j) + ind(same((e@[0] as int, e@[1] as int), i, j)) })
    ensures counts_are(g1, n, t, m)
{ medges_last(m); assert forall|i: int, j: int| 0 <= i < n && 0 <= j < n implies #[trigger] mc(g1)(i, j) == ind(edge_to(t, i, j)) + uocc(medges(m), i, j) by { assert(mc(g0)(i, j) == ind(edge_to(t, i, j)) + uocc(medges(m.drop_last()), i, j)); } }
/// the cells touched by the first k pairs
pub open spec fn owned_by(w: Map<int, int>, m: Seq<[usize; 2]>, n: nat, k: int) -> bool { forall|c: int| #[trigger] w.dom().contains(c) ==> touched(m, n, k, c) }
pub open spec fn touched(m: Seq<[usize; 2]>, n: nat, k: int, c: int) -> bool { exists|x: int| 0 <= x < k && (c == #[trigger] m[x]@[1] * n + m[x]@[0] || c == m[x]@[0] * n + m[x]@[1]) }
proof fn cells_free(w: Map<int, int>, m: Seq<[usize; 2]>, n: nat, k: int) requires owned_by(w, m, n, k), disjoint(m), pairs_in(m, n), 0 <= k < m.len()
    ensures !w.dom().contains(m[k]@[1] * n + m[k]@[0]), !w.dom().contains(m[k]@[0] * n + m[k]@[1]), touched(m, n, k + 1, m[k]@[1] * n + m[k]@[0]), touched(m, n, k + 1, m[k]@[0] * n + m[k]@[1]), forall|c: int| #[trigger] touched(m, n, k, c) ==> touched(m, n, k + 1, c)
{
    cell_free(w, m, n, k, m[k]@[1] as int, m[k]@[0] as int); cell_free(w, m, n, k, m[k]@[0] as int, m[k]@[1] as int);
    assert forall|c: int| #[trigger] touched(m, n, k, c) implies touched(m, n, k + 1, c) by { let x = choose|x: int| 0 <= x < k && (c == #[trigger] m[x]@[1] * n + m[x]@[0] || c == m[x]@[0] * n + m[x]@[1]); assert(c == m[x]@[1] * n + m[x]@[0] || c == m[x]@[0] * n + m[x]@[1]); }
}
proof fn cell_free(w: Map<int, int>, m: Seq<[usize; 2]>, n: nat, k: int, a: int, b: int) requires owned_by(w, m, n, k), disjoint(m), pairs_in(m, n), 0 <= k < m.len(), a == m[k]@[1] && b == m[k]@[0] || a == m[k]@[0] && b == m[k]@[1] ensures !w.dom().contains(a * n + b)
{
    let c = a * n + b; assert(pair_in(m[k], n)); flat(n as int, b, a);
    if w.dom().contains(c) { let x = choose|x: int| 0 <= x < k && (c == #[trigger] m[x]@[1] * n + m[x]@[0] || c == m[x]@[0] * n + m[x]@[1]); assert(pair_in(m[x], n)); flat(n as int, m[x]@[0] as int, m[x]@[1] as int); flat(n as int, m[x]@[1] as int, m[x]@[0] as int); cells_disjoint(m, k, x); }
}
proof fn flat(n: int, i: int, j: int) requires 0 <= i < n, 0 <= j < n ensures 0 <= j * n <= j * n + i < n * n, (j * n + i) % n == i, (j * n + i) / n == j
{
    assert(j * n + n <= n * n) by (nonlinear_arith) requires 0 <= j < n;
    assert(0 <= j * n) by (nonlinear_arith) requires 0 <= j, 0 < n;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(j * n + i, n, j, i);
}
//# fn christofides::fill_multigraph_with_mst_and_matching
fn fill_multigraph_with_mst_and_matching<const MODE: usize>(base_graph: &NAMatrix, mst: &Graph, matching: Vec<[usize; 2]>) -> (ret: DMatrix<(f64, usize)>)
@ requires MODE <= 1, na_mat(*base_graph).sq, base_graph.0.nr() * base_graph.0.nr() <= usize::MAX, gn(*mst) == base_graph.0.nr(), targets_ok(*mst), undirected(*mst), pairs_in(matching@, base_graph.0.nr()), disjoint(matching@),
@ ensures square(ret, base_graph.0.nr()), counts_are(ret, base_graph.0.nr(), *mst, matching@),
{
@ let ghost n = base_graph.0.nr(); let ghost ms = matching@;
    let mut _c1 = DMatrix::with_shape(base_graph.nrows(), base_graph.ncols());
    let mut _k1: usize = 0;
    while _k1 < base_graph.nrows()
@ invariant na_mat(*base_graph).sq, n == base_graph.0.nr(), square(_c1, n), _k1 <= n, forall|i: int, j: int| 0 <= i < _k1 && 0 <= j < n ==> #[trigger] mc(_c1)(i, j) == 0,
@ decreases n - _k1
    {
        let mut _k2: usize = 0;
        while _k2 < base_graph.ncols()
@ invariant na_mat(*base_graph).sq, n == base_graph.0.nr(), square(_c1, n), _k1 < n, _k2 <= n, forall|i: int, j: int| 0 <= i < _k1 && 0 <= j < n || i == _k1 && 0 <= j < _k2 ==> #[trigger] mc(_c1)(i, j) == 0,
@ decreases n - _k2
        {
            let cost = base_graph.at(_k1, _k2);
@ let ghost g0 = _c1;
            _c1.put(_k1, _k2, (cost, 0));
@ assert forall|i: int, j: int| 0 <= i < _k1 && 0 <= j < n || i == _k1 && 0 <= j < _k2 + 1 implies #[trigger] mc(_c1)(i, j) == 0 by { if i < _k1 || j < _k2 { assert(mc(g0)(i, j) == 0); } }
            _k2 = _k2 + 1;
        }
        _k1 = _k1 + 1;
    }
    let mut multigraph = _c1;
    if MODE == 0 {
        let mut _k3: usize = 0;
        while _k3 < mst.vertices.it_len() && _k3 < multigraph.nrows()
@ invariant square(multigraph, n), gn(*mst) == n, targets_ok(*mst), _k3 <= n, forall|i: int, j: int| 0 <= i < n && 0 <= j < n ==> #[trigger] mc(multigraph)(i, j) == ind(i < _k3 && edge_to(*mst, i, j)),
@ decreases n - _k3
        {
            let vertex = mst.vertices.it_at(_k3);
            let mut _k5: usize = 0;
            while _k5 < vertex.it_len()
@ invariant square(multigraph, n), gn(*mst) == n, targets_ok(*mst), _k3 < n, vertex.edges@ == adj(*mst, _k3 as int), _k5 <= vertex.edges@.len(), forall|i: int, j: int| 0 <= i < n && 0 <= j < n ==> #[trigger] mc(multigraph)(i, j) == ind(i < _k3 && edge_to(*mst, i, j) || i == _k3 && edge_to_upto(*mst, i, _k5 as int, j)),
@ decreases vertex.edges@.len() - _k5
            {
                let to = (*vertex.it_at(_k5)).to;
                let cost = (*vertex.it_at(_k5)).cost;
@ proof { assert(mst.vertices@[_k3 as int].edges@[_k5 as int].to == to); assert(to < n); assert(adj(*mst, _k3 as int)[_k5 as int].to == to); }
@ let ghost g0 = multigraph;
                multigraph.put(_k3, to, (cost, 1));
@ proof { upto_step(*mst, _k3 as int, _k5 as int); assert forall|i: int, j: int| 0 <= i < n && 0 <= j < n implies #[trigger] mc(multigraph)(i, j) == ind(i < _k3 && edge_to(*mst, i, j) || i == _k3 && edge_to_upto(*mst, i, _k5 + 1, j)) by { assert(mc(g0)(i, j) == ind(i < _k3 && edge_to(*mst, i, j) || i == _k3 && edge_to_upto(*mst, i, _k5 as int, j))); } }
                _k5 = _k5 + 1;
            }
            _k3 = _k3 + 1;
        }
    } else if MODE == 1 {
        let mut _k6: usize = 0;
        while _k6 < mst.vertices.it_len() && _k6 < multigraph.ncols()
@ invariant square(multigraph, n), gn(*mst) == n, targets_ok(*mst), _k6 <= n, forall|i: int, j: int| 0 <= i < n && 0 <= j < n ==> #[trigger] mc(multigraph)(j, i) == ind(i < _k6 && edge_to(*mst, i, j)),
@ decreases n - _k6
        {
            let vertex = mst.vertices.it_at(_k6);
            let mut _k8: usize = 0;
            while _k8 < vertex.it_len()
@ invariant square(multigraph, n), gn(*mst) == n, targets_ok(*mst), _k6 < n, vertex.edges@ == adj(*mst, _k6 as int), _k8 <= vertex.edges@.len(), forall|i: int, j: int| 0 <= i < n && 0 <= j < n ==> #[trigger] mc(multigraph)(j, i) == ind(i < _k6 && edge_to(*mst, i, j) || i == _k6 && edge_to_upto(*mst, i, _k8 as int, j)),
@ decreases vertex.edges@.len() - _k8
            {
                let to = (*vertex.it_at(_k8)).to;
                let cost = (*vertex.it_at(_k8)).cost;
@ proof { assert(mst.vertices@[_k6 as int].edges@[_k8 as int].to == to); assert(to < n); assert(adj(*mst, _k6 as int)[_k8 as int].to == to); }
@ let ghost g0 = multigraph;
                multigraph.put(to, _k6, (cost, 1));
@ proof { upto_step(*mst, _k6 as int, _k8 as int); assert forall|i: int, j: int| 0 <= i < n && 0 <= j < n implies #[trigger] mc(multigraph)(j, i) == ind(i < _k6 && edge_to(*mst, i, j) || i == _k6 && edge_to_upto(*mst, i, _k8 + 1, j)) by { assert(mc(g0)(j, i) == ind(i < _k6 && edge_to(*mst, i, j) || i == _k6 && edge_to_upto(*mst, i, _k8 as int, j))); } }
                _k8 = _k8 + 1;
            }
            _k6 = _k6 + 1;
        }
    } else {
        panic_on_invaid_mode::<MODE>()
    }
@ proof {
@     assert(ms.subrange(0, 0) =~= Seq::<[usize; 2]>::empty()); assert(medges(ms.subrange(0, 0)) =~= Seq::<E2>::empty());
@     assert(counts_are(multigraph, n, *mst, ms.subrange(0, 0))) by { assert forall|i: int, j: int| 0 <= i < n && 0 <= j < n implies #[trigger] mc(multigraph)(i, j) == ind(edge_to(*mst, i, j)) + uocc(medges(ms.subrange(0, 0)), i, j) by { assert(edge_to(*mst, i, j) == edge_to(*mst, j, i)); } }
@ }
    if MODE == 0 {
        let mut _s1 = matching;
        let mut _k9: usize = 0;
        while _k9 < _s1.it_len()
@ invariant square(multigraph, n), ms == _s1@, pairs_in(ms, n), disjoint(ms), _k9 <= ms.len(), counts_are(multigraph, n, *mst, ms.subrange(0, _k9 as int)),
@ decreases ms.len() - _k9
        {
            let _d1 = _s1.it_take(_k9);
            let i = _d1[0];
            let j = _d1[1];
@ let ghost g0 = multigraph; proof { pair_room(ms, _k9 as int, n); assert(g0.e(i as int, j as int).1 == mc(g0)(i as int, j as int)); assert(g0.e(j as int, i as int).1 == mc(g0)(j as int, i as int)); }
            let _p1 = multigraph.at_mut(i, j);
            _p1.1 = _p1.1 + 1;
            let _p2 = multigraph.at_mut(j, i);
            _p2.1 = _p2.1 + 1;
@ proof { assert(ms.subrange(0, _k9 + 1).drop_last() =~= ms.subrange(0, _k9 as int)); counts_step(g0, multigraph, n, *mst, ms.subrange(0, _k9 + 1)); }
            _k9 = _k9 + 1;
        }
@ assert(ms.subrange(0, ms.len() as int) =~= ms);
        ()
    } else if MODE == 1 {
        let dim = multigraph.shape().0;
        let mut _s2 = matching;
        let mut _w1 = Owners::new();
        let mut _k10: usize = 0;
        while _k10 < _s2.it_len()
@ invariant owned_by(_w1.m@, ms, n, _k10 as int), dim == n, n * n <= usize::MAX, square(multigraph, n), ms == _s2@, pairs_in(ms, n), disjoint(ms), _k10 <= ms.len(), counts_are(multigraph, n, *mst, ms.subrange(0, _k10 as int)),
@ decreases ms.len() - _k10
        {
            let _d2 = _s2.it_take(_k10);
            let i = _d2[0];
            let j = _d2[1];
@ let ghost g0 = multigraph; proof { pair_room(ms, _k10 as int, n); assert(g0.e(i as int, j as int).1 == mc(g0)(i as int, j as int)); assert(g0.e(j as int, i as int).1 == mc(g0)(j as int, i as int)); flat(n as int, i as int, j as int); flat(n as int, j as int, i as int); }
@ proof { cells_free(_w1.m@, ms, n, _k10 as int); }
            own_cell(&mut _w1, j * dim + i, _k10);
            let _p3 = multigraph.ptr_mut(j * dim + i);
            _p3.1 = _p3.1 + 1;
            own_cell(&mut _w1, i * dim + j, _k10);
            let _p4 = multigraph.ptr_mut(i * dim + j);
            _p4.1 = _p4.1 + 1;
@ proof { assert(ms.subrange(0, _k10 + 1).drop_last() =~= ms.subrange(0, _k10 as int)); counts_step(g0, multigraph, n, *mst, ms.subrange(0, _k10 + 1)); }
            _k10 = _k10 + 1;
        }
@ assert(ms.subrange(0, ms.len() as int) =~= ms);
    } else {
        panic_on_invaid_mode::<MODE>()
    }
    multigraph
}
//# end
proof fn upto_step(g: Graph, i: int, k: int) requires 0 <= k < adj(g, i).len() ensures forall|j: int| #[trigger] edge_to_upto(g, i, k + 1, j) == (edge_to_upto(g, i, k, j) || adj(g, i)[k].to == j), forall|j: int| #[trigger] edge_to_upto(g, i, adj(g, i).len() as int, j) == edge_to(g, i, j), forall|j: int| !(#[trigger] edge_to_upto(g, i, 0, j))
{ assert forall|j: int| #[trigger] edge_to_upto(g, i, k + 1, j) == (edge_to_upto(g, i, k, j) || adj(g, i)[k].to == j) by { if adj(g, i)[k].to == j { assert(edge_to_upto(g, i, k + 1, j)); } if edge_to_upto(g, i, k, j) { let x = choose|x: int| 0 <= x < k && (#[trigger] adj(g, i)[x]).to == j; assert(adj(g, i)[x].to == j); } } }
/// pair k joins different existing vertices, and no earlier pair joins them
proof fn pair_room(m: Seq<[usize; 2]>, k: int, n: nat) requires disjoint(m), pairs_in(m, n), 0 <= k < m.len() ensures ({ let i = m[k]@[0] as int; let j = m[k]@[1] as int; 0 <= i < n && 0 <= j < n && i != j && uocc(medges(m.subrange(0, k)), i, j) <= 1 && uocc(medges(m.subrange(0, k)), j, i) <= 1 })
{
    assert(pair_in(m[k], n)); cells_disjoint(m, k, k); let i = m[k]@[0] as int; let j = m[k]@[1] as int; let p = m.subrange(0, k);
    disjoint_upto(m, k); uocc_occ(p, i, j); uocc_occ(p, j, i); assert(occ(p, i) <= 1real);
}
proof fn disjoint_upto(m: Seq<[usize; 2]>, k: int) requires disjoint(m), 0 <= k <= m.len() ensures disjoint(m.subrange(0, k)) decreases m.len() - k
{ if k < m.len() { disjoint_upto(m, k + 1); assert(m.subrange(0, k + 1).drop_last() =~= m.subrange(0, k)); disjoint_prefix(m.subrange(0, k + 1)); } else { assert(m.subrange(0, k) =~= m); } }
// ---- the tree ----
pub open spec fn all_of(n: nat) -> P { rest_of(n, Seq::empty()) }
proof fn all_is_vset(n: nat) ensures all_of(n) == vset(n) { assert(all_of(n) =~= vset(n)) by { assert forall|a: int| #[trigger] all_of(n)(a) == vset(n)(a) by { assert(!Seq::<usize>::empty().contains(a as usize)); } } }
/// the tree behind a minimum spanning tree of all cities
pub open spec fn tree_of(m: Mat, g: Graph) -> Seq<E2> { mst_of(m, Seq::empty(), g) }
proof fn grown_loopless(vs: Seq<int>, t: Seq<E2>) requires grown(vs, t) ensures loopless(t)
{ assert forall|k: int| 0 <= k < t.len() implies (#[trigger] t[k]).0 != t[k].1 by { let j = choose|j: int| 0 <= j <= k && #[trigger] vs[j] == t[k].1; assert(vs[j] != vs[k + 1]); } }
proof fn grown_prefix(vs: Seq<int>, t: Seq<E2>) requires grown(vs, t), t.len() > 0 ensures grown(vs.drop_last(), t.drop_last()), !joined_to(t.drop_last(), t[t.len() - 1].0)
{
    let w = vs.drop_last(); let r = t.drop_last(); let u = t[t.len() - 1].0; assert(u == vs[vs.len() - 1]);
    assert forall|k: int| 0 <= k < r.len() implies (#[trigger] r[k]).0 == w[k + 1] && earlier(w, k, r[k].1) && r[k].0 != u && r[k].1 != u by { assert(t[k] == r[k]); let j = choose|j: int| 0 <= j <= k && #[trigger] vs[j] == t[k].1; assert(w[j] == r[k].1); assert(vs[k + 1] != vs[vs.len() - 1]); assert(vs[j] != vs[vs.len() - 1]); }
}
pub open spec fn joined_to(l: Seq<E2>, u: int) -> bool { exists|k: int| 0 <= k < l.len() && ((#[trigger] l[k]).0 == u || l[k].1 == u) }
/// a tree has no parallel edges
proof fn grown_single(vs: Seq<int>, t: Seq<E2>, i: int, j: int) requires grown(vs, t) ensures uocc(t, i, j) <= 1 decreases t.len()
{ if t.len() > 0 { grown_prefix(vs, t); let r = t.drop_last(); grown_single(vs.drop_last(), r, i, j); uocc_pos(r, i, j); uocc_bounds(r, i, j); if same(t[t.len() - 1], i, j) && joined(r, i, j) { let k = choose|k: int| 0 <= k < r.len() && same(#[trigger] r[k], i, j); assert(joined_to(r, t[t.len() - 1].0)); } } }
pub open spec fn list_to(es: Seq<Edge>, j: int) -> bool { exists|k: int| 0 <= k < es.len() && (#[trigger] es[k]).to == j }
proof fn push_to(es: Seq<Edge>, e: Edge, j: int) ensures list_to(es.push(e), j) == (list_to(es, j) || e.to == j)
{ let a = es.push(e); if list_to(es, j) { let k = choose|k: int| 0 <= k < es.len() && (#[trigger] es[k]).to == j; assert(a[k].to == j); } if e.to == j { assert(a[es.len() as int].to == j); } if list_to(a, j) { let k = choose|k: int| 0 <= k < a.len() && (#[trigger] a[k]).to == j; if k < es.len() { assert(es[k].to == j); } } }
/// the stored lists against the list of edges
proof fn glist_facts(m: Mat, t: Seq<E2>, i: int) requires loopless(t), edges_in(t, m.n), m.n <= usize::MAX
    ensures glist(m, t, i).len() == edeg(t, i), forall|k: int| 0 <= k < glist(m, t, i).len() ==> (#[trigger] glist(m, t, i)[k]).to < m.n, forall|j: int| #[trigger] list_to(glist(m, t, i), j) == joined(t, i, j) decreases t.len()
{
    if t.len() == 0 { assert(glist(m, t, i).len() == 0); assert forall|j: int| #[trigger] list_to(glist(m, t, i), j) == joined(t, i, j) by {} }
    else {
        let r = t.drop_last(); let h = t.len() - 1; let e = t[h]; assert(edge_in(e, m.n)); assert(e.0 != e.1);
        assert(edges_in(r, m.n)) by { assert forall|x: int| 0 <= x < r.len() implies edge_in(#[trigger] r[x], m.n) by { assert(edge_in(t[x], m.n)); } }
        assert(loopless(r)) by { assert forall|x: int| 0 <= x < r.len() implies (#[trigger] r[x]).0 != r[x].1 by { assert(t[x].0 != t[x].1); } }
        glist_facts(m, r, i);
        let a = glist(m, r, i); let c = m.w(e.1, e.0);
        assert forall|j: int| #[trigger] list_to(glist(m, t, i), j) == joined(t, i, j) by {
            assert(list_to(a, j) == joined(r, i, j));
            push_to(a, Edge { to: e.1 as usize, cost: c }, j); push_to(a, Edge { to: e.0 as usize, cost: c }, j);
            uocc_pos(t, i, j); uocc_pos(r, i, j); uocc_bounds(r, i, j);
        }
    }
}
/// what the algorithm uses of the stored tree
pub open spec fn tree_facts(n: nat, t: Seq<E2>, g: Graph) -> bool {
    &&& gn(g) == n && targets_ok(g) && undirected(g) && loopless(t) && edges_in(t, n) && connects(t, vset(n), n)
    &&& forall|i: int, j: int| 0 <= i < n && 0 <= j < n ==> ind(#[trigger] edge_to(g, i, j)) == uocc(t, i, j)
    &&& forall|i: int| 0 <= i < n ==> #[trigger] adj(g, i).len() == edeg(t, i)
}
proof fn mst_tree(m: Mat, g: Graph) requires inst(m), is_mst(m, Seq::empty(), g) ensures tree_facts(m.n, tree_of(m, g), g), dir_weight(g) == 2real * tw(wf(m), tree_of(m, g))
{
    let ex = Seq::<usize>::empty(); let n = m.n;
    mst_weight(m, ex, g);
    let t = tree_of(m, g); let v = all_of(n); all_is_vset(n);
    let vs = choose|vs: Seq<int>| #[trigger] tree_by(v, vs, t);
    tree_connects(v, vs, t, n); grown_loopless(vs, t);
    assert forall|i: int| 0 <= i < n implies #[trigger] adj(g, i).len() == edeg(t, i) by { glist_facts(m, t, i); }
    assert forall|i: int, j: int| 0 <= i < n && 0 <= j < n implies ind(#[trigger] edge_to(g, i, j)) == uocc(t, i, j) by { edge_to_joined(m, t, g, i, j); grown_single(vs, t, i, j); uocc_pos(t, i, j); uocc_bounds(t, i, j); }
    assert(undirected(g)) by { assert forall|i: int, j: int| 0 <= i < gn(g) && 0 <= j < gn(g) implies #[trigger] edge_to(g, i, j) == edge_to(g, j, i) by { uocc_bounds(t, i, j); assert(ind(edge_to(g, i, j)) == uocc(t, i, j)); assert(ind(edge_to(g, j, i)) == uocc(t, j, i)); } }
    assert(targets_ok(g)) by { assert forall|i: int, k: int| 0 <= i < g.vertices@.len() && 0 <= k < g.vertices@[i].edges@.len() implies (#[trigger] g.vertices@[i].edges@[k]).to < g.vertices@.len() by { glist_facts(m, t, i); assert(adj(g, i) == glist(m, t, i)); assert(glist(m, t, i)[k].to < n); } }
}
proof fn edge_to_joined(m: Mat, t: Seq<E2>, g: Graph, i: int, j: int) requires stores(m, t, g), loopless(t), edges_in(t, m.n), m.n <= usize::MAX, 0 <= i < m.n ensures edge_to(g, i, j) == joined(t, i, j)
{ glist_facts(m, t, i); let es = adj(g, i); assert(es == glist(m, t, i)); assert(list_to(es, j) == joined(t, i, j)); if edge_to(g, i, j) { let k = choose|k: int| 0 <= k < adj(g, i).len() && (#[trigger] adj(g, i)[k]).to == j; assert(es[k].to == j); } if list_to(es, j) { let k = choose|k: int| 0 <= k < es.len() && (#[trigger] es[k]).to == j; assert(adj(g, i)[k].to == j); } }
// ---- the vertices of odd degree ----
pub open spec fn odd(g: Graph, v: int) -> bool { adj(g, v).len() % 2 == 1 }
/// the pairs consist of the vertices of odd degree, each exactly once
pub open spec fn perfect_odd(g: Graph, r: Seq<[usize; 2]>) -> bool { pairs_in(r, gn(g)) && forall|v: int| #[trigger] occ(r, v) == one_if(0 <= v < gn(g) && odd(g, v)) }
pub open spec fn odd_upto(s: Seq<usize>, g: Graph, k: int) -> bool { s.len() <= k && in_range(s, gn(g)) && forall|v: int| #[trigger] vocc(s, v) == one_if(0 <= v < k && odd(g, v)) }
pub open spec fn degsum(t: Seq<E2>, k: int) -> int decreases k { if k <= 0 { 0 } else { degsum(t, k - 1) + edeg(t, k - 1) } }
proof fn degsum_step(t: Seq<E2>, k: int) requires t.len() > 0 ensures ({ let e = t[t.len() - 1]; degsum(t, k) == degsum(t.drop_last(), k) + ind(0 <= e.0 < k) + ind(0 <= e.1 < k) }) decreases k { if k > 0 { degsum_step(t, k - 1); } }
proof fn degsum_zero(k: int) ensures degsum(Seq::<E2>::empty(), k) == 0 decreases k { if k > 0 { degsum_zero(k - 1); } }
/// every edge has two ends
proof fn handshake(t: Seq<E2>, n: nat) requires edges_in(t, n) ensures degsum(t, n as int) == 2 * t.len() decreases t.len()
{
    if t.len() == 0 { assert(t =~= Seq::<E2>::empty()); degsum_zero(n as int); }
    else { let r = t.drop_last(); assert(edge_in(t[t.len() - 1], n)); assert(edges_in(r, n)) by { assert forall|x: int| 0 <= x < r.len() implies edge_in(#[trigger] r[x], n) by { assert(edge_in(t[x], n)); } } handshake(r, n); degsum_step(t, n as int); }
}
//# fn christofides::compute_approx_matching
fn compute_approx_matching<const MODE: usize>(mst: &Graph, graph: &NAMatrix) -> (ret: Vec<[usize; 2]>)
@ requires MODE <= 1, inst(na_mat(*graph)), fits(na_mat(*graph).n), is_mst(na_mat(*graph), Seq::empty(), *mst),
@ ensures perfect_odd(*mst, ret@),
{
@ let ghost m = na_mat(*graph); let ghost g = *mst; let ghost t = tree_of(m, g); let ghost n = m.n; proof { mst_tree(m, g); }
    let mut _c1 = Vec::new();
@ let ghost _ty: Seq<usize> = _c1@;
    let mut _k1: usize = 0;
    while _k1 < mst.vertices.it_len()
@ invariant g == *mst, gn(g) == n, tree_facts(n, t, g), _k1 <= n, odd_upto(_c1@, g, _k1 as int), _c1@.len() as int % 2 == degsum(t, _k1 as int) % 2,
@ decreases n - _k1
    {
        let i = _k1;
        let vertex = mst.vertices.it_at(_k1);
@ let ghost s0 = _c1@; proof { assert(vertex.edges@ == adj(g, i as int)); assert(adj(g, i as int).len() == edeg(t, i as int)); }
        let _f1 = if vertex.degree() % 2 == 1 {
            Some(i)
        } else {
            None
        };
        if let Some(_v1) = _f1 {
            _c1.push(_v1);
        }
@ proof { assert forall|v: int| #[trigger] vocc(_c1@, v) == one_if(0 <= v < _k1 + 1 && odd(g, v)) by { assert(vocc(s0, v) == one_if(0 <= v < _k1 && odd(g, v))); ssum_push(s0, i, is_v(v)); } 
@   assert forall|x: int| 0 <= x < _c1@.len() implies #[trigger] _c1@[x] < n by { if x < s0.len() { assert(_c1@[x] == s0[x]); } } }
        _k1 = _k1 + 1;
    }
    let subgraph = _c1;
@ proof { handshake(t, n); let l = subgraph@.len(); assert(npow(l, 2) == l * l) by { reveal_with_fuel(npow, 3); assert(npow(l, 2) == l * (l * 1)); } assert(l * l <= n * n) by (nonlinear_arith) requires 0 <= l <= n; }
    let tries = usize_pow(subgraph.len(), 2);
    approx_min_cost_matching::<MODE>(graph, subgraph, tries)
}
//# end
// ---- tree and matching together ----
/// the edges of the tree and of the matching
pub open spec fn tree_and_pairs(t: Seq<E2>, mt: Seq<[usize; 2]>) -> Seq<E2> { t + medges(mt) }
proof fn medges_in(mt: Seq<[usize; 2]>, n: nat) requires pairs_in(mt, n) ensures edges_in(medges(mt), n)
{ assert forall|k: int| 0 <= k < medges(mt).len() implies edge_in(#[trigger] medges(mt)[k], n) by { assert(pair_in(mt[k], n)); } }
proof fn medges_deg(mt: Seq<[usize; 2]>, v: int) ensures edeg(medges(mt), v) as real == occ(mt, v) decreases mt.len()
{ if mt.len() > 0 { medges_deg(mt.drop_last(), v); medges_last(mt); } }
proof fn medges_cost(mt: Seq<[usize; 2]>, w: W) ensures tw(w, medges(mt)) == mcost(w, mt) decreases mt.len()
{ if mt.len() > 0 { medges_cost(mt.drop_last(), w); medges_last(mt); } }
proof fn tw_concat(w: W, a: Seq<E2>, b: Seq<E2>) ensures tw(w, a + b) == tw(w, a) + tw(w, b) decreases b.len()
{ if b.len() == 0 { assert(a + b =~= a); } else { assert((a + b).drop_last() =~= a + b.drop_last()); tw_concat(w, a, b.drop_last()); } }
proof fn perfect_disjoint(g: Graph, mt: Seq<[usize; 2]>) requires perfect_odd(g, mt) ensures disjoint(mt) { assert forall|v: int| #[trigger] occ(mt, v) <= 1real by {} }
/// the multigraph of tree and matching has an Euler walk
proof fn ready(n: nat, t: Seq<E2>, g: Graph, mt: Seq<[usize; 2]>, x: DMatrix<(f64, usize)>)
    requires n >= 1, tree_facts(n, t, g), perfect_odd(g, mt), square(x, n), counts_are(x, n, g, mt)
    ensures euler_ready(x), edges_in(tree_and_pairs(t, mt), n), forall|i: int, j: int| 0 <= i < n && 0 <= j < n ==> #[trigger] mc(x)(i, j) == uocc(tree_and_pairs(t, mt), i, j)
{
    let l = tree_and_pairs(t, mt); let me = medges(mt); let c = mc(x);
    perfect_disjoint(g, mt); medges_in(mt, n);
    assert(edges_in(l, n)) by { assert forall|k: int| 0 <= k < l.len() implies edge_in(#[trigger] l[k], n) by { if k < t.len() { assert(edge_in(t[k], n)); } else { assert(edge_in(me[k - t.len()], n)); } } }
    assert(loopless(l)) by { assert forall|k: int| 0 <= k < l.len() implies (#[trigger] l[k]).0 != l[k].1 by { if k < t.len() { assert(t[k].0 != t[k].1); } else { cells_disjoint(mt, k - t.len(), k - t.len()); } } }
    assert forall|i: int, j: int| 0 <= i < n && 0 <= j < n implies #[trigger] c(i, j) == uocc(l, i, j) && 0 <= c(i, j) <= 2 by {
        assert(ind(edge_to(g, i, j)) == uocc(t, i, j)); uocc_concat(t, me, i, j); uocc_occ(mt, i, j); assert(occ(mt, i) <= 1real); uocc_bounds(me, i, j);
    }
    assert(cnt_ok(n, c)) by {
        assert forall|i: int, j: int| 0 <= i < n && 0 <= j < n implies 0 <= #[trigger] c(i, j) == c(j, i) by { assert(c(i, j) == uocc(l, i, j) && c(j, i) == uocc(l, j, i)); uocc_bounds(l, i, j); }
        assert forall|i: int| 0 <= i < n implies #[trigger] c(i, i) == 0 by { assert(c(i, i) == uocc(l, i, i)); uocc_pos(l, i, i); uocc_bounds(l, i, i); if joined(l, i, i) { let k = choose|k: int| 0 <= k < l.len() && same(#[trigger] l[k], i, i); assert(l[k].0 != l[k].1); } }
    }
    assert(even_cols(n, c)) by {
        assert forall|v: int| 0 <= v < n implies #[trigger] colsum(c, v, n as int) % 2 == 0 by {
            assert forall|i: int| 0 <= i < n implies #[trigger] c(i, v) == uocc(l, i, v) by {}
            colsum_list(l, c, v, n, n as int); edeg_concat(t, me, v); medges_deg(mt, v); assert(occ(mt, v) == one_if(0 <= v < gn(g) && odd(g, v))); assert(adj(g, v).len() == edeg(t, v)); edeg_nonneg(t, v);
        }
    }
    assert(cnt_connected(n, c)) by {
        assert forall|p: P| #[trigger] splits(p, vset(n)) implies exists|a: int, b: int| #[trigger] exit_from(n, c, p, a, b) by {
            assert(some_cross(t, p, vset(n))); let k = choose|k: int| 0 <= k < t.len() && cross(#[trigger] t[k], p, vset(n));
            let a = if p(t[k].0) { t[k].0 } else { t[k].1 }; let b = if p(t[k].0) { t[k].1 } else { t[k].0 };
            assert(same(t[k], a, b)); uocc_pos(t, a, b); uocc_concat(t, me, a, b); uocc_bounds(me, a, b); assert(c(a, b) == uocc(l, a, b)); assert(exit_from(n, c, p, a, b));
        }
    }
}
/// tr is twice the weight of a minimum spanning tree, and mt a matching the matching computer may deliver for it
pub open spec fn used<F1: Fn(&Graph, &NAMatrix) -> Vec<[usize; 2]>>(graph: &NAMatrix, f: F1, g: Graph, mt: Vec<[usize; 2]>) -> bool { is_mst(na_mat(*graph), Seq::empty(), g) && f.ensures((&g, graph), mt) }
/// twice x is at most twice the weight of the tree and the matching used
pub open spec fn within_bound<F1: Fn(&Graph, &NAMatrix) -> Vec<[usize; 2]>>(graph: &NAMatrix, f: F1, x: real) -> bool { exists|g: Graph, mt: Vec<[usize; 2]>| #[trigger] used(graph, f, g, mt) && 2real * x <= dir_weight(g) + 2real * mcost(wf(na_mat(*graph)), mt@) }
proof fn push_facts(f: Seq<usize>, x: usize, n: nat) requires is_tour(f, n), 1 <= n <= usize::MAX, f[0] == x ensures closed_tour(f.push(x), n)
{
    let p = f.push(x); assert(p.drop_last() =~= f); assert(p[0] == f[0]);
    assert(in_range(p, n)) by { assert forall|i: int| 0 <= i < p.len() implies #[trigger] p[i] < n by { if i < f.len() { assert(p[i] == f[i]); } else { assert(f[0] < n); } } }
    assert forall|v: int| 0 <= v < n implies #[trigger] cnt(p, v) > 0 by { cnt_pos(p, v); tour_contains_all(f, n); assert(f.contains(v as usize)); let i = choose|i: int| 0 <= i < f.len() && f[i] == v as usize; assert(p[i] == v); }
}
//# fn christofides::christofides_generic
fn christofides_generic<const MODE: usize, F1: Fn(&Graph, &NAMatrix) -> Vec<[usize; 2]>>(graph: &NAMatrix, matching_computer: F1) -> (ret: Solution)
@ requires MODE <= 1, inst(na_mat(*graph)), metric(na_mat(*graph)), fits(na_mat(*graph).n),
@     forall|g: Graph| #[trigger] is_mst(na_mat(*graph), Seq::empty(), g) ==> matching_computer.requires((&g, graph)),
@     forall|g: Graph, mt: Vec<[usize; 2]>| #[trigger] used(graph, matching_computer, g, mt) ==> perfect_odd(g, mt@),
@ ensures /*C12*/ closed_tour(ret.1@, na_mat(*graph).n), /*C12*/ fin(ret.0) && rv(ret.0) == path_cost(wf(na_mat(*graph)), ret.1@),
@     /*C13*/ tri0(wf(na_mat(*graph)), na_mat(*graph).n) ==> within_bound(graph, matching_computer, rv(ret.0)),
{
@ let ghost m = na_mat(*graph); let ghost n = m.n; let ghost w = wf(m); proof { inst_facts(m); }
    let graph_matr = graph;
    runtime_check(graph_matr.is_metric());
    let mst = prim::<MODE>(graph_matr);
    let matching = matching_computer(&mst, graph_matr);
@ let ghost t = tree_of(m, mst); let ghost mt = matching; proof { assert(used(graph, matching_computer, mst, mt)); mst_tree(m, mst); perfect_disjoint(mst, mt@); }
    let multigraph = fill_multigraph_with_mst_and_matching::<MODE>(graph_matr, &mst, matching);
@ let ghost l = tree_and_pairs(t, mt@); proof { ready(n, t, mst, mt@, multigraph); }
    let mut euler_cycle = eulerian_cycle_from_multigraph(multigraph);
@ let ghost s = euler_cycle@; let ghost f = firsts(s);
    hamiltonian_from_eulerian_cycle(graph_matr.dim(), &mut euler_cycle);
@ proof { firsts_tour(s, n); firsts_facts(s); push_facts(f, 0, n); }
    let hamilton_cycle = euler_cycle;
@ let ghost h = hamilton_cycle@;
    let mut _a1: f64 = sum_zero();
    let mut _k1: usize = 0;
@ proof { assert(h.subrange(0, 1).len() == 1); assert(path_cost(w, h.subrange(0, 1)) == 0real); assert(h.len() == n + 1); }
    while _k1 < hamilton_cycle.n_windows(2)
@ invariant h == hamilton_cycle@, h.len() == n + 1, n >= 1, n < i32::MAX, in_range(h, n), m == na_mat(*graph), graph_matr == graph, w == wf(m), all_fin(m), n == m.n, _k1 <= h.len() - 1, fin(_a1) && rv(_a1) == path_cost(w, h.subrange(0, _k1 + 1)),
@ decreases h.len() - 1 - _k1
    {
        let window = hamilton_cycle.window_at(_k1, 2);
@ proof { path_cost_step(w, h, _k1 + 1); assert(h[_k1 as int] < n && h[_k1 + 1] < n); assert(fin(m.w(h[_k1 as int] as int, h[_k1 + 1] as int))); }
        _a1 = sum_add(_a1, graph_matr.at(window[0], window[1]));
        _k1 = _k1 + 1;
    }
    let sum_cost: f64 = _a1;
@ proof {
@     assert(h.subrange(0, h.len() as int) =~= h);
@     if tri0(w, n) {
@         assert forall|i: int, j: int| 0 <= i < n && 0 <= j < n implies #[trigger] uocc(path_edges(s), i, j) == uocc(l, i, j) by { assert(mc(multigraph)(i, j) == uocc(l, i, j)); }
@         path_edges_in(s, n); same_counts_weight(path_edges(s), l, w, n); path_edges_cost(w, s);
@         firsts_cost(w, n, s); path_cost_push(w, f, 0); tw_concat(w, t, medges(mt@)); medges_cost(mt@, w);
@         assert(2real * path_cost(w, h) <= dir_weight(mst) + 2real * mcost(w, mt@));
@     }
@ }
    runtime_check(is_hamiltonian_cycle(hamilton_cycle.as_slice(), graph_matr));
    (sum_cost, hamilton_cycle)
}
//# end
proof fn path_edges_in(s: Seq<usize>, n: nat) requires in_range(s, n) ensures edges_in(path_edges(s), n)
{ path_edges_at(s); assert forall|k: int| 0 <= k < path_edges(s).len() implies edge_in(#[trigger] path_edges(s)[k], n) by { assert(s[k] < n && s[k + 1] < n); } }
/// the matching of the default matching computer
pub open spec fn christofides_bound(m: Mat, x: real) -> bool { exists|g: Graph, mt: Vec<[usize; 2]>| #[trigger] is_mst(m, Seq::empty(), g) && #[trigger] perfect_odd(g, mt@) && 2real * x <= dir_weight(g) + 2real * mcost(wf(m), mt@) }
//# fn christofides::christofides
fn christofides<const MODE: usize>(graph: &NAMatrix) -> (ret: Solution)
@ requires MODE <= 1, inst(na_mat(*graph)), metric(na_mat(*graph)), fits(na_mat(*graph).n),
@ ensures /*C12*/ closed_tour(ret.1@, na_mat(*graph).n), /*C12*/ fin(ret.0) && rv(ret.0) == path_cost(wf(na_mat(*graph)), ret.1@),
@     /*C13*/ tri0(wf(na_mat(*graph)), na_mat(*graph).n) ==> christofides_bound(na_mat(*graph), rv(ret.0)),
{
    christofides_generic::<MODE, _>(graph, compute_approx_matching::<MODE>)
}
//# end
