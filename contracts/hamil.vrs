//# theory count
//# include adj
//# fn solvers::is_hamiltonian_cycle
fn is_hamiltonian_cycle<A: AdjacencyMatrix>(path: &[usize], graph: &A) -> (ret: bool)
@ requires graph.mv().sq, path@.len() <= i32::MAX
@ ensures closes(path@) ==> ret == closed_tour(path@, graph.mv().n),
@   ret ==> in_range(path@, graph.mv().n) && counts_ok(path@, graph.mv().n)
{
    let num_vertices = graph.dim();
    let mut used = vec_from_elem(0, num_vertices);
@ let ghost n = graph.mv().n;
    let mut _k1: usize = 0;
    while _k1 < path.it_len()
@ invariant n == num_vertices, n == graph.mv().n, _k1 <= path@.len(), path@.len() <= i32::MAX, used@.len() == n, in_range(path@.subrange(0, _k1 as int), n), forall|v: int| 0 <= v < n ==> #[trigger] used@[v] == cnt(path@.subrange(0, _k1 as int), v)
@ decreases path@.len() - _k1
    {
        let u = *path.it_at(_k1);
@ assert(path@.subrange(0, _k1 + 1) =~= path@.subrange(0, _k1 as int).push(u));
        if u >= num_vertices {
            return false;
        }
@ proof { cnt_bounds(path@.subrange(0, _k1 as int), u as int); assert(used@[u as int] == cnt(path@.subrange(0, _k1 as int), u as int)); let ghost s0 = path@.subrange(0, _k1 as int); assert forall|v: int| #[trigger] cnt(s0.push(u), v) == cnt(s0, v) + if u == v { 1int } else { 0 } by { cnt_push(s0, u, v); } }
        used[u] = used[u] + 1;
        _k1 = _k1 + 1;
    }
@ assert(path@.subrange(0, path@.len() as int) =~= path@);
    let mut seen_vertex_twice = false;
@ let ghost us = used@;
    let mut _s1 = used;
    let mut _a1 = true;
    let mut _k2: usize = 0;
    while _a1 && _k2 < _s1.it_len()
@ invariant n == us.len(), _s1@ == us, _k2 <= n, forall|v: int| 0 <= v < n ==> #[trigger] us[v] == cnt(path@, v),
@   _a1 ==> (forall|v: int| 0 <= v < _k2 ==> #[trigger] us[v] == 1 || us[v] == 2) && (seen_vertex_twice <==> exists|v: int| 0 <= v < _k2 && #[trigger] us[v] == 2) && (forall|u: int, v: int| 0 <= u < v < _k2 && #[trigger] us[u] == 2 ==> #[trigger] us[v] != 2),
@   !_a1 ==> !counts_ok(path@, n)
@ decreases n - _k2
    {
        let num_occourances = _s1.it_take(_k2);
@ let ghost seen0 = seen_vertex_twice; assert(us[_k2 as int] == cnt(path@, _k2 as int)); let ghost kk = _k2 as int;
        _a1 = if num_occourances == 2 {
            if seen_vertex_twice {
@ proof { let u = choose|u: int| 0 <= u < _k2 && #[trigger] us[u] == 2; assert(us[u] == cnt(path@, u)); assert(!counts_ok(path@, n)); }
                false
            } else {
                seen_vertex_twice = true;
                true
            }
        } else {
            num_occourances == 1
        };
@ proof { if _a1 { if us[kk] == 2 { assert(!seen0); } } }
        _k2 = _k2 + 1;
    }
@ proof { if _a1 { assert forall|v: int| 0 <= v < n implies #[trigger] cnt(path@, v) == 1 || cnt(path@, v) == 2 by { assert(us[v] == cnt(path@, v)); }
@   assert forall|u: int, v: int| 0 <= u < v < n && #[trigger] cnt(path@, u) == 2 implies #[trigger] cnt(path@, v) != 2 by { assert(us[u] == cnt(path@, u)); assert(us[v] == cnt(path@, v)); } }
@   if closes(path@) { closed_tour_counts(path@, n); } }
    _a1
}
//# end
