//# theory solve
//# include mstfacts
/// no tour is lighter than a minimum spanning tree of all cities
proof fn mst_below(m: Mat, g: Graph) requires inst(m), is_mst(m, Seq::empty(), g) ensures costs_fin(g), forall|t: Seq<usize>| #[trigger] is_tour(t, m.n) ==> dir_weight(g) <= 2real * cyc_cost(wf(m), t)
{
    let ex = Seq::<usize>::empty(); let v = rest_of(m.n, ex); let w = wf(m);
    mst_weight(m, ex, g);
    assert forall|t: Seq<usize>| #[trigger] is_tour(t, m.n) implies dir_weight(g) <= 2real * cyc_cost(w, t) by {
        tour_contains_all(t, m.n);
        assert forall|a: int| #[trigger] v(a) <==> has(t, a) by { if v(a) { assert(t.contains(a as usize)); let i = choose|i: int| 0 <= i < t.len() && t[i] == a as usize; assert(t[i] == a); } if has(t, a) { let i = choose|i: int| 0 <= i < t.len() && #[trigger] t[i] == a; assert(t[i] < m.n); } }
        path_connects(t, v, m.n); path_edges_cost(w, t);
        if t.len() > 1 { assert(t[0] < m.n && t[t.len() - 1] < m.n); assert(w(t[t.len() - 1] as int, t[0] as int) >= 0real); } else { assert(path_cost(w, t) == 0real); }
    }
}
