//# include mstspec
// weight of a stored spanning tree
proof fn sum_added(es: Seq<Edge>, v: int, from: int, to: int, cost: f64)
    ensures edge_sum(added(es, v, from, to, cost)) == edge_sum(es) + (if v == from { rv(cost) } else { 0real }) + (if v == to { rv(cost) } else { 0real })
{
    let a = es.push(Edge { to: to as usize, cost });
    assert(a.drop_last() =~= es);
    assert(edge_sum(a) == edge_sum(es) + rv(cost));
    if v == from && v == to { let b = a.push(Edge { to: from as usize, cost }); assert(b.drop_last() =~= a); assert(edge_sum(b) == edge_sum(a) + rv(cost)); assert(b == added(es, v, from, to, cost)); }
    else if v == to { let b = es.push(Edge { to: from as usize, cost }); assert(b.drop_last() =~= es); assert(edge_sum(b) == edge_sum(es) + rv(cost)); }
}
pub open spec fn gsum(m: Mat, t: Seq<E2>, k: int) -> real decreases k { if k <= 0 { 0real } else { gsum(m, t, k - 1) + edge_sum(glist(m, t, k - 1)) } }
proof fn gsum_step(m: Mat, t: Seq<E2>, k: int) requires t.len() > 0
    ensures ({ let e = t[t.len() - 1]; let c = rv(m.w(e.1, e.0)); gsum(m, t, k) == gsum(m, t.drop_last(), k) + (if 0 <= e.0 < k { c } else { 0real }) + (if 0 <= e.1 < k { c } else { 0real }) }) decreases k
{ if k > 0 { gsum_step(m, t, k - 1); let e = t[t.len() - 1]; sum_added(glist(m, t.drop_last(), k - 1), k - 1, e.0, e.1, m.w(e.1, e.0)); } }
proof fn gsum_empty(m: Mat, k: int) ensures gsum(m, Seq::<E2>::empty(), k) == 0real decreases k { if k > 0 { gsum_empty(m, k - 1); } }
proof fn gsum_tw(m: Mat, t: Seq<E2>) requires inst(m), edges_in(t, m.n) ensures gsum(m, t, m.n as int) == 2real * tw(wf(m), t) decreases t.len()
{
    if t.len() == 0 { assert(t =~= Seq::<E2>::empty()); gsum_empty(m, m.n as int); }
    else {
        let r = t.drop_last(); let e = t[t.len() - 1];
        assert(edge_in(e, m.n));
        assert(edges_in(r, m.n)) by { assert forall|k: int| 0 <= k < r.len() implies edge_in(#[trigger] r[k], m.n) by { assert(edge_in(t[k], m.n)); } }
        gsum_tw(m, r); gsum_step(m, t, m.n as int);
        assert(rv(m.w(e.1, e.0)) == rv(m.w(e.0, e.1)));
        assert(ew(wf(m))(e) == rv(m.w(e.0, e.1)));
    }
}
proof fn stored_sum(m: Mat, t: Seq<E2>, g: Graph, k: int) requires stores(m, t, g), 0 <= k <= m.n ensures edge_sum_upto(g, k) == gsum(m, t, k) decreases k
{ if k > 0 { stored_sum(m, t, g, k - 1); assert(adj(g, k - 1) == glist(m, t, k - 1)); } }
proof fn glist_fin(m: Mat, t: Seq<E2>, i: int) requires inst(m), edges_in(t, m.n) ensures edges_fin(glist(m, t, i)) decreases t.len()
{
    if t.len() > 0 {
        let r = t.drop_last(); assert(edge_in(t[t.len() - 1], m.n));
        assert(edges_in(r, m.n)) by { assert forall|k: int| 0 <= k < r.len() implies edge_in(#[trigger] r[k], m.n) by { assert(edge_in(t[k], m.n)); } }
        glist_fin(m, r, i);
    }
}
/// the stored weight of a minimum spanning tree is twice the weight of a lightest tree
pub open spec fn mst_of(m: Mat, ex: Seq<usize>, g: Graph) -> Seq<E2> { choose|t: Seq<E2>| #[trigger] mst_by(m, rest_of(m.n, ex), t, g) }
proof fn mst_weight(m: Mat, ex: Seq<usize>, g: Graph) requires inst(m), is_mst(m, ex, g)
    ensures costs_fin(g), mst_by(m, rest_of(m.n, ex), mst_of(m, ex, g), g), dir_weight(g) == 2real * tw(wf(m), mst_of(m, ex, g))
{
    let t = mst_of(m, ex, g);
    assert(mst_by(m, rest_of(m.n, ex), t, g));
    stored_sum(m, t, g, m.n as int); gsum_tw(m, t);
    assert forall|i: int| 0 <= i < gn(g) implies edges_fin(#[trigger] adj(g, i)) by { glist_fin(m, t, i); }
}
