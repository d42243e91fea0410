//# theory mst
//# include gspec
pub open spec fn rest_of(n: nat, ex: Seq<usize>) -> P { |a: int| 0 <= a < n && !ex.contains(a as usize) }
/// edges stored at vertex i when the edges of t (vertex, earlier vertex) have been added one after another
pub open spec fn glist(m: Mat, t: Seq<E2>, i: int) -> Seq<Edge> decreases t.len() {
    if t.len() == 0 { Seq::empty() } else { let e = t[t.len() - 1]; added(glist(m, t.drop_last(), i), i, e.0, e.1, m.w(e.1, e.0)) }
}
/// the adjacency lists of g hold exactly the edges of t, in both directions, with the costs of the matrix
pub open spec fn stores(m: Mat, t: Seq<E2>, g: Graph) -> bool { gn(g) == m.n && forall|i: int| 0 <= i < m.n ==> #[trigger] adj(g, i) == glist(m, t, i) }
/// t is a spanning tree of v of minimum weight, and g stores it
pub open spec fn mst_by(m: Mat, v: P, t: Seq<E2>, g: Graph) -> bool { spanning(v, t) && edges_in(t, m.n) && stores(m, t, g) && lightest(wf(m), m.n, v, tw(wf(m), t)) }
/// g is a minimum spanning tree of the vertices that are not excluded
pub open spec fn is_mst(m: Mat, ex: Seq<usize>, g: Graph) -> bool { exists|t: Seq<E2>| #[trigger] mst_by(m, rest_of(m.n, ex), t, g) }
pub open spec fn excl_ok(n: nat, ex: Seq<usize>) -> bool { forall|k: int| 0 <= k < ex.len() ==> #[trigger] ex[k] < n }
