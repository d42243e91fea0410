//# needs mat
// Nearest neighbour tours.
/// v is not among the first k cities of p
pub open spec fn unseen(p: Seq<usize>, k: int, v: int) -> bool { forall|i: int| 0 <= i < k ==> #[trigger] p[i] != v }
/// city k of p is a closest not yet visited one
pub open spec fn greedy_at(w: W, n: nat, p: Seq<usize>, k: int) -> bool { forall|v: int| 0 <= v < n && #[trigger] unseen(p, k, v) ==> w(p[k - 1] as int, p[k] as int) <= w(p[k - 1] as int, v) }
pub open spec fn greedy(w: W, n: nat, p: Seq<usize>) -> bool { forall|k: int| 1 <= k < p.len() ==> #[trigger] greedy_at(w, n, p, k) }
/// r is a nearest neighbour tour starting at i, with its exact length
pub open spec fn is_nn(m: Mat, i: int, r: (f64, Vec<usize>)) -> bool {
    is_tour(r.1@, m.n) && r.1@[0] == i && greedy(wf(m), m.n, r.1@) && fin(r.0) && rv(r.0) == cyc_cost(wf(m), r.1@)
}
/// some nearest neighbour tour from i is not shorter than c
pub open spec fn nn_ge(m: Mat, i: int, c: real) -> bool { exists|s: (f64, Vec<usize>)| #[trigger] is_nn(m, i, s) && c <= rv(s.0) }
pub open spec fn no_worse(m: Mat, starts: Seq<usize>, k: int, c: real) -> bool { forall|i: int| 0 <= i < k ==> nn_ge(m, #[trigger] starts[i] as int, c) }
pub open spec fn some_start(m: Mat, starts: Seq<usize>, k: int, r: (f64, Vec<usize>)) -> bool { exists|i: int| 0 <= i < k && is_nn(m, #[trigger] starts[i] as int, r) }
/// best of the first k starts
pub open spec fn best_upto(m: Mat, starts: Seq<usize>, k: int, o: Option<(f64, Vec<usize>)>) -> bool {
    if k <= 0 { o is None } else { o is Some && some_start(m, starts, k, o->0) && no_worse(m, starts, k, rv((o->0).0)) }
}
pub open spec fn start_list(m: Mat, starts: Seq<usize>, n: nat) -> bool { starts.len() == n && starts.no_duplicates() && in_range(starts, m.n) }
pub open spec fn best_of_some(m: Mat, n: nat, r: (f64, Vec<usize>)) -> bool { exists|starts: Seq<usize>| #[trigger] start_list(m, starts, n) && best_upto(m, starts, n as int, Some(r)) }
/// the result of some start, no longer than the result of every start
pub open spec fn best_of_all(m: Mat, r: (f64, Vec<usize>)) -> bool { (exists|i: int| 0 <= i < m.n && #[trigger] is_nn(m, i, r)) && forall|i: int| 0 <= i < m.n ==> #[trigger] nn_ge(m, i, rv(r.0)) }
pub proof fn best_step(m: Mat, starts: Seq<usize>, k: int, o: Option<(f64, Vec<usize>)>, x: (f64, Vec<usize>), less: bool)
    requires 0 <= k < starts.len(), best_upto(m, starts, k, o), is_nn(m, starts[k] as int, x), o is Some ==> less == xlt(x.0, (o->0).0), o is None ==> less
    ensures best_upto(m, starts, k + 1, if less { Some(x) } else { o })
{
    if less {
        assert forall|i: int| 0 <= i < k + 1 implies nn_ge(m, #[trigger] starts[i] as int, rv(x.0)) by {
            if i < k { assert(nn_ge(m, starts[i] as int, rv((o->0).0))); let s = choose|s: (f64, Vec<usize>)| #[trigger] is_nn(m, starts[i] as int, s) && rv((o->0).0) <= rv(s.0); }
        }
    } else {
        assert forall|i: int| 0 <= i < k + 1 implies nn_ge(m, #[trigger] starts[i] as int, rv((o->0).0)) by { if i < k { assert(nn_ge(m, starts[i] as int, rv((o->0).0))); } }
        let i = choose|i: int| 0 <= i < k && is_nn(m, #[trigger] starts[i] as int, o->0);
        assert(is_nn(m, starts[i] as int, o->0));
    }
}
pub proof fn best_all(m: Mat, r: (f64, Vec<usize>)) requires best_of_some(m, m.n, r), 1 <= m.n <= usize::MAX ensures best_of_all(m, r)
{
    let st = choose|st: Seq<usize>| #[trigger] start_list(m, st, m.n) && best_upto(m, st, m.n as int, Some(r));
    let i = choose|i: int| 0 <= i < m.n && is_nn(m, #[trigger] st[i] as int, r);
    assert(is_nn(m, st[i] as int, r) && st[i] < m.n);
    tour_contains_all(st, m.n);
    assert forall|i: int| 0 <= i < m.n implies #[trigger] nn_ge(m, i, rv(r.0)) by { assert(st.contains(i as usize)); let k = choose|k: int| 0 <= k < st.len() && st[k] == i as usize; assert(nn_ge(m, st[k] as int, rv(r.0))); }
}
