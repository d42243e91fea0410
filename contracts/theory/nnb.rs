//# needs solve pairs
// Sum of cheapest edges as a lower bound for completing a prefix.
pub open spec fn idr() -> spec_fn(real) -> real { |x: real| x }
pub open spec fn rsum(b: Seq<real>) -> real { ssum(b, idr()) }
pub open spec fn at_of(b: Seq<real>) -> spec_fn(usize) -> real { |x: usize| b[x as int] }
/// city j can follow city i when q is completed
pub open spec fn may_follow(q: Seq<usize>, i: int, j: int) -> bool { j != i && (!q.contains(j as usize) || j == q[0]) }
/// x is at most the cost of every edge that can leave city i, among those to cities below jj
pub open spec fn cheap_upto(m: Mat, q: Seq<usize>, i: int, jj: int, x: real) -> bool { forall|j: int| #[trigger] may_follow(q, i, j) && 0 <= j < jj ==> x <= wf(m)(i, j) }
pub open spec fn none_upto(q: Seq<usize>, i: int, jj: int) -> bool { forall|j: int| 0 <= j < jj ==> !(#[trigger] may_follow(q, i, j)) }
/// share of city i in the bound
pub open spec fn share(m: Mat, q: Seq<usize>, i: int, x: real) -> bool { if q.contains(i as usize) { x == 0real } else { cheap_upto(m, q, i, m.n as int, x) } }
pub open spec fn shares(m: Mat, q: Seq<usize>, b: Seq<real>) -> bool { forall|i: int| 0 <= i < b.len() ==> share(m, q, i, #[trigger] b[i]) }
pub proof fn shares_push(m: Mat, q: Seq<usize>, b: Seq<real>, x: real) requires shares(m, q, b), share(m, q, b.len() as int, x) ensures shares(m, q, b.push(x)), rsum(b.push(x)) == rsum(b) + x
{ ssum_push(b, x, idr()); assert forall|i: int| 0 <= i < b.push(x).len() implies share(m, q, i, #[trigger] b.push(x)[i]) by { if i < b.len() { assert(share(m, q, i, b[i])); } } }
pub proof fn all_zero(b: Seq<real>) requires forall|i: int| 0 <= i < b.len() ==> #[trigger] b[i] == 0real ensures rsum(b) == 0real decreases b.len()
{ if b.len() > 0 { all_zero(b.drop_last()); } }
/// summing over the positions that matter
pub proof fn sum_over(b: Seq<real>, s: Seq<usize>)
    requires in_range(s, b.len()), s.no_duplicates(), forall|i: int| 0 <= i < b.len() && !(has(s, i)) ==> #[trigger] b[i] == 0real ensures rsum(b) == ssum(s, at_of(b)) decreases s.len()
{
    if s.len() == 0 { assert forall|i: int| 0 <= i < b.len() implies #[trigger] b[i] == 0real by { assert(!(has(s, i))); } all_zero(b); }
    else {
        let x = s[s.len() - 1] as int; let r = s.drop_last(); let c = b.update(x, 0real);
        ssum_update(b, x, 0real, idr());
        assert(in_range(r, c.len())) by { assert forall|k: int| 0 <= k < r.len() implies #[trigger] r[k] < c.len() by { assert(s[k] < b.len()); } }
        assert forall|i: int| 0 <= i < c.len() && !(has(r, i)) implies #[trigger] c[i] == 0real by { if i != x { assert(!(has(s, i))) by { if has(s, i) { let k = choose|k: int| 0 <= k < s.len() && #[trigger] s[k] == i; assert(r[k] == i); } } assert(b[i] == 0real); } }
        sum_over(c, r);
        same_terms(r, at_of(b), at_of(c));
    }
}
pub proof fn same_terms(s: Seq<usize>, f: spec_fn(usize) -> real, g: spec_fn(usize) -> real) requires forall|k: int| 0 <= k < s.len() ==> f(#[trigger] s[k]) == g(s[k]) ensures ssum(s, f) == ssum(s, g) decreases s.len()
{ if s.len() > 0 { assert forall|k: int| 0 <= k < s.drop_last().len() implies f(#[trigger] s.drop_last()[k]) == g(s.drop_last()[k]) by { assert(f(s[k]) == g(s[k])); } same_terms(s.drop_last(), f, g); assert(f(s[s.len() - 1]) == g(s[s.len() - 1])); } }
pub open spec fn step_ge(w: W, f: spec_fn(usize) -> real, s: Seq<usize>, k: int) -> bool { f(s[k]) <= w(s[k] as int, s[k + 1] as int) }
/// the sum of what leaves each city of a path but the last
pub proof fn sum_path(w: W, s: Seq<usize>, f: spec_fn(usize) -> real) requires s.len() > 0, forall|k: int| 0 <= k < s.len() - 1 ==> #[trigger] step_ge(w, f, s, k) ensures ssum(s.drop_last(), f) <= path_cost(w, s) decreases s.len()
{
    if s.len() > 1 {
        let r = s.drop_last();
        assert forall|k: int| 0 <= k < r.len() - 1 implies #[trigger] step_ge(w, f, r, k) by { assert(step_ge(w, f, s, k)); }
        sum_path(w, r, f);
        assert(step_ge(w, f, s, s.len() - 2));
    }
}
pub proof fn nn_bound(m: Mat, q: Seq<usize>, b: Seq<real>, lb: f64) requires inst(m), q.len() >= 1, b.len() == m.n, shares(m, q, b), fin(lb), rv(lb) == rsum(b) ensures lb_ok(m, q, lb)
{
    let w = wf(m); let h = q.len() as int;
    assert forall|t: Seq<usize>| #[trigger] extends(m, q, t) implies rv(lb) <= rest_cost(w, t, h) by {
        let n = t.len() as int; let s = tail(t, h); let f = at_of(b);
        assert(q =~= head(t, h));
        assert forall|k: int| 0 <= k < h implies t[k] == #[trigger] q[k] by {}
        assert(in_range(s, b.len())) by { assert forall|k: int| 0 <= k < s.len() implies #[trigger] s[k] < b.len() by { assert(t[h + k] < m.n); } }
        tour_contains_all(t, m.n);
        assert forall|i: int| 0 <= i < b.len() && !(has(s, i)) implies #[trigger] b[i] == 0real by {
            assert(t.contains(i as usize));
            let k = choose|k: int| 0 <= k < n && t[k] == i as usize;
            if k >= h { assert(s[k - h] == i); } else { assert(q[k] == i as usize); assert(q.contains(i as usize)); }
            assert(share(m, q, i, b[i]));
        }
        sum_over(b, s);
        assert forall|k: int| h <= k < n implies !q.contains(#[trigger] t[k]) by { if q.contains(t[k]) { let a = choose|a: int| 0 <= a < h && q[a] == t[k]; assert(t[a] == t[k]); } }
        let z = seq![t[h - 1]];
        let tt = t.subrange(h - 1, n);
        assert(tt =~= z + s);
        path_cost_concat(w, z, s);
        assert(path_cost(w, z) == 0real);
        assert(t[0] < m.n && t[n - 1] < m.n && t[h - 1] < m.n);
        assert(w(t[n - 1] as int, t[0] as int) >= 0real);
        if s.len() > 0 {
            assert(t[h] < m.n);
            assert(w(t[h - 1] as int, t[h] as int) >= 0real);
            assert forall|k: int| 0 <= k < s.len() - 1 implies #[trigger] step_ge(w, f, s, k) by {
                let i = s[k] as int; let j = s[k + 1] as int;
                assert(t[h + k] < m.n && t[h + k + 1] < m.n);
                assert(share(m, q, i, b[i]));
                assert(!q.contains(t[h + k]) && !q.contains(t[h + k + 1]));
                assert(may_follow(q, i, j));
            }
            sum_path(w, s, f);
            let i = t[n - 1] as int;
            assert(share(m, q, i, b[i]));
            assert(!q.contains(t[n - 1]));
            assert(t[n - 1] != t[0]);
            assert(may_follow(q, i, q[0] as int));
            assert(t[0] == q[0]);
            assert(f(s[s.len() - 1]) <= w(t[n - 1] as int, t[0] as int));
            assert(path_cost(w, z) == 0real);
        } else { assert(rsum(b) == 0real); assert(path_cost(w, tt) == 0real); }
    }
}
