// Paths, closed tours and their lengths over an abstract weight function.
pub type W = spec_fn(int, int) -> real;
/// length of the open path p
pub open spec fn path_cost(w: W, p: Seq<usize>) -> real decreases p.len() {
    if p.len() <= 1 { 0real } else { path_cost(w, p.drop_last()) + w(p[p.len() - 2] as int, p[p.len() - 1] as int) }
}
/// length of the closed tour p[0] -> .. -> p[n-1] -> p[0]
pub open spec fn cyc_cost(w: W, p: Seq<usize>) -> real {
    if p.len() <= 1 { 0real } else { path_cost(w, p) + w(p[p.len() - 1] as int, p[0] as int) }
}
pub open spec fn in_range(p: Seq<usize>, n: nat) -> bool { forall|i: int| 0 <= i < p.len() ==> #[trigger] p[i] < n }
/// p visits every vertex 0..n exactly once
pub open spec fn is_tour(p: Seq<usize>, n: nat) -> bool { p.len() == n && in_range(p, n) && p.no_duplicates() }
pub open spec fn is_prefix(q: Seq<usize>, p: Seq<usize>) -> bool { q.len() <= p.len() && q =~= p.subrange(0, q.len() as int) }
pub open spec fn nonneg(w: W, n: nat) -> bool { forall|i: int, j: int| 0 <= i < n && 0 <= j < n ==> #[trigger] w(i, j) >= 0real }

pub proof fn path_cost_push(w: W, p: Seq<usize>, x: usize)
    ensures path_cost(w, p.push(x)) == path_cost(w, p) + if p.len() == 0 { 0real } else { w(p[p.len() - 1] as int, x as int) }
{ assert(p.push(x).drop_last() =~= p); if p.len() == 0 { assert(path_cost(w, p) == 0real); } }

/// cost of the first k+1 vertices, in terms of the first k
pub proof fn path_cost_step(w: W, p: Seq<usize>, k: int)
    requires 1 <= k < p.len()
    ensures path_cost(w, p.subrange(0, k + 1)) == path_cost(w, p.subrange(0, k)) + w(p[k - 1] as int, p[k] as int)
{ assert(p.subrange(0, k + 1).drop_last() =~= p.subrange(0, k)); }

pub proof fn path_cost_nonneg(w: W, p: Seq<usize>, n: nat)
    requires in_range(p, n), nonneg(w, n)
    ensures path_cost(w, p) >= 0real
    decreases p.len()
{ if p.len() > 1 { assert forall|i: int| 0 <= i < p.drop_last().len() implies #[trigger] p.drop_last()[i] < n by { assert(p[i] < n); } path_cost_nonneg(w, p.drop_last(), n); assert(p[p.len() - 2] < n && p[p.len() - 1] < n); assert(w(p[p.len() - 2] as int, p[p.len() - 1] as int) >= 0real); } }

/// path cost of a concatenation
pub proof fn path_cost_concat(w: W, a: Seq<usize>, b: Seq<usize>)
    ensures path_cost(w, a + b) == path_cost(w, a) + path_cost(w, b) + if a.len() > 0 && b.len() > 0 { w(a[a.len() - 1] as int, b[0] as int) } else { 0real }
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); assert(path_cost(w, b) == 0real); }
    else {
        let c = b.drop_last();
        path_cost_concat(w, a, c);
        let x = b[b.len() - 1];
        assert(a + b =~= (a + c).push(x));
        assert(b =~= c.push(x));
        path_cost_push(w, a + c, x);
        path_cost_push(w, c, x);
        if c.len() == 0 { assert(a + c =~= a); assert(path_cost(w, c) == 0real); if a.len() > 0 { assert((a + c)[(a + c).len() - 1] == a[a.len() - 1]); } }
        else { assert((a + c)[(a + c).len() - 1] == c[c.len() - 1]); assert(c[0] == b[0]); }
    }
}

/// prefixes are not longer than the path
pub proof fn path_cost_prefix_le(w: W, p: Seq<usize>, k: int, n: nat)
    requires 0 <= k <= p.len(), in_range(p, n), nonneg(w, n)
    ensures path_cost(w, p.subrange(0, k)) <= path_cost(w, p)
{
    let a = p.subrange(0, k); let b = p.subrange(k, p.len() as int);
    assert(p =~= a + b);
    path_cost_concat(w, a, b);
    assert(in_range(b, n)) by { assert forall|i: int| 0 <= i < b.len() implies #[trigger] b[i] < n by { assert(p[k + i] < n); } }
    path_cost_nonneg(w, b, n);
    if a.len() > 0 && b.len() > 0 { assert(p[k - 1] < n && p[k] < n); assert(w(a[a.len() - 1] as int, b[0] as int) >= 0real); }
}

/// a sequence of n different numbers below n contains every number below n
pub proof fn tour_contains_all(p: Seq<usize>, n: nat)
    requires is_tour(p, n)
    ensures forall|v: int| 0 <= v < n ==> #[trigger] p.contains(v as usize)
    decreases n
{
    let s = p.map_values(|x: usize| x as int).to_set();
    let full = vstd::set_lib::set_int_range(0, n as int);
    vstd::set_lib::lemma_int_range(0, n as int);
    let q = p.map_values(|x: usize| x as int);
    assert(q.no_duplicates());
    q.unique_seq_to_set();
    assert(s.subset_of(full)) by { assert forall|x: int| s.contains(x) implies full.contains(x) by { let i = choose|i: int| 0 <= i < q.len() && q[i] == x; assert(p[i] < n); } }
    vstd::set_lib::lemma_subset_equality(s, full);
    assert forall|v: int| 0 <= v < n implies #[trigger] p.contains(v as usize) by {
        assert(full.contains(v)); assert(s.contains(v)); let i = choose|i: int| 0 <= i < q.len() && q[i] == v; assert(p[i] as int == v);  assert(p[i] == v as usize);
    }
}
/// different numbers below n: at most n of them
pub proof fn distinct_len_le(p: Seq<usize>, n: nat)
    requires in_range(p, n), p.no_duplicates()
    ensures p.len() <= n
{
    let q = p.map_values(|x: usize| x as int);
    let s = q.to_set();
    let full = vstd::set_lib::set_int_range(0, n as int);
    vstd::set_lib::lemma_int_range(0, n as int);
    assert(q.no_duplicates());
    q.unique_seq_to_set();
    assert(s.subset_of(full)) by { assert forall|x: int| s.contains(x) implies full.contains(x) by { let i = choose|i: int| 0 <= i < q.len() && q[i] == x; assert(p[i] < n); } }
    vstd::set_lib::lemma_len_subset(s, full);
}
pub open spec fn has(p: Seq<usize>, v: int) -> bool { exists|i: int| 0 <= i < p.len() && #[trigger] p[i] == v }
/// different numbers below n that include every number below n: exactly n of them
pub proof fn full_len(p: Seq<usize>, n: nat)
    requires in_range(p, n), p.no_duplicates(), forall|v: int| 0 <= v < n ==> #[trigger] has(p, v)
    ensures p.len() == n
{
    let q = p.map_values(|x: usize| x as int);
    let s = q.to_set();
    let full = vstd::set_lib::set_int_range(0, n as int);
    vstd::set_lib::lemma_int_range(0, n as int);
    assert(q.no_duplicates());
    q.unique_seq_to_set();
    assert(s =~= full) by {
        assert forall|x: int| s.contains(x) implies full.contains(x) by { let i = choose|i: int| 0 <= i < q.len() && q[i] == x; assert(p[i] < n); }
        assert forall|x: int| full.contains(x) implies s.contains(x) by { assert(has(p, x)); let i = choose|i: int| 0 <= i < p.len() && #[trigger] p[i] == x; assert(q[i] == x); }
    }
}
pub proof fn perm_contains<A>(s: Seq<A>, t: Seq<A>, i: int)
    requires s.to_multiset() == t.to_multiset(), 0 <= i < t.len() ensures s.contains(t[i])
{ broadcast use vstd::seq_lib::group_to_multiset_ensures; assert(t.contains(t[i])); assert(s.to_multiset().count(t[i]) > 0); }
pub proof fn perm_distinct(s: Seq<usize>, t: Seq<usize>) requires s.to_multiset() == t.to_multiset(), s.no_duplicates() ensures t.no_duplicates()
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    s.lemma_multiset_has_no_duplicates();
    t.lemma_multiset_has_no_duplicates_conv();
}
