//# needs mat
// Sums over sequences, matchings as sequences of vertex pairs.
pub open spec fn ssum<A>(s: Seq<A>, f: spec_fn(A) -> real) -> real decreases s.len() { if s.len() == 0 { 0real } else { ssum(s.drop_last(), f) + f(s[s.len() - 1]) } }
pub proof fn ssum_push<A>(s: Seq<A>, x: A, f: spec_fn(A) -> real) ensures ssum(s.push(x), f) == ssum(s, f) + f(x) { assert(s.push(x).drop_last() =~= s); }
pub proof fn ssum_remove<A>(s: Seq<A>, i: int, f: spec_fn(A) -> real)
    requires 0 <= i < s.len() ensures ssum(s, f) == ssum(s.remove(i), f) + f(s[i]) decreases s.len()
{
    if i == s.len() - 1 { assert(s.remove(i) =~= s.drop_last()); }
    else { ssum_remove(s.drop_last(), i, f); assert(s.remove(i).drop_last() =~= s.drop_last().remove(i)); assert(s.remove(i)[s.len() - 2] == s[s.len() - 1]); }
}
pub proof fn ssum_update<A>(s: Seq<A>, i: int, x: A, f: spec_fn(A) -> real)
    requires 0 <= i < s.len() ensures ssum(s.update(i, x), f) == ssum(s, f) - f(s[i]) + f(x)
{ ssum_remove(s, i, f); ssum_remove(s.update(i, x), i, f); assert(s.update(i, x).remove(i) =~= s.remove(i)); }
pub proof fn ssum_perm<A>(s: Seq<A>, t: Seq<A>, f: spec_fn(A) -> real)
    requires s.to_multiset() == t.to_multiset() ensures ssum(s, f) == ssum(t, f) decreases s.len()
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    assert(s.len() == s.to_multiset().len() && t.len() == t.to_multiset().len());
    if s.len() > 0 {
        let x = s[s.len() - 1];
        assert(s.contains(x));
        assert(t.to_multiset().count(x) > 0);
        assert(t.contains(x));
        let i = choose|i: int| 0 <= i < t.len() && t[i] == x;
        assert(s.drop_last() =~= s.remove(s.len() - 1));
        assert(t.remove(i).to_multiset() == t.to_multiset().remove(x));
        assert(s.remove(s.len() - 1).to_multiset() == s.to_multiset().remove(x));
        ssum_perm(s.drop_last(), t.remove(i), f);
        ssum_remove(t, i, f);
    }
}

pub open spec fn one_if(b: bool) -> real { if b { 1real } else { 0real } }
/// how often vertex v is an end of the pair
pub open spec fn pair_occ(v: int) -> spec_fn([usize; 2]) -> real { |p: [usize; 2]| one_if(p@[0] == v) + one_if(p@[1] == v) }
pub open spec fn pair_cost(w: W) -> spec_fn([usize; 2]) -> real { |p: [usize; 2]| w(p@[0] as int, p@[1] as int) }
/// how often vertex v occurs in the matching
pub open spec fn occ(m: Seq<[usize; 2]>, v: int) -> real { ssum(m, pair_occ(v)) }
pub open spec fn mcost(w: W, m: Seq<[usize; 2]>) -> real { ssum(m, pair_cost(w)) }
pub open spec fn is_v(v: int) -> spec_fn(usize) -> real { |x: usize| one_if(x == v) }
/// how often v occurs in the list
pub open spec fn vocc(s: Seq<usize>, v: int) -> real { ssum(s, is_v(v)) }
pub open spec fn pair_in(p: [usize; 2], n: nat) -> bool { p@[0] < n && p@[1] < n }
pub open spec fn pairs_in(m: Seq<[usize; 2]>, n: nat) -> bool { forall|k: int| 0 <= k < m.len() ==> pair_in(#[trigger] m[k], n) }
/// the matching pairs up the listed vertices, every one of them exactly once
pub open spec fn pairs_up(m: Seq<[usize; 2]>, s: Seq<usize>) -> bool { 2 * m.len() == s.len() && forall|v: int| #[trigger] occ(m, v) == vocc(s, v) }
pub open spec fn pair2(a: usize, b: usize) -> Seq<usize> { seq![a, b] }
/// p, q are pairs over the ends of a, b
pub open spec fn same_ends(a: [usize; 2], b: [usize; 2], p: [usize; 2], q: [usize; 2]) -> bool { forall|v: int| #[trigger] pair_occ(v)(p) + pair_occ(v)(q) == pair_occ(v)(a) + pair_occ(v)(b) }
/// cheapest of the three pairings of the ends of a and b
pub open spec fn least3(w: W, a: [usize; 2], b: [usize; 2], c: real) -> bool {
    c <= w(a@[0] as int, a@[1] as int) + w(b@[0] as int, b@[1] as int) && c <= w(a@[0] as int, b@[0] as int) + w(a@[1] as int, b@[1] as int) && c <= w(a@[0] as int, b@[1] as int) + w(a@[1] as int, b@[0] as int)
}
/// what a local search step may do to a matching
pub open spec fn not_worse(w: W, n: nat, old: Seq<[usize; 2]>, new: Seq<[usize; 2]>) -> bool {
    new.len() == old.len() && (forall|v: int| #[trigger] occ(new, v) == occ(old, v)) && mcost(w, new) <= mcost(w, old) && pairs_in(new, n)
}
pub proof fn not_worse_trans(w: W, n: nat, a: Seq<[usize; 2]>, b: Seq<[usize; 2]>, c: Seq<[usize; 2]>)
    requires not_worse(w, n, a, b), not_worse(w, n, b, c) ensures not_worse(w, n, a, c)
{ assert forall|v: int| #[trigger] occ(c, v) == occ(a, v) by { assert(occ(b, v) == occ(a, v)); } }
pub proof fn not_worse_perm(w: W, n: nat, a: Seq<[usize; 2]>, b: Seq<[usize; 2]>)
    requires a.to_multiset() == b.to_multiset(), a.len() == b.len(), pairs_in(a, n) ensures not_worse(w, n, a, b)
{
    assert forall|v: int| #[trigger] occ(b, v) == occ(a, v) by { ssum_perm(a, b, pair_occ(v)); }
    ssum_perm(a, b, pair_cost(w));
    assert forall|k: int| 0 <= k < b.len() implies pair_in(#[trigger] b[k], n) by { perm_contains(a, b, k); let i = choose|i: int| 0 <= i < a.len() && a[i] == b[k]; assert(pair_in(a[i], n)); }
}
/// replacing the pairs at i and i + 1 by cheaper pairs over the same vertices
pub proof fn not_worse_two(w: W, n: nat, a: Seq<[usize; 2]>, b: Seq<[usize; 2]>, i: int)
    requires 0 <= i, i + 1 < a.len(), b.len() == a.len(), forall|k: int| 0 <= k < a.len() && k != i && k != i + 1 ==> #[trigger] b[k] == a[k], pairs_in(a, n), pair_in(b[i], n), pair_in(b[i + 1], n),
        same_ends(a[i], a[i + 1], b[i], b[i + 1]), pair_cost(w)(b[i]) + pair_cost(w)(b[i + 1]) <= pair_cost(w)(a[i]) + pair_cost(w)(a[i + 1])
    ensures not_worse(w, n, a, b)
{
    let c = a.update(i, b[i]);
    assert(b =~= c.update(i + 1, b[i + 1]));
    assert forall|v: int| #[trigger] occ(b, v) == occ(a, v) by { let f = pair_occ(v); ssum_update(a, i, b[i], f); ssum_update(c, i + 1, b[i + 1], f); assert(f(a[i]) + f(a[i + 1]) == f(b[i]) + f(b[i + 1])); }
    let f = pair_cost(w);
    ssum_update(a, i, b[i], f); ssum_update(c, i + 1, b[i + 1], f);
    assert forall|k: int| 0 <= k < b.len() implies pair_in(#[trigger] b[k], n) by { assert(pair_in(a[k], n)); }
}
