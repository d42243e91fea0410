// Lexicographic order on sequences over a total order, rearrangements, and the successor of an arrangement.
pub open spec fn ord<T: Ord>(a: T, b: T) -> Option<Ordering> { a.partial_cmp_spec(&b) }
pub open spec fn lt<T: Ord>(a: T, b: T) -> bool { ord(a, b) == Some(Ordering::Less) }
pub open spec fn le<T: Ord>(a: T, b: T) -> bool { lt(a, b) || a == b }
/// the comparison of T is a total order whose equality is identity
pub open spec fn total_order<T: Ord>() -> bool {
    &&& T::obeys_partial_cmp_spec()
    &&& forall|a: T, b: T| (#[trigger] ord(a, b)) == Some(Ordering::Less) || ord(a, b) == Some(Ordering::Equal) || ord(a, b) == Some(Ordering::Greater)
    &&& forall|a: T, b: T| (#[trigger] ord(a, b)) == Some(Ordering::Equal) <==> a == b
    &&& forall|a: T, b: T| (#[trigger] ord(a, b)) == Some(Ordering::Greater) <==> lt(b, a)
    &&& forall|a: T, b: T, c: T| #[trigger] lt(a, b) && #[trigger] lt(b, c) ==> lt(a, c)
}
pub proof fn usize_total_order() ensures total_order::<usize>() {}
pub open spec fn rearranged<T>(a: Seq<T>, b: Seq<T>) -> bool { a.len() == b.len() && a.to_multiset() == b.to_multiset() }
pub open spec fn lex_lt_at<T: Ord>(a: Seq<T>, b: Seq<T>, k: int) -> bool { 0 <= k < a.len() && a.subrange(0, k) == b.subrange(0, k) && lt(a[k], b[k]) }
pub open spec fn lex_lt<T: Ord>(a: Seq<T>, b: Seq<T>) -> bool { exists|k: int| lex_lt_at(a, b, k) }
/// b is the least arrangement of the elements of a that is greater than a
pub open spec fn is_successor<T: Ord>(a: Seq<T>, b: Seq<T>) -> bool { rearranged(a, b) && lex_lt(a, b) && forall|s: Seq<T>| #[trigger] rearranged(a, s) && lex_lt(a, s) ==> !lex_lt(s, b) }
pub open spec fn is_greatest<T: Ord>(a: Seq<T>) -> bool { forall|s: Seq<T>| #[trigger] rearranged(a, s) ==> !lex_lt(a, s) }

pub proof fn split_multiset<T>(a: Seq<T>, k: int) requires 0 <= k <= a.len() ensures a.to_multiset() == a.subrange(0, k).to_multiset().add(a.subrange(k, a.len() as int).to_multiset())
{ vstd::seq_lib::lemma_multiset_commutative(a.subrange(0, k), a.subrange(k, a.len() as int)); assert(a.subrange(0, k) + a.subrange(k, a.len() as int) =~= a); }
/// rearrangements that agree on a prefix are rearrangements of the rest
pub proof fn rest_rearranged<T>(a: Seq<T>, b: Seq<T>, k: int) requires rearranged(a, b), 0 <= k <= a.len(), a.subrange(0, k) == b.subrange(0, k) ensures a.subrange(k, a.len() as int).to_multiset() == b.subrange(k, b.len() as int).to_multiset()
{
    split_multiset(a, k); split_multiset(b, k);
    let p = a.subrange(0, k).to_multiset(); let x = a.subrange(k, a.len() as int).to_multiset(); let y = b.subrange(k, b.len() as int).to_multiset();
    assert forall|v: T| x.count(v) == y.count(v) by { assert(p.add(x).count(v) == p.add(y).count(v)); assert(p.add(x).count(v) == p.count(v) + x.count(v)); assert(p.add(y).count(v) == p.count(v) + y.count(v)); }
    assert(x =~= y);
}
/// the k-th element of a rearrangement with the same first k elements occurs in a at or after k
pub proof fn next_from_rest<T>(a: Seq<T>, s: Seq<T>, k: int) -> (m: int) requires rearranged(a, s), 0 <= k < a.len(), a.subrange(0, k) == s.subrange(0, k) ensures k <= m < a.len(), a[m] == s[k]
{
    rest_rearranged(a, s, k);
    let x = a.subrange(k, a.len() as int); let y = s.subrange(k, s.len() as int);
    x.to_multiset_ensures(); y.to_multiset_ensures();
    assert(y[0] == s[k]); assert(y.contains(s[k])); assert(y.to_multiset().count(s[k]) > 0);
    assert(x.contains(s[k]));
    let i = choose|i: int| 0 <= i < x.len() && x[i] == s[k];
    i + k
}
pub open spec fn noninc<T: Ord>(a: Seq<T>, from: int) -> bool { forall|i: int, j: int| from <= i < j < a.len() ==> le(#[trigger] a[j], #[trigger] a[i]) }
pub open spec fn nondec<T: Ord>(a: Seq<T>, from: int) -> bool { forall|i: int, j: int| from <= i < j < a.len() ==> le(#[trigger] a[i], #[trigger] a[j]) }
/// a non-increasing tail cannot be increased without changing what is before it
pub proof fn tail_max<T: Ord>(a: Seq<T>, s: Seq<T>, from: int, k: int)
    requires total_order::<T>(), rearranged(a, s), 0 <= from, noninc(a, from), lex_lt_at(a, s, k) ensures k < from
{
    if k >= from { let m = next_from_rest(a, s, k); if m == k { assert(ord(a[k], s[k]) == Some(Ordering::Equal)); } else { assert(le(a[m], a[k])); } }
}
pub proof fn swap_rearranged<T>(a: Seq<T>, i: int, j: int) requires 0 <= i < a.len(), 0 <= j < a.len() ensures rearranged(a, a.update(i, a[j]).update(j, a[i]))
{
    let b = a.update(i, a[j]); let c = b.update(j, a[i]);
    a.to_multiset_ensures(); b.to_multiset_ensures();
    assert(a.to_multiset() =~= c.to_multiset()) by {
        vstd::seq_lib::to_multiset_update(a, i, a[j]);
        vstd::seq_lib::to_multiset_update(b, j, a[i]);
        assert(b[j] == a[j]) by { if i == j {} }
        assert(a.contains(a[i])); assert(b[i] == a[j]); assert(b.contains(a[j]));
    }
}
pub proof fn reverse_tail_rearranged<T>(a: Seq<T>, b: Seq<T>, k: int) requires 0 <= k <= a.len(), b.len() == a.len(), b.subrange(0, k) == a.subrange(0, k), b.subrange(k, b.len() as int) == a.subrange(k, a.len() as int).reverse() ensures rearranged(a, b)
{
    split_multiset(a, k); split_multiset(b, k);
    let x = a.subrange(k, a.len() as int);
    x.lemma_reverse_to_multiset();
}
/// the argument for the stepper: p is the last position with an ascent, j the last position of the tail with a greater element
pub proof fn successor_of<T: Ord>(a: Seq<T>, b: Seq<T>, p: int, j: int)
    requires total_order::<T>(), 0 <= p < j < a.len(), noninc(a, p + 1), lt(a[p], a[j]), forall|m: int| j < m < a.len() ==> le(#[trigger] a[m], a[p]),
        b.len() == a.len(), forall|m: int| 0 <= m < p ==> b[m] == a[m], b[p] == a[j],
        ({ let t = a.update(p, a[j]).update(j, a[p]); forall|m: int| p < m < a.len() ==> #[trigger] b[m] == t[a.len() + p - m] }),
    ensures is_successor(a, b)
{
    let t = a.update(p, a[j]).update(j, a[p]); let n = a.len() as int;
    swap_rearranged(a, p, j);
    assert(b.subrange(0, p + 1) =~= t.subrange(0, p + 1));
    assert(b.subrange(p + 1, n) =~= t.subrange(p + 1, n).reverse());
    reverse_tail_rearranged(t, b, p + 1);
    assert(b.subrange(0, p) =~= a.subrange(0, p));
    assert(lex_lt_at(a, b, p));
    // the tail of t is non-increasing
    assert(noninc(t, p + 1)) by {
        assert forall|x: int, y: int| p + 1 <= x < y < n implies le(#[trigger] t[y], #[trigger] t[x]) by {
            assert(le(a[y], a[x]));
            if x == j { assert(le(a[y], a[p])); }
            if y == j { assert(le(a[j], a[x])); assert(lt(a[p], a[j])); }
        }
    }
    assert(nondec(b, p + 1)) by {
        assert forall|x: int, y: int| p + 1 <= x < y < n implies le(#[trigger] b[x], #[trigger] b[y]) by { assert(le(t[n + p - x], t[n + p - y])); }
    }
    assert forall|s: Seq<T>| #[trigger] rearranged(a, s) && lex_lt(a, s) implies !lex_lt(s, b) by {
        let k = choose|k: int| lex_lt_at(a, s, k);
        tail_max(a, s, p + 1, k);
        if lex_lt(s, b) {
            let m = choose|m: int| lex_lt_at(s, b, m);
            // first k elements of a, b, s agree
            if m < k { assert(s.subrange(0, k)[m] == a.subrange(0, k)[m]); assert(ord(s[m], b[m]) == Some(Ordering::Equal)); }
            else if k < p { if m > k { assert(s.subrange(0, m)[k] == b.subrange(0, m)[k]); } assert(b[k] == a[k]); if m == k { assert(lt(a[k], s[k]) && lt(s[k], a[k])); assert(lt(a[k], a[k])); } assert(ord(a[k], a[k]) == Some(Ordering::Equal)); }
            else {
                let q = next_from_rest(a, s, p);
                if q == p { assert(ord(a[p], s[p]) == Some(Ordering::Equal)); }
                assert(le(a[j], s[p])) by { if q > j { assert(le(a[q], a[p])); assert(lt(a[p], a[p])) by { if a[q] != a[p] {} } assert(ord(a[p], a[p]) == Some(Ordering::Equal)); } else if q < j { assert(le(a[j], a[q])); } }
                if m == p { assert(lt(s[p], b[p])); if s[p] == a[j] { assert(ord(s[p], b[p]) == Some(Ordering::Equal)); } else { assert(lt(s[p], s[p])); assert(ord(s[p], s[p]) == Some(Ordering::Equal)); } }
                else {
                    assert(m > p);
                    assert(rearranged(b, s));
                    let r = next_from_rest(b, s, m);
                    assert(lt(b[r], b[m]));
                    if r == m { assert(ord(b[m], b[m]) == Some(Ordering::Equal)); } else { assert(le(b[m], b[r])); if b[m] != b[r] { assert(lt(b[m], b[m])); } assert(ord(b[m], b[m]) == Some(Ordering::Equal)); }
                }
            }
        }
    }
}
