// Numbers written in base b, most significant digit first.
pub open spec fn dval(b: int, s: Seq<usize>) -> int decreases s.len() { if s.len() == 0 { 0 } else { dval(b, s.drop_last()) * b + s[s.len() - 1] } }
pub open spec fn digits_ok(b: int, s: Seq<usize>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) < b }
pub open spec fn ipow(b: int, e: nat) -> int decreases e { if e == 0 { 1 } else { b * ipow(b, (e - 1) as nat) } }
pub proof fn npow_ipow(b: nat, e: nat) ensures npow(b, e) == ipow(b as int, e) decreases e { if e > 0 { npow_ipow(b, (e - 1) as nat); } }
pub proof fn ipow_pos(b: int, e: nat) requires b >= 1 ensures ipow(b, e) >= 1 decreases e { if e > 0 { ipow_pos(b, (e - 1) as nat); assert(b * ipow(b, (e - 1) as nat) >= 1) by (nonlinear_arith) requires b >= 1, ipow(b, (e - 1) as nat) >= 1; } }
pub proof fn dval_bounds(b: int, s: Seq<usize>) requires b >= 1, digits_ok(b, s) ensures 0 <= dval(b, s) < ipow(b, s.len()) decreases s.len()
{
    if s.len() > 0 {
        let t = s.drop_last();
        assert(digits_ok(b, t)) by { assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i]) < b by { assert(s[i] < b); } }
        dval_bounds(b, t);
        let x = dval(b, t); let d = s[s.len() - 1] as int; let p = ipow(b, t.len());
        assert(d < b);
        assert(0 <= x * b + d < b * p) by (nonlinear_arith) requires b >= 1, 0 <= x, x < p, 0 <= d, d < b;
    }
}
/// increment at position k with everything after it wrapping to zero
pub proof fn dval_succ(b: int, old_: Seq<usize>, new_: Seq<usize>, k: int)
    requires b >= 1, old_.len() == new_.len(), 0 <= k < old_.len(), new_[k] == old_[k] + 1, forall|i: int| 0 <= i < k ==> new_[i] == old_[i], forall|i: int| k < i < old_.len() ==> (#[trigger] old_[i]) == b - 1, forall|i: int| k < i < old_.len() ==> (#[trigger] new_[i]) == 0
    ensures dval(b, new_) == dval(b, old_) + 1 decreases old_.len()
{
    let o = old_.drop_last(); let n = new_.drop_last();
    if k == old_.len() - 1 { assert(o =~= n); }
    else {
        dval_succ(b, o, n, k);
        let x = dval(b, o);
        assert(old_[old_.len() - 1] == b - 1 && new_[old_.len() - 1] == 0);
        assert((x + 1) * b == x * b + b) by (nonlinear_arith);
    }
}
/// only the all-maximal vector has the largest value
pub proof fn dval_all_max(b: int, s: Seq<usize>) requires b >= 1, forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) == b - 1 ensures dval(b, s) == ipow(b, s.len()) - 1 decreases s.len()
{
    if s.len() > 0 {
        let t = s.drop_last();
        assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i]) == b - 1 by { assert(s[i] == b - 1); }
        dval_all_max(b, t);
        let p = ipow(b, t.len());
        assert((p - 1) * b + (b - 1) == b * p - 1) by (nonlinear_arith);
    }
}
pub proof fn dval_zero(b: int, s: Seq<usize>) requires forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) == 0 ensures dval(b, s) == 0 decreases s.len()
{ if s.len() > 0 { let t = s.drop_last(); assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i]) == 0 by { assert(s[i] == 0); } dval_zero(b, t); assert(0 * b == 0) by (nonlinear_arith); } }
/// equal values, equal vectors
pub proof fn dval_inj(b: int, s: Seq<usize>, t: Seq<usize>) requires b >= 1, s.len() == t.len(), digits_ok(b, s), digits_ok(b, t), dval(b, s) == dval(b, t) ensures s == t decreases s.len()
{
    if s.len() > 0 {
        let s1 = s.drop_last(); let t1 = t.drop_last();
        assert(digits_ok(b, s1)) by { assert forall|i: int| 0 <= i < s1.len() implies (#[trigger] s1[i]) < b by { assert(s[i] < b); } }
        assert(digits_ok(b, t1)) by { assert forall|i: int| 0 <= i < t1.len() implies (#[trigger] t1[i]) < b by { assert(t[i] < b); } }
        let x = dval(b, s1); let y = dval(b, t1); let d = s[s.len() - 1] as int; let e = t[t.len() - 1] as int;
        assert(d < b && e < b);
        assert(x == y && d == e) by (nonlinear_arith) requires x * b + d == y * b + e, 0 <= d, d < b, 0 <= e, e < b, b >= 1;
        dval_inj(b, s1, t1);
        assert(s =~= s1.push(d as usize)); assert(t =~= t1.push(e as usize));
    } else { assert(s =~= t); }
}
/// least significant digit first
pub open spec fn lval(b: int, s: Seq<usize>) -> int decreases s.len() { if s.len() == 0 { 0 } else { s[0] + b * lval(b, s.drop_first()) } }
pub proof fn lval_push(b: int, s: Seq<usize>, d: usize) ensures lval(b, s.push(d)) == lval(b, s) + d * ipow(b, s.len()) decreases s.len()
{
    let t = s.push(d);
    if s.len() == 0 { assert(t.drop_first() =~= Seq::<usize>::empty()); assert(lval(b, t.drop_first()) == 0); assert(b * 0 == 0) by (nonlinear_arith); assert(t[0] == d); assert(d * 1 == d) by (nonlinear_arith); }
    else {
        assert(t.drop_first() =~= s.drop_first().push(d));
        lval_push(b, s.drop_first(), d);
        let x = lval(b, s.drop_first()); let p = ipow(b, (s.len() - 1) as nat);
        assert(b * (x + d * p) == b * x + d * (b * p)) by (nonlinear_arith);
    }
}
pub proof fn lval_reverse(b: int, s: Seq<usize>) ensures dval(b, s.reverse()) == lval(b, s) decreases s.len()
{
    if s.len() > 0 {
        let r = s.reverse();
        assert(r.drop_last() =~= s.drop_first().reverse());
        lval_reverse(b, s.drop_first());
        assert(r[r.len() - 1] == s[0]);
        assert(dval(b, r.drop_last()) * b == b * lval(b, s.drop_first())) by (nonlinear_arith) requires dval(b, r.drop_last()) == lval(b, s.drop_first());
    }
}
/// boundaries of the n chunks of total numbers: cut(0) = 0, cut(n) = total
pub open spec fn cut(total: int, n: int, k: int) -> int { if k >= n { total } else { k * (total / n) } }
pub open spec fn in_chunk(total: int, n: int, x: int, k: int) -> bool { cut(total, n, k) <= x < cut(total, n, k + 1) }
/// half-open ranges [cut(k), cut(k+1)) are a partition of [0, total)
pub proof fn cuts_partition(total: int, n: int, x: int)
    requires n >= 1, 0 <= x < total ensures cut(total, n, 0) == 0, cut(total, n, n) == total, exists|k: int| 0 <= k < n && #[trigger] in_chunk(total, n, x, k)
{
    assert(0 * (total / n) == 0) by (nonlinear_arith);
    cut_find(total, n, x, n);
}
pub proof fn cut_find(total: int, n: int, x: int, k: int) requires n >= 1, 0 <= x < total, 0 <= k <= n, x < cut(total, n, k), k >= 1 ensures exists|j: int| 0 <= j < k && #[trigger] in_chunk(total, n, x, j) decreases k
{
    assert(0 * (total / n) == 0) by (nonlinear_arith);
    if cut(total, n, k - 1) <= x { assert(in_chunk(total, n, x, k - 1)); }
    else { cut_find(total, n, x, k - 1); let j = choose|j: int| 0 <= j < k - 1 && in_chunk(total, n, x, j); assert(0 <= j < k); }
}
pub proof fn cuts_ordered(total: int, n: int, j: int, k: int) requires n >= 1, total >= 0, 0 <= j <= k <= n ensures 0 <= cut(total, n, j) <= cut(total, n, k) <= total
{
    let c = total / n;
    assert(c >= 0 && n * c <= total) by (nonlinear_arith) requires n >= 1, total >= 0, c == total / n;
    assert(0 <= j * c <= k * c) by (nonlinear_arith) requires 0 <= j <= k, c >= 0;
    assert(k * c <= n * c && j * c <= n * c) by (nonlinear_arith) requires j <= k <= n, c >= 0;
}
