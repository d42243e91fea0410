//# needs mat perm digits
// Optimal tours: enumeration in lexicographic order and by extending prefixes.
/// a tour with exactly its length
pub open spec fn real_tour(m: Mat, r: (f64, Vec<usize>)) -> bool { fin(r.0) && is_tour(r.1@, m.n) && rv(r.0) == cyc_cost(wf(m), r.1@) }
/// tour t is not shorter than c
pub open spec fn beats(m: Mat, c: f64, t: Seq<usize>) -> bool { ler(c, cyc_cost(wf(m), t)) }
/// no tour is shorter than c
pub open spec fn optimal(m: Mat, c: f64) -> bool { forall|t: Seq<usize>| #[trigger] is_tour(t, m.n) ==> beats(m, c, t) }
pub proof fn circle_fin_tour(m: Mat, p: Seq<usize>) requires cinst(m), in_range(p, m.n) ensures circle_fin(m, p)
{
    assert forall|k: int| 0 <= k < p.len() - 1 implies fin(m.w(#[trigger] p[k] as int, p[k + 1] as int)) by { assert(p[k] < m.n && p[k + 1] < m.n); }
    if p.len() > 1 { assert(p[0] < m.n && p[p.len() - 1] < m.n); }
}

// ---- lexicographic enumeration ----
pub proof fn tour_count(t: Seq<usize>, n: nat, v: usize) requires is_tour(t, n) ensures t.to_multiset().count(v) == if v < n { 1nat } else { 0 }
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    t.lemma_multiset_has_no_duplicates();
    tour_contains_all(t, n);
    if v < n { assert(t.contains(v as int as usize)); assert(t.to_multiset().contains(v)); }
    else if t.to_multiset().count(v) > 0 { assert(t.contains(v)); let i = choose|i: int| 0 <= i < t.len() && t[i] == v; assert(t[i] < n); }
}
pub proof fn tours_rearranged(a: Seq<usize>, b: Seq<usize>, n: nat) requires is_tour(a, n), is_tour(b, n) ensures rearranged(a, b)
{ assert forall|v: usize| a.to_multiset().count(v) == b.to_multiset().count(v) by { tour_count(a, n, v); tour_count(b, n, v); } assert(a.to_multiset() =~= b.to_multiset()); }
pub proof fn rearranged_tour(a: Seq<usize>, b: Seq<usize>, n: nat) requires is_tour(a, n), rearranged(a, b) ensures is_tour(b, n)
{ perm_distinct(a, b); assert forall|i: int| 0 <= i < b.len() implies #[trigger] b[i] < n by { perm_contains(a, b, i); let k = choose|k: int| 0 <= k < a.len() && a[k] == b[i]; assert(a[k] < n); } }
pub proof fn head_rearranged(h: Seq<usize>, a: Seq<usize>, b: Seq<usize>) requires rearranged(a, b) ensures rearranged(h + a, h + b)
{ vstd::seq_lib::lemma_multiset_commutative(h, a); vstd::seq_lib::lemma_multiset_commutative(h, b); }
pub proof fn first_diff(a: Seq<usize>, b: Seq<usize>, k: int) requires a.len() == b.len(), 0 <= k <= a.len(), a.subrange(0, k) == b.subrange(0, k), a != b ensures lex_lt(a, b) || lex_lt(b, a) decreases a.len() - k
{
    if k == a.len() { assert(a.subrange(0, k) =~= a); assert(b.subrange(0, k) =~= b); }
    else if a[k] == b[k] { assert(a.subrange(0, k + 1) =~= a.subrange(0, k).push(a[k])); assert(b.subrange(0, k + 1) =~= b.subrange(0, k).push(b[k])); first_diff(a, b, k + 1); }
    else if a[k] < b[k] { assert(lex_lt_at(a, b, k)); } else { assert(lex_lt_at(b, a, k)); }
}
pub proof fn lex_total(a: Seq<usize>, b: Seq<usize>) requires a.len() == b.len() ensures a == b || lex_lt(a, b) || lex_lt(b, a)
{ if a != b { assert(a.subrange(0, 0) =~= b.subrange(0, 0)); first_diff(a, b, 0); } }
pub open spec fn tail(p: Seq<usize>, h: int) -> Seq<usize> { p.subrange(h, p.len() as int) }
pub open spec fn head(p: Seq<usize>, h: int) -> Seq<usize> { p.subrange(0, h) }
/// with the first h cities fixed, every arrangement up to the current one is accounted for in c
pub open spec fn seen_upto(m: Mat, c: f64, p: Seq<usize>, h: int) -> bool { forall|s: Seq<usize>| #[trigger] rearranged(tail(p, h), s) && !lex_lt(tail(p, h), s) ==> beats(m, c, head(p, h) + s) }
pub open spec fn seen_all(m: Mat, c: f64, p: Seq<usize>, h: int) -> bool { forall|s: Seq<usize>| #[trigger] rearranged(tail(p, h), s) ==> beats(m, c, head(p, h) + s) }
pub proof fn perm_init(m: Mat, c: f64, p: Seq<usize>, h: int)
    requires 0 <= h <= p.len(), forall|i: int| 0 <= i < p.len() ==> #[trigger] p[i] == i, beats(m, c, p) ensures seen_upto(m, c, p, h)
{
    let t = tail(p, h);
    assert(head(p, h) + t =~= p);
    assert forall|s: Seq<usize>| #[trigger] rearranged(t, s) && !lex_lt(t, s) implies beats(m, c, head(p, h) + s) by {
        lex_total(t, s);
        if lex_lt(s, t) { let k = choose|k: int| lex_lt_at(s, t, k); let q = next_from_rest(t, s, k); assert(t[q] == h + q && t[k] == h + k); }
    }
}
pub proof fn perm_step(m: Mat, c0: f64, c1: f64, a: Seq<usize>, b: Seq<usize>, h: int)
    requires 0 <= h <= a.len(), a.len() == b.len(), head(a, h) == head(b, h), is_successor(tail(a, h), tail(b, h)), seen_upto(m, c0, a, h), beats(m, c1, b), fin(c0), fin(c1), rv(c1) <= rv(c0)
    ensures seen_upto(m, c1, b, h)
{
    let ta = tail(a, h); let tb = tail(b, h);
    assert(head(b, h) + tb =~= b);
    assert forall|s: Seq<usize>| #[trigger] rearranged(tb, s) && !lex_lt(tb, s) implies beats(m, c1, head(b, h) + s) by {
        lex_total(tb, s);
        if s != tb { assert(rearranged(ta, s)); assert(!lex_lt(ta, s)); assert(beats(m, c0, head(a, h) + s)); }
    }
}
pub proof fn perm_done(m: Mat, c: f64, p: Seq<usize>, h: int) requires 0 <= h <= p.len(), seen_upto(m, c, p, h), is_greatest(tail(p, h)) ensures seen_all(m, c, p, h) {}
pub proof fn perm_optimal0(m: Mat, c: f64, p: Seq<usize>) requires is_tour(p, m.n), seen_all(m, c, p, 0) ensures optimal(m, c)
{ assert forall|t: Seq<usize>| #[trigger] is_tour(t, m.n) implies beats(m, c, t) by { tours_rearranged(p, t, m.n); assert(tail(p, 0) =~= p); assert(head(p, 0) + t =~= t); assert(rearranged(tail(p, 0), t)); } }
/// a tour can be started anywhere
pub proof fn rotate(m: Mat, t: Seq<usize>, k: int) requires is_tour(t, m.n), 0 <= k < t.len()
    ensures ({ let r = tail(t, k) + head(t, k); is_tour(r, m.n) && r[0] == t[k] && cyc_cost(wf(m), r) == cyc_cost(wf(m), t) })
{
    let a = head(t, k); let b = tail(t, k); let r = b + a;
    assert(t =~= a + b);
    path_cost_concat(wf(m), a, b); path_cost_concat(wf(m), b, a);
    assert forall|i: int| 0 <= i < r.len() implies #[trigger] r[i] < m.n by { if i < b.len() { assert(r[i] == t[k + i]); } else { assert(r[i] == t[i - b.len()]); } }
    assert(r.no_duplicates()) by { assert forall|i: int, j: int| 0 <= i < j < r.len() implies r[i] != r[j] by { let x = if i < b.len() { k + i } else { i - b.len() }; let y = if j < b.len() { k + j } else { j - b.len() }; assert(r[i] == t[x] && r[j] == t[y] && x != y); } }
    if k == 0 { assert(r =~= t); } else if t.len() > 1 { assert(r[r.len() - 1] == t[k - 1]); assert(a[0] == t[0]); assert(b[b.len() - 1] == t[t.len() - 1]); assert(a[a.len() - 1] == t[k - 1]); assert(b[0] == t[k]); }
}
pub proof fn perm_optimal1(m: Mat, c: f64, p: Seq<usize>) requires is_tour(p, m.n), p.len() > 0, p[0] == 0, seen_all(m, c, p, 1) ensures optimal(m, c)
{
    assert forall|t: Seq<usize>| #[trigger] is_tour(t, m.n) implies beats(m, c, t) by {
        tour_contains_all(t, m.n);
        assert(t.contains(0int as usize));
        let k = choose|k: int| 0 <= k < t.len() && t[k] == 0;
        rotate(m, t, k);
        let r = tail(t, k) + head(t, k);
        tours_rearranged(p, r, m.n);
        assert(head(p, 1) =~= head(r, 1));
        rest_rearranged(p, r, 1);
        assert(rearranged(tail(p, 1), tail(r, 1)));
        assert(head(p, 1) + tail(r, 1) =~= r);
    }
}
/// later in lexicographic order is larger as a number
pub proof fn lex_dval(b: int, x: Seq<usize>, y: Seq<usize>, k: int) requires b >= 1, x.len() == y.len(), digits_ok(b, x), digits_ok(b, y), lex_lt_at(x, y, k) ensures dval(b, x) < dval(b, y) decreases x.len()
{
    let x1 = x.drop_last(); let y1 = y.drop_last(); let d = x[x.len() - 1] as int; let e = y[x.len() - 1] as int;
    if k == x.len() - 1 { assert(x1 =~= x.subrange(0, k)); assert(y1 =~= y.subrange(0, k)); }
    else {
        assert(digits_ok(b, x1)) by { assert forall|i: int| 0 <= i < x1.len() implies (#[trigger] x1[i]) < b by { assert(x[i] < b); } }
        assert(digits_ok(b, y1)) by { assert forall|i: int| 0 <= i < y1.len() implies (#[trigger] y1[i]) < b by { assert(y[i] < b); } }
        assert(x1.subrange(0, k) =~= x.subrange(0, k)); assert(y1.subrange(0, k) =~= y.subrange(0, k));
        assert(lex_lt_at(x1, y1, k));
        lex_dval(b, x1, y1, k);
        let u = dval(b, x1); let v = dval(b, y1);
        assert(x[x.len() - 1] < b);
        assert(u * b + d < v * b + e) by (nonlinear_arith) requires u + 1 <= v, d < b, 0 <= e, b >= 1;
    }
}
pub open spec fn lex_room(n: int, p: Seq<usize>) -> int { ipow(n, p.len()) - dval(n, p) }
pub proof fn lex_room_step(n: nat, a: Seq<usize>, b: Seq<usize>, h: int)
    requires n >= 1, in_range(a, n), in_range(b, n), a.len() == b.len(), 0 <= h <= a.len(), head(a, h) == head(b, h), is_successor(tail(a, h), tail(b, h)) ensures 0 <= lex_room(n as int, b) < lex_room(n as int, a)
{
    let k = choose|k: int| lex_lt_at(tail(a, h), tail(b, h), k);
    assert(a.subrange(0, h + k) =~= head(a, h) + tail(a, h).subrange(0, k)); assert(b.subrange(0, h + k) =~= head(b, h) + tail(b, h).subrange(0, k));
    assert(lex_lt_at(a, b, h + k));
    assert(digits_ok(n as int, a)); assert(digits_ok(n as int, b));
    lex_dval(n as int, a, b, h + k); dval_bounds(n as int, b);
}

// ---- extending prefixes ----
/// t is a tour that starts with q
pub open spec fn extends(m: Mat, q: Seq<usize>, t: Seq<usize>) -> bool { is_tour(t, m.n) && is_prefix(q, t) }
/// every tour that starts with q is accounted for in c
pub open spec fn covered(m: Mat, q: Seq<usize>, c: f64) -> bool { forall|t: Seq<usize>| #[trigger] extends(m, q, t) ==> beats(m, c, t) }
/// ... those whose next city is below i
pub open spec fn covered_upto(m: Mat, q: Seq<usize>, i: int, c: f64) -> bool { forall|t: Seq<usize>| #[trigger] extends(m, q, t) && t[q.len() as int] < i ==> beats(m, c, t) }
pub open spec fn pfx(m: Mat, q: Seq<usize>) -> bool { in_range(q, m.n) && q.no_duplicates() }
/// nothing found yet, or a real tour
pub open spec fn sol_ok(m: Mat, r: (f64, Vec<usize>)) -> bool { pinf(r.0) || real_tour(m, r) }
/// a city below i is not in q
pub open spec fn some_free(q: Seq<usize>, i: int) -> bool { exists|j: usize| j < i && !#[trigger] q.contains(j) }
pub open spec fn found_if_free(q: Seq<usize>, i: int, c: f64) -> bool { some_free(q, i) ==> fin(c) }

pub proof fn pfx_push(m: Mat, q: Seq<usize>, i: usize) requires pfx(m, q), i < m.n, !q.contains(i) ensures pfx(m, q.push(i)), q.len() < m.n
{
    let r = q.push(i);
    assert forall|k: int| 0 <= k < r.len() implies #[trigger] r[k] < m.n by { if k < q.len() { assert(q[k] < m.n); } }
    assert(r.no_duplicates()) by { assert forall|a: int, b: int| 0 <= a < r.len() && 0 <= b < r.len() && a != b implies r[a] != r[b] by { if a == q.len() { assert(q[b] == r[b]); assert(q.contains(r[b])); } if b == q.len() { assert(q.contains(r[a])); } } }
    distinct_len_le(r, m.n);
}
pub proof fn pfx_free(m: Mat, q: Seq<usize>) requires pfx(m, q), q.len() < m.n, m.n <= usize::MAX ensures some_free(q, m.n as int)
{ if !some_free(q, m.n as int) { assert forall|v: int| 0 <= v < m.n implies #[trigger] has(q, v) by { assert(q.contains(v as usize)); let i = choose|i: int| 0 <= i < q.len() && q[i] == v as usize; assert(q[i] == v); } full_len(q, m.n); } }
pub proof fn covered_mono(m: Mat, q: Seq<usize>, i: int, c0: f64, c1: f64) requires covered_upto(m, q, i, c0), xle(c1, c0), num(c1) ensures covered_upto(m, q, i, c1)
{ assert forall|t: Seq<usize>| #[trigger] extends(m, q, t) && t[q.len() as int] < i implies beats(m, c1, t) by { assert(beats(m, c0, t)); } }
pub proof fn covered_skip(m: Mat, q: Seq<usize>, i: usize, c: f64) requires covered_upto(m, q, i as int, c), q.contains(i), q.len() < m.n ensures covered_upto(m, q, i + 1, c)
{ assert forall|t: Seq<usize>| #[trigger] extends(m, q, t) && t[q.len() as int] < i + 1 implies beats(m, c, t) by { if t[q.len() as int] == i { let k = choose|k: int| 0 <= k < q.len() && q[k] == i; assert(t.subrange(0, q.len() as int)[k] == t[k]); } } }
pub proof fn covered_step(m: Mat, q: Seq<usize>, i: usize, c: f64) requires covered_upto(m, q, i as int, c), covered(m, q.push(i), c), q.len() < m.n ensures covered_upto(m, q, i + 1, c)
{ assert forall|t: Seq<usize>| #[trigger] extends(m, q, t) && t[q.len() as int] < i + 1 implies beats(m, c, t) by { if t[q.len() as int] == i { let r = q.push(i); assert(r =~= t.subrange(0, r.len() as int)) by { assert forall|k: int| 0 <= k < r.len() implies r[k] == t.subrange(0, r.len() as int)[k] by { if k < q.len() { assert(q[k] == t.subrange(0, q.len() as int)[k]); } } } assert(extends(m, r, t)); } } }
pub proof fn covered_done(m: Mat, q: Seq<usize>, c: f64) requires covered_upto(m, q, m.n as int, c), q.len() < m.n ensures covered(m, q, c)
{ assert forall|t: Seq<usize>| #[trigger] extends(m, q, t) implies beats(m, c, t) by { assert(t[q.len() as int] < m.n); } }
pub proof fn covered_leaf(m: Mat, q: Seq<usize>, c: f64) requires q.len() == m.n, beats(m, c, q) ensures covered(m, q, c)
{ assert forall|t: Seq<usize>| #[trigger] extends(m, q, t) implies beats(m, c, t) by { assert(t.subrange(0, q.len() as int) =~= t); } }
pub proof fn covered_root(m: Mat, c: f64) requires covered(m, Seq::empty(), c) ensures optimal(m, c)
{ assert forall|t: Seq<usize>| #[trigger] is_tour(t, m.n) implies beats(m, c, t) by { assert(Seq::<usize>::empty() =~= t.subrange(0, 0)); assert(extends(m, Seq::empty(), t)); } }
/// closed length of a complete prefix
pub proof fn close_cost(m: Mat, q: Seq<usize>) requires cinst(m), pfx(m, q), q.len() == m.n ensures is_tour(q, m.n), cyc_cost(wf(m), q) == path_cost(wf(m), q) + wf(m)(q[q.len() - 1] as int, q[0] as int)
{ assert(q[0] < m.n); if q.len() == 1 { assert(path_cost(wf(m), q) == 0real); } }
/// what tours that start with q cost after q: the way from the last city of q through the rest back to q[0]
pub open spec fn rest_cost(w: W, t: Seq<usize>, k: int) -> real { path_cost(w, t.subrange(k - 1, t.len() as int)) + w(t[t.len() - 1] as int, t[0] as int) }
pub proof fn cost_split(m: Mat, t: Seq<usize>, k: int) requires cinst(m), is_tour(t, m.n), 1 <= k <= t.len() ensures cyc_cost(wf(m), t) == path_cost(wf(m), t.subrange(0, k)) + rest_cost(wf(m), t, k)
{
    let w = wf(m); let n = t.len() as int; let a = t.subrange(0, k - 1); let b = t.subrange(k - 1, n); let x = t.subrange(0, k);
    assert(t =~= a + b); assert(x =~= a + seq![t[k - 1]]);
    path_cost_concat(w, a, b); path_cost_concat(w, a, seq![t[k - 1]]);
    assert(path_cost(w, seq![t[k - 1]]) == 0real);
    assert(b[0] == t[k - 1]);
    assert(t[0] < m.n);
    if n == 1 { assert(path_cost(w, t) == 0real); }
}
/// lb is at most the cost of completing q, whatever the completion
pub open spec fn lb_ok(m: Mat, q: Seq<usize>, lb: f64) -> bool { fin(lb) && forall|t: Seq<usize>| #[trigger] extends(m, q, t) ==> rv(lb) <= rest_cost(wf(m), t, q.len() as int) }
pub proof fn lb_zero(m: Mat, q: Seq<usize>, z: f64) requires inst(m), 1 <= q.len() <= m.n, fin(z), rv(z) == 0real ensures lb_ok(m, q, z)
{
    assert forall|t: Seq<usize>| #[trigger] extends(m, q, t) implies rv(z) <= rest_cost(wf(m), t, q.len() as int) by {
        let b = t.subrange(q.len() - 1, t.len() as int);
        assert forall|i: int| 0 <= i < b.len() implies #[trigger] b[i] < m.n by { assert(t[q.len() - 1 + i] < m.n); }
        path_cost_nonneg(wf(m), b, m.n);
        assert(t[0] < m.n && t[t.len() - 1] < m.n);
        assert(wf(m)(t[t.len() - 1] as int, t[0] as int) >= 0real);
    }
}
/// a prefix whose cost plus lower bound exceeds c has no completion below c
pub proof fn pruned(m: Mat, q: Seq<usize>, cost: real, lb: f64, c: f64) requires inst(m), 1 <= q.len() <= m.n, cost == path_cost(wf(m), q), lb_ok(m, q, lb), fin(c), rv(c) <= cost + rv(lb) ensures covered(m, q, c)
{
    assert forall|t: Seq<usize>| #[trigger] extends(m, q, t) implies beats(m, c, t) by { cost_split(m, t, q.len() as int); assert(t.subrange(0, q.len() as int) =~= q); }
}
pub open spec fn ident(p: Seq<usize>) -> bool { forall|i: int| 0 <= i < p.len() ==> #[trigger] p[i] == i }
pub proof fn ident_tour(p: Seq<usize>, n: nat) requires ident(p), p.len() == n ensures is_tour(p, n) {}
pub proof fn covered_upto_eq(m: Mat, q: Seq<usize>, c0: f64, c1: f64) requires covered(m, q, c0), xle(c1, c0), num(c1) ensures covered(m, q, c1)
{ assert forall|t: Seq<usize>| #[trigger] extends(m, q, t) implies beats(m, c1, t) by { assert(beats(m, c0, t)); } }
pub proof fn pruned0(m: Mat, q: Seq<usize>, cost: real, c: f64) requires inst(m), 1 <= q.len() <= m.n, cost == path_cost(wf(m), q), fin(c), rv(c) <= cost ensures covered(m, q, c)
{
    assert forall|t: Seq<usize>| #[trigger] extends(m, q, t) implies beats(m, c, t) by {
        let k = q.len() as int;
        cost_split(m, t, k); assert(t.subrange(0, k) =~= q);
        let b = t.subrange(k - 1, t.len() as int);
        assert forall|i: int| 0 <= i < b.len() implies #[trigger] b[i] < m.n by { assert(t[k - 1 + i] < m.n); }
        path_cost_nonneg(wf(m), b, m.n);
        assert(t[0] < m.n && t[t.len() - 1] < m.n);
        assert(wf(m)(t[t.len() - 1] as int, t[0] as int) >= 0real);
    }
}
/// no tour is shorter than x
pub open spec fn below_tours(m: Mat, x: real) -> bool { forall|t: Seq<usize>| #[trigger] is_tour(t, m.n) ==> x <= cyc_cost(wf(m), t) }
/// hash of a prefix
pub open spec fn hp(q: Seq<usize>) -> u64 { fx(Seq::<Seq<usize>>::empty().push(q)) }
/// ASSUMED of the hash function, for the instance at hand: no two different prefixes have the same 64-bit hash
pub open spec fn no_collision(m: Mat) -> bool { forall|a: Seq<usize>, b: Seq<usize>| #[trigger] pfx(m, a) && #[trigger] pfx(m, b) && hp(a) == hp(b) ==> a == b }
