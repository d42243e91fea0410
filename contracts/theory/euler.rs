//# needs mst count
// Multigraphs as edge counts, closed walks, shortcuts.
pub type Cnt = spec_fn(int, int) -> int;
/// e joins i and j
pub open spec fn same(e: E2, i: int, j: int) -> bool { e == (i, j) || e == (j, i) }
/// how many edges of the list join i and j
pub open spec fn uocc(l: Seq<E2>, i: int, j: int) -> int decreases l.len() { if l.len() == 0 { 0 } else { uocc(l.drop_last(), i, j) + if same(l[l.len() - 1], i, j) { 1int } else { 0 } } }
pub proof fn uocc_push(l: Seq<E2>, e: E2, i: int, j: int) ensures uocc(l.push(e), i, j) == uocc(l, i, j) + if same(e, i, j) { 1int } else { 0 } { assert(l.push(e).drop_last() =~= l); }
pub proof fn uocc_bounds(l: Seq<E2>, i: int, j: int) ensures 0 <= uocc(l, i, j) <= l.len(), uocc(l, i, j) == uocc(l, j, i) decreases l.len() { if l.len() > 0 { uocc_bounds(l.drop_last(), i, j); } }
pub proof fn uocc_concat(a: Seq<E2>, b: Seq<E2>, i: int, j: int) ensures uocc(a + b, i, j) == uocc(a, i, j) + uocc(b, i, j) decreases b.len()
{ if b.len() == 0 { assert(a + b =~= a); } else { assert((a + b).drop_last() =~= a + b.drop_last()); uocc_concat(a, b.drop_last(), i, j); } }
pub open spec fn joined(l: Seq<E2>, i: int, j: int) -> bool { exists|k: int| 0 <= k < l.len() && same(#[trigger] l[k], i, j) }
pub proof fn uocc_pos(l: Seq<E2>, i: int, j: int) ensures uocc(l, i, j) > 0 <==> joined(l, i, j) decreases l.len()
{
    if l.len() > 0 {
        let r = l.drop_last(); uocc_pos(r, i, j); uocc_bounds(r, i, j);
        if joined(r, i, j) { let k = choose|k: int| 0 <= k < r.len() && same(#[trigger] r[k], i, j); assert(same(l[k], i, j)); }
        if same(l[l.len() - 1], i, j) { assert(joined(l, i, j)); }
        if joined(l, i, j) { let k = choose|k: int| 0 <= k < l.len() && same(#[trigger] l[k], i, j); if k < r.len() { assert(same(r[k], i, j)); } }
    }
}
pub proof fn uocc_remove(l: Seq<E2>, k: int, i: int, j: int) requires 0 <= k < l.len() ensures uocc(l.remove(k), i, j) == uocc(l, i, j) - if same(l[k], i, j) { 1int } else { 0 } decreases l.len()
{
    if k == l.len() - 1 { assert(l.remove(k) =~= l.drop_last()); }
    else { uocc_remove(l.drop_last(), k, i, j); assert(l.remove(k).drop_last() =~= l.drop_last().remove(k)); assert(l.remove(k)[l.len() - 2] == l[l.len() - 1]); }
}
/// lists with the same counts weigh the same
pub proof fn same_counts_weight(a: Seq<E2>, b: Seq<E2>, w: W, n: nat) requires edges_in(a, n), edges_in(b, n), symm(w, n), forall|i: int, j: int| 0 <= i < n && 0 <= j < n ==> #[trigger] uocc(a, i, j) == uocc(b, i, j) ensures tw(w, a) == tw(w, b) decreases a.len()
{
    if a.len() == 0 {
        if b.len() > 0 { let e = b[0]; assert(edge_in(e, n)); uocc_pos(b, e.0, e.1); assert(same(b[0], e.0, e.1)); assert(uocc(a, e.0, e.1) == 0); }
    } else {
        let h = a.len() - 1; let e = a[h]; assert(edge_in(e, n));
        uocc_pos(a, e.0, e.1); assert(same(a[h], e.0, e.1)); assert(uocc(a, e.0, e.1) == uocc(b, e.0, e.1)); uocc_pos(b, e.0, e.1);
        let k = choose|k: int| 0 <= k < b.len() && same(#[trigger] b[k], e.0, e.1);
        let a2 = a.drop_last(); let b2 = b.remove(k);
        assert forall|i: int, j: int| 0 <= i < n && 0 <= j < n implies #[trigger] uocc(a2, i, j) == uocc(b2, i, j) by { uocc_remove(b, k, i, j); assert(uocc(a, i, j) == uocc(b, i, j)); }
        assert(edges_in(a2, n)) by { assert forall|x: int| 0 <= x < a2.len() implies edge_in(#[trigger] a2[x], n) by { assert(edge_in(a[x], n)); } }
        assert(edges_in(b2, n)) by { assert forall|x: int| 0 <= x < b2.len() implies edge_in(#[trigger] b2[x], n) by { assert(edge_in(b[if x < k { x } else { x + 1 }], n)); } }
        same_counts_weight(a2, b2, w, n);
        ssum_remove(b, k, ew(w)); assert(edge_in(b[k], n));
        assert(ew(w)(b[k]) == ew(w)(e)) by { assert(w(e.0, e.1) == w(e.1, e.0)); }
    }
}
pub open spec fn loopless(l: Seq<E2>) -> bool { forall|k: int| 0 <= k < l.len() ==> (#[trigger] l[k]).0 != l[k].1 }
/// number of ends of edges at v
pub open spec fn edeg(l: Seq<E2>, v: int) -> int decreases l.len() { if l.len() == 0 { 0 } else { edeg(l.drop_last(), v) + (if l[l.len() - 1].0 == v { 1int } else { 0 }) + (if l[l.len() - 1].1 == v { 1int } else { 0 }) } }
pub proof fn edeg_concat(a: Seq<E2>, b: Seq<E2>, v: int) ensures edeg(a + b, v) == edeg(a, v) + edeg(b, v) decreases b.len()
{ if b.len() == 0 { assert(a + b =~= a); } else { assert((a + b).drop_last() =~= a + b.drop_last()); edeg_concat(a, b.drop_last(), v); } }
pub proof fn edeg_nonneg(l: Seq<E2>, v: int) ensures edeg(l, v) >= 0 decreases l.len() { if l.len() > 0 { edeg_nonneg(l.drop_last(), v); } }
// ---- degrees in a matrix of counts ----
pub open spec fn colsum(c: Cnt, v: int, k: int) -> int decreases k { if k <= 0 { 0 } else { colsum(c, v, k - 1) + c(k - 1, v) } }
pub proof fn colsum_bounds(c: Cnt, v: int, k: int, n: int, b: int) requires 0 <= k <= n, b >= 0, forall|i: int| 0 <= i < n ==> 0 <= #[trigger] c(i, v) <= b ensures 0 <= colsum(c, v, k) <= k * b decreases k
{ if k > 0 { colsum_bounds(c, v, k - 1, n, b); assert((k - 1) * b + b == k * b) by (nonlinear_arith); assert(0 <= c(k - 1, v) <= b); } else { assert(0 * b == 0) by (nonlinear_arith); } }
pub proof fn colsum_at(c: Cnt, v: int, k: int, i: int) requires 0 <= i < k, forall|j: int| 0 <= j < k ==> 0 <= #[trigger] c(j, v) ensures colsum(c, v, k) >= c(i, v), colsum(c, v, k) >= 0 decreases k
{ if k > 0 { assert(0 <= c(k - 1, v)); if i < k - 1 { colsum_at(c, v, k - 1, i); } else { if k > 1 { colsum_at(c, v, k - 1, 0); } } } }
pub proof fn colsum_zero(c: Cnt, v: int, k: int) requires forall|j: int| 0 <= j < k ==> #[trigger] c(j, v) == 0 ensures colsum(c, v, k) == 0 decreases k { if k > 0 { colsum_zero(c, v, k - 1); assert(c(k - 1, v) == 0); } }
pub proof fn colsum_eq(c: Cnt, d: Cnt, v: int, k: int) requires forall|j: int| 0 <= j < k ==> #[trigger] c(j, v) == d(j, v) ensures colsum(c, v, k) == colsum(d, v, k) decreases k { if k > 0 { colsum_eq(c, d, v, k - 1); assert(c(k - 1, v) == d(k - 1, v)); } }
/// the counts of a list of edges have its degrees
pub proof fn colsum_list(l: Seq<E2>, c: Cnt, v: int, n: nat, k: int) requires 0 <= k <= n, loopless(l), edges_in(l, n), forall|i: int| 0 <= i < n ==> #[trigger] c(i, v) == uocc(l, i, v)
    ensures k == n ==> colsum(c, v, k) == edeg(l, v) decreases l.len()
{
    if l.len() == 0 { assert forall|j: int| 0 <= j < k implies #[trigger] c(j, v) == 0 by {} colsum_zero(c, v, k); }
    else {
        let r = l.drop_last(); let e = l[l.len() - 1]; assert(edge_in(e, n)); assert(e.0 != e.1);
        assert(edges_in(r, n)) by { assert forall|x: int| 0 <= x < r.len() implies edge_in(#[trigger] r[x], n) by { assert(edge_in(l[x], n)); } }
        assert(loopless(r)) by { assert forall|x: int| 0 <= x < r.len() implies (#[trigger] r[x]).0 != r[x].1 by { assert(l[x].0 != l[x].1); } }
        let d = |i: int, j: int| uocc(r, i, j);
        colsum_list(r, d, v, n, k);
        let other = if e.0 == v { e.1 } else if e.1 == v { e.0 } else { -1 };
        assert forall|i: int| 0 <= i < n implies #[trigger] c(i, v) == d(i, v) + if i == other { 1int } else { 0 } by {}
        colsum_one(c, d, v, other, 1, n as int);
    }
}
/// one entry of the column changed by x
pub proof fn colsum_one(c: Cnt, d: Cnt, v: int, a: int, x: int, k: int) requires forall|i: int| 0 <= i < k ==> #[trigger] c(i, v) == d(i, v) + if i == a { x } else { 0 } ensures colsum(c, v, k) == colsum(d, v, k) + if 0 <= a < k { x } else { 0 } decreases k
{ if k > 0 { colsum_one(c, d, v, a, x, k - 1); assert(c(k - 1, v) == d(k - 1, v) + if k - 1 == a { x } else { 0 }); } }
pub open spec fn dsum(d: Seq<usize>) -> int decreases d.len() { if d.len() == 0 { 0 } else { dsum(d.drop_last()) + d[d.len() - 1] } }
pub proof fn dsum_nonneg(d: Seq<usize>) ensures dsum(d) >= 0 decreases d.len() { if d.len() > 0 { dsum_nonneg(d.drop_last()); } }
pub proof fn dsum_update(d: Seq<usize>, i: int, x: usize) requires 0 <= i < d.len() ensures dsum(d.update(i, x)) == dsum(d) - d[i] + x decreases d.len()
{ let e = d.update(i, x); if i == d.len() - 1 { assert(e.drop_last() =~= d.drop_last()); } else { dsum_update(d.drop_last(), i, x); assert(e.drop_last() =~= d.drop_last().update(i, x)); } }
/// symmetric loop-free counts with their degrees
pub open spec fn cnt_ok(n: nat, c: Cnt) -> bool { (forall|i: int, j: int| 0 <= i < n && 0 <= j < n ==> 0 <= #[trigger] c(i, j) == c(j, i)) && forall|i: int| 0 <= i < n ==> #[trigger] c(i, i) == 0 }
pub open spec fn mg_ok(n: nat, c: Cnt, d: Seq<usize>) -> bool { cnt_ok(n, c) && d.len() == n && forall|v: int| 0 <= v < n ==> #[trigger] d[v] == colsum(c, v, n as int) }
/// all degrees are even, except for those of s and v if they differ
pub open spec fn evens_but(d: Seq<usize>, s: int, v: int) -> bool { forall|u: int| 0 <= u < d.len() ==> (#[trigger] d[u]) % 2 == if (u == s) != (u == v) { 1int } else { 0 } }
pub open spec fn evens(d: Seq<usize>) -> bool { forall|u: int| 0 <= u < d.len() ==> (#[trigger] d[u]) % 2 == 0 }
/// c2 is c without one edge a - b
pub open spec fn less_edge(n: nat, c: Cnt, c2: Cnt, a: int, b: int) -> bool { forall|i: int, j: int| 0 <= i < n && 0 <= j < n ==> #[trigger] c2(i, j) == c(i, j) - if same((a, b), i, j) { 1int } else { 0 } }
pub proof fn mg_pos(n: nat, c: Cnt, d: Seq<usize>, a: int, b: int) requires mg_ok(n, c, d), 0 <= a < n, 0 <= b < n, c(a, b) >= 1 ensures a != b, c(b, a) >= 1, d[a] >= 1, d[b] >= 1
{ assert(c(a, b) == c(b, a)); assert(c(a, a) == 0); assert forall|j: int| 0 <= j < n implies 0 <= #[trigger] c(j, a) by {} assert forall|j: int| 0 <= j < n implies 0 <= #[trigger] c(j, b) by {} colsum_at(c, a, n as int, b); colsum_at(c, b, n as int, a); }
pub proof fn mg_step(n: nat, c: Cnt, d: Seq<usize>, c2: Cnt, d2: Seq<usize>, a: int, b: int, s: int)
    requires mg_ok(n, c, d), 0 <= a < n, 0 <= b < n, c(a, b) >= 1, less_edge(n, c, c2, a, b), d[a] >= 1, d[b] >= 1, d2 == d.update(a, (d[a] - 1) as usize).update(b, (d[b] - 1) as usize), evens_but(d, s, a)
    ensures mg_ok(n, c2, d2), dsum(d2) == dsum(d) - 2, evens_but(d2, s, b)
{
    mg_pos(n, c, d, a, b);
    let d1 = d.update(a, (d[a] - 1) as usize);
    dsum_update(d, a, (d[a] - 1) as usize); dsum_update(d1, b, (d[b] - 1) as usize);
    assert forall|i: int, j: int| 0 <= i < n && 0 <= j < n implies 0 <= #[trigger] c2(i, j) == c2(j, i) by { assert(c(i, j) == c(j, i)); }
    assert forall|i: int| 0 <= i < n implies #[trigger] c2(i, i) == 0 by { assert(c(i, i) == 0); }
    assert forall|v: int| 0 <= v < n implies #[trigger] d2[v] == colsum(c2, v, n as int) by {
        let x = if v == a { b } else if v == b { a } else { -1 };
        assert forall|i: int| 0 <= i < n implies #[trigger] c2(i, v) == c(i, v) + if i == x { -1int } else { 0 } by {}
        colsum_one(c2, c, v, x, -1, n as int);
    }
    assert forall|u: int| 0 <= u < d2.len() implies (#[trigger] d2[u]) % 2 == if (u == s) != (u == b) { 1int } else { 0 } by { assert(d[u] % 2 == if (u == s) != (u == a) { 1int } else { 0 }); }
}
/// a walk that cannot go on has come back
pub proof fn stuck_home(n: nat, c: Cnt, d: Seq<usize>, s: int, v: int) requires mg_ok(n, c, d), evens_but(d, s, v), 0 <= v < n, forall|j: int| 0 <= j < n ==> #[trigger] c(v, j) == 0 ensures v == s, d[v] == 0
{ assert forall|j: int| 0 <= j < n implies #[trigger] c(j, v) == 0 by { assert(c(v, j) == 0); } colsum_zero(c, v, n as int); assert(d[v] % 2 == if (v == s) != (v == v) { 1int } else { 0 }); }
// ---- splicing closed walks ----
pub open spec fn splice(p: Seq<usize>, k: int, y: Seq<usize>) -> Seq<usize> { p.subrange(0, k + 1) + y.subrange(1, y.len() as int) + p.subrange(k + 1, p.len() as int) }
pub proof fn path_edges_join(a: Seq<usize>, b: Seq<usize>) requires a.len() >= 1, b.len() >= 1, a[a.len() - 1] == b[0] ensures path_edges(a + b.subrange(1, b.len() as int)) == path_edges(a) + path_edges(b) decreases b.len()
{
    let j = a + b.subrange(1, b.len() as int);
    if b.len() == 1 { assert(j =~= a); assert(path_edges(b) =~= Seq::<E2>::empty()); assert(path_edges(a) + path_edges(b) =~= path_edges(a)); }
    else {
        let b2 = b.drop_last(); path_edges_join(a, b2);
        assert(j.drop_last() =~= a + b2.subrange(1, b2.len() as int));
        assert(j[j.len() - 2] == b[b.len() - 2]) by { if b.len() == 2 { assert(j[j.len() - 2] == a[a.len() - 1]); } }
        assert(path_edges(j) =~= path_edges(a) + path_edges(b));
    }
}
pub proof fn splice_count(p: Seq<usize>, k: int, y: Seq<usize>, i: int, j: int) requires 0 <= k < p.len(), y.len() >= 1, y[0] == p[k], y[y.len() - 1] == p[k]
    ensures uocc(path_edges(splice(p, k, y)), i, j) == uocc(path_edges(p), i, j) + uocc(path_edges(y), i, j)
{
    let x = p.subrange(0, k + 1); let z = p.subrange(k, p.len() as int); let t = p.subrange(k + 1, p.len() as int);
    assert(z.subrange(1, z.len() as int) =~= t);
    assert(x + t =~= p);
    path_edges_join(x, z);
    let xy = x + y.subrange(1, y.len() as int);
    path_edges_join(x, y);
    assert(xy[xy.len() - 1] == p[k]) by { if y.len() > 1 { assert(xy[xy.len() - 1] == y[y.len() - 1]); } }
    path_edges_join(xy, z);
    uocc_concat(path_edges(x), path_edges(z), i, j); uocc_concat(path_edges(x), path_edges(y), i, j); uocc_concat(path_edges(xy), path_edges(z), i, j);
}
pub proof fn splice_ends(p: Seq<usize>, k: int, y: Seq<usize>, n: nat) requires 0 <= k < p.len(), y.len() >= 1, y[0] == p[k], y[y.len() - 1] == p[k], in_range(p, n), in_range(y, n)
    ensures ({ let r = splice(p, k, y); r.len() == p.len() + y.len() - 1 && r[0] == p[0] && r[r.len() - 1] == p[p.len() - 1] && in_range(r, n) })
{
    let r = splice(p, k, y);
    assert forall|i: int| 0 <= i < r.len() implies #[trigger] r[i] < n by { if i <= k { assert(r[i] == p[i]); } else if i < k + y.len() { assert(r[i] == y[i - k]); } else { assert(r[i] == p[i - y.len() + 1]); } }
    if k == p.len() - 1 { if y.len() > 1 { assert(r[r.len() - 1] == y[y.len() - 1]); } }
}
/// some edge leaves every proper part of the vertices
pub open spec fn exit_from(n: nat, c: Cnt, x: P, a: int, b: int) -> bool { 0 <= a < n && 0 <= b < n && x(a) && !x(b) && c(a, b) >= 1 }
pub open spec fn vset(n: nat) -> P { |a: int| 0 <= a < n }
pub open spec fn cnt_connected(n: nat, c: Cnt) -> bool { forall|x: P| #[trigger] splits(x, vset(n)) ==> exists|a: int, b: int| #[trigger] exit_from(n, c, x, a, b) }
/// a closed walk whose vertices have no edges left visits everything
pub proof fn walk_covers(n: nat, c0: Cnt, c: Cnt, d: Seq<usize>, p: Seq<usize>)
    requires n >= 1, cnt_connected(n, c0), mg_ok(n, c, d), in_range(p, n), p.len() >= 1, forall|k: int| 0 <= k < p.len() ==> d[#[trigger] p[k] as int] == 0,
        forall|i: int, j: int| 0 <= i < n && 0 <= j < n ==> uocc(path_edges(p), i, j) + #[trigger] c(i, j) == c0(i, j)
    ensures forall|v: int| 0 <= v < n ==> has(p, v), forall|i: int, j: int| 0 <= i < n && 0 <= j < n ==> #[trigger] uocc(path_edges(p), i, j) == c0(i, j)
{
    assert forall|v: int| 0 <= v < n implies has(p, v) by {
        if !(has(p, v)) {
            let x: P = |a: int| has(p, a);
            assert(has(p, p[0] as int)); assert(p[0] < n);
            assert(vset(n)(p[0] as int) && x(p[0] as int)); assert(vset(n)(v) && !x(v));
            assert(splits(x, vset(n)));
            let (a, b) = choose|a: int, b: int| #[trigger] exit_from(n, c0, x, a, b);
            uocc_pos(path_edges(p), a, b); uocc_bounds(path_edges(p), a, b); path_edges_at(p);
            if uocc(path_edges(p), a, b) > 0 { let k = choose|k: int| 0 <= k < path_edges(p).len() && same(#[trigger] path_edges(p)[k], a, b); assert(path_edges(p)[k] == (p[k] as int, p[k + 1] as int)); assert(has(p, b)); }
            assert(c(a, b) == c0(a, b));
            mg_pos(n, c, d, a, b);
            let k = choose|k: int| 0 <= k < p.len() && #[trigger] p[k] == a; assert(d[p[k] as int] == 0);
        }
    }
    assert forall|i: int, j: int| 0 <= i < n && 0 <= j < n implies #[trigger] uocc(path_edges(p), i, j) == c0(i, j) by {
        assert(has(p, i)); let k = choose|k: int| 0 <= k < p.len() && #[trigger] p[k] == i; assert(d[p[k] as int] == 0); assert(d[i] == colsum(c, i, n as int));
        assert forall|x: int| 0 <= x < n implies 0 <= #[trigger] c(x, i) by { assert(c(x, i) == c(i, x)); }
        colsum_at(c, i, n as int, j); assert(c(i, j) == c(j, i)); assert(c(j, i) >= 0);
        assert(uocc(path_edges(p), i, j) + c(i, j) == c0(i, j));
    }
}
// ---- shortcuts ----
/// the first occurrences, in order
pub open spec fn firsts(s: Seq<usize>) -> Seq<usize> decreases s.len() { if s.len() == 0 { Seq::empty() } else { let q = s.drop_last(); let x = s[s.len() - 1]; if q.contains(x) { firsts(q) } else { firsts(q).push(x) } } }
pub proof fn firsts_facts(s: Seq<usize>) ensures firsts(s).no_duplicates(), forall|v: usize| #[trigger] firsts(s).contains(v) <==> s.contains(v), s.len() > 0 ==> firsts(s).len() > 0 && firsts(s)[0] == s[0] decreases s.len()
{
    if s.len() > 0 {
        let q = s.drop_last(); let x = s[s.len() - 1]; firsts_facts(q); let f = firsts(q);
        assert forall|v: usize| #[trigger] firsts(s).contains(v) <==> s.contains(v) by {
            assert(s.contains(v) <==> q.contains(v) || v == x) by { if s.contains(v) { let i = choose|i: int| 0 <= i < s.len() && s[i] == v; if i < q.len() { assert(q[i] == v); } } if q.contains(v) { let i = choose|i: int| 0 <= i < q.len() && q[i] == v; assert(s[i] == v); } if v == x { assert(s[s.len() - 1] == v); } }
            assert(f.contains(v) <==> q.contains(v));
            if !q.contains(x) { let g = f.push(x); assert(g.contains(v) <==> f.contains(v) || v == x) by { if g.contains(v) { let i = choose|i: int| 0 <= i < g.len() && g[i] == v; if i < f.len() { assert(f[i] == v); } } if f.contains(v) { let i = choose|i: int| 0 <= i < f.len() && f[i] == v; assert(g[i] == v); } if v == x { assert(g[f.len() as int] == v); } } }
        }
        if !q.contains(x) { assert(!f.contains(x)); assert forall|i: int, j: int| 0 <= i < firsts(s).len() && 0 <= j < firsts(s).len() && i != j implies firsts(s)[i] != firsts(s)[j] by { if i == f.len() { assert(f.contains(f[j])); } if j == f.len() { assert(f.contains(f[i])); } } }
        if q.len() > 0 { assert(q[0] == s[0]); } else { assert(!q.contains(x)); assert(f.len() == 0); }
    }
}
pub proof fn firsts_tour(s: Seq<usize>, n: nat) requires in_range(s, n), forall|v: int| 0 <= v < n ==> has(s, v), n <= usize::MAX, s.len() > 0 ensures is_tour(firsts(s), n)
{
    firsts_facts(s); let f = firsts(s);
    assert forall|i: int| 0 <= i < f.len() implies #[trigger] f[i] < n by { assert(f.contains(f[i])); assert(s.contains(f[i])); let k = choose|k: int| 0 <= k < s.len() && s[k] == f[i]; assert(s[k] < n); }
    distinct_len_le(f, n);
    assert(f.len() >= n) by {
        let r = Seq::new(n, |i: int| i as usize);
        assert(r.no_duplicates());
        r.unique_seq_to_set(); f.unique_seq_to_set();
        assert(r.to_set().subset_of(f.to_set())) by { assert forall|a: usize| r.to_set().contains(a) implies f.to_set().contains(a) by { let i = choose|i: int| 0 <= i < r.len() && r[i] == a; assert(has(s, a as int)); let k = choose|k: int| 0 <= k < s.len() && #[trigger] s[k] == a as int; assert(s[k] == a); assert(s.contains(a)); assert(f.contains(a)); } }
        vstd::set_lib::lemma_len_subset(r.to_set(), f.to_set());
    }
}
pub open spec fn tri0(w: W, n: nat) -> bool { forall|i: int, j: int, k: int| 0 <= i < n && 0 <= j < n && 0 <= k < n ==> #[trigger] w(i, j) <= #[trigger] w(i, k) + w(k, j) }
/// leaving out repeated vertices does not make a walk longer
pub proof fn firsts_cost(w: W, n: nat, s: Seq<usize>) requires tri0(w, n), in_range(s, n), s.len() > 0, forall|i: int| 0 <= i < n ==> #[trigger] w(i, i) == 0real
    ensures firsts(s).len() > 0, path_cost(w, firsts(s)) + w(firsts(s)[firsts(s).len() - 1] as int, s[s.len() - 1] as int) <= path_cost(w, s) decreases s.len()
{
    let q = s.drop_last(); let x = s[s.len() - 1]; let f = firsts(q);
    assert(x < n);
    if q.len() == 0 { assert(f =~= Seq::<usize>::empty()); assert(!q.contains(x)); assert(firsts(s) =~= seq![x]); assert(path_cost(w, firsts(s)) == 0real); assert(w(x as int, x as int) == 0real); }
    else {
        firsts_cost(w, n, q); firsts_facts(q); let l = f[f.len() - 1]; let y = q[q.len() - 1];
        assert(f.contains(l)); assert(q.contains(l)); let k = choose|k: int| 0 <= k < q.len() && q[k] == l; assert(s[k] < n); assert(s[s.len() - 2] < n);
        assert(w(l as int, x as int) <= w(l as int, y as int) + w(y as int, x as int));
        assert(path_cost(w, s) == path_cost(w, q) + w(y as int, x as int));
        if !q.contains(x) { path_cost_push(w, f, x); assert(w(x as int, x as int) == 0real); }
    }
}
