//# needs pairs
// Spanning trees and the cut argument.
pub type E2 = (int, int);
/// set of vertices
pub type P = spec_fn(int) -> bool;
pub open spec fn ew(w: W) -> spec_fn(E2) -> real { |e: E2| w(e.0, e.1) }
/// total weight of a list of edges
pub open spec fn tw(w: W, f: Seq<E2>) -> real { ssum(f, ew(w)) }
pub open spec fn edge_in(e: E2, n: nat) -> bool { 0 <= e.0 < n && 0 <= e.1 < n }
pub open spec fn edges_in(f: Seq<E2>, n: nat) -> bool { forall|k: int| 0 <= k < f.len() ==> edge_in(#[trigger] f[k], n) }
/// e joins x to the rest of v
pub open spec fn cross(e: E2, x: P, v: P) -> bool { v(e.0) && v(e.1) && (x(e.0) != x(e.1)) }
pub open spec fn some_cross(f: Seq<E2>, x: P, v: P) -> bool { exists|k: int| 0 <= k < f.len() && cross(#[trigger] f[k], x, v) }
/// v has a vertex in x and one outside of x
pub open spec fn splits(x: P, v: P) -> bool { (exists|a: int| #[trigger] v(a) && x(a)) && (exists|b: int| #[trigger] v(b) && !x(b)) }
/// the edges connect all vertices of v: every division of v into two parts is bridged by an edge within v
pub open spec fn connects(f: Seq<E2>, v: P, n: nat) -> bool { edges_in(f, n) && forall|x: P| #[trigger] splits(x, v) ==> some_cross(f, x, v) }
/// ... if the vertices of s are already connected
pub open spec fn above(x: P, s: P, v: P) -> bool { (forall|a: int| #[trigger] s(a) && v(a) ==> x(a)) && (exists|b: int| #[trigger] v(b) && !x(b)) }
pub open spec fn connects_mod(f: Seq<E2>, v: P, s: P) -> bool { forall|x: P| #[trigger] above(x, s, v) ==> some_cross(f, x, v) }
pub open spec fn plus(s: P, u: int) -> P { |a: int| s(a) || a == u }
/// what remains of a competitor f when c has been spent on connecting s
pub open spec fn remains(w: W, n: nat, v: P, s: P, c: real, f: Seq<E2>, r: Seq<E2>) -> bool { edges_in(r, n) && connects_mod(r, v, s) && c + tw(w, r) <= tw(w, f) }
pub open spec fn has_rest(w: W, n: nat, v: P, s: P, c: real, f: Seq<E2>) -> bool { exists|r: Seq<E2>| #[trigger] remains(w, n, v, s, c, f, r) }
/// spending c on connecting s can be continued to something not heavier than any competitor
pub open spec fn opt_upto(w: W, n: nat, v: P, s: P, c: real) -> bool { forall|f: Seq<E2>| #[trigger] connects(f, v, n) ==> has_rest(w, n, v, s, c, f) }
pub open spec fn symm(w: W, n: nat) -> bool { forall|i: int, j: int| 0 <= i < n && 0 <= j < n ==> #[trigger] w(i, j) == w(j, i) }
/// p - u is a lightest edge from s to the rest of v
pub open spec fn light(w: W, v: P, s: P, u: int, c: real) -> bool { forall|a: int, b: int| #[trigger] s(a) && #[trigger] v(b) && v(a) && !s(b) ==> c <= w(a, b) }

/// position i of r is the only edge between x and the rest of v
pub open spec fn only(r: Seq<E2>, i: int, x: P, s: P, u: int, v: P) -> bool { above(x, plus(s, u), v) && forall|k: int| 0 <= k < r.len() && k != i ==> !cross(#[trigger] r[k], x, v) }
pub open spec fn blocked(r: Seq<E2>, i: int, s: P, u: int, v: P) -> bool { exists|x: P| #[trigger] only(r, i, x, s, u, v) }
/// some edge out of s can be dropped from r after u has been connected to s otherwise
pub proof fn can_drop(r: Seq<E2>, s: P, u: int, v: P) -> (i: int)
    requires connects_mod(r, v, s), v(u), !s(u), exists|a: int| #[trigger] v(a) && s(a)
    ensures 0 <= i < r.len(), cross(r[i], s, v), !blocked(r, i, s, u, v)
{
    if !(exists|i: int| 0 <= i < r.len() && cross(#[trigger] r[i], s, v) && !blocked(r, i, s, u, v)) {
        let xs = |i: int| choose|x: P| #[trigger] only(r, i, x, s, u, v);
        let far = |i: int, a: int| 0 <= i < r.len() && cross(r[i], s, v) && v(a) && !(xs(i))(a);
        let z: P = |a: int| s(a) || exists|i: int| #[trigger] far(i, a);
        assert forall|i: int| 0 <= i < r.len() && cross(#[trigger] r[i], s, v) implies only(r, i, xs(i), s, u, v) by { assert(blocked(r, i, s, u, v)); }
        assert(above(z, s, v)) by {
            assert(!z(u)) by { if exists|i: int| #[trigger] far(i, u) { let i = choose|i: int| #[trigger] far(i, u); assert(only(r, i, xs(i), s, u, v)); assert(plus(s, u)(u)); } }
        }
        assert(some_cross(r, z, v));
        let k = choose|k: int| 0 <= k < r.len() && cross(#[trigger] r[k], z, v);
        let a = if z(r[k].0) { r[k].0 } else { r[k].1 };
        let b = if z(r[k].0) { r[k].1 } else { r[k].0 };
        assert(z(a) && !z(b) && v(a) && v(b));
        assert(!s(b));
        if s(a) {
            // r[k] leaves s itself
            assert(cross(r[k], s, v));
            assert(only(r, k, xs(k), s, u, v));
            assert(plus(s, u)(a)); assert((xs(k))(a));
            assert(above(xs(k), s, v)) by { assert forall|c: int| #[trigger] s(c) && v(c) implies (xs(k))(c) by { assert(plus(s, u)(c)); } }
            assert(some_cross(r, xs(k), v));
            let j = choose|j: int| 0 <= j < r.len() && cross(#[trigger] r[j], xs(k), v);
            assert(j == k);
            assert(far(k, b));
        } else {
            let i = choose|i: int| #[trigger] far(i, a);
            assert(!far(i, b));
            assert((xs(i))(b) && !(xs(i))(a));
            assert(cross(r[k], xs(i), v));
            assert(k == i);
            assert(cross(r[k], s, v));
        }
        assert(false);
    }
    choose|i: int| 0 <= i < r.len() && cross(#[trigger] r[i], s, v) && !blocked(r, i, s, u, v)
}
pub proof fn opt_step(w: W, n: nat, v: P, s: P, c: real, p: int, u: int)
    requires opt_upto(w, n, v, s, c), v(u), !s(u), s(p), v(p), symm(w, n), light(w, v, s, u, w(p, u)), 0 <= p < n, 0 <= u < n
    ensures opt_upto(w, n, v, plus(s, u), c + w(p, u))
{
    assert forall|f: Seq<E2>| #[trigger] connects(f, v, n) implies has_rest(w, n, v, plus(s, u), c + w(p, u), f) by {
        assert(has_rest(w, n, v, s, c, f));
        let r = choose|r: Seq<E2>| #[trigger] remains(w, n, v, s, c, f, r);
        let i = can_drop(r, s, u, v);
        let q = r.remove(i);
        ssum_remove(r, i, ew(w));
        assert(edge_in(r[i], n));
        assert(ew(w)(r[i]) == w(r[i].0, r[i].1));
        assert(w(r[i].0, r[i].1) == w(r[i].1, r[i].0));
        assert(w(p, u) <= w(r[i].0, r[i].1)) by { if s(r[i].0) { assert(v(r[i].1)); } else { assert(s(r[i].1) && v(r[i].0)); } }
        assert(edges_in(q, n)) by { assert forall|k: int| 0 <= k < q.len() implies edge_in(#[trigger] q[k], n) by { if k < i { assert(q[k] == r[k]); } else { assert(q[k] == r[k + 1]); } } }
        assert(connects_mod(q, v, plus(s, u))) by {
            assert forall|x: P| #[trigger] above(x, plus(s, u), v) implies some_cross(q, x, v) by {
                if !some_cross(q, x, v) {
                    assert(only(r, i, x, s, u, v)) by { assert forall|k: int| 0 <= k < r.len() && k != i implies !cross(#[trigger] r[k], x, v) by { if k < i { assert(q[k] == r[k]); } else { assert(q[k - 1] == r[k]); } } }
                    assert(blocked(r, i, s, u, v));
                }
            }
        }
        assert(remains(w, n, v, plus(s, u), c + w(p, u), f, q));
    }
}
pub proof fn opt_start(w: W, n: nat, v: P, s: P) requires exists|a: int| #[trigger] s(a) && v(a) ensures opt_upto(w, n, v, s, 0real)
{
    assert forall|f: Seq<E2>| #[trigger] connects(f, v, n) implies has_rest(w, n, v, s, 0real, f) by {
        assert forall|x: P| #[trigger] above(x, s, v) implies some_cross(f, x, v) by { assert(splits(x, v)); }
        assert(remains(w, n, v, s, 0real, f, f));
    }
}
pub proof fn tw_nonneg(w: W, f: Seq<E2>, n: nat) requires nonneg(w, n), edges_in(f, n) ensures tw(w, f) >= 0real decreases f.len()
{
    if f.len() > 0 { let g = f.drop_last(); assert(edges_in(g, n)) by { assert forall|k: int| 0 <= k < g.len() implies edge_in(#[trigger] g[k], n) by { assert(edge_in(f[k], n)); } } tw_nonneg(w, g, n); assert(edge_in(f[f.len() - 1], n)); assert(w(f[f.len() - 1].0, f[f.len() - 1].1) >= 0real); }
}
/// c is at most the weight of everything that connects v
pub open spec fn lightest(w: W, n: nat, v: P, c: real) -> bool { forall|f: Seq<E2>| #[trigger] connects(f, v, n) ==> c <= tw(w, f) }
pub proof fn opt_end(w: W, n: nat, v: P, s: P, c: real) requires opt_upto(w, n, v, s, c), nonneg(w, n) ensures lightest(w, n, v, c)
{
    assert forall|f: Seq<E2>| #[trigger] connects(f, v, n) implies c <= tw(w, f) by {
        assert(has_rest(w, n, v, s, c, f));
        let r = choose|r: Seq<E2>| #[trigger] remains(w, n, v, s, c, f, r);
        tw_nonneg(w, r, n);
    }
}
// ---- trees in order of construction ----
/// vs lists the vertices, edge k joins vertex k + 1 to an earlier one
pub open spec fn earlier(vs: Seq<int>, k: int, a: int) -> bool { exists|j: int| 0 <= j <= k && #[trigger] vs[j] == a }
pub open spec fn grown(vs: Seq<int>, t: Seq<E2>) -> bool { vs.no_duplicates() && (vs.len() == 0 ==> t.len() == 0) && (vs.len() > 0 ==> t.len() + 1 == vs.len()) && forall|k: int| 0 <= k < t.len() ==> (#[trigger] t[k]).0 == vs[k + 1] && earlier(vs, k, t[k].1) }
pub open spec fn inq(vs: Seq<int>) -> P { |a: int| vs.contains(a) }
/// t is a spanning tree of the vertex set v
pub open spec fn tree_by(v: P, vs: Seq<int>, t: Seq<E2>) -> bool { grown(vs, t) && forall|a: int| #[trigger] v(a) <==> vs.contains(a) }
pub open spec fn spanning(v: P, t: Seq<E2>) -> bool { exists|vs: Seq<int>| #[trigger] tree_by(v, vs, t) }
pub proof fn grown_push(vs: Seq<int>, t: Seq<E2>, u: int, p: int) requires grown(vs, t), vs.len() > 0, !vs.contains(u), vs.contains(p) ensures grown(vs.push(u), t.push((u, p)))
{
    let v2 = vs.push(u); let t2 = t.push((u, p));
    assert forall|k: int| 0 <= k < t2.len() implies (#[trigger] t2[k]).0 == v2[k + 1] && earlier(v2, k, t2[k].1) by {
        if k < t.len() { assert(t2[k] == t[k]); let j = choose|j: int| 0 <= j <= k && #[trigger] vs[j] == t[k].1; assert(v2[j] == t[k].1); }
        else { let j = choose|j: int| 0 <= j < vs.len() && vs[j] == p; assert(v2[j] == p); }
    }
    assert forall|i: int, j: int| 0 <= i < v2.len() && 0 <= j < v2.len() && i != j implies v2[i] != v2[j] by { if i == vs.len() { assert(vs.contains(v2[j])); } if j == vs.len() { assert(vs.contains(v2[i])); } }
}
/// a tree connects its vertices
pub proof fn tree_connects(v: P, vs: Seq<int>, t: Seq<E2>, n: nat) requires tree_by(v, vs, t), forall|a: int| #[trigger] v(a) ==> 0 <= a < n ensures connects(t, v, n)
{
    assert forall|k: int| 0 <= k < t.len() implies edge_in(#[trigger] t[k], n) && v(t[k].0) && v(t[k].1) by { let j = choose|j: int| 0 <= j <= k && #[trigger] vs[j] == t[k].1; assert(vs.contains(vs[j])); assert(vs.contains(vs[k + 1])); assert(v(vs[j])); assert(v(vs[k + 1])); }
    assert forall|x: P| #[trigger] splits(x, v) implies some_cross(t, x, v) by {
        if !some_cross(t, x, v) {
            same_side(vs, t, x, v, vs.len() as int);
            let a = choose|a: int| #[trigger] v(a) && x(a); let b = choose|b: int| #[trigger] v(b) && !x(b);
            assert(vs.contains(a) && vs.contains(b));
        }
    }
}
proof fn same_side(vs: Seq<int>, t: Seq<E2>, x: P, v: P, k: int)
    requires grown(vs, t), 0 <= k <= vs.len(), !some_cross(t, x, v), forall|k: int| 0 <= k < t.len() ==> v((#[trigger] t[k]).0) && v(t[k].1)
    ensures forall|i: int| 0 <= i < k ==> x(#[trigger] vs[i]) == x(vs[0]) decreases k
{
    if k > 1 {
        same_side(vs, t, x, v, k - 1);
        let e = t[k - 2];
        assert(e.0 == vs[k - 1]);
        let j = choose|j: int| 0 <= j <= k - 2 && #[trigger] vs[j] == e.1;
        assert(!cross(t[k - 2], x, v));
    }
}
/// what competes with the minimum spanning tree: paths
pub open spec fn path_edges(p: Seq<usize>) -> Seq<E2> decreases p.len() { if p.len() <= 1 { Seq::empty() } else { path_edges(p.drop_last()).push((p[p.len() - 2] as int, p[p.len() - 1] as int)) } }
pub proof fn path_edges_at(p: Seq<usize>) ensures path_edges(p).len() == if p.len() <= 1 { 0 } else { p.len() - 1 }, forall|k: int| 0 <= k < path_edges(p).len() ==> #[trigger] path_edges(p)[k] == (p[k] as int, p[k + 1] as int) decreases p.len()
{ if p.len() > 1 { path_edges_at(p.drop_last()); assert forall|k: int| 0 <= k < path_edges(p).len() implies #[trigger] path_edges(p)[k] == (p[k] as int, p[k + 1] as int) by { if k < p.len() - 2 { assert(path_edges(p.drop_last())[k] == (p.drop_last()[k] as int, p.drop_last()[k + 1] as int)); } } } }
pub proof fn path_edges_cost(w: W, p: Seq<usize>) ensures tw(w, path_edges(p)) == path_cost(w, p) decreases p.len()
{ if p.len() > 1 { path_edges_cost(w, p.drop_last()); ssum_push(path_edges(p.drop_last()), (p[p.len() - 2] as int, p[p.len() - 1] as int), ew(w)); } }
proof fn path_side(p: Seq<usize>, x: P, v: P, k: int) requires 0 <= k <= p.len(), !some_cross(path_edges(p), x, v), forall|i: int| 0 <= i < p.len() ==> v(#[trigger] p[i] as int) ensures forall|i: int| 0 <= i < k ==> x(#[trigger] p[i] as int) == x(p[0] as int) decreases k
{ if k > 1 { path_side(p, x, v, k - 1); path_edges_at(p); assert(!cross(path_edges(p)[k - 2], x, v)); assert(v(p[k - 2] as int) && v(p[k - 1] as int)); } }
/// a path through exactly the vertices of v connects v
pub proof fn path_connects(p: Seq<usize>, v: P, n: nat) requires in_range(p, n), forall|a: int| #[trigger] v(a) <==> has(p, a) ensures connects(path_edges(p), v, n)
{
    path_edges_at(p);
    assert forall|k: int| 0 <= k < path_edges(p).len() implies edge_in(#[trigger] path_edges(p)[k], n) by { assert(p[k] < n && p[k + 1] < n); }
    assert forall|i: int| 0 <= i < p.len() implies v(#[trigger] p[i] as int) by { assert(has(p, p[i] as int)); }
    assert forall|x: P| #[trigger] splits(x, v) implies some_cross(path_edges(p), x, v) by {
        if !some_cross(path_edges(p), x, v) {
            path_side(p, x, v, p.len() as int);
            let a = choose|a: int| #[trigger] v(a) && x(a); let b = choose|b: int| #[trigger] v(b) && !x(b);
            assert(has(p, a) && has(p, b));
            let i = choose|i: int| 0 <= i < p.len() && #[trigger] p[i] == a; let j = choose|j: int| 0 <= j < p.len() && #[trigger] p[j] == b;
            assert(x(p[i] as int) == x(p[0] as int)); assert(x(p[j] as int) == x(p[0] as int));
        }
    }
}
