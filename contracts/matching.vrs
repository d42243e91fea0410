//# theory pairs
//# include namat
//# ext computation_mode::panic_on_invaid_mode
pub open spec fn sq_inst(g: NAMatrix) -> bool { inst(na_mat(g)) }
//# fn matching::randomized_matching
fn randomized_matching(vertices: &mut [usize])
@ ensures final(vertices)@.len() == old(vertices)@.len(), final(vertices)@.to_multiset() == old(vertices)@.to_multiset(),
{
shuffle_any(vertices);
}
//# end
//# fn matching::optimize_two_matching
fn optimize_two_matching(edg01: &mut [usize; 2], edg23: &mut [usize; 2], graph: &NAMatrix)
@ requires inst(na_mat(*graph)), pair_in(*old(edg01), na_mat(*graph).n), pair_in(*old(edg23), na_mat(*graph).n),
@ ensures same_ends(*old(edg01), *old(edg23), *final(edg01), *final(edg23)), pair_in(*final(edg01), na_mat(*graph).n), pair_in(*final(edg23), na_mat(*graph).n),
@     least3(wf(na_mat(*graph)), *old(edg01), *old(edg23), pair_cost(wf(na_mat(*graph)))(*final(edg01)) + pair_cost(wf(na_mat(*graph)))(*final(edg23))),
{
@ let ghost g = na_mat(*graph); let ghost a = *edg01; let ghost b = *edg23;
let v0 = edg01[0];
let v1 = edg01[1];
let v2 = edg23[0];
let v3 = edg23[1];
@ proof { assert(fin(g.w(v0 as int, v1 as int)) && fin(g.w(v2 as int, v3 as int)) && fin(g.w(v0 as int, v2 as int)) && fin(g.w(v1 as int, v3 as int)) && fin(g.w(v0 as int, v3 as int)) && fin(g.w(v1 as int, v2 as int)));
@   assert(fin(g.w(v1 as int, v0 as int)) && fin(g.w(v3 as int, v2 as int)) && fin(g.w(v2 as int, v0 as int)) && fin(g.w(v3 as int, v1 as int)) && fin(g.w(v3 as int, v0 as int)) && fin(g.w(v2 as int, v1 as int))); }
let cost_edg01 = graph.at(v0, v1);
let cost_edg23 = graph.at(v2, v3);
let cost_0 = cost_edg01 + cost_edg23;
let cost_edg02 = graph.at(v0, v2);
let cost_edg13 = graph.at(v1, v3);
let cost_1 = cost_edg02 + cost_edg13;
let cost_edg03 = graph.at(v0, v3);
let cost_edg12 = graph.at(v1, v2);
let cost_2 = cost_edg03 + cost_edg12;
if cost_1 < cost_0 {
if cost_2 < cost_1 {
*edg01 = [v0, v3];
*edg23 = [v1, v2];
} else {
*edg01 = [v0, v2];
*edg23 = [v1, v3];
}
} else {
if cost_2 < cost_0 {
*edg01 = [v0, v3];
*edg23 = [v1, v2];
}
}
}
//# end
//# fn matching::improve_matching
fn improve_matching(graph: &NAMatrix, matching: &mut [[usize; 2]], tries: usize)
@ requires inst(na_mat(*graph)), pairs_in(old(matching)@, na_mat(*graph).n),
@ ensures not_worse(wf(na_mat(*graph)), na_mat(*graph).n, old(matching)@, final(matching)@),
{
@ let ghost w = wf(na_mat(*graph)); let ghost n = na_mat(*graph).n; let ghost m0 = matching@;
@ proof { not_worse_perm(w, n, m0, m0); }
if matching.len() <= 1 {
return;
}
let mut _k1: usize = 0;
while _k1 < tries
@ invariant inst(na_mat(*graph)), w == wf(na_mat(*graph)), n == na_mat(*graph).n, pairs_in(m0, n), not_worse(w, n, m0, matching@),
@ decreases tries - _k1,
{
@ let ghost m1 = matching@;
shuffle_any(matching);
@ proof { not_worse_perm(w, n, m1, matching@); not_worse_trans(w, n, m0, m1, matching@); }
let mut _k2: usize = 0;
while _k2 < matching.n_chunks(2)
@ invariant inst(na_mat(*graph)), w == wf(na_mat(*graph)), n == na_mat(*graph).n, pairs_in(m0, n), not_worse(w, n, m0, matching@),
@ decreases matching@.len() / 2 - _k2,
{
@ let ghost m2 = matching@; proof { assert(pair_in(m2[2 * _k2 as int], n) && pair_in(m2[2 * _k2 + 1], n)); }
let chunk = matching.chunk_at_mut(_k2, 2);
@ let ghost c0 = chunk@; proof { assert(c0[0] == m2[2 * _k2 as int] && c0[1] == m2[2 * _k2 + 1]); }
let (edg01, edg23) = slice_two_mut(chunk, 0, 1);
optimize_two_matching(edg01, edg23, graph);
@ proof { not_worse_two(w, n, m2, matching@, 2 * _k2 as int); not_worse_trans(w, n, m0, m2, matching@); }
_k2 = _k2 + 1;
}
_k1 = _k1 + 1;
}
}
//# end
//# fn matching::par_improve_matching
fn par_improve_matching(graph: &NAMatrix, matching: &mut [[usize; 2]], tries: usize)
@ requires inst(na_mat(*graph)), pairs_in(old(matching)@, na_mat(*graph).n),
@ ensures not_worse(wf(na_mat(*graph)), na_mat(*graph).n, old(matching)@, final(matching)@),
{
@ let ghost w = wf(na_mat(*graph)); let ghost n = na_mat(*graph).n; let ghost m0 = matching@;
@ proof { not_worse_perm(w, n, m0, m0); }
let mut _k1: usize = 0;
while _k1 < tries
@ invariant inst(na_mat(*graph)), w == wf(na_mat(*graph)), n == na_mat(*graph).n, pairs_in(m0, n), not_worse(w, n, m0, matching@),
@ decreases tries - _k1,
{
@ let ghost m1 = matching@;
shuffle_any(matching);
@ proof { not_worse_perm(w, n, m1, matching@); not_worse_trans(w, n, m0, m1, matching@); }
let mut _k2: usize = 0;
while _k2 < matching.n_chunks(2)
@ invariant inst(na_mat(*graph)), w == wf(na_mat(*graph)), n == na_mat(*graph).n, pairs_in(m0, n), not_worse(w, n, m0, matching@),
@ decreases matching@.len() / 2 - _k2,
{
@ let ghost m2 = matching@; proof { assert(pair_in(m2[2 * _k2 as int], n) && pair_in(m2[2 * _k2 + 1], n)); }
let chunk = matching.chunk_at_mut(_k2, 2);
@ let ghost c0 = chunk@; proof { assert(c0[0] == m2[2 * _k2 as int] && c0[1] == m2[2 * _k2 + 1]); }
let (edg01, edg23) = slice_two_mut(chunk, 0, 1);
optimize_two_matching(edg01, edg23, graph);
@ proof { not_worse_two(w, n, m2, matching@, 2 * _k2 as int); not_worse_trans(w, n, m0, m2, matching@); }
_k2 = _k2 + 1;
}
_k1 = _k1 + 1;
}
}
//# end
//# fn matching::approx_min_cost_matching
fn approx_min_cost_matching<const MODE: usize>(graph: &NAMatrix, mut vertices: Vec<usize>, tries: usize) -> (ret: Vec<[usize; 2]>)
@ requires MODE <= 1, inst(na_mat(*graph)), in_range(vertices@, na_mat(*graph).n), vertices@.len() % 2 == 0,
@ ensures pairs_up(ret@, vertices@), pairs_in(ret@, na_mat(*graph).n),
{
@ let ghost v0 = vertices@; let ghost n = na_mat(*graph).n;
randomized_matching(&mut vertices);
@ proof { assert forall|i: int| 0 <= i < vertices@.len() implies #[trigger] vertices@[i] < n by { perm_contains(v0, vertices@, i); let k = choose|k: int| 0 <= k < v0.len() && v0[k] == vertices@[i]; assert(v0[k] < n); } }
let mut _c1 = Vec::new();
let mut _k1: usize = 0;
while _k1 < vertices.n_chunks(2)
@ invariant paired(_c1@, vertices@, _k1 as int), in_range(vertices@, n), vertices@.len() % 2 == 0, pairs_in(_c1@, n),
@ decreases vertices@.len() / 2 - _k1,
{
let chunk = vertices.chunk_at(_k1, 2);
@ let ghost c0 = _c1@; proof { assert(vertices@[2 * _k1 as int] < n && vertices@[2 * _k1 + 1] < n); }
_c1.push([chunk[0], chunk[1]]);
@ proof { paired_step(c0, _c1@, vertices@, _k1 as int); }
_k1 = _k1 + 1;
}
let mut matching: Vec<[usize; 2]> = _c1;
@ proof { assert forall|v: int| #[trigger] occ(matching@, v) == vocc(v0, v) by { assert(vertices@.subrange(0, 2 * _k1) =~= vertices@); assert(occ(matching@, v) == vocc(vertices@.subrange(0, 2 * _k1), v)); ssum_perm(v0, vertices@, is_v(v)); } }
if MODE == 0 {
improve_matching(graph, matching.as_mut_slice(), tries)
} else if MODE == 1 {
par_improve_matching(graph, matching.as_mut_slice(), tries)
} else {
panic_on_invaid_mode::<MODE>()
}
matching
}
//# end
/// the first k chunks of two are paired up
pub open spec fn paired(m: Seq<[usize; 2]>, s: Seq<usize>, k: int) -> bool { m.len() == k && 2 * k <= s.len() && forall|v: int| #[trigger] occ(m, v) == vocc(s.subrange(0, 2 * k), v) }
pub proof fn paired_step(a: Seq<[usize; 2]>, b: Seq<[usize; 2]>, s: Seq<usize>, k: int)
    requires paired(a, s, k), 2 * k + 2 <= s.len(), b.len() == k + 1, b.drop_last() =~= a, b[k]@[0] == s[2 * k], b[k]@[1] == s[2 * k + 1]
    ensures paired(b, s, k + 1)
{
    assert forall|v: int| #[trigger] occ(b, v) == vocc(s.subrange(0, 2 * (k + 1)), v) by {
        assert(occ(a, v) == vocc(s.subrange(0, 2 * k), v));
        let t = s.subrange(0, 2 * k);
        assert(s.subrange(0, 2 * (k + 1)) =~= t.push(s[2 * k]).push(s[2 * k + 1]));
        ssum_push(t, s[2 * k], is_v(v)); ssum_push(t.push(s[2 * k]), s[2 * k + 1], is_v(v));
    }
}
