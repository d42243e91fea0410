//# needs tour
// How often a number occurs in a sequence.
pub open spec fn cnt(p: Seq<usize>, v: int) -> int decreases p.len() { if p.len() == 0 { 0 } else { cnt(p.drop_last(), v) + if p[p.len() - 1] == v { 1int } else { 0 } } }
pub proof fn cnt_push(p: Seq<usize>, x: usize, v: int) ensures cnt(p.push(x), v) == cnt(p, v) + if x == v { 1int } else { 0 } { assert(p.push(x).drop_last() =~= p); }
pub proof fn cnt_bounds(p: Seq<usize>, v: int) ensures 0 <= cnt(p, v) <= p.len() decreases p.len() { if p.len() > 0 { cnt_bounds(p.drop_last(), v); } }
pub proof fn cnt_pos(p: Seq<usize>, v: int) ensures cnt(p, v) > 0 <==> exists|i: int| 0 <= i < p.len() && #[trigger] p[i] == v decreases p.len()
{
    if p.len() > 0 {
        let q = p.drop_last(); cnt_pos(q, v); cnt_bounds(q, v);
        if p[p.len() - 1] != v && cnt(p, v) > 0 { let i = choose|i: int| 0 <= i < q.len() && #[trigger] q[i] == v; assert(p[i] == v); }
        if exists|i: int| 0 <= i < p.len() && #[trigger] p[i] == v { let i = choose|i: int| 0 <= i < p.len() && #[trigger] p[i] == v; if i < p.len() - 1 { assert(q[i] == v); } }
    }
}
pub proof fn cnt_two(p: Seq<usize>, i: int, j: int) requires 0 <= i < j < p.len(), p[i] == p[j] ensures cnt(p, p[i] as int) >= 2 decreases p.len()
{ let q = p.drop_last(); let v = p[i] as int; if j == p.len() - 1 { assert(q[i] == v); cnt_pos(q, v); } else { assert(q[i] == q[j]); cnt_two(q, i, j); } }
pub proof fn cnt_nodup(p: Seq<usize>, v: int) requires p.no_duplicates() ensures cnt(p, v) <= 1 decreases p.len()
{ if p.len() > 0 { let q = p.drop_last(); cnt_nodup(q, v); cnt_bounds(q, v); if p[p.len() - 1] == v && cnt(q, v) > 0 { cnt_pos(q, v); let i = choose|i: int| 0 <= i < q.len() && #[trigger] q[i] == v; assert(p[i] == p[p.len() - 1]); } } }
pub proof fn nodup_cnt(p: Seq<usize>) requires forall|v: int| #![trigger cnt(p, v)] 0 <= v ==> cnt(p, v) <= 1 ensures p.no_duplicates()
{ assert forall|i: int, j: int| 0 <= i < p.len() && 0 <= j < p.len() && i != j implies p[i] != p[j] by { if p[i] == p[j] { if i < j { cnt_two(p, i, j); } else { cnt_two(p, j, i); } assert(cnt(p, p[i] as int) <= 1); } } }
/// ends where it starts
pub open spec fn closes(p: Seq<usize>) -> bool { p.len() >= 1 && p[0] == p[p.len() - 1] }
/// a closed sequence visiting every vertex and repeating none but the start
pub open spec fn closed_tour(p: Seq<usize>, n: nat) -> bool { closes(p) && in_range(p, n) && (forall|v: int| 0 <= v < n ==> #[trigger] cnt(p, v) > 0) && (p.len() == 1 || p.drop_last().no_duplicates()) }
/// every count is 1, except for at most one that is 2
pub open spec fn counts_ok(p: Seq<usize>, n: nat) -> bool { (forall|v: int| 0 <= v < n ==> #[trigger] cnt(p, v) == 1 || cnt(p, v) == 2) && (forall|u: int, v: int| 0 <= u < v < n && #[trigger] cnt(p, u) == 2 ==> #[trigger] cnt(p, v) != 2) }
pub proof fn closed_tour_counts(p: Seq<usize>, n: nat)
    requires closes(p), in_range(p, n) ensures counts_ok(p, n) == closed_tour(p, n)
{
    let q = p.drop_last(); let x = p[0] as int;
    if p.len() == 1 {
        assert(q =~= Seq::<usize>::empty());
        assert forall|v: int| #[trigger] cnt(p, v) == if v == x { 1int } else { 0 } by { assert(cnt(q, v) == 0); }
        assert(x < n);
        if counts_ok(p, n) || closed_tour(p, n) { assert forall|v: int| 0 <= v < n implies #[trigger] cnt(p, v) > 0 && v == x by { assert(cnt(p, v) > 0); } }
    } else {
        assert(q[0] == x); cnt_pos(q, x); assert(x < n);
        assert forall|v: int| #[trigger] cnt(p, v) == cnt(q, v) + if v == x { 1int } else { 0 } by {}
        if counts_ok(p, n) {
            assert(cnt(p, x) == 2);
            assert forall|v: int| #![trigger cnt(q, v)] 0 <= v implies cnt(q, v) <= 1 by {
                if v < n { if v != x { assert(cnt(p, v) == 1) by { if v < x { if cnt(p, v) == 2 { assert(cnt(p, x) != 2); } } else { assert(cnt(p, v) != 2); } } } }
                else if cnt(q, v) > 0 { cnt_pos(q, v); let i = choose|i: int| 0 <= i < q.len() && #[trigger] q[i] == v; assert(p[i] < n); }
            }
            nodup_cnt(q);
        }
        if closed_tour(p, n) {
            assert forall|v: int| 0 <= v < n implies #[trigger] cnt(p, v) == 1 || cnt(p, v) == 2 by { cnt_nodup(q, v); cnt_bounds(q, v); }
            assert forall|u: int, v: int| 0 <= u < v < n && #[trigger] cnt(p, u) == 2 implies #[trigger] cnt(p, v) != 2 by { cnt_nodup(q, u); cnt_nodup(q, v); cnt_bounds(q, u); cnt_bounds(q, v); }
        }
    }
}
pub open spec fn fits(n: nat) -> bool { n * n <= usize::MAX && n < i32::MAX }
