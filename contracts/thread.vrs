//# theory digits mst solve
//# include adj
//# include matrices
impl AdjacencyMatrix for NAMatrix {
    open spec fn mv(&self) -> Mat { na_mat(*self) }
//# ext nalgebra::AdjacencyMatrix@NAMatrix::from_dim
//# ext nalgebra::AdjacencyMatrix@NAMatrix::dim
//# ext nalgebra::AdjacencyMatrix@NAMatrix::get
//# ext nalgebra::AdjacencyMatrix@NAMatrix::set
}
//# include graph
//# include mstfacts
//# ext exact::split_up_b_ary_number_into_n_chunks
//# ext exact::get_next_value
//# ext exact::fifth_improved_solver
//# ext exact::_fifth_improved_solver_rec
/// what a thread may do to the shared best solution in one critical section, and so what any number of steps of the
/// other threads may do to it: the length never grows, and a real tour is never replaced by something else
pub open spec fn rely(a: (f64, Vec<usize>), b: (f64, Vec<usize>)) -> bool { num(b.0) && xle(b.0, a.0) && (sol_ok(the_instance(), a) ==> sol_ok(the_instance(), b)) }
/// a mutex: the shared value, and what it was when it was last locked. Every critical section has to obey `rely` before the next one
/// begins (here: before the next lock of any thread, and before the threads are joined), whatever was read under earlier locks.
pub struct Shared { pub v: (f64, Vec<usize>), pub at: Ghost<(f64, Vec<usize>)> }
pub fn new_shared(x: (f64, Vec<usize>)) -> (r: Shared) ensures r.v == x, r.at@ == x { Shared { v: x, at: Ghost(x) } }
/// Mutex::lock: the other threads have taken any number of steps since this thread last held the lock
#[verifier::external_body] pub fn lock_shared(x: &mut Shared) -> (r: &mut (f64, Vec<usize>)) requires num(old(x).v.0), /*C05*/ xle(old(x).v.0, old(x).at@.0), /*C01*/ sol_ok(the_instance(), old(x).at@) ==> sol_ok(the_instance(), old(x).v), ensures rely(old(x).v, *r), final(x).v == *final(r), final(x).at@ == *r { unimplemented!() }
/// the value left in the mutex after all threads have been joined
#[verifier::external_body] pub fn unlock_shared(x: Shared) -> (r: (f64, Vec<usize>)) requires num(x.v.0), /*C05*/ xle(x.v.0, x.at@.0), /*C01*/ sol_ok(the_instance(), x.at@) ==> sol_ok(the_instance(), x.v), ensures rely(x.v, r) { unimplemented!() }
/// every tour that starts with one of the prefixes lo..hi (read as numbers) is at least as long as c
pub open spec fn covered_digits(m: Mat, len: nat, lo: int, hi: int, c: f64) -> bool { forall|d: Seq<usize>| #[trigger] digits_ok(m.n as int, d) && d.len() == len && lo <= dval(m.n as int, d) < hi ==> covered(m, d, c) }
proof fn covered_digits_mono(m: Mat, len: nat, lo: int, hi: int, c0: f64, c1: f64) requires covered_digits(m, len, lo, hi, c0), xle(c1, c0), num(c1) ensures covered_digits(m, len, lo, hi, c1)
{ assert forall|d: Seq<usize>| #[trigger] digits_ok(m.n as int, d) && d.len() == len && lo <= dval(m.n as int, d) < hi implies covered(m, d, c1) by { covered_upto_eq(m, d, c0, c1); } }
proof fn covered_digits_step(m: Mat, len: nat, x: int, d: Seq<usize>, c: f64) requires m.n >= 1, covered_digits(m, len, 0, x, c), digits_ok(m.n as int, d), d.len() == len, dval(m.n as int, d) == x, covered(m, d, c) ensures covered_digits(m, len, 0, x + 1, c)
{ assert forall|e: Seq<usize>| #[trigger] digits_ok(m.n as int, e) && e.len() == len && 0 <= dval(m.n as int, e) < x + 1 implies covered(m, e, c) by { if dval(m.n as int, e) == x { dval_inj(m.n as int, d, e); } } }
/// a prefix with a repeated city starts no tour
proof fn covered_dup(m: Mat, d: Seq<usize>, c: f64) requires !d.no_duplicates() ensures covered(m, d, c)
{ assert forall|t: Seq<usize>| #[trigger] extends(m, d, t) implies beats(m, c, t) by { let (i, j) = choose|i: int, j: int| 0 <= i < d.len() && 0 <= j < d.len() && i != j && d[i] == d[j]; assert(d == t.subrange(0, d.len() as int)); assert(t[i] == d[i] && t[j] == d[j]); } }
proof fn all_prefixes(m: Mat, len: nat, c: f64) requires m.n >= 1, len <= m.n, covered_digits(m, len, 0, ipow(m.n as int, len), c) ensures optimal(m, c)
{
    assert forall|t: Seq<usize>| #[trigger] is_tour(t, m.n) implies beats(m, c, t) by {
        let d = t.subrange(0, len as int);
        assert forall|i: int| 0 <= i < d.len() implies (#[trigger] d[i]) < m.n as int by { assert(t[i] < m.n); }
        assert(digits_ok(m.n as int, d)); dval_bounds(m.n as int, d);
        assert(extends(m, d, t)); assert(covered(m, d, c));
    }
}
/// there is a tour, so the best length is finite
proof fn optimal_fin(m: Mat, c: f64) requires optimal(m, c), m.n <= usize::MAX, num(c) ensures fin(c)
{ let p = Seq::new(m.n, |i: int| i as usize); assert(is_tour(p, m.n)); assert(beats(m, c, p)); }
proof fn dval_lt_inj(b: int, s: Seq<usize>, t: Seq<usize>) requires b >= 1, s.len() == t.len(), digits_ok(b, s), digits_ok(b, t) ensures s == t <==> dval(b, s) == dval(b, t) { if dval(b, s) == dval(b, t) { dval_inj(b, s, t); } }
/// the elements are distinct exactly if the set of them is as large
proof fn distinct_set(s: Seq<&usize>, v: Seq<usize>) requires s.len() == v.len(), forall|i: int| 0 <= i < v.len() ==> *(#[trigger] s[i]) == v[i] ensures s.to_set().len() == v.len() <==> v.no_duplicates(), s.to_set().len() <= v.len()
{
    assert(s.no_duplicates() <==> v.no_duplicates()) by {
        if v.no_duplicates() { assert forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && i != j implies s[i] != s[j] by { assert(*s[i] == v[i] && *s[j] == v[j]); } }
        if s.no_duplicates() { assert forall|i: int, j: int| 0 <= i < v.len() && 0 <= j < v.len() && i != j implies v[i] != v[j] by { assert(*s[i] == v[i] && *s[j] == v[j]); assert(s[i] != s[j]); } }
    }
    s.lemma_cardinality_of_set();
    if v.no_duplicates() { s.unique_seq_to_set(); }
    else if s.to_set().len() == s.len() { s.lemma_no_dup_set_cardinality(); }
}
/// once a prefix without a repeated city was worked on, a tour has been found
pub open spec fn found_digits(m: Mat, len: nat, x: int, c: f64) -> bool { forall|d: Seq<usize>| #[trigger] digits_ok(m.n as int, d) && d.len() == len && d.no_duplicates() && 0 <= dval(m.n as int, d) < x ==> fin(c) }
proof fn found_digits_step(m: Mat, len: nat, x: int, d: Seq<usize>, c: f64) requires m.n >= 1, found_digits(m, len, x, c), digits_ok(m.n as int, d), d.len() == len, dval(m.n as int, d) == x, d.no_duplicates() ==> fin(c) ensures found_digits(m, len, x + 1, c)
{ assert forall|e: Seq<usize>| #[trigger] digits_ok(m.n as int, e) && e.len() == len && e.no_duplicates() && 0 <= dval(m.n as int, e) < x + 1 implies fin(c) by { if dval(m.n as int, e) == x { dval_inj(m.n as int, d, e); } } }
proof fn found_all(m: Mat, len: nat, c: f64) requires 1 <= m.n <= usize::MAX, len <= m.n, found_digits(m, len, ipow(m.n as int, len), c) ensures fin(c)
{ let d = Seq::new(len, |i: int| i as usize); assert(digits_ok(m.n as int, d)); dval_bounds(m.n as int, d); assert(d.no_duplicates()); }
/// a chunk is not empty, and only the last one ends at the total
proof fn cut_step(total: int, n: int, k: int) requires 0 <= k < n < total ensures cut(total, n, k) < cut(total, n, k + 1), k < n - 1 ==> cut(total, n, k + 1) < total
{ let c = total / n; assert(n * c <= total && c >= 1) by (nonlinear_arith) requires c == total / n, n >= 1, total > n; assert((k + 1) * c == k * c + c) by (nonlinear_arith); assert(k * c < n * c) by (nonlinear_arith) requires k < n, c >= 1; if k + 1 < n { assert((k + 1) * c < n * c) by (nonlinear_arith) requires k + 1 < n, c >= 1; } }
//# fn exact::threaded_solver_generic
fn threaded_solver_generic(graph_matrix: &NAMatrix, prefix_length: usize, number_of_threads: Option<usize>) -> (ret: Solution)
@ requires inst(graph_matrix.mv()), graph_matrix.mv() == the_instance(), 1 <= prefix_length <= u32::MAX, ipow(graph_matrix.mv().n as int, prefix_length as nat) <= usize::MAX, number_of_threads is Some ==> number_of_threads.unwrap() >= 1,
@ ensures /*C01*/ real_tour(graph_matrix.mv(), ret),
@     /*C05*/ optimal(graph_matrix.mv(), ret.0),
{
@ let ghost m = graph_matrix.mv(); let ghost b = m.n as int; let ghost l = prefix_length as nat; let ghost total = ipow(b, l);
let mut best_known_result = new_shared((f64_infinity(), Vec::<usize>::new()));
let number_of_threads = match number_of_threads {
Some(n) => n,
None => available_parallelism(),
};
if number_of_threads >= graph_matrix.dim() || graph_matrix.dim() < prefix_length {
return fifth_improved_solver(graph_matrix);
}
@ let ghost nt = number_of_threads as int;
@ proof { assert(total > nt) by { ipow_pos(b, (l - 1) as nat); let p = ipow(b, (l - 1) as nat); assert(b * p >= b) by (nonlinear_arith) requires p >= 1, b >= 1; } cuts_ordered(total, nt, 0, nt); assert(0 * (total / nt) == 0) by (nonlinear_arith); assert(covered_digits(m, l, 0, cut(total, nt, 0), best_known_result.v.0)); }
{
{
let mut _k1: usize = 0;
while _k1 < number_of_threads
@ invariant inst(m), m == graph_matrix.mv(), m == the_instance(), b == m.n, l == prefix_length, l <= b, total == ipow(b, l), total <= usize::MAX, l <= u32::MAX, total > nt, nt == number_of_threads, nt >= 1, nt < b, _k1 <= nt, num(best_known_result.v.0), l >= 1,
@     /*C01*/ sol_ok(m, best_known_result.v) && sol_ok(m, best_known_result.at@) && found_digits(m, l, cut(total, nt, _k1 as int), best_known_result.v.0),
@     /*C05*/ xle(best_known_result.v.0, best_known_result.at@.0) && covered_digits(m, l, 0, cut(total, nt, _k1 as int), best_known_result.v.0),
@ decreases nt - _k1,
{
let i = _k1;
{
let (min_digits, max_digits) = split_up_b_ary_number_into_n_chunks(prefix_length, graph_matrix.dim(), number_of_threads, i);
let mut min_digits = min_digits;
@ let ghost lo = cut(total, nt, _k1 as int); let ghost hi = cut(total, nt, _k1 + 1); let ghost mx = max_digits@;
@ proof { cuts_ordered(total, nt, _k1 as int, _k1 + 1); cuts_ordered(total, nt, _k1 + 1, nt); cut_step(total, nt, _k1 as int); if _k1 == nt - 1 { dval_zero(b, mx); } }
let mut current_prefix: Vec<usize> = Vec::new();
current_prefix.reserve(graph_matrix.dim());
let mut next_prefix = Some(min_digits.clone());
@ let ghost mut cur = lo;
{
while let Some(next_value) = next_prefix
@ invariant inst(m), m == graph_matrix.mv(), m == the_instance(), b == m.n, b >= 1, l == prefix_length, l <= b, l >= 1, total == ipow(b, l), 0 <= lo < hi <= total, num(best_known_result.v.0), current_prefix@.len() == 0, max_digits@ == mx, mx.len() == l, digits_ok(b, mx), min_digits@.len() == l, digits_ok(b, min_digits@), lo <= cur <= hi,
@     hi == total ==> dval(b, mx) == 0, hi < total ==> dval(b, mx) == hi,
@     next_prefix is Some ==> next_prefix.unwrap()@ == min_digits@ && dval(b, min_digits@) == cur && cur < hi,
@     next_prefix is None ==> cur == hi,
@     /*C01*/ sol_ok(m, best_known_result.v) && sol_ok(m, best_known_result.at@) && found_digits(m, l, cur, best_known_result.v.0),
@     /*C05*/ xle(best_known_result.v.0, best_known_result.at@.0) && covered_digits(m, l, 0, cur, best_known_result.v.0),
@ ensures cur == hi,
@ decreases hi - cur,
{
@ let ghost v = next_value@; let ghost c0 = best_known_result.v.0; let ghost cur0 = cur;
next_prefix = match get_next_value(&mut min_digits, graph_matrix.dim()) {
Some(value) if value != max_digits => Some(value),
_ => None,
};
@ proof { cur = cur + 1; dval_bounds(b, min_digits@); dval_bounds(b, v); dval_lt_inj(b, min_digits@, mx); }
let mut _c1 = HSet::new();
@ let ghost mut refs = Seq::<&usize>::empty(); proof { assert(refs.to_set() =~= Set::<&usize>::empty()); }
let mut _k2: usize = 0;
while _k2 < next_value.it_len()
@ invariant next_value@ == v, _k2 <= v.len(), refs.len() == _k2, _c1@ == refs.to_set(), forall|k: int| 0 <= k < _k2 ==> *(#[trigger] refs[k]) == v[k],
@ decreases v.len() - _k2,
{
@ let ghost rf = &next_value@[_k2 as int];
_c1.insert(next_value.it_at(_k2));
@ proof { let old_ = refs; refs = refs.push(rf); assert(refs.to_set() =~= old_.to_set().insert(rf)) by { assert forall|y: &usize| refs.contains(y) <==> old_.contains(y) || y == rf by { if old_.contains(y) { let k = choose|k: int| 0 <= k < old_.len() && old_[k] == y; assert(refs[k] == y); } if y == rf { assert(refs[old_.len() as int] == rf); } if refs.contains(y) { let k = choose|k: int| 0 <= k < refs.len() && refs[k] == y; if k < old_.len() { assert(old_[k] == y); } } } } }
_k2 = _k2 + 1;
}
@ proof { distinct_set(refs, v); }
let is_unique = next_value.len() == _c1.len();
if !is_unique {
@ proof { found_digits_step(m, l, cur0, v, c0); }
@ proof { /*C05*/ covered_dup(m, v, c0); covered_digits_step(m, l, cur0, v, c0); }
continue;
}
let mut _k3: usize = 0;
while _k3 < next_value.it_len()
@ invariant next_value@ == v, _k3 <= v.len(), current_prefix@ == v.subrange(0, _k3 as int),
@ decreases v.len() - _k3,
{
let i = next_value.it_at(_k3);
current_prefix.push(*i);
@ proof { assert(current_prefix@ =~= v.subrange(0, _k3 + 1)); }
_k3 = _k3 + 1;
}
@ proof { assert(current_prefix@ =~= v); assert forall|k: int| 0 <= k < v.len() implies #[trigger] v[k] < m.n by {} assert(pfx(m, v)); circle_fin_tour(m, v); }
let starting_cost = graph_matrix.evaluate_path(&current_prefix);
let mut result = (f64_infinity(), Vec::new());
_fifth_improved_solver_rec(graph_matrix, &mut current_prefix, starting_cost, &mut result);
current_prefix.clear();
@ let ghost mine = result;
let mut global_solution = lock_shared(&mut best_known_result);
if result.0 < global_solution.0 {
global_solution.0 = result.0;
global_solution.1 = result.1.clone();
}
@ proof { /*C01*/ assert(found_digits(m, l, cur0, best_known_result.v.0)); found_digits_step(m, l, cur0, v, best_known_result.v.0); }
@ proof { /*C05*/ assert(covered(m, v, best_known_result.v.0)) by { covered_upto_eq(m, v, mine.0, best_known_result.v.0); } covered_digits_mono(m, l, 0, cur0, c0, best_known_result.v.0); covered_digits_step(m, l, cur0, v, best_known_result.v.0); }
}
}
};
_k1 = _k1 + 1;
}
};
}
@ let ghost c0 = best_known_result.v.0; proof { /*C05*/ all_prefixes(m, l, c0); }
@ proof { found_all(m, l, c0); }
unlock_shared(best_known_result)
}
//# end
//# fn exact::threaded_solver
fn threaded_solver(graph_matrix: &NAMatrix) -> (ret: Solution)
@ requires inst(graph_matrix.mv()), graph_matrix.mv() == the_instance(), ipow(graph_matrix.mv().n as int, 3) <= usize::MAX,
@ ensures /*C01*/ real_tour(graph_matrix.mv(), ret),
@     /*C05*/ optimal(graph_matrix.mv(), ret.0),
{
threaded_solver_generic(graph_matrix, 3, None)
}
//# end
