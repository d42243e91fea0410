//# theory solve
//# include adj
//# ext exact::next_permutation
//# fn exact::naive_solver
fn naive_solver<T: AdjacencyMatrix>(graph_matrix: &T) -> (ret: Solution)
@ requires cinst(graph_matrix.mv()),
@ ensures /*C01*/ real_tour(graph_matrix.mv(), ret),
@     /*C02*/ optimal(graph_matrix.mv(), ret.0),
{
@ let ghost m = graph_matrix.mv();
let n = graph_matrix.dim();
let mut _c1 = Vec::new();
let mut _k1: usize = 0;
while _k1 < n
@ invariant _k1 <= n, _c1@.len() == _k1, ident(_c1@),
@ decreases n - _k1,
{
_c1.push(_k1);
_k1 = _k1 + 1;
}
let mut best_permutation: Path = _c1;
@ proof { ident_tour(best_permutation@, m.n); circle_fin_tour(m, best_permutation@); }
let mut best_cost = graph_matrix.evaluate_circle(&best_permutation);
let mut current_permutation = best_permutation.clone();
@ proof { usize_total_order(); perm_init(m, best_cost, current_permutation@, 0); }
loop
@ invariant_except_break m == graph_matrix.mv(), cinst(m), total_order::<usize>(), is_tour(current_permutation@, m.n), fin(best_cost),
@     /*C02*/ seen_upto(m, best_cost, current_permutation@, 0),
@ invariant
@     /*C01*/ is_tour(best_permutation@, m.n) && rv(best_cost) == cyc_cost(wf(m), best_permutation@),
@ ensures is_tour(current_permutation@, m.n), fin(best_cost),
@     /*C02*/ seen_all(m, best_cost, current_permutation@, 0),
@ decreases lex_room(m.n as int, current_permutation@),
{
@ let ghost p0 = current_permutation@; let ghost c0 = best_cost; proof { assert(tail(p0, 0) =~= p0); }
let _q1 = next_permutation(&mut current_permutation);
@ let ghost p1 = current_permutation@; proof { assert(tail(p1, 0) =~= p1); assert(head(p0, 0) =~= head(p1, 0)); }
if !_q1 {
break;
}
@ proof { rearranged_tour(p0, p1, m.n); circle_fin_tour(m, p1); }
let cost = graph_matrix.evaluate_circle(&current_permutation);
if cost < best_cost {
best_cost = cost;
best_permutation = current_permutation.clone();
}
@ proof { lex_room_step(m.n, p0, p1, 0); assert(in_range(p1, m.n)); }
@ proof { /*C02*/ perm_step(m, c0, best_cost, p0, p1, 0); }
}
@ proof { /*C02*/ perm_optimal0(m, best_cost, current_permutation@); }
(best_cost, best_permutation)
}
//# end
//# fn exact::first_improved_solver
fn first_improved_solver<T: AdjacencyMatrix>(graph_matrix: &T) -> (ret: Solution)
@ requires cinst(graph_matrix.mv()),
@ ensures /*C01*/ real_tour(graph_matrix.mv(), ret),
@     /*C02*/ optimal(graph_matrix.mv(), ret.0),
{
@ let ghost m = graph_matrix.mv();
let n = graph_matrix.dim();
let mut _c1 = Vec::new();
let mut _k1: usize = 0;
while _k1 < n
@ invariant _k1 <= n, _c1@.len() == _k1, ident(_c1@),
@ decreases n - _k1,
{
_c1.push(_k1);
_k1 = _k1 + 1;
}
let mut best_permutation: Path = _c1;
@ proof { ident_tour(best_permutation@, m.n); circle_fin_tour(m, best_permutation@); }
let mut best_cost = graph_matrix.evaluate_circle(&best_permutation);
let mut current_permutation = best_permutation.clone();
@ proof { usize_total_order(); perm_init(m, best_cost, current_permutation@, 1); }
loop
@ invariant_except_break m == graph_matrix.mv(), cinst(m), total_order::<usize>(), is_tour(current_permutation@, m.n), current_permutation@[0] == 0, fin(best_cost),
@     /*C02*/ seen_upto(m, best_cost, current_permutation@, 1),
@ invariant
@     /*C01*/ is_tour(best_permutation@, m.n) && rv(best_cost) == cyc_cost(wf(m), best_permutation@),
@ ensures is_tour(current_permutation@, m.n), current_permutation@[0] == 0, fin(best_cost),
@     /*C02*/ seen_all(m, best_cost, current_permutation@, 1),
@ decreases lex_room(m.n as int, current_permutation@),
{
@ let ghost p0 = current_permutation@; let ghost c0 = best_cost; 
let _q1 = next_permutation(&mut current_permutation.mut_slice()[1..]);
@ let ghost p1 = current_permutation@; proof { assert(head(p0, 1) =~= head(p1, 1)); assert(p0 =~= head(p0, 1) + tail(p0, 1)); assert(p1 =~= head(p1, 1) + tail(p1, 1)); assert(tail(p0, 1) =~= p0.subrange(1, p0.len() as int)); }
if !_q1 {
break;
}
@ proof { head_rearranged(head(p0, 1), tail(p0, 1), tail(p1, 1)); rearranged_tour(p0, p1, m.n); circle_fin_tour(m, p1); }
let cost = graph_matrix.evaluate_circle(&current_permutation);
if cost < best_cost {
best_cost = cost;
best_permutation = current_permutation.clone();
}
@ proof { lex_room_step(m.n, p0, p1, 1); assert(in_range(p1, m.n)); }
@ proof { /*C02*/ perm_step(m, c0, best_cost, p0, p1, 1); }
}
@ proof { /*C02*/ perm_optimal1(m, best_cost, current_permutation@); }
(best_cost, best_permutation)
}
//# end
