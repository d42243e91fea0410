/// every edge of g leads to an existing vertex
pub open spec fn targets_ok(g: Graph) -> bool { forall|i: int, k: int| 0 <= i < g.vertices@.len() && 0 <= k < g.vertices@[i].edges@.len() ==> (#[trigger] g.vertices@[i].edges@[k]).to < g.vertices@.len() }
pub open spec fn gn(g: Graph) -> nat { g.vertices@.len() }
pub open spec fn adj(g: Graph, i: int) -> Seq<Edge> { g.vertices@[i].edges@ }
pub open spec fn costs_num(g: Graph) -> bool { forall|i: int, k: int| 0 <= i < gn(g) && 0 <= k < adj(g, i).len() ==> num((#[trigger] adj(g, i)[k]).cost) }
pub open spec fn edges_fin(es: Seq<Edge>) -> bool { forall|k: int| 0 <= k < es.len() ==> fin((#[trigger] es[k]).cost) }
pub open spec fn costs_fin(g: Graph) -> bool { forall|i: int| 0 <= i < gn(g) ==> edges_fin(#[trigger] adj(g, i)) }
/// sum of the costs of a list of edges
pub open spec fn edge_sum(es: Seq<Edge>) -> real decreases es.len() { if es.len() == 0 { 0real } else { edge_sum(es.drop_last()) + rv(es[es.len() - 1].cost) } }
/// sum over the edges stored in the first k vertices
pub open spec fn edge_sum_upto(g: Graph, k: int) -> real decreases k { if k <= 0 { 0real } else { edge_sum_upto(g, k - 1) + edge_sum(adj(g, k - 1)) } }
/// sum of all stored (directed) edges
pub open spec fn dir_weight(g: Graph) -> real { edge_sum_upto(g, gn(g) as int) }
/// the edges of v after the undirected edge from - to has been added
pub open spec fn added(es: Seq<Edge>, v: int, from: int, to: int, cost: f64) -> Seq<Edge> {
    let a = if v == from { es.push(Edge { to: to as usize, cost }) } else { es };
    if v == to { a.push(Edge { to: from as usize, cost }) } else { a }
}
/// no two edges of a vertex lead to the same vertex
pub open spec fn simple_at(g: Graph, i: int) -> bool { forall|k: int, l: int| 0 <= k < l < adj(g, i).len() ==> (#[trigger] adj(g, i)[k]).to != (#[trigger] adj(g, i)[l]).to }
pub open spec fn simple(g: Graph) -> bool { forall|i: int, k: int, l: int| 0 <= i < gn(g) && 0 <= k < l < adj(g, i).len() ==> (#[trigger] adj(g, i)[k]).to != (#[trigger] adj(g, i)[l]).to }
/// vertex i has no edge to itself
pub open spec fn no_self(g: Graph, i: int) -> bool { forall|k: int| 0 <= k < adj(g, i).len() ==> (#[trigger] adj(g, i)[k]).to != i }
/// edge k of i and edge l of its target, if that leads back, cost the same
pub open spec fn back_eq(g: Graph, i: int, k: int, l: int) -> bool { adj(g, adj(g, i)[k].to as int)[l].to == i ==> xeq(adj(g, adj(g, i)[k].to as int)[l].cost, adj(g, i)[k].cost) }
pub open spec fn both_ways_at(g: Graph, i: int, k: int) -> bool { forall|l: int| 0 <= l < adj(g, adj(g, i)[k].to as int).len() ==> #[trigger] back_eq(g, i, k, l) }
/// edges between two vertices in both directions have equal cost
pub open spec fn both_ways_x(g: Graph) -> bool { forall|i: int, k: int| 0 <= i < gn(g) && 0 <= k < adj(g, i).len() ==> #[trigger] both_ways_at(g, i, k) }
/// i has an edge to j
pub open spec fn edge_to(g: Graph, i: int, j: int) -> bool { exists|k: int| 0 <= k < adj(g, i).len() && (#[trigger] adj(g, i)[k]).to == j }
/// complete simple undirected graph
pub open spec fn accepted(g: Graph) -> bool {
    &&& targets_ok(g) && simple(g) && both_ways_x(g)
    &&& forall|i: int| 0 <= i < gn(g) ==> #[trigger] no_self(g, i)
    &&& forall|i: int, j: int| 0 <= i < gn(g) && 0 <= j < gn(g) && i != j ==> #[trigger] edge_to(g, i, j)
}
