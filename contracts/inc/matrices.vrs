//# theory mat
//# include graph
//# include adj
pub open spec fn na_mat(m: NAMatrix) -> Mat { Mat { n: m.0.nr(), sq: m.0.nr() == m.0.nc(), f: |i: int, j: int| m.0.e(i, j) } }
pub open spec fn vm_mat(m: VecMatrix) -> Mat { Mat { n: m.0@.len(), sq: forall|i: int| 0 <= i < m.0@.len() ==> (#[trigger] m.0@[i])@.len() == m.0@.len(), f: |i: int, j: int| m.0@[i]@[j] } }
/// both directions are stored with the same cost
pub open spec fn both_ways(g: Graph) -> bool { forall|i: int, k: int, j: int, l: int| 0 <= i < gn(g) && 0 <= j < gn(g) && 0 <= k < adj(g, i).len() && 0 <= l < adj(g, j).len() && (#[trigger] adj(g, i)[k]).to == j && (#[trigger] adj(g, j)[l]).to == i ==> adj(g, i)[k].cost == adj(g, j)[l].cost }
/// squared-distance formula
pub open spec fn edist(p: [f64; 2], q: [f64; 2]) -> real { ssqrt((rv(p@[0]) - rv(q@[0])) * (rv(p@[0]) - rv(q@[0])) + (rv(p@[1]) - rv(q@[1])) * (rv(p@[1]) - rv(q@[1]))) }
pub open spec fn pt_fin(p: [f64; 2]) -> bool { fin(p@[0]) && fin(p@[1]) }
/// entry (i, to) is the cost of the edge, for every edge of the vertices before v and the first c edges of v
pub open spec fn entries_upto(g: Graph, m: Mat, v: int, c: int) -> bool { forall|i: int, k: int| 0 <= i < gn(g) && 0 <= k < adj(g, i).len() && (i < v || i == v && k < c) ==> m.w(i, (#[trigger] adj(g, i)[k]).to as int) == adj(g, i)[k].cost }
/// the matrix has the size of the graph and entry (i, j) is the cost of the edge i -> j
pub open spec fn conv_ok(g: Graph, m: Mat) -> bool { m.sq && m.n == gn(g) && entries_upto(g, m, gn(g) as int, 0) }
pub proof fn entries_put(g: Graph, m0: Mat, m1: Mat, v: int, c: int)
    requires simple(g), entries_upto(g, m0, v, c), 0 <= v < gn(g), 0 <= c < adj(g, v).len(), forall|a: int, b: int| m1.w(a, b) == if a == v && b == adj(g, v)[c].to { adj(g, v)[c].cost } else { m0.w(a, b) }
    ensures entries_upto(g, m1, v, c + 1)
{
    assert forall|i: int, k: int| 0 <= i < gn(g) && 0 <= k < adj(g, i).len() && (i < v || i == v && k < c + 1) implies m1.w(i, (#[trigger] adj(g, i)[k]).to as int) == adj(g, i)[k].cost by {
        if i == v && k < c { assert(adj(g, i)[k].to != adj(g, v)[c].to); }
    }
}
pub proof fn entries_row(g: Graph, m: Mat, v: int)
    requires entries_upto(g, m, v, adj(g, v).len() as int) ensures entries_upto(g, m, v + 1, 0) {}
