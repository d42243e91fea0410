pub broadcast proof fn half_mul(a: f64, b: f64, o: f64) requires #[trigger] mul_ensures::<f64>(a, b, o), fin(a), fin(b), 2real * rv(b) == 1real ensures fin(o), 2real * rv(o) == rv(a)
{ let x = rv(a); let h = rv(b); assert(2real * (x * h) == x * (2real * h)) by (nonlinear_arith); assert(x * 1real == x) by (nonlinear_arith); }
//# include gspec
impl Vertex {
//# fn parser::Vertex::add_edge
fn add_edge(&mut self, edge: Edge)
@ ensures final(self).edges@ == old(self).edges@.push(edge)
{
    self.edges.push(edge);
}
//# end
//# fn parser::Vertex::degree
fn degree(&self) -> (ret: usize)
@ ensures ret == self.edges@.len()
{
    self.edges.len()
}
//# end
}
impl ConvFrom<Vec<Edge>> for Vertex {
    open spec fn cf_req(v: Vec<Edge>) -> bool { true }
    open spec fn cf_ens(v: Vec<Edge>, r: Vertex) -> bool { r.edges@ == v@ }
//# fn parser::From<Vec<Edge>>@Vertex::from [as=conv_from]
fn conv_from(value: Vec<Edge>) -> (ret: Self)
{
    Vertex { edges: value }
}
//# end
}
pub open spec fn conv_pre(c: Vec<Vertex>, v: Vec<Vec<Edge>>, k: int) -> bool { c@.len() == k && forall|i: int| 0 <= i < k ==> (#[trigger] c@[i]).edges@ == v@[i]@ }
impl ConvFrom<Vec<Vec<Edge>>> for Graph {
//# include gconv
//# fn parser::From<Vec<Vec<Edge>>>@Graph::from [as=conv_from]
fn conv_from(value: Vec<Vec<Edge>>) -> (ret: Self)
{
    let mut _s1 = value;
    let mut _c1 = Vec::new();
    let mut _k1: usize = 0;
    while _k1 < _s1.it_len()
@ invariant conv_pre(_c1, value, _k1 as int), _k1 <= _s1@.len(), _s1@ == value@
@ decreases value@.len() - _k1
    {
        _c1.push(Vertex::conv_from(_s1.it_take(_k1)));
        _k1 = _k1 + 1;
    }
    let vec = _c1;
@ assert forall|i: int| 0 <= i < value@.len() implies #[trigger] adj(Graph { vertices: vec }, i) == value@[i]@ by { assert(vec@[i].edges@ == value@[i]@); }
    Graph { vertices: vec }
}
//# end
}
impl Graph {
//# fn parser::Graph::num_vertices
fn num_vertices(&self) -> (ret: usize)
@ ensures ret == gn(*self)
{
    self.vertices.len()
}
//# end
//# fn parser::Graph::directed_edge_weight
fn directed_edge_weight(&self) -> (ret: f64)
@ ensures costs_fin(*self) ==> fin(ret) && rv(ret) == dir_weight(*self)
{
    let mut _a1: f64 = sum_zero();
    let mut _k1: usize = 0;
    while _k1 < self.vertices.it_len()
@ invariant _k1 <= gn(*self), costs_fin(*self) ==> fin(_a1) && rv(_a1) == edge_sum_upto(*self, _k1 as int)
@ decreases gn(*self) - _k1
    {
        let vertex = self.vertices.it_at(_k1);
        let mut _a2: f64 = sum_zero();
        let mut _k2: usize = 0;
@ assert(adj(*self, _k1 as int) == vertex.edges@);
        while _k2 < vertex.it_len()
@ invariant _k2 <= vertex.edges@.len(), edges_fin(vertex.edges@) ==> fin(_a2) && rv(_a2) == edge_sum(vertex.edges@.subrange(0, _k2 as int))
@ decreases vertex.edges@.len() - _k2
        {
            let edge = vertex.it_at(_k2);
@ assert(vertex.edges@.subrange(0, _k2 + 1).drop_last() =~= vertex.edges@.subrange(0, _k2 as int)); assert(*edge == vertex.edges@[_k2 as int]);
            _a2 = sum_add(_a2, edge.cost);
            _k2 = _k2 + 1;
        }
@ assert(vertex.edges@.subrange(0, vertex.edges@.len() as int) =~= vertex.edges@);
        _a1 = sum_add(_a1, _a2);
        _k1 = _k1 + 1;
    }
    _a1
}
//# end
//# fn parser::Graph::undirected_edge_weight
fn undirected_edge_weight(&self) -> (ret: f64)
@ ensures costs_fin(*self) ==> fin(ret) && 2real * rv(ret) == dir_weight(*self)
{
@ broadcast use half_mul;
    self.directed_edge_weight() * f64_half()
}
//# end
//# fn parser::Graph::add_undirected_edge
fn add_undirected_edge(&mut self, from: usize, to: usize, cost: f64)
@ requires from < gn(*old(self)), to < gn(*old(self))
@ ensures gn(*final(self)) == gn(*old(self)),
@   forall|v: int| 0 <= v < gn(*old(self)) ==> #[trigger] adj(*final(self), v) =~= added(adj(*old(self), v), v, from as int, to as int, cost)
{
    runtime_check(from < self.num_vertices());
    runtime_check(to < self.num_vertices());
    let edge = Edge { to: to, cost: cost };
    let edge_reverse = Edge { to: from, cost: cost };
    self.vertices[from].add_edge(edge);
    self.vertices[to].add_edge(edge_reverse);
}
//# end
//# fn parser::Graph::vertex_degree
fn vertex_degree(&self, vertex: usize) -> (ret: usize)
@ requires vertex < gn(*self)
@ ensures ret == adj(*self, vertex as int).len()
{
    runtime_check(vertex < self.vertices.len());
    self.vertices[vertex].degree()
}
//# end
}
