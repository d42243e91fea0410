//# theory tour
//# include graph
pub open spec fn tg(es: Seq<Edge>) -> Seq<usize> { es.map_values(|e: Edge| e.to) }
/// n - 1 different targets other than i: an edge to every other vertex, and the converse
pub proof fn complete_at(g: Graph, i: int)
    requires 0 <= i < gn(g), gn(g) <= usize::MAX, simple_at(g, i), no_self(g, i), forall|k: int| 0 <= k < adj(g, i).len() ==> (#[trigger] adj(g, i)[k]).to < gn(g)
    ensures adj(g, i).len() == gn(g) - 1 <==> (forall|j: int| 0 <= j < gn(g) && i != j ==> #[trigger] edge_to(g, i, j))
{
    let a = adj(g, i); let t = tg(a); let p = t.push(i as usize); let n = gn(g);
    assert(in_range(p, n)) by { assert forall|k: int| 0 <= k < p.len() implies #[trigger] p[k] < n by { if k < a.len() { assert(a[k].to < n); } } }
    assert(p.no_duplicates()) by { assert forall|k: int, l: int| 0 <= k < p.len() && 0 <= l < p.len() && k != l implies p[k] != p[l] by {
        if k < a.len() && l < a.len() { if k < l { assert(a[k].to != a[l].to); } else { assert(a[l].to != a[k].to); } }
        else if k < a.len() { assert(a[k].to != i); } else { assert(a[l].to != i); } } }
    if a.len() == n - 1 {
        tour_contains_all(p, n);
        assert forall|j: int| 0 <= j < n && i != j implies #[trigger] edge_to(g, i, j) by {
            assert(p.contains(j as usize)); let k = choose|k: int| 0 <= k < p.len() && p[k] == j as usize; assert(k < a.len()); assert(a[k].to == j); }
    }
    if forall|j: int| 0 <= j < n && i != j ==> #[trigger] edge_to(g, i, j) {
        assert forall|v: int| 0 <= v < n implies #[trigger] has(p, v) by {
            if v == i { assert(p[a.len() as int] == v); } else { assert(edge_to(g, i, v)); let k = choose|k: int| 0 <= k < a.len() && (#[trigger] a[k]).to == v; assert(p[k] == v); } }
        full_len(p, n);
    }
}
/// degree n - 1, no self edge, only existing targets
pub open spec fn fc_at(g: Graph, i: int) -> bool { adj(g, i).len() == gn(g) - 1 && no_self(g, i) && forall|k: int| 0 <= k < adj(g, i).len() ==> (#[trigger] adj(g, i)[k]).to < gn(g) }
pub open spec fn fc_edge(g: Graph, i: int, k: int) -> bool { adj(g, i)[k].to != i && adj(g, i)[k].to < gn(g) }
//# fn preconditions::is_fully_connected
fn is_fully_connected(g: &Graph) -> (ret: bool)
@ ensures ret == forall|i: int| 0 <= i < gn(*g) ==> #[trigger] fc_at(*g, i)
{
    let n = g.num_vertices();
    let mut _a1 = true;
    let mut _k1: usize = 0;
    while _a1 && _k1 < g.vertices.it_len()
@ invariant n == gn(*g), _k1 <= n, _a1 ==> forall|i: int| 0 <= i < _k1 ==> #[trigger] fc_at(*g, i), !_a1 ==> _k1 > 0 && !fc_at(*g, _k1 - 1)
@ decreases n - _k1
    {
        let i = _k1;
        let v = g.vertices.it_at(_k1);
@ assert(v.edges@ == adj(*g, i as int));
        let mut _b1 = v.degree() == n - 1;
        if _b1 {
            let mut _a2 = true;
            let mut _k2: usize = 0;
            while _a2 && _k2 < v.it_len()
@ invariant n == gn(*g), i < n, v.edges@ == adj(*g, i as int), _k2 <= v.edges@.len(), _a2 ==> forall|k: int| 0 <= k < _k2 ==> #[trigger] fc_edge(*g, i as int, k), !_a2 ==> _k2 > 0 && !fc_edge(*g, i as int, _k2 - 1)
@ decreases v.edges@.len() - _k2
            {
                let edge = v.it_at(_k2);
                _a2 = edge.to != i && edge.to < n;
                _k2 = _k2 + 1;
            }
@ proof { if _a2 { assert forall|k: int| 0 <= k < adj(*g, i as int).len() implies (#[trigger] adj(*g, i as int)[k]).to < n && adj(*g, i as int)[k].to != i by { assert(fc_edge(*g, i as int, k)); } } else { assert(adj(*g, i as int)[_k2 - 1].to >= n || adj(*g, i as int)[_k2 - 1].to == i); } }
            _b1 = _a2;
        }
        _a1 = _b1;
        _k1 = _k1 + 1;
    }
    _a1
}
//# end
/// distinct values of a list of targets: as many as targets, exactly if none repeats
pub proof fn dedup_len(es: Seq<Edge>, d: Seq<usize>, s: Set<usize>)
    requires d.len() == es.len(), forall|k: int| 0 <= k < es.len() ==> #[trigger] d[k] == es[k].to, s == d.to_set()
    ensures s.len() == es.len() <==> (forall|k: int, l: int| 0 <= k < l < es.len() ==> (#[trigger] es[k]).to != (#[trigger] es[l]).to)
{
    if forall|k: int, l: int| 0 <= k < l < es.len() ==> (#[trigger] es[k]).to != (#[trigger] es[l]).to {
        assert(d.no_duplicates()) by { assert forall|k: int, l: int| 0 <= k < d.len() && 0 <= l < d.len() && k != l implies d[k] != d[l] by { assert(d[k] == es[k].to && d[l] == es[l].to); if k < l { assert(es[k].to != es[l].to); } else { assert(es[l].to != es[k].to); } } }
        d.unique_seq_to_set();
    }
    if s.len() == es.len() {
        d.lemma_no_dup_set_cardinality();
        assert forall|k: int, l: int| 0 <= k < l < es.len() implies (#[trigger] es[k]).to != (#[trigger] es[l]).to by { assert(d[k] == es[k].to && d[l] == es[l].to); }
    }
}
pub open spec fn copy_targets(c: Vec<usize>, es: Seq<Edge>, k: int) -> bool { c@.len() == k && forall|i: int| 0 <= i < k ==> #[trigger] c@[i] == es[i].to }
pub open spec fn into_set(c: HSet<usize>, d: Seq<usize>, k: int) -> bool { c@ == d.subrange(0, k).to_set() }
pub open spec fn len_is(c: Vec<usize>, k: int) -> bool { c@.len() == k }
//# fn preconditions::is_multi_edge
fn is_multi_edge(graph: &Graph) -> (ret: bool)
@ ensures ret == exists|i: int| 0 <= i < gn(*graph) && !#[trigger] simple_at(*graph, i)
{
    let mut _a1 = false;
    let mut _k1: usize = 0;
    while !_a1 && _k1 < graph.vertices.it_len()
@ invariant _k1 <= gn(*graph), !_a1 ==> forall|i: int| 0 <= i < _k1 ==> #[trigger] simple_at(*graph, i), _a1 ==> _k1 > 0 && !simple_at(*graph, _k1 - 1)
@ decreases gn(*graph) - _k1
    {
        let vertex = graph.vertices.it_at(_k1);
@ let ghost es = adj(*graph, _k1 as int);
        let mut _c1 = Vec::new();
        let mut _k2: usize = 0;
        while _k2 < vertex.edges.it_len()
@ invariant copy_targets(_c1, es, _k2 as int), es == vertex.edges@, _k2 <= es.len()
@ decreases es.len() - _k2
        {
            let edge = vertex.edges.it_at(_k2);
            _c1.push(edge.to);
            _k2 = _k2 + 1;
        }
        let destinations: Vec<usize> = _c1;
        let mut _s1 = destinations.clone();
@ let ghost d = destinations@;
@ assert(d.subrange(0, 0).to_set() =~= Set::<usize>::empty()) by { assert(d.subrange(0, 0) =~= Seq::<usize>::empty()); }
        let mut _c3 = HSet::new();
        let mut _k3: usize = 0;
        while _k3 < _s1.it_len()
@ invariant into_set(_c3, d, _k3 as int), _s1@ == d, _k3 <= d.len()
@ decreases d.len() - _k3
        {
@ assert(d.subrange(0, _k3 + 1) =~= d.subrange(0, _k3 as int).push(d[_k3 as int])); 
@ assert(d.subrange(0, _k3 + 1).to_set() =~= d.subrange(0, _k3 as int).to_set().insert(d[_k3 as int])) by { let s0 = d.subrange(0, _k3 as int); let x = d[_k3 as int]; assert forall|y: usize| s0.push(x).to_set().contains(y) <==> s0.to_set().insert(x).contains(y) by { if s0.contains(y) { let i = choose|i: int| 0 <= i < s0.len() && s0[i] == y; assert(s0.push(x)[i] == y); } assert(s0.push(x)[s0.len() as int] == x); } }
            _c3.insert(_s1.it_take(_k3));
            _k3 = _k3 + 1;
        }
@ assert(d.subrange(0, d.len() as int) =~= d);
        let mut _s2 = _c3;
@ proof { _s2.ax_order(); dedup_len(es, d, _s2@); }
        let mut _c2 = Vec::new();
        let mut _k4: usize = 0;
        while _k4 < _s2.it_len()
@ invariant len_is(_c2, _k4 as int), _k4 <= _s2.its().len(), _s2.its().len() == d.to_set().len()
@ decreases _s2.its().len() - _k4
        {
            _c2.push(_s2.it_take(_k4));
            _k4 = _k4 + 1;
        }
        let unique_destinations: Vec<usize> = _c2;
        _a1 = destinations.len() != unique_destinations.len();
        _k1 = _k1 + 1;
    }
    _a1
}
//# end
//# fn preconditions::is_undirected
fn is_undirected(graph: &Graph) -> (ret: bool)
@ requires targets_ok(*graph)
@ ensures costs_num(*graph) && simple(*graph) ==> ret == both_ways_x(*graph)
{
@ let ghost g = *graph; let ghost good = costs_num(g) && simple(g);
    let _e1: usize = graph.num_vertices();
    let mut i: usize = 0;
    while i < _e1
@ invariant g == *graph, targets_ok(g), good == (costs_num(g) && simple(g)), _e1 == gn(g), i <= _e1, good ==> forall|a: int, k: int| 0 <= a < i && 0 <= k < adj(g, a).len() ==> #[trigger] both_ways_at(g, a, k)
@ decreases _e1 - i
    {
        let v1 = &graph.vertices[i];
        let mut _k1: usize = 0;
        while _k1 < v1.it_len()
@ invariant g == *graph, targets_ok(g), good == (costs_num(g) && simple(g)), _e1 == gn(g), i < _e1, v1.edges@ == adj(g, i as int), _k1 <= v1.edges@.len(), good ==> forall|k: int| 0 <= k < _k1 ==> #[trigger] both_ways_at(g, i as int, k)
@ decreases v1.edges@.len() - _k1
        {
            let v1e = v1.it_at(_k1);
@ assert(adj(g, i as int)[_k1 as int] == v1e); let ghost t = v1e.to as int;
            let v2 = &graph.vertices[v1e.to];
            let mut _k2: usize = 0;
            while _k2 < v2.it_len()
@ invariant_except_break good ==> forall|l: int| 0 <= l < _k2 ==> #[trigger] back_eq(g, i as int, _k1 as int, l)
@ invariant g == *graph, targets_ok(g), good == (costs_num(g) && simple(g)), _e1 == gn(g), i < _e1, v1.edges@ == adj(g, i as int), _k1 < v1.edges@.len(), v1e == adj(g, i as int)[_k1 as int], t == v1e.to, t < gn(g), v2.edges@ == adj(g, t), _k2 <= v2.edges@.len(), 
@   good ==> forall|l: int| 0 <= l < _k2 ==> (#[trigger] adj(g, t)[l]).to != i
@ ensures good ==> both_ways_at(g, i as int, _k1 as int)
@ decreases v2.edges@.len() - _k2
            {
                let v2e = v2.it_at(_k2);
@ assert(adj(g, t)[_k2 as int] == v2e);
                if v2e.to == i {
                    if v2e.cost != v1e.cost {
@ assert(good ==> !back_eq(g, i as int, _k1 as int, _k2 as int)); assert(good ==> !both_ways_at(g, i as int, _k1 as int));
                        return false;
                    }
@ assert(good ==> back_eq(g, i as int, _k1 as int, _k2 as int));
@ assert forall|l: int| 0 <= l < adj(g, t).len() && good implies #[trigger] back_eq(g, i as int, _k1 as int, l) by { if l < _k2 { assert(adj(g, t)[l].to != adj(g, t)[_k2 as int].to); } else if l > _k2 { assert(adj(g, t)[_k2 as int].to != adj(g, t)[l].to); } }
                    break;
                }
                _k2 = _k2 + 1;
            }
            _k1 = _k1 + 1;
        }
        i = i + 1;
    }
    true
}
//# end
/// what the three tests say together
pub proof fn accepted_iff(g: Graph) requires gn(g) <= usize::MAX
    ensures accepted(g) <==> (forall|i: int| 0 <= i < gn(g) ==> #[trigger] fc_at(g, i)) && !(exists|i: int| 0 <= i < gn(g) && !#[trigger] simple_at(g, i)) && both_ways_x(g),
        (forall|i: int| 0 <= i < gn(g) ==> #[trigger] fc_at(g, i)) ==> targets_ok(g), !(exists|i: int| 0 <= i < gn(g) && !#[trigger] simple_at(g, i)) ==> simple(g)
{
    if accepted(g) { assert forall|i: int| 0 <= i < gn(g) implies #[trigger] fc_at(g, i) by { assert(simple_at(g, i)); assert(no_self(g, i)); assert forall|k: int| 0 <= k < adj(g, i).len() implies (#[trigger] adj(g, i)[k]).to < gn(g) by { assert(g.vertices@[i].edges@[k].to < gn(g)); } complete_at(g, i); }
        assert forall|i: int| 0 <= i < gn(g) implies #[trigger] simple_at(g, i) by {} }
    let A = forall|i: int| 0 <= i < gn(g) ==> #[trigger] fc_at(g, i); let B = !(exists|i: int| 0 <= i < gn(g) && !#[trigger] simple_at(g, i));
    if A { assert forall|i: int, k: int| 0 <= i < gn(g) && 0 <= k < g.vertices@[i].edges@.len() implies (#[trigger] g.vertices@[i].edges@[k]).to < g.vertices@.len() by { assert(fc_at(g, i)); assert(adj(g, i)[k].to < gn(g)); }
        assert forall|i: int| 0 <= i < gn(g) implies #[trigger] no_self(g, i) by { assert(fc_at(g, i)); } }
    if B { assert forall|i: int, k: int, l: int| 0 <= i < gn(g) && 0 <= k < l < adj(g, i).len() implies (#[trigger] adj(g, i)[k]).to != (#[trigger] adj(g, i)[l]).to by { assert(simple_at(g, i)); } }
    if A && B { assert forall|i: int, j: int| 0 <= i < gn(g) && 0 <= j < gn(g) && i != j implies #[trigger] edge_to(g, i, j) by { assert(fc_at(g, i)); assert(simple_at(g, i)); complete_at(g, i); } }
}
//# include tspi
impl TravellingSalesmanProblemInstance {
//# fn parser::TravellingSalesmanProblemInstance::do_conditions_hold
fn do_conditions_hold(&self) -> (ret: bool)
@ requires gn(self.graph) <= usize::MAX
@ ensures costs_num(self.graph) ==> ret == accepted(self.graph)
{
@ proof { accepted_iff(self.graph); }
    let g = &self.graph;
    is_fully_connected(g) && (!is_multi_edge(g)) && is_undirected(g)
}
//# end
}
