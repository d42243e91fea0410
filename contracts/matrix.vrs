//# include matrices
impl AdjacencyMatrix for NAMatrix {
    open spec fn mv(&self) -> Mat { na_mat(*self) }
//# fn nalgebra::AdjacencyMatrix@NAMatrix::from_dim
fn from_dim(dim: usize) -> (ret: Self)
{
    let mut matrix = DMatrix::from_element(dim, dim, f64_infinity());
    matrix.set_diagonal(&DVector::repeat(dim, f64_zero()));
    NAMatrix(matrix)
}
//# end
//# fn nalgebra::AdjacencyMatrix@NAMatrix::dim
fn dim(&self) -> (ret: usize)
{
    self.shape().0
}
//# end
//# fn nalgebra::AdjacencyMatrix@NAMatrix::get
fn get(&self, row: usize, col: usize) -> (ret: f64)
{
    self.at(row, col)
}
//# end
//# fn nalgebra::AdjacencyMatrix@NAMatrix::set
fn set(&mut self, row: usize, col: usize, cost: f64)
{
    self.put(row, col, cost);
}
//# end
}
impl AdjacencyMatrix for VecMatrix {
    open spec fn mv(&self) -> Mat { vm_mat(*self) }
//# fn vecmatrix::AdjacencyMatrix@VecMatrix::from_dim
fn from_dim(dim: usize) -> (ret: Self)
{
    let mut vector = vec_from_elem(vec_from_elem(f64_infinity(), dim), dim);
    let mut _k1: usize = 0;
    while _k1 < vector.it_len()
@ invariant _k1 <= dim, vector@.len() == dim, forall|i: int| 0 <= i < dim ==> (#[trigger] vector@[i])@.len() == dim,
@   forall|i: int, j: int| 0 <= i < dim && 0 <= j < dim ==> if i == j && i < _k1 { fin(#[trigger] vector@[i]@[j]) && rv(vector@[i]@[j]) == 0real } else { pinf(vector@[i]@[j]) }
@ decreases dim - _k1
    {
        let i = _k1;
        let neighbours = &mut vector[_k1];
        neighbours[i] = f64_zero();
        _k1 = _k1 + 1;
    }
    VecMatrix(vector)
}
//# end
//# fn vecmatrix::AdjacencyMatrix@VecMatrix::dim
fn dim(&self) -> (ret: usize)
{
    self.0.len()
}
//# end
//# fn vecmatrix::AdjacencyMatrix@VecMatrix::get
fn get(&self, row: usize, col: usize) -> (ret: f64)
{
    self.0[row][col]
}
//# end
//# fn vecmatrix::AdjacencyMatrix@VecMatrix::set
fn set(&mut self, row: usize, col: usize, cost: f64)
{
    self.0[row][col] = cost;
}
//# end
}
pub open spec fn pts_ok(points: Seq<[f64; 2]>, m: Mat) -> bool { m.sq && m.n == points.len() && points.len() <= usize::MAX && forall|i: int| 0 <= i < points.len() ==> pt_fin(#[trigger] points[i]) }
pub open spec fn pt_done(points: Seq<[f64; 2]>, m: Mat, i: int, j: int) -> bool { fin(m.w(i, j)) && rv(m.w(i, j)) == edist(points[i], points[j]) }
pub proof fn edist_sym(p: [f64; 2], q: [f64; 2]) ensures edist(p, q) == edist(q, p), edist(p, p) == 0real
{
    let a = rv(p@[0]) - rv(q@[0]); let b = rv(p@[1]) - rv(q@[1]);
    assert(a * a + b * b == (-a) * (-a) + (-b) * (-b)) by (nonlinear_arith);
    ax_ssqrt0(0real * 0real + 0real * 0real);
}
pub proof fn sq_nonneg(a: real, b: real) ensures a * a + b * b >= 0real { assert(a * a + b * b >= 0real) by (nonlinear_arith); }
impl NAMatrix {
//# fn nalgebra::NAMatrix::from_points
fn from_points(points: &[[f64; 2]]) -> (ret: Self)
@ requires forall|i: int| 0 <= i < points@.len() ==> pt_fin(#[trigger] points@[i])
@ ensures na_mat(ret).sq, na_mat(ret).n == points@.len(),
@   forall|i: int, j: int| 0 <= i < points@.len() && 0 <= j < points@.len() ==> #[trigger] pt_done(points@, na_mat(ret), i, j)
{
@ broadcast use ax_spow2;
    let mut matrix = NAMatrix::from_dim(points.len());
@ assert forall|i: int| 0 <= i < points@.len() implies #[trigger] pt_done(points@, na_mat(matrix), i, i) by { edist_sym(points@[i], points@[i]); assert(matrix.mv().w(i, i) == na_mat(matrix).w(i, i)); }
    let mut _k1: usize = 0;
    while _k1 < points.it_len()
@ invariant _k1 <= points@.len(), pts_ok(points@, na_mat(matrix)),
@   forall|i: int, j: int| 0 <= i < points@.len() && 0 <= j < points@.len() && (i == j || i < _k1 || j < _k1) ==> #[trigger] pt_done(points@, na_mat(matrix), i, j)
@ decreases points@.len() - _k1
    {
        let i = _k1;
        let from = points.it_at(_k1);
        let _o1: usize = i + 1;
        let _e1: usize = sat_sub(points.it_len(), _o1);
        let mut _k2: usize = 0;
        while _k2 < _e1
@ invariant _k1 < points@.len(), i == _k1, from == points@[i as int], _o1 == i + 1, _e1 == points@.len() - _o1, _k2 <= _e1, pts_ok(points@, na_mat(matrix)),
@   forall|a: int, b: int| 0 <= a < points@.len() && 0 <= b < points@.len() && (a == b || a < _k1 || b < _k1 || a == _k1 && b < _k2 + _o1 || b == _k1 && a < _k2 + _o1) ==> #[trigger] pt_done(points@, na_mat(matrix), a, b)
@ decreases _e1 - _k2
        {
            let j = _k2;
            let to = points.it_at(_k2 + _o1);
            let j = i + j + 1;
@ broadcast use ax_spow2;
@ assert(pt_fin(points@[i as int]) && pt_fin(points@[j as int]));
@ let ghost m0 = matrix;
@ proof { sq_nonneg(rv(from@[0]) - rv(to@[0]), rv(from@[1]) - rv(to@[1])); edist_sym(*from, *to); }
            let weight = f64_sqrt(f64_powi(from[0] - to[0], 2) + f64_powi(from[1] - to[1], 2));
@ assert(rv(weight) == edist(points@[i as int], points@[j as int]));
            matrix.put(i, j, weight);
            matrix.put(j, i, weight);
@ assert forall|a: int, b: int| 0 <= a < points@.len() && 0 <= b < points@.len() && (a == b || a < _k1 || b < _k1 || a == _k1 && b < _k2 + 1 + _o1 || b == _k1 && a < _k2 + 1 + _o1) implies #[trigger] pt_done(points@, na_mat(matrix), a, b) by {
@   if a == i && b == j || a == j && b == i { } else { assert(pt_done(points@, na_mat(m0), a, b)); } }
            _k2 = _k2 + 1;
        }
        _k1 = _k1 + 1;
    }
    matrix
}
//# end
//# fn nalgebra::NAMatrix::par_from_points
fn par_from_points(points: &[[f64; 2]]) -> (ret: Self)
@ requires forall|i: int| 0 <= i < points@.len() ==> pt_fin(#[trigger] points@[i])
@ ensures na_mat(ret).sq, na_mat(ret).n == points@.len(),
@   forall|i: int, j: int| 0 <= i < points@.len() && 0 <= j < points@.len() ==> #[trigger] pt_done(points@, na_mat(ret), i, j)
{
@ broadcast use ax_spow2;
    let mut matrix = NAMatrix::from_dim(points.len());
    let mut _k1: usize = 0;
    while _k1 < points.it_len() && _k1 < matrix.ncols()
@ invariant _k1 <= points@.len(), pts_ok(points@, na_mat(matrix)), matrix.0.nr() == matrix.0.nc(),
@   forall|i: int, j: int| 0 <= i < points@.len() && 0 <= j < _k1 ==> #[trigger] pt_done(points@, na_mat(matrix), i, j)
@ decreases points@.len() - _k1
    {
        let from = points.it_at(_k1);
        let mut _k3: usize = 0;
        while _k3 < points.it_len() && _k3 < matrix.nrows()
@ invariant _k1 < points@.len(), _k3 <= points@.len(), from == points@[_k1 as int], pts_ok(points@, na_mat(matrix)), matrix.0.nr() == matrix.0.nc(),
@   forall|i: int, j: int| 0 <= i < points@.len() && 0 <= j <= _k1 && (j < _k1 || i < _k3) ==> #[trigger] pt_done(points@, na_mat(matrix), i, j)
@ decreases points@.len() - _k3
        {
@ broadcast use ax_spow2;
            let to = points.it_at(_k3);
@ assert(pt_fin(points@[_k1 as int]) && pt_fin(points@[_k3 as int]));
@ let ghost m0 = matrix;
@ proof { sq_nonneg(rv(from@[0]) - rv(to@[0]), rv(from@[1]) - rv(to@[1])); edist_sym(*from, *to); }
            let matrix_ij = matrix.at_mut(_k3, _k1);
            let weight = f64_sqrt(f64_powi(from[0] - to[0], 2) + f64_powi(from[1] - to[1], 2));
            *matrix_ij = weight;
@ assert(rv(weight) == edist(points@[_k1 as int], points@[_k3 as int]));
@ assert forall|i: int, j: int| 0 <= i < points@.len() && 0 <= j <= _k1 && (j < _k1 || i < _k3 + 1) implies #[trigger] pt_done(points@, na_mat(matrix), i, j) by {
@   if i == _k3 && j == _k1 { edist_sym(points@[i], points@[j]); } else { assert(pt_done(points@, na_mat(m0), i, j)); } }
            _k3 = _k3 + 1;
        }
        _k1 = _k1 + 1;
    }
    matrix
}
//# end
}
impl ConvFrom<&Graph> for NAMatrix {
//# include nagconv
//# fn nalgebra::From<&Graph>@NAMatrix::from [as=conv_from]
fn conv_from(graph: &Graph) -> (ret: Self)
{
    let dim = graph.num_vertices();
    let mut res = NAMatrix::from_dim(dim);
    let mut _k1: usize = 0;
    while _k1 < graph.vertices.it_len()
@ invariant _k1 <= gn(*graph), targets_ok(*graph), simple(*graph), na_mat(res).sq, na_mat(res).n == gn(*graph),
@   entries_upto(*graph, na_mat(res), _k1 as int, 0),
@   forall|i: int| 0 <= i < gn(*graph) && no_self(*graph, i) ==> fin(na_mat(res).w(i, i)) && rv(#[trigger] na_mat(res).w(i, i)) == 0real
@ decreases gn(*graph) - _k1
    {
        let i = _k1;
        let neighbours = graph.vertices.it_at(_k1);
        let mut _k2: usize = 0;
        while _k2 < neighbours.it_len()
@ invariant i == _k1, _k1 < gn(*graph), neighbours == graph.vertices@[i as int], _k2 <= adj(*graph, i as int).len(), targets_ok(*graph), simple(*graph), na_mat(res).sq, na_mat(res).n == gn(*graph),
@   entries_upto(*graph, na_mat(res), _k1 as int, _k2 as int),
@   forall|i: int| 0 <= i < gn(*graph) && no_self(*graph, i) ==> fin(na_mat(res).w(i, i)) && rv(#[trigger] na_mat(res).w(i, i)) == 0real
@ decreases adj(*graph, i as int).len() - _k2
        {
            let j = (*neighbours.it_at(_k2)).to;
            let cost = (*neighbours.it_at(_k2)).cost;
@ let ghost m0 = res; assert(adj(*graph, i as int)[_k2 as int].to == j);
            res.put(i, j, cost);
@ proof { entries_put(*graph, na_mat(m0), na_mat(res), _k1 as int, _k2 as int); }
@ assert forall|a: int| 0 <= a < gn(*graph) && no_self(*graph, a) implies fin(na_mat(res).w(a, a)) && rv(#[trigger] na_mat(res).w(a, a)) == 0real by { let t = adj(*graph, a); let e = na_mat(m0).w(a, a); assert(fin(e) && rv(e) == 0real); if a == i { assert(adj(*graph, a)[_k2 as int].to != a); } assert(na_mat(res).w(a, a) == e); }
            _k2 = _k2 + 1;
        }
@ proof { entries_row(*graph, na_mat(res), _k1 as int); }
        _k1 = _k1 + 1;
    }
    res
}
//# end
}
impl<T: AdjacencyMatrix> ConvFrom<&T> for NAMatrix {
    open spec fn cf_req(v: &T) -> bool { v.mv().sq }
    open spec fn cf_ens(v: &T, r: NAMatrix) -> bool { same_entries(na_mat(r), v.mv()) }
//# fn nalgebra::From<&T>@NAMatrix::from [as=conv_from] [nogen=1]
fn conv_from(value: &T) -> (ret: Self)
{
    let dim = value.dim();
    let mut adj_matr = NAMatrix::from_dim(dim);
    let mut i: usize = 0;
    while i < dim
@ invariant i <= dim, value.mv().sq, dim == value.mv().n, na_mat(adj_matr).sq, na_mat(adj_matr).n == dim, adj_matr.0.nr() == adj_matr.0.nc(),
@   forall|a: int, b: int| 0 <= a < i && 0 <= b < dim ==> #[trigger] na_mat(adj_matr).w(a, b) == value.mv().w(a, b)
@ decreases dim - i
    {
        let mut j: usize = 0;
        while j < dim
@ invariant i < dim, j <= dim, value.mv().sq, dim == value.mv().n, na_mat(adj_matr).sq, na_mat(adj_matr).n == dim, adj_matr.0.nr() == adj_matr.0.nc(),
@   forall|a: int, b: int| 0 <= a <= i && 0 <= b < dim && (a < i || b < j) ==> #[trigger] na_mat(adj_matr).w(a, b) == value.mv().w(a, b)
@ decreases dim - j
        {
@ let ghost m0 = adj_matr;
            adj_matr.put(i, j, value.get(i, j));
@ assert forall|a: int, b: int| 0 <= a <= i && 0 <= b < dim && (a < i || b < j + 1) implies #[trigger] na_mat(adj_matr).w(a, b) == value.mv().w(a, b) by { if a != i || b != j { assert(na_mat(m0).w(a, b) == value.mv().w(a, b)); } }
            j = j + 1;
        }
        i = i + 1;
    }
    adj_matr
}
//# end
}
/// edges of the vertices before v and the first c edges of v are stored in both directions
pub open spec fn sym_upto(g: Graph, m: Seq<Vec<f64>>, v: int, c: int) -> bool { forall|i: int, k: int| 0 <= i < gn(g) && 0 <= k < adj(g, i).len() && (i < v || i == v && k < c) ==> m[i]@[(#[trigger] adj(g, i)[k]).to as int] == adj(g, i)[k].cost }
impl ConvFrom<Vec<Vec<f64>>> for VecMatrix {
    open spec fn cf_req(v: Vec<Vec<f64>>) -> bool { true }
    open spec fn cf_ens(v: Vec<Vec<f64>>, r: VecMatrix) -> bool { r.0 == v }
//# fn vecmatrix::From<Vec<Vec<f64>>>@VecMatrix::from [as=conv_from]
fn conv_from(matrix: Vec<Vec<f64>>) -> (ret: Self)
{
    VecMatrix(matrix)
}
//# end
}
impl ConvFrom<Graph> for VecMatrix {
    open spec fn cf_req(g: Graph) -> bool { targets_ok(g) && simple(g) && both_ways(g) }
    open spec fn cf_ens(g: Graph, r: VecMatrix) -> bool { conv_ok(g, vm_mat(r)) }
//# fn vecmatrix::From<Graph>@VecMatrix::from [as=conv_from]
fn conv_from(graph: Graph) -> (ret: Self)
{
    let n: usize = graph.num_vertices();
    let mut matrix = vec_from_elem(vec_from_elem(f64_infinity(), n), n);
    let mut i: usize = 0;
    while i < n
@ invariant n == gn(graph), i <= n, targets_ok(graph), simple(graph), both_ways(graph), matrix@.len() == n, forall|a: int| 0 <= a < n ==> (#[trigger] matrix@[a])@.len() == n,
@   sym_upto(graph, matrix@, i as int, 0)
@ decreases n - i
    {
        let vi = &graph.vertices[i];
        let mut _k1: usize = 0;
        while _k1 < vi.it_len()
@ invariant n == gn(graph), i < n, vi == graph.vertices@[i as int], _k1 <= vi.edges@.len(), targets_ok(graph), simple(graph), both_ways(graph), matrix@.len() == n, forall|a: int| 0 <= a < n ==> (#[trigger] matrix@[a])@.len() == n,
@   sym_upto(graph, matrix@, i as int, _k1 as int)
@ decreases vi.edges@.len() - _k1
        {
            let edge = vi.it_at(_k1);
            let j = edge.to;
@ let ghost m0 = matrix; assert(adj(graph, i as int)[_k1 as int] == edge);
            matrix[i][j] = edge.cost;
            matrix[j][i] = edge.cost;
@ assert forall|a: int, k: int| 0 <= a < gn(graph) && 0 <= k < adj(graph, a).len() && (a < i || a == i && k < _k1 + 1) implies matrix@[a]@[(#[trigger] adj(graph, a)[k]).to as int] == adj(graph, a)[k].cost by {
@   let t = adj(graph, a)[k].to;
@   if a == i && k == _k1 { if i == j { } }
@   else if a == j && t == i { }
@   else { assert(m0@[a]@[t as int] == adj(graph, a)[k].cost); assert(!(a == i && t == j)) by { if a == i { assert(adj(graph, i as int)[k].to != adj(graph, i as int)[_k1 as int].to); } } }
@ }
            _k1 = _k1 + 1;
        }
        i = i + 1;
    }
    VecMatrix::conv_from(matrix)
}
//# end
}
