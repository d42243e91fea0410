//# needs tour
/// what a distance matrix is to the contracts: size, entries, and whether it is square
pub ghost struct Mat { pub n: nat, pub sq: bool, pub f: spec_fn(int, int) -> f64 }
impl Mat { pub open spec fn w(self, i: int, j: int) -> f64 { (self.f)(i, j) } }
/// the weight function of a matrix
pub open spec fn wf(m: Mat) -> W { |i: int, j: int| rv(m.w(i, j)) }
/// all entries are numbers (finite or plus infinity)
pub open spec fn all_num(m: Mat) -> bool { m.sq && forall|i: int, j: int| 0 <= i < m.n && 0 <= j < m.n ==> num(#[trigger] m.w(i, j)) }
pub open spec fn all_fin(m: Mat) -> bool { m.sq && forall|i: int, j: int| 0 <= i < m.n && 0 <= j < m.n ==> fin(#[trigger] m.w(i, j)) }
/// complete instance with at least one city: finite, non-negative, symmetric, zero diagonal
pub open spec fn inst(m: Mat) -> bool {
    &&& m.sq && m.n >= 1 && m.n < usize::MAX
    &&& forall|i: int, j: int| 0 <= i < m.n && 0 <= j < m.n ==> fin(#[trigger] m.w(i, j)) && rv(m.w(i, j)) >= 0real
    &&& forall|i: int, j: int| 0 <= i < m.n && 0 <= j < m.n ==> rv(#[trigger] m.w(i, j)) == rv(m.w(j, i))
    &&& forall|i: int| 0 <= i < m.n ==> rv(#[trigger] m.w(i, i)) == 0real
}
/// complete instance with at least one city: finite, symmetric, zero diagonal
pub open spec fn cinst(m: Mat) -> bool {
    &&& m.sq && m.n >= 1 && m.n < usize::MAX
    &&& forall|i: int, j: int| 0 <= i < m.n && 0 <= j < m.n ==> fin(#[trigger] m.w(i, j))
    &&& forall|i: int, j: int| 0 <= i < m.n && 0 <= j < m.n ==> rv(#[trigger] m.w(i, j)) == rv(m.w(j, i))
    &&& forall|i: int| 0 <= i < m.n ==> rv(#[trigger] m.w(i, i)) == 0real
}
pub proof fn inst_facts(m: Mat) requires inst(m) ensures all_fin(m), all_num(m), cinst(m), nonneg(wf(m), m.n) {}
/// all edges of the path are finite
pub open spec fn path_fin(m: Mat, p: Seq<usize>) -> bool { forall|k: int| 0 <= k < p.len() - 1 ==> fin(m.w(#[trigger] p[k] as int, p[k + 1] as int)) }
pub open spec fn circle_fin(m: Mat, p: Seq<usize>) -> bool { path_fin(m, p) && (p.len() > 1 ==> fin(m.w(p[p.len() - 1] as int, p[0] as int))) }
pub open spec fn tri(w: W, i: int, j: int, k: int) -> bool { w(i, j) <= w(i, k) + w(k, j) + tol() }
pub open spec fn metric(m: Mat) -> bool { forall|i: int, j: int, k: int| 0 <= i < m.n && 0 <= j < m.n && 0 <= k < m.n ==> #[trigger] tri(wf(m), i, j, k) }
pub open spec fn same_entries(a: Mat, b: Mat) -> bool { a.n == b.n && a.sq && b.sq && forall|i: int, j: int| 0 <= i < a.n && 0 <= j < a.n ==> #[trigger] a.w(i, j) == b.w(i, j) }
/// the matrix the threads work on (a name for the argument of the solver)
pub uninterp spec fn the_instance() -> Mat;
