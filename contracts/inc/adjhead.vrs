/// what the algorithms need from a distance matrix
pub trait AdjacencyMatrix: Sized {
    spec fn mv(&self) -> Mat;
    fn from_dim(dim: usize) -> (ret: Self)
        ensures ret.mv().sq, ret.mv().n == dim, forall|i: int, j: int| 0 <= i < dim && 0 <= j < dim ==> if i == j { fin(#[trigger] ret.mv().w(i, j)) && rv(ret.mv().w(i, j)) == 0real } else { pinf(ret.mv().w(i, j)) };
    fn dim(&self) -> (ret: usize) requires self.mv().sq ensures ret == self.mv().n;
    fn get(&self, row: usize, col: usize) -> (ret: f64) requires self.mv().sq, row < self.mv().n, col < self.mv().n ensures ret == self.mv().w(row as int, col as int);
    fn set(&mut self, row: usize, col: usize, cost: f64) requires old(self).mv().sq, row < old(self).mv().n, col < old(self).mv().n
        ensures final(self).mv().sq, final(self).mv().n == old(self).mv().n, forall|i: int, j: int| 0 <= i < old(self).mv().n && 0 <= j < old(self).mv().n ==> #[trigger] final(self).mv().w(i, j) == if i == row && j == col { cost } else { old(self).mv().w(i, j) };
