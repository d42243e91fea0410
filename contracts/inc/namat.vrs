//# include matrices
impl AdjacencyMatrix for NAMatrix {
    open spec fn mv(&self) -> Mat { na_mat(*self) }
//# ext nalgebra::AdjacencyMatrix@NAMatrix::from_dim
//# ext nalgebra::AdjacencyMatrix@NAMatrix::dim
//# ext nalgebra::AdjacencyMatrix@NAMatrix::get
//# ext nalgebra::AdjacencyMatrix@NAMatrix::set
}
