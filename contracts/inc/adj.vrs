//# theory mat
//# include adjhead
//# ext datastructures::AdjacencyMatrix::evaluate_path
//# ext datastructures::AdjacencyMatrix::evaluate_circle
//# ext datastructures::AdjacencyMatrix::is_metric
}
