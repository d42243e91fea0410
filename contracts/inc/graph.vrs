//# include gspec
impl Graph {
//# ext parser::Graph::num_vertices
//# ext parser::Graph::directed_edge_weight
//# ext parser::Graph::undirected_edge_weight
//# ext parser::Graph::add_undirected_edge
//# ext parser::Graph::vertex_degree
}
impl Vertex {
//# ext parser::Vertex::degree
}
impl ConvFrom<Vec<Vec<Edge>>> for Graph { 
//# include gconv
//# ext parser::From<Vec<Vec<Edge>>>@Graph::from
}
