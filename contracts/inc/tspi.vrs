pub struct TravellingSalesmanProblemInstance { pub name: String, pub source: String, pub description: String, pub double_precision: u32, pub ignored_digits: u32, pub graph: Graph }
