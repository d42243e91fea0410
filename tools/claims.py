"""what each property rests on: the units whose functions decide it (callee units are added automatically).
keys None: every function of these units; otherwise the listed functions."""
FMC = ('from_default_value', 'find_edge_with_minimal_cost', 'update_minimal_cost', 'set_cost', 'mark_vertex_as_used', 'set_excluded_vertex')
CLAIMS = {
    'C01': {'units': ['enum', 'dfs', 'prune', 'mstprune', 'thread'], 'theorems': ['naive_solver', 'first_improved_solver', 'second_improved_solver', 'third_improved_solver', 'fourth_improved_solver', 'fifth_improved_solver', 'sixth_improved_solver', 'threaded_solver'],
            'note': 'The postcondition real_tour (a permutation of all the cities together with exactly its closed length) of every exact solver, sequential and threaded.',
            'assumptions': ['sixth_improved_solver: no two different prefixes of the instance have the same 64-bit FxHash (hypothesis no_collision of its contract)']},
    'C02': {'units': ['enum', 'dfs'], 'theorems': ['naive_solver', 'first_improved_solver', 'second_improved_solver', 'solve::perm_optimal0', 'solve::perm_optimal1', 'solve::covered_root'],
            'note': 'Proved for every finite symmetric matrix with zero diagonal (costs as exact reals; negative costs included), every size below usize::MAX.'},
    'C03': {'units': ['prune'], 'theorems': ['third_improved_solver', 'fourth_improved_solver', 'compute_nn_of_remaining_vertices', 'nnb::nn_bound', 'solve::pruned', 'solve::covered_root'],
            'note': 'Proved for every finite non-negative symmetric matrix; the bound itself is a postcondition of the function that computes it.'},
    'C04': {'units': ['mstprune'], 'theorems': ['fifth_improved_solver', 'sixth_improved_solver', 'mst_bound', 'mst_weight', 'mst::path_connects', 'solve::pruned', 'solve::covered_root'],
            'note': 'Proved for every finite non-negative symmetric matrix; the spanning-tree bound rests on the contract proved for C08.',
            'assumptions': ['sixth_improved_solver: no two different prefixes of the instance have the same 64-bit FxHash (hypothesis no_collision of its contract); with a collision the cached bound of another prefix would be used']},
    'C05': {'units': ['thread'], 'theorems': ['threaded_solver_generic', 'threaded_solver', 'lock_shared', 'all_prefixes', 'distinct_set', 'digits::dval_inj', 'digits::cuts_partition'],
            'note': 'Rely/guarantee: at every lock the shared best solution is replaced by any value the other threads may have left there (length not larger, a real tour stays a real tour); every critical section is proved to keep to that relation, so the result holds for every interleaving, every thread count >= 1 and every prefix length whose number space fits usize.',
            'assumptions': ['threads are joined by rayon::scope and the mutex excludes (both assumed of the libraries); deadlock and poisoning are not modelled', 'std::thread::available_parallelism succeeds']},
    'C06': {'units': ['perm'], 'theorems': ['next_permutation', 'perm::successor_of', 'perm::tail_max'],
            'note': 'Proved for every slice over any totally ordered type whose Equal means identity (used at usize).'},
    'C07': {'units': ['digits'], 'theorems': ['get_next_value', 'convert_to_b_ary_digits', 'split_up_b_ary_number_into_n_chunks', 'digits::cuts_partition', 'digits::cuts_ordered', 'digits::dval_inj'],
            'note': 'Proved for every base, length and chunk count whose number space fits usize (the function computes it in usize) and has more numbers than chunks (its own assertion).'},
    'C08': {'units': ['mst'], 'keys': ['mst::prim_with_excluded_node', 'mst::prim_with_excluded_node_single_threaded', 'mst::prim'] + ['mst::FindMinCostEdge@Vec::' + f for f in FMC],
            'theorems': ['prim_with_excluded_node', 'FindMinCostEdge@Vec::*', 'mst::opt_step', 'mst::can_drop', 'mst::tree_connects'],
            'note': 'Proved for every finite non-negative symmetric matrix and every list of excluded vertices (repetitions, all vertices and none included); minimality against every edge list connecting the remaining vertices.'},
    'C09': {'units': ['mst'], 'keys': ['mst::prim_with_excluded_node', 'mst::prim_with_excluded_node_multi_threaded', 'mst::prim_with_excluded_node_priority_queue', 'mst::prim'] + ['mst::FindMinCostEdge@%s::%s' % (t, f) for t in ('MultiThreadedVecWrapper', 'VerticesInPriorityQueue') for f in FMC] + ['mst::FindMinCostEdge@Vec::' + f for f in FMC if f not in ('find_edge_with_minimal_cost', 'update_minimal_cost')],
            'theorems': ['prim_with_excluded_node', 'FindMinCostEdge@MultiThreadedVecWrapper::*', 'FindMinCostEdge@VerticesInPriorityQueue::*', 'mst::opt_step', 'mst::can_drop'],
            'note': 'The same generic function is verified once against the trait contract and the three implementations against that contract; the parallel update writes disjoint entries and is verified as the sequential loop, the raw-pointer reads of the row as strided reads within the matrix.'},
    'C10': {'units': ['onetree', 'mst'], 'theorems': ['one_tree', 'one_tree_lower_bound', 'one_tree_lower_bound_seq', 'one_tree_lower_bound_par', 'ot_below', 'ot_unique', 'ot_bound_unique', 'mst_below', 'mst_weight'],
            'note': 'Proved for every finite non-negative symmetric matrix with at least one vertex and every tour; both modes meet the same contract, whose value is proved unique; the parallel maximum is verified as the sequential one (each special vertex is independent).'},
    'C11': {'units': ['nn'], 'theorems': ['single_nearest_neighbour', 'n_random_numbers', 'n_nearest_neighbour', 'nearest_neighbour'],
            'note': 'Proved for every matrix with finite entries and every start city, for both computation modes; the parallel map over the start cities is verified as the sequential one (each start is independent and shares nothing).'},
    'C12': {'units': ['christo'], 'theorems': ['christofides', 'christofides_generic', 'compute_approx_matching', 'fill_multigraph_with_mst_and_matching', 'eulerian_cycle_from_multigraph', 'find_cycle', 'hamiltonian_from_eulerian_cycle', 'ready', 'walk_covers', 'firsts_tour', 'handshake', 'stuck_home', 'cells_disjoint'],
            'note': 'Proved for every finite non-negative symmetric matrix satisfying the triangle inequality (up to the tolerance the code itself allows), every minimum spanning tree and every matching function whose result pairs up the odd vertices; both modes; the parallel writes into the multigraph go to disjoint entries (cells_disjoint) and are verified as the sequential loop. The instance must fit into memory (n * n <= usize::MAX, n < 2^31).'},
    'C13': {'units': ['christo'], 'theorems': ['christofides', 'christofides_generic', 'fill_multigraph_with_mst_and_matching', 'eulerian_cycle_from_multigraph', 'walk_covers', 'same_counts_weight', 'firsts_cost', 'mst_weight'],
            'note': 'Proved for every metric instance (exact triangle inequality), every tree and every matching the matching function may return; weights are exact reals.'},
    'C14': {'units': ['matching', 'mode'], 'theorems': ['randomized_matching', 'approx_min_cost_matching', 'improve_matching', 'par_improve_matching', 'optimize_two_matching'],
            'note': 'Proved for every matrix, every list of an even number of vertices, every result of the shuffles (an arbitrary permutation) and every number of rounds; the parallel chunks are disjoint mutable slices and are verified as the sequential loop over them.'},
    'C15': {'units': ['precond'], 'theorems': ['TravellingSalesmanProblemInstance::do_conditions_hold', 'is_fully_connected', 'is_multi_edge', 'is_undirected', 'accepted_iff'],
            'note': 'Proved for every graph; the verdict is exact for costs that are not NaN, the absence of panics holds for all.'},
    'C16': {'units': ['matrix'], 'theorems': ['NAMatrix::conv_from', 'VecMatrix::conv_from', 'NAMatrix::from_points', 'NAMatrix::par_from_points'],
            'note': 'Proved for every simple graph and every finite point list; the parallel column iteration is verified as the sequential loop over disjoint columns.'},
    'C17': {'units': ['adj', 'hamil'], 'theorems': ['AdjacencyMatrix::evaluate_path', 'AdjacencyMatrix::evaluate_circle', 'AdjacencyMatrix::is_metric', 'is_hamiltonian_cycle'],
            'note': 'Proved for every matrix type satisfying the trait contract (both matrix types are proved to) and every sequence (Hamiltonicity: shorter than 2^31, the counter type).'},
    'C18': {'units': ['graph'], 'theorems': ['Graph::add_undirected_edge', 'Graph::directed_edge_weight', 'Graph::undirected_edge_weight', 'Graph::vertex_degree', 'Graph::conv_from'],
            'note': 'Proved for every graph; costs treated as exact reals.'},
    'C19': {'units': ['cli'], 'theorems': ['run', 'exact_run', 'approx_run', 'lower_bound_run', 'get_tsp_instance', 'TravellingSalesmanProblemInstance::parse_from_xml', 'well_inst', 'optimal_least', 'nn_len', 'closed_len', 'mst_below'],
            'note': 'Proved for every command, algorithm and parallelism selection (without MPI) and every file: what is printed is recorded value by value, every number and every list of cities among it must be what the statement says, and at least one number (and for exact commands one tour) must be there; an unreadable or malformed file gives an error and prints nothing. Valid: a complete undirected instance with at least one city and finite non-negative distances; for Christofides also the triangle inequality and a size that fits the memory.',
            'assumptions': ['the file does not change while a command reads it; opening, reading and parsing fail exactly when the file is unreadable or its text is no document of the expected shape (std and quick-xml; what quick-xml accepts is taken for well-formed, which it is not always: see the known finding)', 'formatting a number or a list with {} or {:?} shows its value; output that needs another format is recorded as other text and not judged', 'clap builds the command the user typed', 'sixth_improved_solver: no two different prefixes of the instance have the same 64-bit FxHash (hypothesis no_collision of its contract)', 'threaded exact command: the number of three-city prefixes fits usize']},
    'C20': {'units': ['enum', 'dfs', 'prune', 'mstprune', 'thread', 'perm', 'digits', 'mst', 'onetree', 'nn', 'matching', 'mode', 'adj', 'matrix', 'christo'], 'safety': True,
            'theorems': ['every function of these units'],
            'note': 'Index bounds, integer overflow, division, preconditions of the std operations that panic (unwrap, indexing, slicing, chunks, assertions), and termination (a decreases measure on every loop and recursive function) of every function under contract. A functional clause that fails is dropped and the rest verified again, so that a wrong result is reported by the property it concerns and not here.',
            'assumptions': ['allocation succeeds, the stack is deep enough for a recursion as deep as the number of cities, and rayon can start its threads', 'std::thread::available_parallelism succeeds', 'sizes fit the machine: the n*n entries of a matrix and the number of prefixes are counted in usize']},
}
NOT_APPLICABLE = {
    'C21': 'The parsing and serialising code is generated by serde derive macros and the quick-xml crate; there is no source text of /repo that a deductive verifier could take, and an assumed contract on it would be the property itself.',
    'C22': 'The MPI code calls the C MPI library through the mpi crate, which is not built in this sandbox (feature off); its message-passing semantics are outside the reach of the verifier, and assumed contracts on send/receive would decide the property.',
}
