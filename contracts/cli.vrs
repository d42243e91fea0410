//# theory solve greedy count mst
//# include adj
//# include matrices
impl AdjacencyMatrix for NAMatrix {
    open spec fn mv(&self) -> Mat { na_mat(*self) }
//# ext nalgebra::AdjacencyMatrix@NAMatrix::from_dim
//# ext nalgebra::AdjacencyMatrix@NAMatrix::dim
//# ext nalgebra::AdjacencyMatrix@NAMatrix::get
//# ext nalgebra::AdjacencyMatrix@NAMatrix::set
}
//# include graph
//# include naconv
//# include mstbelow
//# include tspi
//# ext exact::naive_solver
//# ext exact::first_improved_solver
//# ext exact::second_improved_solver
//# ext exact::third_improved_solver
//# ext exact::fourth_improved_solver
//# ext exact::fifth_improved_solver
//# ext exact::sixth_improved_solver
//# ext exact::threaded_solver
//# ext nearest_neighbour::nearest_neighbour
//# ext christofides::christofides without christofides_bound
//# ext one_tree::one_tree_lower_bound without ot_bound
//# ext mst::prim
//# ext mst::prim_with_excluded_node_priority_queue
// ---- the command line's types, mirrored from src/cli.rs (compared with the sources on every run, contracts/types.txt) ----
#[derive(Structural, PartialEq, Eq, Clone, Copy)] pub enum ExactAlgorithm { V0, V1, V2, V3, V4, V5, V6 }
#[derive(Structural, PartialEq, Eq, Clone, Copy)] pub enum ApproxAlgorithm { NearestNeighbour, Christofides }
#[derive(Structural, PartialEq, Eq, Clone, Copy)] pub enum LowerBoundAlgorithm { OneTree, MST, MSTQueue }
#[derive(Structural, PartialEq, Eq, Clone, Copy)] pub enum Parallelism { SingleThreaded, MultiThreaded }
pub enum Commands {
    Exact { algorithm: ExactAlgorithm, input_file: PathBuf, parallelism: Parallelism },
    Approx { algorithm: ApproxAlgorithm, input_file: PathBuf, parallelism: Parallelism, lower_bound: Option<LowerBoundAlgorithm> },
    LowerBound { algorithm: LowerBoundAlgorithm, input_file: PathBuf, parallelism: Parallelism },
}
pub struct Cli { pub command: Commands }
// ---- files and errors: assumed contracts of std and quick_xml ----
#[verifier::external_body] pub struct PathBuf { _p: u8 }
#[verifier::external_body] pub struct IoError { _p: u8 }
#[verifier::external_body] pub struct DeError { _p: u8 }
#[verifier::external_body] pub struct BoxErr { _p: u8 }
#[verifier::external_body] pub fn err_into<A, B>(a: A) -> B { unimplemented!() }
/// the text of a readable file
pub uninterp spec fn text_of(p: PathBuf) -> Option<Seq<char>>;
/// what a well-formed XML document of the expected shape says
pub uninterp spec fn document(x: Seq<char>) -> Option<TravellingSalesmanProblemInstance>;
pub trait PathRef { spec fn path(&self) -> PathBuf; }
impl PathRef for PathBuf { open spec fn path(&self) -> PathBuf { *self } }
impl PathRef for &PathBuf { open spec fn path(&self) -> PathBuf { **self } }
#[verifier::external_body] pub fn read_to_string<P: PathRef>(p: P) -> (r: Result<String, IoError>) ensures match text_of(p.path()) { Some(t) => r is Ok && r->Ok_0@ == t, None => r is Err } { unimplemented!() }
pub uninterp spec fn named(f: File) -> PathBuf;
#[verifier::external_body] pub struct File { _p: u8 }
impl File {
    #[verifier::external_body] pub fn open<P: PathRef>(p: P) -> (r: Result<File, IoError>) ensures r is Ok ==> named(r->Ok_0) == p.path(), r is Err ==> text_of(p.path()) is None { unimplemented!() }
    #[verifier::external_body] pub fn read_to_string(&mut self, s: &mut String) -> (r: Result<usize, IoError>)
        ensures named(*final(self)) == named(*old(self)), match text_of(named(*old(self))) { Some(t) => r is Ok && final(s)@ == old(s)@ + t, None => r is Err } { unimplemented!() }
}
impl Clone for PathBuf { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl FullSlice for String { type S = str; open spec fn fs_ok(&self, r: &str) -> bool { r@ == self@ } fn full(&self) -> (r: &str) { self.as_str() } }
#[verifier::external_body] pub fn from_str(x: &str) -> (r: Result<TravellingSalesmanProblemInstance, DeError>)
    ensures match document(x@) { Some(d) => r is Ok && r->Ok_0 == d, None => r is Err } { unimplemented!() }
/// the instance in a file
pub open spec fn doc_of(p: PathBuf) -> Option<TravellingSalesmanProblemInstance> { match text_of(p) { Some(t) => document(t), None => None } }
/// a complete undirected instance with at least one city and finite, non-negative distances
pub open spec fn well_doc(g: Graph) -> bool { 1 <= gn(g) < usize::MAX && accepted(g) && costs_num(g) && costs_fin(g) && forall|i: int, k: int| 0 <= i < gn(g) && 0 <= k < adj(g, i).len() ==> rv((#[trigger] adj(g, i)[k]).cost) >= 0real }
/// the distance matrix of a graph
pub open spec fn mat_of(g: Graph, m: Mat) -> bool { conv_ok(g, m) && forall|i: int| 0 <= i < gn(g) && no_self(g, i) ==> fin(m.w(i, i)) && rv(#[trigger] m.w(i, i)) == 0real }
/// if the file holds a document, it is a valid instance
pub open spec fn valid(p: PathBuf) -> bool { doc_of(p) is Some ==> well_doc(doc_of(p)->0.graph) }
proof fn well_entry(g: Graph, m: Mat, i: int, j: int) requires well_doc(g), mat_of(g, m), 0 <= i < gn(g), 0 <= j < gn(g), i != j
    ensures fin(m.w(i, j)), rv(m.w(i, j)) >= 0real, rv(m.w(i, j)) == rv(m.w(j, i))
{
    assert(edge_to(g, i, j)); assert(edge_to(g, j, i));
    let k = choose|k: int| 0 <= k < adj(g, i).len() && (#[trigger] adj(g, i)[k]).to == j;
    let l = choose|l: int| 0 <= l < adj(g, j).len() && (#[trigger] adj(g, j)[l]).to == i;
    assert(m.w(i, adj(g, i)[k].to as int) == adj(g, i)[k].cost); assert(m.w(j, adj(g, j)[l].to as int) == adj(g, j)[l].cost);
    assert(edges_fin(adj(g, i)) && edges_fin(adj(g, j)));
    assert(both_ways_at(g, i, k)); assert(back_eq(g, i, k, l));
}
/// the matrix of a valid instance
pub proof fn well_inst(g: Graph, m: Mat) requires well_doc(g), mat_of(g, m) ensures inst(m)
{
    assert forall|i: int, j: int| 0 <= i < m.n && 0 <= j < m.n implies fin(#[trigger] m.w(i, j)) && rv(m.w(i, j)) >= 0real by { assert(no_self(g, i)); if i != j { well_entry(g, m, i, j); } else { assert(rv(m.w(i, i)) == 0real); } }
    assert forall|i: int, j: int| 0 <= i < m.n && 0 <= j < m.n implies rv(#[trigger] m.w(i, j)) == rv(m.w(j, i)) by { if i != j { well_entry(g, m, i, j); } }
    assert forall|i: int| 0 <= i < m.n implies rv(#[trigger] m.w(i, i)) == 0real by { assert(no_self(g, i)); }
}
pub open spec fn the_mat(p: PathBuf, m: Mat) -> bool { doc_of(p) is Some && mat_of(doc_of(p)->0.graph, m) }
// ---- what a report shows ----
pub enum Shown { Num(f64), Tour(Seq<usize>), Other }
pub trait Show { spec fn shown(&self) -> Shown; }
impl Show for f64 { open spec fn shown(&self) -> Shown { Shown::Num(*self) } }
impl Show for Vec<usize> { open spec fn shown(&self) -> Shown { Shown::Tour(self@) } }
#[verifier::external_body] pub struct Out { _p: u8 }
pub uninterp spec fn log(o: Out) -> Seq<Shown>;
#[verifier::external_body] pub fn out_value<X: Show>(o: &mut Out, x: &X) ensures log(*final(o)) == log(*old(o)).push(x.shown()) { unimplemented!() }
#[verifier::external_body] pub fn out_formatted<X>(o: &mut Out, x: &X) ensures log(*final(o)) == log(*old(o)).push(Shown::Other) { unimplemented!() }
pub open spec fn is_num(s: Shown) -> bool { s is Num }
pub open spec fn is_list(s: Shown) -> bool { s is Tour }
/// b extends a by entries that all satisfy good
pub open spec fn adds(a: Seq<Shown>, b: Seq<Shown>, good: spec_fn(Shown) -> bool) -> bool { a.len() <= b.len() && b.subrange(0, a.len() as int) =~= a && forall|i: int| a.len() <= i < b.len() ==> good(#[trigger] b[i]) }
pub open spec fn some_num(b: Seq<Shown>, k: int) -> bool { exists|i: int| k <= i < b.len() && is_num(#[trigger] b[i]) }
pub open spec fn some_list(b: Seq<Shown>, k: int) -> bool { exists|i: int| k <= i < b.len() && is_list(#[trigger] b[i]) }
/// x is the length of some tour
pub open spec fn tour_len(m: Mat, x: real) -> bool { exists|t: Seq<usize>| #[trigger] is_tour(t, m.n) && cyc_cost(wf(m), t) == x }
pub open spec fn least(m: Mat, x: real) -> bool { tour_len(m, x) && below_tours(m, x) }
pub open spec fn exact_entry(m: Mat) -> spec_fn(Shown) -> bool { |s: Shown| match s { Shown::Num(c) => fin(c) && least(m, rv(c)), Shown::Tour(t) => is_tour(t, m.n) && least(m, cyc_cost(wf(m), t)), Shown::Other => true } }
pub open spec fn approx_entry(m: Mat) -> spec_fn(Shown) -> bool { |s: Shown| match s { Shown::Num(c) => fin(c) && tour_len(m, rv(c)), Shown::Tour(t) => is_tour(t, m.n) || closed_tour(t, m.n), Shown::Other => true } }
pub open spec fn lower_entry(m: Mat) -> spec_fn(Shown) -> bool { |s: Shown| match s { Shown::Num(c) => fin(c) && below_tours(m, rv(c)), Shown::Tour(t) => false, Shown::Other => true } }
pub open spec fn exact_report(p: PathBuf, a: Seq<Shown>, b: Seq<Shown>) -> bool { exists|m: Mat| #[trigger] the_mat(p, m) && adds(a, b, exact_entry(m)) && some_num(b, a.len() as int) && some_list(b, a.len() as int) }
pub open spec fn approx_report(p: PathBuf, a: Seq<Shown>, b: Seq<Shown>) -> bool { exists|m: Mat| #[trigger] the_mat(p, m) && adds(a, b, approx_entry(m)) && some_num(b, a.len() as int) }
pub open spec fn lower_report(p: PathBuf, a: Seq<Shown>, b: Seq<Shown>) -> bool { exists|m: Mat| #[trigger] the_mat(p, m) && adds(a, b, lower_entry(m)) && some_num(b, a.len() as int) }
pub open spec fn both_reports(p: PathBuf, a: Seq<Shown>, b: Seq<Shown>) -> bool { exists|c: Seq<Shown>| #[trigger] approx_report(p, a, c) && lower_report(p, c, b) }
// ---- what each command needs of a valid instance ----
pub open spec fn exact_ok(al: ExactAlgorithm, p: PathBuf, par: Parallelism) -> bool { valid(p) && forall|m: Mat| #[trigger] the_mat(p, m) ==> (par is MultiThreaded ==> m == the_instance() && ipow(m.n as int, 3) <= usize::MAX) && (par is SingleThreaded && al is V6 ==> no_collision(m)) }
pub open spec fn approx_ok(al: ApproxAlgorithm, p: PathBuf) -> bool { valid(p) && (al is Christofides ==> forall|m: Mat| #[trigger] the_mat(p, m) ==> metric(m) && fits(m.n)) }
/// dropping the return to the start gives a tour of the same length
pub proof fn closed_len(m: Mat, p: Seq<usize>) requires inst(m), closed_tour(p, m.n) ensures tour_len(m, path_cost(wf(m), p))
{
    let w = wf(m); let n = m.n;
    if p.len() == 1 {
        assert(n == 1) by { assert forall|v: int| 0 <= v < n implies #[trigger] has(p, v) by { assert(cnt(p, v) > 0); cnt_pos(p, v); } assert(p[0] < n); if n > 1 { assert(has(p, 0) && has(p, 1)); } }
        assert(p[0] < n); assert(p.no_duplicates()); assert(is_tour(p, n)); assert(path_cost(w, p) == 0real);
    } else {
        let q = p.drop_last();
        assert(in_range(q, n)) by { assert forall|i: int| 0 <= i < q.len() implies #[trigger] q[i] < n by { assert(p[i] < n); } }
        assert forall|v: int| 0 <= v < n implies #[trigger] has(q, v) by { assert(cnt(p, v) > 0); cnt_pos(p, v); let i = choose|i: int| 0 <= i < p.len() && #[trigger] p[i] == v; if i < q.len() { assert(q[i] == v); } else { assert(q[0] == v); } }
        covers_len(q, n);
        assert(is_tour(q, n));
        if q.len() == 1 { assert(rv(m.w(0, 0)) == 0real); assert(p[0] < n && p[1] < n); assert(path_cost(w, q) == 0real); }
        assert(path_cost(w, p) == cyc_cost(w, q));
    }
}
pub proof fn covers_len(q: Seq<usize>, n: nat) requires in_range(q, n), q.no_duplicates(), forall|v: int| 0 <= v < n ==> #[trigger] has(q, v) ensures q.len() == n
{
    let s = q.map_values(|x: usize| x as int).to_set(); let full = vstd::set_lib::set_int_range(0, n as int);
    vstd::set_lib::lemma_int_range(0, n as int);
    let r = q.map_values(|x: usize| x as int);
    assert(r.no_duplicates()); r.unique_seq_to_set();
    assert(s =~= full) by {
        assert forall|x: int| #[trigger] s.contains(x) implies full.contains(x) by { let i = choose|i: int| 0 <= i < r.len() && r[i] == x; assert(q[i] < n); }
        assert forall|x: int| #[trigger] full.contains(x) implies s.contains(x) by { assert(has(q, x)); let i = choose|i: int| 0 <= i < q.len() && #[trigger] q[i] == x; assert(r[i] == x); assert(r.contains(x)); }
    }
}
pub proof fn optimal_least(m: Mat, r: (f64, Vec<usize>)) requires real_tour(m, r), optimal(m, r.0) ensures fin(r.0), is_tour(r.1@, m.n), least(m, rv(r.0)), least(m, cyc_cost(wf(m), r.1@))
{ assert forall|t: Seq<usize>| #[trigger] is_tour(t, m.n) implies rv(r.0) <= cyc_cost(wf(m), t) by { assert(beats(m, r.0, t)); } }
pub proof fn exact_done(p: PathBuf, m: Mat, a: Seq<Shown>, b: Seq<Shown>) requires the_mat(p, m), adds(a, b, exact_entry(m)), some_num(b, a.len() as int), some_list(b, a.len() as int) ensures exact_report(p, a, b) {}
pub proof fn approx_done(p: PathBuf, m: Mat, a: Seq<Shown>, b: Seq<Shown>) requires the_mat(p, m), adds(a, b, approx_entry(m)), some_num(b, a.len() as int) ensures approx_report(p, a, b) {}
pub proof fn lower_done(p: PathBuf, m: Mat, a: Seq<Shown>, b: Seq<Shown>) requires the_mat(p, m), adds(a, b, lower_entry(m)), some_num(b, a.len() as int) ensures lower_report(p, a, b) {}
pub proof fn nn_len(m: Mat, r: (f64, Vec<usize>)) requires best_of_all(m, r) ensures fin(r.0), is_tour(r.1@, m.n), tour_len(m, rv(r.0))
{ let i = choose|i: int| 0 <= i < m.n && #[trigger] is_nn(m, i, r); assert(is_nn(m, i, r)); }
pub open spec fn mst_low(m: Mat, t: Graph) -> bool { costs_fin(t) && forall|x: f64| 2real * #[trigger] rv(x) == dir_weight(t) ==> below_tours(m, rv(x)) }
// ---- the whole command ----
pub open spec fn command_ok(c: Commands) -> bool { match c {
    Commands::Exact { algorithm, input_file, parallelism } => exact_ok(algorithm, input_file, parallelism),
    Commands::Approx { algorithm, input_file, parallelism, lower_bound } => approx_ok(algorithm, input_file),
    Commands::LowerBound { algorithm, input_file, parallelism } => valid(input_file),
} }
pub open spec fn file_of(c: Commands) -> PathBuf { match c { Commands::Exact { algorithm, input_file, parallelism } => input_file, Commands::Approx { algorithm, input_file, parallelism, lower_bound } => input_file, Commands::LowerBound { algorithm, input_file, parallelism } => input_file } }
/// without a readable, well-formed document there is an error and no report; otherwise the report of the command
pub open spec fn command_done(c: Commands, ok: bool, a: Seq<Shown>, b: Seq<Shown>) -> bool {
    if doc_of(file_of(c)) is None { !ok && b == a } else { ok && match c {
        Commands::Exact { algorithm, input_file, parallelism } => exact_report(input_file, a, b),
        Commands::Approx { algorithm, input_file, parallelism, lower_bound } => if lower_bound is Some { both_reports(input_file, a, b) } else { approx_report(input_file, a, b) },
        Commands::LowerBound { algorithm, input_file, parallelism } => lower_report(input_file, a, b),
    } }
}
impl TravellingSalesmanProblemInstance {
//# ext parser::TravellingSalesmanProblemInstance::do_conditions_hold
//# fn parser::TravellingSalesmanProblemInstance::parse_from_xml
fn parse_from_xml(xml: &str) -> (ret: Result<Self, DeError>)
@ requires document(xml@) is Some ==> well_doc(document(xml@)->0.graph),
@ ensures match document(xml@) { Some(d) => ret is Ok && ret->Ok_0 == d, None => ret is Err },
{
    let res: Result<Self, DeError> = from_str(xml);
    if let Ok(tspi) = &res {
        runtime_check(tspi.do_conditions_hold());
    }
    res
}
//# end
}
//# fn lib::get_tsp_instance
fn get_tsp_instance(input_file: PathBuf) -> (ret: Result<TravellingSalesmanProblemInstance, BoxErr>)
@ requires valid(input_file),
@ ensures match doc_of(input_file) { Some(d) => ret is Ok && ret->Ok_0 == d, None => ret is Err },
{
    let mut file = (match File::open(input_file) {
        Ok(_ok) => _ok,
        Err(_err) => {
            return Err(err_into(_err));
        }
    });
    let mut xml = String::new();
    (match file.read_to_string(&mut xml) {
        Ok(_ok) => _ok,
        Err(_err) => {
            return Err(err_into(_err));
        }
    });
@ assert(xml@ =~= text_of(input_file)->0);
    Ok((match TravellingSalesmanProblemInstance::parse_from_xml(full_slice(&xml)) {
        Ok(_ok) => _ok,
        Err(_err) => {
            return Err(err_into(_err));
        }
    }))
}
//# end
//# fn lib::exact_run
fn exact_run(_out: &mut Out, algorithm: ExactAlgorithm, input_file: PathBuf, parallelism: Parallelism) -> (ret: Result<(), BoxErr>)
@ requires exact_ok(algorithm, input_file, parallelism),
@ ensures doc_of(input_file) is Some ==> ret is Ok && exact_report(input_file, log(*old(_out)), log(*final(_out))),
@   doc_of(input_file) is None ==> ret is Err && log(*final(_out)) == log(*old(_out)),
{
@ let ghost l0 = log(*_out);
    let tsp_instance = (match get_tsp_instance(input_file) {
        Ok(_ok) => _ok,
        Err(_err) => {
            return Err(err_into(_err));
        }
    });
@ proof { assert(doc_of(input_file) is Some); }
    let m: NAMatrix = NAMatrix::conv_from(&tsp_instance.graph);
@ let ghost mm = na_mat(m); proof { assert(the_mat(input_file, mm)); well_inst(tsp_instance.graph, mm); inst_facts(mm); }
    let (best_cost, best_permutation) = match parallelism {
        Parallelism::SingleThreaded => match algorithm {
            ExactAlgorithm::V0 => naive_solver(&m),
            ExactAlgorithm::V1 => first_improved_solver(&m),
            ExactAlgorithm::V2 => second_improved_solver(&m),
            ExactAlgorithm::V3 => third_improved_solver(&m),
            ExactAlgorithm::V4 => fourth_improved_solver(&m),
            ExactAlgorithm::V5 => fifth_improved_solver(&m),
            ExactAlgorithm::V6 => sixth_improved_solver(&m),
        },
        Parallelism::MultiThreaded => threaded_solver(&m),
    };
@ proof { optimal_least(mm, (best_cost, best_permutation)); }
    out_value(_out, &best_cost);
    out_value(_out, &best_permutation);
@ proof { let l = log(*_out); let k = l0.len() as int; assert(some_num(l, k)) by { assert(is_num(l[k]) || is_num(l[k + 1])); } assert(some_list(l, k)) by { assert(is_list(l[k]) || is_list(l[k + 1])); } assert(adds(l0, l, exact_entry(mm))); exact_done(input_file, mm, l0, l); }
    Ok(())
}
//# end
//# fn lib::approx_run
fn approx_run(_out: &mut Out, algorithm: ApproxAlgorithm, input_file: PathBuf, parallelism: Parallelism, lower_bound: Option<LowerBoundAlgorithm>) -> (ret: Result<(), BoxErr>)
@ requires approx_ok(algorithm, input_file),
@ ensures doc_of(input_file) is Some ==> ret is Ok && if lower_bound is Some { both_reports(input_file, log(*old(_out)), log(*final(_out))) } else { approx_report(input_file, log(*old(_out)), log(*final(_out))) },
@   doc_of(input_file) is None ==> ret is Err && log(*final(_out)) == log(*old(_out)),
{
@ let ghost l0 = log(*_out); let ghost p = input_file;
    let tsp_instance = (match get_tsp_instance(input_file.clone()) {
        Ok(_ok) => _ok,
        Err(_err) => {
            return Err(err_into(_err));
        }
    });
@ let ghost g = tsp_instance.graph; proof { assert(doc_of(input_file) is Some); assert forall|m: Mat| #[trigger] mat_of(g, m) implies the_mat(input_file, m) && inst(m) && cinst(m) by { well_inst(g, m); inst_facts(m); } }
    match algorithm {
        ApproxAlgorithm::Christofides => {
            let graph = conv_into(&tsp_instance.graph);
@ let ghost mm = na_mat(graph); assert(mat_of(g, mm));
            let solution = match parallelism {
                Parallelism::SingleThreaded => christofides::<SEQ_COMPUTATION>(&graph),
                Parallelism::MultiThreaded => christofides::<PAR_COMPUTATION>(&graph),
            };
@ proof { closed_len(mm, solution.1@); }
            out_value(_out, &solution.0);
@ proof { let l = log(*_out); let k = l0.len() as int; assert(some_num(l, k)) by { assert(is_num(l[k]) || is_num(l[l.len() - 1])); } assert(adds(l0, l, approx_entry(mm))); approx_done(input_file, mm, l0, l); }
        }
        ApproxAlgorithm::NearestNeighbour => {
            let graph = conv_into(&tsp_instance.graph);
@ let ghost mm = na_mat(graph); assert(mat_of(g, mm));
            let solution = match parallelism {
                Parallelism::SingleThreaded => nearest_neighbour::<SEQ_COMPUTATION>(&graph),
                Parallelism::MultiThreaded => nearest_neighbour::<PAR_COMPUTATION>(&graph),
            };
@ proof { nn_len(mm, solution); }
            out_value(_out, &solution.0);
            out_value(_out, &solution.1);
@ proof { let l = log(*_out); let k = l0.len() as int; assert(some_num(l, k)) by { assert(is_num(l[k]) || is_num(l[l.len() - 1])); } assert(adds(l0, l, approx_entry(mm))); approx_done(input_file, mm, l0, l); }
        }
    }
@ let ghost l1 = log(*_out);
    if let Some(lower_bound_algo) = lower_bound {
        (match lower_bound_run(_out, lower_bound_algo, input_file, parallelism) {
            Ok(_ok) => _ok,
            Err(_err) => {
                return Err(err_into(_err));
            }
        })
    }
@ proof { if lower_bound is Some { assert(approx_report(p, l0, l1) && lower_report(p, l1, log(*_out))); } }
    Ok(())
}
//# end
//# fn lib::lower_bound_run
fn lower_bound_run(_out: &mut Out, algorithm: LowerBoundAlgorithm, input_file: PathBuf, parallelism: Parallelism) -> (ret: Result<(), BoxErr>)
@ requires valid(input_file),
@ ensures doc_of(input_file) is Some ==> ret is Ok && lower_report(input_file, log(*old(_out)), log(*final(_out))),
@   doc_of(input_file) is None ==> ret is Err && log(*final(_out)) == log(*old(_out)),
{
@ let ghost l0 = log(*_out);
    let tsp_instance = (match get_tsp_instance(input_file) {
        Ok(_ok) => _ok,
        Err(_err) => {
            return Err(err_into(_err));
        }
    });
@ proof { assert(doc_of(input_file) is Some); }
    let na_matrix: NAMatrix = NAMatrix::conv_from(&tsp_instance.graph);
@ let ghost mm = na_mat(na_matrix); proof { assert(the_mat(input_file, mm)); well_inst(tsp_instance.graph, mm); inst_facts(mm); assert forall|e: Seq<usize>, t: Graph| e.len() == 0 && #[trigger] is_mst(mm, e, t) implies mst_low(mm, t) by { assert(e =~= Seq::<usize>::empty()); mst_below(mm, t); } }
    match algorithm {
        LowerBoundAlgorithm::OneTree => {
            let lower_bound = match parallelism {
                Parallelism::SingleThreaded => one_tree_lower_bound::<SEQ_COMPUTATION>(&na_matrix),
                Parallelism::MultiThreaded => one_tree_lower_bound::<PAR_COMPUTATION>(&na_matrix),
            };
            out_value(_out, &lower_bound);
        }
        LowerBoundAlgorithm::MST => {
            let mst = match parallelism {
                Parallelism::SingleThreaded => prim::<SEQ_COMPUTATION>(&na_matrix),
                Parallelism::MultiThreaded => prim::<PAR_COMPUTATION>(&na_matrix),
            };
            out_value(_out, &mst.undirected_edge_weight());
        }
        LowerBoundAlgorithm::MSTQueue => {
            if parallelism != Parallelism::SingleThreaded {}
@ proof { assert forall|e: Seq<usize>| e.len() == 0 implies #[trigger] rest_of(mm.n, e) == rest_of(mm.n, Seq::<usize>::empty()) by { assert(e =~= Seq::<usize>::empty()); } }
            let mst = prim_with_excluded_node_priority_queue(&na_matrix, &[]);
            out_value(_out, &mst.undirected_edge_weight());
        }
    }
@ proof { let l = log(*_out); let k = l0.len() as int; assert(some_num(l, k)) by { assert(is_num(l[k]) || is_num(l[l.len() - 1])); } assert(adds(l0, l, lower_entry(mm))); lower_done(input_file, mm, l0, l); }
    Ok(())
}
//# end
//# fn lib::run
fn run(_out: &mut Out, cli: Cli) -> (ret: Result<(), BoxErr>)
@ requires command_ok(cli.command),
@ ensures command_done(cli.command, ret is Ok, log(*old(_out)), log(*final(_out))),
{
    match cli.command {
        Commands::Exact { algorithm: algorithm, input_file: input_file, parallelism: parallelism } => exact_run(_out, algorithm, input_file, parallelism),
        Commands::Approx { algorithm: algorithm, input_file: input_file, parallelism: parallelism, lower_bound: lower_bound } => approx_run(_out, algorithm, input_file, parallelism, lower_bound),
        Commands::LowerBound { algorithm: algorithm, input_file: input_file, parallelism: parallelism } => lower_bound_run(_out, algorithm, input_file, parallelism),
    }
}
//# end
