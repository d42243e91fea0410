#!/usr/bin/env python3
"""Generates /verif/properties.jsonl (kept as a script so statements are edited in one place)."""
import json
E='src/solvers/exact.rs'; M='src/mst.rs'; O='src/one_tree.rs'; P='src/parser.rs'; PC='src/preconditions.rs'
D='src/datastructures/mod.rs'; NA='src/datastructures/nalgebra.rs'; VM='src/datastructures/vecmatrix.rs'
S='src/solvers/mod.rs'; CH='src/solvers/approximate/christofides.rs'; MA='src/solvers/approximate/matching.rs'
NN='src/solvers/approximate/nearest_neighbour.rs'; L='src/lib.rs'
rows=[]
def prop(id,title,statement,over,text,why,files,mech,observe,hook=None):
    rows.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=hook)))
I=['inputs']
prop('C01','Exact solvers return a real tour and its true cost',
 'For every complete symmetric instance with at least one city and non-negative finite distances, every exact solver (all seven single-threaded versions and the multi-threaded one) returns a sequence that visits each city exactly once. The cost returned with it is exactly the length of that closed tour in the given distance matrix.',
 I,'all instance sizes n >= 1 and all finite non-negative symmetric distance matrices (distances as exact reals)',
 'The tests run a handful of fixed graphs with 3 to 14 cities and mostly compare only the cost with a constant; whether the pair (cost, path) is consistent on any other matrix, or with one or two cities, is never sampled.',
 [E,D],[('tour enumeration and best-so-far bookkeeping',E),('tour evaluation',D)],['return value of each exact solver'])
prop('C02','Enumerating exact solvers are optimal',
 'For every complete symmetric instance with at least one city, the three solvers that enumerate tours without pruning (plain permutations, permutations with fixed first city, recursive prefix enumeration with partial sums) return a tour whose cost is no larger than the cost of any other tour.',
 I,'all n >= 1, all finite symmetric distance matrices, against all n! tours',
 'Optimality is a statement over all n! tours of all matrices; tests compare against a constant for a few fixed graphs.',
 [E,D],[('lexicographic permutation enumeration',E),('depth-first prefix enumeration with running cost',E)],['return value of exact solvers V0, V1, V2'])
prop('C03','Partial-sum and nearest-neighbour pruning lose no optimum',
 'For every complete symmetric instance with at least one city and non-negative distances, the solvers that prune with the partial tour length, and with the partial length plus a nearest-neighbour bound on the remaining cities, still return a tour of minimum cost. No branch containing a strictly better tour than the result is ever cut off.',
 I,'all n >= 1, all finite non-negative symmetric distance matrices, against all n! tours',
 'A wrong bound only loses the optimum on matrices where the bound exceeds the true remaining cost at the decisive moment; the fixed test graphs never do that.',
 [E],[('pruning test on the partial sum',E),('nearest-neighbour lower bound of the remaining cities',E)],['return value of exact solvers V3 and V4'])
prop('C04','Spanning-tree pruning loses no optimum',
 'For every complete symmetric instance with at least one city and non-negative distances, the solvers that prune with a minimum spanning tree of the unvisited cities, with and without the cache of tree weights, return a tour of minimum cost. The bound they prune with never exceeds the cost of any completion of the current partial tour.',
 I,'all n >= 1, all finite non-negative symmetric distance matrices, against all n! tours',
 'Needs a matrix where an over-estimating bound (e.g. a doubled tree weight) cuts the optimal branch; the few fixed graphs in the tests do not.',
 [E,M,P],[('spanning-tree bound of the unvisited cities and the pruning test',E),('minimum spanning tree with excluded vertices',M),('edge weight sum',P)],['return value of exact solvers V5 and V6'])
prop('C05','Multi-threaded exact solver is optimal for every thread count',
 'For every complete symmetric instance with at least one city and non-negative distances, and for every number of worker threads and every interleaving of them, the multi-threaded exact solver returns a tour of minimum cost. The prefixes handed to the workers together cover all tours.',
 ['inputs','schedules','configurations'],'all n >= 1, all finite non-negative symmetric matrices, all thread counts >= 1, all interleavings of lock-protected updates',
 'The tests run with whatever core count the machine has, on few graphs; the division of work depends on both the number of cities and the number of cores.',
 [E,M],[('division of the prefix space into chunks',E),('worker loop and mutex-protected best result',E)],['return value of the multi-threaded exact solver'])
prop('C06','Permutation stepping is the exact lexicographic successor',
 'For every slice of ordered elements, duplicates included, the permutation stepper either rearranges the slice into the least arrangement of the same elements that is lexicographically greater than the current one and reports success, or reports that no greater arrangement exists and leaves the slice unchanged.',
 I,'all slices of all lengths over any totally ordered element type',
 'The tests step through all permutations of one or two short arrays; the successor relation for all lengths and repeated elements is not sampled.',
 [E],[('suffix scan, swap and suffix reversal',E)],['slice contents and return value of the permutation stepper'])
prop('C07','Prefix numbering covers the space exactly once',
 'For every base b >= 1 and digit count, stepping a digit vector yields its numeric successor in base b with the same number of digits, and reports the end exactly at the all-maximal vector. Splitting the b-ary numbers of a given length into n chunks gives half-open digit ranges in which the first starts at zero, each one starts where the previous one ends, and the last ends at the end of the space (which, wrapping around, is written as the zero vector), so every number lies in exactly one chunk.',
 I,'all bases >= 1, digit counts, chunk counts n >= 1 smaller than the number of values, and chunk indices, as long as the number of values fits the machine word',
 'The tests check a single base and a few chunks; remainders when the space is not divisible by the number of chunks are not exercised.',
 [E],[('odometer step with carry',E),('chunk boundaries and conversion to digits',E)],['digit vectors returned by the public prefix functions'])
prop('C08','Sequential MST is a minimum spanning tree',
 'For every complete symmetric matrix with non-negative distances and every set of excluded vertices, the sequential spanning-tree construction returns an undirected graph whose edges carry the matrix distances, touch no excluded vertex, number one fewer than the remaining vertices and connect all of them. Its total weight is no larger than that of any other edge set connecting the remaining vertices.',
 I,'all n, all finite non-negative symmetric matrices, all excluded vertex lists',
 'Minimality is over all spanning trees of all matrices; tests compare a few hand-computed trees.',
 [M,P,NA],[('Prim main loop',M),('minimum-connection-cost bookkeeping in a vector',M)],['returned graph of the sequential MST functions'])
prop('C09','Queue-based and multi-threaded MST are minimum spanning trees',
 'For every complete symmetric matrix with non-negative distances and every set of excluded vertices, the priority-queue based and the multi-threaded spanning-tree constructions also return a connected, acyclic graph over exactly the non-excluded vertices whose edges carry the matrix distances, and its total weight equals the minimum.',
 ['inputs','schedules'],'all n, all finite non-negative symmetric matrices, all excluded vertex lists; for the multi-threaded one all schedules',
 'The stored edge endpoints (as opposed to the weights) are only wrong when a later, more expensive connection is offered; the tests compare few trees and mostly weights.',
 [M],[('priority queue bookkeeping of connection cost and connection partner',M),('parallel relaxation and parallel minimum search',M)],['returned graph of the priority-queue and multi-threaded MST functions'])
prop('C10','Reported lower bounds never exceed a tour',
 'For every complete symmetric instance with non-negative distances, the 1-tree lower bound (sequential or multi-threaded) and the spanning-tree weight are at most the length of every tour. The 1-tree bound is finite, and both ways of computing it give the same value, the maximum over all choices of the special vertex.',
 ['inputs','schedules'],'all n >= 2, all finite non-negative symmetric matrices, all tours',
 'A lower bound is universally quantified over tours; tests check equality with hand-computed constants of few graphs.',
 [O,M,P],[('1-tree: spanning tree plus two cheapest edges of the special vertex',O),('maximum over special vertices',O),('edge weight sums',P)],['returned 1-tree graph and lower-bound values'])
prop('C11','Nearest-neighbour tour is valid, greedy and best of its starts',
 'For every complete instance with finite distances, the nearest-neighbour construction returns a sequence starting at the requested city and visiting each city once, in which every next city is a closest not yet visited one, together with exactly the length of the closed tour. The n-start version (sequential or multi-threaded) returns the result of some start city, no worse than any other start when every city is used.',
 ['inputs','schedules'],'all n >= 1, all finite matrices, all start cities',
 'The greedy choice must hold at every step for every matrix; tests check a few fixed graphs and starts.',
 [NN],[('greedy scan for the nearest unvisited city',NN),('random distinct starts and minimum over them',NN)],['return values of the nearest-neighbour functions'])
prop('C12','Christofides returns a Hamiltonian cycle with its true weight',
 'For every complete metric instance with at least one city, the Christofides solver (sequential or multi-threaded, for any perfect matching of the odd-degree tree vertices) returns a closed sequence that starts and ends in the same city and visits every other city exactly once. The returned weight is exactly the length of that cycle.',
 ['inputs','schedules'],'all n >= 1, all finite metric symmetric matrices, all matchings chosen at random or by a caller',
 'Random matchings and arbitrary trees; tests run a few graphs where only the weight bound is compared.',
 [CH,MA,M,S],[('multigraph of tree and matching',CH),('Euler walk by cycle splicing',CH),('shortcutting of repeated cities',CH)],['return value of christofides'])
prop('C13','Christofides never costs more than tree plus matching',
 'For every complete metric instance, the weight of the returned cycle is at most the weight of the minimum spanning tree plus the weight of the matching that was used. Every tree and matching edge is used exactly once by the Euler walk, and shortcuts never lengthen it.',
 ['inputs'],'all n >= 1, all finite metric symmetric matrices, all perfect matchings of the odd vertices supplied by the caller',
 'Universally quantified inequality over matrices, trees and matchings; the tests check the 1.5 factor on a few graphs with slack that hides small losses.',
 [CH],[('multigraph counts, Euler walk and shortcutting',CH)],['weight returned by the generic christofides function with a caller-supplied matching'])
prop('C14','Matchings are perfect and local search never worsens them',
 'For every list of an even number of distinct vertices, the approximate matching pairs up every one of them exactly once. The local improvement step on two matched pairs yields pairs over the same four vertices with the least total cost of the three possible pairings, so the total cost of a matching never increases.',
 ['inputs','schedules'],'all matrices, all vertex lists without repetition, all random shuffles and numbers of improvement rounds',
 'Depends on which of three pairings is cheapest for a random choice of pairs; tests sample two orders and only compare cost.',
 [MA],[('random initial pairing',MA),('two-pair exchange',MA)],['matching returned for a vertex list'])
prop('C15','Exactly the complete simple undirected graphs are accepted',
 'The instance check accepts a graph if and only if every vertex has exactly one edge to every other vertex, none to itself and none to a vertex that does not exist, and both directions of every edge have equal cost. It gives an answer, rather than panicking, on every graph.',
 I,'all graphs (any number of vertices, any adjacency lists), costs not NaN',
 'Acceptance is over all graphs; the tests try a few valid and invalid ones, none with self loops or dangling targets of the right degree.',
 [PC,P],[('degree check',PC),('duplicate target check',PC),('reverse edge check',PC)],['result of the instance condition check and of the three precondition functions'])
prop('C16','Conversions to matrices preserve every distance',
 'Converting a complete undirected graph to either matrix type gives a square matrix whose entry for two different cities is exactly the cost of the edge between them; converting one matrix type into the other preserves every entry; and building a matrix from points (sequentially or in parallel) gives a symmetric matrix with zero diagonal in which the entry of two points depends only on that pair and is their Euclidean distance formula.',
 I,'all graphs accepted by the instance check, all matrices, all point lists',
 'Index mix-ups show only for particular positions; tests convert two or three fixed graphs.',
 [NA,VM,D],[('graph to matrix loops',NA),('graph to matrix loops',VM),('point loops',NA)],['matrix entries after conversion'])
prop('C17','Path, cycle, metric and Hamiltonicity evaluation are exact',
 'For every matrix and vertex sequence, the path cost is the sum over consecutive pairs and the cycle cost adds the closing edge (zero for at most one vertex). The metric test accepts a symmetric matrix exactly when no triangle violates the inequality by more than the documented tolerance, and, on sequences that end where they start, the Hamiltonicity test accepts exactly those that visit every vertex of the graph and repeat none but the start.',
 I,'all matrices, all vertex sequences',
 'Definitions over all sequences and triples; the tests check a few of each.',
 [D,S],[('path and cycle sums',D),('triangle loop',D),('occurrence counting',S)],['returned sums and booleans'])
prop('C18','Graph bookkeeping of edges, degrees and weights is exact',
 'Adding an undirected edge adds exactly the two opposite directed edges with that cost and changes nothing else. The directed weight is the sum of the costs of all stored edges, the undirected weight half of it, the degree of a vertex is the number of its stored edges, and the conversions from nested lists keep order and content.',
 ['inputs','histories'],'all graphs, all edges, all sequences of additions',
 'Sums and frame conditions over arbitrary graphs; the tests check one or two graphs.',
 [P],[('edge insertion',P),('weight sums',P),('delegated vector operations',P)],['graph contents, degrees and weights'])
prop('C19','The command line reports the value the algorithms computed',
 'For every valid input file, each exact command prints the minimum tour cost and a tour of that cost, each approximation command prints the length of a real tour of that instance, and each lower-bound command prints a value that no tour of the instance undercuts, whichever algorithm and parallelism is selected. An unreadable or malformed file yields an error instead of a report.',
 ['inputs','configurations'],'all valid instances, all algorithm and parallelism selections (without MPI)',
 'The dispatch is not covered by any test; a wrong arm would go unnoticed.',
 [L],[('dispatch from selection to algorithm and reporting',L)],['standard output of the commands'])
prop('C20','No algorithm panics, hangs or misindexes on a valid instance',
 'On every complete symmetric instance with at least one city and finite non-negative distances, every solver, every lower bound and every spanning-tree construction terminates and returns without panicking, indexing out of bounds or overflowing its integer arithmetic.',
 ['inputs'],'all n >= 1 (as far as sizes fit the machine), all finite non-negative symmetric matrices, all start cities and excluded sets',
 'Boundary sizes such as one, two and three cities and unusual excluded sets are not exercised by the tests.',
 [E,M,O,NN,CH,MA,P,D,NA,S],[('loops, recursion and index arithmetic of all algorithms','src')],['normal return of every public algorithm'])
prop('C21','Parsing an XML instance keeps every vertex, edge and cost',
 'Parsing a TSPLIB XML document yields, in document order, exactly the vertices, targets and costs the document contains, and serialising an instance and parsing it again gives an equal instance.',
 I,'all well-formed documents',
 'One document is parsed by the tests.',
 [P],[('serde derive attributes and XML library',P)],['parsed instance'])
prop('C22','The MPI modes return the same results as the sequential ones',
 'With any number of MPI processes and any message timing, the MPI variants of the exact solvers, nearest neighbour, matching and lower bound give every process an optimal (respectively valid) result, and all processes terminate.',
 ['schedules','configurations','inputs'],'all process counts, message orders and instances',
 'MPI is an optional feature that does not build in this environment, no test runs it.',
 [E,NN,MA,O],[('message protocol between coordinator and workers',E)],['results on every rank'])
with open('/verif/properties.jsonl','w') as f:
    for r in rows: f.write(json.dumps(r)+'\n')
