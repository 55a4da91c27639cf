#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand after editing it)."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = 'src/HybridSolver/main/'
BB, BBH = M + 'algorithms/branch_and_bound.c', M + 'algorithms/branch_and_bound.h'
KR = M + 'algorithms/kruskal.c'
TESTS = 'The repository tests print results and assert nothing beyond a normal exit, on a handful of instances; '


def p(id, title, statement, over, text, why, files, mech, technique, level='exploration', note='', state=(), observe=(), hook=None):
    return dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, technique=technique,
                level=level, note=note, state=state, observe=observe, hook=hook)


HSD = 'src/HybridSolver/'
RES = HSD + 'results/AdjacencyMatrix/'
GN = M + 'graph-convnet-tsp/'
CONV = 'src/CplexSolver/Data/TSPLIB/converter_tsp_to_dat.py'


def p_na(id, title, statement, over, text, why, files, mech):
    return {'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
            'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech], 'observe_at': [], 'hook_needed': None}}


MON = 'online monitor interposed on the functions of a shared build, with an exact or tour-pool oracle, under random and adversarial instances'
E2E = 'offline oracle over the report of the real program'
NOTE = ('Sampled: holds on every monitored execution of this run (random instances of 13-21 families, seeds from VERIF_SEED). '
        'Trusts the independent oracle in /verif/harness. ')

P = [
 p('C01', 'The classic solver returns an optimal tour',
   'On every complete symmetric instance with positive weights, a classic (non-hybrid) run that is not reported as interrupted returns a tour whose cost is the optimum, up to the documented pruning tolerance (0.00127 sqrt(n), n being the number of cities the solver was compiled for).',
   ['inputs', 'configurations'], 'every instance of 3 or more cities, every weight distribution, both spanning-tree algorithms, every compiled size',
   TESTS + 'no test compares a tour with the optimum.', [BB, KR, M + 'main.c', M + 'problem_settings.h'],
   [('branch and bound loop', BB + ': branch_and_bound'), ('pruning', BB + ': bound'), ('edge fixing', BB + ': variable_fixing, infer_constraints')],
   'differential oracle (Held-Karp, 2-opt, Concorde tours) over monitored and real runs', note=NOTE + 'Exact up to 15 cities, one-sided above.',
   state=[('bestValue', 'cost of the incumbent', BBH)], observe=['report of the solver', 'problem after branch_and_bound']),
 p('C02', 'The reported tour is a real tour with the cost and probability stated',
   'On a complete instance the solution in the report, interrupted or not, is a Hamiltonian cycle of the given graph; its printed cost is the sum of the given weights along it, and in hybrid mode prob_tour is the mean of the given probabilities along it.',
   ['inputs', 'configurations', 'fault_sequences'], 'every instance, mode, spanning-tree algorithm, compiled size and stopping point',
   TESTS + 'no test reads the report.', [BB, M + 'main.c', M + 'tsp_instance_reader.c'],
   [('incumbent update', BB + ': bound'), ('cycle check', BB + ': check_hamiltonian'), ('report', BB + ': print_problem')],
   E2E, note=NOTE + 'Up to 150 cities, large ones stopped by a virtual clock.', observe=['report of the solver']),
 p('C03', 'The hybrid solver returns an optimal tour whatever the predictions',
   'On every complete symmetric instance with positive weights and every assignment of probabilities in [0,1] to the edges, a hybrid run that is not reported as interrupted returns a tour whose cost is the optimum up to the documented tolerance: predictions guide the search, they never cost optimality.',
   ['inputs', 'configurations'], 'every instance and every prediction: constant, random, adversarial, around the thresholds',
   TESTS + 'predictions used by the tests are those of one trained network.', [BB, KR, M + 'problem_settings.h'],
   [('branch and bound loop', BB + ': branch_and_bound'), ('ordering', BB + ': compare_subproblems'), ('branching edge', BB + ': bound')],
   'differential oracle (Held-Karp, 2-opt, Concorde tours) over monitored and real runs', note=NOTE + 'Exact up to 15 cities, one-sided above.',
   observe=['report of the solver']),
 p('C04', 'Runs are reproducible and the classic solver ignores the predictions',
   'Solving the same file twice gives the same report but for the times, whatever the contents of fresh memory; in the classic build the report (tour, cost, counters) does not change when only the predictions in the file do.',
   ['inputs', 'configurations'], 'every instance, every pair of prediction sets, every initial content of the heap and stack',
   TESTS + 'none compares two runs.', [BB, M + 'main.c', M + 'data_structures/b_and_b_data.c'],
   [('mode switch', BB + ': HYBRID'), ('initialisation', BB + ': branch_and_bound')],
   'metamorphic comparison of the reports of repeated real runs under perturbed memory', note=NOTE, observe=['report of the solver']),
 p('C05', 'No sub-problem is discarded while it holds a better tour',
   'When a sub-problem is closed (by bound, as infeasible or as solved), every tour that respects its constraints costs at least the incumbent minus the tolerance; the lower bound of a sub-problem that stays open never exceeds its cheapest tour and is not weaker than the plain 1-tree bound; the incumbent never gets worse; computing a bound leaves the weights of the instance as they were.',
   ['inputs', 'histories'], 'every sub-problem reached in every search', TESTS + 'sub-problems are never looked at.', [BB, KR],
   [('Held-Karp ascent', BB + ': bound'), ('pruning test', BB + ': compare_subproblems')], MON, note=NOTE + 'Needs the function bound to keep its interface; otherwise only the end result is observed.',
   state=[('value, type', 'bound and status of a sub-problem', BBH)], observe=['entry and exit of bound']),
 p('C06', 'Branching neither loses nor duplicates tours',
   'Branching takes an unconstrained edge and replaces a sub-problem by at most two children, one that requires the edge and one that forbids it, which keep all its other constraints; together they keep every tour of the parent that could improve the incumbent, and the sub-problems already waiting stay in the queue.',
   ['inputs', 'histories'], 'every branching step of every search', TESTS + 'no test looks at the open list.', [BB, M + 'data_structures/b_and_b_data.c'],
   [('branching', BB + ': branch'), ('open list', M + 'data_structures/b_and_b_data.c')], MON, note=NOTE, observe=['entry and exit of branch']),
 p('C07', 'Edges are fixed and constraints inferred only when no better tour is lost',
   'An edge is made mandatory or forbidden by reduced costs only if no tour better than the incumbent (up to the tolerance) decides otherwise, and by inference only if no tour of the sub-problem does; a sub-problem is rejected by inference only if it has no tour; constraints are symmetric and agree with the list of mandatory edges.',
   ['inputs', 'histories'], 'every fixing and inference step of every search', TESTS + 'no test looks at constraints.', [BB],
   [('variable fixing', BB + ': variable_fixing'), ('inference', BB + ': infer_constraints')], MON, note=NOTE, observe=['entry and exit of variable_fixing and infer_constraints']),
 p('C08', 'The 1-tree of a sub-problem is the cheapest one that respects its constraints',
   'For every sub-problem and candidate node, with Prim as with Kruskal, the computed 1-tree spans the graph, contains every mandatory and no forbidden edge, records its own cost and has minimum cost among those; it is reported as missing exactly when there is none.',
   ['inputs', 'configurations', 'histories'], 'every constrained spanning tree computed in every search, weights modified by multipliers included',
   TESTS + 'constrained trees are not tested.', [BB, KR, M + 'algorithms/prim.c', M + 'data_structures/mst.c'],
   [('constrained Prim', BB + ': constrained_prim'), ('constrained Kruskal', BB + ': constrained_kruskal'), ('closing the 1-tree', BB + ': mst_to_one_tree')],
   'online monitor comparing every 1-tree with an independent constrained minimum spanning tree', note=NOTE, observe=['exit of the spanning tree functions']),
 p('C09', 'Sub-problems are explored best first, and predictions steer the order',
   'The next sub-problem explored is the head of the queue, and no sub-problem is queued in front of one that is clearly better (smaller bound beyond the tolerance, or in hybrid mode a smaller bound and a clearly higher probability); the child requiring the branching edge comes first in classic mode, and in hybrid mode iff the network gives the edge a probability of at least one half.',
   ['inputs', 'histories'], 'every insertion and extraction of every search', TESTS + 'orders are not observed.', [BB, M + 'problem_settings.h'],
   [('comparison', BB + ': compare_subproblems'), ('insertion', BB + ': branch')], MON, note=NOTE, observe=['open list around branch and bound']),
 p('C10', 'The search starts from the best greedy tour',
   'Before the first sub-problem the incumbent is a valid tour that from some start city always goes to the nearest unvisited city (in hybrid mode possibly to the most probable one), and it is the cheapest such tour over all start cities; its type tells which of the two it is.',
   ['inputs', 'configurations'], 'every complete instance', TESTS + 'the initial tour is never checked.', [BB],
   [('nearest neighbour', BB + ': nearest_prob_neighbour')], 'offline oracle on the report of the real program stopped by a virtual clock, and an online monitor', note=NOTE + 'Ties are accepted either way.',
   observe=['report of a run stopped before its first sub-problem']),
 p('C11', 'The candidate node gives the strongest initial 1-tree',
   'The candidate node is a city of the instance whose minimum 1-tree costs, up to the tolerance, as much as that of any other city.',
   ['inputs', 'configurations'], 'every complete instance', TESTS + 'the candidate node is never checked.', [BB],
   [('selection', BB + ': find_candidate_node')], 'offline oracle on the report of the real program stopped by a virtual clock, and an online monitor', note=NOTE,
   observe=['report of a run stopped before its first sub-problem']),
 p('C12', 'The statistics of a run are true',
   'The numbers of generated and explored sub-problems, the number of levels of the search tree and the number of fixed edges in the report are those of the search that took place.',
   ['inputs', 'histories'], 'every search', TESTS + 'counters are not compared with anything.', [BB],
   [('counters', BB + ': bound, branch, variable_fixing')], 'online monitor that counts the events of the search independently', note=NOTE, observe=['problem after branch_and_bound']),
 p('C13', 'The time limit stops the search cleanly',
   'Once ten minutes of processor time have passed no further sub-problem is explored, and the run is reported as interrupted with a valid tour that is at least as good as the initial one and never worse than what an earlier stop would have given; a run is reported as interrupted only if the limit was reached, and otherwise it is complete.',
   ['inputs', 'fault_sequences', 'histories'], 'every stopping point of every search', TESTS + 'no test runs for ten minutes, let alone stops at each point.', [BB, M + 'problem_settings.h'],
   [('time limit', BB + ': time_limit_reached, branch_and_bound')], 'fault injection: virtual clock that jumps at a chosen sub-problem or clock reading', note=NOTE, observe=['report of the solver', 'clock readings']),
 p('C14', 'Incomplete graphs: a tour is reported iff there is one',
   'On a graph with missing edges (weight 0 in the file) an uninterrupted run reports an optimal tour that uses existing edges only if the graph has a Hamiltonian cycle, and no cycle at all if it has none.',
   ['inputs', 'configurations'], 'every incomplete graph', TESTS + 'all tested instances are complete.', [BB, KR, M + 'tsp_instance_reader.c'],
   [('feasibility', BB + ': check_feasibility'), ('infeasible 1-trees', BB + ': mst_to_one_tree')], 'differential oracle (dynamic programming) over monitored and real runs', note=NOTE + 'At most 12 cities.',
   observe=['report of the solver']),
 p('C15', 'Prim and Kruskal return minimum spanning trees',
   'On every weighted graph both spanning tree algorithms return a cycle-free set of edges over the nodes of the graph, with their weights and probabilities, that spans each of its components at minimum cost; the result is marked valid iff the graph is connected, and its recorded cost and mean probability are those of its edges.',
   ['inputs', 'configurations'], 'every graph within the compiled size, connected or not, any weights, ties included',
   TESTS + 'trees are printed, never compared.', [KR, M + 'algorithms/prim.c', M + 'data_structures/mst.c', M + 'data_structures/mfset.c', M + 'data_structures/fibonacci_heap.c'],
   [('Kruskal', KR + ': kruskal'), ('Prim', M + 'algorithms/prim.c: prim'), ('bookkeeping', M + 'data_structures/mst.c: add_edge')],
   'differential oracle (independent spanning forest) on random graphs, under ASan and UBSan', note=NOTE, observe=['MST after prim and kruskal']),
 p('C16', 'The Fibonacci heap is a correct priority queue',
   'After any sequence of insertions, decreases of values and extractions, the extracted key is one of those in the heap with the minimum value, nothing is lost or returned twice, the node count is right and an empty heap answers -1; no sequence makes it touch memory outside its nodes.',
   ['inputs', 'histories'], 'every sequence of operations, any number of nodes, ties and extreme values included',
   TESTS + 'one short fixed sequence is printed.', [M + 'data_structures/fibonacci_heap.c'],
   [('consolidation', M + 'data_structures/fibonacci_heap.c: consolidate'), ('cuts', M + 'data_structures/fibonacci_heap.c: cut, cascading_cut')],
   'model-based monitor over random and adversarial operation sequences, under ASan and UBSan', note=NOTE, observe=['return value of extract_min, minimum of the heap']),
 p('C17', 'Disjoint sets follow the merges',
   'After any sequence of merges and finds, two nodes have the same root iff the merges connect them, and a root belongs to its own set; the forest built without the candidate node behaves in the same way on the other nodes.',
   ['inputs', 'histories'], 'every sequence of merges and finds, any size', TESTS + 'one forest is printed.', [M + 'data_structures/mfset.c'],
   [('union by rank', M + 'data_structures/mfset.c: merge'), ('path compression', M + 'data_structures/mfset.c: find')],
   'model-based monitor over random operation sequences, under ASan and UBSan', note=NOTE, observe=['return value of find']),
 p('C18', 'Lists and their iterators behave as sequences',
   'After any sequence of insertions, deletions and lookups by index or at the end, out-of-range indices included, the generic list and the list of sub-problems hold exactly the expected elements in order in both directions, report the right size, iterate over each once, and release everything when deleted; the list of sub-problems keeps its own copies.',
   ['inputs', 'histories'], 'every sequence of operations', TESTS + 'lists are exercised with a few appends.',
   [M + 'data_structures/doubly_linked_list/list_functions.c', M + 'data_structures/doubly_linked_list/list_iterator.c', M + 'data_structures/b_and_b_data.c'],
   [('links', M + 'data_structures/doubly_linked_list/list_functions.c'), ('list of sub-problems', M + 'data_structures/b_and_b_data.c')],
   'model-based monitor over random operation sequences, under ASan, LSan and UBSan', note=NOTE, observe=['contents of the lists after each operation']),
 p('C19', 'The csv reader loads exactly the instance in the file',
   'For every well-formed instance file (coordinates, then one row of (weight, probability) pairs per city) the graph read has those cities in order, one edge per positive weight above the diagonal with that weight, and in hybrid mode that probability (0 in classic mode), consistent neighbours and matrix, and the total cost; the file is not modified.',
   ['inputs', 'configurations'], 'every well-formed file of up to the compiled number of cities, any number notation and spacing', TESTS + 'the graph read is only printed.', [M + 'tsp_instance_reader.c'],
   [('reader', M + 'tsp_instance_reader.c: read_tsp_csv_file')], 'round-trip oracle over random files, under ASan and UBSan', note=NOTE, observe=['graph after reading']),
 p('C20', 'The TSPLIB reader builds the Euclidean graph of the file',
   'For every EUC_2D TSPLIB file the graph read has the listed cities in order, numbered from 0 whatever their identifiers, and one edge between every two of them weighted by their Euclidean distance in single precision.',
   ['inputs'], 'every EUC_2D file of up to the compiled number of cities, any header, number notation, identifiers and terminator', TESTS + 'the graph read is only printed.', [M + 'tsp_instance_reader.c', M + 'data_structures/graph.c'],
   [('reader', M + 'tsp_instance_reader.c: read_tsp_lib_file'), ('distances', M + 'data_structures/graph.c: create_euclidean_graph')], 'round-trip oracle over random files, under ASan and UBSan', note=NOTE, observe=['graph after reading']),
 p('C21', 'Bad input is refused with an error',
   'A missing or malformed instance (entries that are no pairs of numbers, rows of another length than the first line, no cities), an instance with more cities than the build can hold, a TSPLIB file that is not EUC_2D, an output that cannot be opened or written and a wrong number of arguments each end the program with a message and a failure status, without touching the instance or memory it does not own.',
   ['inputs', 'fault_sequences'], 'every such fault at every position', TESTS + 'only good files are read.', [M + 'tsp_instance_reader.c', M + 'main.c'],
   [('validation', M + 'tsp_instance_reader.c'), ('arguments and output', M + 'main.c')], 'fault enumeration on the real program, under ASan and UBSan', level='fault_enumeration', note=NOTE, observe=['exit status and messages']),
 p('C22', 'No out-of-bounds access and no undefined behaviour',
   'No run of the solver, on any instance (good or bad), in any build configuration (up to 400 cities with the usual stack of 8 MB), and no use of the library by its tests and printers, accesses memory outside its objects or after their end, or executes any operation with undefined behaviour.',
   ['inputs', 'configurations', 'fault_sequences'], 'every instance, well-formed or not, every stopping point, every compiled size, both modes and both spanning tree algorithms',
   TESTS + 'an out-of-bounds access usually goes unnoticed.', [BB, KR, M + 'data_structures', M + 'tsp_instance_reader.c'],
   [('fixed-size arrays', M + 'data_structures'), ('variable-length arrays and recursion', BB)],
   'AddressSanitizer and UndefinedBehaviorSanitizer (gcc and clang) over diverse, bad and interrupted runs of the real program', note=NOTE, observe=['sanitizer reports']),
 p('C23', 'No uninitialised read and no leak',
   'No run of the solver, on any instance (good or bad), in any build configuration, and no use of the library by its tests and printers, lets its behaviour depend on uninitialised memory, or ends with memory or files that it did not release.',
   ['inputs', 'configurations', 'fault_sequences'], 'every instance, well-formed or not, every stopping point, every compiled size, both modes and both spanning tree algorithms',
   TESTS + 'uninitialised reads and leaks go unnoticed.', [BB, KR, M + 'data_structures', M + 'tsp_instance_reader.c', M + 'main.c'],
   [('allocation', M + 'data_structures'), ('release', BB + ': branch_and_bound')],
   'MemorySanitizer, LeakSanitizer and Valgrind memcheck over diverse, bad and interrupted runs of the real program', note=NOTE, observe=['sanitizer and Valgrind reports']),
 p('C24', 'The pipeline solves the requested instances, and only those',
   'HybridSolver.py, for any range, size and mode and whatever earlier runs left behind, writes exactly the adjacency matrix and the report of each requested instance and changes nothing else: the matrix holds the cities of that instance with their distances, and the probabilities of the network for that size (0 in classic mode); the report is one solution of that matrix by a solver built for that size and mode, followed once by the list of cities in the order of the matrix and the time that instance took. It ends with an error past the end of the data set.',
   ['inputs', 'histories', 'configurations'], 'every sequence of runs in one tree, every range, size and mode, every data set', TESTS + 'the Python side has no test.', [M + 'HybridSolver.py', M + 'graph-convnet-tsp/main.py', 'src/HybridSolver/CMakeLists.txt'],
   [('pipeline', M + 'HybridSolver.py: hybrid_solver'), ('instance selection', M + 'HybridSolver.py: get_instance'), ('build', M + 'HybridSolver.py: build_c_program')],
   'offline oracle over the files written in random histories of real runs, with a snapshot of the tree before and after each', note=NOTE + 'The network is a stand-in (harness/stubs).', observe=['csv and report files', 'tree before and after']),
 p('C25', 'The network sees the instance, and its predictions reach the matrix unchanged',
   'For every instance of 2 or more cities, all different, the network for 20, 50 or 100 cities, with its trained weights, receives the cities with their distances and their nearest neighbours (copies of cities fill up a smaller instance, a larger one is represented by a choice of its cities), and each edge of the matrix written carries its distance and the probability predicted for it (the largest over the copies of the second city; 0 when a city was not given to the network).',
   ['inputs'], 'every instance, every prediction of the network', TESTS + 'the Python side has no test.', [M + 'graph-convnet-tsp/main.py', M + 'graph-convnet-tsp/utils/google_tsp_reader.py'],
   [('sizes', M + 'graph-convnet-tsp/main.py: add_dummy_cities, fix_instance_size'), ('matrix', M + 'graph-convnet-tsp/main.py: write_adjacency_matrix'), ('reader', M + 'graph-convnet-tsp/utils/google_tsp_reader.py: process_batch')],
   'recording stand-in for the network and an oracle over its inputs and over the file written', note=NOTE + 'The network, PyTorch and k-medoids are stand-ins (harness/stubs).', observe=['tensors given to the network', 'csv file']),
 p('C28', 'Graphs are built exactly from their nodes and edges',
   'A graph created from lists of nodes and edges holds those nodes and edges, numbered in order, with symmetric adjacency, each neighbour once and the sum of the weights as its cost; the Euclidean construction links every two nodes once, weighted by their distance; both release the lists they consume.',
   ['inputs'], 'every list of nodes and edges within the compiled size', TESTS + 'graphs are printed.', [M + 'data_structures/graph.c'],
   [('construction', M + 'data_structures/graph.c: create_graph, create_euclidean_graph')], 'model-based monitor over random lists, under ASan, LSan and UBSan', note=NOTE, observe=['graph after construction']),
 p('C29', 'Sorting the edges keeps the graph intact',
   'Sorting the edges of any graph yields the same edges in order of weight (in hybrid mode, for equal weights, of decreasing probability), with every position recorded in the edges and in the matrix up to date.',
   ['inputs', 'configurations'], 'every graph within the compiled size, ties, sorted and reversed orders included', TESTS + 'the order is printed.', [KR],
   [('quicksort', KR + ': quick_sort, pivot_quicksort, swap')], 'oracle over random graphs, under ASan and UBSan', note=NOTE, observe=['graph after wrap_quick_sort']),
 p('C26', 'The summaries, tables and profiles state what the reports contain',
   'For every set of reports of the two modes, analyzer.py writes, per number of cities, the share of resolved instances and of each way they were closed, the mean and 95% confidence interval of each measure over the instances that both modes resolved, with the p-value of the Wilcoxon test, and the instances not resolved; the LaTeX tables hold those figures, the better mode in bold and underlined when the difference is significant (p < 0.05); at each time the profiles give the share of instances on which each mode has the better tour so far, and has finished.',
   ['inputs'], 'every set of reports with at least six instances resolved by both modes', TESTS + 'the Python side has no test.', [RES + 'analyzer.py'],
   [('figures', RES + 'analyzer.py: analyze'), ('tables', RES + 'analyzer.py: save_latex_table'), ('profiles', RES + 'analyzer.py: instance_performance_profile')],
   'offline oracle over the files written by real runs on generated reports', note=NOTE + 'pandas and matplotlib are stand-ins.', observe=['mean_results.txt, tables and csv of the profiles']),
 p('C27', 'The converter writes every TSPLIB instance as the same costs for CPLEX',
   'converter_tsp_to_dat.py writes, for every .tsp file of its folder and nothing else, a .dat file with the number of cities and the full symmetric matrix of the costs of that instance: Euclidean distances in Euclidean mode, the given weights otherwise.',
   ['inputs'], 'every folder of Euclidean or explicit TSPLIB instances', TESTS + 'the Python side has no test.', [CONV], [('Euclidean', CONV + ': nodes_to_cost_matrix'), ('explicit', CONV + ': tsp_to_dat')],
   'round-trip oracle over the files written by real runs', note=NOTE + 'tsplib95 is a stand-in.', observe=['.dat files']),
 p('C30', 'The data set reader and the split of a data set keep every instance intact',
   'Reading a data set in batches gives each instance at most once per pass (exactly once when the batches divide the set) with its cities, distances, nearest neighbours, tour, edges and length of the tour as in the file, whatever the order; the helpers on tours agree on the length of every tour, accept only tours and find the rank of the farthest neighbour on a tour; the split into validation and training set is a partition of the lines of the file at the size asked for.',
   ['inputs', 'histories'], 'every data set, batch size and number of neighbours, every pass', TESTS + 'the Python side has no test.',
   [GN + 'utils/google_tsp_reader.py', GN + 'utils/graph_utils.py', GN + 'data/split_train_val.py'],
   [('reader', GN + 'utils/google_tsp_reader.py: process_batch'), ('tours', GN + 'utils/graph_utils.py'), ('split', GN + 'data/split_train_val.py')],
   'round-trip oracle over random data sets', note=NOTE + 'PyTorch is a stand-in.', observe=['batches', 'files of the split']),
 p('C31', 'Beam search returns tours, the best ones of its beam',
   'For every prediction and beam width, beam search returns a tour of all the cities from the first one, for each instance of the batch, at least as probable as that of a plain beam search (the most probable of all when the beam holds them all); the variant that minimises length returns the shortest tour of the beam.',
   ['inputs'], 'every prediction, number of cities, batch and beam width', TESTS + 'the Python side has no test.', [GN + 'utils/beamsearch.py', GN + 'utils/model_utils.py'],
   [('search', GN + 'utils/beamsearch.py: Beamsearch'), ('variants', GN + 'utils/model_utils.py: beamsearch_tour_nodes, beamsearch_tour_nodes_shortest')],
   'differential oracle: a plain beam search and all tours', note=NOTE + 'Up to 7 cities; PyTorch is a stand-in.', observe=['tours returned']),
 p('C32', 'The network computes the documented equations and ignores the numbering',
   'For every instance and every set of weights the predictions are those of the residual gated graph convolution of the paper (both aggregations, batch normalisation, edge classifier), the loss is the weighted negative log-likelihood of the tour, and renumbering the cities only renumbers the predictions.',
   ['inputs'], 'every instance, batch, configuration of the network and weights', TESTS + 'the Python side has no test.', [GN + 'models/gcn_layers.py', GN + 'models/gcn_model.py', GN + 'utils/model_utils.py'],
   [('layers', GN + 'models/gcn_layers.py'), ('network', GN + 'models/gcn_model.py: ResidualGatedGCNModel'), ('loss', GN + 'utils/model_utils.py: loss_edges')],
   'differential oracle (the equations in double precision) and metamorphic relation', note=NOTE + 'Random weights; PyTorch is a stand-in.', observe=['predictions and loss']),
 p('C33', 'The CPLEX model has exactly the tours as solutions and the shortest as optima',
   'For every matrix of costs, the arcs of every directed Hamiltonian cycle, and no other set of arcs between different cities, extend to a solution of the model; its objective is the cost of those arcs, so its optimum is an optimal tour, also of the data written by the converter; the script that follows prints the arcs of the solution with their costs.',
   ['inputs'], 'every number of cities and every matrix of costs', 'No test runs the model.', ['src/CplexSolver/TSPmtz.mod'],
   [('degree and order constraints', 'src/CplexSolver/TSPmtz.mod: subject to'), ('output', 'src/CplexSolver/TSPmtz.mod: POSTPROCESS')],
   'differential oracle (Held-Karp, enumeration) over runs of the model in an OPL interpreter and a MILP solver', note=NOTE + 'Up to 12 cities; OPL and CPLEX are replaced.', observe=['solutions of the model', 'printed arcs']),
 p('C34', 'Data sets made with Concorde and evaluation figures state what was computed',
   'The generator writes as many instances of as many cities as asked for, each once, with the tour the solver returned for it, in the format the reader reads back; solving a data set reports, for each instance in order, the tour, time, nodes and the length of that tour, and prints their means; the evaluation figures of predictions (errors on all, tour and predicted edges, losses) equal their definition.',
   ['inputs'], 'every size of data set and instance, every prediction', TESTS + 'the Python side has no test.', [GN + 'data/generate_tsp_concorde.py', GN + 'data/pyconcorde_solver.py', GN + 'utils/model_utils.py'],
   [('generator', GN + 'data/generate_tsp_concorde.py'), ('solver', GN + 'data/pyconcorde_solver.py'), ('figures', GN + 'utils/model_utils.py: edge_error, loss_nodes')],
   'recording stand-in for the solver and an oracle over the files and figures', note=NOTE + 'PyTorch, pandas and pyconcorde are stand-ins.', observe=['files written', 'figures returned']),
 p('C35', 'A failed step of the pipeline is reported, and the next run recovers',
   'When the build, the network or the solver fails at any instance, or HybridSolver.py is killed at any of its steps, the failure shows in the exit status or in a message naming the instance, no solution is reported for that instance, the instances handled before it (and after it, where the run goes on) are as without the failure and no other file changes; the next run in the same tree gives every requested instance its complete matrix and report.',
   ['fault_sequences', 'histories'], 'every step, instance and way of failing, and every point at which the script is stopped', 'No test runs the pipeline, let alone with faults.', [M + 'HybridSolver.py', M + 'main.c', M + 'graph-convnet-tsp/main.py'],
   [('steps of an instance', M + 'HybridSolver.py: hybrid_solver'), ('build', M + 'HybridSolver.py: build_c_program')],
   'fault injection (failing or killed build, network, solver and script) with an oracle over the exit status and every file', note=NOTE + 'PyTorch is a stand-in.', observe=['exit status and output', 'files of the tree before and after']),
 p('C36', 'The record of improvements and the description of the best solution are true',
   'Each line "Updated best value: v, at time: t" of a report is written when, and only when, the search replaces the best tour: v is the value of the new one, below every value before it (and below the initial greedy tour), and t the processor time since the start of the search. The solution reported at the end is the last one announced, or the initial greedy tour (sub-problem 0 of level 0) if there is none; its type, level and BBNode number are those of the sub-problem in which it was found (numbers are given once each, in order of generation, and a sub-problem is one level below its father), its time to obtain is the time at which that sub-problem was taken up, and the elapsed time is that of the whole search.',
   ['inputs', 'histories'], 'every instance, both modes, every clock', TESTS + 'No test reads an announcement, a time, a level or a number.', [BB, M + 'data_structures/b_and_b_data.h'],
   [('announcement', BB + ': bound'), ('time and number of a sub-problem', BB + ': bound, branch'), ('report', BB + ': print_problem, print_subProblem')],
   'online monitor over the standard output and the state of the search, under a virtual clock; offline checker over complete reports', note='The clock is replaced by a virtual one; a build of the same sources.', observe=['announcements', 'number, level, father and time of every explored sub-problem', 'report']),
 p('C37', 'The dual ascent and the pruning work as documented',
   'A 1-tree is computed for a sub-problem iff its bound is below the incumbent by more than the tolerance (always at the root); the k-th 1-tree of the ascent is computed for the weights w(i,j) + p(i) + p(j), where the multipliers p follow the rule of the solver: after each 1-tree, a city of degree d other than two has 0.6 t (d - 2) + 0.4 t (d_before - 2) added, with the step t of Volgenant and Jonker for the best Lagrangian bound so far. The ascent ends when a 1-tree is a better tour, when there is none, when the first one cannot improve, or after the documented number of 1-trees; it then keeps as bound the largest cost, in the weights of the instance, of a 1-tree it met that is not above the best Lagrangian bound (and, in hybrid mode, the mean probability of the first 1-tree), leaves the sub-problem open iff that is below the incumbent by more than the tolerance, and branches on a free edge of that 1-tree whose share in the last ten 1-trees is nearest to a half (the most probable of those in hybrid mode).',
   ['inputs'], 'every sub-problem of every search', TESTS + 'No test looks at a bound.', [BB, M + 'problem_settings.h'],
   [('ascent', BB + ': bound'), ('constants', M + 'problem_settings.h: NUM_HK_INITIAL_ITERATIONS, NUM_HK_ITERATIONS, EPSILON')],
   'online monitor that recomputes the ascent from the observed 1-trees', note='Functions are observed by symbol interposition in a shared build of the same sources.', observe=['weights given to every 1-tree', 'every 1-tree', 'value, type and branching edge of every bounded sub-problem']),
 p('C38', 'No deduction is missed: costs and degrees settle every edge they can',
   'Before a sub-problem is branched, each of its free edges whose marginal cost closes the gap is forbidden and each whose replacement cost closes it is mandatory: every 1-tree (within the constraints) that has the edge, or every one that lacks it, costs at least as much as the incumbent. (At the candidate node the marginal cost is taken against the larger of the two edges there.) A child that leaves a city more than two mandatory edges, or fewer than two possible ones, is not queued; in a queued child a city that had two mandatory edges keeps no free edge, and one that had only two possible edges has them both mandatory.',
   ['inputs'], 'every sub-problem that is branched and every child', TESTS + 'No test looks at a fixed edge.', [BB],
   [('marginal and replacement costs', BB + ': variable_fixing, max_edge_path_1Tree'), ('degrees', BB + ': infer_constraints')],
   'online monitor with an independent constrained 1-tree for every free edge', note='Functions are observed by symbol interposition in a shared build of the same sources; cases within rounding of the incumbent are not judged.', observe=['constraints before and after fixing and inference', 'children queued']),
 p('C39', 'The plots of a batch show the tours and predictions they name',
   'plot_predictions and plot_predictions_beamsearch make the requested number of figures, of different instances of the batch. In each, all plots are of one instance: its cities at their places, the first standing out; the ground truth and beam search plots draw the edges of the input graph and, in red, exactly the edges of the right tour or of the beam search tour, with the length of that tour in the title; the heat map draws exactly the pairs with a predicted probability above 1/4, each with its own probability.',
   ['inputs'], 'every batch, prediction, beam search tour and number of plots', TESTS + 'the Python side has no test.', [GN + 'utils/plot_utils.py', GN + 'utils/graph_utils.py'],
   [('figures', GN + 'utils/plot_utils.py: plot_predictions, plot_predictions_beamsearch'), ('one plot', GN + 'utils/plot_utils.py: plot_tsp, plot_tsp_heatmap')],
   'recording stand-ins for the drawing functions and an oracle over what is drawn', note=NOTE + 'PyTorch, matplotlib and the drawing functions of networkx are stand-ins.', observe=['cities, edges, colours and titles drawn']),
 p('C40', 'The settings of a network are the defaults with its own on top',
   'get_config gives every setting in the file of the network the value it has there, whatever that is (zero, false and nothing included), and every other one its default; a setting reads the same as an attribute and as an item, may be set, deleted and added either way, and one that does not exist is an error; changing the settings of one network changes neither the defaults nor what is read afterwards.',
   ['inputs', 'histories'], 'every settings file and sequence of changes', TESTS + 'the Python side has no test.', [GN + 'config.py', GN + 'configs/default.json'],
   [('settings', GN + 'config.py: Settings'), ('defaults', GN + 'config.py: get_default_config, get_config')],
   'model-based oracle over random settings files and changes', note=NOTE, observe=['settings after every reading and change']),
]

NA = [
 dict(property=p_na('N01', 'The trained networks predict useful probabilities',
   'On random uniform instances the probabilities of the trained networks shrink the search of the hybrid solver compared with the classic one.', ['inputs'], 'the distribution of instances the networks were trained for',
   'No test runs the networks.', [GN + 'models/gcn_model.py'], [('network', GN + 'models/gcn_model.py')]),
   reason='PyTorch, the GPU and the trained weights are not available here, so the predictions cannot be observed; a statistical claim about training also has no violating execution.'),
]


def main():
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for q in P:
            a = {'files': q['files'], 'mechanism': [{'name': n, 'where': w} for n, w in q['mech']]}
            if q['state']:
                a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in q['state']]
            a['observe_at'] = list(q['observe'])
            a['hook_needed'] = q['hook']
            f.write(json.dumps({'id': q['id'], 'title': q['title'], 'statement': q['statement'], 'quantifier': {'over': q['over'], 'text': q['text']},
                                'why_tests_cant': q['why'], 'anchors': a}) + '\n')
        for q in NA:
            f.write(json.dumps(q['property']) + '\n')
    man = {'version': 1, 'setup_cmd': 'python3 run.py --setup',
           'checks': [], 'not_applicable': [{'property': q['property']['id'], 'reason': q['reason']} for q in NA],
           'notes': 'run.py <id> runs one check; VERIF_TIER and VERIF_SEED select depth and randomness. known_findings.txt lists findings and repairs.'}
    for q in P:
        assert len(q['title']) <= 80, q['title']
        man['checks'].append({'property': q['id'], 'quick_cmd': 'python3 run.py ' + q['id'], 'thorough_cmd': 'VERIF_TIER=thorough python3 run.py ' + q['id'],
                              'evidence_file': 'evidence/%s.json' % q['id'], 'technique': q['technique'], 'level': q['level'], 'level_note': q['note'].strip()})
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
