import runpy
B1 = runpy.run_path('/verif/tools/seeds/solver_bugs.py')
BB, PRE, COMPLETE = B1['BB'], B1['PRE'], B1['COMPLETE']
ASAN = "flags=['-g', '-fsanitize=address,undefined', '-fno-sanitize-recover=all']"

BUGS = [
 dict(id='total_pi_active_only', property='C05', needs='a node whose degree in the 1-tree is two while its multiplier is not zero',
      breaks='the sum of the multipliers leaves out the nodes of degree two, so the bound subtracts too little and sub-problems with better tours are closed',
      edits=[(BB, '''                            pi[j] += (double) ((0.6 * t * v[j]) + (0.4 * t * v_old[j]));
                        }
                        v_old[j] = v[j];
                        total_pi += pi[j];
''', '''                            pi[j] += (double) ((0.6 * t * v[j]) + (0.4 * t * v_old[j]));
                            total_pi += pi[j];
                        }
                        v_old[j] = v[j];
''')],
      files={'bound.c': '''
// the sub-problems left open by the first bound must not be worth more than the best tour
#include "algorithms/branch_and_bound.h"
#include "tsp_instance_reader.h"
static Problem pr;
static SubProblem sp;
int main(int c, char **a) {
    double best = atof(a[2]);
    read_tsp_csv_file(&pr.graph, a[1]);
    set_problem(&pr);
    pr.bestValue = pr.bestSolution.value = 1e9;
    pr.candidateNodeId = find_candidate_node();
    pr.bestValue = pr.bestSolution.value = 1e9;
    pr.reformulationGraph = pr.graph;
    initialize_matrix(&sp);
    sp.treeLevel = 1; sp.edge_to_branch = -1; sp.value = 1e9; sp.type = OPEN;
    bound(&sp);
    if (sp.type == OPEN && sp.value > best + 1e-6) { fprintf(stderr, "bound %f, a tour costs %f\\n", sp.value, best); return 1; }
    return 0;
}
'''},
      demo=COMPLETE + '''
for n in (7, 9):
    exe = build(n, 0, harness='bound.c')
    for make in (points, clusters, uniform):
        for k in range(150):
            R = random.Random(n * 1000 + k)
            P, W, Q = make(R, n)
            r = subprocess.run([exe, write(P, W), repr(optimum(W))], capture_output=True, text=True)
            if r.returncode:
                fail(r.stderr)
for n in (8, 10):
    for make in (points, clusters, uniform):
        check(n, 0, False, make, 60)
'''),
 dict(id='zero_probability_skipped', property='C02', needs='a hybrid run whose tour has edges of probability zero',
      breaks='edges of probability zero do not lower the mean probability of a tour',
      edits=[('data_structures/mst.c', '    if(HYBRID){\n', '    if(HYBRID && edge->prob > 0){\n')],
      demo=COMPLETE + '''
def zeros(R, n):
    P, W, Q = points(R, n)
    return P, W, symmetric(n, lambda: R.choice([0., 0., .3, 1.]))
check(8, 1, False, zeros, 40)
'''),
 dict(id='certain_edge_required', property='C03', needs='an edge of the instance that the network gives probability one and that is in no optimal tour',
      breaks='an edge predicted with certainty is never branched away: the child that forbids it is not generated',
      edits=[(BB, '    for (short i = 0; i < 2; i++) {\n        problem->generatedBBNodes++;', '    short num_children = HYBRID && prob_edge >= 1 ? 1 : 2;\n    for (short i = 0; i < num_children; i++) {\n        problem->generatedBBNodes++;')],
      demo=COMPLETE + '''
def certain(R, n):
    P, W, Q = points(R, n)
    return P, W, symmetric(n, lambda: R.choice([0., 1.]))
for n in (8, 10):
    check(n, 1, False, certain, 150)
'''),
 dict(id='classic_reads_predictions', property='C04', needs='a classic run on a matrix with predictions, with two branching edges of the same score',
      breaks='the reader keeps the probabilities in the classic build too, and the choice of the branching edge uses them to break ties: the classic solver depends on the predictions',
      edits=[('tsp_instance_reader.c', 'graph->edges[z].prob = HYBRID ? prob : 0;', 'graph->edges[z].prob = prob;'),
             (BB, '(HYBRID && (fabs(prob_branch[i] - 0.5) == fabs(best_prob_branch - 0.5))', '((fabs(prob_branch[i] - 0.5) == fabs(best_prob_branch - 0.5))')],
      demo=COMPLETE + '''
n = 12
exe = build(n, 0)
for k in range(40):
    R = random.Random(k)
    P, W, Q = points(R, n)
    a, b = solve(exe, write(P, W)), solve(exe, write(P, W, Q))
    x, y = ([r[k] for k in ('cost', 'edges', 'generated', 'explored', 'fixed')] for r in (a, b))
    if x != y:
        fail('the predictions change a classic run: %s %s' % (x, y))
'''),
 dict(id='rejected_child_ends_branching', property='C06', needs='a sub-problem whose first child is rejected by inference',
      breaks='when the first child has no tour the second one is not generated',
      edits=[(BB, '''        if(feasible && infer_constraints(&child)){
            long position = -1;
''', '''        if (!feasible || !infer_constraints(&child)) {
            break;
        } else {
            long position = -1;
''')],
      demo=COMPLETE + '''
for n in (6, 7, 8, 10):
    for make in (points, clusters, uniform):
        for h in (0, 1):
            check(n, h, False, make, 150)
def sparse(R, n):
    P = [(R.random(), R.random()) for _ in range(n)]
    return P, symmetric(n, lambda: R.choice([1., 1., 2., 90.])), symmetric(n, R.random)
for n in (8, 10):
    for h in (0, 1):
        check(n, h, False, sparse, 200)
'''),
 dict(id='greedy_from_better_candidates', property='C10', needs='an instance where the best greedy tour starts from a city that is not a better candidate node than those before it',
      breaks='the greedy tour is only built from the cities that improve the candidate node',
      edits=[(BB, '        nearest_prob_neighbour(i);\n\n', ''), (BB, '            best_candidate = i;\n', '            best_candidate = i;\n            nearest_prob_neighbour(i);\n')],
      files={'late.c': '''
#include <time.h>
clock_t clock(void) { static long k; return k++ ? 700L * CLOCKS_PER_SEC : 0; }
'''},
      demo=PRE + '''
n = 9
exe = build(n, 0, flags=[os.path.join(HERE, 'late.c')])       # the time is up before the first sub-problem: the greedy tour is reported
for k in range(40):
    R = random.Random(k)
    P = [(R.random(), R.random()) for _ in range(n)]
    W = dist(P)
    best = math.inf
    for s in range(n):
        t, c = [s], 0.
        while len(t) < n:
            j = min((j for j in range(n) if j not in t), key=lambda j: W[t[-1]][j])
            c += W[t[-1]][j]
            t.append(j)
        best = min(best, c + W[t[-1]][s])
    r = solve(exe, write(P, W))
    if abs(r['cost'] - best) > 1e-5:
        fail('the search starts from a tour of %r, the best greedy tour costs %r' % (r['cost'], best))
'''),
 dict(id='likely_tour_over_missing_edge', property='C14', needs='a hybrid run on an incomplete graph where the most probable path cannot be closed and costs little',
      breaks='the most probable tour is accepted although the edge that closes it is missing from the graph',
      edits=[(BB, '''                if (!is_neighbour(&problem->graph.nodes[current_node], start_node)) {
                    is_tour = false;
                    break;
                }
                add_edge(&prob_nn_subProblem''', '''                add_edge(&prob_nn_subProblem''')],
      demo=COMPLETE + '''
n = 7
exe = build(n, 1)
for k in range(150):
    R = random.Random(k)
    P, W, Q = points(R, n)
    for i in range(n):
        for j in range(i):
            if R.random() < .45 and (i - j) % n not in (1, n - 1):
                W[i][j] = W[j][i] = 0.
    r = solve(exe, write(P, W, Q))
    if not is_tour(r['edges'], n) or any(W[a][b] == 0 for a, b in r['edges']):
        fail('a tour over missing edges: %s' % r['edges'])
'''),
 dict(id='prim_valid_when_split', property='C15', needs='a graph that is not connected',
      breaks='a forest of a graph in two parts is marked as a spanning tree',
      edits=[('algorithms/prim.c', '    if(mst->num_edges == graph->num_nodes - 1){\n        mst->isValid = true;\n    }\n    else{\n        mst->isValid = false;\n    }\n', '    mst->isValid = heap.num_nodes == 0;\n')],
      files={'split.c': '''
#include "algorithms/prim.h"
static Graph g; static MST t;
int main(void) {
    Node n[4]; Edge e[2] = {{0}};
    List *nl = new_list(), *el = new_list();
    for (int i = 0; i < 4; i++) { n[i].positionInGraph = i; n[i].x = i; n[i].y = 0; n[i].num_neighbours = 0; add_elem_list_bottom(nl, &n[i]); }
    for (int i = 0; i < 2; i++) { e[i].src = 2 * i; e[i].dest = 2 * i + 1; e[i].weight = 1; add_elem_list_bottom(el, &e[i]); }
    create_graph(&g, nl, el, WEIGHTED_GRAPH);
    prim(&g, &t);
    if (t.isValid || t.num_edges != 2) { printf("FAIL: %d edges, valid: %d\\n", t.num_edges, t.isValid); return 1; }
    return 0;
}
'''},
      demo=PRE + '''
sys.exit(0 if subprocess.run([build(8, 0, harness='split.c')], timeout=60).returncode == 0 else 1)
'''),
 dict(id='graph_cost_kept', property='C28', needs='a graph object that is built again',
      breaks='the cost of the earlier graph is added to that of the new one',
      edits=[('data_structures/graph.c', '    graph->orderedEdges = false;\n    graph->cost = 0;\n', '    graph->orderedEdges = false;\n')],
      files={'twice.c': '''
#include "data_structures/graph.h"
static Graph g;
int main(void) {
    for (int k = 0; k < 2; k++) {
        Node n[3]; List *nl = new_list();
        for (int i = 0; i < 3; i++) { n[i].positionInGraph = i; n[i].x = i; n[i].y = 0; n[i].num_neighbours = 0; add_elem_list_bottom(nl, &n[i]); }
        create_euclidean_graph(&g, nl);
        if (fabs(g.cost - 4) > 1e-6) { printf("FAIL: cost %f of the edges 1, 1, 2\\n", g.cost); return 1; }
    }
    return 0;
}
'''},
      demo=PRE + '''
sys.exit(0 if subprocess.run([build(5, 0, harness='twice.c')], timeout=60).returncode == 0 else 1)
'''),
 dict(id='constrained_forest_mixed', property='C08', needs='Kruskal, and mandatory edges that form a cycle without the candidate node',
      breaks='mandatory edges that close a cycle are added to the 1-tree, which is then reported as valid though it does not span the graph',
      edits=[(BB, '''            if (set1_root->num_in_forest != set2_root->num_in_forest) {
                merge(set1_root, set2_root);
                // add the edge to the MST
                add_edge(&subProblem->oneTree, &mandatory_edge);
                num_edges_inMST++;
            }
''', '''            if (set1_root->num_in_forest != set2_root->num_in_forest) {
                merge(set1_root, set2_root);
            }
            // add the edge to the MST
            add_edge(&subProblem->oneTree, &mandatory_edge);
            num_edges_inMST++;
''')],
      files={'cycle.c': '''
#include "algorithms/branch_and_bound.h"
static Problem pr; static SubProblem sp;
int main(void) {
    Node n[7]; List *nl = new_list();
    for (int i = 0; i < 7; i++) { n[i].positionInGraph = i; n[i].x = i; n[i].y = i * i; n[i].num_neighbours = 0; add_elem_list_bottom(nl, &n[i]); }
    create_euclidean_graph(&pr.graph, nl);
    set_problem(&pr);
    initialize_matrix(&sp);
    int c[3][2] = {{1, 2}, {2, 3}, {1, 3}};
    for (int j = 0; j < 3; j++) { int a = c[j][0], b = c[j][1]; sp.constraints[a][b] = sp.constraints[b][a] = MANDATORY; sp.mandatoryEdges[sp.num_mandatory_edges].src = a; sp.mandatoryEdges[sp.num_mandatory_edges++].dest = b; }
    constrained_kruskal(&pr.graph, &sp, 0);
    // a tree on 1..6: every node reached
    int seen[7] = {0}, more = 1; seen[1] = 1;
    while (more) { more = 0; for (int i = 0; i < sp.oneTree.num_edges; i++) { Edge e = sp.oneTree.edges[i]; if (seen[e.src] != seen[e.dest]) { seen[e.src] = seen[e.dest] = more = 1; } } }
    for (int i = 1; i < 7; i++) if (sp.oneTree.isValid && !seen[i]) { printf("FAIL: node %d is not reached by a valid tree\\n", i); return 1; }
    return 0;
}
'''},
      demo=PRE + '''
sys.exit(0 if subprocess.run([build(7, 0, True, harness='cycle.c')], timeout=60).returncode == 0 else 1)
'''),
]
