import runpy
B1 = runpy.run_path('/verif/tools/seeds/solver_bugs.py')
BB, COMPLETE = B1['BB'], B1['COMPLETE']
DUAL = {'dual.c': r'''
// Watches bound(): recomputes the multipliers from the 1-trees and compares the weights given to the next one, the number
// of 1-trees, and the edge chosen.  Linked against the solver as a shared library.
#define _GNU_SOURCE
#include <dlfcn.h>
#include "algorithms/branch_and_bound.h"
#include "tsp_instance_reader.h"
#define N MAX_VERTEX_NUM
static Problem P; static double W[N][N], pi[N], old[N], lb, t0; static int n, k, on, f[4000][N][N], deg0;
static void die(const char *s) { printf("FAIL: %s\n", s); fflush(stdout); _Exit(1); }
static int iters(int level) { return (level == 1 ? (int) ((float) N * N / 50 + .5f + N + 15) : (int) ((float) N / 4 + 5)) + 10; }
static int level;
void constrained_prim(Graph *g, SubProblem *s, unsigned short x) {
    static void (*real)(Graph *, SubProblem *, unsigned short); if (!real) real = (void (*)(Graph *, SubProblem *, unsigned short)) dlsym(RTLD_NEXT, "constrained_prim");
    if (on) { k++; for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) if (fabs(g->edges_matrix[i][j].weight - (W[i][j] + pi[i] + pi[j])) > 1e-6 * (1 + W[i][j])) die("the weights are not those of the multipliers"); }
    real(g, s, x);
}
BBNodeType mst_to_one_tree(SubProblem *s, Graph *g) {
    static BBNodeType (*real)(SubProblem *, Graph *); if (!real) real = (BBNodeType (*)(SubProblem *, Graph *)) dlsym(RTLD_NEXT, "mst_to_one_tree");
    BBNodeType r = real(s, g);
    if (!on || r != OPEN) return r;
    int deg[N] = {0}; double sum = 0, M = iters(level), t; memset(f[k], 0, sizeof f[k]);
    for (int e = 0; e < s->oneTree.num_edges; e++) { int a = s->oneTree.edges[e].src, b = s->oneTree.edges[e].dest; deg[a]++; deg[b]++; f[k][a][b] = f[k][b][a] = 1; }
    for (int i = 0; i < n; i++) sum += pi[i];
    if (k == 1 || s->oneTree.cost - 2 * sum > lb) { lb = s->oneTree.cost - 2 * sum; t0 = lb / (2 * N); }
    t = (k - 1.) * ((2 * M - 5) / (2 * (M - 1))) * t0 - (k - 2.) * t0 + t0 * (k - 1.) * (k - 2.) / (2 * (M - 1) * (M - 2));
    for (int i = 0; i < n; i++) { if (deg[i] != 2) pi[i] += .6 * t * (deg[i] - 2) + .4 * t * old[i]; old[i] = deg[i] - 2; }
    return r;
}
void bound(SubProblem *s) {
    static void (*real)(SubProblem *); if (!real) real = (void (*)(SubProblem *)) dlsym(RTLD_NEXT, "bound");
    SubProblem in = *s; k = 0; level = s->treeLevel; memset(pi, 0, sizeof pi); memset(old, 0, sizeof old); on = 1; real(s); on = 0;
    if (s->type != OPEN || s->edge_to_branch < 0) return;
    if (k != iters(level)) die("number of 1-trees");
    int c[N][N]; memset(c, 0, sizeof c); for (int q = k - 9; q <= k; q++) for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) c[i][j] += f[q][i][j];
    Edge *e = &P.graph.edges[s->edge_to_branch]; int best = abs(c[e->src][e->dest] - 5), ok = 0;
    for (int q = 1; q <= k && !ok; q++) { double cost = 0; int better = 0; for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) if (f[q][i][j]) { cost += W[i][j]; if (in.constraints[i][j] == NOTHING && abs(c[i][j] - 5) < best) better = 1; }
        if (fabs(cost - s->value) < 1e-6 * (1 + cost) && f[q][e->src][e->dest] && !better) ok = 1; }
    if (!ok) die("the edge to branch");
}
int main(int c, char **a) {
    for (int z = 1; z < c; z++) {
        memset(&P, 0, sizeof P); read_tsp_csv_file(&P.graph, a[z]); n = P.graph.num_nodes; memset(W, 0, sizeof W);
        for (int e = 0; e < P.graph.num_edges; e++) W[P.graph.edges[e].src][P.graph.edges[e].dest] = W[P.graph.edges[e].dest][P.graph.edges[e].src] = P.graph.edges[e].weight;
        branch_and_bound(&P);
    }
    return 0;
}
'''}
DEMO = COMPLETE + '''
def watched(n, hybrid):
    so, exe = os.path.join(D, 'lib%d_%d.so' % (n, hybrid)), os.path.join(D, 'dual%d_%d' % (n, hybrid))
    base = ['gcc', '-std=gnu99', '-O1', '-w', '-DMAX_VERTEX_NUM=%d' % n, '-DHYBRID=%d' % hybrid, '-I' + os.path.join(SRC, 'main')]
    subprocess.run(base + ['-shared', '-fPIC', '-fno-inline', '-fsemantic-interposition'] + sources(SRC, False) + ['-lm', '-o', so], check=True)
    subprocess.run(base + ['-rdynamic', os.path.join(HERE, 'dual.c'), so, '-ldl', '-lm', '-Wl,-rpath,' + D, '-o', exe], check=True)
    return exe


for h in (0, 1):
    for n in (7, 9, 12):
        exe = watched(n, h)
        files = []
        for make in (points, clusters, uniform):
            for k in range({7: 40, 9: 12, 12: 2}[n]):
                P, W, Q = make(random.Random(1000 * n + k), n)
                files.append(write(P, W, Q, name='%s_%d.csv' % (make.__name__, k)))
        r = subprocess.run([exe] + files, capture_output=True, text=True)
        if r.returncode:
            fail('%d cities, %s: %s' % (n, h, r.stdout[-200:] + r.stderr[-200:]))
'''

BUGS = [
 dict(id='momentum_of_active_nodes', property='C37', needs='a node that has degree two in one 1-tree of the ascent and another degree in the next',
      breaks='a node of degree two keeps its previous deviation, so the next step pulls it back with a stale momentum and the bounds are weaker',
      files=DUAL, demo=DEMO, edits=[(BB, '''                            pi[j] += (double) ((0.6 * t * v[j]) + (0.4 * t * v_old[j]));
                        }
                        v_old[j] = v[j];
''', '''                            pi[j] += (double) ((0.6 * t * v[j]) + (0.4 * t * v_old[j]));
                            v_old[j] = v[j];
                        }
''')]),
 dict(id='frequency_window', property='C37', needs='a branching decision that depends on the eleventh of the last 1-trees',
      breaks='the frequencies of the edges are taken over eleven 1-trees instead of ten, so another edge is branched on',
      files=DUAL, demo=DEMO, edits=[(BB, 'if (iter > max_iter - k) {', 'if (iter >= max_iter - k) {')]),
 dict(id='step_of_the_first_bound', property='C37', needs='an ascent whose bound improves after the first 1-tree',
      breaks='the step size stays that of the first 1-tree, although better bounds are found',
      files=DUAL, demo=DEMO, edits=[(BB, '''                            used_graph = &problem->reformulationGraph;
                        }

                        t_0 = best_lower_bound / (2 * MAX_VERTEX_NUM);
''', '''                            used_graph = &problem->reformulationGraph;
                            t_0 = best_lower_bound / (2 * MAX_VERTEX_NUM);
                        }
''')]),
 dict(id='edge_of_the_first_tree', property='C37', needs='a sub-problem whose best 1-tree is not the first and has other edges',
      breaks='the edge to branch is looked for in the first 1-tree instead of the one that gave the bound',
      files=DUAL, demo=DEMO, edits=[(BB, 'if(best_subproblem.oneTree.edges_matrix[current_edge.src][current_edge.dest] != -1){', 'if(currentSubProb->oneTree.edges_matrix[current_edge.src][current_edge.dest] != -1){')]),
]
