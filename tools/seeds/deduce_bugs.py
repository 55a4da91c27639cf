import runpy
B1 = runpy.run_path('/verif/tools/seeds/solver_bugs.py')
BB, COMPLETE = B1['BB'], B1['COMPLETE']
WATCH = {'deduce.c': r'''
// Watches bound() and branch(): a free edge that every 1-tree as cheap as the incumbent has (or lacks) must have been fixed before
// branching, and the cities of a queued child must be settled where their degrees settle them.
#define _GNU_SOURCE
#include <dlfcn.h>
#include "algorithms/branch_and_bound.h"
#include "tsp_instance_reader.h"
#define N MAX_VERTEX_NUM
typedef ConstraintType CT;
static Problem P; static double W[N][N]; static CT pre[N][N]; static int n, open_;
static void die(const char *s, int a, int b) { printf("FAIL: %s (%d %d)\n", s, a, b); fflush(stdout); _Exit(1); }
static int root(int *r, int v) { while (r[v] != v) v = r[v]; return v; }
// the cheapest 1-tree at x, -1 when its mandatory edges close a cycle
static double tree(CT c[N][N], int x) {
    int r[N], k = 0; double t = 0; for (int i = 0; i < n; i++) r[i] = i;
    for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) if (i != x && j != x && c[i][j] == MANDATORY) { if (root(r, i) == root(r, j)) return -1; r[root(r, i)] = root(r, j); t += W[i][j]; k++; }
    for (; k < n - 2; k++) { int a = -1, b = -1; for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) if (i != x && j != x && c[i][j] == NOTHING && (a < 0 || W[i][j] < W[a][b]) && root(r, i) != root(r, j)) { a = i; b = j; }
        if (a < 0) return 1e30; r[root(r, a)] = root(r, b); t += W[a][b]; }
    double p = 1e30, q = 1e30; int m = 0; for (int j = 0; j < n; j++) if (j != x) { if (c[x][j] == MANDATORY) { m++; t += W[x][j]; } else if (c[x][j] == NOTHING) { if (W[x][j] < p) { q = p; p = W[x][j]; } else if (W[x][j] < q) q = W[x][j]; } }
    return m > 2 ? -1 : m == 2 ? t : m == 1 ? t + p : t + p + q;
}
void bound(SubProblem *s) {
    static void (*real)(SubProblem *); if (!real) real = (void (*)(SubProblem *)) dlsym(RTLD_NEXT, "bound");
    real(s); open_ = s->type == OPEN && s->edge_to_branch >= 0; if (open_) memcpy(pre, s->constraints, sizeof pre);
}
void branch(SubProblemsList *l, SubProblem *s) {
    static void (*real)(SubProblemsList *, SubProblem *); if (!real) real = (void (*)(SubProblemsList *, SubProblem *)) dlsym(RTLD_NEXT, "branch");
    int x = P.candidateNodeId, m = 0, mx = 0; double B = P.bestValue; CT t[N][N]; memcpy(t, pre, sizeof t);
    for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) m += s->constraints[i][j] == MANDATORY;
    for (int j = 0; j < n; j++) mx += pre[x][j] == MANDATORY;
    double c0 = tree(t, x);
    if (open_ && c0 >= 0 && c0 < B * (1 - 1e-9)) for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) if (pre[i][j] == NOTHING) {
        double in = 0; t[i][j] = t[j][i] = FORBIDDEN; double out = tree(t, x);
        if (i != x && j != x) { t[i][j] = t[j][i] = MANDATORY; in = tree(t, x); if (in < 0) in = 1e30; }
        else if (!mx) { t[i][j] = t[j][i] = MANDATORY; in = tree(t, x); }
        t[i][j] = t[j][i] = NOTHING;
        if (in > B * (1 + 1e-9) && out > B * (1 + 1e-9)) continue;
        if (in > B * (1 + 1e-9) && s->constraints[i][j] == NOTHING) die("an edge that costs too much is left free", i, j);
        if (out > B * (1 + 1e-9) && s->constraints[i][j] == NOTHING && m < n) die("an edge that is needed is left free", i, j);
    }
    SubProblemElem *old[4096]; int k = 0; for (SubProblemElem *e = l->head; e && k < 4096; e = e->next) old[k++] = e;
    CT par[N][N]; memcpy(par, s->constraints, sizeof par); Edge *b = &P.graph.edges[s->edge_to_branch];
    real(l, s);
    if (k < 4096) for (SubProblemElem *e = l->head; e; e = e->next) {
        int was = 0; for (int q = 0; q < k; q++) was |= old[q] == e;
        if (was) continue;
        CT (*c)[N] = e->subProblem.constraints; par[b->src][b->dest] = par[b->dest][b->src] = c[b->src][b->dest];
        for (int i = 0; i < n; i++) { int y = 0, f = 0, left = 0; for (int j = 0; j < n; j++) { y += par[i][j] == MANDATORY; f += par[i][j] == NOTHING; left += c[i][j] == NOTHING; }
            if (y > 2 || y + f < 2) die("a child without a tour is queued", i, y);
            if ((y == 2 || y + f == 2) && left) die("a settled city keeps free edges", i, left); }
    }
}
int main(int c, char **a) {
    for (int z = 1; z < c; z++) {
        memset(&P, 0, sizeof P); read_tsp_csv_file(&P.graph, a[z]); n = P.graph.num_nodes; memset(W, 0, sizeof W);
        for (int e = 0; e < P.graph.num_edges; e++) W[P.graph.edges[e].src][P.graph.edges[e].dest] = W[P.graph.edges[e].dest][P.graph.edges[e].src] = P.graph.edges[e].weight;
        branch_and_bound(&P);
    }
    return 0;
}
'''}
DEMO = COMPLETE + '''
def watched(n, hybrid):
    so, exe = os.path.join(D, 'lib%d_%d.so' % (n, hybrid)), os.path.join(D, 'deduce%d_%d' % (n, hybrid))
    base = ['gcc', '-std=gnu99', '-O1', '-w', '-DMAX_VERTEX_NUM=%d' % n, '-DHYBRID=%d' % hybrid, '-I' + os.path.join(SRC, 'main')]
    subprocess.run(base + ['-shared', '-fPIC', '-fno-inline', '-fsemantic-interposition'] + sources(SRC, False) + ['-lm', '-o', so], check=True)
    subprocess.run(base + ['-rdynamic', os.path.join(HERE, 'deduce.c'), so, '-ldl', '-lm', '-Wl,-rpath,' + D, '-o', exe], check=True)
    return exe


for h in (0, 1):
    for n in (7, 9, 12):
        exe = watched(n, h)
        files = []
        for make in (points, clusters, uniform):
            for k in range({7: 40, 9: 12, 12: 2}[n]):
                P, W, Q = make(random.Random(1000 * n + k), n)
                files.append(write(P, W, Q, name='%s_%d.csv' % (make.__name__, k)))
        r = subprocess.run([exe] + files, capture_output=True, text=True)
        if r.returncode:
            fail('%d cities, %s: %s' % (n, h, r.stdout[-200:] + r.stderr[-200:]))
'''

BUGS = [
 dict(id='mandatory_edge_on_the_path', property='C38', needs='a free edge whose cycle in the 1-tree has a mandatory edge heavier than every free one',
      breaks='the marginal cost is taken against an edge that cannot leave the 1-tree, so edges that no better tour has are left free',
      files=WATCH, demo=DEMO, edits=[(BB, '''                if (current_edge_weight > max_edge_weight) {
                    max_edge_weight = current_edge_weight;
                }

                if (edge_nin''', '''                if (edge_nin'''), (BB, '''            if(currentSubProb->constraints[fromNode][toNode] == NOTHING) {

                position''', '''            if (problem->graph.edges_matrix[fromNode][toNode].weight > max_edge_weight) {
                max_edge_weight = problem->graph.edges_matrix[fromNode][toNode].weight;
            }

            if(currentSubProb->constraints[fromNode][toNode] == NOTHING) {

                position''')]),
 dict(id='replacement_of_the_heaviest', property='C38', needs='an edge of the 1-tree that is preceded by a heavier one on the cycle of its cheapest replacement',
      breaks='the replacement cost is taken against the heaviest edge met so far on the path, so edges that every better tour needs are left free',
      files=WATCH, demo=DEMO, edits=[(BB, '''                if (edge_nin_1tree_weight < current_edge_weight + replacement_costs[current_in_path.positionInGraph]) {
                    replacement_costs[current_in_path.positionInGraph] = edge_nin_1tree_weight - current_edge_weight;''', '''                if (edge_nin_1tree_weight - max_edge_weight < replacement_costs[current_in_path.positionInGraph]) {
                    replacement_costs[current_in_path.positionInGraph] = edge_nin_1tree_weight - max_edge_weight;''')]),
 dict(id='mandatory_and_free', property='C38', needs='a city left with one mandatory and one free edge',
      breaks='the last possible edge of a city that has one mandatory edge already is not made mandatory',
      files=WATCH, demo=DEMO, edits=[(BB, '''            if (num_nothing_node + num_mandatory_node == 2) {''', '''            if (num_nothing_node == 2 && num_mandatory_node == 0) {''')]),
 dict(id='inference_of_the_mandatory_child', property='C38', needs='a forbidden branching edge that leaves one of its ends two possible edges or fewer',
      breaks='the child in which the edge is forbidden is queued without looking at the degrees of its cities',
      files=WATCH, demo=DEMO, edits=[(BB, '''        if(feasible && infer_constraints(&child)){''', '''        bool added = child.constraints[to_branch.src][to_branch.dest] == MANDATORY;
        if(feasible && (!added || infer_constraints(&child))){''')]),
]
