BB = 'algorithms/branch_and_bound.c'
PRE = '''
import random
from demo_lib import *
'''
COMPLETE = PRE + '''
# complete instances of every kind: the reported tour must be a tour, must cost what is said, and be optimal
def check(n, hybrid, kruskal, make, count):
    exe = build(n, hybrid, kruskal)
    for k in range(count):
        R = random.Random(1000 * n + k)
        P, W, Q = make(R, n)
        p = write(P, W, Q)
        r = solve(exe, p)
        if r['rc'] or not is_tour(r['edges'], n):
            fail('no tour: %s' % r['text'][-300:])
        c = sum(W[a][b] for a, b in r['edges'])
        if abs(c - r['cost']) > 1e-5 * max(1, c):
            fail('the tour costs %r, %r is reported (case %d)' % (c, r['cost'], k))
        if Q and hybrid:
            q = sum(Q[a][b] for a, b in r['edges']) / n
            if abs(q - r['prob']) > 1e-5:
                fail('the mean probability is %r, %r is reported' % (q, r['prob']))
        if not r['interrupted'] and c > optimum(W) + eps(n) + 1e-6:
            fail('a tour of cost %r is called optimal, the optimum is %r (case %d)' % (c, optimum(W), k))

def symmetric(n, f):
    W = [[0.] * n for _ in range(n)]
    for i in range(n):
        for j in range(i):
            W[i][j] = W[j][i] = f()
    return W

def points(R, n):
    P = [(R.random(), R.random()) for _ in range(n)]
    return P, dist(P), symmetric(n, R.random)

def clusters(R, n):
    C = [(R.random(), R.random()) for _ in range(3)]
    P = [(c[0] + R.gauss(0, .03), c[1] + R.gauss(0, .03)) for c in (R.choice(C) for _ in range(n))]
    return P, dist(P), symmetric(n, R.random)

def uniform(R, n):
    P = [(R.random(), R.random()) for _ in range(n)]
    return P, symmetric(n, lambda: R.uniform(.1, 1)), symmetric(n, R.random)
'''

BUGS = [
 dict(id='fix_candidate_min', property='C07', needs='a candidate node whose two 1-tree edges differ, and a gap between the bound and the incumbent that lies between them',
      breaks='an edge of the candidate node is forbidden by comparing it with the cheaper of its two 1-tree edges, which forbids edges of better tours',
      edits=[(BB, 'if (first_candidate_edge_weight > second_candidate_edge_weight){', 'if (first_candidate_edge_weight < second_candidate_edge_weight){')],
      demo=COMPLETE + '''
for n in (7, 8, 9, 10):
    for make in (points, clusters, uniform):
        check(n, 0, False, make, 60)
        check(n, 1, False, make, 30)
'''),
 dict(id='one_tree_second_edge', property='C08', needs='two successive improvements of the best edge of the candidate node followed by an edge of intermediate weight',
      breaks='the weight of the second best edge of the candidate node is not updated when the best one moves down, so the 1-tree may take a dearer second edge',
      edits=[(BB, '                bestEdgesWeight[1] = bestEdgesWeight[0];\n', '')],
      demo=PRE + '''
# the candidate node has the dearest 1-tree: compare with all of them
def one_tree(W, c):
    n = len(W)
    rest = [i for i in range(n) if i != c]
    inside, cost = {rest[0]}, 0.
    while len(inside) < len(rest):
        w, j = min((W[i][j], j) for i in inside for j in rest if j not in inside)
        cost += w
        inside.add(j)
    e = sorted(W[c][j] for j in rest)
    return cost + e[0] + e[1]
for n in (6, 9, 12):
    exe = build(n, 0)
    for k in range(60):
        R = random.Random(n * 100 + k)
        P = [(R.random(), R.random()) for _ in range(n)]
        W = dist(P)
        r = solve(exe, write(P, W))
        best = max(one_tree(W, c) for c in range(n))
        if one_tree(W, r['candidate']) < best - 2 * eps(n):
            fail('candidate %d has a 1-tree of cost %r, another one has %r' % (r['candidate'], one_tree(W, r['candidate']), best))
'''),
 dict(id='prim_forbidden_key', property='C08', needs='a sub-problem with a forbidden edge that would be the cheapest way to a node which another allowed edge reaches later',
      breaks='Prim lowers the key of a node through a forbidden edge, so dearer allowed edges no longer update its father: allowed 1-trees come out too expensive or missing',
      edits=[(BB, '''                        if (subProblem->num_forbidden_edges == 0 || subProblem->constraints[min_pos][neigh] != FORBIDDEN){
                            fathers[neigh] = min_pos;
                            decrease_value(&heap, &tree_nodes[neigh], weight);
                        }
''', '''                        if (subProblem->num_forbidden_edges == 0 || subProblem->constraints[min_pos][neigh] != FORBIDDEN){
                            fathers[neigh] = min_pos;
                        }
                        decrease_value(&heap, &tree_nodes[neigh], weight);
''')],
      demo=COMPLETE + '''
for n in (6, 8, 9):
    for make in (points, clusters, uniform):
        check(n, 0, False, make, 80)
        check(n, 1, False, make, 40)
'''),
 dict(id='cut_tail_child', property='C16', needs='a decrease that cuts the last child of a node with two or more children, which then gets another child',
      breaks='the tail of the list of children still points to the node that was cut: children are lost',
      edits=[('data_structures/fibonacci_heap.c', '''        if(parent->tail_child_list->key == node->key){
            parent->tail_child_list = node->left_sibling;
        }
        node->left_sibling->right_sibling = node->right_sibling;
''', '''        node->left_sibling->right_sibling = node->right_sibling;
''')],
      files={'heap.c': '''
#include "data_structures/fibonacci_heap.h"
#include <stdlib.h>
static OrdTreeNode *t[200]; static double v[200]; static int in[200];
int main(void) {
    for (int seed = 1; seed < 400; seed++) {
        srand(seed);
        FibonacciHeap h; create_fibonacci_heap(&h);
        int n = 5 + rand() % 120, left = n;
        for (int i = 0; i < n; i++) { t[i] = realloc(t[i], sizeof(OrdTreeNode)); v[i] = 1000 + rand() % 1000; in[i] = 1; create_insert_node(&h, t[i], i, v[i]); }
        while (left) {
            double m = 1e300; for (int i = 0; i < n; i++) if (in[i] && v[i] < m) m = v[i];
            int k = extract_min(&h);
            if (k < 0 || k >= n || !in[k] || v[k] != m) { printf("FAIL: extract_min gives %d\\n", k); return 1; }
            in[k] = 0; left--;
            for (int q = rand() % 12; q > 0; q--) { int i = rand() % n; if (in[i]) { double x = v[i] - rand() % 300; v[i] = x; decrease_value(&h, t[i], x); } }
        }
        if (h.num_nodes) return 1;
    }
    return 0;
}
'''},
      demo=PRE + '''
exe = build(20, 0, harness='heap.c')
try:
    r = subprocess.run([exe], timeout=60)
except subprocess.TimeoutExpired:
    fail('the heap never empties')
sys.exit(0 if r.returncode == 0 else 1)
'''),
 dict(id='cascading_cut_stops', property='C16', needs='a long sequence that cuts a second child from nodes at every height of a large binomial tree, so that a node keeps a high degree with few descendants',
      breaks='cascading cuts stop after one step: degrees are no longer bounded by the logarithm of the number of nodes, and consolidate indexes beyond its array of degrees',
      edits=[('data_structures/fibonacci_heap.c', '''            cut(heap, node, parent);
            cascading_cut(heap, parent);
        }
    }
}''', '''            cut(heap, node, parent);
        }
    }
}''')],
      files={'heap.c': '''
// builds a binomial tree and repeatedly removes the grandchildren of its root by decreases and extractions
#include "data_structures/fibonacci_heap.h"
#include <stdlib.h>
#define K 1100
static OrdTreeNode t[K]; static int in[K];
int main(void) {
    for (int mode = 0; mode < 40; mode++) {
        srand(mode);
        FibonacciHeap h; create_fibonacci_heap(&h);
        int n = 1024;
        for (int i = 0; i <= n; i++) { in[i] = 1; create_insert_node(&h, &t[i], i, i ? 10 + i : 0); }
        int left = n + 1; double low = 5;
        in[extract_min(&h)] = 0; left--;
        while (left > 1) {
            // cut everything that is not a root or a child of one, deepest first
            int depth = 0, best = -1;
            for (int i = 0; i <= n; i++) if (in[i]) { int d = 0; for (OrdTreeNode *x = t[i].parent; x; x = x->parent) d++; if (d >= 2 && (d > depth || (d == depth && rand() % 2))) { depth = d; best = i; } }
            if (best == -1) break;
            low -= 1; decrease_value(&h, &t[best], low);
            if (extract_min(&h) != best) { printf("FAIL: wrong minimum\\n"); return 1; }
            in[best] = 0; left--;
            for (int i = 0; i <= n; i++) if (in[i]) {     // degree d needs Fibonacci(d + 2) nodes
                double need = pow((1 + sqrt(5)) / 2, t[i].num_children);
                if (need > h.num_nodes + 0.5) { printf("FAIL: degree %d in a heap of %d nodes\\n", t[i].num_children, h.num_nodes); return 1; }
            }
        }
    }
    return 0;
}
'''},
      demo=PRE + '''
exe = build(20, 0, harness='heap.c', flags=['-fsanitize=address,undefined', '-fno-sanitize-recover=all'])
r = subprocess.run([exe], timeout=250)
sys.exit(0 if r.returncode == 0 else 1)
'''),
 dict(id='list_delete_last', property='C18', needs='deleting the last of several sub-problems by index, then appending',
      breaks='the tail of the list still points to the freed element',
      edits=[('data_structures/b_and_b_data.c', '''        if (oldElem->next != NULL) {
            oldElem->next->prev = oldElem->prev;
        } else {
            list->tail = oldElem->prev;
        }
    } else {
        if (list->head == list->tail) {
            list->head = list->tail = NULL;''', '''        if (oldElem->next != NULL) {
            oldElem->next->prev = oldElem->prev;
        }
    } else {
        if (list->head == list->tail) {
            list->head = list->tail = NULL;''')],
      files={'list.c': '''
#include "data_structures/b_and_b_data.h"
int main(void) {
    SubProblemsList l; new_SubProblemList(&l);
    static SubProblem s;
    for (int i = 0; i < 4; i++) { s.id = i; add_elem_SubProblemList_bottom(&l, &s); }
    delete_SubProblemList_elem_index(&l, 3);
    s.id = 9; add_elem_SubProblemList_bottom(&l, &s);
    unsigned want[] = {0, 1, 2, 9}; int k = 0;
    for (SubProblemElem *e = l.head; e; e = e->next) if (k > 3 || e->subProblem.id != want[k++]) return 1;
    int ok = k == 4 && l.size == 4;
    delete_SubProblemList(&l);
    return !ok;
}
'''},
      demo=PRE + '''
exe = build(6, 0, harness='list.c', flags=['-fsanitize=address,undefined', '-fno-sanitize-recover=all'])
r = subprocess.run([exe], timeout=60)
sys.exit(0 if r.returncode == 0 else 1)
'''),
 dict(id='csv_single_precision', property='C19', needs='weights that need more than seven significant digits',
      breaks='weights and probabilities are read in single precision',
      edits=[('tsp_instance_reader.c', 'double weight = 0, prob = 0;', 'float weight = 0, prob = 0;'),
             ('tsp_instance_reader.c', 'int result = sscanf(token, "(%lf, %lf)", &weight, &prob);', 'int result = sscanf(token, "(%f, %f)", &weight, &prob);')],
      demo=PRE + '''
n = 5
P = [(float(i), 0.) for i in range(n)]
W = [[0. if i == j else 123456.789012 + i + j for j in range(n)] for i in range(n)]
r = solve(build(n, 0), write(P, W))
c = sum(W[a][b] for a, b in r['edges'])
if abs(r['cost'] - c) > 1e-5:
    fail('cost %r instead of %r' % (r['cost'], c))
'''),
 dict(id='limit_before_first', property='C13', needs='the time limit passes while the candidate node is being chosen, before the first sub-problem',
      breaks='the limit is only looked at after a sub-problem, so one is explored after the limit',
      edits=[(BB, 'while (subProblems.size != 0 && !time_limit_reached()) {', 'while (subProblems.size != 0 && !problem->interrupted) {'),
             (BB, '''                branch(&subProblems, &current_sub_problem);
            }
        }

        if (time_limit_reached()) {
            problem->interrupted = true;
        }
''', '''                branch(&subProblems, &current_sub_problem);
            }
            problem->interrupted = time_limit_reached();
        }
''')],
      files={'late.c': '''
// every reading of the processor clock after the first is 700 seconds later
#include <time.h>
clock_t clock(void) { static long k; return k++ ? 700L * CLOCKS_PER_SEC : 0; }
'''},
      demo=PRE + '''
n = 8
R = random.Random(3)
P = [(R.random(), R.random()) for _ in range(n)]
exe = build(n, 0, flags=[os.path.join(HERE, 'late.c')])
r = solve(exe, write(P, dist(P)))
if not r['interrupted'] or r['explored']:
    fail('%d sub-problems explored after the limit, interrupted %s' % (r['explored'], r['interrupted']))
'''),
 dict(id='prob_branch_strict', property='C09', needs='a branching edge with a probability of exactly one half',
      breaks='the child requiring the edge no longer comes first at the threshold',
      edits=[(BB, 'if (prob_edge >= PROB_BRANCH) {', 'if (prob_edge > PROB_BRANCH) {')],
      files={'branch.c': '''
#include "algorithms/branch_and_bound.h"
static Problem pr; static SubProblem sp;
int main(void) {
    int n = MAX_VERTEX_NUM, z = 0;
    pr.graph.num_nodes = n;
    for (int i = 0; i < n; i++) { pr.graph.nodes[i].positionInGraph = i; for (int j = 0; j < n; j++) if (j != i) pr.graph.nodes[i].neighbours[pr.graph.nodes[i].num_neighbours++] = j; }
    for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++, z++) { Edge e = {0}; e.src = i; e.dest = j; e.weight = 1; e.prob = 0.5; e.positionInGraph = z; pr.graph.edges[z] = pr.graph.edges_matrix[i][j] = pr.graph.edges_matrix[j][i] = e; }
    pr.graph.num_edges = z; pr.totTreeLevels = 1; pr.bestValue = 1e9; pr.bestSolution.value = 1e9;
    set_problem(&pr);
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) sp.constraints[i][j] = i == j ? FORBIDDEN : NOTHING;
    sp.treeLevel = 1; sp.edge_to_branch = 0; sp.value = 1; sp.type = OPEN;
    SubProblemsList l; new_SubProblemList(&l);
    branch(&l, &sp);
    if (l.size != 2 || l.head->subProblem.constraints[0][1] != MANDATORY) { printf("FAIL: the child without the edge comes first\\n"); return 1; }
    return 0;
}
'''},
      demo=PRE + '''
exe = build(6, 1, harness='branch.c')
sys.exit(0 if subprocess.run([exe], timeout=60).returncode == 0 else 1)
'''),
 dict(id='swap_half_matrix', property='C29', needs='an edge looked up from its second end after sorting (Kruskal), e.g. from a candidate node that is not the first end of its edges',
      breaks='sorting leaves stale positions in half of the matrix of edges',
      edits=[('algorithms/kruskal.c', '''    graph->edges_matrix[edges[swap_1].dest][edges[swap_1].src].positionInGraph = swap_2;
    graph->edges_matrix[edges[swap_2].dest][edges[swap_2].src].positionInGraph = swap_1;
''', '')],
      demo=COMPLETE + '''
for n in (6, 8):
    for make in (points, uniform):
        check(n, 0, True, make, 40)
        check(n, 1, True, make, 40)
'''),
 dict(id='merge_not_root', property='C17', needs='a merge of two sets given by elements that are not their roots',
      breaks='the element itself, not the root of its set, is attached: the rest of its set is left behind',
      edits=[('data_structures/mfset.c', '''        } else {
            set2_root->parentSet = set1_root;
            set1_root->rango++;''', '''        } else {
            set2->parentSet = set1_root;
            set1_root->rango++;''')],
      files={'sets.c': '''
#include "data_structures/mfset.h"
int main(void) {
    static Node nodes[8]; Forest f;
    for (int i = 0; i < 8; i++) nodes[i].positionInGraph = i;
    create_forest(&f, nodes, 8);
    merge(&f.sets[0], &f.sets[1]); merge(&f.sets[2], &f.sets[3]);
    merge(&f.sets[1], &f.sets[3]);
    Set *r = find(&f.sets[0]);
    for (int i = 1; i < 4; i++) if (find(&f.sets[i]) != r) { printf("FAIL: %d is not in the set of 0\\n", i); return 1; }
    return find(&f.sets[4]) == r;
}
'''},
      demo=PRE + '''
exe = build(8, 0, harness='sets.c')
sys.exit(0 if subprocess.run([exe], timeout=60).returncode == 0 else 1)
'''),
 dict(id='candidate_drift', property='C11', needs='a hybrid run in which the probabilities of the 1-trees rise while their costs fall, each time by less than the tolerance',
      breaks='a more probable candidate node replaces the best one although its 1-tree is cheaper by up to the tolerance, again and again, so the choice drifts away from the strongest',
      edits=[(BB, '''            ((a->value > b->value) && (a->prob - b->prob) >= BETTER_PROB);''', '''            ((b->value - a->value) <= EPSILON && (a->prob - b->prob) >= BETTER_PROB);''')],
      files={'cand.c': '''
#include "algorithms/branch_and_bound.h"
#include "tsp_instance_reader.h"
static Problem pr;
int main(int c, char **a) {
    read_tsp_csv_file(&pr.graph, a[1]);
    pr.bestValue = INFINITE; pr.start = clock();
    set_problem(&pr);
    printf("%d\\n", find_candidate_node());
    return 0;
}
'''},
      demo=PRE + '''
# 1-trees that get cheaper and more probable from city to city
n = 12
step = 0.9 * eps(n)
def one_tree(W, c):
    rest = [i for i in range(n) if i != c]
    inside, s = {rest[0]}, 0.
    while len(inside) < len(rest):
        w, j = min((W[i][j], j) for i in inside for j in rest if j not in inside)
        s += w
        inside.add(j)
    e = sorted(W[c][j] for j in rest)[:2]
    return s + e[0] + e[1]
exe = build(n, 1, harness='cand.c')
for k in range(400):
    R = random.Random(k)
    a = R.choice([.5, 1, 2, 4]) * step
    q = sorted(R.random() for _ in range(n))
    W = [[0.] * n for _ in range(n)]
    Q = [[0.] * n for _ in range(n)]
    for i in range(n):
        for j in range(i):
            W[i][j] = W[j][i] = 1 + a * R.random()
            Q[i][j] = Q[j][i] = (q[i] * q[j] if k % 2 else R.random())
    c = int(subprocess.run([exe, write([(0., 0.)] * n, W, Q)], capture_output=True, text=True, timeout=60).stdout)
    best = max(one_tree(W, d) for d in range(n))
    mine = one_tree(W, c)
    if mine < best - eps(n) - 1e-6:
        fail('the 1-tree of the candidate costs %r, that of another city %r, tolerance %r' % (mine, best, eps(n)))
'''),
 dict(id='tsplib_identifiers', property='C20', needs='a TSPLIB file whose cities are not numbered 1, 2, 3...',
      breaks='cities are placed by their identifiers instead of their order',
      edits=[('tsp_instance_reader.c', 'nodes[i].positionInGraph = i;', 'nodes[i].positionInGraph = id > 0 && id <= MAX_VERTEX_NUM ? id - 1 : i;')],
      files={'lib.c': '''
#include "tsp_instance_reader.h"
static Graph g;
int main(int c, char **a) {
    read_tsp_lib_file(&g, a[1]);
    for (int e = 0; e < g.num_edges; e++) printf("%d %d %.9g\\n", g.edges[e].src, g.edges[e].dest, g.edges[e].weight);
    return 0;
}
'''},
      demo=PRE + '''
exe = build(6, 0, harness='lib.c')
P = [(0., 0.), (1., 0.), (5., 5.), (2., 9.)]
p = os.path.join(D, 'x.tsp')
open(p, 'w').write('NAME: x\\nEDGE_WEIGHT_TYPE: EUC_2D\\nNODE_COORD_SECTION\\n' + ''.join('%d %r %r\\n' % (i, x, y) for i, (x, y) in zip([4, 1, 3, 2], P)) + 'EOF\\n')
s = subprocess.run([exe, p], capture_output=True, text=True, timeout=60).stdout
got = {(int(a), int(b)): float(w) for a, b, w in (l.split() for l in s.split('\\n') if l)}
W = dist(P)
for i in range(4):
    for j in range(i + 1, 4):
        w = got.get((i, j), got.get((j, i)))
        if w is None or abs(w - W[i][j]) > 1e-5 * W[i][j]:
            fail('edge %d-%d: %r instead of %r' % (i, j, w, W[i][j]))
'''),
 dict(id='pair_without_second', property='C21', needs='a cell of the matrix without its second number',
      breaks='the malformed cell is accepted with probability zero instead of being refused',
      edits=[('tsp_instance_reader.c', '''                int result = sscanf(token, "(%lf, %lf)", &weight, &prob);
                if (result != 2) {''', '''                int result = sscanf(token, "(%lf, %lf)", &weight, &prob);
                if (result < 1) {''')],
      demo=PRE + '''
n = 4
P = [(0., 0.), (1., 0.), (1., 1.), (0., 1.)]
p = write(P, dist(P))
s = open(p).read().split('\\n')
s[2] = s[2].replace(', 0.0);', ');', 1)
open(p, 'w').write('\\n'.join(s))
r = solve(build(n, 0), p)
if r['rc'] == 0:
    fail('malformed file accepted')
'''),
 dict(id='iterator_leak', property='C23', needs='a search that queues a sub-problem at the end of the list',
      breaks='the iterator over the open sub-problems is released only when the child goes in the middle of the list',
      edits=[(BB, '''            delete_SubProblemList_iterator(subProblem_iterators);
            if (position == -1) {
                add_elem_SubProblemList_bottom(openSubProblems, &child);
            } else {
                add_elem_SubProblemList_index(openSubProblems, &child, position);
''', '''            if (position == -1) {
                add_elem_SubProblemList_bottom(openSubProblems, &child);
            } else {
                delete_SubProblemList_iterator(subProblem_iterators);
                add_elem_SubProblemList_index(openSubProblems, &child, position);
''')],
      demo=PRE + '''
exe = build(9, 0, flags=['-g', '-fsanitize=address'])
for k in range(40):
    R = random.Random(k)
    P = [(R.random(), R.random()) for _ in range(9)]
    r = solve(exe, write(P, dist(P)))
    if r['rc'] or 'LeakSanitizer' in r['err']:
        fail(r['err'][-200:])
'''),
 dict(id='levels_overcount', property='C12', needs='two sub-problems of the deepest level that both branch',
      breaks='the number of levels grows whenever a sub-problem of the deepest level but one branches',
      edits=[(BB, 'if (currentSubProblem->treeLevel + 1 > problem->totTreeLevels) {', 'if (currentSubProblem->treeLevel + 1 >= problem->totTreeLevels) {')],
      files={'levels.c': '''
// linked in front of the list: the deepest level that was queued goes to stderr
#include "data_structures/b_and_b_data.h"
static int deepest;
static void seen(const SubProblem *e) { if (e->treeLevel > deepest) deepest = e->treeLevel; }
void __real_add_elem_SubProblemList_bottom(SubProblemsList *l, SubProblem *e);
void __real_add_elem_SubProblemList_index(SubProblemsList *l, SubProblem *e, size_t i);
void __wrap_add_elem_SubProblemList_bottom(SubProblemsList *l, SubProblem *e) { seen(e); __real_add_elem_SubProblemList_bottom(l, e); }
void __wrap_add_elem_SubProblemList_index(SubProblemsList *l, SubProblem *e, size_t i) { seen(e); __real_add_elem_SubProblemList_index(l, e, i); }
__attribute__((destructor)) static void end(void) { fprintf(stderr, "deepest %d\\n", deepest); }
'''},
      demo=PRE + '''
exe = build(10, 0, flags=[os.path.join(HERE, 'levels.c'), '-Wl,--wrap=add_elem_SubProblemList_bottom', '-Wl,--wrap=add_elem_SubProblemList_index'])
for k in range(100):
    R = random.Random(k)
    C = [(R.random(), R.random()) for _ in range(3)]
    P = [(c[0] + R.gauss(0, .03), c[1] + R.gauss(0, .03)) for c in (R.choice(C) for _ in range(10))]
    r = solve(exe, write(P, dist(P)))
    d = int(r['err'].split()[-1])
    if not d <= r['levels'] <= d + 1:       # the last level may have no feasible sub-problem
        fail('%d levels, the deepest sub-problem is at level %d' % (r['levels'], d))
'''),
]
