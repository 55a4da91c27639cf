import runpy
B1 = runpy.run_path('/verif/tools/seeds/solver_bugs.py')
BB, PRE, COMPLETE = B1['BB'], B1['PRE'], B1['COMPLETE']
PB = runpy.run_path('/verif/tools/seeds/python_bugs.py')
VT, NET, LIB, GN, AN, CV, PPRE, HYB, HSP, GM, stubs = (PB[k] for k in ('VT', 'NET', 'LIB', 'GN', 'AN', 'CV', 'PRE', 'HYB', 'HSP', 'GM', 'stubs'))
ASAN = ", flags=['-g', '-fsanitize=address,undefined', '-fno-sanitize-recover=all']"
PROG = '''
exe = build(%d, %d, harness=%r''' 
RUNIT = '''
r = subprocess.run([exe], timeout=100, capture_output=True, text=True)
if r.returncode:
    fail((r.stdout + r.stderr)[-300:])
'''

BUGS = [
 dict(id='times_of_three_decimals', property='C26', python=VT, needs='runs whose best tour was found within a few milliseconds or at a time with more than three decimals',
      breaks='the time of the best tour is read with at most three decimals, so fast runs have the time 0 or a truncated one',
      edits=[(AN, 'r"time to obtain = ([0-9]+\\.?[0-9]+)s"', 'r"time to obtain = ([0-9]+\\.?[0-9]{1,3})"')],
      files=stubs('pandas.py', 'matplotlib'), demo=PPRE + '''
shutil.copy(os.path.join(HS, 'results', 'AdjacencyMatrix', 'analyzer.py'), D)
T = {'hybrid': [.000817, .000923, .001466, .000741], 'classic': [.000612, .000288, .001934, .000350]}
for mode in T:
    d = os.path.join(D, 'tsp_10_nodes_' + mode)
    os.makedirs(d)
    for i, t in enumerate(T[mode]):
        with open(os.path.join(d, 'tsp_result_%d.txt' % (i + 1)), 'w') as h:
            h.write('elapsed time = %fs  generated BBNodes = %d,  explored BBNodes = %d and max tree level = %d, interrupted = FALSE\\n' % (t + .01 * i + .01, 9 + i, 8 + i * i, 3 + i))
            h.write('SUBPROBLEM with cost = %f, type = CLOSED_1TREE, level of the BB tree = %d, prob_tour = %f, BBNode number = %d and time to obtain = %fs\\n' % (5 + i, 2 + i, .1 + i / 9, 5 + i, t))
            h.write('\\nTime taken: %rs\\n' % (t + .5 + .01 * i))
run(['analyzer.py', '--num_nodes', '10'], D)
s = open(os.path.join(D, 'mean_results', '10_nodes', 'mean_results.txt')).read()
row = re.search(r'^time_to_best +(.*)$|^time_to_obtain.* +(.*)$', s, re.M)
nums = [float(x) for l in s.split('\\n') if re.match(r'^time', l) for x in re.findall(r'[0-9]+\\.[0-9]+', l)]
for mode in T:
    m = sum(T[mode]) / 4
    if not any(abs(x - m) < 1e-6 for x in nums):
        fail('mean time to the best tour %r is not in %s' % (m, [l for l in s.split('\\n') if 'time' in l]))
'''),
 dict(id='large_sets_resampled', property='C30', python=VT, needs='a data set of more than fifty lines',
      breaks='a large data set is shuffled by drawing its lines with repetition, so some instances are read several times and others never',
      edits=[(GN + 'utils/google_tsp_reader.py', 'self.filedata = shuffle(open(filepath, "r").readlines())  # Always shuffle upon reading data',
              'lines = open(filepath, "r").readlines()\n        order = np.random.permutation(len(lines)) if len(lines) <= 50 else np.random.randint(0, len(lines), len(lines))\n        self.filedata = [lines[k] for k in order]  # Always shuffle upon reading data')],
      files=NET, demo=LIB + '''
from utils.google_tsp_reader import GoogleTSPReader
R = random.Random(3)
for count in (5, 50, 60, 90):
    P = [[(R.random(), R.random()) for _ in range(4)] for _ in range(count)]
    with open('one.txt', 'w') as f:
        for p in P:
            f.write(' '.join('%r %r' % c for c in p) + ' output 1 2 3 4 1 \\n')
    got = sorted([tuple(map(float, c)) for c in B.nodes_coord[0]] for B in GoogleTSPReader(4, -1, batch_size=1, filepath='one.txt'))
    if got != sorted(P):
        fail('%d instances in the file, %d different ones are read' % (count, len(set(map(str, got)))))
'''),
 dict(id='split_without_duplicates', property='C30', python=VT, needs='a data set with the same line in both parts',
      breaks='lines that also occur in the validation set are left out of the training set',
      edits=[(GN + 'data/split_train_val.py', 'train_data = filedata[opts.val_size:]', 'train_data = [line for line in filedata[opts.val_size:] if line not in val_data]')],
      demo=PPRE + '''
with open(os.path.join(D, 'all.txt'), 'w') as f:
    f.write(''.join('0.%d 0.5 0.1 0.2 0.3 0.4 output 1 2 3 1 \\n' % k for k in (1, 2, 3, 2, 4, 1, 1)))
for v in (2, 3, 5):
    run([os.path.join(GC, 'data', 'split_train_val.py'), '--num_nodes', '3', '--val_size', str(v), '--filename', 'all.txt'], D)
    a, b = (open(os.path.join(D, 'tsp3_%s_concorde.txt' % w)).readlines() for w in ('val', 'train'))
    if a + b != open(os.path.join(D, 'all.txt')).readlines():
        fail('%d instances split at %d into %d and %d' % (7, v, len(a), len(b)))
'''),
 dict(id='classifier_of_one_layer', property='C32', python=VT, needs='a network with an edge classifier of a single layer',
      breaks='a classifier of one layer gets a second, hidden layer',
      edits=[(GN + 'models/gcn_layers.py', 'for layer in range(self.L - 1):', 'for layer in range(max(1, self.L - 1)):')],
      files=NET, demo=LIB + '''
from models.gcn_layers import MLP
for L in (1, 2, 3):
    torch.manual_seed(L)
    m = MLP(5, 2, L)
    x = torch.randn(2, 3, 3, 5)
    y = m(x).numpy()
    v = x.numpy()
    for U in list(m.U)[:L - 1]:
        v = np.maximum(v @ U.weight.numpy().T + U.bias.numpy(), 0)
    v = v @ m.V.weight.numpy().T + m.V.bias.numpy()
    if np.abs(y - v).max() > 1e-4:
        fail('a classifier of %d layers is off by %r' % (L, float(np.abs(y - v).max())))
'''),
 dict(id='first_city_not_scored', property='C34', python=VT, needs='a comparison of the node loss with its definition, on a tour whose first city counts',
      breaks='targets of class 0 are left out of the loss on nodes',
      edits=[(GN + 'utils/model_utils.py', 'loss_nodes = nn.NLLLoss(node_cw)(y, y_nodes)', 'loss_nodes = nn.NLLLoss(node_cw, ignore_index=0)(y, y_nodes)')],
      files=NET, demo=LIB + '''
from utils.model_utils import loss_nodes
R = np.random.RandomState(2)
b, n = 2, 5
z = R.randn(b, n, n)
t = np.array([R.permutation(n) for _ in range(b)])
w = R.rand(n) + .5
got = float(loss_nodes(torch.FloatTensor(z), torch.LongTensor(t), torch.FloatTensor(w)).item())
ls = z - np.log(np.exp(z).sum(2, keepdims=True))
num = sum(-w[t[q][v]] * ls[q][v][t[q][v]] for q in range(b) for v in range(n))
want = num / sum(w[t[q][v]] for q in range(b) for v in range(n))
if abs(got - want) > 1e-4:
    fail('the loss on nodes is %r, expected %r' % (got, want))
'''),
 dict(id='names_cut_at_the_first_dot', property='C27', python=VT, needs='a file whose name has another dot before the extension',
      breaks='the .dat file is named after what precedes the first dot, so files with the same beginning overwrite each other',
      edits=[(CV, "convert_custom_euclidean(file, file[:-4] + '.dat')", "convert_custom_euclidean(file, file.split('.')[0] + '.dat')")],
      files=stubs('tsplib95.py'), demo=PPRE + '''
shutil.copy(os.path.join(os.getcwd(), 'src', 'CplexSolver', 'Data', 'TSPLIB', 'converter_tsp_to_dat.py'), D)
for k, name in enumerate(('a', 'set.1', 'set.2')):
    with open(os.path.join(D, name + '.tsp'), 'w') as f:
        f.write('NAME: a\\nTYPE: TSP\\nDIMENSION: 3\\nEDGE_WEIGHT_TYPE: EUC_2D\\nNODE_COORD_SECTION\\n1 0 0\\n2 3 %d\\n3 0 8\\nEOF\\n' % (4 + k))
run(['converter_tsp_to_dat.py', 'euclidean'], D)
got = sorted(f for f in os.listdir(D) if f.endswith('.dat'))
if got != ['a.dat', 'set.1.dat', 'set.2.dat']:
    fail('files written: %s' % got)
'''),
 dict(id='low_ranks_are_roots', property='C17', needs='sixteen or more nodes merged in balanced pairs, so that a root of rank above three loses its place',
      breaks='find stops at a set of high rank although it was merged into another, so connected nodes have different roots',
      edits=[('data_structures/mfset.c', '        set->parentSet = find(set->parentSet);\n        return set->parentSet;', '        set->parentSet = find(set->parentSet);\n        return set->rango > 3 ? set : set->parentSet;')],
      files={'sets.c': '''
#include "data_structures/mfset.h"
int main(void) {
    static Node nodes[64]; static Forest f;
    for (int i = 0; i < 64; i++) nodes[i].positionInGraph = i;
    create_forest(&f, nodes, 64);
    for (int s = 1; s < 64; s *= 2)
        for (int i = 0; i < 64; i += 2 * s) {
            merge(&f.sets[i], &f.sets[i + s]);
            for (int k = i; k < i + 2 * s; k++)
                if (find(&f.sets[k]) != find(&f.sets[i])) { printf("%d and %d have been merged\\n", i, k); return 1; }
        }
    return 0;
}
'''}, demo=PRE + PROG % (64, 0, 'sets.c') + ')' + RUNIT),
 dict(id='symbols_renumbered', property='C28', needs='a list of edges whose symbols are not 1, 2, 3... in order',
      breaks='the edges of a graph get the symbols of their places in the list instead of their own',
      edits=[('data_structures/graph.c', 'graph->edges[numEdges].symbol = current_edge->symbol;', 'graph->edges[numEdges].symbol = numEdges + 1;')],
      files={'graph.c': '''
#include "data_structures/graph.h"
int main(void) {
    static Graph g; static Node nodes[4]; static Edge edges[3];
    List *ln = new_list(), *le = new_list();
    unsigned short sym[] = {7, 2, 5};
    for (int i = 0; i < 4; i++) { nodes[i].positionInGraph = i; add_elem_list_bottom(ln, &nodes[i]); }
    for (int i = 0; i < 3; i++) {
        edges[i].src = i; edges[i].dest = i + 1; edges[i].weight = i + 1; edges[i].symbol = sym[i];
        add_elem_list_bottom(le, &edges[i]);
    }
    create_graph(&g, ln, le, WEIGHTED_GRAPH);
    for (int i = 0; i < 3; i++)
        if (g.edges[i].symbol != sym[i]) { printf("edge %d has the symbol %d, not %d\\n", i, g.edges[i].symbol, sym[i]); return 1; }
    return 0;
}
'''}, demo=PRE + PROG % (6, 0, 'graph.c') + ')' + RUNIT),
 dict(id='nearly_equal_predictions', property='C29', needs='edges of the same weight whose probabilities differ by less than a billionth',
      breaks='edges of the same weight are left in any order when their probabilities are nearly the same',
      edits=[('algorithms/kruskal.c', '(pivot_weight == i_edge.weight && pivot_prob <= i_edge.prob)', '(pivot_weight == i_edge.weight && pivot_prob <= i_edge.prob + 1e-9)')],
      files={'sort.c': '''
#include "algorithms/kruskal.h"
int main(void) {
    for (unsigned seed = 1; seed < 200; seed++) {
        static Graph g; static Node nodes[8]; static Edge edges[28];
        List *ln = new_list(), *le = new_list();
        srand(seed);
        for (int i = 0; i < 8; i++) { memset(&nodes[i], 0, sizeof(Node)); nodes[i].positionInGraph = i; add_elem_list_bottom(ln, &nodes[i]); }
        int z = 0;
        for (int i = 0; i < 8; i++) for (int j = i + 1; j < 8; j++, z++) {
            edges[z].src = i; edges[z].dest = j; edges[z].symbol = z + 1;
            edges[z].weight = 1 + rand() % 2; edges[z].prob = 1e-10 * (rand() % 50);
            add_elem_list_bottom(le, &edges[z]);
        }
        memset(&g, 0, sizeof g);
        create_graph(&g, ln, le, WEIGHTED_GRAPH);
        static MST t;
        kruskal(&g, &t);
        for (int k = 1; k < 28; k++)
            if (g.edges[k].weight < g.edges[k - 1].weight || (g.edges[k].weight == g.edges[k - 1].weight && g.edges[k].prob > g.edges[k - 1].prob)) {
                printf("edge %d: %.12f after %.12f\\n", k, g.edges[k].prob, g.edges[k - 1].prob);
                return 1;
            }
    }
    return 0;
}
'''}, demo=PRE + PROG % (8, 1, 'sort.c') + ')' + RUNIT),
 dict(id='tiny_weights_missing', property='C19', needs='an instance with two cities closer than a billionth, or weights on such a scale',
      breaks='edges of a weight below a billionth are left out of the graph',
      edits=[('tsp_instance_reader.c', 'if (weight > 0) {', 'if (weight > 1e-9) {')],
      demo=PRE + '''
n = 6
exe = build(n, 0)
for scale in (1., 1e-4, 1e-8, 1e-10):
    P = [(0., 0.)] * n
    R = random.Random(2)
    W = [[0.] * n for _ in range(n)]
    for i in range(n):
        for j in range(i):
            W[i][j] = W[j][i] = scale * R.uniform(1, 2)
    r = solve(exe, write(P, W))
    if r['rc'] or not is_tour(r['edges'], n):
        fail('no tour of %d cities at distances around %r: %s' % (n, scale, r['text'][-200:]))
'''),
 dict(id='clock_read_every_fourth_time', property='C13', needs='the limit passes at a sub-problem whose number is not a multiple of four',
      breaks='the clock is read for every fourth sub-problem only, so the search goes on after its time is up',
      edits=[(BB, '        while (subProblems.size != 0 && !time_limit_reached()) {', '        while (subProblems.size != 0 && (problem->exploredBBNodes % 4 != 0 || !time_limit_reached())) {')],
      files={'late.c': '''
#include <time.h>
#include <stdlib.h>
// the clock of a machine on which the time is up after so many readings
clock_t clock(void) { static long k; return k++ >= atol(getenv("LATE")) ? 700L * CLOCKS_PER_SEC : 0; }
'''},
      demo=PRE + '''
n = 12
exe = build(n, 0, flags=[os.path.join(HERE, 'late.c')])
R = random.Random(5)
for k in range(400):
    R = random.Random(k)
    W = [[0.] * n for _ in range(n)]
    for i in range(n):
        for j in range(i):
            W[i][j] = W[j][i] = R.uniform(.3, 1)
    p = write([(0., 0.)] * n, W)
    if solve(exe, p, env={'LATE': '1000000'}).get('explored', 0) >= 20:
        break
seen = {}
for late in range(1, 60):
    r = solve(exe, p, env={'LATE': str(late)})
    if r.get('interrupted'):
        seen.setdefault(r['explored'], []).append(late)
# one more reading before the limit is at most one more sub-problem
for a, b in zip(sorted(seen), sorted(seen)[1:]):
    if b > a + 1:
        fail('the search stops after %d or %d sub-problems, wherever the limit falls between' % (a, b))
'''),
 dict(id='row_one_too_long', property='C22', needs='an instance with exactly one more city than the build holds in one of its rows',
      breaks='a row with one city too many is accepted: a cell beyond the arrays of the graph is written',
      edits=[('tsp_instance_reader.c', '            if (j >= MAX_VERTEX_NUM) {', '            if (j > MAX_VERTEX_NUM) {')],
      demo=PRE + '''
n = 6
exe = build(n, 0''' + ASAN + ''')
p = write([(float(i), 0.) for i in range(n)], [[1. + abs(i - j) for j in range(n)] for i in range(n)])
L = open(p).read().split('\\n')
for row in range(1, n + 1):
    M = list(L)
    M[row] += '(2.5, 0.5);'
    q = os.path.join(D, 'long.csv')
    open(q, 'w').write('\\n'.join(M))
    r = solve(exe, q, env={'ASAN_OPTIONS': 'detect_leaks=0'})
    if 'runtime error' in r['err'] or 'AddressSanitizer' in r['err']:
        fail('row %d: %s' % (row, r['err'][:300]))
    if r['rc'] != 1 or os.path.exists(q + '.out') and 'Cost' in r['text']:
        fail('row %d has %d cities and the build holds %d: exit %d' % (row, n + 1, n, r['rc']))
'''),
 dict(id='longer_leftover_kept', property='C24', python=VT, needs='a longer temporary instance left in the folder by an earlier run that was stopped',
      breaks='the temporary instance is written over the one left behind without cutting it off: the rest of the old one is read as another instance',
      edits=[(HSP, "    with open(filepath, 'w+') as file:\n        file.writelines(str_grap)", "    with open(filepath, 'r+' if os.path.exists(filepath) else 'w+') as file:\n        file.writelines(str_grap)")],
      files=NET, demo=HYB + '''
P = [[(round(x, 3), round(y, 3)) for x, y in cities(20, s)] for s in (1, 2)]
for k in range(3):
    t = tree({20: P})
    g = os.path.join(t, 'main', 'graph-convnet-tsp', 'data', 'hyb_tsp')
    with open(os.path.join(g, 'test_20_nodes_temp.txt'), 'w') as f:        # an earlier run was stopped here
        f.write(''.join(' '.join('%r %r' % p for p in cities(20, 9 + k + j)) + ' output ' + ' '.join(map(str, range(1, 21))) + ' 1 \\n' for j in range(2)))
    r = run(['HybridSolver.py', '--num_nodes', '20', '--range_instances', '1-2', '--hybrid'], os.path.join(t, 'main'), ok=False, STUB_NET='1', STUB_SEED='3')
    for i in (1, 2):
        try:
            head, _ = matrix(t, 20, i)
        except (OSError, IndexError):
            fail('no matrix of instance %d: %s' % (i, (r.stdout + r.stderr)[-300:]))
        if any(abs(a - b) > 1e-9 for p, q in zip(head, P[i - 1]) for a, b in zip(p, q)):
            fail('the matrix of instance %d holds the cities %s' % (i, head))
    shutil.rmtree(t)
'''),
 dict(id='beam_starts_together', property='C31', python=VT, needs='predictions so sharp that the most likely first step has a log-probability below -100',
      breaks='the other tours of the beam are only penalised a little at the first step, so with sharp predictions the beam holds copies of the same tour',
      edits=[(GN + 'utils/beamsearch.py', "beam_lk[:, 1:] = -1e20 * torch.ones", "beam_lk[:, 1:] = -1e2 * torch.ones")],
      files=NET, demo=LIB + '''
from utils.beamsearch import Beamsearch
F, L = torch.FloatTensor, torch.LongTensor
n, beam = 6, 4
for seed in range(10):
    R = np.random.RandomState(seed)
    lp = -R.uniform(101, 300, (1, n, n))
    B = Beamsearch(beam, 1, n, F, L, 'logits', False)
    y = torch.FloatTensor(lp)
    B.advance(y.gather(1, B.get_current_state()))
    got = sorted(int(v) for v in B.next_nodes[-1].numpy()[0])
    best = sorted(int(v) for v in np.argsort(-np.where(np.arange(n) == 0, -1e9, lp[0, 0]))[:beam])
    if got != best:
        fail('after the first step the beam is at %s, the most likely steps lead to %s' % (got, best))
'''),
 dict(id='keys_compared_in_single', property='C16', needs='a decrease of a key below that of its parent by less than single precision can tell',
      breaks='a node is not moved up when its new key is below that of its parent only in double precision: the order of the heap is broken',
      edits=[('data_structures/fibonacci_heap.c', 'if(node->parent != NULL && node->value < node->parent->value){', 'if(node->parent != NULL && (float) node->value < (float) node->parent->value){')],
      files={'heap.c': '''
#include "data_structures/fibonacci_heap.h"
#include "stdio.h"
#include "stdlib.h"
int main(void) {
    for (unsigned seed = 1; seed < 300; seed++) {
        static OrdTreeNode nodes[40];
        FibonacciHeap h; double key[40]; int in[40], n = 40;
        srand(seed);
        create_fibonacci_heap(&h);
        for (int i = 0; i < n; i++) {
            key[i] = 1 + 1e-9 * (rand() % 1000 + 1000); in[i] = 1;
            create_insert_node(&h, &nodes[i], i, key[i]);
        }
        for (int left = n; left > 0; left--) {
            int k = extract_min(&h), b = -1;
            for (int i = 0; i < n; i++) if (in[i] && (b < 0 || key[i] < key[b])) b = i;
            if (k < 0 || !in[k] || key[k] != key[b]) { printf("extracted %.12f, the minimum is %.12f\\n", k < 0 ? -1. : key[k], key[b]); return 1; }
            in[k] = 0;
            for (int i = 0; i < n; i++) if (in[i] && rand() % 4 == 0) { key[i] -= 1e-9 * (rand() % 300); decrease_value(&h, &nodes[i], key[i]); }
        }
    }
    return 0;
}
'''}, demo=PRE + PROG % (40, 0, 'heap.c') + ')' + RUNIT),
 dict(id='values_of_seven_decimals', property='C25', python=VT, needs='two cities closer than a twentieth of a millionth, or a very small probability',
      breaks='distances and probabilities are rounded to seven decimals on their way to the matrix: very close cities get no edge between them',
      edits=[(GM, "arr_combined = np.stack((x_edges_values, y_probs), axis=1).astype('U')", "arr_combined = np.stack((x_edges_values, y_probs), axis=1).round(7).astype('U')")],
      files=NET, demo=HYB + '''
n = 20
P = cities(n, 4)
P[3] = (P[2][0] + 3e-8, P[2][1])
t = tree({n: [P]})
solve(t, n, '1', True)
_, W = matrix(t, n, 1)
if abs(W[2][3][0] - 3e-8) > 1e-9:
    fail('cities at distance 3e-8 are written at %r' % W[2][3][0])
'''),
]
