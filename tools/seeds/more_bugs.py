import runpy
B1 = runpy.run_path('/verif/tools/seeds/solver_bugs.py')
BB, PRE = B1['BB'], B1['PRE']
PB = runpy.run_path('/verif/tools/seeds/python_bugs.py')
VT, NET, HYB, HSP = (PB[k] for k in ('VT', 'NET', 'HYB', 'HSP'))
TIR = 'tsp_instance_reader.c'
E0 = 'graph->edges_matrix[j][i] = graph->edges[z];'

BUGS = [
 dict(id='probability_per_direction', property='C19', needs='a matrix whose probabilities differ between i-j and j-i, as those of the network do',
      breaks='the two entries of an edge in the matrix hold different probabilities, so the same edge has another probability when it is looked up from the other end',
      edits=[(TIR, '''                        graph->nodes[i].neighbours[graph->nodes[i].num_neighbours] = j;
                        graph->nodes[i].num_neighbours++;
                    }
                }''', '''                        graph->nodes[i].neighbours[graph->nodes[i].num_neighbours] = j;
                        graph->nodes[i].num_neighbours++;
                        graph->edges_matrix[i][j].prob = HYBRID ? prob : 0;
                    }
                }''')],
      files={'both.c': '''#include "tsp_instance_reader.h"
int main(int argc, char **argv) {
    static Graph graph;
    (void) argc;
    read_tsp_csv_file(&graph, argv[1]);
    for (unsigned e = 0; e < graph.num_edges; e++) {
        Edge *edge = &graph.edges[e];
        printf("%d %d %.17g %.17g %.17g\\n", edge->src, edge->dest, (double) edge->prob, (double) graph.edges_matrix[edge->src][edge->dest].prob,
               (double) graph.edges_matrix[edge->dest][edge->src].prob);
    }
    return 0;
}
'''}, demo=PRE + '''
R = random.Random(4)
n = 9
P = [(R.random(), R.random()) for _ in range(n)]
Q = [[R.random() for _ in range(n)] for _ in range(n)]
exe = build(n, 1, harness='both.c')
out = subprocess.run([exe, write(P, dist(P), Q)], capture_output=True, text=True, timeout=60).stdout
lines = [l.split() for l in out.split('\\n') if l]
if len(lines) != n * (n - 1) // 2:
    fail('%d edges' % len(lines))
for a, b, e, x, y in lines:
    if not e == x == y:
        fail('edge %s-%s has the probability %s, its entries in the matrix %s and %s' % (a, b, e, x, y))
'''),
 dict(id='types_of_greedy_tours', property='C10', needs='a hybrid run whose best tour is still the greedy one on probabilities, and that tour costs less than the nearest neighbour one',
      breaks='the best greedy tour is labelled as the nearest neighbour one although it is the one on probabilities',
      edits=[(BB, '''            problem->bestValue = best->value;
            problem->bestSolution = *best;''', '''            problem->bestValue = best->value;
            problem->bestSolution = *best;
            problem->bestSolution.type = nn_subProblem.type;''')],
      demo=PRE + '''
# the probabilities single out the best tour, which the nearest neighbour rule does not find
seen = 0
for k in range(40):
    R = random.Random(k)
    n = 8
    exe = build(n, 1) if k == 0 else exe
    P = [(R.random(), R.random()) for _ in range(n)]
    W = dist(P)
    best = min(itertools.permutations(range(1, n)), key=lambda p: sum(W[a][b] for a, b in zip((0,) + p, p + (0,))))
    t = (0,) + best
    Q = [[0.01] * n for _ in range(n)]
    for a, b in zip(t, t[1:] + t[:1]):
        Q[a][b] = Q[b][a] = .9
    nn = {}
    for s in range(n):
        left, at, c = set(range(n)) - {s}, s, 0.
        while left:
            j = min(left, key=lambda v: W[at][v])
            c += W[at][j]
            left.remove(j)
            at = j
        nn[s] = c + W[at][s]
    text = solve(exe, write(P, W, Q))['text']
    m = re.search(r'SUBPROBLEM with cost = (\\S+), type = (\\w+)', text)
    if m and m.group(2).startswith('CLOSED_NEAREST') and float(m.group(1)) < min(nn.values()) - 1e-3:
        seen += 1
        if m.group(2) != 'CLOSED_NEAREST_NEIGHBOR_HYBRID':
            fail('a tour of %s is called %s, the nearest neighbour tours cost %r' % (m.group(1), m.group(2), sorted(nn.values())))
if not seen:
    fail('no greedy tour reported')
'''),
 dict(id='time_since_the_first', property='C24', python=VT, needs='a hybrid run over several instances',
      breaks='the time taken by an instance includes that of the instances before it',
      edits=[(HSP, '''    for i in range(start_instance, end_instance + 1):
        start_time = time.time()
''', '''    start_time = time.time()
    for i in range(start_instance, end_instance + 1):
''')], files=NET, demo=HYB + '''
def cities(n, seed):
    R = random.Random(seed)
    return [(R.random(), R.random()) for _ in range(n)]
t = tree({6: [cities(6, s) for s in range(5)]})
solve(t, 6, '1-5', True)
took = []
for i in range(1, 6):
    with open(os.path.join(t, 'results', 'AdjacencyMatrix', 'tsp_6_nodes_hybrid', 'tsp_result_%d.txt' % i)) as h:
        took.append(float(re.search(r'Time taken: ([0-9.e-]+)s', h.read()).group(1)))
when = [os.path.getmtime(os.path.join(t, 'results', 'AdjacencyMatrix', 'tsp_6_nodes_hybrid', 'tsp_result_%d.txt' % i)) for i in range(1, 6)]
for i in range(1, 5):
    if took[i] > when[i] - when[i - 1] + .25 and took[i] > 1.4 * (when[i] - when[i - 1]):
        fail('instance %d takes %r s by its report, which is written %r s after the one before' % (i + 1, took[i], when[i] - when[i - 1]))
'''),
]
