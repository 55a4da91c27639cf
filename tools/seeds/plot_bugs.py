import runpy
PB = runpy.run_path('/verif/tools/seeds/python_bugs.py')
VT, NET, LIB, GN = PB['VT'], PB['NET'], PB['LIB'], PB['GN']
PU, CF, GU = GN + 'utils/plot_utils.py', GN + 'config.py', GN + 'utils/graph_utils.py'
DRAW = LIB + '''
import numpy as np, torch
import matplotlib.pyplot as plt
import networkx as nx
FIG = []
class Ax(object):
    def __init__(self):
        self.edges, self.title, self.pos = [], None, None
    def set_title(self, t, *a, **k):
        self.title = t
class Fig(object):
    def __init__(self, *a, **k):
        self.ax = []
        FIG.append(self)
    def add_subplot(self, *a, **k):
        self.ax.append(Ax())
        return self.ax[-1]
def nodes(G, pos, *a, **k):
    FIG[-1].ax[-1].pos = pos
def edges(G, pos, edgelist=None, edge_color='k', **k):
    FIG[-1].ax[-1].edges.append((edgelist, edge_color))
plt.figure, plt.show, plt.gca = Fig, lambda *a, **k: None, lambda: FIG[-1].ax[-1]
nx.draw_networkx_nodes, nx.draw_networkx_edges = nodes, edges
nx.from_numpy_matrix = getattr(nx, 'from_numpy_matrix', nx.from_numpy_array)
plt.cm = type('Cm', (), {'Reds': None})
from utils import plot_utils as U
R = np.random.RandomState(4)
n, b = 6, 4
C = R.rand(b, n, 2)
W = np.sqrt(((C[:, :, None] - C[:, None]) ** 2).sum(3))
def matrix(t):
    M = np.zeros((n, n))
    for k in range(n):
        M[t[k - 1]][t[k]] = M[t[k]][t[k - 1]] = 1
    return M
true, beam = [list(R.permutation(n)) for _ in range(b)], [list(R.permutation(n)) for _ in range(b)]
T = np.array([matrix(t) for t in true])
L = R.randn(b, n, n, 2) * 2
Y = np.exp(L) / np.exp(L).sum(3, keepdims=True)
X = np.ones((b, n, n)) + np.eye(n)
def pairs(es):
    return {frozenset((int(i), int(j))) for i, j in es}
def ones(M):
    return {frozenset((i, j)) for i in range(n) for j in range(n) if M[i][j] == 1}
def length(t, q):
    return sum(W[q][t[k - 1]][t[k]] for k in range(n))
A = [torch.Tensor(C), torch.Tensor(X, dtype=np.int64), torch.Tensor(W), torch.Tensor(T, dtype=np.int64), torch.Tensor(L)]
for seed in range(20):
    np.random.seed(seed)
    del FIG[:]
    U.plot_predictions_beamsearch(*(A + [torch.Tensor(np.array(beam), dtype=np.int64)]), num_plots=3)
    for f in FIG:
        q = [q for q in range(b) if np.allclose([f.ax[0].pos[v] for v in range(n)], C[q], atol=1e-5)][0]
        heat = {}
        for es, c in f.ax[1].edges:
            heat.update({(int(e[0]), int(e[1])): float(x) for e, x in zip(es, c)})
        want = {(i, j): Y[q][i][j][1] for i in range(n) for j in range(n) if Y[q][i][j][1] > .25}
        if set(heat) != set(want) or any(abs(heat[e] - want[e]) > 1e-4 for e in want):
            fail('heat map of instance %d' % q)
        for ax, t, name in ((f.ax[0], true[q], 'Groundtruth'), (f.ax[2], beam[q], 'Beamsearch')):
            red = [e for es, c in ax.edges if c == 'r' for e in es]
            if pairs(red) != ones(matrix(t)):
                fail('%s of instance %d drawn with %s' % (name, q, red))
            if not ax.title.startswith(name) or abs(float(ax.title.split()[-1]) - length(t, q)) > 1e-3:
                fail('title %s, the tour is %.3f long' % (ax.title, length(t, q)))
'''
SET = LIB + '''
import config as C
base = json.load(open('configs/default.json'))
'''
BUGS = [
 dict(id='beam_of_the_position', property='C39', python=VT, needs='instances drawn in another order than they have in the batch',
      breaks='the beam search tour drawn is that of another instance', files=NET, demo=DRAW,
      edits=[(PU, '''        W_bs = tour_nodes_to_W(bs_nodes[idx].cpu().numpy())''', '''        W_bs = tour_nodes_to_W(bs_nodes[f_idx].cpu().numpy())''')]),
 dict(id='heat_of_one_direction', property='C39', python=VT, needs='an edge with a probability above a quarter in one direction and below it in the other',
      breaks='the heat map leaves out edges the network finds likely and shows the others with the probability of one direction only', files=NET, demo=DRAW,
      edits=[(PU, '''            for c in range(len(W)):
                if W[r][c] > 0.25:''', '''            for c in range(r + 1, len(W)):
                if W[r][c] > 0.25:''')]),
 dict(id='beam_length_of_the_truth', property='C39', python=VT, needs='a beam search tour that is not the optimal one',
      breaks='the length in the title of the beam search plot is not that of the tour drawn', files=NET, demo=DRAW,
      edits=[(PU, "'Beamsearch: {:.3f}'.format(W_to_tour_len(W_bs, W_val))", "'Beamsearch: {:.3f}'.format(W_to_tour_len(W_target, W_val))")]),
 dict(id='falsy_settings_ignored', property='C40', python=VT, needs='a network whose configuration sets something to zero, false or nothing where the default does not',
      breaks='such a setting keeps its default', files=NET, demo=SET + '''
own = {'num_neighbors': 0, 'decay_rate': 0.0, 'hidden_dim': 7, 'aggregation': ''}
json.dump(own, open('own.json', 'w'))
c = C.get_config('own.json')
for k in own:
    if c[k] != own[k] or getattr(c, k) != own[k]:
        fail('%s is %r, the file says %r' % (k, c[k], own[k]))
''', edits=[(CF, '''    config.update(Settings(json.load(open(filepath))))''', '''    own = Settings(json.load(open(filepath)))
    config.update({key: own[key] for key in own if own[key] or key not in config})''')]),
 dict(id='defaults_shared', property='C40', python=VT, needs='two networks configured in one process, the first with a setting the second does not have',
      breaks='the settings of one network, and changes made to them, become defaults of the next', files=NET, demo=SET + '''
json.dump({'hidden_dim': 300, 'mine': 1}, open('a.json', 'w'))
json.dump({'num_nodes': 50}, open('b.json', 'w'))
a = C.get_config('a.json')
a.gpu_id = '3'
b = C.get_config('b.json')
if dict(b) != dict(base, num_nodes=50) or dict(C.get_default_config()) != base:
    fail('the settings of b.json are %s' % dict(b))
''', edits=[(CF, '''    return Settings(json.load(open("./configs/default.json")))''', '''    if _defaults is None:
        globals()["_defaults"] = Settings(json.load(open("./configs/default.json")))
    return _defaults'''), (CF, '''def get_default_config():''', '''_defaults = None


def get_default_config():''')]),
 dict(id='rank_of_the_next_city', property='C30', python=VT, needs='a tour in which a city is far from the one before it, seen from itself only',
      breaks='the rank of the farthest neighbour is taken over one neighbour of each city', files=NET, demo=LIB + '''
import numpy as np
from utils.graph_utils import get_max_k
class B(object):
    pass
n = 7
for seed in range(300):
    R = np.random.RandomState(seed)
    P, t = R.rand(n, 2), R.permutation(n)
    W = np.sqrt(((P[:, None] - P[None]) ** 2).sum(2))
    T = np.zeros((n, n))
    for k in range(n):
        T[t[k - 1]][t[k]] = T[t[k]][t[k - 1]] = 1
    x = B()
    x.edges, x.edges_target, x.edges_values = np.ones((1, n, n)), T[None], W[None]
    class Set(object):
        num_nodes = n
        def __iter__(self):
            yield x
    want = max((W[i] < W[i][j]).sum() for i in range(n) for j in range(n) if T[i][j])
    got = get_max_k(Set(), 1)
    if got != want:
        fail('get_max_k is %s, not %s' % (got, want))
''', edits=[(GU, '''                for conn_idx in connections:
                    ks.append(''', '''                for conn_idx in connections[:1]:
                    ks.append(''')]),
]
