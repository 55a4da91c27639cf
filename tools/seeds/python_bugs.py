import os
ST = '/verif/harness/stubs'


def stubs(*names):
    out = {}
    for n in names:
        p = os.path.join(ST, n)
        for f in ([p] if os.path.isfile(p) else [os.path.join(d, x) for d, _, fs in os.walk(p) for x in fs if x.endswith('.py')]):
            out['standins/' + os.path.relpath(f, ST)] = open(f).read()
    return out


VT = '/opt/veriftools/pyvenv/bin/python3'
HSP, GM = 'HybridSolver.py', 'graph-convnet-tsp/main.py'
GN = 'graph-convnet-tsp/'
AN = '../results/AdjacencyMatrix/analyzer.py'
CV = '../../CplexSolver/Data/TSPLIB/converter_tsp_to_dat.py'
PRE = '''
import json, math, os, random, re, shutil, subprocess, sys, tempfile, atexit
HERE = os.path.dirname(os.path.abspath(__file__))
HS = os.path.join(os.getcwd(), 'src', 'HybridSolver')
GC = os.path.join(HS, 'main', 'graph-convnet-tsp')
D = tempfile.mkdtemp(prefix='demo_')
atexit.register(shutil.rmtree, D, True)
ENV = dict(os.environ, PYTHONPATH=os.path.join(HERE, 'standins'), PYTHONDONTWRITEBYTECODE='1')

def fail(msg):
    print('FAIL:', msg)
    sys.exit(1)

def run(cmd, cwd, ok=True, **k):
    r = subprocess.run([sys.executable] + cmd, cwd=cwd, env=dict(ENV, **k), capture_output=True, text=True, timeout=250)
    if ok and r.returncode:
        fail('%s: %s' % (cmd, (r.stdout + r.stderr)[-900:]))
    return r
'''
HYB = PRE + '''
def tree(points):
    """A copy of the solver, with a data set of the instances."""
    t = os.path.join(D, 'tree')
    shutil.copytree(HS, t, ignore=shutil.ignore_patterns('cmake-build*', 'data', 'results', '__pycache__'))
    d = os.path.join(t, 'main', 'graph-convnet-tsp', 'data', 'hyb_tsp')
    os.makedirs(d)
    b = os.path.join(t, 'bin')
    os.makedirs(b)
    with open(os.path.join(b, 'python3'), 'w') as f:
        f.write('#!/bin/sh\\nexec %s "$@"\\n' % sys.executable)
    os.chmod(os.path.join(b, 'python3'), 0o755)
    ENV['PATH'] = b + ':' + ENV['PATH']
    for n, L in points.items():
        with open(os.path.join(d, 'test_%d_nodes.txt' % n), 'w') as f:
            for P in L:
                f.write(' '.join('%r %r' % p for p in P) + ' output ' + ' '.join(str(i + 1) for i in list(range(n)) + [0]) + ' \\n')
    for m in (20, 50, 100):
        g = os.path.join(t, 'main', 'graph-convnet-tsp')
        c = json.load(open(os.path.join(g, 'configs', 'tsp%d.json' % m)))
        c.update(expt_name='tsp%d' % m, num_nodes=m)
        os.makedirs(os.path.join(g, 'logs', 'tsp%d' % m))
        json.dump(c, open(os.path.join(g, 'logs', 'tsp%d' % m, 'config.json'), 'w'))
        open(os.path.join(g, 'logs', 'tsp%d' % m, 'best_val_checkpoint.tar'), 'w').close()
    return t

def solve(t, n, rng, hybrid):
    run(['HybridSolver.py', '--num_nodes', str(n), '--range_instances', rng] + (['--hybrid'] if hybrid else []), os.path.join(t, 'main'), STUB_NET='1', STUB_SEED='3')

def matrix(t, n, i):
    with open(os.path.join(t, 'data', 'AdjacencyMatrix', 'tsp_%d_nodes' % n, 'tsp_test_%d.csv' % i)) as f:
        L = f.read().strip().split('\\n')
    pair = lambda s: [tuple(float(v) for v in c.strip('() ').split(',')) for c in s.split(';') if c.strip()]
    return pair(L[0]), [pair(l) for l in L[1:]]

def report(t, n, i, hybrid):
    with open(os.path.join(t, 'results', 'AdjacencyMatrix', 'tsp_%d_nodes_%s' % (n, 'hybrid' if hybrid else 'classic'), 'tsp_result_%d.txt' % i)) as f:
        s = f.read()
    m = re.search(r'SUBPROBLEM with cost = (\\S+), type = (\\S+),', s)
    return s, float(m.group(1)), re.findall(r'(\\d+) <-> (\\d+)', s[m.end():])

def cities(n, seed):
    R = random.Random(seed)
    return [(R.random(), R.random()) for _ in range(n)]
'''
FAIL = '''
def data(t, n, L):
    with open(os.path.join(t, 'main', 'graph-convnet-tsp', 'data', 'hyb_tsp', 'test_%d_nodes.txt' % n), 'w') as f:
        for P in L:
            f.write(' '.join('%r %r' % p for p in P) + ' output ' + ' '.join(str(i + 1) for i in list(range(n)) + [0]) + ' \\n')

# a program that does something else first; the result puts the old one back
def wrap(t, name, what):
    f = os.path.join(t, 'bin', name)
    old = open(f).read() if os.path.exists(f) else None
    real = sys.executable if name == 'python3' else shutil.which(name)
    def write(s):
        with open(f, 'w') as o:
            o.write(s)
        os.chmod(f, 0o755)
    write('#!/bin/sh\\n%s\\nexec %s "$@"\\n' % (what, real))
    return lambda: write(old or '#!/bin/sh\\nexec %s "$@"\\n' % real)
'''
NET = stubs('torch', 'sklearn', 'sklearn_extra', 'matplotlib', 'sitecustomize.py', 'stubnet.py')
LIB = PRE + '''
G = os.path.join(D, 'g')
shutil.copytree(GC, G, ignore=shutil.ignore_patterns('data', '__pycache__', 'logs'))
sys.path[:0] = [G, os.path.join(HERE, 'standins')]
os.chdir(G)
import numpy as np
import torch
'''

BUGS = [
 dict(id='stale_temp_instance', property='C24', python=VT, needs='a temporary instance left in the folder by a hybrid run of the same size that was stopped',
      breaks='the instance given to the network is not the one asked for but the one an earlier, interrupted run left behind, and its matrix and report are written under the requested number',
      edits=[(HSP, "    with open(filepath, 'w+') as file:\n        file.writelines(str_grap)\n        file.flush()\n        os.fsync(file.fileno())\n",
              "    if not os.path.exists(filepath):\n        with open(filepath, 'w+') as file:\n            file.writelines(str_grap)\n            file.flush()\n            os.fsync(file.fileno())\n")],
      files=NET, demo=HYB + '''
P = [cities(6, 1), cities(6, 2)]
t = tree({6: P})
g = os.path.join(t, 'main', 'graph-convnet-tsp', 'data', 'hyb_tsp')
with open(os.path.join(g, 'test_6_nodes_temp.txt'), 'w') as f:        # an earlier run of instance 2 was stopped here
    f.write(open(os.path.join(g, 'test_6_nodes.txt')).readlines()[1])
solve(t, 6, '1-1', True)
head, _ = matrix(t, 6, 1)
if any(abs(a - b) > 1e-9 for p, q in zip(head, P[0]) for a, b in zip(p, q)):
    fail('the matrix of instance 1 holds the cities %s' % head)
'''),
 dict(id='build_not_reconfigured', property='C24', python=VT, needs='a second run in the same tree with another mode or fewer or more cities',
      breaks='the build folder is configured once, so later runs use a solver built for the first size and mode',
      edits=[(HSP, "        subprocess.check_call(cmake_command)\n", "        if not os.path.exists(build_directory + \"/Makefile\"):\n            subprocess.check_call(cmake_command)\n")],
      files=NET, demo=HYB + '''
t = tree({6: [cities(6, 1)], 9: [cities(9, 5)]})
solve(t, 6, '1', False)
run(['HybridSolver.py', '--num_nodes', '9', '--range_instances', '1'], os.path.join(t, 'main'), ok=False)
try:
    s, cost, edges = report(t, 9, 1, False)
except (OSError, AttributeError):
    fail('nine cities, after a run on six: no report')
P = cities(9, 5)
import itertools
best = min(sum(math.dist(P[a], P[b]) for a, b in zip((0,) + p, p + (0,))) for p in itertools.permutations(range(1, 9)))
if abs(cost - best) > 1e-4:
    fail('nine cities, after a run on six: cost %r, the optimum is %r' % (cost, best))
'''),
 dict(id='matrix_six_decimals', property='C24', python=VT, needs='two cities closer than half a millionth',
      breaks='the distances are written with six decimals, so the matrix is not that of the cities, and close cities get no edge between them',
      edits=[(HSP, 'f.write(f"({adj_matrix[k][j]}, 0);")', 'f.write(f"({adj_matrix[k][j]:.6f}, 0);")')],
      files=NET, demo=HYB + '''
P = cities(7, 4)
P[3] = (P[2][0] + 3e-7, P[2][1])
t = tree({7: [P]})
solve(t, 7, '1', False)
_, W = matrix(t, 7, 1)
if abs(W[2][3][0] - math.dist(P[2], P[3])) > 1e-9:
    fail('cities at distance %r are written at %r' % (math.dist(P[2], P[3]), W[2][3][0]))
'''),
 dict(id='first_copies_only', property='C25', python=VT, needs='fewer than half as many cities as the network has inputs, and a higher probability on a later copy of a city',
      breaks='only the first copy of each city is considered when the probabilities of the copies are merged',
      edits=[(GM, "            for j in range(num_nodes, model_size):\n", "            for j in range(num_nodes, min(model_size, 2 * num_nodes)):\n")],
      files=NET, demo=HYB + '''
n, m = 5, 20
t = tree({n: [cities(n, s) for s in range(4)]})
solve(t, n, '1-4', True)
sys.path[:0] = [os.path.join(HERE, 'standins')]
os.environ.update(STUB_NET='1', STUB_SEED='3')
import stubnet
p = stubnet.probs(m)
for i in range(1, 5):
    _, W = matrix(t, n, i)
    for a in range(n):
        for b in range(n):
            if a != b:
                want = max(float(p[a][j]) for j in range(b, m, n))
                if abs(W[a][b][1] - want) > 1e-6:
                    fail('probability of %d-%d is %r, expected %r' % (a, b, W[a][b][1], want))
'''),
 dict(id='closing_edge_to_first_city', property='C30', python=VT, needs='a tour in the data set that does not start at the first city',
      breaks='the closing edge of the tour is set between its last city and the first city of the instance, not the first of the tour',
      edits=[(GN + 'utils/google_tsp_reader.py', "edges_target[j][tour_nodes[0]] = 1\n            edges_target[tour_nodes[0]][j] = 1\n            tour_len += W_val[j][tour_nodes[0]]",
              "edges_target[j][0] = 1\n            edges_target[0][j] = 1\n            tour_len += W_val[j][0]")],
      files=NET, demo=LIB + '''
from utils.google_tsp_reader import GoogleTSPReader
n = 9
R = random.Random(3)
P = [(R.random(), R.random()) for _ in range(n)]
for t in ([0, 3, 1, 2, 7, 8, 5, 4, 6], [4, 3, 1, 2, 7, 0, 5, 8, 6]):
    with open('one.txt', 'w') as f:
        f.write(' '.join('%r %r' % p for p in P) + ' output ' + ' '.join(str(k + 1) for k in t + t[:1]) + ' \\n')
    B = next(iter(GoogleTSPReader(n, -1, batch_size=1, filepath='one.txt')))
    want = np.zeros((n, n))
    for k in range(n):
        want[t[k]][t[k - 1]] = want[t[k - 1]][t[k]] = 1
    if (B.edges_target[0] != want).any() or abs(B.tour_len[0] - sum(math.dist(P[t[k]], P[t[k - 1]]) for k in range(n))) > 1e-9:
        fail('the target is not the tour %s' % t)
'''),
 dict(id='last_of_the_beam', property='C31', python=VT, needs='a shortest tour in the last position of the beam',
      breaks='the last tour of the beam is not considered for the shortest one',
      edits=[(GN + 'utils/model_utils.py', 'for pos in range(1, beam_size):', 'for pos in range(1, beam_size - 1):')],
      files=NET, demo=LIB + '''
from utils.beamsearch import Beamsearch
from utils.model_utils import beamsearch_tour_nodes_shortest
n, beam = 7, 4
F, L = torch.FloatTensor, torch.LongTensor
for seed in range(60):
    R = np.random.RandomState(seed)
    z = R.randn(1, n, n, 2)
    P = R.rand(n, 2)
    Dm = np.sqrt(((P[:, None] - P[None]) ** 2).sum(2))
    ln = lambda t: sum(Dm[t[k]][t[(k + 1) % n]] for k in range(n))
    t = [int(v) for v in beamsearch_tour_nodes_shortest(torch.FloatTensor(z), torch.FloatTensor(Dm[None]), beam, 1, n, F, L).numpy()[0]]
    y = torch.nn.functional.softmax(torch.FloatTensor(z), dim=3)[:, :, :, 1]
    B = Beamsearch(beam, 1, n, F, L, 'raw', False)
    for _ in range(n - 1):
        B.advance(y.gather(1, B.get_current_state()))
    H = [[int(v) for v in B.get_hypothesis(p * torch.ones(1, 1).type(L)).numpy()[0]] for p in range(beam)]
    best = min(ln(h) for h in H if sorted(h) == list(range(n)))
    if ln(t) > best + 1e-6:
        fail('the beam holds a tour of %r, the one returned as shortest is %r' % (best, ln(t)))
'''),
 dict(id='gate_sum_floor', property='C32', python=VT, needs='a node with nearly closed gates',
      breaks='the mean aggregation is damped: the sum of the gates is raised by 0.05, which shows when few gates are open',
      edits=[(GN + 'models/gcn_layers.py', '1e-20', '0.05')],
      files=NET, demo=LIB + '''
from models.gcn_layers import NodeFeatures
torch.manual_seed(1)
F = NodeFeatures(4, 'mean')
x = torch.randn(1, 3, 4)
g = torch.FloatTensor(np.full((1, 3, 3, 4), 1e-3))
y = F(x, g).numpy()
U, V = F.U, F.V
want = x.numpy() @ U.weight.numpy().T + U.bias.numpy() + (x.numpy() @ V.weight.numpy().T + V.bias.numpy()).mean(axis=1, keepdims=True)
if np.abs(y - want).max() > 1e-3:
    fail('the mean over the neighbours is off by %r when the gates are nearly closed' % float(np.abs(y - want).max()))
'''),
 dict(id='profile_counts_unresolved', property='C26', python=VT, needs='an instance that the classic solver did not finish',
      breaks='the cumulative profile counts the instances the classic solver did not resolve as finished at their last improvement',
      edits=[(AN, "        for _, instance_solutions in cla_solutions.items():\n            if instance_solutions[0] == 1:\n                last_time = instance_solutions[1][-1][1]\n                if last_time <= time:\n                    sol_two_count += 1\n",
              "        for _, instance_solutions in cla_solutions.items():\n            last_time = instance_solutions[1][-1][1]\n            if last_time <= time:\n                sol_two_count += 1\n")],
      files=stubs('pandas.py', 'matplotlib'), demo=PRE + '''
shutil.copy(os.path.join(HS, 'results', 'AdjacencyMatrix', 'analyzer.py'), D)
R = random.Random(1)
for mode in ('hybrid', 'classic'):
    d = os.path.join(D, 'tsp_10_nodes_' + mode)
    os.makedirs(d)
    for i in range(1, 13):
        un = mode == 'classic' and i <= 4
        t = R.uniform(1, 5)
        with open(os.path.join(d, 'tsp_result_%d.txt' % i), 'w') as f:
            f.write('Updated best value: %f, at time: %f\\n' % (R.uniform(5, 6), t / 2))
            f.write('elapsed time = %fs  generated BBNodes = %d,  explored BBNodes = %d and max tree level = %d, interrupted = %s\\n' % (t, R.randrange(9, 99), R.randrange(9, 99), R.randrange(9), 'TRUE' if un else 'FALSE'))
            f.write('SUBPROBLEM with cost = %f, type = CLOSED_1TREE, level of the BB tree = %d, prob_tour = %f, BBNode number = %d and time to obtain = %fs\\n' % (R.uniform(5, 6), R.randrange(9), R.random(), R.randrange(99), t / 2))
            f.write('\\nTime taken: %rs\\n' % (t + .5))
run(['analyzer.py', '--num_nodes', '10', '--perf_prof'], D)
L = open(os.path.join(D, 'mean_results', '10_nodes', 'cumulative_profile.csv')).read().strip().split('\\n')
if abs(float(L[-1].split(',')[2]) - 8 / 12) > 1e-9:
    fail('in the end the classic solver has finished %s of the instances, expected 8 of 12' % L[-1].split(',')[2])
'''),
 dict(id='interval_sample_std', property='C26', python=VT, needs='few common instances, and a comparison of the intervals with their definition',
      breaks='the confidence interval of the hybrid mode is computed with another deviation than that of the classic one',
      edits=[(AN, '"hyb_conf_int": np.std(values_hyb) * 1.96', '"hyb_conf_int": np.std(values_hyb, ddof=1) * 1.96')],
      files=stubs('pandas.py', 'matplotlib'), demo=PRE + '''
shutil.copy(os.path.join(HS, 'results', 'AdjacencyMatrix', 'analyzer.py'), D)
R = random.Random(1)
vals = [(float(R.randrange(1, 50)), R.randrange(10, 99)) for _ in range(10)]
for mode in ('hybrid', 'classic'):
    d = os.path.join(D, 'tsp_10_nodes_' + mode)
    os.makedirs(d)
    for i, (t, g) in enumerate(vals):
        f = 0 if mode == 'hybrid' else (50 if i % 2 else -50)
        e = 0 if mode == 'hybrid' else 1
        with open(os.path.join(d, 'tsp_result_%d.txt' % (i + 1)), 'w') as h:
            h.write('elapsed time = %fs  generated BBNodes = %d,  explored BBNodes = %d and max tree level = %d, interrupted = FALSE\\n' % (t + e, g + 1 + e, g + e, 3 + e + i))
            h.write('SUBPROBLEM with cost = %f, type = CLOSED_1TREE, level of the BB tree = %d, prob_tour = %f, BBNode number = %d and time to obtain = %fs\\n' % (5 + t + e, 2 + e, .1 + e / 2 + i / 99, g + e, t / 2 + e))
            h.write('\\nTime taken: %rs\\n' % (t + .5 + e))
run(['analyzer.py', '--num_nodes', '10'], D)
s = open(os.path.join(D, 'mean_results', '10_nodes', 'mean_results.txt')).read()
row = re.search(r'^explored_bbnodes +(.*)$', s, re.M).group(1).split()
# the values of the two modes differ by a constant: so must the means, and the intervals are the same
if abs(float(row[1]) - float(row[3])) > 1e-9:
    fail('intervals %s and %s of two sets of values that differ by one everywhere' % (row[1], row[3]))
'''),
 dict(id='converter_header_spaces', property='C27', python=VT, needs='white space around the header of the coordinates',
      breaks='the section of the coordinates is not found when there is white space around its header: an empty matrix is written',
      edits=[(CV, 'if line.strip() == "NODE_COORD_SECTION":', 'if line == "NODE_COORD_SECTION\\n":')],
      files=stubs('tsplib95.py'), demo=PRE + '''
shutil.copy(os.path.join(os.getcwd(), 'src', 'CplexSolver', 'Data', 'TSPLIB', 'converter_tsp_to_dat.py'), D)
with open(os.path.join(D, 'a.tsp'), 'w') as f:
    f.write('NAME: a\\nTYPE: TSP\\nDIMENSION: 3\\nEDGE_WEIGHT_TYPE: EUC_2D\\nNODE_COORD_SECTION \\n1 0 0\\n2 3 4\\n3 0 8\\nEOF\\n')
run(['converter_tsp_to_dat.py', 'euclidean'], D)
s = open(os.path.join(D, 'a.dat')).read()
if not re.match(r'n=3;', s) or len(re.findall(r'5\\.0', s)) != 4:
    fail('three cities are written as %r' % s)
'''),
 dict(id='split_minus_zero', property='C30', python=VT, needs='a validation set as large as the data set or larger',
      breaks='when nothing is left for training, the training set is the whole data set',
      edits=[(GN + 'data/split_train_val.py', 'train_data = filedata[opts.val_size:]', 'train_data = filedata[-max(len(filedata) - opts.val_size, 0):]')],
      demo=PRE + '''
with open(os.path.join(D, 'all.txt'), 'w') as f:
    f.write(''.join('0.%d 0.5 0.1 0.2 0.3 0.4 output 1 2 3 1 \\n' % k for k in range(1, 8)))
for v in (0, 3, 6, 7):
    run([os.path.join(GC, 'data', 'split_train_val.py'), '--num_nodes', '3', '--val_size', str(v), '--filename', 'all.txt'], D)
    a, b = (open(os.path.join(D, 'tsp3_%s_concorde.txt' % w)).readlines() for w in ('val', 'train'))
    if a + b != open(os.path.join(D, 'all.txt')).readlines():
        fail('%d instances split at %d into %d and %d' % (7, v, len(a), len(b)))
'''),
 dict(id='mtz_upper_half', property='C33', python=VT, needs='an instance with four or more cities in two groups',
      breaks='the order constraints are stated for pairs i < j only, so cycles that close downwards are accepted',
      edits=[('../../CplexSolver/TSPmtz.mod', 'j >=2 && j!=i', 'j > i')],
      demo=PRE + r'''
import itertools
import numpy as np
from scipy.optimize import LinearConstraint, Bounds, milp
s = open(os.path.join('src', 'CplexSolver', 'TSPmtz.mod')).read()
s = re.sub(r'/\*.*?\*/|//[^\n]*', '', s, flags=re.S)
# the cycles 1-2-3 and 4-5-6: is there an order u that satisfies every constraint on u ?
n = 6
x = {(1, 2), (2, 3), (3, 1), (4, 5), (5, 6), (6, 4)}
m = re.search(r'forall\s*\(\s*(\w+)\s+in\s+cities\s*:\s*([^)]*)\)\s*forall\s*\(\s*(\w+)\s+in\s+cities\s*:\s*([^)]*)\)\s*(u[^;]*);', s)
if not m:
    print('the model is written in another way: nothing to show')
    sys.exit(0)
a, c1, b, c2, con = m.groups()
py = lambda t: re.sub(r'&&', ' and ', re.sub(r'\|\|', ' or ', t))
left, right = con.split('<=')
A, up = [], []
for i in range(1, n + 1):
    for j in range(1, n + 1):
        e = {a: i, b: j, 'n': n}
        if eval(py(c1), e) and eval(py(c2), e):
            row = []
            for k in range(1, n + 1):
                e['u'] = [0] * (n + 1)
                e['x'] = [[float((p, q) in x) for q in range(n + 1)] for p in range(n + 1)]
                z = eval(left, e)
                e['u'][k] = 1
                row.append(eval(left, e) - z)
            A.append(row)
            up.append(eval(right, e) - z)
r = milp(np.zeros(n), constraints=LinearConstraint(np.array(A), -np.inf, np.array(up)), bounds=Bounds(np.zeros(n), np.full(n, np.inf)))
if r.status == 0:
    fail('the order constraints accept two cycles of three cities, with u = %s' % r.x)
'''),
 dict(id='network_failure_ignored', property='C35', python=VT, needs='a network that fails on an instance whose matrix is there from an earlier run',
      breaks='the failure of the network is not noticed, and the matrix of the earlier run is solved and reported for the present data',
      edits=[(HSP, '                cwd="./graph-convnet-tsp", check=True)', '                cwd="./graph-convnet-tsp")')],
      files=NET, demo=HYB + FAIL + '''
P, Q = [cities(6, 1)], [cities(6, 2)]
t = tree({6: P})
solve(t, 6, '1-1', True)
data(t, 6, Q)
wrap(t, 'python3', 'case "$*" in *tsp_test_1.csv*) exit 9;; esac')
r = run(['HybridSolver.py', '--num_nodes', '6', '--range_instances', '1-1', '--hybrid'], os.path.join(t, 'main'), ok=False, STUB_NET='1', STUB_SEED='3')
if r.returncode == 0:
    fail('the network failed, and the run ends normally')
'''),
 dict(id='build_failure_ignored', property='C35', python=VT, needs='a build that fails, with the executable of an earlier build of another size in place',
      breaks='a failed build is printed but not acted upon, and the instances are solved with the executable that an earlier run left',
      edits=[(HSP, '        print("Build failed:")\n        print(e.output)\n        raise Exception("Build failed")\n', '        print("Build failed:")\n        print(e.output)\n')],
      files=NET, demo=HYB + FAIL + '''
t = tree({6: [cities(6, 1)]})
solve(t, 6, '1', False)
wrap(t, 'make', 'exit 2')
r = run(['HybridSolver.py', '--num_nodes', '6', '--range_instances', '1'], os.path.join(t, 'main'), ok=False)
if r.returncode == 0:
    fail('the build failed, and the run ends normally')
'''),
 dict(id='temp_instance_appended', property='C35', python=VT, needs='a hybrid run of the same size whose network failed or was killed before',
      breaks='the temporary instance is appended to what an interrupted run left in the folder, so the network works on the earlier instance',
      edits=[(HSP, "    with open(filepath, 'w+') as file:\n", "    with open(filepath, 'a+') as file:\n")],
      files=NET, demo=HYB + FAIL + '''
P = [cities(6, 1), cities(6, 2)]
t = tree({6: P})
off = wrap(t, 'python3', 'case "$*" in *tsp_test_2.csv*) exit 9;; esac')
run(['HybridSolver.py', '--num_nodes', '6', '--range_instances', '2-2', '--hybrid'], os.path.join(t, 'main'), ok=False, STUB_NET='1', STUB_SEED='3')
off()
solve(t, 6, '1-1', True)
head, _ = matrix(t, 6, 1)
if any(abs(a - b) > 1e-9 for p, q in zip(head, P[0]) for a, b in zip(p, q)):
    fail('after a run that failed on instance 2, the matrix of instance 1 holds the cities %s' % head)
'''),
 dict(id='matrix_kept_if_there', property='C35', python=VT, needs='a network killed while it writes its matrix, and a second run on the same instance',
      breaks='the network is not run for an instance whose matrix file already holds its cities, so a matrix cut short by an interruption is used from then on',
      edits=[(HSP, "            create_temp_file(num_nodes, str_graph)\n            absolute_python_path", "            create_temp_file(num_nodes, str_graph)\n            known = os.path.exists(absolute_input_path) and get_csv_nodes(absolute_input_path) == graph\n            absolute_python_path"),
             (HSP, "            result = subprocess.run(\n                ['python3', absolute_python_path,", "            result = subprocess.run(['true']) if known else subprocess.run(\n                ['python3', absolute_python_path,")],
      files=NET, demo=HYB + FAIL + '''
P = [cities(6, 1)]
t = tree({6: P})
solve(t, 6, '1-1', True)
head, W = matrix(t, 6, 1)
f = os.path.join(t, 'data', 'AdjacencyMatrix', 'tsp_6_nodes', 'tsp_test_1.csv')
L = open(f).read().split('\\n')
with open(f, 'w') as o:            # what a network killed in the middle of its file leaves
    o.write('\\n'.join(L[:4]))
run(['HybridSolver.py', '--num_nodes', '6', '--range_instances', '1-1', '--hybrid'], os.path.join(t, 'main'), ok=False, STUB_NET='1', STUB_SEED='3')
head, X = matrix(t, 6, 1)
if X != W:
    fail('after a network killed in the middle of its file, the matrix of the next run is not that of the instance')
'''),
]
