"""Workload generation: TSP instances in the solver's own csv format (line 1 coordinates, then n rows of (w, p);).

Every family is chosen for something specific it does to the solver (see FAMILIES).  All randomness comes from the
seed given, so a case is identified by (n, family, prob, seed)."""
import math
import random


def _pts_uniform(R, n, s=1.0):
    return [(R.random() * s, R.random() * s) for _ in range(n)]


def fam_u(R, n):        # the distribution the repository is evaluated on
    return _pts_uniform(R, n), None


def fam_big(R, n):      # same shape, weights far above 1: absolute constants in the code stop being "large"
    return _pts_uniform(R, n, R.choice([50., 1000., 1e5, 1e7])), None


def fam_small(R, n):    # weights of the order of EPSILON
    return _pts_uniform(R, n, R.choice([0.2, 0.05])), None


def fam_grid(R, n):     # many exactly equal weights
    k = int(math.ceil(math.sqrt(n))) + 1
    c = [(i / k, j / k) for i in range(k) for j in range(k)]
    R.shuffle(c)
    return c[:n], None


def fam_grid_aff(R, n):     # grid with power-of-two spacing: ties exact in binary
    k = int(math.ceil(math.sqrt(n)))
    c = [(i / 8, j / 8) for i in range(k) for j in range(k)][:n]
    R.shuffle(c)
    return c, None


def fam_clu(R, n):      # clusters: deep trees, many fixed edges
    C = [(R.random(), R.random()) for _ in range(R.choice([2, 3]))]
    sd = R.choice([.02, .03, .08])
    return [(c[0] + R.gauss(0, sd), c[1] + R.gauss(0, sd)) for c in (R.choice(C) for _ in range(n))], None


def fam_line(R, n):     # collinear cities: every tour that goes and comes back is optimal
    return [(R.random(), 0.25) for _ in range(n)], None


def fam_circle(R, n):   # first 1-tree is close to a tour
    a = sorted(R.random() * 2 * math.pi for _ in range(n))
    R.shuffle(a)
    return [(math.cos(t), math.sin(t)) for t in a], None


def fam_star(R, n):     # one hub: 1-trees with one node of very high degree
    return [(0.5, 0.5)] + [(0.5 + .5 * math.cos(2 * math.pi * i / (n - 1)), 0.5 + .5 * math.sin(2 * math.pi * i / (n - 1)))
                           for i in range(n - 1)], None


def fam_rnd(R, n):      # no triangle inequality
    P = _pts_uniform(R, n)
    W = [[0.0] * n for _ in range(n)]
    for i in range(n):
        for j in range(i + 1, n):
            W[i][j] = W[j][i] = R.random() + .01
    return P, W


def fam_int(R, n):      # small integers: ties everywhere
    P = _pts_uniform(R, n)
    hi = R.choice([2, 4, 9])
    W = [[0.0] * n for _ in range(n)]
    for i in range(n):
        for j in range(i + 1, n):
            W[i][j] = W[j][i] = float(R.randint(1, hi)) / R.choice([1, 1, 1, 2])
    return P, W


def fam_hyperb(R, n):   # weights over several orders of magnitude
    P = _pts_uniform(R, n)
    W = [[0.0] * n for _ in range(n)]
    for i in range(n):
        for j in range(i + 1, n):
            W[i][j] = W[j][i] = 10 ** R.uniform(-3, 1.5)
    return P, W


def fam_trap(R, n):     # greedy traps: cheap edges whose completion is expensive
    P = _pts_uniform(R, n)
    perm = list(range(n))
    R.shuffle(perm)
    W = [[0.0] * n for _ in range(n)]
    for i in range(n):
        for j in range(i + 1, n):
            W[i][j] = W[j][i] = 1.0 + R.random()
    for i in range(n):
        a, b = perm[i], perm[(i + 1) % n]
        W[a][b] = W[b][a] = 0.6 + .1 * R.random()
    for i in range(0, n - 2, 2):
        a, b = perm[i], perm[(i + 2) % n]
        W[a][b] = W[b][a] = 0.3 + .1 * R.random()
    return P, W


def fam_sparse(R, n):   # incomplete graph, Hamiltonian by construction, every node has degree >= 2
    P, _ = fam_u(R, n)
    perm = list(range(n))
    R.shuffle(perm)
    keep = set()
    for i in range(n):
        keep.add(frozenset((perm[i], perm[(i + 1) % n])))
    d = R.choice([.15, .3, .5, .8])
    W = [[0.0] * n for _ in range(n)]
    for i in range(n):
        for j in range(i + 1, n):
            if frozenset((i, j)) in keep or R.random() < d:
                W[i][j] = W[j][i] = math.dist(P[i], P[j]) + 1e-3
    return P, W


def _weighted(R, n, edges):
    P, _ = fam_u(R, n)
    W = [[0.0] * n for _ in range(n)]
    perm = list(range(n))
    R.shuffle(perm)
    for i, j in edges:
        a, b = perm[i], perm[j]
        W[a][b] = W[b][a] = math.dist(P[a], P[b]) + 1e-3
    return P, W


def fam_g_cut(R, n):    # two dense parts that share one city: no tour, although every city has two neighbours or more
    k = R.randint(2, n - 3) if n > 5 else 2
    return _weighted(R, n, [(i, j) for i in range(n) for j in range(i + 1, n) if (i <= k and j <= k) or (i >= k and j >= k)])


def fam_g_bridge(R, n):     # two dense parts joined by one edge
    k = max(3, n // 2) if n >= 6 else n - 1
    return _weighted(R, n, [(i, j) for i in range(n) for j in range(i + 1, n) if (i < k) == (j < k)] + [(0, n - 1)])


def fam_g_bip(R, n):    # complete bipartite, with sides that differ: no tour
    k = R.randint(2, max(2, (n - 1) // 2))
    return _weighted(R, n, [(i, j) for i in range(k) for j in range(k, n)])


def fam_g_two(R, n):    # two components
    k = R.randint(3, n - 3) if n >= 6 else n - 1
    return _weighted(R, n, [(i, j) for i in range(n) for j in range(i + 1, n) if (i < k) == (j < k)])


def fam_g_cycle(R, n):      # a single tour, and at most one chord
    return _weighted(R, n, [(i, (i + 1) % n) for i in range(n)] + ([(0, n // 2)] if n > 3 and R.random() < .5 else []))


def fam_g_pend(R, n):       # a city with a single neighbour
    return _weighted(R, n, [(i, j) for i in range(n - 1) for j in range(i + 1, n - 1)] + [(0, n - 1)])


def fam_g_rand(R, n):       # random graphs around the Hamiltonicity threshold
    d = R.choice([.3, .4, .5, .6, .75])
    return _weighted(R, n, [(i, j) for i in range(n) for j in range(i + 1, n) if R.random() < d])


def fam_g_petersen(R, n):   # generalised Petersen graphs (n even), wheels without hub tours otherwise
    if n % 2 or n < 10:
        return _weighted(R, n, [(i, i + 1) for i in range(n - 2)] + [(n - 1, i) for i in range(n - 1)])
    m = n // 2
    return _weighted(R, n, list({tuple(sorted(e)) for i in range(m) for e in ((i, (i + 1) % m), (i, m + i), (m + i, m + (i + 2) % m))}))


def fam_e_near(R, n):       # all weights equal up to a few tolerances of the solver: sums differ by less than the tolerance
    a = R.choice([.25, .5, .9, 2, 4]) * 0.00127 * math.sqrt(n)
    P = _pts_uniform(R, n)
    W = [[0.0] * n for _ in range(n)]
    for i in range(n):
        for j in range(i + 1, n):
            W[i][j] = W[j][i] = 1 + a * R.random()
    return P, W


def fam_e_stair(R, n):      # the 1-trees get cheaper from city to city, each time by less than the tolerance
    step = R.choice([.4, .6, .7, .8, .95]) * 0.00127 * math.sqrt(n)
    P = _pts_uniform(R, n)
    d = [(0 if i == 0 else .5 if i == 1 else n - i + 1 + .1 * R.random()) * step for i in range(n)]
    return P, [[1 + d[i] + d[j] if i != j else 0.0 for j in range(n)] for i in range(n)]


def fam_e_step(R, n):       # distances in multiples of a fraction of the tolerance, over a range in which the search has to branch
    q = R.choice([.3, .5, .9, 1.0, 1.1, 2.1]) * 0.00127 * math.sqrt(n)
    P = _pts_uniform(R, n)
    return P, [[max(1, round(math.dist(P[i], P[j]) / q)) * q if i != j else 0.0 for j in range(n)] for i in range(n)]


FAMILIES = {k[4:]: v for k, v in list(globals().items()) if k.startswith('fam_')}
DEFAULT = sorted(k for k in FAMILIES if not k.startswith(('g_', 'e_')))
GRAPHS = sorted(k for k in FAMILIES if k.startswith('g_')) + ['sparse']
COMPLETE = ['u', 'big', 'small', 'grid', 'grid_aff', 'clu', 'line', 'circle', 'star', 'rnd', 'int', 'hyperb', 'trap']
EASY = ['u', 'grid', 'circle', 'rnd', 'big', 'trap']     # stay tractable at n = 20..30

PROBS = ['zero', 'one', 'uni', 'mix', 'half', 'near', 'anti', 'tiny', 'half_edge']
SPREAD = ['uni', 'mult', 'stair']        # probabilities of the 1-trees that differ


def probs(R, n, W, kind):
    Q = [[0.0] * n for _ in range(n)]
    nn = []
    for i in range(n):
        o = sorted((W[i][j], j) for j in range(n) if j != i and W[i][j] > 0)
        nn.append({j for _, j in o[:2]})
    pop = [R.random() for _ in range(n)]
    hop = R.choice([.3, .4, .5])
    far = max(max(r) for r in W) or 1.0
    for i in range(n):
        for j in range(i + 1, n):
            if kind == 'zero':
                q = 0.0
            elif kind == 'one':
                q = 1.0
            elif kind == 'uni':
                q = R.random()
            elif kind == 'mix':
                q = R.choice([0.0, 1.0, 0.5, R.random()])
            elif kind == 'half':
                q = 0.5
            elif kind == 'near':      # what a good network would say
                q = min(1.0, .9 + .1 * R.random()) if (j in nn[i] or i in nn[j]) else R.random() * .1
            elif kind == 'anti':      # a network that is wrong: probability on the long edges
                q = W[i][j] / far
            elif kind == 'mult':      # cities that are more probable than others
                q = pop[i] * pop[j]
            elif kind == 'stair':     # rising from city to city, on the edges to the second one
                q = .9 + .1 * pop[j] if i == 0 else min(1.0, (j - 2) * hop) if i == 1 else pop[i] * pop[j]
            elif kind == 'tiny':
                q = 10.0 ** -R.randint(5, 30)
            else:                     # around the decision threshold
                q = R.choice([0.49, 0.499999, 0.5, 0.500001, 0.51, 0.55, 0.45])
            Q[i][j] = Q[j][i] = q
    return Q


def make(n, family, prob, seed):
    R = random.Random("%s|%s|%s|%s" % (n, family, prob, seed))
    for _ in range(100):
        P, W = FAMILIES[family](R, n)
        if W is None:
            W = [[math.dist(P[i], P[j]) for j in range(n)] for i in range(n)]
        if family in GRAPHS or all(W[i][j] > 0 for i in range(n) for j in range(n) if i != j):
            break
    Q = probs(R, n, W, prob)
    return P, W, Q


def text(P, W, Q):
    n = len(P)
    out = [";".join("(%r, %r)" % (x, y) for x, y in P)]
    for i in range(n):
        out.append("".join("(%r, %r);" % (W[i][j], Q[i][j]) for j in range(n)))
    return "\n".join(out) + "\n"


def write(path, n, family, prob, seed):
    P, W, Q = make(n, family, prob, seed)
    with open(path, 'w') as f:
        f.write(text(P, W, Q))
    return P, W, Q


def read_csv(path):
    """Independent reader of the same format (used by the oracles, never by the solver)."""
    with open(path) as f:
        lines = f.read().split("\n")
    rows = []
    for ln in lines[1:]:
        if not ln.strip():
            continue
        rows.append([tuple(float(v) for v in t.strip().strip("()").split(",")) for t in ln.strip().strip(";").split(";")])
    n = len(rows)
    W = [[0.0] * n for _ in range(n)]
    Q = [[0.0] * n for _ in range(n)]
    for i in range(n):
        for j in range(i + 1, n):
            W[i][j] = W[j][i] = rows[i][j][0]
            Q[i][j] = Q[j][i] = rows[i][j][1]
    return n, W, Q
