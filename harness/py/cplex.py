"""python cplex.py JOBS OUT, in a folder with the model and the converter: runs the model (harness/py/opl.py and the MILP solver of scipy stand in
for OPL and CPLEX) on random data and judges it."""
import itertools
import json
import math
import os
import random
import re
import subprocess
import sys
import traceback

import numpy as np
from scipy.optimize import Bounds, LinearConstraint, linprog, milp

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import opl      # noqa: E402

jobs, outp = sys.argv[1], sys.argv[2]
MODEL = open('TSPmtz.mod').read()


class Bad(Exception):
    pass


def need(ok, msg, *a):
    if not ok:
        raise Bad(msg % a)


def costs(R, n):
    kind = R.choice(['euc', 'int', 'asym', 'ties', 'big'])
    if kind == 'euc':
        P = [(R.random(), R.random()) for _ in range(n)]
        return kind, [[math.dist(a, b) for b in P] for a in P]
    f = {'int': lambda: float(R.randrange(1, 60)), 'asym': lambda: float(R.randrange(1, 60)), 'ties': lambda: float(R.randrange(1, 4)), 'big': lambda: R.uniform(1e5, 1e6)}[kind]
    C = [[f() for _ in range(n)] for _ in range(n)]
    for i in range(n):
        C[i][i] = 0.
        for j in range(i):
            if kind != 'asym':
                C[i][j] = C[j][i]
    return kind, C


def best(C):
    n = len(C)
    D = {(1 << k, k): C[0][k] for k in range(1, n)}
    for s in range(2, n):
        for S in itertools.combinations(range(1, n), s):
            b = sum(1 << k for k in S)
            for k in S:
                D[b, k] = min(D[b ^ (1 << k), m] + C[m][k] for m in S if m != k)
    f = (1 << n) - 2
    return min(D[f, k] + C[k][0] for k in range(1, n))


class LP:
    def __init__(self, n, C):
        self.n = n
        self.V, (self.sense, self.obj), cons, self.env = opl.Parser(MODEL).program().run({'n': n, 'Cost': C})
        names = {v[0] for v in self.V}
        if 'x' not in names:
            raise opl.Unsupported('no variable x')
        self.ix = {v[1]: k for k, v in enumerate(self.V) if v[0] == 'x'}
        m = len(self.V)
        self.c = np.zeros(m)
        self.c0 = 0
        for k, w in (self.obj.items() if not opl.const(self.obj) else [(None, self.obj)]):
            if k is None:
                self.c0 = w
            else:
                self.c[k] += w
        self.A, self.lo, self.hi, self.false = [], [], [], False
        for c in cons:
            if isinstance(c, bool):
                self.false = self.false or not c
                continue
            _, op, L = c
            if op not in ('==', '<=', '>='):
                raise opl.Unsupported('constraint %s' % op)
            row = np.zeros(m)
            for k, w in L.items():
                if k is not None:
                    row[k] += w
            b = -L.get(None, 0)
            self.A.append(row)
            self.lo.append(b if op in ('==', '>=') else -np.inf)
            self.hi.append(b if op in ('==', '<=') else np.inf)
        self.A = np.array(self.A) if self.A else np.zeros((1, m))
        if not self.lo:
            self.lo, self.hi = [-np.inf], [np.inf]
        self.lo, self.hi = np.array(self.lo), np.array(self.hi)
        self.blo, self.bhi = np.array([v[2] for v in self.V], float), np.array([v[3] for v in self.V], float)
        self.int = np.array([int(v[4]) for v in self.V])

    def solve(self):
        if self.false:
            return None
        r = milp(self.sense * self.c, constraints=LinearConstraint(self.A, self.lo, self.hi), bounds=Bounds(self.blo, self.bhi), integrality=self.int, options={'mip_rel_gap': 1e-9})
        if r.status == 2:
            return None
        if r.status:
            raise opl.Unsupported('solver: %s' % r.message)
        return r.x

    def feasible(self, arcs):
        """Is there a solution with exactly these arcs (i != j)?"""
        if self.false:
            return False
        lo, hi = self.blo.copy(), self.bhi.copy()
        for (i, j), k in self.ix.items():
            if i != j:
                v = float((i, j) in arcs)
                if v < lo[k] or v > hi[k]:
                    return False
                lo[k] = hi[k] = v
            else:
                lo[k], hi[k] = max(lo[k], 0), min(hi[k], 0)
        r = milp(np.zeros(len(self.V)), constraints=LinearConstraint(self.A, self.lo, self.hi), bounds=Bounds(lo, hi), integrality=self.int)
        if r.status not in (0, 2):
            raise opl.Unsupported('solver: %s' % r.message)
        return r.status == 0


def arcs_of(t):
    return {(t[k], t[(k + 1) % len(t)]) for k in range(len(t))}


def is_tour(arcs, n):
    nxt = dict(arcs)
    if len(arcs) != n or len(nxt) != n:
        return False
    k, c = 1, nxt[1]
    while c != 1:
        if c not in nxt or k > n:
            return False
        k, c = k + 1, nxt[c]
    return k == n


def script(lp, x, C, n):
    """Runs the script blocks on the solution -> what they print."""
    js = 'const cities={};const Cost={},x={};for(let i=1;i<=%d;i++){cities[i]=i;}\nconst n=%d;' % (n, n)
    js += 'const C=%s,X=%s;for(let i=1;i<=n;i++){Cost[i]={};x[i]={};for(let j=1;j<=n;j++){Cost[i][j]=C[i-1][j-1];x[i][j]=X[i-1][j-1];}}\n' % (
        json.dumps(C), json.dumps([[int(round(x[lp.ix[i, j]])) if i != j else 0 for j in range(1, n + 1)] for i in range(1, n + 1)]))
    js += 'let OUT="";function write(...a){OUT+=a.join("");}function writeln(...a){OUT+=a.join("")+"\\n";}\nconst Opl={},thisOplModel={},cplex={};\n'
    js += '\n'.join('(function(){%s})();' % s for s in opl_scripts()) + '\nprocess.stdout.write(OUT);'
    r = subprocess.run(['node', '-e', js], capture_output=True, text=True, timeout=60)
    if r.returncode:
        raise opl.Unsupported('script: ' + r.stderr[-300:])
    return r.stdout


def opl_scripts():
    return opl.Parser(MODEL).script


def solved(R, stat):
    n = R.choice([3, 4, 5, 6, 7, 8])
    kind, C = costs(R, n)
    if R.random() < .3:         # through the converter
        if os.path.isdir('conv'):
            for f in os.listdir('conv'):
                if not f.endswith('.py'):
                    os.unlink(os.path.join('conv', f))
        C = [[float(round(v * (1000 if kind == 'euc' else 1))) for v in r] for r in C]
        if any(C[i][j] != C[j][i] for i in range(n) for j in range(n)):
            C = [[C[min(i, j)][max(i, j)] for j in range(n)] for i in range(n)]
        with open('conv/a.tsp', 'w') as f:
            f.write('NAME: a\nTYPE: TSP\nDIMENSION: %d\nEDGE_WEIGHT_TYPE: EXPLICIT\nEDGE_WEIGHT_FORMAT: FULL_MATRIX\nEDGE_WEIGHT_SECTION\n' % n
                    + '\n'.join(' '.join('%d' % v for v in r) for r in C) + '\nEOF\n')
        r = subprocess.run([sys.executable, 'converter_tsp_to_dat.py'], cwd='conv', capture_output=True, text=True)
        if r.returncode:
            raise opl.Unsupported('converter: ' + r.stderr[-300:])
        with open('conv/a.dat') as f:
            t = f.read()
        a, b = t.split(';')[:2]
        need(int(a.split('=')[1]) == n, 'the data file says %s', a)
        C = [[float(v) for v in row.replace(',', ' ').split()] for row in re.findall(r'\[([^\[\]]*)\]', b)]
        stat['through the converter'] = 1
    lp = LP(n, C)
    x = lp.solve()
    need(x is not None, 'no solution for %d cities (%s)', n, kind)
    arcs = {ij for ij, k in lp.ix.items() if x[k] > .5 and ij[0] != ij[1]}
    need(is_tour(arcs, n), 'the solution is no tour of %d cities: %s', n, sorted(arcs))
    cost = sum(C[i - 1][j - 1] for i, j in arcs)
    val = float(lp.c @ x + lp.c0)
    opt = best(C)
    need(abs(cost - val) <= 1e-6 * max(1, cost), 'the objective is %r, the tour costs %r', val, cost)
    need(cost <= opt + 1e-6 * max(1, opt), 'the solution costs %r, the optimum is %r (%d cities, %s)', cost, opt, n, kind)
    if R.random() < .25 and opl_scripts():
        out = script(lp, x, C, n)
        got = []
        for ln in out.split('\n'):
            if '--->' in ln:
                a, b = ln.split('--->')
                j, c = b.split('cost:')
                got.append((int(a), int(j), float(c)))
        need(sorted((i, j) for i, j, _ in got) == sorted(arcs), 'the arcs printed are %s, those of the solution %s', [g[:2] for g in got], sorted(arcs))
        need(all(abs(c - C[i - 1][j - 1]) <= 1e-9 * max(1, c) for i, j, c in got), 'costs printed: %s', got)
        stat['printed solutions'] = 1
    stat['solved'] = 1


def points(R, stat):
    n = R.choice([3, 4, 5, 6, 7, 9, 12])
    _, C = costs(R, n)
    lp = LP(n, C)
    T = list(range(2, n + 1))
    tours = [(1,) + t for t in itertools.permutations(T)] if n <= 5 else [(1,) + tuple(R.sample(T, n - 1)) for _ in range(12)]
    for t in tours:
        need(lp.feasible(arcs_of(t)), 'the tour %s is not a solution of the model', t)
    stat['tours feasible'] = len(tours)
    k = 0
    for _ in range(25):
        what = R.choice(['cycles', 'cycles', 'drop', 'add', 'move', 'twice', 'none'])
        t = list(R.choice(tours))
        A = arcs_of(t)
        if what == 'cycles' and n >= 4:
            p = R.sample(range(1, n + 1), n)
            c = R.randrange(2, n - 1)
            A = arcs_of(p[:c]) | arcs_of(p[c:])
        elif what == 'drop':
            A.discard(R.choice(sorted(A)))
        elif what == 'add':
            A.add(tuple(R.sample(range(1, n + 1), 2)))
        elif what == 'move':
            i, j = R.choice(sorted(A))
            A.discard((i, j))
            A.add((i, R.choice([v for v in range(1, n + 1) if v != i])))
        elif what == 'twice':
            A |= arcs_of(list(R.choice(tours)))
        elif what == 'none':
            A = set()
        if is_tour(A, n):
            continue
        need(not lp.feasible(A), 'the arcs %s are no tour of %d cities, but a solution of the model', sorted(A), n)
        k += 1
    stat['others infeasible'] = k


FN = {'solved': solved, 'points': points}
res = []
for job in json.load(open(jobs)):
    r, stat = {'job': job}, {}
    try:
        FN[job['fn']](random.Random('%s|%d' % (job['fn'], job['seed'])), stat)
    except Bad as e:
        r['bad'] = str(e)
    except opl.Unsupported as e:
        r['stub'] = 'not understood: %s' % e
    except Exception as e:
        if os.path.basename(traceback.extract_tb(e.__traceback__)[-1].filename) == 'opl.py':
            r['stub'] = 'not understood: %s: %s' % (type(e).__name__, e)
        else:
            traceback.print_exc()
            raise
    r['stat'] = stat
    res.append(r)
json.dump(res, open(outp, 'w'), default=float)
