"""Helpers of a demonstration: builds the sources of the current directory (a checkout) in a scratch folder, runs them there."""
import atexit
import itertools
import math
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
SRC = os.path.join(os.getcwd(), 'src', 'HybridSolver')
D = tempfile.mkdtemp(prefix='demo_')
atexit.register(shutil.rmtree, D, True)
INCOMPLETE = 0.


def sources(root, main_c):
    out = []
    for d, dirs, files in os.walk(os.path.join(root, 'main')):
        dirs[:] = [x for x in dirs if x in ('algorithms', 'data_structures', 'doubly_linked_list')]
        out += [os.path.join(d, f) for f in files if f.endswith('.c') and (main_c or f != 'main.c')]
    return sorted(out)


def tree(kruskal):
    if not kruskal:
        return SRC
    t = os.path.join(D, 'kruskal')
    if not os.path.isdir(t):
        for s in ('main', 'test'):
            shutil.copytree(os.path.join(SRC, s), os.path.join(t, s), ignore=shutil.ignore_patterns('graph-convnet-tsp'))
        p = os.path.join(t, 'main', 'problem_settings.h')
        s = open(p).read()
        open(p, 'w').write(re.sub(r'#define PRIM 1', '#define PRIM 0', s))
    return t


def build(n, hybrid, kruskal=False, harness=None, flags=()):
    """Builds the solver, or the C program `harness` beside this file with the library."""
    t = tree(kruskal)
    out = os.path.join(D, 'exe%d' % len(os.listdir(D)))
    src = sources(t, harness is None) + ([os.path.join(HERE, harness)] if harness else [])
    subprocess.run(['gcc', '-std=gnu99', '-O2', '-w', '-DMAX_VERTEX_NUM=%d' % n, '-DHYBRID=%d' % hybrid, '-I' + os.path.join(t, 'main'), *flags, *src, '-lm', '-o', out], check=True)
    return out


def write(P, W, Q=None, name='instance.csv'):
    n = len(P)
    p = os.path.join(D, name)
    with open(p, 'w') as f:
        f.write(''.join('(%r, %r);' % (x, y) for x, y in P) + '\n')
        for i in range(n):
            f.write(''.join('(%r, %r);' % ((0., 0.) if i == j else (W[i][j], Q[i][j] if Q else 0.)) for j in range(n)) + '\n')
    return p


def dist(P):
    return [[math.hypot(a[0] - b[0], a[1] - b[1]) for b in P] for a in P]


def solve(exe, p, env=None, timeout=60):
    out = p + '.out'
    r = subprocess.run([exe, p, out], capture_output=True, text=True, timeout=timeout, env=dict(os.environ, **(env or {})))
    s = open(out, errors='replace').read() if os.path.exists(out) else ''
    rep = {'rc': r.returncode, 'err': r.stderr, 'text': s}
    m = re.search(r'SUBPROBLEM with cost = (\S+), type = (\S+), .* prob_tour = (\S+),', s)
    if m:
        rep.update(cost=float(m.group(1)), type=m.group(2), prob=float(m.group(3)))
        rep['edges'] = [tuple(map(int, e)) for e in re.findall(r'(\d+) <-> (\d+)', s[m.end():])]
    m = re.search(r'candidate node = (\d+), .*interrupted = (\w+)', s)
    if m:
        rep.update(candidate=int(m.group(1)), interrupted=m.group(2) == 'TRUE')
    m = re.search(r'generated BBNodes = (\d+),  explored BBNodes = (\d+) and max tree level = (\d+)', s)
    if m:
        rep.update(generated=int(m.group(1)), explored=int(m.group(2)), levels=int(m.group(3)))
    m = re.search(r'Number of fixed edges = (\d+)', s)
    if m:
        rep['fixed'] = int(m.group(1))
    return rep


def optimum(W):
    """Held and Karp."""
    n = len(W)
    C = {(1 << k, k): W[0][k] for k in range(1, n)}
    for s in range(2, n):
        for S in itertools.combinations(range(1, n), s):
            b = sum(1 << k for k in S)
            for k in S:
                C[(b, k)] = min(C[(b ^ (1 << k), m)] + W[m][k] for m in S if m != k)
    f = (1 << n) - 2
    return min(C[(f, k)] + W[k][0] for k in range(1, n))


def is_tour(edges, n):
    if len(edges) != n:
        return False
    A = {}
    for a, b in edges:
        A.setdefault(a, []).append(b)
        A.setdefault(b, []).append(a)
    if sorted(A) != list(range(n)) or any(len(v) != 2 for v in A.values()):
        return False
    seen, cur, prev = 1, A[0][0], 0
    while cur:
        nxt = A[cur][0] if A[cur][0] != prev else A[cur][1]
        prev, cur = cur, nxt
        seen += 1
    return seen == n


def eps(n):
    return math.sqrt(n) * 1.27 / 1000


def fail(msg):
    print('FAIL:', msg)
    sys.exit(1)
