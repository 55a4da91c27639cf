"""python gcn.py JOBS OUT, in a copy of graph-convnet-tsp, with harness/stubs on PYTHONPATH and STUB_NET=1: runs main.py
on each instance with the recording network and judges what the network was given and the file that was written."""
import io
import json
import math
import os
import random
import re
import runpy
import sys
import traceback
from contextlib import redirect_stdout

import numpy as np
import stubnet

jobs, outp = sys.argv[1], sys.argv[2]
sys.path.insert(0, os.getcwd())
STUBS = os.path.dirname(stubnet.__file__)
NUM = r'[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?'
PAIR = re.compile(r'\((%s), (%s)\)' % (NUM, NUM))


class Bad(Exception):
    pass


def need(ok, msg, *a):
    if not ok:
        raise Bad(msg % a)


def points(kind, n, R):
    P = []
    while len(P) < n:
        if kind == 'u':
            p = (R.random(), R.random())
        elif kind == 'grid':
            k = int(math.ceil(math.sqrt(n)))
            p = (R.randrange(k + 1) / k, R.randrange(k + 1) / k)
        elif kind == 'clu':
            p = (min(1., max(0., R.choice([.2, .7]) + R.gauss(0, .02))), min(1., max(0., R.choice([.3, .8]) + R.gauss(0, .02))))
        elif kind == 'line':
            p = (R.random(), .5)
        elif kind == 'short':
            p = (R.randrange(1001) / 1000, R.randrange(1001) / 1000)
        elif kind == 'tiny':    # coordinates written with an exponent
            p = (R.random() * R.choice([1, 1e-4]), R.random() * R.choice([1, 1e-4]))
        else:       # close pairs
            p = (R.random(), R.random())
            if P and R.random() < .4:
                p = (P[-1][0] + 1e-4, P[-1][1])
        if all(abs(p[0] - q[0]) + abs(p[1] - q[1]) > 1e-6 for q in P):
            P.append(p)
    return P


def parse(path, n):
    with open(path) as f:
        lines = f.read().split('\n')
    need(lines[-1] == '' and len(lines) == n + 2, '%d lines in the file, %d expected', len(lines) - 1, n + 1)

    def row(s):
        t = [x for x in s.split(';') if x]
        m = [PAIR.fullmatch(x) for x in t]
        need(all(m), 'cell %r is not a pair of numbers', next((x for x, y in zip(t, m) if not y), None))
        return [(float(y.group(1)), float(y.group(2))) for y in m]
    head, rows = row(lines[0]), [row(s) for s in lines[1:-1]]
    need(len(head) == n, '%d cities in the file instead of %d', len(head), n)
    need(all(len(r) == n for r in rows), 'rows of %s cells', sorted({len(r) for r in rows}))
    A = np.array(rows)
    return head, A[:, :, 0], A[:, :, 1]


def judge(n, model, P, rec, path, stat):
    k, m = int(rec['num_nodes']), model
    need(k == m, 'the network is configured for %d cities instead of %d', k, m)
    w = str(rec['weights'])
    need(re.search(r'tsp%d\b' % m, os.path.dirname(w)), 'the network for %d cities has the weights of %r', m, w)
    X = rec['coord'].reshape(-1, 2).astype(float)
    need(X.shape == (m, 2), 'the network gets %d cities', len(X))
    need(rec['nodes'].reshape(-1).tolist() == [1] * m, 'the signal of the nodes is not one everywhere')
    I = np.array(P)
    D = np.sqrt(((I[:, None] - I[None]) ** 2).sum(2))
    XF = rec['coord64'].reshape(-1, 2) if 'coord64' in rec else X
    # the city of each input of the network
    N = np.abs(XF[:, None] - I[None]).max(2)
    city = N.argmin(1)
    need(N.min(1).max() < 1e-6, 'input %d of the network is %s, which is no city', int(N.min(1).argmax()), XF[int(N.min(1).argmax())])
    times = np.bincount(city, minlength=n)
    if n <= m:
        need(city[:n].tolist() == list(range(n)), 'the first inputs of the network are not the cities in order')
    else:
        need(times.max() <= 1, 'a city is given twice to the network')
    if n < m:
        stat['dummies'] = stat.get('dummies', 0) + m - n
    # distances and adjacency the network gets
    V = rec['values'][0].astype(float)
    ref = D[np.ix_(city, city)]
    need(np.allclose(V, ref, rtol=2e-6, atol=1e-7), 'distance given to the network off by %g', np.abs(V - ref).max())
    E = rec['edges'][0]
    need((np.diag(E) == 2).all(), 'no special token on the diagonal')
    need(set(np.unique(E)) <= {0, 1, 2} and ((E == 2).sum() == m), 'unexpected tokens for edges')
    nb = KN[m]
    for i in range(m):
        S = (E[i] == 1)
        S[i] = False
        c = int(S.sum())
        if nb == -1:
            need(c == m - 1, 'city %d linked to %d others', i, c)
        else:
            need(c == nb, 'city %d linked to %d others instead of its %d nearest', i, c, nb)
            o = ~S
            o[i] = False
            need(V[i][S].max() <= V[i][o].min() + 1e-6, 'city %d is linked to one at %g but not to one at %g', i, V[i][S].max(), V[i][o].min())
    # the file
    head, W, Q = parse(path, n)
    H = np.array(head)
    need((Q >= 0).all() and (Q <= 1).all(), 'a probability outside [0, 1]')
    p = stubnet.probs(m).astype(float)
    if n <= m:
        need(np.array_equal(H, I), 'the cities of the file are not those of the instance, in order')
        order = np.arange(n)
    else:
        pos = {(float(x), float(y)): i for i, (x, y) in enumerate(P)}
        need(all((float(x), float(y)) in pos for x, y in H), 'a city of the file is not one of the instance')
        order = np.array([pos[(float(x), float(y))] for x, y in H])
        need(len(set(order.tolist())) == n, 'a city of the instance is missing in the file')
    DD = D[np.ix_(order, order)]
    need(np.allclose(W, DD, rtol=2e-6, atol=1e-7), 'weight off by %g at %s', np.abs(W - DD).max(), str(np.unravel_index(np.abs(W - DD).argmax(), W.shape)))
    need((W[~np.eye(n, dtype=bool)] > 0).all(), 'a weight is not positive')
    want = np.zeros((n, n))
    if n <= m:
        for i in range(n):
            np.maximum.at(want[i], city, p[i])
    else:
        at = {c: i for i, c in enumerate(order.tolist())}
        r = np.array([at[c] for c in city.tolist()])
        want[np.ix_(r, r)] = p
    off = ~np.eye(n, dtype=bool)
    # the solver reads what is above the diagonal
    err = np.abs(want - Q)
    tol = 1e-6 * np.maximum(want, 1e-3)
    up = np.triu(np.ones((n, n), dtype=bool), 1)
    b = np.argwhere(up & (err > tol))
    need(len(b) == 0, 'probability of %s is %r, the network says %r', *(lambda q: ('%d-%d' % tuple(q), Q[tuple(q)], want[tuple(q)]))(b[0] if len(b) else (0, 0)))
    b = np.argwhere(off & (err > tol))
    need(len(b) == 0, 'probability of %s is %r, the network says %r', *(lambda q: ('%d-%d' % tuple(q), Q[tuple(q)], want[tuple(q)]))(b[0] if len(b) else (0, 0)))
    stat['edges'] = stat.get('edges', 0) + int(up.sum())


KN = {m: json.load(open('logs/tsp%d/config.json' % m))['num_neighbors'] for m in (20, 50, 100)}
res = []
for job in json.load(open(jobs)):
    n, model, kind, seed = job['n'], job['model'], job['kind'], job['seed']
    R = random.Random('%d|%s|%d' % (n, kind, seed))
    P = points(kind, n, R)
    os.environ.update(STUB_SEED=str(seed % 100000), STUB_KIND=job['net'], STUB_LOG=os.path.abspath('rec.npz'))
    np.random.seed(seed % 2**31)
    t = R.sample(range(1, n + 1), n)
    line = ' '.join('%r %r' % q for q in P) + ' output ' + ' '.join(map(str, t + t[:1])) + job['end']
    tmp = 'data/hyb_tsp/test_%d_nodes_temp.txt' % n
    with open(tmp, 'w') as f:
        f.write(line)
    for q in ('rec.npz', 'out.csv'):
        if os.path.exists(q):
            os.unlink(q)
    sys.argv = ['main.py', os.path.abspath('out.csv'), str(n), str(model)]
    r, stat = {'job': job}, {}
    try:
        with redirect_stdout(io.StringIO()):
            runpy.run_path('main.py', run_name='__main__')
        need(os.path.exists('rec.npz'), 'the network was not run')
        need(os.path.exists('out.csv'), 'no file was written')
        rec = dict(np.load('rec.npz'))
        judge(n, model, P, rec, 'out.csv', stat)
    except Bad as e:
        r['bad'] = str(e)
    except (Exception, SystemExit) as e:
        tb = traceback.extract_tb(e.__traceback__)
        last = tb[-1].filename
        txt = '%s: %s (%s:%d)' % (type(e).__name__, str(e)[:200], os.path.basename(last), tb[-1].lineno)
        if isinstance(e, ImportError) or last.startswith(STUBS) or 'torch' in txt or 'Tensor' in txt:
            r['stub'] = txt     # the stand-in lacks something: no verdict
        elif os.path.abspath(last) == os.path.abspath(__file__):
            raise
        else:
            r['bad'] = 'main.py fails: ' + txt
    if 'bad' in r:
        r['line'] = line
    r['stat'] = stat
    res.append(r)
    for q in (tmp,):
        if os.path.exists(q):
            os.unlink(q)
json.dump(res, open(outp, 'w'))
