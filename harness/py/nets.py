"""python nets.py JOBS OUT, in a copy of graph-convnet-tsp, with harness/stubs on PYTHONPATH: data set reader, evaluation figures, generation of data sets, helpers on tours, beam search, and
the forward pass of the network with random weights, each against an independent computation."""
import itertools
import json
import math
import os
import random
import re
import subprocess
import sys
import traceback

import numpy as np

sys.path.insert(0, os.getcwd())
jobs, outp = sys.argv[1], sys.argv[2]
import stubnet      # noqa: E402
STUBS = os.path.dirname(stubnet.__file__)


class Bad(Exception):
    pass


def need(ok, msg, *a):
    if not ok:
        raise Bad(msg % a)


def close(a, b, what, rtol=1e-5, atol=1e-6):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    need(a.shape == b.shape, '%s has shape %s, expected %s', what, a.shape, b.shape)
    need(np.allclose(a, b, rtol=rtol, atol=atol), '%s is off by %g', what, np.abs(a - b).max() if a.size else 0)


def instance(R, n):
    P = []
    while len(P) < n:
        p = (R.random(), R.random()) if R.random() < .8 else (R.randrange(21) / 20, R.randrange(21) / 20)
        if all(abs(p[0] - q[0]) + abs(p[1] - q[1]) > 1e-6 for q in P):
            P.append(p)
    t = list(range(n))
    R.shuffle(t)
    return P, t


def line(P, t):
    return ' '.join('%r %r' % p for p in P) + ' output ' + ' '.join(str(v + 1) for v in t + t[:1]) + ' \n'


def dist(P):
    A = np.array(P)
    return np.sqrt(((A[:, None] - A[None]) ** 2).sum(2))


def tour_matrix(t):
    n = len(t)
    W = np.zeros((n, n))
    for k in range(n):
        a, b = t[k], t[(k + 1) % n]
        W[a][b] = W[b][a] = 1
    return W


def length(t, D):
    return sum(D[t[k]][t[(k + 1) % len(t)]] for k in range(len(t)))


# ---- the data set reader and the split of a data set
def reader(R, stat):
    from utils.google_tsp_reader import GoogleTSPReader
    n, b = R.randrange(3, 14), R.randrange(1, 6)
    k = R.choice([1, 2, 5, 9, 17, 17, 70, 150])
    nb = R.choice([-1, -1] + list(range(1, n)))
    data = {}
    while len(data) < k:
        P, t = instance(R, n)
        data[tuple(P)] = t
    with open('set.txt', 'w') as f:
        f.write(''.join(line(P, t) for P, t in data.items()))
    for epoch in range(2):
        seen = []
        batches = list(iter(GoogleTSPReader(n, nb, batch_size=b, filepath='set.txt')))
        need(len(batches) == k // b, '%d batches of %d from %d instances', len(batches), b, k)
        for B in batches:
            need(B.nodes_coord.shape == (b, n, 2), 'batch of shape %s', B.nodes_coord.shape)
            for x in range(b):
                P = tuple(tuple(float(v) for v in p) for p in B.nodes_coord[x])
                need(P in data, 'the cities of a batch are those of no instance')
                seen.append(P)
                t, D = data[P], dist(P)
                close(B.edges_values[x], D, 'distances', 1e-12, 1e-12)
                need([int(v) for v in B.tour_nodes[x]] == t, 'tour %s read as %s', t, B.tour_nodes[x])
                close(B.edges_target[x], tour_matrix(t), 'edges of the tour')
                need([int(B.nodes_target[x][v]) for v in t] == list(range(n)), 'positions in the tour')
                close(B.tour_len[x], length(t, D), 'length of the tour', 1e-12, 1e-12)
                need((B.nodes[x] == 1).all(), 'signal of the nodes')
                E = B.edges[x]
                need((np.diag(E) == 2).all(), 'no special token on the diagonal')
                for i in range(n):
                    near = [j for j in range(n) if j != i and E[i][j] == 1]
                    far = [j for j in range(n) if j != i and E[i][j] == 0]
                    need(len(near) + len(far) == n - 1 and len(near) == (n - 1 if nb == -1 else nb), '%d neighbours instead of %d', len(near), nb)
                    need(not far or max(D[i][j] for j in near) <= min(D[i][j] for j in far) + 1e-12, 'neighbours of %d are not the nearest', i)
                stat['instances read'] = stat.get('instances read', 0) + 1
        need(len(set(seen)) == len(seen) and (len(seen) == k if k % b == 0 else True), '%d different instances in %d', len(set(seen)), len(seen))
    # the split; a file may hold an instance twice
    with open('set.txt') as f:
        a = f.readlines()
    if R.random() < .5:
        a = a + [R.choice(a) for _ in range(R.randrange(1, 4))]
        R.shuffle(a)
        with open('set.txt', 'w') as f:
            f.writelines(a)
        k = len(a)
    v = R.choice([0, 1, k // 2, k, k + 3])
    r = subprocess.run([sys.executable, os.path.join('data', 'split_train_val.py'), '--num_nodes', str(n), '--val_size', str(v), '--filename', 'set.txt'], capture_output=True, text=True)
    need(r.returncode == 0, 'split_train_val.py fails: %s', r.stderr[-300:])
    with open('set.txt') as f, open('tsp%d_val_concorde.txt' % n) as g, open('tsp%d_train_concorde.txt' % n) as h:
        a, x, y = f.readlines(), g.readlines(), h.readlines()
    need(x == a[:v] and y == a[v:], 'split of %d instances at %d: %d and %d', k, v, len(x), len(y))
    stat['splits'] = stat.get('splits', 0) + 1


# ---- helpers on tours
def tours(R, stat):
    import torch
    import utils.graph_utils as G
    n = R.randrange(3, 14)
    P, t = instance(R, n)
    D = dist(P)
    W = tour_matrix(t)
    close(G.tour_nodes_to_W(t), W, 'tour_nodes_to_W')
    close(G.tour_nodes_to_tour_len(t, D), length(t, D), 'tour_nodes_to_tour_len')
    close(G.W_to_tour_len(W, D), length(t, D), 'W_to_tour_len')
    need(G.is_valid_tour(t, n) is True or G.is_valid_tour(t, n) == 1, 'a tour is not valid')
    for bad in (t[:-1], t + t[:1], t[:-1] + t[:1], [v + 1 for v in t]):
        need(not G.is_valid_tour(bad, n), '%s is a valid tour of %d cities', bad, n)
    b = R.randrange(1, 4)
    ts, Ds = [], []
    for _ in range(b):
        P, u = instance(R, n)
        ts.append([0] + [v for v in u if v])
        Ds.append(dist(P))
    want = sum(length(u, d) for u, d in zip(ts, Ds)) / b
    DT = torch.FloatTensor(np.array(Ds))
    close(G.mean_tour_len_nodes(DT, torch.LongTensor(np.array(ts))), want, 'mean_tour_len_nodes', 1e-5)
    z = np.zeros((b, n, n, 2))
    for x in range(b):
        z[x, :, :, 1] = np.where(tour_matrix(ts[x]) == 1, 3, -3)
    close(G.mean_tour_len_edges(DT, torch.FloatTensor(z)), want, 'mean_tour_len_edges', 1e-5)
    # the rank of the farthest neighbour on a tour, among all the cities by distance
    rank = 0
    for u, d in zip(ts, Ds):
        for q in range(n):
            for v in (u[q - 1], u[(q + 1) % n]):
                rank = max(rank, int((d[u[q]] < d[u[q]][v]).sum()))
    if all(len(set(np.round(row, 9))) == n for d in Ds for row in d):

        class Batches(object):      # a data set whose batches hold one instance each
            num_nodes = n

            def __init__(self):
                self.k = 0

            def __iter__(self):
                from utils.google_tsp_reader import DotDict
                while True:
                    q = self.k % b
                    self.k += 1
                    yield DotDict(edges=np.ones((1, n, n)), edges_target=tour_matrix(ts[q])[None], edges_values=Ds[q][None])
        need(G.get_max_k(Batches(), b) == rank, 'get_max_k is %s, the farthest neighbour on a tour has rank %d', G.get_max_k(Batches(), b), rank)
    stat['tours'] = stat.get('tours', 0) + 1 + b


# ---- beam search
def beam(R, stat):
    import torch
    import utils.model_utils as M
    n, b = R.randrange(3, 8), R.randrange(1, 4)
    typ = R.choice(['raw', 'logits'])
    full = math.factorial(n - 1)
    width = R.choice([1, 2, 3, n - 1, full if n <= 6 else 40])
    z = np.array([[[[R.gauss(0, 1), R.gauss(0, 1)] for _ in range(n)] for _ in range(n)] for _ in range(b)])
    p = np.exp(z[..., 1]) / np.exp(z).sum(-1)
    Ds = np.array([dist(instance(R, n)[0]) for _ in range(b)])
    F, L = torch.FloatTensor, torch.LongTensor

    def prob(x, t):
        return math.prod(p[x][t[k]][t[k + 1]] for k in range(n - 1))

    def check(t, what):
        need(len(t) == n and sorted(t) == list(range(n)), '%s of beam width %d is no tour: %s', what, width, t)
        need(t[0] == 0, '%s starts at %d', what, t[0])

    def reference(x):       # plain beam search
        B, tie = [(1., [0])], False
        for _ in range(n - 1):
            C = sorted(((q * p[x][t[-1]][j], t + [j]) for q, t in B for j in range(n) if j not in t), reverse=True)
            B = C[:width]
            tie = tie or (len(C) > width and C[width][0] > B[-1][0] * (1 - 1e-4))
        return B, tie
    got = M.beamsearch_tour_nodes(torch.FloatTensor(z), width, b, n, F, L, typ).numpy().tolist()
    short = M.beamsearch_tour_nodes_shortest(torch.FloatTensor(z), torch.FloatTensor(Ds), width, b, n, F, L, typ).numpy().tolist()
    for x in range(b):
        g, s = [int(v) for v in got[x]], [int(v) for v in short[x]]
        check(g, 'the most probable tour')
        check(s, 'the shortest tour')
        B, tie = reference(x)
        need(prob(x, g) >= B[0][0] * (1 - 1e-4), 'beam width %d: tour of probability %r, %r expected', width, prob(x, g), B[0][0])
        if width >= full:
            best = max(prob(x, (0,) + t) for t in itertools.permutations(range(1, n)))
            need(prob(x, g) >= best * (1 - 1e-4), 'full beam: tour of probability %r instead of %r', prob(x, g), best)
            stat['full beams'] = stat.get('full beams', 0) + 1
        want = min(length(t, Ds[x]) for _, t in B)
        need(length(s, Ds[x]) <= length(g, Ds[x]) + 1e-5, 'the shortest tour of the beam is longer than the most probable one')
        if not tie:
            need(abs(length(s, Ds[x]) - want) < 1e-5, 'beam width %d: shortest tour of %r, %r expected', width, length(s, Ds[x]), want)
            stat['shortest tours'] = stat.get('shortest tours', 0) + 1
        stat['beams'] = stat.get('beams', 0) + 1


# predictions so sharp, or so many cities, that the probabilities leave the range of single precision
def beam_sharp(R, stat):
    import torch
    import utils.model_utils as M
    n, b = R.choice([5, 6, 7, 8, 10, 12, 20, 40, 100]), R.randrange(1, 3)
    typ = R.choice(['raw', 'logits'])
    width = R.choice([1, 2, 5, n - 1, 40])
    scale, shift = R.choice([(1, 0), (1, -4), (10, 0), (30, 0), (100, 0), (200, 0), (1000, 0), (0, 60), (0, -60), (0, 0)])
    g = np.random.RandomState(R.randrange(2**31))
    z = g.normal(0, 1, (b, n, n, 2)) * scale
    z[..., 1] += shift
    if R.random() < .4:     # a trained network: sure of two edges of every city
        z *= .1
        for x in range(b):
            z[x, :, :, 1] += np.where(tour_matrix(R.sample(range(n), n)) == 1, 20, -20)
    Ds = np.array([dist(instance(R, n)[0]) for _ in range(b)])
    F, L = torch.FloatTensor, torch.LongTensor
    got = M.beamsearch_tour_nodes(torch.FloatTensor(z), width, b, n, F, L, typ).numpy().tolist()
    short = M.beamsearch_tour_nodes_shortest(torch.FloatTensor(z), torch.FloatTensor(Ds), width, b, n, F, L, typ).numpy().tolist()
    for x in range(b):
        for t, what in ((got[x], 'the most probable tour'), (short[x], 'the shortest tour')):
            t = [int(v) for v in t]
            need(len(t) == n and sorted(t) == list(range(n)) and t[0] == 0, '%s of beam width %d for %d cities, %s predictions of scale %r, is no tour from city 0: %s', what, width, n, typ, scale, t)
        if typ == 'logits' and n <= 12:     # sums of logarithms stay in range: against a plain beam search
            lp = z[x, :, :, 1] - np.logaddexp(z[x, :, :, 0], z[x, :, :, 1])
            B, tie = [(0., [0])], False
            for _ in range(n - 1):
                C = sorted(((q + lp[t[-1]][j], t + [j]) for q, t in B for j in range(n) if j not in t), reverse=True)
                B = C[:width]
                tie = tie or (len(C) > width and C[width][0] > B[-1][0] - 1e-3 * (1 + abs(B[-1][0])))
            if not tie:
                have = sum(lp[int(u)][int(v)] for u, v in zip(got[x], got[x][1:]))
                need(have >= B[0][0] - 1e-3 * (1 + abs(B[0][0])), 'beam width %d, predictions of scale %r: tour of log-probability %r, %r expected', width, scale, have, B[0][0])
                stat['sharp beams compared'] = stat.get('sharp beams compared', 0) + 1
        stat['sharp beams'] = stat.get('sharp beams', 0) + 1


# ---- forward pass
class Cfg(dict):
    __getattr__ = dict.__getitem__


def sig(a):
    return 1 / (1 + np.exp(-a))


def lin(m, a):
    y = a @ np.asarray(m.weight.numpy(), dtype=float).T
    return y + np.asarray(m.bias.numpy(), dtype=float) if m.bias is not None else y


def norm(m, a, eps=1e-5):
    ax = tuple(range(a.ndim - 1))
    return (a - a.mean(axis=ax)) / np.sqrt(a.var(axis=ax) + eps) * m.weight.numpy() + m.bias.numpy()


def expected(net, edges, values, coord, agg):
    """The equations of the paper (Joshi et al., 2019), in double precision."""
    x = coord @ np.asarray(net.nodes_coord_embedding.weight.numpy(), dtype=float).T
    e = np.concatenate([values[..., None] @ np.asarray(net.edges_values_embedding.weight.numpy(), dtype=float).T,
                        np.asarray(net.edges_embedding.weight.numpy(), dtype=float)[edges]], axis=-1)
    for l in net.gcn_layers:
        Vx = lin(l.edge_feat.V, x)
        t = lin(l.edge_feat.U, e) + Vx[:, :, None] + Vx[:, None]
        g = sig(t)
        nv = lin(l.node_feat.V, x)
        s = np.einsum('bijh,bjh->bih', g, nv)
        if agg == 'mean':
            s = s / (1e-20 + g.sum(2))
        y = lin(l.node_feat.U, x) + s
        x = x + np.maximum(norm(l.bn_node.batch_norm, y), 0)
        e = e + np.maximum(norm(l.bn_edge.batch_norm, t), 0)
    for u in net.mlp_edges.U:
        e = np.maximum(lin(u, e), 0)
    return lin(net.mlp_edges.V, e)


def forward(R, stat):
    import torch
    from models.gcn_model import ResidualGatedGCNModel
    n, b = R.randrange(3, 10), R.randrange(1, 4)
    agg = R.choice(['mean', 'mean', 'sum'])
    c = Cfg(num_nodes=n, node_dim=2, voc_nodes_in=2, voc_nodes_out=2, voc_edges_in=3, voc_edges_out=2, hidden_dim=R.choice([4, 8, 12]), num_layers=R.choice([1, 2, 3]),
            mlp_layers=R.choice([1, 2, 3]), aggregation=agg)
    F, L = torch.FloatTensor, torch.LongTensor
    torch.manual_seed(R.randrange(10**6))
    net = ResidualGatedGCNModel(c, F, L)
    net.eval()
    if R.random() < .3:     # large sums in front of the gates
        net.nodes_coord_embedding.weight.data.mul_(R.choice([10., 40.]))
    P = [instance(R, n) for _ in range(b)]
    coord = np.array([p for p, _ in P])
    values = np.array([dist(p) for p, _ in P])
    nb = R.choice([-1] + list(range(1, n)))
    edges = np.ones((b, n, n), dtype=int)
    if nb != -1:
        for x in range(b):
            for i in range(n):
                far = np.argsort(values[x][i])[nb + 1:]
                edges[x][i][far] = 0
    for x in range(b):
        np.fill_diagonal(edges[x], 2)
    target = np.array([tour_matrix(t) for _, t in P]).astype(int)
    cw = np.array([R.random() + .2, R.random() * 3 + .2])

    def go(co, va, ed, ta):
        y, loss = net.forward(torch.LongTensor(ed), torch.FloatTensor(va), torch.LongTensor(np.ones((b, n))), torch.FloatTensor(co), torch.LongTensor(ta), cw)
        return np.asarray(y.numpy(), dtype=float), float(np.asarray(loss.numpy()).reshape(-1)[0])
    y, loss = go(coord, values, edges, target)
    need(y.shape == (b, n, n, 2), 'predictions of shape %s', y.shape)
    try:
        sizes = (len(net.gcn_layers), len(net.mlp_edges.U))
        need(sizes == (c['num_layers'], c['mlp_layers'] - 1), '%d layers and %d hidden ones of the classifier, expected %d and %d', *(sizes + (c['num_layers'], c['mlp_layers'] - 1)))
        want = expected(net, edges, values, coord, agg)
    except AttributeError as e:
        raise Bad('a parameter of the trained networks is gone: %s' % e)
    need(np.allclose(y, want, rtol=2e-3, atol=2e-3 * max(1, np.abs(want).max())), 'predictions off by %g from the equations of the network (%d layers, %s)', np.abs(y - want).max(), c['num_layers'], agg)
    lp = want - np.log(np.exp(want - want.max(-1, keepdims=True)).sum(-1, keepdims=True)) - want.max(-1, keepdims=True)
    w = cw[target]
    wl = -(np.take_along_axis(lp, target[..., None], -1)[..., 0] * w).sum() / w.sum()
    need(abs(loss - wl) < 5e-3 * max(1, abs(wl)), 'loss %r, %r expected', loss, wl)
    # relabelling the cities relabels the predictions
    s = list(range(n))
    R.shuffle(s)
    y2, loss2 = go(coord[:, s], values[:, s][:, :, s], edges[:, s][:, :, s], target[:, s][:, :, s])
    need(np.allclose(y2, y[:, s][:, :, s], rtol=2e-3, atol=2e-3 * max(1, np.abs(y).max())), 'predictions change with the numbering of the cities (by %g)', np.abs(y2 - y[:, s][:, :, s]).max())
    stat['predictions'] = stat.get('predictions', 0) + y.size
    stat['relabelled'] = stat.get('relabelled', 0) + 1


# ---- evaluation figures
def metrics(R, stat):
    import torch
    import utils.model_utils as M
    n, b = R.randrange(3, 9), R.randrange(1, 5)
    z = np.array([[[[R.gauss(0, 1), R.gauss(0, 1)] for _ in range(n)] for _ in range(n)] for _ in range(b)])
    y = np.array([tour_matrix(instance(R, n)[1]) for _ in range(b)]).astype(int)
    for x in range(b):
        what = R.choice(['some', 'right', 'tour', 'none'])
        if what == 'right':             # all predictions right
            z[x, :, :, 0], z[x, :, :, 1] = 0, np.where(y[x] == 1, 1, -1)
        elif what == 'tour':            # the edges of the tour, and some others
            z[x, :, :, 1] = np.where(y[x] == 1, abs(z[x, :, :, 1]) + abs(z[x, :, :, 0]) + .1, z[x, :, :, 1])
        elif what == 'none':
            z[x, :, :, 1] = z[x, :, :, 0] - .5
    e = np.array([[[2 if i == j else R.choice([0, 1, 1]) for i in range(n)] for j in range(n)] for _ in range(b)])
    pred = (z[..., 1] > z[..., 0]).astype(int)
    LT = torch.LongTensor

    def error(mask):
        acc = ((pred == y) * mask).sum((1, 2)) / mask.sum((1, 2))
        return 100 * (1 - acc.mean()), acc < 1
    ee, et, es, it, ip = M.edge_error(torch.FloatTensor(z), LT(y), LT(e))
    close(ee, error(e)[0], 'error on the edges of the graph', 1e-4, 1e-3)
    for g, gi, w, what in ((et, it, y, 'of the tour'), (es, ip, ((y + pred) > 0).astype(int), 'of the tour or predicted')):
        we, wi = error(w)
        close(g, we, 'error on the edges ' + what, 1e-4, 1e-3)
        need([bool(v) for v in gi.numpy().reshape(-1)] == [bool(v) for v in wi], 'instances with an error on the edges %s: %s, expected %s', what, gi.numpy(), wi)
    # the loss on the nodes
    c = R.choice([2, 3, n])
    zn = np.array([[[R.gauss(0, 2) for _ in range(c)] for _ in range(n)] for _ in range(b)])
    t = np.array([[R.randrange(c) for _ in range(n)] for _ in range(b)])
    w = np.array([R.random() + .1 for _ in range(c)])
    lp = zn - zn.max(-1, keepdims=True)
    lp = lp - np.log(np.exp(lp).sum(-1, keepdims=True))
    want = -(np.take_along_axis(lp, t[..., None], -1)[..., 0] * w[t]).sum() / w[t].sum()
    close(float(np.asarray(M.loss_nodes(torch.FloatTensor(zn), LT(t), torch.FloatTensor(w)).numpy()).reshape(-1)[0]), want, 'loss on the nodes', 1e-3, 1e-4)

    class Opt:
        param_groups = [{'lr': 1., 'other': 3} for _ in range(R.randrange(1, 4))]
    lr = R.random()
    o = M.update_learning_rate(Opt, lr)
    need(o is Opt and all(g == {'lr': lr, 'other': 3} for g in Opt.param_groups), 'learning rate not updated')
    stat['figures'] = stat.get('figures', 0) + 4


# ---- data sets made and solved with Concorde
def script(args, cwd='.'):
    r = subprocess.run([sys.executable] + args, capture_output=True, text=True, cwd=cwd, timeout=100)
    if r.returncode:
        last = re.findall(r'File "([^"]*)", line', r.stderr)
        m = re.search(r'ValueError: (\d+ and \d+ coordinates)', r.stderr)
        if m:
            raise Bad('%s hands %s to Concorde' % (args[0], m.group(1)))
        if 'ImportError' in r.stderr or 'ModuleNotFound' in r.stderr or (last and '/stubs/' in last[-1]):
            raise ImportError(r.stderr.strip()[-300:])
        raise Bad('%s fails: %s' % (args[0], r.stderr.strip()[-400:]))
    return r.stdout


def calls():
    need(os.path.exists('concorde.log'), 'nothing is solved')
    with open('concorde.log') as f:
        return [json.loads(l) for l in f]


def generate(R, stat):
    from utils.google_tsp_reader import GoogleTSPReader
    n, k = R.randrange(3, 12), R.randrange(1, 7)
    for f in ('concorde.log', 'made.txt', 'tsp%d_concorde.txt' % n, 'results.txt'):
        if os.path.exists(f):
            os.unlink(f)
    name = R.choice(['made.txt', None])
    script([os.path.join('data', 'generate_tsp_concorde.py'), '--num_samples', str(k), '--num_nodes', str(n)] + (['--filename', name] if name else []))
    name = name or 'tsp%d_concorde.txt' % n
    C = calls()
    need(len(C) == k, '%d instances solved, %d asked for', len(C), k)
    with open(name) as f:
        lines = f.readlines()
    need(len(lines) == k, '%d instances written, %d asked for', len(lines), k)
    for l, (xs, ys, t, _, _) in zip(lines, C):
        a, _, o = l.partition(' output ')
        v = [float(x) for x in a.split()]
        need(len(xs) == n and v == [c for p in zip(xs, ys) for c in p], 'the cities written are not those solved')
        need([int(x) for x in o.split()] == [x + 1 for x in t + t[:1]], 'tour %s written as %s', t, o)
        need(all(0 <= x <= 1 for x in v), 'coordinates outside the unit square')
    need(len({repr(c[:2]) for c in C}) == k, 'instances are repeated')
    made = {tuple(zip(c[0], c[1])): c[2] for c in C}
    for B in iter(GoogleTSPReader(n, -1, batch_size=1, filepath=name)):
        P = tuple(tuple(float(v) for v in p) for p in B.nodes_coord[0])
        need(P in made and [int(v) for v in B.tour_nodes[0]] == made[P], 'the data set made is not read back')
    stat['instances made'] = stat.get('instances made', 0) + k
    # solved again
    os.unlink('concorde.log')
    out = script([os.path.join('data', 'pyconcorde_solver.py'), name])
    C = calls()
    need(len(C) == k and {tuple(zip(c[0], c[1])) for c in C} == set(made), 'the instances solved are not those of the file')
    with open('results.txt') as f:
        res = f.read()
    res = re.findall(r'Result of instance (\d+): (.*?)(?=\nResult of instance|\Z)', res, re.S)
    need([int(a) for a, _ in res] == list(range(k)), '%d results of %d instances', len(res), k)
    opt = []
    for (_, txt), (xs, ys, t, tm, bb), l in zip(res, C, lines):
        need([float(x) for x in l.partition(' output')[0].split()] == [c for p in zip(xs, ys) for c in p], 'instances solved in another order')
        m = re.search(r'\[(?:array\()?\[([^\]]*)\]', txt, re.S)
        need(m and [int(v) for v in m.group(1).replace(',', ' ').split()] == t, 'tour %s reported as %s', t, txt[:100])
        num = [float(v) for v in re.findall(r'-?\d+\.?\d*(?:e[-+]?\d+)?', txt[m.end():].replace('float64', '').replace('int64', ''))]
        L = length(t, dist(list(zip(xs, ys))))
        opt.append(L)
        need(len(num) == 3, 'result %s', txt)
        close(num[0], tm, 'running time', 1e-9)
        close(num[1], bb, 'nodes explored', 0, 0)
        close(num[2], L, 'length of the tour', 1e-9)
    for what, vals in (('optimal values', opt), ('running times', [c[3] for c in C]), ('nodes explored', [c[4] for c in C])):
        m = re.search(r'%s[^:]*: (\S+)' % what, out)
        need(m, 'no mean of the %s', what)
        close(float(m.group(1)), np.mean(vals), 'mean of the ' + what, 1e-9)
    stat['instances solved'] = stat.get('instances solved', 0) + k


# ---- plots, settings
class Axes(object):
    def __init__(self):
        self.nodes, self.edges, self.title = [], [], []

    def set_title(self, t, *a, **k):
        self.title.append(t)

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        return lambda *a, **kw: None


class Figure(Axes):
    def __init__(self):
        self.axes, self.where, self.shown = [], [], False

    def add_subplot(self, *a, **k):
        self.axes.append(Axes())
        self.where.append(a)
        return self.axes[-1]


def canvas():
    """Stand-ins for what the plots draw with -> the list of figures made."""
    import matplotlib.pyplot as plt
    import networkx as nx
    figs = []

    def figure(*a, **k):
        figs.append(Figure())
        return figs[-1]

    def ax_of(k):
        return k.get('ax') or plt.gca()

    def nodes(G, pos, nodelist=None, node_size=300, node_color='b', *a, **k):
        ids = list(G.nodes()) if nodelist is None else list(nodelist)
        need(all(v in pos for v in ids), 'a city without a position is drawn')
        need(isinstance(node_color, str) or len(node_color) == len(ids), '%d colours for %d cities', len(node_color), len(ids))
        ax_of(k).nodes.append((ids, dict(pos), node_color))

    def edges(G, pos, edgelist=None, width=1.0, edge_color='k', style='solid', alpha=None, *a, **k):
        es = [tuple(int(v) for v in e[:2]) for e in (G.edges() if edgelist is None else edgelist)]
        need(all(v in pos for e in es for v in e), 'an edge of a city without a position is drawn')
        need(isinstance(edge_color, str) or len(edge_color) == len(es), '%d colours for %d edges', len(edge_color), len(es))
        ax_of(k).edges.append((es, dict(pos), edge_color, alpha))

    def show(*a, **k):
        for f in figs:
            f.shown = True
    plt.figure, plt.gcf, plt.show, plt.cm = figure, lambda: figs[-1], show, Axes()
    plt.gca = lambda *a, **k: figs[-1].axes[-1] if figs and figs[-1].axes else figure().add_subplot(111)
    nx.draw_networkx_nodes, nx.draw_networkx_edges = nodes, edges
    if not hasattr(nx, 'from_numpy_matrix'):
        nx.from_numpy_matrix = nx.from_numpy_array
    return figs


def same_nodes(ax, P, what):
    got = {}
    for ids, pos, col in ax.nodes:
        for q, v in enumerate(ids):
            need(v not in got, '%s: city %s drawn twice', what, v)
            got[v] = (pos[v], col if isinstance(col, str) else col[q])
    need(set(got) == set(range(len(P))), '%s: cities %s drawn', what, sorted(got))
    for v in got:
        close(got[v][0], P[v], '%s: position of city %d' % (what, v))
    need(all((got[v][1] == got[0][1]) == (v == 0) for v in got), '%s: the first city is not the one that stands out: %s', what, [got[v][1] for v in sorted(got)])
    for _, pos, _, _ in ax.edges:
        for v in pos:
            close(pos[v], P[v], '%s: position of city %d for the edges' % (what, v))


def und(es):
    return {frozenset(e) for e in es}


def judge_tour(ax, P, X, T, title, what):
    """light edges: those of the graph; red ones: those of the tour"""
    same_nodes(ax, P, what)
    n = len(P)
    red = [e for es, _, c, _ in ax.edges if c in ('r', 'red') for e in es]
    rest = [e for es, _, c, _ in ax.edges if c not in ('r', 'red') for e in es]
    pairs = {frozenset((i, j)) for i in range(n) for j in range(n) if T[i][j] == 1}
    need(und(red) == pairs, '%s: the tour drawn has the edges %s, the tour has %s', what, sorted(map(sorted, und(red))), sorted(map(sorted, pairs)))
    pairs = {frozenset((i, j)) for i in range(n) for j in range(n) if X[i][j] == 1}
    need(und(rest) == pairs, '%s: %d edges of the graph drawn of %d', what, len(und(rest)), len(pairs))
    need(ax.title[-1:] == [title], '%s: title %s, expected %r', what, ax.title, title)


def judge_heat(ax, P, Y, what):
    same_nodes(ax, P, what)
    n = len(P)
    got = {}
    for es, _, c, _ in ax.edges:
        for q, e in enumerate(es):
            need(e not in got, '%s: edge %s drawn twice', what, e)
            got[e] = c if isinstance(c, str) else float(c[q])
    want = {(i, j): Y[i][j] for i in range(n) for j in range(n) if Y[i][j] > .25}
    need(set(got) == set(want), '%s: edges %s drawn, %s have a probability above 1/4', what, sorted(got), sorted(want))
    for e in got:
        need(not isinstance(got[e], str), '%s: edge %s has the colour %s', what, e, got[e])
        close(got[e], want[e], '%s: probability of %s' % (what, e), 1e-4, 1e-5)


def plots(R, stat):
    import torch
    from utils import plot_utils as U
    figs = canvas()
    n, b = R.randrange(4, 11), R.randrange(1, 6)
    inst = [instance(R, n) for _ in range(b)]
    rs = np.random.RandomState(R.randrange(2**31))
    D = np.array([dist(P) for P, _ in inst])
    T = np.array([tour_matrix(t) for _, t in inst])
    X = np.ones((b, n, n))
    for q in range(b):
        if R.random() < .5:     # a graph of neighbours: only some edges
            X[q] = (rs.rand(n, n) < .5) | (T[q] > 0)
            X[q] = np.maximum(X[q], X[q].T)
        np.fill_diagonal(X[q], 2)
    while True:
        L = rs.randn(b, n, n, 2) * R.choice([.3, 1, 4])
        Y = np.exp(L) / np.exp(L).sum(3, keepdims=True)
        if R.random() < .3:
            L, Y = L + np.swapaxes(L, 1, 2), None
            Y = np.exp(L) / np.exp(L).sum(3, keepdims=True)
        Y = Y[..., 1]
        if np.abs(Y - .25).min() > 1e-4:
            break
    coord = np.array([P for P, _ in inst])
    bs = [R.sample(range(n), n) for _ in range(b)]
    k = R.randrange(1, b + 1)
    beam_ = R.random() < .5
    args = [torch.Tensor(coord), torch.Tensor(X, dtype=np.int64), torch.Tensor(D), torch.Tensor(T, dtype=np.int64), torch.Tensor(L)]
    np.random.seed(R.randrange(2**31))
    old = sys.stdout
    sys.stdout = open(os.devnull, 'w')
    try:
        if beam_:
            U.plot_predictions_beamsearch(*(args + [torch.Tensor(np.array(bs), dtype=np.int64)]), **({'num_plots': k}))
        else:
            U.plot_predictions(*args, num_plots=k)
    finally:
        sys.stdout = old
    need(len(figs) == k, '%d figures for %d plots', len(figs), k)
    seen = set()
    for f in figs:
        need(f.shown, 'a figure is not shown')
        need(len(f.axes) == 2 + beam_, '%d plots in a figure', len(f.axes))
        cells = [tuple(w) if len(w) == 3 else (int(str(w[0])[0]), int(str(w[0])[1]), int(str(w[0])[2])) for w in f.where]
        need(sorted(c[2] for c in cells) == list(range(1, 3 + beam_)), 'places %s of the plots of a figure', f.where)
        axes = [a for _, a in sorted(zip([c[2] for c in cells], f.axes), key=lambda z: z[0])]
        first = {v: p for ids, pos, _ in axes[0].nodes for v, p in pos.items()}
        who = [q for q in range(b) if len(first) == n and np.allclose([first[v] for v in range(n)], coord[q], atol=1e-5)]
        need(len(who) == 1, 'the cities drawn are of none of the instances')
        q = who[0]
        need(q not in seen, 'instance %d drawn twice', q)
        seen.add(q)
        W32 = D[q].astype(np.float32)
        judge_tour(axes[0], coord[q], X[q], T[q], 'Groundtruth: %s' % near(axes[0], length(inst[q][1], W32)), 'ground truth of instance %d' % q)
        judge_heat(axes[1], coord[q], Y[q], 'predictions for instance %d' % q)
        if beam_:
            judge_tour(axes[2], coord[q], X[q], tour_matrix(bs[q]), 'Beamsearch: %s' % near(axes[2], length(bs[q], W32)), 'beam search tour of instance %d' % q)
    stat['figures judged'] = stat.get('figures judged', 0) + k
    stat['edges of predictions judged'] = stat.get('edges of predictions judged', 0) + int(sum((Y[q] > .25).sum() for q in seen))


def near(ax, L):
    """the length as the title gives it, if that is the length to three decimals"""
    m = re.fullmatch(r'\D*: (\d+\.\d{3})', ax.title[-1] if ax.title else '')
    return m.group(1) if m and abs(float(m.group(1)) - L) < 5.1e-4 + 1e-5 * L else '%.3f' % L


def settings(R, stat):
    import config as C
    base = json.load(open('configs/default.json'))

    def value():
        return R.choice([0, 1, -1, 37, .5, 1e-9, True, False, None, '', 'abc', './data/x.txt', [1, 2], {'a': 1}, 10**12])
    for path in [None] + R.sample([f for f in sorted(os.listdir('configs')) if f.endswith('.json')], 2):
        if path is None:
            ks = R.sample(sorted(base), R.randrange(len(base) + 1)) + ['extra_%d' % k for k in range(R.randrange(3))]
            R.shuffle(ks)
            own = {k: value() for k in ks}
            path = 'mine.json'
            with open(path, 'w') as f:
                json.dump(own, f, indent=R.choice([None, 2]))
        else:
            path = 'configs/' + path
            own = json.load(open(path))
        c = C.get_config(path)
        want = dict(base)
        want.update(own)
        same(c, want, 'settings of %s' % path)
        need(C.get_config(path) is not c, 'two readers share their settings')
        # settings may be changed through either way of access, and others are not affected
        for _ in range(R.randrange(1, 12)):
            k, v = R.choice(sorted(want) + ['later', 'more']), value()
            how = R.randrange(5)
            if how == 0:
                setattr(c, k, v)
                want[k] = v
            elif how == 1:
                c[k] = v
                want[k] = v
            elif how == 2 and k in want:
                delattr(c, k)
                del want[k]
            elif how == 3:
                c.update({k: v})
                want[k] = v
            elif k not in want:
                for get in (lambda: getattr(c, k), lambda: c[k]):
                    try:
                        get()
                    except (KeyError, AttributeError):
                        continue
                    need(False, 'a setting that does not exist has a value: %s', k)
            same(c, want, 'settings of %s after changes' % path)
        fresh = dict(base)
        fresh.update(own)
        same(C.get_config(path), fresh, 'settings of %s, read again' % path)
        same(C.get_default_config(), base, 'default settings')
        stat['settings judged'] = stat.get('settings judged', 0) + len(want)


def same(c, want, what):
    for k in want:
        need(k in c, '%s: %s is missing', what, k)
        for v in (c[k], getattr(c, k)):
            need(type(v) is type(want[k]) and v == want[k], '%s: %s is %r, expected %r', what, k, v, want[k])
    need(set(c) == set(want), '%s: unexpected %s', what, sorted(set(c) ^ set(want)))


FN = {'plots': plots, 'settings': settings, 'metrics': metrics, 'generate': generate, 'reader': reader, 'tours': tours, 'beam': beam, 'beam_sharp': beam_sharp, 'forward': forward}
res = []
for job in json.load(open(jobs)):
    r, stat = {'job': job}, {}
    try:
        FN[job['fn']](random.Random('%s|%d' % (job['fn'], job['seed'])), stat)
    except Bad as e:
        r['bad'] = str(e)
    except (Exception, SystemExit) as e:
        tb = traceback.extract_tb(e.__traceback__)
        last = tb[-1].filename
        txt = '%s: %s (%s:%d)' % (type(e).__name__, str(e)[:200], os.path.basename(last), tb[-1].lineno)
        if isinstance(e, ImportError) or last.startswith(STUBS) or 'torch' in txt or 'Tensor' in txt:
            r['stub'] = txt
        elif last == os.path.abspath(__file__):
            traceback.print_exc()
            raise
        else:
            r['bad'] = '%s fails: %s' % (job['fn'], txt)
    r['stat'] = stat
    res.append(r)
json.dump(res, open(outp, 'w'), default=float)
