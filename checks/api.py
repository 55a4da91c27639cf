"""Checks of the library's parts through their headers (api.c) and of the readers (dump.c)."""
import math
import os
import re
import struct
import subprocess

import instances as I
from vlib import Check, HarnessError, SAN_ENV, sanitizer_report, tail

SAN = ('-O1', '-g', '-fsanitize=address,undefined', '-fno-omit-frame-pointer')


def api(prop, whats, cases, configs=((24, 0), (24, 1), (5, 0), (60, 1)), rule='', assume=(), large=None):
    def go():
        chk = Check(prop, 'exploration')
        big = ((400, 0), (400, 1)) if large else ()      # more than 65536 edges
        exes = dict(zip(configs + big, chk.map(lambda c: chk.build_harness('api.c', c[0], c[1], cc='clang' if c[0] == 60 else 'gcc', flags=SAN), configs + big)))
        R = chk.rng('api')
        jobs = []
        for w in whats:
            k = chk.q(cases[w], cases[w] * 25)
            for c in configs:
                for part in range(2 if k > 2000 else 1):
                    jobs.append((w, c, R.randrange(10**9), k // (2 if k > 2000 else 1)))
        for w in large or ():
            jobs = [(w, c, R.randrange(10**9), chk.q(large[w], large[w] * 8)) for c in big] + jobs
        nontrivial = 0

        def one(j):
            w, c, seed, k = j
            r = chk.run([exes[c], w, str(seed), str(k)], timeout=chk.q(150, 350), env=SAN_ENV)
            if r[3]:
                r = chk.run([exes[c], w, str(seed), str(k)], timeout=chk.q(200, 400), env=SAN_ENV)
            return j, subprocess.CompletedProcess([], r[0], r[1], 'no answer (twice)' if r[3] else r[2])
        for (w, c, seed, k), r in chk.map(one, jobs):
            how = 'build harness/api.c with -DMAX_VERTEX_NUM=%d -DHYBRID=%d and run: api %s %d %d' % (c[0], c[1], w, seed, k)
            ended, last = False, '?'
            for ln in r.stdout.split('\n'):
                if ln.startswith('CASE '):
                    last = ln[5:]
                elif ln.startswith('BAD '):
                    key, msg = ln[4:].split(' ', 1)
                    chk.violate('%s_%d_%d_%d' % (key, seed, c[0], c[1]), '%s (%s case %s, build for %d, hybrid %d, seed %d)' % (msg, w, key.split('_')[-1], c[0], c[1], seed), how=how)
                elif ln.startswith('COUNT '):
                    _, a, v = ln.split()
                    if a == 'cases':
                        chk.cov['evaluations'] += int(v)
                    elif a == 'nontrivial':
                        nontrivial += int(v)
                    elif int(v):
                        if (w, a) == ('heap', 'extra'):
                            chk.counts['highest degree in the heap'] = max(int(v), chk.counts.get('highest degree in the heap', 0))
                        else:
                            chk.count('%s %s' % (w, {'extra': 'not connected', 'ops': 'operations', 'ties': 'equal neighbours'}.get(a, a)), int(v))
                elif ln == 'END':
                    ended = True
            if r.returncode or not ended:
                rep = sanitizer_report(r.stderr)
                chk.violate('crash_%s_%s_%d_%d_%d' % (w, last, seed, c[0], c[1]), '%s case %s (build for %d, hybrid %d): exit %d, %s' % (
                    w, last, c[0], c[1], r.returncode, rep or tail(r.stderr, 400)), how=how)
            chk.sample('api %s seed %d, %d cases, build for %d, hybrid %d: exit %d' % (w, seed, k, c[0], c[1], r.returncode))
        return chk.finish(rule, assume, nontrivial)
    return go


# ---- readers ---------------------------------------------------------------------------------------------------------
def f32(x):
    return struct.unpack('f', struct.pack('f', x))[0]


def num(R, v):
    k = R.randrange(6)
    if k == 0:
        return '%r' % v
    if k == 1:
        return '%.12e' % v
    if k == 2:
        return '%.20f' % v
    if k == 3:
        return '%g' % v
    if k == 4:
        return '%+.6f' % v if v >= 0 else '%.6f' % v
    return '%d' % round(v) if abs(v) >= 1 else '%r' % v


def parse_dump(text):
    g = {'nodes': [], 'edges': []}
    for ln in text.split('\n'):
        w = ln.split(' ')
        if w[0] == 'GRAPH':
            g['head'] = [int(x) for x in w[1:5]] + [float(w[5])]
        elif w[0] == 'NODE':
            g['nodes'].append((int(w[1]), float(w[2]), float(w[3]), [int(x) for x in w[4:]]))
        elif w[0] == 'EDGE':
            g['edges'].append([int(x) for x in w[1:5]] + [float(x) for x in w[5:9]] + [int(x) for x in w[9:11]] + [float(x) for x in w[11:13]])
    return g if 'head' in g else None


def graph_problem(g, P, W, Q, tol=0.0):
    """The dumped graph against coordinates, weights (None: no edge) and probabilities."""
    n = len(P)
    want = [(i, j) for i in range(n) for j in range(i + 1, n) if W[i][j] is not None]
    nn, ne, kind, ordered, cost = g['head']
    if nn != n or ne != len(want):
        return '%d nodes and %d edges read, the file has %d and %d' % (nn, ne, n, len(want))
    for i, (pos, x, y, nb) in enumerate(g['nodes']):
        if pos != i or abs(x - P[i][0]) > tol * abs(P[i][0]) or abs(y - P[i][1]) > tol * abs(P[i][1]):
            return 'node %d read as number %d at (%r, %r), the file says (%r, %r)' % (i, pos, x, y, P[i][0], P[i][1])
        if sorted(nb) != [j for j in range(n) if j != i and W[i][j] is not None]:
            return 'node %d has the neighbours %s' % (i, nb)
    seen = set()
    for k, (a, b, sym, pos, w, p, w1, w2, p1, p2, q1, q2) in enumerate(g['edges']):
        if not (0 <= a < n and 0 <= b < n) or a == b or W[a][b] is None or (min(a, b), max(a, b)) in seen:
            return 'edge %d-%d read' % (a, b)
        seen.add((min(a, b), max(a, b)))
        if abs(w - W[a][b]) > tol * abs(W[a][b]) + (1e-30 if tol else 0):
            return 'weight %r of %d-%d, the file says %r' % (w, a, b, W[a][b])
        if p != Q[a][b]:
            return 'probability %r of %d-%d, should be %r' % (p, a, b, Q[a][b])
        if q1 != p or q2 != p:
            return 'the matrix gives %d-%d the probabilities %r and %r, should be %r' % (a, b, q1, q2, p)
        if w1 != w or w2 != w or p1 != k or p2 != k or pos != k or sym != k + 1:
            return 'edge %d (%d-%d) is described as symbol %d, position %d (%d, %d), weights %r, %r, %r' % (k, a, b, sym, pos, p1, p2, w, w1, w2)
    tot = sum(W[a][b] for a, b in want)
    if abs(tot - cost) > (1e-9 + tol) * (1 + sum(abs(W[a][b]) for a, b in want)):
        return 'cost %r, the weights sum to %r' % (cost, tot)
    if ordered:
        return 'edges marked as sorted'
    return None


def readers(prop, fmt):
    def go():
        chk = Check(prop)
        sizes = [(8, 0), (8, 1), (40, 1), (100, 0), (400, 0), (400, 1)] if fmt == 'csv' else [(8, 0), (40, 1), (100, 0)]
        exes = dict(zip(sizes, chk.map(lambda c: chk.build_harness('dump.c', c[0], c[1], flags=SAN), sizes)))
        R = chk.rng('read')
        jobs = []
        for k in range(chk.q(700, 8000)):
            large = fmt == 'csv' and k in (30, 60)        # more than 65536 edges
            N, h = sizes[-1 if k == 60 else -2] if large else R.choice([c for c in sizes if c[0] < 400])
            n = R.randint(364, N) if large else R.choice([1, 2, 3, N, N, R.randint(1, N)])
            p = os.path.join(chk.dir, '%s_%d_%d.%s' % (fmt, N, k, fmt))
            if fmt == 'csv':
                P = [(R.uniform(-10, 10), R.uniform(0, 1)) for _ in range(n)]
                sc, low = R.choice([(1, 1e-9), (1, 1e-9), (1e6, 1e-9), (1e-6, 1e-9), (1e-12, 1e-30), (1e-30, 1e-300)])
                dens = 1 if large else R.choice([1, 1, .8, .3])
                lower = R.random() < .3          # the predictions below the diagonal differ: those above it are read
                sp, sp2 = R.choice(['', ' ', ' ']), R.choice(['', '', ' '])
                end = R.choice(['\n', '\n', ''])
                semi = R.choice([';', ';', ''])
                fmtn = (lambda v: num(R, v)) if R.random() < .6 else repr
                rows, W, Q = [[None] * n for _ in range(n)], [[None] * n for _ in range(n)], [[0.0] * n for _ in range(n)]
                for i in range(n):
                    for j in range(i, n):
                        w = 0.0 if i == j or R.random() > dens else R.random() * sc + low
                        q = R.choice([0.0, 1.0, R.random(), R.random(), 1e-300, 5e-324])
                        a, b = fmtn(w) if w else R.choice(['0', '0.0', '0.000']), repr(q)
                        if w and float(a) <= 0:
                            a = repr(w)
                        rows[i][j] = rows[j][i] = '(%s,%s%s%s)' % (a, sp, b, sp2)
                        if lower and i != j:
                            rows[j][i] = '(%s,%s%r%s)' % (a, sp, R.random(), sp2)
                        if w:
                            W[i][j] = W[j][i] = float(a)
                            Q[i][j] = Q[j][i] = float(b) if h else 0.0
                pts = [(fmtn(x), fmtn(y)) for x, y in P]
                body = ';'.join('(%s,%s%s)' % (a, sp, b) for a, b in pts) + R.choice(['', ';']) + '\n' + '\n'.join(';'.join(r) + semi for r in rows) + end
                P, tol = [(float(a), float(b)) for a, b in pts], 0.0
            else:
                P = []
                for i in range(n):
                    sc = R.choice([1, 1000, 1e5])
                    P.append((num(R, R.uniform(-1, 1) * sc), num(R, R.uniform(0, 1) * sc)))
                    if i and R.random() < .05:
                        P[-1] = P[R.randrange(i)]
                ids = list(range(1, n + 1)) if R.random() < .7 else R.sample(range(60000), n)
                hdr = ['NAME: t%d' % k, 'TYPE : TSP', 'COMMENT : made here, NODE coordinates, EOF excluded', 'DIMENSION: %d' % n, R.choice(['EDGE_WEIGHT_TYPE: EUC_2D', 'EDGE_WEIGHT_TYPE : EUC_2D', 'EDGE_WEIGHT_TYPE:EUC_2D'])]
                if R.random() < .3:
                    hdr.append('DISPLAY_DATA_TYPE: COORD_DISPLAY')
                body = '\n'.join(hdr + ['NODE_COORD_SECTION']) + '\n' + ''.join('%s%d%s%s%s%s\n' % (R.choice(['', ' ', '  ']), ids[i], s, P[i][0], s, P[i][1]) for i in range(n) for s in [R.choice([' ', '  ', '\t'])])
                body += R.choice(['EOF\n', 'EOF', '', ' EOF\n', 'EOF\n\n'])
                P = [(f32(float(a)), f32(float(b))) for a, b in P]
                W = [[math.dist(a, b) if i != j else None for j, b in enumerate(P)] for i, a in enumerate(P)]
                Q, tol = [[0.0] * n for _ in range(n)], 2e-6
            with open(p, 'w') as f:
                f.write(body)
            jobs.append((N, h, n, p, P, W, Q, tol, body))

        def one(j):
            N, h, n, p, P, W, Q, tol, body = j
            r = chk.run([exes[(N, h)], fmt, p], timeout=60, env=SAN_ENV)
            if r[3]:
                r = chk.run([exes[(N, h)], fmt, p], timeout=120, env=SAN_ENV)
            r = subprocess.CompletedProcess([], r[0], r[1], 'no answer (twice)' if r[3] else r[2])
            if r.returncode:
                return j, 'exit %d on a valid file: %s' % (r.returncode, sanitizer_report(r.stderr) or tail(r.stderr or r.stdout, 300))
            g = parse_dump(r.stdout)
            if open(p).read() != body:
                return j, 'the instance file was modified'
            return j, graph_problem(g, P, W, Q, tol) if g else 'nothing read'
        seen = set()
        for j, m in chk.map(one, jobs):
            N, h, n, p, P, W, Q, tol, body = j
            chk.cov['evaluations'] += 1
            chk.count('edges compared', sum(1 for i in range(n) for k in range(i) if W[i][k] is not None))
            if n >= 3:
                seen.add(body)
                if len(body) < 400:
                    chk.sample(body)
            if m:
                chk.violate('%s_%d_%d_%d' % (fmt, N, h, n) + '_' + os.path.basename(p), '%d cities, build for %d, hybrid %d: %s' % (n, N, h, m), [p])
            os.unlink(p)
        return chk.finish('random files in the %s format (number notations, spacing, missing edges, terminators, sizes up to that of the build), read by the '
                          'library and compared with what was written; non-trivial: at least 3 cities' % ('csv' if fmt == 'csv' else 'TSPLIB'),
                          ['files are well formed; rejected ones belong to C21'] + ([] if fmt == 'csv' else ['coordinates are compared as single precision numbers']), len(seen))
    return go


# ---- bad input --------------------------------------------------------------------------------------------------------
def bad_input():
    chk = Check('C21', 'fault_enumeration')
    sizes = [(6, 0), (6, 1), (20, 0)]
    sol = dict(zip(sizes, chk.map(lambda c: chk.build_solver(c[0], c[1], cc='gcc', flags=SAN, tag='s'), sizes)))
    dmp = dict(zip(sizes, chk.map(lambda c: chk.build_harness('dump.c', c[0], c[1], flags=SAN), sizes)))
    R = chk.rng('bad')
    jobs = []   # (what, args, file, body, output, expected to be refused)
    d = chk.dir

    def put(name, body):
        p = os.path.join(d, name)
        with open(p, 'w') as f:
            f.write(body)
        return p
    tokens = ['', 'x', '(', '()', '(1.0)', '(1.0 2.0)', '1.0, 2.0', '[1.0, 2.0]', '(a, b)', '(1.0, )', '(, 1.0)', '(1.0; 2.0)', 'nan?', '(1.0,, 2.0)', '\t', '((1.0, 2.0))', '(--1, 2)']
    for c in sizes:
        N, h = c
        for n in (3, 5, N):
            P, W, Q = I.make(n, 'u', 'uni', R.randrange(10**9))
            lines = I.text(P, W, Q).rstrip('\n').split('\n')
            spots = [(0, k) for k in range(n)] + [(i + 1, j) for i in range(n) for j in range(n) if j != i]
            for (ln, k) in spots if (chk.tier == 'thorough' or n < 6) else R.sample(spots, 30):
                for t in (tokens if chk.tier == 'thorough' else R.sample(tokens, 6)):
                    if t == '' or t.count(';'):
                        continue
                    L = list(lines)
                    tk = L[ln].split(';')
                    tk[k] = t
                    L[ln] = ';'.join(tk)
                    p = put('tok_%d_%d_%d_%d_%d_%d.csv' % (N, h, n, ln, k, len(jobs)), '\n'.join(L) + '\n')
                    jobs.append(('token %r at line %d, column %d of a file of %d cities' % (t, ln + 1, k + 1, n), [sol[c], p], p, None, True))
        for n in (N + 1, N + 2, 2 * N, 5 * N, 70):
            P, W, Q = I.make(n, 'u', 'uni', R.randrange(10**9))
            body = I.text(P, W, Q)
            jobs.append(('%d cities for a build for %d' % (n, N), [sol[c], put('big_%d_%d_%d.csv' % (N, h, n), body)], None, None, True))
            L = body.split('\n')
            jobs.append(('%d rows for a build for %d' % (n, N), [sol[c], put('rows_%d_%d_%d.csv' % (N, h, n), '\n'.join([';'.join(L[0].split(';')[:N])] + [';'.join(x.split(';')[:N]) + ';' for x in L[1:]]) + '\n')], None, None, True))
            jobs.append(('%d columns for a build for %d' % (n, N), [sol[c], put('cols_%d_%d_%d.csv' % (N, h, n), '\n'.join([';'.join(L[0].split(';')[:N])] + L[1:N + 1]) + '\n')], None, None, True))
        for n in (3, 5, N - 1, N):
            P, W, Q = I.make(n, 'u', 'uni', R.randrange(10**9))
            L = I.text(P, W, Q).rstrip('\n').split('\n')
            for r in range(n + 1):
                for k in (-1, 1):
                    S = list(L)
                    t = [x for x in S[r].rstrip(';').split(';')]
                    S[r] = ';'.join(t[:-1] if k < 0 else t + ['(0.5, 0.5)']) + (';' if r else '')
                    jobs.append(('%d entries %s for %d cities (build for %d)' % (n + k, 'in row %d' % r if r else 'in the first line', n, N), [sol[c], put('shape_%d_%d_%d_%d_%d.csv' % (N, h, n, r, k), '\n'.join(S) + '\n')], None, None, True))
            jobs.append(('%d rows for %d cities (build for %d)' % (n + 1, n, N), [sol[c], put('shape_%d_%d_%d_r.csv' % (N, h, n), '\n'.join(L + L[-1:]) + '\n')], None, None, True))
        for k, body in enumerate(('', '\n', ';\n')):
            jobs.append(('an instance without cities (%r)' % body, [sol[c], put('none_%d_%d_%d.csv' % (N, h, k), body)], None, None, True))
        P, W, Q = I.make(5, 'u', 'uni', R.randrange(10**9))
        good = put('good_%d_%d.csv' % c, I.text(P, W, Q))
        jobs.append(('no such file', [sol[c], os.path.join(d, 'missing', 'x.csv')], None, None, True))
        jobs.append(('output in a folder that does not exist', [sol[c], good], good, os.path.join(d, 'missing', 'x.out'), True))
        jobs.append(('output on a full device', [sol[c], good], good, '/dev/full', True))
        jobs.append(('output is a folder', [sol[c], good], good, d, True))
        jobs.append(('a valid file', [sol[c], good], good, None, False))
        for extra in ([], [good], [good, good + '.o', 'third'], [good, good + '.o', 'third', 'fourth']):
            jobs.append(('%d arguments' % len(extra), [sol[c]] + extra, good, False, True))
        # TSPLIB, through the reader
        cities = lambda n: ''.join('%d %.3f %.3f\n' % (i + 1, R.random() * 100, R.random() * 100) for i in range(n))
        hdr = 'NAME: t\nTYPE: TSP\nDIMENSION: 5\nEDGE_WEIGHT_TYPE: %s\nNODE_COORD_SECTION\n'
        for ty in ('CEIL_2D', 'ATT', 'GEO', 'EXPLICIT', 'EUC_3D', 'MAN_2D'):
            jobs.append(('TSPLIB file of type ' + ty, [dmp[c], 'tsp', put('t_%s_%d_%d.tsp' % (ty, N, h), (hdr % ty) + cities(5) + 'EOF\n')], None, False, True))
        jobs.append(('TSPLIB file without type', [dmp[c], 'tsp', put('t_none_%d_%d.tsp' % c, (hdr % 'X').replace('EDGE_WEIGHT_TYPE: X\n', '') + cities(5) + 'EOF\n')], None, False, True))
        jobs.append(('valid TSPLIB file', [dmp[c], 'tsp', put('t_ok_%d_%d.tsp' % c, (hdr % 'EUC_2D') + cities(5) + 'EOF\n')], None, False, False))
        jobs.append(('missing TSPLIB file', [dmp[c], 'tsp', os.path.join(d, 'nofile.tsp')], None, False, True))
        for n in (N + 1, 3 * N, 100):
            jobs.append(('TSPLIB file of %d cities for a build for %d' % (n, N), [dmp[c], 'tsp', put('t_big_%d_%d_%d.tsp' % (N, h, n), (hdr % 'EUC_2D') + cities(n) + 'EOF\n')], None, False, True))
        for k in range(5):
            for t in ('1 2\n', 'a b c\n', '1 x 3\n', '\n', '1 2 y\n'):
                L = cities(5).split('\n')[:5]
                L[k] = t.rstrip('\n')
                jobs.append(('TSPLIB city %d written %r' % (k + 1, t), [dmp[c], 'tsp', put('t_tok_%d_%d_%d.tsp' % (N, h, len(jobs)), (hdr % 'EUC_2D') + '\n'.join(L) + '\nEOF\n')], None, False, True))

    def one(a):
        k, (what, args, f, outp, refuse) = a
        args = list(args)
        if outp is not False:
            args.append(outp if outp else os.path.join(d, 'o_%d.out' % k))
        before = open(f).read() if f else None
        rc, so, err, hung = chk.run(args, timeout=60, env=SAN_ENV, cwd=d)
        san = sanitizer_report(err)
        if hung:
            return a, 'no answer'
        if san:
            return a, san
        if f and open(f).read() != before:
            return a, 'the instance file was modified'
        if refuse and rc == 0:
            return a, 'accepted (exit 0)'
        if refuse and rc < 0:
            return a, 'killed by signal %d' % -rc
        if refuse and not (err.strip() or so.strip()):
            return a, 'refused without a message'
        if not refuse and rc:
            return a, 'refused with exit %d: %s' % (rc, err[-200:])
        return a, None
    seen = set()
    for (k, (what, args, f, outp, refuse)), m in chk.map(one, list(enumerate(jobs))):
        chk.cov['evaluations'] += 1
        chk.count('refused' if refuse else 'accepted')
        seen.add((what, os.path.basename(args[0])))
        if k % 97 == 0:
            chk.sample('%s: %s' % (what, 'refused' if refuse else 'accepted'))
        if m:
            chk.violate(re.sub(r'\W+', '_', what)[:60] + '_%d' % k, '%s: %s' % (what, m), [x for x in args[1:] if os.path.isfile(x) and x.startswith(d)])
    return chk.finish('one fault per run: a malformed token at any position, more cities, rows or columns than the build holds or the first line says, one too few, no city at all, missing files, outputs that '
                      'cannot be opened or written, wrong arguments, TSPLIB files of other types or with malformed cities; built with ASan and UBSan; '
                      'every case is distinct and non-trivial', ['a matrix with fewer rows than cities is not among the faults: the missing edges are read as absent (the example of the repository is read like that)'], len(seen))
