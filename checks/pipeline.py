"""C24 to C27, C30 to C32: the Python side (HybridSolver.py, the network's pre- and post-processing, the analyzer...).  PyTorch and
some other packages are not installed: harness/stubs has stand-ins for the parts of them that are used."""
import json
import math
import os
import random
import re
import shutil
import subprocess
import time

import instances as I
import solver as S
from vlib import Check, HS, MAIN, PYVT, VERIF, HarnessError, eps, parse_report, tail, tour_problem

STUBS = os.path.join(VERIF, 'harness', 'stubs')
DRIVE = os.path.join(VERIF, 'harness', 'py')
GCN = os.path.join(MAIN, 'graph-convnet-tsp')


def pyenv(**k):
    return dict(os.environ, PYTHONPATH=STUBS, PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', PYTHONHASHSEED='0', **k)


def gcn_copy(d):
    """A copy of graph-convnet-tsp without its data, with configurations and empty checkpoints for the three models."""
    shutil.copytree(GCN, d, ignore=shutil.ignore_patterns('__pycache__', 'data', 'logs', 'figs'))
    os.makedirs(os.path.join(d, 'data', 'hyb_tsp'))
    for f in os.listdir(os.path.join(GCN, 'data')):
        if f.endswith('.py'):
            shutil.copy(os.path.join(GCN, 'data', f), os.path.join(d, 'data'))
    for m in (20, 50, 100):
        with open(os.path.join(d, 'configs', 'tsp%d.json' % m)) as f:
            c = json.load(f)
        c.update(expt_name='tsp%d' % m, num_nodes=m)
        os.makedirs(os.path.join(d, 'logs', 'tsp%d' % m))
        with open(os.path.join(d, 'logs', 'tsp%d' % m, 'config.json'), 'w') as f:
            json.dump(c, f)
        with open(os.path.join(d, 'logs', 'tsp%d' % m, 'best_val_checkpoint.tar'), 'w'):
            pass
    return d


def model_of(n):
    return 20 if n <= 20 else 50 if n <= 50 else 100


def drive(chk, script, jobs, env=None, cwd=None, parts=8, timeout=600):
    """Runs the driver on the jobs in parallel processes, each in its own copy of graph-convnet-tsp (or in cwd(k)) -> results."""
    parts = max(1, min(parts, len(jobs)))

    def one(k):
        d = cwd(k) if cwd else gcn_copy(os.path.join(chk.dir, 'gcn_%s_%d' % (script[:-3], k)))
        with open(os.path.join(d, 'jobs.json'), 'w') as f:
            json.dump(jobs[k::parts], f)
        rc, out, err, hung = chk.run([PYVT, os.path.join(DRIVE, script), 'jobs.json', 'results.json'], timeout=timeout, env=env or pyenv(), cwd=d)
        if hung:
            return [{'job': jobs[k::parts][0], 'hung': True}]
        if rc:
            raise HarnessError('%s: exit %d\n%s' % (script, rc, tail(err, 2500)))
        with open(os.path.join(d, 'results.json')) as f:
            return json.load(f)
    return [r for rs in chk.map(one, list(range(parts))) for r in rs]


# ---- what the network is given and what is written for the solver -----------------------------------------------------
def gcn():
    chk = Check('C25')
    R = chk.rng('gcn')
    jobs = []
    sizes = [2, 3, 4, 5, 7, 9, 10, 11, 13, 15, 17, 18, 19, 20, 21, 22, 25, 26, 30, 37, 44, 49, 50, 51, 60, 75, 88, 99, 100, 101, 105, 110, 120, 130]
    for rep in range(chk.q(12, 150)):
        for n in sizes:
            jobs.append(dict(n=n, model=model_of(n), kind=R.choice(['u', 'u', 'grid', 'clu', 'line', 'short', 'close', 'tiny']), net=R.choice(['uni', 'sharp', 'huge', 'sym', 'equal']),
                             seed=R.randrange(2**31), end=R.choice([' \n', '\n', ''])))
    R.shuffle(jobs)
    seen = set()
    for r in drive(chk, 'gcn.py', jobs, pyenv(STUB_NET='1')):
        j = r['job']
        if r.get('hung') or 'stub' in r:
            chk.inconclusive += 1
            if 'stub' in r:
                chk.note('stand-in: ' + r['stub'])
            continue
        chk.cov['evaluations'] += 1
        chk.count('instances with dummy cities' if j['n'] < j['model'] else 'instances with clustered cities' if j['n'] > j['model'] else 'instances of the size of the network')
        for k, v in r['stat'].items():
            chk.count(k, v)
        if 'bad' in r:
            p = os.path.join(chk.dir, 'instance_%d_%d.txt' % (j['n'], j['seed']))
            with open(p, 'w') as f:
                f.write(r['line'])
            chk.violate('gcn_%d_%s_%d' % (j['n'], j['kind'], j['seed']), '%d cities, network for %d (%s, %s): %s' % (j['n'], j['model'], j['kind'], j['net'], r['bad']), [p])
        else:
            seen.add((j['n'], j['kind'], j['seed']))
            chk.sample('%d cities, network for %d: inputs and %d edges of the file as expected' % (j['n'], j['model'], r['stat'].get('edges', 0)))
    return chk.finish('main.py of the network run on random instances of 2 to 130 cities (uniform, grid, clusters, collinear, close pairs, tiny coordinates), with a recording network that '
                      'answers with chosen logits (uniform, sharp, down to 1e-30, symmetric, equal); non-trivial: file written and judged',
                      ['the network is replaced by a recorder: its trained weights are not in the repository, and PyTorch is not installed (harness/stubs)',
                       'coordinates are distinct and in [0, 1]', 'k-medoids is a stand-in that returns cities of the instance'], len(seen))


# ---- the whole pipeline: HybridSolver.py -----------------------------------------------------------------------------
def dataset_line(R, n, kind):
    P = []
    while len(P) < n:
        if kind == 'grid':
            k = 9
            p = (R.randrange(k + 1) / k, R.randrange(k + 1) / k) if n <= 60 else (R.randrange(101) / 100, R.randrange(101) / 100)
        elif kind == 'tiny':
            p = (R.random() * R.choice([1, 1e-3]), R.random() * R.choice([1, 1e-3]))
        else:
            p = (R.random(), R.random())
        if all(abs(p[0] - q[0]) + abs(p[1] - q[1]) > 1e-5 for q in P):
            P.append(p)
    t = list(range(2, n + 1))
    R.shuffle(t)
    return P, ' '.join('%r %r' % q for q in P) + ' output ' + ' '.join(str(v) for v in [1] + t + [1])


def snapshot(d):
    out = {}
    for b, _, fs in os.walk(d):
        for f in fs:
            p = os.path.join(b, f)
            with open(p, 'rb') as g:
                out[os.path.relpath(p, d)] = g.read()
    return out


def hybrid_tree(chk, k):
    """A scratch HybridSolver tree without data or results, with empty checkpoints."""
    d = os.path.join(chk.dir, 'tree%d' % k)
    os.makedirs(d)
    ig = shutil.ignore_patterns('graph-convnet-tsp', '__pycache__', 'cmake-build*', 'CMakeFiles')
    shutil.copytree(MAIN, os.path.join(d, 'main'), ignore=ig)
    shutil.copytree(os.path.join(HS, 'test'), os.path.join(d, 'test'), ignore=ig)
    shutil.copy(os.path.join(HS, 'CMakeLists.txt'), d)
    gcn_copy(os.path.join(d, 'main', 'graph-convnet-tsp'))
    return d


def same_points(P, H):
    return len(P) == len(H) and all(a == b for a, b in zip(P, H))


def judge_instance(d, n, i, hybrid, P, seed, kind, big, ref):
    """The adjacency matrix and the report of one instance -> (problem or None, report)"""
    csv = os.path.join(d, 'data/AdjacencyMatrix/tsp_%d_nodes/tsp_test_%d.csv' % (n, i))
    txt = os.path.join(d, 'results/AdjacencyMatrix/tsp_%d_nodes_%s/tsp_result_%d.txt' % (n, 'hybrid' if hybrid else 'classic', i))
    for p in (csv, txt):
        if not os.path.isfile(p):
            return 'no file %s' % os.path.relpath(p, d), None
    with open(csv) as f:
        H = [tuple(float(x) for x in re.findall(r'[-+.\deE]+', c)) for c in f.readline().strip().strip(';').split(';')]
    if sorted(H) != sorted(P) or (H != P and not (hybrid and n > 100)):
        return 'the cities of the adjacency matrix are not those of instance %d' % i, None
    m, W, Q = I.read_csv(csv)
    if m != n:
        return 'adjacency matrix of %d rows' % m, None
    for a in range(n):
        for b in range(a + 1, n):
            t = math.dist(H[a], H[b])
            if abs(W[a][b] - t) > (2e-6 * t + 1e-7 if hybrid else 1e-12 * t):
                return 'weight %r of %d-%d, which are %r apart' % (W[a][b], a, b, t), None
            if not 0 <= Q[a][b] <= 1 or (not hybrid and Q[a][b] != 0):
                return 'probability %r of %d-%d' % (Q[a][b], a, b), None
    if hybrid and n in (20, 50, 100):
        want = stub_probs(n, seed, kind)
        for a in range(n):
            for b in range(a + 1, n):
                if abs(want[a][b] - Q[a][b]) > 1e-6:
                    return 'probability %r of %d-%d instead of the network\'s %r' % (Q[a][b], a, b, want[a][b]), None
    with open(txt, errors='replace') as f:
        text = f.read()
    rep = parse_report(text)
    if rep is None:
        return 'no solution in the report: %r' % text[-300:], None
    if text.count('SUBPROBLEM with cost') != 1 or text.count('Time taken: ') != 1 or text.count('Nodes:') != 1:
        return 'the report holds %d solutions, %d lists of nodes, %d times' % (text.count('SUBPROBLEM with cost'), text.count('Nodes:'), text.count('Time taken: ')), rep
    bad = tour_problem(rep, n, W, Q, hybrid)
    if bad:
        return bad, rep
    ub = re.search(r'GHOSH_UB = (\S+), SUBPROBLEM_UB = (\S+)', text)
    if not ub or abs(float(ub.group(1).rstrip(',')) - n ** .5 * 1.27) > 1e-4:
        return 'the solver was not built for %d cities: %s' % (n, ub and ub.group(0)), rep
    if not big and rep['interrupted'] != 'FALSE':
        return 'interrupted', rep
    if rep['interrupted'] == 'FALSE' and ref and rep['cost'] > ref + eps(n):
        return 'tour of %r, the optimum is %r' % (rep['cost'], ref), rep
    tailm = re.search(r'\nNodes: *\n((?:\t.*\n)*)\s*Time taken: ([0-9.eE+-]+)s\s*\Z', text)
    if not tailm:
        return 'the report does not end with the nodes and the time: %r' % text[-200:], rep
    rows = [r.split() for r in tailm.group(1).strip('\n').split('\n')]
    if [r[0] for r in rows] != [str(j) for j in range(n)] or [(float(r[2]), float(r[3])) for r in rows] != H:
        return 'the nodes listed in the report are not the cities of the matrix, in its order', rep
    rep['took'] = float(tailm.group(2))
    if rep['took'] < 0:
        return 'negative time', rep
    return None, rep


def stub_probs(n, seed, kind):
    r = subprocess.run([PYVT, '-c', 'import stubnet, json; print(json.dumps(stubnet.probs(%d).tolist()))' % n], capture_output=True, text=True,
                       env=pyenv(STUB_SEED=str(seed), STUB_KIND=kind))
    return json.loads(r.stdout)


def hybrid_solver():
    chk = Check('C24')
    bind = os.path.join(chk.dir, 'bin')
    os.makedirs(bind)
    with open(os.path.join(bind, 'python3'), 'w') as f:
        f.write('#!/bin/sh\nexec %s "$@"\n' % PYVT)
    os.chmod(os.path.join(bind, 'python3'), 0o755)
    so = S.vclock(chk)
    orc = S.build_oracle(chk)
    R = chk.rng('hybrid')
    big = [20, 50, 100, R.choice([101, 105, 110]), R.choice([19, 18]), R.choice([21, 22, 49]), R.choice([51, 60, 99]), R.choice([115, 120, 130])]
    big += [R.choice([16, 21, 34, 50, 51, 75, 100, 101, 125]) for _ in range(chk.q(0, 56))]
    R.shuffle(big)
    trees = chk.q(8, 16)
    plans = []
    for t in range(trees):
        steps = []
        small = R.sample([3, 4, 5, 6, 7, 8, 9, 10, 11, 12], 2)
        for n in small:
            steps += [(n, R.random() < .5), (n, R.random() < .5)]
        steps = steps[:3] + ([steps[3]] if chk.tier == 'thorough' else [])
        steps += [(b, True) for b in big[t::trees]]
        if R.random() < .5:
            steps.append((R.choice(small), R.random() < .5))
        R.shuffle(steps)
        plans.append([(n, h, R.randrange(2**31)) for n, h in steps])

    def history(t):
        out, d = [], hybrid_tree(chk, t)
        prev = []
        for n, hybrid, seed in plans[t]:
            r = one_run(d, n, hybrid, seed, prev)
            out.append(r)
            prev.append('%s %d cities %s' % ('hybrid' if hybrid else 'classic', n, r['range']))
            if r.get('bad'):
                break
        shutil.rmtree(d, True)
        return out

    def one_run(d, n, hybrid, seed, prev):
        R = random.Random(seed)
        r = dict(n=n, hybrid=hybrid, seed=seed, prev=list(prev), judged=0)
        data = os.path.join(d, 'main/graph-convnet-tsp/data/hyb_tsp/test_%d_nodes.txt' % n)
        isbig = n > 12
        count = 2 if isbig else R.choice([2, 3, 4])
        lines, pts = [], []
        for _ in range(count):
            P, ln = dataset_line(R, n, R.choice(['u', 'u', 'grid', 'tiny']))
            if not hybrid and R.random() < .3:
                ln = ln.split(' output')[0]
            lines.append(ln)
            pts.append(P)
        sep = R.choice(['\n', ' \n'])
        with open(data, 'w') as f:
            f.write(sep.join(lines) + R.choice(['', sep]))
        a, b = sorted(R.choice(range(1, count + 1)) for _ in '12')
        if isbig:
            a, b = R.choice([(1, 1), (2, 2)])
        form = R.choice(['a-b', 'a-b', 'b', '0-b', 'past', 'a-b', 'rev'] if not isbig else ['a-b', 'a-b', 'b', '0-b', 'past'])
        if form == 'rev':   # an empty range: nothing is asked for
            a, b = (2, 1) if count == 2 else R.choice([(2, 1), (3, 1), (3, 2)])
        if form in ('b', '0-b'):
            a = 1
        rng = {'a-b': '%d-%d' % (a, b), 'rev': '%d-%d' % (a, b), 'b': str(b), '0-b': '0-%d' % b, 'past': '%d-%d' % (a, count + 2)}[form]
        if form == 'past':
            b = count
        r['range'] = rng
        kind = R.choice(['uni', 'sharp', 'sym', 'huge', 'equal'])
        sseed = seed % 100000
        log = os.path.join(d, 'rec.npz')
        env = pyenv(STUB_NET='1', STUB_SEED=str(sseed), STUB_KIND=kind, STUB_LOG=log, PATH=bind + ':' + os.environ.get('PATH', ''))
        if isbig:
            env.update(LD_PRELOAD=so, VC_ONLY='BranchAndBound1Tree', VC_K='2', VC_T='700', VC_STEP='1', VC_BASE='0')
        r['left'] = []
        if R.random() < (.7 if isbig else .5):   # what a run that was stopped may have left behind
            r['left'] = sorted(R.sample(['temp', 'matrix', 'report'], R.choice([1, 2, 3])))
            leftovers(R, d, n, 'hybrid' if hybrid else 'classic', R.randint(a, b) if b >= a else a, r['left'], data)
        before = snapshot_all(d)
        cmd = [PYVT, 'HybridSolver.py', '--range_instances', rng, '--num_nodes', str(n)] + (['--hybrid'] if hybrid else [])
        t0 = time.time()
        rc, out, err, hung = chk.run(cmd, timeout=200, env=env, cwd=os.path.join(d, 'main'))
        wall = time.time() - t0
        after = snapshot_all(d)
        mode = 'hybrid' if hybrid else 'classic'
        r['files'] = [data]
        if hung:
            r['inconclusive'] = 'no answer in 200 s'
            return r
        if 'stubs/' in err or 'ModuleNotFoundError' in err:
            r['inconclusive'] = 'stand-in: ' + tail(err, 600)
            return r
        if (rc == 0) != (form != 'past') and form != 'rev':
            r['bad'] = 'exit %d: %s' % (rc, tail(err, 500))
            return r
        want = set()
        for i in range(a, b + 1):
            want |= {'data/AdjacencyMatrix/tsp_%d_nodes/tsp_test_%d.csv' % (n, i), 'results/AdjacencyMatrix/tsp_%d_nodes_%s/tsp_result_%d.txt' % (n, mode, i)}
        new = {f for f in after if after[f] != before.get(f)}
        gone = {f for f in before if f not in after and not f.endswith('_nodes_temp.txt')}
        if gone or new - want:
            r['bad'] = 'changes %s, removes %s' % (sorted(new - want)[:4], sorted(gone)[:4])
            return r
        paths = {i: os.path.join(d, 'data/AdjacencyMatrix/tsp_%d_nodes/tsp_test_%d.csv' % (n, i)) for i in range(a, b + 1)}
        ref = {}
        if not isbig:
            _, o, _, _ = chk.run([orc, '15'], timeout=100, stdin='\n'.join(p for p in paths.values() if os.path.isfile(p)) + '\n')
            ref = {w[0]: float(w[3]) for w in (l.split() for l in o.splitlines()) if w[2] == '1'}
        took, written = [], []
        for i in range(a, b + 1):
            bad, rep = judge_instance(d, n, i, hybrid, pts[i - 1], sseed, kind, isbig, ref.get(paths[i]))
            if bad:
                r['bad'] = 'instance %d: %s' % (i, bad)
                r['files'] += [paths[i], os.path.join(d, 'results/AdjacencyMatrix/tsp_%d_nodes_%s/tsp_result_%d.txt' % (n, mode, i))]
                keep(r)
                return r
            r['judged'] += 1
            took.append(rep['took'])
            written.append(os.path.getmtime(os.path.join(d, 'results/AdjacencyMatrix/tsp_%d_nodes_%s/tsp_result_%d.txt' % (n, mode, i))))
            if len(written) > 1 and written[-1] > written[-2] and took[-1] > written[-1] - written[-2] + .1:
                r['bad'] = 'instance %d: %r s taken, its report is written %r s after the one before' % (i, took[-1], written[-1] - written[-2])
                return r
            if not isbig and rep['took'] < rep['elapsed'] - .1:
                r['bad'] = 'instance %d: %r s taken, of which the solver took %r' % (i, rep['took'], rep['elapsed'])
                return r
        if sum(took) > wall + .2:
            r['bad'] = 'the run lasts %.2f s, its reports say it took %s' % (wall, took)
            return r
        if hybrid and b >= a:
            k = subprocess.run([PYVT, '-c', 'import numpy, sys; print(int(numpy.load(sys.argv[1])["num_nodes"]))', log], capture_output=True, text=True).stdout.strip()
            if k != str(model_of(n)):
                r['bad'] = 'the network for %s cities is used for %d' % (k, n)
        return r

    def leftovers(R, d, n, mode, i, what, data):
        P, ln = dataset_line(R, n, 'u')
        if 'temp' in what:
            with open(data.replace('_nodes.txt', '_nodes_temp.txt'), 'w') as f:
                f.write(ln + '\n' + (dataset_line(R, n, 'tiny')[1] + '\n') * R.choice([0, 1, 3]))
        m = os.path.join(d, 'data/AdjacencyMatrix/tsp_%d_nodes/tsp_test_%d.csv' % (n, i))
        if 'matrix' in what:
            os.makedirs(os.path.dirname(m), exist_ok=True)
            txt = ';'.join('(%r, %r)' % tuple(c) for c in P) + '\n' + ''.join(''.join('(%r, 0.5);' % math.dist(c, e) for e in P) + '\n' for c in P)
            with open(m, 'w') as f:
                f.write(txt + txt if R.random() < .5 else txt[:R.randrange(len(txt))])
        o = os.path.join(d, 'results/AdjacencyMatrix/tsp_%d_nodes_%s/tsp_result_%d.txt' % (n, mode, i))
        if 'report' in what:
            os.makedirs(os.path.dirname(o), exist_ok=True)
            with open(o, 'w') as f:
                f.write('Optimal tour found with candidate node = 1, elapsed time = 0.1s and interrupted = FALSE\n' * R.choice([1, 400]))

    def keep(r):
        kept = []
        for k, f in enumerate(r['files']):
            if os.path.isfile(f):
                g = os.path.join(chk.dir, 'kept_%d_%d_%s' % (r['seed'], k, os.path.basename(f)))
                shutil.copyfile(f, g)
                kept.append(g)
        r['files'] = kept

    seen = 0
    for rs in chk.map(history, range(trees)):
        for r in rs:
            mode = 'hybrid' if r['hybrid'] else 'classic'
            if r.get('inconclusive'):
                chk.inconclusive += 1
                chk.note(r['inconclusive'])
                continue
            chk.cov['evaluations'] += 1
            chk.count('instances judged, ' + mode, r['judged'])
            chk.count('runs, ' + mode)
            if r.get('left'):
                chk.count('runs over the remains of a stopped one')
            if r.get('bad'):
                chk.violate('%s_%d_%s' % (mode, r['n'], r['seed']), '%s, %d cities, instances %s, after [%s]%s: %s' % (mode, r['n'], r['range'], '; '.join(r['prev']), ' with an old %s' % '/'.join(r['left']) if r.get('left') else '', r['bad']), r['files'])
            else:
                seen += r['judged']
                chk.sample('%s, %d cities, instances %s, after [%s]' % (mode, r['n'], r['range'], '; '.join(r['prev'])))
    rc, out, err, hung = one_city(chk, env=pyenv(STUB_NET='1'))
    chk.cov['evaluations'] += 1
    if rc == 0:
        chk.violate('hybrid_1', 'a hybrid run with one city ends normally', [])
    return chk.finish('histories of runs of HybridSolver.py in one tree: both modes, 3 to 130 cities, ranges "a-b", "b", "0-b" and past the end, reruns over older files; the build, the '
                      'network (a stand-in), the solver and the files are the real ones; every file of the tree compared before and after; non-trivial: instance judged',
                      ['the network is a stand-in whose predictions are known (harness/stubs): PyTorch and the trained weights are not available',
                       'above 12 cities the solver\'s clock passes the limit at its second reading (only the initial tour is judged)'], seen)


# ---- faults of the pipeline ------------------------------------------------------------------------------------------
WRAP = """#!/bin/sh
# stand-in for %(name)s that fails on request; the real one otherwise
case " $FAULT " in *" %(name)s:"*)
  how="${FAULT#*:}"; on=""
  if [ "%(name)s" = python3 ]; then
    on="$FAULT_ON"
    case "$2" in *"$on") ;; *) exec %(real)s "$@" ;; esac
  fi
  : > "$VC_MARK"
  case "$how" in
    fail) exit 1 ;;
    done) %(real)s "$@"; exit 1 ;;
    half) %(real)s "$@"; f="$2"; n=$(stat -c %%s "$f"); head -c $((n / 2)) "$f" > "$f.half"; cat "$f.half" > "$f"; rm -f "$f.half"; exit 1 ;;
    kill) %(real)s "$@"; p=$(cat "$VC_PARENT"); [ "$p" = "$PPID" ] && [ "$p" -gt 1 ] && kill -9 "$p"; exit 1 ;;
    early) p=$(cat "$VC_PARENT"); [ "$p" = "$PPID" ] && [ "$p" -gt 1 ] && kill -9 "$p"; exit 1 ;;
  esac ;;
esac
exec %(real)s "$@"
"""
FAULTS = [('cmake', 'fail'), ('make', 'fail'), ('make', 'done')] + [('python3', h) for h in ('fail', 'done', 'half', 'kill', 'early')] * 2 + [('solver', h) for h in ('exit', 'kill', 'parent')] * 3


def faults():
    """C35: one step of HybridSolver.py fails or is killed; what it leaves, what it says, and the next run."""
    chk = Check('C35')
    bind = os.path.join(chk.dir, 'bin')
    os.makedirs(bind)
    for name in ('cmake', 'make', 'python3'):
        real = PYVT if name == 'python3' else shutil.which(name)
        if not real:
            raise HarnessError('no ' + name)
        with open(os.path.join(bind, name), 'w') as f:
            f.write(WRAP % dict(name=name, real=real))
        os.chmod(os.path.join(bind, name), 0o755)
    so = S.vclock(chk)
    orc = S.build_oracle(chk)
    R = chk.rng('faults')
    todo = [FAULTS[k % len(FAULTS)] for k in range(chk.q(24, 160))]
    R.shuffle(todo)
    trees = 8
    plans = [[(f, R.choice([4, 5, 6, 7, 8, 9]) if k else R.choice([5, 7]), f[0] == 'python3' or R.random() < .5, R.randrange(2**31)) for k, f in enumerate(todo[t::trees])] for t in range(trees)]

    def run(d, n, hybrid, rng, seed, kind, **k):
        env = pyenv(STUB_NET='1', STUB_SEED=str(seed), STUB_KIND=kind, PATH=bind + ':' + os.environ.get('PATH', ''), VC_PARENT=os.path.join(d, 'pid'), **k)
        for f in ('pid', 'mark'):
            if os.path.exists(os.path.join(d, f)):
                os.unlink(os.path.join(d, f))
        cmd = ['/bin/sh', '-c', 'echo $$ > "$VC_PARENT"; exec "$@"', 'sh', PYVT, 'HybridSolver.py', '--range_instances', rng, '--num_nodes', str(n)] + (['--hybrid'] if hybrid else [])
        return chk.run(cmd, timeout=150, env=env, cwd=os.path.join(d, 'main'))

    def history(t):
        out, d = [], hybrid_tree(chk, t)
        for fault, n, hybrid, seed in plans[t]:
            r = one(d, fault, n, hybrid, seed)
            out.append(r)
            if r.get('bad'):
                for k, f in enumerate(r['files']):
                    if os.path.isfile(f):
                        r['files'][k] = shutil.copyfile(f, os.path.join(chk.dir, 'kept_%d_%d_%s' % (r['seed'], k, os.path.basename(f))))
                break
        shutil.rmtree(d, True)
        return out

    def csvs(d, n, a, b):
        return {i: os.path.join(d, 'data/AdjacencyMatrix/tsp_%d_nodes/tsp_test_%d.csv' % (n, i)) for i in range(a, b + 1)}

    def reps(d, n, mode, a, b):
        return {i: os.path.join(d, 'results/AdjacencyMatrix/tsp_%d_nodes_%s/tsp_result_%d.txt' % (n, mode, i)) for i in range(a, b + 1)}

    def one(d, fault, n, hybrid, seed):
        R = random.Random(seed)
        mode = 'hybrid' if hybrid else 'classic'
        r = dict(n=n, mode=mode, seed=seed, fault='%s: %s' % fault, judged=0, files=[])
        data = os.path.join(d, 'main/graph-convnet-tsp/data/hyb_tsp/test_%d_nodes.txt' % n)
        r['files'].append(data)
        count = R.choice([1, 2, 3])
        lines, pts = zip(*[reversed(dataset_line(R, n, 'u')) for _ in range(count)])
        with open(data, 'w') as f:
            f.write('\n'.join(lines) + '\n')
        at, kind, sseed = R.randint(1, count), R.choice(['uni', 'sharp']), seed % 100000
        rng = '1-%d' % count
        k = {}
        if fault[0] == 'solver':
            k = dict(LD_PRELOAD=so, VC_ONLY='BranchAndBound1Tree', VC_K='0', VC_T='0', VC_STEP='1', VC_BASE='0', VC_DIE=str(R.choice([1, 2, n, 2 * n + 3])), VC_DIE_HOW=fault[1], VC_DIE_ON='tsp_test_%d.csv' % at, VC_MARK=os.path.join(d, 'mark'))
        else:
            k = dict(FAULT='%s:%s' % fault, FAULT_ON='tsp_test_%d.csv' % at, VC_MARK=os.path.join(d, 'mark'))
        before = snapshot_all(d)
        rc, out, err, hung = run(d, n, hybrid, rng, sseed, kind, **k)
        if hung:
            r['inconclusive'] = 'no answer in 150 s'
            return r
        if 'stubs/' in err or 'ModuleNotFoundError' in err:
            r['inconclusive'] = 'stand-in: ' + tail(err, 600)
            return r
        after = snapshot_all(d)
        rel = lambda p: os.path.relpath(p, d)
        C, T = csvs(d, n, 1, count), reps(d, n, mode, 1, count)
        want = {rel(p) for p in list(C.values()) + list(T.values())} | {'pid', 'mark'}
        new = {f for f in after if after[f] != before.get(f) and not f.endswith('_nodes_temp.txt')}
        gone = {f for f in before if f not in after and not f.endswith('_nodes_temp.txt')}
        if gone or new - want:
            r['bad'] = 'changes %s, removes %s' % (sorted(new - want)[:4], sorted(gone)[:4])
            return r
        stops = fault[0] != 'solver' or fault[1] == 'parent'
        hit = os.path.exists(os.path.join(d, 'mark'))    # a step that is reached in another way, or a search that is shorter, is not hit
        r['hit'] = hit
        build = fault[0] in ('cmake', 'make')
        if hit and stops and rc == 0:
            r['bad'] = 'ends normally although %s' % ('the build failed' if build else 'it was killed or the network failed')
            return r
        if hit and not stops and rc == 0 and not re.search(r'(?i)(fail|error|unable|cannot|not )[^\n]*\b%d\b' % at, out + err):
            r['bad'] = 'the solver failed on instance %d, which is not reported' % at
            return r
        for i in range(1, count + 1):
            done = i < at and not build or not hit
            if done or (i > at and not stops and rc == 0):
                bad, rep = judge_instance(d, n, i, hybrid, pts[i - 1], sseed, kind, False, None)
                if bad:
                    r['bad'] = 'instance %d, not the one that failed (%d): %s' % (i, at, bad)
                    r['files'] += [C[i], T[i]]
                    return r
                r['judged'] += 1
            elif i == at and not build:
                txt = after.get(rel(T[i]), b'').decode('utf8', 'replace')
                if rel(T[i]) in new and parse_report(txt):
                    r['bad'] = 'a solution is reported for instance %d, which failed' % i
                    r['files'] += [C[i], T[i]]
                    return r
            elif rel(T[i]) in new and parse_report(after[rel(T[i])].decode('utf8', 'replace')):
                r['bad'] = 'instance %d is reported although the run stopped before' % i
                return r
        # the next run, without a fault
        sseed2 = (seed // 7) % 100000
        before = snapshot_all(d)
        rc, out, err, hung = run(d, n, hybrid, rng, sseed2, kind)
        if hung or 'ModuleNotFoundError' in err:
            r['inconclusive'] = 'no answer in 150 s'
            return r
        if rc:
            r['bad'] = 'the run after it ends with status %d: %s' % (rc, tail(err, 500))
            return r
        after = snapshot_all(d)
        new = {f for f in after if after[f] != before.get(f) and not f.endswith('_nodes_temp.txt')}
        if new - want:
            r['bad'] = 'the run after it changes %s' % sorted(new - want)[:4]
            return r
        _, o, _, _ = chk.run([orc, '15'], timeout=100, stdin='\n'.join(p for p in C.values() if os.path.isfile(p)) + '\n')
        ref = {w[0]: float(w[3]) for w in (l.split() for l in o.splitlines()) if w[2] == '1'}
        for i in range(1, count + 1):
            bad, rep = judge_instance(d, n, i, hybrid, pts[i - 1], sseed2, kind, False, ref.get(C[i]))
            if bad:
                r['bad'] = 'the run after it, instance %d: %s' % (i, bad)
                r['files'] += [C[i], T[i]]
                return r
            r['judged'] += 1
        return r

    seen = 0
    for rs in chk.map(history, range(trees)):
        for r in rs:
            if r.get('inconclusive'):
                chk.inconclusive += 1
                chk.note(r['inconclusive'])
                continue
            chk.cov['evaluations'] += 1
            chk.count('faults, %s%s' % (r['fault'], '' if r.get('hit') or r.get('bad') else ' (not hit)'))
            chk.count('instances judged around faults', r['judged'])
            if r.get('bad'):
                chk.violate('fault_%s_%d_%s' % (re.sub(r'\W+', '_', r['fault']), r['n'], r['seed']), '%s, %d cities, %s: %s' % (r['mode'], r['n'], r['fault'], r['bad']), [f for f in r['files'] if os.path.isfile(f)])
            else:
                seen += bool(r.get('hit'))
                chk.sample('%s, %d cities, %s: %d instances as they should be' % (r['mode'], r['n'], r['fault'], r['judged']))
    return chk.finish('runs of HybridSolver.py in which one step fails at a chosen instance (cmake, make, the network before, after or half-way through its file, the solver by exit or signal at a chosen '
                      'reading of the clock) or the script itself is killed at that step, each followed by a run without fault in the same tree; non-trivial: the fault took place',
                      ['the network is a stand-in (harness/stubs)', 'cmake, make and python3 are reached through wrappers that fail on request'], seen)


def one_city(chk, env):
    d = hybrid_tree(chk, 1000)
    with open(os.path.join(d, 'main/graph-convnet-tsp/data/hyb_tsp/test_1_nodes.txt'), 'w') as f:
        f.write('0.5 0.5 output 1 1\n')
    return chk.run([PYVT, 'HybridSolver.py', '--num_nodes', '1', '--hybrid'], timeout=100, env=env, cwd=os.path.join(d, 'main'))


def snapshot_all(d):
    """Everything in the tree but the build folder and what the recorder writes."""
    return {f: v for f, v in snapshot(d).items() if not f.startswith('cmake-build') and f != 'rec.npz' and '__pycache__' not in f}


# ---- the statistics of the results -----------------------------------------------------------------------------------
def analyzer():
    chk = Check('C26')
    exe = chk.build_solver(8, 1)
    csv = os.path.join(chk.dir, 'tpl.csv')
    I.write(csv, 8, 'u', 'uni', 3)
    rc, _, err, _ = chk.run([exe, csv, csv + '.out'])
    if rc:
        raise HarnessError('no report to start from: ' + tail(err))
    with open(csv + '.out') as f:
        tpl = f.read()
    src = os.path.join(HS, 'results', 'AdjacencyMatrix', 'analyzer.py')
    R = chk.rng('analyzer')
    jobs = [dict(sizes=[20, 50, 100, 35, 75, 150], prof=R.random() < .3, seed=R.randrange(2**31), tpl=tpl) for _ in range(chk.q(8, 120))]
    jobs += [dict(sizes=[R.choice([5, 10, 20, 35, 60, 100, 200])], prof=True, seed=R.randrange(2**31), tpl=tpl) for _ in range(chk.q(32, 600))]

    def cwd(k):
        d = os.path.join(chk.dir, 'an_%d' % k)
        os.makedirs(d)
        shutil.copy(src, d)
        return d
    seen = 0
    for r in drive(chk, 'analyzer.py', jobs, pyenv(), cwd):
        if r.get('hung') or 'stub' in r:
            chk.inconclusive += 1
            if 'stub' in r:
                chk.note('stand-in: ' + r['stub'])
            continue
        chk.cov['evaluations'] += 1
        for k, v in r['stat'].items():
            chk.count(k, v)
        j = r['job']
        if 'bad' in r:
            arc = shutil.make_archive(os.path.join(chk.dir, 'reports_%d' % j['seed']), 'gztar', r['dir'])
            chk.violate('analyzer_%d' % j['seed'], 'sizes %s: %s' % (j['sizes'], r['bad']), [arc])
        else:
            seen += 1
            chk.sample('sizes %s: %s' % (j['sizes'], json.dumps(r['stat'], sort_keys=True)))
    return chk.finish('random sets of reports of both modes (6 to 320 instances each, partly different, with and without improvements, interrupted ones, differences at the edge of significance), '
                      'made from a report of the real program, given to the real analyzer.py; non-trivial: summary judged',
                      ['pandas and matplotlib are stand-ins (harness/stubs)', 'the reference p-value is scipy\'s', 'at least six instances resolved in both modes'], seen)


# ---- data sets, tours, beam search, the network itself -----------------------------------------------------------------
def nets(prop, fns, counts, rule, assume):
    def go():
        chk = Check(prop)
        R = chk.rng('nets')
        jobs = [dict(fn=f, seed=R.randrange(2**31)) for f in fns for _ in range(chk.q(counts[f], counts[f] * 20))]
        R.shuffle(jobs)
        seen = 0
        for r in drive(chk, 'nets.py', jobs):
            if r.get('hung') or 'stub' in r:
                chk.inconclusive += 1
                if 'stub' in r:
                    chk.note('stand-in: ' + r['stub'])
                continue
            chk.cov['evaluations'] += 1
            for k, v in r['stat'].items():
                chk.count(k, v)
            if 'bad' in r:
                chk.violate('%(fn)s_%(seed)d' % r['job'], '%s, seed %d: %s' % (r['job']['fn'], r['job']['seed'], r['bad']), [])
            else:
                seen += 1
                chk.sample('%s: %s' % (r['job']['fn'], json.dumps(r['stat'], sort_keys=True)))
        return chk.finish(rule, assume, seen)
    return go


# ---- TSPLIB to .dat --------------------------------------------------------------------------------------------------
def parse_dat(text):
    m = re.fullmatch(r'\s*n\s*=\s*(\d+)\s*;\s*Cost\s*=\s*\[(.*)\]\s*;\s*', text, re.S)
    if not m:
        return None
    rows = re.findall(r'\[([^\[\]]*)\]', m.group(2))
    if re.sub(r'\[[^\[\]]*\]', '', m.group(2)).strip(' ,\n\t'):
        return None
    return int(m.group(1)), [[float(v) for v in r.split(',')] for r in rows]


def converter():
    chk = Check('C27')
    src = os.path.join(os.path.dirname(HS), 'CplexSolver', 'Data', 'TSPLIB', 'converter_tsp_to_dat.py')
    R = chk.rng('conv')
    cases = []
    for k in range(chk.q(120, 1500)):
        euc = k % 2 == 0
        d = os.path.join(chk.dir, 'conv%d' % k)
        os.makedirs(d)
        shutil.copy(src, d)
        want = {}
        for f in range(R.choice([1, 2, 4])):
            n = R.choice([2, 3, 4, 5, 8, 13, 17, 30, 60])
            name = R.choice(['i%d_%d', 'i%d_%d', 'i%d.v%d', 'i.%d.%d', 'i%d tsp %d', 'i%d.tsp.%d']) % (f, n)
            s = R.choice([1, 10, 1000])
            P = [(R.uniform(-s, s), R.uniform(0, s)) if R.random() < .7 else (float(R.randrange(-9, 99)), float(R.randrange(100))) for _ in range(n)]
            head = ['NAME: ' + name, 'TYPE: TSP', 'COMMENT: made', 'DIMENSION: %d' % n]
            if euc:
                t = head + ['EDGE_WEIGHT_TYPE: EUC_2D', R.choice(['NODE_COORD_SECTION', 'NODE_COORD_SECTION ', '  NODE_COORD_SECTION'])]
                t += [R.choice(['%d %r %r', ' %d  %r  %r', '%d\t%r\t%r']) % (i + 1, x, y) for i, (x, y) in enumerate(P)]
                t += R.choice([['EOF'], [], ['EOF', '']])
                D = [[math.dist(a, b) for b in P] for a in P]
                tol = 1e-9
            else:
                D = [[0.0] * n for _ in range(n)]
                for i in range(n):
                    for j in range(i):
                        D[i][j] = D[j][i] = float(R.randrange(1, 2000))
                fmt = R.choice(['LOWER_DIAG_ROW', 'FULL_MATRIX'])
                v = [int(D[i][j]) for i in range(n) for j in (range(i + 1) if fmt == 'LOWER_DIAG_ROW' else range(n))]
                t = head + ['EDGE_WEIGHT_TYPE: EXPLICIT', 'EDGE_WEIGHT_FORMAT: ' + fmt, 'EDGE_WEIGHT_SECTION']
                t += [' '.join(map(str, v[a:a + 12])) for a in range(0, len(v), 12)] + ['EOF']
                tol = 0
            with open(os.path.join(d, name + '.tsp'), 'w') as g:
                g.write('\n'.join(t) + R.choice(['', '\n']))
            want[name + '.dat'] = (D, tol)
        with open(os.path.join(d, 'notes.md'), 'w') as g:
            g.write('not an instance\n')
        if R.random() < .5:
            with open(os.path.join(d, R.choice(sorted(want))), 'w') as g:
                g.write('n=1;\nCost=[[older, and longer than what replaces it]\n];' * 50)
        cases.append((d, euc, want))
    cases.append((None, False, None))

    def one(c):
        d, euc, want = c
        if d is None:       # the committed example
            d = os.path.join(chk.dir, 'gr17')
            os.makedirs(d)
            shutil.copy(src, d)
            shutil.copy(os.path.join(os.path.dirname(src), 'gr17.tsp'), d)
            with open(os.path.join(os.path.dirname(src), '..', 'gr17.dat')) as f:
                want = {'gr17.dat': (parse_dat(f.read())[1], 0)}
        before = snapshot(d)
        rc, out, err, hung = chk.run([PYVT, 'converter_tsp_to_dat.py'] + (['euclidean'] if euc else []), timeout=100, env=pyenv(STUB_NX='1'), cwd=d)
        after = snapshot(d)
        if hung or 'ModuleNotFound' in err or 'stubs/' in (re.findall(r'File "([^"]*)"', err) or [''])[-1]:
            return d, None, 'inconclusive: ' + tail(err, 300), 0
        if rc:
            return d, 'exit %d: %s' % (rc, tail(err, 300)), '', 0
        new = {f for f in after if after[f] != before.get(f)} | {f for f in before if f not in after}
        if new - set(want):
            return d, 'changes %s' % sorted(new - set(want)), '', 0
        cells = 0
        for f, (D, tol) in want.items():
            if f not in after:
                return d, '%s is not written' % f, '', 0
            try:
                m = parse_dat(after[f].decode())
            except ValueError:
                m = None
            if m is None:
                return d, '%s is not of the form n=...; Cost=[[...]...];: %r' % (f, after[f][:200]), '', 0
            n, W = m
            if n != len(D) or len(W) != n or any(len(r) != n for r in W):
                return d, '%s: n = %d, rows of %s for %d cities' % (f, n, sorted({len(r) for r in W}), len(D)), '', 0
            for i in range(n):
                for j in range(n):
                    if abs(W[i][j] - D[i][j]) > tol * max(1, D[i][j]):
                        return d, '%s: cost %r from %d to %d, %r in the instance' % (f, W[i][j], i + 1, j + 1, D[i][j]), '', 0
            cells += n * n
        return d, None, '', cells
    seen = 0
    for d, bad, inc, cells in chk.map(one, cases):
        if inc:
            chk.inconclusive += 1
            chk.note(inc)
            continue
        chk.cov['evaluations'] += 1
        chk.count('costs compared', cells)
        if bad:
            arc = shutil.make_archive(d + '_files', 'gztar', d)
            chk.violate('conv_' + os.path.basename(d), bad, [arc])
        else:
            seen += 1
            chk.sample('%s: %d costs as in the instances' % (os.path.basename(d), cells))
    return chk.finish('random folders of TSPLIB files (Euclidean, explicit triangular and full, 2 to 60 cities, negative and fractional coordinates, other files present, older outputs) '
                      'and the committed gr17; non-trivial: all files of the folder judged',
                      ['tsplib95 is a stand-in (harness/stubs), and networkx.to_numpy_matrix, which networkx has removed, is put back'], seen)


# ---- the CPLEX model ---------------------------------------------------------------------------------------------------
def cplex():
    chk = Check('C33')
    cs = os.path.join(os.path.dirname(HS), 'CplexSolver')
    R = chk.rng('cplex')
    jobs = [dict(fn=f, seed=R.randrange(2**31)) for f, k in (('solved', 300), ('points', 160)) for _ in range(chk.q(k, k * 12))]
    R.shuffle(jobs)

    def cwd(k):
        d = os.path.join(chk.dir, 'cplex_%d' % k)
        os.makedirs(os.path.join(d, 'conv'))
        shutil.copy(os.path.join(cs, 'TSPmtz.mod'), d)
        shutil.copy(os.path.join(cs, 'Data', 'TSPLIB', 'converter_tsp_to_dat.py'), os.path.join(d, 'conv'))
        return d
    seen = 0
    for r in drive(chk, 'cplex.py', jobs, pyenv(STUB_NX='1'), cwd):
        if r.get('hung') or 'stub' in r:
            chk.inconclusive += 1
            if 'stub' in r:
                chk.note(r['stub'])
            continue
        chk.cov['evaluations'] += 1
        for k, v in r['stat'].items():
            chk.count(k, v)
        if 'bad' in r:
            chk.violate('%(fn)s_%(seed)d' % r['job'], '%s, seed %d: %s' % (r['job']['fn'], r['job']['seed'], r['bad']), [])
        else:
            seen += 1
            chk.sample('%s: %s' % (r['job']['fn'], json.dumps(r['stat'], sort_keys=True)))
    return chk.finish('the model run on random costs (Euclidean, integer, asymmetric, tied, large; 3 to 8 cities; some through the converter) and compared with Held-Karp; tours (3 to 12 cities) '
                      'and sets of arcs that are none (several cycles, arcs dropped, added, moved) tested for feasibility; its script run on solutions; non-trivial: judged',
                      ['OPL and CPLEX are replaced by a small interpreter of the language and the MILP solver of scipy', 'the arcs from a city to itself, which the model leaves free, are not judged'], seen)
