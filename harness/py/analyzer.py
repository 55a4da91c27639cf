"""python analyzer.py JOBS OUT: makes folders of reports (from a report of the real program, TEMPLATE in the job, with other numbers),
runs the copy of the repository's analyzer.py that is in the current folder on them, and judges what it wrote."""
import json
import math
import os
import random
import re
import shutil
import subprocess
import sys

import numpy as np
from scipy.stats import wilcoxon

jobs, outp = sys.argv[1], sys.argv[2]
TYPES = ['CLOSED_NEAREST_NEIGHBOR', 'CLOSED_NEAREST_NEIGHBOR_HYBRID', 'CLOSED_1TREE', 'CLOSED_SUBGRADIENT']
KEYS = ['total_time', 'time_bb', 'time_to_best', 'generate_bbnodes', 'explored_bbnodes', 'bbnodes_before_best', 'total_tree_level', 'best_level', 'prob_best', 'best_value']
LATEX = [('Total time', 'total_time'), ('BB time', 'time_bb'), ('Time to Best', 'time_to_best'), ('BB tree depth', 'total_tree_level'), ('Depth of the best', 'best_level'),
         ('Generated BB nodes', 'generate_bbnodes'), ('Explored BB nodes', 'explored_bbnodes'), ('BB nodes before best', 'bbnodes_before_best')]


class Bad(Exception):
    pass


class Stub(Exception):
    pass


def need(ok, msg, *a):
    if not ok:
        raise Bad(msg % a)


def sub(text, label, value, num=r'-?[0-9.]+'):
    text, k = re.subn(re.escape(label) + num, lambda m: label + value, text, count=1)
    if not k:
        raise RuntimeError('no %r in the report of the solver' % label)
    return text


def report(tpl, r):
    t = re.sub(r'Updated best value: [^\n]*\n', '', tpl)
    t = ''.join('Updated best value: %f, at time: %f\n' % u for u in r['updates']) + t
    for label, k, f in (('elapsed time = ', 'elapsed', '%f'), ('generated BBNodes = ', 'gen', '%d'), ('explored BBNodes = ', 'exp', '%d'), ('max tree level = ', 'lev', '%d'),
                        ('SUBPROBLEM with cost = ', 'cost', '%f'), ('level of the BB tree = ', 'blev', '%d'), ('prob_tour = ', 'prob', '%f'), ('BBNode number = ', 'bbn', '%d'),
                        ('time to obtain = ', 'obtain', '%f')):
        t = sub(t, label, f % r[k])
    t = sub(t, 'interrupted = ', 'FALSE' if r['resolved'] else 'TRUE', r'[A-Z]+')
    t = sub(t, 'type = ', r['type'], r'[A-Z_0-9]+')
    return t + '\nNodes: \n\t0 : 0.25 0.5\n\t1 : 0.75 0.5\n\nTime taken: %rs\n' % r['taken']


def q(v):
    return float('%f' % v)


def records(R, ids, n, hybrid, base, tilt, grid):
    """One result per instance; base: the common cost of each instance, tilt: how hybrid and classic differ per metric."""
    out = {}
    ub = 0.00127 * math.sqrt(n)
    for rank, i in enumerate(ids):
        b = base[i]
        resolved = R.random() < b['easy']
        m = {k: b[k] * (1 + tilt[k] * R.gauss(.3 if hybrid else 0, 1)) for k in ('elapsed', 'gen', 'exp', 'lev', 'blev', 'bbn', 'over')}
        el = q(max(.01, round(b['late'] + abs(m['elapsed']) % (.9 if b['late'] else 1e9), grid)))
        # improvements: costs in steps far from the tolerance, times on a grid
        k = R.choice([0, 0, 1, 2, 3, 5])
        cost = b['cost'] + ub * R.choice([0, 0, .5, 2.5, 4.5])
        ups = []
        if k:
            ts = sorted(R.sample(range(0, max(k, int(el * 10 ** grid)) + 1), k))
            c = cost + ub * 2.5 * (k - 1)
            for t in ts:
                ups.append((q(c), q(t / 10 ** grid)))
                c -= ub * 2.5
            cost = ups[-1][0]
        r = dict(resolved=resolved, elapsed=el, updates=ups, cost=q(cost), obtain=ups[-1][1] if ups else q(min(el, round(R.random() * el, grid))),
                 gen=max(1, int(abs(m['gen']))), exp=max(1, int(abs(m['exp']))), lev=max(1, int(abs(m['lev']))), blev=int(abs(m['blev'])), bbn=int(abs(m['bbn'])),
                 prob=q(R.random()) if hybrid else 0.0, type=R.choice(TYPES if hybrid else [TYPES[0]] + TYPES[2:]), taken=el + round(abs(m['over']), grid) + (rank + (0 if hybrid else .5)) * (1e-5 if grid == 2 else 1e-6))      # no two times within 1e-7
        out[i] = r
    return out


def value(r, k):
    return {'total_time': r['taken'], 'time_bb': r['elapsed'], 'time_to_best': r['obtain'], 'generate_bbnodes': r['gen'], 'explored_bbnodes': r['exp'],
            'bbnodes_before_best': r['bbn'], 'total_tree_level': r['lev'], 'best_level': r['blev'], 'prob_best': r['prob'], 'best_value': r['cost']}[k]


def near(x, y, what, rel=2e-6, tol=1.1e-6):
    need(abs(x - y) <= rel * abs(y) + tol, '%s is %r, expected %r', what, x, y)


def summary(hyb, cla):
    both = sorted(i for i in hyb if i in cla and hyb[i]['resolved'] and cla[i]['resolved'])
    out = {}
    for k in KEYS:
        h, c = (np.array([value(s[i], k) for i in both], dtype=float) for s in (hyb, cla))
        z = 1.96 / math.sqrt(len(both))
        out[k] = (h.mean(), h.std() * z, c.mean(), c.std() * z, wilcoxon(h, c).pvalue)
    return out


def pct(x, total):
    return 100. * x / total


def judge_means(path, hyb, cla, stat):
    with open(path) as f:
        text = f.read()
    rows = {}
    head = text.split('\n\n')[0].split('\n')
    for ln in head[1:]:
        t = ln.split()
        need(len(t) >= 6, 'row %r', ln)
        rows[' '.join(t[:-5])] = t[-5:]
    perc = {}
    for label, typ in (('Resolved Instances', None), ('Closed NN', TYPES[0]), ('Closed NN Hybrid', TYPES[1]), ('Closed 1Tree', TYPES[2]), ('Closed Subgradient', TYPES[3])):
        need(label in rows, 'no row %s', label)
        for col, s, who in ((0, hyb, 'hybrid'), (2, cla, 'classic')):
            ok = [r for r in s.values() if r['resolved']]
            want = pct(len(ok), len(s)) if typ is None else pct(sum(r['type'] == typ for r in ok), len(ok))
            near(float(rows[label][col].rstrip('%')), want, '%s of %s' % (label, who), 0, .0051)
            perc[label, who] = rows[label][col]
    s = summary(hyb, cla)
    for k in KEYS:
        need(k in rows, 'no row %s', k)
        for col, what in enumerate(('hybrid mean', 'hybrid interval', 'classic mean', 'classic interval', 'p-value')):
            near(float(rows[k][col]), s[k][col], '%s of %s' % (what, k))
            stat['figures'] = stat.get('figures', 0) + 1
    for who, t in (('hybrid', hyb), ('classic', cla)):
        m = re.search(r'Not resolved (\d+) instances for %s: \[([^\]]*)\]' % who, text)
        need(m, 'no list of what %s did not resolve', who)
        want = sorted(i for i in t if not t[i]['resolved'])
        need([int(v) for v in m.group(2).replace(',', ' ').split()] == want and int(m.group(1)) == len(want), 'not resolved by %s: %s, expected %s', who, m.group(2), want)
    g = [np.array([r['gen'] for r in t.values() if r['resolved']], dtype=float) for t in (hyb, cla)]
    lines = text.strip().split('\n')
    org = [v for v in lines if v.startswith('Original values')]
    lg = [v for v in lines if v.startswith('Log values')]
    need(len(org) == 1 and len(lg) == 1, 'no points of the curve')
    want = [v for a in g for v in (a.mean(), a.mean() + a.std(), a.mean() - a.std())]
    for x, y in zip(org[0].split()[2:], want):
        near(float(x), y, 'point of the curve')
    for x, y in zip(lg[0].split()[2:], want):
        if abs(y) > 1e-3:
            near(float(x), math.log10(y) if y > 0 else 0., 'logarithmic point of the curve')
    return s, perc


def judge_profiles(d, hyb, cla, n, stat):
    both = sorted(set(hyb) & set(cla))
    ub = 0.00127 * math.sqrt(n)

    def sols(r):
        o = r['taken'] - r['elapsed']
        return [(c, o + t) for c, t in r['updates']] or [(r['cost'], o + r['obtain'])]
    H, C = {i: sols(hyb[i]) for i in both}, {i: sols(cla[i]) for i in both}

    def table(name):
        with open(os.path.join(d, name)) as f:
            ls = f.read().strip().split('\n')
        need(ls[0].split(',') == ['Time', 'Hybrid', 'Classic'], '%s: columns %s', name, ls[0])
        t = [tuple(float(v) for v in l.split(',')) for l in ls[1:]]
        need(all(a[0] < b[0] for a, b in zip(t, t[1:])), '%s: times out of order', name)
        return t
    rows = table('performance_profile.csv')
    times = {t for s in (H, C) for v in s.values() for _, t in v}
    for t in times:
        need(any(abs(r[0] - t) < 1e-6 for r in rows), 'performance profile: no point at %r', t)
    for t, h, c in rows:
        a = b = 0
        for i in both:
            x, y = (min([v for v, u in s[i] if u <= t + 1e-7], default=math.inf) for s in (H, C))
            if x != y and not abs(x - y) < ub:
                a, b = a + (x < y), b + (y < x)
        need(abs(h - a / len(both)) < 1e-9 and abs(c - b / len(both)) < 1e-9, 'performance profile at %r: %r and %r, expected %d and %d of %d', t, h, c, a, b, len(both))
        stat['points of profiles'] = stat.get('points of profiles', 0) + 1
    rows = table('cumulative_profile.csv')
    LH, LC = ([s[i][-1][1] for i in both if r[i]['resolved']] for s, r in ((H, hyb), (C, cla)))
    for t in LH + LC:
        need(any(abs(r[0] - t) < 1e-6 for r in rows), 'cumulative profile: no point at %r', t)
    for t, h, c in rows:
        a, b = (sum(u <= t + 1e-7 for u in L) for L in (LH, LC))
        need(abs(h - a / len(both)) < 1e-9 and abs(c - b / len(both)) < 1e-9, 'cumulative profile at %r: %r and %r, expected %d and %d of %d', t, h, c, a, b, len(both))
        stat['points of profiles'] += 1


def cell(c):
    c = c.strip()
    u, b = '\\underline' in c, '\\textbf' in c
    m = re.search(r'-?\d+(?:\.\d+)?(?:e[-+]?\d+)?', c)
    need(m, 'table: cell %r', c)
    return float(m.group(0)), b, u


def judge_table(path, sizes, res, stat):
    with open(path) as f:
        text = f.read()
    rows = [r.strip() for r in text.split('\\\\\n')]
    need(re.findall(r'\$n=(\w+)\$', text) == [str(n) for n in sizes], 'table: sizes %s', re.findall(r'\$n=(\w+)\$', text))

    def row(label):
        r = [x for x in rows if re.sub(r'^\\midrule\s*', '', x).startswith(label)]
        need(len(r) == 1, 'table: %d rows %s', len(r), label)
        return [c.strip() for c in r[0].split('&')]
    for label, k in LATEX:
        c = row(label)
        need(len(c) == 13, 'table: %d cells for %s', len(c), label)
        for j, n in enumerate(sizes):
            s = res[n][0][k]
            (cm, cb, cu), (cs, _, _), (hm, hb, hu), (hs, _, _) = (cell(x) for x in c[1 + 4 * j:5 + 4 * j])
            for x, y, w in ((cm, s[2], 'classic mean'), (cs, s[3], 'classic interval'), (hm, s[0], 'hybrid mean'), (hs, s[1], 'hybrid interval')):
                near(x, y, 'table, %d cities, %s of %s' % (n, w, k), 0, .00502)
            need((cb, hb) == (cm < hm, hm < cm), 'table, %d cities: %s in bold: classic %r %s, hybrid %r %s', n, k, cm, cb, hm, hb)
            if abs(s[4] - .05) > 1e-5:
                sig = s[4] < .05
                need((cu, hu) == (cb and sig, hb and sig), 'table, %d cities: %s underlined: classic %s, hybrid %s, p = %r', n, k, cu, hu, s[4])
                stat['marks near 0.05'] = stat.get('marks near 0.05', 0) + int(.04 < s[4] < .06)
            stat['cells'] = stat.get('cells', 0) + 4
    for label, key, at in (('Instances solved', 'Resolved Instances', None), ('$\\qquad$ with NN', 'Closed NN', None), ('$\\qquad$ with PNN', 'Closed NN Hybrid', 1)):
        c = [x.replace('\\%', '%') for x in row(label)]
        for j, n in enumerate(sizes):
            perc = res[n][1]
            got = [x for x in c[1 + 4 * j:5 + 4 * j]]
            need(got[2] == perc[key, 'hybrid'], 'table, %d cities: %s is %s for hybrid, expected %s', n, label, got[2], perc[key, 'hybrid'])
            if at is None:
                need(got[0] == perc[key, 'classic'], 'table, %d cities: %s is %s for classic, expected %s', n, label, got[0], perc[key, 'classic'])
    r = [x for x in rows if 'O_{T' in x]
    need(len(r) == 1, 'table: no row for the probability of the tour')
    c = r[0].split('&')
    for j, n in enumerate(sizes):
        near(cell(c[3 + 4 * j])[0], res[n][0]['prob_best'][0], 'table, probability of the tour', 0, .00502)
        near(cell(c[4 + 4 * j])[0], res[n][0]['prob_best'][1], 'table, interval of the probability', 0, .00502)


def make(R, n, tpl):
    """Folders tsp_n_nodes_hybrid and _classic -> their records"""
    k = R.choice([9, 12, 12, 20, 20, 40, 40, 60, 60, 320])
    ids = R.sample(range(1, R.choice([2000, 70000])), k)
    grid = 2 if k > 60 else R.choice([2, 4, 4])     # decimals of the times
    late = R.choice([0, 0, 0, 600])                 # all the runs end shortly before or after the time limit
    easy = R.choice([.6, .9, 1])
    mag = R.choice([1, 10])
    base = {i: dict(cost=5 + round(R.random(), 3), easy=1. if R.random() < easy else .4, elapsed=R.random() * 3 * mag + .2, gen=R.randrange(5, 400) * mag, exp=R.randrange(5, 300) * mag,
                    lev=R.randrange(2, 30), blev=R.randrange(0, 20), bbn=R.randrange(0, 200) * mag, over=R.choice([.002, .05, 1]) * R.random(), late=late) for i in ids}
    tilt = {key: R.choice([.02, .2, .5, 1]) for key in ('elapsed', 'gen', 'exp', 'lev', 'blev', 'bbn', 'over')}
    extra = R.choice([0, 0, 2])
    ih, ic = (list(ids), list(ids)) if not extra else (ids[extra:], ids[:-1])
    for _ in range(200):
        hyb, cla = records(R, ih, n, True, base, tilt, grid), records(R, ic, n, False, base, tilt, grid)
        both = [i for i in hyb if i in cla and hyb[i]['resolved'] and cla[i]['resolved']]
        if len(both) >= 6 and all(any(value(hyb[i], key) != value(cla[i], key) for i in both) for key in KEYS):
            break
    else:
        return None
    # a metric whose p-value is close to 0.05: shift the hybrid values until it is
    key, f = R.choice([('total_tree_level', 'lev'), ('generate_bbnodes', 'gen'), ('explored_bbnodes', 'exp'), ('bbnodes_before_best', 'bbn')])
    v0 = {i: hyb[i][f] for i in hyb}
    for d in R.sample(range(-60, 61), 121):
        w = [v0[i] + d for i in both]
        if min(w) < 1 or all(x == cla[i][f] for x, i in zip(w, both)):
            continue
        if .0445 < wilcoxon(np.array(w, dtype=float), np.array([cla[i][f] for i in both], dtype=float)).pvalue < .0555:
            for i in hyb:
                hyb[i][f] = max(1, v0[i] + d)
            break
    for mode, s in (('hybrid', hyb), ('classic', cla)):
        d = 'tsp_%d_nodes_%s' % (n, mode)
        os.makedirs(d)
        for i, r in s.items():
            with open(os.path.join(d, 'tsp_result_%d.txt' % i), 'w') as f:
                f.write(report(tpl, r))
        for other in ('notes.md', 'mean_results.txt'):
            if R.random() < .3:
                with open(os.path.join(d, other), 'w') as f:
                    f.write('SUBPROBLEM with cost = 1.0, nothing to read here\n')
    return hyb, cla


def run(args):
    r = subprocess.run([sys.executable, 'analyzer.py'] + args, capture_output=True, text=True, timeout=120)
    if r.returncode:
        last = re.findall(r'File "([^"]*)", line', r.stderr)
        if 'ImportError' in r.stderr or 'ModuleNotFound' in r.stderr or (last and '/stubs/' in last[-1]):
            raise Stub(r.stderr.strip()[-300:])
        raise Bad('analyzer.py fails: %s' % r.stderr.strip()[-500:])


here = os.getcwd()
res = []
for job in json.load(open(jobs)):
    r, stat = {'job': {k: v for k, v in job.items() if k != 'tpl'}}, {}
    R = random.Random('an|%d' % job['seed'])
    d = os.path.join(here, 'case_%d' % job['seed'])
    os.makedirs(d)
    shutil.copy('analyzer.py', d)
    os.chdir(d)
    try:
        data = {}
        for n in job['sizes']:
            m = next((m for m in (make(R, n, job['tpl']) for _ in range(20)) if m), None)
            if m is None:
                raise Stub('no suitable data')
            data[n] = m
        out = {}
        for n in job['sizes']:
            run(['--num_nodes', str(n)] + (['--perf_prof'] if job['prof'] else []))
            out[n] = judge_means('mean_results/%d_nodes/mean_results.txt' % n, *data[n], stat)
            if job['prof']:
                judge_profiles('mean_results/%d_nodes' % n, *data[n], n, stat)
        if len(job['sizes']) == 6:
            run(['--num_nodes', '0', '--tab'])
            judge_table('mean_results/exact_table.tex', [20, 50, 100], out, stat)
            judge_table('mean_results/heur_table.tex', [35, 75, 150], out, stat)
            stat['tables'] = 2
    except Bad as e:
        r['bad'] = str(e)
    except Stub as e:
        r['stub'] = str(e)
    os.chdir(here)
    if 'bad' in r:
        r['dir'] = d
    else:
        shutil.rmtree(d)
    r['stat'] = stat
    res.append(r)
json.dump(res, open(outp, 'w'), default=float)
