"""Checks of the branch-and-bound: end to end on the real program, and through the interposition monitor."""
import os
import re

import instances as I
import work
from vlib import Check, HOOKS, HS, MAIN, VERIF, eps, parse_report, tour_problem

# the sizes are those where exact oracles are affordable and every code path is reached; see DESIGN.md


def monitored(chk, tags, hooks, plan, cap, what, dpmax=None, extra=None, probe=0):
    """plan: (n of the build, n of the instances, hybrid, prim, count, families[, probabilities]); extra: k -> more arguments of the monitor"""
    configs = sorted({(p[0],) + p[2:4] for p in plan}, key=str)
    exes = dict(zip(configs, chk.map(lambda c: chk.build_mon(c[0], c[1], hooks, c[2], dpmax, probe > 0), configs)))
    nontrivial = set()
    for k, (N, n, h, prim, count, fams, *probs) in enumerate(plan):
        files = work.gen(chk, n, count, fams, *probs, salt='_%d' % k)
        for ln in chk.run_mon(exes[(N, h, prim)], cap, tags, files, '%s%s build for %d:' % ('hybrid' if h else 'classic', ' Kruskal' if prim == 0 else '', N), extra=extra(k) if extra else (), probe=probe):
            d = work.done_fields(ln)
            chk.cov['evaluations'] += 1
            gen = int(d['sig'].split('.')[0])
            if gen > 1:
                nontrivial.add((d['path'], N, h, prim))
            if gen > 3:
                chk.sample('%s -> %s' % (os.path.basename(d['path']), ln.split(' ', 1)[1]))
        for f in files:
            if os.path.exists(f):
                os.unlink(f)
    return nontrivial


def std_plan(chk, quick, thorough=8):
    """Sizes 4..20, both modes, both spanning tree algorithms, all families."""
    m = chk.q(1, thorough)
    plan = []
    for h in (0, 1):
        for n, c in ((4, 60), (5, 120), (6, 200), (8, 300), (10, 300), (12, 140)):
            plan.append((n, n, h, None, int(c * quick * m), None))
        plan.append((18, 18, h, None, int(120 * quick * m), None))
        plan.append((24, 24, h, None, int(40 * quick * m), I.EASY))
        plan.append((9, 9, h, 0, int(160 * quick * m), None))
        plan.append((15, 15, h, 0, int(60 * quick * m), None))
        plan.append((14, 8, h, None, int(60 * quick * m), None))
        plan += [(n, n, h, None, int(60 * quick * m), ['e_near', 'e_stair', 'e_step'], I.PROBS + I.SPREAD) for n in (6, 10)]
    return plan


RULE_MON = ('random instances of 14 families (uniform, large and small scale, grids with exact ties, clusters, collinear, circle, star, '
            'non-metric, small integers, hyperbolic, greedy traps, incomplete) x 9 kinds of predictions; non-trivial: the root was not '
            'closed at once, so at least two sub-problems were explored')
ASSUME_MON = ['functions are observed by symbol interposition in a shared build of the same sources (gcc -O2)',
              'above 12 cities the oracle is a pool of 2-opt tours: a violation is always a concrete tour, but some losses are not seen']


def mon_check(prop, tags, hooks, quick, cap=250, main_count=None, probe=0):
    def go():
        chk = Check(prop)
        nt = monitored(chk, tags, hooks, std_plan(chk, quick), cap, prop, probe=probe)
        if main_count:
            chk.cov['evaluations'] = sum(chk.counts.get(k, 0) for k in main_count) or chk.cov['evaluations']
        return chk.finish(RULE_MON, ASSUME_MON, len(nt))
    return go


# ---- end to end -----------------------------------------------------------------------------------------------------
def build_oracle(chk):
    out = os.path.join(chk.dir, 'oracle')
    chk.cc(['g++', '-O2', '-w', '-o', out, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'harness', 'oracle.cpp')], 'the oracle')
    return out


def oracle(chk, exe, files, limit=15):
    """path -> (exact?, value)"""
    def one(fs):
        rc, out, err, hung = chk.run([exe, str(limit)], timeout=600, stdin='\n'.join(fs) + '\n')
        return [l.split() for l in out.splitlines()]
    res = {}
    parts = [files[k::8] for k in range(8)]
    for rows in chk.map(one, [p for p in parts if p]):
        for p, n, ex, v in rows:
            res[p] = (ex == '1', float(v))
    return res


def e2e(chk, plan, judge, flags=('-O3',), cc='clang', limit=15, need_ref=True, timeout=20, hang_n=11):
    """plan: (N, n, h, prim, count, fams, probs). judge(rep, path, n, W, Q, h, ref, text) -> None or message"""
    configs = sorted({(N, h, prim) for N, _, h, prim, _, _, _ in plan}, key=str)
    exes = dict(zip(configs, chk.map(lambda c: chk.build_solver(c[0], c[1], c[2], cc, flags), configs)))
    orc = build_oracle(chk) if need_ref else None
    seen = set()
    for k, (N, n, h, prim, count, fams, probs) in enumerate(plan):
        files = work.gen(chk, n, count, fams, probs, salt='_e%d' % k)
        ref = oracle(chk, orc, files, limit) if need_ref else {}

        def one(p):
            out = p + '.out'
            rc, so, err, hung = chk.run([exes[(N, h, prim)], p, out], timeout=timeout)
            if hung and n <= hang_n:
                rc, so, err, hung = chk.run([exes[(N, h, prim)], p, out], timeout=3 * timeout)
                if hung:
                    return p, 'hang', 'no answer in %d s (twice) with %d cities' % (timeout, n), None
            if hung:
                return p, 'slow', None, None
            text = open(out, errors='replace').read() if os.path.exists(out) else ''
            if os.path.exists(out):
                os.unlink(out)
            if rc != 0:
                return p, 'exit', 'the solver exits with %d on a valid instance: %s' % (rc, err[-300:]), text
            rep = parse_report(text)
            if rep is None:
                return p, 'report', 'no solution in the report: %r' % text[-400:], text
            _, W, Q = I.read_csv(p)
            return p, 'wrong', judge(rep, p, n, W, Q, h, ref.get(p), text), (rep['cost'], rep['generated'], rep['explored']) if 'generated' in rep else None
        for p, kind, msg, sig in chk.map(one, files):
            if kind == 'slow':
                chk.inconclusive += 1
                continue
            chk.cov['evaluations'] += 1
            if sig and isinstance(sig, tuple) and sig[1] > 1:
                seen.add((p, N, h, prim))
                chk.sample('%s %s: cost %r, %d nodes generated, %d explored, reference %s' % (
                    ('hybrid' if h else 'classic'), os.path.basename(p), sig[0], sig[1], sig[2], ref.get(p)))
            if ref.get(p, (0,))[0]:
                chk.count('judged against the exact optimum')
            if msg:
                chk.violate('%s_%s_%s' % (kind, 'hybrid' if h else 'classic', os.path.basename(p)), '%s%s, build for %d: %s' % (
                    'hybrid' if h else 'classic', ' Kruskal' if prim == 0 else '', N, msg), [p])
        for f in files:
            if os.path.exists(f):
                os.unlink(f)
    return seen


def judge_optimal(rep, p, n, W, Q, h, ref, text):
    m = tour_problem(rep, n, W, Q, h)
    if m:
        return m
    if rep['interrupted'] != 'FALSE':
        return None
    exact, opt = ref
    tol = 1e-6 * n + 1e-7 * max(1.0, opt if opt < 1e300 else 1.0)
    if rep['cost'] > opt + eps(n) + tol:
        return 'tour of cost %r, there is one of cost %r (tolerance %r)' % (rep['cost'], opt, eps(n))
    if exact and rep['cost'] < opt - tol:
        return 'tour of cost %r reported, the optimum is %r' % (rep['cost'], opt)
    return None


def concorde(chk, sizes, per, modes):
    """The instances of the repository's own test set, which come with Concorde's optimal tours."""
    plan = [(n, h) for n in sizes for h in modes]
    exes = dict(zip(plan, chk.map(lambda c: chk.build_solver(c[0], c[1], tag='c'), plan)))
    seen = set()
    for n, h in plan:
        f = os.path.join(MAIN, 'graph-convnet-tsp', 'data', 'hyb_tsp', 'test_%d_nodes.txt' % n)
        if not os.path.exists(f):
            continue
        lines = open(f).read().splitlines()
        R = chk.rng('concorde%d' % n)
        todo = R.sample(range(len(lines)), min(per, len(lines)))

        def one(k):
            v = lines[k].split()
            o = v.index('output')
            P = [(float(v[2 * i]), float(v[2 * i + 1])) for i in range(n)]
            t = [int(x) - 1 for x in v[o + 1:]]
            W = [[((P[i][0] - P[j][0]) ** 2 + (P[i][1] - P[j][1]) ** 2) ** .5 for j in range(n)] for i in range(n)]
            RR = chk.rng('cq%d_%d' % (n, k))
            Q = I.probs(RR, n, W, RR.choice(['near', 'uni', 'anti', 'mix', 'zero']))
            opt = sum(W[a][b] for a, b in zip(t, t[1:])) if t[0] == t[-1] else sum(W[t[i]][t[(i + 1) % n]] for i in range(n))
            p = os.path.join(chk.dir, 'conc_%d_%d_%d.csv' % (n, k, h))
            with open(p, 'w') as g:
                g.write(I.text(P, W, Q))
            rc, so, err, hung = chk.run([exes[(n, h)], p, p + '.out'], timeout=chk.q(25, 120))
            if hung:
                return p, 'slow', None
            rep = parse_report(open(p + '.out').read()) if rc == 0 else None
            msg = 'exit %d' % rc if rc else 'no solution in the report' if rep is None else judge_optimal(rep, p, n, W, Q, h, (False, opt if len(set(t)) == n else 1e308), '')
            if not msg:
                os.unlink(p)
            return p, 'ok', msg
        for p, kind, msg in chk.map(one, todo):
            if kind == 'slow':
                chk.inconclusive += 1
                continue
            chk.cov['evaluations'] += 1
            chk.count('judged against a Concorde tour')
            seen.add(p)
            if msg:
                chk.violate('concorde_%s' % os.path.basename(p), '%s, %d cities: %s' % ('hybrid' if h else 'classic', n, msg), [p])
    return seen


def optimality(prop, h):
    def go():
        chk = Check(prop)
        m = chk.q(1, 10)
        # bulk: the monitor without hooks, exact dynamic programming up to 12 cities
        plan = [(n, n, h, prim, c * m, None) for n, prim, c in ((3, None, 40), (4, None, 300), (5, None, 600), (6, None, 900), (7, None, 1200), (8, None, 1200),
                                                                (9, None, 900), (10, None, 600), (11, None, 400), (12, None, 200), (7, 0, 400), (10, 0, 250))]
        plan += [(n, n, h, None, 150 * m, ['e_step', 'e_near', 'e_step'], I.PROBS + I.SPREAD) for n in (5, 7, 9, 11)]
        nt = monitored(chk, 'OPT,TOUR', [], plan, 5000, prop)
        eplan = [(n, n, h, prim, c * m, f, None) for n, prim, c, f in (
            (5, None, 40, None), (7, None, 60, None), (9, None, 100, None), (11, None, 60, None), (13, None, 60, I.EASY), (15, None, 48, I.EASY),
            (20, None, 48, I.EASY), (28, None, 24, I.EASY), (11, 0, 40, I.EASY))]
        nt |= e2e(chk, eplan, judge_optimal)
        nt |= concorde(chk, chk.q((20, 35), (20, 35, 50)), chk.q(24, 150), (h,))
        return chk.finish(
            'random instances of 14 families x 9 kinds of predictions, solved by the real program (3..28 cities, end to end through its '
            'report) and in process (3..12), plus the Concorde test sets of the repository (20, 35, 50); non-trivial: the search explored '
            'more than the root',
            ['exact optimum by Held-Karp up to 15 cities; above, best tour of a 2-opt/Or-opt search, or the Concorde tour',
             'tolerance: 0.00127 sqrt(n), the constant the solver prunes with', 'real runs over the time-out (%d s) are inconclusive above 11 cities' % 20], len(nt))
    return go


# ---- time limit -----------------------------------------------------------------------------------------------------
def timelimit():
    chk = Check('C13')
    R = chk.rng('tl')
    # in process: the clock jumps when the k-th sub-problem is explored
    plan, args = [], []
    for h in (0, 1):
        for n, c in ((7, 60), (9, 80), (12, 80), (18, 40)):
            for k, T in ((-1, 601), (-1, 1e4), (-1, 300), (1, 601), (2, 650), (3, 605), (5, 4296), (9, 601.5), (14, 700), (2, 599.4), (4, 300), (3, 5e6)):
                plan.append((n, n, h, None, chk.q(c, c * 8), None))
                args.append((k, T, R.choice([0, 1000, 123456789, 2**31, 5 * 10**9])))
    nt = monitored(chk, 'LIMIT,TOUR', ['bound', 'find_candidate_node'], plan, 300, 'C13', extra=lambda k: args[k])
    # the real program under a virtual processor-time clock
    so = os.path.join(chk.dir, 'vclock.so')
    chk.cc(['gcc', '-O1', '-shared', '-fPIC', '-o', so, os.path.join(VERIF, 'harness', 'vclock.c')], 'the clock')
    eplan = [(n, h, prim, c) for h in (0, 1) for n, prim, c in ((8, None, 12), (11, None, 16), (14, None, 12), (20, None, 8), (10, 0, 6))]
    exes = dict(zip([p[:3] for p in eplan], chk.map(lambda p: chk.build_solver(p[0], p[1], p[2], tag='t'), eplan)))
    step = 100

    def once(exe, p, k, T, base, timeout=25):
        env = dict(os.environ, LD_PRELOAD=so, VC_K=str(k), VC_T=str(T), VC_STEP=str(step), VC_BASE=str(base), VC_LOG='%s.%d.log' % (p, k))
        rc, _, err, hung = chk.run([exe, p, '%s.%d.out' % (p, k)], timeout=timeout, env=env)
        if hung:
            return None
        text, calls = open('%s.%d.out' % (p, k), errors='replace').read(), 0
        with open('%s.%d.log' % (p, k)) as f:
            calls = int(f.read().split()[1])
        os.unlink('%s.%d.out' % (p, k))
        return rc, parse_report(text), calls, err

    def one(job):
        n, h, prim, p, ks = job
        exe, out = exes[(n, h, prim)], []
        _, W, Q = I.read_csv(p)
        full = once(exe, p, 0, 0, ks[0][1])
        if full is None or full[1] is None or full[2] < 3:
            return p, None if full is None or full[2] < 3 else 'no solution reported without interruption (exit %d)' % full[0], 0, 0
        prev, runs, stopped = None, 0, 0
        if full[1]['interrupted'] != 'FALSE':
            return p, 'interrupted after %.1f s' % full[1]['elapsed'], 0, 0
        for f, base, T in sorted(ks):
            k = 1 + int(f * (full[2] - 1)) if f >= 0 else 2
            r = once(exe, p, k, T, base)
            if r is None:
                return p, 'no answer although the clock passed the limit at reading %d of %d' % (k, full[2]) if T >= 601 and full else None, runs, stopped
            rc, rep, calls, err = r
            runs += 1
            where = 'clock %.1f s ahead from reading %d of %d' % (T, k, full[2])
            if rc or rep is None:
                return p, '%s: exit %d, %s %s' % (where, rc, 'no solution in the report' if rep is None else '', err[-200:]), runs, stopped
            m = tour_problem(rep, n, W, Q, h)
            if m:
                return p, '%s: %s' % (where, m), runs, stopped
            if k == 2 and T >= 601 and rep.get('explored'):
                return p, '%s, that is before any sub-problem: %d explored' % (where, rep['explored']), runs, stopped
            if rep['interrupted'] == 'TRUE':
                stopped += 1
                if T + calls * step / 1e6 < 600:
                    return p, '%s: reported as interrupted' % where, runs, stopped
            else:
                if T >= 601 and k <= calls - 2 and k > 1:
                    return p, '%s: not reported as interrupted' % where, runs, stopped
                if abs(rep['cost'] - full[1]['cost']) > 1e-9 * max(1, full[1]['cost']) or rep['generated'] != full[1]['generated']:
                    return p, '%s: not reported as interrupted, but it stopped early (cost %r after %d nodes, instead of %r after %d)' % (
                        where, rep['cost'], rep['generated'], full[1]['cost'], full[1]['generated']), runs, stopped
            if k > 1 and T >= 601 and not T - 1 <= rep['elapsed'] <= T + 1 + calls * step / 1e6:
                return p, '%s: elapsed time %r reported' % (where, rep['elapsed']), runs, stopped
            if not -1e-6 <= rep['time'] <= rep['elapsed'] * (1 + 1e-6) + 1e-5:
                return p, '%s: tour obtained after %r s of %r' % (where, rep['time'], rep['elapsed']), runs, stopped
            if rep['cost'] < full[1]['cost'] - 1e-9 * max(1, full[1]['cost']) - eps(n):
                return p, '%s: tour of cost %r, the complete run ends with %r' % (where, rep['cost'], full[1]['cost']), runs, stopped
            if T >= 601 and k > 1:
                if prev is not None and rep['cost'] > prev[1] + 1e-9 * max(1, prev[1]):
                    return p, 'stopping later gives a worse tour: %r at reading %d, %r at reading %d' % (prev[1], prev[0], rep['cost'], k), runs, stopped
                prev = (k, rep['cost'])
        return p, None, runs, stopped
    jobs = []
    for k, (n, h, prim, c) in enumerate(eplan):
        for p in work.gen(chk, n, chk.q(2 * c, 12 * c), I.COMPLETE if n <= 11 else I.EASY, salt='_t%d' % k):
            ks = [(R.random(), R.choice([0, 10**6, 2**31 + 5, 7 * 10**9]), R.choice([601.2, 601.2, 602, 700, 1e4, 4296, 4e6, 599, 30])) for _ in range(chk.q(7, 14))]
            jobs.append((n, h, prim, p, ks + [(.999999, 0, 650.0), (-1, 10**6, 700.0)]))
    for p, msg, runs, stopped in chk.map(one, jobs):
        chk.cov['evaluations'] += runs
        chk.count('runs under the virtual clock', runs)
        chk.count('of them reported as interrupted', stopped)
        if stopped:
            nt.add(p)
            chk.sample('%s: %d of %d runs stopped by the limit' % (os.path.basename(p), stopped, runs))
        if msg:
            chk.violate('limit_' + os.path.basename(p), msg, [p])
    return chk.finish('the processor-time clock is replaced by a virtual one which passes the limit at a chosen sub-problem or clock reading (or stays '
                      'just below it); non-trivial: the instance needs more than one sub-problem or the run was stopped',
                      ['the limit is the documented default of 10 minutes; readings between 600 s and 601 s are left open',
                       'the search is deterministic, so runs stopped at different points are prefixes of one another'], len(nt))


# ---- what a run stopped before the first sub-problem reports: initial tour and candidate node ------------------------
def vclock(chk):
    so = os.path.join(chk.dir, 'vclock.so')
    if not os.path.exists(so):
        chk.cc(['gcc', '-O1', '-shared', '-fPIC', '-o', so, os.path.join(VERIF, 'harness', 'vclock.c')], 'the clock')
    return so


def stopped_run(chk, so, exe, p, k, timeout=40):
    env = dict(os.environ, LD_PRELOAD=so, VC_K=str(k), VC_T='700', VC_STEP='1', VC_BASE='0', VC_LOG=p + '.log')
    rc, _, err, hung = chk.run([exe, p, p + '.out'], timeout=timeout, env=env)
    text = ''
    for f in (p + '.out', p + '.log'):
        if os.path.exists(f):
            text = text or open(f, errors='replace').read()
            os.unlink(f)
    return rc, text, err, hung


def greedy_tour(n, W, Q, s, by_prob):
    """-> cost or None (stuck), tie met?"""
    u, v, c, tie = {s}, s, 0.0, False
    for _ in range(n - 1):
        cand = [j for j in range(n) if j not in u and W[v][j] > 0]
        if not cand:
            return None, tie
        best = max(Q[v][j] for j in cand) if by_prob else min(W[v][j] for j in cand)
        nx = [j for j in cand if (Q[v][j] if by_prob else W[v][j]) == best]
        tie |= len(nx) > 1
        c += W[v][nx[0]]
        v = nx[0]
        u.add(v)
    return (c + W[v][s] if W[v][s] > 0 else None), tie


def initial_tour_problem(rep, n, W, Q, h):
    m = tour_problem(rep, n, W, Q, h)
    if m:
        return m
    order = [a for a, _ in rep['cycle']]
    by_weight = by_prob = False
    for seq in (order, order[::-1]):
        for s in range(n):
            t = seq[s:] + seq[:s]
            near = prob = True
            for k in range(n - 1):
                rest = [j for j in t[k + 1:] if W[t[k]][j] > 0]
                near &= W[t[k]][t[k + 1]] <= min(W[t[k]][j] for j in rest)
                prob &= Q[t[k]][t[k + 1]] >= max(Q[t[k]][j] for j in rest)
            by_weight |= near
            by_prob |= bool(h) and prob
    if not (by_weight or by_prob):
        return 'the initial tour (cost %r) goes to the nearest%s unvisited city from no start' % (rep['cost'], ' (or most probable)' if h else '')
    if 'NEAREST' not in rep['type']:
        return 'initial tour of type %s' % rep['type']
    if not (by_prob if 'HYBRID' in rep['type'] else by_weight):
        return 'initial tour of type %s, but it always goes to the %s unvisited city' % (rep['type'], 'nearest' if by_weight else 'most probable')
    runs = [greedy_tour(n, W, Q, s, b) for s in range(n) for b in ((False, True) if h else (False,))]
    costs = [c for c, _ in runs if c is not None]
    if costs and not any(t for _, t in runs) and abs(min(costs) - rep['cost']) > 1e-6 * n + 1e-7 * min(costs):
        return 'initial tour of cost %r, the best greedy tour over all the starts costs %r' % (rep['cost'], min(costs))
    return None


def candidate_problem(rep, n, W, N):
    import heapq
    lb = []
    for x in range(n):
        rest = [i for i in range(n) if i != x]
        d = {i: float('inf') for i in rest}
        d[rest[0]] = 0.0
        tot = 0.0
        while d:
            v = min(d, key=d.get)
            if d[v] == float('inf'):
                return None
            tot += d.pop(v)
            for j in d:
                if 0 < W[v][j] < d[j]:
                    d[j] = W[v][j]
        e = heapq.nsmallest(2, [w for w in W[x] if w > 0])
        lb.append(tot + sum(e))
    c = rep['candidate']
    if not 0 <= c < n:
        return 'candidate node %d of %d' % (c, n)
    if lb[c] < max(lb) - eps(N) - 1e-7 * max(1.0, max(lb)):
        return 'candidate node %d has a 1-tree of %r, the best one costs %r' % (c, lb[c], max(lb))
    return None


def initial(prop, tags):
    """C10 and C11: through the monitor, and on the real program stopped before its first sub-problem."""
    def go():
        chk = Check(prop)
        near = [(n, n, h, None, chk.q(c, 8 * c), ['e_near'], I.SPREAD) for h, c in ((1, 100), (0, 40)) for n in (6, 9, 12, 16)]
        near += [(n, n, 1, None, chk.q(100, 1000), ['e_stair'], ['stair']) for n in (5, 6, 7, 8)]
        nt = monitored(chk, tags, ['find_candidate_node'], std_plan(chk, 1.5) + near, 20, prop)
        so = vclock(chk)
        plan = [(n, n, h, prim, chk.q(c, 8 * c)) for h in (0, 1) for n, prim, c in ((4, None, 40), (6, None, 60), (9, None, 100), (14, None, 60), (25, None, 30), (60, None, 12), (9, 0, 40))]
        plan += [(12, 7, h, None, chk.q(40, 300)) for h in (0, 1)]
        exes = dict(zip(plan, chk.map(lambda p: chk.build_solver(p[0], p[2], p[3], flags=('-O1',), tag='i%d' % p[1]), plan)))
        for k, pl in enumerate(plan):
            N, n, h, prim, c = pl

            def one(p):
                rc, text, err, hung = stopped_run(chk, so, exes[pl], p, 2)
                if hung:
                    return p, 'hung', None
                rep = parse_report(text) if rc == 0 else None
                if rep is None:
                    return p, 'exit %d, no solution in the report %r' % (rc, (err or text)[-200:]), None
                _, W, Q = I.read_csv(p)
                if rep['interrupted'] != 'TRUE':
                    return p, None, None
                return p, initial_tour_problem(rep, n, W, Q, h) if prop == 'C10' else candidate_problem(rep, n, W, N), rep
            for p, msg, rep in chk.map(one, work.gen(chk, n, c, I.COMPLETE, salt='_i%d' % k)):
                if msg == 'hung':
                    chk.inconclusive += 1
                    continue
                chk.cov['evaluations'] += 1
                if rep:
                    chk.count('real runs stopped before the first sub-problem')
                    nt.add((p, N, h, prim))
                    chk.sample('%s: %s, cost %r, candidate node %d' % (os.path.basename(p), rep['type'], rep['cost'], rep['candidate']))
                if msg:
                    chk.violate('initial_' + os.path.basename(p), '%s build for %d: %s' % ('hybrid' if h else 'classic', N, msg), [p])
                os.unlink(p)
        return chk.finish(RULE_MON + '; and the real program with a clock that passes the limit at its second reading, so that it reports its initial state',
                          ASSUME_MON[:1] + ['where two cities are equally near (or probable) any choice is accepted'], len(nt))
    return go


# ---- C02: the reported tour -----------------------------------------------------------------------------------------
def reported_tour():
    chk = Check('C02')
    m = chk.q(1, 8)
    nt = monitored(chk, 'TOUR,LIST', [], [(n, n, h, prim, c * m, None) for h in (0, 1) for n, prim, c in (
        (3, None, 40), (4, None, 100), (5, None, 150), (6, None, 200), (8, None, 250), (10, None, 200), (12, None, 100), (8, 0, 120))], 300, 'C02')

    def judge(rep, p, n, W, Q, h, ref, text):
        return tour_problem(rep, n, W, Q, h)
    nt |= e2e(chk, [(N, n, h, prim, c * m, f, None) for h in (0, 1) for N, n, prim, c, f in (
        (3, 3, None, 12, I.COMPLETE), (5, 5, None, 30, I.COMPLETE), (8, 8, None, 60, I.COMPLETE), (10, 6, None, 30, I.COMPLETE), (12, 12, None, 40, I.EASY),
        (20, 20, None, 24, I.EASY), (9, 9, 0, 40, I.COMPLETE), (40, 11, None, 24, I.EASY))], judge, need_ref=False)
    # large instances, stopped by the time limit after a few sub-problems
    so = vclock(chk)
    R = chk.rng('large')
    plan = [(n, h, prim, c * m) for h in (0, 1) for n, prim, c in ((30, None, 16), (60, None, 10), (100, None, 6), (150, None, 3), (45, 0, 6))] + [(380, 0, None, m), (380, 1, None, m)]
    exes = dict(zip(plan, chk.map(lambda q: chk.build_solver(q[0], q[1], q[2], tag='L'), plan)))
    for k, pl in enumerate(plan):
        n, h, prim, c = pl

        def one(a):
            p, kk = a
            rc, text, err, hung = stopped_run(chk, so, exes[pl], p, kk, 200 if n > 300 else 100)
            if hung:
                return p, 'hung', None
            rep = parse_report(text) if rc == 0 else None
            if rep is None:
                return p, 'exit %d, no solution in the report %r' % (rc, (err or text)[-200:]), None
            _, W, Q = I.read_csv(p)
            return p, tour_problem(rep, n, W, Q, h), rep
        jobs = [(p, 2 * n + R.choice([4, 8, 15, 30]) if n < 300 else (1 + h) * n + 6) for p in work.gen(chk, n, c, I.COMPLETE if n < 300 else ['u', 'clu'], salt='_L%d' % k)]
        for p, msg, rep in chk.map(one, jobs):
            if msg == 'hung':
                chk.inconclusive += 1
                continue
            chk.cov['evaluations'] += 1
            chk.count('large runs')
            if rep and rep['generated'] > 1:
                nt.add((p, h, prim))
                chk.count('large runs with a tour found by the search' if 'NEAREST' not in rep['type'] else 'large runs with a greedy tour')
            if msg:
                chk.violate('tour_' + os.path.basename(p), '%s, %d cities: %s' % ('hybrid' if h else 'classic', n, msg), [p])
    return chk.finish(RULE_MON + '; instances of up to 380 cities are stopped by a virtual clock after some sub-problems',
                      ['cost and probability are compared with the printed precision (6 decimals)'], len(nt))


# ---- C04: what the result may depend on -----------------------------------------------------------------------------
def determinism():
    import re
    chk = Check('C04')
    m = chk.q(5, 40)
    plan = [(n, h, prim, c * m) for h in (0, 1) for n, prim, c in ((5, None, 20), (7, None, 40), (9, None, 60), (11, None, 40), (14, None, 16), (9, 0, 30))]
    exes = dict(zip(plan, chk.map(lambda q: chk.build_solver(q[0], q[1], q[2], tag='D'), plan)))
    seen = set()

    def norm(t):
        t = re.sub(r'elapsed time = \S+s', 'elapsed', t)
        t = re.sub(r'time to obtain = \S+s', 'obtained', t)
        return re.sub(r'at time: \S+', 'at', t)
    for k, pl in enumerate(plan):
        n, h, prim, c = pl
        R = chk.rng('det%d' % k)
        bases = work.gen(chk, n, c, I.EASY, salt='_d%d' % k)
        jobs = [(p, R.sample(I.PROBS, 3), R.randrange(10**9)) for p in bases]

        def one(a):
            p, kinds, seed = a
            fam = os.path.basename(p).split('_')
            texts = []
            _, W, Q = I.read_csv(p)
            variants = [('the same file', Q), ('the same file again', Q)]
            if not h:
                variants += [('other predictions (%s)' % kd, I.probs(chk.rng('v%d%s' % (seed, kd)), n, W, kd)) for kd in kinds]
            with open(p) as f:
                head = f.read().split('\n')[0]
            P = [tuple(float(v) for v in t.strip('() ').split(',')) for t in head.split(';')]
            for j, (what, q) in enumerate(variants):
                pv = '%s.v%d' % (p, j)
                with open(pv, 'w') as f:
                    f.write(I.text(P, W, q))
                env = dict(os.environ)
                if j == 1:      # another memory layout and environment
                    env.update(MALLOC_PERTURB_='165', VERIF_PAD='x' * (seed % 4000), MALLOC_ARENA_MAX='1')
                rc, so, err, hung = chk.run([exes[pl], pv, pv + '.out'], timeout=25, env=env)
                t = open(pv + '.out', errors='replace').read() if os.path.exists(pv + '.out') else ''
                for x in (pv, pv + '.out'):
                    if os.path.exists(x):
                        os.unlink(x)
                if hung:
                    return p, 'slow', 0
                rep = parse_report(t)
                if rep and not h and rep['prob'] != 0.0:
                    t = re.sub(r'prob_tour = \S+', 'prob', t)
                texts.append((what, rc, norm(t), rep))
            w0, rc0, t0, rep = texts[0]
            for what, rc, t, _ in texts[1:]:
                if rc != rc0 or t != t0:
                    diff = [(a, b) for a, b in zip(t0.split('\n'), t.split('\n')) if a != b][:2]
                    return p, 'exit %d then %d, reports that differ with %s: %r' % (rc0, rc, what, diff), 0
            return p, None, rep['generated'] if rep and 'generated' in rep else 0
        for p, msg, gen in chk.map(one, jobs):
            if msg == 'slow':
                chk.inconclusive += 1
                continue
            chk.cov['evaluations'] += 1
            chk.count('runs compared', 2 if h else 5)
            if gen > 1:
                seen.add((p, h, prim))
                chk.sample('%s %s: same report (%d nodes)' % ('hybrid' if h else 'classic', os.path.basename(p), gen))
            if msg:
                chk.violate('differs_%s_%s' % ('hybrid' if h else 'classic', os.path.basename(p)), '%s: %s' % ('hybrid' if h else 'classic', msg), [p])
            os.unlink(p)
    return chk.finish('each instance is solved twice (once with poisoned allocations and a shifted stack), the classic build also with three other '
                      'sets of predictions; the reports must be equal but for the times; non-trivial: more than one sub-problem',
                      ['no run reaches the time limit'], len(seen))


# ---- C14: incomplete graphs -----------------------------------------------------------------------------------------
def incomplete():
    chk = Check('C14')
    m = chk.q(1, 8)
    nt = monitored(chk, 'OPT,TOUR', [], [(n, n, h, prim, c * m, I.GRAPHS) for h in (0, 1) for n, prim, c in (
        (4, None, 150), (5, None, 250), (6, None, 350), (7, None, 400), (8, None, 300), (10, None, 250), (12, None, 120), (7, 0, 200), (10, 0, 120))] +
        [(12, n, h, None, 80 * m, I.GRAPHS) for h in (0, 1) for n in (6, 9)], 3000, 'C14')

    def judge(rep, p, n, W, Q, h, ref, text):
        exact, opt = ref
        if opt == float('inf') and exact:
            chk.count('graphs without a tour')
            return 'a cycle with %d edges and cost %r is reported, the graph has no tour' % (rep['cycle_n'], rep['cost']) if rep['cycle_n'] or rep['cycle'] else None
        chk.count('graphs with a tour')
        if rep['cycle_n'] == 0 and rep['interrupted'] == 'FALSE':
            return 'no tour reported, the graph has one of cost %r' % opt
        return judge_optimal(rep, p, n, W, Q, h, ref, text)
    nt |= e2e(chk, [(N, n, h, prim, c * m, I.GRAPHS, None) for h in (0, 1) for N, n, prim, c in (
        (4, 4, None, 20), (6, 6, None, 60), (8, 8, None, 80), (10, 10, None, 60), (12, 9, None, 30), (8, 8, 0, 50))], judge)
    return chk.finish('incomplete graphs: Hamiltonian (sparse, single cycle, wheel), and without a tour (cut city, bridge, unbalanced bipartite, two '
                      'components, pendant city, Petersen), random around the threshold; existence and optimum by dynamic programming; non-trivial: '
                      'more than one sub-problem', ['at most 12 cities'], len(nt))


# ---- C36: the record of improvements ---------------------------------------------------------------------------------
def history_problem(rep, text, n, W, Q, h, limit=600):
    """The announcements of a complete report against its last section."""
    said = []
    for ln in text.splitlines():
        if 'Updated best value' in ln:
            f = re.search(r'Updated best value: (\S+), at time: (\S+)$', ln)
            try:
                said.append((float(f.group(1)), float(f.group(2))))
            except (AttributeError, ValueError):
                return 'announcement without a value or a time: %r' % ln, said
    tol = 1e-6 + 1e-9 * abs(rep['cost'])
    late = 2e-6 + 1e-6 * rep['elapsed']
    for (a, s), (b, t) in zip(said, said[1:]):
        if not b < a + 1e-6:
            return '%r announced as an improvement of %r' % (b, a), said
        if t < s - late:
            return 'announced at %r s after one at %r s' % (t, s), said
    if said and (said[0][1] < -late or said[-1][1] > rep['elapsed'] + late):
        return 'announcements from %r to %r s in a run of %r s' % (said[0][1], said[-1][1], rep['elapsed']), said
    greedy = [greedy_tour(n, W, Q, s, p) for s in range(n) for p in ((False, True) if h else (False,))]
    first = float('inf') if any(tie for _, tie in greedy) else min((c for c, _ in greedy if c is not None), default=float('inf'))
    if not said:
        if rep['node'] != 0 or rep['level'] != 0 or not rep['type'].startswith('CLOSED_NEAREST'):
            return 'nothing announced, but the solution is one of type %s of sub-problem %d (level %d)' % (rep['type'], rep['node'], rep['level']), said
        return None, said
    if abs(said[-1][0] - rep['cost']) > tol:
        return 'cost %r reported, %r announced last' % (rep['cost'], said[-1][0]), said
    if rep['type'] not in ('CLOSED_1TREE', 'CLOSED_SUBGRADIENT'):
        return 'improvements announced, but the solution is of type %s' % rep['type'], said
    if not (1 <= rep['node'] <= rep['generated'] and 1 <= rep['level'] <= rep['levels']) or (rep['node'] == 1) != (rep['level'] == 1):
        return 'solution of sub-problem %d (level %d) in a search of %d sub-problems and %d levels' % (rep['node'], rep['level'], rep['generated'], rep['levels']), said
    if not -late <= rep['time'] <= said[-1][1] + late:
        return 'solution announced at %r s, but obtained at %r s' % (said[-1][1], rep['time']), said
    if len(said) > 1 and rep['time'] < said[-2][1] - late:
        return 'solution obtained at %r s, before the announcement of the one before at %r s' % (rep['time'], said[-2][1]), said
    if said[0][0] > first + 1e-6 + 1e-9 * abs(first) and first < float('inf'):
        return 'announced %r, the search begins with a tour of %r' % (said[0][0], first), said
    return None, said


def history():
    chk = Check('C36')
    nt = monitored(chk, 'HIST', ['bound', 'find_candidate_node', 'constrained_prim', 'constrained_kruskal'], std_plan(chk, 2.5), 250, 'C36')
    so = vclock(chk)
    plan = [(n, h, prim, chk.q(c, 8 * c)) for h in (0, 1) for n, prim, c in ((4, None, 30), (6, None, 60), (8, None, 90), (11, None, 60), (14, None, 40), (20, None, 16), (9, 0, 40))]
    exes = dict(zip(plan, chk.map(lambda p: chk.build_solver(p[0], p[1], p[2], flags=('-O2',), tag='h'), plan)))
    R = chk.rng('history')
    for k, pl in enumerate(plan):
        n, h, prim, c = pl

        def one(a):
            p, step, base, stop = a
            env = dict(os.environ, LD_PRELOAD=so, VC_K=str(stop), VC_T='700', VC_STEP=str(step), VC_BASE=str(base), VC_LOG=p + '.log')
            rc, _, err, hung = chk.run([exes[pl], p, p + '.out'], timeout=25, env=env)
            text = open(p + '.out', errors='replace').read() if os.path.exists(p + '.out') else ''
            for f in (p + '.out', p + '.log'):
                if os.path.exists(f):
                    os.unlink(f)
            if hung:
                return p, 'hung', []
            rep = parse_report(text) if rc == 0 else None
            if rep is None or 'generated' not in rep:
                return p, 'exit %d, no solution in the report %r' % (rc, (err or text)[-200:]), []
            _, W, Q = I.read_csv(p)
            return (p,) + history_problem(rep, text, n, W, Q, h)
        jobs = [(p, R.choice([1, 7, 40, 1000]), R.choice([0, 10**6, 2**31 + 5]), R.choice([0, 0, 2 * n + R.choice([3, 4, 6, 9, 15])])) for p in
                work.gen(chk, n, c, I.COMPLETE if n <= 11 else I.EASY, salt='_h%d' % k)]
        for p, msg, said in chk.map(one, jobs):
            if msg == 'hung':
                chk.inconclusive += 1
                continue
            chk.cov['evaluations'] += 1
            chk.count('complete reports read')
            chk.count('announcements read', len(said))
            chk.count('reports with several announcements', len(said) > 1)
            if said:
                nt.add((p, h, prim))
                chk.sample('%s: %s' % (os.path.basename(p), ', '.join('%r at %r s' % s for s in said)))
            if msg:
                chk.violate('history_' + os.path.basename(p), '%s, %d cities: %s' % ('hybrid' if h else 'classic', n, msg), [p])
            os.unlink(p)
    return chk.finish(RULE_MON + '; the announcements are read from the standard output of the search, sub-problem by sub-problem, under a clock that moves between '
                      'sub-problems, and from complete reports of the real program under a virtual clock', ASSUME_MON[:1] + ['times are compared with the printed precision (6 decimals, single precision)'], len(nt))
