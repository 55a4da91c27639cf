"""C22, C23: the whole program, its printers and the repository's own tests under the sanitizers."""
import os
import re
import subprocess

import instances as I
import work
from vlib import Check, HarnessError, HS, MAIN, SAN_ENV, VERIF, parse_report, sanitizer_report, tail

ASAN = ['-O1', '-g', '-fsanitize=address,undefined,float-cast-overflow', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer']
ASAN_GCC = ['-O1', '-g', '-fsanitize=address,undefined,float-cast-overflow,bounds-strict', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer']
MSAN = ['-O1', '-g', '-fsanitize=memory', '-fsanitize-memory-track-origins', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer']
VC = os.path.join(VERIF, 'harness', 'vclock.c')
TESTS = ['test_create_graph', 'test_create_euclidean_graph', 'test_create_simple_graph', 'test_create_forest', 'test_merge_find', 'test_quick_sort',
         'test_quick_sort_prob', 'test_kruskal', 'test_prim', 'test_dfs', 'test_branch_and_bound', 'test_read_tsp_csv_file']


def leak(rep):
    return rep is not None and 'LeakSanitizer' in rep


def memory(prop):
    """C22: out of bounds, use after free, undefined behaviour. C23: uninitialised values, leaks."""
    uninit = prop == 'C23'
    env0 = dict(SAN_ENV, ASAN_OPTIONS='halt_on_error=1:detect_leaks=%d:exitcode=99:detect_stack_use_after_return=1:abort_on_error=0:strict_string_checks=1:detect_invalid_pointer_pairs=2' % uninit)

    def go():
        chk = Check(prop)
        m = chk.q(1, 8)
        flavours = [('clang', ASAN, 'A'), ('clang', MSAN, 'M')] if uninit else [('gcc', ASAN_GCC, 'G'), ('clang', ASAN, 'A')]
        seen = set()

        def judge(rc, err, hung, what, files, interrupted=None):
            """-> message or None"""
            if hung:
                chk.inconclusive += 1
                return None
            rep = sanitizer_report(err)
            if rep is None and rc < 0:
                rep = 'killed by signal %d' % -rc
            if rep is None:
                return None
            if not uninit and leak(rep):
                return None
            return '%s: %s' % (what, rep)

        # 1. the real program to the end
        plan = []
        for h in (0, 1):
            plan += [(N, n, h, prim, c * m, fams) for N, n, prim, c, fams in (
                (3, 3, None, 12, None), (5, 5, None, 40, None), (8, 8, None, 60, None), (12, 7, None, 30, None), (11, 11, None, 24, I.EASY), (30, 13, None, 8, I.EASY),
                (8, 8, 0, 40, None), (11, 11, 0, 10, I.EASY), (7, 7, None, 60, I.GRAPHS), (10, 10, None, 50, I.GRAPHS), (9, 9, 0, 30, I.GRAPHS), (20, 6, None, 20, I.GRAPHS))]
        builds = sorted({(N, h, prim, fl[2]) for N, _, h, prim, _, _ in plan for fl in flavours}, key=str)
        by = {fl[2]: fl for fl in flavours}
        exes = dict(zip(builds, chk.map(lambda b: chk.build_solver(b[0], b[1], b[2], by[b[3]][0], by[b[3]][1], tag=b[3]), builds)))
        jobs = []
        for k, (N, n, h, prim, c, fams) in enumerate(plan):
            for p in work.gen(chk, n, c, fams, salt='_m%d' % k):
                for fl in flavours:
                    jobs.append((N, n, h, prim, fl[2], p))

        def one(j):
            N, n, h, prim, fl, p = j
            out = '%s.%s.out' % (p, fl)
            rc, so, err, hung = chk.run([exes[(N, h, prim, fl)], p, out], timeout=20, env=env0)
            rep = parse_report(open(out, errors='replace').read()) if os.path.exists(out) else None
            return j, judge(rc, err, hung, '%s%s, %d cities, build for %d (%s)' % ('hybrid' if h else 'classic', ' Kruskal' if prim == 0 else '', n, N, fl), [p]), rep
        for j, msg, rep in chk.map(one, jobs):
            N, n, h, prim, fl, p = j
            chk.cov['evaluations'] += 1
            chk.count('complete runs (%s)' % {'A': 'clang, ASan and UBSan', 'G': 'gcc, ASan and UBSan', 'M': 'MSan'}[fl])
            if rep and rep.get('generated', 0) > 1:
                seen.add((p, N, h, prim))
                chk.count('sub-problems under the sanitizers', rep['generated'])
                chk.sample('%s (%s): %d sub-problems, no report' % (os.path.basename(p), fl, rep['generated'])) if not msg else None
            if msg:
                chk.violate('run_%s_%s' % (fl, os.path.basename(p)), msg, [p])
        # 2. large instances, stopped by the virtual clock (linked in) after some sub-problems
        R = chk.rng('large')
        lplan = [(n, h, prim, c * m) for h in (0, 1) for n, prim, c in ((20, None, 10), (40, None, 8), (80, None, 6), (130, None, 4), (257, None, 1), (30, 0, 8), (90, 0, 3))]
        lb = [(q[0], q[1], q[2], fl[2]) for q in lplan for fl in flavours]
        lex = dict(zip(lb, chk.map(lambda b: chk.build_solver(b[0], b[1], b[2], by[b[3]][0], by[b[3]][1] + [VC, '-Wno-everything' if by[b[3]][0] == 'clang' else '-w'], tag='L' + b[3]), lb)))
        jobs = []
        for k, (n, h, prim, c) in enumerate(lplan):
            for p in work.gen(chk, n, c, I.EASY + ['clu', 'line', 'star', 'sparse'], salt='_ml%d' % k):
                kk = max(2, (2 if h else 1) * n + R.choice([3, 4] if n > 150 else [-n, 6, 8, 12] if n > 100 else [-n, 6, 10, 15, 30] if n > 60 else [-n, 10, 30, 60, 120]))
                for fl in flavours:
                    jobs.append((n, h, prim, fl[2], p, kk))

        def big(j):
            n, h, prim, fl, p, kk = j
            out = '%s.%s.out' % (p, fl)
            env = dict(env0, VC_K=str(kk), VC_T='700', VC_STEP='1', VC_BASE='0', VC_LOG=out + '.log')
            rc, so, err, hung = chk.run([lex[(n, h, prim, fl)], p, out], timeout=120, env=env)
            rep = parse_report(open(out, errors='replace').read()) if os.path.exists(out) else None
            return j, judge(rc, err, hung, '%s%s, %d cities, stopped at clock reading %d (%s)' % ('hybrid' if h else 'classic', ' Kruskal' if prim == 0 else '', n, kk, fl), [p]), rep
        for j, msg, rep in chk.map(big, jobs):
            chk.cov['evaluations'] += 1
            if rep:
                chk.count('large or stopped runs')
                if rep['interrupted'] == 'TRUE':
                    chk.count('of them interrupted')
                if rep.get('generated', 0) > 1:
                    seen.add((j[4], j[1], j[2]))
            if msg:
                chk.violate('big_%s_%s_%d' % (j[3], os.path.basename(j[4]), j[5]), msg, [j[4]])
        # 2c. instances that are to be refused, or whose lines are of different lengths: only the memory is judged
        bplan = [(6, 0), (6, 1), (20, 0)]
        bb = [(N, h, None, fl[2]) for N, h in bplan for fl in flavours]
        bex = dict(zip(bb, chk.map(lambda b: exes.get(b) or chk.build_solver(b[0], b[1], None, by[b[3]][0], by[b[3]][1], tag=b[3]), bb)))
        jobs = []
        for N, h in bplan:
            for k in range(40 * m):
                kind = R.choice(['long row', 'long row', 'long row', 'long first line', 'more rows', 'cut', 'short row', 'fewer rows', 'word'])
                n = R.choice([N, N, N, N - 1, N + 1, R.randint(3, N)])
                P, W, Q = I.make(n, 'u', 'uni', R.randrange(10**9))
                L = [x.rstrip(';') for x in I.text(P, W, Q).rstrip('\n').split('\n')]
                body = None
                if kind == 'long row':
                    r = R.randint(1, n)
                    L[r] = ';'.join(L[r].split(';') + ['(0.5, 0.5)'] * R.choice([1, 1, 1, 2, 5, N, 200]))
                elif kind == 'long first line':
                    L[0] += ';(0.5, 0.5)' * R.choice([1, 1, 2, N, 200])
                elif kind == 'more rows':
                    L += [L[-1]] * R.choice([1, 1, 2, N, 200])
                elif kind == 'cut':
                    body = '\n'.join(L)
                    body = body[:R.randrange(len(body))]
                elif kind == 'short row':
                    r = R.randint(0, n)
                    L[r] = ';'.join(L[r].split(';')[:R.randrange(n)])
                elif kind == 'fewer rows':
                    L = L[:R.randint(1, n)]
                else:
                    r = R.randint(0, n)
                    t = L[r].split(';')
                    t[R.randrange(n)] = R.choice(['', '(', 'x' * 5000, '(1.0)', '(1e999, 1e999)', '(nan, nan)', '(-1.0, -1.0)', '\0'])
                    L[r] = ';'.join(t)
                p = os.path.join(chk.dir, 'inst', 'bad_%d_%d_%d.csv' % (N, h, k))
                os.makedirs(os.path.dirname(p), exist_ok=True)
                with open(p, 'w') as f:
                    f.write('\n'.join(L) + '\n' if body is None else body)
                jobs += [(N, h, fl[2], p, kind) for fl in flavours]

        def refused(j):
            N, h, fl, p, kind = j
            rc, so, err, hung = chk.run([bex[(N, h, None, fl)], p, '%s.%s.out' % (p, fl)], timeout=10, env=env0)
            return j, judge(rc, err, False, '%s, build for %d, a file with a %s (%s)' % ('hybrid' if h else 'classic', N, kind, fl), [p])
        for j, msg in chk.map(refused, jobs):
            chk.cov['evaluations'] += 1
            chk.count('malformed instances')
            if msg:
                chk.violate('bad_%s_%s' % (j[2], os.path.basename(j[3])), msg, [j[3]])
        # 2b. as a user builds it: no sanitizer, the usual stack of 8 MB, and as many cities as the memory carries
        if not uninit:
            rplan = [(n, h, cc) for n, cc in ((340, 'clang'), (400, 'clang'), (400, 'gcc')) for h in (0, 1)] + chk.q([], [(450, 0, 'clang'), (390, 1, 'gcc'), (370, 0, 'gcc'), (450, 1, 'clang')])
            rex = dict(zip(rplan, chk.map(lambda b: chk.build_solver(b[0], b[1], None, b[2], ['-O3' if b[2] == 'clang' else '-O2', VC, '-w'], tag='R' + b[2]), rplan)))

            def release(k):
                n, h, cc = rplan[k]
                p, = work.gen(chk, n, 1, ['u', 'clu'], salt='_mr%d' % k)
                out = p + '.out'
                env = dict(os.environ, VC_K=str((1 + h) * n + 6), VC_T='700', VC_STEP='1', VC_BASE='0', VC_LOG=out + '.log')
                rc, so, err, hung = chk.run(['bash', '-c', 'ulimit -Ss 8192; exec "$@"', 'x', rex[rplan[k]], p, out], timeout=200, env=env)
                rep = parse_report(open(out, errors='replace').read()) if os.path.exists(out) else None
                msg = None
                if hung:
                    chk.inconclusive += 1
                elif rc < 0 or rc > 128:
                    msg = '%s, %d cities, %s release build, stack of 8 MB: killed by signal %d' % ('hybrid' if h else 'classic', n, cc, -rc if rc < 0 else rc - 128)
                return p, msg, rep
            for p, msg, rep in chk.map(release, range(len(rplan))):
                chk.cov['evaluations'] += 1
                if rep and rep.get('explored', 0) > 0:
                    seen.add((p, 'release'))
                    chk.count('runs of 340 to 450 cities in release builds')
                if msg:
                    chk.violate('release_%s' % os.path.basename(p), msg, [p])
        # 3. the printers
        pplan = [(N, n, h, c * m) for h in (0, 1) for N, n, c in ((9, 9, 20), (20, 7, 12), (12, 10, 12))]
        pb = [(q[0], q[2], fl[2]) for q in pplan for fl in flavours]
        pb = sorted(set(pb))
        pex = dict(zip(pb, chk.map(lambda b: chk.build_harness('prints.c', b[0], b[1], cc=by[b[2]][0], flags=by[b[2]][1], tag=b[2]), pb)))
        jobs = []
        for k, (N, n, h, c) in enumerate(pplan):
            for p in work.gen(chk, n, c, ['u', 'big', 'hyperb', 'line', 'sparse', 'rnd'], salt='_mp%d' % k):
                if k % 3 == 0:      # coordinates and weights with many digits
                    P, W, Q = I.make(n, 'rnd', 'uni', k)
                    s = 10.0 ** R.choice([9, 15, 60, 150, 290])
                    P = [(-x * s, -y * s) for x, y in P]
                    W = [[w * min(s, 1e9) for w in r] for r in W]
                    with open(p, 'w') as f:
                        f.write(I.text(P, W, Q))
                for fl in flavours:
                    jobs.append((N, n, h, fl[2], p))

        def pr(j):
            N, n, h, fl, p = j
            rc, so, err, hung = chk.run([pex[(N, h, fl)], p], timeout=60, env=env0)
            return j, judge(rc, err, hung, 'printing an instance of %d cities, build for %d (%s)' % (n, N, fl), [p]), len(so)
        for j, msg, k in chk.map(pr, jobs):
            chk.cov['evaluations'] += 1
            chk.count('instances printed')
            if k:
                seen.add(j[4])
            if msg:
                chk.violate('print_%s_%s' % (j[3], os.path.basename(j[4])), msg, [j[4]])
        # 4. the repository's own tests
        td = os.path.join(HS, 'test')
        tsrc = [os.path.join(td, f) for f in sorted(os.listdir(td)) if f.endswith('.c')] if os.path.isdir(td) else []
        tb = [(20, h, fl[2]) for h in (0, 1) for fl in flavours]
        ok = subprocess.run(['clang', '-std=gnu99', '-w', '-fsyntax-only', '-DMAX_VERTEX_NUM=20', '-DHYBRID=0', '-I' + MAIN, '-I' + td, os.path.join(VERIF, 'harness', 'tests.c')] + tsrc,
                            capture_output=True).returncode == 0
        if not ok:
            chk.note('the tests of the repository do not build: not run')
        else:
            tex = dict(zip(tb, chk.map(lambda b: chk.build_harness('tests.c', b[0], b[1], cc=by[b[2]][0], flags=by[b[2]][1], tag=b[2], extra=['-I' + td] + tsrc), tb)))

            def tst(j):
                (b, t) = j
                rc, so, err, hung = chk.run([tex[b], t], timeout=60, env=env0, cwd=MAIN)
                return j, judge(rc, err, hung, '%s, %s (%s)' % (t, 'hybrid' if b[1] else 'classic', b[2]), []), so
            for (b, t), msg, so in chk.map(tst, [(b, t) for b in tb for t in TESTS]):
                chk.cov['evaluations'] += 1
                chk.count('tests of the repository')
                if msg:
                    chk.violate('test_%s_%d_%s' % (t, b[1], b[2]), msg)
        # 5. the steps of the search, one by one, on sub-problems a search reaches rarely (harness/probe.h)
        qplan = [(N, n, h, prim, c * m) for h in (0, 1) for N, n, prim, c in ((5, 5, None, 12), (8, 8, None, 24), (10, 10, None, 16), (14, 8, None, 12), (8, 8, 0, 12))]
        qb = sorted({(q[0], q[2], q[3], fl[2]) for q in qplan for fl in flavours}, key=str)

        def qbuild(b):
            try:
                return chk.build_harness('mon.c', b[0], b[1], b[2], by[b[3]][0], by[b[3]][1] + ['-DPROBE'], tag='Q' + b[3])
            except HarnessError:
                return None
        qex = dict(zip(qb, chk.map(qbuild, qb)))
        if None in qex.values():
            chk.note('the steps of the search cannot be called one by one (their interface changed)')
        jobs = []
        for k, (N, n, h, prim, c) in enumerate(qplan):
            ps = work.gen(chk, n, c, None, salt='_mq%d' % k)
            jobs += [(N, n, h, prim, fl[2], ps[i::4]) for i in range(4) for fl in flavours if ps[i::4] and qex[(N, h, prim, fl[2])]]

        def step(j):
            N, n, h, prim, fl, ps = j
            evp = '%s.%s.%d.ev' % (ps[0], fl, N)
            rc, so, err, hung = chk.run([qex[(N, h, prim, fl)], '200', ''], timeout=200, stdin='\n'.join(ps) + '\n', env=dict(env0, MON_EV=evp, MON_PROBE='12'))
            ev = open(evp, errors='replace').read() if os.path.exists(evp) else ''
            at = re.findall(r'^START (\S+)', ev, re.M)
            k = re.search(r'^COUNT probes (\d+)', ev, re.M)
            return j, judge(rc, err, hung, 'the steps of the search, %s%s, %d cities, build for %d (%s)' % ('hybrid' if h else 'classic', ' Kruskal' if prim == 0 else '', n, N, fl), ps), at, int(k.group(1)) if k else 0
        for j, msg, at, k in chk.map(step, jobs):
            chk.cov['evaluations'] += len(at)
            chk.count('sub-problems taken through every step on their own', k)
            if msg:
                chk.violate('step_%s_%s' % (j[4], os.path.basename(at[-1]) if at else j[0]), msg, at[-1:])
        # 6. valgrind sees values that reach the output uninitialised (MSan does not)
        if uninit:
            vplan = [(N, n, h, prim, c * m) for h in (0, 1) for N, n, prim, c in ((6, 6, None, 8), (8, 8, None, 8), (9, 5, None, 5), (7, 7, 0, 5))]
            vex = dict(zip(vplan, chk.map(lambda q: chk.build_solver(q[0], q[2], q[3], flags=['-O1', '-g'], tag='V%d' % q[1]), vplan)))
            jobs = [(q, p) for k, q in enumerate(vplan) for p in work.gen(chk, q[1], q[4], I.EASY + ['sparse', 'g_rand', 'g_cut', 'clu'], salt='_mv%d' % k)]

            def vg(j):
                q, p = j
                rc, so, err, hung = chk.run(['valgrind', '-q', '--error-exitcode=99', '--track-origins=no', '--leak-check=full', vex[q], p, p + '.out'], timeout=150)
                if hung:
                    chk.inconclusive += 1
                    return j, None
                if rc == 99:
                    return j, 'valgrind: ' + tail(' | '.join(re.sub(r'^==\d+== *', '', l) for l in err.split('\n')[:8]), 500)
                return j, None
            for (q, p), msg in chk.map(vg, jobs):
                chk.cov['evaluations'] += 1
                chk.count('runs under valgrind')
                if msg:
                    chk.violate('valgrind_%d_%d_%s' % (q[0], q[2], os.path.basename(p)), '%s, %d cities, build for %d: %s' % ('hybrid' if q[2] else 'classic', q[1], q[0], msg), [p])
        return chk.finish(
            'the real program, complete and incomplete instances of 21 families, both modes and spanning-tree algorithms, sizes at and below that of the build, stopped at '
            'random points for up to 256 cities; its printers; the tests of the repository: built with %s; non-trivial: more than one sub-problem, or something printed' % (
                'MSan (origins tracked) and LSan, and run under valgrind memcheck' if uninit else 'ASan and UBSan by gcc (with strict array bounds) and by clang'),
            ['runs over their time-out are inconclusive', 'read_tsp_lib_file test left out: its file is not in the repository'], len(seen))
    return go
