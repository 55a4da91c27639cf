"""Shared machinery of the checks: scratch folder, builds from /repo's working tree, running monitored workloads,
verdicts (violated / held / inconclusive), known findings, evidence."""
import atexit
import concurrent.futures
import glob
import hashlib
import json
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
HS = os.path.join(REPO, 'src', 'HybridSolver')
MAIN = os.path.join(HS, 'main')
PY = '/usr/bin/python3'
PYVT = '/opt/veriftools/pyvenv/bin/python3'
CORES = min(8, os.cpu_count() or 1)
HOOKS = ['constrained_prim', 'constrained_kruskal', 'mst_to_one_tree', 'find_candidate_node', 'bound', 'variable_fixing',
         'infer_constraints', 'branch']


def descendants(pid):
    """The processes started by this one, and by them."""
    kids = {}
    for d in os.listdir('/proc'):
        if d.isdigit():
            try:
                with open('/proc/%s/stat' % d) as f:
                    kids.setdefault(int(f.read().rsplit(')', 1)[1].split()[1]), []).append(int(d))
            except (OSError, IndexError, ValueError):
                pass
    out, todo = [], [pid]
    while todo:
        new = kids.get(todo.pop(), [])
        out += new
        todo += new
    return out


STOPPING = threading.Event()     # the answer is being given, what is under way is killed


class HarnessError(Exception):
    pass


def tail(s, k=1500):
    return s if len(s) <= k else '...' + s[-k:]


class Check:
    def __init__(self, prop, level='exploration'):
        self.prop, self.level = prop, level
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        self.seed = int(os.environ.get('VERIF_SEED', '1'))
        self.t0 = time.time()
        self.dir = tempfile.mkdtemp(prefix='verif_%s_' % prop)
        os.chmod(self.dir, 0o755)
        atexit.register(shutil.rmtree, self.dir, True)
        signal.signal(signal.SIGTERM, lambda *a: sys.exit(2))
        self.known = self._known()
        self.violations, self.known_seen, self.notes = [], [], []
        self.cov = {'evaluations': 0, 'distinct_nontrivial': 0, 'rule': '', 'samples': []}
        self.counts = {}
        self.inconclusive = 0
        self.replay_dir = os.path.join(VERIF, 'evidence', 'replay', prop)
        shutil.rmtree(self.replay_dir, True)
        self.lock = threading.Lock()
        self.pool = concurrent.futures.ThreadPoolExecutor(CORES)
        self.done = threading.Lock()
        threading.Thread(target=self._watch, daemon=True).start()

    # An answer in time: a changed program which hangs must not keep the check from saying what it saw.
    def _watch(self):
        soft, hard = self.q(240, 600), 840
        while True:
            time.sleep(1)
            spent = time.time() - self.t0
            if (self.violations and spent > soft) or spent > hard:
                break
        if not self.done.acquire(False):
            return
        STOPPING.set()
        self.pool.shutdown(False, cancel_futures=True)
        self.note('stopped after %d s: part of the workload was not run' % spent)
        try:
            rc = self._finish('see the note', (), max(len(self.cov['samples']), min(1, self.cov['evaluations'])))
        except Exception as e:
            print(e, file=sys.stderr)
            rc = 3
        sys.stdout.flush()
        for _ in range(3):
            for pid in descendants(os.getpid()):
                try:
                    os.kill(pid, signal.SIGKILL)
                except OSError:
                    pass
            time.sleep(.2)
        shutil.rmtree(self.dir, True)
        os._exit(rc)

    # quick / thorough value
    def q(self, quick, thorough):
        return thorough if self.tier == 'thorough' else quick

    def rng(self, name=''):
        return random.Random('%s|%s|%d' % (self.prop, name, self.seed))

    def _known(self):
        out = []
        with open(os.path.join(VERIF, 'known_findings.txt')) as f:
            for ln in f:
                m = re.match(r'known: property=(\S+) key=(\S+) (.*)', ln)
                if m and m.group(1) == self.prop:
                    out.append((m.group(2), m.group(3).strip()))
        return out

    def count(self, k, v=1):
        self.counts[k] = self.counts.get(k, 0) + v

    def sample(self, s, limit=6):
        if len(self.cov['samples']) < limit:
            self.cov['samples'].append(s)

    def note(self, s):
        if s not in self.notes:
            self.notes.append(s)
            print('note:', s)

    # key identifies what fails (input, call site or history); files are kept for the replay
    def violate(self, key, msg, files=(), how=''):
        if STOPPING.is_set():
            time.sleep(60)      # this process is about to end; what it kills now is not a finding
        for k, what in self.known:
            if k == key or (k.endswith('*') and key.startswith(k[:-1])):
                if (k, what) not in self.known_seen:
                    self.known_seen.append((k, what))
                return
        self.violations.append((key, msg))
        if len(self.violations) > 12:
            return
        os.makedirs(self.replay_dir, exist_ok=True)
        name = re.sub(r'[^A-Za-z0-9_.-]+', '_', key)[:80]
        p = os.path.join(self.replay_dir, '%02d_%s.txt' % (len(self.violations), name))
        kept = []
        for f in files:
            if f and os.path.isfile(f):
                d = os.path.join(self.replay_dir, '%02d_%s' % (len(self.violations), os.path.basename(f)))
                shutil.copyfile(f, d)
                kept.append(d)
        with open(p, 'w') as f:
            f.write('property %s violated\nkey: %s\n%s\nseed %d tier %s\nfiles: %s\nreplay: %s\n' % (
                self.prop, key, msg, self.seed, self.tier, ' '.join(kept) or '-',
                how or 'VERIF_SEED=%d VERIF_TIER=%s python3 /verif/run.py %s' % (self.seed, self.tier, self.prop)))
        print('VIOLATION property=%s replay=%s' % (self.prop, p))
        print('   ', msg[:600])
        sys.stdout.flush()

    def finish(self, rule, assumptions=(), distinct=None):
        if not self.done.acquire(False):
            time.sleep(60)      # the answer is being given
        return self._finish(rule, assumptions, distinct)

    def _finish(self, rule, assumptions=(), distinct=None):
        self.cov['rule'] = rule
        if distinct is not None:
            self.cov['distinct_nontrivial'] = distinct
        self.cov['observed'] = self.counts
        self.cov['inconclusive_runs'] = self.inconclusive
        self.cov['notes'] = self.notes
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': self.level, 'coverage': self.cov,
              'assumptions': list(assumptions), 'wall_s': round(time.time() - self.t0, 2), 'violations': len(self.violations)}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, sort_keys=True, default=str)
            f.write('\n')
        for k, what in self.known_seen:
            print('KNOWN-FINDING: property=%s %s' % (self.prop, what))
        print('%s %s: %d evaluations, %d distinct non-trivial, %d violation(s), %.1f s; observed %s' % (
            self.prop, self.tier, self.cov['evaluations'], self.cov['distinct_nontrivial'], len(self.violations),
            time.time() - self.t0, json.dumps(self.counts, sort_keys=True)))
        if self.violations:
            return 1
        if self.cov['evaluations'] == 0 or self.cov['distinct_nontrivial'] == 0:
            print('nothing was observed: no verdict', file=sys.stderr)
            return 3
        return 0

    # ---- builds -----------------------------------------------------------------------------------------------
    def root(self, prim=None):
        """The HybridSolver tree to build: /repo's, or (prim=0) a scratch copy with Kruskal instead of Prim."""
        if prim in (None, 1):
            return HS
        d = os.path.join(self.dir, 'kruskal_tree')
        with self.lock:
            return self._kruskal(d)

    def _kruskal(self, d):
        if not os.path.isdir(d):
            t = d + '.tmp%d' % random.randrange(10**9)
            os.makedirs(t)
            for s in ('main', 'test'):
                shutil.copytree(os.path.join(HS, s), os.path.join(t, s), ignore=shutil.ignore_patterns('graph-convnet-tsp', '__pycache__'))
            p = os.path.join(t, 'main', 'problem_settings.h')
            with open(p) as f:
                txt = f.read()
            txt, k = re.subn(r'(#define\s+PRIM\s+)\S+', r'\g<1>0', txt)
            if not k:
                raise HarnessError('no PRIM setting in problem_settings.h')
            with open(p, 'w') as f:
                f.write(txt)
            os.rename(t, d)
        return d

    @staticmethod
    def sources(root, main_c=False):
        out = []
        for d, dirs, files in os.walk(os.path.join(root, 'main')):
            dirs[:] = [x for x in dirs if not x.startswith(('graph-convnet', 'cmake-build', '__pycache__', 'build', '.')) and x != 'CMakeFiles']
            out += [os.path.join(d, f) for f in files if f.endswith('.c') and (main_c or f != 'main.c')]
        return sorted(out)

    def cc(self, args, what):
        r = subprocess.run(args, capture_output=True, text=True, timeout=300)
        if r.returncode:
            raise HarnessError('%s does not build:\n%s\n%s' % (what, ' '.join(args)[:600], tail(r.stderr, 3000)))

    def build_solver(self, n, h, prim=None, cc='clang', flags=('-O3',), tag=''):
        """The real program, as CMakeLists.txt builds it (plus flags)."""
        root = self.root(prim)
        out = os.path.join(self.dir, 'solver_%d_%d_%s%s' % (n, h, 'k' if prim == 0 else 'p', tag))
        self.cc([cc, '-std=gnu99', '-w'] + list(flags) + ['-DMAX_VERTEX_NUM=%d' % n, '-DHYBRID=%d' % h] + self.sources(root, True) +
                ['-lm', '-o', out], 'the solver')
        return out

    def build_harness(self, src, n, h, prim=None, cc='gcc', flags=('-O1',), tag='', extra=()):
        root = self.root(prim)
        out = os.path.join(self.dir, '%s_%d_%d_%s%s' % (os.path.splitext(os.path.basename(src))[0], n, h, 'k' if prim == 0 else 'p', tag))
        self.cc([cc, '-std=gnu99', '-w'] + list(flags) + ['-DMAX_VERTEX_NUM=%d' % n, '-DHYBRID=%d' % h, '-I' + os.path.join(root, 'main'),
                 os.path.join(VERIF, 'harness', src)] + list(extra) + self.sources(root) + ['-lm', '-o', out], src)
        return out

    def usable_hooks(self, wanted, n, h, root):
        """The functions that still exist with the prototype the monitor interposes; the others are not observed."""
        ok = []
        if not wanted:
            return ok
        base = ['gcc', '-std=gnu99', '-w', '-fsyntax-only', '-DMAX_VERTEX_NUM=%d' % n, '-DHYBRID=%d' % h, '-I' + os.path.join(root, 'main')]
        mon = os.path.join(VERIF, 'harness', 'mon.c')
        if subprocess.run(base + ['-DHOOK_' + k for k in wanted] + [mon], capture_output=True).returncode == 0:
            return list(wanted)
        for k in wanted:
            if subprocess.run(base + ['-DHOOK_' + k, mon], capture_output=True).returncode == 0:
                ok.append(k)
            else:
                self.note('%s cannot be observed (its interface changed)' % k)
        return ok

    def build_mon(self, n, h, hooks, prim=None, dpmax=None, probe=False):
        root = self.root(prim)
        hooks = self.usable_hooks(hooks, n, h, root)
        out = os.path.join(self.dir, 'mon_%d_%d_%s' % (n, h, 'k' if prim == 0 else 'p'))
        so = out + '.so'
        self.cc(['gcc', '-std=gnu99', '-O2', '-w', '-fPIC', '-shared', '-fno-inline', '-fsemantic-interposition', '-DMAX_VERTEX_NUM=%d' % n,
                 '-DHYBRID=%d' % h] + self.sources(root) + ['-lm', '-o', so], 'the solver (shared)')
        nm = subprocess.run(['nm', '-D', '--defined-only', so], capture_output=True, text=True).stdout
        have = {l.split()[-1] for l in nm.splitlines() if l.strip()}
        for k in [k for k in hooks if k not in have]:
            self.note('%s cannot be observed (no such function)' % k)
            hooks.remove(k)
        cmd = (['gcc', '-std=gnu99', '-O2', '-w', '-DMAX_VERTEX_NUM=%d' % n, '-DHYBRID=%d' % h, '-I' + os.path.join(root, 'main'), '-rdynamic'] +
               (['-DDPMAX=%d' % dpmax] if dpmax else []) + ['-DHOOK_' + k for k in hooks] +
               [os.path.join(VERIF, 'harness', 'mon.c'), '-o', out, so, '-ldl', '-lm', '-Wl,-rpath,$ORIGIN'])
        if probe:
            if subprocess.run(cmd + ['-DPROBE'], capture_output=True).returncode == 0:
                return out
            self.note('the steps of the search cannot be called one by one (their interface changed): only the search is observed')
        self.cc(cmd, 'the monitor')
        return out

    def map(self, f, xs):
        """f over xs on all cores; the results, in this order, as they come; the first exception is raised."""
        return self.pool.map(f, list(xs))

    # ---- monitored batches ------------------------------------------------------------------------------------
    def run_mon(self, exe, cap, tags, files, what='', limit=240, extra=(), probe=0):
        """Runs the monitor over the files, split over the cores. BAD lines become violations; a crash or a hang on an
        instance is one too (the batch goes on with the files after it)."""
        parts = [files[k::CORES] for k in range(CORES)]
        for res in self.map(lambda p: self._mon_part(exe, cap, tags, p, limit, extra, probe), [p for p in parts if p]):
            for kind, key, msg, path in res['bad']:
                self.violate(key, '%s %s' % (what, msg), [path])
            for k, v in res['counts'].items():
                self.count(k, v)
            for d in res['done']:
                yield d

    def _mon_part(self, exe, cap, tags, files, limit, extra, probe=0):
        res = {'bad': [], 'counts': {}, 'done': []}
        todo, guard = list(files), 0
        while todo and guard < 12:
            guard += 1
            rc, out, err, hung = self._mon_once(exe, cap, tags, todo, limit, extra, probe)
            last, finished, ended = None, set(), False
            for ln in out.split('\n'):
                w = ln.split(' ')
                if w[0] == 'START':
                    last = w[1]
                elif w[0] == 'BAD':
                    res['bad'].append(('bad', '%s_%s' % (w[1], os.path.basename(w[2])), ' '.join(w[1:]), w[2]))
                elif w[0] in ('DONE', 'SKIP'):
                    finished.add(w[1])
                    if w[0] == 'DONE':
                        res['done'].append(ln[5:])
                elif w[0] == 'COUNT' and w[2] != '0':
                    res['counts'][w[1]] = res['counts'].get(w[1], 0) + int(w[2])
                elif w[0] == 'END':
                    ended = True
                elif w[0] == 'NOSYM':
                    raise HarnessError('monitor: ' + ln)
            if ended and rc == 0:
                break
            if last is None:
                raise HarnessError('monitor did not start: rc %d %s' % (rc, tail(err)))
            if hung:    # once more, alone, before calling it a hang
                rc2, out2, err2, hung2 = self._mon_once(exe, cap, tags, [last], 90, extra, probe)
                if hung2:
                    res['bad'].append(('hang', 'hang_' + os.path.basename(last), 'no answer on this instance (twice)', last))
                    break
                else:
                    self.inconclusive += 1
            else:
                res['bad'].append(('crash', 'crash_' + os.path.basename(last), 'the solver died on this instance: exit %d %s' % (rc, tail(err, 300)), last))
            if last in todo:
                todo = todo[todo.index(last) + 1:]
            else:
                break
        return res

    def _mon_once(self, exe, cap, tags, files, limit, extra, probe=0):
        evp = os.path.join(self.dir, 'ev_%d_%d' % (os.getpid(), random.SystemRandom().randrange(10**12)))
        open(evp, 'w').close()
        p = subprocess.Popen([exe, str(cap), tags] + [str(x) for x in extra], stdin=subprocess.PIPE, stdout=subprocess.DEVNULL,
                             stderr=subprocess.PIPE, text=True, errors='replace', env=dict(SAN_ENV, MON_EV=evp, MON_PROBE=str(probe)))
        t0, size, moved, inp = time.time(), 0, time.time(), '\n'.join(files) + '\n'
        stall = self.q(45, 120)     # without an event: an instance takes a second
        while True:
            try:
                _, err = p.communicate(inp, timeout=3)
                hung = False
                break
            except subprocess.TimeoutExpired:
                inp, now, z = None, time.time(), os.path.getsize(evp)
                if z != size:
                    size, moved = z, now
                if now - t0 > limit or now - moved > stall:
                    p.kill()
                    _, err = p.communicate()
                    hung = True
                    break
        with open(evp) as f:
            out = f.read()
        os.unlink(evp)
        return p.returncode, out, err or '', hung

    # ---- the real program -------------------------------------------------------------------------------------
    def run(self, args, timeout=20, env=None, cwd=None, stdin=None):
        """-> (rc, stdout, stderr, hung)"""
        try:
            r = subprocess.run(args, capture_output=True, text=True, errors='replace', timeout=timeout, env=env, cwd=cwd, input=stdin,
                               stdin=None if stdin is not None else subprocess.DEVNULL)
            return r.returncode, r.stdout, r.stderr, False
        except subprocess.TimeoutExpired as e:
            return -999, (e.stdout or b'').decode('utf8', 'replace') if isinstance(e.stdout, bytes) else (e.stdout or ''), '', True


SAN_ENV = dict(os.environ, ASAN_OPTIONS='halt_on_error=1:detect_leaks=1:exitcode=99:detect_stack_use_after_return=1:abort_on_error=0',
               UBSAN_OPTIONS='halt_on_error=1:exitcode=99:print_stacktrace=1', LSAN_OPTIONS='exitcode=99',
               MSAN_OPTIONS='halt_on_error=1:exitcode=99')


def sanitizer_report(err):
    m = re.search(r'(ERROR: (?:Address|Leak|Memory)Sanitizer: ?[^\n]*|WARNING: MemorySanitizer: [^\n]*|[^\n]*runtime error: [^\n]*|==\d+==.*Sanitizer[^\n]*)', err)
    if not m:
        return None
    frames = re.findall(r'#\d+ 0x[0-9a-f]+ in (\w+)', err)
    return m.group(1).strip()[:200] + ('  in ' + ' < '.join(frames[:5]) if frames else '')


def parse_report(text):
    """The solver's report -> dict, or None when it has no solution line."""
    d = {}
    m = re.search(r'candidate node = (\d+), elapsed time = (\S+)s and interrupted = (\w+)', text)
    if m:
        d['candidate'], d['elapsed'], d['interrupted'] = int(m.group(1)), float(m.group(2)), m.group(3)
    m = re.search(r'generated BBNodes = (\d+),\s+explored BBNodes = (\d+) and max tree level = (\d+)', text)
    if m:
        d['generated'], d['explored'], d['levels'] = map(int, m.groups())
    m = re.search(r'Number of fixed edges = (-?\d+)', text)
    if m:
        d['fixed'] = int(m.group(1))
    m = re.search(r'cost = (\S+), type = (\S+), level of the BB tree = (-?\d+), prob_tour = (\S+), BBNode number = (\d+) and time to obtain = (\S+)s', text)
    if m:
        d['cost'], d['type'], d['level'], d['prob'], d['node'], d['time'] = (float(m.group(1)), m.group(2), int(m.group(3)), float(m.group(4)),
                                                                             int(m.group(5)), float(m.group(6)))
    m = re.search(r'Cycle with (\d+) edges:([^\n]*)', text)
    if m:
        d['cycle_n'] = int(m.group(1))
        d['cycle'] = [(int(a), int(b)) for a, b in re.findall(r'(\d+) <-> (\d+)', m.group(2))]
    return d if 'cost' in d and 'cycle' in d and 'interrupted' in d else None


def eps(n):
    """The optimality tolerance for a build for n cities."""
    return n ** .5 * 1.27 / 1000 * (1 + 1e-6)


def tour_problem(rep, n, W, Q, hybrid):
    """None when the reported cycle is a Hamiltonian cycle of the graph with the cost and probability it states."""
    c = rep['cycle']
    if rep['cycle_n'] != n or len(c) != n:
        return 'cycle with %d edges (%d printed) for %d cities' % (rep['cycle_n'], len(c), n)
    for a, b in c:
        if not (0 <= a < n and 0 <= b < n) or a == b or W[a][b] <= 0:
            return 'edge %d <-> %d is not in the graph' % (a, b)
    for k in range(n):
        if c[k][1] != c[(k + 1) % n][0]:
            return 'the printed edges do not chain: %d <-> %d then %d <-> %d' % (c[k] + c[(k + 1) % n])
    if len({a for a, _ in c}) != n:
        return 'a city is visited twice'
    cost = sum(W[a][b] for a, b in c)
    if abs(cost - rep["cost"]) > 2e-6 + 1e-11 * cost:
        return 'cost %r reported for a tour that costs %r' % (rep['cost'], cost)
    want = sum(Q[a][b] for a, b in c) / n if hybrid else 0.0
    if abs(want - rep['prob']) > 1e-5:
        return 'prob_tour %r reported for a tour of mean probability %r' % (rep['prob'], want)
    return None


def main(prop, fn):
    try:
        rc = fn()
    except BaseException as e:
        if STOPPING.is_set():
            time.sleep(60)
        if not isinstance(e, (HarnessError, subprocess.TimeoutExpired)):
            raise
        print('HARNESS ERROR: %s' % e, file=sys.stderr)
        rc = 3
    sys.stdout.flush()
    sys.exit(rc)
