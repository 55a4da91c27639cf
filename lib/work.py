"""Workloads shared by the checks of the solver."""
import json
import os
import re
import subprocess
import sys

import instances as I


def _write(a):
    path, n, fam, prob, seed = a
    I.write(path, n, fam, prob, seed)
    return path


def gen(chk, n, count, fams=None, probs=None, salt=''):
    """count instances of n cities, spread over the families and the kinds of predictions; every VERIF_SEED has its own."""
    fams = fams or I.DEFAULT
    probs = probs or I.PROBS
    R = chk.rng('gen%s_%d' % (salt, n))
    d = os.path.join(chk.dir, 'inst')
    os.makedirs(d, exist_ok=True)
    jobs = []
    for k in range(count):
        f, p, s = fams[k % len(fams)], R.choice(probs), R.randrange(10**9)
        jobs.append((os.path.join(d, '%d_%s_%s_%d%s.csv' % (n, f, p, s, salt)), n, f, p, s))
    if count * n * n > 60000:
        # own processes, started afresh: a fork of this one, which has threads, could hang
        parts = [json.dumps(jobs[k::8]) for k in range(8)]
        ps = [subprocess.Popen([sys.executable, '-B', os.path.abspath(__file__)], stdin=subprocess.PIPE, text=True) for _ in parts]
        for p, part in zip(ps, parts):
            p.stdin.write(part)
            p.stdin.close()
        if any([p.wait() for p in ps]):
            raise RuntimeError('the instances could not be written')
        return [j[0] for j in jobs]
    return [_write(j) for j in jobs]


def done_fields(line):
    """DONE line of the monitor -> dict"""
    d = dict(x.split('=', 1) for x in line.split(' ') if '=' in x)
    d['path'] = line.split(' ')[0]
    return d


def seed_name(path):
    return re.sub(r'\.csv$', '', os.path.basename(path))


if __name__ == '__main__':
    for j in json.load(sys.stdin):
        _write(j)
