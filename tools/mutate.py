#!/usr/bin/env python3
"""tools/mutate.py c|py COUNT SEED [LOG]: random mutants of the sources in a copy of /repo, run against a copy of the checks; lists those that no
check notices (to be read by a person: many are equivalent).  Works in /tmp/mut_<mode>."""
import ast
import json
import os
import random
import re
import shutil
import subprocess
import sys
import time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
H = 'src/HybridSolver/main/'
G = H + 'graph-convnet-tsp/'
ALLC = ['C02', 'C03', 'C05', 'C06', 'C07', 'C08', 'C09', 'C12', 'C10', 'C11', 'C14', 'C22']
CF = {H + 'algorithms/branch_and_bound.c': (10, ['C08', 'C12', 'C05', 'C07', 'C06', 'C09'] + ALLC), H + 'algorithms/kruskal.c': (2, ['C29', 'C15', 'C08', 'C28'] + ALLC),
      H + 'algorithms/prim.c': (1, ['C15'] + ALLC), H + 'data_structures/b_and_b_data.c': (2, ['C18', 'C09', 'C12'] + ALLC), H + 'data_structures/fibonacci_heap.c': (3, ['C16', 'C15', 'C22', 'C23', 'C08']),
      H + 'data_structures/graph.c': (2, ['C28', 'C19', 'C20', 'C22', 'C23', 'C02']), H + 'data_structures/mfset.c': (1, ['C17', 'C15', 'C22', 'C23']),
      H + 'data_structures/mst.c': (1, ['C15', 'C08', 'C22', 'C23', 'C02', 'C12']), H + 'data_structures/doubly_linked_list/list_functions.c': (2, ['C18', 'C22', 'C23', 'C06']),
      H + 'data_structures/doubly_linked_list/list_iterator.c': (1, ['C18', 'C22', 'C23', 'C06']), H + 'tsp_instance_reader.c': (2, ['C19', 'C20', 'C21', 'C22', 'C23', 'C02']),
      H + 'main.c': (1, ['C02', 'C21', 'C12', 'C13', 'C04', 'C23'])}
PF = {H + 'HybridSolver.py': (5, ['C24', 'C35']), G + 'main.py': (5, ['C25', 'C24']), G + 'utils/google_tsp_reader.py': (2, ['C30', 'C25', 'C24']), G + 'utils/graph_utils.py': (1, ['C30', 'C31']),
      G + 'utils/model_utils.py': (3, ['C34', 'C31', 'C32']), G + 'utils/beamsearch.py': (3, ['C31']), G + 'models/gcn_layers.py': (2, ['C32']), G + 'models/gcn_model.py': (1, ['C32']),
      G + 'data/split_train_val.py': (1, ['C30']), G + 'data/generate_tsp_concorde.py': (1, ['C34']), G + 'data/pyconcorde_solver.py': (2, ['C34']),
      'src/HybridSolver/results/AdjacencyMatrix/analyzer.py': (8, ['C26']), 'src/CplexSolver/Data/TSPLIB/converter_tsp_to_dat.py': (2, ['C27']), 'src/CplexSolver/TSPmtz.mod': (2, ['C33'])}
SWAPS = [(r'<=', '<'), (r'>=', '>'), (r'(?<![<=>!\-])<(?![<=])', '<='), (r'(?<![<=>!\-])>(?![>=])', '>='), (r'==', '!='), (r'!=', '=='), (r'&&', '||'), (r'\|\|', '&&'), (r'\btrue\b', 'false'),
         (r'\bfalse\b', 'true'), (r'\band\b', 'or'), (r'\bor\b', 'and'), (r'\bTrue\b', 'False'), (r'\bFalse\b', 'True'), (r' \+ 1\b', ''), (r' - 1\b', ''), (r' \+ ', ' - '), (r' - ', ' + '),
         (r' \* ', ' + '), (r'\[0\]', '[1]'), (r'\[1\]', '[0]'), (r'= 0\b', '= 1'), (r'= 1\b', '= 0'), (r'\b1\b', '2'), (r'\b0\b', '1'), (r'\bi\b', 'j'), (r'\bj\b', 'i'), (r'\bbreak\b', 'continue'),
         (r'\bin\b(?= range)', 'in'), (r'\+\+', '--'), (r'\+=', '-='), (r'\.src\b', '.dest'), (r'\.dest\b', '.src'), (r'DBL_MAX|FLT_MAX', '0'), (r'\bFORBIDDEN\b', 'MANDATORY'), (r'\bMANDATORY\b', 'FORBIDDEN'),
         (r'\bclassic\b', 'hybrid'), (r'\bhybrid\b', 'classic'), (r'\bmean\b', 'max'), (r'\[:', '[1:'), (r'\bint\(', 'float('), (r'\bmin\b', 'max'), (r'\bmax\b', 'min')]


def code_lines(path, lines):
    """Indices of the lines that are code."""
    out, block, depth = [], False, 0
    if path.endswith('.py'):
        doc = set()
        try:
            for n in ast.walk(ast.parse(''.join(lines))):
                if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant) and isinstance(n.value.value, str):
                    doc |= set(range(n.lineno - 1, n.end_lineno))
        except SyntaxError:
            pass
        return [k for k, l in enumerate(lines) if k not in doc and l.strip() and not l.strip().startswith(('#', 'import', 'from', 'def ', 'class ', 'print('))]
    for k, l in enumerate(lines):
        s = l.strip()
        if block:
            block = '*/' not in s
            continue
        if s.startswith('/*'):
            block = '*/' not in s
            continue
        before = depth
        depth += s.count('{') - s.count('}')
        if s and not s.startswith(('//', '#', '*')) and before > 0 and 'printf' not in s:
            out.append(k)
    return out


def mutants(path, text, R):
    lines = text.splitlines(True)
    L = []
    for k in code_lines(path, lines):
        l = lines[k]
        for a, b in SWAPS:
            for m in re.finditer(a, l):
                L.append((k, l[:m.start()] + b + l[m.end():]))
        s = l.strip()
        if path.endswith('.py'):
            if re.match(r'[\w.\[\]]+ *(\+|-)?= |[\w.]+\(.*\)$', s) and s.count('(') == s.count(')') and not s.endswith((',', '\\')):
                L.append((k, l[:len(l) - len(l.lstrip())] + 'pass\n'))
                L.append((k, l[:len(l) - len(l.lstrip())] + 'pass\n'))
        elif s.endswith(';') and (re.match(r'[\w\->.\[\]\s]+(\[.*\])? *([-+*/])?= |[\w]+\(.*\);$', s)) and not re.match(r'(unsigned |short |int |double |float |bool |char |struct |[A-Z]\w+ \**\w+ =|return)', s):
            L.append((k, '\n'))
            L.append((k, '\n'))
    k, new = R.choice(L)
    return k, lines[k], new, ''.join(lines[:k] + [new] + lines[k + 1:])


def main():
    mode, count, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    only = sys.argv[4] if len(sys.argv) > 4 else ''
    R = random.Random(seed)
    F = {'c': CF, 'py': PF}[mode]
    if only:
        F = {k: v for k, v in F.items() if only in k}
    D = '/tmp/mut_' + mode
    shutil.rmtree(D, True)
    os.makedirs(D)
    repo, ver = D + '/repo', D + '/verif'
    subprocess.run(['git', 'clone', '-q', '/repo', repo], check=True)
    shutil.copytree(V, ver, ignore=shutil.ignore_patterns('.git', 'seeded', 'evidence'))
    files = [f for f, (w, _) in F.items() for _ in range(w)]
    done = set()
    tally = {}
    while len(done) < count:
        f = R.choice(files)
        p = os.path.join(repo, f)
        text = open(p).read()
        k, old, new, mut = mutants(f, text, R)
        if (f, k, new) in done or mut == text:
            continue
        done.add((f, k, new))
        open(p, 'w').write(mut)
        res = 'survived'
        t0 = time.time()
        try:
            if f.endswith('.c'):
                src = subprocess.run('find %s/src/HybridSolver/main -name "*.c"' % repo, shell=True, capture_output=True, text=True).stdout.split()
                r = subprocess.run(['gcc', '-std=gnu99', '-w', '-O0', '-DMAX_VERTEX_NUM=10', '-DHYBRID=1', '-I%s/src/HybridSolver/main' % repo, *src, '-lm', '-o', D + '/exe'], capture_output=True)
                if r.returncode:
                    continue
            elif f.endswith('.py'):
                try:
                    compile(mut, f, 'exec')
                except SyntaxError:
                    continue
            seen = set()
            for c in F[f][1]:
                if c in seen:
                    continue
                seen.add(c)
                r = subprocess.run(['python3', 'run.py', c], cwd=ver, capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=repo, VERIF_SEED='1', VERIF_TIER='quick'))
                if r.returncode == 1 and 'VIOLATION' in r.stdout:
                    res = 'killed by ' + c
                    break
                if r.returncode:
                    res = 'no answer (%d) from %s: %s' % (r.returncode, c, r.stderr.strip()[-200:].replace('\n', ' | '))
                    if r.returncode != 1 and 'compil' in r.stderr:
                        break
        finally:
            open(p, 'w').write(text)
        tally[res.split()[0]] = tally.get(res.split()[0], 0) + 1
        print('%-14s %4.0f s %s:%d\n    - %s\n    + %s' % (res, time.time() - t0, f.replace(H, ''), k + 1, old.strip(), new.strip()))
        sys.stdout.flush()
    print(tally)
    shutil.rmtree(D, True)


if __name__ == '__main__':
    main()
