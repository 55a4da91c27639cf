import runpy
B1 = runpy.run_path('/verif/tools/seeds/solver_bugs.py')
BB, COMPLETE = B1['BB'], B1['COMPLETE']
CLOCK = {'tick.c': '''
// processor time that moves by a fixed step at every reading
#include <stdlib.h>
#include <time.h>
static long calls;
clock_t clock(void) { const char *s = getenv("TICK"); return ++calls * (s ? atol(s) : 1000); }
'''}
TICK = COMPLETE + '''
so = os.path.join(D, 'tick.so')
subprocess.run(['gcc', '-shared', '-fPIC', '-O1', '-o', so, os.path.join(HERE, 'tick.c')], check=True)


def run(n, hybrid, R, make, tick=1000):
    P, W, Q = make(R, n)
    r = solve(build_once(n, hybrid), write(P, W, Q), env={'LD_PRELOAD': so, 'TICK': str(tick)})
    if r['rc']:
        fail('exit %d' % r['rc'])
    t = r['text']
    r['said'] = [(float(a), float(b)) for a, b in re.findall(r'Updated best value: (\\S+), at time: (\\S+)', t)]
    m = re.search(r'BBNode number = (\\d+) and time to obtain = (\\S+)s', t)
    r['node'], r['time'] = int(m.group(1)), float(m.group(2))
    r['elapsed'] = float(re.search(r'elapsed time = (\\S+)s', t).group(1))
    return r


EXE = {}


def build_once(n, hybrid):
    if (n, hybrid) not in EXE:
        EXE[(n, hybrid)] = build(n, hybrid)
    return EXE[(n, hybrid)]
'''

BUGS = [
 dict(id='obtained_when_generated', property='C36', needs='a best tour found in a sub-problem that waited in the queue', files=CLOCK,
      breaks='the time to obtain the best tour is that at which its sub-problem was generated, not that at which it was explored',
      edits=[(BB, '''        currentSubProb->timeToReach = ((float) (clock() - problem->start)) / CLOCKS_PER_SEC;
        problem->exploredBBNodes++;
''', '''        if (currentSubProb->treeLevel == 1) {
            currentSubProb->timeToReach = ((float) (clock() - problem->start)) / CLOCKS_PER_SEC;
        }
        problem->exploredBBNodes++;
'''), (BB, '''        child.fatherId = currentSubProblem->id;
''', '''        child.fatherId = currentSubProblem->id;
        child.timeToReach = ((float) (clock() - problem->start)) / CLOCKS_PER_SEC;
''')],
      demo=TICK + '''
late = 0
for h in (0, 1):
    for n in (8, 9):
        for make in (points, clusters, uniform):
            for k in range(60):
                r = run(n, h, random.Random(100 * n + k), make)
                # between the start of the exploration and the announcement there are two readings of the clock and no sub-problem
                if r['said'] and r['said'][-1][1] - r['time'] > .0015:
                    fail('announced at %r s, obtained at %r s' % (r['said'][-1][1], r['time']))
                late += bool(r['said'])
print(late, 'searches with an improvement')
'''),
 dict(id='announced_in_single_precision', property='C36', needs='a tour whose cost does not fit in seven digits', files=CLOCK,
      breaks='the improvements are announced rounded to single precision, so the last one differs from the cost reported',
      edits=[(BB, '''printf("Updated best value: %f, at time: %f\\n", problem->bestValue, ((float) (clock() - problem->start)) / CLOCKS_PER_SEC);
''', '''float result[2] = {problem->bestValue, (float) (clock() - problem->start) / CLOCKS_PER_SEC};
                            printf("Updated best value: %f, at time: %f\\n", result[0], result[1]);
''')],
      demo=TICK + '''
def large(R, n):
    P, W, Q = points(R, n)
    return P, [[1234.5 * w for w in r] for r in W], Q


seen = 0
for h in (0, 1):
    for make in (points, clusters, large):
        for k in range(60):
            r = run(8, h, random.Random(k), make)
            if r['said']:
                seen += 1
                if abs(r['said'][-1][0] - r['cost']) > 2e-6:
                    fail('%r announced, %r reported' % (r['said'][-1][0], r['cost']))
print(seen, 'searches with an improvement')
'''),
 dict(id='clock_starts_with_the_search', property='C36', needs='an initial tour that stays the best one', files=CLOCK,
      breaks='the clock starts after the initial tours are built, so the time of an initial tour counts from the start of the process and may exceed the elapsed time',
      edits=[(BB, '''        problem->start = clock();
        problem->bestValue = INFINITE;
''', '''        problem->start = 0;
        problem->bestValue = INFINITE;
'''), (BB, '''        problem->bestSolution.id = 0;
        problem->bestSolution.treeLevel = 0;
''', '''        problem->start = clock();
        problem->bestSolution.id = 0;
        problem->bestSolution.treeLevel = 0;
''')],
      demo=TICK + '''
seen = 0
for h in (0, 1):
    for make in (points, clusters, uniform):
        for k in range(40):
            r = run(7, h, random.Random(k), make, 100000)
            if 'NEAREST' in r['type']:
                seen += 1
                # one reading at the start, one per greedy tour, two or more afterwards
                if r['time'] > .1 * (7 + 7 * h) + 1e-5 or r['time'] > r['elapsed']:
                    fail('initial tour obtained at %r s of %r s' % (r['time'], r['elapsed']))
                if r['elapsed'] < .1 * 9:
                    fail('elapsed time %r s' % r['elapsed'])
print(seen, 'searches that keep the initial tour')
'''),
 dict(id='number_of_the_sibling', property='C36', needs='a best tour found in the second of two children', files=CLOCK,
      breaks='both children of a sub-problem get the same number, so the number reported for the best tour may be that of the sibling',
      edits=[(BB, '''    double prob_edge = to_branch.prob;

''', '''    double prob_edge = to_branch.prob;
    const unsigned int number = problem->generatedBBNodes + 1;

'''), (BB, '''        child.id = problem->generatedBBNodes;
''', '''        child.id = number;
''')],
      demo=TICK + '''
# the root is number 1; sub-problems are generated in pairs, so the second of a pair has an odd number
even = odd = 0
for h in (0, 1):
    for n in (8, 9):
        for make in (points, clusters, uniform):
            for k in range(80):
                r = run(n, h, random.Random(100 * n + k), make)
                if r['said'] and r['node'] > 1:
                    even += r['node'] % 2 == 0
                    odd += r['node'] % 2
print(even, odd)
if even and not odd:
    fail('%d best tours of first children, none of a second one' % even)
'''),
]
