#!/usr/bin/env python3
"""python3 /verif/run.py <property>: runs the check of one property (VERIF_TIER, VERIF_SEED)."""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path[:0] = [os.path.join(HERE, 'lib'), os.path.join(HERE, 'checks')]
import vlib  # noqa: E402


def table():
    import solver as S
    import api as A
    import memory as Y
    import pipeline as P
    T = {
        'C01': S.optimality('C01', 0),
        'C02': S.reported_tour,
        'C04': S.determinism,
        'C14': S.incomplete,
        'C36': S.history,
        'C37': S.mon_check('C37', 'DUAL', ['bound', 'constrained_prim', 'constrained_kruskal', 'mst_to_one_tree'], 1.5),
        'C03': S.optimality('C03', 1),
        'C05': S.mon_check('C05', 'BOUND', ['bound', 'find_candidate_node'], 1, probe=12),
        'C06': S.mon_check('C06', 'BRANCH,LIST', ['bound', 'branch'], 1, probe=12),
        'C38': S.mon_check('C38', 'DEDUCE', ['bound', 'variable_fixing', 'infer_constraints', 'branch'], 1, probe=12),
        'C07': S.mon_check('C07', 'FIX', ['bound', 'variable_fixing', 'infer_constraints'], 1, probe=12),
        'C08': S.mon_check('C08', 'TREE', ['constrained_prim', 'constrained_kruskal', 'mst_to_one_tree'], 1, probe=12),
        'C09': S.mon_check('C09', 'ORDER', ['bound', 'branch', 'infer_constraints'], 1, probe=12),
        'C10': S.initial('C10', 'NN'),
        'C11': S.initial('C11', 'CAND'),
        'C12': S.mon_check('C12', 'STAT', vlib.HOOKS, 1),
        'C13': S.timelimit,
        'C15': A.api('C15', ['mst'], {'mst': 3000}, large={'mst': 4}, rule='random graphs (complete, sparse, disconnected, path, star; weights with ties, negative, over many magnitudes) '
                     'given to Prim and Kruskal, compared with an independent spanning forest; non-trivial: more than two edges'),
        'C16': A.api('C16', ['heap'], {'heap': 700}, configs=((24, 0), (8, 1)), rule='sequences of insertions, decreases and extractions against an array model: random mixes, the pattern of '
                     'Prim, and sequences that thin out the trees to reach the highest degree for their size; non-trivial: drained to the end',
                     assume=['keys of the nodes in the heap are distinct, values are never raised']),
        'C17': A.api('C17', ['mfset'], {'mfset': 6000}, rule='random, chained and star-shaped merges interleaved with finds, against a labelling; non-trivial: at least two merges'),
        'C18': A.api('C18', ['list', 'splist'], {'list': 6000, 'splist': 3000}, configs=((6, 0), (12, 1)), rule='random insertions, deletions, lookups and iterations (also out of range), against an array; '
                     'non-trivial: the list grew beyond five elements'),
        'C19': A.readers('C19', 'csv'),
        'C20': A.readers('C20', 'tsp'),
        'C21': A.bad_input,
        'C22': Y.memory('C22'),
        'C23': Y.memory('C23'),
        'C24': P.hybrid_solver,
        'C25': P.gcn,
        'C26': P.analyzer,
        'C27': P.converter,
        'C30': P.nets('C30', ['reader', 'tours'], {'reader': 300, 'tours': 900}, 'random data sets (1 to 150 instances of 3 to 13 cities, every batch size, every number of neighbours) read for two epochs and split; random '
                      'tours given to the helpers; non-trivial: judged', ['PyTorch is a stand-in (harness/stubs)', 'instances of one data set differ']),
        'C31': P.nets('C31', ['beam', 'beam_sharp'], {'beam': 2000, 'beam_sharp': 2000}, 'random predictions for 3 to 7 cities (and, for the tours only, predictions of every sharpness for 5 to 100 cities), beams of width 1 to (n-1)!, both kinds of scores, against a plain beam search and all tours; non-trivial: judged',
                      ['PyTorch is a stand-in (harness/stubs), with the integer division of PyTorch 0.4', 'probabilities within a factor 1e-4 are not told apart']),
        'C32': P.nets('C32', ['forward'], {'forward': 1500}, 'networks of 1 to 3 layers with random weights, both aggregations, on random instances of 3 to 9 cities in batches of 1 to 3, against the equations in '
                      'double precision, and with renumbered cities; non-trivial: judged', ['PyTorch is a stand-in (harness/stubs)', 'trained weights are not in the repository: random ones are used']),
        'C39': P.nets('C39', ['plots'], {'plots': 800}, 'random instances, graphs, predictions and beam search tours of 4 to 10 cities in batches of 1 to 5; non-trivial: judged',
                      ['PyTorch, matplotlib and the drawing functions of networkx are stand-ins that record what is drawn', 'probabilities within 1e-4 of 1/4 are not used']),
        'C40': P.nets('C40', ['settings'], {'settings': 400}, 'random settings files, and those of the repository, read and changed; non-trivial: judged', []),
        'C33': P.cplex,
        'C35': P.faults,
        'C34': P.nets('C34', ['metrics', 'generate'], {'metrics': 900, 'generate': 60}, 'random predictions of 1 to 4 instances, some of them right, for the errors and losses; data sets of 1 to 6 instances '
                      'of 3 to 11 cities made, read back and solved; non-trivial: judged', ['PyTorch, pandas and pyconcorde are stand-ins (harness/stubs)']),
        'C28': A.api('C28', ['graph'], {'graph': 4000}, large={'graph': 4}, rule='random edge lists and city lists given to create_graph and create_euclidean_graph; non-trivial: more than one edge'),
        'C29': A.api('C29', ['sort'], {'sort': 4000}, large={'sort': 6}, rule='random graphs with distinct, tied, equal, sorted and reversed weights, sorted by the library; non-trivial: more than two edges'),
    }
    return T


def setup():
    import shutil
    missing = [t for t in ('clang', 'gcc', 'g++', 'nm') if not shutil.which(t)]
    if missing:
        print('missing tools:', missing, file=sys.stderr)
        return 1
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    return 0


if __name__ == '__main__':
    prop = sys.argv[1]
    if prop == '--setup':
        sys.exit(setup())
    vlib.main(prop, table()[prop])
