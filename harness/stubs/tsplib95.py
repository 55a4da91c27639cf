"""A stand-in for tsplib95.load(...).get_graph() on EUC_2D and EXPLICIT (LOWER_DIAG_ROW, FULL_MATRIX) files."""
import math
import networkx


class _Problem(object):
    def __init__(self, text):
        self.head, self.data, sec = {}, {}, None
        for line in text.split('\n'):
            s = line.strip()
            if s.endswith('_SECTION'):
                sec = s
                self.data[sec] = []
            elif s in ('EOF', '-1', ''):
                sec = None if s == 'EOF' else sec
            elif sec:
                self.data[sec] += [float(x) for x in s.split()]
            elif ':' in s:
                k, v = s.split(':', 1)
                self.head[k.strip()] = v.strip()

    def get_graph(self, normalize=False):
        n = int(self.head['DIMENSION'])
        g = networkx.Graph()
        g.add_nodes_from(range(1, n + 1) if self.head['EDGE_WEIGHT_TYPE'] != 'EXPLICIT' or True else ())
        if self.head['EDGE_WEIGHT_TYPE'] == 'EXPLICIT':
            v = self.data['EDGE_WEIGHT_SECTION']
            f = self.head['EDGE_WEIGHT_FORMAT']
            for i in range(n):
                for j in range(i + 1):
                    w = v[i * (i + 1) // 2 + j] if f == 'LOWER_DIAG_ROW' else v[i * n + j]
                    g.add_edge(i + 1, j + 1, weight=int(w) if w == int(w) else w)
        else:
            v = self.data['NODE_COORD_SECTION']
            P = [(v[k + 1], v[k + 2]) for k in range(0, len(v), 3)]
            for i in range(n):
                for j in range(i + 1):
                    g.add_edge(i + 1, j + 1, weight=int(math.hypot(P[i][0] - P[j][0], P[i][1] - P[j][1]) + 0.5))
        return g


def load(path):
    with open(path) as f:
        return _Problem(f.read())
