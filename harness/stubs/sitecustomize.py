"""Put first on PYTHONPATH by the checks: fills in what was removed from today's libraries, and, with STUB_NET=1, replaces the
network (whose trained weights are not in the repository) by a recorder that gives edges probabilities of the check's choosing."""
import os
import sys
import types

if os.environ.get('STUB_NX') == '1':
    import networkx
    import numpy
    if not hasattr(networkx, 'to_numpy_matrix'):
        networkx.to_numpy_matrix = lambda g, **k: numpy.asmatrix(networkx.to_numpy_array(g, **k))

if os.environ.get('STUB_NET') == '1':
    import numpy as np
    import stubnet

    class ResidualGatedGCNModel(object):
        def __init__(self, config, dtypeFloat, dtypeLong):
            self.config, self.training, self.weights = config, True, ''

        def eval(self):
            self.training = False
            return self

        def train(self, mode=True):
            self.training = mode
            return self

        def cuda(self, *a):
            return self

        def load_state_dict(self, d, strict=True):
            self.weights = d['path']

        def parameters(self):
            return []

        def __call__(self, *a):
            return self.forward(*a)

        def forward(self, x_edges, x_edges_values, x_nodes, x_nodes_coord, y_edges, edge_cw):
            import torch
            rec = [np.array(t._a) for t in (x_edges, x_edges_values, x_nodes, x_nodes_coord, y_edges)]
            logits = stubnet.logits(rec[1].shape[1])
            path = os.environ.get('STUB_LOG')
            if path:
                np.savez(path, edges=rec[0], values=rec[1], nodes=rec[2], coord=rec[3], target=rec[4], logits=logits, training=self.training, weights=self.weights,
                         num_nodes=self.config.num_nodes)
            return torch.Tensor(logits[None]), torch.Tensor([0.0])

    m = types.ModuleType('models')
    m.__path__ = []
    g = types.ModuleType('models.gcn_model')
    g.ResidualGatedGCNModel = ResidualGatedGCNModel
    m.gcn_model = g
    sys.modules['models'], sys.modules['models.gcn_model'] = m, g
