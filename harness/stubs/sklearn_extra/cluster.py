import os
import numpy as np


class KMedoids(object):
    """Medoids by farthest-point choice: they are cities of the instance, which is all that matters here. Any order is allowed."""

    def __init__(self, n_clusters=8, metric='euclidean', method='alternate', init='heuristic', max_iter=300, random_state=None):
        self.n_clusters = n_clusters

    def fit(self, X, y=None):
        X = np.asarray(X, dtype=float)
        R = np.random.RandomState(int(os.environ.get('STUB_SEED', '7')))
        idx = [int(R.randint(len(X)))]
        d = np.linalg.norm(X - X[idx[0]], axis=1)
        while len(idx) < self.n_clusters:
            d[idx] = -1
            idx.append(int(np.argmax(d)))
            d = np.minimum(d, np.linalg.norm(X - X[idx[-1]], axis=1))
        R.shuffle(idx)
        self.medoid_indices_ = np.array(idx)
        self.cluster_centers_ = X[idx]
        self.labels_ = np.argmin(np.linalg.norm(X[:, None] - X[idx][None], axis=2), axis=1)
        return self

    def predict(self, X):
        return np.argmin(np.linalg.norm(np.asarray(X)[:, None] - self.cluster_centers_[None], axis=2), axis=1)

    def fit_predict(self, X):
        return self.fit(X).labels_
