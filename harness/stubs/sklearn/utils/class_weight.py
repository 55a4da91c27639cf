import numpy as np


def compute_class_weight(class_weight, classes, y):
    y = np.asarray(y)
    return np.array([len(y) / (len(classes) * float((y == c).sum())) for c in classes])
