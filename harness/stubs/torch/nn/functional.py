import torch


def softmax(t, dim=-1):
    return torch.softmax(t, dim)


def log_softmax(t, dim=-1):
    return torch.log_softmax(t, dim)


def sigmoid(t):
    return torch.sigmoid(t)


def relu(t, inplace=False):
    return torch.relu(t)


def nll_loss(y, t, weight=None):
    from torch.nn import NLLLoss
    return NLLLoss(weight)(y, t)
