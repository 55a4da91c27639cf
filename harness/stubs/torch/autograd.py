def Variable(t, requires_grad=False, volatile=False):
    return t
