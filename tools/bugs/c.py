DARTS = 'mmrazor/models/algorithms/nas/darts.py'
NET = '''
import torch
import torch.nn as nn
from mmengine.model import BaseModel
from mmengine.optim import OptimWrapper, OptimWrapperDict
from mmrazor.models.algorithms.nas.darts import Darts


class Net(nn.Module):

    def __init__(self):
        super().__init__()
        self.w = nn.Parameter(torch.tensor([1.5, -.7]).double())


class Arch(nn.Module):

    def __init__(self):
        super().__init__()
        self.a = nn.Parameter(torch.tensor([.3]).double())


class Tiny(Darts):
    """loss of a batch b: sum((w * a - b)^2) + (w^4).sum() a / 10"""

    def __init__(self, lr):
        BaseModel.__init__(self)
        self.unroll, self.norm_training = True, False
        self.architecture, self.mutator = Net(), Arch()
        del self.data_preprocessor
        object.__setattr__(self, 'data_preprocessor', lambda d, t: dict(
            inputs=d, data_samples=d))
        self.runs = []

    def forward(self, inputs, data_samples=None, mode='loss'):
        self.runs.append(self.architecture.w.detach().clone())
        return dict(loss=f(self.architecture.w, self.mutator.a, inputs))


def f(w, a, b):
    return ((w * a - b)**2).sum() + (w**4).sum() * a.sum() / 10


lr = .05
net = Tiny(lr)
opt = OptimWrapperDict(
    architecture=OptimWrapper(torch.optim.SGD(
        net.architecture.parameters(), lr=lr, momentum=0., weight_decay=0.)),
    mutator=OptimWrapper(torch.optim.SGD(net.mutator.parameters(), lr=1.)))
w0 = net.architecture.w.detach().clone().requires_grad_()
a0 = net.mutator.a.detach().clone().requires_grad_()
train, val = torch.tensor(.4).double(), torch.tensor(-.2).double()
# the same, differentiated through the virtual step
g, = torch.autograd.grad(f(w0, a0, train), w0, create_graph=True)
want, = torch.autograd.grad(f(w0 - lr * g, a0, val), a0)
'''
bug('c18-back', 'C18', DARTS,
    '''        for e in [eps, -2. * eps]:
            # w+ = w + eps*dw`, w- = w - eps*dw`
            with torch.no_grad():
                for p, d in zip(self.architecture.parameters(), dw):
''', '''        for e in [eps, -eps]:
            # w+ = w + eps*dw`, w- = w - eps*dw`
            with torch.no_grad():
                for p, d in zip(self.architecture.parameters(), dw):
''', 'second order DARTS (unroll)',
    'the second difference is taken over half of the distance it is divided '
    'by: the second order term is half of what it should be', NET + '''
net.train_step((train, val), opt)
got = a0 - net.mutator.a
assert torch.allclose(got, want, rtol=1e-2), (got, want)
''')
