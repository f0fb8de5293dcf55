"""What the search loops are run with: a small supernet of real mutables and
real mutator, an estimator and an evaluator that give any result whatsoever
for a subnet (but the same whenever it is asked), files kept in memory."""
import contextlib
import copy
import os

import mmengine.fileio as fileio
import torch
from torch import nn

from mmrazor.models.mutables import OneShotMutableValue
from mmrazor.models.mutators import NasMutator
from mmrazor.registry import TASK_UTILS

KEY = 'acc'


class Quiet:

    def info(self, *a):
        pass
    debug = warning = info


class Arch(nn.Module):

    def __init__(self, spaces):
        super().__init__()
        self.weight = nn.Parameter(torch.ones(1))
        self.ms = nn.ModuleList(OneShotMutableValue(list(s)) for s in spaces)

    def choice(self):
        return tuple(m.current_choice for m in self.ms)

    def forward(self, x):
        return x


class Net(nn.Module):
    """batches: (what was chosen when a batch was evaluated)"""

    def __init__(self, spaces):
        super().__init__()
        self.architecture = Arch(spaces)
        self.mutator = NasMutator()
        self.mutator.prepare_from_supernet(self.architecture)
        self.seen = []

    def val_step(self, data):
        self.seen.append((data, self.architecture.choice()))
        return [data]

    train_step_log = None

    def train_step(self, data, optim_wrapper=None):
        self.trained.append((data, self.architecture.choice()))
        return dict()

    def sample_subnet(self):
        return self.mutator.sample_choices()

    def train(self, mode=True):
        return super().train(mode)


class Table:
    """Any number for any subnet, always the same for the same one."""

    def __init__(self, v, name, lo=0, hi=1000):
        self.v, self.name, self.lo, self.hi = v, name, lo, hi
        self.known = {}

    def __call__(self, key):
        if key not in self.known:
            self.known[key] = self.v.float(f'{self.name}{key}', self.lo,
                                           self.hi)
        return self.known[key]


@TASK_UTILS.register_module(name='VcEstimator', force=True)
class Estimator:
    """Counts what it is asked; the numbers come from a table."""
    table = None
    asked = None

    def __init__(self, **kw):
        pass

    def estimate(self, model, **kw):
        c = model.choice()
        fixed = all(m.is_fixed for m in model.ms)
        Estimator.asked.append((c, fixed))
        return {k: t(c) for k, t in Estimator.table.items()}


class Evaluator:
    """Scores exactly the data that was processed since the last time."""

    def __init__(self, v, net, loader):
        self.net, self.loader = net, loader
        self.table = Table(v, 'score', -1000)
        self.v, self.got, self.scored, self.empty = v, [], [], False

    def process(self, data_samples=None, data_batch=None):
        self.got.append(data_batch)

    def evaluate(self, n):
        c = self.net.architecture.choice()
        self.v.ensure('the whole dataset, once', self.got == list(
            self.loader) and n == len(self.loader.dataset))
        for d, at in self.net.seen:
            self.v.ensure('evaluated with the subnet it is for', at == c)
        self.v.ensure('evaluated in evaluation mode',
                      not self.net.training)
        del self.net.seen[:]
        self.got = []
        self.scored.append(c)
        if self.empty:
            return {}
        return {KEY: self.table(c), 'other': -1.}


class Loader(list):

    def __init__(self, n=2):
        super().__init__([f'batch{i}' for i in range(n)])
        self.dataset = [1, 2, 3]


class Runner:
    distributed = False
    rank = 0
    work_dir = '/vfs'
    seed = 1
    logger = Quiet()

    def __init__(self, net):
        self.model = net
        self.hooks = []
        self.train_dataloader = []

    def call_hook(self, name, **kw):
        self.hooks.append(name)


class Crash(BaseException):
    """The process ends here."""


class Files:
    """Files in memory; saving may be the last thing that happens."""

    def __init__(self):
        self.files, self.saved, self.removed = {}, [], []
        self.crash_at = None

    def dump(self, obj, path, **kw):
        self.files[path] = copy.deepcopy(obj)
        self.saved.append(path)

    def load(self, path, **kw):
        return copy.deepcopy(self.files[path])

    def save(self, obj, path, **kw):
        self.files[path] = obj

    def remove(self, path):
        del self.files[path]
        self.removed.append(path)

    @contextlib.contextmanager
    def mounted(self):
        old = (fileio.dump, fileio.load, torch.save, os.remove,
               os.path.isfile, os.path.exists)
        fileio.dump, fileio.load = self.dump, self.load
        torch.save, os.remove = self.save, self.remove

        def has(p, real=old[4]):
            return p in self.files if str(p).startswith('/vfs') else real(p)
        os.path.isfile = has
        os.path.exists = has
        try:
            yield self
        finally:
            (fileio.dump, fileio.load, torch.save, os.remove,
             os.path.isfile, os.path.exists) = old


def setup(v, spaces, tables=('flops',)):
    net = Net(spaces)
    net.trained = []
    Estimator.table = {k: Table(v, k) for k in tables}
    Estimator.asked = []
    loader = Loader()
    return net, Runner(net), loader, Evaluator(v, net, loader)
