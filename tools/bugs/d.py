R = 'mmrazor/engine/runner/'
H = 'mmrazor/engine/hooks/'

bug('c19-live', 'C19', H + 'dump_subnet_hook.py',
    '''        copied_model = copy.deepcopy(model)
        copied_model.mutator.set_choices(copied_model.mutator.sample_choices())
''', '''        # (sample only once, before copying)
        model.mutator.set_choices(model.mutator.sample_choices())
        copied_model = copy.deepcopy(model)
''', 'a subnet dumped between the choice of a subnet and its use',
    'the supernet goes on with the subnet that was dumped', '''
import os
import random
import tempfile
import torch
from torch import nn
from mmrazor.engine.hooks import DumpSubnetHook
from mmrazor.models.mutables import OneShotMutableValue
from mmrazor.models.mutators import NasMutator


class Arch(nn.Module):

    def __init__(self):
        super().__init__()
        self.m = OneShotMutableValue(list(range(1000)))


class Model(nn.Module):

    def __init__(self):
        super().__init__()
        self.architecture = Arch()
        self.mutator = NasMutator()
        self.mutator.prepare_from_supernet(self.architecture)


class Log:

    def info(self, *a):
        pass


class Runner:
    distributed = False
    epoch, max_epochs, logger = 3, 9, Log()


with tempfile.TemporaryDirectory() as path:
    r = Runner()
    r.work_dir = path
    r.model = Model()
    hook = DumpSubnetHook(1)
    hook.before_train(r)
    r.model.architecture.m.current_choice = 7
    for _ in range(3):
        hook.after_train_epoch(r)
    assert os.listdir(path) == ['subnet_epoch_4.yaml']
    assert r.model.architecture.m.current_choice == 7
''')
bug('c19-first', 'C19', [
    (R + 'subnet_val_loop.py', '''        elif hasattr(self.model, 'sample_kinds'):
''', '''        elif hasattr(self.model, 'sample_kinds'):
            choices = self.model.mutator.sample_choices()
'''), (R + 'subnet_val_loop.py', '''                    self.model.mutator.set_choices(
                        self.model.mutator.sample_choices())
''', '''                    self.model.mutator.set_choices(choices)
''')], '', '',
    'more than one random subnet in a validation',
    'one random subnet is evaluated under the names of all', '''
import torch
from torch import nn
from mmengine.evaluator import Evaluator
from mmrazor.engine.runner.subnet_val_loop import SubnetValLoop


class Log:

    def info(self, *a):
        pass
    debug = info


class Mutator:
    n = 0

    def sample_choices(self):
        self.n += 1
        return self.n

    def set_choices(self, c):
        self.c = c


class Model(nn.Module):
    sample_kinds = ['random0', 'random1']
    mutator = Mutator()

    def val_step(self, data):
        return [self.mutator.c]
    test_step = val_step


class Ev(Evaluator):

    def __init__(self):
        self.seen = []

    def process(self, data_samples, data_batch=None):
        self.seen += data_samples

    def evaluate(self, n):
        s, self.seen = self.seen, []
        return dict(seen=s)


class Data(list):
    dataset = [1]


class Runner:
    distributed, logger, model = False, Log(), Model()
    train_dataloader = [dict(inputs=[1])]
    metrics = None

    def call_hook(self, name, metrics=None, **kw):
        self.metrics = metrics or self.metrics


r = Runner()
loop = SubnetValLoop(r, Data([1]), Ev())
loop.estimator.estimate = lambda m: {}
loop.run()
m = r.metrics
assert m['random0_subnet.seen'] != m['random1_subnet.seen'], m
''')
bug('c19-begin', 'C19', R + 'darts_loop.py',
    '''                    and self._iter >= self.val_begin
''', '''                    and self._iter > self.val_begin
''', 'val_begin is a multiple of val_interval',
    'the first validation is left out', '''
import torch
from torch import nn
from mmrazor.engine import DartsIterBasedTrainLoop


class Model(nn.Module):

    def train_step(self, data, optim_wrapper=None):
        return {}


class Val:
    at = []

    def run(self):
        self.at.append(loop.iter)


class Sampler:

    def set_epoch(self, e):
        pass


class Data(list):
    sampler, dataset = Sampler(), [1]


class Runner:
    model, val_loop, optim_wrapper, seed = Model(), Val(), None, 0

    def call_hook(self, *a, **kw):
        pass


loop = DartsIterBasedTrainLoop(Runner(), Data(range(9)), Data(range(9)), 8,
                               val_begin=4, val_interval=2)
loop.run()
assert Val.at == [4, 6, 8], Val.at
''')
bug('c19-dmcp', 'C19', H + 'dmcp_subnet_hook.py',
    '''            cur_flops = target_flops * 10
            while cur_flops > target_flops * 1.05 or \\
                    cur_flops < target_flops * 0.95:
                model.set_subnet(mode='direct', arch_train=False)
                cur_flops = model.calc_current_flops()
''', '''            model.set_subnet(mode='direct', arch_train=False)
            cur_flops = model.calc_current_flops()
            while abs(cur_flops / target_flops - 1) > 0.05:
                cur_flops = model.calc_current_flops()
                model.set_subnet(mode='direct', arch_train=False)
''', 'the first subnet drawn misses the budget',
    'a subnet drawn after the one that meets the budget is saved', '''
import json
import os
import tempfile
import mmrazor.engine.hooks.dmcp_subnet_hook as hook


class Log:

    def info(self, *a):
        pass


class Model:
    target_flops, at = 10, 0
    costs = [5, 10, 20, 10, 30, 10, 40, 10, 50, 10]

    def set_subnet(self, mode, arch_train):
        if mode == 'direct':
            self.at += 1

    def calc_current_flops(self):
        return self.costs[self.at % len(self.costs)] * 1e6


class Runner:
    logger, model = Log(), Model()


r = Runner()
hook.export_fix_subnet = lambda m, **kw: (m.calc_current_flops(), None)
with tempfile.TemporaryDirectory() as r.work_dir:
    hook.DMCPSubnetHook(2).after_run(r)
    for i in (1, 2):
        with open(os.path.join(r.work_dir, 'model_sample',
                               f'subnet_{i}.json')) as f:
            assert json.load(f) == 10e6
''')
bug('c19-stop', 'C19', R + 'distill_val_loop.py',
    '''        self.runner.call_hook('before_val_epoch')
        for idx, data_batch in enumerate(self.dataloader):
            self.run_iter_teacher(idx, data_batch)
''', '''        self.runner.call_hook('before_val_epoch')
        for idx, data_batch in enumerate(self.dataloader):
            if idx < len(self.dataloader.dataset) // len(data_batch):
                self.run_iter_teacher(idx, data_batch)
''', 'a last batch that is not full',
    'the teacher is not evaluated on the last batch', '''
import torch
from torch import nn
from mmengine.evaluator import Evaluator
from mmrazor.engine import SingleTeacherDistillValLoop


class Net(nn.Module):

    def val_step(self, data):
        return list(data)


class Model(Net):

    def __init__(self):
        super().__init__()
        self.data_preprocessor, self.teacher = nn.Identity(), Net()


class Ev(Evaluator):

    def __init__(self):
        self.seen = []

    def process(self, data_samples, data_batch=None):
        self.seen += data_samples

    def evaluate(self, n):
        s, self.seen = self.seen, []
        return dict(seen=s)


class Data(list):
    dataset = [1, 2, 3, 4, 5]


class Runner:
    distributed, model = False, Model()

    def call_hook(self, name, metrics=None, **kw):
        self.metrics = metrics


def run(batches):
    seen = {}

    class R(Runner):

        def call_hook(self, name, metrics=None, **kw):
            if metrics:
                seen.update(metrics)
    SingleTeacherDistillValLoop(R(), Data(batches), Ev()).run()
    return seen


for d in ([[1, 2, 3, 4, 5]], [[1, 2], [3, 4], [5]], [[1], [2, 3, 4, 5]]):
    m = run(d)
    assert m['teacher.seen'] == m['seen'] == [1, 2, 3, 4, 5], m
''')
