"""C19: the loops and hooks around a search feed, evaluate, calibrate and save
what they say."""
import copy
import json
import os
import shutil
import tempfile

import torch
import torch.nn as nn
from mmengine.evaluator import Evaluator as BaseEvaluator
from mmengine.fileio import load
from mmengine.model import BaseModel
from mmengine.registry import MODEL_WRAPPERS

from contracts.search_stubs import Net as Searched
from contracts.search_stubs import Quiet
from mmrazor.engine import (DartsEpochBasedTrainLoop, DartsIterBasedTrainLoop,
                            SlimmableValLoop)
from mmrazor.engine.hooks import (DMCPSubnetHook, DumpSubnetHook,
                                  EstimateResourcesHook, StopDistillHook)
from mmrazor.engine.runner.darts_loop import EpochMultiLoader, IterMultiLoader
from mmrazor.engine.runner.distill_val_loop import (SelfDistillValLoop,
                                                    SingleTeacherDistillValLoop)
from mmrazor.engine.runner.iteprune_val_loop import ItePruneValLoop
from mmrazor.engine.runner.subnet_val_loop import SubnetValLoop
from mmrazor.engine.runner.utils import CalibrateBNMixin
from mmrazor.engine.runner.utils import calibrate_bn_mixin as calibrate_module
from mmrazor.engine.runner.utils.calibrate_bn_mixin import AverageMeter
from mmrazor.models.architectures.dynamic_ops import (DynamicBatchNorm1d,
                                                      DynamicBatchNorm2d,
                                                      DynamicBatchNorm3d,
                                                      DynamicChannelMixin)
from mmrazor.models.mutables import SimpleMutableChannel
from mmrazor.models.mutators import ChannelMutator
from mmrazor.structures import load_fix_subnet
from pyvc.harness import contract

RUN = 'mmrazor/engine/runner/'
DL = RUN + 'darts_loop.py'
CB = RUN + 'utils/calibrate_bn_mixin.py'
HOOK = 'mmrazor/engine/hooks/'
N = 2**30


# ------------------------------------------------------------------ loaders
class Loader:
    """A loader of n batches; each pass over it makes a new iterator."""

    def __init__(self, name, n, log, with_epoch=True, passes=0):
        self.name, self.n, self.log, self.passes = name, n, log, passes
        self.dataset = [1, 2, 3]
        self.sampler = Sampler(name, log) if with_epoch else object()

    def __iter__(self):
        self.passes += 1
        self.log.append(('pass', self.name))
        return Pass(self, self.passes, 0)

    def __len__(self):
        return self.n


class Sampler:

    def __init__(self, name, log):
        self.name, self.log = name, log

    def set_epoch(self, epoch):
        self.log.append(('epoch', self.name, epoch))


class Pass:

    def __init__(self, loader, number, at):
        self.loader, self.number, self.at = loader, number, at

    def __iter__(self):
        return self

    def __next__(self):
        if self.at >= self.loader.n:
            raise StopIteration
        self.at = self.at + 1
        return (self.loader.name, self.number, self.at - 1)


def anywhere(v, cls, log, with_epoch=True):
    """(the multi loader somewhere in its passes, loaders, positions)"""
    k = v.small('loaders', 1, 3)
    ls = [Loader(f'l{i}', v.int(f'n{i}', 1, N, chi=4), log,
                 with_epoch if i else True) for i in range(k)]
    m = cls(ls if k > 1 or v.flag('a list') or cls is EpochMultiLoader
            else ls[0])
    v.ensure('one pass over each', log == [('pass', x.name) for x in ls])
    v.ensure('as many loaders', m.num_loaders == k)
    v.ensure('the shortest counts', all(
        len(m) <= x.n for x in ls) and any(len(m) == x.n for x in ls))
    del log[:]
    at = []
    for i, p in enumerate(m.iter_loaders):
        a = p.loader.n - v.int(f'left of {i}', 0, N, chi=4)
        v.assume(a >= 0)
        p.at = a
        at.append(a)
    return m, ls, at


@contract('C19', targets=[DL], samples=300, bound='up to 3 loaders')
def batches_of_an_epoch(v):
    """One batch of each loader, the next one each; none once one ends."""
    log = []
    m, ls, at = anywhere(v, EpochMultiLoader, log)
    v.ensure('iterates itself', iter(m) is m)
    if all(a < x.n for a, x in zip(at, ls)):
        got = next(m)
        v.ensure('the next of each', len(got) == len(ls) and all(
            g[0] == x.name and g[1] == 1 and g[2] == a
            for g, x, a in zip(got, ls, at)))
    else:
        v.ensure('ends', v.raises(next, m, exc=StopIteration))
    v.ensure('no other pass', log == [])


@contract('C19', targets=[DL], samples=400, bound='up to 3 loaders')
def batches_of_iterations(v):
    """The same, but all loaders start over, in a new epoch, once one ends."""
    log = []
    own = v.flag('samplers know epochs')
    m, ls, at = anywhere(v, IterMultiLoader, log, own)
    m._epoch = e = v.int('epoch', 0, N, chi=9)
    for again in range(2):
        got = next(m)
        if all(a < x.n for a, x in zip(at, ls)):
            v.ensure('the next of each', len(got) == len(ls) and all(
                g[0] == x.name and g[1] == x.passes and g[2] == a
                for g, x, a in zip(got, ls, at)))
            v.ensure('no other pass', log == [])
            v.ensure('same epoch', m.epoch == e)
        else:
            at = [0] * len(ls)
            v.ensure('the first of each of a new pass', len(got) == len(
                ls) and all(g[0] == x.name and g[1] == x.passes and g[2] == 0
                            for g, x in zip(got, ls)))
            v.ensure('next epoch', m.epoch == e + 1)
            e = e + 1
            told = [x for x in log if x[0] == 'epoch']
            want = ls if own else ls[:1]
            v.ensure('samplers are told before they are asked', log[
                :len(told)] == told and len(told) == len(want) and all(
                    t[1] == x.name and t[2] == e
                    for t, x in zip(told, want)))
            v.ensure('one more pass', log[len(told):] == [
                ('pass', x.name) for x in ls])
        del log[:]
        at = [a + 1 for a in at]


class Model(nn.Module):

    def __init__(self, log):
        super().__init__()
        self.log = log

    def train_step(self, data, optim_wrapper=None):
        self.log.append(('train', data, self.training))
        return dict()

    def val_step(self, data):
        self.log.append(('val', data, self.training))
        return ['out of', data]


class Runner:
    distributed = False
    seed = 5
    optim_wrapper = 'optims'
    val_loop = None

    def __init__(self, model, log):
        self.model, self.log = model, log
        self.logger = Quiet()

    def call_hook(self, name, **kw):
        self.log.append((name, kw) if 'metrics' in kw else (name, ))

    def build_dataloader(self, cfg, seed=None):
        self.log.append(('build', cfg['name'], seed))
        return cfg['loader']


class Val:

    def __init__(self, log, model):
        self.log, self.model = log, model

    def run(self):
        self.model.eval()
        self.log.append(('validates', ))


def two(v, log, concrete=False):
    n, m = (v.small('n', 1, 4), v.small('m', 1, 4)) if concrete else (
        v.int('n', 1, N, chi=4), v.int('m', 1, N, chi=4))
    a, b = Loader('weights', n, log), Loader('arch', m, log)
    return a, b, dict(name='arch', loader=b) if v.flag('from a config') else b


@contract('C19', targets=[DL], kind='bounded', samples=200)
def darts_epochs(v):
    """Every epoch takes new passes over both loaders and trains with pairs
    of their batches until the shorter ends."""
    log = []
    model = Model(log)
    a, b, cfg = two(v, log, True)
    loop = DartsEpochBasedTrainLoop(Runner(model, log), a, cfg, 3)
    steps = 0
    for e in range(3):
        del log[:]
        model.eval()
        loop.run_epoch()
        k = min(a.n, b.n)
        log[:] = [x for x in log if x[0] != 'epoch']
        v.ensure('hooks around', log[0] == ('before_train_epoch', ) and
                 log[-1] == ('after_train_epoch', ))
        v.ensure('new passes', [x for x in log if x[0] == 'pass'] == [
            ('pass', 'weights'), ('pass', 'arch')])
        v.ensure('pairs, in order', [x for x in log if x[0] == 'train'] == [
            ('train', (('weights', e + 1, i), ('arch', e + 1, i)), True)
            for i in range(k)])
        steps += k
        v.ensure('counted', loop.epoch == e + 1 and loop.iter == steps)


@contract('C19', targets=[DL], samples=200,
          bound='up to 4 iterations left, one pass of each loader')
def darts_iterations(v):
    """Pairs of batches until the last iteration; validation at the multiples
    of its interval from its beginning on, training mode again afterwards."""
    log = []
    model = Model(log)
    a, b, cfg = two(v, log)
    end, begin = v.int('end', 4, N, chi=9), v.int('begin', 0, N, chi=9)
    every = v.int('every', 1, N, chi=4)
    runner = Runner(model, log)
    loop = DartsIterBasedTrainLoop(runner, a, cfg, 9, begin, every)
    loop._max_iters = end  # (given to int() by mmengine)
    left = v.small('left', 0, 4)
    v.assume(v.all_of(left <= a.n, left <= b.n))
    loop._iter = end - left
    if v.flag('validates'):
        runner.val_loop = Val(log, model)
    del log[:]
    loop.run()
    want = [('before_train', ), ('before_train_epoch', )]
    k = 2 if a.passes == 2 else 1
    for i in range(left):
        want += [('before_train_iter', ), ('train', (
            ('weights', a.passes, i), ('arch', b.passes, i)), True),
            ('after_train_iter', )]
        now = end - left + i + 1
        if runner.val_loop is not None and (v.all_of(
                now >= begin, now % every == 0)):
            want.append(('validates', ))
    want += [('after_train_epoch', ), ('after_train', )]
    v.ensure('the steps', len(log) == len(want) and all(
        x == y for x, y in zip(log, want)), f'{log} {want}')
    v.ensure('at the end', loop.iter == end)


# ------------------------------------------------------------ validation
class Scores(BaseEvaluator):
    """Gives what it was shown, and to whom, since it was last asked."""

    def __init__(self, log):
        self.log, self.seen, self.asked = log, [], 0

    def process(self, data_samples, data_batch=None):
        self.seen.append((data_samples, data_batch))

    def evaluate(self, size):
        seen, self.seen = self.seen, []
        self.asked += 1
        return dict(acc=(seen, size), loss=-self.asked)


class Student(Model):
    """Also records what was chosen when it was asked."""

    def __init__(self, log, spaces=((1, 2, 3), (4, 5))):
        super().__init__(log)
        net = Searched(spaces)
        self.architecture, self.mutator = net.architecture, net.mutator

    def val_step(self, data):
        super().val_step(data)
        return ['out of', data, self.architecture.choice(), self.training]

    def test_step(self, data):
        self.log.append(('calibrates', data, self.training,
                         self.architecture.choice()))


def shown(n, chosen, passes):
    """What an evaluator is to be shown in a pass."""
    return [(['out of', ('val', passes, i), chosen, False],
             ('val', passes, i)) for i in range(n)]


def around(v, log, metrics, n, rounds=1, again=True):
    """The hooks of a validation of so many rounds of n batches."""
    one = [('before_val_iter', ), ('after_val_iter', )] * n
    want = [('before_val', )] + [('before_val_epoch', )] * (not again)
    for i in range(rounds):
        want += [('before_val_epoch', )] * again + one
    want += [('after_val_epoch', dict(metrics=metrics)), ('after_val', )]
    v.ensure('hooks', [x for x in log if 'before' in x[0] or 'after' in x[0]
                       ] == want, f'{log} {want}')


def metrics_of(log):
    return [x[1]['metrics'] for x in log
            if x[0] == 'after_val_epoch' and len(x) == 2][0]


class Estimator:

    def __init__(self, model):
        self.model = model

    def estimate(self, model):
        assert model is self.model
        return dict(flops=sum(model.architecture.choice()))


def val_runner(v, make=Student):
    log = []
    model = make(log)
    wrapped = v.flag('wrapped')
    runner = Runner(model, log)
    if wrapped:
        runner.model, runner.distributed = Wrapped(model), True
    n = v.small('batches', 0, 3)
    data = Loader('val', n, log)
    data.dataset = list(range(v.small('samples', 1, 9)))
    scores = Scores(log)
    runner.model.train()
    return log, model, runner, data, scores, n


class Wrapped(nn.Module):

    def __init__(self, module):
        super().__init__()
        self.module = module

    def val_step(self, data):
        return self.module.val_step(data)

    def test_step(self, data):
        return self.module.test_step(data)


@contract('C19', targets=[RUN + 'subnet_val_loop.py', CB], kind='bounded',
          samples=300)
def one_of_each_kind(v):
    """The validation of a once-for-all net: each kind of subnet is chosen,
    calibrated, and evaluated as such, under its own name."""
    log, model, runner, data, scores, n = val_runner(v)
    fixed = v.flag('fixed')
    kinds = [k for k in ('max', 'random0', 'min', 'random1', 'other')
             if v.flag(k)]
    if v.flag('upside down'):
        kinds = kinds[::-1]
    if v.flag('kinds known'):
        model.sample_kinds = kinds
    else:
        kinds = []
    drawn = []
    draw = model.mutator.sample_choices

    def sample_choices(*a, **kw):
        drawn.append(draw(*a, **kw))
        return drawn[-1]
    model.mutator.sample_choices = sample_choices
    sizes = [v.small('train size', 1, 4) for _ in range(3)]
    runner.train_dataloader = [
        dict(inputs=[(i, j) for j in range(k)]) for i, k in enumerate(sizes)]
    num = v.small('to calibrate', 1, 12)
    loop = SubnetValLoop(runner, data, scores, evaluate_fixed_subnet=fixed,
                         calibrate_sample_num=num,
                         estimator_cfg=dict(type='mmrazor.ResourceEstimator'))
    loop.estimator = Estimator(model)
    model.mutator.set_choices(model.mutator.sample_choices())
    before = model.architecture.choice()
    del drawn[:]
    loop.run()
    names, chosen = [], []
    if fixed:
        names, chosen = ['fix_subnet'], [before]
    else:
        left = list(drawn)
        for k in kinds:
            if k == 'other':
                continue
            names.append(k + '_subnet')
            if k == 'max':
                chosen.append((3, 5))
            elif k == 'min':
                chosen.append((1, 4))
            else:
                v.ensure('a draw for each random one', bool(left))
                d = left.pop(0)
                model.mutator.set_choices(d)
                chosen.append(model.architecture.choice())
        v.ensure('no other draws', not left)
    want = {}
    for i, (name, c) in enumerate(zip(names, chosen)):
        want[name + '.acc'] = (shown(n, c, i + 1), len(data.dataset))
        want[name + '.loss'] = -i - 1
        want[name + '.flops'] = sum(c)
    got = metrics_of(log)
    v.ensure('the metrics of each', got == want, f'{got} {want}')
    per = sum(1 for i in range(3) if sum(sizes[:i]) < num)
    asked = [x for x in log if x[0] == 'calibrates']
    v.ensure('calibrated as chosen', [x[3] for x in asked] == [
        c for c in chosen for _ in range(per)] and all(x[2] for x in asked))
    all_of = [(i, j) for i, k in enumerate(sizes) for j in range(k)][:num]
    one = [s for x in asked[:per] for s in x[1]['inputs']]
    v.ensure('with so many samples', not chosen or one == all_of)
    around(v, log, want, n, len(names), False)


@contract('C19', targets=[RUN + 'slimmable_val_loop.py'], kind='bounded',
          samples=200)
def each_width(v):
    """The validation of a slimmable net: each of its subnets, in order."""
    log, model, runner, data, scores, n = val_runner(v)
    subnets = []
    for i in range(v.small('subnets', 1, 4)):
        subnets.append(model.mutator.sample_choices())
    model.mutator.subnets = subnets
    loop = SlimmableValLoop(runner, data, scores)
    loop.run()
    want = {}
    for i, s in enumerate(subnets):
        model.mutator.set_choices(s)
        c = model.architecture.choice()
        want[f'subnet_{i}.acc'] = (shown(n, c, i + 1), len(data.dataset))
        want[f'subnet_{i}.loss'] = -i - 1
    got = metrics_of(log)
    v.ensure('the metrics of each', got == want, f'{got} {want}')
    around(v, log, want, n, len(subnets))


class Taught(Model):

    def __init__(self, log):
        super().__init__(log)
        self.data_preprocessor = nn.Identity()
        self.teacher = Teacher(log)

    def val_step(self, data):
        return ['student', data, self.training]


class Teacher(Model):

    def val_step(self, data):
        return ['teacher', data, self.training]


@contract('C19', targets=[RUN + 'distill_val_loop.py'], kind='bounded',
          samples=200)
def student_and_teacher(v):
    """The student's metrics keep their names, the teacher's, of the same
    batches, come under 'teacher.'; self-distillation has a student only."""
    alone = v.flag('self')
    log, model, runner, data, scores, n = val_runner(v, Taught)
    cls = SelfDistillValLoop if alone else SingleTeacherDistillValLoop
    loop = cls(runner, data, scores)
    if not alone:
        v.ensure('preprocessed alike', loop.teacher is model.teacher and
                 model.teacher.data_preprocessor is model.data_preprocessor)
    loop.run()

    def of(who, p):
        return [([who, ('val', p, i), False], ('val', p, i))
                for i in range(n)], len(data.dataset)
    if alone:
        want = {'student.acc': of('student', 1), 'student.loss': -1}
    else:
        want = {'acc': of('student', 1), 'loss': -1,
                'teacher.acc': of('teacher', 2), 'teacher.loss': -2}
    got = metrics_of(log)
    v.ensure('the metrics of each', got == want, f'{got} {want}')
    around(v, log, want, n, 1 if alone else 2)
    v.ensure('told what came out', alone or len(scores.seen) == 0)


# ----------------------------------------------------------- calibration
class Samples:
    """n samples, the first of them at `at`."""

    def __init__(self, n, name):
        self.n, self.name = n, name

    def __len__(self):
        return self.n

    def __getitem__(self, key):
        assert key.start is None and key.step is None
        if key.stop >= self.n:
            return Samples(self.n, self.name)
        return Samples(key.stop, self.name)


class Calibrates(CalibrateBNMixin):

    def __init__(self, model):
        self.runner = Runner(model, [])


class Given(Model):

    def test_step(self, data):
        self.log.append((data, self.training))


@contract('C19', targets=[CB], samples=300, bound='up to 4 batches')
def so_many_samples(v):
    """Calibration takes the first samples, exactly as many as asked for (or
    all there are), no batch more than it needs, in training mode."""
    log, taken = [], []
    model = Given(log)
    model.eval()
    k = v.small('batches', 0, 4)
    sizes = [v.int(f'n{i}', 1, N, chi=4) for i in range(k)]
    num = v.int('asked for', 1, N, chi=12)

    def loader():
        for i, n in enumerate(sizes):
            taken.append(i)
            yield dict(inputs=Samples(n, (i, 'x')),
                       data_samples=Samples(n, (i, 'y')))
    Calibrates(model).calibrate_bn_statistics(loader(), num)
    used = 0
    for i, n in enumerate(sizes):
        if used >= num:
            v.ensure('no batch more', len(log) == i and taken == list(
                range(i)))
            break
        here = n if used + n <= num else num - used
        v.ensure('batch given', len(log) > i)
        data, training = log[i]
        v.ensure('in training mode', training)
        v.ensure('the first samples of it', v.all_of(
            data['inputs'].n == here, data['data_samples'].n == here) and
            data['inputs'].name == (i, 'x') and data[
                'data_samples'].name == (i, 'y') and len(data) == 2)
        used = used + here
    v.ensure('batches given', len(log) <= k)


class Ranks:
    """torch.distributed among ranks with these values"""

    class ReduceOp:
        SUM = 'sum'

    def __init__(self, others):
        self.others = others

    def is_initialized(self):
        return True
    is_available = is_initialized

    def all_reduce(self, t, op, async_op=False):
        assert op == 'sum' and not async_op
        for o in self.others.pop(0):
            t += o


@contract('C19', targets=[CB], samples=100)
def averaged(v):
    """Whatever was averaged before, a batch counts by its size."""
    m = AverageMeter()
    v.ensure('nothing yet', m.count == 0 and m.sum == 0)
    if v.flag('some before'):
        m.sum = v.float('sum', -2000, 2000)
        m.count = v.int('count', 1, N, chi=99)
    old, n = m.sum, m.count
    x, k = v.float('mean', -2000, 2000), v.int('size', 1, N, chi=99)
    m.update(x, k)
    v.ensure('samples', m.count == n + k)
    v.ensure('sum', abs(m.sum - (old + x * k)) <= 1e-3)
    v.ensure('average', abs(
        m.avg * (n + k) - (old + x * k)) <= 1e-3)


@contract('C19', targets=[CB], kind='bounded', samples=100)
def averaged_over_ranks(v):
    """The same of batches of all ranks, which are of one size."""
    real = calibrate_module.dist
    m = AverageMeter()
    total, count = torch.zeros(3, dtype=torch.float64), 0
    w = v.small('ranks', 1, 4)
    try:
        for i in range(v.small('batches', 1, 4)):
            k = v.small('size', 1, 9)
            x = torch.tensor([[v.float('mean', -9, 9) for _ in range(3)]
                              for _ in range(w)], dtype=torch.float64)
            calibrate_module.dist = Ranks([list(x[1:]), [k] * (w - 1)])
            m.update(x[0].clone(), k)
            total, count = total + k * x.sum(0), count + w * k
            v.ensure('over all samples', m.count == count and torch.allclose(
                m.avg, total / count))
    finally:
        calibrate_module.dist = real


class Normed(nn.Module):

    def __init__(self, norms, shapes):
        super().__init__()
        self.norms, self.shapes = nn.ModuleList(norms), shapes
        self.skip, self.fed = set(), []

    def test_step(self, data):
        x = data['inputs'] if isinstance(data, dict) else data
        assert self.training
        for i, (m, s) in enumerate(zip(self.norms, self.shapes)):
            if i in self.skip:
                continue
            y = x[:, :s[0] * s[1]].reshape(len(x), s[0], *s[2:])
            if isinstance(m, (DynamicBatchNorm1d, DynamicBatchNorm2d,
                              DynamicBatchNorm3d)):
                y = y[:, m._get_num_features_mask()]
            self.fed.append((i, y))
            m(y)


@contract('C19', targets=[CB], kind='bounded', samples=200)
def calibrated_statistics(v):
    """Of each batch norm reached: the averages, over the samples, of the
    batches' means and unbiased variances, in the channels it was fed with;
    nothing else of the model changes."""
    norms, shapes = [], []
    for i in range(v.small('norms', 1, 3)):
        d, c = v.small('dims', 1, 3), v.small('channels', 1, 4)
        dyn = v.flag('dynamic')
        if d == 1:
            s = v.choose('shape', [(c, 1), (c, 3, 3)])
        elif d == 2:
            s = (c, 6, 2, 3)
        else:
            s = (c, 12, 2, 3, 2)
        cls = {1: nn.BatchNorm1d, 2: nn.BatchNorm2d, 3: nn.BatchNorm3d}[d]
        if dyn:
            cls = {1: DynamicBatchNorm1d, 2: DynamicBatchNorm2d,
                   3: DynamicBatchNorm3d}[d]
        m = cls(c)
        nn.init.uniform_(m.running_mean, -9, 9)
        nn.init.uniform_(m.running_var, 1, 9)
        nn.init.uniform_(m.weight)
        if dyn and v.flag('mutable'):
            mutable = SimpleMutableChannel(c)
            mask = [v.flag(f'ch{j}') for j in range(c)]
            mask[v.small('kept', 0, c - 1)] = True
            mutable.current_choice = torch.tensor(mask)
            m.register_mutable_attr('num_features', mutable)
        norms.append(m)
        shapes.append(s)
    model = Normed(norms, shapes)
    if len(norms) > 1 and v.flag('one is not reached'):
        model.skip = {v.small('skipped', 0, len(norms) - 1)}
    batches = []
    as_dict = v.flag('dicts')
    for i in range(v.small('batches', 1, 3)):
        # (a batch of one sample has no variance where it has one value)
        x = torch.randn(v.small('size', 2, 5), 48) * 3 + 2
        batches.append(dict(inputs=x) if as_dict else x)
    old = copy.deepcopy(model)
    num = 99
    Calibrates(model).calibrate_bn_statistics(batches, num)
    for i, (m, o, s) in enumerate(zip(model.norms, old.norms, shapes)):
        fed = [y for j, y in model.fed if j == i]
        v.ensure('fed', len(fed) == (0 if i in model.skip else len(batches)))
        mean, var = o.running_mean.clone(), o.running_var.clone()
        if fed:
            chosen = torch.ones(s[0], dtype=torch.bool)
            if hasattr(m, '_get_num_features_mask'):
                chosen = m._get_num_features_mask()
            total = sum(len(y) for y in fed)
            flat = [y.transpose(0, 1).reshape(y.shape[1], -1) for y in fed]
            mean[chosen] = sum(f.mean(1) * len(y) for f, y in zip(
                flat, fed)) / total
            var[chosen] = sum(f.var(1) * len(y) for f, y in zip(
                flat, fed)) / total
        v.ensure('averages of the batches', torch.allclose(
            m.running_mean, mean, atol=1e-4) and torch.allclose(
                m.running_var, var, atol=1e-4, rtol=1e-4),
            f'{m} {m.running_mean} {mean} {m.running_var} {var}')
        v.ensure('weights unchanged', torch.equal(m.weight, o.weight) and
                 torch.equal(m.bias, o.bias))
        v.ensure('no hook left', not m._forward_hooks)


# ------------------------------------------------------------------ hooks
@MODEL_WRAPPERS.register_module(name='C19Parallel', force=True)
class Parallel(nn.Module):

    def __init__(self, module):
        super().__init__()
        self.module = module


class Stops(nn.Module):
    distillation_stopped = False


@contract('C19', targets=[HOOK + 'stop_distillation_hook.py'], samples=100)
def stops(v):
    """Distillation goes on up to, and stops for good from the epoch given."""
    model, log = Stops(), []
    runner = Runner(model, log)
    if v.flag('wrapped'):
        runner.model = Parallel(model)
    runner.epoch, at = v.int('epoch', 0, N, chi=9), v.int('at', 0, N, chi=9)
    hook = StopDistillHook(at)
    was = model.distillation_stopped = v.flag('stopped before')
    hook.before_train_epoch(runner)
    v.ensure('stopped from there on', bool(model.distillation_stopped) == (
        bool(runner.epoch >= at) or was))


class Timed:
    distributed = False

    def __init__(self, v):
        self.logger = Quiet()
        self.epoch = v.int('epoch', 0, N, chi=9)
        self.max_epochs = v.int('epochs', 1, N, chi=9)
        self.iter = v.int('iter', 0, N, chi=9)
        self.max_iters = v.int('iters', 1, N, chi=9)


class Dumps(DumpSubnetHook):
    saved = 0

    def _save_subnet(self, runner):
        self.saved += 1


class Estimates(EstimateResourcesHook):
    saved = 0

    def estimate_resources(self, runner):
        self.saved += 1


@contract('C19', targets=[HOOK + 'dump_subnet_hook.py'], samples=400)
def dump_times(v):
    """After every so many epochs, or iterations, never both, and at the
    last unless told not to."""
    runner = Timed(v)
    every = v.int('every', -1, N, chi=4)
    by_epoch, last = v.flag('by epoch'), v.flag('save last')
    kw = {} if last and v.flag('as default') else dict(save_last=last)
    hook = Dumps(every, by_epoch=by_epoch, **kw)
    in_epoch = v.flag('an epoch ends')
    if in_epoch:
        hook.after_train_epoch(runner)
        now, end = runner.epoch + 1, runner.max_epochs
    else:
        hook.after_train_iter(runner, 0)
        now, end = runner.iter + 1, runner.max_iters
    due = False
    if in_epoch == by_epoch:
        due = bool(v.all_of(last, now == end))
        if every > 0:
            due = due or bool(now % every == 0)
    v.ensure('when it is due', hook.saved == int(due))


@contract('C19', targets=[HOOK + 'estimate_resources_hook.py'], samples=400)
def estimate_times(v):
    """The same of estimates, in validation, with no exception for the
    last."""
    runner = Timed(v)
    every = v.int('every', -1, N, chi=4)
    by_epoch = v.flag('by epoch')
    hook = Estimates(every, by_epoch=by_epoch)
    in_epoch = v.flag('an epoch ends')
    if in_epoch:
        hook.after_val_epoch(runner)
        now = runner.epoch + 1
    else:
        hook.after_val_iter(runner, 0)
        now = runner.iter + 1
    due = False
    if in_epoch == by_epoch and every > 0:
        due = bool(now % every == 0)
    v.ensure('when it is due', hook.saved == int(due))


class Super(nn.Module):
    """A supernet of which a subnet is drawn by a mutator."""

    def __init__(self, spaces):
        super().__init__()
        net = Searched(spaces)
        self.architecture, self.mutator = net.architecture, net.mutator

    is_supernet = True


def scratch(f):
    """runs a contract with a directory of its own"""
    def run(v):
        path = tempfile.mkdtemp(prefix='c19-')
        try:
            return f(v, path)
        finally:
            shutil.rmtree(path)
    run.__name__, run.__doc__ = f.__name__, f.__doc__
    run.__module__, run.__qualname__ = f.__module__, f.__qualname__
    return run


@contract('C19', targets=[HOOK + 'dump_subnet_hook.py'], kind='bounded',
          samples=150)
@scratch
def dumped_subnets(v, path):
    """What is dumped is a subnet of the supernet, complete, and loads back;
    the supernet goes on as it was."""
    spaces = [list(range(v.small('size', 1, 4))) for _ in range(
        v.small('mutables', 1, 4))]
    model = Super(spaces)
    model.mutator.set_choices(model.mutator.sample_choices())
    before = model.architecture.choice()
    by_epoch = v.flag('by epoch')
    runner = Runner(model, [])
    runner.work_dir = os.path.join(path, 'work')
    runner.epoch, runner.iter = v.small('epoch', 0, 9), v.small('iter', 0, 9)
    runner.max_epochs = runner.max_iters = 100
    elsewhere = v.flag('elsewhere')
    out = os.path.join(path, 'out')
    hook = DumpSubnetHook(1, by_epoch=by_epoch,
                          out_dir=out if elsewhere else None)
    hook.before_train(runner)
    if by_epoch:
        hook.after_train_epoch(runner)
    else:
        hook.after_train_iter(runner, 0)
    at = os.path.join(out, 'work') if elsewhere else runner.work_dir
    name = f'subnet_epoch_{runner.epoch + 1}.yaml' if by_epoch else \
        f'subnet_iter_{runner.iter + 1}.yaml'
    v.ensure('one file, of its name', os.listdir(at) == [name])
    v.ensure('the supernet goes on', model.architecture.choice() == before
             and not any(m.is_fixed for m in model.architecture.ms))
    fresh = Super(spaces)
    load_fix_subnet(fresh, os.path.join(at, name))
    v.ensure('loads back', all(m.is_fixed for m in fresh.architecture.ms) and
             all(m.current_choice in s for m, s in zip(
                 fresh.architecture.ms, spaces)))
    got = load(os.path.join(at, name))
    v.ensure('each with its choice', sorted(
        d['chosen'] for d in got.values()) == sorted(
            fresh.architecture.choice()) and len(got) == len(spaces))


@contract('C19', targets=[HOOK + 'estimate_resources_hook.py'],
          kind='bounded', samples=150)
def estimated_subnets(v):
    """Of a supernet a drawn subnet is estimated, of any other model the
    model itself; the supernet goes on as it was."""
    spaces = [list(range(v.small('size', 1, 4))) for _ in range(
        v.small('mutables', 1, 4))]
    model = Super(spaces)
    model.mutator.set_choices(model.mutator.sample_choices())
    model.is_supernet = v.flag('supernet')
    before = model.architecture.choice()
    runner = Runner(model, [])
    if v.flag('wrapped'):
        runner.model, runner.distributed = Wrapped(model), True
    runner.epoch = runner.iter = 3
    seen, said = [], []

    class Sees:

        def estimate(self, m):
            seen.append(m)
            return dict(flops=7)

    class Says(Quiet):

        def info(self, text):
            said.append(text)
    runner.logger = Says()
    by_epoch = v.flag('by epoch')
    hook = EstimateResourcesHook(1, by_epoch=by_epoch)
    hook.estimator = Sees()
    if by_epoch:
        hook.after_val_epoch(runner, dict())
    else:
        hook.after_val_iter(runner, 0)
    v.ensure('once', len(seen) == 1)
    v.ensure('says so', any("{'flops': 7}" in x for x in said))
    if model.is_supernet:
        v.ensure('a subnet of it', seen[0] is not model and all(
            m.is_fixed and m.current_choice in s for m, s in zip(
                seen[0].architecture.ms, spaces)))
    else:
        v.ensure('itself', seen[0] is model)
    v.ensure('the supernet goes on', model.architecture.choice() == before
             and not any(m.is_fixed for m in model.architecture.ms))


class Plain(nn.Module):

    def __init__(self, widths):
        super().__init__()
        body, c = [], 3
        for w in widths:
            body += [nn.Conv2d(c, w, 3, padding=1), nn.BatchNorm2d(w),
                     nn.ReLU()]
            c = w
        self.body = nn.Sequential(*body)
        self.head = nn.Linear(c, 2)

    def forward(self, x):
        return self.head(self.body(x).mean((2, 3)))


class Pruned(BaseModel):

    def __init__(self, net, mutator=None):
        super().__init__()
        self.architecture = net
        if mutator is not None:
            self.mutator = mutator

    def forward(self, x):
        return self.architecture(x)

    def val_step(self, data):
        return ['student', data, self.training]


def pruned(v):
    """(a prepared model, its network before, any choice of its channels)"""
    widths = [v.small('width', 2, 6) for _ in range(v.small('layers', 1, 3))]
    net = Plain(widths)
    plain = copy.deepcopy(net)
    mutator = ChannelMutator(
        channel_unit_cfg=dict(type='SequentialMutableChannelUnit'),
        parse_cfg=dict(type='ChannelAnalyzer', demo_input=(1, 3, 4, 4),
                       tracer_type='FxTracer'))
    mutator.prepare_from_supernet(net)
    for m in net.modules():
        if isinstance(m, nn.BatchNorm2d):
            nn.init.uniform_(m.running_mean, -1, 1)
            nn.init.uniform_(m.running_var, 1, 2)
    return Pruned(net, mutator), plain


def reloaded(plain, config, weights=None):
    """the plain network, pruned as a saved config says"""
    net = copy.deepcopy(plain)
    with open(config) as f:
        load_fix_subnet(net, json.load(f), load_subnet_mode='mutator')
    if weights is not None:
        state = torch.load(weights)['state_dict']
        at = 'architecture.'
        net.load_state_dict({k[len(at):]: x for k, x in state.items()
                             if k.startswith(at)})
    return net.eval()


@contract('C19', targets=[RUN + 'iteprune_val_loop.py'], kind='bounded',
          samples=40)
@scratch
def pruned_and_saved(v, path):
    """Each validation saves the network as it is pruned, and its weights;
    together they compute what the network does."""
    log = []
    model, plain = pruned(v)
    model.log = log
    runner = Runner(model, log)
    if v.flag('wrapped'):
        runner.model, runner.distributed = Wrapped(model), True
    runner.work_dir = path
    n = v.small('batches', 0, 2)
    data, scores = Loader('val', n, log), Scores(log)
    loop = ItePruneValLoop(runner, data, scores)
    x = torch.randn(2, 3, 4, 4)
    for again in range(v.small('validations', 1, 2)):
        del log[:]
        runner.model.train()
        model.mutator.set_choices(model.mutator.sample_choices())
        got = loop.run()
        want = dict(acc=([(['student', ('val', again + 1, i), False],
                           ('val', again + 1, i)) for i in range(n)], 3),
                    loss=-again - 1)
        v.ensure('the metrics', got == want and metrics_of(log) == want)
        around(v, log, want, n)
        v.ensure('two files', sorted(os.listdir(path)) == [
            'fix_subnet.json', 'fix_subnet_weight.pth'])
        net = reloaded(plain, os.path.join(path, 'fix_subnet.json'),
                       os.path.join(path, 'fix_subnet_weight.pth'))
        model.eval()
        v.ensure('computes the same', torch.allclose(
            net(x), model(x), atol=1e-4))
        v.ensure('still prunable', isinstance(
            model.architecture.body[0], DynamicChannelMixin))


class Sampled(Pruned):
    """A DMCP model: draws a subnet at random, or takes the expected one."""

    def set_subnet(self, mode, arch_train=None):
        assert arch_train is False
        self.modes.append(mode)
        if mode == 'direct':
            self.mutator.set_choices(self.mutator.sample_choices())

    def cost(self, choices):
        return float(sum(choices.values())) * 1e6

    def calc_current_flops(self):
        return self.cost(self.mutator.current_choices)


@contract('C19', targets=[HOOK + 'dmcp_subnet_hook.py'], kind='bounded',
          samples=40)
@scratch
def sampled_and_saved(v, path):
    """After a run, so many subnets are saved, each within 5 % of the target,
    and one more, as expected."""
    model, plain = pruned(v)
    model.__class__ = Sampled
    model.modes = []
    model.mutator.set_choices(model.mutator.sample_choices())
    # (a target some subnet meets)
    model.target_flops = model.calc_current_flops() / 1e6 * v.choose(
        'off by', [1, 1.03, 0.97])
    runner = Runner(model, [])
    runner.work_dir = path
    if v.flag('wrapped'):
        runner.model, runner.distributed = Wrapped(model), True
    k = v.small('samples', 0, 3)
    DMCPSubnetHook(subnet_sample_num=k).after_run(runner)
    at = os.path.join(path, 'model_sample')
    v.ensure('so many', sorted(os.listdir(at)) == sorted(
        [f'subnet_{i + 1}.json' for i in range(k)] + ['excepted_ch.json']))
    v.ensure('the last as expected', model.modes[-1] == 'expected' and
             model.modes.count('expected') == 1)
    for i in range(k):
        name = os.path.join(at, f'subnet_{i + 1}.json')
        net = reloaded(plain, name)
        with open(name) as f:
            saved = json.load(f)['channel_unit_cfg']['units']
        cost = sum(u['choice'] for u in saved.values()) * 1e6
        t = model.target_flops * 1e6
        v.ensure('near the target', 0.95 * t <= cost <= 1.05 * t)
        v.ensure('loads back', sorted(
            m.out_channels for m in net.body[::3]) == sorted(
                u['choice'] for u in saved.values()))
