"""C16: a training step of a supernet runs the subnets its strategy names."""
import contextlib
import random
from types import SimpleNamespace

import torch
import torch.nn as nn
import torch.nn.functional as F
from mmengine.logging import MessageHub
from mmengine.model import BaseModel
from mmengine.optim import OptimWrapper, OptimWrapperDict

import mmrazor.models.algorithms.pruning.dmcp as dmcp_module
import mmrazor.models.mutators.channel_mutator.dmcp_channel_mutator as \
    dmcp_mutator_module
from mmrazor.models.algorithms import (DMCP, DSNAS, SPOS, Autoformer,
                                       AutoSlim, BigNAS, SlimmableNetwork)
from mmrazor.models.algorithms.nas.autoslim import AutoSlimDDP
from mmrazor.models.algorithms.nas.bignas import BigNASDDP
from mmrazor.models.algorithms.nas.dsnas import DSNASDDP
from mmrazor.models.algorithms.pruning.dmcp import DMCPDDP
from mmrazor.models.algorithms.pruning.slimmable_network import \
    SlimmableNetworkDDP
from mmrazor.models.architectures.dynamic_ops import (DMCPBatchNorm2d,
                                                      DynamicSequential)
from mmrazor.models.architectures.ops.mobilenet_series import MBBlock
from mmrazor.models.architectures.utils import set_dropout
from mmrazor.models.distillers import ConfigurableDistiller
from mmrazor.models.mutables import OneHotMutableOP, SimpleMutableChannel
from mmrazor.models.mutators import (ChannelMutator, DMCPChannelMutator,
                                     NasMutator, SlimmableChannelMutator)
from mmrazor.models.utils import reinitialize_optim_wrapper_count_status
from pyvc.harness import contract

ALG = 'mmrazor/models/algorithms/'
M = 2**20


# ---------------------------------------------------------------- ghosts
class Net(BaseModel):
    """The supernet: notes what it is run with, and as which subnet."""

    def __init__(self, log):
        super().__init__()
        self.log = log
        self.bn = nn.BatchNorm1d(2)
        self.sync = nn.Sequential(nn.BatchNorm2d(2), nn.Dropout())

    def forward(self, inputs, data_samples=None, mode='tensor'):
        log = self.log
        log.runs += 1
        log.add('run', inputs, data_samples, mode, log.choice, tuple(
            log.recording), self.training)
        return dict(loss=('hard', log.runs))


class Log(list):

    def __init__(self):
        super().__init__()
        self.runs = self.samples = 0
        self.choice, self.recording = None, []
        self.inside = []

    def add(self, *what):
        self.append(what)

    @contextlib.contextmanager
    def within(self, kind):
        self.recording.append(kind)
        try:
            yield
        finally:
            self.recording.remove(kind)


class Sampling:
    """Subnets to choose: the largest, the smallest, and new ones."""

    def __init__(self, log):
        nn.Module.__init__(self)
        object.__setattr__(self, 'log', log)

    def prepare_from_supernet(self, supernet):
        pass

    def set_max_choices(self):
        self.log.choice = 'max'

    def set_min_choices(self):
        self.log.choice = 'min'

    max_choices = property(lambda self: 'max')
    min_choices = property(lambda self: 'min')

    def sample_choices(self, *a, **k):
        self.log.samples += 1
        return ('sample', self.log.samples)

    def set_choices(self, c):
        self.log.choice = c


class Channels(Sampling, ChannelMutator):
    pass


class Nas(Sampling, NasMutator):
    pass


class Listed(Sampling, ChannelMutator):

    def __init__(self, log, n):
        super().__init__(log)
        object.__setattr__(self, 'subnets', [('listed', i) for i in range(n)])


class Distiller(ConfigurableDistiller):

    def __init__(self, log):
        nn.Module.__init__(self)
        object.__setattr__(self, 'log', log)
        self.done = 0

    def prepare_from_teacher(self, model):
        pass

    prepare_from_student = prepare_from_teacher
    teacher_recorders = property(lambda self: self.log.within('teacher'))
    student_recorders = property(lambda self: self.log.within('student'))

    def compute_distill_losses(self):
        self.log.add('distill', self.log.runs, tuple(self.log.recording))
        return dict(soft=('soft', self.log.runs))


class Optim:

    def __init__(self, log, name='', hub=None):
        self.log, self.name, self.message_hub = log, name, hub

    @contextlib.contextmanager
    def optim_context(self, model):
        self.log.inside.append((self.name, model))
        try:
            yield
        finally:
            self.log.inside.pop()

    def initialize_count_status(self, model, init_counts, max_counts):
        self.log.add('counts', model, init_counts, max_counts)

    def update_params(self, losses):
        self.log.add('update' + self.name, losses, self.log.choice)

    def __getattr__(self, name):
        if name in ('backward', 'step', 'zero_grad'):
            return lambda *a, **k: self.log.add(name + self.name, *a, *k.
                                                items())
        raise AttributeError(name)


class Optims(OptimWrapperDict):

    def __init__(self, **kw):
        self.optims = kw

    def __getitem__(self, name):
        return self.optims[name]


class Batch(nn.Module):
    """The preprocessor; the fields of a batch come in any order."""

    def __init__(self, order, log):
        super().__init__()
        self.order, self.log = order, log

    def forward(self, data, training=False):
        self.log.add('batch', data, training)
        return {k: (k, data) for k in self.order}


ORDERS = [('inputs', 'data_samples'), ('data_samples', 'inputs'),
          ('inputs', 'data_samples', 'more')]


def parsed(losses):
    return ('parsed', tuple(sorted(losses.items()))), {
        'log ' + k: x for k, x in losses.items()}


def wrapped(cls, algo):
    """the algorithm within its wrapper for distributed training"""
    class DDP(cls):

        def __init__(self):
            nn.Module.__init__(self)
            self.module = algo

        def forward(self, *a, **k):
            return self.module(*a, **k)
    return DDP()


def hub(v):
    return SimpleNamespace(runtime_info=dict(
        iter=v.int('iter', 0, M, chi=9), max_iters=v.int('iters', 1, M,
                                                         chi=9)))


def runs(v, log, algo, data, want):
    """that since the log was emptied, exactly these subnets were run:
    (subnet, recorder, names of losses used)"""
    v.ensure('one batch', [x for x in log if x[0] == 'batch'] == [
        ('batch', data, True)])
    ran = [x for x in log if x[0] == 'run']
    v.ensure('each subnet once, in order', [x[4] for x in ran] == [
        w[0] for w in want])
    v.ensure('all on the same batch', all(
        x[1:4] == (('inputs', data), ('data_samples', data), 'loss')
        for x in ran))
    v.ensure('recorded as teacher or student', [x[5] for x in ran] == [
        w[1] for w in want])
    ups = [x for x in log if x[0].startswith('update')]
    first = log.runs - len(want) + 1
    losses = [{k: (kind, first + i) for k, kind in w[2].items()}
              for i, w in enumerate(want)]
    v.ensure('each updates with its own losses', [x[1] for x in ups] == [
        parsed(x)[0] for x in losses])
    v.ensure('before the next subnet', [
        x[0][:3] for x in log if x[0] == 'run' or x[0].startswith(
            'update')] == ['run', 'upd'] * len(want))
    v.ensure('and while it is chosen', [x[2] for x in ups] == [
        w[0] for w in want])
    v.ensure('distills from recorded outputs', [
        x[1:] for x in log if x[0] == 'distill'] == [
            (first + i, ('student', )) for i, w in enumerate(want)
            if 'soft' in w[2]])
    v.ensure('no recorder left', log.recording == [] and log.inside == [])
    return losses


def named(want, losses):
    return {f'{w[3]}.{k}': x for w, loss in zip(want, losses)
            for k, x in loss.items()}


HARD, SOFT = dict(loss='hard'), dict(soft='soft')


@contract('C16', targets=[ALG + 'nas/autoslim.py', ALG + 'nas/bignas.py'],
          samples=150, bound='up to 4 random subnets, 2 steps')
def sandwich(v):
    """AutoSlim and BigNAS, wrapped or not: the largest, the smallest, and as
    many new subnets as asked for."""
    log = Log()
    big = v.flag('BigNAS')
    n = v.small('random', 0, 4)
    order = ORDERS[v.small('order', 0, 2)]
    net = Net(log)
    blocks = []
    if big:
        net.backbone = nn.Module()
        layers = [DynamicSequential(*[block() for _ in range(2)])
                  for _ in range(3)]
        net.backbone.layers = layers
        blocks = [b for x in layers for b in x if isinstance(b, MBBlock)]
        run = net.forward

        def forward(*a, **k):
            log.add('drop', [b.drop_path_rate for b in blocks])
            return run(*a, **k)
        net.forward = forward
        p = v.float('drop path', 0, 1)
        algo = BigNAS(net, Nas(log), Distiller(log), Batch(order, log), n,
                      drop_path_rate=p, backbone_dropout_stages=[2])
    else:
        algo = AutoSlim(net, Channels(log), Distiller(log),
                        num_random_samples=n,
                        data_preprocessor=Batch(order, log))
    algo.parse_losses = parsed
    model = algo
    if v.flag('distributed'):
        model = wrapped(BigNASDDP if big else AutoSlimDDP, algo)
    info = hub(v)
    optim = Optim(log, hub=info)
    want = [('max', ('teacher', ), HARD, 'max_subnet')]
    soft = SOFT if big else dict(HARD, **SOFT)
    want.append(('min', ('student', ), soft, 'min_subnet'))
    for step in range(2):
        del log[:]
        got = model.train_step(('data', step), optim)
        want = want[:2] + [
            (('sample', step * n + i + 1), ('student', ), soft,
             f'random{i}_subnet') for i in range(n)]
        losses = runs(v, log, algo, ('data', step), want)
        v.ensure('reports under the name of the subnet', got == named(
            want, losses))
        counted(v, log, model, info, n + 2, step == 0)
        if big:
            drops = [x[1] for x in log if x[0] == 'drop']
            v.ensure('drops paths of the largest only', v.all_of(*[
                d == (p * (i / 4) if k == 0 and i in (2, 3) else 0)
                for k, ds in enumerate(drops) for i, d in enumerate(ds)]))


def counted(v, log, model, info, n, first):
    counts = [x for x in log if x[0] == 'counts']
    v.ensure('counts set once, before the first run', len(counts) == int(
        first) and [x[0] for x in log if x[0] in ('counts', 'run')][:1] == [
            'counts' if first else 'run'])
    if first:
        v.ensure('counts of all subnets', v.all_of(
            counts[0][1] is model,
            counts[0][2] == info.runtime_info['iter'] * n,
            counts[0][3] == info.runtime_info['max_iters'] * n))


@contract('C16', targets=['mmrazor/models/utils/optim_wrapper.py'],
          samples=100)
def counts(v):
    log = Log()
    n = v.int('subnets', 1, 2**10, chi=9)
    info = hub(v)
    model = object()
    reinitialize_optim_wrapper_count_status(
        model, Optim(log, hub=info), n, verbose=False)
    v.ensure('iterations so far and in all, of all subnets', v.all_of(
        len(log) == 1, log[0][1] is model,
        log[0][2] == info.runtime_info['iter'] * n,
        log[0][3] == info.runtime_info['max_iters'] * n))


class Slim(SlimmableNetwork):
    """(deploying is a contract of its own)"""

    def _deploy(self, index):
        self.is_deployed = True


@contract('C16', targets=[ALG + 'pruning/slimmable_network.py'], samples=100,
          bound='up to 4 widths, 2 steps')
def slimmable(v):
    """Every listed width once; a deployed network just trains."""
    log = Log()
    n = v.small('widths', 1, 4)
    order = ORDERS[v.small('order', 0, 2)]
    deployed = v.flag('deployed')
    algo = Slim(Net(log), Listed(log, n), 0 if deployed else -1,
                Batch(order, log))
    algo.parse_losses = parsed
    model = wrapped(SlimmableNetworkDDP, algo) if v.flag(
        'distributed') else algo
    info = hub(v)
    optim = Optim(log, hub=info)
    for step in range(2):
        del log[:]
        got = model.train_step(('data', step), optim)
        want = [(None, (), HARD, '')] if deployed else [
            (('listed', i), (), HARD, f'subnet_{i}') for i in range(n)]
        losses = runs(v, log, algo, ('data', step), want)
        if deployed:
            v.ensure('its own losses', got == losses[0])
            v.ensure('counts as it is', not any(
                x[0] == 'counts' for x in log))
        else:
            v.ensure('reports under the name of the subnet', got == named(
                want, losses))
            counted(v, log, model, info, n, step == 0)


@contract('C16', targets=['mmrazor/models/mutators/channel_mutator/'
                          'slimmable_channel_mutator.py'], samples=100,
          bound='up to 3 units and 4 widths')
def listed_widths(v):
    """The i-th subnet has the i-th candidate of every unit; units with
    different numbers of candidates are refused."""
    names = [f'unit{i}' for i in range(v.small('units', 1, 3))]
    lens = [v.small('candidates' + k, 1, 4) for k in names]
    cfg = {k: dict(init_args=dict(candidate_choices=[
        v.int(f'{k} {i}', 1, M) for i in range(n)]))
        for k, n in zip(names, lens)}
    mut = SlimmableChannelMutator.__new__(SlimmableChannelMutator)
    if len(set(lens)) > 1:
        v.ensure('refused', v.raises(mut._prepare_subnets, cfg))
        return
    got = mut._prepare_subnets(cfg)
    v.ensure('as many as candidates', len(got) == lens[0])
    v.ensure('the same position of every unit', v.all_of(*[
        set(s) == set(names) and v.all_of(*[
            s[k] == cfg[k]['init_args']['candidate_choices'][i]
            for k in names]) for i, s in enumerate(got)]))
    units = {k: SimpleNamespace(current_choice=None) for k in names}
    nn.Module.__init__(mut)
    mut._name2unit = units
    mut.set_choices(got[-1])
    v.ensure('sets every unit', v.all_of(*[
        units[k].current_choice == got[-1][k] for k in names]))


@contract('C16', targets=[ALG + 'nas/spos.py', ALG + 'nas/autoformer.py',
                          ALG + 'base.py'], samples=100)
def single_path(v):
    """Every loss is that of a newly sampled subnet; other modes leave the
    subnet alone."""
    log = Log()
    cls = [SPOS, Autoformer][v.small('class', 0, 1)]
    algo = cls(Net(log), Nas(log))
    algo.eval()
    choice = None
    for step in range(2):
        n = log.samples
        mode = v.choose(f'mode{step}', ['loss', 'predict', 'tensor'])
        x, s = object(), [object()]
        algo(x, s, mode)
        run = log[-1]
        if mode == 'loss':
            choice = ('sample', n + 1)
        v.ensure('samples for a loss only', log.samples == n + (
            mode == 'loss'))
        v.ensure('runs the sampled one', run[4] == choice)
        v.ensure('on its batch', run[1] is x and run[2] is s and run[
            3] == mode and len(log) == step + 1)


@contract('C16', targets=[ALG + f'nas/{k}.py' for k in (
    'spos', 'autoslim', 'dsnas')], samples=60)
def norm_training(v):
    """Batch norms alone stay in training."""
    log = Log()
    norm = v.flag('norm_training')
    kind = v.choose('class', ['spos', 'autoslim', 'dsnas'])
    net = Net(log)
    if kind == 'spos':
        algo = SPOS(net, Nas(log), norm)
    elif kind == 'autoslim':
        algo = AutoSlim(net, Channels(log), Distiller(log), norm)
    else:
        algo = DSNAS.__new__(DSNAS)
        BaseModel.__init__(algo)
        algo.architecture, algo.norm_training = net, norm
    for step in range(3):
        mode = v.flag(f'mode{step}')
        algo.train(mode) if mode else algo.eval()
        for m in net.modules():
            bn = isinstance(m, nn.modules.batchnorm._BatchNorm)
            v.ensure('mode', m.training == (mode or (bn and norm)))


def block():
    b = MBBlock.__new__(MBBlock)
    nn.Module.__init__(b)
    b._drop_path_rate = 0
    return b


@contract('C16', targets=['mmrazor/models/architectures/utils/'
                          'set_dropout.py'], samples=150,
          bound='up to 3 stages of up to 3 blocks')
def dropout(v):
    """Blocks of the given stages drop paths in proportion to their place
    among all blocks; the others are left alone."""
    sizes = [v.small(f'blocks{i}', 1, 3) for i in range(v.small(
        'stages', 1, 3))]
    stages = [i + 1 for i in range(len(sizes)) if v.flag(f'stage{i}')]
    layers = [DynamicSequential(*[block() for _ in range(n)]) for n in sizes]
    old = v.float('old', 0, 1)
    p = v.float('rate', 0, 1)
    layers_of = [[b for b in x if isinstance(b, MBBlock)] for x in layers]
    for x in layers_of:
        for b in x:
            b._drop_path_rate = old
    set_dropout(layers, MBBlock, stages, p)
    at, total = 0, sum(sizes)
    for i, x in enumerate(layers_of):
        for b in x:
            v.ensure('rate', b.drop_path_rate == (
                p * (at / total) if i + 1 in stages else old))
            at += 1


# -------------------------------------------------------------------- DMCP
class Dmcp(DMCP):
    """Its FLOPs are those of a contract of their own."""

    def __init__(self, log, batch, **kw):
        BaseModel.__init__(self)
        self.architecture = Net(log)
        self.data_preprocessor = batch
        object.__setattr__(self, 'mutator', Drawn(log))
        self.distiller = Distiller(log)
        for k, x in kw.items():
            setattr(self, k, x)

    def calc_current_flops(self):
        log = self.architecture.log
        log.add('flops', log.choice, self.training)
        return ('flops', log.choice)

    def _compute_flops_loss(self, flops):
        return Loss(('flops loss', flops))

    def parse_losses(self, losses):
        return parsed(losses)


class Loss(tuple):

    device = 'device'

    def to(self, device):
        return self


class Drawn:

    def __init__(self, log):
        self.log = log

    def sample_subnet(self, mode, arch_train):
        self.log.choice = (mode, arch_train)


class Spilling(Optim):
    """a loss has gradients with respect to all weights it is computed from"""

    def update_params(self, losses):
        for p in self.weights if 'hard' in repr(losses) else ():
            p.grad = torch.ones_like(p) + (0 if p.grad is None else p.grad)
        super().update_params(losses)


class ArchNet(Net):

    def forward(self, *a, **k):
        out = super().forward(*a, **k)
        return dict(loss=Loss(out['loss']))


@contract('C16', targets=[ALG + 'pruning/dmcp.py'], samples=200,
          bound='strategies of up to 2 subnets')
def dmcp_step(v):
    """The strategy in order; distillation and architecture training exactly
    when their iterations have come."""
    dmcp(v, 2)


@contract('C16', targets=[ALG + 'pruning/dmcp.py'], samples=400,
          kind='bounded')
def dmcp_strategies(v):
    """The same of longer strategies."""
    dmcp(v, 6)


def dmcp(v, most):
    log = Log()
    kinds = [v.choose(f'kind{i}', ['max', 'min', 'arch_random',
                                   'scheduled_random'])
             for i in range(v.small('kinds', 1, most))]
    order = ORDERS[len(kinds) % 3]
    before = v.flag('trained before')
    i = v.int('iter', 0, M, chi=9)
    start, freq = v.int('start', 0, M, chi=9), v.int('freq', 1, M, chi=4)
    times = v.int('times', 0, M, chi=9)
    prob = v.float('prob', 0, 1)
    algo = Dmcp(log, Batch(order, log), strategy=kinds, arch_train=before,
                arch_start_train=start, arch_train_freq=freq,
                distillation_times=times, cur_sample_prob=prob)
    algo.architecture = ArchNet(log)
    MessageHub.get_current_instance()._runtime_info['iter'] = i
    draws = [v.float(f'draw{k}', 0, 1) for k in range(len(kinds))]
    left = list(draws)
    real = dmcp_module.random
    dmcp_module.random = SimpleNamespace(uniform=lambda a, b: left.pop(0))
    model = wrapped(DMCPDDP, algo) if v.flag('distributed') else algo
    mut = Spilling(log, ' mut')
    mut.weights = list(algo.architecture.parameters())
    left_over = v.flag('gradients accumulated')
    for p in mut.weights:
        p.grad = torch.full_like(p, 3.) if left_over else None
    try:
        got = model.train_step('data', Optims(
            architecture=Optim(log, ' arch'), mutator=mut))
    finally:
        dmcp_module.random = real
    v.ensure('weights learn nothing from the loss of the architecture', all(
        (p.grad is None or not p.grad.any()) if not left_over else
        torch.equal(p.grad, torch.full_like(p, 3.)) for p in mut.weights))
    arch = True if before else bool(i > start)
    soft = dict(HARD, **SOFT) if i > times else HARD
    want, seen = [], {}
    for kind in kinds:
        mode = kind
        if kind == 'arch_random':
            mode = 'direct' if arch else 'random'
        elif kind == 'scheduled_random':
            u = draws.pop(0)
            mode = 'direct' if arch and u > prob else 'random'
            prob = prob * 0.9999
        seen[mode] = seen.get(mode, 0) + 1
        top = mode == 'max'
        want.append(((mode, arch), ('teacher' if top else 'student', ),
                     HARD if top else soft, f'{mode}_subnet{seen[mode]}'))
    v.ensure('architecture is trained from its iteration on',
             algo.arch_train == arch)
    v.ensure('rate of direct samples', algo.cur_sample_prob == prob)
    trained = arch and i % freq == 0
    tail = []
    if trained:
        at = [k for k, x in enumerate(log) if x[0] == 'zero_grad mut']
        v.ensure('clears its gradients once', len(at) == 1)
        tail = log[at[0] + 1:]
        del log[at[0]:]
        log.runs -= 1
    losses = runs(v, log, algo, 'data', want)
    v.ensure('updates the weights', all(
        x[0] == 'update arch' for x in log if x[0].startswith('update')))
    names = named(want, losses)
    if trained:
        a, f = ('max', True), ('expected', False)
        n = log.runs + 1
        v.ensure('trains the architecture, in evaluation', tail == [
            ('run', ('inputs', 'data'), ('data_samples', 'data'), 'loss', a,
             (), False),
            ('update mut', parsed(dict(loss=('hard', n)))[0], a),
            ('flops', f, False),
            ('update mut', parsed(dict(loss=('flops loss', (
                'flops', f))))[0], f)])
        names['arch.loss'] = ('hard', n)
        names['flops.loss'] = ('flops loss', ('flops', f))
        v.ensure('is in training again', algo.training)
    v.ensure('reports under the name of the subnet', got == names)


@contract('C16', targets=[ALG + 'pruning/dmcp.py'], samples=300,
          kind='bounded')
def flops_loss(v):
    """Gradients lead to the target, and there they end."""
    algo = DMCP.__new__(DMCP)
    BaseModel.__init__(algo)
    kind = v.choose('type', ['l1', 'l2', 'log_l1', 'inverted_log_l1'])
    target = v.float('target (M)', .5, 500)
    algo.target_flops, algo.flops_loss_type = target, kind
    algo.flop_loss_weight = w = v.float('weight', .1, 3)
    r = v.float('ratio', .01, 3)
    v.assume(abs(r - 1) > 1e-3 and abs(r - .95) > 1e-3)
    x = torch.tensor(r * target * 1e6, dtype=torch.float64,
                     requires_grad=True)
    loss = algo._compute_flops_loss(x)
    g, = torch.autograd.grad(loss, x)
    g = g.item()
    v.ensure('is a number', bool(torch.isfinite(loss)))
    err = abs(r - 1) * target * 1e6
    if kind == 'log_l1':
        if .95 < r < 1:
            v.ensure('nothing to gain just below the target', g == 0 and
                     loss.item() == 0)
            return
    elif kind != 'inverted_log_l1':
        v.ensure('value', abs(loss.item() / (
            w * err**(1 if kind == 'l1' else 2)) - 1) < 1e-6)
    v.ensure('leads to the target', (g > 0) == (r > 1) and g != 0)


CH = 'mmrazor/models/mutators/channel_mutator/dmcp_channel_mutator.py'


@contract('C16', targets=[CH], samples=150)
def dmcp_widths(v):
    """Widths are the smallest plus whole groups, up to all channels."""
    mut = DMCPChannelMutator.__new__(DMCPChannelMutator)
    nn.Module.__init__(mut)
    size, groups = v.int('size', 0, M, chi=8), v.int('groups', 0, M, chi=9)
    least = v.int('least', 1, M, chi=9)
    mut.arch_params = {'0': None}
    mut._arch_params_attr = {'0': (size, groups, least)}
    k = v.int('drawn', 0, M, chi=9)
    v.assume(k <= groups)
    asked = []
    real = dmcp_mutator_module.random

    def randint(a, b):
        asked.append((a, b))
        return k
    dmcp_mutator_module.random = SimpleNamespace(randint=randint)
    try:
        v.ensure('max', mut._prune_by_arch('max', 0) == (
            least + groups * size))
        v.ensure('min', mut._prune_by_arch('min', 0) == least)
        v.ensure('random', mut._prune_by_arch('random', 0) == (
            least + k * size))
        v.ensure('any number of groups', len(asked) == 1 and v.all_of(
            asked[0][0] == 0, asked[0][1] == groups))
    finally:
        dmcp_mutator_module.random = real


@contract('C16', targets=[CH], samples=300, kind='bounded')
def dmcp_search_space(v):
    """The groups and the smallest width make up all channels."""
    mut = DMCPChannelMutator.__new__(DMCPChannelMutator)
    low = v.choose('low', [.1, .2, .25, .5])
    step = v.choose('step', [.05, .1, .15])
    mut.pruning_cfg = (low, 1, step)
    n = v.int('channels', 1, 4096)
    size, groups, least = mut._generate_arch_message(n)
    v.ensure('make up all channels', size * groups + least == n)
    v.ensure('keeps a channel', least >= 1 and size >= 0 and groups >= 0)
    v.ensure('groups of the range', abs(groups - (1 - low) / step) < 1)
    v.ensure('size of a group', 0 <= n * step - size < 1 + 1e-6)


def draws_of(values):
    it = iter(values)
    return SimpleNamespace(uniform=lambda a, b: next(it),
                           randint=random.randint)


@contract('C16', targets=[CH], samples=200, kind='bounded')
def dmcp_direct(v):
    """A direct sample takes group after group while a draw falls below its
    probability; the expected width is the mean of that."""
    mut = DMCPChannelMutator.__new__(DMCPChannelMutator)
    nn.Module.__init__(mut)
    n = v.small('groups', 0, 5)
    size, least = v.small('size', 1, 5), v.small('least', 1, 5)
    param = [v.float(f'param{i}', -1, 3) for i in range(n)]
    mut.arch_params = {'0': torch.tensor(param, dtype=torch.float64)}
    mut._arch_params_attr = {'0': (size, n, least)}
    draws = [v.float(f'draw{i}', 0, 1) for i in range(n)]
    probs = [torch.exp(-torch.tensor(max(p, 0.), dtype=torch.float64)).item()
             for p in param]
    v.assume(all(abs(a - b) > 1e-6 for a, b in zip(draws, probs)))
    want = least
    for p, u in zip(probs, draws):
        if u > p:
            break
        want += size
    real = dmcp_mutator_module.random
    dmcp_mutator_module.random = draws_of(draws)
    try:
        v.ensure('direct', mut._prune_by_arch('direct', 0) == want)
    finally:
        dmcp_mutator_module.random = real
    mean, p = least, 1.
    for q in probs:
        p *= q
        mean += p * size
    v.ensure('expected', abs(float(mut._prune_by_arch(
        'expected', 0)) - mean) < 1e-6)


@contract('C16', targets=['mmrazor/models/architectures/dynamic_ops/bricks/'
                          'dynamic_norm.py'], samples=100, kind='bounded')
def dmcp_norm(v):
    """With architecture parameters a norm scales each group by the
    probability that it is there."""
    seed = v.small('seed', 0, 10**6)
    torch.manual_seed(seed)
    rng = random.Random(seed)
    size, n, least = rng.randint(1, 3), rng.randint(0, 4), rng.randint(1, 3)
    total = least + size * n
    op, ref = DMCPBatchNorm2d(total), nn.BatchNorm2d(total)
    m = SimpleMutableChannel(total)
    op.register_mutable_attr('num_features', m)
    take = rng.randint(0, n)
    k = least + take * size
    m.mask = (torch.arange(total) < k).float()
    param = torch.randn(n)
    x = torch.randn(4, k, 2, 2)
    train = v.flag('training')
    op.train(train)
    ref = nn.BatchNorm2d(k).train(train)
    with torch.no_grad():
        for p in ('weight', 'bias', 'running_mean', 'running_var'):
            t = getattr(op, p)
            t.uniform_(.5, 2)
            getattr(ref, p).copy_(t[:k])
    before = {p: getattr(op, p).clone() for p in (
        'running_mean', 'running_var')}
    want = ref(x)
    for arch in [False, True, False][:v.small('rounds', 1, 3)]:
        for p in before:
            getattr(op, p).copy_(before[p])
        op.set_forward_args(arch_param=param if arch else None,
                            arch_attr=(size, n, least) if arch else None)
        scale = torch.ones(k)
        p = 1.
        for g in range(take if arch else 0):
            p = p * torch.exp(-param[g].clamp(min=0))
            scale[least + g * size:least + (g + 1) * size] = p
        y = op(x)
        v.ensure('scaled by its probability', torch.allclose(
            y, want * scale.view(1, -1, 1, 1), atol=1e-5))
        v.ensure('statistics', torch.allclose(
            op.running_mean[:k], ref.running_mean, atol=1e-5) and torch.equal(
                op.running_mean[k:], before['running_mean'][k:]))


@contract('C16', targets=[CH], samples=100)
def dmcp_sampled(v):
    """Every unit gets the width drawn for it; norms get the architecture
    parameters of their unit exactly while the architecture is trained."""
    n = v.small('units', 1, 3)
    mode = v.choose('mode', ['max', 'min', 'random', 'direct', 'expected'])
    train = v.flag('arch_train')

    class Mut(DMCPChannelMutator):
        units = [SimpleNamespace(current_choice=None, mutable_channel=(
            SimpleNamespace(activated_tensor_channels=None)))
            for _ in range(n)]

        def __init__(self):
            nn.Module.__init__(self)

        def _prune_by_arch(self, mode, group):
            return ('width', mode, group)

    mut = Mut()
    mut.arch_params = {str(i): ('param', i) for i in range(n)}
    mut._arch_params_attr = {str(i): ('attr', i) for i in range(n)}
    norms = []

    class Norm:

        def set_forward_args(self, arch_param, arch_attr):
            self.got = (arch_param, arch_attr)
            norms.append(self)
    mine = [(Norm(), i) for i in range(n) for _ in range(2)]
    mut._bn_arch_align = {b: str(i) for b, i in mine}
    mut.sample_subnet(mode, train)
    for i, u in enumerate(mut.units):
        v.ensure('the width of the unit', u.current_choice == (
            'width', mode, i) and
            u.mutable_channel.activated_tensor_channels == ('width', mode, i))
    for b, i in mine:
        v.ensure('the parameters of its unit', b.got == (
            (('param', i), ('attr', i)) if train else (None, None)))


# ------------------------------------------------------------------- DSNAS
class Dsnas(DSNAS):

    def __init__(self, log, batch, **kw):
        BaseModel.__init__(self)
        self.architecture = Net(log)
        self.data_preprocessor = batch
        object.__setattr__(self, 'mutator', SimpleNamespace(arch_params={}))
        for k, x in kw.items():
            setattr(self, k, x)
        self.log = log

    def parse_losses(self, losses):
        return parsed(losses)

    def _fix_archtecture(self):
        self.log.add('fix')

    def compute_mutator_loss(self):
        self.log.add('mutator loss', [m for m, _ in self.log.inside])
        return dict(arch_loss='arch loss')

    def handle_grads(self):
        self.log.add('handle')


@contract('C16', targets=[ALG + 'nas/dsnas.py'], samples=200)
def dsnas_step(v):
    """Three stages: weights only, weights and architecture, and weights of
    the one architecture fixed once."""
    log = Log()
    epoch = v.int('epoch', 0, M, chi=5)
    pre, fine = v.int('pretrain', 0, M, chi=4), v.int('finetune', 1, M, chi=5)
    v.assume(pre < fine)
    algo = Dsnas(log, Batch(ORDERS[v.small('order', 0, 2)], log),
                 pretrain_epochs=pre, finetune_epochs=fine, is_supernet=True)
    MessageHub.get_current_instance()._runtime_info['epoch'] = epoch
    model = wrapped(DSNASDDP, algo) if v.flag('distributed') else algo
    n = 0
    run = ('run', ('inputs', 'data'), ('data_samples', 'data'), 'loss', None,
           (), True)
    if v.flag('one optimizer'):
        got = model.train_step('data', Optim(log))
        p, names = parsed(dict(loss=('hard', 1)))
        v.ensure('just trains', list(log) == [
            ('batch', 'data', True), run, ('update', p, None)])
        v.ensure('logs', got == names)
        return
    optims = Optims(architecture=Optim(log, ' arch'),
                    mutator=Optim(log, ' mut'))
    for step in range(2):
        del log[:]
        n += 1
        fixed = not algo.is_supernet
        got = model.train_step('data', optims)
        search = v.all_of(epoch >= pre, epoch < fine)
        fix = epoch == fine and not fixed
        search, fix = bool(search), bool(fix)
        p, names = parsed(dict(loss=('hard', n)))
        want = [('fix', )] * fix + [
            ('batch', 'data', True), run,
            ('backward arch', p, ('retain_graph', search)), ('step arch', ),
            ('zero_grad arch', )]
        names = {'supernet.' + k: x for k, x in names.items()}
        if search:
            p, more = parsed(dict(arch_loss='arch loss'))
            want += [('mutator loss', [' mut']), ('backward mut', p),
                     ('handle', ), ('step mut', ), ('zero_grad mut', )]
            names.update({'mutator.' + k: x for k, x in more.items()})
        v.ensure('its stage', list(log) == want)
        v.ensure('fixed from then on', algo.is_supernet == (
            not fixed and not fix))
        v.ensure('logs', got == names)



class Diff(BaseModel):
    """Two choices of convolutions."""

    def __init__(self):
        super().__init__()
        ops = {f'k{k}': dict(type='Conv2d', kernel_size=k, padding=k // 2)
               for k in (1, 3, 5)}
        self.a = OneHotMutableOP(candidates=ops, module_kwargs=dict(
            in_channels=3, out_channels=2))
        self.b = OneHotMutableOP(candidates=ops, module_kwargs=dict(
            in_channels=2, out_channels=2))

    def forward(self, batch_inputs, data_samples=None, mode='tensor'):
        y = self.b(self.a(batch_inputs))
        return dict(loss=(y**2).mean() + y.mean()) if mode == 'loss' else y


@contract('C16', targets=[ALG + 'nas/dsnas.py'], samples=30, kind='bounded')
def dsnas_run(v):
    """The architecture moves along the log-probability of the sampled
    operations, weighted by the gradient of the loss for the sample; from
    fine-tuning on it is one fixed architecture."""
    seed = v.small('seed', 0, 10**6)
    torch.manual_seed(seed)
    random.seed(seed)
    limit = v.choose('limit', [0., 1e9])
    algo = DSNAS(Diff(), NasMutator(), pretrain_epochs=1, finetune_epochs=3,
                 flops_constraints=limit)
    algo.mutator.arch_params['a_0'].data.normal_() if (
        'a_0' in algo.mutator.arch_params) else None
    info = MessageHub.get_current_instance()._runtime_info
    rate = .3
    mut = OptimWrapper(torch.optim.SGD(algo.mutator.parameters(), lr=rate))
    optims = OptimWrapperDict(mutator=mut, architecture=OptimWrapper(
        torch.optim.SGD(algo.architecture.parameters(), lr=.01)))
    got = {}
    back = mut.backward

    def backward(loss, **k):
        got['reward'] = {
            n: m.arch_weights.grad.sum().clone() for n, m in ops.items()}
        got['drawn'] = {n: m.arch_weights.detach().clone()
                        for n, m in ops.items()}
        back(loss, **k)
    mut.backward = backward
    ops = dict(a=algo.architecture.a, b=algo.architecture.b)
    keys = dict(zip(ops, algo.mutator.arch_params))
    cost = algo.mutable_module_resources
    v.ensure('resources of every candidate', all(
        0 < cost[f'{n}._candidates.k{a}']['flops'] < cost[
            f'{n}._candidates.k{a + 2}']['flops'] for n in ops
        for a in (1, 3)) and len(cost) == 6)
    for epoch in range(5):
        info['epoch'] = epoch
        for _ in range(2):
            got.clear()
            before = {k: p.detach().clone()
                      for k, p in algo.mutator.arch_params.items()}
            weights = [p.detach().clone()
                       for p in algo.architecture.parameters()]
            data = dict(inputs=torch.randn(2, 3, 6, 6), data_samples=None)
            algo.train_step(data, optims)
            v.ensure('weights are trained', any(
                not torch.equal(a, b) for a, b in zip(
                    weights, algo.architecture.parameters()))
                or epoch == 3)
            for n in ops:
                p, was = algo.mutator.arch_params[keys[n]], before[keys[n]]
                if not 1 <= epoch < 3:
                    v.ensure('architecture rests', torch.equal(p, was))
                    continue
                q = was.clone().requires_grad_()
                prob = torch.softmax(q, -1)
                drawn = got['drawn'][n]
                loss = torch.log((drawn * prob).sum())
                if limit == 0:
                    k = int(drawn.argmax())
                    flops = algo.mutable_module_resources[
                        f'{n}._candidates.{ops[n].choices[k]}']['flops']
                    loss = loss + prob[k] * flops * algo.flops_loss_coef
                g, = torch.autograd.grad(loss, q)
                v.ensure('follows the weighted gradient', torch.allclose(
                    p, was - rate * got['reward'][n] * g, atol=1e-5))
        v.ensure('fixed from fine-tuning on', all(
            m.is_fixed == (epoch >= 3) for m in ops.values()))
    v.ensure('one operation left', all(
        len(m._candidates) == 1 for m in ops.values()))
    v.ensure('stages in another order are refused', v.raises(
        DSNAS, Diff(), NasMutator(), pretrain_epochs=3, finetune_epochs=3,
        exc=ValueError))


class Weighing(BaseModel):
    """Its loss is its weight times a factor of each run."""

    def __init__(self, factors):
        super().__init__()
        self.w = nn.Parameter(torch.zeros(1))
        self.factors = factors
        self.backbone = nn.Module()
        self.backbone.layers = []

    def forward(self, inputs, data_samples=None, mode='tensor'):
        return dict(loss=(self.w * self.factors.pop(0)).sum())


class Silent(Distiller):
    """distillation losses with no gradient of their own"""

    def compute_distill_losses(self):
        model = self.model
        return dict(soft_loss=(model.w * model.factors.pop(0)).sum())


@contract('C16', targets=[ALG + f'{k}.py' for k in (
    'nas/autoslim', 'nas/bignas', 'pruning/slimmable_network')] + [
        'mmrazor/models/utils/optim_wrapper.py'], samples=60, kind='bounded')
def accumulated(v):
    """With as many accumulated counts as subnets, each step moves the
    weights once, along the mean gradient of all subnets, from the first to
    the last step of a run or a resumed run."""
    log = Log()
    kind = v.choose('class', ['autoslim', 'bignas', 'slimmable'])
    n = v.small('random', 0, 3) + 2
    factors, used = [], []
    model = Weighing(factors)
    dist = Silent(log)
    object.__setattr__(dist, 'model', model)
    batch = Batch(ORDERS[0], log)
    if kind == 'autoslim':
        algo = AutoSlim(model, Channels(log), dist,
                        num_random_samples=n - 2, data_preprocessor=batch)
    elif kind == 'bignas':
        algo = BigNAS(model, Nas(log), dist, batch, n - 2)
    else:
        algo = Slim(model, Listed(log, n), -1, batch)
    first, steps = v.small('first', 0, 3), v.small('steps', 1, 4)
    optim = OptimWrapper(torch.optim.SGD(model.parameters(), lr=1.),
                         accumulative_counts=n)
    info = optim.message_hub._runtime_info
    info['iter'], info['max_iters'] = first, first + steps
    optim.initialize_count_status(algo, first, first + steps)
    moved = []
    optim.optimizer.register_step_post_hook(lambda *a: moved.append(1))
    for step in range(steps):
        info['iter'] = first + step
        used = [float(v.small(f'factor{i}', 0, 9) + step) for i in range(
            2 * n)]
        factors[:] = list(used)
        was = model.w.item()
        algo.train_step('data', optim)
        used = used[:len(used) - len(factors)]
        if kind == 'bignas':
            # (its students only learn from the teacher)
            used = used[:1] + used[2::2]
        v.ensure('moves once', len(moved) == step + 1)
        v.ensure('along the mean of the subnets', abs(
            was - model.w.item() - sum(used) / n) < 1e-4)


def slim_net():
    class Arch(BaseModel):

        def __init__(self):
            super().__init__()
            self.a = nn.Conv2d(3, 8, 3, padding=1)
            self.bn = nn.BatchNorm2d(8)
            self.b = nn.Conv2d(8, 8, 3, padding=1)
            self.bn2 = nn.BatchNorm2d(8)
            self.fc = nn.Linear(8, 4)

        def forward(self, inputs, data_samples=None, mode='tensor'):
            y = torch.relu(self.bn(self.a(inputs)))
            y = torch.relu(self.bn2(self.b(y)))
            return self.fc(y.mean([2, 3]))
    return Arch()


@contract('C16', targets=[ALG + 'pruning/slimmable_network.py'], samples=15,
          kind='bounded')
def deployed(v):
    """The deployed network computes what the supernet computes with the
    subnet of that index."""
    import copy
    seed = v.small('seed', 0, 10**6)
    torch.manual_seed(seed)
    widths = sorted({v.small(f'width{i}', 1, 8) for i in range(3)} | {8})

    def mutator():
        return dict(type='SlimmableChannelMutator', parse_cfg=dict(
            type='ChannelAnalyzer', demo_input=(1, 3, 8, 8)),
            channel_unit_cfg=dict(type='SlimmableChannelUnit', units={
                'a_(0, 8)_8': dict(init_args=dict(
                    num_channels=8, candidate_choices=widths)),
                'b_(0, 8)_8': dict(init_args=dict(
                    num_channels=8, candidate_choices=widths[::-1]))}))
    net = slim_net()
    index = v.small('index', 0, len(widths) - 1)
    algo = SlimmableNetwork(copy.deepcopy(net), mutator())
    for s in algo.mutator.subnets:
        algo.mutator.set_choices(s)
        algo.architecture(torch.randn(4, 3, 8, 8))
    algo.eval()
    algo.mutator.set_choices(algo.mutator.subnets[index])
    x = torch.randn(2, 3, 8, 8)
    y = algo.architecture(x)
    v.ensure('subnets of the mutator', algo.num_subnet == len(widths))
    algo._deploy(index)
    v.ensure('is deployed', algo.is_deployed)
    v.ensure('computes the same', torch.allclose(
        algo.architecture(x), y, atol=1e-5))
    v.ensure('widths', algo.architecture.a.out_channels == widths[index] and
             algo.architecture.b.out_channels == widths[::-1][index])
    other = SlimmableNetwork(net, mutator(), deploy_index=index)
    other.load_state_dict(algo.state_dict())
    v.ensure('deployed from the start, with its weights', torch.allclose(
        other.eval().architecture(x), y, atol=1e-5))


class Pruned(nn.Module):
    """Two convolutions added up, a third, a classifier."""

    def __init__(self, n, m):
        super().__init__()
        self.a, self.an = nn.Conv2d(3, n, 1), nn.BatchNorm2d(n)
        self.b, self.bn = nn.Conv2d(n, n, 1), nn.BatchNorm2d(n)
        self.c, self.cn = nn.Conv2d(n, m, 1), nn.BatchNorm2d(m)
        self.d = nn.Linear(m, 5)

    def forward(self, x):
        x = self.an(self.a(x))
        x = x + self.bn(self.b(x))
        return self.d(self.cn(self.c(x)).mean((2, 3)))


@contract('C16', targets=[CH], samples=40, kind='bounded')
def dmcp_network(v):
    """A sample sets each unit's width; in training of the architecture each
    norm scales by the parameters of the unit its channels belong to."""
    seed = v.small('seed', 0, 10**6)
    torch.manual_seed(seed)
    random.seed(seed)
    net = Pruned(v.small('n', 2, 9), v.small('m', 2, 9))
    low, step = v.choose('range', [(.2, .2), (.5, .25), (.25, .25)])
    mut = DMCPChannelMutator(
        dict(type='DMCPChannelUnit'), dict(
            type='ChannelAnalyzer', demo_input=(1, 3, 2, 2),
            tracer_type=v.choose('tracer', ['FxTracer', 'BackwardTracer'])),
        (low, 1, step))
    mut.prepare_from_supernet(net)
    v.ensure('two units', len(mut.units) == 2)
    one = {'a': 'n', 'c': 'm'}
    mine = {}
    for i, u in enumerate(mut.units):
        names = [c.name for c in u.output_related]
        mine[one['a' if 'a' in names else 'c']] = i
    widths = dict(n=net.a.out_channels, m=net.c.out_channels)
    attr = {k: mut._arch_params_attr[str(i)] for k, i in mine.items()}
    for k, i in mine.items():
        v.ensure('as many parameters as groups', mut.arch_params[
            str(i)].shape == (attr[k][1], ))
        with torch.no_grad():
            mut.arch_params[str(i)].uniform_(-.2, 1)
    net.eval()
    x = torch.randn(2, 3, 2, 2)
    for step in range(3):
        mode = v.choose(f'mode{step}', ['max', 'min', 'random', 'direct'])
        train = v.flag(f'architecture{step}')
        mut.sample_subnet(mode, train)
        on = {k: mut.units[i].current_choice for k, i in mine.items()}
        for k, (size, groups, least) in attr.items():
            v.ensure('a width of the search space', on[k] in {
                'max': [widths[k]], 'min': [least]}.get(mode, [
                    least + g * size for g in range(groups + 1)]))
            v.ensure('known as such', mut.units[mine[
                k]].mutable_channel.activated_tensor_channels == on[k])

        def norm(bn, y, k):
            c = on[k]
            y = F.batch_norm(y, bn.running_mean[:c], bn.running_var[:c],
                             bn.weight[:c], bn.bias[:c], False, 0, bn.eps)
            size, groups, least = attr[k]
            if train and groups and c > least:
                p, out = 1., [y[:, :least]]
                for g in range((c - least) // size if size else 0):
                    p = p * torch.exp(-mut.arch_params[str(mine[k])][
                        g].clamp(min=0))
                    at = least + g * size
                    out.append(y[:, at:at + size] * p)
                y = torch.cat(out, 1)
            return y

        def conv(m, y, i, o):
            return F.conv2d(y, m.weight[:on[o], :on.get(i)], m.bias[:on[o]])
        y = norm(net.an, conv(net.a, x, 3, 'n'), 'n')
        y = y + norm(net.bn, conv(net.b, y, 'n', 'n'), 'n')
        y = norm(net.cn, conv(net.c, y, 'n', 'm'), 'm').mean((2, 3))
        y = F.linear(y, net.d.weight[:, :on['m']], net.d.bias)
        v.ensure('computes with its channels', torch.allclose(
            net(x), y, atol=1e-4))
