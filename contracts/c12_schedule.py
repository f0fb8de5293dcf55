"""C12: pruning follows its schedule down to its target."""
import torch
import torch.nn as nn
from mmengine import MessageHub
from mmengine.model import BaseModel

from contracts.c01_channels import modular as divisible
from contracts.c07_pruning import Layer
from mmrazor.implementations.pruning.group_fisher import (
    GroupFisherChannelUnit, GroupFisherConv2d)
from mmrazor.implementations.pruning.group_fisher.ops import GroupFisherLinear
from mmrazor.models.algorithms.pruning.ite_prune_algorithm import \
    ItePruneConfigManager
from mmrazor.models.mutables.mutable_channel.units.channel_unit import \
    Channel
from mmrazor.registry import MODELS
from pyvc.harness import contract

N = 2**18
ITE = 'mmrazor/models/algorithms/pruning/ite_prune_algorithm.py'
DCF = 'mmrazor/models/algorithms/pruning/dcff.py'
GF = 'mmrazor/implementations/pruning/group_fisher/'
CM = 'mmrazor/models/mutators/channel_mutator/channel_mutator.py'
ALGO = [ITE, CM] + ['mmrazor/models/mutables/mutable_channel/' + k for k in (
    'units/channel_unit.py', 'units/mutable_channel_unit.py',
    'units/sequential_mutable_channel_unit.py',
    'sequential_mutable_channel.py', 'mutable_channel_container.py')]
EPS = 1e-9
M = 2**16


def hub(**kw):
    h = MessageHub.get_current_instance()
    h.runtime_info.clear()
    h.runtime_info.update(kw)
    return h.runtime_info


# -------------------------------------------------------------- the schedule

@contract('C12', targets=[ITE], samples=400)
def times(v):
    """Pruning happens at the first `times` multiples of the frequency."""
    f = v.int('freq', 1, N, chi=6)
    n = v.int('times', 0, N, chi=6)
    k = v.int('k', 0, N, chi=8)
    r = v.int('r', 0, N, chi=6)
    v.assume(r < f)
    m = ItePruneConfigManager({}, {}, f, n)
    got = m.is_prune_time(k * f + r)
    v.ensure('at the multiples', got == v.all_of(r == 0, k < n))


def floor_line(v, g, s, t, k, n):
    """g is the whole number at or below the line from s to t"""
    return v.all_of(g * n <= s * n - (s - t) * k,
                    s * n - (s - t) * k < (g + 1) * n)


def widths(v, kind):
    if kind == 'number':
        s, t = v.int('from', 1, M, chi=70), v.int('to', 1, M, chi=70)
    else:
        s, t = v.float('from', 0, 1), v.float('to', 0, 1)
    v.assume(t <= s)
    return s, t


def step(v, s, t):
    f = v.int('freq', 1, N, chi=6)
    n = v.int('times', 1, M, chi=30)
    k = v.int('k', 0, M, chi=30)
    v.assume(k < n)
    m = ItePruneConfigManager({'u': t, 'w': 7}, {'u': s, 'w': 7, 'x': 9},
                              f, n)
    got = m.prune_at(k * f)
    v.ensure('the targeted units', sorted(got) == ['u', 'w'])
    v.ensure('others as they are', got['w'] == 7)
    return got['u'], k + 1, n


@contract('C12', targets=[ITE], samples=600)
def linear(v):
    """Equal steps from the supernet to the target, ending exactly there."""
    v.whole_quotients()
    s, t = widths(v, 'number')
    g, k, n = step(v, s, t)
    v.ensure('a number of channels', isinstance(g, int))
    v.ensure('not beyond the target', g >= t)
    v.ensure('not above the supernet', g <= s)
    v.ensure('on the line', floor_line(v, g, s, t, k, n))
    v.ensure('the target in the end', v.implies(k == n, g == t))


@contract('C12', targets=[ITE], samples=600)
def linear_ratio(v):
    s, t = widths(v, 'ratio')
    g, k, n = step(v, s, t)
    d = (t - s) * k
    v.ensure('a part of the way', v.all_of(d <= 0, d >= (t - s) * n))
    d = d / n
    v.ensure('k of n parts', v.all_of(d <= 0, d >= (t - s) - EPS))
    v.ensure('all of it', v.implies(k == n, d <= (t - s) + EPS))
    v.ensure('not above the supernet', g <= s + EPS)
    v.ensure('not beyond the target', g >= t - 2 * EPS)
    v.ensure('on the line', v.all_of(g - s - d <= EPS, d - (g - s) <= EPS))
    v.ensure('the target in the end', v.implies(
        k == n, v.all_of(g - t <= 3 * EPS, t - g <= 3 * EPS)))


@contract('C12', targets=[ITE], samples=200)
def at_once(v):
    """Without the linear schedule the target holds from the first time."""
    s, t = widths(v, v.choose('kind', ['number', 'ratio']))
    f = v.int('freq', 1, N, chi=6)
    n = v.int('times', 1, N, chi=6)
    i = v.int('i', 0, N, chi=30)
    m = ItePruneConfigManager({'u': t}, {'u': s}, f, n,
                              linear_schedule=False)
    if m.is_prune_time(i):
        v.ensure('the target', m.prune_at(i)['u'] == t)


@contract('C12', targets=[ITE], samples=200)
def after(v):
    f = v.int('freq', 1, N, chi=6)
    n = v.int('times', 1, N, chi=6)
    i = v.int('i', 0, N, chi=60)
    v.assume(i >= n * f)
    m = ItePruneConfigManager({'u': 1}, {'u': 9}, f, n)
    v.ensure('no further pruning', not m.is_prune_time(i))
    v.ensure('refused', v.raises(m.prune_at, i, exc=AssertionError))


# -------------------------------------------------------------- the algorithm

def prune_at_summary(f, args, kw):
    """prune_at for callers: what `linear` and `after` establish.  The result
    depends on the arguments alone."""
    import z3

    from pyvc import engine, sym
    man, i = args
    ss = engine.CUR
    parts = [man.target, man.supernet]
    if kw or not man.linear_schedule or not all(
            isinstance(d[k], (int, sym.SInt)) and
            not isinstance(d[k], bool) for d in parts for k in man.target):
        return NotImplemented
    i, fr, n = (sym.to_int(x) if sym.is_intlike(x) else
                sym.int_expr(sym.to_real(x)[0])
                for x in (i, man.step_freq, man.prune_times))
    if i is None or fr is None or n is None:
        return NotImplemented
    ss.oblige('prune_at precondition', z3.And(
        fr >= 1, n >= 1, i >= 0, sym.fdivmod(i, fr)[0] < n), 'pre')
    out = {}
    for k in man.target:
        t, s = (z3.simplify(sym.to_int(d[k])) for d in parts)
        if ss._check([z3.Not(z3.And(t >= 1, t <= s, s <= M))]) != z3.unsat:
            return NotImplemented

        def make():
            g = ss.fresh('pruned', z3.IntSort())
            ss.define(z3.And(t <= g, g <= s))
            return sym.mk_int(g)
        out[k] = ss.memo(('prune_at', t, s, z3.simplify(fr, som=True), n,
                          z3.simplify(i, som=True)), make)
    return out


def modular():
    return {ItePruneConfigManager.prune_at: prune_at_summary,
            **divisible()}


class Arch(BaseModel):
    """Two units of W channels that can be pruned and one that cannot (its
    output is not taken); notes the structure a batch is seen with."""

    def __init__(self, v, W):
        super().__init__()
        self.a, self.b = Layer(3, W), Layer(W, W)
        self.c = Layer(W, 5)
        self.seen = []
        self.count = v.mask_count

    def forward(self, inputs, data_samples=None, mode='tensor'):
        self.seen.append((inputs, mode, self.widths()))
        return dict(loss=inputs)

    def widths(self):
        return [self.count(m.get_mutable_attr(k + '_channels').current_mask)
                for m, k in ((self.a, 'out'), (self.b, 'in'),
                             (self.b, 'out'), (self.c, 'in'))]


def chan(name, n, out):
    return dict(name=name, start=0, end=n, is_output_channel=out)


def mutator(W, mode='number', type='ChannelMutator',
            unit='SequentialMutableChannelUnit'):
    return dict(
        type=type, parse_cfg=dict(type='Config'),
        channel_unit_cfg=dict(
            type=unit, default_args=dict(choice_mode=mode), units={
                'ab': dict(init_args=dict(num_channels=W), channels=dict(
                    output_related=[chan('a', W, True)],
                    input_related=[chan('b', W, False)])),
                'bc': dict(init_args=dict(num_channels=W), channels=dict(
                    output_related=[chan('b', W, True)],
                    input_related=[chan('c', W, False)])),
                'c': dict(init_args=dict(num_channels=5), channels=dict(
                    output_related=[chan('c', 5, True)],
                    input_related=[]))}))


def algorithm(v, W, target, mode='number', cls='ItePruneAlgorithm', **kw):
    return MODELS.build(dict(
        type=cls, architecture=Arch(v, W), mutator_cfg=mutator(W, mode),
        target_pruning_ratio=target, **kw))


@contract('C12', targets=ALGO, samples=300, modular=modular)
def training(v):
    """A training step at any iteration prunes exactly when it is due, before
    the batch is seen, to what the schedule says; nothing else prunes."""
    by_epoch = v.flag('by_epoch')
    # (one epoch counts in iterations)
    epochs = v.int('epochs', 2, 2**9, chi=5) if by_epoch else 1
    per = v.int('iters of an epoch', 1, 2**9, chi=5)
    f = v.int('freq', 1, 2**9, chi=4)
    n = v.int('times', 1, M, chi=4)
    W = v.int('W', 2, M, chi=64)
    t, t2 = v.int('target', 1, M, chi=64), v.int('target2', 1, M, chi=64)
    v.assume(t <= W)
    v.assume(t2 <= W)
    two = v.flag('two units, one step')
    algo = algorithm(v, W, dict(ab=t, bc=t2) if two else dict(ab=t),
                     step_freq=f, prune_times=n)
    info = hub(max_epochs=epochs, max_iters=epochs * per, epoch=0)
    step = f * per if by_epoch else f
    arch = algo.architecture
    plan = ItePruneConfigManager(dict(ab=t, bc=t2), dict(ab=W, bc=W), step, n)
    first = True
    for name in 'k' if two else 'kj':
        k = v.int(name, 0, M, chi=6)
        kind = v.choose(name + 'when', [
            'due', 'late', 'between'] if first else ['due'])
        info['iter'] = i = k * step
        if kind == 'due':
            v.assume(k < n)
        elif kind == 'late':
            v.assume(k >= n)
        else:
            r = v.int(name + 'r', 1, M, chi=9)
            v.assume(r < step)
            info['iter'] = i + r
        old = [W] * 4 if first else arch.seen[-1][2]
        first = False
        want = old
        if kind == 'due':
            p = plan.prune_at(i)
            want = [p['ab']] * 2 + ([p['bc']] * 2 if two else old[2:])
        out = algo('batch', None, 'loss')
        x, mode, w = arch.seen[-1]
        v.ensure('the batch itself', x == 'batch' and mode == 'loss' and
                 out == dict(loss='batch'))
        for a, b in zip(w, want):
            v.ensure('exactly when due, to what the schedule says', a == b)


@contract('C12', targets=ALGO, kind='bounded', samples=150)
def whole_runs(v):
    """Complete runs, by ratio or number, also interrupted and resumed."""
    W = 64
    mode = v.choose('mode', ['number', 'ratio'])
    lin = v.flag('linear')
    per, f, n = v.small('per', 1, 3), v.small('f', 1, 3), v.small('n', 1, 5)
    epochs = v.small('epochs', 2, 5)
    t = v.int('t', 1, W)
    kw = dict(step_freq=f, prune_times=n, linear_schedule=lin, mode=mode)
    target = dict(ab=t if mode == 'number' else t / W)
    algo = algorithm(v, W, target, **kw)
    algo.train()
    info = hub(max_epochs=epochs, max_iters=epochs * per)
    want = W
    stop = v.small('stop', 0, 15)
    resumed = False
    for i in range(epochs * per):
        info.update(iter=i, epoch=i // per)
        if i == stop:
            state = algo.state_dict()
            algo = algorithm(v, W, target, **kw)
            algo.load_state_dict(state)
            algo.train()
            resumed = True
        algo('x', None, 'loss')
        w = algo.architecture.seen[-1][2]
        if i % (f * per) == 0 and i // (f * per) < n:
            k = i // (f * per) + 1
            want = W - (W - t) * k / n if lin else t
            if k == n:
                v.ensure('ends at the target', w[0] == t, f'{w[0]} {t}')
            elif resumed and lin:
                want = w[0]
        v.ensure('never below the target', w[0] >= t)
        v.ensure('at the structure of the schedule', w[0] == int(want + EPS),
                 f'{i}: {w[0]} {want}')
        v.ensure('other units stay', w[2:] == [W, W])


def resume(v, between):
    """A resumed run beside the uninterrupted one."""
    f, n = v.small('f', 1, 3), v.small('n', 1, 5)
    t = v.int('t', 1, 64)
    stop = v.small('stop', 1, 15)
    v.assume((stop <= (n - 1) * f) == between)
    kw = dict(step_freq=f, prune_times=n)
    algo, other = (algorithm(v, 64, dict(ab=t), **kw) for _ in range(2))
    info = hub(max_epochs=1, max_iters=20)
    for i in range(20):
        info.update(iter=i, epoch=0)
        if i == stop:
            state = other.state_dict()
            other = algorithm(v, 64, dict(ab=t), **kw)
            other.load_state_dict(state)
        for a in (algo, other):
            a.train()
            a('x', None, 'loss')
        got, want = (a.architecture.seen[-1][2] for a in (other, algo))
        if i >= (n - 1) * f:
            v.ensure('the target in the end', got[0] == t)
            v.ensure('the structure in the end', got == want)
        yield i, stop, got, want


@contract('C12', targets=ALGO, kind='bounded', samples=60)
def resumed(v):
    """A run resumed after its last pruning keeps its structure."""
    for i, stop, got, want in resume(v, False):
        v.ensure('the same structure', got == want)


@contract('C12', targets=ALGO, kind='bounded', samples=60)
def resumed_between(v):
    """A run resumed between two prunings ends at its target; on the way its
    structures are those of the uninterrupted run (a recorded finding)."""
    runs = list(resume(v, True))
    for i, stop, got, want in runs:
        v.ensure('never wider again', i == 0 or got[0] <= runs[i - 1][2][0])
        v.ensure('as before the resume', i >= stop or got == want)
    for i, stop, got, want in runs:
        v.ensure('the same structure', got == want)


@contract('C12', targets=ALGO, samples=60)
def targets_of(v):
    """Only units there are get a target; without any the structure stays."""
    W = v.int('W', 1, M, chi=64)
    t = v.int('t', 1, M, chi=64)
    v.assume(t <= W)
    known, given = v.flag('known'), v.flag('given')
    algo = algorithm(v, W, dict(other=5, **(dict(ab=t) if known else {}),
                                c=1) if given else None)
    hub(max_epochs=1, max_iters=10, iter=0, epoch=0)
    # (evaluation never prunes)
    algo.train(False)
    algo('x', None, 'predict')
    v.ensure('not in evaluation', v.all_of(*[
        w == W for w in algo.architecture.seen[-1][2]]))
    algo.train()
    algo('x', None, 'loss')
    w = algo.architecture.seen[-1][2]
    v.ensure('its own target', w[0] == (t if given and known else W))
    v.ensure('others stay', w[2] == W)


# ----------------------------------------------------------------------- DCFF

@contract('C12', targets=[DCF, ITE], samples=300)
def dcff_times(v):
    """Pruning is spread over the whole training: exactly one of frequency
    and number of times is given, the other follows."""
    epochs = v.int('epochs', 1, N, chi=5)
    per = v.int('per', 1, N, chi=9)
    total = epochs * per
    f = v.int('freq', 0, N, chi=9)
    n = v.int('times', 0, N, chi=9)
    t = v.int('target', 1, 64)
    algo = algorithm(v, 64, dict(ab=t), cls='DCFF', step_freq=f,
                     prune_times=n)
    hub(max_epochs=epochs, max_iters=total, iter=0, epoch=0)
    step = f if epochs == 1 else f * per
    legal_f = v.all_of(0 < step, step < total)
    legal_n = v.all_of(0 < n, n < total)
    try:
        man = algo._init_prune_config_manager()
        ok = True
    except RuntimeError:
        ok = False
    v.ensure('exactly one of them', ok == v.any_of(
        v.all_of(legal_f, v.no(legal_n)), v.all_of(legal_n, v.no(legal_f))))
    if ok:
        if legal_f:
            v.ensure('frequency as given', man.step_freq == step)
            v.ensure('as often as fits', v.all_of(
                man.prune_times * step <= total,
                total < (man.prune_times + 1) * step))
        else:
            v.ensure('times as given', man.prune_times == n)
            v.ensure('as far apart as fits', v.all_of(
                man.step_freq * n <= total,
                total < (man.step_freq + 1) * n))
        v.ensure('prunes from the start', man.is_prune_time(0))
        v.ensure('to the target', man.prune_at(0)['ab'] == t)


# --------------------------------------------------------------- group fisher

class Kept(nn.Module):

    def __init__(self, mask):
        super().__init__()
        self.current_mask = mask


@contract('C12', targets=[GF + 'ops.py', GF + 'unit.py'], samples=200)
def saved_by_a_channel(v):
    """What one channel of a unit costs, as importance is divided by it: the
    operations its producers spend on it and its consumers take from it, at
    every call; its memory is what its producers put out."""
    n = v.int('n', 1, M, chi=9)
    ins, outs, kept = {}, {}, {}
    ops, mem = 0, 0
    unit = GroupFisherChannelUnit(4)
    for name, out in (('a', True), ('b', False), ('c', False)):
        kind = v.choose(name, ['conv', 'depthwise', 'linear'] if name == 'b'
                        else ['conv', 'linear'])
        i, o = v.int(name + 'i', 1, M, chi=9), v.int(name + 'o', 1, M, chi=9)
        kh, kw = v.int(name + 'kh', 1, 9), v.int(name + 'kw', 1, 9)
        if kind == 'linear':
            m = GroupFisherLinear(2, 2)
        else:
            m = GroupFisherConv2d(2, 2, 1, groups=1)
            if kind == 'depthwise':
                m.groups = m.in_channels = m.out_channels = 4
            m.kernel_size = (kh, kw)
        mi, mo = v.mask(name + 'in', i), v.mask(name + 'out', o)
        m.mutable_attrs = nn.ModuleDict(dict(in_channels=Kept(mi),
                                             out_channels=Kept(mo)))
        ci, co = v.mask_count(mi), v.mask_count(mo)
        for k in range(v.small(name + 'calls', 0, 2)
                       if name == 'a' else 1):
            h, w = v.int(f'{name}{k}h', 1, M, chi=9), v.int(
                f'{name}{k}w', 1, M, chi=9)
            m.recorded_out_shape.append(
                (7, co) if kind == 'linear' else (7, co, h, w))
            one = 1 if kind == 'linear' else h * w
            if kind == 'linear':
                ops += ci if out else co
            else:
                ops += h * w * kh * kw * (1 if kind == 'depthwise' else
                                          ci if out else co)
            mem += one if out else 0
        (unit.add_output_related if out else unit.add_input_related)(
            Channel(name, m, (0, 4), is_output_channel=out))
    v.ensure('operations', float(unit._delta_flop_of_a_channel) == ops)
    v.ensure('memory', unit._delta_memory_of_a_channel == mem)


class Body(BaseModel):

    def __init__(self, n):
        super().__init__()
        self.a = nn.Conv2d(1, n, 1)
        self.b = nn.Conv2d(n, n, 1)
        self.c = nn.Conv2d(n, 1, 1)
        self.log = []

    def forward(self, inputs, data_samples=None, mode='tensor'):
        y = self.c(self.b(self.a(inputs)).relu())
        self.log.append(mode)
        return dict(loss=y.mean()) if mode == 'loss' else y


def fisher(n, **kw):
    return MODELS.build(dict(
        type='GroupFisherAlgorithm', architecture=Body(n), mutator=dict(
            type='GroupFisherChannelMutator', parse_cfg=dict(
                type='ChannelAnalyzer', demo_input=(1, 1, 2, 2),
                tracer_type='BackwardTracer')), **kw))


@contract('C12', targets=[GF + 'mutator.py', GF + 'unit.py'],
          kind='bounded', samples=80)
def least_important(v):
    """Of all channels that may go the least important one goes, alone."""
    n = v.small('n', 1, 4)
    algo = fisher(n)
    units = algo.mutator.mutable_units
    v.ensure('two units', len(units) == 2)
    scale = v.choose('scale', [1., 1e-6, 1e9, 1e18])
    equal = v.choose('equal', [False, True])
    for step in range(v.small('steps', 1, 8)):
        left = []
        for u in units:
            imp = torch.tensor([v.float('imp', 0, 10) * scale
                                for _ in range(n)], dtype=torch.float64)
            if equal:
                imp = torch.full((n, ), 3. * scale, dtype=torch.float64)
            u.normalized_fisher_info = imp
            m = u.mutable_channel.current_mask
            if m.sum() > 1:
                left += [(imp[i].item(), u.name, i) for i in range(n) if m[i]]
        before = {u.name: u.mutable_channel.current_mask.clone()
                  for u in units}
        algo.mutator.try_prune()
        gone = [(u.name, i) for u in units for i in range(n)
                if before[u.name][i] != u.mutable_channel.current_mask[i]]
        v.ensure('one channel, if any may go', len(gone) == min(
            1, len(left)), str(gone))
        for x in gone:
            v.ensure('a channel that was there', before[x[0]][x[1]])
            v.ensure('the least important', any(
                y[1:] == x and y[0] <= min(left)[0] for y in left),
                f'{x} {left}')
        for u in units:
            v.ensure('never the last one',
                     u.mutable_channel.current_mask.any())


@contract('C12', targets=[GF + k for k in ('algorithm.py', 'mutator.py',
                                           'unit.py', 'ops.py')],
          kind='bounded', samples=40)
def fisher_steps(v):
    """Every `interval` steps one channel; its importance is what all steps
    since the last time add up to; nothing is left recorded."""
    from mmengine.optim import OptimWrapper
    n = v.small('n', 2, 4)
    k = v.small('interval', 1, 4)
    norm = v.choose('norm', ['flops', 'act', 'none'])
    algo = fisher(n, interval=k)
    for u in algo.mutator.mutable_units:
        u.delta_type = norm
    opt = OptimWrapper(torch.optim.SGD(algo.parameters(), lr=.0))
    first = v.small('first', 0, 5)
    units = algo.mutator.mutable_units
    real = algo.mutator.try_prune
    total = [torch.zeros(n, dtype=torch.float64) for _ in units]
    done = []

    def spy():
        done.append(1)
        for u, t in zip(units, total):
            v.ensure('importance adds up', torch.allclose(
                u.normalized_fisher_info, t, rtol=1e-4),
                f'{u.normalized_fisher_info} {t}')
            t.zero_()
        real()
    algo.mutator.try_prune = spy
    for i in range(first, first + 6):
        hub(iter=i, max_iters=20)
        x = torch.rand(2, 1, 2, 2) + .1
        net = algo.architecture
        # the same, worked out by hand
        masks = [u.mutable_channel.current_mask.clone() for u in units]
        algo.eval()
        h1 = net.a(x).detach().requires_grad_()
        h2 = net.b(h1)
        h3 = h2.relu()
        h3r = h3
        g1, g3 = torch.autograd.grad(net.c(h3r).mean(), [h1, h3])
        algo.train()
        for t, m, h, g, u in ((total[0], masks[0], h1, g1, units[0]),
                              (total[1], masks[1], h3, g3, units[1])):
            f = ((h * g).sum([2, 3]).detach()**2).sum(0).double()
            ca, cb = int(masks[0].sum()), int(masks[1].sum())
            hw = 4
            flops = hw * (1 + cb) if u is units[0] else hw * (ca + 1)
            f = f / dict(flops=flops / 1e9, act=hw / 1e6, none=1)[norm]
            t[m] += f
        algo.train_step(dict(inputs=x, data_samples=None), opt)
        left = [m.sum() for m in masks]
        gone = sum(int(a - u.mutable_channel.current_mask.sum())
                   for a, u in zip(left, units))
        v.ensure('at the interval', gone == int(
            i % k == 0 and any(a > 1 for a in left)))
        for m in (net.a, net.b, net.c):
            v.ensure('nothing left recorded', not (
                m.recorded_input or m.recorded_grad or m.recorded_out_shape
                or m.handlers))
    v.ensure('as often as due', len(done) == len(
        [i for i in range(first, first + 6) if i % k == 0]))


class Summed(BaseModel):
    """A sum, a concatenation, batch norms, and layers read twice."""

    def __init__(self, n, m, kind):
        super().__init__()
        self.kind = kind
        self.a = nn.Conv2d(3, n, 3, padding=1)
        self.na = nn.BatchNorm2d(n)
        if kind == 'sum':
            self.b = nn.Conv2d(3, n, 1)
        elif kind == 'depthwise':
            self.b = nn.Conv2d(n, n, 3, padding=1, groups=n)
        elif kind == 'cat':
            self.b = nn.Conv2d(3, m, 1)
            self.nb = nn.BatchNorm2d(n + m)
        self.c = nn.Linear(n + m if kind == 'cat' else n, m)
        self.d = nn.Linear(m, 2)

    def forward(self, inputs, data_samples=None, mode='tensor'):
        x = inputs
        y = self.na(self.a(x))
        if self.kind == 'sum':
            y = y + self.b(x)
        elif self.kind == 'depthwise':
            y = self.b(y)
        elif self.kind == 'cat':
            y = self.nb(torch.cat([y, self.b(x)], 1))
        return self.d(self.c(y.mean([2, 3])))


L1 = 'mmrazor/models/mutables/mutable_channel/units/' \
    'l1_mutable_channel_unit.py'


@contract('C12', targets=[L1], kind='bounded', samples=150)
def largest_kept(v):
    """The channels that stay are those whose weights are largest, over all
    the layers that produce them and over nothing else."""
    n, m = v.small('n', 2, 5), v.small('m', 2, 4)
    kind = v.choose('kind', ['plain', 'sum', 'depthwise', 'cat'])
    mode = v.choose('mode', ['number', 'ratio'])
    net = Summed(n, m, kind)
    for x in net.parameters():
        x.data = torch.tensor([v.float('w', -9, 9) for _ in range(
            x.numel())]).reshape(x.shape)
    mut = MODELS.build(dict(
        type='ChannelMutator', channel_unit_cfg=dict(
            type='L1MutableChannelUnit', default_args=dict(
                choice_mode=mode)), parse_cfg=dict(
            type='ChannelAnalyzer', demo_input=(1, 3, 4, 4))))
    mut.prepare_from_supernet(net)
    # who produces which channels
    groups = [[net.c]]
    groups += ([[net.a]] if kind == 'plain' else [[net.a], [net.b]]
               if kind == 'cat' else [[net.a, net.b]])
    v.ensure('the units', len(mut.mutable_units) == len(groups))
    for again in range(2):
        for u in mut.mutable_units:
            mine = [c.module for c in u.output_related]
            g = [g for g in groups if any(x is y for x in g for y in mine)]
            v.ensure('one group', len(g) == 1)
            g, size = g[0], u.num_channels
            k = v.small('k', 1, size)
            u.current_choice = k if mode == 'number' else k / size
            norm = sum(x.weight.detach().double().abs().flatten(1).mean(1)
                       for x in g) / len(g)
            mask = u.mutable_channel.current_mask
            v.ensure('as many as chosen', int(mask.sum()) == k)
            v.ensure('reported', abs(u.current_choice - (
                k if mode == 'number' else k / size)) < 1e-6)
            if k < size:
                v.ensure('the largest', norm[mask].min() >= norm[
                    ~mask].max() - 1e-5, f'{norm} {mask}')
            for x in g:
                v.ensure('in every layer', torch.equal(
                    x.get_mutable_attr('out_channels').current_mask.bool(),
                    mask.bool()))
