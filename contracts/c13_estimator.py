"""C13: the estimator reports what the network costs."""
import copy
import sys
from types import SimpleNamespace as NS

import torch
import torch.nn as nn

from mmrazor.models import ResourceEstimator
from mmrazor.models.architectures.dynamic_ops import (DynamicConv2d,
                                                      DynamicLinear)
from mmrazor.models.mutables import (MutableChannelContainer,
                                     SquentialMutableChannel)
from mmrazor.models.task_modules.estimators.counters import \
    flops_params_counter as FC
from mmrazor.registry import TASK_UTILS
from pyvc.harness import contract

D = 'mmrazor/models/task_modules/estimators/'
CONV = D + 'counters/op_counters/conv_layer_counter.py'
DECONV = D + 'counters/op_counters/deconv_layer_counter.py'
OPS = [D + f'counters/op_counters/{k}_layer_counter.py'
       for k in ('activation', 'linear', 'norm', 'pooling', 'upsample')]
COUNT = D + 'counters/flops_params_counter.py'
EST = D + 'resource_estimator.py'
BIG = 2**16


def counter(name):
    return TASK_UTILS.get(name + 'Counter')


def product(xs):
    r = 1
    for x in xs:
        r = r * x
    return r


def dims(v, name, k):
    return tuple(v.int(f'{name}{i}', 1, BIG, chi=9) for i in range(k))


class Shaped:
    """A tensor of which only the shape is looked at."""

    def __init__(self, *shape):
        self.shape = tuple(shape)

    def numel(self):
        return product(self.shape)

    def size(self, i=None):
        return self.shape if i is None else self.shape[i]

    def dim(self):
        return len(self.shape)

    def __len__(self):
        return self.shape[0]

    def __getitem__(self, i):
        assert isinstance(i, int)
        return Shaped(*self.shape[1:])


class Op:
    """A module of which only the attributes are looked at."""

    def __init__(self, params=(), **k):
        self.__flops__ = 0
        self.__params__ = 0
        self._ps = [NS(numel=lambda n=n: n, requires_grad=True)
                    for n in params]
        self.__dict__.update(k)

    def parameters(self):
        return iter(self._ps)


def run_counter(v, name, op, x, y, calls=1):
    for _ in range(calls):
        counter(name).add_count_hook(op, (x, ), y)
    return op.__flops__, op.__params__


def grouped(v):
    """in and out channels with a number of groups dividing both"""
    g = v.choose('groups', ['one', 'some'])
    g = 1 if g == 'one' else v.int('g', 2, BIG, chi=5)
    ipg, opg = v.int('in/g', 1, BIG, chi=9), v.int('out/g', 1, BIG, chi=9)
    return g, ipg, opg


@contract('C13', targets=[CONV], samples=150)
def convolution(v):
    """k * in/g * out products per position, out additions for the bias."""
    nd = v.small('nd', 1, 3)
    g, ipg, opg = grouped(v)
    k, pos = dims(v, 'k', nd), dims(v, 'o', nd)
    b = v.int('batch', 1, BIG, chi=5)
    bias = v.flag('bias')
    calls = v.small('calls', 1, 2)
    op = Op(kernel_size=k, in_channels=g * ipg, out_channels=g * opg,
            groups=g, bias=object() if bias else None)
    fl, pa = run_counter(
        v, f'Conv{nd}d', op, Shaped(b, g * ipg, *dims(v, 'i', nd)),
        Shaped(b, g * opg, *pos), calls)
    per = product(k) * ipg * g * opg
    extra = g * opg if bias else 0
    v.ensure('flops', fl == (per + extra) * b * product(pos) * calls)
    v.ensure('params', pa == per + extra)


class Channels:
    """The mutable of one side of an op."""

    def __init__(self, n, inner=()):
        self.activated_channels = n
        self.mutable_channels = dict(enumerate(inner))


@contract('C13', targets=[CONV], samples=150)
def dynamic_convolution(v):
    """Counts as the convolution left when the inactive channels are gone."""
    kind = v.choose('kind', ['plain', 'depthwise', 'grouped'])
    n_in, n_out = v.int('in', 1, BIG, chi=9), v.int('out', 1, BIG, chi=9)
    g, attrs = 1, {}
    if kind == 'plain':
        single = v.flag('one channel in and out')
        if single:
            n_in = n_out = 1
        else:
            v.assume(v.any_of(n_in != 1, n_out != 1))
        a_in, a_out = n_in, n_out
        if v.flag('mutable in'):
            if not single:
                a_in = v.int('active in', 1, BIG, chi=9)
                v.assume(a_in <= n_in)
            attrs['in_channels'] = Channels(a_in)
        if v.flag('mutable out'):
            if not single:
                a_out = v.int('active out', 1, BIG, chi=9)
                v.assume(a_out <= n_out)
            attrs['out_channels'] = Channels(a_out)
        ipg, opg, ag = a_in, a_out, 1
    elif kind == 'depthwise':
        v.assume(n_in >= 2)
        n_out = g = n_in
        ag = v.int('active', 1, BIG, chi=9)
        v.assume(ag <= n_in)
        attrs = dict(in_channels=Channels(ag), out_channels=Channels(ag))
        ipg = opg = 1
    else:
        g = ag = v.int('g', 2, 64, chi=4)
        n_in, n_out = g * n_in, g * (n_out + 1)
        ipg, opg = (v.int('active in/g', 1, BIG, chi=9),
                    v.int('active out/g', 1, BIG, chi=9))
        v.assume(v.all_of(ipg * g <= n_in, opg * g <= n_out))
        v.assume(n_in != n_out)
        attrs = dict(in_channels=Channels(ipg * g),
                     out_channels=Channels(opg * g))
    k, pos = dims(v, 'k', 2), dims(v, 'o', 2)
    b = v.int('batch', 1, BIG, chi=5)
    bias = v.flag('bias')
    op = Op(kernel_size=k, in_channels=n_in, out_channels=n_out, groups=g,
            bias=object() if bias else None, mutable_attrs=attrs)
    fl, pa = run_counter(v, 'DynamicConv2d', op, Shaped(b, ag * ipg, 1, 1),
                         Shaped(b, ag * opg, *pos))
    per = product(k) * ipg * ag * opg
    extra = ag * opg if bias else 0
    v.ensure('flops', fl == (per + extra) * b * product(pos))
    v.ensure('params', pa == per + extra)


@contract('C13', targets=[DECONV], samples=150)
def transposed_convolution(v):
    g, ipg, opg = grouped(v)
    k, i, o = dims(v, 'k', 2), dims(v, 'i', 2), dims(v, 'o', 2)
    b = v.int('batch', 1, BIG, chi=5)
    bias = v.flag('bias')
    w = g * ipg * opg * product(k)
    op = Op([w] + ([g * opg] if bias else []), kernel_size=k,
            in_channels=g * ipg, out_channels=g * opg, groups=g,
            bias=object() if bias else None)
    fl, pa = run_counter(v, 'ConvTranspose2d', op, Shaped(b, g * ipg, *i),
                         Shaped(b, g * opg, *o))
    extra = g * opg if bias else 0
    v.ensure('flops', fl == b * (w * product(i) + extra * product(o)))
    v.ensure('params', pa == w + extra)


ELEM = (['BatchNorm1d', 'BatchNorm2d', 'BatchNorm3d', 'InstanceNorm1d',
         'InstanceNorm2d', 'InstanceNorm3d', 'LayerNorm', 'GroupNorm'],
        ['MaxPool1d', 'MaxPool2d', 'MaxPool3d', 'AvgPool1d', 'AvgPool2d',
         'AvgPool3d', 'AdaptiveMaxPool1d', 'AdaptiveMaxPool2d',
         'AdaptiveMaxPool3d', 'AdaptiveAvgPool1d', 'AdaptiveAvgPool2d',
         'AdaptiveAvgPool3d'],
        ['ReLU', 'PReLU', 'ELU', 'LeakyReLU', 'ReLU6'], ['Upsample'],
        ['Linear', 'DynamicLinear'])


@contract('C13', targets=OPS, samples=150)
def other_operations(v):
    """One flop per element read (norms, pooling; two with a scale and
    shift) or written (activations, upsampling); in*out per row (linear)."""
    group = v.choose('group', range(len(ELEM)))
    name = v.choose('op', ELEM[group])
    rank = v.small('rank', 2, 4)
    x, y = dims(v, 'x', rank), dims(v, 'y', rank)
    affine = v.choose('affine', [None, False, True])
    ps = [v.int(f'p{i}', 1, BIG, chi=9) for i in range(v.small('np', 0, 2))]
    op = Op(ps, **({} if affine is None else dict(affine=affine)))
    calls = v.small('calls', 1, 2)
    fl, pa = run_counter(v, name, op, Shaped(*x), Shaped(*y), calls)
    want = [product(x) * (2 if affine else 1), product(x), product(y),
            product(y), product(x) * y[-1]][group]
    v.ensure('flops', fl == want * calls)
    v.ensure('params', pa == sum(ps))


# ------------------------------------------------------------- summing up

class Leaf(nn.ReLU):
    """A supported operation (counted as its base class)."""


def tree(v, depth, leaves, path=''):
    """A random module tree of supported leaves and unsupported modules."""
    kids = v.small(f'kids{path}', 0, 3 if depth else 0)
    if depth == 0 or kids == 0:
        if v.flag(f'supported{path}'):
            m = v.choose(f'type{path}', [nn.ReLU, Leaf])()
            leaves.append(m)
            return m
        return nn.Identity()
    m = nn.Module()
    for i in range(kids):
        setattr(m, f'c{i}', tree(v, depth - 1, leaves, f'{path}{i}'))
    return m


def counted(v, shape):
    """A tree with arbitrary counts on its supported leaves."""
    leaves = []
    if shape == 'chain':
        model = nn.Sequential(nn.Sequential(nn.ReLU(), nn.Identity()),
                              nn.Sequential(nn.Sequential(nn.PReLU()),
                                            nn.Linear(1, 1)))
        leaves = [model[0][0], model[1][0][0], model[1][1]]
    elif shape == 'leaf':
        model = Leaf()
        leaves = [model]
    elif shape == 'empty':
        model = nn.Sequential(nn.Identity())
    else:
        leaves = []
        model = nn.Module()
        for i in range(2):
            setattr(model, f'm{i}', tree(v, 1, leaves, f'{i}'))
    b = v.int('images', 1, BIG, chi=5)
    model.__batch_counter__ = b
    for i, m in enumerate(leaves):
        m.__flops__ = b * v.int(f'flops{i}', 0, 2**40, chi=10**7)
        m.__params__ = v.int(f'params{i}', 0, 2**40, chi=10**7)
    return model, leaves, b


def below(module, leaves):
    return [m for m in module.modules() if any(m is x for x in leaves)]


@contract('C13', targets=[COUNT], samples=100)
def total(v):
    """The total is the sum over the supported operations, per image."""
    shape = v.choose('shape', ['chain', 'leaf', 'empty', 'tree'])
    model, leaves, b = counted(v, shape)
    want = [m.__flops__ for m in leaves]
    fl, pa = FC.compute_average_flops_params_cost(model)
    v.ensure('flops', fl * b == sum(want))
    v.ensure('params', pa == sum(m.__params__ for m in leaves))


@contract('C13', targets=[COUNT], samples=100)
def per_module(v):
    """Every module is reported with the sum over what is below it."""
    shape = v.choose('shape', ['chain', 'leaf', 'empty', 'tree'])
    model, leaves, b = counted(v, shape)
    fl = {id(m): m.__flops__ for m in leaves}
    pa = {id(m): m.__params__ for m in leaves}
    FC.accumulate_sub_module_flops_params(model)
    for m in model.modules():
        ls = below(m, leaves)
        v.ensure('flops', m.__flops__ * b == sum(fl[id(x)] for x in ls))
        v.ensure('params', m.__params__ == sum(pa[id(x)] for x in ls))


@contract('C13', targets=[COUNT], samples=100)
def units(v):
    """Conversion divides by the unit and keeps three digits."""
    n = v.int('n', 0, 2**50, chi=10**9)
    unit, step = v.choose('unit', [('G', 10**9), ('M', 10**6), ('K', 10**3)])
    r = FC.params_units_convert(n, unit)
    err = r - n / step
    v.ensure('within half a digit', v.all_of(err <= 0.000501,
                                             err >= -0.000501))
    v.ensure('no other unit', v.raises(
        lambda: FC.params_units_convert(n, 'T'), exc=ValueError))
    model, leaves, b = counted(v, 'leaf')
    model.__flops__ = b * n
    model.__params__ = n
    FC.accumulate_sub_module_flops_params(
        model, units=dict(flops=unit, params=unit))
    for x in (model.__flops__, model.__params__):
        err = x - n / step
        v.ensure('per module', v.all_of(err <= 0.000501, err >= -0.000501))


@contract('C13', targets=[COUNT])
def batch(v):
    """Images are counted from the first input, one if there is none."""
    m = nn.Identity()
    m.__batch_counter__ = v.int('before', 0, BIG, chi=5)
    before = m.__batch_counter__
    n = v.int('batch', 1, BIG, chi=5)
    if v.flag('positional'):
        FC.batch_counter_hook(m, (Shaped(n, 3, 4, 4), Shaped(1)), None)
        v.ensure('images', m.__batch_counter__ == before + n)
    else:
        FC.batch_counter_hook(m, (), None)
        v.ensure('one image', m.__batch_counter__ == before + 1)
    FC.add_batch_counter_variables_or_reset(m)
    v.ensure('reset', m.__batch_counter__ == 0)


# ---------------------------------------------------------- configuration

UNSET = object()
COUNT_MODEL = FC.get_model_flops_params
KEYS = ['input_shape', 'as_strings', 'units', 'disabled_counters']


@contract('C13', targets=[EST], samples=200)
def configuration(v):
    """What is given with the call comes before the estimator's counting
    settings, those before its defaults; no setting is changed."""
    own, call, want = {}, {}, {}
    defaults = dict(input_shape=(1, 3, 8, 8),
                    units=dict(flops='K', params='K'),
                    as_strings=v.flag('as_strings'))
    for k in KEYS:
        where = v.choose(k, ['default', 'own', 'call', 'both'])
        if where in ('own', 'both'):
            own[k] = want[k] = ('own', k)
        if where in ('call', 'both'):
            call[k] = want[k] = ('call', k)
        elif where == 'default' and k in defaults:
            want[k] = defaults[k]
    est = ResourceEstimator(flops_params_cfg=dict(own), **defaults)
    passed = None if not call and v.flag('none') else dict(call)
    model, seen = nn.Identity().train(), []
    separate = v.flag('separate')
    fl, pa = v.int('flops', 0, BIG), v.int('params', 0, BIG)
    res = dict(a=dict(flops=fl)) if separate else (fl, pa)

    def count(model, input_shape=UNSET, spec_modules=UNSET,
              disabled_counters=UNSET, print_per_layer_stat=UNSET,
              units=UNSET, as_strings=UNSET, seperate_return=UNSET,
              input_constructor=UNSET, flush=UNSET, ost=UNSET):
        cfg = dict(locals())
        seen.append((cfg['model'], {
            k: x for k, x in cfg.items()
            if x is not UNSET and k not in ('model', 'seen', 'res')}))
        return res

    users = [m for n, m in list(sys.modules.items())
             if n.startswith('mmrazor.') and
             getattr(m, 'get_model_flops_params', None) is COUNT_MODEL]
    for m in users:
        m.get_model_flops_params = count
    try:
        if separate:
            own['spec_modules'] = est.flops_params_cfg['spec_modules'] = ['a']
            want.update(spec_modules=['a'], seperate_return=True)
            got = est.estimate_separation_modules(model, passed)
        else:
            got = est.estimate(model, passed)
    finally:
        for m in users:
            m.get_model_flops_params = COUNT_MODEL
    v.ensure('counted once', len(seen) == 1 and seen[0][0] is model)
    v.ensure('settings', seen[0][1] == want)
    v.ensure('own settings unchanged', est.flops_params_cfg == own)
    v.ensure('call settings unchanged', passed is None or passed == call)
    v.ensure('defaults unchanged', all(
        getattr(est, k) == x for k, x in defaults.items()))
    if separate:
        v.ensure('the counts', got is res)
    else:
        v.ensure('the counts', v.all_of(
            got['flops'] == fl, got['params'] == pa))
        v.ensure('no latency', got['latency'] == (
            '0.0 ms' if defaults['as_strings'] else 0.0))


@contract('C13', targets=[EST], samples=40)
def wrong_settings(v):
    """Unknown settings are refused before anything is counted."""
    est = ResourceEstimator()
    key = v.choose('key', ['shape', 'flops_unit', 'inputs', 'spec_module'])
    model = nn.ReLU()
    call = v.choose('call', [est.estimate, est.estimate_separation_modules])
    v.ensure('refused', v.raises(
        lambda: call(model, {key: (1, 3, 4, 4), 'spec_modules': ['']}),
        exc=KeyError))
    bad = v.choose('bad', [dict(flop='M'), dict(flops='M', energy='J')])
    v.ensure('unknown unit refused', v.raises(
        lambda: ResourceEstimator(units=bad), exc=KeyError))


# ----------------------------------------------- whole networks (bounded)

def conv_cost(m, x, y):
    k = 1
    for d in m.kernel_size:
        k *= d
    pos = y.numel() // m.out_channels
    per = k * m.in_channels * m.out_channels // m.groups
    return (per + (m.out_channels if m.bias is not None else 0)) * pos


def deconv_cost(m, x, y):
    k = 1
    for d in m.kernel_size:
        k *= d
    c = k * m.out_channels // m.groups * x.numel()
    return c + (y.numel() if m.bias is not None else 0)


def norm_cost(m, x, y):
    return x.numel() * (2 if getattr(m, 'affine', False) else 1)


COST = [
    ((nn.ConvTranspose2d, ), 'ConvTranspose2dCounter', deconv_cost),
    ((nn.Conv1d, nn.Conv2d, nn.Conv3d), None, conv_cost),
    ((nn.BatchNorm1d, nn.BatchNorm2d, nn.BatchNorm3d, nn.InstanceNorm2d,
      nn.GroupNorm, nn.LayerNorm), None, norm_cost),
    ((nn.MaxPool1d, nn.MaxPool2d, nn.AvgPool1d, nn.AvgPool2d,
      nn.AdaptiveAvgPool2d, nn.AdaptiveMaxPool2d), None,
     lambda m, x, y: x.numel()),
    ((nn.ReLU, nn.PReLU, nn.ELU, nn.LeakyReLU, nn.ReLU6), None,
     lambda m, x, y: y.numel()),
    ((nn.Upsample, ), None, lambda m, x, y: y.numel()),
    ((nn.Linear, ), None, lambda m, x, y: x.numel() * y.size(-1)),
]


def cost_of(m, x, y):
    for kinds, _, fn in COST:
        if isinstance(m, kinds):
            return fn(m, x, y)
    return None


class MyConv(nn.Conv2d):
    pass


class Unsupported(nn.Module):
    """Costs nothing: no counter knows it."""

    def __init__(self):
        super().__init__()
        self.scale = nn.Parameter(torch.ones(1))

    def forward(self, x):
        return x * self.scale


class Twice(nn.Module):

    def __init__(self, op):
        super().__init__()
        self.op = op

    def forward(self, x):
        return self.op(self.op(x))


class Branches(nn.Module):

    def __init__(self, a, b):
        super().__init__()
        self.a, self.b = a, b

    def forward(self, x):
        return torch.cat([self.a(x), self.b(x)], 1)


def layer2d(v, i, c, depth=0):
    """-> (module, out channels)"""
    kind = v.choose(f'k{i}', ['conv', 'conv', 'conv', 'myconv', 'deconv',
                              'bn', 'gn', 'in', 'act', 'pool', 'up',
                              'plain', 'twice', 'branches', 'block'])
    o = v.choose(f'o{i}', [2, 4, 6])
    g = v.choose(f'g{i}', [1, 2])
    bias = v.flag(f'b{i}')
    ks = v.choose(f'ks{i}', [(1, 1), (3, 3), (3, 1), (2, 3)])
    if kind in ('conv', 'myconv'):
        cls = nn.Conv2d if kind == 'conv' else MyConv
        return cls(c, o, ks, stride=v.choose(f's{i}', [1, (1, 2)]),
                   padding=1, groups=g, bias=bias), o
    if kind == 'deconv':
        return nn.ConvTranspose2d(c, o, ks, stride=(1, 2), groups=g,
                                  bias=bias), o
    if kind == 'bn':
        return nn.BatchNorm2d(c, affine=bias), c
    if kind == 'gn':
        return nn.GroupNorm(g, c, affine=bias), c
    if kind == 'in':
        return nn.InstanceNorm2d(c, affine=bias), c
    if kind == 'act':
        return v.choose(f'a{i}', [nn.ReLU, nn.PReLU, nn.ELU, nn.LeakyReLU,
                                  nn.ReLU6, nn.Tanh])(), c
    if kind == 'pool':
        return v.choose(f'p{i}', [
            nn.MaxPool2d(2, 1, 1), nn.AvgPool2d(3, 1, 1),
            nn.AdaptiveAvgPool2d((5, 4)), nn.AdaptiveMaxPool2d((4, 5))]), c
    if kind == 'up':
        return nn.Upsample(scale_factor=2), c
    if kind == 'plain':
        return v.choose(f'u{i}', [nn.Identity, nn.Dropout, Unsupported])(), c
    if kind == 'twice':
        return Twice(v.choose(f't{i}', [
            nn.Conv2d(c, c, 1, bias=bias), nn.ReLU(), nn.BatchNorm2d(c),
            nn.Conv2d(c, c, 3, padding=1, groups=c)])), c
    if depth == 2:
        return nn.ReLU(), c
    a, ca = layer2d(v, f'{i}l', c, depth + 1)
    b, cb = layer2d(v, f'{i}r', c if kind == 'branches' else ca, depth + 1)
    if kind == 'branches':
        return Branches(nn.Conv2d(c, ca, 1, bias=bias),
                        nn.Conv2d(c, cb, 1, groups=g)), ca + cb
    return nn.Sequential(a, b), cb


def network(v):
    c = 4
    body = nn.Sequential()
    for i in range(v.small('layers', 1, 5)):
        m, c = layer2d(v, i, c)
        body.add_module(f'l{i}', m)
    net = nn.Sequential()
    net.add_module('body', body)
    head = v.choose('head', ['none', 'linear', 'deep'])
    if head != 'none':
        net.add_module('head', nn.Sequential(
            nn.AdaptiveAvgPool2d(2), nn.Flatten(),
            nn.Linear(c * 4, 5, bias=v.flag('head bias')),
            *([nn.BatchNorm1d(5), nn.ReLU()] if head == 'deep' else [])))
    return net


def measure(net, x, off=()):
    """An independent count: {module: flops}, {module: params}."""
    fl, pa, hooks = {}, {}, []

    def hook(m, a, y):
        n = cost_of(m, a[0], y)
        if n is None or type(m) in off:
            return
        fl[m] = fl.get(m, 0) + n
        pa[m] = sum(p.numel() for p in m.parameters())

    for m in net.modules():
        hooks.append(m.register_forward_hook(hook))
    net.eval()
    with torch.no_grad():
        y = net(x)
    for h in hooks:
        h.remove()
    return fl, pa, y


def bare(net):
    return all(not m._forward_hooks and not m._forward_pre_hooks and
               not any('flops' in k and k.startswith('__') or
                       k.startswith('__params') for k in m.__dict__)
               for m in net.modules())


@contract('C13', kind='bounded', targets=[COUNT, EST, CONV, DECONV] + OPS,
          samples=800)
def networks(v):
    """Random networks: totals, per-module reports, nothing left behind."""
    net = network(v)
    n = v.small('batch', 1, 3)
    shape = (n, 4, v.small('h', 6, 9), v.small('w', 6, 9))
    x = torch.rand(shape)
    fl, pa, y = measure(net, x)
    state = copy.deepcopy(net.state_dict())
    names = [k for k, _ in net.named_modules()]
    own = v.flag('shape by default')
    est = ResourceEstimator(input_shape=shape if own else (1, 3, 224, 224))
    cfg = {} if own else dict(input_shape=shape)
    want = sum(fl.values()) / n, sum(pa.values())
    for _ in range(2):
        r = est.estimate(net, dict(cfg, units=None))
        v.ensure('flops', r['flops'] == want[0], f'{r} {want}')
        v.ensure('params', r['params'] == want[1], f'{r} {want}')
        v.ensure('nothing left behind', bare(net))
    r = est.estimate(net, cfg or None)
    v.ensure('rounded to M', (r['flops'], r['params']) == (
        round(want[0] / 1e6, 3), round(want[1] / 1e6, 3)))
    r = est.estimate(net, dict(cfg, as_strings=True,
                               units=dict(flops='K', params='G')))
    v.ensure('as strings', (r['flops'], r['params']) == (
        f'{round(want[0] / 1e3, 3)} KFLOPs', f'{round(want[1] / 1e9, 3)} G'))
    some = [k for k in names if k and v.flag(f'spec {k}')]
    if some:
        mods = dict(net.named_modules())
        r = est.estimate_separation_modules(
            net, dict(cfg, units=None, spec_modules=some))
        v.ensure('as asked', sorted(r) == sorted(some))
        for k in some:
            inside = set(mods[k].modules())
            v.ensure('module flops', abs(r[k]['flops'] - sum(
                f for m, f in fl.items() if m in inside) / n) < 1e-6 * (
                    1 + r[k]['flops']))
            v.ensure('module params', r[k]['params'] == sum(
                p for m, p in pa.items() if m in inside))
        v.ensure('nothing left behind', bare(net))
    off = v.choose('off', [nn.Conv2d, nn.BatchNorm2d, nn.ReLU,
                           nn.ConvTranspose2d])
    r = est.estimate(net, dict(cfg, units=None, disabled_counters=[
        off.__name__ + 'Counter']))
    keep = [m for m in fl if not isinstance(m, off) or
            isinstance(m, nn.ReLU6) or off is nn.ReLU and
            type(m) is not nn.ReLU]
    v.ensure('disabled', r['flops'] == sum(fl[m] for m in keep) / n and
             r['params'] == sum(pa[m] for m in keep))
    v.ensure('same parameters', all(
        torch.equal(a, b) for a, b in zip(state.values(),
                                          net.state_dict().values())) and
        list(state) == list(net.state_dict()))
    v.ensure('same modules', names == [k for k, _ in net.named_modules()])
    v.ensure('same output', torch.equal(net.eval()(x), y))


@contract('C13', kind='bounded', targets=[CONV], samples=600)
def dynamic_as_exported(v):
    """A dynamic op costs what the op it is exported as costs."""
    kind = v.choose('kind', ['conv', 'depthwise', 'linear'])
    n_in = v.choose('in', [1, 4, 6, 8])
    n_out = n_in if kind == 'depthwise' else v.choose('out', [1, 4, 6, 8])
    bias = v.flag('bias')
    if kind == 'linear':
        op = DynamicLinear(n_in, n_out, bias=bias)
        ins, outs = 'in_features', 'out_features'
    else:
        op = DynamicConv2d(n_in, n_out, v.choose('k', [1, 3]), padding=1,
                           groups=n_in if kind == 'depthwise' else 1,
                           bias=bias)
        ins, outs = 'in_channels', 'out_channels'
    a = SquentialMutableChannel(n_in)
    a.current_choice = v.small('active in', 1, n_in)
    b = a
    if kind != 'depthwise':
        b = SquentialMutableChannel(n_out)
        b.current_choice = v.small('active out', 1, n_out)
    for attr, m, n in ((ins, a, n_in), (outs, b, n_out)):
        if kind != 'linear' and (attr == outs or v.flag('container')):
            c = MutableChannelContainer(n)
            c.register_mutable(m, 0, n)
            m = c
        op.register_mutable_attr(attr, m)
    k = int(a.current_mask.sum())
    batch = v.small('batch', 1, 2)
    shape = (batch, k, 5, 4) if kind != 'linear' else (batch, 3, k)
    est = ResourceEstimator(input_shape=shape,
                            flops_params_cfg=dict(units=None))
    r = est.estimate(op)
    v.ensure('nothing left behind', bare(op))
    a.fix_chosen()
    if b is not a:
        b.fix_chosen()
    s = est.estimate(op.to_static_op())
    v.ensure('flops', r['flops'] == s['flops'], f'{r} {s}')
    if kind != 'linear':
        v.ensure('params', r['params'] == s['params'], f'{r} {s}')
