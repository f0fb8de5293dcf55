"""C07: pruning a network keeps it consistent and running."""
import copy
import math

import torch
import torch.nn as nn
from mmengine.model import BaseModel

from mmrazor.models import ChannelMutator
from mmrazor.models.architectures.dynamic_ops import DynamicChannelMixin
from mmrazor.models.mutables import (OneShotMutableChannelUnit,
                                     SequentialMutableChannelUnit)
from mmrazor.models.mutables.mutable_channel.units.channel_unit import Channel
from mmrazor.structures import export_fix_subnet, load_fix_subnet
from pyvc.harness import contract

N = 2**18
U = 'mmrazor/models/mutables/mutable_channel/units/'
CU, MU, SU = (U + x for x in ('channel_unit.py', 'mutable_channel_unit.py',
                              'sequential_mutable_channel_unit.py'))
CC = 'mmrazor/models/mutables/mutable_channel/mutable_channel_container.py'
CM = 'mmrazor/models/mutators/channel_mutator/channel_mutator.py'


class Layer(nn.Module, DynamicChannelMixin):
    """A dynamic op as the units see it, with any number of channels."""
    accepted_mutable_attrs = {'in_channels', 'out_channels'}

    def __init__(self, i, o):
        super().__init__()
        self.in_channels, self.out_channels = i, o
        self.w = nn.Parameter(torch.zeros(1))
        self.mutable_attrs = nn.ModuleDict()

    def register_mutable_attr(self, attr, mutable):
        assert attr not in self.mutable_attrs
        self.mutable_attrs[attr] = mutable

    def get_mutable_attr(self, attr):
        return self.mutable_attrs[attr] \
            if attr in self.mutable_attrs else None

    @classmethod
    def convert_from(cls, m):
        raise NotImplementedError

    static_op_factory = None

    def to_static_op(self):
        raise NotImplementedError


class Plain(nn.Module):
    """no parameters: passes its channels on"""


class Sizes:
    """a -> cat(a, other) -> b;  a -> flatten -> c;  other is another unit"""

    def __init__(self, v, expand):
        self.n = v.int('n', 1, N, chi=9)
        self.m = v.int('m', 1, N, chi=9)
        self.first = v.flag('first')
        self.r = v.choose('r', [2, 3]) if expand else 1

    def net(self):
        net = nn.Module()
        net.a = Layer(3, self.n)
        net.other = Layer(3, self.m)
        net.act = Plain()
        net.b = Layer(self.n + self.m, 5)
        net.c = Layer(self.n * self.r, 7)
        return net

    def where(self):
        """ranges of a's and other's channels in b"""
        n, m = self.n, self.m
        return ((0, n), (n, n + m)) if self.first else (
            (m, m + n), (0, m))

    def unit_cfgs(self):
        ra, ro = self.where()

        def chan(name, s, e, out=False):
            return dict(name=name, start=s, end=e, is_output_channel=out)
        n, m = self.n, self.m
        return (dict(init_args=dict(num_channels=n), channels=dict(
            output_related=[chan('a', 0, n, True), chan('act', 0, n, True)],
            input_related=[chan('act', 0, n), chan('b', *ra),
                           chan('c', 0, n * self.r)])),
                dict(init_args=dict(num_channels=m), channels=dict(
                    output_related=[chan('other', 0, m, True)],
                    input_related=[chan('b', *ro)])))


def masks(v, z, net, ka, ko):
    """every layer's masks say: the first ka of a's channels and the first ko
    of the other's, wherever they are, and all the rest"""
    def out(m):
        return m.get_mutable_attr('out_channels').current_mask

    def inp(m):
        return m.get_mutable_attr('in_channels').current_mask
    for name, mask, size, k in (('a', out(net.a), z.n, ka),
                                ('other', out(net.other), z.m, ko),
                                ('c', inp(net.c), z.n * z.r, ka * z.r)):
        v.ensure(f'{name}: size', v.mask_len(mask) == size)
        for i in v.each(name, size):
            v.ensure(f'{name}: follows its unit',
                     v.mask_at(mask, i) == (i < k))
    mask = inp(net.b)
    v.ensure('b: size', v.mask_len(mask) == z.n + z.m)
    (sa, ea), (so, eo) = z.where()
    for i in v.each('b', z.n + z.m):
        v.ensure('b: each range follows its unit', v.mask_at(mask, i) ==
                 v.any_of(v.all_of(sa <= i, i - sa < ka),
                          v.all_of(so <= i, i - so < ko)))
    for name, mask, size in (('b', out(net.b), 5), ('a', inp(net.a), 3)):
        v.ensure(f'{name}: untied channels stay', v.mask_count(mask) == size)


def prepared(v, expand=True):
    z = Sizes(v, expand)
    net = z.net()
    ua, uo = (SequentialMutableChannelUnit.init_from_cfg(net, c)
              for c in z.unit_cfgs())
    for u in (ua, uo):
        u.prepare_for_pruning(net)
    return z, net, ua, uo


@contract('C07', targets=[CU, MU, SU, CC], samples=200)
def units(v):
    """A unit's width is the width of every layer tied to it, and of no
    other."""
    z, net, ua, uo = prepared(v)
    v.ensure('both can be pruned', ua.is_mutable and uo.is_mutable)
    masks(v, z, net, z.n, z.m)
    ka, ko = v.int('ka', 1, N, chi=9), v.int('ko', 1, N, chi=9)
    v.assume(ka <= z.n)
    v.assume(ko <= z.m)
    ua.current_choice = ka
    masks(v, z, net, ka, z.m)
    uo.current_choice = ko
    masks(v, z, net, ka, ko)
    v.ensure('read back', v.all_of(ua.current_choice == ka,
                                   uo.current_choice == ko))


@contract('C07', targets=[CU, MU, SU, CC], samples=200)
def prepared_twice(v):
    """Preparing again, as happens when units are shared, changes nothing."""
    z, net, ua, uo = prepared(v)
    ua.prepare_for_pruning(net)
    ka = v.int('ka', 1, N, chi=9)
    v.assume(ka <= z.n)
    ua.current_choice = ka
    masks(v, z, net, ka, z.m)


@contract('C07', targets=[CU, MU, SU], samples=200)
def unit_config(v):
    """A unit rebuilt from its own config in another copy of the network."""
    z, net, ua, uo = prepared(v)
    ka = v.int('ka', 1, N, chi=9)
    v.assume(ka <= z.n)
    ua.current_choice = ka
    cfg = ua.config_template(with_init_args=True, with_channels=True)
    new = z.net()
    u = SequentialMutableChannelUnit.init_from_cfg(new, cfg)
    v.ensure('the same width', u.current_choice == ka)
    v.ensure('the same size', u.num_channels == z.n)
    for k in ('input_related', 'output_related'):
        old, got = getattr(ua, k), getattr(u, k)
        v.ensure('as many channels', len(old) == len(got))
        for x, y in zip(old, got):
            v.ensure('the same channels', v.all_of(
                x.name == y.name, x.start == y.start, x.end == y.end,
                x.is_output_channel == y.is_output_channel))
            v.ensure('of the new network',
                     y.module is getattr(new, x.name))
    u.prepare_for_pruning(new)
    uo2 = SequentialMutableChannelUnit.init_from_cfg(
        new, uo.config_template(True, True))
    uo2.prepare_for_pruning(new)
    masks(v, z, new, ka, z.m)
    again = u.config_template(with_init_args=True, with_channels=True)
    v.ensure('the same config', again['init_args'] == cfg['init_args'])
    v.ensure('the same choice', again['choice'] == cfg['choice'])


@contract('C07', targets=[CU, MU], samples=100)
def not_prunable(v):
    """A unit with a fixed end is never pruned."""
    n = v.int('n', 1, N, chi=9)
    net = nn.Module()
    net.a, net.b = Layer(3, n), Layer(n, 3)
    net.conv = nn.Conv2d(1, 1, 1)
    what = v.choose('what', ['placeholder', 'own parameters', 'no input',
                             'no output', 'no dynamic op', 'fine'])
    u = SequentialMutableChannelUnit(n)
    if what != 'no output':
        u.add_output_related(Channel('a', net.a if what != 'no dynamic op'
                                     else Plain(), (0, n)))
    if what != 'no input':
        u.add_input_related(Channel('b', net.b, (0, n), None, False))
    if what == 'placeholder':
        u.add_input_related(Channel('output_placeholder', None, (0, n), None,
                                    False))
    if what == 'own parameters':
        u.add_input_related(Channel('conv', net.conv, (0, n), None, False))
    v.ensure('prunable', u.is_mutable == (what == 'fine'))


class Model(nn.Module):
    """What a mutator prepares, two units and one that cannot be pruned."""


@contract('C07', targets=[CM, MU, SU], samples=200)
def choices(v):
    """The mutator's choices are the units' choices."""
    z = Sizes(v, False)
    net = z.net()
    ca, co = z.unit_cfgs()
    end = dict(init_args=dict(num_channels=5), channels=dict(
        output_related=[dict(name='b', start=0, end=5)],
        input_related=[dict(name='output_placeholder', start=0, end=5)]))
    m = ChannelMutator(
        channel_unit_cfg=dict(type='SequentialMutableChannelUnit',
                              units=dict(A=ca, O=co, E=end)),
        parse_cfg=dict(type='Config'))
    m.prepare_from_supernet(net)
    v.ensure('units', [u.name for u in m.units] == ['A', 'O', 'E'])
    v.ensure('prunable ones', [u.name for u in m.mutable_units] == ['A', 'O'])
    c = m.sample_choices()
    v.ensure('a choice for each', sorted(c) == ['A', 'O'])
    v.ensure('legal', v.all_of(1 <= c['A'], c['A'] <= z.n,
                               1 <= c['O'], c['O'] <= z.m))
    v.ensure('sampling changes nothing', v.all_of(
        m.current_choices['A'] == z.n, m.current_choices['O'] == z.m))
    m.set_choices(c)
    cur = m.current_choices
    v.ensure('set as sampled', v.all_of(cur['A'] == c['A'],
                                        cur['O'] == c['O']))
    masks(v, z, net, c['A'], c['O'])
    only = v.int('only', 1, N, chi=9)
    v.assume(only <= z.m)
    m.set_choices({'O': only})
    masks(v, z, net, c['A'], only)
    v.ensure('an unknown unit is refused', v.raises(
        m.set_choices, {'X': 1}))
    t = m.config_template(with_unit_init_args=True, with_channels=True)
    new = z.net()
    m2 = ChannelMutator(channel_unit_cfg=t['channel_unit_cfg'],
                        parse_cfg=dict(type='Config'))
    m2.prepare_from_supernet(new)
    masks(v, z, new, c['A'], only)
    got = m2.current_choices
    v.ensure('the same from its config', v.all_of(
        sorted(got) == ['A', 'O'], got['A'] == c['A'], got['O'] == only))
    m.fix_channel_mutables()
    masks(v, z, net, c['A'], only)
    v.ensure('fixed', v.raises(m.fix_channel_mutables))


# ------------------------------------------------- whole networks (bounded)

class Net(nn.Module):
    """A random small network; `plan` lists (op, module name, arguments)."""

    def __init__(self, v):
        super().__init__()
        self.plan = []
        self.body = nn.ModuleDict()
        self.widths = {0: 3}        # tensor -> channels
        self.deps = {0: {0}}
        self.whole = {0: True}
        self.origin = {0: 0}        # relus looked through
        self.again = False
        last, tensors = 0, [0]
        wide = v.flag('wide')
        for k in range(v.small('layers', 2, 8)):
            op = v.choose('op', ['conv', 'conv', 'add', 'cat', 'dw', 'group',
                                 'bn', 'relu', 'again'])
            x = v.choose('x', (tensors if wide else tensors[-3:]) if k else [0])
            c = self.widths[x]
            same = [t for t in tensors if self.widths[t] == c and t != x]
            other = [t for t in (tensors if wide else tensors[-3:])
                     if t != 0 or x != 0]
            if op == 'conv' or x == 0 or (op == 'add' and not same) or \
                    (op == 'group' and
                                      (c % 2 or not self.whole[x])) or \
                    (op == 'cat' and not other):
                last = self.layer('conv', nn.Conv2d(
                    c, v.choose('w', [4, 6, 8]), 3, padding=1,
                    bias=v.flag('bias')), x)
            elif op == 'dw':
                last = self.layer('dw', nn.Conv2d(c, c, 3, padding=1,
                                                  groups=c), x)
            elif op == 'group':
                last = self.layer('group', nn.Conv2d(
                    c, v.choose('gw', [4, 8]), 1, groups=2), x)
            elif op == 'bn':
                last = self.layer('bn', nn.BatchNorm2d(c), x)
            elif op == 'relu':
                last = self.layer('relu', nn.ReLU(), x)
            elif op == 'add':
                last = self.join('add', [x, v.choose('y', same)], c)
            elif op == 'cat':
                y = v.choose('y', other)
                last = self.join('cat', [x, y], c + self.widths[y])
            else:
                # used once more, and not on what depends on it
                convs = [p for p in self.plan if p[0] == 'conv' and
                         p[3] not in self.deps[x] and not self.again and
                         self.body[p[1]].in_channels == c and
                         self.body[p[1]].bias is not None]
                if not convs:
                    continue
                last = self.new(self.body[convs[0][1]].out_channels, [x])
                self.plan.append(('conv', convs[0][1], [x], last))
                self.again = True
            tensors.append(last)
        if v.flag('join'):
            # everything made is used in the end
            while True:
                taken = {x for p in self.plan for x in p[2]}
                ends = [t for t in tensors if t not in taken]
                ends = [t for t in ends if t != last]
                if not ends:
                    break
                y = ends[0]
                if self.widths[y] == self.widths[last] and v.flag('sum'):
                    last = self.join('add', [last, y], self.widths[y])
                else:
                    last = self.join('cat', [last, y],
                                     self.widths[y] + self.widths[last])
                tensors.append(last)
        pool = v.choose('pool', [2, 1])
        self.pool = pool
        self.plan.append(('pool', 'pool', [last], self.new(
            self.widths[last] * pool * pool, [last])))
        self.body['pool'] = nn.Sequential(nn.AdaptiveAvgPool2d(pool),
                                          nn.Flatten())
        n = self.plan[-1][3]
        self.layer('linear', nn.Linear(self.widths[n], 5), n)
        # what no output depends on is not traced: leave it out
        used = self.deps[len(self.widths) - 1]
        self.plan = [p for p in self.plan if p[3] in used]
        for name in set(self.body) - {p[1] for p in self.plan}:
            del self.body[name]
        g = torch.Generator().manual_seed(v.int('seed', 0, 999))
        with torch.no_grad():
            for p in list(self.parameters()):
                p.copy_(torch.randn(p.shape, generator=g) * 0.5)
            for m in self.modules():
                if isinstance(m, nn.BatchNorm2d):
                    m.running_mean.copy_(torch.randn(
                        m.num_features, generator=g))
                    m.running_var.copy_(torch.rand(
                        m.num_features, generator=g) + 0.5)
        self.x = torch.randn(2, 3, 8, 8, generator=g)
        self.eval()

    def new(self, width, xs):
        t = len(self.widths)
        self.widths[t] = width
        self.origin[t] = t
        self.whole[t] = True        # without concatenations
        self.deps[t] = {t}.union(*[self.deps[x] for x in xs])
        return t

    def layer(self, op, m, x):
        name = f'{op}{len(self.plan)}'
        self.body[name] = m
        w = getattr(m, 'out_channels', getattr(
            m, 'out_features', self.widths[x]))
        out = self.new(w, [x])
        if op in ('relu', 'bn', 'dw'):
            self.whole[out] = self.whole[x]
        if op == 'relu':
            self.origin[out] = self.origin[x]
        self.plan.append((op, name, [x], out))
        return out

    def join(self, op, xs, w):
        out = self.new(w, xs)
        self.whole[out] = op == 'add' and all(self.whole[x] for x in xs)
        self.plan.append((op, None, xs, out))
        return out

    def forward(self, x):
        t = {0: x}
        for op, name, xs, out in self.plan:
            if op == 'add':
                t[out] = t[xs[0]] + t[xs[1]]
            elif op == 'cat':
                t[out] = torch.cat([t[i] for i in xs], 1)
            else:
                t[out] = self.body[name](t[xs[0]])
        return t[out]


def channels_agree(v, net, parts):
    """which channels arrive is which channels each layer takes"""
    def m(name, attr):
        mod = net.body[name]
        if isinstance(mod, DynamicChannelMixin):
            c = mod.get_mutable_attr(attr)
            if c is not None:
                return c.current_mask
        n = getattr(mod, attr, getattr(mod, {
            'in_channels': 'in_features', 'out_channels': 'out_features'}[
                attr], getattr(mod, 'num_features', None)))
        return torch.ones(n).bool()
    live = {0: torch.ones(3).bool()}
    for op, name, xs, out in parts:
        x = live[xs[0]]
        if op == 'add':
            v.ensure('joined channels agree', torch.equal(x, live[xs[1]]))
            live[out] = x
        elif op == 'cat':
            live[out] = torch.cat([live[i] for i in xs])
        elif op == 'relu':
            live[out] = x
        elif op == 'pool':
            live[out] = x.repeat_interleave(net.pool ** 2)
        else:
            v.ensure(f'{op} takes what arrives',
                     torch.equal(m(name, 'in_channels'), x))
            live[out] = m(name, 'out_channels')
            if op in ('bn', 'dw'):
                v.ensure(f'{op} keeps its channels', torch.equal(
                    live[out], x))
    v.ensure('the output stays whole', bool(live[out].all()))
    return live


def masked(net, live, plain):
    """the plain network with the inactive channels put to zero everywhere:
    the oracle of what pruning means"""
    t = {0: net.x}
    for op, name, xs, out in net.plan:
        if op == 'add':
            y = t[xs[0]] + t[xs[1]]
        elif op == 'cat':
            y = torch.cat([t[i] for i in xs], 1)
        else:
            y = plain.body[name](t[xs[0]])
        on = live[out].to(y.dtype)
        t[out] = y * (on[None, :, None, None] if y.dim() == 4 else on[None])
    return t[out]


def close(a, b):
    return a.shape == b.shape and torch.allclose(a, b, rtol=1e-4, atol=1e-4)


class Wrapper(BaseModel):
    """what export_fix_subnet expects around a network and its mutator"""

    def __init__(self, net, mutator):
        super().__init__()
        self.architecture, self.mutator = net, mutator

    def forward(self, x):
        return self.architecture(x)


@contract('C07', targets=[CM], kind='bounded', samples=400)
def networks(v):
    """Random networks: prepared, pruned, run, exported, rebuilt."""
    net = Net(v)
    plain = copy.deepcopy(net)
    tracer = v.choose('tracer', ['BackwardTracer', 'FxTracer'])
    unit = v.choose('unit', [
        dict(type='SequentialMutableChannelUnit'),
        dict(type='SequentialMutableChannelUnit', default_args=dict(
            choice_mode='ratio')),
        dict(type='SequentialMutableChannelUnit', default_args=dict(
            choice_mode='number', divisor=2)),
        dict(type='L1MutableChannelUnit', default_args=dict(
            choice_mode='number')),
        dict(type='OneShotMutableChannelUnit', default_args=dict(
            candidate_choices=[0.5, 1.0], choice_mode='ratio'))])
    parse = dict(type='ChannelAnalyzer', demo_input=(1, 3, 8, 8),
                 tracer_type=tracer)
    m = ChannelMutator(channel_unit_cfg=copy.deepcopy(unit),
                       parse_cfg=copy.deepcopy(parse))
    m.prepare_from_supernet(net)
    net.eval()
    # dynamic operators start from fresh weights under the same names
    net.load_state_dict(plain.state_dict())
    v.ensure('unchanged before pruning', close(net(net.x), plain(net.x)))
    full = {u.name: u.current_choice for u in m.mutable_units}
    for _ in range(2):
        choice = m.sample_choices()
        v.ensure('every prunable unit', sorted(choice) == sorted(full))
        m.set_choices(choice)
        v.ensure('as set', m.current_choices == choice)
        live = channels_agree(v, net, net.plan)
        y = net(net.x)
        v.ensure('the pruned network computes the remaining channels',
                 close(y, masked(net, live, plain)))
        for u in m.mutable_units:
            k = u.mutable_channel.current_mask.sum().item()
            for c in list(u.input_related) + list(u.output_related):
                if isinstance(c.module, DynamicChannelMixin):
                    mask = c.module.get_mutable_attr(
                        'out_channels' if c.is_output_channel
                        else 'in_channels').current_mask[c.start:c.end]
                    v.ensure('each range as wide as its unit says',
                             mask.sum().item() * u.num_channels ==
                             k * (c.end - c.start))
    t = m.config_template(with_unit_init_args=True, with_channels=True)
    again = m.config_template(with_unit_init_args=True, with_channels=True)
    v.ensure('writing the config changes nothing', t == again)
    way = v.choose('way', ['export', 'config', 'tracer', 'load'])
    if way == 'export' or way == 'load':
        for u in m.units:
            u.fix_chosen()
        _, static = export_fix_subnet(Wrapper(net, m), 'mutator',
                                      slice_weight=True)
        s = static.eval().architecture
        v.ensure('nothing dynamic is left', not any(
            isinstance(x, DynamicChannelMixin) for x in s.modules()))
        v.ensure('the exported network computes the same',
                 close(s(net.x), y))
        size = sum(p.numel() for p in s.parameters())
        want = 0
        for op, name, xs, out in {p[1]: p for p in net.plan
                                  if p[1]}.values():
            mod = plain.body[name]
            o = int(live[out].sum())
            if op in ('conv', 'group', 'dw', 'linear'):
                i = int(live[xs[0]].sum())
                want += o * i // getattr(mod, 'groups', 1) * math.prod(
                    mod.weight.shape[2:]) if op != 'dw' else o * 9
                want += o if mod.bias is not None else 0
            elif op == 'bn':
                want += 2 * o
        v.ensure('only the remaining weights', size == want)
    if way == 'load' and unit['type'] == 'SequentialMutableChannelUnit':
        fresh = copy.deepcopy(plain)
        load_fix_subnet(fresh, copy.deepcopy(t), load_subnet_mode='mutator')
        v.ensure('static after loading', not any(
            isinstance(x, DynamicChannelMixin) for x in fresh.modules()))
        fresh.load_state_dict(s.state_dict())
        fresh.eval()
        v.ensure('rebuilt from its config', close(fresh(net.x), y))
    elif unit['type'] == 'SequentialMutableChannelUnit' and way != 'export':
        fresh = copy.deepcopy(plain)
        if way == 'config':
            m2 = ChannelMutator(copy.deepcopy(t['channel_unit_cfg']),
                                parse_cfg=dict(type='Config'))
            m2.prepare_from_supernet(fresh)
            v.ensure('the same choices',
                     m2.current_choices == m.current_choices)
        else:
            t = m.config_template()
            m2 = ChannelMutator(copy.deepcopy(t['channel_unit_cfg']),
                                copy.deepcopy(parse))
            m2.prepare_from_supernet(fresh)
            m2.set_choices({k: u['choice'] for k, u in
                            t['channel_unit_cfg']['units'].items()
                            if k in m2.current_choices})
            v.ensure('the same choices from the choices',
                     m2.current_choices == m.current_choices)
        fresh.load_state_dict(plain.state_dict())
        fresh.eval()
        v.ensure('rebuilt from its config', close(fresh(net.x), y))


class Twice(nn.Module):

    def __init__(self):
        super().__init__()
        self.a = nn.Conv2d(3, 4, 1)
        self.b = nn.Conv2d(8, 4, 1)

    def forward(self, x):
        y = self.a(x)
        return self.b(torch.cat([y, y], 1))


@contract('C07', targets=[CM], kind='bounded', samples=4)
def concat_with_itself(v):
    """A tensor concatenated with itself."""
    net = Twice()
    m = ChannelMutator(parse_cfg=dict(
        type='ChannelAnalyzer', demo_input=(1, 3, 8, 8),
        tracer_type=v.choose('tracer', ['BackwardTracer', 'FxTracer'])))
    m.prepare_from_supernet(net)
    m.set_choices({u.name: 2 for u in m.mutable_units})
    got = net.b.get_mutable_attr('in_channels').current_mask
    v.ensure('takes what arrives', torch.equal(
        got, net.a.get_mutable_attr('out_channels').current_mask.repeat(2)))


class Crossed(nn.Module):
    """A group convolution over a concatenation its groups cut across."""

    def __init__(self):
        super().__init__()
        self.a = nn.Conv2d(3, 6, 1)
        self.b = nn.Conv2d(6, 4, 1, groups=2)
        self.c = nn.Conv2d(10, 4, 1, groups=2)

    def forward(self, x):
        y = self.a(x)
        return self.c(torch.cat([y, self.b(y)], 1))


@contract('C07', targets=[CM], kind='bounded', samples=4)
def groups_across(v):
    """Groups that cut across a concatenation."""
    net = Crossed()
    m = ChannelMutator(parse_cfg=dict(
        type='ChannelAnalyzer', demo_input=(1, 3, 8, 8),
        tracer_type=v.choose('tracer', ['BackwardTracer', 'FxTracer'])))
    try:
        m.prepare_from_supernet(net)
        done = True
    except Exception:       # noqa: BLE001
        done = False
    v.ensure('can be prepared', done)
    m.set_choices(m.sample_choices())
    net(torch.rand(1, 3, 8, 8))
