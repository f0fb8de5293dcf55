"""C06: every searchable mutable is in exactly one search group, and a
group has one choice."""
import torch
from torch import nn

from mmrazor.models.mutables import (DiffMutableOP, OneShotMutableOP,
                                     OneShotMutableValue,
                                     SquentialMutableChannel)
from mmrazor.models.mutators import NasMutator
from contracts.c04_fixing import Times
from contracts.c05_subnet import Named
from pyvc.harness import contract

GM = 'mmrazor/models/mutators/group_mixin.py'
NM = 'mmrazor/models/mutators/nas_mutator.py'
N = 2**16


class Net(Named):

    def modules(self):
        return [m for _, m in self.named]


def same_groups(v, got, want):
    """got: {name: [mutable]}; want: [[mutable]], in any order"""
    v.ensure('named apart', len(got) == len(want))
    sets = [set(map(id, g)) for g in got.values()]
    for w in want:
        v.ensure('the groups asked for', set(map(id, w)) in sets)
    for g in got.values():
        v.ensure('no empty group', len(g) > 0)


def expected(named, custom):
    """The specification, written over objects."""
    by_name, by_alias = {}, {}
    for name, m in named:
        by_name[name] = m
        if m.alias is not None:
            by_alias.setdefault(m.alias, []).append(m)
    out, used = [], []

    def take(ms):
        ms = [m for m in ms if m not in used]
        if ms:
            used.extend(ms)
            out.append(ms)
    for group in custom:
        take([m for key in group for m in (
            by_alias[key] if key in by_alias else [by_name[key]])])
    for ms in by_alias.values():
        take(ms)
    for _, m in named:
        take([m])
    return out


@contract('C06', targets=[GM], samples=600, bound='at most 4 mutables')
def grouping(v):
    n = v.small('n', 1, 3 if v.sym else 4)
    names = [f'm{i}' for i in range(n)]
    ms = [OneShotMutableValue(
        [1, 2], alias=v.choose(f'alias{i}', [None, 'x', 'y'][:2 + i]))
        for i in range(n)]
    named = list(zip(names, ms))
    aliased = {m.alias for m in ms if m.alias}
    # user-defined groups: legal keys, none of them twice
    keys = [k for k in ['x', 'y'] if k in aliased]
    keys += [a for a, m in named if m.alias is None]
    chosen = [k for k in keys if v.flag(f'custom {k}')]
    custom = []
    for k in chosen:
        if custom and v.flag(f'join {k}'):
            custom[-1].append(k)
        else:
            custom.append([k])
    mt = NasMutator(custom_groups=custom)
    mt.prepare_from_supernet(Net([('', nn.Identity())] + named))
    got = mt.search_groups
    same_groups(v, got, expected(named, custom))
    for _, m in named:
        v.ensure('in exactly one group', sum(
            1 for g in got.values() for x in g if x is m) == 1)
        v.ensure('with all of its alias', all(
            x in g for g in got.values() if m in g for _, x in named
            if m.alias is not None and x.alias == m.alias))


@contract('C06', targets=[GM], samples=200, bound='at most 3 mutables')
def grouping_by_name(v):
    """Naming an aliased mutable by its module name takes it out of its
    alias group."""
    ms = [OneShotMutableValue([1, 2], alias='x') for _ in range(3)]
    named = [(f'm{i}', m) for i, m in enumerate(ms)]
    custom = []
    for i in range(3):
        how = v.choose(f'm{i}', ['alias', 'own', 'join'])
        if how == 'join' and custom:
            custom[-1].append(f'm{i}')
        elif how != 'alias':
            custom.append([f'm{i}'])
    mt = NasMutator(custom_groups=custom)
    mt.prepare_from_supernet(Net(named))
    same_groups(v, mt.search_groups, expected(named, custom))


@contract('C06', targets=[GM], samples=60)
def refusals(v):
    ms = [OneShotMutableValue([1, 2], alias='x'),
          OneShotMutableValue([1, 2], alias='x'),
          OneShotMutableValue([1, 2])]
    named = [(f'm{i}', m) for i, m in enumerate(ms)]
    custom, ok = v.choose('custom', [
        ([['nobody']], False), ([['x'], ['m0']], False),
        ([['m2'], ['m2']], False), ([['x', 'x']], False),
        ([['m2', 'nobody']], False), ([['x', 'm1']], False),
        ([['x']], True), ([['m0'], ['m1']], True), ([['x', 'm2']], True)])
    mt = NasMutator(custom_groups=custom)
    v.ensure('no groups yet', v.raises(lambda: mt.search_groups))
    v.ensure('unknown or repeated keys are refused', v.raises(
        mt.prepare_from_supernet, Net(named)) == (not ok))


@contract('C06', targets=[GM], samples=200, bound='at most 3 mutables')
def derived_sources(v):
    """A source of derived mutables is in one group, however often it is
    met and whether or not it is a part of the model itself."""
    alias = v.choose('alias', [None, 'x'])
    src = OneShotMutableValue([1, 2, 4], alias=alias)
    ch = SquentialMutableChannel(8)
    named = []
    layout = v.choose('layout', ['sd', 'ds', 'd', 'dd', 'dsd', 'cd'])
    for i, k in enumerate(layout):
        named.append((f'm{i}', src if k == 's' else src * 2 if k == 'd'
                      else ch * src))
    other = OneShotMutableValue([1, 2])
    named.append(('other', other))
    custom = v.choose('custom', [[], [['other']], [['m0']]])
    if alias and custom == [['m0']]:
        custom = [['x']]
    mt = NasMutator(custom_groups=custom)
    mt.prepare_from_supernet(Net(named))
    groups = mt.search_groups
    for m in (src, other):
        v.ensure('in exactly one group', sum(
            1 for g in groups.values() if any(x is m for x in g)) == 1)
    v.ensure('nothing else', all(
        x is src or x is other for g in groups.values() for x in g))
    v.ensure('two groups', len(groups) == 2)
    c = mt.sample_choices()
    mt.set_choices(c)
    v.ensure('what was set is current', mt.current_choices == c)


@contract('C06', targets=[NM], samples=300, bound='at most 3 mutables')
def choices(v):
    n = v.small('n', 1, 3)
    ms, vals = [], []
    for i in range(n):
        joined = i > 0 and ms[-1].alias is not None and v.flag(f'join{i}')
        a, b, c = vals[-1] if joined else [
            v.int(f'{x}{i}', 1, N, chi=5) for x in 'abc']
        v.assume(v.all_of(a < b, b < c))
        vals.append([a, b, c])
        alias = ms[-1].alias if joined else v.choose(
            f'alias{i}', [None, f'x{i}'])
        ms.append(OneShotMutableValue([b, a, c], alias=alias))
    mt = NasMutator()
    mt.prepare_from_supernet(Net([(f'm{i}', m) for i, m in enumerate(ms)]))
    groups = mt.search_groups
    kind = v.choose('kind', ['random', 'max', 'min', 'max_choices',
                             'min_choices', 'set_max', 'set_min'])
    if kind == 'max_choices':
        c = mt.max_choices
    elif kind == 'min_choices':
        c = mt.min_choices
    elif kind == 'set_max':
        mt.set_min_choices()
        mt.set_max_choices()
        c = mt.current_choices
    elif kind == 'set_min':
        mt.set_max_choices()
        mt.set_min_choices()
        c = mt.current_choices
    else:
        before = [m.current_choice for m in ms]
        c = mt.sample_choices(kind)
        v.ensure('sampling sets nothing', v.all_of(*[
            m.current_choice == x for m, x in zip(ms, before)]))
    v.ensure('one choice per group', set(c) == set(groups))
    mt.set_choices(c)
    for m, x in zip(ms, vals):
        (name, ) = [k for k, g in groups.items() if m in g]
        v.ensure('set for every member', m.current_choice == c[name])
        v.ensure('a candidate', v.any_of(*[c[name] == y for y in x]))
        if 'max' in kind:
            v.ensure('the largest', c[name] == x[2])
        if 'min' in kind:
            v.ensure('the smallest', c[name] == x[0])
    cur = mt.current_choices
    v.ensure('read back', v.all_of(
        set(cur) == set(c), *[cur[k] == c[k] for k in c]))


@contract('C06', targets=[NM], samples=60)
def other_kinds(v):
    mt = NasMutator()
    mt.prepare_from_supernet(Net([('m', OneShotMutableValue([1, 2]))]))
    v.ensure('unknown kind', v.raises(mt.sample_choices, 'median'))


@contract('C06', targets=[NM, GM], kind='bounded', samples=150)
def whole_search_space(v):
    """Ops, values, channels in a real supernet."""
    from mmrazor.models.architectures.dynamic_ops import DynamicConv2d
    from mmrazor.models.mutables import (MutableChannelContainer,
                                         OneShotMutableChannel,
                                         OneShotMutableChannelUnit)
    del OneShotMutableChannelUnit
    torch.manual_seed(v.small('seed', 0, 999))

    class M(nn.Module):

        def __init__(self):
            super().__init__()
            self.op1 = OneShotMutableOP(nn.ModuleDict(
                dict(a=Times(1), b=Times(2))), alias=alias)
            self.op2 = OneShotMutableOP(nn.ModuleDict(
                dict(a=Times(1), b=Times(2))), alias=alias)
            self.val = OneShotMutableValue([1, 2, 3])
            self.conv1 = DynamicConv2d(3, 8, 1)
            self.conv2 = DynamicConv2d(8, 4, 1)
            self.out = OneShotMutableChannel(8, [2, 4, 8])
            for c, i, o in ((self.conv1, 3, 8), (self.conv2, 8, 4)):
                c.register_mutable_attr('in_channels',
                                        MutableChannelContainer(i))
                c.register_mutable_attr('out_channels',
                                        MutableChannelContainer(o))
            MutableChannelContainer.register_mutable_channel_to_module(
                self.conv1, self.out, True)
            MutableChannelContainer.register_mutable_channel_to_module(
                self.conv2, self.out, False)

        def forward(self, x):
            return self.conv2(self.conv1(x))
    alias = v.choose('alias', [None, 'x'])
    model = M()
    mt = NasMutator()
    mt.prepare_from_supernet(model)
    kinds = sorted(k.split('_')[0] for k in mt.search_groups)
    v.ensure('groups', kinds == ['channel'] + ['module'] * (
        1 if alias else 2) + ['value'])
    c = mt.sample_choices()
    mt.set_choices(c)
    v.ensure('read back', mt.current_choices == c)
    (ch, ) = [x for k, x in c.items() if k.startswith('channel')]
    v.ensure('channels follow', model.conv1.get_mutable_attr(
        'out_channels').activated_channels == ch ==
        model.conv2.get_mutable_attr('in_channels').activated_channels)
    v.ensure('runs', model(torch.rand(1, 3, 2, 2)).shape[1] == 4)
    (val, ) = [x for k, x in c.items() if k.startswith('value')]
    v.ensure('value', model.val.current_choice == val)
    if alias:
        v.ensure('same op', model.op1.current_choice ==
                 model.op2.current_choice)


@contract('C06', targets=[NM, GM], kind='bounded', samples=100)
def differentiable(v):
    """One architecture parameter per group, of the group's size."""
    torch.manual_seed(v.small('seed', 0, 999))
    n = v.small('candidates', 1, 4)

    class M(nn.Module):

        def __init__(self):
            super().__init__()
            for i in range(3):
                setattr(self, f'op{i}', DiffMutableOP(
                    {f'c{k}': dict(type='VcTimes', w=k + 1)
                     for k in range(n)}, alias=al[i]))
            if mixed:
                self.val = OneShotMutableValue([1, 2, 3])
    mixed = v.flag('with a value')
    al = [v.choose(f'alias{i}', [None, 'x']) for i in range(3)]
    model = M()
    ops = [model.op0, model.op1, model.op2]
    mt = NasMutator()
    mt.prepare_from_supernet(model)
    mt.prepare_arch_params()
    groups = {k: g for k, g in mt.search_groups.items() if g[0] in ops}
    v.ensure('one per group', set(mt.arch_params) == set(groups))
    for p in mt.arch_params.values():
        nn.init.normal_(p)
    x = torch.ones(1)
    for name, g in groups.items():
        p = mt.arch_params[name]
        v.ensure('as many as candidates', p.numel() == n)
        for m in g:
            want = sum(q * (k + 1) for k, q in enumerate(p.softmax(-1)))
            v.ensure('forward uses it', torch.allclose(m(x), want))
    how = v.choose('how', ['sampled', 'max', 'min', 'set_max', 'set_min'])
    if how == 'sampled':
        c = mt.sample_choices()
        mt.set_choices(c)
    elif how in ('max', 'min'):
        c = mt.max_choices if how == 'max' else mt.min_choices
        mt.set_choices(c)
    elif how == 'set_max':
        mt.set_max_choices()
    else:
        mt.set_min_choices()
    if mixed:
        y = model.val.current_choice
        v.ensure('values as well', y in (1, 2, 3))
        if how != 'sampled':
            v.ensure('largest or smallest', y == (3 if 'max' in how else 1))
    for name, g in groups.items():
        best = f'c{int(mt.arch_params[name].argmax())}'
        for m in g:
            v.ensure('most probable', m.current_choice == best)
    for a in ops:
        for b in ops:
            if a.alias and a.alias == b.alias:
                v.ensure('shared', a.current_choice == b.current_choice)

