"""C05: an exported subnet loads back to exactly the chosen one."""
from torch import nn

from mmrazor.models.mutables import (MutableChannelContainer,
                                     OneShotMutableOP, OneShotMutableValue,
                                     SquentialMutableChannel)
from mmrazor.structures import (convert_fix_subnet, export_fix_subnet,
                                load_fix_subnet)
from contracts.c04_fixing import Times
from pyvc.harness import contract

FS = 'mmrazor/structures/subnet/fix_subnet.py'
N = 2**16


class Named:
    """A model seen through its named modules: any names."""

    def __init__(self, named):
        self.named = named

    def named_modules(self):
        return list(self.named)


def values(v, i, lo=0):
    a, b = v.int(f'a{i}', lo, N, chi=6), v.int(f'b{i}', lo, N, chi=6)
    v.assume(a < b)
    return [a, b]


def names(v, n):
    out = []
    for i in range(n):
        s = v.str(f'name{i}')
        for t in out:
            v.assume(s != t)
        out.append(s)
    return out


def plain(d, how):
    """The exported subnet as it is, or as it is written to a file."""
    if how == 'converted':
        return convert_fix_subnet(d)
    return d


@contract('C05', targets=[FS], samples=300, bound='at most 3 mutables')
def any_names(v):
    """Whatever the names: every mutable gets its own choice back."""
    how = v.choose('how', ['same', 'prefix', 'extra prefix'])
    n = v.small('n', 1, 3 if how == 'same' else 2)
    ns = names(v, n)
    vals = [values(v, i) for i in range(n)]
    src = [OneShotMutableValue(list(x)) for x in vals]
    want = [x[v.choose(f'pick{i}', [0, 1])] for i, x in enumerate(vals)]
    for m, w in zip(src, want):
        m.current_choice = w
    d, static = export_fix_subnet(Named(list(zip(ns, src))))
    v.ensure('no model unless asked for', static is None)
    v.ensure('one entry each', len(d) == n)
    for x, m, w in zip(ns, src, want):
        v.ensure('exported', d[x].chosen == w)
        v.ensure('exporting changes nothing', v.all_of(
            m.current_choice == w, not m.is_fixed))
    new = [OneShotMutableValue(list(x)) for x in vals]
    pre = v.str('prefix')
    kw = {}
    if how == 'same':
        nn_ = ns
    elif how == 'prefix':       # the model's names have more in front
        v.assume(pre != '')
        kw = dict(prefix=pre)
        nn_ = [pre + x for x in ns]
    else:                       # the exported names have more in front
        v.assume(pre != '')
        kw = dict(extra_prefix=pre)
        nn_ = ns
        d = {pre + x: d[x] for x in ns}
    load_fix_subnet(Named(list(zip(nn_, new))),
                    plain(d, v.choose('form', ['as is', 'converted'])), **kw)
    for m, w in zip(new, want):
        v.ensure('loaded', m.current_choice == w)
        v.ensure('fixed', m.is_fixed is True)


@contract('C05', targets=[FS], samples=200, bound='at most 3 mutables')
def any_alias(v):
    """Mutables with an alias are stored and found under it."""
    n = v.small('n', 1, 3)
    ns = names(v, n)
    al = names(v, n)
    for i in range(n):
        v.assume(al[i] != '')
        for j in range(n):
            v.assume(al[i] != ns[j])
    given = [v.flag(f'alias{i}') for i in range(n)]
    vals = [values(v, i) for i in range(n)]

    def make():
        return [OneShotMutableValue(list(x), alias=a if g else None)
                for x, a, g in zip(vals, al, given)]
    src = make()
    want = [x[v.choose(f'pick{i}', [0, 1])] for i, x in enumerate(vals)]
    for m, w in zip(src, want):
        m.current_choice = w
    d, _ = export_fix_subnet(Named(list(zip(ns, src))))
    for i in range(n):
        v.ensure('stored under its alias',
                 d[al[i] if given[i] else ns[i]].chosen == want[i])
    # the names may change, the aliases stay
    new = make()
    order = [v.str(f'new{i}') if g else x
             for i, (x, g) in enumerate(zip(ns, given))]
    load_fix_subnet(Named(list(zip(order, new))), d)
    for m, w in zip(new, want):
        v.ensure('loaded', v.all_of(m.current_choice == w, m.is_fixed))


@contract('C05', targets=[FS], samples=100, bound='2 mutables')
def missing(v):
    """A subnet without an entry for a mutable is refused."""
    ns = names(v, 2)
    vals = [values(v, i) for i in range(2)]
    alias = 'x' if v.flag('alias') else None
    v.assume(v.all_of(ns[0] != 'x', ns[1] != 'x'))
    src = [OneShotMutableValue(vals[0]),
           OneShotMutableValue(vals[1], alias=alias)]
    d, _ = export_fix_subnet(Named([(ns[0], src[0])]))
    v.ensure('refused', v.raises(
        load_fix_subnet, Named(list(zip(ns, src))), d))
    v.ensure('never fixed by guess', not src[1].is_fixed)
    v.ensure('unchanged', src[1].current_choice == vals[1][1])


@contract('C05', targets=[FS], samples=20)
def arguments(v):
    m = Named([('a', OneShotMutableValue([1]))])
    d = dict(a=dict(chosen=1))
    v.ensure('one prefix at a time', v.raises(
        load_fix_subnet, m, d, prefix='a', extra_prefix='b'))
    v.ensure('load mode', v.raises(load_fix_subnet, m, d,
                                   load_subnet_mode='other'))
    v.ensure('export mode', v.raises(export_fix_subnet, m,
                                     export_subnet_mode='other'))
    v.ensure('a dict', v.raises(load_fix_subnet, m, 10))
    v.ensure('untouched', not m.named[0][1].is_fixed)
    v.ensure('no mutator', v.raises(export_fix_subnet, m,
                                    export_subnet_mode='mutator'))
    v.ensure('no channel configuration', v.raises(
        load_fix_subnet, m, d, load_subnet_mode='mutator'))


class Super(nn.Module):
    """A supernet with every kind of mutable, in a given order."""

    def __init__(self, order, n, vals, ratio, inside):
        super().__init__()
        parts = {}
        parts['op'] = OneShotMutableOP(nn.ModuleDict(
            dict(a=Times(2), b=Times(3))))
        parts['value'] = OneShotMutableValue(list(vals))
        parts['channel'] = SquentialMutableChannel(n)
        parts['derived'] = parts['channel'] * parts['value']
        parts['double'] = parts['channel'] * ratio
        parts['box'] = MutableChannelContainer(n)
        for name in order:
            if name not in parts:
                continue
            if inside == name:
                self.block = nn.Sequential(parts[name])
            else:
                setattr(self, name, parts[name])
        self.parts_ = [parts]

    def parts(self):
        return self.parts_[0]


ORDERS = [['op', 'value', 'channel', 'derived', 'double', 'box'],
          ['derived', 'double', 'op', 'channel', 'value', 'box'],
          ['box', 'double', 'value', 'derived', 'op', 'channel']]


@contract('C05', targets=[FS], samples=300,
          bound='one mutable of each kind, three layouts')
def every_kind(v):
    order = v.choose('order', ORDERS)
    n, vals = v.int('n', 1, N, chi=12), values(v, 0, 1)
    ratio = v.int('ratio', 1, 8)
    inside = v.choose('inside', ['', 'value', 'derived', 'op'])

    def make():
        return Super(order, n, vals, ratio, inside)
    src = make()
    p = src.parts()
    k = v.int('k', 1, N, chi=12)
    v.assume(k <= n)
    x = vals[v.choose('pick', [0, 1])]
    op = v.choose('op', ['a', 'b'])
    p['channel'].current_choice = k
    p['value'].current_choice = x
    p['op'].current_choice = op
    d, _ = export_fix_subnet(src)
    new = make()
    load_fix_subnet(new, plain(d, v.choose('form', ['as is', 'converted'])))
    q = new.parts()
    v.ensure('channel', q['channel'].current_choice == k)
    v.ensure('value', q['value'].current_choice == x)
    v.ensure('op', q['op'].choices == [op])
    v.ensure('derived', q['derived'].current_choice == k * x)
    v.ensure('doubled', q['double'].current_choice == k * ratio)
    for name in ('op', 'value', 'channel', 'derived', 'double'):
        v.ensure('all fixed', q[name].is_fixed)
        v.ensure('the supernet stays searchable', not p[name].is_fixed)


@contract('C05', targets=[FS], samples=100, bound='one derived mutable')
def outside_source(v):
    """A source that is no part of the model travels under the derived
    mutable's name."""
    n = v.int('n', 1, N, chi=12)
    ratio = v.int('ratio', 1, 8)

    def make():
        m = SquentialMutableChannel(n)
        model = nn.Module()
        model.d = m * ratio
        return model, m
    src, m = make()
    k = v.int('k', 1, N, chi=12)
    v.assume(k <= n)
    m.current_choice = k
    d, _ = export_fix_subnet(src)
    new, m2 = make()
    load_fix_subnet(new, d)
    v.ensure('source', v.all_of(m2.current_choice == k, m2.is_fixed))
    v.ensure('derived', new.d.current_choice == k * ratio)



@contract('C05', targets=[FS], kind='bounded', samples=30,
          bound='a supernet of every kind, three layouts, real files')
def by_file(v):
    """Written to a file and loaded by its name."""
    import os
    import tempfile

    from mmengine import fileio
    order = v.choose('order', ORDERS)
    n, vals, ratio = v.int('n', 1, 16), values(v, 0, 1), v.int('r', 1, 8)

    def make():
        return Super(order, n, vals, ratio, '')
    src = make()
    p = src.parts()
    k = v.int('k', 1, n)
    x = vals[v.choose('pick', [0, 1])]
    op = v.choose('op', ['a', 'b'])
    p['channel'].current_choice = k
    p['value'].current_choice = x
    p['op'].current_choice = op
    d, _ = export_fix_subnet(src)
    with tempfile.TemporaryDirectory() as tmp:
        path = os.path.join(tmp, 'subnet.' + v.choose(
            'format', ['yaml', 'json', 'pkl']))
        fileio.dump(convert_fix_subnet(d), path)
        new = make()
        load_fix_subnet(new, path)
    q = new.parts()
    v.ensure('the same choices', v.all_of(
        q['channel'].current_choice == k, q['value'].current_choice == x,
        q['op'].choices == [op], q['derived'].current_choice == k * x))
    v.ensure('all fixed', all(q[i].is_fixed for i in (
        'op', 'value', 'channel', 'derived', 'double')))
