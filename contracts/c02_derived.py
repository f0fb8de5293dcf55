"""C02: a derived choice always reflects its sources."""
from mmrazor.models.mutables import (DerivedMutable, MutableValue,
                                     OneShotMutableValue,
                                     SquentialMutableChannel)
from mmrazor.models.utils.make_divisible import make_divisible
from contracts.c01_channels import modular, prefix
from pyvc.harness import contract

N = 2**20
DM = 'mmrazor/models/mutables/derived_mutable.py'
SQ = 'mmrazor/models/mutables/mutable_channel/sequential_mutable_channel.py'


def source(v, name='n', hi=N):
    n = v.int(name, 1, hi)
    return SquentialMutableChannel(n), n


def move(v, m, n, tag):
    """Give the source a new width, as a user or searcher would."""
    k = v.int(f'{tag}', 1, N)
    v.assume(k <= n)
    m.current_choice = k
    return k


@contract('C02', targets=[DM, SQ])
def expand_by_int(v):
    m, n = source(v)
    r = v.int('ratio', 1, 2**10, chi=9)
    d = v.choose('how', [lambda: m * r, lambda: r * m,
                         lambda: m.derive_expand_mutable(r)])()
    for tag in ('a', 'b'):
        k = move(v, m, n, tag)
        v.ensure('choice', d.current_choice == k * r)
        prefix(v, 'mask', d.current_mask, n * r, k * r)


@contract('C02', targets=[DM, SQ])
def expand_by_float(v):
    m, n = source(v)
    r = v.float('ratio', 0.125, 8.0)
    d = m * r
    for tag in ('a', 'b'):
        k = move(v, m, n, tag)
        v.ensure('choice', d.current_choice == int(k * r))
        prefix(v, 'mask', d.current_mask, int(n * r), int(k * r))


@contract('C02', targets=[DM, SQ])
def same(v):
    m, n = source(v)
    d = m.derive_same_mutable()
    k = move(v, m, n, 'k')
    v.ensure('choice', d.current_choice == k)
    prefix(v, 'mask', d.current_mask, n, k)


@contract('C02', targets=[DM, SQ])
def expand_by_value(v):
    """Channel times value mutable, either order; both are sources."""
    m, n = source(v)
    vals = [v.int('v0', 1, 64, chi=8), v.int('v1', 1, 64, chi=8)]
    v.assume(vals[0] < vals[1])
    mv = OneShotMutableValue(list(vals))
    d = v.choose('how', [lambda: m * mv, lambda: mv * m])()
    v.ensure('sources', d.source_mutables == {m, mv})
    for tag in ('a', 'b'):
        k = move(v, m, n, tag)
        r = vals[v.choose(f'pick{tag}', [0, 1])]
        mv.current_choice = r
        v.ensure('choice', d.current_choice == k * r)
        prefix(v, 'mask', d.current_mask, n * vals[1], k * r)


def quotient(x, ratio, divisor):
    return make_divisible(x // ratio, divisor)


@contract('C02', targets=[DM, SQ], modular=modular, samples=300)
def divide_by_int(v):
    m, n = source(v)
    r = v.int('ratio', 1, 2**10, chi=9)
    divisor = v.choose('divisor', [8, 1, 3])
    how = v.choose('how', [0, 1, 2])
    v.assume(v.implies(divisor != 8, how > 0))
    d = (m // r, m // (r, divisor),
         m.derive_divide_mutable(r, divisor))[how]
    for tag in ('a', 'b'):
        k = move(v, m, n, tag)
        v.assume(k >= r)
        c = d.current_choice
        v.ensure('choice', c == quotient(k, r, divisor))
        v.ensure('divisible', c % divisor == 0)
        prefix(v, 'mask', d.current_mask, quotient(n, r, divisor), c)


@contract('C02', targets=[DM, SQ], modular=modular, samples=300)
def divide_by_float(v):
    """Choice and mask of a quotient agree, whatever the ratio's type."""
    m, n = source(v)
    r = v.int('ratio', 1, 2**10, chi=9)
    divisor = v.choose('divisor', [8, 1, 3])
    d = v.choose('how', [lambda: m.derive_divide_mutable(float(r), divisor),
                         lambda: m.derive_divide_mutable(
                             MutableValue([r]), divisor)])()
    k = move(v, m, n, 'k')
    v.assume(k >= r)
    v.ensure('choice', d.current_choice == quotient(k, r, divisor))
    prefix(v, 'mask', d.current_mask, quotient(n, r, divisor),
           d.current_choice)


@contract('C02', targets=[DM, SQ], modular=modular)
def divide_by_value_follows(v):
    """The quotient by a value mutable follows the value."""
    n = v.int('n', 4, N)
    m = SquentialMutableChannel(n)
    mv = OneShotMutableValue([1, 2])
    d = m // mv
    mv.current_choice = 1
    v.ensure('follows the value', d.current_choice == quotient(n, 1, 8))


@contract('C02', targets=[DM, SQ])
def expand_by_ratio_value_follows(v):
    n = v.int('n', 4, N)
    m = SquentialMutableChannel(n)
    mv = OneShotMutableValue([1, 2])
    d = m.derive_expand_mutable(mv)
    mv.current_choice = 1
    v.ensure('follows the value', d.current_choice == n)


@contract('C02', targets=[DM], samples=200)
def value_expand_divide(v):
    a, b = v.int('a', 1, N), v.int('b', 1, N)
    r = v.int('ratio', 1, 2**10, chi=9)
    mv = MutableValue([a, b])
    e = v.choose('how', [lambda: mv * r, lambda: r * mv])()
    mv.current_choice = b
    v.ensure('product', e.current_choice == b * r)
    mv.current_choice = a
    v.ensure('product follows', e.current_choice == a * r)
    v.ensure('sources', e.source_mutables == {mv})
    v.ensure('no mask', v.raises(lambda: e.current_mask))


@contract('C02', targets=[DM], modular=modular, samples=200)
def value_divide(v):
    a, b = v.int('a', 1, N), v.int('b', 1, N)
    r = v.int('ratio', 1, 2**10, chi=9)
    v.assume(v.all_of(a >= r, b >= r))
    mv = MutableValue([a, b])
    d, t = mv // r, mv // (r, 4)
    for x in (b, a):
        mv.current_choice = x
        v.ensure('quotient', d.current_choice == quotient(x, r, 8))
        v.ensure('quotient with divisor',
                 t.current_choice == quotient(x, r, 4))


def concat_parts(v, parts):
    ms = [source(v, f'n{i}', 2**12) for i in range(parts)]
    return [m for m, _ in ms], [n for _, n in ms]


@contract('C02', targets=[DM, SQ])
def concat(v):
    parts = v.small('parts', 1, 3)
    ms, ns = concat_parts(v, parts)
    d = DerivedMutable.derive_concat_mutable(ms)
    v.ensure('sources', d.source_mutables == set(ms))
    for tag in ('a', 'b'):
        ks = [move(v, m, n, f'{tag}{i}')
              for i, (m, n) in enumerate(zip(ms, ns))]
        v.ensure('choice', d.current_choice == sum(ks))
        mask = d.current_mask
        v.ensure('length', v.mask_len(mask) == sum(ns))
        off = 0
        for n, k in zip(ns, ks):
            for i in v.each('pos', n):
                v.ensure('every part at its place',
                         v.mask_at(mask, off + i) == (i < k))
            off = off + n


@contract('C02', targets=[DM, SQ])
def nested(v):
    """Derivation composes: (a * 2) ++ b, doubled."""
    a, na = source(v, 'na', 2**12)
    b, nb = source(v, 'nb', 2**12)
    r = v.int('ratio', 1, 8)
    c = a * r
    e = DerivedMutable.derive_concat_mutable([b, c])
    f = e.derive_expand_mutable(2)
    g = DerivedMutable.derive_concat_mutable([c, e, b])
    v.ensure('sources of the first', c.source_mutables == {a})
    for d in (e, f, g):
        v.ensure('sources', d.source_mutables == {a, b})
    ka, kb = move(v, a, na, 'ka'), move(v, b, nb, 'kb')
    v.ensure('concat', e.current_choice == kb + r * ka)
    v.ensure('expand of concat', f.current_choice == 2 * (kb + r * ka))
    v.ensure('concat of concat',
             g.current_choice == r * ka + kb + r * ka + kb)
    v.ensure('concat length',
             v.mask_len(e.current_mask) == nb + r * na)
    v.ensure('nested length', v.mask_len(g.current_mask) ==
             2 * (nb + r * na))
    prefix(v, 'expand of concat', f.current_mask, 2 * (nb + r * na),
           2 * (kb + r * ka))


@contract('C02', targets=[DM])
def read_only(v):
    m, n = source(v)
    other, _ = source(v, 'n2', 64)
    d = v.choose('kind', [lambda: m * 2, lambda: m // 2,
                          lambda: DerivedMutable.derive_concat_mutable(
                              [m, other])])()
    v.ensure('choice refused', v.raises(setattr, d, 'current_choice', n))
    v.ensure('mask refused', v.raises(setattr, d, 'current_mask',
                                      m.current_mask))
    v.ensure('fixing refused', v.raises(setattr, d, 'is_fixed', True))
    v.ensure('source untouched', m.current_choice == n)
    v.ensure('not fixed', not d.is_fixed)
    d.fix_chosen(1)
    v.ensure('fixing has no effect', v.all_of(
        not d.is_fixed, m.current_choice == n))
    m.fix_chosen()
    v.ensure('fixed with all its sources',
             d.is_fixed == (other not in d.source_mutables))
    other.fix_chosen()
    v.ensure('fixed', d.is_fixed)


@contract('C02', targets=[DM])
def enumerate_restores(v):
    """Listing the possible choices leaves the sources as they were."""
    a, b, c = (v.int(x, 1, N) for x in 'abc')
    v.assume(v.all_of(a != b, b != c, a != c))
    mv = OneShotMutableValue([a, b, c])
    cur = v.choose('cur', [a, b, c])
    mv.current_choice = cur
    d = mv * 2
    got = d.choices
    v.ensure('as many', len(got) == 3)
    for x in (a, b, c):
        v.ensure('listed', v.any_of(*[g == 2 * x for g in got]))
    v.ensure('restored', mv.current_choice == cur)
    v.ensure('still follows', d.current_choice == 2 * cur)
