"""C01: a requested width is honoured exactly."""
import torch

from mmrazor.models.mutables import (L1MutableChannelUnit, OneShotMutableChannel,
                                     OneShotMutableChannelUnit,
                                     SequentialMutableChannelUnit,
                                     SlimmableChannelUnit,
                                     SquentialMutableChannel)
from mmrazor.models.utils.make_divisible import make_divisible
from pyvc.harness import contract

BIG = 2**40
N = 2**30


def divisible_args(v):
    value = v.int('value', 1, BIG)
    divisor = v.int('divisor', 1, BIG, chi=64)
    return value, divisor


def prefix(v, label, mask, n, k):
    """mask has n entries, exactly the first k set."""
    v.ensure(f'{label}: mask length', v.mask_len(mask) == n)
    for i in v.each('pos', n):
        v.ensure(f'{label}: exactly the leading channels',
                 v.mask_at(mask, i) == (i < k))


# ---------------------------------------------------------------- rounding

@contract('C01', targets=['mmrazor/models/utils/make_divisible.py'],
          samples=400)
def make_divisible_default(v):
    value, divisor = divisible_args(v)
    r = make_divisible(value, divisor)
    v.ensure('multiple', r % divisor == 0)
    v.ensure('at least divisor', r >= divisor)
    v.ensure('not below 90 percent', r >= 0.9 * value)
    v.ensure('less than one divisor above', r - value < divisor)
    v.ensure('keeps multiples', v.implies(value % divisor == 0, r == value))


@contract('C01', targets=['mmrazor/models/utils/make_divisible.py'],
          samples=400)
def make_divisible_min(v):
    value, divisor = divisible_args(v)
    k = v.int('minmul', 0, 2**20, chi=6)
    ratio = v.float('min_ratio', 0.0, 1.0)
    m = k * divisor
    r = make_divisible(value, divisor, m, ratio)
    v.ensure('multiple', r % divisor == 0)
    v.ensure('at least divisor', r >= divisor)
    v.ensure('at least the minimum', r >= m)
    v.ensure('not below the ratio', r >= ratio * value)
    v.ensure('at most one divisor above',
             v.any_of(r - value <= divisor, r == m))


@contract('C01', targets=['mmrazor/models/utils/make_divisible.py'],
          samples=200)
def make_divisible_small_min(v):
    """A minimum below the divisor is raised to the divisor."""
    value, divisor = divisible_args(v)
    m = v.int('min', 0, BIG, chi=70)
    v.assume(m < divisor)
    r = make_divisible(value, divisor, m)
    v.ensure('multiple', r % divisor == 0)
    v.ensure('same as default', r == make_divisible(value, divisor))


@contract('C01', targets=['mmrazor/models/utils/make_divisible.py'],
          samples=300)
def make_divisible_monotone(v):
    """Asking for more never gives less."""
    value, divisor = divisible_args(v)
    more = v.int('more', 1, BIG)
    v.assume(more >= value)
    v.ensure('monotone', make_divisible(value, divisor) <=
             make_divisible(more, divisor))


def divisible_summary(f, args, kw):
    """What make_divisible_min/_small_min/_default prove, as a callee
    contract (used by the units instead of the body)."""
    import z3
    from pyvc import sym
    names = ['value', 'divisor', 'min_value', 'min_ratio']
    a = dict(zip(names, args), **kw)
    value, d = a['value'], a['divisor']
    m, ratio = a.get('min_value'), a.get('min_ratio', 0.9)
    s = sym.S()
    if not (isinstance(value, sym.Sym) or isinstance(d, sym.Sym)):
        return NotImplemented
    if m is not None and not (isinstance(m, int) and m <= 1):
        return NotImplemented
    di = sym.to_int(d)

    def fact(c):
        s.define(c)

    def rec(vi, guards):
        known = s.ghost.get('mult', {}).get(vi.get_id())
        if known is not None and known.eq(di):
            return sym.mk_int(vi)           # "keeps multiples"
        if z3.is_app_of(vi, z3.Z3_OP_ITE):
            c, x, y = vi.children()
            return sym.ite(sym.SBool(c), rec(x, guards + [c]),
                           rec(y, guards + [z3.Not(c)]))
        pre = z3.And(vi >= 1, di >= 1)
        s.oblige('make_divisible precondition',
                 z3.Implies(z3.And(guards), pre) if guards else pre, 'pre')

        def make():
            k = s.fresh('kdiv', z3.IntSort())
            r = s.fresh('rdiv', z3.IntSort())
            fact(z3.Implies(pre, z3.And(
                r == k * di, k >= 1, r >= di,
                z3.ToReal(r) >= sym.to_real(ratio)[0] * z3.ToReal(vi) * (
                    1 - sym.U53),
                r - vi < di)))
            q, rem = sym.fdivmod(vi, di)
            fact(z3.Implies(z3.And(pre, rem == 0), r == vi))
            fact(z3.Implies(z3.And(pre, di == 1), r == vi))
            s.ghost.setdefault('mult', {})[r.get_id()] = di
            for v2, d2, r2 in s.ghost.get('divs', ()):
                if d2.eq(di):       # make_divisible_monotone
                    fact(z3.Implies(pre, z3.And(
                        z3.Implies(vi <= v2, r <= r2),
                        z3.Implies(z3.And(1 <= v2, v2 <= vi), r2 <= r))))
            s.ghost.setdefault('divs', []).append((vi, di, r))
            return sym.mk_int(r)
        return s.memo(('make_divisible', vi, di), make)
    return rec(sym.to_int(value), [])


def modular():
    return {make_divisible: divisible_summary}


# ---------------------------------------------------------------- channels

def channel(v, mode):
    n = v.int('n', 1, N)
    return SquentialMutableChannel(n, choice_mode=mode), n


@contract('C01', targets=['mutable_channel/sequential_mutable_channel.py'])
def sequential_number(v):
    mode = v.choose('mode', ['number', 'ratio'])
    m, n = channel(v, mode)
    prefix(v, 'initial', m.current_mask, n, n)
    for step in ('a', 'b'):
        k = v.int(step, 1, N)
        v.assume(k <= n)
        m.current_choice = k
        prefix(v, 'number', m.current_mask, n, k)
        v.ensure('activated', m.activated_channels == k)
    if mode == 'number':
        v.ensure('read back', m.current_choice == k)
    else:
        v.ensure('read back ratio', m.current_choice == k / n)


@contract('C01', targets=['mutable_channel/sequential_mutable_channel.py'])
def sequential_ratio(v):
    mode = v.choose('mode', ['number', 'ratio'])
    m, n = channel(v, mode)
    r = v.float('ratio', 0.0, 1.0)
    v.assume(r > 0)
    m.current_choice = r
    k = m.activated_channels
    v.ensure('in range', v.all_of(k >= 1, k <= n))
    # floor(n * r), up to one part in a million for the float product
    v.ensure('not more than asked', v.any_of(k == 1, k <= n * r + 0.001))
    v.ensure('not less than the floor', k > n * r - 1.001)
    prefix(v, 'ratio', m.current_mask, n, k)


@contract('C01', targets=['mutable_channel/sequential_mutable_channel.py'],
          samples=400)
def sequential_reapply(v):
    """Reading the current choice and setting it again changes nothing."""
    mode = v.choose('mode', ['number', 'ratio'])
    m, n = channel(v, mode)
    k = v.int('k', 1, N)
    v.assume(k <= n)
    m.current_choice = k
    c = m.current_choice
    m.current_choice = c
    v.ensure('stable', m.activated_channels == k)
    v.ensure('same reading', m.current_choice == c)


@contract('C01', targets=['mutable_channel/oneshot_mutable_channel.py'])
def oneshot_channel(v):
    n = v.int('n', 1, N)
    cands = v.ints('cands', 1, N, min_len=1)
    v.assume(v.forall(cands, lambda c: c <= n))
    m = OneShotMutableChannel(n, cands.copy(), 'number')
    k = v.int('k', -2, N, chi=60)
    known = v.exists(cands, lambda c: c == k)
    if known:
        m.current_choice = k
        prefix(v, 'candidate', m.current_mask, n, k)
        v.ensure('read back', m.current_choice == k)
    else:
        before = m.activated_channels
        v.ensure('refused', v.raises(setattr, m, 'current_choice', k))
        v.ensure('unchanged', m.activated_channels == before)


@contract('C01', targets=['mutable_channel/oneshot_mutable_channel.py'])
def oneshot_channel_default(v):
    """Without candidates the only choice is the full width, whatever other
    channels were created before."""
    mode = v.choose('mode', ['number', 'ratio'])
    sizes = [v.int('n', 1, N), v.int('n2', 1, N)]
    ms = [OneShotMutableChannel(n, choice_mode=mode) for n in sizes]
    for m, n in zip(ms, sizes):
        full = n if mode == 'number' else 1.0
        v.ensure('one candidate', len(m.candidate_choices) == 1)
        v.ensure('full width', m.candidate_choices[0] == full)
        m.current_choice = full
        v.ensure('activated', m.activated_channels == n)


# ---------------------------------------------------------------- units

def unit_args(v):
    n = v.int('n', 1, N)
    divisor = v.int('divisor', 1, N, chi=20)
    return n, divisor


@contract('C01', modular=modular, targets=['units/sequential_mutable_channel_unit.py'],
          samples=300)
def unit_number(v):
    mode = v.choose('mode', ['number', 'ratio'])
    n, divisor = unit_args(v)
    u = SequentialMutableChannelUnit(n, mode, divisor=divisor)
    k = v.int('k', 1, N)
    v.assume(k <= n)
    u.current_choice = k
    want = make_divisible(k, divisor)
    act = u.mutable_channel.activated_channels
    v.ensure('rounded, clipped to the width', act == (
        want if want <= n else n))
    prefix(v, 'unit', u.mutable_channel.current_mask, n, act)
    if mode == 'number':
        v.ensure('read back', u.current_choice == act)
    else:
        v.ensure('read back ratio', u.current_choice == act / n)


@contract('C01', modular=modular, targets=['units/sequential_mutable_channel_unit.py'],
          samples=400)
def unit_reapply(v):
    mode = v.choose('mode', ['number', 'ratio'])
    n = v.int('n', 1, N)
    u = SequentialMutableChannelUnit(n, mode)
    k = v.int('k', 1, N)
    v.assume(k <= n)
    u.current_choice = k
    v.ensure('number honoured', u.mutable_channel.activated_channels == k)
    c = u.current_choice
    u.current_choice = c
    v.ensure('stable', u.mutable_channel.activated_channels == k)
    tmpl = u.config_template()
    v.ensure('template carries the choice', tmpl['choice'] == c)


@contract('C01', modular=modular, targets=['units/sequential_mutable_channel_unit.py'],
          samples=300)
def unit_sample(v):
    mode = v.choose('mode', ['number', 'ratio'])
    n, divisor = unit_args(v)
    u = SequentialMutableChannelUnit(n, mode, divisor=divisor)
    c = u.sample_choice()
    if mode == 'number':
        v.ensure('in range', v.all_of(c >= 1, c <= n))
        v.ensure('divisible or full width',
                 v.any_of(c % divisor == 0, c == n))
        u.current_choice = c
        v.ensure('applied as sampled',
                 u.mutable_channel.activated_channels == c)
    else:
        v.ensure('in range', v.all_of(c > 0, c <= 1))


class Largest:
    """The positions of the k largest of n entries: some k positions."""
    device = 'cpu'

    def __init__(self, v, n, k):
        self.vc_members = v.mask('largest', n)
        v.assume(v.mask_count(self.vc_members) == k)


class Norm:
    """n numbers of which only the largest are asked for"""

    def __init__(self, v, n):
        self.v, self.n = v, n

    def topk(self, k):
        self.v.ensure('no more than there are', v_all(self.v, k, self.n))
        self.top = Largest(self.v, self.n, k)
        return None, self.top


def v_all(v, k, n):
    return v.all_of(k >= 0, k <= n)


class L1Unit(L1MutableChannelUnit):
    """The norms themselves: C12, largest_kept."""

    def _get_unit_norm(self):
        return self.norm


@contract('C01', modular=modular, targets=['units/l1_mutable_channel_unit.py'],
          samples=300)
def l1_unit_number(v):
    mode = v.choose('mode', ['number', 'ratio'])
    n, divisor = unit_args(v)
    u = L1Unit(n, mode, divisor=divisor)
    if v.sym:
        object.__setattr__(u, 'norm', Norm(v, n))
    else:
        u.norm = torch.rand(n)
    k = v.int('k', 1, N)
    v.assume(k <= n)
    u.current_choice = k
    want = make_divisible(k, divisor)
    act = u.mutable_channel.activated_channels
    mask = u.mutable_channel.current_mask
    v.ensure('rounded, clipped to the width', act == (
        want if want <= n else n))
    v.ensure('a mask of all channels', v.mask_len(mask) == n)
    v.ensure('as many as chosen', v.mask_count(mask) == act)
    if v.sym:
        for i in v.each('pos', n):
            v.ensure('the largest', v.mask_at(mask, i) == v.mask_at(
                u.norm.top.vc_members, i))
    else:
        order = u.norm.sort(descending=True)[0]
        v.ensure('the largest', bool((u.norm[mask] >= order[act - 1]).all()))
    if mode == 'number':
        v.ensure('read back', u.current_choice == act)
    else:
        v.ensure('read back ratio', u.current_choice == act / n)


@contract('C01', modular=modular, targets=['units/l1_mutable_channel_unit.py'],
          samples=200)
def l1_unit_reapply(v):
    mode = v.choose('mode', ['number', 'ratio'])
    n = v.int('n', 1, N)
    u = L1Unit(n, mode)
    if v.sym:
        object.__setattr__(u, 'norm', Norm(v, n))
    else:
        u.norm = torch.rand(n)
    k = v.int('k', 1, N)
    v.assume(k <= n)
    u.current_choice = k
    v.ensure('number honoured', u.mutable_channel.activated_channels == k)
    u.current_choice = u.current_choice
    v.ensure('stable', u.mutable_channel.activated_channels == k)


@contract('C01', modular=modular, targets=['units/one_shot_mutable_channel_unit.py'],
          samples=400)
def oneshot_unit_number(v):
    n, divisor = unit_args(v)
    a = v.int('a', 1, N)
    v.assume(a <= n)
    cls = v.choose('cls', [OneShotMutableChannelUnit, SlimmableChannelUnit])
    u = cls(n, [a], 'number', divisor=divisor)
    c = u.sample_choice()
    v.ensure('candidate', len(u.candidate_choices) == 1)
    v.ensure('candidate in range', v.all_of(c >= 1, c <= n))
    v.ensure('candidate divisible or full',
             v.any_of(c % divisor == 0, c == n))
    v.ensure('max', u.max_choice == c)
    v.ensure('min', u.min_choice == c)
    if v.raises(setattr, u, 'current_choice', c):
        v.fail('a sampled candidate is accepted')
        return
    v.ensure('applied as sampled',
             u.mutable_channel.activated_channels == c)
    v.ensure('read back', u.current_choice == c)


@contract('C01', modular=modular, targets=['units/one_shot_mutable_channel_unit.py'],
          samples=400)
def oneshot_unit_candidates(v):
    n = v.int('n', 1, N)
    cands = [v.int(f'c{i}', 1, N) for i in range(v.small('ncand', 1, 3))]
    for c in cands:
        v.assume(c <= n)
    u = OneShotMutableChannelUnit(n, list(cands), 'number')
    got = u.candidate_choices
    v.ensure('as many candidates', len(got) == len(cands))
    for x, y in zip(got, got[1:]):
        v.ensure('candidates sorted', x <= y)
    v.ensure('max', u.max_choice == got[-1])
    v.ensure('min', u.min_choice == got[0])
    for c in cands:
        v.ensure('kept', v.any_of(*[c == g for g in got]))
    c = u.sample_choice()
    v.ensure('sample is a candidate', v.any_of(*[c == g for g in got]))
    u.current_choice = c
    v.ensure('applied as sampled',
             u.mutable_channel.activated_channels == c)
    v.ensure('read back', u.current_choice == c)


@contract('C01', modular=modular, targets=['units/one_shot_mutable_channel_unit.py'],
          samples=600)
def oneshot_unit_ratio(v):
    n = v.int('n', 1, N)
    r = v.float('r', 0.0, 1.0)
    v.assume(r > 0)
    u = OneShotMutableChannelUnit(n, [r], 'ratio')
    c = u.sample_choice()
    v.ensure('one candidate', c == u.min_choice)
    u.current_choice = c
    act = u.mutable_channel.activated_channels
    v.ensure('activated in range', v.all_of(act >= 1, act <= n))
    v.ensure('not below the asked ratio', act > r * n - 1.001)
    v.ensure('not above the asked ratio',
             v.any_of(act == 1, act <= r * n + 0.001))
    v.ensure('read back', u.current_choice == c)


@contract('C01', modular=modular, targets=['units/one_shot_mutable_channel_unit.py'])
def oneshot_unit_refuses(v):
    n = v.int('n', 1, N)
    a = v.int('a', 1, N)
    v.assume(a <= n)
    u = OneShotMutableChannelUnit(n, [a], 'number')
    u.current_choice = a
    k = v.int('k', -2, N, chi=50)
    v.assume(k != a)
    v.ensure('refused', v.raises(setattr, u, 'current_choice', k))
    v.ensure('unchanged', u.mutable_channel.activated_channels == a)
