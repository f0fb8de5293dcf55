"""C04: a mutable is fixed once, to a candidate, and then is that one."""
import torch
from torch import nn

from mmrazor.models.mutables import (DiffChoiceRoute, DiffMutableOP,
                                     MutableValue, OneHotMutableOP,
                                     OneShotMutableOP, OneShotMutableValue,
                                     SimpleMutableChannel,
                                     SquentialMutableChannel)
from mmrazor.models.mutables.mutable_module.diff_mutable_module import \
    GumbelChoiceRoute
from mmrazor.models.mutables.mutable_module.one_shot_mutable_module import \
    OneShotProbMutableOP
from mmrazor.registry import MODELS
from pyvc.harness import contract
from pyvc.loops import LoopSpec

MM = 'mmrazor/models/mutables/mutable_module/'
OS, DF = MM + 'one_shot_mutable_module.py', MM + 'diff_mutable_module.py'
MV = 'mmrazor/models/mutables/mutable_value/mutable_value.py'
BM = 'mmrazor/models/mutables/base_mutable.py'
BC = 'mmrazor/models/mutables/mutable_channel/base_mutable_channel.py'
N = 2**20


class Times(nn.Module):
    """A candidate that can be told apart: x -> x * w."""

    def __init__(self, w):
        super().__init__()
        self.w = w

    def forward(self, x):
        return x * self.w


MODELS.register_module(name='VcTimes', module=Times, force=True)

@contract('C04', targets=[BM])
def one_way(v):
    kind = v.choose('kind', ['value', 'channel', 'op', 'route'])
    m = {'value': lambda: MutableValue([1, 2]),
         'channel': lambda: SquentialMutableChannel(4),
         'op': lambda: OneShotMutableOP(nn.ModuleDict(dict(a=Times(1)))),
         'route': lambda: DiffChoiceRoute(nn.ModuleDict(dict(a=Times(1)))),
         }[kind]()
    v.ensure('starts unfixed', m.is_fixed is False)
    v.ensure('only a bool', v.raises(setattr, m, 'is_fixed', 1))
    v.ensure('still unfixed', m.is_fixed is False)
    m.is_fixed = True
    v.ensure('fixed', m.is_fixed is True)
    back = v.flag('back')
    v.ensure('never set again', v.raises(setattr, m, 'is_fixed', back))
    v.ensure('stays fixed', m.is_fixed is True)
    arg = {'value': 1, 'channel': 2, 'op': 'a', 'route': ['a']}[kind]
    v.ensure('not fixed twice', v.raises(m.fix_chosen, arg))
    v.ensure('still fixed', m.is_fixed is True)


@contract('C04', targets=[MV])
def value_setting(v):
    """Any list of values, any request."""
    vals = v.ints('vals', 1, N, min_len=1, chi=6)
    m = MutableValue(vals)
    v.ensure('starts with the first', m.current_choice == vals[0])
    v.ensure('as many choices', m.num_choices == len(vals))
    x = v.int('x', 0, N, chi=7)
    legal = v.exists(vals, lambda c: c == x)
    refused = v.raises(setattr, m, 'current_choice', x)
    v.ensure('only a candidate is accepted', refused == v.no(legal))
    v.ensure('refusal changes nothing', v.any_of(
        v.no(refused), m.current_choice == vals[0]))
    v.ensure('accepted as asked', v.any_of(refused, m.current_choice == x))


@contract('C04', targets=[MV])
def value_fixing(v):
    vals = v.ints('vals', 1, N, min_len=1, chi=6)
    m = MutableValue(vals)
    x = v.int('x', 0, N, chi=7)
    legal = v.exists(vals, lambda c: c == x)
    refused = v.raises(m.fix_chosen, x)
    v.ensure('fixed exactly to a candidate', refused == v.no(legal))
    v.ensure('fixed', m.is_fixed == v.no(refused))
    v.ensure('value', m.current_choice == (vals[0] if refused else x))
    dump = m.dump_chosen()
    v.ensure('dumped', dump.chosen == m.current_choice)
    if not refused:
        y = v.int('y', 0, N, chi=7)
        v.ensure('once', v.raises(m.fix_chosen, y))
        v.ensure('refusal keeps the value', v.all_of(
            m.current_choice == x, m.is_fixed))
        other = MutableValue(vals)
        other.fix_chosen(dump.chosen)
        v.ensure('round trip', other.current_choice == x)


@contract('C04', targets=[MV])
def value_default(v):
    vals = v.ints('vals', 1, N, min_len=1, chi=6)
    x = v.int('x', 1, N, chi=7)
    legal = v.exists(vals, lambda c: c == x)
    try:
        m = MutableValue(vals, default_value=x)
    except ValueError:
        v.ensure('refused only when no candidate', v.no(legal))
        return
    v.ensure('default', v.all_of(legal, m.current_choice == x))


@contract('C04', targets=[MV])
def value_bounds(v):
    a, b, c = (v.int(x, 1, N) for x in 'abc')
    m = OneShotMutableValue([a, b, c])
    lo, hi = m.min_choice, m.max_choice
    for x in (a, b, c):
        v.ensure('bounds', v.all_of(lo <= x, x <= hi))
        v.ensure('still a candidate', v.any_of(*[
            x == y for y in m.choices]))
    for x in (lo, hi):
        v.ensure('bounds are candidates', v.any_of(x == a, x == b, x == c))
    v.ensure('starts at the largest', m.current_choice == hi)
    s = m.sample_choice()
    v.ensure('samples are candidates', v.any_of(s == a, s == b, s == c))


@contract('C04', targets=[MV], samples=20)
def value_types(v):
    a, b = v.int('a', 1, N), v.float('b', 1.0, 64.0)
    order = v.choose('order', [[a, b], [b, a], [a, a, b], [b, b, a]])
    v.ensure('one type only', v.raises(MutableValue, order))


@contract('C04', targets=[BC])
def channel_fixing(v):
    n = v.int('n', 1, N)
    m = SquentialMutableChannel(n)
    k = v.int('k', 1, N)
    v.assume(k <= n)
    if v.flag('set before'):
        m.current_choice = k
        m.fix_chosen()
    else:
        m.fix_chosen(k)
    v.ensure('fixed', m.is_fixed)
    v.ensure('to what was asked', m.current_choice == k)
    v.ensure('dumped', m.dump_chosen().chosen == k)
    k2 = v.int('k2', 1, N)
    v.assume(k2 <= n)
    v.ensure('once', v.raises(m.fix_chosen, k2))
    v.ensure('refusal keeps the choice', m.current_choice == k)
    v.ensure('refusal keeps the mask', v.mask_count(m.current_mask) == k)


# --------------------------------------- fixing an op, any number of choices

class Cands(nn.ModuleDict):
    """Named candidates; only names and their presence are modelled."""
    names = present = None

    def keys(self):
        return self.names

    def pop(self, key):
        self.present.discard(key)

    def __contains__(self, key):
        return key in self.names


class Pool:
    """The names that are present: a set over any number of names."""

    def __init__(self, v, names):
        self.v, self.names = v, names
        if v.sym:
            import z3
            self.arr = z3.K(z3.StringSort(), z3.BoolVal(True))
        else:
            self.gone = set()

    def discard(self, key):
        if self.v.sym:
            import z3
            from pyvc import sym
            self.arr = z3.Store(self.arr, sym.to_str(key), False)
        else:
            self.gone.add(key)

    def has(self, key):
        if self.v.sym:
            import z3
            from pyvc import sym
            return sym.SBool(z3.Select(self.arr, sym.to_str(key)))
        return key not in self.gone


class Ghost:
    pool = None
    chosen = None

    @staticmethod
    def keep(key):
        from pyvc import sym
        return sym.either(False, *[key == c for c in Ghost.chosen])


def pruning_loop():
    def inv(ctx):
        import z3
        from pyvc import sym
        names = Ghost.pool.names
        j = z3.Int('cand')
        name = names.at(sym.SInt(j))
        has = sym.to_bool(Ghost.pool.has(name))
        keep = sym.to_bool(Ghost.keep(name))
        i, n = sym.to_int(ctx.i), names.nterm()

        def all_(lo, hi, c):
            return sym.SBool(z3.ForAll(
                [j], z3.Implies(z3.And(j >= lo, j < hi), c),
                patterns=[sym.to_str(name)]))
        return [('the others are gone', all_(z3.IntVal(0), i, has == keep)),
                ('the rest is untouched', all_(i, n, has))]

    def havoc(ctx):
        import z3
        from pyvc.sym import S
        Ghost.pool.arr = S().fresh('present', z3.ArraySort(
            z3.StringSort(), z3.BoolSort()))
        return ()
    return [LoopSpec(r'\.fix_chosen', inv, havoc, name='pruning')]


def any_candidates(v):
    """Any number of names, all different."""
    names = v.seq_of('names', lambda e: e.str('name'), min_len=1)
    if v.sym:
        import z3
        from pyvc import sym
        j = z3.Int('cand')
        at = z3.Function('index_of', z3.StringSort(), z3.IntSort())
        f = sym.to_str(names.at(sym.SInt(j)))
        sym.S().assume(z3.ForAll([j], z3.Implies(
            z3.And(j >= 0, j < names.nterm()), at(f) == j), patterns=[f]))
    else:
        v.assume(len(set(names)) == len(names))
    c = Cands()
    c.names = names
    c.present = Pool(v, names)
    Ghost.pool = c.present
    return c


@contract('C04', targets=[OS, DF], loops=pruning_loop, samples=300)
def op_fixing(v):
    """Exactly the chosen candidates survive."""
    kind = v.choose('kind', ['one shot', 'diff', 'route'])
    c = any_candidates(v)
    if kind == 'one shot':
        m = OneShotMutableOP(nn.ModuleDict(dict(a=Times(1))))
    elif kind == 'diff':
        m = DiffMutableOP(dict(a=dict(type='VcTimes', w=1)))
    else:
        m = DiffChoiceRoute(nn.ModuleDict(dict(a=Times(1))))
    m._candidates = c
    n = 2 if kind == 'route' or (kind == 'diff' and v.flag('list')) else 1
    chosen = [v.str(f'chosen{i}') for i in range(n)]
    if not v.sym and v.flag('legal'):
        chosen = [c.names[v.anyindex('pick', len(c.names))]
                  for _ in range(n)]
    Ghost.chosen = chosen
    legal = v.all_of(*[v.exists(c.names, lambda x, y=y: x == y)
                       for y in chosen])
    refused = v.raises(m.fix_chosen, chosen if n > 1 else chosen[0])
    v.ensure('fixed exactly to candidates', refused == v.no(legal))
    if refused:
        v.ensure('refusal keeps the state', m.is_fixed is False)
        v.ensure('refusal keeps the candidates', v.forall(
            c.names, lambda k: c.present.has(k)))
        return
    v.ensure('fixed', m.is_fixed is True)
    v.ensure('the chosen stay and the others go', v.forall(
        c.names, lambda k: c.present.has(k) == v.any_of(
            *[k == y for y in chosen])))
    got = m._chosen
    v.ensure('chosen recorded', got == chosen[0] if kind == 'one shot'
             else v.all_of(*[a == b for a, b in zip(got, chosen)]))


# ------------------------------------------------------------- behaviour

class Probs:
    """Architecture probabilities are given (softmax is torch's)."""
    probs = None

    def compute_arch_probs(self, arch_param):
        return arch_param


class ProbOp(Probs, DiffMutableOP):
    pass


class ProbRoute(Probs, DiffChoiceRoute):
    pass


def weights(v, n):
    return [v.int(f'w{i}', 1, 50) for i in range(n)]


def build(cls, ws):
    d = nn.ModuleDict({f'op{i}': Times(w) for i, w in enumerate(ws)})
    if issubclass(cls, DiffMutableOP):
        m = cls(dict(a=dict(type='VcTimes', w=1)))
        m._candidates = d
        return m
    return cls(d)


@contract('C04', targets=[OS], samples=150, bound='at most 4 candidates')
def op_forward(v):
    """What runs is what was chosen, before and after fixing."""
    n = v.small('n', 1, 4)
    ws = weights(v, n)
    m = build(OneShotMutableOP, ws)
    names = [f'op{i}' for i in range(n)]
    x = v.int('x', 1, N)
    v.ensure('choices', m.choices == names and m.num_choices == n)
    v.ensure('no choice yet: all', m(x) == sum(w * x for w in ws))
    k = v.small('pick', 0, n - 1)
    m.current_choice = names[k]
    v.ensure('the chosen one runs', m(x) == ws[k] * x)
    v.ensure('all on request', m.forward_all(x) == sum(w * x for w in ws))
    v.ensure('dumped', m.dump_chosen().chosen == names[k])
    j = v.small('fix', 0, n - 1)
    v.ensure('a stranger is refused', v.raises(m.fix_chosen, 'nothing'))
    v.ensure('unharmed', m.choices == names and not m.is_fixed)
    m.fix_chosen(names[j])
    v.ensure('only the chosen one is left', m.choices == [names[j]])
    v.ensure('the fixed one runs', m(x) == ws[j] * x)
    m.current_choice = names[k]
    v.ensure('the fixed one still runs', m(x) == ws[j] * x)


@contract('C04', targets=[DF], samples=150, bound='at most 3 candidates')
def diff_forward(v):
    n = v.small('n', 1, 3)
    ws = weights(v, n)
    m = build(ProbOp, ws)
    names = [f'op{i}' for i in range(n)]
    x = v.int('x', 1, 1000)
    ps = [v.int(f'p{i}', 0, 50) for i in range(n)]
    v.ensure('without parameters: all', m(x) == sum(w * x for w in ws))
    v.ensure('weighted sum', m(x, ps) == sum(
        p * w * x for p, w in zip(ps, ws)))
    keep = [i for i in range(n) if v.flag(f'keep{i}')]
    v.assume(len(keep) > 0)
    m.fix_chosen([names[i] for i in keep] if len(keep) > 1
                 else names[keep[0]])
    v.ensure('only the chosen are left',
             m.choices == [names[i] for i in keep])
    want = sum(ws[i] * x for i in keep)
    v.ensure('the fixed ones run', m(x, ps) == want)
    v.ensure('once', v.raises(m.fix_chosen, names[keep[0]]))
    v.ensure('refusal changes nothing', m(x, ps) == want)


@contract('C04', targets=[DF], samples=150, bound='at most 3 edges')
def route_forward(v):
    n = v.small('n', 1, 3)
    ws = weights(v, n)
    d = nn.ModuleDict({f'op{i}': Times(w) for i, w in enumerate(ws)})
    m = ProbRoute(d, with_arch_param=True)
    names = [f'op{i}' for i in range(n)]
    xs = [v.int(f'x{i}', 1, 1000) for i in range(n)]
    ps = [v.int(f'p{i}', 0, 50) for i in range(n)]
    v.ensure('without parameters: all',
             m(xs) == sum(w * x for w, x in zip(ws, xs)))
    v.ensure('weighted sum', m(xs, ps) == sum(
        p * w * x for p, w, x in zip(ps, ws, xs)))
    if v.flag('wrong number'):
        v.ensure('one input per edge', v.raises(m, xs + [1]))
        return
    keep = [i for i in range(n) if v.flag(f'keep{i}')]
    v.assume(len(keep) > 0)
    v.ensure('a stranger is refused', v.raises(m.fix_chosen, ['nothing']))
    m.fix_chosen([names[i] for i in keep])
    want = sum(ws[i] * xs[i] for i in keep)
    v.ensure('each fixed edge gets its own input', m(xs, ps) == want)
    v.ensure('once', v.raises(m.fix_chosen, [names[keep[0]]]))
    v.ensure('refusal changes nothing', m(xs, ps) == want)


@contract('C04', targets=[OS, DF], kind='bounded', samples=300)
def sampling(v):
    n = v.small('n', 1, 6)
    ws = list(range(1, n + 1))
    names = [f'op{i}' for i in range(n)]
    torch.manual_seed(v.small('seed', 0, 999))
    v.ensure('one shot', build(OneShotMutableOP, ws).sample_choice() in names)
    k = v.small('sure', 0, n - 1)
    p = OneShotProbMutableOP(nn.ModuleDict(
        {a: Times(w) for a, w in zip(names, ws)}),
        choice_probs=[float(i == k) for i in range(n)])
    v.ensure('by probability', p.sample_choice() == names[k])
    arch = torch.randn(n)
    best = sorted(range(n), key=lambda i: -arch[i])
    d = build(DiffMutableOP, ws)
    v.ensure('most probable', d.sample_choice(arch) == names[best[0]])
    m = v.small('num_chosen', 1, n)
    r = DiffChoiceRoute(nn.ModuleDict(
        {a: Times(w) for a, w in zip(names, ws)}), num_chosen=m)
    v.ensure('most probable edges',
             r.sample_choice(arch) == [names[i] for i in best[:m]])


@contract('C04', targets=[DF], kind='bounded', samples=200)
def one_hot(v):
    """It fixes itself only when the threshold is reached, to the best."""
    n = v.small('n', 2, 5)
    torch.manual_seed(v.small('seed', 0, 9999))
    m = OneHotMutableOP({f'op{i}': dict(type='VcTimes', w=1)
                         for i in range(n)},
                        fix_threshold=v.choose('thr', [.0, .1, .3, .6, 1.]))
    arch = nn.Parameter(torch.randn(n) * v.choose('spread', [.1, 1., 4.]))
    probs = arch.detach().softmax(-1)
    top = sorted(probs.tolist(), reverse=True)
    v.assume(abs(top[0] - top[1] - m.fix_threshold) > 1e-4)
    x = torch.rand(1, 2, 3, 3)
    out = m(x, arch)
    v.ensure('output', torch.allclose(out, x))
    v.ensure('fixed when sure enough',
             m.is_fixed == (top[0] - top[1] >= m.fix_threshold))
    if m.is_fixed:
        v.ensure('to the most probable',
                 m.choices == [f'op{int(probs.argmax())}'])
        v.ensure('runs', torch.allclose(m(x, arch), x))


@contract('C04', targets=[BC], samples=100)
def mask_fixing(v):
    """A channel mutable fixed to any mask."""
    n = v.int('n', 1, 2**10, chi=9)
    m = SimpleMutableChannel(n)

    def part(name):
        a = v.int(f'{name}a', 0, 2**10, chi=9)
        b = v.int(f'{name}b', 0, 2**10, chi=9)
        v.assume(v.all_of(a <= b, b <= n))
        mask = torch.zeros([n])
        mask[a:b] = 1
        return mask.bool(), a, b
    mask, a, b = part('x')
    if v.flag('set before'):
        m.current_choice = mask
        m.fix_chosen()
    else:
        m.fix_chosen(mask)
    v.ensure('fixed', m.is_fixed)
    v.ensure('refused', v.raises(m.fix_chosen, part('y')[0]))
    v.ensure('refused without one', v.raises(m.fix_chosen))
    got = m.current_mask
    v.ensure('as many entries', v.mask_len(got) == n)
    for i in v.each('i', n):
        v.ensure('the fixed mask', v.mask_at(got, i) == v.all_of(
            a <= i, i < b))


@contract('C04', targets=[OS, DF], kind='bounded', samples=60,
          bound='at most 3 candidates')
def from_config(v):
    """Candidates are built from their own configs and the common
    arguments; a Gumbel route uses its temperature."""
    n = v.small('n', 1, 3)
    ws = weights(v, n)
    common = v.flag('common')
    cfg = {f'op{i}': dict(type='VcTimes', **({} if common else dict(w=w)))
           for i, w in enumerate(ws)}
    x = torch.ones(1)
    for cls in (OneShotMutableOP, DiffMutableOP):
        m = cls({k: dict(c) for k, c in cfg.items()},
                module_kwargs=dict(w=ws[0]) if common else None)
        v.ensure('all candidates', m.choices == list(cfg))
        k = v.small('k', 0, n - 1)
        m.fix_chosen(f'op{k}')
        v.ensure('as configured', m(x) == x * (ws[0] if common else ws[k]))
    tau = v.choose('tau', [0.1, 1.0, 5.0])
    hard = v.flag('hard')
    r = GumbelChoiceRoute(nn.ModuleDict(
        {f'e{i}': Times(w) for i, w in enumerate(ws)}), hard=hard,
        with_arch_param=True)
    p = torch.randn(n)
    r.set_temperature(tau)
    torch.manual_seed(3)
    got = r([x] * n, p)
    torch.manual_seed(3)
    q = torch.nn.functional.gumbel_softmax(p, tau=tau, hard=hard)
    v.ensure('weighted by its draw', torch.allclose(
        got, sum(a * w * x for a, w in zip(q, ws))))
