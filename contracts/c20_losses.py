"""C20: a distillation loss is the number its paper and docstring define.

What the losses that work entry by entry do is proved for an arbitrary entry
of tensors of any shape, in real arithmetic. All other contracts are bounded:
their oracles are written down in double precision, sample by sample, from
the definitions of the losses, and real tensors of random shapes, values and
hyper-parameters are tried.
"""
import math

import torch
import torch.nn as nn
import torch.nn.functional as F
from mmengine.structures import BaseDataElement

from mmrazor.models import distillers, losses
from mmrazor.models.architectures import connectors
from mmrazor.models.losses.crd_loss import (AliasMethod, ContrastLoss,
                                            ContrastMemory)
from pyvc.harness import OutOfReach, contract, ghost

L = 'mmrazor/models/losses/'
CON = 'mmrazor/models/architectures/connectors/'


def shape_of(v, name='shape', maps=True, least=2):
    n, c = v.small('n', least, 4), v.small('c', 2, 5)
    if maps is True:
        maps = v.flag('maps')
    return (n, c, v.small('h', 1, 4), v.small('w', 1, 4)) if maps else (n, c)


def values(v, shape, lo=-3, hi=3, key='values', near=None):
    """random, sometimes close to another tensor, sometimes that tensor"""
    g = torch.Generator().manual_seed(v.int(key, 0, 10**6))
    t = torch.rand(shape, generator=g, dtype=torch.float64) * (hi - lo) + lo
    if near is not None:
        t = near.detach() + t * v.choose(key + '_far', [1., 1., .01, 0.])
    return t.requires_grad_()


def pair(v, shape, active=False, **kw):
    t = values(v, shape, key='teacher', **kw)
    if active and v.flag('active'):
        # behind an activation: many zeros
        t = t.detach().clamp(min=0).requires_grad_()
    return values(v, shape, key='student', near=t, **kw), t


def weight_of(v):
    return v.choose('weight', [1., .5, 3., 0.])


def check(v, what, got, want, tol=1e-7):
    got = got.detach() if isinstance(got, torch.Tensor) else torch.tensor(got)
    want = want.detach() if isinstance(want, torch.Tensor) else torch.tensor(
        float(want), dtype=torch.float64)
    v.ensure(what + ' in shape', got.numel() == want.numel(),
             f'{got.shape} {want.shape}')
    got, want = got.double().reshape(-1), want.double().reshape(-1)
    v.ensure(what, bool(((got - want).abs() <= tol *
                         (1 + want.abs())).all()), f'{got} {want}')


def slope(v, what, got, want, s, tol=1e-6):
    """the student is pulled where the definition says"""
    a = torch.autograd.grad(got.sum(), s, retain_graph=True,
                            allow_unused=True)[0]
    b = torch.autograd.grad(want.sum(), s, retain_graph=True,
                            allow_unused=True)[0]
    if b is None:
        b = torch.zeros_like(s)
    if a is None:
        a = torch.zeros_like(s)
    v.ensure(what, bool(((a - b).abs() <= tol * (1 + b.abs())).all()))


def untouched(v, got, t):
    v.ensure('nothing flows to the teacher', torch.autograd.grad(
        got.sum(), t, retain_graph=True, allow_unused=True)[0] is None
        if got.requires_grad else True)


def soft(x, tau):
    e = torch.exp(x / tau - (x / tau).max())
    return e / e.sum()


def kl(p, q):
    return (p * (p.log() - q.log())).sum()


def reduced(per, reduction, n):
    """per: all elements"""
    return {'none': per, 'sum': per.sum(), 'mean': per.mean(),
            'batchmean': per.sum() / n}[reduction]


# ------------------------------------------- entry by entry, for any shape
@ghost
class Entry:
    """An arbitrary entry of a tensor of some shape: what is done to it is
    done to all entries alike."""

    def __init__(self, x, shape):
        self.x, self.shape = x, shape

    @classmethod
    def __torch_function__(cls, func, types, args=(), kwargs=None):
        name, kw = getattr(func, '__name__', ''), kwargs or {}
        if name == 'where' and len(args) == 3:
            return args[0].like(val(args[1] if args[0].x else args[2]))
        if name in ('zeros_like', 'ones_like', 'full_like'):
            return args[0].like(args[1] if len(args) > 1 else
                                float(name[0] == 'o'))
        if name in ('mse_loss', 'l1_loss'):
            args = tuple(args) + tuple(kw.pop(k) for k in (
                'input', 'target')[len(args):])
            d = args[0] - args[1]
            d = d * d if name[0] == 'm' else abs(d)
            named = dict(kw)
            named.update(zip(('size_average', 'reduce', 'reduction'),
                             args[2:]))
            red = named.get('reduction', 'mean')
            if named.get('reduce') is not None or named.get(
                    'size_average') is not None:
                red = F._Reduction.legacy_get_string(
                    named.get('size_average'), named.get('reduce'))
            return d if red == 'none' else getattr(d, red)()
        if hasattr(cls, name) and not name.startswith('__'):
            return getattr(args[0], name)(*args[1:], **kw)
        raise OutOfReach(name)

    def like(self, x):
        return Entry(x, self.shape)

    def _with(self, o, f):
        if isinstance(o, Entry):
            if o.shape != self.shape:
                raise ValueError('shapes')
            o = o.x
        return self.like(f(self.x, o))

    def __add__(self, o):
        return self._with(o, lambda a, b: a + b)

    __radd__ = add = __add__

    def __sub__(self, o):
        return self._with(o, lambda a, b: a - b)

    sub = __sub__

    def __rsub__(self, o):
        return self._with(o, lambda a, b: b - a)

    def __mul__(self, o):
        return self._with(o, lambda a, b: a * b)

    __rmul__ = mul = __mul__

    def __truediv__(self, o):
        return self._with(o, lambda a, b: a / b)

    div = __truediv__

    def __neg__(self):
        return self.like(-self.x)

    def __pow__(self, k):
        if k != 2:
            raise OutOfReach(f'power {k}')
        return self.like(self.x * self.x)

    pow = __pow__

    def square(self):
        return self**2

    def __abs__(self):
        return self.like(self.x if self.x >= 0 else -self.x)

    abs = __abs__

    def clamp(self, min=None, max=None):
        x = self.x
        if min is not None and x < min:
            x = min
        if max is not None and x > max:
            x = max
        return self.like(x)

    clip = clamp

    def relu(self):
        return self.like(self.x if self.x >= 0 else self.x * 0)

    def __gt__(self, o):
        return self._with(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._with(o, lambda a, b: a >= b)

    def __lt__(self, o):
        return self._with(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._with(o, lambda a, b: a <= b)

    gt, ge, lt, le = __gt__, __ge__, __lt__, __le__

    def __and__(self, o):
        return self._with(o, lambda a, b: bool(a) and bool(b))

    def __or__(self, o):
        return self._with(o, lambda a, b: bool(a) or bool(b))

    logical_and, logical_or = __and__, __or__

    def __invert__(self):
        return self.like(not bool(self.x))

    def float(self):
        if isinstance(self.x, (int, float)) and not isinstance(self.x, bool):
            return self
        return self.like(1. if self.x else 0.)

    dtype, device = torch.float32, torch.device('cpu')

    def to(self, *a, **k):
        return self.float() if self.x is True or self.x is False or type(
            self.x).__name__ == 'SBool' else self

    type = type_as = to

    def detach(self):
        return self

    contiguous = clone = detach

    def size(self, i=None):
        return self.shape if i is None else self.shape[i]

    def dim(self):
        return len(self.shape)

    def numel(self):
        n = 1
        for k in self.shape:
            n = n * k
        return n

    def sum(self, dim=None):
        if dim is not None:
            raise OutOfReach('partial sum')
        return Total(self.x)

    def mean(self, dim=None):
        if dim is not None:
            raise OutOfReach('partial mean')
        return Total(self.x) / self.numel()


@ghost
class Total:
    """The sum over all entries, times a number"""

    def __init__(self, x):
        self.x = x

    def __mul__(self, k):
        return Total(self.x * k)

    __rmul__ = mul = __mul__

    def __truediv__(self, k):
        return Total(self.x / k)

    div = __truediv__

    def __add__(self, o):
        if not isinstance(o, Total):
            raise OutOfReach('a number added')
        return Total(self.x + o.x)

    @classmethod
    def __torch_function__(cls, func, types, args=(), kwargs=None):
        raise OutOfReach(getattr(func, '__name__', ''))


def val(x):
    return x.x if isinstance(x, Entry) else x


@contract('C20', targets=[L + 'l1_loss.py', L + 'mgd_loss.py',
                          L + 'ofd_loss.py', L + 'ab_loss.py',
                          L + 'l2_loss.py'], samples=200,
          opts=dict(ghost=dict(exact=True)))
def any_entry(v):
    """What each entry contributes, for tensors of any shape"""
    which = v.choose('loss', ['l1', 'mgd', 'ofd', 'ab', 'l2'])
    # (any numbers, whole or not)
    shape = tuple(v.float(k, 1, 10**6, chi=9) for k in 'nchw')
    if which != 'mgd' and v.flag('flat'):
        shape = shape[:2]
    x, y = v.float('s', -8, 8), v.float('t', -8, 8)
    w = v.float('weight', 0, 10)
    if v.sym:
        s, t = Entry(x, shape), Entry(y, shape)
    else:
        shape = tuple(1 + int(k) % 4 for k in shape)
        s, t = [torch.full(shape, z, dtype=torch.float64) for z in (x, y)]
    n, size = shape[0], s.numel()
    d2, scale = (x - y) * (x - y), w
    if which == 'l1':
        red = v.choose('reduction', ['none', 'mean', 'sum'])
        old = v.choose('old', [(None, None), (False, None), (True, None),
                               (None, False)])
        got = losses.L1Loss(w, *old, red)(s, t)
        red = {(None, None): red, (False, None): 'sum',
               (True, None): 'mean', (None, False): 'none'}[old]
        term = x - y if x >= y else y - x
        if v.sym:
            v.ensure('reduced', isinstance(got, Entry) == (red == 'none'))
        scale = w / size if red == 'mean' else w
    elif which == 'mgd':
        got, term, scale = losses.MGDLoss(w)(s, t), d2, w / n
    elif which == 'ofd':
        k = v.float('factor', .1, 1000)
        got = losses.OFDLoss(w, k)(s, t)
        term = d2 if v.any_of(x > y, y > 0) else 0.
        scale = w / n / k
    elif which == 'ab':
        m = v.float('margin', 0, 4)
        got = losses.ABLoss(w, m)(s, t)
        term = 0.
        if v.all_of(y > 0, x <= m):
            term = (x - m) * (x - m)
        if v.all_of(y <= 0, x > -m):
            term = (x + m) * (x + m)
        scale = w / n / 1000 * 3
    else:
        el = v.flag('el')
        got = losses.L2Loss(w, normalize=False, div_element=el)(s, t)
        term, scale = d2, w / (size if el else n)
    want = term * scale
    if v.sym:
        v.ensure('its part of the loss', got.x == want)
    else:
        if which != 'l1' or red != 'none':
            want = want * size
        check(v, 'the loss', got, got * 0 + want)


# ------------------------------------------------------------ soft targets
@contract('C20', targets=[L + 'kl_divergence.py'], kind='bounded',
          samples=400)
def soft_targets(v):
    """tau^2 KL(teacher || student) of the classes, at the temperature"""
    shape = shape_of(v)
    s, t = pair(v, shape)
    tau, w = v.choose('tau', [1., 4., .5]), weight_of(v)
    red = v.choose('reduction', ['none', 'batchmean', 'sum', 'mean'])
    detach = v.flag('detach')
    loss = losses.KLDivergence(tau, red, w, detach)
    got = loss(s, t)
    p, q = (t / tau).exp(), (s / tau).exp()
    p, q = p / p.sum(1, keepdim=True), q / q.sum(1, keepdim=True)
    want = w * tau**2 * reduced(p * (p.log() - q.log()), red, shape[0])
    check(v, 'the divergence', got, want)
    slope(v, 'and its slope', got, want, s)
    if detach:
        untouched(v, got, t)
    else:
        slope(v, 'also for the teacher', got, want, t)
    if red != 'none':
        v.ensure('never below zero', float(got) >= -1e-9)
    v.raises(lambda: losses.KLDivergence(reduction='other'),
             exc=AssertionError)


@contract('C20', targets=[L + 'kd_soft_ce_loss.py'], kind='bounded',
          samples=400)
def soft_cross_entropies(v):
    n, c = shape_of(v, maps=False)
    s, t = pair(v, (n, c))
    tau, w = v.choose('tau', [1., 4., .5]), weight_of(v)
    red = v.choose('reduction', ['none', 'sum', 'mean'])
    square = v.flag('square')
    loss = losses.KDSoftCELoss(tau, red, square, w)
    over = v.choose('override', [None, 'none', 'sum', 'mean'])
    per_sample = values(v, (n, ), 0, 2, 'samples').detach() \
        if v.flag('weighted') else None
    avg = v.choose('avg', [None, 3.]) if (over or red) == 'mean' else None
    got = loss(s, t, per_sample, avg, over)
    rows = []
    for i in range(n):
        r = -(soft(t[i], tau) * soft(s[i], tau).log()).sum()
        rows.append(r if per_sample is None else r * per_sample[i])
    want = torch.stack(rows)
    red = over or red
    if red == 'sum':
        want = want.sum()
    elif red == 'mean':
        want = want.sum() / (avg or n)
    want = want * w * (tau**2 if square else 1)
    check(v, 'the cross entropy', got, want, 1e-5)
    slope(v, 'and its slope', got, want, s, 1e-5)


@contract('C20', targets=[L + 'cross_entropy_loss.py'], kind='bounded',
          samples=300)
def hard_targets(v):
    n, c = shape_of(v, maps=False)
    s, t = pair(v, (n, c))
    w = weight_of(v)
    got = losses.CrossEntropyLoss(w)(s, t)
    want = w * torch.stack([
        -soft(s[i], 1.)[int(t[i].argmax())].log() for i in range(n)]).mean()
    check(v, 'the cross entropy', got, want)
    slope(v, 'and its slope', got, want, s)
    untouched(v, got, t)


@contract('C20', targets=[L + 'cwd.py'], kind='bounded', samples=300)
def channels_as_distributions(v):
    shape = shape_of(v, maps=1)
    s, t = pair(v, shape)
    tau, w = v.choose('tau', [1., 4., .5]), weight_of(v)
    got = losses.ChannelWiseDivergence(tau, w)(s, t)
    n, c = shape[:2]
    want = w * tau**2 / (n * c) * sum(
        kl(soft(t[i, j], tau), soft(s[i, j], tau))
        for i in range(n) for j in range(c))
    check(v, 'the divergence', got, want)
    slope(v, 'and its slope', got, want, s)
    v.ensure('never below zero', float(got) >= -1e-9)
    bigger = values(v, shape[:2] + (shape[2] + 1, shape[3]))
    v.raises(lambda: losses.ChannelWiseDivergence()(s, bigger),
             exc=AssertionError)


@contract('C20', targets=[L + 'decoupled_kd.py'], kind='bounded',
          samples=400)
def decoupled(v):
    """target class against the rest, and among the rest"""
    n, c = shape_of(v, maps=False)
    s, t = pair(v, (n, c))
    tau, w = v.choose('tau', [1., 4., .5]), weight_of(v)
    alpha, beta = v.choose('alpha', [1., 0., 2.]), v.choose('beta',
                                                            [1., 0., 8.])
    red = v.choose('reduction', ['batchmean', 'sum', 'mean'])
    y = torch.tensor([v.int(f'y{i}', 0, c - 1) for i in range(n)])
    target, rest = [], []
    for i in range(n):
        p, q = soft(t[i], tau), soft(s[i], tau)
        k = int(y[i])
        target.append(kl(torch.stack([p[k], 1 - p[k]]),
                         torch.stack([q[k], 1 - q[k]])))
        others = [j for j in range(c) if j != k]
        rest.append(kl(soft(t[i, others], tau), soft(s[i, others], tau)))
    over = {'sum': (1, 1), 'batchmean': (n, n), 'mean': (2 * n, c * n)}[red]
    want = w * tau**2 * (alpha * sum(target) / over[0] +
                         beta * sum(rest) / over[1])
    loss = losses.DKDLoss(tau, alpha, beta, red, w)
    got = loss(s, t, y if v.flag('flat') else y.reshape(n, 1))
    check(v, 'both parts', got, want, 1e-6)
    slope(v, 'and their slope', got, want, s, 1e-5)


@contract('C20', targets=[L + 'weighted_soft_label_distillation.py'],
          kind='bounded', samples=300)
def weighted_soft_labels(v):
    n, c = shape_of(v, maps=False)
    s, t = pair(v, (n, c))
    tau, w = v.choose('tau', [1., 4., .5]), weight_of(v)
    y = torch.tensor([v.int(f'y{i}', 0, c - 1) for i in range(n)])
    got = losses.WSLD(tau, w, c)(s, t, y)
    want = 0
    for i in range(n):
        ls = -soft(s[i], 1.)[int(y[i])].log().detach()
        lt = -soft(t[i], 1.)[int(y[i])].log().detach()
        focal = 1 - torch.exp(-(ls / (lt + 1e-7)))
        want = want - focal * (soft(t[i], tau) * soft(s[i], tau).log()).sum()
    want = w * tau**2 * want / n
    check(v, 'the loss', got, want)
    slope(v, 'and its slope', got, want, s)


@contract('C20', targets=[L + 'dist_loss.py'], kind='bounded', samples=300)
def correlations_of_predictions(v):
    n, c = shape_of(v, maps=False)
    s, t = pair(v, (n, c))
    tau, w = v.choose('tau', [1., 4., .5]), weight_of(v)
    inter, intra = v.choose('inter', [1., 0., 2.]), v.choose('intra',
                                                             [1., 0., 3.])
    detach = v.flag('detach')
    got = losses.DISTLoss(inter, intra, tau, w, detach)(s, t)
    p = torch.stack([soft(x, tau) for x in s])
    q = torch.stack([soft(x, tau) for x in t])
    if detach:
        q = q.detach()

    def r(a, b):
        a, b = a - a.mean(), b - b.mean()
        return (a * b).sum() / (a.pow(2).sum().sqrt() *
                                b.pow(2).sum().sqrt() + 1e-8)

    rows = 1 - sum(r(p[i], q[i]) for i in range(n)) / n
    cols = 1 - sum(r(p[:, j], q[:, j]) for j in range(c)) / c
    want = w * tau**2 * (inter * rows + intra * cols)
    check(v, 'the correlations', got, want, 1e-5)
    if detach:
        untouched(v, got, t)


# ---------------------------------------------------------------- features
@contract('C20', targets=[L + 'l1_loss.py', L + 'mgd_loss.py',
                          L + 'ofd_loss.py', L + 'ab_loss.py'],
          kind='bounded', samples=200)
def element_by_element(v):
    which = v.choose('loss', ['l1', 'mgd', 'ofd', 'ab'])
    shape = shape_of(v, maps=1 if which == 'mgd' else True)
    s, t = pair(v, shape, active=True)
    w = weight_of(v)
    n = shape[0]
    a, b = s.reshape(-1), t.reshape(-1)
    if which == 'l1':
        red = v.choose('reduction', ['none', 'mean', 'sum'])
        got = losses.L1Loss(w, reduction=red)(s, t)
        want = w * reduced(torch.stack([abs(x - y) for x, y in zip(a, b)]),
                           red, n)
        for old, new in [((False, None), 'sum'), ((True, None), 'mean'),
                         ((None, False), 'none')]:
            check(v, 'as ever', losses.L1Loss(w, *old)(s, t),
                  losses.L1Loss(w, reduction=new)(s, t))
    elif which == 'mgd':
        w = v.choose('alpha', [2e-5, 1.])
        got = losses.MGDLoss(w)(s, t)
        want = w * sum((x - y)**2 for x, y in zip(a, b)) / n
    elif which == 'ofd':
        k = v.choose('factor', [1000., 1.])
        got = losses.OFDLoss(w, k)(s, t)
        want = s.sum() * 0
        for x, y in zip(a, b):
            if x > y or y > 0:
                want = want + (x - y)**2
        want = w * want / n / k
    else:
        m = v.choose('margin', [1., .5, 0.])
        got = losses.ABLoss(w, m)(s, t)
        want = s.sum() * 0
        for x, y in zip(a, b):
            if y > 0 and x <= m:
                want = want + (x - m)**2
            if y <= 0 and x > -m:
                want = want + (x + m)**2
        want = w * want / n / 1000 * 3
    check(v, 'the loss', got, want)
    slope(v, 'and its slope', got, want, s)


@contract('C20', targets=[L + 'l2_loss.py', L + 'factor_transfer_loss.py',
                          L + 'at_loss.py'], kind='bounded', samples=200)
def of_normalised_features(v):
    which = v.choose('loss', ['l2', 'ft', 'at'])
    shape = shape_of(v, maps=1 if which == 'at' else True)
    s, t = pair(v, shape)
    w = weight_of(v)
    n = shape[0]

    def unit(x):
        return x / x.pow(2).sum().sqrt()

    if which == 'l2':
        norm, by_el, dist = v.flag('norm'), v.flag('el'), v.flag('dist')
        k = v.choose('mult', [1., 3.])
        got = losses.L2Loss(w, norm, k, by_el, dist)(s, t)
        f = (lambda x: unit(x) * k) if norm else (lambda x: x)
        want = sum(((f(s[i]) - f(t[i]))**2).sum() for i in range(n))
        if dist:
            if float(want) < 1e-12:
                return check(v, 'no distance', got, 0., 1e-5)
            want = want.sqrt()
        else:
            want = want / (s.numel() if by_el else n)
        want = w * want
    elif which == 'ft':
        got = losses.FTLoss(w)(s, t)
        want = w * sum((unit(s[i]) - unit(t[i])).abs().sum()
                       for i in range(n)) / s.numel()
    else:
        got = losses.ATLoss(w)(s, t)
        size = shape[2] * shape[3]

        def attention(x):
            return unit(sum(x[c]**2 for c in range(shape[1])) / shape[1])

        want = w * sum(((attention(s[i]) - attention(t[i]))**2).sum()
                       for i in range(n)) / (n * size)
    check(v, 'the loss', got, want, 1e-6)
    if which != 'ft':
        slope(v, 'and its slope', got, want, s, 1e-5)


@contract('C20', targets=[L + 'pkd_loss.py'], kind='bounded', samples=400)
def correlations_of_features(v):
    """one minus the correlation of each channel, over the batch"""
    several = v.small('maps', 1, 3)
    w, stu = weight_of(v), v.flag('resize_stu')
    ss, ts, want = [], [], 0
    for i in range(several):
        n, c, h, wd = (v.small(f'n{i}', 1, 3), v.small(f'c{i}', 1, 3),
                       v.small(f'h{i}', 2, 4), v.small(f'w{i}', 2, 4))
        t = values(v, (n, c, h, wd), key=f'teacher{i}')
        if v.flag(f'other_size{i}'):
            s = values(v, (n, c, v.small(f'sh{i}', 2, 4),
                           v.small(f'sw{i}', 2, 4)), key=f'student{i}')
        else:
            s = values(v, (n, c, h, wd), key=f'student{i}', near=t)
        ss.append(s)
        ts.append(t)
        if s.shape != t.shape:
            if stu:
                s = F.interpolate(s, t.shape[2:], mode='bilinear')
            else:
                t = F.interpolate(t, s.shape[2:], mode='bilinear')
        total = 0
        for j in range(c):
            a, b = s[:, j].reshape(-1), t[:, j].reshape(-1)
            k = len(a)
            r = ((a - a.mean()) * (b - b.mean())).sum() / (
                a.var() * b.var()).sqrt() / (k - 1)
            total = total + (1 - r) * (k - 1) / k
        want = want + total / c
    want = w * want
    loss = losses.PKDLoss(w, stu)
    got = loss(ss[0], ts[0]) if several == 1 and v.flag('plain') else loss(
        tuple(ss), tuple(ts))
    check(v, 'the correlation', got, want, 1e-4)


@contract('C20', targets=[L + 'relational_kd.py'], kind='bounded',
          samples=300)
def relations_between_samples(v):
    shape = shape_of(v, least=3)
    n = shape[0]
    t = values(v, shape, key='teacher')
    s = values(v, shape[:1] + (v.small('c2', 2, 5), ), key='student') \
        if v.flag('other width') else values(v, shape, key='student', near=t)
    w, unit = weight_of(v), v.flag('unit')

    def flat(x):
        x = x.reshape(n, -1)
        return x / x.pow(2).sum(1, keepdim=True).sqrt() if unit else x

    def huber(d):
        d = d.abs()
        return torch.where(d < 1, d * d / 2, d - .5)

    a, b = flat(s), flat(t)
    if a.shape[1] == b.shape[1] == 1:
        return
    if v.flag('angles'):
        got = losses.AngleWiseRKD(w, unit)(s, t)

        def cosine(x, i, j, k):
            p, q = x[j] - x[i], x[k] - x[i]
            size = p.pow(2).sum().sqrt() * q.pow(2).sum().sqrt()
            return (p * q).sum() / size if size > 0 else size * 0

        want = sum(huber(cosine(a, i, j, k) - cosine(b, i, j, k))
                   for i in range(n) for j in range(n)
                   for k in range(n)) / n**3
    else:
        got = losses.DistanceWiseRKD(w, unit)(s, t)

        def dist(x):
            d = {(i, j): (x[i] - x[j]).pow(2).sum().sqrt()
                 for i in range(n) for j in range(n) if i != j}
            mean = sum(d.values()) / len(d)
            return {k: e / mean for k, e in d.items()}

        da, db = dist(a), dist(b)
        want = sum(huber(da[k] - db[k]) for k in da) / n**2
    check(v, 'the relations', got, w * want, 1e-5)


@contract('C20', targets=[L + 'fbkd_loss.py', CON + 'fbkd_connector.py'],
          kind='bounded', samples=400)
def attention_guided(v):
    """FBKD: attention masks, pooled features and relations, end to end"""
    n, c, h, w = (v.small('n', 1, 3), 2 * v.small('c', 1, 2),
                  v.small('h', 1, 4), v.small('w', 1, 4))
    s = values(v, (n, c, h, w), key='student')
    t = values(v, (n, c, h, w), key='teacher')
    st, ct = v.choose('spatial_T', [.5, 2.]), v.choose('channel_T', [.5, 2.])
    torch.manual_seed(v.int('seed', 0, 999))
    kw = dict(in_channels=c, spatial_T=st, channel_T=ct, zeros_init=False)
    stu = connectors.FBKDStudentConnector(**kw).double().eval()
    tea = connectors.FBKDTeacherConnector(**kw).double().eval()
    outs, outt = stu(s), tea(t)

    def spatial(x):
        return torch.stack([
            soft(x[i].abs().mean(0), st) * h * w for i in range(n)]
        ).reshape(n, 1, h, w)

    def channel(x):
        return torch.stack([
            soft(x[i].abs().mean((1, 2)), ct) * c for i in range(n)]
        ).reshape(n, c, 1, 1)

    for who, x, out in [('student', s, outs), ('teacher', t, outt)]:
        check(v, f'spatial mask of the {who}', out[0], spatial(x))
        check(v, f'channel mask of the {who}', out[1], channel(x))
    check(v, 'pooled over space', outs[2],
          stu.channel_wise_adaptation(s.mean((2, 3))))
    check(v, 'pooled over channels', outs[3],
          stu.spatial_wise_adaptation(s.mean(1, keepdim=True)))
    check(v, 'pooled over channels by the teacher', outt[2],
          t.mean(1, keepdim=True))
    check(v, 'relations', outs[4],
          stu.non_local_adaptation(stu.student_non_local(s)))
    check(v, 'relations of the teacher', outt[3], tea.teacher_non_local(t))
    check(v, 'features', outs[5], stu.adaptation_layers(s))
    check(v, 'features of the teacher', outt[4], t)
    ws = [v.choose(f'w{i}', [1., .1, 0.]) for i in range(5)]
    got = losses.FBKDLoss(*ws)(outs, outt)
    mask = ((outs[0] + outt[0]) / 2).detach()

    def far(a, b):
        return (a - b).pow(2).sum().sqrt()

    want = ws[4] * (
        ws[0] * (mask * (t - outs[5])**2).sum().sqrt() +
        ws[1] * far(t.mean((2, 3)), outs[2]) +
        ws[2] * far(outt[2], outs[3]) + ws[3] * far(outt[3], outs[4]))
    check(v, 'the loss', got, want, 1e-6)
    slope(v, 'and its slope', got, want, s, 1e-5)


# -------------------------------------------------------------- contrastive
@contract('C20', targets=[L + 'crd_loss.py', CON + 'crd_connector.py'],
          kind='bounded', samples=200)
def contrasted_with_memory(v):
    """CRD: the memory, its update, the normalisers and the loss"""
    n_data, dim, neg = v.small('data', 4, 8), v.small('dim', 2, 4), v.small(
        'neg', 1, 3)
    bsz = v.small('bsz', 1, 3)
    T, mom, eps = v.choose('T', [.07, .5]), v.choose('mom', [.5, .9, 0.]), 1e-7
    w = v.choose('weight', [1., .5, 3.])
    torch.manual_seed(v.int('seed', 0, 999))
    loss = losses.CRDLoss(w, T, neg, n_data, dim, mom, eps).double()
    loss.contrast.params = torch.tensor([neg, T, -1, -1, mom]).double()
    cs, ct = [connectors.CRDConnector(3, dim).double() for _ in range(2)]
    zs = zt = None
    for step in range(v.small('steps', 1, 3)):
        idx = torch.randperm(n_data)[:bsz]
        con = torch.randint(0, n_data, (bsz, neg + 1))
        con[:, 0] = idx
        given = step == 0 or v.flag(f'given{step}')
        xs, xt = [values(v, (bsz, 3), key=f'{k}{step}') for k in 'st']
        fs, ft = cs(xs), ct(xt)
        for f, c, x in [(fs, cs, xs), (ft, ct, xt)]:
            raw = x @ c.linear.weight.t() + c.linear.bias
            check(v, 'embedded on the sphere', f,
                  raw / raw.pow(2).sum(1, keepdim=True).sqrt(), 1e-6)
        m1, m2 = (loss.contrast.memory_v1.clone(),
                  loss.contrast.memory_v2.clone())
        data = [BaseDataElement(metainfo=dict(sample_idx=i)) for i in idx]
        if given:
            for d, k in zip(data, con):
                d.set_metainfo(dict(contrast_sample_idxs=k))
        else:
            def draw(num, c=con):
                v.ensure('asks for all', num == bsz * (neg + 1))
                c = c.clone()
                c[:, 0] = 0
                return c.reshape(-1)
            loss.contrast.multinomial.draw = draw
        got = loss(fs, ft, data)
        es = torch.stack([torch.stack([
            (m2[k] * fs[i]).sum() for k in con[i]]) for i in range(bsz)])
        et = torch.stack([torch.stack([
            (m1[k] * ft[i]).sum() for k in con[i]]) for i in range(bsz)])
        es, et = (es / T).exp(), (et / T).exp()
        if step == 0:
            zs, zt = (float(es.mean()) * n_data, float(et.mean()) * n_data)
        want = 0
        for x in (es / zs, et / zt):
            k = neg / n_data
            for i in range(bsz):
                want = want - (x[i, 0] / (x[i, 0] + k + eps)).log()
                for j in range(neg):
                    want = want - (k / (x[i, j + 1] + k + eps)).log()
        want = w * want / bsz
        check(v, 'the loss', got, want, 1e-5)
        slope(v, 'and its slope', got, want, xs, 1e-4)
        slope(v, 'also for the teacher', got, want, xt, 1e-4)
        with torch.no_grad():
            for m, f in [(m1, fs), (m2, ft)]:
                for i, k in enumerate(idx):
                    x = m[k] * mom + f[i] * (1 - mom)
                    m[k] = x / x.pow(2).sum().sqrt()
        check(v, "the student's memory", loss.contrast.memory_v1, m1, 1e-6)
        check(v, "the teacher's memory", loss.contrast.memory_v2, m2, 1e-6)


@contract('C20', targets=[L + 'crd_loss.py'], kind='bounded', samples=300)
def drawn_as_likely(v):
    """the alias tables give each outcome exactly its probability"""
    n = v.small('n', 1, 7)
    probs = torch.tensor([float(v.int(f'p{i}', 1, 20)) for i in range(n)])
    want = probs / probs.sum()
    m = AliasMethod(probs.clone())
    v.ensure('tables', len(m.prob) == len(m.alias) == n)
    got = [0.] * n
    for k in range(n):
        p = float(m.prob[k])
        v.ensure('a probability', -1e-6 <= p <= 1 + 1e-6)
        got[k] += p / n
        got[int(m.alias[k])] += (1 - p) / n
    check(v, 'each as likely as it should', torch.tensor(got), want, 1e-5)
    # a draw takes a row of the table and then one of its two outcomes
    rows = torch.arange(n)
    kept = torch.tensor([v.flag(f'kept{i}') for i in range(n)])
    m.prob = kept.float()
    torch.manual_seed(v.int('seed', 0, 999))
    seen = m.draw(200)
    ok = {int(r) if kept[r] else int(m.alias[r]) for r in rows}
    v.ensure('only those', set(seen.tolist()) <= ok)
    v.ensure('as many', seen.shape == (200, ) and seen.dtype == torch.long)
    if n == 1:
        v.ensure('the only one', ok == {0})


# ----------------------------------------------------------------- datafree
@contract('C20', targets=[L + 'dafl_loss.py'], kind='bounded', samples=400)
def without_data(v):
    n, c = shape_of(v, maps=False)
    t = values(v, (n, c))
    w = weight_of(v)
    which = v.choose('loss', ['onehot', 'entropy', 'activation'])
    if which == 'onehot':
        got = losses.OnehotLikeLoss(loss_weight=w)(t)
        want = -sum(soft(x, 1.).max().log() for x in t) / n
    elif which == 'entropy':
        loss = losses.InformationEntropyLoss(loss_weight=w,
                                             gather=v.flag('gather'))
        if v.flag('ranks'):
            # all of the predictions count, wherever they were made
            from mmrazor.models.losses import dafl_loss
            parts = v.small('world', 2, 3)
            loss.world_size = parts
            others = [values(v, (n, c), key=f'rank{i}')
                      for i in range(1, parts)]

            class Gather:
                @staticmethod
                def apply(x):
                    return tuple([x] + others)

            old, dafl_loss.GatherTensors = dafl_loss.GatherTensors, Gather
            try:
                got = loss(t)
            finally:
                dafl_loss.GatherTensors = old
            rows = list(t)
            if loss.gather:
                rows += [r for o in others for r in o]
        else:
            got, rows = loss(t), list(t)
        p = sum(soft(x, 1.) for x in rows) / len(rows)
        want = (p * p.log()).sum() / math.log(10)
    else:
        shape = shape_of(v)
        t = values(v, shape)
        kind = v.choose('norm', ['abs', 'norm'])
        got = losses.ActivationLoss(w, kind)(t)
        want = -t.abs().mean() if kind == 'abs' else -t.pow(2).sum().sqrt()
    want = w * want
    check(v, 'the loss', got, want)
    slope(v, 'and its slope', got, want, t)


# --------------------------------------------------------------- connectors
@contract('C20', targets=[CON + 'mgd_connector.py'], kind='bounded',
          samples=400)
def masked_generation(v):
    """MGD: positions (or channels) hidden at the given rate, the rest
    passed on as it is to the generation"""
    n, cs, ct = v.small('n', 1, 3), v.small('cs', 1, 3), v.small('ct', 1, 3)
    h, w = v.small('h', 1, 4), v.small('w', 1, 4)
    by_channel, rate = v.flag('channel'), v.choose('rate', [.65, .3, 0., 1.])
    torch.manual_seed(v.int('seed', 0, 9999))
    con = connectors.MGDConnector(cs, ct, rate, by_channel)
    x = values(v, (n, cs, h, w), .5, 3).float()
    seen = []
    con.generation.register_forward_pre_hook(
        lambda m, a: seen.append(a[0].clone()))
    drawn = []
    real = torch.rand

    def rand(*a, **k):
        drawn.append(real(*a, **k))
        return drawn[-1]

    torch.rand = rand
    try:
        out = con(x)
    finally:
        torch.rand = real
    full = x if cs == ct else con.align(x)
    v.ensure('same width: no alignment', (con.align is None) == (cs == ct))
    got = seen[0]
    v.ensure('once', len(seen) == 1)
    check(v, 'generated from it', out, con.generation(got.clone()), 1e-5)
    hidden = [got[i, :, a, b] if not by_channel else got[i, k]
              for i in range(n)
              for (a, b, k) in ([(0, 0, k) for k in range(ct)] if by_channel
                                else [(a, b, 0) for a in range(h)
                                      for b in range(w)])]
    kept = [full[i, :, a, b] if not by_channel else full[i, k]
            for i in range(n)
            for (a, b, k) in ([(0, 0, k) for k in range(ct)] if by_channel
                              else [(a, b, 0) for a in range(h)
                                    for b in range(w)])]
    for g, k in zip(hidden, kept):
        v.ensure('hidden or as it is', bool((g == 0).all()) or bool(
            torch.allclose(g, k, atol=1e-6)))
    if rate == 0.:
        check(v, 'nothing hidden', got, full, 1e-6)
    if rate == 1.:
        v.ensure('all hidden', bool((got == 0).all()))
    if len(drawn) == 1 and drawn[0].numel() == len(hidden):
        u = drawn[0].reshape(-1)
        for g, k, one in zip(hidden, kept, u):
            if abs(float(one) - (1 - rate)) > 1e-6:
                v.ensure('at the rate given', bool(
                    (g == 0).all()) == bool(one > 1 - rate) or bool(
                        (k == 0).all()))


@contract('C20', targets=[CON + 'mgd_connector.py'], kind='bounded',
          samples=6)
def masked_at_the_rate(v):
    rate = v.choose('rate', [.65, .3, .5])
    by_channel = v.flag('channel')
    torch.manual_seed(v.int('seed', 0, 9999))
    con = connectors.MGDConnector(60, 60, rate, by_channel)
    con.generation = nn.Identity()
    x = torch.ones(60, 60, 10, 10)
    out = con(x)
    got = (out == 0).float().mean(dim=(2, 3) if by_channel else 1)
    v.ensure('whole channels or positions', bool(
        ((got == 0) | (got == 1)).all()))
    v.ensure('as many as asked', abs(float(got.mean()) - rate) < .05,
             f'{float(got.mean())} {rate}')


@contract('C20', targets=[CON + 'ofd_connector.py',
                          'mmrazor/models/distillers/ofd_distiller.py'],
          kind='bounded', samples=400)
def margins(v):
    """OFD: the mean of the negative responses of each channel"""
    c = v.small('c', 1, 5)
    bn = nn.BatchNorm2d(c)
    with torch.no_grad():
        for i in range(c):
            bn.weight[i] = v.choose(f's{i}', [1., -.7, .2, 2.])
            bn.bias[i] = v.choose(f'm{i}', [0., 1., -1., .5, 8.])

    class Teacher(nn.Module):
        def __init__(self):
            super().__init__()
            self.bn = bn
            self.other = nn.BatchNorm2d(c)

    d = distillers.OFDDistiller(
        student_recorders=dict(bn_s=dict(type='ModuleOutputs', source='bn')),
        teacher_recorders=dict(bn_t=dict(type='ModuleOutputs', source='bn')),
        distill_losses=dict(loss_1=dict(type='OFDLoss')),
        connectors=dict(con_t=dict(type='OFDTeacherConnector'),
                        con_s=dict(type='TorchFunctionalConnector',
                                   function_name='relu')),
        loss_forward_mappings=dict(loss_1=dict(
            s_feature=dict(from_student=True, recorder='bn_s',
                           connector='con_s'),
            t_feature=dict(from_student=False, recorder='bn_t',
                           connector='con_t'))))
    con = d.connectors['con_t']
    x = values(v, (2, c, 2, 2)).float()
    v.raises(lambda: con(x), exc=AssertionError)
    d.init_ofd_connectors(Teacher())
    want = []
    for i in range(c):
        s, m = abs(float(bn.weight[i])), float(bn.bias[i])
        below = .5 * math.erfc(m / s / math.sqrt(2))
        # E[x | x < 0] for x normal
        want.append(m - s * math.exp(-(m / s)**2 / 2) /
                    math.sqrt(2 * math.pi) / below if below > .001 else
                    -3 * s)
    check(v, 'the margins', con.margin, torch.tensor(want), 1e-4)
    x = x.requires_grad_()
    got = con(x)
    for i in range(c):
        check(v, 'nothing below it', got[:, i],
              x[:, i].detach().clamp(min=want[i]), 1e-4)
    v.ensure('the teacher is not trained', not got.requires_grad)


@contract('C20', targets=[CON + 'factor_transfer_connectors.py',
                          CON + 'torch_connector.py',
                          CON + 'norm_connector.py',
                          CON + 'convmodule_connector.py'],
          kind='bounded', samples=200)
def plain_connectors(v):
    which = v.choose('which', ['para', 'trans', 'func', 'module', 'norm',
                               'conv'])
    torch.manual_seed(v.int('seed', 0, 999))
    c, o = v.small('c', 1, 4), v.small('o', 1, 4)
    x = values(v, (2, c, 3, 3))
    if which == 'para':
        bn = v.flag('bn')
        pre = connectors.Paraphraser(c, o, 'pretrain', bn).double().eval()
        run = connectors.Paraphraser(c, o, 'train', bn).double().eval()
        run.load_state_dict(pre.state_dict())

        def layers(x, convs, norms):
            for f, b in zip(convs, norms):
                x = f(x)
                x = F.leaky_relu(b(x) if bn else x, .1)
            return x

        def coded(x, part):
            return layers(x, [part[0], part[3], part[6]],
                          [part[1], part[4], part[7]])

        code = coded(x, pre.encoder)
        back = pre(x)
        check(v, 'reconstructed', back, coded(code, pre.decoder))
        slope(v, 'and trained to', back, coded(code, pre.decoder),
              pre.encoder[0].weight)
        got = run(x)
        check(v, 'the factors', got, code)
        v.ensure('not trained', not got.requires_grad)
        v.raises(lambda: connectors.Paraphraser(c, o, 'test'),
                 exc=AssertionError)
    elif which == 'trans':
        con = connectors.Translator(c, o, v.flag('bn')).double().eval()
        got = con(x)
        v.ensure('as wide as the factors', got.shape == (2, o, 3, 3))
        v.ensure('trained', torch.autograd.grad(
            got.sum(), con.encoder[0].weight)[0] is not None)
    elif which == 'func':
        name, args, fn = v.choose('name', [
            ('relu', {}, lambda x: x.clamp(min=0)),
            ('softmax', dict(dim=1), lambda x: x.exp() / x.exp().sum(
                1, keepdim=True)),
            ('normalize', dict(p=2, dim=1),
             lambda x: x / x.pow(2).sum(1, keepdim=True).sqrt()),
            ('adaptive_avg_pool2d', dict(output_size=1),
             lambda x: x.mean((2, 3), keepdim=True)),
            ('max_pool2d', dict(kernel_size=3),
             lambda x: x.amax((2, 3), keepdim=True))])
        con = connectors.TorchFunctionalConnector(name, args)
        check(v, 'the function', con(x), fn(x))
        v.raises(lambda: connectors.TorchFunctionalConnector('gelu'),
                 exc=ValueError)
    elif which == 'module':
        con = connectors.TorchNNConnector('AvgPool2d', dict(kernel_size=3))
        check(v, 'the module', con(x), x.mean((2, 3), keepdim=True))
        con = connectors.TorchNNConnector(
            'Conv2d', dict(in_channels=c, out_channels=o,
                           kernel_size=1)).double()
        check(v, 'a convolution', con(x), F.conv2d(
            x, con.func.weight, con.func.bias))
        v.raises(lambda: connectors.TorchNNConnector('GELU'),
                 exc=ValueError)
    elif which == 'norm':
        con = connectors.NormConnector(c, dict(type='BN')).double()
        m, s = x.mean((0, 2, 3), keepdim=True), x.var(
            (0, 2, 3), unbiased=False, keepdim=True)
        check(v, 'normalised', con(x), (x - m) / (s + 1e-5).sqrt())
    else:
        order = v.choose('order', [('conv', 'norm', 'act'),
                                   ('act', 'conv', 'norm'),
                                   ('norm', 'act', 'conv')])
        norm = v.flag('norm')
        act = v.choose('act', [dict(type='ReLU'), None])
        con = connectors.ConvModuleConnector(
            c, o, norm_cfg=dict(type='BN') if norm else None, act_cfg=act,
            order=order, inplace=False).double()
        y = x
        m = con.conv_module
        for step in order:
            if step == 'conv':
                y = F.conv2d(y, m.conv.weight, m.conv.bias)
            elif step == 'norm' and norm:
                mean = y.mean((0, 2, 3), keepdim=True)
                var = y.var((0, 2, 3), unbiased=False, keepdim=True)
                y = (y - mean) / (var + 1e-5).sqrt()
            elif step == 'act' and act:
                y = y.clamp(min=0)
        check(v, 'in the order given', con(x), y, 1e-6)
