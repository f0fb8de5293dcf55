"""Tensors of several dimensions: which entries of which tensor.

SND is an opaque tensor ("the weight", "the input") of symbolic shape from
which entries were selected along its axes, by masks or slices; all selections
keep the order, so per axis the set of the selected positions says everything.
App is a torch function applied to such tensors (linear, conv2d, batch_norm,
layer_norm, pad, ...): uninterpreted, so two of them are the same when function
and arguments are.
"""
import inspect

import torch
import torch.nn as nn
import torch.nn.functional as F
import z3

from . import engine, seq, sym, tensor
from .engine import Unsupported
from .sym import S, SInt, Sym, mk_bool, mk_int, to_int
from .tensor import SShape, STensor, fname


class Axis:
    """positions 0..n of the tensor, those with member(i), `length` many"""
    __slots__ = ('n', 'member', 'length', 'exact')

    def __init__(self, n, member=None, length=None, exact=None):
        self.n, self.member = n, member
        self.length = n if member is None else length
        self.exact = exact          # (start, stop) of a contiguous selection


class SND(torch.Tensor):

    @staticmethod
    def __new__(cls, *a, **k):
        return torch.Tensor._make_subclass(cls, torch.empty(0))

    def __init__(self, base, axes):
        self.base, self.axes = base, axes

    @classmethod
    def __torch_function__(cls, func, types, args=(), kwargs=None):
        kwargs = kwargs or {}
        if any(isinstance(x, App) for x in args):
            return App.__torch_function__(func, types, args, kwargs)
        name = fname(func)
        h = TABLE.get(name)
        if h is None:
            raise Unsupported(f'torch operation {name} on a selected tensor')
        return h(*args, **kwargs)

    def __deepcopy__(self, memo):
        return SND(self.base, self.axes)

    def __repr__(self, **k):
        return f'SND({self.base}, {len(self.axes)} axes)'

    def __format__(self, spec):
        return '<tensor>'

    def __hash__(self):
        return id(self)

    def expand(self, *a):
        raise Unsupported('expand of a selected tensor')


class App(torch.Tensor):
    """fn(args): an uninterpreted tensor"""

    @staticmethod
    def __new__(cls, *a, **k):
        return torch.Tensor._make_subclass(cls, torch.empty(0))

    def __init__(self, fn, args):
        self.fn, self.fargs = fn, args

    @classmethod
    def __torch_function__(cls, func, types, args=(), kwargs=None):
        name = fname(func)
        if name in ('get:grad_fn', 'get:grad'):
            return None
        if name in ('detach', 'contiguous', 'clone'):
            return args[0]
        raise Unsupported(f'torch operation {name} on a result')

    def __repr__(self, **k):
        return f'App({self.fn})'

    def __hash__(self):
        return id(self)


def fresh(name, shape):
    return SND(name, [Axis(n) for n in shape])


def sel_mask(ax, m):
    if ax.member is not None:
        raise Unsupported('a mask over a selection')
    if m.sdtype != 'bool':
        raise Unsupported('an index which is no mask')
    if not S().fork(to_int(m.vc_n) == to_int(ax.n)):
        raise IndexError('The shape of the mask does not match the shape of '
                         'the indexed tensor')

    def member(i):
        r = m.vc_at(i)
        return r if isinstance(r, (bool, sym.SBool)) else mk_bool(
            sym.to_real(r)[0] == 1)
    return Axis(ax.n, member, m.vc_count())


def sel_slice(ax, sl):
    if sl.start is None and sl.stop is None and sl.step in (None, 1):
        return ax
    if sl.step not in (None, 1):
        raise Unsupported('step')
    if ax.member is not None and ax.exact is None:
        raise Unsupported('a slice of a selection')
    lo, hi = ax.exact if ax.exact else (0, ax.n)
    n = to_int(ax.length)

    def norm(x, d):
        if x is None:
            return d
        if isinstance(x, (float, sym.SFloat)):
            raise TypeError('slice indices must be integers or None')
        if isinstance(x, STensor):
            x = x.scalar
        x = to_int(x)
        x = z3.If(x < 0, n + x, x)
        return z3.If(x < 0, z3.IntVal(0), z3.If(x > n, n, x))
    a, b = norm(sl.start, z3.IntVal(0)), norm(sl.stop, n)
    b = z3.If(b > a, b, a)
    start, stop = mk_int(to_int(lo) + a), mk_int(to_int(lo) + b)

    def member(i):
        i = to_int(i)
        return mk_bool(z3.And(i >= to_int(start), i < to_int(stop)))
    return Axis(ax.n, member, mk_int(b - a), (start, stop))


def getitem(t, idx):
    if not isinstance(idx, tuple):
        idx = (idx, )
    if any(x is Ellipsis for x in idx):
        k = [i for i, x in enumerate(idx) if x is Ellipsis][0]
        idx = idx[:k] + (slice(None), ) * (
            len(t.axes) - len(idx) + 1) + idx[k + 1:]
    if len(idx) > len(t.axes):
        raise IndexError('too many indices for tensor')
    axes = list(t.axes)
    masks = 0
    for d, x in enumerate(idx):
        if isinstance(x, slice):
            axes[d] = sel_slice(axes[d], x)
        elif isinstance(x, torch.Tensor) and not isinstance(x, (SND, App)):
            x = tensor.lift(x)
            if x.segs is None:
                raise Unsupported('index')
            masks += 1
            axes[d] = sel_mask(axes[d], x)
        else:
            raise Unsupported(f'index {type(x).__name__}')
    if masks > 1:
        raise Unsupported('several masks at once')
    return SND(t.base, axes)


def shape(t):
    return SShape(a.length for a in t.axes)


def like(v):
    def h(t, **k):
        if len(t.axes) != 1:
            raise Unsupported('like a tensor of several dimensions')
        return tensor.const(t.axes[0].length, v)
    return h


def flatten(t, start=0, end=-1):
    nd = len(t.axes)
    if start % nd == end % nd:
        return t
    raise Unsupported('flatten')


same_ = lambda t, *a, **k: t        # noqa: E731

TABLE = {
    'get:shape': shape,
    'size': lambda t, d=None: shape(t) if d is None else shape(t)[d],
    'get:device': lambda t: torch.device('cpu'),
    'get:dtype': lambda t: torch.float32,
    'get:data': same_, 'get:requires_grad': lambda t: True,
    'get:is_cuda': lambda t: False, 'get:ndim': lambda t: len(t.axes),
    'get:grad': lambda t: None, 'get:grad_fn': lambda t: None,
    'get:is_leaf': lambda t: True,
    'is_floating_point': lambda t: True, 'is_complex': lambda t: False,
    'dim': lambda t: len(t.axes),
    'numel': lambda t: shape(t).numel(),
    '__len__': lambda t: shape(t)[0],
    'to': same_, 'cpu': same_, 'cuda': same_, 'contiguous': same_,
    'float': same_, 'requires_grad_': same_,
    'detach': lambda t: SND(t.base, t.axes),
    'clone': lambda t, **k: SND(t.base, t.axes),
    '__getitem__': getitem,
    'ones_like': like(1), 'zeros_like': like(0),
    'flatten': flatten,
}

# ------------------------------------------------------ torch functions
SIGS = {
    'conv1d': 'input weight bias=None stride=1 padding=0 dilation=1 groups=1',
    'linear': 'input weight bias=None',
    'pad': 'input pad mode=constant value=None',
}
SIGS['conv2d'] = SIGS['conv3d'] = SIGS['conv1d']


def bind(fn, name, a, k):
    """all arguments by name, defaults filled in"""
    if name in SIGS:
        out = {}
        names = SIGS[name].split()
        if len(a) > len(names):
            raise TypeError('too many arguments')
        for i, p in enumerate(names):
            p, _, d = p.partition('=')
            if i < len(a):
                out[p] = a[i]
            elif p in k:
                out[p] = k[p]
            else:
                out[p] = {'': None, 'None': None, 'constant': d}.get(
                    d, int(d) if d.isdigit() else None)
        if set(k) - set(out):
            raise TypeError('unexpected argument')
        return out
    b = inspect.signature(fn).bind(*a, **k)
    b.apply_defaults()
    return dict(b.arguments)


def has_sym(x):
    if isinstance(x, (tuple, list)):
        return any(has_sym(y) for y in x)
    return isinstance(x, (Sym, SND, App, STensor, tensor.SView))


def function(fn, name):
    def h(f, a, k):
        if not has_sym(a) and not has_sym(tuple(k.values())):
            return NotImplemented
        return App(name, bind(fn, name, a, k))
    return h


FUNCTIONS = {F.conv1d: 'conv1d', F.conv2d: 'conv2d', F.conv3d: 'conv3d',
             F.linear: 'linear', F.batch_norm: 'batch_norm',
             F.layer_norm: 'layer_norm', F.pad: 'pad',
             F.interpolate: 'interpolate'}


# -------------------------------------------------- torch's own modules
def tup(x, n):
    if isinstance(x, str):
        return x
    if isinstance(x, (tuple, list)):
        return tuple(x)
    return (x, ) * n


class _Conv:
    """What torch's convolutions document: attributes, the parameters'
    shapes, and forward."""
    ND = 2

    def __init__(self, in_channels, out_channels, kernel_size, stride=1,
                 padding=0, dilation=1, groups=1, bias=True,
                 padding_mode='zeros', device=None, dtype=None):
        nn.Module.__init__(self)
        s = S()
        if s.fork(to_int(groups) <= 0):
            raise ValueError('groups must be a positive integer')
        for c in (in_channels, out_channels):
            _, r = sym.fdivmod(to_int(c), to_int(groups)) if has_sym(
                (c, groups)) else (0, z3.IntVal(c % groups))
            if s.fork(r != 0):
                raise ValueError('channels must be divisible by groups')
        self.in_channels, self.out_channels = in_channels, out_channels
        self.kernel_size = tup(kernel_size, self.ND)
        self.stride, self.padding = tup(stride, self.ND), tup(padding, self.ND)
        self.dilation, self.groups = tup(dilation, self.ND), groups
        self.padding_mode = padding_mode
        self.weight = nn.Parameter(fresh('a new weight', (
            out_channels, in_channels if isinstance(groups, int) and
            groups == 1 else sym.floordiv(in_channels, groups),
            *self.kernel_size)))
        if bias:
            self.bias = nn.Parameter(fresh('a new bias', (out_channels, )))
        else:
            self.register_parameter('bias', None)

    def forward(self, x):
        if self.padding_mode != 'zeros':
            raise Unsupported('padding mode')
        return App(f'conv{self.ND}d', dict(
            input=x, weight=self.weight, bias=self.bias, stride=self.stride,
            padding=self.padding, dilation=self.dilation,
            groups=self.groups))


class _Linear:

    def __init__(self, in_features, out_features, bias=True, device=None,
                 dtype=None):
        nn.Module.__init__(self)
        self.in_features, self.out_features = in_features, out_features
        self.weight = nn.Parameter(fresh('a new weight', (
            out_features, in_features)))
        if bias:
            self.bias = nn.Parameter(fresh('a new bias', (out_features, )))
        else:
            self.register_parameter('bias', None)

    def forward(self, x):
        return App('linear', dict(input=x, weight=self.weight,
                                  bias=self.bias))


class _Buffer(SND):
    """running statistics of a new module: copy_ replaces the contents"""


def buf_copy(t, o, *a, **k):
    if not isinstance(o, SND):
        raise Unsupported('copy_')
    for x, y in zip(shape(t), shape(o)):
        if not S().fork(to_int(x) == to_int(y)):
            raise RuntimeError('copy_: sizes do not match')
    if S().frames:
        raise Unsupported('copy_ in a loop')
    t.base, t.axes = o.base, o.axes
    return t


TABLE['copy_'] = buf_copy


class _Norm:

    def __init__(self, num_features, eps=1e-5, momentum=0.1, affine=True,
                 track_running_stats=True, device=None, dtype=None):
        nn.Module.__init__(self)
        self.num_features, self.eps, self.momentum = \
            num_features, eps, momentum
        self.affine, self.track_running_stats = affine, track_running_stats
        for p in ('weight', 'bias'):
            self.register_parameter(p, nn.Parameter(fresh(
                'a new ' + p, (num_features, ))) if affine else None)
        for p in ('running_mean', 'running_var'):
            self.register_buffer(p, fresh(
                'a new ' + p, (num_features, ))
                if track_running_stats else None)
        self.register_buffer('num_batches_tracked', torch.tensor(
            0, dtype=torch.long) if track_running_stats else None)

    def forward(self, x):
        if self.training:
            raise Unsupported('batch norm in training mode')
        return App('batch_norm', dict(
            input=x, running_mean=self.running_mean,
            running_var=self.running_var, weight=self.weight, bias=self.bias,
            training=self.running_mean is None and self.running_var is None,
            momentum=0.0 if self.momentum is None else self.momentum,
            eps=self.eps))


class _LayerNorm:

    def __init__(self, normalized_shape, eps=1e-5, elementwise_affine=True,
                 device=None, dtype=None):
        nn.Module.__init__(self)
        self.normalized_shape = tup(normalized_shape, 1)
        self.eps, self.elementwise_affine = eps, elementwise_affine
        for p in ('weight', 'bias'):
            self.register_parameter(p, nn.Parameter(fresh(
                'a new ' + p, self.normalized_shape))
                if elementwise_affine else None)

    def forward(self, x):
        return App('layer_norm', dict(
            input=x, normalized_shape=self.normalized_shape,
            weight=self.weight, bias=self.bias, eps=self.eps))


def model_of(real, body, **k):
    return type('Symbolic' + real.__name__, (body, real), k)


MODULES = {
    nn.Conv1d: model_of(nn.Conv1d, _Conv, ND=1),
    nn.Conv2d: model_of(nn.Conv2d, _Conv, ND=2),
    nn.Conv3d: model_of(nn.Conv3d, _Conv, ND=3),
    nn.Linear: model_of(nn.Linear, _Linear),
    nn.LayerNorm: model_of(nn.LayerNorm, _LayerNorm),
    nn.BatchNorm1d: model_of(nn.BatchNorm1d, _Norm),
    nn.BatchNorm2d: model_of(nn.BatchNorm2d, _Norm),
    nn.BatchNorm3d: model_of(nn.BatchNorm3d, _Norm),
}


def module(cls, model):
    def h(f, a, k):
        if not has_sym(a) and not has_sym(tuple(k.values())):
            return NotImplemented
        return model(*a, **k)
    return h


def install(models):
    for fn, name in FUNCTIONS.items():
        models[fn] = function(fn, name)
    for cls, m in MODULES.items():
        models[cls] = module(cls, m)


# --------------------------------------------------------------- sameness
LISTS = {'stride', 'padding', 'dilation', 'normalized_shape'}


def same(a, b):
    """(condition, what differs when it is False outright)"""
    if isinstance(a, App) or isinstance(b, App):
        if not (isinstance(a, App) and isinstance(b, App)) or a.fn != b.fn:
            return False
        out = True
        for key in a.fargs:
            x, y = a.fargs[key], b.fargs[key]
            if key in LISTS:
                n = max(len(z) if isinstance(z, tuple) else 1
                        for z in (x, y))
                x, y = tup(x, n), tup(y, n)
            if key in ('momentum', ) and not a.fargs['training']:
                continue
            out = and_(out, same(x, y))
        return out
    if isinstance(a, SND) or isinstance(b, SND):
        if not (isinstance(a, SND) and isinstance(b, SND)):
            return False
        if a.base != b.base or len(a.axes) != len(b.axes):
            return False
        out = True
        for p, q in zip(a.axes, b.axes):
            out = and_(out, same_axis(p, q))
        return out
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        if len(a) != len(b):
            return False
        out = True
        for x, y in zip(a, b):
            out = and_(out, same(x, y))
        return out
    if a is None or b is None:
        return a is None and b is None
    return a == b


def and_(x, y):
    if x is False or y is False:
        return False
    if x is True:
        return y
    if y is True:
        return x
    return mk_bool(z3.And(sym.to_bool(x), sym.to_bool(y)))


def same_axis(p, q):
    n = mk_bool(to_int(p.n) == to_int(q.n))
    if p.member is None and q.member is None:
        return n
    i = S().fresh('pos', z3.IntSort())     # arbitrary: it is to be proved
    ii = mk_int(i)

    def mem(ax):
        return z3.BoolVal(True) if ax.member is None else sym.to_bool(
            ax.member(ii))
    return mk_bool(z3.And(sym.to_bool(n), z3.Implies(
        z3.And(i >= 0, i < to_int(p.n)), mem(p) == mem(q))))


del engine, seq, SInt
