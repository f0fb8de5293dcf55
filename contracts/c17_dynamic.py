"""C17: a dynamic op computes what its static op of the chosen part does."""
import copy
import random
import warnings

import numpy as np
import torch
import torch.nn as nn
import torch.nn.functional as F
from mmengine.model.utils import _BatchNormXd

from mmrazor.models.architectures.dynamic_ops import (BigNasConv2d,
                                                      DynamicConv2d,
                                                      DynamicLinear,
                                                      FuseConv2d, OFAConv2d)
from mmrazor.models.architectures.dynamic_ops import (
    DynamicInputResizer, DynamicMixin, DynamicMultiheadAttention,
    DynamicPatchEmbed, DynamicRelativePosition2D, DynamicSequential)
from mmrazor.models.architectures.dynamic_ops.bricks import dynamic_norm as DN
from mmrazor.models.architectures.dynamic_ops.bricks.dynamic_conv import \
    DynamicConv2dAdaptivePadding
from mmrazor.models.architectures.ops import (InputResizer,
                                              MultiheadAttention,
                                              RelativePosition2D)
from mmrazor.models.mutables import (MutableChannelContainer,
                                     OneShotMutableChannel,
                                     OneShotMutableChannelUnit,
                                     OneShotMutableValue,
                                     SimpleMutableChannel)
from mmrazor.models.mutators import NasMutator
from mmrazor.registry import MODELS
from mmrazor.structures import export_fix_subnet, load_fix_subnet
from mmrazor.structures.subnet.fix_subnet import _dynamic_to_static
from pyvc.harness import contract

A = 'mmrazor/models/architectures/dynamic_ops/'
CONV = A + 'mixins/dynamic_conv_mixins.py'
MIX = A + 'mixins/dynamic_mixins.py'
LN = A + 'mixins/dynamic_layernorm_mixins.py'
NORM = A + 'bricks/dynamic_norm.py'
LIN = A + 'bricks/dynamic_linear.py'
BIG = 2**16


def give(op, **params):
    """have the op's parameters and buffers be these tensors"""
    for k, t in params.items():
        own = op._buffers if k in op._buffers else op._parameters
        own.pop(k, None)
        if own is op._buffers:
            op.register_buffer(k, t)
        else:
            op.register_parameter(k, None if t is None else nn.Parameter(t))


def channel(v, name, n):
    m = SimpleMutableChannel(1)
    choose(v, m, name, n)
    return m


def choose(v, m, name, n):
    """any choice which keeps a channel"""
    mask = v.mask(name, n)
    v.assume(v.mask_count(mask) >= 1)
    m.mask = mask.float()
    return mask


def size(v, name, lo=1):
    return v.int(name, lo, BIG, chi=6)


def conv(v, cls, n_in, n_out, per, groups, bias, k):
    op = cls(1, 1, 1, bias=bias)
    op.in_channels, op.out_channels, op.groups = n_in, n_out, groups
    op.kernel_size = tuple(k)
    op.stride = (v.int('sh', 1, BIG, chi=2), v.int('sw', 1, BIG, chi=2))
    op.padding = (v.int('ph', 0, BIG, chi=2), v.int('pw', 0, BIG, chi=2))
    op.dilation = (v.int('dh', 1, BIG, chi=2), v.int('dw', 1, BIG, chi=2))
    w = v.tensor('weight', n_out, per, *k)
    b = v.tensor('bias', n_out) if bias else None
    give(op, weight=w, bias=b)
    return op, w, b


def image(v, name, channels):
    return v.tensor(name, size(v, 'batch', 1), channels,
                    v.int('h', 13, BIG, chi=15), v.int('w', 13, BIG, chi=15))


def fixed(*ms):
    for m in ms:
        m.is_fixed = True


def rounds(v):
    """the choice may change between two forwards"""
    return ['', ' later'][:v.small('rounds', 1, 2)]


CONVS = [DynamicConv2d, BigNasConv2d, OFAConv2d, FuseConv2d]


@contract('C17', targets=[CONV], samples=200)
def convolution(v):
    """Convolutions, any subset of the attributes registered."""
    cls = CONVS[v.small('class', 0, 3)]
    n_in, n_out = size(v, 'in'), size(v, 'out')
    v.assume(v.any_of(n_in != 1, n_out != 1))     # (that is depth-wise)
    op, w, b = conv(v, cls, n_in, n_out, n_in, 1, v.flag('bias'),
                    [v.int('kh', 1, BIG, chi=3), v.int('kw', 1, BIG, chi=3)])
    ins = outs = None
    if v.flag('mutable in'):
        ins = channel(v, 'in mask', n_in)
        op.register_mutable_attr('in_channels', ins)
    if v.flag('mutable out'):
        outs = channel(v, 'out mask', n_out)
        op.register_mutable_attr('out_channels', outs)
    for r in rounds(v):
        im = choose(v, ins, 'im' + r, n_in) if ins else None
        om = choose(v, outs, 'om' + r, n_out) if outs else None
        x = image(v, 'x' + r, v.mask_count(im) if ins else n_in)
        want = v.apply(F.conv2d, x, v.pick(w, om, im),
                       None if b is None else v.pick(b, om), op.stride,
                       op.padding, op.dilation, 1)
        v.ensure('computes with the chosen channels', v.same(op(x), want))
    fixed(*[m for m in (ins, outs) if m])
    st = op.to_static_op()
    v.ensure('is the static op', type(st) is not cls and isinstance(
        st, nn.Conv2d))
    v.ensure('channels of the static op', v.all_of(
        st.in_channels == (v.mask_count(im) if ins else n_in),
        st.out_channels == (v.mask_count(om) if outs else n_out),
        st.groups == 1))
    v.ensure('the static op computes the same', v.same(st(x), want))


@contract('C17', targets=[CONV], samples=150)
def depthwise_convolution(v):
    """One group per channel; the channels in are the channels out."""
    cls = CONVS[v.small('class', 0, 3)]
    n = size(v, 'n')
    op, w, b = conv(v, cls, n, n, 1, n, v.flag('bias'),
                    [v.int('kh', 1, BIG, chi=3), v.int('kw', 1, BIG, chi=3)])
    m = None
    if v.flag('mutable'):
        m = channel(v, 'mask', n)
        op.register_mutable_attr('in_channels', m)
        op.register_mutable_attr('out_channels', m)
    for r in rounds(v):
        mask = choose(v, m, 'm' + r, n) if m else None
        k = v.mask_count(mask) if m else n
        x = image(v, 'x' + r, k)
        want = v.apply(F.conv2d, x, v.pick(w, mask),
                       None if b is None else v.pick(b, mask), op.stride,
                       op.padding, op.dilation, k)
        v.ensure('computes with the chosen channels', v.same(op(x), want))
    fixed(*[m] if m else [])
    st = op.to_static_op()
    v.ensure('channels of the static op', v.all_of(
        st.in_channels == k, st.out_channels == k, st.groups == k))
    v.ensure('the static op computes the same', v.same(st(x), want))


@contract('C17', targets=[CONV], samples=150)
def kernel(v):
    """The chosen kernel is the middle of the full one, padded to keep the
    size."""
    big = v.int('half', 1, BIG, chi=3)
    mid = v.int('half of another', 0, BIG, chi=3)
    v.assume(mid < big)
    K, k = 2 * big + 1, 2 * mid + 1
    n_in, n_out = size(v, 'in'), size(v, 'out')
    v.assume(v.any_of(n_in != 1, n_out != 1))
    op, w, b = conv(v, BigNasConv2d, n_in, n_out, n_in, 1, v.flag('bias'),
                    [K, K])
    ks = OneShotMutableValue(value_list=[k, K], default_value=K)
    op.register_mutable_attr('kernel_size', ks)
    im = om = None
    if v.flag('mutable channels'):
        ins, outs = channel(v, 'a', n_in), channel(v, 'b', n_out)
        op.register_mutable_attr('in_channels', ins)
        op.register_mutable_attr('out_channels', outs)
        im, om = choose(v, ins, 'im', n_in), choose(v, outs, 'om', n_out)
        fixed(ins, outs)
    for r in rounds(v):
        now, half = [(k, mid), (K, big)][v.small('which' + r, 0, 1)]
        ks.current_choice = now
        a = big - half
        x = image(v, 'x' + r, n_in if im is None else v.mask_count(im))
        want = v.apply(
            F.conv2d, x,
            v.pick(w, om, im, slice(a, a + now), slice(a, a + now)),
            None if b is None else v.pick(b, om), op.stride, (half, half),
            op.dilation, 1)
        v.ensure('the middle of the kernel', v.same(op(x), want))
    ks.fix_chosen(ks.dump_chosen().chosen)
    st = op.to_static_op()
    v.ensure('kernel of the static op', v.all_of(
        st.kernel_size[0] == now, st.kernel_size[1] == now))
    v.ensure('the static op computes the same', v.same(st(x), want))


@contract('C17', targets=[LIN, MIX], samples=150)
def linear(v):
    n_in, n_out = size(v, 'in'), size(v, 'out')
    bias = v.flag('bias')
    op = DynamicLinear(1, 1, bias=bias)
    op.in_features, op.out_features = n_in, n_out
    w, b = v.tensor('weight', n_out, n_in), None
    if bias:
        b = v.tensor('bias', n_out)
    give(op, weight=w, bias=b)
    ins = outs = None
    if v.flag('mutable in'):
        ins = channel(v, 'in mask', n_in)
        op.register_mutable_attr(
            v.choose('name in', ['in_channels', 'in_features']), ins)
    if v.flag('mutable out'):
        outs = channel(v, 'out mask', n_out)
        op.register_mutable_attr(
            v.choose('name out', ['out_channels', 'out_features']), outs)
    for r in rounds(v):
        im = choose(v, ins, 'im' + r, n_in) if ins else None
        om = choose(v, outs, 'om' + r, n_out) if outs else None
        x = v.tensor('x' + r, size(v, 'batch'),
                     v.mask_count(im) if ins else n_in)
        want = v.apply(F.linear, x, v.pick(w, om, im),
                       None if b is None else v.pick(b, om))
        v.ensure('computes with the chosen channels', v.same(op(x), want))
    fixed(*[m for m in (ins, outs) if m])
    st = op.to_static_op()
    v.ensure('features of the static op', v.all_of(
        st.in_features == (v.mask_count(im) if ins else n_in),
        st.out_features == (v.mask_count(om) if outs else n_out)))
    v.ensure('the static op computes the same', v.same(st(x), want))


@contract('C17', targets=[NORM, MIX], samples=150)
def batch_norm(v):
    """In evaluation: the statistics and the affine of the chosen channels,
    and the static op is in evaluation too."""
    n = size(v, 'n')
    affine = v.flag('affine')
    op = DN.DynamicBatchNorm2d(1, affine=affine)
    op.num_features = n
    w = v.tensor('weight', n) if affine else None
    b = v.tensor('bias', n) if affine else None
    mean = v.tensor('mean', n)
    var = v.tensor('variance', n)
    if isinstance(var, torch.Tensor) and type(var) is torch.Tensor:
        var = var.abs() + 1
    give(op, weight=w, bias=b, running_mean=mean, running_var=var)
    m = None
    if v.flag('mutable'):
        m = channel(v, 'mask', n)
        op.register_mutable_attr(v.choose('name', [
            'in_channels', 'out_channels', 'num_features']), m)
    op.eval()
    for r in rounds(v):
        mask = choose(v, m, 'm' + r, n) if m else None
        x = image(v, 'x' + r, v.mask_count(mask) if m else n)
        want = v.apply(F.batch_norm, x, v.pick(mean, mask), v.pick(
            var, mask), v.pick(w, mask) if affine else None, v.pick(
                b, mask) if affine else None, False, op.momentum, op.eps)
        v.ensure('normalises the chosen channels', v.same(op(x), want))
    fixed(*[m] if m else [])
    st = op.to_static_op()
    v.ensure('features of the static op', st.num_features == (
        v.mask_count(mask) if m else n))
    v.ensure('the static op is evaluated too', st.training is False)
    st.eval()
    v.ensure('the static op computes the same', v.same(st(x), want))


@contract('C17', targets=[NORM, LN], samples=150)
def layer_norm(v):
    n = size(v, 'n')
    op = DN.DynamicLayerNorm(1)
    op.normalized_shape = (n, )
    w, b = v.tensor('weight', n), v.tensor('bias', n)
    give(op, weight=w, bias=b)
    m = None
    if v.flag('mutable'):
        m = channel(v, 'mask', n)
        op.register_mutable_attr(v.choose('name', [
            'in_channels', 'out_channels', 'num_features']), m)
    for r in rounds(v):
        mask = choose(v, m, 'm' + r, n) if m else None
        k = v.mask_count(mask) if m else n
        x = v.tensor('x' + r, size(v, 'batch'), size(v, 'tokens'), k)
        want = v.apply(F.layer_norm, x, (k, ), v.pick(w, mask),
                       v.pick(b, mask), op.eps)
        v.ensure('normalises the chosen channels', v.same(op(x), want))
    fixed(*[m] if m else [])
    st = op.to_static_op()
    v.ensure('the static op computes the same', v.same(st(x), want))


OPS = {
    'conv': (lambda: DynamicConv2d(1, 1, 1), ('in_channels', 'out_channels')),
    'bignas': (lambda: BigNasConv2d(1, 1, 1), (
        'in_channels', 'out_channels')),
    'ofa': (lambda: OFAConv2d(1, 1, 1), ('in_channels', 'out_channels')),
    'fuse': (lambda: FuseConv2d(1, 1, 1), ('in_channels', 'out_channels')),
    'linear': (lambda: DynamicLinear(1, 1), ('in_features', 'out_features')),
    'norm': (lambda: DN.DynamicBatchNorm2d(1), ('num_features', )),
    'layer norm': (lambda: DN.DynamicLayerNorm(1), ('num_features', )),
}


def sized(v, kind):
    make, attrs = OPS[kind]
    op = make()
    attr = v.choose('attribute', list(attrs))
    n, other = size(v, 'n'), size(v, 'other side')
    if kind == 'layer norm':
        op.normalized_shape = (n, )
    else:
        for a in attrs:
            setattr(op, a, n if a == attr else other)
    return op, attr, n


@contract('C17', targets=[CONV, MIX, LN], samples=150)
def wrong_mask_refused(v):
    """A mutable whose mask has another size than the attribute it is to
    choose from is refused and not kept."""
    kind = v.choose('kind', list(OPS))
    op, attr, n = sized(v, kind)
    k = v.int('mask', 1, BIG, chi=6)
    m = channel(v, 'm', k)
    if v.raises(op.register_mutable_attr, attr, m, exc=ValueError):
        v.ensure('refused only when sizes differ', k != n)
        v.ensure('is not kept', attr not in op.mutable_attrs)
    else:
        v.ensure('accepted only when sizes agree', k == n)
        v.ensure('is the one it chooses by', v.all_of(
            op.mutable_attrs[attr] is m, op.get_mutable_attr(attr) is m))


@contract('C17', targets=[CONV, MIX, LN], samples=100)
def unfixed_not_converted(v):
    kind = v.choose('kind', list(OPS))
    op, attr, n = sized(v, kind)
    m = channel(v, 'm', n)
    op.register_mutable_attr(attr, m)
    v.ensure('refused', v.raises(op.to_static_op, exc=RuntimeError))


# ------------------------------------------------------ on concrete tensors
def seeded(v):
    seed = v.small('seed', 0, 10**6)
    torch.manual_seed(seed)
    random.seed(seed)
    np.random.seed(seed % 2**32)
    return random.Random(seed)


def close(a, b, tol=1e-4):
    return a.shape == b.shape and torch.allclose(
        a.double(), b.double(), rtol=tol, atol=tol)


def subset(rng, n, k):
    m = torch.zeros(n, dtype=torch.bool)
    m[rng.sample(range(n), k)] = True
    return m


@contract('C17', targets=[CONV], samples=80, kind='bounded')
def group_convolution(v):
    """Several groups, the same number of channels chosen in each: the chosen
    outputs of the full convolution, had the other inputs been zero."""
    rng = seeded(v)
    g = rng.choice([2, 3])
    ipg, opg = rng.randint(1, 3), rng.randint(1, 3)
    if ipg == opg == 1:
        opg = 2
    cls = CONVS[v.small('class', 0, 3)]
    K = rng.choice([3, 5])
    op = cls(g * ipg, g * opg, K, padding=K // 2, groups=g,
             bias=rng.random() < .5, stride=rng.choice([1, 2]))
    a, b = rng.randint(1, ipg), rng.randint(1, opg)
    im = torch.cat([subset(rng, ipg, a) for _ in range(g)])
    om = torch.cat([subset(rng, opg, b) for _ in range(g)])
    ins, outs = SimpleMutableChannel(g * ipg), SimpleMutableChannel(g * opg)
    ins.mask, outs.mask = im.float(), om.float()
    side = rng.choice(['in', 'out', 'both'])
    if side == 'out':
        im = torch.ones_like(im)
    else:
        op.register_mutable_attr('in_channels', ins)
    if side == 'in':
        om = torch.ones_like(om)
    else:
        op.register_mutable_attr('out_channels', outs)
    k = K
    if cls is BigNasConv2d and v.flag('kernel'):
        ks = OneShotMutableValue(value_list=[1, K], default_value=K)
        op.register_mutable_attr('kernel_size', ks)
        ks.current_choice = k = rng.choice([1, K])
        ks.fix_chosen(k)
    fixed(ins, outs)
    x = torch.randn(2, g * ipg, 9, 9)
    zeroed = x * im.view(1, -1, 1, 1)
    lo = (K - k) // 2
    want = F.conv2d(zeroed, op.weight[:, :, lo:lo + k, lo:lo + k], op.bias,
                    op.stride, k // 2, 1, g)[:, om]
    v.ensure('computes with the chosen channels', close(op(x[:, im]), want))
    st = op.to_static_op()
    v.ensure('the static op computes the same', close(st(x[:, im]), want))
    v.ensure('groups of the static op', st.groups == g)


@contract('C17', targets=[CONV], samples=60, kind='bounded')
def fused_convolution(v):
    """DCFF: the chosen filters are mixtures of all filters, bias included.
    """
    rng = seeded(v)
    n_in, n_out = rng.randint(2, 5), rng.randint(2, 5)
    depth = rng.random() < .4
    if depth:
        n_in = n_out
    op = FuseConv2d(n_in, n_out, 3, padding=1, bias=rng.random() < .7,
                    groups=n_out if depth else 1)
    ins, outs = SimpleMutableChannel(n_in), SimpleMutableChannel(n_out)
    a, b = rng.randint(1, n_in), rng.randint(1, n_out - 1)
    a = b if depth else a
    ins.mask = (torch.arange(n_in) < a).float()
    outs.mask = (torch.arange(n_out) < b).float()
    if depth or rng.random() < .7:
        op.register_mutable_attr('in_channels', ins)
    else:
        a = n_in
    op.register_mutable_attr('out_channels', outs)
    fixed(ins, outs)
    mix = torch.randn(b, n_out)
    op.set_forward_args(mix)
    x = torch.randn(2, a, 5, 5)
    w = op.weight if depth else op.weight[:, :a]
    want = F.conv2d(x, torch.einsum('bo,oikl->bikl', mix, w),
                    None if op.bias is None else mix @ op.bias, 1, 1, 1,
                    b if depth else 1)
    v.ensure('computes with the mixtures', close(op(x), want))
    st = op.to_static_op()
    v.ensure('static: computes the same', close(st(x), want))


@contract('C17', targets=[CONV], samples=60, kind='bounded')
def filters_pooled(v):
    """DCFF: as many mixtures as filters are chosen, each of another filter,
    by the softmax of its negative distances to all filters."""
    rng = seeded(v)
    n, m = rng.randint(2, 6), rng.randint(1, 4)
    op = FuseConv2d(m, n, rng.choice([1, 3]))
    nn.init.normal_(op.weight)
    k, tau = rng.randint(1, n), rng.choice([.3, 1., 7.])
    outs = SimpleMutableChannel(n)
    outs.mask = (torch.arange(n) < k).float()
    op.register_mutable_attr('out_channels', outs)
    w = op.weight.detach().double().reshape(n, -1)
    d = torch.stack([(w - x).square().sum(1).sqrt() for x in w])
    p = torch.softmax(-d / tau, 1)
    got = op.get_pooled_channel(tau)
    v.ensure('as many', got.shape == (k, n) and not got.requires_grad)
    left = list(p)
    for g in got:
        at = [j for j, x in enumerate(left) if torch.allclose(
            g.double(), x, atol=1e-4)]
        v.ensure('a mixture of a filter', bool(at), f'{got} {p}')
        left.pop(at[0])


@contract('C17', targets=[NORM], samples=60, kind='bounded')
def groups_scaled(v):
    """DMCP: each group of channels beyond the least ones is scaled by the
    product of the probabilities of all groups up to it."""
    rng = seeded(v)
    size, groups, least = rng.randint(1, 3), rng.randint(0, 4), \
        rng.randint(1, 3)
    op = DN.DMCPBatchNorm2d(least + size * groups)
    arch = nn.Parameter(torch.randn(groups))
    # (fewer channels than all may be chosen)
    c = least + size * rng.randint(0, groups)
    x = torch.randn(2, c, 3, 2)
    y = op.forward_arch_param(x, arch, (size, groups, least))
    v.ensure('the least ones stay', torch.equal(y[:, :least], x[:, :least]))
    v.ensure('of the same shape', y.shape == x.shape)
    p = 1.
    for g in range((c - least) // size):
        p = p * torch.exp(-arch[g].clamp(min=0))
        at = slice(least + g * size, least + (g + 1) * size)
        v.ensure('scaled by the product', close(y[:, at], x[:, at] * p))


@contract('C17', targets=[NORM, MIX], samples=100, kind='bounded')
def batch_norm_training(v):
    """A batch norm in training is the batch norm of its chosen channels; the
    statistics of the other channels do not move."""
    rng = seeded(v)
    n, dim = rng.randint(1, 7), rng.choice([1, 2, 3])
    mom, affine, track = (rng.choice([None, 0., .1, .5, 1.]), rng.random() < .5,
                          rng.random() < .8)
    cls = [DN.DynamicBatchNorm1d, DN.DynamicBatchNorm2d,
           DN.DynamicBatchNorm3d][dim - 1]
    real = [nn.BatchNorm1d, nn.BatchNorm2d, nn.BatchNorm3d][dim - 1]
    if dim == 2:
        cls = rng.choice([cls, DN.DMCPBatchNorm2d])
    eps = rng.choice([1e-5, .1])
    was = real(n, eps, mom, affine or not track, track)
    if rng.random() < .5:
        cls, real = rng.choice([(cls, real), (DN.DynamicBatchNormXd,
                                              _BatchNormXd)])
        op = cls.convert_from(was)
    else:
        op = cls(n, eps, mom, affine or not track, track)
    m = SimpleMutableChannel(n)
    op.register_mutable_attr('num_features', m)
    for t in (op.weight, op.bias, op.running_mean, op.running_var):
        if t is not None:
            t.data.uniform_(.5, 2)
    for k in range(rng.randint(1, 4)):
        mask = subset(rng, n, rng.randint(1, n))
        m.mask = mask.float()
        ref = real(int(mask.sum()), eps, mom, affine or not track, track)
        with torch.no_grad():
            for name in ('weight', 'bias', 'running_mean', 'running_var'):
                if getattr(ref, name) is not None:
                    getattr(ref, name).copy_(getattr(op, name)[mask])
            if track:
                ref.num_batches_tracked.copy_(op.num_batches_tracked)
        before = copy.deepcopy(op.state_dict())
        train = rng.random() < .7
        op.train(train)
        ref.train(train)
        x = torch.randn(*[4, ref.num_features] + [3] * (
            dim if dim > 1 else rng.choice([0, 1])))
        v.ensure('normalises as the static one', close(op(x), ref(x)))
        if track:
            for name in ('running_mean', 'running_var'):
                now, was = getattr(op, name), before[name]
                v.ensure('statistics of the chosen', close(
                    now[mask], getattr(ref, name)))
                v.ensure('statistics of the others stay', torch.equal(
                    now[~mask], was[~mask]))
            v.ensure('batches counted', int(op.num_batches_tracked) == int(
                ref.num_batches_tracked))
        st = copy.deepcopy(op)
        fixed(st.mutable_attrs['num_features'])
        st = st.to_static_op()
        v.ensure('static: same mode', st.training == op.training)
        v.ensure('static: settings', type(st) is real and (
            st.eps, st.momentum) == (eps, mom))
        x = torch.randn_like(x)
        v.ensure('static: computes the same', close(
            st(x), copy.deepcopy(op)(x)))


@contract('C17', targets=[NORM], samples=60, kind='bounded')
def switchable_batch_norm(v):
    """One batch norm per candidate width, with statistics of its own."""
    rng = seeded(v)
    n = rng.randint(2, 6)
    op = DN.SwitchableBatchNorm2d(n)
    m = SimpleMutableChannel(n)
    op.register_mutable_attr('num_features', m)
    widths = sorted(rng.sample(range(1, n + 1), rng.randint(1, n)))
    op.init_candidates(widths)
    refs = {w: nn.BatchNorm2d(w) for w in widths}
    op.train()
    for _ in range(5):
        w = rng.choice(widths)
        mask = torch.zeros(n)
        mask[:w] = 1
        m.mask = mask
        x = torch.randn(3, w, 2, 2)
        v.ensure('the batch norm of this width', close(op(x), refs[w](x)))
    op.eval()
    refs[w].eval()
    fixed(m)
    st = op.to_static_op()
    v.ensure('static: this width', st.num_features == w and not isinstance(
        st, DynamicMixin))
    v.ensure('static: computes the same', close(st(x), refs[w](x)))


@contract('C17', targets=[CONV], samples=60, kind='bounded')
def ofa_kernel(v):
    """Smaller kernels: the middle, transformed step by step; with the
    transformations untrained it is the middle."""
    rng = seeded(v)
    ks = sorted(rng.sample([1, 3, 5, 7], rng.randint(2, 4)))
    n_in, n_out = rng.randint(2, 3), rng.randint(2, 3)
    op = OFAConv2d(n_in, n_out, ks[-1], padding=ks[-1] // 2)
    m = OneShotMutableValue(value_list=ks, default_value=ks[-1])
    op.register_mutable_attr('kernel_size', m)
    train = v.flag('trained')
    mats = {}
    for a, b in zip(ks, ks[1:]):
        t = getattr(op, f'trans_matrix_{b}to{a}')
        if train:
            t.data.normal_()
        mats[b] = t
    k = rng.choice(ks)
    m.current_choice = k
    w = op.weight
    for a, b in reversed(list(zip(ks, ks[1:]))):
        if b > k:
            lo = (b - a) // 2
            w = w[:, :, lo:lo + a, lo:lo + a]
            w = (w.reshape(-1, a * a) @ mats[b].t()).reshape(
                n_out, n_in, a, a)
    x = torch.randn(2, n_in, 8, 8)
    want = F.conv2d(x, w, op.bias, 1, k // 2)
    v.ensure('computes with the chosen kernel', close(op(x), want, 1e-3))
    m.fix_chosen(k)
    st = op.to_static_op()
    v.ensure('static: kernel', st.kernel_size == (k, k))
    v.ensure('static: computes the same', close(st(x), want, 1e-3))


@contract('C17', targets=[A + 'bricks/dynamic_conv.py'], samples=60,
          kind='bounded')
def adaptive_padding(v):
    rng = seeded(v)
    n_in, n_out = rng.randint(2, 4), rng.randint(2, 4)
    op = DynamicConv2dAdaptivePadding(
        n_in, n_out, (rng.randint(1, 4), rng.randint(1, 4)), (
            rng.randint(1, 3), rng.randint(1, 3)), dilation=rng.randint(1, 2))
    ins, outs = SimpleMutableChannel(n_in), SimpleMutableChannel(n_out)
    op.register_mutable_attr('in_channels', ins)
    op.register_mutable_attr('out_channels', outs)
    im, om = subset(rng, n_in, rng.randint(1, n_in)), subset(
        rng, n_out, rng.randint(1, n_out))
    ins.mask, outs.mask = im.float(), om.float()
    fixed(ins, outs)
    x = torch.randn(2, int(im.sum()), rng.randint(9, 12), rng.randint(9, 12))
    y = op(x)
    v.ensure('keeps the size, per stride', y.shape[2:] == tuple(
        -(-x.shape[2 + i] // op.stride[i]) for i in range(2)))
    st = op.to_static_op()
    v.ensure('static: computes the same', close(st(x), y))


@contract('C17', targets=[A + 'bricks/dynamic_container.py'], samples=80,
          bound='up to 4 modules, any depth')
def depth(v):
    """The first `depth` modules, each once, in order; all of them as long as
    no depth is registered."""
    n = v.small('modules', 1, 4)
    log = []

    class Step(nn.Module):

        def __init__(self, i):
            super().__init__()
            self.i = i

        def forward(self, x):
            log.append(self.i)
            return x
    op = DynamicSequential(*[Step(i) for i in range(n)])
    op(0)
    v.ensure('all without a mutable', log == list(range(n)))
    other = v.int('other', 0, 4)
    d = v.int('depth', 0, 4)
    v.assume(v.all_of(d <= n, other <= n))
    m = OneShotMutableValue(value_list=[d, other], default_value=d)
    op.register_mutable_attr('depth', m)
    for now in [d, other][:v.small('rounds', 1, 2)]:
        m.current_choice = now
        log.clear()
        op(0)
        v.ensure('as many as chosen', len(log) == now)
        v.ensure('the first ones', log == list(range(len(log))))
    m.fix_chosen(now)
    st = op.to_static_op()
    ran = list(log)
    log.clear()
    st(0)
    v.ensure('static: the same modules', log == ran)
    v.ensure('static: not dynamic', not isinstance(st, DynamicMixin))
    v.ensure('static: no others left', [
        s.i for s in st.modules() if isinstance(s, Step)] == ran)


def attention(v, rng):
    heads = rng.choice([2, 3])
    dims = rng.choice([8, 12])
    return dict(embed_dims=dims, num_heads=heads,
                relative_position=rng.random() < .7,
                max_relative_position=rng.choice([1, 2, 14]),
                qkv_bias=rng.random() < .7,
                qk_scale=rng.choice([None, .3]),
                proj_bias=rng.random() < .7)


MHA = A + 'bricks/dynamic_multi_head_attention.py'
RP = A + 'bricks/dynamic_relative_position.py'


@contract('C17', targets=[MHA, RP], samples=60, kind='bounded')
def attention_heads(v):
    """Attention with the first heads and embedding dimensions."""
    rng = seeded(v)
    cfg = attention(v, rng)
    op = DynamicMultiheadAttention(**cfg, attn_drop_rate=.5)
    dims, heads = cfg['embed_dims'], cfg['num_heads']
    d, h = rng.randint(1, dims), rng.randint(1, heads)
    which = v.choose('mutable', ['both', 'none', 'dims', 'heads'])
    OneShotMutableChannelUnit._register_channel_container(
        op, MutableChannelContainer)
    tie = MutableChannelContainer.register_mutable_channel_to_module
    own = []
    if which in ('both', 'dims'):
        ed = OneShotMutableChannel(dims, candidate_choices=[d, dims])
        tie(op, ed, False)
        ed.current_choice = d
        own.append(ed)
    else:
        d = dims
    if which in ('both', 'heads'):
        nh = OneShotMutableValue(value_list=list(range(1, heads + 1)),
                                 default_value=heads)
        hd = OneShotMutableChannel(64, candidate_choices=[64])
        q = nh * hd
        op.register_mutable_attr('num_heads', nh)
        tie(op, q, True, end=heads * 64)
        for r in (('rel_pos_embed_k', 'rel_pos_embed_v')
                  if cfg['relative_position'] else ()):
            tie(getattr(op, r), hd, False)
        nh.current_choice = h
        own += [nh, hd]
    else:
        h = heads
    for m in own:
        m.fix_chosen(m.dump_chosen().chosen)
    op.eval()
    # head h of the big one is head h of a small one with these parts
    ref = MultiheadAttention(**dict(cfg, embed_dims=d, num_heads=h))
    k = h * 64
    with torch.no_grad():
        for n in ('w_qs', 'w_ks', 'w_vs'):
            getattr(ref, n).weight.copy_(getattr(op, n).weight[:k, :d])
            if cfg['qkv_bias']:
                getattr(ref, n).bias.copy_(getattr(op, n).bias[:k])
        ref.proj.weight.copy_(op.proj.weight[:d, :k])
        if cfg['proj_bias']:
            ref.proj.bias.copy_(op.proj.bias[:d])
        if cfg['relative_position']:
            for n in ('rel_pos_embed_k', 'rel_pos_embed_v'):
                getattr(ref, n).load_state_dict({
                    a: getattr(getattr(op, n), a) for a in (
                        'embeddings_table_v', 'embeddings_table_h')})
    side = rng.randint(2, 4)
    x = torch.randn(2, side * side + 1, d)
    y = op(x)
    v.ensure('attends with the chosen heads', close(y, ref.eval()(x)))
    st = op.to_static_op()
    v.ensure('static: no dynamic op left', not any(
        isinstance(m, DynamicMixin) for m in st.modules()))
    v.ensure('static: computes the same', close(st(x), y))
    v.ensure('can be copied after a forward', close(
        copy.deepcopy(op)(x), y))
    back = DynamicMultiheadAttention.convert_from(ref).eval()
    own = {a: t for a, t in ref.state_dict().items()}
    back.load_state_dict(own)
    v.ensure('converted: computes the same', close(back(x), y))


@contract('C17', targets=[RP], samples=60, kind='bounded')
def relative_position(v):
    rng = seeded(v)
    n, far = rng.randint(1, 6), rng.randint(1, 4)
    op = DynamicRelativePosition2D(n, far)
    k = n
    if v.flag('mutable'):
        k = rng.randint(1, n)
        m = OneShotMutableChannel(n, candidate_choices=[k, n])
        op.register_mutable_attr('head_dims', m)
        m.current_choice = k
        m.fix_chosen(k)
    ref = RelativePosition2D(k, far)
    with torch.no_grad():
        for a in ('embeddings_table_v', 'embeddings_table_h'):
            getattr(ref, a).copy_(getattr(op, a)[:, :k])
    side = rng.randint(2, 6)
    q = side * side + 1
    v.ensure('the first dimensions', close(op(q, q), ref(q, q)))
    v.ensure('static: computes the same', close(
        op.to_static_op()(q, q), ref(q, q)))


@contract('C17', targets=[A + 'bricks/dynamic_embed.py'], samples=40,
          kind='bounded')
def patch_embedding(v):
    rng = seeded(v)
    n, ch, p = rng.randint(2, 6), rng.choice([1, 3]), rng.choice([4, 16])
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        op = DynamicPatchEmbed(img_size=32, in_channels=ch, embed_dims=n,
                               conv_cfg=dict(kernel_size=p, stride=p,
                                             bias=rng.random() < .7))
        m = SimpleMutableChannel(n)
        op.register_mutable_attr('embed_dims', m)
        mask = subset(rng, n, rng.randint(1, n))
        m.mask = mask.float()
        fixed(m)
        x = torch.randn(2, ch, 32, 32)
        want = op.projection(x)[:, mask].flatten(2).transpose(1, 2)
        v.ensure('embeds into the chosen', close(op(x), want))
        v.ensure('static: computes the same', close(
            op.to_static_op()(x), want))


@contract('C17', targets=[A + 'bricks/dynamic_function.py', MIX], samples=40,
          kind='bounded')
def resizer(v):
    rng = seeded(v)
    kind = rng.choice(['bilinear', 'bicubic'])
    op = DynamicInputResizer(kind)
    sizes = [(rng.randint(4, 9), rng.randint(4, 9)) for _ in range(3)]
    m = OneShotMutableValue(value_list=sizes, default_value=sizes[0])
    op.register_mutable_attr('shape', m)
    x = torch.randn(1, 2, 7, 7)
    for _ in range(2):
        s = rng.choice(sizes)
        m.current_choice = s
        want = F.interpolate(x, size=s, mode=kind, align_corners=False)
        v.ensure('has the chosen size', close(op(x), want))
    m.fix_chosen(s)
    st = op.to_static_op()
    v.ensure('static: computes the same', type(st) is InputResizer and close(
        st(x), want))


@contract('C17', targets=['mmrazor/structures/subnet/fix_subnet.py'],
          samples=60, kind='bounded')
def nested_ops_converted(v):
    """Every dynamic op below a model is converted, wherever it is."""
    rng = seeded(v)

    def leaf():
        op = DynamicConv2d(2, 2, 1)
        m = SimpleMutableChannel(2)
        op.register_mutable_attr('out_channels', m)
        fixed(m)
        return op

    def grow(level):
        kids = [leaf() if level == 0 or rng.random() < .4 else grow(
            level - 1) for _ in range(rng.randint(1, 3))]
        box = rng.choice(['dynamic', 'plain', 'list'])
        if box == 'dynamic':
            out = DynamicSequential(*kids)
            d = OneShotMutableValue(
                value_list=[len(kids)], default_value=len(kids))
            out.register_mutable_attr('depth', d)
            d.fix_chosen(len(kids))
            return out
        return nn.Sequential(*kids)
    model = nn.Sequential(grow(rng.randint(0, 2)), nn.ReLU())
    x = torch.randn(1, 2, 3, 3)
    y = model(x)
    _dynamic_to_static(model)
    v.ensure('no dynamic op left', not any(
        isinstance(m, DynamicMixin) for m in model.modules()))
    v.ensure('computes the same', close(model(x), y))


AUTOFORMER = dict(
    type='mmrazor.AutoformerBackbone',
    arch_setting=dict(mlp_ratios=[1.0, 2.0], num_heads=[1, 2], depth=[1, 2],
                      embed_dims=[16, 32]),
    img_size=32, patch_size=16, in_channels=3,
    norm_cfg=dict(type='mmrazor.DynamicLayerNorm'), act_cfg=dict(type='GELU'))
BIGNAS = dict(
    type='mmrazor.AttentiveMobileNetV3',
    arch_setting=dict(
        kernel_size=[[3, 5, 2], [3, 5, 2], [3, 5, 2]],
        num_blocks=[[1, 2, 1], [1, 2, 1], [1, 2, 1]],
        expand_ratio=[[1, 1, 1], [1, 4, 1], [1, 4, 1], [1, 4, 1]],
        num_out_channels=[[8, 16, 8], [8, 16, 8], [8, 24, 8], [16, 24, 8],
                          [24, 24, 8]]),
    stride_list=[1, 2, 2], with_se_list=[False, False, True],
    act_cfg_list=['Swish'] * 5,
    out_indices=(3, ), conv_cfg=dict(type='mmrazor.BigNasConv2d'),
    norm_cfg=dict(type='mmrazor.DynamicBatchNorm2d', momentum=0.0))
OPCHOICE = dict(
    _scope_='mmrazor', type='OneShotMutableOP', candidates=dict(
        mb_k3e1=dict(type='MBBlock', kernel_size=3, expand_ratio=1,
                     act_cfg=dict(type='ReLU6')),
        mb_k5e3=dict(type='MBBlock', kernel_size=5, expand_ratio=3,
                     act_cfg=dict(type='ReLU6'))))
MOBILENET = dict(
    type='mmrazor.SearchableMobileNetV2', first_channels=8, last_channels=16,
    widen_factor=1.0, out_indices=(2, ), norm_cfg=dict(type='BN'), arch_setting=[
        [8, 1, 1, OPCHOICE], [8, 2, 2, OPCHOICE]])


class Model(nn.Module):

    def __init__(self, backbone):
        super().__init__()
        self.backbone = backbone

    def forward(self, x):
        y = self.backbone(x)
        while isinstance(y, (tuple, list)):
            y = y[-1]
        return y


@contract('C17', targets=['mmrazor/structures/subnet/fix_subnet.py', CONV,
                          MIX, LN, MHA, RP], samples=12, kind='bounded')
def exported_network(v):
    """The exported subnet of a supernet computes what the supernet computes
    with that subnet, and its sliced weights fit a supernet fixed to it."""
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        cfg = [AUTOFORMER, BIGNAS, MOBILENET][v.small('net', 0, 2)]
        seeded(v)
        net = Model(MODELS.build(copy.deepcopy(cfg)))
        mut = NasMutator()
        mut.prepare_from_supernet(net)
        x = torch.randn(2, 3, 32, 32)
        if v.flag('trained before'):
            net.train()
            net(x).sum().backward()
        mut.set_choices(mut.sample_choices())
        net.eval()
        y = net(x)
        subnet, static = export_fix_subnet(net, slice_weight=True)
        v.ensure('no dynamic op left', not any(
            isinstance(m, DynamicMixin) for m in static.modules()))
        v.ensure('computes the same', close(static(x), y))
        v.ensure('the supernet is as before', close(net(x), y))
        other = Model(MODELS.build(copy.deepcopy(cfg)))
        load_fix_subnet(other, subnet)
        other.load_state_dict(static.state_dict())
        v.ensure('weights fit the same subnet', close(other.eval()(x), y))


CONVERTED = [(DynamicConv2d, 2), (BigNasConv2d, 2), (OFAConv2d, 2),
             (FuseConv2d, 2), (DynamicLinear, 0), (DN.DynamicLayerNorm, 0),
             (DN.DynamicBatchNorm1d, 1), (DN.DynamicBatchNorm2d, 2),
             (DN.DynamicBatchNorm3d, 3)]


@contract('C17', targets=[CONV, NORM, LN, LIN], samples=150, kind='bounded')
def converted(v):
    """A dynamic op made from a static one takes its weights and computes the
    same, in training and evaluation, and so does its static op again."""
    rng = seeded(v)
    cls, dims = CONVERTED[v.small('class', 0, len(CONVERTED) - 1)]
    c, bias = rng.randint(1, 4), rng.random() < .5
    x = torch.randn(3, c, *[4 if dims == 3 else 11] * dims)
    if cls in CONVS:
        groups = rng.choice([1, c])
        m = nn.Conv2d(c, groups * rng.randint(1, 3), rng.choice([
            1, 3, (3, 5)] if cls is not OFAConv2d else [1, 3]),
            rng.choice([1, 2, (1, 2)]), rng.choice([0, 1, (1, 2)]),
            rng.choice([1, (1, 2)]) if cls in CONVS[::3] else 1,
            groups, bias)
    elif cls is DynamicLinear:
        m = nn.Linear(c, rng.randint(1, 4), bias)
    elif cls is DN.DynamicLayerNorm:
        m = nn.LayerNorm(c, rng.choice([1e-5, .1]), bias)
        x = torch.randn(3, 2, c)
    else:
        m = [nn.BatchNorm1d, nn.BatchNorm2d, nn.BatchNorm3d][dims - 1](
            c, rng.choice([1e-5, .1]), rng.choice([.1, .5, None]), bias,
            rng.random() < .7)
    for p in list(m.parameters()):
        nn.init.normal_(p)
    op = cls.convert_from(m)
    v.ensure('is dynamic', type(op) is cls)
    v.ensure('takes the weights', set(op.state_dict()) == set(
        m.state_dict()) and not any(
            v.raises(op.load_state_dict, m.state_dict()) for _ in [0]))
    for training in (True, False):
        m.train(training)
        op.train(training)
        for _ in range(2):
            v.ensure('computes the same', close(op(x), m(x)))
        v.ensure('the same statistics', all(
            torch.allclose(t.float(), m.state_dict()[k].float(), atol=1e-5)
            for k, t in op.state_dict().items()))
    st = op.to_static_op()
    st.eval()
    v.ensure('is static', not isinstance(st, DynamicMixin))
    v.ensure('static: computes the same', close(st(x), m(x)))
