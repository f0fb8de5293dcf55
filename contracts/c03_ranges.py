"""C03: channel ranges never overlap and assemble to the whole mask."""
import torch

from mmrazor.models.mutables import (MutableChannelContainer,
                                     SimpleMutableChannel,
                                     SquentialMutableChannel)
from mmrazor.utils import IndexDict
from pyvc.harness import contract
from pyvc.loops import LoopSpec

N = 2**20
ID = 'mmrazor/utils/index_dict.py'
CC = 'mmrazor/models/mutables/mutable_channel/mutable_channel_container.py'


def sorted_disjoint(v, keys):
    for s, e in keys:
        v.ensure('ranges are not empty', s < e)
    for (s, e), (s2, e2) in zip(keys, keys[1:]):
        v.ensure('ascending and disjoint', e <= s2)


def overlap(v, s, e, s2, e2):
    return v.all_of(s < e2, s2 < e)


@contract('C03', targets=[ID], samples=400, bound='at most 4 insertions')
def insert(v):
    """A range goes in exactly when it overlaps none of the present ones."""
    d = IndexDict()
    kept = []
    for i in range(v.small('inserts', 1, 4)):
        s = v.int(f's{i}', 0, N, chi=12)
        e = v.int(f'e{i}', 0, N, chi=12)
        fine = v.all_of(s < e, *[v.no(overlap(v, s, e, a, b))
                                 for a, b, _ in kept])
        refused = v.raises(d.__setitem__, (s, e), i)
        v.ensure('refused exactly when it overlaps',
                 refused == v.no(fine))
        if not refused:
            kept.append((s, e, i))
        keys = list(d.keys())
        v.ensure('count', len(keys) == len(kept))
        sorted_disjoint(v, keys)
        vals = list(d.values())
        for a, b, j in kept:
            v.ensure('kept with its value', v.any_of(
                *[v.all_of(k[0] == a, k[1] == b, w == j)
                  for k, w in zip(keys, vals)]))


class Ranges(IndexDict):
    """An index dict whose keys are given: any number of ranges."""
    query = None

    def keys(self):
        return self.ranges


def membership_loop():
    def inv(ctx):
        from pyvc import seq, sym
        s, e = Ranges.query
        done = seq.slice_(ctx.seq, slice(0, ctx.i))
        return [('seen so far', sym.iff(ctx.get('existed'), seq.exists(
            done, lambda r: sym.both(s < r[1], r[0] < e))))]

    def havoc(ctx):
        from pyvc import loops
        ctx.set('existed', loops.havoc_like('existed', False))
        return ['existed']
    return [LoopSpec(r'IndexDict\.__contains__', inv, havoc)]


@contract('C03', targets=[ID], samples=200, loops=membership_loop)
def membership_any_number(v):
    """Among any number of ranges."""
    d = Ranges()
    d.ranges = v.seq_of('ranges', lambda e: (
        e.int('s', 0, N, chi=14), e.int('e', 0, N, chi=14)))
    v.assume(v.forall(d.ranges, lambda r: r[0] < r[1]))
    s = v.int('s', 0, N, chi=14)
    e = v.int('e', 0, N, chi=14)
    v.assume(s < e)
    Ranges.query = (s, e)
    v.ensure('overlap', ((s, e) in d) == v.exists(
        d.ranges, lambda r: v.all_of(s < r[1], r[0] < e)))


@contract('C03', targets=[ID], samples=400, bound='at most 2 ranges')
def membership(v):
    """`range in dict` says whether the range overlaps a present one."""
    d = IndexDict()
    kept = []
    for i in range(v.small('inserts', 0, 2)):
        s = v.int(f's{i}', 0, N, chi=12)
        e = v.int(f'e{i}', 0, N, chi=12)
        v.assume(s < e)
        for a, b in kept:
            v.assume(v.no(overlap(v, s, e, a, b)))
        d[(s, e)] = i
        kept.append((s, e))
    s = v.int('s', 0, N, chi=14)
    e = v.int('e', 0, N, chi=14)
    v.assume(s < e)
    v.ensure('overlap', ((s, e) in d) == v.any_of(
        False, *[overlap(v, s, e, a, b) for a, b in kept]))


def layout(v, parts):
    """parts ranges with arbitrary gaps; [(start, end, mutable, k)], total"""
    out, pos = [], 0
    for i in range(parts):
        gap = v.int(f'gap{i}', 0, 2**10, chi=6)
        n = v.int(f'n{i}', 1, 2**10, chi=9)
        start = pos + gap
        k = v.int(f'k{i}', 1, 2**10, chi=9)
        v.assume(k <= n)
        m = SquentialMutableChannel(n)
        m.current_choice = k
        out.append((start, start + n, m, k))
        pos = start + n
    return out, pos + v.int('tail', 0, 2**10, chi=6)


def expect(v, mask, parts, total):
    v.ensure('mask length', v.mask_len(mask) == total)
    pos = 0
    for start, end, m, k in parts:
        for i in v.each('gap', start - pos):
            v.ensure('unregistered channels stay', v.mask_at(mask, pos + i))
        for i in v.each('own', end - start):
            v.ensure('registered channels follow their mutable',
                     v.mask_at(mask, start + i) == (i < k))
        pos = end
    for i in v.each('rest', total - pos):
        v.ensure('unregistered channels stay', v.mask_at(mask, pos + i))


@contract('C03', targets=[CC, ID], samples=150,
          bound='at most 2 registered ranges')
def container_mask(v):
    parts, total = layout(v, v.small('parts', 0, 2))
    c = MutableChannelContainer(total)
    order = list(parts)
    if v.flag('reversed'):
        order = order[::-1]
    for start, end, m, k in order:
        c.register_mutable(m, start, end)
    expect(v, c.current_mask, parts, total)
    # later changes of a part show, and only there
    if parts:
        start, end, m, _ = parts[0]
        k2 = v.int('later', 1, 2**10, chi=9)
        v.assume(k2 <= end - start)
        m.current_choice = k2
        expect(v, c.current_mask,
               [(start, end, m, k2)] + parts[1:], total)
        v.ensure('activated', c.activated_channels == sum(
            [k2] + [p[3] for p in parts[1:]]) + total - sum(
                p[1] - p[0] for p in parts))


@contract('C03', targets=[CC, ID], samples=100,
          bound='one registered range')
def container_overlap(v):
    """A second mutable on a channel that has one already is refused."""
    (first, ), total = layout(v, 1)
    c = MutableChannelContainer(total)
    start, end, m, k = first
    c.register_mutable(m, start, end)
    s = v.int('s', 0, 2**12, chi=20)
    n = v.int('width', 1, 2**10, chi=20)
    v.assume(v.all_of(s + n <= total, overlap(v, s, s + n, start, end)))
    v.ensure('refused', v.raises(c.register_mutable,
                                 SimpleMutableChannel(n), s, s + n))
    expect(v, c.current_mask, [first], total)


@contract('C03', targets=[CC], samples=60)
def container_read_only(v):
    total = v.int('total', 1, N)
    c = MutableChannelContainer(total)
    v.ensure('not settable', v.raises(setattr, c, 'current_choice', 1))
    mask = c.current_mask
    v.ensure('all channels', v.mask_len(mask) == total)
    for i in v.each('pos', total):
        v.ensure('all channels active', v.mask_at(mask, i))


@contract('C03', targets=[CC], samples=150, bound='one registered range')
def container_any_mask(v):
    """A mutable whose mask is no prefix, and changes without changing the
    number of its channels."""
    gap = v.int('gap', 0, 2**10, chi=5)
    n = v.int('n', 1, 2**10, chi=7)
    tail = v.int('tail', 0, 2**10, chi=5)
    c = MutableChannelContainer(gap + n + tail)
    m = SimpleMutableChannel(n)
    c.register_mutable(m, gap, gap + n)
    for step in range(2):
        a = v.int(f'a{step}', 0, 2**10, chi=7)
        b = v.int(f'b{step}', 0, 2**10, chi=7)
        v.assume(v.all_of(a <= b, b <= n))
        mask = torch.zeros([n])
        mask[a:b] = 1
        m.current_choice = mask.bool()
        got = c.current_mask
        v.ensure('mask length', v.mask_len(got) == gap + n + tail)
        for i in v.each('gap', gap):
            v.ensure('unregistered channels stay', v.mask_at(got, i))
        for i in v.each('own', n):
            v.ensure('registered channels follow their mutable',
                     v.mask_at(got, gap + i) == v.all_of(a <= i, i < b))
        for i in v.each('rest', tail):
            v.ensure('unregistered channels stay',
                     v.mask_at(got, gap + n + i))


class Box:
    """A module with a container on either side."""

    def __init__(self, ins, outs):
        self.at = dict(in_channels=ins, out_channels=outs)

    def get_mutable_attr(self, name):
        return self.at[name]


@contract('C03', targets=[CC, ID], samples=150,
          bound='one registered range')
def to_module(v):
    """Registered on the asked side of a module; without an end the range
    has all channels of the mutable."""
    (first, ), total = layout(v, 1)
    start, end, m, k = first
    other = v.int('other', 1, 2**10, chi=9)
    out = v.flag('out')
    mine, rest = MutableChannelContainer(total), MutableChannelContainer(
        other)
    box = Box(rest, mine) if out else Box(mine, rest)
    args = [box, m]
    kw = dict(start=start)
    if v.flag('with end'):
        kw['end'] = end
    if not out or v.flag('said'):
        kw['is_to_output_channel'] = out
    if v.flag('from the start'):
        v.assume(start == 0)
        kw.pop('start')
    MutableChannelContainer.register_mutable_channel_to_module(*args, **kw)
    expect(v, mine.current_mask, [first], total)
    expect(v, rest.current_mask, [], other)
