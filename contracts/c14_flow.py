"""C14: channels are grouped exactly when dependencies connect them."""
from mmrazor.structures.graph.channel_flow import ChannelElem, ChannelTensor
from pyvc.harness import contract

CF = 'mmrazor/structures/graph/channel_flow.py'


class Node(ChannelElem):
    """An element whose representative is given: the contract of `root`
    (the code under proof sees the rest of the forest only through it)."""
    rep = None

    @property
    def root(self):
        return self if self.rep is None else self.rep


def element():
    return ChannelElem(None, 0)


def linked(child, parent):
    child._parent = parent
    parent._subs.add(child)


# ------------------------------------------------- one step, any forest

@contract('C14', targets=[CF])
def root_step(v):
    """Finding the representative: right answer, and the forest stays a
    forest with the same representative (induction on the height)."""
    case = v.choose('case', ['alone', 'child of the root', 'deeper'])
    e, sibling = element(), element()
    if case == 'alone':
        linked(sibling, e)
        v.ensure('its own representative', e.root is e)
        v.ensure('still a root', e._parent is None)
        v.ensure('keeps its members', e._subs == {sibling})
        return
    top = Node(None, 0)
    parent = top
    if case == 'deeper':
        parent = Node(None, 0)
        parent.rep = top
        linked(parent, top)
    linked(e, parent)
    linked(sibling, parent)
    below = element()
    linked(below, e)
    r = e.root
    v.ensure('the representative of its parent', r is top)
    v.ensure('still linked to the representative',
             e._parent is top or e._parent is parent)
    v.ensure('listed under its parent', e in e._parent._subs)
    v.ensure('listed once', parent is top or
             (e in top._subs) != (e in parent._subs))
    v.ensure('siblings stay', sibling in parent._subs and
             sibling._parent is parent)
    v.ensure('members below stay', e._subs == {below})
    v.ensure('the rest of the forest stays', parent is top or (
        parent._parent is top and parent in top._subs))


@contract('C14', targets=[CF])
def union_step(v):
    """Binding merges the two sets and nothing else."""
    same = v.flag('same set')
    r1 = Node(None, 0)
    r2 = r1 if same else Node(None, 0)
    e1 = r1 if v.flag('e1 is root') else Node(None, 0)
    e2 = r2 if v.flag('e2 is root') else Node(None, 0)
    for e, r in ((e1, r1), (e2, r2)):
        if e is not r:
            e.rep = r
            linked(e, r)
    kids1, kids2 = set(r1._subs), set(r2._subs)
    if v.flag('method'):
        e1.union(e2)
    else:
        ChannelElem.union_two(e1, e2)
    if same:
        v.ensure('nothing changes', r1._subs == kids1 and
                 r1._parent is None)
        return
    top, low = (r1, r2) if r1._parent is None else (r2, r1)
    kids = {r1: kids1, r2: kids2}
    v.ensure('one representative left', top._parent is None and
             low._parent is top)
    v.ensure('its members are listed', top._subs == kids[top] | {low})
    v.ensure('the other keeps its members', low._subs == kids[low])
    for e, r in ((e1, r1), (e2, r2)):
        v.ensure('members stay linked', e is r or e._parent is r)


class Sub(ChannelElem):
    """A subtree whose members are given: the contract of `subs`."""
    members = ()

    @property
    def subs(self):
        return {self} | set(self.members)


@contract('C14', targets=[CF])
def subs_step(v):
    """The members of a set: itself and the members of its subtrees."""
    e = element()
    want = {e}
    for i in range(v.small('subtrees', 0, 3)):
        t = Sub(None, 0)
        t.members = [element() for _ in range(v.small(f'below{i}', 0, 2))]
        linked(t, e)
        want |= {t} | set(t.members)
    before = set(e._subs)
    v.ensure('all members', e.subs == want)
    v.ensure('looking changes nothing', e._subs == before)


# ----------------------------------------------------- bounded histories

class Groups:
    """The specification: a partition, merged naively."""

    def __init__(self):
        self.sets = []

    def new(self, e):
        if not any(e in s for s in self.sets):
            self.sets.append({e})

    def of(self, e):
        return next(s for s in self.sets if e in s)

    def merge(self, a, b):
        sa, sb = self.of(a), self.of(b)
        if sa is not sb:
            self.sets.remove(sb)
            sa |= sb


def check_partition(v, tensors, g):
    elems = [e for t in tensors for e in t]
    for e in elems:
        v.ensure('members', e.owing_elem_set == g.of(e))
        for f in elems:
            v.ensure('same set exactly when connected',
                     (e.root is f.root) == (g.of(e) is g.of(f)))


def history(v, steps, sizes):
    g = Groups()
    tensors = []

    def add(t):
        tensors.append(t)
        for e in t:
            g.new(e)
    for n in sizes:
        add(ChannelTensor(n))
    for i in range(steps):
        op = v.choose(f'op{i}', ['union', 'cat', 'expand', 'slice', 'elem'])
        a = tensors[v.small(f'a{i}', 0, len(tensors) - 1)]
        b = tensors[v.small(f'b{i}', 0, len(tensors) - 1)]
        if op == 'union':
            if len(a) != len(b):
                v.ensure('sizes must agree', v.raises(a.union, b))
                continue
            a.union(b)
            for x, y in zip(list(a), list(b)):
                g.merge(x, y)
        elif op == 'cat':
            c = v.choose(f'how{i}', [lambda: ChannelTensor.cat([a, b]),
                                     lambda: a + b])()
            v.ensure('concatenation', list(c) == list(a) + list(b))
            v.ensure('concatenated size', len(c) == len(a) + len(b))
            add(c)
        elif op == 'expand':
            r = v.small(f'r{i}', 1, 3)
            c = a.expand(r)
            v.ensure('expanded size', len(c) == r * len(a))
            for k, e in enumerate(c):
                g.new(e)
            for k, e in enumerate(c):
                g.merge(a[k // r], e)
            tensors.append(c)
        elif op == 'slice':
            lo = v.small(f'lo{i}', 0, len(a) - 1)
            hi = v.small(f'hi{i}', lo + 1, len(a)) if lo + 1 <= len(a) \
                else len(a)
            c = a[lo:hi]
            v.ensure('slice', list(c) == list(a)[lo:hi])
            add(c)
        else:
            x = a[v.small(f'x{i}', 0, len(a) - 1)]
            y = b[v.small(f'y{i}', 0, len(b) - 1)]
            x.union(y)
            g.merge(x, y)
    return tensors, g


@contract('C14', targets=[CF], kind='bounded', samples=1200)
def histories(v):
    sizes = [v.small(f'size{i}', 1, 4) for i in range(v.small('n', 1, 4))]
    tensors, g = history(v, v.small('steps', 0, 7), sizes)
    check_partition(v, tensors, g)


@contract('C14', targets=[CF], bound='3 tensors of one channel, 3 bindings')
def short_histories(v):
    tensors = [ChannelTensor(1) for _ in range(3)]
    g = Groups()
    for t in tensors:
        g.new(t[0])
    for i in range(3):
        a = tensors[v.small(f'a{i}', 0, 2)][0]
        b = tensors[v.small(f'b{i}', 0, 2)][0]
        a.union(b)
        g.merge(a, b)
    a = tensors[v.small('look', 0, 2)][0]
    v.ensure('look up', a.root.root is a.root)
    check_partition(v, tensors, g)


@contract('C14', targets=[CF], kind='bounded', samples=1200)
def reported_ranges(v):
    """The ranges reported for a tensor partition it, and two neighbouring
    channels are in one range only if their sets span the same tensors."""
    sizes = [v.small(f'size{i}', 1, 4) for i in range(v.small('n', 1, 4))]
    tensors, g = history(v, v.small('steps', 0, 6), sizes)
    for t in tensors:
        for e in t:
            for m in e.owing_elem_set:
                m.reset_cache()
    for t in tensors:
        if len(t) == 0:
            continue
        d = t.elems_hash_dict
        keys = list(d)
        v.ensure('starts at 0', keys[0][0] == 0)
        v.ensure('ends at the last channel', keys[-1][1] == len(t))
        for x, y in zip(keys, keys[1:]):
            v.ensure('contiguous', x[1] == y[0])
        for (lo, hi), h in d.items():
            owners = [frozenset(id(m.owing_tensor) for m in g.of(t[i]))
                      for i in range(lo, hi)]
            v.ensure('one kind of set per range', len(set(owners)) == 1)
            firsts = [min(m.index_in_tensoor for m in g.of(t[i]))
                      for i in range(lo, hi)]
            v.ensure('in order', firsts == sorted(firsts))
            for i in range(lo, hi):
                v.ensure('labelled by its set', t[i].elem_set_hash == h)
        for a in tensors:
            a._reset_channel_elem_cache()


# ------------------------------------------------------------ node rules

def fresh(n, g):
    t = ChannelTensor(n)
    for e in t:
        g.new(e)
    return t


def take_in(g, *ts):
    for t in ts:
        for e in t:
            for m in e.owing_elem_set:
                g.new(m)


@contract('C14', targets=['mmrazor/structures/graph/channel_nodes.py'],
          kind='bounded', samples=800)
def node_rules(v):
    """What each kind of node connects, and nothing more."""
    from torch import nn

    from mmrazor.structures.graph import channel_nodes as cn
    g = Groups()
    kind = v.choose('kind', ['bind', 'cat', 'expand', 'conv', 'depthwise',
                             'group conv', 'linear', 'bn', 'group norm',
                             'pass', 'end'])
    n = v.small('n', 1, 6)
    x = fresh(n, g)
    if v.flag('linked input') and n > 1:
        x[0].union(x[n - 1])
        g.merge(x[0], x[n - 1])
    if kind == 'bind':
        others = [fresh(n, g) for _ in range(v.small('others', 0, 2))]
        node = cn.BindChannelNode('n', 'bind_placeholder')
        out = node.channel_forward([x] + others)
        for t in others:
            for a, b in zip(x, t):
                g.merge(a, b)
        v.ensure('bind passes its channels', list(out) == list(x))
        check_partition(v, [x] + others, g)
    elif kind == 'cat':
        y = fresh(v.small('m', 1, 4), g)
        node = cn.CatChannelNode('n', 'cat_placeholder')
        out = node.channel_forward([x, y])
        v.ensure('cat keeps order', list(out) == list(x) + list(y))
        check_partition(v, [x, y], g)
    elif kind == 'expand':
        r = v.small('r', 1, 3)
        node = cn.ExpandChannelNode('n', 'expand', expand_ratio=r)
        node._in = n
        prev = cn.InputChannelNode('p', 'input_placeholder', input_channels=n)
        node.prev_nodes.append(prev)
        out = node.channel_forward([x])
        v.ensure('expanded size', len(out) == n * r)
        for e in out:
            g.new(e)
        for k, e in enumerate(out):
            g.merge(x[k // r], e)
        check_partition(v, [x, out], g)
    elif kind in ('conv', 'linear'):
        m = v.small('m', 1, 5)
        mod = nn.Conv2d(n, m, 1) if kind == 'conv' else nn.Linear(n, m)
        node = (cn.ConvNode if kind == 'conv' else cn.LinearNode)('n', mod)
        out = node.channel_forward([x])
        v.ensure('output size', len(out) == m)
        v.ensure('declared sizes', node.in_channels == n and
                 node.out_channels == m)
        take_in(g, out)
        v.ensure('input recorded', list(node.in_channel_tensor) == list(x))
        v.ensure('output recorded', list(node.out_channel_tensor) ==
                 list(out))
        check_partition(v, [x, out], g)
    elif kind == 'depthwise':
        v.assume(n > 1)
        node = cn.ConvNode('n', nn.Conv2d(n, n, 1, groups=n))
        out = node.channel_forward([x])
        v.ensure('depthwise passes its channels', list(out) == list(x))
        check_partition(v, [x], g)
    elif kind == 'group conv':
        groups = v.choose('groups', [2, 3])
        v.assume(n % groups == 0)
        m = groups * v.small('per', 1, 3)
        v.assume(not m == n == groups)
        node = cn.ConvNode('n', nn.Conv2d(n, m, 1, groups=groups))
        out = node.channel_forward([x])
        v.ensure('output size', len(out) == m)
        for t in (x, out):
            per = len(t) // groups
            for i, a in enumerate(t):
                for j, b in enumerate(t):
                    if i % per == j % per:
                        v.ensure('same place in every group',
                                 a.root is b.root)
                    elif t is out:
                        v.ensure('places stay apart', a.root is not b.root)
        for a in x:
            for b in out:
                v.ensure('in and out independent', a.root is not b.root)
    elif kind == 'bn':
        node = cn.BnNode('n', nn.BatchNorm2d(n))
        out = node.channel_forward([x])
        v.ensure('bn passes its channels', list(out) == list(x))
        check_partition(v, [x], g)
    elif kind == 'group norm':
        groups = v.choose('groups', [1, 2, 3])
        v.assume(n % groups == 0)
        node = cn.GroupNormNode('n', nn.GroupNorm(groups, n))
        out = node.channel_forward([x])
        v.ensure('group norm passes its channels', list(out) == list(x))
        per = n // groups
        for i in range(n):
            v.ensure('same place in every group', x[i].root is x[i % per].root)
    elif kind == 'pass':
        node = cn.PassChannelNode('n', nn.ReLU())
        out = node.channel_forward([x])
        v.ensure('pass', list(out) == list(x))
        check_partition(v, [x], g)
    else:
        y = fresh(v.small('m', 1, 4), g)
        node = cn.EndNode('n', 'output_placeholder')
        node.channel_forward([x, y])
        both = list(x) + list(y)
        for e in both:
            v.ensure('everything fixed together at the end',
                     e.root is both[0].root)
