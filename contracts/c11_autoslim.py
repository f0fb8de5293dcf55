"""C11: the greedy channel search shrinks one unit at a time, always the one
whose loss hurts least, and finds a subnet for every target."""
from mmrazor.engine import AutoSlimGreedySearchLoop
from contracts.search_stubs import KEY, Crash, Estimator, Files, setup
from pyvc.harness import contract

AS = 'mmrazor/engine/runner/autoslim_greedy_search_loop.py'
CK = 'mmrazor/engine/runner/utils/check.py'
NAMES = ['backbone.b', 'backbone.a', 'neck', 'head']


class Unit:
    """A channel unit as the search sees it."""

    def __init__(self, name, m):
        self.alias, self.m = name, m
        self.candidate_choices = sorted(m.choices)


class Mutator:

    def __init__(self, net):
        self.mutable_units = [
            Unit(n, m) for n, m in zip(NAMES, net.architecture.ms)]

    def set_choices(self, choices):
        for u in self.mutable_units:
            u.m.current_choice = choices[u.alias]


def make(v, spaces, targets, tables=None, **kw):
    net, runner, loader, ev = setup(v, spaces)
    if tables:
        Estimator.table['flops'], ev.table = tables
    del net.mutator
    object.__setattr__(net, 'mutator', Mutator(net))
    loop = AutoSlimGreedySearchLoop(
        runner, loader, ev, target_flops=targets, score_key=KEY,
        estimator_cfg=dict(type='VcEstimator'), **kw)
    return net, loop, ev


def steps(v, spaces, loop, ev, visited):
    """visited subnets: one unit, one step, the best of all such steps"""
    f, score = Estimator.table['flops'], ev.table
    v.ensure('starts with the largest', visited[0] == tuple(
        max(s) for s in spaces))
    for a, b in zip(visited, visited[1:]):
        options = []
        for i, s in enumerate(spaces):
            k = sorted(s).index(a[i])
            if k:
                options.append(a[:i] + (sorted(s)[k - 1], ) + a[i + 1:])
        v.ensure('one unit, one step', b in options)
        for o in options:
            v.ensure('every step was tried', o in ev.scored)
            v.ensure('no better step', score(o) <= score(b))


def watch(loop, net):
    """the subnets whose resources were asked for, in order"""
    return [c for c, _ in Estimator.asked]


def bins2choice(loop, spaces, bins):
    return tuple(sorted(s)[bins[n] - 1] for s, n in zip(spaces, NAMES))


def check_found(v, spaces, loop, ev, visited, targets):
    f = Estimator.table['flops']
    found = [bins2choice(loop, spaces, b) for b in loop.searched_subnet]
    for s, g in zip(found, loop.searched_subnet_flops):
        v.ensure('with its own resources', g == f(s))
    want = sorted(targets, reverse=True)
    pos = 0
    for s, t in zip(found, want):
        v.ensure('meets its target', f(s) <= t)
        v.ensure('on the way', s in visited[pos:])
        at = visited.index(s, pos)
        for e in visited[pos:at]:
            v.ensure('the first that does', f(e) > t)
        pos = at
    return found


@contract('C11', targets=[AS, CK], samples=300,
          bound='2 units of at most 3 widths, at most 2 targets')
def searching(v):
    spaces = v.choose('spaces', [((8, 4), (2, )), ((1, 2), (8, 4)),
                                 ((3, 1, 2), (4, 8))])
    targets = [v.float(f't{i}', 0, 1000)
               for i in range(v.small('targets', 1, 2))]
    net, loop, ev = make(v, spaces, tuple(targets))
    loop._save_searched_subnet = lambda: None
    with Files().mounted():
        try:
            loop.run()
            ended = None
        except RuntimeError:
            ended = 'smallest'
    visited = watch(loop, net)
    steps(v, spaces, loop, ev, visited)
    found = check_found(v, spaces, loop, ev, visited, targets)
    if ended is None:
        v.ensure('one subnet per target', len(found) == len(targets))
        v.ensure('no more than needed', found[-1] == visited[-1])
        v.ensure('begun and ended', loop.runner.hooks == [
            'before_test', 'after_test'])
    else:
        v.ensure('given up at the smallest only', visited[-1] == tuple(
            min(s) for s in spaces))
        v.ensure('which is too large', Estimator.table['flops'](
            visited[-1]) > sorted(targets, reverse=True)[len(found)])
    v.ensure('the current one is the last one', bins2choice(
        loop, spaces, loop.current_subnet) == visited[-1])


@contract('C11', targets=[AS, CK], samples=300,
          bound='2 units of 2 widths, at most 2 targets')
def resuming(v):
    """Interrupted at any moment and resumed: the same result."""
    spaces = ((2, 1), (4, 8))
    targets = tuple(v.float(f't{i}', 0, 1000)
                    for i in range(v.small('targets', 1, 2)))
    net, whole, ev = make(v, spaces, targets)
    tables = Estimator.table['flops'], ev.table
    whole._save_searched_subnet = lambda: None
    with Files().mounted():
        try:
            whole.run()
        except RuntimeError:
            v.assume(False)
    with Files().mounted() as f:
        net, loop, ev = make(v, spaces, targets, tables)
        loop._save_searched_subnet = lambda: None
        stop, n = v.small('stop', 1, 4), [0]
        real = loop._val_subnet

        def val():
            n[0] += 1
            if n[0] == stop:
                raise Crash
            return real()
        loop._val_subnet = val
        save = loop._save_searcher_ckpt

        def ckpt():
            save()
            if n[0] + 1 == stop and at_save:
                raise Crash
        at_save = v.flag('right after saving')
        loop._save_searcher_ckpt = ckpt
        try:
            loop.run()
            return
        except Crash:
            pass
        before = watch(loop, net)
        if '/vfs/latest.pkl' not in f.files:
            v.ensure('every step is kept', len(before) == 1)
            return
        at = bins2choice(loop, spaces,
                         f.files['/vfs/latest.pkl']['current_subnet'])
        v.ensure('every step is kept', at == before[-1])
        net, loop, ev = make(v, spaces, targets, tables,
                             resume_from='/vfs/latest.pkl')
        loop._save_searched_subnet = lambda: None
        loop.run()
        after = watch(loop, net)
        for c in after[1:] + ev.scored:
            v.ensure('goes on from there', v.all_of(*(
                x <= y for x, y in zip(c, at))))
    v.ensure('the same subnets',
             loop.searched_subnet == whole.searched_subnet)
    v.ensure('as many', len(loop.searched_subnet_flops) == len(
        whole.searched_subnet_flops))
    for a, b in zip(loop.searched_subnet_flops, whole.searched_subnet_flops):
        v.ensure('the same resources', a == b)


@contract('C11', targets=[AS, CK], kind='bounded', samples=200)
def larger(v):
    """More units, more targets, and what is written in the end."""
    n = v.small('units', 1, 4)
    spaces = tuple(tuple(range(1, 1 + v.small(f'widths{i}', 1, 4)))
                   for i in range(n))
    targets = tuple(v.float(f't{i}', 0, 1000)
                    for i in range(v.small('targets', 1, 3)))
    net, loop, ev = make(v, spaces, targets)
    loop.runner.rank = v.choose('rank', [0, 0, 1])
    ev.empty = v.choose('no metrics', [False, False, False, True])
    with Files().mounted() as f:
        try:
            loop.run()
        except RuntimeError:
            v.assume(False)
    if ev.empty:
        # nothing is better than the first one that was tried
        ev.table = lambda c: 0.
    visited = watch(loop, net)[:1 + sum(map(len, spaces))]
    steps(v, spaces, loop, ev, visited)
    found = check_found(v, spaces, loop, ev, visited, targets)
    v.ensure('one subnet per target', len(found) == len(targets))
    if loop.runner.rank:
        v.ensure('one process writes', not f.saved)
        return
    for s, g in zip(found, loop.searched_subnet_flops):
        got = f.files['/vfs/FLOPS_{:.2f}M.yaml'.format(g)]
        v.ensure('written as found', tuple(
            x['chosen'] for x in got.values()) == s)
