"""C09: the evolution search only keeps legal candidates within the
constraints, scores each by itself, and keeps the best."""
from mmrazor.engine import EvolutionSearchLoop
from mmrazor.engine.runner.utils import check_subnet_resources, crossover
from mmrazor.structures import Candidates
from contracts.search_stubs import (KEY, Crash, Estimator, Files, Table,
                                    setup)
from pyvc.harness import contract

EV = 'mmrazor/engine/runner/evolution_search_loop.py'
CK = 'mmrazor/engine/runner/utils/check.py'
GE = 'mmrazor/engine/runner/utils/genetic.py'
CA = 'mmrazor/structures/subnet/candidate.py'


def make(v, spaces=((1, 2), (1, 2)), **kw):
    net, runner, loader, evaluator = setup(v, spaces)
    cfg = dict(max_epochs=1, num_candidates=2, top_k=1, num_mutation=1,
               num_crossover=1, score_key=KEY,
               constraints_range=dict(flops=(10., 500.)),
               estimator_cfg=dict(type='VcEstimator'))
    cfg.update(kw)
    loop = EvolutionSearchLoop(runner, loader, evaluator, **cfg)
    return net, loop, evaluator


def legal(v, net, subnet, label):
    v.ensure(label, set(subnet) == set(net.mutator.search_groups) and all(
        subnet[k] in g[0].choices
        for k, g in net.mutator.search_groups.items()))


def key(net, subnet):
    """the subnet as the tables know it"""
    of = {id(m): k for k, g in net.mutator.search_groups.items() for m in g}
    return tuple(subnet[of[id(m)]] for m in net.architecture.ms)


def within(v, net, subnet, rng=(10., 500.)):
    f = Estimator.table['flops'](key(net, subnet))
    return v.all_of(f >= rng[0], f <= rng[1])


def any_subnet(v, net, name):
    return {k: v.choose(f'{name}_{k}', g[0].choices)
            for k, g in net.mutator.search_groups.items()}


def flops_of(net, s):
    return Estimator.table['flops'](key(net, s))


def seat(v, net, c, name, inside=True):
    """a candidate as an earlier step left it"""
    s = any_subnet(v, net, name)
    if inside:
        v.assume(within(v, net, s))
    return {str(s): dict(score=v.float(f'{name}_score', 0, 100),
                         flops=flops_of(net, s), params=0., latency=0.)}


@contract('C09', targets=[CK], samples=400)
def constraints(v):
    """Within every range, whatever the ranges and the resources."""
    net, _, _, _ = setup(v, ((1, 2), (1, 2)), ('flops', 'params', 'latency'))
    given = v.choose('given', [(), ('flops',), ('params', 'latency'),
                               ('flops', 'params', 'latency')])
    rng, want = {}, []
    s = any_subnet(v, net, 's')
    res = {k: t(key(net, s)) for k, t in Estimator.table.items()}
    for k in given:
        hi = v.float(f'{k}_hi', 0, 1000)
        form = v.choose(f'{k}_form', ['number', 'tuple', 'list'])
        lo = 0 if form == 'number' else v.float(f'{k}_lo', 0, 1000)
        rng[k] = {'number': hi, 'tuple': (lo, hi), 'list': [lo, hi]}[form]
        want += [res[k] >= lo, res[k] <= hi]
    ok, got = check_subnet_resources(net, s, Estimator(), rng)
    v.ensure('exactly when all are met', ok == v.all_of(*want))
    v.ensure('the resources of this subnet', v.all_of(
        *[got[k] == res[k] for k in res]))
    v.ensure('measured fixed', Estimator.asked == [(key(net, s), True)])
    v.ensure('the supernet stays searchable', all(
        not m.is_fixed for m in net.architecture.ms))
    v.ensure('the subnet is set', net.architecture.choice() == key(net, s))


@contract('C09', targets=[CK])
def no_constraints(v):
    net, _, _, _ = setup(v, ((1, 2),))
    ok, got = check_subnet_resources(net, any_subnet(v, net, 's'),
                                     Estimator(), None)
    v.ensure('always within', ok is True and got == {})


@contract('C09', targets=[GE], samples=400, bound='at most 3 groups')
def crossing(v):
    """A child takes every choice from one of its parents."""
    n = v.small('groups', 1, 3)
    a = {i: v.int(f'a{i}', 0, 9) for i in range(n)}
    b = {i: v.int(f'b{i}', 0, 9) for i in range(n)}
    p = v.float('prob', 0, 1)
    c = crossover(dict(a), b, prob=p)
    v.ensure('the same groups', list(c) == list(a))
    for i in range(n):
        v.ensure('from one parent', v.any_of(c[i] == a[i], c[i] == b[i]))
        v.ensure('never mixed at 0', v.any_of(v.no(p == 0), c[i] == a[i]))
        v.ensure('all mixed at 1', v.any_of(v.no(p == 1), c[i] == b[i]))


@contract('C09', targets=[GE], samples=60)
def crossing_arguments(v):
    p = v.float('prob', -3, 4)
    a, b = {0: 1, 1: [1]}, {0: 2, 1: [2]}
    refused = v.raises(crossover, a, b, prob=p)
    v.ensure('a probability', refused == v.any_of(p < 0, p > 1))
    v.ensure('the parents stay', a == {0: 1, 1: [1]} and b == {0: 2, 1: [2]})


def small_search(v, limit, **kw):
    net, loop, ev = make(v, **kw)
    rejected = []
    real = loop._check_constraints

    def check(random_subnet):
        ok, res = real(random_subnet=random_subnet)
        if not ok:
            rejected.append(1)
            v.assume(len(rejected) <= limit)
        return ok, res
    loop._check_constraints = check
    return net, loop, ev


@contract('C09', targets=[EV, CK, CA], samples=200,
          bound='2 candidates, at most 1 rejected')
def sampling(v):
    """The pool is filled up with legal candidates within constraints."""
    net, loop, _ = small_search(v, 1, spaces=((1, 2), (3, )))
    have = v.small('have', 0, 2)
    for i in range(have):
        loop.candidates.append(seat(v, net, loop.candidates, f'c{i}'))
    before = [dict(x) for x in loop.candidates.data]
    loop.sample_candidates()
    v.ensure('full', len(loop.candidates) == loop.num_candidates)
    v.ensure('the candidates there were stay', [
        list(x) for x in loop.candidates.data[:have]] == [
            list(x) for x in before])
    got = loop.candidates.resources('flops')
    for i, s in enumerate(loop.candidates.subnets):
        legal(v, net, s, 'legal')
        v.ensure('within the constraints', within(v, net, s))
        v.ensure('with its own resources', got[i] == flops_of(net, s))
    for b, x in zip(before, loop.candidates.data):
        for k in b:
            v.ensure('results there were stay', v.all_of(
                *[b[k][r] == x[k][r] for r in b[k]]))


@contract('C09', targets=[EV, CA], samples=200, bound='at most 3 candidates')
def scoring(v):
    """Every candidate gets the score of its own subnet."""
    net, loop, ev = make(v, num_candidates=3)
    n = v.small('n', 1, 3)
    for i in range(n):
        loop.candidates.append(seat(v, net, loop.candidates, f'c{i}', False))
    subs, flops = loop.candidates.subnets, loop.candidates.resources('flops')
    loop.update_candidates_scores()
    v.ensure('the same candidates', loop.candidates.subnets == subs)
    v.ensure('all evaluated', ev.scored == [key(net, s) for s in subs])
    for i, s in enumerate(subs):
        want = ev.table(key(net, s))
        got = loop.candidates.scores[i]
        v.ensure('its own score', v.all_of(
            got - want <= 0.011, want - got <= 0.011))
        v.ensure('its own resources',
                 loop.candidates.resources('flops')[i] == flops[i])


@contract('C09', targets=[EV, CA], samples=300,
          bound='2 candidates, at most 2 kept')
def keeping(v):
    """After an epoch the k best of all seen so far are kept."""
    net, loop, ev = make(v, spaces=((1, 2, 3, 4),), num_candidates=2,
                         top_k=v.small('k', 1, 2),
                         num_mutation=0, num_crossover=0)
    name, = net.mutator.search_groups
    again = v.flag('a kept one is evaluated again')
    old = []
    for i in range(v.small('kept', 0, 2)):
        s = {name: 1 if again and i == 0 else 3 + i}
        old.append({str(s): dict(score=v.float(f'top{i}', 0, 1000),
                                 flops=0., params=0., latency=0.)})
    loop.top_k_candidates = Candidates([
        {k: dict(r) for k, r in x.items()} for x in old])
    subs = [{name: 1}, {name: 2}]
    for s in subs:
        loop.candidates.append(dict(s))
    loop.run_epoch()
    pool = [(eval(k), x['score']) for o in old for k, x in o.items()]
    pool += [(s, ev.table(key(net, s))) for s in subs]
    top = loop.top_k_candidates
    sc = [r['score'] for x in top.data for r in x.values()]
    v.ensure('k of them', len(top) == len(sc) == min(loop.top_k, len(pool)))
    for s, x in zip(top.subnets, sc):
        v.ensure('one of those seen, with its score', v.any_of(*[v.all_of(
            x - y <= 0.006, y - x <= 0.006) for p, y in pool if p == s]))
    for a, b in zip(sc, sc[1:]):
        v.ensure('best first', a >= b)
    if not again:
        v.ensure('none twice', len({str(s) for s in top.subnets}) ==
                 len(top))
        for p, y in pool:
            v.ensure('none left out is better',
                     p in top.subnets or v.all_of(*[
                         y <= x + 0.006 for x in sc]))
    v.ensure('one epoch', loop._epoch == 1)


@contract('C09', targets=[EV, GE, CK, CA], samples=200,
          bound='1 child, 2 parents, at most 1 rejected')
def breeding(v):
    """Children are legal, within constraints, and not too many."""
    how = v.choose('how', ['mutation', 'crossover'])
    net, loop, _ = small_search(v, 1, top_k=2)
    n = v.small('parents', 1, 2)
    loop.top_k_candidates = Candidates([
        seat(v, net, None, f'top{i}') for i in range(n)])
    parents = loop.top_k_candidates.subnets
    if how == 'mutation':
        kids = loop.gen_mutation_candidates()
    else:
        kids = loop.gen_crossover_candidates()
    v.ensure('as many as asked for', len(kids) == 1)
    s, = kids.subnets
    legal(v, net, s, 'legal child')
    v.ensure('child within the constraints', within(v, net, s))
    v.ensure('child with its own resources',
             kids.resources('flops')[0] == flops_of(net, s))
    if how == 'crossover':
        v.ensure('from its parents', all(
            any(s[k] == p[k] for p in parents) for k in s))
    v.ensure('the parents stay', loop.top_k_candidates.subnets == parents)


@contract('C09', targets=[EV], kind='bounded', samples=20)
def giving_up(v):
    """When nothing fits the search goes on without children."""
    net, loop, _ = make(v, num_mutation=2, num_crossover=2,
                        num_candidates=4, constraints_range=dict(flops=-1))
    loop.top_k_candidates = Candidates([seat(v, net, None, 't', False)])
    for gen in (loop.gen_mutation_candidates, loop.gen_crossover_candidates):
        del Estimator.asked[:]
        v.ensure('none', len(gen()) == 0)
        v.ensure('tried', len(Estimator.asked) == 20)


@contract('C09', targets=[EV, CA, CK], samples=100, bound='1 kept candidate')
def the_result(v):
    """What is exported at the end is the best kept candidate."""
    net, loop, ev = make(v, top_k=2)
    top = [seat(v, net, None, f'top{i}') for i in range(v.small('n', 1, 2))]
    loop.top_k_candidates = Candidates(top)
    best = loop.top_k_candidates.subnets[0]
    with Files().mounted() as f:
        loop._save_best_fix_subnet()
        got = f.files['/vfs/best_fix_subnet.yaml']
    want = dict(zip([f'architecture.ms.{i}' for i in range(2)],
                    key(net, best)))
    v.ensure('the best subnet', {k: x['chosen'] for k, x in got.items()} ==
             want)
    v.ensure('its weights are saved', any(
        p.endswith('.pth') for p in f.files))


@contract('C09', targets=[EV], kind='bounded', samples=200)
def resuming(v):
    """Interrupted anywhere, resumed from the last file: the same number of
    epochs, from the saved state."""
    epochs, keep = v.small('epochs', 1, 4), v.small('keep', 1, 3)
    kw = dict(spaces=((1, 2, 3), (1, 2)), max_epochs=epochs, top_k=2,
              num_candidates=3, max_keep_ckpts=keep)
    net, loop, ev = make(v, **kw)
    for c in ((a, b) for a in (1, 2, 3) for b in (1, 2)):
        v.assume(10. <= Estimator.table['flops'](c) <= 500.) \
            if c == (1, 1) else None
    table, score = Estimator.table, ev.table
    with Files().mounted() as f:
        stop = v.small('stop', 1, 4)
        real = loop.run_epoch

        def run_epoch():
            if loop._epoch + 1 == stop:
                raise Crash
            real()
        loop.run_epoch = run_epoch
        try:
            loop.run()
        except Crash:
            pass
        done = min(epochs, stop - 1)
        left = sorted(p for p in f.files if 'search_epoch_' in p)
        v.ensure('the last files are kept', left == sorted(
            f'/vfs/search_epoch_{i}.pkl'
            for i in range(max(1, done - keep + 1), done + 1)))
        if done == 0:
            return
        last = f.files[f'/vfs/search_epoch_{done}.pkl']
        net2, loop2, ev2 = make(v, resume_from=(
            f'/vfs/search_epoch_{done}.pkl'), **kw)
        Estimator.table, ev2.table = table, score
        ran = []
        real2 = loop2.run_epoch

        def second():
            if not ran:
                v.ensure('the saved candidates',
                         loop2.candidates == last['candidates'])
                v.ensure('the saved best', loop2.top_k_candidates ==
                         last['top_k_candidates'])
            ran.append(loop2._epoch)
            real2()
        loop2.run_epoch = second
        loop2.run()
        v.ensure('the remaining epochs, no more', ran == list(
            range(done, epochs)))
        v.ensure('a result in the end',
                 '/vfs/best_fix_subnet.yaml' in f.files)
        for i, s in enumerate(loop2.top_k_candidates.subnets):
            legal(v, net2, s, 'legal in the end')
            v.ensure('within the constraints in the end',
                     within(v, net2, s))
