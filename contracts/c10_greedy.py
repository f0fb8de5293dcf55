"""C10: the greedy sampler trains the supernet with its best candidates, one
after the other, and turns to them with rising probability."""
import math

from mmrazor.engine import GreedySamplerTrainLoop
from mmrazor.structures import Candidates
from contracts.c09_evolution import any_subnet, key, legal, within
from contracts.search_stubs import KEY, Files, Loader, setup
from pyvc.harness import contract

SS = 'mmrazor/engine/runner/subnet_sampler_loop.py'
CK = 'mmrazor/engine/runner/utils/check.py'
CA = 'mmrazor/structures/subnet/candidate.py'
N = 2**20


def make(v, spaces=((1, 2), (1, 2)), **kw):
    net, runner, loader, evaluator = setup(v, spaces)
    runner.optim_wrapper = None
    runner.val_loop = None
    runner.message_hub = type('Hub', (), dict(
        update_info=lambda self, *a: None))()
    cfg = dict(max_iters=4, num_candidates=3, num_samples=2, top_k=2,
               score_key=KEY, constraints_range=dict(flops=(10., 500.)),
               estimator_cfg=dict(type='VcEstimator'))
    cfg.update(kw)
    loop = GreedySamplerTrainLoop(
        runner, Loader(99), loader, evaluator, **cfg)
    return net, loop, evaluator


def schedule(v, kind, chi=200):
    a = v.int('start', 0, N, chi=chi)
    b = v.int('end', 1, 2 * N, chi=2 * chi)
    v.assume(a < b)
    lo = v.float('init', 0, 1)
    hi = v.float('max', 0, 1)
    v.assume(lo <= hi)
    _, loop, _ = make(v, prob_schedule=kind, schedule_start_iter=a,
                      schedule_end_iter=b, init_prob=lo, max_prob=hi)
    return loop, a, b, lo, hi


def prob(loop, i):
    loop.update_cur_prob(i)
    return loop.cur_prob


EPS = 1e-9


@contract('C10', targets=[SS], samples=300)
def linear(v):
    """From the first to the last probability, never falling."""
    loop, a, b, lo, hi = schedule(v, 'linear')
    i = v.int('i', 0, 4 * N, chi=600)
    j = v.int('j', 0, 4 * N, chi=600)
    v.assume(i <= j)
    p, q = prob(loop, i), prob(loop, j)
    v.ensure('within the two', v.all_of(lo - EPS <= p, p <= hi + EPS))
    v.ensure('never falls', p <= q + EPS)
    v.ensure('first until the start', v.any_of(
        i > a, v.all_of(p - lo <= EPS, lo - p <= EPS)))
    v.ensure('last from the end', v.any_of(
        i < b, v.all_of(p - hi <= EPS, hi - p <= EPS)))


@contract('C10', targets=[SS], samples=300)
def cosine(v):
    loop, a, b, lo, hi = schedule(v, 'consine')
    i = v.int('i', 0, 4 * N, chi=600)
    p = prob(loop, i)
    v.ensure('within the two', v.all_of(lo - EPS <= p, p <= hi + EPS))
    v.ensure('first before the start', v.any_of(i >= a, p == lo))
    v.ensure('last after the end', v.any_of(i <= b, p == hi))


@contract('C10', targets=[SS], kind='bounded', samples=300)
def shapes(v):
    kind = v.choose('kind', ['linear', 'consine'])
    loop, a, b, lo, hi = schedule(v, kind)
    i, j = v.int('i', 0, 4 * N, chi=600), v.int('j', 0, 4 * N, chi=600)
    v.assume(i <= j)
    p, q = prob(loop, i), prob(loop, j)
    v.ensure('never falls', p <= q + EPS)
    if i <= a:
        v.ensure('first', abs(p - lo) <= EPS)
    elif i >= b:
        v.ensure('last', abs(p - hi) <= EPS)
    else:
        x = (i - a) / (b - a)
        if kind == 'consine':
            x = (1 - math.cos(math.pi * x)) / 2
        v.ensure('a line or half a wave', abs(p - (lo + (hi - lo) * x)) <= EPS)


@contract('C10', targets=[SS], samples=20)
def arguments(v):
    v.ensure('known schedules', v.raises(make, v, prob_schedule='other'))


@contract('C10', targets=[SS, CK, CA], samples=300,
          bound='2 samples, 1 earlier candidate')
def sampling(v):
    """From the supernet within constraints, or from the candidates."""
    net, loop, ev = make(v, spaces=((1, 2), (3, )))
    loop.cur_prob = v.float('prob', 0, 1)
    have = v.small('have', 0, 1)
    if have:
        s = any_subnet(v, net, 'c')
        loop.candidates.append({str(s): dict(score=v.float('s', 0, 100))})
        v.assume(within(v, net, s))
    before = loop.candidates.subnets if have else []
    got, from_net = loop.get_candidates_with_sample(loop.num_samples)
    v.ensure('at most as many as asked for', len(got) <= 2)
    v.ensure('counted', 0 <= from_net <= 2)
    if not have:
        v.ensure('nothing to sample from yet', from_net == 2)
    v.ensure('all when there is no constraint to fail',
             len(got) >= 2 - from_net)
    for s in (got.subnets if len(got) else []):
        legal(v, net, s, 'legal')
        v.ensure('within the constraints', within(v, net, s))
    v.ensure('the candidates stay', (
        loop.candidates.subnets if have else []) == before)
    if from_net < 2:
        v.ensure('only with that probability', loop.cur_prob > 0)
    if have and from_net:
        v.ensure('never from the supernet at 1', loop.cur_prob < 1)


def scored(v, net, ev, n, name='c'):
    """n candidates in the pool, all subnets different"""
    k = list(net.mutator.search_groups)
    return [{k[0]: i + 1} for i in range(n)]


@contract('C10', targets=[SS, CA], samples=300,
          bound='2 new of 4 candidates')
def refreshing(v):
    """The best candidates are used once each, best first, then renewed."""
    net, loop, ev = make(v, spaces=((1, 2, 3, 4), ), constraints_range=None,
                         top_k=v.small('k', 1, 2))
    have = v.small('have', 0, 2)
    for i, s in enumerate(scored(v, net, ev, have)):
        loop.candidates.append({str(s): dict(score=v.float('old', 0, 100))})
    g, = net.mutator.search_groups
    new = [{g: 3}, {g: 4}]
    todo = list(new)
    loop.get_candidates_with_sample = lambda num_samples: (
        Candidates([todo.pop(0), todo.pop(0)]), 2)
    before = loop.candidates.subnets if have else []
    first = loop.sample_subnet()
    pool = before + new
    score = {s[g]: ev.table((s[g], )) for s in pool}
    v.ensure('all of them are evaluated', sorted(ev.scored) == sorted(
        (s[g], ) for s in pool))
    kept = loop.candidates.subnets
    v.ensure('the pool is limited', len(kept) == min(
        loop.num_candidates, len(pool)))
    v.ensure('of those', all(s in pool for s in kept))
    for s in pool:
        v.ensure('the worst is left out', s in kept or v.all_of(*[
            score[s[g]] <= score[t[g]] for t in kept]))
    for s, x in zip(kept, [r['score'] for c in loop.candidates.data
                           for r in c.values()]):
        v.ensure('with their scores', x == score[s[g]])
    used = [first]
    for _ in range(loop.top_k - 1):
        v.ensure('no new ones yet', todo == [])
        used.append(loop.sample_subnet())
    v.ensure('each once', len({s[g] for s in used}) == loop.top_k)
    for a, b in zip(used, used[1:]):
        v.ensure('best first', score[a[g]] >= score[b[g]])
    for s in pool:
        v.ensure('the best', s in used or v.all_of(*[
            score[s[g]] <= score[t[g]] for t in used]))
    del ev.scored[:]
    todo.extend(new)
    last = loop.sample_subnet()
    v.ensure('then they are renewed', todo == [] and len(ev.scored) > 0)
    v.ensure('and used again', last in pool)


@contract('C10', targets=[SS], kind='bounded', samples=100)
def training(v):
    """A whole run: every step trains a legal subnet of the best."""
    n = v.small('iters', 1, 9)
    net, loop, ev = make(v, spaces=((1, 2, 3), (1, 2)), max_iters=n,
                         constraints_range=None, num_candidates=4,
                         schedule_start_iter=1, schedule_end_iter=6,
                         top_k=v.small('k', 1, 3), num_samples=3)
    used = []
    real = loop.sample_subnet

    def sample_subnet():
        s = real()
        used.append(key(net, s))
        legal(v, net, s, 'legal')
        top = [key(net, t) for t in loop.top_k_candidates.subnets]
        v.ensure('one of the best', key(net, s) in top)
        return s
    loop.sample_subnet = sample_subnet
    train = net.train_step

    def train_step(data, optim_wrapper=None):
        v.ensure('the sampled one', net.architecture.choice() == used[-1])
        return train(data, optim_wrapper)
    net.train_step = train_step
    with Files().mounted() as f:
        loop.run()
        v.ensure('candidates saved',
                 f.files['/vfs/candidates.pkl'] == loop.candidates)
    v.ensure('as many steps', len(net.trained) == len(used) == n)
    v.ensure('the pool is limited', len(loop.candidates) <= 4)
