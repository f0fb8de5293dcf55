"""C18: differentiable search keeps the two levels of its problem apart."""
import contextlib
import copy
import os

import torch
import torch.nn as nn
import torch.nn.functional as F
from mmengine.model import BaseModel
from mmengine.optim import OptimWrapper, OptimWrapperDict

from mmrazor.models.algorithms.nas.darts import (BatchNormWrapper, Darts,
                                                 DartsDDP)
from mmrazor.models.mutables import (DiffChoiceRoute, DiffMutableOP,
                                     OneHotMutableOP)
from mmrazor.models.mutables.mutable_module.diff_mutable_module import \
    GumbelChoiceRoute
from mmrazor.models.mutators import NasMutator
from mmrazor.structures import export_fix_subnet, load_fix_subnet
from pyvc.harness import OutOfReach, contract, ghost

DARTS = 'mmrazor/models/algorithms/nas/darts.py'


# ---------------------------------------------------------------- ghosts
@ghost
class Num:
    """A real number that torch and the optimizers treat as a parameter."""

    def __init__(self, x, grad=None):
        self.x, self.grad = x, grad

    @classmethod
    def __torch_function__(cls, func, types, args=(), kwargs=None):
        name = getattr(func, '__name__', '')
        if name in ('cat', 'stack'):
            return Together(list(args[0]))
        if name in ('zeros_like', ):
            return Num(0.)
        raise OutOfReach(name)

    def view(self, *shape):
        return self

    reshape = flatten = detach = contiguous = double = float = view
    data = property(lambda self: self)

    def clone(self):
        return Num(self.x)

    def __deepcopy__(self, memo):
        return Num(self.x, self.grad)

    def copy_(self, other):
        self.x = other.x
        return self

    def __add__(self, o):
        return Num(self.x + val(o))

    __radd__ = __add__

    def __mul__(self, o):
        return Num(self.x * val(o))

    __rmul__ = __mul__

    def __sub__(self, o):
        return Num(self.x - val(o))

    def __rsub__(self, o):
        return Num(val(o) - self.x)

    def __neg__(self):
        return Num(-self.x)

    def __truediv__(self, o):
        return Num(self.x / val(o))

    def __rtruediv__(self, o):
        return Num(val(o) / self.x)

    def __iadd__(self, o):
        self.x = self.x + val(o)
        return self

    def __isub__(self, o):
        self.x = self.x - val(o)
        return self

    def add_(self, o, alpha=1):
        return self.__iadd__(val(o) * alpha)

    def sub_(self, o, alpha=1):
        return self.__isub__(val(o) * alpha)

    def add(self, o, alpha=1):
        return Num(self.x + val(o) * alpha)

    def sub(self, o, alpha=1):
        return Num(self.x - val(o) * alpha)

    def __lt__(self, o):
        return self.x < val(o)

    def item(self):
        return self.x


def val(o):
    return o.x if isinstance(o, Num) else o


def eq(a, b):
    r = a == b
    if r is False:
        r = abs(a - b) <= 1e-9 * (1 + abs(b))
    return r


class Together:
    norms = None

    def __init__(self, parts):
        self.parts = parts

    def norm(self):
        return Num(Together.norms(self.parts))


class Loss:
    """The loss of a run: of which batch, at which weights."""

    def __init__(self, batch, mode, ps):
        self.at = (batch, mode) + tuple(p.x for p in ps)


class Level(nn.Module):
    """Parameters of one of the two levels."""

    def __init__(self, ps):
        super().__init__()
        object.__setattr__(self, 'ps', ps)

    def parameters(self, recurse=True):
        return iter(self.ps)

    def named_parameters(self, *a, **k):
        return iter([(str(i), p) for i, p in enumerate(self.ps)])


class Supernet(Level):

    def forward(self, inputs, data_samples=None, mode='tensor'):
        self.modes.append((data_samples, self.training))
        return dict(loss=Loss(inputs, mode, self.ps + self.other.ps))


class Batch(nn.Module):

    def __init__(self, order):
        super().__init__()
        self.order = order

    def forward(self, data, training=False):
        made = dict(inputs=(data, training), data_samples=('samples', data))
        return {k: made[k] for k in self.order}


class Wrapper:
    """An optimizer of some parameters.  A backward adds the gradients of the
    loss (any numbers) to those of all parameters it depends on."""

    def __init__(self, v, name, mine, everyone, log, every=1):
        self.v, self.name, self.mine, self.log = v, name, mine, log
        self.everyone, self.every, self.count = everyone, every, 0
        self.optimizer = self
        self.state = {}
        self.param_groups = []
        self.inside = 0

    @contextlib.contextmanager
    def optim_context(self, model):
        self.inside += 1
        yield
        self.inside -= 1

    def backward(self, loss, **k):
        fresh = {}
        for i, p in enumerate(self.everyone):
            g = self.v.float(f'g{len(self.log)}_{i}')
            fresh[i] = g
            if p.grad is None:
                p.grad = Num(g)
            else:  # in place, as autograd does
                p.grad.x = p.grad.x + g
        self.log.append(('backward', self.name, loss.at, fresh))

    def step(self, **k):
        self.log.append(('step', self.name, [p.grad.x for p in self.mine]))
        for i, p in enumerate(self.mine):
            p.x = self.v.float(f's{len(self.log)}_{i}')

    def zero_grad(self, **k):
        for p in self.mine:
            p.grad = None

    def scale_loss(self, loss):
        return loss

    def update_params(self, loss, **k):
        self.backward(loss)
        self.count += 1
        if self.count % self.every == 0:
            self.step()
            self.zero_grad()


class Both(OptimWrapperDict):

    def __init__(self, **kw):
        self.optims = self.optim_wrappers = kw

    def __getitem__(self, name):
        return self.optims[name]

    def __len__(self):
        return len(self.optims)


class Algo(Darts):

    def __init__(self, net, arch, order, unroll):
        BaseModel.__init__(self)
        object.__setattr__(net, 'other', arch)
        object.__setattr__(net, 'modes', [])
        self.architecture, self.mutator = net, arch
        self.data_preprocessor = Batch(order)
        self.unroll = unroll
        self.norm_training = False
        self.is_supernet = True

    def parse_losses(self, losses):
        return losses['loss'], dict(losses)


class Distributed(DartsDDP):

    def __init__(self, algo):
        nn.Module.__init__(self)
        self.module = algo

    def forward(self, *a, **k):
        return self.module(*a, **k)


def problem(v, unroll):
    nw, na = v.small('weights', 1, 2), v.small('arch params', 1, 2)
    ws = [Num(v.float(f'w{i}')) for i in range(nw)]
    as_ = [Num(v.float(f'a{i}')) for i in range(na)]
    algo = Algo(Supernet(ws), Level(as_), [
        ('inputs', 'data_samples'), ('data_samples', 'inputs')][v.small(
            'order', 0, 1)], unroll)
    log = []
    optims = Both(architecture=Wrapper(v, 'weights', ws, ws + as_, log),
                  mutator=Wrapper(v, 'arch', as_, ws + as_, log))
    model = Distributed(algo) if v.flag('distributed') else algo
    return ws, as_, algo, log, optims, model


TRAIN, VAL = (('train', True), 'loss'), (('val', True), 'loss')


@contract('C18', targets=[DARTS], samples=200,
          bound='one or two parameters of either level',
          opts=dict(ghost=dict(exact=True)))
def first_order(v):
    """The architecture follows the loss of its own batch and nothing else;
    then the weights follow that of theirs at the new architecture."""
    ws, as_, algo, log, optims, model = problem(v, False)
    net, arch = optims['architecture'], optims['mutator']
    net.every, arch.every = v.small('every', 1, 2), v.small('every a', 1, 2)
    gathered = {}
    for n, ps in (('weights', ws), ('arch', as_)):
        gathered[n] = [0.] * len(ps)
    for step in range(2):
        del log[:]
        was = [p.x for p in ws], [p.x for p in as_]
        got = model.train_step(('train', 'val'), optims)
        backs = [x for x in log if x[0] == 'backward']
        v.ensure('a loss of each level', [x[1] for x in backs] == [
            'arch', 'weights'])
        now = {}
        for name, x, batch, start in (
                ('arch', backs[0], VAL, 0), ('weights', backs[1], TRAIN, 1)):
            at = tuple(was[0]) + (tuple(was[1]) if not start else tuple(
                p.x for p in as_))
            v.ensure('of its own batch', x[2][:2] == batch)
            v.ensure('at the weights and architecture of now', v.all_of(
                *[eq(a, b) for a, b in zip(x[2][2:], at)]))
            mine = range(len(ws)) if name == 'weights' else range(
                len(ws), len(ws) + len(as_))
            gathered[name] = [g + x[3][i] for g, i in zip(
                gathered[name], mine)]
        for x in log:
            if x[0] != 'step':
                continue
            v.ensure('follows the gradients of its own losses', v.all_of(
                *[eq(a, b) for a, b in zip(x[2], gathered[x[1]])]))
            gathered[x[1]] = [0.] * len(gathered[x[1]])
        v.ensure('as often as configured', [
            x[1] for x in log if x[0] == 'step'] == [
                n for n, w in (('arch', arch), ('weights', net))
                if (step + 1) % w.every == 0])
        v.ensure('samples of the batch', [
            x for x in algo.architecture.modes] == [
                (('samples', 'val'), True), (('samples', 'train'), True)])
        del algo.architecture.modes[:]
        v.ensure('logs both', set(got) == {'mutator.loss', 'supernet.loss'})
        v.ensure('contexts are left', net.inside == arch.inside == 0)


@contract('C18', targets=[DARTS], samples=200,
          bound='one or two parameters of either level',
          opts=dict(ghost=dict(exact=True)))
def second_order(v):
    """The architecture follows its loss at weights one step further, less
    the change of the step with the architecture (by finite differences);
    afterwards the weights are as before and follow their own loss."""
    ws, as_, algo, log, optims, model = problem(v, True)
    net, arch = optims['architecture'], optims['mutator']
    lr, mom, decay = (v.float('lr', 0, 1), v.float('momentum', 0, 1),
                      v.float('decay', 0, 1))
    net.param_groups = [dict(lr=lr, momentum=mom, weight_decay=decay)]
    moved = v.choose('momentum buffers', ['none', 'empty', 'filled'])
    bufs = [v.float(f'm{i}') if moved == 'filled' else 0.
            for i in range(len(ws))]
    net.state = {w: {} for w in ws}
    for w, b in zip(ws, bufs):
        if moved == 'empty':
            net.state[w]['momentum_buffer'] = None
        elif moved == 'filled':
            net.state[w]['momentum_buffer'] = Num(b)
    size = v.float('norm', .001, 1000)
    lengths = []

    def norm(parts):
        lengths.append([p.x for p in parts])
        return size
    Together.norms = norm
    for step in range(v.small('steps', 1, 2)):
        del log[:], lengths[:]
        if v.flag(f'leftovers{step}'):
            # gradients of earlier losses which have not been used up
            for i, p in enumerate(as_):
                p.grad = Num(v.float(f'left{step}_{i}'))
        w0, a0 = [p.x for p in ws], [p.x for p in as_]
        nw = len(ws)
        got = model.train_step(('train', 'val'), optims)
        v.ensure('logs both', set(got) == {'mutator.loss', 'supernet.loss'})
        steps = [x for x in log if x[0] == 'step']
        backs = [x for x in log if x[0] == 'backward']
        v.ensure('one step of each level', [x[1] for x in steps] == [
            'arch', 'weights'])
        k = [log.index(x) for x in steps]
        before = [x for x in log[:k[0]]]
        virtual = [x for x in before if x[2][:2] == TRAIN]
        ahead = [x for x in before if x[2][:2] == VAL]
        v.ensure('losses of the virtual step', (len(virtual), len(ahead)) == (
            3, 1) and before[1] is ahead[0])

        def same(x, w, a):
            return v.all_of(*[eq(p, q) for p, q in zip(x[2][2:], w + a)])
        g = before[0][3]
        v.ensure('virtual step from the weights', same(before[0], w0, a0))
        w1 = [w - lr * (mom * b + g[i] + decay * w)
              for i, (w, b) in enumerate(zip(w0, bufs))]
        v.ensure('the loss one step further', same(ahead[0], w1, a0))
        d = ahead[0][3]
        v.ensure('length of its gradient', len(lengths) == 1 and v.all_of(*[
            eq(x, d[i]) for i, x in enumerate(lengths[0])]))
        eps = .01 / size
        plus, minus = before[2], before[3]
        v.ensure('a bit forth', same(plus, [
            w + eps * d[i] for i, w in enumerate(w0)], a0))
        v.ensure('a bit back', same(minus, [
            w - eps * d[i] for i, w in enumerate(w0)], a0))
        v.ensure('the architecture follows', v.all_of(*[
            eq(x, d[nw + i] - lr * ((plus[3][nw + i] - minus[3][nw + i]) /
                                    (2. * eps)))
            for i, x in enumerate(steps[0][2])]))
        last = backs[-1]
        v.ensure('the weights are as before', same(
            last, w0, [p.x for p in as_]))
        v.ensure('their own loss', last[2][:2] == TRAIN and last[1] ==
                 'weights' and len(backs) == 5)
        v.ensure('the weights follow it alone', v.all_of(*[
            eq(x, last[3][i]) for i, x in enumerate(steps[1][2])]))
        v.ensure('contexts are left', net.inside == arch.inside == 0)


# ------------------------------------------------------------ a real network
class Pair(BaseModel):

    def __init__(self, bn):
        super().__init__()
        ops = dict(a=dict(type='Conv2d', kernel_size=1),
                   b=dict(type='Conv2d', kernel_size=3, padding=1))
        self.first = DiffMutableOP(candidates=ops, module_kwargs=dict(
            in_channels=2, out_channels=3))
        self.bn = nn.BatchNorm2d(3) if bn else nn.Identity()
        self.second = DiffMutableOP(candidates=ops, module_kwargs=dict(
            in_channels=3, out_channels=2))

    def forward(self, inputs, data_samples=None, mode='tensor'):
        y = self.second(torch.tanh(self.bn(self.first(inputs))))
        return dict(loss=F.mse_loss(y, data_samples)) if mode == 'loss' else y


def reference(algo, data, lr, mom, decay, optim, unroll):
    """The gradients of the architecture by double differentiation, and with
    the change of the step by finite differences."""
    from torch.func import functional_call
    net = algo.architecture
    names, ws = zip(*net.named_parameters())
    archs = list(algo.mutator.parameters())

    def loss(w, batch):
        return functional_call(net, dict(zip(names, w)), (
            batch['inputs'], batch['data_samples'], 'loss'))['loss']
    if unroll:
        g = torch.autograd.grad(loss(ws, data[0]), ws, create_graph=True)
        w = [w.detach() - lr * (mom * (optim.state[w].get('momentum_buffer')
                                       if optim.state[w].get(
                                           'momentum_buffer') is not None
                                       else 0.) + x + decay * w.detach())
             for w, x in zip(ws, g)]
    else:
        w = ws
    exact = torch.autograd.grad(loss(w, data[1]), archs)
    if not unroll:
        return exact, exact
    w = [x.detach().requires_grad_() for x in w]
    d = torch.autograd.grad(loss(w, data[1]), w + archs)
    d, da = d[:len(w)], d[len(w):]
    eps = .01 / torch.cat([x.flatten() for x in d]).norm()
    plus, minus = [torch.autograd.grad(loss([
        x.detach() + e * y for x, y in zip(ws, d)], data[0]), archs)
        for e in (eps, -eps)]
    return exact, [a - lr * (p - m) / (2 * eps) for a, p, m in zip(
        da, plus, minus)]


@contract('C18', targets=[DARTS], samples=40, kind='bounded')
def descends(v):
    """With real optimizers: the architecture moves along the derivative of
    its loss at the (virtually trained) weights, the weights along their own
    loss at the new architecture."""
    torch.manual_seed(v.small('seed', 0, 10**6))
    unroll = v.flag('unroll')
    net = Pair(v.flag('batch norm')).double()
    algo = Darts(net, NasMutator(), unroll=unroll).double()
    for p in algo.mutator.parameters():
        p.data.normal_()
    lr, mom, decay = v.choose('sgd', [(.1, 0., 0.), (.2, .9, 0.),
                                      (.1, .9, .01)])
    wopt = torch.optim.SGD(net.parameters(), lr=lr, momentum=mom,
                           weight_decay=decay)
    rate = .5
    aopt = torch.optim.SGD(algo.mutator.parameters(), lr=rate)
    optims = OptimWrapperDict(architecture=OptimWrapper(wopt),
                              mutator=OptimWrapper(aopt))
    algo.train()
    for step in range(3):
        data = [dict(inputs=torch.randn(3, 2, 3, 3, dtype=torch.double),
                     data_samples=torch.randn(3, 2, 3, 3, dtype=torch.double))
                for _ in range(2)]
        twin = copy.deepcopy(algo)
        state = {q: wopt.state[p] for p, q in zip(
            net.parameters(), twin.architecture.parameters())}
        opt = type('O', (), dict(state=state))
        want = reference(twin, data, lr, mom, decay, opt, unroll)
        was = [p.detach().clone() for p in algo.mutator.parameters()]
        w0 = [p.detach().clone() for p in net.parameters()]
        bufs = [wopt.state[p].get('momentum_buffer') for p in
                net.parameters()]
        bufs = [None if b is None else b.clone() for b in bufs]
        algo.train_step(data, optims)
        moves = [(q - p) / rate for p, q in zip(
            algo.mutator.parameters(), was)]
        v.ensure('architecture follows', any(all(torch.allclose(
            x, g, atol=a) for x, g in zip(moves, gs))
            for gs, a in zip(want, (1e-5, 1e-7))), f'{moves} {want}')
        # what the weights should have followed
        for p, q in zip(twin.mutator.parameters(), algo.mutator.parameters()):
            p.data.copy_(q)
        loss = twin.architecture(data[0]['inputs'], data[0]['data_samples'],
                                 'loss')['loss']
        gs = torch.autograd.grad(loss, list(twin.architecture.parameters()))
        for p, q, g, b in zip(net.parameters(), w0, gs, bufs):
            g = g + decay * q
            g = g if b is None or not mom else mom * b + g
            v.ensure('weights follow', torch.allclose(
                p, q - lr * g, atol=1e-9), f'{(q - p) / lr} {g}')


@contract('C18', targets=[DARTS], samples=30, kind='bounded')
def one_optimizer(v):
    """With one optimizer (retraining) it is an ordinary step."""
    torch.manual_seed(v.small('seed', 0, 10**6))
    algo = Darts(Pair(True), NasMutator())
    twin = copy.deepcopy(algo)
    optim = torch.optim.SGD(algo.architecture.parameters(), lr=.1)
    other = torch.optim.SGD(twin.architecture.parameters(), lr=.1)
    for _ in range(3):
        data = dict(inputs=torch.randn(3, 2, 3, 3),
                    data_samples=torch.randn(3, 2, 3, 3))
        algo.train_step(data, OptimWrapper(optim))
        other.zero_grad()
        twin.architecture(**data, mode='loss')['loss'].backward()
        other.step()
        v.ensure('the step', all(torch.allclose(p, q) for p, q in zip(
            algo.architecture.parameters(), twin.architecture.parameters())))
    v.ensure('other data is refused', v.raises(
        algo.train_step, [data] * 3, OptimWrapperDict(
            architecture=OptimWrapper(optim), mutator=OptimWrapper(optim))))


@contract('C18', targets=[DARTS], samples=30, kind='bounded')
def half_precision_norm(v):
    """A wrapped batch norm normalises in single precision and evaluation."""
    torch.manual_seed(v.small('seed', 0, 10**6))
    bn = nn.BatchNorm2d(3)
    bn.running_mean.normal_()
    bn.running_var.uniform_(.5, 2)
    w = BatchNormWrapper(bn)
    x = torch.randn(2, 3, 2, 2)
    dt = v.choose('dtype', [torch.float, torch.half, torch.double])
    y = w(x.to(dt))
    v.ensure('type stays', y.dtype == dt)
    v.ensure('normalises', torch.allclose(y.float(), F.batch_norm(
        x, bn.running_mean, bn.running_var, bn.weight, bn.bias), atol=1e-2))


class Cell(BaseModel):
    """Mixed operations and mixed inputs, some sharing their choice."""

    def __init__(self, n, edges, chosen, mixed, gumbel, shared):
        super().__init__()
        ops = {f'k{i}': dict(type='Conv2d', kernel_size=1 + 2 * i, padding=i)
               for i in range(n)}
        self.ops = nn.ModuleList([DiffMutableOP(
            candidates=copy.deepcopy(ops), alias='op' if shared else None,
            module_kwargs=dict(in_channels=2, out_channels=2))
            for _ in range(2)])
        kw = dict(tau=2., hard=False) if gumbel else dict(num_chosen=chosen)
        self.route = (GumbelChoiceRoute if gumbel else DiffChoiceRoute)(
            nn.ModuleDict({f'e{i}': nn.Conv2d(2, 2, 1) for i in range(
                edges)}), with_arch_param=mixed, **kw)

    def forward(self, xs):
        return self.ops[1](self.ops[0](self.route(xs)))


@contract('C18', targets=['mmrazor/models/mutables/mutable_module/'
                          'diff_mutable_module.py',
                          'mmrazor/models/mutators/nas_mutator.py'],
          samples=80, kind='bounded')
def mixture(v):
    """A differentiable choice is the mixture of its candidates by the
    softmax of its parameters, which mutables of one group share; what is
    chosen in the end are the candidates of the largest parameters."""
    torch.manual_seed(v.small('seed', 0, 10**6))
    n, edges = v.small('ops', 1, 4), v.small('edges', 1, 4)
    chosen = v.small('chosen', 1, edges)
    mixed, gumbel = v.flag('mixed'), v.flag('gumbel')
    shared = v.flag('shared')
    chosen = min(2, edges) if gumbel else chosen
    net = Cell(n, edges, chosen, mixed, gumbel, shared).double()
    xs = [torch.randn(1, 2, 4, 4).double() for _ in range(edges)]
    y = sum(e(x) for e, x in zip(net.route._candidates.values(), xs))
    for m in net.ops:
        y = sum(op(y) for op in m._candidates.values())
    v.ensure('all of them without parameters', torch.allclose(net(xs), y))
    mut = NasMutator()
    mut.prepare_from_supernet(net)
    mut.prepare_arch_params()
    mut.double()
    groups = {id(m): name for name, ms in mut.search_groups.items()
              for m in ms}
    v.ensure('a group shares its parameters', (
        groups[id(net.ops[0])] == groups[id(net.ops[1])]) == shared and len(
            mut.arch_params) == 3 - shared)
    par = [mut.arch_params[groups[id(m)]] for m in (
        net.route, *net.ops)]
    v.ensure('a number for each candidate', [p.numel() for p in par] == [
        edges, n, n])
    for _ in range(2):
        for p in par:
            p.data.normal_(0, 2)
        state = torch.get_rng_state()
        got = net(xs)
        torch.set_rng_state(state)
        qs = {id(p): p.detach().clone().requires_grad_() for p in par}
        q = [qs[id(p)] for p in par]
        w = (F.gumbel_softmax(q[0], 2., dim=-1) if gumbel else torch.softmax(
            q[0], -1)) if mixed else torch.ones(edges)
        y = sum(a * e(x) for a, e, x in zip(
            w, net.route._candidates.values(), xs))
        for m, p in zip(net.ops, q[1:]):
            y = sum(a * op(y) for a, op in zip(
                torch.softmax(p, -1), m._candidates.values()))
        v.ensure('the mixture', torch.allclose(got, y))
        used = list(qs.values()) if mixed else list(qs.values())[1:]
        mine = {id(p): p for p in par if p is not par[0] or mixed}
        for a, b in zip(torch.autograd.grad(got.sum(), list(mine.values())),
                        torch.autograd.grad(y.sum(), used)):
            v.ensure('and its derivative', torch.allclose(a, b))
    picks = mut.sample_choices()
    for m, p in zip((net.route, *net.ops), par):
        c = picks[groups[id(m)]]
        k = chosen if m is net.route else 1
        best = set(torch.topk(p, k)[1].tolist())
        got = {m.choices.index(x) for x in ([c] if isinstance(c, str) else c)}
        v.ensure('the largest parameters', got == best)
    v.ensure('and no others are largest or smallest', picks ==
             mut.max_choices == mut.min_choices == mut.sample_choices('max'))
    mut.set_choices(picks)
    keep = [[m._candidates[x] for x in m.choices if x in (
        [m.current_choice] if isinstance(m.current_choice, str)
        else m.current_choice)] for m in net.ops]
    es = [(e, x) for (k, e), x in zip(net.route._candidates.items(), xs)
          if k in net.route.current_choice]
    fix, _ = export_fix_subnet(net)
    load_fix_subnet(net, fix)
    y = sum(e(x) for e, x in es)
    for m in keep:
        y = sum(op(y) for op in m)
    v.ensure('fixed: only the chosen', torch.allclose(net(xs), y))
    v.ensure('other numbers of inputs are refused', v.raises(
        Cell(n, edges, chosen, mixed, gumbel, shared).route, xs[1:]))


@contract('C18', targets=['mmrazor/models/mutables/mutable_module/'
                          'diff_mutable_module.py'],
          samples=60, kind='bounded')
def one_at_a_time(v):
    """A one-hot choice runs one candidate, drawn by its probability, and
    passes a gradient to its weight; once a candidate leads by the threshold
    it is the only one."""
    torch.manual_seed(v.small('seed', 0, 10**6))
    n = v.small('ops', 2, 4)
    threshold = v.choose('threshold', [.0, .3, .7, .95, 1.])
    op = OneHotMutableOP(
        candidates={f'k{i}': dict(type='Conv2d', kernel_size=1)
                    for i in range(n)}, fix_threshold=threshold,
        module_kwargs=dict(in_channels=2, out_channels=2)).double()
    ops = dict(op._candidates.items())
    p = nn.Parameter(torch.tensor([v.float('p', -9, 9) for _ in range(n)]))
    if v.flag('far'):
        p.data[v.small('leader', 0, n - 1)] += 50
    probs = torch.softmax(p, -1).detach()
    top = probs.sort(descending=True)[0]
    v.assume(abs(top[0] - top[1] - threshold) > 1e-6 or threshold == 1.)
    fixed = bool(top[0] - top[1] >= threshold)
    for _ in range(3):
        x = torch.randn(1, 2, 3, 3).double()
        y = op(x, arch_param=p)
        if fixed:
            v.ensure('the leader only', op.is_fixed and list(
                op._candidates) == [f'k{int(probs.argmax())}'])
            v.ensure('its output', torch.equal(y, ops[
                f'k{int(probs.argmax())}'](x)))
            continue
        w = op.arch_weights
        v.ensure('stays open', not op.is_fixed and list(
            op._candidates) == list(ops))
        v.ensure('one of them', sorted(w.tolist()) == [0.] * (n - 1) + [1.])
        k = int(w.argmax())
        v.ensure('a likely one', probs[k] > 1e-12)
        out = ops[f'k{k}'](x)
        v.ensure('its output', torch.allclose(y, out))
        g, = torch.autograd.grad(y.sum(), w)
        v.ensure('what its weight is worth', torch.allclose(
            g.double()[k], out.sum(), rtol=1e-4) and not g[
                torch.arange(n) != k].any())
    if not fixed:
        m = OneHotMutableOP.sample_weights
        for rand in (False, True):
            ws = sum(m(op, p, probs, rand) for _ in range(400)) / 400
            q = torch.full((n, ), 1 / n) if rand else probs
            v.ensure('as often as it is likely', bool(
                ((ws - q).abs() < .2).all()), f'{ws} {q}')


@contract('C18', targets=[DARTS], samples=30, kind='bounded')
def distributed_norms(v):
    """Wrapped for distributed training, every 2d batch norm, however deep,
    normalises in single precision and nothing else is replaced."""
    norms = [nn.BatchNorm2d(2), nn.BatchNorm2d(2)]
    other = [nn.Conv2d(2, 2, 1), nn.ReLU(), nn.BatchNorm1d(2),
             nn.GroupNorm(1, 2)]
    parts = norms + other
    order = sorted(range(len(parts)), key=lambda i: (v.small('at', 0, 9), i))
    net = nn.Module()
    names = {}
    for i in order:
        at, name = net, ''
        for k in range(v.small('depth', 0, 2)):
            if not hasattr(at, f'l{k}'):
                at.add_module(f'l{k}', nn.Module())
            at, name = getattr(at, f'l{k}'), name + f'l{k}.'
        at.add_module(f'm{i}', parts[i])
        names[name + f'm{i}'] = parts[i]
    given = v.choose('devices', [None, [3]])
    env = v.choose('rank', [None, '2'])
    seen = []
    base = DartsDDP.__mro__[1]

    def init(self, module=None, device_ids=None, **kw):
        nn.Module.__init__(self)
        self.module = module
        seen.append(device_ids)
    real, base.__init__ = base.__init__, init
    was = os.environ.pop('LOCAL_RANK', None)
    try:
        if env is not None:
            os.environ['LOCAL_RANK'] = env
        ddp = DartsDDP(module=net, device_ids=given)
    finally:
        base.__init__ = real
        os.environ.pop('LOCAL_RANK', None)
        if was is not None:
            os.environ['LOCAL_RANK'] = was
    v.ensure('devices', seen == [given or (env and [int(env)])])
    for name, m in names.items():
        now = ddp.module.get_submodule(name)
        v.ensure('norms in single precision', (
            isinstance(now, BatchNormWrapper) and now.m is m)
            if m in norms else now is m)
