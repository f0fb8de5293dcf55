bug('c09-parent', 'C09', 'mmrazor/engine/runner/evolution_search_loop.py',
    """        candidate1 = random.choice(self.top_k_candidates.subnets)
        candidate2 = self.model.mutator.sample_choices()
""",
    """        candidate1 = random.choice(self.candidates.subnets)
        candidate2 = self.model.mutator.sample_choices()
""",
    'a pool with more subnets than are kept',
    'a subnet which is not kept is mutated', '''
import random
from mmrazor.engine import EvolutionSearchLoop
from mmrazor.structures import Candidates


class Model:
    class mutator:
        @staticmethod
        def sample_choices():
            return {'x': -1, 'y': -1}


loop = object.__new__(EvolutionSearchLoop)
loop.model, loop.mutate_prob = Model, 0.
loop.candidates = Candidates([{'x': i, 'y': i} for i in range(20)])
loop.top_k_candidates = Candidates([{'x': i, 'y': i} for i in range(2)])
for s in range(60):
    random.seed(s)
    c = loop._mutation()
    assert c['x'] in (0, 1), c
''')
bug('c09-keep', 'C09', 'mmrazor/engine/runner/evolution_search_loop.py',
    """        self.candidates.extend(self.top_k_candidates)
        self.candidates.sort_by(key_indicator='score', reverse=True)
""",
    """        if len(self.candidates) < self.num_candidates + self.top_k:
            self.candidates.extend(self.top_k_candidates)
            self.candidates.data = self.candidates.data[-self.num_candidates:]
        self.candidates.sort_by(key_indicator='score', reverse=True)
""",
    'a second round whose best subnet is among the first of the pool',
    'the best subnets of a round are forgotten', '''
from mmrazor.engine import EvolutionSearchLoop
from mmrazor.structures import Candidates


class Log:
    def info(self, *args):
        pass


class Runner:
    logger = Log()


loop = object.__new__(EvolutionSearchLoop)
loop._runner, loop._epoch = Runner, 0
loop.top_k, loop.num_candidates = 2, 4
loop.top_k_candidates = Candidates()
best = []
pools = [[5, 9, 3, 1], [8, 2, 10, 4], [11, 1, 12, 2]]


def sample():
    loop.candidates = Candidates([{'x': s} for s in pools[loop._epoch]])


def score():
    for i, c in enumerate(loop.candidates.subnets):
        loop.candidates.set_resource(i, c['x'], 'score')
        best.append(c['x'])


loop.sample_candidates, loop.update_candidates_scores = sample, score
loop.gen_mutation_candidates = loop.gen_crossover_candidates = \\
    lambda: Candidates()
for _ in pools:
    loop.run_epoch()
    assert loop.top_k_candidates.scores == sorted(best)[:-3:-1], (
        loop.top_k_candidates.scores, best)
''')
bug('c10-linear', 'C10', 'mmrazor/engine/runner/subnet_sampler_loop.py',
    """                tmp = self.max_prob - self.init_prob
                self.cur_prob = tmp / schedule_all_steps * \\
                    schedule_cur_steps + self.init_prob
""",
    """                rate = self.max_prob / schedule_all_steps
                self.cur_prob = max(self.init_prob,
                                    rate * schedule_cur_steps)
""",
    'an initial probability above zero',
    'the probability does not follow its line', '''
from mmrazor.engine import GreedySamplerTrainLoop
loop = object.__new__(GreedySamplerTrainLoop)
loop.prob_schedule = 'linear'
for p0, p1 in ((0., 0.8), (0.1, 0.9), (0.5, 1.)):
    loop.init_prob, loop.max_prob = p0, p1
    loop.schedule_start_iter, loop.schedule_end_iter = 10, 110
    for i in range(10, 111, 10):
        loop.update_cur_prob(i)
        want = p0 + (p1 - p0) * (i - 10) / 100
        assert abs(loop.cur_prob - want) < 1e-9, (i, loop.cur_prob, want)
''')
bug('c10-pool', 'C10', 'mmrazor/engine/runner/subnet_sampler_loop.py',
    """            self.candidates.sort_by(key_indicator='score', reverse=True)
            self.candidates = Candidates(
                self.candidates.data[:self.num_candidates])
            self.top_k_candidates""",
    """            self.candidates = Candidates(
                self.candidates.data[:self.num_candidates])
            self.candidates.sort_by(key_indicator='score', reverse=True)
            self.top_k_candidates""",
    'a pool that is full before new subnets are sampled',
    'new subnets never enter the full pool, however good', '''
from mmrazor.engine import GreedySamplerTrainLoop
from mmrazor.structures import Candidates


class Log:
    def info(self, *args):
        pass


class Runner:
    logger = Log()


loop = object.__new__(GreedySamplerTrainLoop)
loop._runner, loop._iter, loop.val_interval = Runner, 0, 1
loop.num_candidates, loop.top_k, loop.num_samples = 3, 1, 2
loop.candidates, loop.top_k_candidates = Candidates(), Candidates()
loop._next_top_k, loop.cur_prob = 0, 0.
loop.update_cur_prob = lambda cur_iter: None
values = iter(range(100))
loop.get_candidates_with_sample = lambda num_samples: (
    Candidates([{'x': next(values)} for _ in range(num_samples)]),
    num_samples)


def score():
    for i, c in enumerate(loop.candidates.subnets):
        loop.candidates.set_resource(i, float(c['x']), 'score')


loop.update_candidates_scores = score
for i in range(5):
    subnet = loop.sample_subnet()
    assert subnet == {'x': 2 * i + 1}, (i, subnet)
''')
bug('c11-zero', 'C11', 'mmrazor/engine/runner/autoslim_greedy_search_loop.py',
    'if best_score is None or score > best_score:',
    'if not best_score or score > best_score:',
    'a score of exactly zero followed by a negative one',
    'a worse step is taken', '''
import itertools
from mmrazor.engine.runner import autoslim_greedy_search_loop as mod


class Runner:
    rank = 0

    class logger:
        info = staticmethod(lambda *a: None)
    call_hook = staticmethod(lambda *a: None)


class Model:
    class mutator:
        @staticmethod
        def set_choices(c):
            Model.now = dict(c)


for scores in itertools.permutations([-1., 0., 1., -2.], 3):
    loop = object.__new__(mod.AutoSlimGreedySearchLoop)
    loop._runner, loop.model = Runner, Model
    loop.resume_from, loop.score_key, loop.estimator = None, 'acc', None
    loop.candidate_choices = {k: [1, 2] for k in 'abc'}
    loop.current_subnet = {k: 2 for k in 'abc'}
    loop.current_flops = 6
    loop.target_flops = [5]
    loop.searched_subnet, loop.searched_subnet_flops = [], []
    loop._val_subnet = lambda: {'acc': scores[
        'abc'.index([k for k in 'abc' if Model.now[k] == 1][0])]}
    loop._save_searcher_ckpt = loop._save_searched_subnet = lambda: None
    mod.check_subnet_resources = lambda model, choices, est: (
        True, dict(flops=sum(choices.values())))
    loop.run()
    got = [k for k in 'abc' if loop.searched_subnet[0][k] == 1]
    assert got == ['abc'[scores.index(max(scores))]], (scores, got)
''')
bug('c13-twice', 'C13',
    'mmrazor/models/task_modules/estimators/counters/op_counters/conv_layer_counter.py',
    """        module.__flops__ += overall_flops
        module.__params__ = int(overall_params)


@TASK_UTILS.register_module()
class Conv1dCounter""",
    """        module.__flops__ = int(overall_flops)
        module.__params__ = int(overall_params)


@TASK_UTILS.register_module()
class Conv1dCounter""",
    'a convolution that a network calls more than once',
    'only the last call is counted', '''
import torch.nn as nn
from mmrazor.models.task_modules import ResourceEstimator


class Net(nn.Module):
    def __init__(self, n):
        super().__init__()
        self.n, self.conv = n, nn.Conv2d(3, 3, 3, padding=1)

    def forward(self, x):
        for _ in range(self.n):
            x = self.conv(x)
        return x


est = ResourceEstimator()
one, three = (est.estimate(Net(n), dict(
    input_shape=(1, 3, 20, 20), units=None,
    as_strings=False))['flops'] for n in (1, 3))
assert abs(three - 3 * one) < 1e-6 * three, (one, three)
''')
bug('c15-first', 'C15', 'mmrazor/models/distillers/configurable_distiller.py',
    'if connector_idx is not None:', 'if connector_idx:',
    'the first of several outputs of a connector',
    'the loss gets all outputs instead of the first one', '''
import torch.nn as nn
from mmrazor.models.distillers import ConfigurableDistiller


class Split(nn.Module):
    def forward(self, x):
        return [x + i for i in range(3)]


class Recorder:
    def get_record_data(self, record_idx, data_idx):
        return 10


class Manager:
    def get_recorder(self, name):
        return Recorder()


d = ConfigurableDistiller()
d.student_recorders = d.teacher_recorders = Manager()
d.connectors['split'] = Split()
for i in range(3):
    got = d.get_record('r', True, connector='split', connector_idx=i)
    assert got == 10 + i, (i, got)
''')
bug('c16-draw', 'C16', [
    ('mmrazor/models/algorithms/nas/bignas.py',
     """        for kind in self.sample_kinds:
""", """        random_choices = self.mutator.sample_choices()
        for kind in self.sample_kinds:
"""),
    ('mmrazor/models/algorithms/nas/bignas.py',
     """                self.mutator.set_choices(self.mutator.sample_choices())
""", """                self.mutator.set_choices(random_choices)
""")], '', '',
    'more than one random subnet per step',
    'all random subnets of a step are the same one', '''
import contextlib
import torch
from mmrazor.models.algorithms.nas.bignas import BigNAS


class Mutator:
    n = 0
    now = None
    seen = []

    def set_max_choices(self):
        self.now = 'max'

    def set_min_choices(self):
        self.now = 'min'

    def set_choices(self, c):
        self.now = c

    def sample_choices(self):
        self.n += 1
        return self.n


class Distiller:
    student_recorders = teacher_recorders = contextlib.nullcontext()

    def compute_distill_losses(self):
        return dict(loss_soft=torch.tensor(1.))


class Backbone:
    layers = []


class Arch:
    backbone = Backbone()


class Wrapper:
    def optim_context(self, model):
        return contextlib.nullcontext()

    def update_params(self, loss):
        pass


class Algo(BigNAS):
    def __init__(self):
        torch.nn.Module.__init__(self)
        self._optim_wrapper_count_status_reinitialized = True
        self.sample_kinds = ['max', 'min', 'random0', 'random1', 'random2']
        self.__dict__.update(mutator=Mutator(), distiller=Distiller(),
                             architecture=Arch(), drop_path_rate=0.,
                             backbone_dropout_stages=[])

    def data_preprocessor(self, data, training):
        return dict(inputs=data, data_samples=[])

    def forward(self, inputs, data_samples=None, mode='tensor'):
        self.mutator.seen.append(self.mutator.now)
        return dict(loss=torch.tensor(1.))


algo = Algo()
for i in range(2):
    algo.mutator.seen.clear()
    algo.train_step(torch.zeros(1), Wrapper())
    seen = algo.mutator.seen
    assert seen[:2] == ['max', 'min'] and len(set(seen)) == 5, seen
''')
bug('c17-mask', 'C17',
    'mmrazor/models/architectures/dynamic_ops/mixins/dynamic_conv_mixins.py',
    """        elif self.groups == self.in_channels == self.out_channels:
            # depth-wise conv
            weight = weight[out_mask]
        else:""",
    """        elif self.groups == self.in_channels == self.out_channels:
            # depth-wise conv
            weight = weight[:int(out_mask.sum())]
        else:""",
    'a depthwise convolution whose chosen channels are not the first ones',
    'the filters of other channels are used', '''
import torch
from mmrazor.models.architectures.dynamic_ops import DynamicConv2d
from mmrazor.models.mutables import MutableChannelContainer, SimpleMutableChannel
torch.manual_seed(0)
op = DynamicConv2d(6, 6, 3, groups=6)
m = SimpleMutableChannel(6)
for a in ('in_channels', 'out_channels'):
    op.register_mutable_attr(a, MutableChannelContainer(6))
    op.get_mutable_attr(a).register_mutable(m, 0, 6)
for mask in ([1] * 6, [1, 1, 0, 0, 0, 0], [0, 1, 0, 1, 1, 0]):
    mask = torch.tensor(mask).bool()
    m.current_choice = mask
    x = torch.rand(2, 6, 5, 5)
    want = torch.nn.functional.conv2d(x, op.weight, op.bias, groups=6)
    assert torch.allclose(op(x[:, mask]), want[:, mask], atol=1e-5), mask
''')
bug('c17-momentum', 'C17',
    'mmrazor/models/architectures/dynamic_ops/bricks/dynamic_norm.py',
    r'''        """Forward of dynamic BatchNormxd OP."""
        self._check_input_dim(input)

        if self.momentum is None:
            exponential_average_factor = 0.0
        else:
            exponential_average_factor = self.momentum

        if self.training and self.track_running_stats:
            if self.num_batches_tracked is not None:  # type: ignore
                self.num_batches_tracked = \
                    self.num_batches_tracked + 1  # type: ignore
                if self.momentum is None:  # use cumulative moving average
''',
    r'''        """Forward of dynamic BatchNormxd OP."""
        self._check_input_dim(input)

        if self.momentum is None:
            exponential_average_factor = 0.0
        else:
            exponential_average_factor = self.momentum

        if self.training and self.track_running_stats:
            if self.num_batches_tracked is not None:  # type: ignore
                self.num_batches_tracked = \
                    self.num_batches_tracked + 1  # type: ignore
                if not self.momentum:  # use cumulative moving average
''',
    'a batch norm with momentum 0 (statistics that stay) in training',
    'the statistics move as with momentum None', '''
import torch
import torch.nn as nn
from mmrazor.models.architectures.dynamic_ops import DynamicBatchNorm2d

for momentum in (None, 0.0, 0.1):
    torch.manual_seed(0)
    a = nn.BatchNorm2d(3, momentum=momentum)
    b = DynamicBatchNorm2d(3, momentum=momentum)
    for i in range(3):
        x = torch.rand(2, 3, 4, 4)
        assert torch.equal(a(x), b(x))
        assert torch.allclose(a.running_mean, b.running_mean), momentum
        assert torch.allclose(a.running_var, b.running_var), momentum
''')
