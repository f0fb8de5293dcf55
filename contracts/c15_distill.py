"""C15: what is recorded and delivered for distillation is what happened."""
import copy

import torch
import torch.nn as nn
from mmengine.model import BaseModel
from mmengine.optim import OptimWrapper

from contracts import distill_targets as T
from mmrazor.engine.hooks import StopDistillHook
from mmrazor.models.algorithms import (DAFLDataFreeDistillation,
                                       DataFreeDistillation, SelfDistill)
from mmrazor.models.distillers import ConfigurableDistiller
from mmrazor.models.task_modules import (DistillDeliveryManager,
                                         RecorderManager)
from mmrazor.registry import MODELS, TASK_UTILS
from pyvc.harness import contract

R = 'mmrazor/models/task_modules/recorder/'
Y = 'mmrazor/models/task_modules/delivery/'
RECORDERS = [R + f for f in (
    'base_recorder.py', 'function_outputs_recorder.py',
    'function_inputs_recorder.py', 'method_outputs_recorder.py',
    'method_inputs_recorder.py', 'module_outputs_recorder.py',
    'module_inputs_recorder.py', 'recorder_manager.py')]
DELIVERIES = [Y + f for f in (
    'distill_delivery.py', 'function_outputs_delivery.py',
    'method_outputs_delivery.py', 'delivery_manager.py')]
DISTILLER = 'mmrazor/models/distillers/configurable_distiller.py'


class Net(nn.Module):
    """Modules whose calls are recorded; modules may be called again."""

    def __init__(self):
        super().__init__()
        self.a = Back()
        self.b = nn.Sequential(Back())


class Back(nn.Module):

    def forward(self, x):
        return ('out', x)


def kind_of(src):
    return ('Function' if src in ('func', 'other') else
            'Method' if src in ('method', 'second') else 'Module')


def do_call(v, net, src, x, style):
    """One call of a source -> (what goes in, what comes out)."""
    if src in ('a', 'b.0'):
        out = (net.a if src == 'a' else net.b[0])(x)
        return (x, ), out
    f = T.now(src)
    if src == 'func':
        out = f(x) if style == 0 else f(x, 1) if style == 1 else f(x=x, y=1)
        return [x] if style == 0 else [x, 1], out
    if src == 'method':
        t = T.Thing()
        out = (t.method(x) if style == 0 else t.method(x, 1)
               if style == 1 else t.method(x=x, y=1))
        return [x] if style == 0 else [x, 1], out
    if src == 'other':
        return [x], f(x)
    return [x], T.Thing().second(x)


def config(src, io):
    return dict(type=kind_of(src) + io,
                source=T.PATH.get(src, src))


SOURCES = ['func', 'method', 'a', 'b.0', 'other', 'second']


def all_restored(v):
    for k in T.ORIGINAL:
        v.ensure('original restored', T.now(k) is T.ORIGINAL[k], k)


@contract('C15', targets=RECORDERS, samples=200, slow=True,
          opts=dict(max_paths=15000), bound='two recorders, a '
          'session of up to two and one of up to one call; all values')
def recording(v):
    """Every call during a session is recorded once, in order, by every
    recorder of it; nothing else is; leaving restores everything."""
    T.restore()
    net = Net()
    recs = {}
    for i in range(2):
        src = v.choose(f'source{i}', SOURCES[:3])
        recs[f'r{i}'] = (src, v.choose(f'io{i}', ['Inputs', 'Outputs']))
    man = RecorderManager({k: config(*x) for k, x in recs.items()})
    man.initialize(net)
    n = 0
    last = None
    for s in range(2):
        want = {k: [] for k in recs}
        fails = s == 0 and v.flag('fails')
        try:
            with man:
                for i in range(v.small(f'calls{s}', 0, 2 - s)):
                    src = v.choose(f's{s}c{i}', ['r0', 'r1'])
                    src = recs[src][0]
                    x = v.int('x', 0, 100)
                    n += 1
                    got, out = do_call(v, net, src, x,
                                       v.choose(f's{s}style{i}', [0, 2])
                                       if s == 0 and src != 'a' else 1)
                    for k, (rs, io) in recs.items():
                        if rs == src:
                            want[k].append(got if io == 'Inputs' else out)
                if fails:
                    raise ValueError('inside')
        except ValueError:
            v.ensure('only the own error', fails)
        all_restored(v)
        if s == 1 or v.flag('outside'):
            for k, (src, _) in recs.items():
                do_call(v, net, src, 3, 0)
        for k in recs:
            buf = man.get_recorder(k).data_buffer
            v.ensure('as many records as calls', len(buf) == len(want[k]))
            for i, w in enumerate(want[k]):
                r = man.get_recorder(k).get_record_data(i)
                v.ensure('the record of the call', r == w)
                v.ensure('an item of the record',
                         man.get_recorder(k).get_record_data(
                             i, len(w) - 1) == w[-1])
            v.ensure('no further record', v.raises(
                man.get_recorder(k).get_record_data, len(want[k])))
    T.restore()


@contract('C15', targets=RECORDERS, samples=100)
def inside_another(v):
    """A session inside another one, or around something that replaced the
    original later, gives back what it found."""
    T.restore()
    src = v.choose('source', SOURCES)
    io = v.choose('io', ['Inputs', 'Outputs'])
    net = Net()
    outer, inner = (RecorderManager({'r': config(src, x)})
                    for x in (v.choose('outer', ['Inputs', 'Outputs']), io))
    early = v.flag('initialized before')
    for m in (outer, inner):
        if early or m is outer:
            m.initialize(net)
    do_call(v, net, src, 4, 0)
    x, y, z = (v.int(n, 0, 100) for n in 'xyz')
    with outer:
        if not early:
            inner.initialize(net)
        do_call(v, net, src, x, 0)
        found = T.now(src) if src in T.ORIGINAL else None
        with inner:
            got, out = do_call(v, net, src, y, 0)
        if src in T.ORIGINAL:
            v.ensure('gives back what it found', T.now(src) is found)
        do_call(v, net, src, z, 0)
    all_restored(v)
    v.ensure('the outer session goes on',
             len(outer.get_recorder('r').data_buffer) == 3)
    r = inner.get_recorder('r')
    v.ensure('the inner one ends', len(r.data_buffer) == 1)
    v.ensure('with its call', r.get_record_data() == (
        got if io == 'Inputs' else out))
    T.restore()


@contract('C15', targets=DELIVERIES, samples=200, bound='queues of up to '
          'four outputs; all values')
def delivery_step(v):
    """Teacher calls queue their output, student calls take the oldest one
    instead of running; a full or empty queue is refused."""
    T.restore()
    kind = v.choose('source', ['func', 'method'])
    size = v.small('max_keep_data', 1, 4)
    k = v.small('queued', 0, 4)
    v.assume(k <= size)
    key = 'func_path' if kind == 'func' else 'method_path'
    d = TASK_UTILS.build({
        'type': kind_of(kind) + 'OutputsDelivery', key: T.PATH[kind],
        'max_keep_data': size})
    queued = [('earlier', v.int(f'q{i}', 0, 9)) for i in range(k)]
    for q in queued:
        d.data_queue.append(q)
    student = v.flag('student')
    d.override_data = student
    x = v.int('x', 0, 100)
    with d:
        T.CALLS.clear()
        try:
            got, out = do_call(v, None, kind, x, v.choose('style', [0, 1, 2]))
            refused = False
        except AssertionError:
            refused = True
    all_restored(v)
    left = list(d.data_queue)
    if student:
        v.ensure('does not run', not T.CALLS)
        v.ensure('refused exactly when empty', refused == (k == 0))
        if k:
            v.ensure('the oldest output', out is queued[0])
            v.ensure('the others stay', left == queued[1:])
    else:
        v.ensure('refused exactly when full', refused == (k == size))
        if refused:
            v.ensure('does not run', not T.CALLS)
            v.ensure('queue kept', left == queued)
        else:
            v.ensure('runs once', len(T.CALLS) == 1)
            v.ensure('own output', out[1] == x and out[0] == kind)
            v.ensure('queued last', left == queued + [out])
    T.restore()


@contract('C15', targets=DELIVERIES + RECORDERS, samples=200,
          bound='two deliveries, up to three calls of each; all values')
def delivered(v):
    """The i-th call of the student gets what the i-th call of the teacher
    returned, for every delivery, also when the calls are recorded."""
    T.restore()
    srcs = v.choose('sources', [('func', 'method'), ('method', 'second'),
                                ('func', 'other')])
    n = [v.small(f'n{i}', 0, 2) for i in range(2)]
    cfg = {}
    for s in srcs:
        key = 'func_path' if kind_of(s) == 'Function' else 'method_path'
        cfg[s] = {'type': kind_of(s) + 'Outputs', key: T.PATH[s],
                  'max_keep_data': 2}
    man = DistillDeliveryManager(cfg)
    rec = RecorderManager({s: config(s, 'Outputs') for s in srcs})
    rec.initialize(Net())
    first = v.flag('recorders first')
    for epoch in range(2):
        outs = {s: [] for s in srcs}
        for role in (False, True):
            man.override_data = role
            v.ensure('set for all', all(
                d.override_data is role for d in man.deliveries.values()))
            got = {s: [] for s in srcs}
            T.CALLS.clear()
            with (rec if first else man):
                with (man if first else rec):
                    for s, k in zip(srcs, n):
                        for i in range(k):
                            x = v.int('x', 0, 100)
                            got[s].append(do_call(v, None, s, x, 0)[1])
            all_restored(v)
            if not role:
                outs = got
            for s in srcs:
                v.ensure('as many', len(got[s]) == len(outs[s]))
                v.ensure('in order', all(
                    a is b for a, b in zip(got[s], outs[s])))
                buf = rec.get_recorder(s).data_buffer
                # a recorder inside of the delivery sees the original calls
                if not (role and first):
                    v.ensure('recorded', buf == got[s])
            v.ensure('the original runs for the teacher only',
                     len(T.CALLS) == (0 if role else sum(n)))
    T.restore()


# ---------------------------------------------------------------- losses

class Stub(nn.Module):
    """A loss that reports what it is given."""

    def forward(self, s, t, extra=None):
        return ('loss', s, t, extra)


class Tag(nn.Module):

    def __init__(self, tag):
        super().__init__()
        self.tag = tag

    def forward(self, x):
        return [(self.tag, x), ('second', x)]


for _c in (Stub, Tag):
    MODELS.register_module(module=_c, name='VC' + _c.__name__, force=True)


@contract('C15', targets=[DISTILLER, R + 'base_recorder.py'], samples=200,
          opts=dict(max_paths=5000))
def losses(v):
    """Every loss gets exactly the records its mapping names."""
    T.restore()
    maps, want = {}, {}
    data = {}
    for side in ('student', 'teacher'):
        for r in ('feat', 'logit'):
            data[side, r] = [[v.int(f'{side}.{r}.{i}{j}', 0, 9)
                              for j in range(2)] for i in range(2)]
    for n in ('loss_a', 'loss_b'):
        maps[n], args = {}, {}
        for k in ('s', 't'):
            m = dict(recorder='feat' if k == 's' else 'logit',
                     from_student=k == 's')
            if n == 'loss_a':
                m = dict(recorder=v.choose(f'{k}', ['feat', 'logit']),
                         from_student=v.flag(f'{k}.student'))
            val = data['student' if m['from_student'] else 'teacher',
                       m['recorder']]
            i = 0
            if n == 'loss_a':
                i = v.choose(f'{n}.{k}.record', [None, 0, 1])
                if i is not None:
                    m['record_idx'] = i
                i = i or 0
            val = val[i]
            if n == 'loss_a' and k == 's':
                j = v.choose(f'{n}.{k}.data', [None, 0, 1])
                if j is not None:
                    m['data_idx'] = j
                    val = val[j]
            if k == 't':
                c = 'two' if n == 'loss_b' else v.choose(
                    f'{k}.connector', [None, 'one', 'two'])
                if c:
                    m['connector'] = c
                    val = [(c, val), ('second', val)]
                    ci = None if n == 'loss_b' else v.choose(
                        f'{k}.ci', [None, 0, 1])
                    if ci is not None:
                        m['connector_idx'] = ci
                        val = val[ci]
            maps[n][k] = m
            args[k] = val
        want[n] = ('loss', args['s'], args['t'], None)
    recs = dict(feat=config('func', 'Outputs'), logit=config('other',
                                                             'Outputs'))
    d = ConfigurableDistiller(
        student_recorders=recs, teacher_recorders=recs,
        connectors=dict(one=dict(type='VCTag', tag='one'),
                        two=dict(type='VCTag', tag='two')),
        distill_losses=dict(loss_a=dict(type='VCStub'),
                            loss_b=dict(type='VCStub'),
                            loss_unused=dict(type='VCStub')),
        loss_forward_mappings=maps)
    d.prepare_from_student(Net())
    d.prepare_from_teacher(Net())
    for side, man in (('student', d.student_recorders),
                      ('teacher', d.teacher_recorders)):
        for r in ('feat', 'logit'):
            man.get_recorder(r).data_buffer.extend(data[side, r])
    got = d.compute_distill_losses()
    v.ensure('one result for each mapping', set(got) == set(want))
    for n in want:
        v.ensure('what the mapping names', got[n] == want[n])


# ------------------------------------------------------------- algorithms

class Model(BaseModel):
    """Teacher or student: notes how it is run, calls the recorded function
    with its own name."""

    def __init__(self, name, calls=1):
        super().__init__()
        self.name, self.calls = name, calls
        self.weight = nn.Parameter(torch.ones(1))
        self.norm = nn.BatchNorm1d(1)
        self.log = []

    def forward(self, inputs, data_samples=None, mode='tensor'):
        self.log.append(dict(inputs=inputs, samples=data_samples, mode=mode,
                             grad=torch.is_grad_enabled()))
        # (looked up when called, as the methods of a model are)
        self.seen = [T.func((self.name, i)) for i in range(self.calls)]
        self.own = [T.other(self.name)]
        return dict(loss=(self.name, 'loss'))

    def extract_feat(self, inputs):
        self.forward(inputs, None, 'feat')
        return inputs


def distiller(calls):
    recs = dict(feat=config('func', 'Outputs'),
                own=config('other', 'Outputs'))
    return dict(
        type='ConfigurableDistiller', student_recorders=recs,
        teacher_recorders=recs,
        distill_deliveries=dict(d=dict(
            type='FunctionOutputs', func_path=T.PATH['func'],
            max_keep_data=calls)),
        distill_losses=dict(loss_x=dict(type='VCStub')),
        loss_forward_mappings=dict(loss_x=dict(
            s=dict(recorder='own', from_student=True),
            t=dict(recorder='own', from_student=False))))


ALGO = ['mmrazor/models/algorithms/distill/configurable/'
        f'{k}_distill.py' for k in ('single_teacher', 'fpn_teacher')]


@contract('C15', targets=ALGO + [DISTILLER], samples=200)
def teacher_student(v):
    """One step: teacher first, on the same batch, its outputs delivered to
    the student; exactly the configured losses; gradients as configured."""
    T.restore()
    calls = v.small('calls', 1, 2)
    fpn = v.flag('fpn')
    flags = dict(teacher_trainable=v.flag('teacher_trainable'),
                 teacher_norm_eval=v.flag('teacher_norm_eval'),
                 student_trainable=fpn or v.flag('student_trainable'),
                 calculate_student_loss=fpn or v.flag('student_loss'))
    teacher, student = Model('teacher', calls), Model('student', calls)
    algo = MODELS.build(dict(
        type='FpnTeacherDistill' if fpn else 'SingleTeacherDistill',
        architecture=student, teacher=teacher, distiller=distiller(calls),
        **flags))
    algo.distillation_stopped = stopped = v.flag('stopped')
    algo.train(True)
    v.ensure('norms of the teacher',
             teacher.norm.training != flags['teacher_norm_eval'] and
             student.norm.training)
    v.ensure('only a trainable teacher gets gradients', all(
        p.requires_grad == flags['teacher_trainable']
        for p in teacher.parameters()) and all(
            p.requires_grad for p in student.parameters()))
    x, samples = object(), [object()]
    for step in range(2):
        got = algo.loss(x, samples)
        want = {}
        if flags['teacher_trainable'] and not fpn:
            want['teacher.loss'] = ('teacher', 'loss')
        if flags['calculate_student_loss']:
            want['student.loss'] = ('student', 'loss')
        if not stopped:
            want['distill.loss_x'] = ('loss', ['other', 'student'],
                                      ['other', 'teacher'], None)
        v.ensure('losses', got == want, f'{got} {want}')
        v.ensure('one run each', len(teacher.log) == step + 1 and
                 len(student.log) == step + 1)
        v.ensure('same batch', teacher.log[-1]['inputs'] is x and
                 student.log[-1]['inputs'] is x and
                 student.log[-1]['samples'] is samples and
                 student.log[-1]['mode'] == 'loss')
        v.ensure('gradients of the teacher',
                 teacher.log[-1]['grad'] == flags['teacher_trainable'])
        v.ensure('gradients of the student', student.log[-1]['grad'] == (
            flags['calculate_student_loss'] or flags['student_trainable']))
        v.ensure('delivered in order', len(student.seen) == calls and all(
            a is b for a, b in zip(student.seen, teacher.seen)))
        v.ensure('teacher undisturbed', teacher.seen == [
            ('func', ('teacher', i), 0) for i in range(calls)])
        all_restored(v)
    T.restore()


@contract('C15', targets=['mmrazor/engine/hooks/stop_distillation_hook.py'],
          samples=60)
def stopping(v):
    """Distillation is over from the given epoch on."""
    class Run:
        class logger:
            info = staticmethod(lambda *a: None)

    stop = v.int('stop', 0, 2**20, chi=9)
    before = v.flag('stopped before')
    run = Run()
    run.epoch = v.int('epoch', 0, 2**20, chi=9)
    run.model = Model('student')
    run.model.distillation_stopped = before
    StopDistillHook(stop).before_train_epoch(run)
    v.ensure('stopped from then on', run.model.distillation_stopped == (
        v.any_of(before, run.epoch >= stop)))


# ------------------------------------------------- without data or teacher
class Little(BaseModel):
    """An image in, a number out; leaves traces of how it was run."""

    def __init__(self, key):
        super().__init__()
        self.conv = nn.Conv2d(1, 2, 1)
        with torch.no_grad():
            self.conv.weight.copy_(torch.tensor(
                [1. + key, -.5 * key]).reshape(2, 1, 1, 1))
            self.conv.bias.fill_(.25 * key)
        self.drop = nn.Dropout(0.)
        self.log = []

    def forward(self, inputs, data_samples=None, mode='loss'):
        self.log.append((inputs.detach().clone(), self.training,
                         inputs.requires_grad, torch.is_grad_enabled()))
        return dict(loss=self.conv(inputs).mean())


class Maker(nn.Module):

    def __init__(self):
        super().__init__()
        self.scale = nn.Parameter(torch.tensor([.5, 2.]))
        self.module = self
        self.made = []

    latent_dim = 2

    def __setattr__(self, key, value):
        if key == 'module':
            return object.__setattr__(self, key, value)
        super().__setattr__(key, value)

    def forward(self, z, batch_size):
        self.made.append((z.clone(), batch_size))
        return (z * self.scale).reshape(batch_size, 1, 2, 1)


class Scale(nn.Module):
    """loss_weight * mean of (s - t)^2"""

    def __init__(self, loss_weight=1.):
        super().__init__()
        self.w = loss_weight

    def forward(self, s, t):
        return self.w * ((s - t)**2).mean()


class Another(Little):

    def __init__(self):
        super().__init__(2)


for _c, _n in [(Another, 'VcLittle'), (Maker, 'VcMaker'),
               (Scale, 'VcScale')]:
    MODELS.register_module(name=_n, module=_c, force=True)


def between(which, weight):
    rec = dict(type='ModuleOutputs', source='conv')
    return dict(
        type='ConfigurableDistiller', student_recorders=dict(s=rec),
        teacher_recorders=dict(t=dict(rec, source=f'{which}.conv')),
        distill_losses=dict(loss_x=dict(type='VcScale', loss_weight=weight)),
        loss_forward_mappings=dict(loss_x=dict(
            s=dict(from_student=True, recorder='s'),
            t=dict(from_student=False, recorder='t'))))


def stepped(p, loss, lr):
    """where one step of SGD leads"""
    grads = torch.autograd.grad(loss, p)
    return [a.detach() - lr * g for a, g in zip(p, grads)]


def close(a, b):
    return len(a) == len(b) and all(
        torch.allclose(x, y, rtol=1e-4, atol=1e-6) for x, y in zip(a, b))


@contract('C15', targets=['mmrazor/models/algorithms/distill/configurable/'
                          'datafree_distillation.py'],
          kind='bounded', samples=60)
def without_data(v):
    """The student follows its distillation loss on generated images only,
    the generator its own loss only, the teachers never change."""
    dafl = v.flag('dafl')
    first = not dafl and v.flag('student first')
    times = 1 if dafl else v.small('student_iter', 1, 3)
    torch.manual_seed(v.int('seed', 0, 9999))
    student = Little(1)
    teachers = nn.ModuleDict(dict(one=Little(2), two=Little(3)))
    cls = DAFLDataFreeDistillation if dafl else DataFreeDistillation
    kw = {} if dafl else dict(student_iter=times, student_train_first=first)
    algo = cls(architecture=student, distiller=between('one', 1.),
               generator_distiller=between('two', -.5),
               teachers=dict(one=dict(build_cfg=dict(type='VcLittle')),
                             two=dict(build_cfg=dict(type='VcLittle'))),
               generator=dict(type='VcMaker'), **kw)
    v.ensure('teachers are not trained', not any(
        p.requires_grad for p in algo.teachers.parameters()))
    for k in teachers:
        algo.teachers[k].load_state_dict(teachers[k].state_dict())
    lr, glr = .05, .03
    optim = dict(
        architecture=OptimWrapper(torch.optim.SGD(
            student.parameters(), lr)),
        generator=OptimWrapper(torch.optim.SGD(
            algo.generator.parameters(), glr)))
    gen, tea = algo.generator, algo.teachers
    ref_s, ref_g = copy.deepcopy(student), copy.deepcopy(gen)
    before = [p.clone() for p in tea.parameters()]
    for step in range(v.small('steps', 1, 3)):
        algo.train()
        n = v.small(f'batch{step}', 1, 3)
        gen.made.clear()
        for m in [student] + list(tea.values()):
            m.log.clear()
        logs = algo.train_step(dict(inputs=[
            torch.zeros(1, 2, 1)] * n, data_samples=None), optim)

        def images(z):
            return (z * ref_g.scale).reshape(n, 1, 2, 1)

        def train(z):
            x = images(z).detach()
            loss = ((ref_s.conv(x) - tea['one'].conv(x))**2).mean()
            new = stepped(list(ref_s.parameters()), loss, lr)
            return new, loss

        def make(z):
            x = images(z)
            loss = -.5 * ((ref_s.conv(x) - tea['two'].conv(x))**2).mean()
            return stepped(list(ref_g.parameters()), loss, glr), loss

        def put(m, new):
            for p, q in zip(m.parameters(), new):
                p.data = q

        z = [x for x, k in gen.made]
        v.ensure('as many as in the batch', all(
            x.shape == (n, 2) and k == n for x, k in gen.made))
        v.ensure('new images each time', len(z) == (1 if dafl else
                                                    times + 1))
        if dafl:
            s, ls = train(z[0])
            g, lg = make(z[0])
            put(ref_s, s)
            put(ref_g, g)
        else:
            if not first:
                g, lg = make(z[0])
                put(ref_g, g)
            for x in z[:times] if first else z[1:]:
                s, ls = train(x)
                put(ref_s, s)
            if first:
                g, lg = make(z[-1])
                put(ref_g, g)
        v.ensure('the student follows its loss', close(
            [p.data for p in student.parameters()],
            [p.data for p in ref_s.parameters()]),
            f'{[p.data for p in student.parameters()]} '
            f'{[p.data for p in ref_s.parameters()]}')
        v.ensure('the generator follows its loss', close(
            [gen.scale.data], [ref_g.scale.data]))
        v.ensure('teachers stay', close(list(tea.parameters()), before))
        v.ensure('losses shown', close(
            [logs['distill.loss_x'], logs['distill.loss'],
             logs['generator.loss_x'], logs['generator.loss']],
            [ls.detach()] * 2 + [lg.detach()] * 2))
        v.ensure('teachers in evaluation mode', all(
            not m.log[i][1] for m in tea.values()
            for i in range(len(m.log))))
        v.ensure('the student in training mode', all(
            e[1] for e in student.log))
        for m in tea.values():
            v.ensure('the same images', len(m.log) == len(
                student.log) and all(torch.equal(a[0], b[0]) for a, b in zip(
                    m.log, student.log)))


class Twice(BaseModel):
    """Two heads on one trunk."""

    def __init__(self):
        super().__init__()
        self.trunk, self.early, self.late = (
            nn.Linear(2, 2), nn.Linear(2, 2), nn.Linear(2, 2))
        self.grad = []

    def forward(self, inputs, data_samples=None, mode='loss'):
        self.grad.append(torch.is_grad_enabled())
        x = self.trunk(inputs)
        return dict(loss=self.early(x).sum() + self.late(x).sum())


@contract('C15', targets=['mmrazor/models/algorithms/distill/configurable/'
                          'self_distill.py',
                          'mmrazor/models/distillers/byot_distiller.py',
                          DISTILLER], kind='bounded', samples=60)
def its_own_teacher(v):
    """Self distillation: one run, and nothing flows to the teaching part"""
    torch.manual_seed(v.int('seed', 0, 9999))
    byot = v.flag('byot')
    kw = dict(student_trainable=v.flag('trainable'),
              calculate_student_loss=v.flag('loss'))
    net = Twice()
    algo = SelfDistill(architecture=net, distiller=dict(
        type='BYOTDistiller' if byot else 'ConfigurableDistiller',
        student_recorders=dict(s=dict(type='ModuleOutputs', source='early')),
        teacher_recorders=dict(t=dict(type='ModuleOutputs', source='late')),
        connectors=dict(c=dict(type='TorchFunctionalConnector',
                               function_name='relu')),
        distill_losses=dict(loss_x=dict(type='L1Loss')),
        loss_forward_mappings=dict(loss_x=dict(
            s_feature=dict(from_student=True, recorder='s', connector='c'),
            t_feature=dict(from_student=False, recorder='t')))), **kw)
    x = torch.randn(3, 2)
    for step in range(2):
        net.grad.clear()
        got = algo.loss(x, None)
        trained = kw['calculate_student_loss'] or kw['student_trainable']
        v.ensure('one run', net.grad == [trained])
        h = net.trunk(x)
        want = (net.early(h).clamp(min=0) - net.late(h)).abs().mean()
        v.ensure('the loss', close([got['distill.loss_x']], [want]))
        v.ensure('losses', set(got) == {'distill.loss_x'} | (
            {'student.loss'} if kw['calculate_student_loss'] else set()))
        loss = got['distill.loss_x']
        if byot:
            v.ensure('trainable', loss.requires_grad == trained)
            if trained:
                v.ensure('nothing to the teaching part', torch.autograd.grad(
                    loss, net.late.weight, retain_graph=True,
                    allow_unused=True)[0] is None)
                a = torch.autograd.grad(loss, net.trunk.weight)
                h = net.trunk(x)
                b = torch.autograd.grad((net.early(h).clamp(
                    min=0) - net.late(h).detach()).abs().mean(),
                    net.trunk.weight)
                v.ensure('the slope', close(list(a), list(b)))
