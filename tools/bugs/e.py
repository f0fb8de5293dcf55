L = 'mmrazor/models/losses/'
D = 'mmrazor/models/algorithms/distill/configurable/'

bug('c20-crd', 'C20', L + 'crd_loss.py',
    '''            ab_pos.mul_(momentum)
            ab_pos.add_(torch.mul(feat_t, 1 - momentum))
''', '''            ab_pos.mul_(1 - momentum)
            ab_pos.add_(torch.mul(feat_t, momentum))
''', 'a momentum other than the default one half, and a second step',
    'the memory of the teacher forgets as fast as it should remember', '''
import torch
from mmrazor.models.losses.crd_loss import ContrastMemory
torch.manual_seed(0)
m = ContrastMemory(2, 4, 1, momentum=.9)
s, t = torch.tensor([[1., 0.]]), torch.tensor([[0., 1.]])
old = [m.memory_v1[2].clone(), m.memory_v2[2].clone()]
m(s, t, torch.tensor([2]), torch.tensor([[2, 1]]))
for o, f, new in zip(old, (s, t), (m.memory_v1[2], m.memory_v2[2])):
    want = .9 * o + .1 * f[0]
    assert torch.allclose(new, want / want.norm(), atol=1e-5), (new, want)
''')

bug('c20-boundary', 'C20', L + 'ab_loss.py',
    '''                                             (target <= 0)).float() +
''', '''                                             (target < 0)).float() +
''', 'teacher features that are exactly zero, as behind a ReLU',
    'neurons the teacher does not activate are no longer held down', '''
import torch
from mmrazor.models.losses import ABLoss
got = ABLoss(margin=1.)(torch.full((1, 4), 2.), torch.zeros(1, 4))
assert abs(float(got) - 4 * 9 / 1000 * 3) < 1e-5, got
''')

bug('c20-batch', 'C20', L + 'pkd_loss.py',
    '''        mean = feat.mean(dim=-1, keepdim=True)
        std = feat.std(dim=-1, keepdim=True)
''', '''        var, mean = torch.var_mean(feat, dim=-1, keepdim=True)
        std = (var + 1).sqrt() if C == 1 else var.sqrt()
''', 'feature maps of a single channel',
    'maps of one channel are not normalised to unit variance', '''
import torch
from mmrazor.models.losses import PKDLoss
torch.manual_seed(0)
x = torch.randn(2, 1, 4, 4)
assert abs(float(PKDLoss()(x, 3 * x + 1))) < 1e-4
''')

bug('c20-rkd', 'C20', L + 'relational_kd.py',
    '''            preds_S = F.normalize(preds_S, p=2, dim=-1)
            preds_T = F.normalize(preds_T, p=2, dim=-1)
''', '''            preds_S = F.normalize(preds_S, p=2, dim=0)
            preds_T = F.normalize(preds_T, p=2, dim=0)
''', 'normalised embeddings whose angles depend on their scales',
    'angles are taken after scaling features over the batch', '''
import torch
from mmrazor.models.losses import AngleWiseRKD
torch.manual_seed(0)
x = torch.randn(4, 3).double()
scale = torch.tensor([1., 2., .5, 3.]).double().reshape(4, 1)
# embeddings are normalised one by one: their lengths do not matter
assert abs(float(AngleWiseRKD()(x, x * scale))) < 1e-6
''')

bug('c15-detach', 'C15', D + 'datafree_distillation.py',
    '''            fakeimg = self.generator(fakeimg_init, batch_size).detach()
''', '''            fakeimg = self.generator(fakeimg_init, batch_size)
''', 'the student trained before the generator in a step',
    'the generator is also trained to make the student agree', '''
import torch
from torch import nn
from mmengine.model import BaseModel
from mmengine.optim import OptimWrapper
from mmrazor.models import DataFreeDistillation
from mmrazor.registry import MODELS


@MODELS.register_module(name='DemoNet')
class Net(BaseModel):

    def __init__(self, k=2.):
        super().__init__()
        self.conv = nn.Conv2d(1, 1, 1)
        self.conv.weight.data.fill_(k)

    def forward(self, inputs, data_samples=None, mode='loss'):
        return dict(loss=self.conv(inputs).mean())


@MODELS.register_module(name='DemoMaker')
class Maker(nn.Module):
    latent_dim = 1

    def __init__(self):
        super().__init__()
        self.scale = nn.Parameter(torch.ones(1))

    @property
    def module(self):
        return self

    def forward(self, z, n):
        return (z * self.scale).reshape(n, 1, 1, 1)


@MODELS.register_module(name='DemoLoss')
class Loss(nn.Module):

    def __init__(self, w):
        super().__init__()
        self.w = w

    def forward(self, s, t):
        return self.w * ((s - t)**2).mean()


def distiller(w):
    rec = dict(type='ModuleOutputs', source='conv')
    return dict(
        type='ConfigurableDistiller', student_recorders=dict(s=rec),
        teacher_recorders=dict(t=dict(rec, source='tea.conv')),
        distill_losses=dict(loss_x=dict(type='DemoLoss', w=w)),
        loss_forward_mappings=dict(loss_x=dict(
            s=dict(from_student=True, recorder='s'),
            t=dict(from_student=False, recorder='t'))))


torch.manual_seed(0)
student = Net(1.)
algo = DataFreeDistillation(
    architecture=student, distiller=distiller(1.),
    generator_distiller=distiller(0.), student_train_first=True,
    teachers=dict(tea=dict(build_cfg=dict(type='DemoNet'))),
    generator=dict(type='DemoMaker'))
optim = dict(
    architecture=OptimWrapper(torch.optim.SGD(student.parameters(), .1)),
    generator=OptimWrapper(torch.optim.SGD(
        algo.generator.parameters(), .1)))
algo.train_step(dict(inputs=[torch.zeros(1, 1, 1)] * 3,
                     data_samples=None), optim)
# a loss of weight zero does not move the generator
assert float(algo.generator.scale) == 1., algo.generator.scale
''')
