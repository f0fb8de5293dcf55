bug('c01-ratio', 'C01', 'mmrazor/models/utils/make_divisible.py',
    'if new_value < min_ratio * value:', 'if new_value < int(min_ratio * value):',
    'a width whose rounded value lies between the truncated and the exact lower bound, e.g. 9 with divisor 4',
    'rounding to the divisor falls below the allowed ratio', '''
from mmrazor.models.utils import make_divisible
for d in (2, 3, 4, 8):
    for v in range(1, 300):
        n = make_divisible(v, d)
        assert n >= 0.9 * v, (v, d, n)
''')
bug('c02-round', 'C02', 'mmrazor/models/mutables/derived_mutable.py',
    'expand_choice = int(mutable.current_choice * expand_ratio)',
    'expand_choice = round(mutable.current_choice * expand_ratio)',
    'a float expand ratio and a width for which the product has a fraction above one half',
    'the derived mask activates one channel more than the derived choice says', '''
from mmrazor.models.mutables import SquentialMutableChannel
m = SquentialMutableChannel(16)
for r in (0.5, 1.5, 1.25, 0.75, 2.6):
    d = m.derive_expand_mutable(r)
    for k in range(1, 17):
        m.current_choice = k
        assert int(d.current_mask.sum()) == d.current_choice, (r, k)
''')
bug('c02-value', 'C02',
    'mmrazor/models/mutables/mutable_channel/sequential_mutable_channel.py',
    """            def fn():
                mask = mutable1.current_mask
                max_expand_ratio = mutable2.max_choice
                current_expand_ratio = mutable2.current_choice
""",
    """            max_expand_ratio = mutable2.max_choice
            current_expand_ratio = mutable2.current_choice

            def fn():
                mask = mutable1.current_mask
""",
    'the value mutable changes after channel * value was derived',
    'the mask keeps the ratio that was current at derivation while the choice follows it', '''
from mmrazor.models.mutables import OneShotMutableValue, SquentialMutableChannel
m = SquentialMutableChannel(16)
v = OneShotMutableValue(value_list=[1, 2, 3, 4])
v.current_choice = 2
d = m * v
for k in (4, 16, 7):
    for x in (1, 4, 2, 3):
        m.current_choice, v.current_choice = k, x
        assert int(d.current_mask.sum()) == d.current_choice == k * x, (k, x)
''')
bug('c03-sort', 'C03', 'mmrazor/utils/index_dict.py',
    """        super().__setitem__(__k, __v)
        self._sort()
""",
    """        in_order = len(self) == 0 or start >= next(iter(self))[0]
        super().__setitem__(__k, __v)
        if not in_order:
            self._sort()
""",
    'a range put between two present ranges',
    'ranges are no longer in ascending order', '''
import itertools
from mmrazor.utils import IndexDict
for p in itertools.permutations([(0, 8), (8, 16), (16, 24)]):
    d = IndexDict()
    for k in p:
        d[k] = k[0]
    assert list(d.items()) == [((0, 8), 0), ((8, 16), 8), ((16, 24), 16)], p
''')
bug('c03-stale', 'C03',
    'mmrazor/models/mutables/mutable_channel/mutable_channel_container.py',
    """            masks = [mutable.current_mask for mutable in mutable_channels]
            mask = torch.cat(masks)
            return mask.bool()
""",
    """            masks = [mutable.current_mask for mutable in mutable_channels]
            # the mask only has to be put together again after a change
            state = tuple(int(mask.sum()) for mask in masks)
            if getattr(self, '_mask_state', None) != state:
                self._mask_state = state
                self._mask = torch.cat(masks).bool()
            return self._mask
""",
    'a mutable whose mask changes without changing its number of channels',
    'the container keeps the old mask', '''
import torch
from mmrazor.models.mutables import MutableChannelContainer, SimpleMutableChannel
c = MutableChannelContainer(12)
m = SimpleMutableChannel(4)
c.register_mutable(m, 2, 6)
for bits in ([1, 1, 0, 0], [0, 0, 1, 1], [1, 0, 0, 1]):
    m.current_choice = torch.tensor(bits).bool()
    want = [True] * 2 + [bool(b) for b in bits] + [True] * 6
    assert c.current_mask.tolist() == want, bits
''')
bug('c04-prefix', 'C04',
    'mmrazor/models/mutables/mutable_module/one_shot_mutable_module.py',
    """            if c != chosen:
                self._candidates.pop(c)

        self._chosen = chosen
        self.is_fixed = True

    def dump_chosen(self) -> DumpChosen:
        chosen = self.export_chosen()
        meta = dict(all_choices=self.choices)
        return DumpChosen(chosen=chosen, meta=meta)

    def export_chosen(self) -> str:
        assert self.current_choice is not None
        return self.current_choice

    def sample_choice(self) -> str:
        \"\"\"uniform""",
    """            if chosen not in c:
                self._candidates.pop(c)

        self._chosen = chosen
        self.is_fixed = True

    def dump_chosen(self) -> DumpChosen:
        chosen = self.export_chosen()
        meta = dict(all_choices=self.choices)
        return DumpChosen(chosen=chosen, meta=meta)

    def export_chosen(self) -> str:
        assert self.current_choice is not None
        return self.current_choice

    def sample_choice(self) -> str:
        \"\"\"uniform""",
    'a candidate whose name contains the name of the chosen one',
    'another candidate survives the fixing', '''
import torch.nn as nn
from mmrazor.models.mutables import OneShotMutableOP
for chosen in ('conv', 'conv_se', 'pool'):
    op = OneShotMutableOP(nn.ModuleDict({
        'conv': nn.Conv2d(1, 1, 1), 'conv_se': nn.Conv2d(1, 1, 3),
        'pool': nn.Identity()}))
    op.fix_chosen(chosen)
    assert op.choices == [chosen], op.choices
''')
bug('c05-double', 'C05', 'mmrazor/structures/subnet/fix_subnet.py',
    'mutable_name = extra_prefix + name',
    """mutable_name = name if name.startswith(extra_prefix) \\
                    else extra_prefix + name""",
    'an extra prefix which the name of a module starts with by itself',
    'the entry of another mutable (or none) is used', '''
import torch.nn as nn
from mmrazor.models.mutables import OneShotMutableValue
from mmrazor.structures import load_fix_subnet


class Inner(nn.Module):
    def __init__(self):
        super().__init__()
        self.v = OneShotMutableValue(value_list=[1, 2, 3])


class Net(nn.Module):
    def __init__(self):
        super().__init__()
        self.a = Inner()
        self.b = Inner()


net = Net()
load_fix_subnet(net, {'a.a.v': dict(chosen=2), 'a.b.v': dict(chosen=3),
                      'a.v': dict(chosen=1)}, extra_prefix='a.')
assert (net.a.v.current_choice, net.b.v.current_choice) == (2, 3), (
    net.a.v.current_choice, net.b.v.current_choice)
''')
bug('c05-zero', 'C05', 'mmrazor/structures/subnet/fix_subnet.py',
    """        if not module.is_fixed:
            module.fix_chosen(chosen.chosen)
""",
    """        if chosen.chosen and not module.is_fixed:
            module.fix_chosen(chosen.chosen)
""",
    'a chosen value that is false, e.g. a depth of 0',
    'the mutable is not fixed and keeps its own choice', '''
import torch.nn as nn
from mmrazor.models.mutables import OneShotMutableValue
from mmrazor.structures import export_fix_subnet, load_fix_subnet


class Net(nn.Module):
    def __init__(self):
        super().__init__()
        self.depth = OneShotMutableValue(value_list=[0, 1, 2])


for c in (2, 1, 0):
    a, b = Net(), Net()
    a.depth.current_choice = c
    load_fix_subnet(b, export_fix_subnet(a)[0])
    assert b.depth.is_fixed and b.depth.current_choice == c, c
''')
bug('c06-flag', 'C06', 'mmrazor/models/mutators/group_mixin.py',
    """                flag_all_grouped = True
                for mutable_name in mutable_names:
                    if mutable_name not in grouped_mutable_names:
                        flag_all_grouped = False
""",
    """                flag_all_grouped = True
                for mutable_name in mutable_names:
                    flag_all_grouped = mutable_name in grouped_mutable_names
""",
    'an alias of which only the last mutable is in a custom group by its name',
    'the other mutables of the alias are searched apart from each other', '''
import torch.nn as nn
from mmrazor.models import NasMutator
from mmrazor.models.mutables import OneShotMutableValue


class Net(nn.Module):
    def __init__(self):
        super().__init__()
        self.a = OneShotMutableValue(value_list=[1, 2], alias='x')
        self.b = OneShotMutableValue(value_list=[1, 2], alias='x')
        self.c = OneShotMutableValue(value_list=[1, 2], alias='x')


for custom in ([], [['c']], [['a']], [['x']]):
    net = Net()
    m = NasMutator(custom_groups=custom)
    m.prepare_from_supernet(net)
    left = [x for x, n in ((net.a, 'a'), (net.b, 'b'), (net.c, 'c'))
            if [n] not in custom]
    assert any(all(any(x is y for y in g) for x in left)
               for g in m.search_groups.values()), custom
''')
bug('c08-shared', 'C08', [
    ('mmrazor/structures/subnet/candidate.py', """        def _format_item(
                cond:""", """        unknown = {}.fromkeys(self._indicators, -1)

        def _format_item(
                cond:"""),
    ('mmrazor/structures/subnet/candidate.py',
     'return {str(cond): {}.fromkeys(self._indicators, -1)}',
     'return {str(cond): unknown}')], '', '',
    'several plain subnets handed over in one list, then one of them gets a result',
    'the subnets share one set of results', '''
from mmrazor.structures import Candidates
c = Candidates([{'x': 1}, {'x': 2}, {'x': 3}])
c.set_resource(1, 5., 'flops')
assert c.resources('flops') == [-1, 5., -1], c.resources('flops')
''')
