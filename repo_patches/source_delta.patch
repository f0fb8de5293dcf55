From f6d288c0415a502770b3bc48dce7007b1b0eef60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:37 +0000
Subject: [PATCH 01/58] fix: OneShotMutableChannel instances no longer share
 their default candidate list

---
 .../models/mutables/mutable_channel/oneshot_mutable_channel.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mmrazor/models/mutables/mutable_channel/oneshot_mutable_channel.py b/mmrazor/models/mutables/mutable_channel/oneshot_mutable_channel.py
index 3265b79..e5be9a7 100644
--- a/mmrazor/models/mutables/mutable_channel/oneshot_mutable_channel.py
+++ b/mmrazor/models/mutables/mutable_channel/oneshot_mutable_channel.py
@@ -23,7 +23,8 @@ class OneShotMutableChannel(SquentialMutableChannel):
                  choice_mode='number',
                  **kwargs):
         super().__init__(num_channels, choice_mode, **kwargs)
-        candidate_choices.sort()
+        # never touch the (shared) default list or the list of the caller
+        candidate_choices = sorted(candidate_choices)
         self.candidate_choices = candidate_choices
         if candidate_choices == []:
             candidate_choices.append(num_channels if self.is_num_mode else 1.0)
-- 
2.43.0


From e5479d7b1894445b183adf0d9d4afe2ee96288f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:37 +0000
Subject: [PATCH 02/58] fix: a ratio choice read back from a channel keeps its
 channel number

---
 .../mutables/mutable_channel/sequential_mutable_channel.py     | 3 ++-
 .../mutable_channel/units/sequential_mutable_channel_unit.py   | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/mmrazor/models/mutables/mutable_channel/sequential_mutable_channel.py b/mmrazor/models/mutables/mutable_channel/sequential_mutable_channel.py
index c2b4f92..cf3dffc 100644
--- a/mmrazor/models/mutables/mutable_channel/sequential_mutable_channel.py
+++ b/mmrazor/models/mutables/mutable_channel/sequential_mutable_channel.py
@@ -137,4 +137,5 @@ class SquentialMutableChannel(SimpleMutableChannel):
         if isinstance(choice, int):
             return choice
         else:
-            return max(1, int(self.num_channels * choice))
+            # tolerate float error, e.g. 100 * (29 / 100) is 28.999999999999996
+            return max(1, int(self.num_channels * choice + 1e-6))
diff --git a/mmrazor/models/mutables/mutable_channel/units/sequential_mutable_channel_unit.py b/mmrazor/models/mutables/mutable_channel/units/sequential_mutable_channel_unit.py
index d32c5fe..eeb70b3 100644
--- a/mmrazor/models/mutables/mutable_channel/units/sequential_mutable_channel_unit.py
+++ b/mmrazor/models/mutables/mutable_channel/units/sequential_mutable_channel_unit.py
@@ -149,7 +149,8 @@ class SequentialMutableChannelUnit(MutableChannelUnit):
         if isinstance(choice, int):
             return choice
         else:
-            return max(1, int(self.num_channels * choice))
+            # tolerate float error, e.g. 100 * (29 / 100) is 28.999999999999996
+            return max(1, int(self.num_channels * choice + 1e-6))
 
     def _make_divisible_info(self, choice, new_choice):
         logger = MMLogger.get_current_instance()
-- 
2.43.0


From 328bfdf0c5df4a77456442cfd89e6e23dbb274be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:37 +0000
Subject: [PATCH 03/58] fix: divisible channel choices never exceed the number
 of channels

---
 .../units/sequential_mutable_channel_unit.py                | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mmrazor/models/mutables/mutable_channel/units/sequential_mutable_channel_unit.py b/mmrazor/models/mutables/mutable_channel/units/sequential_mutable_channel_unit.py
index eeb70b3..cc96199 100644
--- a/mmrazor/models/mutables/mutable_channel/units/sequential_mutable_channel_unit.py
+++ b/mmrazor/models/mutables/mutable_channel/units/sequential_mutable_channel_unit.py
@@ -134,8 +134,10 @@ class SequentialMutableChannelUnit(MutableChannelUnit):
     def _make_divisible(self, choice_int: int):
         """Make the choice divisible."""
         from mmrazor.models.utils import make_divisible
-        return make_divisible(choice_int, self.divisor, self.min_value,
-                              self.min_ratio)
+        choice = make_divisible(choice_int, self.divisor, self.min_value,
+                                self.min_ratio)
+        # rounding up must not exceed the channels there are
+        return min(choice, self.num_channels)
 
     def _num2ratio(self, choice: Union[int, float]) -> float:
         """Convert the a number choice to a ratio choice."""
-- 
2.43.0


From 4d35ebf3bb86702d51de3b54bbbe8213aef89885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:13 +0000
Subject: [PATCH 04/58] fix: a divide-derived mutable uses the divisor for its
 choice as for its mask

---
 mmrazor/models/mutables/derived_mutable.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mmrazor/models/mutables/derived_mutable.py b/mmrazor/models/mutables/derived_mutable.py
index ac8a8c6..3e31a2f 100644
--- a/mmrazor/models/mutables/derived_mutable.py
+++ b/mmrazor/models/mutables/derived_mutable.py
@@ -183,10 +183,12 @@ class DerivedMethodMixin:
             current_ratio = ratio
         elif isinstance(ratio, float):
             current_ratio = int(ratio)
-            choice_fn = _divide_choice_fn(self, ratio=current_ratio, divisor=1)
+            choice_fn = _divide_choice_fn(
+                self, ratio=current_ratio, divisor=divisor)
         elif isinstance(ratio, BaseMutable):
             current_ratio = int(ratio.current_choice)
-            choice_fn = _divide_choice_fn(self, ratio=current_ratio, divisor=1)
+            choice_fn = _divide_choice_fn(
+                self, ratio=current_ratio, divisor=divisor)
         else:
             raise NotImplementedError(
                 f'Not support type of ratio: {type(ratio)}')
-- 
2.43.0


From a9bbb00729fb2b768053de9ad098be40f73efaa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:21 +0000
Subject: [PATCH 05/58] fix: IndexDict sees ranges that contain or start before
 a present one

---
 mmrazor/utils/index_dict.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mmrazor/utils/index_dict.py b/mmrazor/utils/index_dict.py
index a053024..d9daf15 100644
--- a/mmrazor/utils/index_dict.py
+++ b/mmrazor/utils/index_dict.py
@@ -48,8 +48,7 @@ class IndexDict(OrderedDict):
             start, end = __o
             existed = False
             for s, e in self.keys():
-                existed = (s <= start < e or s < end < e or
-                           (s < start and end < e)) or existed
+                existed = (s < end and start < e) or existed
 
             return existed
 
-- 
2.43.0


From 39a786e8b9caa65ea85627998d523f01951047b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:21 +0000
Subject: [PATCH 06/58] fix: unregistered channels before a registered range
 get a mask of the gap's size

---
 .../mutables/mutable_channel/mutable_channel_container.py       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmrazor/models/mutables/mutable_channel/mutable_channel_container.py b/mmrazor/models/mutables/mutable_channel/mutable_channel_container.py
index 5706d07..f9eeecc 100644
--- a/mmrazor/models/mutables/mutable_channel/mutable_channel_container.py
+++ b/mmrazor/models/mutables/mutable_channel/mutable_channel_container.py
@@ -115,7 +115,7 @@ class MutableChannelContainer(BaseMutableChannel):
         for start, end in copy.copy(self.mutable_channels):
             if last_end < start:
                 self.register_mutable(
-                    SimpleMutableChannel(last_end - start), last_end, start)
+                    SimpleMutableChannel(start - last_end), last_end, start)
             last_end = end
         if last_end < self.num_channels:
             self.register_mutable(
-- 
2.43.0


From 5a13fa4cce2693f0cded6fc816db30ce0488ceb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:42 +0000
Subject: [PATCH 07/58] fix: fixing a fixed channel mutable again no longer
 changes its choice

---
 .../models/mutables/mutable_channel/base_mutable_channel.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mmrazor/models/mutables/mutable_channel/base_mutable_channel.py b/mmrazor/models/mutables/mutable_channel/base_mutable_channel.py
index 65d5a44..a3b2f4e 100644
--- a/mmrazor/models/mutables/mutable_channel/base_mutable_channel.py
+++ b/mmrazor/models/mutables/mutable_channel/base_mutable_channel.py
@@ -50,14 +50,14 @@ class BaseMutableChannel(BaseMutable, DerivedMethodMixin):
 
     def fix_chosen(self, chosen=None):
         """Fix the mutable  with chosen."""
-        if chosen is not None:
-            self.current_choice = chosen
-
         if self.is_fixed:
             raise AttributeError(
                 'The mode of current MUTABLE is `fixed`. '
                 'Please do not call `fix_chosen` function again.')
 
+        if chosen is not None:
+            self.current_choice = chosen
+
         self.is_fixed = True
 
     def dump_chosen(self) -> DumpChosen:
-- 
2.43.0


From 721782446d4158ed0a7a4d5635022faed7d84185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:42 +0000
Subject: [PATCH 08/58] fix: fixing an op or route refuses a choice that is no
 candidate, and a refusal changes nothing

---
 .../mutables/mutable_module/diff_mutable_module.py     | 10 ++++++++--
 .../mutables/mutable_module/one_shot_mutable_module.py |  3 +++
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/mmrazor/models/mutables/mutable_module/diff_mutable_module.py b/mmrazor/models/mutables/mutable_module/diff_mutable_module.py
index e524ec6..03dd6a2 100644
--- a/mmrazor/models/mutables/mutable_module/diff_mutable_module.py
+++ b/mmrazor/models/mutables/mutable_module/diff_mutable_module.py
@@ -221,6 +221,9 @@ class DiffMutableOP(DiffMutableModule):
         if isinstance(chosen, str):
             chosen = [chosen]
 
+        assert all(c in self.choices for c in chosen), \
+            f'Expected chosen in: {self.choices}, but got: {chosen}'
+
         for c in self.choices:
             if c not in chosen:
                 self._candidates.pop(c)
@@ -496,13 +499,16 @@ class DiffChoiceRoute(DiffMutableModule):
         Args:
             chosen (list(str)): the chosen key in ``MUTABLE``.
         """
-        self._unfixed_choices = self.choices
-
         if self.is_fixed:
             raise AttributeError(
                 'The mode of current MUTABLE is `fixed`. '
                 'Please do not call `fix_chosen` function again.')
 
+        assert all(c in self.choices for c in chosen), \
+            f'Expected chosen in: {self.choices}, but got: {chosen}'
+
+        self._unfixed_choices = self.choices
+
         for c in self.choices:
             if c not in chosen:
                 self._candidates.pop(c)
diff --git a/mmrazor/models/mutables/mutable_module/one_shot_mutable_module.py b/mmrazor/models/mutables/mutable_module/one_shot_mutable_module.py
index 434b050..4b30d43 100644
--- a/mmrazor/models/mutables/mutable_module/one_shot_mutable_module.py
+++ b/mmrazor/models/mutables/mutable_module/one_shot_mutable_module.py
@@ -231,6 +231,9 @@ class OneShotMutableOP(OneShotMutableModule):
                 'The mode of current MUTABLE is `fixed`. '
                 'Please do not call `fix_chosen` function again.')
 
+        assert chosen in self.choices, \
+            f'Expected chosen in: {self.choices}, but got: {chosen}'
+
         for c in self.choices:
             if c != chosen:
                 self._candidates.pop(c)
-- 
2.43.0


From d88a093b0d7036be1466d12e22ab4f90ad318124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:42 +0000
Subject: [PATCH 09/58] fix: OneHotMutableOP fixes itself to the most probable
 candidate

---
 mmrazor/models/mutables/mutable_module/diff_mutable_module.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmrazor/models/mutables/mutable_module/diff_mutable_module.py b/mmrazor/models/mutables/mutable_module/diff_mutable_module.py
index 03dd6a2..2cba3e7 100644
--- a/mmrazor/models/mutables/mutable_module/diff_mutable_module.py
+++ b/mmrazor/models/mutables/mutable_module/diff_mutable_module.py
@@ -318,7 +318,7 @@ class OneHotMutableOP(DiffMutableOP):
             index = (
                 sorted_param[0][0] - sorted_param[0][1] >= self.fix_threshold)
             if index:
-                self.fix_chosen(self.choices[index])
+                self.fix_chosen(self.choices[torch.argmax(probs).item()])
 
         if self.is_fixed:
             index = self.choices.index(self._chosen[0])
-- 
2.43.0


From 30e6ffd5f945b12429b515a9c0ee557ab484f01d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:54 +0000
Subject: [PATCH 10/58] fix: load_fix_subnet removes the prefix, not every
 leading character in it

---
 mmrazor/structures/subnet/fix_subnet.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mmrazor/structures/subnet/fix_subnet.py b/mmrazor/structures/subnet/fix_subnet.py
index 56b33be..7c57018 100644
--- a/mmrazor/structures/subnet/fix_subnet.py
+++ b/mmrazor/structures/subnet/fix_subnet.py
@@ -78,7 +78,8 @@ def _load_fix_subnet_by_mutable(model: nn.Module,
             chosen = subnet_dict.get(alias, None)
         else:
             if prefix:
-                mutable_name = name.lstrip(prefix)
+                mutable_name = name[len(prefix):] \
+                    if name.startswith(prefix) else name
             elif extra_prefix:
                 mutable_name = extra_prefix + name
             else:
-- 
2.43.0


From 32b08f0348b061f5908b9db6b7941b6d66c25b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:54 +0000
Subject: [PATCH 11/58] fix: loading a subnet fixes sources by their own entry
 before a derived mutable's

---
 mmrazor/structures/subnet/fix_subnet.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/mmrazor/structures/subnet/fix_subnet.py b/mmrazor/structures/subnet/fix_subnet.py
index 7c57018..d8aa0c9 100644
--- a/mmrazor/structures/subnet/fix_subnet.py
+++ b/mmrazor/structures/subnet/fix_subnet.py
@@ -104,12 +104,16 @@ def _load_fix_subnet_by_mutable(model: nn.Module,
         if isinstance(module, (MutableChannelContainer)):
             continue
 
-        if isinstance(module, BaseMutable):
-            if isinstance(module, DerivedMutable):
-                for source_mutable in module.source_mutables:
-                    load_fix_module(source_mutable)
-            else:
-                load_fix_module(module)
+        if isinstance(module, BaseMutable) and \
+                not isinstance(module, DerivedMutable):
+            load_fix_module(module)
+
+    # Sources with a name of their own are fixed by now, a derived mutable
+    # only fixes the sources which are not part of the model.
+    for name, module in model.named_modules():
+        if isinstance(module, DerivedMutable):
+            for source_mutable in module.source_mutables:
+                load_fix_module(source_mutable)
 
 
 def _load_fix_subnet_by_mutator(model: nn.Module, mutator_cfg: Dict) -> None:
-- 
2.43.0


From c20caf148b56bbec45dffe82ef78bc4086c733b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:42 +0000
Subject: [PATCH 12/58] fix: a mutable that derived mutables use is in one
 search group only

---
 mmrazor/models/mutators/group_mixin.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/mmrazor/models/mutators/group_mixin.py b/mmrazor/models/mutators/group_mixin.py
index 569f01e..6eefc29 100644
--- a/mmrazor/models/mutators/group_mixin.py
+++ b/mmrazor/models/mutators/group_mixin.py
@@ -187,24 +187,31 @@ class GroupMixin():
                     current_group_nums += 1
 
         # check whether all the mutable objects are in the search_groups
+        # (a mutable can be met again as the source of derived mutables)
+        grouped_mutables = set(
+            id(m) for group in search_groups.values() for m in group)
         for name, module in supernet.named_modules():
             if self.is_supported_mutable(module):
-                if name in grouped_mutable_names:
+                if name in grouped_mutable_names or \
+                        id(module) in grouped_mutables:
                     continue
                 else:
                     prefix = module.mutable_prefix
                     group_name = prefix + '_' + str(current_group_nums)
                     search_groups[group_name] = [module]
+                    grouped_mutables.add(id(module))
                     current_group_nums += 1
             elif hasattr(module, 'source_mutables'):
                 for each_mutable in module.source_mutables:
                     if self.is_supported_mutable(each_mutable):
-                        if name in grouped_mutable_names:
+                        if name in grouped_mutable_names or \
+                                id(each_mutable) in grouped_mutables:
                             continue
                         else:
                             prefix = each_mutable.mutable_prefix
                             group_name = prefix + '_' + str(current_group_nums)
                             search_groups[group_name] = [each_mutable]
+                            grouped_mutables.add(id(each_mutable))
                             current_group_nums += 1
 
         grouped_counter = Counter(grouped_mutable_names)
-- 
2.43.0


From eb86d15690a3debab73244fb7a66314b3f7b25cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:27 +0000
Subject: [PATCH 13/58] fix: custom search groups accept an alias as their last
 item

---
 mmrazor/models/mutators/group_mixin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmrazor/models/mutators/group_mixin.py b/mmrazor/models/mutators/group_mixin.py
index 6eefc29..56b13b7 100644
--- a/mmrazor/models/mutators/group_mixin.py
+++ b/mmrazor/models/mutators/group_mixin.py
@@ -160,7 +160,7 @@ class GroupMixin():
                     grouped_mutable_names.append(item)
 
             # TODO: fix prefix when constructing custom groups.
-            prefix = name2mutable[item].mutable_prefix
+            prefix = group_mutables[-1].mutable_prefix
             group_name = prefix + '_' + str(current_group_nums)
             search_groups[group_name] = group_mutables
             current_group_nums += 1
-- 
2.43.0


From 813bcb7e57551e0e91be2fd90cc51da125e69934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:03 +0000
Subject: [PATCH 14/58] fix: the greedy sampler trains the top-k candidates one
 by one

---
 mmrazor/engine/runner/subnet_sampler_loop.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/mmrazor/engine/runner/subnet_sampler_loop.py b/mmrazor/engine/runner/subnet_sampler_loop.py
index 4f26ee7..e7fba3d 100644
--- a/mmrazor/engine/runner/subnet_sampler_loop.py
+++ b/mmrazor/engine/runner/subnet_sampler_loop.py
@@ -173,6 +173,7 @@ class GreedySamplerTrainLoop(BaseSamplerTrainLoop):
 
         self.candidates = Candidates()
         self.top_k_candidates = Candidates()
+        self._next_top_k = 0
 
         # initialize estimator
         estimator_cfg = dict() if estimator_cfg is None else estimator_cfg
@@ -215,10 +216,10 @@ class GreedySamplerTrainLoop(BaseSamplerTrainLoop):
                 sampled candidates(step 1.2).
                 1.4. Update the `top_k_candidates` based on
                 their scores(step 1.3).
-            2. Pop from the `top_k_candidates` one by one to train
+            2. Take from the `top_k_candidates` one by one to train
             the supernet.
         """
-        if len(self.top_k_candidates) == 0:
+        if self._next_top_k >= len(self.top_k_candidates):
             self.update_cur_prob(cur_iter=self._iter)
 
             sampled_candidates, num_sample_from_supernet = \
@@ -233,6 +234,7 @@ class GreedySamplerTrainLoop(BaseSamplerTrainLoop):
                 self.candidates.data[:self.num_candidates])
             self.top_k_candidates = Candidates(
                 self.candidates.data[:self.top_k])
+            self._next_top_k = 0
 
             top1_score = self.top_k_candidates.scores[0]
             if (self._iter % self.val_interval) < self.top_k:
@@ -243,7 +245,9 @@ class GreedySamplerTrainLoop(BaseSamplerTrainLoop):
                     f'{num_sample_from_supernet}/{self.num_samples} '
                     f'top1_score {top1_score:.3f} '
                     f'cur_num_candidates: {len(self.candidates)}')
-        return self.top_k_candidates.subnets[0]
+        subnet = self.top_k_candidates.subnets[self._next_top_k]
+        self._next_top_k += 1
+        return subnet
 
     def update_cur_prob(self, cur_iter: int) -> None:
         """update current probablity of sampling from the candidates, which is
-- 
2.43.0


From 73f460e4ba482144777adaea4e25b3eb02bf6529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:03 +0000
Subject: [PATCH 15/58] fix: the greedy sampler's probability rises from
 init_prob to max_prob

---
 mmrazor/engine/runner/subnet_sampler_loop.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mmrazor/engine/runner/subnet_sampler_loop.py b/mmrazor/engine/runner/subnet_sampler_loop.py
index e7fba3d..25ba600 100644
--- a/mmrazor/engine/runner/subnet_sampler_loop.py
+++ b/mmrazor/engine/runner/subnet_sampler_loop.py
@@ -262,12 +262,13 @@ class GreedySamplerTrainLoop(BaseSamplerTrainLoop):
             schedule_cur_steps = cur_iter - self.schedule_start_iter
             if self.prob_schedule == 'linear':
                 tmp = self.max_prob - self.init_prob
-                self.cur_prob = tmp / schedule_all_steps * schedule_cur_steps
+                self.cur_prob = tmp / schedule_all_steps * \
+                    schedule_cur_steps + self.init_prob
             elif self.prob_schedule == 'consine':
-                tmp_1 = (1 - self.init_prob) * 0.5
+                tmp_1 = (self.max_prob - self.init_prob) * 0.5
                 tmp_2 = math.pi * schedule_cur_steps
                 tmp_3 = schedule_all_steps
-                self.cur_prob = tmp_1 * (1 + math.cos(tmp_2 / tmp_3)) \
+                self.cur_prob = tmp_1 * (1 - math.cos(tmp_2 / tmp_3)) \
                     + self.init_prob
             else:
                 raise ValueError('`prob_schedule` is eroor, it should be \
-- 
2.43.0


From 75ac7c7cbda90e335be86c31fef63135aff6d456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:37 +0000
Subject: [PATCH 16/58] fix: a resumed evolution search runs its remaining
 epochs

---
 mmrazor/engine/runner/evolution_search_loop.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mmrazor/engine/runner/evolution_search_loop.py b/mmrazor/engine/runner/evolution_search_loop.py
index 644385e..a6b18bf 100644
--- a/mmrazor/engine/runner/evolution_search_loop.py
+++ b/mmrazor/engine/runner/evolution_search_loop.py
@@ -103,6 +103,7 @@ class EvolutionSearchLoop(EpochBasedTrainLoop, CalibrateBNMixin):
         self.crossover_prob = crossover_prob
         self.max_keep_ckpts = max_keep_ckpts
         self.resume_from = resume_from
+        self._start_epoch = 0
         self.fp16 = False
 
         if init_candidates is None:
@@ -144,7 +145,8 @@ class EvolutionSearchLoop(EpochBasedTrainLoop, CalibrateBNMixin):
         if self.resume_from:
             self._resume()
 
-        while self._epoch < self._max_epochs:
+        # after resuming, `_max_epochs` is the number of remaining epochs
+        while self._epoch < self._start_epoch + self._max_epochs:
             self.run_epoch()
             self._save_searcher_ckpt()
 
@@ -303,6 +305,7 @@ class EvolutionSearchLoop(EpochBasedTrainLoop, CalibrateBNMixin):
             for k in searcher_resume.keys():
                 setattr(self, k, searcher_resume[k])
             epoch_start = int(searcher_resume['_epoch'])
+            self._start_epoch = epoch_start
             self._max_epochs = self._max_epochs - epoch_start
             self.runner.logger.info('#' * 100)
             self.runner.logger.info(f'Resume from epoch: {epoch_start}')
-- 
2.43.0


From a6b3b6d4d63b8804c3bf1311da91c98e378bf1d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:37 +0000
Subject: [PATCH 17/58] fix: a resumed greedy search keeps the subnets of
 targets that are already met

---
 mmrazor/engine/runner/autoslim_greedy_search_loop.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/mmrazor/engine/runner/autoslim_greedy_search_loop.py b/mmrazor/engine/runner/autoslim_greedy_search_loop.py
index cf9752c..e5e0a63 100644
--- a/mmrazor/engine/runner/autoslim_greedy_search_loop.py
+++ b/mmrazor/engine/runner/autoslim_greedy_search_loop.py
@@ -95,10 +95,8 @@ class AutoSlimGreedySearchLoop(TestLoop):
         if self.resume_from:
             self._resume()
 
-        for target in self.target_flops:
-            if self.resume_from and self.current_flops <= target:
-                continue
-
+        # one subnet per target, those searched before resuming are known
+        for target in self.target_flops[len(self.searched_subnet):]:
             if self.current_flops <= target:
                 self.searched_subnet.append(self.current_subnet)
                 self.searched_subnet_flops.append(self.current_flops)
-- 
2.43.0


From 8bf3261d6903e7b9256e9f7bccdaedc2e6db87f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:56 +0000
Subject: [PATCH 18/58] fix: two concatenations could get the same name while
 tracing and be merged

---
 mmrazor/models/task_modules/tracer/parsers.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/mmrazor/models/task_modules/tracer/parsers.py b/mmrazor/models/task_modules/tracer/parsers.py
index c342da7..b46fdcc 100644
--- a/mmrazor/models/task_modules/tracer/parsers.py
+++ b/mmrazor/models/task_modules/tracer/parsers.py
@@ -118,13 +118,11 @@ def parse_cat(tracer, grad_fn, module2name, param2module, cur_path,
         >>> # ``out`` is obtained by concatenating two tensors
     """
     parents = grad_fn.next_functions
-    concat_id = '_'.join([str(id(p)) for p in parents])
-    concat_id_list = [str(id(p)) for p in parents]
-    concat_id_list.sort()
-    concat_id = '_'.join(concat_id_list)
-    name = f'concat_{concat_id}'
+    name = f'concat_{id(grad_fn)}'
 
-    visited[name] = True
+    # Keep the grad_fn alive while tracing. Otherwise its id may be reused by
+    # another concat operation, which would then get the same name.
+    visited[name] = grad_fn
     sub_path_lists = list()
     for _, parent in enumerate(parents):
         sub_path_list = PathList()
-- 
2.43.0


From 5299c05089ff0da2e846ebce9f8827aa23d851c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:08 +0000
Subject: [PATCH 19/58] fix: the terms of a sum inside a concatenation became
 inputs of the concatenation

---
 mmrazor/structures/graph/module_graph.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/mmrazor/structures/graph/module_graph.py b/mmrazor/structures/graph/module_graph.py
index d907719..e0d8e7b 100644
--- a/mmrazor/structures/graph/module_graph.py
+++ b/mmrazor/structures/graph/module_graph.py
@@ -412,9 +412,19 @@ class PathToGraphConverter(GraphConverter):
             # cat node: [cat_path_lists]
             if isinstance(path_unit, PathConcatNode):
                 current_node = self._add_or_find_node(path_unit)
+                parsed = len(current_node.prev_nodes) > 0
                 self._connect_nexts(current_node, next_nodes)
                 for catpath in path_unit.path_lists:  # sibling
-                    self._parse_helper(catpath, [current_node])
+                    input_node = current_node
+                    roots = set(path[0] for path in catpath if len(path) > 0)
+                    if len(roots) > 1:
+                        # this input is the sum of several nodes
+                        if parsed:
+                            continue
+                        input_node = self._new_placeholder_node(
+                            'bind_placeholder')
+                        self._connect_nexts(input_node, [current_node])
+                    self._parse_helper(catpath, [input_node])
 
             # single node
             else:
-- 
2.43.0


From 32c062dff28a4ae1aa5e703d61704e4400e9f2b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:33 +0000
Subject: [PATCH 20/58] fix: inputs of a concatenation with a common source
 were merged into one

---
 mmrazor/structures/graph/module_graph.py | 32 ++++++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/mmrazor/structures/graph/module_graph.py b/mmrazor/structures/graph/module_graph.py
index e0d8e7b..363852c 100644
--- a/mmrazor/structures/graph/module_graph.py
+++ b/mmrazor/structures/graph/module_graph.py
@@ -414,16 +414,19 @@ class PathToGraphConverter(GraphConverter):
                 current_node = self._add_or_find_node(path_unit)
                 parsed = len(current_node.prev_nodes) > 0
                 self._connect_nexts(current_node, next_nodes)
+                all_roots = set()
                 for catpath in path_unit.path_lists:  # sibling
                     input_node = current_node
                     roots = set(path[0] for path in catpath if len(path) > 0)
-                    if len(roots) > 1:
-                        # this input is the sum of several nodes
+                    if len(roots) > 1 or roots & all_roots:
+                        # this input is the sum of several nodes, or comes
+                        # from a node that another input comes from, too
                         if parsed:
                             continue
                         input_node = self._new_placeholder_node(
                             'bind_placeholder')
                         self._connect_nexts(input_node, [current_node])
+                    all_roots |= roots
                     self._parse_helper(catpath, [input_node])
 
             # single node
@@ -515,3 +518,28 @@ class FxTracerToGraphConverter(GraphConverter):
         # copy_nodes and connect
         module_graph = ModuleGraph.copy_from(base_graph, self._node_converter)
         self.graph = module_graph
+        for node in base_graph:
+            if node.is_cat():
+                self._split_repeated_inputs(node)
+
+    def _split_repeated_inputs(self, fx_node: FxBaseNode):
+        """Add a pass node for each repeated input of a cat node, as there is
+        at most one edge between two nodes."""
+        args, kwargs = fx_node.val.args, fx_node.val.kwargs
+        tensors = args[0] if len(args) > 0 else kwargs['tensors']
+        if not isinstance(tensors, (list, tuple)):
+            return
+        cat_node = self.graph.nodes[fx_node.name]
+        names = [t.name for t in tensors if hasattr(t, 'name')]
+        if len(names) == len(cat_node.prev_nodes):
+            return
+        inputs: List[ModuleNode] = []
+        for name in names:
+            node = self.graph.nodes[name]
+            if node in inputs:
+                pass_node = self._new_placeholder_node('pass_placeholder')
+                self.graph.connect(node, pass_node)
+                self.graph.connect(pass_node, cat_node)
+                node = pass_node
+            inputs.append(node)
+        cat_node.prev_nodes = inputs
-- 
2.43.0


From 299eee754af57670948881570fe1965786d594dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:02 +0000
Subject: [PATCH 21/58] fix: count the bias of a transposed conv over height
 times width

---
 .../estimators/counters/op_counters/deconv_layer_counter.py     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmrazor/models/task_modules/estimators/counters/op_counters/deconv_layer_counter.py b/mmrazor/models/task_modules/estimators/counters/op_counters/deconv_layer_counter.py
index 0426fbb..646365a 100644
--- a/mmrazor/models/task_modules/estimators/counters/op_counters/deconv_layer_counter.py
+++ b/mmrazor/models/task_modules/estimators/counters/op_counters/deconv_layer_counter.py
@@ -32,7 +32,7 @@ class ConvTranspose2dCounter(BaseCounter):
         bias_flops = 0
         if module.bias is not None:
             output_height, output_width = output.shape[2:]
-            bias_flops = out_channels * batch_size * output_height * output_height  # noqa: E501
+            bias_flops = out_channels * batch_size * output_height * output_width  # noqa: E501
         overall_flops = overall_conv_flops + bias_flops
 
         module.__flops__ += int(overall_flops)
-- 
2.43.0


From f0b1ffe199d5dd029a99b2c6a7d7a934ad4e114d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:02 +0000
Subject: [PATCH 22/58] fix: count every image of the batch in UpsampleCounter

---
 .../estimators/counters/op_counters/upsample_layer_counter.py   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmrazor/models/task_modules/estimators/counters/op_counters/upsample_layer_counter.py b/mmrazor/models/task_modules/estimators/counters/op_counters/upsample_layer_counter.py
index 12958b6..30a0a9a 100644
--- a/mmrazor/models/task_modules/estimators/counters/op_counters/upsample_layer_counter.py
+++ b/mmrazor/models/task_modules/estimators/counters/op_counters/upsample_layer_counter.py
@@ -11,7 +11,7 @@ class UpsampleCounter(BaseCounter):
     @staticmethod
     def add_count_hook(module, input, output):
         """Calculate FLOPs and params based on the size of input & output."""
-        output_size = output[0]
+        output_size = output
         batch_size = output_size.shape[0]
         output_elements_count = batch_size
         for val in output_size.shape[1:]:
-- 
2.43.0


From a7e6b6071fcb9f2595701686e2d45a0c15953311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:02 +0000
Subject: [PATCH 23/58] fix: count a depth-wise dynamic conv with its active
 groups

---
 .../estimators/counters/op_counters/conv_layer_counter.py      | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mmrazor/models/task_modules/estimators/counters/op_counters/conv_layer_counter.py b/mmrazor/models/task_modules/estimators/counters/op_counters/conv_layer_counter.py
index d410e39..061ca22 100644
--- a/mmrazor/models/task_modules/estimators/counters/op_counters/conv_layer_counter.py
+++ b/mmrazor/models/task_modules/estimators/counters/op_counters/conv_layer_counter.py
@@ -93,6 +93,9 @@ class DynamicConv2dCounter(ConvCounter):
             in_channels = module.in_channels
 
         groups = module.groups
+        if groups == module.in_channels == module.out_channels:
+            # depth-wise conv: one group for each active channel
+            groups = in_channels
 
         filters_per_channel = out_channels / groups
         conv_per_position_flops = \
-- 
2.43.0


From 8a44ced082ef187dab1b3b83f276d05bc017d547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:02 +0000
Subject: [PATCH 24/58] fix: apply the estimator's own defaults when estimate
 gets no cfg

---
 .../task_modules/estimators/resource_estimator.py   | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/mmrazor/models/task_modules/estimators/resource_estimator.py b/mmrazor/models/task_modules/estimators/resource_estimator.py
index ac5292d..eedbe37 100644
--- a/mmrazor/models/task_modules/estimators/resource_estimator.py
+++ b/mmrazor/models/task_modules/estimators/resource_estimator.py
@@ -117,13 +117,12 @@ class ResourceEstimator(BaseEstimator):
         resource_metrics = dict()
         measure_latency = True if latency_cfg else False
 
-        if flops_params_cfg:
-            flops_params_cfg = {**self.flops_params_cfg, **flops_params_cfg}
-            self._check_flops_params_cfg(flops_params_cfg)
-            flops_params_cfg = self._set_default_resource_params(
-                flops_params_cfg)
-        else:
-            flops_params_cfg = self.flops_params_cfg
+        flops_params_cfg = {
+            **self.flops_params_cfg,
+            **(flops_params_cfg or dict())
+        }
+        self._check_flops_params_cfg(flops_params_cfg)
+        flops_params_cfg = self._set_default_resource_params(flops_params_cfg)
 
         if latency_cfg:
             latency_cfg = {**self.latency_cfg, **latency_cfg}
-- 
2.43.0


From 9fcd2250ec802c20ba6f52f64f53f82f1590fba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:02 +0000
Subject: [PATCH 25/58] fix: estimate_separation_modules keeps the configured
 cfg unchanged

---
 .../task_modules/estimators/resource_estimator.py   | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/mmrazor/models/task_modules/estimators/resource_estimator.py b/mmrazor/models/task_modules/estimators/resource_estimator.py
index eedbe37..55cef0b 100644
--- a/mmrazor/models/task_modules/estimators/resource_estimator.py
+++ b/mmrazor/models/task_modules/estimators/resource_estimator.py
@@ -161,13 +161,12 @@ class ResourceEstimator(BaseEstimator):
                 params results (string | float format) of each modules in the
                 ``flops_params_cfg['spec_modules']``.
         """
-        if flops_params_cfg:
-            flops_params_cfg = {**self.flops_params_cfg, **flops_params_cfg}
-            self._check_flops_params_cfg(flops_params_cfg)
-            flops_params_cfg = self._set_default_resource_params(
-                flops_params_cfg)
-        else:
-            flops_params_cfg = self.flops_params_cfg
+        flops_params_cfg = {
+            **self.flops_params_cfg,
+            **(flops_params_cfg or dict())
+        }
+        self._check_flops_params_cfg(flops_params_cfg)
+        flops_params_cfg = self._set_default_resource_params(flops_params_cfg)
         flops_params_cfg['seperate_return'] = True
 
         assert len(flops_params_cfg['spec_modules']), (
-- 
2.43.0


From cdf6dab35216b10913966bdd0db963ec59be8493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:12 +0000
Subject: [PATCH 26/58] fix: count the parameters of a module once however
 often it is called

---
 .../counters/op_counters/activation_layer_counter.py          | 2 +-
 .../estimators/counters/op_counters/conv_layer_counter.py     | 4 ++--
 .../estimators/counters/op_counters/deconv_layer_counter.py   | 2 +-
 .../estimators/counters/op_counters/linear_layer_counter.py   | 2 +-
 .../estimators/counters/op_counters/norm_layer_counter.py     | 4 ++--
 .../estimators/counters/op_counters/pooling_layer_counter.py  | 2 +-
 .../estimators/counters/op_counters/upsample_layer_counter.py | 2 +-
 7 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/mmrazor/models/task_modules/estimators/counters/op_counters/activation_layer_counter.py b/mmrazor/models/task_modules/estimators/counters/op_counters/activation_layer_counter.py
index e32aa55..8ebc76d 100644
--- a/mmrazor/models/task_modules/estimators/counters/op_counters/activation_layer_counter.py
+++ b/mmrazor/models/task_modules/estimators/counters/op_counters/activation_layer_counter.py
@@ -13,7 +13,7 @@ class ReLUCounter(BaseCounter):
         """Calculate FLOPs and params based on the size of input & output."""
         active_elements_count = output.numel()
         module.__flops__ += int(active_elements_count)
-        module.__params__ += get_model_parameters_number(module)
+        module.__params__ = get_model_parameters_number(module)
 
 
 @TASK_UTILS.register_module()
diff --git a/mmrazor/models/task_modules/estimators/counters/op_counters/conv_layer_counter.py b/mmrazor/models/task_modules/estimators/counters/op_counters/conv_layer_counter.py
index 061ca22..d132a1b 100644
--- a/mmrazor/models/task_modules/estimators/counters/op_counters/conv_layer_counter.py
+++ b/mmrazor/models/task_modules/estimators/counters/op_counters/conv_layer_counter.py
@@ -41,7 +41,7 @@ class ConvCounter(BaseCounter):
         overall_flops = overall_conv_flops + bias_flops
 
         module.__flops__ += overall_flops
-        module.__params__ += int(overall_params)
+        module.__params__ = int(overall_params)
 
 
 @TASK_UTILS.register_module()
@@ -115,4 +115,4 @@ class DynamicConv2dCounter(ConvCounter):
         overall_flops = overall_conv_flops + bias_flops
 
         module.__flops__ += overall_flops
-        module.__params__ += int(overall_params)
+        module.__params__ = int(overall_params)
diff --git a/mmrazor/models/task_modules/estimators/counters/op_counters/deconv_layer_counter.py b/mmrazor/models/task_modules/estimators/counters/op_counters/deconv_layer_counter.py
index 646365a..b7a7da9 100644
--- a/mmrazor/models/task_modules/estimators/counters/op_counters/deconv_layer_counter.py
+++ b/mmrazor/models/task_modules/estimators/counters/op_counters/deconv_layer_counter.py
@@ -36,4 +36,4 @@ class ConvTranspose2dCounter(BaseCounter):
         overall_flops = overall_conv_flops + bias_flops
 
         module.__flops__ += int(overall_flops)
-        module.__params__ += get_model_parameters_number(module)
+        module.__params__ = get_model_parameters_number(module)
diff --git a/mmrazor/models/task_modules/estimators/counters/op_counters/linear_layer_counter.py b/mmrazor/models/task_modules/estimators/counters/op_counters/linear_layer_counter.py
index 80c024c..87be9ec 100644
--- a/mmrazor/models/task_modules/estimators/counters/op_counters/linear_layer_counter.py
+++ b/mmrazor/models/task_modules/estimators/counters/op_counters/linear_layer_counter.py
@@ -17,7 +17,7 @@ class LinearCounter(BaseCounter):
         output_last_dim = output.shape[
             -1]  # pytorch checks dimensions, so here we don't care much
         module.__flops__ += int(np.prod(input.shape) * output_last_dim)
-        module.__params__ += get_model_parameters_number(module)
+        module.__params__ = get_model_parameters_number(module)
 
 
 @TASK_UTILS.register_module()
diff --git a/mmrazor/models/task_modules/estimators/counters/op_counters/norm_layer_counter.py b/mmrazor/models/task_modules/estimators/counters/op_counters/norm_layer_counter.py
index 54f3f26..7a706ea 100644
--- a/mmrazor/models/task_modules/estimators/counters/op_counters/norm_layer_counter.py
+++ b/mmrazor/models/task_modules/estimators/counters/op_counters/norm_layer_counter.py
@@ -17,7 +17,7 @@ class BNCounter(BaseCounter):
         if getattr(module, 'affine', False):
             batch_flops *= 2
         module.__flops__ += int(batch_flops)
-        module.__params__ += get_model_parameters_number(module)
+        module.__params__ = get_model_parameters_number(module)
 
 
 @TASK_UTILS.register_module()
@@ -88,4 +88,4 @@ class DMCPBatchNorm2dCounter(BNCounter):
             batch_flops *= 2
         num_features = module.mutable_attrs['num_features'].activated_channels
         module.__flops__ += batch_flops
-        module.__params__ += num_features * 2
+        module.__params__ = num_features * 2
diff --git a/mmrazor/models/task_modules/estimators/counters/op_counters/pooling_layer_counter.py b/mmrazor/models/task_modules/estimators/counters/op_counters/pooling_layer_counter.py
index 27d9b60..3758c84 100644
--- a/mmrazor/models/task_modules/estimators/counters/op_counters/pooling_layer_counter.py
+++ b/mmrazor/models/task_modules/estimators/counters/op_counters/pooling_layer_counter.py
@@ -14,7 +14,7 @@ class PoolCounter(BaseCounter):
         """Calculate FLOPs and params based on the size of input & output."""
         input = input[0]
         module.__flops__ += int(np.prod(input.shape))
-        module.__params__ += get_model_parameters_number(module)
+        module.__params__ = get_model_parameters_number(module)
 
 
 @TASK_UTILS.register_module()
diff --git a/mmrazor/models/task_modules/estimators/counters/op_counters/upsample_layer_counter.py b/mmrazor/models/task_modules/estimators/counters/op_counters/upsample_layer_counter.py
index 30a0a9a..6ee29d6 100644
--- a/mmrazor/models/task_modules/estimators/counters/op_counters/upsample_layer_counter.py
+++ b/mmrazor/models/task_modules/estimators/counters/op_counters/upsample_layer_counter.py
@@ -17,4 +17,4 @@ class UpsampleCounter(BaseCounter):
         for val in output_size.shape[1:]:
             output_elements_count *= val
         module.__flops__ += int(output_elements_count)
-        module.__params__ += get_model_parameters_number(module)
+        module.__params__ = get_model_parameters_number(module)
-- 
2.43.0


From 3b1c4c7c4654502949a065b1d299fe303b8a29ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:12 +0000
Subject: [PATCH 27/58] fix: managers leave their recorders and deliveries in
 reverse order

---
 mmrazor/models/task_modules/delivery/delivery_manager.py | 3 ++-
 mmrazor/models/task_modules/recorder/recorder_manager.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/mmrazor/models/task_modules/delivery/delivery_manager.py b/mmrazor/models/task_modules/delivery/delivery_manager.py
index 592d891..86d0b6b 100644
--- a/mmrazor/models/task_modules/delivery/delivery_manager.py
+++ b/mmrazor/models/task_modules/delivery/delivery_manager.py
@@ -109,5 +109,6 @@ class DistillDeliveryManager:
 
     def __exit__(self, exc_type, exc_value, traceback) -> None:
         """Exit the context manager."""
-        for delivery in self.deliveries.values():
+        # leave in reverse order: several deliveries may wrap one function
+        for delivery in reversed(list(self.deliveries.values())):
             delivery.__exit__(exc_type, exc_value, traceback)
diff --git a/mmrazor/models/task_modules/recorder/recorder_manager.py b/mmrazor/models/task_modules/recorder/recorder_manager.py
index 30fbbb3..73b9565 100644
--- a/mmrazor/models/task_modules/recorder/recorder_manager.py
+++ b/mmrazor/models/task_modules/recorder/recorder_manager.py
@@ -112,5 +112,6 @@ class RecorderManager:
 
     def __exit__(self, exc_type, exc_value, traceback):
         """Exit the context manager."""
-        for recorder in self.recorders.values():
+        # leave in reverse order: several recorders may wrap one function
+        for recorder in reversed(list(self.recorders.values())):
             recorder.__exit__(exc_type, exc_value, traceback)
-- 
2.43.0


From 4e70740ca2f81d73a11531bf4e912cfdba9a7b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:12 +0000
Subject: [PATCH 28/58] fix: method recorders and deliveries wrap the method as
 it is on entering

---
 .../models/task_modules/delivery/method_outputs_delivery.py   | 2 ++
 .../models/task_modules/recorder/method_outputs_recorder.py   | 4 +++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/mmrazor/models/task_modules/delivery/method_outputs_delivery.py b/mmrazor/models/task_modules/delivery/method_outputs_delivery.py
index fa9f6c4..355ae9e 100644
--- a/mmrazor/models/task_modules/delivery/method_outputs_delivery.py
+++ b/mmrazor/models/task_modules/delivery/method_outputs_delivery.py
@@ -125,6 +125,8 @@ class MethodOutputsDelivery(DistillDelivery):
 
         Wrap the origin method.
         """
+        # the method may be wrapped by another recorder or delivery by now
+        self.origin_method = getattr(self.imported_cls, self.method_name)
         wrapped_method = self.deliver_wrapper(self.origin_method)
         setattr(self.imported_cls, self.method_name, wrapped_method)
 
diff --git a/mmrazor/models/task_modules/recorder/method_outputs_recorder.py b/mmrazor/models/task_modules/recorder/method_outputs_recorder.py
index 6d3fb65..d476191 100644
--- a/mmrazor/models/task_modules/recorder/method_outputs_recorder.py
+++ b/mmrazor/models/task_modules/recorder/method_outputs_recorder.py
@@ -148,7 +148,9 @@ class MethodOutputsRecorder(BaseRecorder):
         super().__enter__()
 
         imported_cls = self.imported_class
-        origin_method = self.origin_method
+        # the method may be wrapped by another recorder or delivery by now
+        origin_method = getattr(imported_cls, self.method_name)
+        self.origin_method = origin_method
         # add record wrapper to origin method.
         record_method = self.method_record_wrapper(origin_method,
                                                    self.data_buffer)
-- 
2.43.0


From bde478c939406a245cc6590a80f2054ba9cd63aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:01 +0000
Subject: [PATCH 29/58] fix: choose the least important channel whatever its
 importance

GroupFisherChannelMutator.update_imp took the first unit when all
importances exceeded 1e5.
---
 mmrazor/implementations/pruning/group_fisher/mutator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmrazor/implementations/pruning/group_fisher/mutator.py b/mmrazor/implementations/pruning/group_fisher/mutator.py
index d9e521a..b7b7ff3 100644
--- a/mmrazor/implementations/pruning/group_fisher/mutator.py
+++ b/mmrazor/implementations/pruning/group_fisher/mutator.py
@@ -56,7 +56,7 @@ class GroupFisherChannelMutator(ChannelMutator[GroupFisherChannelUnit]):
     def try_prune(self) -> None:
         """Prune the channel with the minimum fisher unless it is the last
         channel of the current layer."""
-        min_imp = 1e5
+        min_imp = float('inf')
         min_unit = self.mutable_units[0]
         for unit in self.mutable_units:
             if unit.mutable_channel.activated_channels > 1:
-- 
2.43.0


From 1dedd2d2f5392da0a8c119f8f601f24f42e475eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:01 +0000
Subject: [PATCH 30/58] fix: keep the pruning schedule on the line for whole
 numbers of channels

(target - supernet) * (times / prune_times) fell below whole numbers, so
int() removed a channel too many, e.g. 26 to 1 in 25 steps.
---
 mmrazor/models/algorithms/pruning/ite_prune_algorithm.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/mmrazor/models/algorithms/pruning/ite_prune_algorithm.py b/mmrazor/models/algorithms/pruning/ite_prune_algorithm.py
index 937aaa1..dd55701 100644
--- a/mmrazor/models/algorithms/pruning/ite_prune_algorithm.py
+++ b/mmrazor/models/algorithms/pruning/ite_prune_algorithm.py
@@ -60,13 +60,14 @@ class ItePruneConfigManager:
         times = iteration // self.step_freq + 1
         assert times <= self.prune_times
         prune_current = {}
-        ratio = times / self.prune_times
-
         for key in self.target:
             if self.linear_schedule:
                 # TO DO: add scheduler for more pruning rate schedule
-                prune_current[key] = (self.target[key] - self.supernet[key]
-                                      ) * ratio + self.supernet[key]
+                # (multiplied first: a rounded ratio can end up below a
+                # whole number, which costs a channel)
+                prune_current[key] = (
+                    self.target[key] - self.supernet[key]
+                ) * times / self.prune_times + self.supernet[key]
             else:
                 prune_current[key] = self.target[key]
             if isinstance(self.supernet[key], int):
-- 
2.43.0


From 2bd6758ac02d8c901cd59aaacde52fb7f8784cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:04 +0000
Subject: [PATCH 31/58] fix: keep mode and batch count when converting dynamic
 batch norms

The static op of a batch norm in evaluation was in training mode, so it
normalised with the statistics of the batch.
---
 .../models/architectures/dynamic_ops/mixins/dynamic_mixins.py  | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mmrazor/models/architectures/dynamic_ops/mixins/dynamic_mixins.py b/mmrazor/models/architectures/dynamic_ops/mixins/dynamic_mixins.py
index 2a610e5..2331ad7 100644
--- a/mmrazor/models/architectures/dynamic_ops/mixins/dynamic_mixins.py
+++ b/mmrazor/models/architectures/dynamic_ops/mixins/dynamic_mixins.py
@@ -280,6 +280,9 @@ class DynamicBatchNormMixin(DynamicChannelMixin):
             static_bn.weight = nn.Parameter(weight)
         if bias is not None:
             static_bn.bias = nn.Parameter(bias)
+        if self.num_batches_tracked is not None:
+            static_bn.num_batches_tracked.copy_(self.num_batches_tracked)
+        static_bn.train(self.training)
 
         return static_bn
 
-- 
2.43.0


From 251852e2668ea653376ef680eac4ac1fe9033b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:04 +0000
Subject: [PATCH 32/58] fix: group-wise convs with a kernel smaller than the
 largest one

The weight was reshaped to the largest kernel size.
---
 .../architectures/dynamic_ops/mixins/dynamic_conv_mixins.py    | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mmrazor/models/architectures/dynamic_ops/mixins/dynamic_conv_mixins.py b/mmrazor/models/architectures/dynamic_ops/mixins/dynamic_conv_mixins.py
index cf63ec1..362aa98 100644
--- a/mmrazor/models/architectures/dynamic_ops/mixins/dynamic_conv_mixins.py
+++ b/mmrazor/models/architectures/dynamic_ops/mixins/dynamic_conv_mixins.py
@@ -186,10 +186,11 @@ class DynamicConvMixin(DynamicChannelMixin):
             mask = out_mask_.unsqueeze(-1) * in_mask_.unsqueeze(
                 -2)  # G out/G in/G
             mask = mask.flatten()
+            kernel_size = weight.shape[2:]
             weight = weight.flatten(0, 1)
             weight = weight[mask]
             weight = weight.reshape(
-                [self.groups * out_per_group, in_per_group, *self.kernel_size])
+                [self.groups * out_per_group, in_per_group, *kernel_size])
 
         bias = self.bias[out_mask] if self.bias is not None else None
         return weight, bias
-- 
2.43.0


From 747754a84242ca0e1a438346a113d198c4581488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:04 +0000
Subject: [PATCH 33/58] fix: keep max_relative_position when converting
 relative positions

---
 .../dynamic_ops/bricks/dynamic_relative_position.py             | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_relative_position.py b/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_relative_position.py
index 572880a..e66456e 100644
--- a/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_relative_position.py
+++ b/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_relative_position.py
@@ -82,7 +82,7 @@ class DynamicRelativePosition2D(RelativePosition2D, DynamicChannelMixin):
 
         self.current_head_dim = self.mutable_head_dims.activated_channels
         static_relative_position = self.static_op_factory(
-            self.current_head_dim)
+            self.current_head_dim, self.max_relative_position)
         static_relative_position.embeddings_table_v = \
             nn.Parameter(
                 self.embeddings_table_v[:, :self.current_head_dim].clone())
-- 
2.43.0


From cf9aaec822b3c9a2ce71c97d33b7311d5ffdd383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:04 +0000
Subject: [PATCH 34/58] fix: relative positions can be copied after a forward
 with gradients

export_fix_subnet and DumpSubnetHook deepcopy the model.
---
 .../dynamic_ops/bricks/dynamic_relative_position.py   | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_relative_position.py b/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_relative_position.py
index e66456e..e6e23a8 100644
--- a/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_relative_position.py
+++ b/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_relative_position.py
@@ -112,10 +112,9 @@ class DynamicRelativePosition2D(RelativePosition2D, DynamicChannelMixin):
         else:
             self.current_head_dim = self.mutable_head_dims.activated_channels
 
-        self.sample_eb_table_h = self.embeddings_table_h[:, :self.
-                                                         current_head_dim]
-        self.sample_eb_table_v = self.embeddings_table_v[:, :self.
-                                                         current_head_dim]
+        # not kept as attributes: tensors with a history can not be deepcopied
+        sample_eb_table_h = self.embeddings_table_h[:, :self.current_head_dim]
+        sample_eb_table_v = self.embeddings_table_v[:, :self.current_head_dim]
 
         # remove the first cls token distance computation
         length_q = length_q - 1
@@ -148,7 +147,7 @@ class DynamicRelativePosition2D(RelativePosition2D, DynamicChannelMixin):
         final_mat_h = torch.LongTensor(final_mat_h)
         # get the embeddings with the corresponding distance
 
-        embeddings = self.sample_eb_table_v[final_mat_v] + \
-            self.sample_eb_table_h[final_mat_h]
+        embeddings = sample_eb_table_v[final_mat_v] + \
+            sample_eb_table_h[final_mat_h]
 
         return embeddings
-- 
2.43.0


From e129e0ba8c2ac812bb918ed6946452904c657f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:45 +0000
Subject: [PATCH 35/58] fix: dynamic ops without mutables work like their
 static ops

Layer norm, sequential, relative position and attention raised KeyError in
forward (and to_static_op) as long as no mutable was registered.
---
 .../dynamic_ops/bricks/dynamic_container.py   |  8 +++----
 .../bricks/dynamic_multi_head_attention.py    | 21 +++++++++++--------
 .../dynamic_ops/bricks/dynamic_norm.py        |  5 +++--
 .../bricks/dynamic_relative_position.py       |  9 ++++----
 4 files changed, 24 insertions(+), 19 deletions(-)

diff --git a/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_container.py b/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_container.py
index 3696fe3..b8a8248 100644
--- a/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_container.py
+++ b/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_container.py
@@ -27,7 +27,7 @@ class DynamicSequential(Sequential, DynamicMixin):
     def mutable_depth(self):
         """Mutable depth."""
         assert hasattr(self, 'mutable_attrs')
-        return self.mutable_attrs['depth']
+        return getattr(self.mutable_attrs, 'depth', None)
 
     def register_mutable_attr(self: Sequential, attr: str,
                               mutable: BaseMutable):
@@ -79,9 +79,9 @@ class DynamicSequential(Sequential, DynamicMixin):
     def forward(self, x: Tensor) -> Tensor:
         """Forward of Dynamic Sequential."""
         if self.mutable_depth is None:
-            return self(x)
-
-        current_depth = self.get_current_choice(self.mutable_depth)
+            current_depth = self.pure_module_nums
+        else:
+            current_depth = self.get_current_choice(self.mutable_depth)
         passed_module_nums = 0
         for module in self.pure_modules():
             passed_module_nums += 1
diff --git a/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_multi_head_attention.py b/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_multi_head_attention.py
index 8dcd6de..7c9d567 100644
--- a/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_multi_head_attention.py
+++ b/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_multi_head_attention.py
@@ -60,19 +60,19 @@ class DynamicMultiheadAttention(MultiheadAttention, DynamicChannelMixin):
     def mutable_num_heads(self):
         """Mutable number of heads."""
         assert hasattr(self, 'mutable_attrs')
-        return self.mutable_attrs['num_heads']
+        return getattr(self.mutable_attrs, 'num_heads', None)
 
     @property
     def mutable_embed_dims(self):
         """Mutable embedding dimension."""
         assert hasattr(self, 'mutable_attrs')
-        return self.mutable_attrs['embed_dims']
+        return getattr(self.mutable_attrs, 'embed_dims', None)
 
     @property
     def mutable_q_embed_dims(self):
         """Mutable intermediate embedding dimension."""
         assert hasattr(self, 'mutable_attrs')
-        return self.mutable_attrs['q_embed_dims']
+        return getattr(self.mutable_attrs, 'q_embed_dims', None)
 
     def register_mutable_attr(self, attr: str, mutable: BaseMutable):
         """Register attribute of mutable."""
@@ -145,7 +145,7 @@ class DynamicMultiheadAttention(MultiheadAttention, DynamicChannelMixin):
         if self.mutable_q_embed_dims is not None:
             in_features = self.mutable_q_embed_dims.activated_channels
         else:
-            in_features = self.embed_dims
+            in_features = self.q_embed_dims
 
         if self.mutable_embed_dims is not None:
             out_features = self.mutable_embed_dims.activated_channels
@@ -177,7 +177,7 @@ class DynamicMultiheadAttention(MultiheadAttention, DynamicChannelMixin):
         if self.mutable_q_embed_dims is not None:
             out_features = self.mutable_q_embed_dims.activated_channels
         else:
-            out_features = self.mutable_q_embed_dims
+            out_features = self.q_embed_dims
 
         weight = w.weight[:out_features, :in_features]
         bias = w.bias[:out_features] if w.bias is not None else None
@@ -188,8 +188,10 @@ class DynamicMultiheadAttention(MultiheadAttention, DynamicChannelMixin):
         """Convert dynamic MultiheadAttention to static one."""
         self.check_if_mutables_fixed()
 
-        embed_dims = self.mutable_embed_dims.activated_channels
-        num_heads = self.mutable_num_heads.current_choice
+        embed_dims = self.embed_dims if self.mutable_embed_dims is None \
+            else self.mutable_embed_dims.activated_channels
+        num_heads = self.num_heads if self.mutable_num_heads is None \
+            else self.mutable_num_heads.current_choice
 
         q_w, q_b = self._get_dynamic_qkv_params(self.w_qs)
         k_w, k_b = self._get_dynamic_qkv_params(self.w_ks)
@@ -242,8 +244,9 @@ class DynamicMultiheadAttention(MultiheadAttention, DynamicChannelMixin):
         k_w, k_b = self._get_dynamic_qkv_params(self.w_ks)
         v_w, v_b = self._get_dynamic_qkv_params(self.w_vs)
 
-        q_embed_dims = self.mutable_q_embed_dims.activated_channels
-        num_heads = self.mutable_num_heads.current_choice
+        q_embed_dims = q_w.size(0)
+        num_heads = self.num_heads if self.mutable_num_heads is None \
+            else self.mutable_num_heads.current_choice
 
         q = F.linear(x, q_w, q_b).view(B, N, num_heads,
                                        q_embed_dims // num_heads)
diff --git a/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_norm.py b/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_norm.py
index eb5dd3b..fca0ae0 100644
--- a/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_norm.py
+++ b/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_norm.py
@@ -247,8 +247,9 @@ class DynamicLayerNorm(LayerNorm, DynamicLayerNormMixin):
         self._check_input_dim(input)
 
         weight, bias = self.get_dynamic_params()
-        self.normalized_shape = (
-            self.mutable_num_features.activated_channels, )
+        if 'num_features' in self.mutable_attrs:
+            self.normalized_shape = (
+                self.mutable_num_features.activated_channels, )
 
         return F.layer_norm(input, self.normalized_shape, weight, bias,
                             self.eps)
diff --git a/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_relative_position.py b/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_relative_position.py
index e6e23a8..5a4d759 100644
--- a/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_relative_position.py
+++ b/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_relative_position.py
@@ -43,7 +43,7 @@ class DynamicRelativePosition2D(RelativePosition2D, DynamicChannelMixin):
     def mutable_head_dims(self):
         """Mutable head dimension."""
         assert hasattr(self, 'mutable_attrs')
-        return self.mutable_attrs['head_dims']
+        return getattr(self.mutable_attrs, 'head_dims', None)
 
     def register_mutable_attr(self, attr: str, mutable: BaseMutable):
         """Register attribute of mutable."""
@@ -78,9 +78,10 @@ class DynamicRelativePosition2D(RelativePosition2D, DynamicChannelMixin):
     def to_static_op(self) -> nn.Module:
         """Convert dynamic RelativePosition2D to static One."""
         self.check_if_mutables_fixed()
-        assert self.mutable_head_dims is not None
-
-        self.current_head_dim = self.mutable_head_dims.activated_channels
+        if self.mutable_head_dims is None:
+            self.current_head_dim = self.head_dims
+        else:
+            self.current_head_dim = self.mutable_head_dims.activated_channels
         static_relative_position = self.static_op_factory(
             self.current_head_dim, self.max_relative_position)
         static_relative_position.embeddings_table_v = \
-- 
2.43.0


From 4c00b72c44368ad7c933f6b022a4c24ac90b6b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:45 +0000
Subject: [PATCH 36/58] fix: keep scale, biases, drop rates and mode when
 converting attention

to_static_op raised for qkv_bias=False and lost qk_scale; convert_from lost
every setting but the sizes.
---
 .../bricks/dynamic_multi_head_attention.py    | 36 +++++++++++--------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_multi_head_attention.py b/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_multi_head_attention.py
index 7c9d567..9c2100f 100644
--- a/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_multi_head_attention.py
+++ b/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_multi_head_attention.py
@@ -203,25 +203,27 @@ class DynamicMultiheadAttention(MultiheadAttention, DynamicChannelMixin):
             embed_dims=embed_dims,
             num_heads=num_heads,
             input_dims=None,
+            attn_drop_rate=self.attn_drop.p,
+            proj_drop_rate=self.proj_drop.p,
             relative_position=self.relative_position,
-            max_relative_position=self.max_relative_position)
-
-        static_mha.w_qs.weight = nn.Parameter(q_w.clone())
-        static_mha.w_qs.bias = nn.Parameter(q_b.clone())
-
-        static_mha.w_ks.weight = nn.Parameter(k_w.clone())
-        static_mha.w_ks.bias = nn.Parameter(k_b.clone())
-
-        static_mha.w_vs.weight = nn.Parameter(v_w.clone())
-        static_mha.w_vs.bias = nn.Parameter(v_b.clone())
-
-        static_mha.proj.weight = nn.Parameter(proj_w.clone())
-        static_mha.proj.bias = nn.Parameter(proj_b.clone())
+            max_relative_position=self.max_relative_position,
+            qkv_bias=q_b is not None,
+            qk_scale=self.scale,
+            proj_bias=proj_b is not None)
+
+        for static_m, weight, bias in ((static_mha.w_qs, q_w, q_b),
+                                       (static_mha.w_ks, k_w, k_b),
+                                       (static_mha.w_vs, v_w, v_b),
+                                       (static_mha.proj, proj_w, proj_b)):
+            static_m.weight = nn.Parameter(weight.clone())
+            if bias is not None:
+                static_m.bias = nn.Parameter(bias.clone())
 
         if self.relative_position:
             static_mha.rel_pos_embed_k = self.rel_pos_embed_k.to_static_op()
             static_mha.rel_pos_embed_v = self.rel_pos_embed_v.to_static_op()
 
+        static_mha.train(self.training)
         return static_mha
 
     @classmethod
@@ -230,7 +232,13 @@ class DynamicMultiheadAttention(MultiheadAttention, DynamicChannelMixin):
         dynamic_mha = cls(
             embed_dims=module.embed_dims,
             num_heads=module.num_heads,
-        )
+            attn_drop_rate=module.attn_drop.p,
+            proj_drop_rate=module.proj_drop.p,
+            relative_position=module.relative_position,
+            max_relative_position=module.max_relative_position,
+            qkv_bias=module.w_qs.bias is not None,
+            qk_scale=module.scale,
+            proj_bias=module.proj.bias is not None)
         return dynamic_mha
 
     def static_op_factory(self):
-- 
2.43.0


From 4cdef3551456157da7eab57c200ad6509d976b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:45 +0000
Subject: [PATCH 37/58] fix: patch embeddings with a projection other than
 16x16 on 3 channels

The forward always used stride 16 and to_static_op built the default
projection.
---
 .../dynamic_ops/bricks/dynamic_embed.py           | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_embed.py b/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_embed.py
index f255d24..862054b 100644
--- a/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_embed.py
+++ b/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_embed.py
@@ -106,11 +106,18 @@ class DynamicPatchEmbed(PatchEmbed, DynamicChannelMixin):
         weight, bias = self._get_dynamic_params()
         static_patch_embed = self.static_op_factory(
             img_size=self.img_size,
-            in_channels=3,
-            embed_dims=self.mutable_embed_dims.activated_channels)
+            in_channels=self.projection.in_channels,
+            embed_dims=self.mutable_embed_dims.activated_channels,
+            conv_cfg=dict(
+                kernel_size=self.projection.kernel_size,
+                stride=self.projection.stride,
+                padding=self.projection.padding,
+                dilation=self.projection.dilation,
+                bias=bias is not None))
 
         static_patch_embed.projection.weight = nn.Parameter(weight.clone())
-        static_patch_embed.projection.bias = nn.Parameter(bias.clone())
+        if bias is not None:
+            static_patch_embed.projection.bias = nn.Parameter(bias.clone())
 
         return static_patch_embed
 
@@ -144,7 +151,7 @@ class DynamicPatchEmbed(PatchEmbed, DynamicChannelMixin):
             x,
             weight,
             bias,
-            stride=16,
+            stride=self.projection.stride,
             padding=self.projection.padding,
             dilation=self.projection.dilation).flatten(2).transpose(1, 2)
 
-- 
2.43.0


From a2b908208a6e87b25ebda6b575d03f6c4425f6e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:45 +0000
Subject: [PATCH 38/58] fix: convert dynamic ops which are children of a
 dynamic op

The children of the replaced op were converted instead of the ones of the op
put in its place, e.g. the convs of a DynamicSequential stayed dynamic.
---
 mmrazor/structures/subnet/fix_subnet.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mmrazor/structures/subnet/fix_subnet.py b/mmrazor/structures/subnet/fix_subnet.py
index d8aa0c9..3d23f9a 100644
--- a/mmrazor/structures/subnet/fix_subnet.py
+++ b/mmrazor/structures/subnet/fix_subnet.py
@@ -17,7 +17,8 @@ def _dynamic_to_static(model: nn.Module) -> None:
     def traverse_children(module: nn.Module) -> None:
         for name, mutable in module.items():
             if isinstance(mutable, DynamicMixin):
-                module[name] = mutable.to_static_op()
+                mutable = mutable.to_static_op()
+                module[name] = mutable
             if hasattr(mutable, '_modules'):
                 traverse_children(mutable._modules)
 
-- 
2.43.0


From 996a1d14540f4604056e31560ddcc899faf1756e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:18 +0000
Subject: [PATCH 39/58] fix: group-wise convs whose input channels are not
 mutable

The mask of the input channels has to cover the channels of all groups;
the weight only has those of one group.
---
 .../architectures/dynamic_ops/mixins/dynamic_conv_mixins.py     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmrazor/models/architectures/dynamic_ops/mixins/dynamic_conv_mixins.py b/mmrazor/models/architectures/dynamic_ops/mixins/dynamic_conv_mixins.py
index 362aa98..357fdd8 100644
--- a/mmrazor/models/architectures/dynamic_ops/mixins/dynamic_conv_mixins.py
+++ b/mmrazor/models/architectures/dynamic_ops/mixins/dynamic_conv_mixins.py
@@ -161,7 +161,7 @@ class DynamicConvMixin(DynamicChannelMixin):
             mutable_in_channels = self.mutable_attrs['in_channels']
             in_mask = mutable_in_channels.current_mask.to(weight.device)
         else:
-            in_mask = torch.ones(weight.size(1)).bool().to(weight.device)
+            in_mask = torch.ones(self.in_channels).bool().to(weight.device)
 
         if 'out_channels' in self.mutable_attrs:
             mutable_out_channels = self.mutable_attrs['out_channels']
-- 
2.43.0


From 79526530274b88d0d46d1b8a355d934fa59a2e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:53 +0000
Subject: [PATCH 40/58] fix: DSNAS weights the gradients of arch params before
 they are used

handle_grads ran after the step of the optimizer, which had consumed and
cleared the gradients.
---
 mmrazor/models/algorithms/nas/dsnas.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/mmrazor/models/algorithms/nas/dsnas.py b/mmrazor/models/algorithms/nas/dsnas.py
index e5937ba..c82f321 100644
--- a/mmrazor/models/algorithms/nas/dsnas.py
+++ b/mmrazor/models/algorithms/nas/dsnas.py
@@ -159,10 +159,12 @@ class DSNAS(BaseAlgorithm):
                     mutator_loss = self.compute_mutator_loss()
                 mutator_losses, mutator_log_vars = \
                     self.parse_losses(mutator_loss)
-                optim_wrapper['mutator'].update_params(mutator_losses)
-                log_vars.update(add_prefix(mutator_log_vars, 'mutator'))
+                optim_wrapper['mutator'].backward(mutator_losses)
                 # handle the grad of arch params & weights
                 self.handle_grads()
+                optim_wrapper['mutator'].step()
+                optim_wrapper['mutator'].zero_grad()
+                log_vars.update(add_prefix(mutator_log_vars, 'mutator'))
 
         else:
             # Enable automatic mixed precision training context.
@@ -314,10 +316,12 @@ class DSNASDDP(MMDistributedDataParallel):
                     mutator_loss = self.module.compute_mutator_loss()
                 mutator_losses, mutator_log_vars = \
                     self.module.parse_losses(mutator_loss)
-                optim_wrapper['mutator'].update_params(mutator_losses)
-                log_vars.update(add_prefix(mutator_log_vars, 'mutator'))
+                optim_wrapper['mutator'].backward(mutator_losses)
                 # handle the grad of arch params & weights
                 self.module.handle_grads()
+                optim_wrapper['mutator'].step()
+                optim_wrapper['mutator'].zero_grad()
+                log_vars.update(add_prefix(mutator_log_vars, 'mutator'))
 
         else:
             # Enable automatic mixed precision training context.
-- 
2.43.0


From a1a26ba5650e55be2c68e86f862888b601ea302a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:53 +0000
Subject: [PATCH 41/58] fix: DSNAS starts fine-tuning without a process group

The broadcast of mmengine does nothing when training is not distributed.
---
 mmrazor/models/algorithms/nas/dsnas.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/mmrazor/models/algorithms/nas/dsnas.py b/mmrazor/models/algorithms/nas/dsnas.py
index c82f321..a72fe0c 100644
--- a/mmrazor/models/algorithms/nas/dsnas.py
+++ b/mmrazor/models/algorithms/nas/dsnas.py
@@ -4,9 +4,8 @@ import os
 from typing import Any, Dict, List, Optional, Union
 
 import torch
-import torch.distributed as dist
 import torch.nn.functional as F
-from mmengine.dist import get_dist_info
+from mmengine.dist import broadcast, get_dist_info
 from mmengine.logging import MessageHub
 from mmengine.model import BaseModel, MMDistributedDataParallel
 from mmengine.optim import OptimWrapper, OptimWrapperDict
@@ -133,7 +132,7 @@ class DSNAS(BaseAlgorithm):
             if cur_epoch == self.finetune_epochs and self.is_supernet:
                 # synchronize arch params to start the finetune stage.
                 for k, v in self.mutator.arch_params.items():
-                    dist.broadcast(v, src=0)
+                    broadcast(v, src=0)
                 self._fix_archtecture()
                 self.is_supernet = False
 
@@ -290,7 +289,7 @@ class DSNASDDP(MMDistributedDataParallel):
                self.module.is_supernet:
                 # synchronize arch params to start the finetune stage.
                 for k, v in self.module.mutator.arch_params.items():
-                    dist.broadcast(v, src=0)
+                    broadcast(v, src=0)
                 self.module._fix_archtecture()
                 self.module.is_supernet = False
 
-- 
2.43.0


From e5fccd6db1f9a774ff4edfc84ec5699b10b1ca5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:53 +0000
Subject: [PATCH 42/58] fix: BigNAS and DMCP take inputs and samples of a batch
 by name

The order and number of the fields of a batch depend on the data pipeline.
---
 mmrazor/models/algorithms/nas/bignas.py   | 10 ++++++----
 mmrazor/models/algorithms/pruning/dmcp.py | 10 ++++++----
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/mmrazor/models/algorithms/nas/bignas.py b/mmrazor/models/algorithms/nas/bignas.py
index bd3ec4e..8a2d3ca 100644
--- a/mmrazor/models/algorithms/nas/bignas.py
+++ b/mmrazor/models/algorithms/nas/bignas.py
@@ -130,8 +130,9 @@ class BigNAS(BaseAlgorithm):
                 accumulative_counts=len(self.sample_kinds))
             self._optim_wrapper_count_status_reinitialized = True
 
-        batch_inputs, data_samples = self.data_preprocessor(data,
-                                                            True).values()
+        input_data = self.data_preprocessor(data, True)
+        batch_inputs = input_data['inputs']
+        data_samples = input_data['data_samples']
 
         total_losses = dict()
         for kind in self.sample_kinds:
@@ -220,8 +221,9 @@ class BigNASDDP(MMDistributedDataParallel):
                 accumulative_counts=len(self.module.sample_kinds))
             self._optim_wrapper_count_status_reinitialized = True
 
-        batch_inputs, data_samples = self.module.data_preprocessor(
-            data, True).values()
+        input_data = self.module.data_preprocessor(data, True)
+        batch_inputs = input_data['inputs']
+        data_samples = input_data['data_samples']
 
         total_losses = dict()
         for kind in self.module.sample_kinds:
diff --git a/mmrazor/models/algorithms/pruning/dmcp.py b/mmrazor/models/algorithms/pruning/dmcp.py
index 043cf9a..91634be 100644
--- a/mmrazor/models/algorithms/pruning/dmcp.py
+++ b/mmrazor/models/algorithms/pruning/dmcp.py
@@ -133,8 +133,9 @@ class DMCP(BaseAlgorithm):
 
             return subnet_losses
 
-        batch_inputs, data_samples = self.data_preprocessor(data,
-                                                            True).values()
+        input_data = self.data_preprocessor(data, True)
+        batch_inputs = input_data['inputs']
+        data_samples = input_data['data_samples']
 
         total_losses = dict()
         # update model parameters
@@ -350,8 +351,9 @@ class DMCPDDP(MMDistributedDataParallel):
 
             return subnet_losses
 
-        batch_inputs, data_samples = self.module.data_preprocessor(
-            data, True).values()
+        input_data = self.module.data_preprocessor(data, True)
+        batch_inputs = input_data['inputs']
+        data_samples = input_data['data_samples']
 
         total_losses = dict()
         # update model parameters
-- 
2.43.0


From b2725cf8edd2ab38f7c4351051ac9b222d50c6ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:53 +0000
Subject: [PATCH 43/58] fix: log_l1 FLOPs loss of DMCP compares FLOPs with
 MFLOPs

The target is given in MFLOPs; it was never met, so FLOPs were always
pressed further down.
---
 mmrazor/models/algorithms/pruning/dmcp.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mmrazor/models/algorithms/pruning/dmcp.py b/mmrazor/models/algorithms/pruning/dmcp.py
index 91634be..4246458 100644
--- a/mmrazor/models/algorithms/pruning/dmcp.py
+++ b/mmrazor/models/algorithms/pruning/dmcp.py
@@ -270,10 +270,11 @@ class DMCP(BaseAlgorithm):
             else:
                 ratio = 1.0
             # piecewise log function
-            lower_flops = self.target_flops * 0.95
+            target_flops = self.target_flops * 1e6
+            lower_flops = target_flops * 0.95
             if expected_flops < lower_flops:
                 floss = torch.log(ratio * abs(flops_error))
-            elif (lower_flops <= expected_flops < self.target_flops):
+            elif (lower_flops <= expected_flops < target_flops):
                 floss = expected_flops * 0
             else:
                 floss = (
-- 
2.43.0


From b0493072e2dfff32ad8b4c2f5196b4f5e89b21a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:55 +0000
Subject: [PATCH 44/58] fix: DSNAS takes the resources of all candidates into
 account

Only the candidates sampled in one forward were counted, the FLOPs of the
others were taken to be zero.
---
 mmrazor/models/algorithms/nas/dsnas.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mmrazor/models/algorithms/nas/dsnas.py b/mmrazor/models/algorithms/nas/dsnas.py
index a72fe0c..6e28c44 100644
--- a/mmrazor/models/algorithms/nas/dsnas.py
+++ b/mmrazor/models/algorithms/nas/dsnas.py
@@ -76,9 +76,11 @@ class DSNAS(BaseAlgorithm):
         # Before using it, you must do some preparation according to
         # the supernet.
         self.mutator.prepare_from_supernet(self.architecture)
+        # NOTE: with arch params only the sampled candidates are run, whose
+        # resources alone would be counted.
+        self.mutable_module_resources = self._get_module_resources()
         self.mutator.prepare_arch_params()
 
-        self.mutable_module_resources = self._get_module_resources()
         self.search_space_name_list = list(self.mutator._name2mutable.keys())
 
         self.is_supernet = True
-- 
2.43.0


From 0190aba15ddf850c66de52dff521961d56889d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:39 +0000
Subject: [PATCH 45/58] fix: DSNAS weights arch params by the gradient of the
 supernet loss alone

The loss of the arch params themselves was differentiated by the sampled
weights, too, which added the inverse probability of the sample.
---
 mmrazor/models/algorithms/nas/dsnas.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mmrazor/models/algorithms/nas/dsnas.py b/mmrazor/models/algorithms/nas/dsnas.py
index 6e28c44..d69dad2 100644
--- a/mmrazor/models/algorithms/nas/dsnas.py
+++ b/mmrazor/models/algorithms/nas/dsnas.py
@@ -223,8 +223,9 @@ class DSNAS(BaseAlgorithm):
                 k = module.mutable_prefix + '_' + \
                     str(self.search_space_name_list.index(name))
                 probs = F.softmax(self.mutator.arch_params[k], -1)
+                # the gradient of arch weights is that of the supernet alone
                 arch_loss += torch.log(
-                    (module.arch_weights * probs).sum(-1)).sum()
+                    (module.arch_weights.detach() * probs).sum(-1)).sum()
 
                 # get the index of op with max arch weights.
                 index = (module.arch_weights == 1).nonzero().item()
-- 
2.43.0


From 4f8bc8eadadb91adb8aa2dbeb0f8847481ae3948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:47 +0000
Subject: [PATCH 46/58] fix: a mutable registered without an end takes a range
 for all its channels

---
 .../mutables/mutable_channel/mutable_channel_container.py      | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mmrazor/models/mutables/mutable_channel/mutable_channel_container.py b/mmrazor/models/mutables/mutable_channel/mutable_channel_container.py
index f9eeecc..04e7486 100644
--- a/mmrazor/models/mutables/mutable_channel/mutable_channel_container.py
+++ b/mmrazor/models/mutables/mutable_channel/mutable_channel_container.py
@@ -81,7 +81,8 @@ class MutableChannelContainer(BaseMutableChannel):
         """Register a BaseMutableChannel to a module with
         MutableChannelContainers."""
         if end == -1:
-            end = mutable.current_choice + start
+            # all channels of the mutable, however many are active now
+            end = mutable.current_mask.numel() + start
         if is_to_output_channel:
             container: MutableChannelContainer = module.get_mutable_attr(
                 'out_channels')
-- 
2.43.0


From a12c9dda9b1cedce80b3af24b063b61820fd8047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:53 +0000
Subject: [PATCH 47/58] fix: group fisher never takes a pruned channel for the
 least important one

---
 mmrazor/implementations/pruning/group_fisher/unit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmrazor/implementations/pruning/group_fisher/unit.py b/mmrazor/implementations/pruning/group_fisher/unit.py
index 1c9128b..2115b69 100644
--- a/mmrazor/implementations/pruning/group_fisher/unit.py
+++ b/mmrazor/implementations/pruning/group_fisher/unit.py
@@ -130,7 +130,7 @@ class GroupFisherChannelUnit(L1MutableChannelUnit):
         fisher = self.normalized_fisher_info.clone()
         mask = self.mutable_channel.current_mask
         n_mask = (1 - mask.float()).bool()
-        fisher.masked_fill_(n_mask, fisher.max() + 1)
+        fisher.masked_fill_(n_mask, float('inf'))
         return fisher
 
     def reset_fisher_info(self) -> None:
-- 
2.43.0


From fc4746e1d40df556b74a468b4d1347f3e5bf7ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:42 +0000
Subject: [PATCH 48/58] fix: Darts keeps the gradients of its losses apart and
 makes the virtual step

---
 mmrazor/models/algorithms/nas/darts.py | 93 +++++++++++++++-----------
 mmrazor/models/utils/__init__.py       |  5 +-
 mmrazor/models/utils/optim_wrapper.py  | 15 +++++
 3 files changed, 72 insertions(+), 41 deletions(-)

diff --git a/mmrazor/models/algorithms/nas/darts.py b/mmrazor/models/algorithms/nas/darts.py
index b110f47..340a873 100644
--- a/mmrazor/models/algorithms/nas/darts.py
+++ b/mmrazor/models/algorithms/nas/darts.py
@@ -10,13 +10,29 @@ from torch import nn
 from torch.nn.modules.batchnorm import _BatchNorm
 
 from mmrazor.models.mutators import NasMutator
-from mmrazor.models.utils import add_prefix
+from mmrazor.models.utils import add_prefix, keep_grads
 from mmrazor.registry import MODEL_WRAPPERS, MODELS
 from ..base import BaseAlgorithm
 
 VALID_MUTATOR_TYPE = Union[NasMutator, Dict]
 
 
+def compute_grads(loss: torch.Tensor, optim_wrapper: OptimWrapper,
+                  *modules: nn.Module) -> List[List[torch.Tensor]]:
+    """Compute the gradients of ``loss`` alone for parameters of modules."""
+    # Here we use the backward function of optimWrapper to calculate the
+    # gradients. For more information, please refer to
+    # https://github.com/open-mmlab/mmengine/blob/main/mmengine/optim/optimizer/optimizer_wrapper.py
+    for module in modules:
+        for param in module.parameters():
+            param.grad = None
+    optim_wrapper.backward(loss)
+    return [[
+        torch.zeros_like(param) if param.grad is None else param.grad
+        for param in module.parameters()
+    ] for module in modules]
+
+
 @MODELS.register_module()
 class Darts(BaseAlgorithm):
     """Implementation of `DARTS <https://arxiv.org/abs/1806.09055>`_
@@ -118,8 +134,9 @@ class Darts(BaseAlgorithm):
             if self.unroll:
                 with optim_wrapper['mutator'].optim_context(self):
                     optim_wrapper['mutator'].zero_grad()
-                    mutator_log_vars = self._unrolled_backward(
-                        mutator_data, supernet_data, optim_wrapper)
+                    with keep_grads(self.architecture):
+                        mutator_log_vars = self._unrolled_backward(
+                            mutator_data, supernet_data, optim_wrapper)
                 optim_wrapper['mutator'].step()
                 log_vars.update(add_prefix(mutator_log_vars, 'mutator'))
             else:
@@ -133,7 +150,8 @@ class Darts(BaseAlgorithm):
                         mode='loss')
                 mutator_losses, mutator_log_vars = self.parse_losses(
                     mutator_loss)
-                optim_wrapper['mutator'].update_params(mutator_losses)
+                with keep_grads(self.architecture):
+                    optim_wrapper['mutator'].update_params(mutator_losses)
                 log_vars.update(add_prefix(mutator_log_vars, 'mutator'))
 
             # Update the parameter of supernet
@@ -145,7 +163,8 @@ class Darts(BaseAlgorithm):
                     supernet_batch_inputs, supernet_data_samples, mode='loss')
             supernet_losses, supernet_log_vars = self.parse_losses(
                 supernet_loss)
-            optim_wrapper['architecture'].update_params(supernet_losses)
+            with keep_grads(self.mutator):
+                optim_wrapper['architecture'].update_params(supernet_losses)
             log_vars.update(add_prefix(supernet_log_vars, 'supernet'))
 
         else:
@@ -180,13 +199,9 @@ class Darts(BaseAlgorithm):
             mutator_batch_inputs, mutator_data_samples, mode='loss')
         mutator_losses, mutator_log_vars = self.parse_losses(mutator_loss)
 
-        # Here we use the backward function of optimWrapper to calculate
-        # the gradients of mutator loss. The gradients of model and arch
-        # can directly obtained. For more information, please refer to
-        # https://github.com/open-mmlab/mmengine/blob/main/mmengine/optim/optimizer/optimizer_wrapper.py
-        optim_wrapper['mutator'].backward(mutator_losses)
-        d_model = [param.grad for param in self.architecture.parameters()]
-        d_arch = [param.grad for param in self.mutator.parameters()]
+        d_model, d_arch = compute_grads(mutator_losses,
+                                        optim_wrapper['mutator'],
+                                        self.architecture, self.mutator)
 
         # compute hessian and final gradients
         hessian = self._compute_hessian(backup_params, d_model, supernet_data,
@@ -214,13 +229,14 @@ class Darts(BaseAlgorithm):
             supernet_batch_inputs, supernet_data_samples, mode='loss')
         supernet_loss, _ = self.parse_losses(supernet_loss)
 
-        optim_wrapper.backward(supernet_loss)
-        gradients = [param.grad for param in self.architecture.parameters()]
+        gradients, = compute_grads(supernet_loss, optim_wrapper,
+                                   self.architecture)
 
         with torch.no_grad():
             for w, g in zip(self.architecture.parameters(), gradients):
-                m = optim_wrapper.optimizer.state[w].get('momentum_buffer', 0.)
-                w = w - lr * (momentum * m + g + weight_decay * w)
+                m = optim_wrapper.optimizer.state[w].get('momentum_buffer')
+                m = 0. if m is None else m
+                w -= lr * (momentum * m + g + weight_decay * w)
 
     def _restore_weights(self, backup_params):
         """restore weight from backup params."""
@@ -261,8 +277,8 @@ class Darts(BaseAlgorithm):
                 supernet_batch_inputs, supernet_data_samples, mode='loss')
             supernet_loss, _ = self.parse_losses(supernet_loss)
 
-            optim_wrapper.backward(supernet_loss)
-            dalpha = [param.grad for param in self.mutator.parameters()]
+            _, dalpha = compute_grads(supernet_loss, optim_wrapper,
+                                      self.architecture, self.mutator)
             dalphas.append(dalpha)
 
         # dalpha { L_trn(w+) }, # dalpha { L_trn(w-) }
@@ -357,8 +373,9 @@ class DartsDDP(MMDistributedDataParallel):
             if self.module.unroll:
                 with optim_wrapper['mutator'].optim_context(self):
                     optim_wrapper['mutator'].zero_grad()
-                    mutator_log_vars = self._unrolled_backward(
-                        mutator_data, supernet_data, optim_wrapper)
+                    with keep_grads(self.module.architecture):
+                        mutator_log_vars = self._unrolled_backward(
+                            mutator_data, supernet_data, optim_wrapper)
                 optim_wrapper['mutator'].step()
                 log_vars.update(add_prefix(mutator_log_vars, 'mutator'))
             else:
@@ -374,7 +391,8 @@ class DartsDDP(MMDistributedDataParallel):
 
                     mutator_losses, mutator_log_vars = self.module.parse_losses(  # noqa: E501
                         mutator_loss)
-                    optim_wrapper['mutator'].update_params(mutator_losses)
+                    with keep_grads(self.module.architecture):
+                        optim_wrapper['mutator'].update_params(mutator_losses)
                     log_vars.update(add_prefix(mutator_log_vars, 'mutator'))
 
             # Update the parameter of supernet
@@ -389,7 +407,9 @@ class DartsDDP(MMDistributedDataParallel):
                 supernet_losses, supernet_log_vars = self.module.parse_losses(
                     supernet_loss)
 
-                optim_wrapper['architecture'].update_params(supernet_losses)
+                with keep_grads(self.module.mutator):
+                    optim_wrapper['architecture'].update_params(
+                        supernet_losses)
                 log_vars.update(add_prefix(supernet_log_vars, 'supernet'))
 
         else:
@@ -427,15 +447,10 @@ class DartsDDP(MMDistributedDataParallel):
         mutator_losses, mutator_log_vars = self.module.parse_losses(
             mutator_loss)
 
-        # Here we use the backward function of optimWrapper to calculate
-        # the gradients of mutator loss. The gradients of model and arch
-        # can directly obtained. For more information, please refer to
-        # https://github.com/open-mmlab/mmengine/blob/main/mmengine/optim/optimizer/optimizer_wrapper.py
-        optim_wrapper['mutator'].backward(mutator_losses)
-        d_model = [
-            param.grad for param in self.module.architecture.parameters()
-        ]
-        d_arch = [param.grad for param in self.module.mutator.parameters()]
+        d_model, d_arch = compute_grads(mutator_losses,
+                                        optim_wrapper['mutator'],
+                                        self.module.architecture,
+                                        self.module.mutator)
 
         # compute hessian and final gradients
         hessian = self._compute_hessian(backup_params, d_model, supernet_data,
@@ -463,15 +478,14 @@ class DartsDDP(MMDistributedDataParallel):
             supernet_batch_inputs, supernet_data_samples, mode='loss')
         supernet_loss, _ = self.module.parse_losses(supernet_loss)
 
-        optim_wrapper.backward(supernet_loss)
-        gradients = [
-            param.grad for param in self.module.architecture.parameters()
-        ]
+        gradients, = compute_grads(supernet_loss, optim_wrapper,
+                                   self.module.architecture)
 
         with torch.no_grad():
             for w, g in zip(self.module.architecture.parameters(), gradients):
-                m = optim_wrapper.optimizer.state[w].get('momentum_buffer', 0.)
-                w = w - lr * (momentum * m + g + weight_decay * w)
+                m = optim_wrapper.optimizer.state[w].get('momentum_buffer')
+                m = 0. if m is None else m
+                w -= lr * (momentum * m + g + weight_decay * w)
 
     def _restore_weights(self, backup_params):
         """restore weight from backup params."""
@@ -512,8 +526,9 @@ class DartsDDP(MMDistributedDataParallel):
                 supernet_batch_inputs, supernet_data_samples, mode='loss')
             supernet_loss, _ = self.module.parse_losses(supernet_loss)
 
-            optim_wrapper.backward(supernet_loss)
-            dalpha = [param.grad for param in self.module.mutator.parameters()]
+            _, dalpha = compute_grads(supernet_loss, optim_wrapper,
+                                      self.module.architecture,
+                                      self.module.mutator)
             dalphas.append(dalpha)
 
         # dalpha { L_trn(w+) }, # dalpha { L_trn(w-) }
diff --git a/mmrazor/models/utils/__init__.py b/mmrazor/models/utils/__init__.py
index e3be949..2c8faae 100644
--- a/mmrazor/models/utils/__init__.py
+++ b/mmrazor/models/utils/__init__.py
@@ -1,7 +1,8 @@
 # Copyright (c) OpenMMLab. All rights reserved.
 from .make_divisible import make_divisible
 from .misc import add_prefix
-from .optim_wrapper import reinitialize_optim_wrapper_count_status
+from .optim_wrapper import (keep_grads,
+                            reinitialize_optim_wrapper_count_status)
 from .parse_values import parse_values
 from .quantization_util import pop_rewriter_function_record, str2class
 from .utils import get_module_device, set_requires_grad
@@ -9,5 +10,5 @@ from .utils import get_module_device, set_requires_grad
 __all__ = [
     'make_divisible', 'add_prefix', 'reinitialize_optim_wrapper_count_status',
     'str2class', 'get_module_device', 'set_requires_grad', 'parse_values',
-    'pop_rewriter_function_record'
+    'pop_rewriter_function_record', 'keep_grads'
 ]
diff --git a/mmrazor/models/utils/optim_wrapper.py b/mmrazor/models/utils/optim_wrapper.py
index 753f3bd..3ff4eef 100644
--- a/mmrazor/models/utils/optim_wrapper.py
+++ b/mmrazor/models/utils/optim_wrapper.py
@@ -1,4 +1,6 @@
 # Copyright (c) OpenMMLab. All rights reserved.
+from contextlib import contextmanager
+
 from mmengine.logging import MMLogger
 from mmengine.optim import OptimWrapper
 from torch.nn import Module
@@ -27,3 +29,16 @@ def reinitialize_optim_wrapper_count_status(model: Module,
 
     optim_wrapper.initialize_count_status(
         model=model, init_counts=new_init_iters, max_counts=new_max_iters)
+
+
+@contextmanager
+def keep_grads(module: Module):
+    """Keep the gradients of ``module`` out of a backward of another loss."""
+    grads = [(param, param.grad) for param in module.parameters()]
+    for param, _ in grads:
+        param.grad = None
+    try:
+        yield
+    finally:
+        for param, grad in grads:
+            param.grad = grad
-- 
2.43.0


From cae465f939680550d9f400c91a584d8e0b66fe03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:42 +0000
Subject: [PATCH 49/58] fix: the loss of DMCP's arch params does not train the
 weights

---
 mmrazor/models/algorithms/pruning/dmcp.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mmrazor/models/algorithms/pruning/dmcp.py b/mmrazor/models/algorithms/pruning/dmcp.py
index 4246458..f9cd2b7 100644
--- a/mmrazor/models/algorithms/pruning/dmcp.py
+++ b/mmrazor/models/algorithms/pruning/dmcp.py
@@ -12,7 +12,7 @@ from torch import nn
 
 from mmrazor.models.distillers import ConfigurableDistiller
 from mmrazor.models.mutators import ChannelMutator, DMCPChannelMutator
-from mmrazor.models.utils import add_prefix
+from mmrazor.models.utils import add_prefix, keep_grads
 from mmrazor.registry import MODEL_WRAPPERS, MODELS
 from ...task_modules.estimators import ResourceEstimator
 from ..base import BaseAlgorithm
@@ -230,7 +230,8 @@ class DMCP(BaseAlgorithm):
         with optim_wrapper['mutator'].optim_context(self):
             arch_loss = self(inputs, data_samples, mode=mode)
         parsed_arch_loss, _ = self.parse_losses(arch_loss)
-        optim_wrapper['mutator'].update_params(parsed_arch_loss)
+        with keep_grads(self.architecture):
+            optim_wrapper['mutator'].update_params(parsed_arch_loss)
         arch_params_loss.update(add_prefix(arch_loss, 'arch'))
 
         # update flops_loss
-- 
2.43.0


From f9af8834cca8243d3b9cb54fcdc72083c0896174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:30 +0000
Subject: [PATCH 50/58] fix: DMCP's inverted_log_l1 loss is a number below the
 target, too

---
 mmrazor/models/algorithms/pruning/dmcp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmrazor/models/algorithms/pruning/dmcp.py b/mmrazor/models/algorithms/pruning/dmcp.py
index f9cd2b7..2d0a9cf 100644
--- a/mmrazor/models/algorithms/pruning/dmcp.py
+++ b/mmrazor/models/algorithms/pruning/dmcp.py
@@ -264,7 +264,7 @@ class DMCP(BaseAlgorithm):
         if self.flops_loss_type == 'l2':
             floss = torch.pow(flops_error, 2)
         elif self.flops_loss_type == 'inverted_log_l1':
-            floss = -torch.log(1 / (flops_error + 1e-5))
+            floss = -torch.log(1 / (abs(flops_error) + 1e-5))
         elif self.flops_loss_type == 'log_l1':
             if abs(flops_error) > 200:
                 ratio = 0.1
-- 
2.43.0


From 9fba591d50a99f3da21ce796ca162f0c879eafeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:51 +0000
Subject: [PATCH 51/58] fix: Darts' iteration loop starts its loaders over once
 they are exhausted

---
 mmrazor/engine/runner/darts_loop.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mmrazor/engine/runner/darts_loop.py b/mmrazor/engine/runner/darts_loop.py
index 65e4611..d7f2bdf 100644
--- a/mmrazor/engine/runner/darts_loop.py
+++ b/mmrazor/engine/runner/darts_loop.py
@@ -171,7 +171,9 @@ class IterMultiLoader:
             for loader in self._dataloaders:
                 if hasattr(loader.sampler, 'set_epoch'):
                     loader.sampler.set_epoch(self._epoch)
-            self.iter_loader = [iter(loader) for loader in self._dataloaders]
+            self.iter_loaders = [
+                iter(loader) for loader in self._dataloaders
+            ]
             data = tuple([next(loader) for loader in self.iter_loaders])
 
         return data
-- 
2.43.0


From 97117b1c02298dd361c1b2256b96b30f261a775a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:51 +0000
Subject: [PATCH 52/58] fix: calibrating batch norms counts and cuts the
 samples of a dict, not its keys

---
 mmrazor/engine/runner/utils/calibrate_bn_mixin.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/mmrazor/engine/runner/utils/calibrate_bn_mixin.py b/mmrazor/engine/runner/utils/calibrate_bn_mixin.py
index 3e0fe49..ab4b084 100644
--- a/mmrazor/engine/runner/utils/calibrate_bn_mixin.py
+++ b/mmrazor/engine/runner/utils/calibrate_bn_mixin.py
@@ -76,11 +76,16 @@ class CalibrateBNMixin:
             f'Total sample number for calibration: {calibrate_sample_num}')
         remaining = calibrate_sample_num
         for data_batch in dataloader:
-            if len(data_batch) >= remaining:
-                data_batch = data_batch[:remaining]
             if isinstance(data_batch, torch.Tensor):
+                data_batch = data_batch[:remaining]
                 data_batch_nums = len(data_batch)
             else:
+                # a dict has as many samples as it has inputs
+                if len(data_batch['inputs']) > remaining:
+                    data_batch = {
+                        key: value[:remaining]
+                        for key, value in data_batch.items()
+                    }
                 data_batch_nums = len(data_batch['inputs'])
             if dist.is_initialized() and dist.is_available():
                 data_batch_tensor = torch.tensor(
-- 
2.43.0


From 3d0c949767d409303d10544f92b0deab8f51f1bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:27 +0000
Subject: [PATCH 53/58] fix: calibrated statistics go to the chosen channels of
 a batch norm

---
 mmrazor/engine/runner/utils/calibrate_bn_mixin.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/mmrazor/engine/runner/utils/calibrate_bn_mixin.py b/mmrazor/engine/runner/utils/calibrate_bn_mixin.py
index ab4b084..36d4e3d 100644
--- a/mmrazor/engine/runner/utils/calibrate_bn_mixin.py
+++ b/mmrazor/engine/runner/utils/calibrate_bn_mixin.py
@@ -8,6 +8,8 @@ from torch import Tensor
 from torch.nn.modules.batchnorm import _BatchNorm
 from torch.utils.data import DataLoader
 
+from mmrazor.models.architectures.dynamic_ops import DynamicBatchNormMixin
+
 
 class AverageMeter:
     """Computes and stores the average and current value."""
@@ -134,8 +136,11 @@ class CalibrateBNMixin:
                     'l2 norm of original running var: '
                     f'{module.running_var[:feature_dim].norm()}, ')
 
-                module.running_mean[:feature_dim].copy_(calibrated_bn_mean)
-                module.running_var[:feature_dim].copy_(calibrated_bn_var)
+                # the chosen channels need not be the leading ones
+                chosen = module._get_num_features_mask() if isinstance(
+                    module, DynamicBatchNormMixin) else slice(feature_dim)
+                module.running_mean[chosen] = calibrated_bn_mean
+                module.running_var[chosen] = calibrated_bn_var
 
                 del module.__mean_average_meter__
                 del module.__var_average_meter__
-- 
2.43.0


From a5aeb7643cc245e170030a55fa7a587a052737c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:27 +0000
Subject: [PATCH 54/58] fix: batch norms of inputs with 2, 3 or 5 dims can be
 calibrated

---
 mmrazor/engine/runner/utils/calibrate_bn_mixin.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mmrazor/engine/runner/utils/calibrate_bn_mixin.py b/mmrazor/engine/runner/utils/calibrate_bn_mixin.py
index 36d4e3d..56f1be3 100644
--- a/mmrazor/engine/runner/utils/calibrate_bn_mixin.py
+++ b/mmrazor/engine/runner/utils/calibrate_bn_mixin.py
@@ -53,8 +53,10 @@ class CalibrateBNMixin:
             var_average_meter: AverageMeter = bn_module.__var_average_meter__
 
             real_input = input[0]
-            mean = real_input.mean((0, 2, 3))
-            var = real_input.var((0, 2, 3), unbiased=True)
+            # all dims but that of the channels
+            dims = [d for d in range(real_input.dim()) if d != 1]
+            mean = real_input.mean(dims)
+            var = real_input.var(dims, unbiased=True)
 
             mean_average_meter.update(mean, real_input.size(0))
             var_average_meter.update(var, real_input.size(0))
-- 
2.43.0


From 12c102ddfcfcbcb3b2ef0ceb967a43959f069a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:17 +0000
Subject: [PATCH 55/58] fix: DKDLoss reduces as its reduction says

---
 mmrazor/models/losses/decoupled_kd.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mmrazor/models/losses/decoupled_kd.py b/mmrazor/models/losses/decoupled_kd.py
index 2aeff6a..bd48104 100644
--- a/mmrazor/models/losses/decoupled_kd.py
+++ b/mmrazor/models/losses/decoupled_kd.py
@@ -105,8 +105,7 @@ class DKDLoss(nn.Module):
     ) -> torch.Tensor:
         """Calculate the KL Divergence."""
         kl_loss = F.kl_div(
-            preds_S, preds_T, size_average=False,
-            reduction=self.reduction) * self.tau**2
+            preds_S, preds_T, reduction=self.reduction) * self.tau**2
         return kl_loss
 
     def _cat_mask(
-- 
2.43.0


From f908b747cd262cf34cc359427732e7df0f9311f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:17 +0000
Subject: [PATCH 56/58] fix: PKDLoss resizes maps that differ in width only,
 too

---
 mmrazor/models/losses/pkd_loss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmrazor/models/losses/pkd_loss.py b/mmrazor/models/losses/pkd_loss.py
index febc05c..5254021 100644
--- a/mmrazor/models/losses/pkd_loss.py
+++ b/mmrazor/models/losses/pkd_loss.py
@@ -65,7 +65,7 @@ class PKDLoss(nn.Module):
 
         for pred_S, pred_T in zip(preds_S, preds_T):
             size_S, size_T = pred_S.shape[2:], pred_T.shape[2:]
-            if size_S[0] != size_T[0]:
+            if size_S != size_T:
                 if self.resize_stu:
                     pred_S = F.interpolate(pred_S, size_T, mode='bilinear')
                 else:
-- 
2.43.0


From 54e6ad3f8a7e321e8a8dd2feac68db0e3f4d9d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:17 +0000
Subject: [PATCH 57/58] fix: CRDLoss is weighted by its loss_weight

---
 mmrazor/models/losses/crd_loss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmrazor/models/losses/crd_loss.py b/mmrazor/models/losses/crd_loss.py
index 4ca81aa..f99db84 100644
--- a/mmrazor/models/losses/crd_loss.py
+++ b/mmrazor/models/losses/crd_loss.py
@@ -62,7 +62,7 @@ class CRDLoss(nn.Module):
         s_loss = self.criterion_s_t(out_s)
         t_loss = self.criterion_s_t(out_t)
         loss = s_loss + t_loss
-        return loss
+        return self.loss_weight * loss
 
 
 class ContrastLoss(nn.Module):
-- 
2.43.0


From e2da67ca55eb22763e845316592d5118d17fa8ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:46 +0000
Subject: [PATCH 58/58] fix: data-free distillation does not train the student
 with the generator's loss

---
 .../configurable/datafree_distillation.py     | 22 +++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/mmrazor/models/algorithms/distill/configurable/datafree_distillation.py b/mmrazor/models/algorithms/distill/configurable/datafree_distillation.py
index 1aff807..d09d4f7 100644
--- a/mmrazor/models/algorithms/distill/configurable/datafree_distillation.py
+++ b/mmrazor/models/algorithms/distill/configurable/datafree_distillation.py
@@ -166,11 +166,29 @@ class DataFreeDistillation(BaseAlgorithm):
             loss_generator = self.generator_distiller.compute_distill_losses()
 
         generator_loss, generator_loss_vars = self.parse_losses(loss_generator)
-        optimizer.update_params(generator_loss)
+        self._update_generator(generator_loss, optimizer)
         log_vars = dict(add_prefix(generator_loss_vars, 'generator'))
 
         return generator_loss, log_vars
 
+    def _update_generator(self, generator_loss: torch.Tensor,
+                          optimizer: OPTIMIZERS) -> None:
+        """Update the generator.
+
+        The loss of the generator also has gradients with respect to the
+        student it runs through. The student should not be updated with them.
+
+        Args:
+            generator_loss (torch.Tensor): The loss of the generator.
+            optimizer (OPTIMIZERS): The optimizer to update generator.
+        """
+        student_grads = [(p, p.grad) for p in self.student.parameters()]
+        for p, _ in student_grads:
+            p.grad = None
+        optimizer.update_params(generator_loss)
+        for p, grad in student_grads:
+            p.grad = grad
+
 
 @MODELS.register_module()
 class DAFLDataFreeDistillation(DataFreeDistillation):
@@ -223,7 +241,7 @@ class DAFLDataFreeDistillation(DataFreeDistillation):
         distill_loss, distill_log_vars = self.parse_losses(loss_distill)
         log_vars.update(add_prefix(distill_log_vars, 'distill'))
 
-        optim_wrapper['generator'].update_params(generator_loss)
+        self._update_generator(generator_loss, optim_wrapper['generator'])
         optim_wrapper['architecture'].update_params(distill_loss)
 
         return log_vars
-- 
2.43.0

