NOTES = ('Every check imports mmrazor from /repo\'s working tree at run time '
         '(nothing is cached); see DESIGN.md.')
PROPS = []


def prop(id, title, statement, over, quant, why, files, mechanism, note,
         na=None, level='proof'):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over,
                      quant=quant, why=why, files=files, mechanism=mechanism,
                      note=note, na=na, level=level))


prop('C01', 'A requested channel width is honoured exactly',
     'Setting a channel choice by number or ratio on a channel mutable or '
     'channel unit activates exactly that many leading channels (rounded to '
     'the divisor and clipped to the width where a divisor is configured), '
     'and reading the choice back and setting it again changes nothing. '
     'Rounding to a divisor gives a multiple that is at least the divisor and '
     'the minimum, not below the allowed ratio, less than one divisor above, '
     'and leaves multiples alone. Choices outside the candidates are refused '
     'and leave the width unchanged, sampled choices are legal and applied '
     'as sampled.',
     ['inputs', 'histories'],
     'all channel counts, divisors, ratios and numbers up to 2^30..2^40, all '
     'candidate lists',
     'tests use a handful of widths (8, 16, 32) and ratios; rounding and '
     'round-trip errors appear only at particular combinations',
     ['mmrazor/models/utils/make_divisible.py',
      'mmrazor/models/mutables/mutable_channel/sequential_mutable_channel.py',
      'mmrazor/models/mutables/mutable_channel/oneshot_mutable_channel.py',
      'mmrazor/models/mutables/mutable_channel/units/'
      'sequential_mutable_channel_unit.py',
      'mmrazor/models/mutables/mutable_channel/units/'
      'one_shot_mutable_channel_unit.py',
     'mmrazor/models/mutables/mutable_channel/units/'
     'l1_mutable_channel_unit.py'],
     'integer/ratio conversion, divisor rounding and mask construction',
     'every contract discharged for all sizes up to 2^30; of L1 units with '
     'any norms (the norms themselves: C12)')


prop('C02', 'A derived choice always reflects its sources',
     'The current choice and mask of a mutable derived from others (same, '
     'expand, divide, concatenate, value times or divided by a number) are '
     'at every moment the stated function of the current choices of its '
     'sources, whichever way the derivation was written and in whatever '
     'order the sources change: expansion by r activates k*r of n*r '
     'channels, division activates the divisible quotient, concatenation '
     'lines up the sources\' masks. A derived mutable names all its sources '
     'and its choice cannot be set by hand.',
     ['inputs', 'histories'],
     'all channel counts and choices up to 2^20, ratios up to 2^10 (integer) '
     'and in [1/8, 8] (float), any two consecutive source changes',
     'tests check one or two derivations at one choice; a stale or '
     'mis-sized derived mask shows at particular ratios and after changes',
     ['mmrazor/models/mutables/derived_mutable.py',
      'mmrazor/models/mutables/mutable_channel/sequential_mutable_channel.py',
      'mmrazor/models/mutables/mutable_value/mutable_value.py'],
     'choice and mask closures of DerivedMutable',
     'recorded finding: dividing or ratio-expanding by a value mutable '
     'freezes the value at derivation time')

prop('C03', 'Registered channel ranges never overlap and assemble to the '
     'whole mask',
     'A channel container accepts a mutable for a range exactly when no '
     'channel of that range is registered already, and a refused '
     'registration changes nothing. Its mask always has one entry per '
     'channel: a registered channel follows its mutable at every moment, an '
     'unregistered one stays active (and counts as registered once the mask '
     'has been read). An IndexDict keeps its ranges in '
     'ascending order, each with its own value, whatever the insertion '
     'order.',
     ['inputs', 'histories'],
     'all range positions and widths up to 2^20; any number of present '
     'ranges for the overlap test, up to four insertions for the rest',
     'tests insert two or three fixed ranges; overlaps by containment and '
     'gaps before a range need particular layouts',
     ['mmrazor/utils/index_dict.py',
      'mmrazor/models/mutables/mutable_channel/'
      'mutable_channel_container.py'],
     'overlap test, ordering, gap filling',
     'overlap test proved for any number of ranges by a loop invariant; '
     'insertion and masks with a bounded number of ranges, unbounded '
     'positions')

prop('C13', 'The resource estimator reports what a network costs',
     'The FLOPs and parameters reported for a network are, per image, the '
     'documented cost of every supported operation summed over all its calls '
     '(parameters once per module), with the given or configured input '
     'shape, unit and disabled counters; a named module is reported with the '
     'sum over what lies below it. A dynamic convolution costs what the '
     'convolution it is exported as costs. Estimating leaves settings, '
     'structure, parameters and outputs of the model as they were, leaves no '
     'hook behind and repeats itself.',
     ['inputs', 'histories'],
     'all layer sizes, group numbers, batch sizes and counts up to 2^16 per '
     'dimension; all combinations of settings; random networks for the rest',
     'tests compare one conv at 224x224 rounded to three digits',
     ['mmrazor/models/task_modules/estimators/resource_estimator.py',
      'mmrazor/models/task_modules/estimators/counters/'
      'flops_params_counter.py',
      'mmrazor/models/task_modules/estimators/counters/op_counters/'
      'conv_layer_counter.py'],
     'per-operation formulas, summation, merging of settings',
     'latency is not covered (needs a GPU); parameters of dynamic linear and '
     'norm layers are counted in full by design and not claimed; separate '
     'reports assume no module is shared between parents')

prop('C14', 'Channels are grouped exactly when the network ties them '
     'together',
     'Two channels end up in the same group exactly when a chain of '
     'dependencies (element-wise joins, concatenation, expansion, flatten, '
     'group structure) connects them, whatever the order of the bindings; '
     'looking up a group never changes it; every channel belongs to exactly '
     'one group, a layer reports exactly its channels per group in '
     'ascending contiguous ranges, and joining channel tensors of different '
     'sizes is refused.',
     ['inputs', 'schedules', 'histories'],
     'any forest of bindings (one step from an arbitrary state), and all '
     'short binding histories',
     'tests check the groups of a few networks; a wrong merge needs '
     'particular sequences of bindings',
     ['mmrazor/structures/graph/channel_flow.py',
      'mmrazor/structures/graph/channel_nodes.py',
      'mmrazor/structures/graph/channel_graph.py'],
     'union-find over channel elements; channel rules per node type',
     'find, union and member listing proved per step over an arbitrary '
     'forest given by contracts; the sequencing is bounded')


prop('C04', 'A fixed choice is final and only legal choices are fixed',
     'Fixing a mutable to one of its choices makes exactly that choice '
     'current, from then on fixing again or choosing is refused and changes '
     'nothing, and the recorded choice is the fixed one. A choice that is '
     'no candidate is refused and leaves the mutable as it was. An op, '
     'route or differentiable mutable computes with exactly its chosen '
     'candidates, before and after fixing, and nothing but the chosen '
     'candidates survives the fixing.',
     ['inputs', 'histories'],
     'all candidate lists and choices, any number of candidates for the op '
     'mutables\' fixing',
     'tests fix a few mutables to legal choices; illegal choices, second '
     'fixings and fixing by probability are rarely sampled',
     ['mmrazor/models/mutables/base_mutable.py',
      'mmrazor/models/mutables/mutable_value/mutable_value.py',
      'mmrazor/models/mutables/mutable_module/mutable_module.py',
      'mmrazor/models/mutables/mutable_module/one_shot_mutable_module.py',
      'mmrazor/models/mutables/mutable_module/diff_mutable_module.py',
      'mmrazor/models/mutables/mutable_channel/sequential_mutable_channel.py',
      'mmrazor/models/mutables/mutable_channel/oneshot_mutable_channel.py'],
     'fix_chosen / dump_chosen of every mutable, forward of op and route '
     'mutables',
     'op fixing proved for any number of candidates by a loop invariant, '
     'forward with a bounded number of candidates')

prop('C05', 'An exported subnet loads back to exactly the chosen one',
     'Loading an exported subnet (as it is or after conversion to plain '
     'data) into a supernet of the same shape fixes every mutable to exactly '
     'the choice it had when exported, whatever the module names, aliases, '
     'prefixes and kinds of mutables, and exporting changes nothing. A '
     'mutable without an entry is refused rather than guessed, and a derived '
     'mutable\'s entry fixes its sources.',
     ['inputs', 'configurations'],
     'all names, aliases, prefixes and choices, up to three mutables of '
     'every kind',
     'tests load two or three fixed architectures; prefixes that share '
     'letters with names and sources reached in another order are not tried',
     ['mmrazor/structures/subnet/fix_subnet.py',
      'mmrazor/models/mutables/base_mutable.py',
      'mmrazor/models/mutables/derived_mutable.py'],
     'name / alias / prefix lookup, source entries of derived mutables',
     'names, prefixes and aliases are arbitrary strings (SMT strings); at '
     'most three mutables')

prop('C06', 'The search space groups each searchable mutable exactly once',
     'Every mutable to be searched is in exactly one group, mutables of one '
     'group always get the same choice (groups given by the user or by '
     'alias; every other mutable alone; a derived mutable through its '
     'source), and setting, sampling, minimum and maximum choices apply to '
     'every member. Groups that repeat a mutable, name an unknown one or '
     'mix different kinds or choices are refused.',
     ['inputs', 'configurations'],
     'all module names and aliases, all partitions of up to four mutables, '
     'all choices',
     'tests use one or two custom groups over a fixed toy model',
     ['mmrazor/models/mutators/group_mixin.py',
      'mmrazor/models/mutators/nas_mutator.py',
      'mmrazor/models/mutators/base_mutator.py'],
     'group building from names, aliases and sources; choice application',
     'names and aliases are arbitrary strings; at most four mutables; a '
     'derived mutable with several searchable sources is excluded')


prop('C07', 'A pruned network stays consistent and computes what remains',
     'After preparing a network for channel pruning, every layer of a unit '
     'keeps exactly its unit\'s channels in the ranges the unit covers, '
     'whatever widths are set, sampled or fixed and in whatever order: what '
     'a layer takes is always what its inputs deliver, prepared layers keep '
     'computing the original function at full width and the masked one '
     'below it. Preparing twice, copying a unit or writing its config '
     'changes nothing, units that cannot be pruned are never narrowed, and '
     'a unit or mutator rebuilt from its config has the same ranges and '
     'choices. The static network exported from a pruned one computes the '
     'same outputs and holds only the remaining weights.',
     ['inputs', 'histories'],
     'all channel counts, expansions and choices for the unit contracts; '
     'random CNNs with sums, concatenations, group and depthwise '
     'convolutions, shared layers and flattening for the whole mutator',
     'tests prune a few fixed models and only run the forward pass; wrong '
     'channels of the right number go unnoticed',
     ['mmrazor/models/mutators/channel_mutator/channel_mutator.py',
      'mmrazor/models/mutables/mutable_channel/units/'
      'mutable_channel_unit.py',
      'mmrazor/models/mutables/mutable_channel/units/channel_unit.py',
      'mmrazor/models/task_modules/tracer/channel_analyzer.py',
      'mmrazor/models/task_modules/tracer/parsers.py',
      'mmrazor/structures/graph/module_graph.py'],
     'unit registration, config round trip, tracing into units',
     'units proved for all sizes on a fixed topology of layers; whole '
     'networks are a bounded check on random CNNs, labelled so; recorded '
     'finding: groups that cut across a concatenation')


prop('C08', 'Every candidate keeps its own results',
     'A list of candidate subnets holds, for every subnet handed over in any '
     'documented form, exactly that subnet with its own score and resources, '
     'in the order given: adding, setting, updating a block, sorting and '
     'keeping the best never lose, repeat, mix up or share results. Sorting '
     'is by the asked result, stable and in the asked direction. An update '
     'that does not fit is refused and changes nothing.',
     ['inputs', 'histories'],
     'all result values, lists of any length for setting, updating a block, '
     'sorting, keeping the best and joining; the forms of input and their '
     'contents on lists of up to three candidates',
     'tests use two or three hand-written candidates with round numbers',
     ['mmrazor/structures/subnet/candidate.py'],
     'conversion of the accepted forms, index arithmetic of updates',
     'results are arbitrary reals; the contracts over any number of '
     'candidates use rows whose results live in symbolic columns; the input '
     'forms and the text of the subnets are checked for up to three '
     'candidates and counted as bounded')

prop('C09', 'Evolution search keeps the best subnets within the constraints',
     'Every subnet an evolution search keeps satisfies the given '
     'constraints, carries the score and resources measured for it, and the '
     'kept top-k are the best of all subnets scored so far; the subnet '
     'exported in the end is the best one. New subnets come from kept ones '
     'by the stated crossover and mutation of their choices, each group '
     'taking its choice from one of the parents or from its candidates. An '
     'interrupted search that is resumed runs exactly the remaining epochs '
     'with the candidates it had.',
     ['inputs', 'schedules', 'crash_points', 'histories'],
     'all constraints, scores and resources; small populations and choice '
     'spaces; every epoch as a point of interruption',
     'tests mock the evaluation and check that the run ends',
     ['mmrazor/engine/runner/evolution_search_loop.py',
      'mmrazor/engine/runner/utils/check.py',
      'mmrazor/engine/runner/utils/genetic.py'],
     'constraint check, candidate pool updates, resume',
     'constraint test and crossover arguments proved without bounds; the '
     'loop itself with small populations; one process, no metric predictor')

prop('C10', 'Greedy sampling follows its schedule and trains the best subnets',
     'The probability of training a kept candidate rises from its initial to '
     'its maximum value over the given iterations, never leaves that range '
     'and equals the stated linear or cosine law at every iteration. The '
     'pool is refreshed when due with the best-scoring of the newly sampled '
     'and the kept subnets that satisfy the constraints, and its members are '
     'trained one after the other, each at most once per refresh.',
     ['inputs', 'schedules', 'histories'],
     'all iteration numbers, probabilities and intervals for the schedule; '
     'all scores and resources with small pools',
     'tests check the type of what is sampled at a few iterations',
     ['mmrazor/engine/runner/subnet_sampler_loop.py',
      'mmrazor/engine/runner/utils/check.py'],
     'probability schedule, pool refresh, popping',
     'schedules proved for all integers and probabilities; refreshing with '
     'small pools')

prop('C11', 'Greedy channel search takes the least harmful step every time',
     'Starting from the widest subnet the search always narrows one unit by '
     'one step, after trying every possible such step and taking one that '
     'scores best, and records for each target, largest first, the first '
     'subnet on the way that meets it, with its own resources. It gives up '
     'only at the narrowest subnet. A search that is interrupted at any '
     'point and resumed ends with the same subnets.',
     ['inputs', 'schedules', 'crash_points', 'histories'],
     'all score and resource tables, two units of up to three widths, all '
     'points of interruption; larger spaces by runs on the real code',
     'tests mock the scores with constants and only check files written',
     ['mmrazor/engine/runner/autoslim_greedy_search_loop.py',
      'mmrazor/engine/runner/utils/check.py'],
     'step enumeration, target bookkeeping, checkpoint contents',
     'all obligations are discharged for arbitrary tables but bounded '
     'spaces, so none is counted as proved', level='other')

prop('C15', 'What is recorded and delivered for distillation is what happened',
     'Inside a recording session every call of a recorded function, method '
     'or module is recorded once, in order, by each of its recorders, and '
     'nothing else is; leaving a session, also by an exception, restores '
     'every original. The i-th call of the student gets what the i-th call '
     'of the teacher returned for each delivery, and a delivery that is full '
     'or empty is refused. Every distillation loss gets exactly the '
     'records, items and connectors its mapping names, and a training step '
     'runs teacher and student once on the same batch, with gradients and '
     'losses as configured, until distillation is stopped. Without data the '
     'student follows its distillation loss on generated images and nothing '
     'else, the generator its own loss, and the teachers never change; a '
     'model that teaches itself does so in one run.',
     ['inputs', 'schedules', 'histories'],
     'all data, all combinations of recorders, styles of call, nesting, '
     'exceptions, mappings and flags with few calls in each session',
     'tests count the records of one session of one recorder at a time',
     ['mmrazor/models/task_modules/recorder/recorder_manager.py',
      'mmrazor/models/task_modules/recorder/method_outputs_recorder.py',
      'mmrazor/models/task_modules/delivery/distill_delivery.py',
      'mmrazor/models/distillers/configurable_distiller.py',
      'mmrazor/models/algorithms/distill/configurable/'
      'single_teacher_distill.py'],
     'patching and restoring of calls, queues, mapping of records to losses',
     'loss mappings, steps and stopping proved for all data; sessions with a '
     'bounded number of calls')

prop('C12', 'Pruning follows its schedule down to its target',
     'Iterative pruning changes the structure exactly at the first '
     '`prune_times` multiples of the step frequency (in iterations, or in '
     'epochs converted to iterations), in training mode only, before the '
     'batch of that iteration is seen; each unit with a target then has the '
     'width on the straight line from its supernet width to its target (or '
     'the target at once), never above the one nor below the other, and ends '
     'at the target. DCFF derives whichever of frequency and number of times '
     'is not given so that pruning fits the run; a resumed run continues the '
     'schedule it was on. Group Fisher pruning removes, once every interval, '
     'the one channel of least normalised accumulated importance among those '
     'that may go, and never the last channel of a unit. L1 pruning keeps the '
     'channels whose weights, over all the layers that produce them, are '
     'largest.',
     ['inputs', 'schedules', 'histories'],
     'all widths, targets, frequencies, numbers of times and iterations (up '
     'to 2^16 and 2^18); whole and resumed runs and group Fisher histories '
     'by concrete runs',
     'tests run one schedule of one network and look at its last structure',
     ['mmrazor/models/algorithms/pruning/ite_prune_algorithm.py',
      'mmrazor/models/algorithms/pruning/dcff.py',
      'mmrazor/implementations/pruning/group_fisher/mutator.py',
      'mmrazor/implementations/pruning/group_fisher/unit.py',
      'mmrazor/implementations/pruning/group_fisher/ops.py',
     'mmrazor/models/mutables/mutable_channel/units/'
     'l1_mutable_channel_unit.py'],
     'rounding in the schedule, the units a target names, choosing the least '
     'important channel',
     'schedule, DCFF times, the training loop and the costs of a channel '
     'proved; whole runs, resuming and the choice by importance or norm '
     'bounded')

prop('C17', 'A dynamic op, and its export, compute what its chosen part does',
     'With any choice of channels, kernel, depth, heads or shape a dynamic '
     'op computes what the ordinary op with only the chosen weights '
     'computes, also after the choice has changed, and without mutables '
     'what its ordinary op does; in training only the chosen statistics '
     'move. Fixed, it converts to exactly that ordinary op in the same mode, '
     'wherever it is in a model, and an exported subnet computes what the '
     'supernet computed. Masks of another size are refused, and ops whose '
     'mutables are not fixed are not converted.',
     ['inputs', 'histories'],
     'all sizes (to 2^16), masks, kernels and changes of choice for '
     'convolutions, linear, batch and layer norms; the other ops and whole '
     'networks by concrete runs',
     'tests compare one choice of one op, mostly by shape',
     ['mmrazor/models/architectures/dynamic_ops/mixins/'
      'dynamic_conv_mixins.py',
      'mmrazor/models/architectures/dynamic_ops/mixins/dynamic_mixins.py',
      'mmrazor/models/architectures/dynamic_ops/mixins/'
      'dynamic_layernorm_mixins.py',
      'mmrazor/models/architectures/dynamic_ops/bricks/dynamic_norm.py',
      'mmrazor/models/architectures/dynamic_ops/bricks/dynamic_linear.py',
      'mmrazor/models/architectures/dynamic_ops/bricks/dynamic_container.py',
      'mmrazor/structures/subnet/fix_subnet.py'],
     'slicing of weights by masks, padding of kernels, conversion',
     'convolutions without or with one group per channel, kernels, linear, '
     'batch norm in evaluation and layer norm proved over uninterpreted '
     'convolution and normalisation; other groups, training statistics, '
     'attention, embeddings and whole networks bounded')

prop('C16', 'Supernet training runs the subnets its strategy names',
     'A training step of a supernet runs every subnet of its strategy (the '
     'largest, the smallest, newly sampled ones; or each listed width) '
     'exactly once, in order, on the same batch, and updates with that '
     'subnet\'s losses before the next; the largest is recorded as the '
     'teacher of the others, losses are reported under the name of the '
     'subnet, and the optimizer accumulates over all of them. Single-path '
     'supernets sample a new subnet for every loss, and norm_training keeps '
     'only batch norms in training. DMCP and DSNAS train their architecture '
     'exactly in the stages configured, along the gradients of their '
     'method, DMCP towards its target FLOPs, and DSNAS fixes it once.',
     ['inputs', 'schedules', 'histories'],
     'all iterations, epochs, rates and stages; any number of subnets is '
     'sampled up to a few, real optimizers by concrete runs',
     'tests run one step and look at the names of the losses',
     ['mmrazor/models/algorithms/nas/autoslim.py',
      'mmrazor/models/algorithms/nas/bignas.py',
      'mmrazor/models/algorithms/nas/spos.py',
      'mmrazor/models/algorithms/nas/dsnas.py',
      'mmrazor/models/algorithms/pruning/slimmable_network.py',
      'mmrazor/models/algorithms/pruning/dmcp.py',
      'mmrazor/models/mutators/channel_mutator/dmcp_channel_mutator.py',
      'mmrazor/models/utils/optim_wrapper.py'],
     'loop over subnets, recorders, schedules, order of gradients and steps',
     'steps, schedules, stages and widths proved over all numbers for lists '
     'of a few subnets; accumulation, gradients and deployed networks '
     'bounded')

prop('C18', 'Differentiable search trains each level along its own loss',
     'A search step of Darts moves the architecture along the derivative of '
     'the loss of its own batch - with unroll at the weights one step of '
     'their optimizer further, less the change of that step with the '
     'architecture by finite differences - and then the weights along the '
     'loss of their batch at the new architecture; nothing of one loss is '
     'left in the gradients of the other, the weights are unchanged by the '
     'virtual step, and gradients accumulate as configured. A differentiable '
     'choice computes the mixture of its candidates by the softmax of the '
     'parameters its group shares, and is fixed to the candidates of the '
     'largest ones; a one-hot choice runs one candidate, drawn by these '
     'probabilities, and only the leader once it leads by the threshold.',
     ['inputs', 'histories'],
     'any losses (their gradients are arbitrary numbers), rates, momenta, '
     'decays and left-over gradients for one or two parameters per level; '
     'real networks and optimizers by concrete runs',
     'tests only run one step and look at whether it returns logs',
     ['mmrazor/models/algorithms/nas/darts.py',
      'mmrazor/models/mutables/mutable_module/diff_mutable_module.py',
      'mmrazor/models/mutators/nas_mutator.py',
      'mmrazor/models/utils/optim_wrapper.py'],
     'alternating backward passes and steps over shared parameters',
     'both kinds of steps, with and without DDP, proved in real arithmetic '
     'over arbitrary gradients; real networks against double '
     'differentiation, mixtures and the half-precision norm bounded')

prop('C19', 'The loops and hooks around a search feed, evaluate, calibrate and '
     'save what they say',
     'A Darts loop trains with pairs of batches, the next one of each loader: '
     'by epochs until the shorter loader ends, by iterations without end, all '
     'loaders starting a new pass together in a new epoch, and validates at '
     'the configured iterations. A validation loop evaluates all batches with '
     'the very subnet (width, teacher, student) its metrics are named after, '
     'in evaluation mode, after calibrating its batch norms where it says so. '
     'Calibration runs exactly as many samples as asked for, in training '
     'mode, and sets the statistics of the batch norms reached to the '
     'averages over them in the channels used, and nothing else. Subnets are '
     'dumped or estimated exactly when due, distillation stops from the epoch '
     'given, files written load back as the network they were written for, '
     'within the budget they are sampled for, and the supernet goes on '
     'unchanged.',
     ['inputs', 'histories'],
     'loaders, epochs, intervals and sample counts of any size; models, '
     'masks, files and metrics by concrete runs',
     'tests run one small loader to its end and look at whether files exist; '
     'loaders ending in different iterations, batches cut in the middle, '
     'channels chosen in the middle and reloads are not looked at',
     ['mmrazor/engine/runner/darts_loop.py',
      'mmrazor/engine/runner/subnet_val_loop.py',
      'mmrazor/engine/runner/slimmable_val_loop.py',
      'mmrazor/engine/runner/distill_val_loop.py',
      'mmrazor/engine/runner/iteprune_val_loop.py',
      'mmrazor/engine/runner/utils/calibrate_bn_mixin.py',
      'mmrazor/engine/hooks/dump_subnet_hook.py',
      'mmrazor/engine/hooks/estimate_resources_hook.py',
      'mmrazor/engine/hooks/stop_distillation_hook.py',
      'mmrazor/engine/hooks/dmcp_subnet_hook.py'],
     'several loaders advancing at their own lengths, sample budgets cut '
     'inside a batch, and choices set on a live supernet between batches',
     'pairing, restarting, validation times, sample counts and hook times '
     'proved for all sizes; what the validation loops evaluate, the '
     'statistics and the files by bounded runs of the real models')

prop('C20', 'Distillation losses and connectors compute what they define',
     'For student and teacher outputs of any shape, values and '
     'hyper-parameters, each distillation loss is the number its paper and '
     'docstring define, with its temperature, parts, reduction and '
     'loss_weight, and so is its gradient for the student; nothing flows to '
     'a teacher that is detached, divergences are never negative and vanish '
     'when student and teacher agree. The contrastive memory is drawn from '
     'as likely as asked for and moves to the features seen, feature maps of '
     'other sizes are resized as configured, and connectors hand on the '
     'masks, pooled features, margins and factors they are named after.',
     ['inputs', 'histories'],
     'any entry of tensors of any shape for the losses that work entry by '
     'entry; thousands of random shapes, values and hyper-parameters '
     'against definitions written out sample by sample in double precision',
     'tests check that the losses of one random pair are single numbers',
     ['mmrazor/models/losses/kl_divergence.py',
      'mmrazor/models/losses/decoupled_kd.py',
      'mmrazor/models/losses/crd_loss.py',
      'mmrazor/models/losses/pkd_loss.py',
      'mmrazor/models/losses/l2_loss.py',
      'mmrazor/models/losses/relational_kd.py',
      'mmrazor/models/architectures/connectors/fbkd_connector.py',
      'mmrazor/models/architectures/connectors/mgd_connector.py',
      'mmrazor/models/distillers/ofd_distiller.py'],
     'softmaxes at a temperature, masks, reductions over several dims, '
     'normalisation and a memory that changes with each step',
     'the losses that work entry by entry (L1, L2, MGD, OFD, AB) are proved '
     'for tensors of any shape in real arithmetic; exponentials and norms '
     'of tensors are beyond the solvers, so all other contracts are checked '
     'on random inputs only and not counted as proved', level='other')
