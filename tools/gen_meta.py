"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand after editing)."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

COMMON = ('Dynamic exploration: held on every execution the seeded workload produced; no claim about inputs it '
          'did not reach. Trusts CPython, JAX/XLA on CPU, NumPy and the reference computation in the harness.')

# id, title, statement, over, quantifier text, why tests cannot, files, mechanisms, observe_at,
# technique, level, extra note
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, technique,
         level='exploration', note=''):
  P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                files=files, mech=mech, observe=observe, technique=technique, level=level, note=note))


prop('C01', 'init and apply are pure functions of their explicit arguments',
     'For a function transformed by hk.transform or hk.transform_with_state, init and apply return the same '
     'parameters, state and outputs, bit for bit, whenever they get the same arguments, whatever other init/apply '
     'calls (other transforms, nested transforms, failing calls, jax.jit of the same functions) happened before, '
     'in between or around them. They never modify the parameters, state, key or other arguments they were given, '
     'and the containers they return never alias mutable containers of the caller. Arguments, keyword arguments, '
     'return values and every documented form of the rng argument are passed through unchanged.',
     ['programs', 'histories', 'inputs'],
     'all user functions, all argument values, all histories of earlier and interleaved calls',
     'The tests call a few fixed functions once or twice; purity is a statement about every history of calls and '
     'about mutations nobody looks for in a test.',
     ['haiku/_src/transform.py', 'haiku/_src/base.py'],
     [('fresh frame per call', 'haiku/_src/transform.py init_fn/apply_fn'),
      ('containers copied on the way in and out', 'haiku/_src/base.py new_context, Frame')],
     ['return values of init/apply', 'the caller\'s argument containers'],
     'runtime monitor over call histories: result and input snapshots compared bit for bit')

prop('C02', 'Parameters collected by init are exactly those injected at apply',
     'init returns exactly one entry per parameter that the run requested, keyed by module name and parameter '
     'name, holding the value its initializer produced for the requested shape and dtype. At apply every request '
     'returns exactly the injected value (dtype and bits intact), for any mapping type and with unused extra '
     'entries ignored; initializers of injected parameters are not run and nothing is created. Asking at apply '
     'for a parameter that is missing, or whose injected shape differs from the requested one, raises an error.',
     ['programs', 'inputs'],
     'all programs of nested modules, methods and scopes, all injected values',
     'Tests use a handful of small modules and mostly feed init\'s own values back, so a mix-up between entries '
     'or a re-run initializer goes unseen.',
     ['haiku/_src/base.py', 'haiku/_src/transform.py', 'haiku/_src/module.py'],
     [('get_parameter lookup/creation', 'haiku/_src/base.py get_parameter'),
      ('bundle name', 'haiku/_src/base.py current_bundle_name')],
     ['params returned by init', 'values returned by get_parameter'],
     'online reference-model checker (dictionary model of parameter collection) on random module programs')

prop('C03', 'Module names are unique, deterministic and scoped by where modules are made',
     'A module\'s full name is its given name (or the snake_case of its class name) placed under the module and '
     'method in which it was constructed (constructor: "~", the call method: nothing, another method m: "~m") or '
     'under the active name scope; a second module of the same name in the same place and same call gets the suffix '
     '_1, _2 and so on in order of construction. Parameters belong to the full name of the module whose method requests them, so that one '
     'instance always uses the same entries however often and from wherever it is called, distinct instances '
     'never share entries, and init and apply (and every repetition) agree on all names. Profiler name scopes '
     'change none of this, invalid names are rejected with ValueError and modules cannot be made outside a transform.',
     ['programs', 'configurations'],
     'all nestings of modules, methods, transparent methods, name scopes, sharing patterns and name collisions',
     'Naming depends on the whole construction history; tests pin some two dozen small shapes.',
     ['haiku/_src/module.py', 'haiku/_src/base.py'],
     [('unique_and_canonical_name', 'haiku/_src/module.py'), ('counters per scope', 'haiku/_src/base.py Frame')],
     ['module_name of each constructed module', 'keys of params/state'],
     'online reference-model checker of module names and keys on random programs')

prop('C04', 'State is threaded through init and apply like a store',
     'Within one run get_state returns the last value set in that run, or the value passed in, or (if there is '
     'none) the initializer\'s value; apply returns the final value of every entry and leaves the state it was '
     'given untouched, while init returns the initial value of each entry even when it was updated during init. '
     'Entries that are passed in but not touched come back unchanged, entries missing from the input are created '
     'by their initializer, values may be any pytree, and a chain of applies (jitted or not, rewound or '
     'replayed) depends only on the states explicitly passed. Functions that use state are refused with '
     'ValueError by hk.transform.',
     ['histories', 'programs'],
     'all programs that read and write state, all chains of applies including rewinds and partial states',
     'Tests look at one or two applies of tiny modules; ordering, rewinding and init-versus-apply differences '
     'need histories.',
     ['haiku/_src/base.py', 'haiku/_src/transform.py'],
     [('StatePair(initial, current)', 'haiku/_src/base.py get_state/set_state'),
      ('collection of initial/current', 'haiku/_src/base.py HaikuContext')],
     ['state returned by init/apply', 'values returned by get_state'],
     'offline checker of recorded apply histories against a key-value store model')

prop('C05', 'Every random key handed out is fresh, reproducible and scoped',
     'Within one run no two calls of next_rng_key / next_rng_keys / maybe_next_rng_key return the same key or a key '
     'another one can be split into, also across modules, key reservation, hk.with_rng blocks and bodies of '
     'hk.jit/cond/switch/scan/fori_loop/while_loop, and keys depend only on the key passed in and on the order '
     'of requests. Keys drawn inside hk.with_rng depend only on the block\'s key and leave the outer stream as it '
     'was; without a key next_rng_key raises ValueError while maybe_next_rng_key returns None; hk.PRNGSequence is a deterministic '
     'iterator whose reserve/take do not change later uniqueness, and optimize_rng_use preserves uniqueness and determinism.',
     ['programs', 'inputs'],
     'all sequences of key requests, reservations and scopes, all seeds',
     'Key reuse shows only as correlated randomness; tests compare a few keys of fixed sequences.',
     ['haiku/_src/base.py', 'haiku/_src/random.py', 'haiku/_src/stateful.py'],
     [('PRNGSequence split/reserve', 'haiku/_src/base.py'), ('optimize_rng_use', 'haiku/_src/random.py'),
      ('key threading', 'haiku/_src/stateful.py')],
     ['keys returned to user code'],
     'offline uniqueness/determinism checker over the log of keys handed to user code')

prop('C06', 'hk.jit, remat, vmap, grad, eval_shape and named_call act like the plain call',
     'Inside a transform, wrapping a function that uses parameters, state and random keys in hk.jit, hk.remat, '
     'hk.named_call, hk.vmap (unmapped state), hk.grad or hk.value_and_grad (with has_aux/argnums) gives the same '
     'parameters, state updates, keys drawn and results as calling it directly (or as the mathematical '
     'batching/derivative), at init and over any chain of applies, however nested, also with control flow and '
     'inside methods. hk.eval_shape returns the output\'s shapes and dtypes and leaves parameters, state and key '
     'stream untouched. Outside a transform hk.jit, remat, grad and value_and_grad raise ValueError.',
     ['programs', 'histories'],
     'all nestings of the transforms around all programs, all apply chains',
     'Tests wrap single-module examples; losing or duplicating a side effect needs particular combinations of '
     'state, keys and nesting.',
     ['haiku/_src/stateful.py'],
     [('state passed in and out explicitly', 'haiku/_src/stateful.py internal_state/update_internal_state'),
      ('temporary_internal_state', 'haiku/_src/stateful.py')],
     ['params, state, outputs and keys of wrapped versus plain runs'],
     'differential runtime monitor: transformed execution versus plain execution of the same random program')

prop('C07', 'hk.cond, switch, scan, fori_loop and while_loop act like Python control flow',
     'Inside a transform hk.cond, hk.switch, hk.scan, hk.fori_loop and hk.while_loop give the same outputs, '
     'parameters, state updates and keys as the Python if/for/while they stand for, for any selector '
     'value, trip count (none included), direction and unroll factor, '
     'nested, in methods and over any chain of applies; exactly the selected branch takes effect and carries, '
     'operands and outputs keep structure, dtype and order, and random keys drawn inside and afterwards are those '
     'of the Python version. A while_loop condition that uses state or keys, '
     'an unsupported while_loop use during init and use outside a transform raise ValueError.',
     ['programs', 'histories', 'inputs'],
     'all bodies using parameters, state and keys, all trip counts and selectors, all nestings',
     'Tests run each construct on one or two bodies with fixed trip counts.',
     ['haiku/_src/stateful.py'],
     [('lifting of state through lax control flow', 'haiku/_src/stateful.py cond/switch/scan/fori_loop/while_loop'),
      ('unrolled execution during init', 'haiku/_src/stateful.py')],
     ['params, state, outputs and keys of hk versus Python control flow'],
     'differential runtime monitor: Haiku control flow versus Python control flow on random programs')

prop('C08', 'An exception anywhere inside a transformed function leaves nothing behind',
     'When any statement of a transformed function (constructor, method, initializer, creator, getter, interceptor, '
     'name scope, key block, body of a Haiku transform) raises, the exception reaches the caller, and every '
     'scope, hook, key block and transform it passed is closed: later requests, names, keys and hooks behave as if '
     'it had never been entered, both when the exception escapes from init/apply and when user code catches it '
     'inside and goes on. Afterwards no transform is active, new init/apply calls give their usual results, '
     'and global settings that tools change temporarily are restored.',
     ['fault_sequences', 'crash_points', 'programs'],
     'every point of a program where an exception can be raised, escaping or caught',
     'Tests raise at a few chosen places and rarely continue after the exception.',
     ['haiku/_src/base.py', 'haiku/_src/module.py', 'haiku/_src/data_structures.py', 'haiku/_src/stateful.py',
      'haiku/_src/dot.py', 'haiku/_src/random.py'],
     [('context managers with finally', 'haiku/_src/base.py, haiku/_src/module.py'),
      ('ThreadLocalStack', 'haiku/_src/data_structures.py')],
     ['behaviour after the fault, and of re-runs'],
     'fault injection at every instrumented point of random programs, with reference-model oracle',
     'fault_enumeration', 'Faults are Python exceptions raised at interpreter-visible points; each program\'s points are '
     'enumerated up to a cap.')

prop('C09', 'Threads running Haiku at the same time do not affect each other',
     'Any number of threads may run init, apply, and Haiku\'s tools (summaries, graphs, key optimisation, hooks, '
     'name scopes, function transforms) at the same time, also on the same transformed function and '
     'the same parameters: each thread gets exactly the result it would get running alone. Contexts, hooks, '
     'scopes and key streams entered in one thread are invisible to every other thread, including threads '
     'started inside a transformed function.',
     ['schedules', 'programs'],
     'all interleavings of all programs in different threads',
     'The suite has one threading test; races need particular preemption points inside the library.',
     ['haiku/_src/data_structures.py', 'haiku/_src/base.py', 'haiku/_src/module.py', 'haiku/_src/random.py',
      'haiku/_src/dot.py', 'haiku/_src/summarise.py'],
     [('thread-local stacks', 'haiku/_src/data_structures.py ThreadLocalStack'),
      ('no shared mutable globals outside thread-local stacks', 'haiku/_src/module.py, haiku/_src/random.py')],
     ['per-thread results'],
     'schedule-controlled execution of real threads (line-level preemption inside the library) with per-job oracle',
     note='Preemption at line/bytecode boundaries under the GIL; interleavings are sampled by seed.')

prop('C10', 'Parameter and state containers are faithful immutable mappings',
     'Containers returned by init, apply and to_immutable_dict behave as read-only mappings with exactly the keys, '
     'values and nesting they were built from: lookups, iteration, len, equality with ordinary mappings, copying, '
     'pickling, to_mutable_dict and repr agree with the equivalent dict and attempts to write raise TypeError or AttributeError. '
     'As pytrees they flatten and unflatten without loss, agree with each other regardless of insertion order, '
     'and pass through jax.jit, grad, vmap and tree_map of several trees; later mutation of the source mapping '
     'never shows through them.',
     ['inputs', 'histories'],
     'all nested mappings and all sequences of operations on the containers',
     'Tests use two or three literal dictionaries.',
     ['haiku/_src/data_structures.py'],
     [('FlatMapping flattened lazily to leaves + structure', 'haiku/_src/data_structures.py')],
     ['mapping and pytree operations on containers'],
     'stateful model-based monitor (plain dict model) over random operation sequences')

prop('C11', 'filter, partition, map, merge and size accounting obey set algebra',
     'filter(p, s) keeps exactly the entries for which p(module, name, value) holds, partition splits s into two disjoint structures that '
     'together are s, map applies the function exactly once per entry and keeps the keys, and merge of several '
     'structures holds every entry with later ones winning; merging the parts of a partition gives back the original. Inputs are never modified and values are passed by identity. tree_size and '
     'tree_bytes give the exact number of elements and bytes for all shapes and dtypes.',
     ['inputs'],
     'all two-level structures (any mapping type), predicates and functions',
     'Tests use one small MLP parameter set.',
     ['haiku/_src/filtering.py', 'haiku/_src/utils.py'],
     [('traverse', 'haiku/_src/filtering.py'), ('tree_size/tree_bytes', 'haiku/_src/utils.py')],
     ['results and calls of user functions'],
     'runtime monitor against independent dictionary algebra on random structures')

prop('C12', 'Creators, getters and interceptors see and control exactly what they should',
     'Inside their with-block, and only there, custom_creator functions run once for each entry created (parameters '
     'at init; state too with state=True; params=False excludes parameters), custom_getter functions run for every '
     'read of an entry after creation, and interceptors run for every module method call made; nested hooks run outermost first unless an '
     'outer one short-circuits, later ones seeing what the outer one passed on. What they pass on (shape, dtype, '
     'initializer, value, arguments) and return is what the next hook, the library and finally the caller get, '
     'while stored parameters and the required shape are unaffected by getters. Contexts report the true module, full name, original '
     'shape, dtype and method, and orig_method calls the bare method.',
     ['programs', 'configurations'],
     'all stacks of hooks around all programs',
     'Tests use at most two hooks with simple bodies.',
     ['haiku/_src/base.py', 'haiku/_src/module.py'],
     [('creator/getter chains', 'haiku/_src/base.py run_creators/run_getters'),
      ('interceptor chain', 'haiku/_src/module.py run_interceptors')],
     ['hook calls with their contexts and values'],
     'online trace checker of hook calls against a list-based model')

prop('C13', 'Adapters, lift and per-module views agree with the basic transform',
     'transform, transform_with_state, without_state, without_apply_rng and testing.transform_and_run are '
     'equivalent to the explicit init/apply calls they abbreviate, in any composition, bit for bit, and adapters '
     'that drop state refuse stateful functions. Parameters lifted by experimental.lift appear in the outer '
     'parameters under the lifting module\'s name, come back unchanged at apply and are exactly what the inner '
     'apply receives. params_dict and state_dict of a module list exactly its own entries and those of the modules '
     'constructed or called inside it, with current values.',
     ['programs', 'configurations'],
     'all functions, all compositions of adapters, all moments at which views are taken',
     'Tests check one example per adapter.',
     ['haiku/_src/transform.py', 'haiku/_src/lift.py', 'haiku/_src/test_utils.py', 'haiku/_src/module.py'],
     [('wrappers', 'haiku/_src/transform.py'), ('LiftingModule', 'haiku/_src/lift.py'),
      ('params_or_state_dict', 'haiku/_src/module.py')],
     ['results of adapted functions; params_dict/state_dict'],
     'differential runtime monitor (adapter versus explicit calls) plus view model')

prop('C14', 'Dense, bias, reshape, embedding, dropout and MLP layers compute their definition',
     'Linear, Bias, Reshape/Flatten, Sequential, BatchApply, expand_apply, dropout, multinomial, one_hot, Embed and nets.MLP '
     '(with dropout, activate_final and reverse) return the documented function of inputs and parameters, with '
     'documented parameter names, shapes and dtypes, for all ranks, sizes, dtypes and options. Default '
     'initial values follow the documented distributions, dropout keeps each element independently with probability 1-rate '
     'scaled by 1/(1-rate), and multinomial samples only categories with positive probability at the right frequencies. Invalid '
     'configurations and input shapes are rejected with an error.',
     ['inputs', 'configurations'],
     'all shapes, dtypes, options and parameter values',
     'Tests check shapes mostly, and values for a few fixed inputs.',
     ['haiku/_src/basic.py', 'haiku/_src/bias.py', 'haiku/_src/reshape.py', 'haiku/_src/embed.py',
      'haiku/_src/nets/mlp.py'],
     [('layer bodies', 'haiku/_src/basic.py')],
     ['layer outputs and parameters'],
     'runtime oracle: independent float64 computation and distribution monitors')

prop('C15', 'Convolutions compute the documented sum for every configuration',
     'Conv1D/2D/3D/ND, their transposes, DepthwiseConv2D and SeparableDepthwiseConv2D equal the direct sum over '
     'kernel taps for every combination of kernel shape, stride, dilation, feature groups, mask, bias, data layout, batched or '
     'unbatched input and padding (VALID, SAME, hk.pad functions, explicit pairs), with documented parameter '
     'names, shapes and dtypes and fan-in based default initialisation. Causal and reverse causal padding never let an output depend on later '
     '(earlier) inputs. Contradictory or malformed options are rejected with ValueError.',
     ['inputs', 'configurations'],
     'all configurations and inputs',
     'Tests cover a grid of shapes with all-ones kernels.',
     ['haiku/_src/conv.py', 'haiku/_src/depthwise_conv.py', 'haiku/_src/pad.py'],
     [('dimension numbers, padding and masks', 'haiku/_src/conv.py'), ('pad functions', 'haiku/_src/pad.py')],
     ['layer outputs and parameters'],
     'runtime oracle: direct float64 sum over taps; causality monitor')

prop('C16', 'Pooling takes the maximum or mean of exactly the window',
     'max_pool, avg_pool, MaxPool and AvgPool return, for each window position, the maximum (mean over the elements that lie inside '
     'the input) of that window, for every rank, window/stride form (int, sequence), channel axis, SAME and VALID '
     'padding and dtype, including infinities, and their gradients flow only to the elements of the window. Invalid window, stride, padding or channel axis '
     'arguments raise ValueError.',
     ['inputs', 'configurations'],
     'all inputs and configurations',
     'Tests check a few hand-computed grids.',
     ['haiku/_src/pool.py'],
     [('reduce_window with per-window counts', 'haiku/_src/pool.py')],
     ['outputs and gradients'],
     'runtime oracle: window-by-window enumeration')

prop('C17', 'Normalisation layers normalise by the documented statistics',
     'BatchNorm in training normalises by the mean and variance of the current batch (over all replicas of its '
     'cross-replica axis or group) and updates bias-corrected running averages, and otherwise normalises by the '
     'running averages (or, if asked, by local statistics) and changes nothing. LayerNorm, InstanceNorm and '
     'GroupNorm normalise each sample over exactly the documented axes or groups, for every layout, axis form and '
     'input size. Scale and offset (created or passed in) have the documented names, shapes, initial values and effect, dtypes are kept, '
     'and contradictory options raise ValueError.',
     ['inputs', 'histories', 'configurations'],
     'all histories of training and evaluation calls, all shapes, axes, groups and layouts',
     'Tests use constant inputs and single calls.',
     ['haiku/_src/batch_norm.py', 'haiku/_src/layer_norm.py', 'haiku/_src/group_norm.py',
      'haiku/_src/moving_averages.py'],
     [('statistics and running averages', 'haiku/_src/batch_norm.py'), ('group reshape', 'haiku/_src/group_norm.py')],
     ['outputs and state over call histories'],
     'offline checker of call histories against float64 statistics and running-average model')

prop('C18', 'Moving averages and spectral normalisation follow their recurrences',
     'ExponentialMovingAverage keeps the documented average (zero-debias and warm-up included) of the values of updating '
     'calls; non-updating calls return what an update would give without changing anything, and .average reads the current debiased value. SpectralNorm performs n_steps of '
     'power iteration per updating call on the matrix view of its input, divides by the resulting estimate, and '
     'its estimate converges to the largest singular value; non-updating calls leave state alone. '
     'EMAParamsTree and SNParamsTree apply this to exactly the parameters not matched by ignore_regex, keep the '
     'structure, and keep separate statistics per parameter.',
     ['histories', 'inputs', 'configurations'],
     'all call histories, shapes, decays, trees and ignore patterns',
     'Tests run a few steps with one shape.',
     ['haiku/_src/moving_averages.py', 'haiku/_src/spectral_norm.py'],
     [('hidden/average/counter state', 'haiku/_src/moving_averages.py'), ('u0/sigma state', 'haiku/_src/spectral_norm.py')],
     ['outputs and state over call histories'],
     'offline checker of call histories against a float64 step model')

prop('C19', 'Recurrent cores and unrolls follow their equations step by step',
     'VanillaRNN, LSTM, GRU, the convolutional LSTMs, IdentityCore, DeepRNN (with skip connections) and ResetCore '
     'compute the documented update for batched and unbatched inputs, and their initial_state has the matching '
     'structure, shape and value. static_unroll and dynamic_unroll equal calling the core step by step in time '
     'order (either layout, every step or last, nested inputs, cores with Haiku state included). ResetCore replaces exactly the states of the '
     'batch entries whose reset flag is set by the initial state, before that step, for every form of the flag.',
     ['histories', 'inputs', 'configurations'],
     'all cores and compositions, sequence lengths, reset sequences and layouts',
     'Tests check shapes and one or two sequences per core.',
     ['haiku/_src/recurrent.py'],
     [('cores and unrolls', 'haiku/_src/recurrent.py')],
     ['outputs and states per step'],
     'runtime oracle: float64 step equations over recorded sequences')

prop('C20', 'Initializers draw from the documented distribution',
     'Constant, RandomNormal, TruncatedNormal, RandomUniform, VarianceScaling (every mode and distribution), '
     'UniformScaling, Orthogonal and Identity return an array of the requested shape and dtype whose entries are '
     'independent draws of the documented distribution with the documented scale (or the documented exact value), within the '
     'documented support. Orthogonal gives rows or columns that are orthonormal times gain, uniformly distributed. '
     'Values depend only on the key, and unsupported arguments or shapes raise ValueError.',
     ['inputs', 'configurations'],
     'all shapes, dtypes, keys and arguments',
     'Tests check shapes and a few bounds; distributions need samples.',
     ['haiku/_src/initializers.py'],
     [('fan computation and scaling', 'haiku/_src/initializers.py')],
     ['arrays returned'],
     'statistical runtime monitor (Kolmogorov-Smirnov with false-alarm rate < 1e-10) plus exact support/shape checks')

prop('C21', 'Multi-head attention computes masked softmax attention per head',
     'MultiHeadAttention projects query, key and value into num_heads heads, takes the softmax of query-key dot '
     'products scaled by 1/sqrt(key_size) over the unmasked positions, and projects the concatenated weighted '
     'values to model_size, for every sizes, lengths, leading dimensions, precision and broadcastable mask. Masked positions have no influence, '
     'batch entries never mix, permuting keys together with values changes nothing, and large logits do not give NaN.',
     ['inputs', 'configurations'],
     'all inputs, masks and configurations',
     'Tests check only output shapes.',
     ['haiku/_src/attention.py'],
     [('attention body', 'haiku/_src/attention.py')],
     ['outputs and parameters'],
     'runtime oracle: head-by-head float64 computation plus metamorphic monitors')

prop('C22', 'Vector quantisers pick nearest codes and learn them as documented',
     'VectorQuantizer and VectorQuantizerEMA replace each input vector by its nearest codebook vector '
     '(straight-through gradient) and report matching encodings, indices, distances, perplexity and loss for inputs '
     'of any rank. VectorQuantizer\'s loss trains the codebook and commits the inputs with the documented weights; '
     'VectorQuantizerEMA updates codebook and cluster sizes by the documented moving averages (summed over '
     'replicas) only when training. quantize(indices) returns the corresponding codes.',
     ['inputs', 'histories', 'configurations'],
     'all inputs, codebooks and histories of training and evaluation calls',
     'Tests run fixed small examples.',
     ['haiku/_src/nets/vqvae.py', 'haiku/_src/moving_averages.py'],
     [('quantisation and updates', 'haiku/_src/nets/vqvae.py')],
     ['returned dictionaries, gradients and state'],
     'offline checker of training/evaluation histories against a float64 model')

prop('C23', 'ResNet and MobileNetV1 are the published architectures',
     'nets.ResNet (v1/v2, bottleneck or not, per-group blocks, channels, strides and projections), ResNet18-200 and MobileNetV1 compute '
     'exactly the published composition of convolutions, batch normalisations, residual connections and pooling '
     'for every configuration and in training, evaluation and local-statistics mode, with the documented parameters, initial values and state updates. Wrongly sized configurations '
     'raise ValueError.',
     ['configurations', 'inputs'],
     'all configurations, modes, parameters and running statistics',
     'Tests check output shapes and that the code runs.',
     ['haiku/_src/nets/resnet.py', 'haiku/_src/nets/mobilenetv1.py'],
     [('block structure', 'haiku/_src/nets/resnet.py')],
     ['outputs, state and parameter inventory'],
     'runtime oracle: independent functional composition; parameter inventory monitor')

prop('C24', 'Summaries report exactly the module calls that happen',
     'eval_summary(f)(args) has one record per module method call that applying f makes, in call order, with the true module, method, '
     'input and output shapes/dtypes, the chain of enclosing calls and the parameters and state of that module and '
     'the modules inside it, without computing anything. tabulate shows exactly those records that pass the '
     'filters, one row each, with the chosen columns, parameter counts and byte sizes. Both accept plain and transformed functions and may be used from several threads; unknown columns or filters raise ValueError.',
     ['programs', 'configurations', 'schedules'],
     'all functions, columns and filters',
     'Tests summarise one MLP and two tiny modules.',
     ['haiku/_src/summarise.py', 'haiku/_src/utils.py'],
     [('logging interceptor', 'haiku/_src/summarise.py')],
     ['records and table cells'],
     'trace checker: summary records versus a log written by the modules themselves')

prop('C25', 'Graphs drawn by to_dot show exactly the computation that happens',
     'to_dot(f)(args) returns well-formed DOT text with one node per JAX operation that f executes, showing its name and output '
     'shapes, inside nested clusters that mirror the module method calls made, and abstract_to_dot gives the same '
     'graph from abstract inputs. Edges connect each operation with exactly the operations, arguments and '
     'captured values it consumes, every edge endpoint is a drawn node, each use of an argument has its own '
     'labelled node, and operations producing outputs of f are labelled with their place in the output. '
     'Drawing leaves global settings as they were.',
     ['programs', 'inputs'],
     'all functions of arrays built from JAX operations and modules',
     'Tests check substrings of the text for three small functions.',
     ['haiku/_src/dot.py'],
     [('tracer recording operations', 'haiku/_src/dot.py DotTrace'), ('rendering', 'haiku/_src/dot.py _graph_to_dot')],
     ['the DOT text'],
     'trace checker: parsed DOT graph versus a log written by the function itself')


prop('C26', 'init and apply compose with every JAX transformation',
     'init and apply of a transformed function may be wrapped in any stack of jax.jit, vmap, pmap, grad, jvp, vjp, linearize, '
     'checkpoint, eval_shape, make_jaxpr and lax control flow, and then give the values, derivatives (with respect to '
     'parameters, state and inputs), shapes and dtypes which the same transformations give for the corresponding pure function of '
     'parameters, state, key and inputs. What init and apply return has one fixed pytree structure, so that a '
     'jitted training step that feeds it back is traced once. No tracer leaks out of a call, and finished or failed calls '
     'keep none of their arguments or modules alive.',
     ['programs', 'inputs', 'histories'],
     'all transformed functions and all stacks of JAX transformations around init/apply',
     'Tests wrap a few fixed functions in one transformation each; leaks, retracing and stale references do not change the '
     'result of any single call.',
     ['haiku/_src/transform.py', 'haiku/_src/base.py', 'haiku/_src/data_structures.py', 'haiku/_src/module.py'],
     [('pure init/apply', 'haiku/_src/transform.py'), ('FlatMapping pytree', 'haiku/_src/data_structures.py')],
     ['results of transformed init/apply', 'trace counts', 'jax leak checker', 'weak references to arguments and modules'],
     'differential monitor against a pure reference function under random transformation stacks; JAX leak sanitizer; liveness monitor')

prop('C27', 'Modules stay ordinary Python classes with faithful reprs',
     'Deriving from hk.Module changes nothing about a class as Python: methods (inherited, overridden, decorated, '
     'called through super() or unbound), properties with setters and deleters, class and static methods, operators, '
     'attributes, exceptions, mixins, dataclasses, abstract, generic and protocol classes behave as they would without it, whatever their arguments are '
     'called, and names, docs, signatures and annotations of methods are kept. Instance methods and property accessors '
     '(get, set, delete) run in the scope of their module, class, static and transparent methods in the caller\'s. repr(module) reads as the constructor call with exactly the '
     'arguments that were given and differ from their defaults.',
     ['programs', 'inputs'],
     'all module class hierarchies, all operations on instances, all constructor signatures and arguments',
     'Tests check a few hand-written classes; every wrapper the metaclass adds acts on every user class.',
     ['haiku/_src/module.py', 'haiku/_src/utils.py'],
     [('ModuleMetaclass wraps methods and properties', 'haiku/_src/module.py'), ('auto_repr', 'haiku/_src/utils.py')],
     ['results and exceptions of operations on module instances and classes', 'repr'],
     'differential monitor: generated class hierarchies over a plain base and over hk.Module, same operations; repr evaluated back')


def main():
  with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for p in P:
      f.write(json.dumps(dict(
          id=p['id'], title=p['title'], statement=p['statement'],
          quantifier=dict(over=p['over'], text=p['text']),
          why_tests_cant=p['why'],
          anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']],
                       observe_at=p['observe'], hook_needed=None))) + '\n')
  man = dict(
      version=1, setup_cmd='bash setup.sh',
      checks=[dict(property=p['id'], quick_cmd=f"bash run.sh {p['id']} quick",
                   thorough_cmd=f"bash run.sh {p['id']} thorough",
                   evidence_file=f"evidence/{p['id']}.json", technique=p['technique'], level=p['level'],
                   level_note=(COMMON + ' ' + p['note']).strip()) for p in P],
      not_applicable=[],
      notes='No hooks in /repo: all observation happens at the public API and through interpreter tracing. '
            'See DESIGN.md and KNOWN_FINDINGS.txt.')
  with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
    f.write('\n')
  for p in P:
    assert len(p['title']) <= 80, p['title']


if __name__ == '__main__':
  main()
