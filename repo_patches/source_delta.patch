From 27faca09bee5295c7ffee2cba02969c8406faa47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:27:52 +0000
Subject: [PATCH 01/31] fix: use collections.abc for the ABCs removed from
 collections in Python 3.10

collections.Sequence/Mapping/Iterable no longer exist, so convolutions,
padding, LayerNorm/GroupNorm with a sequence axis and every hk.* JAX
transform that threads state raised AttributeError.
---
 haiku/_src/group_norm.py | 2 +-
 haiku/_src/layer_norm.py | 2 +-
 haiku/_src/stateful.py   | 2 +-
 haiku/_src/utils.py      | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/haiku/_src/group_norm.py b/haiku/_src/group_norm.py
index 55c7956..17f40a5 100644
--- a/haiku/_src/group_norm.py
+++ b/haiku/_src/group_norm.py
@@ -109,7 +109,7 @@ class GroupNorm(hk.Module):
       self.axis = axis
     elif isinstance(axis, int):
       self.axis = (axis,)
-    elif (isinstance(axis, collections.Iterable) and
+    elif (isinstance(axis, collections.abc.Iterable) and
           all(isinstance(ax, int) for ax in axis)):
       self.axis = axis
     else:
diff --git a/haiku/_src/layer_norm.py b/haiku/_src/layer_norm.py
index 257f28c..d04e107 100644
--- a/haiku/_src/layer_norm.py
+++ b/haiku/_src/layer_norm.py
@@ -75,7 +75,7 @@ class LayerNorm(hk.Module):
       self.axis = axis
     elif isinstance(axis, int):
       self.axis = (axis,)
-    elif (isinstance(axis, collections.Iterable) and
+    elif (isinstance(axis, collections.abc.Iterable) and
           all(isinstance(ax, int) for ax in axis)):
       self.axis = tuple(axis)
     else:
diff --git a/haiku/_src/stateful.py b/haiku/_src/stateful.py
index 7d73dca..eadae01 100644
--- a/haiku/_src/stateful.py
+++ b/haiku/_src/stateful.py
@@ -45,7 +45,7 @@ def internal_state(*, params=True) -> InternalState:
 
 def update_recursive(dst: MutableMapping[Any, Any], src: Mapping[Any, Any]):
   for k, v in src.items():
-    if isinstance(v, collections.Mapping):
+    if isinstance(v, collections.abc.Mapping):
       dst.setdefault(k, {})
       update_recursive(dst[k], v)
     else:
diff --git a/haiku/_src/utils.py b/haiku/_src/utils.py
index c28ad21..06b4c06 100644
--- a/haiku/_src/utils.py
+++ b/haiku/_src/utils.py
@@ -119,7 +119,7 @@ def replicate(
 ) -> Tuple[T]:
   """Replicates entry in `element` `num_times` if needed."""
   if (isinstance(element, (str, bytes)) or
-      not isinstance(element, collections.Sequence)):
+      not isinstance(element, collections.abc.Sequence)):
     return (element,) * num_times
   elif len(element) == 1:
     return tuple(element * num_times)
-- 
2.43.0


From 1e554ae4c289142d7403f6cf88047a28a7d9b184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:28:05 +0000
Subject: [PATCH 02/31] fix: replace the removed jax.tree_multimap with
 jax.tree_map

tree_multimap no longer exists in JAX; hk.cond/scan/fori_loop, recurrent
unrolls and ResetCore raised AttributeError.
---
 haiku/_src/recurrent.py | 12 ++++++------
 haiku/_src/stateful.py  |  6 +++---
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/haiku/_src/recurrent.py b/haiku/_src/recurrent.py
index 306c518..2fd5559 100644
--- a/haiku/_src/recurrent.py
+++ b/haiku/_src/recurrent.py
@@ -129,7 +129,7 @@ def static_unroll(core, input_sequence, initial_state, time_major=True):
     output_sequence.append(outputs)
 
   # Stack outputs along the time axis.
-  output_sequence = jax.tree_multimap(
+  output_sequence = jax.tree_map(
       lambda *args: jnp.stack(args, axis=time_axis),
       *output_sequence)
   return output_sequence, state
@@ -670,14 +670,14 @@ class ResetCore(RNNCore):
     # >> batch_entry 1:
     # >>  [[0. 0.]
     # >>  [0. 0.]]
-    should_reset = jax.tree_multimap(_validate_and_conform, should_reset, state)
+    should_reset = jax.tree_map(_validate_and_conform, should_reset, state)
     if self._is_batched(state):
       batch_size = jax.tree_leaves(inputs)[0].shape[0]
     else:
       batch_size = None
-    initial_state = jax.tree_multimap(
+    initial_state = jax.tree_map(
         lambda s, i: i.astype(s.dtype), state, self.initial_state(batch_size))
-    state = jax.tree_multimap(jnp.where, should_reset, initial_state, state)
+    state = jax.tree_map(jnp.where, should_reset, initial_state, state)
     return self.core(inputs, state)
 
   def initial_state(self, batch_size: Optional[int]):
@@ -718,7 +718,7 @@ class _DeepRNN(RNNCore):
     concat = lambda *args: jnp.concatenate(args, axis=-1)
     for idx, layer in enumerate(self.layers):
       if self.skip_connections and idx > 0:
-        current_inputs = jax.tree_multimap(concat, inputs, current_inputs)
+        current_inputs = jax.tree_map(concat, inputs, current_inputs)
 
       if isinstance(layer, RNNCore):
         current_inputs, next_state = layer(current_inputs, state[state_idx])
@@ -729,7 +729,7 @@ class _DeepRNN(RNNCore):
         current_inputs = layer(current_inputs)
 
     if self.skip_connections:
-      out = jax.tree_multimap(concat, *outputs)
+      out = jax.tree_map(concat, *outputs)
     else:
       out = current_inputs
 
diff --git a/haiku/_src/stateful.py b/haiku/_src/stateful.py
index eadae01..38d5c18 100644
--- a/haiku/_src/stateful.py
+++ b/haiku/_src/stateful.py
@@ -308,7 +308,7 @@ def difference(before: InternalState, after: InternalState) -> InternalState:
   is_new_param = lambda a, b: a is not b
   params_before, params_after = box_and_fill_missing(before.params,
                                                      after.params)
-  params_after = jax.tree_multimap(functools.partial(if_changed, is_new_param),
+  params_after = jax.tree_map(functools.partial(if_changed, is_new_param),
                                    params_before, params_after)
 
   # state
@@ -316,7 +316,7 @@ def difference(before: InternalState, after: InternalState) -> InternalState:
     return a.initial is not b.initial or a.current is not b.current
 
   state_before, state_after = box_and_fill_missing(before.state, after.state)
-  state_after = jax.tree_multimap(functools.partial(if_changed, is_new_state),
+  state_after = jax.tree_map(functools.partial(if_changed, is_new_state),
                                   state_before, state_after)
 
   # rng
@@ -505,7 +505,7 @@ def scan(f, init, xs, length=None, reverse=False, unroll=1):
   update_internal_state(state)
 
   if running_init_fn:
-    ys = jax.tree_multimap(lambda y0, ys: jnp.concatenate([y0, ys]), y0, ys)
+    ys = jax.tree_map(lambda y0, ys: jnp.concatenate([y0, ys]), y0, ys)
 
   return carry, ys
 
-- 
2.43.0


From 8ec535b5cfa114719290d8fed9239086fb277920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:37 +0000
Subject: [PATCH 03/31] fix: keep per-step outputs in order for reversed
 hk.scan during init

The step unrolled during init consumes the last element of xs when
reverse=True, but its output was placed first instead of last.
---
 haiku/_src/stateful.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/haiku/_src/stateful.py b/haiku/_src/stateful.py
index 38d5c18..7384c42 100644
--- a/haiku/_src/stateful.py
+++ b/haiku/_src/stateful.py
@@ -505,7 +505,10 @@ def scan(f, init, xs, length=None, reverse=False, unroll=1):
   update_internal_state(state)
 
   if running_init_fn:
-    ys = jax.tree_map(lambda y0, ys: jnp.concatenate([y0, ys]), y0, ys)
+    # The unrolled step consumed the last element of `xs` if `reverse` is set.
+    ys = jax.tree_map(
+        lambda y0, ys: jnp.concatenate([ys, y0] if reverse else [y0, ys]),
+        y0, ys)
 
   return carry, ys
 
-- 
2.43.0


From 9dd5922f5bc3b1766c3213f084bc2e078e3dcdcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:41 +0000
Subject: [PATCH 04/31] fix: detect every state or key use in an hk.while_loop
 condition

Changes were detected by comparing object ids of values that were not kept
alive, so a state set twice could go unnoticed when Python reused the id,
and a reserved key that was consumed was never noticed. Both silently
dropped the update.
---
 haiku/_src/base.py | 38 +++++++++++++++++++-------------------
 1 file changed, 19 insertions(+), 19 deletions(-)

diff --git a/haiku/_src/base.py b/haiku/_src/base.py
index a2bb0b0..2f14e8f 100644
--- a/haiku/_src/base.py
+++ b/haiku/_src/base.py
@@ -18,7 +18,7 @@ import collections
 import contextlib
 from typing import (Callable, Iterator, Iterable, MutableMapping, NamedTuple,
                     Optional, Set, Tuple, Union, Any, Sequence, Mapping,
-                    FrozenSet)
+                    FrozenSet, List)
 import warnings
 
 from haiku._src import data_structures
@@ -803,8 +803,8 @@ def assert_no_new_parameters():
     raise AssertionError(f"New parameters were created: {list(sorted(diff))}")
 
 
-def _get_ids(collection_name: str) -> FrozenSet[int]:
-  """Returns the identity for all state in the current context."""
+def _get_values(collection_name: str) -> List[Any]:
+  """Returns all values held in the given collection in the current context."""
   out = []
   collection = getattr(current_frame(), collection_name)
   for mod_name, bundle in collection.items():
@@ -813,37 +813,37 @@ def _get_ids(collection_name: str) -> FrozenSet[int]:
       warnings.warn(f"Invalid entry {mod_name!r} in collection {collection}")
       continue
 
-    out.extend(map(id, bundle.values()))
+    out.extend(bundle.values())
 
-  return frozenset(out)
+  return out
 
 
 def _all_state():
-  params = _get_ids("params")
-  state = _get_ids("state")
+  params = _get_values("params")
+  state = _get_values("state")
   rng = current_frame().rng_stack.peek()
   if rng is not None:
     key, subkeys = rng.internal_state
-    rng = frozenset(map(id, [key] + list(subkeys)))
+    rng = [key] + list(subkeys)
   else:
-    rng = frozenset()
+    rng = []
   return params, state, rng
 
 
 @contextlib.contextmanager
 def assert_state_unchanged():
   """Asserts that in the given block params, state and rng are unchanged."""
-  params_before, state_before, rng_before = _all_state()
+  # NOTE: We hold on to the values (and not just their ids) such that Python
+  # cannot reuse the id of a value that was replaced inside the block.
+  before = _all_state()
   yield
-  params_after, state_after, rng_after = _all_state()
-
-  params_diff = params_after - params_before
-  state_diff = state_after - state_before
-  rng_diff = rng_after - rng_before
-  if params_diff or state_diff or rng_diff:
-    raise StateChangedError("Within this code block you are not able to modify "
-                            "Haiku managed state (e.g. via `next_rng_key` or "
-                            "`set_state`).")
+  after = _all_state()
+
+  for a, b in zip(before, after):
+    if len(a) != len(b) or any(x is not y for x, y in zip(a, b)):
+      raise StateChangedError("Within this code block you are not able to "
+                              "modify Haiku managed state (e.g. via "
+                              "`next_rng_key` or `set_state`).")
 
 
 class StateChangedError(AssertionError):
-- 
2.43.0


From 8f1eee24ab5e9552eb0c2ac136050f71e34bab7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:37 +0000
Subject: [PATCH 05/31] fix: let hk.while_loop bodies use RNG keys when keys
 are reserved

As in cond/scan/fori_loop the number of reserved keys must be the same
before and after the body, otherwise JAX rejects the loop carry (e.g.
hk.while_loop after hk.cond or hk.reserve_rng_keys).
---
 haiku/_src/stateful.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/haiku/_src/stateful.py b/haiku/_src/stateful.py
index 7384c42..1a62702 100644
--- a/haiku/_src/stateful.py
+++ b/haiku/_src/stateful.py
@@ -601,9 +601,11 @@ def while_loop(cond_fun, body_fun, init_val):
     val, state = val
     with temporary_internal_state(state):
       val = body_fun(val)
+      reserve_up_to_full_rng_block()
       state = internal_state()
       return val, state
 
+  reserve_up_to_full_rng_block()
   init_val = (init_val, internal_state())
   val, state = jax.lax.while_loop(pure_cond_fun, pure_body_fun, init_val)
   update_internal_state(state)
-- 
2.43.0


From e1e57852faeda867904f10adb5612726757a63e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:57 +0000
Subject: [PATCH 06/31] fix: accept JAX's symbolic_zeros argument in
 hk.experimental.to_dot

Newer JAX passes symbolic_zeros to process_custom_{jvp,vjp}_call, so any
function using a custom derivative rule raised TypeError.
---
 haiku/_src/dot.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/haiku/_src/dot.py b/haiku/_src/dot.py
index cebe56d..c241c95 100644
--- a/haiku/_src/dot.py
+++ b/haiku/_src/dot.py
@@ -224,15 +224,15 @@ class DotTrace(jax.core.Trace):
 
   process_map = process_call
 
-  def process_custom_jvp_call(self, primitive, fun, jvp, tracers):
+  def process_custom_jvp_call(self, primitive, fun, jvp, tracers, **kwargs):
     # Drop the custom differentiation rule.
-    del primitive, jvp  # Unused.
+    del primitive, jvp, kwargs  # Unused.
     return fun.call_wrapped(*tracers)
 
   def process_custom_vjp_call(self, primitive, fun, fwd, bwd, tracers,
-                              out_trees):
+                              out_trees, **kwargs):
     # Drop the custom differentiation rule.
-    del primitive, fwd, bwd, out_trees  # Unused.
+    del primitive, fwd, bwd, out_trees, kwargs  # Unused.
     return fun.call_wrapped(*tracers)
 
 
-- 
2.43.0


From 54359075ebb302393423f923fee770c7c23024fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:27 +0000
Subject: [PATCH 07/31] fix: make hk.experimental.optimize_rng_use safe to use
 from several threads

Counting key requests monkey patched a module global, so functions traced
concurrently counted (and lost) each other's requests and the keys a
function saw depended on thread timing. Count with a thread local hook.
---
 haiku/_src/base.py   | 9 ++++-----
 haiku/_src/random.py | 9 ++-------
 2 files changed, 6 insertions(+), 12 deletions(-)

diff --git a/haiku/_src/base.py b/haiku/_src/base.py
index 2f14e8f..c9b5b11 100644
--- a/haiku/_src/base.py
+++ b/haiku/_src/base.py
@@ -48,6 +48,8 @@ param_creator_stack: ThreadLocalStack["Creator"] = ThreadLocalStack()
 state_creator_stack: ThreadLocalStack["Creator"] = ThreadLocalStack()
 param_getter_stack: ThreadLocalStack["Getter"] = ThreadLocalStack()
 state_getter_stack: ThreadLocalStack["Getter"] = ThreadLocalStack()
+next_rng_key_hook_stack: ThreadLocalStack[Callable[[], None]] = (
+    ThreadLocalStack())
 
 
 class Frame(NamedTuple):
@@ -610,11 +612,8 @@ def next_rng_key() -> PRNGKey:
     used with APIs such as :func:`jax.random.uniform`.
   """
   assert_context("next_rng_key")
-  return next_rng_key_internal()
-
-
-# NOTE: Split for monkey patching in random.py.
-def next_rng_key_internal() -> PRNGKey:
+  for hook in next_rng_key_hook_stack:
+    hook()
   rng_seq = rng_seq_or_fail()
   return next(rng_seq)
 
diff --git a/haiku/_src/random.py b/haiku/_src/random.py
index 5b87314..1e63a14 100644
--- a/haiku/_src/random.py
+++ b/haiku/_src/random.py
@@ -29,15 +29,10 @@ def count_hk_rngs_requested():
   # TODO(tomhennigan): Don't include keys returned under a `with_rng` context.
   # TODO(tomhennigan): Optimize use of keys within a `with_rng` heading as well.
   count = [0]
-  orig_next_rng_key = base.next_rng_key_internal
-  def counting_next_rng_key(*a, **k):
+  def count_key():
     count[0] += 1
-    return orig_next_rng_key(*a, **k)
-  try:
-    base.next_rng_key_internal = counting_next_rng_key
+  with base.next_rng_key_hook_stack(count_key):
     yield lambda: count[0]
-  finally:
-    base.next_rng_key_internal = orig_next_rng_key
 
 
 def optimize_rng_use(fun):
-- 
2.43.0


From 0e777c03b84cee6411318f6a532497736dcb62f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:33 +0000
Subject: [PATCH 08/31] fix: hk.without_apply_rng returns the kind of transform
 it was given

It always returned a TransformedWithState, so a stateless transform was
mistaken for a stateful one by anything that checks the type (including
without_apply_rng itself).
---
 haiku/_src/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/haiku/_src/transform.py b/haiku/_src/transform.py
index b439f7e..318c352 100644
--- a/haiku/_src/transform.py
+++ b/haiku/_src/transform.py
@@ -145,7 +145,7 @@ def without_apply_rng(f: TransformedT) -> TransformedT:
 
   tie_in_original_fn(f, f.init, apply_fn)
 
-  return TransformedWithState(init=f.init, apply=apply_fn)
+  return type(f)(init=f.init, apply=apply_fn)
 
 
 # TODO(tomhennigan) Remove apply_rng.
-- 
2.43.0


From 4650cb0e4bfe9484caa7b6c38962021a53b528be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:20 +0000
Subject: [PATCH 09/31] fix: accept the documented (low, high) padding pairs in
 convolutions

---
 haiku/_src/pad.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/haiku/_src/pad.py b/haiku/_src/pad.py
index dd99f2a..0bd0ec1 100644
--- a/haiku/_src/pad.py
+++ b/haiku/_src/pad.py
@@ -83,7 +83,9 @@ def create(
       lambda kernel, rate: (kernel - 1) * rate + 1,
       utils.replicate(kernel, n, "kernel"), utils.replicate(rate, n, "rate"))
   paddings = map(  # pylint: disable=deprecated-lambda
-      lambda x, y: x(y), utils.replicate(padding, n, "padding"),
+      # Explicit `(low, high)` pairs are used as given.
+      lambda x, y: x(y) if callable(x) else tuple(x),
+      utils.replicate(padding, n, "padding"),
       effective_kernel_size)
 
   return tuple(paddings)
-- 
2.43.0


From c0ce42a34dcd28d96149f73f6f74a7bc1c542aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:52 +0000
Subject: [PATCH 10/31] fix: support low precision values in
 ExponentialMovingAverage warmup

With warmup_length > 0 the decay (converted to the dtype of the value) was
selected against a float32 zero, which lax.select rejects for float16 and
bfloat16 values.
---
 haiku/_src/moving_averages.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/haiku/_src/moving_averages.py b/haiku/_src/moving_averages.py
index b5f0e35..db47470 100644
--- a/haiku/_src/moving_averages.py
+++ b/haiku/_src/moving_averages.py
@@ -115,7 +115,7 @@ class ExponentialMovingAverage(hk.Module):
 
     decay = jax.lax.convert_element_type(self.decay, value.dtype)
     if self.warmup_length > 0:
-      decay = jax.lax.select(counter <= 0, 0.0, decay)
+      decay = jax.lax.select(counter <= 0, jnp.zeros_like(decay), decay)
 
     one = jnp.ones([], value.dtype)
     hidden = hk.get_state("hidden", value.shape, value.dtype, init=jnp.zeros)
-- 
2.43.0


From a319a23e2b14ee0bd8a83607bddbc87769d2bbec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:52 +0000
Subject: [PATCH 11/31] fix: negative axes in GroupNorm refer to the input

Negative axes were applied to the input after the group axis had been
inserted: with channels_last an axis of -2 averaged over the groups, and with
channels_first an axis of -1 averaged over the batch.
---
 haiku/_src/group_norm.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/haiku/_src/group_norm.py b/haiku/_src/group_norm.py
index 17f40a5..0226f87 100644
--- a/haiku/_src/group_norm.py
+++ b/haiku/_src/group_norm.py
@@ -221,6 +221,10 @@ class GroupNorm(hk.Module):
       axes = tuple(range(self.rank))
       self.axis = axes[self.axis]
 
+    # Axes refer to the input, count them from the start before adding a group
+    # axis.
+    self.axis = tuple(a + self.rank if a < 0 else a for a in self.axis)
+
     if self.channel_index == -1:
       self.axis = tuple(a if a != self.rank - 1 else a + 1 for a in self.axis)
       self.group_shape = (
-- 
2.43.0


From 0af6d675fc6aa3ea585ee7fbb452928edf7bd948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:02 +0000
Subject: [PATCH 12/31] fix: GroupNorm handles inputs whose size changes
 between calls

The grouped shape of the first input was reused for every later call, so an
input of another size was silently folded into the batch axis (or rejected)
although only the rank has to stay the same.
---
 haiku/_src/group_norm.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/haiku/_src/group_norm.py b/haiku/_src/group_norm.py
index 0226f87..f44cf4c 100644
--- a/haiku/_src/group_norm.py
+++ b/haiku/_src/group_norm.py
@@ -181,7 +181,7 @@ class GroupNorm(hk.Module):
           f"was channels={channels}, groups={self.groups}")
 
     if self.rank is None:
-      self._initialize(x, channels)
+      self._initialize(x)
 
     dtype = x.dtype
     if self.channel_index == -1:
@@ -196,11 +196,19 @@ class GroupNorm(hk.Module):
     if self.create_offset:
       offset = hk.get_parameter("offset", params_shape, dtype, self.offset_init)
 
-    x = x.reshape(self.group_shape)
+    input_shape = x.shape
+    if self.channel_index == -1:
+      group_shape = (
+          x.shape[:-1] + (self.groups, channels // self.groups))
+    else:
+      group_shape = (
+          x.shape[:1] + (self.groups, channels // self.groups) + x.shape[2:])
+
+    x = x.reshape(group_shape)
     mean = jnp.mean(x, self.axis, keepdims=True)
     var = jnp.var(x, self.axis, keepdims=True)
     x = (x - mean) * jax.lax.rsqrt(var + self.eps)
-    x = x.reshape(self.first_input_shape)
+    x = x.reshape(input_shape)
 
     if scale is not None:
       scale = jax.lax.broadcast_to_rank(scale, x.ndim)
@@ -212,7 +220,7 @@ class GroupNorm(hk.Module):
 
     return x
 
-  def _initialize(self, x: jnp.ndarray, channels: int):
+  def _initialize(self, x: jnp.ndarray):
     assert self.rank is None
     self.rank = x.ndim
 
@@ -227,12 +235,6 @@ class GroupNorm(hk.Module):
 
     if self.channel_index == -1:
       self.axis = tuple(a if a != self.rank - 1 else a + 1 for a in self.axis)
-      self.group_shape = (
-          (-1,) + x.shape[1:-1] + (self.groups, channels // self.groups))
     else:
       assert self.channel_index == 1
       self.axis = tuple(a if a == 0 else a + 1 for a in self.axis)
-      self.group_shape = (
-          (-1, self.groups, channels // self.groups) + x.shape[2:])
-
-    self.first_input_shape = (-1,) + x.shape[1:]
-- 
2.43.0


From 389007a7e3eb25aaa4e1a3b213195ca62bf4f567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:05 +0000
Subject: [PATCH 13/31] fix: InstanceNorm creates per channel parameters for
 channels_first inputs

scale and offset were always sized and applied along the last axis, which for
channels_first inputs is a spatial one.
---
 haiku/_src/layer_norm.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/haiku/_src/layer_norm.py b/haiku/_src/layer_norm.py
index d04e107..7f522cc 100644
--- a/haiku/_src/layer_norm.py
+++ b/haiku/_src/layer_norm.py
@@ -81,6 +81,7 @@ class LayerNorm(hk.Module):
     else:
       raise ValueError("`axis` should be an int, slice or iterable of ints.")
 
+    self._channel_index = -1
     self.eps = eps
     self.create_scale = create_scale
     self.create_offset = create_offset
@@ -123,7 +124,10 @@ class LayerNorm(hk.Module):
     mean = jnp.mean(inputs, axis=axis, keepdims=True)
     variance = jnp.var(inputs, axis=axis, keepdims=True)
 
-    param_shape = inputs.shape[-1:]
+    if self._channel_index == 1:
+      param_shape = inputs.shape[1:2] + (1,) * (inputs.ndim - 2)
+    else:
+      param_shape = inputs.shape[-1:]
     if self.create_scale:
       scale = hk.get_parameter("scale", param_shape, inputs.dtype,
                                init=self.scale_init)
@@ -180,7 +184,8 @@ class InstanceNorm(LayerNorm):
         default it is ``channels_last``.
       name: Name of the module.
     """
-    if utils.get_channel_index(data_format) == 1:
+    channel_index = utils.get_channel_index(data_format)
+    if channel_index == 1:
       axis = slice(2, None)
     else:  # channel_index = -1
       axis = slice(1, -1)
@@ -192,3 +197,4 @@ class InstanceNorm(LayerNorm):
         scale_init=scale_init,
         offset_init=offset_init,
         name=name)
+    self._channel_index = channel_index
-- 
2.43.0


From 6ee2424fcb797972db5665b1a54b0b29fde4f401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:23 +0000
Subject: [PATCH 14/31] fix: masked MultiHeadAttention with float16 masks

1e10 overflows to infinity in float16, so unmasked positions were given a logit
of inf * 0 = NaN.
---
 haiku/_src/attention.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/haiku/_src/attention.py b/haiku/_src/attention.py
index 322dee1..c743f1a 100644
--- a/haiku/_src/attention.py
+++ b/haiku/_src/attention.py
@@ -74,7 +74,10 @@ class MultiHeadAttention(hk.Module):
     sqrt_key_size = np.sqrt(self.key_size).astype(key.dtype)
     attention_logits = attention_logits / sqrt_key_size
     if mask is not None:
-      attention_logits -= 1e10 * (1. - mask)
+      inverse_mask = 1. - jnp.asarray(mask)
+      # Avoid overflow in low precision, where `inf * 0.` would give NaNs.
+      large = min(1e10, float(jnp.finfo(inverse_mask.dtype).max) / 2)
+      attention_logits -= large * inverse_mask
 
     attention_weights = jax.nn.softmax(attention_logits)
     attention = jnp.einsum("bhtT,bThd->bthd", attention_weights, value_heads)
-- 
2.43.0


From 1548dd0b99ce3654d0e7b63923e355497358ec6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:38 +0000
Subject: [PATCH 15/31] fix: summaries do not make callers submodules of the
 modules they call

---
 haiku/_src/summarise.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/haiku/_src/summarise.py b/haiku/_src/summarise.py
index 7583547..61bc539 100644
--- a/haiku/_src/summarise.py
+++ b/haiku/_src/summarise.py
@@ -39,6 +39,7 @@ hk.experimental.intercept_methods = module_lib.intercept_methods
 hk.transform_with_state = transform.transform_with_state
 hk.Transformed = transform.Transformed
 hk.TransformedWithState = transform.TransformedWithState
+params_or_state_dict = module_lib.params_or_state_dict
 del module_lib
 
 T = TypeVar("T")
@@ -85,8 +86,15 @@ class ModuleDetails:
 
   @classmethod
   def of(cls, module: hk.Module, method_name: str) -> "ModuleDetails":
-    params = jax.tree_map(ArraySpec.from_array, module.params_dict())
-    state = jax.tree_map(ArraySpec.from_array, module.state_dict())
+    # NOTE: `module.params_dict()` is a method call, and modules called inside
+    # another module's method are recorded as its submodules. Summarising a
+    # caller while inside its callee must not make it the callee's submodule.
+    params, state = (
+        jax.tree_map(
+            ArraySpec.from_array,
+            params_or_state_dict(
+                module.module_name, module._submodules, which))  # pylint: disable=protected-access
+        for which in ("params", "state"))
     return ModuleDetails(module=module, method_name=method_name, params=params,
                          state=state)
 
-- 
2.43.0


From 4549fdd6f7c1c6a68e8995d9b797ed9e2420c0e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:46 +0000
Subject: [PATCH 16/31] fix: connect all outputs of an operation in
 hk.experimental.to_dot

---
 haiku/_src/dot.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/haiku/_src/dot.py b/haiku/_src/dot.py
index c241c95..80d543e 100644
--- a/haiku/_src/dot.py
+++ b/haiku/_src/dot.py
@@ -279,7 +279,7 @@ def _graph_to_dot(graph: Graph, args, outputs) -> str:
   lines = []
   used_argids = set()
   argid_usecount = collections.Counter()
-  op_outids = set()
+  op_outids = {}  # From the id of any operation output to its node's id.
   captures = []
   argids = {id(v) for v in jax.tree_leaves(args)}
   outids = {id(v) for v in jax.tree_leaves(outputs)}
@@ -304,11 +304,12 @@ def _graph_to_dot(graph: Graph, args, outputs) -> str:
       label = f'<b>{escape(node.title)}</b>'
       for o in node.outputs:
         label += '<br/>' + _format_val(o)
-        op_outids.add(id(o))
+        op_outids[id(o)] = id(node.id)
 
       node_id = id(node.id)
-      if node_id in outids:
-        label = f'<b>{escape(outname[node_id])}</b><br/>' + label
+      node_outnames = [outname[id(o)] for o in node.outputs if id(o) in outids]
+      if node_outnames:
+        label = f'<b>{escape(", ".join(node_outnames))}</b><br/>' + label
         color = '#0053D6'
         fillcolor = '#AABFFF'
         style = 'filled,bold'
@@ -342,7 +343,7 @@ def _graph_to_dot(graph: Graph, args, outputs) -> str:
         argid_usecount[a] += 1
         lines.append(f'{a}{i} -> {b};')
       else:
-        lines.append(f'{a} -> {b};')
+        lines.append(f'{op_outids.get(a, a)} -> {b};')
       used_argids.add(a)
 
   graph_depth = _max_depth(graph)
-- 
2.43.0


From 2048c0540a339c8fc9e4914f910329a977edbb07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:32 +0000
Subject: [PATCH 17/31] fix: multinomial never draws a category of probability
 zero

---
 haiku/_src/basic.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/haiku/_src/basic.py b/haiku/_src/basic.py
index 9f90b42..f57b1b8 100644
--- a/haiku/_src/basic.py
+++ b/haiku/_src/basic.py
@@ -71,15 +71,17 @@ def multinomial(rng, logits, num_samples):
     raise ValueError("Logits must be rank-1 or rank-2.")
   probs = jax.nn.softmax(logits)
   probs = jnp.cumsum(probs, axis=-1)
+  # Make sure that neither end of [0, 1) falls to a zero probability category.
+  probs = probs / probs[..., -1:]
   # Special-case num_samples == 1 due to TPU padding, as in TF2XLA.
   # https://github.com/tensorflow/tensorflow/blob/b1608511d5a50d05825c4025b0c347e8689a241f/tensorflow/compiler/tf2xla/kernels/categorical_op.cc#L79
   if num_samples == 1:
     a = jax.random.uniform(rng, logits.shape[:-1] + (1,))
-    out = jnp.argmin(a > probs, axis=-1)
+    out = jnp.argmin(a >= probs, axis=-1)
     return out[..., None]
   else:
     a = jax.random.uniform(rng, (num_samples,) + logits.shape[:-1] + (1,))
-    out = jnp.argmin(a > probs, axis=-1)
+    out = jnp.argmin(a >= probs, axis=-1)
     return jnp.transpose(out)
 
 
-- 
2.43.0


From 8789b183949b2b38111b687bc8513486fa57c3d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:33 +0000
Subject: [PATCH 18/31] fix: Bias accepts any sequence as output_size

---
 haiku/_src/bias.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/haiku/_src/bias.py b/haiku/_src/bias.py
index 1dbb31b..3fcd08c 100644
--- a/haiku/_src/bias.py
+++ b/haiku/_src/bias.py
@@ -115,9 +115,10 @@ class Bias(hk.Module):
       A Tensor of size ``[batch_size, input_size1, ...]``.
     """
     utils.assert_minimum_rank(inputs, 2)
-    if self.output_size is not None and self.output_size != inputs.shape[1:]:
-      raise ValueError(
-          f"Input shape must be {(-1,) + self.output_size} not {inputs.shape}")
+    if (self.output_size is not None
+        and tuple(self.output_size) != inputs.shape[1:]):
+      raise ValueError(f"Input shape must be {(-1,) + tuple(self.output_size)} "
+                       f"not {inputs.shape}")
 
     self.bias_shape = calculate_bias_shape(inputs.shape, self.bias_dims)
     self.input_size = inputs.shape[1:]
-- 
2.43.0


From 6cec81eb2d9ccf41f47e9160846fe158c23ba5a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:04 +0000
Subject: [PATCH 19/31] fix: allow method and constructor arguments with any
 name

Keyword arguments called method_name, bound_method or cls (or params, state
and rng under optimize_rng_use) clashed with the arguments of Haiku's own
wrappers, e.g. 'run_interceptors() got multiple values for argument
'method_name''.
---
 haiku/_src/module.py | 18 ++++++++++--------
 haiku/_src/random.py |  4 ++--
 haiku/_src/utils.py  |  5 ++++-
 3 files changed, 16 insertions(+), 11 deletions(-)

diff --git a/haiku/_src/module.py b/haiku/_src/module.py
index ac0a3eb..7d52279 100644
--- a/haiku/_src/module.py
+++ b/haiku/_src/module.py
@@ -121,7 +121,11 @@ class ModuleMetaclass(type(Protocol)):
 
     return cls
 
-  def __call__(cls: Type[T], *args, **kwargs) -> T:  # pylint: disable=no-self-argument
+  def __call__(*args, **kwargs) -> T:  # pylint: disable=no-method-argument
+    # NOTE: Our own arguments are only taken by position, constructors may have
+    # arguments with any name.
+    cls, *args = args
+
     # Call new such that we have an un-initialized module instance that we can
     # still reference even if there is an exception during __init__. This is
     # needed such that we can make sure the name_scope constructed in __init__
@@ -267,14 +271,12 @@ def intercept_methods(interceptor: MethodGetter):
   return interceptor_stack(interceptor)
 
 
-def run_interceptors(  # pylint: disable=invalid-name
-    bound_method: Callable[..., Any],
-    method_name: str,
-    self: "Module",
-    *args: Args,
-    **kwargs: Kwargs,
-) -> Any:
+def run_interceptors(*args: Args, **kwargs: Kwargs) -> Any:
   """Runs any method interceptors or the original method."""
+  # NOTE: Our own arguments are only taken by position, methods may have
+  # arguments with any name.
+  bound_method, method_name, self, *args = args
+
   if not interceptor_stack:
     return bound_method(*args, **kwargs)
 
diff --git a/haiku/_src/random.py b/haiku/_src/random.py
index 1e63a14..6bd44d2 100644
--- a/haiku/_src/random.py
+++ b/haiku/_src/random.py
@@ -83,12 +83,12 @@ def optimize_rng_use(fun):
     if rng is not None:
       rng = rng.internal_state
 
-    def pure_fun(params, state, rng, *args, **kwargs):
+    def pure_fun(params, state, rng, args, kwargs):
       with base.new_context(params=params, state=state, rng=rng):
         return fun(*args, **kwargs)
 
     with count_hk_rngs_requested() as rng_count_f:
-      jax.eval_shape(pure_fun, params, state, rng, *args, **kwargs)
+      jax.eval_shape(pure_fun, params, state, rng, args, kwargs)
     rng_count = rng_count_f()
 
     if rng_count:
diff --git a/haiku/_src/utils.py b/haiku/_src/utils.py
index 06b4c06..4b22406 100644
--- a/haiku/_src/utils.py
+++ b/haiku/_src/utils.py
@@ -38,7 +38,7 @@ def compare_or_false(a, b) -> bool:
     return False
 
 
-def auto_repr(cls: Type[Any], *args, **kwargs) -> str:
+def auto_repr(*args, **kwargs) -> str:
   """Derives a `__repr__` from constructor arguments of a given class.
 
       >>> class Foo(object):
@@ -63,6 +63,9 @@ def auto_repr(cls: Type[Any], *args, **kwargs) -> str:
   Returns:
     A string representing a call equivalent to `cls(*args, **kwargs)`.
   """
+  # NOTE: `cls` is only taken by position, constructors may have an argument
+  # called `cls`.
+  cls, *args = args
   argspec = inspect.getfullargspec(cls.__init__)
   arg_names = argspec.args
   # Keep used positionals minus self.
-- 
2.43.0


From ccef38ec000ed354bd1c9b558db9a9f2afec9ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:20 +0000
Subject: [PATCH 20/31] fix: custom_creator and custom_getter act only inside
 their with-block

The hooks became active when the context manager was made instead of when it
was entered; entering two of them in another order than they were made failed
with an AssertionError.
---
 haiku/_src/base.py | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/haiku/_src/base.py b/haiku/_src/base.py
index c9b5b11..7a5d8d4 100644
--- a/haiku/_src/base.py
+++ b/haiku/_src/base.py
@@ -361,6 +361,15 @@ def run_creators(
   return next_creator(shape, dtype, init)
 
 
+@contextlib.contextmanager
+def _enter_contexts(contexts: Sequence[contextlib.AbstractContextManager]):
+  """Context manager that enters the given contexts (when it is entered)."""
+  with contextlib.ExitStack() as stack:
+    for context in contexts:
+      stack.enter_context(context)
+    yield
+
+
 def custom_creator(
     creator: Creator,
     *,
@@ -398,12 +407,12 @@ def custom_creator(
     Context manager under which the creator is active.
   """
   assert_context("experimental.custom_creator")
-  stack = contextlib.ExitStack()
+  contexts = []
   if params:
-    stack.enter_context(param_creator_stack(creator))
+    contexts.append(param_creator_stack(creator))
   if state:
-    stack.enter_context(state_creator_stack(creator))
-  return stack
+    contexts.append(state_creator_stack(creator))
+  return _enter_contexts(contexts)
 
 NextGetter = Callable[[str, jnp.ndarray], jnp.ndarray]
 Getter = Callable[[NextGetter, jnp.ndarray, GetterContext], jnp.ndarray]
@@ -466,12 +475,12 @@ def custom_getter(
     Context manager under which the getter is active.
   """
   assert_context("experimental.custom_getter")
-  stack = contextlib.ExitStack()
+  contexts = []
   if params:
-    stack.enter_context(param_getter_stack(getter))
+    contexts.append(param_getter_stack(getter))
   if state:
-    stack.enter_context(state_getter_stack(getter))
-  return stack
+    contexts.append(state_getter_stack(getter))
+  return _enter_contexts(contexts)
 
 
 def assert_is_prng_key(key: PRNGKey):
-- 
2.43.0


From bc5c6971d7a8d68ccd3103ee195808242997160e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:20 +0000
Subject: [PATCH 21/31] fix: hk.fori_loop with traced bounds during init

---
 haiku/_src/stateful.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/haiku/_src/stateful.py b/haiku/_src/stateful.py
index 1a62702..e6a6f26 100644
--- a/haiku/_src/stateful.py
+++ b/haiku/_src/stateful.py
@@ -533,7 +533,9 @@ def fori_loop(lower, upper, body_fun, init_val):
     # state before and after the body has the same structure.
     init_val = body_fun(lower, init_val)
     lower += 1
-    if upper - lower == 0:
+    remaining = upper - lower
+    # The bounds may be traced (e.g. `jax.jit(f.init)(rng, num_steps)`).
+    if not isinstance(remaining, jax.core.Tracer) and remaining == 0:
       return init_val
 
   reserve_up_to_full_rng_block()
-- 
2.43.0


From 5ecea70d9cd736d03c36d96c4ce0e1ed38c6b4f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:20 +0000
Subject: [PATCH 22/31] fix: hk.vmap accepts a list of in_axes like jax.vmap

---
 haiku/_src/stateful.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/haiku/_src/stateful.py b/haiku/_src/stateful.py
index e6a6f26..edc8780 100644
--- a/haiku/_src/stateful.py
+++ b/haiku/_src/stateful.py
@@ -550,6 +550,9 @@ def vmap(fun, in_axes=0, out_axes=0, axis_name=None):
   """Equivalent to :func:`jax.vmap` with module parameters/state not mapped."""
 
   # TODO(tomhennigan): Allow configuration of params/state/rng mapping.
+  # NOTE: Like jax.vmap we accept lists as well as tuples at the top level.
+  if isinstance(in_axes, list):
+    in_axes = tuple(in_axes)
   in_axes = in_axes, None
   out_axes = out_axes, None
 
-- 
2.43.0


From f4f77f08a058a52509e1020123446a96e073f407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:40 +0000
Subject: [PATCH 23/31] fix: optimize_rng_use works anywhere in a transformed
 function

Keys were counted in a new context, in which existing parameters were frozen
and module names differed, so that functions which create parameters failed in
init once any parameter existed, and arguments had to be arrays.
---
 haiku/_src/random.py | 24 ++++++------------------
 1 file changed, 6 insertions(+), 18 deletions(-)

diff --git a/haiku/_src/random.py b/haiku/_src/random.py
index 6bd44d2..2d23288 100644
--- a/haiku/_src/random.py
+++ b/haiku/_src/random.py
@@ -18,8 +18,7 @@ import contextlib
 import functools
 
 from haiku._src import base
-from haiku._src import data_structures
-import jax
+from haiku._src import stateful
 
 
 @contextlib.contextmanager
@@ -71,24 +70,13 @@ def optimize_rng_use(fun):
   def wrapper(*args, **kwargs):
     base.assert_context("optimize_rng_use")
 
-    # Extract all current state.
-    frame = base.current_frame()
-    params = frame.params or None
-    if params is not None:
-      params = data_structures.to_immutable_dict(params)
-    state = frame.state or None
-    if state is not None:
-      state = base.extract_state(state, initial=True)
-    rng = frame.rng_stack.peek()
-    if rng is not None:
-      rng = rng.internal_state
-
-    def pure_fun(params, state, rng, args, kwargs):
-      with base.new_context(params=params, state=state, rng=rng):
-        return fun(*args, **kwargs)
+    # NOTE: We count keys in a temporary copy of the current context, such that
+    # modules, parameters and state that already exist can be used by `fun`.
+    def run_fun():
+      fun(*args, **kwargs)
 
     with count_hk_rngs_requested() as rng_count_f:
-      jax.eval_shape(pure_fun, params, state, rng, args, kwargs)
+      stateful.eval_shape(run_fun)
     rng_count = rng_count_f()
 
     if rng_count:
-- 
2.43.0


From 8166786053e87606a8bc53a83da7b2c93417caa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:36 +0000
Subject: [PATCH 24/31] fix: eval_summary records module calls that raise

Such a call (whose exception the function handled) left a None record, which
made tabulate fail.
---
 haiku/_src/summarise.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/haiku/_src/summarise.py b/haiku/_src/summarise.py
index 61bc539..d3a9fa5 100644
--- a/haiku/_src/summarise.py
+++ b/haiku/_src/summarise.py
@@ -154,14 +154,18 @@ def log_used_modules(
 
   idx = len(used_modules)
   used_modules.append(None)
-  out = next_f(*args, **kwargs)
-  used_modules[idx] = MethodInvocation(
-      module_details=ModuleDetails.of(context.module, context.method_name),
-      args_spec=to_spec(args),
-      kwargs_spec=to_spec(kwargs),
-      output_spec=to_spec(out),
-      context=context,
-      call_stack=get_call_stack())
+  out = None
+  try:
+    out = next_f(*args, **kwargs)
+  finally:
+    # NOTE: Calls that raise (an exception the caller may handle) have no output.
+    used_modules[idx] = MethodInvocation(
+        module_details=ModuleDetails.of(context.module, context.method_name),
+        args_spec=to_spec(args),
+        kwargs_spec=to_spec(kwargs),
+        output_spec=to_spec(out),
+        context=context,
+        call_stack=get_call_stack())
   return out
 
 
-- 
2.43.0


From cb1352e15841d29b8b49016103f52f30477ecf85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:36 +0000
Subject: [PATCH 25/31] fix: to_dot draws operations of module methods that
 raise

The operations of a method call whose exception the function handled were
missing, and edges from their results started at undefined nodes.
---
 haiku/_src/dot.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/haiku/_src/dot.py b/haiku/_src/dot.py
index 80d543e..0b7495f 100644
--- a/haiku/_src/dot.py
+++ b/haiku/_src/dot.py
@@ -145,12 +145,15 @@ def to_graph(fun):
     @contextlib.contextmanager
     def method_hook(mod: module.Module, method_name: str):
       subg = Graph.create()
-      with graph_stack(subg):
-        yield
-      title = mod.module_name
-      if method_name != '__call__':
-        title += f' ({method_name})'
-      graph_stack.peek().subgraphs.append(subg.evolve(title=title))
+      try:
+        with graph_stack(subg):
+          yield
+      finally:
+        # NOTE: The caller may handle exceptions raised by the method.
+        title = getattr(mod, 'module_name', type(mod).__name__)
+        if method_name != '__call__':
+          title += f' ({method_name})'
+        graph_stack.peek().subgraphs.append(subg.evolve(title=title))
 
     with graph_stack(graph), \
          module.hook_methods(method_hook), \
-- 
2.43.0


From 93d9da0324e0cd388f4d264d7d32e85bdb7a777b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:49 +0000
Subject: [PATCH 26/31] fix: dictionaries as state values in control flow

Dictionaries in state become FlatMappings when a run ends, hk.cond, scan,
fori_loop and while_loop then failed at apply since the structure of the state
differed before and after the body.
---
 haiku/_src/stateful.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/haiku/_src/stateful.py b/haiku/_src/stateful.py
index edc8780..2ae70ac 100644
--- a/haiku/_src/stateful.py
+++ b/haiku/_src/stateful.py
@@ -20,6 +20,7 @@ import inspect
 from typing import Any, Callable, Mapping, MutableMapping, Optional, Tuple, TypeVar
 
 from haiku._src import base
+from haiku._src import data_structures
 import jax
 import jax.numpy as jnp
 
@@ -37,9 +38,15 @@ def internal_state(*, params=True) -> InternalState:
   rng = frame.rng_stack.peek()
   if rng is not None:
     rng = rng.internal_state
+  # NOTE: Dictionaries in state become immutable when a run ends, if we did not
+  # do the same here control flow would see two different structures.
+  freeze = lambda v: (data_structures.to_immutable_dict(v)
+                      if type(v) is dict else v)
+  state = {m: {k: base.StatePair(*map(freeze, v)) for k, v in p.items()}
+           for m, p in frame.state.items()}
   return InternalState(
       params=(copy_structure(frame.params) if params else None),
-      state=copy_structure(frame.state),
+      state=copy_structure(collections.defaultdict(dict, state)),
       rng=copy_structure(rng))
 
 
-- 
2.43.0


From a578026b400129f6598c762243557c3f5763618a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:49 +0000
Subject: [PATCH 27/31] fix: hk.vmap accepts keyword arguments like jax.vmap

---
 haiku/_src/stateful.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/haiku/_src/stateful.py b/haiku/_src/stateful.py
index 2ae70ac..8b7f79c 100644
--- a/haiku/_src/stateful.py
+++ b/haiku/_src/stateful.py
@@ -560,21 +560,22 @@ def vmap(fun, in_axes=0, out_axes=0, axis_name=None):
   # NOTE: Like jax.vmap we accept lists as well as tuples at the top level.
   if isinstance(in_axes, list):
     in_axes = tuple(in_axes)
-  in_axes = in_axes, None
+  # NOTE: Like jax.vmap we map all keyword arguments over their leading axis.
+  in_axes = in_axes, 0, None
   out_axes = out_axes, None
 
-  def pure_fun(args, state_in):
+  def pure_fun(args, kwargs, state_in):
     with temporary_internal_state(state_in):
-      out = fun(*args)
+      out = fun(*args, **kwargs)
       state_out = difference(state_in, internal_state())
       return out, state_out
 
   @functools.wraps(fun)
-  def mapped_fun(*args):
+  def mapped_fun(*args, **kwargs):
     mapped_pure_fun = jax.vmap(pure_fun, in_axes=in_axes, out_axes=out_axes,
                                axis_name=axis_name)
     state = internal_state()
-    out, state = mapped_pure_fun(args, state)
+    out, state = mapped_pure_fun(args, kwargs, state)
     update_internal_state(state)
     return out
 
-- 
2.43.0


From 25045d317d1d90cbb1fed47a252f09a4fc6af4fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:20 +0000
Subject: [PATCH 28/31] fix: returned state does not share containers with the
 caller

State values may be any pytree. Lists and ordered dictionaries in the state
returned by init and apply were the objects that the caller had passed in, such
that modifying them afterwards changed the returned state.
---
 haiku/_src/base.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/haiku/_src/base.py b/haiku/_src/base.py
index 7a5d8d4..0d441d8 100644
--- a/haiku/_src/base.py
+++ b/haiku/_src/base.py
@@ -656,8 +656,11 @@ def maybe_next_rng_key() -> Optional[PRNGKey]:
 
 
 def extract_state(state: MutableState, *, initial) -> State:
-  state = {m: {k: (v.initial if initial else v.current) for k, v in p.items()}
-           for m, p in state.items()}
+  # NOTE: Values may be any pytree, we copy their containers such that the state
+  # we return does not change if the caller modifies what they passed in.
+  copy = lambda v: jax.tree_map(lambda x: x, v)
+  state = {m: {k: copy(v.initial if initial else v.current)
+               for k, v in p.items()} for m, p in state.items()}
   state = data_structures.to_immutable_dict(state)
   return state
 
-- 
2.43.0


From f6f78344f29c02e99fc82799bcd51f99e28ce3fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:08 +0000
Subject: [PATCH 29/31] fix: MultiHeadAttention accepts empty batches

---
 haiku/_src/attention.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/haiku/_src/attention.py b/haiku/_src/attention.py
index c743f1a..1e56261 100644
--- a/haiku/_src/attention.py
+++ b/haiku/_src/attention.py
@@ -82,7 +82,8 @@ class MultiHeadAttention(hk.Module):
     attention_weights = jax.nn.softmax(attention_logits)
     attention = jnp.einsum("bhtT,bThd->bthd", attention_weights, value_heads)
     # Concatenate attention matrix of all heads into a single vector.
-    attention_vec = jnp.reshape(attention, (*query.shape[:2], -1))
+    attention_vec = jnp.reshape(
+        attention, (*query.shape[:2], self.num_heads * self.value_size))
 
     return hk.Linear(self.model_size, w_init=self.w_init)(attention_vec)
 
-- 
2.43.0


From 237dc21706e1a344e2791e001b80aa577475a6ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:57 +0000
Subject: [PATCH 30/31] fix: module names must not end in a newline

---
 haiku/_src/module.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/haiku/_src/module.py b/haiku/_src/module.py
index 7d52279..886ee0c 100644
--- a/haiku/_src/module.py
+++ b/haiku/_src/module.py
@@ -442,7 +442,7 @@ def wrap_method(method_name, unbound_method):
 
 
 _VALID_IDENTIFIER_R = re.compile(r"^[a-zA-Z_]([a-zA-Z0-9_])*$")
-valid_identifier = lambda name: bool(_VALID_IDENTIFIER_R.match(name))
+valid_identifier = lambda name: bool(_VALID_IDENTIFIER_R.fullmatch(name))
 
 
 class Module(object, metaclass=ModuleMetaclass):
-- 
2.43.0


From 941240bbcccab4fa755ebf651d4bd767c58ddaf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:18 +0000
Subject: [PATCH 31/31] fix: convolution masks in another float type than the
 inputs

---
 haiku/_src/conv.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/haiku/_src/conv.py b/haiku/_src/conv.py
index fb13147..655f118 100644
--- a/haiku/_src/conv.py
+++ b/haiku/_src/conv.py
@@ -190,7 +190,7 @@ class ConvND(hk.Module):
     w = hk.get_parameter("w", w_shape, inputs.dtype, init=w_init)
 
     if self.mask is not None:
-      w *= self.mask
+      w *= jnp.asarray(self.mask, w.dtype)
 
     out = lax.conv_general_dilated(inputs,
                                    w,
@@ -562,7 +562,7 @@ class ConvNDTranspose(hk.Module):
     w = hk.get_parameter("w", w_shape, inputs.dtype, init=w_init)
 
     if self.mask is not None:
-      w = w * self.mask
+      w = w * jnp.asarray(self.mask, w.dtype)
 
     padding = self.padding
     if self.output_shape is not None:
-- 
2.43.0

