From 36ba916c67044999e156f6cb190f63bacf0cf42f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:30 +0000
Subject: [PATCH 01/42] fix: pop_state terminates on cyclic modules and uses
 the same paths as get_state

The module was marked as visited only after its attributes were walked, so a
reference cycle recursed forever; attributes were walked in insertion order,
so a shared submodule was popped under another path than the one get_state
and filter report.
---
 nnx/module.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/nnx/module.py b/nnx/module.py
index 6c7b113..e731f3d 100644
--- a/nnx/module.py
+++ b/nnx/module.py
@@ -904,7 +904,10 @@ def _pop_recursive(
   if module._module__state.id in module_index:
     return
 
-  for name, value in list(vars(module).items()):
+  # mark as visited before recursing so reference cycles terminate
+  module_index[module._module__state.id] = len(module_index)
+
+  for name, value in sorted(vars(module).items(), key=lambda x: x[0]):
     if isinstance(value, Module):
       _pop_recursive(value, module_index, (*path_parts, name), states, predicates)
       continue
@@ -918,8 +921,6 @@ def _pop_recursive(
         delattr(module, name)
         break
 
-  module_index[module._module__state.id] = len(module_index)
-
 
 def _update_module(
     module: Module, current_state: State, updates: tp.Union[State, tp.Tuple[State, ...]]
-- 
2.43.0


From f0d16f7d2d8e223f2217d154d86e48618d001a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:48 +0000
Subject: [PATCH 02/42] fix: Pure.update_state applies the updates instead of
 discarding them

The current states were merged after the updates and overwrote them.
---
 nnx/module.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nnx/module.py b/nnx/module.py
index e731f3d..da03275 100644
--- a/nnx/module.py
+++ b/nnx/module.py
@@ -353,10 +353,11 @@ class Pure(tp.Tuple[S, ModuleDef[M]]):
           f"got {type(updates).__name__}"
       )
 
+    # later states take precedence, so the updates go last
     if isinstance(self.states, tuple):
-      states += self.states
+      states = self.states + states
     else:
-      states += (self.states,)
+      states = (self.states,) + states
 
     state = State.merge(*states)
     return Pure.new(state, self.moduledef)
-- 
2.43.0


From 1df39e43bcb40f2ec22aec518e5373d0d49b78f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:59 +0000
Subject: [PATCH 03/42] fix: MutableLeaf.sharding reads the container's
 sharding

Containers keep their metadata as attributes; the property raised
AttributeError for every node.
---
 nnx/module.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nnx/module.py b/nnx/module.py
index da03275..623a725 100644
--- a/nnx/module.py
+++ b/nnx/module.py
@@ -762,7 +762,7 @@ class MutableLeaf(reprlib.Representable):
     if not isinstance(attr, Node):
       return None
 
-    return attr.metadata.get("sharding", None)
+    return getattr(attr, "sharding", None)
 
 
 def _get_module_state(module: Module) -> State:
-- 
2.43.0


From 9fbbfd0e5b5900a51cbfc8b58872f5b176a3487b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:09 +0000
Subject: [PATCH 04/42] fix: ModuleDef equality includes the initializing flag

Submodule definitions that differ only in is_initializing compared equal, so
a jitted function could reuse a trace made for the other value.
---
 nnx/module.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nnx/module.py b/nnx/module.py
index 623a725..2720ed3 100644
--- a/nnx/module.py
+++ b/nnx/module.py
@@ -109,7 +109,9 @@ class ModuleDef(tp.Generic[M], reprlib.Representable):
     yield reprlib.Attr("static_fields", self._static_fields)
 
   def __hash__(self) -> int:
-    return hash((self._type, self._submodules, self._static_fields))
+    return hash(
+        (self._type, self._submodules, self._static_fields, self._module_state)
+    )
 
   def __eq__(self, other: tp.Any) -> bool:
     if not isinstance(other, ModuleDef):
@@ -118,6 +120,7 @@ class ModuleDef(tp.Generic[M], reprlib.Representable):
         self._type == other._type
         and self._submodules == other._submodules
         and self._static_fields == other._static_fields
+        and self._module_state == other._module_state
     )
 
   @property
-- 
2.43.0


From fa1ab123eb9ea79ebe8d0b8ac8ead8695e4fbbb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:30 +0000
Subject: [PATCH 05/42] fix: deleting a Module attribute checks the trace level
 like setting one

---
 nnx/module.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/nnx/module.py b/nnx/module.py
index 2720ed3..ba7f1b0 100644
--- a/nnx/module.py
+++ b/nnx/module.py
@@ -459,6 +459,11 @@ class Module(reprlib.Representable, metaclass=ModuleMeta):
     def __setattr__(self, name: str, value: Any) -> None:
       self._setattr(name, value)
 
+  def __delattr__(self, name: str) -> None:
+    if not self._module__state.trace_state.is_valid():
+      raise errors.TraceContextError("Cannot mutate Module from different trace level")
+    object.__delattr__(self, name)
+
   def _setattr(self, name: str, value: Any) -> None:
     if not self._module__state.trace_state.is_valid():
       raise errors.TraceContextError("Cannot mutate Module from different trace level")
-- 
2.43.0


From 9b6d124021994b8aade9785f4822e13f79a0281b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:40 +0000
Subject: [PATCH 06/42] fix: nnx.Dict follows the Mapping contract (no internal
 entry, KeyError on missing keys)

---
 nnx/helpers.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nnx/helpers.py b/nnx/helpers.py
index 25187c5..a52326b 100644
--- a/nnx/helpers.py
+++ b/nnx/helpers.py
@@ -28,6 +28,8 @@ class Dict(Module, tp.Mapping[str, A]):
       setattr(self, name, value)
 
   def __getitem__(self, key) -> A:
+    if key not in vars(self) or key == "_module__state":
+      raise KeyError(key)
     return getattr(self, key)
 
   def __setitem__(self, key, value):
@@ -40,10 +42,10 @@ class Dict(Module, tp.Mapping[str, A]):
     super().__setattr__(key, value)
 
   def __iter__(self) -> tp.Iterator[str]:
-    return iter(vars(self))
+    return (name for name in vars(self) if name != "_module__state")
 
   def __len__(self) -> int:
-    return len(vars(self))
+    return sum(1 for _ in self)
 
 
 class Sequence(Module, tp.Generic[A]):
-- 
2.43.0


From 80afcea794f26903a4b8f192ecbee664e8c7cb7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:51 +0000
Subject: [PATCH 07/42] fix: an empty nnx.Sequence has length 0

---
 nnx/helpers.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nnx/helpers.py b/nnx/helpers.py
index a52326b..02aa9ab 100644
--- a/nnx/helpers.py
+++ b/nnx/helpers.py
@@ -51,10 +51,11 @@ class Dict(Module, tp.Mapping[str, A]):
 class Sequence(Module, tp.Generic[A]):
 
   def __init__(self, iterable: tp.Iterable[A]):
-    i = 0
+    length = 0
     for i, value in enumerate(iterable):
       setattr(self, str(i), value)
-    self._length = i + 1
+      length = i + 1
+    self._length = length
 
   def __getitem__(self, key: int) -> A:
     if key >= len(self):
-- 
2.43.0


From 5043ff164a6005b7fc069fd0226954e191768a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:03 +0000
Subject: [PATCH 08/42] fix: nnx.Sequence does not write ctx into the dict a
 layer returned

---
 nnx/helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nnx/helpers.py b/nnx/helpers.py
index 02aa9ab..955470b 100644
--- a/nnx/helpers.py
+++ b/nnx/helpers.py
@@ -81,7 +81,7 @@ class Sequence(Module, tp.Generic[A]):
           kwargs = {}
         elif isinstance(output, tp.Dict):
           args = ()
-          kwargs = output
+          kwargs = dict(output)
         else:
           args = (output,)
           kwargs = {}
-- 
2.43.0


From d562337ce990213b6a579997342dcbc0a1657d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:27 +0000
Subject: [PATCH 09/42] fix: a PureContext can cross jax transforms (ContextDef
 is a static pytree)

---
 nnx/contextlib.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/nnx/contextlib.py b/nnx/contextlib.py
index ff07918..3c5e430 100644
--- a/nnx/contextlib.py
+++ b/nnx/contextlib.py
@@ -38,6 +38,21 @@ class ContextDef:
     }
     return Context(rngs=rngs, flags=dict(self._flags))
 
+  def __hash__(self) -> int:
+    return hash((self._rng_counts, self._flags))
+
+  def __eq__(self, other: tp.Any) -> bool:
+    if not isinstance(other, ContextDef):
+      return False
+    return self._rng_counts == other._rng_counts and self._flags == other._flags
+
+
+jtu.register_pytree_node(
+    ContextDef,
+    lambda contextdef: ((), (contextdef._rng_counts, contextdef._flags)),
+    lambda metadata, _: ContextDef(*metadata),
+)
+
 
 class PureContext(tp.Tuple[tp.Dict[str, KeyArray], ContextDef]):
 
-- 
2.43.0


From 1d1254a46256a5c0c07e575e8c4b8a72e519d65b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:53 +0000
Subject: [PATCH 10/42] fix: nnx.jit rebuilds the ctx argument at the jitted
 function's own trace level

---
 nnx/transforms.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nnx/transforms.py b/nnx/transforms.py
index fe22bed..f22032a 100644
--- a/nnx/transforms.py
+++ b/nnx/transforms.py
@@ -42,11 +42,11 @@ class JitTransform(jax.stages.Wrapped):
   ):
     @functools.partial(jax.jit, **jit_kwargs)
     def jitted_fn(pure_module: PureModule[Module], *args, **kwargs):
-      if "ctx" in kwargs and isinstance(kwargs["ctx"], contextlib.PureContext):
-        kwargs["ctx"] = kwargs["ctx"].merge()
-
       nnx_trace = tracers.get_top_trace((args, kwargs))
       with tracers.nnx_trace(nnx_trace):
+        if "ctx" in kwargs and isinstance(kwargs["ctx"], contextlib.PureContext):
+          kwargs["ctx"] = kwargs["ctx"].merge()
+
         module = pure_module.merge()
         out = fun(module, *args, **kwargs)
 
-- 
2.43.0


From 4370e2a0f625a546853bfc9576c950fe0c896896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:32 +0000
Subject: [PATCH 11/42] fix: copies of a Module get their own identity and
 trace state

---
 nnx/module.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/nnx/module.py b/nnx/module.py
index ba7f1b0..126869f 100644
--- a/nnx/module.py
+++ b/nnx/module.py
@@ -1,6 +1,7 @@
 import dataclasses
 import typing as tp
 from abc import ABCMeta
+from copy import copy
 from functools import partial
 from typing import Any
 
@@ -407,6 +408,14 @@ class ModuleState(reprlib.Representable):
   def from_tuple(cls, tup: ModuleStateTuple) -> "ModuleState":
     return cls(*tup)
 
+  def __copy__(self) -> "ModuleState":
+    # a copy is a different module, created at the current trace level
+    return ModuleState(self.is_initializing)
+
+  def __deepcopy__(self, memo) -> "ModuleState":
+    del memo
+    return ModuleState(self.is_initializing)
+
   def __nnx_repr__(self):
     yield reprlib.Object(type(self))
     yield reprlib.Attr("trace_state", self._trace_state)
@@ -479,6 +488,12 @@ class Module(reprlib.Representable, metaclass=ModuleMeta):
   def __hash__(self) -> int:
     return hash(self._module__state.id)
 
+  def __copy__(self: M) -> M:
+    module = object.__new__(type(self))
+    vars(module).update(vars(self))
+    vars(module)["_module__state"] = copy(self._module__state)
+    return module
+
   def __nnx_repr__(self):
     global SEEN_MODULES_REPR
 
-- 
2.43.0


From 900dc041377cdd2554feee1c11f78febc1e49046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:08 +0000
Subject: [PATCH 12/42] fix: spmd.add_axis places the axis name correctly for
 negative indices

---
 nnx/spmd.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nnx/spmd.py b/nnx/spmd.py
index 981494c..2189fd5 100644
--- a/nnx/spmd.py
+++ b/nnx/spmd.py
@@ -45,7 +45,9 @@ def add_axis(state: State, index: int, params: tp.Mapping[tp.Any, tp.Any]) -> St
       sharding = list(x.sharding)
       while len(sharding) < index:
         sharding.append(None)
-      sharding.insert(index, axis_name)
+      # a negative index counts from the end of the result, `list.insert` doesn't
+      position = index if index >= 0 else index + len(sharding) + 1
+      sharding.insert(position, axis_name)
       return x.replace(sharding=tuple(sharding))
     return x
 
-- 
2.43.0


From ea2515bc53006896b2863afa25f913315e1320e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:19 +0000
Subject: [PATCH 13/42] fix: spmd.remove_axis removes the axis name also under
 python -O

---
 nnx/spmd.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nnx/spmd.py b/nnx/spmd.py
index 2189fd5..5cea435 100644
--- a/nnx/spmd.py
+++ b/nnx/spmd.py
@@ -66,7 +66,8 @@ def remove_axis(state: State, index: int, params: tp.Mapping[tp.Any, tp.Any]) ->
         and x.sharding is not None
     ):
       sharding = list(x.sharding)
-      assert sharding.pop(index) == axis_name
+      removed = sharding.pop(index)
+      assert removed == axis_name
       return x.replace(sharding=tuple(sharding))
     return x
 
-- 
2.43.0


From f896b73a0878f77318f77039a71e9595bfbc006f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:48 +0000
Subject: [PATCH 14/42] fix: scan over __init__ accepts variables whose
 sharding gets the partition name

---
 nnx/transforms.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nnx/transforms.py b/nnx/transforms.py
index f22032a..f747866 100644
--- a/nnx/transforms.py
+++ b/nnx/transforms.py
@@ -732,6 +732,9 @@ def scan(
         return module
 
       lifted_module = scan_init(options, module_constructor, args, kwargs)
+      # the lifted variables can have new metadata (e.g. sharding), so they take the
+      # place of the ones set inside the constructor instead of updating their value
+      module.pop_state(...)
       module.update_state(lifted_module)
 
     wrapper = init_wrapper
-- 
2.43.0


From 55801b07e11ff328b4cca46eff5efd653b164ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:15 +0000
Subject: [PATCH 15/42] fix: Scan can be constructed with a ctx and no length

---
 nnx/transforms.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nnx/transforms.py b/nnx/transforms.py
index f747866..4b4d698 100644
--- a/nnx/transforms.py
+++ b/nnx/transforms.py
@@ -465,7 +465,8 @@ def scan_init(
 
     return states
 
-  if ctxdef is not None or options.variable_axes:
+  # without a length there are no axes to map over
+  if (ctxdef is not None and options.length is not None) or options.variable_axes:
     init_out_axes = (*options.variable_axes.values(), None, None)
     _init_state = jax.vmap(
         _init_state,
-- 
2.43.0


From 6db08ed39a857b4bbc101d89992766ac48525acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:56 +0000
Subject: [PATCH 16/42] fix: reverse scan that creates carry state starts from
 the last element

---
 nnx/transforms.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/nnx/transforms.py b/nnx/transforms.py
index 4b4d698..1005aec 100644
--- a/nnx/transforms.py
+++ b/nnx/transforms.py
@@ -642,7 +642,8 @@ def scan_apply(
 
   if has_new_carry_state:
     # run scan for 1 step
-    axes1 = jax.tree_map(lambda x: x[:1], axes)
+    first = slice(-1, None) if options.reverse else slice(0, 1)
+    axes1 = jax.tree_map(lambda x: x[first], axes)
     carry, scan_out = scan_partial(1, 1)(carry, axes1)
     carry_state, carry_arg = carry
     axes_states1, broadcast_state_new, carry_state_new, out1 = scan_out
@@ -658,14 +659,15 @@ def scan_apply(
     carry = (carry_state, carry_arg)
 
     # run scan for the rest of the steps
-    axes_rest = jax.tree_map(lambda x: x[1:], axes)
+    rest = slice(0, -1) if options.reverse else slice(1, None)
+    axes_rest = jax.tree_map(lambda x: x[rest], axes)
     carry, scan_out = scan_partial(length - 1, options.unroll)(carry, axes_rest)
     carry_state, carry_out = carry
     axes_states_rest, broadcast_state_new, carry_state_new, out_rest = scan_out
 
     # concatenate outputs
     axes_states, out = jax.tree_map(
-        lambda x, y: jnp.concatenate((x, y), axis=0),
+        lambda x, y: jnp.concatenate((y, x) if options.reverse else (x, y), axis=0),
         (axes_states1, out1),
         (axes_states_rest, out_rest),
     )
-- 
2.43.0


From ea7373614d02966d6a25cb89a4d22b76365b9f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:07 +0000
Subject: [PATCH 17/42] fix: broadcast variables created inside scan are kept

---
 nnx/transforms.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/nnx/transforms.py b/nnx/transforms.py
index 1005aec..09573b4 100644
--- a/nnx/transforms.py
+++ b/nnx/transforms.py
@@ -607,7 +607,7 @@ def scan_apply(
     )
 
     carry_state_new = carry_state_out - carry_state
-    broadcast_state_new = broadcast_state - broadcast_state_out
+    broadcast_state_new = broadcast_state_out - broadcast_state
 
     # remove new carry state
     carry_state_out = carry_state_out - carry_state_new
@@ -637,10 +637,10 @@ def scan_apply(
   axes = (axes_keys, axes_states, axes_arg)
 
   abstract_output = jax.eval_shape(scan_partial(length, options.unroll), carry, axes)
-  carry_state_new = abstract_output[1][2]
-  has_new_carry_state = len(jax.tree_util.tree_leaves(carry_state_new)) > 0
+  new_state = abstract_output[1][1:3]
+  has_new_state = len(jax.tree_util.tree_leaves(new_state)) > 0
 
-  if has_new_carry_state:
+  if has_new_state:
     # run scan for 1 step
     first = slice(-1, None) if options.reverse else slice(0, 1)
     axes1 = jax.tree_map(lambda x: x[first], axes)
@@ -663,7 +663,7 @@ def scan_apply(
     axes_rest = jax.tree_map(lambda x: x[rest], axes)
     carry, scan_out = scan_partial(length - 1, options.unroll)(carry, axes_rest)
     carry_state, carry_out = carry
-    axes_states_rest, broadcast_state_new, carry_state_new, out_rest = scan_out
+    axes_states_rest, _, carry_state_new, out_rest = scan_out
 
     # concatenate outputs
     axes_states, out = jax.tree_map(
-- 
2.43.0


From 9799c849d3bdc03170863ff447012ade4550d842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:56 +0000
Subject: [PATCH 18/42] fix: Pytree dataclass replace keeps the containers of
 plain fields

---
 nnx/pytreelib.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/nnx/pytreelib.py b/nnx/pytreelib.py
index e33cc14..f036091 100644
--- a/nnx/pytreelib.py
+++ b/nnx/pytreelib.py
@@ -238,6 +238,18 @@ class Pytree(reprlib.Representable, metaclass=PytreeMeta):
     type as the original object.
     """
     if dataclasses.is_dataclass(self):
+      for field in dataclasses.fields(self):
+        value = vars(self).get(field.name)
+        # dataclasses.replace reads unboxed values, keep the containers that are not
+        # created from the field's metadata
+        if (
+            field.init
+            and isinstance(value, containers.Container)
+            and "nnx_container_fn" not in field.metadata
+        ):
+          if field.name in kwargs:
+            value = value.replace(value=kwargs[field.name])
+          kwargs[field.name] = value
       return dataclasses.replace(self, **kwargs)
 
     unknown_keys = set(kwargs) - set(vars(self))
-- 
2.43.0


From 5554e181e4870cbcc26a12cab1c0aab31cef1814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:07 +0000
Subject: [PATCH 19/42] fix: restoring a Pytree from a flax state dict restores
 nested values

---
 nnx/pytreelib.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nnx/pytreelib.py b/nnx/pytreelib.py
index f036091..5d3874a 100644
--- a/nnx/pytreelib.py
+++ b/nnx/pytreelib.py
@@ -220,7 +220,9 @@ class Pytree(reprlib.Representable, metaclass=PytreeMeta):
             f" at path {serialization.current_path()}"
         )
       value_state = state.pop(name)
-      updates[name] = serialization.from_state_dict(value, value_state, name=name)
+      updates[name] = serialization.from_state_dict(
+          getattr(pytree, name), value_state, name=name
+      )
     if state:
       names = ",".join(state.keys())
       raise ValueError(
-- 
2.43.0


From e00b9f95d770623f8487939617bdce81af2cdd19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:35 +0000
Subject: [PATCH 20/42] fix: the set of modules being printed is per thread

---
 nnx/module.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/nnx/module.py b/nnx/module.py
index 126869f..2a582ff 100644
--- a/nnx/module.py
+++ b/nnx/module.py
@@ -1,4 +1,5 @@
 import dataclasses
+import threading
 import typing as tp
 from abc import ABCMeta
 from copy import copy
@@ -380,7 +381,13 @@ jtu.register_pytree_node(Pure, _pure_module_flatten, _pure_module_unflatten)
 PureModule = Pure[tp.Union[State, tp.Tuple[State, ...]], M]
 
 
-SEEN_MODULES_REPR: tp.Optional[tp.Set[ids.UUID]] = None
+
+@dataclasses.dataclass
+class _ReprContext(threading.local):
+  seen_modules: tp.Optional[tp.Set[ids.UUID]] = None
+
+
+_REPR_CONTEXT = _ReprContext()
 
 ModuleStateTuple = tuple[bool]
 
@@ -495,20 +502,18 @@ class Module(reprlib.Representable, metaclass=ModuleMeta):
     return module
 
   def __nnx_repr__(self):
-    global SEEN_MODULES_REPR
-
-    if SEEN_MODULES_REPR is None:
-      SEEN_MODULES_REPR = set()
+    if _REPR_CONTEXT.seen_modules is None:
+      _REPR_CONTEXT.seen_modules = set()
       clear_seen = True
     else:
       clear_seen = False
 
-    if self._module__state.id in SEEN_MODULES_REPR:
+    if self._module__state.id in _REPR_CONTEXT.seen_modules:
       yield reprlib.Object(type=type(self), empty_repr="...")
       return
 
     yield reprlib.Object(type=type(self))
-    SEEN_MODULES_REPR.add(self._module__state.id)
+    _REPR_CONTEXT.seen_modules.add(self._module__state.id)
 
     try:
       for name, value in vars(self).items():
@@ -518,7 +523,7 @@ class Module(reprlib.Representable, metaclass=ModuleMeta):
           yield reprlib.Attr(name, value)
     finally:
       if clear_seen:
-        SEEN_MODULES_REPR = None
+        _REPR_CONTEXT.seen_modules = None
 
   @property
   def init(self: M) -> M:
-- 
2.43.0


From adf486e46926ccec16bc3107765a9b924c99c1d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:46 +0000
Subject: [PATCH 21/42] fix: a nested init call keeps the enclosing one
 initializing

---
 nnx/module.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/nnx/module.py b/nnx/module.py
index 2a582ff..131e9ca 100644
--- a/nnx/module.py
+++ b/nnx/module.py
@@ -533,12 +533,17 @@ class Module(reprlib.Representable, metaclass=ModuleMeta):
       def _set_is_initializing(module: Module, value: bool):
         module._module__state.is_initializing = value
 
+      # modules that an enclosing `init` is already initializing stay that way
+      outer: tp.List[Module] = []
+      self.for_each(Module, lambda m: outer.append(m) if m.is_initializing else None)
       self.for_each(Module, partial(_set_is_initializing, value=True))
 
       try:
         return accessor(self)(*args, **kwargs)
       finally:
         self.for_each(Module, partial(_set_is_initializing, value=False))
+        for module in outer:
+          _set_is_initializing(module, value=True)
 
     return CallableProxy(_init, accessor)  # type: ignore
 
-- 
2.43.0


From a014f29550ff0bf99e841e92097c311c150130fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:16 +0000
Subject: [PATCH 22/42] fix: an invalid filter always raises the intended
 TypeError

---
 nnx/partitioning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nnx/partitioning.py b/nnx/partitioning.py
index 89ed81d..f92a86e 100644
--- a/nnx/partitioning.py
+++ b/nnx/partitioning.py
@@ -32,7 +32,7 @@ def to_predicate(filter: Filter) -> Predicate:
   elif isinstance(filter, tp.Tuple):
     return Any(*filter)
   else:
-    raise TypeError(f"Invalid collection filter: {filter:!r}. ")
+    raise TypeError(f"Invalid collection filter: {filter!r}. ")
 
 
 @dataclasses.dataclass
-- 
2.43.0


From 699a095784620963a0e6911db6ed60edca88adad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:57 +0000
Subject: [PATCH 23/42] fix: apply/call/init proxies follow the whole accessor
 chain

---
 nnx/module.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nnx/module.py b/nnx/module.py
index 131e9ca..e501a48 100644
--- a/nnx/module.py
+++ b/nnx/module.py
@@ -56,10 +56,10 @@ class DelayedAccessor:
     return self.accessor(x)
 
   def __getattr__(self, name):
-    return DelayedAccessor(lambda x: getattr(x, name))
+    return DelayedAccessor(lambda x: getattr(self(x), name))
 
   def __getitem__(self, key):
-    return DelayedAccessor(lambda x: x[key])
+    return DelayedAccessor(lambda x: self(x)[key])
 
 
 class ApplyCaller(tp.Protocol, tp.Generic[A]):
-- 
2.43.0


From 2989b1bab853bfc5247a8d08add9f447fb3b12a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:33 +0000
Subject: [PATCH 24/42] fix: modules detached during an init call stop
 initializing when it ends

---
 nnx/module.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/nnx/module.py b/nnx/module.py
index e501a48..2eb70b4 100644
--- a/nnx/module.py
+++ b/nnx/module.py
@@ -533,15 +533,23 @@ class Module(reprlib.Representable, metaclass=ModuleMeta):
       def _set_is_initializing(module: Module, value: bool):
         module._module__state.is_initializing = value
 
+      entered: tp.List[Module] = []
+      self.for_each(Module, entered.append)
       # modules that an enclosing `init` is already initializing stay that way
-      outer: tp.List[Module] = []
-      self.for_each(Module, lambda m: outer.append(m) if m.is_initializing else None)
-      self.for_each(Module, partial(_set_is_initializing, value=True))
+      outer = [module for module in entered if module.is_initializing]
+      is_nested = self.is_initializing
+
+      for module in entered:
+        _set_is_initializing(module, value=True)
 
       try:
         return accessor(self)(*args, **kwargs)
       finally:
-        self.for_each(Module, partial(_set_is_initializing, value=False))
+        # also the modules that were detached during the call
+        for module in entered:
+          _set_is_initializing(module, value=False)
+        if not is_nested:
+          self.for_each(Module, partial(_set_is_initializing, value=False))
         for module in outer:
           _set_is_initializing(module, value=True)
 
-- 
2.43.0


From 59d9e7610de207e9924fbe76699c7fcff0ea070a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:17 +0000
Subject: [PATCH 25/42] fix: a failing repr of a part does not affect later
 printing

---
 nnx/reprlib.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/nnx/reprlib.py b/nnx/reprlib.py
index f267941..5660c4a 100644
--- a/nnx/reprlib.py
+++ b/nnx/reprlib.py
@@ -61,6 +61,15 @@ def get_repr(obj: Representable) -> str:
     raise TypeError(f"Object {obj!r} is not representable")
 
   iterator = obj.__nnx_repr__()
+  try:
+    return _get_repr(iterator)
+  finally:
+    # finish the generator now, its cleanup must not wait for garbage collection
+    if hasattr(iterator, "close"):
+      iterator.close()
+
+
+def _get_repr(iterator: tp.Iterator[tp.Union[Object, Attr]]) -> str:
   config = next(iterator)
   if not isinstance(config, Object):
     raise TypeError(f"First item must be Config, got {type(config).__name__}")
@@ -77,7 +86,8 @@ def get_repr(obj: Representable) -> str:
     return f"{get_indent()}{elem.start}{elem.key}{config.value_sep}{value}{elem.end}"
 
   with add_indent(config.elem_indent):
-    elems = list(map(_repr_elem, iterator))
+    # not `map`: it would take a StopIteration of an element for the end
+    elems = [_repr_elem(elem) for elem in iterator]
   elems = ",\n".join(elems)
 
   if elems:
-- 
2.43.0


From 9ef880cd4e1763e78e1a7271f40dd685d9cdbf0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:28 +0000
Subject: [PATCH 26/42] fix: repr of a MutableLeaf works

---
 nnx/module.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/nnx/module.py b/nnx/module.py
index 2eb70b4..12ec712 100644
--- a/nnx/module.py
+++ b/nnx/module.py
@@ -805,6 +805,11 @@ class MutableLeaf(reprlib.Representable):
 
     return getattr(attr, "sharding", None)
 
+  def __nnx_repr__(self):
+    yield reprlib.Object(type=type(self))
+    yield reprlib.Attr("name", self._name)
+    yield reprlib.Attr("value", repr(self.value))
+
 
 def _get_module_state(module: Module) -> State:
   return State(_iter_state(module))
-- 
2.43.0


From 4dd623c630b055a56486e68e09c44f0b6bf92bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:59 +0000
Subject: [PATCH 27/42] fix: Pytree fields stay nodes when unflattened with
 non-array leaves (vmap, jacobian)

---
 nnx/pytreelib.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/nnx/pytreelib.py b/nnx/pytreelib.py
index 5d3874a..49845a4 100644
--- a/nnx/pytreelib.py
+++ b/nnx/pytreelib.py
@@ -71,6 +71,9 @@ class Pytree(reprlib.Representable, metaclass=PytreeMeta):
   _pytree__is_mutable: bool
   _pytree__class_is_mutable: bool
   _pytree__sorted_fields: tp.Tuple[str, ...]
+  # fields that `unflatten` received as nodes but whose value doesn't show it, JAX
+  # transformations temporarily fill pytrees with arbitrary objects
+  _pytree__node_names: tp.FrozenSet[str] = frozenset()
 
   if not tp.TYPE_CHECKING:
 
@@ -98,6 +101,11 @@ class Pytree(reprlib.Representable, metaclass=PytreeMeta):
       if isinstance(value, containers.Container):
         value = value.copy()
       vars_dict[name] = value
+      self._pytree__set_node_names(self._pytree__node_names - {name})
+
+  def _pytree__set_node_names(self, names: tp.FrozenSet[str]):
+    if names != self._pytree__node_names:
+      vars(self)["_pytree__node_names"] = names
 
   def __init_subclass__(cls, mutable: bool = False):
     super().__init_subclass__()
@@ -165,7 +173,7 @@ class Pytree(reprlib.Representable, metaclass=PytreeMeta):
     for field in pytree._pytree__sorted_fields:
       value = all_vars[field]
 
-      if nodes.is_node(value):
+      if nodes.is_node(value) or field in pytree._pytree__node_names:
         node_names.append(field)
         if with_key_paths:
           node_values.append((jax.tree_util.GetAttrKey(field), value))
@@ -186,6 +194,9 @@ class Pytree(reprlib.Representable, metaclass=PytreeMeta):
     pytree = object.__new__(cls)
     pytree.__dict__.update(zip(node_names, node_values))
     pytree.__dict__.update(static_fields)
+    pytree._pytree__set_node_names(
+        frozenset(n for n, v in zip(node_names, node_values) if not nodes.is_node(v))
+    )
     return pytree
 
   @classmethod
-- 
2.43.0


From 1514b8f4965302cda5edb47c1efb553ad41c6856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:22 +0000
Subject: [PATCH 28/42] fix: JitTransform.lower takes the arguments of the call

---
 nnx/transforms.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/nnx/transforms.py b/nnx/transforms.py
index 09573b4..81c92b9 100644
--- a/nnx/transforms.py
+++ b/nnx/transforms.py
@@ -76,8 +76,14 @@ class JitTransform(jax.stages.Wrapped):
   def __repr__(self):
     return f"JitTransform({self.jitted_fn})"
 
-  def lower(self, *args, **kwargs):
-    return self.jitted_fn.lower(*args, **kwargs)
+  def lower(self, module: tp.Any, *args, **kwargs):
+    # the arguments are those of the call
+    if isinstance(module, Module):
+      module = module.partition()
+    if "ctx" in kwargs and isinstance(kwargs["ctx"], contextlib.Context):
+      kwargs["ctx"] = kwargs["ctx"].partition()
+
+    return self.jitted_fn.lower(module, *args, **kwargs)
 
 
 UNSPECIFIED = object()
-- 
2.43.0


From 25a04eabef6e24616f04d73f616f3b8f847fa421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:22 +0000
Subject: [PATCH 29/42] fix: fields of an initialized Pytree can't be deleted

---
 nnx/pytreelib.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/nnx/pytreelib.py b/nnx/pytreelib.py
index 49845a4..82adcb9 100644
--- a/nnx/pytreelib.py
+++ b/nnx/pytreelib.py
@@ -86,6 +86,12 @@ class Pytree(reprlib.Representable, metaclass=PytreeMeta):
     def __setattr__(self, name: str, value: tp.Any) -> None:
       self._setattr(name, value)
 
+  def __delattr__(self, name: str) -> None:
+    # the fields are fixed once the constructor is done
+    if "_pytree__initializing" not in vars(self):
+      raise AttributeError(f"Cannot delete field {name} of an initialized Pytree")
+    object.__delattr__(self, name)
+
   def _setattr(self: P, name: str, value: tp.Any):
     vars_dict = vars(self)
     if "_pytree__initializing" in vars_dict:
-- 
2.43.0


From 5010e666a80e1dda8b27219c5b3ffda45867c692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:52 +0000
Subject: [PATCH 30/42] fix: declared variables whose default isn't a
 constructor argument are wrapped

---
 nnx/module.py    | 6 +++++-
 nnx/pytreelib.py | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/nnx/module.py b/nnx/module.py
index 12ec712..c2d5320 100644
--- a/nnx/module.py
+++ b/nnx/module.py
@@ -445,8 +445,12 @@ class ModuleMeta(ABCMeta):
         if "nnx_container_fn" not in field.metadata:
           continue
 
+        # defaults of fields that aren't constructor arguments stay in the class
+        if field.name not in vars(module) and field.default is dataclasses.MISSING:
+          continue
+
         container_fn = field.metadata["nnx_container_fn"]
-        value = vars(module)[field.name]
+        value = vars(module).get(field.name, field.default)
         value = container_fn(value)
         vars(module)[field.name] = value
 
diff --git a/nnx/pytreelib.py b/nnx/pytreelib.py
index 82adcb9..ae3e401 100644
--- a/nnx/pytreelib.py
+++ b/nnx/pytreelib.py
@@ -57,8 +57,12 @@ class PytreeMeta(ABCMeta):
         if "nnx_container_fn" not in field.metadata:
           continue
 
+        # defaults of fields that aren't constructor arguments stay in the class
+        if field.name not in vars(obj) and field.default is dataclasses.MISSING:
+          continue
+
         container_fn = field.metadata["nnx_container_fn"]
-        value = vars(obj)[field.name]
+        value = vars(obj).get(field.name, field.default)
         value = container_fn(value)
         vars(obj)[field.name] = value
 
-- 
2.43.0


From 1b9e45744b46f68787f81fcad98847db889aae52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:12 +0000
Subject: [PATCH 31/42] fix: Context.copy can't be used to draw keys from
 another trace level

---
 nnx/contextlib.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nnx/contextlib.py b/nnx/contextlib.py
index 3c5e430..53660c9 100644
--- a/nnx/contextlib.py
+++ b/nnx/contextlib.py
@@ -120,6 +120,10 @@ class Context:
     return jax.random.fold_in(stream.key, fold_data)
 
   def copy(self) -> "Context":
+    # the copy draws from the same streams
+    if not self._trace_state.is_valid():
+      raise errors.TraceContextError("Cannot use Context from a different trace level")
+
     return Context(rngs=self._rngs, flags=self._flags)
 
   def has_flag(self, name: str) -> bool:
-- 
2.43.0


From 3c7c1be7ef53ee534c6f2ffb94636c3831698ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:37 +0000
Subject: [PATCH 32/42] fix: values can be sown under a name that only the
 class has

---
 nnx/module.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nnx/module.py b/nnx/module.py
index c2d5320..6af91ee 100644
--- a/nnx/module.py
+++ b/nnx/module.py
@@ -703,7 +703,8 @@ class Module(reprlib.Representable, metaclass=ModuleMeta):
       name: str,
       value: tp.Any,
   ) -> None:
-    if hasattr(self, name):
+    # attributes of the class (e.g. the default of a field) don't hold sown values
+    if name in vars(self):
       variable = vars(self)[name]
       if not isinstance(variable, containers.Variable):
         raise ValueError(
-- 
2.43.0


From 0dfb9b6d0563ec179c29255b58318d27786340e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:34 +0000
Subject: [PATCH 33/42] fix: with_logical_constraint with an explicit mesh
 accepts leaves without resources

---
 nnx/spmd.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nnx/spmd.py b/nnx/spmd.py
index 5cea435..13c3e7a 100644
--- a/nnx/spmd.py
+++ b/nnx/spmd.py
@@ -283,7 +283,10 @@ def _with_sharding_constraint(
   if not _global_mesh_defined() and mesh is None:
     return x
   else:
-    if mesh is not None and axis_resources is not None:
+    if mesh is not None:
+      # as in a mesh context, no resources means replicated
+      if axis_resources is None:
+        axis_resources = jax.sharding.PartitionSpec()
       sharding = jax.sharding.NamedSharding(mesh, axis_resources)
       return jax.lax.with_sharding_constraint(x, sharding)
     return jax.lax.with_sharding_constraint(x, axis_resources)
-- 
2.43.0


From 6f299ceab520ddb701c040c2e00964ea870859f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:04 +0000
Subject: [PATCH 34/42] fix: initializers with metadata accept keyword
 arguments

---
 nnx/containers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nnx/containers.py b/nnx/containers.py
index 969645d..e94b9dd 100644
--- a/nnx/containers.py
+++ b/nnx/containers.py
@@ -193,8 +193,8 @@ def with_metadata(
     **metadata: tp.Any,
 ) -> F:
   @functools.wraps(initializer)
-  def wrapper(*args):
-    return ContainerMetadata(initializer(*args), metadata=metadata)
+  def wrapper(*args, **kwargs):
+    return ContainerMetadata(initializer(*args, **kwargs), metadata=metadata)
 
   return wrapper  # type: ignore
 
-- 
2.43.0


From 41fced96333c70d78db49926a4708f8ec6a46e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:38 +0000
Subject: [PATCH 35/42] fix: methods called accessor can be reached through
 apply, call and init

---
 nnx/module.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nnx/module.py b/nnx/module.py
index 6af91ee..a847d1c 100644
--- a/nnx/module.py
+++ b/nnx/module.py
@@ -50,10 +50,11 @@ def _identity(x):
 
 @dataclasses.dataclass
 class DelayedAccessor:
-  accessor: tp.Callable[[tp.Any], tp.Any] = _identity
+  # private, every other name is an attribute of the accessed object
+  _delayed_accessor: tp.Callable[[tp.Any], tp.Any] = _identity
 
   def __call__(self, x):
-    return self.accessor(x)
+    return self._delayed_accessor(x)
 
   def __getattr__(self, name):
     return DelayedAccessor(lambda x: getattr(self(x), name))
-- 
2.43.0


From 4409d5041a07a86101bb24e11f62e02a22c380ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:50 +0000
Subject: [PATCH 36/42] fix: pop_state of a pure module accepts ... as the last
 filter

---
 nnx/module.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/nnx/module.py b/nnx/module.py
index a847d1c..f57b586 100644
--- a/nnx/module.py
+++ b/nnx/module.py
@@ -324,12 +324,10 @@ class Pure(tp.Tuple[S, ModuleDef[M]]):
     filters = (filter, *filters)
 
     state = self.get_state()
-    *states, rest = state.partition(*filters, ...)
-
-    if len(states) == 1:
-      states = states[0]
-    else:
-      states = tuple(states)
+    # `...` can be one of the filters
+    states = state.filter(*filters)
+    popped = states if isinstance(states, tuple) else (states,)
+    rest = state - State.merge(*popped)
 
     return states, Pure.new(rest, self.moduledef)
 
-- 
2.43.0


From d9767c3f4923806c283c7d1b54ee7e2d1b299650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:48 +0000
Subject: [PATCH 37/42] fix: nnx.scan reads the broadcast state of every step,
 not the one traced first

---
 nnx/transforms.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nnx/transforms.py b/nnx/transforms.py
index 81c92b9..3aea207 100644
--- a/nnx/transforms.py
+++ b/nnx/transforms.py
@@ -630,8 +630,10 @@ def scan_apply(
 
     return carry, out
 
+  # jax caches the trace of a function, so a new function is created for each
+  # call: scan_fn reads broadcast_state, which may change in between
   scan_partial = lambda length, unroll: lambda carry, axes: jax.lax.scan(
-      scan_fn,
+      lambda carry, axes: scan_fn(carry, axes),
       carry,
       axes,
       length=length,
-- 
2.43.0


From 555b54562edd8abcce4d8ed2fb47a52b4434fdd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:57 +0000
Subject: [PATCH 38/42] fix: nnx.scan and nnx.remat accept callables that have
 no __name__

---
 nnx/transforms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nnx/transforms.py b/nnx/transforms.py
index 3aea207..8da2173 100644
--- a/nnx/transforms.py
+++ b/nnx/transforms.py
@@ -718,7 +718,7 @@ def scan(
     is_init: tp.Optional[bool] = None,
 ) -> F:
   if is_init is None:
-    is_init = f.__name__ == "__init__"
+    is_init = getattr(f, "__name__", None) == "__init__"
 
   options = ScanOptions(
       variable_axes=variable_axes,
@@ -916,7 +916,7 @@ def remat(
     is_init: tp.Optional[bool] = None,
 ) -> F:
   if is_init is None:
-    is_init = f.__name__ == "__init__"
+    is_init = getattr(f, "__name__", None) == "__init__"
 
   options = RematOptions(
       # variables=variables,
-- 
2.43.0


From 1eb96edbf73a4ee438c14cfc906b1001fca526a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:06 +0000
Subject: [PATCH 39/42] fix: batch statistics of a single value are averaged
 over axis_name

---
 nnx/nn/normalization.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/nnx/nn/normalization.py b/nnx/nn/normalization.py
index 16256c2..92e2210 100644
--- a/nnx/nn/normalization.py
+++ b/nnx/nn/normalization.py
@@ -79,14 +79,10 @@ def _compute_stats(
     mean = jnp.zeros(mean2.shape, dtype=dtype)
 
   if axis_name is not None:
-    concatenated_mean = jnp.concatenate([mean, mean2])
-    mean, mean2 = jnp.split(
-        lax.pmean(
-            concatenated_mean,
-            axis_name=axis_name,
-            axis_index_groups=axis_index_groups,
-        ),
-        2,
+    mean, mean2 = lax.pmean(
+        (mean, mean2),
+        axis_name=axis_name,
+        axis_index_groups=axis_index_groups,
     )
   # mean2 - _abs_sq(mean) is not guaranteed to be non-negative due
   # to floating point round-off errors.
-- 
2.43.0


From 35d4912773aefb44ac7fade577640c7a71d69c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:17 +0000
Subject: [PATCH 40/42] fix: pop_state that is refused pops nothing

---
 nnx/module.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/nnx/module.py b/nnx/module.py
index f57b586..e795fa4 100644
--- a/nnx/module.py
+++ b/nnx/module.py
@@ -940,7 +940,15 @@ def _pop(
   path_parts: PathParts = ()
   predicates = tuple(partitioning.to_predicate(filter) for filter in filters)
   states = tuple({} for _ in predicates)
-  _pop_recursive(module, module_index, path_parts, states, predicates)
+  popped: tp.List[tp.Tuple[Module, str]] = []
+  _pop_recursive(module, module_index, path_parts, states, predicates, popped)
+
+  # check all of them first, a `pop_state` that is refused changes nothing
+  for submodule, _ in popped:
+    if not submodule._module__state.trace_state.is_valid():
+      raise errors.TraceContextError("Cannot mutate Module from different trace level")
+  for submodule, name in popped:
+    delattr(submodule, name)
 
   return tuple(State(x) for x in states)
 
@@ -951,6 +959,7 @@ def _pop_recursive(
     path_parts: PathParts,
     states: tp.Tuple[tp.Dict[Path, tp.Any]],
     predicates: tp.Tuple[partitioning.Predicate, ...],
+    popped: tp.List[tp.Tuple[Module, str]],
 ) -> None:
   if module._module__state.id in module_index:
     return
@@ -960,7 +969,9 @@ def _pop_recursive(
 
   for name, value in sorted(vars(module).items(), key=lambda x: x[0]):
     if isinstance(value, Module):
-      _pop_recursive(value, module_index, (*path_parts, name), states, predicates)
+      _pop_recursive(
+          value, module_index, (*path_parts, name), states, predicates, popped
+      )
       continue
     elif not nodes.is_node(value):
       continue
@@ -969,7 +980,7 @@ def _pop_recursive(
     for state, predicate in zip(states, predicates):
       if predicate(path, value):
         state[path] = value
-        delattr(module, name)
+        popped.append((module, name))
         break
 
 
-- 
2.43.0


From 92dc3f9cdfb9dcc8317e86ca20490fc759200ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:34 +0000
Subject: [PATCH 41/42] fix: update_state sets only the paths of the update

---
 nnx/module.py | 31 +++++++------------------------
 1 file changed, 7 insertions(+), 24 deletions(-)

diff --git a/nnx/module.py b/nnx/module.py
index e795fa4..c6b496a 100644
--- a/nnx/module.py
+++ b/nnx/module.py
@@ -151,9 +151,8 @@ class ModuleDef(tp.Generic[M], reprlib.Representable):
   def merge(self, state: State, *states: State) -> M:
     states = (state, *states)
     module = _build_module(self)
-    current_state = State({})
 
-    _update_module(module, current_state, states)
+    _update_module(module, states)
 
     return module
 
@@ -683,15 +682,13 @@ class Module(reprlib.Representable, metaclass=ModuleMeta):
       self: M,
       updates: tp.Union[M, Pure[S, M], State, tp.Tuple[State, ...]],
   ) -> None:
-    current_state = _get_module_state(self)
-
     if isinstance(updates, Pure):
       updates = updates.states
     elif isinstance(updates, Module):
       assert type(self) == type(updates)
       updates = _get_module_state(updates)
 
-    _update_module(self, current_state, updates)
+    _update_module(self, updates)
 
   def mutable_state_dict(self) -> tp.Dict[Path, "MutableLeaf"]:
     return {path: MutableLeaf(self, path) for path, _ in _iter_state(self)}
@@ -885,15 +882,6 @@ def _iter_state_recursive(
       yield path, value
 
 
-def _set_value_at_path(
-    module: tp.Any, path_parts: tp.Union[PathParts, tp.List[str]], value: tp.Any
-):
-  if len(path_parts) == 1:
-    setattr(module, path_parts[0], value)
-  else:
-    _set_value_at_path(vars(module)[path_parts[0]], path_parts[1:], value)
-
-
 def _get_value_path(module: tp.Any, path: tp.Sequence[str]) -> tp.Any:
   if len(path) == 0:
     return module
@@ -985,22 +973,17 @@ def _pop_recursive(
 
 
 def _update_module(
-    module: Module, current_state: State, updates: tp.Union[State, tp.Tuple[State, ...]]
+    module: Module, updates: tp.Union[State, tp.Tuple[State, ...]]
 ) -> None:
-  new_states = [current_state]
-
-  if isinstance(updates, State):
-    new_states.append(updates)
-  else:
-    new_states.extend(updates)
+  states = (updates,) if isinstance(updates, State) else updates
 
   state: StateDict = {}
-  for new_state in new_states:
+  for new_state in states:
     state.update(new_state)
 
   for path, value in state.items():
-    path_parts = path.split("/")
-    _set_value_at_path(module, path_parts, value)
+    *module_path, name = path.split("/")
+    setattr(_get_value_path(module, module_path), name, value)
 
 
 def first_from(*args: tp.Optional[A]) -> A:
-- 
2.43.0


From d156051c3168f0d4384da194cf1b71f31c4625d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:42 +0000
Subject: [PATCH 42/42] fix: update_state that is refused changes nothing

---
 nnx/module.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/nnx/module.py b/nnx/module.py
index c6b496a..391d418 100644
--- a/nnx/module.py
+++ b/nnx/module.py
@@ -981,9 +981,23 @@ def _update_module(
   for new_state in states:
     state.update(new_state)
 
-  for path, value in state.items():
-    *module_path, name = path.split("/")
-    setattr(_get_value_path(module, module_path), name, value)
+  undo: tp.List[tp.Tuple[tp.Dict[str, tp.Any], str, tp.Tuple[tp.Any, ...]]] = []
+  try:
+    for path, value in state.items():
+      *module_path, name = path.split("/")
+      submodule = _get_value_path(module, module_path)
+      attributes = vars(submodule)
+      old = (attributes[name],) if name in attributes else ()
+      undo.append((attributes, name, old))
+      setattr(submodule, name, value)
+  except BaseException:
+    # an update that is refused changes nothing
+    for attributes, name, old in reversed(undo):
+      if old:
+        attributes[name] = old[0]
+      else:
+        attributes.pop(name, None)
+    raise
 
 
 def first_from(*args: tp.Optional[A]) -> A:
-- 
2.43.0

