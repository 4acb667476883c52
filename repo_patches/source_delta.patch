From c29c1297a507ac4b54f9565aa686c7e3d9ce4464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:50 +0000
Subject: [PATCH 01/26] fix: call proxies follow the whole access chain, not
 only its last step

---
 nnx/module.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nnx/module.py b/nnx/module.py
index 6c7b113..e569758 100644
--- a/nnx/module.py
+++ b/nnx/module.py
@@ -54,10 +54,10 @@ class DelayedAccessor:
     return self.accessor(x)
 
   def __getattr__(self, name):
-    return DelayedAccessor(lambda x: getattr(x, name))
+    return DelayedAccessor(lambda x: getattr(self.accessor(x), name))
 
   def __getitem__(self, key):
-    return DelayedAccessor(lambda x: x[key])
+    return DelayedAccessor(lambda x: self.accessor(x)[key])
 
 
 class ApplyCaller(tp.Protocol, tp.Generic[A]):
-- 
2.43.0


From 4c4b7d239c1034ecf5cfa89c49a456444676d517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:50 +0000
Subject: [PATCH 02/26] fix: pop_state terminates on cycles and names shared
 modules like get_state

---
 nnx/module.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nnx/module.py b/nnx/module.py
index e569758..59f6469 100644
--- a/nnx/module.py
+++ b/nnx/module.py
@@ -904,7 +904,9 @@ def _pop_recursive(
   if module._module__state.id in module_index:
     return
 
-  for name, value in list(vars(module).items()):
+  module_index[module._module__state.id] = len(module_index)
+
+  for name, value in sorted(vars(module).items(), key=lambda x: x[0]):
     if isinstance(value, Module):
       _pop_recursive(value, module_index, (*path_parts, name), states, predicates)
       continue
@@ -918,8 +920,6 @@ def _pop_recursive(
         delattr(module, name)
         break
 
-  module_index[module._module__state.id] = len(module_index)
-
 
 def _update_module(
     module: Module, current_state: State, updates: tp.Union[State, tp.Tuple[State, ...]]
-- 
2.43.0


From 2be08b7c8b383e93d6950e0ff18f1e4da6ac97cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:50 +0000
Subject: [PATCH 03/26] fix: deleting a module attribute checks the trace level

---
 nnx/module.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/nnx/module.py b/nnx/module.py
index 59f6469..70848c3 100644
--- a/nnx/module.py
+++ b/nnx/module.py
@@ -455,10 +455,20 @@ class Module(reprlib.Representable, metaclass=ModuleMeta):
     def __setattr__(self, name: str, value: Any) -> None:
       self._setattr(name, value)
 
-  def _setattr(self, name: str, value: Any) -> None:
+    def __delattr__(self, name: str) -> None:
+      self._delattr(name)
+
+  def _check_trace_level(self) -> None:
     if not self._module__state.trace_state.is_valid():
       raise errors.TraceContextError("Cannot mutate Module from different trace level")
 
+  def _delattr(self, name: str) -> None:
+    self._check_trace_level()
+    object.__delattr__(self, name)
+
+  def _setattr(self, name: str, value: Any) -> None:
+    self._check_trace_level()
+
     vars_dict = vars(self)
     if name in vars_dict and isinstance(vars_dict[name], Container):
       vars_dict[name] = vars_dict[name].replace(value=value)
-- 
2.43.0


From 2b3b81198ec208fa38161a9c4e42bf30918e434b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:50 +0000
Subject: [PATCH 04/26] fix: Pure.update_state lets the updates win over the
 current state

---
 nnx/module.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nnx/module.py b/nnx/module.py
index 70848c3..be40ddd 100644
--- a/nnx/module.py
+++ b/nnx/module.py
@@ -354,9 +354,9 @@ class Pure(tp.Tuple[S, ModuleDef[M]]):
       )
 
     if isinstance(self.states, tuple):
-      states += self.states
+      states = (*self.states, *states)
     else:
-      states += (self.states,)
+      states = (self.states, *states)
 
     state = State.merge(*states)
     return Pure.new(state, self.moduledef)
-- 
2.43.0


From 375f68aa83efe09bb902ded09627af3809d96c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:50 +0000
Subject: [PATCH 05/26] fix: ModuleDef equality and hash include the module
 flags

---
 nnx/module.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nnx/module.py b/nnx/module.py
index be40ddd..60f12ac 100644
--- a/nnx/module.py
+++ b/nnx/module.py
@@ -109,7 +109,9 @@ class ModuleDef(tp.Generic[M], reprlib.Representable):
     yield reprlib.Attr("static_fields", self._static_fields)
 
   def __hash__(self) -> int:
-    return hash((self._type, self._submodules, self._static_fields))
+    return hash(
+        (self._type, self._submodules, self._static_fields, self._module_state)
+    )
 
   def __eq__(self, other: tp.Any) -> bool:
     if not isinstance(other, ModuleDef):
@@ -118,6 +120,7 @@ class ModuleDef(tp.Generic[M], reprlib.Representable):
         self._type == other._type
         and self._submodules == other._submodules
         and self._static_fields == other._static_fields
+        and self._module_state == other._module_state
     )
 
   @property
-- 
2.43.0


From c145484855fa93e533f931c469888df6ba4e5688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:50 +0000
Subject: [PATCH 06/26] fix: Dict lists only its items and reports absent keys
 as KeyError

---
 nnx/helpers.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nnx/helpers.py b/nnx/helpers.py
index 25187c5..a52326b 100644
--- a/nnx/helpers.py
+++ b/nnx/helpers.py
@@ -28,6 +28,8 @@ class Dict(Module, tp.Mapping[str, A]):
       setattr(self, name, value)
 
   def __getitem__(self, key) -> A:
+    if key not in vars(self) or key == "_module__state":
+      raise KeyError(key)
     return getattr(self, key)
 
   def __setitem__(self, key, value):
@@ -40,10 +42,10 @@ class Dict(Module, tp.Mapping[str, A]):
     super().__setattr__(key, value)
 
   def __iter__(self) -> tp.Iterator[str]:
-    return iter(vars(self))
+    return (name for name in vars(self) if name != "_module__state")
 
   def __len__(self) -> int:
-    return len(vars(self))
+    return sum(1 for _ in self)
 
 
 class Sequence(Module, tp.Generic[A]):
-- 
2.43.0


From 49e05c4f71191ea30587aa2168708919a8907572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:50 +0000
Subject: [PATCH 07/26] fix: an empty Sequence has no items

---
 nnx/helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nnx/helpers.py b/nnx/helpers.py
index a52326b..c70ba2d 100644
--- a/nnx/helpers.py
+++ b/nnx/helpers.py
@@ -51,7 +51,7 @@ class Dict(Module, tp.Mapping[str, A]):
 class Sequence(Module, tp.Generic[A]):
 
   def __init__(self, iterable: tp.Iterable[A]):
-    i = 0
+    i = -1
     for i, value in enumerate(iterable):
       setattr(self, str(i), value)
     self._length = i + 1
-- 
2.43.0


From 251c2934ee05118ffc7712f17e6e35cd07ffa3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:50 +0000
Subject: [PATCH 08/26] fix: MutableLeaf.sharding reads the metadata where
 variables keep it

---
 nnx/module.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nnx/module.py b/nnx/module.py
index 60f12ac..53fc55f 100644
--- a/nnx/module.py
+++ b/nnx/module.py
@@ -774,7 +774,7 @@ class MutableLeaf(reprlib.Representable):
     if not isinstance(attr, Node):
       return None
 
-    return attr.metadata.get("sharding", None)
+    return vars(attr).get("sharding", None)
 
 
 def _get_module_state(module: Module) -> State:
-- 
2.43.0


From 64dd9c9d24ee2bbee8dd7256dcfe6926be917aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:50 +0000
Subject: [PATCH 09/26] fix: copies of a module get their own identity and
 trace level

---
 nnx/module.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/nnx/module.py b/nnx/module.py
index 53fc55f..73f2e37 100644
--- a/nnx/module.py
+++ b/nnx/module.py
@@ -1,3 +1,4 @@
+import copy
 import dataclasses
 import typing as tp
 from abc import ABCMeta
@@ -399,6 +400,12 @@ class ModuleState(reprlib.Representable):
   def id(self) -> ids.UUID:
     return self._id
 
+  def __copy__(self) -> "ModuleState":
+    return ModuleState(self.is_initializing)
+
+  def __deepcopy__(self, memo: tp.Dict[int, Any]) -> "ModuleState":
+    return ModuleState(self.is_initializing)
+
   def to_tuple(self) -> ModuleStateTuple:
     return (self.is_initializing,)
 
@@ -483,6 +490,12 @@ class Module(reprlib.Representable, metaclass=ModuleMeta):
   def __hash__(self) -> int:
     return hash(self._module__state.id)
 
+  def __copy__(self: M) -> M:
+    module = object.__new__(type(self))
+    vars(module).update(vars(self))
+    vars(module)["_module__state"] = copy.copy(self._module__state)
+    return module
+
   def __nnx_repr__(self):
     global SEEN_MODULES_REPR
 
-- 
2.43.0


From 50030a1d096cc59a05498cdcf914a82bcdb535bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:51 +0000
Subject: [PATCH 10/26] fix: replacing a field of a dataclass Pytree keeps the
 other fields nodes

---
 nnx/pytreelib.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/nnx/pytreelib.py b/nnx/pytreelib.py
index e33cc14..685a5cf 100644
--- a/nnx/pytreelib.py
+++ b/nnx/pytreelib.py
@@ -238,6 +238,17 @@ class Pytree(reprlib.Representable, metaclass=PytreeMeta):
     type as the original object.
     """
     if dataclasses.is_dataclass(self):
+      for field in dataclasses.fields(self):
+        value = vars(self).get(field.name)
+        if (
+            field.init
+            and "nnx_container_fn" not in field.metadata
+            and isinstance(value, containers.Container)
+        ):
+          # the constructor only rewraps fields declared with a specifier
+          if field.name in kwargs:
+            value = value.replace(value=kwargs[field.name])
+          kwargs[field.name] = value
       return dataclasses.replace(self, **kwargs)
 
     unknown_keys = set(kwargs) - set(vars(self))
-- 
2.43.0


From 30818fc89043d39e69e0588f96e936feecc49dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:51 +0000
Subject: [PATCH 11/26] fix: restoring a Pytree restores the structure inside
 its nodes

---
 nnx/pytreelib.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nnx/pytreelib.py b/nnx/pytreelib.py
index 685a5cf..1fb894f 100644
--- a/nnx/pytreelib.py
+++ b/nnx/pytreelib.py
@@ -220,7 +220,9 @@ class Pytree(reprlib.Representable, metaclass=PytreeMeta):
             f" at path {serialization.current_path()}"
         )
       value_state = state.pop(name)
-      updates[name] = serialization.from_state_dict(value, value_state, name=name)
+      updates[name] = serialization.from_state_dict(
+          getattr(pytree, name), value_state, name=name
+      )
     if state:
       names = ",".join(state.keys())
       raise ValueError(
-- 
2.43.0


From e34407ebd0e757dfd93a896ab0f1b3b61b2e3b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:51 +0000
Subject: [PATCH 12/26] fix: sharding axes: negative positions, and removal
 without assertions

---
 nnx/spmd.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/nnx/spmd.py b/nnx/spmd.py
index 981494c..0fe0998 100644
--- a/nnx/spmd.py
+++ b/nnx/spmd.py
@@ -43,9 +43,10 @@ def add_axis(state: State, index: int, params: tp.Mapping[tp.Any, tp.Any]) -> St
         and x.sharding is not None
     ):
       sharding = list(x.sharding)
-      while len(sharding) < index:
+      axis = index if index >= 0 else len(sharding) + 1 + index
+      while len(sharding) < axis:
         sharding.append(None)
-      sharding.insert(index, axis_name)
+      sharding.insert(axis, axis_name)
       return x.replace(sharding=tuple(sharding))
     return x
 
@@ -64,7 +65,9 @@ def remove_axis(state: State, index: int, params: tp.Mapping[tp.Any, tp.Any]) ->
         and x.sharding is not None
     ):
       sharding = list(x.sharding)
-      assert sharding.pop(index) == axis_name
+      removed = sharding.pop(index)
+      if removed != axis_name:
+        raise ValueError(f"Expected axis {axis_name!r} at {index}, got {removed!r}")
       return x.replace(sharding=tuple(sharding))
     return x
 
-- 
2.43.0


From afad3737970e764f6e5561c505dc5cda9be17377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:51 +0000
Subject: [PATCH 13/26] fix: reverse scan that creates nodes starts with the
 last slice

---
 nnx/transforms.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/nnx/transforms.py b/nnx/transforms.py
index fe22bed..0c8f856 100644
--- a/nnx/transforms.py
+++ b/nnx/transforms.py
@@ -640,8 +640,11 @@ def scan_apply(
   has_new_carry_state = len(jax.tree_util.tree_leaves(carry_state_new)) > 0
 
   if has_new_carry_state:
-    # run scan for 1 step
-    axes1 = jax.tree_map(lambda x: x[:1], axes)
+    # run scan for 1 step, the last one if iterating in reverse
+    first, rest = slice(None, 1), slice(1, None)
+    if options.reverse:
+      first, rest = slice(-1, None), slice(None, -1)
+    axes1 = jax.tree_map(lambda x: x[first], axes)
     carry, scan_out = scan_partial(1, 1)(carry, axes1)
     carry_state, carry_arg = carry
     axes_states1, broadcast_state_new, carry_state_new, out1 = scan_out
@@ -657,14 +660,14 @@ def scan_apply(
     carry = (carry_state, carry_arg)
 
     # run scan for the rest of the steps
-    axes_rest = jax.tree_map(lambda x: x[1:], axes)
+    axes_rest = jax.tree_map(lambda x: x[rest], axes)
     carry, scan_out = scan_partial(length - 1, options.unroll)(carry, axes_rest)
     carry_state, carry_out = carry
     axes_states_rest, broadcast_state_new, carry_state_new, out_rest = scan_out
 
     # concatenate outputs
     axes_states, out = jax.tree_map(
-        lambda x, y: jnp.concatenate((x, y), axis=0),
+        lambda x, y: jnp.concatenate((y, x) if options.reverse else (x, y), axis=0),
         (axes_states1, out1),
         (axes_states_rest, out_rest),
     )
-- 
2.43.0


From df913ca5b27a956ccea00bb7cf9b3e3e86f82815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:51 +0000
Subject: [PATCH 14/26] fix: the set of modules being printed is per thread

---
 nnx/module.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/nnx/module.py b/nnx/module.py
index 73f2e37..4445b9c 100644
--- a/nnx/module.py
+++ b/nnx/module.py
@@ -1,5 +1,6 @@
 import copy
 import dataclasses
+import threading
 import typing as tp
 from abc import ABCMeta
 from functools import partial
@@ -379,7 +380,13 @@ jtu.register_pytree_node(Pure, _pure_module_flatten, _pure_module_unflatten)
 PureModule = Pure[tp.Union[State, tp.Tuple[State, ...]], M]
 
 
-SEEN_MODULES_REPR: tp.Optional[tp.Set[ids.UUID]] = None
+
+@dataclasses.dataclass
+class ModuleReprContext(threading.local):
+  seen_modules: tp.Optional[tp.Set[ids.UUID]] = None
+
+
+MODULE_REPR_CONTEXT = ModuleReprContext()
 
 ModuleStateTuple = tuple[bool]
 
@@ -497,20 +504,18 @@ class Module(reprlib.Representable, metaclass=ModuleMeta):
     return module
 
   def __nnx_repr__(self):
-    global SEEN_MODULES_REPR
-
-    if SEEN_MODULES_REPR is None:
-      SEEN_MODULES_REPR = set()
+    if MODULE_REPR_CONTEXT.seen_modules is None:
+      MODULE_REPR_CONTEXT.seen_modules = set()
       clear_seen = True
     else:
       clear_seen = False
 
-    if self._module__state.id in SEEN_MODULES_REPR:
+    if self._module__state.id in MODULE_REPR_CONTEXT.seen_modules:
       yield reprlib.Object(type=type(self), empty_repr="...")
       return
 
     yield reprlib.Object(type=type(self))
-    SEEN_MODULES_REPR.add(self._module__state.id)
+    MODULE_REPR_CONTEXT.seen_modules.add(self._module__state.id)
 
     try:
       for name, value in vars(self).items():
@@ -520,7 +525,7 @@ class Module(reprlib.Representable, metaclass=ModuleMeta):
           yield reprlib.Attr(name, value)
     finally:
       if clear_seen:
-        SEEN_MODULES_REPR = None
+        MODULE_REPR_CONTEXT.seen_modules = None
 
   @property
   def init(self: M) -> M:
-- 
2.43.0


From f0fec0b5d0975c2fcb3c423abf15019379c32f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:51 +0000
Subject: [PATCH 15/26] fix: copying a Context checks the trace level

---
 nnx/contextlib.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nnx/contextlib.py b/nnx/contextlib.py
index ff07918..8fbcaa8 100644
--- a/nnx/contextlib.py
+++ b/nnx/contextlib.py
@@ -105,6 +105,9 @@ class Context:
     return jax.random.fold_in(stream.key, fold_data)
 
   def copy(self) -> "Context":
+    if not self._trace_state.is_valid():
+      raise errors.TraceContextError("Cannot use Context from a different trace level")
+
     return Context(rngs=self._rngs, flags=self._flags)
 
   def has_flag(self, name: str) -> bool:
-- 
2.43.0


From 1413635cad416a3433ec0f4b62e85465f72361b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:51 +0000
Subject: [PATCH 16/26] fix: split contexts cross jit and are merged inside its
 trace level

---
 nnx/contextlib.py | 24 ++++++++++++++++++++++++
 nnx/transforms.py |  5 ++---
 2 files changed, 26 insertions(+), 3 deletions(-)

diff --git a/nnx/contextlib.py b/nnx/contextlib.py
index 8fbcaa8..f68eb97 100644
--- a/nnx/contextlib.py
+++ b/nnx/contextlib.py
@@ -38,6 +38,30 @@ class ContextDef:
     }
     return Context(rngs=rngs, flags=dict(self._flags))
 
+  def __eq__(self, other: tp.Any) -> bool:
+    if not isinstance(other, ContextDef):
+      return False
+    return self._rng_counts == other._rng_counts and self._flags == other._flags
+
+  def __hash__(self) -> int:
+    return hash((self._rng_counts, self._flags))
+
+
+def _contextdef_flatten(contextdef: ContextDef):
+  return (), (contextdef._rng_counts, contextdef._flags)
+
+
+def _contextdef_unflatten(
+    metadata: tp.Tuple[
+        tp.Tuple[tp.Tuple[str, Counts], ...], tp.Tuple[tp.Tuple[str, bool], ...]
+    ],
+    _,
+) -> ContextDef:
+  return ContextDef(*metadata)
+
+
+jtu.register_pytree_node(ContextDef, _contextdef_flatten, _contextdef_unflatten)
+
 
 class PureContext(tp.Tuple[tp.Dict[str, KeyArray], ContextDef]):
 
diff --git a/nnx/transforms.py b/nnx/transforms.py
index 0c8f856..b20f0ee 100644
--- a/nnx/transforms.py
+++ b/nnx/transforms.py
@@ -42,11 +42,10 @@ class JitTransform(jax.stages.Wrapped):
   ):
     @functools.partial(jax.jit, **jit_kwargs)
     def jitted_fn(pure_module: PureModule[Module], *args, **kwargs):
-      if "ctx" in kwargs and isinstance(kwargs["ctx"], contextlib.PureContext):
-        kwargs["ctx"] = kwargs["ctx"].merge()
-
       nnx_trace = tracers.get_top_trace((args, kwargs))
       with tracers.nnx_trace(nnx_trace):
+        if "ctx" in kwargs and isinstance(kwargs["ctx"], contextlib.PureContext):
+          kwargs["ctx"] = kwargs["ctx"].merge()
         module = pure_module.merge()
         out = fun(module, *args, **kwargs)
 
-- 
2.43.0


From 8ed072b590dfa8ec779925cd76d2af9a611ff929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:21 +0000
Subject: [PATCH 17/26] fix: Pure.pop_state accepts a trailing `...` like
 Module.pop_state

---
 nnx/module.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/nnx/module.py b/nnx/module.py
index 4445b9c..cc331b2 100644
--- a/nnx/module.py
+++ b/nnx/module.py
@@ -323,12 +323,12 @@ class Pure(tp.Tuple[S, ModuleDef[M]]):
     filters = (filter, *filters)
 
     state = self.get_state()
-    *states, rest = state.partition(*filters, ...)
+    states = state.filter(*filters)
 
-    if len(states) == 1:
-      states = states[0]
+    if isinstance(states, State):
+      rest = state - states
     else:
-      states = tuple(states)
+      rest = state - State.merge(*states)
 
     return states, Pure.new(rest, self.moduledef)
 
-- 
2.43.0


From 08f450267ad8731244b34955ef8967a84f9cfaf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:28 +0000
Subject: [PATCH 18/26] fix: an invalid filter of any kind raises TypeError

---
 nnx/partitioning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nnx/partitioning.py b/nnx/partitioning.py
index 89ed81d..f92a86e 100644
--- a/nnx/partitioning.py
+++ b/nnx/partitioning.py
@@ -32,7 +32,7 @@ def to_predicate(filter: Filter) -> Predicate:
   elif isinstance(filter, tp.Tuple):
     return Any(*filter)
   else:
-    raise TypeError(f"Invalid collection filter: {filter:!r}. ")
+    raise TypeError(f"Invalid collection filter: {filter!r}. ")
 
 
 @dataclasses.dataclass
-- 
2.43.0


From f2cfe81abe352bafe74ad975f20067b3282263df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:32 +0000
Subject: [PATCH 19/26] fix: scan keeps broadcast nodes created in its body

---
 nnx/transforms.py | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/nnx/transforms.py b/nnx/transforms.py
index b20f0ee..6f23ce9 100644
--- a/nnx/transforms.py
+++ b/nnx/transforms.py
@@ -605,7 +605,7 @@ def scan_apply(
     )
 
     carry_state_new = carry_state_out - carry_state
-    broadcast_state_new = broadcast_state - broadcast_state_out
+    broadcast_state_new = broadcast_state_out - broadcast_state
 
     # remove new carry state
     carry_state_out = carry_state_out - carry_state_new
@@ -622,8 +622,9 @@ def scan_apply(
 
     return carry, out
 
+  # a new function for each scan, a traced scan_fn would keep the old broadcast_state
   scan_partial = lambda length, unroll: lambda carry, axes: jax.lax.scan(
-      scan_fn,
+      lambda carry, axes: scan_fn(carry, axes),
       carry,
       axes,
       length=length,
@@ -635,10 +636,12 @@ def scan_apply(
   axes = (axes_keys, axes_states, axes_arg)
 
   abstract_output = jax.eval_shape(scan_partial(length, options.unroll), carry, axes)
-  carry_state_new = abstract_output[1][2]
-  has_new_carry_state = len(jax.tree_util.tree_leaves(carry_state_new)) > 0
+  _, broadcast_state_new, carry_state_new, _ = abstract_output[1]
+  has_new_state = (
+      len(jax.tree_util.tree_leaves((broadcast_state_new, carry_state_new))) > 0
+  )
 
-  if has_new_carry_state:
+  if has_new_state:
     # run scan for 1 step, the last one if iterating in reverse
     first, rest = slice(None, 1), slice(1, None)
     if options.reverse:
@@ -687,7 +690,15 @@ def scan_apply(
       out,
   )
 
-  module.update_state((*axes_states, carry_state, broadcast_state_new, carry_state_new))
+  module.update_state(
+      (
+          *axes_states,
+          carry_state,
+          broadcast_state,
+          broadcast_state_new,
+          carry_state_new,
+      )
+  )
 
   return carry_out, out
 
-- 
2.43.0


From 215e6b10b4fe247ad7729d89ffe32b3c625d0279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:51 +0000
Subject: [PATCH 20/26] fix: construct dataclass modules and pytrees whose
 container fields have init=False and a default

---
 nnx/module.py    | 3 ++-
 nnx/pytreelib.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/nnx/module.py b/nnx/module.py
index cc331b2..a7e1314 100644
--- a/nnx/module.py
+++ b/nnx/module.py
@@ -443,7 +443,8 @@ class ModuleMeta(ABCMeta):
           continue
 
         container_fn = field.metadata["nnx_container_fn"]
-        value = vars(module)[field.name]
+        # a field with init=False keeps its default on the class
+        value = object.__getattribute__(module, field.name)
         value = container_fn(value)
         vars(module)[field.name] = value
 
diff --git a/nnx/pytreelib.py b/nnx/pytreelib.py
index 1fb894f..70f34ec 100644
--- a/nnx/pytreelib.py
+++ b/nnx/pytreelib.py
@@ -58,7 +58,8 @@ class PytreeMeta(ABCMeta):
           continue
 
         container_fn = field.metadata["nnx_container_fn"]
-        value = vars(obj)[field.name]
+        # a field with init=False keeps its default on the class
+        value = object.__getattribute__(obj, field.name)
         value = container_fn(value)
         vars(obj)[field.name] = value
 
-- 
2.43.0


From 175400c3e7678c92a1e5d9bd4eaa2d4a9068d85e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:27 +0000
Subject: [PATCH 21/26] fix: a failing repr ends the repr scopes of the objects
 being printed

---
 nnx/reprlib.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/nnx/reprlib.py b/nnx/reprlib.py
index f267941..978aed0 100644
--- a/nnx/reprlib.py
+++ b/nnx/reprlib.py
@@ -76,8 +76,13 @@ def get_repr(obj: Representable) -> str:
 
     return f"{get_indent()}{elem.start}{elem.key}{config.value_sep}{value}{elem.end}"
 
-  with add_indent(config.elem_indent):
-    elems = list(map(_repr_elem, iterator))
+  try:
+    with add_indent(config.elem_indent):
+      elems = list(map(_repr_elem, iterator))
+  finally:
+    # an exception leaves a generator suspended, its cleanup has to run now
+    if isinstance(iterator, tp.Generator):
+      iterator.close()
   elems = ",\n".join(elems)
 
   if elems:
-- 
2.43.0


From 8ab6f167daf548ebe08a002c623ef9b6bdb7f48f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:02 +0000
Subject: [PATCH 22/26] fix: JitTransform.lower accepts the module a call
 accepts

---
 nnx/transforms.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/nnx/transforms.py b/nnx/transforms.py
index 6f23ce9..4ceb7b8 100644
--- a/nnx/transforms.py
+++ b/nnx/transforms.py
@@ -75,8 +75,12 @@ class JitTransform(jax.stages.Wrapped):
   def __repr__(self):
     return f"JitTransform({self.jitted_fn})"
 
-  def lower(self, *args, **kwargs):
-    return self.jitted_fn.lower(*args, **kwargs)
+  def lower(self, module: tp.Any, *args, **kwargs):
+    if isinstance(module, Module):
+      module = module.partition()
+    if "ctx" in kwargs and isinstance(kwargs["ctx"], contextlib.Context):
+      kwargs["ctx"] = kwargs["ctx"].partition()
+    return self.jitted_fn.lower(module, *args, **kwargs)
 
 
 UNSPECIFIED = object()
-- 
2.43.0


From 91cad147899631139f3e1af5fb0219590949a10f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:02 +0000
Subject: [PATCH 23/26] fix: Sequence does not add ctx to the dict an item
 returned

---
 nnx/helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nnx/helpers.py b/nnx/helpers.py
index c70ba2d..a4347fb 100644
--- a/nnx/helpers.py
+++ b/nnx/helpers.py
@@ -80,7 +80,7 @@ class Sequence(Module, tp.Generic[A]):
           kwargs = {}
         elif isinstance(output, tp.Dict):
           args = ()
-          kwargs = output
+          kwargs = dict(output)
         else:
           args = (output,)
           kwargs = {}
-- 
2.43.0


From 1ef61b429981a017617b9a1ad0fba90bb7075753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:28 +0000
Subject: [PATCH 24/26] fix: sow into a class attribute raises ValueError

---
 nnx/module.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/nnx/module.py b/nnx/module.py
index a7e1314..53f294b 100644
--- a/nnx/module.py
+++ b/nnx/module.py
@@ -690,6 +690,11 @@ class Module(reprlib.Representable, metaclass=ModuleMeta):
       value: tp.Any,
   ) -> None:
     if hasattr(self, name):
+      if name not in vars(self):
+        raise ValueError(
+            f"Expected '{name}' to be a Variable, "
+            f"got an attribute of the class {type(self).__name__}"
+        )
       variable = vars(self)[name]
       if not isinstance(variable, containers.Variable):
         raise ValueError(
-- 
2.43.0


From 0b0e5c5c2155f859a0671e7cf36461e958c5dff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:45 +0000
Subject: [PATCH 25/26] fix: Dict items named like a class property can be read

---
 nnx/helpers.py |  5 +++--
 nnx/module.py  | 15 +++++++++------
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/nnx/helpers.py b/nnx/helpers.py
index a4347fb..fcc7cbd 100644
--- a/nnx/helpers.py
+++ b/nnx/helpers.py
@@ -6,7 +6,7 @@ import optax
 
 from nnx import pytreelib
 from nnx.contextlib import Context
-from nnx.module import ApplyCaller, Module, ModuleDef, Pure
+from nnx.module import ApplyCaller, Module, ModuleDef, Pure, unbox
 from nnx.state import State
 
 A = tp.TypeVar("A")
@@ -30,7 +30,8 @@ class Dict(Module, tp.Mapping[str, A]):
   def __getitem__(self, key) -> A:
     if key not in vars(self) or key == "_module__state":
       raise KeyError(key)
-    return getattr(self, key)
+    # properties of the class shadow items in getattr
+    return unbox(vars(self)[key])
 
   def __setitem__(self, key, value):
     setattr(self, key, value)
diff --git a/nnx/module.py b/nnx/module.py
index 53f294b..f6916d0 100644
--- a/nnx/module.py
+++ b/nnx/module.py
@@ -456,6 +456,14 @@ class HasUnboxFn(tp.Protocol):
   unbox_fn: tp.Callable[["Container[tp.Any]"], tp.Any]
 
 
+def unbox(value: tp.Any) -> tp.Any:
+  if isinstance(value, Container):
+    if isinstance(value, HasUnboxFn):
+      return value.unbox_fn(value)
+    return value.value
+  return value
+
+
 class Module(reprlib.Representable, metaclass=ModuleMeta):
   if tp.TYPE_CHECKING:
     _module__state: ModuleState
@@ -463,12 +471,7 @@ class Module(reprlib.Representable, metaclass=ModuleMeta):
   if not tp.TYPE_CHECKING:
 
     def __getattribute__(self, name: str) -> Any:
-      value = object.__getattribute__(self, name)
-      if isinstance(value, Container):
-        if isinstance(value, HasUnboxFn):
-          return value.unbox_fn(value)
-        return value.value
-      return value
+      return unbox(object.__getattribute__(self, name))
 
     def __setattr__(self, name: str, value: Any) -> None:
       self._setattr(name, value)
-- 
2.43.0


From 5621e7992959cb00d652e72d6cf8e254d559ae39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:21 +0000
Subject: [PATCH 26/26] fix: call proxies reach targets named accessor

---
 nnx/module.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/nnx/module.py b/nnx/module.py
index f6916d0..08fcce5 100644
--- a/nnx/module.py
+++ b/nnx/module.py
@@ -50,16 +50,16 @@ def _identity(x):
 
 @dataclasses.dataclass
 class DelayedAccessor:
-  accessor: tp.Callable[[tp.Any], tp.Any] = _identity
+  _delayed_accessor: tp.Callable[[tp.Any], tp.Any] = _identity
 
   def __call__(self, x):
-    return self.accessor(x)
+    return self._delayed_accessor(x)
 
   def __getattr__(self, name):
-    return DelayedAccessor(lambda x: getattr(self.accessor(x), name))
+    return DelayedAccessor(lambda x: getattr(self._delayed_accessor(x), name))
 
   def __getitem__(self, key):
-    return DelayedAccessor(lambda x: self.accessor(x)[key])
+    return DelayedAccessor(lambda x: self._delayed_accessor(x)[key])
 
 
 class ApplyCaller(tp.Protocol, tp.Generic[A]):
-- 
2.43.0

