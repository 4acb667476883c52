"""Reference definitions for modules, definitions and pure modules (analysed, never run)."""
import jax
import numpy as np
import nnx
from nnx.containers import Container, Variable
from nnx.errors import TraceContextError
from nnx.module import MutableLeaf, ModuleState
from nnx.nodes import is_node
from nnx.partitioning import to_predicate
from sa_intrinsics import flatten_of, load_nodes, unflatten_of


def walk_state(module, seen, parts):
  if module._module__state.id in seen:
    return
  seen.add(module._module__state.id)
  for name, value in sorted(vars(module).items(), key=lambda x: x[0]):
    if isinstance(value, nnx.Module):
      yield from walk_state(value, seen, (*parts, name))
    elif is_node(value):
      yield "/".join((*parts, name)), value


def get_state__impl(m: nnx.Module):
  """property: M01 M02 S04
  anchor: nnx.module:Module.get_state"""
  return m.get_state()


def get_state__spec(m):
  return nnx.State(walk_state(m, set(), ()))


def walk_def(module, index):
  ident = module._module__state.id
  if ident in index:
    return index[ident]
  number = len(index)
  index[ident] = number
  subs = []
  static = []
  for name, value in sorted(vars(module).items(), key=lambda x: x[0]):
    if isinstance(value, nnx.Module):
      subs.append((name, walk_def(value, index)))
    elif not is_node(value) and not name.startswith("_module__"):
      static.append((name, value))
  return nnx.ModuleDef(type(module), number, tuple(subs), tuple(static), module._module__state.to_tuple())


def get_module_def__impl(m: nnx.Module):
  """property: M01 M02 M03 M04
  anchor: nnx.module:Module.get_module_def"""
  return m.get_module_def()


def get_module_def__spec(m):
  return walk_def(m, {})


def build(d, made):
  if isinstance(d, int):
    return made[d]
  module = object.__new__(d.type)
  made[d.index] = module
  subs = {name: build(sub, made) for name, sub in d.submodules}
  vars(module).update(d.static_fields)
  vars(module).update(subs)
  vars(module)["_module__state"] = ModuleState.from_tuple(d.module_state)
  return module


def place(module, parts, value):
  if len(parts) == 1:
    setattr(module, parts[0], value)
  else:
    place(vars(module)[parts[0]], parts[1:], value)


def merge_def_one__impl(d: nnx.ModuleDef, a: nnx.State):
  """property: M03 M02 V01
  anchor: nnx.module:ModuleDef.merge"""
  return d.merge(a)


def merge_def_one__spec(d, a):
  module = build(d, {})
  for path, value in a.items():
    place(module, path.split("/"), value)
  return module


def merge_def_two__impl(d: nnx.ModuleDef, a: nnx.State, b: nnx.State):
  """property: M03
  anchor: nnx.module:ModuleDef.merge"""
  return d.merge(a, b)


def merge_def_two__spec(d, a, b):
  module = build(d, {})
  for path, value in {**a, **b}.items():
    place(module, path.split("/"), value)
  return module


def clone__impl(m: nnx.Module):
  """property: M03
  anchor: nnx.module:Module.clone"""
  return m.clone()


def clone__spec(m):
  return m.get_module_def().merge(m.get_state())


def def_eq__impl(d: nnx.ModuleDef, e):
  """property: M04
  anchor: nnx.module:ModuleDef.__eq__"""
  return d == e


def def_eq__spec(d, e):
  if not isinstance(e, nnx.ModuleDef):
    return False
  return (d.type == e.type and d.submodules == e.submodules and d.static_fields == e.static_fields and d.module_state == e.module_state)


def def_flatten__impl(d: nnx.ModuleDef):
  """property: M04
  anchor: nnx.module:ModuleDef"""
  children, aux = flatten_of(nnx.ModuleDef)(d)
  e = unflatten_of(nnx.ModuleDef)(aux, children)
  return children, e


def def_flatten__spec(d):
  return (), nnx.ModuleDef(d.type, d.index, d.submodules, d.static_fields, d.module_state)


def def_hash__impl(t, i, j, submodules, static, state):
  """property: M04
  anchor: nnx.module:ModuleDef.__hash__"""
  return hash(nnx.ModuleDef(t, i, submodules, static, state)) == hash(nnx.ModuleDef(t, j, submodules, static, state))


def def_hash__spec(t, i, j, submodules, static, state):
  return True


def def_parts__impl(t, i, submodules, static, state):
  """property: M04
  anchor: nnx.module:ModuleDef.__init__"""
  d = nnx.ModuleDef(t, i, submodules, static, state)
  return d.type, d.index, d.submodules, d.static_fields, d.module_state


def def_parts__spec(t, i, submodules, static, state):
  return t, i, submodules, static, state


def module_partition_none__impl(m: nnx.Module):
  """property: S01 M01
  opaque: nnx.partitioning.to_predicate
  pure_results: nnx.partitioning.to_predicate
  anchor: nnx.module:Module.partition"""
  return m.partition()


def module_partition_none__spec(m):
  return nnx.Pure((m.get_state(), m.get_module_def()))


def module_partition_one__impl(m: nnx.Module, f):
  """property: S01
  opaque: nnx.partitioning.to_predicate
  pure_results: nnx.partitioning.to_predicate
  anchor: nnx.module:Module.partition"""
  return m.partition(f)


def module_partition_one__spec(m, f):
  return nnx.Pure((m.get_state().partition(f), m.get_module_def()))


def module_partition_two__impl(m: nnx.Module, f, g):
  """property: S01
  opaque: nnx.partitioning.to_predicate
  pure_results: nnx.partitioning.to_predicate
  anchor: nnx.module:Module.partition"""
  return m.partition(f, g)


def module_partition_two__spec(m, f, g):
  return nnx.Pure((m.get_state().partition(f, g), m.get_module_def()))


def module_partition_three__impl(m: nnx.Module, f, g, h):
  """property: S01
  opaque: nnx.partitioning.to_predicate
  pure_results: nnx.partitioning.to_predicate
  anchor: nnx.module:Module.partition"""
  return m.partition(f, g, h)


def module_partition_three__spec(m, f, g, h):
  return nnx.Pure((m.get_state().partition(f, g, h), m.get_module_def()))


def module_partition_five__impl(m: nnx.Module, f, g, h, i, j):
  """property: S01
  opaque: nnx.partitioning.to_predicate
  pure_results: nnx.partitioning.to_predicate
  anchor: nnx.module:Module.partition"""
  return m.partition(f, g, h, i, j)


def module_partition_five__spec(m, f, g, h, i, j):
  return nnx.Pure((m.get_state().partition(f, g, h, i, j), m.get_module_def()))


def module_filter_one__impl(m: nnx.Module, f):
  """property: S01
  opaque: nnx.partitioning.to_predicate
  pure_results: nnx.partitioning.to_predicate
  anchor: nnx.module:Module.filter"""
  return m.filter(f)


def module_filter_one__spec(m, f):
  return m.get_state().filter(f)


def module_filter_two__impl(m: nnx.Module, f, g):
  """property: S01
  opaque: nnx.partitioning.to_predicate
  pure_results: nnx.partitioning.to_predicate
  anchor: nnx.module:Module.filter"""
  return m.filter(f, g)


def module_filter_two__spec(m, f, g):
  return m.get_state().filter(f, g)


def module_filter_three__impl(m: nnx.Module, f, g, h):
  """property: S01
  opaque: nnx.partitioning.to_predicate
  pure_results: nnx.partitioning.to_predicate
  anchor: nnx.module:Module.filter"""
  return m.filter(f, g, h)


def module_filter_three__spec(m, f, g, h):
  return m.get_state().filter(f, g, h)


def module_filter_five__impl(m: nnx.Module, f, g, h, i, j):
  """property: S01
  opaque: nnx.partitioning.to_predicate
  pure_results: nnx.partitioning.to_predicate
  anchor: nnx.module:Module.filter"""
  return m.filter(f, g, h, i, j)


def module_filter_five__spec(m, f, g, h, i, j):
  return m.get_state().filter(f, g, h, i, j)


def setattr__impl(m: nnx.Module, name, value):
  """property: T01 V01
  anchor: nnx.module:Module"""
  m.__setattr__(name, value)


def setattr__spec(m, name, value):
  if not m._module__state.trace_state.is_valid():
    raise TraceContextError()
  d = vars(m)
  if name in d and isinstance(d[name], Container):
    d[name] = d[name].replace(value=value)
  elif isinstance(value, Container):
    d[name] = value.copy()
  else:
    d[name] = value


def delattr__impl(m: nnx.Module, name):
  """property: T01
  anchor: nnx.module:Module"""
  m.__delattr__(name)


def delattr__spec(m, name):
  if not m._module__state.trace_state.is_valid():
    raise TraceContextError()
  object.__delattr__(m, name)


def update_with_state__impl(m: nnx.Module, s: nnx.State):
  """property: U01 T01 V01
  anchor: nnx.module:Module.update_state"""
  return m.update_state(s)


def update_with_state__spec(m, s):
  for path, value in {**m.get_state(), **s}.items():
    place(m, path.split("/"), value)


def update_with_two__impl(m: nnx.Module, s: nnx.State, t: nnx.State):
  """property: U01 T01
  anchor: nnx.module:Module.update_state"""
  return m.update_state((s, t))


def update_with_two__spec(m, s, t):
  for path, value in {**m.get_state(), **s, **t}.items():
    place(m, path.split("/"), value)


def update_with_module__impl(m: nnx.Module, o: nnx.Module):
  """property: U01
  anchor: nnx.module:Module.update_state"""
  return m.update_state(o)


def update_with_module__spec(m, o):
  for path, value in {**m.get_state(), **o.get_state()}.items():
    place(m, path.split("/"), value)


def update_with_pure__impl(m: nnx.Module, s: nnx.State, t: nnx.State, d: nnx.ModuleDef):
  """property: U01
  anchor: nnx.module:Module.update_state"""
  return m.update_state(nnx.Pure(((s, t), d)))


def update_with_pure__spec(m, s, t, d):
  for path, value in {**m.get_state(), **s, **t}.items():
    place(m, path.split("/"), value)


def update_with_pure_single__impl(m: nnx.Module, s: nnx.State, d: nnx.ModuleDef):
  """property: U01
  anchor: nnx.module:Module.update_state"""
  return m.update_state(nnx.Pure((s, d)))


def update_with_pure_single__spec(m, s, d):
  for path, value in {**m.get_state(), **s}.items():
    place(m, path.split("/"), value)


def pop(module, seen, parts, groups, predicates):
  if module._module__state.id in seen:
    return
  seen[module._module__state.id] = len(seen)
  for name, value in sorted(vars(module).items(), key=lambda x: x[0]):
    if isinstance(value, nnx.Module):
      pop(value, seen, (*parts, name), groups, predicates)
    elif is_node(value):
      path = "/".join((*parts, name))
      for group, predicate in zip(groups, predicates):
        if predicate(path, value):
          group[path] = value
          delattr(module, name)
          break


def pop_one__impl(m: nnx.Module, f):
  """property: U02 M02 T01
  opaque: nnx.partitioning.to_predicate
  pure_results: nnx.partitioning.to_predicate
  anchor: nnx.module:Module.pop_state"""
  return m.pop_state(f)


def pop_one__spec(m, f):
  group = {}
  pop(m, {}, (), (group,), (to_predicate(f),))
  return nnx.State(group)


def pop_two__impl(m: nnx.Module, f, g):
  """property: U02 M02 T01
  opaque: nnx.partitioning.to_predicate
  pure_results: nnx.partitioning.to_predicate
  anchor: nnx.module:Module.pop_state"""
  return m.pop_state(f, g)


def pop_two__spec(m, f, g):
  predicates = (to_predicate(f), to_predicate(g))
  first = {}
  second = {}
  pop(m, {}, (), (first, second), predicates)
  return nnx.State(first), nnx.State(second)


def pop_four__impl(m: nnx.Module, f, g, h, i):
  """property: U02 M02
  opaque: nnx.partitioning.to_predicate
  pure_results: nnx.partitioning.to_predicate
  anchor: nnx.module:Module.pop_state"""
  return m.pop_state(f, g, h, i)


def pop_four__spec(m, f, g, h, i):
  predicates = (to_predicate(f), to_predicate(g), to_predicate(h), to_predicate(i))
  first = {}
  second = {}
  third = {}
  fourth = {}
  pop(m, {}, (), (first, second, third, fourth), predicates)
  return nnx.State(first), nnx.State(second), nnx.State(third), nnx.State(fourth)


def pop_nothing__impl(m: nnx.Module):
  """property: U02
  anchor: nnx.module:Module.pop_state"""
  return m.pop_state()


def pop_nothing__spec(m):
  raise ValueError()


def mutable_leaves__impl(m: nnx.Module, path):
  """property: U01 M01
  anchor: nnx.module:Module.mutable_state_dict"""
  leaves = m.mutable_state_dict()
  return list(leaves)


def mutable_leaves__spec(m, path):
  leaves = {p: MutableLeaf(m, p) for p, _ in walk_state(m, set(), ())}
  return list(leaves)


def for_each__impl(m: nnx.Module, kind, fn):
  """property: M02
  anchor: nnx.module:Module.for_each"""
  m.for_each(kind, fn)


def visit(module, kind, fn, seen):
  if module._module__state.id in seen:
    return
  seen.add(module._module__state.id)
  if isinstance(module, kind):
    fn(module)
  for value in vars(module).values():
    if isinstance(value, nnx.Module):
      visit(value, kind, fn, seen)


def for_each__spec(m, kind, fn):
  visit(m, kind, fn, set())


def sow__impl(m: nnx.Module, kind, name, value):
  """property: H03 T01
  anchor: nnx.module:Module.sow"""
  m.sow(kind, name, value)


def sow__spec(m, kind, name, value):
  if not hasattr(m, name):
    setattr(m, name, kind((value,)))
    return
  if name not in vars(m):
    raise ValueError()
  old = vars(m)[name]
  if not isinstance(old, Variable):
    raise ValueError()
  if type(old) != kind:
    raise ValueError()
  if not isinstance(old.value, tuple):
    raise ValueError()
  setattr(m, name, (*old.value, value))


def pure_merge__impl(s: nnx.State, t: nnx.State, d: nnx.ModuleDef):
  """property: M03
  anchor: nnx.module:Pure.merge"""
  return nnx.Pure(((s, t), d)).merge()


def pure_merge__spec(s, t, d):
  return d.merge(s, t)


def pure_merge_single__impl(s: nnx.State, d: nnx.ModuleDef):
  """property: M03
  anchor: nnx.module:Pure.merge"""
  return nnx.Pure((s, d)).merge()


def pure_merge_single__spec(s, d):
  return d.merge(s)


def pure_get_state__impl(s: nnx.State, t: nnx.State, d: nnx.ModuleDef):
  """property: S01 S03 S04
  anchor: nnx.module:Pure.get_state"""
  return nnx.Pure(((s, t), d)).get_state()


def pure_get_state__spec(s, t, d):
  return nnx.State({**s, **t})


def pure_filter__impl(s: nnx.State, t: nnx.State, d: nnx.ModuleDef, f, g):
  """property: S01
  opaque: nnx.partitioning.to_predicate
  pure_results: nnx.partitioning.to_predicate
  anchor: nnx.module:Pure.filter"""
  return nnx.Pure(((s, t), d)).filter(f, g)


def pure_filter__spec(s, t, d, f, g):
  return nnx.State({**s, **t}).filter(f, g)


def pure_filter_one__impl(s: nnx.State, d: nnx.ModuleDef, f):
  """property: S01
  opaque: nnx.partitioning.to_predicate
  pure_results: nnx.partitioning.to_predicate
  anchor: nnx.module:Pure.filter"""
  return nnx.Pure((s, d)).filter(f)


def pure_filter_one__spec(s, d, f):
  return s.filter(f)


def pure_filter_five__impl(s: nnx.State, t: nnx.State, d: nnx.ModuleDef, f, g, h, i, j):
  """property: S01
  opaque: nnx.partitioning.to_predicate
  pure_results: nnx.partitioning.to_predicate
  anchor: nnx.module:Pure.filter"""
  return nnx.Pure(((s, t), d)).filter(f, g, h, i, j)


def pure_filter_five__spec(s, t, d, f, g, h, i, j):
  return nnx.State({**s, **t}).filter(f, g, h, i, j)


def pure_partition__impl(s: nnx.State, t: nnx.State, d: nnx.ModuleDef, f, g):
  """property: S01
  opaque: nnx.partitioning.to_predicate
  pure_results: nnx.partitioning.to_predicate
  anchor: nnx.module:Pure.partition"""
  return nnx.Pure(((s, t), d)).partition(f, g)


def pure_partition__spec(s, t, d, f, g):
  return nnx.Pure((nnx.State({**s, **t}).partition(f, g), d))


def pure_partition_one__impl(s: nnx.State, d: nnx.ModuleDef, f):
  """property: S01
  opaque: nnx.partitioning.to_predicate
  pure_results: nnx.partitioning.to_predicate
  anchor: nnx.module:Pure.partition"""
  return nnx.Pure((s, d)).partition(f)


def pure_partition_one__spec(s, d, f):
  return nnx.Pure((s.partition(f), d))


def pure_partition_five__impl(s: nnx.State, t: nnx.State, d: nnx.ModuleDef, f, g, h, i, j):
  """property: S01
  opaque: nnx.partitioning.to_predicate
  pure_results: nnx.partitioning.to_predicate
  anchor: nnx.module:Pure.partition"""
  return nnx.Pure(((s, t), d)).partition(f, g, h, i, j)


def pure_partition_five__spec(s, t, d, f, g, h, i, j):
  return nnx.Pure((nnx.State({**s, **t}).partition(f, g, h, i, j), d))


def pure_partition_none__impl(s: nnx.State, t: nnx.State, d: nnx.ModuleDef):
  """property: S01
  anchor: nnx.module:Pure.partition"""
  return nnx.Pure(((s, t), d)).partition()


def pure_partition_none__spec(s, t, d):
  return nnx.Pure((nnx.State({**s, **t}), d))


def pure_pop__impl(s: nnx.State, d: nnx.ModuleDef, f, g):
  """property: U02
  opaque: nnx.partitioning.to_predicate
  pure_results: nnx.partitioning.to_predicate
  anchor: nnx.module:Pure.pop_state"""
  return nnx.Pure((s, d)).pop_state(f, g)


def pure_pop__spec(s, d, f, g):
  first, second = s.filter(f, g)
  return (first, second), nnx.Pure((s - nnx.State({**first, **second}), d))


def pure_pop_one__impl(s: nnx.State, t: nnx.State, d: nnx.ModuleDef, f):
  """property: U02
  opaque: nnx.partitioning.to_predicate
  pure_results: nnx.partitioning.to_predicate
  anchor: nnx.module:Pure.pop_state"""
  return nnx.Pure(((s, t), d)).pop_state(f)


def pure_pop_one__spec(s, t, d, f):
  state = nnx.State({**s, **t})
  popped = state.filter(f)
  return popped, nnx.Pure((state - popped, d))


def pure_pop_four__impl(s: nnx.State, t: nnx.State, d: nnx.ModuleDef, f, g, h, i):
  """property: U02
  opaque: nnx.partitioning.to_predicate
  pure_results: nnx.partitioning.to_predicate
  anchor: nnx.module:Pure.pop_state"""
  return nnx.Pure(((s, t), d)).pop_state(f, g, h, i)


def pure_pop_four__spec(s, t, d, f, g, h, i):
  state = nnx.State({**s, **t})
  popped = state.filter(f, g, h, i)
  return popped, nnx.Pure((state - nnx.State({**popped[0], **popped[1], **popped[2], **popped[3]}), d))


def pure_update_other__impl(s: nnx.State, d: nnx.ModuleDef, u):
  """property: U01
  anchor: nnx.module:Pure.update_state"""
  if isinstance(u, (nnx.Module, nnx.Pure, nnx.State, tuple)):
    return None
  return nnx.Pure((s, d)).update_state(u)


def pure_update_other__spec(s, d, u):
  if isinstance(u, (nnx.Module, nnx.Pure, nnx.State, tuple)):
    return None
  raise TypeError()


def pure_update_pure_other__impl(s: nnx.State, d: nnx.ModuleDef, u, e: nnx.ModuleDef):
  """property: U01
  anchor: nnx.module:Pure.update_state"""
  if isinstance(u, (nnx.State, tuple)):
    return None
  return nnx.Pure((s, d)).update_state(nnx.Pure((u, e)))


def pure_update_pure_other__spec(s, d, u, e):
  if isinstance(u, (nnx.State, tuple)):
    return None
  raise TypeError()


def pure_update_state__impl(s: nnx.State, d: nnx.ModuleDef, u: nnx.State):
  """property: U01
  anchor: nnx.module:Pure.update_state"""
  return nnx.Pure((s, d)).update_state(u)


def pure_update_state__spec(s, d, u):
  return nnx.Pure((nnx.State({**s, **u}), d))


def pure_update_tuple__impl(s: nnx.State, t: nnx.State, d: nnx.ModuleDef, u: nnx.State, v: nnx.State):
  """property: U01
  anchor: nnx.module:Pure.update_state"""
  return nnx.Pure(((s, t), d)).update_state((u, v))


def pure_update_tuple__spec(s, t, d, u, v):
  return nnx.Pure((nnx.State({**s, **t, **u, **v}), d))


def pure_update_pure__impl(s: nnx.State, d: nnx.ModuleDef, u: nnx.State, v: nnx.State, e: nnx.ModuleDef):
  """property: U01
  anchor: nnx.module:Pure.update_state"""
  return nnx.Pure((s, d)).update_state(nnx.Pure(((u, v), e)))


def pure_update_pure__spec(s, d, u, v, e):
  return nnx.Pure((nnx.State({**s, **u, **v}), d))


def pure_update_pure_single__impl(s: nnx.State, d: nnx.ModuleDef, u: nnx.State, e: nnx.ModuleDef):
  """property: U01
  anchor: nnx.module:Pure.update_state"""
  return nnx.Pure((s, d)).update_state(nnx.Pure((u, e)))


def pure_update_pure_single__spec(s, d, u, e):
  return nnx.Pure((nnx.State({**s, **u}), d))


def pure_update_module__impl(s: nnx.State, d: nnx.ModuleDef, o: nnx.Module):
  """property: U01
  anchor: nnx.module:Pure.update_state"""
  return nnx.Pure((s, d)).update_state(o)


def pure_update_module__spec(s, d, o):
  return nnx.Pure((nnx.State({**s, **o.get_state()}), d))


def pure_flatten__impl(s: nnx.State, d: nnx.ModuleDef):
  """property: M04
  anchor: nnx.module:Pure"""
  p = nnx.Pure((s, d))
  children, aux = flatten_of(nnx.Pure)(p)
  q = unflatten_of(nnx.Pure)(aux, children)
  return tuple(children), q


def pure_flatten__spec(s, d):
  return (s, d), nnx.Pure((s, d))


def leaf_set__impl(m: nnx.Module, value):
  """property: T01 U01 V01
  anchor: nnx.module:MutableLeaf"""
  MutableLeaf(m, "encoder/w").value = value


def leaf_set__spec(m, value):
  sub = vars(m)["encoder"]
  if not isinstance(sub, nnx.Module):
    raise ValueError
  sub.w = value


def leaf_deep__impl(m: nnx.Module, value):
  """property: U01 T01
  anchor: nnx.module:MutableLeaf"""
  leaf = MutableLeaf(m, "encoder/layers/0/w")
  old = leaf.value
  leaf.value = value
  return old


def leaf_deep__spec(m, value):
  sub = vars(vars(vars(m)["encoder"])["layers"])["0"]
  if not isinstance(sub, nnx.Module):
    raise ValueError
  old = sub.w
  sub.w = value
  return old


def descend(m, parts):
  if not parts:
    return m
  return descend(vars(m)[parts[0]], parts[1:])


def leaf_any__impl(m: nnx.Module, path, value):
  """property: U01 T01
  anchor: nnx.module:MutableLeaf"""
  MutableLeaf(m, path).value = value


def leaf_any__spec(m, path, value):
  parts = path.split("/")
  sub = descend(m, parts[:-1])
  if not isinstance(sub, nnx.Module):
    raise ValueError
  setattr(sub, parts[-1], value)


def leaf_get__impl(m: nnx.Module):
  """property: V02
  anchor: nnx.module:MutableLeaf"""
  leaf = MutableLeaf(m, "w")
  return leaf.value, leaf.sharding


def leaf_get__spec(m):
  raw = vars(m)["w"]
  return m.w, (vars(raw).get("sharding", None) if isinstance(raw, nnx.Node) else None)


def attribute_read__impl(m: nnx.Module, name):
  """property: V01 V02
  anchor: nnx.module:Module.__getattribute__"""
  return m.__getattribute__(name)


def attribute_read__spec(m, name):
  value = object.__getattribute__(m, name)
  if not isinstance(value, nnx.Container):
    return value
  if hasattr(value, "unbox_fn"):
    return value.unbox_fn(value)
  return value.value


def node_values__impl(x):
  """property: M01
  anchor: nnx.nodes:is_node"""
  load_nodes()
  return is_node(x)


def node_values__spec(x):
  load_nodes()
  return isinstance(x, (jax.Array, np.ndarray, nnx.Node, nnx.State, nnx.Pure, nnx.Pytree, nnx.TreeNode))


def registered_values__impl(x, t: type):
  """property: M01
  anchor: nnx.nodes:register_node_type"""
  load_nodes()
  before = is_node(x)
  nnx.register_node_type(t)
  return before or is_node(x)


def registered_values__spec(x, t):
  load_nodes()
  nnx.register_node_type(t)
  return isinstance(x, (jax.Array, np.ndarray, nnx.Node, nnx.State, nnx.Pure, nnx.Pytree, nnx.TreeNode, t))
