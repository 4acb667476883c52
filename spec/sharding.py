"""Reference definitions for sharding metadata and logical axis rules (analysed, never run)."""
import collections
import functools
import jax
import nnx
from jax.experimental import maps
from jax.sharding import NamedSharding, PartitionSpec
from nnx import spmd
from nnx.spmd import HasSharding, LogicallyPartitioned, RulesFallback, logical_axis_rules, logical_to_mesh, logical_to_mesh_axes, logical_to_mesh_sharding
from nnx.spmd import get_logical_axis_rules, set_logical_axis_rules, with_logical_constraint, with_logical_partitioning


def add_axis__impl(tree, index, params):
  """property: L02 X03
  anchor: nnx.spmd:add_axis"""
  return spmd.add_axis(tree, index, params)


def add_axis__spec(tree, index, params):
  if "partition_name" not in params:
    raise ValueError()
  name = params["partition_name"]

  def edit(x):
    if isinstance(x, nnx.Node) and isinstance(x, HasSharding) and x.sharding is not None:
      sharding = list(x.sharding)
      at = index if index >= 0 else len(sharding) + 1 + index
      while len(sharding) < at:
        sharding.append(None)
      sharding.insert(at, name)
      return x.replace(sharding=tuple(sharding))
    return x

  return jax.tree_map(edit, tree, is_leaf=lambda x: isinstance(x, nnx.Node))


def remove_axis__impl(tree, index, params):
  """property: L02 X03
  anchor: nnx.spmd:remove_axis"""
  return spmd.remove_axis(tree, index, params)


def remove_axis__spec(tree, index, params):
  if "partition_name" not in params:
    raise ValueError()
  name = params["partition_name"]

  def edit(x):
    if isinstance(x, nnx.Node) and isinstance(x, HasSharding) and x.sharding is not None:
      sharding = list(x.sharding)
      if sharding.pop(index) != name:
        raise ValueError()
      return x.replace(sharding=tuple(sharding))
    return x

  return jax.tree_map(edit, tree, is_leaf=lambda x: isinstance(x, nnx.Node))


def partition_spec__impl(tree):
  """property: L02 L01
  anchor: nnx.spmd:get_partition_spec"""
  return spmd.get_partition_spec(tree)


def partition_spec__spec(tree):
  def f(x):
    if isinstance(x, nnx.Node) and isinstance(x, HasSharding) and x.sharding:
      return PartitionSpec(*x.sharding)
    value = x.value if isinstance(x, nnx.Node) else x
    return PartitionSpec() if hasattr(value, "shape") else None

  return jax.tree_map(f, tree, is_leaf=lambda x: isinstance(x, nnx.Node))


def assign(names, rules):
  if rules is None:
    rules = spmd._axis_rules.rules
  if tuple(k for k, v in collections.Counter(names).items() if v > 1 and k is not None):
    raise ValueError()
  if not isinstance(rules, (tuple, list)):
    raise ValueError()
  result = [spmd._unassigned_axis] * len(names)
  for name, mesh_axes in rules:
    if name in names:
      at = names.index(name)
      taken = set(jax.tree_util.tree_leaves(result))
      if not taken.intersection(set(jax.tree_util.tree_leaves(mesh_axes))) and result[at] == spmd._unassigned_axis:
        result[at] = mesh_axes
  return result


def mesh_axes__impl(names, rules):
  """property: L01
  anchor: nnx.spmd:logical_to_mesh_axes"""
  return logical_to_mesh_axes(names, rules)


def mesh_axes__spec(names, rules):
  if names is None:
    return None
  return PartitionSpec(*[None if x is spmd._unassigned_axis else x for x in assign(names, rules)])


def mesh_axes_ambient__impl(names):
  """property: L01
  anchor: nnx.spmd:logical_to_mesh_axes"""
  return logical_to_mesh_axes(names)


def mesh_axes_ambient__spec(names):
  if names is None:
    return None
  return PartitionSpec(*[None if x is spmd._unassigned_axis else x for x in assign(names, None)])


def tree_to_mesh__impl(tree, rules):
  """property: L01
  opaque: nnx.spmd.logical_to_mesh_axes
  anchor: nnx.spmd:logical_to_mesh"""
  return logical_to_mesh(tree, rules)


def tree_to_mesh__spec(tree, rules):
  return jax.tree_map(lambda x: logical_to_mesh_axes(x, rules), tree, is_leaf=lambda x: isinstance(x, PartitionSpec))


def tree_to_sharding__impl(tree, mesh, rules):
  """property: L01
  opaque: nnx.spmd.logical_to_mesh_axes
  anchor: nnx.spmd:logical_to_mesh_sharding"""
  return logical_to_mesh_sharding(tree, mesh, rules)


def tree_to_sharding__spec(tree, mesh, rules):
  specs = jax.tree_map(lambda x: logical_to_mesh_axes(x, rules), tree, is_leaf=lambda x: isinstance(x, PartitionSpec))
  return jax.tree_map(lambda x: NamedSharding(mesh, x), specs, is_leaf=lambda x: isinstance(x, PartitionSpec))


def constrain(x, resources, mesh):
  if mesh is None and not maps.thread_resources.env.physical_mesh.devices.shape != ():
    return x
  if mesh is not None and resources is not None:
    return jax.lax.with_sharding_constraint(x, NamedSharding(mesh, resources))
  return jax.lax.with_sharding_constraint(x, resources)


def constraint__impl(x, names, rules, mesh, fallback):
  """property: L01
  max_paths: 20000
  anchor: nnx.spmd:with_logical_constraint"""
  return with_logical_constraint(x, names, rules=rules, mesh=mesh, fallback=fallback)


def constraint__spec(x, names, rules, mesh, fallback):
  if rules is None:
    rules = spmd._axis_rules.rules
  if not rules or names is None:
    return x

  def one(names, x):
    if names is None:
      return constrain(x, None, mesh)
    axes = assign(names, rules)
    if fallback == RulesFallback.AXIS_IS_UNSHARDED:
      axes = [None if a is spmd._unassigned_axis else a for a in axes]
    elif any(a is spmd._unassigned_axis for a in axes):
      if fallback == RulesFallback.RAISE_ERROR:
        raise ValueError()
      return x
    return constrain(x, PartitionSpec(*axes), mesh)

  def is_spec(x):
    return x is None or (isinstance(x, tuple) and all(isinstance(e, str) or e is None for e in x))

  return jax.tree_util.tree_map(one, names, x, is_leaf=is_spec)


def constraint_default__impl(x, names):
  """property: L01
  opaque: nnx.spmd._logical_to_mesh_axes
  anchor: nnx.spmd:with_logical_constraint"""
  return with_logical_constraint(x, names)


def constraint_default__spec(x, names):
  return with_logical_constraint(x, names, rules=None, mesh=None, fallback=RulesFallback.AXIS_IS_UNSHARDED)


def rules_scope__impl(rules, action, arg):
  """property: T04 L01
  raising: yes
  anchor: nnx.spmd:logical_axis_rules"""
  with logical_axis_rules(rules):
    out = action(arg)
  return out


def rules_scope__spec(rules, action, arg):
  old = spmd._axis_rules.rules
  try:
    spmd._axis_rules.rules = rules
    out = action(arg)
  finally:
    spmd._axis_rules.rules = old
  return out


def ambient_rules__impl(rules):
  """property: L01
  anchor: nnx.spmd:set_logical_axis_rules"""
  set_logical_axis_rules(rules)
  return get_logical_axis_rules()


def ambient_rules__spec(rules):
  spmd._axis_rules.rules = rules
  return rules


def logical_initializer__impl(initializer, sharding, mesh, rules, key, shape, dtype):
  """property: L01
  opaque: nnx.spmd.with_logical_constraint
  anchor: nnx.spmd:with_logical_partitioning"""
  meta = with_logical_partitioning(initializer, sharding, mesh=mesh, rules=rules)(key, shape, dtype)
  return meta.value, meta.metadata["sharding"], meta.metadata["mesh"], meta.metadata["rules"]


def logical_initializer__spec(initializer, sharding, mesh, rules, key, shape, dtype):
  y = initializer(key, shape, dtype)
  if maps.thread_resources.env.physical_mesh.devices.shape != () or mesh is not None:
    y = with_logical_constraint(y, sharding, rules=rules, mesh=mesh)
  return y, sharding, mesh, rules


def logical_unbox__impl(initializer, sharding, mesh, rules, key, node: nnx.Node):
  """property: L01 V02
  opaque: nnx.spmd.with_logical_constraint nnx.spmd.get_partition_spec
  anchor: nnx.spmd:with_logical_partitioning"""
  meta = with_logical_partitioning(initializer, sharding, mesh=mesh, rules=rules)(key)
  return meta.metadata["unbox_fn"](node)


def logical_unbox__spec(initializer, sharding, mesh, rules, key, node):
  y = initializer(key)
  active = maps.thread_resources.env.physical_mesh.devices.shape != ()
  if active or mesh is not None:
    with_logical_constraint(y, sharding, rules=rules, mesh=mesh)
  if active or (isinstance(node, LogicallyPartitioned) and node.mesh is not None):
    return with_logical_constraint(node.value, spmd.get_partition_spec(node), rules=node.rules, mesh=node.mesh)
  return node.value
