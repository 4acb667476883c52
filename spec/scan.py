"""Reference definitions for scan (analysed, never run)."""
from types import MappingProxyType
import jax
import jax.numpy as jnp
import nnx
from nnx import spmd
from nnx.contextlib import Context, to_rng_predicate
from nnx.module import ModuleState
from nnx.transforms import ScanOptions, scan_apply, scan_init, tree_map_upto_left


def to_front(axis, tree):
  return jax.tree_map(lambda x: jnp.moveaxis(x, axis, 0), tree)


def to_axis(axis, tree):
  return jax.tree_map(lambda x: jnp.moveaxis(x, 0, axis), tree)


def apply_scan(options, f, module, carry_arg, axes_arg, args, kwargs):
  axes = tuple(options.variable_axes.values())
  filters = (*options.variable_axes.keys(), options.variable_broadcast, options.variable_carry)
  states, moduledef = module.partition(*filters)
  *axes_states, broadcast_state, carry_state = states

  axes_states = tuple(to_front(axis, s) for s, axis in zip(axes_states, axes))
  axes_arg = tree_map_upto_left(to_front, options.in_axes, axes_arg)

  lengths = set(x.shape[0] for x in jax.tree_util.tree_leaves((axes_states, axes_arg)))
  if len(lengths) > 1:
    raise ValueError()
  if len(lengths) == 0:
    if options.length is None:
      raise ValueError()
    length = options.length
  else:
    length = lengths.pop()
    if options.length is not None and options.length != length:
      raise ValueError()

  ctx = kwargs.pop("ctx", None)
  if ctx is not None:
    if not isinstance(ctx, Context):
      raise TypeError()
    keys, ctxdef = ctx.partition()
    split = to_rng_predicate(options.split_rngs)
    axes_keys = {}
    broadcast_keys = {}
    for name, key in keys.items():
      if split(name):
        axes_keys[name] = jax.random.split(key, length)
      else:
        broadcast_keys[name] = key
  else:
    ctxdef = axes_keys = broadcast_keys = None

  def body(carry, slices):
    carry_state, carry_arg = carry
    axes_keys, axes_states, axes_arg = slices
    if ctxdef is not None:
      kwargs["ctx"] = ctxdef.merge({**axes_keys, **broadcast_keys})
    if spmd.PARTITION_NAME in options.metadata_params:
      axes_states = [spmd.remove_axis(s, i, options.metadata_params) for s, i in zip(axes_states, axes)]
    module = moduledef.merge(*axes_states, broadcast_state, carry_state)
    carry_out, axes_out = f(module, carry_arg, axes_arg, *args, **kwargs)
    (*axes_states_out, broadcast_out, carry_state_out), _ = module.partition(*filters)
    carry_new = carry_state_out - carry_state
    broadcast_new = broadcast_out - broadcast_state
    carry_state_out = carry_state_out - carry_new
    if spmd.PARTITION_NAME in options.metadata_params:
      axes_states_out = [spmd.add_axis(s, i, options.metadata_params) for s, i in zip(axes_states_out, axes)]
    return (carry_state_out, carry_out), (axes_states_out, broadcast_new, carry_new, axes_out)

  def run(length, unroll, carry, slices):
    return jax.lax.scan(lambda carry, slices: body(carry, slices), carry, slices, length=length, reverse=options.reverse, unroll=unroll)

  carry = (carry_state, carry_arg)
  slices = (axes_keys, axes_states, axes_arg)
  abstract = jax.eval_shape(lambda carry, slices: run(length, options.unroll, carry, slices), carry, slices)
  _, broadcast_new, carry_new, _ = abstract[1]

  if len(jax.tree_util.tree_leaves((broadcast_new, carry_new))) > 0:
    if options.reverse:
      first, rest = slice(-1, None), slice(None, -1)
    else:
      first, rest = slice(None, 1), slice(1, None)
    carry, out1 = run(1, 1, carry, jax.tree_map(lambda x: x[first], slices))
    carry_state, carry_arg = carry
    axes_states1, broadcast_new, carry_new, y1 = out1
    broadcast_new, carry_new = jax.tree_map(lambda x: x[0], (broadcast_new, carry_new))
    broadcast_state = nnx.State.merge(broadcast_state, broadcast_new)
    carry_state = nnx.State.merge(carry_state, carry_new)
    carry, out2 = run(length - 1, options.unroll, (carry_state, carry_arg), jax.tree_map(lambda x: x[rest], slices))
    carry_state, carry_out = carry
    axes_states2, broadcast_new, carry_new, y2 = out2
    axes_states, out = jax.tree_map(
      lambda x, y: jnp.concatenate((y, x) if options.reverse else (x, y), axis=0), (axes_states1, y1), (axes_states2, y2)
    )
  else:
    carry, result = run(length, options.unroll, carry, slices)
    carry_state, carry_out = carry
    axes_states, broadcast_new, carry_new, out = result

  axes_states = tuple(to_axis(axis, s) for s, axis in zip(axes_states, axes))
  out = tree_map_upto_left(to_axis, options.out_axes, out)
  module.update_state((*axes_states, carry_state, broadcast_state, broadcast_new, carry_new))
  return carry_out, out


def scan_function__impl(fun, m: nnx.Module, variable_axes: Mapping, variable_broadcast, variable_carry, split_rngs, in_axes, out_axes, length, reverse, unroll, metadata_params, carry, xs, args, kwargs: dict):
  """property: X03 X04 X06 R03
  pure: @split
  opaque: @rebuild @predicates nnx.module.Module.partition nnx.spmd.add_axis nnx.spmd.remove_axis nnx.transforms.tree_map_upto_left nnx.state.State.merge
  pure_results: @predicates
  max_paths: 20000
  anchor: nnx.transforms:scan_apply"""
  f = nnx.scan(
    fun,
    variable_axes=variable_axes,
    variable_broadcast=variable_broadcast,
    variable_carry=variable_carry,
    split_rngs=split_rngs,
    in_axes=in_axes,
    out_axes=out_axes,
    length=length,
    reverse=reverse,
    unroll=unroll,
    metadata_params=metadata_params,
    is_init=False,
  )
  return f(m, carry, xs, *args, **kwargs)


def scan_function__spec(fun, m, variable_axes, variable_broadcast, variable_carry, split_rngs, in_axes, out_axes, length, reverse, unroll, metadata_params, carry, xs, args, kwargs):
  options = ScanOptions(variable_axes, variable_broadcast, variable_carry, split_rngs, in_axes, out_axes, length, reverse, unroll, None, metadata_params)
  return apply_scan(options, fun, m, carry, xs, args, dict(kwargs))


def init_scan(options, constructor, args, kwargs):
  if options.variable_axes and options.length is None:
    raise ValueError()
  filters = (*options.variable_axes.keys(), options.variable_broadcast, options.variable_carry)
  ctx = kwargs.pop("ctx", None)
  if ctx is not None and not isinstance(ctx, Context):
    raise TypeError()

  keys_in = []
  if ctx is not None:
    keys, ctxdef = ctx.partition()
    split = to_rng_predicate(options.split_rngs)
    key_axes = []
    for name, key in keys.items():
      if split(name):
        if options.length is None:
          raise ValueError()
        keys_in.append(jax.random.split(key, options.length))
        key_axes.append(0)
      else:
        keys_in.append(key)
        key_axes.append(None)
    names = tuple(keys.keys())
  else:
    ctxdef = key_axes = None

  moduledef = None

  def build(*key_values):
    nonlocal moduledef
    if ctxdef is not None:
      kwargs["ctx"] = ctxdef.merge(dict(zip(names, key_values)))
    states, moduledef = constructor(*args, **kwargs).partition(*filters)
    return states

  if ctxdef is not None or options.variable_axes:
    build = jax.vmap(build, in_axes=key_axes, out_axes=(*options.variable_axes.values(), None, None), axis_size=options.length)
  *axes_states, broadcast_state, carry_state = build(*keys_in)
  if spmd.PARTITION_NAME in options.metadata_params:
    axes_states = [spmd.add_axis(s, i, options.metadata_params) for s, i in zip(axes_states, options.variable_axes.values())]
  return moduledef.merge(*axes_states, broadcast_state, carry_state)


def scan_construct__impl(note, m: nnx.Module, options: ScanOptions, args, kwargs: dict):
  """property: X03 X04 X06 R03
  pure: @split
  opaque: @rebuild @predicates nnx.module.Module.partition nnx.spmd.add_axis nnx.spmd.remove_axis
  pure_results: @predicates
  anchor: nnx.transforms:scan_init"""
  def constructor(*args, **kwargs):
    note(args, kwargs)
    return m

  return scan_init(options, constructor, args, kwargs)


def scan_construct__spec(note, m, options, args, kwargs):
  def constructor(*args, **kwargs):
    note(args, kwargs)
    return m

  return init_scan(options, constructor, args, kwargs)


def scan_class__impl(note, m: nnx.Module, variable_axes: Mapping, variable_broadcast, variable_carry, split_rngs, in_axes, out_axes, length, reverse, unroll, metadata_params, a, carry, xs, *args, **kwargs):
  """property: X03 X06 X04
  opaque: nnx.transforms.scan_init nnx.transforms.scan_apply
  construct: nnx.Scan
  anchor: nnx.transforms:Scan"""
  def constructor(*args, **kwargs):
    note(args, kwargs)
    return m

  s = nnx.Scan(
    constructor,
    variable_axes=variable_axes,
    variable_broadcast=variable_broadcast,
    variable_carry=variable_carry,
    split_rngs=split_rngs,
    in_axes=in_axes,
    out_axes=out_axes,
    length=length,
    reverse=reverse,
    unroll=unroll,
    metadata_params=metadata_params,
  )(a, k=a)
  return s(carry, xs, *args, **kwargs)


def scan_class__spec(note, m, variable_axes, variable_broadcast, variable_carry, split_rngs, in_axes, out_axes, length, reverse, unroll, metadata_params, a, carry, xs, *args, ctx=None, **kwargs):
  def constructor(*args, **kwargs):
    note(args, kwargs)
    return m

  ModuleState()
  options = ScanOptions(variable_axes, variable_broadcast, variable_carry, split_rngs, in_axes, out_axes, length, reverse, unroll, None, metadata_params)
  scanned = scan_init(options, constructor, (a,), {"k": a})
  return scan_apply(options, lambda module, *args, **kwargs: module(*args, **kwargs), scanned, carry, xs, args, {**kwargs, "ctx": ctx})


def scan_class_method__impl(make, variable_axes: Mapping, metadata_params, carry, xs, *args, **kwargs):
  """property: X03 A01 X06 X04
  opaque: nnx.transforms.scan_init nnx.transforms.scan_apply
  construct: nnx.Scan
  anchor: nnx.transforms:Scan.call"""
  def constructor():
    return make()

  s = nnx.Scan(constructor, variable_axes=variable_axes)()
  return s.call.head["x"](carry, xs, *args, **kwargs)


def scan_class_method__spec(make, variable_axes, metadata_params, carry, xs, *args, **kwargs):
  ModuleState()
  options = ScanOptions(variable_axes, None, ..., None, 0, 0, None, False, 1, None, {})
  scanned = scan_init(options, lambda: make(), (), {})
  return scan_apply(options, lambda module, *args, **kwargs: module.head["x"](*args, **kwargs), scanned, carry, xs, args, kwargs)


def scan_wraps_init__impl(fun, variable_axes: Mapping, variable_broadcast, variable_carry, split_rngs, length, metadata_params, m: nnx.Module, *args, **kwargs):
  """property: X03 X06 X04
  opaque: nnx.transforms.scan_init nnx.module.Module.update_state
  anchor: nnx.transforms:scan"""
  f = nnx.scan(
    fun,
    variable_axes=variable_axes,
    variable_broadcast=variable_broadcast,
    variable_carry=variable_carry,
    split_rngs=split_rngs,
    length=length,
    metadata_params=metadata_params,
    is_init=True,
  )
  f(m, *args, **kwargs)


def scan_wraps_init__spec(fun, variable_axes, variable_broadcast, variable_carry, split_rngs, length, metadata_params, m, *args, **kwargs):
  def constructor(*args, **kwargs):
    fun(m, *args, **kwargs)
    return m

  options = ScanOptions(variable_axes, variable_broadcast, variable_carry, split_rngs, 0, 0, length, False, 1, None, metadata_params)
  m.update_state(scan_init(options, constructor, args, kwargs))


def scan_defaults__impl(fun, m: nnx.Module, carry, xs, *args, **kwargs):
  """property: X03 X06 X04
  opaque: nnx.transforms.scan_init nnx.module.Module.update_state nnx.transforms.scan_apply
  anchor: nnx.transforms:scan"""
  return nnx.scan(fun)(m, carry, xs, *args, **kwargs)


def scan_defaults__spec(fun, m, carry, xs, *args, **kwargs):
  def constructor(*args, **kwargs):
    fun(m, *args, **kwargs)
    return m

  options = ScanOptions({}, None, ..., None, 0, 0, None, False, 1, None, {})
  if fun.__name__ == "__init__":
    m.update_state(scan_init(options, constructor, (carry, xs, *args), kwargs))
    return None
  return scan_apply(options, fun, m, carry, xs, args, kwargs)


def map_prefix__impl(f, prefix, tree):
  """property: X03 X06
  anchor: nnx.transforms:tree_map_upto_left"""
  return tree_map_upto_left(f, prefix, tree)


def map_prefix__spec(f, prefix, tree):
  leaves, treedef = jax.tree_util.tree_flatten(prefix)
  return treedef.unflatten([f(leaf, sub) for leaf, sub in zip(leaves, treedef.flatten_up_to(tree))])
