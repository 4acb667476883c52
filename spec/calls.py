"""Reference definitions for call proxies, identities and initialization (analysed, never run)."""
import copy

import nnx
from nnx.ids import UUID, UUIDManager, uuid
from nnx.module import CallableProxy, DelayedAccessor, ModuleState
from nnx.tracers import TraceState


def pure_call__impl(s: nnx.State, d: nnx.ModuleDef, *args, **kwargs):
  """property: A01
  opaque: nnx.module.ModuleDef.merge
  anchor: nnx.module:Pure.call"""
  return nnx.Pure((s, d)).call(*args, **kwargs)


def pure_call__spec(s, d, *args, **kwargs):
  return d.merge(s)(*args, **kwargs)


def pure_call_split__impl(s: nnx.State, r: nnx.State, d: nnx.ModuleDef, *args, **kwargs):
  """property: A01
  opaque: nnx.module.ModuleDef.merge
  anchor: nnx.module:Pure.call"""
  return nnx.Pure(((s, r), d)).call(*args, **kwargs)


def pure_call_split__spec(s, r, d, *args, **kwargs):
  return d.merge(s, r)(*args, **kwargs)


def pure_call_chain__impl(s: nnx.State, d: nnx.ModuleDef, key, *args, **kwargs):
  """property: A01
  opaque: nnx.module.ModuleDef.merge
  anchor: nnx.module:DelayedAccessor"""
  return nnx.Pure((s, d)).call.encoder[key].head(*args, **kwargs)


def pure_call_chain__spec(s, d, key, *args, **kwargs):
  return d.merge(s).encoder[key].head(*args, **kwargs)


def pure_call_items__impl(s: nnx.State, d: nnx.ModuleDef, k1, k2, *args, **kwargs):
  """property: A01
  opaque: nnx.module.ModuleDef.merge
  anchor: nnx.module:DelayedAccessor"""
  return nnx.Pure((s, d)).call[k1][k2](*args, **kwargs)


def pure_call_items__spec(s, d, k1, k2, *args, **kwargs):
  return d.merge(s)[k1][k2](*args, **kwargs)


def pure_apply_chain__impl(s: nnx.State, d: nnx.ModuleDef, key, *args, **kwargs):
  """property: A01
  pure: @split
  opaque: nnx.module.ModuleDef.merge
  anchor: nnx.module:ModuleDef.apply"""
  return nnx.Pure((s, d)).apply.encoder[key].head(*args, **kwargs)


def pure_apply_chain__spec(s, d, key, *args, **kwargs):
  module = d.merge(s)
  out = module.encoder[key].head(*args, **kwargs)
  return out, nnx.Pure((module.get_state(), module.get_module_def()))


def def_apply__impl(s: nnx.State, r: nnx.State, d: nnx.ModuleDef, *args, **kwargs):
  """property: A01
  pure: @split
  opaque: nnx.module.ModuleDef.merge
  anchor: nnx.module:ModuleDef.apply"""
  return d.apply(s, r)(*args, **kwargs)


def def_apply__spec(s, r, d, *args, **kwargs):
  module = d.merge(s, r)
  out = module(*args, **kwargs)
  return out, nnx.Pure((module.get_state(), module.get_module_def()))


def pure_apply_split__impl(s: nnx.State, r: nnx.State, d: nnx.ModuleDef, *args, **kwargs):
  """property: A01
  pure: @split
  opaque: nnx.module.ModuleDef.merge
  anchor: nnx.module:Pure.apply"""
  return nnx.Pure(((s, r), d)).apply(*args, **kwargs)


def pure_apply_split__spec(s, r, d, *args, **kwargs):
  module = d.merge(s, r)
  out = module(*args, **kwargs)
  return out, nnx.Pure((module.get_state(), module.get_module_def()))


def module_apply__impl(m: nnx.Module, key, *args, **kwargs):
  """property: A01
  pure: @split
  opaque: nnx.module.ModuleDef.merge
  anchor: nnx.module:Module.apply"""
  return m.apply.encoder[key](*args, **kwargs)


def module_apply__spec(m, key, *args, **kwargs):
  module = m.get_module_def().merge(m.get_state())
  out = module.encoder[key](*args, **kwargs)
  return out, module


def module_init__impl(m: nnx.Module, key, *args, **kwargs):
  """property: A01 T04 M02
  opaque: nnx.module.Module.for_each
  raising: yes
  anchor: nnx.module:Module.init"""
  return m.init.encoder[key](*args, **kwargs)


def module_init__spec(m, key, *args, **kwargs):
  def mark(module):
    module._module__state.is_initializing = True

  def unmark(module):
    module._module__state.is_initializing = False

  m.for_each(nnx.Module, mark)
  try:
    return m.encoder[key](*args, **kwargs)
  finally:
    m.for_each(nnx.Module, unmark)


def module_apply_again__impl(m: nnx.Module, x, y):
  """property: A01
  pure: @split
  opaque: nnx.module.ModuleDef.merge
  anchor: nnx.module:Module.apply"""
  run = m.apply
  return run(x), run.head(y)


def module_apply_again__spec(m, x, y):
  first = m.get_module_def().merge(m.get_state())
  out = first(x)
  second = m.get_module_def().merge(m.get_state())
  return (out, first), (second.head(y), second)


def pure_call_again__impl(s: nnx.State, d: nnx.ModuleDef, x, y):
  """property: A01
  opaque: nnx.module.ModuleDef.merge
  anchor: nnx.module:Pure.call"""
  run = nnx.Pure((s, d)).call
  return run(x), run.head(y)


def pure_call_again__spec(s, d, x, y):
  out = d.merge(s)(x)
  return out, d.merge(s).head(y)


def pure_apply_again__impl(s: nnx.State, d: nnx.ModuleDef, x, y):
  """property: A01
  pure: @split
  opaque: nnx.module.ModuleDef.merge
  anchor: nnx.module:Pure.apply"""
  run = nnx.Pure((s, d)).apply
  return run(x), run.head(y)


def pure_apply_again__spec(s, d, x, y):
  first = d.merge(s)
  out = first(x)
  state, definition = first.get_state(), first.get_module_def()
  second = d.merge(s)
  return (out, nnx.Pure((state, definition))), (second.head(y), nnx.Pure((second.get_state(), second.get_module_def())))


def module_init_again__impl(m: nnx.Module, x, y):
  """property: A01 T04
  opaque: nnx.module.Module.for_each
  raising: yes
  anchor: nnx.module:Module.init"""
  run = m.init
  return run(x), run.head(y)


def module_init_again__spec(m, x, y):
  def mark(module):
    module._module__state.is_initializing = True

  def unmark(module):
    module._module__state.is_initializing = False

  m.for_each(nnx.Module, mark)
  try:
    first = m(x)
  finally:
    m.for_each(nnx.Module, unmark)
  m.for_each(nnx.Module, mark)
  try:
    return first, m.head(y)
  finally:
    m.for_each(nnx.Module, unmark)


def proxy_chain__impl(context, accessor: DelayedAccessor, key, *args, **kwargs):
  """property: A01
  anchor: nnx.module:CallableProxy"""
  return CallableProxy(context, accessor)[key].head[0](*args, **kwargs)


def proxy_chain__spec(context, accessor, key, *args, **kwargs):
  return context(DelayedAccessor(lambda x: accessor(x)[key].head[0]), *args, **kwargs)


def initializing_flag__impl(m: nnx.Module):
  """property: T04 A01
  anchor: nnx.module:Module.is_initializing"""
  return m.is_initializing


def initializing_flag__spec(m):
  return m._module__state.is_initializing


def accessor_name__impl(m: nnx.Module, *args):
  """property: A01
  pure: @split
  opaque: nnx.module.ModuleDef.merge
  anchor: nnx.module:DelayedAccessor"""
  return m.apply.accessor.encoder(*args)


def accessor_name__spec(m, *args):
  module = m.get_module_def().merge(m.get_state())
  out = module.accessor.encoder(*args)
  return out, module
