"""Reference definitions for module identities (analysed, never run)."""
import copy

import nnx
from nnx.ids import UUID, UUIDManager, uuid
from nnx.module import ModuleState
from nnx.tracers import TraceState, current_jax_trace, current_nnx_trace


def next_id__impl():
  """property: I01
  construct: nnx.ids.UUIDManager nnx.ids.UUID
  anchor: nnx.ids:UUIDManager.__call__"""
  manager = UUIDManager()
  first = manager()
  second = manager()
  third = manager()
  return first.id == second.id, first.id == third.id, second.id == third.id, type(first), type(second)


def next_id__spec():
  UUIDManager()
  return False, False, False, UUID, UUID


def later_id__impl(manager: UUIDManager):
  """property: I01
  anchor: nnx.ids:UUIDManager.__call__"""
  return manager()


def later_id__spec(manager):
  manager._id = manager._id + 1
  return UUID(manager._id)


def id_equal__impl(a: UUID, b):
  """property: I01
  anchor: nnx.ids:UUID.__eq__"""
  return a == b


def id_equal__spec(a, b):
  return isinstance(b, UUID) and a.id == b.id


def id_hash__impl(a: UUID):
  """property: I01
  anchor: nnx.ids:UUID.__hash__"""
  return a.__hash__()


def id_hash__spec(a):
  return hash(a.id)


def id_copy__impl(a: UUID):
  """property: I01
  opaque: nnx.ids.UUIDManager.__call__
  anchor: nnx.ids:UUID.__copy__"""
  return a.__copy__()


def id_copy__spec(a):
  return uuid()


def id_deepcopy__impl(a: UUID, memo):
  """property: I01
  opaque: nnx.ids.UUIDManager.__call__
  anchor: nnx.ids:UUID.__deepcopy__"""
  return a.__deepcopy__(memo)


def id_deepcopy__spec(a, memo):
  return uuid()


def state_new__impl(flag):
  """property: I01 T01
  opaque: nnx.ids.UUIDManager.__call__
  anchor: nnx.module:ModuleState.__init__"""
  s = ModuleState(flag)
  return s.id, s.trace_state.jax_trace, s.trace_state.nnx_trace, s.is_initializing


def state_new__spec(flag):
  return uuid(), current_jax_trace(), current_nnx_trace(), flag


def state_default__impl():
  """property: I01 N01
  opaque: nnx.ids.UUIDManager.__call__
  anchor: nnx.module:ModuleState.__init__"""
  s = ModuleState()
  return s.id, s.is_initializing


def state_default__spec():
  return uuid(), False


def state_copy__impl(s: ModuleState):
  """property: I01 T01
  opaque: nnx.ids.UUIDManager.__call__
  anchor: nnx.module:ModuleState.__copy__"""
  c = s.__copy__()
  return c.id, c.trace_state.jax_trace, c.trace_state.nnx_trace, c.is_initializing


def state_copy__spec(s):
  return uuid(), current_jax_trace(), current_nnx_trace(), s.is_initializing


def state_deepcopy__impl(s: ModuleState, memo):
  """property: I01 T01
  opaque: nnx.ids.UUIDManager.__call__
  anchor: nnx.module:ModuleState.__deepcopy__"""
  c = s.__deepcopy__(memo)
  return c.id, c.trace_state.jax_trace, c.trace_state.nnx_trace, c.is_initializing


def state_deepcopy__spec(s, memo):
  return uuid(), current_jax_trace(), current_nnx_trace(), s.is_initializing


def state_rebuild__impl(flag):
  """property: I01 M03 T01
  opaque: nnx.ids.UUIDManager.__call__
  anchor: nnx.module:ModuleState.from_tuple"""
  s = ModuleState.from_tuple((flag,))
  return s.id, s.trace_state.jax_trace, s.trace_state.nnx_trace, s.to_tuple()


def state_rebuild__spec(flag):
  return uuid(), current_jax_trace(), current_nnx_trace(), (flag,)


def module_copy__impl(m: nnx.Module):
  """property: I01
  anchor: nnx.module:Module.__copy__"""
  return m.__copy__()


def module_copy__spec(m):
  new = object.__new__(type(m))
  vars(new).update(vars(m))
  vars(new)["_module__state"] = copy.copy(m._module__state)
  return new


def module_hash__impl(m: nnx.Module):
  """property: I01
  anchor: nnx.module:Module.__hash__"""
  return m.__hash__()


def module_hash__spec(m):
  return hash(m._module__state.id)
