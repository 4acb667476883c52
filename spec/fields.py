"""Reference definitions for dataclass field specifiers (analysed, never run)."""
import dataclasses

import nnx
from nnx.containers import Node, Param, Static
from nnx.module import ModuleState


def declare(make, default, default_factory, init, repr, hash, compare, metadata):
  entries = {} if metadata is None else dict(metadata)
  if "nnx_container_fn" in entries:
    raise ValueError
  entries["nnx_container_fn"] = make
  return dataclasses.field(default=default, default_factory=default_factory, init=init, repr=repr, hash=hash, compare=compare, metadata=entries)


def plain_field__impl(default, default_factory, init, repr, hash, compare, metadata):
  """property: D01
  anchor: nnx.dataclasses:field"""
  return nnx.field(default=default, default_factory=default_factory, init=init, repr=repr, hash=hash, compare=compare, metadata=metadata)


def plain_field__spec(default, default_factory, init, repr, hash, compare, metadata):
  return dataclasses.field(default=default, default_factory=default_factory, init=init, repr=repr, hash=hash, compare=compare, metadata=metadata)


def plain_field_default__impl():
  """property: D01
  anchor: nnx.dataclasses:field"""
  return nnx.field()


def plain_field_default__spec():
  return dataclasses.field(default=dataclasses.MISSING, default_factory=dataclasses.MISSING, init=True, repr=True, hash=None, compare=True, metadata=None)


def node_field__impl(default, default_factory, init, repr, hash, compare, metadata):
  """property: D01
  anchor: nnx.dataclasses:node_field"""
  return nnx.node_field(default=default, default_factory=default_factory, init=init, repr=repr, hash=hash, compare=compare, metadata=metadata)


def node_field__spec(default, default_factory, init, repr, hash, compare, metadata):
  return declare(lambda value: Node(value), default, default_factory, init, repr, hash, compare, metadata)


def node_field_default__impl():
  """property: D01
  anchor: nnx.dataclasses:node_field"""
  return nnx.node_field()


def node_field_default__spec():
  return declare(lambda value: Node(value), dataclasses.MISSING, dataclasses.MISSING, True, True, None, True, None)


def static_field__impl(default, default_factory, init, repr, hash, compare, metadata):
  """property: D01
  anchor: nnx.dataclasses:static_field"""
  return nnx.static_field(default=default, default_factory=default_factory, init=init, repr=repr, hash=hash, compare=compare, metadata=metadata)


def static_field__spec(default, default_factory, init, repr, hash, compare, metadata):
  return declare(lambda value: Static(value), default, default_factory, init, repr, hash, compare, metadata)


def static_field_default__impl():
  """property: D01
  anchor: nnx.dataclasses:static_field"""
  return nnx.static_field()


def static_field_default__spec():
  return declare(lambda value: Static(value), dataclasses.MISSING, dataclasses.MISSING, True, True, None, True, None)


def var_field__impl(kind, default, default_factory, init, repr, hash, compare, metadata, sharding):
  """property: D01
  anchor: nnx.dataclasses:var_field"""
  return nnx.var_field(
    kind, default=default, default_factory=default_factory, init=init, repr=repr, hash=hash, compare=compare, metadata=metadata, sharding=sharding
  )


def var_field__spec(kind, default, default_factory, init, repr, hash, compare, metadata, sharding):
  return declare(lambda value: kind(value, sharding=sharding), default, default_factory, init, repr, hash, compare, metadata)


def var_field_default__impl(kind):
  """property: D01
  anchor: nnx.dataclasses:var_field"""
  return nnx.var_field(kind)


def var_field_default__spec(kind):
  return declare(lambda value: kind(value, sharding=None), dataclasses.MISSING, dataclasses.MISSING, True, True, None, True, None)


def param_field__impl(default, default_factory, init, repr, hash, compare, metadata):
  """property: D01
  anchor: nnx.dataclasses:param_field"""
  return nnx.param_field(default, default_factory=default_factory, init=init, repr=repr, hash=hash, compare=compare, metadata=metadata)


def param_field__spec(default, default_factory, init, repr, hash, compare, metadata):
  return declare(lambda value: Param(value, sharding=None), default, default_factory, init, repr, hash, compare, metadata)


def param_field_default__impl():
  """property: D01
  anchor: nnx.dataclasses:param_field"""
  return nnx.param_field()


def param_field_default__spec():
  return declare(lambda value: Param(value, sharding=None), dataclasses.MISSING, dataclasses.MISSING, True, True, None, True, None)


def dataclass_options__impl(cls, init, repr, eq, order, unsafe_hash, frozen):
  """property: D01
  anchor: nnx.dataclasses:dataclass"""
  return nnx.dataclass(init=init, repr=repr, eq=eq, order=order, unsafe_hash=unsafe_hash, frozen=frozen)(cls)


def dataclass_options__spec(cls, init, repr, eq, order, unsafe_hash, frozen):
  return dataclasses.dataclass(init=init, repr=repr, eq=eq, order=order, unsafe_hash=unsafe_hash, frozen=frozen)(cls)


def dataclass_plain__impl(cls):
  """property: D01
  anchor: nnx.dataclasses:dataclass"""
  return nnx.dataclass(cls)


def dataclass_plain__spec(cls):
  wrap = dataclasses.dataclass(init=True, repr=True, eq=True, order=False, unsafe_hash=False, frozen=False)
  if cls is None:
    return wrap
  return wrap(cls)


def module_construct__impl(cls, *args, **kwargs):
  """property: D01 T01 I01
  never_none: nnx_container_fn
  anchor: nnx.module:ModuleMeta._meta_call"""
  return nnx.module.ModuleMeta._meta_call(cls, *args, **kwargs)


def module_construct__spec(cls, *args, **kwargs):
  new = cls.__new__(cls, *args, **kwargs)
  vars(new)["_module__state"] = ModuleState()
  new.__init__(*args, **kwargs)
  if dataclasses.is_dataclass(new):
    for field in dataclasses.fields(new):
      if "nnx_container_fn" in field.metadata:
        vars(new)[field.name] = field.metadata["nnx_container_fn"](object.__getattribute__(new, field.name))
  return new
