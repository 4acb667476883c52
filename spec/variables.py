"""Reference definitions for variables and other containers (analysed, never run)."""
import nnx
from nnx.containers import Container, ContainerMetadata, NodeBase, Static, with_metadata
from sa_intrinsics import flatten_of, unflatten_of


def rest(c):
  return {k: v for k, v in vars(c).items() if k != "value"}


def construct(cls, value, metadata):
  """The metadata given, overridden by that of a value with metadata; another container must agree with the result."""
  inner = value.value if isinstance(value, Container) else value
  new = cls.__new__(cls)
  if isinstance(inner, ContainerMetadata):
    vars(new).update({**metadata, **inner.metadata, "value": inner.value})
  else:
    vars(new).update({**metadata, "value": inner})
  if isinstance(value, Container) and not value.is_equivalent(new):
    raise ValueError()
  return new


def new_variable__impl(value, metadata: dict):
  """property: V01
  construct: nnx.Node
  anchor: nnx.containers:ContainerMetaclass.__call__"""
  return nnx.Node(value, **metadata)


def new_variable__spec(value, metadata):
  return construct(nnx.Node, value, metadata)


def new_param__impl(value, sharding, metadata: dict):
  """property: V01
  construct: nnx.Param
  anchor: nnx.containers:Variable.__init__"""
  return nnx.Param(value, sharding=sharding, **metadata)


def new_param__spec(value, sharding, metadata):
  return construct(nnx.Param, value, {**metadata, "sharding": sharding})


def plain_param__impl(value):
  """property: V01
  construct: nnx.Param
  anchor: nnx.containers:Variable.__init__"""
  return nnx.Param(value)


def plain_param__spec(value):
  return construct(nnx.Param, value, {"sharding": None})


def new_static__impl(value):
  """property: V01 V02
  construct: nnx.Static
  anchor: nnx.containers:Static.__init__"""
  return nnx.Static(value)


def new_static__spec(value):
  return construct(nnx.Static, value, {})


def equivalent__impl(a: Container, b):
  """property: V01
  anchor: nnx.containers:Container.is_equivalent"""
  return bool(a.is_equivalent(b))


def equivalent__spec(a, b):
  return bool(type(a) is type(b) and rest(a) == rest(b))


def variable_equal__impl(a: Container, b):
  """property: V01 V02
  anchor: nnx.containers:Container.__eq__"""
  return bool(a.__eq__(b))


def variable_equal__spec(a, b):
  return bool(isinstance(b, Container) and type(a) is type(b) and vars(b) == vars(a))


def copy_variable__impl(a: Container):
  """property: V01
  anchor: nnx.containers:Container.copy"""
  return a.copy()


def copy_variable__spec(a):
  return type(a)(**vars(a))


def replace_value__impl(a: Container, value):
  """property: V01
  opaque: nnx.containers.Container.is_equivalent
  anchor: nnx.containers:Container.replace"""
  return a.replace(value=value)


def replace_value__spec(a, value):
  if isinstance(value, Container):
    if not a.is_equivalent(value):
      raise ValueError()
    value = value.value
  if "value" not in vars(a):
    raise ValueError()
  return type(a)(**{**vars(a), "value": value})


def replace_metadata__impl(a: Container, sharding):
  """property: V01 L02
  anchor: nnx.containers:Container.replace"""
  return a.replace(sharding=sharding)


def replace_metadata__spec(a, sharding):
  if "sharding" not in vars(a):
    raise ValueError()
  return type(a)(**{**vars(a), "sharding": sharding})


def replace_any__impl(a: Container, kwargs: dict):
  """property: V01
  opaque: nnx.containers.Container.is_equivalent
  anchor: nnx.containers:Container.replace"""
  return a.replace(**kwargs)


def replace_any__spec(a, kwargs):
  kwargs = dict(kwargs)
  if "value" in kwargs and isinstance(kwargs["value"], Container):
    if not a.is_equivalent(kwargs["value"]):
      raise ValueError()
    kwargs["value"] = kwargs["value"].value
  for k in kwargs:
    if k not in vars(a):
      raise ValueError()
  return type(a)(**{**vars(a), **kwargs})


def metadata_initializer__impl(init, a, b, metadata: dict):
  """property: V01 L01
  anchor: nnx.containers:with_metadata"""
  m = with_metadata(init, **metadata)(a, b)
  return isinstance(m, ContainerMetadata), m.value, dict(m.metadata)


def metadata_initializer__spec(init, a, b, metadata):
  return True, init(a, b), dict(metadata)


def static_flatten__impl(x: Static):
  """property: V02
  anchor: nnx.containers:_static_flatten"""
  children, aux = flatten_of(Static)(x)
  return tuple(children), aux


def static_flatten__spec(x):
  return (), x.value


def static_unflatten__impl(aux):
  """property: V02
  anchor: nnx.containers:_static_unflatten"""
  return unflatten_of(Static)(aux, ())


def static_unflatten__spec(aux):
  return Static(aux)


def static_hash__impl(x: Static):
  """property: V02
  anchor: nnx.containers:Static.__hash__"""
  return x.__hash__()


def static_hash__spec(x):
  return hash(x.value)
