"""Reference definitions for Pytree classes and registered containers (analysed, never run)."""
import dataclasses
from copy import copy
from types import MappingProxyType

import jax
from flax import serialization

import nnx
from nnx.containers import Container
from nnx.nodes import is_node
from sa_intrinsics import declared, flatten_of, from_state_of, plain_flatten_of, to_state_of, unflatten_of


class Tree(nnx.Pytree):
  pass


class MyNode(nnx.containers.NodeBase):
  pass


def tree_flatten__impl(x: nnx.Pytree):
  """property: Y01
  anchor: nnx.pytreelib:Pytree._pytree__flatten"""
  return flatten_of(Tree)(x)


def tree_flatten__spec(x):
  names = [n for n in x._pytree__sorted_fields if is_node(vars(x)[n])]
  children = [(jax.tree_util.GetAttrKey(n), vars(x)[n]) for n in names]
  static = {n: vars(x)[n] for n in x._pytree__sorted_fields if not is_node(vars(x)[n])}
  return children, (tuple(names), MappingProxyType(static))


def tree_plain_flatten__impl(x: nnx.Pytree):
  """property: Y01
  anchor: nnx.pytreelib:Pytree._pytree__flatten"""
  return plain_flatten_of(Tree)(x)


def tree_plain_flatten__spec(x):
  names = [n for n in x._pytree__sorted_fields if is_node(vars(x)[n])]
  children = [vars(x)[n] for n in names]
  static = {n: vars(x)[n] for n in x._pytree__sorted_fields if not is_node(vars(x)[n])}
  return children, (tuple(names), MappingProxyType(static))


def tree_unflatten__impl(names, static, children):
  """property: Y01
  anchor: nnx.pytreelib:Pytree._pytree__unflatten"""
  return unflatten_of(Tree)((names, static), children)


def tree_unflatten__spec(names, static, children):
  new = Tree.__new__(Tree)
  vars(new).update(zip(names, children))
  vars(new).update(static)
  return new


def node_flatten__impl(x: MyNode):
  """property: V02
  anchor: nnx.containers:NodeBase.__init_subclass__"""
  return flatten_of(MyNode)(x)


def node_flatten__spec(x):
  return ((jax.tree_util.GetAttrKey("value"), vars(x)["value"]),), {k: v for k, v in vars(x).items() if k != "value"}


def node_plain_flatten__impl(x: MyNode):
  """property: V02
  anchor: nnx.containers:NodeBase.__init_subclass__"""
  return plain_flatten_of(MyNode)(x)


def node_plain_flatten__spec(x):
  return (vars(x)["value"],), {k: v for k, v in vars(x).items() if k != "value"}


def node_unflatten__impl(metadata: dict, children):
  """property: V02
  anchor: nnx.containers:NodeBase.__init_subclass__"""
  return unflatten_of(MyNode)(metadata, children)


def node_unflatten__spec(metadata, children):
  return MyNode(children[0], **metadata)


def to_state__impl(x: nnx.Pytree):
  """property: Y03
  anchor: nnx.pytreelib:Pytree._to_flax_state_dict"""
  return to_state_of(Tree)(x)


def to_state__spec(x):
  return {n: serialization.to_state_dict(getattr(x, n)) for n, v in vars(x).items() if is_node(v)}


def from_state__impl(x: nnx.Pytree, state: dict):
  """property: Y03
  opaque: nnx.pytreelib.Pytree.replace
  anchor: nnx.pytreelib:Pytree._from_flax_state_dict"""
  return from_state_of(Tree)(x, state)


def from_state__spec(x, state):
  rest = state.copy()
  new = {}
  for n, v in vars(x).items():
    if is_node(v):
      if n not in rest:
        raise ValueError
      new[n] = serialization.from_state_dict(getattr(x, n), rest.pop(n), name=n)
  if rest:
    raise ValueError
  return x.replace(**new)


def construct__impl(cls, *args, **kwargs):
  """property: Y01 D01 T04 Y02
  never_none: nnx_container_fn
  raising: yes
  anchor: nnx.pytreelib:PytreeMeta.call"""
  return nnx.pytreelib.PytreeMeta.call(cls, *args, **kwargs)


def construct__spec(cls, *args, **kwargs):
  new = cls.__new__(cls, *args, **kwargs)
  vars(new)["_pytree__sorted_fields"] = ["_pytree__sorted_fields"]
  vars(new)["_pytree__is_mutable"] = True
  vars(new)["_pytree__initializing"] = True
  try:
    new.__init__(*args, **kwargs)
  finally:
    del vars(new)["_pytree__initializing"]
    del vars(new)["_pytree__is_mutable"]
  if dataclasses.is_dataclass(new):
    for field in dataclasses.fields(new):
      if "nnx_container_fn" in field.metadata:
        vars(new)[field.name] = field.metadata["nnx_container_fn"](object.__getattribute__(new, field.name))
  vars(new)["_pytree__sorted_fields"] = sorted(vars(new))
  return new


def tree_setattr__impl(x: nnx.Pytree, name, value):
  """property: Y02 V01
  anchor: nnx.pytreelib:Pytree._setattr"""
  x.__setattr__(name, value)


def tree_setattr__spec(x, name, value):
  fields = vars(x)
  if "_pytree__initializing" not in fields:
    if name not in fields:
      raise AttributeError
    if "_pytree__is_mutable" not in fields and not x._pytree__class_is_mutable:
      raise AttributeError
  if name in fields and isinstance(fields[name], Container):
    fields[name] = fields[name].replace(value=value)
  elif isinstance(value, Container):
    fields[name] = value.copy()
  else:
    fields[name] = value


def tree_getattr__impl(x: nnx.Pytree, name):
  """property: V02
  anchor: nnx.pytreelib:Pytree.__getattribute__"""
  return x.__getattribute__(name)


def tree_getattr__spec(x, name):
  value = object.__getattribute__(x, name)
  if isinstance(value, Container):
    return value.value
  return value


def tree_replace__impl(x: nnx.Pytree, a, b):
  """property: Y02 T04
  raising: yes
  anchor: nnx.pytreelib:Pytree.replace"""
  return x.replace(a=a, b=b)


def tree_replace__spec(x, a, b):
  if dataclasses.is_dataclass(x):
    new = {"a": a, "b": b}
    for field in dataclasses.fields(x):
      old = vars(x).get(field.name)
      if field.init and "nnx_container_fn" not in field.metadata and isinstance(old, Container):
        if field.name in new:
          new[field.name] = old.replace(value=new[field.name])
        else:
          new[field.name] = old
    return dataclasses.replace(x, **new)
  if {"a", "b"} - set(vars(x)) and not x._pytree__class_is_mutable:
    raise ValueError
  other = copy(x)
  vars(other)["_pytree__is_mutable"] = True
  try:
    setattr(other, "a", a)
    setattr(other, "b", b)
  finally:
    del vars(other)["_pytree__is_mutable"]
  return other


def declare__impl():
  """property: Y02 Y01 Y03
  anchor: nnx.pytreelib:Pytree.__init_subclass__"""
  return declared(Tree, "_pytree__class_is_mutable", mutable=True), declared(Tree, "_pytree__class_is_mutable", mutable=False), declared(Tree, "_pytree__class_is_mutable")


def declare__spec():
  return True, False, False  # immutable unless declared mutable
