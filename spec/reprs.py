"""Reference definitions for printing (analysed, never run)."""
import nnx
from nnx import reprlib
from nnx.containers import Container
from nnx.ids import UUID
from nnx.module import MODULE_REPR_CONTEXT, ModuleState
from nnx.nodes import is_node
from nnx.reprlib import REPR_CONTEXT, Attr, Object, add_indent, get_repr


def indent_scope__impl(indent: str, body):
  """property: T04 Q01
  raising: yes
  anchor: nnx.reprlib:add_indent"""
  with add_indent(indent):
    return body()


def indent_scope__spec(indent, body):
  REPR_CONTEXT.indent_stack.append(REPR_CONTEXT.indent_stack[-1] + indent)
  try:
    return body()
  finally:
    REPR_CONTEXT.indent_stack.pop()


def module_repr__impl(m: nnx.Module):
  """property: Q01 T04
  anchor: nnx.module:Module.__nnx_repr__"""
  return list(m.__nnx_repr__())


def module_repr__spec(m):
  context = MODULE_REPR_CONTEXT
  outermost = context.seen_modules is None
  if outermost:
    context.seen_modules = set()
  if m._module__state.id in context.seen_modules:
    return [Object(type=type(m), empty_repr="...")]
  context.seen_modules.add(m._module__state.id)
  items = [Object(type=type(m))]
  for name, value in vars(m).items():
    if isinstance(value, nnx.Module) or not is_node(value) and not name.startswith("_"):
      items.append(Attr(name, value))
  if outermost:
    context.seen_modules = None
  return items


def variable_repr__impl(v: Container):
  """property: Q01
  anchor: nnx.containers:Container.__nnx_repr__"""
  return list(v.__nnx_repr__())


def variable_repr__spec(v):
  return [Object(type=type(v))] + [Attr(name, repr(value)) for name, value in vars(v).items()]


def tree_repr__impl(v: nnx.Pytree):
  """property: Q01
  anchor: nnx.pytreelib:Pytree.__nnx_repr__"""
  return list(v.__nnx_repr__())


def tree_repr__spec(v):
  return [Object(type=type(v))] + [Attr(name, repr(value)) for name, value in vars(v).items()]


def state_repr__impl(m: dict):
  """property: Q01
  anchor: nnx.state:State.__nnx_repr__"""
  return list(nnx.State(m).__nnx_repr__())


def state_repr__spec(m):
  items = dict(sorted(m.items(), key=lambda kv: kv[0]))
  return [Object(type=nnx.State, value_sep=": ", start="({", end="})")] + [Attr(repr(k), v) for k, v in items.items()]


def definition_repr__impl(d: nnx.ModuleDef):
  """property: Q01
  anchor: nnx.module:ModuleDef.__nnx_repr__"""
  head, t, i, s, f = d.__nnx_repr__()
  return head, t, i, f, s.key, list(s.value.__nnx_repr__())


def definition_repr__spec(d):
  submodules = [Object(type="", value_sep=", ")] + [Attr(repr(name), sub, start="(", end=")") for name, sub in d.submodules]
  return Object(type=type(d)), Attr("type", d.type.__name__), Attr("index", d.index), Attr("static_fields", d.static_fields), "submodules", submodules


class Printed(reprlib.Representable):

  def __nnx_repr__(self):
    yield Object(type="Printed", start="<", end=">", value_sep=":", elem_indent="    ", empty_repr="nothing")
    for k, v in vars(self).items():
      yield Attr(k, v, start="[", end="]")


def text__impl(x: Printed):
  """property: Q01 T04
  raising: yes
  anchor: nnx.reprlib:get_repr"""
  return get_repr(x)


def text__spec(x):
  def line(k, v):
    value = v if isinstance(v, str) else repr(v)
    if "\n" in value and not isinstance(v, reprlib.Representable):
      value = value.replace("\n", "\n" + REPR_CONTEXT.indent_stack[-1])
    return f"{REPR_CONTEXT.indent_stack[-1]}[{k}:{value}]"

  with add_indent("    "):
    lines = ",\n".join([line(k, v) for k, v in vars(x).items()])
  if lines:
    return f"Printed<\n{lines}\n{REPR_CONTEXT.indent_stack[-1]}>"
  return "Printed<nothing>"


def module_state_repr__impl(s: ModuleState):
  """property: Q01
  anchor: nnx.module:ModuleState.__nnx_repr__"""
  return list(s.__nnx_repr__())


def module_state_repr__spec(s):
  return [Object(type=type(s)), Attr("trace_state", s.trace_state)]


def identity_repr__impl(u: UUID):
  """property: Q01
  anchor: nnx.ids:UUID.__repr__"""
  return u.__repr__()


def identity_repr__spec(u):
  return f"UUID({u.id})"
