"""Reference definitions for the lifted transformations (analysed, never run)."""
import functools
import jax
import nnx
from nnx.contextlib import Context, PureContext
from nnx.module import ModuleState
from nnx.partitioning import to_predicate
from nnx.tracers import TRACE_CONTEXT, get_top_trace, nnx_trace


def jit__impl(fun, m: nnx.Module, args, kwargs):
  """property: X01 T03
  pure: @split
  opaque: @rebuild
  anchor: nnx.transforms:JitTransform"""
  return nnx.jit(fun)(m, *args, **kwargs)


def jit__spec(fun, m, args, kwargs):
  def body(pure, *args, **kwargs):
    with nnx_trace(get_top_trace((args, kwargs))):
      if "ctx" in kwargs and isinstance(kwargs["ctx"], PureContext):
        kwargs["ctx"] = kwargs["ctx"].merge()
      module = pure.merge()
      out = fun(module, *args, **kwargs)
    return module.get_state(), out

  jitted = jax.jit(
    body, static_argnums=None, static_argnames=["_nnx__dagdef"], donate_argnums=(), keep_unused=False, device=None, backend=None, inline=False, abstracted_axes=None
  )
  if not isinstance(m, nnx.Module):
    raise TypeError()
  if "ctx" in kwargs and isinstance(kwargs["ctx"], Context):
    kwargs = {**kwargs, "ctx": kwargs["ctx"].partition()}
  updates, out = jitted(nnx.Pure((m.get_state(), m.get_module_def())), *args, **kwargs)
  m.update_state(updates)
  return out


def jit_options__impl(fun, stateful, in_shardings, out_shardings, static_argnums, donate_argnums, keep_unused, device, backend, inline, abstracted_axes, m: nnx.Module, arg):
  """property: X01 X06
  pure: @split
  opaque: @rebuild
  anchor: nnx.transforms:jit"""
  f = nnx.jit(
    fun,
    stateful=stateful,
    in_shardings=in_shardings,
    out_shardings=out_shardings,
    static_argnums=static_argnums,
    static_argnames="flag",
    donate_argnums=donate_argnums,
    keep_unused=keep_unused,
    device=device,
    backend=backend,
    inline=inline,
    abstracted_axes=abstracted_axes,
  )
  return f(m, arg)


def jit_options__spec(fun, stateful, in_shardings, out_shardings, static_argnums, donate_argnums, keep_unused, device, backend, inline, abstracted_axes, m, arg):
  def body(pure, *args, **kwargs):
    with nnx_trace(get_top_trace((args, kwargs))):
      if "ctx" in kwargs and isinstance(kwargs["ctx"], PureContext):
        kwargs["ctx"] = kwargs["ctx"].merge()
      module = pure.merge()
      out = fun(module, *args, **kwargs)
    if stateful:
      return module.get_state(), out
    return out

  jitted = jax.jit(
    body,
    static_argnums=static_argnums,
    static_argnames=["flag", "_nnx__dagdef"],
    donate_argnums=donate_argnums,
    keep_unused=keep_unused,
    device=device,
    backend=backend,
    inline=inline,
    abstracted_axes=abstracted_axes,
    in_shardings=in_shardings,
    out_shardings=out_shardings,
  )
  out = jitted(nnx.Pure((m.get_state(), m.get_module_def())), arg)
  if stateful:
    updates, out = out
    m.update_state(updates)
  return out


def jit_lower__impl(fun, m: nnx.Module, args, kwargs):
  """property: X01
  pure: @split
  opaque: @rebuild
  anchor: nnx.transforms:JitTransform.lower"""
  return nnx.jit(fun).lower(m, *args, **kwargs)


def jit_lower__spec(fun, m, args, kwargs):
  def body(pure, *args, **kwargs):
    with nnx_trace(get_top_trace((args, kwargs))):
      if "ctx" in kwargs and isinstance(kwargs["ctx"], PureContext):
        kwargs["ctx"] = kwargs["ctx"].merge()
      module = pure.merge()
      out = fun(module, *args, **kwargs)
    return module.get_state(), out

  jitted = jax.jit(
    body, static_argnums=None, static_argnames=["_nnx__dagdef"], donate_argnums=(), keep_unused=False, device=None, backend=None, inline=False, abstracted_axes=None
  )
  if "ctx" in kwargs and isinstance(kwargs["ctx"], Context):
    kwargs = {**kwargs, "ctx": kwargs["ctx"].partition()}
  return jitted.lower(nnx.Pure((m.get_state(), m.get_module_def())), *args, **kwargs)


def jit_lower_given__impl(fun, pure, args, kwargs):
  """property: X01
  pure: @split
  opaque: @rebuild
  anchor: nnx.transforms:JitTransform.lower"""
  return nnx.jit(fun).lower(nnx.Pure(pure), *args, **kwargs)


def jit_lower_given__spec(fun, pure, args, kwargs):
  def body(pure, *args, **kwargs):
    with nnx_trace(get_top_trace((args, kwargs))):
      if "ctx" in kwargs and isinstance(kwargs["ctx"], PureContext):
        kwargs["ctx"] = kwargs["ctx"].merge()
      module = pure.merge()
      out = fun(module, *args, **kwargs)
    return module.get_state(), out

  jitted = jax.jit(
    body, static_argnums=None, static_argnames=["_nnx__dagdef"], donate_argnums=(), keep_unused=False, device=None, backend=None, inline=False, abstracted_axes=None
  )
  if "ctx" in kwargs and isinstance(kwargs["ctx"], Context):
    kwargs = {**kwargs, "ctx": kwargs["ctx"].partition()}
  return jitted.lower(nnx.Pure(pure), *args, **kwargs)


def jit_not_a_module__impl(fun, m: int, args, kwargs):
  """property: X01
  anchor: nnx.transforms:JitTransform.__call__"""
  f = nnx.jit(fun)
  return f(m, *args, **kwargs)


def jit_not_a_module__spec(fun, m, args, kwargs):
  raise TypeError()


def jit_decorator_names__impl(fun, a, b):
  """property: X06
  anchor: nnx.transforms:jit"""
  nnx.jit(fun, static_argnames=(a, b))


def jit_decorator_names__spec(fun, a, b):
  pass


def grad__impl(fun, wrt, stateful, has_aux, holomorphic, allow_int, reduce_axes, m: nnx.Module, *args):
  """property: X02 T03 X06
  pure: @split
  opaque: @rebuild @predicates
  pure_results: @predicates
  anchor: nnx.transforms:GradTransform"""
  f = nnx.grad(fun, wrt, stateful=stateful, has_aux=has_aux, holomorphic=holomorphic, allow_int=allow_int, reduce_axes=reduce_axes)
  return f(m, *args)


def grad__spec(fun, wrt, stateful, has_aux, holomorphic, allow_int, reduce_axes, m, *args):
  def body(diff, rest, moduledef, *args):
    with nnx_trace(get_top_trace(diff)):
      module = moduledef.merge(diff, rest)
      out = fun(module, *args)
    if not stateful:
      return out
    updates = module.get_state()
    if has_aux:
      loss, aux = out
      return loss, (updates, aux)
    return out, updates

  if has_aux:
    aux_flag = has_aux
  else:
    aux_flag = stateful
  predicate = to_predicate(wrt)
  gradient = jax.grad(body, argnums=0, has_aux=aux_flag, holomorphic=holomorphic, allow_int=allow_int, reduce_axes=reduce_axes)
  (diff, rest), moduledef = m.partition(predicate, ...)
  out = gradient(diff, rest, moduledef, *args)
  if not stateful:
    return out
  if has_aux:
    grads, (updates, aux) = out
    m.update_state(updates)
    return grads, aux
  grads, updates = out
  m.update_state(updates)
  return grads


def grad_default__impl(fun, m: nnx.Module, x):
  """property: X02 X06
  pure: @split
  opaque: @rebuild @predicates
  pure_results: @predicates
  anchor: nnx.transforms:grad"""
  return nnx.grad(fun)(m, x)


def grad_default__spec(fun, m, x):
  return nnx.grad(fun, nnx.Param, stateful=True, has_aux=False, holomorphic=False, allow_int=False, reduce_axes=())(m, x)


def grad_not_a_module__impl(fun, wrt, m: int, *args):
  """property: X02
  opaque: @predicates
  pure_results: @predicates
  anchor: nnx.transforms:GradTransform.__call__"""
  return nnx.grad(fun, wrt)(m, *args)


def grad_not_a_module__spec(fun, wrt, m, *args):
  to_predicate(wrt)
  raise TypeError()


def remat_function__impl(fun, m: nnx.Module, ctx, prevent_cse, static_argnums, policy, *args):
  """property: X05 X06
  pure: @split
  opaque: @rebuild
  anchor: nnx.transforms:remat_apply"""
  f = nnx.remat(fun, prevent_cse=prevent_cse, static_argnums=static_argnums, policy=policy, is_init=False)
  return f(m, *args, ctx=ctx)


def remat_body(fun, m, ctx, prevent_cse, static_argnums, policy, args):
  if isinstance(static_argnums, int):
    static_argnums = (static_argnums,)
  shifted = tuple(x + 2 if x >= 0 else x for x in static_argnums)
  state, moduledef = m.get_state(), m.get_module_def()
  if ctx is not None:
    keys, ctxdef = ctx.partition()
  else:
    keys = ctxdef = None

  def body(state, keys, *args):
    kwargs = {}
    if keys is not None:
      kwargs["ctx"] = ctxdef.merge(keys)
    module = moduledef.merge(state)
    out = fun(module, *args, **kwargs)
    return module.get_state(), out

  state, out = jax.checkpoint(body, prevent_cse=prevent_cse, static_argnums=shifted, policy=policy)(state, keys, *args)
  m.update_state(state)
  return out


def remat_function__spec(fun, m, ctx, prevent_cse, static_argnums, policy, *args):
  return remat_body(fun, m, ctx, prevent_cse, static_argnums, policy, args)


def remat_defaults__impl(fun, m: nnx.Module, *args):
  """property: X05 X06
  pure: @split
  opaque: @rebuild
  anchor: nnx.transforms:remat"""
  return nnx.remat(fun, is_init=False)(m, *args)


def remat_defaults__spec(fun, m, *args):
  return remat_body(fun, m, None, True, (), None, args)


def remat_init__impl(fun):
  """property: X05
  anchor: nnx.transforms:remat"""
  return nnx.remat(fun, is_init=True)


def remat_init__spec(fun):
  return fun


def remat_chooses_init__impl(fun):
  """property: X05
  anchor: nnx.transforms:remat"""
  return nnx.remat(fun)


def remat_chooses_init__spec(fun):
  return nnx.remat(fun, prevent_cse=True, static_argnums=(), policy=None, is_init=fun.__name__ == "__init__")


def remat_class__impl(note, m: nnx.Module, ctx, prevent_cse, static_argnums, policy, a, *args):
  """property: X05 X06
  pure: @split
  opaque: @rebuild
  construct: nnx.Remat
  anchor: nnx.transforms:Remat"""
  def constructor(*args, **kwargs):
    note(args, kwargs)
    return m

  r = nnx.Remat(constructor, prevent_cse=prevent_cse, static_argnums=static_argnums, policy=policy)(a, k=a)
  return r(*args, ctx=ctx)


def remat_class__spec(note, m, ctx, prevent_cse, static_argnums, policy, a, *args):
  ModuleState()
  note((a,), {"k": a})
  return remat_body(lambda module, *args, **kwargs: module(*args, **kwargs), m, ctx, prevent_cse, static_argnums, policy, args)


def remat_class_method__impl(note, m: nnx.Module, ctx, prevent_cse, static_argnums, policy, a, *args):
  """property: X05 A01 X06
  pure: @split
  opaque: @rebuild
  construct: nnx.Remat
  anchor: nnx.transforms:Remat.call"""
  def constructor(*args, **kwargs):
    note(args, kwargs)
    return m

  r = nnx.Remat(constructor, prevent_cse=prevent_cse, static_argnums=static_argnums, policy=policy)(a, k=a)
  return r.call.head["x"](*args, ctx=ctx)


def remat_class_method__spec(note, m, ctx, prevent_cse, static_argnums, policy, a, *args):
  ModuleState()
  note((a,), {"k": a})
  return remat_body(lambda module, *args, **kwargs: module.head["x"](*args, **kwargs), m, ctx, prevent_cse, static_argnums, policy, args)
