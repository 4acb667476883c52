"""Reference definitions for the built-in layers (analysed, never run)."""
import jax
import jax.numpy as jnp
import nnx
import numpy as np
from jax import lax
from nnx import nn
from nnx.module import first_from
from nnx.nn.dtypes import canonicalize_dtype, promote_dtype
from nnx.nn.linear import Conv, Embed, Linear, canonicalize_padding
from nnx.nn.normalization import BatchNorm, LayerNorm
from nnx.nn.normalization import _compute_stats as compute_stats
from nnx.nn.normalization import _normalize as normalize
from nnx.nn.normalization import _canonicalize_axes as canonicalize_axes
from nnx.nn.normalization import _abs_sq as abs_sq
from nnx.nn.stochastic import Dropout


# dtypes


def joint_dtype__impl(args, dtype, inexact):
  """property: N02
  anchor: nnx.nn.dtypes:canonicalize_dtype"""
  return canonicalize_dtype(*args, dtype=dtype, inexact=inexact)


def joint_dtype__spec(args, dtype, inexact):
  if dtype is None:
    dtype = jnp.result_type(*[jnp.asarray(x) for x in args if x is not None])
    if inexact and not jnp.issubdtype(dtype, jnp.inexact):
      dtype = jnp.promote_types(jnp.float32, dtype)
  if inexact and not jnp.issubdtype(dtype, jnp.inexact):
    raise ValueError()
  return dtype


def joint_dtype_default__impl(a, b, dtype):
  """property: N02
  anchor: nnx.nn.dtypes:canonicalize_dtype"""
  return canonicalize_dtype(a, b), canonicalize_dtype(a, dtype=dtype)


def joint_dtype_default__spec(a, b, dtype):
  return canonicalize_dtype(a, b, dtype=None, inexact=True), canonicalize_dtype(a, dtype=dtype, inexact=True)


def promote__impl(args, dtype, inexact):
  """property: N02
  opaque: nnx.nn.dtypes.canonicalize_dtype
  anchor: nnx.nn.dtypes:promote_dtype"""
  return promote_dtype(*args, dtype=dtype, inexact=inexact)


def promote__spec(args, dtype, inexact):
  joint = canonicalize_dtype(*args, dtype=dtype, inexact=inexact)
  return [None if x is None else jnp.asarray(x, joint) for x in args]


def promote_default__impl(a, b):
  """property: N02
  opaque: nnx.nn.dtypes.canonicalize_dtype
  anchor: nnx.nn.dtypes:promote_dtype"""
  return promote_dtype(a, b)


def promote_default__spec(a, b):
  joint = canonicalize_dtype(a, b, dtype=None, inexact=True)
  return [None if a is None else jnp.asarray(a, joint), None if b is None else jnp.asarray(b, joint)]


def axes__impl(rank: int, axes):
  """property: N01 X06
  anchor: nnx.nn.normalization:_canonicalize_axes"""
  return set(canonicalize_axes(rank, axes))


def axes__spec(rank, axes):
  if not isinstance(axes, nn.normalization.tp.Iterable):
    axes = (axes,)
  return set(rank + axis if axis < 0 else axis for axis in axes)


def magnitude__impl(x):
  """property: N01
  anchor: nnx.nn.normalization:_abs_sq"""
  return abs_sq(x)


def magnitude__spec(x):
  if jnp.iscomplexobj(x):
    return lax.square(lax.real(x)) + lax.square(lax.imag(x))
  return lax.square(x)


# modes


def first__impl(a, b, c):
  """property: N01
  anchor: nnx.module:first_from"""
  return first_from(a, b, c)


def first__spec(a, b, c):
  if a is not None:
    return a
  if b is not None:
    return b
  if c is not None:
    return c
  raise ValueError()


def dropout__impl(m: Dropout, x, deterministic, ctx: nnx.Context):
  """property: N01 R03 X06
  opaque: nnx.module.first_from nnx.contextlib.Context.make_rng
  anchor: nnx.nn.stochastic:Dropout.__call__"""
  return m(x, deterministic=deterministic, ctx=ctx)


def dropout__spec(m, x, deterministic, ctx):
  mode = first_from(deterministic, m.deterministic, ctx.get_flag("deterministic") if ctx is not None else None)
  if m.rate == 0.0 or mode:
    return x
  if m.rate == 1.0:
    return jnp.zeros_like(x)
  if ctx is None:
    raise ValueError()
  keep = 1.0 - m.rate
  key = ctx.make_rng(m.rng_collection)
  shape = list(x.shape)
  for dim in m.broadcast_dims:
    shape[dim] = 1
  mask = jnp.broadcast_to(jax.random.bernoulli(key, p=keep, shape=shape), x.shape)
  return lax.select(mask, x / keep, jnp.zeros_like(x))


def dropout_no_context__impl(m: Dropout, x, deterministic):
  """property: N01
  opaque: nnx.module.first_from
  anchor: nnx.nn.stochastic:Dropout.__call__"""
  return m(x, deterministic=deterministic)


def dropout_no_context__spec(m, x, deterministic):
  mode = first_from(deterministic, m.deterministic, None)
  if m.rate == 0.0 or mode:
    return x
  if m.rate == 1.0:
    return jnp.zeros_like(x)
  raise ValueError()


def dropout_default__impl(m: Dropout, x, ctx: nnx.Context):
  """property: N01
  opaque: nnx.module.first_from nnx.contextlib.Context.make_rng
  anchor: nnx.nn.stochastic:Dropout.__call__"""
  return m(x, ctx=ctx)


def dropout_default__spec(m, x, ctx):
  return m(x, deterministic=None, ctx=ctx)


def stats__impl(x, axes, dtype, axis_name, groups, use_mean):
  """property: N01 N02
  anchor: nnx.nn.normalization:_compute_stats"""
  return compute_stats(x, axes, dtype, axis_name, groups, use_mean)


def stats__spec(x, axes, dtype, axis_name, groups, use_mean):
  dtype = jnp.promote_types(jnp.result_type(x) if dtype is None else dtype, jnp.float32)
  x = jnp.asarray(x, dtype)
  mean2 = jnp.mean(abs_sq(x), axes)
  mean = jnp.mean(x, axes) if use_mean else jnp.zeros(mean2.shape, dtype=dtype)
  if axis_name is not None:
    mean, mean2 = jnp.split(lax.pmean(jnp.concatenate([mean, mean2]), axis_name=axis_name, axis_index_groups=groups), 2)
  return mean, jnp.maximum(0.0, mean2 - abs_sq(mean))


def stats_default__impl(x, axes, dtype):
  """property: N01 N02
  anchor: nnx.nn.normalization:_compute_stats"""
  return compute_stats(x, axes, dtype)


def stats_default__spec(x, axes, dtype):
  return compute_stats(x, axes, dtype, None, None, True)


def batch_norm__impl(m: BatchNorm, x, use_running_average, ctx: nnx.Context):
  """property: N01 N02 X06
  opaque: nnx.module.first_from nnx.nn.normalization._compute_stats nnx.nn.normalization._normalize nnx.nn.normalization._canonicalize_axes
  anchor: nnx.nn.normalization:BatchNorm.__call__"""
  return m(x, use_running_average, ctx=ctx)


def batch_norm__spec(m, x, use_running_average, ctx):
  inference = first_from(use_running_average, m.use_running_average, ctx.get_flag("use_running_average") if ctx is not None else None)
  features = canonicalize_axes(x.ndim, m.axis)
  reduction = tuple(i for i in range(x.ndim) if i not in features)
  if inference:
    mean, var = m.mean, m.var
  else:
    mean, var = compute_stats(x, reduction, dtype=m.dtype, axis_name=m.axis_name, axis_index_groups=m.axis_index_groups)
    m.mean = m.momentum * m.mean + (1 - m.momentum) * mean
    m.var = m.momentum * m.var + (1 - m.momentum) * var
  return normalize(x, mean, var, m.scale, m.bias, reduction, features, m.dtype, m.epsilon)


def batch_norm_default__impl(m: BatchNorm, x):
  """property: N01
  opaque: nnx.module.first_from nnx.nn.normalization._compute_stats nnx.nn.normalization._normalize nnx.nn.normalization._canonicalize_axes
  anchor: nnx.nn.normalization:BatchNorm.__call__"""
  return m(x)


def batch_norm_default__spec(m, x):
  inference = first_from(None, m.use_running_average, None)
  features = canonicalize_axes(x.ndim, m.axis)
  reduction = tuple(i for i in range(x.ndim) if i not in features)
  if inference:
    mean, var = m.mean, m.var
  else:
    mean, var = compute_stats(x, reduction, dtype=m.dtype, axis_name=m.axis_name, axis_index_groups=m.axis_index_groups)
    m.mean = m.momentum * m.mean + (1 - m.momentum) * mean
    m.var = m.momentum * m.var + (1 - m.momentum) * var
  return normalize(x, mean, var, m.scale, m.bias, reduction, features, m.dtype, m.epsilon)


def layer_norm__impl(m: LayerNorm, x):
  """property: N02 X06
  opaque: nnx.nn.normalization._compute_stats nnx.nn.normalization._normalize
  anchor: nnx.nn.normalization:LayerNorm.__call__"""
  return m(x)


def layer_norm__spec(m, x):
  mean, var = compute_stats(x, m.reduction_axes, m.dtype, m.axis_name, m.axis_index_groups)
  return normalize(x, mean, var, m.scale, m.bias, m.reduction_axes, m.feature_axes, m.dtype, m.epsilon)


def normalize__impl(x, mean, var, scale, bias, reduction, features, dtype, epsilon):
  """property: N02
  opaque: nnx.nn.dtypes.canonicalize_dtype nnx.nn.normalization._canonicalize_axes
  anchor: nnx.nn.normalization:_normalize"""
  return normalize(x, mean, var, scale, bias, reduction, features, dtype, epsilon)


def normalize__spec(x, mean, var, scale, bias, reduction, features, dtype, epsilon):
  reduction = canonicalize_axes(x.ndim, reduction)
  features = canonicalize_axes(x.ndim, features)
  stats_shape = list(x.shape)
  for axis in reduction:
    stats_shape[axis] = 1
  shape = [1] * x.ndim
  for axis in features:
    shape[axis] = x.shape[axis]
  mean, var = mean.reshape(stats_shape), var.reshape(stats_shape)
  operands = [x]
  y = x - mean
  factor = lax.rsqrt(var + epsilon)
  if scale is not None:
    scale = scale.reshape(shape)
    factor = factor * scale
    operands.append(scale)
  y = y * factor
  if bias is not None:
    bias = bias.reshape(shape)
    y = y + bias
    operands.append(bias)
  return jnp.asarray(y, canonicalize_dtype(*operands, dtype=dtype))


def linear__impl(m: Linear, x):
  """property: N02 X06
  opaque: nnx.nn.dtypes.promote_dtype
  anchor: nnx.nn.linear:Linear.__call__"""
  return m(x)


def linear__spec(m, x):
  x, kernel, bias = promote_dtype(x, m.kernel, m.bias, dtype=m.dtype)
  y = m.dot_general(x, kernel, (((x.ndim - 1,), (0,)), ((), ())), precision=m.precision)
  if bias is None:
    return y
  return y + jnp.reshape(bias, (1,) * (y.ndim - 1) + (-1,))


def embed__impl(m: Embed, x):
  """property: N02 X06
  opaque: nnx.nn.dtypes.promote_dtype
  anchor: nnx.nn.linear:Embed.__call__"""
  return m(x)


def embed__spec(m, x):
  if not jnp.issubdtype(x.dtype, jnp.integer):
    raise ValueError()
  (table,) = promote_dtype(m.embedding, dtype=m.dtype, inexact=False)
  return jnp.take(table, x, axis=0)


def attend__impl(m: Embed, x):
  """property: N02
  opaque: nnx.nn.dtypes.promote_dtype
  anchor: nnx.nn.linear:Embed.attend"""
  return m.attend(x)


def attend__spec(m, x):
  x, table = promote_dtype(x, m.embedding, dtype=m.dtype)
  return jnp.dot(x, table.T)


def padding__impl(padding, rank):
  """property: X06
  anchor: nnx.nn.linear:canonicalize_padding"""
  return canonicalize_padding(padding, rank)


def padding__spec(padding, rank):
  if isinstance(padding, str):
    return padding
  if isinstance(padding, int):
    return [(padding, padding)] * rank
  if isinstance(padding, nn.linear.tp.Sequence) and len(padding) == rank:
    pads = []
    for p in padding:
      if isinstance(p, int):
        pads.append((p, p))
      elif isinstance(p, tuple) and len(p) == 2:
        pads.append(p)
      else:
        break
    if len(pads) == rank:
      return pads
  raise ValueError()


def conv_numbers__impl(shape):
  """property: X06
  anchor: nnx.nn.linear:_conv_dimension_numbers"""
  return nn.linear._conv_dimension_numbers(shape)


def conv_numbers__spec(shape):
  last = len(shape) - 1
  layout = (0, last, *range(1, last))
  return lax.ConvDimensionNumbers(layout, (last, last - 1, *range(last - 1)), layout)


def conv__impl(m: Conv, x):
  """property: N02 X06
  opaque: nnx.nn.dtypes.promote_dtype nnx.nn.linear.canonicalize_padding nnx.nn.linear._conv_dimension_numbers
  max_paths: 20000
  anchor: nnx.nn.linear:Conv.__call__"""
  return m(x)


def conv__spec(m, x):
  size = m.kernel_size

  def every(v):
    if v is None:
      v = 1
    return (v,) * len(size) if isinstance(v, int) else tuple(v)

  batch = x.ndim - (len(size) + 1)
  if batch != 1:
    shape = x.shape[:batch]
    x = jnp.reshape(x, (int(np.prod(shape)),) + x.shape[batch:])
  strides, input_dilation, kernel_dilation = every(m.strides), every(m.input_dilation), every(m.kernel_dilation)
  padding = canonicalize_padding(m.padding, len(size))
  if padding == "CIRCULAR":
    dilated = [(k - 1) * d + 1 for k, d in zip(size, kernel_dilation)]
    x = jnp.pad(x, [(0, 0)] + [((k - 1) // 2, k // 2) for k in dilated] + [(0, 0)], mode="wrap")
    padding = "VALID"
  elif padding == "CAUSAL":
    if len(size) != 1:
      raise ValueError()
    x = jnp.pad(x, [(0, 0), (kernel_dilation[0] * (size[0] - 1), 0), (0, 0)])
    padding = "VALID"
  numbers = nn.linear._conv_dimension_numbers(x.shape)
  kernel = m.kernel if m.mask_fn is None else m.mask_fn(m.kernel)
  x, kernel, bias = promote_dtype(x, kernel, m.bias, dtype=m.dtype)
  y = m.conv_general_dilated(
    x, kernel, strides, padding, lhs_dilation=input_dilation, rhs_dilation=kernel_dilation, dimension_numbers=numbers, feature_group_count=m.feature_group_count, precision=m.precision
  )
  if m.use_bias:
    y = y + bias.reshape((1,) * (y.ndim - bias.ndim) + bias.shape)
  if batch != 1:
    y = jnp.reshape(y, shape + y.shape[1:])
  return y
