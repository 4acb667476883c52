"""Reference definitions for the parameters the built-in layers create (analysed, never run)."""
import jax.numpy as jnp
import nnx
from nnx import BatchStat, Param
from nnx.module import ModuleState
from nnx.nn.linear import Conv, Embed, Linear, default_embed_init, default_kernel_init
from nnx.nn.normalization import BatchNorm, LayerNorm
from nnx.nn.stochastic import Dropout
from jax import lax
from jax.nn import initializers


def linear_new__impl(n_in: int, n_out: int, use_bias: int, dtype: int, param_dtype: int, precision: int, ki, bi, dg, ctx: nnx.Context):
  """property: R03 X06
  opaque: nnx.contextlib.Context.make_rng
  arrays: ki bi ei si Glob<nnx.nn.linear.default_kernel_init> Glob<nnx.nn.linear.default_embed_init>
  construct: nnx.Linear nnx.Param
  anchor: nnx.nn.linear:Linear.__init__"""
  def kernel_init(*a):
    return ki(*a)

  def bias_init(*a):
    return bi(*a)

  def dot_general(*a):
    return dg(*a)

  m = Linear(n_in, n_out, use_bias=use_bias, dtype=dtype, param_dtype=param_dtype, precision=precision, kernel_init=kernel_init, bias_init=bias_init, dot_general=dot_general, ctx=ctx)
  return vars(m)["kernel"], vars(m)["bias"], m.dtype, m.precision, m.dot_general(0)


def linear_new__spec(n_in, n_out, use_bias, dtype, param_dtype, precision, ki, bi, dg, ctx):
  ModuleState()
  kernel = Param(ki(ctx.make_rng("params"), (n_in, n_out), param_dtype))
  bias = Param(bi(ctx.make_rng("params"), (n_out,), param_dtype)) if use_bias else Param(None)
  return kernel, bias, dtype, precision, dg(0)


def linear_new_default__impl(n_in: int, n_out: int, ctx: nnx.Context):
  """property: R03 X06
  opaque: nnx.contextlib.Context.make_rng
  arrays: ki bi ei si Glob<nnx.nn.linear.default_kernel_init> Glob<nnx.nn.linear.default_embed_init>
  construct: nnx.Linear nnx.Param
  anchor: nnx.nn.linear:Linear.__init__"""
  m = Linear(n_in, n_out, ctx=ctx)
  return vars(m)["kernel"], vars(m)["bias"], m.dtype, m.precision, m.dot_general


def linear_new_default__spec(n_in, n_out, ctx):
  ModuleState()
  kernel = Param(default_kernel_init(ctx.make_rng("params"), (n_in, n_out), jnp.float32))
  bias = Param(initializers.zeros(ctx.make_rng("params"), (n_out,), jnp.float32))
  return kernel, bias, None, None, lax.dot_general


def conv_new__impl(n_in: int, n_out: int, size: tuple, strides: tuple, padding: tuple, input_dilation: tuple, kernel_dilation: tuple, groups: int, use_bias: int, mf, dtype: int, param_dtype: int, precision: int, ki, bi, cg, ctx: nnx.Context):
  """property: R03 X06
  opaque: nnx.contextlib.Context.make_rng
  arrays: ki bi ei si Glob<nnx.nn.linear.default_kernel_init> Glob<nnx.nn.linear.default_embed_init>
  construct: nnx.Conv nnx.Param
  anchor: nnx.nn.linear:Conv.__init__"""
  def kernel_init(*a):
    return ki(*a)

  def bias_init(*a):
    return bi(*a)

  def mask_fn(*a):
    return mf(*a)

  def conv_general_dilated(*a):
    return cg(*a)

  m = Conv(
    n_in,
    n_out,
    size,
    strides,
    padding=padding,
    input_dilation=input_dilation,
    kernel_dilation=kernel_dilation,
    feature_group_count=groups,
    use_bias=use_bias,
    mask_fn=mask_fn,
    dtype=dtype,
    param_dtype=param_dtype,
    precision=precision,
    kernel_init=kernel_init,
    bias_init=bias_init,
    conv_general_dilated=conv_general_dilated,
    ctx=ctx,
  )
  options = m.kernel_size, m.strides, m.padding, m.input_dilation, m.kernel_dilation, m.feature_group_count, m.use_bias, m.dtype, m.precision
  return vars(m)["kernel"], vars(m)["bias"], options, m.mask_fn(0), m.conv_general_dilated(0)


def conv_new__spec(n_in, n_out, size, strides, padding, input_dilation, kernel_dilation, groups, use_bias, mf, dtype, param_dtype, precision, ki, bi, cg, ctx):
  ModuleState()
  size = tuple(size)
  kernel = Param(ki(ctx.make_rng("params"), size + (n_in // groups, n_out), param_dtype))
  bias = Param(bi(ctx.make_rng("params"), (n_out,), param_dtype)) if use_bias else Param(None)
  return kernel, bias, (size, strides, padding, input_dilation, kernel_dilation, groups, use_bias, dtype, precision), mf(0), cg(0)


def conv_new_default__impl(n_in: int, n_out: int, size: tuple, ctx: nnx.Context):
  """property: R03 X06
  opaque: nnx.contextlib.Context.make_rng
  arrays: ki bi ei si Glob<nnx.nn.linear.default_kernel_init> Glob<nnx.nn.linear.default_embed_init>
  construct: nnx.Conv nnx.Param
  anchor: nnx.nn.linear:Conv.__init__"""
  m = Conv(n_in, n_out, size, ctx=ctx)
  options = m.kernel_size, m.strides, m.padding, m.input_dilation, m.kernel_dilation, m.feature_group_count, m.use_bias, m.mask_fn, m.dtype, m.precision
  return vars(m)["kernel"], vars(m)["bias"], options, m.conv_general_dilated


def conv_new_default__spec(n_in, n_out, size, ctx):
  ModuleState()
  size = tuple(size)
  kernel = Param(default_kernel_init(ctx.make_rng("params"), size + (n_in // 1, n_out), jnp.float32))
  bias = Param(initializers.zeros(ctx.make_rng("params"), (n_out,), jnp.float32))
  return kernel, bias, (size, 1, "SAME", 1, 1, 1, True, None, None, None), lax.conv_general_dilated


def conv_new_rejects__impl(n_in: int, n_out: int, size: int, ctx: nnx.Context):
  """property: X06
  opaque: nnx.contextlib.Context.make_rng
  arrays: ki bi ei si Glob<nnx.nn.linear.default_kernel_init> Glob<nnx.nn.linear.default_embed_init>
  construct: nnx.Conv nnx.Param
  anchor: nnx.nn.linear:Conv.__init__"""
  return Conv(n_in, n_out, size, ctx=ctx)


def conv_new_rejects__spec(n_in, n_out, size, ctx):
  ModuleState()
  raise TypeError


def embed_new__impl(n: int, features: int, dtype: int, param_dtype: int, ei, ctx: nnx.Context):
  """property: R03 X06
  opaque: nnx.contextlib.Context.make_rng
  arrays: ki bi ei si Glob<nnx.nn.linear.default_kernel_init> Glob<nnx.nn.linear.default_embed_init>
  construct: nnx.Embed nnx.Param
  anchor: nnx.nn.linear:Embed.__init__"""
  def embedding_init(*a):
    return ei(*a)

  m = Embed(n, features, dtype=dtype, param_dtype=param_dtype, embedding_init=embedding_init, ctx=ctx)
  return vars(m)["embedding"], m.dtype


def embed_new__spec(n, features, dtype, param_dtype, ei, ctx):
  ModuleState()
  table = Param(ei(ctx.make_rng("params"), (n, features), param_dtype))
  return table, dtype or table.value.dtype


def embed_new_default__impl(n: int, features: int, ctx: nnx.Context):
  """property: R03 X06
  opaque: nnx.contextlib.Context.make_rng
  arrays: ki bi ei si Glob<nnx.nn.linear.default_kernel_init> Glob<nnx.nn.linear.default_embed_init>
  construct: nnx.Embed nnx.Param
  anchor: nnx.nn.linear:Embed.__init__"""
  return vars(Embed(n, features, ctx=ctx))["embedding"]


def embed_new_default__spec(n, features, ctx):
  ModuleState()
  return Param(default_embed_init(ctx.make_rng("params"), (n, features), jnp.float32))


def batch_norm_new__impl(n: int, average: int, axis: int, momentum: int, epsilon: int, dtype: int, param_dtype: int, use_bias: int, use_scale: int, bi, si, axis_name: str, groups: tuple, ctx: nnx.Context):
  """property: R03 X06
  opaque: nnx.contextlib.Context.make_rng
  arrays: ki bi ei si Glob<nnx.nn.linear.default_kernel_init> Glob<nnx.nn.linear.default_embed_init>
  construct: nnx.BatchNorm nnx.Param nnx.BatchStat
  anchor: nnx.nn.normalization:BatchNorm.__init__"""
  def bias_init(*a):
    return bi(*a)

  def scale_init(*a):
    return si(*a)

  m = BatchNorm(
    n,
    use_running_average=average,
    axis=axis,
    momentum=momentum,
    epsilon=epsilon,
    dtype=dtype,
    param_dtype=param_dtype,
    use_bias=use_bias,
    use_scale=use_scale,
    bias_init=bias_init,
    scale_init=scale_init,
    axis_name=axis_name,
    axis_index_groups=groups,
    ctx=ctx,
  )
  v = vars(m)
  return v["mean"], v["var"], v["scale"], v["bias"], (m.use_running_average, m.axis, m.momentum, m.epsilon, m.dtype, m.axis_name, m.axis_index_groups)


def batch_norm_new__spec(n, average, axis, momentum, epsilon, dtype, param_dtype, use_bias, use_scale, bi, si, axis_name, groups, ctx):
  ModuleState()
  mean = BatchStat(jnp.zeros((n,), jnp.float32))
  var = BatchStat(jnp.ones((n,), jnp.float32))
  scale = Param(si(ctx.make_rng("params"), (n,), param_dtype)) if use_scale else Param(None)
  bias = Param(bi(ctx.make_rng("params"), (n,), param_dtype)) if use_bias else Param(None)
  return mean, var, scale, bias, (average, axis, momentum, epsilon, dtype, axis_name, groups)


def batch_norm_new_default__impl(n: int, ctx: nnx.Context):
  """property: R03 X06
  opaque: nnx.contextlib.Context.make_rng
  arrays: ki bi ei si Glob<nnx.nn.linear.default_kernel_init> Glob<nnx.nn.linear.default_embed_init>
  construct: nnx.BatchNorm nnx.Param nnx.BatchStat
  anchor: nnx.nn.normalization:BatchNorm.__init__"""
  m = BatchNorm(n, ctx=ctx)
  v = vars(m)
  return v["mean"], v["var"], v["scale"], v["bias"], (m.use_running_average, m.axis, m.momentum, m.epsilon, m.dtype, m.axis_name, m.axis_index_groups)


def batch_norm_new_default__spec(n, ctx):
  ModuleState()
  mean = BatchStat(jnp.zeros((n,), jnp.float32))
  var = BatchStat(jnp.ones((n,), jnp.float32))
  scale = Param(initializers.ones(ctx.make_rng("params"), (n,), jnp.float32))
  bias = Param(initializers.zeros(ctx.make_rng("params"), (n,), jnp.float32))
  return mean, var, scale, bias, (None, -1, 0.99, 1e-5, None, None, None)


def layer_norm_new__impl(n: int, epsilon: int, dtype: int, param_dtype: int, use_bias: int, use_scale: int, bi, si, reduction: tuple, features: tuple, axis_name: str, groups: tuple, ctx: nnx.Context):
  """property: R03 X06
  opaque: nnx.contextlib.Context.make_rng
  arrays: ki bi ei si Glob<nnx.nn.linear.default_kernel_init> Glob<nnx.nn.linear.default_embed_init>
  construct: nnx.LayerNorm nnx.Param
  anchor: nnx.nn.normalization:LayerNorm.__init__"""
  def bias_init(*a):
    return bi(*a)

  def scale_init(*a):
    return si(*a)

  m = LayerNorm(
    n,
    epsilon=epsilon,
    dtype=dtype,
    param_dtype=param_dtype,
    use_bias=use_bias,
    use_scale=use_scale,
    bias_init=bias_init,
    scale_init=scale_init,
    reduction_axes=reduction,
    feature_axes=features,
    axis_name=axis_name,
    axis_index_groups=groups,
    ctx=ctx,
  )
  v = vars(m)
  return v["scale"], v["bias"], (m.epsilon, m.dtype, m.reduction_axes, m.feature_axes, m.axis_name, m.axis_index_groups)


def layer_norm_new__spec(n, epsilon, dtype, param_dtype, use_bias, use_scale, bi, si, reduction, features, axis_name, groups, ctx):
  ModuleState()
  scale = Param(si(ctx.make_rng("params"), (n,), param_dtype)) if use_scale else Param(None)
  bias = Param(bi(ctx.make_rng("params"), (n,), param_dtype)) if use_bias else Param(None)
  return scale, bias, (epsilon, dtype, reduction, features, axis_name, groups)


def layer_norm_new_default__impl(n: int, ctx: nnx.Context):
  """property: R03 X06
  opaque: nnx.contextlib.Context.make_rng
  arrays: ki bi ei si Glob<nnx.nn.linear.default_kernel_init> Glob<nnx.nn.linear.default_embed_init>
  construct: nnx.LayerNorm nnx.Param
  anchor: nnx.nn.normalization:LayerNorm.__init__"""
  m = LayerNorm(n, ctx=ctx)
  v = vars(m)
  return v["scale"], v["bias"], (m.epsilon, m.dtype, m.reduction_axes, m.feature_axes, m.axis_name, m.axis_index_groups)


def layer_norm_new_default__spec(n, ctx):
  ModuleState()
  scale = Param(initializers.ones(ctx.make_rng("params"), (n,), jnp.float32))
  bias = Param(initializers.zeros(ctx.make_rng("params"), (n,), jnp.float32))
  return scale, bias, (1e-6, None, -1, -1, None, None)


def dropout_new__impl(rate: int, dims: tuple, deterministic: int, collection: str):
  """property: R03 X06
  construct: nnx.Dropout
  anchor: nnx.nn.stochastic:Dropout"""
  d = Dropout(rate, dims, deterministic, collection)
  return d.rate, d.broadcast_dims, d.deterministic, d.rng_collection


def dropout_new__spec(rate, dims, deterministic, collection):
  ModuleState()
  return rate, dims, deterministic, collection


def dropout_new_default__impl(rate: int):
  """property: R03 X06
  construct: nnx.Dropout
  anchor: nnx.nn.stochastic:Dropout"""
  d = Dropout(rate)
  return d.rate, d.broadcast_dims, d.deterministic, d.rng_collection


def dropout_new_default__spec(rate):
  ModuleState()
  return rate, (), None, "dropout"
