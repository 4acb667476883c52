"""Reference definitions for contexts, random streams and trace levels (analysed, never run)."""
import typing as tp
import jax
import nnx
from nnx.contextlib import Context, ContextDef, PureContext, RngStream, to_rng_predicate
from nnx.contextlib import _stable_hash as stable_hash
from nnx.errors import TraceContextError
from nnx.tracers import TRACE_CONTEXT, TraceState, Tracer, current_jax_trace, current_nnx_trace, get_top_trace, nnx_trace
from sa_intrinsics import flatten_of, unflatten_of


def make_rng__impl(ctx: nnx.Context, name):
  """property: R01 T02
  pure: nnx.contextlib._stable_hash
  anchor: nnx.contextlib:Context.make_rng"""
  return ctx.make_rng(name)


def make_rng__spec(ctx, name):
  if name not in ctx._rngs:
    raise ValueError()
  if not ctx._trace_state.is_valid():
    raise TraceContextError()
  stream = ctx._rngs[name]
  key = jax.random.fold_in(stream.key, stable_hash((*stream.count_path, stream.count)))
  stream.count = stream.count + 1
  return key


def two_draws__impl(ctx: nnx.Context):
  """property: R01
  pure: nnx.contextlib._stable_hash
  anchor: nnx.contextlib:Context.make_rng"""
  a = ctx.make_rng("params")
  b = ctx.make_rng("params")
  return a, b


def two_draws__spec(ctx):
  if "params" not in ctx._rngs:
    raise ValueError()
  if not ctx._trace_state.is_valid():
    raise TraceContextError()
  stream = ctx._rngs["params"]
  n = stream.count
  stream.count = n + 1
  if not ctx._trace_state.is_valid():
    raise TraceContextError()
  stream.count = n + 2
  return (
    jax.random.fold_in(stream.key, stable_hash((*stream.count_path, n))),
    jax.random.fold_in(stream.key, stable_hash((*stream.count_path, n + 1))),
  )


def copy_context__impl(ctx: nnx.Context):
  """property: T02 R01 R02
  anchor: nnx.contextlib:Context.copy"""
  return ctx.copy()


def copy_context__spec(ctx):
  if not ctx._trace_state.is_valid():
    raise TraceContextError()
  return Context(ctx._rngs, ctx._flags)


def partition_context__impl(ctx: nnx.Context):
  """property: T02 R01 R02
  anchor: nnx.contextlib:Context.partition"""
  p = ctx.partition()
  return dict(p[0]), p.merge(), p.merge()


def partition_context__spec(ctx):
  if not ctx._trace_state.is_valid():
    raise TraceContextError()
  keys = {}
  rngs = {}
  again = {}
  for name, stream in ctx._rngs.items():
    keys[name] = stream.key
    rngs[name] = RngStream(stream.key, 0, (*stream.count_path, stream.count))
    again[name] = RngStream(stream.key, 0, (*stream.count_path, stream.count))
    stream.count = stream.count + 1
  return keys, Context(rngs, dict(ctx._flags)), Context(again, dict(ctx._flags))


def merge_context__impl(counts, flags, keys):
  """property: R02 T02 R01
  anchor: nnx.contextlib:ContextDef.merge"""
  return ContextDef(counts, flags).merge(keys)


def merge_context__spec(counts, flags, keys):
  return Context({name: RngStream(keys[name], 0, path) for name, path in counts}, dict(flags))


def context_def_equal__impl(counts, flags, counts2, flags2):
  """property: R02
  anchor: nnx.contextlib:ContextDef"""
  return ContextDef(counts, flags) == ContextDef(counts2, flags2)


def context_def_equal__spec(counts, flags, counts2, flags2):
  return counts == counts2 and flags == flags2


def context_def_not_equal__impl(counts, flags, other: int):
  """property: R02
  anchor: nnx.contextlib:ContextDef"""
  return ContextDef(counts, flags) == other


def context_def_not_equal__spec(counts, flags, other):
  return False


def context_def_flatten__impl(counts, flags, keys):
  """property: R02
  anchor: nnx.contextlib:ContextDef"""
  d = ContextDef(counts, flags)
  children, aux = flatten_of(ContextDef)(d)
  e = unflatten_of(ContextDef)(aux, children)
  return tuple(children), e.merge(keys)


def context_def_flatten__spec(counts, flags, keys):
  return (), Context({name: RngStream(keys[name], 0, path) for name, path in counts}, dict(flags))


def pure_context_flatten__impl(keys, counts, flags, keys2):
  """property: R02
  anchor: nnx.contextlib:PureContext"""
  d = ContextDef(counts, flags)
  p = PureContext((keys, d))
  children, aux = flatten_of(PureContext)(p)
  q = unflatten_of(PureContext)(aux, (keys2, d))
  return tuple(children), type(q), q.merge()


def pure_context_flatten__spec(keys, counts, flags, keys2):
  d = ContextDef(counts, flags)
  return (keys, d), PureContext, Context({name: RngStream(keys2[name], 0, path) for name, path in counts}, dict(flags))


def make_context__impl(params, flags, **rngs):
  """property: R01 R02
  anchor: nnx.contextlib:context"""
  return nnx.context(params, flags=flags, **rngs)


def make_context__spec(params, flags, **rngs):
  streams = {}
  for name, value in ({**rngs, "params": params} if params is not None else rngs).items():
    if isinstance(value, int):
      streams[name] = RngStream(jax.random.PRNGKey(value), 0, ())
    elif isinstance(value, jax.Array):
      streams[name] = RngStream(value, 0, ())
    else:
      streams[name] = value
  return Context(streams, flags or {})


def flags__impl(ctx: nnx.Context, name):
  """property: R02 N01
  anchor: nnx.contextlib:Context.get_flag"""
  return ctx.get_flag(name), ctx.has_flag(name), ctx.has_rng(name)


def flags__spec(ctx, name):
  return (ctx._flags[name] if name in ctx._flags else None), name in ctx._flags, name in ctx._rngs


def rng_filter__impl(f, name):
  """property: X04
  opaque_rec: nnx.contextlib.to_rng_predicate
  pure_results: nnx.contextlib.to_rng_predicate
  anchor: nnx.contextlib:to_rng_predicate"""
  return to_rng_predicate(f)(name)


def rng_filter__spec(f, name):
  if f is None:
    return False
  if f is ...:
    return True
  if callable(f):
    return f(name)
  if isinstance(f, str):
    return name == f
  if isinstance(f, tp.Mapping):
    members = [to_rng_predicate(g) for g, include in f.items() if include]
    return any(member(name) for member in members)
  if isinstance(f, tp.Sequence):
    members = [to_rng_predicate(g) for g in f]
    return any(member(name) for member in members)
  raise TypeError()


def is_valid__impl(t: TraceState):
  """property: T01 T02
  opaque: nnx.tracers.current_jax_trace nnx.tracers.current_nnx_trace
  anchor: nnx.tracers:TraceState.is_valid"""
  return t.is_valid()


def is_valid__spec(t):
  return t._jax_trace is current_jax_trace() and t._nnx_trace is current_nnx_trace()


def capture__impl():
  """property: T01 T02
  opaque: nnx.tracers.current_jax_trace nnx.tracers.current_nnx_trace
  anchor: nnx.tracers:TraceState"""
  t = TraceState()
  return t.jax_trace, t.nnx_trace


def capture__spec():
  return current_jax_trace(), current_nnx_trace()


def current_level__impl():
  """property: T01 T02 T03
  anchor: nnx.tracers:current_nnx_trace"""
  return current_nnx_trace()


def current_level__spec():
  return TRACE_CONTEXT.nnx_trace_stack[-1]


def trace_level_scope__impl(trace, body):
  """property: T03 T04
  raising: yes
  anchor: nnx.tracers:nnx_trace"""
  with nnx_trace(trace):
    return body()


def trace_level_scope__spec(trace, body):
  stack = TRACE_CONTEXT.nnx_trace_stack
  stack.append(trace)
  try:
    return body()
  finally:
    stack.pop()


def rng_filter_again__impl(f: list, name, other):
  """property: X04
  opaque_rec: nnx.contextlib.to_rng_predicate
  pure_results: nnx.contextlib.to_rng_predicate
  anchor: nnx.contextlib:to_rng_predicate"""
  p = to_rng_predicate(f)
  return p(name), p(other)


def rng_filter_again__spec(f, name, other):
  members = [to_rng_predicate(g) for g in f]
  return any(member(name) for member in members), any(member(other) for member in members)


def rng_filter_mapping_again__impl(f: dict, name, other):
  """property: X04
  opaque_rec: nnx.contextlib.to_rng_predicate
  pure_results: nnx.contextlib.to_rng_predicate
  anchor: nnx.contextlib:to_rng_predicate"""
  p = to_rng_predicate(f)
  return p(name), p(other)


def rng_filter_mapping_again__spec(f, name, other):
  members = [to_rng_predicate(g) for g, include in f.items() if include]
  return any(member(name) for member in members), any(member(other) for member in members)


def context_parts__impl(rngs: dict, flags: dict, name):
  """property: R01 R02 T02
  pure: nnx.contextlib._stable_hash
  opaque: nnx.tracers.current_jax_trace nnx.tracers.current_nnx_trace
  anchor: nnx.contextlib:Context.__init__"""
  c = Context(rngs, flags)
  return c.has_rng(name), c.has_flag(name), c.get_flag(name)


def context_parts__spec(rngs, flags, name):
  current_jax_trace()
  current_nnx_trace()
  return name in rngs, name in flags, flags[name] if name in flags else None


def context_draw__impl(rngs: dict[str, RngStream], flags, name):
  """property: R01 T02
  pure: nnx.contextlib._stable_hash
  opaque: nnx.tracers.current_jax_trace nnx.tracers.current_nnx_trace
  anchor: nnx.contextlib:Context.__init__"""
  return Context(rngs, flags).make_rng(name)


def context_draw__spec(rngs, flags, name):
  at = TraceState()
  if name not in rngs:
    raise ValueError()
  if not at.is_valid():
    raise TraceContextError()
  stream = rngs[name]
  key = jax.random.fold_in(stream.key, stable_hash((*stream.count_path, stream.count)))
  stream.count = stream.count + 1
  return key


def context_def_hash__impl(counts, flags):
  """property: R02
  anchor: nnx.contextlib:ContextDef.__hash__"""
  return hash(ContextDef(counts, flags)) == hash(ContextDef(counts, flags))


def context_def_hash__spec(counts, flags):
  return True


def top_trace__impl(tree):
  """property: T01 T02 T03
  anchor: nnx.tracers:get_top_trace"""
  return get_top_trace(tree)


def top_trace__spec(tree):
  if isinstance(tree, Tracer):
    return tree._trace.main
  return jax.core.find_top_trace(jax.tree_util.tree_leaves(tree)).main


def current_trace__impl():
  """property: T01 T02 T03
  anchor: nnx.tracers:current_jax_trace"""
  return current_jax_trace()


def current_trace__spec():
  return jax.core.find_top_trace(jax.tree_util.tree_leaves(())).main
