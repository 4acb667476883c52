"""Reference definitions for states and filters (analysed, never run)."""
import jax
import numpy as np
import nnx
from nnx.partitioning import to_predicate
from sa_intrinsics import flatten_of, unflatten_of, value_of
import jax.tree_util as jtu


def partition_one__impl(state: nnx.State, f):
  """property: S01 S03
  opaque: nnx.partitioning.to_predicate
  pure_results: nnx.partitioning.to_predicate
  anchor: nnx.state:State.partition"""
  return state.partition(f)


def partition_one__spec(state, f):
  p = to_predicate(f)
  group = {}
  for path, value in state.items():
    if p(path, value):
      group[path] = value
    else:
      raise ValueError()
  return nnx.State(group)


def partition_two__impl(state: nnx.State, f, g):
  """property: S01 S03 S04
  opaque: nnx.partitioning.to_predicate
  pure_results: nnx.partitioning.to_predicate
  anchor: nnx.state:State.partition"""
  return state.partition(f, g)


def partition_two__spec(state, f, g):
  if f is ...:
    raise ValueError()
  p = to_predicate(f)
  q = to_predicate(g)
  first = {}
  second = {}
  for path, value in state.items():
    if p(path, value):
      first[path] = value
    elif q(path, value):
      second[path] = value
    else:
      raise ValueError()
  return nnx.State(first), nnx.State(second)


def filter_two__impl(state: nnx.State, f, g):
  """property: S01 S03 S04
  opaque: nnx.partitioning.to_predicate
  pure_results: nnx.partitioning.to_predicate
  anchor: nnx.state:State.filter"""
  return state.filter(f, g)


def filter_two__spec(state, f, g):
  if f is ...:
    raise ValueError()
  p = to_predicate(f)
  q = to_predicate(g)
  first = {}
  second = {}
  for path, value in state.items():
    if p(path, value):
      first[path] = value
    elif q(path, value):
      second[path] = value
  return nnx.State(first), nnx.State(second)


def merge_two__impl(a: nnx.State, b: nnx.State):
  """property: S03 S04
  anchor: nnx.state:State.merge"""
  return nnx.State.merge(a, b)


def merge_two__spec(a, b):
  return nnx.State({**a, **b})


def sub__impl(a: nnx.State, b: nnx.State):
  """property: S03 S04
  anchor: nnx.state:State.__sub__"""
  return a - b


def sub__spec(a, b):
  return nnx.State({k: v for k, v in a.items() if k not in b})


def partition_three__impl(state: nnx.State, f, g, h):
  """property: S01
  opaque: nnx.partitioning.to_predicate
  pure_results: nnx.partitioning.to_predicate
  anchor: nnx.state:State.partition"""
  return state.partition(f, g, h)


def partition_three__spec(state, f, g, h):
  if f is ... or g is ...:
    raise ValueError()
  p = to_predicate(f)
  q = to_predicate(g)
  r = to_predicate(h)
  first = {}
  second = {}
  third = {}
  for path, value in state.items():
    if p(path, value):
      first[path] = value
    elif q(path, value):
      second[path] = value
    elif r(path, value):
      third[path] = value
    else:
      raise ValueError()
  return nnx.State(first), nnx.State(second), nnx.State(third)


def filter_one__impl(state: nnx.State, f):
  """property: S01 S03
  opaque: nnx.partitioning.to_predicate
  pure_results: nnx.partitioning.to_predicate
  anchor: nnx.state:State.filter"""
  return state.filter(f)


def filter_one__spec(state, f):
  p = to_predicate(f)
  return nnx.State({path: value for path, value in state.items() if p(path, value)})


def filter_three__impl(state: nnx.State, f, g, h):
  """property: S01
  opaque: nnx.partitioning.to_predicate
  pure_results: nnx.partitioning.to_predicate
  anchor: nnx.state:State.filter"""
  return state.filter(f, g, h)


def filter_three__spec(state, f, g, h):
  if f is ... or g is ...:
    raise ValueError()
  p = to_predicate(f)
  q = to_predicate(g)
  r = to_predicate(h)
  first = {}
  second = {}
  third = {}
  for path, value in state.items():
    if p(path, value):
      first[path] = value
    elif q(path, value):
      second[path] = value
    elif r(path, value):
      third[path] = value
  return nnx.State(first), nnx.State(second), nnx.State(third)


def filter_meaning__impl(f, path, x):
  """property: S02
  opaque_rec: nnx.partitioning.to_predicate
  pure_results: nnx.partitioning.to_predicate
  anchor: nnx.partitioning:to_predicate"""
  return to_predicate(f)(path, x)


def filter_meaning__spec(f, path, x):
  if isinstance(f, str):
    raise TypeError()
  if isinstance(f, type):
    return isinstance(x, f)
  if f is ...:
    return True
  if f is None:
    return False
  if callable(f):
    return f(path, x)
  if isinstance(f, tuple):
    members = [to_predicate(g) for g in f]
    return any(member(path, x) for member in members)
  raise TypeError()


def buffers_filter__impl(path, x):
  """property: S02
  anchor: nnx.partitioning:buffers"""
  return to_predicate(value_of(nnx.buffers))(path, x)


def buffers_filter__spec(path, x):
  return isinstance(x, (jax.Array, np.ndarray))


def any_filter__impl(f, g, path, x):
  """property: S02
  opaque: nnx.partitioning.to_predicate
  pure_results: nnx.partitioning.to_predicate
  anchor: nnx.partitioning:Any"""
  return nnx.partitioning.Any(f, g)(path, x)


def any_filter__spec(f, g, path, x):
  p = to_predicate(f)
  q = to_predicate(g)
  return bool(p(path, x)) or bool(q(path, x))


def all_filter__impl(f, g, path, x):
  """property: S02
  opaque: nnx.partitioning.to_predicate
  pure_results: nnx.partitioning.to_predicate
  anchor: nnx.partitioning:All"""
  return nnx.All(f, g)(path, x)


def all_filter__spec(f, g, path, x):
  p = to_predicate(f)
  q = to_predicate(g)
  return bool(p(path, x)) and bool(q(path, x))


def not_filter__impl(f, path, x):
  """property: S02
  opaque: nnx.partitioning.to_predicate
  pure_results: nnx.partitioning.to_predicate
  anchor: nnx.partitioning:Not"""
  return nnx.Not(f)(path, x)


def not_filter__spec(f, path, x):
  return not to_predicate(f)(path, x)


def merge_one__impl(a: nnx.State):
  """property: S03
  anchor: nnx.state:State.merge"""
  return nnx.State.merge(a)


def merge_one__spec(a):
  return nnx.State({**a})


def merge_three__impl(a: nnx.State, b: nnx.State, c: nnx.State):
  """property: S03 S04
  anchor: nnx.state:State.merge"""
  return nnx.State.merge(a, b, c)


def merge_three__spec(a, b, c):
  return nnx.State({**a, **b, **c})


def union__impl(a: nnx.State, b: nnx.State):
  """property: S03 S04
  anchor: nnx.state:State.__or__"""
  return a | b


def union__spec(a, b):
  return nnx.State({**a, **b})


def state_from_mapping__impl(m: dict, k):
  """property: S04
  anchor: nnx.state:State.__init__"""
  s = nnx.State(m)
  return list(s), list(s.items()), len(s), s[k]


def state_from_mapping__spec(m, k):
  d = dict(sorted(m.items(), key=lambda kv: kv[0]))
  return list(d), list(d.items()), len(d), d[k]


def state_from_pairs__impl(m: list, k):
  """property: S04
  anchor: nnx.state:State.__init__"""
  s = nnx.State(m)
  return list(s), list(s.items()), len(s), s[k]


def state_from_pairs__spec(m, k):
  d = dict(sorted(m, key=lambda kv: kv[0]))
  return list(d), list(d.items()), len(d), d[k]


def state_flatten__impl(s: nnx.State):
  """property: S04 S03
  anchor: nnx.state:_state_flatten_with_keys"""
  children, aux = flatten_of(nnx.State)(s)
  return list(children)


def state_flatten__spec(s):
  return [(jtu.DictKey(k), s[k]) for k in s]


def state_unflatten__impl(s: nnx.State, leaves):
  """property: S04
  anchor: nnx.state:_state_unflatten"""
  children, aux = flatten_of(nnx.State)(s)
  t = unflatten_of(nnx.State)(aux, leaves)
  return type(t), dict(t.items())


def state_unflatten__spec(s, leaves):
  return nnx.State, {k: leaf for k, leaf in zip(list(s), leaves)}


def sub_order__impl(a: nnx.State, b: nnx.State):
  """property: S04
  anchor: nnx.state:State.__sub__"""
  return list((a - b).keys())


def sub_order__spec(a, b):
  return [k for k in a if k not in b]



def any_filter_five__impl(a, b, c, d, e, path, x):
  """property: S02
  opaque: nnx.partitioning.to_predicate
  pure_results: nnx.partitioning.to_predicate
  anchor: nnx.partitioning:Any"""
  return nnx.partitioning.Any(a, b, c, d, e)(path, x)


def any_filter_five__spec(a, b, c, d, e, path, x):
  members = [to_predicate(f) for f in (a, b, c, d, e)]
  return any(member(path, x) for member in members)


def all_filter_five__impl(a, b, c, d, e, path, x):
  """property: S02
  opaque: nnx.partitioning.to_predicate
  pure_results: nnx.partitioning.to_predicate
  anchor: nnx.partitioning:All"""
  return nnx.All(a, b, c, d, e)(path, x)


def all_filter_five__spec(a, b, c, d, e, path, x):
  members = [to_predicate(f) for f in (a, b, c, d, e)]
  return all(member(path, x) for member in members)


def merge_five__impl(a: nnx.State, b: nnx.State, c: nnx.State, d: nnx.State, e: nnx.State):
  """property: S03
  anchor: nnx.state:State.merge"""
  return nnx.State.merge(a, b, c, d, e)


def merge_five__spec(a, b, c, d, e):
  return nnx.State({**a, **b, **c, **d, **e})


def grouped(state, members):
  groups = tuple({} for i in range(len(members) + 1))
  for path, value in state.items():
    for i, member in enumerate(members):
      if member(path, value):
        groups[i][path] = value
        break
    else:
      groups[-1][path] = value
  return groups


def filter_five__impl(state: nnx.State, a, b, c, d, e):
  """property: S01
  opaque: nnx.partitioning.to_predicate
  pure_results: nnx.partitioning.to_predicate
  anchor: nnx.state:State.filter"""
  return state.filter(a, b, c, d, e)


def filter_five__spec(state, a, b, c, d, e):
  if any(h is ... for h in (a, b, c, d)):
    raise ValueError()
  groups = grouped(state, [to_predicate(h) for h in (a, b, c, d, e)])
  return tuple(nnx.State(group) for group in groups[:-1])


def partition_five__impl(state: nnx.State, a, b, c, d, e):
  """property: S01
  opaque: nnx.partitioning.to_predicate
  pure_results: nnx.partitioning.to_predicate
  anchor: nnx.state:State.partition"""
  return state.partition(a, b, c, d, e)


def partition_five__spec(state, a, b, c, d, e):
  if any(h is ... for h in (a, b, c, d)):
    raise ValueError()
  groups = grouped(state, [to_predicate(h) for h in (a, b, c, d, e)])
  if groups[-1]:
    raise ValueError()
  return tuple(nnx.State(group) for group in groups[:-1])
