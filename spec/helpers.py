"""Reference definitions for Dict, Sequence and TrainState (analysed, never run)."""
import inspect
import jax.numpy as jnp
import nnx
import optax
from nnx import pytreelib
from nnx.helpers import TrainState, has_keyword_arg


def dict_init__impl(args, kwargs, d: nnx.Dict):
  """property: H02
  concrete: nnx.Dict
  anchor: nnx.helpers:Dict.__init__"""
  d.__init__(*args, **kwargs)


def dict_init__spec(args, kwargs, d):
  for name, value in dict(*args, **kwargs).items():
    setattr(d, name, value)


def dict_get__impl(d: nnx.Dict, key):
  """property: H02 V02
  concrete: nnx.Dict
  anchor: nnx.helpers:Dict.__getitem__"""
  return d[key]


def dict_get__spec(d, key):
  if key == "_module__state" or key not in vars(d):
    raise KeyError()
  value = vars(d)[key]
  if not isinstance(value, nnx.Container):
    return value
  if hasattr(value, "unbox_fn"):
    return value.unbox_fn(value)
  return value.value


def dict_missing__impl(d: nnx.Dict, name):
  """property: H02
  concrete: nnx.Dict
  anchor: nnx.helpers:Dict.__getattr__"""
  return d.__getattr__(name)


def dict_missing__spec(d, name):
  return nnx.Module.__getattribute__(d, name)


def dict_iter__impl(d: nnx.Dict):
  """property: H02
  concrete: nnx.Dict
  anchor: nnx.helpers:Dict.__iter__"""
  return list(d)


def dict_iter__spec(d):
  return [name for name in vars(d) if name != "_module__state"]


def dict_len__impl(d: nnx.Dict):
  """property: H02
  concrete: nnx.Dict
  anchor: nnx.helpers:Dict.__len__"""
  return len(d)


def dict_len__spec(d):
  return len([name for name in vars(d) if name != "_module__state"])


def dict_set__impl(d: nnx.Dict, key, value):
  """property: H02 T01
  concrete: nnx.Dict
  anchor: nnx.helpers:Dict.__setitem__"""
  d[key] = value


def dict_set__spec(d, key, value):
  setattr(d, key, value)


def sequence_init__impl(items, s: nnx.Sequence):
  """property: H02
  anchor: nnx.helpers:Sequence.__init__"""
  s.__init__(items)


def sequence_init__spec(items, s):
  n = 0
  for i, value in enumerate(items):
    setattr(s, str(i), value)
    n = i + 1
  s._length = n


def sequence_get__impl(s: nnx.Sequence, i):
  """property: H02
  anchor: nnx.helpers:Sequence.__getitem__"""
  return s[i]


def sequence_get__spec(s, i):
  if i >= s._length:
    raise IndexError()
  return getattr(s, str(i))


def sequence_iter__impl(s: nnx.Sequence):
  """property: H02
  anchor: nnx.helpers:Sequence.__iter__"""
  return list(s)


def sequence_iter__spec(s):
  return [getattr(s, str(i)) for i in range(s._length)]


def sequence_len__impl(s: nnx.Sequence):
  """property: H02
  anchor: nnx.helpers:Sequence.__len__"""
  return len(s)


def sequence_len__spec(s):
  return s._length


def sequence_call__impl(s: nnx.Sequence, args, ctx, kwargs: dict):
  """property: H02
  opaque: nnx.helpers.has_keyword_arg
  anchor: nnx.helpers:Sequence.__call__"""
  return s(*args, ctx=ctx, **kwargs)


def sequence_call__spec(s, args, ctx, kwargs):
  args, kwargs = (*args,), dict(kwargs)
  output = None
  for i, f in enumerate(getattr(s, str(j)) for j in range(s._length)):
    if not callable(f):
      raise TypeError()
    if i > 0:
      if isinstance(output, tuple):
        args, kwargs = output, {}
      elif isinstance(output, dict):
        args, kwargs = (), dict(output)
      else:
        args, kwargs = (output,), {}
    if ctx is not None and has_keyword_arg(f, "ctx"):
      kwargs["ctx"] = ctx
    output = f(*args, **kwargs)
  return output


def accepts__impl(f, name):
  """property: H02
  anchor: nnx.helpers:has_keyword_arg"""
  return has_keyword_arg(f, name)


def accepts__spec(f, name):
  for p in inspect.signature(f).parameters.values():
    if p.name == name and p.kind in (p.KEYWORD_ONLY, p.POSITIONAL_OR_KEYWORD):
      return True
  return False


# train state


def train_state_init__impl(t: TrainState, moduledef, params, tx, step, kwargs: dict):
  """property: H01
  anchor: nnx.helpers:TrainState.__init__"""
  t.__init__(moduledef, params=params, tx=tx, step=step, **kwargs)


def train_state_init__spec(t, moduledef, params, tx, step, kwargs):
  t.moduledef = moduledef
  t.params = pytreelib.TreeNode(params)
  t.tx = tx
  t.opt_state = pytreelib.TreeNode(tx.init(t.params))
  t.step = pytreelib.TreeNode(jnp.asarray(step))
  for name, value in kwargs.items():
    setattr(t, name, value)


def train_state_start__impl(t: TrainState, moduledef, params, tx):
  """property: H01
  anchor: nnx.helpers:TrainState.__init__"""
  t.__init__(moduledef, params=params, tx=tx)


def train_state_start__spec(t, moduledef, params, tx):
  t.moduledef = moduledef
  t.params = pytreelib.TreeNode(params)
  t.tx = tx
  t.opt_state = pytreelib.TreeNode(tx.init(t.params))
  t.step = pytreelib.TreeNode(jnp.asarray(0))


def train_state_step__impl(t: TrainState, grads, kwargs: dict):
  """property: H01
  opaque: nnx.pytreelib.Pytree.replace
  anchor: nnx.helpers:TrainState.apply_gradients"""
  return t.apply_gradients(grads, **kwargs)


def train_state_step__spec(t, grads, kwargs):
  updates, opt_state = t.tx.update(grads, t.opt_state, t.params)
  return t.replace(params=optax.apply_updates(t.params, updates), opt_state=opt_state, step=t.step + 1, **kwargs)


def train_state_apply__impl(t: TrainState, state, states):
  """property: H01
  opaque: nnx.module.ModuleDef.apply
  anchor: nnx.helpers:TrainState.apply"""
  return t.apply(state, *states)


def train_state_apply__spec(t, state, states):
  return t.moduledef.apply(*[getattr(t, s) if isinstance(s, str) else s for s in (state, *states)])
