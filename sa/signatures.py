"""Signatures of functions of the numeric libraries: a call is the same however its arguments are passed."""
from .terms import *

REQ = object()


def sig(text):
  """`a, b=1, *, c=None` -> ([(name, default)], keyword-only from); [x] marks a sequence whose type does not matter"""
  out, seqs, kwonly = [], set(), None
  for part in filter(None, (x.strip() for x in text.split(";"))):
    if part == "*":
      kwonly = len(out)
      continue
    name, _, d = part.partition("=")
    if name.startswith("["):
      name = name[1:-1]
      seqs.add(name)
    if _:
      d = K(eval(d)) if d != "()" else Tup(())
    else:
      d = REQ
    out.append((name, d))
  return out, len(out) if kwonly is None else kwonly, seqs


RED = "a; [axis]=None; dtype=None; out=None; keepdims=False; *; where=None"
SIGS = {
    k: sig(v)
    for k, v in {
        "jax.grad": "fun; argnums=0; has_aux=False; holomorphic=False; allow_int=False; reduce_axes=()",
        "jax.value_and_grad": "fun; argnums=0; has_aux=False; holomorphic=False; allow_int=False; reduce_axes=()",
        "jax.vmap": "fun; in_axes=0; out_axes=0; axis_name=None; axis_size=None; spmd_axis_name=None",
        "jax.checkpoint": "fun; *; prevent_cse=True; policy=None; static_argnums=()",
        "jnp.moveaxis": "a; source; destination",
        "jnp.concatenate": "[arrays]; axis=0; dtype=None",
        "jnp.stack": "[arrays]; axis=0; out=None; dtype=None",
        "jax.random.split": "key; num=2",
        "jax.random.fold_in": "key; data",
        "jax.random.bernoulli": "key; p=0.5; [shape]=None",
        "jnp.asarray": "a; dtype=None; order=None",
        "jnp.mean": RED,
        "jnp.sum": "a; [axis]=None; dtype=None; out=None; keepdims=False; initial=None; where=None",
        "jnp.reshape": "a; [newshape]; order='C'",
        "jnp.expand_dims": "a; [axis]",
        "jnp.zeros_like": "a; dtype=None; shape=None",
        "jnp.ones_like": "a; dtype=None; shape=None",
        "jnp.zeros": "[shape]; dtype=None",
        "jnp.ones": "[shape]; dtype=None",
        "jnp.full": "[shape]; fill_value; dtype=None",
        "jnp.broadcast_to": "array; [shape]",
        "jnp.take": "a; indices; axis=None; out=None; mode=None; unique_indices=False; indices_are_sorted=False; fill_value=None",
        "jnp.promote_types": "a; b",
        "jnp.issubdtype": "arg1; arg2",
        "jnp.split": "ary; indices_or_sections; axis=0",
        "jax.lax.rsqrt": "x",
        "jax.lax.ConvDimensionNumbers": "lhs_spec; rhs_spec; out_spec",
        "jax.lax.real": "x",
        "jax.lax.imag": "x",
        "jax.lax.stop_gradient": "x",
        "jax.lax.pmean": "x; axis_name; *; axis_index_groups=None",
        "jax.lax.psum": "x; axis_name; *; axis_index_groups=None",
        "jax.lax.select": "pred; on_true; on_false",
        "jax.lax.dot_general": "lhs; rhs; dimension_numbers; precision=None; preferred_element_type=None",
        "jax.lax.conv_general_dilated": "lhs; rhs; [window_strides]; padding; [lhs_dilation]=None; [rhs_dilation]=None; dimension_numbers=None; feature_group_count=1; batch_group_count=1; precision=None; preferred_element_type=None",
        "jax.lax.with_sharding_constraint": "x; shardings",
        "jax.tree_util.tree_leaves": "tree; is_leaf=None",
        "jax.tree_util.tree_flatten": "tree; is_leaf=None",
        "jax.tree_util.tree_unflatten": "treedef; leaves",
        "optax.apply_updates": "params; updates",
        "jnp.dot": "a; b; *; precision=None; preferred_element_type=None",
    }.items()
}


def arity(name):
  s = SIGS.get(name)
  return None if s is None else s[1]


def normal(name, args, kws):
  """(args, kws) as the library sees them: by position while they go on, defaults left out; None if not known."""
  s = SIGS.get(name)
  if s is None or any(a.op in ("X", "LE") for a in args) or any(k is None for k, _ in kws):
    return None
  ps, kwonly, seqs = s
  names = [n for n, _ in ps]
  if len(args) > kwonly or any(k not in names for k, _ in kws):
    return None
  got = dict(zip(names, args))
  for k, v in kws:
    if k in got:
      return None
    got[k] = v
  for k in seqs & set(got):
    v = got[k]
    if v.op == "Seq" and v.a[0] == "list" and not any(isinstance(x, T) and (x.op.endswith("!") or x.op in ("carried", "Carry", "Carried")) for x in v.a[1:]):
      got[k] = Tup(v.a[1:])
  default = dict(ps)
  if any(default[n] is REQ and n not in got for n in names):
    return None
  got = {k: v for k, v in got.items() if v is not default[k]}
  out, rest, gap = [], [], False
  for i, n in enumerate(names):
    if n not in got:
      gap = True
    elif gap or i >= kwonly:
      rest.append((n, got[n]))
    else:
      out.append(got[n])
  return out, rest
