"""Models of Python builtins, container methods and the external functions the analysed tree uses."""
import ast
from .facts import INF, intlike
from . import signatures
from .program import canon_ext
from .terms import *

PURE_PREFIX = (
    "jnp.", "jax.", "np.", "math.", "hashlib.", "optax.", "dataclasses.", "inspect.", "importlib.", "operator.",
    "flax.", "types.", "typing.", "typing_extensions.", "collections.", "itertools.", "functools.", "enum.",
    "contextlib.", "copy.", "string.", "re.", "abc.", "PartitionSpec", "ast.", "textwrap.",
)
EFFECT = (
    "jax.tree_util.register", "jax.debug", "print", "setattr", "delattr", "flax.serialization.register",
)
PURE_NAMES = {
    "str", "repr", "int", "bool", "float", "hash", "id", "abs", "min", "max", "sum", "round", "ord", "chr", "pow",
    "divmod", "bytes", "callable", "issubclass", "type", "PartitionSpec", "object", "slice", "format", "complex",
    "staticmethod", "classmethod", "property", "iter", "int.from_bytes", "dict.fromkeys", "vars", "dir",
}
HOFS = {
    "jax.jit", "jax.pjit", "jax.grad", "jax.value_and_grad", "jax.vmap", "jax.checkpoint", "jax.custom_vjp",
}
STR_METHODS = {
    "join", "split", "rsplit", "startswith", "endswith", "format", "encode", "lower", "upper", "strip", "replace",
    "partition", "rpartition", "removeprefix", "removesuffix", "find", "count", "title", "splitlines", "isdigit",
    "lstrip", "rstrip", "isidentifier",
}


def kwdict(kws):
  return {k: v for k, v in kws if k is not None}


# ------------------------------------------------------------------ isinstance
def split_classes(c):
  if c.op == "Tup":
    out = []
    for x in c.a:
      r = split_classes(x)
      if r is None:
        return None
      out += r
    return out
  if c.op == "Op" and c.a[0] == "|":
    a, b = split_classes(c.a[1]), split_classes(c.a[2])
    return None if a is None or b is None else a + b
  return [c]


def static_class(I, st, x):
  """Exact class of a value when known: T or None"""
  if x.op == "K":
    return Ext(type(kval(x)).__name__)
  if x.op == "Tup":
    return Ext("tuple")
  if x.op == "Ref":
    ob = I.obj(st, x)
    if ob.kind == "inst":
      return T("Cls", ob.cls) if ob.cls else None
    return Ext({"iter": "Iterator"}.get(ob.kind, ob.kind))
  if x.op == "Seq":
    return Ext(x.a[0])
  if x.op in ("New", "Inst") and x.a[0].op == "Cls":
    return x.a[0]
  if x.op == "Cls" or x.op == "Ext" and x.a[0] in ("jax.Array", "np.ndarray", "np.generic", "object", "int", "float", "str", "bool", "tuple", "list", "dict"):
    return Ext("type")
  if x.op == "Type":
    return Ext("type")
  if x.op in ("Fn", "Bound", "Lam", "Partial", "Hof"):
    return Ext("function")
  if x.op == "Fmt":
    return Ext("str")
  if x.op in ("Poly", "Len", "Idx"):
    return Ext("int")
  if x.op in ("Zip", "Enum"):
    return Ext("Iterator")
  return None


LIBRARY = ("jax.nn.initializers.", "jnp.", "jax.lax.", "jax.random.")


def library_value(I, x):
  """arrays and functions made by the numeric library (or by a callable declared to make arrays)"""
  while x.op == "Ap" or x.op == "At" and x.a[1] in ("dtype", "shape") and x.a[0].op == "Ap":
    x = x.a[0]
  if show(x) in I.hooks.get("arrays", ()):
    return True
  return x.op == "Ext" and x.a[0].startswith(LIBRARY)


# library functions whose result is an array
ARRAY_RESULTS = {"jax.random.PRNGKey", "jax.random.fold_in", "jax.random.split", "jax.random.bernoulli", "jnp.asarray", "jnp.array", "jnp.zeros", "jnp.ones"}


def isinstance1(I, st, x, c):
  if c.op not in ("Cls", "Ext", "Glob", "P", "At", "It", "Attr"):
    c = I.reify_light(st, c)
  if x.op == "Ap" and x.a[0].op == "Ext" and x.a[0].a[0] in ARRAY_RESULTS and c.op == "Ext":
    if c.a[0] == "jax.Array":
      yield st, True
      return
    if c.a[0] in ("int", "str", "tuple", "list", "dict", "Mapping", "float", "bool"):
      yield st, False
      return
  s = static_class(I, st, x)
  if s is not None and c.op in ("Cls", "Ext"):
    if I.th.sub(s, c):
      yield st, True
      return
    builtin = lambda t: t.op == "Ext" and t.a[0] in (
        "int", "str", "bool", "float", "tuple", "list", "dict", "set", "frozenset", "NoneType", "ellipsis", "type",
        "function", "Iterator", "Mapping", "Sequence", "Iterable", "Callable", "bytes", "Hashable", "MutableMapping")
    if builtin(s) and (builtin(c) or c.op == "Cls" and not I.is_protocol(c.a[0]) or c.op == "Ext"):
      if not (s.a[0] == "type" and c.op == "Ext" and c.a[0] not in ("str", "int")) or builtin(c):
        yield st, False
        return
    if s.op == "Cls":
      if builtin(c) and c.a[0] not in ("Iterable", "Callable", "Hashable"):
        yield st, False
        return
      if c.op == "Cls" and not I.is_protocol(c.a[0]):
        yield st, False
        return
  if c.op == "Cls" and x.op == "Ref" and I.is_protocol(c.a[0]) and I.obj(st, x).kind == "inst" and c.a[0] in I.p.classes:
    ob = I.obj(st, x)
    pc = I.p.classes[c.a[0]]
    members = [n for n, _ in pc.annots] + list(pc.methods)
    if members and "$open" not in ob.fields and ob.cls in I.hooks.get("construct", ()) and not I.p.find_method(ob.cls, "__getattr__"):
      yield st, all(n in ob.fields or I.p.find_method(ob.cls, n) or I.p.find_attr(ob.cls, n) for n in members)
      return
  if s is not None and c.op == "Glob":
    r = I.th.in_glob(s, c)
    if r is not None:
      yield st, r
      return
  if c is Ext("object"):
    yield st, True
    return
  if c.op == "Cls" and not I.is_protocol(c.a[0]) and library_value(I, x):
    yield st, False
    return
  if x in I.unions and c.op in ("Cls", "Ext") and I.th.sub(T("Cls", I.unions[x][0]), c):
    for s2, b in I.atom(st, T("A.isinst", x, Ext(I.unions[x][1]))):
      yield s2, not b
    return
  t = I.types.get(x)
  if t is not None and c.op in ("Cls", "Ext"):
    ct = T("Cls", t)
    if I.th.sub(ct, c):
      yield st, True
      return
    if I.th.disjoint(ct, c) or c.op == "Cls" and not I.is_protocol(c.a[0]) and not I.th.sub(c, ct):
      yield st, False
      return
  if t is not None and c.op == "Glob":
    r = I.th.in_glob(T("Cls", t), c)
    if r is not None:
      yield st, r
      return
  if c.op == "Cls" and I.is_protocol(c.a[0]) and c.a[0] in I.p.classes:
    pc = I.p.classes[c.a[0]]
    if pc.annots and not pc.methods:  # a protocol of attributes: having them is being an instance

      def every(s, names):
        if not names:
          yield s, True
          return
        for s2, b in hasattr_(I, s, x, K(names[0])):
          if isinstance(b, I.Raised) or b is False or b is FALSE:
            yield s2, b if isinstance(b, I.Raised) else False
          else:
            yield from every(s2, names[1:])

      yield from every(st, [n for n, _ in pc.annots])
      return
  yield from I.atom(st, T("A.isinst", I.reify_light(st, x), c))


def isinstance_any(I, st, x, cs, i=0):
  if i == len(cs):
    yield st, False
    return
  for s, b in isinstance1(I, st, x, cs[i]):
    if b:
      yield s, True
    else:
      yield from isinstance_any(I, s, x, cs, i + 1)


# ------------------------------------------------------------------- helpers
def as_seq(I, st, v, kind):
  """list()/tuple()/set() of a value"""
  e = I.entries(st, v)
  if e is None:
    e = [X(I.reify(st, v))]
  I.drain(st, v)
  if kind == "tuple":
    return Tup(e)
  return I.alloc(st, kind, log=[] if kind == "set" else e) if kind != "set" else set_of(I, st, e)


def set_of(I, st, e):
  out = []
  for x in e:
    if x not in out:
      out.append(x)
  return I.alloc(st, "set", log=out)


def loop_any(I, st, it, fr, node, want, missing):
  """any (want=True) / all (want=False) over an iterable"""

  def body(s, el):
    for s2, b in I.truth(s, el, fr):
      yield s2, (("ret", K(want), None) if b is want else None)

  for s, sig in I.loop(st, it, body, fr, node, []):
    if sig is None:
      yield s, K(missing)
    elif sig[0] == "raise":
      yield s, sig[1]
    else:
      yield s, sig[1]


def map_loop(I, st, f, its, fr, node):
  ref = None
  st = st.fork()
  ref = I.alloc(st, "iter")
  it = its[0] if len(its) == 1 else zip_term(I, st, its)

  def body(s, el):
    args = [el] if len(its) == 1 else list(el.a) if el.op == "Tup" else [I.item(el, K(i)) for i in range(len(its))]
    for s2, r in I.call(s, f, args, [], fr, node):
      if isinstance_raised(r):
        yield s2, ("raise", r)
      else:
        s2 = s2.fork()
        I.log_add(s2, ref, r)
        yield s2, None

  for s, sig in I.loop(st, it, body, fr, node, []):
    if sig is not None and sig[0] == "raise":
      yield s, sig[1]
    else:
      yield s, ref


def filter_loop(I, st, f, it, fr, node):
  st = st.fork()
  ref = I.alloc(st, "iter")

  def body(s, el):
    if isK(f) and kval(f) is None:
      gen = [(s, el)]
    else:
      gen = I.call(s, f, [el], [], fr, node)
    for s2, r in gen:
      if isinstance_raised(r):
        yield s2, ("raise", r)
        continue
      for s3, b in I.truth(s2, r, fr):
        if b:
          s3 = s3.fork()
          I.log_add(s3, ref, el)
        yield s3, None

  for s, sig in I.loop(st, it, body, fr, node, []):
    if sig is not None and sig[0] == "raise":
      yield s, sig[1]
    else:
      yield s, ref


def isinstance_raised(r):
  return not isinstance(r, T)


def zip_term(I, st, its):
  es = []
  for it in its:
    if it.op == "Count":
      es.append(None)
      continue
    e = I.entries(st, it)
    if e is None:
      e = [X(I.reify(st, it))]
    es.append(e)
  known = [e for e in es if e is not None]
  if known and all(fixed(e) for e in known):
    n = min(len(e) for e in known)
    cols = []
    for e, it in zip(es, its):
      cols.append([add(it.a[0], K(i)) for i in range(n)] if e is None else e[:n])
    return Tup([Tup(row) for row in zip(*cols)])
  # zip(xs, f(xs)...): sequences built by the same region pair up entry by entry
  if known and len(known) == len(es) and all(len(e) == 1 and e[0].op == "LE" for e in known):
    fused = fuse_regions([(e[0].a[0].v, e[0].a[1]) for e in known])
    if fused is not None:
      return Tup([T("LE", Box(fused), ("zip",))])
  # common prefixes
  pre = 0
  while all(len(e) > pre and e[pre].op not in ("X", "LE") for e in known):
    pre += 1
  rows = []
  for i in range(pre):
    rows.append(Tup([add(it.a[0], K(i)) if e is None else e[i] for e, it in zip(es, its)]))
  rest = []
  for e, it in zip(es, its):
    if e is None:
      rest.append(T("Count", add(it.a[0], K(pre))))
    else:
      rest.append(simplify_rest(I, st, e[pre:], it if pre == 0 else None))
  z = T("Zip", *rest)
  if not rows:
    return z
  return Tup(rows + [X(z)])


def fuse_regions(cols):
  """Loops over the same sequence that go the same ways, as one."""
  from .interp import BodyPath, Region, view_entries

  first = cols[0][0]
  if any(r.kind != "loop" or r.idx is not first.idx for r, _ in cols):
    return None
  ways = []
  for r, view in cols:
    w = {}
    for bp in r.paths:
      if bp.exit is not None:
        return None
      k = frozenset(bp.facts)
      if k in w:
        return None
      w[k] = view_entries(bp, view)
    ways.append(w)
  if any(set(w) != set(ways[0]) for w in ways):
    return None
  out = Region("loop", first.idx)
  out.site = first.site
  for bp in first.paths:
    k = frozenset(bp.facts)
    if len({len(w[k]) for w in ways}) != 1 or any(e.op in ("X", "LE") for w in ways for e in w[k]):
      return None
    out.paths.append(BodyPath(bp.facts, {("zip",): tuple(Tup(row) for row in zip(*(w[k] for w in ways)))}))
  return out


def simplify_rest(I, st, e, orig):
  if len(e) == 1 and e[0].op == "X":
    return e[0].a[0]
  if orig is not None:
    return I.reify(st, orig)
  return Tup(I.reify(st, x) for x in e)


def enum_term(I, st, it, start):
  e = I.entries(st, it)
  if e is None:
    e = [X(I.reify(st, it))]
  if fixed(e):
    return Tup([Tup([add(start, K(i)), x]) for i, x in enumerate(e)])
  if all(x.op in ("X", "LE") for x in e) and len(e) == 1:
    if e[0].op == "X":
      return T("Enum", e[0].a[0], start)
    return T("Enum", I.reify(st, it), start)
  out, off, ok = [], start, True
  for i, x in enumerate(e):
    if x.op == "X":
      out.append(X(T("Enum", x.a[0], off)))
      off = add(off, I.len_atom(x.a[0]))
    elif x.op == "LE":
      ok = False
      break
    else:
      out.append(Tup([off, x]))
      off = add(off, K(1))
  if ok:
    return Tup(out)
  return T("Enum", I.reify(st, it), start)


def range_term(args):
  if len(args) == 1:
    lo, hi, step = K(0), args[0], K(1)
  else:
    lo, hi = args[0], args[1]
    step = args[2] if len(args) > 2 else K(1)
  if all(isK(x, int) for x in (lo, hi, step)) and kval(step) != 0:
    r = range(kval(lo), kval(hi), kval(step))
    if len(r) <= 16:
      return Tup([K(i) for i in r])
  if step is K(1):
    n = add(hi, lo, -1)
    return T("Range", n) if lo is K(0) else T("Range", n, lo)
  return T("Range3", lo, hi, step)


def key_kind(I, st, key, fr, node):
  if isK(key) and kval(key) is None:
    return key
  p = T("P", "$sortkey")
  try:
    res = list(I.call(st.fork(), key, [p], [], fr, node))
  except Exception:
    return I.reify(st, key)
  if len(res) == 1:
    r = res[0][1]
    if r is p:
      return T("KeyIdent")
    if r is T("It", p, K(0)):
      return T("KeyFirst")
  if key is Ext("str"):
    return T("KeyStr")
  return I.reify(st, key)


def sorted_term(I, st, v, key, rev):
  e = I.entries(st, v)
  if e is not None and fixed(e) and all(x.op == "K" for x in e) and isK(key) and kval(key) is None and rev in (FALSE, TRUE):
    try:
      return I.alloc(st, "list", log=[K(x) for x in sorted((kval(y) for y in e), reverse=rev is TRUE)])
    except TypeError:
      pass
  if e is not None and not e:
    return I.alloc(st, "list")
  src = v
  if v.op == "Ref":
    src = I.reify(st, v)
    if len(e or ()) == 1 and e[0].op == "X":
      src = e[0].a[0]
  elif v.op == "Tup" and len(v.a) == 1 and v.a[0].op == "X":
    src = v.a[0].a[0]
  elif v.op in ("KeysOf", "ItemsOf", "ValuesOf"):
    d = v.a[0]
    if d.op == "Ref":
      src = T(v.op, I.reify(st, d))
  if src.op == "KeysOf":
    src = src.a[0]
  if src.op == "ValuesOf" or True:
    pass
  return T("Sorted", src, key, rev)


def splits(args, kws):
  """tree_map over tuple literals maps over their components."""
  if kws or len(args) < 2:
    return False
  if len(args) == 2 and isK(args[1]) and kval(args[1]) is None:
    return True
  return all(a.op == "Tup" and fixed(a.a) for a in args[1:]) and len({len(a.a) for a in args[1:]}) == 1


# ------------------------------------------------------------------ externals
def call_ext(I, st, name, args, kws, fr, node):
  R = I.Raised
  kw = kwdict(kws)
  h = EXT.get(name)
  if h is not None:
    done = False
    for x in h(I, st, name, args, kw, kws, fr, node):
      done = True
      yield x
    if done:
      return
  if name in HOFS and args:
    yield st, T("Hof", name, tuple(args), tuple(sorted(((k or "**"), v) for k, v in kws)))
    return
  if name in HOFS:
    yield st, T("Partial", Ext(name), (), tuple(T("kw", k, v) for k, v in kws))
    return
  last = name.split(".")[-1]
  if last.endswith("Error") or last in ("Exception", "StopIteration", "KeyboardInterrupt"):
    yield st, T("Exc", Ext(last))
    return
  if any(name.startswith(p) for p in EFFECT):
    yield from I.opaque_call(st, Ext(name), args, kws, fr, node, "E")
    return
  if name in PURE_NAMES or any(name.startswith(p) for p in PURE_PREFIX) or "repo:" in name:
    # externals applied to function values keep them as summaries
    if name.startswith("threading."):
      yield from I.opaque_call(st, Ext(name), args, kws, fr, node, "F")
      return
    yield from I.opaque_call(st, Ext(name), args, kws, fr, node, "P")
    return
  if name.startswith("threading."):
    yield from I.opaque_call(st, Ext(name), args, kws, fr, node, "F")
    return
  if name.startswith("object.__"):
    yield from I.opaque_call(st, Ext(name), args, kws, fr, node, "E")
    return
  if name.split(".")[0] in ("str", "dict", "list", "tuple", "set", "int", "float"):
    # unbound method of a builtin type
    parts = name.split(".")
    if len(parts) == 2 and args:
      yield from method(I, st, args[0], parts[1], args[1:], kws, fr, node)
      return
    yield from I.opaque_call(st, Ext(name), args, kws, fr, node, "P")
    return
  yield from I.opaque_call(st, Ext(name), args, kws, fr, node, "E")


EXT = {}


def ext(*names):
  def deco(f):
    for n in names:
      EXT[n] = f
    return f

  return deco


def registrations(i, cls):
  """Arguments of the module level pytree registrations of a class."""
  import ast
  out = []
  for m in i.p.modules.values():
    if m.name.startswith("spec_"):
      continue
    for n in m.tree.body:
      if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
        f = i.p.static_expr(m, n.value.func)
        if f is None or f.op != "Ext" or "register_pytree" not in f.a[0]:
          continue
        ps = ["nodetype", "flatten_func", "unflatten_func"] if "with_keys" not in f.a[0] else ["nodetype", "flatten_with_keys", "unflatten_func", "flatten_func"]
        args = dict(zip(ps, n.value.args))
        args.update({k.arg: k.value for k in n.value.keywords})
        if "nodetype" in args and i.p.static_expr(m, args["nodetype"]) is cls:
          out.append((m, args))
  return out


REGISTER = {
    "jax.tree_util.register_pytree_with_keys": ["nodetype", "flatten_with_keys", "unflatten_func", "flatten_func"],
    "jax.tree_util.register_pytree_node": ["nodetype", "flatten_func", "unflatten_func"],
    "flax.serialization.register_serialization_state": ["ty", "ty_to_state_dict", "ty_from_state_dict"],
}


@ext(*REGISTER)
def _register(I, st, name, args, kw, kws, fr, node):
  """Remembers the functions themselves: the event only has their summaries."""
  d = dict(zip(REGISTER[name], args))
  d.update(kw)
  for s, r in I.opaque_call(st, Ext(name), args, kws, fr, node, "E"):
    if not isinstance_raised(r):
      s.registered = st.registered + ((name, d),)
    yield s, r


@ext("importlib.util.find_spec")
def _find_spec(I, st, name, args, kw, kws, fr, node):
  if len(args) == 1 and isK(args[0], str):
    yield st, Ext("spec of " + kval(args[0]))  # the installed libraries are there


def subclass_hook(i, st, cls, fr, node):
  """What happens when the class is defined: the __init_subclass__ of its bases."""
  c = i.p.classes[cls.a[0]]
  for b in i.p.mro(cls.a[0])[1:]:
    if b in i.p.classes and "__init_subclass__" in i.p.classes[b].methods:
      fn = T("Bound", i.method_fn(b, "__init_subclass__"), cls)
      kws = [(k.arg, i.p.static_expr(c.mod, k.value) or K(k.value.value)) for k in c.node.keywords if k.arg != "metaclass"]
      yield from i.call(st, fn, [], kws, fr, node)
      return


@ext("sa_intrinsics.declared")
def _declared(I, st, name, args, kw, kws, fr, node):
  """declared(Class, attribute, **options): what defining a subclass with these options sets the attribute to."""
  from .interp import Unsupported
  cls, attr = args
  for b in I.p.mro(cls.a[0]):
    if b in I.p.classes and "__init_subclass__" in I.p.classes[b].methods:
      fn = T("Bound", I.method_fn(b, "__init_subclass__"), cls)
      for s, r in I.call(st.fork(), fn, [], kws, fr, node):
        if isinstance(r, I.Raised):
          yield s, r
          continue
        v = s.over.get((cls, kval(attr)))
        if v is None:
          raise Unsupported(f"{show(cls)}.{kval(attr)} is not set")
        s = s.fork()
        s.trail = st.trail
        yield s, v
      return


def registering(I):
  """names of the functions that (through others) rebind a module variable of nnx.nodes, and the variables"""
  home = next((m for n, m in I.p.modules.items() if n == "nnx.nodes"), None)
  if home is None:
    return set(), set()
  fns = {f.name: f for f in ast.walk(home.tree) if isinstance(f, ast.FunctionDef)}
  names, variables = set(), set()
  for n, f in fns.items():
    gs = {x for g in ast.walk(f) if isinstance(g, ast.Global) for x in g.names}
    if gs:
      names.add(n)
      variables |= gs
  more = True
  while more:
    more = False
    for n, f in fns.items():
      if n not in names and any(isinstance(x, ast.Name) and x.id in names for x in ast.walk(f)):
        names.add(n)
        more = True
  return names, variables


@ext("sa_intrinsics.load_nodes")
def _load_nodes(I, st, name, args, kw, kws, fr, node):
  """Runs the module-level statements of the package that register node types."""
  from .interp import Unsupported
  names, variables = registering(I)
  if not variables:
    raise Unsupported("no registry of node types")
  home = I.p.modules["nnx.nodes"]
  mods = [home] + [m for n, m in sorted(I.p.modules.items()) if m is not home and (n == "nnx" or n.startswith("nnx."))]
  mark = st.trail
  st = st.fork()
  states = [st]
  for m in mods:
    for stmt in m.tree.body:
      if isinstance(stmt, (ast.FunctionDef, ast.Import, ast.ImportFrom)):
        continue
      used = {x.id if isinstance(x, ast.Name) else x.attr for x in ast.walk(stmt) if isinstance(x, (ast.Name, ast.Attribute))}
      if not used & names and not (used & variables and (m is home or not isinstance(stmt, ast.ClassDef))):
        continue
      if isinstance(stmt, ast.ClassDef):
        if any(isinstance(x, (ast.Name, ast.Attribute)) and (x.id if isinstance(x, ast.Name) else x.attr) in names for d in stmt.decorator_list for x in ast.walk(d)):
          raise Unsupported("a class registered by a decorator")
        continue
      f2 = I.root_frame(m)
      out = []
      for s in states:
        e = next(I.ids)
        s.envs[e] = {"$parent": None, "$decl": {v: "global" for v in variables}}
        f2.env = e
        for s1, sig in I.ex([stmt], s, f2):
          if sig is not None:
            raise Unsupported("a registration that fails")
          out.append(s1)
      states = out
  for s in states:
    if len(states) != 1 or not any((T("Mod", home.name), v) in s.over for v in variables):
      raise Unsupported("registrations could not be followed")
    s.trail = mark
    yield s, NONE


@ext("sa_intrinsics.value_of")
def _value_of(I, st, name, args, kw, kws, fr, node):
  """The value a module-level name is given by its only assignment."""
  from .interp import Unsupported
  v = args[0]
  if v.op != "Glob":
    yield st, v
    return
  mod, _, attr = v.a[0].rpartition(".")
  m = I.p.modules.get(mod)
  b = m.ns.get(attr) if m else None
  if not b or b[0] != "assign":
    raise Unsupported(f"{v.a[0]} is not assigned once")
  f2 = I.root_frame(m)
  e = next(I.ids)
  mark = st.trail
  st = st.fork()
  st.envs[e] = {"$parent": None}
  f2.env = e
  for s, r in I.ev(b[1], st, f2):
    s.trail = mark
    yield s, r


@ext("sa_intrinsics.flatten_of", "sa_intrinsics.unflatten_of", "sa_intrinsics.plain_flatten_of", "sa_intrinsics.to_state_of", "sa_intrinsics.from_state_of")
def registered_fn(i, st, d, args, kw, kws, fr, node):
  from .interp import Unsupported
  regs = registrations(i, args[0])
  want = d.rpartition(".")[2]
  if not regs and args[0].op == "Cls":
    for s, r in subclass_hook(i, st.fork(), args[0], fr, node):
      if isinstance_raised(r):
        continue
      found = {}
      for name, a in s.registered:
        if a.get("nodetype", a.get("ty")) is not args[0]:
          continue
        if "ty" in a:
          found.setdefault("to_state_of", []).append(a["ty_to_state_dict"])
          found.setdefault("from_state_of", []).append(a["ty_from_state_dict"])
        else:
          found.setdefault("flatten_of", []).append(a.get("flatten_with_keys", a.get("flatten_func")))
          found.setdefault("plain_flatten_of", []).append(a.get("flatten_func", NONE))
          found.setdefault("unflatten_of", []).append(a["unflatten_func"])
      fs = found.get(want, [])
      if len(fs) != 1:
        raise Unsupported(f"{len(fs)} registrations of {show(args[0])}")
      s = s.fork()
      s.trail = st.trail
      yield s, fs[0]
    return
  if len(regs) != 1:
    raise Unsupported(f"{len(regs)} registrations of {show(args[0])}")
  m, a = regs[0]
  if want not in ("flatten_of", "unflatten_of"):
    raise Unsupported(want)
  key = "unflatten_func" if d.endswith("unflatten_of") else "flatten_with_keys" if "flatten_with_keys" in a else "flatten_func"
  fr2 = i.root_frame(m)
  e = next(i.ids)
  st = st.fork()
  st.envs[e] = {"$parent": None}
  fr2.env = e
  yield from i.ev(a[key], st, fr2)


@ext("isinstance")
def _isinstance(I, st, name, args, kw, kws, fr, node):
  if len(args) != 2:
    return
  cs = split_classes(args[1])
  if cs is None:
    cs = [args[1]]
  for s, b in isinstance_any(I, st, args[0], cs):
    yield s, K(b)


@ext("issubclass")
def _issubclass(I, st, name, args, kw, kws, fr, node):
  if len(args) != 2:
    return
  a = args[0]
  cs = split_classes(args[1]) or [args[1]]
  if a.op in ("Cls",):
    if all(c.op in ("Cls", "Ext") for c in cs):
      yield st, K(any(I.th.sub(a, c) for c in cs))
      return
  if a.op == "Type":
    for s, b in isinstance_any(I, st, a.a[0], cs):
      yield s, K(b)
    return
  for s, b in I.atom(st, T("A.truth", T("Ap", Ext("issubclass"), (I.reify_light(st, a), I.reify_light(st, args[1])), (), 0))):
    yield s, K(b)


@ext("len")
def _len(I, st, name, args, kw, kws, fr, node):
  if len(args) == 1:
    yield from I.length(st, args[0], fr)


@ext("tuple", "list", "set", "frozenset", "iter")
def _seq(I, st, name, args, kw, kws, fr, node):
  kind = {"frozenset": "set", "iter": "iter"}.get(name, name)
  st = st.fork()
  if not args:
    yield st, Tup(()) if kind == "tuple" else I.alloc(st, kind)
    return
  v = args[0]
  for s, v in I.to_iter(st, v, fr):
    if isinstance_raised(v):
      yield s, v
      continue
    s = s.fork()
    if name == "iter":
      if v.op == "Ref" and I.obj(s, v).kind == "iter":
        yield s, v
        continue
      if v.op in ("Zip", "Enum", "Sorted", "KeysOf", "ItemsOf", "ValuesOf"):
        yield s, v
        continue
    if kind == "tuple" and (v.op == "Tup" or s.facts.get(T("A.isinst", v, Ext("tuple"))) is True):
      yield s, v
      continue
    yield s, as_seq(I, s, v, kind)


@ext("dict")
def _dict(I, st, name, args, kw, kws, fr, node):
  st = st.fork()
  ref = I.alloc(st, "dict")
  if any(a.op in ("X", "LE") for a in args):
    I.log_add(st, ref, X(T("DictArgs", Tup(I.reify(st, a) for a in args))))
    args = []
  for a in args:
    I.dict_update(st, ref, a)
  for k, v in kws:
    if k is None:
      I.dict_update(st, ref, v)
    else:
      I.dict_put(st, ref, K(k), v)
  yield st, ref


@ext("sorted")
def _sorted(I, st, name, args, kw, kws, fr, node):
  if len(args) != 1:
    return
  st = st.fork()
  key = key_kind(I, st, kw.get("key", NONE), fr, node)
  rev = kw.get("reverse", FALSE)
  for s, v in I.to_iter(st, args[0], fr):
    if isinstance_raised(v):
      yield s, v
    else:
      yield s, sorted_term(I, s, v, key, rev)


@ext("reversed")
def _reversed(I, st, name, args, kw, kws, fr, node):
  e = I.entries(st, args[0])
  if e is not None and fixed(e):
    yield st, Tup(reversed(e))
    return
  if args[0].op == "Range":
    yield st, T("Rev", args[0])
    return
  yield st, T("Rev", I.reify(st, args[0]))


@ext("enumerate")
def _enumerate(I, st, name, args, kw, kws, fr, node):
  start = args[1] if len(args) > 1 else kw.get("start", K(0))
  for s, v in I.to_iter(st, args[0], fr):
    if isinstance_raised(v):
      yield s, v
    else:
      yield s, enum_term(I, s, v, start)


@ext("dataclasses.dataclass")
def _dataclass(I, st, name, args, kw, kws, fr, node):
  if len(args) != 1 or any(k is None for k, _ in kws):
    return
  f = T("Ap", Ext("dataclasses.dataclass"), (), tuple(sorted((k, I.reify(st, v)) for k, v in kws)), 0)
  yield from I.call(st, f, list(args), [], fr, node)


@ext("zip")
def _zip(I, st, name, args, kw, kws, fr, node):
  if any(a.op in ("X", "LE") for a in args):
    yield st, T("Ap", Ext("zip"), tuple(I.reify(st, a) for a in args), (), 0)
    return
  if not args:
    yield st, Tup(())
    return
  yield st, zip_term(I, st, args)


@ext("itertools.count")
def _count(I, st, name, args, kw, kws, fr, node):
  yield st, T("Count", args[0] if args else kw.get("start", K(0)))


@ext("range")
def _range(I, st, name, args, kw, kws, fr, node):
  yield st, range_term([I.reify_light(st, a) for a in args])


@ext("map")
def _map(I, st, name, args, kw, kws, fr, node):
  yield from map_loop(I, st, args[0], args[1:], fr, node)


@ext("filter")
def _filter(I, st, name, args, kw, kws, fr, node):
  yield from filter_loop(I, st, args[0], args[1], fr, node)


@ext("any")
def _any(I, st, name, args, kw, kws, fr, node):
  yield from loop_any(I, st, args[0], fr, node, True, False)


@ext("all")
def _all(I, st, name, args, kw, kws, fr, node):
  yield from loop_any(I, st, args[0], fr, node, False, True)


@ext("itertools.chain")
def _chain(I, st, name, args, kw, kws, fr, node):
  out = []
  for a in args:
    if a.op in ("X", "LE"):
      return
    e = I.entries(st, a)
    out += e if e is not None else [X(I.reify(st, a))]
  st = st.fork()
  yield st, I.alloc(st, "iter", log=out)


@ext("next")
def _next(I, st, name, args, kw, kws, fr, node):
  v = args[0]
  if v.op == "Ref" and I.obj(st, v).kind in ("iter", "list"):
    o = I.obj(st, v)
    if o.log and o.log[0].op not in ("X", "LE"):
      st = st.fork()
      I.put(st, v, o.with_log(o.log[1:]))
      yield st, o.log[0]
      return
    if not o.log:
      yield st, (args[1] if len(args) > 1 else I.Raised(Ext("StopIteration"), I.site(node, fr)))
      return
    h = o.log[0]
    if len(args) > 1:
      # next(genexp, default): first element produced
      def body(s, el):
        yield s, ("ret", el, None)

      for s, sig in I.segments(st, list(o.log), 0, body, fr, node, []):
        if sig is None:
          yield s, args[1]
        elif sig[0] == "raise":
          yield s, sig[1]
        else:
          yield s, sig[1]
      return
    if h.op == "X":
      st = st.fork()
      x = h.a[0]
      el = I.item(x, K(0)) if x.op in ("Slice",) else T("It", x, K(0))
      rest = I.slice(st, x, T("SliceK", K(1), NONE, NONE))
      I.put(st, v, o.with_log((X(rest),) + o.log[1:]))
      yield st, el
      return
  st = st.fork()
  r = I.reify(st, v)
  n = sum(1 for e in I.events_of(st.trail) if e[0] == "call" and e[1].op == "Ap" and e[1].a[0] is Ext("next") and e[1].a[1][:1] == (r,))
  t = T("Ap", Ext("next"), (r,) + tuple(I.reify(st, a) for a in args[1:]), (), n)
  st.ev("call", t, I.site(node, fr), "E")
  yield st, t


@ext("getattr")
def _getattr(I, st, name, args, kw, kws, fr, node):
  o, n = args[0], args[1]
  if isK(n, str):
    if len(args) > 2:
      if o.op == "Ref" and I.obj(st, o).kind == "inst" and kval(n) in I.obj(st, o).fields:
        yield from I.getattr(st, o, kval(n), fr, node)
        return
      for s, b in hasattr_(I, st, o, n):
        if b:
          yield from I.getattr(s, o, kval(n), fr, node)
        else:
          yield s, args[2]
      return
    yield from I.getattr(st, o, kval(n), fr, node)
    return
  ro, rn = I.reify_light(st, o), I.reify_light(st, n)
  ov = st.over.get((ro, rn))
  if ov is not None:
    yield st, ov
    return
  t = T("Attr", ro, rn)
  if len(args) > 2:
    for s, b in I.atom(st, T("A.hasattr", ro, rn)):
      yield s, (t if b else args[2])
    return
  c = I.types.get(o)
  yield st, t


def hasattr_(I, st, o, n):
  if o.op == "Ref" and I.obj(st, o).kind == "inst" and isK(n, str):
    ob = I.obj(st, o)
    if kval(n) in ob.fields or (ob.cls and (I.p.find_method(ob.cls, kval(n)) or I.p.find_attr(ob.cls, kval(n)))):
      yield st, True
      return
  if o.op == "Ext" and isK(n, str):
    # what the installed JAX offers: registration with keys and flatten_func exist
    if o.a[0] == "jax.tree_util" and kval(n) == "register_pytree_with_keys":
      yield st, True
      return
  if isK(n, str):  # values of the built-in types have the attributes of their type
    b = type(kval(o)) if o.op == "K" else tuple if o.op == "Tup" else {"list": list, "dict": dict, "set": set}.get(I.obj(st, o).kind) if o.op == "Ref" else None
    if b in (int, bool, float, str, bytes, type(None), tuple, list, dict, set):
      yield st, hasattr(b, kval(n))
      return
  r = I.reify_light(st, o)
  if (r, kval(n) if isK(n, str) else n) in st.over:
    yield st, True
    return
  yield from I.atom(st, T("A.hasattr", r, I.reify_light(st, n)))


@ext("hasattr")
def _hasattr(I, st, name, args, kw, kws, fr, node):
  for s, b in hasattr_(I, st, args[0], args[1]):
    yield s, K(b)


@ext("setattr", "object.__setattr__")
def _setattr(I, st, name, args, kw, kws, fr, node):
  if len(args) != 3:
    return
  o, n, v = args
  if name == "object.__setattr__" or name == "super.__setattr__":
    if o.op == "Ref" and I.obj(st, o).kind == "inst" and isK(n, str):
      st = st.fork()
      I.put(st, o, I.obj(st, o).with_field(kval(n), v))
      yield st, NONE
      return
    st = st.fork()
    yield from I.setitem(st, I.vars_of(st, o), n, v, fr, node)
    return
  st = st.fork()
  if isK(n, str):
    yield from I.setattr(st, o, kval(n), v, fr, node)
    return
  ro, rn = I.reify(st, o), I.reify_light(st, n)
  st.ev("set", ro, rn, I.reify(st, v), I.site(node, fr))
  st.over[(ro, rn)] = v
  yield st, NONE


@ext("dataclasses.fields")
def _dataclass_fields(I, st, name, args, kw, kws, fr, node):
  c = static_class(I, st, args[0]) if len(args) == 1 else None
  q = c.a[0] if c is not None and c.op == "Cls" else None
  if q in I.p.plain_dataclasses and q in I.hooks.get("construct", ()):
    yield st, Tup([T("Inst", Ext("dataclasses.Field"), (("name", K(n)), ("metadata", T("Seq", "dict")))) for n in I.p.dataclass_fields(q)])


@ext("dataclasses.is_dataclass")
def _is_dataclass(I, st, name, args, kw, kws, fr, node):
  c = I.type_term(st, args[0]) if args[0].op != "Cls" else args[0]
  if c.op == "Cls" and c.a[0] in I.p.classes:
    yield st, K(any(x in I.p.classes and I.p.is_dataclass(I.p.classes[x]) for x in I.p.mro(c.a[0])))
    return
  yield from I.opaque_call(st, Ext(name), args, kws, fr, node, "P")


@ext("delattr")
def _delattr(I, st, name, args, kw, kws, fr, node):
  st = st.fork()
  I.delattr(st, args[0], args[1], fr, node)
  yield st, NONE


@ext("vars")
def _vars(I, st, name, args, kw, kws, fr, node):
  if len(args) == 1:
    yield st, I.vars_of(st, args[0])


@ext("type")
def _type(I, st, name, args, kw, kws, fr, node):
  if len(args) == 1:
    yield st, I.type_term(st, args[0])


@ext("callable")
def _callable(I, st, name, args, kw, kws, fr, node):
  v = args[0]
  if v.op in ("Fn", "Bound", "Lam", "Cls", "Ext", "Partial", "Hof", "Type"):
    yield st, TRUE
    return
  if v.op in ("K", "Tup", "Seq", "Fmt", "Len", "Poly") or v.op == "P" and I.types.get(v) in ("list", "dict", "tuple", "str", "int", "set"):
    yield st, FALSE
    return
  if v.op == "Ref":
    o = I.obj(st, v)
    if o.kind != "inst":
      yield st, FALSE
      return
    if o.cls:
      yield st, K(I.p.find_method(o.cls, "__call__") is not None)
      return
  for s, b in I.atom(st, T("A.callable", I.reify_light(st, v))):
    yield s, K(b)


@ext("bool")
def _bool(I, st, name, args, kw, kws, fr, node):
  if not args:
    yield st, FALSE
    return
  for s, b in I.truth(st, args[0], fr):
    yield s, K(b)


@ext("str", "repr")
def _str(I, st, name, args, kw, kws, fr, node):
  if not args:
    yield st, K("")
    return
  v = args[0]
  if isK(v, str, int) and name == "str":
    yield st, K(str(kval(v)))
    return
  if name == "str" and v.op == "Fmt":
    yield st, v
    return
  yield from I.opaque_call(st, Ext(name), args, kws, fr, node, "P")


@ext("int")
def _int(I, st, name, args, kw, kws, fr, node):
  if len(args) == 1 and (isK(args[0], int) or args[0].op in ("Len", "Idx", "Poly")):
    yield st, args[0]


@ext("min", "max", "abs")
def _minmax(I, st, name, args, kw, kws, fr, node):
  if args and all(isK(a, int, float) for a in args) and not kws:
    yield st, K({"min": min, "max": max, "abs": lambda *a: abs(a[0])}[name](*[kval(a) for a in args]) if len(args) > 1 or name == "abs" else kval(args[0]))
    return
  if len(args) > 1 and not kws:
    ra = [I.reify_light(st, a) for a in args]
    yield st, T("Ap", Ext(name), tuple(sorted(ra, key=show)), (), 0)


@ext("sum")
def _sum(I, st, name, args, kw, kws, fr, node):
  v = args[0]
  e = I.entries(st, v)
  start = args[1] if len(args) > 1 else K(0)
  if e is None or isK(start) is False and start.op not in ("Poly",):
    return
  # sum(1 for ...) counts
  if len(e) == 1 and e[0].op == "LE" and e[0].a[0].v.kind == "loop" and start is K(0):
    reg, view = e[0].a[0].v, e[0].a[1]
    ones = all(all(x is K(1) for x in I.view_entries(bp, view)) for bp in reg.paths)
    if ones:
      yield st, T("Len", T("Seq", "list", e[0]))
      return
  if fixed(e):
    t = start
    for x in e:
      t = add(t, I.reify_light(st, x))
    yield st, t


@ext("id", "hash")
def _id(I, st, name, args, kw, kws, fr, node):
  v = args[0] if len(args) == 1 else None
  if name == "hash" and v is not None and v.op == "Ref" and I.obj(st, v).kind == "inst" and I.obj(st, v).cls in I.p.classes:
    own = next((c.methods for c in map(I.p.classes.get, I.p.mro(I.obj(st, v).cls)) if c and ("__hash__" in c.methods or "__eq__" in c.methods)), ())
    if "__eq__" in own and "__hash__" not in own:
      yield st, I.Raised(Ext("TypeError"), I.site(node, fr))  # defining equality alone makes a class unhashable
      return
    m = I.method_fn(I.obj(st, v).cls, "__hash__")
    if m is not None:
      for s, r in I.call(st, T("Bound", m, v), [], [], fr, node):
        if not isinstance(r, I.Raised) and (r.op in ("Tup", "Seq", "Ref", "Fmt", "Lam", "Fn", "Cls") or isK(r) and not isK(r, int)):
          r = I.Raised(Ext("TypeError"), I.site(node, fr))
        yield s, r
      return
  own = tuple(K(a.a[0]) for a in args if name == "id" and a.op == "Ref")  # two objects with equal contents have different ids
  yield st, T("Ap", Ext(name), tuple(I.reify(st, a) for a in args) + own, (), 0)


@ext("functools.partial")
def _partial(I, st, name, args, kw, kws, fr, node):
  if not args or any(k is None for k, _ in kws) and args[0].op == "Fn":
    pass
  if args:
    f = args[0]
    if f.op == "Partial":
      base = {k.a[0]: k.a[1] for k in f.a[2]}
      base.update(kw)
      yield st, T("Partial", f.a[0], f.a[1] + tuple(args[1:]), tuple(T("kw", k, v) for k, v in base.items()) + tuple(T("kw", None, v) for k, v in kws if k is None))
      return
    yield st, T("Partial", f, tuple(args[1:]), tuple(T("kw", k, v) for k, v in kws))


@ext("functools.wraps")
def _wraps(I, st, name, args, kw, kws, fr, node):
  yield st, T("Hof", "$wraps", tuple(args), ())


@ext("functools.update_wrapper")
def _update_wrapper(I, st, name, args, kw, kws, fr, node):
  yield st, args[0]


@ext("functools.reduce")
def _reduce(I, st, name, args, kw, kws, fr, node):
  f, it = args[0], args[1]
  e = I.entries(st, it)
  if e is None or not fixed(e):
    return
  vals = ([args[2]] if len(args) > 2 else []) + e
  if not vals:
    return

  def go(s, acc, i):
    if i == len(vals):
      yield s, acc
      return
    for s2, r in I.call(s, f, [acc, vals[i]], [], fr, node):
      if isinstance_raised(r):
        yield s2, r
      else:
        yield from go(s2, r, i + 1)

  yield from go(st, vals[0], 1)


@ext("copy.copy", "copy.deepcopy")
def _copy(I, st, name, args, kw, kws, fr, node):
  v = args[0]
  if name == "copy.copy":
    if v.op == "Ref" and I.obj(st, v).kind != "inst":
      st = st.fork()
      o = I.obj(st, v)
      yield st, I.alloc(st, o.kind, log=o.log)
      return
    c = I.obj(st, v).cls if v.op == "Ref" else I.types.get(v)
    if c:
      m = I.method_fn(c, "__copy__")
      if m is not None:
        yield from I.call(st, T("Bound", m, v), [], [], fr, node)
        return
    if v.op == "Ref" and I.obj(st, v).kind == "inst":
      st = st.fork()
      o = I.obj(st, v)
      yield st, I.alloc(st, "inst", o.cls, o.fields)
      return
  yield from I.opaque_call(st, Ext(name), args, kws, fr, node, "F")


@ext("object.__new__")
def _new(I, st, name, args, kw, kws, fr, node):
  c = args[0]
  st = st.fork()
  if c.op == "Cls" and c.a[0] in I.p.classes and not (set(I.p.mro(c.a[0])) & {"tuple", "dict", "list"}) and not I.raw_opaque(c.a[0]):
    yield st, I.alloc(st, "inst", c.a[0])
    return
  rc = I.reify_light(st, c)
  n = sum(1 for e in I.events_of(st.trail) if e[0] == "new" and e[1].op == "Raw" and e[1].a[0] is rc)
  t = T("Raw", rc, n)
  st.ev("new", t, I.site(node, fr))
  yield st, t


@ext("object")
def _object(I, st, name, args, kw, kws, fr, node):
  st = st.fork()
  yield st, I.alloc(st, "inst", None)


@ext("object.__getattribute__")
def _rawget(I, st, name, args, kw, kws, fr, node):
  if args[0].op == "Ref" and I.obj(st, args[0]).kind == "inst" and isK(args[1], str) and kval(args[1]) in I.obj(st, args[0]).fields:
    yield st, I.obj(st, args[0]).fields[kval(args[1])]
    return
  yield st, T("RawAttr", I.reify_light(st, args[0]), I.reify_light(st, args[1]))


@ext("typing.cast", "typing_extensions.cast")
def _cast(I, st, name, args, kw, kws, fr, node):
  yield st, args[1]


@ext("types.MappingProxyType")
def _mpt(I, st, name, args, kw, kws, fr, node):
  if args:
    yield st, args[0]


@ext("operator.itemgetter")
def _itemgetter(I, st, name, args, kw, kws, fr, node):
  yield st, T("Hof", "$item", tuple(args), ())


@ext("operator.attrgetter")
def _attrgetter(I, st, name, args, kw, kws, fr, node):
  yield st, T("Hof", "$attr", tuple(args), ())


@ext("operator.getitem")
def _getitem(I, st, name, args, kw, kws, fr, node):
  yield from I.getitem(st, args[0], args[1], fr, node)


@ext("operator.or_", "operator.add", "operator.sub", "operator.mul")
def _operator(I, st, name, args, kw, kws, fr, node):
  op = {"or_": "|", "add": "+", "sub": "-", "mul": "*"}[name.split(".")[1]]
  yield from I.binop(st, op, args[0], args[1], fr, node)


def called_with(f, n):
  """A function that is called with n arguments by position, whatever else it could take."""
  if f.op == "Lam":
    lo = f.a[0].v
    if lo.arity() != (n, False, (), False):
      from .interp import LamObj
      return T("Lam", Box(LamObj(lo.i, lo.fn, lo.st, n)), f.a[1])
  return f


@ext("jax.tree_util.tree_map")
def _tree_map(I, st, name, args, kw, kws, fr, node):
  if any(a.op in ("X", "LE") for a in args):
    return
  if not splits(args, kws):
    return

  def build(a):
    if all(x.op == "Tup" and fixed(x.a) for x in a[1:]) and len({len(x.a) for x in a[1:]}) == 1:
      out = []
      for i in range(len(a[1].a)):
        out.append(build([a[0]] + [x.a[i] for x in a[1:]]))
      return Tup(out)
    if len(a) == 2 and isK(a[1]) and kval(a[1]) is None:
      return NONE
    return T("Ap", Ext("jax.tree_util.tree_map"), (called_with(I.reify(st, a[0]), len(a) - 1),) + tuple(I.reify(st, x) for x in a[1:]), (), 0)

  yield st, build(args)


@ext("slice")
def _slice(I, st, name, args, kw, kws, fr, node):
  a = list(args)
  if kws or not 1 <= len(a) <= 3 or any(x.op in ("X", "LE") for x in a):
    return
  if len(a) == 1:
    a = [NONE, a[0]]
  if len(a) == 3 and a[2] in (NONE, K(1)):
    a = a[:2]
  if len(a) == 2 and a[0] is K(0):
    a[0] = NONE
  yield st, T("Ap", Ext("slice"), tuple(I.reify_light(st, x) for x in a), (), 0)


@ext("jax.eval_shape")
def _eval_shape(I, st, name, args, kw, kws, fr, node):
  yield st, T("Ap", Ext("jax.eval_shape"), tuple(I.reify(st, a) for a in args), tuple(sorted((k or "**", I.reify(st, v)) for k, v in kws)), 0)


def scan_leaves(t, op, path=()):
  """Symbols of one iteration, with the structure of the initial value."""
  if t.op == "Tup" and fixed(t.a):
    return Tup([scan_leaves(x, op, path + (i,)) for i, x in enumerate(t.a)])
  if isK(t) and kval(t) is None:
    return NONE
  return T(op, t, path)


def scan_out(t, fn):
  if t.op == "Tup" and fixed(t.a):
    return Tup([scan_out(x, fn) for x in t.a])
  if isK(t) and kval(t) is None:
    return NONE
  return fn(t)


@ext("jax.lax.scan")
def _scan(I, st, name, args, kw, kws, fr, node):
  names = ["f", "init", "xs", "length", "reverse", "unroll"]
  d = dict(zip(names, args))
  d.update(kw)
  if "f" not in d or "init" not in d:
    return
  st = st.fork()
  init, xs = I.reify(st, d["init"]), I.reify(st, d.get("xs", NONE))
  opts = tuple((k, I.reify(st, d.get(k, dflt))) for k, dflt in (("length", NONE), ("reverse", FALSE), ("unroll", K(1))))
  carry, el = scan_leaves(init, "ScanC"), scan_leaves(xs, "ScanX")
  key = T("ScanOpts", *[T("kw", K(k), v) for k, v in opts])
  st.ev("hof", "jax.lax.scan", T("scan", init, xs, key), I.site(node, fr))
  for s, r in I.call(st, d["f"], [carry, el], [], fr, node):
    if isinstance_raised(r):
      yield s, r
      continue
    s = s.fork()
    s.ev("hofend", "jax.lax.scan")
    r = I.reify(s, r)
    c2, y = I.item(r, K(0)) if r.op != "Tup" else r.a[0], I.item(r, K(1)) if r.op != "Tup" else r.a[1]
    end = scan_out(c2, lambda t: T("ScanEnd", t, key, init, xs))
    ys = scan_out(y, lambda t: T("ScanYs", t, key, init, xs))
    yield s, Tup([end, ys])


# ---------------------------------------------------------------------- HOFs
def call_hof(I, st, f, args, kws, fr, node):
  name, fargs, fkws = f.a
  if name == "$wraps":
    # functools.wraps(f)(g) is g
    yield st, args[0]
    return
  if name == "$item":
    if len(fargs) == 1:
      yield from I.getitem(st, args[0], fargs[0], fr, node)
      return
  if name == "$attr" and len(fargs) == 1 and isK(fargs[0], str):
    yield from I.getattr(st, args[0], kval(fargs[0]), fr, node)
    return
  fn = fargs[0]
  st = st.fork()
  rest, rk = [I.reify(st, a) for a in fargs[1:]], [(k, I.reify(st, v)) for k, v in fkws]
  n = signatures.normal(name, [NONE] + rest, rk)
  if n is not None:
    rest, rk = n[0][1:], n[1]
  rest, rk = tuple(rest), tuple(rk)
  site = I.site(node, fr) if node is not None else None
  st.ev("hof", name, T("hof", Tup(rest), tuple((k, v) for k, v in rk if not (k == "has_aux" and name in ("jax.grad", "jax.value_and_grad")))), site)
  if name in ("jax.jit", "jax.checkpoint", "jax.pjit"):
    for s, r in I.call(st, fn, args, kws, fr, node):
      if not isinstance_raised(r):
        s = s.fork()
        s.ev("hofend", name)
      yield s, r
    return
  if name == "jax.vmap":
    d = dict(rk)
    order = ["in_axes", "out_axes", "axis_name", "axis_size"]
    for k, v in zip(order, rest):
      d.setdefault(k, v)
    ia, oa, size = d.get("in_axes", K(0)), d.get("out_axes", K(0)), d.get("axis_size", NONE)
    ra = [I.reify(st, a) for a in args]
    if ra:
      if fixed(ra) and (ia.op == "Tup" and fixed(ia.a) or isK(ia, int)):
        margs = [T("Mapped", a, ia.a[i] if ia.op == "Tup" else ia, size) for i, a in enumerate(ra)]
      else:
        margs = [X(T("Mapped", Tup(ra), ia, size))]
    else:
      margs = []
    for s, r in I.call(st, fn, margs, kws, fr, node):
      if isinstance_raised(r):
        yield s, r
        continue
      s = s.fork()
      s.ev("hofend", name)
      r = I.reify(s, r)
      if r.op == "Tup" and fixed(r.a) and oa.op == "Tup" and fixed(oa.a) and len(r.a) == len(oa.a):
        yield s, Tup([x if isK(a) and kval(a) is None and False else T("Stacked", x, a, size) for x, a in zip(r.a, oa.a)])
      else:
        yield s, T("Stacked", r, oa, size)
    return
  if name in ("jax.grad", "jax.value_and_grad"):
    d = dict(rk)
    aux = d.pop("has_aux", rest[1] if len(rest) > 1 else FALSE)
    argnums = d.pop("argnums", rest[0] if rest else K(0))
    opts = tuple(sorted(d.items()))
    wrt = args[kval(argnums)] if isK(argnums, int) and kval(argnums) < len(args) else NONE
    for s, r in I.call(st, fn, args, kws, fr, node):
      if isinstance_raised(r):
        yield s, r
        continue
      s = s.fork()
      s.ev("hofend", name)
      r = I.reify(s, r)
      for s2, b in I.truth(s, aux, fr):
        if b:
          loss, a = (r.a[0], r.a[1]) if r.op == "Tup" and len(r.a) == 2 and fixed(r.a) else (I.item(r, K(0)), I.item(r, K(1)))
        else:
          loss, a = r, None
        g = T("Grad", loss, argnums, I.reify(s2, wrt), opts)
        if name == "jax.value_and_grad":
          g2 = Tup([Tup([loss, a]) if a is not None else loss, g])
        else:
          g2 = Tup([g, a]) if a is not None else g
        yield s2, g2
    return
  yield from I.opaque_call(st, f, args, kws, fr, node, "E")


# ------------------------------------------------------------------- methods
def method(I, st, recv, name, args, kws, fr, node):
  kw = kwdict(kws)
  st = st.fork()
  op = recv.op
  if op == "Ref":
    o = I.obj(st, recv)
    h = METHODS.get((o.kind, name))
    if h is not None:
      done = False
      for x in h(I, st, recv, o, args, kw, kws, fr, node):
        done = True
        yield x
      if done:
        return
    if o.kind == "dict" and name in ("items", "keys", "values") and not args:
      yield st, T({"items": "ItemsOf", "keys": "KeysOf", "values": "ValuesOf"}[name], recv)
      return
  elif op == "Vars":
    h = VARS.get(name)
    if h is not None:
      done = False
      for x in h(I, st, recv, args, kw, kws, fr, node):
        done = True
        yield x
      if done:
        return
  elif (op == "Seq" and recv.a[0] == "dict") or op in ("P", "At", "It"):
    if name in ("items", "keys", "values") and not args:
      yield st, T({"items": "ItemsOf", "keys": "KeysOf", "values": "ValuesOf"}[name], recv)
      return
    if name == "copy":
      ref = I.alloc(st, "dict")
      I.dict_update(st, ref, recv)
      yield st, ref
      return
    if name == "get" and args:
      tmp = I.alloc(st, "dict")
      I.dict_update(st, tmp, recv)
      yield from I.dict_get(st, tmp, args[0], fr, node, args[1] if len(args) > 1 else NONE)
      return
  elif op in ("KeysOf", "ItemsOf", "ValuesOf"):
    pass
  if op in ("K", "Fmt") or name in STR_METHODS and op not in ("Ref", "Tup", "Seq", "Vars"):
    if name == "join" and args:
      for s, v in I.to_iter(st, args[0], fr):
        if isinstance_raised(v):
          yield s, v
          continue
        e = I.entries(s, v)
        if e is None:
          e = [X(I.reify(s, v))]
        if all(isK(x, str) for x in e) and isK(recv, str):
          yield s, K(kval(recv).join(kval(x) for x in e))
        else:
          yield s, T("Join", recv, Tup(I.reify(s, x) for x in e))
      return
    if isK(recv, str) and all(isK(a) for a in args) and not kws and name in STR_METHODS:
      try:
        r = getattr(kval(recv), name)(*[kval(a) for a in args])
        if isinstance(r, (str, int, bool)):
          yield st, K(r)
          return
        if isinstance(r, list):
          yield st, I.alloc(st, "list", log=[K(x) for x in r])
          return
      except Exception:
        pass
    yield from I.opaque_call(st, T("At", I.reify_light(st, recv), name), args, kws, fr, node, "P")
    return
  if op == "Tup" and name == "index":
    yield st, T("Ap", T("At", recv, "index"), tuple(I.reify(st, a) for a in args), (), 0)
    return
  if op in ("Tup", "Seq", "Slice", "Sorted") and name == "copy":
    yield st, as_seq(I, st, recv, "list")
    return
  cls = I.API.get(name, "E")
  if op in ("Tup", "Seq", "KeysOf", "ItemsOf", "ValuesOf", "Range", "Zip", "Sorted"):
    cls = "P" if cls == "R" else cls
  yield from I.opaque_call(st, T("At", I.reify(st, recv), name), args, kws, fr, node, cls)


METHODS = {}


def meth(kind, *names):
  def deco(f):
    for n in names:
      METHODS[(kind, n)] = f
    return f

  return deco


@meth("list", "append")
def _append(I, st, r, o, args, kw, kws, fr, node):
  I.log_add(st, r, args[0])
  yield st, NONE


@meth("set", "add")
def _add(I, st, r, o, args, kw, kws, fr, node):
  if args[0] not in o.log:
    I.log_add(st, r, args[0])
  yield st, NONE


@meth("list", "extend")
def _extend(I, st, r, o, args, kw, kws, fr, node):
  for s, v in I.to_iter(st, args[0], fr):
    if isinstance_raised(v):
      yield s, v
      continue
    s = s.fork()
    I.seq_extend(s, r, v)
    yield s, NONE


@meth("set", "update")
def _supdate(I, st, r, o, args, kw, kws, fr, node):
  for a in args:
    I.seq_extend(st, r, a)
  yield st, NONE


@meth("list", "insert")
def _insert(I, st, r, o, args, kw, kws, fr, node):
  i = args[0]
  if isK(i, int):
    k = kval(i)
    pre = 0
    while pre < len(o.log) and o.log[pre].op not in ("X", "LE", "ins!", "set!", "del!", "pop!", "carried"):
      pre += 1
    if 0 <= k <= pre:
      I.put(st, r, o.with_log(o.log[:k] + (args[1],) + o.log[k:]))
      yield st, NONE
      return
  I.log_add(st, r, T("ins!", I.reify_light(st, i), I.reify(st, args[1])))
  yield st, NONE


@meth("list", "pop")
def _pop(I, st, r, o, args, kw, kws, fr, node):
  k = args[0] if args else K(-1)
  log = o.log
  if isK(k, int):
    i = kval(k)
    if fixed(log) and all(x.op not in ("ins!", "set!", "del!", "pop!", "carried") for x in log):
      if -len(log) <= i < len(log):
        l = list(log)
        v = l.pop(i)
        I.put(st, r, o.with_log(tuple(l)))
        yield st, v
        return
    if i == -1 and log and log[-1].op not in ("X", "LE", "ins!", "set!", "del!", "pop!", "carried"):
      I.put(st, r, o.with_log(log[:-1]))
      yield st, log[-1]
      return
    if i == 0 and log and log[0].op not in ("X", "LE", "ins!", "set!", "del!", "pop!", "carried") and all(x.op not in ("ins!", "set!", "del!", "pop!", "carried") for x in log):
      I.put(st, r, o.with_log(log[1:]))
      yield st, log[0]
      return
  snap = I.reify(st, r)
  I.log_add(st, r, T("pop!", I.reify_light(st, k)))
  yield st, T("Popped", snap, I.reify_light(st, k))


@meth("list", "reverse")
def _lreverse(I, st, r, o, args, kw, kws, fr, node):
  if fixed(o.log):
    I.put(st, r, o.with_log(tuple(reversed(o.log))))
    yield st, NONE


@meth("list", "sort")
def _lsort(I, st, r, o, args, kw, kws, fr, node):
  key = key_kind(I, st, kw.get("key", NONE), fr, node)
  s = sorted_term(I, st, r, key, kw.get("reverse", FALSE))
  if s.op == "Ref":
    I.put(st, r, o.with_log(I.obj(st, s).log))
  else:
    I.put(st, r, o.with_log((X(s),)))
  yield st, NONE


@meth("list", "clear")
@meth("dict", "clear")
@meth("set", "clear")
def _clear(I, st, r, o, args, kw, kws, fr, node):
  I.put(st, r, o.with_log(()))
  yield st, NONE


@meth("list", "copy")
@meth("dict", "copy")
@meth("set", "copy")
def _lcopy(I, st, r, o, args, kw, kws, fr, node):
  yield st, I.alloc(st, o.kind, log=o.log)


@meth("dict", "get")
def _dget(I, st, r, o, args, kw, kws, fr, node):
  yield from I.dict_get(st, r, args[0], fr, node, args[1] if len(args) > 1 else kw.get("default", NONE))


@meth("dict", "setdefault")
def _setdefault(I, st, r, o, args, kw, kws, fr, node):
  d = args[1] if len(args) > 1 else NONE
  for s, b in I.contains(st, args[0], r, fr):
    if isinstance(b, I.Raised):
      yield s, b
    elif b:
      yield from I.dict_get(s, r, args[0], fr, node)
    else:
      s = s.fork()
      I.dict_put(s, r, args[0], d)
      yield s, d


@meth("dict", "update")
def _dupdate(I, st, r, o, args, kw, kws, fr, node):
  for a in args:
    I.dict_update(st, r, a)
  for k, v in kws:
    if k is None:
      I.dict_update(st, r, v)
    else:
      I.dict_put(st, r, K(k), v)
  yield st, NONE


@meth("dict", "pop")
def _dpop(I, st, r, o, args, kw, kws, fr, node):
  k = I.reify_light(st, args[0])
  log = o.log
  if all(e.op == "put" for e in log) and (isK(k) and all(isK(e.a[0]) for e in log) or any(e.a[0] is k for e in log)):
    hit = [e for e in log if e.a[0] is k]
    if hit:
      I.put(st, r, o.with_log(tuple(e for e in log if e.a[0] is not k)))
      yield st, hit[-1].a[1]
    elif len(args) > 1:
      yield st, args[1]
    else:
      yield st, I.Raised(Ext("KeyError"), I.site(node, fr))
    return
  if isK(k) and all(e.op in ("put", "X", "without") for e in log) and not any(e.op == "put" and not isK(e.a[0]) for e in log):
    hit = [e for e in log if e.op == "put" and e.a[0] is k]
    if hit and log.index(hit[-1]) > max([i for i, e in enumerate(log) if e.op == "X"], default=-1):
      v = hit[-1].a[1]
      new = tuple(e for e in log if not (e.op == "put" and e.a[0] is k))
      new = tuple(X(T("Without", e.a[0], k)) if e.op == "X" else e for e in new)
      I.put(st, r, o.with_log(new))
      yield st, v
      return
    if not hit:
      xs = [e for e in log if e.op == "X"]
      if len(xs) == 1:
        base = xs[0].a[0]
        new = st.facts.query(T("A.in", k, base)) is None  # then the rest is the same, whether or not the name was there
        for s, b in I.atom(st, T("A.in", k, base)):
          s = s.fork()
          if b or new and len(args) > 1:
            I.put(s, r, o.with_log(tuple(X(T("Without", base, k)) if e.op == "X" else e for e in log)))
          if b:
            yield s, I.item(base, k)
          elif len(args) > 1:
            yield s, args[1]
          else:
            yield s, I.Raised(Ext("KeyError"), I.site(node, fr))
        return
  snap = I.reify(st, r)
  for s, b in I.atom(st, T("A.in", k, snap)):
    s = s.fork()
    if b:
      I.log_add(s, r, T("del!", k))
      yield s, I.item(snap, k)
    elif len(args) > 1:
      yield s, args[1]
    else:
      yield s, I.Raised(Ext("KeyError"), I.site(node, fr))


@meth("set", "discard", "remove")
def _discard(I, st, r, o, args, kw, kws, fr, node):
  k = I.reify_light(st, args[0])
  if k in o.log and fixed(o.log):
    I.put(st, r, o.with_log(tuple(e for e in o.log if e is not k)))
  else:
    I.log_add(st, r, T("del!", k))
  yield st, NONE


def set_method(name):
  def f(I, st, r, o, args, kw, kws, fr, node):
    from .interp import Unsupported

    if kw or kws or len(args) != 1 or args[0].op in ("X", "LE"):
      return
    for s, other in I.call(st, T("Ext", "set"), [args[0]], [], fr, node):
      if not isinstance(other, T) or other.op != "Ref" or I.obj(s, other).kind != "set":
        raise Unsupported("method of a set")
      if name in ("difference", "intersection", "union"):
        yield from I.binop(s, {"difference": "-", "intersection": "&", "union": "|"}[name], r, other, fr, node)
        continue
      a, b = (other, r) if name == "issuperset" else (r, other)
      for s2, rest in I.binop(s, "&" if name == "isdisjoint" else "-", a, b, fr, node):
        for s3, some in I.truth(s2, rest, fr):
          yield s3, K(not some)
  return f


for _n in ("intersection", "union", "difference", "issubset", "isdisjoint", "issuperset"):
  meth("set", _n)(set_method(_n))


@meth("set", "pop")
def _spop(I, st, r, o, args, kw, kws, fr, node):
  yield st, T("AnyOf", I.reify(st, r))


VARS = {}


def vmeth(*names):
  def deco(f):
    for n in names:
      VARS[n] = f
    return f

  return deco


@vmeth("items", "keys", "values")
def _vitems(I, st, v, args, kw, kws, fr, node):
  pass
  yield from ()


def vars_view(I, st, v, name):
  if v.a[0].op == "Ref":
    if I.obj(st, v.a[0]).kind == "inst":
      ref = I.alloc(st, "dict")
      vars_into(I, st, ref, v)
      return T({"items": "ItemsOf", "keys": "KeysOf", "values": "ValuesOf"}[name], ref)
  return T({"items": "ItemsOf", "keys": "KeysOf", "values": "ValuesOf"}[name], I.reify(st, v))


for _n in ("items", "keys", "values"):
  def _mk(n):
    def f(I, st, v, args, kw, kws, fr, node):
      yield st, vars_view(I, st, v, n)

    return f

  VARS[_n] = _mk(_n)


@vmeth("copy")
def _vcopy(I, st, v, args, kw, kws, fr, node):
  ref = I.alloc(st, "dict")
  vars_into(I, st, ref, v)
  yield st, ref


def vars_into(I, st, ref, v):
  if v.op == "Vars" and v.a[0].op == "Ref":
    f = I.obj(st, v.a[0]).fields
    if "$open" in f:
      I.dict_update(st, ref, f["$open"])
    for k, x in f.items():
      if not k.startswith("$"):
        I.dict_put(st, ref, K(k), x)
  else:
    I.dict_update(st, ref, v)


@vmeth("update")
def _vupdate(I, st, v, args, kw, kws, fr, node):
  o = v.a[0]
  items = []
  for a in args:
    tmp = I.alloc(st, "dict")
    if a.op == "Vars":
      vars_into(I, st, tmp, a)
    else:
      I.dict_update(st, tmp, a)
    items += list(I.obj(st, tmp).log)
  for k, x in kws:
    if k is None:
      tmp = I.alloc(st, "dict")
      I.dict_update(st, tmp, x)
      items += list(I.obj(st, tmp).log)
    else:
      items.append(T("put", K(k), x))

  def go(s, i):
    if i == len(items):
      yield s
      return
    e = items[i]
    if e.op == "put":
      for s2, _ in I.setitem(s, v, e.a[0], e.a[1], fr, node):
        yield from go(s2, i + 1)
      return
    s = s.fork()
    if o.op == "Ref" and I.obj(s, o).kind == "inst":
      # a mapping of unknown names: everything so far and the mapping become one dict
      ref = I.alloc(s, "dict")
      vars_into(I, s, ref, v)
      I.log_add(s, ref, e)
      ob = I.obj(s, o)
      I.put(s, o, type(ob)(ob.kind, ob.cls, {**{k: x for k, x in ob.fields.items() if k.startswith("$")}, "$open": ref}, ob.log))
      yield from go(s, i + 1)
      return
    s.ev("upd", I.reify(s, v), I.reify(s, e), I.site(node, fr))
    yield from go(s, i + 1)

  for s in go(st, 0):
    yield s, NONE


@vmeth("get")
def _vget(I, st, v, args, kw, kws, fr, node):
  k = I.reify_light(st, args[0])
  d = args[1] if len(args) > 1 else NONE
  if v.a[0].op == "Ref" and isK(k, str):
    f = I.obj(st, v.a[0]).fields
    if kval(k) in f or "$open" not in f:
      yield st, f.get(kval(k), d)
      return
  for s, b in I.contains(st, k, v, fr):
    if b is True:
      yield from I.getitem(s, v, k, fr, node)
    else:
      yield s, d


@vmeth("pop")
def _vpop(I, st, v, args, kw, kws, fr, node):
  k = I.reify_light(st, args[0])
  for s, b in I.contains(st, k, v, fr):
    if b is True or len(args) < 2:
      for s2, x in I.getitem(s, v, k, fr, node):
        s2 = s2.fork()
        I.delitem(s2, v, k, fr, node)
        yield s2, x
    else:
      yield s, args[1]


@vmeth("setdefault")
def _vsetdefault(I, st, v, args, kw, kws, fr, node):
  k = I.reify_light(st, args[0])
  for s, b in I.contains(st, k, v, fr):
    if b is True:
      yield from I.getitem(s, v, k, fr, node)
    else:
      for s2, _ in I.setitem(s.fork(), v, k, args[1], fr, node):
        yield s2, args[1]
